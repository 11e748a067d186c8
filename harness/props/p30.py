"""P30: results do not depend on how the data are packaged."""
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gen
from core import arr, check, close, fail, same_bits, sub
from props import p14, p16, p18
from props.util import make

ASSUMPTIONS = ["the Gaussian distribution function above two dimensions is a randomised integral: compared at 2e-3; everything else at 1e-11",
               "matching by name covers frames and labelled rows with exactly the fitted columns, in any order"]

FAMS = ["clayton", "frank", "gumbel", "gaussian", "student", "indep", "marginal", "empirical", "gmc"]


@st.composite
def copulas(draw, fams=tuple(FAMS), dims=(2, 4)):
    fam = draw(st.sampled_from(list(fams)))
    if fam == "marginal":
        c = draw(p16.marginal(names=("norm", "expon", "t", "gamma", "logistic"), dims=dims))
        return {"kind": fam, "dim": c["inner"]["dim"], "c": c}
    if fam == "empirical":
        d = draw(gen.dims_(*dims))
        return {"kind": fam, "dim": d, "smooth": draw(st.sampled_from(p14.SMOOTH)), "ties": draw(st.sampled_from(["average", "min", "max", "ordinal"])),
                "seed": draw(gen.seeds()), "n": draw(st.integers(4, 25))}
    if fam == "gmc":
        p = draw(p18.params(clusters=(1, 3), dims=(dims[0], min(dims[1], 3)), easy=True))
        return {"kind": fam, "dim": p["d"], "p": p}
    if fam in ("gaussian", "student", "indep"):
        c = draw(p16.inner((fam,), dims))
    else:
        c = draw(gen.arch((fam,), dims, {"clayton": 5, "frank": 15, "gumbel": 5}))
    return {"kind": fam, "dim": c["dim"], "c": c}


def sample_of(c):
    r = gen.rng(c["seed"])
    x = r.normal(size=(c["n"], c["dim"])) + r.normal(size=(c["n"], 1))
    return np.round(x, 1) if c["seed"] % 2 else x


def build(c):
    import copulae as cp
    k = c["kind"]
    if k == "marginal":
        return p16.build(c["c"])
    if k == "empirical":
        return cp.EmpiricalCopula(sample_of(c), c["smooth"], c["ties"])
    if k == "gmc":
        from copulae.mixtures import GaussianMixtureCopula
        return GaussianMixtureCopula(c["p"]["m"], c["p"]["d"], p18.make(c["p"]))
    return make(c["c"])


def points(c, n, seed):
    """Evaluation points; real-valued for copulas with margins and mixtures."""
    r = gen.rng(seed)
    d = c["dim"]
    if c["kind"] in ("marginal", "gmc"):
        x = r.normal(size=(n, d)) * 2 + (1 if c["kind"] == "marginal" else 0)
    else:
        x = r.uniform(0.02, 0.98, size=(n, d))
    return np.round(x, 6)


def numbers(v):
    return np.asarray(v, float)


def same(got, want, what, tol):
    got, want = numbers(got), numbers(want)
    check(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}")
    both = np.isnan(got) & np.isnan(want) | (got == want)
    if not both.all():
        close(got[~both], want[~both], tol, tol, what)


def functions(c):
    fs = [("pdf", False), ("pdf", True)]
    if c["kind"] != "student" and not (c["kind"] == "marginal" and c["c"]["inner"]["fam"] == "student"):
        fs += [("cdf", False), ("cdf", True)]
    if c["kind"] == "empirical" and c["smooth"] != "beta":
        fs = fs[2:]
    return fs


def tolerance(c, f):
    if f != "cdf" or c["dim"] < 3:
        return 1e-11
    g = c["kind"] in ("gaussian", "gmc") or c["kind"] == "marginal" and c["c"]["inner"]["fam"] == "gaussian"
    return 2e-3 if g else 1e-11


def containers(x, d):
    names = [f"c{i}" for i in range(d)]
    odd = np.arange(len(x))[::-1] * 3
    big = np.full((2 * len(x), 2 * d), 0.3)
    big[::2, ::2] = x
    ro = x.copy()
    ro.flags.writeable = False
    return {"list": x.tolist(), "tuple": tuple(tuple(v) for v in x.tolist()), "rows": [v for v in x], "F": np.asfortranarray(x), "strided": big[::2, ::2], "reversed": x[::-1].copy()[::-1],
            "readonly": ro, "frame": pd.DataFrame(x, columns=names), "frame with index": pd.DataFrame(x, columns=names, index=odd), "frame with number names": pd.DataFrame(x),
            "f32-free object": x.astype(object).tolist()}


@sub("P30", st.tuples(copulas(), st.integers(2, 6), gen.seeds()), 220, 6000,
     "cdf, pdf and their logs in every container, by rows, by keyword and by batch splits against one evaluation of a C-ordered array")
def packaging(t, note):
    c, n, seed = t
    k = build(c)
    d = c["dim"]
    x = points(c, n, seed)
    r = gen.rng(seed + 1)
    note(c["kind"], f"d{d}")
    for f, log in functions(c):
        g = getattr(k, f)
        tol = tolerance(c, f)
        what = f"{c['kind']} {f}{' log' if log else ''}"
        if tol > 1e-6 and log:
            continue
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            want = g(x.copy(), log)
            check(isinstance(want, np.ndarray) and want.shape == (n,), f"{what} of {n} rows is {type(want).__name__} of shape {np.shape(want)}")
            for name, v in containers(x, d).items():
                same(g(v, log), want, f"{what} of {name} input", tol)
            rows = []
            for i in range(n):
                forms = [x[i], x[i].tolist(), x[i:i + 1], tuple(x[i]), [x[i].tolist()], pd.Series(x[i], index=[f"c{j}" for j in range(d)]), pd.DataFrame(x[i:i + 1]), np.asfortranarray(x)[i]]
                v = g(forms[int(r.integers(len(forms)))], log)
                check(isinstance(v, float), f"{what} of one row is a {type(v).__name__}, expected a float")
                rows.append(v)
            same(rows, want, f"{what} row by row", tol)
            cut = int(r.integers(1, n))
            parts = [np.atleast_1d(numbers(g(p, log))) for p in (x[:cut], x[cut:])]
            same(np.concatenate(parts), want, f"{what} in two batches", tol)
            p = r.permutation(n)
            same(g(x[p], log), want[p], f"{what} of permuted rows", tol)
            arg = {"pdf": {"clayton": "u", "frank": "u", "gumbel": "u", "gaussian": "u", "student": "u", "empirical": "u"}, "cdf": {"empirical": "u"}}[f].get(c["kind"], "x")
            same(g(**{arg: x.tolist()}, log=log), want, f"{what} by keyword", tol)
            same(g(log=log, **{arg: pd.DataFrame(x)}), want, f"{what} of a frame by keyword", tol)
            many = np.vstack([x] * 40)
            same(numbers(g(many, log)), np.concatenate([numbers(want)] * 40), f"{what} of repeated rows", tol)


@sub("P30", st.tuples(copulas(), st.integers(1, 4), gen.seeds()), 200, 5000,
     "integer-typed points give the values of the equal floats (corners of the hypercube; whole numbers for margins and mixtures)")
def integers(t, note):
    c, n, seed = t
    k = build(c)
    r = gen.rng(seed)
    hi = 4 if c["kind"] in ("marginal", "gmc") else 2
    x = r.integers(0, hi, (n, c["dim"]))
    note(c["kind"])
    for f, log in functions(c):
        g = getattr(k, f)
        tol = tolerance(c, f)
        if tol > 1e-6 and log:
            continue
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            want = g(x.astype(float), log)
            for name, v in (("int array", x), ("list of int", x.tolist()), ("int32 frame", pd.DataFrame(x.astype(np.int32))), ("mixed list", [[float(q) if i % 2 else int(q) for i, q in enumerate(row)] for row in x]),
                            ("bool array", x.astype(bool)) if hi == 2 else ("int8", x.astype(np.int8))):
                if name == "bool array" and c["kind"] == "empirical":
                    continue
                same(g(v, log), want, f"{c['kind']} {f}{' log' if log else ''} of {name} {x.tolist()}", tol)
            v = g(x[0], log)
            check(isinstance(v, float), f"{f} of one integer row is a {type(v).__name__}")
            same(v, np.atleast_1d(numbers(want))[0], f"{c['kind']} {f} of one integer row", tol)


@sub("P30", st.tuples(copulas(tuple(f for f in FAMS if f not in ("gmc", "empirical"))), st.integers(2, 25), gen.seeds(), st.booleans(), st.sampled_from(["average", "min", "max"])), 350, 4000,
     "log_lik of lists, frames and every memory layout of the same data, with and without conversion to pseudo-observations")
def loglik(t, note):
    c, n, seed, pobs, ties = t
    k = build(c)
    x = points(c, n, seed)
    if pobs:
        r = gen.rng(seed)
        x = np.round(r.normal(size=x.shape) * 3, 1 if seed % 2 else 6)
    note(c["kind"], "pobs" if pobs else "raw")
    kw = {"to_pobs": pobs, "ties": ties}
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = k.log_lik(x.copy(), **kw)
        check(np.ndim(want) == 0, f"log_lik has shape {np.shape(want)}")
        for name, v in containers(x, c["dim"]).items():
            same(k.log_lik(v, **kw), want, f"{c['kind']} log_lik of {name} input", 1e-11)
        if not pobs:
            same(k.log_lik(x[::-1], **kw), want, f"{c['kind']} log_lik of the rows in another order", 1e-10)
            v = sum(float(k.log_lik(x[i:i + 1], **kw)) for i in range(n))
            same(v, want, f"{c['kind']} log_lik as the sum over single rows", 1e-10)
        if pobs:
            same(k.log_lik(np.round(x * 10 ** 6).astype(np.int64), **kw), k.log_lik(np.round(x * 10 ** 6), **kw), f"{c['kind']} log_lik of integers", 1e-11)


NAMES = [["b", "a", "d", "c"], [2, 0, 3, 1], ["x", 1, "y", 2.5], [("a", 1), ("a", 2), ("b", 1), ("b", 2)], ["name", "0", "index", "T"]]


@st.composite
def fitted(draw):
    fam = draw(st.sampled_from(FAMS))
    d = draw(st.integers(2, 4 if fam not in ("gmc", "student") else 3))
    return {"fam": fam, "d": d, "n": draw(st.integers(8, 40)) + (25 if fam == "gmc" else 0), "seed": draw(gen.seeds()), "names": draw(st.sampled_from(NAMES))[:d],
            "perm": draw(st.permutations(list(range(d)))), "inner": draw(st.sampled_from(["gaussian", "clayton", "frank"])), "method": draw(st.sampled_from(["ml", "itau"])),
            "smooth": draw(st.sampled_from(p14.SMOOTH)), "index": draw(st.booleans()), "refit": draw(st.booleans())}


def blank(c):
    import copulae as cp
    d, f = c["d"], c["fam"]
    if f == "marginal":
        inner = {"gaussian": cp.GaussianCopula, "clayton": cp.ClaytonCopula, "frank": cp.FrankCopula}[c["inner"]](dim=d)
        return cp.MarginalCopula(inner, ["norm", "logistic", "laplace", "norm"][:d])
    if f == "gmc":
        from copulae.mixtures import GaussianMixtureCopula
        return GaussianMixtureCopula(2, d)
    return {"clayton": cp.ClaytonCopula, "frank": cp.FrankCopula, "gumbel": cp.GumbelCopula, "gaussian": cp.GaussianCopula, "student": cp.StudentCopula}[f](dim=d)


def train(c, data):
    import copulae as cp
    if c["fam"] == "empirical":
        return cp.EmpiricalCopula(data, c["smooth"])
    if c["fam"] == "indep":  # nothing to fit: the labels are given to the constructor
        return cp.IndepCopula(c["d"], list(data.columns) if isinstance(data, pd.DataFrame) else None)
    k = blank(c)
    np.random.seed(5)
    if c["fam"] == "gmc":
        k.fit(data, method="kmeans", verbose=0)
    else:
        m = "ml" if c["fam"] in ("student", "marginal") and c["inner"] != "frank" else c["method"]
        k.fit(data, method=m, verbose=0)
    return k


def flat(v):
    if isinstance(v, dict):
        return np.concatenate([flat(v[q]) for q in sorted(v)]) if v else np.zeros(0)
    if isinstance(v, (list, tuple)):
        return np.concatenate([flat(q) for q in v]) if len(v) else np.zeros(0)
    if isinstance(v, str) or v is None:
        return np.zeros(0)
    if hasattr(v, "prob"):
        return np.concatenate([np.ravel(v.prob), np.ravel(v.means), np.ravel(v.covs)])
    return np.ravel(np.asarray(v, float))


@sub("P30", fitted(), 90, 1500, "fit on a frame against fit on its array: parameters, evaluations of frames and labelled rows in any column order, labelled samples; refit on the other kind", shrink=False)
def columns(c, note):
    d, names = c["d"], c["names"]
    r = gen.rng(c["seed"])
    x = r.normal(size=(c["n"], d)) * [1, 2, 0.5, 1][:d] + 0.9 * np.abs(r.normal(size=(c["n"], 1)))
    index = np.arange(c["n"])[::-1] if c["index"] else None
    df = pd.DataFrame(x, columns=pd.Index(names, tupleize_cols=False), index=index)
    keep = df.copy()
    note(c["fam"], str(names[0]), "permuted" if list(c["perm"]) != list(range(d)) else "in order", "refit" if c["refit"] else "fresh")
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            a = train(c, x)
        except Exception as e:
            note.skip(f"fit refused: {type(e).__name__}")
            try:
                train(c, df)
            except Exception:
                return
            fail(f"fit refuses the array ({e}) and accepts the frame")
        if c["fam"] == "gmc" and min(np.linalg.eigvalsh(q)[0] for q in a.params.covs) < 1e-6:
            note.skip("degenerate cluster")
            return
        b = train(c, df)
        if c["refit"] and c["fam"] != "empirical":
            b2 = train(c, pd.DataFrame(x[:, ::-1], columns=[f"old{i}" for i in range(d)]))
            # fitted again on other data: the labels of the last fit count
            np.random.seed(5)
            if c["fam"] == "gmc":
                b2.fit(df, method="kmeans", verbose=0)
                b = b2
        check(keep.equals(df) and list(df.columns) == names, "fit changed the frame")
        same_bits(flat(b.params), flat(a.params), f"{c['fam']}: parameters fitted on the array and on the frame")

        # samples carry the names
        s, z = b.random(7, seed=11), a.random(7, seed=11)
        check(isinstance(s, pd.DataFrame) and list(s.columns) == names, f"{c['fam']}: sample of a copula fitted on a frame has columns {list(getattr(s, 'columns', []))}, expected {names}")
        check(not isinstance(z, pd.DataFrame) and np.shape(z) == (7, d), f"{c['fam']}: sample of a copula fitted on an array is {type(z).__name__} of shape {np.shape(z)}")
        same_bits(s.to_numpy(), np.asarray(z), f"{c['fam']}: sample values")

        # evaluation of frames in any column order
        pts = x[:5] * 0.9 if c["fam"] in ("gmc", "marginal") else np.round(r.uniform(0.05, 0.95, (5, d)), 3)
        f = pd.DataFrame(pts, columns=pd.Index(names, tupleize_cols=False), index=np.array([4, 2, 0, 3, 1]) if c["index"] else None)
        g = f.iloc[:, list(c["perm"])]
        cc = {"kind": c["fam"], "dim": d, "smooth": c["smooth"], "c": {"inner": {"fam": c["inner"]}}}
        for name, log in functions(cc):
            tol = tolerance(cc, name)
            if tol > 1e-6 and log:
                continue
            h = getattr(b, name)
            want = getattr(a, name)(pts, log)
            what = f"{c['fam']} {name}{' log' if log else ''} after a fit on columns {names}"
            same(h(pts, log), want, f"{what} of an array", tol)
            same(h(f, log), want, f"{what} of a frame in order", tol)
            same(h(g, log), want, f"{what} of a frame in the order {list(g.columns)}", tol)
            v = h(g.iloc[2], log)
            check(isinstance(v, float), f"{what} of a labelled row is a {type(v).__name__}")
            same(v, numbers(want)[2], f"{what} of a labelled row in the order {list(g.columns)}", tol)
            same(h(g.iloc[[3]], log), numbers(want)[3], f"{what} of a frame of one row", tol)
            same(h(f.to_numpy()[:, ::-1][:, ::-1], log), want, f"{what} of a view", tol)
        if c["fam"] not in ("gmc", "empirical"):
            raw = c["fam"] == "marginal"
            lw = a.log_lik(pts if raw else x, to_pobs=not raw)
            data = f if raw else df
            same(b.log_lik(data, to_pobs=not raw), lw, f"{c['fam']} log_lik of the frame", 1e-11)
            same(b.log_lik(data.iloc[:, list(c["perm"])], to_pobs=not raw), lw, f"{c['fam']} log_lik of the frame in another column order", 1e-11)
        check(list(g.columns) == [names[i] for i in c["perm"]], "evaluation reordered the caller's frame")

        # labels belong to the last fit
        if c["refit"] and c["fam"] not in ("empirical", "gmc", "indep"):
            b.fit(x, method="ml" if c["fam"] in ("student", "marginal") and c["inner"] != "frank" else c["method"], verbose=0)
            check(not isinstance(b.random(3, seed=1), pd.DataFrame), f"{c['fam']}: labels of an earlier fit on a frame survive a fit on an array")
        if c["refit"] and c["fam"] not in ("empirical", "indep"):
            k = train(c, df)
            other = names[::-1] if names[::-1] != names and c["index"] else [f"new{i}" for i in range(d)]
            np.random.seed(5)
            m = "kmeans" if c["fam"] == "gmc" else "ml" if c["fam"] in ("student", "marginal") and c["inner"] != "frank" else c["method"]
            k.fit(pd.DataFrame(x, columns=pd.Index(other, tupleize_cols=False)), method=m, verbose=0)
            s = k.random(3, seed=1)
            check(isinstance(s, pd.DataFrame) and list(s.columns) == other, f"{c['fam']}: fitted on columns {names}, then on {other}: the sample has columns {list(getattr(s, 'columns', []))}")
            f2 = pd.DataFrame(pts, columns=pd.Index(other, tupleize_cols=False))
            name, log = next(iter(functions(cc)))
            same(getattr(k, name)(f2.iloc[:, list(c["perm"])], log), getattr(k, name)(pts, log), f"{c['fam']} {name} after a second fit on other labels, of a frame in the order {list(c['perm'])}", tolerance(cc, name))
