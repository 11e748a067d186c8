"""P31: invalid parameters, dimensions and data are rejected, valid ones accepted."""
import math
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gen
import ref
from core import arr, check, close, fail, same_bits, sub
from props import p14, p16, p18, p30

ASSUMPTIONS = ["any exception counts as a rejection unless the documentation names one; correlations within 1e-6 of the bounds and NaN are outside the property",
               "IndepCopula.fit and EmpiricalCopula.fit are documented to do nothing and are outside the fitting part"]


def quiet(f, *a, **k):
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def rejected(f, what, exc=Exception):
    try:
        v = quiet(f)
    except exc:
        return
    except Exception as e:
        fail(f"{what}: raised {type(e).__name__} ({e}), expected {exc}")
    fail(f"{what}: accepted (result {str(v)[:80]})")


def accepted(f, what):
    try:
        return quiet(f)
    except Exception as e:
        fail(f"{what}: rejected with {type(e).__name__}: {e}")


def snapshot(k, c):
    """everything observable that a rejected call might have changed"""
    x = p30.points(c, 3, 7)
    out = [p30.flat(k.params), k.dim, k.name]
    for f, log in p30.functions(c)[:3:2]:
        if p30.tolerance(c, f) < 1e-6:
            out.append(quiet(getattr(k, f), x, log))
    out.append(quiet(k.random, 3, 5))
    try:
        out.append(str(k.summary("fit")))
    except Exception as e:
        out.append(type(e).__name__)
    out.append(str(quiet(k.summary)))
    return out


def unchanged(before, k, c, what):
    after = snapshot(k, c)
    for i, (a, b) in enumerate(zip(before, after)):
        if isinstance(a, (str, int)):
            check(a == b, f"{what}: changed the copula ({str(a)[:200]} -> {str(b)[:200]})")
        else:
            check(type(a) is type(b), f"{what}: changed the copula's output from {type(a).__name__} to {type(b).__name__}")
            same_bits(np.asarray(a), np.asarray(b), f"{what}: state {i}")


def cls(fam):
    import copulae as cp
    return {"clayton": cp.ClaytonCopula, "frank": cp.FrankCopula, "gumbel": cp.GumbelCopula, "gaussian": cp.GaussianCopula, "student": cp.StudentCopula, "indep": cp.IndepCopula}[fam]


SMALL = [1e-9, 1e-3, 0.3, 2.0, 50.0]


@sub("P31", st.tuples(st.sampled_from(["clayton", "frank", "gumbel"]), gen.dims_(2, 7), st.one_of(gen.logfl(1e-6, 1e3), st.sampled_from(SMALL + [1e-7])), gen.seeds()), 260, 9000,
     "Archimedean constructor and setter: parameters beyond the bound are rejected and leave the copula as it was, those inside are kept exactly", shrink=True)
def archimedean(t, note):
    fam, d, e, seed = t
    K = cls(fam)
    lower = {"clayton": -1.0 if d == 2 else 0.0, "frank": -math.inf if d == 2 else 0.0, "gumbel": 1.0}[fam]
    note(fam, f"d{min(d, 4)}")
    th = 2.0
    k = K(th, d)
    c = {"kind": fam, "dim": d, "c": {"fam": fam, "dim": d, "theta": th}}
    before = snapshot(k, c)
    if lower > -math.inf:
        bad = lower - e
        for v in (bad, np.float64(bad), int(math.floor(lower - 1)), np.float32(lower - 0.5), -1e300):
            rejected(lambda: K(v, d), f"{fam}({v!r}, dim={d})", (AssertionError, ValueError))
            rejected(lambda: K(theta=v, dim=d), f"{fam}(theta={v!r}, dim={d})", (AssertionError, ValueError))
            rejected(lambda: setattr(k, "params", v), f"{fam} of dimension {d}: params = {v!r}", (AssertionError, ValueError))
            unchanged(before, k, c, f"{fam}: params = {v!r} (rejected)")
    for v in ([2.0, 3.0], np.array([2.0, 3.0]), "much", None, {"theta": 2.0}):
        rejected(lambda: setattr(k, "params", v), f"{fam}: params = {v!r}")
        unchanged(before, k, c, f"{fam}: params = {v!r} (rejected)")
    good = [lower + e, lower + e * 10, 1.0, 3, np.float64(lower + e if lower > -math.inf else -e), np.float32(1.5), 7]
    good = [max(v, lower) if lower > -math.inf else v for v in good] + ([lower] if lower > -math.inf else [-e, -30.0, 0]) + ([0.0, 0] if fam != "gumbel" else [1])
    for v in good:
        if not np.isfinite(v):
            continue
        q = accepted(lambda: K(v, d), f"{fam}({v!r}, dim={d})")
        check(q.params == float(v) and q.dim == d, f"{fam}({v!r}, dim={d}) has params {q.params}, dim {q.dim}")
        accepted(lambda: setattr(k, "params", v), f"{fam} of dimension {d}: params = {v!r}")
        check(k.params == float(v), f"{fam}: params = {v!r} reads back {k.params!r}")
    for bad in (1, 0, -2, 2.5, "2", None):
        rejected(lambda: K(2.0, bad), f"{fam}(2, dim={bad!r})")
    lo, hi = K(2.0, d).bounds
    check(abs(lo - lower) < 1e-9 and hi == math.inf if lower > -math.inf else lo == -math.inf and hi == math.inf, f"{fam} of dimension {d}: bounds {lo}, {hi}")


@sub("P31", st.tuples(st.sampled_from(["gaussian", "student"]), gen.dim_corr((2, 5), 0.99), gen.fl(1e-3, 5), gen.seeds(), gen.logfl(0.05, 1e6)), 180, 6000,
     "elliptical parameter vectors, entries and degrees of freedom outside their range or of the wrong length are rejected without effect; every correlation matrix is accepted")
def elliptical(t, note):
    from copulae.elliptical.student import StudentParams
    fam, (d, rho), e, seed, df = t
    K = cls(fam)
    r = gen.rng(seed)
    note(fam, f"d{d}")
    p = len(rho)
    rho = np.array(rho)
    k = K(d)
    stu = fam == "student"
    vec = (lambda v: np.r_[df, v]) if stu else (lambda v: np.asarray(v))
    accepted(lambda: setattr(k, "params", vec(rho)), f"{fam}: params = {vec(rho).tolist()}")
    got = k.params.rho if stu else k.params
    same_bits(np.array(got), rho, f"{fam}: correlations set")
    check(not stu or k.params.df == df, f"student: df set to {df} reads {k.params[0]}")
    c = {"kind": fam, "dim": d, "c": {"fam": fam, "dim": d, "rho": rho.tolist(), "df": df}}
    before = snapshot(k, c)
    i = int(r.integers(p))
    bads = []
    for v in (1 + e, -1 - e, math.inf, -math.inf):
        w = rho.copy()
        w[i] = v
        bads.append(vec(w))
        bads.append(vec(w).tolist())
    bads += [vec(np.r_[rho, 0.1]), vec(rho)[:-1] if p + stu > 1 else [], vec(rho)[None, :] if p > 1 or stu else np.zeros((2, 2)), np.zeros((d, d)), "text", None]
    if stu:
        for v in (0, -e, -1, -math.inf):
            bads += [np.r_[v, rho], StudentParams(v, rho), [v, *rho]]
        bads += [StudentParams(df, np.r_[rho, 0.1]), rho]
    else:
        bads += [1 + e, -2.0, 5]
    for b in bads:
        rejected(lambda: setattr(k, "params", b), f"{fam} of dimension {d}: params = {b!r}")
        unchanged(before, k, c, f"{fam}: params = {b!r} (rejected)")
    sets = [((i,), 1 + e), ((i,), -1 - e), ((0, 1), 1 + e), ((1, 0), -1.5), ((slice(None), 0), 1 + e), ((1, slice(None)), [2.0] * d), ((0, 0), 0.5), ((d, 0), 0.1), ((0, d), 0.1), ((-1, 0), 0.1),
            ((0, 1, 0), 0.1), ((slice(None),), np.eye(d + 1)), ((slice(None),), np.eye(d) * (1 + e) + e), ((slice(None), slice(None)), np.full((d, d), 1 + e)), ((slice(None), 0), [0.1] * (d + 1)), ((p,), 0.1)]
    for idx, v in sets:
        idx = idx[0] if len(idx) == 1 else idx
        rejected(lambda: k.__setitem__(idx, v), f"{fam} of dimension {d}: copula[{idx}] = {v}", (ValueError, IndexError))
        unchanged(before, k, c, f"{fam}: copula[{idx}] = {v} (rejected)")
    for idx in ((0, 1, 2), "x", (d, 0)):
        rejected(lambda: k[idx], f"{fam}: copula[{idx!r}]")
    # every valid value
    for v in ([1.0] * p, [-1.0] + [0.0] * (p - 1), [0] * p, tuple(rho), rho.tolist(), pd.Series(rho).to_numpy()):
        accepted(lambda: setattr(k, "params", [df, *v] if stu else v), f"{fam}: params = {v}")
        same_bits(np.array(k.params.rho if stu else k.params, float), np.asarray(v, float), f"{fam}: params = {v}")
    if not stu:
        for v in (0.3, 0, 1, -0.25, np.float64(0.5), np.float32(0.5), np.int64(0)):
            if v < 0 and d > 3:
                continue
            accepted(lambda: setattr(k, "params", v), f"gaussian of dimension {d}: params = {v!r}")
            same_bits(np.array(k.params), np.full(p, float(v)), f"gaussian: params = {v!r}")
    else:
        for v in (1e-3, 1, 2, np.int64(4), 1e9, df):
            q = accepted(lambda: K(d, v), f"student({d}, df={v!r})")
            check(q.params.df == v, f"student df {v!r} reads {q.params.df}")
            accepted(lambda: setattr(k, "params", StudentParams(v, rho)), f"student: params = ({v!r}, rho)")
            accepted(lambda: setattr(k, "params", (v, *rho)), f"student: params = ({v!r}, ...)")
        for v in (0, -1, -e, 0.0):
            rejected(lambda: K(d, v), f"student({d}, df={v!r})", (ValueError, AssertionError))
    accepted(lambda: k.__setitem__((1, 0), 0.2), f"{fam}: copula[1, 0] = 0.2")
    accepted(lambda: k.__setitem__(slice(None), ref.corr_from_lower(rho, d)), f"{fam}: copula[:] = matrix")
    close(np.array(k.sigma), ref.corr_from_lower(rho, d), 0, 1e-6, f"{fam}: copula[:] = matrix")
    for bad in (1, 0, -1, 2.5, "2"):
        rejected(lambda: K(bad), f"{fam}(dim={bad!r})")


@sub("P31", st.tuples(p30.copulas(), st.integers(1, 5), gen.seeds()), 130, 4000,
     "cdf and pdf raise for points of another dimension, of three dimensions or scalars, in every container; matching ones are never rejected")
def shapes(t, note):
    c, n, seed = t
    k = p30.build(c)
    d = c["dim"]
    note(c["kind"], f"d{d}")
    before = snapshot(k, c)
    for f, log in p30.functions(c)[::2]:
        g = getattr(k, f)
        for w in (d - 1, d + 1, 1, 2 * d, 0):
            if w == d:
                continue
            x = np.full((n, w), 0.4)
            for v in (x, x.tolist(), pd.DataFrame(x), x[0], x[0].tolist(), pd.Series(x[0]), tuple(x[0]), np.asfortranarray(x)):
                if w == 0 and not isinstance(v, np.ndarray):
                    continue
                rejected(lambda: g(v, log), f"{c['kind']} of dimension {d}: {f} of a {type(v).__name__} of shape {np.shape(v)}", (ValueError, AssertionError, IndexError))
        for v in (np.full((2, n, d), 0.4), np.full((1, 1, d), 0.4).tolist(), np.full((d, d, d), 0.4)):
            rejected(lambda: g(v, log), f"{c['kind']}: {f} of shape {np.shape(v)}", ValueError)
        for v in (0.5, None, np.float64(0.5), np.array(0.5)):
            rejected(lambda: g(v, log), f"{c['kind']}: {f} of {v!r}")
        x = p30.points(c, n, seed)
        if n == d:
            x = x[: d - 1] if d > 2 else x
        for v in (x, x[0], x.tolist(), pd.DataFrame(x)):
            accepted(lambda: g(v, log), f"{c['kind']}: {f} of shape {np.shape(v)}")
    if c["kind"] == "empirical":
        for q in (1.001, -0.001, 7.0):
            x = np.full((n, d), 0.4)
            x[-1, seed % d] = q
            rejected(lambda: k.cdf(x), f"empirical cdf at {x[-1].tolist()}", ValueError)
            rejected(lambda: k.cdf(pd.DataFrame(x)), f"empirical cdf at {x[-1].tolist()}", ValueError)
        if c["smooth"] != "beta":
            rejected(lambda: k.pdf(np.full((n, d), 0.4)), f"empirical density with smoothing {c['smooth']}", AssertionError)
    unchanged(before, k, c, f"{c['kind']}: rejected evaluations")


@sub("P31", st.tuples(st.sampled_from(["clayton", "frank", "gumbel", "gaussian", "student", "marginal", "gmc"]), st.integers(2, 4), st.integers(0, 30), gen.seeds(), st.booleans()), 130, 3000,
     "fits on data of the wrong shape, with too few rows, non-uniform data without conversion or unknown options raise and leave the copula as it was", shrink=False)
def fits(t, note):
    from copulae.copula.exceptions import InputDataError
    fam, d, extra, seed, fit_first = t
    if fam == "gmc":
        d = min(d, 3)
    r = gen.rng(seed)
    note(fam, f"d{d}", "fitted before" if fit_first else "fresh")
    k = p30.blank({"fam": fam, "d": d, "inner": "gaussian"})
    base = r.normal(size=(25, 1)) + 0.8 * r.normal(size=(25, d)) + (3 * (r.uniform(size=(25, 1)) < 0.5) if fam == "gmc" else 0)
    method = "kmeans" if fam == "gmc" else "itau" if fam in ("clayton", "frank", "gumbel", "gaussian") else "ml"
    np.random.seed(1)
    if fit_first:
        quiet(k.fit, pd.DataFrame(base, columns=list("wxyz")[:d]), method=method, verbose=0)
    elif fam == "gmc":
        k.params = p18.make({"m": 2, "d": d, "prob": [0.5, 0.5], "means": np.zeros((2, d)), "covs": np.array([np.eye(d)] * 2)})
    elif fam in ("clayton", "frank", "gumbel"):
        k.params = 2.0
    c = {"kind": fam, "dim": d, "c": {"inner": {"fam": "gaussian"}}}
    before = snapshot(k, c)
    n = 6 + extra
    bad = []
    for w in (d - 1, d + 1, 1):
        if w > 0 and w != d:
            x = r.normal(size=(n, w))
            bad += [(x, {}, "columns"), (pd.DataFrame(x), {}, "columns"), (r.uniform(size=(n, w)), {"to_pobs": False}, "columns")]
    bad += [(r.normal(size=n), {}, "vector"), (r.normal(size=d), {}, "vector"), (r.normal(size=(2, n, d)), {}, "three-dimensional"), (r.uniform(size=(1, n, d)), {"to_pobs": False}, "three-dimensional")]
    if fam != "gmc":
        for q in range(1, d):
            bad += [(r.normal(size=(q, d)), {}, "too few rows"), (pd.DataFrame(r.normal(size=(q, d))), {"method": "ml"}, "too few rows"), (r.uniform(size=(q, d)), {"to_pobs": False}, "too few rows")]
        u = r.uniform(0.01, 0.99, size=(n, d))
        for v in (1.01, -0.01, 50.0, -3.0):
            w = u.copy()
            w[int(r.integers(n)), int(r.integers(d))] = v
            bad += [(w, {"to_pobs": False}, "not uniform"), (pd.DataFrame(w), {"to_pobs": False}, "not uniform"), (w.tolist(), {"to_pobs": False}, "not uniform")]
        bad += [(base, {"method": "magic"}, "unknown method"), (base, {"ties": "sometimes"}, "unknown ties"), (base, {"method": "irho"}, "unavailable method") if fam == "student" else (base, {"method": ""}, "unknown method")]
    else:
        bad += [(base, {"method": "magic"}, "unknown method"), (base, {"method": "kmeans", "ties": "sometimes"}, "unknown ties"), (base, {"method": "pem", "criteria": "never"}, "unknown criteria"),
                (base[:1], {"method": "kmeans"}, "too few rows"), (base, {"method": "pem", "x0": np.zeros(3)}, "bad start")]
    for x, kw, why in bad:
        keep = np.array(x, copy=True)
        m = {"method": method} | kw
        what = f"{fam} of dimension {d}: fit of data of shape {np.shape(x)} with {m} ({why})"
        exc = Exception
        if why in ("columns", "vector") and fam != "gmc" and not (why == "vector" and not m.get("to_pobs", True)):
            exc = InputDataError
        elif why == "not uniform":
            exc = InputDataError
        rejected(lambda: k.fit(x, verbose=0, **m), what, exc)
        unchanged(before, k, c, what)
        same_bits(np.asarray(x), keep, f"{what}: data")
    # a valid fit still works afterwards
    np.random.seed(1)
    x = base[: max(d, 8)] if fam in ("clayton", "frank", "gumbel") and ref_tau_positive(base[: max(d, 8)]) else base
    accepted(lambda: k.fit(x, method=method, verbose=0), f"{fam}: fit of valid data of shape {x.shape}")


def ref_tau_positive(x):
    d = x.shape[1]
    return np.mean([ref.kendall(x[:, i], x[:, j]) for i in range(d) for j in range(i)]) > 0.05


@sub("P31", st.tuples(st.sampled_from(["clayton", "frank", "gumbel", "gaussian", "student", "marginal"]), st.integers(2, 4), gen.seeds(), st.sampled_from(["array", "list", "frame", "tuple"])), 70, 1500,
     "smallest and boundary data that a fit must accept: n = dimension rows, values exactly 0 or 1 of uniform data, every method and tie rule in any case", shrink=False)
def smallest(t, note):
    fam, d, seed, form = t
    r = gen.rng(seed)
    note(fam, form)
    k = p30.blank({"fam": fam, "d": d, "inner": "gaussian"})
    z = np.arange(d + 1.0)[:, None] + np.zeros(d)
    for j in range(1, d):
        z[[j - 1, j], j] = z[[j, j - 1], j]  # dependent, no pair perfectly
    x = {"array": z, "list": z.tolist(), "frame": pd.DataFrame(z), "tuple": tuple(map(tuple, z))}[form]
    if fam in ("clayton", "frank", "gumbel", "gaussian"):
        accepted(lambda: k.fit(x, method="itau", verbose=0), f"{fam} of dimension {d}: fit of {d + 1} rows by itau")
        if d > 2 and fam == "gaussian":
            accepted(lambda: k.fit(z[:d], method="itau", verbose=0), f"{fam} of dimension {d}: fit of {d} rows by itau")
    big = r.normal(size=(20, 1)) + 0.7 * r.normal(size=(20, d))
    for ties in ("average", "min", "max", "dense", "ordinal", "Average", "MIN"):
        m = "itau" if fam in ("clayton", "frank", "gumbel", "gaussian") else "ml"
        if fam in ("student", "marginal") and ties not in ("average", "MIN"):
            continue
        accepted(lambda: k.fit(np.round(big, 1), method=m.upper() if seed % 2 else m, ties=ties, verbose=0), f"{fam}: fit with ties={ties}, method={m}")
    if fam in ("clayton", "frank", "gumbel", "gaussian"):
        u = (np.argsort(np.argsort(big, 0), 0)) / 19.0  # contains exactly 0 and 1
        accepted(lambda: k.fit(u, method="itau", to_pobs=False, verbose=0), f"{fam}: fit of uniform data that contains 0 and 1")


@sub("P31", st.tuples(p30.copulas(), gen.seeds()), 150, 4000,
     "summaries: the fit summary of an unfitted copula and unknown categories raise the documented errors; unparameterised mixtures refuse every query; invalid margins, mixtures and smoothing are rejected")
def summaries(t, note):
    from scipy import stats
    from copulae import EmpiricalCopula, GaussianCopula, MarginalCopula
    from copulae.copula.exceptions import NotFittedError
    from copulae.mixtures import GaussianMixtureCopula
    from copulae.mixtures.gmc.exception import GMCNotFittedError, GMCParamError, GMCParamMismatchError
    c, seed = t
    k = p30.build(c)
    d = c["dim"]
    r = gen.rng(seed)
    note(c["kind"])
    if c["kind"] not in ("indep", "empirical"):
        rejected(lambda: k.summary("fit"), f"{c['kind']}: summary('fit') before a fit", NotFittedError)
        rejected(lambda: k.summary(category="fit"), f"{c['kind']}: summary(category='fit') before a fit", NotFittedError)
    else:
        accepted(lambda: str(k.summary("fit")), f"{c['kind']}: summary('fit')")
    for bad in ("fitted", "", "Copula ", None, 3):
        rejected(lambda: k.summary(bad), f"{c['kind']}: summary({bad!r})", ValueError)
        rejected(lambda: k.summary(category=bad), f"{c['kind']}: summary(category={bad!r})", ValueError)
    for s in (lambda: k.summary(), lambda: k.summary("copula"), lambda: k.summary(category="copula")):
        accepted(s, f"{c['kind']}: summary")
    if c["kind"] in ("clayton", "frank", "gumbel"):
        q = cls(c["kind"])(dim=d)
        check(math.isnan(q.params), f"{c['kind']} without a parameter has {q.params}")
        rejected(lambda: q.pdf(np.full(d, 0.5)), f"{c['kind']}: density without a parameter", AssertionError)
        rejected(lambda: q.summary("fit"), f"{c['kind']}: summary('fit') without a parameter", NotFittedError)
        for deg in (0, 3, -1, 1.5):
            rejected(lambda: k.dipsi([0.5], deg), f"{c['kind']}: dipsi of degree {deg}")
    elif c["kind"] == "gmc":
        m = c["p"]["m"]
        q = GaussianMixtureCopula(m, d)
        x = np.zeros((2, d))
        for name, f in (("cdf", lambda: q.cdf(x)), ("pdf", lambda: q.pdf(x)), ("random", lambda: q.random(3)), ("summary", lambda: q.summary())):
            rejected(f, f"mixture without parameters: {name}", GMCNotFittedError)
        rejected(lambda: q.summary("fit"), "mixture without parameters: summary('fit')", NotFittedError)
        before = snapshot(k, c)
        p = c["p"]
        w = np.array(p["prob"])
        other = p18.make({"m": m + 1, "d": d, "prob": np.full(m + 1, 1 / (m + 1)), "means": np.zeros((m + 1, d)), "covs": np.array([np.eye(d)] * (m + 1))})
        wide = p18.make({"m": m, "d": d + 1, "prob": w, "means": np.zeros((m, d + 1)), "covs": np.array([np.eye(d + 1)] * m)})
        neg = np.array(p["covs"])
        neg[0, 0, 0] = -0.5
        good = {"prob": p["prob"], "means": p["means"], "covs": p["covs"]}
        for b, e in ((other, GMCParamMismatchError), (wide, GMCParamMismatchError), (np.zeros(3), GMCParamError), ({**good, "prob": w * 0.9}, GMCParamError), ({**good, "prob": w + 0.2}, GMCParamError),
                     ({**good, "prob": np.r_[w, 0.0]}, GMCParamError), ({**good, "means": np.zeros((m, d + 1))}, Exception), ({**good, "covs": neg}, GMCParamError), ({**good, "covs": p["covs"][0]}, GMCParamError),
                     ({**good, "prob": np.r_[w[:-1] - 0.3, w[-1] + 0.3] if m > 1 and w[0] < 0.3 else w * 2}, GMCParamError), ({"prob": p["prob"]}, Exception), ("text", Exception)):
            rejected(lambda: setattr(k, "params", b), f"mixture of {m} components of dimension {d}: params = {b}", e)
            unchanged(before, k, c, f"mixture: params = {str(b)[:80]} (rejected)")
            rejected(lambda: GaussianMixtureCopula(m, d, b), f"mixture of {m} components of dimension {d} with params {b}")
        for bad in (1, 0, -1):
            rejected(lambda: GaussianMixtureCopula(m, bad), f"mixture of dimension {bad}")
        accepted(lambda: setattr(k, "params", good), "mixture: params = dictionary")
        accepted(lambda: setattr(k, "params", k.params.to_vector()), "mixture: params = vector")
        accepted(lambda: setattr(k, "params", None), "mixture: params = None")
        rejected(lambda: k.pdf(x), "mixture whose parameters were removed: pdf", GMCNotFittedError)
    elif c["kind"] == "marginal":
        for bad in (["norm"] * (d + 1), ["norm"] * (d - 1), ["norm"] * (d - 1) + ["nosuch"], "nosuch", [{"parameters": {}}] * d, [stats.norm()] * d, ["norm"] * (d - 1) + [3], {"type": stats.norm(0, 1)}, 5, None,
                    [{"type": "poisson"}] * d, ["norm"] * (d - 1) + [{"type": 3}], []):
            rejected(lambda: MarginalCopula(GaussianCopula(d), bad), f"margins {bad} for dimension {d}")
        for good in (["norm"] * d, tuple(["t"] * d), "Normal", {"type": "expon"}, {"type": stats.gamma, "parameters": {"a": 2.0}}, [{"type": "norm", "parameters": {"loc": 3, "scale": 2}}] * d):
            accepted(lambda: MarginalCopula(GaussianCopula(d), good), f"margins {good} for dimension {d}")
    elif c["kind"] == "empirical":
        x = p30.sample_of(c)
        for bad in ("Beta", "bernstein", 0, True):
            rejected(lambda: EmpiricalCopula(x, bad), f"empirical smoothing {bad!r}")
            before = snapshot(k, c)
            rejected(lambda: setattr(k, "smoothing", bad), f"empirical smoothing = {bad!r}")
            unchanged(before, k, c, f"empirical smoothing = {bad!r} (rejected)")
        for bad in (x[:, 0], x[None], x[0].tolist(), x[:, :1]):
            rejected(lambda: EmpiricalCopula(bad), f"empirical data of shape {np.shape(bad)}")
        rejected(lambda: EmpiricalCopula(x, ties="sometimes").cdf(np.full(d, 0.5)), "empirical ties rule 'sometimes'")
    elif c["kind"] == "indep":
        for bad in (["a"] * (d + 1), ["a"] * (d - 1), []):
            rejected(lambda: type(k)(d, bad), f"{len(bad)} fields for dimension {d}")
        accepted(lambda: type(k)(d, list("abcdefg")[:d]), "one field per dimension")
        for bad in (1, 0, -1, 2.5):
            rejected(lambda: type(k)(bad), f"independence copula of dimension {bad!r}")
