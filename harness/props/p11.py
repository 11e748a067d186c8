import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gen
import ref
from core import arr, check, close, fail, raises, sub
from props.p10 import arch_sample, flat, fresh, model, reference_sample

ASSUMPTIONS = ["sample correlations by direct counting (tau-b) and the Pearson formula on average ranks",
               "pairs with |tau| = 1 are outside the attainable range of the one-parameter families and are not generated for them",
               "when a projection is needed the result must be a correlation matrix at least as close (Frobenius, 10% slack) as the eigenvalue-clipped one"]

FAMS = ["gaussian", "student", "clayton", "frank", "gumbel"]


@st.composite
def cases(draw, fams=FAMS, dims=(2, 5), sizes=(6, 80)):
    c = draw(model(fams, draw(st.sampled_from([dims, dims, dims, (6, 10)]))))
    c["n"] = draw(st.integers(max(sizes[0], c["dim"] + 1), sizes[1]))
    c["seed"] = draw(gen.seeds())
    c["shape"] = draw(st.sampled_from(["pobs", "raw", "ties", "frame", "list"]))
    c["ties"] = draw(st.sampled_from(["average", "min", "max", "ordinal", "dense"]))
    c["start_df"] = draw(st.sampled_from([4.0, 0.25, 12.5, 150.0]))
    c["noise"] = draw(st.booleans()) and c["fam"] in ("gaussian", "student")  # independent columns, few rows: projections needed
    c["method"] = draw(st.sampled_from(["itau", "irho", "ITAU"])) if c["fam"] == "gaussian" else "itau"
    return c


def sample(c):
    if c["noise"]:
        r = gen.rng(c["seed"])
        c["n"] = max(c["dim"] + 1, min(c["n"], 9))
        return r.uniform(size=(c["n"], c["dim"]))
    return reference_sample(c)


def data_of(c):
    u = sample(c)
    if c["shape"] == "pobs":
        return u, False, u
    x = np.exp(3 * u) * np.arange(1, u.shape[1] + 1) - 4
    if c["shape"] == "ties":
        x = np.round(u * 8)
        if any(len(np.unique(x[:, j])) < 3 for j in range(x.shape[1])):
            x = u
    p = ref.pobs(x, c["ties"])
    if c["shape"] == "frame":
        x = pd.DataFrame(x, columns=list("abcdefghij")[:x.shape[1]], index=np.arange(len(x)) * 3 + 1)
    elif c["shape"] == "list":
        x = x.tolist()
    return x, True, p


def inverse(fam, t):
    """theta with tau(theta) = t."""
    if fam == "clayton":
        return 2 * t / (1 - t)
    if fam == "gumbel":
        return 1 / (1 - t)
    if abs(t) < 1e-12:
        return 9 * t
    lo, hi = (1e-9, 1.0) if t > 0 else (-1.0, -1e-9)
    f = lambda x: float(ref.tau("frank", x))
    if t > 0:
        while f(hi) < t:
            hi *= 2
    else:
        while f(lo) > t:
            lo *= 2
    for _ in range(60):
        m = (lo + hi) / 2
        lo, hi = (m, hi) if f(m) < t else (lo, m)
    return (lo + hi) / 2


def pairs(d):
    return [(i, j) for j in range(d) for i in range(j + 1, d)]


def expected(c, p):
    d = c["dim"]
    m = c["method"].lower()
    cor = ref.kendall if m == "itau" else ref.spearman
    t = np.array([cor(p[:, i], p[:, j]) for i, j in pairs(d)])
    if c["fam"] in ("gaussian", "student"):
        return t, (np.sin(np.pi / 2 * t) if m == "itau" else 2 * np.sin(np.pi / 6 * t))
    return t, np.array([np.mean([inverse(c["fam"], v) for v in t])])


def clipped(m):
    w, v = np.linalg.eigh(m)
    x = v @ np.diag(np.maximum(w, 1e-15)) @ v.T
    s = np.sqrt(np.diag(x))
    return x / np.outer(s, s)


@sub("P11", cases(), 700, 10000, "random family, method, sample, packaging and tie rule: parameters against the family's inverse of independently counted correlations, summary contents, data untouched")
def inversion(c, note):
    x, to_pobs, p = data_of(c)
    k = fresh(c)
    d = c["dim"]
    keep = x.copy() if not isinstance(x, list) else [r[:] for r in x]
    tau, want = expected(c, p)
    note(c["fam"], c["method"], c["shape"], f"d{d}")
    arch = c["fam"] not in ("gaussian", "student")
    if arch:
        if np.abs(tau).max() > 0.97:
            return note.skip("no attainable parameter")
        if c["fam"] == "gumbel":
            if tau.min() < 0:
                return note.skip("negative tau")
        elif d > 2 and want[0] < 0:
            raises(ValueError, lambda: k.fit(x, method="itau", to_pobs=to_pobs, ties=c["ties"], verbose=0), "negative parameter in more than two dimensions")
            return note.skip("negative tau")
    if np.isnan(tau).any():
        return note.skip("constant column")
    r = k.fit(x, method=c["method"], to_pobs=to_pobs, ties=c["ties"], verbose=0)
    check(r is k, "fit does not return the copula")
    check(keep == x if isinstance(x, list) else (keep.equals(x) if isinstance(x, pd.DataFrame) else np.array_equal(keep, x)), "fit changed the data")
    got = flat(k.params)
    if c["fam"] == "student":
        check(got[0] == c["start_df"], f"df became {got[0]}, was {c['start_df']}")
        got = got[1:]
    s = k.summary("fit")
    what = f"{c['fam']} {c['method']} dim {d}"
    if arch:
        close(got, want, 1e-5 if c["fam"] == "frank" else 1e-9, 1e-6, f"{what}: parameter for pair correlations {tau.tolist()}")
    else:
        R = ref.corr_from_lower(want, d)
        e = np.linalg.eigvalsh(R)[0]
        if e > 1e-9:
            close(got, want, 1e-11, 1e-12, f"{what}: correlations for pair correlations {tau.tolist()}")
            note("as is")
        else:
            note("projected")
            G = ref.corr_from_lower(got, d)
            check(np.linalg.eigvalsh(G)[0] > -1e-9 and np.abs(G).max() <= 1 + 1e-9, f"{what}: projected matrix {G.tolist()} is not a correlation matrix")
            lim = np.linalg.norm(clipped(R) - R) * 1.1 + 1e-7
            check(np.linalg.norm(G - R) <= lim, f"{what}: projection {got} is further from {want} than eigenvalue clipping ({np.linalg.norm(G - R)} > {lim})")
    sp = flat(s.params)
    check(np.array_equal(sp[-len(got):], got), f"summary parameters {s.params}, copula {k.params}")
    check(s.nsample == len(p), f"summary sample size {s.nsample}, data {len(p)}")
    check(("kendall" if c["method"].lower() == "itau" else "spearman") in s.method.lower(), f"summary method {s.method!r}")
    ll = s.log_lik
    own = arr(k.log_lik(p, to_pobs=False))
    check(own == ll or (np.isnan(own) and np.isnan(ll)) or abs(own - ll) <= 1e-8 * (1 + abs(own)), f"summary log-likelihood {ll!r}, data {own!r}")
    if arch or np.linalg.eigvalsh(ref.corr_from_lower(got, d))[0] > 1e-8:
        v = float(np.sum(arr(k.pdf(p, log=True))))
        check(v == ll or abs(v - ll) <= 1e-8 * (1 + abs(v)), f"summary log-likelihood {ll!r}, sum of log densities of the pseudo-observations {v!r}")


@sub("P11", cases(sizes=(6, 50)), 300, 5000, "strictly increasing transformations of any column leave the fit unchanged; permuting rows too; swapping columns permutes the correlations")
def invariance(c, note):
    c = dict(c, shape="raw" if c["shape"] == "pobs" else c["shape"])
    x, to_pobs, p = data_of(c)
    d = c["dim"]
    tau, want = expected(c, p)
    note(c["fam"], c["method"])
    arch = c["fam"] not in ("gaussian", "student")
    if arch and (np.abs(tau).max() > 0.97 or (c["fam"] == "gumbel" or d > 2) and tau.min() < 0):
        return note.skip("not attainable")
    X = np.asarray(x, float)
    Y = X.copy()
    r = gen.rng(c["seed"] + 1)
    for j in range(d):
        z = np.unique(X[:, j])
        f = np.cumsum(r.exponential(size=len(z))) * 10.0 ** r.integers(-2, 3) - 5
        Y[:, j] = f[np.searchsorted(z, X[:, j])]
    fit = lambda z, ties: flat(fresh(c).fit(z, method=c["method"], ties=ties, verbose=0).params)
    a = fit(x, c["ties"])
    b = fit(Y, c["ties"])
    close(b, a, 1e-10, 1e-10, f"{c['fam']} {c['method']} after increasing transformations")
    if c["ties"] != "ordinal":
        i = r.permutation(len(X))
        close(fit(X[i], c["ties"]), a, 1e-10, 1e-10, f"{c['fam']} {c['method']} after permuting the rows")
        j = r.permutation(d)
        e = fit(X[:, j], c["ties"])
        if arch:
            close(e, a, 1e-10, 1e-10, f"{c['fam']} {c['method']} after permuting the columns")
        else:
            R = ref.corr_from_lower(a[-len(tau):], d)
            if np.linalg.eigvalsh(R)[0] > 1e-9:
                close(e[-len(tau):], ref.lower(R[np.ix_(j, j)]), 1e-10, 1e-10, f"{c['fam']} {c['method']} after permuting the columns")


@sub("P11", st.tuples(st.sampled_from(["student", "clayton", "frank", "gumbel", "gaussian"]), st.sampled_from(["irho", "foo", "tau", "moment"]), gen.seeds()), 60, 600,
     "irho where it is not available and unknown methods raise and leave the parameters alone")
def unavailable(t, note):
    f, m, seed = t
    if f == "gaussian" and m == "irho":
        m = "foo"
    c = {"fam": f, "dim": 2, "rho": [0.3], "df": 4.0, "theta": 2.0}
    k = fresh(c)
    before = flat(k.params).copy()
    x = gen.rng(seed).normal(size=(20, 2))
    note(f, m)
    raises(Exception, lambda: k.fit(x, method=m, verbose=0), f"{f} fitted with {m!r}")
    check(np.array_equal(flat(k.params), before), f"{f}: a rejected fit changed the parameters")
    raises(Exception, lambda: k.summary("fit"), "fit summary after a rejected fit")
