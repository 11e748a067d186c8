"""P21: correlation matrices equal pairwise Pearson, Kendall or Spearman correlations."""
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gen
import ref
from core import arr, check, close, fail, raises, sub

ASSUMPTIONS = ["correlations by counting pairs and by own average ranks; undefined (NaN) for a constant column or a missing value that the policy keeps",
               "a pair left with fewer than two complete rows has no correlation and is outside the property"]

METHODS = {"pearson": ref.pearson, "kendall": ref.kendall, "tau": ref.kendall, "spearman": ref.spearman, "rho": ref.spearman}
USES = ["everything", "complete", "pairwise.complete"]


@st.composite
def data(draw, cols=(2, 5), rows=(3, 25)):
    n, d = draw(st.integers(*rows)), draw(st.integers(*cols))
    r = gen.rng(draw(gen.seeds()))
    kind = draw(st.sampled_from(["cont", "cont", "ties", "few", "int", "offset"]))
    x = r.normal(size=(n, d)) @ (np.eye(d) + r.normal(size=(d, d)) * 0.7)
    if kind == "ties":
        x = np.round(x, 0)
    elif kind == "few":
        x = r.integers(0, 3, (n, d)).astype(float)
    elif kind == "int":
        x = np.round(x * 5)
    elif kind == "offset":
        x = x * 10.0 ** r.uniform(-3, 3, d) + 10 * r.normal(size=d)
    miss = draw(st.sampled_from([0.0, 0.0, 0.1, 0.25])) if kind != "int" else 0.0
    x[r.uniform(size=(n, d)) < miss] = np.nan
    return {"x": x.tolist(), "kind": kind, "miss": miss}


def pair(a, b, f, use, mask=None):
    if use == "everything":
        if np.isnan(a).any() or np.isnan(b).any():
            return np.nan
    else:
        v = ~(np.isnan(a) | np.isnan(b)) if mask is None else mask
        a, b = a[v], b[v]
    if len(a) < 2:
        raise LookupError
    return f(a, b)


def matrix(x, f, use):
    d = x.shape[1]
    mask = ~np.isnan(x).any(1) if use == "complete" else None
    m = np.eye(d)
    for i in range(d):
        for j in range(i):
            m[i, j] = m[j, i] = pair(x[:, i], x[:, j], f, use, mask)
    return m


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


@sub("P21", st.tuples(data(), st.sampled_from(sorted(METHODS)), st.sampled_from(USES), st.sampled_from(["array", "frame", "list", "F", "int"]), st.booleans()), 1300, 20000,
     "matrices: every entry from exactly the rows the policy keeps, symmetric, unit diagonal, labels, input untouched, shortcuts")
def matrices(t, note):
    from copulae.stats import corr, kendall_tau, pearson_rho, spearman_rho
    c, method, use, form, up = t
    x = np.array(c["x"])
    if form == "int" and c["kind"] != "int":
        form = "array"
    note(method, use, form, c["kind"], f"missing {c['miss']}")
    try:
        want = matrix(x, METHODS[method], use)
    except LookupError:
        note.skip("fewer than two rows")
        return
    d = x.shape[1]
    cols = ["z", "a", 7, "y", "c"][:d]
    arg = {"array": x.copy(), "frame": pd.DataFrame(x, columns=cols, index=np.arange(len(x)) * 2), "list": x.tolist(), "F": np.asfortranarray(x), "int": x.astype(int) if form == "int" else None}[form]
    keep = None if form == "list" else arg.copy()
    tol = dict(rtol=1e-9, atol=1e-11)
    got = quiet(corr, arg, method=method.upper() if up else method, use=use.upper() if up else use)
    check(isinstance(got, pd.DataFrame) == (form == "frame"), f"result is a {type(got).__name__} for a {form}")
    if form == "frame":
        check(list(got.columns) == cols and list(got.index) == cols, f"labels {list(got.columns)}, {list(got.index)}")
        check(keep.equals(arg), "the data changed")
    elif form != "list":
        check(np.array_equal(keep, arg, equal_nan=form != "int"), "the data changed")
    g = arr(got)
    close(g, want, what=f"{method} correlation, {use}", **tol)
    check(np.array_equal(g, g.T, equal_nan=True), "not symmetric")
    check((np.diag(g) == 1).all(), f"diagonal {np.diag(g)}")
    check((np.abs(g[np.isfinite(g)]) <= 1 + 1e-12).all(), "correlation above one")
    for name, f in (("pearson", pearson_rho), ("kendall", kendall_tau), ("spearman", spearman_rho)):
        close(arr(quiet(f, arg, use=use)), matrix(x, METHODS[name], use), what=f"{name} shortcut", **tol)
    if use == "everything" and method == "pearson":
        close(arr(quiet(corr, arg)), want, what="default method and policy", **tol)
        close(arr(quiet(pearson_rho, arg)), want, what="default policy of the shortcut", **tol)


@sub("P21", st.tuples(data((2, 2)), st.sampled_from(sorted(METHODS)), st.sampled_from(USES), st.sampled_from(["array", "list", "series", "mixed"]), st.sampled_from([None, "p", "q", 0, 1]), st.sampled_from([None, "p", "q", 0, 1])), 900, 12000,
     "vector pairs give the 2x2 matrix with the names of the Series")
def vectors(t, note):
    from copulae.stats import corr, kendall_tau, pearson_rho, spearman_rho
    c, method, use, form, n1, n2 = t
    x = np.array(c["x"])
    note(method, use, form)
    try:
        want = matrix(x, METHODS[method], use)
    except LookupError:
        note.skip("fewer than two rows")
        return
    a, b = x[:, 0].copy(), x[:, 1].copy()
    if form == "list":
        a, b = a.tolist(), b.tolist()
    elif form == "series":
        a, b = pd.Series(a, name=n1), pd.Series(b, name=n2)
    elif form == "mixed":
        a = pd.Series(a, name=n1)
    got = quiet(corr, a, b, method, use)
    check(np.shape(got) == (2, 2), f"shape {np.shape(got)}")
    close(arr(got), want, 1e-9, 1e-11, f"{method} correlation of two vectors, {use}")
    check(isinstance(got, pd.DataFrame) == (form == "series"), f"result is a {type(got).__name__}")
    if form == "series":
        p, q = "X" if n1 is None else n1, "Y" if n2 is None else n2
        lab = list(got.columns)
        check(list(got.index) == lab, "row and column labels differ")
        if p != q:
            check(lab == [p, q], f"labels {lab} for Series named {n1}, {n2}")
        else:
            check(lab[0] != lab[1] and str(p) in str(lab[0]) and str(p) in str(lab[1]), f"labels {lab} for Series both named {n1}")
    f = {"pearson": pearson_rho, "kendall": kendall_tau, "tau": kendall_tau}.get(method, spearman_rho)
    close(arr(quiet(f, a, b, use)), want, 1e-9, 1e-11, "shortcut for two vectors")


@sub("P21", st.tuples(data((2, 4), (6, 20)), gen.seeds(), st.sampled_from(sorted(METHODS))), 400, 5000, "rank correlations do not change under increasing maps, Pearson under increasing linear maps; columns may be reordered")
def invariance(t, note):
    from copulae.stats import corr
    c, seed, method = t
    x = np.array(c["x"])
    if np.isnan(x).any():
        x = np.nan_to_num(x)
    note(method)
    r = gen.rng(seed)
    a = arr(quiet(corr, x, method=method))
    y = x * r.uniform(0.5, 3, x.shape[1]) + r.normal(size=x.shape[1]) if method == "pearson" else np.sinh(x / np.abs(x).max() * 3) + x
    close(arr(quiet(corr, y, method=method)), a, 1e-7, 1e-8, "after increasing maps")
    p = r.permutation(x.shape[1])
    close(arr(quiet(corr, x[:, p], method=method)), a[np.ix_(p, p)], 1e-9, 1e-10, "after reordering columns")
    o = r.permutation(len(x))
    close(arr(quiet(corr, x[o], method=method)), a, 1e-9, 1e-10, "after reordering rows")
    s = np.ones(x.shape[1])
    s[0] = -1
    close(arr(quiet(corr, x * s, method=method)), a * np.outer(s, s) * (1 - np.eye(len(s))) + np.eye(len(s)), 1e-9, 1e-10, "after negating a column")


@sub("P21", st.tuples(st.integers(3, 10), st.sampled_from(["method", "use", "lengths", "matrix y", "vector alone", "cube", "matrix x"]), gen.seeds()), 120, 800, "unsupported methods, policies and shapes are rejected")
def rejected(t, note):
    from copulae.stats import corr, kendall_tau
    n, what, seed = t
    note(what)
    r = gen.rng(seed)
    x, y = r.normal(size=n), r.normal(size=n)
    m = r.normal(size=(n, 2))
    f = {"method": lambda: corr(m, method="cosine"), "use": lambda: corr(m, use="some"), "lengths": lambda: corr(x, r.normal(size=n + 1)), "matrix y": lambda: corr(x, m),
         "vector alone": lambda: corr(x), "cube": lambda: corr(m[None]), "matrix x": lambda: corr(m, y)}[what]
    raises(ValueError, f, what)
    raises(ValueError, lambda: kendall_tau(m, use="none"), "policy of a shortcut")
