"""P14: the empirical copula's CDF is the defined estimator."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.special import betainc

import gen
import ref
from core import arr, check, close, fail, raises, sub

ASSUMPTIONS = ["reference: the defining sum with ranks by counting and scipy's regularised incomplete beta function",
               "a checkerboard or beta value may differ by 1e-12; indicator comparisons use pseudo-observations rank/(n+1) rounded to double, as stored"]

TIES = ["average", "min", "max", "dense", "ordinal"]
SMOOTH = ["none", "beta", "checkerboard"]
COLS = ["z", "a", "b", "y", "c"]


@st.composite
def data(draw, rows=(1, 25), cols=(2, 5)):
    n, d = draw(st.integers(*rows)), draw(st.integers(*cols))
    r = gen.rng(draw(gen.seeds()))
    kind = draw(st.sampled_from(["cont", "cont", "ties", "few", "unit"]))
    if kind == "cont":
        x = r.normal(size=(n, d)) + 0.7 * r.normal(size=(n, 1))
    elif kind == "ties":
        x = np.round(r.normal(size=(n, d)), 1)
    elif kind == "few":
        x = r.integers(0, 4, (n, d)).astype(float)
    else:
        x = r.uniform(size=(n, d))
    return x.tolist()


@st.composite
def cases(draw, rows=(1, 25), cols=(2, 5)):
    x = draw(data(rows, cols))
    n, d = len(x), len(x[0])
    grid = st.integers(0, n + 1).map(lambda k: k / (n + 1))
    ramp = st.integers(0, n).map(lambda k: k / n)
    near = st.tuples(grid, gen.signed(gen.logfl(1e-13, 1e-4))).map(lambda t: min(max(t[0] + t[1], 0.0), 1.0))
    pts = draw(gen.points(d, (1, 6), st.one_of(gen.unit_closed(), grid, ramp, near)))
    return {"x": x, "pts": pts, "ties": draw(st.sampled_from(TIES)), "smooth": draw(st.sampled_from(SMOOTH)),
            "offset": draw(st.sampled_from([0, 0, 0, 1, 0.5, 2.25, -0.5])), "frame": draw(st.booleans())}


def reference(x, pts, smooth, ties, offset):
    """Exact sum, and the term matrix."""
    x, pts = np.asarray(x, float), np.asarray(pts, float)
    n, d = x.shape
    rk = np.column_stack([ref.rank(x[:, j], ties) for j in range(d)])
    out = []
    for p in pts:
        if smooth == "none":
            t = (rk / (n + 1) <= p[None, :]).astype(float)
        elif smooth == "beta":
            t = betainc(rk, n + 1 - rk, np.broadcast_to(p, rk.shape))
        else:
            t = np.clip(n * p[None, :] - rk + 1, 0, 1)
        out.append(math.fsum(np.prod(t, axis=1)) / (n + offset))
    return np.array(out)


def build(c):
    from copulae import EmpiricalCopula
    x = np.array(c["x"], float)
    d = x.shape[1]
    data_ = pd.DataFrame(x, columns=COLS[:d]) if c["frame"] else x
    return EmpiricalCopula(data_, c["smooth"], c["ties"], c["offset"])


def tol(n):
    return dict(rtol=1e-10, atol=1e-13)


@sub("P14", cases(), 1300, 20000, "cdf and log cdf equal the defining sum for every smoothing, tie rule, offset and point (closed cube, grid points included)")
def definition(c, note):
    n, d = len(c["x"]), len(c["x"][0])
    x = np.array(c["x"])
    note(c["smooth"], c["ties"], f"d{d}", f"offset {c['offset']}", "frame" if c["frame"] else "array")
    if len(np.unique(x)) < x.size:
        note("ties")
    if n + c["offset"] <= 0.4:
        note.skip("offset")
        return
    k = build(c)
    want = reference(c["x"], c["pts"], c["smooth"], c["ties"], c["offset"])
    pts = np.array(c["pts"])
    got = k.cdf(pts)
    check(np.shape(got) == ((len(pts),) if len(pts) > 1 else ()), f"cdf of {len(pts)} points has shape {np.shape(got)}")
    got = np.atleast_1d(arr(got, "cdf"))
    close(got, want, what=f"cdf, smoothing {c['smooth']}, ties {c['ties']}", **tol(n))
    with np.errstate(all="ignore"):
        lg = np.atleast_1d(arr(k.cdf(pts, log=True), "log cdf"))
        for g, w in zip(lg, np.atleast_1d(got)):
            check(g == w == 0 or (w == 0 and g == -np.inf) or abs(g - np.log(w)) <= 1e-12 + 1e-12 * abs(g), f"log cdf {g} of cdf {w}")
    for i in range(len(pts)):
        close(arr(k.cdf(pts[i].tolist())), got[i], 0, 0, "cdf of one row alone")
    check(np.array_equal(pts, np.array(c["pts"])), "points changed")
    check(np.array_equal(np.asarray(k.data), x), "stored data changed")


@sub("P14", st.tuples(cases((2, 20), (2, 4)), gen.seeds()), 500, 8000, "cdf never decreases in a coordinate, grounded at 0 (smoothed) and n/(n+offset) at 1")
def monotone(t, note):
    c, seed = t
    r = gen.rng(seed)
    n, d = len(c["x"]), len(c["x"][0])
    note(c["smooth"], f"d{d}")
    k = build(c)
    p = r.uniform(size=d)
    j = int(r.integers(d))
    line = np.tile(p, (12, 1))
    line[:, j] = np.sort(np.r_[0.0, 1.0, r.uniform(size=6), r.integers(0, n + 2, 4) / (n + 1)])
    v = arr(k.cdf(line))
    check((np.diff(v) >= -1e-12).all(), f"cdf decreases along coordinate {j}: {v.tolist()} at {line.tolist()}")
    check(abs(v[0]) < 1e-13, f"cdf is {v[0]} where a coordinate is 0")
    close(arr(k.cdf(np.ones(d))), n / (n + c["offset"]), 1e-10, 0, "cdf at the upper corner")


@sub("P14", st.tuples(cases((2, 20), (2, 4)), st.lists(st.tuples(st.sampled_from(["smoothing", "ties"]), st.integers(0, 4)), min_size=1, max_size=5)), 500, 8000,
     "switching smoothing and ties on an existing copula equals creating it that way, and never affects another copula on the same data")
def switching(t, note):
    from copulae import EmpiricalCopula
    c, ops = t
    x = np.array(c["x"])
    k, other = build(c), build(c)
    pts = np.array(c["pts"])
    before = np.atleast_1d(arr(other.cdf(pts)))
    s, ti = c["smooth"], c["ties"]
    for what, i in ops:
        if what == "smoothing":
            s = SMOOTH[i % 3]
            k.smoothing = None if s == "none" and i else s
        else:
            ti = TIES[i]
            k.ties = ti
        note(what)
        check(k.smoothing == s and k.ties == ti, f"smoothing/ties report {k.smoothing}/{k.ties} after setting {s}/{ti}")
        fresh = EmpiricalCopula(x, s, ti, c["offset"])
        got = np.atleast_1d(arr(k.cdf(pts)))
        close(got, np.atleast_1d(arr(fresh.cdf(pts))), 0, 0, f"after switching to {s}/{ti}")
        close(got, reference(c["x"], c["pts"], s, ti, c["offset"]), what=f"after switching to {s}/{ti}", **tol(len(x)))
    close(np.atleast_1d(arr(other.cdf(pts))), before, 0, 0, "another copula changed")
    raises(Exception, lambda: setattr(k, "smoothing", "gamma"), "unknown smoothing")
    check(k.smoothing == s, "a rejected smoothing was kept")


@sub("P14", st.tuples(st.integers(60, 400), st.integers(2, 4), gen.seeds(), st.sampled_from(SMOOTH), st.sampled_from(TIES), st.booleans()), 60, 900, "larger data sets, many points at once; emp_dist_func on explicit matrices")
def large(t, note):
    from copulae import EmpiricalCopula
    from copulae.empirical.distribution import emp_dist_func
    n, d, seed, s, ti, tied = t
    r = gen.rng(seed)
    note(s, ti, f"d{d}")
    x = r.normal(size=(n, d)) + r.normal(size=(n, 1))
    if tied:
        x = np.round(x, 1)
    pts = r.uniform(size=(40, d))
    pts[:5] = r.integers(0, n + 2, (5, d)) / (n + 1)
    k = EmpiricalCopula(np.asfortranarray(x) if seed % 2 else x, s, ti)
    want = reference(x, pts, s, ti, 0)
    close(arr(k.cdf(pts)), want, 1e-9, 1e-12, f"cdf, {s}/{ti}")
    close(arr(k.cdf(np.asfortranarray(pts))), want, 1e-9, 1e-12, "cdf of Fortran-ordered points")
    close(arr(emp_dist_func(pts, ref.pobs(x, ti), s)), want, 1e-9, 1e-12, "emp_dist_func")
    close(arr(emp_dist_func(pts, ref.pobs(x, ti), s.upper(), 1.5)), want * n / (n + 1.5), 1e-9, 1e-12, "emp_dist_func with offset")
    if s == "none":
        close(arr(emp_dist_func(pts, ref.pobs(x, ti), None)), want, 1e-9, 1e-12, "emp_dist_func without smoothing")
        close(arr(EmpiricalCopula(x, ties=ti).cdf(pts)), want, 1e-9, 1e-12, "default smoothing")
        if ti == "average":
            close(arr(EmpiricalCopula(x).cdf(pts)), want, 1e-9, 1e-12, "default tie rule")


@sub("P14", st.tuples(cases((2, 8), (2, 3)), st.integers(0, 2), gen.signed(gen.logfl(1e-6, 10))), 150, 2000, "points outside the unit hypercube are rejected")
def outside(t, note):
    c, j, e = t
    k = build(c)
    p = np.full(len(c["x"][0]), 0.5)
    p[j % len(p)] = 1 + e if e > 0 else e
    raises(ValueError, lambda: k.cdf(p), f"cdf at {p.tolist()}")
