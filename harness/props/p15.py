"""P15: empirical density, resampling and back-transformation."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.special import gammaln

import gen
import ref
from core import arr, check, close, fail, raises, sub
from props.p14 import COLS, SMOOTH, TIES, build, cases, data
from props.stat import binom_check

ASSUMPTIONS = ["density reference: product of Beta(rank, n+1-rank) densities written out with log-gamma", "resampling frequencies: exact binomial tails at 1e-11 per comparison"]


def log_terms(x, p, ties):
    n, d = x.shape
    rk = np.column_stack([ref.rank(x[:, j], ties) for j in range(d)])
    a, b = rk, n + 1 - rk
    with np.errstate(all="ignore"):
        la = np.where(a == 1, 0.0, (a - 1) * np.log(p))
        lb = np.where(b == 1, 0.0, (b - 1) * np.log1p(-p))
    return (la + lb + gammaln(n + 1) - gammaln(a) - gammaln(b)).sum(1)


@sub("P15", cases((1, 18), (2, 4)), 220, 5000, "pdf and log pdf under beta smoothing equal the defining sum of products of beta densities over n plus offset; other smoothings refuse")
def density(c, note):
    s = c["smooth"]
    x, pts = np.array(c["x"]), np.array(c["pts"])
    n = len(x)
    note(c["ties"], f"offset {c['offset']}", "frame" if c["frame"] else "array")
    if n + c["offset"] <= 0.4:
        note.skip("offset")
        return
    k = build(c)
    if s != "beta":
        raises(Exception, lambda: k.pdf(pts), f"pdf with smoothing {s}")
        raises(Exception, lambda: k.pdf(pts, log=True), f"log pdf with smoothing {s}")
        k.smoothing = "beta"
    want = []
    for p in pts:
        l = log_terms(x, p, c["ties"])
        m = l.max()
        want.append((m + math.log(math.fsum(np.exp(l - m))) if np.isfinite(m) else -np.inf) - math.log(n + c["offset"]))
    want = np.array(want)
    with np.errstate(all="ignore"):
        got = k.pdf(pts)
        check(np.shape(got) == ((len(pts),) if len(pts) > 1 else ()), f"pdf of {len(pts)} points has shape {np.shape(got)}")
        close(np.atleast_1d(arr(got)), np.exp(want), 1e-8, 1e-280, f"pdf, ties {c['ties']}")
        close(np.atleast_1d(arr(k.pdf(pts, log=True))), want, 1e-9, 1e-9, f"log pdf, ties {c['ties']}")
        close(arr(k.pdf(pts[0].tolist())), np.exp(want[0]), 1e-8, 1e-280, "pdf of one row")


@sub("P15", st.tuples(data((2, 15), (2, 3)), gen.seeds(), st.sampled_from(TIES)), 70, 2000, "pdf is the mixed derivative of the copula's own cdf: integrates over boxes to the cdf's rectangle volume")
def derivative(t, note):
    from copulae import EmpiricalCopula
    x, seed, ti = t
    x = np.array(x)
    d = x.shape[1]
    note(f"d{d}")
    r = gen.rng(seed)
    k = EmpiricalCopula(x, "beta", ti)
    lo = r.uniform(0, 0.8, d)
    hi = lo + r.uniform(0.05, 0.2, d)
    g, w = np.polynomial.legendre.leggauss(12 if d < 3 else 9)
    nodes = [(l + h) / 2 + (h - l) / 2 * g for l, h in zip(lo, hi)]
    ws = [(h - l) / 2 * w for l, h in zip(lo, hi)]
    pts = np.stack([m.ravel() for m in np.meshgrid(*nodes, indexing="ij")], 1)
    wt = np.prod(np.stack([m.ravel() for m in np.meshgrid(*ws, indexing="ij")], 1), axis=1)
    v = 0.0
    for mask in range(2 ** d):
        p = np.array([hi[j] if mask >> j & 1 else lo[j] for j in range(d)])
        v += (-1) ** (d - bin(mask).count("1")) * float(k.cdf(p))
    close(float((arr(k.pdf(pts)) * wt).sum()), v, 1e-4, 1e-8, "integral of the pdf against the cdf's volume")


@sub("P15", st.tuples(data((1, 12), (2, 4)), gen.seeds(), st.booleans(), st.integers(1, 40), st.sampled_from(SMOOTH)), 400, 6000, "random returns whole stored rows, labelled, reproducibly; the sample is detached from the data")
def resampling(t, note):
    from copulae import EmpiricalCopula
    x, seed, frame, m, s = t
    x = np.array(x)
    n, d = x.shape
    note("frame" if frame else "array", s)
    k = EmpiricalCopula(pd.DataFrame(x, columns=COLS[:d]) if frame else x.copy(), s)
    a = k.random(m, seed=seed)
    check(isinstance(a, pd.DataFrame) == frame, f"sample is a {type(a).__name__}")
    if frame:
        check(list(a.columns) == COLS[:d], f"columns {list(a.columns)}")
    v = np.array(a)
    check(v.shape == (m, d), f"sample shape {v.shape}, asked for {m} rows of {d}")
    for row in v:
        check((x == row).all(1).any(), f"sampled row {row.tolist()} is not a row of the data")
    check(np.array_equal(np.array(k.random(m, seed=seed)), v), "the same seed gave another sample")
    np.random.seed(seed)
    check(np.array_equal(np.array(k.random(m)), v), "a globally seeded sample differs from the one seeded directly")
    if isinstance(a, np.ndarray):
        a[:] = -99
    check(np.array_equal(np.asarray(k.data), x), "the stored data changed")


@sub("P15", st.tuples(st.integers(2, 9), st.integers(2, 3), gen.seeds()), 40, 600, "each stored row is drawn equally often, draws independent, different seeds differ")
def frequencies(t, note):
    from copulae import EmpiricalCopula
    n, d, seed = t
    r = gen.rng(seed)
    x = r.normal(size=(n, d))
    m = 6000
    k = EmpiricalCopula(x)
    v = arr(k.random(m, seed=seed))
    idx = np.array([int(np.argmax((x == row).all(1))) for row in v])
    note(f"n{n}")
    for i in range(n):
        binom_check(int((idx == i).sum()), m, 1 / n, f"row {i} of {n}")
    for i in range(n):
        binom_check(int(((idx[0::2] == i) & (idx[1::2] == i)).sum()), m // 2, 1 / n ** 2, f"row {i} twice in succession")
    w = arr(k.random(m, seed=seed + 1))
    check(not np.array_equal(v, w), "another seed gave the same sample")


@sub("P15", st.tuples(st.integers(12, 60), st.integers(2, 4), st.integers(2, 60), gen.seeds(), st.sampled_from(SMOOTH)), 60, 900, "drawing with replacement whatever the size of the sample: any two positions of one sample hold the same row once in n")
def replacement(t, note):
    from copulae import EmpiricalCopula
    n, d, m, seed, s = t
    r = gen.rng(seed)
    x = r.normal(size=(n, d))
    k = EmpiricalCopula(x, s)
    note("fewer" if m < n else "as many" if m == n else "more")
    same, total = 0, 0
    for i in range(max(40, 12000 // (m * (m - 1) // 2))):  # disjoint samples
        v = arr(k.random(m, seed=int(r.integers(2 ** 31)) if i % 2 else None))[:, 0]
        for p in range(0, m - 1, 2):  # disjoint pairs are independent
            same += int(v[p] == v[p + 1])
            total += 1
        if total > 4000:
            break
    binom_check(same, total, 1 / n, f"equal rows at two positions of samples of {m} out of {n}")


@sub("P15", st.tuples(data((1, 25), (2, 5)), gen.seeds(), st.sampled_from(["array", "frame", "both", "list"]), st.booleans()), 700, 10000, "to_marginals: order statistic floor(u*n) of the same column, maximum at 1, shape and labels kept, inputs untouched")
def back(t, note):
    from copulae import EmpiricalCopula
    x, seed, form, via = t
    x = np.array(x)
    n, d = x.shape
    r = gen.rng(seed)
    x = x + 10 * np.arange(d)  # columns cannot be confused
    m = int(r.integers(1, 12))
    u = r.uniform(size=(m, d))
    grid = r.uniform(size=(m, d)) < 0.3
    u[grid] = (r.integers(0, n + 1, (m, d)) / n)[grid]
    edge = r.uniform(size=(m, d)) < 0.1
    u[edge] = r.choice([0.0, 1.0, 1 - 2 ** -53, 0.5], (m, d))[edge]
    note(form, f"d{d}")
    cols = COLS[:d]
    src = pd.DataFrame(x, columns=cols, index=np.arange(n) + 5) if form in ("frame", "both") else x.tolist() if form == "list" else x.copy()
    arg = pd.DataFrame(u, columns=cols) if form == "both" else u.tolist() if form == "list" else u.copy()
    f = EmpiricalCopula(x).to_marginals if via else EmpiricalCopula.to_marginals
    got = f(arg, src)
    check(isinstance(got, pd.DataFrame) == (form in ("frame", "both")), f"result is a {type(got).__name__}")
    if isinstance(got, pd.DataFrame):
        check(list(got.columns) == cols, f"columns {list(got.columns)}")
        check(np.array_equal(src.to_numpy(), x), "the original data changed")
    elif form == "array":
        check(np.array_equal(src, x) and np.array_equal(arg, u), "an input changed")
    g = np.asarray(got)
    check(g.shape == (m, d), f"shape {g.shape}")
    want = np.empty((m, d))
    for j in range(d):
        s = sorted(x[:, j])
        for i in range(m):
            want[i, j] = s[min(math.floor(u[i, j] * n), n - 1)]
    check(np.array_equal(g, want), f"to_marginals of {u.tolist()} is {g.tolist()}, expected {want.tolist()}")
    o = np.argsort(u[:, 0], kind="stable")
    check((np.diff(g[o, 0]) >= 0).all(), "not monotone")


@sub("P15", st.tuples(data((2, 12), (2, 4)), gen.seeds(), st.booleans()), 250, 4000, "back-transforming pseudo-observations just below rank/n recovers the data; changing the caller's data afterwards changes nothing")
def roundtrip(t, note):
    from copulae import EmpiricalCopula
    x, seed, frame = t
    x = np.array(x)
    n, d = x.shape
    note("frame" if frame else "array")
    rk = np.column_stack([ref.rank(x[:, j], "ordinal") for j in range(d)])
    back_ = EmpiricalCopula.to_marginals((rk - 0.5) / n, x)
    close(np.asarray(back_), x, 0, 0, "to_marginals of (rank-1/2)/n")
    src = pd.DataFrame(x.copy(), columns=COLS[:d]) if frame else x.copy()
    k = EmpiricalCopula(src, "beta")
    p = gen.rng(seed).uniform(size=(3, d))
    a, b, s = arr(k.cdf(p)), arr(k.pdf(p)), np.asarray(k.random(5, seed=seed))
    if frame:
        src.iloc[:, :] = 7.0
    else:
        src[:] = 7.0
    close(arr(k.cdf(p)), a, 0, 0, "cdf after the caller changed the data")
    close(arr(k.pdf(p)), b, 0, 0, "pdf after the caller changed the data")
    check(np.array_equal(np.asarray(k.random(5, seed=seed)), s), "sample after the caller changed the data")
