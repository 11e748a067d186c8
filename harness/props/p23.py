"""P23: the radial symmetry test."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gen
import ref
from core import check, close, fail, known, same_bits, sub
from props.p10 import arch_sample
from props.p22 import lattice, same_proportion

ASSUMPTIONS = ["comparisons 1-u <= v between pseudo-observations that are equal in exact arithmetic may be decided either way by rounding (see the known finding)",
               "p-values are compared with an own flip bootstrap (with imposed ties), at 7 standard errors plus 0.01"]

TIES = ["average", "min", "max", "dense", "ordinal"]


def stat_interval(rk, n1):
    """Statistic from twice-ranks (integers) and n+1, with 1-u <= v at exact equality decided either way; and the double-precision value."""
    a = np.rint(2 * rk).astype(int)
    n = len(a)
    le = (a[None] <= a[:, None]).all(2)  # [k, i]
    c = 2 * n1 - a[None]
    hi_ = (c <= a[:, None]).all(2)
    lo_ = (c < a[:, None]).all(2)
    emp, slo, shi = le.sum(1), lo_.sum(1), hi_.sum(1)
    A, B = emp - shi, emp - slo
    mn = np.where((A <= 0) & (B >= 0), 0, np.minimum(abs(A), abs(B)))
    mx = np.maximum(abs(A), abs(B))
    u = rk / n1
    dd = le.sum(1) - (1.0 - u[None] <= u[:, None]).all(2).sum(1)
    return float((mn.astype(float) ** 2).sum() / n ** 2), float((mx.astype(float) ** 2).sum() / n ** 2), float((dd.astype(float) ** 2).sum() / n ** 2)


@st.composite
def sample(draw, rows=(2, 45), cols=(2, 4)):
    n, d = draw(st.integers(*rows)), draw(st.integers(*cols))
    r = gen.rng(draw(gen.seeds()))
    kind = draw(st.sampled_from(["dep", "skew", "ties", "few", "unit"]))
    x = r.normal(size=(n, d)) + 0.8 * r.normal(size=(n, 1))
    if kind == "skew":
        x = np.maximum(x, r.normal(size=(n, 1)))
        x += 1e-3 * r.normal(size=(n, d))
    elif kind == "ties":
        x = np.round(x, 1)
    elif kind == "few":
        x = r.integers(0, 5, (n, d)).astype(float)
    elif kind == "unit":
        x = r.uniform(size=(n, d))
    return x.tolist()


def ranks(x, ties):
    return np.column_stack([ref.rank(x[:, j], ties) for j in range(x.shape[1])])


@sub("P23", st.tuples(sample(), st.sampled_from(TIES), st.integers(1, 12), st.sampled_from(["array", "list", "frame", "fortran"])), 700, 9000,
     "the statistic equals the defining sum; p-value lattice; inputs untouched")
def statistic(t, note):
    from copulae.gof import rad_sym_test
    x, ties, N, form = t
    x = np.array(x)
    n, d = x.shape
    note(form, ties, f"d{d}")
    a = x.tolist() if form == "list" else pd.DataFrame(x, index=np.arange(n)[::-1]) if form == "frame" else np.asfortranarray(x) if form == "fortran" else x.copy()
    s, p, _ = rad_sym_test(a, N=N, ties=ties)
    same_bits(np.asarray(a), x, "data after the test")
    lo, hi, dd = stat_interval(ranks(x, ties), n + 1)
    check(lo - 1e-12 <= s <= hi + 1e-12, f"statistic, ties {ties}: got {s!r}, expected {dd!r} (between {lo!r} and {hi!r})")
    if hi == lo:
        note("no boundary comparisons")
    lattice(p, N, "rad_sym_test")


@sub("P23", st.tuples(sample((2, 40)), st.sampled_from(TIES), gen.seeds()), 300, 5000,
     "unchanged by reordering rows and columns and by increasing transformations; zero for radially symmetric pseudo-observations that are exact doubles")
def invariance(t, note):
    from copulae.gof import rad_sym_test
    x, ties, seed = t
    x = np.array(x)
    n, d = x.shape
    r = gen.rng(seed)
    s = rad_sym_test(x, N=1, ties=ties).statistic
    close(rad_sym_test(x[:, r.permutation(d)], N=1, ties=ties).statistic, s, 1e-9, 1e-13, "statistic with columns reordered")
    close(rad_sym_test(np.exp(ranks(x, "dense") / 5) * 2 - 7, N=1, ties=ties).statistic, s, 1e-12, 0, "statistic after an increasing transformation")
    if ties != "ordinal":
        close(rad_sym_test(x[r.permutation(n)], N=1, ties=ties).statistic, s, 1e-9, 1e-13, "statistic after reordering rows")
    # n + 1 a power of two: pseudo-observations and their complements are exact, symmetric pairs plus the centre
    h = 2 ** int(r.integers(1, 5)) - 1
    q = [r.permutation(np.arange(1, h + 1)) * r.choice([-1, 1], h) for _ in range(d)]
    q = np.column_stack(q)
    y = np.vstack([q, -q, np.zeros((1, d), int)])[r.permutation(2 * h + 1)].astype(float)
    e = rad_sym_test(y, N=5)
    check(e.statistic == 0, f"statistic {e.statistic!r} for exactly radially symmetric pseudo-observations (n={len(y)}, d={d})")
    check(e.p_value == 5.5 / 6, f"p-value {e.p_value} although every replicate is at least as large as 0")


def ref_flip(rk, n1, N, r, ties, tied):
    n, d = rk.shape
    pos = [np.floor(ref.rank(np.sort(rk[:, i]), "average")).astype(int) - 1 for i in range(d)]
    u = rk / n1
    out = []
    for _ in range(N):
        w = np.where(r.uniform(size=n)[:, None] < 0.5, 1 - u, u)
        if tied:
            for i in range(d):
                w = w[np.argsort(w[:, i], kind="stable")]
                w[:, i] = w[pos[i], i]
        out.append(stat_interval(ranks(w, ties), n1)[2])
    return np.array(out)


@st.composite
def pcase(draw):
    return {"model": draw(st.sampled_from(["normal", "frank", "clayton", "gumbel", "indep"])), "theta": draw(gen.fl(1.2, 4)), "n": draw(st.integers(10, 40)), "dim": draw(st.sampled_from([2, 2, 3])),
            "seed": draw(gen.seeds()), "round": draw(st.sampled_from([None, None, 8, 20])), "ties": draw(st.sampled_from(["average", "average", "min", "max"]))}


def pdata(c):
    r = gen.rng(c["seed"])
    n, d, f = c["n"], c["dim"], c["model"]
    if f in ("frank", "clayton", "gumbel"):
        u = arch_sample(f, c["theta"], n, d, r)
    elif f == "indep":
        u = r.uniform(size=(n, d))
    else:
        from scipy.special import ndtr
        u = ndtr(0.8 * r.normal(size=(n, 1)) + 0.6 * r.normal(size=(n, d)))
    return np.ceil(u * c["round"]) if c["round"] else u


@sub("P23", pcase(), 60, 800, "the p-value agrees with an independently written flip bootstrap", shrink=False)
def pvalue(c, note):
    from copulae.gof import rad_sym_test
    x = pdata(c)
    ties = c["ties"]
    n = len(x)
    rk = ranks(x, ties)
    tied = any(len(np.unique(x[:, j])) < n for j in range(x.shape[1]))
    N, M = 800, 600
    e = rad_sym_test(x, N=N, ties=ties)
    note("ties" if tied else "no ties", c["model"], "p<.05" if e.p_value < 0.05 else "p>.05")
    s0 = ref_flip(rk, n + 1, M, gen.rng(c["seed"] + 1), ties, tied)
    s = e.statistic
    k, kh = lattice(e.p_value, N, "rad_sym_test"), (int((s0 >= s * (1 - 1e-9) - 1e-13).sum()), int((s0 > s * (1 + 1e-9) + 1e-13).sum()))
    ref_k = kh[0] if k / N >= kh[0] / M else kh[1] if k / N <= kh[1] / M else round(k / N * M)
    same_proportion(k, N, ref_k, M, f"p-value, flip bootstrap, {'ties' if tied else 'no ties'}")


def exact_law(rk, n1, ties, order):
    """The statistics of all 2**n flips; `order` sorts a column (rows with equal values may come in any order)."""
    n, d = rk.shape
    u = rk / n1
    pos = [np.floor(ref.rank(np.sort(rk[:, i]), "average")).astype(int) - 1 for i in range(d)]
    out = []
    for b in range(2 ** n):
        w = np.where(((b >> np.arange(n)) & 1).astype(bool)[:, None], 1 - u, u)
        for i in range(d):
            w = w[order(w[:, i])]
            w[:, i] = w[pos[i], i]
        out.append(stat_interval(ranks(w, ties), n1)[2])
    return np.array(out)


@st.composite
def small_tied(draw):
    n, d = draw(st.sampled_from([7, 7, 7, 3])), draw(st.sampled_from([1, 1, 1, 2, 3]))
    k = draw(st.integers(2, 4 if n == 7 else 2))
    x = draw(st.lists(st.integers(0, k - 1), min_size=n, max_size=n).filter(lambda v: len(set(v)) > 1))
    cols = [x]
    for _ in range(d - 1):
        cols.append(draw(st.sampled_from([x, [-v for v in x], x[::-1], draw(st.lists(st.integers(0, k - 1), min_size=n, max_size=n))])))
    return np.array(cols, float).T.tolist()


@sub("P23", st.tuples(small_tied(), st.sampled_from(["average", "average", "min", "max"]), gen.seeds()), 60, 600,
     "small tied samples (n + 1 a power of two, so every comparison is exact): the p-value agrees with the enumeration of all flips", shrink=False)
def enumerated(t, note):
    from copulae.gof import rad_sym_test
    x, ties, seed = t
    x = np.array(x)
    n, d = x.shape
    rk = ranks(x, ties)
    r = gen.rng(seed)

    def rev(v):
        return n - 1 - np.argsort(v[::-1], kind="stable")

    def rnd(v):
        q = r.permutation(n)
        return q[np.argsort(v[q], kind="stable")]

    orders = [lambda v: np.argsort(v, kind="stable")] + ([] if d == 1 else [rev] + [rnd] * 4)
    N = 3000
    e = rad_sym_test(x, N=N, ties=ties)
    s = stat_interval(rk, n + 1)[2]
    close(e.statistic, s, 1e-10, 1e-13, "statistic of a small tied sample")
    laws = [exact_law(rk, n + 1, ties, o) for o in orders]
    # replicates equal to the statistic in exact arithmetic count or not by rounding of the sum
    lo, hi = min(float((v > s * (1 + 1e-9) + 1e-13).mean()) for v in laws), max(float((v >= s * (1 - 1e-9) - 1e-13).mean()) for v in laws)
    note(f"d{d}", f"n{n}", "decided to within 0.1" if hi - lo < 0.1 else "order of tied rows or equal replicates matter")
    k = lattice(e.p_value, N, "rad_sym_test") / N
    sd = lambda q: 7 * math.sqrt(max(q * (1 - q), 1e-3) / N)
    if d > 1:
        lo, hi = lo - 0.04, hi + 0.04
    check(lo - sd(max(lo, 0)) <= k <= hi + sd(min(hi, 1)), f"p-value, enumerated flips with ties ({ties}): {k:.4f} of the replicates reach the statistic, of all flips {lo:.4f}..{hi:.4f}")


@sub("P23", st.tuples(gen.seeds(), st.booleans()), 4, 40, "rejections at 5% stay near the level on radially symmetric models; strongly asymmetric data are rejected", shrink=False)
def level(t, note):
    from scipy import stats
    from copulae.gof import rad_sym_test
    seed, tied = t
    R, N = 50, 150
    k = 0
    for i in range(R):
        x = pdata({"model": ["normal", "frank", "indep"][i % 3], "theta": 3.0, "n": 50, "dim": 2 + i % 2, "seed": seed + i, "round": 15 if tied else None})
        k += rad_sym_test(x, N=N).p_value < 0.05
    note(f"{k} of {R} rejected")
    check(stats.binom.sf(k - 1, R, 0.09) > 1e-9, f"{k} of {R} radially symmetric samples rejected at the 5% level")
    for i in range(5):
        r = gen.rng(seed + i)
        x = r.uniform(size=250)
        x = np.column_stack([x, np.where(x < 0.5, x, 0.5 + 0.5 * r.uniform(size=250))])  # comonotone below, independent above the median
        x = np.ceil(x * 40) if tied else x
        e = rad_sym_test(x, N=N)
        check(e.p_value < 0.05, f"strongly asymmetric sample (n=250) not rejected: p-value {e.p_value}, statistic {e.statistic}")


@known("P23", "rounded-complements")
def rounded_complements():
    from copulae.gof import rad_sym_test
    x = np.arange(1.0, 10.0)
    s = rad_sym_test(np.column_stack([x, x]), N=1).statistic
    if s != 0:
        return f"statistic {s:.6g} instead of 0 for the comonotone sample of size 9 (1-u <= v fails by rounding); repairing it changes values the test suite pins"
