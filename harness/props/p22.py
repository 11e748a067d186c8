"""P22: the exchangeability test."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gen
import ref
from core import check, close, fail, same_bits, sub
from props.p10 import arch_sample

ASSUMPTIONS = ["a grid point within 1e-12 of a pseudo-observation may fall on either side of it (rounding of the grid)",
               "p-values are compared with an own multiplier bootstrap (Genest, Neslehova & Quessy 2012, bandwidth 1/sqrt(n)) or swap bootstrap with imposed ties "
               "(Kojadinovic 2017), at 7 standard errors of the difference of the two Monte-Carlo proportions plus 0.01"]

TIES = ["average", "min", "max", "dense", "ordinal"]


def emp(u, x, y):
    return ((u[None, :, 0] <= x[:, None]) & (u[None, :, 1] <= y[:, None])).mean(1)


def grid(u, m):
    if m == 0:
        return u
    g = np.linspace(1 / m, 1 - 1 / m, m)
    return np.array([[a, b] for b in g for a in g])


def stat_interval(u, m):
    """The statistic with every rounding-sensitive comparison decided either way."""
    n, g = len(u), grid(u, m)
    e = 1e-12 if m else 0.0
    lo, hi = (emp(u, g[:, 0] + s * e, g[:, 1] + s * e) for s in (-1, 1))
    lo2, hi2 = (emp(u, g[:, 1] + s * e, g[:, 0] + s * e) for s in (-1, 1))
    a, b = lo - hi2, hi - lo2  # difference lies in [a, b]
    mn = np.where((a <= 0) & (b >= 0), 0, np.minimum(np.abs(a), np.abs(b)))
    mx = np.maximum(np.abs(a), np.abs(b))
    return n * float((mn ** 2).mean()), n * float((mx ** 2).mean())


def lattice(p, N, what):
    k = p * (N + 1) - 0.5
    check(abs(k - round(k)) < 1e-6 and -1e-9 <= k <= N + 1e-9, f"{what}: p-value {p!r} is not (count + 0.5)/(N+1) for N={N}")
    check(0 < p < 1, f"{what}: p-value {p!r} outside (0,1)")
    return int(round(k))


@st.composite
def sample(draw, rows=(2, 60)):
    n = draw(st.integers(*rows))
    r = gen.rng(draw(gen.seeds()))
    kind = draw(st.sampled_from(["dep", "asym", "ties", "few", "neg", "mixed"]))
    x = r.normal(size=n)
    if kind == "dep":
        y = 0.8 * x + 0.6 * r.normal(size=n)
    elif kind == "asym":
        y = np.mod(x + r.uniform(0.2, 1), 2) + 0.3 * r.normal(size=n)
    elif kind == "ties":
        x, y = np.round(x, 1), np.round(0.5 * x + r.normal(size=n), 1)
    elif kind == "few":
        x, y = r.integers(0, 4, n).astype(float), r.integers(0, 6, n).astype(float)
    elif kind == "neg":
        y = -x + 0.4 * r.normal(size=n)
    else:
        y = np.round(x + r.normal(size=n) * 0.5)
    return x.tolist(), y.tolist()


def package(v, form):
    return v if form == "list" else pd.Series(v, index=np.arange(len(v))[::-1], name="s") if form == "series" else np.array(v)


@sub("P22", st.tuples(sample(), st.one_of(st.just(0), st.sampled_from([0, 1, 2, 3, 5, 8, 13]), st.integers(1, 70)), st.sampled_from(TIES), st.integers(1, 12), st.sampled_from(["array", "list", "series"])), 700, 9000,
     "the statistic equals n times the mean squared difference of the empirical copula and its transpose; p-value lattice; inputs untouched")
def statistic(t, note):
    from copulae.gof import exch_test
    (x, y), m, ties, N, form = t
    u = np.column_stack([ref.rank(np.array(x), ties), ref.rank(np.array(y), ties)]) / (len(x) + 1)
    note(form, ties, "grid" if m else "pobs")
    a, b = package(x, form), package(y, form)
    a0, b0 = np.array(a).copy(), np.array(b).copy()
    s, p, _ = exch_test(a, b, N=N, m=m, ties=ties)
    same_bits(np.array(a), a0, "first vector after the test")
    same_bits(np.array(b), b0, "second vector after the test")
    lo, hi = stat_interval(u, m)
    check(lo * (1 - 1e-9) - 1e-12 <= s <= hi * (1 + 1e-9) + 1e-12, f"statistic, m={m}, ties {ties}: got {s!r}, expected {lo!r}" + ("" if lo == hi else f"..{hi!r}"))
    lattice(p, N, "exch_test")


@sub("P22", st.tuples(sample((2, 40)), st.sampled_from([0, 0, 3, 7]), st.sampled_from(TIES), gen.seeds()), 300, 5000,
     "unchanged by swapping the columns, reordering rows and increasing transformations; zero (never rejected) for exactly exchangeable data")
def invariance(t, note):
    from copulae.gof import exch_test
    (x, y), m, ties, seed = t
    x, y = np.array(x), np.array(y)
    r = gen.rng(seed)
    s = exch_test(x, y, N=1, m=m, ties=ties).statistic
    close(exch_test(y, x, N=1, m=m, ties=ties).statistic, s, 1e-9, 1e-13, f"statistic with columns swapped, m={m}")
    # transformations that keep distinct doubles distinct
    check(len(np.unique(x)) == len(np.unique(np.ldexp(x, 7))), "harness: transformation")
    close(exch_test(np.ldexp(x, 7), np.ldexp(y, -3), N=1, m=m, ties=ties).statistic, s, 1e-12, 0, "statistic after rescaling")
    ry = ref.rank(y, "dense")
    close(exch_test(x, np.exp(ry / 4) - 3, N=1, m=m, ties=ties).statistic, s, 1e-12, 0, "statistic after an increasing transformation of one column")
    if ties != "ordinal":
        o = r.permutation(len(x))
        close(exch_test(x[o], y[o], N=1, m=m, ties=ties).statistic, s, 1e-9, 1e-13, "statistic after reordering rows")
    a, b = np.concatenate([x, y]), np.concatenate([y, x])
    if ties != "ordinal" or len(np.unique(a)) == len(a):
        note("exchangeable data")
        e = exch_test(a, b, N=3, m=m, ties=ties)
        close(e.statistic, 0.0, 0, 1e-12, "statistic of exactly exchangeable data")
        check(e.p_value == 3.5 / 4, f"p-value {e.p_value} of exactly exchangeable data, statistic 0")


def ref_multiplier(u, m, N, r):
    n, g = len(u), grid(u, m)
    h = 1 / math.sqrt(n)
    x, y = g[:, 0], g[:, 1]

    def d1(x, y):
        x = np.clip(x, h, 1 - h)
        return (emp(u, x + h, y) - emp(u, x - h, y)) / (2 * h)

    def d2(x, y):
        y = np.clip(y, h, 1 - h)
        return (emp(u, x, y + h) - emp(u, x, y - h)) / (2 * h)

    def ind(x, y):
        return (u[None, :, 0] <= x[:, None]) * 1.0, (u[None, :, 1] <= y[:, None]) * 1.0

    a, b = ind(x, y)
    c, d = ind(y, x)
    f = a * b - d1(x, y)[:, None] * a - d2(x, y)[:, None] * b - c * d + d1(y, x)[:, None] * c + d2(y, x)[:, None] * d
    z = r.normal(size=(N, n))
    z -= z.mean(1, keepdims=True)
    return ((z @ f.T / math.sqrt(n)) ** 2).mean(1)


def ref_swap(u, m, N, r, ties):
    n = len(u)
    pos = [np.floor(ref.rank(np.sort(u[:, i]), "average")).astype(int) - 1 for i in range(2)]
    out = []
    for _ in range(N):
        w = np.where(r.uniform(size=n)[:, None] < 0.5, u, u[:, ::-1])
        for i in range(2):
            w = w[np.argsort(w[:, i], kind="stable")]
            w[:, i] = w[pos[i], i]
        w = np.column_stack([ref.rank(w[:, i], ties) for i in range(2)]) / (n + 1)
        out.append(np.mean(stat_interval(w, m)))
    return np.array(out)


def same_proportion(k1, n1, k2, n2, what):
    p = (k1 + k2 + 5) / (n1 + n2 + 10)
    se = math.sqrt(p * (1 - p) * (1 / n1 + 1 / n2))
    if abs(k1 / n1 - k2 / n2) > 7 * se + 0.01:
        fail(f"{what}: {k1}/{n1} replicates at least as large, reference bootstrap {k2}/{n2}")


@st.composite
def pcase(draw):
    model = draw(st.sampled_from(["clayton", "frank", "gumbel", "shift", "khoudraji", "indep"]))
    return {"model": model, "theta": draw(gen.fl(1.2, 5)), "n": draw(st.integers(12, 60)), "seed": draw(gen.seeds()), "m": draw(st.sampled_from([0, 0, 0, 6])),
            "round": draw(st.sampled_from([None, None, 8, 20])), "cols": draw(st.sampled_from([[0, 1], [0, 1], [0], [1]])), "ties": draw(st.sampled_from(["average", "average", "min", "max"]))}


def pdata(c, n=None):
    r = gen.rng(c["seed"])
    n = n or c["n"]
    f, t = c["model"], c["theta"]
    if f in ("clayton", "frank", "gumbel"):
        u = arch_sample(f, t, n, 2, r)
    elif f == "indep":
        u = r.uniform(size=(n, 2))
    elif f == "shift":
        a = r.uniform(size=n)
        u = np.column_stack([a, np.mod(a + 0.25 + 0.15 * r.uniform(size=n), 1)])
    else:  # asymmetric: maximum of a dependent and an independent component in one column only
        u = arch_sample("gumbel", 1 + t, n, 2, r)
        k = 0.5
        u = np.column_stack([np.maximum(u[:, 0] ** (1 / k), r.uniform(size=n) ** (1 / (1 - k))), u[:, 1]])
    if c["round"]:
        for j in c.get("cols", [0, 1]):
            u[:, j] = np.ceil(u[:, j] * c["round"]) / c["round"]
    return u


@sub("P22", pcase(), 70, 900, "the p-value agrees with an independently written multiplier bootstrap (no ties) or swap bootstrap (ties)", shrink=False)
def pvalue(c, note):
    from copulae.gof import exch_test
    x = pdata(c)
    ties = c["ties"]
    u = np.column_stack([ref.rank(x[:, j], ties) for j in range(2)]) / (len(x) + 1)
    tied = any(len(np.unique(x[:, j])) < len(x) for j in range(2))
    N, M = (600, 800) if tied else (1500, 6000)
    lo, hi = stat_interval(u, c["m"])
    e = exch_test(x[:, 0], x[:, 1], N=N, m=c["m"], ties=ties)
    if hi - lo > 1e-12:
        note.skip("grid point on an observation")
        return
    note("ties" if tied else "no ties", c["model"], "p<.05" if e.p_value < 0.05 else "p>.05")
    r = gen.rng(c["seed"] + 1)
    s0 = ref_swap(u, c["m"], M, r, ties) if tied else ref_multiplier(u, c["m"], M, r)
    # the discrete statistic has atoms: the reference count may include or exclude values equal up to rounding
    k, kh = lattice(e.p_value, N, "exch_test"), (int((s0 >= lo * (1 - 1e-9) - 1e-13).sum()), int((s0 > lo * (1 + 1e-9) + 1e-13).sum()))
    ref_k = kh[0] if k / N >= kh[0] / M else kh[1] if k / N <= kh[1] / M else round(k / N * M)
    same_proportion(k, N, ref_k, M, f"p-value, {'swap' if tied else 'multiplier'} bootstrap")


def binomial(k, N, lo, hi, what):
    """k of N replicates reached the statistic; the exact probability lies in [lo, hi]."""
    from scipy import stats
    if stats.binom.sf(k - 1, N, hi) < 1e-11 or stats.binom.cdf(k, N, lo) < 1e-11:
        fail(f"{what}: {k}/{N} replicates at least as large, exact probability {lo:.5f}" + ("" if lo == hi else f"..{hi:.5f}"))


@sub("P22", st.tuples(gen.seeds(), st.integers(3, 9), st.sampled_from([[0, 1], [0], [0], [1], [1]]), st.integers(2, 4), st.sampled_from([0, 0, 3, 5]), st.sampled_from(["average", "min", "max", "dense"])), 40, 600,
     "small tied samples: the p-value agrees with the exact enumeration of all swaps", shrink=False)
def enumerated(t, note):
    from copulae.gof import exch_test
    seed, n, cols, levels, m, ties = t
    r = gen.rng(seed)
    x = r.uniform(size=(n, 2))
    for j in cols:
        x[:, j] = r.integers(0, levels, n)
        if len(np.unique(x[:, j])) == n:
            x[0, j] = x[1, j]
    u = np.column_stack([ref.rank(x[:, j], ties) for j in range(2)]) / (n + 1)
    if len(np.unique(u[:, 0])) == n and len(np.unique(u[:, 1])) == n:
        note.skip("no ties")
        return
    pos = [np.floor(ref.rank(np.sort(u[:, i]), "average")).astype(int) - 1 for i in range(2)]
    s0 = []
    for k in range(2 ** n):
        w = np.where(((k >> np.arange(n)) & 1)[:, None] == 1, u, u[:, ::-1])
        for i in range(2):
            w = w[np.argsort(w[:, i], kind="stable")]
            w[:, i] = w[pos[i], i]
        w = np.column_stack([ref.rank(w[:, i], ties) for i in range(2)]) / (n + 1)
        s0.append(stat_interval(w, m))
    s0 = np.array(s0)
    lo, hi = stat_interval(u, m)
    a = float((s0[:, 0] > hi * (1 + 1e-9) + 1e-13).mean())
    b = float((s0[:, 1] >= lo * (1 - 1e-9) - 1e-13).mean())
    N = 1500
    e = exch_test(x[:, 0], x[:, 1], N=N, m=m, ties=ties)
    note("both tied" if len(cols) == 2 else "one tied", f"p {round(b, 1)}", "grid" if m else "pobs")
    binomial(lattice(e.p_value, N, "exch_test"), N, a, b, f"p-value of {n} points, m={m}, ties {ties}")


@sub("P22", st.tuples(gen.seeds(), st.integers(4, 20), st.sampled_from([0, 0, 4, 7]), st.sampled_from(["dep", "indep", "asym"])), 24, 300,
     "small samples without ties: the p-value agrees closely with an independently written multiplier bootstrap of many replicates", shrink=False)
def multiplier(t, note):
    from copulae.gof import exch_test
    seed, n, m, kind = t
    r = gen.rng(seed)
    x = r.normal(size=(n, 2))
    if kind == "dep":
        x[:, 1] += x[:, 0]
    elif kind == "asym":
        x[:, 1] = np.mod(x[:, 0] + 1, 2) + 0.3 * x[:, 1]
    u = np.column_stack([ref.rank(x[:, j], "average") for j in range(2)]) / (n + 1)
    lo, hi = stat_interval(u, m)
    if hi - lo > 1e-12:
        note.skip("grid point on an observation")
        return
    N, M = 40000, 120000
    k = lattice(exch_test(x[:, 0], x[:, 1], N=N, m=m).p_value, N, "exch_test")
    s0 = np.concatenate([ref_multiplier(u, m, 20000, r) for _ in range(M // 20000)])
    k2 = int((s0 >= (lo + hi) / 2).sum())
    note(f"p {round(k / N, 1)}", f"n {n // 5 * 5}+")
    p = (k + k2 + 5) / (N + M + 10)
    if abs(k / N - k2 / M) > 6.5 * math.sqrt(p * (1 - p) * (1 / N + 1 / M)) + 0.001:
        fail(f"p-value of {n} points without ties, m={m}: {k}/{N} replicates at least as large, reference bootstrap {k2}/{M}")


@sub("P22", st.tuples(gen.seeds(), st.booleans(), st.sampled_from([0, 0, 6])), 4, 40, "rejections at 5% stay near the level on exchangeable models; strongly asymmetric data are rejected", shrink=False)
def level(t, note):
    from scipy import stats
    from copulae.gof import exch_test
    seed, tied, m = t
    n, R, N = 60, 60, 200
    k = 0
    for i in range(R):
        f = ["clayton", "frank", "gumbel", "indep"][i % 4]
        x = pdata({"model": f, "theta": 2.0, "seed": seed + i, "round": 15 if tied else None}, n)
        k += exch_test(x[:, 0], x[:, 1], N=N, m=m).p_value < 0.05
    note(f"{k} of {R} rejected")
    check(stats.binom.sf(k - 1, R, 0.08) > 1e-9, f"{k} of {R} exchangeable samples rejected at the 5% level")
    for i in range(6):
        x = pdata({"model": "shift", "theta": 2.0, "seed": seed + i, "round": 25 if tied else None}, 400)
        e = exch_test(x[:, 0], x[:, 1], N=N, m=m)
        check(e.p_value < 0.05, f"strongly asymmetric sample (n=400) not rejected: p-value {e.p_value}, statistic {e.statistic}")
