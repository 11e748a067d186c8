from hypothesis import strategies as st

import gen
import numpy as np
import ref
from core import arr, check, close, fail, sub
from props import stat
from props.util import make_arch

ASSUMPTIONS = ["statistical oracle: exact binomial tails of joint frequencies and DKW bands of the margins, false-alarm probability 1e-11 per comparison",
               "strengths up to Clayton theta and Frank |theta| 400 and Gumbel theta 200 (the distribution of coordinate differences); joint frequencies up to 25, 50 and 15"]

mp = ref.mp
FAMS = ("clayton", "frank", "gumbel")


@st.composite
def cases(draw, dims=(2, 6)):
    if draw(st.integers(0, 11)) == 0:
        c = {"fam": "indep", "dim": draw(st.integers(*dims)), "theta": 0.0}
    else:
        c = draw(gen.arch(FAMS, dims, max_theta={"clayton": 25.0, "frank": 50.0, "gumbel": 15.0}))
    c["seed"] = draw(gen.seeds())
    return c


def cdf_at(c, pts):
    return [float(ref.cdf(c["fam"], c["theta"], p)) for p in pts]


@sub("P05", cases(), 130, 2500, "40000 draws: uniform margins, joint frequencies below random points equal to the exact cdf, independent rows", shrink=False)
def distribution(c, note):
    k = make_arch(c)
    n = 40000
    note(c["fam"], f"d{c['dim']}", "neg" if c["theta"] < 0 else "pos")
    u = arr(k.random(n, seed=c["seed"]))
    check(u.shape == (n, c["dim"]), f"sample shape {u.shape}, expected {(n, c['dim'])}")
    what = f"{c['fam']} dim {c['dim']} theta {c['theta']:.5g}"
    stat.uniform_margins(u, what)
    r = gen.rng(c["seed"])
    pts = stat.test_points(r, c["dim"], 14)
    stat.orthants(u, pts, cdf_at(c, pts), what)
    stat.rows_independent(u, what)
    if c["dim"] == 2:  # upper-right and mixed orthants
        for a, b in ((0.9, 0.9), (0.98, 0.98), (0.1, 0.9), (0.9, 0.1), (0.02, 0.02)):
            ca = float(ref.cdf(c["fam"], c["theta"], (a, b)))
            q = float(1 - mp.mpf(a) - mp.mpf(b) + ca)
            stat.binom_check(int(((u[:, 0] > a) & (u[:, 1] > b)).sum()), n, q, f"{what}: draws above {(a, b)}")
    else:  # exchangeable: every pair has the same joint frequencies
        for i in range(c["dim"]):
            for j in range(i):
                for a in (0.1, 0.5, 0.9):
                    q = float(ref.cdf(c["fam"], c["theta"], (a, a)))
                    stat.binom_check(int(((u[:, i] <= a) & (u[:, j] <= a)).sum()), n, q, f"{what}: columns {i},{j} below {a}")


@sub("P05", st.tuples(cases(), st.integers(1, 40)), 300, 5000, "sample shape for any size, range, same seed same sample, different seed different sample, unseeded draws differ")
def seeds(t, note):
    c, n = t
    k = make_arch(c)
    note(c["fam"], "n1" if n == 1 else "n>1")
    s = c["seed"]
    a = arr(k.random(n, seed=s))
    check(a.shape == (n, c["dim"]), f"random({n}) of dimension {c['dim']} has shape {a.shape}")
    check(((a >= 0) & (a <= 1)).all(), f"draws outside the unit hypercube: {a}")
    a0 = a.copy()
    np.random.uniform(size=3)
    other = arr(k.random(n, seed=s + 1))
    k2 = make_arch(c)
    k2.random(5)
    b = arr(k2.random(n, seed=s))
    check(np.array_equal(a0, b), f"same seed, different samples: {a0[:2]} and {b[:2]}")
    check(np.array_equal(a0, a), "an earlier sample changed")
    check(not np.array_equal(a0, other), f"seeds {s} and {s + 1} give the same sample {a0[:2]}")
    x, y = arr(k.random(n)), arr(k.random(n))
    check(not np.array_equal(x, y), "two unseeded draws are equal")
    check(k.params == (c["dim"] if c["fam"] == "indep" else c["theta"]), "sampling changed the parameter")


@sub("P05", st.tuples(gen.arch(FAMS, (2, 5), indep_ok=False, max_theta={"clayton": 10.0, "frank": 25.0, "gumbel": 8.0}), gen.seeds()), 60, 1000,
     "many small samples: pooled draws of repeated random(3) calls follow the cdf as one large sample does", shrink=False)
def small_samples(t, note):
    c, seed = t
    k = make_arch(c)
    note(c["fam"])
    m = 1500
    u = np.vstack([arr(k.random(3, seed=seed)) if i == 0 else arr(k.random(3)) for i in range(m)])
    check(u.shape == (3 * m, c["dim"]), "shapes")
    what = f"pooled {c['fam']} dim {c['dim']} theta {c['theta']:.4g}"
    stat.uniform_margins(u, what)
    r = gen.rng(seed)
    pts = stat.test_points(r, c["dim"], 6)
    stat.orthants(u, pts, cdf_at(c, pts), what)


def float_cdf(fam, t, u, v):
    """Bivariate distribution function in double precision, vectorised (moderate parameters only)."""
    if fam == "clayton":
        return (u ** -t + v ** -t - 1) ** (-1 / t)
    if fam == "frank":
        return -np.log1p(np.expm1(-t * u) * np.expm1(-t * v) / np.expm1(-t)) / t
    return np.exp(-((-np.log(u)) ** t + (-np.log(v)) ** t) ** (1 / t))


_GX, _GW = np.polynomial.legendre.leggauss(80)
_GX, _GW = (_GX + 1) / 2, _GW / 2


@sub("P05", st.tuples(st.sampled_from(FAMS), st.integers(2, 4), gen.logfl(0.008, 0.12), st.booleans(), gen.seeds()), 40, 600,
     "weak dependence: the sample Spearman rho of 500000 draws of every pair equals the one of the distribution function", shrink=False)
def weak(t, note):
    fam, d, e, neg, seed = t
    th = 1 + e if fam == "gumbel" else 6 * e if fam == "frank" else e
    if neg and d == 2 and fam != "gumbel":
        th = -th
    note(fam, f"d{d}", "neg" if th < 0 else "pos")
    k = make_arch({"fam": fam, "dim": d, "theta": th})
    n = 500000
    u = arr(k.random(n, seed=seed))
    check(u.shape == (n, d), f"sample shape {u.shape}")
    g = float_cdf(fam, th, _GX[:, None], _GX[None, :]) - _GX[:, None] * _GX[None, :]
    rho = 12 * float(_GW @ g @ _GW)
    z = u - 0.5
    for i in range(d):
        for j in range(i):
            p = 12 * z[:, i] * z[:, j]  # within [-3, 3], variance close to 1
            dev = abs(p.mean() - rho)
            band = 7.5 * np.sqrt(max(p.var(), 0.5) / n) + 3 * 50 / n  # Bernstein, below 1e-11
            check(dev < band, f"{fam} dim {d} theta {th:.5g}: columns {i},{j} have Spearman correlation {p.mean():.5f}, expected {rho:.5f} (band {band:.5f})")


@sub("P05", st.tuples(st.sampled_from(["frank", "frank", "clayton", "gumbel"]), st.integers(2, 4), gen.logfl(12.0, 400.0), st.booleans(), gen.seeds()), 48, 600,
     "strong dependence: 40000 draws have uniform margins, and the differences between coordinates are as small as the copula says", shrink=False)
def strong(t, note):
    fam, d, th, neg, seed = t
    if fam == "gumbel":
        th = 1 + th / 2
    s = -1.0 if neg and d == 2 and fam == "frank" else 1.0
    note(fam, f"d{d}", "neg" if s < 0 else "pos")
    k = make_arch({"fam": fam, "dim": d, "theta": s * th})
    n = 40000
    u = arr(k.random(n, seed=seed))
    what = f"{fam} dim {d} theta {s * th:.5g}"
    check(u.shape == (n, d), f"{what}: sample shape {u.shape}")
    check(((u > 0) & (u < 1)).all(), f"{what}: {int((~((u > 0) & (u < 1))).sum())} coordinates outside the open unit interval, such as {u[~((u > 0) & (u < 1))][:3]}")
    stat.uniform_margins(u, what)
    r = gen.rng(seed)
    c = {"fam": fam, "theta": s * th}
    for i in range(d):
        for j in range(i):
            for a in (0.1, 0.3, 0.5, 0.7, 0.9):
                b = (a if s > 0 else 1 - a) + r.uniform(-1, 1) / th
                if 0 < b < 1:
                    with mp.workdps(60 + int(th / 2)):  # exp(-theta) matters
                        q = float(ref.cdf(fam, s * th, (a, b)))
                    stat.binom_check(int(((u[:, i] <= a) & (u[:, j] <= b)).sum()), n, q, f"{what}: columns {i},{j} below {(a, b)}")
