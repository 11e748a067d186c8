from hypothesis import strategies as st
from scipy import special

import gen
import mvnref
import numpy as np
import ref
from core import arr, check, close, fail, sub
from props import stat
from props.p06 import ell, sigma
from props.util import make_ell

ASSUMPTIONS = ["statistical oracle: exact binomial tails and DKW bands, false-alarm probability 1e-11 per comparison",
               "reference orthant probabilities: normal by quadrature; Student as the normal probability mixed over the chi-square variable"]

_X, _W = mvnref._gl(0.0, 1.0, 4)


def pair_cdf(c, i, j, a, b):
    """P(U_i<=a, U_j<=b), by quadrature."""
    r = sigma(c)[i, j]
    if c["fam"] == "gaussian":
        return float(mvnref.phi2(special.ndtri(a), special.ndtri(b), r))
    v = c["df"]
    q = special.chdtri(v, 1 - _X)  # chi-square quantiles
    s = np.sqrt(q / v)
    return float((_W * mvnref.phi2(special.stdtrit(v, a) * s, special.stdtrit(v, b) * s, r)).sum())


@sub("P09", st.tuples(ell(dims=(2, 6), df=st.one_of(gen.logfl(0.6, 40.0), st.sampled_from([1.0, 2.0, 3.0, 20000.0]))), gen.seeds()), 90, 1500,
     "40000 draws: uniform margins, joint frequencies of every pair in the body and in all four corners, signs of all coordinates together, independent rows", shrink=False)
def distribution(t, note):
    c, seed = t
    k = make_ell(c)
    n, d = 40000, c["dim"]
    note(c["fam"], f"d{d}")
    u = arr(k.random(n, seed=seed))
    check(u.shape == (n, d), f"sample shape {u.shape}, expected {(n, d)}")
    what = f"{c['fam']} {c.get('df', '')} rho {np.round(c['rho'], 3).tolist()}"
    stat.uniform_margins(u, what)
    stat.rows_independent(u, what)
    for i in range(d):
        for j in range(i):
            for a, b in ((0.5, 0.5), (0.1, 0.1), (0.02, 0.02), (0.3, 0.7), (0.1, 0.9), (0.02, 0.98)):
                p = pair_cdf(c, i, j, a, b)
                x, y = u[:, i], u[:, j]
                stat.binom_check(int(((x <= a) & (y <= b)).sum()), n, p, f"{what}: columns {i},{j} below {(a, b)}")
                stat.binom_check(int(((x > 1 - a) & (y > 1 - b)).sum()), n, p, f"{what}: columns {i},{j} above {(1 - a, 1 - b)}")
    # three coordinates at once: closed form of the trivariate median orthant
    R = sigma(c)
    for i in range(d - 2):
        a = np.arcsin([R[i, i + 1], R[i, i + 2], R[i + 1, i + 2]])
        p = 0.125 + a.sum() / (4 * np.pi)
        stat.binom_check(int((u[:, i:i + 3] <= 0.5).all(1).sum()), n, p, f"{what}: columns {i}..{i + 2} below the median")
        stat.binom_check(int((u[:, i:i + 3] > 0.5).all(1).sum()), n, p, f"{what}: columns {i}..{i + 2} above the median")


@sub("P09", st.tuples(ell(dims=(2, 4), df=gen.logfl(0.8, 20.0)), gen.seeds()), 40, 600,
     "joint tail of a Student sample: one chi-square variable per row shared by all coordinates (zero correlation still gives dependent tails)", shrink=False)
def joint_tail(t, note):
    c, seed = t
    c = dict(c, fam="student", df=c.get("df", 2.5), rho=[0.0] * len(c["rho"]))
    k = make_ell(c)
    n, d = 40000, c["dim"]
    note(f"d{d}")
    u = arr(k.random(n, seed=seed))
    a = 0.05
    s = np.sqrt(special.chdtri(c["df"], 1 - _X) / c["df"])
    one = 2 * special.ndtr(special.stdtrit(c["df"], a) * s)  # P(|.| extreme | mixing)
    p = float((_W * one ** d).sum())
    ext = ((u <= a) | (u >= 1 - a))
    stat.binom_check(int(ext.all(1).sum()), n, p, f"df {c['df']:.4g}, dim {d}: all coordinates extreme")
    stat.binom_check(int((~ext).all(1).sum()), n, float((_W * (1 - one) ** d).sum()), f"df {c['df']:.4g}, dim {d}: no coordinate extreme")


@sub("P09", st.tuples(ell(dims=(2, 6), df=st.one_of(gen.logfl(0.6, 40.0), st.just(20000.0))), gen.seeds(), st.integers(1, 30)), 400, 6000,
     "shape for any size, range, same seed same sample, different seed different sample, unseeded draws differ, parameters unchanged")
def seeds(t, note):
    c, s, n = t
    k = make_ell(c)
    note(c["fam"], "n1" if n == 1 else "n>1")
    R = k.sigma
    a = arr(k.random(n, seed=s))
    check(a.shape == (n, c["dim"]), f"random({n}) of dimension {c['dim']} has shape {a.shape}")
    check(((a >= 0) & (a <= 1)).all(), f"draws outside the unit hypercube {a}")
    a0 = a.copy()
    other = arr(k.random(n, seed=s + 1))
    np.random.uniform(size=3)
    k2 = make_ell(c)
    k2.random(4)
    b = arr(k2.random(n, seed=s))
    check(np.array_equal(a0, b), f"same seed {s}, different samples: {a0[:2]} and {b[:2]}")
    check(np.array_equal(a0, a), "an earlier sample changed")
    check(not np.array_equal(a0, other), f"seeds {s} and {s + 1} give the same sample")
    x, y = arr(k.random(n)), arr(k.random(n))
    check(not np.array_equal(x, y), "two unseeded draws are equal")
    check(np.array_equal(k.sigma, R), "sampling changed sigma")


@sub("P09", st.tuples(ell(dims=(2, 4), df=gen.logfl(0.8, 20.0)), gen.seeds()), 25, 400, "pooled small samples (1-3 rows a call) follow the same distribution", shrink=False)
def small_samples(t, note):
    c, seed = t
    k = make_ell(c)
    note(c["fam"])
    k.random(1, seed=seed)
    u = np.vstack([arr(k.random(1 + i % 3)).reshape(1 + i % 3, c["dim"]) for i in range(1500)])
    what = f"pooled {c['fam']}"
    stat.uniform_margins(u, what)
    for i in range(c["dim"]):
        for j in range(i):
            for a, b in ((0.5, 0.5), (0.1, 0.1), (0.1, 0.9)):
                stat.binom_check(int(((u[:, i] <= a) & (u[:, j] <= b)).sum()), len(u), pair_cdf(c, i, j, a, b), f"{what}: columns {i},{j} below {(a, b)}")


@sub("P09", st.tuples(st.sampled_from(["gaussian", "student"]), st.integers(2, 4), st.lists(st.sampled_from([1, -1]), min_size=4, max_size=4), st.booleans(), gen.logfl(0.6, 40.0), gen.seeds()), 120, 2000,
     "perfect correlations: the coordinates of every draw are equal (or reflections of each other), the rest is uniform")
def perfect(t, note):
    fam, d, signs, partial, df, seed = t
    s = np.array(signs[:d], float)
    R = np.outer(s, s)
    if partial and d > 2:  # the last coordinate is independent of the others
        R[-1, :-1] = R[:-1, -1] = 0
    c = {"fam": fam, "dim": d, "df": df, "rho": [float(R[i, j]) for j in range(d) for i in range(j + 1, d)]}
    k = make_ell(c)
    note(fam, f"d{d}", "partial" if partial and d > 2 else "full")
    n = 2000
    u = arr(k.random(n, seed=seed))
    check(u.shape == (n, d) and ((u >= 0) & (u <= 1)).all(), f"sample of {c}")
    for j in range(1, d if not (partial and d > 2) else d - 1):
        w = u[:, 0] if R[0, j] == 1 else 1 - u[:, 0]
        gap = np.abs(u[:, j] - w).max()
        check(gap < 1e-6, f"{c}: perfectly correlated coordinates differ by {gap}")
    stat.uniform_margins(u, f"{c}")
