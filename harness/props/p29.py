"""P29: the skewed stable distribution and the logarithmic-series sampler."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.special import exp1, expit

import gen
from core import arr, check, close, fail, same_bits, sub
from props.stat import P0, binom_check

ASSUMPTIONS = ["reference density: composite Gauss-Legendre inversion of the characteristic function (alpha >= 0.4), dense trapezoid of Nolan's integral below",
               "within 1e-5 of alpha=1 the density is compared at 5e-7 (both expressions cancel there), elsewhere at 1e-8 of its peak",
               "samples: exact binomial tails at 1e-11 per comparison"]

_G, _W = np.polynomial.legendre.leggauss(20)


def phase(t, a, b):
    """minus the argument of the standard S0 characteristic function at t > 0"""
    if a == 1:
        return b * 2 / math.pi * t * np.log(t)
    if a == 2 or b == 0:
        return 0 * t
    k = a - 1
    # tan(pi a / 2) * (t - t^a) without cancellation near a = 1
    return b * (1 / math.tan(math.pi / 2 * k)) * t * np.expm1(k * np.log(t))


def nodes(x, a, b):
    T = 45 ** (1 / a)
    sl = abs(x) + (abs(b) * (6 if abs(a - 1) < 0.1 else abs(math.tan(math.pi * a / 2))) if 0 < a < 2 else 0) + 1
    e = [0.0] + list(np.geomspace(1e-14, min(T, 0.5), 70))
    while e[-1] < T:
        e.append(min(T, e[-1] + min(3 / sl, max(0.2, 0.2 * e[-1]))))
    e = np.array(e)
    h = np.diff(e) / 2
    return ((e[1:] + e[:-1])[:, None] / 2 + h[:, None] * _G), h[:, None] * _W


def density(x, a, b):
    """standard S0 density; the sign of the phase: log phi(t) = -|t|^a + i b sign(t) tan(pi a/2) (|t| - |t|^a) * (-1) ..."""
    t, w = nodes(x, a, b)
    return float((w * np.exp(-t ** a) * np.cos(x * t + phase(t, a, b))).sum() / math.pi)


def distribution(x, a, b):
    if a < 0.4:
        return small(x, a, b)[1]
    t, w = nodes(x, a, b)
    return float(0.5 + (w * np.exp(-t ** a) * np.sin(x * t + phase(t, a, b)) / t).sum() / math.pi)


def small(x, a, b):
    """density and distribution function for a < 1 by the trapezoidal rule on a logistic scale (X is a function of an angle and an exponential)"""
    zeta = -b * math.tan(math.pi * a / 2)
    th0 = math.copysign(math.pi / 2, b) if abs(b) == 1 else math.atan(-zeta) / a
    z = x - zeta
    neg = z < 0
    if neg:
        z, th0, b = -z, -th0, -b
    low = 0.5 - th0 / math.pi  # P(X < zeta)
    L = math.pi / 2 + th0
    if L < 1e-12 or z == 0:
        d, f = 0.0, 1.0 if z else low
    else:
        y = np.linspace(-120, 120, 48001)
        s, u = L * expit(y), L * expit(-y)
        with np.errstate(all="ignore"):
            lg = (a * (math.log(z) - np.log(np.sin(a * s))) - math.log1p(zeta * zeta) / 2 + np.log(np.where(u < 1.5, np.sin(u), np.sin(math.pi / 2 - th0 + s)))) / (a - 1) + np.log(np.sin(math.pi / 2 - th0 + s - a * s))
            j = s * expit(-y) * (y[1] - y[0])
            g = np.exp(lg)
            f1 = np.where(g < 700, g * np.exp(-g), 0) * j
            f2 = np.exp(-g) * j
        d = a / (math.pi * (1 - a) * z) * float(np.nansum(f1))
        f = low + float(np.nansum(f2)) / math.pi
    return (d, 1 - f) if neg else (d, f)


def omega(a, g):
    return 2 / math.pi * math.log(g) if a == 1 else 0.0 if a == 2 else math.tan(math.pi * a / 2)


def standardise(c):
    """scale and location in the S0 parameterisation (pm 0 and 1)"""
    a, b, g, d = c["a"], c["b"], c["g"], c["d"]
    return g, d + b * g * omega(a, g) if c["pm"] == 1 else d


def alphas(lo=0.4):
    return st.one_of(st.just(1.0), gen.fl(lo, 1.99), gen.fl(lo, 1.99), gen.fl(0.9, 1.1), gen.fl(1.9, 2), st.sampled_from([1, 2, 0.5, 1.0, 2.0, 1.5, 1.0, 1 + 1e-4, 1 - 1e-3]))


def betas():
    return st.one_of(gen.fl(-1, 1), gen.fl(-1, 1), st.sampled_from([0, 1, -1, 0.0, 1.0, -1.0, 0.999, -1e-3, 0.5]))


@st.composite
def models(draw, lo=0.4, pms=(0, 0, 1)):
    g = draw(st.one_of(st.just(1.0), gen.logfl(0.01, 100), gen.logfl(1e-6, 1e6)))
    return {"a": draw(alphas(lo)), "b": draw(betas()), "g": g, "d": draw(st.one_of(st.just(0.0), gen.fl(-10, 10))) * min(1.0, 1e3 * g),
            "pm": draw(st.sampled_from(pms))}


def S():
    from copulae.stats import skew_stable
    return skew_stable


def pack(z, form):
    if z.size == 1:
        return z
    return {"list": z.tolist(), "tuple": tuple(z.tolist()), "2d": z.reshape(2, -1), "rev": z[::-1].copy()[::-1], "fortran": np.asfortranarray(z.reshape(2, -1))}.get(form, z)


@sub("P29", st.tuples(models(), gen.seeds(), st.sampled_from(["array", "scalar", "np", "list", "2d", "rev", "0d", "default"]), st.booleans()), 500, 15000,
     "pdf and logpdf of centre and shoulder points against the inverted characteristic function, for S0 and S1 parameters and every packaging of x")
def pdf(t, note):
    c, seed, form, uselog = t
    r = gen.rng(seed)
    k = 1 if form in ("scalar", "np", "0d") else 4
    z = r.choice([0.3, 1.5, 5]) * r.normal(size=k)
    if r.uniform() < 0.15:
        z[0] = 0.0
    if r.uniform() < 0.1 and c["a"] not in (1, 2) and abs(c["b"] * math.tan(math.pi * c["a"] / 2)) < 8:
        z[0] = -c["b"] * math.tan(math.pi * c["a"] / 2)
    if form == "default":
        c.update(g=1.0, d=0.0, pm=0)
    g, d = standardise(c)
    x = d + g * z
    note(form, f"pm{c['pm']}", "alpha 1" if c["a"] == 1 else "alpha 2" if c["a"] == 2 else "alpha<1" if c["a"] < 1 else "alpha>1", "extreme beta" if abs(c["b"]) == 1 else "beta")
    want = np.array([density((v - d) / g, c["a"], c["b"]) for v in x]) / g
    peak = max(want.max(), 0.2 / g)
    p = {"scalar": float(x[0]), "np": np.float64(x[0]), "0d": np.array(x[0])}.get(form, pack(x, form))
    keep = np.array(p, copy=True)
    a = (c["a"], c["b"]) if form == "default" else (c["a"], c["b"], c["g"], c["d"], c["pm"])
    out = S().pdf(p, *a)
    lg = S().logpdf(p, *a) if uselog else S().pdf(p, *a, log=True)
    same_bits(np.asarray(p), keep, "points given to pdf")
    if k == 1:
        check(np.ndim(out) == 0 and np.ndim(lg) == 0, f"density of one point has shape {np.shape(out)}")
    else:
        check(np.shape(out) == np.shape(p) == np.shape(lg), f"density of points of shape {np.shape(p)} has shape {np.shape(out)}, its logarithm {np.shape(lg)}")
    out, lg = np.ravel(out), np.ravel(lg)
    tol = (5e-7 if 0 < abs(c["a"] - 1) < 1e-5 else 1e-8) * peak
    what = f"alpha={c['a']} beta={c['b']} gamma={c['g']} delta={c['d']} pm={c['pm']} x={x.tolist()}"
    close(out, want, 1e-9, tol, f"stable density {what}")
    big = want > 1e-3 * peak
    close(lg[big], np.log(want[big]), 0, 1e-4 if tol > 1e-7 * peak else 2e-5, f"log of the stable density {what}")
    close(np.exp(lg), want, 1e-9, tol, f"exponential of the log density {what}")
    # reflection
    ref = S().pdf(np.ravel(2 * d - x), c["a"], -c["b"], g, d, 0)
    close(np.ravel(ref), out, 1e-7, tol, f"reflected density {what}")


@sub("P29", st.tuples(st.one_of(gen.fl(0.05, 0.4), gen.fl(0.1, 0.95)), betas(), gen.seeds(), gen.logfl(0.1, 10)), 260, 8000,
     "density for small stability indices at points spread over many orders of magnitude against a dense trapezoidal rule")
def small_index(t, note):
    a, b, seed, g = t
    r = gen.rng(seed)
    zeta = -b * math.tan(math.pi * a / 2)
    z = zeta + r.choice([-1, 1], 3) * 10 ** r.uniform(-3, 6, 3)
    x = 2 + g * z
    z = (x - 2) / g
    want = np.array([small(v, a, b)[0] for v in z]) / g
    note("one-sided" if abs(b) == 1 else "two-sided", "below 0.4" if a < 0.4 else "above", "zero" if (want == 0).any() else "positive")
    got = arr(S().pdf(x, a, b, g, 2.0))
    close(got, want, 2e-6, 1e-13 * max(want.max(), 1e-30), f"stable density alpha={a} beta={b} gamma={g} x={x.tolist()}")
    lg = arr(S().logpdf(x, a, b, g, 2.0))
    ok = want > 1e-290
    close(lg[ok], np.log(want[ok]), 0, 2e-5, f"log of the stable density alpha={a} beta={b} gamma={g} x={x.tolist()}")


@sub("P29", st.tuples(st.one_of(gen.fl(0.1, 0.97), gen.fl(1.03, 1.9), st.just(1.0)), gen.fl(-0.98, 0.98), gen.fl(6, 30), st.booleans(), gen.logfl(0.1, 10)), 500, 8000,
     "density far in the tails against the Pareto law alpha (1 + beta) sin(pi alpha/2) Gamma(alpha)/pi x^-(1+alpha)")
def tails(t, note):
    a, b, e, right, g = t
    bt = abs(omega(a, 1.0)) if a != 1 else 1.0
    if e / a > 290 or (1 + a) * e / a > 295:
        note.skip("tail beyond the floating point range")
        return
    z = 10 ** (e / a) * (1 + bt) ** (1 / a) * (1 if right else -1)
    s = b if right else -b
    want = math.log(a) + math.log1p(s) + math.log(math.sin(math.pi * a / 2)) + math.lgamma(a) - math.log(math.pi) - (1 + a) * math.log(abs(z)) - math.log(g)
    note("right" if right else "left", "log" if want < -690 else "plain")
    x = z * g + 1
    close(S().logpdf(x, a, b, g, 1.0), want, 0, 1e-2, f"log density in the tail alpha={a} beta={b} gamma={g} x={x}")
    if want > -690:
        close(S().pdf(x, a, b, g, 1.0), math.exp(want), 1e-2, 0, f"density in the tail alpha={a} beta={b} gamma={g} x={x}")


@sub("P29", st.tuples(st.one_of(gen.fl(0.15, 0.97), gen.fl(1.03, 1.99), st.just(1.0)), gen.fl(-0.98, 0.98), st.lists(st.tuples(gen.fl(0, 1), st.booleans()), min_size=1, max_size=4), gen.logfl(0.1, 10), st.booleans()), 250, 8000,
     "density up to the largest doubles, in arrays that mix such points with the centre: log density from the Pareto law, density zero only where it underflows, zero at infinity")
def extremes(t, note):
    a, b, pts, g, inf = t
    bt = abs(omega(a, 1.0)) if a != 1 else 1.0
    lo, hi = 4 / min(a, 1) + math.log10(1 + bt) / a + (3 if a > 1.7 else 0), 306
    if lo > 290:
        note.skip("tail beyond the floating point range")
        return
    z = [10 ** (lo + (hi - lo) * f) * (1 if right else -1) for f, right in pts]
    x = np.array([0.3] + z + ([np.inf, -np.inf] if inf else [])) * g
    with np.errstate(all="ignore"):
        lp, p = arr(S().logpdf(x, a, b, g)), arr(S().pdf(x, a, b, g))
    one = float(S().pdf(0.3 * g, a, b, g))
    close(p[0], one, 1e-9, 0, f"density at the centre beside tail points {z}, alpha={a} beta={b}")
    close(lp[0], math.log(one), 0, 1e-9, f"log density at the centre beside tail points {z}, alpha={a} beta={b}")
    for v, l, d in zip(z, lp[1:], p[1:]):
        want = math.log(a) + math.log1p(b if v > 0 else -b) + math.log(math.sin(math.pi * a / 2)) + math.lgamma(a) - math.log(math.pi) - (1 + a) * math.log(abs(v)) - math.log(g)
        note("density underflows" if want < -745 else "plain")
        close(l, want, 1e-3, 1e-2, f"log density at {v * g} (alpha={a} beta={b} gamma={g})")
        if want > -700:
            close(d, math.exp(want), 2e-2, 0, f"density at {v * g} (alpha={a} beta={b} gamma={g})")
        else:
            check(0 <= d < 1e-300, f"density {d} at {v * g} (alpha={a} beta={b} gamma={g}), log density {want}")
    if inf:
        check((p[-2:] == 0).all() and (lp[-2:] == -np.inf).all(), f"density {p[-2:]}, log density {lp[-2:]} at plus and minus infinity (alpha={a} beta={b} gamma={g})")


@sub("P29", st.tuples(st.one_of(gen.fl(0.3, 1.98), st.sampled_from([1.0, 2.0, 0.5])), betas(), gen.logfl(0.1, 10), gen.fl(-5, 5), gen.seeds()), 70, 3000,
     "S2 parameterisation: mode at delta, scale gamma alpha^(-1/alpha), normal and Cauchy special cases")
def mode(t, note):
    a, b, g, d, seed = t
    r = gen.rng(seed)
    note("one-sided" if abs(b) == 1 else "symmetric" if b == 0 else "skewed", "alpha 2" if a == 2 else "alpha 1" if a == 1 else "alpha")
    g2 = g * a ** (-1 / a)
    f = lambda v: arr(S().pdf(v, a, b, g, d, 2))
    top = float(f(d))
    h = g2 * np.array([-3, -1, -0.3, -0.1, -0.05, 0.05, 0.1, 0.3, 1, 3])
    around = f(d + h)
    check(bool((around <= top * (1 + 1e-6)).all()), f"pm=2, alpha={a} beta={b} gamma={g}: density {around.max()} beside delta={d} above {top} at delta")
    m, w = 0.0, 0.75
    for _ in range(3):
        grid = m + np.linspace(-1, 1, 31) * w
        p1 = arr(S().pdf(grid, a, b))
        m, w = grid[p1.argmax()], w / 12
    close(top * g2, p1.max(), 2e-3, 0, f"pm=2, alpha={a} beta={b} gamma={g}: density at the mode times gamma alpha^(-1/alpha)")
    z = r.normal(size=3) * 2
    close(f(d + g2 * z) * g2, arr(S().pdf(z + m, a, b)), 0.02, 0.02 * p1.max(), f"pm=2, alpha={a} beta={b} gamma={g} delta={d}: shape")
    if a == 2:
        x = d + g * z
        close(f(x), np.exp(-((x - d) / g) ** 2 / 2) / (g * math.sqrt(2 * math.pi)), 1e-4, 0, "pm=2, alpha=2: normal density with standard deviation gamma")
    if a == 1 and b == 0:
        x = d + g * z
        close(f(x), 1 / (math.pi * g * (1 + ((x - d) / g) ** 2)), 1e-9, 0, "pm=2, alpha=1: Cauchy density")


@sub("P29", st.tuples(models(0.25, (0, 1, 1, None, 2)), gen.seeds(), st.sampled_from(["int", "int", "tuple", "list"])), 130, 2500,
     "samples of every parameterisation against the distribution function, by exact binomial tests at quantiles spread over centre and tails; sizes and seeds")
def samples(t, note):
    c, seed, form = t
    a, b, g, d, pm = c["a"], c["b"], c["g"], c["d"], c["pm"]
    n = 3000
    size = {"int": n, "tuple": (n // 2, 2), "list": [n, 1]}[form]
    kw = {} if pm is None else {"pm": pm}
    np.random.seed(seed % 2 ** 32)
    s = S().rvs(a, b, g, d, size=size, **kw)
    np.random.seed(seed % 2 ** 32)
    s2 = S().rvs(a, b, g, d, size=size, **kw)
    same_bits(s, s2, "sample of one seed")
    shape = (n,) if form == "int" else tuple(size)
    check(np.shape(s) == shape, f"sample of size {size} has shape {np.shape(s)}")
    s = np.ravel(s)
    check(bool((~np.isnan(s)).all()), f"NaN draws for alpha={a} beta={b}")
    pm = 1 if pm is None else pm
    if pm == 2:
        g2 = g * a ** (-1 / a)
        grid = np.linspace(-0.75, 0.75, 151)
        m = grid[arr(S().pdf(grid, a, b)).argmax()]
        d2 = d - g2 * m
    else:
        g2, d2 = standardise({**c, "pm": pm})
    note(f"pm{pm}", "alpha 1" if a == 1 else "alpha<1" if a < 1 else "alpha>1", "skew" if b else "symmetric")
    z = np.concatenate([[-10.0, -3, -1, -0.4, 0, 0.4, 1, 3, 10], [50.0, -50.0][: 2 if a < 1.7 else 0]])
    for v in z:
        p = distribution(v, a, b)
        if pm == 2:  # the mode is only known to the grid
            e = 0.012
            lo, hi = distribution(v - e, a, b), distribution(v + e, a, b)
            k = int((s <= d2 + g2 * v).sum())
            p = min(max(k / n, lo), hi)
        binom_check(int((s <= d2 + g2 * v).sum()), n, p, f"stable samples alpha={a} beta={b} gamma={g} delta={d} pm={pm}: draws below {d2 + g2 * v}")
    # consecutive draws are independent
    q = np.median(s)
    m = n // 2
    x, y = s[0:2 * m:2] <= q, s[1:2 * m:2] <= q
    binom_check(int((x & y).sum()), m, 0.25, "consecutive draws both below the median")


@sub("P29", st.tuples(st.one_of(gen.logfl(0.02, 0.3), gen.fl(0.3, 0.97)), st.sampled_from([1.0, 1.0, 1e-3, 50.0]), st.booleans(), gen.seeds()), 60, 1200,
     "one-sided stable samples (beta = 1, alpha < 1, down to alpha = 0.02): their Laplace transform is exp(-s^alpha), so (E / S)^alpha is exponential")
def one_sided(t, note):
    a, scale, default, seed = t
    note("small alpha" if a < 0.1 else "alpha", "default pm" if default else "pm 1")
    n = 20000
    np.random.seed(seed % 2 ** 32)
    g = scale * math.cos(math.pi * a / 2) ** (1 / a)
    s = arr(S().rvs(a, 1.0, g, size=n, **({} if default else {"pm": 1})))
    bad = ~(s >= 0)
    check(not bad.any(), f"alpha={a}, beta=1, gamma={g}: one-sided samples are not positive, such as {s[bad][:3]}")
    e = gen.rng(seed).standard_exponential(n)
    with np.errstate(divide="ignore", over="ignore"):
        x = (e * scale / s) ** a
    for q in (0.001, 0.01, 0.05, 0.2, 0.5, 0.8, 0.95, 0.99, 0.999):
        v = -math.log1p(-q)
        binom_check(int((x <= v).sum()), n, q, f"stable samples alpha={a} beta=1 gamma={g}: exponential transform below {v}")


def sf_log(k, alpha):
    """P(X > k) of the logarithmic distribution with log(1 - p) = alpha"""
    if k <= 200000:
        j = np.arange(1, int(k) + 1, dtype=float)
        return 1 - float(np.exp(j * math.log(-math.expm1(alpha)) - np.log(j)).sum()) / -alpha
    return float(exp1(k * math.exp(alpha))) / -alpha


@sub("P29", st.tuples(st.one_of(gen.fl(-3.5, -0.01), gen.fl(-40, -3), gen.logfl(1e-8, 3).map(lambda v: -v), st.sampled_from([-3.0, -3.0000001, -0.5, -20.0, -60.0])), gen.seeds(),
                      st.sampled_from([3000, 3000, (1500, 2)])), 250, 4000,
     "logarithmic-series draws: positive integers with the right distribution function at every order of magnitude, right size, reproducible")
def log_series(t, note):
    from copulae.stats.log import random_log_series_ln1p
    al, seed, size = t
    np.random.seed(seed % 2 ** 32)
    x = random_log_series_ln1p(al, size)
    np.random.seed(seed % 2 ** 32)
    same_bits(x, random_log_series_ln1p(al, size), "sample of one seed")
    check(np.shape(x) == ((size,) if isinstance(size, int) else size), f"sample of size {size} has shape {np.shape(x)}")
    x = np.ravel(x)
    n = x.size
    fin = np.isfinite(x)
    check(bool((x >= 1).all() and (x[fin] == np.floor(x[fin])).all() and (fin.all() or al < -30)), f"draws that are not positive integers for log(1-p)={al}: {x[(x < 1) | ~fin][:3]}")
    note("inversion" if al >= -3 else "kemp", "near 0" if al > -0.05 else "body")
    for k in (1, 2, 3, 5, 10, 30, 100, 1000, 10000, 10 ** 6, 10 ** 8, 10 ** 12):
        p = sf_log(k, al)
        binom_check(int((x > k).sum()), n, p, f"logarithmic draws with log(1-p)={al} above {k}")
    m = n // 2
    a, b = x[0:2 * m:2] == 1, x[1:2 * m:2] == 1
    p1 = 1 - sf_log(1, al)
    binom_check(int((a & b).sum()), m, p1 * p1, f"consecutive draws both 1, log(1-p)={al}")


@sub("P29", st.tuples(st.one_of(st.just(1.0), alphas(0.3)), betas(), gen.logfl(1e-7, 1e7), gen.fl(-5, 5), gen.seeds()), 160, 5000,
     "location and scale: density and samples for any scale equal those of the standard variable, for S0 and S1 parameters; S1 equals S0 at the shifted location")
def scaling(t, note):
    a, b, g, d, seed = t
    r = gen.rng(seed)
    z = 2 * r.normal(size=4)
    d = d * min(1.0, g)
    note("alpha 1" if a == 1 else "alpha 2" if a == 2 else "other", "narrow" if g < 1e-2 else "wide" if g > 1e2 else "unit")
    if 0 < abs(a - 1) < 1e-5:
        return note.skip("cancellation next to alpha 1")
    w = omega(a, g)
    std = arr(S().pdf(z, a, b))
    peak = max(std.max(), 0.2)
    x = d + g * z
    z_eff = (x - d) / g
    if np.abs(z_eff - z).max() > 1e-13 * (1 + np.abs(z).max()):
        return note.skip("scale lost in the location")
    close(arr(S().pdf(x, a, b, g, d, 0)) * g, std, 1e-7, 1e-7 * peak, f"S0 density alpha={a} beta={b} gamma={g} delta={d} at {x.tolist()}")
    shift = b * g * w
    if abs(b * w) < 1e3:
        close(arr(S().pdf(x + shift, a, b, g, d, 1)) * g, std, 1e-7, 1e-7 * peak, f"S1 density alpha={a} beta={b} gamma={g} delta={d}")
    np.random.seed(seed % 2 ** 31)
    y = arr(S().rvs(a, b, 1.0, 0.0, 0, size=5))
    np.random.seed(seed % 2 ** 31)
    v = arr(S().rvs(a, b, g, d, 0, size=5))
    close((v - d) / g, y, 1e-6, 1e-6, f"S0 samples alpha={a} beta={b} gamma={g} delta={d} after standardising")
    if abs(b * w) < 1e3:
        np.random.seed(seed % 2 ** 31)
        v = arr(S().rvs(a, b, g, d, 1, size=5))
        close((v - d - shift) / g, y, 1e-6, 1e-6, f"S1 samples alpha={a} beta={b} gamma={g} delta={d} after standardising")
