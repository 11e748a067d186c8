"""P28: the multivariate t distribution."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats
from scipy.special import gammaln

import gen
import mvnref
import ref
from core import arr, check, close, fail, raises, same_bits, sub
from props.stat import P0, binom_check, rows_independent

ASSUMPTIONS = ["above 10000 degrees of freedom the density may be the normal one: tolerance (d+quad)^2/df on the logarithm",
               "samples: exact binomial tails and the Dvoretzky-Kiefer-Wolfowitz band at 1e-11 per comparison"]


@st.composite
def models(draw, dims=(1, 5)):
    d = draw(gen.dims_(*dims))
    s = draw(st.lists(gen.logfl(1e-3, 1e3), min_size=d, max_size=d))
    if draw(st.booleans()):
        s = [draw(st.sampled_from([1.0, 2.0, 0.5]))] * d
    rho = draw(gen.corr_vec(d, 0.95)) if d > 1 else []
    mean = draw(st.one_of(st.none(), st.lists(gen.fl(-5, 5), min_size=d, max_size=d), gen.fl(-3, 3)))
    df = draw(st.one_of(gen.logfl(0.2, 50), gen.logfl(1, 9999), st.integers(1, 30), gen.logfl(10001, 1e9), st.sampled_from([1.0, 2.0, 4, 10000, 10000.5])))
    return {"d": d, "s": s, "rho": rho, "mean": mean, "df": df}


def cov(c):
    s = np.array(c["s"])
    m = ref.corr_from_lower(c["rho"], c["d"]) if c["d"] > 1 else np.eye(1)
    return m * s[:, None] * s[None, :]


def center(c):
    return np.zeros(c["d"]) if c["mean"] is None else np.full(c["d"], c["mean"]) if np.isscalar(c["mean"]) else np.array(c["mean"])


def args(c):
    k = cov(c)
    if c["d"] == 1 and c.get("scalar"):
        k = float(k[0, 0])
    return c["mean"], k, c["df"]


def logpdf(c, x):
    d, df, k = c["d"], float(c["df"]), cov(c)
    q = np.array([v @ np.linalg.solve(k, v) for v in (x - center(c)).reshape(-1, d)])
    if df > 1e6:
        lc = -d / 2 * math.log(2 * math.pi)
        return lc - np.linalg.slogdet(k)[1] / 2 - q / 2, q
    lc = gammaln((df + d) / 2) - gammaln(df / 2) - d / 2 * math.log(df * math.pi)
    return lc - np.linalg.slogdet(k)[1] / 2 - (df + d) / 2 * np.log1p(q / df), q


@sub("P28", st.tuples(models(), st.integers(1, 6), gen.seeds(), st.booleans(), st.sampled_from(["rows", "rows", "one", "tensor", "list", "scalar"])), 1200, 15000,
     "logpdf and pdf against the density formula, in every accepted packaging of points, location and scale")
def density(t, note):
    from copulae.stats import multivariate_t as T
    c, n, seed, sc, form = t
    d = c["d"]
    c["scalar"] = sc
    r = gen.rng(seed)
    n = 4 if form == "tensor" else 1 if form in ("one", "scalar") else n
    z = r.normal(size=(n, d)) * r.choice([0.1, 1, 3, 30])
    x = center(c) + z @ np.linalg.cholesky(cov(c)).T
    x[0] = center(c) if r.uniform() < 0.1 else x[0]
    p = x[0] if form == "one" else x.reshape(2, 2, d) if form == "tensor" else x.tolist() if form == "list" else x
    if form == "scalar":
        if d > 1:
            note.skip("scalar point of a vector distribution")
            return
        p = float(x[0, 0])
    note(form, f"d{d}", "normal limit" if c["df"] > 1e4 else "t")
    want, q = logpdf(c, x)
    m, k, df = args(c)
    before = np.array(k, copy=True)
    got = arr(T.logpdf(p, m, k, df))
    same_bits(np.array(k), before, "scale matrix")
    check(got.size == n and (form != "tensor" or got.shape == (2, 2)), f"logpdf of {n} points ({form}) has shape {got.shape}")
    tol = 1e-9 + 1e-9 * np.abs(want) + (np.abs(q) * 1e-12 * np.linalg.cond(cov(c))) + ((d + q) ** 2 / c["df"] if c["df"] > 1e4 else 0) + (1e-6 if 1e4 < c["df"] else 0)
    e = np.abs(got.ravel() - want)
    if not (e <= tol).all():
        i = int(np.argmax(e - tol))
        fail(f"logpdf at {x[i].tolist()}: got {got.ravel()[i]!r}, expected {want[i]!r}")
    close(arr(T.pdf(p, m, k, df)), np.exp(got), 1e-12, 1e-300, "pdf against exp(logpdf)")
    if c["mean"] is None or not np.any(center(c)):
        close(arr(T.logpdf(p, cov=k, df=df)), got, 1e-13, 1e-13, "default location")
    if d == 1 and c["df"] <= 1e4:
        close(got.ravel(), stats.t.logpdf(x[:, 0], df, center(c)[0], c["s"][0]), 1e-9, 1e-9, "univariate t")


@sub("P28", st.tuples(models((1, 3)), gen.seeds(), st.sampled_from(["scalar", "vector", "shape"]), st.sampled_from(["mean", "cov", "neg", "asym", "df", "dfnan", "type", "size", "dim"])), 250, 2500, "invalid parameters, sizes and types are rejected")
def rejected(t, note):
    from copulae.stats import multivariate_t as T
    c, seed, form, bad = t
    d, (m, k, df) = c["d"], args(c)
    note(bad)
    x = np.zeros(d)
    err = (ValueError, TypeError, np.linalg.LinAlgError)
    if bad == "mean":
        m = np.zeros(d + 1)
    elif bad == "neg":
        k = -k
    elif bad == "cov":
        k = np.ones((d, d + 1))
    elif bad == "asym":
        if d == 1:
            return
        k = k.copy()
        k[0, 1] += 0.5 * max(1.0, abs(k[0, 1]))
    elif bad == "df":
        df = -df if seed % 2 else 0
    elif bad == "dfnan":
        df = float("nan")
    elif bad == "type":
        raises(err, lambda: T.rvs(m, k, df, 3, type_="central"), "unknown type")
        return
    elif bad == "size":
        raises(err, lambda: T.rvs(m, k, df, 2.5), "fractional size")
        raises(err, lambda: T.rvs(m, k, df, "3"), "text as size")
        raises(err, lambda: T.rvs(m, k, None, 2), "missing degrees of freedom")
        return
    else:
        raises(err, lambda: T.logpdf(np.zeros((3, d + 1)), m, k, df), f"points of dimension {d + 1} for a {d}-dimensional distribution")
        return
    raises(err, lambda: T.logpdf(x, m, k, df), f"logpdf with bad {bad}")
    raises(err, lambda: T.pdf(x, m, k, df), f"pdf with bad {bad}")
    for ty in ("shifted", "Kshirsagar"):
        raises(err, lambda: T.rvs(m, k, df, 3, type_=ty), f"rvs with bad {bad}")


@sub("P28", st.tuples(models((1, 4)), gen.seeds(), st.sampled_from([1, 2, 7, (1,), (6,), (2, 3), [3, 2], (2, 1, 2)]), st.sampled_from(["shifted", "Kshirsagar", "SHIFTED"])), 300, 4000, "sizes, reproducibility and dependence on the seed")
def sizes(t, note):
    from copulae.stats import multivariate_t as T
    c, seed, size, ty = t
    m, k, df = args(c)
    note(str(size), ty)
    a = T.rvs(m, k, df, size, ty, seed)
    shape = (size,) if isinstance(size, int) else tuple(size)
    n = int(np.prod(shape))
    want = (*shape, c["d"]) if shape != (1,) else (c["d"],)
    check(np.size(a) == n * c["d"] and (np.shape(a) == want or np.size(a) == 1), f"rvs of size {size} in dimension {c['d']} has shape {np.shape(a)}")
    check(bool(np.isfinite(a).all()) or c["df"] < 0.5, "non-finite sample")
    same_bits(np.asarray(T.rvs(m, k, df, size, ty, seed)), np.asarray(a), "sample with the same seed")
    b = np.asarray(T.rvs(m, k, df, size, ty, seed + 1))
    check(not np.array_equal(a, b), "a different seed gives the same sample")
    np.random.seed(seed)
    check(not np.array_equal(np.asarray(T.rvs(m, k, df, size, ty)), np.asarray(T.rvs(m, k, df, size, ty))), "successive samples without seed are equal")
    ints = [int(round(v)) for v in center(c)]
    same_bits(np.asarray(T.rvs(ints, k, df, size, ty, seed)), np.asarray(T.rvs(np.array(ints, float), k, df, size, ty, seed)), "integer location")


def dkw(x, cdf, what):
    n = len(x)
    s = np.sort(x)
    f = cdf(s)
    g = np.arange(1, n + 1) / n
    d = max(np.max(g - f), np.max(f - (g - 1 / n)))
    band = math.sqrt(math.log(2 / P0) / (2 * n))
    check(d <= band, f"{what}: Kolmogorov distance {d:.4f} > {band:.4f} for n={n}")


@sub("P28", st.tuples(models((1, 4)), gen.seeds(), st.sampled_from([False, False, True]), st.booleans(), st.sampled_from([6000, (60, 100)])), 60, 700, "samples follow the distribution: radius, margins, directions, orthants, row independence; both types", shrink=False)
def samples(t, note):
    from copulae.stats import multivariate_t as T
    c, seed, ksh, unseeded, size = t
    m, k, df = args(c)
    d = c["d"]
    note("Kshirsagar" if ksh else "shifted", "normal limit" if df > 1e4 else "t", f"d{d}")
    np.random.seed(seed)
    a = T.rvs(m, k, df, size, "kshirsagar" if ksh else "shifted", None if unseeded else seed).reshape(-1, d)
    n = len(a)
    sd, mu = np.array(c["s"]), center(c)
    if not ksh:
        z = np.linalg.solve(np.linalg.cholesky(cov(c)), (a - mu).T).T
        ok = np.isfinite(z).all()
        check(bool(ok) or df < 0.5, "non-finite sample")
        q = (z ** 2).sum(1) / d
        dkw(q, lambda v: stats.f.cdf(v, d, df) if df <= 1e4 else stats.chi2.cdf(v * d, d), "squared radius")
        for j in range(d):
            dkw((a[:, j] - mu[j]) / sd[j], lambda v: stats.t.cdf(v, df), f"margin {j}")
            for i in range(j):
                for s1 in (1, -1):
                    binom_check(int(((z[:, i] > 0) & (s1 * z[:, j] > 0)).sum()), n, 0.25, f"whitened directions {i},{j}")
                    binom_check(int((np.abs(z[:, i]) > s1 * z[:, j]).sum()), n, 0.75, f"whitened directions {i},{j}")
        u = stats.t.cdf((a - mu) / sd, df)
    else:
        nc = mu / sd
        for j in range(d):
            # P(Z + nc <= x * chi) = E Phi(x * chi - nc) by quadrature over the chi quantiles
            g = (np.arange(4000) + 0.5) / 4000
            chi = np.sqrt(stats.chi2.ppf(g, df) / df) if df <= 1e4 else np.ones(1)
            for x in (-2.0, -0.5, 0.0, 0.7, 1.5, nc[j]):
                p = float(np.mean(stats.norm.cdf(x * chi - nc[j])))
                kk = int((a[:, j] / sd[j] <= x).sum())
                pv = min(stats.binom.cdf(kk, n, min(1, p + 3e-4)), stats.binom.sf(kk - 1, n, max(0, p - 3e-4)))
                check(pv > P0, f"Kshirsagar margin {j}: {kk} of {n} below {x}, expected about {n * p:.1f}")
            for i in range(j):
                rho = cov(c)[i, j] / sd[i] / sd[j]
                binom_check(int(((a[:, i] <= 0) & (a[:, j] <= 0)).sum()), n, float(mvnref.phi2(-nc[i], -nc[j], rho)), f"Kshirsagar lower orthant of columns {i},{j}")
        u = np.column_stack([(np.argsort(np.argsort(a[:, j])) + 0.5) / n for j in range(d)])
        return
    rows_independent(u, "rvs")


@sub("P28", st.tuples(models((1, 4)), gen.seeds(), st.booleans()), 200, 2500, "arguments left out: location 0, scale 1 in one dimension, and the default degrees of freedom, alike in pdf, logpdf and samples; keywords and positions agree")
def defaults(t, note):
    from copulae.stats import multivariate_t as mt
    c, seed, one = t
    r = gen.rng(seed)
    d = 1 if one else c["d"]
    note(f"d{d}")
    k = np.eye(1) if one else cov(c)
    df = float(c["df"])
    x = r.normal(size=(4, d)) * np.sqrt(np.diag(k))
    given = {} if one else {"cov": k}
    want = arr(mt.logpdf(x, np.zeros(d), k, df)).ravel()
    close(arr(mt.logpdf(x, df=df, **given)).ravel(), want, 1e-12, 1e-12, "logpdf with the location left out")
    close(arr(mt.pdf(x, df=df, **given)).ravel(), np.exp(want), 1e-11, 0, "pdf with the location left out")
    if one:
        close(arr(mt.logpdf(x, cov=None, df=df)).ravel(), want, 1e-12, 1e-12, "logpdf with cov=None")
    a = np.asarray(mt.rvs(np.zeros(d), k, df, 5, random_state=seed % 1000))
    same_bits(a, np.asarray(mt.rvs(df=df, size=5, random_state=seed % 1000, **given)), "samples with the location left out")
    same_bits(a, np.asarray(mt.rvs(mean=None, df=df, size=5, type_="shifted", random_state=seed % 1000, **given)), "samples with mean=None")
    # one default number of degrees of freedom, whichever it is: a Student density for some df
    q = arr(mt.logpdf(x, cov=k)).ravel()
    close(np.exp(q), arr(mt.pdf(x, cov=k)).ravel(), 1e-11, 0, "pdf and logpdf with the degrees of freedom left out")
    raises(ValueError, lambda: mt.rvs(np.zeros(d), k), "samples without degrees of freedom")
