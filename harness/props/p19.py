"""P19: Gaussian mixture marginals, likelihoods, densities and samples agree."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.special import logsumexp, ndtr

import gen
import mvnref
from core import arr, check, close, raises, sub
from props.p18 import make, params
from props.stat import binom_check, rows_independent, uniform_margins

ASSUMPTIONS = ["the marginal distribution function is documented to use Abramowitz and Stegun 7.1.25 (error below 1.3e-5)",
               "the quantile function interpolates on the documented grid: F(F^-1(q)) within 5e-5 plus the grid error of each component",
               "three and more dimensional normal probabilities are quasi-Monte Carlo: 1e-3",
               "sample tests: exact binomial tails and DKW bands at 1e-11"]


def mcdf(x, p):
    """Weighted normal distribution functions, coordinate by coordinate."""
    x = np.asarray(x, float)
    w, mu, cov = np.array(p["prob"]), np.array(p["means"]), np.array(p["covs"])
    return sum(w[i] * ndtr((x - mu[i]) / np.sqrt(np.diag(cov[i]))) for i in range(p["m"]))


def mlogpdf_marg(x, p):
    w, mu, cov = np.array(p["prob"]), np.array(p["means"]), np.array(p["covs"])
    l = np.stack([-0.5 * (x - mu[i]) ** 2 / np.diag(cov[i]) - 0.5 * np.log(2 * np.pi * np.diag(cov[i])) for i in range(p["m"])])
    return logsumexp(l, axis=0, b=w[:, None, None])


def mlogpdf(x, p):
    w, mu, cov = np.array(p["prob"]), np.array(p["means"]), np.array(p["covs"])
    l = []
    for i in range(p["m"]):
        L = np.linalg.cholesky(cov[i])
        z = np.linalg.solve(L, (x - mu[i]).T)
        l.append(-0.5 * (z ** 2).sum(0) - np.log(np.diag(L)).sum() - p["d"] / 2 * np.log(2 * np.pi))
    return logsumexp(np.array(l), axis=0, b=w[:, None])


def mixcdf(x, p):
    """d = 2 exactly (Drezner-Genz quadrature of the bivariate normal), otherwise None."""
    w, mu, cov = np.array(p["prob"]), np.array(p["means"]), np.array(p["covs"])
    out = np.zeros(len(x))
    for i in range(p["m"]):
        s = np.sqrt(np.diag(cov[i]))
        z = (x - mu[i]) / s
        r = cov[i][0, 1] / (s[0] * s[1])
        out += w[i] * np.array([mvnref.phi2(a, b, r) for a, b in z])
    return out


def sample(p, r, n):
    """Points in the bulk of the mixture."""
    w, mu, cov = np.array(p["prob"]), np.array(p["means"]), np.array(p["covs"])
    k = r.choice(p["m"], n, p=w / w.sum())
    return np.array([mu[i] + np.linalg.cholesky(cov[i]) @ r.normal(size=p["d"]) for i in k])


@sub("P19", st.tuples(params(), gen.seeds()), 700, 10000, "marginal cdf against normal cdfs; marginal ppf inverts it to the grid's accuracy, is monotone, and reaches -inf, inf at 0, 1")
def marginals(t, note):
    from copulae.mixtures.gmc.marginals import gmm_marginal_cdf, gmm_marginal_ppf
    p, seed = t
    r = gen.rng(seed)
    note(f"m{p['m']}", f"d{p['d']}")
    q = make(p)
    x = sample(p, r, 12)
    x[0] += 50 * np.sqrt(np.diag(p["covs"][0]))
    keep = x.copy()
    close(arr(gmm_marginal_cdf(x, q)), mcdf(x, p), 0, 1.3e-5, "marginal cdf")
    close(arr(gmm_marginal_cdf(x[1:2], q)), mcdf(x[1:2], p), 0, 1.3e-5, "marginal cdf of one row")
    check(np.array_equal(x, keep), "marginal cdf changed its argument")
    u = r.uniform(size=(30, p["d"]))
    u[:3] = 10.0 ** r.uniform(-6, -2, (3, p["d"]))
    u[3:6] = 1 - 10.0 ** r.uniform(-6, -2, (3, p["d"]))
    u = np.sort(u, axis=0)
    keep = u.copy()
    z = arr(gmm_marginal_ppf(u, q))
    check(np.array_equal(u, keep), "marginal ppf changed its argument")
    check(z.shape == u.shape and np.isfinite(z).all(), f"marginal ppf gives {z.tolist()}")
    tol = 5e-5 + sum(min(w, 1e-5 / w) for w in p["prob"] if w > 0)
    close(mcdf(z, p), u, 0, tol, "F(F^-1(u))")
    check((np.diff(z, axis=0) >= -1e-9 * (1 + np.abs(z[1:]))).all(), "marginal ppf decreases")
    e = np.full((2, p["d"]), 0.5)
    e[0, 0], e[1, -1] = 0.0, 1.0
    z = arr(gmm_marginal_ppf(e, q))
    check(z[0, 0] == -np.inf and z[1, -1] == np.inf, f"ppf at 0 and 1: {z[0, 0]}, {z[1, -1]}")
    fine = arr(gmm_marginal_ppf(u, q, resolution=20000))
    close(mcdf(fine, p), u, 0, 5e-5 + sum(min(w, 1e-7 / w) for w in p["prob"] if w > 0), "F(F^-1(u)) at higher resolution")
    for b in (-0.1, 1.1):
        bad = u.copy()
        bad[2, 0] = b
        raises(ValueError, lambda: gmm_marginal_ppf(bad, q, validate=True), f"probability {b} with validate")


@sub("P19", st.tuples(params(), gen.seeds()), 500, 8000, "mixture, marginal and copula log-likelihoods against their definitions")
def likelihoods(t, note):
    from copulae.mixtures.gmc.loglik import gmcm_log_likelihood, gmm_log_likelihood, gmm_log_likelihood_marginals
    from copulae.mixtures.gmc.marginals import gmm_marginal_ppf
    p, seed = t
    r = gen.rng(seed)
    note(f"m{p['m']}", f"d{p['d']}")
    q = make(p)
    x = sample(p, r, 25)
    w = mlogpdf(x, p).sum()
    close(arr(gmm_log_likelihood(x, q)), w, 1e-8, 1e-7, "mixture log-likelihood")
    m = mlogpdf_marg(x, p).sum(0)
    close(arr(gmm_log_likelihood_marginals(x, q)), m, 1e-8, 1e-7, "marginal log-likelihoods")
    u = r.uniform(0.01, 0.99, (25, p["d"]))
    z = arr(gmm_marginal_ppf(u, q))
    want = (mlogpdf(z, p) - mlogpdf_marg(z, p).sum(1)).sum()
    if np.isfinite(want) and want > -500:
        close(arr(gmcm_log_likelihood(u, q)), want, 1e-6, 1e-6 * (1 + abs(m).sum()), "copula log-likelihood")
    else:
        note("extreme")


@sub("P19", st.tuples(params(dims=(2, 3)), gen.seeds()), 300, 5000, "cdf and pdf of the copula object (plain and log, one row, list, DataFrame) against the weighted component functions")
def densities(t, note):
    from copulae import GaussianMixtureCopula
    p, seed = t
    r = gen.rng(seed)
    d = p["d"]
    note(f"m{p['m']}", f"d{d}")
    k = GaussianMixtureCopula(p["m"], d, make(p))
    x = sample(p, r, 6)
    x[0] += 6 * np.sqrt(np.diag(p["covs"][0])) * r.choice([-1, 1], d)
    keep = x.copy()
    w = mlogpdf(x, p)
    close(arr(k.pdf(x, log=True)), w, 1e-9, 1e-7, "log pdf")
    close(arr(k.pdf(x)), np.exp(w), 1e-7, 1e-290, "pdf")
    close(arr(k.pdf(x[1].tolist())), np.exp(w[1]), 1e-7, 1e-290, "pdf of one row")
    close(arr(k.pdf(pd.DataFrame(x))), np.exp(w), 1e-7, 1e-290, "pdf of a DataFrame")
    with np.errstate(all="ignore"):
        c = arr(k.cdf(x))
        check((c >= 0).all() and (c <= 1).all(), f"cdf {c.tolist()}")
        tol = 1e-9 if d == 2 else 1e-3
        if d == 2:
            close(c, mixcdf(x, p), 1e-8, 1e-9, "cdf")
        close(np.exp(arr(k.cdf(x, log=True))), c, 1e-6 if d == 2 else 0, tol, "exp of the log cdf")
        close(arr(k.cdf(x[2].tolist())), c[2], 0, tol, "cdf of one row")
        # margins: all other coordinates far above
        far = np.max(np.array(p["means"]), 0) + 40 * np.sqrt(np.max([np.diag(a) for a in p["covs"]], 0))
        j = int(r.integers(d))
        y = np.tile(far, (3, 1))
        y[:, j] = x[:3, j]
        close(arr(k.cdf(y)), mcdf(y, p)[:, j], 0, 1e-7 if d == 2 else 1e-3, "margin of the cdf")
    check(np.array_equal(x, keep), "the points changed")


@sub("P19", st.tuples(params(easy=True, dims=(2, 3)), gen.seeds()), 24, 300, "samples: unit hypercube, uniform margins, joint probabilities of the mixture at quantile points, independent rows, reproducible", shrink=False)
def samples(t, note):
    from copulae import GaussianMixtureCopula
    p, seed = t
    r = gen.rng(seed)
    d = p["d"]
    note(f"m{p['m']}", f"d{d}")
    n = 6000
    k = GaussianMixtureCopula(p["m"], d, make(p))
    u = arr(k.random(n, seed=seed))
    check(u.shape == (n, d), f"sample shape {u.shape}")
    uniform_margins(u, "sample")
    rows_independent(u, "sample")
    check(np.array_equal(arr(k.random(n, seed=seed)), u), "the same seed gave another sample")
    check(not np.array_equal(arr(k.random(n, seed=seed + 1)), u), "another seed gave the same sample")
    for i in range(d):
        for j in range(i):
            q2 = {"m": p["m"], "d": 2, "prob": p["prob"], "means": np.array(p["means"])[:, [i, j]], "covs": np.array(p["covs"])[:, [i, j]][:, :, [i, j]]}
            x = sample(q2, r, 5)
            f = mcdf(x, q2)
            for a, b in zip(f, mixcdf(x, q2)):
                # the margins of the sample are accurate to 1.3e-5: widen the event both ways
                lo = int(((u[:, i] <= a[0] - 2e-5) & (u[:, j] <= a[1] - 2e-5)).sum())
                hi = int(((u[:, i] <= a[0] + 2e-5) & (u[:, j] <= a[1] + 2e-5)).sum())
                b = float(np.clip(b, 0, 1))
                if not lo <= n * b <= hi:
                    binom_check(lo if lo > n * b else hi, n, b, f"columns {i},{j} below {a.tolist()}")


@sub("P19", st.tuples(params(), gen.seeds(), st.integers(1, 6)), 200, 3000, "small samples with any number of draws per component have the right shape")
def small(t, note):
    from copulae import GaussianMixtureCopula
    p, seed, n = t
    note(f"n{n}")
    k = GaussianMixtureCopula(p["m"], p["d"], make(p))
    u = arr(k.random(n, seed=seed))
    check(u.shape == (n, p["d"]) and (u >= 0).all() and (u <= 1).all(), f"sample of {n}: {u.tolist()}")
    check(np.array_equal(u, arr(k.random(n, seed=seed))), "the same seed gave another sample")


@sub("P19", st.tuples(params(easy=True, dims=(2, 3)), gen.seeds(), st.integers(1, 4)), 12, 150, "many samples of one to four points, pooled: uniform margins, no repeated points, joint probabilities at the medians", shrink=False)
def pooled(t, note):
    from copulae import GaussianMixtureCopula
    p, seed, n = t
    k = GaussianMixtureCopula(p["m"], p["d"], make(p))
    np.random.seed(seed % 2 ** 31)
    N = 700 // n
    u = np.vstack([arr(k.random(n)).reshape(n, p["d"]) for _ in range(N)])
    note(f"n{n}", f"m{p['m']}")
    uniform_margins(u, f"pooled samples of {n}")
    for j in range(p["d"]):
        v = len(np.unique(u[:, j]))
        check(v >= 0.9 * len(u), f"column {j} of {N} samples of {n} has only {v} distinct values")
    q2 = {"m": p["m"], "d": 2, "prob": p["prob"], "means": np.array(p["means"])[:, [0, 1]], "covs": np.array(p["covs"])[:, [0, 1]][:, :, [0, 1]]}
    x = sample(q2, gen.rng(seed), 4)
    for a, b in zip(mcdf(x, q2), mixcdf(x, q2)):
        binom_check(int(((u[:, 0] <= a[0]) & (u[:, 1] <= a[1])).sum()), len(u), float(np.clip(b, 0, 1)), f"pooled samples below {a.tolist()}")
