"""P34: copulas of different classes, dimensions or parametrizations that describe the same distribution agree."""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy import stats as ss

import gen
import ref
from core import arr, check, close, fail, same_bits, sub
from props import p14, p18, stat
from props.util import make

ASSUMPTIONS = ["Gaussian distribution functions above two dimensions are randomised integrals: compared at 2e-3",
               "the Student copula has no distribution function: its density and samples are compared",
               "Clayton points satisfy |theta*log(u)| < 600; the empirical copula of a sample is compared with the copula at sup-distance bounds of false-alarm probability 1e-11"]

FAMS = ("clayton", "frank", "gumbel")


def quiet(f, *a, **k):
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def grid(r, n, d, faces=True):
    u = r.uniform(0.02, 0.98, (n, d))
    if faces:
        u[r.uniform(size=u.shape) < 0.1] = 1.0
        u[0, int(r.integers(d))] = 0.0
    return u


# ---------------------------------------------------------------- independence
@sub("P34", st.tuples(st.sampled_from(["clayton", "frank", "gumbel", "gaussian", "gmc", "student"]), st.integers(2, 6), gen.seeds()), 400, 5000,
     "every family at its independence parameter against IndepCopula: cdf, density, logarithms, likelihood, tau; uniform independent samples")
def independence(t, note):
    import copulae as cp
    from copulae.mixtures import GaussianMixtureCopula

    fam, d, seed = t
    note(fam, f"d{d}")
    r = gen.rng(seed)
    ind = cp.IndepCopula(d)
    u = grid(r, 8, d)
    v = grid(r, 8, d, False)
    if fam in FAMS:
        k = make({"fam": fam, "dim": d, "theta": 1.0 if fam == "gumbel" else 0.0})
    elif fam == "gaussian":
        k = cp.GaussianCopula(d)
    elif fam == "student":
        k = cp.StudentCopula(d, 1e9)
    else:
        d = min(d, 3)
        ind = cp.IndepCopula(d)
        mu, sd = r.normal(size=d), np.exp(r.normal(size=d))
        k = GaussianMixtureCopula(1, d, p18.make({"m": 1, "d": d, "prob": [1.0], "means": [mu.tolist()], "covs": [np.diag(sd ** 2).tolist()]}))
        u, v = u[:, :d], v[:, :d]
        x = mu + sd * ss.norm.ppf(v)
        close(arr(quiet(k.cdf, x)), arr(ind.cdf(v)), 0, 2e-3 if d > 2 else 1e-6, f"cdf of one uncorrelated component against independence, dim {d}")
        z = arr(k.random(4000, seed=seed % 10 ** 6))
        stat.uniform_margins(z, f"sample of one uncorrelated component, dim {d}")
        pts = stat.test_points(r, d)
        stat.orthants(z, pts, [np.prod(p) for p in pts], f"sample of one uncorrelated component, dim {d}")
        return
    what = f"{fam} dim {d} at independence"
    if fam != "student":
        tol = 2e-3 if fam == "gaussian" and d > 2 else 1e-9
        close(arr(quiet(k.cdf, u)), arr(ind.cdf(u)), 0, tol, f"{what}: cdf")
        close(arr(quiet(k.cdf, v, log=True)), arr(ind.cdf(v, log=True)), 0, tol * 1e2 if tol < 1e-3 else 1, f"{what}: log cdf")
        check((np.abs(arr(quiet(lambda: k.tau))) < 1e-9).all(), f"{what}: tau {k.tau}")
    tol = 1e-6 if fam == "student" else 1e-9
    close(arr(quiet(k.pdf, v)), arr(ind.pdf(v)), tol, tol, f"{what}: density")
    close(arr(quiet(k.pdf, v, log=True)), arr(ind.pdf(v, log=True)), tol, tol, f"{what}: log density")
    close(float(quiet(k.log_lik, v, to_pobs=False)), float(ind.log_lik(v, to_pobs=False)), tol * 10, tol * 10, f"{what}: likelihood")
    z = arr(k.random(3000, seed=seed % 10 ** 6))
    stat.uniform_margins(z, what)
    pts = stat.test_points(r, d)
    stat.orthants(z, pts, [np.prod(p) for p in pts], what)


# ---------------------------------------------------------------- margins
@st.composite
def with_subset(draw):
    fam = draw(st.sampled_from(["clayton", "frank", "gumbel", "gaussian", "indep"]))
    d = draw(st.integers(3, 4 if fam == "gaussian" else 7))
    if fam == "gaussian":
        c = {"fam": fam, "dim": d, "rho": draw(gen.corr_vec(d, 0.9))}
    elif fam == "indep":
        c = {"fam": fam, "dim": d, "theta": 0.0}
    else:
        c = draw(gen.arch((fam,), (d, d), neg=False))
    keep = draw(st.permutations(range(d)))[:draw(st.integers(1, d - 1))]
    return {"c": c, "keep": list(keep), "seed": draw(gen.seeds())}


def lower_dim(c, keep):
    if c["fam"] == "gaussian":
        m = ref.corr_from_lower(c["rho"], c["dim"])
        return {"fam": "gaussian", "dim": len(keep), "rho": list(ref.lower(m[np.ix_(keep, keep)]))}
    return dict(c, dim=len(keep))


@sub("P34", with_subset(), 700, 9000,
     "coordinates left at 1 drop out: the cdf equals that of the lower-dimensional copula of the remaining coordinates in their order (one coordinate: the coordinate itself)")
def margins(t, note):
    c, keep = t["c"], t["keep"]
    d = c["dim"]
    note(c["fam"], f"{len(keep)} of {d}")
    r = gen.rng(t["seed"])
    v = r.uniform(0.05, 0.98, (5, len(keep)))
    u = np.ones((5, d))
    u[:, keep] = v
    got = arr(quiet(make(c).cdf, u))
    want = v[:, 0] if len(keep) == 1 else arr(quiet(make(lower_dim(c, keep)).cdf, v))
    close(got, want, 0, 2e-3 if c["fam"] == "gaussian" else 1e-8, f"{c['fam']} dim {d} theta {c.get('theta', c.get('rho'))}: cdf with coordinates {keep} and ones")


@sub("P34", st.tuples(with_subset(), st.integers(0, 10 ** 6)), 60, 700,
     "samples: the chosen columns of a sample of 20000 rows are distributed as the lower-dimensional copula", shrink=False)
def sample_margins(t, note):
    t, seed = t
    c, keep = t["c"], t["keep"]
    note(c["fam"], f"{len(keep)} of {c['dim']}")
    if len(keep) == 1:
        keep = [keep[0], (keep[0] + 1) % c["dim"]]
    r = gen.rng(t["seed"])
    z = arr(make(c).random(20000, seed=seed))[:, keep]
    k = make(lower_dim(c, keep))
    pts = np.array(stat.test_points(r, len(keep)))
    want = arr(quiet(k.cdf, pts))
    if c["fam"] == "gaussian" and len(keep) > 2:
        n = len(z)
        for p, q in zip(pts, want):
            f = (z <= p).all(1).mean()
            check(abs(f - q) < 2e-3 + 7 * np.sqrt(0.25 / n), f"columns {keep} of a gaussian sample: {f} below {p}, expected {q}")
    else:
        stat.orthants(z, pts, want, f"columns {keep} of a {c['fam']} dim {c['dim']} sample")


# ---------------------------------------------------------------- one distribution, several classes
@st.composite
def inner(draw):
    fam = draw(st.sampled_from(["clayton", "frank", "gumbel", "gaussian", "student", "indep"]))
    d = draw(st.integers(2, 4))
    if fam in ("gaussian", "student"):
        c = {"fam": fam, "dim": d, "rho": draw(gen.corr_vec(d, 0.9))}
        if fam == "student":
            c["df"] = draw(gen.logfl(1.0, 40.0))
    elif fam == "indep":
        c = {"fam": fam, "dim": d, "theta": 0.0}
    else:
        c = draw(gen.arch((fam,), (d, d), {"clayton": 8, "frank": 20, "gumbel": 6}))
    return c


@sub("P34", st.tuples(inner(), gen.seeds()), 500, 6000,
     "a marginal copula with uniform margins is its inner copula: cdf, density, likelihood and sample for a seed; with margins scaled to [a, a+s] the density gains the factor s**-d")
def uniform_marginals(t, note):
    import copulae as cp

    c, seed = t
    d = c["dim"]
    note(c["fam"], f"d{d}")
    r = gen.rng(seed)
    k = make(c)
    m = cp.MarginalCopula(make(c), ["uniform"] * d if seed % 2 else {"type": "uniform"})
    a, s = float(r.uniform(-2, 2)), float(r.uniform(0.5, 3))
    w = cp.MarginalCopula(make(c), [{"type": "uniform", "parameters": {"loc": a, "scale": s}}] * d)
    u = grid(r, 5, d, False)
    what = f"{c['fam']} dim {d} with uniform margins"
    if c["fam"] != "student":
        tol = 2e-3 if c["fam"] == "gaussian" and d > 2 else 1e-9
        close(arr(quiet(m.cdf, u)), arr(quiet(k.cdf, u)), 0, tol, f"{what}: cdf")
        close(arr(quiet(w.cdf, a + s * u)), arr(quiet(k.cdf, u)), 0, tol, f"{what} on [{a}, {a + s}]: cdf")
    want = arr(quiet(k.pdf, u, log=True))
    close(arr(quiet(m.pdf, u, log=True)), want, 1e-9, 1e-9, f"{what}: log density")
    close(arr(quiet(m.pdf, u)), np.exp(want), 1e-8, 1e-300, f"{what}: density")
    close(arr(quiet(w.pdf, a + s * u, log=True)), want - d * np.log(s), 1e-6, 1e-6, f"{what} on [{a}, {a + s}]: log density")
    close(float(quiet(m.log_lik, u, to_pobs=False)), float(quiet(k.log_lik, u, to_pobs=False)), 1e-9, 1e-9, f"{what}: likelihood")
    z = arr(k.random(7, seed=seed % 10 ** 6))
    close(arr(m.random(7, seed=seed % 10 ** 6)), z, 0, 1e-12, f"{what}: sample")
    close(arr(w.random(7, seed=seed % 10 ** 6)), a + s * z, 0, 1e-9, f"{what} on [{a}, {a + s}]: sample")


@st.composite
def one_component(draw):
    d = draw(st.integers(2, 3))
    return {"rho": draw(gen.corr_vec(d, 0.85)), "d": d, "mu": draw(st.lists(gen.fl(-3, 3), min_size=d, max_size=d)), "sd": draw(st.lists(gen.logfl(0.2, 5), min_size=d, max_size=d)), "seed": draw(gen.seeds())}


@sub("P34", one_component(), 250, 3000,
     "a Gaussian mixture with one component, or with equal components under any weights, is the Gaussian copula of its correlation: cdf and density at transformed points, copula likelihood, joint samples")
def one_gaussian(c, note):
    from copulae.mixtures import GaussianMixtureCopula

    d, r = c["d"], gen.rng(c["seed"])
    mu, sd = np.array(c["mu"]), np.array(c["sd"])
    R = ref.corr_from_lower(c["rho"], d)
    cov = R * np.outer(sd, sd)
    m = 1 + c["seed"] % 3
    note(f"d{d}", f"{m} equal components")
    prob = r.dirichlet(np.full(m, 3.0))
    prob = prob / prob.sum()
    g = GaussianMixtureCopula(m, d, p18.make({"m": m, "d": d, "prob": prob.tolist(), "means": [mu.tolist()] * m, "covs": [cov.tolist()] * m}))
    k = make({"fam": "gaussian", "dim": d, "rho": c["rho"]})
    u = grid(r, 6, d, False)
    z = ss.norm.ppf(u)
    x = mu + sd * z
    what = f"{m} equal components of dim {d}"
    close(arr(quiet(g.cdf, x)), arr(quiet(k.cdf, u)), 0, 2e-3 if d > 2 else 1e-6, f"{what}: cdf")
    want = arr(quiet(k.pdf, u, log=True)) + ss.norm.logpdf(z).sum(1) - np.log(sd).sum()
    close(arr(quiet(g.pdf, x, log=True)), want, 1e-7, 1e-7, f"{what}: log density at x")
    n = 6000
    a = arr(g.random(n, seed=c["seed"] % 10 ** 6))
    stat.uniform_margins(a, what)
    if d == 2:
        pts = np.array(stat.test_points(r, d))
        stat.orthants(a, pts, arr(k.cdf(pts)), f"sample of {what}")


@sub("P34", st.tuples(gen.dim_corr((2, 5), 0.9), gen.logfl(1e6, 1e12), gen.seeds()), 250, 3000,
     "a Student copula, and the multivariate Student distribution, with huge degrees of freedom have the Gaussian density, tau and tail indices")
def gaussian_limit(t, note):
    from copulae.stats import multivariate_t

    c, df, seed = t
    d, rho = c
    note(f"d{d}", f"df 1e{int(np.log10(df))}")
    r = gen.rng(seed)
    k = make({"fam": "student", "dim": d, "df": df, "rho": rho})
    g = make({"fam": "gaussian", "dim": d, "rho": rho})
    u = grid(r, 6, d, False)
    R = ref.corr_from_lower(rho, d)
    if np.linalg.eigvalsh(R)[0] < 1e-3:
        return
    z = ss.norm.ppf(u)
    scale = 1 + np.abs(arr(quiet(g.pdf, u, log=True))) + (z @ np.linalg.inv(R) * z).sum(1) ** 2
    err = np.abs(arr(quiet(k.pdf, u, log=True)) - arr(quiet(g.pdf, u, log=True)))
    check((err <= scale * (5 / df + 1e-6)).all(), f"Student copula dim {d}, df {df:.4g}: log density off the Gaussian one by {err.max():.3g}")
    close(np.asarray(k.tau, float), np.asarray(g.tau, float), 1e-12, 1e-12, "tau of the Student and Gaussian copula")
    close(arr(quiet(multivariate_t.logpdf, z, np.zeros(d), R, df)), arr(ss.multivariate_normal(np.zeros(d), R).logpdf(z)), 1e-5 + 50 / df, 1e-5 + 50 / df * scale.max(), "multivariate t and normal log density")


@sub("P34", st.tuples(gen.dim_corr((2, 5), 0.9), gen.logfl(0.3, 60.0), gen.seeds()), 300, 4000,
     "the Student copula's density is the multivariate Student density of the same package over the margins' densities, and the normal one likewise")
def t_of_package(t, note):
    from copulae.stats import multivariate_t

    (d, rho), df, seed = t
    note(f"d{d}")
    r = gen.rng(seed)
    R = ref.corr_from_lower(rho, d)
    if np.linalg.eigvalsh(R)[0] < 1e-4:
        return
    k = make({"fam": "student", "dim": d, "df": df, "rho": rho})
    u = grid(r, 5, d, False)
    z = ss.t.ppf(u, df)
    want = arr(quiet(multivariate_t.logpdf, z, np.zeros(d), R, df)) - ss.t.logpdf(z, df).sum(1)
    close(arr(quiet(k.pdf, u, log=True)), want, 1e-6, 1e-6, f"Student copula dim {d}, df {df:.4g}: log density against multivariate_t")


# ---------------------------------------------------------------- samples, empirical copulas and rank correlations
@sub("P34", st.tuples(inner(), gen.seeds(), st.sampled_from(["none", "beta", "checkerboard"])), 70, 800,
     "the empirical copula of a sample of 3000 rows is close to the copula everywhere, its rank correlations close to tau, and emp_dist_func on pseudo-observations is its cdf", shrink=False)
def empirical_of_sample(t, note):
    import copulae as cp
    from copulae.empirical.distribution import emp_dist_func
    from copulae.stats import kendall_tau

    c, seed, smooth = t
    d = c["dim"]
    note(c["fam"], smooth)
    n = 3000
    r = gen.rng(seed)
    k = make(c)
    z = np.asarray(k.random(n, seed=seed % 10 ** 6), float)
    e = cp.EmpiricalCopula(z, smooth)
    u = grid(r, 12, d, False)
    got = arr(quiet(e.cdf, u))
    close(arr(quiet(emp_dist_func, u, cp.pseudo_obs(z), smooth)), got, 0, 1e-12, f"emp_dist_func({smooth}) on pseudo-observations")
    what = f"{c['fam']} dim {d} {c.get('theta', c.get('rho'))}"
    # marginal ranks move each coordinate by at most the DKW band, so the joint frequency moves by at most d bands more
    band = np.sqrt(np.log(2 / stat.P0) / (2 * n))
    smoothing = {"none": 0, "checkerboard": d / n, "beta": d * 4 / np.sqrt(n)}[smooth]
    if c["fam"] != "student":
        want = arr(quiet(k.cdf, u))
        dev = np.abs(got - want).max()
        check(dev <= band * (1 + d) + smoothing + 2e-3, f"{what}: the empirical copula ({smooth}) of a sample is {dev:.4f} off the copula")
    pairs = [(i, j) for j in range(d) for i in range(j + 1, d)]
    tau = dict(zip(pairs, np.broadcast_to(arr(k.tau) if c["fam"] != "indep" else np.zeros(1), (len(pairs),))))
    s = np.asarray(kendall_tau(z), float)
    for i in range(d):
        for j in range(i):
            want = tau[i, j]
            # U-statistic with kernel in [-1, 1]: Hoeffding with n/2 independent pairs
            lim = 2 * np.sqrt(np.log(2 / stat.P0) / (2 * (n // 2)))
            check(abs(s[i, j] - want) <= lim, f"{what}: sample tau of columns {i},{j} is {s[i, j]:.4f}, tau is {want:.4f}")
