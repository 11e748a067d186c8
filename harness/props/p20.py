"""P20: Gaussian mixture fitting improves on its start and returns valid parameters."""
import itertools
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gen
import ref
from core import arr, check, close, fail, raises, sub
from props.p18 import make, params, state

ASSUMPTIONS = ["EM under the 'GMM' criterion only stops on the mixture likelihood and returns its last iterate; 'GMCM' and 'Li' return the iterate of the largest copula likelihood",
               "fits that end in the documented FitException (a component lost all its points), or in which a cluster of fewer than two points has no covariance, are outside the property",
               "copula likelihoods are evaluated with the library's gmcm_log_likelihood, which P19 checks against its definition"]


def mixture(seed, n, d, m):
    r = gen.rng(seed)
    w = r.dirichlet(np.full(m, 5.0))
    k = r.choice(m, n, p=w)
    mu = r.normal(size=(m, d)) * 2.5
    A = r.normal(size=(m, d, d)) * 0.5 + np.eye(d)
    return np.array([mu[i] + A[i] @ r.normal(size=d) for i in k])


def valid(q, m, d, what):
    check(q.n_clusters == m and q.n_dim == d, f"{what}: {q.n_clusters} components of dimension {q.n_dim}, asked for {m} of {d}")
    w, mu, c = state(q)
    check(w.shape == (m,) and mu.shape == (m, d) and c.shape == (m, d, d), f"{what}: shapes {w.shape} {mu.shape} {c.shape}")
    check(np.isfinite(w).all() and np.isfinite(mu).all() and np.isfinite(c).all(), f"{what}: non-finite parameters")
    check((w >= 0).all() and abs(w.sum() - 1) < 1e-9, f"{what}: weights {w}")
    for x in c:
        check(np.allclose(x, x.T, rtol=1e-9) and np.linalg.eigvalsh(x)[0] > -1e-8 * np.abs(x).max(), f"{what}: covariance {x.tolist()}")


def update(q, p):
    """One exact EM update on quantiles q; p = (weights, means, covariances)."""
    w, mu, c = p
    m, d = mu.shape
    l = np.empty((len(q), m))
    for i in range(m):
        L = np.linalg.cholesky(c[i])
        z = np.linalg.solve(L, (q - mu[i]).T)
        l[:, i] = np.log(w[i]) - 0.5 * (z ** 2).sum(0) - np.log(np.diag(L)).sum() if w[i] > 0 else -np.inf
    k = np.exp(l - l.max(1)[:, None])
    k /= k.sum(1)[:, None]
    n = k.sum(0)
    mu2 = (k.T @ q) / n[:, None]
    c2 = np.array([((q - mu2[i]) * k[:, i:i + 1]).T @ (q - mu2[i]) / n[i] for i in range(m)])
    return n / n.sum(), mu2, c2


def conditioned(p):
    return all(np.linalg.cond(c) < 1e6 for c in p[2]) and min(p[0]) > 1e-3


@st.composite
def starts(draw, dims=(2, 3), clusters=(1, 3), n=(30, 80)):
    d, m = draw(st.integers(*dims)), draw(st.integers(*clusters))
    return {"d": d, "m": m, "n": draw(st.integers(*n)), "seed": draw(gen.seeds()), "ties": draw(st.sampled_from(["average", "min", "ordinal"]))}


def start(c):
    """(data, pseudo-observations, GMCParam) with starting values in the range of the data."""
    from copulae.mixtures.gmc import GMCParam
    x = mixture(c["seed"], c["n"], c["d"], c["m"])
    r = gen.rng(c["seed"] + 1)
    m, d = c["m"], c["d"]
    w = r.dirichlet(np.full(m, 5.0))
    mu = x[r.choice(len(x), m, replace=False)]
    S = np.cov(x.T) * 0.5 + 0.05 * np.eye(d)
    return x, ref.pobs(x, c["ties"]), GMCParam(m, d, w, mu, np.array([S * r.uniform(0.5, 2) for _ in range(m)]))


@sub("P20", st.tuples(starts(), st.integers(1, 4)), 90, 1500, "EM iterates are the exact posterior-weighted updates of weights, means and covariances at the quantiles of the previous parameters; inputs unchanged; stopping rule")
def em_updates(t, note):
    from copulae.mixtures.gmc.estimators import expectation_maximization
    from copulae.mixtures.gmc.estimators.exceptions import FitException
    from copulae.mixtures.gmc.marginals import gmm_marginal_ppf
    c, steps = t
    x, u, p0 = start(c)
    note(f"m{c['m']}", f"d{c['d']}", f"{steps} steps")
    before, u0 = state(p0), u.copy()
    prev = p0
    lls = []
    from copulae.mixtures.gmc.loglik import gmcm_log_likelihood
    iterates = [p0]
    for j in range(1, steps + 1):
        q = arr(gmm_marginal_ppf(u, prev))
        try:
            r = expectation_maximization(u, p0, j, "GMM", 0, 0)
        except FitException:
            note.skip("component died")
            return
        want = update(q, state(prev))
        if not conditioned(want) or not conditioned(state(prev)):
            note("ill-conditioned")
            break
        valid(r.best_params, c["m"], c["d"], f"EM after {j} updates")
        for a, b, n in zip(state(r.best_params), want, ("weights", "means", "covariances")):
            close(a, b, 1e-6, 1e-8 * (1 + np.abs(b).max()), f"{n} after {j} EM updates")
        check(not r.has_converged and r.nsample == c["n"] and r.method == "pem", f"summary {r.has_converged} {r.nsample} {r.method}")
        prev = r.best_params
        iterates.append(prev)
    for a, b in zip(state(p0), before):
        check(np.array_equal(a, b), "EM changed the starting parameters")
    check(np.array_equal(u, u0), "EM changed the data")
    k = len(iterates) - 1
    if k == 0:
        return
    lls = [float(gmcm_log_likelihood(u, p)) for p in iterates]
    for crit in ("GMCM", "Li", "gmcm"):
        r = expectation_maximization(u, p0, k, crit, 0, 0)
        close(float(gmcm_log_likelihood(u, r.best_params)), max(lls), 1e-8, 1e-7, f"copula likelihood of the result under {crit} against the best of the iterates {lls}")
        close(float(r.setup["Log. Likelihood"]), max(lls), 1e-8, 1e-7, f"reported log-likelihood under {crit}")
    r = expectation_maximization(u, p0, 50, "GMCM", 0, 1e9)
    check(bool(r.has_converged), "no convergence with an infinite tolerance")
    close(float(gmcm_log_likelihood(u, r.best_params)), max(lls[:2]), 1e-8, 1e-7, "result after one update")


@sub("P20", st.tuples(starts(), st.integers(2, 4), st.sampled_from(["GMCM", "GMM", "Li"]), st.floats(0.05, 0.95), st.booleans()), 60, 900,
     "EM stops at the first iteration whose change in log-likelihood, by the chosen criterion, is below the tolerance, and says whether it did")
def stopping(t, note):
    from copulae.mixtures.gmc.estimators import expectation_maximization
    from copulae.mixtures.gmc.estimators.exceptions import FitException
    from copulae.mixtures.gmc.loglik import gmcm_log_likelihood, gmm_log_likelihood
    from copulae.mixtures.gmc.marginals import gmm_marginal_ppf
    c, steps, crit, frac, low = t
    x, u, p0 = start(c)
    its, q = [p0], arr(gmm_marginal_ppf(u, p0))
    full, mix = [float(gmcm_log_likelihood(u, p0))], [float(gmm_log_likelihood(q, p0))]
    for j in range(1, steps + 1):
        try:
            p = expectation_maximization(u, p0, j, "GMM", 0, 0).best_params
        except FitException:
            note.skip("component died")
            return
        if not conditioned(state(p)):
            note.skip("ill-conditioned")
            return
        full.append(float(gmcm_log_likelihood(u, p)))
        mix.append(float(gmm_log_likelihood(q, p)))
        its.append(p)
        q = arr(gmm_marginal_ppf(u, p))
    a, b = {"GMCM": (full, full), "GMM": (mix, mix), "Li": (mix, full)}[crit]
    delta = [abs(a[j] - b[j - 1]) for j in range(1, steps + 1)]
    # a tolerance between two of the changes
    e = sorted([0.0] + delta + [2 * max(delta) + 1])
    i = min(int(frac * (len(e) - 1)), len(e) - 2)
    eps = (e[i] + e[i + 1]) / 2
    if min(abs(eps - v) for v in delta) < 1e-6 * (1 + max(map(abs, full + mix))):
        note.skip("changes too close to tell apart")
        return
    stop = next((j for j in range(1, steps + 1) if delta[j - 1] < eps), None)
    note(crit, f"stops at {stop} of {steps}")
    name = crit.lower() if low else crit
    for k in range(1, steps + 1):
        r = expectation_maximization(u, p0, k, name, 0, eps)
        done = stop is not None and stop <= k
        what = f"EM under {crit}, tolerance {eps:.6g}, changes {delta}, at most {k} iterations"
        check(bool(r.has_converged) == done, f"{what}: has_converged is {r.has_converged}")
        last = stop if done else k
        if crit == "GMM":
            for v, w, n in zip(state(r.best_params), state(its[last]), ("weights", "means", "covariances")):
                close(v, w, 1e-7, 1e-9 * (1 + np.abs(w).max()), f"{n} reported by {what}: expected those of iteration {last}")
        else:
            close(float(gmcm_log_likelihood(u, r.best_params)), max(full[:last + 1]), 1e-8, 1e-7, f"copula likelihood reported by {what}: expected the best of {full[:last + 1]}")


@sub("P20", st.tuples(gen.seeds(), st.integers(1, 3), st.sampled_from([0.999, 0.9999, 0.99999]), st.integers(1, 6)), 40, 600,
     "EM from a start so narrow that some points have zero density under every component still ends in valid parameters")
def narrow_start(t, note):
    from copulae.mixtures.gmc import GMCParam
    from copulae.mixtures.gmc.estimators import expectation_maximization
    from copulae.mixtures.gmc.estimators.exceptions import FitException
    from copulae.mixtures.gmc.loglik import gmcm_log_likelihood
    from copulae.mixtures.gmc.marginals import gmm_marginal_ppf
    from scipy import stats
    seed, m, rho, steps = t
    r = gen.rng(seed)
    n = int(r.integers(20, 60))
    z = r.normal(size=(n, 2))
    x = np.column_stack([z[:, 0], 0.9 * z[:, 0] + 0.4 * z[:, 1]])
    u = ref.pobs(x, "average")
    p = GMCParam(m, 2, np.full(m, 1 / m), r.normal(size=(m, 2)) * 0.1, np.array([[[1, rho], [rho, 1]]] * m))
    q = arr(gmm_marginal_ppf(u, p))
    dead = sum(max(stats.multivariate_normal.pdf(a, mu, c) for mu, c in zip(p.means, p.covs)) == 0 for a in q)
    note(f"m{m}", "some points without density" if dead else "all points covered")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            f = expectation_maximization(u, p, steps, "GMCM", 0)
            ll = float(gmcm_log_likelihood(u, f.best_params))
    except (FitException, np.linalg.LinAlgError):  # a component lost all its points or collapsed onto one
        note.skip("component died")
        return
    valid(f.best_params, m, 2, f"EM with {dead} of {n} points without density at the start")
    if np.isfinite(ll):
        close(float(f.setup["Log. Likelihood"]), ll, 1e-7, 1e-6, "reported log-likelihood")


@sub("P20", st.tuples(starts(n=(40, 90)), st.sampled_from(["GMCM", "Li"]), st.booleans(), st.sampled_from(["param", "vector", "none"])), 60, 900, "fit with EM: valid parameters, never worse than the start, reported alike by copula and summary, data and start unchanged")
def em_fit(t, note):
    from copulae import GaussianMixtureCopula
    from copulae.mixtures.gmc.estimators.exceptions import FitException
    from copulae.mixtures.gmc.loglik import gmcm_log_likelihood
    c, crit, frame, form = t
    x, u, p0 = start(c)
    note(crit, form, "frame" if frame else "array")
    run(c, x, u, p0, form, frame, note, "pem", criteria=crit, max_iter=12)


def run(c, x, u, p0, form, frame, note, method, **kw):
    from copulae import GaussianMixtureCopula
    from copulae.mixtures.gmc.estimators.exceptions import FitException
    from copulae.mixtures.gmc.loglik import gmcm_log_likelihood
    m, d = c["m"], c["d"]
    k = GaussianMixtureCopula(m, d)
    cols = ["b", "a", "c"][:d]
    data = pd.DataFrame(x, columns=cols) if frame else x.copy()
    x0 = None if form == "none" else p0.to_vector() if form == "vector" else p0
    v0 = None if x0 is None else np.array(p0.to_vector())
    np.random.seed(c["seed"] % 2 ** 32)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = k.fit(data, x0=x0, method=method, ties=c["ties"], verbose=c["seed"] % 3, **kw)
    except FitException:
        note.skip("component died")
        return
    check(r is k, "fit does not return the copula")
    valid(k.params, m, d, f"fit by {method}")
    s = k.summary("fit")
    for a, b, n in zip(state(k.params), state(s.best_params), ("weights", "means", "covariances")):
        close(a, b, 1e-12, 0, f"{n} in the copula and the fit summary")
    check(s.method == method and s.nsample == len(x), f"summary: method {s.method}, n {s.nsample}")
    check(np.array_equal(np.asarray(data), x), "fit changed the data")
    if v0 is not None:
        close(arr(p0.to_vector()), v0, 0, 0, "starting parameters after the fit")
        if method != "kmeans":
            a, b = float(gmcm_log_likelihood(u, p0)), float(gmcm_log_likelihood(u, k.params))
            check(not b < a - 1e-6 * (1 + abs(a)), f"{method} made the copula likelihood worse: {a} at the start, {b} at the result")
    if method == "pem":
        close(float(s.setup["Log. Likelihood"]), float(gmcm_log_likelihood(u, k.params)), 1e-7, 1e-6, "reported log-likelihood")
    if method == "sgd":
        close(-float(s.setup["Fn. Value"]), float(gmcm_log_likelihood(u, k.params)), 1e-7, 1e-6, "reported objective")
    smp = k.random(5, seed=1)
    check(isinstance(smp, pd.DataFrame) == frame and (not frame or list(smp.columns) == cols), "labels of a sample after the fit")
    txt = str(k.summary())
    check(txt.count("Component") == m, "summary does not list the components")
    k.summary()._repr_html_(), s._repr_html_(), str(s)


@sub("P20", st.tuples(starts(dims=(2, 2), clusters=(1, 2), n=(30, 60)), st.sampled_from(["nelder-mead", "nelder-mead", "bfgs", "Nelder-Mead", "slsqp", "SLSQP", "cobyla", "trust-constr", "L-BFGS-B"]), st.sampled_from(["param", "vector"]), st.booleans()), 40, 400, "fit by gradient descent: valid parameters, never worse than the start, reported alike")
def sgd_fit(t, note):
    c, opt, form, frame = t
    x, u, p0 = start(c)
    note(opt, form)
    run(c, x, u, p0, form, frame, note, "sgd", max_iter={"bfgs": 3, "trust-constr": 3, "slsqp": 4}.get(opt.lower(), 60), optim_options={"method": opt} if opt != "nelder-mead" else None)


def matches_partition(x, p, what, r=None):
    """Some partition of the rows into components has exactly these shares, means and covariances."""
    n, d = x.shape
    w, mu, c = p
    m = len(w)
    cnt = w * n
    check(np.allclose(cnt, np.rint(cnt), atol=1e-6), f"{what}: shares {w} of {n} rows")
    cnt = np.rint(cnt).astype(int)
    for lab in itertools.product(range(m), repeat=n):
        lab = np.array(lab)
        if not np.array_equal(np.bincount(lab, minlength=m), cnt):
            continue
        if all(np.allclose(x[lab == i].mean(0), mu[i], rtol=1e-9, atol=1e-9) and np.allclose(np.cov(x[lab == i].T), c[i], rtol=1e-6, atol=1e-9) for i in range(m)):
            return
    fail(f"{what}: no partition of the rows has shares {w.tolist()}, means {mu.tolist()}, covariances {c.tolist()}")


@sub("P20", st.tuples(st.integers(7, 10), st.integers(2, 3), gen.seeds(), st.booleans()), 50, 600, "k-means on few rows: the reported shares, means and covariances belong to one of all possible partitions of the raw data")
def kmeans_small(t, note):
    from copulae import GaussianMixtureCopula
    n, d, seed, frame = t
    m = 2
    r = gen.rng(seed)
    x = r.normal(size=(n, d)) * 5 + (np.arange(n) % 2 * 8)[:, None]
    k = GaussianMixtureCopula(m, d)
    np.random.seed(seed % 2 ** 32)
    try:
        k.fit(pd.DataFrame(x, columns=list("xyz")[:d]) if frame else x, method="kmeans")
    except Exception as e:
        u = ref.pobs(x)
        note.skip("a cluster of one point")
        return
    w, mu, c = state(k.params)
    if min(w) * n < 1.5:
        note.skip("a cluster of one point")
        return
    note(f"d{d}", "frame" if frame else "array")
    matches_partition(x, (w, mu, c), "k-means")


@sub("P20", st.tuples(starts(n=(40, 120), clusters=(1, 4)), st.booleans(), st.sampled_from(["none", "param"])), 60, 900, "k-means in general: shares, means and covariances recombine to the mean and covariance of the data; every requested component present")
def kmeans_moments(t, note):
    c, frame, form = t
    x, u, p0 = start(c)
    note(f"m{c['m']}", f"d{c['d']}")
    from copulae import GaussianMixtureCopula
    run(c, x, u, p0, form, frame, note, "kmeans")
    k = GaussianMixtureCopula(c["m"], c["d"])
    np.random.seed(c["seed"] % 2 ** 32)
    k.fit(x, method="kmeans")
    w, mu, cov = state(k.params)
    n = len(x)
    cnt = w * n
    check(np.allclose(cnt, np.rint(cnt), atol=1e-6) and cnt.min() > 0.5, f"shares {w} of {n} rows")
    close(w @ mu, x.mean(0), 1e-9, 1e-9, "mean recombined from the clusters")
    second = sum((cnt[i] - 1) * cov[i] + cnt[i] * np.outer(mu[i], mu[i]) for i in range(c["m"]))
    close(second, x.T @ x, 1e-6, 1e-6 * np.abs(x.T @ x).max(), "second moments recombined from the clusters")


@sub("P20", st.tuples(st.integers(10, 40), st.integers(2, 3), gen.seeds(), st.sampled_from(["array", "frame", "list"])), 60, 900, "k-means with two clearly separated clusters of equal size finds about them")
def kmeans_separated(t, note):
    from copulae import GaussianMixtureCopula
    n, d, seed, form = t
    r = gen.rng(seed)
    note(form)
    a, b = r.uniform(0, 1, (n, d)), r.uniform(3, 4, (n, d)) * np.arange(1, d + 1)
    o = r.permutation(2 * n)
    x = np.vstack([a, b])[o]
    k = GaussianMixtureCopula(2, d)
    np.random.seed(seed % 2 ** 32)
    k.fit(pd.DataFrame(x, columns=list("xyz")[:d]) if form == "frame" else x.tolist() if form == "list" else x, method="kmeans")
    w, mu, c = state(k.params)
    s = np.argsort(mu[:, 0])
    # points in the middle of the rank range may fall to either side
    close(w, np.array([0.5, 0.5]), 0, 0.15, "shares of two equal clusters")
    close(mu[s], np.array([a.mean(0), b.mean(0)]), 0, 0.8 * d, "cluster means")


@sub("P20", st.tuples(starts(n=(20, 30)), st.sampled_from(["method", "criteria", "dims", "x0 size", "x0 clusters"])), 40, 400, "invalid methods, criteria, data and starting values are rejected and leave the copula as it was")
def rejected(t, note):
    from copulae import GaussianMixtureCopula
    c, what = t
    x, u, p0 = start(c)
    note(what)
    k = GaussianMixtureCopula(c["m"], c["d"], p0)
    np.random.seed(0)
    before = state(k.params)
    a = {"method": lambda: k.fit(x, method="newton"), "criteria": lambda: k.fit(x, p0, "pem", criteria="BIC", verbose=0), "dims": lambda: k.fit(np.column_stack([x, x[:, 0]]), method="kmeans"),
         "x0 size": lambda: k.fit(x, p0.to_vector()[:-1]), "x0 clusters": lambda: k.fit(x, make({"m": c["m"] + 1, "d": c["d"], "prob": np.full(c["m"] + 1, 1 / (c["m"] + 1)), "means": np.zeros((c["m"] + 1, c["d"])), "covs": np.tile(np.eye(c["d"]), (c["m"] + 1, 1, 1))}))}[what]
    raises(Exception, a, f"fit with a wrong {what}")
    for p, q in zip(state(k.params), before):
        check(np.array_equal(p, q), f"a rejected fit ({what}) changed the parameters")
