import copy

from hypothesis import strategies as st

import gen
import numpy as np
import pandas as pd
import ref
from core import arr, check, close, fail, same_bits, sub
from props.util import make

ASSUMPTIONS = ["'materially larger' means more than 0.05 log-likelihood units within steps of up to 10% (0.05 for correlations)",
               "the likelihood is evaluated through the copula's own density on independently computed pseudo-observations (the density itself is P02/P06)",
               "fits the code itself reports as not converged are outside the property; on regular samples (n >= 100, drawn from the family) a fit must converge"]

FAMS = ["gaussian", "student", "clayton", "frank", "gumbel"]


@st.composite
def model(draw, fams=FAMS, dims=(2, 4)):
    f = draw(st.sampled_from(fams))
    if f in ("gaussian", "student"):
        d, r = draw(gen.dim_corr(dims, 0.85))
        return {"fam": f, "dim": d, "rho": r, "df": draw(gen.logfl(1.5, 15.0))}
    return draw(gen.arch((f,), dims, max_theta={"clayton": 6.0, "frank": 15.0, "gumbel": 5.0}, strong=False, indep_ok=False))


@st.composite
def cases(draw, fams=FAMS, dims=(2, 4), sizes=(20, 250)):
    c = draw(model(fams, dims))
    c["n"] = draw(st.integers(*sizes))
    c["seed"] = draw(gen.seeds())
    c["shape"] = draw(st.sampled_from(["pobs", "raw", "raw", "ties", "frame"]))
    c["ties"] = draw(st.sampled_from(["average", "average", "min", "max", "ordinal", "dense"]))
    c["scale"] = draw(st.sampled_from([1.0, 1.0, 1.0, 10.0, 0.5]))
    c["x0"] = draw(st.sampled_from([None, None, None, "near", "far"]))
    return c


def dataset(c):
    """(data passed to fit, to_pobs, pseudo-observations by own ranks)."""
    u = reference_sample(c)
    if c["shape"] == "pobs":
        return u, False, u
    x = np.tan(np.pi * (u - 0.5) * 0.97) * np.arange(1, u.shape[1] + 1) + 3
    if c["shape"] == "ties":
        x = np.round(u * 12)
    p = ref.pobs(x, c["ties"])
    if c["shape"] == "frame":
        x = pd.DataFrame(x, columns=[f"c{i}" for i in range(x.shape[1])], index=np.arange(len(x))[::-1])
    return x, True, p


def reference_sample(c):
    """A sample of the model made without the code under test."""
    r = gen.rng(c["seed"])
    n, d = c["n"], c["dim"]
    from scipy import special
    if c["fam"] in ("gaussian", "student"):
        z = r.normal(size=(n, d)) @ np.linalg.cholesky(ref.corr_from_lower(c["rho"], d)).T
        if c["fam"] == "gaussian":
            u = special.ndtr(z)
        else:
            u = special.stdtr(c["df"], z / np.sqrt(r.chisquare(c["df"], size=(n, 1)) / c["df"]))
    else:
        u = arch_sample(c["fam"], c["theta"], n, d, r)
    return np.clip(u, 1e-6, 1 - 1e-6)


def arch_sample(fam, t, n, d, r):
    e = r.exponential(size=(n, d))
    if (fam == "gumbel" and t == 1) or (fam != "gumbel" and t == 0):
        return np.exp(-e)
    if fam == "clayton" and t > 0:
        return (1 + e / r.gamma(1 / t, size=(n, 1))) ** (-1 / t)
    if fam == "gumbel":
        a = 1 / t  # positive stable variable (Kanter)
        th, w = r.uniform(0, np.pi, size=(n, 1)), r.exponential(size=(n, 1))
        s = np.sin(a * th) / np.sin(th) ** (1 / a) * (np.sin((1 - a) * th) / w) ** ((1 - a) / a)
        return np.exp(-(e / s) ** a)
    if fam == "frank" and t > 0:
        p = -np.expm1(-t)
        v = r.logseries(min(p, 1 - 1e-12), size=(n, 1))
        return -np.log1p(np.exp(-e / v) * np.expm1(-t)) / t
    # bivariate, negative: conditional inversion
    u, v = r.uniform(size=n), r.uniform(size=n)
    if fam == "frank":
        b = -np.log1p(v * np.expm1(-t) / (np.exp(-t * u) * (1 - v) + v)) / t
    else:
        b = np.clip((u ** -t * (v ** (-t / (1 + t)) - 1) + 1), 0, None) ** (-1 / t)
    return np.column_stack([u, b])


def fresh(c):
    """A copula of the same class with other parameters."""
    d = c["dim"]
    if c["fam"] == "gaussian":
        return make({"fam": "gaussian", "dim": d, "rho": [0.0] * (d * (d - 1) // 2)})
    if c["fam"] == "student":
        return make({"fam": "student", "dim": d, "df": c.get("start_df", 4.0), "rho": [0.0] * (d * (d - 1) // 2)})
    return make({"fam": c["fam"], "dim": d, "theta": 1.5})


def start(c):
    if c["x0"] is None:
        return None
    m = 1.1 if c["x0"] == "near" else 1.6
    if c["fam"] == "gaussian":
        return np.array(c["rho"]) / m
    if c["fam"] == "student":
        return np.array([c["df"] * m, *(np.array(c["rho"]) / m)])
    b = 1.0 if c["fam"] == "gumbel" else 0.0
    return float(b + (c["theta"] - b) * (m if c["theta"] > b else 1 / m))


def flat(params):
    if isinstance(params, tuple):  # Student
        return np.array([params[0], *np.ravel(params[1])], float)
    return np.atleast_1d(np.asarray(params, float)).ravel()


def loglik(c, p, u):
    """Log-likelihood of parameters p, or None when p is not admissible."""
    k = fresh(c)
    d = c["dim"]
    if c["fam"] in ("gaussian", "student"):
        r = p if c["fam"] == "gaussian" else p[1:]
        if np.abs(r).max() >= 1 or np.linalg.eigvalsh(ref.corr_from_lower(r, d))[0] < 1e-9 or (c["fam"] == "student" and p[0] <= 0):
            return None
        k.params = np.array(p)
    else:
        t = float(p[0])
        lo = {"gumbel": 1.0, "clayton": -1.0 if d == 2 else 0.0, "frank": -np.inf if d == 2 else 0.0}[c["fam"]]
        if t < lo or (c["fam"] == "clayton" and t <= -1):
            return None
        k.params = t
    v = float(np.sum(arr(k.pdf(u, log=True))))
    return v if not np.isnan(v) else None


def neighbours(c, p):
    for i in range(len(p)):
        if c["fam"] in ("gaussian", "student") and not (c["fam"] == "student" and i == 0):
            steps = [0.002, 0.01, 0.05]
        else:
            steps = [0.002 * max(abs(p[i]), 0.1), 0.02 * max(abs(p[i]), 0.1), 0.1 * max(abs(p[i]), 0.1)]
        for s in steps:
            for g in (-s, s):
                q = p.copy()
                q[i] += g
                yield q


def verify_optimum(c, k, p, u, reported, x0=None, skip=()):
    base = loglik(c, p, u)
    check(base is not None, f"the fitted parameter {p} is not admissible")
    tol = (0.05 + 1e-3 * abs(base)) / min(c.get("scale", 1.0), 1.0)
    if c["ties"] == "dense" and c["shape"] == "ties":  # pseudo-observations squeezed into a corner: an ill-conditioned likelihood
        tol = 4 * tol + 0.2
    check(abs(reported - base) <= 1e-6 * (1 + abs(base)), f"reported log-likelihood {reported!r}, the fitted copula gives {base!r}")
    for q in neighbours(c, p):
        if any(q[i] != p[i] for i in skip):
            continue
        v = loglik(c, q, u)
        check(v is None or v <= base + tol, f"{c['fam']} fit {p} has log-likelihood {base!r} but {q} has {v!r}")
    if x0 is not None:
        v = loglik(c, np.atleast_1d(x0).astype(float), u)
        check(v is None or v <= base + tol, f"{c['fam']} fit {p} has log-likelihood {base!r}, the starting point {x0} has {v!r}")
    if c["fam"] in ("gaussian", "student"):
        off = 0 if c["fam"] == "gaussian" else 1
        r = p[off:]
        check((np.abs(r) <= 1 + 1e-8).all(), f"correlations {r}")
        # towards and away from independence, all correlations together
        for m in (0.9, 0.97, 1.02):
            q = p.copy()
            q[off:] = r * m
            v = loglik(c, q, u)
            check(v is None or v <= base + tol, f"{c['fam']} fit {p}: scaled correlations {q} have {v!r} > {base!r}")
    return base


def do_fit(k, c, data, to_pobs, **kw):
    x0 = start(c)
    given = copy.deepcopy(x0)
    r = k.fit(data, x0=x0, method="ml", to_pobs=to_pobs, ties=c["ties"], verbose=0, scale=c["scale"], **kw)
    check(r is k, "fit does not return the copula")
    if isinstance(x0, np.ndarray):
        same_bits(given, x0, "x0")
    s = k.summary("fit")
    check(s.nsample == len(data), f"summary reports {s.nsample} data points of {len(data)}")
    check("likelihood" in s.method.lower(), f"summary method {s.method!r}")
    p = flat(s.params)
    if np.isnan(p).any():
        check(not s.results["success"], "NaN parameters from a converged fit")
        return None
    check(bool(s.results["success"]), "parameters reported although not converged")
    q = flat(k.params)
    check(p.shape == q.shape and np.array_equal(p, q), f"the summary reports {p}, the copula holds {q}")
    return s, p


@sub("P10", cases(), 260, 3500, "random family, sample, packaging, ties, scale and start: stored estimate, bounds, reported log-likelihood, no better neighbour or start")
def optimum(c, note):
    data, to_pobs, u = dataset(c)
    k = fresh(c)
    keep = data.copy()
    note(c["fam"], c["shape"], f"d{c['dim']}", f"x0 {c['x0']}")
    try:
        r = do_fit(k, c, data, to_pobs)
    except ValueError as e:
        # Clayton and Frank in more than two dimensions have no start when the average tau is negative
        t = np.mean([ref.kendall(u[:, i], u[:, j]) for i in range(c["dim"]) for j in range(i)])
        if c["fam"] in ("clayton", "frank") and c["dim"] > 2 and t <= 0.02 and c["x0"] is None:
            return note.skip("no admissible start")
        raise
    check(keep.equals(data) if c["shape"] == "frame" else np.array_equal(keep, data), "fit changed the data")
    regular = c["n"] >= 100 and c["shape"] not in ("ties",) and c["ties"] != "max" and c["x0"] is None and c["scale"] >= 1
    if r is None:
        if regular and not (c["fam"] in ("clayton",) and c["theta"] < 0):
            fail(f"{c['fam']} does not converge on a regular sample: {k.summary('fit').results.get('message')}")
        return note.skip("not converged")
    s, p = r
    if not np.isfinite(s.log_lik):
        return note.skip("infinite likelihood")
    verify_optimum(c, k, p, u, s.log_lik, start(c))
    if c["x0"] is None and regular and c["fam"] in ("gaussian", "student"):
        # the estimate must explain the sample at least as well as the model that generated it
        true = np.array(c["rho"]) if c["fam"] == "gaussian" else np.array([c["df"], *c["rho"]])
        v = loglik(c, true, u)
        check(v is None or v <= s.log_lik + 0.1, f"{c['fam']} fit {p} ({s.log_lik}) is worse than the generating parameters {true} ({v})")


@sub("P10", cases(fams=["clayton", "frank", "gumbel"]), 120, 2000, "one-parameter families: the estimate is the maximum over a grid of the parameter")
def grid(c, note):
    c = dict(c, x0=None, scale=1.0)
    data, to_pobs, u = dataset(c)
    note(c["fam"], c["shape"])
    taus = [ref.kendall(u[:, i], u[:, j]) for i in range(c["dim"]) for j in range(i)]
    if np.mean(taus) < 0.1:
        return note.skip("weak dependence")
    k = fresh(c)
    r = do_fit(k, c, data, to_pobs)
    if r is None or not np.isfinite(r[0].log_lik):
        return note.skip("not converged")
    s, p = r
    base = 1.0 if c["fam"] == "gumbel" else 0.0
    for m in (0.3, 0.5, 0.7, 0.85, 0.95, 1.05, 1.2, 1.5, 2.0, 3.0):
        q = np.array([base + (p[0] - base) * m])
        v = loglik(c, q, u)
        check(v is None or v <= s.log_lik + 0.05, f"{c['fam']} fit {p} has {s.log_lik!r}, {q} has {v!r}")


@sub("P10", cases(sizes=(15, 80)), 100, 1500, "to_pobs: the result is that of the column ranks, for any increasing transformation of the columns and for plain pseudo-observations")
def ranks(c, note):
    if c["shape"] == "pobs":
        c = dict(c, shape="raw")
    data, to_pobs, u = dataset(c)
    note(c["fam"], c["shape"])
    res = []
    x = np.asarray(data)
    y = x.copy()
    for j in range(x.shape[1]):
        z = np.unique(x[:, j])
        f = np.cumsum(gen.rng(c["seed"] + j).exponential(size=len(z)))  # a random increasing map of the values
        y[:, j] = f[np.searchsorted(z, x[:, j])] * 10.0 ** (j - 1) - j
    for d, tp in ((data, True), (y, True), (u, False)):
        k = fresh(c)
        try:
            r = do_fit(k, c, d, tp)
        except ValueError:
            return note.skip("no admissible start")
        res.append(None if r is None else (r[1], r[0].log_lik))
    a = res[0]
    for b in res[1:]:
        check((a is None) == (b is None), "transformed data converge differently")
        if a is not None:
            check(np.allclose(a[0], b[0], rtol=1e-6, atol=1e-8), f"{c['fam']}: fit {a[0]} on the data, {b[0]} on data with the same ranks")
            close(b[1], a[1], 1e-8, 1e-8, "log-likelihood of data with the same ranks")


@sub("P10", st.tuples(st.sampled_from(["clayton", "frank", "gumbel"]), gen.logfl(0.2, 1.0), st.sampled_from([2, 2, 3, 4]), st.integers(60, 150), gen.seeds(),
                      st.sampled_from([None, None, "SLSQP", "L-BFGS-B", "COBYLA", "Nelder-Mead", "trust-constr"])), 110, 1400,
     "one-parameter families with strong dependence, default and named optimisers: the estimate is the maximum over a grid of the parameter")
def strong(t, note):
    fam, f, d, n, seed, m = t
    c = {"fam": fam, "dim": d, "theta": f * {"clayton": 25.0, "frank": 60.0, "gumbel": 22.0}[fam], "n": n, "seed": seed, "shape": "pobs", "ties": "average", "x0": None, "scale": 1.0}
    data, to_pobs, u = dataset(c)
    u = data = ref.pobs(u)
    if np.mean([ref.kendall(u[:, i], u[:, j]) for i in range(c["dim"]) for j in range(i)]) < 0.1:
        return note.skip("weak dependence")
    k = fresh(c)
    try:
        r = do_fit(k, c, data, to_pobs, **({"optim_options": {"method": m}} if m else {}))
    except ValueError:
        if m in ("L-BFGS-B", "trust-constr"):
            return note.skip("optimiser left the admissible set")
        raise
    if r is None or not np.isfinite(r[0].log_lik):
        if m is None:
            fail(f"{c['fam']} does not converge on a regular sample of theta {c['theta']}: {k.summary('fit').results.get('message')}")
        return note.skip("not converged")
    s, p = r
    note(c["fam"], m, "strong" if c["theta"] > 8 else "moderate")
    base = 1.0 if c["fam"] == "gumbel" else 0.0
    for f in (0.3, 0.5, 0.7, 0.85, 0.93, 1.07, 1.2, 1.5, 2.0, 3.0):
        q = np.array([base + (p[0] - base) * f])
        v = loglik(c, q, u)
        check(v is None or v <= s.log_lik + (0.05 if m is None else 0.5) + 1e-3 * abs(s.log_lik), f"{c['fam']} fit {p} with {m} has {s.log_lik!r}, {q} has {v!r}")


METHODS = ["SLSQP", "Nelder-Mead", "L-BFGS-B", "COBYLA", "trust-constr", "Powell", "slsqp", "nelder-mead", "cobyla"]


@sub("P10", st.tuples(cases(sizes=(60, 150)), st.sampled_from(METHODS), st.integers(0, 3)), 110, 1500, "named optimisers and option dictionaries: used, never modified, same optimum")
def options(t, note):
    c, m, extra = t
    c = dict(c, x0=None, scale=1.0)
    if m == "trust-constr" and c["fam"] == "student":
        m = "SLSQP"  # thousands of slow, unsuccessful iterations
    if m.lower() in ("nelder-mead", "cobyla", "powell") and c["fam"] == "student":
        c["dim"], c["rho"] = 2, c["rho"][:1]
    data, to_pobs, u = dataset(c)
    taus = [ref.kendall(u[:, i], u[:, j]) for i in range(c["dim"]) for j in range(i)]
    if c["fam"] not in ("gaussian", "student") and np.mean(taus) < 0.1 and not (c["dim"] == 2 and c["fam"] != "gumbel"):
        return note.skip("weak dependence")
    opt = {"method": m}
    if extra:
        opt["options"] = [{"maxiter": 3000}, {"maxiter": 2500, "disp": False}, {}][extra - 1]
    if extra == 2:
        opt["tol"] = 1e-7
    keep = copy.deepcopy(opt)
    note(m.lower())
    k = fresh(c)
    try:
        r = do_fit(k, c, data, to_pobs, optim_options=opt)
    except ValueError:
        if m in ("L-BFGS-B", "Powell", "trust-constr"):
            return note.skip("optimiser left the admissible set")
        raise
    check(opt == keep, f"the option dictionary became {opt}")
    s = k.summary("fit")
    check(s.setup["method"] == m, f"setup reports method {s.setup.get('method')!r}, asked for {m!r}")
    if extra in (1, 2):
        check(s.setup["options"]["maxiter"] == keep["options"]["maxiter"], f"setup reports {s.setup['options']}, asked for {keep}")
    if r is None:
        return note.skip("not converged")
    s, p = r
    note("converged")
    if not np.isfinite(s.log_lik):
        return note.skip("infinite likelihood")
    base = loglik(c, p, u)
    check(base is not None and abs(base - s.log_lik) <= 1e-6 * (1 + abs(base)), f"reported log-likelihood {s.log_lik!r}, actual {base!r}")
    if m.lower() in ("slsqp", "nelder-mead"):
        verify_optimum(c, k, p, u, s.log_lik)


@sub("P10", st.tuples(cases(fams=["student"], sizes=(40, 200)), gen.logfl(1.0, 20.0), st.booleans()), 70, 1000, "fix_df keeps the degrees of freedom and still maximises over the correlations")
def fixed_df(t, note):
    c, df, with_opt = t
    c = dict(c, start_df=df, scale=1.0)
    data, to_pobs, u = dataset(c)
    k = fresh(c)
    opt = {"options": {"maxiter": 5000}} if with_opt else None
    keep = copy.deepcopy(opt)
    note(f"x0 {c['x0']}")
    r = do_fit(k, c, data, to_pobs, fix_df=True, optim_options=opt)
    check(opt == keep, f"the option dictionary became {opt}")
    if r is None:
        return note.skip("not converged")
    s, p = r
    check(abs(p[0] - df) <= 1e-6 * df, f"df fixed at {df} became {p[0]!r}")
    verify_optimum(c, k, p, u, s.log_lik, skip=(0,))
    k2 = fresh(c)
    free = do_fit(k2, c, data, to_pobs)
    if free is not None:
        check(s.log_lik <= free[0].log_lik + 0.05, f"with df fixed {s.log_lik}, free only {free[0].log_lik}")


@sub("P10", st.tuples(st.sampled_from(["clayton", "frank", "gumbel"]), st.integers(2, 3), st.integers(4, 16), gen.fl(0.2, 0.75), gen.seeds(),
                      st.sampled_from([None, None, "low", "high"]), st.booleans()), 150, 2500,
     "one-parameter families on a handful of observations, default optimiser: converges to the maximum over a grid of the parameter")
def few(t, note):
    fam, d, n, tau, seed, x0, frame = t
    z = gen.rng(seed).normal(size=(n, d + 1))
    x = z[:, :d] * np.sqrt(1 - tau) + z[:, d:] * np.sqrt(tau)
    u = ref.pobs(x)
    mean = np.mean([ref.kendall(u[:, i], u[:, j]) for i in range(d) for j in range(i)])
    if not 0.15 < mean < 0.85:
        return note.skip("weak or perfect dependence")
    k = make({"fam": fam, "dim": d, "theta": 1.5})
    start = {None: None, "low": 1.2, "high": 9.0}[x0]
    k.fit(pd.DataFrame(x) if frame else x, x0=start, verbose=0)
    s = k.summary("fit")
    p = flat(s.params)
    note(fam, f"n{n}", f"x0 {x0}")
    check(np.isfinite(p).all() and bool(s.results["success"]), f"{fam} does not converge on {x.tolist()} from {x0}: {s.results.get('message')}")
    c = {"fam": fam, "dim": d}
    base = 1.0 if fam == "gumbel" else 0.0
    check(abs(loglik(c, p, u) - s.log_lik) <= 1e-6 * (1 + abs(s.log_lik)), f"reported log-likelihood {s.log_lik}, actual {loglik(c, p, u)}")
    for f in (0.3, 0.5, 0.7, 0.85, 0.95, 1.05, 1.2, 1.5, 2.0, 3.0):
        q = np.array([base + (p[0] - base) * f])
        v = loglik(c, q, u)
        check(v is None or v <= s.log_lik + 0.02, f"{fam} fit {p} of {x.tolist()} has {s.log_lik!r}, {q} has {v!r}")


@sub("P10", st.tuples(cases(sizes=(15, 80)), st.sampled_from([1, 1, 2, 3]), st.booleans()), 60, 900,
     "how much a fit prints never changes it: same estimate and log-likelihood for every verbosity; copulas that need no fitting return themselves unchanged")
def verbosity(t, note):
    import contextlib
    import io
    import warnings

    from copulae import EmpiricalCopula, IndepCopula
    c, v, itau = t
    note(c["fam"], f"verbose {v}")
    u = np.asarray(dataset(c)[2])
    d = c["dim"]
    got = []
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        for verbose in (0, v):
            k = fresh(c)
            try:
                k.fit(u.copy(), start(c), "itau" if itau else "ml", verbose=verbose)
                got.append([*flat(k.params), float(k.log_lik(u))])
            except Exception as e:  # whether the fit succeeds is the business of other checks
                got.append(type(e).__name__)
        check(got[0] == got[1] or (not isinstance(got[0], str) and np.array_equal(got[0], got[1], equal_nan=True)), f"{c['fam']} fit with verbose=0: {got[0]}, verbose={v}: {got[1]}")
        for k in (IndepCopula(d), EmpiricalCopula(np.array(u), "beta")):
            before = arr(k.pdf(ref.pobs(u)[:3])), str(k.summary()), np.array(k.random(3, 5))
            check(k.fit(np.array(u)[::-1] * 2, verbose=v) is k, f"fit of {k.name} does not return the copula")
            after = arr(k.pdf(ref.pobs(u)[:3])), str(k.summary()), np.array(k.random(3, 5))
            check(np.array_equal(before[0], after[0]) and before[1] == after[1] and np.array_equal(before[2], after[2]), f"fit changed the {k.name} copula")
            s = k.summary("fit")
            for txt in (str(s), s.as_html()):
                check(str(k.dim) in txt and "does not need fitting" in txt, f"fit summary of {k.name}: {txt!r}")
