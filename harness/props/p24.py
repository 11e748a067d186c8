"""P24: the parametric-bootstrap goodness-of-fit test."""
import multiprocessing

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gen
import ref
from core import check, close, fail, same_bits, sub
from props.p10 import arch_sample, flat
from props.p22 import lattice, same_proportion

ASSUMPTIONS = ["the reference statistic fits a second instance of the same class to independently computed ranks and uses its cdf (fit and cdf themselves are P01, P06, P10, P11)",
               "p-values are compared with an own parametric bootstrap (own samplers, ranks, imposed ties, statistic) at 7 standard errors plus 0.01"]

TIES = ["average", "min", "max", "dense", "ordinal"]


def allow_children():
    """The checks themselves run in daemonic worker processes, which may not start the pool of gof_copula."""
    multiprocessing.current_process()._config["daemon"] = False


def cls(fam):
    import copulae as cp
    return {"gaussian": cp.GaussianCopula, "clayton": cp.ClaytonCopula, "frank": cp.FrankCopula, "gumbel": cp.GumbelCopula, "indep": cp.IndepCopula}[fam]


def sample(fam, t, n, d, r):
    if fam == "indep":
        return r.uniform(size=(n, d))
    if fam == "gaussian":
        from scipy.special import ndtr
        c = np.sqrt(t / (1 + t))
        return ndtr(c * r.normal(size=(n, 1)) + np.sqrt(1 - c * c) * r.normal(size=(n, d)))
    return arch_sample(fam, t, n, d, r)


def stat(k, u):
    e = np.array([(u <= p[None, :]).all(1).mean() for p in u])
    return float(((e - np.asarray(k.cdf(u))) ** 2).sum())


@st.composite
def cases(draw):
    fam = draw(st.sampled_from(["gaussian", "clayton", "frank", "gumbel", "gumbel", "clayton", "indep"]))
    d = draw(st.sampled_from([2, 2, 3, 4])) if fam != "gaussian" else 2
    return {"fam": fam, "data": draw(st.sampled_from(["clayton", "frank", "gumbel", "gaussian"])), "theta": draw(gen.fl(1.5, 5)), "dim": d, "n": draw(st.integers(15, 60)),
            "seed": draw(gen.seeds()), "round": draw(st.sampled_from([None, 10, 25, "one", "one"])), "ties": draw(st.sampled_from(TIES)), "fit_ties": draw(st.sampled_from(TIES)),
            "method": draw(st.sampled_from(["ml", "itau", "itau"])), "reps": draw(st.integers(1, 4)), "form": draw(st.sampled_from(["array", "frame", "list", "fortran"])),
            "scale": draw(st.sampled_from([None, None, 5.0])), "verbose": draw(st.sampled_from([None, None, 0]))}


@sub("P24", cases(), 130, 1500, "statistic and parameter equal those of an independent fit of the class under the two tie rules; p-value lattice; data untouched")
def statistic(c, note):
    from copulae.gof import gof_copula
    r = gen.rng(c["seed"])
    x = sample(c["data"], c["theta"], c["n"], c["dim"], r)
    if c["round"] == "one":  # a single tied pair in a single column
        i, j = r.choice(c["n"], 2, replace=False)
        k = int(r.integers(c["dim"]))
        x[i, k] = x[j, k]
    x = np.ceil(x * c["round"]) if isinstance(c["round"], int) else np.tan(3 * (x - 0.5))
    tied = any(len(np.unique(x[:, j])) < len(x) for j in range(c["dim"]))
    note(c["fam"], "ties" if tied else "no ties", c["method"], c["form"])
    a = x.tolist() if c["form"] == "list" else pd.DataFrame(x, columns=list("wxyz")[:c["dim"]], index=np.arange(len(x))[::-1]) if c["form"] == "frame" else \
        np.asfortranarray(x) if c["form"] == "fortran" else x.copy()
    opts = {"method": c["method"]}
    if c["scale"]:
        opts["scale"] = c["scale"]
    if c["fam"] == "indep":
        opts = {}
    k = cls(c["fam"])(dim=c["dim"])
    try:
        k.fit(ref.pobs(x, c["fit_ties"]), to_pobs=False, verbose=0, **opts)
    except Exception:
        note.skip("class cannot be fitted to this sample")
        return
    if c["verbose"] is not None:
        opts["verbose"] = 0
    try:
        g = gof_copula(cls(c["fam"]), a, c["reps"], ties=c["ties"], fit_ties=c["fit_ties"], **opts)
    except ValueError:
        if c["method"] == "itau" or c["fam"] != "gaussian":  # a replicate with negative dependence cannot be fitted by these classes
            u = ref.pobs(x)
            t = np.mean([ref.kendall(u[:, i], u[:, j]) for i in range(c["dim"]) for j in range(i)])
            if t < 0.35:
                note.skip("weakly dependent replicates")
                return
        raise
    same_bits(np.asarray(a), x, "data after the test")
    if c["fam"] != "indep":
        close(flat(g.parameter), flat(k.params), 1e-9, 1e-9, "parameter")
    close(g.statistic, stat(k, ref.pobs(x, c["ties"])), 1e-7, 1e-9, f"statistic, ties {c['ties']}, fit ties {c['fit_ties']}")
    lattice(g.pvalue, c["reps"], "gof_copula")
    check(str(round(g.statistic, 9)) in str(g) and str(round(g.pvalue, 9)) in str(g), "printed result does not show the statistic and p-value")


def tied_positions(x):
    return [np.floor(ref.rank(np.sort(x[:, i]), "average")).astype(int) - 1 for i in range(x.shape[1])]


def impose(u, pos):
    """The ties of the observed data imposed on a sample, column by column, rows kept together."""
    for i in range(u.shape[1]):
        u = u[np.argsort(u[:, i], kind="stable")]
        u[:, i] = u[pos[i], i]
    return u


def ref_boot(c, k, x, M, r):
    n, d = x.shape
    pos = tied_positions(x)
    tied = any(len(np.unique(x[:, j])) < n for j in range(d))
    out = []
    q = cls(c["fam"])(dim=d)
    for _ in range(M):
        u = sample(c["fam"], float(np.ravel(k.params)[0]), n, d, r)
        if tied:
            u = impose(u, pos)
        q.fit(ref.pobs(u, c["fit_ties"]), to_pobs=False, verbose=0, method="itau")
        out.append(stat(q, ref.pobs(u, c["ties"])))
    return np.array(out)


@sub("P24", st.tuples(gen.seeds(), st.integers(2, 4), st.integers(2, 3), st.sampled_from([0, 0, 2, 3, 5]), st.sampled_from(TIES)), 36, 400,
     "independence copula on two to four points, with and without ties: the p-value agrees with the exact enumeration of all rank patterns", shrink=False)
def enumerated(t, note):
    import itertools
    from copulae import IndepCopula
    from copulae.gof import gof_copula
    from props.p22 import binomial
    seed, n, d, levels, ties = t
    r = gen.rng(seed)
    x = r.integers(0, levels, size=(n, d)).astype(float) if levels else r.normal(size=(n, d))
    tied = any(len(np.unique(x[:, j])) < n for j in range(d))
    pos = tied_positions(x)
    k = IndepCopula(d)
    s = []
    for q in itertools.product(itertools.permutations(range(1, n + 1)), repeat=d - 1):
        u = np.column_stack([np.arange(1, n + 1), *q]).astype(float)
        s.append(stat(k, ref.pobs(impose(u, pos) if tied else u, ties)))
    s = np.array(s)
    s0 = stat(k, ref.pobs(x, ties))
    N = 250
    np.random.seed(seed % 2 ** 31)
    g = gof_copula(IndepCopula, x, N, ties=ties)
    c = lattice(g.pvalue, N, "gof_copula")
    hi = float((s >= s0 - 1e-12).mean())
    lo = hi if n == d == 2 and not tied else float((s > s0 + 1e-12).mean())  # sums of two terms do not depend on their order
    note(f"n{n}", f"d{d}", "ties" if tied else "no ties")
    binomial(c, N, lo, hi, f"p-value of {n} points in dimension {d}, {'ties ' + ties if tied else 'no ties'}")


@st.composite
def pcases(draw):
    return {"fam": draw(st.sampled_from(["clayton", "gumbel", "frank"])), "data": draw(st.sampled_from(["clayton", "gumbel", "frank", "gaussian"])), "theta": draw(gen.fl(2.2, 5)),
            "n": draw(st.integers(20, 60)), "dim": draw(st.sampled_from([2, 2, 3])), "seed": draw(gen.seeds()), "round": draw(st.sampled_from([None, 8, 20])),
            "ties": draw(st.sampled_from(["average", "min", "max"])), "fit_ties": draw(st.sampled_from(["average", "average", "max"])), "multi": draw(st.sampled_from([False, False, True]))}


@sub("P24", pcases(), 28, 350, "the p-value agrees with an independently written parametric bootstrap, with and without ties and worker processes", shrink=False)
def pvalue(c, note):
    from copulae.gof import gof_copula
    x = sample(c["data"], c["theta"], c["n"], c["dim"], gen.rng(c["seed"]))
    x = np.ceil(x * c["round"]) if c["round"] else x
    N, M = 250, 250
    k = cls(c["fam"])(dim=c["dim"])
    k.fit(ref.pobs(x, c["fit_ties"]), to_pobs=False, verbose=0, method="itau")
    if not max(0.25, 1.7 / np.sqrt(c["n"])) < float(k.tau) < 0.9:
        note.skip("replicates could have negative dependence")
        return
    allow_children()
    np.random.seed(c["seed"] % 2 ** 31)
    g = gof_copula(cls(c["fam"]), x, N, ties=c["ties"], fit_ties=c["fit_ties"], multiprocess=c["multi"], method="itau")
    k1 = lattice(g.pvalue, N, "gof_copula")
    s0 = ref_boot(c, k, x, M, gen.rng(c["seed"] + 1))
    s = stat(k, ref.pobs(x, c["ties"]))
    note("ties" if c["round"] else "no ties", "multiprocess" if c["multi"] else "one process", "p<.05" if g.pvalue < 0.05 else "p>.05")
    same_proportion(k1, N, int((s0 >= s).sum()), M, f"p-value of {c['fam']} on {c['data']} data")


@sub("P24", st.tuples(gen.seeds(), st.sampled_from([None, 25])), 3, 40, "rejections at 5% stay near the level on data of the class; data of a distant family are rejected", shrink=False)
def level(t, note):
    from scipy import stats
    from copulae.gof import gof_copula
    seed, rd = t
    R, N, k = 24, 60, 0
    np.random.seed(seed)
    for i in range(R):
        f = ["clayton", "gumbel", "frank"][i % 3]
        x = sample(f, {"clayton": 2.0, "gumbel": 2.0, "frank": 6.0}[f], 50, 2, gen.rng(seed + i))
        x = np.ceil(x * rd) if rd else x
        k += gof_copula(cls(f), x, N, method="itau").pvalue < 0.05
    note(f"{k} of {R} rejected")
    check(stats.binom.sf(k - 1, R, 0.09) > 1e-9, f"{k} of {R} samples of the class rejected at the 5% level")
    for i, (f, h) in enumerate([("clayton", "gumbel"), ("gumbel", "clayton"), ("clayton", "frank")]):
        x = sample(f, 4.0, 350, 2, gen.rng(seed + i))
        x = np.ceil(x * 2 * rd) if rd else x
        g = gof_copula(cls(h), x, N, method="itau")
        check(g.pvalue < 0.05, f"{f} sample (n=350, theta 4) not rejected as {h}: p-value {g.pvalue}, statistic {g.statistic}")


@sub("P24", st.tuples(gen.seeds(), st.integers(5, 30)), 6, 60, "worker processes draw independent replicates", shrink=False)
def workers(t, note):
    """With identical replicates the count of exceedances would be all or nothing per worker; many tests of the same data must vary binomially."""
    from copulae.gof import gof_copula
    allow_children()
    seed, n = t
    x = sample("clayton", 4.0, 30 + n, 2, gen.rng(seed))
    np.random.seed(seed)
    N = 64
    ps = [lattice(gof_copula(cls("clayton"), x, N, multiprocess=True, method="itau").pvalue, N, "gof_copula") for _ in range(3)]
    one = [lattice(gof_copula(cls("clayton"), x, 4 * N, method="itau").pvalue, 4 * N, "gof_copula")]
    p = (sum(ps) + sum(one) + 2) / (7 * N + 4)
    note(f"p about {round(p, 1)}")
    if not 0.1 < p < 0.9:
        note.skip("one-sided")
        return
    for k in ps:
        if abs(k - N * p) > 7 * np.sqrt(N * p * (1 - p) * 1.3) + 1:
            fail(f"{k} of {N} replicates at least as large with worker processes, proportion about {p:.3f} otherwise")
