"""P17: fitting a marginal copula fits each margin and the dependence separately."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy import stats

import gen
from core import arr, check, close, raises, sub
from props.p10 import flat
from props.p16 import DISTS, build, ctol, frozen, full, labels, marginal, spec, specs
from props.util import make

ASSUMPTIONS = ["margin reference: scipy's own maximum likelihood fit of the named distribution to the column, and closed forms for normal, exponential, uniform and Laplace margins",
               "inner reference: a separately built copula of the same class fitted alone to the same data with the same options"]

FITTABLE = ("norm", "expon", "uniform", "laplace", "logistic", "gumbel_r", "lognorm", "gamma", "t", "cauchy")
FAST = ("norm", "expon", "uniform", "laplace", "logistic", "gumbel_r")


@st.composite
def cases(draw, names=FITTABLE):
    c = draw(marginal(("gaussian", "clayton", "frank", "gumbel", "gaussian", "clayton", "indep", "student"), names, (2, 3)))
    fam = c["inner"]["fam"]
    meth = draw(st.sampled_from({"indep": ["ml"], "student": ["itau"]}.get(fam, ["ml", "itau", "ml", "itau"] + (["irho"] if fam == "gaussian" else []))))
    return {**c, "seed": draw(gen.seeds()), "n": draw(st.integers(15, 60)), "method": meth, "frame": draw(st.booleans()), "ties": draw(st.sampled_from(["average", "average", "min", "max"])), "round": draw(st.integers(0, 3)) == 0}


def dataset(c):
    """Positively dependent data whose columns really have the margins' supports."""
    r = gen.rng(c["seed"])
    d = c["inner"]["dim"]
    z = r.normal(size=(c["n"], d)) + r.normal(size=(c["n"], 1))
    u = stats.norm.cdf(z / np.sqrt(2))
    x = np.column_stack([frozen({**m, "p": {**{k: (a + b) / 2 for k, (a, b) in DISTS[m["name"]][0].items()}, **m["p"]}}).ppf(u[:, j]) for j, m in enumerate(c["m"])])
    return np.round(x, 1) + 0.05 if c["round"] else x


def safe(c, x):
    return np.isfinite(x).all() and all(len(np.unique(x[:, j])) > 5 for j in range(x.shape[1]))


def fit(k, c, x):
    return k.fit(x, method=c["method"], verbose=0, ties=c["ties"])


def same_detail(got, m, want, what):
    check(got["type"] == m["name"], f"{what}: margin type became {got['type']}, was {m['name']}")
    names = list(DISTS[m["name"]][0]) + ["loc", "scale"]
    check(set(got["parameters"]) == set(names), f"{what}: parameters {got['parameters']}")
    close(np.array([got["parameters"][n] for n in names], float), np.array(want, float), 1e-9, 1e-12, f"{what}: fitted {names}")


@sub("P17", cases(), 60, 1500, "each margin equals the maximum likelihood fit of its type to its column; the inner copula equals the copula fitted alone; params, summary, labels, purity")
def fitting(c, note):
    x = dataset(c)
    labels(c, note)
    note(c["method"], "frame" if c["frame"] else "array", c["ties"])
    if not safe(c, x):
        note.skip("degenerate")
        return
    s = specs(c)
    keep = repr(s)
    from copulae import MarginalCopula
    k = MarginalCopula(make(c["inner"]), s)
    cols = ["b", "a", "c"][:x.shape[1]]
    data = pd.DataFrame(x, columns=cols) if c["frame"] else x.copy()
    alone = make(c["inner"])
    fit(alone, c, x.copy())
    r = fit(k, c, data)
    check(r is k, "fit does not return the copula")
    for j, m in enumerate(c["m"]):
        col = x[:, j]
        same_detail(k.params["marginals"][j], m, getattr(stats, m["name"]).fit(col), f"column {j}")
        p = k.params["marginals"][j]["parameters"]
        if m["name"] == "norm":
            close(np.array([p["loc"], p["scale"]]), np.array([col.mean(), col.std()]), 1e-9, 1e-12, "normal margin")
        elif m["name"] == "expon":
            close(np.array([p["loc"], p["scale"]]), np.array([col.min(), col.mean() - col.min()]), 1e-9, 1e-12, "exponential margin")
        elif m["name"] == "uniform":
            close(np.array([p["loc"], p["scale"]]), np.array([col.min(), col.max() - col.min()]), 1e-9, 1e-12, "uniform margin")
        elif m["name"] == "laplace":
            close(np.array([p["loc"], p["scale"]]), np.array([np.median(col), np.abs(col - np.median(col)).mean()]), 1e-9, 1e-12, "Laplace margin")
    close(flat(k.params["copula"]), flat(alone.params), 1e-9, 1e-12, "inner copula's parameters against the copula fitted alone") if alone.params is not None else None
    check(np.array_equal(np.asarray(data), x), "the data changed")
    check(repr(s) == keep, "the specification changed")
    txt = str(k.summary())
    for m in k.params["marginals"]:
        for n, v in m["parameters"].items():
            check(f"{n}: {v}" in txt, f"{n}={v} missing from the summary")
    if c["inner"]["fam"] != "indep":
        fs, fa = k.summary("fit"), alone.summary("fit")
        check(fs.method == fa.method and fs.nsample == len(x), f"fit summary method {fs.method}, n {fs.nsample}")
        close(float(fs.log_lik), float(fa.log_lik), 1e-9, 1e-9, "log-likelihood in the fit summary")
    # the fitted copula in use: joint cdf and sample
    f = [getattr(stats, m["name"])(**k.params["marginals"][j]["parameters"]) for j, m in enumerate(c["m"])]
    if c["inner"]["fam"] != "student":
        u = np.column_stack([f[j].cdf(x[:4, j]) for j in range(len(f))])
        close(arr(k.cdf(x[:4])), arr(alone.cdf(u)), *ctol(c), "cdf after fitting")
        if c["frame"]:
            close(arr(k.cdf(data.iloc[:4][cols[::-1]])), arr(alone.cdf(u)), *ctol(c), "cdf of a DataFrame with reordered columns")
    smp = k.random(4, seed=7)
    check(isinstance(smp, pd.DataFrame) == c["frame"] and (not c["frame"] or list(smp.columns) == cols), "labels of the sample")
    u = np.asarray(alone.random(4, seed=7))
    close(np.asarray(smp, float), np.column_stack([f[j].ppf(u[:, j]) for j in range(len(f))]), 1e-8, 1e-10, "sample after fitting")


@sub("P17", st.tuples(cases(FAST), cases(FAST), st.booleans()), 40, 800, "refitting on other data forgets the first fit; specifications and starting parameters do not matter; another copula built from the same specification is untouched")
def refit(t, note):
    c, c2, frame2 = t
    from copulae import MarginalCopula
    x = dataset(c)
    y = dataset({**c, "seed": c2["seed"], "n": c2["n"]})
    labels(c, note)
    if not safe(c, x) or not safe(c, y):
        note.skip("degenerate")
        return
    s = specs(c)
    k, other, direct = (MarginalCopula(make(c["inner"]), s) for _ in range(3))
    before = other.params
    fit(k, c, pd.DataFrame(x, columns=["b", "a", "c"][:x.shape[1]]) if c["frame"] else x)
    fit(k, c, pd.DataFrame(y, columns=["q", "p", "r"][:y.shape[1]]) if frame2 else y)
    fit(direct, c, y)
    for j, m in enumerate(c["m"]):
        same_detail(k.params["marginals"][j], m, list(direct.params["marginals"][j]["parameters"].values()), f"column {j} after refitting")
    if direct.params["copula"] is not None and c["method"] != "ml":
        close(flat(k.params["copula"]), flat(direct.params["copula"]), 1e-10, 0, "inner parameters after refitting")
    check(repr(other.params) == repr(before), "another copula built from the same specification changed")
    smp = k.random(3, seed=1)
    check(isinstance(smp, pd.DataFrame) == frame2, "labels come from an earlier fit")


@sub("P17", st.tuples(cases(FAST), st.sampled_from(["cols", "vector", "cube", "few"])), 40, 500, "data of the wrong shape are rejected and leave margins and dependence as they were")
def rejected(t, note):
    c, what = t
    note(what)
    k = build(c)
    before = repr(k.params)
    x = dataset(c)
    bad = {"cols": np.column_stack([x, x[:, 0]]), "vector": x[:, 0], "cube": x[None], "few": x[:1]}[what]
    if what == "few" and c["inner"]["fam"] == "indep":
        note.skip("independence has nothing to fit")
        return
    raises(Exception, lambda: fit(k, c, bad), f"fit on data of shape {np.shape(bad)}")
    check(repr(k.params) == before, f"a rejected fit changed the copula: {before} -> {k.params!r}")


@sub("P17", st.tuples(cases(("uniform", "norm", "expon")), st.sampled_from(["start", "limit", "scale", "unit", "solver", "all"]), gen.fl(0.0, 1.0)), 60, 1200,
     "starting value, solver options, scale, ties and the use of pseudo-observations reach the inner copula: same parameters and summary as the copula fitted alone with them")
def options(t, note):
    c, what, pos = t
    fam, d = c["inner"]["fam"], c["inner"]["dim"]
    if fam == "indep":
        note.skip("independence has nothing to fit")
        return
    note(fam, what)
    x = dataset({**c, "round": False})
    if what == "unit":
        x = stats.norm.cdf((x - x.mean(0)) / x.std(0))  # the raw data as the observations
    if not safe(c, x):
        note.skip("degenerate")
        return
    kw = {"method": "itau" if fam == "student" else "ml", "verbose": 0, "ties": c["ties"]}
    if what in ("start", "all") and fam != "student":
        kw["x0"] = np.array([0.1 + 0.3 * pos] * (d * (d - 1) // 2)) if fam == "gaussian" else np.array([1.2 + 6 * pos])
    if what in ("start", "limit", "all"):
        kw["optim_options"] = {"method": "Nelder-Mead", "options": {"maxiter": 2 + int(6 * pos)}}
    elif what == "solver":
        kw["optim_options"] = {"method": "Powell"}
    if what in ("scale", "all"):
        kw["scale"] = 0.1 + 5 * pos
    if what == "unit":
        kw["to_pobs"] = False
    from copulae import MarginalCopula
    alone, k = make(c["inner"]), MarginalCopula(make(c["inner"]), specs(c))
    try:
        alone.fit(x.copy(), **kw)
    except Exception as e:
        raises(type(e), lambda: k.fit(x, **kw), f"marginal fit where the copula alone raises {e!r}")
        note.skip("the copula alone rejects it")
        return
    k.fit(x, **kw)
    close(flat(k.params["copula"]), flat(alone.params), 1e-12, 0, f"inner parameters fitted with {show_opts(kw)}")
    fs, fa = k.summary("fit"), alone.summary("fit")
    close(float(fs.log_lik), float(fa.log_lik), 1e-12, 0, f"log-likelihood fitted with {show_opts(kw)}")
    check(fs.method == fa.method and fs.nsample == fa.nsample, f"fit summary says {fs.method}, {fs.nsample}; alone {fa.method}, {fa.nsample}")
    if isinstance(fa.setup, dict):
        check(fs.setup.get("method") == fa.setup.get("method"), f"setup {fs.setup} against {fa.setup}")


def show_opts(kw):
    return {k: v for k, v in kw.items() if k != "verbose"}
