"""P16: a marginal copula combines margins and dependence (Sklar)."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats

import gen
import ref
from core import arr, check, close, raises, sub
from props.util import make

ASSUMPTIONS = ["margins are scipy.stats continuous distributions; the reference evaluates them through scipy directly, the inner copula through a separately built object of the same parameters",
               "density points lie inside every margin's support, between its 1e-6 and 1-1e-6 quantiles"]

# name -> (shape parameters with ranges, aliases)
DISTS = {
    "norm": ({}, ["norm", "normal", "gaussian", "Normal", " GAUSSIAN ", "NORM"]),
    "t": ({"df": (1.5, 30)}, ["t", "student", "Student", "T"]),
    "expon": ({}, ["expon", "exp", "EXP", "Expon "]),
    "gamma": ({"a": (0.5, 8)}, ["gamma", "Gamma"]),
    "lognorm": ({"s": (0.2, 1.5)}, ["lognorm"]),
    "uniform": ({}, ["uniform", "Uniform"]),
    "logistic": ({}, ["logistic"]),
    "laplace": ({}, ["laplace", "LAPLACE"]),
    "beta": ({"a": (0.6, 5), "b": (0.6, 5)}, ["beta"]),
    "weibull_min": ({"c": (0.6, 4)}, ["weibull_min"]),
    "chi2": ({"df": (1, 20)}, ["chi2"]),
    "pareto": ({"b": (1.1, 6)}, ["pareto"]),
    "gumbel_r": ({}, ["gumbel_r"]),
    "cauchy": ({}, ["cauchy"]),
    "nct": ({"df": (3, 20), "nc": (-1, 1)}, ["nct"]),
}


@st.composite
def margin(draw, names=tuple(DISTS)):
    """{name, alias, form, parameters} ; form: str (defaults), name (dict with a name), object (dict with the scipy object)."""
    name = draw(st.sampled_from(list(names)))
    shapes, aliases = DISTS[name]
    form = draw(st.sampled_from(["str", "name", "object", "object", "name"]))
    p = {}
    if form != "str" and draw(st.integers(0, 4)):
        for k, (a, b) in shapes.items():
            if draw(st.integers(0, 5)):
                p[k] = draw(gen.fl(a, b))
        if draw(st.booleans()):
            p["loc"] = draw(gen.fl(-5, 5))
        if draw(st.booleans()):
            p["scale"] = draw(gen.logfl(0.1, 20))
    return {"name": name, "alias": draw(st.sampled_from(aliases)), "form": form, "p": p}


@st.composite
def inner(draw, fams=("gaussian", "student", "clayton", "frank", "gumbel", "indep"), dims=(2, 4)):
    fam = draw(st.sampled_from(list(fams)))
    if fam in ("gaussian", "student"):
        d, r = draw(gen.dim_corr(dims, 0.85))
        c = {"fam": fam, "dim": d, "rho": r}
        if fam == "student":
            c["df"] = draw(gen.fl(1.0, 25))
        return c
    d = draw(gen.dims_(*dims))
    if fam == "indep":
        return {"fam": fam, "dim": d}
    return draw(gen.arch((fam,), (d, d), {"clayton": 6, "frank": 15, "gumbel": 5}))


@st.composite
def marginal(draw, fams=("gaussian", "student", "clayton", "frank", "gumbel", "indep"), names=tuple(DISTS), dims=(2, 4)):
    c = draw(inner(fams, dims))
    how = draw(st.sampled_from(["list", "list", "list", "tuple", "single"]))
    if how == "single":
        m = [draw(margin(names))] * c["dim"]
    else:
        m = [draw(margin(names)) for _ in range(c["dim"])]
    return {"inner": c, "how": how, "m": m}


def spec(m):
    if m["form"] == "str":
        return m["alias"]
    s = {"type": m["alias"] if m["form"] == "name" else getattr(stats, m["name"])}
    if m["p"]:
        s["parameters"] = dict(m["p"])
    return s


def specs(c):
    if c["how"] == "single":
        return spec(c["m"][0])
    s = [spec(m) for m in c["m"]]
    return tuple(s) if c["how"] == "tuple" else s


def full(m):
    """The parameters in force: those given, 0.5 for a shape not given, scipy's loc=0 and scale=1."""
    return {**{k: 0.5 for k in DISTS[m["name"]][0]}, "loc": 0.0, "scale": 1.0, **m["p"]}


def frozen(m):
    return getattr(stats, m["name"])(**full(m))


def build(c):
    from copulae import MarginalCopula
    return MarginalCopula(make(c["inner"]), specs(c))


def points(c, seed, k=5):
    r = gen.rng(seed)
    u = r.uniform(0.02, 0.98, (k, c["inner"]["dim"]))
    u[0] = r.uniform(size=u.shape[1])
    tail = r.uniform(size=u.shape) < 0.1
    u[tail] = r.choice([1e-5, 1 - 1e-5, 1e-3, 0.999], tail.sum())
    return np.column_stack([frozen(m).ppf(u[:, j]) for j, m in enumerate(c["m"])])


def labels(c, note):
    note(c["inner"]["fam"], f"d{c['inner']['dim']}", c["how"], *(m["name"] for m in c["m"]), *("form " + m["form"] for m in c["m"]))


def ctol(c):
    """Three and more dimensional Gaussian probabilities are computed by quasi-Monte Carlo."""
    return (0, 1e-3) if c["inner"]["fam"] == "gaussian" and c["inner"]["dim"] > 2 else (1e-8, 1e-10)


@sub("P16", st.tuples(marginal(), gen.seeds()), 700, 10000, "cdf and pdf (plain and log) at points across the margins' supports against inner copula and scipy margins; single rows and lists")
def sklar(t, note):
    c, seed = t
    labels(c, note)
    k, inn = build(c), make(c["inner"])
    x = points(c, seed)
    f = [frozen(m) for m in c["m"]]
    u = np.column_stack([f[j].cdf(x[:, j]) for j in range(len(f))])
    keep = x.copy()
    with np.errstate(all="ignore"):
        if c["inner"]["fam"] != "student":
            w = arr(inn.cdf(u))
            close(arr(k.cdf(x)), w, *ctol(c), "cdf")
            close(np.exp(arr(k.cdf(x, log=True))), w, *ctol(c), "exp of the log cdf")
            close(arr(k.cdf(x[0].tolist())), w[0], *ctol(c), "cdf of one row as a list")
        lm = sum(f[j].logpdf(x[:, j]) for j in range(len(f)))
        w = arr(inn.pdf(u, log=True)) + lm
        ok = np.isfinite(w)
        if not ok.all():
            note("infinite density")
        got, lg = arr(k.pdf(x)), arr(k.pdf(x, log=True))
        close(lg[ok], w[ok], 1e-8, 1e-8, "log pdf")
        close(got[ok], np.exp(w[ok]), 1e-7, 1e-280, "pdf")
        if ok[1]:
            close(arr(k.pdf(x[1])), np.exp(w[1]), 1e-7, 1e-280, "pdf of one row")
            close(arr(k.pdf(x[1].tolist(), True)), w[1], 1e-8, 1e-8, "log pdf of one row")
    check(np.array_equal(x, keep), "the points changed")


@sub("P16", st.tuples(marginal(fams=("indep", "indep", "gaussian", "clayton")), gen.seeds()), 150, 2500,
     "log densities far out in the tails, where the density itself underflows")
def tails(t, note):
    c, seed = t
    labels(c, note)
    r = gen.rng(seed)
    k, inn = build(c), make(c["inner"])
    x = points(c, seed)
    f = [frozen(m) for m in c["m"]]
    with np.errstate(all="ignore"):
        for j in range(x.shape[1]):
            s = f[j].ppf(0.75) - f[j].ppf(0.25)
            far = f[j].median() + s * r.choice([-1, 1], len(x)) * 10.0 ** r.uniform(1, 3, len(x))
            put = (r.uniform(size=len(x)) < 0.5) & np.isfinite(f[j].logpdf(far))
            x[put, j] = far[put]
        u = np.column_stack([f[j].cdf(x[:, j]) for j in range(len(f))])
        lm = sum(f[j].logpdf(x[:, j]) for j in range(len(f)))
        w = arr(inn.pdf(u, log=True)) + lm
        ok = np.isfinite(w)
        if not ok.any():
            note.skip("no finite log density")
        if (np.exp(lm[ok]) == 0).any():
            note("underflow")
        close(arr(k.pdf(x, log=True))[ok], w[ok], 1e-8, 1e-8, "log pdf")
        close(arr(k.pdf(x))[ok], np.exp(w[ok]), 1e-7, 1e-280, "pdf")


@sub("P16", st.tuples(marginal(fams=("gaussian", "clayton", "frank", "gumbel", "indep"), names=("expon", "uniform", "gamma", "beta", "pareto", "lognorm", "norm")), gen.seeds()), 300, 5000,
     "cdf outside the margins' supports and at infinity: 0 below, remaining margins above")
def beyond(t, note):
    c, seed = t
    labels(c, note)
    r = gen.rng(seed)
    k, inn = build(c), make(c["inner"])
    x = points(c, seed)
    lo = r.uniform(size=x.shape) < 0.12
    hi = ~lo & (r.uniform(size=x.shape) < 0.3)
    x[lo], x[hi] = r.choice([-1e6, -np.inf]), r.choice([1e12, np.inf])
    u = np.column_stack([frozen(m).cdf(x[:, j]) for j, m in enumerate(c["m"])])
    close(arr(k.cdf(x)), arr(inn.cdf(u)), *ctol(c), "cdf beyond the supports")
    d = x.shape[1]
    y = np.full(d, np.inf)
    j = int(r.integers(d))
    y[j] = points(c, seed)[0, j]
    close(arr(k.cdf(y)), frozen(c["m"][j]).cdf(y[j]), 1e-8, 1e-5, "cdf with all other coordinates at infinity is the margin")


@sub("P16", st.tuples(marginal(), gen.seeds(), st.integers(1, 30)), 400, 6000, "samples are the inner copula's sample for that seed mapped through each column's own quantile function")
def sampling(t, note):
    c, seed, n = t
    labels(c, note)
    k, inn = build(c), make(c["inner"])
    a = arr(k.random(n, seed=seed))
    check(a.shape == (n, c["inner"]["dim"]), f"sample shape {a.shape}")
    u = arr(inn.random(n, seed=seed))
    want = np.column_stack([frozen(m).ppf(u[:, j]) for j, m in enumerate(c["m"])])
    close(a, want, 1e-10, 1e-12, "sample")
    close(arr(k.random(n, seed=seed)), a, 0, 0, "the same seed again")
    if n > 2:
        check(not np.array_equal(a, arr(k.random(n, seed=seed + 1))), "another seed gave the same sample")


@sub("P16", marginal(), 500, 6000, "params reports type and every parameter in force per column and the inner copula's parameters; summaries show them; specifications stay untouched")
def reporting(c, note):
    from copulae import MarginalCopula
    labels(c, note)
    s = specs(c)
    keep = repr(s)
    k = MarginalCopula(make(c["inner"]), s)
    inn = make(c["inner"])
    p = k.params
    check(set(p) == {"copula", "marginals"}, f"params has keys {sorted(p)}")
    check(len(p["marginals"]) == len(c["m"]) and k.dim == c["inner"]["dim"], f"{len(p['marginals'])} margins, dim {k.dim}")
    for g, m in zip(p["marginals"], c["m"]):
        check(g["type"] == m["name"], f"margin type {g['type']} for {m}")
        check(set(g["parameters"]) == set(full(m)), f"parameters {g['parameters']} for {m}")
        for n, v in full(m).items():
            check(float(g["parameters"][n]) == v, f"parameter {n} is {g['parameters'][n]}, expected {v}")
    a, b = p["copula"], inn.params
    close(np.hstack([np.ravel(arr(x)) for x in (a if isinstance(a, tuple) else (a,))]) if a is not None else np.zeros(0), np.hstack([np.ravel(arr(x)) for x in (b if isinstance(b, tuple) else (b,))]) if b is not None else np.zeros(0), 0, 0, "inner parameters")
    check(repr(s) == keep, "the margin specification changed")
    txt, html = str(k.summary()), k.summary()._repr_html_()
    for g in p["marginals"]:
        check(g["type"] in txt and g["type"] in html, "margin type missing from the summary")
        for n, v in g["parameters"].items():
            check(f"{n}: {v}" in txt and str(v) in html and n in html, f"{n}={v} missing from the summary")


@sub("P16", st.tuples(inner(dims=(2, 3)), st.sampled_from(["short", "long", "unknown", "frozen", "notype", "number", "discrete", "none", "badkey"])), 120, 1500, "wrong margin specifications are rejected")
def rejected(t, note):
    from copulae import MarginalCopula
    c, what = t
    note(what)
    d = c["dim"]
    m = {"short": ["norm"] * (d - 1), "long": ["norm"] * (d + 1), "unknown": ["norm"] * (d - 1) + ["nosuch"], "frozen": [{"type": stats.norm(0, 1)}] * d,
         "notype": [{"parameters": {"loc": 1}}] * d, "number": [1] * d, "discrete": ["poisson"] * d, "none": None, "badkey": {"type": "norm", "parameters": {"sd": 1}}}[what]
    raises(Exception, lambda: MarginalCopula(make(c), m), f"margins {m}")
