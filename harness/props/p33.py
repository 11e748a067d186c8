"""P33: log-likelihoods and summaries report the copula's actual state."""
import ast
import html as htmllib
import re
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gen
import ref
from core import Violation, arr, check, close, fail, raises, sub
from props import p14, p16, p18, p20
from props.p30 import FAMS, build, copulas, points
from props.util import make

ASSUMPTIONS = ["the log densities summed by the oracle are the library's own, one row at a time (other properties check their values)",
               "tables print six decimals and mixture summaries four: printed numbers are compared to that precision",
               "the text summary of a mixture shows its dimension through its mean vectors; a marginal copula's HTML embeds the text summary of its inner copula",
               "fits whose optimiser reports failure (parameters NaN, with a warning) are outside the log-likelihood part"]

NAMES = {"clayton": "Clayton", "frank": "Frank", "gumbel": "Gumbel", "gaussian": "Gaussian", "student": "Student", "indep": "Independent",
         "marginal": "Marginal", "empirical": "Empirical", "gmc": "Gaussian Mixture"}
METHODS = {"ml": "Maximum likelihood", "itau": "Inversion of Kendall Tau Correlation", "irho": "Inversion of Spearman Rho Correlation"}
TIES = ["average", "min", "max", "dense", "ordinal"]


# ---- log-likelihoods ---------------------------------------------------------------------------

def dataset(seed, n, d, kind, labels=None):
    r = gen.rng(seed)
    x = r.normal(size=(n, d)) + r.normal(size=(n, 1)) * r.uniform(0.3, 1.5)
    x = {"smooth": x, "rounded": np.round(x, 1), "coarse": np.round(x), "integer": np.round(3 * x).astype(int), "exp": np.exp(2 * x),
         "one": np.where(r.uniform(size=x.shape) < 0.4, 0.0, x)}[kind]
    return x


@sub("P33", st.tuples(copulas(("clayton", "frank", "gumbel", "gaussian", "student", "indep", "gmc", "empirical", "marginal")), gen.seeds(), st.integers(1, 25),
                      st.sampled_from(["smooth", "rounded", "coarse", "integer", "exp", "one"]), st.sampled_from(TIES),
                      st.sampled_from(["array", "frame", "odd frame"])), 250, 4000,
     "log_lik equals the sum of the log densities of the ranks/(n+1) under every tie rule, arrays or frames; of the data themselves with to_pobs off")
def log_lik(t, note):
    c, seed, n, kind, ties, form = t
    if c["kind"] == "empirical":
        c = {**c, "smooth": "beta"}  # the only smoothing with a density
    cop, d = build(c), c["dim"]
    note(c["kind"], ties, kind)
    x = dataset(seed, n, d, kind)
    data = x if form == "array" else pd.DataFrame(x, columns=[f"c{i}" for i in range(d)] if form == "frame" else list(range(5, 5 + d)), index=np.arange(n)[::-1])

    def total(p):
        return float(np.sum([float(np.ravel(cop.pdf(p[i:i + 1], log=True))[0]) for i in range(len(p))]))

    with np.errstate(all="ignore"):
        u = ref.pobs(x, ties)
        want = total(u)
        tol = 1e-9 * n
        close(float(cop.log_lik(data, ties=ties)), want, 1e-9, tol, f"log_lik with ties={ties}")
        if ties == "average":
            close(float(cop.log_lik(data)), want, 1e-9, tol, "log_lik with the default tie rule")
        p = points(c, n, seed)
        want = total(p)
        q = p if form == "array" else pd.DataFrame(p, columns=data.columns)
        close(float(cop.log_lik(q, to_pobs=False)), want, 1e-9, tol, "log_lik of the data themselves")
        close(float(cop.log_lik(q, to_pobs=False, ties=ties)), want, 1e-9, tol, "log_lik of the data themselves (a tie rule given)")


@st.composite
def matrices(draw):
    """Correlations in [-1, 1]: valid ones, and invalid ones with a clearly negative eigenvalue."""
    d = draw(gen.dims_(3, 6))
    r = gen.rng(draw(gen.seeds()))
    bad = draw(st.booleans())
    if bad:
        for _ in range(200):
            v = r.uniform(-0.99, 0.99, d * (d - 1) // 2)
            if np.linalg.eigvalsh(ref.corr_from_lower(v, d))[0] < -0.02:
                break
        else:
            v = np.full(d * (d - 1) // 2, -0.9)
    else:
        a = r.normal(size=(d, d + 2))
        m = np.cov(a)
        s = np.sqrt(np.diag(m))
        v = np.array(ref.lower(m / np.outer(s, s)))
    return {"fam": draw(st.sampled_from(["gaussian", "student"])), "d": d, "rho": np.round(v, 6).tolist(), "df": draw(gen.logfl(0.5, 60)), "seed": draw(gen.seeds()), "bad": bad}


@sub("P33", matrices(), 150, 2500, "log_lik is minus infinity for correlations that form no correlation matrix, and finite for those that do, however the parameters got there")
def invalid(c, note):
    d = c["d"]
    ev = np.linalg.eigvalsh(ref.corr_from_lower(c["rho"], d))[0]
    if c["bad"] == (ev > -0.01) or (not c["bad"] and ev < 1e-6):
        return
    note("invalid" if c["bad"] else "valid")
    cop = make({"fam": c["fam"], "dim": d, "rho": c["rho"], "df": c["df"]})
    u = gen.rng(c["seed"]).uniform(0.05, 0.95, size=(6, d))
    for to_pobs in (True, False):
        with np.errstate(all="ignore"):
            got = float(cop.log_lik(u, to_pobs=to_pobs))
        if c["bad"]:
            check(got == -np.inf, f"log_lik {got} for correlations with smallest eigenvalue {ev}")
        else:
            check(np.isfinite(got), f"log_lik {got} for a valid correlation matrix (smallest eigenvalue {ev})")
    if c["bad"]:  # and back
        cop.params = np.r_[c["df"], np.zeros(len(c["rho"]))] if c["fam"] == "student" else np.zeros(len(c["rho"]))
        check(np.isfinite(float(cop.log_lik(u))), "log_lik stays infinite after the parameters became valid")


# ---- summaries ---------------------------------------------------------------------------------

NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)"


def plain(h):
    return htmllib.unescape(re.sub(r"<[^>]*>", " ", h))


def numbers(s):
    return [float(x) for x in re.findall(rf"(?<![\w.]){NUM}(?![\w])", s)]


def cells(h):
    return [htmllib.unescape(re.sub(r"<[^>]*>", "", x)).strip() for x in re.findall(r"<t[dh][^>]*>(.*?)</?t[dh]/?>", h, re.S)]


def shows_matrix(text, start, m, what, tol=6e-7):
    """The first len(m)**2 numbers after the heading are the matrix."""
    check(start in text, f"{what}: no '{start}' in {text!r}")
    got = numbers(text.split(start, 1)[1])[:m.size]
    check(len(got) == m.size, f"{what}: {len(got)} entries shown, expected {m.size}")
    close(np.array(got).reshape(m.shape), m, 0, tol, f"{what}: the matrix shown")


def shows_value(text, label, v, what):
    m = re.search(re.escape(label) + rf"\s*:?\s*({NUM})", text)
    check(m is not None, f"{what}: no value shown for '{label}' in {text!r}")
    close(float(m.group(1)), float(v), 1e-9, 1e-300, f"{what}: {label}")


def shows_params(kind, cop, text, what):
    p = cop.params
    if kind in ("clayton", "frank", "gumbel"):
        shows_value(text, "theta", p, what)
    elif kind == "gaussian":
        shows_matrix(text, "Correlation Matrix", ref.corr_from_lower(np.ravel(p), cop.dim), what)
    elif kind == "student":
        shows_value(text, "Degree of Freedom", p.df, what)
        shows_matrix(text, "Correlation Matrix", ref.corr_from_lower(np.ravel(p.rho), cop.dim), what)


def shows_mixture(cop, text, html, what):
    p = cop.params
    comps = text.split("Component ")[1:]
    check(len(comps) == p.n_clusters, f"{what}: {len(comps)} components shown, expected {p.n_clusters}")
    for i, s in enumerate(comps):
        pr = re.search(rf"Probability\s*:\s*({NUM})", s)
        me = re.search(r"Mean\s*:\s*(\[[^\]]*\])", s)
        co = re.search(r"Covariance\s*:\s*(\[\[.*?\]\])", s, re.S)
        check(pr and me and co, f"{what}: component {i} shown as {s!r}")
        close(float(pr.group(1)), float(p.prob[i]), 0, 6e-5, f"{what}: weight {i}")
        close(np.array(ast.literal_eval(me.group(1))), arr(p.means[i]), 0, 6e-5, f"{what}: mean {i}")
        close(np.array(ast.literal_eval(re.sub(r"\s+", " ", co.group(1)))), arr(p.covs[i]), 0, 6e-5, f"{what}: covariance {i}")
    check(f"{p.n_clusters} components" in html and f"{p.n_dim} dimensions" in html, f"{what}: HTML does not show {p.n_clusters} components and {p.n_dim} dimensions")
    tables = re.findall(r"<table.*?</table>", html, re.S)
    check(len(tables) >= 2 + p.n_clusters, f"{what}: HTML has {len(tables)} tables")
    for h, v, name in [(tables[0], arr(p.prob), "weights"), (tables[1], arr(p.means), "means")] + [(tables[2 + i], arr(p.covs[i]), f"covariance {i}") for i in range(p.n_clusters)]:
        got = np.array([float(x) for x in cells(h)])
        scale = 6e-6 * max(1.0, float(np.abs(v).max()))
        check(got.size == v.size, f"{what}: HTML {name} has {got.size} numbers")
        close(got.reshape(v.shape), v, 0, scale, f"{what}: HTML {name}")


def shows_margins(cop, text, html, what):
    blocks = re.findall(r"Dist Type: (\S+)\n((?:\t.*\n)*)", text)
    want = cop.params["marginals"]
    check(len(blocks) == len(want), f"{what}: {len(blocks)} margins shown, expected {len(want)}")
    for i, ((name, ps), w) in enumerate(zip(blocks, want)):
        check(name == w["type"], f"{what}: margin {i} shown as {name}, is {w['type']}")
        got = {k.strip(): float(v) for k, v in (l.split(":", 1) for l in ps.strip().split("\n"))}
        check(got.keys() == w["parameters"].keys(), f"{what}: margin {i} shows {sorted(got)}")
        for k, v in w["parameters"].items():
            close(got[k], float(v), 1e-9, 1e-300, f"{what}: margin {i} {k}")
    tables = re.findall(r"<table>.*?</table>", html, re.S)
    check(len(tables) >= len(want), f"{what}: HTML has {len(tables)} margin tables")
    for i, (h, w) in enumerate(zip(tables, want)):
        x = cells(h)
        k = len(x) // 2
        check(x[k] == w["type"] and x[1:k] == list(w["parameters"]), f"{what}: HTML margin {i}: {x}")
        close(np.array([float(v) for v in x[k + 1:]]), np.array([float(v) for v in w["parameters"].values()]), 1e-9, 1e-300, f"{what}: HTML margin {i}")


def summary_ok(kind, cop, what, extra=None):
    s = cop.summary()
    text, html = str(s), s._repr_html_()
    check(repr(s) == text and s.as_html() == html, f"{what}: str/repr or as_html/_repr_html_ disagree")
    name = NAMES[kind]
    for t, how in ((text, "text"), (plain(html), "HTML")):
        check(f"{name} Copula Summary" in t, f"{what}: {how} does not name the {name} copula: {t[:200]!r}")
        if kind != "gmc":
            check(re.search(rf"{name} Copula with {cop.dim} dimensions", t), f"{what}: {how} does not show dimension {cop.dim}: {t[:300]!r}")
            shows_params(kind, cop, t, f"{what} ({how})")
    if kind == "gmc":
        shows_mixture(cop, text, html, what)
    elif kind == "marginal":
        shows_margins(cop, text, html, what)
        k, inner = extra
        for t, how in ((text, "text"), (plain(html), "HTML")):
            t = t.split("Inner Joint Copula", 1)[1]
            check(f"{NAMES[k]} Copula with {inner.dim} dimensions" in t, f"{what}: {how} does not show the inner copula")
            shows_params(k, inner, t, f"{what}: inner copula ({how})")
    elif kind == "empirical":
        for t in (text, plain(html)):
            for label, v in (("Dimensions", str(cop.dim)), ("Ties method", cop.ties), ("Smoothing", cop.smoothing)):
                check(v is None or re.search(rf"{label}\s*:?\s*{re.escape(str(v))}\b", t), f"{what}: {label} {v} not shown in {t!r}")


def inner_of(c, cop):
    return (c["c"]["inner"]["fam"], cop._copula) if c["kind"] == "marginal" else None


@sub("P33", copulas(dims=(2, 6)), 200, 3000, "summary() shows name, dimension and parameters in text and HTML, for every class")
def summaries(c, note):
    note(c["kind"])
    cop = build(c)
    summary_ok(c["kind"], cop, "summary()", inner_of(c, cop))
    if c["kind"] not in ("empirical", "indep"):
        from copulae.copula.exceptions import NotFittedError
        raises(NotFittedError, lambda: cop.summary("fit"), "summary('fit') before any fit")
    raises(ValueError, lambda: cop.summary("nonsense"), "summary of an unknown category")


# ---- after fits --------------------------------------------------------------------------------

FITTABLE = {"clayton": ["ml", "itau"], "frank": ["ml", "itau"], "gumbel": ["ml", "itau"], "gaussian": ["ml", "itau", "irho"], "student": ["ml", "itau"],
            "marginal": ["ml", "itau"], "gmc": ["kmeans", "pem", "sgd"]}


def training(seed, n, d):
    r = gen.rng(seed)
    a = r.uniform(0.4, 1.2)
    return r.normal(size=(n, d)) + a * r.normal(size=(n, 1)) * 1.2


def fit(c, cop, x, how, scale=1.0, ties="average"):
    """Fit quietly; returns True when the optimiser succeeded (parameters are numbers)."""
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        if c["kind"] == "gmc":
            opts = {"options": {"maxiter": 2}} if how == "sgd" else None
            cop.fit(x, method=how, verbose=0, optim_options=opts, ties=ties, max_iter=15)
        else:
            cop.fit(x, method=how, verbose=0, scale=scale, ties=ties)
    p = getattr(cop._fit_smry, "params", None)
    return p is None or not np.isnan(np.ravel(p)).any()


def fit_summary_ok(c, cop, x, how, ties, good, what):
    s = cop.summary("fit")
    text, html = str(s), s._repr_html_()
    check(repr(s) == text and s.as_html() == html, f"{what}: str/repr or as_html/_repr_html_ disagree")
    x1 = cells(html)
    rows = dict(zip(x1[1::2], x1[2::2]))
    lines = dict((a.strip(), b.strip()) for a, b in (l.split(":", 1) for l in text.split("\n") if ":" in l))
    kind = inner_of(c, cop)[0] if c["kind"] == "marginal" else c["kind"]
    method = METHODS.get(how, how)
    for v, where in ((lines, "text"), (rows, "HTML")):
        check(v.get("Method") == method, f"{what}: {where} shows method {v.get('Method')!r}, fitted by {method!r}")
        check(v.get("Data Points") == str(len(x)), f"{what}: {where} shows {v.get('Data Points')} data points, fitted to {len(x)}")
    check(s.method == method and s.nsample == len(x), f"{what}: attributes method={s.method!r}, nsample={s.nsample}")
    u = ref.pobs(x, ties)
    if kind == "gmc":
        p = cop.params
        if how == "pem":
            from copulae.mixtures.gmc.loglik import gmcm_log_likelihood
            want = float(gmcm_log_likelihood(u, p))
            for v in (lines, rows):
                close(float(v["Log. Likelihood"]), want, 1e-6, 1e-6, f"{what}: Log. Likelihood")
                check(v["Criteria"] == "GMCM", f"{what}: criteria {v['Criteria']}")
        elif how == "kmeans":
            for v in (lines, rows):
                check(v["ties"] == ties and float(v["Inertia"]) >= 0, f"{what}: {v}")
        for a, b in zip(p18.state(s.best_params), p18.state(p)):
            close(a, b, 1e-9, 1e-12, f"{what}: best_params and the copula's parameters")
        return
    joint = cop._copula if c["kind"] == "marginal" else cop
    if not good:
        return
    with np.errstate(all="ignore"):
        want = float(joint.log_lik(u, to_pobs=False))
    tol = 1e-7
    for v, where in ((lines.get("Log. Likelihood"), "text"), (rows.get("Log Likelihood"), "HTML"), (s.log_lik, "log_lik")):
        check(v is not None, f"{what}: {where} shows no log-likelihood")
        close(float(v), want, tol, tol, f"{what}: log-likelihood in {where}")
    got = np.ravel(s.params)
    p = joint.params
    if kind == "student":
        p = np.r_[p.df, np.ravel(p.rho)] if len(got) == 1 + len(np.ravel(p.rho)) else np.ravel(p.rho)
    close(np.asarray(got, float), np.ravel(np.asarray(p, float)), 1e-9, 1e-12, f"{what}: params of the fit summary")


@sub("P33", st.tuples(copulas(tuple(FITTABLE), dims=(2, 3)).flatmap(
        lambda c: st.tuples(st.just(c), st.sampled_from([m for m in FITTABLE[c["kind"]]]))), gen.seeds(), st.integers(20, 60),
        st.sampled_from([1.0, 1.0, 10.0, 0.5]), st.sampled_from(["average", "min", "ordinal"])), 200, 2000,
     "after a fit by every method, summary('fit') shows method, sample size and the log-likelihood at the fitted parameters; summary() the fitted parameters")
def fits(t, note):
    (c, how), seed, n, scale, ties = t
    if c["kind"] == "marginal" and c["c"]["inner"]["fam"] == "indep" or c["kind"] == "gmc" and how == "sgd" and (c["p"]["m"] > 2 or c["dim"] > 2):
        return
    cop = build(c)
    x = training(seed, n, c["dim"])
    if seed % 3 == 0:
        x = np.round(x, 1)
    try:
        good = fit(c, cop, x, how, scale, ties)
    except Exception as e:
        if type(e).__name__ == "FitException" or "NaN" in str(e) or "must be" in str(e) or c["kind"] == "gmc":
            return note("no fit")
        raise
    note(c["kind"], how, "converged" if good else "failed")
    fit_summary_ok(c, cop, x, how, ties, good, f"fit by {how}")
    if good:
        summary_ok(c["kind"], cop, f"summary() after a fit by {how}", inner_of(c, cop))


def new_params(kind, d, seed):
    r = gen.rng(seed)
    if kind in ("clayton", "frank"):
        return float(np.round(r.uniform(0.2, 6), 4))
    if kind == "gumbel":
        return float(np.round(r.uniform(1.1, 6), 4))
    a = r.normal(size=(d, d + 3))
    m = np.corrcoef(a)
    v = np.round(np.array(ref.lower(m)), 5)
    return np.r_[float(np.round(r.uniform(1, 20), 3)), v] if kind == "student" else v


OPS = st.one_of(st.tuples(st.just("set"), gen.seeds()), st.tuples(st.just("fit"), gen.seeds(), st.sampled_from(["ml", "itau"]), st.integers(15, 40)),
                st.tuples(st.just("bad fit"), gen.seeds()), st.tuples(st.just("queries"), gen.seeds()), st.tuples(st.just("other"), gen.seeds()))


@sub("P33", st.tuples(copulas(("clayton", "frank", "gumbel", "gaussian", "student"), dims=(2, 3)), st.lists(OPS, min_size=2, max_size=6)), 140, 1500,
     "over histories of parameter changes, fits, rejected fits, queries and work on other copulas, summary() shows the current parameters and summary('fit') the last fit")
def histories(t, note):
    c, ops = t
    kind, d = c["kind"], c["dim"]
    cop, other = build(c), build(c)
    last = None
    for i, op in enumerate(ops):
        what = f"after step {i} ({op[0]})"
        if op[0] == "set":
            cop.params = new_params(kind, d, op[1])
        elif op[0] == "fit":
            x = training(op[1], op[3], d)
            try:
                good = fit(c, cop, x, op[2])
            except ValueError as e:  # weak dependence: no parameter of the family
                note("rejected fit")
                return
            fit_summary_ok(c, cop, x, op[2], "average", good, what)
            if not good:
                return note("no convergence")
            s = cop.summary("fit")
            last = (str(s), s._repr_html_())
            note(kind, op[2])
        elif op[0] == "bad fit":
            x = training(op[1], 20, d + 1)
            try:
                cop.fit(x, verbose=0)
                fail(f"{what}: data of {d + 1} columns accepted")
            except Violation:
                raise
            except Exception:
                pass
        elif op[0] == "queries":
            u = gen.rng(op[1]).uniform(0.05, 0.95, size=(5, d))
            cop.pdf(u), cop.random(3, op[1] % 1000), cop.log_lik(u)
        else:
            other.params = new_params(kind, d, op[1])
            x = training(op[1], 25, d)
            try:
                fit(c, other, x, "ml")
            except ValueError:
                pass
        summary_ok(kind, cop, what)
        if last is not None:
            s = cop.summary("fit")
            check((str(s), s._repr_html_()) == last, f"{what}: the summary of the last fit changed")
        else:
            from copulae.copula.exceptions import NotFittedError
            raises(NotFittedError, lambda: cop.summary("fit"), f"{what}: summary('fit') before any fit")
