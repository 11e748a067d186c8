"""P18: Gaussian mixture parameters survive every representation."""
import numpy as np
from hypothesis import strategies as st

import gen
from core import arr, check, close, raises, sub

ASSUMPTIONS = ["weights of exactly 0 or 1 have no finite log-odds and come back within 1e-4", "vector layout: log-odds of the weights, means by component, upper triangles of the covariances by row"]


@st.composite
def params(draw, clusters=(1, 4), dims=(2, 4), easy=False):
    m, d = draw(st.integers(*clusters)), draw(gen.dims_(*dims))
    r = gen.rng(draw(gen.seeds()))
    kind = draw(st.sampled_from(["even", "random", "random"] + ([] if easy else ["tiny", "zero", "skew"])))
    w = np.full(m, 1 / m) if kind == "even" else r.dirichlet(np.full(m, 3.0))
    if kind == "tiny" and m > 1:
        w = r.dirichlet(np.ones(m)) * 10.0 ** -r.uniform(0, 9, m)
        w[0] = 1 - w[1:].sum()
    elif kind == "zero" and m > 1:
        w[-1] = 0
        w /= w.sum()
    elif kind == "skew":
        w = r.dirichlet(np.full(m, 0.3)) * 0.999 + 0.001 / m
    w = w / w.sum()
    mu = r.normal(size=(m, d)) * draw(st.sampled_from([0.0, 1.0, 3.0] if easy else [0.0, 1.0, 3.0, 100.0]))
    covs = []
    for _ in range(m):
        a = r.normal(size=(d, d + 2))
        s = 10.0 ** r.uniform(-0.3, 0.3, d) if easy else 10.0 ** r.uniform(-1.5, 1.5, d)
        c = a @ a.T / (d + 2) * np.outer(s, s)
        covs.append(((c + c.T) / 2).tolist())
    return {"m": m, "d": d, "prob": w.tolist(), "means": mu.tolist(), "covs": covs}


def make(p, containers="array"):
    from copulae.mixtures.gmc import GMCParam
    f = {"array": np.array, "list": lambda x: x, "F": lambda x: np.asfortranarray(x)}[containers]
    return GMCParam(p["m"], p["d"], f(p["prob"]), f(p["means"]), f(p["covs"]))


def state(q):
    return np.array(q.prob, float), np.array(q.means, float), np.array(q.covs, float)


def same(q, p, what, rtol=1e-9, wtol=1e-12):
    close(arr(q.prob), np.array(p["prob"]), rtol, wtol, f"{what}: weights")
    close(arr(q.means), np.array(p["means"]), 1e-12, 0, f"{what}: means")
    close(arr(q.covs), np.array(p["covs"]), 1e-12, 0, f"{what}: covariances")
    check(q.n_clusters == p["m"] and q.n_dim == p["d"], f"{what}: sizes {q.n_clusters}, {q.n_dim}")
    check(abs(float(np.sum(q.prob)) - 1) < 1e-12, f"{what}: weights sum to {np.sum(q.prob)}")


def encode(p):
    w = np.array(p["prob"])
    d = p["d"]
    with np.errstate(all="ignore"):
        return np.r_[np.log(w) - np.log1p(-w), np.ravel(p["means"]), [c[i][j] for c in p["covs"] for i in range(d) for j in range(i, d)]]


@sub("P18", st.tuples(params(), st.sampled_from(["array", "list", "F"])), 1200, 15000, "parameter -> vector / dictionary -> parameter; vector layout; the object converted and the caller's containers are unchanged")
def roundtrip(t, note):
    from copulae.mixtures.gmc import GMCParam
    p, cont = t
    note(f"m{p['m']}", f"d{p['d']}", cont)
    degenerate = min(p["prob"]) == 0 or max(p["prob"]) == 1
    note("degenerate weights") if degenerate else None
    q = make(p, cont)
    same(q, p, "constructed")
    before = state(q)
    v = q.to_vector()
    for a, b, n in zip(state(q), before, ("weights", "means", "covariances")):
        check(np.array_equal(a, b), f"to_vector changed the {n}: {b.tolist()} -> {a.tolist()}")
    check(np.shape(v) == (p["m"] * (1 + p["d"] + p["d"] * (p["d"] + 1) // 2),), f"vector shape {np.shape(v)}")
    check(np.isfinite(arr(v)).all(), "vector is not finite")
    e = encode(p)
    if not degenerate:
        close(arr(v), e, 1e-7, 1e-7, "vector form")
    else:
        close(arr(v)[p["m"]:], e[p["m"]:], 1e-12, 0, "vector form (means and covariances)")
    keep = np.array(v)
    for w in (v, list(v), tuple(v)):
        same(GMCParam.from_vector(w, p["m"], p["d"]), p, "through the vector", 1e-7, 1e-4 if degenerate else 1e-12)
    check(np.array_equal(v, keep), "from_vector changed the vector")
    same(make(p, cont), p, "same input again")
    back = GMCParam.from_dict({"prob": p["prob"], "means": p["means"], "covs": p["covs"]})
    same(back, p, "through the dictionary")
    same(GMCParam.from_dict({"prob": q.prob, "means": q.means, "covs": q.covs}), p, "dictionary of arrays")
    # containers of different types: whole numbers in some of the fields
    whole = {"means": np.round(np.array(p["means"])).astype(int)}
    if cont != "F":
        whole["covs"] = np.array([np.eye(p["d"], dtype=int) * (i + 1) for i in range(p["m"])])
    if cont == "list":
        whole = {k: v.tolist() for k, v in whole.items()}
    mixed = {**p, **{k: np.asarray(v, float).tolist() for k, v in whole.items()}}
    for one in ([k] for k in whole):
        w = {**p, **{k: mixed[k] for k in one}}
        given = {k: whole[k] if k in one else p[k] for k in ("prob", "means", "covs")}
        same(GMCParam.from_dict(given), w, f"dictionary with whole numbers as {one[0]}")
        same(GMCParam(p["m"], p["d"], given["prob"], given["means"], given["covs"]), w, f"whole numbers as {one[0]}")
    it = list(q)
    check(len(it) == p["m"], "iteration")
    for i, (a, b, c) in enumerate(it):
        close(arr(a), np.array(p["prob"][i]), 1e-12, 1e-15, "iterated weight")
        check(np.array_equal(b, p["means"][i]) and np.allclose(c, p["covs"][i], rtol=1e-12, atol=0), "iterated component")
    ns = {"GMCParam": GMCParam}
    same(eval(repr(q), ns), p, "repr")
    txt = str(q)
    check(txt.count("Component") == p["m"], "str does not list the components")


@st.composite
def vectors(draw):
    m, d = draw(st.integers(1, 4)), draw(st.integers(2, 4))
    scale = draw(st.sampled_from([1.0, 1.0, 30.0, 800.0]))
    w = draw(st.lists(gen.fl(-scale, scale), min_size=m, max_size=m))
    mu = draw(st.lists(gen.fl(-50, 50), min_size=m * d, max_size=m * d))
    r = gen.rng(draw(gen.seeds()))
    k = d * (d + 1) // 2
    kind = draw(st.sampled_from(["pd", "indef", "any"]))
    cov = []
    for _ in range(m):
        if kind == "pd":
            a = r.normal(size=(d, d + 1))
            c = a @ a.T
        else:
            c = np.eye(d) * (10.0 ** r.uniform(-1, 1, d)) if kind == "indef" else np.diag(r.normal(size=d))
            o = r.uniform(-2, 2, (d, d))
            c = c + np.triu(o, 1) + np.triu(o, 1).T
        cov += [float(c[i, j]) for i in range(d) for j in range(i, d)]
    assert len(cov) == m * k
    return {"m": m, "d": d, "kind": kind, "v": [*w, *mu, *cov]}


@sub("P18", vectors(), 900, 12000, "every vector of the right length decodes to valid parameters (weights summing to one, PSD covariances, given means) whose encoding decodes to the same parameters; wrong lengths are rejected")
def decoding(c, note):
    from copulae.mixtures.gmc import GMCParam
    m, d, v = c["m"], c["d"], c["v"]
    note(f"m{m}", f"d{d}", c["kind"])
    q = GMCParam.from_vector(v, m, d)
    w, mu, cov = state(q)
    check(np.isfinite(w).all() and np.isfinite(cov).all() and np.isfinite(mu).all(), f"decoded parameters are not finite: {w}, {cov}")
    check((w >= 0).all() and abs(w.sum() - 1) < 1e-12, f"weights {w}")
    lv = np.array(v[:m])
    lw = -np.logaddexp(0, -lv)
    ww = np.exp(lw - lw.max())
    close(w, ww / ww.sum(), 1e-7, 1e-14, "weights")
    check(np.array_equal(mu.ravel(), v[m:m + m * d]), "means")
    for i in range(m):
        s = np.zeros((d, d))
        k = d * (d + 1) // 2
        it = iter(v[m + m * d + i * k:m + m * d + (i + 1) * k])
        for a in range(d):
            for b in range(a, d):
                s[a, b] = s[b, a] = next(it)
        g = cov[i]
        check(np.array_equal(g, g.T) or np.allclose(g, g.T, rtol=1e-12), f"covariance {g.tolist()} is not symmetric")
        ev = np.linalg.eigvalsh(s)
        sc = max(1e-6, np.abs(g).max())
        check(np.linalg.eigvalsh(g)[0] > -1e-7 * sc, f"covariance {g.tolist()} is not PSD")
        if ev[0] > 1e-9 * sc:
            close(g, s, 1e-12, 0, "covariance")
        elif (np.diag(s) > 0).all():
            close(np.diag(g), np.diag(s), 1e-7, 0, "variances of the repaired covariance")
    again = GMCParam.from_vector(q.to_vector(), m, d)
    lim = 1e-4 if w.min() == 0 or w.max() == 1 else 1e-12
    close(again.prob, w, 1e-7, lim, "weights decoded again")
    close(again.means, mu, 0, 0, "means decoded again")
    close(again.covs, cov, 1e-9, 1e-9 * max(1, np.abs(cov).max()), "covariances decoded again")
    for bad in (v[:-1], v[:-2], v + [1.0], v + [0.1] * (d * (d + 1) // 2), v[:m]):
        raises(Exception, lambda: GMCParam.from_vector(bad, m, d), f"a vector of {len(bad)} instead of {len(v)} elements")


@sub("P18", st.tuples(params(), st.sampled_from(["few", "many", "sum", "negative", "above", "nan", "means rows", "means cols", "means flat", "covs few", "covs dim", "asymmetric", "cov nan", "negvar", "sum little"])), 500, 6000,
     "invalid weights, shapes and covariances are rejected by construction, assignment and from_dict, and leave the object as it was")
def invalid(t, note):
    from copulae.mixtures.gmc import GMCParam
    p, what = t
    note(what)
    m, d = p["m"], p["d"]
    q = make(p)
    w, mu, c = [np.array(p[k]) for k in ("prob", "means", "covs")]
    if what == "few":
        w = w[:-1]
    elif what == "many":
        w = np.r_[w, 0.0]
    elif what == "sum":
        w = w * 0.9
    elif what == "sum little":
        w = w * 1.001
    elif what in ("negative", "above"):
        if m == 1:
            w = np.array([-1.0 if what == "negative" else 2.0])
        else:
            w[0], w[1] = (-0.2, w[1] + w[0] + 0.2) if what == "negative" else (1.2, w[1] + w[0] - 1.2)
    elif what == "nan":
        w[0] = np.nan
    elif what == "means rows":
        mu = np.vstack([mu, mu[:1]])
    elif what == "means cols":
        mu = mu[:, :-1]
    elif what == "means flat":
        mu = mu.ravel()
    elif what == "covs few":
        c = c[:-1] if m > 1 else np.repeat(c, 2, 0)
    elif what == "covs dim":
        c = c[:, :-1, :-1]
    elif what == "asymmetric":
        c[-1, 0, 1] += 0.5 * np.sqrt(c[-1, 0, 0] * c[-1, 1, 1])
    elif what == "cov nan":
        c[0, 0, 1] = c[0, 1, 0] = np.nan
    elif what == "negvar":
        c[0, 0, 0] = -c[0, 0, 0]
    raises(Exception, lambda: GMCParam(m, d, w, mu, c), f"constructing with {what}")
    raises(Exception, lambda: GMCParam(m, d, w.tolist(), mu.tolist(), c.tolist()), f"constructing from lists with {what}")
    before = state(q)
    def assign():
        if not np.array_equal(w, p["prob"]):
            q.prob = w
        elif not np.array_equal(mu, p["means"]):
            q.means = mu
        else:
            q.covs = c
    raises(Exception, assign, f"assigning {what}")
    for a, b in zip(state(q), before):
        check(np.array_equal(a, b), f"a rejected assignment ({what}) changed the parameter")
    from copulae import GaussianMixtureCopula
    raises(Exception, lambda: GaussianMixtureCopula(m, d, {"prob": w, "means": mu, "covs": c}), f"copula with {what}")


@sub("P18", st.tuples(params(), params(), st.sampled_from(["param", "dict", "dictarray", "vector", "list"]), st.booleans()), 500, 6000,
     "a copula given parameters in any form reports the same ones, rejects other sizes, and shares nothing with the caller or another copula")
def copula(t, note):
    from copulae import GaussianMixtureCopula
    p, other, form, assign = t
    note(form)
    def forms(p):
        if form == "param":
            return make(p)
        if form == "dict":
            return {k: p[k] for k in ("prob", "means", "covs")}
        if form == "dictarray":
            return {k: np.array(p[k]) for k in ("prob", "means", "covs")}
        v = make(p).to_vector()
        return list(v) if form == "list" else v
    degenerate = min(p["prob"]) == 0 or max(p["prob"]) == 1
    arg = forms(p)
    def construct(a):
        if assign:
            k = GaussianMixtureCopula(p["m"], p["d"])
            check(k.params is None, "parameters of an empty copula")
            k.params = a
            return k
        return GaussianMixtureCopula(p["m"], p["d"], a)
    k, k2 = construct(arg), construct(arg)
    wt = 1e-4 if degenerate and form in ("vector", "list") else 1e-12
    same(k.params, p, f"copula given a {form}", 1e-7, wt)
    check(k.dim == p["d"] and k.clusters == p["m"], "sizes")
    k2.params.means[...] = -7.0
    k2.params.prob[...] = 1 / p["m"]
    k2.params.covs[...] = np.eye(p["d"])
    same(k.params, p, "after changing another copula's parameters", 1e-7, wt)
    if form == "param":
        same(arg, p, "caller's parameter object after changing a copula")
        arg.means[...] = 3.0
    elif form == "dictarray":
        for n in arg:
            check(np.array_equal(arg[n], p[n]), f"caller's {n} changed")
            arg[n][...] = 0.25
    elif form == "vector":
        arg[...] = 0.5
    same(k.params, p, "after changing the caller's object", 1e-7, wt)
    if (other["m"], other["d"]) != (p["m"], p["d"]):
        bad = forms(other)
        if np.ndim(bad) == 1 and len(bad) == len(make(p).to_vector()):
            return
        raises(Exception, lambda: setattr(k, "params", bad), f"{form} of {other['m']} components and {other['d']} dimensions for {p['m']} and {p['d']}")
        same(k.params, p, "after a rejected assignment", 1e-7, wt)
