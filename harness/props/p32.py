"""P32: queries are pure; copulas are independent of each other and of caller data."""
import copy
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gen
from core import arr, check, close, fail, same_bits, sub
from props import p14, p16, p18, p30

ASSUMPTIONS = ["the Gaussian distribution function above two dimensions is a randomised integral: repeated answers compared at 2e-3",
               "a MarginalCopula is given an inner copula nobody else uses (it is documented to hold and fit that object)",
               "deliberately writing into an array that a query returned is not a query and is outside the property"]


def quiet(f, *a, **k):
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def freeze(v):
    """deep, comparable copy of a value"""
    if isinstance(v, (pd.DataFrame, pd.Series)):
        return ("frame", [str(q) for q in v.axes], v.to_numpy().copy())
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, dict):
        return {q: freeze(w) for q, w in v.items()}
    if isinstance(v, (list, tuple)):
        return [freeze(w) for w in v]
    if hasattr(v, "prob") and hasattr(v, "covs"):
        return [v.prob.copy(), v.means.copy(), v.covs.copy()]
    if isinstance(v, (int, float, str, type(None), np.generic)):
        return v
    return str(v)


def equal(a, b, what, tol=0):
    if isinstance(a, (list, tuple)):
        check(isinstance(b, (list, tuple)) and len(a) == len(b), f"{what}: {len(a)} items became {b if not isinstance(b, (list, tuple)) else len(b)}")
        for x, y in zip(a, b):
            equal(x, y, what, tol)
    elif isinstance(a, dict):
        check(isinstance(b, dict) and list(a) == list(b), f"{what}: keys changed")
        for q in a:
            equal(a[q], b[q], what, tol)
    elif isinstance(a, str) or a is None:
        check(a == b, f"{what}: {str(a)[:150]} became {str(b)[:150]}")
    elif tol:
        close(arr(b), arr(a), tol, tol, what)
    else:
        same_bits(np.asarray(a), np.asarray(b), what)


# ---------------------------------------------------------------- queries
def queries(k, c):
    """name -> function of (k, data, unit, seed). data: evaluation rows, unit: vector in (0, 1)."""
    kind, d = c["kind"], c["dim"]
    q = {}
    for f, log in p30.functions(c):
        q[f"{f}{' log' if log else ''}"] = (lambda k, x, u, s, f=f, log=log: getattr(k, f)(x, log), 5e-3 if p30.tolerance(c, f) > 1e-6 else 0)
    if p30.tolerance(c, "cdf") > 1e-6:
        q.pop("cdf log", None)
    q["random"] = (lambda k, x, u, s: k.random(4, seed=s % 1000), 0)
    q["summary"] = (lambda k, x, u, s: (str(k.summary()), k.summary().as_html()), 0)
    q["attributes"] = (lambda k, x, u, s: (k.dim, k.name, str(k.bounds)), 0)
    q["pobs"] = (lambda k, x, u, s: k.pobs(x), 0)
    if kind not in ("empirical", "gmc"):
        q["log_lik"] = (lambda k, x, u, s: k.log_lik(x, to_pobs=kind != "marginal" and s % 2 == 0, ties=["average", "min", "max"][s % 3]), 0)
    if kind in ("clayton", "frank", "gumbel"):
        q |= {"psi": (lambda k, x, u, s: k.psi(u), 0), "ipsi": (lambda k, x, u, s: k.ipsi(u), 0), "ipsi log": (lambda k, x, u, s: k.ipsi(u, True), 0), "dipsi": (lambda k, x, u, s: k.dipsi(u, 1), 0),
              "dipsi 2 log": (lambda k, x, u, s: k.dipsi(u, 2, True), 0), "itau": (lambda k, x, u, s: k.itau(u[:3]), 0), "tau": (lambda k, x, u, s: k.tau, 0), "lambda_": (lambda k, x, u, s: tuple(k.lambda_), 0),
              "psi of a matrix": (lambda k, x, u, s: k.psi(np.abs(x)), 0)}
        if kind == "gumbel":
            q |= {"A": (lambda k, x, u, s: k.A(u), 0), "dAdu": (lambda k, x, u, s: np.asarray(k.dAdu(u)), 0)}
        if kind == "frank":
            q |= {"rho": (lambda k, x, u, s: k.rho, 0), "drho": (lambda k, x, u, s: k.drho(), 0), "dtau": (lambda k, x, u, s: k.dtau(u), 0)}
        if kind != "frank":
            q["dtau"] = (lambda k, x, u, s: k.dtau(u + 1), 0)
    if kind in ("gaussian", "student"):
        q |= {"sigma": (lambda k, x, u, s: k.sigma, 0), "tau": (lambda k, x, u, s: k.tau, 0), "rho": (lambda k, x, u, s: k.rho, 0), "lambda_": (lambda k, x, u, s: tuple(k.lambda_), 0),
              "itau": (lambda k, x, u, s: k.itau(u), 0), "dtau": (lambda k, x, u, s: k.dtau(u), 0), "drho": (lambda k, x, u, s: k.drho(u), 0), "dtau own": (lambda k, x, u, s: k.dtau(), 0),
              "drho own": (lambda k, x, u, s: k.drho(), 0), "item": (lambda k, x, u, s: (k[0, 1], k[0], k[:], k[:, 1]), 0)}
    if kind == "gaussian":
        q["irho"] = (lambda k, x, u, s: k.irho(u), 0)
    if kind == "empirical":
        q |= {"data": (lambda k, x, u, s: k.data, 0), "to_marginals": (lambda k, x, u, s: k.to_marginals(x, k.data), 0)}
    if kind == "gmc":
        q |= {"vector": (lambda k, x, u, s: k.params.to_vector(), 0), "text": (lambda k, x, u, s: (str(k.params), k.clusters), 0)}
    return q


def new_params(c, seed):
    """another admissible parameter set, as caller-owned containers"""
    r = gen.rng(seed)
    k, d = c["kind"], c["dim"]
    if k == "clayton":
        return float(r.uniform(0.1, 5))
    if k == "frank":
        return float(r.uniform(0.5, 12))
    if k == "gumbel":
        return float(r.uniform(1, 5))
    if k in ("gaussian", "student"):
        b = r.uniform(-0.7, 0.7, d)
        m = np.outer(b, b)
        rho = m[np.triu_indices(d, 1)]
        m = {(i, j): b[i] * b[j] for i in range(d) for j in range(i)}
        rho = np.array([m[i, j] for j in range(d) for i in range(j + 1, d)])
        if k == "gaussian":
            return rho
        from copulae.elliptical.student import StudentParams
        return np.r_[r.uniform(1, 20), rho] if seed % 2 else StudentParams(float(r.uniform(1, 20)), rho)
    if k == "gmc":
        m = c["p"]["m"]
        cov = np.array([np.diag(r.uniform(0.3, 2, d)) for _ in range(m)])
        p = {"prob": r.dirichlet(np.full(m, 4.0)), "means": r.normal(size=(m, d)), "covs": cov}
        return p if seed % 3 == 0 else p18.make({"m": m, "d": d, **p}) if seed % 3 == 1 else p18.make({"m": m, "d": d, **p}).to_vector()
    return None


def scribble(v, r):
    """overwrite every caller-owned array of a parameter container"""
    if isinstance(v, np.ndarray) and v.flags.writeable:
        v[...] = r.uniform(0.1, 0.2, v.shape)
    elif isinstance(v, dict):
        for q in v:
            scribble(v[q], r)
    elif isinstance(v, tuple):
        for q in v:
            scribble(q, r)
    elif hasattr(v, "prob") and hasattr(v, "covs"):
        v.prob[...] = 0.5
        v.means[...] = 7
        v.covs[...] = 9
        v.means = v.means * 2


class World:
    def __init__(self, cs, seed):
        self.cs = cs
        self.r = gen.rng(seed)
        self.ks = [quiet(p30.build, c) for c in cs]
        self.version = [0] * len(cs)
        self.answers = {}
        self.owned = []  # caller arrays: one evaluation matrix per copula (shared by copulas of one dimension), in several layouts
        self.frozen_params = [freeze(k.params) for k in self.ks]
        byd = {}
        for c in cs:
            key = (c["dim"], c["kind"] in ("marginal", "gmc"))
            if key not in byd:
                x = p30.points(c, 4, seed + len(byd))
                f = len(byd) % 4
                byd[key] = np.asfortranarray(x) if f == 1 else pd.DataFrame(x, columns=[f"c{i}" for i in range(c["dim"])]) if f == 2 else x
            self.owned.append(byd[key])
        self.unit = self.r.uniform(0.05, 0.95, 5)
        self.kept = [freeze(x) for x in self.owned]
        self.kept_unit = self.unit.copy()

    def verify(self, what, changed=None):
        for i, k in enumerate(self.ks):
            if i == changed:
                self.frozen_params[i] = freeze(k.params)
            else:
                equal(self.frozen_params[i], freeze(k.params), f"{what}: parameters of copula {i} ({self.cs[i]['kind']})")
        for i, x in enumerate(self.owned):
            equal(self.kept[i], freeze(x), f"{what}: the caller's data")
        same_bits(self.unit, self.kept_unit, f"{what}: the caller's vector")

    def query(self, i, n, s):
        qs = queries(self.ks[i], self.cs[i])
        names = sorted(qs)
        name = names[n % len(names)]
        f, tol = qs[name]
        s = s % 6
        what = f"{name} of copula {i} ({self.cs[i]['kind']})"
        try:
            v = freeze(quiet(f, self.ks[i], self.owned[i], self.unit, s))
        except Exception as e:
            v = f"{type(e).__name__}: {e}"
        key = (i, self.version[i], name, s)
        if key in self.answers:
            equal(self.answers[key], v, f"{what} repeated", tol)
        self.answers.setdefault(key, v)
        self.verify(what)
        return key

    def assign(self, i, seed, twice):
        p = new_params(self.cs[i], seed)
        if p is None:
            return
        keep = freeze(p)
        what = f"assigning parameters to copula {i} ({self.cs[i]['kind']})"
        quiet(setattr, self.ks[i], "params", p)
        equal(keep, freeze(p), f"{what}: the caller's parameters")
        self.version[i] += 1
        self.verify(what, changed=i)
        if twice is not None and self.cs[twice]["kind"] == self.cs[i]["kind"] and self.cs[twice]["dim"] == self.cs[i]["dim"] and self.cs[i].get("p", {}).get("m") == self.cs[twice].get("p", {}).get("m") and twice != i:
            # the same container, or the other copula's own parameters, given to a second copula
            quiet(setattr, self.ks[twice], "params", p if seed % 5 else self.ks[i].params)
            self.version[twice] += 1
            self.verify(what, changed=twice)
        scribble(p, self.r)
        self.verify(f"writing into the parameters given to copula {i} ({self.cs[i]['kind']})")

    def entry(self, i, seed):
        """elliptical entry assignment / mutation in place"""
        k, c = self.ks[i], self.cs[i]
        if c["kind"] not in ("gaussian", "student"):
            return
        r = gen.rng(seed)
        v = float(r.uniform(-0.3, 0.3))
        if seed % 3 == 0:
            m = np.full((c["dim"],) * 2, abs(v))
            np.fill_diagonal(m, 1)
            keep = m.copy()
            quiet(k.__setitem__, slice(None), m)
            same_bits(m, keep, "matrix assigned to a copula")
            self.version[i] += 1
            self.verify("assigning a matrix", changed=i)
            m[...] = 0.9
        else:
            quiet(k.__setitem__, 0 if seed % 3 == 1 else (0, 1), v)
            self.version[i] += 1
            self.verify("assigning an entry", changed=i)
        self.verify("after the assignment")

    def fit(self, i, seed):
        k, c = self.ks[i], self.cs[i]
        r = gen.rng(seed)
        d = c["dim"]
        x = r.normal(size=(30, 1)) + 0.7 * r.normal(size=(30, d)) + (2 * (r.uniform(size=(30, 1)) < 0.5) if c["kind"] == "gmc" else 0)
        data = pd.DataFrame(x, columns=list("pqrs")[:d]) if seed % 2 else x
        keep = freeze(data)
        kw, kept = {}, None
        if c["kind"] in ("clayton", "frank", "gumbel", "gaussian"):
            kw = {"method": "itau"} if seed % 3 else {"optim_options": {"method": "SLSQP", "options": {"maxiter": 50}}}
            if c["kind"] == "gaussian" and not seed % 3:
                kw["x0"] = np.full(d * (d - 1) // 2, 0.3)
        elif c["kind"] == "gmc":
            kw = {"method": "kmeans"} if seed % 2 else {"max_iter": 3}
            if not seed % 2:
                kw["x0"] = k.params
        kept = freeze(kw)
        np.random.seed(3)
        others = [freeze(quiet(q.random, 2, 4)) for j, q in enumerate(self.ks) if j != i]
        if c["kind"] in ("indep", "empirical"):
            return
        try:
            quiet(k.fit, data, verbose=0, **kw)
            done = True
        except Exception as e:
            done = False
        equal(keep, freeze(data), f"fit of copula {i} ({c['kind']}): the caller's data")
        equal(kept, freeze(kw), f"fit of copula {i} ({c['kind']}): the caller's options")
        if c["kind"] == "gmc" and done and min(np.linalg.eigvalsh(q)[0] for q in k.params.covs) < 1e-8:
            quiet(setattr, k, "params", p18.make(c["p"]))
        self.version[i] += 1
        self.verify(f"fit of copula {i} ({c['kind']})", changed=i)
        now = [freeze(quiet(q.random, 2, 4)) for j, q in enumerate(self.ks) if j != i]
        equal(others, now, f"fit of copula {i} ({c['kind']}): samples of the other copulas")
        if isinstance(data, np.ndarray):
            data[...] = 0.5
        else:
            data.iloc[:, :] = 0.5
            data.columns = list("abcd")[:d]
        if "x0" in kw and isinstance(kw["x0"], np.ndarray):
            kw["x0"][...] = 0.9
        if "optim_options" in kw:
            kw["optim_options"]["options"]["maxiter"] = 0
        self.verify(f"overwriting the data copula {i} ({c['kind']}) was fitted on")
        # the owned frame has other labels than the fitted one: give this copula plain rows
        if isinstance(self.owned[i], pd.DataFrame):
            self.owned[i] = self.owned[i].to_numpy().copy()
            self.kept[i] = freeze(self.owned[i])


@st.composite
def histories(draw):
    k = draw(st.integers(1, 4))
    first = draw(p30.copulas(dims=(2, 3)))
    cs = [first]
    for _ in range(k - 1):
        cs.append(copy.deepcopy(draw(st.sampled_from(cs))) if draw(st.booleans()) else draw(p30.copulas(dims=(2, 3))))
    op = st.tuples(st.sampled_from(["query"] * 7 + ["assign", "assign", "entry", "fit"]), st.integers(0, k - 1), st.integers(0, 999), st.integers(0, 999))
    return {"cs": cs, "seed": draw(gen.seeds()), "ops": draw(st.lists(op, min_size=4, max_size=30))}


@sub("P32", histories(), 600, 8000,
     "interleaved queries, parameter assignments, entry assignments and fits over several copulas with shared caller arrays: every query twice with equal answers, "
     "all other copulas and all caller data unchanged after every step, caller containers overwritten after use")
def history(c, note):
    w = World(c["cs"], c["seed"])
    note(*{q["kind"] for q in c["cs"]}, f"{len(c['cs'])} copulas")
    for op, i, a, b in c["ops"]:
        i %= len(w.ks)
        if op == "query":
            w.query(i, a, b)
        elif op == "assign":
            w.assign(i, a, b % len(w.ks))
        elif op == "entry":
            w.entry(i, a)
        elif b % 4 == 0 or c["cs"][i]["kind"] not in ("student", "marginal"):
            w.fit(i, a)
    # every query of the last versions again, in another order
    done = [key for key in w.answers if key[1] == w.version[key[0]]]
    for i, v, name, s in reversed(done):
        names = sorted(queries(w.ks[i], w.cs[i]))
        w.query(i, names.index(name), s)


@sub("P32", st.tuples(p30.copulas(), gen.seeds()), 350, 4000,
     "every query of one copula in a random order, then all again in another order: equal answers bit by bit, parameters and caller arrays of every layout untouched")
def sweep(t, note):
    c, seed = t
    w = World([c], seed)
    r = gen.rng(seed)
    x = w.owned[0]
    form = seed % 4
    w.owned[0] = [x, np.asfortranarray(x), pd.DataFrame(x, columns=[f"c{i}" for i in range(c["dim"])], index=[3, 1, 2, 0]), np.repeat(np.asarray(x), 2, axis=0)[::2]][form]
    w.kept[0] = freeze(w.owned[0])
    n = len(queries(w.ks[0], c))
    note(c["kind"], f"layout {form}")
    s = int(r.integers(6))
    for i in r.permutation(n):
        w.query(0, int(i), s)
    for i in r.permutation(n):
        w.query(0, int(i), s)
    # a separately built copula of the same parameters gives the same answers
    w2 = World([c], seed)
    w2.owned[0], w2.kept[0] = w.owned[0], w.kept[0]
    w2.answers = dict(w.answers)
    for i in r.permutation(n):
        w2.query(0, int(i), s)


@sub("P32", st.tuples(p30.copulas(), gen.seeds()), 250, 3000,
     "two copulas of one description: every result of the first (values, samples, parameters, matrices, attributes) is overwritten by the caller, the second answers every query as before")
def results(t, note):
    c, seed = t
    note(c["kind"])
    a, b = World([c], seed), World([c], seed)
    b.owned = [copy.deepcopy(a.owned[0])]
    r = gen.rng(seed)
    n = len(queries(b.ks[0], c))
    s = int(r.integers(6))
    for i in range(n):
        b.query(0, i, s)
    qs = queries(a.ks[0], c)
    done = 0
    extra = {"params": lambda: a.ks[0].params, "columns": lambda: a.ks[0].bounds}
    for name in [*r.permutation(sorted(qs)).tolist(), *sorted(extra)]:
        try:
            v = quiet(qs[name][0], a.ks[0], copy.deepcopy(a.owned[0]), a.unit.copy(), s) if name in qs else extra[name]()
        except Exception:  # refusing is the business of other properties
            continue
        for w in v if isinstance(v, tuple) else [v]:
            if isinstance(w, pd.DataFrame):
                w.iloc[:, :] = 0.123
                done += 1
            elif isinstance(w, np.ndarray) or hasattr(w, "covs"):
                scribble(w, r)
                done += 1
    if not done:
        note.skip("no result can be written to")
        return
    for i in r.permutation(n):
        b.query(0, int(i), s)
    d = World([c], seed)
    d.owned, d.answers = b.owned, dict(b.answers)
    for i in range(n):
        d.query(0, i, s)


def functions():
    """standalone functions: name -> (function of caller-owned arguments, argument maker)"""
    import copulae.special.special_func as sf
    from copulae import pseudo_obs
    from copulae.core import corr2cov, cov2corr, create_cov_matrix, is_psd, near_psd, rank_data
    from copulae.gof import exch_test, gof_copula, rad_sym_test
    from copulae.special.clausen import clausen
    from copulae.special.combinatorics import comb, perm
    from copulae.special.debye import debye_1, debye_2
    from copulae.special.dilog import dilog, dilog_complex
    from copulae.special.trig import cospi, cospi2, sinpi, sinpi2, tanpi, tanpi2
    from copulae.stats import corr, kendall_tau, multivariate_t, pearson_rho, skew_stable, spearman_rho
    u = lambda r: (r.uniform(0.05, 0.95, 6),)
    p = lambda r: (r.uniform(0.1, 9, 6),)
    s = lambda r: (r.normal(size=6) * 3,)
    ints = lambda r: (r.integers(5, 20, 6).astype(float), r.integers(0, 5, 6).astype(float))
    mat = lambda r: (np.round(r.normal(size=(12, 3)), 1),)
    two = lambda r: (np.round(r.normal(size=12), 1), r.normal(size=12))
    cor = lambda r: (np.corrcoef(r.normal(size=(8, 3)), rowvar=False),)
    def notpsd(r):
        m = np.array([[1, 0.9, -0.9], [0.9, 1, 0.9], [-0.9, 0.9, 1.0]]) * 1
        return (m,)
    def seeded(f):
        def g(*a):
            np.random.seed(9)
            return f(*a)
        return g
    fs = {"debye_1": (debye_1, p), "debye_2": (debye_2, p), "clausen": (clausen, s), "dilog": (dilog, s), "dilog_complex": (lambda a: dilog_complex(a), lambda r: (r.normal(size=6) + 1j * r.normal(size=6),)),
          "dilog_complex polar": (dilog_complex, lambda r: (r.uniform(0, 2, 6), r.uniform(-3, 3, 6))), "debye_1 unthreaded": (lambda a: debye_1(a, False), p), "clausen unthreaded": (lambda a: clausen(a, False), s),
          "comb": (comb, ints), "perm": (perm, ints), "comb log": (lambda a, b: comb(a, b, True), ints), "log1mexp": (sf.log1mexp, p), "log1pexp": (sf.log1pexp, s), "log_sum": (sf.log_sum, mat),
          "log_sum offset": (lambda a, b: sf.log_sum(a, b), lambda r: (r.normal(size=(3, 4)), r.normal(size=4))), "poly_log": (lambda a: sf.poly_log(a, -2), u), "poly_log log": (lambda a: sf.poly_log(a, -3, 'default', True), u),
          "polyn_eval": (sf.polyn_eval, lambda r: (r.normal(size=4), r.normal(size=6))), "sign_ff": (lambda a: sf.sign_ff(0.4, a, 5), lambda r: (r.integers(1, 5, 6),)),
          "pseudo_obs": (pseudo_obs, mat), "rank_data": (lambda a: rank_data(a, 1, "min"), mat), "corr": (corr, mat), "kendall_tau": (kendall_tau, two), "pearson_rho": (pearson_rho, two), "spearman_rho": (spearman_rho, mat),
          "near_psd": (near_psd, notpsd), "near_psd valid": (near_psd, cor), "near_psd nearest": (lambda a: near_psd(a, "nearest"), notpsd), "is_psd": (is_psd, cor), "cov2corr": (cov2corr, lambda r: (np.cov(r.normal(size=(8, 3)) * 3, rowvar=False),)),
          "corr2cov": (corr2cov, lambda r: (cor(r)[0], r.uniform(1, 3, 3))), "create_cov_matrix": (create_cov_matrix, lambda r: (r.uniform(-0.3, 0.3, 3),)),
          "mvt pdf": (lambda a, m, k: multivariate_t.pdf(a, m, k, 4.0), lambda r: (r.normal(size=(4, 3)), r.normal(size=3), cor(r)[0])),
          "mvt rvs": (lambda m, k: multivariate_t.rvs(m, k, 4.0, 5, random_state=3), lambda r: (r.normal(size=3), cor(r)[0])),
          "stable": (lambda a: skew_stable.pdf(a, 1.3, 0.4), s), "exch_test": (seeded(lambda a, b: exch_test(a, b, 20).statistic), two), "exch_test ties": (seeded(lambda a, b: exch_test(np.abs(a), b, 20, 3).statistic), two),
          "rad_sym_test": (seeded(lambda a: rad_sym_test(a, 5).statistic), mat)}
    for f in (cospi, cospi2, sinpi, sinpi2, tanpi, tanpi2):
        fs[f.__name__] = (f, s)
    return fs


@sub("P32", st.tuples(st.integers(0, 10 ** 6), gen.seeds(), st.sampled_from(["plain", "strided", "fortran", "readonly", "frame", "shared"])), 500, 8000,
     "every standalone function on caller-owned arrays of several layouts: arguments untouched, the same answer again, results that do not alias the arguments")
def standalone(t, note):
    n, seed, form = t
    fs = functions()
    name = sorted(fs)[n % len(fs)]
    f, make = fs[name]
    a = list(make(gen.rng(seed)))
    if form == "strided":
        a = [np.repeat(q, 2, axis=0)[::2] if isinstance(q, np.ndarray) else q for q in a]
    elif form == "fortran":
        a = [np.asfortranarray(q) if isinstance(q, np.ndarray) else q for q in a]
    elif form == "readonly":
        for q in a:
            q.flags.writeable = False
    elif form == "frame" and name in ("pseudo_obs", "corr", "spearman_rho", "rad_sym_test"):
        a = [pd.DataFrame(q, columns=list("zyx"), index=np.arange(len(q))[::-1]) for q in a]
    note(name, form)
    keep = freeze(a)
    first = quiet(f, *a)
    v = freeze(first)
    equal(keep, freeze(a), f"{name}: its arguments")
    equal(v, freeze(quiet(f, *a)), f"{name} repeated")
    equal(keep, freeze(a), f"{name}: its arguments")
    equal(v, freeze(first), f"{name}: a result returned earlier")


@sub("P32", st.tuples(p30.copulas(("marginal", "empirical", "gmc", "indep")), gen.seeds()), 250, 3000,
     "copulas built from caller-owned containers (data, margins, mixture parameters, field names): containers untouched by building and querying, and overwriting or sharing them later changes no copula")
def construction(t, note):
    import copulae as cp
    from copulae.mixtures import GaussianMixtureCopula
    from props.util import make
    c, seed = t
    r = gen.rng(seed)
    d, kind = c["dim"], c["kind"]
    if kind == "empirical":
        x = p30.sample_of(c)
        own = pd.DataFrame(x, columns=list("abcd")[:d]) if seed % 3 == 0 else np.asfortranarray(x) if seed % 3 == 1 else x
        build = lambda: cp.EmpiricalCopula(own, c["smooth"], c["ties"])
    elif kind == "gmc":
        p = c["p"]
        own = {"prob": np.array(p["prob"]), "means": np.array(p["means"]), "covs": np.array(p["covs"])}
        if seed % 3 == 1:
            own = p18.make(p)
        elif seed % 3 == 2:
            own = p18.make(p).to_vector()
        build = lambda: GaussianMixtureCopula(p["m"], d, own)
    elif kind == "indep":
        own = list("abcd")[:d]
        build = lambda: cp.IndepCopula(d, own)
    else:
        own = [{"type": ["norm", "gamma", "t", "expon"][(seed + j) % 4], "parameters": [{"loc": 1.0, "scale": 2.0}, {"a": 2.5}, {"df": 5.0}, {"scale": 3.0}][(seed + j) % 4]} for j in range(d)]
        build = lambda: cp.MarginalCopula(make(c["c"]["inner"]), own)
    note(kind, type(own).__name__)
    keep = freeze(own)
    a, b = build(), build()
    equal(keep, freeze(own), f"{kind}: building from the caller's {type(own).__name__}")
    qs = queries(a, c)
    x = p30.points(c, 4, seed)
    u = r.uniform(0.1, 0.9, 5)
    if kind == "empirical" and isinstance(own, pd.DataFrame) or kind == "indep":
        x = pd.DataFrame(x, columns=list("abcd")[:d])

    def run(k):
        out = {}
        for n in sorted(qs):
            try:
                out[n] = freeze(quiet(qs[n][0], k, x, u, 3))
            except Exception as e:
                out[n] = f"{type(e).__name__}: {e}"
        return out
    first = run(a)
    equal(keep, freeze(own), f"{kind}: querying a copula built from the caller's {type(own).__name__}")

    def compare(now, what):
        for n in first:
            equal(first[n], now[n], f"{kind}: {n} {what}", qs[n][1])
    compare(run(b), "of a second copula built from the same containers")
    if isinstance(own, pd.DataFrame):
        own.iloc[:, :] = r.uniform(size=own.shape)
        own.columns = list("wxyz")[:d]
    elif kind == "marginal":
        for m in own:
            for q in m["parameters"]:
                m["parameters"][q] = 9.0
            m["type"] = "uniform"
        own.pop()
    elif kind == "indep":
        own.reverse()
        own.append("more")
    else:
        scribble(own, r)
    compare(run(a), "after the caller overwrote the containers it was built from")
    compare(run(b), "of a second copula after the caller overwrote the containers")
    if kind == "gmc":
        a.params = p18.make({**c["p"], "means": (np.array(c["p"]["means"]) + 1).tolist()})
        compare(run(b), "after another mixture got new parameters")


def defaults():
    """name -> constructor of a copula with its default or given settings, all independent of any earlier copula"""
    import copulae as cp
    from copulae.mixtures import GaussianMixtureCopula

    out = {}
    for d in (2, 3):
        out |= {f"gaussian {d}": lambda d=d: cp.GaussianCopula(d), f"student {d}": lambda d=d: cp.StudentCopula(d), f"student {d} df": lambda d=d: cp.StudentCopula(d, 7.5),
                f"clayton {d}": lambda d=d: cp.ClaytonCopula(dim=d), f"frank {d}": lambda d=d: cp.FrankCopula(dim=d), f"gumbel {d}": lambda d=d: cp.GumbelCopula(dim=d),
                f"clayton {d} theta": lambda d=d: cp.ClaytonCopula(1.5, d), f"frank {d} theta": lambda d=d: cp.FrankCopula(2.5, d), f"gumbel {d} theta": lambda d=d: cp.GumbelCopula(1.5, d),
                f"indep {d}": lambda d=d: cp.IndepCopula(d), f"gmc {d}": lambda d=d: GaussianMixtureCopula(2, d), f"marginal {d}": lambda d=d: cp.MarginalCopula(cp.GaussianCopula(d), ["norm"] * d),
                f"marginal {d} single": lambda d=d: cp.MarginalCopula(cp.ClaytonCopula(1.5, d), {"type": "gamma", "parameters": {"a": 2.0}})}
    return out


def state(k, kind, d, seed):
    """what can be seen of a copula: attributes, parameters and the answers of its functions (or that they refuse)"""
    x = gen.rng(seed).uniform(0.1, 0.9, (3, d))

    def f(g):
        try:
            return freeze(quiet(g))
        except Exception as e:
            return type(e).__name__

    if kind == "gmc":  # no parameters until fitted
        return [f(lambda: k.dim), f(lambda: k.clusters), f(lambda: k.name), f(lambda: k.params)]
    qs = [lambda: k.dim, lambda: k.name, lambda: str(k.bounds), lambda: k.params, lambda: k.pdf(x), lambda: k.pdf(x, log=True), lambda: k.random(3, seed=5), lambda: str(k.summary()),
          lambda: getattr(k, "tau", None), lambda: getattr(k, "sigma", None)]
    if kind != "student" and d == 2:
        qs.append(lambda: k.cdf(x))
    return [f(g) for g in qs]



@sub("P32", st.tuples(st.lists(st.integers(0, 999), min_size=1, max_size=4), st.lists(st.tuples(st.integers(0, 999), st.integers(0, 999)), min_size=1, max_size=8), gen.seeds()), 120, 1500,
     "copulas made with default or given settings, then changed by assignments, entry assignments and fits; a second copula made the same way afterwards has the same "
     "parameters, functions and samples as the first had when it was new")
def made_later(t, note):
    which, ops, seed = t
    mk = defaults()
    names = sorted(mk)
    picked = [names[i % len(names)] for i in which]
    note(*[p.split()[0] for p in picked])
    info = [(p.split()[0], int(p.split()[1])) for p in picked]
    ks = [quiet(mk[p]) for p in picked]
    first = [state(k, *q, seed) for k, q in zip(ks, info)]
    for a, b in ops:
        i = a % len(ks)
        kind, d = info[i]
        r = gen.rng(seed + b)
        k = ks[i]
        try:
            if kind in ("clayton", "frank", "gumbel", "gaussian", "student") and b % 3 == 0:
                p = new_params({"kind": kind, "dim": d}, b)
                if kind == "student":
                    p = np.r_[float(r.uniform(1, 20)), new_params({"kind": "gaussian", "dim": d}, b)]
                quiet(setattr, k, "params", p)
            elif kind in ("gaussian", "student") and b % 3 == 1:
                quiet(k.__setitem__, (0, 1), float(r.uniform(-0.5, 0.5)))
            elif kind == "gmc" and b % 3 != 2:
                quiet(setattr, k, "params", new_params({"kind": "gmc", "dim": d, "p": {"m": 2}}, b))
            elif kind == "gmc" and k.params is not None:
                quiet(k.params.means.__setitem__, Ellipsis, 3.0)
            elif kind != "indep":
                x = np.exp(r.normal(size=(40, 1)) + 0.7 * r.normal(size=(40, d)))
                kw = {"method": "itau"} if kind not in ("marginal", "gmc") else {}
                quiet(k.fit, x, verbose=0, **kw)
        except Exception:  # refusing is the business of other properties
            pass
    for p, q, want in zip(picked, info, first):
        got = state(quiet(mk[p]), *q, seed)
        equal(want, got, f"a new {p} copula after others were used")
    for n in names:  # the copulas nobody touched too
        if n.split()[0] not in [q[0] for q in info]:
            continue
        k = quiet(mk[n])
        kind, d = n.split()[0], int(n.split()[1])
        if kind == "gaussian":
            same_bits(np.asarray(k.params, float), np.zeros(d * (d - 1) // 2), f"parameters of a new {n} copula")
        if kind == "student":
            same_bits(np.asarray(k.params.rho, float), np.zeros(d * (d - 1) // 2), f"correlations of a new {n} copula")
            check(k.params.df == (7.5 if "df" in n else 1), f"a new {n} copula has {k.params.df} degrees of freedom")
