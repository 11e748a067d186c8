"""P35: copies and pickles of a copula are the same copula and independent of it; concurrent use gives the serial answers."""
import copy
import pickle
import sys
import threading

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gen
from core import check, sub
from props import p30, p32
from props.p32 import equal, freeze, queries, quiet

ASSUMPTIONS = ["copies are made with copy.deepcopy and pickle; copy.copy shares parameters by Python's own definition and is not covered",
               "concurrent use means queries only: no thread changes a copula another thread reads",
               "the Gaussian distribution function above two dimensions is a randomised integral: compared at 5e-3",
               "answers drawn with a seed go through NumPy's global generator in the serial comparison only; threads do not sample"]


def answers(k, c, x, unit, s, names=None):
    out = {}
    qs = queries(k, c)
    for n in sorted(qs) if names is None else names:
        f, tol = qs[n]
        try:
            out[n] = (freeze(quiet(f, k, x, unit, s)), tol)
        except Exception as e:
            out[n] = (f"{type(e).__name__}: {e}", tol)
    return out


def compare(want, got, what):
    for n in want:
        equal(want[n][0], got[n][0], f"{what}: {n}", want[n][1])


def change(k, c, seed):
    """another state: by assignment of parameters, of single entries, of the fields of parameters, or by fitting"""
    kind, d, r = c["kind"], c["dim"], gen.rng(seed)
    how = seed % 3
    if kind in ("gaussian", "student") and how:
        i = int(r.integers(1, d))
        if how == 1:
            k[0] = float(r.uniform(-0.3, 0.3))
            k[i, 0] = float(r.uniform(-0.3, 0.3))
        else:
            k[i, :] = r.uniform(-0.3, 0.3, d)
        return
    if kind == "gmc" and how:
        p = k.params
        if how == 1:
            p.means = r.normal(size=np.shape(p.means))
        else:
            p.means[...] = r.normal(size=np.shape(p.means))
            p.prob[...] = np.full(np.shape(p.prob), 1 / np.size(p.prob))
        return
    if kind == "empirical":
        k.smoothing = ["none", "beta", "checkerboard"][how]
        k.ties = ["min", "max", "average"][seed % 5 % 3]
        return
    p = p32.new_params(c, seed)
    if p is not None:
        quiet(setattr, k, "params", p)
    elif kind == "marginal" and c["c"]["inner"]["fam"] not in ("indep", "student"):
        quiet(k.fit, np.exp(r.normal(size=(30, 1)) + 0.7 * r.normal(size=(30, d))), verbose=0)


@sub("P35", st.tuples(p30.copulas(dims=(2, 3)), gen.seeds(), st.sampled_from(["deepcopy", "pickle", "pickle of a copy"]), st.booleans()), 350, 4500,
     "every query of a deep copy or unpickled copula equals the original's bit by bit; changing either one (parameters, entries, fit) leaves the other as it was; "
     "the copy can be changed like the original with the same outcome")
def copies(t, note):
    c, seed, how, fitted = t
    note(c["kind"], how, "fitted" if fitted else "as built")
    k = quiet(p30.build, c)
    x, unit = p30.points(c, 4, seed), gen.rng(seed).uniform(0.05, 0.95, 5)
    names = None
    if fitted and c["kind"] in ("clayton", "frank", "gumbel", "gaussian", "student"):
        r = gen.rng(seed)
        data = r.normal(size=(25, 1)) + r.normal(size=(25, c["dim"]))
        if seed % 2:
            names = [f"c{i}" for i in r.permutation(c["dim"])]
            data = pd.DataFrame(data, columns=names)
        try:
            quiet(k.fit, data, method="itau", verbose=0)
        except ValueError:
            fitted, names = False, None
    dup = {"deepcopy": copy.deepcopy, "pickle": lambda v: pickle.loads(pickle.dumps(v)), "pickle of a copy": lambda v: pickle.loads(pickle.dumps(copy.deepcopy(v)))}[how]
    k2 = dup(k)
    s = seed % 6
    what = f"{how} of a {c['kind']} copula"
    check(type(k2) is type(k), f"{what} is a {type(k2).__name__}")
    before = answers(k, c, x, unit, s)
    compare(before, answers(k2, c, x, unit, s), what)
    if names:
        note("labelled")
        f = pd.DataFrame(unit[:c["dim"]] * np.ones((2, 1)), columns=sorted(names))
        for q in (f, f.iloc[0]):
            equal(freeze(quiet(k.pdf, q)), freeze(quiet(k2.pdf, q)), f"{what}: pdf of labelled data, columns {sorted(names)}, fitted on {names}", 0)
        a, b = k.random(3, seed=1), k2.random(3, seed=1)
        check(list(a.columns) == list(getattr(b, "columns", [])), f"{what}: labels of a sample {getattr(b, 'columns', None)}, fitted on {names}")
    if fitted and c["kind"] in ("clayton", "frank", "gumbel", "gaussian", "student"):
        equal(str(k.summary("fit")), str(k2.summary("fit")), f"{what}: fit summary")
    change(k2, c, seed)
    compare(before, answers(k, c, x, unit, s), f"a {c['kind']} copula after its {how} was changed")
    k3 = dup(k)
    changed = answers(k2, c, x, unit, s)
    change(k, c, seed)
    compare(changed, answers(k2, c, x, unit, s), f"{how} of a {c['kind']} copula after the original was changed")
    compare(changed, answers(k, c, x, unit, s), f"a {c['kind']} copula changed like its {how}")
    compare(before, answers(k3, c, x, unit, s), f"a second {how} of a {c['kind']} copula after the original was changed")


SERIAL = ("random", "summary")  # sampling uses the process-wide generator


@sub("P35", st.tuples(st.lists(p30.copulas(dims=(2, 3)), min_size=1, max_size=3), gen.seeds(), st.integers(2, 5)), 70, 500,
     "2-5 threads start together and run every query of the same copulas in different orders, several rounds: each answer equals the serial one bit by bit", shrink=False)
def threads(t, note):
    cs, seed, n = t
    note(f"{n} threads", *{c["kind"] for c in cs})
    ks = [quiet(p30.build, c) for c in cs]
    # every thread has its own points, of the same shapes
    xs = [[p30.points(c, 12, seed + j) for c in cs] for j in range(n)]
    units = [gen.rng(seed + j).uniform(0.05, 0.95, 40) for j in range(n)]
    names = [[q for q in sorted(queries(k, c)) if q not in SERIAL] for k, c in zip(ks, cs)]
    want = [[answers(k, c, x, units[j], seed % 6, nm) for k, c, x, nm in zip(ks, cs, xs[j], names)] for j in range(n)]
    gate = threading.Barrier(n)
    errors = []

    def work(j):
        r = gen.rng(seed + j)
        try:
            gate.wait(30)
            for turn in range(4):
                for i in r.permutation(len(ks)):
                    order = [names[i][q] for q in r.permutation(len(names[i]))] if turn % 2 else names[i]  # the same order at the same time, or different ones
                    got = answers(ks[i], cs[i], xs[j][i], units[j], seed % 6, order)
                    compare({q: want[j][i][q] for q in order}, got, f"thread {j} of {n}, {cs[i]['kind']} copula")
        except Exception as e:
            errors.append(e)

    ts = [threading.Thread(target=work, args=(j,)) for j in range(n)]
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for q in ts:
            q.start()
        for q in ts:
            q.join()
    finally:
        sys.setswitchinterval(interval)
    if errors:
        raise errors[0]
