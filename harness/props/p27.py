"""P27: log-space, polynomial, trigonometric, root-finding and merging helpers."""
import copy
import math

import mpmath as mp
import numpy as np
from hypothesis import strategies as st

import gen
from core import arr, check, close, fail, raises, same_bits, sub

ASSUMPTIONS = ["trigonometric functions may be off by the rounding of x*pi (relative 3e-16 in the angle)", "a root is accepted when the function changes sign (or vanishes) within 1e-9 relative of it"]

mp.mp.dps = 40
LOGS = st.one_of(gen.fl(-5, 5), gen.fl(-700, 700), gen.signed(gen.logfl(1e-10, 1e8)), st.sampled_from([0.0, -np.inf, -745.2, 709.7, 1e300, -1e300]))


def lse(v):
    v = [mp.mpf(x) for x in v if x != -np.inf]
    if not v:
        return -np.inf
    m = max(v)
    return float(m + mp.log(mp.fsum(mp.exp(x - m) for x in v if x - m > -500)))


@st.composite
def logmats(draw):
    n, d = draw(st.integers(1, 12)), draw(st.integers(1, 4))
    if draw(st.booleans()):
        base = draw(LOGS)
        base = base if np.isfinite(base) else 0.0
        m = [[base + draw(gen.fl(-40, 5)) for _ in range(d)] for _ in range(n)]
    else:
        m = [[draw(LOGS) for _ in range(d)] for _ in range(n)]
    return m, draw(st.sampled_from(["matrix", "vector"])), draw(st.sampled_from([None, None, "scalar", "list", "array"])), draw(st.booleans())


@sub("P27", logmats(), 1500, 12000, "log_sum is the logarithm of the column sums whatever the magnitude and offset")
def logsum(t, note):
    from copulae.special import log_sum
    m, form, off, fortran = t
    a = np.array(m)
    a = np.asfortranarray(a) if fortran else a
    if form == "vector":
        a = a[:, 0].copy()
    cols = a.reshape(len(a), -1).T
    want = np.array([lse(c) for c in cols])
    o = None
    if off:
        mx = np.where(np.isfinite(cols.max(1)), cols.max(1), 0.0)
        o = {"scalar": float(mx[0]), "list": mx.tolist(), "array": mx}[off]
        if off == "scalar" and (np.abs(mx - mx[0]) > 300).any():
            o = None
    note(form, f"offset {off if o is not None else None}")
    before = a.copy()
    got = log_sum(a) if o is None else log_sum(a, o)
    same_bits(a, before, "log_sum: argument")
    check(np.shape(got) == (() if len(cols) == 1 else (len(cols),)), f"log_sum of {len(cols)} columns has shape {np.shape(got)}")
    close(np.atleast_1d(got), want, 1e-13, 1e-13, "log_sum")
    raises(ValueError, lambda: log_sum(np.zeros((2, 2, 2))), "log_sum of a three-dimensional array")


@st.composite
def xs(draw, el):
    sh = draw(st.sampled_from([(), (1,), (5,), (2, 3)]))
    n = int(np.prod(sh)) if sh else 1
    return np.array(draw(st.lists(el, min_size=n, max_size=n))).reshape(sh).tolist(), draw(st.booleans())


POSX = st.one_of(gen.fl(0, 5), gen.logfl(1e-300, 800), gen.logfl(1e-20, 1e-3), gen.fl(0.6, 0.8), st.sampled_from([0.0, math.log(2), 36.0, 745.0, 1e5]))


@sub("P27", xs(POSX), 500, 8000, "log1mexp to 1e-14 relative over (0, inf)")
def log1mexp_(t, note):
    from copulae.special import log1mexp
    x, aslist = t
    got = log1mexp(x if aslist else np.array(x))
    check(np.shape(got) == np.shape(x), f"log1mexp shape {np.shape(got)} for {np.shape(x)}")
    for v, g in zip(np.ravel(x), np.ravel(got)):
        w = float(mp.log(-mp.expm1(-mp.mpf(v))) if v < 40 else -mp.exp(-mp.mpf(v))) if v > 0 else -np.inf
        note("small" if v < math.log(2) else "large")
        close(g, w, 3e-15, 5e-324, f"log1mexp({v!r})")


@sub("P27", xs(st.one_of(gen.fl(-50, 50), gen.fl(-800, 800), gen.signed(gen.logfl(1e-20, 1e300)), st.sampled_from([0.0, 33.3, 37.0, 18.0, -37.0, 709.8, -745.0]))), 500, 8000, "log1pexp to 1e-14 relative over the reals")
def log1pexp_(t, note):
    from copulae.special import log1pexp
    x, aslist = t
    got = log1pexp(x if aslist else np.array(x))
    check(np.shape(got) == np.shape(x), f"log1pexp shape {np.shape(got)} for {np.shape(x)}")
    for v, g in zip(np.ravel(x), np.ravel(got)):
        w = v if v > 800 else float(mp.log1p(mp.exp(mp.mpf(v)))) if v > -40 else float(mp.exp(mp.mpf(v)))
        note("negative" if v < 0 else "positive")
        close(g, w, 3e-15, 1e-323, f"log1pexp({v!r})")


@st.composite
def polys(draw):
    n = draw(st.integers(0, 12))
    ints = draw(st.booleans())
    c = draw(st.lists(st.integers(-10 ** 6, 10 ** 6) if ints else st.one_of(gen.fl(-10, 10), gen.signed(gen.logfl(1e-10, 1e10)), st.just(0.0)), min_size=n, max_size=n))
    kind = draw(st.sampled_from(["real", "int", "complex"]))
    el = {"real": gen.fl(-4, 4), "int": st.integers(-9, 9), "complex": st.tuples(gen.fl(-2, 2), gen.fl(-2, 2))}[kind]
    sh = draw(st.sampled_from([(), (1,), (5,), (2, 3)]))
    k = int(np.prod(sh)) if sh else 1
    return c, kind, draw(st.lists(el, min_size=k, max_size=k)), list(sh), draw(st.sampled_from(["list", "array", "tuple"]))


@sub("P27", polys(), 1200, 9000, "polyn_eval against exact polynomials with ascending coefficients, real, integer and complex points, shapes kept")
def polynomial(t, note):
    from copulae.special import polyn_eval
    c, kind, x, sh, form = t
    a = np.array([complex(*v) for v in x] if kind == "complex" else x).reshape(sh)
    cc = {"list": list(c), "array": np.array(c), "tuple": tuple(c)}[form]
    note(kind, f"degree {len(c) - 1}")
    before = a.copy()
    got = np.asarray(polyn_eval(cc, a))
    same_bits(a, before, "polyn_eval: points")
    check(got.size == a.size and (a.size == 1 or got.shape == a.shape), f"polyn_eval shape {got.shape} for {a.shape}")
    for v, g in zip(a.reshape(-1).tolist(), got.reshape(-1).tolist()):
        z = mp.mpc(v)
        w = mp.fsum(mp.mpf(k) * z ** i for i, k in enumerate(c))
        size = float(mp.fsum(abs(mp.mpf(k) * z ** i) for i, k in enumerate(c)))
        if abs(mp.mpc(g) - w) > 1e-14 * size + 1e-300:
            fail(f"polyn_eval({c}, {v!r}) = {g!r}, expected {complex(w)!r}")
    if len(c) == 1:
        close(np.asarray(polyn_eval(c[0], a)), got, 0, 0, "polyn_eval with a scalar coefficient")


@sub("P27", st.tuples(xs(st.one_of(gen.fl(-3, 3), gen.fl(-300, 300), st.integers(-40, 40).map(lambda k: k / 4), gen.signed(gen.logfl(1e-20, 1)), gen.signed(gen.logfl(10, 1e5)), st.integers(-10 ** 5, 10 ** 5).map(lambda k: k / 2))), st.sampled_from(["cospi", "sinpi", "tanpi", "cospi2", "sinpi2", "tanpi2"])), 1400, 9000,
     "cospi, sinpi, tanpi and their half-angle versions against 40-digit values")
def trig(t, note):
    from copulae.special import trig as m
    (x, aslist), name = t
    note(name)
    got = getattr(m, name)(x if aslist else np.array(x))
    check(np.size(got) == np.size(x) and (np.size(x) == 1 or np.shape(got) == np.shape(x)), f"{name}: shape {np.shape(got)} for {np.shape(x)}")
    for v, g in zip(np.ravel(x), np.ravel(got)):
        h = mp.mpf(v) / (2 if name.endswith("2") else 1)
        s, c = mp.sinpi(h), mp.cospi(h)
        e = 4e-16 * abs(float(h)) * math.pi
        if name.startswith("tan"):
            if abs(c) < 1e-6:
                check(abs(g) > 1e5, f"{name}({v!r}) = {g!r} next to a pole")
                continue
            w, tol = s / c, e / float(c) ** 2
        else:
            w, tol = (s if name.startswith("sin") else c), e
        if abs(mp.mpf(g) - w) > tol + 1e-15 * abs(w):
            fail(f"{name}({v!r}) = {g!r}, expected {float(w)!r}")


def function(kind, root, s):
    return {"linear": lambda x: s * (x - root), "cubic": lambda x: s * (x - root) ** 3, "atan": lambda x: s * np.arctan(x - root), "exp": lambda x: s * np.expm1(np.clip((x - root) / (1 + abs(root)), -50, 50)),
            "step": lambda x: s if x > root else -s, "flat": lambda x: s * (np.sign(x - root) * max(abs(x - root) - 1e-3, 0.0) or 0.0)}[kind]


@st.composite
def roots(draw):
    root = draw(st.one_of(gen.fl(-10, 10), gen.fl(-1000, 1000), gen.signed(gen.logfl(1e-8, 1))))
    where = draw(st.sampled_from(["inside", "inside", "left", "right", "at a", "at b"]))
    w = draw(gen.fl(0.01, 5)) * (1 + abs(root))
    f = draw(gen.fl(0.05, 0.95))
    if where == "inside":
        a, b = root - w * f, root + w * (1 - f)
    elif where == "at a":
        a, b = root, root + w
    elif where == "at b":
        a, b = root - w, root
    elif where == "left":
        a, b = root + w * 0.3 * f, root + w
    else:
        a, b = root - w, root - w * 0.3 * f
    return root, a, b, where, draw(st.booleans()), draw(st.sampled_from(["linear", "cubic", "atan", "exp", "step"])), draw(st.sampled_from([1.0, -1.0, 1e-8, -1e8]))


@sub("P27", roots(), 1200, 8000, "find_root returns a sign change, bracket in either order, expanding when the root lies outside")
def root(t, note):
    from copulae.special.optimize import find_root
    r, a, b, where, swap, kind, s = t
    f = function(kind, r, s)
    if where in ("left", "right") and (abs(r) < 1e-2 * max(abs(a), abs(b)) or min(abs(a), abs(b)) < 1e-3 or np.sign(a) != np.sign(r) or np.sign(b) != np.sign(r)):
        note.skip("an expansion by 1% a step crawls here")
        return
    note(where, kind, "swapped" if swap else "ordered")
    x = find_root(f, b, a) if swap else find_root(f, a, b)
    h = 1e-9 * (1 + abs(x)) + (1e-4 * (1 + abs(r)) if kind == "cubic" else 0)
    check(np.isfinite(x) and f(x - h) * f(x + h) <= 0, f"find_root of {kind} with root {r!r} from ({a!r}, {b!r}) returned {x!r}")
    if where == "inside":
        check(min(a, b) <= x <= max(a, b), f"find_root left its bracket ({a!r}, {b!r}): {x!r}")


@sub("P27", st.tuples(st.one_of(st.just(0.0), gen.signed(gen.logfl(1e-6, 3))), gen.fl(0.1, 20), gen.fl(1.0, 12), st.booleans(), st.booleans(), st.sampled_from(["linear", "cubic", "atan", "exp", "step"])), 400, 4000,
     "roots well beyond the larger end of a bracket whose ends differ in size or sign: reached by expanding, on either side")
def stretch(t, note):
    from copulae.special.optimize import find_root
    a, gap, factor, mirror, swap, kind = t
    b = max(a, 0) + gap
    r = b * factor
    if mirror:
        a, b, r = -a, -b, -r
    f = function(kind, r, 1.0)
    note(kind, "left" if mirror else "right", "zero end" if a == 0 else "small end" if abs(a) < 0.1 else "opposite ends" if a * b < 0 else "same side")
    x = find_root(f, *((b, a) if swap else (a, b)))
    h = 1e-9 * (1 + abs(x)) + (1e-4 * (1 + abs(r)) if kind == "cubic" else 0)
    check(np.isfinite(x) and f(x - h) * f(x + h) <= 0, f"find_root of {kind} with root {r!r} from ({a!r}, {b!r}) returned {x!r}")


@sub("P27", st.tuples(gen.fl(-10, 10), gen.fl(0.1, 10), st.sampled_from(["exp", "quad", "const"]), gen.signed(gen.fl(0.1, 5))), 30, 300, "find_root refuses a function without sign change, and something that is no function")
def no_root(t, note):
    from copulae.special.optimize import find_root
    a, w, kind, s = t
    f = {"exp": lambda x: s * np.exp(np.clip(x, -700, 700)), "quad": lambda x: s * (x * x + 1), "const": lambda x: s}[kind]
    note(kind)
    raises((AssertionError, ValueError), lambda: find_root(f, a, a + w), f"find_root of {kind} without root")
    raises((AssertionError, TypeError), lambda: find_root(3.0, a, a + w), "find_root of a number")


VAL = st.one_of(st.integers(-5, 5), st.text("ab", max_size=2), st.lists(st.integers(0, 3), max_size=2), st.none())
DICT = st.recursive(st.dictionaries(st.sampled_from("pqrs"), VAL, max_size=4), lambda ch: st.dictionaries(st.sampled_from("pqrs"), st.one_of(VAL, ch), max_size=4), max_leaves=12)


def model(a, b):
    out = {}
    for k in list(a) + [k for k in b if k not in a]:
        if k in a and k in b and isinstance(a[k], dict) and isinstance(b[k], dict):
            out[k] = model(a[k], b[k])
        else:
            out[k] = copy.deepcopy(b[k] if k in b else a[k])
    return out


@st.composite
def chains(draw):
    """Dictionaries sharing a path of keys, several levels down."""
    path = draw(st.lists(st.sampled_from("pqrs"), min_size=1, max_size=4))
    out = []
    for _ in range(draw(st.integers(2, 4))):
        leaf = draw(st.dictionaries(st.sampled_from("pqrs"), VAL, max_size=3))
        for k in reversed(path):
            leaf = {**draw(st.dictionaries(st.sampled_from("pqrs"), VAL, max_size=2)), k: leaf}
        out.append(leaf)
    return out


@sub("P27", st.one_of(st.lists(DICT, min_size=1, max_size=5), chains()), 1200, 8000, "merging keeps every key, later values win, nested dictionaries merge; the arguments are left alone")
def merging(ds, note):
    from copulae.utility.dict import merge_dict, merge_dicts
    before = copy.deepcopy(ds)
    want = ds[0]
    for d in ds[1:]:
        want = model(want, d)
    note(f"{len(ds)} dictionaries", "nested" if any(isinstance(v, dict) for d in ds for v in d.values()) else "flat")
    got = merge_dicts(*ds)
    check(got == want, f"merge_dicts{tuple(ds)} = {got}, expected {want}")
    check(ds == before, f"merge_dicts changed its arguments: {before} -> {ds}")
    if len(ds) > 1:
        got = merge_dict(ds[0], ds[1])
        check(got == model(ds[0], ds[1]), f"merge_dict({ds[0]}, {ds[1]}) = {got}")
        check(ds == before, "merge_dict changed its arguments")
