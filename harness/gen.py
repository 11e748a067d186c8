"""Shared generators. Every random choice is a Hypothesis draw; big data sets are expanded from a drawn seed."""
import math

import numpy as np
from hypothesis import strategies as st


def _r(x, nd=12):
    return float(x)


def fl(a, b, **k):
    return st.floats(a, b, allow_nan=False, allow_infinity=False, allow_subnormal=False, **k)


def unit_open(lo=1e-10):
    """(0,1): mostly the bulk, sometimes very near an end, sometimes simple fractions."""
    l = math.log10(lo)
    return st.one_of(fl(0.02, 0.98), fl(0.02, 0.98),
                     st.integers(1, 15).map(lambda k: k / 16),
                     fl(l, -1).map(lambda e: 10.0 ** e),
                     fl(max(l, -10), -1).map(lambda e: 1 - 10.0 ** e))


def unit_closed(lo=1e-10):
    return st.one_of(unit_open(lo), unit_open(lo), unit_open(lo), st.sampled_from([0.0, 1.0, 1.0]))


def signed(mag, signs=(1, -1)):
    return st.tuples(mag, st.sampled_from(signs)).map(lambda t: t[0] * t[1])


def logfl(a, b):
    return fl(math.log(a), math.log(b)).map(math.exp)


def dims_(lo, hi):
    """Dimensions, small ones more often."""
    if hi <= lo + 1:
        return st.integers(lo, hi)
    return st.one_of(st.just(lo), st.integers(lo, lo + 1), st.integers(lo, hi), st.integers(lo, hi))


@st.composite
def arch(draw, fams=("clayton", "frank", "gumbel"), dims=(2, 8), max_theta=None, indep_ok=True, neg=True, strong=True):
    """(family, dim, theta) with theta admissible for the dimension."""
    fam = draw(st.sampled_from(list(fams)))
    d = draw(dims_(*dims))
    hi = {"clayton": 30.0, "frank": 60.0, "gumbel": 25.0}[fam]
    if max_theta:
        hi = min(hi, max_theta[fam])
    kinds = ["mid", "mid", "mid", "small"] + (["big"] if strong else []) + (["indep"] if indep_ok else [])
    if neg and d == 2 and fam != "gumbel":
        kinds += ["neg", "neg", "negsmall"]
    k = draw(st.sampled_from(kinds))
    base = 1.0 if fam == "gumbel" else 0.0
    mid = {"clayton": (0.05, 6.0), "frank": (0.1, 15.0), "gumbel": (0.05, 5.0)}[fam]
    top = hi - base
    mid = (mid[0], min(mid[1], top * 0.8))
    hi = top
    if k == "mid":
        t = base + draw(fl(*mid))
    elif k == "small":
        t = base + draw(st.one_of(logfl(1e-3, 0.1), logfl(1e-12, 1e-3)))
    elif k == "big":
        t = base + draw(fl(mid[1], hi))
    elif k == "indep":
        t = base
    elif k == "neg":
        t = -draw(fl(0.02, 0.97)) if fam == "clayton" else -draw(st.one_of(fl(0.1, min(20.0, hi)), fl(0.1, hi)))
    else:
        t = -draw(st.one_of(logfl(1e-3, 0.1), logfl(1e-12, 1e-3)))
    return {"fam": fam, "dim": d, "theta": float(t)}


@st.composite
def corr_vec(draw, d, strength=0.95):
    """Strict lower triangle (column by column) of a positive-definite correlation matrix, through random unit rows."""
    mode = draw(st.sampled_from(["rand", "rand", "rand", "equi", "weak", "ident"]))
    if mode == "ident":
        return [0.0] * (d * (d - 1) // 2)
    if mode == "equi":
        r = draw(fl(-0.9 / (d - 1) if d > 1 else 0, 0.9))
        return [float(r)] * (d * (d - 1) // 2)
    # partial correlations (vine) -> always positive definite
    k = d * (d - 1) // 2
    s = strength if mode == "rand" else 0.2
    p = draw(st.lists(fl(-s, s), min_size=k, max_size=k))
    L = np.zeros((d, d))
    L[0, 0] = 1.0
    it = iter(p)
    for i in range(1, d):
        rem = 1.0
        for j in range(i):
            z = next(it)
            L[i, j] = z * math.sqrt(rem)
            rem -= L[i, j] ** 2
        L[i, i] = math.sqrt(max(rem, 1e-6))
        L[i] /= np.linalg.norm(L[i])
    m = L @ L.T
    return [float(m[i, j]) for j in range(d) for i in range(j + 1, d)]


@st.composite
def dim_corr(draw, dims=(2, 6), strength=0.95):
    d = draw(dims_(*dims))
    return d, draw(corr_vec(d, strength))


def points(d, n=(1, 5), coord=None):
    coord = unit_open() if coord is None else coord
    return st.integers(*n).flatmap(lambda k: st.lists(st.lists(coord, min_size=d, max_size=d), min_size=k, max_size=k))


def seeds():
    return st.integers(0, 2 ** 31 - 2)


def rng(seed):
    return np.random.default_rng(seed)
