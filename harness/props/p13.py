import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gen
import ref
from core import arr, check, close, fail, raises, sub

ASSUMPTIONS = ["matrices with an eigenvalue within 1e-9 (relative) of zero may be classified either way"]


@st.composite
def cov(draw, dims=(1, 7), kinds=("pd", "pd", "indef", "barely", "singular", "asym", "corr")):
    """Symmetric (or asymmetric) matrices with prescribed eigenvalue signs."""
    d = draw(gen.dims_(*dims))
    kind = draw(st.sampled_from(list(kinds)))
    r = gen.rng(draw(gen.seeds()))
    if kind == "corr":
        m = ref.corr_from_lower(draw(gen.corr_vec(max(d, 2))), max(d, 2))
        return {"kind": kind, "m": m.tolist()}
    sc = 10.0 ** r.uniform(-2, 2, d)
    if kind in ("pd", "asym"):
        L = r.normal(size=(d, d + 2))
        m = L @ L.T
    elif kind == "barely":  # a correlation matrix with a small eigenvalue of either sign
        v, _ = np.linalg.qr(r.normal(size=(d, d)))
        w = r.uniform(0.3, 2, d)
        w[0] = r.choice([-1, -1, 1]) * 10.0 ** r.uniform(-9, -3)
        m = v @ np.diag(w) @ v.T
        if np.diag(m).min() < 0.01:
            m = np.eye(d)
        s = np.sqrt(np.diag(m))
        m = m / np.outer(s, s)
        sc = np.ones(d) * 10.0 ** r.uniform(-1, 1)
    elif kind == "singular":
        L = r.integers(-3, 4, size=(d, max(1, d - 1))).astype(float)
        L[:, 0] += (np.abs(L).sum(1) == 0)
        m = L @ L.T
        sc = np.ones(d)
    else:
        m = np.eye(d)
        for i in range(d):
            for j in range(i):
                m[i, j] = m[j, i] = r.uniform(-1, 1)
    m = m * np.outer(np.sqrt(sc), np.sqrt(sc))
    m = (m + m.T) / 2
    if kind == "asym" and d > 1:
        i, j = r.choice(d, 2, replace=False)
        m[i, j] += (0.01 + abs(m[i, j])) * 10.0 ** r.uniform(-3.5, 0) * r.choice([-1, 1])
    elif kind == "asym":
        kind = "pd"
    return {"kind": kind, "m": m.tolist()}


@sub("P13", st.tuples(st.integers(1, 7), gen.seeds(), st.booleans()), 700, 12000, "cov2corr and corr2cov: definition, unit diagonal, inverse of each other, lists and arrays, input untouched")
def convert(t, note):
    from copulae.core import corr2cov, cov2corr
    d, seed, lst = t
    r = gen.rng(seed)
    L = r.normal(size=(d, d + 1))
    C = L @ L.T
    k = r.choice([4, 4, 60])  # of widely different scales
    C = (C + C.T) / 2 * np.outer(s := 10.0 ** r.uniform(-k, k, d), s)
    note(f"d{d}", "list" if lst else "array")
    arg = C.tolist() if lst else C.copy()
    R, sd = cov2corr(arg, return_std=True)
    R, sd = arr(R), arr(sd).ravel()
    want_sd = np.sqrt(np.diag(C))
    close(sd, want_sd, 1e-14, 0, "standard deviations")
    close(R, C / want_sd[:, None] / want_sd[None, :], 1e-12, 1e-15, "correlation matrix")
    close(np.diag(R), np.ones(d), 1e-12, 0, "diagonal of the correlation matrix")
    check((np.abs(R) <= 1 + 1e-12).all(), "correlation above one")
    close(arr(cov2corr(arg)), R, 0, 0, "cov2corr without the standard deviations")
    close(arr(corr2cov(R, sd)), C, 1e-11, 0, "corr2cov(cov2corr(C))")
    close(arr(corr2cov(R.tolist(), sd.tolist())), C, 1e-11, 0, "corr2cov of lists")
    R2, sd2 = cov2corr(corr2cov(R, sd * 3), return_std=True)
    close(arr(R2), R, 1e-11, 1e-14, "cov2corr(corr2cov(R))")
    close(arr(sd2).ravel(), sd * 3, 1e-12, 0, "standard deviations recovered")
    if not lst:
        check(np.array_equal(arg, C), "cov2corr changed its argument")


def closest(R, steps=400):
    """Distance of the closest correlation matrix, by Dykstra's alternating projections (Higham 2002)."""
    y, ds = R.copy(), np.zeros_like(R)
    for _ in range(steps):
        q = y - ds
        w, v = np.linalg.eigh(q)
        x = (v * np.maximum(w, 0)) @ v.T
        ds = x - q
        y = x.copy()
        np.fill_diagonal(y, 1)
    return np.linalg.norm(y - R)


@sub("P13", cov(), 1200, 20000, "is_symmetric and is_psd against eigenvalues; near_psd: identity on valid input, rejection of asymmetric input, otherwise a PSD matrix with the same variances")
def psd(c, note):
    from copulae.core import is_psd, is_symmetric, near_psd
    m = np.array(c["m"])
    d = len(m)
    note(c["kind"], f"d{d}")
    keep = m.copy()
    sym = c["kind"] != "asym"
    check(bool(is_symmetric(m)) == sym, f"is_symmetric({m.tolist()}) is {is_symmetric(m)}")
    check(not is_symmetric(m[:, :-1]) if d > 1 else True, "is_symmetric of a rectangular matrix")
    check(not is_symmetric(m.ravel()), "is_symmetric of a vector")
    scale = np.abs(m).max()
    if not sym:
        check(not is_psd(m), f"is_psd accepts an asymmetric matrix {m.tolist()}")
        raises(Exception, lambda: near_psd(m), "near_psd of an asymmetric matrix")
        return
    e = np.linalg.eigvalsh(m)
    p = bool(is_psd(m))
    if e[0] > 1e-9 * scale:
        check(p and bool(is_psd(m, strict=True)), f"is_psd rejects {m.tolist()} with eigenvalues {e}")
        note("definite")
    elif e[0] < -1e-9 * scale and e[0] < -1e-11:
        check(not p and not is_psd(m, strict=True), f"is_psd accepts {m.tolist()} with eigenvalues {e}")
        note("indefinite")
    for f in (list, np.asfortranarray):
        check(bool(is_psd(f(m) if f is not list else m.tolist())) == p, "is_psd of another container")
    for method in ("clipped", "nearest"):
        if method == "nearest" and d > 5:
            continue
        g = arr(near_psd(m, method))
        check(np.array_equal(m, keep), "near_psd changed its argument")
        if p:
            check(np.array_equal(g, m), f"near_psd changed a valid matrix {m.tolist()} to {g.tolist()}")
            continue
        check(g.shape == m.shape, f"near_psd shape {g.shape}")
        close(g, g.T, 1e-10, 1e-12 * scale, "near_psd result is not symmetric")
        sd = np.sqrt(np.diag(m))
        ge = np.linalg.eigvalsh((g + g.T) / 2 / np.outer(sd, sd))[0]
        check(ge > (-1e-10 if method == "clipped" else -1e-4), f"near_psd({method}) result has eigenvalue {ge}")
        close(np.diag(g), np.diag(m), 1e-8, 0, f"variances after near_psd({method})")
        R, G = m / np.outer(sd, sd), g / np.outer(sd, sd)
        w, v = np.linalg.eigh(R)
        x = v @ np.diag(np.maximum(w, 0)) @ v.T
        s = np.sqrt(np.diag(x))
        lim = np.linalg.norm(x / np.outer(s, s) - R)
        check(np.linalg.norm(G - R) <= lim * (1.05 if method == "nearest" else 1.01) + 1e-6, f"near_psd({method}) moved by {np.linalg.norm(G - R)}, clipping moves by {lim}")
        if method == "nearest":
            best = closest(R)
            check(np.linalg.norm(G - R) <= best * 1.002 + 1e-6, f"near_psd(nearest) moved {m.tolist()} by {np.linalg.norm(G - R)}, the closest correlation matrix is at {best}")
    gd = arr(near_psd(m.tolist() if len(m) % 2 else m))
    close(gd, arr(near_psd(m, "clipped")), 0, 0, "default method of near_psd")


@sub("P13", st.tuples(gen.fl(-2, 2), st.booleans()), 150, 2000, "is_psd of numbers")
def scalars(t, note):
    from copulae.core import is_psd
    v, strict = t
    note("strict" if strict else "semi")
    if abs(v) > 1e-9:
        check(bool(is_psd(v, strict)) == (v > 0), f"is_psd({v}, strict={strict}) is {is_psd(v, strict)}")
    check(bool(is_psd(0)) and bool(is_psd(0.0)) and bool(is_psd(1)), "is_psd of 0 or 1")


@sub("P13", st.tuples(st.integers(1, 12), st.integers(0, 4), st.sampled_from(["lower", "upper", "both", "LOWER", "Both"])), 400, 2000, "tri_indices enumerates exactly the requested triangle, lower and upper in mirrored order")
def triangles(t, note):
    from copulae.core import tri_indices
    n, m, side = t
    note(side, f"offset {m}")
    a, b = tri_indices(n, m, side)
    got = list(zip([int(i) for i in a], [int(j) for j in b]))
    low = [(i, j) for j in range(n) for i in range(j + m, n)]
    s = side.lower()
    if s == "lower":
        check(got == low, f"tri_indices({n},{m},lower) = {got}")
    elif s == "upper":
        check(got == [(j, i) for i, j in low], f"tri_indices({n},{m},upper) = {got}")
    else:
        k = len(low)
        check(sorted(got) == sorted(low + [(j, i) for i, j in low]), f"tri_indices({n},{m},both) = {got}")
        check(got[:k] == [(j, i) for i, j in got[k:]], f"halves are not mirrored: {got}")
        d = [(int(i), int(j)) for i, j in zip(*tri_indices(n, m))]
        check(d == got, "default side")
    raises(ValueError, lambda: tri_indices(n, m, "left"), "unknown side")


@sub("P13", st.integers(2, 14).flatmap(lambda d: st.lists(gen.fl(-1, 1), min_size=d * (d - 1) // 2, max_size=d * (d - 1) // 2).map(lambda v: (d, v))), 400, 6000,
     "create_cov_matrix: symmetric, unit diagonal, parameters in order in the lower (column by column) and upper triangle")
def from_params(t, note):
    from copulae.core import create_cov_matrix, tri_indices
    d, v = t
    note(f"d{d}")
    for arg in (v, np.array(v), tuple(v)):
        m = arr(create_cov_matrix(arg))
        check(np.array_equal(m, ref.corr_from_lower(v, d)), f"create_cov_matrix({v}) = {m.tolist()}")
    check(np.array_equal(m[tri_indices(d, 1, "lower")], v) and np.array_equal(m[tri_indices(d, 1, "upper")], v), "reading the triangles back")
