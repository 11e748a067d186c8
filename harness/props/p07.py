from hypothesis import strategies as st

import gen
import numpy as np
import ref
from core import arr, check, close, fail, sub

ASSUMPTIONS = ["a requested matrix counts as valid when its smallest eigenvalue is above 1e-10, as invalid below -1e-6; in between either outcome is accepted"]

val = st.one_of(gen.fl(-1, 1), gen.fl(-0.4, 0.4), st.sampled_from([0.0, 0.5, -0.5, 1.0, -1.0, 0, 1]))


@st.composite
def ops(draw, d):
    k = d * (d - 1) // 2
    kind = draw(st.sampled_from(["params", "params", "elem", "elem", "pair", "pair", "pair", "row", "col", "whole", "whole", "bad", "bad", "nonpsd"]))
    if kind == "params":
        form = draw(st.sampled_from(["array", "list", "scalar", "named"]))
        if form == "scalar":
            return [kind, form, draw(gen.fl(-0.9 / (d - 1), 0.95))]
        return [kind, form, draw(gen.corr_vec(d))]
    if kind == "elem":
        return [kind, draw(st.integers(0, k - 1)), draw(val)]
    if kind == "pair":
        i, j = draw(st.lists(st.integers(0, d - 1), min_size=2, max_size=2, unique=True))
        return [kind, i, j, draw(val), draw(st.booleans())]
    if kind in ("row", "col"):
        i = draw(st.integers(0, d - 1))
        s = draw(st.sampled_from(["scalar", "vector", "vector"]))
        small = gen.fl(-0.5 / d ** 0.5, 0.5 / d ** 0.5)
        v = draw(val) if s == "scalar" else draw(st.lists(draw(st.sampled_from([small, small, val])), min_size=d, max_size=d))
        return [kind, i, v]
    if kind == "whole":
        return [kind, draw(st.sampled_from(["[:]", "[:,:]", "list", "int"])), draw(gen.corr_vec(d))]
    if kind == "nonpsd":
        return [kind, draw(st.sampled_from(["[:]", "[:,:]"])), draw(st.lists(gen.fl(-1, 1), min_size=k, max_size=k))]
    return [kind, draw(st.sampled_from(["range", "diag", "index", "negative", "asym", "size", "rowlen", "nan", "3d", "params-long", "params-range", "params-short", "vec-range", "matrix-range", "type"])),
            draw(st.integers(0, d - 1)), draw(st.integers(0, d - 1))]


@st.composite
def cases(draw, maxops=8):
    d = draw(gen.dims_(2, 6))
    f = draw(st.sampled_from(["gaussian", "student"]))
    return {"fam": f, "dim": d, "df": draw(gen.fl(0.5, 30)), "ops": draw(st.lists(ops(d), min_size=1, max_size=maxops))}


def build(c):
    from copulae import GaussianCopula, StudentCopula
    return GaussianCopula(c["dim"]) if c["fam"] == "gaussian" else StudentCopula(c["dim"], c["df"])


def rhos(k):
    p = k.params
    return np.asarray(p if isinstance(p, np.ndarray) else p.rho)


def invariant(k, d, what):
    s = arr(k.sigma)
    check(s.shape == (d, d), f"{what}: sigma has shape {s.shape}")
    check(np.array_equal(s, s.T), f"{what}: sigma is not symmetric: {s.tolist()}")
    check(np.array_equal(np.diag(s), np.ones(d)), f"{what}: diagonal {np.diag(s)}")
    check(np.isfinite(s).all() and np.abs(s).max() <= 1 + 1e-8, f"{what}: entries {s.tolist()}")
    e = np.linalg.eigvalsh(s)[0]
    check(e > -1e-9, f"{what}: sigma is not positive semi-definite (eigenvalue {e})")
    r = rhos(k)
    check(r.shape == (d * (d - 1) // 2,), f"{what}: {r.shape} parameters")
    check(np.array_equal(r, ref.lower(s)), f"{what}: parameters {r} but sigma {s.tolist()}")
    return s


def apply_bad(k, c, op):
    d = c["dim"]
    _, kind, i, j = op
    j2 = (i + 1) % d
    n = d * (d - 1) // 2
    st_ = c["fam"] == "student"
    pre = [c["df"]] if st_ else []
    if kind == "range":
        k[i, j2] = 1.0 + 0.01 * (1 + i) if j % 2 else -1.5
    elif kind == "diag":
        k[i, i] = 0.5
    elif kind == "index":
        k[i, d + j] = 0.1
    elif kind == "negative":
        k[-1, i] = 0.1
    elif kind == "asym":
        m = np.eye(d)
        m[i, j2] = 0.3
        k[:] = m
    elif kind == "size":
        k[:] = np.eye(d + 1 if i % 2 else d - 1 or 3)
    elif kind == "rowlen":
        k[i, :] = np.full(d + 1 if j % 2 else d - 1, 0.1)
    elif kind == "nan":
        v = [lambda: k.__setitem__((i, j2), np.nan), lambda: k.__setitem__((slice(None), i), np.full(d, np.nan)), lambda: k.__setitem__(slice(None), np.full((d, d), np.nan))]
        v[j % 3]()
    elif kind == "3d":
        k[i, j2, 0] = 0.1
    elif kind == "params-long":
        k.params = np.array(pre + [0.1] * (n + 1 + i))
    elif kind == "params-short":
        if n + len(pre) <= 1:
            raise ValueError("nothing shorter")
        k.params = np.array((pre + [0.1] * n)[:-1])
    elif kind == "params-range":
        v = pre + [0.1] * n
        v[len(pre) + (i * d + j) % n] = 1.01 if j % 2 else -1.01
        k.params = np.array(v)
    elif kind == "vec-range":
        v = np.full(d, 0.1)
        v[j2] = [1.2, -1.2, -2.0, -1 - 1e-6][(i + j) % 4]
        k[:, i] = v
    elif kind == "matrix-range":
        v = np.eye(d)
        v[i, j2] = v[j2, i] = [1.2, -1.2, -1.9, -1 - 1e-6][(i + j) % 4]
        k[:] = v
    elif kind == "type":
        k[i, j2] = "x"


@sub("P07", cases(), 900, 20000, "histories of up to 8 parameter / element / row / column / matrix assignments, valid, non-PSD and invalid, against a plain matrix model")
def history(c, note):
    k = build(c)
    d = c["dim"]
    other = build(c)
    cur = invariant(k, d, "new copula")
    check(np.array_equal(cur, np.eye(d)), "a new elliptical copula is not the independence matrix")
    df = c["df"]
    for step, op in enumerate(c["ops"]):
        what = f"{c['fam']} dim {d} step {step} {op}"
        want = cur.copy()
        kind = op[0]
        note(kind)
        if kind == "bad":
            before = rhos(k).copy()
            try:
                apply_bad(k, c, op)
            except Exception:
                pass
            else:
                fail(f"{what}: accepted")
            check(np.array_equal(rhos(k), before), f"{what}: rejected but the parameters changed")
            s = invariant(k, d, what)
            check(np.array_equal(s, cur), f"{what}: rejected but sigma changed")
            continue
        if kind == "params":
            form, r = op[1], op[2]
            if form == "scalar":
                rr = np.full(d * (d - 1) // 2, r)
                v = r if c["fam"] == "gaussian" else np.array([df, *rr])
            else:
                rr = np.array(r)
                v = rr.copy() if c["fam"] == "gaussian" else np.array([df, *rr])
                if form == "list":
                    v = v.tolist()
                if form == "named" and c["fam"] == "student":
                    from copulae.elliptical.student import StudentParams
                    v = StudentParams(df, rr.copy())
            k.params = v
            if isinstance(v, np.ndarray):
                v[:] = 0.777  # the caller's array is his own
            want = ref.corr_from_lower(rr, d)
        elif kind == "elem":
            k[op[1]] = op[2]
            r = ref.lower(cur)
            r[op[1]] = op[2]
            want = ref.corr_from_lower(r, d)
        elif kind == "pair":
            _, i, j, v, np_int = op
            if np_int:
                k[np.int64(i), np.int64(j)] = np.float64(v)
            else:
                k[i, j] = v
            want[i, j] = want[j, i] = v
        elif kind in ("row", "col"):
            _, i, v = op
            vec = np.full(d, float(v)) if np.isscalar(v) else np.array(v, float)
            arg = v if np.isscalar(v) or i % 2 else vec.copy()
            if kind == "row":
                k[i, :] = arg
            else:
                k[:, i] = arg
            for j in range(d):
                if j != i:
                    want[i, j] = want[j, i] = vec[j]
        else:
            form, r = op[1], op[2]
            want = ref.corr_from_lower(r, d)
            if form == "int":
                want = np.eye(d)
                k[:] = np.eye(d, dtype=int)
            elif form == "list":
                k[:] = want.tolist()
            elif form == "[:]":
                m = want.copy()
                k[:] = m
                m[:] = 0.3
            else:
                k[:, :] = want.copy()
        e = np.linalg.eigvalsh(want)[0]
        s = invariant(k, d, what)
        if e > 1e-10:
            check(np.array_equal(s, want), f"{what}: sigma {s.tolist()}, expected {want.tolist()}")
            note("valid")
        elif e > -1e-13:
            close(s, want, 0, 1e-6, f"{what}: singular but valid matrix")
            note("singular")
        else:
            note("projected")
            if e < -1e-6:  # the projection stays in the neighbourhood of what was asked for
                check(np.linalg.norm(s - want) <= 3 * d * abs(e) + 1e-6, f"{what}: asked for {want.tolist()} (eigenvalue {e}), got {s.tolist()}")
        cur = s
        # reading back
        r = rhos(k)
        for q in range(len(r)):
            check(k[q] == r[q], f"{what}: element {q} reads {k[q]!r}, parameter {r[q]!r}")
        for i in range(d):
            for j in range(d):
                check(k[i, j] == s[i, j], f"{what}: [{i},{j}] reads {k[i, j]!r}, sigma {s[i, j]!r}")
            check(np.array_equal(k[i, :], s[i]) and np.array_equal(k[:, i], s[:, i]), f"{what}: row or column {i}")
        check(np.array_equal(k[:], s) and np.array_equal(k[:, :], s), f"{what}: whole matrix")
        if c["fam"] == "student":
            check(k.params.df == df, f"{what}: df became {k.params.df}")
    check(np.array_equal(other.sigma, np.eye(d)), "another copula changed")


@sub("P07", st.tuples(gen.dims_(2, 6), gen.seeds(), st.sampled_from(["gaussian", "student"])), 300, 6000,
     "writing into a matrix or element read from the copula never desynchronises sigma and the parameters")
def reads(t, note):
    d, seed, fam = t
    r = gen.rng(seed)
    L = r.normal(size=(d, d + 1))
    S = L @ L.T
    S = S / np.sqrt(np.outer(np.diag(S), np.diag(S)))
    S = (S + S.T) / 2
    np.fill_diagonal(S, 1.0)
    k = build({"fam": fam, "dim": d, "df": 3.0})
    note(fam)
    k[:] = S
    s = k.sigma
    s[:] = 9
    w = k[:]
    w[:] = 8
    m = invariant(k, d, "after writing into returned matrices")
    check(np.array_equal(m, S), f"sigma {m.tolist()} after writing into returned matrices, assigned {S.tolist()}")
    # setting every element to its own value changes nothing
    for i in range(d):
        for j in range(d):
            if i != j:
                k[i, j] = k[i, j]
    check(np.array_equal(k.sigma, S), "re-assigning the same elements changed sigma")
    for q in range(d * (d - 1) // 2):
        k[q] = k[q]
    check(np.array_equal(k.sigma, S), "re-assigning the same parameters changed sigma")
