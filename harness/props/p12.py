import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gen
import ref
from core import arr, check, close, fail, raises, sub

ASSUMPTIONS = ["ranks by counting (own code); NaN and infinite data are outside the property"]

TIES = ["average", "min", "max", "dense", "ordinal"]
value = st.one_of(st.integers(-3, 3).map(float), gen.fl(-1e6, 1e6), gen.fl(-1, 1), st.sampled_from([0.0, -0.0, 1e-300, -1e300, 1e300, 1.0, 1.0 + 2 ** -52]))


@st.composite
def matrices(draw, rows=(1, 12), cols=(1, 5)):
    n, d = draw(st.integers(*rows)), draw(st.integers(*cols))
    v = draw(st.sampled_from([value, st.integers(0, 3).map(float), gen.fl(-10, 10)]))
    return draw(st.lists(st.lists(v, min_size=d, max_size=d), min_size=n, max_size=n))


@st.composite
def big(draw):
    r = gen.rng(draw(gen.seeds()))
    n, d = draw(st.integers(20, 300)), draw(st.integers(1, 6))
    x = r.normal(size=(n, d))
    if draw(st.booleans()):
        x = np.round(x, 1)
    return x.tolist()


cases = st.tuples(st.one_of(matrices(), matrices(), matrices(), big()), st.sampled_from(TIES), st.sampled_from(["array", "list", "frame", "tuple", "F", "int"]))


def package(m, form):
    x = np.array(m, float)
    if form == "int":
        x = np.clip(np.round(x), -1e9, 1e9).astype(int)
        return x, x.astype(float)
    if form == "list":
        return m, x
    if form == "tuple":
        return tuple(tuple(r) for r in m), x
    if form == "F":
        return np.asfortranarray(x), x
    if form == "frame":
        d = x.shape[1]
        return pd.DataFrame(x, columns=["z", "a", "b", "y", "c", "x"][:d], index=[f"r{len(x) - i}" for i in range(len(x))]), x
    return x.copy(), x


def want_ranks(x, ties):
    return np.column_stack([ref.rank(x[:, j], ties) for j in range(x.shape[1])])


@sub("P12", cases, 1500, 25000, "pseudo_obs of matrices in every container: column ranks by counting over n+1, container, labels, range, input untouched")
def pobs(t, note):
    from copulae.core import pseudo_obs
    from copulae import GaussianCopula, pseudo_obs as top
    m, ties, form = t
    data, x = package(m, form)
    keep = data.copy() if isinstance(data, (np.ndarray, pd.DataFrame)) else None
    note(form, ties, "tied" if any(len(np.unique(x[:, j])) < len(x) for j in range(x.shape[1])) else "distinct")
    n = len(x)
    want = want_ranks(x, ties) / (n + 1)
    got = pseudo_obs(data, ties)
    if form == "frame":
        check(isinstance(got, pd.DataFrame), f"a DataFrame became {type(got).__name__}")
        check(list(got.columns) == list(data.columns) and list(got.index) == list(data.index), f"labels became {list(got.columns)}, {list(got.index)[:5]}")
        check(keep.equals(data), "the data changed")
    else:
        check(isinstance(got, np.ndarray), f"result is a {type(got).__name__}")
        if keep is not None:
            check(np.array_equal(keep, data), "the data changed")
    close(np.asarray(got), want, 1e-14, 1e-15, f"pseudo_obs ties={ties}")
    v = np.asarray(got)
    check((v > 0).all() and (v < 1).all(), f"pseudo-observations outside (0,1): {v.min()}, {v.max()}")
    close(np.asarray(pseudo_obs(data, ties=ties.upper())), want, 1e-14, 1e-15, "upper-case tie rule")
    close(np.asarray(top(data, ties)), want, 1e-14, 1e-15, "copulae.pseudo_obs")
    close(np.asarray(GaussianCopula.pobs(data, ties)), want, 1e-14, 1e-15, "copula.pobs")
    if ties == "average":
        close(np.asarray(pseudo_obs(data)), want, 1e-14, 1e-15, "default tie rule")
    if ties == "ordinal":
        for j in range(x.shape[1]):
            check(sorted(np.rint(v[:, j] * (n + 1)).astype(int)) == list(range(1, n + 1)), "ordinal ranks are not a permutation")


@sub("P12", cases, 900, 15000, "rank_data along rows, columns and of vectors")
def ranks(t, note):
    from copulae.core import rank_data
    m, ties, form = t
    data, x = package(m, form)
    note(form, ties)
    close(np.asarray(rank_data(data, 1, ties)), want_ranks(x, ties), 0, 0, f"rank_data axis=1 ties={ties}")
    rows = np.array([ref.rank(x[i], ties) for i in range(len(x))])
    close(np.asarray(rank_data(data, 0, ties)), rows, 0, 0, f"rank_data axis=0 ties={ties}")
    close(np.asarray(rank_data(data, ties=ties, axis=0)), rows, 0, 0, "rank_data by keyword")
    close(np.asarray(rank_data(data, ties=ties)), rows, 0, 0, "rank_data default axis")
    v = x[:, 0]
    for form2 in (v, v.tolist(), pd.Series(v)):
        for ax in (0, 1):
            close(np.asarray(rank_data(form2, ax, ties)), ref.rank(v, ties), 0, 0, f"rank_data of a vector, axis {ax}")
    raises(Exception, lambda: rank_data(x[None], 1, ties), "3-dimensional data")
    raises(Exception, lambda: rank_data(x, 2, ties), "axis 2")
    raises(Exception, lambda: rank_data(x, 1, "foo"), "unknown tie rule")


@sub("P12", st.tuples(st.lists(value, min_size=1, max_size=30), st.sampled_from(TIES), st.sampled_from(["array", "list", "series"])), 500, 8000, "pseudo_obs of vectors")
def vectors(t, note):
    from copulae.core import pseudo_obs
    v, ties, form = t
    a = np.array(v)
    note(form, ties)
    d = a.copy() if form == "array" else v if form == "list" else pd.Series(a, index=np.arange(len(a)) + 7)
    got = pseudo_obs(d, ties)
    close(np.asarray(got), ref.rank(a, ties) / (len(a) + 1), 1e-14, 0, f"pseudo_obs of a vector, ties={ties}")
    check(np.shape(got) == a.shape, f"shape {np.shape(got)} of a vector of {a.shape}")


@sub("P12", st.tuples(matrices((2, 15)), st.sampled_from(TIES), gen.seeds()), 700, 12000, "strictly increasing transformations change nothing; reordering rows and columns reorders the result; negation reverses it")
def invariance(t, note):
    from copulae.core import pseudo_obs
    m, ties, seed = t
    x = np.array(m, float)
    n, d = x.shape
    r = gen.rng(seed)
    note(ties)
    a = pseudo_obs(x, ties)
    y = x.copy()
    for j in range(d):
        z = np.unique(x[:, j])
        f = np.cumsum(r.exponential(size=len(z)) + 1e-6) - 2
        y[:, j] = f[np.searchsorted(z, x[:, j])]
    same = lambda p, q, w: check(np.array_equal(p, q), f"{w}: {p.tolist()} and {q.tolist()}")
    same(pseudo_obs(y, ties), a, "after increasing transformations")
    c = r.permutation(d)
    same(pseudo_obs(x[:, c], ties), a[:, c], "after reordering columns")
    if ties != "ordinal":
        i = r.permutation(n)
        same(pseudo_obs(x[i], ties), a[i], "after reordering rows")
    if ties == "average":
        close(pseudo_obs(-x, ties), 1 - a, 1e-14, 1e-15, "pseudo-observations of the negated data")
    same(pseudo_obs(a, ties), a, "pseudo-observations of pseudo-observations") if ties in ("average", "ordinal") else None


@sub("P12", st.tuples(st.sampled_from(["int64", "uint64", "int32", "uint8", "int8", "bool", "float32"]), st.integers(1, 12), st.integers(1, 4), gen.seeds(), st.sampled_from(TIES), st.booleans()), 300, 5000,
     "data of every numeric type, including integers too large for a double: ranks by counting in their own type")
def types(t, note):
    from copulae.core import pseudo_obs, rank_data
    kind, n, d, seed, ties, frame = t
    r = gen.rng(seed)
    if kind == "bool":
        x = r.integers(0, 2, (n, d)).astype(bool)
    elif kind == "float32":
        x = np.round(r.normal(size=(n, d)) * 3).astype(np.float32) + np.float32(1e-7) * r.integers(0, 3, (n, d)).astype(np.float32)
    else:
        lim = np.iinfo(kind)
        base = [lim.max - 5, lim.min, 0, lim.max // 2][int(r.integers(4))]
        x = np.array([[int(base) + int(v) for v in row] for row in r.integers(0, 6, (n, d))], dtype=kind)
    note(kind, ties, "frame" if frame else "array")
    data = pd.DataFrame(x, columns=list("dbca")[:d]) if frame else x.copy()
    want = np.column_stack([ref.rank(np.array([int(v) for v in x[:, j]], object) if kind != "float32" else x[:, j], ties).astype(float) for j in range(d)])
    what = f"{kind} data {x.tolist()}, ties {ties}"
    close(np.asarray(rank_data(data, 1, ties)), want, 0, 0, f"rank_data of {what}")
    close(np.asarray(pseudo_obs(data, ties)), want / (n + 1), 1e-14, 0, f"pseudo_obs of {what}")
    check(np.array_equal(np.asarray(data), x), "the data changed")
