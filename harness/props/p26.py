"""P26: combinatorial numbers."""
from fractions import Fraction
from math import comb as icomb, factorial

import mpmath as mp
import numpy as np
from hypothesis import strategies as st

import gen
from core import arr, check, close, fail, raises, same_bits, sub

ASSUMPTIONS = ["integers: own triangular recurrences with Python integers", "comb and perm: mpmath gamma ratios / finite products at 60 digits, relative error 1e-10 (logs: 1e-10 of the largest log-gamma)",
               "the logarithm of a negative coefficient may be NaN or the logarithm of its absolute value", "sign_ff at alpha*j within 1e-12 of an integer may be 0 or the sign on either side"]

TRI = {}


def triangle(kind, n):
    """Row n (k = 0..n) by the recurrence in k and n."""
    rows = TRI.setdefault(kind, [[1]])
    while len(rows) <= n:
        m, p = len(rows), rows[-1] + [0]
        if kind == "s1":
            rows.append([(p[k - 1] if k else 0) - (m - 1) * p[k] for k in range(m + 1)])
        elif kind == "s2":
            rows.append([(p[k - 1] if k else 0) + k * p[k] for k in range(m + 1)])
        else:
            rows.append([(k + 1) * p[k] + ((m - k) * p[k - 1] if k else 0) for k in range(m + 1)])
            if m >= 1:
                rows[-1][m] = 0
    return rows[n]


KINDS = {"s1": ("stirling_first", "stirling_first_all"), "s2": ("stirling_second", "stirling_second_all"), "e": ("eulerian", "eulerian_all")}


@st.composite
def nk(draw):
    n = draw(st.one_of(st.integers(0, 12), st.integers(0, 60), st.sampled_from([100, 137])))
    k = draw(st.one_of(st.integers(0, n), st.sampled_from([0, n, max(0, n - 1), n // 2, (n + 1) // 2, min(1, n)])))
    return draw(st.sampled_from(sorted(KINDS))), n, k, draw(st.sampled_from(["int", "float", "numpy", "str"]))


@sub("P26", nk(), 1500, 10000, "exact values for every argument type accepted")
def exact(t, note):
    from copulae import special
    kind, n, k, form = t
    note(kind, form, "edge" if k in (0, n) else "inner")
    a, b = {"int": (n, k), "float": (float(n), float(k)), "numpy": (np.int64(n), np.int64(k)), "str": (str(n), str(k))}[form]
    got = getattr(special, KINDS[kind][0])(a, b)
    want = triangle(kind, n)[k]
    if int(got) != want or got != want:
        fail(f"{KINDS[kind][0]}({n}, {k}) = {got}, expected {want}")
    check(isinstance(got, (int, np.integer)), f"{KINDS[kind][0]}({n}, {k}) has type {type(got).__name__}")


@sub("P26", st.tuples(st.sampled_from(sorted(KINDS)), st.one_of(st.integers(0, 30), st.integers(30, 70))), 150, 600, "the *_all variants list the whole row, equal to single values, with the known row sums")
def rows(t, note):
    from copulae import special
    kind, n = t
    note(kind)
    one, al = (getattr(special, f) for f in KINDS[kind])
    got = list(al(n))
    tri = triangle(kind, n)
    want = ([1] if n == 0 else tri[:n]) if kind == "e" else tri[1:]
    check(len(got) == len(want) and all(int(a) == b for a, b in zip(got, want)), f"{KINDS[kind][1]}({n}) = {got[:8]}..., expected {want[:8]}...")
    off = 0 if kind == "e" else 1
    check(all(one(n, k + off) == v for k, v in enumerate(got)), f"{KINDS[kind][0]}({n}, k) differs from {KINDS[kind][1]}({n})")
    if kind == "e":
        check(sum(got) == factorial(n), "Eulerian row sum is not n!")
    if kind == "s1" and n:
        check(sum(abs(v) for v in got) == factorial(n), "Stirling row sum is not n!")


@sub("P26", st.tuples(st.sampled_from(sorted(KINDS)), st.integers(-20, 60), st.integers(-20, 80), st.sampled_from(["range", "type"])), 200, 2000, "arguments outside 0 <= k <= n, or that are no numbers, are rejected")
def rejected(t, note):
    from copulae import special
    kind, n, k, mode = t
    f = getattr(special, KINDS[kind][0])
    if mode == "type":
        for bad in ([1, 2], None, "x", {}):
            raises((TypeError, ValueError, AssertionError), lambda: f(bad, 1), f"{f.__name__}({bad!r}, 1)")
            raises((TypeError, ValueError, AssertionError), lambda: f(3, bad), f"{f.__name__}(3, {bad!r})")
        raises((AssertionError, ValueError, TypeError), lambda: special.eulerian_all(-abs(n) - 1), "eulerian_all of a negative number")
        return
    if 0 <= k <= n:
        note.skip("admissible")
        return
    note(kind)
    raises((AssertionError, ValueError), lambda: f(n, k), f"{f.__name__}({n}, {k})")


def product(n, r):
    p = mp.mpf(1)
    for i in range(r):
        p *= mp.mpf(n) - i
    return p


@st.composite
def cr(draw):
    r = draw(st.one_of(st.integers(0, 12), st.integers(0, 60), gen.fl(0, 20)))
    n = draw(st.one_of(st.integers(0, 70), gen.fl(-20, 80), gen.fl(-1, 5), st.integers(-30, -1)))
    if isinstance(r, float) and r != int(r) and n <= r:
        n = r + abs(n)  # non-integer r: the gamma quotient of positive arguments
    return n, r


CASES = st.tuples(st.lists(cr(), min_size=1, max_size=6), st.booleans(), st.booleans(), st.sampled_from(["scalar", "array", "matrix", "list"]))


@sub("P26", CASES, 1500, 10000, "comb and perm against 60-digit products and gamma quotients, plain and log, scalars and arrays")
def combperm(t, note):
    from copulae import special
    from copulae.special import combinatorics as cb
    prs, is_perm, log, form = t
    f = cb.perm if is_perm else cb.comb
    mp.mp.dps = 60
    try:
        want, tol = [], []
        for n, r in prs:
            if r == int(r):
                v = product(n, int(r)) / (1 if is_perm else mp.factorial(int(r)))
            else:
                v = mp.gamma(mp.mpf(n) + 1) / mp.gamma(mp.mpf(n) + 1 - mp.mpf(r)) / (1 if is_perm else mp.gamma(mp.mpf(r) + 1))
            # next to an integer the product, or the gamma functions it is computed from, are ill-conditioned
            near = abs(n - round(n)) or 1.0
            tol.append(1e-10 + 1e-13 / max(near, 1e-13) + (1e-10 if r < 40 else 1e-9))
            want.append(v)
    finally:
        mp.mp.dps = 40
    n = np.array([p[0] for p in prs], float)
    r = np.array([p[1] for p in prs], float)
    note("perm" if is_perm else "comb", "log" if log else "plain", form)
    if form == "scalar":
        got = [float(f(p[0], p[1], log)) for p in prs]
    elif form == "list":
        got = f(n.tolist(), r.tolist(), log).tolist()
    elif form == "matrix":
        g = f(n.reshape(-1, 1), r.reshape(1, -1), log)
        check(np.shape(g) == (len(n), len(n)), f"shape {np.shape(g)} of broadcast arguments")
        got = np.diag(g).tolist()
    else:
        got = f(n, r, log).tolist()
    for (a, b), g, w, e in zip(prs, got, want, tol):
        what = f"{'perm' if is_perm else 'comb'}({a!r}, {b!r}, log={log})"
        if e > 0.01:
            continue
        if not log:
            w = float(w)
            if not abs(g - w) <= e * abs(w) + (0 if w else 1e-300):
                fail(f"{what}: got {g!r}, expected {w!r}")
        elif w == 0:
            check(g == -np.inf, f"{what}: got {g!r}, the coefficient is 0")
        elif w < 0:
            check(np.isnan(g) or abs(g - float(mp.log(-w))) <= 1e-9 * 300 + e, f"{what}: got {g!r} for a negative coefficient")
        else:
            scale = float(max(1, abs(mp.loggamma(abs(mp.mpf(a)) + abs(b) + 2))))
            if not abs(g - float(mp.log(w))) <= e + 1e-13 * scale:
                fail(f"{what}: got {g!r}, expected {float(mp.log(w))!r}")


@st.composite
def signs(draw):
    a = draw(st.one_of(gen.fl(0.01, 0.999), st.sampled_from([1.0, 0.5, 0.25, 1 / 3, 0.75, 1e-3])))
    k = draw(st.integers(1, 8))
    d = draw(st.lists(st.integers(0, 40), min_size=k, max_size=k))
    j = [draw(st.integers(0, x)) for x in d]
    return a, j, d, draw(st.sampled_from(["scalar", "both", "recycle", "cycle j", "cycle d"]))


def true_signs(a, j, d):
    """Possible signs of binom(a*j, d) * (-1)^(d-j)."""
    x = Fraction(a) * j
    out = set()
    cands = [x]
    if abs(x - round(x)) < Fraction(1, 10 ** 12) and a != 1.0:
        e = Fraction(1, 10 ** 9)
        cands = [Fraction(round(x)), x, Fraction(round(x)) + e, Fraction(round(x)) - e] if x != round(x) else [x]
    for x in cands:
        s = 1
        for i in range(d):
            f = x - i
            s *= (f > 0) - (f < 0)
        out.add(s * (-1) ** (d - j))
    return out


@sub("P26", signs(), 1200, 6000, "sign_ff is the sign of the documented product, for scalars, arrays and recycled arrays of any two lengths")
def signff(t, note):
    from copulae.special import sign_ff
    a, j, d, form = t
    note(form, "alpha 1" if a == 1 else "alpha < 1")
    if form == "scalar":
        got = [sign_ff(a, x, y) for x, y in zip(j, d)]
        check(all(np.ndim(g) == 0 for g in got), "sign_ff of scalars is not a scalar")
    elif form == "both":
        got = sign_ff(a, np.array(j), d)
        check(np.shape(got) == (len(j),), f"shape {np.shape(got)}")
    elif form == "cycle j":  # the shorter argument starts over
        d = [x + max(j) for x in d * 2 + d[:1]]
        got = sign_ff(a, list(j), d)
        j = [j[i % len(j)] for i in range(len(d))]
        check(np.shape(got) == (len(d),), f"shape {np.shape(got)}")
    elif form == "cycle d":
        d = [x + max(j) for x in d]
        j = j * 2 + j[:1]
        got = sign_ff(a, j, list(d))
        d = [d[i % len(d)] for i in range(len(j))]
        check(np.shape(got) == (len(j),), f"shape {np.shape(got)}")
    else:
        m = max(d)
        jj = [x for x in j]
        got = sign_ff(a, jj, m)
        d = [m] * len(j)
        check(np.shape(got) == (len(j),), f"shape {np.shape(got)}")
    for x, y, g in zip(j, d, np.asarray(got, float)):
        if g not in true_signs(a, x, y):
            fail(f"sign_ff({a!r}, {x}, {y}) = {g}, expected {sorted(true_signs(a, x, y))}")


@sub("P26", st.tuples(gen.fl(-3, 4), st.integers(-10, 20), st.integers(-10, 20)), 200, 2000, "sign_ff rejects alpha outside (0,1] and negative j or d")
def signff_range(t, note):
    from copulae.special import sign_ff
    a, j, d = t
    ok = 0 < a <= 1 and j >= 0 and d >= 0
    note("admissible" if ok else "refused")
    if ok:
        sign_ff(a, min(j, d), d)
    else:
        raises((AssertionError, ValueError), lambda: sign_ff(a, j, d), f"sign_ff({a}, {j}, {d})")
