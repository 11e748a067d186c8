"""P25: Debye, Clausen, dilogarithm and polylogarithm."""
import math

import mpmath as mp
import numpy as np
from hypothesis import strategies as st

import gen
import ref
from core import arr, check, close, fail, same_bits, sub

ASSUMPTIONS = ["reference: mpmath at 40 digits", "Clausen and the complex dilogarithm are compared to 2e-14 absolute plus 2e-13 relative (argument reduction rounds the angle)",
               "the Debye functions of a negative argument are either NaN or the value of the definition", "complex points within 1e-14 of the branch cut [1, inf) but not on it are left out",
               "polylogarithms of order <= 0 are compared relative to the sum of absolute values of the terms of the finite expansion (cancellation is a limit of doubles)"]

mp.mp.dps = 40


def near(*pts):
    """Points at, next to and around branch boundaries."""
    return st.tuples(st.sampled_from(pts), st.one_of(st.just(0.0), gen.signed(gen.logfl(1e-16, 0.1)))).map(lambda t: t[0] * (1 + t[1]))


POS = st.one_of(gen.fl(0, 12), gen.logfl(1e-18, 1e6), near(4.0, 35.3505, 708.3964, 3e-8, 4.2e-8, 1.0, 2.0), st.sampled_from([0.0, 4.0, 1e300, 36.0, 35.0]))
REAL = st.one_of(gen.fl(-6, 6), gen.signed(gen.logfl(1e-17, 1e8)), gen.signed(gen.logfl(1e-300, 1e300)), near(0.25, 0.5, 1.0, 1.01, 2.0, -1.0, -0.5, -0.25, 12.595170369845016), st.sampled_from([0.0, 1.0, -1.0, 2.0, 0.5, 0.25, 1.01]))
ANGLE = st.one_of(gen.fl(-20, 20), gen.fl(-1e4, 1e4), gen.signed(gen.logfl(1e-18, 1)), near(math.pi, 2 * math.pi, -math.pi, 3 * math.pi, math.pi / 2, -2 * math.pi),
                  st.sampled_from([0.0, math.pi, -math.pi, 2 * math.pi]))
PHASE = st.one_of(gen.fl(-math.pi, math.pi), gen.signed(gen.logfl(1e-12, 1)), st.sampled_from([0.0, math.pi, math.pi / 2, -math.pi / 2]))
CPLX = st.one_of(st.tuples(st.one_of(gen.fl(0.001, 4), near(1.0, 0.98, 0.25, 0.732), gen.logfl(1e-10, 1e6)), PHASE).map(lambda t: (t[0] * math.cos(t[1]), t[0] * math.sin(t[1]))),
                 st.tuples(near(1.0, 0.732, 0.27, 0.02), gen.signed(gen.logfl(1e-12, 2))), st.tuples(gen.fl(0.6, 0.8), gen.fl(-0.8, 0.8)), st.tuples(gen.fl(-3, 3), gen.fl(-3, 3)))
SHAPES = [(), (1,), (6,), (2, 3), (3, 2), (3, 1, 2), (6, 1), (12,), (2, 2, 3)]


def debye_ref(n):
    return lambda x: float(ref.debye(n, x))


def clausen_ref(x):
    return float(mp.clsin(2, mp.mpf(x)).real)


def dilog_ref(x):
    return float(mp.polylog(2, mp.mpf(x)).real) if x != 1 else float(mp.pi ** 2 / 6)


@st.composite
def vec(draw, elem, k=(1, 12)):
    sh = draw(st.sampled_from(SHAPES))
    n = int(np.prod(sh)) if sh else 1
    return {"x": draw(st.lists(elem, min_size=n, max_size=n)), "shape": list(sh), "threaded": draw(st.sampled_from([True, False, None])), "form": draw(st.sampled_from(["array", "array", "list", "fortran", "strided"]))}


def build(c, dtype=float):
    a = np.array([complex(*v) for v in c["x"]] if dtype is complex else c["x"], dtype).reshape(c["shape"])
    if c["form"] == "list":
        return a.tolist(), a
    if c["form"] == "fortran" and a.ndim:
        return np.asfortranarray(a), a
    if c["form"] == "strided" and a.ndim:
        b = np.zeros(a.shape + (2,), dtype)
        b[..., 0] = a
        return b[..., 0], a
    return a.copy(), a


def apply(f, c, note, rtol, atol, refs, what, dtype=float):
    a, x = build(c, dtype)
    kw = {} if c["threaded"] is None else {"threaded": c["threaded"]}
    got = f(a, **kw)
    note(str(tuple(c["shape"])), "threaded" if c["threaded"] else "serial" if c["threaded"] is False else "default", c["form"])
    same_bits(np.asarray(a), x, f"{what}: argument array")
    g = arr(got)
    check(g.size == x.size and (x.size == 1 or g.shape == x.shape), f"{what}: shape {g.shape} for input of shape {x.shape}")
    g = g.reshape(-1)
    for v, y in zip(x.reshape(-1).tolist(), g):
        w = refs(v)
        if w is None:
            continue
        close(y, w, rtol, atol(v) if callable(atol) else atol, f"{what}({v!r})")
    if x.size > 1:
        other = arr(f(np.array(x), threaded=not c["threaded"])).reshape(-1)
        same_bits(other, g, f"{what}: threaded and serial results")
        k = len(g) // 2
        close(f(x.reshape(-1).tolist()[k]), g[k], 1e-14, 0, f"{what}: value alone and in an array")


@sub("P25", vec(POS), 350, 12000, "debye_1 against 40-digit values across its branches")
def debye1(c, note):
    from copulae.special.debye import debye_1
    apply(debye_1, c, note, 2e-14, 0, debye_ref(1), "debye_1")


@sub("P25", vec(POS), 350, 12000, "debye_2 against 40-digit values across its branches")
def debye2(c, note):
    from copulae.special.debye import debye_2
    apply(debye_2, c, note, 2e-14, 0, lambda x: float(ref.debye(2, x)) if x < 1e100 else None, "debye_2")
    for n in (1, 2):
        from copulae.special import debye
        x = -abs(c["x"][0])
        y = getattr(debye, f"debye_{n}")(x)
        if x < 0 and -1e5 < x and not np.isnan(y):
            close(y, float(ref.debye(n, x)), 1e-13, 0, f"debye_{n}({x!r})")


@sub("P25", vec(ANGLE), 450, 12000, "clausen against 40-digit values; odd and 2*pi-periodic")
def clausen_(c, note):
    from copulae.special.clausen import clausen
    apply(clausen, c, note, 2e-13, lambda x: 2e-14 + 4e-16 * abs(x) if abs(x) > 1e-3 else 1e-300, clausen_ref, "clausen")
    x = np.array(c["x"])
    same_bits(np.atleast_1d(clausen(-x)), -np.atleast_1d(arr(clausen(x))), "clausen(-x) against -clausen(x)")
    y = x[np.abs(x) < 50]
    if len(y):
        close(np.atleast_1d(clausen(y + 2 * math.pi)), np.atleast_1d(clausen(y)), 0, 2e-13, "clausen(x + 2*pi)")


@sub("P25", vec(REAL), 500, 15000, "dilog against 40-digit values; reflection, inversion, duplication")
def dilog_(c, note):
    from copulae.special.dilog import dilog
    apply(dilog, c, note, 5e-13, lambda x: 1e-14 if abs(x - 12.595) < 0.5 else 1e-300, dilog_ref, "dilog")
    x = np.array(c["x"])
    y = x[(x > 0) & (x < 1)]
    d = lambda v: np.atleast_1d(arr(dilog(v)))
    if len(y):
        close(d(y) + d(1 - y), math.pi ** 2 / 6 - np.log(y) * np.log1p(-y), 1e-13, 1e-15, "reflection Li2(x)+Li2(1-x)")
    y = x[(x < 0) & (x > -1e8)]
    if len(y):
        close(d(y) + d(1 / y), -math.pi ** 2 / 6 - np.log(-y) ** 2 / 2, 1e-13, 1e-14, "inversion Li2(x)+Li2(1/x)")
    y = x[np.abs(x) < 1]
    if len(y):
        close(d(y) + d(-y), d(y * y) / 2, 1e-13, 1e-14, "duplication Li2(x)+Li2(-x)=Li2(x^2)/2")


def cref(z):
    if abs(z.imag) < 1e-14 and z.real > 1 - 1e-13 and z.imag != 0:
        return None
    if abs(z) == 0:
        return 0j
    return complex(mp.polylog(2, mp.mpc(z)))


@sub("P25", vec(CPLX), 300, 8000, "dilog_complex against 40-digit values in rectangular and polar form; conjugate symmetry")
def dilogc(c, note):
    from copulae.special.dilog import dilog_complex
    apply(dilog_complex, c, note, 2e-13, 5e-14, cref, "dilog_complex", complex)
    z = np.array([complex(*v) for v in c["x"]])
    r, t = np.abs(z), np.angle(z)
    got = np.atleast_1d(np.asarray(dilog_complex(r, t)))
    off = ~((np.abs(z.imag) < 1e-13) & (z.real > 1 - 1e-12))
    a = np.atleast_1d(np.asarray(dilog_complex(z)))
    close(np.abs(got - a)[off], np.zeros(off.sum()), 0, 1e-12, "polar and rectangular form")
    cj = np.atleast_1d(np.asarray(dilog_complex(np.conj(z))))
    close(np.abs(cj - np.conj(a))[off], np.zeros(off.sum()), 0, 1e-12, "conjugate argument")


def eul(n):
    """Eulerian numbers <n,k> by their recurrence."""
    row = [1]
    for m in range(2, n + 1):
        row = [(k + 1) * (row[k] if k < m - 1 else 0) + (m - k) * (row[k - 1] if k else 0) for k in range(m)]
    return row


def polylog_ref(z, n):
    """Li_{-n}(z) exactly, with the size of the cancelling terms."""
    z = mp.mpc(z) if isinstance(z, complex) else mp.mpf(z)
    e = eul(n) if n else [1]
    num = mp.fsum(a * z ** k for k, a in enumerate(e))
    big = mp.fsum(abs(a * z ** k) for k, a in enumerate(e))
    den = (1 - z) ** (n + 1)
    r = abs(z / (1 - z))
    st2 = [1]
    for m in range(2, n + 2):
        st2 = [(st2[k] * (k + 1) if k < m - 1 else 0) + (st2[k - 1] if k else 0) for k in range(m)]
    big2 = r * mp.fsum(st2[k] * mp.factorial(k) * r ** k for k in range(n + 1))
    return z * num / den, max(abs(z) * big / abs(den), big2)


@st.composite
def pcases(draw):
    cx = draw(st.booleans())
    sh = draw(st.sampled_from([(), (1,), (4,), (2, 3)]))
    n = int(np.prod(sh)) if sh else 1
    el = CPLX if cx else st.one_of(gen.fl(-3, 0.99), gen.fl(0.01, 0.99), gen.fl(1.01, 5), gen.signed(gen.logfl(1e-10, 1)))
    return {"x": draw(st.lists(el, min_size=n, max_size=n)), "cx": cx, "shape": list(sh), "s": draw(st.sampled_from([2, 2, 1, 1, 0, -1, -2, -3, -5, -8, -13, -20])), "log": draw(st.booleans()),
            "list": draw(st.booleans()), "method": draw(st.sampled_from(["default", "default", "neg-stirling", "neg-eulerian", "NEG-EULERIAN"]))}


@sub("P25", pcases(), 700, 15000, "poly_log of orders 2, 1 and below by every method against exact finite sums; log=True is the logarithm; shapes")
def polylog(c, note):
    from copulae.special import poly_log
    x = np.array([complex(*v) for v in c["x"]] if c["cx"] else c["x"]).reshape(c["shape"])
    if (np.abs(1 - x) < 1e-8).any():
        note.skip("pole")
        return
    s, m = c["s"], c["method"]
    if s == 2 and m != "default":
        try:
            poly_log(x, s, m)
        except AssertionError:
            return
        fail(f"poly_log of order 2 by the finite method {m} did not refuse")
    note(f"s={s}", "complex" if c["cx"] else "real", "log" if c["log"] else "plain", m.lower())
    arg = x.tolist() if c["list"] else x.copy()
    got = np.asarray(poly_log(arg, s, m, c["log"]))
    same_bits(np.asarray(arg), x, "poly_log: argument")
    check(got.size == x.size and (x.size == 1 or got.shape == x.shape), f"poly_log shape {got.shape} for {x.shape}")
    for z, y in zip(x.reshape(-1).tolist(), got.reshape(-1).tolist()):
        what = f"poly_log({z!r}, {s}, {m!r}, log={c['log']})"
        if s == 2:
            if c["cx"] and (w := cref(z)) is None:
                continue
            w, tol = (w, 5e-13) if c["cx"] and any(np.iscomplex(x.reshape(-1))) else (dilog_ref(z if not c["cx"] else z.real), 1e-13)
        elif s == 1:
            if not c["cx"] and z > 1:
                check(np.isnan(y) or abs(complex(y)) >= 0, what)  # logarithm of a negative real: NaN for real input
                continue
            if c["cx"] and z.imag == 0 and z.real > 1:
                continue  # on the branch cut
            w = complex(-mp.log(1 - mp.mpc(z))) if c["cx"] else float(-mp.log1p(-mp.mpf(z)))
            tol = 1e-13 + (1e-15 / max(abs(w), 1e-300) if c["cx"] else 0)  # complex log1p of numpy is accurate to rounding of 1 - z
        else:
            w, size = polylog_ref(z, -s)
            tol = float(size / abs(w)) * 1e-13 if w else 1.0
            w = complex(w) if c["cx"] else float(w)
        if tol > 0.01 or w == 0:
            continue
        if c["log"]:
            if not c["cx"] and w < 0:
                check(np.isnan(y), f"{what}: {y!r}, the logarithm of a negative number")
                continue
            d = complex(y) - complex(mp.log(w))
            d = complex(d.real, (d.imag + math.pi) % (2 * math.pi) - math.pi)
            if abs(d) > 3 * tol + 1e-13 * abs(math.log(abs(w))) + 1e-13:
                fail(f"{what}: got {y!r}, expected {complex(mp.log(w))!r}")
        elif not abs(complex(y) - complex(w)) <= 3 * tol * abs(w) + (5e-14 if s == 2 else 1e-15 if c["cx"] and s == 1 else 0):
            fail(f"{what}: got {y!r}, expected {w!r}")


@sub("P25", st.tuples(st.integers(50, 3000), gen.seeds(), st.sampled_from(["debye_1", "debye_2", "clausen", "dilog", "dilog_complex"])), 60, 900, "large arrays: threaded, serial and elementwise results agree; empty arrays")
def large(t, note):
    from copulae import special  # noqa: F401
    from copulae.special import clausen as cl, debye as de, dilog as di
    n, seed, name = t
    r = gen.rng(seed)
    f = {"debye_1": de.debye_1, "debye_2": de.debye_2, "clausen": cl.clausen, "dilog": di.dilog, "dilog_complex": di.dilog_complex}[name]
    x = r.uniform(0, 50, n) if name.startswith("debye") else r.normal(size=n) * 3
    if name == "dilog_complex":
        x = x + 1j * r.normal(size=n)
    note(name)
    a, b = f(x, threaded=True), f(x, threaded=False)
    check(np.shape(a) == (n,), f"{name}: shape {np.shape(a)}")
    same_bits(a, b, f"{name}: threaded and serial")
    for i in r.integers(0, n, 5):
        close(np.abs(f(x[i]) - a[i]), 0, 0, 1e-13, f"{name}: element {i} of {n}")
    close(np.asarray(f(x.reshape(-1, 1), threaded=True)).ravel() - a, np.zeros(n, a.dtype), 0, 0, f"{name}: column")
    for th in (True, False):
        check(np.shape(f(x[:0], threaded=th)) == (0,), f"{name}: empty array")
