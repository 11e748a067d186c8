from functools import lru_cache

from hypothesis import strategies as st

import gen
import numpy as np
import ref
from core import arr, check, close, fail, sub
from props.util import make_arch

ASSUMPTIONS = ["reference generators, derivatives and Stirling-number sums in 50-digit arithmetic (mpmath)",
               "methods documented as numerically unstable (alternating sums) are compared where their cancellation leaves digits"]

mp = ref.mp
FAMS = ("clayton", "frank", "gumbel")


def usafe(c, u):
    if c["fam"] == "clayton" and c["theta"]:
        return max(u, float(np.exp(-600 / abs(c["theta"]))))
    return u


@st.composite
def gcase(draw, **k):
    c = draw(gen.arch(FAMS, (2, 5), **k))
    c["u"] = [usafe(c, u) for u in draw(st.lists(gen.unit_open(1e-12), min_size=1, max_size=6))]
    c["scalar"] = draw(st.booleans())
    return c


def feed(c, f, xs, **k):
    """Calls f on an array or on each scalar in turn."""
    if c["scalar"]:
        r = [f(x, **k) for x in xs]
        for v in r:
            check(np.size(v) == 1, f"scalar argument gave {v!r}")
        return np.array([float(np.asarray(v).reshape(())) if np.size(v) == 1 else np.nan for v in r])
    a = np.array(xs)
    if len(xs) % 2 == 0 and len(xs) > 2:
        a = a.reshape(2, -1)
    r = arr(f(a, **k))
    check(np.size(r) == len(xs) and (len(xs) == 1 or r.shape == a.shape), f"result shape {r.shape} for arguments of shape {a.shape}")
    return np.ravel(r)


def near(c):
    """Conditioning near independence, where generators are ratios of vanishing quantities."""
    t = abs(c["theta"] - (1 if c["fam"] == "gumbel" else 0))
    return 1e-9 + (1e-13 / t if 0 < t < 0.05 else 0)


def ipsi_slack(c, u):
    """Absolute slack of ipsi: u is rounded, and for Clayton u**-theta - 1 cancels near u = 1."""
    return 1e-13 * (1 + abs(c["theta"])) if c["fam"] != "gumbel" else 0.0


@sub("P03", gcase(), 1000, 30000, "ipsi, psi and round trips against the 50-digit generator at random theta and arguments")
def generator(c, note):
    k = make_arch(c)
    note(c["fam"], "neg" if c["theta"] < 0 else "pos", "scalar" if c["scalar"] else "array")
    fam, t, us = c["fam"], c["theta"], c["u"]
    want = [ref.ipsi(fam, t, u) for u in us]
    got = feed(c, k.ipsi, us)
    ok = []
    for u, g, w in zip(us, got, want):
        w = float(w)
        rel = near(c) + (1e-15 * abs(t) / max(1 - u, 1e-16) if fam == "gumbel" else 0)
        check(abs(g - w) <= ipsi_slack(c, u) + rel * abs(w), f"ipsi of {u!r} is {g!r}, expected {w!r}")
        ok.append(w)
    lg = feed(c, k.ipsi, us, log=True)
    for u, g, w in zip(us, lg, ok):
        if w > 1e-6 and 1 - u > 1e-6:
            check(abs(g - np.log(w)) <= 1e-8 * (1 + abs(np.log(w))) + near(c) * 10, f"log ipsi of {u!r} is {g!r}, expected {np.log(w)!r}")
    # psi at the generator values and elsewhere
    ss = [float(w) for w in want] + [abs(float(w)) * 0.37 + 0.01 for w in want]
    if t < 0 and fam == "clayton":
        ss += [1.5]
    pg = feed(c, k.psi, ss)
    for s, g in zip(ss, pg):
        w = float(ref.psi(fam, t, s))
        # relative change of psi under a relative rounding of s
        p2 = float(ref.psi(fam, t, s * (1 + 1e-14) + 1e-16))
        tol = 1e-12 + near(c) * abs(w) + 100 * abs(p2 - w)
        check(abs(g - w) <= tol, f"psi of {s!r} is {g!r}, expected {w!r}")
    back = feed(c, k.psi, [float(x) for x in got])
    for u, b in zip(us, back):
        check(abs(b - u) <= 1e-8 * max(u, 1e-4) + near(c) + 1e-12, f"psi(ipsi({u!r})) = {b!r}")


@sub("P03", gcase(), 300, 8000, "end points and strict monotonicity of psi and ipsi on a sorted grid of arguments")
def shape(c, note):
    k = make_arch(c)
    note(c["fam"])
    z = float(k.ipsi(1.0))
    check(abs(z) <= 1e-12, f"ipsi(1) = {z}")
    one = float(k.psi(0.0))
    check(abs(one - 1) <= 1e-10, f"psi(0) = {one}")
    us = sorted(set(u for u in c["u"] + [0.1, 0.3, 0.5, 0.7, 0.9] if u < 0.999 and u > 1e-6))
    us = [u for i, u in enumerate(us) if i == 0 or u - us[i - 1] > 1e-3 * us[i - 1] + 1e-4]
    us = sorted(set(usafe(c, u) for u in us))
    v = arr(k.ipsi(np.array(us)))
    want = [float(ref.ipsi(c["fam"], c["theta"], u)) for u in us]
    for i in range(len(us) - 1):
        if want[i] - want[i + 1] > 1e-9 * abs(want[i]) + 1e-11:
            check(v[i] > v[i + 1], f"ipsi not decreasing between {us[i]} ({v[i]}) and {us[i + 1]} ({v[i + 1]})")
    ss = np.array(sorted(set(want)))
    p = arr(k.psi(ss))
    check((np.diff(p) <= 1e-12).all(), f"psi increases on {ss}: {p}")
    check((p >= -1e-12).all() and (p <= 1 + 1e-10).all(), f"psi outside [0,1]: {p}")


@st.composite
def far(draw):
    """arguments down to 1e-153: squares are still (nearly) in range"""
    c = draw(gcase())
    c["u"] = [usafe(c, u) for u in draw(st.lists(st.one_of(gen.logfl(1e-150, 1e-8), gen.logfl(1e-160, 1e-149)), min_size=1, max_size=4))]
    return c


@sub("P03", st.tuples(st.one_of(gcase(), gcase(), far()), st.sampled_from([1, 2])), 900, 20000, "dipsi of both degrees (signed and log magnitude) against the exact derivative")
def derivative(t, note):
    c, deg = t
    k = make_arch(c)
    note(c["fam"], f"degree{deg}", "neg" if c["theta"] < 0 else "pos")
    us = [u for u in c["u"] if u < 1 - 1e-9]
    if not us:
        note.skip("all at 1")
        return
    got = feed(c, lambda x, **kw: k.dipsi(x, deg, **kw), us)
    lg = feed(c, lambda x, **kw: k.dipsi(x, degree=deg, log=True, **kw), us)
    for u, g, l in zip(us, got, lg):
        w = ref.dipsi(c["fam"], c["theta"], u, deg)
        lw = float(mp.log(abs(w))) if w else -np.inf
        w = float(w)
        tol = near(c) * 10 + 1e-14 * (1 + abs(c["theta"])) / (1 - u)
        if np.isfinite(w) and abs(w) < 1e295:
            check(abs(g - w) <= tol * abs(w) + 1e-290, f"dipsi({u!r}, {deg}) = {g!r}, expected {w!r}")
        if np.isfinite(lw):
            if abs(lw) < 690:
                check(abs(l - lw) <= tol * (1 + abs(lw)), f"log |dipsi({u!r}, {deg})| = {l!r}, expected {lw!r}")


@sub("P03", st.tuples(st.one_of(gen.fl(1, 12), st.sampled_from([1.0, 2.0, 3.0])), st.lists(gen.fl(0.001, 0.999), min_size=1, max_size=5), st.booleans()),
     500, 10000, "Gumbel: A against the Pickands function, dAdu against its exact derivatives, and C(u,v) = (uv)^A")
def pickands(t, note):
    theta, ws, scalar = t
    k = make_arch({"fam": "gumbel", "dim": 2, "theta": theta})
    note("scalar" if scalar else "array")
    f = lambda w: (mp.mpf(w) ** theta + (1 - mp.mpf(w)) ** theta) ** (1 / mp.mpf(theta))
    c = {"scalar": scalar}
    a = feed(c, k.A, ws + [0.0, 1.0, 0.5])
    close(a[:-3], [float(f(w)) for w in ws], 1e-10, 0, f"A (theta {theta})")
    close(a[-3:], [1, 1, float(f(0.5))], 1e-10, 0, "A at 0, 1, 1/2")
    for w in ws:
        d = arr(k.dAdu(w)).ravel() if scalar else arr(k.dAdu(np.array([w, w])))[0]
        t_ = mp.mpf(theta)
        w_ = mp.mpf(w)
        v_ = 1 - w_
        s = w_ ** t_ + v_ ** t_
        g = w_ ** (t_ - 1) - v_ ** (t_ - 1)
        d1 = s ** (1 / t_ - 1) * g
        d2 = (1 - t_) * s ** (1 / t_ - 2) * g * g + (t_ - 1) * s ** (1 / t_ - 1) * (w_ ** (t_ - 2) + v_ ** (t_ - 2))
        close(d, [float(d1), float(d2)], 1e-8, 1e-10 * max(1, float(abs((t_ - 1) * s ** (1 / t_ - 1) * (w_ ** (t_ - 2) + v_ ** (t_ - 2))))), f"dAdu({w}) at theta {theta}")
        u, v = np.exp(-(1 - w) * 1.3), np.exp(-w * 1.3)
        close(float(k.cdf([u, v])), (u * v) ** float(k.A(w)), 1e-10, 1e-13, "cdf through the Pickands function")
    # arrays of points
    if not scalar and len(ws) > 1:
        d = arr(k.dAdu(np.array(ws)))
        check(d.shape == (len(ws), 2), f"dAdu shape {d.shape} for {len(ws)} points")
        for i, w in enumerate(ws):
            close(d[i], arr(k.dAdu(w)).ravel(), 1e-10, 1e-12, "dAdu in an array and alone")


@lru_cache(None)
def stirling(d):
    """Signed first-kind and second-kind triangles up to d."""
    s = [[1]]
    S = [[1]]
    for n in range(1, d + 1):
        s.append([(s[n - 1][k - 1] if k else 0) - (n - 1) * (s[n - 1][k] if k < n else 0) for k in range(n + 1)])
        S.append([(S[n - 1][k - 1] if k else 0) + k * (S[n - 1][k] if k < n else 0) for k in range(n + 1)])
    return s, S


def coef(d, alpha):
    """a_dk = (-1)^(d-k) sum_j alpha^j s(d,j) S(j,k) and the magnitude of the alternating terms."""
    s, S = stirling(40)
    a = mp.mpf(alpha)
    v, m = [], []
    for k in range(1, d + 1):
        terms = [a ** j * s[d][j] * S[j][k] for j in range(k, d + 1)]
        v.append((-1) ** (d - k) * mp.fsum(terms))
        m.append(max(abs(x) for x in terms))
    return v, m


@sub("P03", st.tuples(st.one_of(st.integers(1, 12), st.integers(1, 30)), st.one_of(gen.fl(0.05, 0.95), gen.fl(0.5, 0.99), st.sampled_from([0.5, 0.25, 1.0])), st.booleans(),
                      st.sampled_from(["sort", "horner", "direct", "log", "ds.direct", "diff"])), 600, 15000,
     "gumbel_coef by every method against the exact Stirling-number sum")
def coefficients(t, note):
    from copulae.archimedean.gumbel import gumbel_coef
    d, alpha, log, method = t
    if alpha == 1.0 and d > 1 and method in ("sort", "horner", "direct"):
        alpha = 0.9
    note(method, "log" if log else "plain", f"d{d}")
    v, m = coef(d, alpha)
    got = arr(gumbel_coef(d, alpha, method, log))
    check(got.shape == (d,), f"{got.shape} coefficients for d={d}")
    for k in range(d):
        mag = m[k]
        if method in ("log", "ds.direct", "diff"):
            # terms of the Sibuya sum: d!/k! * C(k,j)*C(alpha j, d)
            mag = max(abs(mp.factorial(d) / mp.factorial(k + 1) * mp.binomial(k + 1, j) * mp.binomial(mp.mpf(alpha) * j, d)) for j in range(1, k + 2))
            mag = max(mag, v[k], mp.mpf(2) ** (k + 1) * abs(mp.factorial(d) / mp.factorial(k + 1) * mp.binomial(mp.mpf(alpha) * (k + 1), d)) if method == "diff" else 0)
        if v[k] == 0:
            if not log:
                check(abs(got[k]) <= 1e-12 * float(mag) + 1e-14, f"{method} coefficient {k} at d={d}, alpha={alpha} is {got[k]}, expected 0")
            continue
        loss = float(mag / abs(v[k])) * 1e-13
        if loss > 1e-4:
            continue
        w = float(mp.log(v[k])) if log else float(v[k])
        check(abs(got[k] - w) <= (1e-9 + loss) * (1 + abs(w) if log else abs(w)),
              f"{method} coefficient {k + 1} at d={d}, alpha={alpha}, log={log} is {got[k]!r}, expected {w!r}")


@sub("P03", st.tuples(st.integers(1, 12), gen.fl(0.05, 0.9), st.lists(gen.fl(-6, 5), min_size=1, max_size=5), st.booleans(),
                      st.sampled_from(["default", "pois", "direct", "log", "sort"])), 500, 12000,
     "gumbel_poly by every method against the exact polynomial")
def polynomial(t, note):
    from copulae.archimedean.gumbel import gumbel_poly
    d, alpha, lx, log, method = t
    note(method, "log" if log else "plain")
    v, m = coef(d, alpha)
    got = arr(gumbel_poly(np.array(lx), alpha, d, method, log))
    check(got.shape == (len(lx),), f"{got.shape} values for {len(lx)} arguments")
    for x, g in zip(lx, got):
        X = mp.exp(x)
        w = mp.fsum(a * X ** (k + 1) for k, a in enumerate(v))
        mag = mp.fsum(a * X ** (k + 1) for k, a in enumerate(m))
        if method == "log":
            mag = mp.fsum(mp.factorial(d) / mp.factorial(k) * X ** k * max(abs(mp.binomial(k, j) * mp.binomial(mp.mpf(alpha) * j, d)) for j in range(1, k + 1))
                          for k in range(1, d + 1))
        if method == "pois":
            mag = mp.fsum(X ** k * mp.exp(X) * abs(mp.ff(mp.mpf(alpha) * k, d)) / mp.factorial(k) for k in range(1, d + 1))
        loss = float(mag / w) * 1e-13
        if loss > 1e-4 or not np.isfinite(loss):
            note("ill-conditioned")
            continue
        w = float(mp.log(w)) if log else float(w)
        check(abs(g - w) <= (1e-8 + loss) * (1 + abs(w) if log else abs(w)), f"{method} polynomial d={d} alpha={alpha} log x={x} log={log}: {g!r}, expected {w!r}")


@sub("P03", st.tuples(st.integers(0, 12), st.integers(0, 12), gen.fl(0.05, 0.98), st.booleans(), st.sampled_from(["log", "direct", "diff"])), 400, 8000,
     "dsum_sibuya by every method against the exact alternating sum")
def sibuya(t, note):
    from copulae.archimedean.auxiliary import dsum_sibuya
    x, n, alpha, log, method = t
    x, n = max(x, n), max(min(x, n), 1)
    note(method)
    terms = [mp.binomial(n, j) * mp.binomial(mp.mpf(alpha) * j, x) * (-1) ** (x - j) for j in range(1, n + 1)]
    w = mp.fsum(terms)
    mag = max(abs(z) for z in terms + [mp.mpf(2) ** n * max(abs(mp.binomial(mp.mpf(alpha) * j, x)) for j in range(n + 1))])
    if x == 0:
        note.skip("x=0")
        return
    got = arr(dsum_sibuya(x, n, alpha, method, log))
    check(got.shape == (1,), f"shape {got.shape}")
    loss = float(mag) * 1e-13
    if float(w) < 1e4 * loss:
        note.skip("ill-conditioned")
        return
    g = float(got[0])
    check(abs((np.exp(g) if log else g) - float(w)) <= loss + 1e-9 * float(w), f"dsum_sibuya({x}, {n}, {alpha}, {method!r}, log={log}) = {g!r}, expected {float(w)!r}")
    # vector call
    xs = list(range(n, n + 4))
    v = arr(dsum_sibuya(xs, [n] * 4, alpha, method))
    one = [float(arr(dsum_sibuya(q, n, alpha, method))[0]) for q in xs]
    close(v, one, 1e-12, 1e-15, "vector against one at a time")
