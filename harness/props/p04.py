from hypothesis import strategies as st

import gen
import numpy as np
import ref
from core import arr, check, close, fail, sub
from props.util import make_arch

ASSUMPTIONS = ["reference closed forms for tau, rho, tail dependence and their derivatives with 50 digits (mpmath)",
               "Frank's tau and rho lose digits like 1e-16/theta near theta = 0; tolerances follow"]

mp = ref.mp
FAMS = ("clayton", "frank", "gumbel")


def num(x):
    return float(np.asarray(x).reshape(()))


def lost(c):
    t = abs(c["theta"])
    return 1e-10 + (1e-14 / t if c["fam"] == "frank" and t > 1e-9 else 0)


@sub("P04", gen.arch(FAMS, (2, 5)), 800, 20000, "tau (and Frank's rho) against the closed form, zero at independence and with the sign of the dependence")
def measures(c, note):
    k = make_arch(c)
    note(c["fam"], "neg" if c["theta"] < 0 else "pos")
    w = float(ref.tau(c["fam"], c["theta"]))
    check(abs(num(k.tau) - w) <= lost(c), f"tau of {c} is {k.tau!r}, expected {w!r}")
    if c["fam"] == "frank":
        w = float(ref.rho(c["fam"], c["theta"]))
        check(abs(num(k.rho) - w) <= 10 * lost(c), f"rho of {c} is {k.rho!r}, expected {w!r}")
    # changing the parameter changes the measure with it
    k.params = abs(c["theta"]) + 1.5
    w = float(ref.tau(c["fam"], abs(c["theta"]) + 1.5))
    check(abs(num(k.tau) - w) <= 1e-10, f"tau after setting theta is {k.tau!r}, expected {w!r}")


@sub("P04", gen.arch(FAMS, (2, 2), max_theta={"clayton": 8.0, "frank": 25.0, "gumbel": 8.0}), 120, 2500,
     "tau and rho against quadrature of the copula's own cdf (rho) and generator (tau)")
def implied(c, note):
    k = make_arch(c)
    note(c["fam"], "neg" if c["theta"] < 0 else "pos")
    if c["fam"] == "frank":
        x, w = np.polynomial.legendre.leggauss(60)
        x, w = (x + 1) / 2, w / 2
        g = np.array([[a, b] for a in x for b in x])
        v = 12 * (np.outer(w, w).ravel() * arr(k.cdf(g))).sum() - 3
        check(abs(v - num(k.rho)) < 2e-4, f"rho of {c}: {k.rho!r} but the cdf implies {v!r}")
    # tau = 1 + 4 int ipsi/ipsi'
    x, w = np.polynomial.legendre.leggauss(80)
    x, w = (x + 1) / 2, w / 2
    s = arr(k.ipsi(x)) / arr(k.dipsi(x))
    v = 1 + 4 * (w * s).sum()
    check(abs(v - num(k.tau)) < 2e-3, f"tau of {c}: {k.tau!r} but the generator implies {v!r}")
    # lower and upper conditional tail probabilities along the diagonal approach lambda_
    lo, up = k.lambda_
    q = np.array([1e-2, 1e-3, 1e-4])
    cl = arr(k.cdf(np.column_stack([q, q]))) / q
    cu = (2 * q - 1 + arr(k.cdf(np.column_stack([1 - q, 1 - q])))) / q
    for nm, lam, s in (("lower", float(lo), cl), ("upper", float(up), cu)):
        check(abs(s[2] - lam) <= abs(s[0] - lam) + 1e-4, f"{nm} tail index of {c} is {lam}, conditional tail probabilities {s}")
        # the approach is geometric in q: extrapolate
        d1, d2 = s[1] - s[0], s[2] - s[1]
        if abs(d2) < 0.5 * abs(d1) and abs(d1) > 1e-9:
            lim = s[2] + d2 * (d2 / d1) / (1 - d2 / d1)
            check(abs(lim - lam) < 0.02 + abs(d2), f"{nm} tail index of {c} is {lam}, conditional tail probabilities {s} tend to {lim}")


@sub("P04", gen.arch(FAMS, (2, 5)), 400, 8000, "lambda_ against the closed forms")
def tails(c, note):
    k = make_arch(c)
    t = c["theta"]
    note(c["fam"])
    lo, up = 0.0, 0.0
    if c["fam"] == "clayton" and t > 0:
        lo = 2 ** (-1 / t)
    if c["fam"] == "gumbel":
        up = 2 - 2 ** (1 / t)
    lam = k.lambda_
    close(num(lam[0]), lo, 1e-10, 1e-12, f"lower tail index of {c}")
    close(num(lam[1]), up, 1e-10, 1e-12, f"upper tail index of {c}")
    check(lam.lower == lam[0] and lam.upper == lam[1], "lambda_ fields")


def d_tau(fam, t):
    t = mp.mpf(t)
    if fam == "clayton":
        return 2 / (t + 2) ** 2
    if fam == "gumbel":
        return 1 / t ** 2
    if abs(t) < mp.mpf("1e-6"):
        return mp.mpf(1) / 9 - t ** 2 / 300
    return mp.diff(lambda x: ref.tau(fam, x), t, h=mp.mpf("1e-12"))


def d_rho(t):
    t = mp.mpf(t)
    if abs(t) < mp.mpf("1e-6"):
        return mp.mpf(1) / 6 - t ** 2 / 150
    return mp.diff(lambda x: ref.rho("frank", x), t, h=mp.mpf("1e-12"))


@sub("P04", st.tuples(gen.arch(FAMS, (2, 4)), st.lists(gen.fl(0.05, 25), min_size=0, max_size=4)), 300, 6000,
     "dtau and drho at the copula's parameter and at given (scalar and array) parameters against the exact derivative")
def derivatives(t, note):
    c, xs = t
    k = make_arch(c)
    fam, th = c["fam"], c["theta"]
    note(fam, "neg" if th < 0 else "pos", f"x{len(xs)}")
    tol = lambda x: 1e-6 if fam == "frank" and abs(x) < 0.05 else 1e-8
    w = float(d_tau(fam, th))
    check(abs(num(k.dtau()) - w) <= tol(th) * max(1, abs(w)), f"dtau() of {c} is {k.dtau()!r}, expected {w!r}")
    if fam == "frank":
        w = float(d_rho(th))
        check(abs(num(k.drho()) - w) <= 10 * tol(th), f"drho() of {c} is {k.drho()!r}, expected {w!r}")
    if fam != "gumbel":  # at independence, whatever the copula's own parameter
        z = 0.5 if fam == "clayton" else 1 / 9
        for o in (0, 0.0, np.array(0.0), np.array([0.0])):
            check(abs(num(k.dtau(o)) - z) < 1e-8, f"dtau({o!r}) of {c} is {k.dtau(o)!r}, expected {z!r}")
            if fam == "frank":
                check(abs(num(k.drho(o)) - 1 / 6) < 1e-8, f"drho({o!r}) of {c} is {k.drho(o)!r}, expected 1/6")
    if xs:
        xs = [1 + x for x in xs] if fam == "gumbel" else ([x if i % 2 == 0 or c["dim"] > 2 or fam == "clayton" else -x for i, x in enumerate(xs)])
        if fam == "clayton" and c["dim"] == 2:
            xs = xs + [-0.5]
        a = xs[0] if len(xs) == 1 else np.array(xs)
        close(np.ravel(arr(k.dtau(a))), [float(d_tau(fam, x)) for x in xs], 1e-6, 1e-7, f"dtau({xs})")
        if fam == "frank":
            close(np.ravel(arr(k.drho(a))), [float(d_rho(x)) for x in xs], 1e-6, 1e-6, f"drho({xs})")


@sub("P04", st.tuples(gen.arch(FAMS, (2, 4)), gen.fl(0.05, 0.9), st.integers(0, 3)), 60, 600, "itau at perfect dependence is the limit of the family, alone and next to other values")
def perfect(t, note):
    c, x, form = t
    k = make_arch(c)
    fam = c["fam"]
    note(fam, f"form {form}")
    top = [1, 1.0, np.array(1.0), [1.0]][form]
    with np.errstate(all="ignore"):
        a = np.ravel(arr(k.itau(top)))
        check(a[0] > 1e12, f"itau(1) of {fam} is {a[0]!r}")
        b = np.ravel(arr(k.itau(np.array([x, 1.0, x / 2]))))
        check(b[1] > 1e12, f"itau of {[x, 1.0, x / 2]} is {b.tolist()}")
        close(b[[0, 2]], [num(k.itau(x)), num(k.itau(x / 2))], 1e-9, 0, "values next to perfect dependence")
        if fam == "clayton":
            check(num(k.itau(-1.0)) == -1, f"itau(-1) of clayton is {k.itau(-1.0)!r}")
        elif fam == "frank":
            check(num(k.itau(-1.0)) < -1e12, f"itau(-1) of frank is {k.itau(-1.0)!r}")


@st.composite
def taus(draw):
    fam = draw(st.sampled_from(FAMS))
    pos = st.one_of(gen.fl(0.001, 0.95), gen.fl(0.01, 0.9), gen.fl(0.9, 0.985))
    t = pos if fam == "gumbel" else st.one_of(pos, pos.map(lambda x: -x), st.just(0.0))
    xs = draw(st.lists(st.one_of(t, st.just(0.0)), min_size=1, max_size=6))
    return {"fam": fam, "taus": xs, "form": draw(st.sampled_from(["array", "scalar", "list", "2d"])), "theta": 2.0, "dim": 2}


@sub("P04", taus(), 500, 10000, "itau: the exact tau of the returned parameter is the given tau, elementwise, for scalars, lists, vectors and matrices")
def inversion(c, note):
    k = make_arch(c)
    fam, xs = c["fam"], c["taus"]
    note(fam, c["form"], f"n{len(xs)}")
    if c["form"] == "scalar":
        res = [num(k.itau(x)) for x in xs]
    elif c["form"] == "2d" and len(xs) % 2 == 0:
        a = np.array(xs).reshape(2, -1)
        b = a.copy()
        r = arr(k.itau(a))
        check((a == b).all(), "itau changed its argument")
        check(r.size == a.size and (r.shape == a.shape or a.size == 1 or a.shape[1] == 1), f"itau of shape {a.shape} has shape {r.shape}")
        res = list(np.ravel(r))
    else:
        a = list(xs) if c["form"] == "list" else np.array(xs)
        b = list(xs)
        r = arr(k.itau(a))
        check(list(a) == b, "itau changed its argument")
        check(r.size == len(xs), f"itau of {len(xs)} values has shape {r.shape}")
        res = list(np.ravel(r))
    for t, x in zip(res, xs):
        if x == 0:
            check(abs(t - (1.0 if fam == "gumbel" else 0.0)) < 1e-9, f"{fam} itau(0) = {t}")
            continue
        back = float(ref.tau(fam, t))
        check(abs(back - x) <= 1e-7, f"{fam} itau({x}) = {t!r}, whose tau is {back!r}")
    # monotone and consistent with the copula's own tau
    k.params = res[0]
    check(abs(num(k.tau) - xs[0]) <= 1e-7, f"tau of the copula set to itau({xs[0]}) is {k.tau!r}")
