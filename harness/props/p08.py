from hypothesis import strategies as st
from scipy import special

import gen
import mvnref
import numpy as np
import ref
from core import arr, check, close, fail, raises, sub
from props.p06 import ell
from props.util import make_ell

ASSUMPTIONS = ["closed forms 2/pi*asin(r), 6/pi*asin(r/2) and the t tail coefficient evaluated with mpmath / scipy.special",
               "irho is documented as not implemented for the Student copula; it must raise"]

mp = ref.mp
corr = st.one_of(gen.fl(-1, 1), gen.fl(-1, 1), st.sampled_from([0.0, 1.0, -1.0, 0.5, -0.5]), gen.logfl(1e-9, 1e-1), gen.logfl(1e-9, 1e-1).map(lambda e: 1 - e), gen.logfl(1e-9, 1e-1).map(lambda e: e - 1))


def flat(x):
    return np.atleast_1d(arr(x)).ravel()


def set_corr(c, vals):
    """Bivariate copulas hold any correlation in [-1, 1]; larger ones a valid matrix."""
    return make_ell(dict(c, rho=vals))


@sub("P08", st.tuples(ell(dims=(2, 6)), corr), 1200, 20000, "tau, rho, dtau, drho of the copula against the closed forms; Student equals Gaussian; kept in step with the parameters")
def measures(t, note):
    c, r = t
    if c["dim"] == 2:
        c = dict(c, rho=[r])
    k = make_ell(c)
    note(c["fam"], f"d{c['dim']}")
    v = np.array(c["rho"])
    close(flat(k.tau), 2 / np.pi * np.arcsin(v), 1e-13, 1e-14, f"tau of {c}")
    close(flat(k.rho), 6 / np.pi * np.arcsin(v / 2), 1e-13, 1e-14, f"rho of {c}")
    with np.errstate(all="ignore"):
        dt = 2 / np.pi / np.sqrt((1 - v) * (1 + v))
    ok = 1 - np.abs(v) > 1e-7
    close(flat(k.drho()), 6 / np.pi / np.sqrt(4 - v * v), 1e-12, 0, f"drho of {c}")
    g = flat(k.dtau())
    close(g[ok], dt[ok], 1e-7, 0, f"dtau of {c}")
    check((g[np.abs(v) == 1] == np.inf).all(), f"dtau at correlation one is {g}")
    # inversion of its own measures
    close(flat(k.itau(k.tau)), v, 0, 1e-7, f"itau(tau) of {c}")
    if c["fam"] == "gaussian":
        close(flat(k.irho(k.rho)), v, 1e-12, 1e-13, f"irho(rho) of {c}")
    # numeric derivative of the copula's own tau
    if c["dim"] == 2 and abs(r) < 0.99:
        h = 1e-5
        a, b = (make_ell(dict(c, rho=[r + s])) for s in (-h, h))
        close(flat(k.dtau()), (flat(b.tau) - flat(a.tau)) / (2 * h), 1e-4, 0, "dtau against differences of tau")
        close(flat(k.drho()), (flat(b.rho) - flat(a.rho)) / (2 * h), 1e-4, 0, "drho against differences of rho")


@sub("P08", st.tuples(st.sampled_from(["gaussian", "student"]), st.lists(corr, min_size=1, max_size=6), st.sampled_from(["scalar", "list", "vector", "matrix", "row"]), st.integers(2, 4)), 800, 12000,
     "itau, irho, dtau, drho at given values, as scalars, lists, vectors and matrices: closed form, shape, round trip")
def given(t, note):
    fam, vals, form, d = t
    k = make_ell({"fam": fam, "dim": d, "rho": [0.1] * (d * (d - 1) // 2), "df": 4.0})
    note(fam, form)
    v = np.array(vals)
    if form == "scalar":
        x, v = float(v[0]), v[:1]
    elif form == "list":
        x = vals
    elif form == "vector":
        x = v.copy()
    elif form == "matrix":
        v = np.array(vals + vals[::-1]).reshape(2, -1)
        x = v.copy()
    else:
        v = v[None, :]
        x = v.copy()

    def cmp(got, want, what, rt=1e-12, at=1e-13):
        g = arr(got)
        if want.size > 1:
            check(g.shape == want.shape, f"{what}: shape {g.shape}, expected {want.shape}")
        close(g.ravel(), want.ravel(), rt, at, what)

    cmp(k.itau(x), np.sin(np.pi / 2 * v), f"itau({x})")
    if fam == "gaussian":
        cmp(k.irho(x), 2 * np.sin(np.pi / 6 * v), f"irho({x})")
        cmp(k.itau(tau=x), np.sin(np.pi / 2 * v), f"itau(tau={x})")
        cmp(k.irho(rho=x), 2 * np.sin(np.pi / 6 * v), f"irho(rho={x})")
    else:
        raises(Exception, lambda: k.irho(x), "Student irho")
    cmp(k.drho(x), 6 / np.pi / np.sqrt(4 - v ** 2), f"drho({x})")
    with np.errstate(all="ignore"):
        w = 2 / np.pi / np.sqrt((1 - v) * (1 + v))
    cmp(k.dtau(x), w, f"dtau({x})", 1e-6)
    cmp(k.dtau(x=x), w, f"dtau(x={x})", 1e-6)
    if isinstance(x, np.ndarray):
        check(np.array_equal(x, v), "the argument changed")


@sub("P08", st.tuples(ell(dims=(2, 5), df=st.one_of(gen.logfl(0.2, 200.0), gen.logfl(0.2, 200.0), gen.logfl(100.0, 1e5), st.integers(1, 30).map(float), st.just(float("inf")))), corr, gen.fl(0.05, 8), st.booleans()), 1200, 15000,
     "lambda_ against the closed form, symmetric, zero for Gaussian below correlation one")
def tails(t, note):
    c, r, gap, near = t
    if near and c["fam"] == "student" and np.isfinite(c["df"]):
        r = max(1 - gap / (c["df"] + 1), -1.0)  # strong enough for a visible coefficient
    if c["dim"] == 2:
        c = dict(c, rho=[r])
    k = make_ell(c)
    note(c["fam"])
    v = np.array(c["rho"])
    lo, up = k.lambda_
    lo, up = flat(lo), flat(up)
    check(np.array_equal(lo, up), f"lower {lo} and upper {up} tail coefficients differ")
    check(np.array_equal(flat(k.lambda_.lower), lo) and np.array_equal(flat(k.lambda_.upper), up), "named fields")
    if c["fam"] == "gaussian" or np.isinf(c["df"]):
        want = (v == 1).astype(float)
    else:
        n = c["df"] + 1
        with np.errstate(all="ignore"):
            q = -np.sqrt(n * (1 - v) / (1 + v))
        # t cdf through the incomplete beta function
        z = np.where(np.isinf(q), 0.0, n / (n + np.where(np.isinf(q), 0, q) ** 2))
        want = special.betainc(n / 2, 0.5, z)
        want = np.where(v == -1, 0.0, np.where(v == 1, 1.0, want))
    check(lo.shape == v.shape, f"{lo.shape} coefficients for {len(v)} pairs")
    check((lo >= 0).all() and (lo <= 1).all(), f"coefficients {lo}")
    close(lo, want, 1e-7, 1e-10, f"tail coefficients of {c}")


@sub("P08", gen.fl(-0.95, 0.95), 60, 600, "Spearman rho from integrating the Gaussian copula's own cdf; Kendall tau from its orthant probability", shrink=False)
def implied(r, note):
    k = make_ell({"fam": "gaussian", "dim": 2, "rho": [r]})
    note("r>0" if r > 0 else "r<=0")
    x, w = np.polynomial.legendre.leggauss(24)
    x, w = (x + 1) / 2, w / 2
    g = np.array([[a, b] for a in x for b in x])
    s = 12 * float((np.outer(w, w).ravel() * arr(k.cdf(g))).sum()) - 3
    check(abs(s - float(flat(k.rho)[0])) < 5e-4, f"rho is {k.rho}, the cdf of correlation {r} implies {s!r}")
    b = 4 * float(k.cdf([0.5, 0.5])) - 1  # medial correlation: equals tau for elliptical copulas
    check(abs(b - float(flat(k.tau)[0])) < 1e-8, f"tau is {k.tau}, the quadrant probability implies {b!r}")
