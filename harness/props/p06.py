import itertools

from hypothesis import strategies as st
from scipy import special

import gen
import mvnref
import numpy as np
import ref
from core import arr, check, close, fail, sub
from props.util import make_ell

ASSUMPTIONS = ["reference densities from numpy linear algebra and scipy.special quantiles; reference cdfs by deterministic quadrature",
               "the Gaussian cdf is computed by the code with a randomised rule in three or more dimensions: absolute tolerance 2e-4 there, 1e-8 in two",
               "the Student cdf is documented as not implemented and is not checked; densities are checked for non-singular matrices"]


@st.composite
def ell(draw, dims=(2, 7), strength=0.95, fam=None, df=None):
    d, r = draw(gen.dim_corr(dims, strength))
    f = fam or draw(st.sampled_from(["gaussian", "student"]))
    c = {"fam": f, "dim": d, "rho": r}
    if f == "student":
        c["df"] = draw(df if df is not None else st.one_of(gen.logfl(0.5, 60.0), st.integers(1, 30).map(float), gen.logfl(60.0, 9000.0)))
    return c


@st.composite
def pdf_cases(draw, **k):
    c = draw(ell(**k))
    c["pts"] = draw(gen.points(c["dim"], (1, 5), gen.unit_open(1e-8)))
    return c


def sigma(c):
    return ref.corr_from_lower(c["rho"], c["dim"])


def log_density(c, u):
    """Closed form of the copula density."""
    R = sigma(c)
    d = c["dim"]
    L = np.linalg.cholesky(R)
    ld = 2 * np.log(np.diag(L)).sum()
    if c["fam"] == "gaussian":
        q = special.ndtri(u)
        y = np.linalg.solve(L, q.T)
        return -0.5 * ld - 0.5 * (y ** 2).sum(0) + 0.5 * (q ** 2).sum(1)
    v = c["df"]
    q = special.stdtrit(v, u)
    y = np.linalg.solve(L, q.T)
    lj = special.gammaln((v + d) / 2) - special.gammaln(v / 2) - 0.5 * ld - d / 2 * np.log(v * np.pi) \
        - (v + d) / 2 * np.log1p((y ** 2).sum(0) / v)
    lm = special.gammaln((v + 1) / 2) - special.gammaln(v / 2) - 0.5 * np.log(v * np.pi) - (v + 1) / 2 * np.log1p(q ** 2 / v)
    return lj - lm.sum(1)


def tol(c):
    return 1e-9 + 1e-12 * np.linalg.cond(sigma(c)) + 1e-13 * c.get("df", 0)


@sub("P06", pdf_cases(), 1800, 40000, "random family x dim 2-7 x correlation matrix x df x interior points: log pdf and pdf against the closed form")
def density(c, note):
    k = make_ell(c)
    u = np.array(c["pts"])
    note(c["fam"], f"d{c['dim']}")
    want = log_density(c, u)
    lg = np.atleast_1d(arr(k.pdf(u.copy(), log=True)))
    check(lg.shape == (len(u),), f"{lg.shape} densities for {len(u)} rows")
    close(lg, want, tol(c), tol(c) * 10, f"log density {c['fam']}")
    p = np.atleast_1d(arr(k.pdf(u.copy())))
    check((p >= 0).all(), "negative density")
    close(p, np.exp(want), 100 * tol(c) * (1 + np.abs(want).max()), 1e-300, f"density {c['fam']}")


@st.composite
def far_cases(draw):
    f = draw(st.sampled_from(["gaussian", "gaussian", "student"]))
    c = draw(ell(dims=(2, 10), strength=0.9, fam=f, df=gen.logfl(2.0, 60.0)))
    lo = 1e-300 if f == "gaussian" else 1e-30
    one = st.one_of(gen.logfl(lo, 1e-5), gen.logfl(lo, 1e-5), gen.unit_open(1e-8), gen.logfl(1e-15, 1e-5).map(lambda v: 1 - v))
    c["pts"] = draw(gen.points(c["dim"], (1, 4), one))
    return c


@sub("P06", far_cases(), 500, 8000, "far corners of the cube (coordinates down to 1e-300 for the Gaussian, 1e-30 for the Student copula, up to 10 dimensions): log density and density against the closed form")
def corners(c, note):
    k = make_ell(c)
    u = np.array(c["pts"])
    note(c["fam"], f"d{c['dim']}")
    want = log_density(c, u)
    t = 1e-7 if c["fam"] == "student" else 1e-9 + 1e-12 * np.linalg.cond(sigma(c))
    size = 1 + 0.5 * (special.ndtri(u) ** 2).sum(1).max() * (1 + 1 / np.linalg.eigvalsh(sigma(c))[0])  # the terms that cancel
    lg = np.atleast_1d(arr(k.pdf(u.copy(), log=True)))
    close(lg, want, t, 1e-11 * size + t, f"log density {c['fam']} at {u.tolist()}")
    p = np.atleast_1d(arr(k.pdf(u.copy())))
    for a, w in zip(p, want):
        if abs(w) < 690:
            close(a, np.exp(w), 1e-9 * size + 100 * t, 0, f"density {c['fam']} at {u.tolist()} (log density {w})")
        else:
            check(a < 1e-290 if w < 0 else a > 1e290, f"density {a} where the log density is {w}")


def log_quantile(u, v):
    """log |t quantile| in multi-precision arithmetic."""
    mp = ref.mp
    p = min(u, 1 - u)
    v = mp.mpf(v)
    k = mp.loggamma((v + 1) / 2) - mp.loggamma(v / 2) - mp.log(v * mp.pi) / 2 + (v + 1) / 2 * mp.log(v) - mp.log(v)
    hi = (k - mp.log(p)) / v + 1  # the tail bound
    lo = mp.mpf(-60)

    def g(l):
        return mp.betainc(v / 2, mp.mpf(1) / 2, 0, v / (v + mp.exp(2 * l)), regularized=True) / 2 - p

    for _ in range(120):
        m = (lo + hi) / 2
        if g(m) > 0:
            lo = m
        else:
            hi = m
    return lo


@sub("P06", st.tuples(gen.dim_corr((2, 4), 0.9), gen.logfl(1e-3, 0.3)).flatmap(
    lambda t: st.tuples(st.just(t), gen.points(t[0][0], (1, 1), gen.fl(0.001, 0.999).filter(lambda u: abs(u - 0.5) > 1e-4)))), 60, 1000,
     "Student density for degrees of freedom down to 0.001 against multi-precision quantiles")
def small_df(t, note):
    ((d, r), df), pts = t
    k = make_ell({"fam": "student", "dim": d, "rho": r, "df": df})
    note("below 0.02" if df < 0.02 else "above 0.02")
    mp = ref.mp
    with mp.workdps(30):
        v = mp.mpf(df)
        x = mp.matrix([mp.exp(log_quantile(mp.mpf(u), df)) * (1 if u > 0.5 else -1) for u in pts[0]])
        M = mp.matrix(sigma({"rho": r, "dim": d}).tolist())
        Q = (x.T * mp.inverse(M) * x)[0]
        w = mp.loggamma((v + d) / 2) - mp.loggamma(v / 2) - mp.log(mp.det(M)) / 2 - mp.mpf(d) / 2 * mp.log(v * mp.pi) - (v + d) / 2 * mp.log(1 + Q / v)
        for a in x:
            w -= mp.loggamma((v + 1) / 2) - mp.loggamma(v / 2) - mp.log(v * mp.pi) / 2 - (v + 1) / 2 * mp.log(1 + a * a / v)
        w = float(w)
    got = k.pdf(pts, log=True)
    check(abs(got - w) <= 1e-6 * (1 + abs(w)), f"log density of Student(df={df}) rho {r} at {pts[0]}: {got!r}, expected {w!r}")


@sub("P06", pdf_cases(dims=(2, 5)), 500, 8000, "permuting coordinates together with the matrix changes nothing; reflection u -> 1-u changes nothing")
def symmetry(c, note):
    k = make_ell(c)
    u = np.array(c["pts"])
    d = c["dim"]
    note(c["fam"])
    base = np.atleast_1d(arr(k.pdf(u, log=True)))
    R = sigma(c)
    for p in list(itertools.permutations(range(d)))[1::max(1, d)]:
        p = list(p)
        c2 = dict(c, rho=ref.lower(R[np.ix_(p, p)]).tolist())
        b = np.atleast_1d(arr(make_ell(c2).pdf(u[:, p], log=True)))
        close(b, base, tol(c), 20 * tol(c), f"log density after permutation {p}")
    if u.min() > 1e-4 and u.max() < 1 - 1e-4:
        b = np.atleast_1d(arr(k.pdf(1 - u, log=True)))
        close(b, base, 1e-7, 1e-7, "log density at 1-u")


@sub("P06", ell(dims=(2, 2), strength=0.9, df=gen.fl(1.5, 60.0)).flatmap(lambda c: st.tuples(st.just(c), gen.fl(0.02, 0.98))), 300, 5000,
     "uniform margins: the density integrates to one over either coordinate")
def uniform_margin(t, note):
    c, u = t
    k = make_ell(c)
    note(c["fam"])
    x, w = mvnref._gl(-8.5, 8.5, 12)
    v = special.ndtr(x)
    jac = np.exp(-x ** 2 / 2) / np.sqrt(2 * np.pi)
    ok = (v > 1e-15) & (v < 1)
    x, w, v, jac = x[ok], w[ok], v[ok], jac[ok]
    for pts in (np.column_stack([np.full_like(v, u), v]), np.column_stack([v, np.full_like(v, u)])):
        s = float((w * jac * arr(k.pdf(pts))).sum())
        check(abs(s - 1) < 2e-5, f"density of {c} integrates to {s!r} over one coordinate at the other = {u}")


@sub("P06", st.tuples(gen.dim_corr((2, 5)), gen.logfl(1e3, 1e9), st.data() if False else st.just(0)).flatmap(
    lambda t: st.tuples(st.just(t[0]), st.just(t[1]), gen.points(t[0][0], (1, 4), gen.fl(0.001, 0.999)))), 500, 8000,
     "large df: the Student density is within O(1/df) of the Gaussian one")
def gaussian_limit(t, note):
    (d, r), df, pts = t
    u = np.array(pts)
    c = {"fam": "student", "dim": d, "rho": r, "df": df}
    g = make_ell({"fam": "gaussian", "dim": d, "rho": r})
    s = make_ell(c)
    note("above 1e4" if df > 1e4 else "below 1e4")
    a, b = np.atleast_1d(arr(g.pdf(u, log=True))), np.atleast_1d(arr(s.pdf(u, log=True)))
    y = np.linalg.solve(np.linalg.cholesky(sigma(c)), special.ndtri(u).T)
    m = 1 + (y ** 2).sum(0) + (special.ndtri(u) ** 2).sum(1)
    check((np.abs(a - b) <= (m ** 2 + d * d) / df + 1e-9).all(), f"Student({df:.4g}) log density {b}, Gaussian {a}")


@st.composite
def cdf_cases(draw):
    kind = draw(st.sampled_from(["2", "2", "2", "3", "factor", "singular"]))
    pt = lambda d: gen.points(d, (1, 4), gen.unit_closed(1e-6))
    if kind == "2":
        r = draw(st.one_of(gen.fl(-0.99, 0.99), gen.fl(-0.99, 0.99), st.sampled_from([0.0, 0.5, -0.5])))
        return {"kind": kind, "dim": 2, "rho": [r], "pts": draw(pt(2))}
    if kind == "3":
        return {"kind": kind, "dim": 3, "rho": draw(gen.corr_vec(3, 0.9)), "pts": draw(pt(3))}
    if kind == "factor":
        d = draw(st.integers(4, 6))
        return {"kind": kind, "dim": d, "b": draw(st.lists(gen.fl(-0.9, 0.9), min_size=d, max_size=d)), "pts": draw(pt(d))}
    return {"kind": kind, "dim": 2, "rho": [draw(st.sampled_from([1.0, -1.0]))], "pts": draw(pt(2))}


def cdf_ref(c, p):
    q = special.ndtri(np.array(p))
    if min(p) == 0:
        return 0.0
    if c["kind"] == "2":
        return float(mvnref.phi2(q[0], q[1], c["rho"][0]))
    if c["kind"] == "3":
        keep = [i for i in range(3) if p[i] < 1]
        R = sigma(c)
        if len(keep) <= 1:
            return min(p)
        if len(keep) == 2:
            return float(mvnref.phi2(q[keep[0]], q[keep[1]], R[keep[0], keep[1]]))
        return mvnref.phi3(q, R)
    if c["kind"] == "factor":
        return mvnref.one_factor(q, c["b"])
    return min(p) if c["rho"][0] > 0 else max(0.0, p[0] + p[1] - 1)


@sub("P06", cdf_cases(), 500, 6000, "Gaussian cdf on the closed cube against quadrature (2 and 3 dimensions, one-factor matrices in 4-6), singular matrices against the Frechet bounds")
def cdf(c, note):
    from copulae import GaussianCopula
    d = c["dim"]
    r = c.get("rho") or ref.lower(np.outer(c["b"], c["b"])).tolist()
    k = GaussianCopula(d)
    k.params = np.array(r)
    note(c["kind"])
    u = np.array(c["pts"])
    got = np.atleast_1d(arr(k.cdf(u.copy())))
    lg = np.atleast_1d(arr(k.cdf(u.copy(), log=True)))
    check(got.shape == lg.shape == (len(u),), "shape of the cdf")
    t = 1e-8 if d == 2 else 2e-4
    for i, p in enumerate(c["pts"]):
        w = cdf_ref(c, p)
        check(abs(got[i] - w) <= t, f"cdf of {c['kind']} {r} at {p}: {got[i]!r}, expected {w!r}")
        check(0 <= got[i] <= 1, f"cdf {got[i]}")
        if got[i] > 0 and (d == 2 or w > 10 * t):
            check(abs(np.exp(lg[i]) - got[i]) <= 2 * t, f"log cdf {lg[i]!r} at {p}, cdf {got[i]!r}")
        if min(p) == 0:
            check(got[i] == 0 and lg[i] == -np.inf, f"cdf at {p}: {got[i]}, log {lg[i]}")
        if sorted(p)[1] == 1:
            check(abs(got[i] - min(p)) < 1e-9, f"cdf at the margin {p}: {got[i]!r}")
    # monotone, permutation invariant
    p = list(range(d))[::-1]
    R = ref.corr_from_lower(r, d)
    k2 = GaussianCopula(d)
    k2.params = ref.lower(R[np.ix_(p, p)])
    close(np.atleast_1d(k2.cdf(u[:, p])), got, 0, 2 * t, "cdf after reversing the coordinates")
    up = np.minimum(u + 0.05, 1.0)
    check((np.atleast_1d(k.cdf(up)) >= got - 2 * t).all(), "cdf decreases")


@sub("P06", st.tuples(gen.corr_vec(2, 0.9), gen.points(2, (1, 3), gen.fl(0.05, 0.95)), st.integers(0, 0)), 150, 2000,
     "bivariate Gaussian: the density is the mixed difference of the cdf")
def mixed_difference(t, note):
    r, pts, _ = t
    k = make_ell({"fam": "gaussian", "dim": 2, "rho": r})
    note("r>0" if r[0] > 0 else "r<=0")
    h = 1e-3
    for a, b in pts:
        z = (arr(k.cdf([[a + h, b + h], [a + h, b - h], [a - h, b + h], [a - h, b - h]])) * [1, -1, -1, 1]).sum() / (4 * h * h)
        x = np.linspace(-h, h, 5)
        g = arr(k.pdf(np.array([[a + i, b + j] for i in x for j in x])))
        lo, hi = g.min(), g.max()
        check(lo - 1e-6 * (1 + hi) - 0.02 * hi <= z <= hi * 1.02 + 1e-6 * (1 + hi), f"mixed difference of the cdf at {(a, b)} is {z!r}, density between {lo!r} and {hi!r}")
