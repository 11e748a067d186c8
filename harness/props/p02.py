from hypothesis import strategies as st

import gen
import numpy as np
import pandas as pd
import ref
from core import arr, check, close, fail, sub
from props.p01 import limit_pts
from props.util import make_arch

ASSUMPTIONS = ["reference: mixed derivative through exact power-series arithmetic of the generator with 80 digits (mpmath)",
               "Clayton points satisfy |theta*log(u)| < 600 (double range of u**-theta)"]

FAMS = ("clayton", "frank", "gumbel")


@st.composite
def cases(draw, n=(1, 4), dims=(2, 7), coord=None, **k):
    if draw(st.integers(0, 14)) == 0:
        c = {"fam": "indep", "dim": draw(st.integers(*dims)), "theta": 0.0}
    else:
        c = draw(gen.arch(FAMS, dims, **k))
    c["pts"] = draw(gen.points(c["dim"], n, gen.unit_open(1e-8) if coord is None else coord))
    return limit_pts(c)


def log_ref(c, p):
    v = ref.pdf(c["fam"], c["theta"], p)
    return float(ref.mp.log(v)) if v > 0 else -np.inf


def slack(c, p):
    """Conditioning of the log density in the (rounded) generator sum."""
    tol = 1e-8
    if c["fam"] == "clayton" and c["theta"] < 0:
        s = -np.expm1(-c["theta"] * np.log(np.asarray(p))).sum()
        tol += abs(1 / c["theta"] + len(p)) * 1e-14 * s / max(abs(1 - s), 1e-300)
    if c["fam"] == "gumbel":
        tol += 1e-9 * c["dim"] + (c["theta"] + 1) * sum(1e-15 / max(-np.log(x), 1e-300) for x in p)
    if c["fam"] == "frank":
        tol += 1e-12 / max(min(p), 1e-300) * 1e-4
    return tol


def compare(c, got, pts, what):
    got = np.atleast_1d(arr(got))
    check(got.shape == (len(pts),), f"{what}: {got.shape} values for {len(pts)} rows")
    for g, p in zip(got, pts):
        w = log_ref(c, p)
        if w == -np.inf:
            if slack(c, p) < 1e-3:
                check(g == -np.inf, f"{what}: log density {g} at {list(p)}, outside the support")
        else:
            s = slack(c, p)
            if s < 1e-2:
                check(abs(g - w) <= s * (1 + abs(w)), f"{what}: log density {g!r} at {list(p)}, expected {w!r}")


@sub("P02", cases(), 1500, 25000, "random family x dim x theta x interior points: log pdf and pdf against the exact mixed derivative of the cdf")
def closed_form(c, note):
    k = make_arch(c)
    pts = np.array(c["pts"])
    note(c["fam"], "neg" if c["theta"] < 0 else "pos", f"d{c['dim']}")
    lg = k.pdf(pts.copy(), log=True)
    compare(c, lg, pts, f"{c['fam']} dim {c['dim']} theta {c['theta']}")
    p = np.atleast_1d(arr(k.pdf(pts.copy())))
    check((p >= 0).all(), f"negative or NaN density {p}")
    close(p, np.exp(np.atleast_1d(lg)), 1e-9, 1e-300, "pdf against exp(log pdf)")


def gumbel_slack(d, alpha):
    """Observed cancellation of the direct sum below the alpha where the exact sum takes over (times 10 and more)."""
    if d > 50 and 0.6 < alpha < 0.705:
        return 3e-3
    if d > 40 and 0.65 < alpha < 0.805:
        return 1e-4
    return 1e-5 if d > 50 and alpha < 0.705 else 1e-6


@sub("P02", cases(dims=(8, 70), n=(1, 2), coord=gen.fl(0.02, 0.98), indep_ok=False, neg=False), 250, 4000,
     "dimensions 8-70 (the generic branches of the density polynomials) against the exact mixed derivative")
def high_dim(c, note):
    k = make_arch(c)
    pts = np.array(c["pts"])
    note(c["fam"], f"d{c['dim'] // 10 * 10}+")
    got = np.atleast_1d(arr(k.pdf(pts.copy(), log=True)))
    for g, p in zip(got, pts):
        w = log_ref(c, p)
        tol = max(1e-5, gumbel_slack(c["dim"], 1 / c["theta"])) if c["fam"] == "gumbel" else 1e-5
        check(abs(g - w) <= tol * (1 + abs(w)), f"{c['fam']} dim {c['dim']} theta {c['theta']}: log density {g!r} at {list(p)}, expected {w!r}")


@sub("P02", cases(dims=(71, 160), n=(1, 1), coord=gen.fl(0.02, 0.98), indep_ok=False, neg=False), 60, 1200,
     "dimensions 71-160 against the exact mixed derivative")
def huge_dim(c, note):
    k = make_arch(c)
    pts = np.array(c["pts"])
    note(c["fam"], f"d{c['dim'] // 20 * 20}+")
    got = np.atleast_1d(arr(k.pdf(pts.copy(), log=True)))
    for g, p in zip(got, pts):
        w = log_ref(c, p)
        check(abs(g - w) <= 1e-5 * (1 + abs(w)), f"{c['fam']} dim {c['dim']} theta {c['theta']}: log density {g!r} at {list(p)}, expected {w!r}")


@st.composite
def weak(draw):
    d = draw(st.one_of(st.integers(8, 70), st.integers(26, 52)))
    return {"fam": "gumbel", "dim": d, "theta": 1 + 10 ** draw(st.one_of(gen.fl(-6, 0.3), gen.fl(-1.8, -0.3))), "power": 10 ** draw(st.one_of(gen.fl(-2, 0.5), gen.fl(-1, -0.1))), "pts": draw(gen.points(d, (1, 3), gen.fl(0.02, 0.98)))}


@sub("P02", weak(), 400, 6000, "weakly dependent Gumbel copulas of dimension 8-70, where the terms of the density polynomial cancel, against the exact mixed derivative")
def weak_gumbel(c, note):
    pts = np.array(c["pts"]) ** c["power"]
    note(f"d{c['dim'] // 10 * 10}+")
    got = np.atleast_1d(arr(make_arch(c).pdf(pts.copy(), log=True)))
    for g, p in zip(got, pts):
        w = log_ref(c, p)
        check(abs(g - w) <= gumbel_slack(c["dim"], 1 / c["theta"]) * (1 + abs(w)), f"gumbel dim {c['dim']} theta {c['theta']!r}: log density {g!r} at {list(p)}, expected {w!r}")


BAD = [float("nan"), -0.25, 1.5, -1e-9, 1 + 1e-9, float("inf"), float("-inf")]


@sub("P02", st.tuples(cases(n=(1, 4)), st.lists(st.tuples(st.integers(0, 4), st.integers(0, 9), st.sampled_from(range(len(BAD)))),
                                                min_size=1, max_size=3), st.booleans(), st.booleans()), 800, 12000,
     "batches mixing valid rows with rows outside the cube or NaN: NaN exactly there, valid rows as when evaluated alone")
def invalid_rows(t, note):
    c, bads, log, frame = t
    if c["fam"] == "indep":
        note.skip("independence has a constant density")
        return
    k = make_arch(c)
    rows = [list(p) for p in c["pts"]]
    ok = [True] * len(rows)
    for pos, col, b in bads:
        r = list(rows[0]) if ok[0] else [0.5] * c["dim"]
        r[col % c["dim"]] = BAD[b]
        i = min(pos, len(rows))
        rows.insert(i, r)
        ok.insert(i, False)
    note(c["fam"], "log" if log else "plain", f"bad{len(bads)}")
    x = np.array(rows)
    got = np.atleast_1d(arr(k.pdf(pd.DataFrame(x) if frame else x.copy(), log=log)))
    check(got.shape == (len(rows),), f"{got.shape} values for {len(rows)} rows")
    for i, r in enumerate(rows):
        if ok[i]:
            alone = float(k.pdf(np.array(r), log=log))
            close(got[i], alone, 1e-12, 1e-300, f"row {i} evaluated next to invalid rows")
        else:
            check(np.isnan(got[i]), f"{c['fam']} density {got[i]} for the invalid row {r}")


@sub("P02", cases(n=(1, 3)), 300, 8000, "permuting coordinates leaves the density unchanged; density of a sub-batch equals the batch")
def symmetric(c, note):
    k = make_arch(c)
    note(c["fam"])
    pts = np.array(c["pts"])
    a = np.atleast_1d(arr(k.pdf(pts.copy(), log=True)))
    perm = np.argsort(pts[0] * np.cos(np.arange(c["dim"])), kind="stable")
    b = np.atleast_1d(arr(k.pdf(pts[:, perm].copy(), log=True)))
    for i, p in enumerate(pts):
        if slack(c, p) > 1e-3:
            continue
        check(a[i] == b[i] or abs(a[i] - b[i]) <= slack(c, p) * (1 + abs(a[i])), f"log density {a[i]} becomes {b[i]} under the permutation {perm}")


@sub("P02", st.tuples(gen.arch(FAMS, (2, 2), max_theta={"clayton": 4.0, "frank": 12.0, "gumbel": 3.5}),
                      st.lists(gen.fl(0.08, 0.92), min_size=4, max_size=4)), 120, 3000,
     "2-d: integrating the code's own pdf over a rectangle gives the volume the code's own cdf assigns to it")
def integrates_to_cdf(t, note):
    c, q = t
    k = make_arch(c)
    a, b = sorted(q[:2])
    e, f = sorted(q[2:])
    b, f = max(b, min(a + 0.05, 0.95)), max(f, min(e + 0.05, 0.95))
    note(c["fam"])
    if c["fam"] == "clayton" and c["theta"] < 0 and a ** -c["theta"] + e ** -c["theta"] - 1 < 0.05:
        note.skip("support boundary")
        return
    x, w = np.polynomial.legendre.leggauss(40)
    X, Y = (a + b) / 2 + (b - a) / 2 * x, (e + f) / 2 + (f - e) / 2 * x
    g = np.array([[u, v] for u in X for v in Y])
    val = (np.outer(w, w).ravel() * arr(k.pdf(g))).sum() * (b - a) * (f - e) / 4
    vol = float(k.cdf([b, f])) - float(k.cdf([a, f])) - float(k.cdf([b, e])) + float(k.cdf([a, e]))
    check(abs(val - vol) < 2e-6, f"{c}: integral of pdf over [{a},{b}]x[{e},{f}] is {val}, the cdf gives {vol}")


@sub("P02", st.tuples(gen.fl(-0.97, -0.03), gen.unit_open(1e-4), gen.logfl(1e-7, 0.3), st.booleans()), 300, 5000,
     "bivariate Clayton with negative parameter beside the border of its support: zero outside, the exact density inside")
def support_border(t, note):
    th, u, eps, inside = t
    a = u ** -th  # the support is u**-theta + v**-theta > 1
    b = (1 - a) * (1 + eps) if inside else (1 - a) * (1 - eps)
    v = b ** (-1 / th)
    if not 1e-12 < v < 1 - 1e-12:
        note.skip("outside the unit square")
        return
    note("inside" if inside else "outside")
    c = {"fam": "clayton", "dim": 2, "theta": th, "pts": [[u, v]]}
    k = make_arch(c)
    compare(c, k.pdf([u, v], log=True), c["pts"], f"clayton theta {th}")
    p = float(k.pdf([u, v]))
    check(p >= 0, f"density {p}")
    if not inside and eps > 1e-6:
        check(p == 0 and float(k.cdf([u, v])) == 0, f"clayton theta {th}: density {p} and cdf {k.cdf([u, v])} at {(u, v)}, outside the support")
