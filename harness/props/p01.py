from hypothesis import strategies as st

import gen
import numpy as np
import ref
from core import arr, check, close, fail, sub
from props.util import make, make_arch

ASSUMPTIONS = ["reference: textbook closed forms evaluated with 50 digits (mpmath)",
               "coordinates are limited so that generator values such as u**-theta fit in a double"]

FAMS = ("clayton", "frank", "gumbel")


def limit_pts(c):
    """Moves coordinates up so that |theta*log(u)| < 600 for Clayton (double range of u**-theta)."""
    if c["fam"] == "clayton" and c["theta"]:
        lo = float(np.exp(-600 / abs(c["theta"])))
        c["pts"] = [[x if x == 0 else max(x, lo) for x in p] for p in c["pts"]]
    return c


@st.composite
def cases(draw, coord=None, n=(1, 5), dims=(2, 8)):
    if draw(st.integers(0, 9)) == 0:
        c = {"fam": "indep", "dim": draw(st.one_of(st.integers(*dims), st.integers(dims[0], 60))), "theta": 0.0}
        if coord is None and draw(st.booleans()):
            coord = gen.unit_open(1e-250)
    else:
        c = draw(gen.arch(FAMS, dims))
    c["pts"] = draw(gen.points(c["dim"], n, gen.unit_open() if coord is None else coord))
    return limit_pts(c)


def tol(c):
    return 1e-10


@sub("P01", cases(), 1200, 40000, "random family x dim x theta x interior points; cdf and log cdf against the 50-digit closed form")
def closed_form(c, note):
    k = make(c)
    want = np.array([float(ref.cdf(c["fam"], c["theta"], p)) for p in c["pts"]])
    note(c["fam"], "neg" if c["theta"] < 0 else "pos", f"d{c['dim']}")
    pts = np.array(c["pts"])
    got = arr(k.cdf(pts.copy()))
    close(got.reshape(-1) if len(pts) > 1 else got, want if len(pts) > 1 else want[0], tol(c), 1e-12, f"cdf of {c}")
    lg = arr(k.cdf(pts.copy(), log=True))
    wl = np.array([float(ref.mp.log(x)) if x > 0 else -np.inf for x in (ref.cdf(c["fam"], c["theta"], p) for p in c["pts"])])
    # Archimedean values are logarithms of doubles; the independence value is a sum of logarithms
    m = (want > 1e-290) | ((c["fam"] == "indep") & np.isfinite(wl))
    if m.any():
        if c["fam"] == "indep" and (want[m] < 1e-290).any():
            note("underflow")
        neg = c["theta"] < 0  # cancellation in 1 + sum of the generators
        t = 1e-9 + (1e-12 / want[m].min() if neg else 1e-13 * abs(wl[m]).max())
        close(np.atleast_1d(lg)[m], wl[m], 1e-9, t, f"log cdf of {c}")
    z = wl == -np.inf
    if z.any():
        check((np.atleast_1d(lg)[z] == -np.inf).all(), f"log cdf of an impossible point is not -inf: {lg}")


@sub("P01", cases(coord=gen.unit_closed()), 700, 15000,
     "points on faces and corners (a coordinate exactly 0 or 1) against the closed form, with the margin and groundedness laws")
def faces(c, note):
    k = make(c)
    pts = np.array(c["pts"])
    if not ((pts == 0) | (pts == 1)).any():
        note.skip("interior")
    note(c["fam"], "has0" if (pts == 0).any() else "no0", "has1" if (pts == 1).any() else "no1")
    got = np.atleast_1d(arr(k.cdf(pts.copy())))
    check(got.shape == (len(pts),), f"cdf shape {got.shape} for {len(pts)} rows")
    want = np.array([float(ref.cdf(c["fam"], c["theta"], p)) for p in c["pts"]])
    close(got, want, tol(c), 1e-12, f"cdf of {c}")
    # one coordinate free, all others 1
    j = len(pts) % c["dim"]
    m = np.ones((3, c["dim"]))
    m[:, j] = [0.1, 0.5, max(float(pts.max(initial=0.3, where=pts < 1)), 0.05)]
    close(k.cdf(m.copy()), m[:, j], tol(c) + 1e-10, 1e-12, f"margin {j} of {c}")


@sub("P01", cases(n=(2, 4)), 500, 10000, "metamorphic laws: Frechet bounds, monotone in each coordinate, rectangle volume >= 0 (2-d), permutation symmetry")
def laws(c, note):
    k = make(c)
    pts = np.array(c["pts"])
    d = c["dim"]
    note(c["fam"])
    v = np.atleast_1d(arr(k.cdf(pts.copy())))
    eps = 1e-9
    check((v <= pts.min(1) + eps).all() and (v >= np.maximum(pts.sum(1) - d + 1, 0) - eps).all(),
          f"outside the Frechet bounds: {v} at {pts}")
    hi, lo = np.maximum(pts[0], pts[1]), np.minimum(pts[0], pts[1])
    vh, vl = (float(k.cdf(x.copy())) for x in (hi, lo))
    check(vh >= vl - eps, f"cdf decreases from {lo} ({vl}) to {hi} ({vh})")
    for j in range(d):
        mid = lo.copy()
        mid[j] = hi[j]
        check(vl - eps <= float(k.cdf(mid)) <= vh + eps, f"cdf not monotone in coordinate {j}")
    perm = np.argsort(pts[0], kind="stable")[::-1]
    close(k.cdf(pts[:, perm].copy()), v if len(v) > 1 else v[0], 1e-9, 1e-12, f"cdf under the permutation {perm}")
    if d == 2:
        vol = vh - float(k.cdf(np.array([lo[0], hi[1]]))) - float(k.cdf(np.array([hi[0], lo[1]]))) + vl
        check(vol >= -1e-9, f"negative volume {vol} of the rectangle {lo}..{hi}")
