"""Distribution tests with an explicit false-alarm bound."""
import numpy as np
from scipy import stats

from core import arr, check, fail

P0 = 1e-11  # per-comparison false-alarm probability (exact binomial tails, DKW for margins)


def binom_check(k, n, p, what):
    """k successes in n independent trials of probability p (exact two-sided tail)."""
    p = min(max(p, 0.0), 1.0)
    pv = 2 * min(stats.binom.cdf(k, n, p), stats.binom.sf(k - 1, n, p))
    if pv < P0:
        fail(f"{what}: {k} of {n} draws, expected about {n * p:.1f} (p-value {pv:.1e})")


def uniform_margins(u, what):
    n = len(u)
    check(bool(np.isfinite(u).all()), f"{what}: non-finite draws")
    check(bool((u >= 0).all() and (u <= 1).all()), f"{what}: draws outside the unit hypercube, range {u.min()}..{u.max()}")
    band = np.sqrt(np.log(2 / P0) / (2 * n))  # Dvoretzky-Kiefer-Wolfowitz
    g = np.arange(1, n + 1) / n
    for j in range(u.shape[1]):
        s = np.sort(u[:, j])
        d = max(np.max(g - s), np.max(s - (g - 1 / n)))
        check(d <= band, f"{what}: column {j} is not uniform (Kolmogorov distance {d:.4f} > {band:.4f} for n={n})")


def orthants(u, points, probs, what):
    n = len(u)
    for p, q in zip(points, probs):
        k = int((u <= np.asarray(p)[None, :]).all(1).sum())
        binom_check(k, n, float(q), f"{what}: draws below {np.round(p, 4).tolist()}")


def rows_independent(u, what):
    """Consecutive rows (disjoint pairs) must be independent: joint frequencies of two thresholds."""
    m = len(u) // 2
    a, b = u[0:2 * m:2], u[1:2 * m:2]
    for j in range(u.shape[1]):
        for k in range(u.shape[1]):
            for x, y in ((0.5, 0.5), (0.2, 0.2), (0.2, 0.8)):
                binom_check(int(((a[:, j] <= x) & (b[:, k] <= y)).sum()), m, x * y, f"{what}: consecutive rows, columns {j},{k}, below ({x},{y})")
    # halves of the sample
    m = len(u) // 2
    a, b = u[:m], u[m:2 * m]
    for j in range(u.shape[1]):
        binom_check(int(((a[:, j] <= 0.5) & (b[:, j] <= 0.5)).sum()), m, 0.25, f"{what}: rows i and i+n/2, column {j}")
    uniq = len(np.unique(u, axis=0))
    check(uniq >= 0.98 * len(u), f"{what}: only {uniq} distinct rows among {len(u)}")


def test_points(r, d, k=8):
    """Evaluation points: interior, tail and points with some coordinates at 1 (so that sub-vectors are tested too)."""
    pts = []
    for i in range(k):
        q = r.uniform(0.05, 0.95) if i % 3 else r.choice([0.02, 0.05, 0.9, 0.97])
        p = np.clip(q + r.uniform(-0.15, 0.15, d), 0.01, 0.99) if i % 2 else r.uniform(0.05, 0.95, d)
        if d > 2 and i % 3 == 1:
            keep = r.choice(d, 2, replace=False)
            m = np.ones(d)
            m[keep] = p[keep]
            p = m
        pts.append(p)
    return pts
