"""Reference normal probabilities by quadrature, independent of scipy's multivariate code."""
import numpy as np
from scipy.special import ndtr, ndtri

_X, _W = np.polynomial.legendre.leggauss(80)


def _gl(a, b, m=1):
    """Composite Gauss-Legendre nodes and weights on [a, b] (arrays of a, b allowed), m panels."""
    e = np.linspace(0, 1, m + 1)
    t = np.concatenate([(e[i] + e[i + 1]) / 2 + (e[i + 1] - e[i]) / 2 * _X for i in range(m)])
    w = np.concatenate([(e[i + 1] - e[i]) / 2 * _W for i in range(m)])
    a, b = np.asarray(a, float)[..., None], np.asarray(b, float)[..., None]
    return a + (b - a) * t, (b - a) * w


def phi2(h, k, r):
    """P(X<=h, Y<=k), correlation r, vectorised in h, k, r (Drezner-Wesolowsky)."""
    h, k, r = np.broadcast_arrays(np.asarray(h, float), np.asarray(k, float), np.asarray(r, float))
    hc, kc = np.clip(h, -38, 38), np.clip(k, -38, 38)
    a = np.arcsin(np.clip(r, -1, 1))
    # the integrand sharpens near |theta| = pi/2: substitute theta = a*(1-(1-s)^2)
    s, w = _gl(np.zeros_like(a), np.ones_like(a), 6)
    th = a[..., None] * (1 - (1 - s) ** 3)
    jac = a[..., None] * 3 * (1 - s) ** 2
    c2 = np.maximum(np.cos(th) ** 2, 1e-300)
    e = np.exp(-(hc[..., None] ** 2 + kc[..., None] ** 2 - 2 * hc[..., None] * kc[..., None] * np.sin(th)) / (2 * c2))
    return ndtr(h) * ndtr(k) + (w * jac * e).sum(-1) / (2 * np.pi)


def phi3(q, R):
    """P(X<=q) in three dimensions, conditioning on the first coordinate."""
    h = q[0]
    u, w = _gl(0.0, ndtr(h), 6)
    z = ndtri(np.clip(u, 1e-300, 1 - 1e-16))
    s1, s2 = np.sqrt(1 - R[0, 1] ** 2), np.sqrt(1 - R[0, 2] ** 2)
    r = (R[1, 2] - R[0, 1] * R[0, 2]) / (s1 * s2)
    return float((w * phi2((q[1] - R[0, 1] * z) / s1, (q[2] - R[0, 2] * z) / s2, r)).sum())


def one_factor(q, b):
    """P(X<=q) where corr(i,j) = b_i b_j."""
    q, b = np.asarray(q, float), np.asarray(b, float)
    z, w = _gl(-9.0, 9.0, 12)
    f = np.exp(-z ** 2 / 2) / np.sqrt(2 * np.pi)
    p = np.ones_like(z)
    for qi, bi in zip(q, b):
        p = p * ndtr((qi - bi * z) / np.sqrt(1 - bi * bi))
    return float((w * f * p).sum())
