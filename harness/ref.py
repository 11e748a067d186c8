"""Independent reference values in multi-precision arithmetic (mpmath) and plain numpy."""
import mpmath as mp
import numpy as np

mp.mp.dps = 50
F = mp.mpf


# ------------------------------------------------------------------ Archimedean families
# generator psi, inverse ipsi (= phi), both as multi-precision scalars; theta=0 (Clayton, Frank) / 1 (Gumbel) is independence

def is_indep(fam, theta):
    return (fam in ("clayton", "frank") and theta == 0) or (fam == "gumbel" and theta == 1) or fam == "indep"


def ipsi(fam, theta, u):
    u, t = F(u), F(theta)
    if u == 0:
        if fam == "clayton" and theta < 0:
            return F(1)
        return mp.inf
    if is_indep(fam, theta):
        return -mp.log(u)
    if fam == "clayton":
        return mp.sign(t) * (u ** -t - 1)
    if fam == "frank":
        return -mp.log(mp.expm1(-t * u) / mp.expm1(-t))
    if fam == "gumbel":
        return (-mp.log(u)) ** t


def psi(fam, theta, s):
    t = F(theta)
    if s == mp.inf:
        return F(0)
    s = F(s)
    if is_indep(fam, theta):
        return mp.exp(-s)
    if fam == "clayton":
        b = 1 + mp.sign(t) * s
        return b ** (-1 / t) if b > 0 else F(0)
    if fam == "frank":
        return -mp.log1p(mp.exp(-s) * mp.expm1(-t)) / t
    if fam == "gumbel":
        return mp.exp(-s ** (1 / t))


def dipsi(fam, theta, u, order=1):
    """Derivative of ipsi (signed)."""
    u, t = F(u), F(theta)
    if is_indep(fam, theta):
        return -1 / u if order == 1 else 1 / u ** 2
    if fam == "clayton":
        s = mp.sign(t)
        return s * (-t) * u ** (-t - 1) if order == 1 else s * t * (t + 1) * u ** (-t - 2)
    if fam == "frank":
        e = mp.exp(-t * u)
        return t * e / mp.expm1(-t * u) if order == 1 else t * t * e / mp.expm1(-t * u) ** 2
    if fam == "gumbel":
        l = -mp.log(u)
        if order == 1:
            return -t * l ** (t - 1) / u
        return t * ((t - 1) * l ** (t - 2) + l ** (t - 1)) / u ** 2


def cdf(fam, theta, u):
    """C(u) from the family's own closed form (not through the code's generator conventions)."""
    u = [F(x) for x in u]
    if any(x == 0 for x in u):
        return F(0)
    t = F(theta)
    d = len(u)
    if is_indep(fam, theta):
        return mp.fprod(u)
    if fam == "clayton":
        b = mp.fsum(x ** -t for x in u) - d + 1
        return b ** (-1 / t) if b > 0 else F(0)
    if fam == "frank":
        return -mp.log1p(mp.fprod(mp.expm1(-t * x) for x in u) / mp.expm1(-t) ** (d - 1)) / t
    if fam == "gumbel":
        return mp.exp(-mp.fsum((-mp.log(x)) ** t for x in u) ** (1 / t))


def _exp_series(f):
    """exp of a power series."""
    n = len(f)
    e = [mp.exp(f[0])]
    for k in range(1, n):
        e.append(mp.fsum(j * f[j] * e[k - j] for j in range(1, k + 1)) / k)
    return e


def _log_series(f):
    n = len(f)
    l = [mp.log(f[0])]
    for k in range(1, n):
        l.append((f[k] - mp.fsum(j * l[j] * f[k - j] for j in range(1, k)) / k) / f[0])
    return l


def psi_deriv(fam, theta, s, d):
    """d-th derivative of psi at s, by exact power-series arithmetic."""
    t, s = F(theta), F(s)
    if is_indep(fam, theta):
        return (-1) ** d * mp.exp(-s)
    if fam == "clayton":
        g = mp.sign(t)
        b = 1 + g * s
        if b <= 0:
            return F(0)
        return mp.ff(-1 / t, d) * b ** (-1 / t - d) * g ** d
    if fam == "frank":
        c = mp.expm1(-t) * mp.exp(-s)
        ser = [1 + c] + [c * (-1) ** k / mp.factorial(k) for k in range(1, d + 1)]
        return -_log_series(ser)[d] / t * mp.factorial(d)
    if fam == "gumbel":
        a = 1 / t
        ser = [-mp.binomial(a, k) * s ** (a - k) for k in range(d + 1)]
        return _exp_series(ser)[d] * mp.factorial(d)


def pdf(fam, theta, u):
    d = len(u)
    if is_indep(fam, theta):
        return F(1)
    with mp.workdps(80):
        s = mp.fsum(ipsi(fam, theta, x) for x in u)
        return psi_deriv(fam, theta, s, d) * mp.fprod(dipsi(fam, theta, x) for x in u)


# ------------------------------------------------------------------ dependence

def debye(n, x):
    """Debye function D_n(x) = n/x^n int_0^x t^n/(e^t-1) dt for x of either sign."""
    x = F(x)
    if x == 0:
        return F(1)
    ax = abs(x)
    if ax <= 3:
        # n/x^n * sum B_k x^(k+n)/(k! (k+n)),  radius 2*pi
        r = mp.fsum(mp.bernoulli(k) * ax ** k / mp.factorial(k) * n / F(k + n) for k in list(range(0, 2)) + list(range(2, 120, 2)))
    elif n == 1:
        r = (mp.pi ** 2 / 6 + ax * mp.log(-mp.expm1(-ax)) - mp.polylog(2, mp.exp(-ax)).real) / ax
    elif n == 2:
        e = mp.exp(-ax)
        r = 2 / ax ** 2 * (2 * mp.zeta(3) + ax ** 2 * mp.log(-mp.expm1(-ax)) - 2 * ax * mp.polylog(2, e).real - 2 * mp.polylog(3, e).real)
    if x < 0:
        r += ax * F(n) / (n + 1)
    return r


def tau(fam, theta):
    t = F(theta)
    if is_indep(fam, theta):
        return F(0)
    if fam == "clayton":
        return t / (t + 2)
    if fam == "gumbel":
        return 1 - 1 / t
    if fam == "frank":
        return 1 + 4 * (debye(1, t) - 1) / t


def rho(fam, theta):
    t = F(theta)
    if is_indep(fam, theta):
        return F(0)
    if fam == "frank":
        return 1 + 12 * (debye(2, t) - debye(1, t)) / t


# ------------------------------------------------------------------ plain numpy models

def corr_from_lower(r, d):
    """Correlation matrix whose strict lower triangle, column by column, is r (own enumeration)."""
    m = np.eye(d)
    k = 0
    for j in range(d):
        for i in range(j + 1, d):
            m[i, j] = m[j, i] = r[k]
            k += 1
    return m


def lower(m):
    d = len(m)
    return np.array([m[i, j] for j in range(d) for i in range(j + 1, d)])


def rank(v, ties):
    """Ranks by counting."""
    v = np.asarray(v)
    less = (v[None, :] < v[:, None]).sum(1)
    eq = (v[None, :] == v[:, None]).sum(1)
    if ties == "average":
        return less + (eq + 1) / 2
    if ties == "min":
        return less + 1
    if ties == "max":
        return less + eq
    if ties == "dense":
        u = np.unique(v)
        return np.array([(u < x).sum() + 1 for x in v])
    if ties == "ordinal":
        n = len(v)
        return np.array([less[i] + sum(1 for j in range(i) if v[j] == v[i]) + 1 for i in range(n)])
    raise KeyError(ties)


def pobs(x, ties="average"):
    x = np.asarray(x)
    return np.column_stack([rank(x[:, j], ties) for j in range(x.shape[1])]) / (len(x) + 1)


def kendall(x, y):
    """tau-b by counting."""
    x, y = np.asarray(x, float), np.asarray(y, float)
    sx = np.sign(x[:, None] - x[None, :])
    sy = np.sign(y[:, None] - y[None, :])
    num = (sx * sy).sum()
    den = np.sqrt(float((sx ** 2).sum()) * float((sy ** 2).sum()))
    return num / den if den > 0 else np.nan


def pearson(x, y):
    x, y = np.asarray(x, float), np.asarray(y, float)
    a, b = x - x.mean(), y - y.mean()
    den = np.sqrt((a * a).sum() * (b * b).sum())
    return (a * b).sum() / den if den > 0 else np.nan


def spearman(x, y):
    return pearson(rank(x, "average"), rank(y, "average"))
