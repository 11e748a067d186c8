From bf6e2db455e498b3a0ce9fc05ac9d560147e418a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:10 +0000
Subject: [PATCH 01/48] fix: log1mexp and log1pexp lose precision or overflow

---
 copulae/special/special_func.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index 1754d3a..f11745a 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -88,7 +88,8 @@ def log1mexp(x):
     array_like
         Results of :math:`\log(1 - e^{-x})`
     """
-    return np.log(1 - np.exp(-x))
+    x = np.asarray(x)
+    return np.where(x <= np.log(2), np.log(-np.expm1(-x)), np.log1p(-np.exp(-x)))[()]
 
 
 def log1pexp(x):
@@ -105,7 +106,7 @@ def log1pexp(x):
     array_like
         Results of :math:`\log(1 - e^{-x})`
     """
-    return np.log(1 + np.exp(x))
+    return np.logaddexp(0, x)
 
 
 def log_sum(log_x: np.ndarray, offset: Optional[Union[Iterable[float], float]] = None) -> Union[np.ndarray, float]:
-- 
2.43.0


From 6ca37476eac1c451c8dfded1c32743d0bc937ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:10 +0000
Subject: [PATCH 02/48] fix: logarithmic series sampler returned uniforms and
 misapplied Kemp's formula

---
 copulae/stats/log.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/copulae/stats/log.py b/copulae/stats/log.py
index 4d6864d..c2a0a01 100644
--- a/copulae/stats/log.py
+++ b/copulae/stats/log.py
@@ -5,22 +5,27 @@ from copulae.types import Numeric
 
 def random_log_series_ln1p(alpha: float, size: Numeric = 1):
     """"""
-    if alpha < -3:
-        # random variate following the logarithmic (series) distribution Log(alpha)
-        p = - alpha / np.log(1 - np.expm1(alpha))
+    if alpha >= -3:
+        # random variate following the logarithmic (series) distribution Log(1 - e^alpha), by inversion
+        e = -np.expm1(alpha)
+        p = -e / alpha
         u = np.random.uniform(size=size)
+        x = np.ones_like(u)
 
+        k = 1
         up = u > p
-        x = 1
         while np.any(up):
             u[up] -= p
-            x += 1
-            p *= alpha * (x - 1) / x
-
-            up = u > p
-        return u
+            k += 1
+            x[up] = k
+            p *= e * (k - 1) / k
+            if p < 1e-300:
+                break
+
+            up &= u > p
+        return x
     else:
-        # random variate following the logarithmic (series) distribution Log(1 - e^h)
+        # random variate following the logarithmic (series) distribution Log(1 - e^alpha), by Kemp's LK algorithm
         e = -np.expm1(alpha)
         u1 = np.random.uniform(size=size)
         u2 = np.random.uniform(size=size)
@@ -38,7 +43,7 @@ def random_log_series_ln1p(alpha: float, size: Numeric = 1):
 
         u1[mask6] = 2
         with np.errstate(invalid='ignore'):
-            u1[mask4] = 1 + np.floor(np.log(u1 / log_q))[mask4]
+            u1[mask4] = 1 + np.floor(np.log(u1) / log_q)[mask4]
         u1[mask3] = np.inf
         u1[mask1 | mask5] = 1
 
-- 
2.43.0


From 6d7a52aa759a872f23670b4d2307edef456d1a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:10 +0000
Subject: [PATCH 03/48] fix: Frank generator, density, derivatives and
 strong-dependence samples

---
 copulae/archimedean/frank.py | 77 ++++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 33 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 83a6a02..6e563e6 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -5,7 +5,7 @@ import numpy as np
 from copulae.copula import Summary, TailDep
 from copulae.special.debye import debye_1, debye_2
 from copulae.special.optimize import find_root
-from copulae.special.special_func import log1mexp, log1pexp, poly_log
+from copulae.special.special_func import log1mexp, log1pexp, polyn_eval, stirling_second_all
 from copulae.stats import random_uniform
 from copulae.stats.log import random_log_series_ln1p
 from copulae.types import Array
@@ -52,7 +52,9 @@ class FrankCopula(AbstractArchimedeanCopula):
         s = 1 if log or degree % 2 == 0 else -1
 
         ut = u * self.params
-        if degree == 1:
+        if self.params == 0:
+            v = u ** -float(degree)
+        elif degree == 1:
             v = self.params / np.expm1(ut)
         else:
             v = (self.params ** 2 * np.exp(ut)) / np.expm1(ut) ** 2
@@ -64,38 +66,41 @@ class FrankCopula(AbstractArchimedeanCopula):
     def drho(self, x=None):  # pragma: no cover
         if x is None:
             x = self.params
-        return 12 * (x / np.expm1(x) - 3 * debye1(x) + 2 * debye1(x)) / x ** 2
+        v = np.divide(12 * (np.divide(x, np.expm1(x)) - 3 * debye2(x) + 2 * debye1(x)), x ** 2)
+        return np.where(np.abs(x) < 1e-3, 1 / 6 - x ** 2 / 150, v)
 
     @cast_input(['x'], optional=True)
     @squeeze_output
     def dtau(self, x=None):  # pragma: no cover
         if x is None:
             x = self.params
-        return (x / np.expm1(x) + 1 - debye1(x) / x) * (2 / x) ** 2
+        v = (np.divide(x, np.expm1(x)) + 1 - 2 * debye1(x)) * np.divide(2, x) ** 2
+        return np.where(np.abs(x) < 1e-3, 1 / 9 - x ** 2 / 300, v)
 
     @cast_input(['u'], optional=True)
     @squeeze_output
     def ipsi(self, u, log=False):
-        r = np.asarray(u) * self.params
-
-        res = np.copy(r)
-        res[np.isnan(r)] = np.nan
-        em = np.expm1(-self.params)
+        theta = self.params
+        r = np.asarray(u) * theta
+        if theta == 0:
+            res = -np.log(np.asarray(u))
+            return np.log(res) if log else res
 
-        #  for small inputs, u <= 0.01
-        small_mask = np.abs(r) <= 0.01 * abs(self.params)
-        res[small_mask] = -np.log(np.expm1(-r[small_mask]) / em)
+        em = np.expm1(-theta)
+        res = np.array(np.expm1(-r) / em)  # psi^-1(u) = -log(res)
 
-        big_mask = np.abs(r) > 0.01 * abs(self.params)
-        e = np.exp(-self.params)
-        mid_mask = (e > 0) & (np.abs(self.params - r) < 0.5)  # theta * (1 - u) < 0.5
+        # ratios near 1 need log1p to keep precision
+        small_mask = ~(res > 0.5)
+        e = np.exp(-theta)
+        mid_mask = (e > 0) & (np.abs(theta - r) < 0.5)  # theta * (1 - u) < 0.5
 
-        m1 = big_mask & mid_mask
-        m2 = big_mask & ~mid_mask
-        r[m1] = -np.log1p(e * np.expm1((self.params - r[m1])) / em)
-        r[m2] = -np.log1p((np.exp(-r[m2]) - e) / em)
+        m1 = ~small_mask & mid_mask
+        m2 = ~small_mask & ~mid_mask
+        res[small_mask] = -np.log(res[small_mask])
+        res[m1] = -np.log1p(e * np.expm1(theta - r[m1]) / em)
+        res[m2] = -np.log1p((np.exp(-r[m2]) - e) / em)
 
-        return np.log(r) if log else r
+        return np.log(res) if log else res
 
     def irho(self, rho: Array):  # pragma: no cover
         # TODO frank: add inverse rho
@@ -137,16 +142,26 @@ class FrankCopula(AbstractArchimedeanCopula):
         ok = valid_rows_in_u(u)
         res = np.repeat(np.nan, n)
 
-        u_ = u[ok]
+        u_ = np.asarray(u)[ok]
         u_sum = u_.sum(1)
-        lp = log1mexp(theta)
-        lpu = log1mexp(theta * u_)
-        lu = lpu.sum(1)
+        if theta == 0:
+            res[ok] = 0
+        elif theta < 0:  # dim == 2
+            x = np.expm1(-theta * u_)
+            res[ok] = (np.log(-theta * np.expm1(-theta)) - theta * u_sum
+                       - 2 * np.log(np.expm1(-theta) + x[:, 0] * x[:, 1]))
+        else:
+            lp = log1mexp(theta)
+            lpu = log1mexp(theta * u_)
+            lu = lpu.sum(1)
 
-        li_arg = np.exp(lp + (lpu - lp).sum(1))
-        li = poly_log(li_arg, 1 - d, log=True)
+            # poly_log(exp(-s), 1 - d), written in terms of s so that nothing is lost when exp(-s) is close to 1
+            s = -(lp + (lpu - lp).sum(1))
+            r = np.exp(-s) / -np.expm1(-s)
+            f = np.cumprod([1., *range(1, d)])
+            li = np.log(r) + np.log(polyn_eval(f * stirling_second_all(d), r))
 
-        res[ok] = (d - 1) * np.log(theta) + li - theta * u_sum - lu
+            res[ok] = (d - 1) * np.log(theta) + li - theta * u_sum - lu
 
         return res if log else np.exp(res)
 
@@ -164,11 +179,7 @@ class FrankCopula(AbstractArchimedeanCopula):
             return np.exp(-s)
         else:
             const = log1mexp(self.params)
-            m = np.less(s, const, where=~np.isnan(s))
-
-            s[m] = np.nan
-            s[~m] = -log1mexp(s[~m] - log1mexp(self.params)) / self.params
-            return s
+            return np.where(s < const, np.nan, -log1mexp(s - const) / self.params)
 
     @cast_output
     def random(self, n: int, seed: int = None):
@@ -185,7 +196,7 @@ class FrankCopula(AbstractArchimedeanCopula):
 
         # alpha too large
         if log1mexp(self.params) == 0:
-            return np.ones((n, self.dim))
+            return np.repeat(u[:, :1], self.dim, 1)
 
         fr = random_log_series_ln1p(-self.params, n)[:, None]
         return self.psi(-np.log(u) / fr)
-- 
2.43.0


From 58f4cfb3fa83befe27fadae944424432b174986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:10 +0000
Subject: [PATCH 04/48] fix: Clayton copula at theta=0, theta<0 derivatives,
 invalid rows and theta < -1

---
 copulae/archimedean/clayton.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index 4e6d950..bcc6f6c 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -35,7 +35,8 @@ class ClaytonCopula(AbstractArchimedeanCopula):
             Dimension of the copula
         """
         super().__init__(dim, theta, 'Clayton')
-        assert not (dim != 2 and theta < 0), 'Clayton Copula parameter must be >= 0 when dimension == 2'
+        assert not (dim != 2 and theta < 0), 'Clayton Copula parameter must be >= 0 when dimension > 2'
+        assert not theta < -1, 'Clayton Copula parameter must be >= -1'
 
         self._bounds = (-1 + EPS) if dim == 2 else 0, np.inf
 
@@ -47,10 +48,12 @@ class ClaytonCopula(AbstractArchimedeanCopula):
         s = 1 if log or degree % 2 == 0 else -1
         t = self.params
 
-        if degree == 1:
-            a = np.log(t) - (1 + t) * np.log(u)
+        if t == 0:  # independence
+            a = -degree * np.log(u)
+        elif degree == 1:
+            a = np.log(np.abs(t)) - (1 + t) * np.log(u)
         else:
-            a = np.log(t) + np.log1p(t) - (t + 2) * np.log(u)
+            a = np.log(np.abs(t)) + np.log1p(t) - (t + 2) * np.log(u)
 
         return s * (a if log else np.exp(a))
 
@@ -75,7 +78,10 @@ class ClaytonCopula(AbstractArchimedeanCopula):
     @cast_input(['u'])
     @squeeze_output
     def ipsi(self, u: Array, log=False):
-        v = np.sign(self._theta) * (u ** -self._theta - 1)
+        if self._theta == 0:  # independence
+            v = -np.log(u)
+        else:
+            v = np.sign(self._theta) * (u ** -self._theta - 1)
         return np.log(v) if log else v
 
     @cast_input(['tau'])
@@ -120,7 +126,7 @@ class ClaytonCopula(AbstractArchimedeanCopula):
             return log_pdf
         elif theta == 0:
             log_pdf[ok] = 0
-            return log_pdf
+            return log_pdf if log else np.exp(log_pdf)
 
         lu = np.log(u).sum(1)
         t = self.ipsi(u).sum(1)
@@ -133,12 +139,15 @@ class ClaytonCopula(AbstractArchimedeanCopula):
         else:
             p = np.log1p(theta * np.arange(1, d)).sum()
             log_pdf = p - (1 + theta) * lu - (d + 1 / theta) * np.log1p(t)
+            log_pdf[~ok] = np.nan
 
         return log_pdf if log else np.exp(log_pdf)
 
     @cast_input(['s'])
     @squeeze_output
     def psi(self, s: Array):
+        if self._theta == 0:  # independence
+            return np.exp(-s)
         return np.maximum(1 + np.sign(self._theta) * s, np.zeros_like(s)) ** (-1 / self._theta)
 
     @cast_output
-- 
2.43.0


From 9c5c4bafd0cb21127d9c035f5415298c3b569422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:10 +0000
Subject: [PATCH 05/48] fix: Gumbel tail dependence, dAdu, scalar A, density
 offset and Sibuya signs

---
 copulae/archimedean/auxiliary.py |  4 +---
 copulae/archimedean/gumbel.py    | 23 ++++++++++-------------
 2 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/copulae/archimedean/auxiliary.py b/copulae/archimedean/auxiliary.py
index 1c98bc9..c8ea14c 100644
--- a/copulae/archimedean/auxiliary.py
+++ b/copulae/archimedean/auxiliary.py
@@ -65,8 +65,6 @@ def dsum_sibuya(x, n, alpha: float, method='log', log=False):
 
     s = np.zeros(len_long)
     if method == 'log':
-        signs = sign_ff(alpha, np.arange(np.max(n)) + 1, x)
-
         for i, xx, nn in zip(range(len_long), x, n):
             if xx < nn:
                 s[i] = -np.inf
@@ -75,7 +73,7 @@ def dsum_sibuya(x, n, alpha: float, method='log', log=False):
             lxabs = comb(nn, js + 1, log=True) + comb(alpha * (js + 1), xx, log=True)
 
             offset = np.max(lxabs)
-            sum_ = np.sum(signs[js] * np.exp(lxabs - offset))
+            sum_ = np.sum(sign_ff(alpha, js + 1, xx) * np.exp(lxabs - offset))
             s[i] = np.log(sum_) + offset
 
         return s if log else np.exp(s)
diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index c38cbfa..8bcc56d 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -71,8 +71,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
         """
         bnd = (w == 0) | (w == 1)
         r = (w ** self.params + (1 - w) ** self.params) ** (1 / self.params)
-        r[bnd] = 1
-        return r
+        return np.where(bnd, 1., r)
 
     @cast_input(['w'])
     @squeeze_output
@@ -103,7 +102,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
         expr4 = expr3 - 1
         expr5 = expr2 ** expr4
         expr6 = alpha - 1
-        expr7 = alpha * w ** expr6 - alpha * expr1 ^ expr6
+        expr7 = alpha * w ** expr6 - alpha * expr1 ** expr6
         expr8 = expr3 * expr7
         expr9 = expr6 - 1
         # value = expr4 ** expr5
@@ -113,7 +112,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
                alpha * expr3 * expr5 * expr6 * (w ** expr9 + expr1 ** expr9)
 
         if isinstance(grad, float) and isinstance(hess, float):
-            return grad, hess
+            return np.array([grad, hess])
         else:
             res = np.zeros((len(grad), 2))
             res[:, 0] = grad
@@ -163,11 +162,12 @@ class GumbelCopula(AbstractArchimedeanCopula):
         else:
             if np.any(tau < 0):
                 warnings.warn(warning_message)
-                tau[tau < 0] = 0
+                tau = np.maximum(tau, 0)
         return 1 / (1 - tau)
 
+    @property
     def lambda_(self):
-        return TailDep(0, 2 * 2 ** (1 / self.params))
+        return TailDep(0, 2 - 2 ** (1 / self.params))
 
     @property
     def params(self):
@@ -188,6 +188,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
     def pdf(self, u: np.ndarray, log=False):
         assert not np.isnan(self.params), "Copula must have parameters to calculate parameters"
 
+        u = np.asarray(u)
         n, d = u.shape
 
         theta = self.params
@@ -203,12 +204,8 @@ class GumbelCopula(AbstractArchimedeanCopula):
         lip = self.ipsi(u, log=True)  # log ipsi u
 
         # get sum of logs
-        if u.ndim == 1:
-            offset = np.max(u)
-            ln = offset + np.log(np.exp(lip - offset).sum(1))
-        else:
-            offset = np.max(u, axis=1)
-            ln = offset + np.log(np.exp(lip - offset[:, None]).sum(1))
+        offset = np.max(lip, axis=1)
+        ln = offset + np.log(np.exp(lip - offset[:, None]).sum(1))
 
         alpha = 1 / self.params
         lx = alpha * ln
@@ -439,7 +436,7 @@ def _get_poly_method(lx: float, alpha: float, d: int):  # pragma: no cover
     elif d <= 70:
         return 'direct' if alpha <= 0.7 else 'log'
     elif d <= 90:
-        if d <= 0.5:
+        if alpha <= 0.5:
             return 'direct'
         elif lx <= 4.08:
             return 'pois'
-- 
2.43.0


From 1992d4e97b33d2efdcd88dd7e27b74f14f2e6ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:21 +0000
Subject: [PATCH 06/48] fix: elliptical copulas validate and copy parameters,
 Student tail dependence and fix_df, one-row samples

---
 copulae/elliptical/abstract.py |  4 ++--
 copulae/elliptical/gaussian.py | 13 +++++++++--
 copulae/elliptical/student.py  | 41 +++++++++++++++++++++-------------
 3 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/copulae/elliptical/abstract.py b/copulae/elliptical/abstract.py
index 802308f..bf3df47 100644
--- a/copulae/elliptical/abstract.py
+++ b/copulae/elliptical/abstract.py
@@ -81,10 +81,10 @@ class AbstractEllipticalCopula(BaseCopula[Param], ABC):
         d = self.dim
 
         if np.isscalar(value):
-            if value < -1 or value > 1:
+            if not -1 <= value <= 1:
                 raise ValueError("correlation value must be between -1 and 1")
         else:
-            value = np.asarray(value)
+            value = np.asarray(value, float)
             if not np.all((value >= -1 - EPS) & (value <= 1 + EPS)):
                 raise ValueError("correlation value must be between -1 and 1")
 
diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index 7ea67f4..d30c582 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -57,6 +57,7 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
     def irho(self, rho: Array):
         return np.sin(np.array(rho) * np.pi / 6) * 2
 
+    @property
     def lambda_(self):
         res = (self._rhos == 1).astype(float)
         return TailDep(res, res)
@@ -70,7 +71,15 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
     def params(self, params: Union[float, np.ndarray, Collection[float]]):
         if isinstance(params, (float, int)):
             params = np.repeat(params, len(self._rhos))
-        self._rhos = np.asarray(params)
+        params = np.array(params, float)
+        if params.shape != self._rhos.shape:
+            raise ValueError('Incompatible parameters for gaussian copula')
+
+        lower, upper = self.bounds
+        if np.any((params < lower) | (params > upper)):
+            raise ValueError('correlation value must be between -1 and 1')
+
+        self._rhos = params
 
     @validate_data_dim({"u": [1, 2]})
     @shape_first_input_to_cop_dim
@@ -84,7 +93,7 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
     @cast_output
     def random(self, n: int, seed: int = None):
         r = mvn.rvs(cov=self.sigma, size=n, random_state=seed)
-        return norm.cdf(r)
+        return norm.cdf(r).reshape(n, self.dim)
 
     @select_summary
     def summary(self, category: Literal['copula', 'fit'] = 'copula'):
diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index 2e3b846..6a01b68 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -44,6 +44,8 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
             Degrees of freedom of the copula
         """
         super().__init__(dim, 'Student')
+        if df <= 0:
+            raise ValueError('Degrees of freedom must be greater than 0')
 
         n = sum(range(dim))
         self._df = df
@@ -108,9 +110,13 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
         :code:`scipy.optimize.minimize`: the `scipy minimize <https://docs.scipy.org/doc/scipy/reference/generated/scipy.optimize.minimize.html#scipy.optimize.minimize>`_ function use for optimization
         """
         if fix_df:
-            if optim_options is None:
-                optim_options = {'constraints': []}
-            optim_options['constraints'].append({'type': 'eq', 'fun': lambda x: x[0] - self._df})  # df doesn't change
+            df = self._df
+            optim_options = dict(optim_options or {})
+            constraints = optim_options.get('constraints', [])
+            optim_options['constraints'] = [
+                *([constraints] if isinstance(constraints, dict) else constraints),
+                {'type': 'eq', 'fun': lambda x: x[0] - df}  # df doesn't change
+            ]
 
         return super().fit(data, x0, method, optim_options, ties, verbose, to_pobs, scale)
 
@@ -127,7 +133,7 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
         if np.isinf(df):
             res = (self._rhos == 1).astype(float)
         else:
-            res = 2 * t.cdf(- np.sqrt((df + 1) * (1 - rho)), df=df + 1)
+            res = 2 * t.cdf(- np.sqrt((df + 1) * (1 - rho) / (1 + rho)), df=df + 1)
 
         return TailDep(res, res)
 
@@ -152,19 +158,22 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
     @params.setter
     def params(self, params: Union[np.ndarray, StudentParams]):
         if isinstance(params, StudentParams):
-            self._df = params.df
-            self._rhos = params.rho
-        else:
-            params = np.asarray(params)
-            if len(params) != 1 + sum(range(self.dim)):
-                raise ValueError('Incompatible parameters for student copula')
+            params = [params.df, *np.ravel(params.rho)]
+
+        params = np.array(params, float)
+        if params.shape != (1 + sum(range(self.dim)),):
+            raise ValueError('Incompatible parameters for student copula')
 
-            df = params[0]
-            if df <= 0:
-                raise ValueError('Degrees of freedom must be greater than 0')
+        df, rhos = params[0], params[1:]
+        if df <= 0:
+            raise ValueError('Degrees of freedom must be greater than 0')
 
-            self._df = df
-            self._rhos = params[1:]
+        lower, upper = self.bounds
+        if np.any((rhos < lower[1:]) | (rhos > upper[1:])):
+            raise ValueError('correlation value must be between -1 and 1')
+
+        self._df = df
+        self._rhos = rhos
 
     @validate_data_dim({"u": [1, 2]})
     @shape_first_input_to_cop_dim
@@ -179,7 +188,7 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
     @cast_output
     def random(self, n: int, seed: int = None):
         r = mvt.rvs(cov=self.sigma, df=self._df, size=n, random_state=seed)
-        return t.cdf(r, self._df)
+        return t.cdf(r, self._df).reshape(n, self.dim)
 
     @select_summary
     def summary(self, category: Literal['copula', 'fit'] = 'copula'):
-- 
2.43.0


From bf06743c2dd7b74e0c9b9521928a3db4a6235107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:21 +0000
Subject: [PATCH 07/48] fix: cdf and pdf accept their input by keyword

---
 copulae/utility/annotations/reshape.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/copulae/utility/annotations/reshape.py b/copulae/utility/annotations/reshape.py
index 7b7db12..1d00164 100644
--- a/copulae/utility/annotations/reshape.py
+++ b/copulae/utility/annotations/reshape.py
@@ -32,7 +32,7 @@ class cast_input:
                 args[i] = self.cast(a, arg_name)
 
         for arg_name, a in kwargs.items():
-            if arg_name is self.arguments:
+            if arg_name in self.arguments:
                 kwargs[arg_name] = self.cast(a, arg_name)
 
         return method(*args, **kwargs)
@@ -67,8 +67,12 @@ def shape_first_input_to_cop_dim(method, instance: BaseCopula, args, kwargs):
     As a side effect, also reorders the DataFrame or Series input if the fitted data was a DataFrame.
     With a fitted DataFrame, the _column will be present to allow for ordering
     """
-    x = args[0]
     args = list(args)
+    if len(args) == 0:  # the input was given by keyword
+        name = getfullargspec(method).args[1]
+        args, kwargs = [kwargs[name]], {k: v for k, v in kwargs.items() if k != name}
+
+    x = args[0]
 
     columns = getattr(instance, "_columns", None)
     if isinstance(x, pd.Series):
-- 
2.43.0


From c9f0dc94aaf6d59778094df7beb95fa102b12a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:21 +0000
Subject: [PATCH 08/48] fix: log_lik of a single row, stale column names and
 unwanted printing after fit

---
 copulae/copula/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/copulae/copula/base.py b/copulae/copula/base.py
index aa5c40b..5dfb890 100644
--- a/copulae/copula/base.py
+++ b/copulae/copula/base.py
@@ -135,7 +135,8 @@ class BaseCopula(ABC, Generic[Param]):
 
         if isinstance(data, pd.DataFrame):
             self._columns = list(data.columns)
-            print(data.describe())
+        else:
+            self._columns = None
 
         return self
 
@@ -163,7 +164,7 @@ class BaseCopula(ABC, Generic[Param]):
             Log Likelihood
         """
         data = self.pobs(data, ties) if to_pobs else data
-        return self.pdf(data, log=True).sum()
+        return np.sum(self.pdf(data, log=True))
 
     @property
     def name(self):
-- 
2.43.0


From d045abab5da6d3375b353735985c4f111ffb2e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:21 +0000
Subject: [PATCH 09/48] fix: correlation inversion in 2 dimensions, fit
 log-likelihoods, option handling and fit summary html

---
 copulae/copula/estimator/corr_inversion.py |  6 +++---
 copulae/copula/estimator/estimator.py      | 12 +++++++-----
 copulae/copula/estimator/max_likelihood.py |  2 +-
 copulae/copula/estimator/summary.py        |  2 +-
 4 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/copulae/copula/estimator/corr_inversion.py b/copulae/copula/estimator/corr_inversion.py
index 1536e65..df88ddd 100644
--- a/copulae/copula/estimator/corr_inversion.py
+++ b/copulae/copula/estimator/corr_inversion.py
@@ -37,7 +37,7 @@ def estimate_corr_inverse_params(copula, data: np.ndarray, type_: Literal['itau'
             # itau and irho must fix degree of freedom
             copula.params = StudentParams(copula.params.df, estimate)
         else:
-            copula.params[:] = estimate
+            copula.params = estimate
 
     elif is_archimedean(copula):
         estimate = copula.params = np.mean(icor)
@@ -45,7 +45,7 @@ def estimate_corr_inverse_params(copula, data: np.ndarray, type_: Literal['itau'
         raise NotImplementedError(f"Have not developed for '{copula.name} copula'")
 
     method = f"Inversion of {'Spearman Rho' if type_ == 'irho' else 'Kendall Tau'} Correlation"
-    return FitSummary(estimate, method, copula.log_lik(data), len(data))
+    return FitSummary(estimate, method, copula.log_lik(data, to_pobs=False), len(data))
 
 
 def fit_cor(copula, data: np.ndarray, typ: str) -> np.ndarray:
@@ -79,6 +79,6 @@ def fit_cor(copula, data: np.ndarray, typ: str) -> np.ndarray:
         raise ValueError("Correlation Inversion must be either 'itau' or 'irho'")
 
     if is_elliptical(copula):
-        theta = near_psd(create_cov_matrix(theta))[indices]
+        theta = near_psd(create_cov_matrix(np.ravel(theta)))[indices]
 
     return theta
diff --git a/copulae/copula/estimator/estimator.py b/copulae/copula/estimator/estimator.py
index e74545b..fd1fa26 100644
--- a/copulae/copula/estimator/estimator.py
+++ b/copulae/copula/estimator/estimator.py
@@ -83,11 +83,11 @@ def fit_copula(copula: Copula, data: Union[pd.DataFrame, np.ndarray],
     --------
     :code:`scipy.optimize.minimize`: the optimization function
     """
-    options = form_options(optim_options or {}, verbose, data, copula)
+    options = form_options(dict(optim_options or {}), verbose, data, copula)
     if not isinstance(data, np.ndarray):
         data = np.asarray(data)
 
-    if np.any(data) < 0 or np.any(data) > 1:
+    if np.any(data < 0) or np.any(data > 1):
         raise ValueError("data must be in [0, 1] -- you probably forgot to convert data to pseudo-observations")
     elif len(data) < copula.dim:
         raise ValueError("number of data (rows) must be greater than its dimension")
@@ -202,9 +202,11 @@ def form_options(options: dict, verbose: int, data: np.ndarray, copula: Copula):
         }, options)
     elif method_is('trust-constr'):
         return merge_dict({
-            'maxiter': max_iter,
-            'disp': disp,
-            'bounds': bounds
+            'bounds': bounds,
+            'options': {
+                'maxiter': max_iter,
+                'disp': disp,
+            }
         }, options)
     else:
         return options
diff --git a/copulae/copula/estimator/max_likelihood.py b/copulae/copula/estimator/max_likelihood.py
index 9ae5d15..8bab675 100644
--- a/copulae/copula/estimator/max_likelihood.py
+++ b/copulae/copula/estimator/max_likelihood.py
@@ -65,4 +65,4 @@ def estimate_max_likelihood_params(copula, data: np.ndarray, x0: Union[np.ndarra
         estimate = res['x']
         copula.params = estimate
 
-    return FitSummary(estimate, "Maximum likelihood", -res['fun'], len(data), optim_options, res)
+    return FitSummary(estimate, "Maximum likelihood", -res['fun'] / scale, len(data), optim_options, res)
diff --git a/copulae/copula/estimator/summary.py b/copulae/copula/estimator/summary.py
index e738059..03ed579 100644
--- a/copulae/copula/estimator/summary.py
+++ b/copulae/copula/estimator/summary.py
@@ -45,7 +45,7 @@ class FitSummary(SummaryType):
 
     def _repr_html_(self):
         portions = []
-        for s, r in zip_longest(self.setup.items(), self.results.items()):
+        for s, r in zip_longest((self.setup or {}).items(), (self.results or {}).items()):
             (sk, sv) = (None, None) if s is None else s
             (rk, rv) = (None, None) if r is None else r
             portions.append('<tr>' + ''.join(f"<td>{i}</td>" for i in (sk, sv, rk, rv)) + '</tr>')
-- 
2.43.0


From 05bca6327e9157ce962f5a23b0e049b3ee9efaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:45 +0000
Subject: [PATCH 10/48] fix: empirical copula copies its data, density on
 DataFrames and marginals at u=1

---
 copulae/empirical/empirical.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/copulae/empirical/empirical.py b/copulae/empirical/empirical.py
index 9171d17..7b275c3 100644
--- a/copulae/empirical/empirical.py
+++ b/copulae/empirical/empirical.py
@@ -94,8 +94,7 @@ class EmpiricalCopula(BaseCopula[None]):
         self._offset = offset
         self.smoothing = smoothing
 
-        if not isinstance(data, (pd.DataFrame, np.ndarray)):
-            data = np.array(data)
+        data = data.copy() if isinstance(data, pd.DataFrame) else np.array(data)
 
         columns = list(data.columns) if isinstance(data, pd.DataFrame) else None
         super().__init__(data.shape[1], "Empirical", FitSummary(*data.shape), columns)
@@ -155,6 +154,7 @@ class EmpiricalCopula(BaseCopula[None]):
     def pdf(self, u: Array, log=False):
         assert self.smoothing == "beta", "Empirical Copula only has density (PDF) for 'beta' smoothing"
 
+        u = np.asarray(u)
         data_rank = rank_data(self.data, 1, self.ties)
         n = len(self.data)
 
@@ -255,7 +255,7 @@ class EmpiricalCopula(BaseCopula[None]):
         """
         # because it is pseudo-observations, and already ranked within the columns, we can just
         # multiply by the number of rows in the original data set to get the position rank
-        index = np.array(np.floor(u * len(original)), int)
+        index = np.minimum(np.array(np.floor(u * len(original)), int), len(original) - 1)
         data = np.array(original)
         source = np.take_along_axis(data, data.argsort(axis=0), axis=0)
 
-- 
2.43.0


From 0a85d5df687d98f191032fc322eb083f629aa0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:45 +0000
Subject: [PATCH 11/48] fix: marginal copula leaves caller's parameters alone
 and fits atomically

---
 copulae/marginal/marginal.py   | 13 ++++++-------
 copulae/marginal/univariate.py |  2 +-
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/copulae/marginal/marginal.py b/copulae/marginal/marginal.py
index 3f71091..360638c 100644
--- a/copulae/marginal/marginal.py
+++ b/copulae/marginal/marginal.py
@@ -102,20 +102,19 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
 
     def fit(self, data: Union[pd.DataFrame, np.ndarray], x0: Union[Collection[float], np.ndarray] = None, method='ml',
             verbose=1, optim_options: dict = None, ties='average', to_pobs=True, scale=1.0):
-        if isinstance(data, pd.DataFrame):
-            self._columns = list(data.columns)
-
+        columns = list(data.columns) if isinstance(data, pd.DataFrame) else None
         data = np.asarray(data)
         if data.ndim != 2:
             raise InputDataError('Data must be a matrix of dimension (n x d)')
         elif self.dim != data.shape[1]:
             raise InputDataError('Dimension of data does not match copula')
 
-        for i, m in enumerate(self._marginals):
-            self._marginals[i] = m.dist(*m.dist.fit(data[:, i]))
+        marginals = [m.dist(*m.dist.fit(data[:, i])) for i, m in enumerate(self._marginals)]
 
         # writing it as such to get past the type-hints flags
         self._copula.fit(data, x0, method, optim_options, ties, verbose, to_pobs, scale)
+        self._columns = columns
+        self._marginals = marginals
         self._fit_smry = self._copula._fit_smry
         return self
 
@@ -147,7 +146,7 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
 
     @cast_output
     def random(self, n: int, seed: int = None) -> Union[np.ndarray, float]:
-        u = self._copula.random(n, seed)
+        u = np.asarray(self._copula.random(n, seed))
         x = np.empty_like(u)
         for i, m in enumerate(self._marginals):
             x[:, i] = m.ppf(u[:, i])
@@ -159,7 +158,7 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
         return Summary(self.name, self.dim, self._copula, self._marginals)
 
     def _check_x_input(self, x: Array):
-        x = np.asarray(x)
+        x = np.asarray(x, float)
         if x.ndim == 1:
             x = x.reshape(1, -1)
         if x.ndim != 2:
diff --git a/copulae/marginal/univariate.py b/copulae/marginal/univariate.py
index c4ada04..d44b26f 100644
--- a/copulae/marginal/univariate.py
+++ b/copulae/marginal/univariate.py
@@ -20,7 +20,7 @@ class DistDetail(TypedDict, total=False):
 
 def create_univariate(details: DistDetail) -> rv_frozen:
     dist = get_marginal_class(details)
-    parameters = details.get('parameters', {})
+    parameters = dict(details.get('parameters', {}))
     for p in signature(getattr(dist, "_parse_args")).parameters.values():
         if p.default is Parameter.empty and p.name not in parameters:
             parameters[p.name] = 0.5
-- 
2.43.0


From a6fc5559b4d351f2480d22a4f6306d272cf6c46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:45 +0000
Subject: [PATCH 12/48] fix: log_sum with infinite offsets

---
 copulae/special/special_func.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index f11745a..5e81cf4 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -147,6 +147,7 @@ def log_sum(log_x: np.ndarray, offset: Optional[Union[Iterable[float], float]] =
 
     if offset is None:
         offset = log_x.max(0)  # maximum from each column
+        offset = np.where(np.isinf(offset), 0, offset)
     elif hasattr(offset, "__iter__"):
         offset = np.asarray(offset)
         assert len(offset) == log_x.shape[1], "Offset must match data dimensions"
-- 
2.43.0


From d31b753d4e94192f88264adc787310518fc05b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:45 +0000
Subject: [PATCH 13/48] fix: multivariate t density and sampling

---
 copulae/stats/_multivariate_t.py | 54 ++++++++++++--------------------
 1 file changed, 20 insertions(+), 34 deletions(-)

diff --git a/copulae/stats/_multivariate_t.py b/copulae/stats/_multivariate_t.py
index 228e058..e3b17e1 100644
--- a/copulae/stats/_multivariate_t.py
+++ b/copulae/stats/_multivariate_t.py
@@ -3,7 +3,7 @@ from typing import Optional
 
 import numpy as np
 import numpy.linalg as la
-from scipy.special import beta, gamma
+from scipy.special import gammaln
 from scipy.stats import multivariate_normal as mvn
 
 from copulae.core import is_psd
@@ -76,7 +76,18 @@ class multivariate_t:
         pdf: ndarray or scalar
             Log of probability density function evaluated at `x`
         """
-        return np.log(cls.pdf(x, mean, cov, df))
+        dim, mean, cov, df = cls._process_parameters(None, mean, cov, df)
+        x = cls._process_input(x, dim)
+
+        if df > cls._T_LIMIT:  # if greater than 10000, just assume to be normal
+            return mvn.logpdf(x, mean=mean, cov=cov)
+
+        # multivariate t distribution from https://en.wikipedia.org/wiki/Multivariate_t-distribution
+        x_us = x - mean  # difference between x and mu (mean)
+        quad = np.sum((x_us @ la.inv(cov)) * x_us, axis=1)
+
+        const = gammaln((df + dim) / 2) - gammaln(df / 2) - (dim * np.log(df * np.pi) + la.slogdet(cov)[1]) / 2
+        return const - (df + dim) / 2 * np.log1p(quad / df)
 
     @classmethod
     def pdf(cls, x: Numeric, mean: Numeric = None, cov: Numeric = 1, df: float = None):
@@ -101,21 +112,7 @@ class multivariate_t:
         pdf: ndarray or scalar
             Probability density function evaluated at `x`
         """
-        dim, mean, cov, df = cls._process_parameters(None, mean, cov, df)
-        x = cls._process_input(x, dim)
-
-        if df > cls._T_LIMIT:  # if greater than 500, just assume to be normal
-            return mvn.pdf(x, mean=mean, cov=cov)
-
-        # multivariate t distribution from https://en.wikipedia.org/wiki/Multivariate_t-distribution
-        # break into 3 portions, we use beta function to avoid some amount of numeric overflow
-        a = gamma(dim / 2)
-        b = beta(df / 2, dim / 2) * ((df * np.pi) ** (dim / 2)) * (la.det(cov) ** 0.5)
-
-        x_us = x - mean  # difference between x and mu (mean)
-        c = np.diag(1 + (x_us @ la.inv(cov) @ x_us.T) / df) ** ((dim + df) / 2)
-
-        return a / (b * c)
+        return np.exp(cls.logpdf(x, mean, cov, df))
 
     @classmethod
     def rvs(cls, mean: OptNumeric = None, cov: Numeric = 1, df: float = None, size: Numeric = 1, type_='shifted',
@@ -169,36 +166,25 @@ class multivariate_t:
 
         if random_state is not None:
             np.random.seed(random_state)
-        d = np.sqrt(np.random.chisquare(df, size) / df)
-
-        if isinstance(size, abc.Iterable):
-            d = d.reshape(*size, -1)
-            size_is_iterable = True
-        else:
-            if size > 1:
-                d = d.reshape(size, -1)
-            size_is_iterable = False
 
         # size and dim used to reshape generated tensor correctly before dividing by chi-square rvs
+        shape = tuple(size) if isinstance(size, abc.Iterable) else (size,)
         dim = 1 if not isinstance(cov, abc.Sized) else len(cov)
+        d = np.sqrt(np.random.chisquare(df, shape) / df).reshape(*shape, 1)
 
         if type_.casefold() == 'kshirsagar':
-            r = mvn.rvs(mean, cov, size, random_state)
-            if size_is_iterable:
-                r = r.reshape(*size, dim)
-            r /= d
+            r = mvn.rvs(mean, cov, size).reshape(*shape, dim) / d
 
         elif type_.casefold() == 'shifted':
-            r = mvn.rvs(np.zeros(len(cov)), cov, size, random_state)
-            if size_is_iterable:
-                r = r.reshape(*size, dim)
-            r /= d
+            r = mvn.rvs(np.zeros(dim), cov, size).reshape(*shape, dim) / d
 
             if mean is not None:
                 r += mean  # location shifting
         else:
             raise ValueError(f"Unknown centrality type {type_}. Use one of 'Kshirsagar', 'shifted'")
 
+        if shape == (1,):
+            r = r.reshape(dim)
         return r.item(0) if r.size == 1 else r
 
     @staticmethod
-- 
2.43.0


From eabb5eaf8a910aff53764dadedd70174696a05ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:51 +0000
Subject: [PATCH 14/48] fix: log of the Sibuya sum at alpha = 1

---
 copulae/archimedean/auxiliary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copulae/archimedean/auxiliary.py b/copulae/archimedean/auxiliary.py
index c8ea14c..5ddea45 100644
--- a/copulae/archimedean/auxiliary.py
+++ b/copulae/archimedean/auxiliary.py
@@ -58,7 +58,8 @@ def dsum_sibuya(x, n, alpha: float, method='log', log=False):
             n = np.repeat(n, len_long)
 
     if alpha == 1:
-        return (x == n).astype(float)
+        p = (x == n).astype(float)
+        return np.log(p) if log else p
 
     method = method.lower()
     assert method in ('log', 'direct', 'diff')
-- 
2.43.0


From a1c9dc80e93dd4ad6e465a70c1a5e70fe43a1752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:31 +0000
Subject: [PATCH 15/48] fix: exact eulerian numbers, generalised binomials,
 clausen range, complex polylogs and input mutation in special functions

---
 copulae/special/_specfunc.pyx    | 19 +++++++----
 copulae/special/combinatorics.py |  6 ++--
 copulae/special/optimize.py      |  4 +--
 copulae/special/special_func.py  | 57 +++++++++++---------------------
 copulae/utility/dict.py          |  3 +-
 5 files changed, 39 insertions(+), 50 deletions(-)

diff --git a/copulae/special/_specfunc.pyx b/copulae/special/_specfunc.pyx
index cbdceda..cf983a5 100644
--- a/copulae/special/_specfunc.pyx
+++ b/copulae/special/_specfunc.pyx
@@ -80,7 +80,7 @@ cdef:
 
 
 def clausen(x, bint threaded=True):
-    x = np.asarray(x, float)
+    x = np.array(x, float)
     cdef:
         cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
         int n = arr.size
@@ -96,7 +96,7 @@ def clausen(x, bint threaded=True):
 
 
 def debye_1(x, bint threaded=True):
-    x = np.asarray(x, float)
+    x = np.array(x, float)
     cdef:
         cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
         int n = arr.size
@@ -112,7 +112,7 @@ def debye_1(x, bint threaded=True):
 
 
 def debye_2(x, bint threaded=True):
-    x = np.asarray(x, float)
+    x = np.array(x, float)
     cdef:
         cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
         int n = arr.size
@@ -128,7 +128,7 @@ def debye_2(x, bint threaded=True):
 
 
 def dilog(x, bint threaded):
-    x = np.asarray(x, float)
+    x = np.array(x, float)
     cdef:
         cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
         int n = arr.size
@@ -144,8 +144,8 @@ def dilog(x, bint threaded):
 
 
 def dilog_complex(r, theta, bint threaded):
-    r = np.asarray(r, float)
-    theta = np.asarray(theta, float)
+    r = np.array(r, float)
+    theta = np.array(theta, float)
 
     cdef:
         ComplexResult c
@@ -170,7 +170,11 @@ cdef double angle_restrict_pos_err(double theta) nogil:
     cdef:
         double two_pi = 2 * PI
         double y = 2 * cm.floor(theta / two_pi)
-        double r = theta - y * 2 * two_pi
+        # PI split in 3 parts to reduce the angle without losing digits
+        double p1 = 4 * 7.85398125648498535156e-01
+        double p2 = 4 * 3.77489470793079817668e-08
+        double p3 = 4 * 2.69515142907905952645e-15
+        double r = ((theta - y * p1) - y * p2) - y * p3
 
     if cm.fabs(theta) > 0.0625 / DBL_EPSILON:
         return cm.NAN
@@ -452,6 +456,7 @@ cdef ComplexResult _dilog_complex(double r, double theta) nogil:
 
         double ln_minusz_re, ln_minusz_im, lmz2_re, lmz2_im
 
+    theta = cm.atan2(y, x)
     if cm.fabs(y) < 10 * DBL_EPSILON:
         c.real = _dilog(x)
         if x >= 1:
diff --git a/copulae/special/combinatorics.py b/copulae/special/combinatorics.py
index 9f8b8d0..54bfffc 100644
--- a/copulae/special/combinatorics.py
+++ b/copulae/special/combinatorics.py
@@ -1,5 +1,5 @@
 import numpy as np
-from scipy.special import gammaln, gamma
+from scipy.special import binom, gammaln, poch
 
 __all__ = ['comb', 'perm']
 
@@ -29,7 +29,7 @@ def comb(n, r, log=False):
 
     if log:
         return gammaln(n + 1) - gammaln(n + 1 - r) - gammaln(r + 1)
-    return gamma(n + 1) / (gamma(n + 1 - r) * gamma(r + 1))
+    return binom(n, r)
 
 
 def perm(n, r, log=False):
@@ -57,4 +57,4 @@ def perm(n, r, log=False):
 
     if log:
         return gammaln(n + 1) - gammaln(n + 1 - r)
-    return gamma(n + 1) / gamma(n + 1 - r)
+    return poch(n + 1 - r, r)
diff --git a/copulae/special/optimize.py b/copulae/special/optimize.py
index c02eb11..6c2a66c 100644
--- a/copulae/special/optimize.py
+++ b/copulae/special/optimize.py
@@ -55,7 +55,7 @@ def find_root(f, a, b, delta=1e-06, max_iter=1000):
     for _ in range(max_iter):
         assert np.isfinite(a) and np.isfinite(b), 'Could not find a root between intervals specified.'
 
-        if f(a) * f(b) >= 0:
+        if np.sign(f(a)) * np.sign(f(b)) >= 0:
             step = 0.01 * np.abs([a, b])
             step = np.max([step, np.full_like(step, delta)], 0)
 
@@ -64,6 +64,6 @@ def find_root(f, a, b, delta=1e-06, max_iter=1000):
         else:
             break
 
-    assert np.isfinite(a) and np.isfinite(b) and f(a) * f(b) < 0, 'Could not find a root between intervals specified.'
+    assert np.isfinite(a) and np.isfinite(b) and np.sign(f(a)) * np.sign(f(b)) < 0, 'Could not find a root between intervals specified.'
 
     return brentq(f, a, b, full_output=False)
diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index 5e81cf4..5442635 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -1,9 +1,8 @@
+from math import comb
 from typing import Iterable, Optional, Union
 
 import numpy as np
-from scipy.stats import logistic as logis
 
-from copulae.special.combinatorics import comb
 from copulae.special.dilog import dilog, dilog_complex
 
 __all__ = ['eulerian', 'eulerian_all', 'log1mexp', 'log1pexp', 'log_sum', 'poly_log', 'polyn_eval', 'sign_ff',
@@ -40,17 +39,14 @@ def eulerian(n, k):
 
     assert 0 <= k <= n, "`k` must be in the range of [0, `n`]"
 
-    if k == n:
+    if n > 0 and k == n:
         return 0
     if k == 0:
         return 1
     if k >= (n + 1) // 2:
         k = n - k - 1
-    k1 = k + 1
-    sig = np.ones(k1)
-    sig[1::2] *= -1
 
-    return int(round(sum(sig * comb(n + 1, np.arange(k + 1)) * np.arange(k1, 0, -1, np.float64) ** n)))
+    return sum((-1) ** i * comb(n + 1, i) * (k + 1 - i) ** n for i in range(k + 1))
 
 
 def eulerian_all(n):
@@ -69,7 +65,7 @@ def eulerian_all(n):
     """
     assert n >= 0 and isinstance(n, int), "`n` must be an integer >= 0"
     if n == 0:
-        return 1
+        return [1]
 
     return [eulerian(n, i) for i in range(n)]
 
@@ -183,13 +179,13 @@ def poly_log(z, s, method='default', log=False) -> Union[float, np.ndarray]:
     {array_like, scalar}
         Poly logarithms
     """
-    if isinstance(z, (complex, int, float)):
-        z = np.ravel(z)
+    z = np.asarray(z)
 
     method = method.lower()
     assert method in ('default', 'neg-stirling', 'neg-eulerian')
     if s == 2 and method == 'default':
-        return dilog_complex(z) if np.any(np.iscomplex(z)) else dilog(z)
+        r = dilog_complex(z) if np.any(np.iscomplex(z)) else dilog(z.real)
+        return np.log(r) if log else r
 
     elif method == 'default':
         method = 'neg-stirling'
@@ -205,21 +201,17 @@ def poly_log(z, s, method='default', log=False) -> Union[float, np.ndarray]:
 
     if method == 'neg-stirling':
         r = z / iz
-        f = np.cumprod([1, *range(1, n + 1)])
+        f = np.cumprod([1., *range(1, n + 1)])
         s = stirling_second_all(n + 1)
         p = polyn_eval(f * s, r)
-        if log:
-            res = np.log(p) + logis.ppf(z)
-        else:
-            res = r * p
+        res = np.log(r * p) if log else r * p
 
     else:
         #  method == 'neg-eulerian'
         p = polyn_eval(eulerian_all(n), z)
+        res = z * p / iz ** (n + 1)
         if log:
-            res = np.log(p) + np.log(z) - (n + 1) * np.log1p(-z)
-        else:
-            res = z * p / iz ** (n + 1)
+            res = np.log(res)
 
     return res.item(0) if res.size == 1 else res
 
@@ -246,21 +238,11 @@ def polyn_eval(coef, x) -> Union[float, np.ndarray]:
     """
     if isinstance(coef, (float, int)):
         coef = [coef]
-    if isinstance(x, (float, int)):
-        x = [x]
-
-    m = len(coef)
-
-    res = np.zeros(len(x), np.float64)
-    for i, xi in enumerate(x):
-        if m == 1:
-            r = coef[0]
-        else:
-            r = coef[-1]
-            for j in coef[:-1][::-1]:
-                r = j + r * xi
+    x = np.asarray(x)
 
-        res[i] = r
+    res = np.zeros(x.shape, np.result_type(x, np.float64))
+    for c in coef[::-1]:
+        res = float(c) + res * x
 
     return res.item(0) if res.size == 1 else res
 
@@ -292,8 +274,9 @@ def sign_ff(alpha: float, j: Union[Iterable[int], int], d: Union[Iterable[int],
     assert np.all(d >= 0), "`d` must be >= 0"
     assert np.all(j >= 0), "all elements in `j` must be >= 0"
 
-    if d.ndim == 0 and j.ndim == 0:
-        d, j = int(d), int(j)
+    scalar = d.ndim == 0 and j.ndim == 0
+    if scalar:
+        d, j = d.reshape(1), j.reshape(1)
     elif d.ndim == 0 and j.ndim > 0:
         d = np.repeat(d, len(j))
     elif j.ndim == 0 and d.ndim > 0:
@@ -305,14 +288,14 @@ def sign_ff(alpha: float, j: Union[Iterable[int], int], d: Union[Iterable[int],
             d = np.asarray([d[i % len(d)] for i in range(len(j))])
 
     if alpha == 1:
-        res = (j > d) * (-1) ** (d - j) + (j == d)
+        res = (j > d) * (-1.) ** (d - j) + (j == d)
     else:
         res = np.where(j > d, np.nan, 0)
         x = alpha * j
         ind = x != np.floor(x)
         res[ind] = (-1) ** (j[ind] - np.ceil(x[ind]))
 
-    return res.item(0) if res.size == 1 else res
+    return res.item(0) if scalar else res
 
 
 def stirling_first(n: int, k: int):
diff --git a/copulae/utility/dict.py b/copulae/utility/dict.py
index 5637b38..98df662 100644
--- a/copulae/utility/dict.py
+++ b/copulae/utility/dict.py
@@ -21,6 +21,7 @@ def merge_dict(a: dict, b: dict) -> dict:
     dict
         Merged dictionary
     """
+    a = {**a}
     for key in b:
         if key in a:
             if isinstance(a[key], dict) and isinstance(b[key], dict):
@@ -64,6 +65,6 @@ def merge_dicts(*dicts: dict) -> dict:
     if len(dicts) == 1:
         return dicts[0]
 
-    for b in dicts:
+    for b in dicts[1:]:
         a = merge_dict(a, b)
     return a
-- 
2.43.0


From f409d18204694a42c0b13bd8b7d21195cec52911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:31 +0000
Subject: [PATCH 16/48] fix: integer overflow in the Gumbel coefficients beyond
 20 dimensions

---
 copulae/archimedean/gumbel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index 8bcc56d..67f6e4b 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -294,8 +294,8 @@ def gumbel_coef(d: int, alpha: float, method='sort', log=False) -> np.ndarray:
         "Method must be one of 'sort', 'horner', 'direct', 'log', 'ds.direct', 'diff'"
 
     if method == 'sort':
-        ls = np.log(np.abs(stirling_first_all(d)))
-        lS = [np.log(stirling_second_all(i + 1)) for i in range(d)]
+        ls = np.log(np.abs(np.array(stirling_first_all(d), float)))
+        lS = [np.log(np.array(stirling_second_all(i + 1), float)) for i in range(d)]
 
         a = np.zeros(d)
         for i in range(d):
@@ -336,7 +336,7 @@ def gumbel_coef(d: int, alpha: float, method='sort', log=False) -> np.ndarray:
     else:
         method = 'direct' if method.startswith('ds.') else method
         ds = np.arange(d) + 1
-        ck = np.array([1, *np.cumprod(np.arange(d, 1, -1))])[::-1]
+        ck = np.array([1, *np.cumprod(np.arange(d, 1, -1.))])[::-1]
         if log:
             ck = np.log(ck)
         p = dsum_sibuya(d, ds, alpha, method, log)
-- 
2.43.0


From d2b86beff4884468821a7a4ff8f5488fe7e9fa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:43 +0000
Subject: [PATCH 17/48] fix: Frank density overflow in high dimensions

---
 copulae/archimedean/frank.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 6e563e6..e3bc71a 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -1,11 +1,13 @@
+import math
 from typing import Literal
 
 import numpy as np
+from scipy.special import gammaln, logsumexp
 
 from copulae.copula import Summary, TailDep
 from copulae.special.debye import debye_1, debye_2
 from copulae.special.optimize import find_root
-from copulae.special.special_func import log1mexp, log1pexp, polyn_eval, stirling_second_all
+from copulae.special.special_func import log1mexp, log1pexp, stirling_second_all
 from copulae.stats import random_uniform
 from copulae.stats.log import random_log_series_ln1p
 from copulae.types import Array
@@ -158,8 +160,9 @@ class FrankCopula(AbstractArchimedeanCopula):
             # poly_log(exp(-s), 1 - d), written in terms of s so that nothing is lost when exp(-s) is close to 1
             s = -(lp + (lpu - lp).sum(1))
             r = np.exp(-s) / -np.expm1(-s)
-            f = np.cumprod([1., *range(1, d)])
-            li = np.log(r) + np.log(polyn_eval(f * stirling_second_all(d), r))
+            k = np.arange(d)[:, None]
+            coef = gammaln(k + 1) + np.reshape([math.log(x) for x in stirling_second_all(d)], (-1, 1))
+            li = np.log(r) + logsumexp(coef + k * np.log(r), axis=0)
 
             res[ok] = (d - 1) * np.log(theta) + li - theta * u_sum - lu
 
-- 
2.43.0


From 651594f513af5bf4e906310eec81cdaba949bff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 18/48] fix: Frank itau at and near zero, and its derivatives
 on matrices

---
 copulae/archimedean/frank.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index e3bc71a..d6c33ed 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -111,12 +111,10 @@ class FrankCopula(AbstractArchimedeanCopula):
     @cast_input(['tau'])
     @squeeze_output
     def itau(self, tau):
-        res = np.array([find_root(lambda x: self._tau(x) - t,
-                                  2.2e-16 if t > 0 else -1e20,
-                                  1e20 if t > 0 else -2.2e-16) for t in tau.ravel()])
-        res = res.reshape(tau.shape)
-        res[tau == 0] = tau[tau == 0]
-        return res
+        # 1 - |tau| <= 4 / |theta|
+        res = np.array([0. if t == 0 else np.sign(t) * find_root(lambda x: self._tau(x) - abs(t), 0, 4 / (1 - abs(t)))
+                        for t in tau.ravel()])
+        return res.reshape(tau.shape)
 
     @property
     def lambda_(self):  # pragma: no cover
@@ -230,7 +228,9 @@ class FrankCopula(AbstractArchimedeanCopula):
         theta = np.asarray(theta)
         if theta.size == 1:
             theta = float(theta)
-        return 1 + 4 * (debye1(theta) - 1) / theta
+        with np.errstate(invalid='ignore', divide='ignore'):
+            tau = np.divide(4 * (debye1(theta) - 1), theta) + 1
+        return np.where(np.abs(theta) < 1e-3, theta / 9 - theta ** 3 / 900, tau)[()]
 
 
 def debye1(x):
@@ -251,6 +251,7 @@ def debye1(x):
     --------
     :code:`copulae.special.debye.debye_1`: The debye order 1 function
     """
+    shape = np.shape(x)
     x = np.asarray(x, np.float_).ravel()
     fin = np.isfinite(x)
     d = np.ravel(np.abs(x))
@@ -268,7 +269,7 @@ def debye1(x):
 
         d = np.ravel(d)
         d[x < 0] -= x[x < 0] / 2
-        return d.item(0) if d.size == 1 else d
+        return d.item(0) if d.size == 1 else d.reshape(shape)
 
 
 def debye2(x):
@@ -289,6 +290,7 @@ def debye2(x):
     --------
     :code:`copulae.special.debye.debye_2`: The debye order 2 function
     """
+    shape = np.shape(x)
     x = np.asarray(x, np.float_).ravel()
     fin = np.isfinite(x)
     d = np.ravel(np.abs(x))
@@ -306,4 +308,4 @@ def debye2(x):
 
         d = np.ravel(d)
         d[x < 0] -= 2 / 3 * x[x < 0]
-        return d.item(0) if d.size == 1 else d
+        return d.item(0) if d.size == 1 else d.reshape(shape)
-- 
2.43.0


From bee930b867d1996ed277c2fd2270132de87ba9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:25 +0000
Subject: [PATCH 19/48] fix: Gaussian copula cdf on the lower faces and for
 singular correlation matrices

---
 copulae/elliptical/gaussian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index d30c582..ea433d6 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -48,9 +48,9 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
     @shape_first_input_to_cop_dim
     @squeeze_output
     def cdf(self, x: np.ndarray, log=False):
-        q = norm.ppf(x)
-        sigma = self.sigma
-        return mvn.logcdf(q, cov=sigma) if log else mvn.cdf(q, cov=sigma)
+        q = np.maximum(norm.ppf(x), -40)  # normal cdf is already 0 at -40, mvn gives nan when all limits are -inf
+        cdf = mvn.logcdf if log else mvn.cdf
+        return cdf(q, cov=self.sigma, allow_singular=True)
 
     @cast_input(['rho'])
     @squeeze_output
-- 
2.43.0


From 460fa12c25f51878beb8bdee39ef4899a02d48a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:39 +0000
Subject: [PATCH 20/48] fix: Gaussian copula cdf rounded below zero

---
 copulae/elliptical/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index ea433d6..c0201c3 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -49,8 +49,8 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
     @squeeze_output
     def cdf(self, x: np.ndarray, log=False):
         q = np.maximum(norm.ppf(x), -40)  # normal cdf is already 0 at -40, mvn gives nan when all limits are -inf
-        cdf = mvn.logcdf if log else mvn.cdf
-        return cdf(q, cov=self.sigma, allow_singular=True)
+        cdf = np.clip(mvn.cdf(q, cov=self.sigma, allow_singular=True), 0, 1)  # mvn may round below 0
+        return np.log(cdf) if log else cdf
 
     @cast_input(['rho'])
     @squeeze_output
-- 
2.43.0


From 85b155b7ad43e90706c98725b2b4281c43fdce95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 21/48] fix: Student density when quantiles exceed 1e100 (small
 degrees of freedom)

---
 copulae/elliptical/student.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index 6a01b68..3ca9ec9 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -1,6 +1,7 @@
 from typing import Collection, Literal, NamedTuple, Union
 
 import numpy as np
+from scipy.special import gammaln
 
 from copulae.copula import Summary, TailDep
 from copulae.copula.base import EstimationMethod
@@ -183,6 +184,11 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
         df = self._df
         q = t.ppf(u, df)
         d = mvt.logpdf(q, cov=sigma, df=df) - t.logpdf(q, df=df).sum(1)
+
+        # quantiles are capped at 1e100, far too small when the degrees of freedom are close to 0
+        capped = (np.abs(q) >= 1e99).any(1) & ((u > 0) & (u < 1)).all(1)
+        if capped.any():
+            d[capped] = _log_pdf_large_quantiles(u[capped], q[capped], sigma, df)
         return d if log else np.exp(d)
 
     @cast_output
@@ -196,3 +202,23 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
             'Degree of Freedom': self.params.df,
             'Correlation Matrix': self.sigma
         })
+
+
+def _log_pdf_large_quantiles(u: np.ndarray, q: np.ndarray, sigma: np.ndarray, df: float):
+    """Log density of the copula through the logarithm of the quantiles, for quantiles too large for :code:`t.ppf`"""
+    dim = q.shape[1]
+    const = gammaln((df + 1) / 2) - gammaln(df / 2) - np.log(df * np.pi) / 2
+
+    # large quantiles follow P(T > q) = k q^-df
+    tail = np.minimum(u, 1 - u)
+    lq = np.log(np.abs(q), where=q != 0, out=np.full_like(q, -np.inf))
+    lq = np.where(np.abs(q) >= 1e99, (const + (df + 1) / 2 * np.log(df) - np.log(df) - np.log(tail)) / df, lq)
+
+    scale = lq.max(1, keepdims=True)
+    y = np.sign(q) * np.exp(lq - scale)
+    quad = 2 * scale[:, 0] + np.log(np.sum((y @ np.linalg.inv(sigma)) * y, axis=1))
+
+    joint = gammaln((df + dim) / 2) - gammaln(df / 2) - (dim * np.log(df * np.pi) + np.linalg.slogdet(sigma)[1]) / 2 \
+        - (df + dim) / 2 * np.logaddexp(0, quad - np.log(df))
+    margins = const - (df + 1) / 2 * np.logaddexp(0, 2 * lq - np.log(df))
+    return joint - margins.sum(1)
-- 
2.43.0


From 4308de3157ffadde0365ebad7d9ad67e20182691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 22/48] fix: maximum likelihood fits that stop where the SLSQP
 line search stalls

---
 copulae/copula/estimator/max_likelihood.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/copulae/copula/estimator/max_likelihood.py b/copulae/copula/estimator/max_likelihood.py
index 8bab675..67bfbb5 100644
--- a/copulae/copula/estimator/max_likelihood.py
+++ b/copulae/copula/estimator/max_likelihood.py
@@ -57,6 +57,17 @@ def estimate_max_likelihood_params(copula, data: np.ndarray, x0: Union[np.ndarra
             return np.inf
 
     res: OptimizeResult = minimize(calc_log_lik, x0, **optim_options)
+
+    # SLSQP can report success when its line search stalls far from the optimum. If so, restarting it helps
+    while res['success'] and str(optim_options.get('method')).casefold() == 'slsqp':
+        again = minimize(calc_log_lik, res['x'], **optim_options)
+        if not again['success'] or again['fun'] > res['fun']:
+            break
+        stalled = again['fun'] < res['fun'] - 1e-3 * scale
+        res = again
+        if not stalled:
+            break
+
     if not res['success']:
         if verbose >= 1:
             warn_no_convergence()
-- 
2.43.0


From 792cfe03a4f01272a9e551d85cd671b480483cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:26 +0000
Subject: [PATCH 23/48] fix: elliptical log-likelihood and inversion fits with
 a singular correlation matrix

---
 copulae/elliptical/abstract.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/copulae/elliptical/abstract.py b/copulae/elliptical/abstract.py
index bf3df47..718a78d 100644
--- a/copulae/elliptical/abstract.py
+++ b/copulae/elliptical/abstract.py
@@ -43,7 +43,10 @@ class AbstractEllipticalCopula(BaseCopula[Param], ABC):
         if hasattr(self, '_df') and getattr(self, "_df", 0) <= 0:  # t copula
             return -np.inf
 
-        return super().log_lik(data, to_pobs=to_pobs, ties=ties)
+        try:
+            return super().log_lik(data, to_pobs=to_pobs, ties=ties)
+        except np.linalg.LinAlgError:  # singular correlation matrix, there is no density
+            return -np.inf
 
     @property
     def rho(self):
-- 
2.43.0


From a2b25bbd113993e4d327acb6ab29f3fdbd5db6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:23 +0000
Subject: [PATCH 24/48] fix: Gaussian mixture parameters: conversions without
 side effects, safe encoding, validation

---
 copulae/mixtures/gmc/parameter.py | 32 ++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/copulae/mixtures/gmc/parameter.py b/copulae/mixtures/gmc/parameter.py
index 0db3f55..3a5bccd 100644
--- a/copulae/mixtures/gmc/parameter.py
+++ b/copulae/mixtures/gmc/parameter.py
@@ -38,12 +38,11 @@ class GMCParam:
         Converts GMCParam to a 1-D vector representation. Vector representation enables GMCParam to be
         updated via scipy's optimize module.
         """
-        self.prob[self.prob == 0] += 1e-5
-        self.prob[self.prob == 1] -= 1e-5
-        self.prob /= self.prob.sum()
+        # the weights 0 and 1 have no finite log-odds
+        prob = np.where(self.prob <= 0, 1e-5, np.where(self.prob >= 1, 1 - 1e-5, self.prob))
 
         return np.array([
-            *np.log(self.prob / (1 - self.prob)),
+            *np.log(prob / (1 - prob)),
             *self.means.ravel(),
             *np.ravel([c[np.triu_indices(self.n_dim)] for c in self.covs])
         ])
@@ -63,18 +62,26 @@ class GMCParam:
             Number of dimensions for each Gaussian component
         """
         m, d = n_clusters, n_dim
-        vector = np.array(vector)
-        prob = np.exp(vector[:m]) / (1 + np.exp(vector[:m]))
+        vector = np.array(vector, float)
+        step = d * (d + 1) // 2
+        if vector.shape != (m * (1 + d + step),):
+            raise GMCParamError(f"vector should have {m * (1 + d + step)} elements")
+
+        log_prob = -np.logaddexp(0, -vector[:m])
+        prob = np.exp(log_prob - log_prob.max())
         prob /= prob.sum()
 
         means = vector[m:(m + m * d)].reshape(m, d)
 
         covs = []
-        step = d * (d + 1) // 2
         for i in range(m * (d + 1), len(vector), step):
             cov = np.zeros((d, d))
             cov[np.triu_indices(d)] = vector[i:i + step]
             cov = np.triu(cov, 1) + cov.T
+            if np.any(np.diag(cov) <= 0):  # no correlation matrix to repair, clip the eigenvalues instead
+                values, vectors = np.linalg.eigh(cov)
+                cov = (vectors * np.maximum(values, 1e-8)) @ vectors.T
+                cov = (cov + cov.T) / 2
             covs.append(cov)
 
         return cls(m, d, prob, means, covs)
@@ -85,14 +92,14 @@ class GMCParam:
 
     @prob.setter
     def prob(self, value: Union[C[float], np.ndarray]):
-        value = np.ravel(value)
+        value = np.array(value, float).ravel()
 
         if len(value) != self.n_clusters:
             raise GMCParamError(f"probability vector should have {self.n_clusters} components")
         if any(value < 0) or any(value > 1) or not np.isclose(sum(value), 1):
             raise GMCParamError(f"Invalid values in probability vector")
 
-        self._prob = value
+        self._prob = value / value.sum()
 
     @property
     def means(self) -> np.ndarray:
@@ -100,7 +107,7 @@ class GMCParam:
 
     @means.setter
     def means(self, value: Union[C[float], np.ndarray]):
-        value = np.asarray(value)
+        value = np.array(value, float)
 
         shape = self.n_clusters, self.n_dim
         if value.shape != shape:
@@ -114,12 +121,15 @@ class GMCParam:
 
     @covs.setter
     def covs(self, value: Union[C[float], np.ndarray]):
-        value = np.asarray(value)
+        value = np.asarray(value, float)
 
         shape = self.n_clusters, self.n_dim, self.n_dim
         if value.shape != shape:
             raise GMCParamError(f"covariance array should have shape {shape}")
 
+        if np.any(np.diagonal(value, axis1=1, axis2=2) < 0):
+            raise GMCParamError("variances cannot be negative")
+
         self._covs = np.array([near_psd(cov) for cov in value])  # forces covariance matrix to be psd
 
     def __iter__(self) -> Iterable[Tuple[float, Union[float, np.ndarray], np.ndarray]]:
-- 
2.43.0


From efe172a3a496a71b3766523e47d7a05c5d1770e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:23 +0000
Subject: [PATCH 25/48] fix: Gaussian mixture marginal quantiles beyond the
 grid

---
 copulae/mixtures/gmc/marginals.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/copulae/mixtures/gmc/marginals.py b/copulae/mixtures/gmc/marginals.py
index 526218f..2e8a48c 100644
--- a/copulae/mixtures/gmc/marginals.py
+++ b/copulae/mixtures/gmc/marginals.py
@@ -51,12 +51,11 @@ def gmm_marginal_ppf(q: np.ndarray, param: GMCParam, resolution=2000, spread=5,
     ppf = np.empty_like(q)
     for i in range(param.n_dim):
         # does an inverse cdf, ppf, to get the marginals
-        ppf[:, i] = interp1d(dist[:, i], grid[:, i], fill_value='interpolate')(q[:, i])
+        bounds = grid[:, i].min(), grid[:, i].max()
+        ppf[:, i] = interp1d(dist[:, i], grid[:, i], bounds_error=False, fill_value=bounds)(q[:, i])
 
-    is_nan = np.isnan(ppf)
-    if is_nan.any():
-        ppf[is_nan & (q >= 1)] = np.inf  # infinity because marginal is greater or equal to 1
-        ppf[is_nan & (q <= 0)] = -np.inf  # infinity because marginal is less than or equal to 0
+    ppf[q >= 1] = np.inf  # infinity because marginal is greater or equal to 1
+    ppf[q <= 0] = -np.inf  # infinity because marginal is less than or equal to 0
 
     return ppf
 
-- 
2.43.0


From 30295ac40e96e6c0e42e4ff77e6fae4c820e819c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:23 +0000
Subject: [PATCH 26/48] fix: Gaussian mixture log cdf and pdf, fits on
 DataFrames, atomic fits and reported likelihood

---
 copulae/mixtures/gmc/estimators/em.py |  2 +-
 copulae/mixtures/gmc/gmc.py           | 79 +++++++++++++++------------
 2 files changed, 44 insertions(+), 37 deletions(-)

diff --git a/copulae/mixtures/gmc/estimators/em.py b/copulae/mixtures/gmc/estimators/em.py
index a422980..a7ea4fd 100644
--- a/copulae/mixtures/gmc/estimators/em.py
+++ b/copulae/mixtures/gmc/estimators/em.py
@@ -153,4 +153,4 @@ class LogLik:
 
     @property
     def best_log_lik(self):
-        return self._gmcm[-1]
+        return max(self._gmcm) if self.criteria in ('GMCM', 'LI') else self._gmcm[-1]
diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index 541b46d..659b32e 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -2,6 +2,7 @@ from typing import Collection, Literal, Optional, Union
 
 import numpy as np
 import pandas as pd
+from scipy.special import logsumexp
 from scipy.stats import multivariate_normal as mvn
 
 from copulae.copula import BaseCopula
@@ -121,9 +122,10 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
 
         out = np.zeros(len(x))
         for prob, mean, cov in self.params:
-            out += prob * (mvn.logcdf(x, mean, cov) if log else mvn.cdf(x, mean, cov))
+            out += prob * mvn.cdf(x, mean, cov)
 
-        return out
+        out = np.clip(out, 0, 1)  # removes rounding errors of the numerical integration
+        return np.log(out) if log else out
 
     @property
     def clusters(self):
@@ -187,29 +189,28 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
         :code:`scipy.optimize.minimize`: the `scipy minimize <https://docs.scipy.org/doc/scipy/reference/generated/scipy.optimize.minimize.html#scipy.optimize.minimize>`_ function use for optimization
         """
         method = method.lower()
+        if method not in ('kmeans', 'pem', 'sgd'):
+            raise GMCFitMethodError(f"Invalid method: {method}. Use one of (kmeans, pem, sgd)")
+
+        columns = list(data.columns) if isinstance(data, pd.DataFrame) else None
+        data = np.asarray(data, float)
 
-        if x0 is None:
-            self._fit_smry = k_means(data, self.clusters, self.dim)
-            self.params = self._fit_smry.best_params
-        elif isinstance(x0, GMCParam):
-            self.params = x0
+        if x0 is None or method == 'kmeans':
+            fit_smry = k_means(data, self.clusters, self.dim, ties)
+            start = fit_smry.best_params
         else:
-            self.params = GMCParam.from_vector(x0, self.clusters, self.dim)
+            start = self._parse_params(x0)
 
         if method == 'pem':
             u = pseudo_obs(data, ties)
-            self._fit_smry = expectation_maximization(u, self.params, max_iter, criteria, verbose, eps)
-
+            fit_smry = expectation_maximization(u, start, max_iter, criteria, verbose, eps)
         elif method == 'sgd':
             u = pseudo_obs(data, ties)
-            self._fit_smry = gradient_descent(u, self.params, max_iter=max_iter, **(optim_options or {}))
-        elif method == 'kmeans':
-            if x0 is not None:  # otherwise already fitted by default
-                self._fit_smry = k_means(data, self.clusters, self.dim)
-        else:
-            raise GMCFitMethodError(f"Invalid method: {method}. Use one of (kmeans, pem, sgd)")
+            fit_smry = gradient_descent(u, start, max_iter=max_iter, **(optim_options or {}))
 
-        self.params = self._fit_smry.best_params
+        self._fit_smry = fit_smry
+        self.params = fit_smry.best_params
+        self._columns = columns
         self._fit_details["method"] = method
         return self
 
@@ -227,19 +228,21 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
 
     @params.setter
     def params(self, params: Optional[Union[GMCParam, np.ndarray, Collection, GMCParamDict]]):
-        if params is None:
-            self._param = None
-        elif isinstance(params, dict):
-            self._param = GMCParam.from_dict(params)
-        elif isinstance(params, GMCParam):
-            if params.n_dim != self.dim or params.n_clusters != self.clusters:
-                raise GMCParamMismatchError(f"Expected {self.clusters} clusters and {self.dim} dimensions "
-                                            f"but got {params.n_clusters} and {params.n_dim} respectively instead")
-            self._param = params
-        elif np.all(np.isreal(params)):
-            self._param = GMCParam.from_vector(params, self.clusters, self.dim)
-        else:
-            raise GMCParamMismatchError("Unsupported params type for GaussianMixtureCopula")
+        self._param = None if params is None else self._parse_params(params)
+
+    def _parse_params(self, params: Union[GMCParam, np.ndarray, Collection, GMCParamDict]) -> GMCParam:
+        if isinstance(params, dict):
+            params = GMCParam.from_dict(params)
+        elif not isinstance(params, GMCParam):
+            if not np.all(np.isreal(params)):
+                raise GMCParamMismatchError("Unsupported params type for GaussianMixtureCopula")
+            params = GMCParam.from_vector(params, self.clusters, self.dim)
+
+        if params.n_dim != self.dim or params.n_clusters != self.clusters:
+            raise GMCParamMismatchError(f"Expected {self.clusters} clusters and {self.dim} dimensions "
+                                        f"but got {params.n_clusters} and {params.n_dim} respectively instead")
+
+        return GMCParam(params.n_clusters, params.n_dim, params.prob, params.means, params.covs)
 
     @validate_data_dim({"x": [1, 2]})
     @shape_first_input_to_cop_dim
@@ -267,11 +270,9 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
         if self.params is None:
             raise GMCNotFittedError
 
-        out = np.zeros(len(x))
-        for prob, mean, cov in self.params:
-            out += prob * (mvn.logpdf(x, mean, cov) if log else mvn.pdf(x, mean, cov))
-
-        return out
+        log_pdf = np.array([np.broadcast_to(mvn.logpdf(x, mean, cov), len(x)) for _, mean, cov in self.params])
+        out = logsumexp(log_pdf, axis=0, b=self.params.prob[:, None])
+        return out if log else np.exp(out)
 
     @cast_output
     def random(self, n: int, seed: int = None):
@@ -291,6 +292,9 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
         np.ndarray
             array of generated observations
         """
+        if self.params is None:
+            raise GMCNotFittedError
+
         if seed is not None:
             np.random.seed(seed)
 
@@ -299,4 +303,7 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
     @select_summary
     def summary(self, category: Literal['copula', 'fit'] = 'copula'):
         """Constructs the summary information about the copula"""
-        return Summary(self.params, self._fit_details)
+        if self.params is None:
+            raise GMCNotFittedError
+
+        return Summary(self.params, dict(self._fit_details))
-- 
2.43.0


From c6bc7f13f5abb3deda7f59aeb53184bc6880d08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:31 +0000
Subject: [PATCH 27/48] fix: correlation labels of Series named 0

---
 copulae/stats/correlation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/stats/correlation.py b/copulae/stats/correlation.py
index 8fd7b71..3a8b708 100644
--- a/copulae/stats/correlation.py
+++ b/copulae/stats/correlation.py
@@ -32,8 +32,8 @@ def format_output(f):
             return pd.DataFrame(_corr, index=x.columns, columns=x.columns)
 
         elif isinstance(x, pd.Series) and isinstance(y, pd.Series):
-            x_name = x.name or 'X'
-            y_name = y.name or 'Y'
+            x_name = 'X' if x.name is None or x.name == '' else x.name
+            y_name = 'Y' if y.name is None or y.name == '' else y.name
 
             if x_name == y_name:
                 x_name, y_name = f'{x_name}1', f'{y_name}2'
-- 
2.43.0


From 622db08db38dbbf662d91a7804c71a852aca90ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:38 +0000
Subject: [PATCH 28/48] fix: goodness-of-fit bootstraps keep the dependence of
 tied samples, the tie rules and independent replicates

---
 copulae/gof/goodness_of_fit/goodness_of_fit.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/copulae/gof/goodness_of_fit/goodness_of_fit.py b/copulae/gof/goodness_of_fit/goodness_of_fit.py
index d5b46ac..2efdbf6 100644
--- a/copulae/gof/goodness_of_fit/goodness_of_fit.py
+++ b/copulae/gof/goodness_of_fit/goodness_of_fit.py
@@ -84,7 +84,9 @@ def gof_copula(copula: Type[Copula], data: Union[pd.DataFrame, np.ndarray], reps
         Test statistics
     """
     data = GofData(data, ties, fit_ties)
-    return GofParametricBootstrap(copula, data, reps, multiprocess, verbose=0, **fit_options).fit()
+    # the ranks in data are already computed by the rule in fit_ties, fitting must not rank them again
+    fit_options = {"verbose": 0, "to_pobs": False, **fit_options}
+    return GofParametricBootstrap(copula, data, reps, multiprocess, **fit_options).fit()
 
 
 class GofParametricBootstrap:
@@ -101,8 +103,10 @@ class GofParametricBootstrap:
         t = self.t_stat(self.copula, self.data)
 
         if self.multiprocess:
+            # forked workers all inherit the same random state, so each replication is given its own seed
+            seeds = np.random.randint(2 ** 31 - 1, size=self.reps).tolist()
             with ProcessPoolExecutor(os.cpu_count()) as P:
-                ts = np.array([f.result() for f in (P.submit(self._process_result) for _ in range(self.reps))])
+                ts = np.array([f.result() for f in [P.submit(self._process_result, seed) for seed in seeds]])
         else:
             ts = np.array([self._process_result() for _ in range(self.reps)])
 
@@ -111,8 +115,8 @@ class GofParametricBootstrap:
                        statistic=t,
                        pvalue=(sum(np.abs(ts) >= abs(t)) + 0.5) / (self.reps + 1))
 
-    def _process_result(self):
-        u = self.copula.random(self.data.n_row)
+    def _process_result(self, seed: int = None):
+        u = self.copula.random(self.data.n_row, seed)
 
         if self.data.has_ties:
             u = self._sort_data_by_column_inplace(u)
@@ -131,12 +135,12 @@ class GofParametricBootstrap:
 
     def _sort_data_by_column_inplace(self, data: np.ndarray):
         """
-        Use pre-calculated duplicate ranks array to sort random data with. This ensures that the
-        resulting data (column-by-column) is ordered from lowest to highest
+        Use pre-calculated duplicate ranks array to impose the ties of the observed data on the random data,
+        column by column. Rows are kept together so that the dependence of the random data is retained
         """
         assert data.ndim == 2 and self.data.duplicated_ranks_array.shape == data.shape
-        data.sort(0)
         for i in range(data.shape[1]):
+            data = data[np.argsort(data[:, i])]
             data[:, i] = data[self.data.duplicated_ranks_array[:, i], i]
 
         return data
-- 
2.43.0


From a9e800894c5bb2618c7232af56d5dc14ce6cd63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:38 +0000
Subject: [PATCH 29/48] fix: exchangeability and radial symmetry replicates
 rank with the requested tie rule

---
 copulae/gof/_exchangeability.pyx | 7 +++++--
 copulae/gof/_radial_symmetry.pyx | 4 ++--
 copulae/gof/exchangeability.py   | 2 +-
 copulae/gof/radial_symmetry.py   | 2 +-
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/copulae/gof/_exchangeability.pyx b/copulae/gof/_exchangeability.pyx
index be7c4b2..d575c7f 100644
--- a/copulae/gof/_exchangeability.pyx
+++ b/copulae/gof/_exchangeability.pyx
@@ -209,7 +209,7 @@ def exch_test_stat(double[:, :] u, double[:, :] g, int n, int m):
     return s * n / m
 
 
-def exch_replication(long[:, :] ir, double[:, :] u, double[:, :] g, int n, int m, int ng):
+def exch_replication(long[:, :] ir, double[:, :] u, double[:, :] g, int n, int m, int ng, ties='average'):
     """
     One instance of the bootstrap replication
 
@@ -232,6 +232,9 @@ def exch_replication(long[:, :] ir, double[:, :] u, double[:, :] g, int n, int m
     ng: int
         number of rows in g
 
+    ties: str
+        How ranks are computed if there are ties in the replicated data
+
     Returns
     -------
     float
@@ -258,7 +261,7 @@ def exch_replication(long[:, :] ir, double[:, :] u, double[:, :] g, int n, int m
         for j in range(n):
             ub[j, i] = tub[ir[j, i], i]
 
-    ub = pseudo_obs(ub)
+    ub = pseudo_obs(ub, ties)
 
     if m == 0:
         g = ub
diff --git a/copulae/gof/_radial_symmetry.pyx b/copulae/gof/_radial_symmetry.pyx
index 35fe77f..59169e9 100644
--- a/copulae/gof/_radial_symmetry.pyx
+++ b/copulae/gof/_radial_symmetry.pyx
@@ -37,7 +37,7 @@ def rad_sym_test_stat(const double[:] u, const int n, const int p):
     return s
 
 
-def rad_sym_replicate(double[:, :] u, long[:, :] ir, const int n, const int p, bint has_ties):
+def rad_sym_replicate(double[:, :] u, long[:, :] ir, const int n, const int p, bint has_ties, ties='average'):
     """One instance of bootstrap replication for radial symmetry test"""
     cdef:
         double[:, :] ub = np.copy(u), tub
@@ -61,7 +61,7 @@ def rad_sym_replicate(double[:, :] u, long[:, :] ir, const int n, const int p, b
             for j in range(n):
                 ub[j, i] = tub[ir[j, i], i]
 
-    ub = pseudo_obs(ub)
+    ub = pseudo_obs(ub, ties)
     return rad_sym_test_stat(np.ravel(ub, 'F'), n, p)
 
 
diff --git a/copulae/gof/exchangeability.py b/copulae/gof/exchangeability.py
index f1fa444..8e521c4 100644
--- a/copulae/gof/exchangeability.py
+++ b/copulae/gof/exchangeability.py
@@ -106,7 +106,7 @@ def exch_test(x, y, N=1000, m=0, ties='average'):
 
     if has_ties:
         ir = np.floor(rank_data(np.sort(u, 0), axis=1)).astype(int) - 1
-        s0 = np.asarray([exch_replication(ir, u, g, n, m, ng) for _ in range(N)])
+        s0 = np.asarray([exch_replication(ir, u, g, n, m, ng, ties) for _ in range(N)])
 
     else:
         s0 = exch_test_cn(u, g, n, ng, N)
diff --git a/copulae/gof/radial_symmetry.py b/copulae/gof/radial_symmetry.py
index f8d36d4..9286b8f 100644
--- a/copulae/gof/radial_symmetry.py
+++ b/copulae/gof/radial_symmetry.py
@@ -77,7 +77,7 @@ def rad_sym_test(x, N=1000, ties: Ties = 'average'):
             break
 
     ir = np.floor(rank_data(np.sort(u, 0), axis=1)).astype(int) - 1
-    s0 = np.array([rad_sym_replicate(u, ir, n, p, has_ties) for _ in range(N)])
+    s0 = np.array([rad_sym_replicate(u, ir, n, p, has_ties, ties) for _ in range(N)])
 
     return TestStatistic(
         s,
-- 
2.43.0


From cb35ba0841b649c2659f4e804f6c30c695813834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:55 +0000
Subject: [PATCH 30/48] fix: dilogarithm of large negative arguments

---
 copulae/special/_specfunc.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copulae/special/_specfunc.pyx b/copulae/special/_specfunc.pyx
index cf983a5..8eace97 100644
--- a/copulae/special/_specfunc.pyx
+++ b/copulae/special/_specfunc.pyx
@@ -346,6 +346,9 @@ cdef double _dilog(double x) nogil:
 
     if x >= 0:
         return dilog_xge0(x)
+    if x < -1e8:
+        # inversion, x * x could overflow
+        return -PI ** 2 / 6 - 0.5 * cm.log(-x) ** 2 - _dilog(1 / x)
     d1 = dilog_xge0(-x)
     d2 = dilog_xge0(x * x)
     res = 0.5 * d2 - d1
-- 
2.43.0


From 5ef58de49a0c5c2063ed66a09a6f6a5370b43353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:51 +0000
Subject: [PATCH 31/48] fix: generalised binomials of negative integers and the
 sign of an empty product

---
 copulae/special/combinatorics.py | 17 ++++++++++++++---
 copulae/special/special_func.py  |  2 +-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/copulae/special/combinatorics.py b/copulae/special/combinatorics.py
index 54bfffc..67d7e51 100644
--- a/copulae/special/combinatorics.py
+++ b/copulae/special/combinatorics.py
@@ -26,10 +26,11 @@ def comb(n, r, log=False):
         Number of combinations
     """
     n, r = np.asarray(n), np.asarray(r)
+    m, sign = _reflect(n, r)
 
     if log:
-        return gammaln(n + 1) - gammaln(n + 1 - r) - gammaln(r + 1)
-    return binom(n, r)
+        return gammaln(m + 1) - gammaln(m + 1 - r) - gammaln(r + 1)
+    return sign * binom(m, r)
 
 
 def perm(n, r, log=False):
@@ -56,5 +57,15 @@ def perm(n, r, log=False):
     n, r = np.asarray(n), np.asarray(r)
 
     if log:
-        return gammaln(n + 1) - gammaln(n + 1 - r)
+        m, _ = _reflect(n, r)
+        return gammaln(m + 1) - gammaln(m + 1 - r)
     return poch(n + 1 - r, r)
+
+
+def _reflect(n, r):
+    """
+    The gamma function has poles at negative integers n. There n(n-1)...(n-r+1) = (-1)^r m(m-1)...(m-r+1) with
+    m = r-n-1. Returns m and the sign
+    """
+    pole = (n < 0) & (n == np.floor(n)) & (r >= 0) & (r == np.floor(r))
+    return np.where(pole, r - n - 1, n), np.where(pole & (r % 2 == 1), -1, 1)
diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index 5442635..da63324 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -290,7 +290,7 @@ def sign_ff(alpha: float, j: Union[Iterable[int], int], d: Union[Iterable[int],
     if alpha == 1:
         res = (j > d) * (-1.) ** (d - j) + (j == d)
     else:
-        res = np.where(j > d, np.nan, 0)
+        res = np.where(j > d, np.nan, np.where(d == 0, 1., 0.))  # an empty product is 1
         x = alpha * j
         ind = x != np.floor(x)
         res[ind] = (-1) ** (j[ind] - np.ceil(x[ind]))
-- 
2.43.0


From edae9db1ffaff8fa40f5d0f9fb1f1101d85d6d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:07 +0000
Subject: [PATCH 32/48] fix: find_root allows slow convergence to multiple
 roots

---
 copulae/special/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/special/optimize.py b/copulae/special/optimize.py
index 6c2a66c..ebdb826 100644
--- a/copulae/special/optimize.py
+++ b/copulae/special/optimize.py
@@ -66,4 +66,4 @@ def find_root(f, a, b, delta=1e-06, max_iter=1000):
 
     assert np.isfinite(a) and np.isfinite(b) and np.sign(f(a)) * np.sign(f(b)) < 0, 'Could not find a root between intervals specified.'
 
-    return brentq(f, a, b, full_output=False)
+    return brentq(f, a, b, maxiter=1000, full_output=False)
-- 
2.43.0


From 7ee1160377f85e859262b77e03f73346b996a850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:24 +0000
Subject: [PATCH 33/48] fix: multivariate t validates its parameters and keeps
 sample and point shapes

---
 copulae/stats/_multivariate_t.py | 51 ++++++++++++++++----------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/copulae/stats/_multivariate_t.py b/copulae/stats/_multivariate_t.py
index e3b17e1..97ffdde 100644
--- a/copulae/stats/_multivariate_t.py
+++ b/copulae/stats/_multivariate_t.py
@@ -79,12 +79,12 @@ class multivariate_t:
         dim, mean, cov, df = cls._process_parameters(None, mean, cov, df)
         x = cls._process_input(x, dim)
 
-        if df > cls._T_LIMIT:  # if greater than 10000, just assume to be normal
-            return mvn.logpdf(x, mean=mean, cov=cov)
-
         # multivariate t distribution from https://en.wikipedia.org/wiki/Multivariate_t-distribution
         x_us = x - mean  # difference between x and mu (mean)
-        quad = np.sum((x_us @ la.inv(cov)) * x_us, axis=1)
+        quad = np.sum((x_us @ la.inv(cov)) * x_us, axis=-1)
+
+        if df > cls._T_LIMIT:  # if greater than 10000, just assume to be normal
+            return -(dim * np.log(2 * np.pi) + la.slogdet(cov)[1] + quad) / 2
 
         const = gammaln((df + dim) / 2) - gammaln(df / 2) - (dim * np.log(df * np.pi) + la.slogdet(cov)[1]) / 2
         return const - (df + dim) / 2 * np.log1p(quad / df)
@@ -159,29 +159,27 @@ class multivariate_t:
 
         if df is None:
             raise ValueError("Degrees of freedom 'df' must be a scalar float and greater than 0")
-        elif df <= 0:
-            raise ValueError("Degrees of freedom 'df' must be greater than 0")
-        elif df > cls._T_LIMIT:
-            return np.asarray(mvn.rvs(mean, cov, size, random_state), dtype=float)
+
+        type_ = type_.casefold()
+        if type_ not in ('kshirsagar', 'shifted'):
+            raise ValueError(f"Unknown centrality type {type_}. Use one of 'Kshirsagar', 'shifted'")
+
+        dim, mean, cov, df = cls._process_parameters(None, mean, cov, df)
 
         if random_state is not None:
             np.random.seed(random_state)
 
         # size and dim used to reshape generated tensor correctly before dividing by chi-square rvs
         shape = tuple(size) if isinstance(size, abc.Iterable) else (size,)
-        dim = 1 if not isinstance(cov, abc.Sized) else len(cov)
-        d = np.sqrt(np.random.chisquare(df, shape) / df).reshape(*shape, 1)
-
-        if type_.casefold() == 'kshirsagar':
-            r = mvn.rvs(mean, cov, size).reshape(*shape, dim) / d
-
-        elif type_.casefold() == 'shifted':
-            r = mvn.rvs(np.zeros(dim), cov, size).reshape(*shape, dim) / d
+        if df > cls._T_LIMIT:  # if greater than 10000, just assume to be normal
+            d = 1.0
+        else:
+            d = np.sqrt(np.random.chisquare(df, shape) / df).reshape(*shape, 1)
 
-            if mean is not None:
-                r += mean  # location shifting
+        if type_ == 'kshirsagar':
+            r = np.reshape(mvn.rvs(mean, cov, size), (*shape, dim)) / d
         else:
-            raise ValueError(f"Unknown centrality type {type_}. Use one of 'Kshirsagar', 'shifted'")
+            r = np.reshape(mvn.rvs(np.zeros(dim), cov, size), (*shape, dim)) / d + mean  # location shifting
 
         if shape == (1,):
             r = r.reshape(dim)
@@ -191,9 +189,12 @@ class multivariate_t:
     def _process_input(x: Numeric, dim: int):
         x = np.asarray(x, dtype=float)
         if x.ndim == 0:
-            return x[np.newaxis]
+            x = x.reshape(1, 1)
         elif x.ndim == 1:
-            return x[:, np.newaxis] if dim == 1 else x[np.newaxis, :]
+            x = x[:, np.newaxis] if dim == 1 else x[np.newaxis, :]
+
+        if x.shape[-1] != dim:
+            raise ValueError("The last axis of 'x' must have length %d." % dim)
         return x
 
     @staticmethod
@@ -203,7 +204,7 @@ class multivariate_t:
                 dim = 1
                 cov = np.array([[1.]], dtype=float)
             else:
-                if isinstance(cov, (float, int)):
+                if np.ndim(cov) == 0:
                     cov = np.array([[cov]], dtype=float)
 
                 dim = len(cov)
@@ -214,13 +215,13 @@ class multivariate_t:
 
         if mean is None:
             mean = np.zeros(dim)
-        elif isinstance(mean, (float, int)):
+        elif np.ndim(mean) == 0:
             mean = np.repeat(mean, dim)
         else:
             mean = np.asarray(mean, dtype=float)
 
         # checks done here
-        if mean.shape[0] != dim or mean.ndim != 1:
+        if mean.shape != (dim,):
             raise ValueError("Array 'mean' must be a vector of length %d." % dim)
 
         if not is_psd(cov):
@@ -228,7 +229,7 @@ class multivariate_t:
 
         if df is None:
             df = 4.6692  # Random Feigenbaum Number
-        elif df <= 0:
+        elif not df > 0:
             raise ValueError("Degrees of freedom 'df' must be greater than 0")
 
         return dim, mean, cov, df
-- 
2.43.0


From 14841201721edb82c370e341e4614874b13911a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:20 +0000
Subject: [PATCH 34/48] fix: skewed stable density over its whole range, and
 samples at index one

---
 copulae/stats/stable/common.py |  57 +++++++++----
 copulae/stats/stable/pdf.py    | 147 +++++++--------------------------
 copulae/stats/stable/stable.py |  67 ++++++++-------
 3 files changed, 103 insertions(+), 168 deletions(-)

diff --git a/copulae/stats/stable/common.py b/copulae/stats/stable/common.py
index fcd85d8..c77291e 100644
--- a/copulae/stats/stable/common.py
+++ b/copulae/stats/stable/common.py
@@ -1,26 +1,55 @@
 import numpy as np
-from scipy.integrate import quad
-from scipy.special import gamma
+from scipy.special import expit, gamma
 
-__all__ = ['LARGE_EXP_POW', 'PI', 'PI2', 'PI2E', 'eplus', 'eminus', 'integrate', 'stable_tail', 'xexp']
+__all__ = ['PI', 'PI2', 'integrate_xexp', 'stable_tail']
 
-LARGE_EXP_POW = 708.3964
 PI = np.pi
 PI2 = np.pi / 2
-PI2E = PI2 * (1 - 1e6)
 
+_NODES, _WEIGHTS = np.polynomial.legendre.leggauss(24)
 
-def eplus(x):
-    return x + 1e-6 * abs(x)
 
+def integrate_xexp(log_g, length: float):
+    """
+    Integrates g * exp(-g) over the interval (0, length) for a monotone function g
 
-def eminus(x):
-    return x - 1e-6 * abs(x)
+    Parameters
+    ----------
+    log_g
+        Logarithm of g. It takes the distances from the lower and from the upper end of the interval
 
+    length
+        Length of the interval
+    """
+    if length <= 0:
+        return 0.
 
-def integrate(f, lower: float, upper: float):
-    """Helper integration function"""
-    return quad(f, lower, upper, limit=1000)[0]
+    def f(y):
+        # logistic scale, it resolves both ends of the interval
+        return log_g(length * expit(y), length * expit(-y))
+
+    with np.errstate(all='ignore'):
+        # The integrand is negligible where g is not within exp(-40) and exp(7). Each of these levels is located by
+        # bisection. A level that g does not reach is placed at the end of the interval
+        levels = np.array([-40., -20., -10., -5., -2.5, -1., 0., 1., 2., 4., 7.])
+        lo, hi = np.full(levels.shape, -700.), np.full(levels.shape, 700.)
+        increasing = f(np.array(0.5)) > f(np.array(-0.5))
+        for _ in range(60):
+            mid = (lo + hi) / 2
+            below = (f(mid) < levels) == increasing
+            lo, hi = np.where(below, mid, lo), np.where(below, hi, mid)
+
+        # break the range where g is between the levels into short panels
+        y = np.unique((lo + hi) / 2)
+        breaks = [np.linspace(a, b, int(np.ceil((b - a) / 4)) + 1) for a, b in zip(y[:-1], y[1:])]
+        y = np.unique(np.concatenate([y, *breaks]))
+
+        half = np.diff(y)[:, None] / 2
+        y = (y[1:] + y[:-1])[:, None] / 2 + half * _NODES
+        h = f(y)
+        r = np.exp(h - np.exp(h)) * length * expit(y) * expit(-y) * half * _WEIGHTS
+
+    return r[np.isfinite(r)].sum()
 
 
 def stable_tail(alpha, log=False):
@@ -31,7 +60,3 @@ def stable_tail(alpha, log=False):
     else:
         r = gamma(alpha) / np.pi * np.sin(alpha * PI2)
         return np.log(r) if log else r
-
-
-def xexp(x):
-    return 0 if x > LARGE_EXP_POW else (x * np.exp(-x))
diff --git a/copulae/stats/stable/pdf.py b/copulae/stats/stable/pdf.py
index 0e00920..9068af0 100644
--- a/copulae/stats/stable/pdf.py
+++ b/copulae/stats/stable/pdf.py
@@ -1,8 +1,7 @@
 import numpy as np
 from scipy.special import gamma, gammaln
 
-from copulae.special.optimize import find_root
-from copulae.special.trig import tanpi2, cospi2
+from copulae.special.trig import tanpi2
 from .common import *
 
 __all__ = ['aux_f1', 'aux_f2', 'pareto']
@@ -34,106 +33,32 @@ def aux_f1(x, alpha, beta, log=False):
     bt = beta * tanpi2(alpha)
     zeta = -bt
     theta0 = min(max(-PI2, np.arctan(bt) / alpha), PI2)
-
-    if bt == 0:
-        zeta_tol = 4e-16
-    elif 1 - abs(beta) < 0.01 or alpha < 0.01:
-        zeta_tol = 2e-15
-    else:
-        zeta_tol = 5e-5
-
     x_m_zeta = abs(x - zeta)
 
-    if log:
-        f_zeta = gammaln(1 + 1 / alpha) + np.log(np.cos(theta0)) - (np.log(PI) + np.log1p(zeta ** 2) / (2 * alpha))
-    else:
-        f_zeta = gamma(1 + 1 / alpha) * np.cos(theta0) / (PI * (1 + zeta ** 2) ** (1 / (2 * alpha)))
-
-    if np.isfinite(x) and x_m_zeta <= zeta_tol * (zeta_tol + np.abs([x, zeta]).max()):
-        return f_zeta
-
-    if x < zeta:
-        theta0 = -theta0
-        if alpha < 1e-17:
-            beta = -beta
-            x = -x
-
-    if alpha < 1e-17:
-        r = np.log(alpha) + np.log1p(beta) - (1 + np.log(2 * x + PI * alpha * beta))
-        return r if log else np.exp(r)
-
-    def g1(th):
-        a_1 = alpha - 1
-        at = alpha * theta0
-
-        if np.isclose(abs(PI2 - np.sign(a_1) * th), 0, atol=1.4e-14):
-            return 0
+    if np.isfinite(x) and x_m_zeta <= 1e-14 * (1 + max(abs(x), abs(zeta))):
+        if log:
+            return gammaln(1 + 1 / alpha) + np.log(np.cos(theta0)) - (np.log(PI) + np.log1p(zeta ** 2) / (2 * alpha))
+        return gamma(1 + 1 / alpha) * np.cos(theta0) / (PI * (1 + zeta ** 2) ** (1 / (2 * alpha)))
 
-        att = (th + theta0) * alpha
-        return np.cos(att - th) * (np.cos(at) * np.cos(th) * (x_m_zeta / np.sin(att)) ** alpha) ** (1 / a_1)
-
-    def g2(th):
-        return xexp(g1(th))
-
-    g_pi = g1(PI2)
-    g_t0 = g1(-theta0)
-
-    if (alpha >= 1 and ((~np.isnan(g_pi) and g_pi > LARGE_EXP_POW) or np.isclose(g_t0, 0))) or \
-            (alpha < 1 and ((~np.isnan(g_t0) and g_t0 > LARGE_EXP_POW) or np.isclose(g_pi, 0))):
+    if np.isinf(x):
         return -np.inf if log else 0
 
-    g_ = g1(eplus(-theta0)) if alpha >= 1 else g1(PI2E)
-    if np.isnan(g_) and max(x_m_zeta, x_m_zeta / abs(x)) < 0.01:
-        return f_zeta
+    if x < zeta:
+        theta0 = -theta0  # see Nolan (1997), Theorem 1 (c)
 
-    if (alpha >= 1 and g_pi > 1) or (alpha < 1 and g_pi < 1):
-        theta2, mid = PI2E, g2(PI2E)
-    elif (alpha >= 1 > g_t0) or (alpha < 1 < g_t0):
-        theta2, mid = eplus(-theta0), g2(eplus(-theta0))
-    else:
-        ll = -theta0
-        uu = PI2
-        if alpha < 1:
-            while np.isclose(g1((ll + PI2) / 2), 0):
-                ll = (ll + PI2) / 2
-
-            if np.isclose(g1((ll + PI2) / 2), 1):
-                while np.isclose(g1((ll + uu) / 2), 1):
-                    uu = (ll + uu) / 2
-
-            if np.isclose(uu + ll, 0, 1e-13):
-                return -np.inf if log else 0
-
-        r1 = find_root(lambda t: g1(t) - 1, ll, uu)
-        gr1 = xexp(r1 + 1)
-
-        try:
-            r2 = find_root(lambda t: np.log(g1(t)), ll, uu)
-            gr2 = xexp(np.exp(r2))
-        except (AssertionError, RuntimeError):
-            r2, gr2 = np.nan, -np.inf
-
-        theta2, mid = (r1, gr1) if gr1 >= gr2 else (r2, gr2)
-
-    eps = 1e-4
-    if mid > eps > g2(-theta0):
-        theta1 = find_root(lambda x: g2(x) - eps, -theta0, theta2)
-        r1 = integrate(g2, -theta0, theta1)
-        r2 = integrate(g2, theta1, theta2)
-    else:
-        r1 = 0
-        r2 = integrate(g2, -theta0, theta2)
+    # The integral over theta in (-theta0, pi / 2) is written in the distances from both ends of the range,
+    # s = theta + theta0 and u = pi / 2 - theta, the trigonometric terms lose their digits near the ends otherwise
+    length = PI2 + theta0
+    a_1 = alpha - 1
+    rest = max(PI - alpha * length, 0)  # pi - alpha * s at the upper end
 
-    if mid > eps > g2(PI2):
-        theta3 = find_root(lambda x: g2(x) - eps, theta2, PI2)
-        r3 = integrate(g2, theta2, theta3)
-        r4 = integrate(g2, theta3, PI2)
-    else:
-        r3 = integrate(g2, theta2, PI2)
-        r4 = 0
+    def log_g(s, u):
+        sin_as = np.where(alpha * s <= PI2, np.sin(alpha * s), np.sin(rest + alpha * u))
+        cos_as = np.sin(PI2 - theta0 - a_1 * s) if alpha < 1 else np.sin(rest + a_1 * u)  # cos(alpha * s - theta)
+        return (alpha * (np.log(x_m_zeta) - np.log(sin_as)) - np.log1p(zeta ** 2) / 2 + np.log(np.sin(u))) / a_1 + np.log(cos_as)
 
-    c = (alpha / (np.pi * abs(alpha - 1) * x_m_zeta))
-    r = r1 + r2 + r3 + r4
+    r = integrate_xexp(log_g, length)
+    c = alpha / (PI * abs(a_1) * x_m_zeta)
 
     return (np.log(c) + np.log(r)) if log else (c * r)
 
@@ -158,31 +83,20 @@ def aux_f2(x, beta, log=False):
     scalar
         Output of auxiliary function
     """
-    i2b = 1 / (2 * beta)
-    p2b = PI * i2b
-    ea = -p2b * x
+    if beta < 0:
+        x, beta = -x, -beta
 
+    ea = -PI2 / beta * x
     if np.isinf(ea):
         return -np.inf if log else 0
 
-    def g1(u):
-        if np.isclose(abs(u + np.size(beta)), 0, atol=1e-10):
-            return 0
-        h = p2b + u * PI2
-        return h / p2b * np.exp(ea + h * tanpi2(u)) / cospi2(u)
-
-    def g2(u):
-        return xexp(g1(u))
-
-    root = find_root(lambda u: g1(u) - 1, -1, 1)
+    def log_g(s, u):
+        h = PI2 * (1 - beta) + beta * s
+        return ea + np.log(h / PI2) - np.log(np.sin(np.minimum(s, u))) + h / beta * np.where(s < u, -1 / np.tan(s), 1 / np.tan(u))
 
-    r1 = integrate(g2, -1, root)
-    r2 = integrate(g2, root, 1)
+    r = integrate_xexp(log_g, PI)
 
-    if log:
-        return np.log(PI2) + np.log(abs(i2b)) + np.log(r1 + r2)
-    else:
-        return PI2 * abs(i2b) * (r1 + r2)
+    return np.log(r) - np.log(2 * beta) if log else r / (2 * beta)
 
 
 def pareto(x, alpha, beta, log=False):
@@ -191,11 +105,8 @@ def pareto(x, alpha, beta, log=False):
     if x.ndim == 0:
         x = x.ravel()
 
-    neg = x < 0
-    if np.any(neg):
-        x[neg] *= -1
-        beta = np.repeat(beta, len(x))
-        beta[neg] *= -1
+    beta = np.where(x < 0, -beta, beta)
+    x = np.abs(x)
 
     if log:
         return np.log(alpha) + np.log1p(beta) + stable_tail(alpha, log=True) - (1 + alpha) * np.log(x)
diff --git a/copulae/stats/stable/stable.py b/copulae/stats/stable/stable.py
index 25b8c5a..8f60212 100644
--- a/copulae/stats/stable/stable.py
+++ b/copulae/stats/stable/stable.py
@@ -1,5 +1,3 @@
-from collections import abc
-
 import numpy as np
 import scipy.optimize as opt
 from scipy.stats import cauchy, norm
@@ -10,7 +8,6 @@ from copulae.types import Numeric
 
 __all__ = ['skew_stable']
 
-LARGE_EXP_POWER = 708.396418532264  # exp(LEP) == inf. Effective a value for which the exponent is equivalent to inf
 PI2 = np.pi / 2
 
 
@@ -76,39 +73,30 @@ class skew_stable:
         cls._check_parameters(alpha, beta, gamma, pm)
         delta, gamma = cls._parameterize(alpha, delta, gamma, beta, pm)
 
-        if isinstance(x, abc.Iterable):
-            x = np.asarray(x)
-
-        x = (x - delta) / gamma
+        x = (np.asarray(x, dtype=float) - delta) / gamma
+        shape = x.shape
+        x = x.ravel()
 
         if alpha == 2:
             ans = norm.logpdf(x, 0, np.sqrt(2)) if log else norm.pdf(x, 0, np.sqrt(2))
 
-        elif alpha == 1 and beta == 0:
+        elif _is_one(alpha) and beta == 0:
             ans = cauchy.logpdf(x) if log else cauchy.pdf(x)
 
-        elif alpha == 1:  # beta not 0
-            if isinstance(x, (complex, float, int)):
-                ans = np.array([pdf.aux_f2(x, beta, log)])
-            else:
-                ans = np.array([pdf.aux_f2(e, beta, log) for e in x.ravel()]).reshape(x.shape)
-        else:  # alpha != 1
-            if isinstance(x, (complex, float, int)):
-                ans = np.array([pdf.aux_f1(x, alpha, beta, log)])
-            else:
-                ans = np.array([pdf.aux_f1(e, alpha, beta, log) for e in x.ravel()]).reshape(x.shape)
+        elif _is_one(alpha):  # beta not 0
+            ans = np.array([pdf.aux_f2(e, beta, log) for e in x], dtype=float)
 
-        if ans.size == 1:
-            ans = ans.ravel()
+        else:  # alpha != 1
+            ans = np.array([pdf.aux_f1(e, alpha, beta, log) for e in x], dtype=float)
 
-        infs = ans == 0
-        if np.any(ans):
-            d = pdf.pareto(x, alpha, beta, log)[infs]
-            ans[infs] = (d - np.log(gamma)) if log else (d / gamma)
+        if alpha < 2:
+            # the density is not 0 this far in the tails, but its integral is
+            zero = (ans == -np.inf) if log else (ans == 0)
+            if np.any(zero):
+                with np.errstate(divide='ignore'):
+                    ans[zero] = pdf.pareto(x[zero], alpha, beta, log)
 
-        if np.any(~infs):
-            d = ans[~infs]
-            ans[~infs] = (d - np.log(gamma)) if log else (d / gamma)
+        ans = ((ans - np.log(gamma)) if log else (ans / gamma)).reshape(shape)
 
         return ans.item(0) if ans.size == 1 else ans
 
@@ -149,8 +137,14 @@ class skew_stable:
         cls._check_parameters(alpha, beta, gamma, pm)
         delta, gamma = cls._parameterize(alpha, delta, gamma, beta, pm)
 
-        if np.isclose(alpha, 1) and np.isclose(beta, 0):
+        if _is_one(alpha) and beta == 0:
             z = cauchy.rvs(size=size)
+        elif _is_one(alpha):
+            theta = np.pi * (np.random.uniform(size=size) - 0.5)
+            w = np.random.standard_exponential(size)
+
+            bt = PI2 + beta * theta
+            z = (bt * np.tan(theta) - beta * np.log(PI2 * w * np.cos(theta) / bt)) / PI2
         else:
             theta = np.pi * (np.random.uniform(size=size) - 0.5)
             w = np.random.standard_exponential(size)
@@ -192,16 +186,21 @@ class skew_stable:
         if alpha * beta == 0:
             return 0
 
-        beta = max(beta, beta_max)
+        beta = min(max(beta, -beta_max), beta_max)
         bounds = sorted([0, np.sign(beta) * -0.7])
 
-        return float(opt.minimize_scalar(lambda x: -cls.pdf(x, alpha, beta), bounds=bounds)['x'])
+        return float(opt.minimize_scalar(lambda x: -cls.pdf(x, alpha, beta), bounds=bounds, method='bounded')['x'])
+
+
+def _is_one(alpha: float):
+    # the expressions for alpha != 1 are numerically unstable in the immediate neighbourhood of 1
+    return abs(alpha - 1) < 1e-8
 
 
 def _omega(gamma: float, alpha: float):
-    if not alpha.is_integer():
-        return tanpi2(alpha)
-    elif alpha == 1:
+    if _is_one(alpha):
         return 2 / np.pi * np.log(gamma)
-    else:
+    elif alpha == 2:
         return 0
+    else:
+        return tanpi2(alpha)
-- 
2.43.0


From d32029b687b870411fed65c5debc65038c6d8b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:13 +0000
Subject: [PATCH 35/48] fix: skewed stable density of one-sided and nearly
 symmetric laws

---
 copulae/stats/stable/common.py |  4 ++--
 copulae/stats/stable/pdf.py    | 16 ++++++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/copulae/stats/stable/common.py b/copulae/stats/stable/common.py
index c77291e..6e3833c 100644
--- a/copulae/stats/stable/common.py
+++ b/copulae/stats/stable/common.py
@@ -29,9 +29,9 @@ def integrate_xexp(log_g, length: float):
         return log_g(length * expit(y), length * expit(-y))
 
     with np.errstate(all='ignore'):
-        # The integrand is negligible where g is not within exp(-40) and exp(7). Each of these levels is located by
+        # The integrand is negligible where g is not within exp(-700) and exp(7). Each of these levels is located by
         # bisection. A level that g does not reach is placed at the end of the interval
-        levels = np.array([-40., -20., -10., -5., -2.5, -1., 0., 1., 2., 4., 7.])
+        levels = np.array([-700., -40., -20., -10., -5., -2.5, -1., 0., 1., 2., 4., 7.])
         lo, hi = np.full(levels.shape, -700.), np.full(levels.shape, 700.)
         increasing = f(np.array(0.5)) > f(np.array(-0.5))
         for _ in range(60):
diff --git a/copulae/stats/stable/pdf.py b/copulae/stats/stable/pdf.py
index 9068af0..96f9d14 100644
--- a/copulae/stats/stable/pdf.py
+++ b/copulae/stats/stable/pdf.py
@@ -1,5 +1,6 @@
 import numpy as np
 from scipy.special import gamma, gammaln
+from scipy.stats import cauchy
 
 from copulae.special.trig import tanpi2
 from .common import *
@@ -32,7 +33,7 @@ def aux_f1(x, alpha, beta, log=False):
     """
     bt = beta * tanpi2(alpha)
     zeta = -bt
-    theta0 = min(max(-PI2, np.arctan(bt) / alpha), PI2)
+    theta0 = np.sign(beta) * PI2 if alpha < 1 and abs(beta) == 1 else min(max(-PI2, np.arctan(bt) / alpha), PI2)
     x_m_zeta = abs(x - zeta)
 
     if np.isfinite(x) and x_m_zeta <= 1e-14 * (1 + max(abs(x), abs(zeta))):
@@ -50,12 +51,14 @@ def aux_f1(x, alpha, beta, log=False):
     # s = theta + theta0 and u = pi / 2 - theta, the trigonometric terms lose their digits near the ends otherwise
     length = PI2 + theta0
     a_1 = alpha - 1
+    gap = PI2 - theta0  # pi - u at the lower end
     rest = max(PI - alpha * length, 0)  # pi - alpha * s at the upper end
 
     def log_g(s, u):
         sin_as = np.where(alpha * s <= PI2, np.sin(alpha * s), np.sin(rest + alpha * u))
-        cos_as = np.sin(PI2 - theta0 - a_1 * s) if alpha < 1 else np.sin(rest + a_1 * u)  # cos(alpha * s - theta)
-        return (alpha * (np.log(x_m_zeta) - np.log(sin_as)) - np.log1p(zeta ** 2) / 2 + np.log(np.sin(u))) / a_1 + np.log(cos_as)
+        sin_u = np.where(u <= PI2, np.sin(u), np.sin(gap + s))
+        cos_as = np.sin(gap - a_1 * s) if alpha < 1 else np.sin(rest + a_1 * u)  # cos(alpha * s - theta)
+        return (alpha * (np.log(x_m_zeta) - np.log(sin_as)) - np.log1p(zeta ** 2) / 2 + np.log(sin_u)) / a_1 + np.log(cos_as)
 
     r = integrate_xexp(log_g, length)
     c = alpha / (PI * abs(a_1) * x_m_zeta)
@@ -87,9 +90,14 @@ def aux_f2(x, beta, log=False):
         x, beta = -x, -beta
 
     ea = -PI2 / beta * x
-    if np.isinf(ea):
+    if np.isinf(x):
         return -np.inf if log else 0
 
+    if PI2 / beta * max(1, abs(x)) > 1e8:
+        # far in the tails or close to the Cauchy distribution, the terms of the integral cancel
+        skew = beta * x / np.hypot(1, x)
+        return cauchy.logpdf(x) + np.log1p(skew) if log else cauchy.pdf(x) * (1 + skew)
+
     def log_g(s, u):
         h = PI2 * (1 - beta) + beta * s
         return ea + np.log(h / PI2) - np.log(np.sin(np.minimum(s, u))) + h / beta * np.where(s < u, -1 / np.tan(s), 1 / np.tan(u))
-- 
2.43.0


From 82ab6eb642d0833d58fbc89f5d6904ccce9069b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:28 +0000
Subject: [PATCH 36/48] fix: points of small integer types are evaluated in
 double precision

---
 copulae/utility/annotations/reshape.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/copulae/utility/annotations/reshape.py b/copulae/utility/annotations/reshape.py
index 1d00164..f07804c 100644
--- a/copulae/utility/annotations/reshape.py
+++ b/copulae/utility/annotations/reshape.py
@@ -78,13 +78,13 @@ def shape_first_input_to_cop_dim(method, instance: BaseCopula, args, kwargs):
     if isinstance(x, pd.Series):
         if columns is not None and set(x.index) == set(columns):
             x = x[columns]  # order by columns
-        x = x.to_numpy()[None, :]  # cast to matrix
+        x = x.to_numpy(float)[None, :]  # cast to matrix
     elif isinstance(x, pd.DataFrame):
         if columns is not None:
             x = x.loc[:, columns]  # order by columns
+        x = x.astype(float)
     else:
-        if not isinstance(x, np.ndarray):
-            x = np.asarray(x, float)
+        x = np.asarray(x, float)  # small integers would be evaluated in half precision
         if x.ndim == 1:
             x = x[None, :]
 
-- 
2.43.0


From 90051e353d9be7b727199142a95cf00f819c62c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:10 +0000
Subject: [PATCH 37/48] fix: Gaussian copula accepts every scalar type as its
 parameter

---
 copulae/elliptical/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index c0201c3..0413a4d 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -69,7 +69,7 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
 
     @params.setter
     def params(self, params: Union[float, np.ndarray, Collection[float]]):
-        if isinstance(params, (float, int)):
+        if np.isscalar(params):
             params = np.repeat(params, len(self._rhos))
         params = np.array(params, float)
         if params.shape != self._rhos.shape:
-- 
2.43.0


From ce1599b7cc4e5e99f5afa5b96301e0eb98c56cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:42 +0000
Subject: [PATCH 38/48] fix: Clayton generator keeps its precision for
 parameters near 0

---
 copulae/archimedean/clayton.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index bcc6f6c..d92a918 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -81,7 +81,7 @@ class ClaytonCopula(AbstractArchimedeanCopula):
         if self._theta == 0:  # independence
             v = -np.log(u)
         else:
-            v = np.sign(self._theta) * (u ** -self._theta - 1)
+            v = np.sign(self._theta) * np.expm1(-self._theta * np.log(u))  # u ** -theta - 1
         return np.log(v) if log else v
 
     @cast_input(['tau'])
@@ -148,7 +148,8 @@ class ClaytonCopula(AbstractArchimedeanCopula):
     def psi(self, s: Array):
         if self._theta == 0:  # independence
             return np.exp(-s)
-        return np.maximum(1 + np.sign(self._theta) * s, np.zeros_like(s)) ** (-1 / self._theta)
+        with np.errstate(divide="ignore"):  # (1 + s) ** (-1 / theta)
+            return np.exp(-np.log1p(np.maximum(np.sign(self._theta) * s, -np.ones_like(s))) / self._theta)
 
     @cast_output
     def random(self, n: int, seed: int = None) -> np.ndarray:
-- 
2.43.0


From 152179878f5ce26cfadfa04837b32e413a864842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:42 +0000
Subject: [PATCH 39/48] fix: maximum likelihood fits do not stop at a starting
 point near 0

---
 copulae/copula/estimator/max_likelihood.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/copulae/copula/estimator/max_likelihood.py b/copulae/copula/estimator/max_likelihood.py
index 67bfbb5..6bbebb1 100644
--- a/copulae/copula/estimator/max_likelihood.py
+++ b/copulae/copula/estimator/max_likelihood.py
@@ -56,6 +56,12 @@ def estimate_max_likelihood_params(copula, data: np.ndarray, x0: Union[np.ndarra
         except ValueError:  # error encountered when setting invalid parameters
             return np.inf
 
+    if str(optim_options.get('method')).casefold() == 'nelder-mead':
+        # scipy's first step is 5% of x0. Near 0 that is less than the tolerance and the search would stop where it began
+        x = np.atleast_1d(np.asarray(x0, float))
+        simplex = np.vstack([x, x + np.diag(0.05 * np.maximum(np.abs(x), 0.1))])
+        optim_options['options'] = {'initial_simplex': simplex, **optim_options.get('options', {})}
+
     res: OptimizeResult = minimize(calc_log_lik, x0, **optim_options)
 
     # SLSQP can report success when its line search stalls far from the optimum. If so, restarting it helps
-- 
2.43.0


From 2b007711fc253c013e2787afa713a7b873fceb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:16 +0000
Subject: [PATCH 40/48] fix: Horner form of the Gumbel coefficients no longer
 overflows 64-bit integers in dimension 20

---
 copulae/archimedean/gumbel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index 67f6e4b..6f8b90f 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -309,7 +309,7 @@ def gumbel_coef(d: int, alpha: float, method='sort', log=False) -> np.ndarray:
         return a
 
     elif method == 'horner':
-        s = np.abs(stirling_first_all(d))
+        s = np.abs(np.array(stirling_first_all(d), float))
         ds = np.arange(d)
         S = [stirling_second_all(i + 1) for i in ds]
 
-- 
2.43.0


From ac51e4461f6706d5e233ffe8139e0c6680301542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:33 +0000
Subject: [PATCH 41/48] fix: small values of skewed stable variates are not
 lost to the shift that S1 undoes

---
 copulae/stats/stable/stable.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/copulae/stats/stable/stable.py b/copulae/stats/stable/stable.py
index 8f60212..34acf8b 100644
--- a/copulae/stats/stable/stable.py
+++ b/copulae/stats/stable/stable.py
@@ -135,6 +135,7 @@ class skew_stable:
     @classmethod
     def rvs(cls, alpha: float, beta: float, gamma=1., delta=0., pm=1, size: Numeric = 1):
         cls._check_parameters(alpha, beta, gamma, pm)
+        shift = delta
         delta, gamma = cls._parameterize(alpha, delta, gamma, beta, pm)
 
         if _is_one(alpha) and beta == 0:
@@ -157,8 +158,13 @@ class skew_stable:
 
             z = (c * np.sin(at)
                  * (np.cos(theta) ** (-1 / alpha))
-                 * ((np.cos(theta - at) / w) ** ((1 - alpha) / alpha))
-                 - bt)
+                 * ((np.cos(theta - at) / w) ** ((1 - alpha) / alpha)))
+
+            if pm == 1:
+                # the shift by `bt` and the one in delta cancel each other, and would take the small values with them
+                return z * gamma + shift
+
+            z = z - bt
 
         return z * gamma + delta
 
-- 
2.43.0


From 513dee9d1f229be3c4e6bcbbe5a2c49e3f5fbd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:58 +0000
Subject: [PATCH 42/48] fix: Gumbel samples stay finite for large parameters

---
 copulae/archimedean/gumbel.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index 6f8b90f..aadf276 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -7,8 +7,7 @@ from scipy.special import gammaln
 
 from copulae.copula import Summary, TailDep
 from copulae.special.special_func import polyn_eval, sign_ff, stirling_first_all, stirling_second_all
-from copulae.special.trig import cospi2
-from copulae.stats import poisson, random_uniform, skew_stable
+from copulae.stats import poisson, random_uniform
 from copulae.types import Array, Numeric
 from copulae.utility.annotations import *
 from ._shared import valid_rows_in_u
@@ -234,9 +233,12 @@ class GumbelCopula(AbstractArchimedeanCopula):
             return u
 
         alpha = 1 / self.params
-        fr = skew_stable.rvs(alpha, beta=1, gamma=cospi2(alpha) ** self.params, pm=1, size=n)
-
-        return self.psi(-np.log(u) / fr[:, None])
+        # Zolotarev's form of the stable frailty, raised to the power of alpha: the frailty itself is out of range
+        # for large parameters
+        t = np.pi * np.random.uniform(size=n)
+        w = np.random.standard_exponential(n)
+        fr = np.sin(alpha * t) ** alpha * (np.sin((1 - alpha) * t) / w) ** (1 - alpha) / np.sin(t)
+        return np.exp(-(-np.log(u)) ** alpha / fr[:, None])
 
     @property
     def rho(self):
-- 
2.43.0


From a60f9a3c453b8f0feaf93e888c35f091aec6ec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:24 +0000
Subject: [PATCH 43/48] fix: Clayton samples keep their distribution for large
 parameters

---
 copulae/archimedean/clayton.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index d92a918..2a073c7 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -162,12 +162,13 @@ class ClaytonCopula(AbstractArchimedeanCopula):
 
         r = random_uniform(n, self.dim, seed)
         if self.dim == 2:
-            r[:, 1] = (r[:, 0] ** (-theta) * (r[:, 1] ** (-theta / (theta + 1)) - 1) + 1) ** (-1 / theta)
+            r[:, 1] = r[:, 0] * (r[:, 1] ** (-theta / (theta + 1)) - 1 + r[:, 0] ** theta) ** (-1 / theta)
             return r
         else:
-            gam = rng.standard_gamma(1 / theta, n)[:, None]
-            r = -np.log(r) / gam
-            return self.psi(r)
+            # a gamma variate of shape 1 / theta, which is out of range itself for large parameters, is one of shape
+            # 1 + 1 / theta times the power theta of a uniform variate
+            log_gam = np.log(rng.standard_gamma(1 + 1 / theta, n)) + theta * np.log(rng.uniform(size=n))
+            return np.exp(-np.logaddexp(0, np.log(-np.log(r)) - log_gam[:, None]) / theta)
 
     @property
     def rho(self):
-- 
2.43.0


From 07d6a35fb9630ccd0a2ab337b311053a047b8d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:14 +0000
Subject: [PATCH 44/48] fix: inverse of Kendall's tau at perfect dependence

---
 copulae/archimedean/frank.py  | 3 ++-
 copulae/archimedean/gumbel.py | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index d6c33ed..5838679 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -112,7 +112,8 @@ class FrankCopula(AbstractArchimedeanCopula):
     @squeeze_output
     def itau(self, tau):
         # 1 - |tau| <= 4 / |theta|
-        res = np.array([0. if t == 0 else np.sign(t) * find_root(lambda x: self._tau(x) - abs(t), 0, 4 / (1 - abs(t)))
+        res = np.array([0. if t == 0 else np.inf * t if abs(t) == 1
+                        else np.sign(t) * find_root(lambda x: self._tau(x) - abs(t), 0, 4 / (1 - abs(t)))
                         for t in tau.ravel()])
         return res.reshape(tau.shape)
 
diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index aadf276..c025630 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -162,7 +162,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
             if np.any(tau < 0):
                 warnings.warn(warning_message)
                 tau = np.maximum(tau, 0)
-        return 1 / (1 - tau)
+        return np.divide(1, 1 - tau)
 
     @property
     def lambda_(self):
@@ -198,6 +198,9 @@ class GumbelCopula(AbstractArchimedeanCopula):
             pdf[ok] = 0 if log else 1
             return pdf
 
+        if np.isinf(theta):  # comonotonicity, there is no density
+            return np.repeat(np.nan, n)
+
         nlu = -np.log(u)  # negative log u
         lnlu = np.log(nlu)  # log negative log u
         lip = self.ipsi(u, log=True)  # log ipsi u
-- 
2.43.0


From 9799558872c13b1e58e8c3830d1484109200cce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:14 +0000
Subject: [PATCH 45/48] fix: maximum likelihood start when one pair of columns
 is perfectly dependent

---
 copulae/copula/estimator/estimator.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/estimator.py b/copulae/copula/estimator/estimator.py
index fd1fa26..be7742e 100644
--- a/copulae/copula/estimator/estimator.py
+++ b/copulae/copula/estimator/estimator.py
@@ -5,7 +5,7 @@ import pandas as pd
 
 from copulae.copula.estimator.misc import is_archimedean, is_elliptical
 from copulae.core import tri_indices
-from copulae.stats import pearson_rho
+from copulae.stats import kendall_tau, pearson_rho
 from copulae.types import Array, Ties
 from copulae.utility.dict import merge_dict
 from .corr_inversion import estimate_corr_inverse_params
@@ -122,6 +122,13 @@ def initial_params(copula: Copula, data: np.ndarray, x0: np.ndarray):
         start = estimate_corr_inverse_params(copula, data, 'itau').params
         ll = copula.log_lik(data)
 
+        if not np.isfinite(ll) and copula.dim > 2:
+            # a single pair of perfectly dependent columns makes the average of the parameters useless as a start
+            tau = np.mean(np.asarray(kendall_tau(data))[tri_indices(copula.dim, 1, 'lower')])
+            if 0 < tau < 1:
+                start = copula.params = float(copula.itau(tau))
+                ll = copula.log_lik(data)
+
         if np.isfinite(ll):
             return start
         else:
-- 
2.43.0


From 07c98d366347a106fd794cc905211ff184897d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:51 +0000
Subject: [PATCH 46/48] fix: accurate Gumbel density polynomial for weak
 dependence in up to 30 dimensions

---
 copulae/archimedean/gumbel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index c025630..51e3dfb 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -435,7 +435,7 @@ def _get_poly_method(lx: float, alpha: float, d: int):  # pragma: no cover
     """Determines the method to apply for for each log x argument to gumbel_poly"""
 
     if d <= 30:
-        return 'direct'
+        return 'direct' if alpha <= 0.9 else 'log'
     elif d <= 50:
         return 'direct' if alpha <= 0.8 else 'log'
     elif d <= 70:
-- 
2.43.0


From e050c260cbd08a1b35376ca8030af8fdf53749fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:28 +0000
Subject: [PATCH 47/48] fix: Gumbel density overflowed to infinity in about 110
 and more dimensions

---
 copulae/archimedean/gumbel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index 51e3dfb..61eb3e1 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -427,8 +427,10 @@ def _calculate_gumbel_poly(lx: np.ndarray, alpha: float, d: int, method: str, lo
         log_a_dk = gumbel_coef(d, alpha, method, True)
 
         log_x = log_a_dk[:, None] + k.reshape(-1, 1) @ lx.reshape(1, -1)
-        x = np.exp(log_x).sum(0)
-        return np.log(x) if log else x
+        offset = np.max(log_x, 0)  # the terms are out of range in high dimensions
+        res = np.log(np.exp(log_x - offset).sum(0)) + offset
+
+        return res if log else np.exp(res)
 
 
 def _get_poly_method(lx: float, alpha: float, d: int):  # pragma: no cover
-- 
2.43.0


From a9c2e68514e25a66aa455918e609811e849b942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:28 +0000
Subject: [PATCH 48/48] fix: Gumbel density was nan in about 120 and more
 dimensions through cancelling coefficients

---
 copulae/archimedean/gumbel.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index 61eb3e1..8078bc8 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -338,6 +338,14 @@ def gumbel_coef(d: int, alpha: float, method='sort', log=False) -> np.ndarray:
             a[i] = np.log(abs(sum_)) if log else (-1) ** (d - i + 1) * sum_
 
         return a
+    elif method == 'log':
+        # a[d + 1, k] = (d - alpha * k) * a[d, k] + alpha * a[d, k - 1], where no terms cancel each other
+        a = np.log([alpha])
+        with np.errstate(divide='ignore'):
+            for i in range(1, d):
+                a = np.logaddexp([*(np.log(i - alpha * (np.arange(i) + 1)) + a), -np.inf], [-np.inf, *(np.log(alpha) + a)])
+
+        return a if log else np.exp(a)
     else:
         method = 'direct' if method.startswith('ds.') else method
         ds = np.arange(d) + 1
-- 
2.43.0

