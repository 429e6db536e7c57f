From 38eecd182018e828c4c89a92b90ffd11fb36f432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:08 +0000
Subject: [PATCH 01/48] fix: FrankCopula.psi no longer overwrites the caller's
 array

---
 copulae/archimedean/frank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 83a6a02..b09dc9f 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -155,7 +155,7 @@ class FrankCopula(AbstractArchimedeanCopula):
     def psi(self, s):
         assert not np.isnan(self.params), "Copula must have parameters to calculate psi"
 
-        s = np.asarray(s)
+        s = np.array(s, dtype=float)  # copy, the caller's array must not be overwritten
         if self.params <= -36:
             return -log1pexp(-s - self.params) / self.params
         elif self.params < 0:
-- 
2.43.0


From fe6a72f0f49f02be6d37ed884c5544ad24db7035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:08 +0000
Subject: [PATCH 02/48] fix: GumbelCopula.itau no longer zeroes negative values
 in the caller's array

---
 copulae/archimedean/gumbel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index c38cbfa..1d648df 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -163,7 +163,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
         else:
             if np.any(tau < 0):
                 warnings.warn(warning_message)
-                tau[tau < 0] = 0
+                tau = np.where(tau < 0, 0, tau)
         return 1 / (1 - tau)
 
     def lambda_(self):
-- 
2.43.0


From 4ab585bf7af14bb32f12b8aedcbf6b332789e098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:08 +0000
Subject: [PATCH 03/48] fix: special functions no longer overwrite the caller's
 array

---
 copulae/special/_specfunc.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/copulae/special/_specfunc.pyx b/copulae/special/_specfunc.pyx
index cbdceda..5a73fb8 100644
--- a/copulae/special/_specfunc.pyx
+++ b/copulae/special/_specfunc.pyx
@@ -80,7 +80,7 @@ cdef:
 
 
 def clausen(x, bint threaded=True):
-    x = np.asarray(x, float)
+    x = np.array(x, float)  # copy, the mapping below works in place
     cdef:
         cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
         int n = arr.size
@@ -96,7 +96,7 @@ def clausen(x, bint threaded=True):
 
 
 def debye_1(x, bint threaded=True):
-    x = np.asarray(x, float)
+    x = np.array(x, float)  # copy, the mapping below works in place
     cdef:
         cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
         int n = arr.size
@@ -112,7 +112,7 @@ def debye_1(x, bint threaded=True):
 
 
 def debye_2(x, bint threaded=True):
-    x = np.asarray(x, float)
+    x = np.array(x, float)  # copy, the mapping below works in place
     cdef:
         cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
         int n = arr.size
@@ -128,7 +128,7 @@ def debye_2(x, bint threaded=True):
 
 
 def dilog(x, bint threaded):
-    x = np.asarray(x, float)
+    x = np.array(x, float)  # copy, the mapping below works in place
     cdef:
         cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
         int n = arr.size
@@ -144,8 +144,8 @@ def dilog(x, bint threaded):
 
 
 def dilog_complex(r, theta, bint threaded):
-    r = np.asarray(r, float)
-    theta = np.asarray(theta, float)
+    r = np.array(r, float)  # copies, the mapping below works in place
+    theta = np.array(theta, float)
 
     cdef:
         ComplexResult c
-- 
2.43.0


From 534ce825a54f73e331065fa66d0b2e29aa951d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:08 +0000
Subject: [PATCH 04/48] fix: create_univariate no longer fills defaults into
 the caller's parameters dict

---
 copulae/marginal/univariate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/marginal/univariate.py b/copulae/marginal/univariate.py
index c4ada04..d44b26f 100644
--- a/copulae/marginal/univariate.py
+++ b/copulae/marginal/univariate.py
@@ -20,7 +20,7 @@ class DistDetail(TypedDict, total=False):
 
 def create_univariate(details: DistDetail) -> rv_frozen:
     dist = get_marginal_class(details)
-    parameters = details.get('parameters', {})
+    parameters = dict(details.get('parameters', {}))
     for p in signature(getattr(dist, "_parse_args")).parameters.values():
         if p.default is Parameter.empty and p.name not in parameters:
             parameters[p.name] = 0.5
-- 
2.43.0


From 1a90d5814d85960c2287909d10b5b562ca59ea22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:08 +0000
Subject: [PATCH 05/48] fix: fit no longer writes a default method into the
 caller's optim_options

---
 copulae/copula/estimator/estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/estimator.py b/copulae/copula/estimator/estimator.py
index e74545b..38c8aba 100644
--- a/copulae/copula/estimator/estimator.py
+++ b/copulae/copula/estimator/estimator.py
@@ -83,7 +83,7 @@ def fit_copula(copula: Copula, data: Union[pd.DataFrame, np.ndarray],
     --------
     :code:`scipy.optimize.minimize`: the optimization function
     """
-    options = form_options(optim_options or {}, verbose, data, copula)
+    options = form_options(dict(optim_options or {}), verbose, data, copula)
     if not isinstance(data, np.ndarray):
         data = np.asarray(data)
 
-- 
2.43.0


From 7be8950e075ddcf3e9d2b494a8768998446dbddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:51 +0000
Subject: [PATCH 06/48] fix: StudentCopula.fit(fix_df=True) no longer appends
 to the caller's constraints

---
 copulae/elliptical/student.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index 2e3b846..047d48b 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -108,9 +108,10 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
         :code:`scipy.optimize.minimize`: the `scipy minimize <https://docs.scipy.org/doc/scipy/reference/generated/scipy.optimize.minimize.html#scipy.optimize.minimize>`_ function use for optimization
         """
         if fix_df:
-            if optim_options is None:
-                optim_options = {'constraints': []}
-            optim_options['constraints'].append({'type': 'eq', 'fun': lambda x: x[0] - self._df})  # df doesn't change
+            optim_options = dict(optim_options or {})
+            constraints = optim_options.get('constraints', [])
+            constraints = [constraints] if isinstance(constraints, dict) else list(constraints)
+            optim_options['constraints'] = [*constraints, {'type': 'eq', 'fun': lambda x: x[0] - self._df}]
 
         return super().fit(data, x0, method, optim_options, ties, verbose, to_pobs, scale)
 
-- 
2.43.0


From 6231b6dec2bfebadcf6a8d1b6a7f976a2655c058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 07/48] fix: StudentCopula.fit(fix_df=True) keeps the degrees
 of freedom the user set

---
 copulae/elliptical/student.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index 047d48b..803db37 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -111,7 +111,8 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
             optim_options = dict(optim_options or {})
             constraints = optim_options.get('constraints', [])
             constraints = [constraints] if isinstance(constraints, dict) else list(constraints)
-            optim_options['constraints'] = [*constraints, {'type': 'eq', 'fun': lambda x: x[0] - self._df}]
+            df = self._df  # the optimizer moves self._df, so the constraint must hold on to the initial value
+            optim_options['constraints'] = [*constraints, {'type': 'eq', 'fun': lambda x: x[0] - df}]
 
         return super().fit(data, x0, method, optim_options, ties, verbose, to_pobs, scale)
 
-- 
2.43.0


From 85239291a43e04b10f923a77a250676c8383ad87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 08/48] fix: elliptical copulas keep their own copy of the
 parameters, so later updates leave the caller's array alone

---
 copulae/elliptical/gaussian.py | 2 +-
 copulae/elliptical/student.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index 7ea67f4..0e4784c 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -70,7 +70,7 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
     def params(self, params: Union[float, np.ndarray, Collection[float]]):
         if isinstance(params, (float, int)):
             params = np.repeat(params, len(self._rhos))
-        self._rhos = np.asarray(params)
+        self._rhos = np.array(params, dtype=float)
 
     @validate_data_dim({"u": [1, 2]})
     @shape_first_input_to_cop_dim
diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index 803db37..5abd84e 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -155,9 +155,9 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
     def params(self, params: Union[np.ndarray, StudentParams]):
         if isinstance(params, StudentParams):
             self._df = params.df
-            self._rhos = params.rho
+            self._rhos = np.array(params.rho, dtype=float)
         else:
-            params = np.asarray(params)
+            params = np.array(params, dtype=float)
             if len(params) != 1 + sum(range(self.dim)):
                 raise ValueError('Incompatible parameters for student copula')
 
-- 
2.43.0


From d39220cd45f34d86e4b1688c4387b613d1a02373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 09/48] fix: GMCParam keeps its own copy of its arrays and
 to_vector leaves them unchanged

---
 copulae/mixtures/gmc/parameter.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/copulae/mixtures/gmc/parameter.py b/copulae/mixtures/gmc/parameter.py
index 0db3f55..2b1e3af 100644
--- a/copulae/mixtures/gmc/parameter.py
+++ b/copulae/mixtures/gmc/parameter.py
@@ -38,12 +38,13 @@ class GMCParam:
         Converts GMCParam to a 1-D vector representation. Vector representation enables GMCParam to be
         updated via scipy's optimize module.
         """
-        self.prob[self.prob == 0] += 1e-5
-        self.prob[self.prob == 1] -= 1e-5
-        self.prob /= self.prob.sum()
+        prob = np.array(self.prob, dtype=float)  # work on a copy, converting must not alter the parameter
+        prob[prob == 0] += 1e-5
+        prob[prob == 1] -= 1e-5
+        prob /= prob.sum()
 
         return np.array([
-            *np.log(self.prob / (1 - self.prob)),
+            *np.log(prob / (1 - prob)),
             *self.means.ravel(),
             *np.ravel([c[np.triu_indices(self.n_dim)] for c in self.covs])
         ])
@@ -85,7 +86,7 @@ class GMCParam:
 
     @prob.setter
     def prob(self, value: Union[C[float], np.ndarray]):
-        value = np.ravel(value)
+        value = np.array(value, dtype=float).ravel()
 
         if len(value) != self.n_clusters:
             raise GMCParamError(f"probability vector should have {self.n_clusters} components")
@@ -100,7 +101,7 @@ class GMCParam:
 
     @means.setter
     def means(self, value: Union[C[float], np.ndarray]):
-        value = np.asarray(value)
+        value = np.array(value, dtype=float)
 
         shape = self.n_clusters, self.n_dim
         if value.shape != shape:
-- 
2.43.0


From b8982f495149193ff2015966a847c3b940c15260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 10/48] fix: evaluating an archimedean density no longer
 changes the process-wide warning filters

---
 copulae/archimedean/_shared.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/copulae/archimedean/_shared.py b/copulae/archimedean/_shared.py
index c3254cf..e064b50 100644
--- a/copulae/archimedean/_shared.py
+++ b/copulae/archimedean/_shared.py
@@ -1,5 +1,3 @@
-import warnings
-
 import numpy as np
 
 
@@ -13,5 +11,5 @@ def valid_rows_in_u(U: np.ndarray) -> np.ndarray:
         a boolean vector that indicates which rows are okay
     """
 
-    warnings.filterwarnings("ignore", category=RuntimeWarning)
-    return (~np.isnan(U) & (0 <= U) & (U <= 1)).all(1)
+    with np.errstate(invalid='ignore'):
+        return (~np.isnan(U) & (0 <= U) & (U <= 1)).all(1)
-- 
2.43.0


From 2ade4b64604d3aceb5290eceaef99a694da0a0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 11/48] fix: exch_test no longer reseeds the global random
 generator

---
 copulae/gof/_exchangeability.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/gof/_exchangeability.pyx b/copulae/gof/_exchangeability.pyx
index be7c4b2..4519323 100644
--- a/copulae/gof/_exchangeability.pyx
+++ b/copulae/gof/_exchangeability.pyx
@@ -155,10 +155,10 @@ def exch_test_cn(double[:, :] u, double[:, :] g, int n, int m, int N, int random
                                - (U[j] <= y) * (V[j] <= x)
                                + d1yx * (U[j] <= y) + d2yx * (V[j] <= x)) / sqrt(n)
 
-    np.random.seed(random_state)
+    rng = np.random.RandomState(random_state)  # private generator, the global one is the user's
 
     for i in range(N):
-        random = np.random.normal(size=n)
+        random = rng.normal(size=n)
         mean = 0.0
         for j in range(n):
             mean += random[j] / n
-- 
2.43.0


From 069bd8190dec2ed60f0b2cbba9780592d9566ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 12/48] fix: fitting a DataFrame with verbose=0 prints nothing

---
 copulae/copula/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copulae/copula/base.py b/copulae/copula/base.py
index aa5c40b..11beade 100644
--- a/copulae/copula/base.py
+++ b/copulae/copula/base.py
@@ -135,7 +135,8 @@ class BaseCopula(ABC, Generic[Param]):
 
         if isinstance(data, pd.DataFrame):
             self._columns = list(data.columns)
-            print(data.describe())
+            if verbose > 0:
+                print(data.describe())
 
         return self
 
-- 
2.43.0


From 34bd750ab74639fadc0e6707dbbfe9fd71faac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:45 +0000
Subject: [PATCH 13/48] fix: setting an integer correlation matrix no longer
 truncates later correlation updates

---
 copulae/elliptical/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/elliptical/abstract.py b/copulae/elliptical/abstract.py
index 802308f..b987137 100644
--- a/copulae/elliptical/abstract.py
+++ b/copulae/elliptical/abstract.py
@@ -84,7 +84,7 @@ class AbstractEllipticalCopula(BaseCopula[Param], ABC):
             if value < -1 or value > 1:
                 raise ValueError("correlation value must be between -1 and 1")
         else:
-            value = np.asarray(value)
+            value = np.asarray(value, dtype=float)
             if not np.all((value >= -1 - EPS) & (value <= 1 + EPS)):
                 raise ValueError("correlation value must be between -1 and 1")
 
-- 
2.43.0


From 35d6008438289c3b52db7fcb2024eda8c4fefb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:45 +0000
Subject: [PATCH 14/48] fix: MarginalCopula cdf and pdf no longer truncate
 probabilities for integer data

---
 copulae/marginal/marginal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/marginal/marginal.py b/copulae/marginal/marginal.py
index 3f71091..4aed1a9 100644
--- a/copulae/marginal/marginal.py
+++ b/copulae/marginal/marginal.py
@@ -94,7 +94,7 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
     @squeeze_output
     def cdf(self, x: Array, log=False) -> Union[np.ndarray, float]:
         x = self._check_x_input(x)
-        u = np.empty_like(x)
+        u = np.empty_like(x, dtype=float)
         for i, m in enumerate(self._marginals):
             u[:, i] = m.cdf(x[:, i])
 
@@ -131,7 +131,7 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
     @squeeze_output
     def pdf(self, x: Array, log=False) -> Union[np.ndarray, float]:
         x = self._check_x_input(x)
-        u = np.empty_like(x)
+        u = np.empty_like(x, dtype=float)
         density_margin = 0 if log else 1
 
         for i, m in enumerate(self._marginals):
-- 
2.43.0


From d8ec0a475d6a68d0657c45b6504f7fe651bfff19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:03 +0000
Subject: [PATCH 15/48] fix: GumbelCopula.pdf accepts the DataFrame it was
 fitted with

---
 copulae/archimedean/gumbel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index 1d648df..13dc219 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -188,6 +188,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
     def pdf(self, u: np.ndarray, log=False):
         assert not np.isnan(self.params), "Copula must have parameters to calculate parameters"
 
+        u = np.asarray(u)
         n, d = u.shape
 
         theta = self.params
-- 
2.43.0


From 57bce7bfdd5749bf9003d79968d0c65714fb22c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:03 +0000
Subject: [PATCH 16/48] fix: EmpiricalCopula.pdf accepts DataFrames

---
 copulae/empirical/empirical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copulae/empirical/empirical.py b/copulae/empirical/empirical.py
index 9171d17..dc1e2d1 100644
--- a/copulae/empirical/empirical.py
+++ b/copulae/empirical/empirical.py
@@ -155,6 +155,7 @@ class EmpiricalCopula(BaseCopula[None]):
     def pdf(self, u: Array, log=False):
         assert self.smoothing == "beta", "Empirical Copula only has density (PDF) for 'beta' smoothing"
 
+        u = np.asarray(u)  # iterating over a DataFrame yields its labels instead of its rows
         data_rank = rank_data(self.data, 1, self.ties)
         n = len(self.data)
 
-- 
2.43.0


From 54414348969fffb44f9c386084b026b7c940fafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:03 +0000
Subject: [PATCH 17/48] fix: MarginalCopula.random works when the inner copula
 has labelled columns

---
 copulae/marginal/marginal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/marginal/marginal.py b/copulae/marginal/marginal.py
index 4aed1a9..9046901 100644
--- a/copulae/marginal/marginal.py
+++ b/copulae/marginal/marginal.py
@@ -147,7 +147,7 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
 
     @cast_output
     def random(self, n: int, seed: int = None) -> Union[np.ndarray, float]:
-        u = self._copula.random(n, seed)
+        u = np.asarray(self._copula.random(n, seed))  # a DataFrame if the inner copula has labelled columns
         x = np.empty_like(u)
         for i, m in enumerate(self._marginals):
             x[:, i] = m.ppf(u[:, i])
-- 
2.43.0


From fd0ab51f3c453bbb7ceb3a239589bc8a9f60ad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:03 +0000
Subject: [PATCH 18/48] fix: refitting with an array forgets the column labels
 of the previous fit

---
 copulae/copula/base.py       | 7 +++----
 copulae/marginal/marginal.py | 4 ++--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/copulae/copula/base.py b/copulae/copula/base.py
index 11beade..966cba2 100644
--- a/copulae/copula/base.py
+++ b/copulae/copula/base.py
@@ -133,10 +133,9 @@ class BaseCopula(ABC, Generic[Param]):
         x0 = np.asarray(x0) if x0 is not None and not isinstance(x0, np.ndarray) and isinstance(x0, Collection) else x0
         self._fit_smry = fit_copula(self, data, x0, method, verbose, optim_options, scale)
 
-        if isinstance(data, pd.DataFrame):
-            self._columns = list(data.columns)
-            if verbose > 0:
-                print(data.describe())
+        self._columns = list(data.columns) if isinstance(data, pd.DataFrame) else None
+        if isinstance(data, pd.DataFrame) and verbose > 0:
+            print(data.describe())
 
         return self
 
diff --git a/copulae/marginal/marginal.py b/copulae/marginal/marginal.py
index 9046901..f549e42 100644
--- a/copulae/marginal/marginal.py
+++ b/copulae/marginal/marginal.py
@@ -102,8 +102,7 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
 
     def fit(self, data: Union[pd.DataFrame, np.ndarray], x0: Union[Collection[float], np.ndarray] = None, method='ml',
             verbose=1, optim_options: dict = None, ties='average', to_pobs=True, scale=1.0):
-        if isinstance(data, pd.DataFrame):
-            self._columns = list(data.columns)
+        columns = list(data.columns) if isinstance(data, pd.DataFrame) else None
 
         data = np.asarray(data)
         if data.ndim != 2:
@@ -117,6 +116,7 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
         # writing it as such to get past the type-hints flags
         self._copula.fit(data, x0, method, optim_options, ties, verbose, to_pobs, scale)
         self._fit_smry = self._copula._fit_smry
+        self._columns = columns
         return self
 
     @property
-- 
2.43.0


From 6b98a5037360306d6d2c07fdee9079e0e1227fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:19 +0000
Subject: [PATCH 19/48] fix: GaussianMixtureCopula.fit accepts DataFrames and
 lists and remembers the column labels

---
 copulae/mixtures/gmc/gmc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index 541b46d..be9cc7d 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -187,6 +187,8 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
         :code:`scipy.optimize.minimize`: the `scipy minimize <https://docs.scipy.org/doc/scipy/reference/generated/scipy.optimize.minimize.html#scipy.optimize.minimize>`_ function use for optimization
         """
         method = method.lower()
+        columns = list(data.columns) if isinstance(data, pd.DataFrame) else None
+        data = np.asarray(data)
 
         if x0 is None:
             self._fit_smry = k_means(data, self.clusters, self.dim)
@@ -211,6 +213,7 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
 
         self.params = self._fit_smry.best_params
         self._fit_details["method"] = method
+        self._columns = columns
         return self
 
     @property
-- 
2.43.0


From 0774d9ba96dedc8e7a0f71d5036b8087642791cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:33 +0000
Subject: [PATCH 20/48] fix: cdf, pdf and the correlation functions accept
 their first argument by keyword

---
 copulae/utility/annotations/reshape.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/copulae/utility/annotations/reshape.py b/copulae/utility/annotations/reshape.py
index 7b7db12..b238253 100644
--- a/copulae/utility/annotations/reshape.py
+++ b/copulae/utility/annotations/reshape.py
@@ -32,7 +32,7 @@ class cast_input:
                 args[i] = self.cast(a, arg_name)
 
         for arg_name, a in kwargs.items():
-            if arg_name is self.arguments:
+            if arg_name in self.arguments:
                 kwargs[arg_name] = self.cast(a, arg_name)
 
         return method(*args, **kwargs)
@@ -67,8 +67,9 @@ def shape_first_input_to_cop_dim(method, instance: BaseCopula, args, kwargs):
     As a side effect, also reorders the DataFrame or Series input if the fitted data was a DataFrame.
     With a fitted DataFrame, the _column will be present to allow for ordering
     """
-    x = args[0]
-    args = list(args)
+    # the first input may also be given by its name
+    first_arg = getfullargspec(method).args[1]
+    x = args[0] if len(args) > 0 else kwargs[first_arg]
 
     columns = getattr(instance, "_columns", None)
     if isinstance(x, pd.Series):
@@ -92,9 +93,10 @@ def shape_first_input_to_cop_dim(method, instance: BaseCopula, args, kwargs):
     elif x.shape[1] != instance.dim:
         raise ValueError("Input array must have same dimension as copula")
 
-    args[0] = x
+    if len(args) > 0:
+        return method(x, *args[1:], **kwargs)
 
-    return method(*args, **kwargs)
+    return method(**{**kwargs, first_arg: x})
 
 
 @wrapt.decorator
-- 
2.43.0


From feefe7b013f4da4119ba67789b89cbed4873c9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:33 +0000
Subject: [PATCH 21/48] fix: unavailable correlation functions raise
 NotImplementedError instead of returning or calling the NotImplemented
 sentinel

---
 copulae/archimedean/clayton.py | 4 ++--
 copulae/archimedean/frank.py   | 2 +-
 copulae/archimedean/gumbel.py  | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index 4e6d950..d854463 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -63,7 +63,7 @@ class ClaytonCopula(AbstractArchimedeanCopula):
         # if np.isnan(x):
         #     return np.nan
         # return self._ext.drho(x)
-        return NotImplemented
+        raise NotImplementedError
 
     @cast_input(['theta'], optional=True)
     @squeeze_output
@@ -174,7 +174,7 @@ class ClaytonCopula(AbstractArchimedeanCopula):
     @staticmethod
     def _rho(theta):
         # TODO Clayton: add rho function
-        return NotImplemented
+        raise NotImplementedError
 
     @staticmethod
     def _tau(theta):
diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index b09dc9f..58fc460 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -99,7 +99,7 @@ class FrankCopula(AbstractArchimedeanCopula):
 
     def irho(self, rho: Array):  # pragma: no cover
         # TODO frank: add inverse rho
-        return NotImplemented
+        raise NotImplementedError
 
     @cast_input(['tau'])
     @squeeze_output
diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index 13dc219..7e6e149 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -136,7 +136,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
 
     def drho(self, x: Optional[np.ndarray] = None):
         # TODO Gumbel: add rho derivative function
-        return NotImplemented
+        raise NotImplementedError
 
     @cast_input(['x'], optional=True)
     @squeeze_output
@@ -257,7 +257,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
     @staticmethod
     def _rho(theta):
         # TODO Gumbel: add rho function
-        return NotImplemented
+        raise NotImplementedError
 
     @staticmethod
     def _tau(theta):
-- 
2.43.0


From 3d14b4321d796b07ff70fb319ecdc7379d2c75cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:33 +0000
Subject: [PATCH 22/48] fix: GumbelCopula.dAdu raises to a power instead of
 applying xor to floats

---
 copulae/archimedean/gumbel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index 7e6e149..edef876 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -103,7 +103,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
         expr4 = expr3 - 1
         expr5 = expr2 ** expr4
         expr6 = alpha - 1
-        expr7 = alpha * w ** expr6 - alpha * expr1 ^ expr6
+        expr7 = alpha * w ** expr6 - alpha * expr1 ** expr6
         expr8 = expr3 * expr7
         expr9 = expr6 - 1
         # value = expr4 ** expr5
-- 
2.43.0


From 64437277bd11356510a569126b660d2146aceffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:03 +0000
Subject: [PATCH 23/48] fix: GumbelCopula.A and dAdu accept scalars

---
 copulae/archimedean/gumbel.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index edef876..c471ab1 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -71,11 +71,9 @@ class GumbelCopula(AbstractArchimedeanCopula):
         """
         bnd = (w == 0) | (w == 1)
         r = (w ** self.params + (1 - w) ** self.params) ** (1 / self.params)
-        r[bnd] = 1
-        return r
+        return np.where(bnd, 1.0, r)
 
     @cast_input(['w'])
-    @squeeze_output
     def dAdu(self, w):
         """
         First and second derivative of A
-- 
2.43.0


From 9fdb3c135937bf3046f35e23372e37fbcd848105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:03 +0000
Subject: [PATCH 24/48] fix: FrankCopula.ipsi returns the values computed for
 small inputs and accepts scalars

---
 copulae/archimedean/frank.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 58fc460..fdb0342 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -77,6 +77,7 @@ class FrankCopula(AbstractArchimedeanCopula):
     @squeeze_output
     def ipsi(self, u, log=False):
         r = np.asarray(u) * self.params
+        shape, r = r.shape, np.ravel(r)
 
         res = np.copy(r)
         res[np.isnan(r)] = np.nan
@@ -92,10 +93,11 @@ class FrankCopula(AbstractArchimedeanCopula):
 
         m1 = big_mask & mid_mask
         m2 = big_mask & ~mid_mask
-        r[m1] = -np.log1p(e * np.expm1((self.params - r[m1])) / em)
-        r[m2] = -np.log1p((np.exp(-r[m2]) - e) / em)
+        res[m1] = -np.log1p(e * np.expm1((self.params - r[m1])) / em)
+        res[m2] = -np.log1p((np.exp(-r[m2]) - e) / em)
+        res = res.reshape(shape)
 
-        return np.log(r) if log else r
+        return np.log(res) if log else res
 
     def irho(self, rho: Array):  # pragma: no cover
         # TODO frank: add inverse rho
-- 
2.43.0


From 7ff27632d067bc2376eb4ec2d664c39e49d8356e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:33 +0000
Subject: [PATCH 25/48] fix: cdf and pdf name their first argument alike in all
 copulas, as declared in BaseCopula

---
 copulae/empirical/empirical.py | 10 +++++-----
 copulae/indep/indep.py         |  6 +++---
 copulae/marginal/marginal.py   |  6 +++---
 copulae/mixtures/gmc/gmc.py    | 10 +++++-----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/copulae/empirical/empirical.py b/copulae/empirical/empirical.py
index dc1e2d1..e70ce39 100644
--- a/copulae/empirical/empirical.py
+++ b/copulae/empirical/empirical.py
@@ -105,10 +105,10 @@ class EmpiricalCopula(BaseCopula[None]):
     def data(self):
         return self._data
 
-    @validate_data_dim({"u": [1, 2]})
+    @validate_data_dim({"x": [1, 2]})
     @shape_first_input_to_cop_dim
     @squeeze_output
-    def cdf(self, u: Array, log=False):
+    def cdf(self, x: Array, log=False):
         """
         Returns the cumulative distribution function (CDF) of the copulae.
 
@@ -117,7 +117,7 @@ class EmpiricalCopula(BaseCopula[None]):
 
         Parameters
         ----------
-        u: ndarray
+        x: ndarray
             Vector or matrix of the pseudo-observations of the observed data. This vector must be (n x d)
             where `d` is the dimension of the copula and must have values between 0 and 1. The caller must
             have specified the density.
@@ -130,11 +130,11 @@ class EmpiricalCopula(BaseCopula[None]):
         ndarray or float
             The CDF of the random variates
         """
-        if np.any(u > (1 + EPSILON)) or np.any(u < -EPSILON):
+        if np.any(x > (1 + EPSILON)) or np.any(x < -EPSILON):
             raise ValueError("input array must be pseudo observations")
 
         uu = self.pobs(self._data, self.ties)  # pseudo-observations of source marginal to compare against
-        cdf = emp_dist_func(u, uu, self._smoothing, self._offset)
+        cdf = emp_dist_func(x, uu, self._smoothing, self._offset)
         return np.log(cdf) if log else cdf
 
     def fit(self, data, x0=None, method='ml', optim_options=None, ties='average', verbose=1, to_pobs=True, scale=1.0):
diff --git a/copulae/indep/indep.py b/copulae/indep/indep.py
index c0fa8a9..7565450 100644
--- a/copulae/indep/indep.py
+++ b/copulae/indep/indep.py
@@ -52,11 +52,11 @@ class IndepCopula(BaseCopula[int]):
     def params(self):
         return self.dim
 
-    @validate_data_dim({"x": [1, 2]})
+    @validate_data_dim({"u": [1, 2]})
     @shape_first_input_to_cop_dim
     @squeeze_output
-    def pdf(self, x: Array, log=False):
-        return np.repeat(0 if log else 1, len(x))
+    def pdf(self, u: Array, log=False):
+        return np.repeat(0 if log else 1, len(u))
 
     @cast_output
     def random(self, n: int, seed: int = None):
diff --git a/copulae/marginal/marginal.py b/copulae/marginal/marginal.py
index f549e42..a4135d9 100644
--- a/copulae/marginal/marginal.py
+++ b/copulae/marginal/marginal.py
@@ -126,11 +126,11 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
             "marginals": [get_marginal_detail(m) for m in self._marginals]
         }
 
-    @validate_data_dim({"x": [1, 2]})
+    @validate_data_dim({"u": [1, 2]})
     @shape_first_input_to_cop_dim
     @squeeze_output
-    def pdf(self, x: Array, log=False) -> Union[np.ndarray, float]:
-        x = self._check_x_input(x)
+    def pdf(self, u: Array, log=False) -> Union[np.ndarray, float]:
+        x = self._check_x_input(u)
         u = np.empty_like(x, dtype=float)
         density_margin = 0 if log else 1
 
diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index be9cc7d..308665f 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -244,10 +244,10 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
         else:
             raise GMCParamMismatchError("Unsupported params type for GaussianMixtureCopula")
 
-    @validate_data_dim({"x": [1, 2]})
+    @validate_data_dim({"u": [1, 2]})
     @shape_first_input_to_cop_dim
     @squeeze_output
-    def pdf(self, x: Array, log=False):
+    def pdf(self, u: Array, log=False):
         """
         Returns the probability distribution function (PDF) of the copulae.
 
@@ -256,7 +256,7 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
 
         Parameters
         ----------
-        x
+        u
             Vector or matrix of observed data
 
         log
@@ -270,9 +270,9 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
         if self.params is None:
             raise GMCNotFittedError
 
-        out = np.zeros(len(x))
+        out = np.zeros(len(u))
         for prob, mean, cov in self.params:
-            out += prob * (mvn.logpdf(x, mean, cov) if log else mvn.pdf(x, mean, cov))
+            out += prob * (mvn.logpdf(u, mean, cov) if log else mvn.pdf(u, mean, cov))
 
         return out
 
-- 
2.43.0


From 55a78612c4ae235030afd01a13d28e2b741ac6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:53 +0000
Subject: [PATCH 26/48] fix: optim_options={"method": "trust-constr"} passes
 the options where scipy expects them

---
 copulae/copula/estimator/estimator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/copulae/copula/estimator/estimator.py b/copulae/copula/estimator/estimator.py
index 38c8aba..1919e13 100644
--- a/copulae/copula/estimator/estimator.py
+++ b/copulae/copula/estimator/estimator.py
@@ -202,9 +202,11 @@ def form_options(options: dict, verbose: int, data: np.ndarray, copula: Copula):
         }, options)
     elif method_is('trust-constr'):
         return merge_dict({
-            'maxiter': max_iter,
-            'disp': disp,
-            'bounds': bounds
+            'bounds': bounds,
+            'options': {
+                'maxiter': max_iter,
+                'disp': disp
+            }
         }, options)
     else:
         return options
-- 
2.43.0


From 3404b20694f73e79e7620456b9b7afdfd6790999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:53 +0000
Subject: [PATCH 27/48] fix: sampling from an unfitted GaussianMixtureCopula
 raises GMCNotFittedError

---
 copulae/mixtures/gmc/gmc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index 308665f..0aae2c0 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -294,6 +294,9 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
         np.ndarray
             array of generated observations
         """
+        if self.params is None:
+            raise GMCNotFittedError
+
         if seed is not None:
             np.random.seed(seed)
 
-- 
2.43.0


From 981080f5a84aa950c1036e62971a490a1d4255b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:53 +0000
Subject: [PATCH 28/48] fix: an invalid GaussianMixtureCopula fit method is
 rejected before the parameters are touched

---
 copulae/mixtures/gmc/gmc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index 0aae2c0..c5330a8 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -187,6 +187,9 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
         :code:`scipy.optimize.minimize`: the `scipy minimize <https://docs.scipy.org/doc/scipy/reference/generated/scipy.optimize.minimize.html#scipy.optimize.minimize>`_ function use for optimization
         """
         method = method.lower()
+        if method not in ('kmeans', 'pem', 'sgd'):
+            raise GMCFitMethodError(f"Invalid method: {method}. Use one of (kmeans, pem, sgd)")
+
         columns = list(data.columns) if isinstance(data, pd.DataFrame) else None
         data = np.asarray(data)
 
@@ -205,11 +208,8 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
         elif method == 'sgd':
             u = pseudo_obs(data, ties)
             self._fit_smry = gradient_descent(u, self.params, max_iter=max_iter, **(optim_options or {}))
-        elif method == 'kmeans':
-            if x0 is not None:  # otherwise already fitted by default
-                self._fit_smry = k_means(data, self.clusters, self.dim)
-        else:
-            raise GMCFitMethodError(f"Invalid method: {method}. Use one of (kmeans, pem, sgd)")
+        elif x0 is not None:  # kmeans, otherwise already fitted by default
+            self._fit_smry = k_means(data, self.clusters, self.dim)
 
         self.params = self._fit_smry.best_params
         self._fit_details["method"] = method
-- 
2.43.0


From 29900ed834fd80231451d8a56b7ef8a82afa2919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:53 +0000
Subject: [PATCH 29/48] fix: fit_copula checks the range of the data instead of
 comparing a truth value

---
 copulae/copula/estimator/estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/estimator.py b/copulae/copula/estimator/estimator.py
index 1919e13..a7823f0 100644
--- a/copulae/copula/estimator/estimator.py
+++ b/copulae/copula/estimator/estimator.py
@@ -87,7 +87,7 @@ def fit_copula(copula: Copula, data: Union[pd.DataFrame, np.ndarray],
     if not isinstance(data, np.ndarray):
         data = np.asarray(data)
 
-    if np.any(data) < 0 or np.any(data) > 1:
+    if np.any(data < 0) or np.any(data > 1):
         raise ValueError("data must be in [0, 1] -- you probably forgot to convert data to pseudo-observations")
     elif len(data) < copula.dim:
         raise ValueError("number of data (rows) must be greater than its dimension")
-- 
2.43.0


From 2334a1e9cc185945b5aa7939fbc099c8a748a537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:53 +0000
Subject: [PATCH 30/48] fix: the log likelihood in the fit summary does not
 depend on the scale of the objective

---
 copulae/copula/estimator/max_likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/max_likelihood.py b/copulae/copula/estimator/max_likelihood.py
index 9ae5d15..8bab675 100644
--- a/copulae/copula/estimator/max_likelihood.py
+++ b/copulae/copula/estimator/max_likelihood.py
@@ -65,4 +65,4 @@ def estimate_max_likelihood_params(copula, data: np.ndarray, x0: Union[np.ndarra
         estimate = res['x']
         copula.params = estimate
 
-    return FitSummary(estimate, "Maximum likelihood", -res['fun'], len(data), optim_options, res)
+    return FitSummary(estimate, "Maximum likelihood", -res['fun'] / scale, len(data), optim_options, res)
-- 
2.43.0


From bb91c49970be444e6593dac884524408fe31cfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:53 +0000
Subject: [PATCH 31/48] fix: the log likelihood in the summary of an inversion
 fit is that of the data the copula was fitted to

---
 copulae/copula/estimator/corr_inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/corr_inversion.py b/copulae/copula/estimator/corr_inversion.py
index 1536e65..5f1b702 100644
--- a/copulae/copula/estimator/corr_inversion.py
+++ b/copulae/copula/estimator/corr_inversion.py
@@ -45,7 +45,7 @@ def estimate_corr_inverse_params(copula, data: np.ndarray, type_: Literal['itau'
         raise NotImplementedError(f"Have not developed for '{copula.name} copula'")
 
     method = f"Inversion of {'Spearman Rho' if type_ == 'irho' else 'Kendall Tau'} Correlation"
-    return FitSummary(estimate, method, copula.log_lik(data), len(data))
+    return FitSummary(estimate, method, copula.log_lik(data, to_pobs=False), len(data))
 
 
 def fit_cor(copula, data: np.ndarray, typ: str) -> np.ndarray:
-- 
2.43.0


From 6612c6d86bbb10762dffa99ecb1eadacfc3a9cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:00 +0000
Subject: [PATCH 32/48] fix: the fit summary of an inversion fit renders as
 HTML

---
 copulae/copula/estimator/summary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/summary.py b/copulae/copula/estimator/summary.py
index e738059..03ed579 100644
--- a/copulae/copula/estimator/summary.py
+++ b/copulae/copula/estimator/summary.py
@@ -45,7 +45,7 @@ class FitSummary(SummaryType):
 
     def _repr_html_(self):
         portions = []
-        for s, r in zip_longest(self.setup.items(), self.results.items()):
+        for s, r in zip_longest((self.setup or {}).items(), (self.results or {}).items()):
             (sk, sv) = (None, None) if s is None else s
             (rk, rv) = (None, None) if r is None else r
             portions.append('<tr>' + ''.join(f"<td>{i}</td>" for i in (sk, sv, rk, rv)) + '</tr>')
-- 
2.43.0


From b8c7b52cc8257d5603b8eedf5cd6e7c89e12d3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:00 +0000
Subject: [PATCH 33/48] fix: the summary of an unfitted GaussianMixtureCopula
 renders as HTML

---
 copulae/mixtures/gmc/summary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copulae/mixtures/gmc/summary.py b/copulae/mixtures/gmc/summary.py
index 3486e2d..c013034 100644
--- a/copulae/mixtures/gmc/summary.py
+++ b/copulae/mixtures/gmc/summary.py
@@ -11,6 +11,9 @@ class Summary(SummaryType):
         self.fit = fit_details
 
     def _repr_html_(self):
+        if self.params is None:
+            return f"<div><h2>{self.name} Summary</h2><div>{self.params}</div></div>"
+
         params = [f"<strong>{title}</strong>" + pd.DataFrame(values).to_html(header=False, index=False)
                   for title, values in [("Mixture Probability", self.params.prob),
                                         ("Means", self.params.means)]]
-- 
2.43.0


From ef1865496283f7d77615a3ad45cf193285236ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:00 +0000
Subject: [PATCH 34/48] fix: lambda_ is a property in all copulas, and the
 upper tail index of GumbelCopula is a valid index

---
 copulae/archimedean/gumbel.py  | 3 ++-
 copulae/elliptical/gaussian.py | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index c471ab1..8de9cce 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -164,8 +164,9 @@ class GumbelCopula(AbstractArchimedeanCopula):
                 tau = np.where(tau < 0, 0, tau)
         return 1 / (1 - tau)
 
+    @property
     def lambda_(self):
-        return TailDep(0, 2 * 2 ** (1 / self.params))
+        return TailDep(0, 2 - 2 ** (1 / self.params))
 
     @property
     def params(self):
diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index 0e4784c..a1e8a2a 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -57,6 +57,7 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
     def irho(self, rho: Array):
         return np.sin(np.array(rho) * np.pi / 6) * 2
 
+    @property
     def lambda_(self):
         res = (self._rhos == 1).astype(float)
         return TailDep(res, res)
-- 
2.43.0


From fe469c7c1572179088b49e792c36ed3ef0d6fc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:00 +0000
Subject: [PATCH 35/48] fix: invalid parameters of Clayton and Student copulas
 are rejected wherever they are set

---
 copulae/archimedean/clayton.py |  1 +
 copulae/elliptical/student.py  | 12 ++++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index d854463..e88afc1 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -36,6 +36,7 @@ class ClaytonCopula(AbstractArchimedeanCopula):
         """
         super().__init__(dim, theta, 'Clayton')
         assert not (dim != 2 and theta < 0), 'Clayton Copula parameter must be >= 0 when dimension == 2'
+        assert not theta < -1, 'Clayton Copula parameter must be >= -1'
 
         self._bounds = (-1 + EPS) if dim == 2 else 0, np.inf
 
diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index 5abd84e..050cc18 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -44,6 +44,8 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
             Degrees of freedom of the copula
         """
         super().__init__(dim, 'Student')
+        if df <= 0:
+            raise ValueError('Degrees of freedom must be greater than 0')
 
         n = sum(range(dim))
         self._df = df
@@ -154,8 +156,14 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
     @params.setter
     def params(self, params: Union[np.ndarray, StudentParams]):
         if isinstance(params, StudentParams):
-            self._df = params.df
-            self._rhos = np.array(params.rho, dtype=float)
+            df, rhos = params.df, np.array(params.rho, dtype=float)
+            if rhos.shape != (sum(range(self.dim)),):
+                raise ValueError('Incompatible parameters for student copula')
+            if df <= 0:
+                raise ValueError('Degrees of freedom must be greater than 0')
+
+            self._df = df
+            self._rhos = rhos
         else:
             params = np.array(params, dtype=float)
             if len(params) != 1 + sum(range(self.dim)):
-- 
2.43.0


From 62211e803035feea8511dc2934144c5fca396392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:00 +0000
Subject: [PATCH 36/48] fix: GaussianCopula rejects a parameter vector of the
 wrong length

---
 copulae/elliptical/gaussian.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index a1e8a2a..fc391f9 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -71,7 +71,11 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
     def params(self, params: Union[float, np.ndarray, Collection[float]]):
         if isinstance(params, (float, int)):
             params = np.repeat(params, len(self._rhos))
-        self._rhos = np.array(params, dtype=float)
+        params = np.array(params, dtype=float)
+        if params.shape != (sum(range(self.dim)),):
+            raise ValueError('Incompatible parameters for gaussian copula')
+
+        self._rhos = params
 
     @validate_data_dim({"u": [1, 2]})
     @shape_first_input_to_cop_dim
-- 
2.43.0


From ea1132716e30391ee9247c5993a1722407768543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:17 +0000
Subject: [PATCH 37/48] fix: GaussianMixtureCopula rejects a parameter dict
 whose clusters or dimensions do not match

---
 copulae/mixtures/gmc/gmc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index c5330a8..594ab26 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -230,10 +230,11 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
 
     @params.setter
     def params(self, params: Optional[Union[GMCParam, np.ndarray, Collection, GMCParamDict]]):
+        if isinstance(params, dict):
+            params = GMCParam.from_dict(params)
+
         if params is None:
             self._param = None
-        elif isinstance(params, dict):
-            self._param = GMCParam.from_dict(params)
         elif isinstance(params, GMCParam):
             if params.n_dim != self.dim or params.n_clusters != self.clusters:
                 raise GMCParamMismatchError(f"Expected {self.clusters} clusters and {self.dim} dimensions "
-- 
2.43.0


From 7e9b8d33c31c4cabe3da0e322a1251ce473ed020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:17 +0000
Subject: [PATCH 38/48] fix: setting a correlation to NaN is rejected

---
 copulae/elliptical/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/elliptical/abstract.py b/copulae/elliptical/abstract.py
index b987137..ce0286c 100644
--- a/copulae/elliptical/abstract.py
+++ b/copulae/elliptical/abstract.py
@@ -81,7 +81,7 @@ class AbstractEllipticalCopula(BaseCopula[Param], ABC):
         d = self.dim
 
         if np.isscalar(value):
-            if value < -1 or value > 1:
+            if not -1 <= value <= 1:
                 raise ValueError("correlation value must be between -1 and 1")
         else:
             value = np.asarray(value, dtype=float)
-- 
2.43.0


From c1c685b08c795c4b3dad1101f6e0d37d36b9d4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:17 +0000
Subject: [PATCH 39/48] fix: elliptical copulas reject correlations outside
 their bounds

---
 copulae/elliptical/gaussian.py |  2 ++
 copulae/elliptical/student.py  | 18 ++++++++----------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index fc391f9..aa1b908 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -74,6 +74,8 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
         params = np.array(params, dtype=float)
         if params.shape != (sum(range(self.dim)),):
             raise ValueError('Incompatible parameters for gaussian copula')
+        if np.any(params < self._bounds[0]) or np.any(params > self._bounds[1]):
+            raise ValueError('correlations must be between -1 and 1')
 
         self._rhos = params
 
diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index 050cc18..d2a7679 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -159,22 +159,20 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
             df, rhos = params.df, np.array(params.rho, dtype=float)
             if rhos.shape != (sum(range(self.dim)),):
                 raise ValueError('Incompatible parameters for student copula')
-            if df <= 0:
-                raise ValueError('Degrees of freedom must be greater than 0')
-
-            self._df = df
-            self._rhos = rhos
         else:
             params = np.array(params, dtype=float)
             if len(params) != 1 + sum(range(self.dim)):
                 raise ValueError('Incompatible parameters for student copula')
 
-            df = params[0]
-            if df <= 0:
-                raise ValueError('Degrees of freedom must be greater than 0')
+            df, rhos = params[0], params[1:]
 
-            self._df = df
-            self._rhos = params[1:]
+        if df <= 0:
+            raise ValueError('Degrees of freedom must be greater than 0')
+        if np.any(rhos < self._bounds[0][1:]) or np.any(rhos > self._bounds[1][1:]):
+            raise ValueError('correlations must be between -1 and 1')
+
+        self._df = df
+        self._rhos = rhos
 
     @validate_data_dim({"u": [1, 2]})
     @shape_first_input_to_cop_dim
-- 
2.43.0


From 7983a1d0e257ac9e2a588595e130cde74471bbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:15 +0000
Subject: [PATCH 40/48] fix: GaussianMixtureCopula.fit ranks ties as asked when
 it clusters the data

---
 copulae/mixtures/gmc/gmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index 594ab26..27fd0ef 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -194,7 +194,7 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
         data = np.asarray(data)
 
         if x0 is None:
-            self._fit_smry = k_means(data, self.clusters, self.dim)
+            self._fit_smry = k_means(data, self.clusters, self.dim, ties)
             self.params = self._fit_smry.best_params
         elif isinstance(x0, GMCParam):
             self.params = x0
@@ -209,7 +209,7 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
             u = pseudo_obs(data, ties)
             self._fit_smry = gradient_descent(u, self.params, max_iter=max_iter, **(optim_options or {}))
         elif x0 is not None:  # kmeans, otherwise already fitted by default
-            self._fit_smry = k_means(data, self.clusters, self.dim)
+            self._fit_smry = k_means(data, self.clusters, self.dim, ties)
 
         self.params = self._fit_smry.best_params
         self._fit_details["method"] = method
-- 
2.43.0


From eb8ebdd4239db3910801de90ae3ccdd3af679889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:44 +0000
Subject: [PATCH 41/48] fix: ClaytonCopula.dtau names its argument x, as
 declared in CopulaCorrProtocol

---
 copulae/archimedean/clayton.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index e88afc1..1e73d74 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -66,12 +66,12 @@ class ClaytonCopula(AbstractArchimedeanCopula):
         # return self._ext.drho(x)
         raise NotImplementedError
 
-    @cast_input(['theta'], optional=True)
+    @cast_input(['x'], optional=True)
     @squeeze_output
-    def dtau(self, theta=None):
-        if theta is None:
-            theta = self._theta
-        return 2 / (theta + 2) ** 2
+    def dtau(self, x=None):
+        if x is None:
+            x = self._theta
+        return 2 / (x + 2) ** 2
 
     @cast_input(['u'])
     @squeeze_output
-- 
2.43.0


From 8f5dd9a423b1398c4180d03a6a3c30156e04ecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:13 +0000
Subject: [PATCH 42/48] fix: MarginalCopula.fit keeps its marginals when the
 copula rejects the data

---
 copulae/marginal/marginal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/marginal/marginal.py b/copulae/marginal/marginal.py
index a4135d9..827e935 100644
--- a/copulae/marginal/marginal.py
+++ b/copulae/marginal/marginal.py
@@ -110,11 +110,11 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
         elif self.dim != data.shape[1]:
             raise InputDataError('Dimension of data does not match copula')
 
-        for i, m in enumerate(self._marginals):
-            self._marginals[i] = m.dist(*m.dist.fit(data[:, i]))
+        marginals = [m.dist(*m.dist.fit(data[:, i])) for i, m in enumerate(self._marginals)]
 
         # writing it as such to get past the type-hints flags
         self._copula.fit(data, x0, method, optim_options, ties, verbose, to_pobs, scale)
+        self._marginals = marginals  # only once the copula has accepted the data
         self._fit_smry = self._copula._fit_smry
         self._columns = columns
         return self
-- 
2.43.0


From 7ac975c09e642a36da6f0b34aa1a48d6e3091da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:30 +0000
Subject: [PATCH 43/48] fix: random of the elliptical copulas returns one row
 per observation for n=1

---
 copulae/elliptical/gaussian.py | 2 +-
 copulae/elliptical/student.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index aa1b908..debaeb4 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -91,7 +91,7 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
     @cast_output
     def random(self, n: int, seed: int = None):
         r = mvn.rvs(cov=self.sigma, size=n, random_state=seed)
-        return norm.cdf(r)
+        return norm.cdf(r).reshape(-1, self.dim)  # scipy drops the first axis when n is 1
 
     @select_summary
     def summary(self, category: Literal['copula', 'fit'] = 'copula'):
diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index d2a7679..db1a0f5 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -187,7 +187,7 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
     @cast_output
     def random(self, n: int, seed: int = None):
         r = mvt.rvs(cov=self.sigma, df=self._df, size=n, random_state=seed)
-        return t.cdf(r, self._df)
+        return t.cdf(r, self._df).reshape(-1, self.dim)  # keep one row per observation when n is 1
 
     @select_summary
     def summary(self, category: Literal['copula', 'fit'] = 'copula'):
-- 
2.43.0


From d4d8f59ecfb00f0fe789bc11791670dbb0c2b21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:30 +0000
Subject: [PATCH 44/48] fix: ClaytonCopula.pdf of the independence case honours
 log=False

---
 copulae/archimedean/clayton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index 1e73d74..5718dde 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -121,7 +121,7 @@ class ClaytonCopula(AbstractArchimedeanCopula):
             return log_pdf
         elif theta == 0:
             log_pdf[ok] = 0
-            return log_pdf
+            return log_pdf if log else np.exp(log_pdf)
 
         lu = np.log(u).sum(1)
         t = self.ipsi(u).sum(1)
-- 
2.43.0


From ac748af732a0bac3689175732c86a451da142c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:30 +0000
Subject: [PATCH 45/48] fix: GaussianMixtureCopula.cdf and pdf return the log
 of the mixture for log=True

---
 copulae/mixtures/gmc/gmc.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index 27fd0ef..23b1475 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -2,6 +2,7 @@ from typing import Collection, Literal, Optional, Union
 
 import numpy as np
 import pandas as pd
+from scipy.special import logsumexp
 from scipy.stats import multivariate_normal as mvn
 
 from copulae.copula import BaseCopula
@@ -119,9 +120,12 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
         if self.params is None:
             raise GMCNotFittedError
 
+        if log:
+            return logsumexp([np.log(prob) + mvn.logcdf(x, mean, cov) for prob, mean, cov in self.params], axis=0)
+
         out = np.zeros(len(x))
         for prob, mean, cov in self.params:
-            out += prob * (mvn.logcdf(x, mean, cov) if log else mvn.cdf(x, mean, cov))
+            out += prob * mvn.cdf(x, mean, cov)
 
         return out
 
@@ -271,9 +275,12 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
         if self.params is None:
             raise GMCNotFittedError
 
+        if log:
+            return logsumexp([np.log(prob) + mvn.logpdf(u, mean, cov) for prob, mean, cov in self.params], axis=0)
+
         out = np.zeros(len(u))
         for prob, mean, cov in self.params:
-            out += prob * (mvn.logpdf(u, mean, cov) if log else mvn.pdf(u, mean, cov))
+            out += prob * mvn.pdf(u, mean, cov)
 
         return out
 
-- 
2.43.0


From 6dbc2bf0132e5c9d7c5259fa87060de46ec39fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:30 +0000
Subject: [PATCH 46/48] fix: the mixture fit summary reports the likelihood of
 the parameters it returns

---
 copulae/mixtures/gmc/estimators/em.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/copulae/mixtures/gmc/estimators/em.py b/copulae/mixtures/gmc/estimators/em.py
index a422980..4a0c6f5 100644
--- a/copulae/mixtures/gmc/estimators/em.py
+++ b/copulae/mixtures/gmc/estimators/em.py
@@ -126,10 +126,7 @@ class LogLik:
 
     @property
     def best_param(self):
-        if self.criteria in ('GMCM', 'LI'):
-            return self.params[int(np.argmax(self._gmcm))]
-        else:
-            return self.params[-1]
+        return self.params[self._best]
 
     def set(self, *, gmm: float = None, gmcm: float = None, param: GMCParam = None):
         self.count += 1
@@ -153,4 +150,8 @@ class LogLik:
 
     @property
     def best_log_lik(self):
-        return self._gmcm[-1]
+        return self._gmcm[self._best]
+
+    @property
+    def _best(self):
+        return int(np.argmax(self._gmcm)) if self.criteria in ('GMCM', 'LI') else -1
-- 
2.43.0


From 088a1e7a63ba4d04af3be1e0631c543312f66f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:01 +0000
Subject: [PATCH 47/48] fix: FrankCopula.dtau and drho are the derivatives of
 tau and rho

---
 copulae/archimedean/frank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index fdb0342..1c0f738 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -64,14 +64,14 @@ class FrankCopula(AbstractArchimedeanCopula):
     def drho(self, x=None):  # pragma: no cover
         if x is None:
             x = self.params
-        return 12 * (x / np.expm1(x) - 3 * debye1(x) + 2 * debye1(x)) / x ** 2
+        return 12 * (x / np.expm1(x) - 3 * debye2(x) + 2 * debye1(x)) / x ** 2
 
     @cast_input(['x'], optional=True)
     @squeeze_output
     def dtau(self, x=None):  # pragma: no cover
         if x is None:
             x = self.params
-        return (x / np.expm1(x) + 1 - debye1(x) / x) * (2 / x) ** 2
+        return (x / np.expm1(x) + 1 - 2 * debye1(x)) * (2 / x) ** 2
 
     @cast_input(['u'], optional=True)
     @squeeze_output
-- 
2.43.0


From 45118de64033026778f91787e2aa166beaeff410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:01 +0000
Subject: [PATCH 48/48] fix: StudentCopula.lambda_ divides by 1 + rho

---
 copulae/elliptical/student.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index db1a0f5..3c1b2ae 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -131,7 +131,7 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
         if np.isinf(df):
             res = (self._rhos == 1).astype(float)
         else:
-            res = 2 * t.cdf(- np.sqrt((df + 1) * (1 - rho)), df=df + 1)
+            res = 2 * t.cdf(- np.sqrt((df + 1) * (1 - rho) / (1 + rho)), df=df + 1)
 
         return TailDep(res, res)
 
-- 
2.43.0

