From 5220ac31418d0c80c34d5760b63f0d9b9fc9897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 01/34] fix: random_assignment draws a single label and never
 leaves the structure

size=None (the default) raised AxisError, and a uniform above a cumulative sum
that rounds below one gave a label equal to the number of weights.
---
 pyrichlet/weight_models/_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index 9ce64d7..9a63fba 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -152,10 +152,12 @@ class BaseWeight(ABC):
         """Returns a sample draw of the categorical assignment from the current
         state normalized weighting structure"""
         u = self._rng.uniform(size=size)
+        # The last cumulative weight is one up to rounding, it is left out so
+        # that no assignment falls outside the structure
         inverse_sampling = np.greater.outer(
-            u, self.get_normalized_cumulative_weights()
+            u, self.get_normalized_cumulative_weights()[:-1]
         )
-        return np.sum(inverse_sampling, axis=1)
+        return np.sum(inverse_sampling, axis=-1)
 
     def fit_variational(self, variational_d):
         """Fits the variational distribution q
-- 
2.43.0


From 87aed90862d06e3aa0d7ed571e3271ea8c6b8c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 02/34] fix: completing an empty beta-Bernoulli structure to
 one weight

complete(1) on a structure without weights raised IndexError, also when no new
stick length was needed, and change indicators of discarded sticks were kept.
---
 pyrichlet/weight_models/_beta_bernoulli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index 9e4255c..6b87907 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -70,6 +70,7 @@ class BetaBernoulli(BaseWeight):
         if len(self.v) < size:
             if len(self.v) == 0:
                 self.v = self._rng.beta(a=1, b=self.alpha, size=1)
+                self.bernoullis = np.array([1], dtype=int)
             mask_change = self._rng.binomial(n=1,
                                              p=self.p,
                                              size=size - len(self.v))
@@ -77,7 +78,8 @@ class BetaBernoulli(BaseWeight):
             mask_change = np.cumsum(mask_change)
             temp_v = np.concatenate((
                 [self.v[-1]],
-                self._rng.beta(a=1, b=self.alpha, size=mask_change[-1])))
+                self._rng.beta(a=1, b=self.alpha, size=mask_change.max(
+                    initial=0))))
             self.v = np.concatenate((self.v, temp_v[mask_change]))
             self.w = self.v * np.cumprod(np.concatenate(([1],
                                                          1 - self.v[:-1])))
-- 
2.43.0


From 30087a4092ec14652bce8e8fb561fa9713d0ce9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 03/34] fix: FrequencyWeighting never exposes raw counts as
 weights

The counts were stored in w before being normalised, a failure in between left
them there.
---
 pyrichlet/weight_models/_frequency.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index 05265fd..a2a6013 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -16,8 +16,7 @@ class FrequencyWeighting(BaseWeight):
         if len(self.d) == 0:
             self.w = np.repeat(1 / self.n, self.n)
         else:
-            self.w = np.bincount(self.d)
-            self.w = self.w / self.w.sum()
+            self.w = np.bincount(self.d) / len(self.d)
         return self.w
 
     def complete(self, size):
-- 
2.43.0


From 2d04db541fcfacdd2bd8692ec57e529e7fffc858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 04/34] fix: BetaInBeta draws p when a new structure starts,
 not when it grows

The misplaced parenthesis redrew p each time an existing structure was extended
and never for an empty one, so that the first weights used the initial p.
---
 pyrichlet/weight_models/_beta_in_beta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index a685a1a..40fb180 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -74,7 +74,7 @@ class BetaInBeta(BaseWeight):
 
     def complete(self, size):
         super().complete(size)
-        if len(self.v == 0):
+        if len(self.v) == 0:
             self.random_p()
         if len(self.v) < size:
             if self.x < 1:
-- 
2.43.0


From b131823561f67cee74e51bc2e9d680b9565a179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 05/34] fix: geometric tail reaches the requested mass

The number of weights was rounded down, so the returned sum was below x.
---
 pyrichlet/weight_models/_geometric_process.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 66852a5..ada81be 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -40,9 +40,9 @@ class GeometricProcess(BaseWeight):
     def tail(self, x):
         if x >= 1 or x < 0:
             raise ValueError("Tail parameter not in range [0,1)")
-        size = int(np.log(1 - x) / np.log(1 - self.p))
-        self.complete(size)
-        return self.w
+        size = int(np.ceil(np.log(1 - x) / np.log(1 - self.p)))
+        self.complete(max(size, 1))
+        return super().tail(x)
 
     def fit_variational(self, variational_d):
         self.variational_d = variational_d
-- 
2.43.0


From 5de6b69fa7726c46abfae32ce40b26905dbb6393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 06/34] fix: tail returns when only rounding separates the sum
 from x

For x close to one the loop never ended: the weights of finite structures add
up to one only up to rounding, and those of infinite ones stop growing.
---
 pyrichlet/weight_models/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index 9a63fba..c1e94de 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -115,7 +115,9 @@ class BaseWeight(ABC):
             raise ValueError("Tail parameter not in range [0,1)")
         if len(self.w) == 0:
             self.random(1)
-        while self.w.sum() < x:
+        # Weights that add up to one may sum to less because of rounding
+        eps = np.finfo(np.float64).eps
+        while self.w.sum() < x - len(self.w) * eps:
             self.complete(len(self.w) + 1)
         return self.w
 
-- 
2.43.0


From 16223d36a2f069b55776e7b3ec0fc38d5a8bc297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 07/34] fix: BetaInDirichlet honours size, returns the weights
 and restarts clean

random(size) on a fitted structure ignored size, complete returned None, and a
draw from the prior kept the inner assignations of the previous structure.
---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 2c92567..e0ad9d0 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -33,6 +33,7 @@ class BetaInDirichlet(BaseWeight):
         self.v = self.v[:0]
         self._v_base = self._v_base[:0]
         if len(self.d) == 0:
+            self._d_base = self._d_base[:0]
             self.complete(size)
             return self.w
         n = max(self.d) + 1
@@ -99,6 +100,8 @@ class BetaInDirichlet(BaseWeight):
         self.v = self._v_base[self._d_base]
         self.w = self.v * np.cumprod(np.concatenate(([1],
                                                      1 - self.v[:-1])))
+        if size is not None:
+            self.complete(size)
         return self.w
 
     def complete(self, size):
@@ -120,3 +123,4 @@ class BetaInDirichlet(BaseWeight):
             self._d_base = np.append(self._d_base, jj)
         self.w = self.v * np.cumprod(np.concatenate(([1],
                                                      1 - self.v[:-1])))
+        return self.w
-- 
2.43.0


From ce621e0826ab3cd78e4751309df7d98cd1402dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 08/34] fix: BetaInDirichlet updates its inner assignations
 from their conditional law

---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 34 +++++++++----------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index e0ad9d0..b509e2c 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -1,5 +1,5 @@
 import numpy as np
-from scipy.special import loggamma
+from scipy.special import loggamma, xlogy, xlog1py
 
 from ._base import BaseWeight
 from ..mixture_models._utils import gumbel_max_sampling
@@ -63,15 +63,16 @@ class BetaInDirichlet(BaseWeight):
                     self._d_base = np.append(self._d_base, 0)
                 continue
             d_base_reduced = np.delete(self._d_base, j)
-            k = np.max(d_base_reduced)
+            k = np.max(d_base_reduced, initial=-1)
             log_prob = []
-            new_base = False
+            new_base = None
             for dd in range(k + 2):
                 base_count = sum(d_base_reduced == dd)
-                if base_count == 0 and not new_base:
-                    new_base = True
+                if base_count == 0 and new_base is None:
+                    new_base = dd
                     temp_log_prob = (
-                            np.log(self.a) + loggamma(1 + a_c[j])
+                            np.log(self.a) + np.log(self.alpha)
+                            + loggamma(1 + a_c[j])
                             + loggamma(self.alpha + b_c[j])
                             - loggamma(1 + self.alpha + a_c[j] + b_c[j]))
                     log_prob.append(temp_log_prob)
@@ -82,19 +83,18 @@ class BetaInDirichlet(BaseWeight):
                     continue
                 temp_log_prob = (
                         np.log(base_count)
-                        + a_c[j] * np.log(self._v_base[dd])
-                        + b_c[j] * np.log(1 - self._v_base[dd]))
+                        + xlogy(a_c[j], self._v_base[dd])
+                        + xlog1py(b_c[j], -self._v_base[dd]))
                 log_prob.append(temp_log_prob)
             log_prob = np.array(log_prob)
-            if j < len(self._d_base):
-                self._d_base[j] = gumbel_max_sampling(log_prob, rng=self._rng)
-            else:
-                self._d_base = np.append(self._d_base,
-                                         gumbel_max_sampling(log_prob,
-                                                             rng=self._rng))
-            if max(self._d_base) <= len(self._v_base):
-                self._v_base = np.concatenate((
-                    self._v_base, [self._rng.beta(a=1, b=self.alpha)]))
+            self._d_base[j] = gumbel_max_sampling(log_prob, rng=self._rng)
+            if self._d_base[j] == new_base:
+                new_v_base = self._rng.beta(a=1 + a_c[j],
+                                            b=self.alpha + b_c[j])
+                if new_base < len(self._v_base):
+                    self._v_base[new_base] = new_v_base
+                else:
+                    self._v_base = np.append(self._v_base, new_v_base)
         self._count_base = [
             np.sum(self._d_base == j) for j in range(len(self._v_base))]
         self.v = self._v_base[self._d_base]
-- 
2.43.0


From 5adbb0adfb136a5f5c7ce059aace738f1947c617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 09/34] fix: a failed draw or extension cannot leave sticks and
 weights apart

complete() compares its target with the sticks and tail() with the weights, so
after a call that failed between the two updates tail() never returned.
---
 pyrichlet/weight_models/_base.py              |  9 ++++++
 pyrichlet/weight_models/_beta_bernoulli.py    | 30 ++++++++-----------
 pyrichlet/weight_models/_beta_in_beta.py      | 11 +++----
 pyrichlet/weight_models/_dirichlet_process.py | 10 ++-----
 pyrichlet/weight_models/_geometric_process.py |  4 +--
 .../weight_models/_pitman_yor_process.py      | 21 +++++--------
 6 files changed, 38 insertions(+), 47 deletions(-)

diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index c1e94de..4d43bc4 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -121,6 +121,15 @@ class BaseWeight(ABC):
             self.complete(len(self.w) + 1)
         return self.w
 
+    def _set_sticks(self, v):
+        """Set the stick-breaking variables and the weights they define
+
+        Both are replaced together, so that they never disagree when a draw
+        fails or is interrupted.
+        """
+        w = v * np.cumprod(np.concatenate(([1], 1 - v[:-1])))
+        self.v, self.w = v, w
+
     def assignation_log_likelihood(self, d=None):
         """Returns the log-likelihood of an assignment `d` given the weights"""
         if d is None:
diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index 6b87907..224a1ce 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -44,10 +44,8 @@ class BetaBernoulli(BaseWeight):
             self._random_bernoullis(size)
             mask_change = self.bernoullis
             mask_change = np.cumsum(mask_change)
-            self.v = self._rng.beta(a=1, b=self.alpha, size=mask_change[-1] + 1)
-            self.v = self.v[mask_change]
-            self.w = self.v * np.cumprod(np.concatenate(([1],
-                                                         1 - self.v[:-1])))
+            v = self._rng.beta(a=1, b=self.alpha, size=mask_change[-1] + 1)
+            self._set_sticks(v[mask_change])
         else:
             self._random_bernoullis(self.d.max() + 1)
             mask_change = self.bernoullis
@@ -58,31 +56,29 @@ class BetaBernoulli(BaseWeight):
             a_c = np.bincount(mask_change, a_c)
             b_c = np.bincount(mask_change, b_c)
 
-            self.v = self._rng.beta(a=1 + a_c, b=self.alpha + b_c)
-            self.v = self.v[mask_change]
-            self.w = self.v * np.cumprod(np.concatenate(([1],
-                                                         1 - self.v[:-1])))
+            v = self._rng.beta(a=1 + a_c, b=self.alpha + b_c)
+            self._set_sticks(v[mask_change])
             self.complete(size)
         return self.w
 
     def complete(self, size):
         super().complete(size)
         if len(self.v) < size:
-            if len(self.v) == 0:
-                self.v = self._rng.beta(a=1, b=self.alpha, size=1)
-                self.bernoullis = np.array([1], dtype=int)
+            v, bernoullis = self.v, self.bernoullis[:len(self.v)]
+            if len(v) == 0:
+                v = self._rng.beta(a=1, b=self.alpha, size=1)
+                bernoullis = np.array([1], dtype=int)
             mask_change = self._rng.binomial(n=1,
                                              p=self.p,
-                                             size=size - len(self.v))
-            self.bernoullis = np.concatenate((self.bernoullis, mask_change))
+                                             size=size - len(v))
+            bernoullis = np.concatenate((bernoullis, mask_change))
             mask_change = np.cumsum(mask_change)
             temp_v = np.concatenate((
-                [self.v[-1]],
+                [v[-1]],
                 self._rng.beta(a=1, b=self.alpha, size=mask_change.max(
                     initial=0))))
-            self.v = np.concatenate((self.v, temp_v[mask_change]))
-            self.w = self.v * np.cumprod(np.concatenate(([1],
-                                                         1 - self.v[:-1])))
+            self.bernoullis = bernoullis
+            self._set_sticks(np.concatenate((v, temp_v[mask_change])))
         return self.w
 
     def _random_bernoullis(self, size):
diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index 40fb180..83844cb 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -60,14 +60,13 @@ class BetaInBeta(BaseWeight):
                 pass
 
             if self.x < 1:
-                self.v = self._rng.beta(
+                v = self._rng.beta(
                     a=1 + self.x / (1 - self.x) * self.p + a_c,
                     b=self.alpha + self.x / (1 - self.x) * (1 - self.p) + b_c
                 )
             else:
-                self.v = np.repeat(self.p, size)
-            self.w = self.v * np.cumprod(np.concatenate(([1],
-                                                         1 - self.v[:-1])))
+                v = np.repeat(self.p, size)
+            self._set_sticks(v)
             if size is not None:
                 self.complete(size)
         return self.w
@@ -85,9 +84,7 @@ class BetaInBeta(BaseWeight):
                 )
             else:
                 concat_value = np.repeat(self.p, size - len(self.v))
-            self.v = np.append(self.v, concat_value)
-            self.w = self.v * np.cumprod(np.concatenate(([1],
-                                                         1 - self.v[:-1])))
+            self._set_sticks(np.append(self.v, concat_value))
         return self.w
 
     def random_p(self):
diff --git a/pyrichlet/weight_models/_dirichlet_process.py b/pyrichlet/weight_models/_dirichlet_process.py
index c493052..6cded7b 100644
--- a/pyrichlet/weight_models/_dirichlet_process.py
+++ b/pyrichlet/weight_models/_dirichlet_process.py
@@ -39,9 +39,7 @@ class DirichletProcess(BaseWeight):
                 a_c = a_c[:size]
                 b_c = b_c[:size]
 
-            self.v = self._rng.beta(a=1 + a_c, b=self.alpha + b_c)
-            self.w = self.v * np.cumprod(np.concatenate(([1],
-                                                         1 - self.v[:-1])))
+            self._set_sticks(self._rng.beta(a=1 + a_c, b=self.alpha + b_c))
             if size is not None:
                 self.complete(size)
         return self.w
@@ -49,11 +47,9 @@ class DirichletProcess(BaseWeight):
     def complete(self, size):
         super().complete(size)
         if len(self.v) < size:
-            self.v = np.concatenate(
+            self._set_sticks(np.concatenate(
                 (self.v,
-                 self._rng.beta(a=1, b=self.alpha, size=size - len(self.v))))
-            self.w = self.v * np.cumprod(np.concatenate(([1],
-                                                         1 - self.v[:-1])))
+                 self._rng.beta(a=1, b=self.alpha, size=size - len(self.v)))))
         return self.w
 
     def fit_variational(self, variational_d):
diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index ada81be..560d997 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -32,9 +32,7 @@ class GeometricProcess(BaseWeight):
     def complete(self, size):
         super().complete(size)
         if len(self.v) < size:
-            self.v = np.repeat(self.p, size)
-            self.w = self.v * np.cumprod(np.concatenate(([1],
-                                                         1 - self.v[:-1])))
+            self._set_sticks(np.repeat(self.p, size))
         return self.w
 
     def tail(self, x):
diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 718211b..db70134 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -31,11 +31,10 @@ class PitmanYorProcess(BaseWeight):
             raise ValueError("Weight structure not fitted and `n` not passed.")
         if len(self.d) == 0:
             pitman_yor_bias = np.arange(size)
-            self.v = self._rng.beta(a=1 - self.pyd,
-                                    b=self.alpha + pitman_yor_bias * self.pyd,
-                                    size=size)
-            self.w = self.v * np.cumprod(np.concatenate(([1],
-                                                         1 - self.v[:-1])))
+            self._set_sticks(
+                self._rng.beta(a=1 - self.pyd,
+                               b=self.alpha + pitman_yor_bias * self.pyd,
+                               size=size))
         else:
             a_c = np.bincount(self.d)
             b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))
@@ -45,12 +44,10 @@ class PitmanYorProcess(BaseWeight):
                 b_c = b_c[:size]
 
             pitman_yor_bias = np.arange(len(a_c))
-            self.v = self._rng.beta(
+            self._set_sticks(self._rng.beta(
                 a=1 - self.pyd + a_c,
                 b=self.alpha + pitman_yor_bias * self.pyd + b_c
-            )
-            self.w = self.v * np.cumprod(np.concatenate(([1],
-                                                         1 - self.v[:-1])))
+            ))
             if size is not None:
                 self.complete(size)
         return self.w
@@ -59,15 +56,13 @@ class PitmanYorProcess(BaseWeight):
         super().complete(size)
         if self.get_size() < size:
             pitman_yor_bias = np.arange(self.get_size(), size)
-            self.v = np.concatenate(
+            self._set_sticks(np.concatenate(
                 (
                     self.v,
                     self._rng.beta(a=1 - self.pyd,
                                    b=self.alpha + pitman_yor_bias * self.pyd)
                 )
-            )
-            self.w = self.v * np.cumprod(np.concatenate(([1],
-                                                         1 - self.v[:-1])))
+            ))
         return self.w
 
     def fit_variational(self, variational_d):
-- 
2.43.0


From 8749610e24f4452997fad1195c4bcc8ddfb9699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 10/34] fix: Pitman-Yor sticks are Beta(1 - d, alpha + j d)
 with j counted from one

---
 pyrichlet/weight_models/_pitman_yor_process.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index db70134..9f3419e 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -17,12 +17,12 @@ class PitmanYorProcess(BaseWeight):
 
     def weighting_log_likelihood(self):
         v = self.w[0]
-        ret = log_likelihood_beta(v, 1 - self.pyd, self.alpha)
+        ret = log_likelihood_beta(v, 1 - self.pyd, self.alpha + self.pyd)
         prod_v = 1 - v
         for j in range(1, len(self.w)):
             v = self.w[j] / prod_v
             ret += log_likelihood_beta(v, 1 - self.pyd,
-                                       self.alpha + j * self.pyd)
+                                       self.alpha + (j + 1) * self.pyd)
             prod_v *= (1 - v)
         return ret
 
@@ -30,7 +30,7 @@ class PitmanYorProcess(BaseWeight):
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
         if len(self.d) == 0:
-            pitman_yor_bias = np.arange(size)
+            pitman_yor_bias = np.arange(1, size + 1)
             self._set_sticks(
                 self._rng.beta(a=1 - self.pyd,
                                b=self.alpha + pitman_yor_bias * self.pyd,
@@ -43,7 +43,7 @@ class PitmanYorProcess(BaseWeight):
                 a_c = a_c[:size]
                 b_c = b_c[:size]
 
-            pitman_yor_bias = np.arange(len(a_c))
+            pitman_yor_bias = np.arange(1, len(a_c) + 1)
             self._set_sticks(self._rng.beta(
                 a=1 - self.pyd + a_c,
                 b=self.alpha + pitman_yor_bias * self.pyd + b_c
@@ -55,7 +55,7 @@ class PitmanYorProcess(BaseWeight):
     def complete(self, size):
         super().complete(size)
         if self.get_size() < size:
-            pitman_yor_bias = np.arange(self.get_size(), size)
+            pitman_yor_bias = np.arange(self.get_size() + 1, size + 1)
             self._set_sticks(np.concatenate(
                 (
                     self.v,
-- 
2.43.0


From 9e5dea27333c25f0554fbaa0f15cd7108a55740b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 11/34] fix: BetaBernoulli change points follow their law given
 the assignments

and extensions of BetaInDirichlet, BetaBinomial keep sticks, auxiliary
variables and weights together when a call fails
---
 pyrichlet/weight_models/_beta_bernoulli.py    | 52 ++++++------
 pyrichlet/weight_models/_beta_binomial.py     | 33 ++++----
 pyrichlet/weight_models/_beta_in_dirichlet.py | 84 +++++++++----------
 3 files changed, 79 insertions(+), 90 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index 224a1ce..50bce05 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -1,6 +1,6 @@
 from ._base import BaseWeight
 import numpy as np
-from scipy.special import beta as betaf
+from scipy.special import betaln, expit
 
 from ..utils.functions import log_likelihood_beta
 
@@ -83,36 +83,32 @@ class BetaBernoulli(BaseWeight):
 
     def _random_bernoullis(self, size):
         bernoullis = self._rng.binomial(n=1, p=self.p, size=size)
-        self.bernoullis[0] = 1
         if len(self.d) > 0:
-            size_fit = self.d.max()
             a_c = np.bincount(self.d)
             b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))
+            # The changes given the assignments are updated one at a time,
+            # starting from those of the last draw
+            last = min(size, len(self.bernoullis))
+            bernoullis[:last] = self.bernoullis[:last]
+            for j in range(1, size if 0 < self.p < 1 else 0):
+                # Sticks sharing a value with stick j - 1 or with stick j
+                # when there is a change at j
+                start = j - 1
+                while start > 0 and bernoullis[start] == 0:
+                    start -= 1
+                end = j + 1
+                while end < size and bernoullis[end] == 0:
+                    end += 1
+                log_odds = np.log(self.p) - np.log1p(-self.p)
+                log_odds += self._log_marginal(a_c[start:j], b_c[start:j])
+                log_odds += self._log_marginal(a_c[j:end], b_c[j:end])
+                log_odds -= self._log_marginal(a_c[start:end], b_c[start:end])
+                bernoullis[j] = self._rng.binomial(n=1, p=expit(log_odds))
             bernoullis[0] = 0
-            for j in range(1, size_fit):
-                a_j_prime, b_j_prime, g_plus = 0, 0, 1
-                k = j + 1
-                for b in bernoullis[j + 1:]:
-                    if b == 1:
-                        break
-                    a_j_prime += a_c[k]
-                    b_j_prime += b_c[k]
-                    k += 1
-                    g_plus = betaf(a_j_prime, b_j_prime) * self.alpha
-                a_j_prime += a_c[j]
-                b_j_prime += b_c[j]
-                k = j - 1
-                for b in bernoullis[:j][::-1]:
-                    if b == 1:
-                        break
-                    a_j_prime += a_c[k]
-                    b_j_prime += b_c[k]
-                    k -= 1
-                g_minus = betaf(a_j_prime, b_j_prime) * self.alpha
-                p = self.p
-                p_times_plus = p * g_plus if p > 0 else 0
-                not_p_times_minus = (1 - p) * g_minus if p < 1 else 0
-                p = p_times_plus / (p_times_plus + not_p_times_minus)
-                bernoullis[j] = self._rng.binomial(n=1, p=p)
         self.bernoullis = bernoullis
         return self.bernoullis
+
+    def _log_marginal(self, a, b):
+        """Log-probability of the assignments among sticks sharing a value"""
+        return (np.log(self.alpha)
+                + betaln(1 + a.sum(), self.alpha + b.sum()))
diff --git a/pyrichlet/weight_models/_beta_binomial.py b/pyrichlet/weight_models/_beta_binomial.py
index 4601f7d..5b251a4 100644
--- a/pyrichlet/weight_models/_beta_binomial.py
+++ b/pyrichlet/weight_models/_beta_binomial.py
@@ -44,31 +44,30 @@ class BetaBinomial(BaseWeight):
             beta_phased = self.binomials[:-1] + self.binomials[1:]
             a = 1 + a_c + beta_phased
             b = self.alpha + b_c + 2 * self.n - beta_phased
-            self.v = self._rng.beta(a=a, b=b)
-            self.w = self.v * np.cumprod(np.concatenate(([1],
-                                                         1 - self.v[:-1])))
+            self._set_sticks(self._rng.beta(a=a, b=b))
             if size is not None:
                 self.complete(size)
         return self.w
 
     def complete(self, size):
         super().complete(size)
-        if len(self.v) == 0:
+        v, binomials = self.v, self.binomials
+        if len(v) == 0:
             v0 = self._rng.beta(1, self.alpha)
-            self.binomials = self._rng.binomial(self.n, v0, size=1)
-            self.v = self._rng.beta(1 + self.binomials[-1],
-                                    self.alpha + self.n - self.binomials[-1],
-                                    size=1)
-        while len(self.v) < size:
-            self.binomials = np.append(self.binomials,
-                                       self._rng.binomial(self.n, self.v[-1]))
-            self.v = np.append(
-                self.v, self._rng.beta(
-                    1 + self.binomials[-1],
-                    self.alpha + self.n - self.binomials[-1])
+            binomials = self._rng.binomial(self.n, v0, size=1)
+            v = self._rng.beta(1 + binomials[-1],
+                               self.alpha + self.n - binomials[-1],
+                               size=1)
+        while len(v) < size:
+            binomials = np.append(binomials,
+                                  self._rng.binomial(self.n, v[-1]))
+            v = np.append(
+                v, self._rng.beta(
+                    1 + binomials[-1],
+                    self.alpha + self.n - binomials[-1])
             )
-        self.w = self.v * np.cumprod(np.concatenate(([1],
-                                                     1 - self.v[:-1])))
+        self.binomials = binomials
+        self._set_sticks(v)
         return self.w
 
     def _random_binomials(self):
diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index b509e2c..6ef5f61 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -14,7 +14,6 @@ class BetaInDirichlet(BaseWeight):
         self.v = np.array([], dtype=np.float64)
         self._v_base = np.array([], dtype=np.float64)
         self._d_base = np.array([], dtype=np.int64)
-        self._count_base = []
 
     def weighting_log_likelihood(self):
         v_unique, v_counts = np.unique(self.v, return_counts=True)
@@ -30,39 +29,35 @@ class BetaInDirichlet(BaseWeight):
         if size is not None:
             if type(size) is not int:
                 raise TypeError("size parameter must be integer or None")
-        self.v = self.v[:0]
-        self._v_base = self._v_base[:0]
         if len(self.d) == 0:
+            self.v = self.v[:0]
+            self._v_base = self._v_base[:0]
             self._d_base = self._d_base[:0]
             self.complete(size)
             return self.w
         n = max(self.d) + 1
-        if len(self._d_base) < n:
-            self._d_base = np.concatenate(
-                [self._d_base, [0] * (n - len(self._d_base))])
-        elif len(self._d_base) > n:
-            self._d_base = self._d_base[:n]
-        k = max(self._d_base) + 1
+        d_base = self._d_base[:n]
+        if len(d_base) < n:
+            d_base = np.append(d_base, np.zeros(n - len(d_base), dtype=int))
+        else:
+            d_base = d_base.copy()
+        k = max(d_base) + 1
         v_base = np.empty(k, dtype=np.float64)
         a_c = np.bincount(self.d)
         b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))
         # Update inner weights given the inner assignations
         for jj in range(k):
-            a_c_base = np.sum(a_c[self._d_base == jj])
-            b_c_base = np.sum(b_c[self._d_base == jj])
+            a_c_base = np.sum(a_c[d_base == jj])
+            b_c_base = np.sum(b_c[d_base == jj])
             v_base[jj] = self._rng.beta(a=1 + a_c_base,
                                         b=self.alpha + b_c_base)
-        self._v_base = v_base
         # Update the inner assignations given inner weights and other
         # assignations. It is, update inner d_jj given d_{-jj}, inner v.
         for j in range(n):
             if self.a == 0:
-                if j < len(self._d_base):
-                    self._d_base[j] = 0
-                else:
-                    self._d_base = np.append(self._d_base, 0)
+                d_base[j] = 0
                 continue
-            d_base_reduced = np.delete(self._d_base, j)
+            d_base_reduced = np.delete(d_base, j)
             k = np.max(d_base_reduced, initial=-1)
             log_prob = []
             new_base = None
@@ -83,44 +78,43 @@ class BetaInDirichlet(BaseWeight):
                     continue
                 temp_log_prob = (
                         np.log(base_count)
-                        + xlogy(a_c[j], self._v_base[dd])
-                        + xlog1py(b_c[j], -self._v_base[dd]))
+                        + xlogy(a_c[j], v_base[dd])
+                        + xlog1py(b_c[j], -v_base[dd]))
                 log_prob.append(temp_log_prob)
             log_prob = np.array(log_prob)
-            self._d_base[j] = gumbel_max_sampling(log_prob, rng=self._rng)
-            if self._d_base[j] == new_base:
+            d_base[j] = gumbel_max_sampling(log_prob, rng=self._rng)
+            if d_base[j] == new_base:
                 new_v_base = self._rng.beta(a=1 + a_c[j],
                                             b=self.alpha + b_c[j])
-                if new_base < len(self._v_base):
-                    self._v_base[new_base] = new_v_base
+                if new_base < len(v_base):
+                    v_base[new_base] = new_v_base
                 else:
-                    self._v_base = np.append(self._v_base, new_v_base)
-        self._count_base = [
-            np.sum(self._d_base == j) for j in range(len(self._v_base))]
-        self.v = self._v_base[self._d_base]
-        self.w = self.v * np.cumprod(np.concatenate(([1],
-                                                     1 - self.v[:-1])))
+                    v_base = np.append(v_base, new_v_base)
+        self._set_inner(v_base, d_base)
         if size is not None:
             self.complete(size)
         return self.w
 
     def complete(self, size):
-        if len(self._v_base) == 0:
-            self._v_base = self._rng.beta(1, self.alpha, size=1)
-            self._count_base = [1]
-        while len(self.v) < size:
-            p = np.array(self._count_base + [self.a], dtype=np.float64)
+        v_base, d_base = self._v_base, self._d_base[:len(self.v)]
+        if len(d_base) == 0 and size > 0:
+            v_base = self._rng.beta(1, self.alpha, size=1)
+            d_base = np.array([0], dtype=np.int64)
+        count_base = [np.sum(d_base == j) for j in range(len(v_base))]
+        while len(d_base) < size:
+            p = np.array(count_base + [self.a], dtype=np.float64)
             p /= p.sum()
-            jj = self._rng.choice(range(len(self._v_base) + 1), p=p)
-            if jj < len(self._v_base):
-                self.v = np.append(self.v, self._v_base[jj])
-                self._count_base[jj] += 1
+            jj = self._rng.choice(range(len(v_base) + 1), p=p)
+            if jj < len(v_base):
+                count_base[jj] += 1
             else:
-                new_v_base = self._rng.beta(1, self.alpha)
-                self._v_base = np.append(self._v_base, new_v_base)
-                self._count_base += [1]
-                self.v = np.append(self.v, new_v_base)
-            self._d_base = np.append(self._d_base, jj)
-        self.w = self.v * np.cumprod(np.concatenate(([1],
-                                                     1 - self.v[:-1])))
+                v_base = np.append(v_base, self._rng.beta(1, self.alpha))
+                count_base += [1]
+            d_base = np.append(d_base, jj)
+        self._set_inner(v_base, d_base)
         return self.w
+
+    def _set_inner(self, v_base, d_base):
+        """Set the inner weights, the inner assignations and the weights"""
+        self._v_base, self._d_base = v_base, d_base
+        self._set_sticks(v_base[d_base])
-- 
2.43.0


From 671fd191980fc522b5c5a5dad030473fdbf9c6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 12/34] fix: weights grown after fit follow the posterior from
 the first one on

---
 pyrichlet/weight_models/_base.py               | 10 ++++++++++
 pyrichlet/weight_models/_beta_in_beta.py       |  6 +++---
 pyrichlet/weight_models/_dirichlet_process.py  |  4 ++--
 pyrichlet/weight_models/_geometric_process.py  |  3 +--
 pyrichlet/weight_models/_pitman_yor_process.py |  7 +++++--
 5 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index 4d43bc4..be73d84 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -65,6 +65,9 @@ class BaseWeight(ABC):
         """
         if size is not None and type(size) not in (int, np.int64):
             raise TypeError("size parameter must be integer or None")
+        if len(self.w) == 0 and len(self.d) > 0:
+            # Nothing to append to, start with a draw from the posterior
+            self.random()
 
     def weighting_log_likelihood(self):
         """Return the given structure log-likelihood
@@ -121,6 +124,13 @@ class BaseWeight(ABC):
             self.complete(len(self.w) + 1)
         return self.w
 
+    def _count_assignments(self, start, stop):
+        """Count the assignments to every group in `[start, stop)` and to the
+        groups after each of them"""
+        a_c = np.bincount(self.d, minlength=stop)
+        b_c = len(self.d) - np.cumsum(a_c)
+        return a_c[start:stop], b_c[start:stop]
+
     def _set_sticks(self, v):
         """Set the stick-breaking variables and the weights they define
 
diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index 83844cb..11048a9 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -77,10 +77,10 @@ class BetaInBeta(BaseWeight):
             self.random_p()
         if len(self.v) < size:
             if self.x < 1:
+                a_c, b_c = self._count_assignments(len(self.v), size)
                 concat_value = self._rng.beta(
-                    a=1 + self.x / (1 - self.x) * self.p,
-                    b=self.alpha + self.x / (1 - self.x) * (1 - self.p),
-                    size=size - len(self.v)
+                    a=1 + self.x / (1 - self.x) * self.p + a_c,
+                    b=self.alpha + self.x / (1 - self.x) * (1 - self.p) + b_c
                 )
             else:
                 concat_value = np.repeat(self.p, size - len(self.v))
diff --git a/pyrichlet/weight_models/_dirichlet_process.py b/pyrichlet/weight_models/_dirichlet_process.py
index 6cded7b..00b3508 100644
--- a/pyrichlet/weight_models/_dirichlet_process.py
+++ b/pyrichlet/weight_models/_dirichlet_process.py
@@ -47,9 +47,9 @@ class DirichletProcess(BaseWeight):
     def complete(self, size):
         super().complete(size)
         if len(self.v) < size:
+            a_c, b_c = self._count_assignments(len(self.v), size)
             self._set_sticks(np.concatenate(
-                (self.v,
-                 self._rng.beta(a=1, b=self.alpha, size=size - len(self.v)))))
+                (self.v, self._rng.beta(a=1 + a_c, b=self.alpha + b_c))))
         return self.w
 
     def fit_variational(self, variational_d):
diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 560d997..695f72e 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -24,9 +24,8 @@ class GeometricProcess(BaseWeight):
             raise ValueError("Weight structure not fitted and `n` not passed.")
         if size is None:
             size = max(self.d) + 1
-        self.v = self.v[:0]
         self.p = self._rng.beta(self.a + len(self.d), self.b + self.d.sum())
-        self.complete(size)
+        self._set_sticks(np.repeat(self.p, size))
         return self.w
 
     def complete(self, size):
diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 9f3419e..4b4441c 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -55,12 +55,15 @@ class PitmanYorProcess(BaseWeight):
     def complete(self, size):
         super().complete(size)
         if self.get_size() < size:
+            a_c, b_c = self._count_assignments(self.get_size(), size)
             pitman_yor_bias = np.arange(self.get_size() + 1, size + 1)
             self._set_sticks(np.concatenate(
                 (
                     self.v,
-                    self._rng.beta(a=1 - self.pyd,
-                                   b=self.alpha + pitman_yor_bias * self.pyd)
+                    self._rng.beta(
+                        a=1 - self.pyd + a_c,
+                        b=self.alpha + pitman_yor_bias * self.pyd + b_c
+                    )
                 )
             ))
         return self.w
-- 
2.43.0


From 952bb4dfa3105fab363ff42d877783330dba3054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 13/34] fix: BetaInBeta updates p given the sticks of the last
 draw

---
 pyrichlet/weight_models/_beta_in_beta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index 11048a9..ba24890 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -42,8 +42,8 @@ class BetaInBeta(BaseWeight):
     def random(self, size=None):
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
-        self.v = self.v[:0]
         if len(self.d) == 0:
+            self.v = self.v[:0]
             self.complete(size)
         else:
             if self.x > 0:
-- 
2.43.0


From 512b000d002d7c3bd73b4e1933900a539d6bc8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 14/34] fix: BetaBinomial draws its binomials from their
 conditional law

---
 pyrichlet/weight_models/_beta_binomial.py | 46 ++++++++++++++++-------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_binomial.py b/pyrichlet/weight_models/_beta_binomial.py
index 5b251a4..90773f9 100644
--- a/pyrichlet/weight_models/_beta_binomial.py
+++ b/pyrichlet/weight_models/_beta_binomial.py
@@ -1,6 +1,8 @@
 from ._base import BaseWeight
 import numpy as np
+from scipy.special import betaln, loggamma, xlogy, xlog1py
 
+from ..mixture_models._utils import gumbel_max_sampling
 from ..utils.functions import log_likelihood_beta, log_likelihood_beta_binom, \
     log_likelihood_binom
 
@@ -34,17 +36,24 @@ class BetaBinomial(BaseWeight):
                 raise ValueError(
                     "Weight structure not fitted and `n` not passed.")
             size = 1
-        self.v = self.v[:0]
         if len(self.d) == 0:
+            self.v = self.v[:0]
             self.complete(size)
         else:
-            self._random_binomials()
             a_c = np.bincount(self.d)
             b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))
-            beta_phased = self.binomials[:-1] + self.binomials[1:]
-            a = 1 + a_c + beta_phased
-            b = self.alpha + b_c + 2 * self.n - beta_phased
-            self._set_sticks(self._rng.beta(a=a, b=b))
+            binomials = self._random_binomials(a_c, b_c)
+            # Every stick is linked to a binomial before it and, except for
+            # the last one, to a binomial after it
+            next_binomials = np.append(binomials[1:], 0)
+            next_n = np.append(np.repeat(self.n, len(a_c) - 1), 0)
+            v = self._rng.beta(
+                a=1 + a_c + binomials + next_binomials,
+                b=(self.alpha + b_c + self.n - binomials
+                   + next_n - next_binomials)
+            )
+            self.binomials = binomials
+            self._set_sticks(v)
             if size is not None:
                 self.complete(size)
         return self.w
@@ -70,11 +79,20 @@ class BetaBinomial(BaseWeight):
         self._set_sticks(v)
         return self.w
 
-    def _random_binomials(self):
-        a_c = np.bincount(self.d)
-        b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))
-        a_c = np.append(0, a_c)
-        b_c = np.append(0, b_c)
-        beta_rv = self._rng.beta(1 + a_c, self.alpha + b_c)
-        self.binomials = self._rng.binomial(self.n, beta_rv)
-        return self.binomials
+    def _random_binomials(self, a_c, b_c):
+        """Draw the binomials given the sticks of the last draw"""
+        v = self.v[:len(a_c)]
+        v = np.append(v, self._rng.beta(1 + a_c[len(v):],
+                                        self.alpha + b_c[len(v):]))
+        binomials = self._rng.binomial(self.n, v[:1])
+        if len(v) > 1:
+            b = np.arange(self.n + 1)[:, None]
+            log_prob = (
+                - loggamma(1 + b) - loggamma(1 + self.n - b)
+                + xlogy(b, v[:-1]) + xlogy(b, v[1:])
+                + xlog1py(self.n - b, -v[:-1]) + xlog1py(self.n - b, -v[1:])
+                - betaln(1 + b, self.alpha + self.n - b)
+            )
+            binomials = np.append(
+                binomials, gumbel_max_sampling(log_prob, rng=self._rng))
+        return binomials
-- 
2.43.0


From 24534c1eacb224f350500cc0785d6b6a52a9bca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 15/34] fix: tail and BetaInDirichlet.complete start from the
 posterior once fitted

---
 pyrichlet/weight_models/_base.py              | 2 +-
 pyrichlet/weight_models/_beta_in_dirichlet.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index be73d84..758c0fd 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -117,7 +117,7 @@ class BaseWeight(ABC):
         if x >= 1 or x < 0:
             raise ValueError("Tail parameter not in range [0,1)")
         if len(self.w) == 0:
-            self.random(1)
+            self.random(1 if len(self.d) == 0 else None)
         # Weights that add up to one may sum to less because of rounding
         eps = np.finfo(np.float64).eps
         while self.w.sum() < x - len(self.w) * eps:
diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 6ef5f61..a4f6269 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -96,6 +96,7 @@ class BetaInDirichlet(BaseWeight):
         return self.w
 
     def complete(self, size):
+        super().complete(size)
         v_base, d_base = self._v_base, self._d_base[:len(self.v)]
         if len(d_base) == 0 and size > 0:
             v_base = self._rng.beta(1, self.alpha, size=1)
-- 
2.43.0


From 22e3c92193d7a4d5ac2196af8ad6952d460c0a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:21 +0000
Subject: [PATCH 16/34] fix: a variational fit does not change the prior size
 of EqualWeighting

---
 pyrichlet/weight_models/_equal.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyrichlet/weight_models/_equal.py b/pyrichlet/weight_models/_equal.py
index 46f2a2a..8b2b814 100644
--- a/pyrichlet/weight_models/_equal.py
+++ b/pyrichlet/weight_models/_equal.py
@@ -21,11 +21,14 @@ class EqualWeighting(BaseWeight):
 
     def fit_variational(self, variational_d: np.ndarray):
         self.variational_d = variational_d
-        self.n = self.variational_d.shape[0]
-        self.variational_k = self.n
+        self.variational_k = self.variational_d.shape[0]
 
     def variational_mean_log_w_j(self, j):
-        return np.log(1 / self.n) * (j < self.n)
+        if self.variational_d is None:
+            raise NotFittedError
+        if j >= self.variational_k:
+            return -np.inf
+        return np.log(1 / self.variational_k)
 
     def variational_mean_log_p_d__w(self, variational_d=None):
         _variational_d = variational_d
@@ -33,7 +36,7 @@ class EqualWeighting(BaseWeight):
             _variational_d = self.variational_d
             if _variational_d is None:
                 raise NotFittedError
-        return _variational_d.shape[1] * np.log(self.n)
+        return _variational_d.shape[1] * np.log(len(_variational_d))
 
     def variational_mean_log_p_w(self):
         return 0
@@ -42,7 +45,7 @@ class EqualWeighting(BaseWeight):
         return 0
 
     def variational_mean_w_j(self, j):
-        return 1 / self.n * (j < self.n)
+        return 1 / self.variational_k * (j < self.variational_k)
 
     def variational_mode_w_j(self, j):
-        return 1 / self.n * (j < self.n)
+        return 1 / self.variational_k * (j < self.variational_k)
-- 
2.43.0


From 6f9bc623240eeef26ea293fb4efbdf9f4f853631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 17/34] fix: variational mean weights and log-weights of
 Dirichlet, Pitman-Yor, geometric and frequency models

---
 pyrichlet/weight_models/_dirichlet_distribution.py |  5 +++--
 pyrichlet/weight_models/_frequency.py              | 13 +++++--------
 pyrichlet/weight_models/_geometric_process.py      | 11 +++++------
 pyrichlet/weight_models/_pitman_yor_process.py     |  2 +-
 4 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index e7995e3..e3e82b2 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -56,7 +56,8 @@ class DirichletDistribution(BaseWeight):
         if self.variational_d is None:
             raise NotFittedError
         return mean_log_beta(self.variational_params[j],
-                             self.variational_params.sum())
+                             self.variational_params.sum()
+                             - self.variational_params[j])
 
     def variational_mean_log_p_d__w(self, variational_d=None):
         if variational_d is None:
@@ -94,7 +95,7 @@ class DirichletDistribution(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         return self.variational_params[j] / self.variational_params.sum()
 
diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index a2a6013..80fb149 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -24,26 +24,21 @@ class FrequencyWeighting(BaseWeight):
 
     def fit_variational(self, variational_d: np.ndarray):
         self.variational_d = variational_d
-        self.variational_k = variational_d.shape[1]
-        if self.variational_k == 0:
-            self.variational_k = self.n
+        self.variational_k = len(variational_d)
 
     def variational_mean_log_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
         if j >= self.variational_k:
             return -np.inf
-        if self.variational_d.shape[1]:
-            return self.variational_d.sum(1)[j] / self.variational_d.sum()
-        return np.log(1 / self.variational_k)
+        with np.errstate(divide='ignore'):
+            return np.log(self.variational_mean_w_j(j))
 
     def variational_mean_log_p_d__w(self, variational_d=None):
         if variational_d is None:
             if self.variational_d is None:
                 raise NotFittedError
             variational_d = self.variational_d
-        else:
-            self.variational_d = variational_d
         return np.sum(variational_d.sum(1) * np.log(self.variational_d.sum(1) /
                                                     self.variational_d.sum()))
 
@@ -60,6 +55,8 @@ class FrequencyWeighting(BaseWeight):
     def variational_mean_w_j(self, j):
         if j >= self.variational_k:
             return 0
+        if self.variational_d.shape[1] == 0:
+            return 1 / self.variational_k
         return self.variational_d.sum(1)[j] / self.variational_d.sum()
 
     def variational_mode_w_j(self, j):
diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 695f72e..1f682e0 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -3,7 +3,7 @@ from ..exceptions import NotFittedError
 from ..utils.functions import mean_log_beta, log_likelihood_beta
 
 import numpy as np
-from scipy.special import loggamma
+from scipy.special import betaln, loggamma
 
 
 class GeometricProcess(BaseWeight):
@@ -45,8 +45,7 @@ class GeometricProcess(BaseWeight):
         self.variational_d = variational_d
         self.variational_k = len(self.variational_d)
         self.variational_params = np.empty(2, dtype=np.float64)
-        self.variational_params[0] = self.a + max(len(self.variational_d[0]),
-                                                  1) - 1
+        self.variational_params[0] = self.a + self.variational_d.sum()
         self.variational_params[1] = (
                 self.b + (self.variational_d[1:].T *
                           range(1, self.variational_k)).sum()
@@ -103,9 +102,9 @@ class GeometricProcess(BaseWeight):
 
     def variational_mean_w_j(self, j):
         if j >= self.variational_k:
-            return 1
-        p = self.variational_params[0] / self.variational_params.sum()
-        return p * (1 - p) ** j
+            return 0
+        a, b = self.variational_params
+        return np.exp(betaln(a + 1, b + j) - betaln(a, b))
 
     def variational_mode_w_j(self, j):
         if j > self.variational_k:
diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 4b4441c..77603e2 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -130,7 +130,7 @@ class PitmanYorProcess(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         res = 1
         for jj in range(j):
-- 
2.43.0


From 5ebc16ebccd8c54a0229adcad11ee85b8ef8b59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 18/34] fix: Student-t, normal and Wishart formulas use the
 determinant of the precision

---
 pyrichlet/mixture_models/_utils.py | 4 ++--
 pyrichlet/utils/functions.py       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 6a7bdef..6cb1150 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -108,7 +108,7 @@ def cluster(x, w, theta):
 
 def log_wishart_normalization_term(precision, scale):
     dim = precision.shape[0]
-    res = np.log(np.linalg.norm(precision)) * (-scale / 2)
+    res = np.linalg.slogdet(precision)[1] * (-scale / 2)
     inverse_term = np.log(2) * (scale * dim / 2)
     inverse_term += np.log(np.pi) * (dim * (dim - 1) / 4)
     for i in range(dim):
@@ -119,7 +119,7 @@ def log_wishart_normalization_term(precision, scale):
 
 def e_log_norm_wishart(precision, scale):
     dim = precision.shape[0]
-    res = np.log(np.linalg.norm(precision))
+    res = np.linalg.slogdet(precision)[1]
     res += dim * np.log(2)
     for i in range(dim):
         res += digamma((scale - i) / 2)
diff --git a/pyrichlet/utils/functions.py b/pyrichlet/utils/functions.py
index 4d89809..49e77ef 100644
--- a/pyrichlet/utils/functions.py
+++ b/pyrichlet/utils/functions.py
@@ -31,7 +31,7 @@ def mean_log_beta(a, b):
 def density_students_t(x, mu, precision, nu):
     dim = x.shape[1]
     density = np.exp(loggamma((nu + dim) / 2) - loggamma(nu / 2))
-    density *= np.linalg.norm(precision) ** 0.5 / (nu * np.pi) ** (dim / 2)
+    density *= np.linalg.det(precision) ** 0.5 / (nu * np.pi) ** (dim / 2)
     density *= (1 + np.einsum('ij,jk,ik->i',
                               x - mu, precision, x - mu
                               ) / nu) ** (-(nu + dim) / 2)
@@ -40,7 +40,7 @@ def density_students_t(x, mu, precision, nu):
 
 def density_normal(x, mu, precision):
     dim = x.shape[1]
-    density = np.sqrt((2 * np.pi) ** -dim * np.linalg.norm(precision))
+    density = np.sqrt((2 * np.pi) ** -dim * np.linalg.det(precision))
     density *= np.exp(- np.einsum('ij,jk,ik->i',
                                   x - mu, precision, x - mu
                                   ) / 2)
-- 
2.43.0


From 72720a14ea7c782570ed263ea2896987a66aca66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:50 +0000
Subject: [PATCH 19/34] fix: variational normal-Wishart parameters are the
 conjugate update of the prior

---
 pyrichlet/mixture_models/_base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 42edc80..01394bd 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -993,11 +993,11 @@ class BaseGaussianMixture(metaclass=ABCMeta):
     def _update_var_theta(self):
         var_theta = []
         for vd_j in self.var_d:
-            n_j = vd_j.sum()
+            # A group may be empty in the initial assignation
+            n_j = max(vd_j.sum(), np.finfo(np.float64).eps)
             x_bar_j = (vd_j / n_j) @ self.y
             ns_j = np.einsum('i,ij,ik->jk',
-                             vd_j, (self.y - x_bar_j), (self.y - x_bar_j)
-                             ) / n_j
+                             vd_j, (self.y - x_bar_j), (self.y - x_bar_j))
             v_lambda_j = self.lambda_prior + n_j
             v_scale_j = self.nu_prior + n_j
             v_mu_j = (self.lambda_prior * self.mu_prior +
@@ -1005,8 +1005,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             v_precision_j = (self.psi_prior + ns_j +
                              self.lambda_prior * n_j / (self.lambda_prior +
                                                         n_j) *
-                             (x_bar_j - self.mu_prior) @ (x_bar_j -
-                                                          self.mu_prior))
+                             np.outer(x_bar_j - self.mu_prior,
+                                      x_bar_j - self.mu_prior))
             v_precision_j = np.linalg.inv(v_precision_j)
             var_theta.append([v_mu_j, v_lambda_j, v_precision_j, v_scale_j])
         self.var_theta = var_theta
-- 
2.43.0


From 8f53c557edf86779d8d4da389a2e8aebd5970182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:25 +0000
Subject: [PATCH 20/34] fix: variational marginals, map density and assignation
 of new points

---
 pyrichlet/mixture_models/_base.py  | 107 ++++++++++-------------------
 pyrichlet/mixture_models/_utils.py |  19 +++--
 2 files changed, 50 insertions(+), 76 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 01394bd..f86bba7 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -258,7 +258,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         if not self.gibbs_fitted:
             raise NotFittedError("Object must be fitted with fit_gibbs method")
-        _y = self._cast_observations(y)
+        _y = self._cast_observations(y, dim=dim)
         y_sim = []
         if periods is None:
             sim_params = self.sim_params
@@ -294,7 +294,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         if not self.gibbs_fitted:
             raise NotFittedError("Object must be fitted with fit_gibbs method")
-        _y = self._cast_observations(y)
+        _y = self._cast_observations(y, dim=dim)
         return _utils.mixture_density(_y,
                                       self.map_sim_params["w"],
                                       self.map_sim_params["theta"],
@@ -510,13 +510,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.var_fitted:
             raise NotFittedError("Object must be fitted with fit_variational"
                                  " method")
-        _y = self._cast_observations(y)
-        if dim is None:
-            dim = np.arange(_y.shape[1])
-        if isinstance(dim, int):
-            len_dim = 1
-        else:
-            len_dim = len(dim)
+        _y = self._cast_observations(y, dim=dim)
         f_x = np.zeros(len(_y))
         if component is None:
             iterator = enumerate(self.var_theta)
@@ -524,13 +518,13 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             iterator = [(component, self.var_theta[component])]
         for j, vt_j in iterator:
             v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
-            v_mu_j = v_mu_j[dim]
-            v_precision_j = v_precision_j[:, dim][dim, :]
+            dof = v_scale_j + 1 - len(v_mu_j)
+            v_mu_j, v_precision_j = _utils.marginal_precision(
+                v_mu_j, v_precision_j, dim)
             f_x += density_students_t(
                 _y, v_mu_j,
-                v_precision_j * (v_scale_j + 1 -
-                                 len_dim) * v_lambda_j / (1 + v_lambda_j),
-                v_scale_j + 1 - len_dim
+                v_precision_j * dof * v_lambda_j / (1 + v_lambda_j),
+                dof
             ) * self.weight_model.variational_mean_w_j(j)
         return f_x
 
@@ -548,15 +542,16 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         y : {array-like} of shape (n_samples, n_features), default=None
             The points at which to draw the variational MAP density. If `None`
             the data used at fitting is used.
+        dim: int, {array-like} default=None
+            The desired dimension index for which to marginalize the density,
+            if None, all dimensions are used.
+        component: int default=None
+            Only returns the scaled density for a particular component.
         """
         if not self.var_fitted:
             raise NotFittedError("Object must be fitted with fit_variational"
                                  " method")
-        _y = self._cast_observations(y)
-        if isinstance(dim, int):
-            len_dim = 1
-        else:
-            len_dim = len(dim)
+        _y = self._cast_observations(y, dim=dim)
         f_x = np.zeros(len(_y))
         if component is None:
             iterator = enumerate(self.var_theta)
@@ -564,10 +559,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             iterator = [(component, self.var_theta[component])]
         for j, vt_j in iterator:
             v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
-            v_mu_j = v_mu_j[dim]
-            v_precision_j = v_precision_j[:, dim][dim, :]
-            map_mu = v_mu_j
-            map_precision = (v_scale_j - len_dim) * v_precision_j
+            map_mu, map_precision = _utils.marginal_precision(
+                v_mu_j, (v_scale_j - len(v_mu_j)) * v_precision_j, dim)
             f_x += density_normal(_y, map_mu, map_precision
                                   ) * self.weight_model.variational_mode_w_j(j)
         return f_x
@@ -594,26 +587,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if y is None:
             var_d = self.var_d
         else:
-            _y = self._cast_observations(y)
-            dim = y.shape[1]
-            var_d = np.zeros((self.var_k, y.shape[0]), dtype=np.float64)
-            for j, vt_j in enumerate(self.var_theta):
-                v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
-                log_d_ji = self.weight_model.variational_mean_log_w_j(j)
-                log_d_ji += _utils.e_log_norm_wishart(v_precision_j,
-                                                      v_scale_j) / 2
-                log_d_ji -= dim * np.log(2 * np.pi) / 2
-                log_d_ji -= dim / v_lambda_j / 2
-                log_d_ji -= (v_scale_j *
-                             ((y - v_mu_j).T * (
-                                     v_precision_j @ (y - v_mu_j).T)).sum(
-                                 0)
-                             ) / 2
-                var_d[j, :] = log_d_ji
-            var_d -= var_d.max(axis=0, initial=-np.inf)
-            var_d = np.exp(var_d)
-            var_d += np.finfo(np.float64).eps
-            var_d /= var_d.sum(axis=0)
+            var_d = self._variational_assignation(self._cast_observations(y))
         affinity_matrix = var_d.T @ var_d
         return affinity_matrix
 
@@ -669,28 +643,12 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             else:
                 d = self.var_d.argmax(0)
                 return d, 1 - self.var_d[d, range(len(d))]
-        _y = self._cast_observations(y)
-        dim = _y.shape[1]
-        var_d = np.zeros((self.var_k, _y.shape[0]), dtype=np.float64)
-        for j, vt_j in enumerate(self.var_theta):
-            v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
-            log_d_ji = self.weight_model.variational_mean_log_w_j(j)
-            log_d_ji += _utils.e_log_norm_wishart(v_precision_j, v_scale_j) / 2
-            log_d_ji -= dim / (2 * v_lambda_j)
-            log_d_ji -= (v_scale_j / 2 *
-                         ((_y - v_mu_j).T * (
-                                 v_precision_j @ (_y - v_mu_j).T)).sum(0)
-                         )
-            var_d[j, :] = log_d_ji
-        var_d -= var_d.mean(0)
-        var_d = np.exp(var_d)
-        var_d += np.finfo(np.float64).eps
-        var_d /= var_d.sum(0)
+        var_d = self._variational_assignation(self._cast_observations(y))
+        d = var_d.argmax(0)
         if not full:
-            return var_d.argmax(0)
+            return d
         else:
-            d = var_d.argmax(0)
-            return d, var_d[d]
+            return d, 1 - var_d[d, range(len(d))]
 
     def get_n_groups(self):
         return self.n_groups
@@ -1012,8 +970,12 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.var_theta = var_theta
 
     def _update_var_d(self):
-        dim = self.y.shape[1]
-        var_d = np.zeros((self.var_k, self.y.shape[0]), dtype=np.float64)
+        self.var_d = self._variational_assignation(self.y)
+
+    def _variational_assignation(self, y):
+        """Returns the variational assignation probabilities of `y`"""
+        dim = y.shape[1]
+        var_d = np.zeros((self.var_k, y.shape[0]), dtype=np.float64)
         for j, vt_j in enumerate(self.var_theta):
             v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
             log_d_ji = self.weight_model.variational_mean_log_w_j(j)
@@ -1021,15 +983,15 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             log_d_ji -= dim * np.log(2 * np.pi) / 2
             log_d_ji -= dim / v_lambda_j / 2
             log_d_ji -= (v_scale_j *
-                         ((self.y - v_mu_j).T * (
-                                 v_precision_j @ (self.y - v_mu_j).T)).sum(0)
+                         ((y - v_mu_j).T * (
+                                 v_precision_j @ (y - v_mu_j).T)).sum(0)
                          ) / 2
             var_d[j, :] = log_d_ji
         var_d -= var_d.max(axis=0, initial=-np.inf)
         var_d = np.exp(var_d)
         var_d += np.finfo(np.float64).eps
         var_d /= var_d.sum(axis=0)
-        self.var_d = var_d
+        return var_d
 
     def _e_q_log_p_x(self):
         dim = self.y.shape[1]
@@ -1096,19 +1058,22 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         res /= 2
         return res
 
-    def _cast_observations(self, y):
+    def _cast_observations(self, y, dim=None):
         if y is None:
             _y = self.y
+            if dim is not None:
+                _y = _y[:, np.atleast_1d(dim)]
         else:
             if isinstance(y, pd.DataFrame):
                 _y = y.to_numpy()
+            elif isinstance(y, pd.Series):
+                _y = y.to_numpy().reshape(-1, 1)
             elif isinstance(y, list):
                 _y = np.array(y)
                 if _y.ndim == 1:
                     _y = _y.reshape(-1, 1)
             elif isinstance(y, np.ndarray):
                 if y.ndim == 1:
-                    _y = y.copy()
                     _y = y.reshape(-1, 1)
                 else:
                     _y = y
@@ -1116,4 +1081,6 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                 _y = np.array([[y]])
             else:
                 raise TypeError("Invalid type for variable y")
+            if dim is not None and _y.shape[1] != np.size(dim):
+                _y = _y[:, np.atleast_1d(dim)]
         return _y
diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 6cb1150..f148610 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -1,4 +1,4 @@
-from scipy.stats import invwishart, multivariate_normal, norm
+from scipy.stats import invwishart, multivariate_normal
 from scipy.special import digamma, loggamma
 from sklearn.cluster import KMeans
 import numpy as np
@@ -63,6 +63,8 @@ def rejection_sample(f, max_y, a=0, b=1, size=None, *, rng=None):
 
 def mixture_density(x, w, theta, dim=None, component=None):
     k = len(w)
+    if dim is not None:
+        dim = np.atleast_1d(dim)
 
     ret = []
     if component is None:
@@ -75,20 +77,25 @@ def mixture_density(x, w, theta, dim=None, component=None):
                                                theta[j][0],
                                                theta[j][1],
                                                1)*w[j])
-        elif type(dim) in [list, np.ndarray]:
+        else:
             ret.append(multivariate_normal.pdf(x,
                                                theta[j][0][dim],
                                                theta[j][1][:, dim][dim, :],
                                                1)*w[j])
-        elif type(dim) is int:
-            ret.append(norm.pdf(x[:, 0],
-                                theta[j][0][dim],
-                                np.sqrt(theta[j][1][dim, dim]))*w[j])
     ret = np.array(ret).T
     ret = np.atleast_2d(ret).sum(1)
     return ret
 
 
+def marginal_precision(mu, precision, dim=None):
+    """Location and precision of the marginal over the coordinates `dim`"""
+    if dim is None:
+        return mu, precision
+    dim = np.atleast_1d(dim)
+    scale = np.linalg.inv(precision)[np.ix_(dim, dim)]
+    return mu[dim], np.linalg.inv(scale)
+
+
 def cluster(x, w, theta):
     k = len(w)
     assign_prob = []
-- 
2.43.0


From 887091e1493bc0962dff0bc66f8720f427488994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 21/34] fix: map clustering of single and far observations

---
 pyrichlet/mixture_models/_utils.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index f148610..e886614 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -100,12 +100,17 @@ def cluster(x, w, theta):
     k = len(w)
     assign_prob = []
     for j in range(k):
-        assign_prob.append(multivariate_normal.pdf(x,
-                                                   theta[j][0],
-                                                   theta[j][1],
-                                                   1))
-    assign_prob = np.array(assign_prob).T
-    assign_prob = assign_prob * w
+        assign_prob.append(multivariate_normal.logpdf(x,
+                                                      theta[j][0],
+                                                      theta[j][1],
+                                                      1))
+    # A single observation has a scalar density
+    assign_prob = np.array(assign_prob).reshape(k, len(x)).T
+    with np.errstate(divide='ignore'):
+        assign_prob = assign_prob + np.log(w)
+    # Far observations have densities that are too small to be represented
+    assign_prob -= assign_prob.max(axis=1, keepdims=True)
+    assign_prob = np.exp(assign_prob)
     assign_prob /= assign_prob.sum(1)[:, None]
     grp = np.argmax(assign_prob, axis=1)
     uncertainty = 1 - assign_prob[range(len(x)), grp]
-- 
2.43.0


From b9d4204b879711f26aa1920f976fbd6543e136d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 22/34] fix: spectral clustering does not depend on the global
 random state

---
 pyrichlet/mixture_models/_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index f86bba7..d9e377b 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -351,7 +351,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.gibbs_fitted:
             raise NotFittedError(
                 "Object must be fitted with the fit_gibbs method")
-        sc = SpectralClustering(n_clusters=n_clusters, affinity='precomputed')
+        sc = SpectralClustering(n_clusters=n_clusters, affinity='precomputed',
+                                random_state=0)
         return sc.fit_predict(self.gibbs_eap_affinity_matrix(y))
 
     def gibbs_map_cluster(self, y=None, full=False):
@@ -612,7 +613,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.var_fitted:
             raise NotFittedError(
                 "Object must be fitted with fit_variational init_method")
-        sc = SpectralClustering(n_clusters=n_clusters, affinity='precomputed')
+        sc = SpectralClustering(n_clusters=n_clusters, affinity='precomputed',
+                                random_state=0)
         return sc.fit_predict(self.var_eap_affinity_matrix(y))
 
     def var_map_cluster(self, y=None, full=False):
-- 
2.43.0


From 4a4dcd9aa62805d4f3e6f74f267d923eb79aa611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:00 +0000
Subject: [PATCH 23/34] fix: observations and priors are taken by value in one
 layout for every container

---
 pyrichlet/mixture_models/_base.py | 50 ++++++++++---------------------
 1 file changed, 15 insertions(+), 35 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index d9e377b..0e14ddf 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -665,31 +665,19 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         Initialize the prior variables if not given
         """
+        if not isinstance(y, (pd.DataFrame, pd.Series, list, np.ndarray)):
+            raise TypeError('Invalid type for variable y')
+        # The values are copied, in the same layout for every type
+        _y = np.array(y, dtype=np.float64, order='C')
+        if _y.ndim == 1:
+            _y = _y.reshape(-1, 1)
         if isinstance(y, pd.DataFrame):
-            self.y = y.to_numpy()
-            self._column_names = y.columns
-        elif isinstance(y, pd.Series):
-            self.y = y.to_numpy()
-            if y.name is None:
-                self._column_names = np.array([0])
-            else:
-                self._column_names = np.array([y.name])
-        elif isinstance(y, list):
-            self.y = np.array(y)
-            if self.y.ndim == 1:
-                self.y = self.y.reshape(-1, 1)
-                self._column_names = np.array([0])
-            else:
-                self._column_names = np.arange(self.y.shape[1])
-        elif isinstance(y, np.ndarray):
-            self.y = np.copy(y)
-            if self.y.ndim == 1:
-                self.y = self.y.reshape(-1, 1)
-                self._column_names = np.array([0])
-            else:
-                self._column_names = np.arange(self.y.shape[1])
+            column_names = y.columns
+        elif isinstance(y, pd.Series) and y.name is not None:
+            column_names = np.array([y.name])
         else:
-            raise TypeError('Invalid type for variable y')
+            column_names = np.arange(_y.shape[1])
+        self.y, self._column_names = _y, column_names
 
         if self.mu_prior is None:
             self.mu_prior = self.y.mean(axis=0)
@@ -698,7 +686,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if self.psi_prior is None:
             self.psi_prior = np.atleast_2d(np.cov(self.y.T))
         else:
-            self.psi_prior = np.atleast_2d(self.psi_prior)
+            self.psi_prior = np.array(self.psi_prior, ndmin=2)
         if self.nu_prior is None:
             self.nu_prior = self.y.shape[1]
 
@@ -1066,19 +1054,11 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             if dim is not None:
                 _y = _y[:, np.atleast_1d(dim)]
         else:
-            if isinstance(y, pd.DataFrame):
-                _y = y.to_numpy()
-            elif isinstance(y, pd.Series):
-                _y = y.to_numpy().reshape(-1, 1)
-            elif isinstance(y, list):
-                _y = np.array(y)
+            if isinstance(y, (pd.DataFrame, pd.Series, list, np.ndarray)):
+                # The values are copied, in the same layout for every type
+                _y = np.array(y, dtype=np.float64, order='C')
                 if _y.ndim == 1:
                     _y = _y.reshape(-1, 1)
-            elif isinstance(y, np.ndarray):
-                if y.ndim == 1:
-                    _y = y.reshape(-1, 1)
-                else:
-                    _y = y
             elif isinstance(y, (int, float)):
                 _y = np.array([[y]])
             else:
-- 
2.43.0


From 0f7bf8b99ba40cf068be335abc7f1a75e82edadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 24/34] fix: cold fits start afresh, failed fits stay refused
 and draws are saved as a whole

---
 pyrichlet/mixture_models/_base.py | 125 ++++++++++++++++++++++--------
 1 file changed, 92 insertions(+), 33 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 0e14ddf..16a9559 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -72,6 +72,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.weight_model = weight_model
         self.y = np.array([])
         self._column_names = None
+        # The observations used by the last fit of each method
+        self._gibbs_y = self.y
+        self._var_y = self.y
 
         # Variables used in Gibbs sampler
         self.d = np.array([])
@@ -91,6 +94,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.var_d = None
         self.var_theta = None
 
+        # Default prior parameters, calculated from the observations
+        self._derived_priors = {}
+
         # Fitting flags
         self.gibbs_fitted = False
         self.var_fitted = False
@@ -133,7 +139,11 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             "variational": fits the variational distribution an uses the MAP
             parameters as initialization
         """
-        self._initialize_common_params(y)
+        y, column_names = self._parse_observations(y)
+        if not warm_start:
+            self.gibbs_fitted = False
+        self._initialize_common_params(y, column_names, warm_start)
+        self._gibbs_y = self.y
         if not warm_start:
             self._initialize_gibbs_params(init_groups=init_groups,
                                           method=init_method)
@@ -204,7 +214,12 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         if show_progress is not None:
             self.show_progress = show_progress
-        self._initialize_common_params(y)
+        y, column_names = self._parse_observations(y)
+        # The parameters are not coherent until the fit is completed
+        self.var_fitted = False
+        self.var_converged = False
+        self._initialize_common_params(y, column_names, warm_start)
+        self._var_y = self.y
         if not warm_start:
             if hasattr(self, 'n') and n_groups is None:
                 var_k = self.n
@@ -229,9 +244,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             iterations += 1
             if t is not None:
                 t.update()
+        # The difference is not a number if the parameters are not finite
+        self.var_converged = bool(elbo_diff <= tol)
         self.var_fitted = True
-        if iterations < self.total_iter:
-            self.var_converged = True
 
     def gibbs_eap_density(self, y=None, dim=None, component=None,
                           periods=None):
@@ -258,7 +273,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         if not self.gibbs_fitted:
             raise NotFittedError("Object must be fitted with fit_gibbs method")
-        _y = self._cast_observations(y, dim=dim)
+        _y = self._cast_observations(y, self._gibbs_y, dim)
         y_sim = []
         if periods is None:
             sim_params = self.sim_params
@@ -294,7 +309,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         if not self.gibbs_fitted:
             raise NotFittedError("Object must be fitted with fit_gibbs method")
-        _y = self._cast_observations(y, dim=dim)
+        _y = self._cast_observations(y, self._gibbs_y, dim)
         return _utils.mixture_density(_y,
                                       self.map_sim_params["w"],
                                       self.map_sim_params["theta"],
@@ -321,7 +336,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                 "Object must be fitted with the fit_gibbs method")
         if y is None:
             return self.affinity_matrix / self.total_saved_steps
-        _y = self._cast_observations(y)
+        _y = self._cast_observations(y, self._gibbs_y)
         affinity_matrix = np.zeros((len(_y), len(_y)))
         for params in self.sim_params:
             grouping = _utils.cluster(_y, params["w"], params["theta"])[0]
@@ -376,7 +391,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.gibbs_fitted:
             raise NotFittedError(
                 "Object must be fitted with fit_gibbs method")
-        _y = self._cast_observations(y)
+        _y = self._cast_observations(y, self._gibbs_y)
         ret = _utils.cluster(_y,
                              self.map_sim_params["w"],
                              self.map_sim_params["theta"])
@@ -392,7 +407,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         from scipy.linalg import ldl
 
         names = self._column_names
-        n_feats = self.y.shape[1]
+        n_feats = self._gibbs_y.shape[1]
         grp = self.gibbs_map_cluster()
 
         fig, axes = plt.subplots(nrows=n_feats, ncols=n_feats, sharex='col',
@@ -441,8 +456,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                 ticks[-1].label1.set_visible(False)
                 ax.grid(color='lightgray', linestyle='--', alpha=0.5)
                 if it == it2:
-                    y_min = self.y[:, it].min()
-                    y_max = self.y[:, it].max()
+                    y_min = self._gibbs_y[:, it].min()
+                    y_max = self._gibbs_y[:, it].max()
                     y_ptp = y_max - y_min
                     y_range = np.linspace(y_min - y_ptp / 4,
                                           y_max + y_ptp / 4,
@@ -468,7 +483,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                     else:
                         ax.yaxis.set_major_formatter(FormatStrFormatter('%.2g'))
                 else:
-                    ax.scatter(self.y[:, it], self.y[:, it2], s=10,
+                    ax.scatter(self._gibbs_y[:, it],
+                               self._gibbs_y[:, it2], s=10,
                                c=color[grp], alpha=0.5)
                     for j in np.unique(grp):
                         mu = self.map_sim_params['theta'][j][0]
@@ -511,7 +527,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.var_fitted:
             raise NotFittedError("Object must be fitted with fit_variational"
                                  " method")
-        _y = self._cast_observations(y, dim=dim)
+        _y = self._cast_observations(y, self._var_y, dim)
         f_x = np.zeros(len(_y))
         if component is None:
             iterator = enumerate(self.var_theta)
@@ -552,7 +568,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.var_fitted:
             raise NotFittedError("Object must be fitted with fit_variational"
                                  " method")
-        _y = self._cast_observations(y, dim=dim)
+        _y = self._cast_observations(y, self._var_y, dim)
         f_x = np.zeros(len(_y))
         if component is None:
             iterator = enumerate(self.var_theta)
@@ -588,7 +604,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if y is None:
             var_d = self.var_d
         else:
-            var_d = self._variational_assignation(self._cast_observations(y))
+            var_d = self._variational_assignation(
+                self._cast_observations(y, self._var_y))
         affinity_matrix = var_d.T @ var_d
         return affinity_matrix
 
@@ -645,7 +662,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             else:
                 d = self.var_d.argmax(0)
                 return d, 1 - self.var_d[d, range(len(d))]
-        var_d = self._variational_assignation(self._cast_observations(y))
+        var_d = self._variational_assignation(
+            self._cast_observations(y, self._var_y))
         d = var_d.argmax(0)
         if not full:
             return d
@@ -661,9 +679,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
     def get_sim_params(self):
         return self.sim_params
 
-    def _initialize_common_params(self, y):
+    @staticmethod
+    def _parse_observations(y):
         """
-        Initialize the prior variables if not given
+        Returns a copy of the observations to fit and their column names
         """
         if not isinstance(y, (pd.DataFrame, pd.Series, list, np.ndarray)):
             raise TypeError('Invalid type for variable y')
@@ -677,18 +696,33 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             column_names = np.array([y.name])
         else:
             column_names = np.arange(_y.shape[1])
-        self.y, self._column_names = _y, column_names
+        return _y, column_names
+
+    def _initialize_common_params(self, y, column_names, warm_start=False):
+        """
+        Initialize the prior variables if not given
+        """
+        self.y, self._column_names = y, column_names
+        if not warm_start:
+            # Default priors are calculated from the observations to fit
+            for name, value in self._derived_priors.items():
+                if getattr(self, name) is value:
+                    setattr(self, name, None)
+            self._derived_priors = {}
 
         if self.mu_prior is None:
-            self.mu_prior = self.y.mean(axis=0)
-        else:
+            self._derived_priors["mu_prior"] = self.y.mean(axis=0)
+            self.mu_prior = self._derived_priors["mu_prior"]
+        elif "mu_prior" not in self._derived_priors:
             self.mu_prior = np.array(self.mu_prior)
         if self.psi_prior is None:
-            self.psi_prior = np.atleast_2d(np.cov(self.y.T))
-        else:
+            self._derived_priors["psi_prior"] = np.atleast_2d(np.cov(self.y.T))
+            self.psi_prior = self._derived_priors["psi_prior"]
+        elif "psi_prior" not in self._derived_priors:
             self.psi_prior = np.array(self.psi_prior, ndmin=2)
         if self.nu_prior is None:
-            self.nu_prior = self.y.shape[1]
+            self._derived_priors["nu_prior"] = self.y.shape[1]
+            self.nu_prior = self._derived_priors["nu_prior"]
 
     def _initialize_gibbs_params(self, init_groups=None, method="kmeans"):
         """
@@ -725,11 +759,18 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.n_groups = []
         self.n_atoms = []
         self.total_saved_steps = 0
+        self.map_sim_params = None
+        self.map_log_likelihood = -np.inf
+
+        self.d = np.array([], dtype=np.int64)
 
         self.theta = defaultdict(atom_generator)
         self.affinity_matrix = np.zeros((len(self.y), len(self.y)))
         self.u = self.rng.uniform(0 + np.finfo(np.float64).eps, 1,
                                   len(self.y))
+        # The weights start from the prior, whatever was done before
+        self.weight_model.reset()
+        self.weight_model.random(1)
         if init_groups is None:
             self.weight_model.tail(1 - min(self.u))
         else:
@@ -812,11 +853,24 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                 "d": self.d}
 
     def _save_params(self):
-        self.sim_params.append(self._get_run_params())
-        self.n_groups.append(len(np.unique(self.d)))
-        self.n_atoms.append(len(self.theta))
-        self.affinity_matrix += np.equal(self.d, self.d[:, None])
-        self.total_saved_steps += 1
+        params = self._get_run_params()
+        n_groups = len(np.unique(self.d))
+        n_atoms = len(params["theta"])
+        affinity_matrix = self.affinity_matrix + np.equal(self.d,
+                                                          self.d[:, None])
+        saved = self.total_saved_steps
+        try:
+            self.sim_params.append(params)
+            self.n_groups.append(n_groups)
+            self.n_atoms.append(n_atoms)
+            self.affinity_matrix, self.total_saved_steps = (affinity_matrix,
+                                                            saved + 1)
+        except BaseException:
+            # A draw is saved as a whole or not at all
+            del self.sim_params[saved:]
+            del self.n_groups[saved:]
+            del self.n_atoms[saved:]
+            raise
 
     def _update_map_params(self):
         """Calc the likelihood and parameters of the run. Update MAP if the
@@ -824,8 +878,12 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         run_log_likelihood = self._run_log_likelihood()
         if self.map_log_likelihood < run_log_likelihood:
-            self.map_log_likelihood = run_log_likelihood
-            self.map_sim_params = self._get_run_params()
+            params = self._get_run_params()
+            if any(j not in params["theta"] for j in range(len(params["w"]))):
+                # Some components of the initial state are not drawn yet
+                return
+            self.map_sim_params, self.map_log_likelihood = (
+                params, run_log_likelihood)
         elif self.map_log_likelihood == -np.inf:
             # Save the params to get something to compare
             self.map_sim_params = self._get_run_params()
@@ -1048,9 +1106,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         res /= 2
         return res
 
-    def _cast_observations(self, y, dim=None):
+    @staticmethod
+    def _cast_observations(y, fitted_y, dim=None):
         if y is None:
-            _y = self.y
+            _y = fitted_y
             if dim is not None:
                 _y = _y[:, np.atleast_1d(dim)]
         else:
-- 
2.43.0


From ed6c3c41195a6726e1b52a39e53c8b8f204fd800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:57 +0000
Subject: [PATCH 25/34] fix: documented value of the variational density

---
 docs/usage.rst | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/usage.rst b/docs/usage.rst
index e79d57e..a65683a 100644
--- a/docs/usage.rst
+++ b/docs/usage.rst
@@ -105,7 +105,7 @@ we can calculate the EAP density
 
         >>> mm.fit_variational([1, 2, 3, 4], n_groups=2)
         >>> mm.var_eap_density([1.5, 2.5, 3.5])
-        array([0.20426694, 0.32282514, 0.20426694])
+        array([0.19397795, 0.27009489, 0.19397795])
 
 mixture models can also be used for clustering
 
-- 
2.43.0


From e36e4b405b211179705eb0be73f328d854903ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 26/34] fix: a failed cold fit leaves no chain that a warm
 start could continue

---
 pyrichlet/mixture_models/_base.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 16a9559..caef449 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -141,7 +141,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         y, column_names = self._parse_observations(y)
         if not warm_start:
-            self.gibbs_fitted = False
+            # Neither the past fit nor its chain can be used from now on
+            self.gibbs_fitted, self.d = False, np.array([], dtype=np.int64)
         self._initialize_common_params(y, column_names, warm_start)
         self._gibbs_y = self.y
         if not warm_start:
@@ -755,14 +756,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             )
             return np.atleast_1d(mu), np.atleast_2d(sigma)
 
-        self.sim_params = []
-        self.n_groups = []
-        self.n_atoms = []
-        self.total_saved_steps = 0
-        self.map_sim_params = None
-        self.map_log_likelihood = -np.inf
-
-        self.d = np.array([], dtype=np.int64)
+        (self.sim_params, self.n_groups, self.n_atoms,
+         self.total_saved_steps) = [], [], [], 0
+        self.map_sim_params, self.map_log_likelihood = None, -np.inf
 
         self.theta = defaultdict(atom_generator)
         self.affinity_matrix = np.zeros((len(self.y), len(self.y)))
-- 
2.43.0


From f86e179c9dc1f67a2135330148642d3796eadfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:26 +0000
Subject: [PATCH 27/34] fix: k-means initialization with more groups than
 observations

---
 pyrichlet/mixture_models/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index e886614..49f85f8 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -150,7 +150,7 @@ def kmeans_cluster_size_biased(y, k, rng):
     # TODO wait for sklearn to implement Generator as random_state
     # input https://github.com/scikit-learn/scikit-learn/issues/16988
     km = KMeans(
-        n_clusters=k,
+        n_clusters=min(k, len(y)),
         n_init=10,
         random_state=np.random.RandomState(rng.bit_generator)
     )
-- 
2.43.0


From 92fbf6e7f857d9604d581ff7ac495ff777bee9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:22 +0000
Subject: [PATCH 28/34] fix: a warm start goes on with the default priors its
 own fit started with

---
 pyrichlet/mixture_models/_base.py | 42 +++++++++++++++++++------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index caef449..3fdef22 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -94,8 +94,11 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.var_d = None
         self.var_theta = None
 
-        # Default prior parameters, calculated from the observations
+        # Default prior parameters, calculated from the observations, in use
+        # and those that each method started with
         self._derived_priors = {}
+        self._gibbs_priors = {}
+        self._var_priors = {}
 
         # Fitting flags
         self.gibbs_fitted = False
@@ -143,7 +146,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not warm_start:
             # Neither the past fit nor its chain can be used from now on
             self.gibbs_fitted, self.d = False, np.array([], dtype=np.int64)
-        self._initialize_common_params(y, column_names, warm_start)
+        self._gibbs_priors = self._initialize_common_params(
+            y, column_names, self._gibbs_priors if warm_start else {})
         self._gibbs_y = self.y
         if not warm_start:
             self._initialize_gibbs_params(init_groups=init_groups,
@@ -219,7 +223,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         # The parameters are not coherent until the fit is completed
         self.var_fitted = False
         self.var_converged = False
-        self._initialize_common_params(y, column_names, warm_start)
+        self._var_priors = self._initialize_common_params(
+            y, column_names, self._var_priors if warm_start else {})
         self._var_y = self.y
         if not warm_start:
             if hasattr(self, 'n') and n_groups is None:
@@ -699,31 +704,36 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             column_names = np.arange(_y.shape[1])
         return _y, column_names
 
-    def _initialize_common_params(self, y, column_names, warm_start=False):
+    def _initialize_common_params(self, y, column_names, past_priors):
         """
         Initialize the prior variables if not given
+
+        The default values are those in `past_priors` if the fit goes on from a
+        past run, or calculated from the observations to fit. Returns the
+        default values in use.
         """
         self.y, self._column_names = y, column_names
-        if not warm_start:
-            # Default priors are calculated from the observations to fit
-            for name, value in self._derived_priors.items():
-                if getattr(self, name) is value:
-                    setattr(self, name, None)
-            self._derived_priors = {}
-
+        for name, value in self._derived_priors.items():
+            if getattr(self, name) is value:
+                setattr(self, name, None)
+        self._derived_priors = {}
         if self.mu_prior is None:
-            self._derived_priors["mu_prior"] = self.y.mean(axis=0)
+            self._derived_priors["mu_prior"] = past_priors.get(
+                "mu_prior", self.y.mean(axis=0))
             self.mu_prior = self._derived_priors["mu_prior"]
-        elif "mu_prior" not in self._derived_priors:
+        else:
             self.mu_prior = np.array(self.mu_prior)
         if self.psi_prior is None:
-            self._derived_priors["psi_prior"] = np.atleast_2d(np.cov(self.y.T))
+            self._derived_priors["psi_prior"] = past_priors.get(
+                "psi_prior", np.atleast_2d(np.cov(self.y.T)))
             self.psi_prior = self._derived_priors["psi_prior"]
-        elif "psi_prior" not in self._derived_priors:
+        else:
             self.psi_prior = np.array(self.psi_prior, ndmin=2)
         if self.nu_prior is None:
-            self._derived_priors["nu_prior"] = self.y.shape[1]
+            self._derived_priors["nu_prior"] = past_priors.get(
+                "nu_prior", self.y.shape[1])
             self.nu_prior = self._derived_priors["nu_prior"]
+        return self._derived_priors
 
     def _initialize_gibbs_params(self, init_groups=None, method="kmeans"):
         """
-- 
2.43.0


From 696c327f1d5d204d2182fec1a00b3912b5bfdfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:07 +0000
Subject: [PATCH 29/34] fix: the pair plot of a model that is not fitted is
 refused like every query

---
 pyrichlet/mixture_models/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 3fdef22..ceaa389 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -412,9 +412,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         from scipy.stats import chi2
         from scipy.linalg import ldl
 
+        grp = self.gibbs_map_cluster()
         names = self._column_names
         n_feats = self._gibbs_y.shape[1]
-        grp = self.gibbs_map_cluster()
 
         fig, axes = plt.subplots(nrows=n_feats, ncols=n_feats, sharex='col',
                                  figsize=(n_feats * 2, n_feats * 2))
-- 
2.43.0


From d78f5fc38d63b8e0f32f60b7fee2c4ee91a2797d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:40 +0000
Subject: [PATCH 30/34] fix: spectral clustering of isolated observations is
 the same every time

---
 pyrichlet/mixture_models/_base.py  | 11 ++++-------
 pyrichlet/mixture_models/_utils.py | 11 ++++++++++-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index ceaa389..6d97267 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1,4 +1,3 @@
-from sklearn.cluster import SpectralClustering
 from scipy.stats import multivariate_normal
 from collections import defaultdict
 import pandas as pd
@@ -372,9 +371,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.gibbs_fitted:
             raise NotFittedError(
                 "Object must be fitted with the fit_gibbs method")
-        sc = SpectralClustering(n_clusters=n_clusters, affinity='precomputed',
-                                random_state=0)
-        return sc.fit_predict(self.gibbs_eap_affinity_matrix(y))
+        return _utils.spectral_cluster(self.gibbs_eap_affinity_matrix(y),
+                                       n_clusters)
 
     def gibbs_map_cluster(self, y=None, full=False):
         """
@@ -636,9 +634,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.var_fitted:
             raise NotFittedError(
                 "Object must be fitted with fit_variational init_method")
-        sc = SpectralClustering(n_clusters=n_clusters, affinity='precomputed',
-                                random_state=0)
-        return sc.fit_predict(self.var_eap_affinity_matrix(y))
+        return _utils.spectral_cluster(self.var_eap_affinity_matrix(y),
+                                       n_clusters)
 
     def var_map_cluster(self, y=None, full=False):
         """
diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 49f85f8..2dc9906 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -1,6 +1,6 @@
 from scipy.stats import invwishart, multivariate_normal
 from scipy.special import digamma, loggamma
-from sklearn.cluster import KMeans
+from sklearn.cluster import KMeans, SpectralClustering
 import numpy as np
 
 
@@ -118,6 +118,15 @@ def cluster(x, w, theta):
     return ret, uncertainty
 
 
+def spectral_cluster(affinity, n_clusters):
+    sc = SpectralClustering(n_clusters=n_clusters, affinity='precomputed',
+                            random_state=0)
+    # The eigenvectors are drawn at random where the affinity does not
+    # determine them (e.g. isolated observations): a fixed perturbation does
+    noise = np.random.RandomState(0).uniform(size=np.shape(affinity))
+    return sc.fit_predict(affinity + 1e-9 * (noise + noise.T))
+
+
 def log_wishart_normalization_term(precision, scale):
     dim = precision.shape[0]
     res = np.linalg.slogdet(precision)[1] * (-scale / 2)
-- 
2.43.0


From cf0d458f7f116fdd964958ee1ee5a39fff3fe985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 31/34] fix: a fit without progress shows none in its
 variational initialization

---
 pyrichlet/mixture_models/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 6d97267..9f46726 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -141,6 +141,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             "variational": fits the variational distribution an uses the MAP
             parameters as initialization
         """
+        if show_progress is not None:
+            self.show_progress = show_progress
         y, column_names = self._parse_observations(y)
         if not warm_start:
             # Neither the past fit nor its chain can be used from now on
@@ -152,8 +154,6 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             self._initialize_gibbs_params(init_groups=init_groups,
                                           method=init_method)
             self._update_map_params()
-        if show_progress is not None:
-            self.show_progress = show_progress
 
         # Iterate the Gibbs steps with or without tqdm
         burn_in_iterator = range(self.burn_in)
-- 
2.43.0


From e9b030f5d08a22272f59a684dd822f1e5881ba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 32/34] fix: a draw that failed left weights that could not be
 extended

The sticks or the parameter of the new draw were replaced before it succeeded,
so asking for more weights afterwards replaced the weights reported.
---
 pyrichlet/weight_models/_base.py              | 18 ++++++++++++++++++
 pyrichlet/weight_models/_beta_bernoulli.py    |  3 ++-
 pyrichlet/weight_models/_beta_binomial.py     |  3 ++-
 pyrichlet/weight_models/_beta_in_beta.py      |  3 ++-
 pyrichlet/weight_models/_beta_in_dirichlet.py |  3 ++-
 pyrichlet/weight_models/_dirichlet_process.py |  3 ++-
 pyrichlet/weight_models/_geometric_process.py |  3 ++-
 7 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index 758c0fd..c8aa1ab 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -1,10 +1,28 @@
 """Base class for weighting structure models."""
 from abc import ABC, abstractmethod
+from functools import wraps
 import numpy as np
 
 from ..utils.validators import rng_parser
 
 
+def keep_last_draw(random):
+    """Make a draw that fails or is interrupted leave the last one in place
+
+    The structure in use must go on being extended with the parameters it was
+    drawn with.
+    """
+    @wraps(random)
+    def wrapper(self, *args, **kwargs):
+        last = dict(self.__dict__)
+        try:
+            return random(self, *args, **kwargs)
+        except BaseException:
+            self.__dict__.update(last)
+            raise
+    return wrapper
+
+
 class BaseWeight(ABC):
     """Base class for weighting structure models.
 
diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index 50bce05..1ff75ea 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -1,4 +1,4 @@
-from ._base import BaseWeight
+from ._base import BaseWeight, keep_last_draw
 import numpy as np
 from scipy.special import betaln, expit
 
@@ -33,6 +33,7 @@ class BetaBernoulli(BaseWeight):
                 ret += log_likelihood_beta(self.v[j], 1, self.alpha)
         return ret
 
+    @keep_last_draw
     def random(self, size=None):
         if size is None:
             if len(self.d) == 0:
diff --git a/pyrichlet/weight_models/_beta_binomial.py b/pyrichlet/weight_models/_beta_binomial.py
index 90773f9..e172cd3 100644
--- a/pyrichlet/weight_models/_beta_binomial.py
+++ b/pyrichlet/weight_models/_beta_binomial.py
@@ -1,4 +1,4 @@
-from ._base import BaseWeight
+from ._base import BaseWeight, keep_last_draw
 import numpy as np
 from scipy.special import betaln, loggamma, xlogy, xlog1py
 
@@ -30,6 +30,7 @@ class BetaBinomial(BaseWeight):
                                    self.alpha + self.n - b)
         return res
 
+    @keep_last_draw
     def random(self, size=None):
         if size is None:
             if len(self.d) == 0:
diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index ba24890..01009a5 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -3,7 +3,7 @@ from scipy.optimize import minimize, brentq
 from scipy.integrate import quad
 from scipy.stats import beta
 
-from ._base import BaseWeight
+from ._base import BaseWeight, keep_last_draw
 from ..utils.functions import log_likelihood_beta
 
 
@@ -39,6 +39,7 @@ class BetaInBeta(BaseWeight):
     def _internal_beta_log_likelihood(self):
         return log_likelihood_beta(self.p, self.a, self.b)
 
+    @keep_last_draw
     def random(self, size=None):
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index a4f6269..141ee1e 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy.special import loggamma, xlogy, xlog1py
 
-from ._base import BaseWeight
+from ._base import BaseWeight, keep_last_draw
 from ..mixture_models._utils import gumbel_max_sampling
 from ..utils.functions import log_likelihood_beta, dirichlet_log_eppf
 
@@ -23,6 +23,7 @@ class BetaInDirichlet(BaseWeight):
         ret += dirichlet_log_eppf(self.a, v_counts)
         return ret
 
+    @keep_last_draw
     def random(self, size=None, u=None):
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
diff --git a/pyrichlet/weight_models/_dirichlet_process.py b/pyrichlet/weight_models/_dirichlet_process.py
index 00b3508..f30f2ad 100644
--- a/pyrichlet/weight_models/_dirichlet_process.py
+++ b/pyrichlet/weight_models/_dirichlet_process.py
@@ -1,4 +1,4 @@
-from ._base import BaseWeight
+from ._base import BaseWeight, keep_last_draw
 from ..exceptions import NotFittedError
 from ..utils.functions import mean_log_beta, log_likelihood_beta
 
@@ -22,6 +22,7 @@ class DirichletProcess(BaseWeight):
             prod_v *= (1 - v)
         return ret
 
+    @keep_last_draw
     def random(self, size=None):
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 1f682e0..c4210ff 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -1,4 +1,4 @@
-from ._base import BaseWeight
+from ._base import BaseWeight, keep_last_draw
 from ..exceptions import NotFittedError
 from ..utils.functions import mean_log_beta, log_likelihood_beta
 
@@ -19,6 +19,7 @@ class GeometricProcess(BaseWeight):
         ret = log_likelihood_beta(self.p, self.a, self.b)
         return ret
 
+    @keep_last_draw
     def random(self, size=None):
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
-- 
2.43.0


From 945e693c6691d3ecfccb0beee10b29ce6fde8187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:44 +0000
Subject: [PATCH 33/34] fix: a slice level could exceed the weight it slices

The level of an observation was drawn below its weight plus eps, so a value
within rounding of the weight left the observation without any component,
and it went to the first one whatever that one's weight.
---
 pyrichlet/mixture_models/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 9f46726..76e58f3 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -896,6 +896,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         w = self.weight_model.random()
         self.u = self.rng.uniform(0 + np.finfo(np.float64).eps,
                                   w[self.d] + np.finfo(np.float64).eps)
+        # A level above the weight it slices would leave no component
+        self.u = np.minimum(self.u, np.maximum(np.nextafter(w[self.d], 0),
+                                               np.finfo(np.float64).eps))
         self.weight_model.tail(1 - min(self.u))
 
     def _update_atoms(self):
-- 
2.43.0


From b5536fc249268e77cf4fc39bc5660c50164d43ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:22 +0000
Subject: [PATCH 34/34] fix: the modal weight beyond the last group was not
 zero

---
 pyrichlet/weight_models/_dirichlet_distribution.py | 2 +-
 pyrichlet/weight_models/_frequency.py              | 4 +++-
 pyrichlet/weight_models/_geometric_process.py      | 4 ++--
 pyrichlet/weight_models/_pitman_yor_process.py     | 2 +-
 4 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index e3e82b2..b86eab3 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -100,7 +100,7 @@ class DirichletDistribution(BaseWeight):
         return self.variational_params[j] / self.variational_params.sum()
 
     def variational_mode_w_j(self, j):
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         alpha = self.variational_params.sum()
         if self.variational_params[j] <= 1:
diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index 80fb149..1b8ce69 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -60,6 +60,8 @@ class FrequencyWeighting(BaseWeight):
         return self.variational_d.sum(1)[j] / self.variational_d.sum()
 
     def variational_mode_w_j(self, j):
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
+        if self.variational_d.shape[1] == 0:
+            return 1 / self.variational_k
         return self.variational_d.sum(1)[j] / self.variational_d.sum()
diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index c4210ff..2982dbf 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -108,8 +108,8 @@ class GeometricProcess(BaseWeight):
         return np.exp(betaln(a + 1, b + j) - betaln(a, b))
 
     def variational_mode_w_j(self, j):
-        if j > self.variational_k:
-            return
+        if j >= self.variational_k:
+            return 0
         if self.variational_params[0] <= 1:
             if self.variational_params[1] <= 1:
                 raise ValueError('multimodal distribution')
diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 77603e2..82efe68 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -140,7 +140,7 @@ class PitmanYorProcess(BaseWeight):
         return res
 
     def variational_mode_w_j(self, j):
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         res = 1
         for jj in range(j):
-- 
2.43.0

