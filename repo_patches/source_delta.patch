From 6f0b9d8efa6f4af30c1efa3379e00b17cbfbb759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 01/31] fix: exponential_gamma_predictive swapped the Lomax
 shape and scale

---
 conjugate/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index f9de221..f218ec4 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -692,7 +692,7 @@ def exponential_gamma_predictive(*, distribution: Gamma) -> Lomax:
 
         ![exponential_gamma_predictive](./images/docstrings/exponential_gamma_predictive.png)
     """
-    return Lomax(alpha=distribution.beta, lam=distribution.alpha)
+    return Lomax(alpha=distribution.alpha, lam=distribution.beta)
 
 
 @validate_prior_type
-- 
2.43.0


From 16610c4ba0c5bf14da6831541893fa3387ca0507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 02/31] fix: poisson_gamma_predictive over n time units shares
 one rate

---
 conjugate/models.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index f218ec4..206984b 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -611,10 +611,9 @@ def poisson_gamma_predictive(
         NegativeBinomial distribution related to predictive
 
     """
-    n = n * distribution.alpha
-    p = distribution.beta / (1 + distribution.beta)
+    p = distribution.beta / (n + distribution.beta)
 
-    return NegativeBinomial(n=n, p=p)
+    return NegativeBinomial(n=distribution.alpha, p=p)
 
 
 # Just happen to be the same as above
-- 
2.43.0


From 708f7ab2422ce4c1ed04a7722873eef228e5a6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 03/31] fix: Exponential treats lam as the documented rate

---
 conjugate/distributions.py | 4 ++--
 docs/examples/thompson.md  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 9952416..48f90f3 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -215,10 +215,10 @@ class Exponential(ContinuousPlotDistMixin, SliceMixin):
 
     @property
     def dist(self):
-        return stats.expon(scale=self.lam)
+        return stats.expon(scale=1 / self.lam)
 
     def __mul__(self, other):
-        return Gamma(alpha=other, beta=1 / self.lam)
+        return Gamma(alpha=other, beta=self.lam)
 
     __rmul__ = __mul__
 
diff --git a/docs/examples/thompson.md b/docs/examples/thompson.md
index 114121c..5a6f5d1 100644
--- a/docs/examples/thompson.md
+++ b/docs/examples/thompson.md
@@ -28,7 +28,7 @@ import matplotlib.pyplot as plt
 lam = np.array([0.5, 0.55, 0.6, 0.8, 1])
 n_groups = len(lam)
 
-true_dist = Exponential(lam=lam)
+true_dist = Exponential(lam=1 / lam)
 ```
 
 We will create some helper functions to abstract:
-- 
2.43.0


From a448896efc9539b570a2cc2a2dad0070e3d4ec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 04/31] fix: Uniform.dist spans low to high

---
 conjugate/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 48f90f3..791838f 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -504,7 +504,7 @@ class Uniform(ContinuousPlotDistMixin, SliceMixin):
 
     @property
     def dist(self):
-        return stats.uniform(self.low, self.high)
+        return stats.uniform(self.low, self.high - self.low)
 
 
 @dataclass
-- 
2.43.0


From 198ea99b8c8660daded6144e9a7d985caf297685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 05/31] fix: LogNormal.dist uses mu as the mean of the
 logarithm

---
 conjugate/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 791838f..7e23c37 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -1304,7 +1304,7 @@ class LogNormal(ContinuousPlotDistMixin, SliceMixin):
 
     @property
     def dist(self):
-        return stats.lognorm(s=self.sigma, loc=self.mu)
+        return stats.lognorm(s=self.sigma, scale=np.exp(self.mu))
 
 
 @dataclass
-- 
2.43.0


From 8c464e44a04719a9a2bd43e222c1ed30e701faaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 06/31] fix: marginal of MultivariateStudentT uses the square
 root of the scale matrix entry

---
 conjugate/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 7e23c37..292f01b 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -708,7 +708,9 @@ class MultivariateStudentT:
 
     def __getitem__(self, key):
         if isinstance(key, int):
-            return StudentT(mu=self.mu[key], sigma=self.sigma[key, key], nu=self.nu)
+            return StudentT(
+                mu=self.mu[key], sigma=self.sigma[key, key] ** 0.5, nu=self.nu
+            )
 
         return MultivariateStudentT(
             mu=self.mu[key], sigma=self.sigma[key][:, key], nu=self.nu
-- 
2.43.0


From ebdd3b0a0aacba3074d77612d8c51345c9a64421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 07/31] fix: numpy integers index multivariate distributions
 like python integers

---
 conjugate/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 292f01b..101943c 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -479,7 +479,7 @@ class MultivariateNormal:
         return stats.multivariate_normal(mean=self.mu, cov=self.cov)
 
     def __getitem__(self, key):
-        if isinstance(key, int):
+        if isinstance(key, (int, np.integer)):
             return Normal(mu=self.mu[key], sigma=self.cov[key, key] ** 0.5)
 
         return MultivariateNormal(mu=self.mu[key], cov=self.cov[key][:, key])
@@ -707,7 +707,7 @@ class MultivariateStudentT:
         return stats.multivariate_t(loc=self.mu, shape=self.sigma, df=self.nu)
 
     def __getitem__(self, key):
-        if isinstance(key, int):
+        if isinstance(key, (int, np.integer)):
             return StudentT(
                 mu=self.mu[key], sigma=self.sigma[key, key] ** 0.5, nu=self.nu
             )
-- 
2.43.0


From aa0f657e070b419d3a5d95faa325cbc563bf1064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 08/31] fix: BetaGeometric pmf is a normalised, robust mass on
 its support

---
 conjugate/_beta_geometric.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/conjugate/_beta_geometric.py b/conjugate/_beta_geometric.py
index d40b962..6d259df 100644
--- a/conjugate/_beta_geometric.py
+++ b/conjugate/_beta_geometric.py
@@ -3,16 +3,18 @@
 import numpy as np
 
 from scipy import stats
-from scipy.special import beta
+from scipy.special import betaln
 
 
 def beta_geometric_pmf(x, a, b, one_start: bool = True):
     x, a, b = np.broadcast_arrays(x, a, b)
 
-    if not one_start:
-        x = x + 1
+    failures = x - 1 if one_start else x
+    in_support = (failures >= 0) & (failures == np.floor(failures))
 
-    return beta(a + 1, x + b) / beta(a, b)
+    log_pmf = betaln(a + 1, np.maximum(failures, 0) + b) - betaln(a, b)
+
+    return np.where(in_support, np.exp(log_pmf), 0.0)[()]
 
 
 class beta_geometric:
-- 
2.43.0


From c1eaaac64c6d6282cb4866709b0fd21ad97d30d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 09/31] fix: CompoundGamma pdf is zero outside the support and
 does not underflow

---
 conjugate/_compound_gamma.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/conjugate/_compound_gamma.py b/conjugate/_compound_gamma.py
index 7eab08d..d548c75 100644
--- a/conjugate/_compound_gamma.py
+++ b/conjugate/_compound_gamma.py
@@ -1,11 +1,17 @@
 import numpy as np
 
-from scipy.special import beta
+from scipy.special import betaln, xlogy
 from scipy.stats import gamma
 
 
 def compound_gamma_pdf(x, a, b, q):
-    return (x / q) ** (a - 1) * (1 + (x / q)) ** (-a - b) / (q * beta(a, b))
+    x, a, b, q = np.broadcast_arrays(x, a, b, q)
+
+    in_support = (x >= 0) & (x < np.inf)
+    z = np.where(in_support, x, 1) / q
+    log_pdf = xlogy(a - 1, z) - (a + b) * np.log1p(z) - np.log(q) - betaln(a, b)
+
+    return np.where(in_support, np.exp(log_pdf), 0.0)[()]
 
 
 class compound_gamma:
-- 
2.43.0


From 050fbb432cab68069b37bc1878ce5d780fa27495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 10/31] fix: VonMisesKnownConcentration.log_likelihood
 multiplies the cosine by a

---
 conjugate/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 101943c..76cd5df 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -921,7 +921,7 @@ class VonMisesKnownConcentration:
             log likelihood
 
         """
-        return self.a + cos(mu - self.b) - ln(i0(self.a))
+        return self.a * cos(mu - self.b) - ln(i0(self.a))
 
 
 @dataclass
-- 
2.43.0


From 0e93b124404696415c0a9469824912997f9dc88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 11/31] fix: von_mises_known_concentration posterior is the
 resultant of prior and data

---
 conjugate/models.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index 206984b..e1f6dd9 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1682,10 +1682,11 @@ def von_mises_known_concentration(
         VonMisesKnownConcentration posterior distribution
 
     """
-    sin_total_post = prior.a * sin(prior.b) + sin_total
-    a_post = kappa * sin_total_post
+    sin_total_post = prior.a * sin(prior.b) + kappa * sin_total
+    cos_total_post = prior.a * cos(prior.b) + kappa * cos_total
 
-    b_post = arctan2(sin_total_post, prior.a * cos(prior.b) + cos_total)
+    a_post = (sin_total_post**2 + cos_total_post**2) ** 0.5
+    b_post = arctan2(sin_total_post, cos_total_post)
 
     return VonMisesKnownConcentration(a=a_post, b=b_post)
 
-- 
2.43.0


From 23b62ecdf2206cbbd02243fb4029590a64fa9c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 12/31] fix: normal model accepts an update without data

---
 conjugate/models.py  | 4 +---
 docs/examples/sql.md | 4 ++--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index e1f6dd9..cadaf6a 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1223,10 +1223,8 @@ def _normal(
     alpha: NUMERIC,
     beta: NUMERIC,
 ) -> tuple[NUMERIC, NUMERIC, NUMERIC, NUMERIC]:
-    x_mean = x_total / n
-
     nu_post = nu + n
-    mu_post = ((nu * mu_0) + (n * x_mean)) / nu_post
+    mu_post = ((nu * mu_0) + x_total) / nu_post
 
     alpha_post = alpha + (n / 2)
     beta_post = beta + 0.5 * ((mu_0**2) * nu + x2_total - (mu_post**2) * nu_post)
diff --git a/docs/examples/sql.md b/docs/examples/sql.md
index 0f20ea6..da26e45 100644
--- a/docs/examples/sql.md
+++ b/docs/examples/sql.md
@@ -73,8 +73,8 @@ Which results in this query:
 
 ```sql
 SELECT "group",
-       (0.0+COUNT(*)*SUM("sales")/COUNT(*))/(0.1+COUNT(*)) "mu",
-       POW((1+0.5*(0.0+SUM(POW("sales", 2))-POW((0.0+COUNT(*)*SUM("sales")/COUNT(*))/(0.1+COUNT(*)), 2)*(0.1+COUNT(*))))*(0.1+COUNT(*)+1)/((0.1+COUNT(*))*(0.1+COUNT(*)/2)), 0.5) "sigma",
+       (0.0+SUM("sales"))/(0.1+COUNT(*)) "mu",
+       POW((1+0.5*(0.0+SUM(POW("sales", 2))-POW((0.0+SUM("sales"))/(0.1+COUNT(*)), 2)*(0.1+COUNT(*))))*(0.1+COUNT(*)+1)/((0.1+COUNT(*))*(0.1+COUNT(*)/2)), 0.5) "sigma",
        2*(0.1+COUNT(*)/2) "nu"
 FROM "events"
 GROUP BY "group"
-- 
2.43.0


From 01ce1147514b61ecccfc616c389f52b5ccdc357f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 13/31] fix: joint samplers return the data variance, scaled
 only for the mean

---
 conjugate/distributions.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 76cd5df..02a8358 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -1031,9 +1031,7 @@ class NormalGamma:
             samples from the inverse gamma distribution
 
         """
-        precision = self.lam * self.gamma.dist.rvs(size=size, random_state=random_state)
-
-        return 1 / precision
+        return 1 / self.gamma.dist.rvs(size=size, random_state=random_state)
 
     def sample_mean(
         self,
@@ -1071,7 +1069,7 @@ class NormalGamma:
 
         """
         variance = self.sample_variance(size=size, random_state=random_state)
-        sigma = variance**0.5
+        sigma = (variance / self.lam) ** 0.5
         beta = stats.norm(loc=self.mu, scale=sigma).rvs(
             size=size, random_state=random_state
         )
@@ -1159,9 +1157,7 @@ class NormalWishart:
 
         """
 
-        variance = inv(
-            self.lam * self.wishart.dist.rvs(size=size, random_state=random_state)
-        )
+        variance = inv(self.wishart.dist.rvs(size=size, random_state=random_state))
 
         if size == 1:
             variance = variance[None, ...]
@@ -1190,7 +1186,7 @@ class NormalWishart:
 
         mean = np.stack(
             [
-                stats.multivariate_normal(self.mu, cov=cov).rvs(
+                stats.multivariate_normal(self.mu, cov=cov / self.lam).rvs(
                     size=1,
                     random_state=random_state,
                 )
@@ -1248,10 +1244,7 @@ class NormalInverseWishart:
             samples from the inverse wishart distribution
 
         """
-        variance = (
-            self.inverse_wishart.dist.rvs(size=size, random_state=random_state)
-            / self.kappa
-        )
+        variance = self.inverse_wishart.dist.rvs(size=size, random_state=random_state)
         if size == 1:
             variance = variance[None, ...]
 
@@ -1278,7 +1271,7 @@ class NormalInverseWishart:
 
         mean = np.stack(
             [
-                stats.multivariate_normal(self.mu, cov=cov).rvs(
+                stats.multivariate_normal(self.mu, cov=cov / self.kappa).rvs(
                     size=1, random_state=random_state
                 )
                 for cov in variance
-- 
2.43.0


From e12aa65993dd6b042f33a61dd345fb7930c91d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 14/31] fix: an integer seed no longer correlates the stages of
 two-stage samplers

---
 conjugate/_beta_geometric.py |  3 +++
 conjugate/_compound_gamma.py |  3 +++
 conjugate/_random.py         | 14 ++++++++++++++
 conjugate/distributions.py   |  5 +++++
 4 files changed, 25 insertions(+)
 create mode 100644 conjugate/_random.py

diff --git a/conjugate/_beta_geometric.py b/conjugate/_beta_geometric.py
index 6d259df..5311f31 100644
--- a/conjugate/_beta_geometric.py
+++ b/conjugate/_beta_geometric.py
@@ -5,6 +5,8 @@ import numpy as np
 from scipy import stats
 from scipy.special import betaln
 
+from conjugate._random import shared_random_state
+
 
 def beta_geometric_pmf(x, a, b, one_start: bool = True):
     x, a, b = np.broadcast_arrays(x, a, b)
@@ -38,6 +40,7 @@ class beta_geometric:
         a, b = np.broadcast_arrays(self.a, self.b)
         size = np.broadcast_shapes(a.shape, b.shape, size or ())
 
+        random_state = shared_random_state(random_state)
         p = stats.beta.rvs(a, b, size=size, random_state=random_state)
         result = stats.geom.rvs(p=p, size=size, random_state=random_state)
 
diff --git a/conjugate/_compound_gamma.py b/conjugate/_compound_gamma.py
index d548c75..8ca2f81 100644
--- a/conjugate/_compound_gamma.py
+++ b/conjugate/_compound_gamma.py
@@ -3,6 +3,8 @@ import numpy as np
 from scipy.special import betaln, xlogy
 from scipy.stats import gamma
 
+from conjugate._random import shared_random_state
+
 
 def compound_gamma_pdf(x, a, b, q):
     x, a, b, q = np.broadcast_arrays(x, a, b, q)
@@ -34,6 +36,7 @@ class compound_gamma:
         a, b, q = np.broadcast_arrays(self.a, self.b, self.q)
         size = np.broadcast_shapes(a.shape, b.shape, q.shape, size or ())
 
+        random_state = shared_random_state(random_state)
         random_b = gamma.rvs(b, scale=1 / q, size=size, random_state=random_state)
         return gamma.rvs(a, scale=1 / random_b, random_state=random_state)
 
diff --git a/conjugate/_random.py b/conjugate/_random.py
new file mode 100644
index 0000000..f1c88d8
--- /dev/null
+++ b/conjugate/_random.py
@@ -0,0 +1,14 @@
+"""Random state handling for samplers with more than one stage."""
+
+import numpy as np
+
+
+def shared_random_state(random_state):
+    """Turn an integer seed into one generator to be shared by all stages.
+
+    Using the integer in each stage would make the stages dependent.
+    """
+    if isinstance(random_state, (int, np.integer)):
+        return np.random.RandomState(random_state)
+
+    return random_state
diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 02a8358..1a3da41 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -47,6 +47,7 @@ from scipy.special import gammaln, i0
 
 from conjugate._compound_gamma import compound_gamma
 from conjugate._beta_geometric import beta_geometric
+from conjugate._random import shared_random_state
 from conjugate._typing import NUMERIC
 from conjugate.plot import (
     DirichletPlotDistMixin,
@@ -654,6 +655,7 @@ class NormalInverseGamma:
             samples from the normal distribution and optionally variance
 
         """
+        random_state = shared_random_state(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
 
         sample_beta = (
@@ -1068,6 +1070,7 @@ class NormalGamma:
             samples from the normal distribution
 
         """
+        random_state = shared_random_state(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
         sigma = (variance / self.lam) ** 0.5
         beta = stats.norm(loc=self.mu, scale=sigma).rvs(
@@ -1182,6 +1185,7 @@ class NormalWishart:
 
         """
 
+        random_state = shared_random_state(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
 
         mean = np.stack(
@@ -1267,6 +1271,7 @@ class NormalInverseWishart:
             samples from the normal distribution and optionally variance
 
         """
+        random_state = shared_random_state(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
 
         mean = np.stack(
-- 
2.43.0


From a332affeb5be3026de41cd314ead428a1f8eb55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 15/31] fix: wrong type for a union-typed prior raises the
 ValueError too

---
 conjugate/models.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index cadaf6a..fac223f 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -33,7 +33,7 @@ Below are the supported models:
 """
 
 from functools import wraps
-from typing import Callable
+from typing import Callable, get_args
 
 import numpy as np
 
@@ -70,6 +70,11 @@ from conjugate.distributions import (
 from conjugate._typing import NUMERIC
 
 
+def _type_name(expected_type) -> str:
+    members = get_args(expected_type) or (expected_type,)
+    return " | ".join(member.__name__ for member in members)
+
+
 def validate_type(func, parameter: str):
     expected_type = func.__annotations__.get(parameter, None)
 
@@ -80,7 +85,7 @@ def validate_type(func, parameter: str):
             recieved_type = type(parameter_value)
             if not isinstance(parameter_value, expected_type):
                 msg = (
-                    f"Expected {parameter} to be of type {expected_type.__name__!r}, "
+                    f"Expected {parameter} to be of type {_type_name(expected_type)!r}, "
                     f"got {recieved_type.__name__!r} instead."
                 )
                 raise ValueError(msg)
-- 
2.43.0


From 60d3bac14e41bfada3102cc9708ef1337684d1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 16/31] fix: Dirichlet with list parameters adds counts instead
 of concatenating

---
 conjugate/distributions.py | 7 ++++---
 conjugate/models.py        | 5 +++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 1a3da41..2afc573 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -161,10 +161,11 @@ class Dirichlet(DirichletPlotDistMixin):
 
     @property
     def dist(self):
-        if self.alpha.ndim == 1:
-            return stats.dirichlet(self.alpha)
+        alpha = np.asarray(self.alpha)
+        if alpha.ndim == 1:
+            return stats.dirichlet(alpha)
 
-        return VectorizedDist(self.alpha, dist=stats.dirichlet)
+        return VectorizedDist(alpha, dist=stats.dirichlet)
 
 
 @dataclass
diff --git a/conjugate/models.py b/conjugate/models.py
index fac223f..284121d 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -433,6 +433,11 @@ def geometric_beta_predictive(
 
 
 def get_dirichlet_posterior_params(alpha_prior: NUMERIC, x: NUMERIC) -> NUMERIC:
+    sequences = (list, tuple)
+    if isinstance(alpha_prior, sequences) and isinstance(x, sequences):
+        # "+" would concatenate
+        return [alpha_prior_i + x_i for alpha_prior_i, x_i in zip(alpha_prior, x)]
+
     try:
         return alpha_prior + x
     except Exception:
-- 
2.43.0


From fec1fd6d1c45cf28507dcc6693b8975b47f1fe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 17/31] fix: an invalid index raises instead of returning the
 unsliced distribution

---
 conjugate/slice.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/conjugate/slice.py b/conjugate/slice.py
index b59f841..ea5b231 100644
--- a/conjugate/slice.py
+++ b/conjugate/slice.py
@@ -9,12 +9,18 @@ class SliceMixin:
         return asdict(self)
 
     def __getitem__(self, key):
-        def take_slice(value, key):
+        new_params = {}
+        sliced, error = False, None
+        for name, value in self.params.items():
             try:
-                return value[key]
-            except Exception:
-                return value
+                new_params[name] = value[key]
+                sliced = True
+            except Exception as e:
+                new_params[name] = value
+                if isinstance(value, (list, tuple)) or getattr(value, "ndim", 0) > 0:
+                    error = e
 
-        new_params = {k: take_slice(value=v, key=key) for k, v in self.params.items()}
+        if error is not None and not sliced:
+            raise error
 
         return self.__class__(**new_params)
-- 
2.43.0


From 7cc3e5a74770564c6df77cbd474d231346879b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 18/31] fix: multivariate normal models use the supplied
 inverse everywhere

---
 conjugate/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conjugate/models.py b/conjugate/models.py
index 284121d..9456b2e 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1772,6 +1772,7 @@ def multivariate_normal_known_covariance(
         precision_0=precision_0,
         x_bar=x_bar,
         precision=precision,
+        inv=inv,
     )
 
     return MultivariateNormal(mu=mu_post, cov=inv(precision_post))
@@ -1829,6 +1830,7 @@ def multivariate_normal_known_precision(
         precision_0=precision_0,
         x_bar=x_bar,
         precision=precision,
+        inv=inv,
     )
 
     return MultivariateNormal(mu=mu_post, cov=inv(precision_post))
-- 
2.43.0


From 5889c3d588186d5cb45a06213eeb613cbbb15566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 19/31] fix: conditional plots normalise each curve on its own

---
 conjugate/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index 2a00f98..b5acc8a 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -322,7 +322,7 @@ class DiscretePlotMixin(PlotDistMixin):
         yy = func(x)
 
         if conditional:
-            yy = yy / np.sum(yy)
+            yy = yy / np.sum(yy, axis=0)
 
             prefix = (
                 "Cumulative Probability $F(X \\leq x" if cdf else "Probability $f(x"
-- 
2.43.0


From b3d93bb05c9b1a45b71169cf15a9397eb1fa9cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 20/31] fix: a colour given as one string is a colour, not a
 list of colours

---
 conjugate/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index b5acc8a..08122b7 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -178,7 +178,8 @@ class ContinuousPlotDistMixin(PlotDistMixin):
         else:
             label = None
 
-        if "color" in kwargs and isinstance(kwargs["color"], Iterable):
+        color = kwargs.get("color")
+        if isinstance(color, Iterable) and not isinstance(color, str):
             ax.set_prop_cycle(color=kwargs.pop("color"))
 
         ax.plot(x, yy, label=label, **kwargs)
@@ -340,7 +341,8 @@ class DiscretePlotMixin(PlotDistMixin):
         else:
             label = None
 
-        if "color" in kwargs and isinstance(kwargs["color"], Iterable):
+        color = kwargs.get("color")
+        if isinstance(color, Iterable) and not isinstance(color, str):
             ax.set_prop_cycle(color=kwargs.pop("color"))
 
         ax.plot(x, yy, mark, label=label, **kwargs)
-- 
2.43.0


From f510d3d20ee2dbdd580f4c65691a554608638265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 21/31] fix: a label function also labels a single curve

---
 conjugate/plot.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index 08122b7..352d84a 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -47,14 +47,11 @@ def resolve_label(label: LABEL_INPUT, yy: np.ndarray):
 
     https://stackoverflow.com/questions/73662931/matplotlib-plot-a-numpy-array-as-many-lines-with-a-single-label
     """
-    if yy.ndim == 1:
-        return label
-
-    ncols = yy.shape[1]
+    ncols = 1 if yy.ndim == 1 else yy.shape[1]
     if ncols != 1:
         return label_to_iterable(label, ncols)
 
-    return label
+    return label(0) if callable(label) else label
 
 
 class PlotDistMixin:
-- 
2.43.0


From 4fce196e325f96cc6de1fbb8759c1559db48609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 22/31] fix: exponential_gamma adds the count to the shape and
 the total to the rate

---
 conjugate/models.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index 9456b2e..68045d8 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -626,8 +626,17 @@ def poisson_gamma_predictive(
     return NegativeBinomial(n=distribution.alpha, p=p)
 
 
-# Just happen to be the same as above
-get_exponential_gamma_posterior_params = get_poisson_gamma_posterior_params
+def get_exponential_gamma_posterior_params(
+    *,
+    alpha: NUMERIC,
+    beta: NUMERIC,
+    x_total: NUMERIC,
+    n: NUMERIC,
+) -> tuple[NUMERIC, NUMERIC]:
+    alpha_post = alpha + n
+    beta_post = beta + x_total
+
+    return alpha_post, beta_post
 
 
 @validate_prior_type
-- 
2.43.0


From f89f9d49ddfeb104d5117d7d31ccb6204d4921f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 23/31] fix: an empty selection of a distribution with a trial
 count is allowed

---
 conjugate/distributions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 2afc573..bbbb9d1 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -118,7 +118,7 @@ class Binomial(DiscretePlotMixin, SliceMixin):
 
     def __post_init__(self):
         if isinstance(self.n, np.ndarray):
-            self.max_value = self.n.max()
+            self.max_value = self.n.max(initial=0)
         else:
             self.max_value = self.n
 
@@ -294,7 +294,7 @@ class Hypergeometric(DiscretePlotMixin, SliceMixin):
 
     def __post_init__(self) -> None:
         if isinstance(self.N, np.ndarray):
-            self.max_value = self.N.max()
+            self.max_value = self.N.max(initial=0)
         else:
             self.max_value = self.N
 
@@ -346,7 +346,7 @@ class BetaBinomial(DiscretePlotMixin, SliceMixin):
 
     def __post_init__(self):
         if isinstance(self.n, np.ndarray):
-            self.max_value = self.n.max()
+            self.max_value = self.n.max(initial=0)
         else:
             self.max_value = self.n
 
@@ -372,7 +372,7 @@ class BetaNegativeBinomial(DiscretePlotMixin, SliceMixin):
 
     def __post_init__(self):
         if isinstance(self.n, np.ndarray):
-            self.max_value = self.n.max()
+            self.max_value = self.n.max(initial=0)
         else:
             self.max_value = self.n
 
-- 
2.43.0


From 53865a77e6b49a84b46e4de9fe440712ca18ac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 24/31] fix: CompoundGamma draws have the requested shape for a
 size of one

---
 conjugate/_compound_gamma.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conjugate/_compound_gamma.py b/conjugate/_compound_gamma.py
index 8ca2f81..818e244 100644
--- a/conjugate/_compound_gamma.py
+++ b/conjugate/_compound_gamma.py
@@ -38,7 +38,9 @@ class compound_gamma:
 
         random_state = shared_random_state(random_state)
         random_b = gamma.rvs(b, scale=1 / q, size=size, random_state=random_state)
-        return gamma.rvs(a, scale=1 / random_b, random_state=random_state)
+        return gamma.rvs(
+            a, scale=1 / random_b, size=size, random_state=random_state
+        )
 
     def pdf(self, x):
         return compound_gamma_pdf(x, self.a, self.b, self.q)
-- 
2.43.0


From 075beb20e0ecd12b885a15a68dc8d2f415ca61c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 25/31] fix: zero requested draws of a compound distribution
 are zero draws

---
 conjugate/_beta_geometric.py | 2 +-
 conjugate/_compound_gamma.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/conjugate/_beta_geometric.py b/conjugate/_beta_geometric.py
index 5311f31..a89cf66 100644
--- a/conjugate/_beta_geometric.py
+++ b/conjugate/_beta_geometric.py
@@ -38,7 +38,7 @@ class beta_geometric:
         random_state: np.random.Generator | None = None,
     ):
         a, b = np.broadcast_arrays(self.a, self.b)
-        size = np.broadcast_shapes(a.shape, b.shape, size or ())
+        size = np.broadcast_shapes(a.shape, b.shape, () if size is None else size)
 
         random_state = shared_random_state(random_state)
         p = stats.beta.rvs(a, b, size=size, random_state=random_state)
diff --git a/conjugate/_compound_gamma.py b/conjugate/_compound_gamma.py
index 818e244..27af90f 100644
--- a/conjugate/_compound_gamma.py
+++ b/conjugate/_compound_gamma.py
@@ -34,7 +34,7 @@ class compound_gamma:
         random_state: np.random.Generator | None = None,
     ):
         a, b, q = np.broadcast_arrays(self.a, self.b, self.q)
-        size = np.broadcast_shapes(a.shape, b.shape, q.shape, size or ())
+        size = np.broadcast_shapes(a.shape, b.shape, q.shape, () if size is None else size)
 
         random_state = shared_random_state(random_state)
         random_b = gamma.rvs(b, scale=1 / q, size=size, random_state=random_state)
-- 
2.43.0


From 843e27878b1b2fc69c765fc3577791b877c9fa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 26/31] fix: an array times a distribution is the same as the
 distribution times the array

---
 conjugate/distributions.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index bbbb9d1..18751c4 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -219,6 +219,9 @@ class Exponential(ContinuousPlotDistMixin, SliceMixin):
     def dist(self):
         return stats.expon(scale=1 / self.lam)
 
+    # an array on the left leaves the multiplication to __rmul__
+    __array_ufunc__ = None
+
     def __mul__(self, other):
         return Gamma(alpha=other, beta=self.lam)
 
@@ -248,6 +251,9 @@ class Gamma(ContinuousPlotDistMixin, SliceMixin):
     def dist(self):
         return stats.gamma(a=self.alpha, scale=1 / self.beta)
 
+    # an array on the left leaves the multiplication to __rmul__
+    __array_ufunc__ = None
+
     def __mul__(self, other):
         return Gamma(alpha=self.alpha * other, beta=self.beta)
 
@@ -271,6 +277,9 @@ class NegativeBinomial(DiscretePlotMixin, SliceMixin):
     def dist(self):
         return stats.nbinom(n=self.n, p=self.p)
 
+    # an array on the left leaves the multiplication to __rmul__
+    __array_ufunc__ = None
+
     def __mul__(self, other):
         return NegativeBinomial(n=self.n * other, p=self.p)
 
@@ -318,6 +327,9 @@ class Poisson(DiscretePlotMixin, SliceMixin):
     def dist(self):
         return stats.poisson(self.lam)
 
+    # an array on the left leaves the multiplication to __rmul__
+    __array_ufunc__ = None
+
     def __mul__(self, other) -> "Poisson":
         return Poisson(lam=self.lam * other)
 
@@ -456,6 +468,9 @@ class Normal(ContinuousPlotDistMixin, SliceMixin):
         """Alternative constructor from mean and precision."""
         return cls(mu=mean, sigma=precision**-0.5)
 
+    # an array on the left leaves the multiplication to __rmul__
+    __array_ufunc__ = None
+
     def __mul__(self, other):
         sigma = ((self.sigma**2) * other) ** 0.5
         return Normal(mu=self.mu * other, sigma=sigma)
-- 
2.43.0


From 551aaeee4fc545b277d1ccfec21cc73a875cc043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:18 +0000
Subject: [PATCH 27/31] fix: default plot bounds of a Uniform with vector
 parameters

---
 conjugate/distributions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 18751c4..c2a7b37 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -516,8 +516,11 @@ class Uniform(ContinuousPlotDistMixin, SliceMixin):
     high: NUMERIC
 
     def __post_init__(self):
-        self.min_value = self.low
-        self.max_value = self.high
+        self.min_value, self.max_value = self.low, self.high
+        if isinstance(self.low, np.ndarray) and self.low.size:
+            self.min_value = self.low.min()
+        if isinstance(self.high, np.ndarray) and self.high.size:
+            self.max_value = self.high.max()
 
     @property
     def dist(self):
-- 
2.43.0


From d6ab82ed1adf1f710e3e3051c1e76fa0a6cd36b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:33 +0000
Subject: [PATCH 28/31] fix: colour lists for plots may hold colour-cycle
 references

---
 conjugate/plot.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index 352d84a..6038c82 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -5,6 +5,7 @@ from typing import Protocol
 
 import matplotlib.pyplot as plt
 from matplotlib.axes import Axes
+from matplotlib.colors import is_color_like, to_rgba
 from matplotlib.projections.polar import PolarAxes
 
 import numpy as np
@@ -54,6 +55,14 @@ def resolve_label(label: LABEL_INPUT, yy: np.ndarray):
     return label(0) if callable(label) else label
 
 
+def set_color_cycle(ax: Axes, kwargs: dict) -> None:
+    """Move several colors out of kwargs, to be used by the next curves in order."""
+    color = kwargs.get("color")
+    if isinstance(color, Iterable) and not is_color_like(color):
+        colors = [to_rgba(value) for value in kwargs.pop("color")]
+        ax.set_prop_cycle(color=colors)
+
+
 class PlotDistMixin:
     """Base mixin in order to support plotting. Requires the dist attribute of the scipy distribution."""
 
@@ -175,9 +184,7 @@ class ContinuousPlotDistMixin(PlotDistMixin):
         else:
             label = None
 
-        color = kwargs.get("color")
-        if isinstance(color, Iterable) and not isinstance(color, str):
-            ax.set_prop_cycle(color=kwargs.pop("color"))
+        set_color_cycle(ax, kwargs)
 
         ax.plot(x, yy, label=label, **kwargs)
         self._setup_labels(ax=ax, cdf=cdf)
@@ -338,9 +345,7 @@ class DiscretePlotMixin(PlotDistMixin):
         else:
             label = None
 
-        color = kwargs.get("color")
-        if isinstance(color, Iterable) and not isinstance(color, str):
-            ax.set_prop_cycle(color=kwargs.pop("color"))
+        set_color_cycle(ax, kwargs)
 
         ax.plot(x, yy, mark, label=label, **kwargs)
 
-- 
2.43.0


From 7a23dd06d91db065433abd74cf32607ff4532031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:39 +0000
Subject: [PATCH 29/31] fix: colour lists for the curves of a Dirichlet plot

---
 conjugate/plot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index 6038c82..c79c8aa 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -223,6 +223,8 @@ class DirichletPlotDistMixin(ContinuousPlotDistMixin):
             kwargs.pop("label", None), distribution_samples.shape[1]
         )
 
+        set_color_cycle(ax, kwargs)
+
         for x, label in zip_longest(distribution_samples.T, labels):
             kde = gaussian_kde(x)
 
-- 
2.43.0


From b566da8f8b226a1483b951c2922d7e3057a0f160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 30/31] fix: leave the documentation examples as they were

---
 docs/examples/sql.md      | 4 ++--
 docs/examples/thompson.md | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/docs/examples/sql.md b/docs/examples/sql.md
index da26e45..0f20ea6 100644
--- a/docs/examples/sql.md
+++ b/docs/examples/sql.md
@@ -73,8 +73,8 @@ Which results in this query:
 
 ```sql
 SELECT "group",
-       (0.0+SUM("sales"))/(0.1+COUNT(*)) "mu",
-       POW((1+0.5*(0.0+SUM(POW("sales", 2))-POW((0.0+SUM("sales"))/(0.1+COUNT(*)), 2)*(0.1+COUNT(*))))*(0.1+COUNT(*)+1)/((0.1+COUNT(*))*(0.1+COUNT(*)/2)), 0.5) "sigma",
+       (0.0+COUNT(*)*SUM("sales")/COUNT(*))/(0.1+COUNT(*)) "mu",
+       POW((1+0.5*(0.0+SUM(POW("sales", 2))-POW((0.0+COUNT(*)*SUM("sales")/COUNT(*))/(0.1+COUNT(*)), 2)*(0.1+COUNT(*))))*(0.1+COUNT(*)+1)/((0.1+COUNT(*))*(0.1+COUNT(*)/2)), 0.5) "sigma",
        2*(0.1+COUNT(*)/2) "nu"
 FROM "events"
 GROUP BY "group"
diff --git a/docs/examples/thompson.md b/docs/examples/thompson.md
index 5a6f5d1..114121c 100644
--- a/docs/examples/thompson.md
+++ b/docs/examples/thompson.md
@@ -28,7 +28,7 @@ import matplotlib.pyplot as plt
 lam = np.array([0.5, 0.55, 0.6, 0.8, 1])
 n_groups = len(lam)
 
-true_dist = Exponential(lam=1 / lam)
+true_dist = Exponential(lam=lam)
 ```
 
 We will create some helper functions to abstract:
-- 
2.43.0


From 8b1c9834632be2d280670c95fecb2a7a75122990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:44 +0000
Subject: [PATCH 31/31] fix: sample one-dimensional normal-Wishart
 distributions

---
 conjugate/distributions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index c2a7b37..0864402 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -1179,7 +1179,12 @@ class NormalWishart:
 
         """
 
-        variance = inv(self.wishart.dist.rvs(size=size, random_state=random_state))
+        precision = self.wishart.dist.rvs(size=size, random_state=random_state)
+        if np.shape(self.W) == (1, 1):
+            # scipy drops the axes of length one
+            precision = np.reshape(precision, (1, 1) if size == 1 else (size, 1, 1))
+
+        variance = inv(precision)
 
         if size == 1:
             variance = variance[None, ...]
-- 
2.43.0

