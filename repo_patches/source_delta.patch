From d1c40c69c11ad55d89ea5a03f40f117a6ea2ab3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 01/31] fix: exponential predictive is Lomax with shape alpha
 and scale beta

---
 conjugate/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index f9de221..f218ec4 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -692,7 +692,7 @@ def exponential_gamma_predictive(*, distribution: Gamma) -> Lomax:
 
         ![exponential_gamma_predictive](./images/docstrings/exponential_gamma_predictive.png)
     """
-    return Lomax(alpha=distribution.beta, lam=distribution.alpha)
+    return Lomax(alpha=distribution.alpha, lam=distribution.beta)
 
 
 @validate_prior_type
-- 
2.43.0


From 98d863bc89aff8ad13823bac06f232441dc2b3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 02/31] fix: poisson predictive for n trials shares one rate
 across the trials

---
 conjugate/models.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index f218ec4..206984b 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -611,10 +611,9 @@ def poisson_gamma_predictive(
         NegativeBinomial distribution related to predictive
 
     """
-    n = n * distribution.alpha
-    p = distribution.beta / (1 + distribution.beta)
+    p = distribution.beta / (n + distribution.beta)
 
-    return NegativeBinomial(n=n, p=p)
+    return NegativeBinomial(n=distribution.alpha, p=p)
 
 
 # Just happen to be the same as above
-- 
2.43.0


From f375a44d232c2b5434ed46f283c31ded4efd80a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 03/31] fix: beta geometric pmf is shifted by one and non zero
 below the support

---
 conjugate/_beta_geometric.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/conjugate/_beta_geometric.py b/conjugate/_beta_geometric.py
index d40b962..c893802 100644
--- a/conjugate/_beta_geometric.py
+++ b/conjugate/_beta_geometric.py
@@ -9,10 +9,14 @@ from scipy.special import beta
 def beta_geometric_pmf(x, a, b, one_start: bool = True):
     x, a, b = np.broadcast_arrays(x, a, b)
 
-    if not one_start:
-        x = x + 1
+    # Number of failures before the first success
+    if one_start:
+        x = x - 1
 
-    return beta(a + 1, x + b) / beta(a, b)
+    # x is never negative; the inner where keeps the beta function in its domain
+    pmf = beta(a + 1, np.where(x < 0, 0, x) + b) / beta(a, b)
+
+    return np.where(x < 0, 0.0, pmf)
 
 
 class beta_geometric:
-- 
2.43.0


From 3fdaa782dec50fb34a63da5870de1246182783f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 04/31] fix: Exponential.lam is a rate

---
 conjugate/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 9952416..48f90f3 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -215,10 +215,10 @@ class Exponential(ContinuousPlotDistMixin, SliceMixin):
 
     @property
     def dist(self):
-        return stats.expon(scale=self.lam)
+        return stats.expon(scale=1 / self.lam)
 
     def __mul__(self, other):
-        return Gamma(alpha=other, beta=1 / self.lam)
+        return Gamma(alpha=other, beta=self.lam)
 
     __rmul__ = __mul__
 
-- 
2.43.0


From 84a3f21e1e17d2cb0f3e092f7f8e1afad21a4c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 05/31] fix: LogNormal.mu is the mean of the log, not a shift

---
 conjugate/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 48f90f3..0626e58 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -1304,7 +1304,7 @@ class LogNormal(ContinuousPlotDistMixin, SliceMixin):
 
     @property
     def dist(self):
-        return stats.lognorm(s=self.sigma, loc=self.mu)
+        return stats.lognorm(s=self.sigma, scale=np.exp(self.mu))
 
 
 @dataclass
-- 
2.43.0


From 77bd61c00bec38d4dc533579fbaf5127c55ee172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 06/31] fix: normal update with no observations returns the
 prior instead of nan

---
 conjugate/models.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index 206984b..4a303e6 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1223,10 +1223,8 @@ def _normal(
     alpha: NUMERIC,
     beta: NUMERIC,
 ) -> tuple[NUMERIC, NUMERIC, NUMERIC, NUMERIC]:
-    x_mean = x_total / n
-
     nu_post = nu + n
-    mu_post = ((nu * mu_0) + (n * x_mean)) / nu_post
+    mu_post = ((nu * mu_0) + x_total) / nu_post
 
     alpha_post = alpha + (n / 2)
     beta_post = beta + 0.5 * ((mu_0**2) * nu + x2_total - (mu_post**2) * nu_post)
-- 
2.43.0


From 310bf0cb5a10aed4218b4d1d58a92b72e711d2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:27 +0000
Subject: [PATCH 07/31] fix: beta geometric pmf is nan after some hundred
 trials

---
 conjugate/_beta_geometric.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/conjugate/_beta_geometric.py b/conjugate/_beta_geometric.py
index c893802..5f204f4 100644
--- a/conjugate/_beta_geometric.py
+++ b/conjugate/_beta_geometric.py
@@ -3,7 +3,7 @@
 import numpy as np
 
 from scipy import stats
-from scipy.special import beta
+from scipy.special import betaln
 
 
 def beta_geometric_pmf(x, a, b, one_start: bool = True):
@@ -13,10 +13,10 @@ def beta_geometric_pmf(x, a, b, one_start: bool = True):
     if one_start:
         x = x - 1
 
-    # x is never negative; the inner where keeps the beta function in its domain
-    pmf = beta(a + 1, np.where(x < 0, 0, x) + b) / beta(a, b)
+    # Log scale because the beta function underflows after some hundred trials
+    pmf = np.exp(betaln(a + 1, np.where(x < 0, 0, x) + b) - betaln(a, b))
 
-    return np.where(x < 0, 0.0, pmf)
+    return np.where(x < 0, 0.0, pmf)[()]
 
 
 class beta_geometric:
-- 
2.43.0


From 8bc1afec2fc1a6113a61292330cf46fa23510df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:27 +0000
Subject: [PATCH 08/31] fix: von mises posterior with known concentration and
 its log likelihood

---
 conjugate/distributions.py | 2 +-
 conjugate/models.py        | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 0626e58..30fccae 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -919,7 +919,7 @@ class VonMisesKnownConcentration:
             log likelihood
 
         """
-        return self.a + cos(mu - self.b) - ln(i0(self.a))
+        return self.a * cos(mu - self.b) - ln(i0(self.a))
 
 
 @dataclass
diff --git a/conjugate/models.py b/conjugate/models.py
index 4a303e6..cadaf6a 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1680,10 +1680,11 @@ def von_mises_known_concentration(
         VonMisesKnownConcentration posterior distribution
 
     """
-    sin_total_post = prior.a * sin(prior.b) + sin_total
-    a_post = kappa * sin_total_post
+    sin_total_post = prior.a * sin(prior.b) + kappa * sin_total
+    cos_total_post = prior.a * cos(prior.b) + kappa * cos_total
 
-    b_post = arctan2(sin_total_post, prior.a * cos(prior.b) + cos_total)
+    a_post = (sin_total_post**2 + cos_total_post**2) ** 0.5
+    b_post = arctan2(sin_total_post, cos_total_post)
 
     return VonMisesKnownConcentration(a=a_post, b=b_post)
 
-- 
2.43.0


From 7f16f911887c9c925709f92a0c011137e8052340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:27 +0000
Subject: [PATCH 09/31] fix: list inputs of the dirichlet models were
 concatenated

---
 conjugate/distributions.py | 7 ++++---
 conjugate/models.py        | 6 +++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 30fccae..9cf87b6 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -160,10 +160,11 @@ class Dirichlet(DirichletPlotDistMixin):
 
     @property
     def dist(self):
-        if self.alpha.ndim == 1:
-            return stats.dirichlet(self.alpha)
+        alpha = np.asarray(self.alpha)
+        if alpha.ndim == 1:
+            return stats.dirichlet(alpha)
 
-        return VectorizedDist(self.alpha, dist=stats.dirichlet)
+        return VectorizedDist(alpha, dist=stats.dirichlet)
 
 
 @dataclass
diff --git a/conjugate/models.py b/conjugate/models.py
index cadaf6a..f74ffdc 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -428,9 +428,13 @@ def geometric_beta_predictive(
 
 
 def get_dirichlet_posterior_params(alpha_prior: NUMERIC, x: NUMERIC) -> NUMERIC:
+    if isinstance(alpha_prior, (list, tuple)) and isinstance(x, (list, tuple)):
+        # Adding would concatenate
+        return [alpha_prior_i + x_i for alpha_prior_i, x_i in zip(alpha_prior, x)]
+
     try:
         return alpha_prior + x
-    except Exception:
+    except TypeError:
         return [alpha_prior_i + x_i for alpha_prior_i, x_i in zip(alpha_prior, x)]
 
 
-- 
2.43.0


From 9e28acb16f509869f67c394a10826f478911e120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:27 +0000
Subject: [PATCH 10/31] fix: sampled variances were divided by the prior sample
 size of the mean

---
 conjugate/distributions.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 9cf87b6..a6e1000 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -1030,7 +1030,7 @@ class NormalGamma:
             samples from the inverse gamma distribution
 
         """
-        precision = self.lam * self.gamma.dist.rvs(size=size, random_state=random_state)
+        precision = self.gamma.dist.rvs(size=size, random_state=random_state)
 
         return 1 / precision
 
@@ -1070,7 +1070,7 @@ class NormalGamma:
 
         """
         variance = self.sample_variance(size=size, random_state=random_state)
-        sigma = variance**0.5
+        sigma = (variance / self.lam) ** 0.5
         beta = stats.norm(loc=self.mu, scale=sigma).rvs(
             size=size, random_state=random_state
         )
@@ -1158,9 +1158,7 @@ class NormalWishart:
 
         """
 
-        variance = inv(
-            self.lam * self.wishart.dist.rvs(size=size, random_state=random_state)
-        )
+        variance = inv(self.wishart.dist.rvs(size=size, random_state=random_state))
 
         if size == 1:
             variance = variance[None, ...]
@@ -1193,7 +1191,7 @@ class NormalWishart:
                     size=1,
                     random_state=random_state,
                 )
-                for cov in variance
+                for cov in variance / self.lam
             ]
         )
 
@@ -1247,10 +1245,7 @@ class NormalInverseWishart:
             samples from the inverse wishart distribution
 
         """
-        variance = (
-            self.inverse_wishart.dist.rvs(size=size, random_state=random_state)
-            / self.kappa
-        )
+        variance = self.inverse_wishart.dist.rvs(size=size, random_state=random_state)
         if size == 1:
             variance = variance[None, ...]
 
@@ -1280,7 +1275,7 @@ class NormalInverseWishart:
                 stats.multivariate_normal(self.mu, cov=cov).rvs(
                     size=1, random_state=random_state
                 )
-                for cov in variance
+                for cov in variance / self.kappa
             ]
         )
 
-- 
2.43.0


From 41558301ceb766c425156d7ae7929c5050452fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:11 +0000
Subject: [PATCH 11/31] fix: integer seeds restarted the stream between the
 draws of one sample

---
 conjugate/_beta_geometric.py |  3 +++
 conjugate/_compound_gamma.py |  3 +++
 conjugate/_random.py         | 17 +++++++++++++++++
 conjugate/distributions.py   | 16 +++++++++++++---
 4 files changed, 36 insertions(+), 3 deletions(-)
 create mode 100644 conjugate/_random.py

diff --git a/conjugate/_beta_geometric.py b/conjugate/_beta_geometric.py
index 5f204f4..6b543c5 100644
--- a/conjugate/_beta_geometric.py
+++ b/conjugate/_beta_geometric.py
@@ -5,6 +5,8 @@ import numpy as np
 from scipy import stats
 from scipy.special import betaln
 
+from conjugate._random import as_stream
+
 
 def beta_geometric_pmf(x, a, b, one_start: bool = True):
     x, a, b = np.broadcast_arrays(x, a, b)
@@ -39,6 +41,7 @@ class beta_geometric:
     ):
         a, b = np.broadcast_arrays(self.a, self.b)
         size = np.broadcast_shapes(a.shape, b.shape, size or ())
+        random_state = as_stream(random_state)
 
         p = stats.beta.rvs(a, b, size=size, random_state=random_state)
         result = stats.geom.rvs(p=p, size=size, random_state=random_state)
diff --git a/conjugate/_compound_gamma.py b/conjugate/_compound_gamma.py
index 7eab08d..a656578 100644
--- a/conjugate/_compound_gamma.py
+++ b/conjugate/_compound_gamma.py
@@ -3,6 +3,8 @@ import numpy as np
 from scipy.special import beta
 from scipy.stats import gamma
 
+from conjugate._random import as_stream
+
 
 def compound_gamma_pdf(x, a, b, q):
     return (x / q) ** (a - 1) * (1 + (x / q)) ** (-a - b) / (q * beta(a, b))
@@ -27,6 +29,7 @@ class compound_gamma:
     ):
         a, b, q = np.broadcast_arrays(self.a, self.b, self.q)
         size = np.broadcast_shapes(a.shape, b.shape, q.shape, size or ())
+        random_state = as_stream(random_state)
 
         random_b = gamma.rvs(b, scale=1 / q, size=size, random_state=random_state)
         return gamma.rvs(a, scale=1 / random_b, random_state=random_state)
diff --git a/conjugate/_random.py b/conjugate/_random.py
new file mode 100644
index 0000000..0e6f35c
--- /dev/null
+++ b/conjugate/_random.py
@@ -0,0 +1,17 @@
+"""Random state handling of the samplers which draw more than once."""
+
+from numbers import Integral
+
+import numpy as np
+
+
+def as_stream(random_state):
+    """Turn an integer seed into one stream to be shared by successive draws.
+
+    Passing the same integer to each draw would restart the stream and make the
+    draws copies of each other.
+    """
+    if isinstance(random_state, Integral):
+        return np.random.RandomState(random_state)
+
+    return random_state
diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index a6e1000..528a15f 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -47,6 +47,7 @@ from scipy.special import gammaln, i0
 
 from conjugate._compound_gamma import compound_gamma
 from conjugate._beta_geometric import beta_geometric
+from conjugate._random import as_stream
 from conjugate._typing import NUMERIC
 from conjugate.plot import (
     DirichletPlotDistMixin,
@@ -133,8 +134,14 @@ class VectorizedDist:
         self.params = params
         self.dist = dist
 
-    def rvs(self, size: int = 1) -> np.ndarray:
-        return np.stack([self.dist(param).rvs(size=size) for param in self.params])
+    def rvs(self, size: int = 1, random_state=None) -> np.ndarray:
+        random_state = as_stream(random_state)
+        return np.stack(
+            [
+                self.dist(param).rvs(size=size, random_state=random_state)
+                for param in self.params
+            ]
+        )
 
     def mean(self) -> np.ndarray:
         return np.stack([self.dist(param).mean() for param in self.params])
@@ -655,6 +662,7 @@ class NormalInverseGamma:
             samples from the normal distribution and optionally variance
 
         """
+        random_state = as_stream(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
 
         sample_beta = (
@@ -1069,6 +1077,7 @@ class NormalGamma:
             samples from the normal distribution
 
         """
+        random_state = as_stream(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
         sigma = (variance / self.lam) ** 0.5
         beta = stats.norm(loc=self.mu, scale=sigma).rvs(
@@ -1182,7 +1191,7 @@ class NormalWishart:
             samples from the normal distribution and optionally variance
 
         """
-
+        random_state = as_stream(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
 
         mean = np.stack(
@@ -1268,6 +1277,7 @@ class NormalInverseWishart:
             samples from the normal distribution and optionally variance
 
         """
+        random_state = as_stream(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
 
         mean = np.stack(
-- 
2.43.0


From 212348cb88de3d65d8d41f369009b7d51a30ed84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:11 +0000
Subject: [PATCH 12/31] fix: indexing swallowed failures unrelated to the key

---
 conjugate/slice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/slice.py b/conjugate/slice.py
index b59f841..bd5ac58 100644
--- a/conjugate/slice.py
+++ b/conjugate/slice.py
@@ -12,7 +12,7 @@ class SliceMixin:
         def take_slice(value, key):
             try:
                 return value[key]
-            except Exception:
+            except (TypeError, IndexError, KeyError):
                 return value
 
         new_params = {k: take_slice(value=v, key=key) for k, v in self.params.items()}
-- 
2.43.0


From f16e93089a7698f3a7c9444ba70781687fabbc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:11 +0000
Subject: [PATCH 13/31] fix: wrong type for models accepting several families
 raised AttributeError

---
 conjugate/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index f74ffdc..ce1fff1 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -79,8 +79,9 @@ def validate_type(func, parameter: str):
             parameter_value = kwargs.get(parameter, None)
             recieved_type = type(parameter_value)
             if not isinstance(parameter_value, expected_type):
+                expected_name = getattr(expected_type, "__name__", str(expected_type))
                 msg = (
-                    f"Expected {parameter} to be of type {expected_type.__name__!r}, "
+                    f"Expected {parameter} to be of type {expected_name!r}, "
                     f"got {recieved_type.__name__!r} instead."
                 )
                 raise ValueError(msg)
-- 
2.43.0


From af6d5f8e498e55df44416b1dd7774ec134795840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:11 +0000
Subject: [PATCH 14/31] fix: curves plotted after the first one were cut off by
 its vertical limits

---
 conjugate/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index 2a00f98..9eccf3b 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -183,7 +183,7 @@ class ContinuousPlotDistMixin(PlotDistMixin):
 
         ax.plot(x, yy, label=label, **kwargs)
         self._setup_labels(ax=ax, cdf=cdf)
-        ax.set_ylim(0, None)
+        ax.set_ylim(0, None, auto=None)
         return ax
 
 
@@ -353,5 +353,5 @@ class DiscretePlotMixin(PlotDistMixin):
 
         ax.set_xlabel("Domain")
         ax.set_ylabel(ylabel)
-        ax.set_ylim(0, None)
+        ax.set_ylim(0, None, auto=None)
         return ax
-- 
2.43.0


From 2ffa842625933157ab08b81b4333be8db9cacefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 15/31] fix: a single color name replaced the color cycle of
 the axes or failed

---
 conjugate/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index 9eccf3b..72e1b77 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -178,7 +178,8 @@ class ContinuousPlotDistMixin(PlotDistMixin):
         else:
             label = None
 
-        if "color" in kwargs and isinstance(kwargs["color"], Iterable):
+        color = kwargs.get("color")
+        if isinstance(color, Iterable) and not isinstance(color, str):
             ax.set_prop_cycle(color=kwargs.pop("color"))
 
         ax.plot(x, yy, label=label, **kwargs)
@@ -340,7 +341,8 @@ class DiscretePlotMixin(PlotDistMixin):
         else:
             label = None
 
-        if "color" in kwargs and isinstance(kwargs["color"], Iterable):
+        color = kwargs.get("color")
+        if isinstance(color, Iterable) and not isinstance(color, str):
             ax.set_prop_cycle(color=kwargs.pop("color"))
 
         ax.plot(x, yy, mark, label=label, **kwargs)
-- 
2.43.0


From 3dca09e45f5c7a16e0b44ef7a89feb5a3f6b8246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 16/31] fix: conditional probabilities were normalised over all
 distributions together

---
 conjugate/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index 72e1b77..4c04d67 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -323,7 +323,7 @@ class DiscretePlotMixin(PlotDistMixin):
         yy = func(x)
 
         if conditional:
-            yy = yy / np.sum(yy)
+            yy = yy / np.sum(yy, axis=0)
 
             prefix = (
                 "Cumulative Probability $F(X \\leq x" if cdf else "Probability $f(x"
-- 
2.43.0


From eee1e7055604c0aa182aa062f39b8e6be0526fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 17/31] fix: Uniform extended beyond its upper bound

---
 conjugate/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 528a15f..ba9dd2d 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -512,7 +512,7 @@ class Uniform(ContinuousPlotDistMixin, SliceMixin):
 
     @property
     def dist(self):
-        return stats.uniform(self.low, self.high)
+        return stats.uniform(loc=self.low, scale=self.high - self.low)
 
 
 @dataclass
-- 
2.43.0


From de6ebf960d4486e79eae1e923faa46bc46d8c7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 18/31] fix: component of a multivariate student t used the
 squared scale

---
 conjugate/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index ba9dd2d..85ce122 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -717,7 +717,9 @@ class MultivariateStudentT:
 
     def __getitem__(self, key):
         if isinstance(key, int):
-            return StudentT(mu=self.mu[key], sigma=self.sigma[key, key], nu=self.nu)
+            return StudentT(
+                mu=self.mu[key], sigma=self.sigma[key, key] ** 0.5, nu=self.nu
+            )
 
         return MultivariateStudentT(
             mu=self.mu[key], sigma=self.sigma[key][:, key], nu=self.nu
-- 
2.43.0


From 570a8b76c59f7cb398d3a892d5daad146916ccb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 19/31] fix: multivariate normal update with no observations is
 nan

---
 conjugate/models.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index ce1fff1..b8cbbe2 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1940,19 +1940,19 @@ def multivariate_normal(
         ```
     """
     n = X.shape[0]
-    X_mean = X.mean(axis=0)
-    C = (X - X_mean).T @ (X - X_mean)
-
-    mu_post = (prior.mu * prior.kappa + n * X_mean) / (prior.kappa + n)
 
     kappa_post = prior.kappa + n
     nu_post = prior.nu + n
 
-    mean_difference = X_mean - prior.mu
+    # In terms of the posterior mean so that X can have no rows
+    mu_post = (prior.mu * prior.kappa + X.sum(axis=0)) / kappa_post
+
+    deviation = X - mu_post
+    mean_difference = mu_post - prior.mu
     psi_post = (
         prior.psi
-        + C
-        + outer(mean_difference, mean_difference) * n * prior.kappa / kappa_post
+        + deviation.T @ deviation
+        + outer(mean_difference, mean_difference) * prior.kappa
     )
 
     return NormalInverseWishart(
-- 
2.43.0


From 3d8ff99432cec17da11a20158a9b36c409e0e021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 20/31] fix: exponential posterior swapped the number and the
 total of the observations

---
 conjugate/models.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index b8cbbe2..dd46114 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -621,8 +621,17 @@ def poisson_gamma_predictive(
     return NegativeBinomial(n=distribution.alpha, p=p)
 
 
-# Just happen to be the same as above
-get_exponential_gamma_posterior_params = get_poisson_gamma_posterior_params
+def get_exponential_gamma_posterior_params(
+    *,
+    alpha: NUMERIC,
+    beta: NUMERIC,
+    x_total: NUMERIC,
+    n: NUMERIC,
+) -> tuple[NUMERIC, NUMERIC]:
+    alpha_post = alpha + n
+    beta_post = beta + x_total
+
+    return alpha_post, beta_post
 
 
 @validate_prior_type
-- 
2.43.0


From cfee56fa6e17821b0bdc825fca24f405b6962e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 21/31] fix: component of a multivariate distribution by a
 numpy integer raised IndexError

---
 conjugate/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 85ce122..dc0a486 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -487,7 +487,7 @@ class MultivariateNormal:
         return stats.multivariate_normal(mean=self.mu, cov=self.cov)
 
     def __getitem__(self, key):
-        if isinstance(key, int):
+        if isinstance(key, (int, np.integer)):
             return Normal(mu=self.mu[key], sigma=self.cov[key, key] ** 0.5)
 
         return MultivariateNormal(mu=self.mu[key], cov=self.cov[key][:, key])
@@ -716,7 +716,7 @@ class MultivariateStudentT:
         return stats.multivariate_t(loc=self.mu, shape=self.sigma, df=self.nu)
 
     def __getitem__(self, key):
-        if isinstance(key, int):
+        if isinstance(key, (int, np.integer)):
             return StudentT(
                 mu=self.mu[key], sigma=self.sigma[key, key] ** 0.5, nu=self.nu
             )
-- 
2.43.0


From a226bf2380c72cca8dd7dbef953acf2ef8cf42a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 22/31] fix: vectorised Uniform could not be plotted over its
 own bounds

---
 conjugate/distributions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index dc0a486..e8f32ca 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -507,8 +507,12 @@ class Uniform(ContinuousPlotDistMixin, SliceMixin):
     high: NUMERIC
 
     def __post_init__(self):
-        self.min_value = self.low
-        self.max_value = self.high
+        self.min_value = (
+            self.low.min() if isinstance(self.low, np.ndarray) else self.low
+        )
+        self.max_value = (
+            self.high.max() if isinstance(self.high, np.ndarray) else self.high
+        )
 
     @property
     def dist(self):
-- 
2.43.0


From 92f7dc82a2d9f76514541b7c283ac55f7cc3e469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 23/31] fix: vertical range depended on whether a Dirichlet was
 plotted first or last

---
 conjugate/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index 4c04d67..7fb6ac1 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -226,6 +226,7 @@ class DirichletPlotDistMixin(ContinuousPlotDistMixin):
             ax.plot(xx, yy, label=label, **kwargs)
 
         self._setup_labels(ax=ax)
+        ax.set_ylim(0, None, auto=None)
         return ax
 
 
-- 
2.43.0


From 037c2e648e7a970d223f2a47ea8327643650fa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 24/31] fix: a Dirichlet plot rejected for its labels left part
 of its curves behind

---
 conjugate/plot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index 7fb6ac1..bfd1889 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -219,10 +219,12 @@ class DirichletPlotDistMixin(ContinuousPlotDistMixin):
             kwargs.pop("label", None), distribution_samples.shape[1]
         )
 
-        for x, label in zip_longest(distribution_samples.T, labels):
-            kde = gaussian_kde(x)
+        curves = [
+            (gaussian_kde(x)(xx), label)
+            for x, label in zip_longest(distribution_samples.T, labels)
+        ]
 
-            yy = kde(xx)
+        for yy, label in curves:
             ax.plot(xx, yy, label=label, **kwargs)
 
         self._setup_labels(ax=ax)
-- 
2.43.0


From b8fb960caed28423125a293168b8aa655fd08b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 25/31] fix: labels given as an iterator were rejected for
 several curves

---
 conjugate/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index bfd1889..7e0524c 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -35,7 +35,7 @@ def label_to_iterable(label: LABEL_INPUT, ncols: int) -> Iterable[str]:
         return [label(i) for i in range(ncols)]
 
     if isinstance(label, Iterable):
-        return label
+        return list(label)
 
     raise ValueError(
         "Label must be None, a string, iterable, or callable.",
-- 
2.43.0


From cc3ab2d1adf7aa77d1524e00abd72c820b203128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 26/31] fix: a single curve was labelled with the label
 function itself

---
 conjugate/plot.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index 7e0524c..7eac4d1 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -47,14 +47,11 @@ def resolve_label(label: LABEL_INPUT, yy: np.ndarray):
 
     https://stackoverflow.com/questions/73662931/matplotlib-plot-a-numpy-array-as-many-lines-with-a-single-label
     """
-    if yy.ndim == 1:
-        return label
-
-    ncols = yy.shape[1]
+    ncols = 1 if yy.ndim == 1 else yy.shape[1]
     if ncols != 1:
         return label_to_iterable(label, ncols)
 
-    return label
+    return label(0) if callable(label) else label
 
 
 class PlotDistMixin:
-- 
2.43.0


From a56883ed8dacdfba6ba2395cae5afb16a1db5df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:03 +0000
Subject: [PATCH 27/31] fix: multivariate normal updates ignored the supplied
 inverse for the mean

---
 conjugate/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conjugate/models.py b/conjugate/models.py
index dd46114..ef86b0d 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1776,6 +1776,7 @@ def multivariate_normal_known_covariance(
         precision_0=precision_0,
         x_bar=x_bar,
         precision=precision,
+        inv=inv,
     )
 
     return MultivariateNormal(mu=mu_post, cov=inv(precision_post))
@@ -1833,6 +1834,7 @@ def multivariate_normal_known_precision(
         precision_0=precision_0,
         x_bar=x_bar,
         precision=precision,
+        inv=inv,
     )
 
     return MultivariateNormal(mu=mu_post, cov=inv(precision_post))
-- 
2.43.0


From b51c409c958f89790899cfa87415a9edd78163b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 28/31] fix: Von Mises log likelihoods stay finite where the
 bessel function overflows

---
 conjugate/distributions.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index e8f32ca..f6891ae 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -43,7 +43,7 @@ from packaging import version
 import numpy as np
 
 from scipy import stats, __version__ as scipy_version
-from scipy.special import gammaln, i0
+from scipy.special import gammaln, i0, i0e
 
 from conjugate._compound_gamma import compound_gamma
 from conjugate._beta_geometric import beta_geometric
@@ -906,6 +906,14 @@ class VonMises(ContinuousPlotDistMixin, SliceMixin):
         return stats.vonmises(loc=self.mu, kappa=self.kappa)
 
 
+def _ln_bessel(x: NUMERIC, ln, bessel) -> NUMERIC:
+    """Log of the modified bessel function of order 0, which itself overflows."""
+    if ln is np.log and bessel is i0:
+        return ln(i0e(x)) + abs(x)
+
+    return ln(bessel(x))
+
+
 @dataclass
 class VonMisesKnownConcentration:
     """Von Mises known concentration distribution.
@@ -934,7 +942,7 @@ class VonMisesKnownConcentration:
             log likelihood
 
         """
-        return self.a * cos(mu - self.b) - ln(i0(self.a))
+        return self.a * cos(mu - self.b) - _ln_bessel(self.a, ln=ln, bessel=i0)
 
 
 @dataclass
@@ -963,7 +971,7 @@ class VonMisesKnownDirectionProportional:
             log likelihood up to a constant
 
         """
-        return kappa * self.r - self.c * ln(i0(kappa))
+        return kappa * self.r - self.c * _ln_bessel(kappa, ln=ln, bessel=i0)
 
 
 @dataclass
-- 
2.43.0


From 90df063da9b31a0d190a374ff9ea74202bd07354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 29/31] fix: An index that is out of range raises instead of
 yielding all lanes

---
 conjugate/slice.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conjugate/slice.py b/conjugate/slice.py
index bd5ac58..b061507 100644
--- a/conjugate/slice.py
+++ b/conjugate/slice.py
@@ -1,5 +1,7 @@
 from dataclasses import asdict
 
+import numpy as np
+
 
 class SliceMixin:
     """Mixin in order to slice the parameters"""
@@ -13,6 +15,8 @@ class SliceMixin:
             try:
                 return value[key]
             except (TypeError, IndexError, KeyError):
+                if np.ndim(value):
+                    raise
                 return value
 
         new_params = {k: take_slice(value=v, key=key) for k, v in self.params.items()}
-- 
2.43.0


From 73ed3a8fc8b71b945d01f02ed8bd774f0ca4b44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 30/31] fix: compound gamma density is not zero below its
 support and nan for many observations

---
 conjugate/_compound_gamma.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/conjugate/_compound_gamma.py b/conjugate/_compound_gamma.py
index a656578..381a38c 100644
--- a/conjugate/_compound_gamma.py
+++ b/conjugate/_compound_gamma.py
@@ -1,13 +1,19 @@
 import numpy as np
 
-from scipy.special import beta
+from scipy.special import betaln, xlog1py, xlogy
 from scipy.stats import gamma
 
 from conjugate._random import as_stream
 
 
 def compound_gamma_pdf(x, a, b, q):
-    return (x / q) ** (a - 1) * (1 + (x / q)) ** (-a - b) / (q * beta(a, b))
+    z = np.asarray(x) / q
+    inside = np.where(z < 0, 0, z)
+
+    # Log scale because the powers overflow and the beta function underflows
+    log_pdf = xlogy(a - 1, inside) - xlog1py(a + b, inside) - betaln(a, b)
+
+    return np.where(z < 0, 0.0, np.exp(log_pdf) / q)[()]
 
 
 class compound_gamma:
-- 
2.43.0


From 0fca263ec879e4a78a7860337f8df43144e75f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:37 +0000
Subject: [PATCH 31/31] fix: NormalWishart draws with a 1 x 1 scale matrix

---
 conjugate/distributions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index f6891ae..a19a8cc 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -1181,7 +1181,11 @@ class NormalWishart:
 
         """
 
-        variance = inv(self.wishart.dist.rvs(size=size, random_state=random_state))
+        precision = self.wishart.dist.rvs(size=size, random_state=random_state)
+        if np.size(self.W) == 1:  # scipy drops the axes of a 1 x 1 matrix
+            precision = np.reshape(precision, (*np.shape(precision), 1, 1))
+
+        variance = inv(precision)
 
         if size == 1:
             variance = variance[None, ...]
-- 
2.43.0

