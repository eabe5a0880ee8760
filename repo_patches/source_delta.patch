From 96f225a5be0cca8c3a8c152ecba0665ef2981f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 01/31] fix: get_1d_errors returns the errors instead of None

---
 flavio/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index b55e748..b08193a 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -262,7 +262,7 @@ class Constraints(object):
         warnings.warn("This function was renamed to `get_1d_errors_random` "
                       "in v0.16 and will be removed in the future. ",
                       DeprecationWarning)
-        self.get_1d_errors_random(N)
+        return self.get_1d_errors_random(N)
 
     def get_1d_errors_random(self, N=1000):
         """Get the Gaussian standard deviation for every parameter/observable
-- 
2.43.0


From 07a20ea4b953acdc2597ae7d8885258921b0e4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 02/31] fix: support of log-normal distributions with negative
 central value

---
 flavio/statistics/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index ef61a03..1723693 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -346,8 +346,8 @@ class LogNormalDistribution(ProbabilityDistribution):
         self.log_central_value = math.log(abs(central_value))
         if central_value < 0:
             self.central_sign = -1
-            slim = math.exp(math.log(abs(central_value))
-                            - 6 * self.log_standard_deviation)
+            slim = -math.exp(math.log(abs(central_value))
+                             + 6 * self.log_standard_deviation)
             super().__init__(central_value,
                              support=(slim, 0))
         else:
-- 
2.43.0


From 9ab99b3eacdcc0825b7c5f41d90ed57b129f3747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 03/31] fix: size argument of GammaDistribution.get_random is
 optional

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 1723693..d560a41 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -602,7 +602,7 @@ class GammaDistribution(ProbabilityDistribution):
         return 'flavio.statistics.probability.GammaDistribution' + \
                '({}, {}, {})'.format(self.a, self.loc, self.scale)
 
-    def get_random(self, size):
+    def get_random(self, size=None):
         return self.scipy_dist.rvs(size=size)
 
     def cdf(self, x):
-- 
2.43.0


From f2d6642ed3aa294fb96780c8b55203c5e3248f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 04/31] fix: single random draws of positive gamma
 distributions

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index d560a41..7f10a2f 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -671,7 +671,7 @@ class GammaDistributionPositive(ProbabilityDistribution):
 
     def get_random(self, size=None):
         if size is None:
-            return self._get_random(size=size)
+            return self.get_random(size=1)[0]
         else:
             # some iteration necessary as discarding negative values
             # might lead to too small size
-- 
2.43.0


From 99bd01e02f6bdd4d3aea1b14ffadf1e09d60bd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 05/31] fix: GeneralGammaDistributionPositive can be
 instantiated directly

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 7f10a2f..03f096f 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1024,7 +1024,7 @@ class GeneralGammaDistributionPositive(NumericalDistribution):
         self.scale = scale
         self.gaussian_standard_deviation = gaussian_standard_deviation
         x, y = self._get_xy()
-        if self.gaussian_standard_deviation/np.sqrt(self.counts_total+1) < 1/100:
+        if self.gaussian_standard_deviation/np.sqrt(self.a) < 1/100:
             self.gaussian_standard_deviation = 0
             warnings.warn("For vanishing or very small Gaussian standard deviation, "
                           "it is safer to use GammaDistributionPositive instead of "
-- 
2.43.0


From cc1f6daa9fdc3f4f4088d3af7e242d36ec4e32e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 06/31] fix: reject out-of-range central value 0 of
 DiscreteUniformDistribution

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 03f096f..1c00f7f 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -191,7 +191,7 @@ class DiscreteUniformDistribution(ProbabilityDistribution):
         - highest_value: highest integer value `b`
         - central_value (optional): integer within [a,b]. Default is int((a+b)/2)
         """
-        if central_value and (
+        if central_value is not None and (
             central_value > highest_value
             or central_value < lowest_value
         ):
-- 
2.43.0


From b419390f60150d1429b403e1f9f86ede9c40dade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 07/31] fix: draw grid cells of multivariate numerical
 distributions with their own probability

---
 flavio/statistics/probability.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 1c00f7f..dcd8ef0 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1546,11 +1546,9 @@ class MultivariateNumericalDistribution(ProbabilityDistribution):
             self._cdf_flat = _cdf_flat/_cdf_flat[-1]
         # draw a number between 0 and 1
         r = np.random.uniform()
-        # find the index of the CDF-value closest to r
-        i_r = np.argmin(np.abs(self._cdf_flat-r))
-        indices = np.where(self.y == self._y_flat[i_r])
-        i_bla = np.random.choice(len(indices[0]))
-        index = tuple([a[i_bla] for a in indices])
+        # find the index of the first CDF-value above r
+        i_r = np.searchsorted(self._cdf_flat, r, side='right')
+        index = np.unravel_index(i_r, self.y.shape)
         xi_r = [ self.xi[i][index[i]] for i in range(len(self.xi)) ]
         xi_diff = np.array([ X[1]-X[0] for X in self.xi ])
         return xi_r + np.random.uniform(low=-0.5, high=0.5, size=len(self.xi)) * xi_diff
-- 
2.43.0


From 71701747a392ad23b3a1f4019ce33a47adc4bbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 08/31] fix: support of multivariate numerical distributions
 without central value

---
 flavio/statistics/probability.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index dcd8ef0..acebaa8 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1499,7 +1499,8 @@ class MultivariateNumericalDistribution(ProbabilityDistribution):
             # if no central value is specified, set it to the mode
             mode_index = (slice(None),) + np.unravel_index(self.y.argmax(), self.y.shape)
             mode = np.asarray(np.meshgrid(*self.xi, indexing='ij'))[mode_index]
-            super().__init__(central_value=mode, support=None)
+            super().__init__(central_value=mode,
+                             support=(np.asarray([x[0] for x in self.xi]), np.asarray([x[-1] for x in self.xi])))
         _bin_volume = np.prod([x[1] - x[0] for x in self.xi])
         self.y_norm = self.y / np.sum(self.y) / _bin_volume  # normalize PDF to 1
         # ignore warning from log(0)=-np.inf
-- 
2.43.0


From af2879ef03759aa302e26d41118d55d1c68050c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 09/31] fix: triangular covariance matrices with small entries
 are completed

---
 flavio/statistics/probability.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index acebaa8..8b6ecf8 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1356,7 +1356,9 @@ class MultivariateNormalDistribution(ProbabilityDistribution):
         """
         if covariance is not None:
             covariance = np.array(covariance)
-            if not np.allclose(covariance, covariance.T):
+            _err = np.sqrt(np.diag(covariance))
+            _scaled = covariance / np.outer(_err, _err)
+            if not np.allclose(_scaled, _scaled.T):
                 # if the covariance is not symmetric, it is assumed that only the values above the diagonal are present.
                 # then: M -> M + M^T - diag(M)
                 covariance = covariance + covariance.T - np.diag(np.diag(covariance))
-- 
2.43.0


From 7e1aeed8a148c36f1a3e690798a3b68be59d57ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 10/31] fix: GammaUpperLimit accepts counts_signal in place of
 another count

---
 flavio/statistics/probability.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 8b6ecf8..f997332 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -847,7 +847,8 @@ class GammaUpperLimit(GammaCountingProcess):
         super().__init__(
             scale_factor=scale_factor,
             counts_total=counts_total,
-            counts_background=counts_background)
+            counts_background=counts_background,
+            counts_signal=counts_signal)
 
     def __repr__(self):
         return ('flavio.statistics.probability.GammaUpperLimit'
-- 
2.43.0


From cdef1ca4682b891abb075e6f5a220c517f6ea98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 11/31] fix: cumulative of positive gamma distributions for
 arrays with negative values

---
 flavio/statistics/probability.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index f997332..a744728 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -687,10 +687,7 @@ class GammaDistributionPositive(ProbabilityDistribution):
     def cdf(self, x):
         cdf0 = self.scipy_dist.cdf(0)
         cdf = (self.scipy_dist.cdf(x) - cdf0)/(1-cdf0)
-        return np.piecewise(
-                    np.asarray(x, dtype=float),
-                    [x<0, x>=0],
-                    [0., cdf]) # return 0 for negative x
+        return np.where(np.asarray(x) < 0, 0., cdf) # return 0 for negative x
 
     def ppf(self, x):
         cdf0 = self.scipy_dist.cdf(0)
-- 
2.43.0


From 6320169c229ef25d78a12ad094f5d7967ab5b7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 12/31] fix: convolving several multivariate numerical
 distributions raises an error

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index a744728..fad31e5 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1746,7 +1746,7 @@ def _convolve_distributions_multivariate(probability_distributions, central_valu
     else:
         # otherwise, we need to combine the (combined) gaussian with the others
         if len(others) > 1:
-            NotImplementedError("Combining multivariate numerical distributions not implemented")
+            raise NotImplementedError("Combining multivariate numerical distributions not implemented")
         else:
             num = _convolve_multivariate_gaussian_numerical(gaussian, others[0],
                                                   central_values=central_values)
-- 
2.43.0


From 2e0ec3a4193c1312d3781ae8fecf497def96c685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 13/31] fix: convolve multivariate normal distributions with
 array central values

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index fad31e5..de2d437 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1779,7 +1779,7 @@ def _convolve_multivariate_gaussians(probability_distributions, central_values='
         "Distributions should all be instances of MultivariateNormalDistribution"
     if central_values == 'same':
         central_value = probability_distributions[0].central_value  # central value of the first dist
-        assert all(p.central_value == central_value for p in probability_distributions), \
+        assert all(np.all(np.asarray(p.central_value) == np.asarray(central_value)) for p in probability_distributions), \
             "Distrubtions must all have the same central value"
     elif central_values == 'sum':
         central_value = np.sum([p.central_value for p in probability_distributions], axis=0)
-- 
2.43.0


From f56ce5eb3e74f5c2f975c89f792b62c94193337f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 14/31] fix: grid of the convolution of multivariate numerical
 and normal distributions

---
 flavio/statistics/probability.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index de2d437..012dd75 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1831,14 +1831,14 @@ def _convolve_multivariate_gaussian_numerical(mvgaussian,
     assert isinstance(mvnumerical, MultivariateNumericalDistribution), \
         "mvgaussian must be a single instance of MultivariateNumericalDistribution"
     nsteps = max(200, *[len(x) for x in mvnumerical.xi])
+    nsteps += 1 - nsteps % 2  # odd, such that the mean of the support is on the grid
     xi = np.zeros((len(mvnumerical.xi), nsteps))
     for i, x in enumerate(mvnumerical.xi):
         # enlarge the support
-        cvn = mvnumerical.central_value[i]
         cvg = mvgaussian.central_value[i]
         supp = [s[i] for s in mvgaussian.support]
-        x_max = cvn + (x[-1] - cvn) + (supp[-1] - cvn) +  np.mean(x) - cvg
-        x_min = cvn + (x[0] - cvn) + (supp[0] - cvn) +  np.mean(x) - cvg
+        x_max = x[-1] + (supp[-1] - cvg)
+        x_min = x[0] + (supp[0] - cvg)
         xi[i] = np.linspace(x_min, x_max, nsteps)
     xi_grid = np.array(np.meshgrid(*xi, indexing='ij'))
     # this will transpose from shape (0, 1, 2, ...) to (1, 2, ..., 0)
-- 
2.43.0


From d8a4e833a094fba5f844feebea7c4c3c11762e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 15/31] fix: central value of the convolution of multivariate
 numerical and normal distributions

---
 flavio/statistics/probability.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 012dd75..e81ac22 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1850,10 +1850,12 @@ def _convolve_multivariate_gaussian_numerical(mvgaussian,
     f = scipy.signal.fftconvolve(y_num, y_gauss, mode='same')
     f[f < 0] = 0
     f = f/f.sum()
+    central_value = np.array(mvnumerical.central_value)
     if central_values == 'sum':
         # shift back
         xi = (xi.T + np.array(mvgaussian.central_value)).T
-    return MultivariateNumericalDistribution(xi, f)
+        central_value = central_value + np.array(mvgaussian.central_value)
+    return MultivariateNumericalDistribution(xi, f, central_value=central_value)
 
 
 def combine_distributions(probability_distributions):
-- 
2.43.0


From 1b95087f72a3f17b9626dd04373c72a8bc885386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 16/31] fix: number with a unicode minus sign is a fixed value

---
 flavio/_parse_errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/_parse_errors.py b/flavio/_parse_errors.py
index b30cdd2..dc16d2a 100644
--- a/flavio/_parse_errors.py
+++ b/flavio/_parse_errors.py
@@ -146,7 +146,7 @@ def constraints_from_string(constraint_string):
         # try again if the number is a float now
         try:
             float(constraint_string)
-            return {'central_value': float(constraint_string)}
+            return [DeltaDistribution(float(constraint_string))]
         except:
             pass
     if _pattern_upperlimit.match(constraint_string):
-- 
2.43.0


From f072a0694d8a089f7c9aaa4d6ba3885f722ed6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 17/31] fix: reject strings with incomplete or unknown
 plus-minus errors

---
 flavio/_parse_errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/_parse_errors.py b/flavio/_parse_errors.py
index dc16d2a..c75a046 100644
--- a/flavio/_parse_errors.py
+++ b/flavio/_parse_errors.py
@@ -6,7 +6,7 @@ _pattern_upperlimit = re.compile(r"^\s*<\s*([-+]?\d+\.?\d*)([eE][-+]?\d+)?\s*@\s
 # for strings of the form '1.67(3)(5) 1e-3'
 _pattern_brackets = re.compile(r"^\s*\(?\s*(-?\d+\.?\d*)\s*((?:\(\s*\d+\.?\d*\s*\)\s*)+)\)?\s*\*?\s*(?:(?:e|E|1e|1E|10\^)\(?([+-]?\d+)\)?)?$")
 # for strings of the form '(1.67 +- 0.3 +- 0.5) * 1e-3'
-_pattern_plusminus = re.compile(r"^\s*\(?\s*(-?\d+\.?\d*)\s*((?:[+\-±\\pm]+\s*\d+\.?\d*\s*)+)\)?\s*\*?\s*(?:(?:e|E|1e|1E|10\^)\(?([+-]?\d+)\)?)?$")
+_pattern_plusminus = re.compile(r"^\s*\(?\s*(-?\d+\.?\d*)\s*((?:(?:±|\\pm|\+\-)\s*\d+\.?\d*\s*|\+\s*\d+\.?\d*\s*\-\s*\d+\.?\d*\s*)+)\)?\s*\*?\s*(?:(?:e|E|1e|1E|10\^)\(?([+-]?\d+)\)?)?$")
 # for strings of the form '(1.67 */ 1.5) * 1e-3'
 _pattern_timesby = re.compile(r"^\s*([-+]?\d+\.?\d*)([eE][-+]?\d+)?\s*(?:\*/|/\*)\s*(\d+\.?\d*)$")
 # for strings of the form '[1, 5] 1e-3'
-- 
2.43.0


From 9f2a185bdd1b6c628815c1b3a36edf05df3d728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 18/31] fix: get_dict does not modify list attributes of the
 distribution

---
 flavio/statistics/probability.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index e81ac22..c710f91 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -95,6 +95,10 @@ class ProbabilityDistribution(object):
             for k in od:
                 if isinstance(od[k], ProbabilityDistribution):
                     od[k] = od[k].get_dict(distribution=True)
+        for k in od:
+            if isinstance(od[k], list):
+                # copy, as list elements are modified below
+                od[k] = list(od[k])
         if arraytolist:
             for k in od:
                 if isinstance(od[k], np.ndarray):
-- 
2.43.0


From 10dfcbfd46c80f6bb8bb0a1bbd99ec8cfe6595af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 19/31] fix: dump distributions with numpy scalars as plain
 numbers

---
 flavio/statistics/probability.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index c710f91..373f468 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -108,15 +108,15 @@ class ProbabilityDistribution(object):
                         if isinstance(x, np.ndarray):
                             od[k][i] = od[k][i].tolist()
         for k in od:
-            if isinstance(od[k], int):
+            if isinstance(od[k], (int, np.integer)):
                 od[k] = int(od[k])
-            elif isinstance(od[k], float):
+            elif isinstance(od[k], (float, np.floating)):
                 od[k] = float(od[k])
             if isinstance(od[k], list):
                 for i, x in enumerate(od[k]):
-                    if isinstance(x, float):
+                    if isinstance(x, (float, np.floating)):
                         od[k][i] = float(od[k][i])
-                    elif isinstance(x, int):
+                    elif isinstance(x, (int, np.integer)):
                         od[k][i] = int(od[k][i])
         return od
 
-- 
2.43.0


From 11b5db23929d22e51701b3eac304ab883eb8c1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 20/31] fix: number of bins of kernel density estimates read
 from a dictionary

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 373f468..d6590a8 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1276,7 +1276,7 @@ class KernelDensityEstimate(NumericalDistribution):
         if n_bins is None:
             self.n_bins = min(1000, self.n)
         else:
-            self.n_bins = n_bins
+            self.n_bins = int(n_bins)
         y, x_edges = np.histogram(data, bins=self.n_bins, density=True)
         x = (x_edges[:-1] + x_edges[1:])/2.
         self.y_raw = y
-- 
2.43.0


From de545bc3868064f48ad1a2917ef8ba6e91438470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 21/31] fix: read nested distributions from dictionaries

---
 flavio/statistics/probability.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index d6590a8..d2d045b 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -94,7 +94,8 @@ class ProbabilityDistribution(object):
         if iterate:
             for k in od:
                 if isinstance(od[k], ProbabilityDistribution):
-                    od[k] = od[k].get_dict(distribution=True)
+                    od[k] = od[k].get_dict(distribution=True, iterate=iterate,
+                                           arraytolist=arraytolist)
         for k in od:
             if isinstance(od[k], list):
                 # copy, as list elements are modified below
@@ -2054,6 +2055,9 @@ def dict2dist(constraint_dict):
         dict_list = constraint_dict
     pds = []
     def convertv(v):
+        # nested distribution (e.g. the kernel of a KernelDensityEstimate)
+        if isinstance(v, dict) and 'distribution' in v:
+            return dict2dist(v)[0]
         # convert v to float if possible
         try:
             return float(v)
-- 
2.43.0


From 4d5dfc8deff435af763263a4478d19b187cf5062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 22/31] fix: arguments are optional in from_yaml_dict

---
 flavio/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index b08193a..903aa19 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -436,7 +436,7 @@ class Constraints(object):
         if isinstance(data, dict):
             constraints = data['constraints']
             meta = data.get('metadata', {})
-            arguments = data['arguments']
+            arguments = data.get('arguments', {})
             kwargs.update(arguments)
             inst = instance or cls(*args, **kwargs)
             for m in meta:
-- 
2.43.0


From f1949eb697d2e64bc7ce4449bd71b9cb6017b42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 23/31] fix: removed constraints are not dumped

---
 flavio/classes.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/flavio/classes.py b/flavio/classes.py
index 903aa19..6f632f1 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -378,6 +378,16 @@ class Constraints(object):
         """
         data = []
         for constraint, parameters in self._constraints:
+            # leave out constraints that have been removed or replaced
+            inactive = [i for i, p in enumerate(parameters)
+                        if self._parameters.get(p, (None, None))[1] is not constraint
+                        or self._parameters[p][0] != i]
+            if len(inactive) == len(parameters):
+                continue
+            elif inactive:
+                parameters = [p for i, p in enumerate(parameters)
+                              if i not in inactive]
+                constraint = constraint.reduce_dimension(exclude=inactive)
             d = OrderedDict()
             d[pname] = [list(p) if isinstance(p, tuple) else p for p in parameters]
             d['values'] = constraint.get_dict(distribution=True,
-- 
2.43.0


From 929b30b62277b1d88ee84956f76e0977f8b5943c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 24/31] fix: central value of multivariate numerical
 distributions reduced to one dimension

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index d2d045b..5298e5a 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1579,7 +1579,7 @@ class MultivariateNumericalDistribution(ProbabilityDistribution):
         cv = np.delete(self.central_value, tuple(exclude))
         if len(xi) == 1:
             # if there is just 1 dimension left, use univariate
-            dist = NumericalDistribution(xi[0], y, cv)
+            dist = NumericalDistribution(xi[0], y, cv[0])
         else:
             dist = MultivariateNumericalDistribution(xi, y, cv)
         return dist
-- 
2.43.0


From d3e77dce7782eb498fd10437bd2a07d28012e373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 25/31] fix: singular correlations are softened independently
 of rounding errors

---
 flavio/parameters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flavio/parameters.py b/flavio/parameters.py
index 6f71a22..0e32b9e 100644
--- a/flavio/parameters.py
+++ b/flavio/parameters.py
@@ -62,8 +62,9 @@ def _read_yaml_object_values_correlated(obj, constraints):
             errors.append(sqrt(squared_error))
         correlation = _fix_correlation_matrix(parameter_group['correlation'], len(parameter_names))
         covariance = np.outer(np.asarray(errors), np.asarray(errors))*correlation
-        if not np.all(np.linalg.eigvals(covariance) > 0):
-            # if the covariance matrix is not positive definite, try a dirty trick:
+        if not (np.all(np.linalg.eigvals(covariance) > 0)
+                and np.all(np.linalg.eigvalsh(correlation) > 1e-10)):
+            # if the covariance matrix is not positive definite (up to rounding errors), try a dirty trick:
             # multiply all the correlations by 0.99.
             n_dim = len(correlation)
             correlation = (correlation - np.eye(n_dim))*0.99 + np.eye(n_dim)
-- 
2.43.0


From 662d5cff16ad4c2a9fb8312a5225a55108ec364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 26/31] fix: errors_from_string understands unicode minus signs

---
 flavio/_parse_errors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flavio/_parse_errors.py b/flavio/_parse_errors.py
index c75a046..0b35747 100644
--- a/flavio/_parse_errors.py
+++ b/flavio/_parse_errors.py
@@ -16,6 +16,8 @@ _pattern_range = re.compile(r"^\s*\[\s*(-?\d+\.?\d*)\s*([eE][-+]?\d+)?\s*\,\s*(-
 def errors_from_string(constraint_string):
     """Convert a string like '1.67(3)(5)' or '1.67+-0.03+-0.05' to a dictionary
     of central values errors."""
+    # dashes (that can come from copy-and-pasting latex) are minuses
+    constraint_string = constraint_string.replace('−','-')
     m = _pattern_brackets.match(constraint_string)
     if m is None:
         m = _pattern_plusminus.match(constraint_string)
-- 
2.43.0


From 4048c732158442403afffd0ebf14336651bec008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 27/31] fix: empty list of excluded measurements does not
 disable the list of included ones

---
 flavio/statistics/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index cd02f0d..ea074c0 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -130,7 +130,7 @@ class MeasurementLikelihood(iio.YAMLLoadable):
                 all_measurements.append(m_name)
         if self.exclude_measurements is None and self.include_measurements is None:
             return all_measurements
-        elif self.exclude_measurements is not None:
+        elif self.exclude_measurements is not None and not self.include_measurements:
             return list(set(all_measurements) - set(self.exclude_measurements))
         elif self.include_measurements is not None:
             return list(set(all_measurements) & set(self.include_measurements))
-- 
2.43.0


From 53c3dc8d9b4d82b6cd478cdf911588453ff51b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:23 +0000
Subject: [PATCH 28/31] fix: outdated Wilson coefficients used when CKM
 parameters change

---
 flavio/physics/eft.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flavio/physics/eft.py b/flavio/physics/eft.py
index 8d7f897..f48f994 100644
--- a/flavio/physics/eft.py
+++ b/flavio/physics/eft.py
@@ -173,6 +173,8 @@ class WilsonCoefficients(wilson.Wilson):
         _ckm_options = {k: par_dict[k] for k in ['Vus', 'Vcb', 'Vub', 'gamma']}
         if fwc.get_option('parameters') != _ckm_options:
             fwc.set_option('parameters', _ckm_options)
+            # the options are shared, so values cached by `w` are outdated, too
+            w._cache = fwc._cache
         return fwc
 
     def run_wcxf(*args, **kwargs):
-- 
2.43.0


From 771746c5b74339dda5e074ad2d92ebc461fc5a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 29/31] fix: predictions cached by likelihoods confuse
 arguments with the same hash

---
 flavio/statistics/likelihood.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index ea074c0..a685536 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -1,5 +1,6 @@
 import flavio
 from collections import Counter
+import copy
 import warnings
 import numpy as np
 import voluptuous as vol
@@ -60,7 +61,7 @@ class MeasurementLikelihood(iio.YAMLLoadable):
         self.exclude_measurements = exclude_measurements
         self.include_measurements = include_measurements
         self.include_pseudo_measurements = include_pseudo_measurements
-        self._predictions_cache_hash = None
+        self._predictions_cache_key = None
         self._predictions_cache_values = None
         if exclude_measurements and include_measurements:
             raise ValueError("The options exclude_measurements and include_measurements must not be specified simultaneously")
@@ -142,9 +143,8 @@ class MeasurementLikelihood(iio.YAMLLoadable):
         The latest computed values are cached and returned if the function is
         called successively with the same arguments.
         """
-        # compute a hash from the function's arguments used for caching
-        arg_hash = hash((frozenset(par_dict.items()),wc_obj))
-        if arg_hash != self._predictions_cache_hash:
+        if self._predictions_cache_key is None \
+                or self._predictions_cache_key != self._get_cache_key(par_dict, wc_obj):
             all_predictions = {}
             for observable in self.observables:
                 obs = flavio.classes.Observable.argument_format(observable, 'dict')
@@ -152,8 +152,17 @@ class MeasurementLikelihood(iio.YAMLLoadable):
                 _inst = flavio.classes.Observable[name]
                 all_predictions[observable] = _inst.prediction_par(par_dict, wc_obj, **obs)
             self._predictions_cache_values = all_predictions
-            self._predictions_cache_hash = arg_hash
-        return self._predictions_cache_values
+            self._predictions_cache_key = self._get_cache_key(par_dict, wc_obj)
+        return self._predictions_cache_values.copy()
+
+    @staticmethod
+    def _get_cache_key(par_dict, wc_obj):
+        """Return a key for caching predictions. Comparing the arguments rather
+        than hashes makes sure that different arguments are never confused.
+        The values of Wilson coefficients are compared by identity, as WCxf
+        instances are not meant to be modified."""
+        return (dict(par_dict), type(wc_obj), getattr(wc_obj, 'wc', wc_obj),
+                copy.deepcopy(getattr(wc_obj, '_options', None)))
 
     def get_number_observations(self, exclude_observables=None):
         """Get the number of observations, defined as individual measurements
-- 
2.43.0


From 3f1d0b9634f7b408f9edd214c5fcb81891d73837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 30/31] fix: citations missing when cached results are used

---
 flavio/physics/bdecays/matrixelements.py | 36 ++++++++++++++++++++----
 flavio/physics/running/running.py        |  7 +++++
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/flavio/physics/bdecays/matrixelements.py b/flavio/physics/bdecays/matrixelements.py
index 195e6bd..00df386 100644
--- a/flavio/physics/bdecays/matrixelements.py
+++ b/flavio/physics/bdecays/matrixelements.py
@@ -69,7 +69,6 @@ _sh_F_19 = scipy.interpolate.RegularGridInterpolator((_f_x, _f_y, _f_z), _f_val_
 _F_27 = scipy.interpolate.RegularGridInterpolator((_f_x, _f_y, _f_z), _f_val_27, bounds_error=False, fill_value=None)
 _sh_F_29 = scipy.interpolate.RegularGridInterpolator((_f_x, _f_y, _f_z), _f_val_29, bounds_error=False, fill_value=None)
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def F_17(muh, z, sh):
     """Function $F_1^{(7)}$ giving the contribution of $O_7$ to the matrix element
     of $O_1$, as defined in arXiv:0810.4077.
@@ -78,10 +77,14 @@ def F_17(muh, z, sh):
     - `z` is $z=m_c^2/m_b^2$,
     - `sh` is $\hat s=q^2/m_b^2$.
     """
+    # register the citation also if the result is cached
     flavio.citations.register("Greub:2008cy")
-    return _F_17([muh, z, sh])[0]
+    return _F_17_cached(muh, z, sh)
 
 @lru_cache(maxsize=config['settings']['cache size'])
+def _F_17_cached(muh, z, sh):
+    return _F_17([muh, z, sh])[0]
+
 def F_19(muh, z, sh):
     """Function $F_1^{(9)}$ giving the contribution of $O_9$ to the matrix element
     of $O_1$, as defined in arXiv:0810.4077.
@@ -90,12 +93,16 @@ def F_19(muh, z, sh):
     - `z` is $z=m_c^2/m_b^2$,
     - `sh` is $\hat s=q^2/m_b^2$.
     """
+    # register the citation also if the result is cached
     flavio.citations.register("Greub:2008cy")
+    return _F_19_cached(muh, z, sh)
+
+@lru_cache(maxsize=config['settings']['cache size'])
+def _F_19_cached(muh, z, sh):
     if sh == 0:
         return 0
     return _sh_F_19([muh, z, sh])[0] / sh
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def F_27(muh, z, sh):
     """Function $F_2^{(7)}$ giving the contribution of $O_7$ to the matrix element
     of $O_2$, as defined in arXiv:0810.4077.
@@ -104,10 +111,14 @@ def F_27(muh, z, sh):
     - `z` is $z=m_c^2/m_b^2$,
     - `sh` is $\hat s=q^2/m_b^2$.
     """
+    # register the citation also if the result is cached
     flavio.citations.register("Greub:2008cy")
-    return _F_27([muh, z, sh])[0]
+    return _F_27_cached(muh, z, sh)
 
 @lru_cache(maxsize=config['settings']['cache size'])
+def _F_27_cached(muh, z, sh):
+    return _F_27([muh, z, sh])[0]
+
 def F_29(muh, z, sh):
     """Function $F_2^{(9)}$ giving the contribution of $O_9$ to the matrix element
     of $O_2$, as defined in arXiv:0810.4077.
@@ -116,7 +127,12 @@ def F_29(muh, z, sh):
     - `z` is $z=m_c^2/m_b^2$,
     - `sh` is $\hat s=q^2/m_b^2$.
     """
+    # register the citation also if the result is cached
     flavio.citations.register("Greub:2008cy")
+    return _F_29_cached(muh, z, sh)
+
+@lru_cache(maxsize=config['settings']['cache size'])
+def _F_29_cached(muh, z, sh):
     if sh == 0:
         return 0
     return _sh_F_29([muh, z, sh])[0] / sh
@@ -155,11 +171,15 @@ def F_87(Lmu, sh):
 def acot(x):
     return pi/2.-atan(x)
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def SeidelA(q2, mb, mu):
     """Function $A(s\equiv q^2)$ defined in eq. (29) of hep-ph/0403185v2.
     """
+    # register the citation also if the result is cached
     flavio.citations.register("Seidel:2004jh")
+    return _SeidelA_cached(q2, mb, mu)
+
+@lru_cache(maxsize=config['settings']['cache size'])
+def _SeidelA_cached(q2, mb, mu):
     if q2==0:
         return 1/729. * (833 + 120j*pi - 312 * log(mb**2/mu**2))
     sh = min(q2/mb**2, 0.999)
@@ -173,11 +193,15 @@ def SeidelA(q2, mb, mu):
     (1 - sh)**4) * (36 * acot( sqrt(z - 1))**2 + pi**2 * (-4 + 9 * sh - 9 *
     sh**2 + 3 * sh**3)))
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def SeidelB(q2, mb, mu):
     """Function $A(s\equiv q^2)$ defined in eq. (30) of hep-ph/0403185v2.
     """
+    # register the citation also if the result is cached
     flavio.citations.register("Seidel:2004jh")
+    return _SeidelB_cached(q2, mb, mu)
+
+@lru_cache(maxsize=config['settings']['cache size'])
+def _SeidelB_cached(q2, mb, mu):
     sh = min(q2/mb**2, 0.999)
     z = 4 / sh
     x1 = 1/2 + 1j/2 * sqrt(z - 1)
diff --git a/flavio/physics/running/running.py b/flavio/physics/running/running.py
index 6c4f890..3c1fd69 100644
--- a/flavio/physics/running/running.py
+++ b/flavio/physics/running/running.py
@@ -1,5 +1,6 @@
 """Functions to solve the renormalization group equations (RGEs) numerically."""
 
+import flavio
 from flavio.physics.running import betafunctions
 from flavio.physics.running import masses
 from scipy.integrate import odeint
@@ -199,6 +200,9 @@ def _get_mc_pole(mcmc, alpha_s, nl):
 
 def get_mc_KS(par, scale):
     r"""Get the $c$ quark mass in the kinetic scheme."""
+    # these would not be registered if the result is already cached
+    flavio.citations.register("Gambino:2011cq")
+    flavio.citations.register("Benson:2003kp")
     mcmc = par['m_c']
     alpha_s = get_alpha(par, mcmc)['alpha_s']
     return _get_mc_KS(mcmc=mcmc, alpha_s=alpha_s, scale=scale, nl=3)
@@ -227,6 +231,9 @@ def _get_mb_pole(mbmb, alpha_s, nl):
 
 def get_mb_KS(par, scale):
     r"""Get the $b$ quark mass in the kinetic scheme."""
+    # these would not be registered if the result is already cached
+    flavio.citations.register("Gambino:2011cq")
+    flavio.citations.register("Benson:2003kp")
     mbmb = par['m_b']
     alpha_s = get_alpha(par, mbmb)['alpha_s']
     return _get_mb_KS(mbmb=mbmb, alpha_s=alpha_s, scale=scale, nl=3)
-- 
2.43.0


From f83e4bc511f0e1f0b10b08ce47f62d7367aeba6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 31/31] fix: robust optimisation restarts from improved end
 points

---
 flavio/math/optimize.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flavio/math/optimize.py b/flavio/math/optimize.py
index e393b13..afd6009 100644
--- a/flavio/math/optimize.py
+++ b/flavio/math/optimize.py
@@ -35,11 +35,11 @@ def minimize_robust(fun, x0, args=(), methods=None, tries=3, disp=False,
                     if disp:
                         print("Skipping method MIGRAD: no iminuit installation found.")
                     continue
-                opt = minimize_migrad(fun, x0, args=args, print_level=int(disp))
+                opt = minimize_migrad(fun, _x0, args=args, print_level=int(disp))
             else:
                 options = {'disp': disp}
                 options.update(kwargs)
-                opt = minimize(fun, x0, args=args, method=m, options=options)
+                opt = minimize(fun, _x0, args=args, method=m, options=options)
             if opt.success:
                 return opt
             elif opt.fun < _val:
@@ -49,6 +49,7 @@ def minimize_robust(fun, x0, args=(), methods=None, tries=3, disp=False,
                 # if this step actually led to some improvement,
                 # use endpoint as new starting point
                 _x0 = opt.x
+                _val = opt.fun
     return opt
 
 def maximize_robust(fun, x0, args=(), methods=None, tries=3, disp=False, **kwargs):
-- 
2.43.0

