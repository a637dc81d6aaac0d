From 6a9c5dcacf99443b543e8a12fbe20e74584962b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 01/27] fix: Kullback-Leibler integrand is zero (not NaN) where
 the density is zero

---
 bfit/measure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bfit/measure.py b/bfit/measure.py
index 776ed7c..6648988 100644
--- a/bfit/measure.py
+++ b/bfit/measure.py
@@ -222,6 +222,8 @@ class KLDivergence(Measure):
         # Add ignoring division by zero and multiplying by np.nan
         with np.errstate(divide='ignore', invalid="ignore"):
             value = density * np.log(ratio)
+        # the limit of f * log(f / g) as f goes to zero is zero
+        value = np.where(density == 0., 0., value)
         # compute derivative
         if deriv:
             return value, -ratio
-- 
2.43.0


From bc4fab4df854fd9b2ad7738c35cf275818ea4aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 02/27] fix: Tsallis integrand with alpha < 1 is finite where
 density or model vanish

---
 bfit/measure.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bfit/measure.py b/bfit/measure.py
index 6648988..2af7858 100644
--- a/bfit/measure.py
+++ b/bfit/measure.py
@@ -344,7 +344,10 @@ class TsallisDivergence(Measure):
         # compute ratio & replace masked values by 1.0
         ratio = density / np.ma.masked_less_equal(model, self.mask_value)
         ratio = np.ma.filled(ratio, fill_value=0.0)
-        value = density * (np.power(ratio, self.alpha - 1.0) - 1.0)
+        # zero ratios contribute zero for every alpha (0^(alpha-1) diverges if alpha < 1)
+        power = np.zeros_like(ratio)
+        np.power(ratio, self.alpha - 1.0, out=power, where=ratio != 0.)
+        value = density * (power - 1.0)
         integrand = value / (self.alpha - 1.0)
         if deriv:
             return integrand, -np.power(ratio, self.alpha)
-- 
2.43.0


From cbe340f8b2c362ced88823ee4fe365fb0c1f5bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 03/27] fix: use the highest occupied orbital energy in core
 and valence densities

---
 bfit/density.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bfit/density.py b/bfit/density.py
index 564c9e9..4de0873 100644
--- a/bfit/density.py
+++ b/bfit/density.py
@@ -349,10 +349,10 @@ class SlaterAtoms:
         # compute orbital occupation numbers
         orb_occs = self.orbitals_occupation
         if mode == "valence":
-            orb_homo = self.orbitals_energy[len(self.orbitals_occupation) - 1]
+            orb_homo = np.max(self.orbitals_energy)
             orb_occs = orb_occs * np.exp(-(self.orbitals_energy - orb_homo)**2)
         elif mode == "core":
-            orb_homo = self.orbitals_energy[len(self.orbitals_occupation) - 1]
+            orb_homo = np.max(self.orbitals_energy)
             orb_occs = orb_occs * (1. - np.exp(-(self.orbitals_energy - orb_homo)**2))
         # compute density
         dens = np.dot(self.phi_matrix(points)**2, orb_occs).ravel() / (4 * np.pi)
-- 
2.43.0


From 7b21005d9a7e48596a5ad9f593a4ad28908dbe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 04/27] fix: accept any iterable (e.g. numpy array) as extra
 points of ClenshawRadialGrid

---
 bfit/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfit/grid.py b/bfit/grid.py
index 15df63c..f72856b 100644
--- a/bfit/grid.py
+++ b/bfit/grid.py
@@ -178,7 +178,7 @@ class ClenshawRadialGrid(_BaseRadialGrid):
         diff_points = self._get_points(num_diffuse_pts, mode="diffuse", dtype=dtype)
 
         # put all points together (0.0 is also contained in diff_points, so it should be removed)
-        if extra_pts:
+        if extra_pts is not None:
             # check extra points
             if not hasattr(extra_pts, '__iter__') or isinstance(extra_pts, str):
                 raise TypeError("Argument extra_pts should be an iterable.")
-- 
2.43.0


From eecfb3ecbc23c1e267b08b7462728da2f39b77e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 05/27] fix: rows of the axes of a rotated cubic grid are the
 principal axes of the molecule

---
 bfit/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bfit/grid.py b/bfit/grid.py
index f72856b..df4c2d6 100644
--- a/bfit/grid.py
+++ b/bfit/grid.py
@@ -332,7 +332,8 @@ class CubicGrid:
             _, v = np.linalg.eigh(itensor)
             # Project the coordinates of atoms centered at the center of mass to the eigenvectors
             new_coordinates = np.dot((atcoords - com), v)
-            axes = spacing * v
+            # (eigenvectors are the columns of v, whereas each row of axes is a direction)
+            axes = spacing * v.T
         else:
             # Just use the original coordinates
             new_coordinates = atcoords
-- 
2.43.0


From cb858adbc310deca03476e5206e7842177c9fd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 06/27] fix: center the cubic grid on the molecule so that
 every atom gets the requested extension

---
 bfit/grid.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bfit/grid.py b/bfit/grid.py
index df4c2d6..0d2cca8 100644
--- a/bfit/grid.py
+++ b/bfit/grid.py
@@ -348,9 +348,12 @@ class CubicGrid:
         # Add one to include the upper-bound as well.
         shape = np.ceil(shape)
         shape = np.array(shape, int)
-        # Compute origin by taking the center of mass then subtracting the half of the number
-        #    of points in the direction of the axes.
-        origin = com - np.dot((0.5 * shape), axes)
+        # Compute origin by taking the center of the box that bounds the atoms then subtracting the
+        #    half of the number of points in the direction of the axes.
+        center = 0.5 * (max_coordinate + min_coordinate)
+        if rotate:
+            center = com + np.dot(v, center)
+        origin = center - np.dot((0.5 * shape), axes)
         return cls(origin, axes, shape)
 
     def _calculate_volume(self, shape):
-- 
2.43.0


From d543992830e1ac4fdcd54398f8e572265a64aead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 07/27] fix: remove_redundancies adds every removed coefficient
 to exactly one kept function

---
 bfit/greedy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index cf3a279..786694b 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -67,8 +67,12 @@ def remove_redundancies(coeffs, fparams, eps=1e-3):
     indexes_same = []
     for i, alpha in enumerate(fparams):
         similar_indexes = []
+        # Indexes already grouped with a previous one.
+        grouped = [y for x in indexes_same for y in x[1:]]
+        if i in grouped:
+            continue
         for j in range(i + 1, len(fparams)):
-            if j not in similar_indexes:
+            if j not in similar_indexes and j not in grouped:
                 if np.abs(alpha - fparams[j]) < eps:
                     if i not in similar_indexes:
                         similar_indexes.append(i)
-- 
2.43.0


From 74b5557e43c16561afd2ce85dcb46536315bb945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 08/27] fix: running the greedy algorithm again starts from one
 s-type function

---
 bfit/greedy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 786694b..715c45e 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -507,6 +507,8 @@ class GreedyStrategy(metaclass=ABCMeta):
             raise ValueError(f"Scale {factor} should be positive.")
 
         # Initialize all the variables
+        self.num_s, self.num_p, self.err_arr = 1, 0, []
+        self.model.change_numb_s_and_numb_p(self.num_s, self.num_p)
         gparams = self.get_best_one_function_solution()
         self.store_errors(gparams)
         exit_info = None  # String containing information about how it exits.
-- 
2.43.0


From e8b3d3524ae416495768bb9310a2358a125c4b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 09/27] fix: greedy pick-two never exceeds the maximum number
 of functions

---
 bfit/greedy.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 715c45e..11600f4 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -523,7 +523,7 @@ class GreedyStrategy(metaclass=ABCMeta):
             template_iters = self._print_header()
 
         success = True
-        while numb_funcs <= max_numb_funcs - 1 and numb_redum < 5 and \
+        while numb_funcs + self.numb_func_increase <= max_numb_funcs and numb_redum < 5 and \
                 np.abs(best_gval - prev_gval) >= d_threshold:
             s_coeffs, s_exps, p_coeffs, p_exps = self._split_parameters(gparams)
 
@@ -615,7 +615,8 @@ class GreedyStrategy(metaclass=ABCMeta):
 
         if exit_info is None:
             exit_info = self._final_exit_info(
-                numb_funcs, max_numb_funcs, best_gval, prev_gval, d_threshold
+                numb_funcs, max_numb_funcs, best_gval, prev_gval, d_threshold,
+                self.numb_func_increase
             )
 
         # Get the coefficients and exponents of the most recent parameters stored.
@@ -645,10 +646,12 @@ class GreedyStrategy(metaclass=ABCMeta):
         return results
 
     @staticmethod
-    def _final_exit_info(num_func, max_func, best_val, prev_gval, d_threshold):
+    def _final_exit_info(
+        num_func, max_func, best_val, prev_gval, d_threshold, numb_increase
+    ):
         r"""Return string that holds how the greedy algorithm teminated."""
         exit_info = None
-        if not num_func < max_func - 1:
+        if num_func + numb_increase > max_func:
             exit_info = "Max number of functions reached,  " + str(num_func)
         elif np.abs(best_val - prev_gval) < d_threshold:
             exit_info = "Cost function is less than some epsilon: " + \
-- 
2.43.0


From 3c041c1bc412a6f99096d8d22cd5cda3f97cf5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 10/27] fix: greedy that converged one function below the
 maximum is successful

---
 bfit/greedy.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 11600f4..fde16e6 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -607,11 +607,10 @@ class GreedyStrategy(metaclass=ABCMeta):
                     np.abs(best_gval - prev_gval)
                 ))
 
-        if numb_funcs == max_numb_funcs - 1 or numb_redum == 5:
+        if numb_redum == 5:
             success = False
-            if numb_redum == 5:
-                exit_info = f"Next Iteration Did Not Find The Best Choice at" \
-                            f" number of s-type {self.num_s} and p-type {self.num_p}"
+            exit_info = f"Next Iteration Did Not Find The Best Choice at" \
+                        f" number of s-type {self.num_s} and p-type {self.num_p}"
 
         if exit_info is None:
             exit_info = self._final_exit_info(
-- 
2.43.0


From 4b88ca434c8f7f338ec5f5702a7e371f0728d6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 11/27] fix: greedy picks a best choice however large the
 objective function is

---
 bfit/greedy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index fde16e6..c8b7a18 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -387,7 +387,7 @@ class GreedyStrategy(metaclass=ABCMeta):
 
         """
         # Initialize the values being returned.
-        best_local_value = 1e10
+        best_local_value = np.nan
         best_local_param = None
         is_s_optimal = False
         for i in range(0, num_s_choices + num_p_choices):
@@ -410,7 +410,7 @@ class GreedyStrategy(metaclass=ABCMeta):
             local_param = self.get_optimization_routine(param, local=True)
             cost_func = self.eval_obj_function(local_param)
             # If it is the best found, then return it.
-            if cost_func < best_local_value:
+            if np.isnan(best_local_value) or cost_func < best_local_value:
                 best_local_value = self.eval_obj_function(local_param)
                 best_local_param = local_param
                 is_s_optimal = bool(i < num_s_choices)
-- 
2.43.0


From 0ef13e58e0fb438da8ad85b04e2d530afa39becf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 12/27] fix: greedy moves back when the objective of the new
 parameters is NaN

---
 bfit/greedy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index c8b7a18..db33987 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -581,7 +581,7 @@ class GreedyStrategy(metaclass=ABCMeta):
             p_coeffs_new, _ = remove_redundancies(p_coeffs, p_exps)
             found_s_redundances = self.num_s != len(s_coeffs_new)
             found_p_redundancies = self.num_p != len(p_coeffs_new)
-            if found_s_redundances or found_p_redundancies or opt_lvalue > best_gval:
+            if found_s_redundances or found_p_redundancies or not opt_lvalue <= best_gval:
                 # Move back one function and try a different factor to generate
                 #    better initial guesses.
                 numb_redum += 1  # Update the termination criteria
@@ -592,7 +592,7 @@ class GreedyStrategy(metaclass=ABCMeta):
                     self.num_p -= self.numb_func_increase
                 self.model.change_numb_s_and_numb_p(self.num_s, self.num_p)
                 numb_funcs -= self.numb_func_increase
-            elif opt_lvalue <= best_gval:
+            else:
                 # Take the best local choice and optimization even further.
                 gparams = opt_lparam  # Store for next iteration.
                 self.store_errors(gparams)
-- 
2.43.0


From e994d7f3f2f98341b88a369d0374b8bd8630d8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 13/27] fix: KL-FPI does not report success when the parameters
 became NaN

---
 bfit/fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bfit/fit.py b/bfit/fit.py
index 9b061ba..9ffb941 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -418,7 +418,8 @@ class KLDivergenceFPI(_BaseFit):
         time = end - start
 
         # check whether convergence is reached.
-        if (maxiter == niter and diff_divergence > d_threshold) or np.isnan(diff_divergence):
+        if (maxiter == niter and diff_divergence > d_threshold) or np.isnan(diff_divergence) \
+                or np.any(np.isnan(new_cs)) or np.any(np.isnan(new_es)):
             success = False
         else:
             success = True
-- 
2.43.0


From 4aa0cff1b85a8c606a087ef076d125ab2c43601a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 14/27] fix: trust-constr constraint when only coefficients or
 only exponents are optimized

---
 bfit/fit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bfit/fit.py b/bfit/fit.py
index 9ffb941..dc373f5 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -593,7 +593,10 @@ class ScipyFit(_BaseFit):
             if self.method == "slsqp":
                 constraints = [{"fun": self.const_norm, "type": "eq", "args": args}]
             elif self.method == "trust-constr":
-                constraints = [NonlinearConstraint(self.const_norm, 0.0, 0.0, jac="3-point")]
+                # NonlinearConstraint does not pass args to its function
+                constraints = [NonlinearConstraint(
+                    lambda x: self.const_norm(x, *args), 0.0, 0.0, jac="3-point"
+                )]
         # set optimization options
         if self.method == "slsqp":
             options = {"ftol": tol, "maxiter": maxiter, "disp": disp}
-- 
2.43.0


From c3fce56ec295362dd2f0832f99613e4398ff1079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 15/27] fix: the default measure of ScipyFit is usable

---
 bfit/fit.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bfit/fit.py b/bfit/fit.py
index dc373f5..aecf305 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -468,7 +468,7 @@ class ScipyFit(_BaseFit):
 
     """
 
-    def __init__(self, grid, density, model, measure=KLDivergence, method="SLSQP", weights=None,
+    def __init__(self, grid, density, model, measure=None, method="SLSQP", weights=None,
                  integral_dens=None, spherical=False, mask_value=1e-18):
         r"""
         Construct the ScipyFit object.
@@ -481,9 +481,10 @@ class ScipyFit(_BaseFit):
             The true density evaluated on the grid points.
         model : (AtomicGaussianDensity, MolecularGaussianDensity)
             The Gaussian basis model density.
-        measure : bfit.measure.Measure
+        measure : bfit.measure.Measure, optional
             The deviation measure between true density and model density.
             See bfit.measure.py for examples of measures to use.
+            If `None`, then Kullback-Leibler divergence is used.
         method : str, optional
             The method used for optimizing parameters. Default is "slsqp".
             See "scipy.optimize.minimize" for options.
@@ -507,6 +508,8 @@ class ScipyFit(_BaseFit):
             raise ValueError(f"Argument density should have ({len(grid.points)},) shape.")
         if method.lower() not in ["slsqp", "trust-constr"]:
             raise ValueError(f"Argument method={method} is not recognized!")
+        if measure is None:
+            measure = KLDivergence(mask_value=mask_value)
         if not isinstance(measure, Measure):
             raise TypeError(f"Measure {type(measure)} needs to be a children of the class Measure.")
 
-- 
2.43.0


From d538a25e4655ed79262b398944768e3e6eea2568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 16/27] fix: Kullback-Leibler integrand is finite where density
 / model underflows

---
 bfit/measure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bfit/measure.py b/bfit/measure.py
index 2af7858..56dc9c9 100644
--- a/bfit/measure.py
+++ b/bfit/measure.py
@@ -222,8 +222,8 @@ class KLDivergence(Measure):
         # Add ignoring division by zero and multiplying by np.nan
         with np.errstate(divide='ignore', invalid="ignore"):
             value = density * np.log(ratio)
-        # the limit of f * log(f / g) as f goes to zero is zero
-        value = np.where(density == 0., 0., value)
+        # the limit of f * log(f / g) as f / g goes to zero is zero
+        value = np.where(ratio == 0., 0., value)
         # compute derivative
         if deriv:
             return value, -ratio
-- 
2.43.0


From bfd19a859409f6d3d3d5f58abae2cbfcb95969d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:22 +0000
Subject: [PATCH 17/27] fix: greedy least-squares starts from the right
 coefficients with normalize=True

---
 bfit/greedy.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index db33987..e4497a1 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -768,6 +768,9 @@ class GreedyLeastSquares(GreedyStrategy):
         big_b = (a * f - c * d) / (a * e - b * d)
         coefficient = np.exp(big_a)
         exponent = - big_b
+        if self.model.normalized:
+            # Coefficient of the normalized Gaussian.
+            coefficient *= (np.pi / exponent) ** 1.5
         return np.array([coefficient, exponent])
 
     def get_best_one_function_solution(self):
@@ -818,6 +821,11 @@ class GreedyLeastSquares(GreedyStrategy):
         exps = params[len(params)//2:]
         cofac_matrix = self._create_cofactor_matrix(exps)
         coeffs = self.optimize_using_nnls(self.density, cofac_matrix)
+        if self.model.normalized:
+            # Coefficients of the normalized Gaussians.
+            factor = np.power(exps / np.pi, 1.5)
+            factor[self.model.num_s:] *= 2.0 * exps[self.model.num_s:] / 3.0
+            coeffs = np.divide(coeffs, factor, out=np.zeros_like(coeffs), where=factor > 0.0)
         if local:
             results = self.fitting_obj.run(
                 coeffs, exps, tol=self.local_tol, maxiter=self.l_maxiter,
-- 
2.43.0


From a69558136b4341cd0ad710d281d5b6f9fe6cc745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 18/27] fix: one-function Kullback-Leibler solution when
 spherical=False

---
 bfit/greedy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index e4497a1..c8b61cf 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -960,8 +960,8 @@ class GreedyKLFPI(GreedyStrategy):
 
     def get_best_one_function_solution(self):
         r"""Obtain the best one s-type function to Kullback-Leibler."""
-        denom = self.grid.integrate(self.density * np.power(self.grid.points ** 2, 2.))
-        exps = 3. * self.integral_dens / (2. * 4. * np.pi * denom)
+        denom = self.fitting_obj.integrate(self.density * np.power(self.grid.points, 2.))
+        exps = 3. * self.fitting_obj.integrate(self.density) / (2. * denom)
         return np.array([self.integral_dens, exps])
 
     # pylint: disable=arguments-differ
-- 
2.43.0


From 4f418929fddc666ce1d5af5062fd6a652625da91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 19/27] fix: greedy methods run on cubic grids

---
 bfit/greedy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index c8b61cf..880b379 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -757,13 +757,13 @@ class GreedyLeastSquares(GreedyStrategy):
     def _solve_one_function_weight(self, weight):
         r"""Solve the best one-basis function solution."""
         a = 2.0 * np.sum(weight)
-        sum_of_grid_squared = np.sum(weight * np.power(self.grid.points, 2))
+        sum_of_grid_squared = np.sum(weight * np.power(self.model.radii, 2))
         b = 2.0 * sum_of_grid_squared
         sum_ln_electron_density = np.sum(weight * np.log(self.density))
         c = 2.0 * sum_ln_electron_density
         d = b
-        e = 2.0 * np.sum(weight * np.power(self.grid.points, 4))
-        f = 2.0 * np.sum(weight * np.power(self.grid.points, 2) * np.log(self.density))
+        e = 2.0 * np.sum(weight * np.power(self.model.radii, 4))
+        f = 2.0 * np.sum(weight * np.power(self.model.radii, 2) * np.log(self.density))
         big_a = (b * f - c * e) / (b * d - a * e)
         big_b = (a * f - c * d) / (a * e - b * d)
         coefficient = np.exp(big_a)
@@ -776,7 +776,7 @@ class GreedyLeastSquares(GreedyStrategy):
     def get_best_one_function_solution(self):
         r"""Obtain the best s-type function solution to least-squares using different weights."""
         # Minimizing weighted least squares with three different weights
-        weight1 = np.ones(len(self.grid.points))
+        weight1 = np.ones(len(self.model.radii))
         weight3 = np.power(self.density, 2.)
         p1 = self._solve_one_function_weight(weight1)
         cost_func1 = self.eval_obj_function(p1)
@@ -795,7 +795,7 @@ class GreedyLeastSquares(GreedyStrategy):
     def _create_cofactor_matrix(self, exponents):
         r"""Create cofactor matrix for solving nnls."""
         exponents_s = exponents[:self.model.num_s]
-        grid_squared_col = np.power(self.grid.points, 2.0).reshape((len(self.grid.points), 1))
+        grid_squared_col = np.power(self.model.radii, 2.0).reshape((len(self.model.radii), 1))
         exponential = np.exp(-exponents_s * grid_squared_col)
 
         if self.model.num_p != 0:
@@ -960,7 +960,7 @@ class GreedyKLFPI(GreedyStrategy):
 
     def get_best_one_function_solution(self):
         r"""Obtain the best one s-type function to Kullback-Leibler."""
-        denom = self.fitting_obj.integrate(self.density * np.power(self.grid.points, 2.))
+        denom = self.fitting_obj.integrate(self.density * np.power(self.model.radii, 2.))
         exps = 3. * self.fitting_obj.integrate(self.density) / (2. * denom)
         return np.array([self.integral_dens, exps])
 
-- 
2.43.0


From 462c9f134696a15c287258cc2d030c1a4ac329a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 20/27] fix: one-function least-squares solution of a density
 with zeros

---
 bfit/greedy.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 880b379..88057d3 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -756,14 +756,19 @@ class GreedyLeastSquares(GreedyStrategy):
 
     def _solve_one_function_weight(self, weight):
         r"""Solve the best one-basis function solution."""
+        # The logarithm is only defined where the density is positive.
+        positive = self.density > 0.0
+        weight = weight[positive]
+        radii = self.model.radii[positive]
+        log_density = np.log(self.density[positive])
         a = 2.0 * np.sum(weight)
-        sum_of_grid_squared = np.sum(weight * np.power(self.model.radii, 2))
+        sum_of_grid_squared = np.sum(weight * np.power(radii, 2))
         b = 2.0 * sum_of_grid_squared
-        sum_ln_electron_density = np.sum(weight * np.log(self.density))
+        sum_ln_electron_density = np.sum(weight * log_density)
         c = 2.0 * sum_ln_electron_density
         d = b
-        e = 2.0 * np.sum(weight * np.power(self.model.radii, 4))
-        f = 2.0 * np.sum(weight * np.power(self.model.radii, 2) * np.log(self.density))
+        e = 2.0 * np.sum(weight * np.power(radii, 4))
+        f = 2.0 * np.sum(weight * np.power(radii, 2) * log_density)
         big_a = (b * f - c * e) / (b * d - a * e)
         big_b = (a * f - c * d) / (a * e - b * d)
         coefficient = np.exp(big_a)
-- 
2.43.0


From 647dbfbf2c0958824fe273ad2a8b030a80d6edc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:47 +0000
Subject: [PATCH 21/27] fix: divergence of a model that is not a number is not
 zero

---
 bfit/measure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bfit/measure.py b/bfit/measure.py
index 56dc9c9..473ba8e 100644
--- a/bfit/measure.py
+++ b/bfit/measure.py
@@ -217,6 +217,8 @@ class KLDivergence(Measure):
         # compute ratio & replace masked values by 1.0
         ratio = density / np.ma.masked_less_equal(model, self.mask_value)
         ratio = np.ma.filled(ratio, fill_value=1.0)
+        # masked arrays hide undefined ratios, a model that is not a number is not a perfect fit
+        ratio = np.where(np.isnan(model), np.nan, ratio)
 
         # compute KL divergence
         # Add ignoring division by zero and multiplying by np.nan
@@ -344,6 +346,8 @@ class TsallisDivergence(Measure):
         # compute ratio & replace masked values by 1.0
         ratio = density / np.ma.masked_less_equal(model, self.mask_value)
         ratio = np.ma.filled(ratio, fill_value=0.0)
+        # masked arrays hide undefined ratios, a model that is not a number has no divergence
+        ratio = np.where(np.isnan(model), np.nan, ratio)
         # zero ratios contribute zero for every alpha (0^(alpha-1) diverges if alpha < 1)
         power = np.zeros_like(ratio)
         np.power(ratio, self.alpha - 1.0, out=power, where=ratio != 0.)
-- 
2.43.0


From b123edaf377d8128faf0857c4bf2f622c79b0649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 22/27] fix: state the actual default of with_constraint in
 GreedyLeastSquares

---
 bfit/greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 88057d3..d7029f1 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -706,7 +706,7 @@ class GreedyLeastSquares(GreedyStrategy):
             density. Useful when one knows the actual integration value of the density.
         with_constraint : bool
             If true, then adds the constraint that the integration of the model density must
-            be equal to the constraint of true density. The default is True.
+            be equal to the constraint of true density. The default is False.
         l_maxiter : int, optional
             Maximum number of iterations when optimizing an initial guess in the `scipy.optimize`
             method for optimizing through all initial guesses (local choices).
-- 
2.43.0


From fb8dd8b6126c382e324caae6718d8261ba9b066c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 23/27] fix: describe mask_value of GreedyKLFPI

---
 bfit/greedy.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index d7029f1..25247d3 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -896,9 +896,8 @@ class GreedyKLFPI(GreedyStrategy):
         g_maxiter : int, optional
             Maximum number of iterations when optimizing an initial guess in the KL-FPI method
             for further optimizing the best local choice (global choice).
-        mask_value : str, optional
-            The method used for optimizing parameters. Default is "slsqp".
-            See "scipy.optimize.minimize" for options.
+        mask_value : float, optional
+            The elements less than or equal to this number are masked in a division.
         integral_dens : float, optional
             If this is provided, then the model is constrained to integrate to this value.
             If not, then the model is constrained to the numerical integration of the
-- 
2.43.0


From a8a785c85548afb47a781e269908bf71b52ecdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:23 +0000
Subject: [PATCH 24/27] fix: gradient of ScipyFit's objective was truncated for
 integer parameters

---
 bfit/fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bfit/fit.py b/bfit/fit.py
index aecf305..238f10c 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -727,7 +727,8 @@ class ScipyFit(_BaseFit):
         k, dk = self.measure.evaluate(self.density, m, deriv=True)
         # compute objective function & its derivative
         obj = self.integrate(self.weights * k)
-        d_obj = np.zeros_like(x)
+        # gradient of integer parameters is not integer
+        d_obj = np.zeros(len(x), dtype=np.result_type(x, float))
         for index in range(len(x)):
             d_obj[index] = self.integrate(self.weights * dk * dm[:, index])
         return obj, d_obj
-- 
2.43.0


From 730defec749156333b72c05fc4db31b1f15697ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:23 +0000
Subject: [PATCH 25/27] fix: greedy guesses generated from integer exponents
 were truncated

---
 bfit/greedy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 25247d3..eeff1cd 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -125,6 +125,8 @@ def get_next_choices(factor, coeffs, fparams, coeff_val=100.):
         List of the next possible initial guesses for :math:`(n+1)` basis-functions,
         coefficients are listed first, then exponents.
     """
+    # guesses made from integers are not integers
+    coeffs, fparams = coeffs * 1.0, fparams * 1.0
     size = fparams.shape[0]
     all_choices = []
     for index, exp in np.ndenumerate(fparams):
@@ -199,6 +201,8 @@ def get_two_next_choices(factor, coeffs, fparams, coeff_val=100.):
                 all_choices_of_coeffs.append(np.append(coeffs, np.array([coeff_val])))
         return all_choices_of_coeffs, all_choices_of_exponents
 
+    # guesses made from integers are not integers
+    coeffs, fparams = coeffs * 1.0, fparams * 1.0
     size = len(fparams)
     choices_coeff = []
     choices_fparams = []
-- 
2.43.0


From e69c015767e427fcf4bda50813571a2571231092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:13 +0000
Subject: [PATCH 26/27] fix: ClenshawRadialGrid points have the requested
 number type also with extra points

---
 bfit/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bfit/grid.py b/bfit/grid.py
index 0d2cca8..be200c5 100644
--- a/bfit/grid.py
+++ b/bfit/grid.py
@@ -182,7 +182,8 @@ class ClenshawRadialGrid(_BaseRadialGrid):
             # check extra points
             if not hasattr(extra_pts, '__iter__') or isinstance(extra_pts, str):
                 raise TypeError("Argument extra_pts should be an iterable.")
-            points = np.concatenate((core_points, diff_points, extra_pts))
+            extra_points = np.array(list(extra_pts), dtype=core_points.dtype)
+            points = np.concatenate((core_points, diff_points, extra_points))
         else:
             points = np.concatenate((core_points, diff_points))
 
-- 
2.43.0


From db351cc00d80483c2165fa9713be40b8b13d8922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:40 +0000
Subject: [PATCH 27/27] fix: one-function least-squares solution ignores
 weightings whose cost is not a number

---
 bfit/greedy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index eeff1cd..cf90da0 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -796,8 +796,10 @@ class GreedyLeastSquares(GreedyStrategy):
         p3 = self._solve_one_function_weight(weight3)
         cost_func3 = self.eval_obj_function(p3)
 
+        # a cost function that is not a number is never the smallest one
         p_min = min(
-            [(cost_func1, p1), (cost_func2, p2), (cost_func3, p3)], key=lambda t: t[0]
+            [(cost_func1, p1), (cost_func2, p2), (cost_func3, p3)],
+            key=lambda t: (np.isnan(t[0]), t[0])
         )
         return p_min[1]
 
-- 
2.43.0

