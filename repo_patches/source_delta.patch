From 9f6c0c373790fc4ea95d9475635e741fb8c574cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:42 +0000
Subject: [PATCH 01/11] fix: SLFM grid kernel no longer adds an identity for a
 missing coregionalized or diagonal part

---
 runlmc/lmc/grid_kernel.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/runlmc/lmc/grid_kernel.py b/runlmc/lmc/grid_kernel.py
index 82ed108..aa74e39 100644
--- a/runlmc/lmc/grid_kernel.py
+++ b/runlmc/lmc/grid_kernel.py
@@ -32,9 +32,8 @@ class GridKernel(Matrix):
         elif ktype == 'bt':
             self.grid_K = _gen_bt_grid(functional_kernel, grid_k, active_dim)
         elif ktype == 'slfm':
-            m = interpolant.shape[1]
             self.grid_K = _gen_slfm_grid(
-                functional_kernel, grid_k, m, active_dim)
+                functional_kernel, grid_k, active_dim)
         else:
             assert False, ktype
 
@@ -74,18 +73,18 @@ def gen_grid_kernel(fk, grid_dists, interpolants, lens_per_output):
     return SumMatrix(ls), grid_kerns
 
 
-def _gen_slfm_grid(functional_kernel, grid_k, m, active_dim):
-    coreg_Ks = _gen_coreg_Ks(functional_kernel, grid_k, m, active_dim)
-    diag_Ks = _gen_diag_Ks(functional_kernel, grid_k, m, active_dim)
-    return SumMatrix([coreg_Ks, diag_Ks])
+def _gen_slfm_grid(functional_kernel, grid_k, active_dim):
+    coreg_Ks = _gen_coreg_Ks(functional_kernel, grid_k, active_dim)
+    diag_Ks = _gen_diag_Ks(functional_kernel, grid_k, active_dim)
+    return SumMatrix([K for K in (coreg_Ks, diag_Ks) if K is not None])
 
 
-def _gen_coreg_Ks(fk, grid_k, m, active_dim):
+def _gen_coreg_Ks(fk, grid_k, active_dim):
     kidxs = fk.active_dims[active_dim]
     non_indep = fk.filter_non_indep_idxs(kidxs)
     all_coreg = [fk.coreg_vecs[idx] for idx in non_indep]
     if not all_coreg:
-        return Identity(m)
+        return None
     ranks = np.array([len(coreg) for coreg in all_coreg])
     A_star = np.vstack(all_coreg).T
     I_m = Identity(np.prod(grid_k.shape[1:]))
@@ -100,9 +99,9 @@ def _gen_coreg_Ks(fk, grid_k, m, active_dim):
     return coreg_Ks
 
 
-def _gen_diag_Ks(fk, grid_k, m, active_dim):
+def _gen_diag_Ks(fk, grid_k, active_dim):
     if fk.num_lmc[active_dim] == 0 and fk.num_indep[active_dim] == 0:
-        return Identity(m)
+        return None
     kidxs = fk.active_dims[active_dim]
     diags = np.column_stack([fk.coreg_diags[kidx] for kidx in kidxs])
     Q = grid_k.shape[0]
-- 
2.43.0


From 696aa1fd80741a39af08b4f5362714dc45c0884f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:42 +0000
Subject: [PATCH 02/11] fix: FunctionalKernel accepts its default (absent) LMC
 kernels and ranks

---
 runlmc/lmc/functional_kernel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runlmc/lmc/functional_kernel.py b/runlmc/lmc/functional_kernel.py
index d1bb0eb..1befe08 100644
--- a/runlmc/lmc/functional_kernel.py
+++ b/runlmc/lmc/functional_kernel.py
@@ -95,13 +95,14 @@ class FunctionalKernel(Parameterized):
         if not lmc_kernels and not slfm_kernels and not indep_gp:
             raise ValueError('Number of kernels should be >0')
 
+        lmc_kernels = lmc_kernels or []
+        lmc_ranks = lmc_ranks or []
         if len(lmc_kernels) != len(lmc_ranks):
             raise ValueError('# LMC kernels should equal # LMC ranks')
 
         if not all(map(lambda rank: rank > 0, lmc_ranks)):
             raise ValueError('LMC ranks not positive')
 
-        lmc_kernels = lmc_kernels or []
         slfm_kernels = slfm_kernels or []
         indep_gp = indep_gp or []
         indep_gp_index = indep_gp_index or range(len(indep_gp))
-- 
2.43.0


From e7418e43480a477a5056f31b3dd3d88d320bf83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:42 +0000
Subject: [PATCH 03/11] fix: prior variance of kernels that only accept arrays
 of distances (Identity)

---
 runlmc/models/interpolated_llgp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runlmc/models/interpolated_llgp.py b/runlmc/models/interpolated_llgp.py
index d867c28..37dca4b 100644
--- a/runlmc/models/interpolated_llgp.py
+++ b/runlmc/models/interpolated_llgp.py
@@ -307,7 +307,8 @@ class InterpolatedLLGP(MultiGP):
                                  for per_output
                                  in self._functional_kernel.coreg_vecs)
         coregs += np.column_stack(self._functional_kernel.coreg_diags)
-        zero_dist = {v: 0 for v in self._functional_kernel.active_dims}
+        zero_dist = {v: np.zeros(1)
+                     for v in self._functional_kernel.active_dims}
         kernels = self._functional_kernel.eval_kernels(zero_dist)
         native_output_var = coregs.dot(kernels).reshape(-1)
         native_var = native_output_var + self._functional_kernel.noise
-- 
2.43.0


From 295debc609e72b594522189cdaaef8cd7f5fe793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:42 +0000
Subject: [PATCH 04/11] fix: precomputed variance when the kernels use a proper
 subset of the input dimensions

---
 runlmc/models/interpolated_llgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/models/interpolated_llgp.py b/runlmc/models/interpolated_llgp.py
index 37dca4b..2618c02 100644
--- a/runlmc/models/interpolated_llgp.py
+++ b/runlmc/models/interpolated_llgp.py
@@ -370,7 +370,7 @@ class InterpolatedLLGP(MultiGP):
         if len(self.interpolants) != 1:
             raise ValueError(
                 'precompute prediction mode unavailable for split kernels')
-        W, WT = self.interpolants[tuple(range(self.input_dim))]
+        (W, WT), = self.interpolants.values()
         K_UU = self.kernel.K.Ks[0].grid_K
         # SKI should have a half_matrix() method returning these two,
         # in which case we'd just ask self.kernel.K.ski for them.
-- 
2.43.0


From 66037984dec727581d0b0309074557bf076ff06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:42 +0000
Subject: [PATCH 05/11] fix: on-the-fly variance prediction without any test
 points

---
 runlmc/models/interpolated_llgp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runlmc/models/interpolated_llgp.py b/runlmc/models/interpolated_llgp.py
index 2618c02..2a4faaa 100644
--- a/runlmc/models/interpolated_llgp.py
+++ b/runlmc/models/interpolated_llgp.py
@@ -392,7 +392,8 @@ class InterpolatedLLGP(MultiGP):
         K_test_X = ExactLMCLikelihood.kernel_from_indices(
             Xs, self.Xs, self._functional_kernel)
         ls = [(self.kernel.K, k_star) for k_star in K_test_X]
-        inverted = np.array(self._pool.starmap(Iterative.solve, ls)).T
+        inverted = np.array(self._pool.starmap(Iterative.solve, ls))
+        inverted = inverted.reshape(K_test_X.shape).T
 
         full_mat = K_test_X.dot(inverted)
         return np.diag(full_mat)
-- 
2.43.0


From d31587fedb9dc0a89f2ec0581bb364907e6eef32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:42 +0000
Subject: [PATCH 06/11] fix: Jacobian gradient terms of every prior, not only
 the last one

---
 runlmc/parameterization/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/parameterization/model.py b/runlmc/parameterization/model.py
index c2082fa..3979a4f 100644
--- a/runlmc/parameterization/model.py
+++ b/runlmc/parameterization/model.py
@@ -113,7 +113,7 @@ class Model(paramz.Model, _PriorizableNode):
 
         # Incorporate Jacobian for transformations again
         indices_with_prior = {
-            idx for idx in indices for _, indices in self.priors.items()}
+            idx for _, indices in self.priors.items() for idx in indices}
         for constraint, indices in self.constraints.items():
             if not isinstance(constraint, Transformation):
                 continue
-- 
2.43.0


From f2c6601fa9a38060104f26f9a84b40e168dbd786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:42 +0000
Subject: [PATCH 07/11] fix: the scale of a scaled kernel is a linked parameter

---
 runlmc/kern/scaled.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runlmc/kern/scaled.py b/runlmc/kern/scaled.py
index 6f17e51..59731f9 100644
--- a/runlmc/kern/scaled.py
+++ b/runlmc/kern/scaled.py
@@ -18,6 +18,7 @@ class Scaled(StationaryKern):
         self.k = k
         self.link_parameter(k)
         self.scale = Param('scale', 1, Logexp())
+        self.link_parameter(self.scale)
 
     def from_dist(self, dists):
         return self.scale * self.k.from_dist(dists)
-- 
2.43.0


From a47e0d1d4290e34d4061f826de2c0dad631059a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:42 +0000
Subject: [PATCH 08/11] fix: autogrid leaves the grid sizes passed by the
 caller alone

---
 runlmc/approx/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/approx/interpolation.py b/runlmc/approx/interpolation.py
index 59e3897..25cbc42 100644
--- a/runlmc/approx/interpolation.py
+++ b/runlmc/approx/interpolation.py
@@ -209,7 +209,7 @@ def autogrid(Xs, lo, hi, m):
     delta = (hi - lo) / m
     lo -= 2 * delta
     hi += 2 * delta
-    m += 4
+    m = m + 4
 
     grids = [np.linspace(l, h, int(mm)) for l, h, mm in zip(lo, hi, m)]
     return grids
-- 
2.43.0


From ae94793625ea70805b199148bbc434a624ed5332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:54 +0000
Subject: [PATCH 09/11] fix: eigenvalue bound of an interpolated matrix

---
 runlmc/approx/ski.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runlmc/approx/ski.py b/runlmc/approx/ski.py
index ed095c6..3de2815 100644
--- a/runlmc/approx/ski.py
+++ b/runlmc/approx/ski.py
@@ -20,4 +20,6 @@ class SKI(Composition):
         return self.W.dot(WKT.T)
 
     def upper_eig_bound(self):
-        return self.K.upper_eig_bound() * self.shape[0] / self.m
+        # largest eigenvalue of W W^T is at most |W|_1 |W|_inf
+        W = abs(self.W)
+        return self.K.upper_eig_bound() * W.sum(0).max() * W.sum(1).max()
-- 
2.43.0


From 140ba7bb43682fff861ed3ef5488b0d100a436c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:40 +0000
Subject: [PATCH 10/11] fix: map_entries visits entries in index order whatever
 the memory layout

np.nditer defaults to memory order, so a transposed, column-major or reversed
argument came back with its entries permuted.
---
 runlmc/util/numpy_convenience.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/util/numpy_convenience.py b/runlmc/util/numpy_convenience.py
index b22445c..b2c9ae8 100644
--- a/runlmc/util/numpy_convenience.py
+++ b/runlmc/util/numpy_convenience.py
@@ -22,7 +22,7 @@ def map_entries(f, nparr):
     """
     if nparr.size == 0:
         return nparr
-    it = np.nditer(nparr)
+    it = np.nditer(nparr, order='C')
     shape = nparr.shape
     dtype = nparr.dtype
     return np.fromiter(map(f, it), dtype).reshape(shape)
-- 
2.43.0


From 58091bb57d4370ab313398943b60e22ec88a03ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:17 +0000
Subject: [PATCH 11/11] fix: look up a parameter's constraints when it is given
 a prior

_all_constraints passed the bound method instead of its result, so the
checks in set_prior saw no constraint: priors over all reals were
accepted on constrained and on fixed parameters.
---
 runlmc/parameterization/priorizable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/parameterization/priorizable.py b/runlmc/parameterization/priorizable.py
index ab7ce5e..50ff7ac 100644
--- a/runlmc/parameterization/priorizable.py
+++ b/runlmc/parameterization/priorizable.py
@@ -64,7 +64,7 @@ class PriorizableLeaf(_PriorizableNode):
             'Should not be fixed with a prior'
 
     def _all_constraints(self):
-        for con in self.constraints.properties_for(self._raveled_index):
+        for con in self.constraints.properties_for(self._raveled_index()):
             for i in con:
                 yield i
 
-- 
2.43.0

