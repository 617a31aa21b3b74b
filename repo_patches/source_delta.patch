From 857f105fbe36cdca6b9a28c0dc6e17fd5d02f678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 01/37] fix: negate supplied objective data for maximization in
 HypervolumeDerivatives

With minimization=False the reference point, function and derivatives are
negated internally, but objective points (Y) and Jacobians (YdX) passed in by
the caller were used as they are, so compute(Y=...) and
compute_derivatives(X, Y, YdX=...) were wrong.
---
 hvd/hypervolume_derivatives.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hvd/hypervolume_derivatives.py b/hvd/hypervolume_derivatives.py
index eae352d..9f58ce0 100644
--- a/hvd/hypervolume_derivatives.py
+++ b/hvd/hypervolume_derivatives.py
@@ -128,6 +128,8 @@ class HypervolumeDerivatives:
             assert self.func is not None
             X = self._check_X(X)
             Y = np.array([self.func(x) for x in X])
+        elif not self.minimization:  # the supplied points are not negated yet, contrary to `self.func`
+            Y = -1 * np.asarray(Y)
         return hypervolume(Y, self.ref)
 
     def compute_derivatives(
@@ -387,9 +389,14 @@ class HypervolumeDerivatives:
         self.N = X.shape[0]  # number of points
         if Y is None:  # do not evaluate the function when `Y` is provided
             Y = np.array([self.func(x) for x in X])  # `(N, n_objective)`
+        elif not self.minimization:  # the supplied points are not negated yet, contrary to `self.func`
+            Y = -1 * np.asarray(Y)
         # Jacobians
         # `(N, n_objective, n_decision_var)`
-        YdX = np.array([self.jac(x) for x in X]) if YdX is None else YdX.copy()
+        if YdX is None:
+            YdX = np.array([self.jac(x) for x in X])
+        else:
+            YdX = YdX.copy() if self.minimization else -1 * np.asarray(YdX)
         YdX = block_diag(*YdX)  # `(N * n_objective, N * n_decision_var)` grouped by points
         # Hessians
         if compute_hessian:
-- 
2.43.0


From ec38ab92a8aeec13d529ea962cd30ff3502daaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 02/37] fix: get_non_dominated returns an empty front instead
 of raising IndexError

---
 hvd/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/utils.py b/hvd/utils.py
index 0b30c9b..4ae39e4 100644
--- a/hvd/utils.py
+++ b/hvd/utils.py
@@ -241,7 +241,7 @@ def get_non_dominated(pareto_front: np.ndarray, return_index: bool = False, weak
             )
         if cond:
             pareto_indices.append(idx)
-    pareto_indices = np.array(pareto_indices)
+    pareto_indices = np.array(pareto_indices, dtype=int)
     pareto_front = pareto_front[pareto_indices].copy()
     return pareto_indices if return_index else pareto_front
 
-- 
2.43.0


From c197e21ba90ff348508addf6a43dbada957add0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:04 +0000
Subject: [PATCH 03/37] fix: chain-rule factor of the GD Hessian for p != 2

---
 hvd/delta_p.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/delta_p.py b/hvd/delta_p.py
index e6ff38d..ebe2e30 100644
--- a/hvd/delta_p.py
+++ b/hvd/delta_p.py
@@ -104,7 +104,7 @@ class GenerationalDistance:
                 if self.p != 2
                 else 0
             )
-            hessian = term + c1 * (
+            hessian = term + c1 * diff_norm[..., np.newaxis] ** (self.p - 2) * (
                 np.einsum("ijk,ijl->ikl", J, J) + np.einsum("ijkl,ij->ikl", H, diff)
             )  # (N, dim, dim)
             return grad, hessian
-- 
2.43.0


From d3925360f37b4eac1c4a2e637b26b1720e69815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:04 +0000
Subject: [PATCH 04/37] fix: IGD follows a change of the number of reference
 points

---
 hvd/delta_p.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hvd/delta_p.py b/hvd/delta_p.py
index ebe2e30..1ff81d3 100644
--- a/hvd/delta_p.py
+++ b/hvd/delta_p.py
@@ -138,13 +138,17 @@ class InvertedGenerationalDistance:
         self.func = func
         self.jac = jac
         self.hess = hess
-        self.M = self.ref.N
         self.matching = matching
         self.re_match = True
 
     def __str__(self) -> str:
         return "IGD (w/matching)" if self.matching else "IGD"
 
+    @property
+    def M(self) -> int:
+        # the reference set can change its size, e.g., when it gets matched
+        return self.ref.N
+
     def _compute_indices(self, Y: np.ndarray):
         """find for each reference point, the index of its closest point in the approximation set
 
-- 
2.43.0


From e0a041e77320dbc4894653fa39cb9016444f5b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:51 +0000
Subject: [PATCH 05/37] fix: match each cluster to its own component when there
 are more components than clusters

---
 hvd/reference_set.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hvd/reference_set.py b/hvd/reference_set.py
index c3ada26..5696e01 100644
--- a/hvd/reference_set.py
+++ b/hvd/reference_set.py
@@ -59,7 +59,7 @@ class ReferenceSet:
         idx = self._match_components(Y)
         out = np.zeros((N, self.n_obj))
         self._medoids_idx = np.empty(N, dtype=object)
-        for k, v in enumerate(idx):
+        for k, v in idx:
             Y_ = Y[v]
             assert len(self._ref[k]) >= len(Y_)
             try:
@@ -132,17 +132,17 @@ class ReferenceSet:
             Y_partitions = [Y[idx] for idx in self.Y_idx]
         return Y_partitions
 
-    def _match_components(self, Y: Dict[int, np.ndarray]) -> np.ndarray:
+    def _match_components(self, Y: Dict[int, np.ndarray]) -> List[tuple]:
         n, m = self.n_components, len(Y)
         assert n >= m  # TODO: find a solution here
         if n == 1 and m == 1:
-            idx = [0]
+            idx = [(0, 0)]
         else:
             # match the clusters of `X` and `Y`
-            idx = np.zeros(m)
             cost = np.array([directed_hausdorff(self._ref[i], Y[j])[0] for i in range(n) for j in range(m)])
             cost = cost.reshape(n, m)
-            idx = linear_sum_assignment(cost)[1]
+            # pairs of (component, cluster); if n > m, some components are not matched
+            idx = list(zip(*linear_sum_assignment(cost)))
         return idx
 
     def _cluster(self, component: np.ndarray, k: int) -> np.ndarray:
-- 
2.43.0


From 6a3c69df8aadbb09a6b3b249dc0deb2e2e65f9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:51 +0000
Subject: [PATCH 06/37] fix: matching when no point is closest to one of the
 reference components

---
 hvd/reference_set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hvd/reference_set.py b/hvd/reference_set.py
index 5696e01..1234acc 100644
--- a/hvd/reference_set.py
+++ b/hvd/reference_set.py
@@ -127,7 +127,8 @@ class ReferenceSet:
             if self.Y_idx is None:
                 D = np.array([cdist(self._ref[i], Y).min(axis=0) for i in range(self.n_components)])
                 labels = np.argmin(D, axis=0)
-                self.Y_idx = [np.nonzero(labels == i)[0] for i in range(self.n_components)]
+                # components without any close point do not get a cluster
+                self.Y_idx = [np.nonzero(labels == i)[0] for i in np.unique(labels)]
             # parition `Y` according to `Y_idx`
             Y_partitions = [Y[idx] for idx in self.Y_idx]
         return Y_partitions
-- 
2.43.0


From b9b2e2789d8475ff2c2c3dff3b64ed012bad55b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:51 +0000
Subject: [PATCH 07/37] fix: partition the points anew when their number
 changed since the last matching

---
 hvd/reference_set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hvd/reference_set.py b/hvd/reference_set.py
index 1234acc..20a630a 100644
--- a/hvd/reference_set.py
+++ b/hvd/reference_set.py
@@ -124,7 +124,8 @@ class ReferenceSet:
         else:
             # if the clustering/partition of `Y` is not given, we partition `Y` in the way that
             # each point is assigned to the closest cluster of the reference set
-            if self.Y_idx is None:
+            # (or given for another number of points)
+            if self.Y_idx is None or sum(map(len, self.Y_idx)) != len(Y):
                 D = np.array([cdist(self._ref[i], Y).min(axis=0) for i in range(self.n_components)])
                 labels = np.argmin(D, axis=0)
                 # components without any close point do not get a cluster
-- 
2.43.0


From 2096020d56e37c792de70a8321de75bcff1bfbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:51 +0000
Subject: [PATCH 08/37] fix: State.save deletes the jac callback under its
 actual name

---
 hvd/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/base.py b/hvd/base.py
index 97260a6..6af91d3 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -281,7 +281,7 @@ class State:
         with open(filename + ".pkl", "wb") as file:
             __dict__ = self.__dict__.copy()
             del __dict__["func"]
-            del __dict__["_jac"]
+            del __dict__["jac"]
             del __dict__["h"]
             del __dict__["h_jac"]
             del __dict__["h_hess"]
-- 
2.43.0


From 801b3bd5f89d14968c68876bfa611ee3a194a63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:51 +0000
Subject: [PATCH 09/37] fix: State keeps float decision variables when updated
 from an integer array

---
 hvd/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/base.py b/hvd/base.py
index 6af91d3..49b9a83 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -150,7 +150,7 @@ class State:
     def update(
         self, X: np.ndarray, compute_gradient: bool = True, compute_hessian: bool = True
     ) -> None:
-        self.X = np.asarray(X).copy()
+        self.X = np.array(X, dtype=float)  # integer arrays would truncate later updates
         self.Y = self.evaluate(self.func, self.primal)
         self.J = self.eval_jac(self.primal) if compute_gradient else None
         self.cstr_value, self.active_indices = self.eval_cstr(self.primal)
-- 
2.43.0


From 888f6f52fed8633ce5a4d4aa4b77a24cbeb70ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:50 +0000
Subject: [PATCH 10/37] fix: State owns writable copies of evaluated values so
 update_one works after update

---
 hvd/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/base.py b/hvd/base.py
index 49b9a83..02d10b1 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -103,7 +103,7 @@ class State:
             return np.zeros((*prefix, *output_shape))
 
         evaluator = function if x.ndim == 1 else cls._get_batch_variant(function)
-        values = np.asarray(evaluator(x))
+        values = np.array(evaluator(x))  # own, writable memory
         return values if output_shape is None else values.reshape(*prefix, *output_shape)
 
     @staticmethod
-- 
2.43.0


From 1e533dd153df74cd90b6fa49620b55dbcfb83202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:09 +0000
Subject: [PATCH 11/37] fix: derivatives of the matched MMD follow a change of
 its weight beta

---
 hvd/mmd.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hvd/mmd.py b/hvd/mmd.py
index 138568c..289fa31 100644
--- a/hvd/mmd.py
+++ b/hvd/mmd.py
@@ -301,11 +301,11 @@ class MMDMatching:
         pairwise_dx = vmap(vmap(self.k_dx, in_axes=(None, 0)), in_axes=(0, None))
         matched_dx = vmap(self.k_dx)
 
-        def gradient(Y, matched_reference_set):
+        def gradient(Y, matched_reference_set, beta):
             yy_dx = pairwise_dx(Y, Y)
             yy_dx = yy_dx.sum(axis=1) - jnp.einsum("iij->ij", yy_dx)
             return 2 * (
-                self.beta * yy_dx / len(Y) ** 2
+                beta * yy_dx / len(Y) ** 2
                 - matched_dx(Y, matched_reference_set) / len(Y)
             )
 
@@ -316,15 +316,15 @@ class MMDMatching:
         pairwise_dxdy = vmap(vmap(self.k_dxdy, in_axes=(None, 0)), in_axes=(0, None))
         matched_dx2 = vmap(self.k_dx2)
 
-        def hessian(Y, matched_reference_set):
+        def hessian(Y, matched_reference_set, beta):
             N = len(Y)
             yy_dx2 = pairwise_dx2(Y, Y)
             indices = jnp.arange(N)
             diagonal = 2 * (
-                self.beta * (yy_dx2.sum(axis=1) - yy_dx2[indices, indices]) / N**2
+                beta * (yy_dx2.sum(axis=1) - yy_dx2[indices, indices]) / N**2
                 - matched_dx2(Y, matched_reference_set) / N
             )
-            blocks = 2 * self.beta * pairwise_dxdy(Y, Y).transpose(1, 0, 2, 3) / N**2
+            blocks = 2 * beta * pairwise_dxdy(Y, Y).transpose(1, 0, 2, 3) / N**2
             return blocks.at[indices, indices].set(diagonal)
 
         return hessian
@@ -392,7 +392,7 @@ class MMDMatching:
         Y, YdX, YdX2 = self._compute_objective_derivatives(X, Y, jacobian, compute_hessian=False)
         self.ref.match(Y)  # matching `Y` to the medoids of the reference set
         MMDdY = np.asarray(
-            self._kernel_gradient(jnp.asarray(Y), jnp.asarray(self.ref.reference_set))
+            self._kernel_gradient(jnp.asarray(Y), jnp.asarray(self.ref.reference_set), self.beta)
         )
         MMDdX = np.einsum("ijk,ij->ik", YdX, MMDdY)
         return dict(MMDdX=MMDdX, MMDdY=MMDdY, Y=Y, YdX=YdX, YdX2=YdX2)
@@ -413,7 +413,7 @@ class MMDMatching:
         YdX2 = np.array([self.hessian(x) for x in self._check_X(X)])
         N, dim_y = Y.shape
         MMDdY2_blocks = np.asarray(
-            self._kernel_hessian(jnp.asarray(Y), jnp.asarray(self.ref.reference_set))
+            self._kernel_hessian(jnp.asarray(Y), jnp.asarray(self.ref.reference_set), self.beta)
         )
         MMDdY2 = MMDdY2_blocks.transpose(0, 2, 1, 3).reshape(N * dim_y, N * dim_y)
         MMDdX2 = np.asarray(
-- 
2.43.0


From b5da2f7276be42bd9baef5c3a863aff5a2fd3da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:39 +0000
Subject: [PATCH 12/37] fix: maximal step size of the HVN when a layer does not
 move

---
 hvd/newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/newton.py b/hvd/newton.py
index d95569b..8a2e7a6 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -273,7 +273,7 @@ class HVN:
         normal_vectors = np.c_[np.eye(dim * N), -1 * np.eye(dim * N)]
         dist = np.r_[np.abs(X.ravel() - np.tile(self.xl, N)), np.abs(np.tile(self.xu, N) - X.ravel())]
         v = step.ravel() @ normal_vectors
-        return min(1, 0.25 * np.min(dist[v < 0] / np.abs(v[v < 0])))
+        return min(1, 0.25 * np.min(dist[v < 0] / np.abs(v[v < 0]), initial=np.inf))
 
     def _get_phi_func(self, state: State, step: np.ndarray) -> callable:
         def phi_func(alpha: float) -> float:
-- 
2.43.0


From 62d4553bb7ade8f433b1f5113bf784779c6b3f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:49 +0000
Subject: [PATCH 13/37] fix: project the step of DpN on the bound that blocks
 it (argmin picks NaN of inactive axes)

---
 hvd/newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/newton.py b/hvd/newton.py
index 8a2e7a6..59e8d3d 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -679,7 +679,7 @@ class DpN:
         # project Newton's direction onto the box boundary
         idx = max_step_size == 0
         if np.any(idx) > 0:
-            proj_dim = [np.argmin(_) for _ in s[idx]]
+            proj_dim = [np.nanargmin(_) for _ in s[idx]]
             proj_axis = normal_vectors[:, proj_dim]
             step_primal[idx] -= (np.einsum("ij,ji->i", step_primal[idx], proj_axis) * proj_axis).T
             step[:, : self.dim_p] = step_primal
-- 
2.43.0


From 8fe511af8bb99c6e1c2e52a8d5ad2cd1834fde0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:57 +0000
Subject: [PATCH 14/37] fix: shift the reference set of an unmatched MMDNewton
 only when a shift is due

---
 hvd/mmd_newton.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index 23aca68..5de603f 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -285,8 +285,9 @@ class MMDNewton:
             masks = np.bitwise_and(np.isclose(distance, 0), np.isclose(step_norm, 0))
 
         indices = np.nonzero(masks)[0]
-        self.ref.shift(0.08, indices)
-        for k in indices:  # log the updated medoids
+        if len(indices) > 0:  # without matching, `shift` moves the entire reference set
+            self.ref.shift(0.08, indices)
+        for k in indices if self.matching else []:  # log the updated medoids
             self.history_medoids[k].append(self.ref.reference_set[k].copy())
         self.logger.info(f"{len(indices)} target points are shifted")
 
-- 
2.43.0


From 9baa0e8a28429d0bd0bf56799c6d1cd18fd4b9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:18 +0000
Subject: [PATCH 15/37] fix: MMDNewton skips the line search only when the step
 vanishes, not when its median does

---
 hvd/mmd_newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index 5de603f..80ba93a 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -296,7 +296,7 @@ class MMDNewton:
     ) -> float:
         """backtracking line search with Armijo's condition. Global step-size control"""
         c1 = 1e-6
-        if 11 < 2 or np.any(np.isclose(np.median(step[:, : self.dim_p]), np.finfo(np.double).resolution)):
+        if np.all(np.isclose(step, 0)):  # the median of signed components also vanishes for long steps
             return np.array([1])
 
         def phi_func(alpha):
-- 
2.43.0


From b67eeb6a90f40b749ec34ce68e4c297a84208e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:17 +0000
Subject: [PATCH 16/37] fix: Lara removes coinciding points also in a box with
 infinite bounds

---
 hvd/gradient_based.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/gradient_based.py b/hvd/gradient_based.py
index 9562a21..84f8847 100644
--- a/hvd/gradient_based.py
+++ b/hvd/gradient_based.py
@@ -159,7 +159,7 @@ class Lara:
         drop_idx_X = set([])
         for i in range(self.N):
             if i not in drop_idx_X:
-                drop_idx_X |= set(np.nonzero(np.isclose(D[i, :], 0, rtol=self.eps))[0]) - set([i])
+                drop_idx_X |= set(np.nonzero(np.isclose(D[i, :], 0))[0]) - set([i])
 
         # TODO: get rid of weakly-dominated points
         drop_idx_Y = set([])
-- 
2.43.0


From 27ba39cc07c0a8a10fd3891fe2d5780e18270b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:34 +0000
Subject: [PATCH 17/37] fix: HVN removes coinciding points also in a box with
 infinite bounds

---
 hvd/newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/newton.py b/hvd/newton.py
index 59e8d3d..376d147 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -291,7 +291,7 @@ class HVN:
         drop_idx_X = set([])
         for i in range(self.N):
             if i not in drop_idx_X:
-                drop_idx_X |= set(np.nonzero(np.isclose(D[i, :], 0, rtol=self.eps))[0]) - set([i])
+                drop_idx_X |= set(np.nonzero(np.isclose(D[i, :], 0))[0]) - set([i])
 
         # TODO: get rid of weakly-dominated points
         drop_idx_Y = set([])
-- 
2.43.0


From c0be13b11faca679188329734ab737a0f029beda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:02 +0000
Subject: [PATCH 18/37] fix: SMS-EMOA with three or more objectives (numpy code
 cannot be traced by jax.jit)

---
 hvd/moea/sms_emoa.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/hvd/moea/sms_emoa.py b/hvd/moea/sms_emoa.py
index a600424..7a5db29 100644
--- a/hvd/moea/sms_emoa.py
+++ b/hvd/moea/sms_emoa.py
@@ -1,5 +1,4 @@
 import numpy as np
-from jax import jit
 from pymoo.algorithms.base.genetic import GeneticAlgorithm
 from pymoo.core.population import Population
 from pymoo.core.survival import Survival
@@ -20,7 +19,6 @@ from ..exact import ExactHypervolume
 # NOTE: speedup the MC hypervolume contribution with `numba`
 
 
-@jit
 def alpha(N, k):
     alpha = np.zeros(N + 1)
 
@@ -30,7 +28,6 @@ def alpha(N, k):
     return alpha
 
 
-@jit
 def hv_monte_carlo(dom, V, n_dom=None):
     N, n_samples = dom.shape
     if n_dom is None:
@@ -41,7 +38,6 @@ def hv_monte_carlo(dom, V, n_dom=None):
     return hv
 
 
-@jit
 def hvc_monte_carlo(dom, V, n_dom=None, k=1):
     N, n_samples = dom.shape
     if n_dom is None:
-- 
2.43.0


From 237c7f5153cb4289e1f332a5f7156d3d3addfe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:02 +0000
Subject: [PATCH 19/37] fix: SMS-EMOA keeps its population when no offspring
 can be generated

---
 hvd/moea/sms_emoa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hvd/moea/sms_emoa.py b/hvd/moea/sms_emoa.py
index 7a5db29..e7f5031 100644
--- a/hvd/moea/sms_emoa.py
+++ b/hvd/moea/sms_emoa.py
@@ -245,6 +245,7 @@ class SMSEMOA(GeneticAlgorithm):
             ideal, nadir = F.min(axis=0), F.max(axis=0) + 1e-32
 
         # merge the offsprings with the current population
+        pop = self.pop
         if infills is not None:
             pop = Population.merge(self.pop, infills)
 
-- 
2.43.0


From 23d7307ba27a13ee2d607053e09a34d5241fd2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:17 +0000
Subject: [PATCH 20/37] fix: RSG with a component whose share of the points
 rounds to zero

---
 hvd/rsg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/rsg.py b/hvd/rsg.py
index 5610fb2..2608a2a 100644
--- a/hvd/rsg.py
+++ b/hvd/rsg.py
@@ -44,7 +44,7 @@ def interpolate_tst(X: np.ndarray, Nf: int) -> np.ndarray:
     keep[1:] = np.any(np.diff(P, axis=0) != 0, axis=1)
     P = P[keep]
     n = len(P)
-    if n < 2:
+    if n < 2 or Nf < 1:
         return np.repeat(P[:1], Nf, axis=0)
 
     seg = P[1:] - P[:-1]
-- 
2.43.0


From a133312650272a4b5a1e0c4796eca5a98aa07993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:17 +0000
Subject: [PATCH 21/37] fix: RSG when every component consists of coinciding
 points

---
 hvd/rsg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hvd/rsg.py b/hvd/rsg.py
index 2608a2a..7a00fb4 100644
--- a/hvd/rsg.py
+++ b/hvd/rsg.py
@@ -90,6 +90,8 @@ def RSG(Py: np.ndarray, Nf: int, eps: float = 0.08, minpts: int = 2) -> np.ndarr
 
             comp_length[0, comp] = distances.sum()
 
+        if comp_length.sum() == 0:  # components of coinciding points only: equal shares
+            comp_length[:] = 1.0
         total_length = comp_length.sum()
 
         for i in range(num_cluesters):
-- 
2.43.0


From e662df9a741eb98c3ee18df54154cf8b7680321a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:02 +0000
Subject: [PATCH 22/37] fix: handle_box_constraint no longer overwrites the
 caller's array

---
 hvd/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/utils.py b/hvd/utils.py
index 4ae39e4..44bf198 100644
--- a/hvd/utils.py
+++ b/hvd/utils.py
@@ -267,7 +267,7 @@ def handle_box_constraint(x: np.ndarray, lb: np.ndarray, ub: np.ndarray) -> np.n
     Analysis" as alorithm 6.
 
     """
-    x = np.asarray(x, dtype="float")
+    x = np.array(x, dtype="float")  # a copy: the caller's array must not change
     shape_ori = x.shape
     x = np.atleast_2d(x)
     lb = np.atleast_1d(lb)
-- 
2.43.0


From 59b1f5cf102663139983ef5694d8331d1d1a68cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:02 +0000
Subject: [PATCH 23/37] fix: handle_box_constraint with coinciding bounds
 (returned NaN)

---
 hvd/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hvd/utils.py b/hvd/utils.py
index 44bf198..de216df 100644
--- a/hvd/utils.py
+++ b/hvd/utils.py
@@ -287,7 +287,8 @@ def handle_box_constraint(x: np.ndarray, lb: np.ndarray, ub: np.ndarray) -> np.n
     LB = lb[valid][:, np.newaxis]
     UB = ub[valid][:, np.newaxis]
 
-    y = (x[valid, :] - LB) / (UB - LB)
+    width = np.where(UB > LB, UB - LB, 1.0)  # lb == ub: everything folds onto the bound
+    y = (x[valid, :] - LB) / width
     I = np.mod(np.floor(y), 2) == 0
     yprime = np.zeros(y.shape)
     yprime[I] = np.abs(y[I] - np.floor(y[I]))
-- 
2.43.0


From cf8850b7e39da546520797eebfde1b48c3da2e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:02 +0000
Subject: [PATCH 24/37] fix: set_bounds accepts numpy integers as scalar bounds

---
 hvd/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/utils.py b/hvd/utils.py
index de216df..141bbfc 100644
--- a/hvd/utils.py
+++ b/hvd/utils.py
@@ -249,7 +249,7 @@ def get_non_dominated(pareto_front: np.ndarray, return_index: bool = False, weak
 def set_bounds(bound, dim):
     if isinstance(bound, str):
         bound = eval(bound)
-    elif isinstance(bound, (float, int)):
+    elif isinstance(bound, (float, int, np.number)):
         bound = [bound] * dim
     elif hasattr(bound, "__iter__"):
         bound = list(bound)
-- 
2.43.0


From 8593e2e560bda7e2d31d0ce15b79a5bbdd123029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:52 +0000
Subject: [PATCH 25/37] fix: CF1-CF7 with an odd number of variables (index out
 of range, wrong derivatives)

---
 hvd/problems/cf.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index 7bd568f..750e397 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -46,8 +46,8 @@ class CF1(CMOP):
         x = jnp.clip(x, self.xl, self.xu)
         N = x.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         term1 = jnp.tile(x[:, [0]], (1, len(J1))) ** (
             0.5 * (1 + 3 * (jnp.tile(J1 + 1, (N, 1)) - 2) / (D - 2))
         )
@@ -103,8 +103,8 @@ class CF2(CMOP):
         x = jnp.clip(x, self.xl, self.xu)
         N = x.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         term1 = (
             x[:, J1] - jnp.sin(6 * pi * jnp.tile(x[:, [0]], (1, len(J1))) + jnp.tile(J1 + 1, (N, 1)) * pi / D)
         ) ** 2
@@ -161,8 +161,8 @@ class CF3(CMOP):
         x = jnp.clip(x, self.xl, self.xu)
         N = x.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y = x - jnp.sin(6 * pi * jnp.tile(x[:, 0], (1, D)) + jnp.tile(jnp.arange(1, D + 1), (N, 1)) * pi / D)
         term1 = jnp.prod(jnp.cos(20 * Y[:, J1] * pi / jnp.sqrt(jnp.tile(J1 + 1, (N, 1)))), 1)
         term2 = jnp.prod(jnp.cos(20 * Y[:, J2] * pi / jnp.sqrt(jnp.tile(J2 + 1, (N, 1)))), 1)
@@ -212,8 +212,8 @@ class CF4(CMOP):
         X = jnp.clip(X, self.xl, self.xu)
         N = X.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y = X - jnp.sin(6 * pi * jnp.tile(X[:, 0], (1, D)) + jnp.tile(jnp.arange(1, D + 1), (N, 1)) * pi / D)
         temp = Y[:, 1] < 3 / 2 * (1 - jnp.sqrt(1 / 2))
         h = jax.numpy.where(
@@ -270,8 +270,8 @@ class CF5(CMOP):
         X = jnp.atleast_2d(X)
         N = X.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y1 = X[:, J1] - 0.8 * jnp.tile(X[:, 0], (1, len(J1))) * jnp.cos(
             6 * pi * jnp.tile(X[:, 0], (1, len(J1))) + jnp.tile(J1 + 1, (N, 1)) * pi / D
         )
@@ -333,8 +333,8 @@ class CF6(CMOP):
     def _objective(self, X: jnp.ndarray) -> jnp.ndarray:
         X = jnp.atleast_2d(X)
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y1 = X[:, J1] - 0.8 * jnp.tile(X[:, 0], (1, len(J1))) * jnp.cos(
             6 * pi * jnp.tile(X[:, 0], (1, len(J1))) + (J1 + 1) * pi / D
         )
@@ -398,8 +398,8 @@ class CF7(CMOP):
     def _objective(self, X: jnp.ndarray) -> jnp.ndarray:
         X = jnp.atleast_2d(X)
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y1 = X[:, J1] - jnp.cos(6 * pi * jnp.tile(X[:, 0], (1, len(J1))) + (J1 + 1) * pi / D)
         Y2 = X[:, J2] - jnp.sin(6 * pi * jnp.tile(X[:, 0], (1, len(J2))) + (J2 + 1) * pi / D)
         h1 = 2 * Y1**2 - jnp.cos(4 * pi * Y1) + 1
-- 
2.43.0


From bce0bbab4ed79951abcf549432c7749231b32e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:58 +0000
Subject: [PATCH 26/37] fix: CF1 reports its 21 feasible Pareto-optimal points,
 not the whole line

---
 hvd/problems/cf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index 750e397..651848f 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -62,8 +62,9 @@ class CF1(CMOP):
         y = jnp.atleast_2d(self._objective(x))
         return 1 - y[:, 0] - y[:, 1] + jnp.abs(jnp.sin(10 * jnp.pi * (y[:, 0] - y[:, 1] + 1)))
 
-    def get_pareto_front(self, N: int = 1000) -> np.ndarray:
-        f = np.linspace(0, 1, N)
+    def get_pareto_front(self, N: int = 21) -> np.ndarray:
+        # the constraint leaves 21 isolated points of the line feasible
+        f = np.arange(21) / 20
         return np.c_[f, 1 - f]
 
 
-- 
2.43.0


From 728580eece66ce990ebbd33dcf8bce0024e85731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:58 +0000
Subject: [PATCH 27/37] fix: CF8 Pareto front (maximum over all points instead
 of elementwise)

---
 hvd/problems/cf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index 651848f..67514d9 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -480,7 +480,7 @@ class CF8(UF8):
             R[int(i * N / 5) : int((i + 1) * N / 5), 0] = np.sqrt(
                 i / 4 * (1 - R[int(i * N / 5) : int((i + 1) * N / 5), 2] ** 2)
             )
-        R[:, 1] = np.sqrt(np.max(1 - R[:, 0] ** 2 - R[:, 2] ** 2, 0))
+        R[:, 1] = np.sqrt(np.maximum(1 - R[:, 0] ** 2 - R[:, 2] ** 2, 0))
         return R
 
 
-- 
2.43.0


From d12d4ad366fb67372397484ce889d05b6786637f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:58 +0000
Subject: [PATCH 28/37] fix: ZDT3 Pareto set is restricted to the optimal
 regions

---
 hvd/problems/zdt.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hvd/problems/zdt.py b/hvd/problems/zdt.py
index 1dd6a3b..2a37d82 100644
--- a/hvd/problems/zdt.py
+++ b/hvd/problems/zdt.py
@@ -67,6 +67,16 @@ class ZDT3(ZDT1):
         r = x[0] / g
         return jnp.array([x[0], g * (1 - jnp.sqrt(jnp.maximum(r, _EPS)) - r * jnp.sin(10 * jnp.pi * x[0]))])
 
+    def get_pareto_set(self, n_pareto_points: int = 100, kind: str = "linear") -> np.ndarray:
+        t = np.linspace(0, 1, n_pareto_points) if kind == "linear" else np.random.random(n_pareto_points)
+        # map [0, 1] onto the union of the regions, by length
+        lower, width = self.regions[:, 0], np.diff(self.regions, axis=1).ravel()
+        ends = np.cumsum(width)
+        t = t * ends[-1]
+        i = np.minimum(np.searchsorted(ends, t), len(ends) - 1)
+        x = np.minimum(lower[i] + t - (ends - width)[i], self.regions[i, 1])
+        return np.c_[x, np.zeros((n_pareto_points, self.n_var - 1))]
+
     def get_pareto_front(self, n_points: int = 100, flatten: bool = True) -> np.ndarray:
         blocks = []
         for lo, hi in self.regions:
-- 
2.43.0


From 2b72dfa9c1db1b9d69840a515835a020cc3c63a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:58 +0000
Subject: [PATCH 29/37] fix: ZDT6 is optimal at its Pareto set (g was 1.009
 instead of 1)

---
 hvd/problems/zdt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hvd/problems/zdt.py b/hvd/problems/zdt.py
index 2a37d82..ba43e7a 100644
--- a/hvd/problems/zdt.py
+++ b/hvd/problems/zdt.py
@@ -117,7 +117,9 @@ class ZDT6(ZDT):
 
     def _objective(self, x: jnp.ndarray) -> jnp.ndarray:
         f1 = 1 - jnp.exp(-4 * x[0]) * jnp.sin(6 * jnp.pi * x[0]) ** 6
-        g = 1 + 9 * jnp.maximum(jnp.mean(x[1:]), _EPS) ** 0.25
+        m = jnp.mean(x[1:])
+        # `_EPS` only keeps the derivative finite: g = 1 at the optimum
+        g = 1 + 9 * jnp.where(m > 0, jnp.maximum(m, _EPS) ** 0.25, 0.0)
         return jnp.array([f1, g * (1 - (f1 / g) ** 2)])
 
     def get_pareto_front(self, n_pareto_points: int = 100) -> np.ndarray:
-- 
2.43.0


From 9cd4967dfef6dcb4c145e49f2ec9ae19304b5be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:58 +0000
Subject: [PATCH 30/37] fix: DTLZ7 Pareto set contained dominated points

---
 hvd/problems/dtlz.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hvd/problems/dtlz.py b/hvd/problems/dtlz.py
index 97638d4..9153111 100644
--- a/hvd/problems/dtlz.py
+++ b/hvd/problems/dtlz.py
@@ -153,7 +153,10 @@ class DTLZ7(_DTLZ):
         return 1 + 9 / self.k * jnp.sum(x_M[-self.k :])
 
     def get_pareto_set(self, N: int = 1000) -> np.ndarray:
-        x = np.random.rand(N, self.n_var - self.k)
+        # each position variable is optimal in two intervals only
+        lower, width = np.array([0.0, 0.631627]), np.array([0.251412, 0.859401 - 0.631627])
+        x = np.random.rand(N, self.n_var - self.k) * width.sum()
+        x = np.where(x <= width[0], lower[0] + x, lower[1] + x - width[0])
         return np.c_[x, np.tile(0, (N, self.k))]
 
     def get_pareto_front(self):
-- 
2.43.0


From d90f34b1a4c6218a73847d6f0603a20107461777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:58 +0000
Subject: [PATCH 31/37] fix: WFG2 Pareto set and front contained dominated
 points

---
 hvd/problems/wfg.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hvd/problems/wfg.py b/hvd/problems/wfg.py
index 1919c14..c24628f 100644
--- a/hvd/problems/wfg.py
+++ b/hvd/problems/wfg.py
@@ -390,6 +390,15 @@ class WFG1(WFG):
 class WFG2(WFG):
     problem_number = 2
 
+    def get_pareto_set(self, N: int = 500) -> np.ndarray:
+        # The last objective decreases in the first position parameter only on disconnected pieces,
+        # all others increase: a point is optimal iff no smaller parameter has a smaller last objective.
+        X = super().get_pareto_set(N)
+        t = (X / self.xu)[:, : self.k // (self.n_obj - 1)].mean(axis=1)
+        grid = np.linspace(0, 1, 100001)
+        best = np.minimum.accumulate(np.asarray(_disconnected(grid)))
+        return X[np.asarray(_disconnected(t)) <= best[np.floor(t * 100000).astype(int)]]
+
 
 class WFG3(WFG):
     problem_number = 3
-- 
2.43.0


From fc95792776943d9b9694c13f917e3e42ecf091e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:37 +0000
Subject: [PATCH 32/37] fix: CF2 Pareto front lacked the isolated optimal point
 (0, 1)

---
 hvd/problems/cf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index 67514d9..af8fd08 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -128,7 +128,8 @@ class CF2(CMOP):
 
     def get_pareto_front(self, N: int = 1000) -> np.ndarray:
         f = np.linspace(0, 1, N)
-        idx = (1 / 16 <= f) & (f <= 4 / 16) | (9 / 16 <= f) & (f <= 1)
+        # (0, 1) is an isolated optimal point
+        idx = (f == 0) | (1 / 16 <= f) & (f <= 4 / 16) | (9 / 16 <= f) & (f <= 1)
         f = f[idx]
         return np.c_[f, 1 - jnp.sqrt(f)]
 
-- 
2.43.0


From dfc23009465ee0ed6be012cbe71b7a7296bee69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:37 +0000
Subject: [PATCH 33/37] fix: CF9 and CF10 Pareto fronts lacked the curve f1 = 0

---
 hvd/problems/cf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index af8fd08..2eb72c0 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -520,6 +520,7 @@ class CF9(CF8):
 
     def get_pareto_front(self, N: int = 1000) -> np.ndarray:
         R = np.random.rand(N, 3)
+        R[::10, 0] = 0  # the curve f1 = 0 is part of the front
         R = R / np.sqrt(np.sum(R**2, axis=1)).reshape(-1, 1)
         idx = (1e-5 < R[:, 0]) & (R[:, 0] < np.sqrt((1 - R[:, 2] ** 2) / 4)) | (
             np.sqrt((1 - R[:, 2] ** 2) / 2) < R[:, 0]
@@ -581,6 +582,7 @@ class CF10(CMOP):
 
     def get_pareto_front(self, N: int = 1000) -> np.ndarray:
         R = np.random.rand(N, 3)
+        R[::10, 0] = 0  # the curve f1 = 0 is part of the front
         R = R / np.sqrt(np.sum(R**2, axis=1)).reshape(-1, 1)
         idx = (1e-5 < R[:, 0]) & (R[:, 0] < np.sqrt((1 - R[:, 2] ** 2) / 4)) | (
             np.sqrt((1 - R[:, 2] ** 2) / 2) < R[:, 0]
-- 
2.43.0


From d7d0208d394b3d20c8a588e5a69788e0f99b33fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:15 +0000
Subject: [PATCH 34/37] fix: from_pymoo evaluates element-wise pymoo problems
 with a single point (values were wrong)

---
 hvd/problems/_pymoo_wrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hvd/problems/_pymoo_wrapper.py b/hvd/problems/_pymoo_wrapper.py
index 51763e2..3e1de6b 100644
--- a/hvd/problems/_pymoo_wrapper.py
+++ b/hvd/problems/_pymoo_wrapper.py
@@ -59,7 +59,9 @@ class _PymooBackedProblem(CMOP):
 
     def _evaluate_key(self, x: jnp.ndarray, key: str) -> jnp.ndarray:
         out = {}
-        result = self._problem._evaluate(jnp.atleast_2d(x), out)
+        # an element-wise problem evaluates a single point
+        X = x if getattr(self._problem, "elementwise", False) else jnp.atleast_2d(x)
+        result = self._problem._evaluate(X, out)
         if result is not None and not out and key == "F":
             return result
         return out[key]
-- 
2.43.0


From 05c409dbb8810259cf9414a489d57ac6bc3f786a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:15 +0000
Subject: [PATCH 35/37] fix: from_pymoo of a problem without bounds (bounds
 became NaN)

---
 hvd/problems/_pymoo_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hvd/problems/_pymoo_wrapper.py b/hvd/problems/_pymoo_wrapper.py
index 3e1de6b..b005e0a 100644
--- a/hvd/problems/_pymoo_wrapper.py
+++ b/hvd/problems/_pymoo_wrapper.py
@@ -23,8 +23,8 @@ class _PymooBackedProblem(CMOP):
         super().__init__(
             n_var=problem.n_var,
             n_obj=problem.n_obj,
-            xl=problem.xl,
-            xu=problem.xu,
+            xl=-np.inf if problem.xl is None else problem.xl,
+            xu=np.inf if problem.xu is None else problem.xu,
             n_eq_constr=getattr(problem, "n_eq_constr", 0),
             n_ieq_constr=getattr(problem, "n_ieq_constr", 0),
             boundary_constraints=boundary_constraints,
-- 
2.43.0


From 8127c15e244a22a128383e941ff9bae1ab49098e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:09 +0000
Subject: [PATCH 36/37] fix: hypervolume skipped points that agree in several
 objectives (inconsistent order of ties)

---
 hvd/hypervolume.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hvd/hypervolume.py b/hvd/hypervolume.py
index f19fd9a..9a3df1e 100644
--- a/hvd/hypervolume.py
+++ b/hvd/hypervolume.py
@@ -146,7 +146,9 @@ class HyperVolume:
         dimensions = len(self.ref)
         nodeList = MultiList(dimensions)
         nodes = [MultiList.Node(dimensions, point) for point in front]
-        for i in range(dimensions):
+        # the last objective comes first such that, with stable sorting, ties are broken by the next objectives. Otherwise,
+        # points that agree in some objectives can be skipped (see `ignore`) in favor of each other in different lists
+        for i in reversed(range(dimensions)):
             self.sortByDimension(nodes, i)
             nodeList.extend(nodes, i)
         self.list = nodeList
@@ -154,7 +156,7 @@ class HyperVolume:
     def sortByDimension(self, nodes, i):
         """Sorts the list of nodes by the i-th value of the contained points."""
         # build a list of tuples of (point[i], node)
-        idx = np.argsort([node.cargo[i] for node in nodes])
+        idx = np.argsort([node.cargo[i] for node in nodes], kind="stable")
         # decorated = [(node.cargo[i], node) for node in nodes]
         # sort by this value
         # decorated.sort()
-- 
2.43.0


From 081029fb25f72acfdd34a6e0577b506b7efc370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:09 +0000
Subject: [PATCH 37/37] fix: hypervolume of six objectives was wrong with
 points on the boundary of the reference box

---
 hvd/hypervolume.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hvd/hypervolume.py b/hvd/hypervolume.py
index 9a3df1e..e294d30 100644
--- a/hvd/hypervolume.py
+++ b/hvd/hypervolume.py
@@ -35,9 +35,9 @@ class HyperVolume:
 
         """
 
-        def weaklyDominates(point, other):
+        def strictlyDominates(point, other):
             for i in range(len(point)):
-                if point[i] > other[i]:
+                if point[i] >= other[i]:
                     return False
             return True
 
@@ -45,8 +45,9 @@ class HyperVolume:
         referencePoint = self.ref
         dimensions = len(referencePoint)
         for point in front:
-            # only consider points that dominate the reference point
-            if weaklyDominates(point, referencePoint):
+            # only consider points that are better than the reference point in every objective; points on the
+            # boundary contribute nothing and must not be mistaken for dominated ones (see `ignore`)
+            if strictlyDominates(point, referencePoint):
                 relevantPoints.append(point)
         if any(referencePoint):
             # shift points so that referencePoint == [0, ..., 0]
-- 
2.43.0

