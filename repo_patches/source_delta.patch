From 89db7388891bc748542118f91fc0d4e627400b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:30 +0000
Subject: [PATCH 01/30] fix: project Elliptope vectors onto the horizontal
 space

---
 src/pymanopt/manifolds/psd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymanopt/manifolds/psd.py b/src/pymanopt/manifolds/psd.py
index f01dc72..62dcc1f 100644
--- a/src/pymanopt/manifolds/psd.py
+++ b/src/pymanopt/manifolds/psd.py
@@ -232,8 +232,8 @@ class Elliptope(Manifold, RetrAsExpMixin):
     def projection(self, point, vector):
         eta = self._project_rows(point, vector)
         YtY = point.T @ point
-        AS = point.T @ eta - vector.T @ point
-        Omega = scipy.linalg.solve_continuous_lyapunov(YtY, -AS)
+        AS = point.T @ eta - eta.T @ point
+        Omega = scipy.linalg.solve_continuous_lyapunov(YtY, AS)
         return eta - point @ (Omega - Omega.T) / 2
 
     to_tangent_space = projection
-- 
2.43.0


From d6957526a1370c25c1f27c796f19b4764d6baaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:57 +0000
Subject: [PATCH 02/30] fix: use Hermitian geometry for the complex unitary
 group

---
 src/pymanopt/manifolds/group.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pymanopt/manifolds/group.py b/src/pymanopt/manifolds/group.py
index 1c4f24d..203ae23 100644
--- a/src/pymanopt/manifolds/group.py
+++ b/src/pymanopt/manifolds/group.py
@@ -9,7 +9,6 @@ from pymanopt.tools.multi import (
     multiherm,
     multilogm,
     multiqr,
-    multiskew,
     multiskewh,
     multitransp,
 )
@@ -32,7 +31,7 @@ class _UnitaryBase(RiemannianSubmanifold):
             tangent_vector_a.conj(),
             tangent_vector_b,
             axes=tangent_vector_a.ndim,
-        )
+        ).real
 
     def norm(self, point, tangent_vector):
         return np.linalg.norm(tangent_vector)
@@ -45,7 +44,7 @@ class _UnitaryBase(RiemannianSubmanifold):
         return self.norm(point_a, self.log(point_a, point_b))
 
     def projection(self, point, vector):
-        return multiskew(multihconj(point) @ vector)
+        return multiskewh(multihconj(point) @ vector)
 
     def to_tangent_space(self, point, vector):
         return multiskewh(vector)
@@ -82,7 +81,7 @@ class _UnitaryBase(RiemannianSubmanifold):
         return multiskewh(multilogm(multihconj(point_a) @ point_b))
 
     def zero_vector(self, point):
-        zero = np.zeros((self._k, self._n, self._n))
+        zero = np.zeros((self._k, self._n, self._n), dtype=point.dtype)
         if self._k == 1:
             return zero[0]
         return zero
-- 
2.43.0


From 61c606fc39eb08d7ad4f3d3628c6a98158e35303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:33 +0000
Subject: [PATCH 03/30] fix: re-tangentialize with the projection of the
 subclass

---
 src/pymanopt/manifolds/euclidean.py         | 4 ++++
 src/pymanopt/manifolds/positive_definite.py | 2 ++
 src/pymanopt/manifolds/sphere.py            | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/src/pymanopt/manifolds/euclidean.py b/src/pymanopt/manifolds/euclidean.py
index 5a78720..450ce2a 100644
--- a/src/pymanopt/manifolds/euclidean.py
+++ b/src/pymanopt/manifolds/euclidean.py
@@ -164,6 +164,8 @@ class Symmetric(_Euclidean):
     def projection(self, point, vector):
         return multisym(vector)
 
+    to_tangent_space = projection
+
     def euclidean_to_riemannian_hessian(
         self, point, euclidean_gradient, euclidean_hessian, tangent_vector
     ):
@@ -206,6 +208,8 @@ class SkewSymmetric(_Euclidean):
     def projection(self, point, vector):
         return multiskew(vector)
 
+    to_tangent_space = projection
+
     def euclidean_to_riemannian_hessian(
         self, point, euclidean_gradient, euclidean_hessian, tangent_vector
     ):
diff --git a/src/pymanopt/manifolds/positive_definite.py b/src/pymanopt/manifolds/positive_definite.py
index b30cca1..896d9ff 100644
--- a/src/pymanopt/manifolds/positive_definite.py
+++ b/src/pymanopt/manifolds/positive_definite.py
@@ -246,6 +246,8 @@ class SpecialHermitianPositiveDefinite(_PositiveDefiniteBase):
         ).reshape(shape)
         return vector - (1 / n) * t * point
 
+    to_tangent_space = projection
+
     def euclidean_to_riemannian_gradient(self, point, euclidean_gradient):
         return self.projection(
             point,
diff --git a/src/pymanopt/manifolds/sphere.py b/src/pymanopt/manifolds/sphere.py
index 74871a6..3180409 100644
--- a/src/pymanopt/manifolds/sphere.py
+++ b/src/pymanopt/manifolds/sphere.py
@@ -137,6 +137,8 @@ class _SphereSubspaceIntersectionManifold(_SphereBase):
     def projection(self, point, vector):
         return self._subspace_projector @ super().projection(point, vector)
 
+    to_tangent_space = projection
+
     def random_point(self):
         point = super().random_point()
         return self._normalize(self._subspace_projector @ point)
-- 
2.43.0


From 79e621df77ae82b16fb27304864e6ed480513d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:33 +0000
Subject: [PATCH 04/30] fix: return complex zero vectors on complex manifolds

---
 src/pymanopt/manifolds/complex_circle.py | 2 +-
 src/pymanopt/manifolds/grassmann.py      | 2 +-
 src/pymanopt/manifolds/psd.py            | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymanopt/manifolds/complex_circle.py b/src/pymanopt/manifolds/complex_circle.py
index 629b13b..f67a1e8 100644
--- a/src/pymanopt/manifolds/complex_circle.py
+++ b/src/pymanopt/manifolds/complex_circle.py
@@ -96,7 +96,7 @@ class ComplexCircle(RiemannianSubmanifold):
         return self._normalize(point_a + point_b)
 
     def zero_vector(self, point):
-        return np.zeros(self._dimension)
+        return np.zeros(self._dimension, dtype=complex)
 
     @staticmethod
     def _normalize(point):
diff --git a/src/pymanopt/manifolds/grassmann.py b/src/pymanopt/manifolds/grassmann.py
index 5e6eb1f..69dca77 100644
--- a/src/pymanopt/manifolds/grassmann.py
+++ b/src/pymanopt/manifolds/grassmann.py
@@ -16,7 +16,7 @@ class _GrassmannBase(Manifold):
         return self.projection(point_b, tangent_vector_a)
 
     def zero_vector(self, point):
-        zero = np.zeros((self._k, self._n, self._p))
+        zero = np.zeros((self._k, self._n, self._p), dtype=point.dtype)
         if self._k == 1:
             return zero[0]
         return zero
diff --git a/src/pymanopt/manifolds/psd.py b/src/pymanopt/manifolds/psd.py
index 62dcc1f..b96b7a9 100644
--- a/src/pymanopt/manifolds/psd.py
+++ b/src/pymanopt/manifolds/psd.py
@@ -67,7 +67,7 @@ class _PSDFixedRank(Manifold):
         return array / np.linalg.norm(array)
 
     def zero_vector(self, point):
-        return np.zeros((self._n, self._k))
+        return np.zeros((self._n, self._k), dtype=point.dtype)
 
 
 class PSDFixedRank(_PSDFixedRank):
-- 
2.43.0


From 988e65d24b823438728a45bd0ef8ee162c465476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:33 +0000
Subject: [PATCH 05/30] fix: keep the imaginary part in the complex circle
 exponential map

---
 src/pymanopt/manifolds/complex_circle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/complex_circle.py b/src/pymanopt/manifolds/complex_circle.py
index f67a1e8..5073a55 100644
--- a/src/pymanopt/manifolds/complex_circle.py
+++ b/src/pymanopt/manifolds/complex_circle.py
@@ -58,7 +58,7 @@ class ComplexCircle(RiemannianSubmanifold):
         tangent_vector_abs = np.abs(tangent_vector)
         mask = tangent_vector_abs > 0
         not_mask = np.logical_not(mask)
-        tangent_vector_new = np.zeros(self._dimension)
+        tangent_vector_new = np.zeros(self._dimension, dtype=complex)
         tangent_vector_new[mask] = point[mask] * np.cos(
             tangent_vector_abs[mask]
         ) + tangent_vector[mask] * (
-- 
2.43.0


From e3e140c0204a7352143d3115f40484787b5fb496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:33 +0000
Subject: [PATCH 06/30] fix: clip cosines before taking arccos

---
 src/pymanopt/manifolds/complex_circle.py | 8 ++++++--
 src/pymanopt/manifolds/oblique.py        | 9 +++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/pymanopt/manifolds/complex_circle.py b/src/pymanopt/manifolds/complex_circle.py
index 5073a55..8e731eb 100644
--- a/src/pymanopt/manifolds/complex_circle.py
+++ b/src/pymanopt/manifolds/complex_circle.py
@@ -34,7 +34,7 @@ class ComplexCircle(RiemannianSubmanifold):
         return np.linalg.norm(tangent_vector)
 
     def dist(self, point_a, point_b):
-        return np.linalg.norm(np.arccos((point_a.conj() * point_b).real))
+        return np.linalg.norm(self._angles(point_a, point_b))
 
     @property
     def typical_dist(self):
@@ -73,7 +73,7 @@ class ComplexCircle(RiemannianSubmanifold):
     def log(self, point_a, point_b):
         v = self.projection(point_a, point_b - point_a)
         abs_v = np.abs(v)
-        di = np.arccos((point_a.conj() * point_b).real)
+        di = self._angles(point_a, point_b)
         factors = di / abs_v
         factors[di <= 1e-6] = 1
         return v * factors
@@ -98,6 +98,10 @@ class ComplexCircle(RiemannianSubmanifold):
     def zero_vector(self, point):
         return np.zeros(self._dimension, dtype=complex)
 
+    @staticmethod
+    def _angles(point_a, point_b):
+        return np.arccos(np.clip((point_a.conj() * point_b).real, -1, 1))
+
     @staticmethod
     def _normalize(point):
         return point / np.abs(point)
diff --git a/src/pymanopt/manifolds/oblique.py b/src/pymanopt/manifolds/oblique.py
index 16fd33e..461fa00 100644
--- a/src/pymanopt/manifolds/oblique.py
+++ b/src/pymanopt/manifolds/oblique.py
@@ -37,9 +37,7 @@ class Oblique(RiemannianSubmanifold):
         return np.linalg.norm(tangent_vector)
 
     def dist(self, point_a, point_b):
-        XY = (point_a * point_b).sum(0)
-        XY[XY > 1] = 1
-        return np.linalg.norm(np.arccos(XY))
+        return np.linalg.norm(self._angles(point_a, point_b))
 
     def projection(self, point, vector):
         return vector - point * ((point * vector).sum(0)[np.newaxis, :])
@@ -66,7 +64,7 @@ class Oblique(RiemannianSubmanifold):
 
     def log(self, point_a, point_b):
         vector = self.projection(point_a, point_b - point_a)
-        distances = np.arccos((point_a * point_b).sum(0))
+        distances = self._angles(point_a, point_b)
         norms = np.sqrt((vector**2).sum(0)).real
         # Try to avoid zero-division when both distances and norms are almost
         # zero.
@@ -93,5 +91,8 @@ class Oblique(RiemannianSubmanifold):
     def zero_vector(self, point):
         return np.zeros((self._m, self._n))
 
+    def _angles(self, point_a, point_b):
+        return np.arccos(np.clip((point_a * point_b).sum(0), -1, 1))
+
     def _normalize_columns(self, array):
         return array / np.linalg.norm(array, axis=0)[np.newaxis, :]
-- 
2.43.0


From 68f1e79c68ffde153fc98ab466db54ea11d2df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:33 +0000
Subject: [PATCH 07/30] fix: avoid NaN in the Poincare ball logarithm of a
 point to itself

---
 src/pymanopt/manifolds/hyperbolic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/hyperbolic.py b/src/pymanopt/manifolds/hyperbolic.py
index f343146..e038eae 100644
--- a/src/pymanopt/manifolds/hyperbolic.py
+++ b/src/pymanopt/manifolds/hyperbolic.py
@@ -144,7 +144,9 @@ class PoincareBall(Manifold):
         w = self.mobius_addition(-point_a, point_b)
         norm_w = np.linalg.norm(w, axis=-1, keepdims=True)
         factor = self.conformal_factor(point_a)
-        return np.arctanh(norm_w) * w / norm_w / (factor / 2)
+        return (
+            np.arctanh(norm_w) * w / (norm_w + (norm_w == 0)) / (factor / 2)
+        )
 
     def pair_mean(self, point_a, point_b):
         return self.exp(point_a, self.log(point_a, point_b) / 2)
-- 
2.43.0


From 47c105a4b5732feec1a55cc970c6cd8f8939da4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:33 +0000
Subject: [PATCH 08/30] fix: embed tangent vectors of product manifolds
 componentwise

---
 src/pymanopt/manifolds/product.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pymanopt/manifolds/product.py b/src/pymanopt/manifolds/product.py
index 28f93b1..fa414ea 100644
--- a/src/pymanopt/manifolds/product.py
+++ b/src/pymanopt/manifolds/product.py
@@ -83,6 +83,18 @@ class Product(Manifold):
             "to_tangent_space", reduction=_ProductTangentVector
         )(point, vector)
 
+    def embedding(self, point, tangent_vector):
+        # Factors representing points by several arrays have no ambient
+        # representation that matches their point layout.
+        return _ProductTangentVector(
+            [
+                manifold.embedding(p, v) if manifold.point_layout == 1 else v
+                for manifold, p, v in zip(
+                    self.manifolds, point, tangent_vector
+                )
+            ]
+        )
+
     def euclidean_to_riemannian_gradient(self, point, euclidean_gradient):
         return self._dispatch(
             "euclidean_to_riemannian_gradient", reduction=_ProductTangentVector
-- 
2.43.0


From ee31e723e0fd0b2c442a58b8fe2a4a9852be1f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:33 +0000
Subject: [PATCH 09/30] fix: transpose the middle factor of ambient low-rank
 vectors

---
 src/pymanopt/manifolds/fixed_rank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/fixed_rank.py b/src/pymanopt/manifolds/fixed_rank.py
index 74901c3..3e2c4f8 100644
--- a/src/pymanopt/manifolds/fixed_rank.py
+++ b/src/pymanopt/manifolds/fixed_rank.py
@@ -85,7 +85,7 @@ class FixedRankEmbedded(RiemannianSubmanifold):
 
     def _apply_ambient_transpose(self, vector, matrix):
         if isinstance(vector, (list, tuple)):
-            return vector[2] @ vector[1] @ vector[0].T @ matrix
+            return vector[2] @ vector[1].T @ vector[0].T @ matrix
         return vector.T @ matrix
 
     def projection(self, point, vector):
-- 
2.43.0


From 6fbe42ba8996875e77725eb1aaab6a158f3c2a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:33 +0000
Subject: [PATCH 10/30] fix: draw random points on U(1)

---
 src/pymanopt/manifolds/group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/group.py b/src/pymanopt/manifolds/group.py
index 203ae23..fbf80e0 100644
--- a/src/pymanopt/manifolds/group.py
+++ b/src/pymanopt/manifolds/group.py
@@ -220,7 +220,9 @@ class UnitaryGroup(_UnitaryBase):
     def random_point(self):
         n, k = self._n, self._k
         if n == 1:
-            point = np.ones((k, 1, 1)) + 1j * np.ones((k, 1, 1))
+            point = np.random.normal(size=(k, 1, 1)) + 1j * np.random.normal(
+                size=(k, 1, 1)
+            )
             point /= np.abs(point)
         else:
             point, _ = multiqr(
-- 
2.43.0


From 418a56679260bed8592a03fd54199f77169b2320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:33 +0000
Subject: [PATCH 11/30] fix: evaluate the Liu-Storey denominator at the new
 iterate

---
 src/pymanopt/optimizers/conjugate_gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/optimizers/conjugate_gradient.py b/src/pymanopt/optimizers/conjugate_gradient.py
index b9fe6ef..ea3353c 100644
--- a/src/pymanopt/optimizers/conjugate_gradient.py
+++ b/src/pymanopt/optimizers/conjugate_gradient.py
@@ -121,7 +121,7 @@ def _beta_liu_storey(
 ):
     diff = newgrad - oldgrad
     ip_diff = manifold.inner_product(newx, Pnewgrad, diff)
-    denominator = -manifold.inner_product(x, grad, descent_direction)
+    denominator = -manifold.inner_product(newx, oldgrad, descent_direction)
     beta_ls = ip_diff / denominator
     beta_cd = newgradPnewgrad / denominator
     return max(0, min(beta_ls, beta_cd))
-- 
2.43.0


From c78e2bc0ce219940f15221d0fd40050bc97f3d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:33 +0000
Subject: [PATCH 12/30] fix: report the gradient norm at the point steepest
 descent returns

---
 src/pymanopt/optimizers/steepest_descent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/optimizers/steepest_descent.py b/src/pymanopt/optimizers/steepest_descent.py
index eabc4ef..550ce5b 100644
--- a/src/pymanopt/optimizers/steepest_descent.py
+++ b/src/pymanopt/optimizers/steepest_descent.py
@@ -134,5 +134,5 @@ class SteepestDescent(Optimizer):
             stopping_criterion=stopping_criterion,
             cost_evaluations=iteration,
             step_size=step_size,
-            gradient_norm=gradient_norm,
+            gradient_norm=manifold.norm(x, gradient(x)),
         )
-- 
2.43.0


From 99c7e9e126d7c03c8bfbbbd6b923e731584908e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:33 +0000
Subject: [PATCH 13/30] fix: evaluate particles at their new positions

---
 src/pymanopt/optimizers/particle_swarm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index 9f9fb56..ab801f0 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -184,7 +184,8 @@ class ParticleSwarm(Optimizer):
             # Update positions, personal bests and global best.
             for i, xi in enumerate(x):
                 # Compute new position of particle i.
-                x[i] = manifold.retraction(xi, v[i])
+                xi = manifold.retraction(xi, v[i])
+                x[i] = xi
                 # Compute new cost of particle i.
                 fxi = objective(xi)
 
-- 
2.43.0


From 091731a0c431c57b23ea20159ae302c30540d98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:33 +0000
Subject: [PATCH 14/30] fix: do not modify the initial population in place

---
 src/pymanopt/optimizers/particle_swarm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index ab801f0..dc515a7 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -81,7 +81,7 @@ class ParticleSwarm(Optimizer):
                     "the given initial population"
                 )
                 self._population_size = len(initial_point)
-            x = initial_point
+            x = list(initial_point)
         else:
             raise ValueError("The initial population must be iterable")
 
-- 
2.43.0


From 4c02f4143f6be1b31a093fc3ee308d83ef49d8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:33 +0000
Subject: [PATCH 15/30] fix: keep particle swarm silent at verbosity 0

---
 src/pymanopt/optimizers/particle_swarm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index dc515a7..ed6e97b 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -76,10 +76,11 @@ class ParticleSwarm(Optimizer):
             ]
         elif tools.is_sequence(initial_point):
             if len(initial_point) != self._population_size:
-                print(
-                    "The population size was forced to the size of "
-                    "the given initial population"
-                )
+                if self._verbosity >= 1:
+                    print(
+                        "The population size was forced to the size of "
+                        "the given initial population"
+                    )
                 self._population_size = len(initial_point)
             x = list(initial_point)
         else:
-- 
2.43.0


From 5fc1ccdeddb90b72e8475de0c62db839a2ed97b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:33 +0000
Subject: [PATCH 16/30] fix: derive default limits from the problem of every
 run

---
 src/pymanopt/optimizers/nelder_mead.py    | 6 ++++--
 src/pymanopt/optimizers/particle_swarm.py | 9 ++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index 609cc83..b02fea5 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -62,8 +62,8 @@ class NelderMead(Optimizer):
     ):
         super().__init__(*args, **kwargs)
 
-        self._max_cost_evaluations = max_cost_evaluations
-        self._max_iterations = max_iterations
+        self._requested_max_cost_evaluations = max_cost_evaluations
+        self._requested_max_iterations = max_iterations
         self._reflection = reflection
         self._expansion = expansion
         self._contraction = contraction
@@ -89,6 +89,8 @@ class NelderMead(Optimizer):
         # dimension of the manifold to limit the parameter range, so we have to
         # defer proper initialization until this point.
         dim = manifold.dim
+        self._max_cost_evaluations = self._requested_max_cost_evaluations
+        self._max_iterations = self._requested_max_iterations
         if self._max_cost_evaluations is None:
             self._max_cost_evaluations = max(1000, 2 * dim)
         if self._max_iterations is None:
diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index ed6e97b..a7dd587 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -33,9 +33,9 @@ class ParticleSwarm(Optimizer):
     ):
         super().__init__(*args, **kwargs)
 
-        self._max_cost_evaluations = max_cost_evaluations
-        self._max_iterations = max_iterations
-        self._population_size = population_size
+        self._requested_max_cost_evaluations = max_cost_evaluations
+        self._requested_max_iterations = max_iterations
+        self._requested_population_size = population_size
         self._nostalgia = nostalgia
         self._social = social
 
@@ -60,6 +60,9 @@ class ParticleSwarm(Optimizer):
         # dimension of the manifold to limit the parameter range, so we have to
         # defer proper initialization until this point.
         dim = manifold.dim
+        self._max_cost_evaluations = self._requested_max_cost_evaluations
+        self._max_iterations = self._requested_max_iterations
+        self._population_size = self._requested_population_size
         if self._max_cost_evaluations is None:
             self._max_cost_evaluations = max(5000, 2 * dim)
         if self._max_iterations is None:
-- 
2.43.0


From cef8c8cf46856f30067debea3d18909f0bdd31a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:33 +0000
Subject: [PATCH 17/30] fix: accept initial simplices with the right number of
 points

---
 src/pymanopt/optimizers/nelder_mead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index b02fea5..bf7a4fb 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -102,7 +102,7 @@ class NelderMead(Optimizer):
             x = [manifold.random_point() for _ in range(num_points)]
         elif (
             tools.is_sequence(initial_point)
-            and len(initial_point) != num_points
+            and len(initial_point) == num_points
         ):
             x = initial_point
         else:
-- 
2.43.0


From 6670c4275cb67dc6425b884d81252dbd877cab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:33 +0000
Subject: [PATCH 18/30] fix: do not spend an uncounted cost evaluation in
 Nelder-Mead

---
 src/pymanopt/optimizers/nelder_mead.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index bf7a4fb..87ef199 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -227,12 +227,10 @@ class NelderMead(Optimizer):
                 costs[i] = objective(x[i])
             cost_evaluations += dim
 
-        x = x[0]
-        cost = objective(x)
         return self._return_result(
             start_time=start_time,
-            point=x,
-            cost=cost,
+            point=x[0],
+            cost=costs[0],
             iterations=iteration,
             stopping_criterion=stopping_criterion,
             cost_evaluations=cost_evaluations,
-- 
2.43.0


From b92b8ef6de66732b5cd543971b37dfd20cf27792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:33 +0000
Subject: [PATCH 19/30] fix: keep trust regions silent at verbosity 0

---
 src/pymanopt/optimizers/trust_regions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pymanopt/optimizers/trust_regions.py b/src/pymanopt/optimizers/trust_regions.py
index ef199d0..ae4a7f1 100644
--- a/src/pymanopt/optimizers/trust_regions.py
+++ b/src/pymanopt/optimizers/trust_regions.py
@@ -326,10 +326,11 @@ class TrustRegions(Optimizer):
                 # stagnation in this "corner case" (NaN's really aren't
                 # supposed to occur, but it's nice if we can handle them
                 # nonetheless).
-                print(
-                    "rho is NaN! Forcing a radius decrease. This should "
-                    "not happen."
-                )
+                if self._verbosity >= 1:
+                    print(
+                        "rho is NaN! Forcing a radius decrease. This should "
+                        "not happen."
+                    )
                 rho = np.nan
 
             # Choose the new TR radius based on the model performance
-- 
2.43.0


From edc233447e9fc995ad8a001dbcb350e7ccc018c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:33 +0000
Subject: [PATCH 20/30] fix: support trust regions without inner iterations

---
 src/pymanopt/optimizers/trust_regions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymanopt/optimizers/trust_regions.py b/src/pymanopt/optimizers/trust_regions.py
index ae4a7f1..92a4b1c 100644
--- a/src/pymanopt/optimizers/trust_regions.py
+++ b/src/pymanopt/optimizers/trust_regions.py
@@ -499,6 +499,7 @@ class TrustRegions(Optimizer):
         stop_tCG = self.MAX_INNER_ITER
 
         # Begin inner/tCG loop.
+        j = 0
         for j in range(int(maxinner)):
             # This call is the computationally intensive step
             Hdelta = hess(x, delta)
-- 
2.43.0


From 215afe507674ca3ee76ddf93db9090864fc986da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:33 +0000
Subject: [PATCH 21/30] fix: log iterations in all optimizers

---
 src/pymanopt/optimizers/nelder_mead.py    | 4 ++++
 src/pymanopt/optimizers/particle_swarm.py | 2 ++
 src/pymanopt/optimizers/trust_regions.py  | 7 +++++++
 3 files changed, 13 insertions(+)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index 87ef199..024d691 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -143,6 +143,10 @@ class NelderMead(Optimizer):
             costs = costs[order]
             x = [x[i] for i in order]
 
+            self._add_log_entry(
+                iteration=iteration, point=x[0], cost=costs[0]
+            )
+
             stopping_criterion = self._check_stopping_criterion(
                 start_time=start_time,
                 iteration=iteration,
diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index a7dd587..04c0338 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -134,6 +134,8 @@ class ParticleSwarm(Optimizer):
 
             column_printer.print_row([iteration, cost_evaluations, fbest])
 
+            self._add_log_entry(iteration=iteration, point=xbest, cost=fbest)
+
             # FIXME(nkoep): This only makes sense once we provide a custom
             #               callback mechanism that actually checks 'xi'.
             #               Right now this loop is pointless since our default
diff --git a/src/pymanopt/optimizers/trust_regions.py b/src/pymanopt/optimizers/trust_regions.py
index 92a4b1c..fc67562 100644
--- a/src/pymanopt/optimizers/trust_regions.py
+++ b/src/pymanopt/optimizers/trust_regions.py
@@ -417,6 +417,13 @@ class TrustRegions(Optimizer):
                 print(f"       f(x) : {fx:+e}     |grad| : {norm_grad:e}")
                 print(f"        rho : {rho:e}")
 
+            self._add_log_entry(
+                iteration=iteration,
+                point=x,
+                cost=fx,
+                gradient_norm=norm_grad,
+            )
+
             # ** CHECK STOPPING criteria
             stopping_criterion = self._check_stopping_criterion(
                 start_time=start_time,
-- 
2.43.0


From e52146aa0c79c2da3c9b985efdcffa1c7ea87232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:19 +0000
Subject: [PATCH 22/30] fix: support linear and unused arguments in PyTorch
 Hessians

---
 src/pymanopt/autodiff/backends/_pytorch.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/pymanopt/autodiff/backends/_pytorch.py b/src/pymanopt/autodiff/backends/_pytorch.py
index d72517e..c92c0f3 100644
--- a/src/pymanopt/autodiff/backends/_pytorch.py
+++ b/src/pymanopt/autodiff/backends/_pytorch.py
@@ -81,12 +81,18 @@ class PyTorchBackend(Backend):
                 create_graph=True,
                 allow_unused=True,
             )
-            dot_product = 0
+            dot_product = torch.zeros(())
             for gradient, vector in zip(gradients, vectors):
-                dot_product += torch.tensordot(
-                    gradient.conj(), vector, dims=gradient.ndim
-                ).real
-            dot_product.backward()
+                # The function may not depend on some of its arguments.
+                if gradient is not None:
+                    dot_product = dot_product + (
+                        torch.tensordot(
+                            gradient.conj(), vector, dims=gradient.ndim
+                        ).real
+                    )
+            # The gradient of a linear function is constant.
+            if dot_product.requires_grad:
+                dot_product.backward()
             return self._sanitize_gradients(arguments)
 
         if num_arguments == 1:
-- 
2.43.0


From ff21b290a08cbfd180a7081ca27d691a0a6a5fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:19 +0000
Subject: [PATCH 23/30] fix: support unused arguments in TensorFlow Hessians

---
 src/pymanopt/autodiff/backends/_tensorflow.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pymanopt/autodiff/backends/_tensorflow.py b/src/pymanopt/autodiff/backends/_tensorflow.py
index bbd08f2..fffc997 100644
--- a/src/pymanopt/autodiff/backends/_tensorflow.py
+++ b/src/pymanopt/autodiff/backends/_tensorflow.py
@@ -66,9 +66,12 @@ class TensorFlowBackend(Backend):
                 for argument in arguments:
                     tape.watch(argument)
                 gradients = tape.gradient(function(*arguments), arguments)
-            return self._sanitize_gradients(
-                arguments, accumulator.jvp(gradients)
-            )
+            # The function may not depend on some of its arguments.
+            products = [
+                None if gradient is None else accumulator.jvp(gradient)
+                for gradient in gradients
+            ]
+            return self._sanitize_gradients(arguments, products)
 
         if num_arguments == 1:
             return unpack_singleton_sequence_return_value(
-- 
2.43.0


From 5ba2386e6cc9fafd8e536761407c36658d2a7248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:19 +0000
Subject: [PATCH 24/30] fix: check for a distance map in check_retraction

---
 src/pymanopt/tools/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/tools/diagnostics.py b/src/pymanopt/tools/diagnostics.py
index c6512c2..a7c9282 100644
--- a/src/pymanopt/tools/diagnostics.py
+++ b/src/pymanopt/tools/diagnostics.py
@@ -313,7 +313,7 @@ def check_retraction(manifold, point=None, tangent_vector=None):
             f"The manifold '{manifold_class}' provides no retraction"
         ) from None
     try:
-        manifold.retraction(point, tangent_vector)
+        manifold.dist(point, point)
     except NotImplementedError:
         raise RuntimeError(
             f"This manifold '{manifold_class}'provides no distance map which "
-- 
2.43.0


From 2960ce0dc1323a288b1c921fc30e5100586b166f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 25/30] fix: let Elliptope use the retraction as its
 exponential map

Manifold precedes RetrAsExpMixin in the bases, so its stub for 'exp' hid the
method of the mixin and every call raised NotImplementedError.
---
 src/pymanopt/manifolds/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/psd.py b/src/pymanopt/manifolds/psd.py
index b96b7a9..d7be4da 100644
--- a/src/pymanopt/manifolds/psd.py
+++ b/src/pymanopt/manifolds/psd.py
@@ -161,7 +161,7 @@ class PSDFixedRankComplex(_PSDFixedRank):
         ) + 1j * np.random.normal(size=(self._n, self._k))
 
 
-class Elliptope(Manifold, RetrAsExpMixin):
+class Elliptope(RetrAsExpMixin, Manifold):
     r"""Manifold of fixed-rank PSD matrices with unit diagonal elements.
 
     Args:
-- 
2.43.0


From 9e4368086bcdff9fd7113f3b18133c2e9fe5419f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 26/30] fix: keep the Poincare ball's logarithm finite near the
 boundary

Coincident points within 1e-8 of the boundary gave 0 / 0 in the Moebius
addition, opposite ones an infinite hyperbolic arctangent.
---
 src/pymanopt/manifolds/hyperbolic.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/pymanopt/manifolds/hyperbolic.py b/src/pymanopt/manifolds/hyperbolic.py
index e038eae..35fbd28 100644
--- a/src/pymanopt/manifolds/hyperbolic.py
+++ b/src/pymanopt/manifolds/hyperbolic.py
@@ -144,9 +144,14 @@ class PoincareBall(Manifold):
         w = self.mobius_addition(-point_a, point_b)
         norm_w = np.linalg.norm(w, axis=-1, keepdims=True)
         factor = self.conformal_factor(point_a)
-        return (
-            np.arctanh(norm_w) * w / (norm_w + (norm_w == 0)) / (factor / 2)
+        # The hyperbolic arctangent of the norm of w, written such that it
+        # stays finite when the norm rounds to one.
+        half_dist = np.arcsinh(
+            np.linalg.norm(point_a - point_b, axis=-1, keepdims=True)
+            * np.sqrt(factor * self.conformal_factor(point_b))
+            / 2
         )
+        return half_dist * w / (norm_w + (norm_w == 0)) / (factor / 2)
 
     def pair_mean(self, point_a, point_b):
         return self.exp(point_a, self.log(point_a, point_b) / 2)
@@ -164,14 +169,16 @@ class PoincareBall(Manifold):
         Returns:
             The Möbius sum of ``point_a`` and ``point_b``.
         """
-        scalar_product = np.sum(point_a * point_b, axis=-1, keepdims=True)
         norm_point_a = np.sum(point_a * point_a, axis=-1, keepdims=True)
         norm_point_b = np.sum(point_b * point_b, axis=-1, keepdims=True)
+        # Collecting terms by the Euclidean sum avoids the cancellation which
+        # otherwise yields 0 / 0 when the points are close to the boundary.
+        euclidean_sum = point_a + point_b
+        norm_sum = np.sum(euclidean_sum**2, axis=-1, keepdims=True)
 
-        return (
-            point_a * (1 + 2 * scalar_product + norm_point_b)
-            + point_b * (1 - norm_point_a)
-        ) / (1 + 2 * scalar_product + norm_point_a * norm_point_b)
+        return (euclidean_sum * (1 - norm_point_a) + point_a * norm_sum) / (
+            (1 - norm_point_a) * (1 - norm_point_b) + norm_sum
+        )
 
     def conformal_factor(self, point):
         """The conformal factor for a point.
-- 
2.43.0


From 5ad834008f0235f6250b3018866eeef2d202da57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:45 +0000
Subject: [PATCH 27/30] fix: print iterations when the iteration limit is zero
 or infinite

---
 src/pymanopt/optimizers/conjugate_gradient.py | 2 +-
 src/pymanopt/optimizers/particle_swarm.py     | 2 +-
 src/pymanopt/optimizers/steepest_descent.py   | 4 +---
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/pymanopt/optimizers/conjugate_gradient.py b/src/pymanopt/optimizers/conjugate_gradient.py
index ea3353c..ddf920c 100644
--- a/src/pymanopt/optimizers/conjugate_gradient.py
+++ b/src/pymanopt/optimizers/conjugate_gradient.py
@@ -220,7 +220,7 @@ class ConjugateGradient(Optimizer):
         if self._verbosity >= 1:
             print("Optimizing...")
         if self._verbosity >= 2:
-            iteration_format_length = int(np.log10(self._max_iterations)) + 1
+            iteration_format_length = len(str(self._max_iterations))
             column_printer = printer.ColumnPrinter(
                 columns=[
                     ("Iteration", f"{iteration_format_length}d"),
diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index 04c0338..6824229 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -109,7 +109,7 @@ class ParticleSwarm(Optimizer):
         xbest = x[imin]
 
         if self._verbosity >= 2:
-            iteration_format_length = int(np.log10(self._max_iterations)) + 1
+            iteration_format_length = len(str(self._max_iterations))
             column_printer = printer.ColumnPrinter(
                 columns=[
                     ("Iteration", f"{iteration_format_length}d"),
diff --git a/src/pymanopt/optimizers/steepest_descent.py b/src/pymanopt/optimizers/steepest_descent.py
index 550ce5b..1ae611e 100644
--- a/src/pymanopt/optimizers/steepest_descent.py
+++ b/src/pymanopt/optimizers/steepest_descent.py
@@ -1,8 +1,6 @@
 import time
 from copy import deepcopy
 
-import numpy as np
-
 from pymanopt.optimizers.line_search import BackTrackingLineSearcher
 from pymanopt.optimizers.optimizer import Optimizer, OptimizerResult
 from pymanopt.tools import printer
@@ -67,7 +65,7 @@ class SteepestDescent(Optimizer):
         if self._verbosity >= 1:
             print("Optimizing...")
         if self._verbosity >= 2:
-            iteration_format_length = int(np.log10(self._max_iterations)) + 1
+            iteration_format_length = len(str(self._max_iterations))
             column_printer = printer.ColumnPrinter(
                 columns=[
                     ("Iteration", f"{iteration_format_length}d"),
-- 
2.43.0


From a47683cdaf2cece7951dcc62c0dfa3b53f4e2118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:58 +0000
Subject: [PATCH 28/30] fix: draw independent eigenvectors for every component
 of random positive definite points

---
 src/pymanopt/manifolds/positive_definite.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymanopt/manifolds/positive_definite.py b/src/pymanopt/manifolds/positive_definite.py
index 896d9ff..7831d3b 100644
--- a/src/pymanopt/manifolds/positive_definite.py
+++ b/src/pymanopt/manifolds/positive_definite.py
@@ -70,10 +70,10 @@ class _PositiveDefiniteBase(RiemannianSubmanifold):
         # Generate eigenvalues between 1 and 2.
         d = 1.0 + np.random.uniform(size=(self._k, self._n, 1))
 
-        # Generate a unitary matrix.
+        # Generate a unitary matrix for each component.
         q, _ = multiqr(
-            np.random.normal(size=(self._n, self._n))
-            + 1j * np.random.normal(size=(self._n, self._n))
+            np.random.normal(size=(self._k, self._n, self._n))
+            + 1j * np.random.normal(size=(self._k, self._n, self._n))
         )
         point = q @ (d * multihconj(q))
         return point if self._k > 1 else point[0]
-- 
2.43.0


From fa812c918a2f85d86240ddf3658c79080a5f7b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:58 +0000
Subject: [PATCH 29/30] fix: do not inherit in-place list operators for tangent
 vectors of product manifolds

---
 src/pymanopt/manifolds/product.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymanopt/manifolds/product.py b/src/pymanopt/manifolds/product.py
index fa414ea..1bac41a 100644
--- a/src/pymanopt/manifolds/product.py
+++ b/src/pymanopt/manifolds/product.py
@@ -150,6 +150,10 @@ class _ProductTangentVector(ndarraySequenceMixin, list):
             raise ValueError("Arguments must be same length")
         return [v + other[k] for k, v in enumerate(self)]
 
+    # Do not inherit the in-place operators of lists, which concatenate and
+    # repeat.
+    __iadd__ = __add__
+
     @return_as_class_instance(unpack=False)
     def __sub__(self, other):
         if len(self) != len(other):
@@ -161,6 +165,7 @@ class _ProductTangentVector(ndarraySequenceMixin, list):
         return [other * val for val in self]
 
     __rmul__ = __mul__
+    __imul__ = __mul__
 
     @return_as_class_instance(unpack=False)
     def __truediv__(self, other):
-- 
2.43.0


From 277d3fbf0c891ccb90a723bca18631a82f878e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:34 +0000
Subject: [PATCH 30/30] fix: print the best cost of the current simplex in
 Nelder-Mead

---
 src/pymanopt/optimizers/nelder_mead.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index 024d691..2c54dfd 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -132,17 +132,17 @@ class NelderMead(Optimizer):
         while True:
             iteration += 1
 
+            # Sort simplex points by cost.
+            order = np.argsort(costs)
+            costs = costs[order]
+            x = [x[i] for i in order]
+
             if self._verbosity >= 2:
                 print(
                     f"Cost evals: {cost_evaluations:7d}\t"
                     f"Best cost: {costs[0]:+.8e}"
                 )
 
-            # Sort simplex points by cost.
-            order = np.argsort(costs)
-            costs = costs[order]
-            x = [x[i] for i in order]
-
             self._add_log_entry(
                 iteration=iteration, point=x[0], cost=costs[0]
             )
-- 
2.43.0

