From 47cfe706b16399013a15e3e99dd5addd9009dd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 01/22] fix: LensCoords must not use np.complex_, which NumPy 2
 removed

---
 dreimac/lenscoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/lenscoords.py b/dreimac/lenscoords.py
index c8a3736..5f70276 100644
--- a/dreimac/lenscoords.py
+++ b/dreimac/lenscoords.py
@@ -93,7 +93,7 @@ class LensCoords(EMCoords):
 
         root_of_unity = np.exp(2 * np.pi * 1j / self._prime)
 
-        cocycle_matrix = np.ones( (n_landmarks, n_landmarks), np.complex_ )
+        cocycle_matrix = np.ones( (n_landmarks, n_landmarks), complex )
         cocycle_matrix[cocycle[:, 0], cocycle[:, 1]] = root_of_unity ** cocycle[:, 2]
         cocycle_matrix[cocycle[:, 1], cocycle[:, 0]] = (1 / root_of_unity) ** cocycle[:, 2]
 
-- 
2.43.0


From bcb816dfa05aa69b2efeee0d1dd48b1cd952d7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 02/22] fix: repairing a second cocycle must not evaluate a
 sparse matrix as a boolean

---
 dreimac/toroidalcoords.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index 77e7438..da27edb 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -136,9 +136,10 @@ class ToroidalCoords(EMCoords):
                 if is_cocycle:
                     fixed_cocycles.append(cocycle_as_vector)
                 else:
-                    delta1 = delta1 or CohomologyUtils.make_delta1_compact(
-                        dist_land_land, rips_threshold, self._cns_lookup_table
-                    )
+                    if delta1 is None:
+                        delta1 = CohomologyUtils.make_delta1_compact(
+                            dist_land_land, rips_threshold, self._cns_lookup_table
+                        )
 
                     d1cocycle = delta1 @ cocycle_as_vector.T
 
-- 
2.43.0


From 7e18ebc2b91a54e9283a6654bc87141d7a60aa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 03/22] fix: Gram-Schmidt must project onto the orthogonalized
 vectors

---
 dreimac/toroidalcoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index da27edb..a0d92d9 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -391,7 +391,7 @@ def _gram_schmidt(B):
     for i in range(1, n):
         Ai = B[:, i]
         for j in range(0, i):
-            Aj = B[:, j]
+            Aj = A[:, j]
             # t = np.dot(B[i],B[j])
             Ai = Ai - proj(Aj, Ai)
         A[:, i] = Ai
-- 
2.43.0


From f6b5bb51f6824ef42076d3da38031d96a915290b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 04/22] fix: report the Gram matrix of the reduced basis, whose
 vectors are columns

---
 dreimac/toroidalcoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index a0d92d9..f62eaa1 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -215,7 +215,7 @@ class ToroidalCoords(EMCoords):
             ) = _reduce_circular_coordinates(circ_coords, gram_mat)
 
             self._original_gram_matrix = gram_mat
-            self._gram_matrix = decorrelated_vectors @ decorrelated_vectors.T
+            self._gram_matrix = decorrelated_vectors.T @ decorrelated_vectors
             self._change_basis = change_basis
 
         return circ_coords
-- 
2.43.0


From f2a2ad1a2af0b44db43eba779e3b4203d23f0dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 05/22] fix: name the requested class, not its position, when
 there is no integral lift

---
 dreimac/toroidalcoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index f62eaa1..a817c53 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -161,7 +161,7 @@ class ToroidalCoords(EMCoords):
                     if not optimizer_solution["success"]:
                         raise Exception(
                             "The cohomology class at index "
-                            + str(class_idx)
+                            + str(cocycle_idxs[class_idx])
                             + " does not have an integral lift."
                         )
                     else:
-- 
2.43.0


From ddb5bd4e99ee5344976b799aaea5afaeed859cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 06/22] fix: computing coordinates must not change the stored
 finite field cocycles

---
 dreimac/complexprojectivecoords.py | 2 +-
 dreimac/toroidalcoords.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dreimac/complexprojectivecoords.py b/dreimac/complexprojectivecoords.py
index 936fa83..6c8ef71 100644
--- a/dreimac/complexprojectivecoords.py
+++ b/dreimac/complexprojectivecoords.py
@@ -105,7 +105,7 @@ class ComplexProjectiveCoords(EMCoords):
 
         # lift to integer cocycles
         integer_cocycle = CohomologyUtils.lift_to_integer_cocycle(
-            cocycle, prime=self._prime
+            cocycle.copy(), prime=self._prime
         )
 
         # go from sparse to dense representation of cocycles
diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index a817c53..8857e62 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -96,7 +96,7 @@ class ToroidalCoords(EMCoords):
 
         # lift to integer cocycles
         integer_cocycles = [
-            CohomologyUtils.lift_to_integer_cocycle(cocycle, prime=self._prime)
+            CohomologyUtils.lift_to_integer_cocycle(cocycle.copy(), prime=self._prime)
             for cocycle in cocycles
         ]
 
-- 
2.43.0


From e0bb4d036a71c5f3b512b8d5bb48e3f6b40960de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 07/22] fix: do not truncate the partition of unity when
 distances are integers

---
 dreimac/emcoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/emcoords.py b/dreimac/emcoords.py
index ea480a7..654c5a1 100644
--- a/dreimac/emcoords.py
+++ b/dreimac/emcoords.py
@@ -171,7 +171,7 @@ class EMCoords(object):
         """
         dist_land_data = self._dist_land_data
         U = dist_land_data < r_cover
-        phi = np.zeros_like(dist_land_data)
+        phi = np.zeros_like(dist_land_data, dtype=float)
         phi[U] = partunity_fn(dist_land_data[U], r_cover)
         # Compute the partition of unity
         # varphi_j(b) = phi_j(b)/(phi_1(b) + ... + phi_{n_landmarks}(b))
-- 
2.43.0


From e98175ac1f020e025f0e52a4249275f2b9459255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 08/22] fix: one uncovered data point must not turn all
 projective coordinates into nan

---
 dreimac/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index f89a935..4ed758e 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -741,9 +741,14 @@ class EquivariantPCA:
         variance = np.zeros(X.shape[0] - 1)
         n_dim = class_map.shape[1]
 
+        # data points not covered by any landmark are nan and must not affect the rest
+        def _covered(X):
+            return X[:, ~np.isnan(X).any(axis=0)]
+
         def _one_step_linear_reduction(X, dims_to_keep):
             try:
-                _, U = np.linalg.eigh(X.dot(np.conjugate(X).T))
+                Xc = _covered(X)
+                _, U = np.linalg.eigh(Xc.dot(np.conjugate(Xc).T))
                 U = np.fliplr(U)
             except:
                 U = np.eye(X.shape[0])
@@ -776,13 +781,14 @@ class EquivariantPCA:
                 if i == n_dim - proj_dim - 1:
                     XRet = X
                 try:
-                    _, U = np.linalg.eigh(X.dot(np.conjugate(X).T))
+                    Xc = _covered(X)
+                    _, U = np.linalg.eigh(Xc.dot(np.conjugate(Xc).T))
                     U = np.fliplr(U)
                     # U, _, _ = np.linalg.svd(X)
                 except:
                     U = np.eye(X.shape[0])
                 variance[-i - 1] = np.mean(
-                    (np.pi / 2 - np.real(np.arccos(np.abs(U[:, -1][None, :].dot(X)))))
+                    (np.pi / 2 - np.real(np.arccos(np.abs(U[:, -1][None, :].dot(Xc)))))
                     ** 2
                 )
                 Y = (np.conjugate(U).T).dot(X)
-- 
2.43.0


From 5b0b2ca0d121e715b44032f6f48f765fc4a7a85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 09/22] fix: one-by-one ppca must return coordinates also when
 nothing or everything is reduced

---
 dreimac/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 4ed758e..c5e8407 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -776,7 +776,7 @@ class EquivariantPCA:
         elif mode == "one-by-one":
             tic = time.time()
             # Projective dimensionality reduction : Main Loop
-            XRet = None
+            XRet = X
             for i in range(n_dim - 1):
                 if i == n_dim - proj_dim - 1:
                     XRet = X
@@ -796,6 +796,8 @@ class EquivariantPCA:
                 Y = Y[0:-1, :]
                 # X = Y / np.sqrt(1 - np.abs(y) ** 2)[None, :]
                 X = Y / np.linalg.norm(Y, axis=0)[None, :]
+            if proj_dim == 0:
+                XRet = X
             if verbose:
                 print("Elapsed time ppca: %.3g" % (time.time() - tic))
 
-- 
2.43.0


From d9838662da531ec96f1592716d04f7fff493e489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 10/22] fix: landmark_geodesic_distance must return a
 permutation when points repeat

---
 dreimac/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index c5e8407..0184a67 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -208,6 +208,8 @@ class GeometryUtils:
         D = np.zeros((n_landmarks, n_points))
         D[0, :] = ds
         for i in range(1, n_landmarks):
+            # never choose the same point twice, even if there are duplicate points
+            ds[perm[i - 1]] = -1
             idx = np.argmax(ds)
             perm[i] = idx
             lambdas[i] = ds[idx]
-- 
2.43.0


From cd9dbbde579ef4d6a258d91dabea18d4430b9b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 11/22] fix: the distance matrix of the Moore space must be
 symmetric

---
 dreimac/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 0184a67..6b93f6d 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1237,6 +1237,8 @@ class GeometryExamples:
                     )
 
         _fill_dist_mat(X, dist_mat, R, prime)
+        # a path from x to y is also a path from y to x
+        dist_mat = np.minimum(dist_mat, dist_mat.T)
         return dist_mat, X
 
 
-- 
2.43.0


From 1930658da45d9cfb8b66e57cf7b9ce2ae6bbd033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 12/22] fix: moving_dot must respect the requested patch
 dimension

---
 dreimac/utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 6b93f6d..098fa00 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -884,7 +884,6 @@ class GeometryExamples:
             kernel = np.outer(gauss_x, gauss_y)
             return kernel
 
-        dim = 10
         P = np.zeros((sqrt_num_images**2, dim * dim))
         bound = 15
         xs = bound * np.power(np.linspace(-1, 1, sqrt_num_images), 3)
-- 
2.43.0


From f73163a52abf284e1e357235d6097487a4dce822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 13/22] fix: circle_to_3dnorthpole must not modify its input

---
 dreimac/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 098fa00..4819307 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1464,7 +1464,7 @@ class ProjectiveMapUtils:
         """
         magSqr = np.sum(x**2)
         if magSqr > 1:
-            x /= np.sqrt(magSqr)
+            x = x / np.sqrt(magSqr)
             magSqr = 1
         u = np.zeros(3)
         u[0:2] = x
-- 
2.43.0


From 0c0e03f8b101fa0683d9e602b2689169782676bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 14/22] fix: rotmat must rotate a vector opposite to the target

---
 dreimac/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 4819307..ce13b06 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1564,7 +1564,12 @@ class ProjectiveMapUtils:
         c = a - np.sum(b * a) * b
         # If a numerically coincides with b, don't rotate at all
         if np.sqrt(np.sum(c**2)) < 1e-15:
-            return np.eye(d)
+            if np.sum(b * a) > 0 or d == 1:
+                return np.eye(d)
+            # If a is opposite to b, rotate in any plane containing b
+            c = np.zeros(d)
+            c[np.argmin(np.abs(b))] = 1
+            c = c - np.sum(b * c) * b
 
         # Otherwise, compute rotation matrix
         c = c / np.sqrt(np.sum(c**2))
-- 
2.43.0


From d917e49804d9a93e8edd563e5958893df77a5d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 15/22] fix: do not choose the same data point as a landmark
 more than once

---
 dreimac/emcoords.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dreimac/emcoords.py b/dreimac/emcoords.py
index 654c5a1..17c760e 100644
--- a/dreimac/emcoords.py
+++ b/dreimac/emcoords.py
@@ -57,6 +57,18 @@ class EMCoords(object):
             n_perm=n_landmarks,
             do_cocycles=True,
         )
+        n_distinct_landmarks = len(np.unique(res["idx_perm"]))
+        if n_distinct_landmarks < len(res["idx_perm"]):
+            # The data has fewer distinct points than n_landmarks, and some were chosen twice.
+            # Their cocycles cannot be told apart, so use each point at most once.
+            res = ripser(
+                ripser_metric_input,
+                distance_matrix=distance_matrix,
+                coeff=prime,
+                maxdim=maxdim,
+                n_perm=n_distinct_landmarks,
+                do_cocycles=True,
+            )
         if verbose:
             print("Elapsed time persistence: %.3g seconds" % (time.time() - tic))
         self._prime = prime
-- 
2.43.0


From ee196bc65a97c5dacf6c7e1e12bf99c672742d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:39 +0000
Subject: [PATCH 16/22] fix: ppca variance uses the Hermitian inner product for
 complex data

---
 dreimac/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index ce13b06..67e8bb6 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -790,7 +790,7 @@ class EquivariantPCA:
                 except:
                     U = np.eye(X.shape[0])
                 variance[-i - 1] = np.mean(
-                    (np.pi / 2 - np.real(np.arccos(np.abs(U[:, -1][None, :].dot(Xc)))))
+                    (np.pi / 2 - np.real(np.arccos(np.abs(np.conjugate(U[:, -1])[None, :].dot(Xc)))))
                     ** 2
                 )
                 Y = (np.conjugate(U).T).dot(X)
-- 
2.43.0


From 56dcda8587d3fc432db70bb22c1dc236ad316a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 17/22] fix: repairing a degree two cocycle needs
 scipy.optimize.Bounds imported

---
 dreimac/complexprojectivecoords.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dreimac/complexprojectivecoords.py b/dreimac/complexprojectivecoords.py
index 6c8ef71..9257a80 100644
--- a/dreimac/complexprojectivecoords.py
+++ b/dreimac/complexprojectivecoords.py
@@ -2,7 +2,7 @@ import numpy as np
 from numba import jit
 import scipy.sparse as sparse
 from scipy.sparse.linalg import lsqr
-from scipy.optimize import LinearConstraint, milp
+from scipy.optimize import Bounds, LinearConstraint, milp
 from .utils import PartUnity, CohomologyUtils, EquivariantPCA
 from .emcoords import EMCoords
 from .combinatorial import (
@@ -132,7 +132,7 @@ class ComplexProjectiveCoords(EMCoords):
                 n_edges = delta2.shape[1]
                 objective = np.zeros((n_edges), dtype=int)
                 integrality = np.ones((n_edges), dtype=int)
-                bounds = scipy.optimize.Bounds()  # empty bounds
+                bounds = Bounds()  # empty bounds
 
                 optimizer_solution = milp(
                     objective,
-- 
2.43.0


From 130f0c192d5f814e5120af83033163c448c8c4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:52 +0000
Subject: [PATCH 18/22] fix: compiled complex projective coordinates dropped
 all phases

---
 dreimac/complexprojectivecoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/complexprojectivecoords.py b/dreimac/complexprojectivecoords.py
index 9257a80..1e05f37 100644
--- a/dreimac/complexprojectivecoords.py
+++ b/dreimac/complexprojectivecoords.py
@@ -298,7 +298,7 @@ def _sparse_integrate(
                 class_map[b, i] += nu[i, ball_indx[b]]
                 for t in range(n_landmarks):
                     class_map[b, i] += varphi[t, b] * eta[i, ball_indx[b], t]
-        return np.exp(2 * np.pi * 1j * class_map0) * np.sqrt(varphi.T)
+        return np.exp(2 * np.pi * 1j * class_map) * np.sqrt(varphi.T)
 
     return _assemble(
         class_map0,
-- 
2.43.0


From f0f57eb710e84db90c5e9b3f31cc102cdd35c2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:32 +0000
Subject: [PATCH 19/22] fix: rotmat of almost parallel directions was not a
 rotation

---
 dreimac/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 67e8bb6..3de9fed 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1562,8 +1562,9 @@ class ProjectiveMapUtils:
         b = b / np.sqrt(np.sum(b**2))
 
         c = a - np.sum(b * a) * b
+        beta = np.sqrt(np.sum(c**2))
         # If a numerically coincides with b, don't rotate at all
-        if np.sqrt(np.sum(c**2)) < 1e-15:
+        if beta < 1e-15:
             if np.sum(b * a) > 0 or d == 1:
                 return np.eye(d)
             # If a is opposite to b, rotate in any plane containing b
@@ -1573,8 +1574,11 @@ class ProjectiveMapUtils:
 
         # Otherwise, compute rotation matrix
         c = c / np.sqrt(np.sum(c**2))
+        # If a and b are almost parallel, c is orthogonal to b only after doing it again
+        for _ in range(2):
+            c = c - np.sum(b * c) * b
+            c = c / np.sqrt(np.sum(c**2))
         lam = np.sum(b * a)
-        beta = np.sqrt(1 - np.abs(lam) ** 2)
         rot = (
             np.eye(d)
             - (1 - lam) * (c[:, None].dot(c[None, :]))
-- 
2.43.0


From 4fb73ca938e43c2af9f09dc57966db62cc9f585d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:05 +0000
Subject: [PATCH 20/22] fix: lens_3D_to_disk_3D took the wrong sector for some
 primes (17, 29, 37, ...)

---
 dreimac/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 3de9fed..b2e8e5c 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1622,7 +1622,7 @@ class LensMapUtils:
             arg_z = np.mod(np.angle(p1), 2 * np.pi)
             theta = np.mod(arg_z, 2 * np.pi / q)
 
-            k = np.floor((arg_z - theta) / (2 * np.pi / q))
+            k = np.round((arg_z - theta) / (2 * np.pi / q))
 
             phi = np.mod(np.angle(p2), 2 * np.pi) - 2 * k * np.pi / q
 
-- 
2.43.0


From 72964ddaa4ac56cdb2bbbaf4667e7882aeeec804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:05 +0000
Subject: [PATCH 21/22] fix: lens_3D_to_disk_3D was NaN for some points with
 vanishing first coordinate

---
 dreimac/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index b2e8e5c..31f669a 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1630,7 +1630,7 @@ class LensMapUtils:
             x, y, z = (
                 r * np.cos(phi),
                 r * np.sin(phi),
-                (q / np.pi) * (theta - np.pi / q) * np.sqrt(1 - r**2),
+                (q / np.pi) * (theta - np.pi / q) * np.abs(p1),
             )
             return [x, y, z]
 
-- 
2.43.0


From 04dff56a635ab99d25d396dc743f586b9744cdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:23 +0000
Subject: [PATCH 22/22] fix: the exponential bump function is positive up to
 the boundary of the ball

---
 dreimac/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 31f669a..b73d364 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -699,7 +699,10 @@ class PartUnity:
             The bump function
 
         """
-        return np.exp(r_cover**2 / (ds**2 - r_cover**2))
+        varphi = np.exp(-(r_cover**2) / ((r_cover - ds) * (r_cover + ds)))
+        # Close to the boundary of the ball the exponential underflows, but
+        # the bump function is positive on the whole open ball
+        return np.maximum(varphi, np.finfo(varphi.dtype).tiny)
 
 
 class EquivariantPCA:
-- 
2.43.0

