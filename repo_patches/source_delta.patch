From 23649d4f8da1af0ffa399c09fc78155ae0d40bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 01/79] fix: rotate Ellipse about its own centre, not about the
 origin

---
 legume/phc/shapes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index aeb1b56..2ff239b 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -154,16 +154,17 @@ class Ellipse(Shape):
             np.abs(np.square(g1y * self.ry)))
         gabs += 1e-10  # To avoid numerical instability at zero
 
-        ft = bd.exp(-1j*g1x*self.x_cent - 1j*g1y*self.y_cent)*self.rx*self.ry* \
+        ft = bd.exp(-1j*gx*self.x_cent - 1j*gy*self.y_cent)*self.rx*self.ry* \
                             2*np.pi/gabs*bd.bessel1(gabs)
 
         return ft
 
     def is_inside(self, x, y):
+        x = x - self.x_cent
+        y = y - self.y_cent
         x1 = x * bd.cos(self.phi) + y * bd.sin(self.phi)
         y1 = -x * bd.sin(self.phi) + y * bd.cos(self.phi)
-        return (np.square((x1 - self.x_cent) / self.rx) + np.square(
-            (y1 - self.y_cent) / self.ry) <= 1)
+        return (np.square(x1 / self.rx) + np.square(y1 / self.ry) <= 1)
 
 
 class Poly(Shape):
-- 
2.43.0


From 6348469a1a3fe1fcc372a1a740e36f8d2e1bc6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 02/79] fix: Ellipse.__repr__ raised NameError (undefined local
 names)

---
 legume/phc/shapes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index 2ff239b..d652ffb 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -141,7 +141,8 @@ class Ellipse(Shape):
         super().__init__(eps=eps)
 
     def __repr__(self):
-        return f"Ellipse(eps = {eps:.2f}, x = {x:.4f}, y = {y:.4f}, rx = {rx:.4f},ry = {ry:.4f}, phi = {phi:.4f}, )"
+        return "Ellipse(eps = %.2f, x = %.4f, y = %.4f, rx = %.4f, ry = %.4f, phi = %.4f)" % \
+               (self.eps, self.x_cent, self.y_cent, self.rx, self.ry, self.phi)
 
     def compute_ft(self, gvec):
         (gx, gy) = self._parse_ft_gvec(gvec)
-- 
2.43.0


From 6fc6dde6d245ff5e6f0935959e13f2ebf7da9fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 03/79] fix: invalid gvec in Shape.compute_ft raised a tuple
 instead of the exception

---
 legume/phc/shapes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index d652ffb..1af2850 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -21,18 +21,18 @@ class Shape(object):
         if type(gvec) == list:
             gvec = np.array(gvec)
         elif type(gvec) != np.ndarray:
-            raise (TypeError, "Input gvec must be either of type list or \
-                                    np.ndarray")
+            raise TypeError("Input gvec must be either of type list or "
+                            "np.ndarray")
 
         if len(gvec.shape) != 2:
-            raise (ValueError, "Input gvec must be a 2D array")
+            raise ValueError("Input gvec must be a 2D array")
 
         elif gvec.shape[0] != 2:
             if gvec.shape[1] == 2:
                 gvec = gvec.T
             else:
-                raise (ValueError, "Input gvec must have length 2 \
-                                along one axis")
+                raise ValueError("Input gvec must have length 2 "
+                                 "along one axis")
 
         return (gvec[0, :], gvec[1, :])
 
-- 
2.43.0


From f8718cea71bd271fe8ca8d8badbf7fe2ba4e8a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 04/79] fix: Lattice.bz_path raised TypeError for a documented
 integer ns

---
 legume/phc/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/phc/lattice.py b/legume/phc/lattice.py
index 27ef912..8b4634e 100644
--- a/legume/phc/lattice.py
+++ b/legume/phc/lattice.py
@@ -132,7 +132,7 @@ class Lattice(object):
             A dictionary with the 'kpoints', 'labels',
             'indexes', 'k_indexes', and the 'angles' corresponding to the labels.      
         """
-        if not isinstance(ns, list): ns = list(ns)
+        if not isinstance(ns, list): ns = list(np.atleast_1d(ns))
         npts = len(pts)
         if npts < 2:
             raise ValueError("At least two points must be given")
-- 
2.43.0


From 0f697b862e863a6ce57717661e5cd6b4d1ff3381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 05/79] fix: Lattice.xy_grid raised TypeError for a scalar
 number of periods

---
 legume/phc/lattice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/legume/phc/lattice.py b/legume/phc/lattice.py
index 8b4634e..be1fa33 100644
--- a/legume/phc/lattice.py
+++ b/legume/phc/lattice.py
@@ -90,13 +90,13 @@ class Lattice(object):
         np.ndarray
             Two arrays defining a linear grid in `x` and `y`.
         """
-        if periods == None:
+        if periods is None:
             if self.type == 'square' or self.type == 'rectangular':
                 periods = [1, 1]
             else:
                 periods = [2, 2]
-        elif np.array(periods).shape == 1:
-            periods = periods[0] * np.ones((2, ))
+        elif np.size(periods) == 1:
+            periods = np.ravel(periods)[0] * np.ones((2, ))
 
         ymax = np.abs(max([self.a1[1], self.a2[1]])) * periods[1] / 2
         ymin = -ymax
-- 
2.43.0


From 6e4866f267d65b45c7b07782cc17e5bde3374bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 06/79] fix: Lattice.xy_grid extent wrong (or empty) for
 primitive vectors with negative components

---
 legume/phc/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/phc/lattice.py b/legume/phc/lattice.py
index be1fa33..60ace23 100644
--- a/legume/phc/lattice.py
+++ b/legume/phc/lattice.py
@@ -98,10 +98,10 @@ class Lattice(object):
         elif np.size(periods) == 1:
             periods = np.ravel(periods)[0] * np.ones((2, ))
 
-        ymax = np.abs(max([self.a1[1], self.a2[1]])) * periods[1] / 2
+        ymax = max(np.abs([self.a1[1], self.a2[1]])) * periods[1] / 2
         ymin = -ymax
 
-        xmax = np.abs(max([self.a1[0], self.a2[0]])) * periods[0] / 2
+        xmax = max(np.abs([self.a1[0], self.a2[0]])) * periods[0] / 2
         xmin = -xmax
 
         return (np.linspace(xmin, xmax, Nx), np.linspace(ymin, ymax, Ny))
-- 
2.43.0


From 4a196405da08b7823d43c1f0d77e9bb0123219fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 07/79] fix: layer permittivity missed shape translates for
 oblique lattices and off-cell shape centres

---
 legume/phc/layer.py  | 18 +++++++++++-------
 legume/phc/shapes.py | 17 +++++++++++++++++
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/legume/phc/layer.py b/legume/phc/layer.py
index af8843f..260d311 100644
--- a/legume/phc/layer.py
+++ b/legume/phc/layer.py
@@ -192,15 +192,19 @@ class ShapesLayer(Layer):
         a1 = self.lattice.a1
         a2 = self.lattice.a2
 
-        a_p = min([np.linalg.norm(a1), np.linalg.norm(a2)])
-        nmax = np.int_(
-            np.sqrt(
-                np.square(np.max(abs(xmesh))) + np.square(np.max(abs(ymesh))))
-            / a_p) + 1
+        # |n_i| <= |b_i|*|r - r_shape|/2/pi for a translate of the shape by
+        # n1*a1 + n2*a2 to reach any of the points
+        r_max = np.sqrt(
+            np.square(np.max(abs(xmesh))) + np.square(np.max(abs(ymesh))))
+        b1_abs = np.linalg.norm(utils.get_value(self.lattice.b1))
+        b2_abs = np.linalg.norm(utils.get_value(self.lattice.b2))
 
         for shape in self.shapes:
-            for n1 in range(-nmax, nmax + 1):
-                for n2 in range(-nmax, nmax + 1):
+            r_tot = (r_max + shape.extent()) / 2 / np.pi
+            n1max = np.int_(b1_abs * r_tot) + 1
+            n2max = np.int_(b2_abs * r_tot) + 1
+            for n1 in range(-n1max, n1max + 1):
+                for n2 in range(-n2max, n2max + 1):
                     in_shape = shape.is_inside(xmesh + n1 * a1[0] + n2 * a2[0],
                                                ymesh + n1 * a1[1] + n2 * a2[1])
                     eps_r[in_shape] = utils.get_value(shape.eps)
diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index 1af2850..5ef2f82 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -2,6 +2,7 @@ import numpy as np
 import matplotlib.path as mpltPath
 
 from legume.backend import backend as bd
+from legume.utils import get_value
 
 
 class Shape(object):
@@ -60,6 +61,11 @@ class Shape(object):
         raise NotImplementedError("is_inside() needs to be implemented by"
                                   "Shape subclasses")
 
+    def extent(self):
+        """Largest distance between the origin and a point of the shape
+        """
+        return 0.
+
 
 class Circle(Shape):
     """Circle shape
@@ -103,6 +109,10 @@ class Circle(Shape):
         return (np.square(x - self.x_cent) + np.square(y - self.y_cent)
                 <= np.square(self.r))
 
+    def extent(self):
+        return np.hypot(get_value(self.x_cent), get_value(
+            self.y_cent)) + get_value(self.r)
+
 
 class Ellipse(Shape):
     """Ellipse shape
@@ -167,6 +177,10 @@ class Ellipse(Shape):
         y1 = -x * bd.sin(self.phi) + y * bd.cos(self.phi)
         return (np.square(x1 / self.rx) + np.square(y1 / self.ry) <= 1)
 
+    def extent(self):
+        return np.hypot(get_value(self.x_cent), get_value(
+            self.y_cent)) + max(get_value(self.rx), get_value(self.ry))
+
 
 class Poly(Shape):
     """Polygon shape
@@ -280,6 +294,9 @@ class Poly(Shape):
         test = path.contains_points(points.T)
         return test.reshape((x.shape))
 
+    def extent(self):
+        return np.max(np.hypot(get_value(self.x_edges), get_value(self.y_edges)))
+
     def rotate(self, angle):
         """Rotate the polygon around its center of mass by `angle` radians
         """
-- 
2.43.0


From 99915ae84b811bea6ffb74e96e8e3025fba98951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 08/79] fix: circular truncation missed reciprocal vectors for
 strongly oblique lattices

---
 legume/exc/exc.py | 7 +++----
 legume/gme/gme.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index 9530376..3428a93 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -172,10 +172,9 @@ class ExcitonSchroedEq(object):
         """
         Initialize reciprocal lattice vectors with circular truncation.
         """
-        n1max = np.int_(
-            (4 * np.pi * self.gmax) / np.linalg.norm(self.phc.lattice.b1))
-        n2max = np.int_(
-            (4 * np.pi * self.gmax) / np.linalg.norm(self.phc.lattice.b2))
+        # G = n1*b1 + n2*b2 has |n_i| = |G.a_i|/2/pi <= |G||a_i|/2/pi
+        n1max = np.int_(self.gmax * np.linalg.norm(self.phc.lattice.a1)) + 1
+        n2max = np.int_(self.gmax * np.linalg.norm(self.phc.lattice.a2)) + 1
 
         inds1 = np.tile(np.arange(-n1max, n1max + 1), (2*n2max + 1, 1))  \
                          .reshape((2*n2max + 1)*(2*n1max + 1), order='F')
diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index ef2ea8d..2016cb9 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -212,10 +212,9 @@ class GuidedModeExp(object):
         """
         Initialize reciprocal lattice vectors with circular truncation.
         """
-        n1max = np.int_(
-            (4 * np.pi * self.gmax) / np.linalg.norm(self.phc.lattice.b1))
-        n2max = np.int_(
-            (4 * np.pi * self.gmax) / np.linalg.norm(self.phc.lattice.b2))
+        # G = n1*b1 + n2*b2 has |n_i| = |G.a_i|/2/pi <= |G||a_i|/2/pi
+        n1max = np.int_(self.gmax * np.linalg.norm(self.phc.lattice.a1)) + 1
+        n2max = np.int_(self.gmax * np.linalg.norm(self.phc.lattice.a2)) + 1
 
         inds1 = np.tile(np.arange(-n1max, n1max + 1), (2*n2max + 1, 1))  \
                          .reshape((2*n2max + 1)*(2*n1max + 1), order='F')
-- 
2.43.0


From a7b5c8dcfcb0f72ca24657aaa302cd452cde2297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:20 +0000
Subject: [PATCH 09/79] fix: exciton potential with several shapes was
 normalised and shifted once per shape

---
 legume/phc/layer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/legume/phc/layer.py b/legume/phc/layer.py
index 260d311..b227c94 100644
--- a/legume/phc/layer.py
+++ b/legume/phc/layer.py
@@ -166,13 +166,13 @@ class ShapesLayer(Layer):
             # inside the shape and zero outside
             FT = FT + Vmax * shape.compute_ft(gvec)
 
-            FT = FT / self.lattice.ec_area
-            # If the potential is negative we must shift all energies
+        FT = FT / self.lattice.ec_area
+        # If the potential is negative we must shift all energies
 
-            ind0 = bd.abs(gvec[0, :]) + bd.abs(gvec[1, :]) < 1e-10
-            # If the first element corresponding to V(0) is negative we shift the energies by Vmax
-            if FT[ind0][0] < 0:
-                FT[ind0] += bd.abs(Vmax)
+        ind0 = bd.abs(gvec[0, :]) + bd.abs(gvec[1, :]) < 1e-10
+        # If the first element corresponding to V(0) is negative we shift the energies by Vmax
+        if FT[ind0][0] < 0:
+            FT[ind0] += bd.abs(Vmax)
         ### k near zero could be explicitly set to the potential average value, to be done!
 
         return FT
-- 
2.43.0


From 2570a919ebcef31fc67f8fce2aebb3bae9eb9aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:20 +0000
Subject: [PATCH 10/79] fix: ExcitonSchroedEq.get_pot_xy raised for
 truncate_g='tbt'

---
 legume/exc/exc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index 3428a93..888c30d 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -411,8 +411,7 @@ class ExcitonSchroedEq(object):
             ft_coeffs = bd.hstack(
                 (self.T1, self.T2, bd.conj(self.T1), bd.conj(self.T2)))
             gvec = bd.hstack((self.G1, self.G2, -self.G1, -self.G2))
-            #ft_coeffs[0] sincewe have only one layer
-            pot_r = ftinv(ft_coeffs[0], gvec, xgrid, ygrid)
+            pot_r = ftinv(ft_coeffs, gvec, xgrid, ygrid)
         elif self.truncate_g == "abs":
             ft_coeffs = self.T1_unique
             gvec = self.G1_unique
-- 
2.43.0


From cb72fcf4796b5e5fac31c6807bc38ba7e8527276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 11/79] fix: guided_modes missed modes when the wave vectors
 are not ascending

---
 legume/gme/slab_modes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/gme/slab_modes.py b/legume/gme/slab_modes.py
index 0a2afc0..5d2f558 100644
--- a/legume/gme/slab_modes.py
+++ b/legume/gme/slab_modes.py
@@ -65,7 +65,7 @@ def guided_modes(g_array: np.ndarray,
                 om_ub = min(
                     om_ub,
                     get_value(omegas[-1]) + step +
-                    (g_array[ig] - g_array[ig - 1]))
+                    np.abs(g_array[ig] - g_array[ig - 1]))
             """
             Check if the guided mode needs to be computed at all; when using the
             gmode_compute = 'exact' option, there might be identical g-points
-- 
2.43.0


From cc2c00deb38c1c96bee06371eb83b75f7ffcdaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 12/79] fix: parity labels of kz_symmetry='both' assumed as
 many odd as even basis states

---
 legume/gme/gme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 2016cb9..1985f3d 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -1061,7 +1061,7 @@ class GuidedModeExp(object):
                     symm1 = bd.concatenate((np.full(self.even_counts[ik],
                                                     1,
                                                     dtype=int),
-                                            np.full(self.even_counts[ik],
+                                            np.full(self.odd_counts[ik],
                                                     -1,
                                                     dtype=int)))
                     freq1 = bd.concatenate((freq1_even, freq1_odd))
-- 
2.43.0


From bcbc4ec1e67b352a6b27e5df8deef24cfe1235b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 13/79] fix: parity separation failed or mislabelled when a
 guided-mode order is left out

---
 legume/gme/gme.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 1985f3d..db1946f 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -1259,7 +1259,7 @@ class GuidedModeExp(object):
         blocks = []  #
         blocks_w = []  #eigenvectors
 
-        for ind_alpha, alpha in enumerate(self.gmode_inds):
+        for ind_alpha, alpha in enumerate(self.gmode_include[ik]):
             dim = self.modes_numg[ik][ind_alpha]
 
             #Block of symmetry operator corresponding to (k,ind_alpha)
@@ -1397,7 +1397,7 @@ class GuidedModeExp(object):
         #dim_final = np.shape(mat)[0]
         dim_final = 0
 
-        for ind_alpha, alpha in enumerate(self.gmode_inds):
+        for ind_alpha, alpha in enumerate(self.gmode_include[ik]):
             dim = self.modes_numg[ik][ind_alpha]
             # These are for creating sparse matrix
             # check_g to avoid double counting on reflected g
-- 
2.43.0


From c501c53eba7bc3ba5e865946606d4d7825d8ddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 14/79] fix: hom_layer only kept the last layer for
 truncate_g='tbt'

---
 legume/gme/gme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index db1946f..b6a5edc 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -652,8 +652,8 @@ class GuidedModeExp(object):
             self.eps_inv_mat = []
 
             if self.truncate_g == 'tbt':
+                self.hom_layer = []
                 for it, T1 in enumerate(self.T1):
-                    self.hom_layer = []
                     # For now we just use the numpy inversion. Later on we could
                     # implement the Toeplitz-Block-Toeplitz inversion (faster)
                     if bd.sum(bd.abs(T1[1:])) < 1e-10 or only_gmodes:
-- 
2.43.0


From 2c8e9078cfa2e28c9ecc3163f1a8b0b22a41af69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 15/79] fix: switching only_gmodes between runs reused the
 permittivity matrices of the earlier run

---
 legume/gme/gme.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index b6a5edc..e4f6059 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -645,9 +645,8 @@ class GuidedModeExp(object):
         """
         Construct the inverse FT matrices for the permittivity in each layer
         """
-        try:
-            self.eps_inv_mat
-        except AttributeError:
+        if getattr(self, '_eps_inv_only_gmodes', None) != bool(only_gmodes):
+            self._eps_inv_only_gmodes = bool(only_gmodes)
             # List of inverse permittivity matrices for every layer
             self.eps_inv_mat = []
 
-- 
2.43.0


From eaed8abd5ae09548858285ff6dc62aad71997a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 16/79] fix: results of an earlier run stayed visible (or were
 used) after GuidedModeExp.run

---
 legume/gme/gme.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index e4f6059..060f37d 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -54,7 +54,7 @@ class GuidedModeExp(object):
         self.gmode_include = []
 
         # Initialize all the attributes defined as properties below
-        self._symm = []
+        self._kz_symms = []
         self._freqs = []
         self._freqs_im = []
         self._unbalance_sp = []
@@ -873,9 +873,19 @@ class GuidedModeExp(object):
         self._kpoints = kpoints
 
         self.modes_numg = []
+        self.ind_modes = []
         self.N_basis = []
         self.gmode_include = []
 
+        # Discard the results of any previous run
+        self._freqs = []
+        self._freqs_im = []
+        self._unbalance_sp = []
+        self._eigvecs = []
+        self._rad_coup = {}
+        self._rad_gvec = {}
+        self._kz_symms = []
+
         #Check if angles are provided in case is not None
         if self.kz_symmetry is None:
             pass
-- 
2.43.0


From 86f9d22bf449cf459b94a81365fd221e392f0360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 17/79] fix: light cone and density of states of the losses
 ignored eps_eff of the claddings

---
 legume/gme/gme.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 060f37d..43ef526 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -1658,9 +1658,9 @@ class GuidedModeExp(object):
             evec = eigvecs[kind][:, im]
             # Reciprocal vedctors within the radiative cone for the claddings
             indmoder = [bd.argwhere(gk**2 <= \
-                    self.phc.claddings[0].eps_avg*omr**2).ravel(),
+                    self.eps_array[0]*omr**2).ravel(),
                         bd.argwhere(gk**2 <= \
-                    self.phc.claddings[1].eps_avg*omr**2).ravel()
+                    self.eps_array[-1]*omr**2).ravel()
                         ]
             gkr = [gk[indmode] for indmode in indmoder]
 
@@ -1752,9 +1752,10 @@ class GuidedModeExp(object):
                 count += self.modes_numg[kind][im1]
 
             # Density of states of leaky modes
-            rad_dos = [self.phc.claddings[i].eps_avg/bd.sqrt(
-                    self.phc.claddings[i].eps_avg*omr**2 - gkr[i]**2) / \
-                    4 / np.pi for i in [0, 1]]
+            rad_dos = [eps_clad/bd.sqrt(
+                    eps_clad*omr**2 - gkr[i]**2) / \
+                    4 / np.pi for i, eps_clad in
+                    enumerate([self.eps_array[0], self.eps_array[-1]])]
 
             # Store the reciprocal lattice vectors corresponding to the
             # radiation channels (diffraction orders)
-- 
2.43.0


From 860daf2603908b03bb9f5df827c6b717d0440979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 18/79] fix: guided_modes raised for the documented lower-case
 polarisation names

---
 legume/gme/slab_modes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/gme/slab_modes.py b/legume/gme/slab_modes.py
index 5d2f558..c702dd8 100644
--- a/legume/gme/slab_modes.py
+++ b/legume/gme/slab_modes.py
@@ -437,7 +437,7 @@ def normalization_coeff(omega,
         chi_array = chi(omega, g, eps_array)
     As = ABref[:, 0].ravel()
     Bs = ABref[:, 1].ravel()
-    if pol == 'TM':
+    if pol.lower() == 'tm':
         term1 = (bd.abs(Bs[0])**
                  2) * J_alpha(chi_array[0] - bd.conj(chi_array[0]))
         term2 = (bd.abs(As[-1])**2) * \
@@ -448,7 +448,7 @@ def normalization_coeff(omega,
                 (bd.conj(As[1:-1]) * Bs[1:-1] + As[1:-1] * bd.conj(Bs[1:-1])) *
                 I_alpha(-chi_array[1:-1]-bd.conj(chi_array[1:-1]),d_array)  )
         return term1 + term2 + bd.sum(term3)
-    elif pol == 'TE':
+    elif pol.lower() == 'te':
         term1 = (bd.abs(chi_array[0])**2 + g**2) * \
             (bd.abs(Bs[0])**2) * J_alpha(chi_array[0]-bd.conj(chi_array[0]))
         term2 = (bd.abs(chi_array[-1])**2 + g**2) * \
-- 
2.43.0


From 17e8705f54942582a972f0e0e9d21b3131161f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 19/79] fix: rad_modes skipped the normalisation for its own
 default pol='TE'

---
 legume/gme/slab_modes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/gme/slab_modes.py b/legume/gme/slab_modes.py
index c702dd8..d609e92 100644
--- a/legume/gme/slab_modes.py
+++ b/legume/gme/slab_modes.py
@@ -512,7 +512,7 @@ def rad_modes(omega: float,
 
         # Normalize
         coeffs = coeffs / coeffs[1, -1]
-        if pol == 'te':
+        if pol.lower() == 'te':
             c_ind = [0, -1]
             coeffs = coeffs / bd.sqrt(eps_array[c_ind[clad]]) / omega
         # Assign correctly based on which cladding the modes radiate to
-- 
2.43.0


From 36744968567b69a22238b65997caea6065bfcf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 20/79] fix: toeplitz_block dropped the imaginary part of T2
 when T1 is real

---
 legume/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/utils.py b/legume/utils.py
index 05c1c53..e8eccfc 100644
--- a/legume/utils.py
+++ b/legume/utils.py
@@ -147,7 +147,7 @@ def toeplitz_block(n, T1, T2):
     """
     ntot = T1.shape[0]
     p = int(ntot / n)  # Linear size of each block
-    Tmat = np.zeros((ntot, ntot), dtype=T1.dtype)
+    Tmat = np.zeros((ntot, ntot), dtype=np.result_type(T1, T2))
     for ind1 in range(n):
         for ind2 in range(ind1, n):
             toep1 = T1[(ind2 - ind1) * p:(ind2 - ind1 + 1) * p]
-- 
2.43.0


From c36bd121004d0ba8879086837c0aca626337f66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 21/79] fix: garbage guided-mode-expansion matrix for patterned
 claddings and equal |k+G|

---
 legume/gme/slab_modes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/legume/gme/slab_modes.py b/legume/gme/slab_modes.py
index d609e92..e4c5895 100644
--- a/legume/gme/slab_modes.py
+++ b/legume/gme/slab_modes.py
@@ -147,6 +147,11 @@ def guided_mode_given_g(g,
         if pol.lower() == 'te' or pol.lower() == 'tm':
             # Compute A-B coefficients
             AB = AB_matrices(omega, g, eps_array, d_array, chi_array, pol)
+            # A guided mode has no growing component in the upper cladding;
+            # drop the numerical residue left by the root finding
+            decaying = np.ones(AB.shape)
+            decaying[-1, 1] = 0
+            AB = AB * decaying
             # Normalize
             norm = normalization_coeff(omega, g, eps_array, d_array, chi_array,
                                        AB, pol)
-- 
2.43.0


From 608de80c07c0a9fd4e8f96f9ae67861404c37eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 22/79] fix: GuidedModeExp.run raised for truncate_g='abs' with
 a single plane wave

---
 legume/gme/gme.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 43ef526..2aabf7b 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -468,10 +468,10 @@ class GuidedModeExp(object):
         """
         From numpy 2.0, 'ind_unique' is returned as a two-dimensional array, with older
         numpy it was just a one-dimensional array containing the indexes to reconstruct
-        the original array. We use squeeze() to remove the dimension of length 1 in case
+        the original array. We use ravel() to remove the dimension of length 1 in case
         of numpy =>1.
         """
-        ind_unique = ind_unique.squeeze()
+        ind_unique = ind_unique.ravel()
         num_unique = np.shape(unique)[1]
 
         # Unique g-vectors for calculting f-transform
-- 
2.43.0


From 5f1e318270eefc738b310c2968f948fa5c152f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 23/79] fix: truncate_g='abs' built eps(G'-G): fields were
 those of the inverted crystal

---
 legume/gme/gme.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 2aabf7b..b4b005e 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -446,19 +446,19 @@ class GuidedModeExp(object):
 
         # x and y components of delta_G = G1-G2,
         #the dimension of ggrdix and ggrdiy is [Ng^2]
-        ggridx = (self.gvec[0, :][np.newaxis, :] -
-                  self.gvec[0, :][:, np.newaxis]).ravel()
-        ggridy = (self.gvec[1, :][np.newaxis, :] -
-                  self.gvec[1, :][:, np.newaxis]).ravel()
+        ggridx = (self.gvec[0, :][:, np.newaxis] -
+                  self.gvec[0, :][np.newaxis, :]).ravel()
+        ggridy = (self.gvec[1, :][:, np.newaxis] -
+                  self.gvec[1, :][np.newaxis, :]).ravel()
 
         # The dimension of G1 is [2,Ng^2]
         self.G1 = bd.vstack((ggridx, ggridy))
 
         # indexes corresponding to ggdrix,ggridy
-        indgridx = (self.inds1[np.newaxis, :] -
-                    self.inds1[:, np.newaxis]).ravel().astype(int)
-        indgridy = (self.inds2[np.newaxis, :] -
-                    self.inds2[:, np.newaxis]).ravel().astype(int)
+        indgridx = (self.inds1[:, np.newaxis] -
+                    self.inds1[np.newaxis, :]).ravel().astype(int)
+        indgridy = (self.inds2[:, np.newaxis] -
+                    self.inds2[np.newaxis, :]).ravel().astype(int)
 
         # We find the list of unique (indgridx,indgridy)
         # This is the bottleneck in terms of timing, we should find
-- 
2.43.0


From 7b663487aab2198be84910d47c15f9df5c1ac4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 24/79] fix: truncate_g='abs' built V(G'-G): wavefunctions were
 those of the inverted potential

---
 legume/exc/exc.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index 888c30d..92492b4 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -241,10 +241,10 @@ class ExcitonSchroedEq(object):
          assuming abs-initialized reciprocal lattice
         """
 
-        ggridx = (self.gvec[0, :][np.newaxis, :] -
-                  self.gvec[0, :][:, np.newaxis]).ravel()
-        ggridy = (self.gvec[1, :][np.newaxis, :] -
-                  self.gvec[1, :][:, np.newaxis]).ravel()
+        ggridx = (self.gvec[0, :][:, np.newaxis] -
+                  self.gvec[0, :][np.newaxis, :]).ravel()
+        ggridy = (self.gvec[1, :][:, np.newaxis] -
+                  self.gvec[1, :][np.newaxis, :]).ravel()
         """
         Old code calculating all redundant delta_g = Gi-Gj
         pot_ft = self.layer.compute_exc_ft(np.vstack((ggridx, ggridy)),
@@ -255,10 +255,10 @@ class ExcitonSchroedEq(object):
         self.G1 = bd.vstack((ggridx, ggridy))
 
         # indexes corresponding to ggdrix,ggridy
-        indgridx = (self.inds1[np.newaxis, :] -
-                    self.inds1[:, np.newaxis]).ravel().astype(int)
-        indgridy = (self.inds2[np.newaxis, :] -
-                    self.inds2[:, np.newaxis]).ravel().astype(int)
+        indgridx = (self.inds1[:, np.newaxis] -
+                    self.inds1[np.newaxis, :]).ravel().astype(int)
+        indgridy = (self.inds2[:, np.newaxis] -
+                    self.inds2[np.newaxis, :]).ravel().astype(int)
 
         # We find the list of unique (indgridx,indgridy)
         indgrid = bd.array([indgridx, indgridy])
-- 
2.43.0


From ef5f329e36146df94db427838ab26f1ec9a4c167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 25/79] fix: PlaneWaveExp D and E fields lacked the |k+G|
 factor of the curl

---
 legume/pwe/pwe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/legume/pwe/pwe.py b/legume/pwe/pwe.py
index ec9cf5a..02f5d56 100644
--- a/legume/pwe/pwe.py
+++ b/legume/pwe/pwe.py
@@ -292,14 +292,14 @@ class PlaneWaveExp(object):
 
         elif field.lower() == 'd' or field.lower() == 'e':
             if self.pol == 'te':
-                Dx_ft = 1j / omega * evec * qx
-                Dy_ft = 1j / omega * evec * qy
+                Dx_ft = 1 / omega * gnorm * evec * qx
+                Dy_ft = 1 / omega * gnorm * evec * qy
                 Dz_ft = bd.zeros(gnorm.shape)
 
             elif self.pol == 'tm':
                 Dx_ft = bd.zeros(gnorm.shape)
                 Dy_ft = bd.zeros(gnorm.shape)
-                Dz_ft = 1j / omega * evec
+                Dz_ft = -1 / omega * gnorm * evec
 
             if field.lower() == 'd':
                 return (Dx_ft, Dy_ft, Dz_ft)
-- 
2.43.0


From c50d4d45558c140a1f783680046b253de858a28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:29 +0000
Subject: [PATCH 26/79] fix: PlaneWaveExp ignored its documented eps_eff
 argument

---
 legume/pwe/pwe.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/legume/pwe/pwe.py b/legume/pwe/pwe.py
index 02f5d56..44c831c 100644
--- a/legume/pwe/pwe.py
+++ b/legume/pwe/pwe.py
@@ -26,6 +26,7 @@ class PlaneWaveExp(object):
 
         # The effective epsilon can be useful for simulations of an effective
         # slab of a given thickness and at a particular frequency.
+        self._replace_eps_b = bool(eps_eff)
         if not eps_eff:
             eps_eff = layer.eps_b
 
@@ -109,6 +110,21 @@ class PlaneWaveExp(object):
         self.n1g = 2 * n1max + 1
         self.n2g = 2 * n2max + 1
 
+    def _layer_ft(self, gvec):
+        """
+        Fourier transform of the layer permittivity, with the background of the
+        layer replaced by `eps_eff` if that was supplied
+        """
+        ft = self.layer.compute_ft(gvec)
+        if self._replace_eps_b:
+            # Fourier transform of the region not covered by the shapes
+            ft_b = bd.abs(gvec[0, :]) + bd.abs(gvec[1, :]) < 1e-10
+            for shape in self.layer.shapes:
+                ft_b = ft_b - shape.compute_ft(gvec) / \
+                    self.layer.lattice.ec_area
+            ft = ft + (self.eps_eff - self.layer.eps_b) * ft_b
+        return ft
+
     def _compute_ft(self):
         """
         Compute the unique FT coefficients of the permittivity, eps(g-g')
@@ -122,8 +138,8 @@ class PlaneWaveExp(object):
                             self.gvec[:, range(n2max)]
 
         # Compute and store T1 and T2
-        self.T1 = self.layer.compute_ft(G1)
-        self.T2 = self.layer.compute_ft(G2)
+        self.T1 = self._layer_ft(G1)
+        self.T2 = self._layer_ft(G2)
 
         # Store the g-vectors to which T1 and T2 correspond
         self.G1 = G1
-- 
2.43.0


From d792865abe1bd9b9452dfce13a52902c361fb8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:29 +0000
Subject: [PATCH 27/79] fix: PlaneWaveExp results raised AttributeError before
 the first run

---
 legume/pwe/pwe.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/legume/pwe/pwe.py b/legume/pwe/pwe.py
index 44c831c..5985f80 100644
--- a/legume/pwe/pwe.py
+++ b/legume/pwe/pwe.py
@@ -32,6 +32,11 @@ class PlaneWaveExp(object):
 
         self.eps_eff = eps_eff
 
+        # Nothing has been computed yet
+        self._freqs = None
+        self._eigvecs = None
+        self._kpoints = None
+
         # Initialize the reciprocal lattice vectors and compute the eps FT
         self._init_reciprocal()
         self._compute_ft()
-- 
2.43.0


From 123db32998db270b2d60a406f123b9dbdc143de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:29 +0000
Subject: [PATCH 28/79] fix: refused PlaneWaveExp.run left the results of an
 earlier run visible

---
 legume/pwe/pwe.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/legume/pwe/pwe.py b/legume/pwe/pwe.py
index 5985f80..ae9fc6a 100644
--- a/legume/pwe/pwe.py
+++ b/legume/pwe/pwe.py
@@ -177,6 +177,14 @@ class PlaneWaveExp(object):
             Number of eigen-frequencies to be stored (starting from lowest).
         """
 
+        # Results of an earlier run don't belong to this one
+        self._freqs = None
+        self._eigvecs = None
+        self._kpoints = None
+
+        if pol.lower() not in ['te', 'tm']:
+            raise ValueError("Polarization should be 'TE' or 'TM'")
+
         self._kpoints = kpoints
         self.pol = pol.lower()
         # Change this if switching to a solver that allows for variable numeig
@@ -199,8 +207,6 @@ class PlaneWaveExp(object):
                         bd.square(k[1] + self.gvec[1, :]))
                 mat = bd.outer(Gk, Gk)
                 mat = mat * self.eps_inv_mat
-            else:
-                raise ValueError("Polarization should be 'TE' or 'TM'")
 
             # Diagonalize using numpy.linalg.eigh() for now; should maybe switch
             # to scipy.sparse.linalg.eigsh() in the future
-- 
2.43.0


From 483f00ced58f35cbbf051669eb17c4f143d915b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:44 +0000
Subject: [PATCH 29/79] fix: ExcitonSchroedEq results raised AttributeError
 before the first run

---
 legume/exc/exc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index 92492b4..518a4be 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -86,6 +86,11 @@ class ExcitonSchroedEq(object):
             if np.shape(self.osc_str)[0] != 3:
                 raise ValueError("'osc_str' must have 3 componets.")
 
+        # Nothing has been computed yet
+        self._eners = None
+        self._eigvecs = None
+        self._kpoints = None
+
         if self.truncate_g == 'tbt':
             self._init_reciprocal_tbt()
             self._compute_pot_ft_tbt()
-- 
2.43.0


From dec7025beb36464deb0b7268c38eb37ce6c1f518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:44 +0000
Subject: [PATCH 30/79] fix: failed ExcitonSchroedEq.run left the results of an
 earlier run visible

---
 legume/exc/exc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index 518a4be..9d89a75 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -326,6 +326,11 @@ class ExcitonSchroedEq(object):
         numeig_ex : int, optional
             Number of eigen-frequencies to be stored (starting from lowest).
         """
+        # Results of an earlier run don't belong to this one
+        self._eners = None
+        self._eigvecs = None
+        self._kpoints = None
+
         self.set_run_options(**kwargs)
 
         self.t_eig = 0  # For timing of the diagonalization
-- 
2.43.0


From 19a61bbdc1d7307064f67efa4b4f9188660c07f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:44 +0000
Subject: [PATCH 31/79] fix: Hopfield matrix took the diamagnetic blocks from
 the last quantum well only

---
 legume/pol/pol.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 9ef059f..86e2256 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -229,11 +229,13 @@ class HopfieldPol(object):
         diag_phot = diag_phot + 2 * bd.real(D_final_block)
 
         row_0 = bd.hstack(
-            (diag_phot, -1j * C_final_block, -2 * D, -1j * C_final_block))
+            (diag_phot, -1j * C_final_block, -2 * D_final_block,
+             -1j * C_final_block))
         row_1 = bd.hstack((1j * C_dagger_final_block, diag_exc,
                            -1j * C_dagger_final_block, diag_exc * 0.))
         row_2 = bd.hstack(
-            (2 * D, -1j * C_final_block, -diag_phot, -1j * C_final_block))
+            (2 * D_final_block, -1j * C_final_block, -diag_phot,
+             -1j * C_final_block))
         row_3 = bd.hstack((-1j * C_dagger_final_block, diag_exc * 0.,
                            1j * C_dagger_final_block, -diag_exc))
         M = bd.vstack((row_0, row_1, row_2, row_3))
-- 
2.43.0


From 2a18618052705115d098bdb19451ab19b223c9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:44 +0000
Subject: [PATCH 32/79] fix: diamagnetic term made polariton energies depend on
 the phases of the photonic modes

---
 legume/pol/pol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 86e2256..40381d1 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -185,7 +185,7 @@ class HopfieldPol(object):
         for n_1 in range(self.N_max):
             for n_2 in range(self.N_max):
                 D[n_1, n_2] = bd.sum(
-                    bd.conj(C[n_1, :]) * C[n_2, :] /
+                    C[n_1, :] * bd.conj(C[n_2, :]) /
                     bd.real(exc.eners[kind, :]))
 
         return C, D
@@ -226,7 +226,7 @@ class HopfieldPol(object):
 
         np.fill_diagonal(diag_exc, exc_el)
 
-        diag_phot = diag_phot + 2 * bd.real(D_final_block)
+        diag_phot = diag_phot + 2 * D_final_block
 
         row_0 = bd.hstack(
             (diag_phot, -1j * C_final_block, -2 * D_final_block,
-- 
2.43.0


From 8574248b34455bd081c65f7b686e10ce51fb0ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:44 +0000
Subject: [PATCH 33/79] fix: HopfieldPol.run wrote into the caller's option
 dictionaries and its own defaults

---
 legume/pol/pol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 40381d1..7f6eda7 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -290,8 +290,8 @@ class HopfieldPol(object):
         self._gvec = self.gme.gvec
 
         #Force the same kpoints for gme and exc solvers
-        gme_options['kpoints'] = self.kpoints
-        exc_options['kpoints'] = self.kpoints
+        gme_options = dict(gme_options, kpoints=self.kpoints)
+        exc_options = dict(exc_options, kpoints=self.kpoints)
 
         #Run gme
         self.gme.run(**gme_options)
-- 
2.43.0


From 2ac07a14e199d8845f0c73da492d5d18285b18c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:44 +0000
Subject: [PATCH 34/79] fix: HopfieldPol results raised AttributeError before
 the first run

---
 legume/pol/pol.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 7f6eda7..c6fcc00 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -29,6 +29,10 @@ class HopfieldPol(object):
 
         self.gme = GuidedModeExp(phc, gmax, truncate_g=truncate_g)
 
+        # Nothing has been computed yet
+        self._reset_results()
+        self._gvec = self.gme.gvec
+
         self.exc_list = []
 
         if len(phc.qws) == 0:
@@ -60,6 +64,17 @@ class HopfieldPol(object):
                              " HopfieldPol should have the same lattice"
                              " constant a.")
 
+    def _reset_results(self):
+        """
+        Clear everything that is computed by a run
+        """
+        self._kpoints = None
+        self._eners = None
+        self._eners_im = None
+        self._eigvecs = None
+        self._fractions_ex = None
+        self._fractions_ph = None
+
     def __repr__(self):
         rep = 'HopfieldPol(\n'
         rep += 'phc = PhotCryst object' + ', \n'
-- 
2.43.0


From 5cd370b91219b572db2ec4850c02dc4176c83eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:44 +0000
Subject: [PATCH 35/79] fix: failed HopfieldPol.run left results of an earlier
 run visible

---
 legume/pol/pol.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index c6fcc00..6b6f1d9 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -295,12 +295,15 @@ class HopfieldPol(object):
             Numpy array of shape (2, Nk) with the [kx, ky] coordinates of the 
             k-vectors over which the simulation is run.
         """
+        # Results of an earlier run don't belong to this one
+        self._reset_results()
+
         eners = []
         eners_im = []
+        eigvecs = []
+        all_fractions_ex = []
+        all_fractions_ph = []
         self._kpoints = kpoints
-        self._eigvecs = []
-        self._fractions_ex = []
-        self._fractions_ph = []
         self.verbose = verbose
         self._gvec = self.gme.gvec
 
@@ -350,16 +353,16 @@ class HopfieldPol(object):
             fraction_ph = fractions_ph[i_sort]
             eners.append(ener)
             eners_im.append(ener_im)
-            self._eigvecs.append(evec)
-            self._fractions_ex.append(fraction_ex)
-            self._fractions_ph.append(fraction_ph)
+            eigvecs.append(evec)
+            all_fractions_ex.append(fraction_ex)
+            all_fractions_ph.append(fraction_ph)
 
         # Store the energies
-        self._fractions_ex = bd.array(self._fractions_ex)
-        self._fractions_ph = bd.array(self._fractions_ph)
+        self._fractions_ex = bd.array(all_fractions_ex)
+        self._fractions_ph = bd.array(all_fractions_ph)
         self._eners = bd.array(eners)
         self._eners_im = bd.array(eners_im)
-        self._eigvecs = bd.array(self._eigvecs)
+        self._eigvecs = bd.array(eigvecs)
         self.mat = mat
 
         self.total_time = time.time() - t_start
-- 
2.43.0


From 4ce3ef9204f4f1605387ea740dffc2467cc05d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:23 +0000
Subject: [PATCH 36/79] fix: reverse-mode derivative of bd.eig raised NameError
 (undefined helper functions)

---
 legume/primitives.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/legume/primitives.py b/legume/primitives.py
index aa750cb..e4dd885 100644
--- a/legume/primitives.py
+++ b/legume/primitives.py
@@ -348,14 +348,14 @@ def vjp_maker_eig(ans, x):
 
     def vjp(g):
         ge, gu = g
-        ge = _matrix_diag(ge)
+        ge = np.diag(ge)
         f = 1 / (e[..., np.newaxis, :] - e[..., :, np.newaxis] + 1.e-20)
-        f -= _diag(f)
+        np.fill_diagonal(f, 0)
         ut = np.swapaxes(u, -1, -2)
-        r1 = f * _dot(ut, gu)
-        r2 = -f * (_dot(_dot(ut, np.conj(u)),
-                        np.real(_dot(ut, gu)) * np.eye(n)))
-        r = _dot(_dot(inv(ut), ge + r1 + r2), ut)
+        r1 = f * np.dot(ut, gu)
+        r2 = -f * (np.dot(np.dot(ut, np.conj(u)),
+                          np.real(np.dot(ut, gu)) * np.eye(n)))
+        r = np.dot(np.dot(np.linalg.inv(ut), ge + r1 + r2), ut)
         if not np.iscomplexobj(x):
             r = np.real(r)
             # the derivative is still complex for real input (imaginary delta is allowed), real output
-- 
2.43.0


From 9b94f8c4fa5ba76729234db8d83e6ad2adc742ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:24 +0000
Subject: [PATCH 37/79] fix: eigsh eigenvectors of a repeated eigenvalue were
 not orthogonal

---
 legume/backend.py    |  4 ++--
 legume/primitives.py |  4 ++--
 legume/utils.py      | 13 +++++++++++++
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/legume/backend.py b/legume/backend.py
index a3dd159..98c79c3 100644
--- a/legume/backend.py
+++ b/legume/backend.py
@@ -15,7 +15,7 @@ import numpy as np
 import scipy as sp
 from scipy import sparse
 # Import some specially written functions
-from .utils import toeplitz_block, fsolve, extend
+from .utils import toeplitz_block, fsolve, extend, eigsh
 
 # Import autograd if available
 try:
@@ -91,7 +91,7 @@ class NumpyBackend(Backend):
     inv = staticmethod(np.linalg.inv)
     eig = staticmethod(np.linalg.eig)
     eigh = staticmethod(np.linalg.eigh)
-    eigsh = staticmethod(sp.sparse.linalg.eigsh)
+    eigsh = staticmethod(eigsh)
     outer = staticmethod(np.outer)
     conj = staticmethod(np.conj)
     var = staticmethod(np.var)
diff --git a/legume/primitives.py b/legume/primitives.py
index e4dd885..c3cc680 100644
--- a/legume/primitives.py
+++ b/legume/primitives.py
@@ -1,7 +1,7 @@
 import numpy as np
 import scipy.sparse as sp
 from functools import partial
-from .utils import toeplitz_block, get_value, fsolve, extend
+from .utils import toeplitz_block, get_value, fsolve, extend, eigsh
 
 from autograd.extend import primitive, defvjp, vspace
 from autograd import grad, vector_jacobian_product
@@ -154,7 +154,7 @@ def vjp_maker_inv(ans, x):
 defvjp(inv_ag, vjp_maker_inv)
 """=========== SCIPY.SPARSE.LINALG.EIGSH =========== """
 
-eigsh_ag = primitive(sp.linalg.eigsh)
+eigsh_ag = primitive(eigsh)
 
 # def vjp_maker_eigsh(ans, x, **kwargs):
 #     """Gradient for eigenvalues and vectors of a hermitian matrix."""
diff --git a/legume/utils.py b/legume/utils.py
index e8eccfc..6a5a81c 100644
--- a/legume/utils.py
+++ b/legume/utils.py
@@ -6,6 +6,7 @@ NOTE: there should be no autograd functions here, only plain numpy/scipy
 import numpy as np
 from scipy.linalg import toeplitz
 from scipy.optimize import brentq
+from scipy.sparse.linalg import eigsh as sparse_eigsh
 import legume.constants as cs
 import warnings
 
@@ -226,6 +227,18 @@ def RedhefferStar(SA, SB):  #SA and SB are both 2x2 matrices;
     return SAB
 
 
+def eigsh(mat, **kwargs):
+    """
+    scipy.sparse.linalg.eigsh with orthonormal eigenvectors. For a complex
+    matrix, scipy does not orthogonalize the eigenvectors that belong to the
+    same eigenvalue.
+    """
+    (w, v) = sparse_eigsh(mat, **kwargs)
+    (q, r) = np.linalg.qr(v)
+    diag = np.diag(r)
+    return (w, q * (diag / np.abs(diag)))
+
+
 def extend(vals, inds, shape):
     """ Makes an array of shape `shape` where indices `inds` have vales `vals` 
     """
-- 
2.43.0


From f282f5636650fd3c67ab56ccba0709f22b91762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:36 +0000
Subject: [PATCH 38/79] fix: Minimize.adam with a single epoch snapped the
 caller's start vector in place

---
 legume/minimize.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/legume/minimize.py b/legume/minimize.py
index 7e0e1e1..c9ac11f 100644
--- a/legume/minimize.py
+++ b/legume/minimize.py
@@ -131,8 +131,7 @@ class Minimize(object):
             if bounds:
                 lbs = np.array([b[0] for b in self.bounds])
                 ubs = np.array([b[1] for b in self.bounds])
-                self.params[self.params < lbs] = lbs[self.params < lbs]
-                self.params[self.params > ubs] = ubs[self.params > ubs]
+                self.params = np.clip(self.params, lbs, ubs)
 
             if callback is not None:
                 callback(self)
-- 
2.43.0


From 5c88d4136aa19c0f12cc0454304e7b177b5e3d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:36 +0000
Subject: [PATCH 39/79] fix: Minimize.lbfgs with pass_self=True evaluated the
 start point without the minimizer

---
 legume/minimize.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/legume/minimize.py b/legume/minimize.py
index c9ac11f..b25edaa 100644
--- a/legume/minimize.py
+++ b/legume/minimize.py
@@ -198,6 +198,11 @@ class Minimize(object):
         self.t_store = time.time()
         self.of_list = []
 
+        if pass_self == True:
+            arglist = list(args)
+            arglist.append(self)
+            args = tuple(arglist)
+
         # Get initial of value
         of = self.objective(self.params, *args)
         self.of_list.append(self._get_value(of))
@@ -206,11 +211,6 @@ class Minimize(object):
             """Modify the objective function slightly to allow storing
             intermediate objective values without re-evaluating the function
             """
-            if pass_self == True:
-                arglist = list(args)
-                arglist.append(self)
-                args = tuple(arglist)
-
             out = value_and_grad(self.objective)(params, *args, **kwargs)
             self.of_last = self._get_value(out[0])
             return out
-- 
2.43.0


From 2bd2a008ef0aeb91452a3d72f539e7d7f6edcaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:11 +0000
Subject: [PATCH 40/79] fix: generate_gds_raster passed its list of levels to
 find_contours (TypeError)

---
 legume/gds.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/legume/gds.py b/legume/gds.py
index 550bbac..88edbb6 100644
--- a/legume/gds.py
+++ b/legume/gds.py
@@ -99,7 +99,9 @@ def generate_gds_raster(lattice,
         Default is [0.5].
     """
 
-    contours = skimage.measure.find_contours(raster, levels)
+    contours = []
+    for level in np.atleast_1d(levels):
+        contours += list(skimage.measure.find_contours(raster, level))
     polygons = []
 
     T = np.hstack((lattice.a1[:, np.newaxis], lattice.a2[:, np.newaxis]))
-- 
2.43.0


From ba5e0b860a2818c3db7d9f1f5b0cec6b37a6ef69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:11 +0000
Subject: [PATCH 41/79] fix: generate_gds_raster with cell_bound=False raised
 UnboundLocalError

---
 legume/gds.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/legume/gds.py b/legume/gds.py
index 88edbb6..b384fc6 100644
--- a/legume/gds.py
+++ b/legume/gds.py
@@ -126,7 +126,6 @@ def generate_gds_raster(lattice,
                                [-0.5, +0.5, +0.5, -0.5]])
         points = [(x, y) for (x, y) in zip(bounds[0, :], bounds[1, :])]
         boundary = gdspy.Polygon(points, layer=0, datatype=1)
-
-    cell.add(boundary)
+        cell.add(boundary)
 
     gdspy.write_gds(filename, unit=unit)
-- 
2.43.0


From a8c7ac461e6750e4844e1f1dd5acd790cfe06677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:11 +0000
Subject: [PATCH 42/79] fix: generate_gds refused FourierShape and Ellipse

---
 legume/gds.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/legume/gds.py b/legume/gds.py
index b384fc6..f6ab727 100644
--- a/legume/gds.py
+++ b/legume/gds.py
@@ -4,7 +4,7 @@ logger = logging.getLogger(__name__)
 
 import numpy as np
 
-from . import Circle, Poly, Square, Hexagon
+from . import Circle, Ellipse, Poly, Square, Hexagon, FourierShape
 
 try:
     import gdspy
@@ -45,7 +45,7 @@ def generate_gds(phc, filename, unit=1e-6, tolerance=0.01):
 
     for i, layer in enumerate(phc.layers):
         for shape in layer.shapes:
-            if type(shape) in [Poly, Square, Hexagon]:
+            if type(shape) in [Poly, Square, Hexagon, FourierShape]:
                 points = [
                     (x, y)
                     for (x, y) in zip(shape.x_edges[:-1], shape.y_edges[:-1])
@@ -59,6 +59,13 @@ def generate_gds(phc, filename, unit=1e-6, tolerance=0.01):
                                      datatype=1,
                                      tolerance=tolerance)
                 cell.add(circle)
+            elif type(shape) == Ellipse:
+                center = (shape.x_cent, shape.y_cent)
+                ellipse = gdspy.Round(center, (shape.rx, shape.ry),
+                                      layer=i,
+                                      datatype=1,
+                                      tolerance=tolerance)
+                cell.add(ellipse.rotate(shape.phi, center))
             else:
                 raise RuntimeError(
                     "Unknown shape type, %s, found in layer %d of phc" %
-- 
2.43.0


From f70e69f4a2af35b42b0c9e04c88494e26562a094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 43/79] fix: HopfieldPol.run raised IndexError when numeig_ex
 exceeds the number of plane waves

---
 legume/pol/pol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 6b6f1d9..864fb5e 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -323,7 +323,7 @@ class HopfieldPol(object):
         t_start = time.time()
         #Retrieve number of photonic/excitonic eigenvalues
         self.N_max = self.gme.numeig
-        self.M_max = self.exc_list[0].numeig_ex
+        self.M_max = self.exc_list[0].eners.shape[1]
         num_k = kpoints.shape[1]  # Number of wavevectors
 
         for ik, k in enumerate(self.kpoints.T):
-- 
2.43.0


From 9475b82e35a3595b8c7a601894102a676663d700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 44/79] fix: GuidedModeExp.run_im before any run raised
 AttributeError instead of RuntimeError

---
 legume/gme/gme.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index b4b005e..478117d 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -1202,10 +1202,10 @@ class GuidedModeExp(object):
         rad_coup = {'l_te': [], 'l_tm': [], 'u_te': [], 'u_tm': []}
         rad_gvec = {'l': [], 'u': []}
 
-        minds = np.arange(0, self.numeig)
-
         if len(self.freqs) == 0:
             raise RuntimeError("Run the GME computation first!")
+
+        minds = np.arange(0, self.numeig)
         num_k = np.shape(self.freqs)[0]
         for kind in range(len(self.freqs)):
             prbd.update_prog(kind, num_k, self.verbose,
-- 
2.43.0


From f554a44f50f9d22c421df16b0461bef432c5ef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 45/79] fix: gradients of Poly Fourier transforms were wrong
 for edges along the axes, values lost accuracy at small g

---
 legume/phc/shapes.py | 89 +++++++++++++++++---------------------------
 1 file changed, 34 insertions(+), 55 deletions(-)

diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index 5ef2f82..ca23bd6 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -223,7 +223,8 @@ class Poly(Shape):
         The polygon is assumed to take a value of 1 inside and a value of 0 
         outside.
 
-        The Fourier transform calculation follows that of Lee, IEEE TAP (1984).
+        The Fourier transform is a contour integral over the polygon edges, see
+        e.g. Lee, IEEE TAP (1984).
 
         Parameters
         ----------
@@ -232,60 +233,38 @@ class Poly(Shape):
         """
         (gx, gy) = self._parse_ft_gvec(gvec)
 
-        (xj, yj) = self.x_edges, self.y_edges
-        npts = xj.shape[0]
-        ng = gx.shape[0]
-        # Note: the paper uses +1j*g*x convention for FT while we use
-        # -1j*g*x everywhere in legume
-        gx = -gx[:, bd.newaxis]
-        gy = -gy[:, bd.newaxis]
-        xj = xj[bd.newaxis, :]
-        yj = yj[bd.newaxis, :]
-
-        ft = bd.zeros((ng), dtype=bd.complex)
-
-        aj = (bd.roll(xj, -1, axis=1) - xj + 1e-10) / \
-                (bd.roll(yj, -1, axis=1) - yj + 1e-20)
-        bj = xj - aj * yj
-
-        # We first handle the Gx = 0 case
-        ind_gx0 = np.abs(gx[:, 0]) < 1e-10
-        ind_gx = ~ind_gx0
-        if np.sum(ind_gx0) > 0:
-            # And first the Gy = 0 case
-            ind_gy0 = np.abs(gy[:, 0]) < 1e-10
-            if np.sum(ind_gy0 * ind_gx0) > 0:
-                ft = ind_gx0*ind_gy0*bd.sum(xj * bd.roll(yj, -1, axis=1)-\
-                                yj * bd.roll(xj, -1, axis=1))/2
-                # Remove the Gx = 0, Gy = 0 component
-                ind_gx0[ind_gy0] = False
-
-            # Compute the remaining Gx = 0 components
-            a2j = 1 / aj
-            b2j = yj - a2j * xj
-            bgtemp = gy * b2j
-            agtemp1 = bd.dot(gx, xj) + bd.dot(gy, a2j * xj)
-            agtemp2 = bd.dot(gx, bd.roll(xj, -1, axis=1)) + \
-                    bd.dot(gy, a2j * bd.roll(xj, -1, axis=1))
-            denom = gy * (gx + bd.dot(gy, a2j))
-            ftemp = bd.sum(bd.exp(1j*bgtemp) * (bd.exp(1j*agtemp2) - \
-                    bd.exp(1j*agtemp1)) * \
-                    denom / (bd.square(denom) + 1e-50) , axis=1)
-            ft = bd.where(ind_gx0, ftemp, ft)
-
-        # Finally compute the general case for Gx != 0
-        if np.sum(ind_gx) > 0:
-            bgtemp = bd.dot(gx, bj)
-            agtemp1 = bd.dot(gy, yj) + bd.dot(gx, aj * yj)
-            agtemp2 = bd.dot(gy, bd.roll(yj, -1, axis=1)) + \
-                        bd.dot(gx, aj * bd.roll(yj, -1, axis=1))
-            denom = gx * (gy + bd.dot(gx, aj))
-            ftemp = -bd.sum(bd.exp(1j*bgtemp) * (bd.exp(1j * agtemp2) - \
-                    bd.exp(1j * agtemp1)) * \
-                    denom / (bd.square(denom) + 1e-50) , axis=1)
-            ft = bd.where(ind_gx, ftemp, ft)
-
-        return ft
+        gx = gx[:, bd.newaxis]
+        gy = gy[:, bd.newaxis]
+        g2 = np.square(gx) + np.square(gy)
+        g_zero = (np.abs(gx) < 1e-10) & (np.abs(gy) < 1e-10)
+
+        # Vertices with respect to the first one, edges and edge centers
+        (x0, y0) = self.x_edges[0], self.y_edges[0]
+        xj = (self.x_edges - x0)[bd.newaxis, :]
+        yj = (self.y_edges - y0)[bd.newaxis, :]
+        xj1 = bd.roll(xj, -1, axis=1)
+        yj1 = bd.roll(yj, -1, axis=1)
+        (dx, dy) = (xj1 - xj, yj1 - yj)
+
+        area = bd.sum(xj * yj1 - yj * xj1) / 2
+
+        # The integral over the area is 1j/g^2 times the contour integral of
+        # (gx*dy - gy*dx)*exp(-1j*g*r). Every edge gives exp(-1j*g*r_center)
+        # times sinc(g*dr/2), minus one because the contour is closed; this is
+        # accurate also for edges along the axes and for small g.
+        phase = gx * (xj + xj1) / 2 + gy * (yj + yj1) / 2
+        expm1 = -2j * bd.sin(phase / 2) * bd.exp(-1j * phase / 2)
+        arg = (gx * dx + gy * dy) / 2
+        small = bd.abs(arg) < 1e-4
+        arg_l = bd.where(small, 1., arg)
+        sincm1 = bd.where(small, -bd.square(arg) / 6, bd.sin(arg_l) / arg_l - 1)
+        contour = bd.sum((gx * dy - gy * dx) * (expm1 * (1 + sincm1) + sincm1),
+                         axis=1)
+
+        ft = 1j * contour / np.where(g_zero, 1., g2)[:, 0]
+        ft = bd.where(g_zero[:, 0], area, ft)
+
+        return ft * bd.exp(-1j * gx[:, 0] * x0 - 1j * gy[:, 0] * y0)
 
     def is_inside(self, x, y):
         vert = np.vstack((np.array(self.x_edges), np.array(self.y_edges)))
-- 
2.43.0


From a4f6e2f169ce2d45ca430c5e676dc17acfeac560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 46/79] fix: Ellipse raised TypeError when differentiated with
 respect to its axes or rotation

---
 legume/phc/shapes.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index ca23bd6..08d4f1d 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -160,10 +160,8 @@ class Ellipse(Shape):
         # Change of coordinates
         g1x = gx * bd.cos(self.phi) + gy * bd.sin(self.phi)
         g1y = -gx * bd.sin(self.phi) + gy * bd.cos(self.phi)
-        gabs = np.sqrt(
-            np.abs(np.square(g1x * self.rx)) +
-            np.abs(np.square(g1y * self.ry)))
-        gabs += 1e-10  # To avoid numerical instability at zero
+        gabs = bd.sqrt(bd.square(g1x * self.rx) + bd.square(g1y * self.ry))
+        gabs = gabs + 1e-10  # To avoid numerical instability at zero
 
         ft = bd.exp(-1j*gx*self.x_cent - 1j*gy*self.y_cent)*self.rx*self.ry* \
                             2*np.pi/gabs*bd.bessel1(gabs)
-- 
2.43.0


From 4acba49d0fb9c3d5f5f60c3afdd586fc03cb209e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 47/79] fix: derivative of bd.interp was nan for a single
 tabulated point and raised IndexError past the last one

---
 legume/primitives.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/legume/primitives.py b/legume/primitives.py
index c3cc680..ea57f38 100644
--- a/legume/primitives.py
+++ b/legume/primitives.py
@@ -242,9 +242,15 @@ def vjp_maker_interp(ans, x, xp, yp):
     def vjp(g):
         dydyp = np.zeros((x.size, xp.size))
         ix = np.arange(x.size)
-        indx = np.searchsorted(xp, x[ix]) - 1
-        dydyp[ix, indx] = 1 - (x[ix] - xp[indx]) / (xp[indx + 1] - xp[indx])
-        dydyp[ix, indx + 1] = (x[ix] - xp[indx]) / (xp[indx + 1] - xp[indx])
+        # Points outside of the table (or on its ends) take the end values
+        ind1 = np.minimum(np.searchsorted(xp, x), xp.size - 1)
+        ind0 = np.maximum(ind1 - 1, 0)
+        step = xp[ind1] - xp[ind0]
+        frac = np.where(step > 0, (x - xp[ind0]) / np.where(step > 0, step, 1),
+                        1.)
+        frac = np.minimum(frac, 1.)
+        dydyp[ix, ind0] += 1 - frac
+        dydyp[ix, ind1] += frac
         return np.dot(g, dydyp)
 
     return vjp
-- 
2.43.0


From e39978ad7ec7eaf531f145964738cb202fc92423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 48/79] fix: gradients through a tbt expansion lost the
 imaginary part of the permittivity at inversion-symmetric structures

---
 legume/gme/gme.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 478117d..0a5a143 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -422,13 +422,14 @@ class GuidedModeExp(object):
             T1 = layer.compute_ft(G1)
             T2 = layer.compute_ft(G2)
 
-            # Store T1 and T2
-            if bd.amax(bd.abs(
+            # Store T1 and T2; a vanishing imaginary part can be dropped
+            # unless its derivatives are needed
+            if get_value(T1) is T1 and bd.amax(bd.abs(
                     bd.imag(T1))) < 1e-10 * bd.amax(bd.abs(bd.real(T1))):
                 self.T1.append(bd.real(T1))
             else:
                 self.T1.append(T1)
-            if bd.amax(bd.abs(
+            if get_value(T2) is T2 and bd.amax(bd.abs(
                     bd.imag(T2))) < 1e-10 * bd.amax(bd.abs(bd.real(T2))):
                 self.T2.append(bd.real(T2))
             else:
-- 
2.43.0


From edd5eac0587cad20ed54fcadc61f93cf0422fabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 49/79] fix: gradients ignored shapes with the permittivity of
 their background

---
 legume/gme/gme.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 0a5a143..3bb5bfe 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -642,6 +642,19 @@ class GuidedModeExp(object):
         return bd.triu(mat, 1) + bd.transpose(bd.conj(bd.triu(mat, 1))) + \
                 bd.real(bd.diag(bd.diag(mat)))
 
+    def _is_homogeneous(self, ind_layer, eps_ft):
+        """
+        Check if the Fourier components 'eps_ft' at g != 0 of layer number 
+        'ind_layer' (0 is the lower cladding) vanish. If derivatives are 
+        computed, they also have to vanish identically.
+        """
+        layer = ([self.phc.claddings[0]] + self.phc.layers +
+                 [self.phc.claddings[1]])[ind_layer]
+        if get_value(eps_ft) is not eps_ft and \
+                len(getattr(layer, 'shapes', [None])) > 0:
+            return False
+        return bd.sum(bd.abs(get_value(eps_ft))) < 1e-10
+
     def compute_eps_inv(self, only_gmodes=False):
         """
         Construct the inverse FT matrices for the permittivity in each layer
@@ -656,7 +669,7 @@ class GuidedModeExp(object):
                 for it, T1 in enumerate(self.T1):
                     # For now we just use the numpy inversion. Later on we could
                     # implement the Toeplitz-Block-Toeplitz inversion (faster)
-                    if bd.sum(bd.abs(T1[1:])) < 1e-10 or only_gmodes:
+                    if only_gmodes or self._is_homogeneous(it, T1[1:]):
                         self.eps_inv_mat.append(
                             bd.eye(T1.size, T1.size) / T1[0])
                         self.hom_layer.append(True)
@@ -682,8 +695,8 @@ class GuidedModeExp(object):
                     eps_ft = bd.reshape(
                         T1, (self.gvec[0, :].size, self.gvec[0, :].size))
 
-                    if bd.sum(bd.abs(
-                            T1[mod_G1 > 1e-10])) < 1e-10 or only_gmodes:
+                    if only_gmodes or self._is_homogeneous(
+                            it, T1[mod_G1 > 1e-10]):
                         # Here eps is diagonal
                         self.hom_layer.append(True)
                         self.eps_mat.append(
-- 
2.43.0


From e0503d16bc7c2ca1b1e676ab8fd853dd7a17d993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 50/79] fix: viz.bands raised AttributeError for a PlaneWaveExp
 unless cone=False

---
 legume/viz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/legume/viz.py b/legume/viz.py
index 8d4850c..cdfbe08 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -209,7 +209,8 @@ def bands(gme,
                         mec=markeredgecolor)
                 ax.set_ylim(bottom=0.0, top=conv * gme.freqs[:].max())
 
-    if cone:
+    # There are no claddings, and thus no light cone, in a PlaneWaveExp
+    if cone and not isinstance(gme, PlaneWaveExp):
         vec_LL = _calculate_LL(gme.kpoints, gme.phc, conv)
         ax.fill_between(X0,
                         vec_LL,
-- 
2.43.0


From a93dcb8d451b9c61e629676618c26c9cf66068e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 51/79] fix: viz.bands with Q=True raised ValueError when all
 quality factors exceed Q_clip

---
 legume/viz.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index cdfbe08..2a5f1cd 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -115,7 +115,7 @@ def bands(gme,
                 gme.run_im()
             Q = _calculate_Q(gme.freqs.flatten(),
                              np.array(gme.freqs_im).flatten())
-            Q_max = np.max(Q[Q < Q_clip])
+            Q_max = np.max(Q[Q < Q_clip]) if np.any(Q < Q_clip) else Q_clip
 
             p = ax.scatter(X.flatten(),
                            conv * gme.freqs.flatten(),
@@ -137,7 +137,7 @@ def bands(gme,
                     gme.run_im()
                 Q = _calculate_Q(gme.freqs.flatten(),
                                  np.array(gme.freqs_im).flatten())
-                Q_max = np.max(Q[Q < Q_clip])
+                Q_max = np.max(Q[Q < Q_clip]) if np.any(Q < Q_clip) else Q_clip
                 edgecolors = mpl.cm.get_cmap('bwr')(
                     (np.asarray(gme.kz_symms).flatten() + 1) / 2)
 
@@ -160,7 +160,7 @@ def bands(gme,
                     gme.run_im()
                 Q = _calculate_Q(gme.freqs.flatten(),
                                  np.array(gme.freqs_im).flatten())
-                Q_max = np.max(Q[Q < Q_clip])
+                Q_max = np.max(Q[Q < Q_clip]) if np.any(Q < Q_clip) else Q_clip
 
                 p = ax.scatter(X.flatten(),
                                conv * gme.freqs.flatten(),
-- 
2.43.0


From af94005b0d84a7789cf51eafbf250c00b2ca1044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 52/79] fix: viz.bands with Q=True and kz_symmetry both used
 mpl.cm.get_cmap, which recent matplotlib versions removed

---
 legume/viz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/viz.py b/legume/viz.py
index 2a5f1cd..2bd3061 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -138,7 +138,7 @@ def bands(gme,
                 Q = _calculate_Q(gme.freqs.flatten(),
                                  np.array(gme.freqs_im).flatten())
                 Q_max = np.max(Q[Q < Q_clip]) if np.any(Q < Q_clip) else Q_clip
-                edgecolors = mpl.cm.get_cmap('bwr')(
+                edgecolors = plt.get_cmap('bwr')(
                     (np.asarray(gme.kz_symms).flatten() + 1) / 2)
 
                 p = ax.scatter(X.flatten(),
-- 
2.43.0


From 39aa8fab2276f9222b1a8dde4c8df0b911d0b32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 53/79] fix: viz.bands drew even modes in the color of odd ones
 when all modes have the same symmetry, and failed for one k-point and 3 or 4
 modes

---
 legume/viz.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/legume/viz.py b/legume/viz.py
index 2bd3061..867fa10 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -192,8 +192,10 @@ def bands(gme,
             if show_symmetry:
                 ax.scatter(X.flatten(),
                            conv * gme.freqs.flatten(),
-                           c=gme.kz_symms,
+                           c=np.asarray(gme.kz_symms).flatten(),
                            cmap='bwr',
+                           vmin=-1,
+                           vmax=1,
                            s=markersize**2,
                            edgecolors=markeredgecolor,
                            linewidth=markeredgewidth)
-- 
2.43.0


From 49e7fd67b432f280842d1063a315af0ce97740f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 54/79] fix: viz.shapes raised AttributeError for an Ellipse

---
 legume/viz.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index 867fa10..65a70e2 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -4,7 +4,7 @@ import numpy as np
 from legume.utils import from_freq_to_e
 import warnings
 from .gme import GuidedModeExp
-from .phc import PhotCryst, Circle
+from .phc import PhotCryst, Circle, Ellipse
 from .pwe import PlaneWaveExp
 from .exc import ExcitonSchroedEq
 from .pol import HopfieldPol
@@ -659,14 +659,21 @@ def shapes(layer, ax=None, npts=101, color='k', lw=1, pad=True):
                                  lw=lw,
                                  npts=npts)
         else:
-            # Everything else should be a Poly subclass
-            ax.plot(shape.x_edges, shape.y_edges, c=color, lw=lw)
+            if type(shape) == Ellipse:
+                phi = np.linspace(0, 2 * np.pi, npts)
+                x1 = shape.rx * np.cos(phi)
+                y1 = shape.ry * np.sin(phi)
+                xs = shape.x_cent + x1 * np.cos(shape.phi) - y1 * np.sin(
+                    shape.phi)
+                ys = shape.y_cent + x1 * np.sin(shape.phi) + y1 * np.cos(
+                    shape.phi)
+            else:
+                # Everything else should be a Poly subclass
+                xs, ys = shape.x_edges, shape.y_edges
+            ax.plot(xs, ys, c=color, lw=lw)
             if pad == True:
                 for (x_p, y_p) in xy_p:
-                    ax.plot(shape.x_edges + x_p,
-                            shape.y_edges + y_p,
-                            c=color,
-                            lw=lw)
+                    ax.plot(xs + x_p, ys + y_p, c=color, lw=lw)
     ax.set_xlim(xext)
     ax.set_ylim(yext)
     ax.set_aspect('equal')
-- 
2.43.0


From a1cfb0086862dc17e6a444797762ca8a5cd70670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 55/79] fix: viz.eps_ft and viz.pot_ft raised NameError when
 given a gridspec

---
 legume/viz.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index 65a70e2..6cdb591 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -958,9 +958,9 @@ def eps_ft(struct,
                                        width_ratios=[1 - cbwidth, cbwidth])
     elif gridspec is not None and fig is not None:
         if cbar == False:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 1, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 1, gridspec)
         else:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 2, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 2, gridspec)
     else:
         raise ValueError(
             "Parameters gridspec and fig should be both specified "
@@ -1084,9 +1084,9 @@ def pot_ft(struct,
                                        width_ratios=[1 - cbwidth, cbwidth])
     elif gridspec is not None and fig is not None:
         if cbar == False:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 1, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 1, gridspec)
         else:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 2, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 2, gridspec)
     else:
         raise ValueError(
             "Parameters gridspec and fig should be both specified "
-- 
2.43.0


From 41069862a2b42e920a973a75592995c088126680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 56/79] fix: viz.pot_ft clipped away the whole range of an
 attractive potential

---
 legume/viz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index 6cdb591..364169e 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -1094,8 +1094,8 @@ def pot_ft(struct,
 
     ims = []
     ax = []
-    eps_min = 0
-    eps_max = np.abs(struct.V_shapes)
+    eps_min = min(0, struct.V_shapes)
+    eps_max = max(0, struct.V_shapes)
     for (indl, layer) in enumerate(
             all_layers):  # Actually there is only one layer in the exc
         ax.append(fig.add_subplot(gs[indl, :]))
-- 
2.43.0


From 3bc328fbe995751d1e086f09507545fdf80f25a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 57/79] fix: viz.field with periodic=False multiplied an
 xy-plane field with the wrong Bloch phase, or raised for N1 != N2

---
 legume/viz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index 364169e..97627f5 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -1226,8 +1226,8 @@ def field(struct,
                     np.meshgrid(grid1, grid2, np.array(z))).squeeze()
         pl, o, v = 'xy', 'z', zval
         if periodic == False:
-            kenv = np.exp(1j * grid1 * struct.kpoints[0, kind] +
-                          1j * grid2 * struct.kpoints[1, kind])
+            kenv = np.exp(1j * grid1[np.newaxis, :] * struct.kpoints[0, kind] +
+                          1j * grid2[:, np.newaxis] * struct.kpoints[1, kind])
 
     elif x is not None and z is None and y is None:
         if str_type == 'pwe':
-- 
2.43.0


From bdb7e29461e1df050bb73f0c3a4526044971f036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 58/79] fix: viz.pol_bands took the excitonic fractions for an
 RGB color with one k-point and 3 or 4 modes

---
 legume/viz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/viz.py b/legume/viz.py
index 97627f5..c3384cf 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -317,7 +317,7 @@ def pol_bands(pol,
                        linewidth=markeredgewidth)
         plt.colorbar(p, ax=ax, label="Radiative quality factor", extend="max")
     elif fraction:
-        fractions = pol.fractions_ex
+        fractions = np.array(pol.fractions_ex).flatten()
         p = ax.scatter(X.flatten(),
                        pol.eners.flatten(),
                        c=fractions,
-- 
2.43.0


From ceef665e2b08844edceebe5852856b3d9ad70641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 59/79] fix: from_freq_to_e raised ZeroDivisionError instead of
 the ValueError for a lattice constant of zero

---
 legume/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/utils.py b/legume/utils.py
index 6a5a81c..e2bd38a 100644
--- a/legume/utils.py
+++ b/legume/utils.py
@@ -280,11 +280,11 @@ def from_freq_to_e(a):
         conversion factor
 
     """
-    conv = cs.h_eV_Hz * cs.c / a
-
     if a <= 0:
         raise ValueError("Lattice constant should be strictly positive.")
 
+    conv = cs.h_eV_Hz * cs.c / a
+
     # Maybe we should implement a warning and not a simple print?
     if a < 5e-8 or a > 5e-6:
         warnings.warn(
-- 
2.43.0


From c5ec507a35f251b4b8ebe381910fb8867b267b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 60/79] fix: Lattice accepted linearly dependent primitive
 vectors, and raised UnboundLocalError for a wrong number of arguments

---
 legume/phc/lattice.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/legume/phc/lattice.py b/legume/phc/lattice.py
index 60ace23..22a4775 100644
--- a/legume/phc/lattice.py
+++ b/legume/phc/lattice.py
@@ -61,12 +61,19 @@ class Lattice(object):
                                  "or defined through two primitive vectors.")
 
         elif len(args) == 2:
+            v1, v2 = [utils.get_value(bd.array(v)) for v in args]
+            if abs(v1[0] * v2[1] - v1[1] * v2[0]) <= 1e-12 * np.linalg.norm(
+                    v1) * np.linalg.norm(v2):
+                raise ValueError("The primitive vectors of a Lattice should "
+                                 "be linearly independent.")
             a1 = bd.hstack((bd.array(args[0]), 0))
             a2 = bd.hstack((bd.array(args[1]), 0))
             if np.inner(a1, a2) == 0:
                 self.type = 'rectangular'
             else:
                 self.type = 'custom'
+        else:
+            raise ValueError("Lattice takes one or two arguments.")
 
         return (a1, a2)
 
-- 
2.43.0


From c85af4f12b9b8c7d2c1435aef40061f8d5ac4973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 61/79] fix: add_shape kept the first shapes of a list that it
 refused

---
 legume/phc/layer.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/legume/phc/layer.py b/legume/phc/layer.py
index b227c94..8045752 100644
--- a/legume/phc/layer.py
+++ b/legume/phc/layer.py
@@ -124,19 +124,22 @@ class ShapesLayer(Layer):
         if isinstance(shapes, Shape):
             shapes = [shapes]
 
+        shapes = list(shapes)
+        # Check all shapes first, not to add only a part of them
         for shape in shapes:
-            if isinstance(shape, Shape):
-                self.shapes.append(shape)
-                # We squeeze to have a zero-dimensional array, which is consistent
-                # with eps_avg in layers without shapes
-                self.eps_avg = (self.eps_avg + (shape.eps - self.eps_b) * \
-                                shape.area/self.lattice.ec_area).squeeze()
-            else:
+            if not isinstance(shape, Shape):
                 raise ValueError(
                     "Argument to add_shape must only contain "
                     "instances of legume.Shape (e.g legume.Circle or legume.Poly)"
                 )
 
+        for shape in shapes:
+            self.shapes.append(shape)
+            # We squeeze to have a zero-dimensional array, which is consistent
+            # with eps_avg in layers without shapes
+            self.eps_avg = (self.eps_avg + (shape.eps - self.eps_b) * \
+                            shape.area/self.lattice.ec_area).squeeze()
+
     def compute_ft(self, gvec):
         """
         Compute the 2D Fourier transform of the layer permittivity.
-- 
2.43.0


From 7424ac5f20130b478f2b9df22fb85a43621c52ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 62/79] fix: unknown 'gmode_compute' or 'gradients' failed with
 unrelated errors, and repeated or negative 'gmode_inds' gave wrong
 frequencies

---
 legume/gme/gme.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 3bb5bfe..f057e99 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -805,6 +805,15 @@ class GuidedModeExp(object):
                 Default is False.
             """
 
+        if str(gmode_compute).lower() not in {'exact', 'interp'}:
+            raise ValueError("'gmode_compute' can be 'exact' or 'interp'")
+        if gradients not in ('exact', 'approx'):
+            raise ValueError("'gradients' can be 'exact' or 'approx'")
+        inds = np.array(gmode_inds)
+        if np.any(inds < 0) or np.unique(inds).size != inds.size:
+            raise ValueError("'gmode_inds' should be non-negative and all "
+                             "different")
+
         # Make a dictionary that stores all the options
         self._run_options = {
             'gmode_compute': gmode_compute,
-- 
2.43.0


From 0a58c2332b0825f68f1ced90ed09fa81df0d946b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 63/79] fix: kpoints with a wrong shape were accepted, and the
 first two rows used

---
 legume/exc/exc.py | 3 +++
 legume/gme/gme.py | 3 +++
 legume/pwe/pwe.py | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index 9d89a75..ed8a277 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -333,6 +333,9 @@ class ExcitonSchroedEq(object):
 
         self.set_run_options(**kwargs)
 
+        if np.ndim(kpoints) != 2 or np.shape(kpoints)[0] != 2:
+            raise ValueError("'kpoints' should be an array of shape (2, Nk)")
+
         self.t_eig = 0  # For timing of the diagonalization
         t_start = time.time()
 
diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index f057e99..3eafd97 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -892,6 +892,9 @@ class GuidedModeExp(object):
 
         t_start = time.time()
 
+        if np.ndim(kpoints) != 2 or np.shape(kpoints)[0] != 2:
+            raise ValueError("'kpoints' should be an array of shape (2, Nk)")
+
         # Bloch momenta over which band structure is simulated
         self._kpoints = kpoints
 
diff --git a/legume/pwe/pwe.py b/legume/pwe/pwe.py
index ae9fc6a..25db420 100644
--- a/legume/pwe/pwe.py
+++ b/legume/pwe/pwe.py
@@ -185,6 +185,9 @@ class PlaneWaveExp(object):
         if pol.lower() not in ['te', 'tm']:
             raise ValueError("Polarization should be 'TE' or 'TM'")
 
+        if np.ndim(kpoints) != 2 or np.shape(kpoints)[0] != 2:
+            raise ValueError("'kpoints' should be an array of shape (2, Nk)")
+
         self._kpoints = kpoints
         self.pol = pol.lower()
         # Change this if switching to a solver that allows for variable numeig
-- 
2.43.0


From b34ef019df5c1f50514b5e6a37b2ac128b801d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 64/79] fix: ft_field_xy returned None for an unknown field,
 and fields or wavefunctions asked for before a run failed with unrelated
 errors

---
 legume/exc/exc.py | 5 ++++-
 legume/gme/gme.py | 5 +++++
 legume/pwe/pwe.py | 5 +++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index ed8a277..dc31773 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -444,6 +444,9 @@ class ExcitonSchroedEq(object):
         ft: np.ndarray
             The Fourier transform of specified wavefunction.
         """
+        if len(self.eners) == 0:
+            raise RuntimeError("Run the ESE computation first!")
+
         evec = self.eigvecs[kind][:, mind]
         ft = evec
         return ft
@@ -479,7 +482,7 @@ class ExcitonSchroedEq(object):
 
         # Get the wavefunction fourier components
 
-        ft = self._eigvecs[kind, :, mind]
+        ft = self.ft_wavef_xy(kind, mind)
 
         fi = ftinv(ft, self.gvec, xgrid, ygrid)
 
diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 3eafd97..719a835 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -1979,6 +1979,11 @@ class GuidedModeExp(object):
             The Fourier transform of the z-component of the specified field. 
 
         """
+        if field.lower() not in {'h', 'd', 'e'}:
+            raise ValueError("'field' can be 'H', 'D' or 'E'")
+        if len(self.freqs) == 0:
+            raise RuntimeError("Run the GME computation first!")
+
         evec = self.eigvecs[kind][:, mind]
         omega = self.freqs[kind][mind] * 2 * np.pi
 
diff --git a/legume/pwe/pwe.py b/legume/pwe/pwe.py
index 25db420..b892cf9 100644
--- a/legume/pwe/pwe.py
+++ b/legume/pwe/pwe.py
@@ -290,6 +290,11 @@ class PlaneWaveExp(object):
         fi_z : np.ndarray
             The Fourier transform of the z-component of the specified field. 
         """
+        if field.lower() not in {'h', 'd', 'e'}:
+            raise ValueError("'field' can be 'H', 'D' or 'E'")
+        if len(self.freqs) == 0:
+            raise RuntimeError("Run the PWE computation first!")
+
         evec = self.eigvecs[kind][:, mind]
         omega = self.freqs[kind][mind] * 2 * np.pi
         k = self.kpoints[:, kind]
-- 
2.43.0


From ab4902374327e286571df597a8c2c359722788c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 65/79] fix: viz.bands and viz.pol_bands failed with unrelated
 errors before a run

---
 legume/viz.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/legume/viz.py b/legume/viz.py
index c3384cf..299d556 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -86,6 +86,9 @@ def bands(gme,
         Axis object for the plot.
     """
 
+    if len(gme.freqs) == 0:
+        raise RuntimeError("Run the computation of the bands first!")
+
     # Vertical symmetry is not implemented for PlaneWaveExp class
     if isinstance(gme, GuidedModeExp):
         vert_symm = gme.kz_symmetry
@@ -301,6 +304,9 @@ def pol_bands(pol,
         Axis object for the plot.
     """
 
+    if len(pol.eners) == 0:
+        raise RuntimeError("Run the computation of the bands first!")
+
     X0, X = calculate_x(pol.kpoints, pol.eners.shape[1], k_units)
 
     if ax is None:
-- 
2.43.0


From 49808d4f9880a6e1dfb6456cfc0b18e0e309edbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 66/79] fix: HopfieldPol.run raised TypeError with the GME
 option compute_im=False

---
 legume/pol/pol.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 864fb5e..a57d721 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -313,6 +313,9 @@ class HopfieldPol(object):
 
         #Run gme
         self.gme.run(**gme_options)
+        # The photonic losses are part of the Hopfield matrix
+        if len(self.gme.freqs_im) == 0:
+            self.gme.run_im()
 
         self.num_QWs = np.shape(self.exc_list)[0]
 
-- 
2.43.0


From aa4c0ae46fcfcc3632d0d37713e79ea507c811fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 67/79] fix: viz.field raised AttributeError before a run

---
 legume/viz.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index 299d556..bf784e7 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -1193,15 +1193,17 @@ def field(struct,
         Figure object for the plot.
     """
     if isinstance(struct, GuidedModeExp):
-        vert_symm = struct.kz_symmetry
         str_type = 'gme'
     elif isinstance(struct, PlaneWaveExp):
-        vert_symm = None
         str_type = 'pwe'
     else:
         raise ValueError("'struct' should be a 'PlaneWaveExp' or a "
                          "'GuidedModeExp' instance")
 
+    if len(struct.freqs) == 0:
+        raise RuntimeError("Run the computation of the modes first!")
+
+    vert_symm = struct.kz_symmetry if str_type == 'gme' else None
     freqs = struct.freqs
     if str_type == 'gme':
         freqs_im = struct.freqs_im
-- 
2.43.0


From 3bb0eb6d2f581bd92b077a56b2da574c24bd133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 68/79] fix: guided_modes raised UnboundLocalError instead of
 the ValueError for an unknown polarization

---
 legume/gme/slab_modes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/legume/gme/slab_modes.py b/legume/gme/slab_modes.py
index e4c5895..799cd97 100644
--- a/legume/gme/slab_modes.py
+++ b/legume/gme/slab_modes.py
@@ -103,6 +103,9 @@ def guided_mode_given_g(g,
     Finds the first 'n_modes' guided modes of polarization 'pol' for a given 'g'
     """
 
+    if str(pol).lower() not in ('te', 'tm'):
+        raise ValueError("Polarization should be 'TE' or 'TM'")
+
     # Set lower and upper bound on the possible solutions
     eps_val = get_value(eps_array)
     d_val = get_value(d_array)
-- 
2.43.0


From dd4b62c4ef71db7b1dded4f5dbdd7f92b302b6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 69/79] fix: negative time for the matrix creation was reported
 with gmode_compute='interp'

---
 legume/gme/gme.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 719a835..078c8f6 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -1196,8 +1196,10 @@ class GuidedModeExp(object):
         # convention for the units (2pi a/c)
         self._freqs = bd.array(freqs)
         self._kz_symms = bd.array(kz_symms)
-        # Guided modes are calculated inside _construct_mat()
-        self.t_creat_mat = self.t_creat_mat - self.t_guided
+        # Guided modes are calculated inside _construct_mat(), unless they are
+        # pre-computed for the interpolation
+        if self.gmode_compute.lower() == 'exact':
+            self.t_creat_mat = self.t_creat_mat - self.t_guided
         self.t_eps_inv = t_eps_inv
 
         total_time = time.time() - t_start
-- 
2.43.0


From 0398903c3621a8ea55488d6a7c5208ced8715f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 70/79] fix: repr of ExcitonSchroedEq showed the loss in meV
 with the unit ueV

---
 legume/exc/exc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index dc31773..b738477 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -106,7 +106,7 @@ class ExcitonSchroedEq(object):
         rep += 'a = ' + repr(self.a) + ' m, \n'
         rep += 'M = ' + f'{self.M:.3e}' + ' kg, \n'
         rep += 'E0 = ' + repr(self.E0) + ' eV, \n'
-        rep += 'loss = ' + repr(self.loss * 1e3) + ' ueV, \n'
+        rep += 'loss = ' + repr(self.loss * 1e3) + ' meV, \n'
         rep += 'z = ' + f'{self.z:.6f}' + ', \n'
         rep += 'V_shapes = ' + repr(self.V_shapes) + ' eV, \n'
         if self.osc_str is not None:
-- 
2.43.0


From b9d1282c4ba29f4ae5ed8e1d01e13fb3ad59dafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:06 +0000
Subject: [PATCH 71/79] fix: repr of shapes, layers and lattices raised
 TypeError while differentiating

---
 legume/phc/lattice.py |  3 ++-
 legume/phc/layer.py   |  3 ++-
 legume/phc/shapes.py  | 15 ++++++++++-----
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/legume/phc/lattice.py b/legume/phc/lattice.py
index 22a4775..d9971f8 100644
--- a/legume/phc/lattice.py
+++ b/legume/phc/lattice.py
@@ -44,7 +44,8 @@ class Lattice(object):
 
     def __repr__(self):
         return "Lattice(a1 = [%.4f, %.4f], a2 = [%.4f, %.4f])" % \
-               (self.a1[0], self.a1[1], self.a2[0], self.a2[1])
+               tuple(utils.get_value(a) for a in (self.a1[0], self.a1[1],
+                                                  self.a2[0], self.a2[1]))
 
     def _parse_input(self, *args):
         if len(args) == 1:
diff --git a/legume/phc/layer.py b/legume/phc/layer.py
index 8045752..b721675 100644
--- a/legume/phc/layer.py
+++ b/legume/phc/layer.py
@@ -110,7 +110,8 @@ class ShapesLayer(Layer):
         self.shapes = []
 
     def __repr__(self):
-        rep = 'ShapesLayer(eps_b = %.2f, d = %.2f' % (self.eps_b, self.d)
+        rep = 'ShapesLayer(eps_b = %.2f, d = %.2f' % (
+            utils.get_value(self.eps_b), utils.get_value(self.d))
         rep += ',' if len(self.shapes) > 0 else ''
         for shape in self.shapes:
             rep += '\n' + repr(shape)
diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index 08d4f1d..0593aaf 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -92,7 +92,8 @@ class Circle(Shape):
 
     def __repr__(self):
         return "Circle(eps = %.2f, x = %.4f, y = %.4f, r = %.4f)" % \
-               (self.eps, self.x_cent, self.y_cent, self.r)
+               tuple(get_value(p) for p in (self.eps, self.x_cent,
+                                            self.y_cent, self.r))
 
     def compute_ft(self, gvec):
         (gx, gy) = self._parse_ft_gvec(gvec)
@@ -152,7 +153,8 @@ class Ellipse(Shape):
 
     def __repr__(self):
         return "Ellipse(eps = %.2f, x = %.4f, y = %.4f, rx = %.4f, ry = %.4f, phi = %.4f)" % \
-               (self.eps, self.x_cent, self.y_cent, self.rx, self.ry, self.phi)
+               tuple(get_value(p) for p in (self.eps, self.x_cent, self.y_cent,
+                                            self.rx, self.ry, self.phi))
 
     def compute_ft(self, gvec):
         (gx, gy) = self._parse_ft_gvec(gvec)
@@ -213,7 +215,8 @@ class Poly(Shape):
 
     def __repr__(self):
         return "Poly(eps = %.2f, x_edges = %s, y_edges = %s)" % \
-               (self.eps, self.x_edges, self.y_edges)
+               tuple(get_value(p) for p in (self.eps, self.x_edges,
+                                            self.y_edges))
 
     def compute_ft(self, gvec):
         """Compute Fourier transform of the polygon
@@ -320,7 +323,8 @@ class Square(Poly):
 
     def __repr__(self):
         return "Square(eps = %.2f, x_cent = %.4f, y_cent = %.4f, a = %.4f)" % \
-               (self.eps, self.x_cent, self.y_cent, self.a)
+               tuple(get_value(p) for p in (self.eps, self.x_cent,
+                                            self.y_cent, self.a))
 
 
 class Hexagon(Poly):
@@ -351,7 +355,8 @@ class Hexagon(Poly):
 
     def __repr__(self):
         return "Hexagon(eps = %.2f, x_cent = %.4f, y_cent = %.4f, a = %.4f)" % \
-               (self.eps, self.x_cent, self.y_cent, self.a)
+               tuple(get_value(p) for p in (self.eps, self.x_cent,
+                                            self.y_cent, self.a))
 
 
 class FourierShape(Poly):
-- 
2.43.0


From 8311bd14d1a62fe85dbcd01e0a942de92d5ec7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 72/79] fix: finite D and E fields of the zero-frequency modes
 at Gamma, HopfieldPol failed there

---
 legume/gme/gme.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 078c8f6..201132d 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -1988,6 +1988,10 @@ class GuidedModeExp(object):
 
         evec = self.eigvecs[kind][:, mind]
         omega = self.freqs[kind][mind] * 2 * np.pi
+        # The guided modes are computed for wave vectors above 1e-4; avoid the
+        # division by the numerically zero frequency of a static mode at Gamma
+        if get_value(omega) < 1e-5:
+            omega = 1e-5
 
         k = self.kpoints[:, kind]
 
-- 
2.43.0


From 4dbabc394cd8b697c209b351db8c1119e1299fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:22 +0000
Subject: [PATCH 73/79] fix: number of zero-frequency modes kept by HopfieldPol
 at Gamma depended on rounding

---
 legume/pol/pol.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index a57d721..7d470d6 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -340,10 +340,11 @@ class HopfieldPol(object):
             # frequency mode at Gamma
             (ener2, evecs) = bd.eig(mat + bd.eye(mat.shape[0]))
             ener1 = ener2 - bd.ones(mat.shape[0])
-            #Filter positive energies
-            filt_pos = bd.real(ener1) >= 0
-            ener1 = ener1[filt_pos]
-            evecs = evecs[:, filt_pos]
+            #Filter positive energies: the upper half of the spectrum, which
+            #has only one of the two solutions for a zero-frequency mode at Gamma
+            i_pos = bd.argsort(bd.real(ener1))[self.numeig // 2:]
+            ener1 = ener1[i_pos]
+            evecs = evecs[:, i_pos]
             fractions_ex, fractions_ph = self._calculate_fraction(evecs)
             i_sort = bd.argsort(ener1)[0:int(
                 self.numeig // 2 - 1
-- 
2.43.0


From e8672093aba086fbec055e124959a5de63d50b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 74/79] fix: PWE D and E fields of the zero-frequency mode at
 Gamma were sometimes NaN

---
 legume/pwe/pwe.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/legume/pwe/pwe.py b/legume/pwe/pwe.py
index b892cf9..b44adbf 100644
--- a/legume/pwe/pwe.py
+++ b/legume/pwe/pwe.py
@@ -299,6 +299,10 @@ class PlaneWaveExp(object):
         omega = self.freqs[kind][mind] * 2 * np.pi
         k = self.kpoints[:, kind]
 
+        # Avoid the division by the numerically zero frequency at Gamma
+        if omega < 1e-10:
+            omega = 1e-10
+
         # G + k vectors
         gkx = self.gvec[0, :] + k[0] + 1e-10
         gky = self.gvec[1, :] + k[1]
-- 
2.43.0


From a1f1e8e8cb9a106a0d179be970352bd95b7eced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:19 +0000
Subject: [PATCH 75/79] fix: grad_num failed for step sizes other than 'float'
 and gave zero for integer arrays

---
 legume/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/legume/utils.py b/legume/utils.py
index e2bd38a..8e47236 100644
--- a/legume/utils.py
+++ b/legume/utils.py
@@ -89,13 +89,13 @@ def grad_num(fn, arg, step_size=1e-7):
     gradient = np.zeros((N, ))
     f_old = fn(arg)
 
-    if type(step_size) == float:
+    if np.ndim(step_size) == 0:
         step = step_size * np.ones((N))
     else:
-        step = step_size.ravel()
+        step = np.ravel(step_size)
 
     for i in range(N):
-        arg_new = arg.flatten()
+        arg_new = arg.flatten().astype(float)
         arg_new[i] += step[i]
         f_new_i = fn(arg_new.reshape(shape))
         gradient[i] = (f_new_i - f_old) / step[i]
-- 
2.43.0


From a2836acada10ffdad678a6a347d09bee11dea54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:19 +0000
Subject: [PATCH 76/79] fix: vjp_maker_num returned flattened derivatives, and
 zero for integer arrays

---
 legume/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/utils.py b/legume/utils.py
index 8e47236..27a2b60 100644
--- a/legume/utils.py
+++ b/legume/utils.py
@@ -121,13 +121,13 @@ def vjp_maker_num(fn, arg_inds, steps):
                 vjp_num = np.zeros(num_p)
                 for ip in range(num_p):
                     args_new = list(args)
-                    args_rav = args[arg_ind].flatten()
+                    args_rav = args[arg_ind].flatten().astype(float)
                     args_rav[ip] += step
                     args_new[arg_ind] = args_rav.reshape(shape)
                     dfn_darg = (fn(*args_new) - fn_out) / step
                     vjp_num[ip] = np.sum(v * dfn_darg)
 
-                return vjp_num
+                return vjp_num.reshape(shape)
 
             return vjp
 
-- 
2.43.0


From 3fd80824a552f532875ce21d0caa4232b9c26622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:01 +0000
Subject: [PATCH 77/79] fix: bound the slab mode search correctly for
 permittivities below one

---
 legume/gme/slab_modes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/legume/gme/slab_modes.py b/legume/gme/slab_modes.py
index 799cd97..5439df8 100644
--- a/legume/gme/slab_modes.py
+++ b/legume/gme/slab_modes.py
@@ -60,12 +60,13 @@ def guided_modes(g_array: np.ndarray,
 
         if ig > 0:
             if len(omegas) == n_modes:
-                # Dispersion cannot be faster than speed of light;
-                # step is added just to be on the safe side
+                # Dispersion cannot be faster than speed of light in any of
+                # the materials; step is added just to be on the safe side
                 om_ub = min(
                     om_ub,
                     get_value(omegas[-1]) + step +
-                    np.abs(g_array[ig] - g_array[ig - 1]))
+                    np.abs(g_array[ig] - g_array[ig - 1]) /
+                    np.sqrt(min(1., eps_val.min())))
             """
             Check if the guided mode needs to be computed at all; when using the
             gmode_compute = 'exact' option, there might be identical g-points
-- 
2.43.0


From 5a96b5dafb85b142c6b7236ee1d1f3e2018ff1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:24 +0000
Subject: [PATCH 78/79] fix: viz.field multiplies the Bloch phase twice for a
 repeated component

---
 legume/viz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/viz.py b/legume/viz.py
index bf784e7..740875f 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -1283,7 +1283,7 @@ def field(struct,
     for ic, comp in enumerate(component):
         f = fi[comp]
         if periodic == False:
-            f *= kenv
+            f = f * kenv
 
         extent = [grid1[0], grid1[-1], grid2[0], grid2[-1]]
         if sp > 1:
-- 
2.43.0


From 78613ee570f0a4e0475fb182b32d2af6d55a0028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:41 +0000
Subject: [PATCH 79/79] fix: viz.eps_ft calls the layer of a PlaneWaveExp a
 cladding

---
 legume/viz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/viz.py b/legume/viz.py
index 740875f..69919ef 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -991,7 +991,7 @@ def eps_ft(struct,
                        cax=cax,
                        cmap=cmap)
         ims.append(im)
-        if cladding:
+        if cladding and str_type == 'gme':
             if indl > 0 and indl < N_layers - 1:
                 ax[indl].set_title("xy in layer %d" % indl)
             elif indl == N_layers - 1:
-- 
2.43.0

