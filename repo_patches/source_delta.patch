From cf948ed04a1fe7223b045eaf7b647b88a5630309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:41 +0000
Subject: [PATCH 01/38] fix: Volume.get_bounding_box returned a (vertices,
 status) tuple for plane-bounded volumes

---
 czone/volume/volume.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index acaf8d7..4e256da 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -336,7 +336,9 @@ class Volume(BaseVolume):
 
             planes = [obj for obj in self.alg_objects if isinstance(obj, Plane)]
             if len(planes) > 3:
-                return get_bounding_box_planes(planes)
+                bbox, status = get_bounding_box_planes(planes)
+                if status == 0:
+                    return bbox
 
             cylinders = [obj for obj in self.alg_objects if isinstance(obj, Cylinder)]
             if len(cylinders) > 0:
-- 
2.43.0


From a3bd12fe57b829195a173352403ebb916574c7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 02/38] fix: get_bounding_box only looked for interior points
 with non-negative coordinates

---
 czone/volume/algebraic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 51c693e..7db7f2d 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -409,7 +409,8 @@ def get_bounding_box(planes: List[Plane]):
     c = np.zeros(4)
     c[-1] = -1
 
-    res = linprog(c, A_ub=np.hstack([A, norms]), b_ub=-1.0 * d)
+    res = linprog(c, A_ub=np.hstack([A, norms]), b_ub=-1.0 * d,
+                  bounds=[(None, None)] * 3 + [(0, None)])
     if (res.status == 0):
         try:
             hs = HalfspaceIntersection(np.hstack([A, d]), res.x[:-1])
-- 
2.43.0


From 36bb9b99e38ca9a2354a3ab759fc6e4e2927c552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 03/38] fix: resetting the points of a Volume (and so
 transforming it) always raised

---
 czone/volume/volume.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index 4e256da..3ba4b77 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -176,7 +176,8 @@ class Volume(BaseVolume):
     @points.setter
     def points(self, points):
         try:
-            self._points = np.array([])  #clear points
+            self._points = None  #clear points and any hull made from them
+            self._hull = None
             self.addPoints(points)
         except AssertionError:
             raise ValueError("Check shape of input array.")
@@ -260,7 +261,7 @@ class Volume(BaseVolume):
         if (self._points is None):
             self._points = np.copy(points)
             if len(points.shape) == 1:  #add dim if only single new point
-                self._points = np.expand_dims(points)
+                self._points = np.expand_dims(points, axis=0)
         else:
             if len(points.shape) == 1:  #check for single point
                 points = np.expand_dims(points, axis=0)
-- 
2.43.0


From 9b9452b0ab58fe1ac5eff5d0910ea4f15fca7e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 04/38] fix: Volume.from_volume failed without a generator and
 dropped the tolerance

---
 czone/volume/volume.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index 3ba4b77..8bd549c 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -368,10 +368,11 @@ class Volume(BaseVolume):
         """
         new_volume = Volume(points=self.points,
                             alg_objects=self.alg_objects,
-                            priority=self.priority)
+                            priority=self.priority,
+                            tolerance=self.tolerance)
         if "generator" in kwargs.keys():
             new_volume.add_generator(kwargs["generator"])
-        else:
+        elif not (self.generator is None):
             new_volume.add_generator(self.generator)
 
         if "transformation" in kwargs.keys():
-- 
2.43.0


From ce7bdf3e7c0abc19004e5cb3e13a0049fe8ef14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 05/38] fix: Reflection could not be applied to algebraic
 objects

---
 czone/transform/transform.py | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index ea55165..7f00b9a 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -335,18 +335,6 @@ class Reflection(MatrixTransform):
     def params(self):
         return self.plane
 
-    def applyTransformation_alg(self, alg_object):
-        if (isinstance(alg_object), Sphere):
-            alg_object.center = np.dot(
-                self.matrix,
-                (alg_object.center - self.origin).T).T + self.origin
-
-        if (isinstance(alg_object), Plane):
-            alg_object.point = np.dot(
-                self.matrix, (alg_object.point - self.origin).T).T + self.origin
-
-        return alg_object
-
 
 class MultiTransform(BaseTransform):
     """Transformation sequence which applies a numeruous transformations in succession.
-- 
2.43.0


From 6abb78e0377d89e545b1e1c95b2a24d341b96134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 06/38] fix: MatrixTransform applied non-orthogonal matrices to
 plane normals as if they were points

---
 czone/transform/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 7f00b9a..e9f5978 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -234,7 +234,9 @@ class MatrixTransform(BaseTransform):
             else:
                 alg_object.point = np.dot(self.matrix, (alg_object.point).T).T
 
-            alg_object.normal = np.dot(self.matrix, (alg_object.normal).T).T
+            # normals are covectors; same as matrix itself if orthogonal
+            alg_object.normal = np.linalg.solve(self.matrix.T,
+                                                alg_object.normal)
 
         if isinstance(alg_object, Cylinder):
             if not (self.origin is None):
-- 
2.43.0


From d2966e0ed021479b4936249a1497fdbbef331423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 07/38] fix: rot_align raised on every input

---
 czone/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index e9f5978..45834f7 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -484,7 +484,7 @@ def rot_align(v: np.ndarray, vt: np.ndarray) -> np.ndarray:
         np.ndarray: 3x3 rotation matrix
     """
 
-    return scRotation.align_vectors(vt, v).as_matrix()
+    return scRotation.align_vectors(vt, v)[0].as_matrix()
 
 
 def rot_zxz(alpha: float,
-- 
2.43.0


From 72651f7d7ff08ec788f3038f01bbb9f195aae746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 08/38] fix: extrinsic rot_zxz did not use the documented
 gamma-beta-alpha order

---
 czone/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 45834f7..846fc57 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -514,7 +514,7 @@ def rot_zxz(alpha: float,
         return scRotation.from_euler("ZXZ", [alpha, beta, gamma],
                                      degrees=False).as_matrix()
     elif convention == "extrinsic":
-        return scRotation.from_euler("zxz", [gamma, alpha, beta],
+        return scRotation.from_euler("zxz", [gamma, beta, alpha],
                                      degrees=False).as_matrix()
     else:
         raise (ValueError("Invalid argument for convention."))
-- 
2.43.0


From 5fb35d658ec4b9e7c589cb8905b4d9da05bb494b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 09/38] fix: rot_vtv returned NaN for many parallel and
 anti-parallel vectors

---
 czone/transform/transform.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 846fc57..db6935a 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -455,22 +455,23 @@ def rot_vtv(v: np.ndarray, vt: np.ndarray) -> np.ndarray:
     """
     v = np.array(v).reshape(3,)
     vt = np.array(vt).reshape(3,)
-    eps = np.finfo(float).eps  #get machine epsilon for collinearity check
-    theta = np.arccos(np.dot(v, vt) / (np.linalg.norm(v) * np.linalg.norm(vt)))
-    if (theta < eps):
-        return np.eye(3)
-    elif (np.pi - theta < eps):
-        e_i = np.eye(3)[np.argmin(v)]  #grab axis along minimum component of v
-        rot_axis = np.cross(v, e_i).astype(float)
-    else:
-        rot_axis = np.cross(v, vt).astype(float)
-
-    rot_axis /= np.linalg.norm(rot_axis)
-    A = np.array([[0, -rot_axis[2],
-                   rot_axis[1]], [rot_axis[2], 0, -rot_axis[0]],
-                  [-rot_axis[1], rot_axis[0], 0]])
-
-    return np.eye(3) + np.sin(theta) * A + (1.0 - np.cos(theta)) * A @ A
+    v = v / np.linalg.norm(v)
+    vt = vt / np.linalg.norm(vt)
+
+    flip = np.eye(3)
+    if np.dot(v, vt) < -1.0 + 1e-6:
+        # (nearly) anti-parallel: first rotate v by pi about any perpendicular axis
+        e_i = np.eye(3)[np.argmin(np.abs(v))]  #grab axis along minimum component of v
+        u = np.cross(v, e_i)
+        u = u / np.linalg.norm(u)
+        flip = 2.0 * np.outer(u, u) - np.eye(3)
+        v = -v
+
+    w = np.cross(v, vt)
+    A = np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])
+    R = np.eye(3) + A + A @ A / (1.0 + np.dot(v, vt))
+
+    return R @ flip
 
 
 def rot_align(v: np.ndarray, vt: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 1fe6391424678fb9f1147e5e91ac299498acc274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 10/38] fix: Plane.project_point failed on a single point

---
 czone/volume/algebraic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 7db7f2d..550823d 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -220,7 +220,7 @@ class Plane(BaseAlgebraic):
         Returns:
             Projected point lying on surface of Plane.
         """
-        return point - self.sdist_from_plane(point)[:,None] * self.normal[None,:]
+        return point - np.expand_dims(self.sdist_from_plane(point), -1) * self.normal
 
 
 class Cylinder(BaseAlgebraic):
-- 
2.43.0


From dd60ecabdbfe967d1dc76a867e3b7e6f376185bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:40 +0000
Subject: [PATCH 11/38] fix: s2s_alignment failed on every input, changed
 M_plane and shifted to the wrong side

---
 czone/transform/transform.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index db6935a..9572101 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -549,14 +549,12 @@ def s2s_alignment(M_plane: Plane, T_plane: Plane, M_point: np.ndarray,
 
     R_t = Rotation(matrix=R, origin=M_plane.point)
 
-    #TODO: why aren't these being used?
-    M_plane_r = R_t.applyTransformation_alg(M_plane)
-    M_point_r = R_t.applyTransformation(M_point)
+    M_point_r = R_t.applyTransformation(np.array(M_point).reshape(3,))
 
-    proj_point = T_plane.project_point(M_point)
-    plane_shift = T_plane.project_point(T_point) - proj_point
+    proj_point = T_plane.project_point(M_point_r)
+    plane_shift = T_plane.project_point(np.array(T_point).reshape(3,)) - proj_point
 
-    ortho_shift = 1.0 * T_plane.dist_from_plane(M_plane.point) * T_plane.normal
+    ortho_shift = -1.0 * T_plane.sdist_from_plane(M_plane.point) * T_plane.normal
     T_t = Translation(shift=ortho_shift + plane_shift)
 
     return MultiTransform(transforms=[R_t, T_t])
-- 
2.43.0


From a1e884b8df9565baae6403872cd868d60df83d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 12/38] fix: strain mode setter accepted any value

---
 czone/transform/strain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/strain.py b/czone/transform/strain.py
index edf9327..8eebc5e 100644
--- a/czone/transform/strain.py
+++ b/czone/transform/strain.py
@@ -74,7 +74,7 @@ class BaseStrain(ABC):
 
     @mode.setter
     def mode(self, val):
-        if val == "crystal" or "standard":
+        if val in ("crystal", "standard"):
             self._mode = val
         else:
             raise ValueError("Mode must be either crystal or standard")
-- 
2.43.0


From 85cfbab46368fc611b7a308da35d1cff0b0e0feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 13/38] fix: HStrain could not be given an explicit origin

---
 czone/transform/strain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/strain.py b/czone/transform/strain.py
index 8eebc5e..e315f95 100644
--- a/czone/transform/strain.py
+++ b/czone/transform/strain.py
@@ -107,7 +107,7 @@ class HStrain(BaseStrain):
 
         self.mode = mode
 
-        if origin != "generator":
+        if not (isinstance(origin, str) and origin == "generator"):
             self.origin = origin
             self.origin_type = "global"
         else:
-- 
2.43.0


From ad03ba98ca3df238978e62e46522c858e087ea63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:56 +0000
Subject: [PATCH 14/38] fix: IStrain could not be constructed or applied

---
 czone/transform/strain.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/czone/transform/strain.py b/czone/transform/strain.py
index e315f95..64f9380 100644
--- a/czone/transform/strain.py
+++ b/czone/transform/strain.py
@@ -181,21 +181,24 @@ class IStrain(BaseStrain):
     """
 
     def __init__(self, fun=None, origin="generator", mode="crystal", **kwargs):
+        self.fun_kwargs = kwargs
+
         if not fun is None:
             self.strain_fun = fun
         else:
             # apply no strain
-            self.strain_fun = lambda x: x
+            self.strain_fun = lambda x, **kwargs: x
 
         self.mode = mode
 
-        if origin != "generator":
+        if not (isinstance(origin, str) and origin == "generator"):
             self.origin = origin
+            self.origin_type = "global"
         else:
             super().__init__()
+            self.origin_type = "generator"
 
         self._bases = None
-        self.fun_kwargs = kwargs
 
     ##############
     # Properties #
@@ -221,7 +224,7 @@ class IStrain(BaseStrain):
     @strain_fun.setter
     def strain_fun(self, fun: Callable[[np.ndarray], np.ndarray]):
         try:
-            ref_arr = np.random.rand((100, 3))
+            ref_arr = np.random.rand(100, 3)
             test_arr = fun(ref_arr, **self.fun_kwargs)
             assert (test_arr.shape == (100, 3))
         except AssertionError:
@@ -241,13 +244,13 @@ class IStrain(BaseStrain):
 
         if self.mode == "crystal":
             # project onto crystal coordinates
-            sp = sp @ np.linalg.inv(self.bases)
+            sp = sp @ np.linalg.inv(self.bases).T
 
             # strain
             sp = self.strain_fun(sp, basis=self.bases, **self.fun_kwargs)
 
             # project back into real space
-            sp = sp @ self.bases
+            sp = sp @ self.bases.T
         else:
             # strain
             sp = self.strain_fun(sp, **self.fun_kwargs)
-- 
2.43.0


From 8a8fcaaf75b7dab3af80be8e5e23369c54978cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 15/38] fix: Generators used transposed lattice vectors, so
 non-orthogonal crystals were wrong

---
 czone/generator/generator.py | 5 +++--
 czone/volume/voxel.py        | 8 ++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index aa3559a..697d807 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -119,11 +119,12 @@ class Generator(BaseGenerator):
             Structure)), "Structure must be pymatgen Structure object"
         self._structure = structure
 
+        # voxel bases are column vectors; pymatgen lattice vectors are rows
         # check if voxel exists, if so, copy origin
         if self.voxel is None:
-            self.voxel = Voxel(bases=structure.lattice.matrix)
+            self.voxel = Voxel(bases=structure.lattice.matrix.T)
         else:
-            self.voxel = Voxel(bases=structure.lattice.matrix,
+            self.voxel = Voxel(bases=structure.lattice.matrix.T,
                                origin=self.origin)
 
     @property
diff --git a/czone/volume/voxel.py b/czone/volume/voxel.py
index 04e7bd7..6bb1d47 100644
--- a/czone/volume/voxel.py
+++ b/czone/volume/voxel.py
@@ -48,7 +48,7 @@ class Voxel():
 
     @property
     def bases(self):
-        """Basis vectors defining crystal unit cell. Vectors are rows of matrix."""
+        """Basis vectors defining crystal unit cell. Vectors are columns of matrix."""
         return self._bases
 
     @bases.setter
@@ -58,9 +58,9 @@ class Voxel():
         assert (
             bases.shape == (3, 3)
         ), '''Bases must be 3x3 numpy array that defines vectors that span 3D space
-            [0,:] = [x_1, y_1, z_1]
-            [1,:] = [x_2, y_2, z_2]
-            [2,:] = [x_3, y_3, z_3]'''
+            [:,0] = [x_1, y_1, z_1]
+            [:,1] = [x_2, y_2, z_2]
+            [:,2] = [x_3, y_3, z_3]'''
 
         #check for collinearity
         assert (not self._collinear(
-- 
2.43.0


From 64088269dfd90d4beb1f6db18a985a29c3fa390e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:35 +0000
Subject: [PATCH 16/38] fix: Generator missed atoms whose fractional
 coordinates lie outside of the home unit cell

---
 czone/generator/generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index 697d807..c85248e 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -203,6 +203,9 @@ class Generator(BaseGenerator):
         min_extent, max_extent = self.voxel.get_extents(bbox)
         fcoords = np.copy(
             self.coords)  #grab fractional in case bases are rotated
+        # atoms may be listed outside of the home unit cell
+        min_extent = min_extent - np.floor(np.max(fcoords, axis=0)).astype(np.int64)
+        max_extent = max_extent - np.floor(np.min(fcoords, axis=0)).astype(np.int64)
         # get matrix representing unit cells as grid
         l = [
             range(min_extent[0], max_extent[0] + 1),
-- 
2.43.0


From f5c76ddbb93060bd20413ed59d2a2f95d9ad507c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 17/38] fix: AmorphousGenerator ignored its density and the
 location of the bounding box

---
 czone/generator/generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index c85248e..0958f15 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -421,7 +421,9 @@ class AmorphousGenerator(BaseGenerator):
             return self.old_result
         else:
             coords = gen_p_substrate(
-                np.max(bbox, axis=0) - np.min(bbox, axis=0), self.min_dist)
+                np.max(bbox, axis=0) - np.min(bbox, axis=0), self.min_dist,
+                density=self.density)
+            coords = coords + np.min(bbox, axis=0)
             self._old_result = (coords, np.ones(coords.shape[0]) * self.species)
             return self.old_result
 
-- 
2.43.0


From 2124fe56c028220a607dbb18b436d0f0a8cd523d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 18/38] fix: transforming a Volume holding an
 AmorphousGenerator or NullGenerator raised

---
 czone/generator/generator.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index 0958f15..401532b 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -43,6 +43,15 @@ class BaseGenerator(ABC):
         """
         pass
 
+    def transform(self, transformation: BaseTransform):
+        """Transform Generator object. No effect for generators without orientation.
+
+        Args:
+            transformation (BaseTransform): Transformation object from transforms module.
+        """
+        assert (isinstance(transformation, BaseTransform)
+               ), "Supplied transformation not transformation object."
+
     def from_generator(self, **kwargs):
         """Constructor for new Generators based on existing Generator object.
 
-- 
2.43.0


From efa232acfbad4c6116816018c4a7c243c43f6750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 19/38] fix: defect prefabs ignored the center of spherical
 volumes

---
 czone/prefab/prefab.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/czone/prefab/prefab.py b/czone/prefab/prefab.py
index 72678c3..6ac759c 100644
--- a/czone/prefab/prefab.py
+++ b/czone/prefab/prefab.py
@@ -159,8 +159,8 @@ class fccMixedTwinSF(BasePrefab):
         for ao in self.volume.alg_objects:
             if isinstance(ao, Sphere):
                 # TODO: only override bbox if Sphere is smaller 
-                start = -1.0 * ao.radius * norm_vec
-                finish = ao.radius * norm_vec      
+                start = ao.center - ao.radius * norm_vec
+                finish = ao.center + ao.radius * norm_vec      
 
         sp = snap_plane_near_point(start,
                                    self.generator,
@@ -390,7 +390,7 @@ class wurtziteStackingFault(BasePrefab):
         # TODO: the bounding box isn't necessarily tangent to the valid volume (e.g., spheres)
         # perhaps refine the end points until planes intersect
         
-        norm_vec = self.generator.voxel.reciprocal_bases @ np.array(self.plane)
+        norm_vec = self.generator.voxel.reciprocal_bases.T @ np.array(self.plane)
         norm_vec /= np.linalg.norm(norm_vec)
         bbox = self.volume.get_bounding_box()
         ci = np.dot(norm_vec.reshape(1, 3), bbox.T).T
@@ -400,8 +400,8 @@ class wurtziteStackingFault(BasePrefab):
         for ao in self.volume.alg_objects:
             if isinstance(ao, Sphere):
                 # TODO: only override bbox if Sphere is smaller 
-                start = -1.0 * ao.radius * norm_vec
-                finish = ao.radius * norm_vec            
+                start = ao.center - ao.radius * norm_vec
+                finish = ao.center + ao.radius * norm_vec            
 
         sp = snap_plane_near_point(start,
                                    self.generator,
-- 
2.43.0


From cadb0ec0f1bd6fc710f92644f4a3c537c94c73b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 20/38] fix: Scene.to_file wrote nothing for explicit formats
 other than prismatic

---
 czone/scene/scene.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/czone/scene/scene.py b/czone/scene/scene.py
index ca8b1e3..9d873b8 100644
--- a/czone/scene/scene.py
+++ b/czone/scene/scene.py
@@ -183,5 +183,7 @@ class Scene():
                           images=self.ase_atoms,
                           debye_waller_factors=dwf,
                           **kwargs)
+            else:
+                ase_write(filename=fname, images=self.ase_atoms, **kwargs)
         else:
             ase_write(filename=fname, images=self.ase_atoms, **kwargs)
-- 
2.43.0


From 79a35b0191a90d2481df2a2ffcdfe9058d5caa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 21/38] fix: Molecule.remove_atoms let a tracked origin jump to
 another atom

---
 czone/molecule/molecule.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/czone/molecule/molecule.py b/czone/molecule/molecule.py
index e6f9a17..d1dba7c 100644
--- a/czone/molecule/molecule.py
+++ b/czone/molecule/molecule.py
@@ -108,9 +108,16 @@ class BaseMolecule(ABC):
         if new_origin_idx in indices:
             raise IndexError(f"Supplied new_origin_idx {new_origin_idx} in set of indices of atoms to be removed.")
         
-        if self._origin_tracking and self._origin_idx in indices:
-            raise NotImplementedError # TODO: Implement origin resetting behavior and warn user if origin is reset to a new index
-            # self._origin_idx = new_origin_idx # TEST
+        removed = np.zeros(self.atoms.shape[0], dtype=bool)
+        removed[indices] = True
+
+        if self._origin_tracking or new_origin_idx is not None:
+            origin_idx = self._origin_idx if new_origin_idx is None else new_origin_idx
+            origin_idx = origin_idx % self.atoms.shape[0]
+            if removed[origin_idx]:
+                raise NotImplementedError # TODO: Implement origin resetting behavior and warn user if origin is reset to a new index
+            # indices after removed atoms shift down
+            self.set_origin(idx=origin_idx - np.count_nonzero(removed[:origin_idx]))
 
         self._species = np.delete(self.species, indices, axis=0)
         self._atoms = np.delete(self.atoms, indices, axis=0)
-- 
2.43.0


From 076243101c59deffda27db9f1d0cbcd295dc67b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 22/38] fix: get_N_splits never returned for some infeasible
 requests

---
 czone/util/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/util/misc.py b/czone/util/misc.py
index cce4e35..387ff0d 100644
--- a/czone/util/misc.py
+++ b/czone/util/misc.py
@@ -31,7 +31,7 @@ def get_N_splits(n: int, m: int, l: int, seed: int = None) -> List[int]:
     if n == 0:
         return []
         
-    if (l - 2 * m < (n - 1) * m):
+    if (l - 2 * m <= (n - 1) * m):
         raise ValueError("m is too large for number of splits requested and l")
     rng = np.random.default_rng(seed=seed)
 
-- 
2.43.0


From ebeb814679dacaac209d228d878d78d1072594d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 23/38] fix: get_sdist_fun raised without periodic boundaries

---
 czone/util/measure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/czone/util/measure.py b/czone/util/measure.py
index 067fde3..e5fe3b1 100644
--- a/czone/util/measure.py
+++ b/czone/util/measure.py
@@ -176,6 +176,8 @@ def get_sdist_fun(dims=None, px=False, py=False, pz=False):
         def sdist(A, B):
             return np.sum((A - B)**2.0, axis=1)
 
+        return sdist
+
     # grab relevant dimensions
     cols = [x for x, y in zip([0, 1, 2], [px, py, pz]) if y]
     sdims = np.array(dims)[cols]
-- 
2.43.0


From 97557a974fbc09f23c209b77fec10117cde3b94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 24/38] fix: calc_rdf looked up neighbors of the wrong voxel
 and changed its input

---
 czone/util/measure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/czone/util/measure.py b/czone/util/measure.py
index e5fe3b1..9efcd83 100644
--- a/czone/util/measure.py
+++ b/czone/util/measure.py
@@ -210,7 +210,7 @@ def calc_rdf(coords, cutoff=20.0, px=True, py=True, pz=True):
 
     """
     # shift outside of negative octants
-    coords -= np.min(coords, axis=0)
+    coords = coords - np.min(coords, axis=0)
 
     # get box size and number of voxels in each direction
     dims = np.max(coords, axis=0)
@@ -239,7 +239,7 @@ def calc_rdf(coords, cutoff=20.0, px=True, py=True, pz=True):
     for i in range(np.prod(N)):
         cur_parts = coords[parts[i], :][:, :, None]
 
-        for n in nn[box_idx[i]]:
+        for n in nn[i]:
             neighbor_parts = (coords[parts[n], :].T)[None, :, :]
             dist = np.sqrt(f_sdist(cur_parts, neighbor_parts))
 
-- 
2.43.0


From 392fbb817d82ca440378d870cbfad756904277e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 25/38] fix: amorphous blocks could have atoms closer than
 min_dist across periodic boundaries

---
 czone/generator/amorphous_algorithms.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/czone/generator/amorphous_algorithms.py b/czone/generator/amorphous_algorithms.py
index 168919e..898d6dd 100644
--- a/czone/generator/amorphous_algorithms.py
+++ b/czone/generator/amorphous_algorithms.py
@@ -42,7 +42,9 @@ def get_tuples(tx, ty, tz):
 
 def get_voxels(min_dist, dims):
     """Get voxel and neighbor list."""
-    num_blocks = np.ceil(dims / (min_dist)).astype(int)
+    # any partial block at the end of an axis is merged into its last full block,
+    # so that blocks at least as wide as min_dist meet at periodic boundaries
+    num_blocks = np.maximum(np.floor(dims / (min_dist)).astype(int), 1)
     voxels = []
     neighbors = []
     for i in range(num_blocks[0]):
@@ -121,6 +123,7 @@ def gen_p_substrate(dims: List[float],
 
     # get voxel grid and list of local voxel neighbors
     voxels, neighbors = get_voxels(min_dist, dims)
+    last_block = np.array([len(voxels), len(voxels[0]), len(voxels[0][0])]) - 1
 
     if print_progress:
         print("Starting particle loop for %i particles" % num_c)
@@ -133,7 +136,7 @@ def gen_p_substrate(dims: List[float],
         new_coord = rng.uniform(size=(1, 3)) * dims
 
         block = np.floor(new_coord / (min_dist)).astype(int)
-        block = block[0]
+        block = np.minimum(block[0], last_block)
         tlist = neighbors[block[0]][block[1]][block[2]]
         parts = []
         for t in tlist:
@@ -144,7 +147,7 @@ def gen_p_substrate(dims: List[float],
 
             new_coord = rng.uniform(size=(1, 3)) * dims
             block = np.floor(new_coord / (min_dist)).astype(int)
-            block = block[0]
+            block = np.minimum(block[0], last_block)
             tlist = neighbors[block[0]][block[1]][block[2]]
             parts = []
             for t in tlist:
@@ -179,7 +182,7 @@ def gen_p_substrate_batched(dims: List[float],
     coords = np.zeros((num_c, 3))
     dims = np.array([dim_x, dim_y, dim_z])
     voxel_size = min_dist*voxel_scale
-    num_blocks = np.ceil(dims / (voxel_size)).astype(int)
+    num_blocks = np.maximum(np.floor(dims / (voxel_size)).astype(int), 1)
     tot_blocks = np.prod(num_blocks)
     Nt = np.array([1, num_blocks[0], num_blocks[0]*num_blocks[1]])
 
@@ -202,7 +205,7 @@ def gen_p_substrate_batched(dims: List[float],
 
         # find block for each particle and make sure every particle is in unique block
         # to avoid full N^2 comparisons within batch
-        block = (np.floor(new_coord /voxel_size) @ Nt).astype(int)
+        block = (np.minimum(np.floor(new_coord /voxel_size), num_blocks - 1) @ Nt).astype(int)
         __, idx = np.unique(block, return_index=True)
         block = block[idx]
         new_coord = new_coord[idx,:]
-- 
2.43.0


From ac60e5c71e638daefb66bc53cc0f8bff3a7b26ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 26/38] fix: find_approximate_normal could return a vector of
 vanishing length

---
 czone/surface/adsorbate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/surface/adsorbate.py b/czone/surface/adsorbate.py
index 221a548..48709c9 100644
--- a/czone/surface/adsorbate.py
+++ b/czone/surface/adsorbate.py
@@ -107,7 +107,7 @@ def find_approximate_normal(points, decay=0.99, tol=1e-5, margin=0, seed=23, max
         if i == max_steps:
             break
 
-    return w
+    return w/np.linalg.norm(w)
 
 def get_nearest_neighbors(target_idx,
                           shape_dict,
-- 
2.43.0


From e9a970365831e5c28e6be1a832264aee95457921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:10 +0000
Subject: [PATCH 27/38] fix: full alpha shape simplices were returned as a
 tuple, which broke surface_only=False

---
 czone/surface/alpha_shape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/czone/surface/alpha_shape.py b/czone/surface/alpha_shape.py
index aca7105..11aba2c 100644
--- a/czone/surface/alpha_shape.py
+++ b/czone/surface/alpha_shape.py
@@ -103,7 +103,7 @@ def alpha_shape_alg_3D(points, probe_radius, return_alpha_shape=False):
 
         # also return list of simplices indices for full alpha shape
         a_tris = np.logical_not(np.logical_and(outside, np.logical_not(probe_test)))
-        shape_dict["a_tris"] = np.nonzero(a_tris)
+        shape_dict["a_tris"] = np.nonzero(a_tris)[0]
 
         return list(set(out_points)), shape_dict
     else:
@@ -178,7 +178,7 @@ def alpha_shape_alg_3D_with_sampling(points, probe_radius, N_samples, std=1e-4,
 
         # also return list of simplices indices for full alpha shape
         a_tris = np.logical_not(np.logical_and(outside, np.logical_not(probe_test)))
-        shape_dict["a_tris"] = np.nonzero(a_tris)
+        shape_dict["a_tris"] = np.nonzero(a_tris)[0]
 
         return list(set(out_points)), shape_dict
     else:
-- 
2.43.0


From 0a955536a8ce9be1f4733662fe874ea08297c92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 28/38] fix: WulffSingle convenience constructors and get_areas
 raised

---
 czone/prefab/wulff.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 4a5af67..4f29f6d 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -169,7 +169,7 @@ class WulffSingle(WulffBase):
             return Volume(alg_objects=planes, generator=self.generator)
 
     def get_areas(self):
-        return self._wulff.facet_fractions
+        return self.wulff.facet_fractions
 
     def winterbottom(self, interface: Tuple[int], interface_energy: float):
         """Construct Winterbottom construction for single crystals.
@@ -206,8 +206,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a cubic nanoparticle.
         """
         energies = {(1, 0, 0): 1.0}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
     @classmethod
     def cuboctohedron(cls, generator: Generator, natoms: int = 1000):
@@ -221,8 +221,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a cuboctohedral nanoparticle.
         """
         energies = {(1, 0, 0): 1.0, (1, 1, 1): 1.15}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
     @classmethod
     def octohedron(cls, generator: Generator, natoms: int = 1000):
@@ -236,8 +236,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a octohedral nanoparticle.
         """
         energies = {(1, 1, 1): 1.0}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
     @classmethod
     def truncated_octohedron(cls, generator: Generator, natoms: int = 1000):
@@ -251,8 +251,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a truncated octohedral nanoparticle.
         """
         energies = {(1, 0, 0): 1.1, (1, 1, 0): 1.15, (1, 1, 1): 1.0}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
 
 """
-- 
2.43.0


From 2b927dddcfdca0424def06b66a0b22f66b3c4a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 29/38] fix: snap_plane_near_point ignored the generator origin
 and mishandled strained crystals

---
 czone/volume/algebraic.py | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 550823d..2e4dd00 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -444,17 +444,22 @@ def snap_plane_near_point(point: np.ndarray,
     miller_indices = np.array(miller_indices)
 
 
+    bases = generator.voxel.sbases
+    origin = generator.voxel.origin
+
     # check if generator has a strain field
-    if generator.strain_field is None:
-        # get point coordinates in generator coordinate system
-        point_fcoord = np.array(np.linalg.solve(generator.voxel.sbases, point))
-    else:
+    if not (generator.strain_field is None):
         assert ( isinstance(
             generator.strain_field, HStrain)), "Finding Miller planes with inhomogenous strain fields is not supported."
 
-        if generator.strain_field.mode == "crystal":
-            H = generator.strain_field.matrix
-            point_fcoord = np.array(np.linalg.solve(H @ generator.voxel.sbases, point))
+        # get bases and origin of strained crystal
+        generator.strain_field.scrape_params(generator)
+        new_origin = generator.strain_field.apply_strain(origin[None, :])
+        bases = (generator.strain_field.apply_strain(origin + bases.T) - new_origin).T
+        origin = new_origin[0, :]
+
+    # get point coordinates in generator coordinate system
+    point_fcoord = np.linalg.solve(bases, np.array(point).reshape(3,) - origin)
 
     # get lattice points that are intersected by miller plane
     with np.errstate(divide="ignore"):  #check for infs directly
@@ -478,18 +483,10 @@ def snap_plane_near_point(point: np.ndarray,
             new_point[i,0] = np.fix(point_fcoord[i]/target_fcoord[i])*target_fcoord[i] \
                                 if not np.isinf(target_fcoord[i]) else point_fcoord[i]
 
-    if generator.strain_field is None:
-        # scale back to real space
-        new_point = generator.voxel.sbases @ new_point
-
-        # get perpendicular vector
-        normal = generator.voxel.reciprocal_bases.T @ miller_indices
-    else:
-        H = generator.voxel.sbases
-        G = generator.strain_field.matrix
-        new_point = G @ H @ new_point
+    # scale back to real space
+    new_point = bases @ new_point + origin[:, None]
 
-        # get perpendicular vector
-        normal = np.linalg.inv(H @ G).T @ miller_indices
+    # get perpendicular vector
+    normal = np.linalg.inv(bases).T @ miller_indices
 
-    return Plane(normal=normal, point=new_point)
\ No newline at end of file
+    return Plane(normal=normal, point=new_point)
-- 
2.43.0


From 648c86edbdcb2890c4da77531d2eee56a2003082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:57 +0000
Subject: [PATCH 30/38] fix: snap_plane_near_point did not return the closest
 plane unless the crystal was orthogonal and the plane axial

---
 czone/volume/algebraic.py | 37 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 2e4dd00..4563678 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -458,35 +458,22 @@ def snap_plane_near_point(point: np.ndarray,
         bases = (generator.strain_field.apply_strain(origin + bases.T) - new_origin).T
         origin = new_origin[0, :]
 
-    # get point coordinates in generator coordinate system
-    point_fcoord = np.linalg.solve(bases, np.array(point).reshape(3,) - origin)
-
-    # get lattice points that are intersected by miller plane
-    with np.errstate(divide="ignore"):  #check for infs directly
-        target_fcoord = 1 / miller_indices
-
-    new_point = np.zeros((3, 1))
+    # planes in the family are those where the sum of the products of
+    # miller indices and fractional coordinates is an integer
+    point = np.array(point).reshape(3,)
+    normal = np.linalg.inv(bases).T @ miller_indices
+    point_idx = np.dot(normal, point - origin)
 
-    # TODO: if bases are not orthonormal, this procedure is not correct
-    # since the following rounds towards the nearest lattice points, with equal
-    # weights given to all lattice vectors
     if mode == "nearest":
-        for i in range(3):
-            new_point[i,0] = np.round(point_fcoord[i]/target_fcoord[i])*target_fcoord[i] \
-                                if not np.isinf(target_fcoord[i]) else point_fcoord[i]
+        plane_idx = np.round(point_idx)
     elif mode == "ceil":
-        for i in range(3):
-            new_point[i,0] = round_away(point_fcoord[i]/target_fcoord[i])*target_fcoord[i] \
-                                if not np.isinf(target_fcoord[i]) else point_fcoord[i]
+        plane_idx = round_away(point_idx)
     elif mode == "floor":
-        for i in range(3):
-            new_point[i,0] = np.fix(point_fcoord[i]/target_fcoord[i])*target_fcoord[i] \
-                                if not np.isinf(target_fcoord[i]) else point_fcoord[i]
-
-    # scale back to real space
-    new_point = bases @ new_point + origin[:, None]
+        plane_idx = np.fix(point_idx)
+    else:
+        raise ValueError("Mode must be one of nearest, floor, or ceil.")
 
-    # get perpendicular vector
-    normal = np.linalg.inv(bases).T @ miller_indices
+    # project point onto selected plane
+    new_point = point + (plane_idx - point_idx) * normal / np.dot(normal, normal)
 
     return Plane(normal=normal, point=new_point)
-- 
2.43.0


From 580b8aee825b5f6e5d97e4c8ca6d16cb1bc9f20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 31/38] fix: bounding box of a cylinder along (1,1,1) was not a
 number

---
 czone/volume/algebraic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 4563678..1d18272 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -320,6 +320,8 @@ class Cylinder(BaseAlgebraic):
         # get vectors perpendicular to axis
         vs_0 = np.array([[1,1,1]]).T # any vector works; fix to make generation stable
         vs_0 = vs_0/np.linalg.norm(vs_0)
+        if np.abs(vs_0.T @ vz) > 0.9: # (nearly) parallel to axis
+            vs_0 = np.array([[1,-1,0]]).T / np.sqrt(2)
         vs_0 = vs_0 - (vs_0.T @ vz) * vz
         vs_0 = vs_0/np.linalg.norm(vs_0)
 
-- 
2.43.0


From 7285bf6afb9bac63be620e2caf45d88e4eea0b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:25 +0000
Subject: [PATCH 32/38] fix: points added to a volume were not part of its
 interior

---
 czone/volume/volume.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index 8bd549c..754f8fb 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -271,6 +271,7 @@ class Volume(BaseVolume):
         #if hull created, update points; else, create hull
         try:
             self._hull.add_points(points)
+            self._tri = Delaunay(self.hull.points[self.hull.vertices])
         except AttributeError:
             self.createHull()
 
-- 
2.43.0


From 0040d1ad4876e6396418421a4c7e38dc811adf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 33/38] fix: accept tuples of indices when removing atoms from
 a molecule

---
 czone/molecule/molecule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/molecule/molecule.py b/czone/molecule/molecule.py
index d1dba7c..4a15a36 100644
--- a/czone/molecule/molecule.py
+++ b/czone/molecule/molecule.py
@@ -109,7 +109,7 @@ class BaseMolecule(ABC):
             raise IndexError(f"Supplied new_origin_idx {new_origin_idx} in set of indices of atoms to be removed.")
         
         removed = np.zeros(self.atoms.shape[0], dtype=bool)
-        removed[indices] = True
+        removed[list(indices)] = True
 
         if self._origin_tracking or new_origin_idx is not None:
             origin_idx = self._origin_idx if new_origin_idx is None else new_origin_idx
-- 
2.43.0


From 584b103efc8c5f75933b72960cc64555004c0a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 34/38] fix: given thermal factors were refused when writing a
 scene for prismatic

---
 czone/scene/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/scene/scene.py b/czone/scene/scene.py
index 9d873b8..e974fd9 100644
--- a/czone/scene/scene.py
+++ b/czone/scene/scene.py
@@ -179,9 +179,9 @@ class Scene():
                 dwf = set(self.all_species)
                 dw_default = (0.1**2.0) * 8 * np.pi**2.0
                 dwf = {str(Symbols([x])): dw_default for x in dwf}
+                kwargs.setdefault("debye_waller_factors", dwf)
                 ase_write(filename=fname,
                           images=self.ase_atoms,
-                          debye_waller_factors=dwf,
                           **kwargs)
             else:
                 ase_write(filename=fname, images=self.ase_atoms, **kwargs)
-- 
2.43.0


From e1cb7e1162657c072c715290f71d6df7599be6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 35/38] fix: chemical substitution with fraction zero could
 replace atoms

---
 czone/transform/post.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/post.py b/czone/transform/post.py
index dc50d5d..fd4cae3 100644
--- a/czone/transform/post.py
+++ b/czone/transform/post.py
@@ -50,7 +50,7 @@ class ChemicalSubstitution(BasePostTransform):
             t_filter = species == t
             t_probs = rng.uniform(0,1,size=species.shape)
 
-            out_species[(t_filter) & (t_probs <= self.frac)] = s
+            out_species[(t_filter) & (t_probs < self.frac)] = s
 
         return out_species
 
-- 
2.43.0


From cb03ff511235b95e39fcf776e3fa69b5133d8f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:43 +0000
Subject: [PATCH 36/38] fix: recompute a Wulff shape after its energies, size
 or generator are replaced

---
 czone/prefab/wulff.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 4f29f6d..0a3614b 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -57,6 +57,7 @@ class WulffBase(ABC):
         assert (isinstance(val, Generator)
                ), "Supplied generator must be crystalline Generator class"
         self._generator = val
+        self._wulff = None
         p_struct = val.structure.get_primitive_structure()
         self._p_atoms = Atoms(positions=p_struct.cart_coords, cell=p_struct.lattice.matrix)
 
@@ -76,6 +77,7 @@ class WulffBase(ABC):
             self._natoms = int(val)
         except:
             raise TypeError("natoms must be convertible to integer")
+        self._wulff = None
 
     @property
     def surface_energies(self):
@@ -89,6 +91,7 @@ class WulffBase(ABC):
                 "surface energies must be passed as tuple pairs of miller indices and floats"
 
         self._surface_energies = vals
+        self._wulff = None
 
     ####################
     ###### Methods #####
-- 
2.43.0


From edd6b0217541be5ee35e6f06b5f633f2a8e26c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:49 +0000
Subject: [PATCH 37/38] fix: report planes that enclose an unbounded region
 instead of returning corners at infinity

---
 czone/volume/algebraic.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 1d18272..e14b380 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -414,6 +414,13 @@ def get_bounding_box(planes: List[Plane]):
     res = linprog(c, A_ub=np.hstack([A, norms]), b_ub=-1.0 * d,
                   bounds=[(None, None)] * 3 + [(0, None)])
     if (res.status == 0):
+        # region is bounded only if it has an extent in every direction
+        for direction in np.vstack([np.eye(3), -np.eye(3)]):
+            extent = linprog(direction, A_ub=A, b_ub=-1.0 * d,
+                             bounds=[(None, None)] * 3)
+            if (extent.status != 0):
+                return np.empty((0,3)), 3
+
         try:
             hs = HalfspaceIntersection(np.hstack([A, d]), res.x[:-1])
         except QhullError:
-- 
2.43.0


From a922596d42e2ba8173dbf79a7093eeeb715839e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:45 +0000
Subject: [PATCH 38/38] fix: report a wurtzite stacking fault only if one was
 placed

---
 czone/prefab/prefab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/prefab/prefab.py b/czone/prefab/prefab.py
index 6ac759c..38456c1 100644
--- a/czone/prefab/prefab.py
+++ b/czone/prefab/prefab.py
@@ -430,7 +430,7 @@ class wurtziteStackingFault(BasePrefab):
         vols = [self.volume.from_volume(generator=gen_tmp)]
         vols[0].priority = self.N
 
-        defect_types = {"stacking_fault":True}
+        defect_types = {"stacking_fault": self.N > 0}
         bz = (0.5)*self.generator.voxel.sbases @ np.array([0, 0, -1])
 
         polarity = 1
-- 
2.43.0

