From 21308c5244c6956fe252b902d790212375711a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 01/36] fix: Lorentz factor of a batch holding one vector keeps
 its batch dimension

Polycrystal.diffract crashed with an IndexError whenever exactly one
reflection was found.
---
 xrd_simulator/scattering_factors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/scattering_factors.py b/xrd_simulator/scattering_factors.py
index b58454d..49b0df6 100644
--- a/xrd_simulator/scattering_factors.py
+++ b/xrd_simulator/scattering_factors.py
@@ -64,7 +64,9 @@ def _lorentz(
     result = 1.0 / (torch.sin(2 * theta) * torch.abs(torch.sin(eta)))
     result = torch.where(condition, torch.tensor(float("inf")), result)
 
-    return result.squeeze()  # Remove singleton dimensions for single vector input
+    # Remove singleton dimension for single vector input only, a (1, 3) batch
+    # must give back a shape (1,) tensor.
+    return result.squeeze() if k_out.dim() == 1 else result
 
 
 def _polarization(k_out: torch.Tensor, pol_vec: torch.Tensor) -> torch.Tensor | float:
-- 
2.43.0


From 6b97034758b731e6e4fecf8e694c272120b05199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 02/36] fix: default element_phase_map is a tensor, like a user
 supplied one

Polycrystal(..., element_phase_map=None).diffract() raised a TypeError.
---
 xrd_simulator/polycrystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 2458a2d..11ad779 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -624,7 +624,7 @@ class Polycrystal:
         if element_phase_map is None:
             if len(phases) > 1:
                 raise ValueError("element_phase_map not set for multiphase polycrystal")
-            element_phase_map = np.zeros((mesh.number_of_elements,), dtype=int)
+            element_phase_map = ensure_torch(np.zeros((mesh.number_of_elements,)))
         else:
             element_phase_map = ensure_torch(element_phase_map)
         return element_phase_map, phases
-- 
2.43.0


From 15623afc9c59ae14f6504b37d0c82da1e6aaf6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 03/36] fix: feasible point search of the beam uses the largest
 inscribed sphere

The previous search solved a linear system for the active constraints which
is singular when fewer than three are active (LinAlgError while rendering),
could push the point out of a sharp corner (illuminated volume lost), and
depended on a wall clock limit.
---
 xrd_simulator/beam.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/xrd_simulator/beam.py b/xrd_simulator/beam.py
index 8724621..5132b6e 100644
--- a/xrd_simulator/beam.py
+++ b/xrd_simulator/beam.py
@@ -272,26 +272,19 @@ class Beam:
             Interior point if found, otherwise ``None``.
         """
         halfspaces = ensure_numpy(halfspaces)
+        # The feasible point furthest from all the halfspace boundaries is the
+        # centre of the largest inscribed sphere (x, y, z, radius).
+        norms = np.linalg.norm(halfspaces[:, :-1], axis=1, keepdims=True)
         res = linprog(
-            c=np.zeros((3,)),
-            A_ub=halfspaces[:, :-1],
+            c=np.array([0.0, 0.0, 0.0, -1.0]),
+            A_ub=np.hstack((halfspaces[:, :-1], norms)),
             b_ub=-halfspaces[:, -1],
-            bounds=(None, None),
+            bounds=[(None, None), (None, None), (None, None), (0, None)],
             method="highs",
-            options={
-                "maxiter": 5000,
-                "time_limit": 0.1,
-            },  # typical solve time is ~1-2 ms
+            options={"maxiter": 5000},  # typical solve time is ~1-2 ms
         )
         if res.success:
-            if np.any(res.slack == 0):
-                A = halfspaces[res.slack == 0, :-1]
-                dx = np.linalg.solve(
-                    A.T.dot(A), A.T.dot(-np.ones((A.shape[0],)) * 1e-5)
-                )
-                trial = res.x + dx
-            else:
-                trial = res.x
+            trial = res.x[:3]
             if np.all((halfspaces[:, :-1].dot(trial) + halfspaces[:, -1]) < -1e-8):
                 return trial
             else:
-- 
2.43.0


From 18dfeed656b5696e7875dc6dae08da0d790f73c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 04/36] fix: translate() keeps rotations and motions previously
 applied to the mesh

---
 xrd_simulator/mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/mesh.py b/xrd_simulator/mesh.py
index 34baafc..6c85618 100644
--- a/xrd_simulator/mesh.py
+++ b/xrd_simulator/mesh.py
@@ -226,7 +226,9 @@ class TetraMesh(object):
         if torch.is_tensor(translation_vector):
             translation_vector = utils.ensure_numpy(translation_vector)
         
-        self._mesh.points += translation_vector
+        # The current nodal coordinates are the ones to translate, the meshio
+        # points are not kept up to date by update().
+        self._mesh.points = utils.ensure_numpy(self.coord) + translation_vector
         self.coord = utils.ensure_torch(self._mesh.points, dtype=torch.float64)
         self.ecentroids += utils.ensure_torch(translation_vector, dtype=torch.float64)
         self.espherecentroids += utils.ensure_torch(translation_vector, dtype=torch.float64)
-- 
2.43.0


From 74ddfdc490e86e68c0d2ca2bc0c5181924af7e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 05/36] fix: Polycrystal.save writes the xdmf next to the pc
 file when the path has dots

---
 xrd_simulator/polycrystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 11ad779..4a5350f 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -456,7 +456,7 @@ class Polycrystal:
             xdmf_path = path + ".xdmf"
         else:
             pickle_path = path
-            xdmf_path = path.split(".")[0] + ".xdmf"
+            xdmf_path = path[: -len(".pc")] + ".xdmf"
         with open(pickle_path, "wb") as f:
             dill.dump(self, f, dill.HIGHEST_PROTOCOL)
         if save_mesh_as_xdmf:
-- 
2.43.0


From c4489fe95ecbf6e94894a43a28e07820df2b20f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 06/36] fix: element volumes are positive whatever the node
 ordering of the element

---
 xrd_simulator/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/mesh.py b/xrd_simulator/mesh.py
index 6c85618..cdebfa4 100644
--- a/xrd_simulator/mesh.py
+++ b/xrd_simulator/mesh.py
@@ -457,7 +457,7 @@ class TetraMesh(object):
         a = vertices[:, 1, :] - vertices[:, 0, :]
         b = vertices[:, 2, :] - vertices[:, 0, :]
         c = vertices[:, 3, :] - vertices[:, 0, :]
-        evolumes = (1 / 6.0) * torch.sum(torch.cross(a, b, dim=1) * c, dim=1)
+        evolumes = (1 / 6.0) * torch.abs(torch.sum(torch.cross(a, b, dim=1) * c, dim=1))
         return evolumes
 
     def _compute_mesh_spheres(self, coord, enod):
-- 
2.43.0


From 2bc04e7f1cc4b7e2d2d3ce5856b8389c593f931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 07/36] fix: TetraMesh.save does not modify the element_data of
 the caller

---
 xrd_simulator/mesh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xrd_simulator/mesh.py b/xrd_simulator/mesh.py
index cdebfa4..8189124 100644
--- a/xrd_simulator/mesh.py
+++ b/xrd_simulator/mesh.py
@@ -288,6 +288,7 @@ class TetraMesh(object):
             save_path = file
 
         if element_data is not None:
+            element_data = dict(element_data)  # leave the input as it is
             for key in element_data:
                 if torch.is_tensor(element_data[key]):
                     element_data[key] = [list(utils.ensure_numpy(element_data[key]))]
-- 
2.43.0


From 8825818edb36aa5ff412f983d981fdedb77a7044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 08/36] fix: lines parallel to and outside of a polyhedron face
 have zero clip length

---
 xrd_simulator/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/utils.py b/xrd_simulator/utils.py
index b01fd11..329bc48 100644
--- a/xrd_simulator/utils.py
+++ b/xrd_simulator/utils.py
@@ -213,8 +213,11 @@ def _clip_line_with_convex_polyhedron(
     t_e = torch.max(t_i[:, te_mask], dim=1).values
     t_l = torch.min(t_i[:, tl_mask], dim=1).values
 
+    # Lines parallel to a face plane and outside of it miss the polyhedron
+    misses = (numerator[:, t2 == 0] < 0).any(dim=1)
+
     # Return clipped lengths, using zero for non-intersecting lines
-    return torch.where(t_l > t_e + 1e-12, t_l - t_e, 0.0)
+    return torch.where((t_l > t_e + 1e-12) & ~misses, t_l - t_e, 0.0)
 
 
 def _alpha_to_quarternion(alpha_1, alpha_2, alpha_3):
-- 
2.43.0


From 93bfc452cd4cfae8f0337d93de8cb665cdd11bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 09/36] fix: render(method="auto") honours render_dtype

---
 xrd_simulator/detector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index b520994..cbc757a 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -349,6 +349,7 @@ class Detector:
                     self.pixel_coordinates.shape[1],
                 ),
                 device=peaks.device,
+                dtype=target_dtype,
             )
 
             # Collect contributions (each returns frames_to_render-length tensors)
-- 
2.43.0


From ebfb36a065d34f44a66de35aa40d8ef8acc4ba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 10/36] fix: max_bragg_angle is respected when a detector is
 passed to diffract

---
 xrd_simulator/polycrystal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 4a5350f..57a2b4d 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -713,9 +713,13 @@ class Polycrystal:
         else:
             source_point = ensure_torch(self.mesh_lab.centroid)
         
-        max_bragg_angle = detector._get_wrapping_cone(
+        wrapping_cone = detector._get_wrapping_cone(
             beam.wave_vector, source_point
         ).item()
+        if max_bragg_angle is None:
+            max_bragg_angle = wrapping_cone
+        else:
+            max_bragg_angle = min(max_bragg_angle, wrapping_cone)
 
         assert (
             min_bragg_angle >= 0
-- 
2.43.0


From ab3f35cbdc3363f11bc397dd041aafe83a89df7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 11/36] fix: find the Laue solution when the tangent half angle
 equation is linear

---
 xrd_simulator/laue.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/laue.py b/xrd_simulator/laue.py
index 9881447..0c24a33 100644
--- a/xrd_simulator/laue.py
+++ b/xrd_simulator/laue.py
@@ -101,8 +101,11 @@ def _find_solutions_to_tangens_half_angle_equation(
     numerator = rho_2 + rho_0
 
     del rho_2
+    # When the denominator is zero equation (2) is linear in s
+    linear = denominator == 0
+    s_linear = -numerator / (2 * torch.matmul(rho_1_factor, G_0))
     #Remove 0 denominators
-    denominator[denominator==0] = torch.nan
+    denominator[linear] = torch.nan
 
     # Calculate coefficients for quadratic equation
     a = torch.divide(
@@ -129,7 +132,7 @@ def _find_solutions_to_tangens_half_angle_equation(
     # discriminant[discriminant>10] = torch.nan 
 
     # Calculate solutions for s
-    s1 = -a + torch.sqrt(discriminant)
+    s1 = torch.where(linear, s_linear, -a + torch.sqrt(discriminant))
     s2 = -a - torch.sqrt(discriminant)
     del a, discriminant
     t1 = 2 * torch.arctan(s1) / delta_omega
-- 
2.43.0


From 67c0ef4e99cbbfa5e6a756b23ca5f91aec531a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 12/36] fix: weak peaks are not dropped by the micro renderer

The cut off for negligible kernel weights was compared with the absolute
intensity, so that peaks of small grains lost intensity or vanished.
---
 xrd_simulator/detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index cbc757a..7200860 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -917,6 +917,7 @@ class Detector:
             weights = torch.exp(-dist_sq / (2 * sigma**2))
             weight_sums = weights.sum(dim=1, keepdim=True)
             weights = weights / (weight_sums + 1e-12)
+            significant = weights > 1e-6
             weights = weights * intensities[start:end].unsqueeze(1)
 
             valid = (
@@ -924,7 +925,7 @@ class Detector:
                 & (z_pixels < diffraction_frames.shape[1])
                 & (y_pixels >= 0)
                 & (y_pixels < diffraction_frames.shape[2])
-                & (weights > 1e-6)
+                & significant
             )  # Only significant weights
 
             if valid.any():
-- 
2.43.0


From 0bd7b478245cbe8d0ac4b2837562ecc5a737c3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 13/36] fix: polycrystal_from_odf calls the user functions with
 numpy coordinates

---
 xrd_simulator/templates.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/templates.py b/xrd_simulator/templates.py
index d5d5e9b..2a0745a 100644
--- a/xrd_simulator/templates.py
+++ b/xrd_simulator/templates.py
@@ -241,16 +241,19 @@ def polycrystal_from_odf(
     phases = [Phase(unit_cell, sgname, path_to_cif_file)]
     element_phase_map = np.zeros((mesh.number_of_elements,)).astype(int)
 
+    # The user supplied functions take numpy coordinates
+    ecentroids = utils.ensure_numpy(mesh.ecentroids)
+
     # Sample spatial texture
     orientation = _sample_ODF(
-        orientation_density_function, maximum_sampling_bin_seperation, mesh.ecentroids
+        orientation_density_function, maximum_sampling_bin_seperation, ecentroids
     )
 
     # Sample spatial strain
     strain_lab = np.zeros((mesh.number_of_elements, 3, 3))
     for ei in range(mesh.number_of_elements):
         # strain in lab/sample-coordinates
-        strain_lab[ei] = strain_tensor(mesh.ecentroids[ei])
+        strain_lab[ei] = strain_tensor(ecentroids[ei])
 
     return Polycrystal(
         mesh,
-- 
2.43.0


From c894c7980b0ec886ab81eeba20882bcba3fd0d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 14/36] fix: rotation of a (1, 3) array keeps its shape

---
 xrd_simulator/motion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/motion.py b/xrd_simulator/motion.py
index 4e7c639..4386e51 100644
--- a/xrd_simulator/motion.py
+++ b/xrd_simulator/motion.py
@@ -362,13 +362,15 @@ class _RodriguezRotator(object):
         R = self.get_rotation_matrix(rotation_angle)
         vectors = ensure_torch(vectors)
 
-        if len(vectors.shape) == 1:
+        single_vector = len(vectors.shape) == 1
+        if single_vector:
             vectors = vectors[None, :]
         
         # Handle both scalar and vector rotation_angle cases
         if rotation_angle.ndim == 0:
             # Scalar case: R is (3,3), vectors is (N,3) -> output (N,3)
-            return torch.squeeze(torch.matmul(R, vectors[:, :, None]))
+            rotated_vectors = torch.matmul(R, vectors[:, :, None]).squeeze(-1)
+            return rotated_vectors[0] if single_vector else rotated_vectors
         else:
             # Vector case: R is (N,3,3), vectors is (N,3) -> output (N,3)
             # Use bmm: (N,3,3) × (N,3,1) -> (N,3,1) -> squeeze to (N,3)
-- 
2.43.0


From f7afcabc96e702efcde93d4a4c79a6806246ec27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 15/36] fix: RigidBodyMotion.translate accepts (N, 3) arrays as
 documented

---
 xrd_simulator/motion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/motion.py b/xrd_simulator/motion.py
index 4386e51..820a80c 100644
--- a/xrd_simulator/motion.py
+++ b/xrd_simulator/motion.py
@@ -191,7 +191,7 @@ class RigidBodyMotion:
         
         vectors = ensure_torch(vectors)
         
-        if len(vectors.shape) > 1:
+        if len(vectors.shape) > 1 and vectors.shape[0] == 3:
             translation = self.translation.reshape(3, 1)
         else:
             translation = self.translation
-- 
2.43.0


From 6df919fa54cf18410d58ddc8c3bcd8a3dddbb55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 16/36] fix: number of detector pixels is exact

Round off in arange gave one pixel too many for some n_pixels and for sides
being multiples of the pixel size.
---
 xrd_simulator/detector.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 7200860..2abfa67 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -414,8 +414,11 @@ class Detector:
         # Get device from det_corner_0 to ensure all tensors are on same device
         dev = self.det_corner_0.device
 
-        zds = torch.arange(0, self.zmax, self.pixel_size_z, device=dev)
-        yds = torch.arange(0, self.ymax, self.pixel_size_y, device=dev)
+        # Round off must not add a pixel when the sides are multiples of the pixel size
+        n_z = int(np.ceil(float(self.zmax / self.pixel_size_z) - 1e-6))
+        n_y = int(np.ceil(float(self.ymax / self.pixel_size_y) - 1e-6))
+        zds = torch.arange(n_z, dtype=torch.float64, device=dev) * self.pixel_size_z
+        yds = torch.arange(n_y, dtype=torch.float64, device=dev) * self.pixel_size_y
         Z, Y = torch.meshgrid(zds, yds, indexing="ij")
         Zds = torch.zeros((len(zds), len(yds), 3), device=dev)
         Yds = torch.zeros((len(zds), len(yds), 3), device=dev)
-- 
2.43.0


From 3069c3e3827ba9816bb5e5e742acbb8bd457a0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 17/36] fix: macro rendering of grains that are thin or at the
 detector edge

Frames were filled with NaN when no pixel ray hit the grain, and sampled
points projected outside of the detector raised an IndexError.
---
 xrd_simulator/detector.py | 68 +++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 27 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 2abfa67..fcd4ef7 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -591,8 +591,11 @@ class Detector:
             max_zd, max_yd
         )
 
-        max_row_indx = min(max_row_indx + 1, int(zmax / self.pixel_size_z))
-        max_col_indx = min(max_col_indx + 1, int(ymax / self.pixel_size_y))
+        max_row_indx = min(max_row_indx + 1, self.pixel_coordinates.shape[0])
+        max_col_indx = min(max_col_indx + 1, self.pixel_coordinates.shape[1])
+
+        if min_row_indx >= max_row_indx or min_col_indx >= max_col_indx:
+            return None
 
         return min_row_indx, max_row_indx, min_col_indx, max_col_indx
 
@@ -1639,9 +1642,28 @@ class Detector:
         if n_pixels_in_box == 1:
             # tetra is fully contained in a detector pixel, use the volume of the tetra as intensity
             return torch.ones(1, 1) * proj_context["convex_hull"].volume
-        elif (
-            n_pixels_in_box <= 4
-        ):  # tetra is small compared to the pixel size, adapt to sampling approach.
+
+        if n_pixels_in_box > 4:
+            # This is a good approximation when the tetras are large in relation to the pixel size
+            # Get pixel coordinates and project on pixel centorid ray-lines
+            pixel_coords = self.pixel_coordinates[box[0] : box[1], box[2] : box[3], :]
+            ray_points = pixel_coords.reshape((box[1] - box[0]) * (box[3] - box[2]), 3)
+
+            clip_lengths = utils._clip_line_with_convex_polyhedron(
+                ray_points, ray_direction, plane_points, plane_normals
+            )
+
+            if clip_lengths.sum() > 0:
+                # ensure that scattering is proportional to the material volume
+                # that is scattering.
+                clip_lengths /= clip_lengths.sum()
+                clip_lengths *= proj_context["convex_hull"].volume
+                return clip_lengths.reshape(box[1] - box[0], box[3] - box[2])
+
+        if (
+            n_pixels_in_box > 0
+        ):  # tetra is small compared to the pixel size, or so thin that no pixel ray
+            # hits it, adapt to sampling approach.
             # This is a decent approximation when the tetras are small in relation to the pixel size
             n_samples = (
                 7 * n_pixels_in_box
@@ -1661,33 +1683,25 @@ class Detector:
             zd = out[:, 0]
             yd = out[:, 1]
 
-            row_index = ensure_numpy(zd / self.pixel_size_z).astype(int) - box[0]
-            col_index = ensure_numpy(yd / self.pixel_size_y).astype(int) - box[2]
-
-            box_intensities = np.zeros((box[1] - box[0], box[3] - box[2]))
-            np.add.at(box_intensities, (row_index, col_index), clip_lengths)
-            box_intensities /= box_intensities.sum()
-            box_intensities *= proj_context["convex_hull"].volume
+            row_index = np.floor(ensure_numpy(zd / self.pixel_size_z)) - box[0]
+            col_index = np.floor(ensure_numpy(yd / self.pixel_size_y)) - box[2]
 
-            return ensure_torch(box_intensities)
+            # samples projected outside of the detector do not contribute
+            shape = (box[1] - box[0], box[3] - box[2])
+            hits = (row_index >= 0) & (row_index < shape[0])
+            hits &= (col_index >= 0) & (col_index < shape[1])
 
-        else:
-            # This is a good approximation when the tetras are large in relation to the pixel size
-            # Get pixel coordinates and project on pixel centorid ray-lines
-            pixel_coords = self.pixel_coordinates[box[0] : box[1], box[2] : box[3], :]
-            ray_points = pixel_coords.reshape((box[1] - box[0]) * (box[3] - box[2]), 3)
+            weights = ensure_numpy(clip_lengths)
+            weights = weights / weights.sum() * proj_context["convex_hull"].volume
 
-            clip_lengths = utils._clip_line_with_convex_polyhedron(
-                ray_points, ray_direction, plane_points, plane_normals
+            box_intensities = np.zeros(shape)
+            np.add.at(
+                box_intensities,
+                (row_index[hits].astype(int), col_index[hits].astype(int)),
+                weights[hits],
             )
 
-            # ensure that scattering is proportional to the material volume
-            # that is scattering.
-            clip_lengths /= clip_lengths.sum()
-            clip_lengths *= proj_context["convex_hull"].volume
-            clip_lengths = clip_lengths.reshape(box[1] - box[0], box[3] - box[2])
-
-        return clip_lengths
+            return ensure_torch(box_intensities)
 
     # ------------------------------------------------------------------
     # 6. Convolution / kernel helpers
-- 
2.43.0


From 549941ed00261b5721c4173210c482bd51ac8557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 18/36] fix: beam intersection starts from a point that is
 clearly interior

The centroid or a vertex can be inside of the (rounded) beam halfspaces and at
the same time on the boundary of the polyhedron, Qhull then fails (QH6023).
---
 xrd_simulator/beam.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/xrd_simulator/beam.py b/xrd_simulator/beam.py
index 5132b6e..58ce5b2 100644
--- a/xrd_simulator/beam.py
+++ b/xrd_simulator/beam.py
@@ -168,21 +168,17 @@ class Beam:
         # Since _find_feasible_point() is expensive it is worth checking for if the polyhedra
         # centroid is contained by the beam, being a potential cheaply computed interior_point.
 
+        # The trial point must be clearly interior or the halfspace intersection is singular.
         centroid = torch.mean(vertices, axis=0)
-        if self._contains(centroid):
-            interior_point = centroid
+        trial_points = torch.vstack((centroid, centroid + (vertices - centroid) * 0.99))
+        clearly_inside = self._clearly_inside(combined_halfspaces, trial_points)
+        if np.any(clearly_inside):
+            interior_point = trial_points[np.argmax(clearly_inside)]
         else:
-            trial_points = centroid + (vertices - centroid) * 0.99
-
-            for i, is_contained in enumerate(self._contains(trial_points.T)):
-                if is_contained:
-                    interior_point = trial_points[i, :].flatten()
-                    break
-            else:
-                interior_point = self._find_feasible_point(combined_halfspaces)
-                interior_point = (
-                    ensure_torch(interior_point) if interior_point is not None else None
-                )
+            interior_point = self._find_feasible_point(combined_halfspaces)
+            interior_point = (
+                ensure_torch(interior_point) if interior_point is not None else None
+            )
 
         if interior_point is not None:
             hs = HalfspaceIntersection(
@@ -255,6 +251,13 @@ class Beam:
             loaded.halfspaces = ensure_torch(data["halfspaces"])
             return loaded
 
+    @staticmethod
+    def _clearly_inside(halfspaces, points, margin: float = 1e-8) -> np.ndarray:
+        """Mask the points, shape ``(n, 3)``, that are clearly inside all halfspaces."""
+        halfspaces, points = ensure_numpy(halfspaces), ensure_numpy(points)
+        distances = points.dot(halfspaces[:, :-1].T) + halfspaces[:, -1]
+        return np.all(distances < -margin, axis=1)
+
     def _find_feasible_point(self, halfspaces: np.ndarray) -> np.ndarray | None:
         """Find a point clearly inside a set of halfspaces.
 
@@ -285,7 +288,7 @@ class Beam:
         )
         if res.success:
             trial = res.x[:3]
-            if np.all((halfspaces[:, :-1].dot(trial) + halfspaces[:, -1]) < -1e-8):
+            if self._clearly_inside(halfspaces, trial[np.newaxis, :])[0]:
                 return trial
             else:
                 return None
-- 
2.43.0


From cccd6f11f650102171b19b145988fb21bb64e38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 19/36] fix: bounding spheres of the elements are minimal

The three vertices supporting the minimal sphere are not always the two most
distant ones together with the one furthest from their midpoint.
---
 xrd_simulator/mesh.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/xrd_simulator/mesh.py b/xrd_simulator/mesh.py
index 8189124..6207df5 100644
--- a/xrd_simulator/mesh.py
+++ b/xrd_simulator/mesh.py
@@ -470,7 +470,7 @@ class TetraMesh(object):
         The method follows these steps:
 
         1. Calculate the minimal sphere for the two most distant vertices.
-        2. Calculate the minimal sphere for the three most distant vertices.
+        2. Calculate the minimal sphere for the faces of the tetrahedron.
         3. Calculate the sphere containing all four vertices on their surface.
 
         Parameters
@@ -531,21 +531,22 @@ class TetraMesh(object):
             (dist_centers_1D_to_vertices - radii_1D.unsqueeze(1)) <= 0, dim=1
         )
 
-        # Compute spheres through farthest 3 vertices
-        next_furthest_index = torch.argmax(dist_centers_1D_to_vertices, dim=1)
-        third_vertex = other2_vertices.permute(1, 0, 2)[
-            next_furthest_index, torch.arange(n_tetra, device=coord.device)
-        ]
-        largest_triangles = torch.cat(
-            [furthest2_vertices, third_vertex.unsqueeze(1)], dim=1
-        )
-        centers_2D, radii_2D = utils._circumsphere_of_triangles(largest_triangles)
-        dist_centers_2D_to_vertices = torch.linalg.norm(
-            vertices - centers_2D.unsqueeze(1), dim=2
+        # Compute the smallest of the spheres through 3 vertices which contain all 4
+        faces = torch.tensor([[0, 1, 2], [0, 1, 3], [0, 2, 3], [1, 2, 3]], device=coord.device)
+        centers_faces, radii_faces = utils._circumsphere_of_triangles(
+            vertices[:, faces].reshape(-1, 3, 3)
         )
-        spheres_solved_with_2D = torch.all(
-            (dist_centers_2D_to_vertices - radii_2D.unsqueeze(1)) <= 0, dim=1
+        centers_faces = centers_faces.reshape(n_tetra, 4, 3)
+        radii_faces = radii_faces.reshape(n_tetra, 4)
+        contains_all_vertices = torch.all(
+            torch.cdist(centers_faces, vertices) <= radii_faces.unsqueeze(2), dim=2
         )
+        radii_faces[~contains_all_vertices] = torch.inf
+        radii_2D, smallest_face = torch.min(radii_faces, dim=1)
+        centers_2D = centers_faces[
+            torch.arange(n_tetra, device=coord.device), smallest_face
+        ]
+        spheres_solved_with_2D = torch.any(contains_all_vertices, dim=1)
 
         # Compute spheres containing all 4 points
         centers_3D, radii_3D = utils._circumsphere_of_tetrahedrons(vertices)
-- 
2.43.0


From 7cb0348a10142d3876a4c2423b71ac1f1d1e7f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 20/36] fix: projection of hulls that are too thin to resolve
 is not NaN

---
 xrd_simulator/detector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index fcd4ef7..657fedf 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1692,6 +1692,8 @@ class Detector:
             hits &= (col_index >= 0) & (col_index < shape[1])
 
             weights = ensure_numpy(clip_lengths)
+            if weights.sum() == 0:  # the hull is too thin to resolve the path lengths
+                weights = np.ones(n_samples)
             weights = weights / weights.sum() * proj_context["convex_hull"].volume
 
             box_intensities = np.zeros(shape)
-- 
2.43.0


From 9bd1c8b9903ca7c39ca244cda1f5784be83c7d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 21/36] fix: Laue solutions do not lose precision close to the
 linear case

The small root was the difference of two large numbers, which put the
diffraction time off by up to one percent of the rotation.
---
 xrd_simulator/laue.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/xrd_simulator/laue.py b/xrd_simulator/laue.py
index 0c24a33..88f2dc2 100644
--- a/xrd_simulator/laue.py
+++ b/xrd_simulator/laue.py
@@ -125,16 +125,19 @@ def _find_solutions_to_tangens_half_angle_equation(
     # Calculate discriminant
 
     discriminant = a**2 - b
-    del b
 
     # Handle cases where discriminant is negative
     discriminant[discriminant<0] = torch.nan
     # discriminant[discriminant>10] = torch.nan 
 
-    # Calculate solutions for s
-    s1 = torch.where(linear, s_linear, -a + torch.sqrt(discriminant))
+    # Calculate solutions for s, the root of largest magnitude is free from
+    # cancellation and the product of the two roots is b.
+    s1 = -a + torch.sqrt(discriminant)
     s2 = -a - torch.sqrt(discriminant)
-    del a, discriminant
+    s1 = torch.where((a > 0) & (s2 != 0), b / s2, s1)
+    s2 = torch.where((a < 0) & (s1 != 0), b / s1, s2)
+    s1 = torch.where(linear, s_linear, s1)
+    del a, b, discriminant
     t1 = 2 * torch.arctan(s1) / delta_omega
     del s1
     indices_t1 = torch.argwhere(torch.logical_and(t1 >= 0, t1 <= 1))
-- 
2.43.0


From 02b2d01178adbe6180b47387cc89d28f7f3042be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 22/36] fix: diffracting planes are complete for every space
 group and cell setting

xfab.tools.genhkl_all stops its sweep early for oblique cells (monoclinic
with beta < 90 degrees, triclinic) and has wrong extinction conditions for
185, 186, 188, 190, 211, 220, 224, 228 and 230, such that e.g. the 101
reflection of wurtzite (P63mc) was never generated. The hkls are now found
in the box around the resolution sphere and absences follow from the
symmetry operators of the space group.
---
 xrd_simulator/phase.py | 43 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/xrd_simulator/phase.py b/xrd_simulator/phase.py
index 8821f60..0718392 100644
--- a/xrd_simulator/phase.py
+++ b/xrd_simulator/phase.py
@@ -20,7 +20,7 @@ functions.
 .. _The .cif file used in the above example can be found here.: https://github.com/FABLE-3DXRD/xrd_simulator/blob/main/docs/source/examples/quartz.cif?raw=true
 """
 import numpy as np
-from xfab import tools, structure
+from xfab import sg, tools, structure
 from xrd_simulator import utils
 
 class Phase(object):
@@ -100,11 +100,48 @@ class Phase(object):
         """
         sintlmin = np.sin(min_bragg_angle) / wavelength
         sintlmax = np.sin(max_bragg_angle) / wavelength
-        self.miller_indices = tools.genhkl_all(
-            self.unit_cell, sintlmin, sintlmax, sgname=self.sgname)
+        self.miller_indices = self._get_allowed_miller_indices(
+            sintlmin, sintlmax)
         if self.path_to_cif_file is not None:
             self._set_structure_factors(self.miller_indices)
 
+    def _get_allowed_miller_indices(self, sintlmin, sintlmax):
+        """Find all hkls, ``sintlmin < sin(theta)/lambda <= sintlmax``, that are not systematically absent.
+
+        All integer hkls of a box that encloses the resolution sphere are tested,
+        such that no setting or obliquity of the unit cell can hide a reflection.
+        A reflection is systematically absent when the symmetry operators of the
+        space group that map it onto itself contribute phase factors that cancel.
+
+        Parameters
+        ----------
+        sintlmin : float
+            Minimum sin(theta)/lambda, in inverse angstrom (not included).
+        sintlmax : float
+            Maximum sin(theta)/lambda, in inverse angstrom (included).
+
+        Returns
+        -------
+        numpy.ndarray
+            Allowable integer Miller indices, sorted by sin(theta)/lambda, of shape ``(n, 3)``.
+        """
+        limits = np.floor(2 * sintlmax * np.array(self.unit_cell[:3], dtype=float) + 1e-6).astype(int)
+        h, k, l = (np.arange(-m, m + 1, dtype=float) for m in limits)
+        hkl = np.stack(np.meshgrid(h, k, l, indexing="ij"), axis=-1).reshape(-1, 3)
+        sintl = tools.sintl(self.unit_cell, hkl.T)
+        in_range = (sintl > sintlmin) & (sintl <= sintlmax) & np.any(hkl != 0, axis=1)
+        hkl, sintl = hkl[in_range], sintl[in_range]
+        hkl = hkl[np.argsort(sintl, kind="stable")]
+
+        space_group = sg.sg(sgname=self.sgname)
+        n_invariant = np.zeros(len(hkl))
+        phase_sum = np.zeros(len(hkl), dtype=complex)
+        for rotation, translation in zip(space_group.rot, space_group.trans):
+            invariant = np.all(np.abs(hkl @ rotation - hkl) < 1e-6, axis=1)
+            n_invariant += invariant
+            phase_sum += invariant * np.exp(2j * np.pi * (hkl @ translation))
+        return hkl[np.abs(phase_sum) > 0.5 * n_invariant]
+
     def _set_structure_factors(self, miller_indices):
         """Generate unit cell structure factors for all Miller indices.
 
-- 
2.43.0


From 665073965cb914d3c2bdd8bf8c9171716437e916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 23/36] fix: a batch with an unfeasible strain raises the
 ValueError, not an IndexError

---
 xrd_simulator/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/utils.py b/xrd_simulator/utils.py
index 329bc48..dca1f60 100644
--- a/xrd_simulator/utils.py
+++ b/xrd_simulator/utils.py
@@ -334,9 +334,10 @@ def _epsilon_to_b(crystal_strain, B0):
 
     eigen_vals = torch.linalg.eigvalsh(C)
     if torch.any(eigen_vals < 0):
+        unfeasible = torch.any(eigen_vals.reshape(-1, 3) < 0, dim=1)
         raise ValueError(
             "Unfeasible strain tensor with value: "
-            + str(_strain_as_vector(crystal_strain))
+            + str(_strain_as_vector(crystal_strain.reshape(-1, 3, 3)[unfeasible][0]))
             + ", will invert the unit cell with negative deformation gradient tensor determinant"
         )
     if C.ndim == 3:
-- 
2.43.0


From 2b61dfb31d8c21b5ae33935b7b63cd30cd8ef532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 24/36] fix: no NaN angle for rays along the detector normal or
 corners on the beam axis

---
 xrd_simulator/detector.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 657fedf..dc63f8d 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -467,7 +467,7 @@ class Detector:
 
         ray_dir_norm = ray_direction / torch.norm(ray_direction, dim=1).unsqueeze(-1)
         normal_norm = self.normal / torch.linalg.norm(self.normal)
-        cosine_theta = torch.matmul(ray_dir_norm, -normal_norm)
+        cosine_theta = torch.matmul(ray_dir_norm, -normal_norm).clamp(-1.0, 1.0)
         incident_angle_deg = torch.arccos(cosine_theta) * (180 / torch.pi)
         return torch.stack((zd, yd, incident_angle_deg), dim=1)
 
@@ -507,7 +507,9 @@ class Detector:
             geom_mat[:, i] = det_corner - source_point
         normalised_local_coord_geom_mat = geom_mat / torch.linalg.norm(geom_mat, axis=0)
         cone_opening = torch.arccos(
-            torch.matmul(normalised_local_coord_geom_mat.T, k / torch.linalg.norm(k))
+            torch.matmul(
+                normalised_local_coord_geom_mat.T, k / torch.linalg.norm(k)
+            ).clamp(-1.0, 1.0)
         )
         return torch.max(cone_opening) / 2.0
 
-- 
2.43.0


From 2ef7ad5d4a1146d99829d77419ec0fad2501a620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 25/36] fix: Lorentz factor in the forbidden zone is infinite,
 also when rounding exceeds the domain of arccos

---
 xrd_simulator/polycrystal.py        | 2 +-
 xrd_simulator/scattering_factors.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 57a2b4d..5d1e549 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -367,7 +367,7 @@ class Polycrystal:
         # Calculate 2theta (scattering angle)
         k_in = beam.wave_vector / torch.linalg.norm(beam.wave_vector)
         k_out = K_out_xyz / torch.linalg.norm(K_out_xyz, dim=1, keepdim=True)
-        two_theta = torch.arccos(torch.sum(k_in * k_out, dim=1))
+        two_theta = torch.arccos(torch.sum(k_in * k_out, dim=1).clamp(-1.0, 1.0))
         scherrer_fwhm = _scherrer(volumes, two_theta, beam.wavelength)
 
         peaks = torch.cat(
diff --git a/xrd_simulator/scattering_factors.py b/xrd_simulator/scattering_factors.py
index 49b0df6..511b8a2 100644
--- a/xrd_simulator/scattering_factors.py
+++ b/xrd_simulator/scattering_factors.py
@@ -46,12 +46,13 @@ def _lorentz(
     # Normalize k for dot product calculation
     k_norm_sq = torch.linalg.norm(k_in) ** 2
     k_kp_norm = torch.matmul(k_in, kp.T) / k_norm_sq
-    theta = torch.arccos(k_kp_norm) / 2.0
+    theta = torch.arccos(k_kp_norm.clamp(-1.0, 1.0)) / 2.0
 
     # Calculate korthogonal same way as in old version
     korthogonal = kp - k_in.reshape(1, 3) * (k_kp_norm.reshape(-1, 1))
     korth_norm = torch.linalg.norm(korthogonal, dim=1)
-    eta = torch.arccos(torch.matmul(rot_axis, korthogonal.T) / korth_norm)
+    cos_eta = torch.matmul(rot_axis, korthogonal.T) / korth_norm
+    eta = torch.arccos(cos_eta.clamp(-1.0, 1.0))
 
     # Apply tolerance conditions
     tol = 0.5
-- 
2.43.0


From 96748c00387cdfb7ad88f11eca766a7d79b43971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:09 +0000
Subject: [PATCH 26/36] fix: meshes of level sets do not fill closed cavities

---
 xrd_simulator/mesh.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/xrd_simulator/mesh.py b/xrd_simulator/mesh.py
index 6207df5..fcb6282 100644
--- a/xrd_simulator/mesh.py
+++ b/xrd_simulator/mesh.py
@@ -210,6 +210,21 @@ class TetraMesh(object):
                 "This may indicate an issue with the surface topology."
             )
         
+        # All regions that the surface encloses are meshed, also closed cavities, which lie on the
+        # same side of the level set as the corners of the bounding box.
+        regions = np.array(mesh.element_attributes)
+        if len(np.unique(regions)) > 1:
+            nodes = vertices[elements]
+            sizes = np.abs(np.linalg.det(nodes[:, 1:] - nodes[:, :1]))
+            sides = np.sign([level_set(p) for p in nodes.mean(axis=1)])
+            solid = np.zeros(len(elements), dtype=bool)
+            for region in np.unique(regions):
+                inside = regions == region
+                side = np.sum(sides[inside] * sizes[inside])
+                solid[inside] = side * volume[0, 0, 0] <= 0
+            used, elements = np.unique(elements[solid], return_inverse=True)
+            vertices, elements = vertices[used], elements.reshape(-1, 4)
+
         mesh_obj = meshio.Mesh(vertices, [("tetra", elements)])
         
         return cls._build_tetramesh(mesh_obj)
-- 
2.43.0


From 2b5b58d2ffea5f7a9eff1dc7d761e3b175a2cbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:59 +0000
Subject: [PATCH 27/36] fix: meshing ends for level sets with a surface through
 the sampling points

---
 xrd_simulator/mesh.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/mesh.py b/xrd_simulator/mesh.py
index fcb6282..5f1ebe2 100644
--- a/xrd_simulator/mesh.py
+++ b/xrd_simulator/mesh.py
@@ -151,7 +151,14 @@ class TetraMesh(object):
         points_grid = np.column_stack([X.ravel(), Y.ravel(), Z.ravel()])
         values = np.array([level_set(p) for p in points_grid], dtype=np.float64)
         volume = values.reshape(X.shape)
-        
+
+        # Grid points that are (almost) on the surface would give surface triangles with edges of
+        # (almost) no length, which the quality mesher resolves with a huge number of elements, or
+        # never ends on. Keep the surface some distance from them.
+        smallest = 0.05 * np.max(np.abs(np.gradient(volume)), axis=0)
+        close_by = np.abs(volume) < smallest
+        volume[close_by] = np.where(volume[close_by] < 0, -1, 1) * smallest[close_by]
+
         # Extract the surface mesh using marching cubes at level=0
         # Note: marching_cubes extracts the surface where volume == level
         try:
-- 
2.43.0


From e81b95581202d94bce179daccd248a4aa3edcabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:27 +0000
Subject: [PATCH 28/36] fix: peaks can be rendered after the sample or beam
 have been moved on

---
 xrd_simulator/polycrystal.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 5d1e549..4e0f052 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -222,10 +222,11 @@ class Polycrystal:
             "incident_vector": beam.wave_vector,
             "wavelength": beam.wavelength,
             "rotation_axis": rigid_body_motion.rotation_axis,
-            # Store mesh and motion data for on-demand hull computation
-            "mesh_lab": self.mesh_lab,
-            "rigid_body_motion": rigid_body_motion,
-            "beam": beam,
+            # Store mesh and motion data for on-demand hull computation. These are copies, such that
+            # the peaks can be rendered after the sample, or the beam, have been moved on.
+            "mesh_lab": copy.deepcopy(self.mesh_lab),
+            "rigid_body_motion": copy.deepcopy(rigid_body_motion),
+            "beam": copy.deepcopy(beam),
             "verbose": verbose,
         }
 
-- 
2.43.0


From e74c9da6cb68c64f5da2b2e4705664da438093bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 29/36] fix: saving a polycrystal with grains rotated about the
 z-axis does not raise

---
 xrd_simulator/polycrystal.py |  2 +-
 xrd_simulator/utils.py       | 26 ++++++++++++++++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 4e0f052..8f2df80 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -478,7 +478,7 @@ class Polycrystal:
             for U, misorientation in zip(self.orientation_sample, misorientations):
                 # Convert tensor to numpy for xfab tools
                 U_np = ensure_numpy(U)
-                phi_1, PHI, phi_2 = tools.u_to_euler(U_np)
+                phi_1, PHI, phi_2 = utils._u_to_euler(U_np)
                 element_data["Bunge Euler Angle phi_1 [degrees]"].append(
                     np.degrees(phi_1)
                 )
diff --git a/xrd_simulator/utils.py b/xrd_simulator/utils.py
index dca1f60..7a43d68 100644
--- a/xrd_simulator/utils.py
+++ b/xrd_simulator/utils.py
@@ -362,6 +362,32 @@ def _b_to_epsilon(B_matrix, B0):
     return _strain_as_vector(strain_tensor)
 
 
+def _u_to_euler(U):
+    """Euler angles in Bunge notation of an orientation, as :func:`xfab.tools.u_to_euler`.
+
+    The latter fails for rotations about the z-axis that are subject to rounding errors.
+
+    Parameters
+    ----------
+    U : numpy.ndarray
+        Orientation matrix, shape ``(3, 3)``.
+
+    Returns
+    -------
+    numpy.ndarray
+        ``[phi_1, PHI, phi_2]`` in radians and the range [0, 2*pi]. At Gimbal lock ``phi_2`` is 0.
+    """
+    sin_PHI = np.hypot(U[0, 2], U[1, 2])
+    PHI = np.arctan2(sin_PHI, U[2, 2])
+    if sin_PHI < 1e-7:
+        phi_1 = np.arctan2(-np.sign(U[2, 2]) * U[0, 1], U[0, 0])
+        phi_2 = 0.0
+    else:
+        phi_1 = np.arctan2(U[0, 2], -U[1, 2])
+        phi_2 = np.arctan2(U[2, 0], U[2, 1])
+    return np.array([phi_1 % (2 * np.pi), PHI, phi_2 % (2 * np.pi)])
+
+
 def _get_misorientations(orientations):
     """Compute minimal angles to rotate SO3 elements to their mean orientation.
 
-- 
2.43.0


From 435368afb7d24b713e6264779e24386c33ab5f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:06 +0000
Subject: [PATCH 30/36] fix: macro rendering leaves out the part of a grain
 that is beside the detector

---
 xrd_simulator/detector.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index dc63f8d..8203c76 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1624,7 +1624,7 @@ class Detector:
         torch.Tensor
             Array of projected fractional contribution to each detector pixel
             in the box. The sum total contribution is proportional to the
-            volume of the convex hull.
+            volume of (the part on the detector of) the convex hull.
         """
 
         # ConvexHull from scipy returns numpy, convert to torch
@@ -1641,7 +1641,16 @@ class Detector:
         scattered_vec = proj_context["scattered_wave_vector"]
         ray_direction = scattered_vec / torch.linalg.norm(scattered_vec)
 
-        if n_pixels_in_box == 1:
+        # The part of the tetra that is projected beside the detector is not recorded
+        vertices = ensure_torch(hull.points[hull.vertices])
+        projected_vertices = self._get_intersection(
+            ray_direction.unsqueeze(0).repeat(vertices.shape[0], 1), vertices
+        )
+        on_detector = torch.all(
+            self.contains(projected_vertices[:, 0], projected_vertices[:, 1])
+        )
+
+        if n_pixels_in_box == 1 and on_detector:
             # tetra is fully contained in a detector pixel, use the volume of the tetra as intensity
             return torch.ones(1, 1) * proj_context["convex_hull"].volume
 
@@ -1655,6 +1664,13 @@ class Detector:
                 ray_points, ray_direction, plane_points, plane_normals
             )
 
+            if clip_lengths.sum() > 0 and not on_detector:
+                # volume of the material in front of each pixel
+                pixel_area = self.pixel_size_z * self.pixel_size_y
+                clip_lengths *= pixel_area * torch.abs(torch.matmul(ray_direction, self.normal))
+                clip_lengths *= torch.clamp(hull.volume / clip_lengths.sum(), max=1.0)
+                return clip_lengths.reshape(box[1] - box[0], box[3] - box[2])
+
             if clip_lengths.sum() > 0:
                 # ensure that scattering is proportional to the material volume
                 # that is scattering.
-- 
2.43.0


From 3adc8ae4c3f6faaa5f2241e50ae38176dd4821cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:06 +0000
Subject: [PATCH 31/36] fix: peaks of very small crystals are centred where
 their ray meets the detector

---
 xrd_simulator/detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 8203c76..2cab05f 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1230,7 +1230,8 @@ class Detector:
         # Airy pattern decays as 1/x^3 in the tails, so we need larger extent
         # for small crystallites (broad patterns)
         # Use ~4 times the first zero to capture sufficient rings
-        radius = torch.tensor(max(4.0 * float(max_first_zero), 8.0))
+        # (a whole number of pixels, such that the kernel is centred on a pixel)
+        radius = torch.tensor(max(4.0 * float(max_first_zero), 8.0)).ceil()
 
         # Ensure we also capture Gaussian tails (cap at 128 pixels)
         max_airy_radius = 128
-- 
2.43.0


From e87275fc3063b1c3e78c4dfcba0c32f86606f65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:03 +0000
Subject: [PATCH 32/36] fix: small grains are shared between pixels by their
 volume in macro rendering

---
 xrd_simulator/detector.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 2cab05f..7dfcc7a 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1693,10 +1693,7 @@ class Detector:
             ray_points.reshape(n_samples, 3)
             ray_points = ensure_torch(ray_points)
 
-            clip_lengths = utils._clip_line_with_convex_polyhedron(
-                ray_points, ray_direction, plane_points, plane_normals
-            )
-            # now map the clip lengths to the detector pixels
+            # now map the samples to the detector pixels
             ray_directions = torch.tile(ray_direction, (n_samples, 1))
             out = self._get_intersection(ray_directions, ray_points)
             zd = out[:, 0]
@@ -1710,10 +1707,11 @@ class Detector:
             hits = (row_index >= 0) & (row_index < shape[0])
             hits &= (col_index >= 0) & (col_index < shape[1])
 
-            weights = ensure_numpy(clip_lengths)
-            if weights.sum() == 0:  # the hull is too thin to resolve the path lengths
-                weights = np.ones(n_samples)
-            weights = weights / weights.sum() * proj_context["convex_hull"].volume
+            # The samples are uniform in the volume of the hull, such that each of them
+            # stands for an equal share of it.
+            weights = np.full(
+                n_samples, proj_context["convex_hull"].volume / n_samples
+            )
 
             box_intensities = np.zeros(shape)
             np.add.at(
-- 
2.43.0


From 393f0226418f70af75a8e1a721a50450164d6a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 33/36] fix: Beam.set_beam_vertices takes arrays and lists like
 the constructor

---
 xrd_simulator/beam.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xrd_simulator/beam.py b/xrd_simulator/beam.py
index 58ce5b2..ab09651 100644
--- a/xrd_simulator/beam.py
+++ b/xrd_simulator/beam.py
@@ -92,6 +92,7 @@ class Beam:
         beam_vertices : torch.Tensor
             Vertices of the X-ray beam in units of microns, shape ``(N, 3)``.
         """
+        beam_vertices = ensure_torch(beam_vertices)
         ch = ConvexHull(beam_vertices.cpu().numpy())
         assert ch.points.shape[0] == ch.vertices.shape[0], (
             "The provided beam vertices does not form a convex hull"
-- 
2.43.0


From 7b4f95f94196256a38613275819105f100bba2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:28 +0000
Subject: [PATCH 34/36] fix: Polycrystal refuses a phase map that does not fit
 its mesh and phases

---
 xrd_simulator/polycrystal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 8f2df80..92b9033 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -628,6 +628,10 @@ class Polycrystal:
             element_phase_map = ensure_torch(np.zeros((mesh.number_of_elements,)))
         else:
             element_phase_map = ensure_torch(element_phase_map)
+        if element_phase_map.shape[:1] != (mesh.number_of_elements,):
+            raise ValueError("element_phase_map input is of incompatible shape")
+        if not torch.all(torch.isin(element_phase_map, torch.arange(len(phases)))):
+            raise ValueError("element_phase_map refers to phases that are not given")
         return element_phase_map, phases
 
     def _instantiate_eB(
-- 
2.43.0


From c5105ec61b608cbd61efd20faf22d1360b77e3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:28 +0000
Subject: [PATCH 35/36] fix: ensure_torch takes reversed numpy views

---
 xrd_simulator/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xrd_simulator/utils.py b/xrd_simulator/utils.py
index 7a43d68..8edffa7 100644
--- a/xrd_simulator/utils.py
+++ b/xrd_simulator/utils.py
@@ -612,6 +612,8 @@ def ensure_torch(
         dtype = torch.float64
 
     if isinstance(data, np.ndarray):
+        if any(stride < 0 for stride in data.strides):  # not supported by torch
+            data = data.copy()
         return torch.from_numpy(data).to(device=device, dtype=dtype)
     elif torch.is_tensor(data):
         return data.to(device=device, dtype=dtype)
-- 
2.43.0


From a03308fe0eae7356c2d9d97cc8e8cd52f0713f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:07 +0000
Subject: [PATCH 36/36] fix: path length of a single ray passed a batched
 direction and raised

---
 xrd_simulator/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 7dfcc7a..2a44776 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1925,7 +1925,7 @@ class Detector:
 
         # Convert to torch for utility function
         ray_point_torch = ensure_torch(ray_point).unsqueeze(0)  # (1, 3)
-        ray_direction_torch = ensure_torch(ray_direction).unsqueeze(0)  # (1, 3)
+        ray_direction_torch = ensure_torch(ray_direction)  # (3,)
         plane_points_torch = ensure_torch(plane_points)
         plane_normals_torch = ensure_torch(plane_normals)
 
-- 
2.43.0

