From 2000b37013ea20081795f8fc7517bbe654a55df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 01/92] fix: shorter_than fails when every trajectory is long
 enough

---
 src/py_eddy_tracker/tracking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index b64b6fc..fb507ab 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -612,6 +612,7 @@ class Correspondances(list):
     def shorter_than(self, size_max):
         """Remove from correspondance table all association for longer eddies than size_max"""
         # Identify eddies longer than
+        nb_tracks = self.nb_obs_by_tracks.shape[0]
         i_keep_track = where(self.nb_obs_by_tracks < size_max)[0]
         # Reduce array
         self.nb_obs_by_tracks = self.nb_obs_by_tracks[i_keep_track]
@@ -621,7 +622,7 @@ class Correspondances(list):
         self.nb_obs = self.nb_obs_by_tracks.sum()
         # Give the last id used
         self.current_id = self.nb_obs_by_tracks.shape[0]
-        translate = empty(i_keep_track.max() + 1, dtype="u4")
+        translate = empty(nb_tracks, dtype="u4")
         translate[i_keep_track] = arange(self.current_id)
         for i, correspondance in enumerate(self):
             m_keep = isin(correspondance["id"], i_keep_track)
-- 
2.43.0


From fa94fcabc924b5fe1db7d6567ffb98ba9e482470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:17 +0000
Subject: [PATCH 02/92] fix: empty copies of observations keep the rotation
 type

---
 src/py_eddy_tracker/observations/observation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index b39f7f8..beebc9a 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -707,7 +707,7 @@ class EddiesObservations(object):
 
     @classmethod
     def new_like(cls, eddies, new_size: int):
-        return cls(
+        new = cls(
             new_size,
             track_extra_variables=eddies.track_extra_variables,
             track_array_variables=eddies.track_array_variables,
@@ -715,6 +715,8 @@ class EddiesObservations(object):
             only_variables=eddies.only_variables,
             raw_data=eddies.raw_data,
         )
+        new.sign_type = eddies.sign_type
+        return new
 
     def index(self, index, reverse=False):
         """Return obs from self at the index."""
-- 
2.43.0


From 845ac7c0ae1aaabc6f8ed6cf9afe32e6a92dec3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:17 +0000
Subject: [PATCH 03/92] fix: correspondences with virtual observations are
 saved and resumed after few files

---
 src/py_eddy_tracker/tracking.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index fb507ab..5392b19 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -344,11 +344,14 @@ class Correspondances(list):
             flg_virtual = self.previous_correspondance.virtual
             with Dataset(self.filename_previous_correspondance) as general_handler:
                 self.current_id = general_handler.last_current_id
+                # A short tracking could be stopped before to have virtual obs
+                flg_virtual = flg_virtual and "LastVirtualObs" in general_handler.groups
                 if flg_virtual:
                     # Load last virtual obs
                     self.virtual_obs = VirtualEddiesObservations.from_netcdf(
                         general_handler.groups["LastVirtualObs"]
                     )
+                if flg_virtual and "LastPreviousVirtualObs" in general_handler.groups:
                     self.previous_virtual_obs = VirtualEddiesObservations.from_netcdf(
                         general_handler.groups["LastPreviousVirtualObs"]
                     )
@@ -480,6 +483,8 @@ class Correspondances(list):
         if self.virtual_obs is not None:
             group = handler.createGroup("LastVirtualObs")
             self.virtual_obs.to_netcdf(group)
+        # Only after four datasets
+        if self.previous_virtual_obs is not None:
             group = handler.createGroup("LastPreviousVirtualObs")
             self.previous_virtual_obs.to_netcdf(group)
         handler.module = self.class_method.__module__
-- 
2.43.0


From f216d5cec7691bb05c9b28fec0ac501b09a4557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:49 +0000
Subject: [PATCH 04/92] fix: correspondence files keep the names of tracked
 files

---
 src/py_eddy_tracker/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 5392b19..3c6c7b8 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -430,7 +430,7 @@ class Correspondances(list):
         )
 
         def get_filename(dataset):
-            if not isinstance(dataset, str) or not isinstance(dataset, bytes):
+            if not isinstance(dataset, (str, bytes)):
                 return "In memory file"
             return dataset
 
-- 
2.43.0


From fb0064a21aee012aad77f1c1bc1376be1546dbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 05/92] fix: correspondence files with a step without
 association are loadable

---
 src/py_eddy_tracker/tracking.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 3c6c7b8..1523853 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -557,7 +557,9 @@ class Correspondances(list):
                 if name == "virtual_length":
                     correspondance[name] = 255
                 correspondance[name] = datas[name][i, :nb_elt]
-            id_max = max(id_max, correspondance["id"].max())
+            # A step could have no association
+            if nb_elt != 0:
+                id_max = max(id_max, correspondance["id"].max())
             obj.append(correspondance)
         obj.current_id = id_max + 1
         return obj
-- 
2.43.0


From 97c1595236c80fd98839fec7177b89d1e936ff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:16 +0000
Subject: [PATCH 06/92] fix: Chelton tracker accepts a file without eddy

---
 src/py_eddy_tracker/observations/observation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index beebc9a..1613be5 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -1468,6 +1468,8 @@ class EddiesObservations(object):
     @staticmethod
     def solve_first(cost, multiple_link=False):
         mask = ~cost.mask
+        if mask.size == 0:
+            return mask
         # Count number of links by self obs and other obs
         self_links = mask.sum(axis=1)
         other_links = mask.sum(axis=0)
-- 
2.43.0


From 20f69c9f5da6822ea5dad5e29d99f43c0e0d3c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:01 +0000
Subject: [PATCH 07/92] fix: extremum of a plateau is one of its pixels

---
 src/py_eddy_tracker/eddy_feature.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/eddy_feature.py b/src/py_eddy_tracker/eddy_feature.py
index 8bc139a..4486545 100644
--- a/src/py_eddy_tracker/eddy_feature.py
+++ b/src/py_eddy_tracker/eddy_feature.py
@@ -279,8 +279,16 @@ def detect_local_minima_(grid, general_mask, pixel_mask, maximum_local_extremum,
             x_mean /= nb
             y_mean /= nb
 
-            xs_new.append(numba_types.int32(round(x_mean)))
-            ys_new.append(numba_types.int32(round(y_mean)))
+            # Barycentre could be out of the group, so we take the nearest extremum
+            x_mean, y_mean = round(x_mean), round(y_mean)
+            d_min, i_min = 1e30, 0
+            for i in range(nb_extrema):
+                if gr_ == gr[i]:
+                    d = (xs[i] - x_mean) ** 2 + (ys[i] - y_mean) ** 2
+                    if d < d_min:
+                        d_min, i_min = d, i
+            xs_new.append(xs[i_min])
+            ys_new.append(ys[i_min])
         return xs_new, ys_new
     return xs, ys
 
-- 
2.43.0


From 7edb5acaad45abf121e57dab5e5920cd5f427b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 08/92] fix: global grids are recognised whatever the rounding
 of longitudes

---
 src/py_eddy_tracker/dataset/grid.py | 15 +++++++--------
 src/py_eddy_tracker/generic.py      | 17 +++++++++++++++--
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index edb96ba..2c1457f 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -57,6 +57,7 @@ from ..generic import (
     coordinates_to_local,
     distance,
     interp2d_geo,
+    is_circular_axis,
     local_to_coordinates,
     nearest_grd_indice,
     uniform_resample,
@@ -1330,9 +1331,7 @@ class RegularGridDataset(GridDataset):
     def is_circular(self):
         """Check if the grid is circular"""
         if self._is_circular is None:
-            self._is_circular = (
-                abs((self.x_bounds[0] % 360) - (self.x_bounds[-1] % 360)) < 0.0001
-            )
+            self._is_circular = is_circular_axis(self.x_bounds[0], self.x_bounds[-1])
         return self._is_circular
 
     @staticmethod
@@ -2110,7 +2109,7 @@ def advect_rk4(x_g, y_g, u_g, v_g, m_g, x, y, m, nb_step):
     # Grid coordinates
     x_ref, y_ref = x_g[0], y_g[0]
     x_step, y_step = x_g[1] - x_ref, y_g[1] - y_ref
-    is_circular = abs(x_g[-1] % 360 - (x_g[0] - x_step) % 360) < 1e-5
+    is_circular = is_circular_axis(x_g[0] - x_step, x_g[-1])
     nb_x_ = x_g.size
     nb_x = nb_x_ if is_circular else 0
     # cache
@@ -2213,7 +2212,7 @@ def advect(x_g, y_g, u_g, v_g, m_g, x, y, m, nb_step):
     # Grid coordinates
     x_ref, y_ref = x_g[0], y_g[0]
     x_step, y_step = x_g[1] - x_ref, y_g[1] - y_ref
-    is_circular = abs(x_g[-1] % 360 - (x_g[0] - x_step) % 360) < 1e-5
+    is_circular = is_circular_axis(x_g[0] - x_step, x_g[-1])
     nb_x_ = x_g.size
     nb_x = nb_x_ if is_circular else 0
     # Indexes which should be never exist
@@ -2640,7 +2639,7 @@ def advect_t(x_g, y_g, u_g0, v_g0, m_g0, u_g1, v_g1, m_g1, x, y, m, weigths, hal
     # Grid coordinates
     x_ref, y_ref = x_g[0], y_g[0]
     x_step, y_step = x_g[1] - x_ref, y_g[1] - y_ref
-    is_circular = abs(x_g[-1] % 360 - (x_g[0] - x_step) % 360) < 1e-5
+    is_circular = is_circular_axis(x_g[0] - x_step, x_g[-1])
     nb_x_ = x_g.size
     nb_x = nb_x_ if is_circular else 0
     # Indexes that should never exist
@@ -2771,7 +2770,7 @@ def advect_t_rk4(
     # Grid coordinates
     x_ref, y_ref = x_g[0], y_g[0]
     x_step, y_step = x_g[1] - x_ref, y_g[1] - y_ref
-    is_circular = abs(x_g[-1] % 360 - (x_g[0] - x_step) % 360) < 1e-5
+    is_circular = is_circular_axis(x_g[0] - x_step, x_g[-1])
     nb_x_ = x_g.size
     nb_x = nb_x_ if is_circular else 0
     # cache
@@ -2940,7 +2939,7 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
         is_circular = False
     else:
         # Test if matrix is circular
-        is_circular = abs(x[-1] % 360 - (x[0] - d_step) % 360) < 1e-5
+        is_circular = is_circular_axis(x[0] - d_step, x[-1])
 
     # Compute caracteristic distance, constant when vertical
     d_ = 360 / (d_step * pi * 2 * earth_radius)
diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 612def6..ab958d5 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -201,6 +201,19 @@ def interp2d_geo(x_g, y_g, z_g, m_g, x, y, nearest=False):
         return interp2d_bilinear(x_g, y_g, z_g, m_g, x, y)
 
 
+@njit(cache=True)
+def is_circular_axis(x_west, x_east):
+    """
+    Check if two longitudes are the same modulo 360, whatever the rounding errors
+
+    :param float x_west: longitude of western edge
+    :param float x_east: longitude of eastern edge
+    :return: True if circular
+    :rtype: bool
+    """
+    return abs((x_east - x_west + 180) % 360 - 180) < 1e-4
+
+
 @njit(cache=True, fastmath=True)
 def interp2d_nearest(x_g, y_g, z_g, x, y):
     """
@@ -220,7 +233,7 @@ def interp2d_nearest(x_g, y_g, z_g, x, y):
     y_step = y_g[1] - y_ref
     nb_x = x_g.shape[0]
     nb_y = y_g.shape[0]
-    is_circular = abs(x_g[-1] % 360 - (x_g[0] - x_step) % 360) < 1e-5
+    is_circular = is_circular_axis(x_g[0] - x_step, x_g[-1])
     z = empty(x.shape, dtype=z_g.dtype)
     for i in prange(x.size):
         i0 = int(round((x[i] - x_ref) / x_step))
@@ -254,7 +267,7 @@ def interp2d_bilinear(x_g, y_g, z_g, m_g, x, y):
     y_step = y_g[1] - y_ref
     nb_x = x_g.shape[0]
     nb_y = y_g.shape[0]
-    is_circular = abs(x_g[-1] % 360 - (x_g[0] - x_step) % 360) < 1e-5
+    is_circular = is_circular_axis(x_g[0] - x_step, x_g[-1])
     # Indexes that should never exist
     i0_old, j0_old, masked = -100000000, -10000000, False
     z = empty(x.shape, dtype=z_g.dtype)
-- 
2.43.0


From aa7bb478167802d5791a1762595eb81320280895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 09/92] fix: interpolation and advection follow the grid in
 single precision

---
 src/py_eddy_tracker/dataset/grid.py |  9 +++++----
 src/py_eddy_tracker/generic.py      | 20 ++++++++++++++++----
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 2c1457f..cd429dc 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -59,6 +59,7 @@ from ..generic import (
     interp2d_geo,
     is_circular_axis,
     local_to_coordinates,
+    mean_step,
     nearest_grd_indice,
     uniform_resample,
 )
@@ -2108,7 +2109,7 @@ class RegularGridDataset(GridDataset):
 def advect_rk4(x_g, y_g, u_g, v_g, m_g, x, y, m, nb_step):
     # Grid coordinates
     x_ref, y_ref = x_g[0], y_g[0]
-    x_step, y_step = x_g[1] - x_ref, y_g[1] - y_ref
+    x_step, y_step = mean_step(x_g), mean_step(y_g)
     is_circular = is_circular_axis(x_g[0] - x_step, x_g[-1])
     nb_x_ = x_g.size
     nb_x = nb_x_ if is_circular else 0
@@ -2211,7 +2212,7 @@ def advect_rk4(x_g, y_g, u_g, v_g, m_g, x, y, m, nb_step):
 def advect(x_g, y_g, u_g, v_g, m_g, x, y, m, nb_step):
     # Grid coordinates
     x_ref, y_ref = x_g[0], y_g[0]
-    x_step, y_step = x_g[1] - x_ref, y_g[1] - y_ref
+    x_step, y_step = mean_step(x_g), mean_step(y_g)
     is_circular = is_circular_axis(x_g[0] - x_step, x_g[-1])
     nb_x_ = x_g.size
     nb_x = nb_x_ if is_circular else 0
@@ -2638,7 +2639,7 @@ class GridCollection:
 def advect_t(x_g, y_g, u_g0, v_g0, m_g0, u_g1, v_g1, m_g1, x, y, m, weigths, half_w=0):
     # Grid coordinates
     x_ref, y_ref = x_g[0], y_g[0]
-    x_step, y_step = x_g[1] - x_ref, y_g[1] - y_ref
+    x_step, y_step = mean_step(x_g), mean_step(y_g)
     is_circular = is_circular_axis(x_g[0] - x_step, x_g[-1])
     nb_x_ = x_g.size
     nb_x = nb_x_ if is_circular else 0
@@ -2769,7 +2770,7 @@ def advect_t_rk4(
 ):
     # Grid coordinates
     x_ref, y_ref = x_g[0], y_g[0]
-    x_step, y_step = x_g[1] - x_ref, y_g[1] - y_ref
+    x_step, y_step = mean_step(x_g), mean_step(y_g)
     is_circular = is_circular_axis(x_g[0] - x_step, x_g[-1])
     nb_x_ = x_g.size
     nb_x = nb_x_ if is_circular else 0
diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index ab958d5..c58d2ad 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -214,6 +214,18 @@ def is_circular_axis(x_west, x_east):
     return abs((x_east - x_west + 180) % 360 - 180) < 1e-4
 
 
+@njit(cache=True)
+def mean_step(x_g):
+    """
+    Step of a regular axis, insensitive to the rounding of each coordinate
+
+    :param array x_g: coordinates of grid
+    :return: step
+    :rtype: float
+    """
+    return (x_g[-1] - x_g[0]) / (x_g.size - 1)
+
+
 @njit(cache=True, fastmath=True)
 def interp2d_nearest(x_g, y_g, z_g, x, y):
     """
@@ -229,8 +241,8 @@ def interp2d_nearest(x_g, y_g, z_g, x, y):
     """
     x_ref = x_g[0]
     y_ref = y_g[0]
-    x_step = x_g[1] - x_ref
-    y_step = y_g[1] - y_ref
+    x_step = mean_step(x_g)
+    y_step = mean_step(y_g)
     nb_x = x_g.shape[0]
     nb_y = y_g.shape[0]
     is_circular = is_circular_axis(x_g[0] - x_step, x_g[-1])
@@ -263,8 +275,8 @@ def interp2d_bilinear(x_g, y_g, z_g, m_g, x, y):
     """
     x_ref = x_g[0]
     y_ref = y_g[0]
-    x_step = x_g[1] - x_ref
-    y_step = y_g[1] - y_ref
+    x_step = mean_step(x_g)
+    y_step = mean_step(y_g)
     nb_x = x_g.shape[0]
     nb_y = y_g.shape[0]
     is_circular = is_circular_axis(x_g[0] - x_step, x_g[-1])
-- 
2.43.0


From bfd01846d8143db09649f79464af9137a1792333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:52 +0000
Subject: [PATCH 10/92] fix: nearest interpolation leaves out masked values

---
 src/py_eddy_tracker/generic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index c58d2ad..c5df19b 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -196,7 +196,7 @@ def interp2d_geo(x_g, y_g, z_g, m_g, x, y, nearest=False):
     :rtype: array
     """
     if nearest:
-        return interp2d_nearest(x_g, y_g, z_g, x, y)
+        return interp2d_nearest(x_g, y_g, z_g, m_g, x, y)
     else:
         return interp2d_bilinear(x_g, y_g, z_g, m_g, x, y)
 
@@ -227,13 +227,14 @@ def mean_step(x_g):
 
 
 @njit(cache=True, fastmath=True)
-def interp2d_nearest(x_g, y_g, z_g, x, y):
+def interp2d_nearest(x_g, y_g, z_g, m_g, x, y):
     """
     Nearest interpolation with wrapping if circular
 
     :param array x_g: coordinates of grid
     :param array y_g: coordinates of grid
     :param array z_g: Grid value
+    :param array m_g: Boolean grid, True if value is masked
     :param array x: coordinate where interpolate z
     :param array y: coordinate where interpolate z
     :return: z interpolated
@@ -252,7 +253,7 @@ def interp2d_nearest(x_g, y_g, z_g, x, y):
         j0 = int(round((y[i] - y_ref) / y_step))
         if is_circular:
             i0 %= nb_x
-        if i0 >= nb_x or i0 < 0 or j0 < 0 or j0 >= nb_y:
+        if i0 >= nb_x or i0 < 0 or j0 < 0 or j0 >= nb_y or m_g[i0, j0]:
             z[i] = nan
             continue
         z[i] = z_g[i0, j0]
-- 
2.43.0


From 16c3463d19431522864a0acbd00b241bee173ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 11/92] fix: nearest interpolation at an undefined position is
 undefined on a global grid

---
 src/py_eddy_tracker/generic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index c5df19b..aef82fb 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -180,7 +180,7 @@ def cumsum_by_track(field, track):
     return cumsum_array
 
 
-@njit(cache=True, fastmath=True)
+@njit(cache=True)
 def interp2d_geo(x_g, y_g, z_g, m_g, x, y, nearest=False):
     """
     For geographic grid, test of cicularity.
@@ -226,7 +226,7 @@ def mean_step(x_g):
     return (x_g[-1] - x_g[0]) / (x_g.size - 1)
 
 
-@njit(cache=True, fastmath=True)
+@njit(cache=True)
 def interp2d_nearest(x_g, y_g, z_g, m_g, x, y):
     """
     Nearest interpolation with wrapping if circular
@@ -249,6 +249,9 @@ def interp2d_nearest(x_g, y_g, z_g, m_g, x, y):
     is_circular = is_circular_axis(x_g[0] - x_step, x_g[-1])
     z = empty(x.shape, dtype=z_g.dtype)
     for i in prange(x.size):
+        if isnan(x[i]) or isnan(y[i]):
+            z[i] = nan
+            continue
         i0 = int(round((x[i] - x_ref) / x_step))
         j0 = int(round((y[i] - y_ref) / y_step))
         if is_circular:
-- 
2.43.0


From 8708aa12a98a0a37d81267cc9579fd68dce1aec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 12/92] fix: grids loaded from files without undefined value
 have a mask

---
 src/py_eddy_tracker/dataset/grid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index cd429dc..93dd28a 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -565,6 +565,9 @@ class GridDataset(object):
                     self.vars[varname],
                     mask=zeros(self.vars[varname].shape, dtype="bool"),
                 )
+            elif len(self.vars[varname].mask.shape) == 0:
+                # Without missing value in file mask is a scalar
+                self.vars[varname].mask = self.get_mask(self.vars[varname])
         return self.vars[varname]
 
     def grid_tiles(self, varname, slice_x, slice_y):
-- 
2.43.0


From 8469dfe5d0eb6c0d0fcf09bb1bde5796fdc6da81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 13/92] fix: currents near borders and isolated pixels only use
 defined heights

---
 src/py_eddy_tracker/dataset/grid.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 93dd28a..ba63bb4 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2953,7 +2953,8 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
             h_3, h_2, h_1, h0 = h[-4, j], h[-3, j], h[-2, j], h[-1, j]
             m_3, m_2, m_1, m0 = m[-4, j], m[-3, j], m[-2, j], m[-1, j]
         else:
-            m_3, m_2, m_1, m0 = False, False, False, False
+            # Out of grid is like not defined
+            m_3, m_2, m_1, m0 = True, True, True, True
         h1, h2, h3, h4 = h[0, j], h[1, j], h[2, j], h[3, j]
         m1, m2, m3, m4 = m[0, j], m[1, j], m[2, j], m[3, j]
         for i in range(nb_x):
@@ -2968,7 +2969,7 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
                     h4 = h[i_, j]
                 else:
                     # When we are out
-                    m4 = False
+                    m4 = True
             else:
                 m4 = m[i_, j]
                 h4 = h[i_, j]
@@ -2980,6 +2981,10 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
             if not vertical:
                 # For each row we compute distance
                 d_ = 360 / (d_step * cos(deg2rad(y[j])) * pi * 2 * earth_radius)
+            # No neighbour defined
+            if m1 and m_1:
+                m_out[i, j] = True
+                continue
             if m1 ^ m_1:
                 # unbalanced kernel
                 if m_1:
-- 
2.43.0


From a191c8c2eb33b5579a66b7b7a58f220a058d0d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 14/92] fix: particles are lost when they leave a regional grid
 by its southern side

---
 src/py_eddy_tracker/dataset/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index ba63bb4..8ffa6f1 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2710,7 +2710,7 @@ def get_uv_quad(i0, j0, u, v, m, nb_x=0):
         i1 %= nb_x
     i_max, j_max = m.shape
 
-    if i1 >= i_max or j1 >= j_max:
+    if i0 < 0 or j0 < 0 or i1 >= i_max or j1 >= j_max:
         return True, nan, nan, nan, nan, nan, nan, nan, nan
 
     if m[i0, j0] or m[i0, j1] or m[i1, j0] or m[i1, j1]:
-- 
2.43.0


From bd034609a54d948d061f0f6e8c85ddf603991281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 15/92] fix: advection which starts between two dates uses the
 fields of these dates

---
 src/py_eddy_tracker/dataset/grid.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 8ffa6f1..d31b739 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2599,7 +2599,8 @@ class GridCollection:
 
     def get_next_time_step(self, t_init):
         for i, (t, dataset) in enumerate(self.datasets):
-            if t < t_init:
+            # First step is the last one before (or at) t_init
+            if i + 1 < len(self.datasets) and self.datasets[i + 1][0] <= t_init:
                 continue
             dataset.populate()
             logger.debug(f"i={i}, t={t}, dataset={dataset}")
@@ -2609,7 +2610,8 @@ class GridCollection:
         i = len(self.datasets)
         for t, dataset in reversed(self.datasets):
             i -= 1
-            if t > t_init:
+            # First step is the first one after (or at) t_init
+            if i > 0 and self.datasets[i - 1][0] >= t_init:
                 continue
             dataset.populate()
             logger.debug(f"i={i}, t={t}, dataset={dataset}")
-- 
2.43.0


From a1f0f86e39484254e0d3bb441f273d41538613f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 16/92] fix: steps of advection use fields of the two dates
 around them and stop at the last date

---
 src/py_eddy_tracker/dataset/grid.py | 84 ++++++++++++++++++-----------
 1 file changed, 54 insertions(+), 30 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index d31b739..0e8a612 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2500,14 +2500,27 @@ class GridCollection:
             f_x[filament_size::filament_size_] = nan
             f_y[filament_size::filament_size_] = nan
 
-            if (backward and t <= t1) or (not backward and t >= t1):
-                t0, u0, v0, m0 = t1, u1, v1, m1
-                t1, d1 = generator.__next__()
-                t1 = t1 * 86400
-                u1, v1, m1 = d1.uv_for_advection(u_name, v_name, time_step, **kw)
-            w = 1 - (arange(t, t + dt, t_step) - t0) / (t1 - t0)
-            half_w = t_step / 2.0 / (t1 - t0)
-            advect_(d0.x_c, d0.y_c, u0, v0, m0, u1, v1, m1, x, y, mp, w, half_w=half_w)
+            t_steps = t + arange(nb_step) * t_step
+            while t_steps.size:
+                if (backward and t_steps[0] <= t1) or (
+                    not backward and t_steps[0] >= t1
+                ):
+                    t0, u0, v0, m0 = t1, u1, v1, m1
+                    try:
+                        t1, d1 = generator.__next__()
+                    except StopIteration:
+                        return
+                    t1 = t1 * 86400
+                    u1, v1, m1 = d1.uv_for_advection(u_name, v_name, time_step, **kw)
+                    continue
+                # Steps between the two dates loaded
+                nb = (t_steps > t1 if backward else t_steps < t1).sum()
+                w = 1 - (t_steps[:nb] - t0) / (t1 - t0)
+                half_w = t_step / 2.0 / (t1 - t0)
+                advect_(
+                    d0.x_c, d0.y_c, u0, v0, m0, u1, v1, m1, x, y, mp, w, half_w=half_w
+                )
+                t_steps = t_steps[nb:]
             f_x[::filament_size_] = x
             f_y[::filament_size_] = y
             t += dt
@@ -2572,28 +2585,39 @@ class GridCollection:
             mask_particule += isnan(x) + isnan(y)
         while True:
             logger.debug(f"advect : t={t/86400}")
-            if (backward and t <= t1) or (not backward and t >= t1):
-                t0, u0, v0, m0 = t1, u1, v1, m1
-                t1, d1 = generator.__next__()
-                t1 = t1 * 86400
-                u1, v1, m1 = d1.uv_for_advection(time_step=time_step, **kw)
-            w = 1 - (arange(t, t + dt, t_step) - t0) / (t1 - t0)
-            half_w = t_step / 2.0 / (t1 - t0)
-            advect_(
-                d0.x_c,
-                d0.y_c,
-                u0,
-                v0,
-                m0,
-                u1,
-                v1,
-                m1,
-                x,
-                y,
-                mask_particule,
-                w,
-                half_w=half_w,
-            )
+            t_steps = t + arange(nb_step) * t_step
+            while t_steps.size:
+                if (backward and t_steps[0] <= t1) or (
+                    not backward and t_steps[0] >= t1
+                ):
+                    t0, u0, v0, m0 = t1, u1, v1, m1
+                    try:
+                        t1, d1 = generator.__next__()
+                    except StopIteration:
+                        return
+                    t1 = t1 * 86400
+                    u1, v1, m1 = d1.uv_for_advection(time_step=time_step, **kw)
+                    continue
+                # Steps between the two dates loaded
+                nb = (t_steps > t1 if backward else t_steps < t1).sum()
+                w = 1 - (t_steps[:nb] - t0) / (t1 - t0)
+                half_w = t_step / 2.0 / (t1 - t0)
+                advect_(
+                    d0.x_c,
+                    d0.y_c,
+                    u0,
+                    v0,
+                    m0,
+                    u1,
+                    v1,
+                    m1,
+                    x,
+                    y,
+                    mask_particule,
+                    w,
+                    half_w=half_w,
+                )
+                t_steps = t_steps[nb:]
             t += dt
             yield t, x, y
 
-- 
2.43.0


From 4673cef51071f5e03351c01cdf29fcc0553a3d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:53 +0000
Subject: [PATCH 17/92] fix: kernels of filters stay centered near the poles

---
 src/py_eddy_tracker/dataset/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 0e8a612..b77de82 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1382,6 +1382,8 @@ class RegularGridDataset(GridDataset):
         kernel_[: half_x_pt * order] = kernel[:0:-1]
         # remove unused row/column
         k_valid = kernel_ != 0
+        # kernel must stay centered on pixel, near the poles lower and upper parts are different
+        k_valid += k_valid[:, ::-1].copy()
         x_valid = where(k_valid.sum(axis=1))[0]
         x_slice = slice(x_valid[0], x_valid[-1] + 1)
         y_valid = where(k_valid.sum(axis=0))[0]
-- 
2.43.0


From e046b84dfda1282fddd89a6912b7d1cd87895c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 18/92] fix: pixels in a contour which is partially out of the
 grid or shifted by 360 degrees

---
 src/py_eddy_tracker/generic.py | 10 ++++++++--
 src/py_eddy_tracker/poly.py    |  4 +++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index aef82fb..28f3d78 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -624,8 +624,14 @@ def bbox_indice_regular(vertices, x0, y0, xstep, ystep, N, circular, x_size):
     if circular:
         slice_x = (i_x0 - N) % x_size, (i_x1 + N + 1) % x_size
     else:
-        slice_x = max(i_x0 - N, 0), i_x1 + N + 1
-    slice_y = i_y0 - N, i_y1 + N + 1
+        # contour could be partially out of grid, index must be negative on western side
+        lon_mid = x0[0] + x_size * xstep / 2
+        lon_0 = (lon_min - lon_mid + 180) % 360 - 180 + lon_mid - x0[0]
+        lon_1 = lon_0 + lon_max - lon_min
+        i_x0 = numba_types.int32(round(lon_0 / xstep))
+        i_x1 = numba_types.int32(round(lon_1 / xstep))
+        slice_x = max(i_x0 - N, 0), max(i_x1 + N + 1, 0)
+    slice_y = max(i_y0 - N, 0), max(i_y1 + N + 1, 0)
     return slice_x, slice_y
 
 
diff --git a/src/py_eddy_tracker/poly.py b/src/py_eddy_tracker/poly.py
index b584961..f71b5ce 100644
--- a/src/py_eddy_tracker/poly.py
+++ b/src/py_eddy_tracker/poly.py
@@ -733,8 +733,10 @@ def get_pixel_in_regular(vertices, x_c, y_c, x_start, x_stop, y_start, y_stop):
             vertices,
         )
     else:
+        # Contour could be shifted by a multiple of 360 degrees
+        x_shift = round((vertices[0, 0] - (x_c[0] + x_c[-1]) / 2) / 360) * 360.0
         return winding_number_grid_in_poly(
-            x_c[x_start:x_stop],
+            x_c[x_start:x_stop] + x_shift,
             y_c[y_start:y_stop],
             x_start,
             x_stop,
-- 
2.43.0


From d9dbfe7be3aeb73c3d4e1bb77d79ee1b007571e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:21 +0000
Subject: [PATCH 19/92] fix: paths between two positions go from and to the
 pixels which contain them

---
 src/py_eddy_tracker/dataset/grid.py | 30 ++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index b77de82..c6c417a 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -35,7 +35,6 @@ from numpy import (
     percentile,
     pi,
     radians,
-    round_,
     sin,
     sinc,
     sqrt,
@@ -1296,9 +1295,11 @@ class RegularGridDataset(GridDataset):
         return indices % self.x_size
 
     def nearest_grd_indice(self, x, y):
-        return nearest_grd_indice(
-            x, y, self.x_bounds, self.y_bounds, self.xstep, self.ystep
+        # Nearest pixel center, bounds are half a pixel before centers
+        i_x, i_y = nearest_grd_indice(
+            x, y, self.x_c, self.y_c, self.xstep, self.ystep
         )
+        return i_x % int(round(360.0 / self.xstep)), i_y
 
     @property
     def xstep(self):
@@ -1795,7 +1796,8 @@ class RegularGridDataset(GridDataset):
     def add_uv_lagerloef(self, grid_height, uname="u", vname="v", schema=15):
         self.add_uv(grid_height, uname, vname)
         latmax = 5
-        _, (i_start, i_end) = self.nearest_grd_indice((0, 0), (-latmax, latmax))
+        _, i_start = self.nearest_grd_indice(0, -latmax)
+        _, i_end = self.nearest_grd_indice(0, latmax)
         sl = slice(i_start, i_end)
         # Divide by sideral day
         lat = self.y_c[sl]
@@ -2265,15 +2267,17 @@ def compute_pixel_path(x0, y0, x1, y1, x_ori, y_ori, x_step, y_step, nb_x):
     i_x1 = empty(nx, dtype=numba_types.int_)
     i_y0 = empty(nx, dtype=numba_types.int_)
     i_y1 = empty(nx, dtype=numba_types.int_)
-    # Because round_ is not accepted with array in numba
+    # Pixel which contains the position (_ori are the bounds of first pixel)
     for i in range(nx):
-        i_x0[i] = round_(((x0[i] - x_ori) % 360) / x_step)
-        i_x1[i] = round_(((x1[i] - x_ori) % 360) / x_step)
-        i_y0[i] = round_((y0[i] - y_ori) / y_step)
-        i_y1[i] = round_((y1[i] - y_ori) / y_step)
+        i_x0[i] = floor(((x0[i] - x_ori) % 360) / x_step)
+        i_x1[i] = floor(((x1[i] - x_ori) % 360) / x_step)
+        i_y0[i] = floor((y0[i] - y_ori) / y_step)
+        i_y1[i] = floor((y1[i] - y_ori) / y_step)
     # Delta index of x
     d_x = i_x1 - i_x0
-    d_x = (d_x + nb_x // 2) % nb_x - (nb_x // 2)
+    # Number of pixel in a complete turn (different of nb_x for a regional grid)
+    nb_turn = round(360.0 / x_step)
+    d_x = (d_x + nb_turn // 2) % nb_turn - (nb_turn // 2)
     i_x1 = i_x0 + d_x
     # Delta index of y
     d_y = i_y1 - i_y0
@@ -2314,14 +2318,14 @@ def compute_pixel_path(x0, y0, x1, y1, x_ori, y_ori, x_step, y_step, nb_x):
                 sup = -1 if d_x[i] < 0 else 1
                 value = arange(i_x0[i], i_x1[i] + sup, sup)
                 i_g[ii : ii + delta + 1] = value
-                j_g[ii : ii + delta + 1] = (value - i_x0[i]) / a + i_y0[i]
+                j_g[ii : ii + delta + 1] = floor((value - i_x0[i]) / a + i_y0[i] + 0.5)
             else:
                 sup = -1 if d_y[i] < 0 else 1
                 value = arange(i_y0[i], i_y1[i] + sup, sup)
                 j_g[ii : ii + delta + 1] = value
-                i_g[ii : ii + delta + 1] = (value - i_y0[i]) * a + i_x0[i]
+                i_g[ii : ii + delta + 1] = floor((value - i_y0[i]) * a + i_x0[i] + 0.5)
         ii += delta + 1
-    i_g %= nb_x
+    i_g %= nb_turn
     return i_g, j_g, d_max
 
 
-- 
2.43.0


From d3ac372199ff5a0382279af9494a816e73f9b015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:44 +0000
Subject: [PATCH 20/92] fix: pixels of unregular grids in a contour

---
 src/py_eddy_tracker/dataset/grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index c6c417a..050c31e 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1099,8 +1099,9 @@ class UnRegularGridDataset(GridDataset):
             self.vars[x_name] = h.variables[x_name][sl_x]
             self.vars[y_name] = h.variables[y_name][sl_y]
 
-            self.x_c = self.vars[x_name]
-            self.y_c = self.vars[y_name]
+            # numba doesn't manage masked array
+            self.x_c = ma.getdata(self.vars[x_name])
+            self.y_c = ma.getdata(self.vars[y_name])
 
             self.init_pos_interpolator()
 
-- 
2.43.0


From d4000040126c323205d1fa959cb6e7c4906498b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:33 +0000
Subject: [PATCH 21/92] fix: grids loaded at an index of a dimension which is
 not the first are writable

---
 src/py_eddy_tracker/dataset/grid.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 050c31e..894693e 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -394,10 +394,15 @@ class GridDataset(object):
                     setattr(var, key, value)
 
                 infos = self.variables_description[varname]["infos"]
+                data = self.vars[varname]
                 if infos.get("transpose", False):
-                    var[:] = self.vars[varname].T
-                else:
-                    var[:] = self.vars[varname]
+                    data = data.T
+                if data.ndim < len(var.dimensions):
+                    # dimensions reduced by an index when loaded
+                    for i, (dim, size) in enumerate(zip(var.dimensions, var.shape)):
+                        if dim not in self.x_dim and dim not in self.y_dim:
+                            data = ma.expand_dims(data, i).repeat(size, axis=i)
+                var[:] = data
 
             for attr, value in self.global_attrs.items():
                 setattr(h_out, attr, value)
-- 
2.43.0


From 8659c8ac10e9c6295449e49007d3cea1c218ce8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:33 +0000
Subject: [PATCH 22/92] fix: grids reduced by indexs on their axes are writable

---
 src/py_eddy_tracker/dataset/grid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 894693e..f39214d 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -421,6 +421,9 @@ class GridDataset(object):
             sl_y = [self.indexs.get(dim, slice(None)) for dim in self.y_dim]
             self.vars[x_name] = h.variables[x_name][sl_x]
             self.vars[y_name] = h.variables[y_name][sl_y]
+            # Indexs could reduce grid
+            self.dimensions.update(zip(self.x_dim, self.vars[x_name].shape))
+            self.dimensions.update(zip(self.y_dim, self.vars[y_name].shape))
 
         self.setup_coordinates()
 
-- 
2.43.0


From 707940339b0aeba410530848502640eff1723dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:33 +0000
Subject: [PATCH 23/92] fix: grids with positions of corners have the bounds of
 their last pixels

---
 src/py_eddy_tracker/dataset/grid.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index f39214d..86daacb 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -478,6 +478,13 @@ class GridDataset(object):
                 dy2 = (self.y_bounds[1:] - self.y_bounds[:-1]) / 2
                 self.y_c[:-1] += dy2
                 self.y_c[-1] += dy2[-1]
+                # add last bounds, as with centered coordinates
+                self.x_bounds = concatenate(
+                    (self.x_bounds, (2 * self.x_bounds[-1] - self.x_bounds[-2],))
+                )
+                self.y_bounds = concatenate(
+                    (self.y_bounds, (2 * self.y_bounds[-1] - self.y_bounds[-2],))
+                )
             else:
                 raise Exception("not write")
 
-- 
2.43.0


From dc2c47831f1343703044482ae27f8375e3df4d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:33 +0000
Subject: [PATCH 24/92] fix: grid asked with other indexs is loaded again

---
 src/py_eddy_tracker/dataset/grid.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 86daacb..e63d68c 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -521,6 +521,8 @@ class GridDataset(object):
             args=tuple((grid_out, *h_dict["args"][1:])),
             kwargs=h_dict["kwargs"].copy(),
         )
+        # new grid is not in file
+        self.variables_description[grid_out]["infos"].pop("indexs", None)
         self.vars[grid_out] = self.grid(grid_in).copy()
 
     def add_grid(self, varname, grid):
@@ -542,9 +544,14 @@ class GridDataset(object):
 
         .. minigallery:: py_eddy_tracker.GridDataset.grid
         """
+        reload = False
         if indexs is None:
             indexs = dict()
-        if varname not in self.vars:
+        elif varname in self.vars and varname in self.variables_description:
+            # Stored grid could come from other indexs
+            infos = self.variables_description[varname]["infos"]
+            reload = infos.get("indexs", indexs) != indexs
+        if varname not in self.vars or reload:
             coordinates_dims = list(self.x_dim)
             coordinates_dims.extend(list(self.y_dim))
             logger.debug(
@@ -563,6 +570,7 @@ class GridDataset(object):
                     for dim in dims
                 ]
                 self.vars[varname] = h.variables[varname][sl]
+                self.variables_description[varname]["infos"]["indexs"] = indexs
                 if len(self.x_dim) == 1:
                     i_x = where(array(dims) == self.x_dim)[0][0]
                     i_y = where(array(dims) == self.y_dim)[0][0]
-- 
2.43.0


From 1d3187da2702f013022defede43893165897e827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:33 +0000
Subject: [PATCH 25/92] fix: cube whose time variable has not the name of its
 dimension

---
 src/py_eddy_tracker/dataset/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index e63d68c..32167d3 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2381,9 +2381,10 @@ class GridCollection:
     def from_netcdf_cube(cls, filename, x_name, y_name, t_name, heigth=None, **kwargs):
         new = cls()
         with Dataset(filename) as h:
+            (t_dim,) = h.variables[t_name].dimensions
             for i, t in enumerate(h.variables[t_name][:]):
                 d = RegularGridDataset(
-                    filename, x_name, y_name, indexs={t_name: i}, **kwargs
+                    filename, x_name, y_name, indexs={t_dim: i}, **kwargs
                 )
                 if heigth is not None:
                     d.add_uv(heigth)
-- 
2.43.0


From 4d2eec2b3ec0c8ee4c257ff8fe9d2172203f493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:46 +0000
Subject: [PATCH 26/92] fix: currents are not reloaded from file when other
 indexs are asked

---
 src/py_eddy_tracker/dataset/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 32167d3..0541f2f 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1905,6 +1905,8 @@ class RegularGridDataset(GridDataset):
                 args=tuple((variable, *h_dict["args"][1:])),
                 kwargs=h_dict["kwargs"].copy(),
             )
+            # currents are not in file
+            self.variables_description[variable]["infos"].pop("indexs", None)
             if "units" in self.variables_description[variable]["attrs"]:
                 self.variables_description[variable]["attrs"]["units"] += "/s"
             if "long_name" in self.variables_description[variable]["attrs"]:
-- 
2.43.0


From 79014a924e8498fc025535794d564c3ab3f828fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:40 +0000
Subject: [PATCH 27/92] fix: zarr files of observations without contours are
 loadable

---
 src/py_eddy_tracker/observations/observation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 1613be5..cb14ce5 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -819,7 +819,8 @@ class EddiesObservations(object):
         var_list = cls.build_var_list(list(h_zarr.keys()), remove_vars, include_vars)
 
         nb_obs = getattr(h_zarr, var_list[0]).shape[0]
-        track_array_variables = h_zarr.attrs["track_array_variables"]
+        # missing if there is no array in file
+        track_array_variables = h_zarr.attrs.get("track_array_variables", 0)
 
         if indexs is not None and "obs" in indexs:
             sl = indexs["obs"]
-- 
2.43.0


From 6ef9f15675de7a8096271cd66e5e23bb3476d538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:40 +0000
Subject: [PATCH 28/92] fix: partial loading accepts slices with open or
 outside bounds

---
 .../observations/observation.py               | 35 +++++++++----------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index cb14ce5..726986e 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -823,15 +823,7 @@ class EddiesObservations(object):
         track_array_variables = h_zarr.attrs.get("track_array_variables", 0)
 
         if indexs is not None and "obs" in indexs:
-            sl = indexs["obs"]
-            sl = slice(sl.start, min(sl.stop, nb_obs))
-            if sl.stop is not None:
-                nb_obs = sl.stop
-            if sl.start is not None:
-                nb_obs -= sl.start
-            if sl.step is not None:
-                indexs["obs"] = slice(sl.start, sl.stop)
-                logger.warning("step of slice won't be use")
+            indexs, nb_obs = cls.bound_slice(indexs, "obs", nb_obs)
         logger.debug("%d observations will be load", nb_obs)
         kwargs = dict()
 
@@ -971,15 +963,7 @@ class EddiesObservations(object):
             obs_dim = cls.obs_dimension(h_nc)
             nb_obs = len(h_nc.dimensions[obs_dim])
             if indexs is not None and obs_dim in indexs:
-                sl = indexs[obs_dim]
-                sl = slice(sl.start, min(sl.stop, nb_obs))
-                if sl.stop is not None:
-                    nb_obs = sl.stop
-                if sl.start is not None:
-                    nb_obs -= sl.start
-                if sl.step is not None:
-                    indexs[obs_dim] = slice(sl.start, sl.stop)
-                    logger.warning("step of slice won't be use")
+                indexs, nb_obs = cls.bound_slice(indexs, obs_dim, nb_obs)
             logger.debug("%d observations will be load", nb_obs)
             kwargs = dict()
             if array_dim in h_nc.dimensions:
@@ -1047,6 +1031,21 @@ class EddiesObservations(object):
 
         return eddies
 
+    @staticmethod
+    def bound_slice(indexs, dim, nb):
+        """Slice of dim with its real bounds
+
+        :param dict indexs: Indexes to load only a slice of data
+        :param str dim: dimension to bound
+        :param int nb: size of dimension
+        :return: indexes with bounds, number of elements selected
+        """
+        if indexs[dim].step is not None:
+            logger.warning("step of slice won't be use")
+        start, stop, _ = slice(indexs[dim].start, indexs[dim].stop).indices(nb)
+        stop = max(start, stop)
+        return {**indexs, dim: slice(start, stop)}, stop - start
+
     @staticmethod
     def build_var_list(var_list, remove_vars, include_vars):
         if include_vars is not None:
-- 
2.43.0


From 0b13da216ff6f06b69d7f1c28e48383e4ec34b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:40 +0000
Subject: [PATCH 29/92] fix: raw loading of zarr files keeps packed values

---
 src/py_eddy_tracker/observations/observation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 726986e..01ec642 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -920,6 +920,8 @@ class EddiesObservations(object):
                     data -= add_offset
                 if scale_factor is not None:
                     data /= scale_factor
+                    # packed values are integer
+                    data = data.round()
 
             sl_out = slice(i - i_start, i - i_start + buffer_size)
             handler_eddies[sl_out] = data
-- 
2.43.0


From dcf03f9088cb4e285f17a14ca152c6c5cc1416b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:40 +0000
Subject: [PATCH 30/92] fix: packed values equal to the default fill value are
 loaded

---
 src/py_eddy_tracker/observations/observation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 01ec642..fad0a01 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -993,6 +993,9 @@ class EddiesObservations(object):
                 var_inv = VAR_DESCR_inv[variable]
                 # Patch
                 h_nc.variables[variable].set_auto_maskandscale(not raw_data)
+                if not hasattr(h_nc.variables[variable], "_FillValue"):
+                    # without fill value every value is a real one
+                    h_nc.variables[variable].set_auto_mask(False)
                 logger.debug(
                     "Up load %s variable%s",
                     variable,
-- 
2.43.0


From b3a090e7ad17fdbf5afe4f2fdb3c6c59c0a88c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:40 +0000
Subject: [PATCH 31/92] fix: contours with longitudes out of the range of
 storage are shifted

---
 .../observations/observation.py               | 26 +++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index fad0a01..483cb24 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -29,6 +29,7 @@ from numpy import (
     floor,
     histogram,
     histogram2d,
+    iinfo,
     in1d,
     isnan,
     linspace,
@@ -1574,7 +1575,7 @@ class EddiesObservations(object):
                     dimensions=VAR_DESCR[name]["nc_dims"],
                 ),
                 VAR_DESCR[name]["nc_attr"],
-                self.obs[ori_name],
+                self.storable_field(ori_name),
                 scale_factor=VAR_DESCR[name].get("scale_factor", None),
                 add_offset=VAR_DESCR[name].get("add_offset", None),
                 filters=VAR_DESCR[name].get("filters", None),
@@ -1582,6 +1583,27 @@ class EddiesObservations(object):
             )
         self.set_global_attr_zarr(handler)
 
+    def storable_field(self, name):
+        """Values of a field to store
+
+        Contours longitude out of the bounds of the storage type are shifted by 360 degrees.
+
+        :param str name: field
+        """
+        data = self.obs[name]
+        if self.raw_data or not name.startswith("contour_lon_") or data.size == 0:
+            return data
+        descr = VAR_DESCR[name]
+        bounds = iinfo(descr["output_type"])
+        scale, offset = descr["scale_factor"], descr["add_offset"]
+        # Minimum of type is the default fill value
+        west = data.min(axis=1) < (bounds.min + 1) * scale + offset
+        east = data.max(axis=1) > bounds.max * scale + offset
+        if west.any() or east.any():
+            shift = 360 * (west.astype("i2") - east.astype("i2"))
+            data = data + shift.reshape((-1, 1)).astype(data.dtype)
+        return data
+
     @staticmethod
     def netcdf_create_dimensions(handler, dim, nb):
         if dim not in handler.dimensions:
@@ -1620,7 +1642,7 @@ class EddiesObservations(object):
                     dimensions=VAR_DESCR[name]["nc_dims"],
                 ),
                 VAR_DESCR[name]["nc_attr"],
-                self.obs[ori_name],
+                self.storable_field(ori_name),
                 scale_factor=VAR_DESCR[name].get("scale_factor", None),
                 add_offset=VAR_DESCR[name].get("add_offset", None),
                 **kwargs,
-- 
2.43.0


From a398d674df83f37e9ba237797f335f982526b5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 32/92] fix: observations are extracted with any slice or mask

---
 src/py_eddy_tracker/observations/observation.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 483cb24..6b732b4 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -723,13 +723,10 @@ class EddiesObservations(object):
         """Return obs from self at the index."""
         if reverse:
             index = reverse_index(index, len(self))
-        size = 1
-        if hasattr(index, "__iter__"):
-            size = len(index)
-        elif isinstance(index, slice):
-            size = index.stop - index.start
-        eddies = self.new_like(self, size)
-        eddies.obs[:] = self.obs[index]
+        # Size depends only of what is selected
+        obs = self.obs[index]
+        eddies = self.new_like(self, obs.size)
+        eddies.obs[:] = obs
         eddies.sign_type = self.sign_type
         return eddies
 
-- 
2.43.0


From 586a70c34773521af6f8edc3957678326cbd10cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 33/92] fix: combination of two slices is their intersection

---
 src/py_eddy_tracker/observations/observation.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 6b732b4..56ad58f 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2006,17 +2006,18 @@ class EddiesObservations(object):
             filter2 = filters[1]
         # Merge indexs and filter
         if isinstance(filter1, slice):
-            reject = ones(len(self), dtype="bool")
-            reject[filter1] = False
+            select = zeros(len(self), dtype="bool")
+            select[filter1] = True
             if isinstance(filter2, slice):
-                reject[filter2] = False
-                return ~reject
+                select2 = zeros(len(self), dtype="bool")
+                select2[filter2] = True
+                return select * select2
             # Mask case
             elif filter2.dtype == bool:
-                return ~reject * filter2
+                return select * filter2
             # index case
             else:
-                return filter2[~reject[filter2]]
+                return filter2[select[filter2]]
         # mask case
         elif filter1.dtype == bool:
             if isinstance(filter2, slice):
-- 
2.43.0


From 11ea23bb700a571701ded107901349ddaa2cc5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 34/92] fix: fields are added to observations from which fields
 were removed

---
 src/py_eddy_tracker/observations/observation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 56ad58f..cf76ae1 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -423,9 +423,11 @@ class EddiesObservations(object):
         """
         nb_obs = len(self)
         fields = set(fields)
-        only_variables = set(self.fields) - fields
-        track_extra_variables = set(self.track_extra_variables) - fields
-        array_variables = set(self.array_variables) - fields
+        only_variables = [i for i in self.fields if i not in fields]
+        track_extra_variables = [
+            i for i in self.track_extra_variables if i not in fields
+        ]
+        array_variables = [i for i in self.array_variables if i not in fields]
         new = self.__class__(
             size=nb_obs,
             track_extra_variables=track_extra_variables,
-- 
2.43.0


From 37107a9585cadb755a0703ac6a50a9898eb67057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 35/92] fix: concatenation checks fields and copies them by
 name

---
 src/py_eddy_tracker/observations/observation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index cf76ae1..2183213 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -527,6 +527,8 @@ class EddiesObservations(object):
         test = self.track_extra_variables == other.track_extra_variables
         test *= self.track_array_variables == other.track_array_variables
         test *= self.array_variables == other.array_variables
+        test *= sorted(self.fields) == sorted(other.fields)
+        test *= self.raw_data == other.raw_data
         return test
 
     @classmethod
@@ -542,7 +544,9 @@ class EddiesObservations(object):
         i = 0
         for obs in observations:
             nb_obs = len(obs)
-            eddies.obs[i : i + nb_obs] = obs.obs
+            # Order of fields could be different
+            for field in eddies.fields:
+                eddies.obs[field][i : i + nb_obs] = obs.obs[field]
             i += nb_obs
         eddies.sign_type = ref_obs.sign_type
         return eddies
-- 
2.43.0


From 41a07f1283f59b9085a01225b77f6348338354e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 36/92] fix: merge keeps tracks separated when observations are
 not sorted by track or empty

---
 src/py_eddy_tracker/observations/observation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 2183213..94f5552 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -563,8 +563,9 @@ class EddiesObservations(object):
             if key in other_keys:
                 eddies.obs[key][nb_obs_self:] = other.obs[key][:]
         if "track" in other_keys and "track" in self_keys:
-            last_track = eddies.track[nb_obs_self - 1] + 1
-            eddies.track[nb_obs_self:] += last_track
+            # Observations could be not sorted by track
+            if nb_obs_self:
+                eddies.track[nb_obs_self:] += self.track.max() + 1
         eddies.sign_type = self.sign_type
         return eddies
 
-- 
2.43.0


From b058aafe6089ad95c3d1389e450ebb336a5c0b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 37/92] fix: concatenation of tracks accepts a set without
 observation

---
 src/py_eddy_tracker/observations/tracking.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 164f972..44ab19f 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -319,6 +319,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
         i_start = 0
         for obs in observations:
             nb_obs = len(obs)
+            if nb_obs == 0:
+                continue
             sl = slice(i_start, i_start + nb_obs)
             new_track = obs.track + last_track
             eddies.track[sl] = new_track
-- 
2.43.0


From 68d1ce3860fc6d5e578eaa7f747e0478ea022c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 38/92] fix: insertion copies by name what is inserted and
 forgets previous period and index

---
 src/py_eddy_tracker/observations/network.py    |  1 +
 .../observations/observation.py                | 18 +++++++++++-------
 src/py_eddy_tracker/observations/tracking.py   |  4 ++++
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index a2e2dae..653fbe9 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -130,6 +130,7 @@ class NetworkObservations(GroupEddiesObservations):
         return "\n".join(infos)
 
     def reset_index(self):
+        super().reset_index()
         self._index_network = None
         self._index_segment_track = None
         self._segment_track_array = None
diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 94f5552..47ffe3f 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -677,20 +677,24 @@ class EddiesObservations(object):
         insert_size = len(other)
         self_size = len(self)
         new_size = self_size + insert_size
-        if self_size == 0:
-            self.observations = other.obs
-            return self
-        elif insert_size == 0:
+        if insert_size == 0:
             return self
         if index < 0:
             index = self_size + index + 1
         eddies = self.new_like(self, new_size)
-        eddies.obs[:index] = self.obs[:index]
-        eddies.obs[index : index + insert_size] = other.obs
-        eddies.obs[index + insert_size :] = self.obs[index:]
+        # Order of fields could be different
+        for field in self.fields:
+            eddies.obs[field][:index] = self.obs[field][:index]
+            eddies.obs[field][index : index + insert_size] = other.obs[field]
+            eddies.obs[field][index + insert_size :] = self.obs[field][index:]
         self.observations = eddies.obs
+        self.reset_index()
         return self
 
+    def reset_index(self):
+        """Forget all what has been computed from the previous observations"""
+        self.period_ = None
+
     def append(self, other):
         """Merge."""
         return self + other
diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 44ab19f..d379378 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -64,6 +64,10 @@ class TrackEddiesObservations(GroupEddiesObservations):
 
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
+        self.reset_index()
+
+    def reset_index(self):
+        super().reset_index()
         self.__first_index_of_track = None
         self.__obs_by_track = None
         self.__nb_track = None
-- 
2.43.0


From 5876831fd0fbc2b7bd2c7ed9528584694e584401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 39/92] fix: compare networks when period is not integer and
 when a group has no counterpart

---
 src/py_eddy_tracker/observations/network.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 653fbe9..32516bb 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -673,7 +673,7 @@ class NetworkObservations(GroupEddiesObservations):
         """
         p0, p1 = self.period
         indexs = list()
-        for i_self, i_other, t0, t1 in self.align_on(other, bins=range(p0, p1 + 2)):
+        for i_self, i_other, t0, t1 in self.align_on(other, bins=arange(p0, p1 + 2)):
             i, j, s = self.match(other, i_self=i_self, i_other=i_other, **kwargs)
             indexs.append(other.re_reference_index(j, i_other))
         indexs = concatenate(indexs)
@@ -1297,14 +1297,14 @@ class NetworkObservations(GroupEddiesObservations):
                 continue
             if isinstance(i_other, slice):
                 i_other = arange(i_other.start, i_other.stop)
+            if isinstance(i_self, slice):
+                i_self = arange(i_self.start, i_self.stop)
             # All_ref will give all item of self, sometime there is no things to compare with other
             if i_other.size == 0:
                 id_self = i_self + i_self_ref
                 in_self.append(id_self)
                 in_other.append(-ones(id_self.shape, dtype=id_self.dtype))
                 continue
-            if isinstance(i_self, slice):
-                i_self = arange(i_self.start, i_self.stop)
             # We get absolute id
             id_self, id_other = i_self + i_self_ref, i_other + i_other_ref
             # We compute mask to select data
-- 
2.43.0


From 3b1246cfd4fd8dcc6138a60fe73015b05b36f622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 40/92] fix: iteration in bins skips values out of bins and
 accepts empty or unsigned values

---
 src/py_eddy_tracker/observations/observation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 47ffe3f..7171f0b 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -596,13 +596,14 @@ class EddiesObservations(object):
         .. minigallery:: py_eddy_tracker.EddiesObservations.iter_on
         """
         x = self.parse_varname(xname)
+        if x.size == 0:
+            return
         if window is not None:
             x0 = arange(x.min(), x.max()) if bins is None else array(bins)
             i_ordered, first_index, last_index = window_index(x, x0, window)
             for x_, i0, i1 in zip(x0, first_index, last_index):
                 yield i_ordered[i0:i1], x_ - window, x_ + window
         else:
-            d = x[1:] - x[:-1]
             if bins is None:
                 bins = arange(x.min(), x.max() + 2)
             elif not isinstance(bins, ndarray):
@@ -610,9 +611,11 @@ class EddiesObservations(object):
             nb_bins = len(bins) - 1
 
             # Not monotonous
-            if (d < 0).any():
+            if (x[1:] < x[:-1]).any():
                 # If bins cover a small part of value
                 test, translate, x = iter_mode_reduce(x, bins)
+                if x.size == 0:
+                    return
                 # convert value in bins number
                 i = numba_digitize(x, bins) - 1
                 # Order by bins
@@ -635,6 +638,8 @@ class EddiesObservations(object):
                 i0, i1 = i0[m], i1[m]
                 for i0_, i1_ in zip(i0, i1):
                     i_bins = i[i0_]
+                    if i_bins == -1 or i_bins == nb_bins:
+                        continue
                     yield slice(i0_, i1_), bins[i_bins], bins[i_bins + 1]
 
     def align_on(self, other, var_name="time", all_ref=False, **kwargs):
-- 
2.43.0


From 107e9793290efe733cf7bc3867ff85ac029be2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 41/92] fix: alignment yields every remaining group of
 reference

---
 .../observations/observation.py               | 24 ++++++++-----------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 7171f0b..9ed8a2b 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -31,6 +31,7 @@ from numpy import (
     histogram2d,
     iinfo,
     in1d,
+    inf,
     isnan,
     linspace,
     ma,
@@ -659,21 +660,16 @@ class EddiesObservations(object):
         else:
             iter_self = self.iter_on(var_name[0], **kwargs)
             iter_other = other.iter_on(var_name[1], **kwargs)
-        indexs_other, b0_other, b1_other = iter_other.__next__()
+        # When there is no more group in other, bound is never reached
+        no_group = None, inf, inf
+        indexs_other, b0_other, _ = next(iter_other, no_group)
         for indexs_self, b0_self, b1_self in iter_self:
-            if b0_self > b0_other:
-                try:
-                    while b0_other < b0_self:
-                        indexs_other, b0_other, b1_other = iter_other.__next__()
-                except StopIteration:
-                    break
-            if b0_self < b0_other:
-                if all_ref:
-                    yield indexs_self, empty(
-                        0, dtype=indexs_self.dtype
-                    ), b0_self, b1_self
-                continue
-            yield indexs_self, indexs_other, b0_self, b1_self
+            while b0_other < b0_self:
+                indexs_other, b0_other, _ = next(iter_other, no_group)
+            if b0_self == b0_other:
+                yield indexs_self, indexs_other, b0_self, b1_self
+            elif all_ref:
+                yield indexs_self, empty(0, dtype=int), b0_self, b1_self
 
     def insert_observations(self, other, index):
         """Insert other obs in self at the given index."""
-- 
2.43.0


From 403dc6f5af1f2ef83614cfdcbe8f9108c45b0dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 42/92] fix: value close to a bound is set in right bin

---
 src/py_eddy_tracker/observations/observation.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 9ed8a2b..8d8e9e3 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2712,7 +2712,13 @@ def numba_digitize(values, bins):
         if v_ < up:
             out[i] = 0
             continue
-        out[i] = (v_ - bins[0]) / step + 1
+        j = int((v_ - bins[0]) / step)
+        # rounding could move a value close to a bound
+        if v_ < bins[j]:
+            j -= 1
+        elif v_ >= bins[j + 1]:
+            j += 1
+        out[i] = j + 1
     return out
 
 
-- 
2.43.0


From 30eff3538fda575271d7c04ed22daba687f7ccc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 43/92] fix: binned statistics compute std and do not sum in
 storage type

---
 .../observations/observation.py               | 27 ++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 8d8e9e3..f8f7982 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -40,7 +40,10 @@ from numpy import (
     ones,
     percentile,
     radians,
+    result_type,
+    searchsorted,
     sin,
+    sqrt,
     unique,
     where,
     zeros,
@@ -300,7 +303,9 @@ class EddiesObservations(object):
         if nb:
             v = hist_numba(x, bins=bins)[0]
         else:
-            v = histogram(x, bins=bins, weights=self.parse_varname(varname))[0]
+            # sum must not be done in type of storage
+            weights = self.parse_varname(varname).astype("f8")
+            v = histogram(x, bins=bins, weights=weights)[0]
         if percent:
             v = v.astype("f4") / v.sum() * 100
         elif mean:
@@ -2107,13 +2112,21 @@ class EddiesObservations(object):
         if bins is None:
             bins = arange(v.min(), v.max() + 2)
         y, x = hist_numba(v, bins=bins)
-        x = (x[1:] + x[:-1]) / 2
-        if method == "mean":
-            y_v = self.parse_varname(yname)
-            y_v = y_v[mask]
-            y_, _ = histogram(v, bins=bins, weights=y_v)
+        if method in ("mean", "std"):
+            # sum must not be done in type of storage
+            y_v = self.parse_varname(yname)[mask].astype("f8")
             with errstate(divide="ignore", invalid="ignore"):
-                y = y_ / y
+                mean = histogram(v, bins=bins, weights=y_v)[0] / y
+                if method == "std":
+                    # difference with the mean of bin
+                    m = (v >= x[0]) * (v <= x[-1])
+                    v, y_v = v[m], y_v[m]
+                    i = (searchsorted(x, v, side="right") - 1).clip(0, y.size - 1)
+                    y_, _ = histogram(v, bins=bins, weights=(y_v - mean[i]) ** 2)
+                    y = sqrt(y_ / y)
+                else:
+                    y = mean
+        x = (x[1:] + x[:-1]) / 2
         return x, y
 
     def format_label(self, label):
-- 
2.43.0


From f63f646e67599834791efb34af43806113f5f034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 44/92] fix: box statistics are stored in the right box, with
 masked data and without observation

---
 .../observations/observation.py               | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index f8f7982..f24cc61 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2346,7 +2346,10 @@ class EddiesObservations(object):
         x, y = (self.longitude - x0) % 360 + x0, self.latitude
         data = self[varname] if data is None else data
         if hasattr(data, "mask"):
-            filter = self.merge_filters(~data.mask, self.merge_filters(filter))
+            filter = self.merge_filters(
+                ~ma.getmaskarray(data), self.merge_filters(filter)
+            )
+            data = data.data
         else:
             filter = self.merge_filters(filter)
         x, y, data = x[filter], y[filter], data[filter]
@@ -2354,7 +2357,8 @@ class EddiesObservations(object):
         from ..dataset.grid import RegularGridDataset
 
         shape = (x_bins.shape[0] - 1, y_bins.shape[0] - 1)
-        grid = ma.empty(shape, dtype=data.dtype)
+        # percentile of integers could be not an integer
+        grid = ma.empty(shape, dtype=result_type(data.dtype, "f4"))
         grid.mask = ones(shape, dtype="bool")
         regular_grid = RegularGridDataset.with_array(
             coordinates=("x", "y"),
@@ -2392,7 +2396,7 @@ class EddiesObservations(object):
         x, y = (self.longitude - x0) % 360 + x0, self.latitude
         data = self[varname] if data is None else data
         if hasattr(data, "mask"):
-            m = ~data.mask
+            m = ~ma.getmaskarray(data)
             sum_obs = histogram2d(x[m], y[m], (x_bins, y_bins), weights=data[m])[0]
             nb_obs = histogram2d(x[m], y[m], (x_bins, y_bins))[0]
         else:
@@ -2592,10 +2596,12 @@ def grid_box_stat(x_c, y_c, grid, mask, x, y, value, circular=False, method=50):
             raise Exception("x indices underflow")
         if (i >= nb_x).any():
             raise Exception("x indices overflow")
-        if (j < 0).any():
-            raise Exception("y indices underflow")
-        if (j >= nb_y).any():
-            raise Exception("y indices overflow")
+    if (j < 0).any():
+        raise Exception("y indices underflow")
+    if (j >= nb_y).any():
+        raise Exception("y indices overflow")
+    if i.shape[0] == 0:
+        return
     abs_i = j * nb_x + i
     k_sort = abs_i.argsort()
     i0, j0 = i[k_sort[0]], j[k_sort[0]]
@@ -2605,13 +2611,16 @@ def grid_box_stat(x_c, y_c, grid, mask, x, y, value, circular=False, method=50):
         # group change
         if i_ != i0 or j_ != j0:
             # apply method and store result
-            grid[i_, j_] = percentile(values, method)
-            mask[i_, j_] = False
+            grid[i0, j0] = percentile(values, method)
+            mask[i0, j0] = False
             # start new group
             i0, j0 = i_, j_
             # reset list
             values.clear()
         values.append(value[k])
+    # store result of last group
+    grid[i0, j0] = percentile(values, method)
+    mask[i0, j0] = False
 
 
 @njit(cache=True)
-- 
2.43.0


From 41a4ef41ad13bfcaf356a542c4f033bbf367be9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 45/92] fix: max and min in a contour ignore masked pixels

---
 src/py_eddy_tracker/observations/observation.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index f24cc61..6255ffb 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2670,11 +2670,16 @@ def grid_stat(x_c, y_c, grid, mask, x, y, result, circular=False, method="mean")
                 result[elt] = v_sum / nb_
         elif max_method:
             v_max = -1e40
+            nb_ = 0
             for i_, j_ in zip(i, j):
-                values = grid[i_, j_]
-                # FIXME must use mask
-                v_max = max(v_max, values)
-            result[elt] = v_max
+                if mask[i_, j_]:
+                    continue
+                v_max = max(v_max, grid[i_, j_])
+                nb_ += 1
+            if nb_ == 0:
+                result[elt] = nan
+            else:
+                result[elt] = v_max
 
 
 class VirtualEddiesObservations(EddiesObservations):
-- 
2.43.0


From 34c732320da479bfe908ab34f11e1132495f391b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 46/92] fix: undefined positions are inside of no eddy

---
 src/py_eddy_tracker/observations/observation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 6255ffb..94634e9 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2267,8 +2267,7 @@ class EddiesObservations(object):
         :return: flag
         :rtype: array[bool]
         """
-        xname, yname = self.intern(intern)
-        return insidepoly(x, y, self[xname], self[yname])
+        return self.contains(x, y, intern=intern) != -1
 
     def grid_count(self, bins, intern=False, center=False, filter=slice(None)):
         """
-- 
2.43.0


From 257622f110aaae0921cf471a2b094cdc6778f643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 47/92] fix: positions in a wide contour, and mask without
 position to test

---
 src/py_eddy_tracker/poly.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/py_eddy_tracker/poly.py b/src/py_eddy_tracker/poly.py
index f71b5ce..e387423 100644
--- a/src/py_eddy_tracker/poly.py
+++ b/src/py_eddy_tracker/poly.py
@@ -893,7 +893,8 @@ def group_obs(x, y, step, nb_x):
 @njit(cache=True)
 def box_index(x, y, step, nb_x):
     """Return k_box index for each value"""
-    return numba_types.uint32((x % 360) // step + nb_x * ((y + 90) // step))
+    # rounding of modulo could give 360
+    return numba_types.uint32((x % 360) // step % nb_x + nb_x * ((y + 90) // step))
 
 
 @njit(cache=True)
@@ -914,10 +915,12 @@ def poly_indexs(x_p, y_p, x_c, y_c):
     """
     nb_x = 360
     step = 1.0
-    i, i_order = group_obs(x_p, y_p, step, nb_x)
     nb_p = x_p.shape[0]
     nb_c = x_c.shape[0]
     indexs = -ones(nb_p, dtype=numba_types.int32)
+    if nb_p == 0:
+        return indexs
+    i, i_order = group_obs(x_p, y_p, step, nb_x)
     # Adress table to get test bloc
     start_index, end_index, i_first = build_index(i[i_order])
     nb_bloc = end_index.size
@@ -928,10 +931,9 @@ def poly_indexs(x_p, y_p, x_c, y_c):
         x_c_max, y_c_max = x_.max(), y_.max()
         v = create_vertice(x_, y_)
         i0, j0 = box_indexes(x_c_min, y_c_min, step)
-        i1, j1 = box_indexes(x_c_max, y_c_max, step)
-        # i0 could be greater than i1, (x_c is always continious) so you could have a contour over bound
-        if i0 > i1:
-            i1 += nb_x
+        _, j1 = box_indexes(x_c_max, y_c_max, step)
+        # x_c is always continious, so you could have a contour over bound, or which covers all longitudes
+        i1 = i0 + min(int(x_c_max // step - x_c_min // step), nb_x - 1)
         for i_x in range(i0, i1 + 1):
             # we force i_x in 0 360 range
             i_x %= nb_x
@@ -950,12 +952,10 @@ def poly_indexs(x_p, y_p, x_c, y_c):
                         continue
                     if y < y_c_min:
                         continue
-                    # Normalize longitude at +-180° around x_c_min
-                    x = (x_p[i_p] - x_c_min + 180) % 360 + x_c_min - 180
+                    # Normalize longitude from x_c_min
+                    x = (x_p[i_p] - x_c_min) % 360 + x_c_min
                     if x > x_c_max:
                         continue
-                    if x < x_c_min:
-                        continue
                     if winding_number_poly(x, y, v) != 0:
                         indexs[i_p] = i_contour
     return indexs
-- 
2.43.0


From 2af88d8409ded4441edb29f9b62143b873abfd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:32 +0000
Subject: [PATCH 48/92] fix: close tracks when no date is shared

---
 src/py_eddy_tracker/observations/tracking.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index d379378..81f85c9 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -578,6 +578,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
         for i_self, i_other, t0, t1 in self.align_on(other, bins=arange(p0, p1 + 2)):
             i, j, s = self.match(other, i_self=i_self, i_other=i_other, **kwargs)
             indexs.append(other.re_reference_index(j, i_other))
+        if len(indexs) == 0:
+            return other.__class__.new_like(other, 0)
         indexs = concatenate(indexs)
         tr, nb = unique(other.track[indexs], return_counts=True)
         return other.extract_ids(tr[nb >= nb_obs_min])
-- 
2.43.0


From 39d3f67fdcc41d6ebcb9c902d323d56a435beb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:32 +0000
Subject: [PATCH 49/92] fix: compressed identifiers are stored

---
 src/py_eddy_tracker/observations/tracking.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 81f85c9..3458bed 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -212,12 +212,12 @@ class TrackEddiesObservations(GroupEddiesObservations):
         for field in self.fields:
             logger.debug("Copy of field %s ...", field)
             eddies.obs[field] = self.obs[field][mask]
-        if compress_id:
-            list_id = unique(eddies.obs.track)
+        if compress_id and nb_obs_select != 0:
+            list_id = unique(eddies.track)
             list_id.sort()
             id_translate = arange(list_id.max() + 1)
             id_translate[list_id] = arange(len(list_id)) + 1
-            eddies.track = id_translate[eddies.track]
+            eddies.track[:] = id_translate[eddies.track]
         return eddies
 
     @property
@@ -516,7 +516,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
                 list_id.sort()
                 id_translate = arange(list_id.max() + 1)
                 id_translate[list_id] = arange(len(list_id)) + 1
-                new.track = id_translate[new.track]
+                new.track[:] = id_translate[new.track]
         return new
 
     def shape_polygon(self, intern=False):
-- 
2.43.0


From 319cf4b6dd7235959128b164725e311e17fef7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:32 +0000
Subject: [PATCH 50/92] fix: mask given by user is not modified

---
 src/py_eddy_tracker/observations/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 3458bed..51e5a6f 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -495,7 +495,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
 
         if full_path:
             if reject_virtual:
-                mask *= ~self.virtual.astype("bool")
+                mask = mask * ~self.virtual.astype("bool")
             tracks = unique(self.tracks[mask])
             mask = self.get_mask_from_id(tracks)
         elif remove_incomplete:
-- 
2.43.0


From 18097c7a9b163db61e04fc98a344cb0e41bc8d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:32 +0000
Subject: [PATCH 51/92] fix: unknown tracks select nothing, index of empty
 tracks

---
 src/py_eddy_tracker/observations/observation.py | 2 +-
 src/py_eddy_tracker/observations/tracking.py    | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 94634e9..9d3b25d 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2224,7 +2224,7 @@ class EddiesObservations(object):
         .. minigallery:: py_eddy_tracker.EddiesObservations.last_obs
         """
         m = zeros(len(self), dtype="bool")
-        m[-1] = True
+        m[-1:] = True
         m[:-1][self.n[1:] == 0] = True
         return self.extract_with_mask(m)
 
diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 51e5a6f..c0116aa 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -298,6 +298,9 @@ class TrackEddiesObservations(GroupEddiesObservations):
 
     def get_mask_from_id(self, tracks):
         mask = zeros(self.tracks.shape, dtype=bool_)
+        tracks = array(tracks, dtype="i8")
+        # unknown tracks select nothing
+        tracks = tracks[(tracks >= 0) * (tracks < self.index_from_track.size)]
         compute_mask_from_id(tracks, self.index_from_track, self.nb_obs_by_track, mask)
         return mask
 
@@ -306,7 +309,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         If obs are not sorted by track, __first_index_of_track will be unusable
         """
         if self.__first_index_of_track is None:
-            s = self.tracks.max() + 1
+            s = self.tracks.max() + 1 if len(self) else 0
             # Doesn't work => core dump with numba, maybe he wants i8 instead of u4
             # self.__first_index_of_track = -ones(s, self.tracks.dtype)
             # self.__obs_by_track = zeros(s, self.observation_number.dtype)
@@ -340,7 +343,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         :return: Return count by track
         :rtype: array
         """
-        s = self.tracks.max() + 1
+        s = self.tracks.max() + 1 if len(self) else 0
         obs_by_track = zeros(s, "i4")
         count_by_track(self.tracks, mask, obs_by_track)
         return obs_by_track
-- 
2.43.0


From 96457a9f0b98e5775c9e9b3c8c34878adb98150d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:39 +0000
Subject: [PATCH 52/92] fix: direction of tracks with missing ids, across
 origin of longitude, and with a westward span

---
 src/py_eddy_tracker/observations/tracking.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index c0116aa..7a70041 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -385,11 +385,15 @@ class TrackEddiesObservations(GroupEddiesObservations):
         """
         lon = self.longitude
         i0, nb = self.index_from_track, self.nb_obs_by_track
+        # only track with observation
+        m = nb != 0
+        i0, nb = i0[m], nb[m]
         i1 = i0 - 1 + nb
-        d_lon = lon[i1] - lon[i0]
+        # shift is in the range [-180:180]
+        d_lon = (lon[i1] - lon[i0] + 180) % 360 - 180
         m = d_lon < 0 if west else d_lon > 0
         if delta_lon is not None:
-            m *= delta_lon < d_lon
+            m *= delta_lon < abs(d_lon)
         m = m.repeat(nb)
         return self.extract_with_mask(m)
 
@@ -406,6 +410,9 @@ class TrackEddiesObservations(GroupEddiesObservations):
     def extract_in_direction(self, direction, value=0):
         nb_obs = self.nb_obs_by_track
         i_start = self.index_from_track
+        # only track with observation
+        m = nb_obs != 0
+        nb_obs, i_start = nb_obs[m], i_start[m]
         i_stop = i_start + nb_obs - 1
         if direction in ("S", "N"):
             d_lat = self.latitude[i_stop] - self.latitude[i_start]
-- 
2.43.0


From cb73eeff76cbf83dc7c232fb8f3a51b0e8ceac1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:39 +0000
Subject: [PATCH 53/92] fix: loess filter uses first and last observations of
 dataset

---
 src/py_eddy_tracker/observations/tracking.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 7a70041..9e9a89f 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -858,21 +858,23 @@ def track_loess_filter(half_window, x, y, track):
         if i != 0:
             i_previous = i - 1
             dx = x[i] - x[i_previous]
-            while (
-                dx < half_window and i_previous != 0 and cur_track == track[i_previous]
-            ):
+            while dx < half_window and cur_track == track[i_previous]:
                 w = (1 - (dx / half_window) ** 3) ** 3
                 y_sum += y[i_previous] * w
                 w_sum += w
+                if i_previous == 0:
+                    break
                 i_previous -= 1
                 dx = x[i] - x[i_previous]
         if i != last:
             i_next = i + 1
             dx = x[i_next] - x[i]
-            while dx < half_window and i_next != last and cur_track == track[i_next]:
+            while dx < half_window and cur_track == track[i_next]:
                 w = (1 - (dx / half_window) ** 3) ** 3
                 y_sum += y[i_next] * w
                 w_sum += w
+                if i_next == last:
+                    break
                 i_next += 1
                 dx = x[i_next] - x[i]
         y_new[i] = y_sum / w_sum
-- 
2.43.0


From e25c5e622cd3b80b2870f7c0bc361fc09d1b6191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:39 +0000
Subject: [PATCH 54/92] fix: distance along tracks with missing ids is stored
 for all observations

---
 src/py_eddy_tracker/observations/tracking.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 9e9a89f..fdd5314 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -134,7 +134,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         cum_d = cumsum_by_track(d, self.tracks)
         m_last = ones(d.shape, dtype="bool")
         m_last[-1] = False
-        m_last[self.index_from_track[1:] - 1] = False
+        m_last[:-1][self.tracks[1:] != self.tracks[:-1]] = False
         content += f"""
     | {self.nb_tracks} tracks ({
         nb_obs / self.nb_tracks:.2f} obs/tracks, shorter {nb[nb!=0].min()} obs, longer {nb.max()} obs)
@@ -154,7 +154,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         if "distance_next" in self.fields:
             return self
         new = self.add_fields(("distance_next",))
-        new["distance_next"][:1] = self.distance_to_next()
+        new["distance_next"][:] = self.distance_to_next()
         return new
 
     def distance_to_next(self):
@@ -168,10 +168,9 @@ class TrackEddiesObservations(GroupEddiesObservations):
             self.longitude[1:],
             self.latitude[1:],
         )
-        d[self.index_from_track[1:] - 1] = 0
-        d_ = empty(d.shape[0] + 1, dtype=d.dtype)
+        d[self.tracks[1:] != self.tracks[:-1]] = 0
+        d_ = zeros(len(self), dtype=d.dtype)
         d_[:-1] = d
-        d_[-1] = 0
         return d_
 
     def normalize_longitude(self):
-- 
2.43.0


From 542c4d0218ff055108eb3d9b266e87f40e3d8a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:59 +0000
Subject: [PATCH 55/92] fix: virtual observations are inserted in their track
 or segment

---
 src/py_eddy_tracker/observations/groups.py   | 49 +++++++++++++++++++-
 src/py_eddy_tracker/observations/network.py  |  9 +++-
 src/py_eddy_tracker/observations/tracking.py |  4 ++
 3 files changed, 59 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/observations/groups.py b/src/py_eddy_tracker/observations/groups.py
index 81929e1..6a471ee 100644
--- a/src/py_eddy_tracker/observations/groups.py
+++ b/src/py_eddy_tracker/observations/groups.py
@@ -2,7 +2,19 @@ from abc import ABC, abstractmethod
 import logging
 
 from numba import njit, types as nb_types
-from numpy import arange, full, int32, interp, isnan, median, where, zeros
+from numpy import (
+    arange,
+    cumsum,
+    empty,
+    full,
+    int32,
+    interp,
+    isnan,
+    median,
+    unique,
+    where,
+    zeros,
+)
 
 from ..generic import window_index
 from ..poly import create_meshed_particles, poly_indexs
@@ -29,6 +41,8 @@ def get_missing_indices(
         return : np.array([2, 4, 4])
     """
 
+    if array_time.size == 0:
+        return zeros(0, dtype=int32)
     t0 = array_time[0]
     t1 = t0
 
@@ -272,6 +286,12 @@ class GroupEddiesObservations(EddiesObservations, ABC):
     def fix_next_previous_obs(self):
         pass
 
+    @property
+    @abstractmethod
+    def groups_id(self):
+        "Identifier of group (observations which follow each other in time) for each observation"
+        pass
+
     @abstractmethod
     def get_missing_indices(self, dt):
         "Find indexes where observations are missing"
@@ -305,7 +325,11 @@ class GroupEddiesObservations(EddiesObservations, ABC):
     def insert_virtual(self):
         """Insert virtual observations on segments where observations are missing"""
 
-        dt_theorical = median(self.time[1:] - self.time[:-1])
+        # Theorical step is known only inside a group
+        same_group = self.groups_id[1:] == self.groups_id[:-1]
+        if not same_group.any():
+            return self.copy()
+        dt_theorical = median((self.time[1:] - self.time[:-1])[same_group])
         indices = self.get_missing_indices(dt_theorical)
 
         logger.info("%d virtual observation will be added", indices.size)
@@ -322,9 +346,30 @@ class GroupEddiesObservations(EddiesObservations, ABC):
 
         new_TEO = self.new_like(self, size_obs_corrected)
         new_TEO.obs[~mask] = self.obs
+        # new observations belong to the same group as the previous observation
+        i_previous = indices - 1
+        for field in ("track", "segment", "n"):
+            if field in new_TEO.fields:
+                new_TEO.obs[field][mask] = self.obs[field][i_previous]
         new_TEO.filled_by_interpolation(mask)
+        if "n" in new_TEO.fields:
+            # number of observations inserted before in the same group
+            nb = cumsum(mask)
+            groups = empty(size_obs_corrected, dtype=self.groups_id.dtype)
+            groups[~mask], groups[mask] = self.groups_id, self.groups_id[i_previous]
+            i_group, inverse = unique(groups, return_index=True, return_inverse=True)[1:]
+            new_TEO.n[:] += (nb - nb[i_group][inverse]).astype(new_TEO.n.dtype)
+        # links follow observations
+        translate = where(~mask)[0]
+        for field in ("next_obs", "previous_obs"):
+            if field in new_TEO.fields:
+                links = self.obs[field]
+                new_TEO.obs[field][~mask] = where(links == -1, -1, translate[links])
+        # only new observations must be linked with their neighbours
+        virtual = new_TEO.virtual.copy()
         new_TEO.virtual[:] = mask
         new_TEO.fix_next_previous_obs()
+        new_TEO.virtual[~mask] = virtual[~mask]
         return new_TEO
 
     def keep_tracks_by_date(self, date, nb_days):
diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 32516bb..7d52e28 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -160,6 +160,10 @@ class NetworkObservations(GroupEddiesObservations):
             i_stopped = where(nw.segment == self.segment[stopped])[0][0]
             return nw.relatives([i_obs, i_stopped], order=order)
 
+    @property
+    def groups_id(self):
+        return self.segment_track_array
+
     def get_missing_indices(self, dt):
         """Find indices where observations are missing.
 
@@ -168,8 +172,11 @@ class NetworkObservations(GroupEddiesObservations):
 
         :param int,float dt: theorical delta time between 2 observations
         """
+        # Observations follow each other only in a segment
+        groups = self.groups_id.astype("i8")
+        groups[self.track == self.NOGROUP] = -1
         return get_missing_indices(
-            self.time, self.track, dt=dt, flag_untrack=True, indice_untrack=self.NOGROUP
+            self.time, groups, dt=dt, flag_untrack=True, indice_untrack=-1
         )
 
     def fix_next_previous_obs(self):
diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index fdd5314..65df5ef 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -85,6 +85,10 @@ class TrackEddiesObservations(GroupEddiesObservations):
                 continue
             yield self.index(slice(i0, i0 + nb))
 
+    @property
+    def groups_id(self):
+        return self.tracks
+
     def get_missing_indices(self, dt):
         """Find indices where observations are missing.
 
-- 
2.43.0


From 10f2751cc17fd7a40f52b1071540ba7217592a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 56/92] fix: flattening of lines does not write out of its
 array

---
 src/py_eddy_tracker/generic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 28f3d78..415a828 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -379,8 +379,10 @@ def flatten_line_matrix(l_matrix):
         for j in range(sampling):
             out[inc] = l_matrix[i, j]
             inc += 1
-        out[inc] = nan
-        inc += 1
+        # no separator after last line
+        if inc < final_size:
+            out[inc] = nan
+            inc += 1
     return out
 
 
-- 
2.43.0


From b822daf10c6fb1c7c3e01537948c9e8b4b999b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 57/92] fix: empty network could be indexed and normalised

---
 src/py_eddy_tracker/generic.py              | 3 +++
 src/py_eddy_tracker/observations/network.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 415a828..66c352b 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -76,6 +76,9 @@ def build_index(groups):
     (array([0, 2, 2, 3]), array([2, 2, 3, 5]), 1)
     """
 
+    if groups.size == 0:
+        no_index = zeros(0, dtype=numba_types.int_)
+        return no_index, no_index, groups.dtype.type(0)
     i0, i1 = groups.min(), groups.max()
     amplitude = i1 - i0 + 1
     # Index of first observation for each group
diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 7d52e28..b006084 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -2221,6 +2221,8 @@ def build_unique_array(id1, id2):
     """Give a unique id for each (id1, id2) with id1 and id2 increasing monotonically"""
     k = 0
     new_id = empty(id1.shape, dtype=id1.dtype)
+    if id1.size == 0:
+        return new_id
     id1_previous = id1[0]
     id2_previous = id2[0]
     for i in range(id1.shape[0]):
@@ -2235,6 +2237,8 @@ def build_unique_array(id1, id2):
 @njit(cache=True)
 def new_numbering(segs, start=0):
     nb = len(segs)
+    if nb == 0:
+        return
     s0 = segs[0]
     j = start
     for i in range(nb):
-- 
2.43.0


From b8c82776d1c7872dc49892235e3c03b39bd552c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:10 +0000
Subject: [PATCH 58/92] fix: contours of a network building are not those of a
 previous one

---
 src/py_eddy_tracker/observations/network.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index b006084..000b06b 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -37,31 +37,25 @@ from .tracking import TrackEddiesObservations, track_loess_filter, track_median_
 logger = logging.getLogger("pet")
 
 
-class Singleton(type):
-    _instances = {}
-
-    def __call__(cls, *args, **kwargs):
-        if cls not in cls._instances:
-            cls._instances[cls] = super().__call__(*args, **kwargs)
-        return cls._instances[cls]
-
-
-class Buffer(metaclass=Singleton):
+class Buffer:
     __slots__ = (
         "buffersize",
         "contour_name",
         "xname",
         "yname",
         "memory",
+        "DATA",
+        "FLIST",
     )
-    DATA = dict()
-    FLIST = list()
 
     def __init__(self, buffersize, intern=False, memory=False):
         self.buffersize = buffersize
         self.contour_name = EddiesObservations.intern(intern, public_label=True)
         self.xname, self.yname = EddiesObservations.intern(intern)
         self.memory = memory
+        # each buffer has its own data, which depend of contour and files at loading time
+        self.DATA = dict()
+        self.FLIST = list()
 
     def load_contour(self, filename):
         if isinstance(filename, EddiesObservations):
-- 
2.43.0


From 86596884edfaea5d5eee8c378f747bb997b96fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:33 +0000
Subject: [PATCH 59/92] fix: resampling of stack of contours could be compiled
 with default size

---
 src/py_eddy_tracker/dataset/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 0541f2f..74525c6 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -107,7 +107,7 @@ BasePath.lat = lat
 
 
 @njit(cache=True)
-def uniform_resample_stack(vertices, num_fac=2, fixed_size=None):
+def uniform_resample_stack(vertices, num_fac=2, fixed_size=-1):
     x_val, y_val = vertices[:, 0], vertices[:, 1]
     x_new, y_new = uniform_resample(x_val, y_val, num_fac, fixed_size)
     data = empty((x_new.shape[0], 2), dtype=vertices.dtype)
@@ -117,7 +117,7 @@ def uniform_resample_stack(vertices, num_fac=2, fixed_size=None):
 
 
 @njit(cache=True)
-def value_on_regular_contour(x_g, y_g, z_g, m_g, vertices, num_fac=2, fixed_size=None):
+def value_on_regular_contour(x_g, y_g, z_g, m_g, vertices, num_fac=2, fixed_size=-1):
     x_val, y_val = vertices[:, 0], vertices[:, 1]
     x_new, y_new = uniform_resample(x_val, y_val, num_fac, fixed_size)
     return interp2d_geo(x_g, y_g, z_g, m_g, x_new[1:], y_new[1:])
-- 
2.43.0


From 515652ffee726c3decd44836cf5b7d9dd3ed6e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:33 +0000
Subject: [PATCH 60/92] fix: simplify keeps last point when it is the only
 valid one

---
 src/py_eddy_tracker/generic.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 66c352b..577c1de 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -404,15 +404,14 @@ def simplify(x, y, precision=0.1):
     nb = x.shape[0]
     # will be True for kept values
     mask = ones(nb, dtype=bool_)
-    for j in range(0, nb):
-        x_previous, y_previous = x[j], y[j]
-        if isnan(x_previous) or isnan(y_previous):
-            mask[j] = False
-            continue
-        break
+    j = 0
+    while j < nb and (isnan(x[j]) or isnan(y[j])):
+        mask[j] = False
+        j += 1
     # Only nan
-    if j == (nb - 1):
-        return zeros(0, dtype=x.dtype), zeros(0, dtype=x.dtype)
+    if j == nb:
+        return zeros(0, dtype=x.dtype), zeros(0, dtype=y.dtype)
+    x_previous, y_previous = x[j], y[j]
 
     last_nan = False
     for i in range(j + 1, nb):
-- 
2.43.0


From b00da2e97705f1ff5c28d0e259661a2bbf97060b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:33 +0000
Subject: [PATCH 61/92] fix: a segment of one observation which is first of a
 dataset is not trash

---
 src/py_eddy_tracker/observations/network.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 000b06b..5df4f36 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1411,8 +1411,13 @@ class NetworkObservations(GroupEddiesObservations):
 
         :return bool: True if first network is trash
         """
+        if len(self) == 0:
+            return False
         i_start, i_stop, _ = self.index_segment_track
         sl = slice(i_start[0], i_stop[0])
+        # A segment of only one observation is not trash if it is in a network
+        if i_stop[0] - i_start[0] == 1 and self.track[sl.start] != self.NOGROUP:
+            return False
         return (self.previous_obs[sl] == -1).all() and (self.next_obs[sl] == -1).all()
 
     def remove_trash(self):
-- 
2.43.0


From e78bb735825b0a9e4ead345ef6eb081a7e5aa36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:33 +0000
Subject: [PATCH 62/92] fix: triplets of events need main observation

---
 src/py_eddy_tracker/observations/network.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 5df4f36..77a87ec 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1161,6 +1161,9 @@ class NetworkObservations(GroupEddiesObservations):
         idx_m1 = self.next_obs[i_stop]
         # Get mask and valid target
         m = idx_m1 != -1
+        if triplet:
+            # Main eddy before the event could be not available
+            m *= self.previous_obs[idx_m1] != -1
         idx_m1 = idx_m1[m]
         # Sort by time event
         i = self.time[idx_m1].argsort()
@@ -1198,6 +1201,9 @@ class NetworkObservations(GroupEddiesObservations):
         idx_s0 = self.previous_obs[i_start]
         # Get mask and valid target
         m = idx_s0 != -1
+        if triplet:
+            # Main eddy after the event could be not available
+            m *= self.next_obs[idx_s0] != -1
         idx_s0 = idx_s0[m]
         # Sort by time event
         i = self.time[idx_s0].argsort()
-- 
2.43.0


From ac77d847f09c07ab0dd1f1e89f71a975053f3b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:33 +0000
Subject: [PATCH 63/92] fix: networks without common date or with nothing of
 sufficient size

---
 src/py_eddy_tracker/observations/network.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 77a87ec..25e10fd 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -677,6 +677,9 @@ class NetworkObservations(GroupEddiesObservations):
         for i_self, i_other, t0, t1 in self.align_on(other, bins=arange(p0, p1 + 2)):
             i, j, s = self.match(other, i_self=i_self, i_other=i_other, **kwargs)
             indexs.append(other.re_reference_index(j, i_other))
+        if len(indexs) == 0:
+            # No common date
+            return other.extract_with_mask(zeros(other.track.shape, dtype=bool))
         indexs = concatenate(indexs)
         tr, nb = unique(other.track[indexs], return_counts=True)
         m = zeros(other.track.shape, dtype=bool)
@@ -1358,6 +1361,9 @@ class NetworkObservations(GroupEddiesObservations):
             track2_[m] = id2[i_local_target[m]]
             in_other.append(track2_)
 
+        if len(in_self) == 0:
+            # No item with sufficient size
+            return zeros(0, dtype="i4"), zeros(0, dtype="i4")
         return concatenate(in_self), concatenate(in_other)
 
     @classmethod
-- 
2.43.0


From 89251314245584135984e216988ed9e1dcacb6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:33 +0000
Subject: [PATCH 64/92] fix: trash observations of network do not follow each
 other

---
 src/py_eddy_tracker/observations/groups.py  |  5 ++++-
 src/py_eddy_tracker/observations/network.py | 10 +++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/py_eddy_tracker/observations/groups.py b/src/py_eddy_tracker/observations/groups.py
index 6a471ee..93ff405 100644
--- a/src/py_eddy_tracker/observations/groups.py
+++ b/src/py_eddy_tracker/observations/groups.py
@@ -326,7 +326,10 @@ class GroupEddiesObservations(EddiesObservations, ABC):
         """Insert virtual observations on segments where observations are missing"""
 
         # Theorical step is known only inside a group
-        same_group = self.groups_id[1:] == self.groups_id[:-1]
+        groups_id = self.groups_id
+        same_group = groups_id[1:] == groups_id[:-1]
+        # untracked observations do not follow each other
+        same_group[groups_id[1:] == -1] = False
         if not same_group.any():
             return self.copy()
         dt_theorical = median((self.time[1:] - self.time[:-1])[same_group])
diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 25e10fd..96c8c74 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -156,7 +156,10 @@ class NetworkObservations(GroupEddiesObservations):
 
     @property
     def groups_id(self):
-        return self.segment_track_array
+        """Observations follow each other only in a segment, observations of trash are -1"""
+        groups = self.segment_track_array.astype("i8")
+        groups[self.track == self.NOGROUP] = -1
+        return groups
 
     def get_missing_indices(self, dt):
         """Find indices where observations are missing.
@@ -166,11 +169,8 @@ class NetworkObservations(GroupEddiesObservations):
 
         :param int,float dt: theorical delta time between 2 observations
         """
-        # Observations follow each other only in a segment
-        groups = self.groups_id.astype("i8")
-        groups[self.track == self.NOGROUP] = -1
         return get_missing_indices(
-            self.time, groups, dt=dt, flag_untrack=True, indice_untrack=-1
+            self.time, self.groups_id, dt=dt, flag_untrack=True, indice_untrack=-1
         )
 
     def fix_next_previous_obs(self):
-- 
2.43.0


From a18097724e05bd027b3f92cf6acd6e70e291e2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:34 +0000
Subject: [PATCH 65/92] fix: mask of remove_dead_end follows observations when
 network is sorted

---
 src/py_eddy_tracker/observations/network.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 96c8c74..f126951 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1511,9 +1511,14 @@ class NetworkObservations(GroupEddiesObservations):
         self.next_obs[m_next] = -1
         self.next_cost[m_next] = 0
 
-        self.sort()
+        index_order, _ = self.sort()
         if recursive > 0:
-            self.remove_dead_end(nobs, ndays, recursive - 1)
+            if mask is not None:
+                # Mask of observations must follow them
+                mask_obs = zeros(len(self), dtype=bool_)
+                mask_obs[mask] = True
+                mask = mask_obs[index_order]
+            self.remove_dead_end(nobs, ndays, recursive - 1, mask)
 
     def extract_segment(self, segments, absolute=False):
         """Extract given segments
-- 
2.43.0


From 6942b971f23fbf52930a5a4699e74fd16d38f194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:34 +0000
Subject: [PATCH 66/92] fix: index of segments and networks follow a new
 numbering

---
 src/py_eddy_tracker/observations/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index f126951..826e146 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -720,12 +720,14 @@ class NetworkObservations(GroupEddiesObservations):
         """
         for i, _, _ in self.iter_on("track"):
             new_numbering(self.segment[i], start)
+        self.reset_index()
 
     def numbering_network(self, start=1):
         """
         New numbering of network
         """
         new_numbering(self.track, start)
+        self.reset_index()
 
     def only_one_network(self):
         """
-- 
2.43.0


From 8585cdd87a2817c22e11d05830624622667c7642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:34 +0000
Subject: [PATCH 67/92] fix: swap of tracks updates link of main segment and
 only once

---
 src/py_eddy_tracker/observations/network.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 826e146..4799f0a 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1927,6 +1927,7 @@ class NetworkObservations(GroupEddiesObservations):
     ):
         events = self.splitting_event(triplet=True, only_index=True)
         count = 0
+        already_swap = set()
         for i_main, i1, i2 in zip(*events):
             seg_main, _, seg2 = (
                 self.segment_track_array[i_main],
@@ -1950,13 +1951,18 @@ class NetworkObservations(GroupEddiesObservations):
             )
             delta_cost = self.previous_cost[i2] - self.previous_cost[i1]
             if (
-                dt_main <= length_main_max_after_event
+                i_main not in already_swap
+                and dt_main <= length_main_max_after_event
                 and dt_secondary >= length_secondary_min_after_event
                 and last_main_next_obs == -1
                 and delta_cost > delta_pct_max
             ):
                 self.segment[i1 : last_index_main + 1] = self.segment[i2]
                 self.segment[i2 : last_index_secondary + 1] = self.segment[i_main]
+                # Main segment follows now the secondary branch
+                self.next_obs[i_main] = i2
+                self.next_cost[i_main] = self.previous_cost[i2]
+                already_swap.add(i_main)
                 count += 1
         logger.info("%d segmnent swap on %d", count, len(events[0]))
         return self.sort()
-- 
2.43.0


From d0d9dd4791f115c00fbf02b1e232df73eadf7072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:34 +0000
Subject: [PATCH 68/92] fix: cost of link follows link in correct_close_events

---
 src/py_eddy_tracker/observations/network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 4799f0a..a0f8371 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -403,6 +403,7 @@ class NetworkObservations(GroupEddiesObservations):
                 # correct the good segment
                 segment_copy[my_slice] = seg_corrected_copy
                 previous_obs[i_seg_n] = seg_slice.stop - 1
+                self.previous_cost[i_seg_n] = self.next_cost[seg_slice.stop - 1]
 
                 segments_connexion[seg_corrected][0] = my_slice
 
-- 
2.43.0


From 37cb1bd3a8883f8e3c634f0f674cbfc46bc25f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:34 +0000
Subject: [PATCH 69/92] fix: links of network follow observations (index,
 concatenate, merge, insert)

---
 src/py_eddy_tracker/observations/network.py | 58 +++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index a0f8371..103a1c8 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -15,6 +15,7 @@ from numpy import (
     bincount,
     bool_,
     concatenate,
+    delete,
     empty,
     nan,
     ones,
@@ -277,6 +278,63 @@ class NetworkObservations(GroupEddiesObservations):
         new.sign_type = self.sign_type
         return new
 
+    @property
+    def link_fields(self):
+        """Fields which store index of observations"""
+        return [name for name in ("next_obs", "previous_obs") if name in self.fields]
+
+    def index(self, index, reverse=False):
+        """Return obs from self at the index, links to unselected observations are removed."""
+        new = super().index(index, reverse)
+        i = arange(len(self))
+        i = delete(i, index) if reverse else i[index].reshape(-1)
+        # we add 1 for -1 index return index -1
+        translate = -ones(len(self) + 1, dtype="i4")
+        translate[i] = arange(i.size)
+        for name in self.link_fields:
+            new.obs[name] = translate[self.obs[name][i]]
+        return new
+
+    @classmethod
+    def concatenate(cls, observations):
+        new = super().concatenate(observations)
+        i = 0
+        for obs in observations:
+            sl = slice(i, i + len(obs))
+            for name in new.link_fields:
+                link = new.obs[name][sl]
+                link[link != -1] += i
+            i = sl.stop
+        return new
+
+    def merge(self, other):
+        """Merge two datasets."""
+        new = super().merge(other)
+        nb = len(self)
+        for name in new.link_fields:
+            link = new.obs[name][nb:]
+            if name in other.fields:
+                link[link != -1] += nb
+            else:
+                link[:] = -1
+        return new
+
+    def insert_observations(self, other, index):
+        """Insert other obs in self at the given index."""
+        nb, nb_other = len(self), len(other)
+        super().insert_observations(other, index)
+        if nb_other == 0:
+            return self
+        if index < 0:
+            index = nb + index + 1
+        for name in self.link_fields:
+            link = self.obs[name]
+            before, inserted, after = split(link, (index, index + nb_other))
+            for shifted in (before, after):
+                shifted[shifted >= index] += nb_other
+            inserted[inserted != -1] += index
+        return self
+
     def longer_than(self, nb_day_min=-1, nb_day_max=-1):
         """
         Select network on time duration
-- 
2.43.0


From 4eede902408ae29e1c47db6f84b08f901797ac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 70/92] fix: find_link has one mask by direction and no
 recursivity limit

---
 src/py_eddy_tracker/observations/network.py | 55 +++++++++------------
 1 file changed, 24 insertions(+), 31 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 103a1c8..1da3d43 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -553,38 +553,31 @@ class NetworkObservations(GroupEddiesObservations):
                 # backward
                 segments_connexion[n_seg][2].append((i_n, i_slice.stop - 1, seg))
 
-        mask = zeros(segment.size, dtype=bool)
-
-        def func_forward(seg, indice):
-            seg_slice, _forward, _ = segments_connexion[seg]
-
-            mask[indice : seg_slice.stop] = True
-            for i_begin, i_end, seg2 in _forward:
-                if i_begin < indice:
-                    continue
-
-                if not mask[i_end]:
-                    func_forward(seg2, i_end)
-
-        def func_backward(seg, indice):
-            seg_slice, _, _backward = segments_connexion[seg]
-
-            mask[seg_slice.start : indice + 1] = True
-            for i_begin, i_end, seg2 in _backward:
-                if i_begin > indice:
-                    continue
-
-                if not mask[i_end]:
-                    func_backward(seg2, i_end)
-
-        for indice in i_obs:
-            if forward:
-                func_forward(segment[indice], indice)
-
-            if backward:
-                func_backward(segment[indice], indice)
+        # One mask for each direction : an observation which is in the future of an observation
+        # could be also in the past of another one
+        mask_forward = zeros(segment.size, dtype=bool)
+        mask_backward = zeros(segment.size, dtype=bool)
+
+        # No recursivity because there is no limit of number of segments
+        todo = list(i_obs) if forward else list()
+        while todo:
+            indice = todo.pop()
+            if mask_forward[indice]:
+                continue
+            seg_slice, _forward, _ = segments_connexion[segment[indice]]
+            mask_forward[indice : seg_slice.stop] = True
+            todo.extend(i_end for i_begin, i_end, _ in _forward if i_begin >= indice)
+
+        todo = list(i_obs) if backward else list()
+        while todo:
+            indice = todo.pop()
+            if mask_backward[indice]:
+                continue
+            seg_slice, _, _backward = segments_connexion[segment[indice]]
+            mask_backward[seg_slice.start : indice + 1] = True
+            todo.extend(i_end for i_begin, i_end, _ in _backward if i_begin <= indice)
 
-        return self.extract_with_mask(mask)
+        return self.extract_with_mask(mask_forward | mask_backward)
 
     def connexions(self, multi_network=False):
         """Create dictionnary for each segment, gives the segments in interaction with
-- 
2.43.0


From d231ca998233bc18b0e6da37c488cb4744b29031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 71/92] fix: no recursivity limit to explore segments of a
 network

---
 src/py_eddy_tracker/observations/network.py | 76 ++++++++++-----------
 1 file changed, 38 insertions(+), 38 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 1da3d43..51d2fa6 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -20,7 +20,7 @@ from numpy import (
     nan,
     ones,
     percentile,
-    uint16,
+    split,
     uint32,
     unique,
     where,
@@ -618,18 +618,18 @@ class NetworkObservations(GroupEddiesObservations):
 
     @classmethod
     def __close_segment(cls, father, shift, connexions, distance):
-        i_father = father - shift
-        if distance[i_father] == -1:
-            distance[i_father] = 0
-        d_target = distance[i_father] + 1
-        for son in connexions.get(father, list()):
-            i_son = son - shift
-            d_son = distance[i_son]
-            if d_son == -1 or d_son > d_target:
-                distance[i_son] = d_target
-            else:
-                continue
-            cls.__close_segment(son, shift, connexions, distance)
+        distance[father - shift] = 0
+        fathers = [father]
+        # No recursivity because there is no limit of number of segments
+        while fathers:
+            sons = list()
+            for father in fathers:
+                d_target = distance[father - shift] + 1
+                for son in connexions.get(father, list()):
+                    if distance[son - shift] == -1:
+                        distance[son - shift] = d_target
+                        sons.append(son)
+            fathers = sons
 
     def segment_relative_order(self, seg_origine):
         """
@@ -693,21 +693,21 @@ class NetworkObservations(GroupEddiesObservations):
                 segments_connexion[n_seg][1].append(seg)
 
         i_obs = [obs] if not hasattr(obs, "__iter__") else obs
-        distance = zeros(segment.size, dtype=uint16) - 1
-
-        def loop(seg, dist=1):
-            i_slice, links = segments_connexion[seg]
-            d = distance[i_slice.start]
-
-            if dist < d and dist <= order:
-                distance[i_slice] = dist
-                for _seg in links:
-                    loop(_seg, dist + 1)
-
-        for indice in i_obs:
-            loop(segment[indice], 0)
+        mask = zeros(segment.size, dtype=bool)
+        # From an order to the next one
+        segs = set(segment[indice] for indice in i_obs)
+        for _ in range(order + 1):
+            links = set()
+            for seg in segs:
+                i_slice, seg_links = segments_connexion[seg]
+                if not mask[i_slice.start]:
+                    mask[i_slice] = True
+                    links.update(seg_links)
+            segs = links
+            if not segs:
+                break
 
-        return self.extract_with_mask(distance <= order)
+        return self.extract_with_mask(mask)
 
     # keep old names, for backward compatibility
     relative = relatives
@@ -1430,17 +1430,17 @@ class NetworkObservations(GroupEddiesObservations):
         :param array[int] groups: array where tag is stored
         :param dict connexions: gives for one ID of segment all connected segments
         """
-        # If segments are already used we stop recursivity
-        if groups[seg] != 0:
-            return
-        # We set tag for this segment
-        groups[seg] = tag
-        # Get all connexions of this segment
-        segs = connexions.get(seg, None)
-        if segs is not None:
-            for seg in segs:
-                # For each connexion we apply same function
-                cls.__tag_segment(seg, tag, groups, connexions)
+        # Segments to explore, no recursivity because there is no limit of number of segments
+        todo = [seg]
+        while todo:
+            seg = todo.pop()
+            # If segments are already used we stop exploration
+            if groups[seg] != 0:
+                continue
+            # We set tag for this segment
+            groups[seg] = tag
+            # We will explore all connexions of this segment
+            todo.extend(connexions.get(seg, list()))
 
     def tag_segment(self):
         """For each segment, method give a new network id, and all segment are connected
-- 
2.43.0


From 0928803cb7d733d5156f54188675ea712a30751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 72/92] fix: convex does not depend of direction when vertices
 are aligned

---
 src/py_eddy_tracker/poly.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/py_eddy_tracker/poly.py b/src/py_eddy_tracker/poly.py
index e387423..3166942 100644
--- a/src/py_eddy_tracker/poly.py
+++ b/src/py_eddy_tracker/poly.py
@@ -127,18 +127,19 @@ def convex(x, y):
     :rtype: bool
     """
     nb = x.shape[0]
-    x0, y0, x1, y1, x2, y2 = x[-2], y[-2], x[-1], y[-1], x[1], y[1]
-    # if first is left it must be always left if it's right it must be always right
-    ref = is_left(x0, y0, x1, y1, x2, y2)
+    x0, y0, x1, y1 = x[-2], y[-2], x[-1], y[-1]
+    left, right = False, False
     # We skip 0 because it's same than -1
-    # We skip 1 because we tested previously
-    for i in range(2, nb):
-        # shift position
-        x0, y0, x1, y1 = x1, y1, x2, y2
+    for i in range(1, nb):
         x2, y2 = x[i], y[i]
-        # test
-        if ref != is_left(x0, y0, x1, y1, x2, y2):
+        # if one is left it must be always left if it's right it must be always right,
+        # three aligned points are on neither side
+        left |= is_left(x0, y0, x1, y1, x2, y2)
+        right |= is_left(x1, y1, x0, y0, x2, y2)
+        if left and right:
             return False
+        # shift position
+        x0, y0, x1, y1 = x1, y1, x2, y2
     return True
 
 
-- 
2.43.0


From 27bcf639e90defe5414a304cfb8ac70a46428ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 73/92] fix: convex hull with several leftmost points, aligned
 vertices or concave contour

---
 src/py_eddy_tracker/poly.py | 60 +++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 33 deletions(-)

diff --git a/src/py_eddy_tracker/poly.py b/src/py_eddy_tracker/poly.py
index 3166942..962e506 100644
--- a/src/py_eddy_tracker/poly.py
+++ b/src/py_eddy_tracker/poly.py
@@ -148,7 +148,7 @@ def get_convex_hull(x, y):
     """
     Get convex polygon which enclosed current polygon
 
-    Work only if contour is describe anti-clockwise
+    Polygon returned is always describe anti-clockwise
 
     :param array[float] x:
     :param array[float] y:
@@ -156,40 +156,34 @@ def get_convex_hull(x, y):
     :rtype: array,array
     """
     nb = x.shape[0] - 1
+    # leftmost point, the lowest one if there are several
+    i_first = 0
+    for i in range(1, nb):
+        if x[i] < x[i_first] or (x[i] == x[i_first] and y[i] < y[i_first]):
+            i_first = i
     indices = list()
-    # leftmost point
-    i_first = x[:-1].argmin()
-    indices.append(i_first)
-    i_next = (i_first + 1) % nb
-    # Will define bounds line
-    x0, y0, x1, y1 = x[i_first], y[i_first], x[i_next], y[i_next]
-    xf, yf = x0, y0
-    # we will check if no point are right
-    while True:
-        i_test = (i_next + 1) % nb
-        # value to test
-        xt, yt = x[i_test], y[i_test]
-        # We will test all the position until we touch first one,
-        # If all next position are on the left we keep x1, y1
-        # if not we will replace by xt,yt which are more outter
-        while is_left(x0, y0, x1, y1, xt, yt):
-            i_test += 1
-            i_test %= nb
-            if i_test == i_first:
-                x0, y0 = x1, y1
-                indices.append(i_next)
-                i_next += 1
-                i_next %= nb
-                x1, y1 = x[i_next], y[i_next]
-                break
-            xt, yt = x[i_test], y[i_test]
-        if i_test != i_first:
-            i_next = i_test
-            x1, y1 = x[i_next], y[i_next]
-        if i_next == (i_first - 1) % nb:
-            if is_left(x0, y0, x1, y1, xf, yf):
-                indices.append(i_next)
+    i_current = i_first
+    for _ in range(nb):
+        indices.append(i_current)
+        x0, y0 = x[i_current], y[i_current]
+        # we search the point which have all the others on its left
+        i_next = i_current
+        x1, y1 = x0, y0
+        for i in range(nb):
+            xt, yt = x[i], y[i]
+            if xt == x0 and yt == y0:
+                continue
+            if i_next != i_current:
+                if is_left(x0, y0, x1, y1, xt, yt):
+                    continue
+                # if points are aligned we keep the farthest
+                d1, dt = abs(x1 - x0) + abs(y1 - y0), abs(xt - x0) + abs(yt - y0)
+                if not is_left(x0, y0, xt, yt, x1, y1) and dt <= d1:
+                    continue
+            i_next, x1, y1 = i, xt, yt
+        if x1 == x[i_first] and y1 == y[i_first]:
             break
+        i_current = i_next
     indices.append(i_first)
     indices = array(indices)
     return x[indices], y[indices]
-- 
2.43.0


From 82c0acb4a7dd2a9fa9d7f53239e0aaf5a402abf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 74/92] fix: ellipse which follows axis could be fitted

---
 src/py_eddy_tracker/poly.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/poly.py b/src/py_eddy_tracker/poly.py
index 962e506..9da3d97 100644
--- a/src/py_eddy_tracker/poly.py
+++ b/src/py_eddy_tracker/poly.py
@@ -601,7 +601,11 @@ def fit_ellipse(x, y):
     AB3 = ((a - c) ** 2 + b**2) ** 0.5
     A = -((AB1 * (AB2 + AB3)) ** 0.5) / det
     B = -((AB1 * (AB2 - AB3)) ** 0.5) / det
-    theta = arctan((c - a - AB3) / b)
+    if b == 0:
+        # Ellipse follows axis
+        theta = 0.0 if c >= a else -pi / 2
+    else:
+        theta = arctan((c - a - AB3) / b)
     return x0, y0, A, B, theta
 
 
-- 
2.43.0


From 08a17ed67afbe3df4c61fa438d6539324be30141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 75/92] fix: shape error of a contour with a vertex at circle
 center

---
 src/py_eddy_tracker/poly.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/poly.py b/src/py_eddy_tracker/poly.py
index 9da3d97..f6c9732 100644
--- a/src/py_eddy_tracker/poly.py
+++ b/src/py_eddy_tracker/poly.py
@@ -695,8 +695,9 @@ def shape_error(x, y, x0, y0, r):
     # Find distance between circle center and polygon
     for i in range(nb):
         dx, dy = x[i] - x0, y[i] - y0
-        rd = r / (dx**2 + dy**2) ** 0.5
-        if rd < 1:
+        d = (dx**2 + dy**2) ** 0.5
+        if d > r:
+            rd = r / d
             x[i] = x0 + dx * rd
             y[i] = y0 + dy * rd
     return 100 + (p_area - 2 * poly_area(x, y)) / c_area * 100
-- 
2.43.0


From 619ecb737265f0617d082ef5d8a6221d44f03aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 76/92] fix: reduce_size does not read out of array

---
 src/py_eddy_tracker/poly.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/py_eddy_tracker/poly.py b/src/py_eddy_tracker/poly.py
index f6c9732..a3a808b 100644
--- a/src/py_eddy_tracker/poly.py
+++ b/src/py_eddy_tracker/poly.py
@@ -871,13 +871,11 @@ def reduce_size(x, y):
     """
     i = x.shape[0]
     x0, y0 = x[0], y[0]
-    while True:
+    while i > 0 and x[i - 1] == x0 and y[i - 1] == y0:
         i -= 1
-        if x[i] != x0 or y[i] != y0:
-            i += 1
-            # In case of virtual obs all value could be fill with same value, to avoid empty array
-            i = max(3, i)
-            return x[:i], y[:i]
+    # In case of virtual obs all value could be fill with same value, to avoid empty array
+    i = max(3, i)
+    return x[:i], y[:i]
 
 
 @njit(cache=True)
-- 
2.43.0


From b11863637329180b35214fef7aa859cd3e307bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:07 +0000
Subject: [PATCH 77/92] fix: particle_candidate_atlas uses last date

---
 src/py_eddy_tracker/observations/groups.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/groups.py b/src/py_eddy_tracker/observations/groups.py
index 93ff405..206d6ed 100644
--- a/src/py_eddy_tracker/observations/groups.py
+++ b/src/py_eddy_tracker/observations/groups.py
@@ -430,7 +430,10 @@ class GroupEddiesObservations(EddiesObservations, ABC):
         shape = (len(self), 2)
         i_target, pct = full(shape, -1, dtype="i4"), zeros(shape, dtype="i1")
         # Backward or forward
-        times = arange(t_start, t_end - dt) if dt > 0 else arange(t_start - dt, t_end)
+        if dt > 0:
+            times = arange(t_start, t_end - dt + 1)
+        else:
+            times = arange(t_start - dt, t_end + 1)
 
         if callback_coherence is None:
             callback_coherence = self.fill_coherence
-- 
2.43.0


From ccf775876a5d42ebd4aa6089c14b368110fa7c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:07 +0000
Subject: [PATCH 78/92] fix: coherence of networks with only one date to advect

---
 src/py_eddy_tracker/observations/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 51d2fa6..f0d0b27 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1866,7 +1866,7 @@ class NetworkObservations(GroupEddiesObservations):
             )
             logger.info(
                 (
-                    f"coherence {_t} / {range_end-1} ({(_t - range_start) / (range_end - range_start-1):.1%})"
+                    f"coherence {_t} / {range_end-1} ({(_t - range_start + 1) / (range_end - range_start):.1%})"
                     f" : {time.time()-_timestamp:5.2f}s"
                 )
             )
@@ -1943,7 +1943,7 @@ class NetworkObservations(GroupEddiesObservations):
             )
             logger.info(
                 (
-                    f"coherence {_t} / {range_end-1} ({(_t - range_start) / (range_end - range_start-1):.1%})"
+                    f"coherence {_t} / {range_end-1} ({(_t - range_start + 1) / (range_end - range_start):.1%})"
                     f" : {time.time()-_timestamp:5.2f}s"
                 )
             )
-- 
2.43.0


From 47e67b8a4d1879ae5a129cb82d6ab0f3bbba46ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:07 +0000
Subject: [PATCH 79/92] fix: rank of targets does not depend of truncation of
 percents

---
 src/py_eddy_tracker/observations/groups.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/py_eddy_tracker/observations/groups.py b/src/py_eddy_tracker/observations/groups.py
index 206d6ed..f52552c 100644
--- a/src/py_eddy_tracker/observations/groups.py
+++ b/src/py_eddy_tracker/observations/groups.py
@@ -261,21 +261,24 @@ def get_matrix(i_start, i_end, translate_start, translate_end, i_target, pct):
             count[i_start_, i_end_] += 1
         ref[i_start_] += 1
     for i in range(nb_start):
+        # Output could be truncated, so comparisons are done with local values
+        i_ = translate_start[i]
+        pct_0, pct_1 = nb_types.float64(pct[i_, 0]), nb_types.float64(pct[i_, 1])
         for j in range(nb_end):
-            pct_ = count[i, j]
             # If there are particles from i to j
-            if pct_ != 0:
+            if count[i, j] != 0:
                 # Get percent
-                pct_ = pct_ / ref[i] * 100.0
+                pct_ = count[i, j] / ref[i] * 100.0
                 # Get indices in full dataset
-                i_, j_ = translate_start[i], translate_end[j]
-                pct_0 = pct[i_, 0]
+                j_ = translate_end[j]
                 if pct_ > pct_0:
-                    pct[i_, 1] = pct_0
+                    pct_0, pct_1 = pct_, pct_0
+                    pct[i_, 1] = pct[i_, 0]
                     pct[i_, 0] = pct_
                     i_target[i_, 1] = i_target[i_, 0]
                     i_target[i_, 0] = j_
-                elif pct_ > pct[i_, 1]:
+                elif pct_ > pct_1:
+                    pct_1 = pct_
                     pct[i_, 1] = pct_
                     i_target[i_, 1] = j_
     return i_target, pct
-- 
2.43.0


From fbd7595033a2d407c564cb851f7cb67a5c00965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:47 +0000
Subject: [PATCH 80/92] fix: raw load of a file which is not packed like we
 store it

---
 .../observations/observation.py               | 49 ++++++++++++++++---
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 9d3b25d..ff4cdbb 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -1006,19 +1006,23 @@ class EddiesObservations(object):
             eddies = cls(size=nb_obs, **kwargs)
             for variable in var_list:
                 var_inv = VAR_DESCR_inv[variable]
+                # Raw values could be used only if they are packed like we store it
+                raw_variable = raw_data and cls.same_packing(
+                    h_nc.variables[variable], var_inv
+                )
                 # Patch
-                h_nc.variables[variable].set_auto_maskandscale(not raw_data)
+                h_nc.variables[variable].set_auto_maskandscale(not raw_variable)
                 if not hasattr(h_nc.variables[variable], "_FillValue"):
                     # without fill value every value is a real one
                     h_nc.variables[variable].set_auto_mask(False)
                 logger.debug(
                     "Up load %s variable%s",
                     variable,
-                    ", with raw mode" if raw_data else "",
+                    ", with raw mode" if raw_variable else "",
                 )
                 # find unit factor
                 factor = 1
-                if not raw_data:
+                if not raw_variable:
                     input_unit = getattr(h_nc.variables[variable], "unit", None)
                     if input_unit is None:
                         input_unit = getattr(h_nc.variables[variable], "units", None)
@@ -1030,10 +1034,12 @@ class EddiesObservations(object):
                     indexs.get(dim, slice(None))
                     for dim in h_nc.variables[variable].dimensions
                 ]
+                data = h_nc.variables[variable][var_sl]
                 if factor != 1:
-                    eddies.obs[var_inv] = h_nc.variables[variable][var_sl] * factor
-                else:
-                    eddies.obs[var_inv] = h_nc.variables[variable][var_sl]
+                    data = data * factor
+                if raw_data and not raw_variable:
+                    data = cls.pack(data, var_inv)
+                eddies.obs[var_inv] = data
 
             for variable in var_list:
                 var_inv = VAR_DESCR_inv[variable]
@@ -1051,6 +1057,37 @@ class EddiesObservations(object):
 
         return eddies
 
+    @staticmethod
+    def packing(name):
+        """Scale factor and offset used to store a field"""
+        scale_factor = VAR_DESCR[name].get("scale_factor", None)
+        if scale_factor is None:
+            return 1, 0
+        return scale_factor, VAR_DESCR[name].get("add_offset", 0)
+
+    @classmethod
+    def same_packing(cls, variable, name):
+        """True if raw values of a netcdf variable are those which will be store
+
+        :param netCDF4.Variable variable: variable of a file
+        :param str name: field
+        """
+        scale_factor = getattr(variable, "scale_factor", 1)
+        return (scale_factor, getattr(variable, "add_offset", 0)) == cls.packing(name)
+
+    @classmethod
+    def pack(cls, data, name):
+        """Raw values of a field
+
+        :param array data: real values
+        :param str name: field
+        """
+        scale_factor, add_offset = cls.packing(name)
+        if (scale_factor, add_offset) == (1, 0):
+            return data
+        # packed values are integer
+        return ((data.astype("f8") - add_offset) / scale_factor).round()
+
     @staticmethod
     def bound_slice(indexs, dim, nb):
         """Slice of dim with its real bounds
-- 
2.43.0


From 304687f1f04440aaf4f12fcdefd07e4942d2ee20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 81/92] fix: tracking without any association is written and
 loaded

---
 src/py_eddy_tracker/appli/eddies.py | 4 ++--
 src/py_eddy_tracker/tracking.py     | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/py_eddy_tracker/appli/eddies.py b/src/py_eddy_tracker/appli/eddies.py
index c1c7a90..0c323d1 100644
--- a/src/py_eddy_tracker/appli/eddies.py
+++ b/src/py_eddy_tracker/appli/eddies.py
@@ -340,7 +340,7 @@ def track(
 
     logger.info("Start merging")
     c.prepare_merging()
-    logger.info("Longer track saved have %d obs", c.nb_obs_by_tracks.max())
+    logger.info("Longer track saved have %d obs", c.nb_obs_by_tracks.max(initial=0))
     logger.info(
         "The mean length is %d observations for all tracks", c.nb_obs_by_tracks.mean()
     )
@@ -369,7 +369,7 @@ def track(
         short_track.normalize_longitude()
         short_track.filled_by_interpolation(short_track["virtual"] == 1)
 
-    logger.info("Longer track saved have %d obs", c.nb_obs_by_tracks.max())
+    logger.info("Longer track saved have %d obs", c.nb_obs_by_tracks.max(initial=0))
     logger.info(
         "The mean length is %d observations for long track",
         c.nb_obs_by_tracks.mean(),
diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 1523853..8aff504 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -473,7 +473,8 @@ class Correspondances(list):
         for name, data in datas.items():
             h_v = handler.variables[name]
             h_v[:] = data
-            if "File" not in name:
+            # Without association, there are no values
+            if "File" not in name and data.size:
                 h_v.min = h_v[:].min()
                 h_v.max = h_v[:].max()
 
@@ -543,7 +544,7 @@ class Correspondances(list):
             class_kw=class_kw,
         )
 
-        id_max = 0
+        current_id = 0
         for i, nb_elt in enumerate(datas["nb_link"][:]):
             logger.debug(
                 "Link between %s and %s", datas["FileIn"][i], datas["FileOut"][i]
@@ -559,9 +560,9 @@ class Correspondances(list):
                 correspondance[name] = datas[name][i, :nb_elt]
             # A step could have no association
             if nb_elt != 0:
-                id_max = max(id_max, correspondance["id"].max())
+                current_id = max(current_id, int(correspondance["id"].max()) + 1)
             obj.append(correspondance)
-        obj.current_id = id_max + 1
+        obj.current_id = current_id
         return obj
 
     @classmethod
-- 
2.43.0


From e56b15fc9e1534024e0927512876443c5554e77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 82/92] fix: merge of correspondences identifies tracks by
 their shared links

---
 src/py_eddy_tracker/tracking.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 8aff504..80d4616 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -16,6 +16,7 @@ from numpy import (
     bool_,
     concatenate,
     empty,
+    intersect1d,
     isin,
     ma,
     ones,
@@ -187,30 +188,36 @@ class Correspondances(list):
         i = where(other.datasets == array(self.datasets[-1]))[0]
         if len(i) != 1:
             raise Exception("More than one intersection")
+        if i[0] == 0:
+            raise Exception("Two files in common are needed")
 
         # Merge
         # Create a hash table
         translate = empty(other.current_id, dtype="u4")
         translate[:] = self.UINT32_MAX
+        # Id are known by links which are in both
+        nb = min(len(self), i[0])
+        for links, other_links in zip(self[-nb:], other[i[0] - nb : i[0]]):
+            _, i_self, i_other = intersect1d(
+                links["out"], other_links["out"], return_indices=True
+            )
+            translate[other_links["id"][i_other]] = links["id"][i_self]
 
-        translate[other[i[0] - 1]["id"]] = self[-1]["id"]
-
-        nb_max = other[i[0] - 1]["id"].max()
-        mask = translate == self.UINT32_MAX
-        # We won't translate previous id
-        mask[:nb_max] = False
-        # Next id will be shifted
+        # Next id used will be shifted
+        mask = zeros(other.current_id, dtype=bool_)
+        for items in other[i[0] :]:
+            mask[items["id"]] = True
+        mask *= translate == self.UINT32_MAX
         translate[mask] = arange(mask.sum()) + self.current_id
 
-        # Translate
+        # Translate and extend with other obs
         for items in other[i[0] :]:
             items["id"] = translate[items["id"]]
-        # Extend with other obs
-        self.extend(other[i[0] :])
+            self.append(items)
         # Extend datasets list, which are bounds so we add one
         self.datasets.extend(other.datasets[i[0] + 1 :])
         # We set new id available
-        self.current_id = translate[-1] + 1
+        self.current_id += int(mask.sum())
 
     def store_correspondance(
         self, i_previous, i_current, nb_real_obs, association_cost
-- 
2.43.0


From c4626debf57f6f1d078d1d94035490ffce1899a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 83/92] fix: files to track are found by name in any folder,
 whatever their names, and need a date

---
 src/py_eddy_tracker/appli/eddies.py | 50 ++++++++++++++++-------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/src/py_eddy_tracker/appli/eddies.py b/src/py_eddy_tracker/appli/eddies.py
index 0c323d1..cda1e08 100644
--- a/src/py_eddy_tracker/appli/eddies.py
+++ b/src/py_eddy_tracker/appli/eddies.py
@@ -6,12 +6,12 @@ import argparse
 from datetime import datetime
 from glob import glob
 import logging
-from os import mkdir
+from os import fsdecode, mkdir
 from os.path import basename, dirname, exists, join as join_path
 from re import compile as re_compile
 
 from netCDF4 import Dataset
-from numpy import bincount, bytes_, empty, in1d, unique
+from numpy import bincount, empty, in1d, unique
 from yaml import safe_load
 
 from .. import EddyParser, identify_time
@@ -233,17 +233,18 @@ def browse_dataset_in(
     sub_sampling_step=1,
     files=None,
 ):
-    pattern_regexp = re_compile(".*/" + date_regexp)
-    if files is not None:
-        filenames = bytes_(files)
-    else:
+    # File could be given without folder
+    pattern_regexp = re_compile("(?:.*/)?" + date_regexp)
+    if files is None:
         full_path = join_path(data_dir, files_model)
         logger.info("Search files : %s", full_path)
-        filenames = bytes_(glob(full_path))
+        files = glob(full_path)
+    filenames = [fsdecode(filename) for filename in files]
 
+    size = max(map(len, filenames), default=1)
     dataset_list = empty(
         len(filenames),
-        dtype=[("filename", "S500"), ("date", "datetime64[s]")],
+        dtype=[("filename", f"U{size}"), ("date", "datetime64[s]")],
     )
     dataset_list["filename"] = filenames
 
@@ -258,7 +259,7 @@ def browse_dataset_in(
     for item in dataset_list:
         str_date = None
         if mode_attrs:
-            with Dataset(item["filename"].decode("utf-8")) as h:
+            with Dataset(item["filename"]) as h:
                 if len(mode_attrs) == 1:
                     str_date = getattr(h, mode_attrs[0])
                 else:
@@ -268,11 +269,12 @@ def browse_dataset_in(
             if result:
                 str_date = result.groups()[0]
 
-        if str_date is not None:
-            if date_model is None:
-                item["date"] = identify_time(str_date)
-            else:
-                item["date"] = datetime.strptime(str_date, date_model)
+        if str_date is None:
+            raise Exception("No date found for file %s" % item["filename"])
+        if date_model is None:
+            item["date"] = identify_time(str_date)
+        else:
+            item["date"] = datetime.strptime(str_date, date_model)
 
     dataset_list.sort(order=["date", "filename"])
     steps = unique(dataset_list["date"][1:] - dataset_list["date"][:-1])
@@ -284,15 +286,17 @@ def browse_dataset_in(
         dataset_list = dataset_list[::sub_sampling_step]
 
     if start_date is not None or end_date is not None:
-        logger.info(
-            "Available grid from %s to %s",
-            dataset_list[0]["date"],
-            dataset_list[-1]["date"],
-        )
+        if len(dataset_list):
+            logger.info(
+                "Available grid from %s to %s",
+                dataset_list[0]["date"],
+                dataset_list[-1]["date"],
+            )
         logger.info("Filtering grid by time %s, %s", start_date, end_date)
-        mask = (dataset_list["date"] >= start_date) * (dataset_list["date"] <= end_date)
-
-        dataset_list = dataset_list[mask]
+        if start_date is not None:
+            dataset_list = dataset_list[dataset_list["date"] >= start_date]
+        if end_date is not None:
+            dataset_list = dataset_list[dataset_list["date"] <= end_date]
     return dataset_list
 
 
@@ -307,7 +311,7 @@ def track(
     correspondances_only=False,
     **kw_c,
 ):
-    kw = dict(date_regexp=".*_([0-9]*?).[nz].*")
+    kw = dict(date_regexp=".*_([0-9T]*?).[nz].*")
     if isinstance(pattern, list):
         kw.update(dict(data_dir=None, files_model=None, files=pattern))
     else:
-- 
2.43.0


From fdee48799a59e2d5a6209419ea0cc0d80431a41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 84/92] fix: final tracking without long track, or across
 origin of longitude

---
 src/scripts/EddyFinalTracking | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/scripts/EddyFinalTracking b/src/scripts/EddyFinalTracking
index fad4b02..1bd8662 100644
--- a/src/scripts/EddyFinalTracking
+++ b/src/scripts/EddyFinalTracking
@@ -53,7 +53,7 @@ if __name__ == "__main__":
 
     logger.info(
         "The longest tracks have %d observations",
-        CORRESPONDANCES.nb_obs_by_tracks.max(),
+        CORRESPONDANCES.nb_obs_by_tracks.max(initial=0),
     )
     logger.info(
         "The mean length is %d observations before filtering",
@@ -71,16 +71,19 @@ if __name__ == "__main__":
     SHORT_CORRESPONDANCES = CORRESPONDANCES._copy()
     SHORT_CORRESPONDANCES.shorter_than(size_max=NB_OBS_MIN)
 
-    CORRESPONDANCES.longer_than(size_min=NB_OBS_MIN)
-
-    FINAL_EDDIES = CORRESPONDANCES.merge()
     SHORT_TRACK = SHORT_CORRESPONDANCES.merge()
+    if CORRESPONDANCES.longer_than(size_min=NB_OBS_MIN) is False:
+        FINAL_EDDIES = SHORT_TRACK.empty_dataset()
+    else:
+        FINAL_EDDIES = CORRESPONDANCES.merge()
 
     # We flag obs
     if CORRESPONDANCES.virtual:
         FINAL_EDDIES["virtual"][:] = FINAL_EDDIES["time"] == 0
+        FINAL_EDDIES.normalize_longitude()
         FINAL_EDDIES.filled_by_interpolation(FINAL_EDDIES["virtual"] == 1)
         SHORT_TRACK["virtual"][:] = SHORT_TRACK["time"] == 0
+        SHORT_TRACK.normalize_longitude()
         SHORT_TRACK.filled_by_interpolation(SHORT_TRACK["virtual"] == 1)
 
     # Total running time
@@ -88,7 +91,7 @@ if __name__ == "__main__":
     logger.info("Duration : %s", FULL_TIME)
 
     logger.info(
-        "Longer track saved have %d obs", CORRESPONDANCES.nb_obs_by_tracks.max()
+        "Longer track saved have %d obs", CORRESPONDANCES.nb_obs_by_tracks.max(initial=0)
     )
     logger.info(
         "The mean length is %d observations after filtering",
-- 
2.43.0


From 0e7e09166a8338ba8377c54cf4f9bf45c4ff79ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 85/92] fix: period of EddySubSetter is in days in raw mode

---
 src/scripts/EddySubSetter | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/scripts/EddySubSetter b/src/scripts/EddySubSetter
index 6cace38..b0560f4 100644
--- a/src/scripts/EddySubSetter
+++ b/src/scripts/EddySubSetter
@@ -5,7 +5,7 @@ Subset eddy Dataset
 """
 import logging
 
-from py_eddy_tracker import EddyParser
+from py_eddy_tracker import EddyParser, VAR_DESCR
 from py_eddy_tracker.observations.tracking import TrackEddiesObservations
 
 logger = logging.getLogger("pet")
@@ -119,8 +119,12 @@ if __name__ == "__main__":
 
     # Select with a start date and end date
     if args.period is not None:
+        period = args.period
+        if dataset.raw_data:
+            # Time isn't decoded
+            period = [bound / VAR_DESCR["time"]["scale_factor"] for bound in period]
         dataset = dataset.extract_with_period(
-            args.period,
+            period,
             full_path=args.full_path,
             remove_incomplete=args.remove_incomplete,
             reject_virtual=args.reject_virtual,
-- 
2.43.0


From 2fa1f80dd4c9967bcfcc4716696a57866b49fc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 86/92] fix: network subset with dead ends and trash removed

---
 src/py_eddy_tracker/appli/network.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/appli/network.py b/src/py_eddy_tracker/appli/network.py
index b8c2da5..bd87e1f 100644
--- a/src/py_eddy_tracker/appli/network.py
+++ b/src/py_eddy_tracker/appli/network.py
@@ -140,13 +140,16 @@ def subset_network():
         "if 0 it is not used",
     )
     args = parser.parse_args()
-    n = NetworkObservations.load_file(args.input, raw_data=True)
+    # Data must be decoded, bounds of options are in days
+    n = NetworkObservations.load_file(args.input)
     if args.ids is not None:
         n = n.networks(args.ids)
     if args.length is not None:
         n = n.longer_than(*args.length)
     if args.remove_dead_end is not None:
-        n = n.remove_dead_end(*args.remove_dead_end)
+        n.remove_dead_end(*args.remove_dead_end)
+    if args.remove_trash:
+        n = n.remove_trash()
     if args.period is not None:
         n = n.extract_with_period(args.period)
     n.write_file(filename=args.out)
-- 
2.43.0


From 9b94ebedafc15f0d2d04431df39055c0c4f489bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 87/92] fix: variables removed at loading are not replaced by
 zeros

---
 .../observations/observation.py               | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index ff4cdbb..5acaab2 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -860,8 +860,8 @@ class EddiesObservations(object):
                 track_extra_variables.append(var_inv)
         kwargs["track_extra_variables"] = track_extra_variables
         kwargs["raw_data"] = raw_data
-        kwargs["only_variables"] = (
-            None if include_vars is None else [VAR_DESCR_inv[i] for i in include_vars]
+        kwargs["only_variables"] = cls.only_variables_from_names(
+            remove_vars, include_vars
         )
         kwargs.update(class_kwargs)
         eddies = cls(size=nb_obs, **kwargs)
@@ -997,10 +997,8 @@ class EddiesObservations(object):
                 if var_inv not in cls.ELEMENTS and var_inv not in array_variables:
                     kwargs["track_extra_variables"].append(var_inv)
             kwargs["raw_data"] = raw_data
-            kwargs["only_variables"] = (
-                None
-                if include_vars is None
-                else [VAR_DESCR_inv[i] for i in include_vars]
+            kwargs["only_variables"] = cls.only_variables_from_names(
+                remove_vars, include_vars
             )
             kwargs.update(class_kwargs)
             eddies = cls(size=nb_obs, **kwargs)
@@ -1111,6 +1109,15 @@ class EddiesObservations(object):
             var_list = [i for i in var_list if i not in remove_vars]
         return var_list
 
+    @staticmethod
+    def only_variables_from_names(remove_vars, include_vars):
+        """Restriction of fields, variables which are removed must not be replaced by default values"""
+        if include_vars is not None:
+            return [VAR_DESCR_inv[i] for i in include_vars]
+        if remove_vars is not None:
+            removed = [VAR_DESCR_inv.get(i) for i in remove_vars]
+            return [i for i in VAR_DESCR if i not in removed]
+
     @staticmethod
     def compare_units(input_unit, output_unit, name):
         if output_unit is None or input_unit is None or output_unit == input_unit:
-- 
2.43.0


From d1cf5ecdef9cd084f7e2c5ee3457ce81f5014939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 88/92] fix: informations on tracks and networks without
 observation

---
 src/py_eddy_tracker/observations/tracking.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 65df5ef..edb5876 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -123,6 +123,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
 
     def __repr__(self):
         content = super().__repr__()
+        if len(self) == 0:
+            return f"{content}\n    | 0 tracks"
         t0, t1 = self.period
         period = t1 - t0 + 1
         nb = self.nb_obs_by_track
-- 
2.43.0


From d2129d915d847d0f8ba2b5c66f0e746acf350100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 89/92] fix: informations on a network without observation

---
 src/py_eddy_tracker/observations/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index f0d0b27..93331b2 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -113,13 +113,13 @@ class NetworkObservations(GroupEddiesObservations):
         )
         period = (self.period[1] - self.period[0]) / 365.25
         nb_by_network = self.network_size()
-        nb_trash = 0 if self.ref_index != 0 else nb_by_network[0]
+        nb_trash = (self.track == self.NOGROUP).sum()
         big = 50_000
         infos = [
             f"Atlas with {self.nb_network} networks ({self.nb_network / period:0.0f} networks/year),"
             f" {self.nb_segment} segments ({self.nb_segment / period:0.0f} segments/year), {len(self)} observations ({len(self) / period:0.0f} observations/year)",
             f"    {m_event.size} merging ({m_event.size / period:0.0f} merging/year), {s_event.size} splitting ({s_event.size / period:0.0f} splitting/year)",
-            f"    with {(nb_by_network > big).sum()} network with more than {big} obs and the biggest have {nb_by_network.max()} observations ({nb_by_network[nb_by_network> big].sum()} observations cumulate)",
+            f"    with {(nb_by_network > big).sum()} network with more than {big} obs and the biggest have {nb_by_network.max(initial=0)} observations ({nb_by_network[nb_by_network> big].sum()} observations cumulate)",
             f"    {nb_trash} observations in trash",
         ]
         return "\n".join(infos)
-- 
2.43.0


From dd5d76a0e6e4aaafdfddf1fd5a43cd63b496d2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 90/92] fix: unknown identifiers of networks select nothing

---
 src/py_eddy_tracker/observations/network.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 93331b2..71df930 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -225,8 +225,13 @@ class NetworkObservations(GroupEddiesObservations):
         if id_networks is None:
             return self.index_network[1] - self.index_network[0]
         else:
-            i = id_networks - self.index_network[2]
-            return self.index_network[1][i] - self.index_network[0][i]
+            i0, i1, ref = self.index_network
+            i = array(id_networks, dtype="i8") - ref
+            # unknown network has no observation
+            m = (i >= 0) * (i < i0.size)
+            size = zeros(i.shape, dtype=i0.dtype)
+            size[m] = (i1 - i0)[i[m]]
+            return size
 
     def unique_segment_to_id(self, id_unique):
         """Return id network and id segment for a unique id
@@ -2342,7 +2347,11 @@ def generate_mask_from_ids(id_networks, nb, istart, iend, i0):
     """
     m = zeros(nb, dtype="bool")
     for i in id_networks:
-        for j in range(istart[i - i0], iend[i - i0]):
+        k = int(i) - int(i0)
+        # unknown id selects nothing
+        if k < 0 or k >= istart.size:
+            continue
+        for j in range(istart[k], iend[k]):
             m[j] = True
     return m
 
-- 
2.43.0


From afb480566a8f86420decc7c72c9478f733cf1a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:27 +0000
Subject: [PATCH 91/92] fix: detection on a field without level line

---
 src/py_eddy_tracker/dataset/grid.py | 7 +++++--
 src/py_eddy_tracker/eddy_feature.py | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 74525c6..d9feb02 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -730,9 +730,12 @@ class GridDataset(object):
         if precision is not None:
             data = (data / precision).round() * precision
         # Compute levels for ssh
-        z_min, z_max = data.min(), data.max()
-        d_z = z_max - z_min
         data_tmp = data[~data.mask]
+        if data_tmp.size == 0:
+            # No value, there will be no eddies
+            data_tmp = zeros(1)
+        z_min, z_max = data_tmp.min(), data_tmp.max()
+        d_z = z_max - z_min
         epsilon = 0.001  # in %
         z_min_p, z_max_p = (
             percentile(data_tmp, epsilon),
diff --git a/src/py_eddy_tracker/eddy_feature.py b/src/py_eddy_tracker/eddy_feature.py
index 4486545..eb7c07f 100644
--- a/src/py_eddy_tracker/eddy_feature.py
+++ b/src/py_eddy_tracker/eddy_feature.py
@@ -489,7 +489,7 @@ class Contours(object):
             nb_contour,
         )
         # Type for coordinates
-        coord_dtype = contour.vertices.dtype
+        coord_dtype = "f8"
 
         # Array declaration
         self.x_value = empty(nb_pt, dtype=coord_dtype)
-- 
2.43.0


From beb54d9577871bd0e8fa9154898bdef14df9b628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:27 +0000
Subject: [PATCH 92/92] fix: nearest level line searched only among lines
 around the point

---
 src/py_eddy_tracker/eddy_feature.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/eddy_feature.py b/src/py_eddy_tracker/eddy_feature.py
index eb7c07f..dcbf86e 100644
--- a/src/py_eddy_tracker/eddy_feature.py
+++ b/src/py_eddy_tracker/eddy_feature.py
@@ -14,6 +14,7 @@ from numpy import (
     concatenate,
     digitize,
     empty,
+    inf,
     int_,
     ma,
     ones,
@@ -759,11 +760,9 @@ def index_from_nearest_path_with_pt_in_bbox_(
 
     # Flag to check if we iterate
     find_contour = 0
-    # We select the first pt of the first contour in the level
-    # to initialize dist
+    # Only contours with bbox which contain pt are candidates
     i_ref = i_start_c
-    i_start_pt = indices_of_first_pts[i_start_c]
-    dist_ref = (x_value[i_start_pt] - xpt) ** 2 + (y_value[i_start_pt] - ypt) ** 2
+    dist_ref = inf
 
     # We iterate over contour in the same level
     for i_elt_c in range(i_start_c, i_end_c):
-- 
2.43.0

