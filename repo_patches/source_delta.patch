From 187bfbff8a2a948419e4e28e24925e4ac27e4dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 001/125] fix: poly_indexs raised on an empty list of positions

mask_from_polygons failed as soon as the first polygons held all observations.
---
 src/py_eddy_tracker/poly.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/poly.py b/src/py_eddy_tracker/poly.py
index b584961..2eb6c11 100644
--- a/src/py_eddy_tracker/poly.py
+++ b/src/py_eddy_tracker/poly.py
@@ -912,10 +912,12 @@ def poly_indexs(x_p, y_p, x_c, y_c):
     """
     nb_x = 360
     step = 1.0
-    i, i_order = group_obs(x_p, y_p, step, nb_x)
     nb_p = x_p.shape[0]
     nb_c = x_c.shape[0]
     indexs = -ones(nb_p, dtype=numba_types.int32)
+    if nb_p == 0:
+        return indexs
+    i, i_order = group_obs(x_p, y_p, step, nb_x)
     # Adress table to get test bloc
     start_index, end_index, i_first = build_index(i[i_order])
     nb_bloc = end_index.size
-- 
2.43.0


From 6bba2ae904073f64d7feeb275fd2e2c046437d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 002/125] fix: points of contours wider than 180 degrees were
 missed by poly_indexs

---
 src/py_eddy_tracker/poly.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/poly.py b/src/py_eddy_tracker/poly.py
index 2eb6c11..aed8367 100644
--- a/src/py_eddy_tracker/poly.py
+++ b/src/py_eddy_tracker/poly.py
@@ -950,12 +950,10 @@ def poly_indexs(x_p, y_p, x_c, y_c):
                         continue
                     if y < y_c_min:
                         continue
-                    # Normalize longitude at +-180° around x_c_min
-                    x = (x_p[i_p] - x_c_min + 180) % 360 + x_c_min - 180
+                    # Normalize longitude in the 360° east of x_c_min
+                    x = (x_p[i_p] - x_c_min) % 360 + x_c_min
                     if x > x_c_max:
                         continue
-                    if x < x_c_min:
-                        continue
                     if winding_number_poly(x, y, v) != 0:
                         indexs[i_p] = i_contour
     return indexs
-- 
2.43.0


From b2d6a23f8d63bd4798aecc29c99fb4f0484919a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 003/125] fix: get_wrap_vertice tore contours which straddle
 the opposite meridian

---
 src/py_eddy_tracker/poly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/poly.py b/src/py_eddy_tracker/poly.py
index aed8367..82664a1 100644
--- a/src/py_eddy_tracker/poly.py
+++ b/src/py_eddy_tracker/poly.py
@@ -402,8 +402,8 @@ def get_wrap_vertice(x0, y0, x1, y1, i):
     """
     x0_, x1_ = x0[i], x1[i]
     if abs(x0_[0] - x1_[0]) > 180:
-        ref = x0_[0] - x0.dtype.type(180)
-        x1_ = (x1_ - ref) % 360 + ref
+        # The whole contour is shifted, to not be cut if it's on the opposite meridian
+        x1_ = x1_ + x1.dtype.type(360 * round((x0_[0] - x1_[0]) / 360))
     return create_vertice(x0_, y0[i]), create_vertice(x1_, y1[i])
 
 
-- 
2.43.0


From c6fafe61c448408387ed3103d7f5d1991c0a3120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 004/125] fix: get_convex_hull kept a vertex enclosed by the
 edge which ends on the first point

---
 src/py_eddy_tracker/poly.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/py_eddy_tracker/poly.py b/src/py_eddy_tracker/poly.py
index 82664a1..7939982 100644
--- a/src/py_eddy_tracker/poly.py
+++ b/src/py_eddy_tracker/poly.py
@@ -175,6 +175,10 @@ def get_convex_hull(x, y):
             i_test += 1
             i_test %= nb
             if i_test == i_first:
+                if len(indices) > 1 and not is_left(x0, y0, x1, y1, xf, yf):
+                    # First point is more outter, all the following points are enclosed
+                    i_next = -1
+                    break
                 x0, y0 = x1, y1
                 indices.append(i_next)
                 i_next += 1
@@ -182,6 +186,8 @@ def get_convex_hull(x, y):
                 x1, y1 = x[i_next], y[i_next]
                 break
             xt, yt = x[i_test], y[i_test]
+        if i_next == -1:
+            break
         if i_test != i_first:
             i_next = i_test
             x1, y1 = x[i_next], y[i_next]
-- 
2.43.0


From a1355b4478fad95e4af3ef7b36119cee10fa1830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 005/125] fix: simplify lost the last position when it was the
 only valid one

---
 src/py_eddy_tracker/generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 612def6..31c070f 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -377,7 +377,7 @@ def simplify(x, y, precision=0.1):
             continue
         break
     # Only nan
-    if j == (nb - 1):
+    if nb == 0 or (j == (nb - 1) and not mask[j]):
         return zeros(0, dtype=x.dtype), zeros(0, dtype=x.dtype)
 
     last_nan = False
-- 
2.43.0


From 39a5e8d6007330a1fafa6c6c62060f82b7343a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 006/125] fix: flatten_line_matrix wrote one value after the
 end of its output

---
 src/py_eddy_tracker/generic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 31c070f..0fe629e 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -350,8 +350,9 @@ def flatten_line_matrix(l_matrix):
         for j in range(sampling):
             out[inc] = l_matrix[i, j]
             inc += 1
-        out[inc] = nan
-        inc += 1
+        if i != nb_line - 1:
+            out[inc] = nan
+            inc += 1
     return out
 
 
-- 
2.43.0


From 8349148ee4efbe41771142faa06f16c4ac46e315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 007/125] fix: reduce_size read outside of its arrays when all
 positions are the same

---
 src/py_eddy_tracker/poly.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/py_eddy_tracker/poly.py b/src/py_eddy_tracker/poly.py
index 7939982..ab9768d 100644
--- a/src/py_eddy_tracker/poly.py
+++ b/src/py_eddy_tracker/poly.py
@@ -875,13 +875,10 @@ def reduce_size(x, y):
     """
     i = x.shape[0]
     x0, y0 = x[0], y[0]
-    while True:
+    # In case of virtual obs all value could be fill with same value, to avoid empty array we keep 3 positions
+    while i > 3 and x[i - 1] == x0 and y[i - 1] == y0:
         i -= 1
-        if x[i] != x0 or y[i] != y0:
-            i += 1
-            # In case of virtual obs all value could be fill with same value, to avoid empty array
-            i = max(3, i)
-            return x[:i], y[:i]
+    return x[:i], y[:i]
 
 
 @njit(cache=True)
-- 
2.43.0


From 8c3db1124a68b8fd18592ddea4bccecce7421935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 008/125] fix: window_index read its window centers after the
 end

---
 src/py_eddy_tracker/generic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 0fe629e..c72d4f1 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -642,12 +642,14 @@ def window_index(x, x0, half_window=1):
         while x_ > x_min and j_min < nb_pt:
             first_index[j_min] = i
             j_min += 1
-            x_min = x0[j_min] - half_window
+            if j_min < nb_pt:
+                x_min = x0[j_min] - half_window
         # if x bigger than x_max , we found bound and search next one
         while x_ > x_max and j_max < nb_pt:
             last_index[j_max] = i
             j_max += 1
-            x_max = x0[j_max] + half_window
+            if j_max < nb_pt:
+                x_max = x0[j_max] + half_window
         if j_max == nb_pt:
             break
     for i in range(j_min, nb_pt):
-- 
2.43.0


From f9c93a28ca2f67b8ba67504eff236c637f0739c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 009/125] fix: iter_on mixed bins or yielded out of range
 values

- unsorted unsigned variables (track, n) were taken as sorted
- values out of bins were attributed to a bin when data are sorted
- iteration failed when no value is in bins
---
 src/py_eddy_tracker/observations/observation.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index b39f7f8..b13e377 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -594,17 +594,20 @@ class EddiesObservations(object):
             for x_, i0, i1 in zip(x0, first_index, last_index):
                 yield i_ordered[i0:i1], x_ - window, x_ + window
         else:
-            d = x[1:] - x[:-1]
+            if len(x) == 0:
+                return
             if bins is None:
                 bins = arange(x.min(), x.max() + 2)
             elif not isinstance(bins, ndarray):
                 bins = array(bins)
             nb_bins = len(bins) - 1
 
-            # Not monotonous
-            if (d < 0).any():
+            # Not monotonous (a difference is never negative with unsigned integer)
+            if (x[1:] < x[:-1]).any():
                 # If bins cover a small part of value
                 test, translate, x = iter_mode_reduce(x, bins)
+                if len(x) == 0:
+                    return
                 # convert value in bins number
                 i = numba_digitize(x, bins) - 1
                 # Order by bins
@@ -627,6 +630,8 @@ class EddiesObservations(object):
                 i0, i1 = i0[m], i1[m]
                 for i0_, i1_ in zip(i0, i1):
                     i_bins = i[i0_]
+                    if i_bins == -1 or i_bins == nb_bins:
+                        continue
                     yield slice(i0_, i1_), bins[i_bins], bins[i_bins + 1]
 
     def align_on(self, other, var_name="time", all_ref=False, **kwargs):
-- 
2.43.0


From 209869889d8fa94f6842142db7978e87bd1200af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 010/125] fix: align_on with all_ref failed or dropped groups
 when other has no group left

---
 src/py_eddy_tracker/observations/observation.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index b13e377..492f834 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -30,6 +30,7 @@ from numpy import (
     histogram,
     histogram2d,
     in1d,
+    inf,
     isnan,
     linspace,
     ma,
@@ -651,19 +652,15 @@ class EddiesObservations(object):
         else:
             iter_self = self.iter_on(var_name[0], **kwargs)
             iter_other = other.iter_on(var_name[1], **kwargs)
-        indexs_other, b0_other, b1_other = iter_other.__next__()
+        # No more group in other
+        end_other = None, inf, inf
+        indexs_other, b0_other, b1_other = next(iter_other, end_other)
         for indexs_self, b0_self, b1_self in iter_self:
-            if b0_self > b0_other:
-                try:
-                    while b0_other < b0_self:
-                        indexs_other, b0_other, b1_other = iter_other.__next__()
-                except StopIteration:
-                    break
+            while b0_other < b0_self:
+                indexs_other, b0_other, b1_other = next(iter_other, end_other)
             if b0_self < b0_other:
                 if all_ref:
-                    yield indexs_self, empty(
-                        0, dtype=indexs_self.dtype
-                    ), b0_self, b1_self
+                    yield indexs_self, empty(0, dtype="i8"), b0_self, b1_self
                 continue
             yield indexs_self, indexs_other, b0_self, b1_self
 
-- 
2.43.0


From 882b1b557467bf207d286822552e24ebc38c35b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 011/125] fix: GridCollection.interp failed on masked arrays

---
 src/py_eddy_tracker/dataset/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index edb96ba..4fc713a 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2409,8 +2409,8 @@ class GridCollection:
         g0, g1 = h0.grid(grid_name), h1.grid(grid_name)
         m0, m1 = h0.get_mask(g0), h0.get_mask(g1)
         kw = dict(x=lons, y=lats, nearest=method == "nearest")
-        v0 = interp2d_geo(h0.x_c, h0.y_c, g0, m0, **kw)
-        v1 = interp2d_geo(h1.x_c, h1.y_c, g1, m1, **kw)
+        v0 = interp2d_geo(h0.x_c, h0.y_c, g0.data, m0, **kw)
+        v1 = interp2d_geo(h1.x_c, h1.y_c, g1.data, m1, **kw)
         w = (t - t0) / (t1 - t0)
         return v1 * w + v0 * (1 - w)
 
-- 
2.43.0


From 4ef6cbf885805039ce665f1f5804a10cc7314e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 012/125] fix: nearest interpolation returned values stored
 under the mask

---
 src/py_eddy_tracker/generic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index c72d4f1..83f4caf 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -196,19 +196,20 @@ def interp2d_geo(x_g, y_g, z_g, m_g, x, y, nearest=False):
     :rtype: array
     """
     if nearest:
-        return interp2d_nearest(x_g, y_g, z_g, x, y)
+        return interp2d_nearest(x_g, y_g, z_g, m_g, x, y)
     else:
         return interp2d_bilinear(x_g, y_g, z_g, m_g, x, y)
 
 
 @njit(cache=True, fastmath=True)
-def interp2d_nearest(x_g, y_g, z_g, x, y):
+def interp2d_nearest(x_g, y_g, z_g, m_g, x, y):
     """
     Nearest interpolation with wrapping if circular
 
     :param array x_g: coordinates of grid
     :param array y_g: coordinates of grid
     :param array z_g: Grid value
+    :param array m_g: Boolean grid, True if value is masked
     :param array x: coordinate where interpolate z
     :param array y: coordinate where interpolate z
     :return: z interpolated
@@ -230,6 +231,9 @@ def interp2d_nearest(x_g, y_g, z_g, x, y):
         if i0 >= nb_x or i0 < 0 or j0 < 0 or j0 >= nb_y:
             z[i] = nan
             continue
+        if m_g[i0, j0]:
+            z[i] = nan
+            continue
         z[i] = z_g[i0, j0]
     return z
 
-- 
2.43.0


From 6a43cdd6e7e6ca11aade5f025e727ab2b4461ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 013/125] fix: compute_stencil used stale values beyond the
 borders of regional grids

---
 src/py_eddy_tracker/dataset/grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 4fc713a..6626a11 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2950,7 +2950,8 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
             h_3, h_2, h_1, h0 = h[-4, j], h[-3, j], h[-2, j], h[-1, j]
             m_3, m_2, m_1, m0 = m[-4, j], m[-3, j], m[-2, j], m[-1, j]
         else:
-            m_3, m_2, m_1, m0 = False, False, False, False
+            # Nothing is available before the first cell
+            m_3, m_2, m_1, m0 = True, True, True, True
         h1, h2, h3, h4 = h[0, j], h[1, j], h[2, j], h[3, j]
         m1, m2, m3, m4 = m[0, j], m[1, j], m[2, j], m[3, j]
         for i in range(nb_x):
@@ -2965,7 +2966,7 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
                     h4 = h[i_, j]
                 else:
                     # When we are out
-                    m4 = False
+                    m4 = True
             else:
                 m4 = m[i_, j]
                 h4 = h[i_, j]
-- 
2.43.0


From a7e79e1bf7bd4e8a86599911fb5a2f456c1355a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 014/125] fix: compute_stencil used masked values around
 isolated cells

---
 src/py_eddy_tracker/dataset/grid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 6626a11..1d961c8 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2989,6 +2989,10 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
                     m_out[i, j] = False
                     continue
                 continue
+            if m1 and m_1:
+                # No neighbour available
+                m_out[i, j] = True
+                continue
             if m2 or m_2 or stencil_halfwidth == 1:
                 grad[i, j] = (h1 - h_1) / 2 * d_
                 m_out[i, j] = False
-- 
2.43.0


From c7d5cb57bfc64299182224eafae1400fc62b39fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 015/125] fix: pixels of a contour were wrong on another
 longitude branch or across borders of regional grids

---
 src/py_eddy_tracker/generic.py |  9 +++++++--
 src/py_eddy_tracker/poly.py    | 16 ++++++++--------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 83f4caf..f0c5ac6 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -600,8 +600,13 @@ def bbox_indice_regular(vertices, x0, y0, xstep, ystep, N, circular, x_size):
     if circular:
         slice_x = (i_x0 - N) % x_size, (i_x1 + N + 1) % x_size
     else:
-        slice_x = max(i_x0 - N, 0), i_x1 + N + 1
-    slice_y = i_y0 - N, i_y1 + N + 1
+        # Contour could be on another longitude branch than grid and could exceed grid
+        x_mid = x0[0] + x_size * xstep / 2.0
+        x_shift = floor(((lon_min + lon_max) / 2.0 - x_mid) / 360.0 + 0.5) * 360.0
+        i_x0 = numba_types.int32(round((lon_min - x_shift - x0[0]) / xstep))
+        i_x1 = numba_types.int32(round((lon_max - x_shift - x0[0]) / xstep))
+        slice_x = max(i_x0 - N, 0), max(i_x1 + N + 1, 0)
+    slice_y = max(i_y0 - N, 0), max(i_y1 + N + 1, 0)
     return slice_x, slice_y
 
 
diff --git a/src/py_eddy_tracker/poly.py b/src/py_eddy_tracker/poly.py
index ab9768d..7ae2f82 100644
--- a/src/py_eddy_tracker/poly.py
+++ b/src/py_eddy_tracker/poly.py
@@ -7,7 +7,7 @@ import heapq
 
 from Polygon import Polygon
 from numba import njit, prange, types as numba_types
-from numpy import arctan, array, concatenate, empty, nan, ones, pi, where, zeros
+from numpy import arctan, array, concatenate, empty, floor, nan, ones, pi, where, zeros
 from numpy.linalg import lstsq
 
 from .generic import build_index
@@ -722,13 +722,11 @@ def get_pixel_in_regular(vertices, x_c, y_c, x_start, x_stop, y_start, y_stop):
     :param int x_stop: south index of contour
     :param int y_stop: north index of contour
     """
+    # To have grid on the same longitude branch than contour
+    x_mid = (vertices[:, 0].min() + vertices[:, 0].max()) / 2.0
     if x_stop < x_start:
-        x_ref = vertices[0, 0]
-        x_array = (
-            (concatenate((x_c[x_start:], x_c[:x_stop])) - x_ref + 180) % 360
-            + x_ref
-            - 180
-        )
+        x_array = concatenate((x_c[x_start:], x_c[:x_stop]))
+        x_array = x_array + floor((x_mid - x_array) / 360.0 + 0.5) * 360.0
         return winding_number_grid_in_poly(
             x_array,
             y_c[y_start:y_stop],
@@ -739,8 +737,10 @@ def get_pixel_in_regular(vertices, x_c, y_c, x_start, x_stop, y_start, y_stop):
             vertices,
         )
     else:
+        x_array = x_c[x_start:x_stop]
+        x_array = x_array + floor((x_mid - x_array) / 360.0 + 0.5) * 360.0
         return winding_number_grid_in_poly(
-            x_c[x_start:x_stop],
+            x_array,
             y_c[y_start:y_stop],
             x_start,
             x_stop,
-- 
2.43.0


From 24482d26a77562580f2f92c7db6a77aaddd9d545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 016/125] fix: max and min of a grid in contours used masked
 values

---
 src/py_eddy_tracker/observations/observation.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 492f834..783fed7 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2609,11 +2609,16 @@ def grid_stat(x_c, y_c, grid, mask, x, y, result, circular=False, method="mean")
                 result[elt] = v_sum / nb_
         elif max_method:
             v_max = -1e40
+            nb_ = 0
             for i_, j_ in zip(i, j):
-                values = grid[i_, j_]
-                # FIXME must use mask
-                v_max = max(v_max, values)
-            result[elt] = v_max
+                if mask[i_, j_]:
+                    continue
+                v_max = max(v_max, grid[i_, j_])
+                nb_ += 1
+            if nb_ == 0:
+                result[elt] = nan
+            else:
+                result[elt] = v_max
 
 
 class VirtualEddiesObservations(EddiesObservations):
-- 
2.43.0


From 5acc66f30daf784cc0ff89ffaf293d07796f1599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 017/125] fix: grid_box_stat stored each percentile in the
 following box and lost the last one

---
 src/py_eddy_tracker/observations/observation.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 783fed7..a43968a 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2540,10 +2540,12 @@ def grid_box_stat(x_c, y_c, grid, mask, x, y, value, circular=False, method=50):
             raise Exception("x indices underflow")
         if (i >= nb_x).any():
             raise Exception("x indices overflow")
-        if (j < 0).any():
-            raise Exception("y indices underflow")
-        if (j >= nb_y).any():
-            raise Exception("y indices overflow")
+    if (j < 0).any():
+        raise Exception("y indices underflow")
+    if (j >= nb_y).any():
+        raise Exception("y indices overflow")
+    if i.size == 0:
+        return
     abs_i = j * nb_x + i
     k_sort = abs_i.argsort()
     i0, j0 = i[k_sort[0]], j[k_sort[0]]
@@ -2553,13 +2555,16 @@ def grid_box_stat(x_c, y_c, grid, mask, x, y, value, circular=False, method=50):
         # group change
         if i_ != i0 or j_ != j0:
             # apply method and store result
-            grid[i_, j_] = percentile(values, method)
-            mask[i_, j_] = False
+            grid[i0, j0] = percentile(values, method)
+            mask[i0, j0] = False
             # start new group
             i0, j0 = i_, j_
             # reset list
             values.clear()
         values.append(value[k])
+    # last group
+    grid[i0, j0] = percentile(values, method)
+    mask[i0, j0] = False
 
 
 @njit(cache=True)
-- 
2.43.0


From f4ac8594b84854005ac196869092933096544394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 018/125] fix: grid_box_stat failed on masked data

---
 src/py_eddy_tracker/observations/observation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index a43968a..8b99875 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2295,6 +2295,7 @@ class EddiesObservations(object):
         data = self[varname] if data is None else data
         if hasattr(data, "mask"):
             filter = self.merge_filters(~data.mask, self.merge_filters(filter))
+            data = data.data
         else:
             filter = self.merge_filters(filter)
         x, y, data = x[filter], y[filter], data[filter]
-- 
2.43.0


From 3fe938a2190b0b24ea0349ab6f0bb673480b8698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 019/125] fix: kernels of filters were not centered when they
 reached the pole

---
 src/py_eddy_tracker/dataset/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 1d961c8..a81cb73 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1382,7 +1382,9 @@ class RegularGridDataset(GridDataset):
         x_valid = where(k_valid.sum(axis=1))[0]
         x_slice = slice(x_valid[0], x_valid[-1] + 1)
         y_valid = where(k_valid.sum(axis=0))[0]
-        y_slice = slice(y_valid[0], y_valid[-1] + 1)
+        # Same margin on both side to keep kernel centered (kernel could go over the pole)
+        y_margin = min(y_valid[0], kernel_.shape[1] - 1 - y_valid[-1])
+        y_slice = slice(y_margin, kernel_.shape[1] - y_margin)
         return kernel_[x_slice, y_slice]
 
     def kernel_lanczos(self, lat, wave_length, order=1):
-- 
2.43.0


From 91044ced72db568c1979e7ada1e07ff607184f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 020/125] fix: particles south of the grid were advected with
 velocities of the northern border

---
 src/py_eddy_tracker/dataset/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index a81cb73..4c64669 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2709,7 +2709,7 @@ def get_uv_quad(i0, j0, u, v, m, nb_x=0):
         i1 %= nb_x
     i_max, j_max = m.shape
 
-    if i1 >= i_max or j1 >= j_max:
+    if i0 < 0 or j0 < 0 or i1 >= i_max or j1 >= j_max:
         return True, nan, nan, nan, nan, nan, nan, nan, nan
 
     if m[i0, j0] or m[i0, j1] or m[i1, j0] or m[i1, j1]:
-- 
2.43.0


From 1e55cfcd4fe66aed82ef4af316381789f3792c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 021/125] fix: advection extrapolated velocities in time when
 it started between two grids

---
 src/py_eddy_tracker/dataset/grid.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 4c64669..32fbfc8 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2597,8 +2597,10 @@ class GridCollection:
             yield t, x, y
 
     def get_next_time_step(self, t_init):
+        nb = len(self.datasets)
         for i, (t, dataset) in enumerate(self.datasets):
-            if t < t_init:
+            # First time step must be the last one before (or at) t_init
+            if i + 1 < nb and self.datasets[i + 1][0] <= t_init:
                 continue
             dataset.populate()
             logger.debug(f"i={i}, t={t}, dataset={dataset}")
@@ -2608,7 +2610,8 @@ class GridCollection:
         i = len(self.datasets)
         for t, dataset in reversed(self.datasets):
             i -= 1
-            if t > t_init:
+            # First time step must be the first one after (or at) t_init
+            if i > 0 and self.datasets[i - 1][0] >= t_init:
                 continue
             dataset.populate()
             logger.debug(f"i={i}, t={t}, dataset={dataset}")
-- 
2.43.0


From 3749d9f416953997e785c0868a7c4dbe7565aaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 022/125] fix: advection failed on grids without mask array

---
 src/py_eddy_tracker/dataset/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 32fbfc8..0f6132c 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2040,7 +2040,7 @@ class RegularGridDataset(GridDataset):
         if backward:
             u = -u
             v = -v
-        m = u.mask + v.mask
+        m = self.get_mask(u) + self.get_mask(v)
         return u.data, v.data, m
 
     def advect(self, x, y, u_name, v_name, nb_step=10, rk4=True, **kw):
-- 
2.43.0


From 39c5651e21fd7cfa899c2a0b5dbe66a7197fc7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 023/125] fix: UnRegularGridDataset could not be loaded

---
 src/py_eddy_tracker/dataset/grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 0f6132c..6caedf4 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1095,8 +1095,9 @@ class UnRegularGridDataset(GridDataset):
             self.vars[x_name] = h.variables[x_name][sl_x]
             self.vars[y_name] = h.variables[y_name][sl_y]
 
-            self.x_c = self.vars[x_name]
-            self.y_c = self.vars[y_name]
+            # numba doesn't accept masked array
+            self.x_c = array(self.vars[x_name])
+            self.y_c = array(self.vars[y_name])
 
             self.init_pos_interpolator()
 
-- 
2.43.0


From c967f1371f2a4b1c07dc67e6bd5409d1581c4636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 024/125] fix: write of grids lost the mask or failed when
 variables have others dimensions

---
 src/py_eddy_tracker/dataset/grid.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 6caedf4..06cd0c4 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -12,6 +12,7 @@ from numba import njit, prange, types as numba_types
 from numpy import (
     arange,
     array,
+    broadcast_to,
     ceil,
     concatenate,
     cos,
@@ -393,10 +394,23 @@ class GridDataset(object):
                     setattr(var, key, value)
 
                 infos = self.variables_description[varname]["infos"]
+                data = self.vars[varname]
                 if infos.get("transpose", False):
-                    var[:] = self.vars[varname].T
-                else:
-                    var[:] = self.vars[varname]
+                    data = data.T
+                if data.ndim < var.ndim:
+                    # netCDF4 loses mask when it broadcasts and handles only first dimensions
+                    known = (*self.x_dim, *self.y_dim)
+                    data = data.reshape(
+                        [
+                            size if dim in known else 1
+                            for dim, size in zip(var.dimensions, var.shape)
+                        ]
+                    )
+                    data = ma.array(
+                        broadcast_to(ma.getdata(data), var.shape),
+                        mask=broadcast_to(ma.getmaskarray(data), var.shape),
+                    )
+                var[:] = data
 
             for attr, value in self.global_attrs.items():
                 setattr(h_out, attr, value)
-- 
2.43.0


From 247e16c8e52d998375a572ec13e17be34dbd3fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 025/125] fix: pixels of a contour were read outside of
 unregular grids

---
 src/py_eddy_tracker/dataset/grid.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 06cd0c4..58efa6d 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1122,11 +1122,12 @@ class UnRegularGridDataset(GridDataset):
 
     def bbox_indice(self, vertices):
         dist, idx = self.index_interp.query(vertices, k=1)
-        i_y = idx % self.x_c.shape[1]
-        i_x = int_((idx - i_y) / self.x_c.shape[1])
+        nb_x, nb_y = self.x_c.shape
+        i_y = idx % nb_y
+        i_x = int_((idx - i_y) / nb_y)
         return (
-            (max(i_x.min() - self.N, 0), i_x.max() + self.N + 1),
-            (max(i_y.min() - self.N, 0), i_y.max() + self.N + 1),
+            (max(i_x.min() - self.N, 0), min(i_x.max() + self.N + 1, nb_x)),
+            (max(i_y.min() - self.N, 0), min(i_y.max() + self.N + 1, nb_y)),
         )
 
     def get_pixels_in(self, contour):
-- 
2.43.0


From e4ccdf9db955d4c4985d9f448c7617e5686c277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 026/125] fix: circular grids were not seen with corner
 coordinates or rounding of longitudes

---
 src/py_eddy_tracker/dataset/grid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 58efa6d..aa1ab1f 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1346,9 +1346,9 @@ class RegularGridDataset(GridDataset):
     def is_circular(self):
         """Check if the grid is circular"""
         if self._is_circular is None:
-            self._is_circular = (
-                abs((self.x_bounds[0] % 360) - (self.x_bounds[-1] % 360)) < 0.0001
-            )
+            # gap between the next position after the last one and the first one
+            gap = (2 * self.x_c[-1] - self.x_c[-2] - self.x_c[0]) % 360
+            self._is_circular = min(gap, 360 - gap) < 0.0001
         return self._is_circular
 
     @staticmethod
-- 
2.43.0


From f0e914986e92d6cd107b40b106186a1f3d108a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:16 +0000
Subject: [PATCH 027/125] fix: nearest contour of a level could be one which
 doesn't have point in its bbox

---
 src/py_eddy_tracker/eddy_feature.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/eddy_feature.py b/src/py_eddy_tracker/eddy_feature.py
index 8bc139a..8caf778 100644
--- a/src/py_eddy_tracker/eddy_feature.py
+++ b/src/py_eddy_tracker/eddy_feature.py
@@ -751,11 +751,9 @@ def index_from_nearest_path_with_pt_in_bbox_(
 
     # Flag to check if we iterate
     find_contour = 0
-    # We select the first pt of the first contour in the level
-    # to initialize dist
+    # Only contours with pt in bbox must be used to get nearest
     i_ref = i_start_c
-    i_start_pt = indices_of_first_pts[i_start_c]
-    dist_ref = (x_value[i_start_pt] - xpt) ** 2 + (y_value[i_start_pt] - ypt) ** 2
+    dist_ref = 1e20
 
     # We iterate over contour in the same level
     for i_elt_c in range(i_start_c, i_end_c):
-- 
2.43.0


From 5e39e3e63c3031907a10852aa0658717d9e7821b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:16 +0000
Subject: [PATCH 028/125] fix: identification failed when the field has no
 isoline

---
 src/py_eddy_tracker/eddy_feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/eddy_feature.py b/src/py_eddy_tracker/eddy_feature.py
index 8caf778..4b03182 100644
--- a/src/py_eddy_tracker/eddy_feature.py
+++ b/src/py_eddy_tracker/eddy_feature.py
@@ -481,7 +481,7 @@ class Contours(object):
             nb_contour,
         )
         # Type for coordinates
-        coord_dtype = contour.vertices.dtype
+        coord_dtype = "f8"
 
         # Array declaration
         self.x_value = empty(nb_pt, dtype=coord_dtype)
-- 
2.43.0


From 2127b0f26518ea409e4e84c802a8360c2ee01267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 029/125] fix: mean speed along contours failed on unregular
 grids

---
 src/py_eddy_tracker/dataset/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index aa1ab1f..b0cecb5 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -107,7 +107,7 @@ BasePath.lat = lat
 
 
 @njit(cache=True)
-def uniform_resample_stack(vertices, num_fac=2, fixed_size=None):
+def uniform_resample_stack(vertices, num_fac=2, fixed_size=-1):
     x_val, y_val = vertices[:, 0], vertices[:, 1]
     x_new, y_new = uniform_resample(x_val, y_val, num_fac, fixed_size)
     data = empty((x_new.shape[0], 2), dtype=vertices.dtype)
@@ -117,7 +117,7 @@ def uniform_resample_stack(vertices, num_fac=2, fixed_size=None):
 
 
 @njit(cache=True)
-def value_on_regular_contour(x_g, y_g, z_g, m_g, vertices, num_fac=2, fixed_size=None):
+def value_on_regular_contour(x_g, y_g, z_g, m_g, vertices, num_fac=2, fixed_size=-1):
     x_val, y_val = vertices[:, 0], vertices[:, 1]
     x_new, y_new = uniform_resample(x_val, y_val, num_fac, fixed_size)
     return interp2d_geo(x_g, y_g, z_g, m_g, x_new[1:], y_new[1:])
-- 
2.43.0


From 683a9857a7d1bb215f67722ddf1634a5304b60d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:15 +0000
Subject: [PATCH 030/125] fix: observations could not be loaded from a member
 of an archive

---
 src/py_eddy_tracker/observations/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 8b99875..d9562b0 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -769,7 +769,7 @@ class EddiesObservations(object):
         For `**kwargs` look at :py:meth:`load_from_zarr` or :py:meth:`load_from_netcdf`
         """
         filename_ = (
-            filename.filename if isinstance(filename, ExFileObject) else filename
+            filename.name if isinstance(filename, ExFileObject) else filename
         )
         if isinstance(filename, zarr.storage.MutableMapping):
             return cls.load_from_zarr(filename, **kwargs)
-- 
2.43.0


From 72a545720cd15eb8aa0da196c9f5befa44b047f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:15 +0000
Subject: [PATCH 031/125] fix: tracks without time could not be written

---
 src/py_eddy_tracker/observations/tracking.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 164f972..0d1431e 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -233,8 +233,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
             "NetCDF Climate and Forecast (CF) Metadata Convention Standard Name Table"
         )
         h_nc.date_created = datetime.now().strftime("%Y-%m-%dT%H:%M:%SZ")
-        t = h_nc.variables[VAR_DESCR_inv["j1"]]
-        if t.size:
+        t = h_nc.variables.get(VAR_DESCR_inv["j1"], None)
+        if t is not None and t.size:
             delta = t.max - t.min + 1
             h_nc.time_coverage_duration = "P%dD" % delta
             d_start = datetime(1950, 1, 1) + timedelta(int(t.min))
-- 
2.43.0


From b2de35da273af785cddf0803b273456c142eb50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:15 +0000
Subject: [PATCH 032/125] fix: zarr without array variables could not be loaded

---
 src/py_eddy_tracker/observations/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index d9562b0..da2dd4b 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -819,7 +819,7 @@ class EddiesObservations(object):
         var_list = cls.build_var_list(list(h_zarr.keys()), remove_vars, include_vars)
 
         nb_obs = getattr(h_zarr, var_list[0]).shape[0]
-        track_array_variables = h_zarr.attrs["track_array_variables"]
+        track_array_variables = h_zarr.attrs.get("track_array_variables", 0)
 
         if indexs is not None and "obs" in indexs:
             sl = indexs["obs"]
-- 
2.43.0


From feb565d1013ac09a71c3c63d849d78e7602cd616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:15 +0000
Subject: [PATCH 033/125] fix: load of a slice failed without stop or with
 bounds after the end

---
 .../observations/observation.py                | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index da2dd4b..d2c0b78 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -823,14 +823,11 @@ class EddiesObservations(object):
 
         if indexs is not None and "obs" in indexs:
             sl = indexs["obs"]
-            sl = slice(sl.start, min(sl.stop, nb_obs))
-            if sl.stop is not None:
-                nb_obs = sl.stop
-            if sl.start is not None:
-                nb_obs -= sl.start
+            start, stop, _ = slice(sl.start, sl.stop).indices(nb_obs)
+            nb_obs = max(stop - start, 0)
             if sl.step is not None:
-                indexs["obs"] = slice(sl.start, sl.stop)
                 logger.warning("step of slice won't be use")
+            indexs = {**indexs, "obs": slice(start, start + nb_obs)}
         logger.debug("%d observations will be load", nb_obs)
         kwargs = dict()
 
@@ -971,14 +968,11 @@ class EddiesObservations(object):
             nb_obs = len(h_nc.dimensions[obs_dim])
             if indexs is not None and obs_dim in indexs:
                 sl = indexs[obs_dim]
-                sl = slice(sl.start, min(sl.stop, nb_obs))
-                if sl.stop is not None:
-                    nb_obs = sl.stop
-                if sl.start is not None:
-                    nb_obs -= sl.start
+                start, stop, _ = slice(sl.start, sl.stop).indices(nb_obs)
+                nb_obs = max(stop - start, 0)
                 if sl.step is not None:
-                    indexs[obs_dim] = slice(sl.start, sl.stop)
                     logger.warning("step of slice won't be use")
+                indexs = {**indexs, obs_dim: slice(start, start + nb_obs)}
             logger.debug("%d observations will be load", nb_obs)
             kwargs = dict()
             if array_dim in h_nc.dimensions:
-- 
2.43.0


From 13a5c32773a219cbb576026594cea1aadb5843bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:15 +0000
Subject: [PATCH 034/125] fix: raw load of zarr truncated packed values

---
 src/py_eddy_tracker/observations/observation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index d2c0b78..60a7f55 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -924,6 +924,8 @@ class EddiesObservations(object):
                     data -= add_offset
                 if scale_factor is not None:
                     data /= scale_factor
+                    # packed values are integers
+                    data = data.round()
 
             sl_out = slice(i - i_start, i - i_start + buffer_size)
             handler_eddies[sl_out] = data
-- 
2.43.0


From 9c9f04e98d142f3ea1ea6391253607b2fe0d5202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:15 +0000
Subject: [PATCH 035/125] fix: empty dataset with rotation type could not be
 loaded

---
 src/py_eddy_tracker/observations/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 60a7f55..c9b1205 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -1028,7 +1028,7 @@ class EddiesObservations(object):
 
             for variable in var_list:
                 var_inv = VAR_DESCR_inv[variable]
-                if var_inv == "type_cyc":
+                if var_inv == "type_cyc" and h_nc.variables[variable].size:
                     eddies.sign_type = h_nc.variables[variable][0]
             if eddies.sign_type is None:
                 title = getattr(h_nc, "title", None)
-- 
2.43.0


From b8ea08d3cb2d9e1789fec0ef7f0373a44d9ce4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 036/125] fix: merge of two slices gave the union instead of
 the intersection

---
 src/py_eddy_tracker/observations/observation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index c9b1205..cef791a 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -1979,8 +1979,9 @@ class EddiesObservations(object):
             reject = ones(len(self), dtype="bool")
             reject[filter1] = False
             if isinstance(filter2, slice):
-                reject[filter2] = False
-                return ~reject
+                reject2 = ones(len(self), dtype="bool")
+                reject2[filter2] = False
+                return ~(reject | reject2)
             # Mask case
             elif filter2.dtype == bool:
                 return ~reject * filter2
-- 
2.43.0


From 30bdc0fd70c6290814c7cfd063f67d756cf97429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 037/125] fix: index failed with slices without bounds, with a
 step or beyond the end

---
 src/py_eddy_tracker/observations/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index cef791a..1ce185b 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -726,7 +726,7 @@ class EddiesObservations(object):
         if hasattr(index, "__iter__"):
             size = len(index)
         elif isinstance(index, slice):
-            size = index.stop - index.start
+            size = len(range(*index.indices(len(self))))
         eddies = self.new_like(self, size)
         eddies.obs[:] = self.obs[index]
         eddies.sign_type = self.sign_type
-- 
2.43.0


From 9e3a04c3d403f0dcb566763340553f09dc081d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 038/125] fix: insertion in an empty dataset shared its memory
 with the inserted one and lost rotation type

---
 src/py_eddy_tracker/observations/observation.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 1ce185b..542fba0 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -671,11 +671,10 @@ class EddiesObservations(object):
         insert_size = len(other)
         self_size = len(self)
         new_size = self_size + insert_size
-        if self_size == 0:
-            self.observations = other.obs
-            return self
-        elif insert_size == 0:
+        if insert_size == 0:
             return self
+        if self_size == 0 and self.sign_type is None:
+            self.sign_type = other.sign_type
         if index < 0:
             index = self_size + index + 1
         eddies = self.new_like(self, new_size)
-- 
2.43.0


From 7814af232f954011ba64ee4e03e7f21341c19701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 039/125] fix: period and tracks index were not refreshed by
 insertion of observations

---
 src/py_eddy_tracker/observations/network.py     | 1 +
 src/py_eddy_tracker/observations/observation.py | 5 +++++
 src/py_eddy_tracker/observations/tracking.py    | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index a2e2dae..653fbe9 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -130,6 +130,7 @@ class NetworkObservations(GroupEddiesObservations):
         return "\n".join(infos)
 
     def reset_index(self):
+        super().reset_index()
         self._index_network = None
         self._index_segment_track = None
         self._segment_track_array = None
diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 542fba0..31064e7 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -682,8 +682,13 @@ class EddiesObservations(object):
         eddies.obs[index : index + insert_size] = other.obs
         eddies.obs[index + insert_size :] = self.obs[index:]
         self.observations = eddies.obs
+        self.reset_index()
         return self
 
+    def reset_index(self):
+        """Forget what was computed from previous observations"""
+        self.period_ = None
+
     def append(self, other):
         """Merge."""
         return self + other
diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 0d1431e..31ba2fa 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -64,6 +64,10 @@ class TrackEddiesObservations(GroupEddiesObservations):
 
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
+        self.reset_index()
+
+    def reset_index(self):
+        super().reset_index()
         self.__first_index_of_track = None
         self.__obs_by_track = None
         self.__nb_track = None
-- 
2.43.0


From f14dcddaf3044b4be93752da71cc15dcf4ae5646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 040/125] fix: concatenate and insert_observations swapped
 fields of datasets declared with different variables

---
 src/py_eddy_tracker/observations/observation.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 31064e7..9eb7abd 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -522,9 +522,10 @@ class EddiesObservations(object):
 
     def coherence(self, other):
         """Check coherence between two datasets."""
-        test = self.track_extra_variables == other.track_extra_variables
-        test *= self.track_array_variables == other.track_array_variables
-        test *= self.array_variables == other.array_variables
+        test = set(self.fields) == set(other.fields)
+        test &= self.track_array_variables == other.track_array_variables
+        test &= set(self.array_variables) == set(other.array_variables)
+        test &= self.raw_data == other.raw_data
         return test
 
     @classmethod
@@ -540,7 +541,8 @@ class EddiesObservations(object):
         i = 0
         for obs in observations:
             nb_obs = len(obs)
-            eddies.obs[i : i + nb_obs] = obs.obs
+            for field in eddies.fields:
+                eddies.obs[field][i : i + nb_obs] = obs.obs[field]
             i += nb_obs
         eddies.sign_type = ref_obs.sign_type
         return eddies
@@ -678,9 +680,10 @@ class EddiesObservations(object):
         if index < 0:
             index = self_size + index + 1
         eddies = self.new_like(self, new_size)
-        eddies.obs[:index] = self.obs[:index]
-        eddies.obs[index : index + insert_size] = other.obs
-        eddies.obs[index + insert_size :] = self.obs[index:]
+        for field in eddies.fields:
+            eddies.obs[field][:index] = self.obs[field][:index]
+            eddies.obs[field][index : index + insert_size] = other.obs[field]
+            eddies.obs[field][index + insert_size :] = self.obs[field][index:]
         self.observations = eddies.obs
         self.reset_index()
         return self
-- 
2.43.0


From fb434762ef045d8bab960d6db2a37ab31e8794f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 041/125] fix: fields could not be added after remove_fields

---
 src/py_eddy_tracker/observations/observation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 9eb7abd..edf32cb 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -423,9 +423,11 @@ class EddiesObservations(object):
         """
         nb_obs = len(self)
         fields = set(fields)
-        only_variables = set(self.fields) - fields
-        track_extra_variables = set(self.track_extra_variables) - fields
-        array_variables = set(self.array_variables) - fields
+        only_variables = [i for i in self.fields if i not in fields]
+        track_extra_variables = [
+            i for i in self.track_extra_variables if i not in fields
+        ]
+        array_variables = [i for i in self.array_variables if i not in fields]
         new = self.__class__(
             size=nb_obs,
             track_extra_variables=track_extra_variables,
-- 
2.43.0


From 1a1240ed7e0502011163d75f626cbdbb139c2fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 042/125] fix: datasets with the same content were not equal
 when their fields were declared in another order

---
 src/py_eddy_tracker/observations/observation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index edf32cb..03c7a0c 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -248,9 +248,10 @@ class EddiesObservations(object):
     def __eq__(self, other):
         if self.sign_type != other.sign_type:
             return False
-        if self.dtype != other.dtype:
+        if sorted(self.dtype) != sorted(other.dtype):
             return False
-        return array_equal(self.obs, other.obs)
+        # Order of fields doesn't matter
+        return all(array_equal(self.obs[k], other.obs[k]) for k in self.fields)
 
     def get_color(self, i):
         """Return colors as a cyclic list"""
-- 
2.43.0


From aea33749249b4c044599bfdfe2b1a1d84e0b24c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 043/125] fix: merge mixed tracks of datasets not sorted by
 track and failed on empty ones

---
 src/py_eddy_tracker/observations/observation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 03c7a0c..6070da2 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -562,8 +562,8 @@ class EddiesObservations(object):
             if key in other_keys:
                 eddies.obs[key][nb_obs_self:] = other.obs[key][:]
         if "track" in other_keys and "track" in self_keys:
-            last_track = eddies.track[nb_obs_self - 1] + 1
-            eddies.track[nb_obs_self:] += last_track
+            if nb_obs_self:
+                eddies.track[nb_obs_self:] += self.track.max() + 1
         eddies.sign_type = self.sign_type
         return eddies
 
-- 
2.43.0


From f6230eb03a89f7eb83a7363d24b8c50ea0f13e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 044/125] fix: concatenate of tracks failed with an empty
 dataset

---
 src/py_eddy_tracker/observations/tracking.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 31ba2fa..4555045 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -323,6 +323,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
         i_start = 0
         for obs in observations:
             nb_obs = len(obs)
+            if nb_obs == 0:
+                continue
             sl = slice(i_start, i_start + nb_obs)
             new_track = obs.track + last_track
             eddies.track[sl] = new_track
-- 
2.43.0


From 621e94e0828fb6ac184bc6f29b2c5aa232985237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:14 +0000
Subject: [PATCH 045/125] fix: solve_first failed when there is no eddy to link

---
 src/py_eddy_tracker/observations/observation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 6070da2..de01763 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -1474,6 +1474,8 @@ class EddiesObservations(object):
     @staticmethod
     def solve_first(cost, multiple_link=False):
         mask = ~cost.mask
+        if mask.size == 0:
+            return mask
         # Count number of links by self obs and other obs
         self_links = mask.sum(axis=1)
         other_links = mask.sum(axis=0)
-- 
2.43.0


From 11d51e402bc1d111d2d8b51225139f381a04b9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:14 +0000
Subject: [PATCH 046/125] fix: fixed_ellipsoid_mask used negative operator on
 booleans

---
 src/py_eddy_tracker/observations/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index de01763..299d58b 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -1340,7 +1340,7 @@ class EddiesObservations(object):
 
         # All obs we are not in rejected and accepted, there are between
         # two circle
-        needs_investigation = -(rejected + accepted)
+        needs_investigation = ~(rejected + accepted)
         index_other, index_self = where(needs_investigation)
 
         nb_case = index_self.shape[0]
-- 
2.43.0


From 3bcd5f1309c6a68117ba8ce716e30175d3177726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:14 +0000
Subject: [PATCH 047/125] fix: cost_function_common_area missed overlaps of
 contours on another longitude branch

---
 src/py_eddy_tracker/observations/observation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 299d58b..9e138e3 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -1270,6 +1270,8 @@ class EddiesObservations(object):
         nb_records = xy_in.shape[0]
         x_in, y_in = xy_in[x_name], xy_in[y_name]
         x_out, y_out = xy_out[x_name], xy_out[y_name]
+        # Contours must be on the same longitude branch
+        x_out = x_out - ((x_out[:, :1] - x_in[:, :1] + 180) // 360) * 360
         x_in_min, y_in_min = x_in.min(axis=1), y_in.min(axis=1)
         x_in_max, y_in_max = x_in.max(axis=1), y_in.max(axis=1)
         x_out_min, y_out_min = x_out.min(axis=1), y_out.min(axis=1)
@@ -1286,8 +1288,6 @@ class EddiesObservations(object):
 
             x_in_, x_out_ = x_in[i], x_out[i]
             p_in = Polygon(create_vertice(x_in_, y_in[i]))
-            if abs(x_in_[0] - x_out_[0]) > 180:
-                x_out_ = (x_out[i] - (x_in_[0] - 180)) % 360 + x_in_[0] - 180
             p_out = Polygon(create_vertice(x_out_, y_out[i]))
             costs[i] = 1 - (p_in & p_out).area() / min(p_in.area(), p_out.area())
         costs.mask = costs == 1
-- 
2.43.0


From 4a770850c2afe1c4317c4ec713d160d646dc1d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:34 +0000
Subject: [PATCH 048/125] fix: path of pixels between two positions was shifted
 by half a cell

---
 src/py_eddy_tracker/dataset/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index b0cecb5..2305791 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1328,8 +1328,8 @@ class RegularGridDataset(GridDataset):
             y0,
             x1,
             y1,
-            self.x_bounds[0],
-            self.y_bounds[0],
+            self.x_c[0],
+            self.y_c[0],
             self.xstep,
             self.ystep,
             self.x_size,
-- 
2.43.0


From 928c27711929989e7cdd7e5db5b64d52b5e5491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:45 +0000
Subject: [PATCH 049/125] fix: names of input files were not saved in
 correspondances

---
 src/py_eddy_tracker/tracking.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index b64b6fc..54591ef 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -427,9 +427,11 @@ class Correspondances(list):
         )
 
         def get_filename(dataset):
-            if not isinstance(dataset, str) or not isinstance(dataset, bytes):
-                return "In memory file"
-            return dataset
+            if isinstance(dataset, bytes):
+                return dataset.decode("utf-8")
+            if isinstance(dataset, str):
+                return str(dataset)
+            return "In memory file"
 
         for i, dataset in enumerate(self.datasets[:-1]):
             var_file_in[i] = get_filename(dataset)
-- 
2.43.0


From be94562f266611a784587becaf0bfc9649f748da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:45 +0000
Subject: [PATCH 050/125] fix: correspondances of few files with virtual obs
 could not be saved or continued

---
 src/py_eddy_tracker/tracking.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 54591ef..0b83fa9 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -344,11 +344,14 @@ class Correspondances(list):
             flg_virtual = self.previous_correspondance.virtual
             with Dataset(self.filename_previous_correspondance) as general_handler:
                 self.current_id = general_handler.last_current_id
+                # There are no virtual obs until third dataset
+                flg_virtual = flg_virtual and "LastVirtualObs" in general_handler.groups
                 if flg_virtual:
                     # Load last virtual obs
                     self.virtual_obs = VirtualEddiesObservations.from_netcdf(
                         general_handler.groups["LastVirtualObs"]
                     )
+                if flg_virtual and "LastPreviousVirtualObs" in general_handler.groups:
                     self.previous_virtual_obs = VirtualEddiesObservations.from_netcdf(
                         general_handler.groups["LastPreviousVirtualObs"]
                     )
@@ -482,6 +485,7 @@ class Correspondances(list):
         if self.virtual_obs is not None:
             group = handler.createGroup("LastVirtualObs")
             self.virtual_obs.to_netcdf(group)
+        if self.previous_virtual_obs is not None:
             group = handler.createGroup("LastPreviousVirtualObs")
             self.previous_virtual_obs.to_netcdf(group)
         handler.module = self.class_method.__module__
-- 
2.43.0


From a630c0a1976018d0db3f48cf7928b52bd63a11dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:45 +0000
Subject: [PATCH 051/125] fix: correspondances with steps without link could
 not be saved or loaded

---
 src/py_eddy_tracker/tracking.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 0b83fa9..6993ca0 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -475,7 +475,7 @@ class Correspondances(list):
         for name, data in datas.items():
             h_v = handler.variables[name]
             h_v[:] = data
-            if "File" not in name:
+            if "File" not in name and self.nb_link_max > 0:
                 h_v.min = h_v[:].min()
                 h_v.max = h_v[:].max()
 
@@ -544,7 +544,7 @@ class Correspondances(list):
             class_kw=class_kw,
         )
 
-        id_max = 0
+        id_max = -1
         for i, nb_elt in enumerate(datas["nb_link"][:]):
             logger.debug(
                 "Link between %s and %s", datas["FileIn"][i], datas["FileOut"][i]
@@ -558,7 +558,8 @@ class Correspondances(list):
                 if name == "virtual_length":
                     correspondance[name] = 255
                 correspondance[name] = datas[name][i, :nb_elt]
-            id_max = max(id_max, correspondance["id"].max())
+            if nb_elt > 0:
+                id_max = max(id_max, int(correspondance["id"].max()))
             obj.append(correspondance)
         obj.current_id = id_max + 1
         return obj
-- 
2.43.0


From a8c983c2f7872e377c619310d368984a04616e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:32 +0000
Subject: [PATCH 052/125] fix: merge_correspondance failed or reused ids when
 tracks died before the junction

---
 src/py_eddy_tracker/tracking.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 6993ca0..70b356b 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -21,6 +21,7 @@ from numpy import (
     ones,
     setdiff1d,
     uint16,
+    union1d,
     unique,
     where,
     zeros,
@@ -193,14 +194,14 @@ class Correspondances(list):
         translate = empty(other.current_id, dtype="u4")
         translate[:] = self.UINT32_MAX
 
-        translate[other[i[0] - 1]["id"]] = self[-1]["id"]
+        id_junction = other[i[0] - 1]["id"]
+        translate[id_junction] = self[-1]["id"]
 
-        nb_max = other[i[0] - 1]["id"].max()
-        mask = translate == self.UINT32_MAX
-        # We won't translate previous id
-        mask[:nb_max] = False
-        # Next id will be shifted
-        translate[mask] = arange(mask.sum()) + self.current_id
+        # Others id used after junction are new, they will be shifted
+        id_new = empty(0, dtype=self.ID_DTYPE)
+        for items in other[i[0] :]:
+            id_new = union1d(id_new, setdiff1d(items["id"], id_junction))
+        translate[id_new] = arange(id_new.shape[0]) + self.current_id
 
         # Translate
         for items in other[i[0] :]:
@@ -210,7 +211,7 @@ class Correspondances(list):
         # Extend datasets list, which are bounds so we add one
         self.datasets.extend(other.datasets[i[0] + 1 :])
         # We set new id available
-        self.current_id = translate[-1] + 1
+        self.current_id += id_new.shape[0]
 
     def store_correspondance(
         self, i_previous, i_current, nb_real_obs, association_cost
-- 
2.43.0


From 374c4113dc4ee31df9c90f49eb6ede6618ae9b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:37 +0000
Subject: [PATCH 053/125] fix: virtual obs without array variables could not be
 loaded

---
 src/py_eddy_tracker/observations/observation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 9e138e3..6b11497 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -1101,7 +1101,10 @@ class EddiesObservations(object):
         kwargs = dict()
         if hasattr(handler, "track_array_variables"):
             kwargs["track_array_variables"] = handler.track_array_variables
-            kwargs["array_variables"] = handler.array_variables.split(",")
+            # String is empty when there is no array variables
+            kwargs["array_variables"] = [
+                i for i in handler.array_variables.split(",") if i
+            ]
         if len(handler.track_extra_variables) > 1:
             kwargs["track_extra_variables"] = handler.track_extra_variables.split(",")
         eddies = cls(size=nb_obs, **kwargs)
@@ -1120,7 +1123,10 @@ class EddiesObservations(object):
         kwargs = dict()
         if hasattr(handler, "track_array_variables"):
             kwargs["track_array_variables"] = handler.track_array_variables
-            kwargs["array_variables"] = handler.array_variables.split(",")
+            # String is empty when there is no array variables
+            kwargs["array_variables"] = [
+                i for i in handler.array_variables.split(",") if i
+            ]
         if len(handler.track_extra_variables) > 1:
             kwargs["track_extra_variables"] = handler.track_extra_variables.split(",")
         eddies = cls(size=nb_obs, **kwargs)
-- 
2.43.0


From d5ffa2ce49f368ff1ef35ea3fd0b773830524fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 054/125] fix: tracking failed when every track is long or when
 there is no track

---
 src/py_eddy_tracker/appli/eddies.py | 21 ++++++++++++---------
 src/py_eddy_tracker/tracking.py     |  2 +-
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/py_eddy_tracker/appli/eddies.py b/src/py_eddy_tracker/appli/eddies.py
index c1c7a90..65be641 100644
--- a/src/py_eddy_tracker/appli/eddies.py
+++ b/src/py_eddy_tracker/appli/eddies.py
@@ -340,10 +340,12 @@ def track(
 
     logger.info("Start merging")
     c.prepare_merging()
-    logger.info("Longer track saved have %d obs", c.nb_obs_by_tracks.max())
-    logger.info(
-        "The mean length is %d observations for all tracks", c.nb_obs_by_tracks.mean()
-    )
+    if c.nb_obs > 0:
+        logger.info("Longer track saved have %d obs", c.nb_obs_by_tracks.max())
+        logger.info(
+            "The mean length is %d observations for all tracks",
+            c.nb_obs_by_tracks.mean(),
+        )
 
     kw_write = dict(path=output_dir, zarr_flag=zarr)
 
@@ -369,11 +371,12 @@ def track(
         short_track.normalize_longitude()
         short_track.filled_by_interpolation(short_track["virtual"] == 1)
 
-    logger.info("Longer track saved have %d obs", c.nb_obs_by_tracks.max())
-    logger.info(
-        "The mean length is %d observations for long track",
-        c.nb_obs_by_tracks.mean(),
-    )
+    if c.nb_obs > 0:
+        logger.info("Longer track saved have %d obs", c.nb_obs_by_tracks.max())
+        logger.info(
+            "The mean length is %d observations for long track",
+            c.nb_obs_by_tracks.mean(),
+        )
 
     long_track.write_file(**kw_write)
     short_track.write_file(
diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 70b356b..5b80a55 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -621,6 +621,7 @@ class Correspondances(list):
         """Remove from correspondance table all association for longer eddies than size_max"""
         # Identify eddies longer than
         i_keep_track = where(self.nb_obs_by_tracks < size_max)[0]
+        translate = empty(self.nb_obs_by_tracks.shape[0], dtype="u4")
         # Reduce array
         self.nb_obs_by_tracks = self.nb_obs_by_tracks[i_keep_track]
         self.i_current_by_tracks = (
@@ -629,7 +630,6 @@ class Correspondances(list):
         self.nb_obs = self.nb_obs_by_tracks.sum()
         # Give the last id used
         self.current_id = self.nb_obs_by_tracks.shape[0]
-        translate = empty(i_keep_track.max() + 1, dtype="u4")
         translate[i_keep_track] = arange(self.current_id)
         for i, correspondance in enumerate(self):
             m_keep = isin(correspondance["id"], i_keep_track)
-- 
2.43.0


From 41cae29677145901c8fea76a49682d98e154f368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 055/125] fix: empty_dataset and insert_virtual lost rotation
 type

---
 src/py_eddy_tracker/observations/observation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 6b11497..652145c 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -719,7 +719,7 @@ class EddiesObservations(object):
 
     @classmethod
     def new_like(cls, eddies, new_size: int):
-        return cls(
+        new = cls(
             new_size,
             track_extra_variables=eddies.track_extra_variables,
             track_array_variables=eddies.track_array_variables,
@@ -727,6 +727,8 @@ class EddiesObservations(object):
             only_variables=eddies.only_variables,
             raw_data=eddies.raw_data,
         )
+        new.sign_type = eddies.sign_type
+        return new
 
     def index(self, index, reverse=False):
         """Return obs from self at the index."""
-- 
2.43.0


From 5f6853097bdf7934fa34ef57a59f16a8b8dc68ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 056/125] fix: correspondances could be merged only once

---
 src/py_eddy_tracker/tracking.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 5b80a55..a56eaf8 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -671,8 +671,10 @@ class Correspondances(list):
         # Fields to copy
         fields = self.current_obs.fields
 
+        # Next index to write in each track
+        i_current_by_tracks = self.i_current_by_tracks.copy()
         # To know if the track start
-        first_obs_save_in_tracks = zeros(self.i_current_by_tracks.shape, dtype=bool_)
+        first_obs_save_in_tracks = zeros(i_current_by_tracks.shape, dtype=bool_)
 
         for i, file_name in enumerate(self.datasets[1:]):
             if until != -1 and i >= until:
@@ -683,7 +685,7 @@ class Correspondances(list):
             # We select the list of id which are involve in the correspondance
             i_id = self[i]["id"]
             # Index where we will write in the final object
-            index_final = self.i_current_by_tracks[i_id]
+            index_final = i_current_by_tracks[i_id]
 
             # First obs of eddies
             m_first_obs = ~first_obs_save_in_tracks[i_id]
@@ -698,10 +700,10 @@ class Correspondances(list):
                         index_in
                     ]
                 # Increment
-                self.i_current_by_tracks[i_id[m_first_obs]] += 1
+                i_current_by_tracks[i_id[m_first_obs]] += 1
                 # Active this flag, we have only one first by tracks
                 first_obs_save_in_tracks[i_id] = True
-                index_final = self.i_current_by_tracks[i_id]
+                index_final = i_current_by_tracks[i_id]
 
             if self.virtual:
                 # If the flag virtual in correspondance is active,
@@ -709,11 +711,11 @@ class Correspondances(list):
                 m_virtual = self[i]["virtual"]
                 if m_virtual.any():
                     # Incrementing index
-                    self.i_current_by_tracks[i_id[m_virtual]] += self[i][
+                    i_current_by_tracks[i_id[m_virtual]] += self[i][
                         "virtual_length"
                     ][m_virtual]
                     # Get new index
-                    index_final = self.i_current_by_tracks[i_id]
+                    index_final = i_current_by_tracks[i_id]
 
             # Index in the current file
             index_current = self[i]["out"]
@@ -725,7 +727,7 @@ class Correspondances(list):
                 eddies[field][index_final] = self.current_obs[field][index_current]
 
             # Add increment for each index used
-            self.i_current_by_tracks[i_id] += 1
+            i_current_by_tracks[i_id] += 1
             self.previous_obs = self.current_obs
         return eddies
 
-- 
2.43.0


From 5b74daed2b1e5587a50398cd0690325a7c67bf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 057/125] fix: index of tracks failed on empty datasets

---
 src/py_eddy_tracker/observations/tracking.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 4555045..8f82cb4 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -306,7 +306,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         If obs are not sorted by track, __first_index_of_track will be unusable
         """
         if self.__first_index_of_track is None:
-            s = self.tracks.max() + 1
+            s = self.tracks.max() + 1 if len(self) else 0
             # Doesn't work => core dump with numba, maybe he wants i8 instead of u4
             # self.__first_index_of_track = -ones(s, self.tracks.dtype)
             # self.__obs_by_track = zeros(s, self.observation_number.dtype)
@@ -340,7 +340,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         :return: Return count by track
         :rtype: array
         """
-        s = self.tracks.max() + 1
+        s = self.tracks.max() + 1 if len(self) else 0
         obs_by_track = zeros(s, "i4")
         count_by_track(self.tracks, mask, obs_by_track)
         return obs_by_track
-- 
2.43.0


From ff0fbe08b1d0ac3775777d8944ab9324b4955341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 058/125] fix: get_mask_from_id read outside of its arrays with
 unknown tracks

---
 src/py_eddy_tracker/observations/tracking.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 8f82cb4..83298c9 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -819,6 +819,9 @@ def count_by_track(tracks, mask, number):
 @njit(cache=True)
 def compute_mask_from_id(tracks, first_index, number_of_obs, mask):
     for track in tracks:
+        # Track doesn't exist
+        if track < 0 or track >= first_index.shape[0]:
+            continue
         mask[first_index[track] : first_index[track] + number_of_obs[track]] = True
 
 
-- 
2.43.0


From 893099d64b782e3467f1f9f6b106207c1296d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 059/125] fix: compress_id didn't change tracks of observations

---
 src/py_eddy_tracker/observations/tracking.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 83298c9..e018c88 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -217,7 +217,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
             list_id.sort()
             id_translate = arange(list_id.max() + 1)
             id_translate[list_id] = arange(len(list_id)) + 1
-            eddies.track = id_translate[eddies.track]
+            eddies.track[:] = id_translate[eddies.track]
         return eddies
 
     @property
@@ -516,7 +516,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
                 list_id.sort()
                 id_translate = arange(list_id.max() + 1)
                 id_translate[list_id] = arange(len(list_id)) + 1
-                new.track = id_translate[new.track]
+                new.track[:] = id_translate[new.track]
         return new
 
     def shape_polygon(self, intern=False):
-- 
2.43.0


From 89bc0f2f232517e253286f0b0540ced1919f4dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 060/125] fix: extract_with_mask modified the mask given by
 user

---
 src/py_eddy_tracker/observations/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index e018c88..07baffd 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -495,7 +495,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
 
         if full_path:
             if reject_virtual:
-                mask *= ~self.virtual.astype("bool")
+                mask = mask * ~self.virtual.astype("bool")
             tracks = unique(self.tracks[mask])
             mask = self.get_mask_from_id(tracks)
         elif remove_incomplete:
-- 
2.43.0


From 5cc88e417ce64a5da249f6be1a7c79b1ee6c26e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 061/125] fix: extract_toward_direction was always empty for
 westward tracks with delta_lon

---
 src/py_eddy_tracker/observations/tracking.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 07baffd..727c931 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -383,10 +383,11 @@ class TrackEddiesObservations(GroupEddiesObservations):
         lon = self.longitude
         i0, nb = self.index_from_track, self.nb_obs_by_track
         i1 = i0 - 1 + nb
-        d_lon = lon[i1] - lon[i0]
+        # Shorter way, longitudes of a track could be on both side of bounds
+        d_lon = (lon[i1] - lon[i0] + 180) % 360 - 180
         m = d_lon < 0 if west else d_lon > 0
         if delta_lon is not None:
-            m *= delta_lon < d_lon
+            m *= delta_lon < abs(d_lon)
         m = m.repeat(nb)
         return self.extract_with_mask(m)
 
-- 
2.43.0


From 6425df68a00f9aa9d9f06aee6c147deacb0c1a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 062/125] fix: extract_longer_eddies failed with compress_id

---
 src/py_eddy_tracker/observations/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 727c931..22fe46f 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -213,7 +213,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
             logger.debug("Copy of field %s ...", field)
             eddies.obs[field] = self.obs[field][mask]
         if compress_id:
-            list_id = unique(eddies.obs.track)
+            list_id = unique(eddies.track)
             list_id.sort()
             id_translate = arange(list_id.max() + 1)
             id_translate[list_id] = arange(len(list_id)) + 1
-- 
2.43.0


From c9b1ccb4a6be096e8140b980a0033d06b81e54a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 063/125] fix: selections by direction kept motionless tracks
 or failed when identifiers have gaps

---
 src/py_eddy_tracker/observations/tracking.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 22fe46f..10a3a8e 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -382,6 +382,9 @@ class TrackEddiesObservations(GroupEddiesObservations):
         """
         lon = self.longitude
         i0, nb = self.index_from_track, self.nb_obs_by_track
+        # Identifiers could have gaps
+        m_exist = nb != 0
+        i0, nb = i0[m_exist], nb[m_exist]
         i1 = i0 - 1 + nb
         # Shorter way, longitudes of a track could be on both side of bounds
         d_lon = (lon[i1] - lon[i0] + 180) % 360 - 180
@@ -403,7 +406,9 @@ class TrackEddiesObservations(GroupEddiesObservations):
 
     def extract_in_direction(self, direction, value=0):
         nb_obs = self.nb_obs_by_track
-        i_start = self.index_from_track
+        # Identifiers could have gaps
+        m_exist = nb_obs != 0
+        i_start, nb_obs = self.index_from_track[m_exist], nb_obs[m_exist]
         i_stop = i_start + nb_obs - 1
         if direction in ("S", "N"):
             d_lat = self.latitude[i_stop] - self.latitude[i_start]
@@ -411,8 +416,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
             mask &= abs(d_lat) > value
         else:
             lon_start, lon_end = self.longitude[i_start], self.longitude[i_stop]
-            lon_end = (lon_end - (lon_start - 180)) % 360 + lon_start - 180
-            d_lon = lon_end - lon_start
+            d_lon = (lon_end - lon_start + 180) % 360 - 180
             mask = d_lon < 0 if "W" == direction else d_lon > 0
             mask &= abs(d_lon) > value
         mask = mask.repeat(nb_obs)
-- 
2.43.0


From cf71fb5e53018ca8b766e522aef40b925917abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 064/125] fix: last_obs failed on an empty dataset

---
 src/py_eddy_tracker/observations/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 652145c..e873b19 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2189,7 +2189,7 @@ class EddiesObservations(object):
         .. minigallery:: py_eddy_tracker.EddiesObservations.last_obs
         """
         m = zeros(len(self), dtype="bool")
-        m[-1] = True
+        m[-1:] = True
         m[:-1][self.n[1:] == 0] = True
         return self.extract_with_mask(m)
 
-- 
2.43.0


From cfeb85a01ebebfa9e90a9e3668fb2858f7e024a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 065/125] fix: distance_to_next was wrong when identifiers of
 tracks have gaps

---
 src/py_eddy_tracker/observations/tracking.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 10a3a8e..e592a4c 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -134,7 +134,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         cum_d = cumsum_by_track(d, self.tracks)
         m_last = ones(d.shape, dtype="bool")
         m_last[-1] = False
-        m_last[self.index_from_track[1:] - 1] = False
+        m_last[:-1] = self.tracks[1:] == self.tracks[:-1]
         content += f"""
     | {self.nb_tracks} tracks ({
         nb_obs / self.nb_tracks:.2f} obs/tracks, shorter {nb[nb!=0].min()} obs, longer {nb.max()} obs)
@@ -168,7 +168,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
             self.longitude[1:],
             self.latitude[1:],
         )
-        d[self.index_from_track[1:] - 1] = 0
+        d[self.tracks[1:] != self.tracks[:-1]] = 0
         d_ = empty(d.shape[0] + 1, dtype=d.dtype)
         d_[:-1] = d
         d_[-1] = 0
-- 
2.43.0


From d0c6daa578e5d524f54812bfc0169259b14adba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 066/125] fix: distance_to_next on an empty dataset

---
 src/py_eddy_tracker/observations/tracking.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index e592a4c..fd68934 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -169,9 +169,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
             self.latitude[1:],
         )
         d[self.tracks[1:] != self.tracks[:-1]] = 0
-        d_ = empty(d.shape[0] + 1, dtype=d.dtype)
+        d_ = zeros(len(self), dtype=d.dtype)
         d_[:-1] = d
-        d_[-1] = 0
         return d_
 
     def normalize_longitude(self):
-- 
2.43.0


From 54757b7bf212697bad4cc12565be8ca26c91723b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 067/125] fix: add_distance failed

---
 src/py_eddy_tracker/observations/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index fd68934..0c7410d 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -154,7 +154,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         if "distance_next" in self.fields:
             return self
         new = self.add_fields(("distance_next",))
-        new["distance_next"][:1] = self.distance_to_next()
+        new["distance_next"][:] = self.distance_to_next()
         return new
 
     def distance_to_next(self):
-- 
2.43.0


From 371842c24094be819fd7945c30b194423c42180c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 068/125] fix: loess filter ignored first and last observations
 of the dataset

---
 src/py_eddy_tracker/observations/tracking.py | 35 +++++++++-----------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 0c7410d..ea178b9 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -844,32 +844,29 @@ def track_loess_filter(half_window, x, y, track):
 
     """
     nb = y.shape[0]
-    last = nb - 1
     y_new = empty(y.shape, dtype=y.dtype)
     for i in range(nb):
         cur_track = track[i]
         y_sum = y[i]
         w_sum = 1
-        if i != 0:
-            i_previous = i - 1
+        i_previous = i - 1
+        while i_previous >= 0 and cur_track == track[i_previous]:
             dx = x[i] - x[i_previous]
-            while (
-                dx < half_window and i_previous != 0 and cur_track == track[i_previous]
-            ):
-                w = (1 - (dx / half_window) ** 3) ** 3
-                y_sum += y[i_previous] * w
-                w_sum += w
-                i_previous -= 1
-                dx = x[i] - x[i_previous]
-        if i != last:
-            i_next = i + 1
+            if dx >= half_window:
+                break
+            w = (1 - (dx / half_window) ** 3) ** 3
+            y_sum += y[i_previous] * w
+            w_sum += w
+            i_previous -= 1
+        i_next = i + 1
+        while i_next < nb and cur_track == track[i_next]:
             dx = x[i_next] - x[i]
-            while dx < half_window and i_next != last and cur_track == track[i_next]:
-                w = (1 - (dx / half_window) ** 3) ** 3
-                y_sum += y[i_next] * w
-                w_sum += w
-                i_next += 1
-                dx = x[i_next] - x[i]
+            if dx >= half_window:
+                break
+            w = (1 - (dx / half_window) ** 3) ** 3
+            y_sum += y[i_next] * w
+            w_sum += w
+            i_next += 1
         y_new[i] = y_sum / w_sum
     return y_new
 
-- 
2.43.0


From 96dc47e42b6c23be2f14fda4bd5789922e161649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 069/125] fix: insert_virtual used time between tracks to find
 missing observations

---
 src/py_eddy_tracker/observations/groups.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/groups.py b/src/py_eddy_tracker/observations/groups.py
index 81929e1..ede09b0 100644
--- a/src/py_eddy_tracker/observations/groups.py
+++ b/src/py_eddy_tracker/observations/groups.py
@@ -305,7 +305,11 @@ class GroupEddiesObservations(EddiesObservations, ABC):
     def insert_virtual(self):
         """Insert virtual observations on segments where observations are missing"""
 
-        dt_theorical = median(self.time[1:] - self.time[:-1])
+        # Time between two tracks must not be used
+        m_same = self.tracks[1:] == self.tracks[:-1]
+        if not m_same.any():
+            return self.copy()
+        dt_theorical = median((self.time[1:] - self.time[:-1])[m_same])
         indices = self.get_missing_indices(dt_theorical)
 
         logger.info("%d virtual observation will be added", indices.size)
-- 
2.43.0


From 41bf866e0b3f7fae0274e814bb27c7b0c3537045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 070/125] fix: insert_virtual lost track, number and previous
 virtual flags of observations

---
 src/py_eddy_tracker/observations/groups.py   | 4 +++-
 src/py_eddy_tracker/observations/tracking.py | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/observations/groups.py b/src/py_eddy_tracker/observations/groups.py
index ede09b0..5d8207b 100644
--- a/src/py_eddy_tracker/observations/groups.py
+++ b/src/py_eddy_tracker/observations/groups.py
@@ -327,7 +327,9 @@ class GroupEddiesObservations(EddiesObservations, ABC):
         new_TEO = self.new_like(self, size_obs_corrected)
         new_TEO.obs[~mask] = self.obs
         new_TEO.filled_by_interpolation(mask)
-        new_TEO.virtual[:] = mask
+        new_TEO.virtual[mask] = 1
+        # Observations inserted belong to the track of the previous observation
+        new_TEO.track[mask] = self.track[indices - 1]
         new_TEO.fix_next_previous_obs()
         return new_TEO
 
diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index ea178b9..34f415d 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -102,8 +102,10 @@ class TrackEddiesObservations(GroupEddiesObservations):
         """Function used after 'insert_virtual', to correct next_obs and
         previous obs.
         """
-
-        pass
+        # There is no link in tracks, but observations must be numbered again
+        nb, i0 = self.nb_obs_by_track, self.index_from_track
+        n = arange(len(self)) - i0.repeat(nb) + self.n[i0].repeat(nb)
+        self.n[:] = n
 
     @property
     def nb_tracks(self):
-- 
2.43.0


From 799fabee89c93f0c3a1dfb1ac2c382c0a3954802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 071/125] fix: grouping used contours and settings of the first
 network of the process

---
 src/py_eddy_tracker/observations/network.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 653fbe9..9357077 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -37,27 +37,21 @@ from .tracking import TrackEddiesObservations, track_loess_filter, track_median_
 logger = logging.getLogger("pet")
 
 
-class Singleton(type):
-    _instances = {}
-
-    def __call__(cls, *args, **kwargs):
-        if cls not in cls._instances:
-            cls._instances[cls] = super().__call__(*args, **kwargs)
-        return cls._instances[cls]
-
-
-class Buffer(metaclass=Singleton):
+class Buffer:
     __slots__ = (
         "buffersize",
         "contour_name",
         "xname",
         "yname",
         "memory",
+        "DATA",
+        "FLIST",
     )
-    DATA = dict()
-    FLIST = list()
 
     def __init__(self, buffersize, intern=False, memory=False):
+        # One buffer for each network, contours or files could be different
+        self.DATA = dict()
+        self.FLIST = list()
         self.buffersize = buffersize
         self.contour_name = EddiesObservations.intern(intern, public_label=True)
         self.xname, self.yname = EddiesObservations.intern(intern)
-- 
2.43.0


From 2352336917a34236e88fa33a9836c5c8c980d21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 072/125] fix: networks with only one date could not be split

---
 src/py_eddy_tracker/observations/tracking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 34f415d..a892573 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -622,7 +622,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
         # FIXME : how to know exact time sampling
         t = unique(self.time)
         dts = t[1:] - t[:-1]
-        timestep = median(dts)
+        # Only one date (or none) => no sampling
+        timestep = median(dts) if dts.size else 1
 
         track_s, track_e, track_ref = build_index(self.tracks)
         ids = empty(
-- 
2.43.0


From 9d6583877fcf6bdcf1856bd9fa1c9c95e74f6856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 073/125] fix: extraction with an empty list of networks or
 segments failed

---
 src/py_eddy_tracker/observations/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 9357077..cd09bf8 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1246,7 +1246,7 @@ class NetworkObservations(GroupEddiesObservations):
     def networks(self, id_networks):
         return self.extract_with_mask(
             generate_mask_from_ids(
-                array(id_networks), self.track.size, *self.index_network
+                array(id_networks, dtype=int), self.track.size, *self.index_network
             )
         )
 
@@ -1508,7 +1508,7 @@ class NetworkObservations(GroupEddiesObservations):
         :param list,array segments: absolute id of segment
         """
         return generate_mask_from_ids(
-            array(segments), len(self), *self.index_segment_track
+            array(segments, dtype=int), len(self), *self.index_segment_track
         )
 
     def get_mask_with_period(self, period):
-- 
2.43.0


From 7339d64b52461b6aa9522088deba3dca3a942fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 074/125] fix: extraction of unknown networks or segments read
 outside of the index

---
 src/py_eddy_tracker/observations/network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index cd09bf8..6982186 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -2249,6 +2249,9 @@ def generate_mask_from_ids(id_networks, nb, istart, iend, i0):
     """
     m = zeros(nb, dtype="bool")
     for i in id_networks:
+        # Id doesn't exist
+        if i < i0 or i - i0 >= istart.shape[0]:
+            continue
         for j in range(istart[i - i0], iend[i - i0]):
             m[j] = True
     return m
-- 
2.43.0


From 6adcec3ebd809ad6a8df22dd2500f2eb6237daf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 075/125] fix: insert_virtual on networks broke links, joined
 segments or failed

---
 src/py_eddy_tracker/observations/groups.py   | 15 ++++++---
 src/py_eddy_tracker/observations/network.py  | 32 +++++++++++++++++---
 src/py_eddy_tracker/observations/tracking.py |  2 +-
 3 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/src/py_eddy_tracker/observations/groups.py b/src/py_eddy_tracker/observations/groups.py
index 5d8207b..bd75a1b 100644
--- a/src/py_eddy_tracker/observations/groups.py
+++ b/src/py_eddy_tracker/observations/groups.py
@@ -269,9 +269,13 @@ def get_matrix(i_start, i_end, translate_start, translate_end, i_target, pct):
 
 class GroupEddiesObservations(EddiesObservations, ABC):
     @abstractmethod
-    def fix_next_previous_obs(self):
+    def fix_next_previous_obs(self, mask):
         pass
 
+    def successive_mask(self):
+        """True for each observation (first one excepted) which follows the previous one"""
+        return self.tracks[1:] == self.tracks[:-1]
+
     @abstractmethod
     def get_missing_indices(self, dt):
         "Find indexes where observations are missing"
@@ -306,7 +310,7 @@ class GroupEddiesObservations(EddiesObservations, ABC):
         """Insert virtual observations on segments where observations are missing"""
 
         # Time between two tracks must not be used
-        m_same = self.tracks[1:] == self.tracks[:-1]
+        m_same = self.successive_mask()
         if not m_same.any():
             return self.copy()
         dt_theorical = median((self.time[1:] - self.time[:-1])[m_same])
@@ -327,10 +331,13 @@ class GroupEddiesObservations(EddiesObservations, ABC):
         new_TEO = self.new_like(self, size_obs_corrected)
         new_TEO.obs[~mask] = self.obs
         new_TEO.filled_by_interpolation(mask)
-        new_TEO.virtual[mask] = 1
+        if "virtual" in new_TEO.fields:
+            new_TEO.virtual[mask] = 1
         # Observations inserted belong to the track of the previous observation
         new_TEO.track[mask] = self.track[indices - 1]
-        new_TEO.fix_next_previous_obs()
+        if "segment" in new_TEO.fields:
+            new_TEO.segment[mask] = self.segment[indices - 1]
+        new_TEO.fix_next_previous_obs(mask)
         return new_TEO
 
     def keep_tracks_by_date(self, date, nb_days):
diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 6982186..2974b3c 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -89,6 +89,7 @@ def fix_next_previous_obs(next_obs, previous_obs, flag_virtual):
         if not flag_virtual[i_o]:
             continue
 
+        # inserted observations always have an observation before and after, in the same segment
         # if there are several consecutive virtuals, some values are written multiple times.
         # but it should not be slow
         next_obs[i_o - 1] = i_o
@@ -154,8 +155,19 @@ class NetworkObservations(GroupEddiesObservations):
             i_stopped = where(nw.segment == self.segment[stopped])[0][0]
             return nw.relatives([i_obs, i_stopped], order=order)
 
+    @property
+    def sequence_array(self):
+        """Id of segment for each observation, `self.NOGROUP` for all untracked observations"""
+        sequence = self.segment_track_array.astype("i8") + self.NOGROUP + 1
+        sequence[self.track == self.NOGROUP] = self.NOGROUP
+        return sequence
+
+    def successive_mask(self):
+        sequence = self.sequence_array
+        return (sequence[1:] == sequence[:-1]) & (sequence[1:] != self.NOGROUP)
+
     def get_missing_indices(self, dt):
-        """Find indices where observations are missing.
+        """Find indices where observations are missing in segments.
 
         As network have all untracked observation in tracknumber `self.NOGROUP`,
             we don't compute them
@@ -163,15 +175,25 @@ class NetworkObservations(GroupEddiesObservations):
         :param int,float dt: theorical delta time between 2 observations
         """
         return get_missing_indices(
-            self.time, self.track, dt=dt, flag_untrack=True, indice_untrack=self.NOGROUP
+            self.time,
+            self.sequence_array,
+            dt=dt,
+            flag_untrack=True,
+            indice_untrack=self.NOGROUP,
         )
 
-    def fix_next_previous_obs(self):
+    def fix_next_previous_obs(self, mask):
         """Function used after 'insert_virtual', to correct next_obs and
         previous obs.
-        """
 
-        fix_next_previous_obs(self.next_obs, self.previous_obs, self.virtual)
+        :param array(bool) mask: True for observations which were inserted
+        """
+        # Links of previous observations must be shifted, we add 1 for -1 index return index -1
+        translate = -ones((~mask).sum() + 1, dtype="i4")
+        translate[:-1] = where(~mask)[0]
+        self.next_obs[~mask] = translate[self.next_obs[~mask]]
+        self.previous_obs[~mask] = translate[self.previous_obs[~mask]]
+        fix_next_previous_obs(self.next_obs, self.previous_obs, mask)
 
     @property
     def index_network(self):
diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index a892573..e011d46 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -98,7 +98,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
             indice_untrack=self.NOGROUP,
         )
 
-    def fix_next_previous_obs(self):
+    def fix_next_previous_obs(self, mask):
         """Function used after 'insert_virtual', to correct next_obs and
         previous obs.
         """
-- 
2.43.0


From 4f2d1bd9d405b1e9ef504e9b9af02940f0f9fe29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 076/125] fix: unique id of segments read the first observation
 of empty networks

---
 src/py_eddy_tracker/observations/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 2974b3c..bea8933 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -2230,6 +2230,8 @@ def build_unique_array(id1, id2):
     """Give a unique id for each (id1, id2) with id1 and id2 increasing monotonically"""
     k = 0
     new_id = empty(id1.shape, dtype=id1.dtype)
+    if id1.shape[0] == 0:
+        return new_id
     id1_previous = id1[0]
     id2_previous = id2[0]
     for i in range(id1.shape[0]):
-- 
2.43.0


From 2cf298ef4e57f6c2cba6836bd2bbfbc518524788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 077/125] fix: new numbering read the first observation of
 missing networks

---
 src/py_eddy_tracker/observations/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index bea8933..01d42b8 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -2246,6 +2246,8 @@ def build_unique_array(id1, id2):
 @njit(cache=True)
 def new_numbering(segs, start=0):
     nb = len(segs)
+    if nb == 0:
+        return
     s0 = segs[0]
     j = start
     for i in range(nb):
-- 
2.43.0


From 57f90b7a35be064b93881d877095e70f7a0d18e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 078/125] fix: last observation was selected for events without
 previous or next observation

---
 src/py_eddy_tracker/observations/network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 01d42b8..7de9f06 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -2332,6 +2332,9 @@ def mask_follow_obs(m, next_obs, time, indexs, dt=3):
     :param int dt: delta of time max from index, defaults to 3
     """
     for i in indexs:
+        # There is no observation
+        if i == -1:
+            continue
         t0 = time[i]
         m[i] = True
         i_next = next_obs[i]
-- 
2.43.0


From 4471e65b21cb6a896e0ebfd8e274f4c3be8716e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 079/125] fix: find_link missed observations with both
 directions or failed with a lot of segments

---
 src/py_eddy_tracker/observations/network.py | 54 +++++++++++----------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 7de9f06..bb6c2a1 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -509,38 +509,40 @@ class NetworkObservations(GroupEddiesObservations):
                 # backward
                 segments_connexion[n_seg][2].append((i_n, i_slice.stop - 1, seg))
 
-        mask = zeros(segment.size, dtype=bool)
-
-        def func_forward(seg, indice):
-            seg_slice, _forward, _ = segments_connexion[seg]
-
-            mask[indice : seg_slice.stop] = True
-            for i_begin, i_end, seg2 in _forward:
-                if i_begin < indice:
-                    continue
-
-                if not mask[i_end]:
-                    func_forward(seg2, i_end)
-
-        def func_backward(seg, indice):
-            seg_slice, _, _backward = segments_connexion[seg]
-
-            mask[seg_slice.start : indice + 1] = True
-            for i_begin, i_end, seg2 in _backward:
-                if i_begin > indice:
-                    continue
-
-                if not mask[i_end]:
-                    func_backward(seg2, i_end)
+        # Each direction has its own mask: an observation could be reached in only one of them
+        mask_forward = zeros(segment.size, dtype=bool)
+        mask_backward = zeros(segment.size, dtype=bool)
+
+        def func_forward(indice):
+            todo = [indice]
+            while todo:
+                indice = todo.pop()
+                seg_slice, _forward, _ = segments_connexion[segment[indice]]
+
+                mask_forward[indice : seg_slice.stop] = True
+                for i_begin, i_end, _ in _forward:
+                    if i_begin >= indice and not mask_forward[i_end]:
+                        todo.append(i_end)
+
+        def func_backward(indice):
+            todo = [indice]
+            while todo:
+                indice = todo.pop()
+                seg_slice, _, _backward = segments_connexion[segment[indice]]
+
+                mask_backward[seg_slice.start : indice + 1] = True
+                for i_begin, i_end, _ in _backward:
+                    if i_begin <= indice and not mask_backward[i_end]:
+                        todo.append(i_end)
 
         for indice in i_obs:
             if forward:
-                func_forward(segment[indice], indice)
+                func_forward(indice)
 
             if backward:
-                func_backward(segment[indice], indice)
+                func_backward(indice)
 
-        return self.extract_with_mask(mask)
+        return self.extract_with_mask(mask_forward | mask_backward)
 
     def connexions(self, multi_network=False):
         """Create dictionnary for each segment, gives the segments in interaction with
-- 
2.43.0


From 6b353e57449794eae1bb5488be84a648d1c6acd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 080/125] fix: relative order of segments failed with a lot of
 segments

---
 src/py_eddy_tracker/observations/network.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index bb6c2a1..ca6db7c 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -586,15 +586,18 @@ class NetworkObservations(GroupEddiesObservations):
         i_father = father - shift
         if distance[i_father] == -1:
             distance[i_father] = 0
-        d_target = distance[i_father] + 1
-        for son in connexions.get(father, list()):
-            i_son = son - shift
-            d_son = distance[i_son]
-            if d_son == -1 or d_son > d_target:
-                distance[i_son] = d_target
-            else:
-                continue
-            cls.__close_segment(son, shift, connexions, distance)
+        fathers = [father]
+        while fathers:
+            sons = list()
+            for father in fathers:
+                d_target = distance[father - shift] + 1
+                for son in connexions.get(father, list()):
+                    i_son = son - shift
+                    d_son = distance[i_son]
+                    if d_son == -1 or d_son > d_target:
+                        distance[i_son] = d_target
+                        sons.append(son)
+            fathers = sons
 
     def segment_relative_order(self, seg_origine):
         """
-- 
2.43.0


From 4b20eb283e1cb5dc081163639dc6b638ec4162e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 081/125] fix: relatives failed with a lot of segments

---
 src/py_eddy_tracker/observations/network.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index ca6db7c..03ccd29 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -663,17 +663,16 @@ class NetworkObservations(GroupEddiesObservations):
         i_obs = [obs] if not hasattr(obs, "__iter__") else obs
         distance = zeros(segment.size, dtype=uint16) - 1
 
-        def loop(seg, dist=1):
-            i_slice, links = segments_connexion[seg]
-            d = distance[i_slice.start]
-
-            if dist < d and dist <= order:
-                distance[i_slice] = dist
-                for _seg in links:
-                    loop(_seg, dist + 1)
-
-        for indice in i_obs:
-            loop(segment[indice], 0)
+        segs, dist = [segment[indice] for indice in i_obs], 0
+        # Each step explores all segments at the same distance
+        while segs and dist <= order:
+            next_segs = list()
+            for seg in segs:
+                i_slice, links = segments_connexion[seg]
+                if dist < distance[i_slice.start]:
+                    distance[i_slice] = dist
+                    next_segs.extend(links)
+            segs, dist = next_segs, dist + 1
 
         return self.extract_with_mask(distance <= order)
 
-- 
2.43.0


From 0d6c8babd0da04e3ae5e2c0efa11e155540af07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 082/125] fix: dissociate_network failed with a lot of segments

---
 src/py_eddy_tracker/observations/network.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 03ccd29..b6453c1 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1383,17 +1383,16 @@ class NetworkObservations(GroupEddiesObservations):
         :param array[int] groups: array where tag is stored
         :param dict connexions: gives for one ID of segment all connected segments
         """
-        # If segments are already used we stop recursivity
-        if groups[seg] != 0:
-            return
-        # We set tag for this segment
-        groups[seg] = tag
-        # Get all connexions of this segment
-        segs = connexions.get(seg, None)
-        if segs is not None:
-            for seg in segs:
-                # For each connexion we apply same function
-                cls.__tag_segment(seg, tag, groups, connexions)
+        todo = [seg]
+        while todo:
+            seg = todo.pop()
+            # If segments are already used we don't explore it
+            if groups[seg] != 0:
+                continue
+            # We set tag for this segment
+            groups[seg] = tag
+            # Get all connexions of this segment
+            todo.extend(connexions.get(seg, tuple()))
 
     def tag_segment(self):
         """For each segment, method give a new network id, and all segment are connected
-- 
2.43.0


From 8c4e18030e79b037a17574b32e29c763f39568fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 083/125] fix: births and deaths ignored the first segment when
 it has only one observation without link

---
 src/py_eddy_tracker/observations/network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index b6453c1..2856f6d 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1429,6 +1429,9 @@ class NetworkObservations(GroupEddiesObservations):
 
         :return bool: True if first network is trash
         """
+        # Only the network without group could be the trash
+        if len(self) == 0 or self.track[0] != self.NOGROUP:
+            return False
         i_start, i_stop, _ = self.index_segment_track
         sl = slice(i_start[0], i_stop[0])
         return (self.previous_obs[sl] == -1).all() and (self.next_obs[sl] == -1).all()
-- 
2.43.0


From 6f36f05c41abe25ca01917f949e660fcad859327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 084/125] fix: remove_dead_end returned nothing and forgot the
 mask for next runs

---
 src/py_eddy_tracker/observations/network.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 2856f6d..a4814b1 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1515,9 +1515,12 @@ class NetworkObservations(GroupEddiesObservations):
         self.next_obs[m_next] = -1
         self.next_cost[m_next] = 0
 
-        self.sort()
+        index_order, _ = self.sort()
         if recursive > 0:
-            self.remove_dead_end(nobs, ndays, recursive - 1)
+            if mask is not None:
+                mask = mask[index_order]
+            self.remove_dead_end(nobs, ndays, recursive - 1, mask=mask)
+        return self
 
     def extract_segment(self, segments, absolute=False):
         """Extract given segments
-- 
2.43.0


From ab5f9005af1bdb6150969043710513458b0c2ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 085/125] fix: index of networks was not refreshed by
 numbering_network

---
 src/py_eddy_tracker/observations/network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index a4814b1..f5e1830 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -742,6 +742,7 @@ class NetworkObservations(GroupEddiesObservations):
         New numbering of network
         """
         new_numbering(self.track, start)
+        self.reset_index()
 
     def only_one_network(self):
         """
-- 
2.43.0


From ea6b1c62f035d097c804011cfab2bb1e69acfe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 086/125] fix: swap_track didn't follow the new segments in
 links

---
 src/py_eddy_tracker/observations/network.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index f5e1830..77a055c 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1929,6 +1929,9 @@ class NetworkObservations(GroupEddiesObservations):
         events = self.splitting_event(triplet=True, only_index=True)
         count = 0
         for i_main, i1, i2 in zip(*events):
+            # A previous swap already changed the observation which follows
+            if self.next_obs[i_main] != i1:
+                continue
             seg_main, _, seg2 = (
                 self.segment_track_array[i_main],
                 self.segment_track_array[i1],
@@ -1958,6 +1961,9 @@ class NetworkObservations(GroupEddiesObservations):
             ):
                 self.segment[i1 : last_index_main + 1] = self.segment[i2]
                 self.segment[i2 : last_index_secondary + 1] = self.segment[i_main]
+                # Main segment goes on with the secondary one
+                self.next_obs[i_main] = i2
+                self.next_cost[i_main] = self.previous_cost[i2]
                 count += 1
         logger.info("%d segmnent swap on %d", count, len(events[0]))
         return self.sort()
-- 
2.43.0


From d0e40b161f0a0d50eb7a2cae292924b04113aaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 087/125] fix: correct_close_events joined segments without
 link when several events follow each other

---
 src/py_eddy_tracker/observations/network.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 77a055c..69e517c 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -403,7 +403,7 @@ class NetworkObservations(GroupEddiesObservations):
             # if segment is split
             n_seg = segment[i_seg_n]
 
-            seg2_slice, i2_seg_p, _ = segments_connexion[n_seg]
+            _, i2_seg_p, _ = segments_connexion[n_seg]
             if i2_seg_p == -1:
                 continue
             p2_seg = segment[i2_seg_p]
@@ -412,15 +412,15 @@ class NetworkObservations(GroupEddiesObservations):
             if (p2_seg == seg_corrected) and (
                 _time[i_seg_n] - _time[i2_seg_p] < nb_days_max
             ):
-                my_slice = slice(i_seg_n, seg2_slice.stop)
+                # End of the segment, which could be in several parts if it was already corrected
+                sl = self.network_slice(self.track[i_seg_n])
+                m = (segment[sl] == n_seg) & (_time[sl] >= _time[i_seg_n])
                 # correct the factice segment
-                segment[my_slice] = seg_corrected
+                segment[sl][m] = seg_corrected
                 # correct the good segment
-                segment_copy[my_slice] = seg_corrected_copy
+                segment_copy[sl][m] = seg_corrected_copy
                 previous_obs[i_seg_n] = seg_slice.stop - 1
 
-                segments_connexion[seg_corrected][0] = my_slice
-
         return self.sort()
 
     def sort(self, order=("track", "segment", "time")):
-- 
2.43.0


From 384f3766af9aaa07cb7cc98256c50bbf94ebd166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:54 +0000
Subject: [PATCH 088/125] fix: numbering_segment gave a segment to untracked
 observations

---
 src/py_eddy_tracker/observations/network.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 69e517c..c2c9bcf 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -734,7 +734,11 @@ class NetworkObservations(GroupEddiesObservations):
         """
         New numbering of segment
         """
-        for i, _, _ in self.iter_on("track"):
+        first_is_trash = self.first_is_trash()
+        for i, track, _ in self.iter_on("track"):
+            # Untracked observations don't have segment
+            if first_is_trash and track == self.NOGROUP:
+                continue
             new_numbering(self.segment[i], start)
 
     def numbering_network(self, start=1):
-- 
2.43.0


From 08bfb14d62e4ac5c47890f049ccd4ab22622d78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 089/125] fix: swap_track used last observation for splitting
 events where main segment stops

---
 src/py_eddy_tracker/observations/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index c2c9bcf..f010024 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1933,8 +1933,8 @@ class NetworkObservations(GroupEddiesObservations):
         events = self.splitting_event(triplet=True, only_index=True)
         count = 0
         for i_main, i1, i2 in zip(*events):
-            # A previous swap already changed the observation which follows
-            if self.next_obs[i_main] != i1:
+            # Main segment doesn't go on, or a previous swap already changed the observation which follows
+            if i1 == -1 or self.next_obs[i_main] != i1:
                 continue
             seg_main, _, seg2 = (
                 self.segment_track_array[i_main],
-- 
2.43.0


From 177349e3c42aa2cebfc27d4ab561898eb2999f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 090/125] fix: identify_in failed when there is nothing to
 compare

---
 src/py_eddy_tracker/observations/network.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index f010024..2b15eb2 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1322,14 +1322,14 @@ class NetworkObservations(GroupEddiesObservations):
                 continue
             if isinstance(i_other, slice):
                 i_other = arange(i_other.start, i_other.stop)
+            if isinstance(i_self, slice):
+                i_self = arange(i_self.start, i_self.stop)
             # All_ref will give all item of self, sometime there is no things to compare with other
             if i_other.size == 0:
                 id_self = i_self + i_self_ref
                 in_self.append(id_self)
                 in_other.append(-ones(id_self.shape, dtype=id_self.dtype))
                 continue
-            if isinstance(i_self, slice):
-                i_self = arange(i_self.start, i_self.stop)
             # We get absolute id
             id_self, id_other = i_self + i_self_ref, i_other + i_other_ref
             # We compute mask to select data
@@ -1376,6 +1376,9 @@ class NetworkObservations(GroupEddiesObservations):
             track2_[m] = id2[i_local_target[m]]
             in_other.append(track2_)
 
+        # Nothing to compare
+        if not in_self:
+            return empty(0, dtype="i4"), empty(0, dtype="i4")
         return concatenate(in_self), concatenate(in_other)
 
     @classmethod
-- 
2.43.0


From 729f00141e3172f7c423486de1eecb3c9a7b367c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 091/125] fix: close_network failed because period is not made
 of integers

---
 src/py_eddy_tracker/observations/network.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 2b15eb2..c3ac4fe 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -692,8 +692,11 @@ class NetworkObservations(GroupEddiesObservations):
             It could be a costly operation for huge dataset
         """
         p0, p1 = self.period
+        p0_other, p1_other = other.period
+        if p1_other < p0 or p1 < p0_other:
+            return other.__class__.new_like(other, 0)
         indexs = list()
-        for i_self, i_other, t0, t1 in self.align_on(other, bins=range(p0, p1 + 2)):
+        for i_self, i_other, t0, t1 in self.align_on(other, bins=arange(p0, p1 + 2)):
             i, j, s = self.match(other, i_self=i_self, i_other=i_other, **kwargs)
             indexs.append(other.re_reference_index(j, i_other))
         indexs = concatenate(indexs)
-- 
2.43.0


From 20b000cc91eeeb8062dcff023c90cc36c4a6a182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 092/125] fix: target eddies were compared with truncated
 percentages

---
 src/py_eddy_tracker/observations/groups.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/groups.py b/src/py_eddy_tracker/observations/groups.py
index bd75a1b..c62d2ac 100644
--- a/src/py_eddy_tracker/observations/groups.py
+++ b/src/py_eddy_tracker/observations/groups.py
@@ -247,6 +247,8 @@ def get_matrix(i_start, i_end, translate_start, translate_end, i_target, pct):
             count[i_start_, i_end_] += 1
         ref[i_start_] += 1
     for i in range(nb_start):
+        # Percents are compared before being truncated in output array
+        pct_0, pct_1 = 0.0, 0.0
         for j in range(nb_end):
             pct_ = count[i, j]
             # If there are particles from i to j
@@ -255,15 +257,16 @@ def get_matrix(i_start, i_end, translate_start, translate_end, i_target, pct):
                 pct_ = pct_ / ref[i] * 100.0
                 # Get indices in full dataset
                 i_, j_ = translate_start[i], translate_end[j]
-                pct_0 = pct[i_, 0]
                 if pct_ > pct_0:
                     pct[i_, 1] = pct_0
                     pct[i_, 0] = pct_
                     i_target[i_, 1] = i_target[i_, 0]
                     i_target[i_, 0] = j_
-                elif pct_ > pct[i_, 1]:
+                    pct_0, pct_1 = pct_, pct_0
+                elif pct_ > pct_1:
                     pct[i_, 1] = pct_
                     i_target[i_, 1] = j_
+                    pct_1 = pct_
     return i_target, pct
 
 
-- 
2.43.0


From f3fe95be5f5891da3f51d94b967bfd699a262ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 093/125] fix: last date was missing in coherence atlas

---
 src/py_eddy_tracker/observations/groups.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/groups.py b/src/py_eddy_tracker/observations/groups.py
index c62d2ac..e63017f 100644
--- a/src/py_eddy_tracker/observations/groups.py
+++ b/src/py_eddy_tracker/observations/groups.py
@@ -398,7 +398,10 @@ class GroupEddiesObservations(EddiesObservations, ABC):
         shape = (len(self), 2)
         i_target, pct = full(shape, -1, dtype="i4"), zeros(shape, dtype="i1")
         # Backward or forward
-        times = arange(t_start, t_end - dt) if dt > 0 else arange(t_start - dt, t_end)
+        if dt > 0:
+            times = arange(t_start, t_end - dt + 1)
+        else:
+            times = arange(t_start - dt, t_end + 1)
 
         if callback_coherence is None:
             callback_coherence = self.fill_coherence
-- 
2.43.0


From 8360a7732159fb4fceb5f263dbb50de2f951375a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 094/125] fix: coherence failed when there is only one usable
 date

---
 src/py_eddy_tracker/observations/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index c3ac4fe..28a2e6e 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1825,7 +1825,7 @@ class NetworkObservations(GroupEddiesObservations):
             )
             logger.info(
                 (
-                    f"coherence {_t} / {range_end-1} ({(_t - range_start) / (range_end - range_start-1):.1%})"
+                    f"coherence {_t} / {range_end-1} ({(_t - range_start) / max(range_end - range_start - 1, 1):.1%})"
                     f" : {time.time()-_timestamp:5.2f}s"
                 )
             )
@@ -1902,7 +1902,7 @@ class NetworkObservations(GroupEddiesObservations):
             )
             logger.info(
                 (
-                    f"coherence {_t} / {range_end-1} ({(_t - range_start) / (range_end - range_start-1):.1%})"
+                    f"coherence {_t} / {range_end-1} ({(_t - range_start) / max(range_end - range_start - 1, 1):.1%})"
                     f" : {time.time()-_timestamp:5.2f}s"
                 )
             )
-- 
2.43.0


From 90ef6d22c89dc13de0226f005da3fd7e7c1d5783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 095/125] fix: window_index read the first center of an empty
 array

---
 src/py_eddy_tracker/generic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index f0c5ac6..478d0aa 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -640,6 +640,8 @@ def window_index(x, x0, half_window=1):
     nb_x, nb_pt = x.size, x0.size
     first_index = empty(nb_pt, dtype=i_ordered.dtype)
     last_index = empty(nb_pt, dtype=i_ordered.dtype)
+    if nb_pt == 0:
+        return i_ordered, first_index, last_index
     # First bound to find
     j_min, j_max = 0, 0
     x_min = x0[j_min] - half_window
-- 
2.43.0


From 3b0e1c0b8b5a1650f949c9dff4e53f4b9e746be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 096/125] fix: buffer of stencil was not initialised on non
 circular grids

---
 src/py_eddy_tracker/dataset/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 2305791..d55f017 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2972,6 +2972,7 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
             m_3, m_2, m_1, m0 = m[-4, j], m[-3, j], m[-2, j], m[-1, j]
         else:
             # Nothing is available before the first cell
+            h_3, h_2, h_1, h0 = h[0, j], h[0, j], h[0, j], h[0, j]
             m_3, m_2, m_1, m0 = True, True, True, True
         h1, h2, h3, h4 = h[0, j], h[1, j], h[2, j], h[3, j]
         m1, m2, m3, m4 = m[0, j], m[1, j], m[2, j], m[3, j]
-- 
2.43.0


From b0f94f78e5e436edae4784b1b3ec3cec8ba80f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 097/125] fix: correspondances couldn't be saved after a merge
 with bigger ones

---
 src/py_eddy_tracker/tracking.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index a56eaf8..a5f5170 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -212,6 +212,7 @@ class Correspondances(list):
         self.datasets.extend(other.datasets[i[0] + 1 :])
         # We set new id available
         self.current_id += id_new.shape[0]
+        self.nb_link_max = max(self.nb_link_max, other.nb_link_max)
 
     def store_correspondance(
         self, i_previous, i_current, nb_real_obs, association_cost
-- 
2.43.0


From 9611228e8cb2974b8492c82175746bbd6d41ac13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 098/125] fix: display of an empty dataset of tracks failed

---
 src/py_eddy_tracker/observations/tracking.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index e011d46..643b07a 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -121,6 +121,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
 
     def __repr__(self):
         content = super().__repr__()
+        if len(self) == 0:
+            return content
         t0, t1 = self.period
         period = t1 - t0 + 1
         nb = self.nb_obs_by_track
-- 
2.43.0


From 49e952bf2f75033fe58f573b0a13f2200ba7b7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:24 +0000
Subject: [PATCH 099/125] fix: network_size of unknown networks gave the size
 of others

---
 src/py_eddy_tracker/observations/network.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 28a2e6e..cc493cd 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -10,6 +10,7 @@ import netCDF4
 from numba import njit, types as nb_types
 from numba.typed import List
 from numpy import (
+    append,
     arange,
     array,
     bincount,
@@ -239,8 +240,11 @@ class NetworkObservations(GroupEddiesObservations):
         if id_networks is None:
             return self.index_network[1] - self.index_network[0]
         else:
-            i = id_networks - self.index_network[2]
-            return self.index_network[1][i] - self.index_network[0][i]
+            i_first, i_last, ref = self.index_network
+            # last value is the size of all networks which don't exist
+            size = append(i_last - i_first, 0)
+            i = array(id_networks, dtype="i8") - int(ref)
+            return size[where((i < 0) | (i >= i_first.size), -1, i)]
 
     def unique_segment_to_id(self, id_unique):
         """Return id network and id segment for a unique id
-- 
2.43.0


From 54f6d9fa848bebca9968db23a1117c1c40e5d47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 100/125] fix: MergeEddies and EddyInfos failed with zarr files

---
 src/py_eddy_tracker/appli/eddies.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/appli/eddies.py b/src/py_eddy_tracker/appli/eddies.py
index 65be641..901eb20 100644
--- a/src/py_eddy_tracker/appli/eddies.py
+++ b/src/py_eddy_tracker/appli/eddies.py
@@ -13,6 +13,7 @@ from re import compile as re_compile
 from netCDF4 import Dataset
 from numpy import bincount, bytes_, empty, in1d, unique
 from yaml import safe_load
+import zarr
 
 from .. import EddyParser, identify_time
 from ..observations.observation import EddiesObservations, reverse_index
@@ -42,6 +43,13 @@ def eddies_add_circle():
     obs.write_file(filename=args.out)
 
 
+def list_variables(filename):
+    if filename.endswith(".zarr"):
+        return list(zarr.open(filename, "r").keys())
+    with Dataset(filename) as h:
+        return list(h.variables.keys())
+
+
 def merge_eddies():
     parser = EddyParser("Merge eddies")
     parser.add_argument("filename", nargs="+", help="all file to merge")
@@ -56,8 +64,7 @@ def merge_eddies():
     args = parser.parse_args()
 
     if args.include_var is None:
-        with Dataset(args.filename[0]) as h:
-            args.include_var = h.variables.keys()
+        args.include_var = list_variables(args.filename[0])
 
     obs = list()
     for filename in args.filename:
@@ -128,8 +135,7 @@ def display_infos():
     filenames = args.observations
     filenames.sort()
     for filename in filenames:
-        with Dataset(filename) as h:
-            track = "track" in h.variables
+        track = "track" in list_variables(filename)
         print(f"-- {filename} -- ")
         if track:
             vars_ = vars.copy()
-- 
2.43.0


From 4a51afc2d150ab07170078548d21ba35bd22b2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 101/125] fix: EddyMergeCorrespondances failed when output has
 no folder

---
 src/scripts/EddyMergeCorrespondances | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/scripts/EddyMergeCorrespondances b/src/scripts/EddyMergeCorrespondances
index 7598b47..ba2c2ce 100644
--- a/src/scripts/EddyMergeCorrespondances
+++ b/src/scripts/EddyMergeCorrespondances
@@ -32,8 +32,9 @@ if __name__ == "__main__":
     CONFIG = usage()
 
     # Create output directory
-    if not exists(dirname(CONFIG.path_out)):
-        mkdir(dirname(CONFIG.path_out))
+    OUTPUT_DIR = dirname(CONFIG.path_out)
+    if OUTPUT_DIR and not exists(OUTPUT_DIR):
+        mkdir(OUTPUT_DIR)
 
     START_TIME = dt.datetime.now()
     CORRESPONDANCES = Correspondances.load(CONFIG.nc_file[0])
-- 
2.43.0


From 3ab00a467b3a8d8fb73f7aa0c54fb1965984b429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 102/125] fix: EddySubSetter compared days of period with raw
 time

---
 src/scripts/EddySubSetter | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scripts/EddySubSetter b/src/scripts/EddySubSetter
index 6cace38..c5daef5 100644
--- a/src/scripts/EddySubSetter
+++ b/src/scripts/EddySubSetter
@@ -104,7 +104,8 @@ if __name__ == "__main__":
     # Original dataset
     dataset = TrackEddiesObservations.load_file(
         args.filename,
-        raw_data=False if args.no_raw_mode else True,
+        # Period is compared with unpacked time
+        raw_data=not args.no_raw_mode and args.period is None,
         remove_vars=args.remove_var,
         include_vars=args.include_var,
     )
-- 
2.43.0


From ab383ec5057e7966ac30687eec67262d17a29f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 103/125] fix: EddyFinalTracking interpolated longitudes across
 the seam

---
 src/scripts/EddyFinalTracking | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/scripts/EddyFinalTracking b/src/scripts/EddyFinalTracking
index fad4b02..7fa8294 100644
--- a/src/scripts/EddyFinalTracking
+++ b/src/scripts/EddyFinalTracking
@@ -79,8 +79,10 @@ if __name__ == "__main__":
     # We flag obs
     if CORRESPONDANCES.virtual:
         FINAL_EDDIES["virtual"][:] = FINAL_EDDIES["time"] == 0
+        FINAL_EDDIES.normalize_longitude()
         FINAL_EDDIES.filled_by_interpolation(FINAL_EDDIES["virtual"] == 1)
         SHORT_TRACK["virtual"][:] = SHORT_TRACK["time"] == 0
+        SHORT_TRACK.normalize_longitude()
         SHORT_TRACK.filled_by_interpolation(SHORT_TRACK["virtual"] == 1)
 
     # Total running time
-- 
2.43.0


From 57b81aab7c63e3538360c9536ce4fd84dff97de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 104/125] fix: EddyFinalTracking wrote short tracks in file of
 long ones when there is no long track

---
 src/scripts/EddyFinalTracking | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/scripts/EddyFinalTracking b/src/scripts/EddyFinalTracking
index 7fa8294..c477361 100644
--- a/src/scripts/EddyFinalTracking
+++ b/src/scripts/EddyFinalTracking
@@ -71,11 +71,13 @@ if __name__ == "__main__":
     SHORT_CORRESPONDANCES = CORRESPONDANCES._copy()
     SHORT_CORRESPONDANCES.shorter_than(size_max=NB_OBS_MIN)
 
-    CORRESPONDANCES.longer_than(size_min=NB_OBS_MIN)
-
-    FINAL_EDDIES = CORRESPONDANCES.merge()
     SHORT_TRACK = SHORT_CORRESPONDANCES.merge()
 
+    if CORRESPONDANCES.longer_than(size_min=NB_OBS_MIN) is False:
+        FINAL_EDDIES = SHORT_TRACK.empty_dataset()
+    else:
+        FINAL_EDDIES = CORRESPONDANCES.merge()
+
     # We flag obs
     if CORRESPONDANCES.virtual:
         FINAL_EDDIES["virtual"][:] = FINAL_EDDIES["time"] == 0
-- 
2.43.0


From 1c1cb27f925c3d76b1f08a39b572a2c3d9300d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 105/125] fix: EddyNetworkSubSetter compared days with raw time

---
 src/py_eddy_tracker/appli/network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/appli/network.py b/src/py_eddy_tracker/appli/network.py
index b8c2da5..c07519d 100644
--- a/src/py_eddy_tracker/appli/network.py
+++ b/src/py_eddy_tracker/appli/network.py
@@ -140,7 +140,8 @@ def subset_network():
         "if 0 it is not used",
     )
     args = parser.parse_args()
-    n = NetworkObservations.load_file(args.input, raw_data=True)
+    # Bounds of options are in days, so time must be unpacked
+    n = NetworkObservations.load_file(args.input)
     if args.ids is not None:
         n = n.networks(args.ids)
     if args.length is not None:
-- 
2.43.0


From 593766cfa2dbe2c1beff3acffdc16575ca20e763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 106/125] fix: EddyNetworkSubSetter ignored remove_trash

---
 src/py_eddy_tracker/appli/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/appli/network.py b/src/py_eddy_tracker/appli/network.py
index c07519d..fcf3f0f 100644
--- a/src/py_eddy_tracker/appli/network.py
+++ b/src/py_eddy_tracker/appli/network.py
@@ -144,6 +144,8 @@ def subset_network():
     n = NetworkObservations.load_file(args.input)
     if args.ids is not None:
         n = n.networks(args.ids)
+    if args.remove_trash:
+        n = n.remove_trash()
     if args.length is not None:
         n = n.longer_than(*args.length)
     if args.remove_dead_end is not None:
-- 
2.43.0


From b57d17c55ff4dd1a38ecdf0e7b3276e6c886bee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:46 +0000
Subject: [PATCH 107/125] fix: empty networks couldn't be compared

---
 src/py_eddy_tracker/observations/network.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index cc493cd..33c046b 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -196,16 +196,23 @@ class NetworkObservations(GroupEddiesObservations):
         self.previous_obs[~mask] = translate[self.previous_obs[~mask]]
         fix_next_previous_obs(self.next_obs, self.previous_obs, mask)
 
+    @staticmethod
+    def __build_index(groups):
+        # There is no group in an empty dataset
+        if groups.size == 0:
+            return empty(0, dtype="i8"), empty(0, dtype="i8"), 0
+        return build_index(groups)
+
     @property
     def index_network(self):
         if self._index_network is None:
-            self._index_network = build_index(self.track)
+            self._index_network = self.__build_index(self.track)
         return self._index_network
 
     @property
     def index_segment_track(self):
         if self._index_segment_track is None:
-            self._index_segment_track = build_index(self.segment_track_array)
+            self._index_segment_track = self.__build_index(self.segment_track_array)
         return self._index_segment_track
 
     def segment_size(self):
-- 
2.43.0


From dc2907989a01906e3db282e8d623b85704fc149f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:59 +0000
Subject: [PATCH 108/125] fix: spectra used values stored under the mask

---
 src/py_eddy_tracker/dataset/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index d55f017..61b2bb0 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1629,7 +1629,8 @@ class RegularGridDataset(GridDataset):
         x0, y0 = self.nearest_grd_indice(area["llcrnrlon"], area["llcrnrlat"])
         x1, y1 = self.nearest_grd_indice(area["urcrnrlon"], area["urcrnrlat"])
 
-        data = self.grid(grid_name)[x0:x1, y0:y1]
+        # Masked values are invalid, whatever is stored below the mask
+        data = self.grid(grid_name)[x0:x1, y0:y1].astype("f8").filled(nan)
 
         # Lat spectrum
         pws = list()
-- 
2.43.0


From 558ddfdd8094ae49edf11f2a296441f9333bb499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:59 +0000
Subject: [PATCH 109/125] fix: ratio of spectra with another scaling than
 density for the reference

---
 src/py_eddy_tracker/dataset/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 61b2bb0..b78a3d4 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1682,7 +1682,7 @@ class RegularGridDataset(GridDataset):
             if ref_grid_name is not None:
                 grid_name = ref_grid_name
             ref_lon_content, ref_lat_content = ref.spectrum_lonlat(
-                grid_name, area, **kwargs
+                grid_name, area, scaling=scaling, **kwargs
             )
             return (
                 (lon_content[0], lon_content[1] / ref_lon_content[1]),
-- 
2.43.0


From c5b8c0e466552f2185f129d765dce954b2794035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:19 +0000
Subject: [PATCH 110/125] fix: bins_stat returned counts for the documented
 method std

---
 src/py_eddy_tracker/observations/observation.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index e873b19..5113a99 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -34,6 +34,7 @@ from numpy import (
     isnan,
     linspace,
     ma,
+    maximum,
     nan,
     ndarray,
     ones,
@@ -2092,6 +2093,15 @@ class EddiesObservations(object):
             y_, _ = histogram(v, bins=bins, weights=y_v)
             with errstate(divide="ignore", invalid="ignore"):
                 y = y_ / y
+        elif method == "std":
+            y_v = self.parse_varname(yname)
+            y_v = y_v[mask].astype("f8")
+            # Centered values to keep precision
+            y_v = y_v - y_v.mean()
+            y_, _ = histogram(v, bins=bins, weights=y_v)
+            y2_, _ = histogram(v, bins=bins, weights=y_v**2)
+            with errstate(divide="ignore", invalid="ignore"):
+                y = maximum(y2_ / y - (y_ / y) ** 2, 0) ** 0.5
         return x, y
 
     def format_label(self, label):
-- 
2.43.0


From 6316b32b91ee38830f8e0f02a8424f852a3ffb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:22 +0000
Subject: [PATCH 111/125] fix: grid_tiles ignored the selected indexs of the
 other dimensions

---
 src/py_eddy_tracker/dataset/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index b78a3d4..6c4ab6c 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -597,7 +597,7 @@ class GridDataset(object):
             sl = [
                 (slice_x if dim in list(self.x_dim) else slice_y)
                 if dim in coordinates_dims
-                else 0
+                else self.indexs.get(dim, 0)
                 for dim in dims
             ]
             data = h.variables[varname][sl]
-- 
2.43.0


From 3524f830f3ff72dd5e26a3613e3b5cc3b18ab288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:22 +0000
Subject: [PATCH 112/125] fix: compute_stencil read out of grids of less than 4
 cells

---
 src/py_eddy_tracker/dataset/grid.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 6c4ab6c..a561d7f 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2975,8 +2975,11 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
             # Nothing is available before the first cell
             h_3, h_2, h_1, h0 = h[0, j], h[0, j], h[0, j], h[0, j]
             m_3, m_2, m_1, m0 = True, True, True, True
-        h1, h2, h3, h4 = h[0, j], h[1, j], h[2, j], h[3, j]
-        m1, m2, m3, m4 = m[0, j], m[1, j], m[2, j], m[3, j]
+        h1, m1 = h[0, j], m[0, j]
+        # There could be less than 4 cells
+        i2, i3, i4 = min(1, nb_x - 1), min(2, nb_x - 1), min(3, nb_x - 1)
+        h2, h3, h4 = h[i2, j], h[i3, j], h[i4, j]
+        m2, m3, m4 = m[i2, j] or nb_x < 2, m[i3, j] or nb_x < 3, m[i4, j] or nb_x < 4
         for i in range(nb_x):
             # Roll value and only last
             h_4, h_3, h_2, h_1, h0, h1, h2, h3 = h_3, h_2, h_1, h0, h1, h2, h3, h4
-- 
2.43.0


From 7a161a52cfa5d9a8baa7df140e831bd8934db826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:17 +0000
Subject: [PATCH 113/125] fix: contours which contain several eddies were
 sought at the wrong level and branch

---
 src/py_eddy_tracker/eddy_feature.py | 37 ++++++++++++++++-------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/py_eddy_tracker/eddy_feature.py b/src/py_eddy_tracker/eddy_feature.py
index 4b03182..c79542c 100644
--- a/src/py_eddy_tracker/eddy_feature.py
+++ b/src/py_eddy_tracker/eddy_feature.py
@@ -472,6 +472,7 @@ class Contours(object):
             for contour in collection.get_paths():
                 contour.used = False
                 contour.reject = 0
+                contour.contain_eddies = False
                 nb_contour += 1
                 nb_pt += contour.vertices.shape[0]
         logger.info(
@@ -688,34 +689,38 @@ class Contours(object):
             ax.autoscale_view()
 
     def label_contour_unused_which_contain_eddies(self, eddies):
-        """Select contour containing several eddies"""
-        if eddies.sign_type == 1:
-            # anticyclonic
-            sl = slice(None, -1)
-            cor = 1
-        else:
-            # cyclonic
-            sl = slice(1, None)
-            cor = -1
+        """
+        Select contour containing several eddies
+
+        Contours already selected (with eddies of the other sign for example) stay selected
+
+        :param EddiesObservations eddies: eddies of one sign found with these contours
+        """
+        # level of the eddies contained is above for anticyclones, below for cyclones
+        cor = 1 if eddies.sign_type == 1 else -1
+        heights = self.contours.cvalues
 
         # On each level
-        for j, collection in enumerate(self.contours.collections[sl]):
+        for j, collection in enumerate(self.contours.collections):
+            if not 0 <= j + cor < len(heights):
+                continue
             # get next height
-            contour_height = self.contours.cvalues[j + cor]
+            contour_height = heights[j + cor]
+            # heights of eddies are stored in single precision
+            precision = abs(contour_height - heights[j]) / 100
             # On each contour
             for i in collection.get_paths():
-                i.contain_eddies = False
                 if i.used:
                     continue
                 nb = 0
                 # try with each eddy
                 for eddy in eddies:
-                    if abs(eddy["height_external_contour"] - contour_height) > 1e-8:
+                    if abs(eddy["height_external_contour"] - contour_height) > precision:
                         continue
                     # If eddy center in contour
-                    wn = winding_number_poly(
-                        eddy["lon_max"], eddy["lat_max"], i.vertices
-                    )
+                    # on the longitude branch of contour
+                    lon = (eddy["lon_max"] - i.xmin) % 360 + i.xmin
+                    wn = winding_number_poly(lon, eddy["lat_max"], i.vertices)
                     if wn != 0:
                         # Count
                         nb += 1
-- 
2.43.0


From 704a9952dd3d41bcdaae8e2a88a7277555d890f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 114/125] fix: tracks stored on several branches of longitude
 were drawn through the whole map

---
 src/py_eddy_tracker/generic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 478d0aa..2e88c54 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -469,7 +469,8 @@ def wrap_longitude(x, y, ref, cut=False):
             new_x = (x_ - ref) % 360 + ref
             if not isnan(x_) and not isnan(x_previous):
                 d_new = new_x - new_x_previous
-                d = x_ - x_previous
+                # Two successive points could be stored on different branches
+                d = (x_ - x_previous + 180) % 360 - 180
                 if abs(d - d_new) > 1e-5:
                     indexs.append(i)
             x_previous, new_x_previous = x_, new_x
@@ -483,8 +484,7 @@ def wrap_longitude(x, y, ref, cut=False):
         for i in range(nb):
             if j < nb_indexs and i == indexs[j]:
                 j += 1
-                # FIXME need check
-                cor = 360 if x[i - 1] > x[i] else -360
+                cor = 360 if (x[i] - x[i - 1] + 180) % 360 - 180 < 0 else -360
                 out_x[i + i_] = (x[i] - ref) % 360 + ref - cor
                 out_y[i + i_] = y[i]
                 out_x[i + i_ + 1] = nan
-- 
2.43.0


From 11c8436029636648e92681671d938a4ca294ff3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 115/125] fix: eddies of a constant or unsigned field were
 drawn without or with a wrong color

---
 src/py_eddy_tracker/observations/observation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 5113a99..96e0be0 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -1970,8 +1970,8 @@ class EddiesObservations(object):
                 vmin = v.min()
             if vmax is None:
                 vmax = v.max()
-            v = (v - vmin) / (vmax - vmin)
-            colors = [cmap(v_) for v_ in v]
+            # A constant field has the first color, and an unsigned one could be under vmin
+            colors = cmap((v.astype("f8") - vmin) / ((vmax - vmin) or 1))
             kwargs["facecolors"] = colors
         if "label" in kwargs:
             kwargs["label"] = self.format_label(kwargs["label"])
@@ -2135,7 +2135,8 @@ class EddiesObservations(object):
         c = self.parse_varname(field)
         cmap = get_cmap(kwargs.pop("cmap", "Spectral_r"))
         cmin, cmax = kwargs.pop("vmin", c.min()), kwargs.pop("vmax", c.max())
-        colors = cmap((c - cmin) / (cmax - cmin))
+        # A constant field has the first color, and an unsigned one could be under vmin
+        colors = cmap((c.astype("f8") - cmin) / ((cmax - cmin) or 1))
         lines = LineCollection(
             [create_vertice(i, j) for i, j in zip(x, y)], colors=colors, **kwargs
         )
-- 
2.43.0


From 17306391f3a2de4aeec6ab2ea3caec71a7849c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 116/125] fix: timeline of networks failed with splitting
 events and an array as field

---
 src/py_eddy_tracker/observations/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 33c046b..0635f4b 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -927,7 +927,7 @@ class NetworkObservations(GroupEddiesObservations):
             if i_p != -1:
                 seg_previous = self.segment[i_p]
                 if field is not None and method == "all":
-                    y0 = self[field][i.start] * factor
+                    y0 = self.parse_varname(field)[i.start] * factor
                 y1 = (
                     seg_previous
                     if field is None
-- 
2.43.0


From 5489349b9d096b5dd5d01aa2314254a098c8200a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:03 +0000
Subject: [PATCH 117/125] fix: grids which cross the western boundary were
 drawn with crossed or stretched columns

---
 src/py_eddy_tracker/dataset/grid.py | 42 +++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index a561d7f..1be80f7 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -17,19 +17,23 @@ from numpy import (
     concatenate,
     cos,
     deg2rad,
+    delete,
     empty,
     errstate,
     exp,
     float_,
     floor,
     histogram2d,
+    insert,
     int_,
     interp,
     isnan,
     linspace,
     ma,
+    maximum,
     mean as np_mean,
     meshgrid,
+    minimum,
     nan,
     nanmean,
     ones,
@@ -1942,6 +1946,33 @@ class RegularGridDataset(GridDataset):
         u, v = self.grid(uname), self.grid(vname)
         self._speed_ev = sqrt(u * u + v * v)
 
+    def wrap_columns(self, data, ref):
+        """
+        Order columns of a grid from a western boundary, a hole between two columns is filled by a masked one
+
+        :param array data: grid
+        :param float ref: western boundary
+        :return: begin, center and end of each column, and the grid
+        """
+        x = (self.x_c - ref) % 360 + ref
+        i = x.argsort()
+        x, shift, data = x[i], (x - self.x_c)[i], data[i]
+        bounds = self.x_bounds[:-1], self.x_bounds[1:]
+        x0, x1 = minimum(*bounds)[i] + shift, maximum(*bounds)[i] + shift
+        holes = where(x0[1:] - x1[:-1] > 1e-3 * (x1 - x0)[1:])[0]
+        if holes.size:
+            begin, end = x1[holes], x0[holes + 1]
+            data_ = ma.masked_all(
+                (data.shape[0] + holes.size, data.shape[1]), dtype=data.dtype
+            )
+            columns = delete(arange(data_.shape[0]), holes + 1 + arange(holes.size))
+            data_[columns] = data
+            data = data_
+            x0 = insert(x0, holes + 1, begin)
+            x1 = insert(x1, holes + 1, end)
+            x = insert(x, holes + 1, (begin + end) / 2)
+        return x0, x, x1, data
+
     def display(self, ax, name, factor=1, ref=None, **kwargs):
         """
         :param matplotlib.axes.Axes ax: matplotlib axes used to draw
@@ -1958,10 +1989,8 @@ class RegularGridDataset(GridDataset):
         if ref is None:
             x = self.x_bounds
         else:
-            x = (self.x_c - ref) % 360 + ref
-            i = x.argsort()
-            x = self.c_to_bounds(x[i])
-            data = data[i]
+            x, _, x_end, data = self.wrap_columns(data, ref)
+            x = concatenate((x, x_end[-1:]))
         return ax.pcolormesh(x, self.y_bounds, data.T * factor, **kwargs)
 
     def contour(self, ax, name, factor=1, ref=None, **kwargs):
@@ -1978,10 +2007,7 @@ class RegularGridDataset(GridDataset):
         if ref is None:
             x = self.x_c
         else:
-            x = (self.x_c - ref) % 360 + ref
-            i = x.argsort()
-            x = x[i]
-            data = data[i]
+            _, x, _, data = self.wrap_columns(data, ref)
         return ax.contour(x, self.y_c, data.T * factor, **kwargs)
 
     def regrid(self, other, grid_name, new_name=None):
-- 
2.43.0


From c2dad26c865de75088bc82e6b3cc9768542263f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:05 +0000
Subject: [PATCH 118/125] fix: animations drew contours older than asked after
 a gap, and nothing for a constant field

---
 src/py_eddy_tracker/appli/gui.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/appli/gui.py b/src/py_eddy_tracker/appli/gui.py
index 4a8cdeb..15b7c84 100644
--- a/src/py_eddy_tracker/appli/gui.py
+++ b/src/py_eddy_tracker/appli/gui.py
@@ -70,7 +70,8 @@ class Anim:
                     self.field_color.min() if rg[0] is None else rg[0],
                     self.field_color.max() if rg[1] is None else rg[1],
                 )
-                self.field_color = (self.field_color - rg[0]) / (rg[1] - rg[0])
+                # Constant field have the first color
+                self.field_color = (self.field_color - rg[0]) / ((rg[1] - rg[0]) or 1)
             self.colors = pyplot.get_cmap(cmap, lut=lut)
         self.nb_step = nb_step
 
@@ -198,7 +199,11 @@ class Anim:
         # linewidth will be link to time delay
         self.contour.set_lw(
             [
-                (1 - (self.now - i) / self.nb_step) * 2.5 if i <= self.now else 0
+                (
+                    (1 - (self.now - i) / self.nb_step) * 2.5
+                    if 0 <= self.now - i <= self.nb_step
+                    else 0
+                )
                 for i in chain(*self.t_segs)
             ]
         )
-- 
2.43.0


From e4c088b2aef5aed3ec1f5809409c8fe6e7b0fba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:54 +0000
Subject: [PATCH 119/125] fix: reading a variable which is not stored raised
 ValueError, even in hasattr

---
 src/py_eddy_tracker/observations/observation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 96e0be0..aa51e02 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -394,7 +394,7 @@ class EddiesObservations(object):
     def __getitem__(self, attr: str):
         if attr in self.elements:
             return self.obs[attr]
-        elif attr in VAR_DESCR_inv:
+        elif VAR_DESCR_inv.get(attr) in self.elements:
             return self.obs[VAR_DESCR_inv[attr]]
         elif attr in ("lifetime", "age"):
             return getattr(self, attr)
@@ -403,7 +403,7 @@ class EddiesObservations(object):
     def __getattr__(self, attr):
         if attr in self.elements:
             return self.obs[attr]
-        elif attr in VAR_DESCR_inv:
+        elif VAR_DESCR_inv.get(attr) in self.elements:
             return self.obs[VAR_DESCR_inv[attr]]
         raise AttributeError(
             "{!r} object has no attribute {!r}".format(type(self).__name__, attr)
-- 
2.43.0


From c3a3a4c82ff7a9526c90cd08478ac2637559fd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:18 +0000
Subject: [PATCH 120/125] fix: printing an empty network failed

---
 src/py_eddy_tracker/observations/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 0635f4b..5958b88 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -114,13 +114,13 @@ class NetworkObservations(GroupEddiesObservations):
         )
         period = (self.period[1] - self.period[0]) / 365.25
         nb_by_network = self.network_size()
-        nb_trash = 0 if self.ref_index != 0 else nb_by_network[0]
+        nb_trash = nb_by_network[0] if len(self) and self.ref_index == 0 else 0
         big = 50_000
         infos = [
             f"Atlas with {self.nb_network} networks ({self.nb_network / period:0.0f} networks/year),"
             f" {self.nb_segment} segments ({self.nb_segment / period:0.0f} segments/year), {len(self)} observations ({len(self) / period:0.0f} observations/year)",
             f"    {m_event.size} merging ({m_event.size / period:0.0f} merging/year), {s_event.size} splitting ({s_event.size / period:0.0f} splitting/year)",
-            f"    with {(nb_by_network > big).sum()} network with more than {big} obs and the biggest have {nb_by_network.max()} observations ({nb_by_network[nb_by_network> big].sum()} observations cumulate)",
+            f"    with {(nb_by_network > big).sum()} network with more than {big} obs and the biggest have {nb_by_network.max(initial=0)} observations ({nb_by_network[nb_by_network> big].sum()} observations cumulate)",
             f"    {nb_trash} observations in trash",
         ]
         return "\n".join(infos)
-- 
2.43.0


From f82ace42c4fa2b45cf0d83fd01272b54f8d7654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:36 +0000
Subject: [PATCH 121/125] fix: viewer named the wrong eddy unless contours had
 50 points, and hid the name with several datasets; animations skipped the
 first date and failed when going back

---
 src/py_eddy_tracker/appli/gui.py | 16 ++++++++--------
 src/py_eddy_tracker/gui.py       |  7 ++++---
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/py_eddy_tracker/appli/gui.py b/src/py_eddy_tracker/appli/gui.py
index 15b7c84..c353a8a 100644
--- a/src/py_eddy_tracker/appli/gui.py
+++ b/src/py_eddy_tracker/appli/gui.py
@@ -129,7 +129,8 @@ class Anim:
         loop = True
         t0, t1 = self.period
         while loop:
-            self.now = t0
+            # next will draw the first date
+            self.now = t0 - 1
             while True:
                 dt = self.sleep_event
                 if not self.pause:
@@ -252,13 +253,12 @@ class Anim:
         elif event.key == "right" and self.pause:
             self.next()
         elif event.key == "left" and self.pause:
-            # we remove 2 step to add 1 so we rewind of only one
-            self.segs.pop(-1)
-            self.segs.pop(-1)
-            self.t_segs.pop(-1)
-            self.t_segs.pop(-1)
-            self.c_segs.pop(-1)
-            self.c_segs.pop(-1)
+            # we remove current and previous steps, the last one will be drawn again
+            while self.t_segs and self.t_segs[-1][0] >= self.now - 1:
+                self.segs.pop(-1)
+                self.t_segs.pop(-1)
+                if self.c_segs:
+                    self.c_segs.pop(-1)
             self.prev()
 
 
diff --git a/src/py_eddy_tracker/gui.py b/src/py_eddy_tracker/gui.py
index a85e9c1..f304302 100644
--- a/src/py_eddy_tracker/gui.py
+++ b/src/py_eddy_tracker/gui.py
@@ -322,8 +322,9 @@ class GUI:
             for name in self.datasets.keys():
                 flag, data = self.m[name]["contour_s"].contains(event)
                 if flag:
-                    # 51 is for contour on 50 point must be rewrote
-                    touch[name] = data["ind"][0] // 51
+                    # Contours are separated by one nan
+                    nb = self.datasets[name]["contour_lon_s"].shape[1] + 1
+                    touch[name] = data["ind"][0] // nb
             a = self.m["annotate"]
             ax = self.m["mini_ax"]
             if touch:
@@ -351,7 +352,7 @@ class GUI:
                 self.map.draw_artist(a)
                 self.map.draw_artist(ax)
                 self.figure.canvas.blit(self.map.bbox)
-            if not flag and self.map.bg_cache is not None and a.get_visible():
+            if not touch and self.map.bg_cache is not None and a.get_visible():
                 a.set_visible(False)
                 ax.set_visible(False)
                 self.figure.canvas.restore_region(self.map.bg_cache)
-- 
2.43.0


From c6d0d377041f99ebb63fdb0fa8f6c8a63da59dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:59 +0000
Subject: [PATCH 122/125] fix: EddyAnim lost the last date and failed with
 first_centered and intern

---
 src/py_eddy_tracker/appli/gui.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/appli/gui.py b/src/py_eddy_tracker/appli/gui.py
index c353a8a..ab3397f 100644
--- a/src/py_eddy_tracker/appli/gui.py
+++ b/src/py_eddy_tracker/appli/gui.py
@@ -319,8 +319,9 @@ def anim():
         # TODO: include to observation class
         x0 = eddies.lon[0]
         eddies.lon[:] = (eddies.lon - x0 + 180) % 360 + x0 - 180
-        eddies.contour_lon_e[:] = (
-            (eddies.contour_lon_e.T - eddies.lon + 180) % 360 + eddies.lon - 180
+        x_name, _ = eddies.intern(args.intern)
+        eddies[x_name][:] = (
+            (eddies[x_name].T - eddies.lon + 180) % 360 + eddies.lon - 180
         ).T
 
     kw = dict()
@@ -342,7 +343,8 @@ def anim():
     if args.mp4 is None:
         a.show(infinity_loop=args.infinity_loop)
     else:
-        kwargs = dict(frames=arange(*a.period), interval=50)
+        t0, t1 = a.period
+        kwargs = dict(frames=arange(t0, t1 + 1), interval=50)
         ani = FuncAnimation(a.fig, a.func_animation, **kwargs)
         ani.save(args.mp4, fps=30, extra_args=["-vcodec", "libx264"])
 
-- 
2.43.0


From d2bcde1b0635409ae7fff5c3ce0b39dbc2e65fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:01 +0000
Subject: [PATCH 123/125] fix: the line of the date could not be dragged in the
 viewer (matplotlib >= 3.7)

---
 src/py_eddy_tracker/gui.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/gui.py b/src/py_eddy_tracker/gui.py
index f304302..f61d2ef 100644
--- a/src/py_eddy_tracker/gui.py
+++ b/src/py_eddy_tracker/gui.py
@@ -255,7 +255,7 @@ class GUI:
         self.map.legend()
         # time ax
         x, y = self.m["time_vline"].get_data()
-        self.m["time_vline"].set_data(self.now, y)
+        self.m["time_vline"].set_data([self.now, self.now], y)
         self.m["time_text"].set_text("\n".join(time_text))
         self.m["time_text"].set_position((self.now, 0))
         # force update
@@ -312,7 +312,7 @@ class GUI:
     def move(self, event):
         if event.inaxes == self.time_ax and self.time_ax.press:
             x, y = self.m["time_vline"].get_data()
-            self.m["time_vline"].set_data(event.xdata, y)
+            self.m["time_vline"].set_data([event.xdata, event.xdata], y)
             self.figure.canvas.restore_region(self.time_ax.bg_cache)
             self.time_ax.draw_artist(self.m["time_vline"])
             self.figure.canvas.blit(self.time_ax.bbox)
@@ -364,7 +364,7 @@ class GUI:
     def release(self, event):
         if self.time_ax.press:
             self.time_ax.press = False
-            self.settings["now"] = int(self.m["time_vline"].get_data()[0])
+            self.settings["now"] = int(self.m["time_vline"].get_data()[0][0])
             self.update()
 
     def scroll(self, event):
-- 
2.43.0


From 667a0f9326c2d2aa11491cdcfce932e025d0b360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:23 +0000
Subject: [PATCH 124/125] fix: period was not updated when dates were filled by
 interpolation

---
 src/py_eddy_tracker/observations/groups.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/groups.py b/src/py_eddy_tracker/observations/groups.py
index e63017f..8601e16 100644
--- a/src/py_eddy_tracker/observations/groups.py
+++ b/src/py_eddy_tracker/observations/groups.py
@@ -308,6 +308,8 @@ class GroupEddiesObservations(EddiesObservations, ABC):
             self.obs[field][mask] = interp(
                 index[mask], index[~mask], self.obs[field][~mask]
             )
+        # Dates could have changed
+        self.reset_index()
 
     def insert_virtual(self):
         """Insert virtual observations on segments where observations are missing"""
-- 
2.43.0


From e3705088c8c40369d66f24b0f4065476e7886a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:36 +0000
Subject: [PATCH 125/125] fix: a variable already read was returned whatever
 the indexes asked

---
 src/py_eddy_tracker/dataset/grid.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 1be80f7..9d4e962 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -12,6 +12,7 @@ from numba import njit, prange, types as numba_types
 from numpy import (
     arange,
     array,
+    array_equal,
     broadcast_to,
     ceil,
     concatenate,
@@ -261,6 +262,7 @@ class GridDataset(object):
         "variables_description",
         "global_attrs",
         "vars",
+        "loaded_indexs",
         "contours",
         "nan_mask",
     )
@@ -305,6 +307,7 @@ class GridDataset(object):
         self.filename = filename
         self.coordinates = x_name, y_name
         self.vars = dict()
+        self.loaded_indexs = dict()
         self.indexs = dict() if indexs is None else indexs
         if centered is None:
             logger.warning(
@@ -330,6 +333,7 @@ class GridDataset(object):
         self.y_dim = None
         self.contours = None
         self.vars = dict()
+        self.loaded_indexs = dict()
 
     @property
     def is_centered(self):
@@ -546,7 +550,12 @@ class GridDataset(object):
         """
         if indexs is None:
             indexs = dict()
-        if varname not in self.vars:
+        loaded = self.loaded_indexs.get(varname, dict())
+        # Variable must be read again if others indexs are asked
+        changed = any(
+            not array_equal(loaded[dim], i) for dim, i in indexs.items() if dim in loaded
+        )
+        if varname not in self.vars or changed:
             coordinates_dims = list(self.x_dim)
             coordinates_dims.extend(list(self.y_dim))
             logger.debug(
@@ -564,6 +573,7 @@ class GridDataset(object):
                     )
                     for dim in dims
                 ]
+                self.loaded_indexs[varname] = dict(zip(dims, sl))
                 self.vars[varname] = h.variables[varname][sl]
                 if len(self.x_dim) == 1:
                     i_x = where(array(dims) == self.x_dim)[0][0]
-- 
2.43.0

