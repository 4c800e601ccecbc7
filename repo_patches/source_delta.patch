From b16822d9c30b1d1224ca064f1d687d7e57969605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:02 +0000
Subject: [PATCH 01/91] fix: normalize_domain no longer works in place on
 shared arrays

The in-place shift/scale was applied twice when the local arrays are views of
the global ones, modified the arrays passed in by the user, and failed for
integer data.
---
 bet/sample.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index b4543b8..11c8d5e 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -354,7 +354,7 @@ class sample_set_base(object):
             for obj in rescale_list:
                 val = getattr(self, obj)
                 if val is not None:
-                    val *= (self._domain[:, 1] - self._domain[:, 0])
+                    val = val * (self._domain[:, 1] - self._domain[:, 0])
                     setattr(self, obj, val)
 
             shift_list = ['_values', '_values_local',
@@ -365,8 +365,8 @@ class sample_set_base(object):
             for obj in shift_list:
                 val = getattr(self, obj)
                 if val is not None:
-                    val -= self._domain[:, 0]
-                    val = val / (self._domain[:, 1] - self._domain[:, 0])
+                    val = (val - self._domain[:, 0]) / \
+                        (self._domain[:, 1] - self._domain[:, 0])
                     setattr(self, obj, val)
 
             self._domain_original = np.copy(self._domain)
-- 
2.43.0


From 3bd185ec8aef32c0ac1d985551c713cb1f1798ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:02 +0000
Subject: [PATCH 02/91] fix: normalize_domain also scales the cell widths

Left and right bounds were normalized but the widths were not, so volumes of
rectangles computed afterwards were wrong.
---
 bet/sample.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bet/sample.py b/bet/sample.py
index 11c8d5e..275a1af 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -369,6 +369,11 @@ class sample_set_base(object):
                         (self._domain[:, 1] - self._domain[:, 0])
                     setattr(self, obj, val)
 
+            for obj in ['_width', '_width_local']:
+                val = getattr(self, obj)
+                if val is not None:
+                    setattr(self, obj, val / (self._domain[:, 1] - self._domain[:, 0]))
+
             self._domain_original = np.copy(self._domain)
             self._domain = np.repeat([[0.0, 1.0]], self._dim, axis=0)
 
@@ -410,6 +415,12 @@ class sample_set_base(object):
                     val = val + self._domain_original[:, 0]
                     setattr(self, obj, val)
 
+            for obj in ['_width', '_width_local']:
+                val = getattr(self, obj)
+                if val is not None:
+                    setattr(self, obj, val * (self._domain_original[:, 1] -
+                                              self._domain_original[:, 0]))
+
             self._domain = np.copy(self._domain_original)
             self._domain_original = None
 
-- 
2.43.0


From 607824b856c4eedebbf38798b165be58aa5b70e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:02 +0000
Subject: [PATCH 03/91] fix: changing the values of a sample set discards its
 search tree and bounding box

query() and get_bounding_box() kept answering for the previous values after
set_values, append_values, clip, local_to_global or (un)normalization.
---
 bet/sample.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/bet/sample.py b/bet/sample.py
index 275a1af..6a8eb6d 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -374,6 +374,7 @@ class sample_set_base(object):
                 if val is not None:
                     setattr(self, obj, val / (self._domain[:, 1] - self._domain[:, 0]))
 
+            self._reset_derived()
             self._domain_original = np.copy(self._domain)
             self._domain = np.repeat([[0.0, 1.0]], self._dim, axis=0)
 
@@ -421,9 +422,19 @@ class sample_set_base(object):
                     setattr(self, obj, val * (self._domain_original[:, 1] -
                                               self._domain_original[:, 0]))
 
+            self._reset_derived()
             self._domain = np.copy(self._domain_original)
             self._domain_original = None
 
+    def _reset_derived(self):
+        """
+        Forgets everything that is derived from the sample values.
+        """
+        self._kdtree = None
+        self._kdtree_values = None
+        self._kdtree_values_local = None
+        self._bounding_box = None
+
     def set_p_norm(self, p_norm):
         """
         Sets p-norm for sample set.
@@ -685,6 +696,7 @@ class sample_set_base(object):
         """
         self._values = np.concatenate((self._values,
                                        util.fix_dimensions_data(values, self._dim)), 0)
+        self._reset_derived()
 
     def append_values_local(self, values_local):
         """
@@ -722,6 +734,7 @@ class sample_set_base(object):
                 setattr(sset, array_name, new_array)
         if sset._values_local is not None:
             sset.global_to_local()
+        sset._bounding_box = None
         sset.set_kdtree()
         return sset
 
@@ -825,6 +838,7 @@ class sample_set_base(object):
 
         """
         self._values = util.fix_dimensions_data(values, self._dim)
+        self._reset_derived()
         if self._values.shape[1] != self._dim:
             raise dim_not_matching("dimension of values incorrect")
 
@@ -1239,11 +1253,15 @@ class sample_set_base(object):
         """
         Makes global arrays from available local ones.
         """
+        old_values = self._values
         for array_name in self.array_names:
             current_array_local = getattr(self, array_name + "_local")
             if current_array_local is not None:
                 setattr(self, array_name,
                         util.get_global_values(current_array_local))
+        if self._values is not old_values and not \
+                np.array_equal(self._values, old_values):
+            self._reset_derived()
 
     def query(self, x, k=1):
         """
-- 
2.43.0


From f59fe30fac7f1868687947bb390c70a6130cbd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:02 +0000
Subject: [PATCH 04/91] fix: set_error_id_local stores the identifiers where
 get_error_id_local reads them

---
 bet/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index 6a8eb6d..7494403 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -646,7 +646,7 @@ class sample_set_base(object):
         :param error_id: array of error identifiers
         :type error_id: :class:`numpy.ndarray` of shape (some_num, dim)
         """
-        self._error_local = error_id
+        self._error_id_local = error_id
 
     def get_error_id_local(self):
         """
-- 
2.43.0


From 6ab20b5ababcff1ce17a465d952f65720c47dab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:02 +0000
Subject: [PATCH 05/91] fix: discretization.local_to_global/global_to_local
 treat all sample sets

The call for the emulated output set lacked its parentheses and the observed
output set was left out, so its local data was lost when saving in parallel.
---
 bet/sample.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index 7494403..52bc79d 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2860,6 +2860,8 @@ class discretization(object):
             self._emulated_input_sample_set.local_to_global()
         if self._emulated_output_sample_set is not None:
             self._emulated_output_sample_set.local_to_global()
+        if self._output_observed_set is not None:
+            self._output_observed_set.local_to_global()
 
     def global_to_local(self):
         """
@@ -2875,4 +2877,6 @@ class discretization(object):
         if self._emulated_input_sample_set is not None:
             self._emulated_input_sample_set.global_to_local()
         if self._emulated_output_sample_set is not None:
-            self._emulated_output_sample_set.global_to_local
+            self._emulated_output_sample_set.global_to_local()
+        if self._output_observed_set is not None:
+            self._output_observed_set.global_to_local()
-- 
2.43.0


From 9c755ea5713fc973f1af082a14b55244df95ab25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:25 +0000
Subject: [PATCH 06/91] fix: prob_on_emulated_samples uses the current output
 pointer

When the output pointer had been computed only locally (by prob or by the
simple function approximations) the global pointer was missing, which raised a
TypeError, or was left over from an earlier output probability set.
---
 bet/calculateP/calculateP.py | 1 +
 bet/sample.py                | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/bet/calculateP/calculateP.py b/bet/calculateP/calculateP.py
index 210b42e..6c980b9 100644
--- a/bet/calculateP/calculateP.py
+++ b/bet/calculateP/calculateP.py
@@ -42,6 +42,7 @@ def prob_on_emulated_samples(discretization, globalize=True):
         discretization.set_io_ptr(globalize=True)
     if discretization._emulated_ii_ptr_local is None:
         discretization.set_emulated_ii_ptr(globalize=False)
+    discretization.globalize_ptrs()
 
     # Calculate Probabilties
     P = np.zeros((discretization._emulated_input_sample_set.
diff --git a/bet/sample.py b/bet/sample.py
index 52bc79d..5c4edfd 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2421,6 +2421,8 @@ class discretization(object):
 
         if globalize:
             self._io_ptr = util.get_global_values(self._io_ptr_local)
+        else:
+            self._io_ptr = None
 
     def get_io_ptr(self):
         """
@@ -2461,6 +2463,8 @@ class discretization(object):
         if globalize:
             self._emulated_ii_ptr = util.get_global_values(
                 self._emulated_ii_ptr_local)
+        else:
+            self._emulated_ii_ptr = None
 
     def get_emulated_ii_ptr(self):
         """
@@ -2502,6 +2506,8 @@ class discretization(object):
         if globalize:
             self._emulated_oo_ptr = util.get_global_values(
                 self._emulated_oo_ptr_local)
+        else:
+            self._emulated_oo_ptr = None
 
     def get_emulated_oo_ptr(self):
         """
-- 
2.43.0


From 7b1502759b81bd11d3130c9a8477db7a37c884fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:25 +0000
Subject: [PATCH 07/91] fix: replacing a sample set of a discretization
 discards the pointers computed with it

Otherwise later inversions silently used the pointers of the replaced set.
Also allow setting the output probability set before the output sample set.
---
 bet/sample.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index 5c4edfd..a24273c 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2558,6 +2558,8 @@ class discretization(object):
         """
         if isinstance(input_sample_set, sample_set_base):
             self._input_sample_set = input_sample_set
+            self._emulated_ii_ptr = None
+            self._emulated_ii_ptr_local = None
         else:
             raise AttributeError("Wrong Type: Should be sample_set_base type")
 
@@ -2583,6 +2585,8 @@ class discretization(object):
         """
         if isinstance(output_sample_set, sample_set_base):
             self._output_sample_set = output_sample_set
+            self._io_ptr = None
+            self._io_ptr_local = None
         else:
             raise AttributeError("Wrong Type: Should be sample_set_base type")
 
@@ -2647,7 +2651,12 @@ class discretization(object):
                 raise dim_not_matching("dimension of values incorrect")
         else:
             raise AttributeError("Wrong Type: Should be sample_set_base type")
-        if self._output_sample_set._values_local is not None:
+        self._io_ptr = None
+        self._io_ptr_local = None
+        self._emulated_oo_ptr = None
+        self._emulated_oo_ptr_local = None
+        if self._output_sample_set is not None and \
+                self._output_sample_set._values_local is not None:
             if output_probability_set._values is not None:
                 self.set_io_ptr(globalize=False)
 
@@ -2685,6 +2694,8 @@ class discretization(object):
                 self._emulated_output_sample_set = emulated_output_sample_set
             else:
                 raise dim_not_matching("dimension of values incorrect")
+            self._emulated_oo_ptr = None
+            self._emulated_oo_ptr_local = None
         else:
             raise AttributeError("Wrong Type: Should be sample_set_base type")
 
@@ -2718,6 +2729,8 @@ class discretization(object):
                     raise dim_not_matching("dimension of values incorrect")
             else:
                 self._emulated_input_sample_set = emulated_input_sample_set
+            self._emulated_ii_ptr = None
+            self._emulated_ii_ptr_local = None
         else:
             raise AttributeError("Wrong Type: Should be sample_set_base type")
 
-- 
2.43.0


From 8029b166e036a028237d9fb76d1e7dd500a4c422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:55 +0000
Subject: [PATCH 08/91] fix: equality of sample sets and discretizations
 compares all data by content

Comparing raised an exception when an array was present in only one operand or
the shapes differed, broadcast shapes and additional list entries counted as
equal, and sets holding NaN (every ball set) or kernel densities never equalled
their own copy.
---
 bet/sample.py | 75 ++++++++++++++++++++++-----------------------------
 1 file changed, 32 insertions(+), 43 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index a24273c..6c70465 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -21,6 +21,7 @@ import os
 import logging
 import copy
 import glob
+import numbers
 import warnings
 import numpy as np
 import math as math
@@ -62,6 +63,33 @@ class wrong_input(Exception):
     Exception for when the input is of the wrong type.
     """
 
+
+def _same_data(a, b):
+    """
+    Compare two pieces of data (arrays, lists, sample sets, density objects, ...) by
+    content. NaNs in the same place are regarded as equal.
+
+    :rtype: bool
+    """
+    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
+        if type(a) is not type(b) or a.shape != b.shape:
+            return False
+        return bool(np.all((a == b) | ((a != a) & (b != b))))
+    if isinstance(a, numbers.Number) and isinstance(b, numbers.Number):
+        return bool(a == b or (a != a and b != b))
+    if type(a) is not type(b):
+        return False
+    if isinstance(a, (list, tuple)):
+        return len(a) == len(b) and all(_same_data(x, y) for x, y in zip(a, b))
+    if isinstance(a, dict):
+        return a.keys() == b.keys() and all(_same_data(a[k], b[k]) for k in a)
+    if hasattr(a, '__func__'):
+        return a.__func__ is b.__func__
+    if type(a).__eq__ is object.__eq__ and hasattr(a, '__dict__'):
+        return a is b or _same_data(vars(a), vars(b))
+    return bool(a == b)
+
+
 def evaluate_pdf(prob_type, prob_parameters, vals):
     """
     Evaluate the probability density function defined by `prob_type` and `prob_parameters`
@@ -300,32 +328,8 @@ class sample_set_base(object):
         :rtype: bool
         """
         if self.__class__ == other.__class__:
-            fields = self.meta_fields
-            for field in fields:
-                if type(getattr(self, field)) is np.ndarray:
-                    if np.any(getattr(self, field) != getattr(other, field)):
-                        return False
-                elif field == "_cluster_maps":
-                    cluster_maps = getattr(self, field)
-                    cluster_maps_other = getattr(other, field)
-                    if type(cluster_maps_other) != type(cluster_maps):
-                        return False
-                    if type(cluster_maps) is list:
-                        for k in range(len(cluster_maps)):
-                            if not np.array_equal(cluster_maps[k], cluster_maps_other[k]):
-                                return False
-                elif type(getattr(self, field)) is list:
-                    compare = getattr(self, field) == getattr(other, field)
-                    if type(compare) is bool:
-                        if compare is False:
-                            return False
-                    else:
-                        if compare.any() is False:
-                            return False
-                else:
-                    if getattr(self, field) != getattr(other, field):
-                        return False
-            return True
+            return all(_same_data(getattr(self, field), getattr(other, field))
+                       for field in self.meta_fields)
         else:
             raise TypeError('Comparing object is not of the same type.')
 
@@ -2340,23 +2344,8 @@ class discretization(object):
         :rtype: bool
         """
         if self.__class__ == other.__class__:
-            fields = self.sample_set_names + self.vector_names
-            for field in fields:
-                if type(getattr(self, field)) is np.ndarray:
-                    if np.any(getattr(self, field) != getattr(other, field)):
-                        return False
-                elif type(getattr(self, field)) is list:
-                    compare = getattr(self, field) == getattr(other, field)
-                    if compare is bool:
-                        if compare is False:
-                            return False
-                    else:
-                        if compare.any() is False:
-                            return False
-                else:
-                    if getattr(self, field) != getattr(other, field):
-                        return False
-            return True
+            return all(_same_data(getattr(self, field), getattr(other, field))
+                       for field in self.sample_set_names + self.vector_names)
         else:
             raise TypeError('Comparing object is not of the same type.')
 
-- 
2.43.0


From f7501db24bcb7da50a3fa07c6457df8c4c7ef1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:55 +0000
Subject: [PATCH 09/91] fix: rectangle and ball queries for several neighbors
 list each cell once

With k >= 3 a cell containing the point was reported in more than one column.
---
 bet/sample.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 6c70465..e2c3cf4 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2018,15 +2018,12 @@ class rectangle_sample_set(sample_set_base):
             in_l = np.all(np.greater(x, self._left[i, :]), axis=1)
             in_rec = np.logical_and(in_r, in_l)
             for j in range(k):
-                if j == 0:
-                    in_rec_now = np.logical_and(np.equal(pt[:, j], num - 1),
-                                                in_rec)
-                else:
-                    in_rec_now = np.logical_and(np.logical_and(
-                        np.equal(pt[:, j], num - 1), in_rec),
-                        np.not_equal(pt[:, j - 1], i))
+                in_rec_now = np.logical_and(np.equal(pt[:, j], num - 1),
+                                            in_rec)
                 pt[:, j][in_rec_now] = i
                 dist[:, j][in_rec_now] = 0.0
+                # every cell is listed at most once per point
+                in_rec = np.logical_and(in_rec, np.logical_not(in_rec_now))
         if k == 1:
             dist = dist[:, 0]
             pt = pt[:, 0]
@@ -2189,15 +2186,12 @@ class ball_sample_set(sample_set_base):
             in_rec = np.less(linalg.norm(x - self._values[i, :], self._p_norm,
                                          axis=1), self._radii[i])
             for j in range(k):
-                if j == 0:
-                    in_rec_now = np.logical_and(np.equal(pt[:, j], num - 1),
-                                                in_rec)
-                else:
-                    in_rec_now = np.logical_and(np.logical_and(
-                        np.equal(pt[:, j], num - 1), in_rec),
-                        np.not_equal(pt[:, j - 1], i))
+                in_rec_now = np.logical_and(np.equal(pt[:, j], num - 1),
+                                            in_rec)
                 pt[:, j][in_rec_now] = i
                 dist[:, j][in_rec_now] = 0.0
+                # every cell is listed at most once per point
+                in_rec = np.logical_and(in_rec, np.logical_not(in_rec_now))
         if k == 1:
             dist = dist[:, 0]
             pt = pt[:, 0]
-- 
2.43.0


From f0cc1dbd8e48a3d6f8fd50611679eb1a3e8b067e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:55 +0000
Subject: [PATCH 10/91] fix: exact_volume_1D works for a single sample

---
 bet/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index e2c3cf4..da9caa0 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1457,7 +1457,7 @@ class voronoi_sample_set(sample_set_base):
             raise dim_not_matching("Only applicable for 1D domains.")
 
         # sort the samples
-        sort_ind = np.squeeze(np.argsort(self._values, 0))
+        sort_ind = np.argsort(self._values, 0)[:, 0]
         sorted_samples = self._values[sort_ind]
         domain_width = self._domain[:, 1] - self._domain[:, 0]
 
@@ -1469,7 +1469,7 @@ class voronoi_sample_set(sample_set_base):
                                 [self._domain[:, 1]]))
         # calculate difference between right and left of each cell
         # and renormalize
-        sorted_lam_vol = np.squeeze(edges[1:, :] - edges[:-1, :])
+        sorted_lam_vol = (edges[1:, :] - edges[:-1, :])[:, 0]
         lam_vol = np.zeros(sorted_lam_vol.shape)
         lam_vol[sort_ind] = sorted_lam_vol
         lam_vol = lam_vol / domain_width
-- 
2.43.0


From c3e67b975dba8c7923e305ea9d4b105834f21325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:55 +0000
Subject: [PATCH 11/91] fix: radius estimates accept cells without Monte Carlo
 points

A process none of whose points falls in some cell raised an exception.
---
 bet/sample.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index da9caa0..e4d79d7 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1609,7 +1609,8 @@ class voronoi_sample_set(sample_set_base):
         for i in range(num):
             rad[i] = np.max(np.linalg.norm(
                             mc_points[np.equal(emulate_ptr, i), :] -
-                            samples[i, :], ord=self._p_norm, axis=1))
+                            samples[i, :], ord=self._p_norm, axis=1),
+                            initial=0.0)
 
         crad = np.copy(rad)
         comm.Allreduce([rad, MPI.DOUBLE], [crad, MPI.DOUBLE], op=MPI.MAX)
@@ -1671,7 +1672,8 @@ class voronoi_sample_set(sample_set_base):
             vol[i] = np.sum(np.equal(emulate_ptr, i))
             rad[i] = np.max(np.linalg.norm(
                             mc_points[np.equal(emulate_ptr, i), :] -
-                            samples[i, :], ord=self._p_norm, axis=1))
+                            samples[i, :], ord=self._p_norm, axis=1),
+                            initial=0.0)
 
         crad = np.copy(rad)
         comm.Allreduce([rad, MPI.DOUBLE], [crad, MPI.DOUBLE], op=MPI.MAX)
-- 
2.43.0


From 1261569da329275c645c6c43c36ec648646f542f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:32 +0000
Subject: [PATCH 12/91] fix: pdf of a Voronoi measure is probability over
 volume of the current cells

The density ignored the volume of the domain (it did not integrate to one and
disagreed with set_densities), was cached so that later probabilities had no
effect, and a TypeError was raised when only global probabilities exist.
---
 bet/sample.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index e4d79d7..238e20f 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -965,12 +965,12 @@ class sample_set_base(object):
         if self._prob_type == 'voronoi':
             if self._probabilities_local is None and self._probabilities is None:
                 raise wrong_input("Missing probabilities for Voronoi cells.")
-            if self._densities_local is None:
-                if self._volumes_local is None:
-                    logging.warning("Using Monte Carlo Assumption to Estimate Volumes.")
-                    self.estimate_volume_mc(globalize=False)
-                self.set_densities_local(self._probabilities_local/self._volumes_local)
             self.local_to_global()
+            if self._volumes is None:
+                logging.warning("Using Monte Carlo Assumption to Estimate Volumes.")
+                self.estimate_volume_mc()
+            self._densities_local = None
+            self.set_densities()
             return evaluate_pdf(self._prob_type, self, vals)
         else:
             return evaluate_pdf(self._prob_type, self._prob_parameters, vals)
-- 
2.43.0


From 448bffce331fcd389a53da34e753a1f22989687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:32 +0000
Subject: [PATCH 13/91] fix: marginal pdf of a Voronoi measure uses only the
 requested coordinate

Evaluating at points with all coordinates raised a dimension error.
---
 bet/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index 238e20f..d195a97 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -181,7 +181,7 @@ def evaluate_pdf_marginal(prob_type, prob_parameters, vals, i):
         logging.warning("Using kernel density estimate to estimate marginal PDF.")
         sam_set = prob_parameters
         kde = gaussian_kde(sam_set.get_values()[:, i], weights=sam_set.get_probabilities())
-        return kde(vals.T)
+        return kde(x)
     else:
         raise wrong_input("This type of probability density is not yet supported.")
 
-- 
2.43.0


From 6d907210c29ad1395d88e3a72c50c88356133c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:32 +0000
Subject: [PATCH 14/91] fix: clip also clips the weights of the samples

---
 bet/sample.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bet/sample.py b/bet/sample.py
index d195a97..595e69f 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -736,6 +736,10 @@ class sample_set_base(object):
             if current_array is not None:
                 new_array = current_array[0:cnum]
                 setattr(sset, array_name, new_array)
+        for weights_name in ['_weights', '_weights_init']:
+            weights = getattr(sset, weights_name)
+            if weights is not None:
+                setattr(sset, weights_name, weights[0:cnum])
         if sset._values_local is not None:
             sset.global_to_local()
         sset._bounding_box = None
-- 
2.43.0


From d8146c86d1c167f52860f08c830a85c7d58bae49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:32 +0000
Subject: [PATCH 15/91] fix: discretizations without emulated sets can be
 merged, clip keeps the observed set

---
 bet/sample.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 595e69f..95d06f2 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2776,7 +2776,8 @@ class discretization(object):
                               output_sample_set=co,
                               output_probability_set=self._output_probability_set,
                               emulated_input_sample_set=self._emulated_input_sample_set,
-                              emulated_output_sample_set=self._emulated_output_sample_set)
+                              emulated_output_sample_set=self._emulated_output_sample_set,
+                              output_observed_set=self._output_observed_set)
 
     def merge(self, disc):
         """
@@ -2791,10 +2792,15 @@ class discretization(object):
         """
         mi = self._input_sample_set.merge(disc._input_sample_set)
         mo = self._output_sample_set.merge(disc._output_sample_set)
-        mei = self._emulated_input_sample_set.merge(disc.
-                                                    _emulated_input_sample_set)
-        meo = self._emulated_output_sample_set.merge(disc.
-                                                     _emulated_output_sample_set)
+        mei, meo = None, None
+        if self._emulated_input_sample_set is not None and \
+                disc._emulated_input_sample_set is not None:
+            mei = self._emulated_input_sample_set.merge(disc.
+                                                        _emulated_input_sample_set)
+        if self._emulated_output_sample_set is not None and \
+                disc._emulated_output_sample_set is not None:
+            meo = self._emulated_output_sample_set.merge(disc.
+                                                         _emulated_output_sample_set)
 
         return discretization(input_sample_set=mi,
                               output_sample_set=mo,
-- 
2.43.0


From 315ec039e33225cf90afc1f498817a39d7102226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:04 +0000
Subject: [PATCH 16/91] fix: only one process writes a globally saved file,
 files are closed after use

---
 bet/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bet/util.py b/bet/util.py
index ca0f49e..8efa147 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -249,7 +249,10 @@ def save_object(save_set, file_name, globalize=True):
     if globalize:
         save_set.local_to_global()
     comm.barrier()
-    pickle.dump(save_set, open(local_file_name + '.p', "wb"))
+    # a shared file is written by one process only
+    if comm.rank == 0 or local_file_name != file_name:
+        with open(local_file_name + '.p', "wb") as save_file:
+            pickle.dump(save_set, save_file)
     comm.barrier()
     return local_file_name
 
@@ -271,7 +274,8 @@ def load_object(file_name, localize=False):
         localize = False
     elif not os.path.exists(file_name+'.p') and os.path.exists('proc0_'+file_name+'.p'):
         return load_object_parallel(file_name)
-    loaded_set = pickle.load(open(file_name+'.p', "rb"))
+    with open(file_name+'.p', "rb") as load_file:
+        loaded_set = pickle.load(load_file)
     if localize:
         loaded_set.global_to_local()
     return loaded_set
-- 
2.43.0


From 71dfd561636cfeb6bc5cc4912c29c0e7405abc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:04 +0000
Subject: [PATCH 17/91] fix: load_object finds the files of the processes in
 any directory

---
 bet/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bet/util.py b/bet/util.py
index 8efa147..dba975c 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -272,7 +272,9 @@ def load_object(file_name, localize=False):
     if file_name.startswith('proc_'):
         # logging.warning("Avoid starting filenames with 'proc_'. Unable to localize.")
         localize = False
-    elif not os.path.exists(file_name+'.p') and os.path.exists('proc0_'+file_name+'.p'):
+    elif not os.path.exists(file_name+'.p') and \
+            os.path.exists(os.path.join(os.path.dirname(file_name),
+                                        'proc0_'+os.path.basename(file_name)+'.p')):
         return load_object_parallel(file_name)
     with open(file_name+'.p', "rb") as load_file:
         loaded_set = pickle.load(load_file)
-- 
2.43.0


From 774e30a7d8cda2678b8bdc8ccc7e622e5095fc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:04 +0000
Subject: [PATCH 18/91] fix: load_object_parallel counts only the files of the
 requested object

---
 bet/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bet/util.py b/bet/util.py
index dba975c..ce21db1 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -14,7 +14,7 @@ important methods are:
 import sys
 import collections.abc
 import os
-import glob
+import re
 import logging
 import numpy as np
 import bet.sample
@@ -294,7 +294,8 @@ def load_object_parallel(file_name):
     """
     save_dir = os.path.dirname(file_name)
     base_name = os.path.basename(file_name)
-    files = glob.glob(os.path.join(save_dir, "proc*_{}".format(base_name+'.p')))
+    pattern = re.compile(r"proc\d+_{}".format(re.escape(base_name+'.p')))
+    files = [f for f in os.listdir(save_dir or os.curdir) if pattern.fullmatch(f)]
     if len(files) == comm.size:
         logging.info("Loading sample set using parallel files (same nproc)")
         # if the number of processors is the same then set mdat to
-- 
2.43.0


From a03e83c3270f0f58f5a2b30b101e765ab130a1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:04 +0000
Subject: [PATCH 19/91] fix: prob without globalize discards outdated global
 probabilities

---
 bet/calculateP/calculateP.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bet/calculateP/calculateP.py b/bet/calculateP/calculateP.py
index 6c980b9..5e09e1e 100644
--- a/bet/calculateP/calculateP.py
+++ b/bet/calculateP/calculateP.py
@@ -60,6 +60,8 @@ def prob_on_emulated_samples(discretization, globalize=True):
 
     discretization._emulated_input_sample_set._probabilities_local = P
     discretization._emulated_input_sample_set.set_prob_type('voronoi')
+    # global probabilities of an earlier calculation are outdated
+    discretization._emulated_input_sample_set._probabilities = None
     if globalize:
         discretization._emulated_input_sample_set.local_to_global()
     pass
@@ -103,6 +105,9 @@ def prob(discretization, globalize=True):
     if globalize:
         discretization._input_sample_set._probabilities = util.\
             get_global_values(P_local)
+    else:
+        # global probabilities of an earlier calculation are outdated
+        discretization._input_sample_set._probabilities = None
     discretization._input_sample_set._probabilities_local = P_local
     discretization._input_sample_set.set_prob_type('voronoi')
 
-- 
2.43.0


From 86d9752aa85f6040e553e05e281abef9ff8cce97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:26 +0000
Subject: [PATCH 20/91] fix: transfers of probabilities discard and never use
 outdated local probabilities

---
 bet/calculateP/calculateP.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bet/calculateP/calculateP.py b/bet/calculateP/calculateP.py
index 5e09e1e..7fcb1fd 100644
--- a/bet/calculateP/calculateP.py
+++ b/bet/calculateP/calculateP.py
@@ -89,7 +89,8 @@ def prob(discretization, globalize=True):
         discretization.set_io_ptr(globalize=False)
 
     # Calculate Probabilities
-    if discretization._input_sample_set._values_local is None:
+    if discretization._input_sample_set._values_local is None or \
+            discretization._input_sample_set._volumes_local is None:
         discretization._input_sample_set.global_to_local()
     P_local = np.zeros((len(discretization._io_ptr_local),))
     for i in range(op_num):
@@ -208,6 +209,7 @@ def prob_from_sample_set_with_emulated_volumes(set_old, set_new,
 
     # Set probabilities
     set_new.set_probabilities(prob_new)
+    set_new.set_probabilities_local(None)
     set_new.set_prob_type('voronoi')
     return prob_new
 
@@ -234,7 +236,7 @@ def prob_from_sample_set(set_old, set_new):
         raise samp.dim_not_matching("Dimensions of sets are not equal.")
 
     # Map old points new sets
-    if set_old._values_local is None:
+    if set_old._values_local is None or set_old._probabilities_local is None:
         set_old.global_to_local()
     (_, ptr) = set_new.query(set_old._values_local)
     ptr = ptr.flat[:]
@@ -251,6 +253,7 @@ def prob_from_sample_set(set_old, set_new):
 
     # Set probabilities
     set_new.set_probabilities(prob_new)
+    set_new.set_probabilities_local(None)
     set_new.set_prob_type('voronoi')
     return prob_new
 
@@ -275,7 +278,7 @@ def prob_from_discretization_input(disc, set_new):
     else:
         em_set = disc._emulated_input_sample_set
 
-    if em_set._values_local is None:
+    if em_set._values_local is None or em_set._probabilities_local is None:
         em_set.global_to_local()
     if em_set._probabilities_local is None:
         raise AttributeError("Probabilities must be pre-calculated.")
@@ -302,5 +305,6 @@ def prob_from_discretization_input(disc, set_new):
 
     # Set probabilities
     set_new.set_probabilities(prob_new)
+    set_new.set_probabilities_local(None)
     set_new.set_prob_type('voronoi')
     return prob_new
-- 
2.43.0


From fac1954d3240b8a2782d7792c4f36fb88c344cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:36 +0000
Subject: [PATCH 21/91] fix: cell connectivity reads the simplices of the
 Delaunay triangulation

The attribute vertices no longer exists in SciPy, so the sampling error
could not be computed in more than one dimension.
---
 bet/calculateP/calculateError.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index eb87b01..a95ddb3 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -78,7 +78,7 @@ def cell_connectivity_exact(disc):
 
         # Find neighbors
         neiList = defaultdict(set)
-        for p in tri.vertices:
+        for p in tri.simplices:
             for i, j in itertools.combinations(p, 2):
                 neiList[i].add(disc._io_ptr[j])
                 neiList[j].add(disc._io_ptr[i])
-- 
2.43.0


From 8a3bf527ca500ff579d9e1eae3490d231799ebbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:36 +0000
Subject: [PATCH 22/91] fix: neighbors of cells in one dimension follow the
 order of the samples

The result of argsort was used as if it were the ranks of the samples,
which gave wrong neighbors unless the samples were sorted.
---
 bet/calculateP/calculateError.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index a95ddb3..4d127c4 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -65,13 +65,9 @@ def cell_connectivity_exact(disc):
         # Adding contours on the left
         s_sort = disc._input_sample_set._values.flat[:].argsort()
         neiList = defaultdict(set)
-        for p in range(num):
-            order = s_sort[p]
-            if order > 0:
-                val = np.equal(s_sort, order - 1)
-                args = np.argwhere(val)
-                neiList[p].add(disc._io_ptr[args[0][0]])
-                neiList[args[0][0]].add(disc._io_ptr[p])
+        for left, right in zip(s_sort[:-1], s_sort[1:]):
+            neiList[right].add(disc._io_ptr[left])
+            neiList[left].add(disc._io_ptr[right])
     else:
         # Form Delaunay triangulation
         tri = Delaunay(disc._input_sample_set._values)
-- 
2.43.0


From 3a63973a09e9fbfbc50f7cf8d75a1658fa966e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:36 +0000
Subject: [PATCH 23/91] fix: model error of a region is infinite for an event
 without emulated points

It raised ZeroDivisionError, unlike the Monte Carlo variant.
---
 bet/calculateP/calculateError.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index 4d127c4..cf66778 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -529,8 +529,12 @@ class model_error(object):
                 JiAe = comm.allreduce(JiAe_local, op=MPI.SUM)
                 Jie_local = float(np.sum(in_Ai2))
                 Jie = comm.allreduce(Jie_local, op=MPI.SUM)
-                er_est += self.disc._output_probability_set._probabilities[i]\
-                    * ((JiA * Jie - JiAe * Ji) / (Ji * Jie))
+                if Ji * Jie == 0:
+                    er_est += np.inf
+                else:
+                    er_est += self.disc._output_probability_set.\
+                        _probabilities[i] * ((JiA * Jie - JiAe * Ji)
+                                             / (Ji * Jie))
 
         return er_est
 
-- 
2.43.0


From c7b3198de8818c636482c87bbf9a72aeb5e0f25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:36 +0000
Subject: [PATCH 24/91] fix: chooseOptQoIs_verbose keeps the singular values of
 each set in parallel

The gathered array was reshaped with its axes in the wrong order.
---
 bet/sensitivity/chooseQoIs.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bet/sensitivity/chooseQoIs.py b/bet/sensitivity/chooseQoIs.py
index 82b12f1..b832ece 100644
--- a/bet/sensitivity/chooseQoIs.py
+++ b/bet/sensitivity/chooseQoIs.py
@@ -328,14 +328,13 @@ def chooseOptQoIs_verbose(input_set, qoiIndices=None, num_qois_return=None,
     # Gather the best sets and skewness values from each processor
     measure_skewness_indices_mat = np.array(comm.gather(
         measure_skewness_indices_mat, root=0))
-    optsingvals_tensor = np.array(comm.gather(optsingvals_tensor, root=0))
+    optsingvals_tensor = comm.gather(optsingvals_tensor, root=0)
 
     # Find the num_optsets_return smallest skewness values from all processors
     if comm.rank == 0:
         measure_skewness_indices_mat = measure_skewness_indices_mat.reshape(
             num_optsets_return * comm.size, num_qois_return + 1)
-        optsingvals_tensor = optsingvals_tensor.reshape(num_centers,
-                                                        num_qois_return, num_optsets_return * comm.size)
+        optsingvals_tensor = np.concatenate(optsingvals_tensor, axis=2)
         order = measure_skewness_indices_mat[:, 0].argsort()
 
         measure_skewness_indices_mat = measure_skewness_indices_mat[order]
-- 
2.43.0


From 7c1bcbee3cc7233371eb8c1b51b686a13aa7f709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:49 +0000
Subject: [PATCH 25/91] fix: find_good_sets keeps equally good sets and gathers
 their singular values

Sets with equal skewness (measure) were dropped except for one of them, and
in parallel the singular values were those of the sets of the process.
---
 bet/sensitivity/chooseQoIs.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bet/sensitivity/chooseQoIs.py b/bet/sensitivity/chooseQoIs.py
index b832ece..d2ad536 100644
--- a/bet/sensitivity/chooseQoIs.py
+++ b/bet/sensitivity/chooseQoIs.py
@@ -541,6 +541,7 @@ def find_good_sets(input_set, good_sets_prev, unique_indices,
     # Gather the best sets and skewness values from each processor
     good_sets = comm.gather(good_sets, root=0)
     best_sets = np.array(comm.gather(best_sets, root=0))
+    optsingvals_tensor = comm.gather(optsingvals_tensor, root=0)
     count_qois = np.array(comm.gather(count_qois, root=0))
 
     # Find the num_optsets_return smallest skewness from all processors
@@ -549,10 +550,10 @@ def find_good_sets(input_set, good_sets_prev, unique_indices,
         # Organize the best sets
         best_sets = best_sets.reshape(num_optsets_return *
                                       comm.size, num_qois_return + 1)
-        [_, uniq_inds_best] = np.unique(best_sets[:, 0], return_index=True)
-        best_sets = best_sets[uniq_inds_best, :]
-        best_sets = best_sets[best_sets[:, 0].argsort()]
-        best_sets = best_sets[:num_optsets_return, :]
+        order = best_sets[:, 0].argsort(kind='stable')[:num_optsets_return]
+        best_sets = best_sets[order, :]
+        optsingvals_tensor = np.concatenate(optsingvals_tensor,
+                                            axis=2)[:, :, order]
 
         # Organize the good sets
         good_sets_new = np.zeros([1, num_qois_return])
@@ -567,6 +568,7 @@ def find_good_sets(input_set, good_sets_prev, unique_indices,
 
     comm.Barrier()
     best_sets = comm.bcast(best_sets, root=0)
+    optsingvals_tensor = comm.bcast(optsingvals_tensor, root=0)
     good_sets = comm.bcast(good_sets, root=0)
 
     return (good_sets[1:].astype(int), best_sets, optsingvals_tensor)
-- 
2.43.0


From 07bcbe4d6f2ecb10310d0d0029f15d325f096625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:49 +0000
Subject: [PATCH 26/91] fix: exact volumes of rectangles and balls replace
 outdated local volumes

As for all other volume computations; local volumes of an earlier estimate
stayed in place and were used by the inversion.
---
 bet/sample.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bet/sample.py b/bet/sample.py
index 95d06f2..9c36be9 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2047,6 +2047,7 @@ class rectangle_sample_set(sample_set_base):
         domain_width = self._domain[:, 1] - self._domain[:, 0]
         self._volumes[0:-1] = np.prod(self._width[0:-1] / domain_width, axis=1)
         self._volumes[-1] = 1.0 - np.sum(self._volumes[0:-1])
+        self.global_to_local()
 
 
 class ball_sample_set(sample_set_base):
@@ -2218,6 +2219,7 @@ class ball_sample_set(sample_set_base):
             scipy.special.gamma(1 + float(self._dim) / self._p_norm)
         self._volumes[0:-1] *= 1.0 / domain_vol
         self._volumes[-1] = 1.0 - np.sum(self._volumes[0:-1])
+        self.global_to_local()
 
 
 class cartesian_sample_set(rectangle_sample_set):
-- 
2.43.0


From f45e476db70dd51d3a9b8af4e280fb39546c2720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:10 +0000
Subject: [PATCH 27/91] fix: clip works for sample sets with unbounded values
 (rectangles, balls)

---
 bet/sample.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 9c36be9..8f9b5d0 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -742,8 +742,9 @@ class sample_set_base(object):
                 setattr(sset, weights_name, weights[0:cnum])
         if sset._values_local is not None:
             sset.global_to_local()
-        sset._bounding_box = None
-        sset.set_kdtree()
+        sset._reset_derived()
+        if np.all(np.isfinite(sset._values)):
+            sset.set_kdtree()
         return sset
 
     def check_num(self):
-- 
2.43.0


From a0bf51723473dba0b5ad6701a4af860b4e1a779d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:51 +0000
Subject: [PATCH 28/91] fix: set_domain rejects domains that are not of shape
 (dim, 2)

---
 bet/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index 8f9b5d0..8b701b8 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -869,7 +869,7 @@ class sample_set_base(object):
         :type domain: :class:`numpy.ndarray` of shape (dim, 2)
 
         """
-        if (domain.shape[0], 2) != (self._dim, 2):
+        if domain.shape != (self._dim, 2):
             raise dim_not_matching("dimension of values incorrect")
         else:
             self._domain = domain
-- 
2.43.0


From cc75417e8232cd639e4d3896d092228592715f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:51 +0000
Subject: [PATCH 29/91] fix: check_nums also compares the numbers of samples
 held only locally

---
 bet/sample.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 8b701b8..5ae97c9 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2373,8 +2373,9 @@ class discretization(object):
         """
         out_num = self._output_sample_set.check_num()
         in_num = self._input_sample_set.check_num()
-        if out_num != in_num and self._output_sample_set._values is not None \
-                and self._input_sample_set._values is not None:
+        if out_num != in_num and \
+                all(s._values is not None or s._values_local is not None
+                    for s in (self._output_sample_set, self._input_sample_set)):
             raise length_not_matching("input {} and output {} lengths do not\
                     match".format(in_num, out_num))
         else:
-- 
2.43.0


From 7042c955b81e54b4a114a14dabcc9b40846ba656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:26 +0000
Subject: [PATCH 30/91] fix: radial basis kernels are chosen by the value of
 their name

---
 bet/sensitivity/gradients.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bet/sensitivity/gradients.py b/bet/sensitivity/gradients.py
index bb83a34..d953fe3 100644
--- a/bet/sensitivity/gradients.py
+++ b/bet/sensitivity/gradients.py
@@ -229,13 +229,13 @@ def radial_basis_function(r, kernel=None, ep=None):
     if ep is None:
         ep = 1.0
 
-    if kernel is None or kernel is 'C4Matern':
+    if kernel is None or kernel == 'C4Matern':
         rbf = (1 + (ep * r) + (ep * r)**2 / 3) * np.exp(-ep * r)
-    elif kernel is 'Gaussian':
+    elif kernel == 'Gaussian':
         rbf = np.exp(-(ep * r)**2)
-    elif kernel is 'Multiquadric':
+    elif kernel == 'Multiquadric':
         rbf = (1 + (ep * r)**2)**(0.5)
-    elif kernel is 'InverseMultiquadric':
+    elif kernel == 'InverseMultiquadric':
         rbf = 1 / ((1 + (ep * r)**2)**(0.5))
     else:
         raise ValueError("The kernel chosen is not currently available.")
@@ -264,13 +264,13 @@ def radial_basis_function_dxi(r, xi, kernel=None, ep=None):
     if ep is None:
         ep = 1.0
 
-    if kernel is None or kernel is 'C4Matern':
+    if kernel is None or kernel == 'C4Matern':
         rbfdxi = -(ep**2 * xi * np.exp(-ep * r) * (ep * r + 1)) / 3
-    elif kernel is 'Gaussian':
+    elif kernel == 'Gaussian':
         rbfdxi = -2 * ep**2 * xi * np.exp(-(ep * r)**2)
-    elif kernel is 'Multiquadric':
+    elif kernel == 'Multiquadric':
         rbfdxi = (ep**2 * xi) / ((1 + (ep * r)**2)**(0.5))
-    elif kernel is 'InverseMultiquadric':
+    elif kernel == 'InverseMultiquadric':
         rbfdxi = -(ep**2 * xi) / ((1 + (ep * r)**2)**(1.5))
     else:
         raise ValueError("The kernel chosen is not currently available")
-- 
2.43.0


From a732ca6976e43cddcd1ea6ec936b8df9802b54c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:26 +0000
Subject: [PATCH 31/91] fix: rbf gradients interpolate and differentiate with
 the same shape parameter and distance

---
 bet/sensitivity/gradients.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bet/sensitivity/gradients.py b/bet/sensitivity/gradients.py
index d953fe3..b0f6db3 100644
--- a/bet/sensitivity/gradients.py
+++ b/bet/sensitivity/gradients.py
@@ -336,13 +336,15 @@ def calculate_gradients_rbf(cluster_discretization, num_centers=None,
     # point.
     for c in range(num_centers):
         # Find the k nearest neighbors and their distances to centers[c,:]
-        [r, nearest] = cluster_discretization._input_sample_set.query(
+        [_, nearest] = cluster_discretization._input_sample_set.query(
             centers[c, :], k=num_neighbors)
-        r = np.tile(r, (input_dim, 1))
 
         # Compute the linf distances to each of the nearest neighbors
         diffVec = (centers[c, :] - samples[nearest, :]).transpose()
 
+        # Compute the l2 distances to each of the nearest neighbors
+        r = np.tile(np.linalg.norm(diffVec, axis=0), (input_dim, 1))
+
         # Compute the l2 distances between pairs of nearest neighbors
         distMat = spatial.distance_matrix(
             samples[nearest, :], samples[nearest, :])
@@ -350,7 +352,7 @@ def calculate_gradients_rbf(cluster_discretization, num_centers=None,
         # Solve for the rbf weights using interpolation conditions and
         # evaluate the partial derivatives
         rbf_mat_values = \
-            np.linalg.solve(radial_basis_function(distMat, RBF),
+            np.linalg.solve(radial_basis_function(distMat, RBF, ep),
                             radial_basis_function_dxi(r, diffVec, RBF, ep)
                             .transpose()).transpose()
 
-- 
2.43.0


From f10ba9090f3b8462c4b7d773b5d43f2df108aba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:26 +0000
Subject: [PATCH 32/91] fix: calculate_gradients_cfd returns the outputs of the
 centers

---
 bet/sensitivity/gradients.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bet/sensitivity/gradients.py b/bet/sensitivity/gradients.py
index b0f6db3..f883946 100644
--- a/bet/sensitivity/gradients.py
+++ b/bet/sensitivity/gradients.py
@@ -513,7 +513,8 @@ def calculate_gradients_cfd(cluster_discretization, normalize=True):
     radii_vec = util.fix_dimensions_vector_2darray(radii_vec.diagonal())
 
     # Clean the data
-    data = util.clean_data(data[num_centers:])
+    data = util.clean_data(data)
+    cluster_data = data[num_centers:]
     gradient_tensor = np.zeros([num_centers, output_dim, input_dim])
 
     radii_vec = np.tile(np.repeat(radii_vec, output_dim, axis=1), [num_centers,
@@ -524,7 +525,7 @@ def calculate_gradients_cfd(cluster_discretization, normalize=True):
                      input_dim) + np.tile(np.arange(0, input_dim), num_centers)
     inds = np.array([inds, inds + input_dim]).transpose()
 
-    gradient_mat = (data[inds[:, 0]] - data[inds[:, 1]]) * (0.5 / radii_vec)
+    gradient_mat = (cluster_data[inds[:, 0]] - cluster_data[inds[:, 1]]) * (0.5 / radii_vec)
 
     # Reshape and organize
     gradient_tensor = np.reshape(gradient_mat.transpose(), [output_dim,
-- 
2.43.0


From e2224b3e5880268fe067bb0b4081da242e9ed513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:26 +0000
Subject: [PATCH 33/91] fix: clean_data does not modify the data it is given

---
 bet/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bet/util.py b/bet/util.py
index ce21db1..4eafe9c 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -219,6 +219,7 @@ def clean_data(data):
     :returns: array of shape (data.shape)
 
     """
+    data = np.copy(data)
     data[np.isnan(data)] = 0.0
     data[np.isinf(data)] = np.sign(data[np.isinf(data)]) * sys.float_info[0]
 
-- 
2.43.0


From da5193a56c8d753eb5758e5b309773205ef1f48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:21 +0000
Subject: [PATCH 34/91] fix: calculate_avg_condnum returns the true singular
 values and is infinite for zero gradients

---
 bet/sensitivity/chooseQoIs.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bet/sensitivity/chooseQoIs.py b/bet/sensitivity/chooseQoIs.py
index d2ad536..e51ef74 100644
--- a/bet/sensitivity/chooseQoIs.py
+++ b/bet/sensitivity/chooseQoIs.py
@@ -184,9 +184,8 @@ def calculate_avg_condnum(input_set, qoi_set=None):
     if np.sum(indz) == singvals.shape[0]:
         hmean_condnum = np.inf
     else:
-        singvals[indz, 0] = np.inf
-        singvals[indz, -1] = 1
-        condnums = singvals[:, 0] / singvals[:, -1]
+        condnums = np.full(singvals.shape[0], np.inf)
+        condnums[~indz] = singvals[~indz, 0] / singvals[~indz, -1]
         hmean_condnum = stats.hmean(condnums)
 
     return hmean_condnum, singvals
-- 
2.43.0


From 064bfcd033c1102ebea1525c9ec7e9547305eea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:59 +0000
Subject: [PATCH 35/91] fix: piecewise linear surrogates expand about the
 nearest sample with the right sign

---
 bet/surrogates.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bet/surrogates.py b/bet/surrogates.py
index 47faff8..dc4495e 100644
--- a/bet/surrogates.py
+++ b/bet/surrogates.py
@@ -96,12 +96,13 @@ class piecewise_polynomial_surrogate(object):
 
             jac_local = self.input_disc._input_sample_set._jacobians[
                 self.dummy_disc._emulated_ii_ptr_local]
-            diff_local = self.input_disc._input_sample_set._values[
-                self.dummy_disc._emulated_ii_ptr_local] - \
-                input_sample_set._values_local
+            diff_local = input_sample_set._values_local - \
+                self.input_disc._input_sample_set._values[
+                    self.dummy_disc._emulated_ii_ptr_local]
             new_values_local = self.input_disc._output_sample_set._values[
                 self.dummy_disc._emulated_ii_ptr_local]
-            new_values_local += np.einsum('ijk,ik->ij', jac_local, diff_local)
+            new_values_local = new_values_local + \
+                np.einsum('ijk,ik->ij', jac_local, diff_local)
             output_sample_set.set_values_local(new_values_local)
 
         # if they exist, define error estimates with piecewise constants
-- 
2.43.0


From 77b99c46dacd4ba94d387b87bf01e68cef7977d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:35 +0000
Subject: [PATCH 36/91] fix: sort_by_rho is not confused by cells without
 volume and probability

---
 bet/postProcess/postTools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bet/postProcess/postTools.py b/bet/postProcess/postTools.py
index 251aeea..87878a2 100644
--- a/bet/postProcess/postTools.py
+++ b/bet/postProcess/postTools.py
@@ -58,7 +58,11 @@ def sort_by_rho(sample_set):
     if lam_vol is None:
         indices = np.argsort(P_samples)[::-1][0:nnz]
     else:
-        indices = np.argsort(P_samples / lam_vol)[::-1][0:nnz]
+        # samples without probability come last, also if their volume is zero
+        positive = P_samples > 0
+        rho = np.zeros(P_samples.shape)
+        rho[positive] = P_samples[positive] / lam_vol[positive]
+        indices = np.argsort(rho)[::-1][0:nnz]
     P_samples = P_samples[indices]
     samples = samples[indices, :]
     if lam_vol is not None:
-- 
2.43.0


From cf6ed808c998be6588e843e7d448829cbea748ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:35 +0000
Subject: [PATCH 37/91] fix: sample_prob works without sorting

---
 bet/postProcess/postTools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bet/postProcess/postTools.py b/bet/postProcess/postTools.py
index 87878a2..0772b8c 100644
--- a/bet/postProcess/postTools.py
+++ b/bet/postProcess/postTools.py
@@ -140,6 +140,8 @@ def sample_prob(percentile, sample_set, sort=True, descending=False):
             P_samples = sample_set.get_probabilities()
             lam_vol = sample_set.get_volumes()
             data = None
+    else:
+        indices = np.arange(len(P_samples))
     if descending:
         P_samples = P_samples[::-1]
         samples = samples[::-1]
@@ -150,7 +152,7 @@ def sample_prob(percentile, sample_set, sort=True, descending=False):
         indices = indices[::-1]
 
     P_sum = np.cumsum(P_samples)
-    num_samples = np.sum(np.logical_and(0.0 < P_sum, P_sum <= percentile))
+    num_samples = np.sum(P_sum <= percentile)
     P_samples = P_samples[0:num_samples]
     samples = samples[0:num_samples, :]
     if lam_vol is not None:
-- 
2.43.0


From 29af1fe305ebf2e5829a941d6331ab0fc8205ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:28 +0000
Subject: [PATCH 38/91] fix: smoothing of marginals is centered and defined for
 narrow kernels

---
 bet/postProcess/plotP.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/bet/postProcess/plotP.py b/bet/postProcess/plotP.py
index 26fe098..fa6d9dd 100644
--- a/bet/postProcess/plotP.py
+++ b/bet/postProcess/plotP.py
@@ -380,7 +380,7 @@ def smooth_marginals_1D(marginals, bins, sigma=10.0):
     :rtype: dict
     :returns: marginals_smooth
     """
-    from scipy.fftpack import fftshift, ifft, fft
+    from scipy.fftpack import ifftshift, ifft, fft
 
     if isinstance(sigma, float) or isinstance(sigma, int):
         sigma = sigma * np.ones(len(bins), dtype=np.int)
@@ -390,15 +390,13 @@ def smooth_marginals_1D(marginals, bins, sigma=10.0):
         nx = len(bins[i]) - 1
         dx = bins[i][1] - bins[i][0]
         augx = int(math.ceil(3 * sigma[i] / dx))
-        x_kernel = np.linspace(-nx * dx / 2, nx * dx / 2, nx)
-        kernel = np.exp(-(x_kernel / sigma[i])**2)
-        aug_kernel = np.zeros((nx + 2 * augx,))
+        x_kernel = dx * (np.arange(nx + 2 * augx) - (nx + 2 * augx) // 2)
+        aug_kernel = np.exp(-(x_kernel / sigma[i])**2)
         aug_marginals = np.zeros((nx + 2 * augx,))
 
-        aug_kernel[augx:augx + nx] = kernel
         aug_marginals[augx:augx + nx] = marginals[i]
 
-        aug_kernel = fftshift(aug_kernel)
+        aug_kernel = ifftshift(aug_kernel)
 
         aug_marginals_smooth = np.real(
             ifft(fft(aug_kernel) * fft(aug_marginals)))
@@ -422,7 +420,7 @@ def smooth_marginals_2D(marginals, bins, sigma=10.0):
     :rtype: dict
     :returns: marginals_smooth
     """
-    from scipy.fftpack import fftshift, ifft2, fft2
+    from scipy.fftpack import ifftshift, ifft2, fft2
 
     if isinstance(sigma, float) or isinstance(sigma, int):
         sigma = sigma * np.ones(len(bins), dtype=np.int)
@@ -437,19 +435,17 @@ def smooth_marginals_2D(marginals, bins, sigma=10.0):
         augx = int(math.ceil(3 * sigma[i] / dx))
         augy = int(math.ceil(3 * sigma[j] / dy))
 
-        x_kernel = np.linspace(-nx * dx / 2, nx * dx / 2, nx)
-        y_kernel = np.linspace(-ny * dy / 2, ny * dy / 2, ny)
+        x_kernel = dx * (np.arange(nx + 2 * augx) - (nx + 2 * augx) // 2)
+        y_kernel = dy * (np.arange(ny + 2 * augy) - (ny + 2 * augy) // 2)
         X, Y = np.meshgrid(x_kernel, y_kernel, indexing='ij')
 
-        kernel = np.exp(-(X / sigma[i])**2 - (Y / sigma[j])**2)
-        aug_kernel = np.zeros((nx + 2 * augx, ny + 2 * augy))
+        aug_kernel = np.exp(-(X / sigma[i])**2 - (Y / sigma[j])**2)
         aug_marginals = np.zeros((nx + 2 * augx, ny + 2 * augy))
 
-        aug_kernel[augx:augx + nx, augy:augy + ny] = kernel
         aug_marginals[augx:augx + nx, augy:augy + ny] = marginals[(i, j)]
 
-        aug_kernel = fftshift(aug_kernel, 0)
-        aug_kernel = fftshift(aug_kernel, 1)
+        aug_kernel = ifftshift(aug_kernel, 0)
+        aug_kernel = ifftshift(aug_kernel, 1)
         aug_marginals_smooth = ifft2(fft2(aug_kernel) * fft2(aug_marginals))
         aug_marginals_smooth = np.real(aug_marginals_smooth)
         marginals_smooth[(i, j)] = aug_marginals_smooth[augx:augx + nx,
-- 
2.43.0


From 36835646093477bd4bac943234821d21ff88ef81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:16 +0000
Subject: [PATCH 39/91] fix: all processes share one Latin hypercube design

---
 bet/sampling/basicSampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bet/sampling/basicSampling.py b/bet/sampling/basicSampling.py
index efb0f48..9a72ae8 100644
--- a/bet/sampling/basicSampling.py
+++ b/bet/sampling/basicSampling.py
@@ -223,7 +223,9 @@ def lhs_sample_set(input_obj, num_samples, criterion, globalize=True):
     # update the bounds based on the number of samples
     input_sample_set.update_bounds(num_samples)
     input_values = np.copy(input_sample_set._width)
-    input_values = input_values * lhs(dim, num_samples, criterion)
+    # all processes have to take their samples from the same design
+    input_values = input_values * comm.bcast(lhs(dim, num_samples, criterion),
+                                             root=0)
     input_values = input_values + input_sample_set._left
     input_sample_set.set_values_local(np.array_split(input_values, comm.size)[comm.rank])
 
-- 
2.43.0


From c69eaa7deb6037ec2f42fc043be9cb37ae4b4ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:12 +0000
Subject: [PATCH 40/91] fix: models are evaluated at the reference value in the
 layout of samples

---
 bet/sampling/basicSampling.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/bet/sampling/basicSampling.py b/bet/sampling/basicSampling.py
index 9a72ae8..c11b050 100644
--- a/bet/sampling/basicSampling.py
+++ b/bet/sampling/basicSampling.py
@@ -494,19 +494,14 @@ class sampler(object):
 
         if lam_ref is not None:
             try:
-                if not isinstance(lam_ref, collections.abc.Iterable):
-                    lam_ref = np.array([lam_ref])
-                Q_ref = self.lb_model(lam_ref)
-                output_sample_set.set_reference_value(Q_ref)
+                # the model maps arrays of shape (num, dim)
+                q_ref = self.lb_model(np.reshape(lam_ref, (1, -1)))
+                if isinstance(q_ref, tuple):
+                    q_ref = q_ref[0]
+                output_sample_set.set_reference_value(
+                    np.reshape(q_ref, (output_dim,)))
             except ValueError:
-                try:
-                    msg = "Model not mapping reference value as expected."
-                    msg += "Attempting reshape..."
-                    logging.log(20, msg)
-                    q_ref = self.lb_model(lam_ref.reshape(1, -1))
-                    output_sample_set.set_reference_value(q_ref)
-                except ValueError:
-                    logging.log(20, 'Unable to map reference value.')
+                logging.log(20, 'Unable to map reference value.')
 
         if self.error_estimates:
             output_sample_set.set_error_estimates_local(local_output_ee)
-- 
2.43.0


From d154d3702bfa4fceb5a1c9271c1318f9392b9c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:00 +0000
Subject: [PATCH 41/91] fix: cells of a normal partition have the probability
 of the normal distribution

---
 bet/calculateP/simpleFunP.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bet/calculateP/simpleFunP.py b/bet/calculateP/simpleFunP.py
index af76e47..f90c6a8 100644
--- a/bet/calculateP/simpleFunP.py
+++ b/bet/calculateP/simpleFunP.py
@@ -639,8 +639,7 @@ def normal_partition_normal_distribution(data_set, Q_ref=None, std=1, M=1,
     cvolumes = np.copy(volumes)
     comm.Allreduce([volumes, MPI.DOUBLE], [cvolumes, MPI.DOUBLE], op=MPI.SUM)
     volumes = cvolumes
-    rho_D_M = count_neighbors.astype(np.float64) * volumes
-    rho_D_M = rho_D_M / np.sum(rho_D_M)
+    rho_D_M = count_neighbors.astype(np.float64) / float(num_d_emulate)
     s_set.set_probabilities(rho_D_M)
     s_set.set_volumes(volumes)
 
-- 
2.43.0


From 2d9d22a39acde8dd29743118874de02265677988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:00 +0000
Subject: [PATCH 42/91] fix: normal distributions for data arrays of several
 dimensions

---
 bet/calculateP/simpleFunP.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bet/calculateP/simpleFunP.py b/bet/calculateP/simpleFunP.py
index f90c6a8..a9e639e 100644
--- a/bet/calculateP/simpleFunP.py
+++ b/bet/calculateP/simpleFunP.py
@@ -29,6 +29,8 @@ def check_type(val, data_set=None):
         dim = data_set._output_sample_set.get_dim()
     elif isinstance(data_set, samp.sample_set_base):
         dim = data_set.get_dim()
+    elif isinstance(data_set, np.ndarray):
+        dim = data_set.shape[1]
     else:
         dim = 1
     if isinstance(val, float) or isinstance(val, int):
-- 
2.43.0


From a2d454cc67c813e196781ee455e7dfa024f6e992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:10 +0000
Subject: [PATCH 43/91] fix: rectangle sizes may be lists for uniform
 partitions

---
 bet/calculateP/simpleFunP.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bet/calculateP/simpleFunP.py b/bet/calculateP/simpleFunP.py
index a9e639e..021d571 100644
--- a/bet/calculateP/simpleFunP.py
+++ b/bet/calculateP/simpleFunP.py
@@ -176,6 +176,7 @@ def uniform_partition_uniform_distribution_rectangle_size(data_set,
         raise wrong_argument_type("Rectangle size required.")
     elif not isinstance(rect_size, collections.abc.Iterable):
         rect_size = rect_size * np.ones((dim,))
+    rect_size = np.array(rect_size)
     if np.any(np.less_equal(rect_size, 0)):
         msg = 'rect_size must be greater than 0'
         raise wrong_argument_type(msg)
-- 
2.43.0


From 673913a9b9870d4af70a5769dbbc8e2fdcac328b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:10 +0000
Subject: [PATCH 44/91] fix: simple functions reset the pointers into the
 previous output measure

---
 bet/calculateP/simpleFunP.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bet/calculateP/simpleFunP.py b/bet/calculateP/simpleFunP.py
index 021d571..4922900 100644
--- a/bet/calculateP/simpleFunP.py
+++ b/bet/calculateP/simpleFunP.py
@@ -252,7 +252,7 @@ def uniform_partition_uniform_distribution_rectangle_size(data_set,
     different set of parameter samples and model solves.
     '''
     if isinstance(data_set, samp.discretization):
-        data_set._output_probability_set = s_set
+        data_set.set_output_probability_set(s_set)
         data_set.set_io_ptr(globalize=False)
     return s_set
 
@@ -423,7 +423,7 @@ def regular_partition_uniform_distribution_rectangle_size(data_set, Q_ref=None,
     s_set.set_probabilities(prob)
 
     if isinstance(data_set, samp.discretization):
-        data_set._output_probability_set = s_set
+        data_set.set_output_probability_set(s_set)
         data_set.set_io_ptr(globalize=False)
     return s_set
 
@@ -554,7 +554,7 @@ def uniform_partition_uniform_distribution_data_samples(data_set):
     s_set.set_probabilities(np.ones((num,), dtype=np.float) / num)
 
     if isinstance(data_set, samp.discretization):
-        data_set._output_probability_set = s_set
+        data_set.set_output_probability_set(s_set)
         data_set.set_io_ptr(globalize=False)
     return s_set
 
@@ -650,7 +650,7 @@ def normal_partition_normal_distribution(data_set, Q_ref=None, std=1, M=1,
     # above, while informed by the sampling of the map Q, do not require
     # solving the model EVER! This can be done "offline" so to speak.
     if isinstance(data_set, samp.discretization):
-        data_set._output_probability_set = s_set
+        data_set.set_output_probability_set(s_set)
         data_set.set_io_ptr(globalize=False)
     return s_set
 
@@ -735,7 +735,7 @@ def uniform_partition_normal_distribution(data_set, Q_ref=None, std=1, M=1,
     # above, while informed by the sampling of the map Q, do not require
     # solving the model EVER! This can be done "offline" so to speak.
     if isinstance(data_set, samp.discretization):
-        data_set._output_probability_set = s_set
+        data_set.set_output_probability_set(s_set)
         data_set.set_io_ptr(globalize=False)
     return s_set
 
@@ -842,6 +842,6 @@ def user_partition_user_distribution(data_set, data_partition_set,
     s_set.set_probabilities(rho_D_M)
 
     if isinstance(data_set, samp.discretization):
-        data_set._output_probability_set = s_set
+        data_set.set_output_probability_set(s_set)
         data_set.set_io_ptr(globalize=False)
     return s_set
-- 
2.43.0


From d90ae33c26079db6219c64ef4a0a6d51c9de398e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:48 +0000
Subject: [PATCH 45/91] fix: density estimates of a single cluster map

---
 bet/calculateP/calculateR.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/calculateP/calculateR.py b/bet/calculateP/calculateR.py
index 05bf6cb..2806fd4 100644
--- a/bet/calculateP/calculateR.py
+++ b/bet/calculateP/calculateR.py
@@ -48,7 +48,7 @@ def generate_output_kdes(discretization, bw_method=None):
     obs_kdes = []
     for i in range(num_clusters):
         if predict_set.get_cluster_maps() is not None:
-            if len(predict_set.get_cluster_maps()) > 1:
+            if len(predict_set.get_cluster_maps()[i]) > 1:
                 if predict_set.get_weights_init() is None:
                     predict_kdes.append(gaussian_kde(predict_set.get_cluster_maps()[i].T, bw_method=bw_method))
                 else:
@@ -71,7 +71,7 @@ def generate_output_kdes(discretization, bw_method=None):
                 predict_kdes.append(None)
 
         if obs_set.get_cluster_maps() is not None:
-            if len(obs_set.get_cluster_maps()) > 1:
+            if len(obs_set.get_cluster_maps()[i]) > 1:
                 obs_kdes.append(gaussian_kde(obs_set.get_cluster_maps()[i].T, bw_method=bw_method))
             else:
                 obs_kdes.append(None)
-- 
2.43.0


From 8cb8e443f065e0d89d745629417fa0ae9a0ce9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:48 +0000
Subject: [PATCH 46/91] fix: density-based inversion with clusters that were
 not observed

---
 bet/calculateP/calculateR.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bet/calculateP/calculateR.py b/bet/calculateP/calculateR.py
index 2806fd4..ea560af 100644
--- a/bet/calculateP/calculateR.py
+++ b/bet/calculateP/calculateR.py
@@ -99,6 +99,7 @@ def invert(discretization, bw_method=None):
     """
     predict_kdes, obs_kdes, num_clusters = generate_output_kdes(discretization, bw_method)
     predict_set = discretization.get_output_sample_set()
+    obs_set = discretization.get_output_observed_set()
 
     rs = []
     r = []
@@ -111,13 +112,15 @@ def invert(discretization, bw_method=None):
             vals = predict_set.get_values()[predict_pointer]
         else:
             vals = predict_set.get_cluster_maps()[i]
-        if len(predict_pointer) > 0:
+        # a cluster without observations has no weight
+        if len(predict_pointer) > 0 and np.any(obs_set.get_region() == i):
             r.append(np.divide(obs_kdes[i](vals.T), predict_kdes[i](vals.T)))
             rs.append((r[i].mean()))
         else:
             r.append(None)
             rs.append(None)
-        weights[predict_pointer] = r[i]
+        if r[i] is not None:
+            weights[predict_pointer] = r[i]
         lam_ptr.append(predict_pointer)
     discretization.get_input_sample_set().set_weights(weights)
     return rs, r, lam_ptr
-- 
2.43.0


From 0bb878069b0f0af477c8418e4e5833023c238cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:48 +0000
Subject: [PATCH 47/91] fix: pooled updates give each cluster its observed
 proportion

---
 bet/calculateP/calculateR.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bet/calculateP/calculateR.py b/bet/calculateP/calculateR.py
index ea560af..bb1bd90 100644
--- a/bet/calculateP/calculateR.py
+++ b/bet/calculateP/calculateR.py
@@ -312,7 +312,8 @@ def invert_to_multivariate_gaussian(discretization, bw_method=None):
 
     for i in range(num_clusters):
         cluster_weights.append(len(np.where(obs_set.get_region() == i)[0]) / num_obs)
-        total_weights[lam_ptr[i]] = r[i] * cluster_weights[i]
+        if r[i] is not None:
+            total_weights[lam_ptr[i]] = cluster_weights[i] * r[i] / np.sum(r[i])
     mean, cov = weighted_mean_and_cov(params, total_weights)
     means = [mean]
     covariances = [cov]
@@ -383,7 +384,8 @@ def invert_to_random_variable(discretization, rv, num_reweighted=10000, bw_metho
 
     for i in range(num_clusters):
         cluster_weights.append(len(np.where(obs_set.get_region() == i)[0]) / num_obs)
-        total_weights[lam_ptr[i]] = r[i] * cluster_weights[i]
+        if r[i] is not None:
+            total_weights[lam_ptr[i]] = cluster_weights[i] * r[i] / np.sum(r[i])
     total_weights = np.round(num_reweighted * total_weights/np.sum(total_weights)).astype(int)
     reweighted_vals = np.repeat(params, total_weights, axis=0)
 
-- 
2.43.0


From c9cd459d092666f567684ff51138f1de42bda10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:11 +0000
Subject: [PATCH 48/91] fix: rejection sampling respects observed proportions
 and agrees on all processes

---
 bet/calculateP/calculateR.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/bet/calculateP/calculateR.py b/bet/calculateP/calculateR.py
index bb1bd90..e379ae3 100644
--- a/bet/calculateP/calculateR.py
+++ b/bet/calculateP/calculateR.py
@@ -13,6 +13,7 @@ to update an initial density on the parameter space.
 
 """
 import bet.sample
+from bet.Comm import comm
 import numpy as np
 import logging
 
@@ -187,14 +188,19 @@ def invert_rejection_sampling(discretization, bw_method=None):
 
     rs, r, lam_ptr = invert(discretization, bw_method)
 
+    obs_set = discretization.get_output_observed_set()
+
     discretization.get_input_sample_set().local_to_global()
-    new_vals = []
+    # weights of all samples, where each cluster has its observed proportion
+    new_r = np.zeros((discretization.get_input_sample_set().check_num(), ))
     for i in range(num_clusters):
-        check = np.random.uniform(low=0, high=1, size=r[i].size)  # create random uniform weights to check r against
-        new_r = r[i] / np.max(r[i])  # normalize weights
-        idx = np.where(new_r >= check)[0]  # rejection criterion
-        new_vals.append(discretization.get_input_sample_set().get_values()[lam_ptr[i][idx]])
-    vals = np.vstack(new_vals)
+        if r[i] is not None:
+            new_r[lam_ptr[i]] = np.mean(obs_set.get_region() == i) * r[i] / np.sum(r[i])
+    new_r = new_r / np.max(new_r)  # normalize weights
+    # create random uniform weights to check r against, shared by all processes
+    check = comm.bcast(np.random.uniform(low=0, high=1, size=new_r.size), root=0)
+    idx = np.where(new_r > check)[0]  # rejection criterion
+    vals = discretization.get_input_sample_set().get_values()[idx]
     new_set = bet.sample.sample_set(discretization.get_input_sample_set().get_dim())
     new_set.set_values(vals)
     n = vals.shape[0]
-- 
2.43.0


From 890a006e370d9f5c3494a061c7d3d15e5beea4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:11 +0000
Subject: [PATCH 49/91] fix: fitted distributions name their shape parameters

---
 bet/calculateP/calculateR.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/bet/calculateP/calculateR.py b/bet/calculateP/calculateR.py
index e379ae3..7caa239 100644
--- a/bet/calculateP/calculateR.py
+++ b/bet/calculateP/calculateR.py
@@ -400,18 +400,10 @@ def invert_to_random_variable(discretization, rv, num_reweighted=10000, bw_metho
         pp = [rv[i][0], {}]
         rv_continuous = getattr(stats, rv[i][0])
         A = rv_continuous.fit(reweighted_vals[:, i], **rv[i][1])
-        if len(A) == 2:
-            pp[1]['loc'] = A[0]
-            pp[1]['scale'] = A[1]
-        elif len(A) == 3:
-            pp[1]['a'] = A[0]
-            pp[1]['loc'] = A[1]
-            pp[1]['scale'] = A[2]
-        elif len(A) == 4:
-            pp[1]['a'] = A[0]
-            pp[1]['b'] = A[1]
-            pp[1]['loc'] = A[2]
-            pp[1]['scale'] = A[3]
+        if len(A) in (2, 3, 4):
+            # shape parameters have different names for different distributions
+            names = [s.strip() for s in (rv_continuous.shapes or '').split(',') if s.strip()]
+            pp[1].update(zip(names + ['loc', 'scale'], A))
         else:
             raise bet.sample.wrong_input("Type of random variable is not currently supported.")
         prob_params.append(pp)
-- 
2.43.0


From 9aa111ed948a1c867a0fdf38888e817990f5462f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:11 +0000
Subject: [PATCH 50/91] fix: densities of mixtures with empty clusters

---
 bet/sample.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 5ae97c9..ff0e3d4 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -121,7 +121,8 @@ def evaluate_pdf(prob_type, prob_parameters, vals):
         mar = np.zeros((vals.shape[0],))
         num_clusters = len(cluster_weights)
         for i in range(num_clusters):
-            mar += cluster_weights[i] * multivariate_normal.pdf(vals, means[i], covs[i])
+            if means[i] is not None:
+                mar += cluster_weights[i] * multivariate_normal.pdf(vals, means[i], covs[i])
         return mar
     elif prob_type == "voronoi":
         _, pt = prob_parameters.query(vals)
@@ -159,7 +160,8 @@ def evaluate_pdf_marginal(prob_type, prob_parameters, vals, i):
         num_clusters = len(cluster_weights)
         mar = np.zeros(x.shape[0])
         for j in range(num_clusters):
-            mar += param_marginals[i][j](x) * cluster_weights[j]
+            if param_marginals[i][j] is not None:
+                mar += param_marginals[i][j](x) * cluster_weights[j]
         return mar
     elif prob_type == "rv":
         import scipy.stats as stats
@@ -174,7 +176,8 @@ def evaluate_pdf_marginal(prob_type, prob_parameters, vals, i):
         mar = np.zeros(x.shape)
         num_clusters = len(cluster_weights)
         for j in range(num_clusters):
-            mar += stats.norm.pdf(x, loc=means[j][i], scale=(covs[j][i, i] ** 0.5)) * cluster_weights[j]
+            if means[j] is not None:
+                mar += stats.norm.pdf(x, loc=means[j][i], scale=(covs[j][i, i] ** 0.5)) * cluster_weights[j]
         return mar
     elif prob_type == 'voronoi':
         from scipy.stats import gaussian_kde
-- 
2.43.0


From 7b1af71e81600c04e7543798b52d50da600ff50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:29 +0000
Subject: [PATCH 51/91] fix: updated measures are sampled with exactly the
 requested number of samples

---
 bet/sampling/basicSampling.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/bet/sampling/basicSampling.py b/bet/sampling/basicSampling.py
index c11b050..b7ce896 100644
--- a/bet/sampling/basicSampling.py
+++ b/bet/sampling/basicSampling.py
@@ -49,15 +49,21 @@ def sample_from_updated(input_set, num_samples, globalize=True):
     elif not isinstance(input_set, bet.sample.sample_set):
         raise bad_object("input_set is of the wrong type.")
 
+    def cluster_counts(cluster_weights):
+        # numbers of samples proportional to the weights with the requested sum
+        ends = np.round(num_samples * np.cumsum(cluster_weights) / np.sum(cluster_weights))
+        return np.diff(np.hstack([0, ends])).astype(int)
+
     new_set = sample.sample_set(dim=input_set.get_dim())
     if input_set.get_prob_type() == 'rv':
         return random_sample_set(input_set.get_prob_parameters(), new_set, num_samples, globalize)
     elif input_set.get_prob_type() == 'kde':
         param_marginals, cluster_weights = input_set.get_prob_parameters()
         v_outer = []
-        for i, w in enumerate(cluster_weights):
+        for i, num_samples_clust in enumerate(cluster_counts(cluster_weights)):
             v_inner = []
-            num_samples_clust = round(w*num_samples)
+            if num_samples_clust == 0:
+                continue
             num_samples_local = int((num_samples_clust / comm.size) +
                                     (comm.rank < num_samples_clust % comm.size))
             for j in range(input_set.get_dim()):
@@ -73,8 +79,9 @@ def sample_from_updated(input_set, num_samples, globalize=True):
     elif input_set.get_prob_type() == 'gmm':
         means, covariances, cluster_weights = input_set.get_prob_parameters()
         v_outer = []
-        for i, w in enumerate(cluster_weights):
-            num_samples_clust = round(w * num_samples)
+        for i, num_samples_clust in enumerate(cluster_counts(cluster_weights)):
+            if num_samples_clust == 0:
+                continue
             num_samples_local = int((num_samples_clust / comm.size) +
                                     (comm.rank < num_samples_clust % comm.size))
             v_outer.append(stats.multivariate_normal.rvs(mean=means[i], cov=covariances[i], size=num_samples_local))
-- 
2.43.0


From ab1eaa272375acec40343758d17d94704a309c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:29 +0000
Subject: [PATCH 52/91] fix: samples of updated measures keep their coordinates
 for all sample counts

---
 bet/sampling/basicSampling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bet/sampling/basicSampling.py b/bet/sampling/basicSampling.py
index b7ce896..418a8d9 100644
--- a/bet/sampling/basicSampling.py
+++ b/bet/sampling/basicSampling.py
@@ -69,7 +69,7 @@ def sample_from_updated(input_set, num_samples, globalize=True):
             for j in range(input_set.get_dim()):
                 v_inner.append(param_marginals[j][i].resample(num_samples_local))
             v_outer.append(np.vstack(v_inner))
-        vals_local = np.hstack(v_outer)
+        vals_local = np.hstack(v_outer).T
         new_set.set_values_local(vals_local)
         new_set.set_prob_type_init('kde')
         new_set.set_prob_parameters_init((param_marginals, cluster_weights))
@@ -84,7 +84,9 @@ def sample_from_updated(input_set, num_samples, globalize=True):
                 continue
             num_samples_local = int((num_samples_clust / comm.size) +
                                     (comm.rank < num_samples_clust % comm.size))
-            v_outer.append(stats.multivariate_normal.rvs(mean=means[i], cov=covariances[i], size=num_samples_local))
+            v_outer.append(np.reshape(
+                stats.multivariate_normal.rvs(mean=means[i], cov=covariances[i], size=num_samples_local),
+                (num_samples_local, input_set.get_dim())))
         vals_local = np.vstack(v_outer)
         new_set.set_values_local(vals_local)
         new_set.set_prob_type_init('gmm')
-- 
2.43.0


From c6d2472411a80e0f24fe6108507458d636f58ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:54 +0000
Subject: [PATCH 53/91] fix: total variation distances do not depend on scalar
 weights of scipy

---
 bet/postProcess/compareP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index 6e47517..da1d0a7 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -165,7 +165,7 @@ class compare:
 
         if functional in ['tv', 'totvar',
                           'total variation', 'total-variation', '1']:
-            dist = factor * ds.minkowski(self.pdfs1, self.pdfs2, 1, w=0.5, **kwargs)
+            dist = 0.5 * factor * ds.minkowski(self.pdfs1, self.pdfs2, 1, **kwargs)
         elif functional in ['mink', 'minkowski']:
             dist = factor * ds.minkowski(self.pdfs1, self.pdfs2, **kwargs)
         elif functional in ['norm']:
@@ -248,7 +248,7 @@ class compare:
 
         if functional in ['tv', 'totvar',
                           'total variation', 'total-variation', '1']:
-            dist = factor * ds.minkowski(pdfs1, pdfs2, 1, w=0.5, **kwargs)
+            dist = 0.5 * factor * ds.minkowski(pdfs1, pdfs2, 1, **kwargs)
         elif functional in ['mink', 'minkowski']:
             dist = ds.minkowski(pdfs1, pdfs2, **kwargs)
         elif functional in ['norm']:
-- 
2.43.0


From 990d027adce1de2d9197e2baaa9d35410cb2825a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:54 +0000
Subject: [PATCH 54/91] fix: comparison points are sampled from the domain of
 every coordinate

---
 bet/postProcess/compareP.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index da1d0a7..bebd047 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -106,8 +106,9 @@ class compare:
                 rv_loc = ['uniform', {}]
                 delt = compare_factor * (maxes[i] - mins[i])
                 rv_loc[1]['loc'] = mins[i] - delt
-                rv_loc[1]['scale'] = maxes[i] - mins[i] + delt
-            unif_set = bsam.random_sample_set(rv=rv_loc, input_obj=self.set1.get_dim(),
+                rv_loc[1]['scale'] = maxes[i] - mins[i] + 2 * delt
+                rv.append(rv_loc)
+            unif_set = bsam.random_sample_set(rv=rv, input_obj=self.set1.get_dim(),
                                               num_samples=compare_set)
             self.compare_vals = unif_set.get_values()
         else:
-- 
2.43.0


From cde574d5c2facd7e1d7234967b9a8305e758a6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:54 +0000
Subject: [PATCH 55/91] fix: distances do not depend on earlier evaluations

---
 bet/postProcess/compareP.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index bebd047..b22d3d8 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -82,6 +82,10 @@ class compare:
             0 by default.
         :type compare_factor: float
         """
+        # Densities at other points are outdated.
+        self.pdfs1 = None
+        self.pdfs2 = None
+        self.pdfs_zero = None
         # Extract values to evaluate the probability measures.
         if isinstance(compare_set, samp.sample_set):
             if compare_set.get_dim() == self.set1.get_dim():
@@ -156,32 +160,33 @@ class compare:
             raise samp.wrong_input("Compare set needed.")
         if self.pdfs1 is None or self.pdfs2 is None:
             self.evaluate_pdfs()
+        pdfs1, pdfs2 = self.pdfs1, self.pdfs2
         if normalize:
-            self.pdfs1 = self.pdfs1 / np.sum(self.pdfs1)
-            self.pdfs2 = self.pdfs2 / np.sum(self.pdfs2)
+            pdfs1 = pdfs1 / np.sum(pdfs1)
+            pdfs2 = pdfs2 / np.sum(pdfs2)
             factor = 1.0
         else:
-            factor = 1.0 / (self.pdfs1.shape[0])
+            factor = 1.0 / (pdfs1.shape[0])
 
 
         if functional in ['tv', 'totvar',
                           'total variation', 'total-variation', '1']:
-            dist = 0.5 * factor * ds.minkowski(self.pdfs1, self.pdfs2, 1, **kwargs)
+            dist = 0.5 * factor * ds.minkowski(pdfs1, pdfs2, 1, **kwargs)
         elif functional in ['mink', 'minkowski']:
-            dist = factor * ds.minkowski(self.pdfs1, self.pdfs2, **kwargs)
+            dist = factor * ds.minkowski(pdfs1, pdfs2, **kwargs)
         elif functional in ['norm']:
-            dist = factor * ds.norm(self.pdfs1 - self.pdfs2, **kwargs)
+            dist = factor * ds.norm(pdfs1 - pdfs2, **kwargs)
         elif functional in ['euclidean', '2-norm', '2']:
-            dist = (factor ** 0.5) * ds.minkowski(self.pdfs1, self.pdfs2, 2, **kwargs)
+            dist = (factor ** 0.5) * ds.minkowski(pdfs1, pdfs2, 2, **kwargs)
         elif functional in ['sqhell', 'sqhellinger']:
-            dist = factor * ds.sqeuclidean(np.sqrt(self.pdfs1), np.sqrt(self.pdfs2)) / 2.0
+            dist = factor * ds.sqeuclidean(np.sqrt(pdfs1), np.sqrt(pdfs2)) / 2.0
         elif functional in ['hell', 'hellinger']:
-            return np.sqrt(self.distance('sqhell'))
+            return np.sqrt(self.distance('sqhell', normalize=normalize))
         elif functional in ['kl', 'k-l', 'kullback-leibler', 'entropy']:
             from scipy.stats import entropy as kl_div
-            dist = kl_div(self.pdfs1, self.pdfs2, **kwargs)
+            dist = kl_div(pdfs1, pdfs2, **kwargs)
         else:
-            dist = functional(self.pdfs1, self.pdfs2, **kwargs)
+            dist = functional(pdfs1, pdfs2, **kwargs)
         return dist
 
     def distance_marginal(self, i, interval=None, num_points=1000, compare_factor=0.0, normalize=False,
-- 
2.43.0


From e70f88d1af638f0b01f303954745c4165228eac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:54 +0000
Subject: [PATCH 56/91] fix: marginals are compared on the domains of both
 measures

---
 bet/postProcess/compareP.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index b22d3d8..9a5a8ed 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -221,13 +221,13 @@ class compare:
         x = None
         if interval is None:
             if self.set1.get_domain() is not None and self.set2.get_domain() is not None:
-                min1 = min(self.set1.get_domain()[i, 0], self.set1.get_domain()[i, 0])
-                max1 = min(self.set1.get_domain()[i, 1], self.set1.get_domain()[i, 1])
+                min1 = min(self.set1.get_domain()[i, 0], self.set2.get_domain()[i, 0])
+                max1 = max(self.set1.get_domain()[i, 1], self.set2.get_domain()[i, 1])
                 if min1 != -np.inf and max1 != np.inf:
                     delt = compare_factor * (max1 - min1)
                     x = np.linspace(min1-delt, max1+delt, num_points)
             if x is None:
-                combined = np.vstack((self.set1.get_values()[:, i], self.set2.get_values()[:, i]))
+                combined = np.hstack((self.set1.get_values()[:, i], self.set2.get_values()[:, i]))
                 min1 = np.min(combined)
                 max1 = np.max(combined)
                 delt = compare_factor * (max1 - min1)
@@ -301,13 +301,13 @@ class compare:
         from scipy.integrate import quadrature
         if interval is None:
             if self.set1.get_domain() is not None and self.set2.get_domain() is not None:
-                min1 = min(self.set1.get_domain()[i, 0], self.set1.get_domain()[i, 0])
-                max1 = min(self.set1.get_domain()[i, 1], self.set1.get_domain()[i, 1])
+                min1 = min(self.set1.get_domain()[i, 0], self.set2.get_domain()[i, 0])
+                max1 = max(self.set1.get_domain()[i, 1], self.set2.get_domain()[i, 1])
                 if min1 != -np.inf and max1 != np.inf:
                     delt = compare_factor * (max1 - min1)
                     interval = [min1-delt, max1 + delt]
             if interval is None:
-                combined = np.vstack((self.set1.get_values()[:, i], self.set2.get_values()[:, i]))
+                combined = np.hstack((self.set1.get_values()[:, i], self.set2.get_values()[:, i]))
                 min1 = np.min(combined)
                 max1 = np.max(combined)
                 delt = compare_factor * (max1 - min1)
-- 
2.43.0


From 1dbe1770448517649d4da9d6075941bd31c655f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:00 +0000
Subject: [PATCH 57/91] fix: model errors of integer valued outputs

---
 bet/calculateP/calculateError.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index cf66778..d5c3886 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -391,7 +391,8 @@ class model_error(object):
         # Setup new discretization object adding error estimates
         #: :class:`bet.sample.discretiztion` from adding error estimates
         self.disc_new = disc.copy()
-        self.disc_new._output_sample_set._values_local += self.disc.\
+        self.disc_new._output_sample_set._values_local = \
+            self.disc_new._output_sample_set._values_local + self.disc.\
             _output_sample_set._error_estimates_local
         self.disc_new.set_io_ptr(globalize=False)
         self.disc_new._io_ptr = None
-- 
2.43.0


From 37059b4b66d841fc1f04c70c924d2397901bae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:10 +0000
Subject: [PATCH 58/91] fix: the serial communicator scatters on current Python
 versions

---
 bet/Comm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/Comm.py b/bet/Comm.py
index 0934aec..ca69d71 100644
--- a/bet/Comm.py
+++ b/bet/Comm.py
@@ -5,7 +5,7 @@ This module provides a workaround for people without mpi4py installed
 to run BET.
 """
 
-import collections
+import collections.abc
 
 
 class comm_for_no_mpi4py(object):
@@ -94,7 +94,7 @@ class comm_for_no_mpi4py(object):
         :returns: val1
 
         """
-        if isinstance(val1, collections.Iterable) and len(val1) == 1:
+        if isinstance(val1, collections.abc.Iterable) and len(val1) == 1:
             val1 = val1[0]
         return val1
 
-- 
2.43.0


From b8879a66009d47ae0d32d03da494f54d1c31e0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:10 +0000
Subject: [PATCH 59/91] fix: the serial communicator fills receive buffers

---
 bet/Comm.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/bet/Comm.py b/bet/Comm.py
index ca69d71..9bc5fd3 100644
--- a/bet/Comm.py
+++ b/bet/Comm.py
@@ -6,6 +6,23 @@ to run BET.
 """
 
 import collections.abc
+import numpy as np
+
+
+def fill_buffer(sent, received):
+    """
+    Copy a sent buffer to a receive buffer, as one process does with itself.
+
+    :param object sent: array or sequence of array and type
+    :param object received: array or sequence of array and type
+
+    """
+    if isinstance(sent, (list, tuple)) and len(sent) > 0:
+        sent = sent[0]
+    if isinstance(received, (list, tuple)) and len(received) > 0:
+        received = received[0]
+    if isinstance(sent, np.ndarray) and isinstance(received, np.ndarray):
+        received.flat[:] = sent.flat[:]
 
 
 class comm_for_no_mpi4py(object):
@@ -101,23 +118,26 @@ class comm_for_no_mpi4py(object):
     def Allgather(self, val, val2=None):
         """
         :param object val: object to Allgather
+        :param object val2: buffer that receives val
 
         :rtype: object
         :returns: val
 
         """
+        fill_buffer(val, val2)
         return val
 
     def Allreduce(self, val1, val2=None, op=None):
         """
         :param object val1: object to Allreduce
-        :param object val2: object to Allreduce
+        :param object val2: buffer that receives val1
         :param op: None
 
         :rtype: object
         :returns: val1
 
         """
+        fill_buffer(val1, val2)
         return val1
 
     def Bcast(self, val, root=0):
@@ -134,13 +154,14 @@ class comm_for_no_mpi4py(object):
     def Scatter(self, val1, val2, root=0):
         """
         :param object val1: object to Scatter
-        :param object val2: object to Scatter
+        :param object val2: buffer that receives val1
         :param int root: 0
 
         :rtype: object
         :returns: val1
 
         """
+        fill_buffer(val1, val2)
         return val1
 
     def Barrier(self):
-- 
2.43.0


From e0aa2d527ec97b93d018721fc50bac2a5733d211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:07 +0000
Subject: [PATCH 60/91] fix: cleaned single precision data is finite

---
 bet/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bet/util.py b/bet/util.py
index 4eafe9c..e305421 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -220,8 +220,11 @@ def clean_data(data):
 
     """
     data = np.copy(data)
+    max_float = sys.float_info[0]
+    if np.issubdtype(data.dtype, np.floating):
+        max_float = np.finfo(data.dtype).max
     data[np.isnan(data)] = 0.0
-    data[np.isinf(data)] = np.sign(data[np.isinf(data)]) * sys.float_info[0]
+    data[np.isinf(data)] = np.sign(data[np.isinf(data)]) * max_float
 
     return data
 
-- 
2.43.0


From b2edd38834d154687b8555d82d0378720e0b0642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:07 +0000
Subject: [PATCH 61/91] fix: domains may be nested lists

---
 bet/util.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/bet/util.py b/bet/util.py
index e305421..1d4456f 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -161,11 +161,8 @@ def fix_dimensions_domain(domain):
 
     """
     if not isinstance(domain, np.ndarray):
-        if len(domain) == 2:
-            domain = np.expand_dims(domain, axis=0)
-        else:
-            raise TypeError("The length must be at least 2.")
-    elif len(domain.shape) == 1 and domain.shape[0] == 2:
+        domain = np.array(domain)
+    if len(domain.shape) == 1 and domain.shape[0] == 2:
         domain = np.expand_dims(domain, axis=0)
     elif len(domain.shape) == 2 and domain.shape[1] == 2:
         pass  # The shape is already correct!
-- 
2.43.0


From abc613451cd8568ce6d985fcfac6c47e510ca2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:07 +0000
Subject: [PATCH 62/91] fix: arrays of all types and distributions are gathered
 with a given shape

---
 bet/util.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/bet/util.py b/bet/util.py
index 1d4456f..c8b5592 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -89,17 +89,13 @@ def get_global_values(array, shape=None):
         dtype = array.dtype
         mpi_dtype = False
         for ptype in possible_types.keys():
-            # suppress FutureWarning
-            if ptype is int or ptype is MPI.INT:
-                comp_type = np.integer
-            elif ptype is float or ptype is MPI.FLOAT:
-                comp_type = np.floating
-
-            if np.issubdtype(dtype, comp_type):
+            # buffers are gathered as they are
+            if dtype == np.dtype(ptype):
                 mpi_dtype = True
                 dtype = ptype
 
-        if shape is None or not mpi_dtype:
+        if shape is None or not mpi_dtype or \
+                len(set(comm.allgather(array.size))) > 1:
             # do a lowercase allgather
             a_shape = len(array.shape)
             array = comm.allgather(array)
-- 
2.43.0


From 5e645076aaf9b7d25a4a55a9ef406a752ba52d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:01 +0000
Subject: [PATCH 63/91] fix: cells of 1D Voronoi plots are drawn with their own
 probabilities

---
 bet/postProcess/plotVoronoi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/postProcess/plotVoronoi.py b/bet/postProcess/plotVoronoi.py
index 82a429a..1421769 100644
--- a/bet/postProcess/plotVoronoi.py
+++ b/bet/postProcess/plotVoronoi.py
@@ -97,10 +97,10 @@ def plot_1D_voronoi(sample_set, density=True, filename="file",
         fig = plt.figure(0, constrained_layout=True)
         if density:
             plt.hlines(
-                sample_obj._probabilities[ind_sort[0]] / (maxes - mins), mins, maxes)
+                sample_obj._probabilities[ind_sort[:, 0]] / (maxes - mins), mins, maxes)
             plt.ylabel(r'$\rho_{\lambda}$', fontsize=20)
         else:
-            plt.hlines(sample_obj._probabilities[ind_sort[0]], mins, maxes)
+            plt.hlines(sample_obj._probabilities[ind_sort[:, 0]], mins, maxes)
             plt.ylabel(r'$P_{\Lambda}(\mathcal{V}_i)$', fontsize=20)
 
         if lam_ref is not None:
-- 
2.43.0


From 81e56a0e36556373f4fb96af2ba3caafd6d43b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:01 +0000
Subject: [PATCH 64/91] fix: 2D Voronoi plots accept axis labels

---
 bet/postProcess/plotVoronoi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/postProcess/plotVoronoi.py b/bet/postProcess/plotVoronoi.py
index 1421769..0ea424f 100644
--- a/bet/postProcess/plotVoronoi.py
+++ b/bet/postProcess/plotVoronoi.py
@@ -208,7 +208,7 @@ def plot_2D_voronoi(sample_set, density=True, colormap_type='BuGn',
             label2 = r'$\lambda_2$'
         else:
             label1 = lambda_label[0]
-            label1 = lambda_label[1]
+            label2 = lambda_label[1]
         plt.xlabel(label1, fontsize=20)
         plt.ylabel(label2, fontsize=20)
 
-- 
2.43.0


From 52592fe3cc2495d94d33e829ce4fd0ac048e929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:01 +0000
Subject: [PATCH 65/91] fix: every plot is drawn on a figure of its own

---
 bet/postProcess/plotDomains.py |  1 +
 bet/postProcess/plotP.py       | 14 ++++++--------
 bet/postProcess/plotVoronoi.py |  8 ++++++--
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index 0b5688e..94dd22a 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -778,6 +778,7 @@ def show_data_domain_2D(sample_disc, Q_ref=None, ref_markers=None,
         Q_ref = util.fix_dimensions_data(Q_ref, 2)
 
     # Create figure
+    plt.figure()
     plt.tricontourf(data_obj.get_values()[:, 0],
                     data_obj.get_values()[:, 1],
                     triangles,
diff --git a/bet/postProcess/plotP.py b/bet/postProcess/plotP.py
index fa6d9dd..75cbd11 100644
--- a/bet/postProcess/plotP.py
+++ b/bet/postProcess/plotP.py
@@ -221,7 +221,7 @@ def plot_1D_marginal_probs(marginals, bins, sample_set,
         for i in index:
             x_range = np.linspace(lam_domain[i, 0], lam_domain[i, 1],
                                   len(bins[i]) - 1)
-            fig = plt.figure(i)
+            fig = plt.figure()
             ax = fig.add_subplot(111)
             ax.plot(x_range, marginals[i] / (bins[i][1] - bins[i][0]))
             ax.set_ylim(
@@ -245,8 +245,7 @@ def plot_1D_marginal_probs(marginals, bins, sample_set,
             if interactive:
                 plt.show()
             else:
-                plt.close()
-            plt.clf()
+                plt.close(fig)
     comm.barrier()
 
 
@@ -302,7 +301,7 @@ def plot_2D_marginal_probs(marginals, bins, sample_set,
     if comm.rank == 0:
         pairs = sorted(copy.deepcopy(list(marginals.keys())))
         for k, (i, j) in enumerate(pairs):
-            fig = plt.figure(k)
+            fig = plt.figure()
             ax = fig.add_subplot(111)
             boxSize = (bins[i][1] - bins[i][0]) * (bins[j][1] - bins[j][0])
             quadmesh = ax.imshow(marginals[(i, j)].transpose() / boxSize,
@@ -339,7 +338,7 @@ def plot_2D_marginal_probs(marginals, bins, sample_set,
 
         if plot_surface:
             for k, (i, j) in enumerate(pairs):
-                fig = plt.figure(k)
+                fig = plt.figure()
                 ax = fig.gca(projection='3d')
                 X = bins[i][:-1] + np.diff(bins[i]) / 2
                 Y = bins[j][:-1] + np.diff(bins[j]) / 2
@@ -361,8 +360,7 @@ def plot_2D_marginal_probs(marginals, bins, sample_set,
                 if interactive:
                     plt.show()
                 else:
-                    plt.close()
-                plt.clf()
+                    plt.close(fig)
     comm.barrier()
 
 
@@ -513,7 +511,7 @@ def plot_2D_marginal_contours(marginals, bins, sample_set,
     if comm.rank == 0:
         pairs = sorted(copy.deepcopy(list(marginals.keys())))
         for k, (i, j) in enumerate(pairs):
-            fig = plt.figure(k)
+            fig = plt.figure()
             ax = fig.add_subplot(111)
             boxSize = (bins[i][1] - bins[i][0]) * (bins[j][1] - bins[j][0])
             nx = len(bins[i]) - 1
diff --git a/bet/postProcess/plotVoronoi.py b/bet/postProcess/plotVoronoi.py
index 0ea424f..146df0c 100644
--- a/bet/postProcess/plotVoronoi.py
+++ b/bet/postProcess/plotVoronoi.py
@@ -94,7 +94,7 @@ def plot_1D_voronoi(sample_set, density=True, filename="file",
 
     # Make plot
     if comm.rank == 0:
-        fig = plt.figure(0, constrained_layout=True)
+        fig = plt.figure(constrained_layout=True)
         if density:
             plt.hlines(
                 sample_obj._probabilities[ind_sort[:, 0]] / (maxes - mins), mins, maxes)
@@ -115,6 +115,8 @@ def plot_1D_voronoi(sample_set, density=True, filename="file",
         fig.savefig(filename + file_extension)
         if interactive:
             plt.show()
+        else:
+            plt.close(fig)
 
 
 def plot_2D_voronoi(sample_set, density=True, colormap_type='BuGn',
@@ -184,7 +186,7 @@ def plot_2D_voronoi(sample_set, density=True, colormap_type='BuGn',
         points = sample_obj._values
 
         # Make plot
-        fig = plt.figure(0, constrained_layout=True)
+        fig = plt.figure(constrained_layout=True)
         cmap = matplotlib.cm.get_cmap(colormap_type)
         if density:
             P = sample_obj._probabilities / sample_obj._volumes
@@ -227,6 +229,8 @@ def plot_2D_voronoi(sample_set, density=True, colormap_type='BuGn',
         fig.savefig(filename + file_extension)
         if interactive:
             plt.show()
+        else:
+            plt.close(fig)
 
 
 def voronoi_finite_polygons_2d(vor, radius=None):
-- 
2.43.0


From 392931263d9b42d3e715df0f77e030db1e1f8eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:01 +0000
Subject: [PATCH 66/91] fix: 3D scatter plots of the inputs and outputs of a
 discretization are drawn

---
 bet/postProcess/plotDomains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index 94dd22a..b7c8067 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -393,7 +393,7 @@ def scatter_3D_input(my_disc, sample_nos=None, color=None, ref_sample=None,
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
-    scatter_3D_input(sample_obj, sample_nos, color,
+    scatter_3D(sample_obj, sample_nos, color,
                      ref_sample, save, interactive, xlabel, ylabel, zlabel, cbar_label,
                      filename, file_extension, markersize)
 
@@ -454,7 +454,7 @@ def scatter_3D_output(my_disc, sample_nos=None, color=None, ref_sample=None,
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
-    scatter_3D_output(sample_obj, sample_nos, color,
+    scatter_3D(sample_obj, sample_nos, color,
                       ref_sample, save, interactive, xlabel, ylabel, zlabel, cbar_label,
                       filename, file_extension, markersize)
 
-- 
2.43.0


From 14978b57de91b0b6ccb22867a349f05e6953ae34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:01 +0000
Subject: [PATCH 67/91] fix: colors of scatter plots are selected by the value
 of the name

---
 bet/postProcess/plotDomains.py | 60 +++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index b7c8067..56fd44c 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -169,19 +169,19 @@ def scatter_2D_input(my_disc, sample_nos=None, color=None, ref_sample=None,
 
     sample_obj = my_disc.get_input_sample_set()
 
-    if color is "volumes":
+    if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj.get_volumes()
-    elif color is "probabilities":
+    elif isinstance(color, str) and color == "probabilities":
         cbar_label = r'$\P_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj.get_probabilities()
-    elif color is "radii":
+    elif isinstance(color, str) and color == "radii":
         cbar_label = r'$diam_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj._radii
-    elif color is "normalized radii":
+    elif isinstance(color, str) and color == "normalized radii":
         cbar_label = r'$diam_\Lambda_{norm}(\mathcal{V}_{i,N})$'
         color = sample_obj._normalized_radii
-    elif color is "error_id":
+    elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
@@ -228,19 +228,19 @@ def scatter_2D_output(my_disc, sample_nos=None, color=None, ref_sample=None,
 
     sample_obj = my_disc.get_output_sample_set()
 
-    if color is "volumes":
+    if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj.get_volumes()
-    elif color is "probabilities":
+    elif isinstance(color, str) and color == "probabilities":
         cbar_label = r'$\P_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj.get_probabilities()
-    elif color is "radii":
+    elif isinstance(color, str) and color == "radii":
         cbar_label = r'$diam_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj._radii
-    elif color is "normalized radii":
+    elif isinstance(color, str) and color == "normalized radii":
         cbar_label = r'$diam_\mathcal{D}_{norm}(\mathcal{I}_{j,M})$'
         color = sample_obj._normalized_radii
-    elif color is "error_id":
+    elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
@@ -377,19 +377,19 @@ def scatter_3D_input(my_disc, sample_nos=None, color=None, ref_sample=None,
 
     sample_obj = my_disc.get_input_sample_set()
 
-    if color is "volumes":
+    if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj.get_volumes()
-    elif color is "probabilities":
+    elif isinstance(color, str) and color == "probabilities":
         cbar_label = r'$\P_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj.get_probabilities()
-    elif color is "radii":
+    elif isinstance(color, str) and color == "radii":
         cbar_label = r'$diam_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj._radii
-    elif color is "normalized radii":
+    elif isinstance(color, str) and color == "normalized radii":
         cbar_label = r'$diam_\Lambda_{norm}(\mathcal{V}_{i,N})$'
         color = sample_obj._normalized_radii
-    elif color is "error_id":
+    elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
@@ -438,19 +438,19 @@ def scatter_3D_output(my_disc, sample_nos=None, color=None, ref_sample=None,
 
     sample_obj = my_disc.get_output_sample_set()
 
-    if color is "volumes":
+    if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj.get_volumes()
-    elif color is "probabilities":
+    elif isinstance(color, str) and color == "probabilities":
         cbar_label = r'$\P_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj.get_probabilities()
-    elif color is "radii":
+    elif isinstance(color, str) and color == "radii":
         cbar_label = r'$diam_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj._radii
-    elif color is "normalized radii":
+    elif isinstance(color, str) and color == "normalized radii":
         cbar_label = r'$diam_\mathcal{D}_{norm}(\mathcal{I}_{j,M})$'
         color = sample_obj._normalized_radii
-    elif color is "error_id":
+    elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
@@ -948,19 +948,19 @@ def scatter_2D_multi_input(my_disc, color=None, ref_sample=None,
 
     sample_obj = my_disc.get_input_sample_set()
 
-    if color is "volumes":
+    if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj.get_volumes()
-    elif color is "probabilities":
+    elif isinstance(color, str) and color == "probabilities":
         cbar_label = r'$\P_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj.get_probabilities()
-    elif color is "radii":
+    elif isinstance(color, str) and color == "radii":
         cbar_label = r'$diam_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj._radii
-    elif color is "normalized radii":
+    elif isinstance(color, str) and color == "normalized radii":
         cbar_label = r'$diam_\Lambda_{norm}(\mathcal{V}_{i,N})$'
         color = sample_obj._normalized_radii
-    elif color is "error_id":
+    elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
@@ -1007,19 +1007,19 @@ def scatter_2D_multi_output(my_disc, color=None, ref_sample=None,
 
     sample_obj = my_disc.get_output_sample_set()
 
-    if color is "volumes":
+    if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj.get_volumes()
-    elif color is "probabilities":
+    elif isinstance(color, str) and color == "probabilities":
         cbar_label = r'$\P_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj.get_probabilities()
-    elif color is "radii":
+    elif isinstance(color, str) and color == "radii":
         cbar_label = r'$diam_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj._radii
-    elif color is "normalized radii":
+    elif isinstance(color, str) and color == "normalized radii":
         cbar_label = r'$diam_\mathcal{D}_{norm}(\mathcal{I}_{j,M})$'
         color = sample_obj._normalized_radii
-    elif color is "error_id":
+    elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
-- 
2.43.0


From be7610c01f2d1aa9780f89473d07e085ce3ce2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:01 +0000
Subject: [PATCH 68/91] fix: projected scatter plots of a discretization accept
 colors given as arrays

---
 bet/postProcess/plotDomains.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index 56fd44c..003d5bb 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -913,7 +913,7 @@ def scatter_2D_multi(sample_obj, color=None, ref_sample=None,
 
 def scatter_2D_multi_input(my_disc, color=None, ref_sample=None,
                            img_folder='figs/', filename="scatter2Dm_input",
-                           label_char=r'$\lambda', showdim=None, file_extension=".png"):
+                           label_char=r'$\lambda', showdim=None, file_extension=".png", markersize=75):
     r"""
     Creates two-dimensional projections of scatter plots of samples colored
     by ``color`` (usually an array of pointwise probability density values). A
@@ -947,6 +947,7 @@ def scatter_2D_multi_input(my_disc, color=None, ref_sample=None,
         raise bad_object("Improper sample object")
 
     sample_obj = my_disc.get_input_sample_set()
+    cbar_label = None
 
     if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\Lambda(\mathcal{V}_{i,N})$'
@@ -1006,6 +1007,7 @@ def scatter_2D_multi_output(my_disc, color=None, ref_sample=None,
         raise bad_object("Improper sample object")
 
     sample_obj = my_disc.get_output_sample_set()
+    cbar_label = None
 
     if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\mathcal{D}(\mathcal{I}_{j,M})$'
-- 
2.43.0


From 2c6e55a2fe1916942db9437297adb6a280ea1865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:01 +0000
Subject: [PATCH 69/91] fix: labels of scatter plots can be typeset

---
 bet/postProcess/plotDomains.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index 003d5bb..7dea9e6 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -179,7 +179,7 @@ def scatter_2D_input(my_disc, sample_nos=None, color=None, ref_sample=None,
         cbar_label = r'$diam_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj._radii
     elif isinstance(color, str) and color == "normalized radii":
-        cbar_label = r'$diam_\Lambda_{norm}(\mathcal{V}_{i,N})$'
+        cbar_label = r'$diam_{\Lambda, norm}(\mathcal{V}_{i,N})$'
         color = sample_obj._normalized_radii
     elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
@@ -238,7 +238,7 @@ def scatter_2D_output(my_disc, sample_nos=None, color=None, ref_sample=None,
         cbar_label = r'$diam_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj._radii
     elif isinstance(color, str) and color == "normalized radii":
-        cbar_label = r'$diam_\mathcal{D}_{norm}(\mathcal{I}_{j,M})$'
+        cbar_label = r'$diam_{\mathcal{D}, norm}(\mathcal{I}_{j,M})$'
         color = sample_obj._normalized_radii
     elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
@@ -387,7 +387,7 @@ def scatter_3D_input(my_disc, sample_nos=None, color=None, ref_sample=None,
         cbar_label = r'$diam_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj._radii
     elif isinstance(color, str) and color == "normalized radii":
-        cbar_label = r'$diam_\Lambda_{norm}(\mathcal{V}_{i,N})$'
+        cbar_label = r'$diam_{\Lambda, norm}(\mathcal{V}_{i,N})$'
         color = sample_obj._normalized_radii
     elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
@@ -448,7 +448,7 @@ def scatter_3D_output(my_disc, sample_nos=None, color=None, ref_sample=None,
         cbar_label = r'$diam_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj._radii
     elif isinstance(color, str) and color == "normalized radii":
-        cbar_label = r'$diam_\mathcal{D}_{norm}(\mathcal{I}_{j,M})$'
+        cbar_label = r'$diam_{\mathcal{D}, norm}(\mathcal{I}_{j,M})$'
         color = sample_obj._normalized_radii
     elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
@@ -959,7 +959,7 @@ def scatter_2D_multi_input(my_disc, color=None, ref_sample=None,
         cbar_label = r'$diam_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj._radii
     elif isinstance(color, str) and color == "normalized radii":
-        cbar_label = r'$diam_\Lambda_{norm}(\mathcal{V}_{i,N})$'
+        cbar_label = r'$diam_{\Lambda, norm}(\mathcal{V}_{i,N})$'
         color = sample_obj._normalized_radii
     elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
@@ -973,7 +973,7 @@ def scatter_2D_multi_input(my_disc, color=None, ref_sample=None,
 
 def scatter_2D_multi_output(my_disc, color=None, ref_sample=None,
                             img_folder='figs/', filename="scatter2Dm_output",
-                            label_char=r'$q$', showdim=None, file_extension=".png", markersize=75):
+                            label_char=r'$q', showdim=None, file_extension=".png", markersize=75):
     r"""
     Creates two-dimensional projections of scatter plots of samples colored
     by ``color`` (usually an array of pointwise probability density values). A
@@ -1019,7 +1019,7 @@ def scatter_2D_multi_output(my_disc, color=None, ref_sample=None,
         cbar_label = r'$diam_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj._radii
     elif isinstance(color, str) and color == "normalized radii":
-        cbar_label = r'$diam_\mathcal{D}_{norm}(\mathcal{I}_{j,M})$'
+        cbar_label = r'$diam_{\mathcal{D}, norm}(\mathcal{I}_{j,M})$'
         color = sample_obj._normalized_radii
     elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
-- 
2.43.0


From 1b1d14d7dabcb82abfa6a9ab0f38afb7a0cc6aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:17 +0000
Subject: [PATCH 70/91] fix: output samples are plotted without a density

---
 bet/postProcess/plotDomains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index 7dea9e6..4ce4cd0 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -510,7 +510,7 @@ def scatter_rhoD(sample_obj, ref_sample=None, sample_nos=None, io_flag='input',
         else:
             sample_obj = sample_obj._output_sample_set
     elif isinstance(sample_obj, sample.sample_set_base):
-        if io_flag == 'output':
+        if io_flag == 'output' and rho_D is not None:
             rD = rho_D(sample_obj.get_values())
     else:
         raise bad_object("Improper sample object")
-- 
2.43.0


From 55f37b093ff1ceeb9049a8106e93299f61c023e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:17 +0000
Subject: [PATCH 71/91] fix: scatter plots use the given label character

---
 bet/postProcess/plotDomains.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index 4ce4cd0..85faa1d 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -532,7 +532,6 @@ def scatter_rhoD(sample_obj, ref_sample=None, sample_nos=None, io_flag='input',
             label_char = r'$x_'
             prefix = 'rhoD_'
     else:
-        label_char = r'$x_'
         prefix = 'rhoD_'
 
     # If no specific coordinate numbers are given for the parameter coordinates
-- 
2.43.0


From f6722bacd66d5219b0f99cdbf70b03c5bee37696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:17 +0000
Subject: [PATCH 72/91] fix: scatter plots use the given file extension

---
 bet/postProcess/plotDomains.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index 85faa1d..83c0b70 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -547,7 +547,7 @@ def scatter_rhoD(sample_obj, ref_sample=None, sample_nos=None, io_flag='input',
     if sample_obj.get_dim() == 2:
         scatter_2D(sample_obj, sample_nos, rD, ref_sample, save,
                    interactive, xlabel, ylabel, None, savename,
-                   markersize=markersize)
+                   file_extension, markersize=markersize)
     elif sample_obj.get_dim() > 2 and showdim == 2:
         temp_obj = sample.sample_set(2)
         for x, y in combinations(dim_nums, 2):
@@ -558,16 +558,16 @@ def scatter_rhoD(sample_obj, ref_sample=None, sample_nos=None, io_flag='input',
             if ref_sample is not None:
                 scatter_2D(temp_obj, sample_nos, rD, ref_sample[[x - 1, y - 1]], save,
                            interactive, xlabel, ylabel, None, savename,
-                           markersize=markersize)
+                           file_extension, markersize=markersize)
             else:
                 scatter_2D(temp_obj, sample_nos, rD, ref_sample, save,
                            interactive, xlabel, ylabel, None, savename,
-                           markersize=markersize)
+                           file_extension, markersize=markersize)
     elif sample_obj.get_dim() == 3:
         zlabel = label_char + r'{' + str(dim_nums[2]) + '}$'
         scatter_3D(sample_obj, sample_nos, rD, ref_sample, save,
                    interactive, xlabel, ylabel, zlabel, None, savename,
-                   markersize=markersize)
+                   file_extension, markersize=markersize)
     elif sample_obj.get_dim() > 3 and showdim == 3:
         temp_obj = sample.sample_set(3)
         for x, y, z in combinations(dim_nums, 3):
-- 
2.43.0


From c3582919047621a3bd7bffd44ab4079c268e2aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:17 +0000
Subject: [PATCH 73/91] fix: scatter plots that are only shown have axis labels

---
 bet/postProcess/plotDomains.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index 83c0b70..cc47636 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -115,10 +115,10 @@ def scatter_2D(sample_obj, sample_nos=None, color=None, ref_sample=None,
     # if there is a reference value plot it with a notiable marker
     if ref_sample is not None:
         plt.scatter(ref_sample[0], ref_sample[1], c='m', s=2 * markersize)
+    plt.autoscale(tight=True)
+    plt.xlabel(xlabel)
+    plt.ylabel(ylabel)
     if save:
-        plt.autoscale(tight=True)
-        plt.xlabel(xlabel)
-        plt.ylabel(ylabel)
         if "." not in filename:
             full_filename = filename + file_extension
         else:
-- 
2.43.0


From 648bcafc4da83e5f6afce52cbf97557018a24f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:17 +0000
Subject: [PATCH 74/91] fix: plots are saved with the given extension in
 folders with dots in their names

---
 bet/postProcess/plotDomains.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index cc47636..94c9c82 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -119,7 +119,7 @@ def scatter_2D(sample_obj, sample_nos=None, color=None, ref_sample=None,
     plt.xlabel(xlabel)
     plt.ylabel(ylabel)
     if save:
-        if "." not in filename:
+        if "." not in os.path.basename(filename):
             full_filename = filename + file_extension
         else:
             full_filename = filename
@@ -325,7 +325,7 @@ def scatter_3D(sample_obj, sample_nos=None, color=None, ref_sample=None,
     ax.set_ylabel(ylabel)
     ax.set_zlabel(zlabel)
     if save:
-        if "." not in filename:
+        if "." not in os.path.basename(filename):
             full_filename = filename + file_extension
         else:
             full_filename = filename
@@ -787,12 +787,12 @@ def show_data_domain_2D(sample_disc, Q_ref=None, ref_markers=None,
     plt.xlabel(xlabel)
     plt.ylabel(ylabel)
 
-    if "." not in filenames[0]:
+    if "." not in os.path.basename(filenames[0]):
         full_filenames0 = filenames[0] + file_extension
     else:
         full_filenames0 = filenames[0]
 
-    if "." not in filenames[1]:
+    if "." not in os.path.basename(filenames[1]):
         full_filenames1 = filenames[1] + file_extension
     else:
         full_filenames1 = filenames[1]
-- 
2.43.0


From c88baedf427a4cf66a5cc4507ba3d62cda54569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:29 +0000
Subject: [PATCH 75/91] fix: data domain plots are saved in the given folder

---
 bet/postProcess/plotDomains.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index 94c9c82..df6db6b 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -640,6 +640,7 @@ def show_data_domain_multi(sample_disc, Q_ref=None, Q_nums=None,
     # Create a folder for these figures if it doesn't already exist
     if not os.path.isdir(img_folder):
         os.mkdir(img_folder)
+    img_folder = os.path.join(img_folder, '')
 
     # Make sure the shape of Q_ref is correct
     if Q_ref is not None:
-- 
2.43.0


From 04573d97ee92a1064da4f7dec32813324e828d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:29 +0000
Subject: [PATCH 76/91] fix: data domain plots are only saved on request

---
 bet/postProcess/plotDomains.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index df6db6b..fa33f06 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -798,8 +798,9 @@ def show_data_domain_2D(sample_disc, Q_ref=None, ref_markers=None,
     else:
         full_filenames1 = filenames[1]
 
-    plt.savefig(full_filenames0, bbox_inches='tight', transparent=True,
-                pad_inches=.2)
+    if save:
+        plt.savefig(full_filenames0, bbox_inches='tight', transparent=True,
+                    pad_inches=.2)
     # Add truth markers
     if Q_ref is not None:
         for i in range(Q_ref.shape[0]):
-- 
2.43.0


From b09613803cea442f39be5620053f353ab0720d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:29 +0000
Subject: [PATCH 77/91] fix: marginal densities are plotted at the centers of
 their bins

---
 bet/postProcess/plotP.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bet/postProcess/plotP.py b/bet/postProcess/plotP.py
index 75cbd11..ba4fd6a 100644
--- a/bet/postProcess/plotP.py
+++ b/bet/postProcess/plotP.py
@@ -219,8 +219,7 @@ def plot_1D_marginal_probs(marginals, bins, sample_set,
     if comm.rank == 0:
         index = sorted(copy.deepcopy(list(marginals.keys())))
         for i in index:
-            x_range = np.linspace(lam_domain[i, 0], lam_domain[i, 1],
-                                  len(bins[i]) - 1)
+            x_range = bins[i][:-1] + np.diff(bins[i]) / 2
             fig = plt.figure()
             ax = fig.add_subplot(111)
             ax.plot(x_range, marginals[i] / (bins[i][1] - bins[i][0]))
-- 
2.43.0


From 7604ea6e5c6474c9b4202f84686e4b4a15d45451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:29 +0000
Subject: [PATCH 78/91] fix: marginal surface plots work with current
 matplotlib versions

---
 bet/postProcess/plotP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/postProcess/plotP.py b/bet/postProcess/plotP.py
index ba4fd6a..c3f220d 100644
--- a/bet/postProcess/plotP.py
+++ b/bet/postProcess/plotP.py
@@ -338,7 +338,7 @@ def plot_2D_marginal_probs(marginals, bins, sample_set,
         if plot_surface:
             for k, (i, j) in enumerate(pairs):
                 fig = plt.figure()
-                ax = fig.gca(projection='3d')
+                ax = fig.add_subplot(111, projection='3d')
                 X = bins[i][:-1] + np.diff(bins[i]) / 2
                 Y = bins[j][:-1] + np.diff(bins[j]) / 2
                 X, Y = np.meshgrid(X, Y, indexing='ij')
-- 
2.43.0


From 327c0333402cdeffb48a539d6b80adff4c14f038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:29 +0000
Subject: [PATCH 79/91] fix: marginal density plots are saved before their
 window is closed

---
 bet/postProcess/plotP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/postProcess/plotP.py b/bet/postProcess/plotP.py
index c3f220d..4e9ce27 100644
--- a/bet/postProcess/plotP.py
+++ b/bet/postProcess/plotP.py
@@ -660,7 +660,7 @@ def plot_1d_marginal_densities(sets, i, interval=None, num_points=1000, label=No
     if type(title) is str:
         plt.title(title)
     plt.legend(fontsize=16)
-    if interactive:
-        plt.show()
     if savefile is not None:
         plt.savefig(savefile)
+    if interactive:
+        plt.show()
-- 
2.43.0


From 7d215fe947bc08d3d906576ab498724c6b5199d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:05 +0000
Subject: [PATCH 80/91] fix: cells of 2D Voronoi plots cover the domain

---
 bet/postProcess/plotVoronoi.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bet/postProcess/plotVoronoi.py b/bet/postProcess/plotVoronoi.py
index 146df0c..90f7893 100644
--- a/bet/postProcess/plotVoronoi.py
+++ b/bet/postProcess/plotVoronoi.py
@@ -181,9 +181,15 @@ def plot_2D_voronoi(sample_set, density=True, colormap_type='BuGn',
 
     # Form Voronoi
     if comm.rank == 0:
-        vor = Voronoi(sample_obj._values)
-        regions, vertices = voronoi_finite_polygons_2d(vor)
         points = sample_obj._values
+        # distant points bound the cells far away from the domain
+        corners = np.vstack((points, np.transpose(sample_obj._domain)))
+        far_points = np.mean(corners, axis=0) + 1.0E3 * \
+            np.max(np.ptp(corners, axis=0)) * \
+            np.array([[-1., 0.], [1., 0.], [0., -1.], [0., 1.]])
+        vor = Voronoi(np.vstack((points, far_points)))
+        regions, vertices = voronoi_finite_polygons_2d(vor)
+        regions = regions[:len(points)]
 
         # Make plot
         fig = plt.figure(constrained_layout=True)
-- 
2.43.0


From c920efc713c4be4208f3f78a17bac2086080716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:30 +0000
Subject: [PATCH 81/91] fix: estimate_local_volume handles cells with zero
 radius

---
 bet/sample.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index ff0e3d4..3864ff5 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1760,10 +1760,11 @@ class voronoi_sample_set(sample_set_base):
             # Calculate the pairwise distances
             if not np.isinf(self._p_norm):
                 pairwise_distance = spatial.distance.pdist(samples,
+                                                           'minkowski',
                                                            p=self._p_norm)
             else:
                 pairwise_distance = spatial.distance.pdist(samples,
-                                                           p='chebyshev')
+                                                           'chebyshev')
             pairwise_distance = spatial.distance.squareform(pairwise_distance)
             pairwise_distance_ma = np.ma.masked_less_equal(pairwise_distance,
                                                            0.)
-- 
2.43.0


From 23963be432a72d9869d23db7805b20af8b703d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:30 +0000
Subject: [PATCH 82/91] fix: check_inputs takes the reference value of a
 discretization from its output set

---
 bet/calculateP/simpleFunP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/calculateP/simpleFunP.py b/bet/calculateP/simpleFunP.py
index 4922900..92e9aa8 100644
--- a/bet/calculateP/simpleFunP.py
+++ b/bet/calculateP/simpleFunP.py
@@ -82,7 +82,7 @@ def check_inputs(data_set, Q_ref):
                 raise wrong_argument_type("Missing reference value.")
             else:
                 logging.info("Using reference value from output sample set.")
-                Q_ref = data_set._reference_value
+                Q_ref = data_set._output_sample_set._reference_value
     elif isinstance(data_set, np.ndarray):
         num = data_set.shape[0]
         dim = data_set.shape[1]
-- 
2.43.0


From af9ee542e64bce436d6b0548c871ec09ac461fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:41 +0000
Subject: [PATCH 83/91] fix: integrated marginal distances 'norm' and 'mink'
 are norms of the difference

---
 bet/postProcess/compareP.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index 9a5a8ed..f8aa0e0 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -328,15 +328,10 @@ class compare:
             def error(x):
                 return np.abs(pdf1(x, i) - pdf2(x, i))
             return 0.5 * quadrature(error, interval[0], interval[1], **kwargs)[0]
-        elif functional in ['euclidean', '2-norm', '2']:
+        elif functional in ['euclidean', '2-norm', '2', 'norm', 'mink', 'minkowski']:
             def error(x):
                 return (pdf1(x, i) - pdf2(x, i))**2
             return (quadrature(error, interval[0], interval[1], **kwargs)[0])**0.5
-        elif functional in ['norm']:
-            def error(x):
-                return pdf1(x, i) - pdf2(x, i)
-
-            return quadrature(error, interval[0], interval[1], **kwargs)[0]
         elif functional in ['sqhell', 'sqhellinger']:
             def error(x):
                 return 0.5 * (np.sqrt(pdf1(x, i)) - np.sqrt(pdf2(x, i)))**2
-- 
2.43.0


From dd721d042b865e8e93bdced55345fc30a65559eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:10 +0000
Subject: [PATCH 84/91] fix: setting or appending values discards the outdated
 local part

---
 bet/postProcess/plotP.py | 4 ++++
 bet/sample.py            | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/bet/postProcess/plotP.py b/bet/postProcess/plotP.py
index 4e9ce27..ab74cde 100644
--- a/bet/postProcess/plotP.py
+++ b/bet/postProcess/plotP.py
@@ -74,6 +74,8 @@ def calculate_1D_marginal_probs(sample_set, nbins=20):
             raise missing_attribute("Missing probabilities")
         else:
             sample_obj.global_to_local()
+    if sample_obj._values_local is None:
+        sample_obj.global_to_local()
 
     # Make list of bins if only an integer is given
     if isinstance(nbins, int):
@@ -139,6 +141,8 @@ def calculate_2D_marginal_probs(sample_set, nbins=20):
             raise missing_attribute("Missing probabilities")
         else:
             sample_obj.global_to_local()
+    if sample_obj._values_local is None:
+        sample_obj.global_to_local()
 
     if sample_obj.get_dim() < 2:
         raise dim_not_matching("Incompatible dimensions of sample set"
diff --git a/bet/sample.py b/bet/sample.py
index 3864ff5..b144292 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -703,6 +703,7 @@ class sample_set_base(object):
         """
         self._values = np.concatenate((self._values,
                                        util.fix_dimensions_data(values, self._dim)), 0)
+        self._values_local = None
         self._reset_derived()
 
     def append_values_local(self, values_local):
@@ -743,7 +744,8 @@ class sample_set_base(object):
             weights = getattr(sset, weights_name)
             if weights is not None:
                 setattr(sset, weights_name, weights[0:cnum])
-        if sset._values_local is not None:
+        if any(getattr(sset, array_name + "_local") is not None
+               for array_name in self.array_names):
             sset.global_to_local()
         sset._reset_derived()
         if np.all(np.isfinite(sset._values)):
@@ -850,6 +852,7 @@ class sample_set_base(object):
 
         """
         self._values = util.fix_dimensions_data(values, self._dim)
+        self._values_local = None
         self._reset_derived()
         if self._values.shape[1] != self._dim:
             raise dim_not_matching("dimension of values incorrect")
-- 
2.43.0


From 4a076cb3281b9f14988c6bf67249149f5a0f9b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:33 +0000
Subject: [PATCH 85/91] fix: setting per-sample data discards its outdated
 local part

---
 bet/sample.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index b144292..6a76648 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -609,6 +609,7 @@ class sample_set_base(object):
         :type values: :class:`numpy.ndarray` of shape (some_num, dim)
         """
         self._region = region
+        self._region_local = None
 
     def get_region(self):
         """
@@ -639,6 +640,7 @@ class sample_set_base(object):
         :type error_id: :class:`numpy.ndarray` of shape (some_num, dim)
         """
         self._error_id = error_id
+        self._error_id_local = None
 
     def get_error_id(self):
         """
@@ -899,6 +901,7 @@ class sample_set_base(object):
 
         """
         self._volumes = volumes
+        self._volumes_local = None
 
     def get_volumes(self):
         """
@@ -919,6 +922,7 @@ class sample_set_base(object):
 
         """
         self._probabilities = probabilities
+        self._probabilities_local = None
 
     def get_probabilities(self):
         """
@@ -949,6 +953,7 @@ class sample_set_base(object):
             probs = self._probabilities
             vols = self._volumes * total_vol
             self._densities = probs / vols
+        self._densities_local = None
 
     def get_densities(self):
         """
@@ -1050,6 +1055,7 @@ class sample_set_base(object):
 
         """
         self._jacobians = jacobians
+        self._jacobians_local = None
 
     def get_jacobians(self):
         """
@@ -1077,6 +1083,7 @@ class sample_set_base(object):
         """
         self._jacobians = np.concatenate((self._jacobians, new_jacobians),
                                          axis=0)
+        self._jacobians_local = None
 
     def set_error_estimates(self, error_estimates):
         """
@@ -1087,6 +1094,7 @@ class sample_set_base(object):
 
         """
         self._error_estimates = error_estimates
+        self._error_estimates_local = None
 
     def get_error_estimates(self):
         """
@@ -1113,6 +1121,7 @@ class sample_set_base(object):
         """
         self._error_estimates = np.concatenate((self._error_estimates,
                                                 new_error_estimates), axis=0)
+        self._error_estimates_local = None
 
     def set_values_local(self, values_local):
         """
@@ -1831,7 +1840,7 @@ class voronoi_sample_set(sample_set_base):
         # normalize by the volume of the input_domain
         domain_vol = np.sum(self.get_volumes())
         self.set_volumes(self._volumes / domain_vol)
-        self.set_volumes_local(self._volumes_local / domain_vol)
+        self.set_volumes_local(lam_vol_local / domain_vol)
 
     def merge(self, sset):
         """
-- 
2.43.0


From d5d4306514bbba04a02a256025b8f50d5e093331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 86/91] fix: local densities refer to the volume of the domain
 like global ones

---
 bet/sample.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index 6a76648..3511d59 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1217,8 +1217,12 @@ class sample_set_base(object):
         else:
             msg = "Setting densities with probability/volume."
             logging.warning(msg)
+            if self._domain is None:
+                total_vol = 1.0
+            else:
+                total_vol = np.product(self._domain[:, 1] - self._domain[:, 0])
             probs = self._probabilities_local
-            vols = self._volumes_local
+            vols = self._volumes_local * total_vol
             self._densities_local = probs / vols
 
     def get_densities_local(self):
-- 
2.43.0


From b70a7aca6a326661eebb74a75488655163be9c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:06 +0000
Subject: [PATCH 87/91] fix: estimate_local_volume does not reuse radii and
 bounds of earlier samples

---
 bet/sample.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bet/sample.py b/bet/sample.py
index 3511d59..eb615dc 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -706,6 +706,8 @@ class sample_set_base(object):
         self._values = np.concatenate((self._values,
                                        util.fix_dimensions_data(values, self._dim)), 0)
         self._values_local = None
+        self._normalized_radii = None
+        self._normalized_radii_local = None
         self._reset_derived()
 
     def append_values_local(self, values_local):
@@ -855,6 +857,8 @@ class sample_set_base(object):
         """
         self._values = util.fix_dimensions_data(values, self._dim)
         self._values_local = None
+        self._normalized_radii = None
+        self._normalized_radii_local = None
         self._reset_derived()
         if self._values.shape[1] != self._dim:
             raise dim_not_matching("dimension of values incorrect")
@@ -1755,6 +1759,9 @@ class voronoi_sample_set(sample_set_base):
         self.update_bounds()
         samples = samples - self._left
         samples = samples / self._width
+        self._left = None
+        self._right = None
+        self._width = None
         num_emulate_local = int(num_emulate_local)
         max_num_emulate = int(max_num_emulate)
         kdtree = spatial.KDTree(samples)
@@ -1772,6 +1779,9 @@ class voronoi_sample_set(sample_set_base):
             num_mc_points = np.max([1e4, samples.shape[0] * 20])
             self.estimate_radii(n_mc_points=int(num_mc_points))
             sample_radii = 1.5 * np.copy(self._normalized_radii)
+            # these radii are estimates for the current samples only
+            self._normalized_radii = None
+            self._normalized_radii_local = None
         if np.sum(sample_radii <= 0) > 0:
             # Calculate the pairwise distances
             if not np.isinf(self._p_norm):
-- 
2.43.0


From 3919b1af8a356b5a8052983723a13e93f496f962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:53 +0000
Subject: [PATCH 88/91] fix: skewness of sets with a zero gradient is infinite
 for gradients of any scale

---
 bet/sensitivity/chooseQoIs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bet/sensitivity/chooseQoIs.py b/bet/sensitivity/chooseQoIs.py
index e51ef74..f2b9ed9 100644
--- a/bet/sensitivity/chooseQoIs.py
+++ b/bet/sensitivity/chooseQoIs.py
@@ -138,6 +138,10 @@ def calculate_avg_skewness(input_set, qoi_set=None):
     # to begin with, so skewness is infinity.
     skewgi[normgiperp == np.inf] = np.inf
 
+    # A zero gradient vector is not GD from the others, even if rounding errors
+    # in the singular values hide this.
+    skewgi[normgi == 0] = np.inf
+
     # The local skewness is the max skewness of each vector relative the rest
     skewG = np.max(skewgi, axis=1)
     skewG[np.isnan(skewG)] = np.inf
-- 
2.43.0


From 7e0889a9653cbc47e099f803b80a8faedf4cfa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:45 +0000
Subject: [PATCH 89/91] fix: normal partitions work for standard deviations of
 different magnitudes

---
 bet/calculateP/simpleFunP.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bet/calculateP/simpleFunP.py b/bet/calculateP/simpleFunP.py
index 92e9aa8..c1b949b 100644
--- a/bet/calculateP/simpleFunP.py
+++ b/bet/calculateP/simpleFunP.py
@@ -594,8 +594,6 @@ def normal_partition_normal_distribution(data_set, Q_ref=None, std=1, M=1,
     Q_ref = check_type(Q_ref, data_set)
     std = check_type(std, data_set)
 
-    covariance = std ** 2
-
     d_distr_samples = np.zeros((M, len(Q_ref)))
     logging.info("d_distr_samples.shape " + str(d_distr_samples.shape))
     logging.info("Q_ref.shape " + str(Q_ref.shape))
@@ -631,8 +629,9 @@ def normal_partition_normal_distribution(data_set, Q_ref=None, std=1, M=1,
     for i in range(M):
         Itemp = np.equal(k, i)
         count_neighbors[i] = np.sum(Itemp)
-        volumes[i] = np.sum(1.0 / stats.multivariate_normal.pdf
-                            (d_distr_emulate[Itemp, :], Q_ref, covariance))
+        # the components are independent
+        volumes[i] = np.sum(1.0 / np.prod(stats.norm.pdf(
+            d_distr_emulate[Itemp, :], Q_ref, std), axis=1))
     # Now define probability of the d_distr_samples
     # This together with d_distr_samples defines :math:`\rho_{\mathcal{D},M}`
     ccount_neighbors = np.copy(count_neighbors)
-- 
2.43.0


From d6b1d3132304bffc9805bffcd579804675aa0b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:35 +0000
Subject: [PATCH 90/91] fix: sampling error bounds of contour events do not
 depend on earlier region computations

---
 bet/calculateP/calculateError.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index d5c3886..99ff721 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -320,12 +320,12 @@ class sampling_error(object):
                 E = float(sum1) / float(sum2)
 
                 in_B_N = np.zeros(in_A.shape, dtype=np.bool)
-                for j in self.B_N[i]:
+                for j in self.B_N.get(i, []):
                     in_B_N = np.logical_or(np.equal(disc.
                                                     _emulated_ii_ptr_local, j), in_B_N)
 
                 in_C_N = np.zeros(in_A.shape, dtype=np.bool)
-                for j in self.C_N[i]:
+                for j in self.C_N.get(i, []):
                     in_C_N = np.logical_or(np.equal(disc.
                                                     _emulated_ii_ptr_local, j), in_C_N)
                 # sum3 :math:`\mu_{\Lambda}(A \cap B_N)`
-- 
2.43.0


From f2b0f7f66e72179da6a945a21cd4ed08cc1b1227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:35 +0000
Subject: [PATCH 91/91] fix: distances between measures follow changes of the
 measures

---
 bet/postProcess/compareP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index f8aa0e0..d29c779 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -158,8 +158,8 @@ class compare:
         # Check inputs
         if self.compare_vals is None:
             raise samp.wrong_input("Compare set needed.")
-        if self.pdfs1 is None or self.pdfs2 is None:
-            self.evaluate_pdfs()
+        # the measures may have changed since the last evaluation
+        self.evaluate_pdfs()
         pdfs1, pdfs2 = self.pdfs1, self.pdfs2
         if normalize:
             pdfs1 = pdfs1 / np.sum(pdfs1)
-- 
2.43.0

