From 3ea66676901c84f37b308368f58f664488af3481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:33 +0000
Subject: [PATCH 01/58] fix: report the unknown output name when a stokes
 conversion target is invalid

---
 africanus/model/coherency/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/model/coherency/conversion.py b/africanus/model/coherency/conversion.py
index c9ee34b..5e834e9 100644
--- a/africanus/model/coherency/conversion.py
+++ b/africanus/model/coherency/conversion.py
@@ -112,7 +112,7 @@ def convert_setup(input, input_schema, output_schema):
             deps = stokes_conv[okey]
         except KeyError:
             raise ValueError("Unknown output '%s'. Known types '%s'"
-                             % (deps, STOKES_TYPES))
+                             % (okey, STOKES_TYPES))
 
         found_conv = False
 
-- 
2.43.0


From eb1bfe653dcca2fe03f996bbd7591619cfb15cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:31 +0000
Subject: [PATCH 02/58] fix: rotate both source coordinates from the unrotated
 l and m in transform_sources

---
 africanus/rime/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/rime/transform.py b/africanus/rime/transform.py
index eed0e55..0eeb619 100644
--- a/africanus/rime/transform.py
+++ b/africanus/rime/transform.py
@@ -27,8 +27,8 @@ def _nb_transform_sources(lm, parallactic_angles, pointing_errors,
                 l, m = lm[s]
 
                 # Rotate source coordinate by parallactic angle
-                l = l*pa_cos - m*pa_sin  # noqa
-                m = l*pa_sin + m*pa_cos
+                l, m = (l*pa_cos - m*pa_sin,  # noqa
+                        l*pa_sin + m*pa_cos)
 
                 # Add pointing errors
                 l += pointing_errors[t, a, 0]  # noqa
-- 
2.43.0


From 67b9e8f4335cd9c25462147d47d579aa1a984349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:09 +0000
Subject: [PATCH 03/58] fix: include the base visibilities when inferring the
 dask predict_vis dtype

---
 africanus/rime/dask_predict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/africanus/rime/dask_predict.py b/africanus/rime/dask_predict.py
index 98e56e3..f8f5f30 100644
--- a/africanus/rime/dask_predict.py
+++ b/africanus/rime/dask_predict.py
@@ -403,7 +403,8 @@ def predict_vis(time_index, antenna1, antenna2,
                              (time_index.chunks[0], die1_jones.chunks[1]))
 
     # Infer the output dtype
-    dtype_arrays = [dde1_jones, source_coh, dde2_jones, die1_jones, die2_jones]
+    dtype_arrays = [dde1_jones, source_coh, dde2_jones,
+                    die1_jones, base_vis, die2_jones]
     out_dtype = np.result_type(*(np.dtype(a.dtype.name)
                                  for a in dtype_arrays
                                  if a is not None))
-- 
2.43.0


From e8ce7c2655e655018bb9043dc96f96c6ee02395a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:47 +0000
Subject: [PATCH 04/58] fix: do not overflow 8-bit dimensions in kron_tensorvec

---
 africanus/linalg/kronecker_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/linalg/kronecker_tools.py b/africanus/linalg/kronecker_tools.py
index 811d75a..235ab38 100644
--- a/africanus/linalg/kronecker_tools.py
+++ b/africanus/linalg/kronecker_tools.py
@@ -81,8 +81,8 @@ def kron_tensorvec(A, b):
     """
     D = A.shape[0]
     # get shape of sub-matrices
-    G = np.zeros(D, dtype=np.int8)
-    M = np.zeros(D, dtype=np.int8)
+    G = np.zeros(D, dtype=np.int64)
+    M = np.zeros(D, dtype=np.int64)
     for d in range(D):
         M[d], G[d] = A[d].shape
     x = b
-- 
2.43.0


From 683491944c95600da018de7d5f4c706c2bbfb768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:47 +0000
Subject: [PATCH 05/58] fix: keep complex and single precision types in
 kronecker matrix products

---
 africanus/linalg/kronecker_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/linalg/kronecker_tools.py b/africanus/linalg/kronecker_tools.py
index 235ab38..d8bdec9 100644
--- a/africanus/linalg/kronecker_tools.py
+++ b/africanus/linalg/kronecker_tools.py
@@ -119,7 +119,7 @@ def kron_matmat(A, B):
     M = B.shape[1]  # the product of Np_1 x Np_2 x ... x Np_3
 
     N = kron_N(A)
-    C = np.zeros([N, M])
+    C = np.zeros([N, M], dtype=np.result_type(B, *A))
     for i in range(M):
         C[:, i] = kron_matvec(A, B[:, i])
     return C
@@ -148,7 +148,7 @@ def kron_tensormat(A, B):
     M = B.shape[1]  # the product of Np_1 x Np_2 x ... x Np_3
 
     N = kron_N(A)
-    C = np.zeros([N, M])
+    C = np.zeros([N, M], dtype=np.result_type(B, *A))
     for i in range(M):
         C[:, i] = kron_tensorvec(A, B[:, i])
     return C
-- 
2.43.0


From 665d1816ac2a0563e419299b92ac0d6c8e45099b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:54 +0000
Subject: [PATCH 06/58] fix: run at most niter hogbom iterations

---
 africanus/deconv/hogbom/clean.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/africanus/deconv/hogbom/clean.py b/africanus/deconv/hogbom/clean.py
index eaf2ec8..8591186 100644
--- a/africanus/deconv/hogbom/clean.py
+++ b/africanus/deconv/hogbom/clean.py
@@ -172,7 +172,7 @@ def hogbom_clean(dirty, psf,
     # CLEAN the image
     i = 0
 
-    while np.abs(intensity) > threshold and i <= niter:
+    while np.abs(intensity) > threshold and i < niter:
         logging.info("min %f max %f peak %f threshold %f" %
                      (residuals.min(), residuals.max(), intensity, threshold))
 
@@ -184,9 +184,9 @@ def hogbom_clean(dirty, psf,
         p, q, _, _, intensity = find_peak(residuals)
         # Increment counter
         i += 1
-        # Warn if niter exceeded
-        if i > niter:
-            logging.warn("Number of iterations exceeded")
+        # Warn if niter reached
+        if i >= niter:
+            logging.warn("Number of iterations reached its maximum")
             logging.warn("Minimum residuals = %s", residuals.max())
 
     logging.info("Done cleaning after %d iterations.", i)
-- 
2.43.0


From cca44f305c401a6635cdee4adff518d2be09cd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:58 +0000
Subject: [PATCH 07/58] fix: normalise every separating axis in the hull
 overlap test

---
 africanus/linalg/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index 934e735..133f0ab 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -420,7 +420,7 @@ class BoundingConvexHull(object):
         # get the projection axes
         normals = np.vstack([self.lnormals, other.lnormals])
         norms = np.linalg.norm(normals, axis=1)
-        normals = normals / norms[None, 2]
+        normals = normals / norms[:, None]
 
         # compute vectors to corners from origin
         vecs_reg1 = self.corners
-- 
2.43.0


From a681757a54e3b848d873f7fd6d3e2ff62af71008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:58 +0000
Subject: [PATCH 08/58] fix: compare regions against the matching image axes in
 regional_data

---
 africanus/linalg/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index 133f0ab..ba28b2a 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -198,8 +198,8 @@ class BoundingConvexHull(object):
         pad_top = max(0, maxy - data_cube.shape[axes[0]] + 1)
 
         if (
-            minx > data_cube.shape[axes[0]]
-            or miny > data_cube.shape[axes[1]]
+            minx >= data_cube.shape[axes[1]]
+            or miny >= data_cube.shape[axes[0]]
             or maxy < 0
             or maxx < 0
         ):
-- 
2.43.0


From 2ed0e250d1f4bda611cd8ff276af3d20b2ed5f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:18 +0000
Subject: [PATCH 09/58] fix: set masked and out of bounds pixels to oob_value
 in regional_data

---
 africanus/linalg/geometry.py | 45 ++++++++----------------------------
 1 file changed, 9 insertions(+), 36 deletions(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index ba28b2a..e05015c 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -231,43 +231,16 @@ class BoundingConvexHull(object):
         new_shape[axes[0]] = maxy - miny + 1
         new_shape[axes[1]] = maxx - minx + 1
 
-        if any(np.array([pad_left, pad_bottom, pad_right, pad_top]) > 0):
-            padded_data = (
-                np.zeros(tuple(new_shape), dtype=selected_data.dtype)
-                * oob_value
-            )
-            padded_data[tuple(slc_padded)] = selected_data.copy()
-        else:
-            padded_data = selected_data.copy()
+        # finally apply mask, mask starts at origin in the padded image
+        slc_mask = [None] * len(data_cube.shape)
+        for axis in axes:
+            slc_mask[axis] = slice(None)
+        mask = sel_region.mask[tuple(slc_mask)][tuple(slc_padded)]
+        padded_data = np.full(tuple(new_shape), oob_value,
+                              dtype=selected_data.dtype)
+        padded_data[tuple(slc_padded)] = np.where(
+            mask == 0, oob_value, selected_data * mask)
 
-        # finally apply mask
-        slc_padded_data = [slice(None)] * len(padded_data.shape)
-        for (start, end), axis in zip(
-            [
-                (
-                    0,
-                    maxy - miny + 1,
-                ),  # mask starts at origin in the padded image
-                (0, maxx - minx + 1),
-            ],
-            axes,
-        ):
-            slc_padded_data[axis] = slice(start, end)
-        slc_mask = [None] * len(padded_data.shape)
-        for (start, end), axis in zip(
-            [
-                (
-                    0,
-                    sel_region.mask.shape[0],
-                ),  # mask starts at origin in the padded image
-                (0, sel_region.mask.shape[1]),
-            ],
-            axes,
-        ):
-            slc_mask[axis] = slice(start, end)
-        mask = sel_region.mask.copy()
-        mask[mask == 0] = oob_value
-        padded_data[tuple(slc_padded_data)] *= mask[tuple(slc_mask)]
         window_extents = [minx, maxx, miny, maxy]
         return padded_data, window_extents
 
-- 
2.43.0


From 783cb9de5db67b7de019bf1249bd43a133245f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:18 +0000
Subject: [PATCH 10/58] fix: tell pixels with negative coordinates apart when
 normalizing masks

---
 africanus/linalg/geometry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index e05015c..f41f792 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -269,9 +269,10 @@ class BoundingConvexHull(object):
 
         # flatten for faster comparisons
         allmasks = np.array(allmasks)
+        minx = np.min(allmasks[:, 1])
         maxx = np.max(allmasks[:, 1])
-        nx = maxx + 1
-        allmasks_flatten = allmasks[:, 0] * nx + allmasks[:, 1]
+        nx = maxx - minx + 1
+        allmasks_flatten = allmasks[:, 0] * nx + allmasks[:, 1] - minx
 
         # now count the number of times a pixel is painted onto
         unique_pxls_flatten, paint_count = np.unique(
@@ -286,7 +287,7 @@ class BoundingConvexHull(object):
 
         # with the reduced number of overlap pixels unflatten
         unique_pxls = np.vstack(
-            [unique_pxls_flatten // nx, unique_pxls_flatten % nx]
+            [unique_pxls_flatten // nx, unique_pxls_flatten % nx + minx]
         ).T
         unique_pxls = list(map(tuple, unique_pxls))
         paint_count[...] = 1.0 / paint_count
-- 
2.43.0


From 8b9e613157e571c37d8912eecc31e73d251b850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:19 +0000
Subject: [PATCH 11/58] fix: do not use the removed np.float alias in
 normalize_masks

---
 africanus/linalg/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index f41f792..ebd1d5f 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -278,7 +278,7 @@ class BoundingConvexHull(object):
         unique_pxls_flatten, paint_count = np.unique(
             allmasks_flatten, return_counts=True
         )
-        paint_count = paint_count.astype(np.float)
+        paint_count = paint_count.astype(np.float64)
 
         if only_overlapped_regions:
             sel = paint_count > 1
-- 
2.43.0


From 7efbc619f258504c561506cb64f8839129654c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:19 +0000
Subject: [PATCH 12/58] fix: do not serve a stale filled mask after the sparse
 mask is set

---
 africanus/linalg/geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index ebd1d5f..98f005d 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -124,6 +124,7 @@ class BoundingConvexHull(object):
             )
         ):
             raise TypeError("Mask must be a sparse mask of 2 element values")
+        self._cached_filled_mask = None  # invalidate
         if self._check_mask_outofbounds:
             self._mask = copy.deepcopy(
                 [c for c in mask if (c[1], c[0]) in self]
@@ -525,8 +526,10 @@ class BoundingBox(BoundingConvexHull):
             )
         ):
             raise TypeError("Mask must be a sparse mask of 2 element values")
+        self._cached_filled_mask = None  # invalidate
         if len(mask) == 0:
             self._mask = []
+            self._mask_weights = np.ones(0)
         else:
             lines = np.hstack(
                 [self.corners, np.roll(self.corners, -1, axis=0)])
-- 
2.43.0


From 232ab63bc63c0cf217316a59b1ee1e4020bea345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:19 +0000
Subject: [PATCH 13/58] fix: make square bounding boxes contain the hull

---
 africanus/linalg/geometry.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index 98f005d..1bbce6b 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -649,12 +649,10 @@ class BoundingBoxFactory(object):
                 + 1
             )  # inclusive
             boxdiam = max(nx, ny)
-            boxrad = boxdiam // 2
-            cx, cy = convex_hull_object.centre
-            xl = cx - boxrad
-            xu = cx + boxdiam - boxrad - 1
-            yl = cy - boxrad
-            yu = cy + boxdiam - boxrad - 1
+            xl = np.min(convex_hull_object.corners[:, 0]) - (boxdiam - nx) // 2
+            xu = xl + boxdiam - 1
+            yl = np.min(convex_hull_object.corners[:, 1]) - (boxdiam - ny) // 2
+            yu = yl + boxdiam - 1
         else:
             xl = np.min(convex_hull_object.corners[:, 0])
             xu = np.max(convex_hull_object.corners[:, 0])
-- 
2.43.0


From 41f905608ec10d702f8176e1febcd9e8b65d0fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:23 +0000
Subject: [PATCH 14/58] fix: raise proper exceptions for unsupported power
 spectra

---
 africanus/gps/kernels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/africanus/gps/kernels.py b/africanus/gps/kernels.py
index 1125048..11191b8 100644
--- a/africanus/gps/kernels.py
+++ b/africanus/gps/kernels.py
@@ -33,13 +33,13 @@ def exponential_squared(x, xp, sigmaf, l, pspec=False):  # noqa: E741
     if pspec:
         N, D = x.shape
         if D != 1:
-            raise(NotImplementedError, "Only 1D pspecs supported")
+            raise NotImplementedError("Only 1D pspecs supported")
         if (x != xp).any():
-            raise(ValueError, "pspec only defined if x = xp")
+            raise ValueError("pspec only defined if x = xp")
         x = x.squeeze()
         delx = x[1] - x[0]
         if (x[1::] - x[0:-1] != delx).any():
-            raise(ValueError, "pspec only defined on regular grid")
+            raise ValueError("pspec only defined on regular grid")
         s = np.fft.fftshift(np.fft.fftfreq(N, d=delx))
         return np.sqrt(2*np.pi*l)*sigmaf**2.0*np.exp(-l**2*s**2/2.0)
     else:
-- 
2.43.0


From 64b6910a314e0a83830f2adab39c133198491426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:23 +0000
Subject: [PATCH 15/58] fix: do not emit an empty leading chunk in
 aggregate_chunks

---
 africanus/util/shapes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/africanus/util/shapes.py b/africanus/util/shapes.py
index 4566d90..9e7ea9d 100644
--- a/africanus/util/shapes.py
+++ b/africanus/util/shapes.py
@@ -51,7 +51,8 @@ def aggregate_chunks(chunks, max_chunks):
             if chunk_scratch[ci] > max_chunks[ci]:
                 aggregate = True
 
-        if aggregate:
+        # There is nothing to flush before the first chunk
+        if aggregate and di > 0:
             for ci, chunk in enumerate(chunks):
                 agg_chunks[ci].append(agg_chunk_counts[ci])
                 agg_chunk_counts[ci] = chunk[di]
-- 
2.43.0


From b3cfda3997103836487343df05c857d022805495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:21 +0000
Subject: [PATCH 16/58] fix: spectral_model accepts its default base

---
 africanus/model/spectral/spec_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/africanus/model/spectral/spec_model.py b/africanus/model/spectral/spec_model.py
index 07e7454..4e4fc5d 100644
--- a/africanus/model/spectral/spec_model.py
+++ b/africanus/model/spectral/spec_model.py
@@ -1,7 +1,7 @@
 # -*- coding: utf-8 -*-
 
 
-from numba import types
+from numba import types, typeof
 import numpy as np
 
 from africanus.util.numba import generated_jit, njit
@@ -99,6 +99,10 @@ def spectral_model(stokes, spi, ref_freq, frequency, base=0):
                        in (stokes, spi, ref_freq, frequency))
     dtype = np.result_type(*arg_dtypes)
 
+    # A default argument is typed as omitted
+    if isinstance(base, types.misc.Omitted):
+        base = typeof(base.value)
+
     if isinstance(base, types.containers.List):
         is_base_list = True
         base = base.dtype
-- 
2.43.0


From d4f724464a597d44b013f0d14acabf08b971aa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:21 +0000
Subject: [PATCH 17/58] fix: dask spectral_model infers the dtype of its result

---
 africanus/model/spectral/dask.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/africanus/model/spectral/dask.py b/africanus/model/spectral/dask.py
index 080f36a..8f3215b 100644
--- a/africanus/model/spectral/dask.py
+++ b/africanus/model/spectral/dask.py
@@ -6,6 +6,8 @@ from africanus.model.spectral.spec_model import (
                                         SPECTRAL_MODEL_DOC)
 from africanus.util.requirements import requires_optional
 
+import numpy as np
+
 try:
     import dask.array as da
 except ImportError as e:
@@ -31,7 +33,8 @@ def spectral_model(stokes, spi, ref_freq, frequencies, base=0):
                         ref_freq, ("source",),
                         frequencies, ("chan",),
                         base=base,
-                        dtype=stokes.dtype)
+                        dtype=np.result_type(stokes, spi,
+                                             ref_freq, frequencies))
 
 
 try:
-- 
2.43.0


From 3362feac0ef539402f37902d2ed3a752a252fe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:55 +0000
Subject: [PATCH 18/58] fix: dask spectral_model applies each base to its own
 polarisation

---
 africanus/model/spectral/dask.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/africanus/model/spectral/dask.py b/africanus/model/spectral/dask.py
index 8f3215b..09ae668 100644
--- a/africanus/model/spectral/dask.py
+++ b/africanus/model/spectral/dask.py
@@ -25,6 +25,11 @@ def spectral_model(stokes, spi, ref_freq, frequencies, base=0):
     if len(spi.chunks[1]) != 1:
         raise ValueError("Chunking along the spi dimension unsupported")
 
+    # Each block sees the full list of bases
+    if isinstance(base, list) and stokes.ndim > 1:
+        stokes = stokes.rechunk({1: stokes.shape[1]})
+        spi = spi.rechunk({2: spi.shape[2]})
+
     pol_dim = () if stokes.ndim == 1 else ("pol",)
 
     return da.blockwise(_wrapper, ("source", "chan",) + pol_dim,
-- 
2.43.0


From cac116985096c2ed12fc366c99753c7a6ceb42e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:35 +0000
Subject: [PATCH 19/58] fix: wsclean spectra accept negative log polynomial
 coefficients

---
 africanus/model/wsclean/spec_model.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/africanus/model/wsclean/spec_model.py b/africanus/model/wsclean/spec_model.py
index f213840..359360b 100644
--- a/africanus/model/wsclean/spec_model.py
+++ b/africanus/model/wsclean/spec_model.py
@@ -93,11 +93,6 @@ def spectra(I, coeffs, log_poly, ref_freq, frequency):  # noqa: E741
 
                     for c in range(ncoeffs):
                         term = coeffs[s, c]
-
-                        if term <= 0.0:
-                            raise ValueError("log polynomial coefficient "
-                                             "must be > 0")
-
                         term *= np.log(nu/rf)**(c + 1)
                         spectral_model[s, f] += term
 
-- 
2.43.0


From 09a852f2aa38e514b85f5d156351bb639a8367ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:35 +0000
Subject: [PATCH 20/58] fix: dask wsclean spectra refuse chunked coefficients

---
 africanus/model/wsclean/dask.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/africanus/model/wsclean/dask.py b/africanus/model/wsclean/dask.py
index f4c223a..0258a93 100644
--- a/africanus/model/wsclean/dask.py
+++ b/africanus/model/wsclean/dask.py
@@ -19,6 +19,9 @@ def _wrapper(stokes, spi, log_si, ref_freq, frequency):
 
 @requires_optional('dask.array', opt_import_error)
 def spectra(stokes, spi, log_si, ref_freq, frequency):
+    if len(spi.chunks[1]) != 1:
+        raise ValueError("Chunking along the spi dimension unsupported")
+
     corrs = tuple("corr-%d" % i for i in range(len(stokes.shape[1:])))
     log_si_schema = None if isinstance(log_si, bool) else ("source",)
 
-- 
2.43.0


From 9e5e5e5bbaa309d894beb6ce1f6fd48e73c1481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:35 +0000
Subject: [PATCH 21/58] fix: dask wsclean spectra infer the dtype of their
 result

---
 africanus/model/wsclean/dask.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/africanus/model/wsclean/dask.py b/africanus/model/wsclean/dask.py
index 0258a93..0e236d4 100644
--- a/africanus/model/wsclean/dask.py
+++ b/africanus/model/wsclean/dask.py
@@ -5,6 +5,8 @@ from africanus.model.wsclean.spec_model import (spectra as np_spectra,
                                                 SPECTRA_DOCS)
 from africanus.util.requirements import requires_optional
 
+import numpy as np
+
 try:
     import dask.array as da
 except ImportError as e:
@@ -31,7 +33,8 @@ def spectra(stokes, spi, log_si, ref_freq, frequency):
                         log_si, log_si_schema,
                         ref_freq, ("source",),
                         frequency, ("chan",),
-                        dtype=stokes.dtype)
+                        dtype=np.result_type(stokes, spi,
+                                             ref_freq, frequency))
 
 
 try:
-- 
2.43.0


From 71d54a743a0e646ddaea1db899e1591de8b49b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:35 +0000
Subject: [PATCH 22/58] fix: dask fit_spi_components refuses chunked channels

---
 africanus/model/spi/dask.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/africanus/model/spi/dask.py b/africanus/model/spi/dask.py
index 55bd194..f8f2981 100644
--- a/africanus/model/spi/dask.py
+++ b/africanus/model/spi/dask.py
@@ -33,6 +33,10 @@ def fit_spi_components(data, weights, freqs, freq0,
                        alphai=None, I0i=None, beam=None,
                        tol=1e-5, maxiter=100):
     """ Dask wrapper fit_spi_components function """
+    if any(len(c) != 1 for c in
+           (data.chunks[1], weights.chunks[0], freqs.chunks[0])):
+        raise ValueError("Chunking along the chan dimension unsupported")
+
     return blockwise(_fit_spi_components_wrapper, ("vars", "comps"),
                      data, ("comps", "chan"),
                      weights, ("chan",),
-- 
2.43.0


From 2b173c670d2991cca1dadf297567797c9ce631b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:20 +0000
Subject: [PATCH 23/58] fix: zernike_dde accepts coefficients without
 correlations

---
 africanus/rime/zernike.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/rime/zernike.py b/africanus/rime/zernike.py
index 0ea523a..c5882f5 100644
--- a/africanus/rime/zernike.py
+++ b/africanus/rime/zernike.py
@@ -90,7 +90,7 @@ def zernike_dde(coords, coeffs, noll_index):
     npoly = coeffs.shape[-1]
 
     # Flatten correlation dimensions for numba function
-    fcorrs = np.product(corr_shape)
+    fcorrs = int(np.product(corr_shape))
     ddes = np.empty((sources, times, ants, chans, fcorrs), coeffs.dtype)
 
     coeffs = coeffs.reshape((ants, chans, fcorrs, npoly))
-- 
2.43.0


From 7a7a49cddad8d54350b22012182203df93d984b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:20 +0000
Subject: [PATCH 24/58] fix: dask zernike_dde refuses chunked polynomials and
 components

---
 africanus/rime/dask.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/africanus/rime/dask.py b/africanus/rime/dask.py
index 6502b65..97e6128 100644
--- a/africanus/rime/dask.py
+++ b/africanus/rime/dask.py
@@ -159,6 +159,11 @@ def zernike_dde(coords, coeffs, noll_index):
     ncorrs = len(coeffs.shape[2:-1])
     corr_dims = tuple("corr-%d" % i for i in range(ncorrs))
 
+    if any(len(c) != 1 for c in
+           (coords.chunks[0], coeffs.chunks[-1], noll_index.chunks[-1])):
+        raise ValueError("Chunking along the component "
+                         "and poly dimensions unsupported")
+
     return da.core.blockwise(_zernike_wrapper,
                              ("source", "time", "ant", "chan") + corr_dims,
                              coords,
-- 
2.43.0


From a6a2f9d872acdb8cdcdf1e10836fd5cec22e40d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:21 +0000
Subject: [PATCH 25/58] fix: dask wsclean_predict refuses chunked coefficients

---
 africanus/rime/dask_predict.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/africanus/rime/dask_predict.py b/africanus/rime/dask_predict.py
index f8f5f30..f2f658b 100644
--- a/africanus/rime/dask_predict.py
+++ b/africanus/rime/dask_predict.py
@@ -470,6 +470,9 @@ def wsclean_body_wrapper(uvw, lm, source_type, gauss_shape,
 @requires_optional('dask.array', opt_import_error)
 def wsclean_predict(uvw, lm, source_type, flux, coeffs,
                     log_poly, ref_freq, gauss_shape, frequency):
+    if len(coeffs.chunks[1]) != 1:
+        raise ValueError("Chunking along the comp dimension unsupported")
+
     spectrum_dtype = np.result_type(*(a.dtype for a in (flux, coeffs,
                                                         log_poly, ref_freq,
                                                         frequency)))
-- 
2.43.0


From b27a56572740f985892aa1bf85d80aee9d843afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:21 +0000
Subject: [PATCH 26/58] fix: lm(n)_to_radec return the right ascension of
 sources beyond the pole

---
 africanus/coordinates/coordinates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/coordinates/coordinates.py b/africanus/coordinates/coordinates.py
index c2b1273..accd9a4 100644
--- a/africanus/coordinates/coordinates.py
+++ b/africanus/coordinates/coordinates.py
@@ -124,7 +124,7 @@ def lmn_to_radec(lmn, phase_centre=None):
             l, m, n = lmn[s]
 
             radec[s, 1] = np.arcsin(m*cos_pc_dec + n*sin_pc_dec)
-            radec[s, 0] = pc_ra + np.arctan(l / (n*cos_pc_dec - m*sin_pc_dec))
+            radec[s, 0] = pc_ra + np.arctan2(l, n*cos_pc_dec - m*sin_pc_dec)
 
         return radec
 
@@ -155,7 +155,7 @@ def lm_to_radec(lm, phase_centre=None):
             n = np.sqrt(1.0 - l**2 - m**2)
 
             radec[s, 1] = np.arcsin(m*cos_pc_dec + n*sin_pc_dec)
-            radec[s, 0] = pc_ra + np.arctan(l / (n*cos_pc_dec - m*sin_pc_dec))
+            radec[s, 0] = pc_ra + np.arctan2(l, n*cos_pc_dec - m*sin_pc_dec)
 
         return radec
 
-- 
2.43.0


From 9ac924a0f32614a0ee8ce7c5401a4ad35f78c735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:12 +0000
Subject: [PATCH 27/58] fix: row_mapper starts every bin at its first sample

---
 africanus/averaging/time_and_channel_mapping.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/africanus/averaging/time_and_channel_mapping.py b/africanus/averaging/time_and_channel_mapping.py
index f050141..9f76f17 100644
--- a/africanus/averaging/time_and_channel_mapping.py
+++ b/africanus/averaging/time_and_channel_mapping.py
@@ -263,6 +263,7 @@ def row_mapper(time, interval, antenna1, antenna2,
                     tbin += 1
                     bin_count = 0
                     bin_flag_count = 0
+                    bin_low = time[r] - half_int
 
                 # Record the output bin associated with the row
                 bin_lookup[bl, t] = tbin
-- 
2.43.0


From 4111532fa9476e408e3d0967983c8d5ab4b44aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:19 +0000
Subject: [PATCH 28/58] fix: averaging treats every non-zero row flag as
 flagged

---
 africanus/averaging/time_and_channel_avg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/averaging/time_and_channel_avg.py b/africanus/averaging/time_and_channel_avg.py
index 2940e47..cb90fb9 100644
--- a/africanus/averaging/time_and_channel_avg.py
+++ b/africanus/averaging/time_and_channel_avg.py
@@ -15,7 +15,7 @@ from africanus.util.numba import is_numba_type_none, generated_jit, njit
 def matching_flag_factory(present):
     if present:
         def impl(flag_row, ri, out_flag_row, ro):
-            return flag_row[ri] == out_flag_row[ro]
+            return (flag_row[ri] != 0) == (out_flag_row[ro] != 0)
     else:
         def impl(flag_row, ri, out_flag_row, ro):
             return True
-- 
2.43.0


From 1db9e5d77a29718c2250ff226eda023621dbb7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:29 +0000
Subject: [PATCH 29/58] fix: dask averaging does not use the removed np.object
 alias

---
 africanus/averaging/dask.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/africanus/averaging/dask.py b/africanus/averaging/dask.py
index 6eba313..bcb01fe 100644
--- a/africanus/averaging/dask.py
+++ b/africanus/averaging/dask.py
@@ -54,7 +54,7 @@ def chan_metadata(row_chan_arrays, chan_arrays, chan_bin_size):
               for i, c in enumerate(chan_chunks)}
     graph = HighLevelGraph.from_collections(name, layers, ())
     chunks = (chan_chunks,)
-    chan_mapper = da.Array(graph, name, chunks, dtype=np.object)
+    chan_mapper = da.Array(graph, name, chunks, dtype=object)
 
     return chan_mapper
 
@@ -70,8 +70,8 @@ def row_mapper(time, interval, antenna1, antenna2,
                         flag_row, None if flag_row is None else ("row",),
                         adjust_chunks={"row": lambda x: np.nan},
                         time_bin_secs=time_bin_secs,
-                        meta=np.empty((0,), dtype=np.object),
-                        dtype=np.object)
+                        meta=np.empty((0,), dtype=object),
+                        dtype=object)
 
 
 def _getitem_row(avg, idx, array, dims):
@@ -125,8 +125,8 @@ def row_average(row_meta, ant1, ant2, flag_row=None,
                        *(v for pair in args for v in pair[1:]),
                        align_arrays=False,
                        adjust_chunks={"row": lambda x: np.nan},
-                       meta=np.empty((0,)*len(rd), dtype=np.object),
-                       dtype=np.object)
+                       meta=np.empty((0,)*len(rd), dtype=object),
+                       dtype=object)
 
     # ant1, ant2, time_centroid, exposure, uvw, weight, sigma
     out_args = [(a, dims) for out, a, dims in args if out is True]
@@ -149,7 +149,7 @@ def _getitem_row_chan(avg, idx, dtype):
 
     graph = HighLevelGraph.from_collections(name, layers, (avg,))
     return da.Array(graph, name, avg.chunks,
-                    meta=np.empty((0,)*len(dim), dtype=np.object),
+                    meta=np.empty((0,)*len(dim), dtype=object),
                     dtype=dtype)
 
 
@@ -191,8 +191,8 @@ def row_chan_average(row_meta, chan_meta, flag_row=None, weight=None,
                        align_arrays=False,
                        adjust_chunks=adjust_chunks,
                        meta=np.empty((0,)*len(_row_chan_avg_dims),
-                                     dtype=np.object),
-                       dtype=np.object)
+                                     dtype=object),
+                       dtype=object)
 
     tuple_gets = (None if a is None else _getitem_row_chan(avg, i, a.dtype)
                   for i, a in enumerate([vis, flag,
@@ -234,8 +234,8 @@ def chan_average(chan_meta, chan_freq=None, chan_width=None,
                        effective_bw, None if effective_bw is None else cdim,
                        resolution, None if resolution is None else cdim,
                        adjust_chunks=adjust_chunks,
-                       meta=np.empty((0,), dtype=np.object),
-                       dtype=np.object)
+                       meta=np.empty((0,), dtype=object),
+                       dtype=object)
 
     tuple_gets = (None if a is None else _getitem_chan(avg, i, a.dtype)
                   for i, a in enumerate([chan_freq, chan_width,
-- 
2.43.0


From 06fc6a72efefca860a85758aef49bb91ae7978ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:29 +0000
Subject: [PATCH 30/58] fix: dask averaging works without channel arrays

---
 africanus/averaging/dask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/averaging/dask.py b/africanus/averaging/dask.py
index bcb01fe..1c6af65 100644
--- a/africanus/averaging/dask.py
+++ b/africanus/averaging/dask.py
@@ -219,7 +219,7 @@ def chan_average(chan_meta, chan_freq=None, chan_width=None,
                  effective_bw=None, resolution=None, chan_bin_size=1):
 
     if chan_meta is None:
-        return ChannelAverageOutput(None, None)
+        return ChannelAverageOutput(None, None, None, None)
 
     adjust_chunks = {
         "chan": lambda c: (c + chan_bin_size - 1) // chan_bin_size
-- 
2.43.0


From 27eda0341ad7f14e5c5bd8e810db36a82649c7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:30 +0000
Subject: [PATCH 31/58] fix: dask averaging works with channel arrays only

---
 africanus/averaging/dask.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/africanus/averaging/dask.py b/africanus/averaging/dask.py
index 1c6af65..c5ddd26 100644
--- a/africanus/averaging/dask.py
+++ b/africanus/averaging/dask.py
@@ -162,7 +162,8 @@ def row_chan_average(row_meta, chan_meta, flag_row=None, weight=None,
                      chan_bin_size=1):
     """ Average (row,chan,corr)-based dask arrays """
 
-    if chan_meta is None:
+    if chan_meta is None or all(a is None for a in
+                                (vis, flag, weight_spectrum, sigma_spectrum)):
         return RowChanAverageOutput(None, None, None, None)
 
     # We don't know how many rows are in each row chunk,
-- 
2.43.0


From 19a5e1868e078cbda550d82613899f86b39303b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:30 +0000
Subject: [PATCH 32/58] fix: dask averaging reports the averaged channel chunks

---
 africanus/averaging/dask.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/africanus/averaging/dask.py b/africanus/averaging/dask.py
index c5ddd26..3a8f40b 100644
--- a/africanus/averaging/dask.py
+++ b/africanus/averaging/dask.py
@@ -315,7 +315,8 @@ def time_and_channel(time, interval, antenna1, antenna2,
                              chan_freq=chan_freq,
                              chan_width=chan_width,
                              effective_bw=effective_bw,
-                             resolution=resolution)
+                             resolution=resolution,
+                             chan_bin_size=chan_bin_size)
 
     # Merge output tuples
     return AverageOutput(_getitem_row(row_meta, 1, time, ("row",)),
-- 
2.43.0


From 7036df34f990f747aaa4b8678be4a6eefd4ebd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:43 +0000
Subject: [PATCH 33/58] fix: dask averaging keeps weights and sigmas of chunked
 correlations

---
 africanus/averaging/dask.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/africanus/averaging/dask.py b/africanus/averaging/dask.py
index 3a8f40b..f83a965 100644
--- a/africanus/averaging/dask.py
+++ b/africanus/averaging/dask.py
@@ -97,9 +97,7 @@ def _row_average_wrapper(row_meta, ant1, ant2, flag_row,
                          weight, sigma):
     return np_row_average(row_meta, ant1, ant2, flag_row,
                           time_centroid, exposure,
-                          uvw[0] if uvw is not None else None,
-                          weight[0] if weight is not None else None,
-                          sigma[0] if sigma is not None else None)
+                          uvw, weight, sigma)
 
 
 def row_average(row_meta, ant1, ant2, flag_row=None,
@@ -123,6 +121,7 @@ def row_average(row_meta, ant1, ant2, flag_row=None,
 
     avg = da.blockwise(_row_average_wrapper, rd,
                        *(v for pair in args for v in pair[1:]),
+                       concatenate=True,
                        align_arrays=False,
                        adjust_chunks={"row": lambda x: np.nan},
                        meta=np.empty((0,)*len(rd), dtype=object),
-- 
2.43.0


From ed927d4bd0464967eb368b977af1bafb9b8ca19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:05 +0000
Subject: [PATCH 34/58] fix: applying gains leaves the caller's
 time_bin_indices alone

---
 africanus/calibration/utils/compute_and_corrupt_vis.py | 2 +-
 africanus/calibration/utils/correct_vis.py             | 2 +-
 africanus/calibration/utils/corrupt_vis.py             | 2 +-
 africanus/calibration/utils/residual_vis.py            | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/africanus/calibration/utils/compute_and_corrupt_vis.py b/africanus/calibration/utils/compute_and_corrupt_vis.py
index 85496c5..593779b 100644
--- a/africanus/calibration/utils/compute_and_corrupt_vis.py
+++ b/africanus/calibration/utils/compute_and_corrupt_vis.py
@@ -85,7 +85,7 @@ def compute_and_corrupt_vis(time_bin_indices, time_bin_counts, antenna1,
                                     uvw, freq, lm):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         n_tim = np.shape(time_bin_indices)[0]
         model_shape = np.shape(model)
         vis_shape = (antenna1.shape[0],) + (freq.shape[0],) + model.shape[3:]
diff --git a/africanus/calibration/utils/correct_vis.py b/africanus/calibration/utils/correct_vis.py
index d629ae2..935b74b 100644
--- a/africanus/calibration/utils/correct_vis.py
+++ b/africanus/calibration/utils/correct_vis.py
@@ -77,7 +77,7 @@ def correct_vis(time_bin_indices, time_bin_counts,
                         antenna1, antenna2, jones, vis, flag):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_dir = jones_shape[3]
diff --git a/africanus/calibration/utils/corrupt_vis.py b/africanus/calibration/utils/corrupt_vis.py
index 22b15ab..e1e31f0 100644
--- a/africanus/calibration/utils/corrupt_vis.py
+++ b/africanus/calibration/utils/corrupt_vis.py
@@ -67,7 +67,7 @@ def corrupt_vis(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, model):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         n_tim = np.shape(time_bin_indices)[0]
         model_shape = np.shape(model)
         vis_shape = model.shape[:2] + model.shape[3:]
diff --git a/africanus/calibration/utils/residual_vis.py b/africanus/calibration/utils/residual_vis.py
index d0e9812..3528bd6 100644
--- a/africanus/calibration/utils/residual_vis.py
+++ b/africanus/calibration/utils/residual_vis.py
@@ -71,7 +71,7 @@ def residual_vis(time_bin_indices, time_bin_counts, antenna1,
                          antenna2, jones, vis, flag, model):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         n_tim = np.shape(time_bin_indices)[0]
         vis_shape = np.shape(vis)
         n_chan = vis_shape[1]
-- 
2.43.0


From 26121d9b52bc40e171dd920d5d361edb48cc6322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:05 +0000
Subject: [PATCH 35/58] fix: phase-only calibration leaves the caller's
 time_bin_indices alone

---
 africanus/calibration/phase_only/phase_only.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/africanus/calibration/phase_only/phase_only.py b/africanus/calibration/phase_only/phase_only.py
index 8668de1..c4063bc 100755
--- a/africanus/calibration/phase_only/phase_only.py
+++ b/africanus/calibration/phase_only/phase_only.py
@@ -36,7 +36,7 @@ def compute_jhj_and_jhr(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, residual, model, flag):
         # for chunked dask arrays we need to adjust the chunks to
         # start counting from zero (see also map_blocks)
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_chan = jones_shape[2]
@@ -82,7 +82,7 @@ def compute_jhj(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, model, flag):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_chan = jones_shape[2]
@@ -122,7 +122,7 @@ def compute_jhr(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, residual, model, flag):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_chan = jones_shape[2]
-- 
2.43.0


From af7d68eddd3dbec3563d4029845552f9f78d3ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:20 +0000
Subject: [PATCH 36/58] fix: gauss_newton leaves the caller's visibilities and
 model alone

---
 africanus/calibration/phase_only/phase_only.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/calibration/phase_only/phase_only.py b/africanus/calibration/phase_only/phase_only.py
index c4063bc..21c890a 100755
--- a/africanus/calibration/phase_only/phase_only.py
+++ b/africanus/calibration/phase_only/phase_only.py
@@ -159,8 +159,8 @@ def gauss_newton(time_bin_indices, time_bin_counts, antenna1,
 
     # whiten data
     sqrtweights = np.sqrt(weight)
-    vis *= sqrtweights
-    model *= sqrtweights[:, :, None]
+    vis = vis * sqrtweights
+    model = model * sqrtweights[:, :, None]
 
     mode = check_type(jones, vis)
 
-- 
2.43.0


From af1adfc0b9f0f6ad5785f3b2d7a32d1c0e5262a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:20 +0000
Subject: [PATCH 37/58] fix: gauss_newton accepts weights without a channel
 axis as documented

---
 africanus/calibration/phase_only/phase_only.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/africanus/calibration/phase_only/phase_only.py b/africanus/calibration/phase_only/phase_only.py
index 21c890a..b8963d7 100755
--- a/africanus/calibration/phase_only/phase_only.py
+++ b/africanus/calibration/phase_only/phase_only.py
@@ -159,6 +159,9 @@ def gauss_newton(time_bin_indices, time_bin_counts, antenna1,
 
     # whiten data
     sqrtweights = np.sqrt(weight)
+    if sqrtweights.ndim == vis.ndim - 1:
+        # duplicate weights for each channel
+        sqrtweights = sqrtweights[:, None]
     vis = vis * sqrtweights
     model = model * sqrtweights[:, :, None]
 
-- 
2.43.0


From cb1ecdc15c81a912169567dac8f8f4a08d27a7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:20 +0000
Subject: [PATCH 38/58] fix: gauss_newton does not turn gains without data into
 nan

---
 africanus/calibration/phase_only/phase_only.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/africanus/calibration/phase_only/phase_only.py b/africanus/calibration/phase_only/phase_only.py
index b8963d7..fa24ac2 100755
--- a/africanus/calibration/phase_only/phase_only.py
+++ b/africanus/calibration/phase_only/phase_only.py
@@ -189,7 +189,11 @@ def gauss_newton(time_bin_indices, time_bin_counts, antenna1,
                           jones, residual, model, flag)
 
         # implement update
-        phases_new = phases + 0.5 * (jhr/jhj).real
+        # (gains without any unflagged data are left as they are)
+        update = np.zeros_like(phases)
+        sel = jhj > 0
+        update[sel] = 0.5 * (jhr[sel]/jhj[sel]).real
+        phases_new = phases + update
         jones = np.exp(1.0j * phases_new)
 
         # check convergence/iteration control
-- 
2.43.0


From 72d4a7ccafedf978eab8e8b6f4d818e13ff3708d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:20 +0000
Subject: [PATCH 39/58] fix: dask compute_and_corrupt_vis declares the dtype of
 its result

---
 africanus/calibration/utils/dask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/calibration/utils/dask.py b/africanus/calibration/utils/dask.py
index 4c2655d..8d1598c 100644
--- a/africanus/calibration/utils/dask.py
+++ b/africanus/calibration/utils/dask.py
@@ -128,7 +128,7 @@ def compute_and_corrupt_vis(time_bin_indices, time_bin_counts,
                      lm, ("row", "dir", "two"),
                      adjust_chunks={"row": antenna1.chunks[0]},
                      new_axes={"corr2": 2},
-                     dtype=model.dtype,
+                     dtype=jones.dtype,
                      align_arrays=False)
 
 
-- 
2.43.0


From 3eb38bcde018697a65013a1afc444942e17cdf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:20 +0000
Subject: [PATCH 40/58] fix: dask phase-only jhj and jhr declare the chunks and
 dtype of the gains

---
 africanus/calibration/phase_only/dask.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/africanus/calibration/phase_only/dask.py b/africanus/calibration/phase_only/dask.py
index c1281be..1747b65 100644
--- a/africanus/calibration/phase_only/dask.py
+++ b/africanus/calibration/phase_only/dask.py
@@ -35,9 +35,9 @@ def compute_jhj(time_bin_indices, time_bin_counts, antenna1,
                      jones, jones_shape,
                      model, model_shape,
                      flag, vis_shape,
-                     adjust_chunks={"row": antenna1.chunks[0]},
+                     adjust_chunks={"row": jones.chunks[0]},
                      new_axes={"corr2": 2},  # why?
-                     dtype=model.dtype,
+                     dtype=jones.real.dtype,
                      align_arrays=False)
 
 
@@ -62,9 +62,9 @@ def compute_jhr(time_bin_indices, time_bin_counts, antenna1,
                      residual, vis_shape,
                      model, model_shape,
                      flag, vis_shape,
-                     adjust_chunks={"row": antenna1.chunks[0]},
+                     adjust_chunks={"row": jones.chunks[0]},
                      new_axes={"corr2": 2},  # why?
-                     dtype=model.dtype,
+                     dtype=jones.dtype,
                      align_arrays=False)
 
 
-- 
2.43.0


From 9e0050e7af88498df3580c58956d1c8a53343b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:20 +0000
Subject: [PATCH 41/58] fix: dask phase-only jhj and jhr refuse gains chunked
 over antennas

---
 africanus/calibration/phase_only/dask.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/africanus/calibration/phase_only/dask.py b/africanus/calibration/phase_only/dask.py
index 1747b65..8d6067d 100644
--- a/africanus/calibration/phase_only/dask.py
+++ b/africanus/calibration/phase_only/dask.py
@@ -24,6 +24,9 @@ def compute_jhj(time_bin_indices, time_bin_counts, antenna1,
     if mode != DIAG_DIAG:
         raise NotImplementedError("Only DIAG-DIAG case has been implemented")
 
+    if jones.chunks[1][0] != jones.shape[1]:
+        raise ValueError("Cannot chunk jones over antenna")
+
     jones_shape = ('row', 'ant', 'chan', 'dir', 'corr')
     vis_shape = ('row', 'chan', 'corr')
     model_shape = ('row', 'chan', 'dir', 'corr')
@@ -50,6 +53,9 @@ def compute_jhr(time_bin_indices, time_bin_counts, antenna1,
     if mode != DIAG_DIAG:
         raise NotImplementedError("Only DIAG-DIAG case has been implemented")
 
+    if jones.chunks[1][0] != jones.shape[1]:
+        raise ValueError("Cannot chunk jones over antenna")
+
     jones_shape = ('row', 'ant', 'chan', 'dir', 'corr')
     vis_shape = ('row', 'chan', 'corr')
     model_shape = ('row', 'chan', 'dir', 'corr')
-- 
2.43.0


From c1f47e9c025e51756bb7d70873d0f7570fb37b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:18 +0000
Subject: [PATCH 42/58] fix: facet rotation applies its matrix to the original
 u, v and w

---
 .../policies/baseline_transform_policies.py                | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py b/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
index e09b9cc..e7d10fc 100644
--- a/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
+++ b/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
@@ -44,9 +44,10 @@ def uvw_rotate(uvw, ra0, dec0, ra, dec, policy_type):
     mat_31 = c_new_dec * s_d_ra
     mat_32 = -c_new_dec * s_old_dec * c_d_ra + s_new_dec * c_old_dec
     mat_33 = c_new_dec * c_old_dec * c_d_ra + s_new_dec * s_old_dec
-    uvw[0] = mat_11 * uvw[0] + mat_12 * uvw[1] + mat_13 * uvw[3]
-    uvw[1] = mat_21 * uvw[0] + mat_22 * uvw[1] + mat_23 * uvw[3]
-    uvw[2] = mat_31 * uvw[0] + mat_32 * uvw[1] + mat_33 * uvw[3]
+    u, v, w = uvw[0], uvw[1], uvw[2]
+    uvw[0] = mat_11 * u + mat_12 * v + mat_13 * w
+    uvw[1] = mat_21 * u + mat_22 * v + mat_23 * w
+    uvw[2] = mat_31 * u + mat_32 * v + mat_33 * w
 
 
 @jit(nopython=True, nogil=True, fastmath=True, parallel=False)
-- 
2.43.0


From baa9ec95be8464419a1c2fdad5aa88499866df8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:18 +0000
Subject: [PATCH 43/58] fix: facet gridder does not modify its visibilities and
 coordinates

---
 .../gridding/perleypolyhedron/gridder.py      | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/gridder.py b/africanus/gridding/perleypolyhedron/gridder.py
index 0acbeef..348a04a 100644
--- a/africanus/gridding/perleypolyhedron/gridder.py
+++ b/africanus/gridding/perleypolyhedron/gridder.py
@@ -80,8 +80,11 @@ def gridder(uvw,
     for r in range(nrow):
         ra0, dec0 = phase_centre
         ra, dec = image_centre
-        ptp.policy(vis[r, :, :],
-                   uvw[r, :],
+        # the transforms work in place, leave the caller's data alone
+        rvis = vis[r:r + 1, :, :].copy()
+        ruvw = uvw[r, :].astype(np.float64)
+        ptp.policy(rvis[0, :, :],
+                   ruvw,
                    wavelengths,
                    ra0,
                    dec0,
@@ -89,12 +92,12 @@ def gridder(uvw,
                    dec,
                    policy_type=literally(phase_transform_policy),
                    phasesign=1.0)
-        btp.policy(uvw[r, :], ra0, dec0, ra, dec,
+        btp.policy(ruvw, ra0, dec0, ra, dec,
                    literally(baseline_transform_policy))
         for c in range(nvischan):
-            scaled_u = uvw[r, 0] * scale_factor / wavelengths[c]
-            scaled_v = uvw[r, 1] * scale_factor / wavelengths[c]
-            scaled_w = uvw[r, 2] * scale_factor / wavelengths[c]
+            scaled_u = ruvw[0] * scale_factor / wavelengths[c]
+            scaled_v = ruvw[1] * scale_factor / wavelengths[c]
+            scaled_w = ruvw[2] * scale_factor / wavelengths[c]
             grid = gridstack[chanmap[c], :, :]
             wt_ch[chanmap[c]] += cp.policy(
                 scaled_u,
@@ -102,8 +105,8 @@ def gridder(uvw,
                 scaled_w,
                 npix,
                 grid,
-                vis,
-                r,
+                rvis,
+                0,
                 c,
                 convolution_kernel,
                 convolution_kernel_width,
-- 
2.43.0


From ee9ce69c5a44a8a935443ea6d89d1bcecd1ae108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:18 +0000
Subject: [PATCH 44/58] fix: facet degridder samples the facet where the
 gridder grids it and does not modify uvw

---
 africanus/gridding/perleypolyhedron/degridder.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/degridder.py b/africanus/gridding/perleypolyhedron/degridder.py
index d8d35cb..a947afc 100644
--- a/africanus/gridding/perleypolyhedron/degridder.py
+++ b/africanus/gridding/perleypolyhedron/degridder.py
@@ -38,12 +38,14 @@ def degridder_row_kernel(uvw,
                          r=0):
     ra0, dec0 = phase_centre
     ra, dec = image_centre
-    btp.policy(uvw[r, :], ra, dec, ra0, dec0,
+    # the transform works in place, leave the caller's data alone
+    ruvw = uvw[r, :].astype(np.float64)
+    btp.policy(ruvw, ra0, dec0, ra, dec,
                baseline_transform_policy)
     for c in range(nvischan):
-        scaled_u = uvw[r, 0] * scale_factor / wavelengths[c]
-        scaled_v = uvw[r, 1] * scale_factor / wavelengths[c]
-        scaled_w = uvw[r, 2] * scale_factor / wavelengths[c]
+        scaled_u = ruvw[0] * scale_factor / wavelengths[c]
+        scaled_v = ruvw[1] * scale_factor / wavelengths[c]
+        scaled_w = ruvw[2] * scale_factor / wavelengths[c]
         grid = gridstack[chanmap[c], :, :]
         cp.policy(scaled_u,
                   scaled_v,
-- 
2.43.0


From 40a150b5a8785b6cf7d990292bccd941c939a2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:47 +0000
Subject: [PATCH 45/58] fix: nearest neighbour gridding drops samples outside
 the grid

---
 .../perleypolyhedron/policies/convolution_policies.py      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/policies/convolution_policies.py b/africanus/gridding/perleypolyhedron/policies/convolution_policies.py
index b0308a9..0f6f050 100644
--- a/africanus/gridding/perleypolyhedron/policies/convolution_policies.py
+++ b/africanus/gridding/perleypolyhedron/policies/convolution_policies.py
@@ -139,9 +139,10 @@ def convolve_nn_scatter(scaled_u, scaled_v, scaled_w, npix, grid, vis, r, c,
     disc_u = int(np.round(offset_u))
     disc_v = int(np.round(offset_v))
     cw = 1.0
-    grid[disc_v, disc_u] += \
-        scp.corr2stokes(vis[r, c, :],
-                        stokes_conversion_policy)
+    if disc_v >= 0 and disc_v < npix and disc_u >= 0 and disc_u < npix:
+        grid[disc_v, disc_u] += \
+            scp.corr2stokes(vis[r, c, :],
+                            stokes_conversion_policy)
     return cw
 
 
-- 
2.43.0


From a8353da1c8d3ca119059018efd991bf609540333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:47 +0000
Subject: [PATCH 46/58] fix: dask facet degridder uses each facet's own centre

---
 africanus/gridding/perleypolyhedron/dask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/gridding/perleypolyhedron/dask.py b/africanus/gridding/perleypolyhedron/dask.py
index 52a3116..4dd100b 100644
--- a/africanus/gridding/perleypolyhedron/dask.py
+++ b/africanus/gridding/perleypolyhedron/dask.py
@@ -67,7 +67,7 @@ def __degrid(uvw,
                        lambdas,
                        chanmap,
                        cell,
-                       image_centres,
+                       f,
                        phase_centre,
                        convolution_kernel,
                        convolution_kernel_width,
-- 
2.43.0


From b24a99b36539c773b972655dcbb658f5ff06f735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:47 +0000
Subject: [PATCH 47/58] fix: dask facet degridder forwards rowparallel

---
 africanus/gridding/perleypolyhedron/dask.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/africanus/gridding/perleypolyhedron/dask.py b/africanus/gridding/perleypolyhedron/dask.py
index 4dd100b..35b411b 100644
--- a/africanus/gridding/perleypolyhedron/dask.py
+++ b/africanus/gridding/perleypolyhedron/dask.py
@@ -163,6 +163,7 @@ def degridder(uvw,
         cell=cell,
         phase_centre=phase_centre,
         vis_dtype=vis_dtype,
+        rowparallel=rowparallel,
         new_axes={
             "corr":
             stokes_conversion_policies.ncorr_outpy(
-- 
2.43.0


From 6c603c1e003e9dd6dabace22b90eb4fafd349d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:47 +0000
Subject: [PATCH 48/58] fix: dask facet gridder and degridder use all chunks of
 their inputs

---
 africanus/gridding/perleypolyhedron/dask.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/dask.py b/africanus/gridding/perleypolyhedron/dask.py
index 35b411b..2b61915 100644
--- a/africanus/gridding/perleypolyhedron/dask.py
+++ b/africanus/gridding/perleypolyhedron/dask.py
@@ -34,7 +34,6 @@ def __degrid(uvw,
              convolution_policy=None,
              vis_dtype=np.complex128,
              rowparallel=False):
-    image_centres = image_centres[0][0]
     if image_centres.ndim != 2:
         raise ValueError(
             "Image centres for DASK wrapper expects list of image centres, "
@@ -42,10 +41,8 @@ def __degrid(uvw,
         )
     if image_centres.shape[1] != 2:
         raise ValueError("Image centre must be a list of tuples")
-    uvw = uvw[0]
     if uvw.ndim != 2 or uvw.shape[1] != 3:
         raise ValueError("UVW array must be nrow x 3")
-    gridstack = gridstack[0][0][0][0]
     if gridstack.ndim != 4:
         raise ValueError("Gridstack must be nfacet x nband x ny x nx")
     lambdas = lambdas
@@ -164,6 +161,8 @@ def degridder(uvw,
         phase_centre=phase_centre,
         vis_dtype=vis_dtype,
         rowparallel=rowparallel,
+        # facets, bands and pixels are needed whole
+        concatenate=True,
         new_axes={
             "corr":
             stokes_conversion_policies.ncorr_outpy(
@@ -194,7 +193,6 @@ def __grid(uvw,
            phase_centre=None,
            grid_dtype=np.complex128,
            do_normalize=False):
-    image_centres = image_centres[0]
     if image_centres.ndim != 2:
         raise ValueError(
             "Image centres for DASK wrapper expects list of image "
@@ -203,10 +201,6 @@ def __grid(uvw,
     if image_centres.shape[1] != 2:
         raise ValueError("Image centre must be a list of tuples")
 
-    uvw = uvw[0]
-    vis = vis[0][0]
-    lambdas = lambdas[0]
-    chanmap = chanmap[0]
     grid_stack = np.zeros(
         (1, image_centres.shape[0], 1, np.max(chanmap) + 1, npix, npix),
         dtype=grid_dtype)
@@ -301,10 +295,12 @@ def gridder(uvw,
         phase_centre=phase_centre,
         grid_dtype=grid_dtype,
         do_normalize=do_normalize,
+        # channels and correlations are needed whole
+        concatenate=True,
         # goes to one set of grids per row chunk
         adjust_chunks={"row": 1},
         new_axes={
-            "nband": np.max(chanmap) + 1,
+            "nband": int(np.max(chanmap)) + 1,
             # for now will need to be modified if
             # multi-stokes cubes are supported
             "nstokes": 1,
-- 
2.43.0


From 3d0f08b548bd24c1f8dde05dc597b7be8be9d34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:47 +0000
Subject: [PATCH 49/58] fix: dask facet gridder sums the unnormalized grids of
 the row chunks

---
 africanus/gridding/perleypolyhedron/dask.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/africanus/gridding/perleypolyhedron/dask.py b/africanus/gridding/perleypolyhedron/dask.py
index 2b61915..a6a9ad4 100644
--- a/africanus/gridding/perleypolyhedron/dask.py
+++ b/africanus/gridding/perleypolyhedron/dask.py
@@ -311,4 +311,6 @@ def gridder(uvw,
         meta=np.empty((0, 0, 0, 0, 0, 0), dtype=grid_dtype))
 
     # Parallel reduction over row dimension
+    if not do_normalize:
+        return grids.sum(axis=0, split_every=2)
     return grids.mean(axis=0, split_every=2)
-- 
2.43.0


From f301ec57ec16e91a4376a7004a602e99fded5186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:32 +0000
Subject: [PATCH 50/58] fix: progress bar keeps its estimate until another task
 completes

---
 africanus/util/dask_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/util/dask_util.py b/africanus/util/dask_util.py
index 8906cff..54f3303 100644
--- a/africanus/util/dask_util.py
+++ b/africanus/util/dask_util.py
@@ -128,11 +128,11 @@ def update_bar(elapsed, prev_completed, prev_estimated, pb):
 
 def timer_func(pb):
     start = default_timer()
+    prev_completed = 0
+    prev_estimated = 0.0
 
     while pb.running.is_set():
         elapsed = default_timer() - start
-        prev_completed = 0
-        prev_estimated = 0.0
 
         if elapsed > pb._minimum:
             prev_completed, prev_estimated = update_bar(elapsed,
-- 
2.43.0


From 07446b8146e8c111b67c31fd71bf08e706f09d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:32 +0000
Subject: [PATCH 51/58] fix: finishing a computation does not disturb the
 progress display

---
 africanus/util/dask_util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/africanus/util/dask_util.py b/africanus/util/dask_util.py
index 54f3303..4b1906b 100644
--- a/africanus/util/dask_util.py
+++ b/africanus/util/dask_util.py
@@ -207,8 +207,10 @@ class EstimatingProgressBar(Callback):
 
     def _finish(self, dsk, state, errored):
         self.running.clear()
-        self.task_data.clear()
-        self.task_start.clear()
+
+        with self._lock:
+            self.task_data.clear()
+            self.task_start.clear()
 
     def _pretask(self, key, dsk, state):
         with self._lock:
-- 
2.43.0


From 4625fc3512ce5220b2c5404eabd1d57e2daf1db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:27 +0000
Subject: [PATCH 52/58] fix: squared exponential power spectrum is the
 covariance's Fourier transform

---
 africanus/gps/kernels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/africanus/gps/kernels.py b/africanus/gps/kernels.py
index 11191b8..5235b31 100644
--- a/africanus/gps/kernels.py
+++ b/africanus/gps/kernels.py
@@ -41,7 +41,8 @@ def exponential_squared(x, xp, sigmaf, l, pspec=False):  # noqa: E741
         if (x[1::] - x[0:-1] != delx).any():
             raise ValueError("pspec only defined on regular grid")
         s = np.fft.fftshift(np.fft.fftfreq(N, d=delx))
-        return np.sqrt(2*np.pi*l)*sigmaf**2.0*np.exp(-l**2*s**2/2.0)
+        return (np.sqrt(2*np.pi)*l*sigmaf**2.0 *
+                np.exp(-2*np.pi**2*l**2*s**2))
     else:
         xxp = abs_diff(x, xp)
         return sigmaf**2*np.exp(-xxp**2/(2*l**2))
-- 
2.43.0


From 6c8a81a32c287eb500cdaa20ec507667a542364a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:10 +0000
Subject: [PATCH 53/58] fix: a failing temporary directory is reported as
 failed header extraction

---
 africanus/util/cub.py   | 12 +++++-------
 africanus/util/trove.py | 12 +++++-------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/africanus/util/cub.py b/africanus/util/cub.py
index 14268f1..2e8100c 100644
--- a/africanus/util/cub.py
+++ b/africanus/util/cub.py
@@ -110,18 +110,16 @@ def _install_cub():
 
         try:
             # Unzip into temporary directory
-            tmpdir = tempfile.mkdtemp()
-            zip_file.extractall(tmpdir)
+            with tempfile.TemporaryDirectory() as tmpdir:
+                zip_file.extractall(tmpdir)
 
-            unzip_path = pjoin(tmpdir, _cub_zip_dir)
+                unzip_path = pjoin(tmpdir, _cub_zip_dir)
 
-            # Move
-            shutil.move(unzip_path, _cub_dir)
+                # Move
+                shutil.move(unzip_path, _cub_dir)
         except Exception as e:
             raise InstallCubException("Extracting %s failed\n%s" % (
                                       archive, str(e)))
-        finally:
-            shutil.rmtree(tmpdir, ignore_errors=True)
 
         log.info("NVIDIA cub archive unzipped into '%s'" % _cub_dir)
 
diff --git a/africanus/util/trove.py b/africanus/util/trove.py
index b88b62e..0b7f004 100644
--- a/africanus/util/trove.py
+++ b/africanus/util/trove.py
@@ -93,18 +93,16 @@ def _install_trove():
 
         try:
             # Unzip into temporary directory
-            tmpdir = tempfile.mkdtemp()
-            zip_file.extractall(tmpdir)
+            with tempfile.TemporaryDirectory() as tmpdir:
+                zip_file.extractall(tmpdir)
 
-            unzip_path = pjoin(tmpdir, _trove_zip_dir)
+                unzip_path = pjoin(tmpdir, _trove_zip_dir)
 
-            # Move
-            shutil.move(unzip_path, _trove_dir)
+                # Move
+                shutil.move(unzip_path, _trove_dir)
         except Exception as e:
             raise InstallTroveException("Extracting %s failed\n%s" % (
                                       archive, str(e)))
-        finally:
-            shutil.rmtree(tmpdir, ignore_errors=True)
 
         log.info("NVIDIA trove archive unzipped into '%s'" % _trove_dir)
 
-- 
2.43.0


From 969c00ea4b01e1ff99a0c08d98c80d98d07e880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:10 +0000
Subject: [PATCH 54/58] fix: cub hash mismatch names the downloaded and
 expected hash the right way round

---
 africanus/util/cub.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/util/cub.py b/africanus/util/cub.py
index 2e8100c..f809b0b 100644
--- a/africanus/util/cub.py
+++ b/africanus/util/cub.py
@@ -95,7 +95,7 @@ def _install_cub():
                    'is %s and does not match the expected '
                    'hash of %s.') % (
                         _cub_download_filename, _cub_url,
-                        _cub_sha_hash, sha_hash)
+                        sha_hash, _cub_sha_hash)
 
             raise InstallCubException(msg)
 
-- 
2.43.0


From f4a5de30687d86bcd3e96e5c16cbc3ecf795bdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:11 +0000
Subject: [PATCH 55/58] fix: each block of the beam frequency kernel loads the
 whole frequency map

---
 africanus/rime/cuda/beam_freq_interp.cu.j2 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/africanus/rime/cuda/beam_freq_interp.cu.j2 b/africanus/rime/cuda/beam_freq_interp.cu.j2
index 5c72bfb..c57dca4 100644
--- a/africanus/rime/cuda/beam_freq_interp.cu.j2
+++ b/africanus/rime/cuda/beam_freq_interp.cu.j2
@@ -18,9 +18,9 @@ extern "C" __global__ void {{kernel_name}}(
         {{beam_freq_type}} beam_freqs[beam_nud_limit];
     } shared;
 
-    // Load in beam frequency map across
-    if(chan < beam_nud_limit)
-        { shared.beam_freqs[threadIdx.x] = beam_freq_map[chan]; }
+    // Every block loads the entire beam frequency map
+    if(threadIdx.x < nud)
+        { shared.beam_freqs[threadIdx.x] = beam_freq_map[threadIdx.x]; }
 
     __syncthreads();
 
-- 
2.43.0


From df3c5b8f4383f5c93a27c2d00791ec2f62fc8f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:11 +0000
Subject: [PATCH 56/58] fix: load all beam extents when fewer than four threads
 are active

---
 africanus/rime/cuda/beam.cu.j2 | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/africanus/rime/cuda/beam.cu.j2 b/africanus/rime/cuda/beam.cu.j2
index 93fb1fc..6b4fdfe 100644
--- a/africanus/rime/cuda/beam.cu.j2
+++ b/africanus/rime/cuda/beam.cu.j2
@@ -92,9 +92,13 @@ extern "C" __global__ void {{kernel_name}}(
 
     // Shared memory loads
 
-    // Use first four threads to load beam extents into shared memory
-    if(threadIdx.x < 4)
-        { shared.lm_ext[threadIdx.x] = beam_lm_ext[threadIdx.x]; }
+    // Use first thread to load beam extents into shared memory
+    // The other threads may have returned if nchancorr < 4
+    if(threadIdx.x == 0)
+    {
+        for(int e=0; e < 4; ++e)
+            { shared.lm_ext[e] = beam_lm_ext[e]; }
+    }
 
     {{lm_ext_type}} & lower_l = shared.lm_ext[0];
     {{lm_ext_type}} & upper_l = shared.lm_ext[1];
-- 
2.43.0


From 888eeb7fb2e56625179fe74f7bb7d060ba1245b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:11 +0000
Subject: [PATCH 57/58] fix: jones multiplication shuffles among all active
 lanes

---
 africanus/rime/cuda/predict.cu.j2 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/rime/cuda/predict.cu.j2 b/africanus/rime/cuda/predict.cu.j2
index b1f8c62..2cc8b84 100644
--- a/africanus/rime/cuda/predict.cu.j2
+++ b/africanus/rime/cuda/predict.cu.j2
@@ -96,7 +96,7 @@ public:
         int base_vis_idx = CORRS*(lane_id/CORRS);
         int is_odd_corr = lane_id & 0x1;
         int shfl_idx = base_vis_idx + 1 + is_odd_corr;
-        int mask = __ballot_sync(WARP_SIZE - 1, 1);
+        int mask = __activemask();
 
         T shfl_K;
         shfl_K.x = __shfl_sync(mask, K.x, shfl_idx, WARP_SIZE);
@@ -138,7 +138,7 @@ public:
         int base_vis_idx = CORRS*(lane_id/CORRS);
         int is_odd_corr = lane_id & 0x1;
         int shfl_idx = base_vis_idx + 1 + int(is_odd_corr == 0);
-        int mask = __ballot_sync(WARP_SIZE - 1, 1);
+        int mask = __activemask();
 
         // Load in the correlation to multiply.
         T shfl_K;
-- 
2.43.0


From 4009768f7f0c2f04b788e58df379448ff0c27970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:11 +0000
Subject: [PATCH 58/58] fix: number of channels from base_vis when it is the
 only CUDA input

---
 africanus/rime/cuda/predict.cu.j2 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/africanus/rime/cuda/predict.cu.j2 b/africanus/rime/cuda/predict.cu.j2
index 2cc8b84..ab30ed1 100644
--- a/africanus/rime/cuda/predict.cu.j2
+++ b/africanus/rime/cuda/predict.cu.j2
@@ -47,6 +47,8 @@
 {%- set nchan = "die1.shape()[2]" %}
 {%- elif have_coh %}
 {%- set nchan = "source_coh.shape()[2]" %}
+{%- elif have_base_vis %}
+{%- set nchan = "base_vis.shape()[1]" %}
 {%- endif %}
 
 {%- set nrow = "time_index.shape()[0]" %}
-- 
2.43.0

