From 8ec25763b8153786f06a1335b409f41c5afda9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:28 +0000
Subject: [PATCH 01/89] fix: xsvs integrates a level only when both of its
 frames have arrived

The level loop did not stop at a level that was still waiting for its second
frame: it went on to process it with whatever the buffer held, so every frame
was counted at every level, and the integration times were wrong.
---
 skbeam/core/speckle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skbeam/core/speckle.py b/skbeam/core/speckle.py
index 5d62378..9d4306c 100644
--- a/skbeam/core/speckle.py
+++ b/skbeam/core/speckle.py
@@ -197,6 +197,7 @@ def xsvs(image_sets, label_array, number_of_img, timebin_num=2, max_cts=None):
             while level < num_times:
                 if not track_level[level]:
                     track_level[level] = 1
+                    break
                 else:
                     prev = 1 + (cur[level - 1] - 2) % timebin_num
                     cur[level] = 1 + cur[level] % timebin_num
-- 
2.43.0


From b5c0e1f8adb76eabda7ba4901adb69b9ba51ace0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:28 +0000
Subject: [PATCH 02/89] fix: xsvs averages over the image sets, each set once

The running mean over the image sets was updated after every image instead of
after every set, which gave the later sets a far larger weight.
---
 skbeam/core/speckle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/speckle.py b/skbeam/core/speckle.py
index 9d4306c..3b501d1 100644
--- a/skbeam/core/speckle.py
+++ b/skbeam/core/speckle.py
@@ -220,8 +220,8 @@ def xsvs(image_sets, label_array, number_of_img, timebin_num=2, max_cts=None):
                     )
                     level += 1
 
-            prob_k_all += (prob_k - prob_k_all) / (i + 1)
-            prob_k_pow_all += (prob_k_pow - prob_k_pow_all) / (i + 1)
+        prob_k_all += (prob_k - prob_k_all) / (i + 1)
+        prob_k_pow_all += (prob_k_pow - prob_k_pow_all) / (i + 1)
 
     prob_k_std_dev = np.power((prob_k_pow_all - np.power(prob_k_all, 2)), 0.5)
 
-- 
2.43.0


From 32e975225ee0b47799e1dcfcc603187e75ca2b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:28 +0000
Subject: [PATCH 03/89] fix: geometric_series includes a last term equal to
 number_of_images

The documentation promises a last value less than or equal to the number of
images.
---
 skbeam/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index d7a6821..03406d9 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -1202,7 +1202,7 @@ def geometric_series(common_ratio, number_of_images, first_term=1):
 
     geometric_series = [first_term]
 
-    while geometric_series[-1] * common_ratio < number_of_images:
+    while geometric_series[-1] * common_ratio <= number_of_images:
         geometric_series.append(geometric_series[-1] * common_ratio)
     return geometric_series
 
-- 
2.43.0


From 9595b4bc21e3ebe352b15fbbc318a69e814b55c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:28 +0000
Subject: [PATCH 04/89] fix: cross-correlation peak moves with the second
 image, as documented

A shift of img2 to the right of img1 moved the correlation peak to the left;
both docstrings promise a move to the right.
---
 skbeam/core/correlation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skbeam/core/correlation.py b/skbeam/core/correlation.py
index e5fcc57..96fd674 100644
--- a/skbeam/core/correlation.py
+++ b/skbeam/core/correlation.py
@@ -1258,10 +1258,10 @@ def _cross_corr(img1, img2=None):
         errorstr += "(img1 : {}; img2 : {})".format(img1.shape, img2.shape)
         raise ValueError(errorstr)
 
-    # need to reverse indices for second image
+    # need to reverse indices for first image
     # fftconvolve(A,B) = FFT^(-1)(FFT(A)*FFT(B))
-    # but need FFT^(-1)(FFT(A(x))*conj(FFT(B(x)))) = FFT^(-1)(A(x)*B(-x))
+    # but need FFT^(-1)(conj(FFT(A(x)))*FFT(B(x))) = FFT^(-1)(A(-x)*B(x))
     reverse_index = [slice(None, None, -1) for i in range(ndim)]
-    imgc = fftconvolve(img1, img2[tuple(reverse_index)], mode="full")
+    imgc = fftconvolve(img2, img1[tuple(reverse_index)], mode="full")
 
     return imgc
-- 
2.43.0


From d180ead1ebba788f9237c10cebc4ebfc666a2f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:47 +0000
Subject: [PATCH 05/89] fix: Histogram keeps positions just below high inside
 the last bin

Rounding of (pos - low) / binsize could give an index one past the end: an
IndexError in one and two dimensions, a write out of bounds in more.
---
 skbeam/core/accumulators/histogram.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/accumulators/histogram.pyx b/skbeam/core/accumulators/histogram.pyx
index b4cbd54..fc0dfb3 100644
--- a/skbeam/core/accumulators/histogram.pyx
+++ b/skbeam/core/accumulators/histogram.pyx
@@ -284,9 +284,13 @@ class Histogram:
 
 
 cdef long find_indices(coordnumtype pos, double low, double high, double binsize):
+    cdef long idx, last
     if not (low <= pos < high):
         return -1
-    return int((pos - low) / binsize)
+    idx = int((pos - low) / binsize)
+    # rounding may carry a position just below high past the last bin
+    last = int((high - low) / binsize + 0.5) - 1
+    return idx if idx < last else last
 
 
 cdef void fillonecy(coordnumtype xval, wnumtype weight,
-- 
2.43.0


From 36cd81d0ccb826e6c4bf2eb19e5a892d186e5fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:47 +0000
Subject: [PATCH 06/89] fix: Histogram reads strided coordinate arrays
 correctly in N dimensions

The N-dimensional path walks raw data pointers, which is only right for
contiguous arrays: a strided view contributed elements that are not in it.
---
 skbeam/core/accumulators/histogram.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skbeam/core/accumulators/histogram.pyx b/skbeam/core/accumulators/histogram.pyx
index fc0dfb3..934193a 100644
--- a/skbeam/core/accumulators/histogram.pyx
+++ b/skbeam/core/accumulators/histogram.pyx
@@ -202,6 +202,8 @@ class Histogram:
 
 
     def _fillnd(self, coords, cnp.ndarray[wnumtype, ndim=1] weight):
+        # the data pointers are walked without strides
+        coords = [np.ascontiguousarray(x) for x in coords]
         # allocate pointer arrays per each supported numerical types
         cdef cnp.int64_t* aint_ptr[MAX_DIMENSIONS]
         cdef int aint_count = 0
-- 
2.43.0


From db9bd6df4721de4b7ab1d6982f49e1f4e6dbd733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:17 +0000
Subject: [PATCH 07/89] fix: binned statistics ignore masked points whatever
 their type

Masked samples were overwritten with a value just below the first edge. For
integer samples that value was truncated back into the first bin, so masked
points were counted; the caller's (N, D) array was modified; and a mask given
as a list had no effect at all.
---
 skbeam/core/accumulators/binned_statistic.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index 913870b..d537c30 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -153,12 +153,7 @@ class BinnedStatisticDD(object):
         # Compute the bin number each sample falls into.
         Ncount = {}
         for i in np.arange(self.D):
-            # Apply mask in a non-ideal way by setting value outside range.
-            # Would be better to do this using bincount "weights", perhaps.
-            thissample = sample[:, i]
-            if mask is not None:
-                thissample[mask == 0] = self.edges[i][0] - 0.01 * (1 + np.fabs(self.edges[i][0]))
-            Ncount[i] = np.digitize(thissample, self.edges[i])
+            Ncount[i] = np.digitize(sample[:, i], self.edges[i])
 
         # Using digitize, values that fall on an edge are put in the
         # right bin.  For the rightmost bin, we want values equal to
@@ -173,6 +168,11 @@ class BinnedStatisticDD(object):
             # Shift these points one bin to the left.
             Ncount[i][on_edge] -= 1
 
+        # Masked points go to the outlier bin.
+        if mask is not None:
+            for i in np.arange(self.D):
+                Ncount[i][np.ravel(mask) == 0] = 0
+
         # Compute the sample indices in the flattened statistic matrix.
         self.ni = self.nbin.argsort()
         self.xy = np.zeros(N, int)
-- 
2.43.0


From 7282ae2740a86352c5e2251730e4a949893b6ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:17 +0000
Subject: [PATCH 08/89] fix: binned statistics keep points just below the last
 edge in the last bin

Points that round to the rightmost edge but lie below it are already in the
last bin; they were moved one bin to the left all the same.
---
 skbeam/core/accumulators/binned_statistic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index d537c30..66e0819 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -164,7 +164,10 @@ class BinnedStatisticDD(object):
             # Rounding precision
             decimal = int(-np.log10(dedges[i].min())) + 6
             # Find which points are on the rightmost edge.
-            on_edge = np.where(np.around(sample[:, i], decimal) == np.around(self.edges[i][-1], decimal))[0]
+            on_edge = np.where(
+                (sample[:, i] >= self.edges[i][-1])
+                & (np.around(sample[:, i], decimal) == np.around(self.edges[i][-1], decimal))
+            )[0]
             # Shift these points one bin to the left.
             Ncount[i][on_edge] -= 1
 
-- 
2.43.0


From dc30475cb78cf2142ca7d309da1bc784830890a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:17 +0000
Subject: [PATCH 09/89] fix: binmap is right for unequal numbers of bins

The flattened index is built over the dimensions sorted by their number of
bins; binmap undid it in the original order and with the wrong moduli.
---
 skbeam/core/accumulators/binned_statistic.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index 66e0819..d1b7202 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -204,12 +204,9 @@ class BinnedStatisticDD(object):
         denominator = 1
 
         for i in range(self.D):
-            ind = self.D - i - 1
-            subbinmap = self.xy // denominator
-            if i < self.D - 1:
-                subbinmap = subbinmap % self.nbin[self.ni[ind - 1]]
-            binmap[ind] = subbinmap
-            denominator *= self.nbin[self.ni[ind]]
+            ind = self.ni[self.D - i - 1]
+            binmap[ind] = (self.xy // denominator) % self.nbin[ind]
+            denominator *= self.nbin[ind]
 
         return binmap
 
-- 
2.43.0


From 747a1c44700aeb9d1c65e6c2dd4794d45e81d49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:17 +0000
Subject: [PATCH 10/89] fix: the binned standard deviation of equal values is
 zero, not NaN

The variance is a difference that rounding can make slightly negative.
---
 skbeam/core/accumulators/binned_statistic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index d1b7202..f7eab86 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -298,7 +298,9 @@ class BinnedStatisticDD(object):
             flatsum = np.bincount(self.xy, values)
             flatsum2 = np.bincount(self.xy, values**2)
             a = self.flatcount.nonzero()
-            self.result[a] = np.sqrt(flatsum2[a] / self.flatcount[a] - (flatsum[a] / self.flatcount[a]) ** 2)
+            variance = flatsum2[a] / self.flatcount[a] - (flatsum[a] / self.flatcount[a]) ** 2
+            # rounding can make the variance of (nearly) equal values negative
+            self.result[a] = np.sqrt(np.maximum(variance, 0))
         elif statistic == "count":
             self.result.fill(0)
             a = np.arange(len(self.flatcount))
-- 
2.43.0


From b75b0004020b0936e44282f542e2c1769e3c7ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:21 +0000
Subject: [PATCH 11/89] fix: threads of the 3-D gridder do not share the index
 clearing their grids

---
 src/ctrans.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index 61f7bc0..8a7263c 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -452,10 +452,11 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
     if((_d2out != NULL) && (_dout != NULL) && (_nout != NULL)){
 
       // Clear the arrays ....
-      for(j=0;j<grid_size;j++){
-        _dout[j] = 0.0;
-        _d2out[j] = 0.0;
-        _nout[j] = 0;
+      unsigned long k;
+      for(k=0;k<grid_size;k++){
+        _dout[k] = 0.0;
+        _d2out[k] = 0.0;
+        _nout[k] = 0;
       }
 
 #pragma omp for
-- 
2.43.0


From 9cc0b71d25e93963597dfaf8392aba95424f42db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:21 +0000
Subject: [PATCH 12/89] fix: the standard error of equal values in a voxel is
 not NaN

---
 src/ctrans.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ctrans.c b/src/ctrans.c
index 8a7263c..c257752 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -535,6 +535,10 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
       stderror[j] = 0.0;
     } else {
       double var = (d2out[j] - pow(dout[j], 2) / nout[j]) / nout[j];
+      // rounding can leave the variance of equal values below zero
+      if(var < 0){
+        var = 0.0;
+      }
       stderror[j] = pow(var, 0.5) / pow(nout[j], 0.5);
     }
   }
-- 
2.43.0


From 4f0b9a42a49b641e63953a611d25a7387c7a739f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:08 +0000
Subject: [PATCH 13/89] fix: grid3d with default bounds keeps the points on the
 upper edge

---
 skbeam/core/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 03406d9..1660e6f 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -893,7 +893,7 @@ def grid3d(
             "".format(img_stack.shape, img_stack[0].shape, binary_mask.shape)
         )
 
-    q = np.atleast_2d(q)
+    q = np.atleast_2d(np.asarray(q, dtype=float))
     if q.ndim != 2:
         raise ValueError(
             "q.ndim must be a 2-D array of shape Nx3 array. "
@@ -912,7 +912,8 @@ def grid3d(
 
     # pad the upper edge by just enough to ensure that all of the
     # points are in-bounds with the binning rules: lo <= val < hi
-    qmax += np.spacing(qmax)
+    # (the pad has to survive the subtraction of the lower edge)
+    qmax += 4 * np.spacing(np.maximum(np.abs(qmin), np.abs(qmax)))
 
     # check for non-default input
     for target, input_vals in ((dqn, (nx, ny, nz)), (qmin, (xmin, ymin, zmin)), (qmax, (xmax, ymax, zmax))):
-- 
2.43.0


From fc4083676bacb7a2513ef1cb279650ca6efe02fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:08 +0000
Subject: [PATCH 14/89] fix: grid3d takes a binary mask of zeros and ones as a
 mask, not as indices

---
 skbeam/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 1660e6f..70fb2be 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -928,7 +928,7 @@ def grid3d(
     # getting the intensity value for each pixel
     q = np.insert(q, 3, np.ravel(img_stack), axis=1)
     if binary_mask is not None:
-        q = q[np.ravel(binary_mask)]
+        q = q[np.ravel(binary_mask).astype(bool)]
 
     # 3D grid of the data set
     # starting time for gridding
-- 
2.43.0


From 8ca0a2fb2a618b0254eb53cbdfd1f87a5e5baeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:19 +0000
Subject: [PATCH 15/89] fix: a rectangle outside the image labels no pixel of
 it

---
 skbeam/core/roi.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index c09be46..b6f320c 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -81,8 +81,9 @@ def rectangles(coords, shape):
     labels_grid = np.zeros(shape, dtype=np.int64)
 
     for i, (col_coor, row_coor, col_val, row_val) in enumerate(coords):
-        left, right = np.max([col_coor, 0]), np.min([col_coor + col_val, shape[0]])
-        top, bottom = np.max([row_coor, 0]), np.min([row_coor + row_val, shape[1]])
+        # only the part of the rectangle that is in the image
+        left, right = np.clip([col_coor, col_coor + col_val], 0, shape[0])
+        top, bottom = np.clip([row_coor, row_coor + row_val], 0, shape[1])
 
         slc1 = slice(left, right)
         slc2 = slice(top, bottom)
-- 
2.43.0


From 82141faea75afba71e719c3252d12f978281238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:19 +0000
Subject: [PATCH 16/89] fix: ring_edges accepts one spacing less than widths,
 as documented

---
 skbeam/core/roi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index b6f320c..0b6f827 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -186,7 +186,7 @@ def ring_edges(inner_radius, width, spacing=0, num_rings=None):
     width_is_list = isinstance(width, collections.abc.Iterable)
     spacing_is_list = isinstance(spacing, collections.abc.Iterable)
     if width_is_list and spacing_is_list:
-        if len(width) != len(spacing) - 1:
+        if len(spacing) != len(width) - 1:
             raise ValueError("List of spacings must be one less than list " "of widths.")
     if num_rings is None:
         try:
-- 
2.43.0


From e3fffe927ca6e09b28432b424c5d715dcfc91de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:19 +0000
Subject: [PATCH 17/89] fix: segmented_rings keeps ROIs apart when the segments
 are offset or partial

---
 skbeam/core/roi.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index 0b6f827..3606e95 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -281,6 +281,9 @@ def segmented_rings(edges, segments, center, shape, offset_angle=0):
         segments = np.linspace(0, 2 * np.pi, num=1 + segments, endpoint=True)
         segments += offset_angle
 
+    # the turn that starts with the first segment
+    agrid -= 2 * np.pi * np.floor((agrid - segments[0]) / (2 * np.pi))
+
     # the indices of the bins(angles) to which each value in input
     #  array(angle_grid) belongs.
     ind_grid = (np.digitize(np.ravel(agrid), segments, right=False)).reshape(shape)
@@ -293,6 +296,8 @@ def segmented_rings(edges, segments, center, shape, offset_angle=0):
     len_segments = len(segments)
     for i in range(len(edges) // 2):
         indices = (edges[2 * i] <= rgrid) & (rgrid < edges[2 * i + 1])
+        # Angles before the first or after the last segment are in no ROI.
+        indices &= (ind_grid > 0) & (ind_grid < len_segments)
         # Combine "segment #" and "ring #" to get unique label for each.
         label_array[indices] = ind_grid[indices] + (len_segments - 1) * i
 
-- 
2.43.0


From 65fcdf22b5b55edca497ac63923829f6bc6df0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:19 +0000
Subject: [PATCH 18/89] fix: mean_intensity takes a list of images and labels
 without background

---
 skbeam/core/roi.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index 3606e95..6df324e 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -401,15 +401,14 @@ def mean_intensity(images, labeled_array, index=None):
         )
     # handle various input for `index`
     if index is None:
-        index = list(np.unique(labeled_array))
-        index.remove(0)
+        index = [label for label in np.unique(labeled_array) if label != 0]
     try:
         len(index)
     except TypeError:
         index = [index]
     # pre-allocate an array for performance
     # might be able to use list comprehension to make this faster
-    mean_intensity = np.zeros((images.shape[0], len(index)))
+    mean_intensity = np.zeros((len(images), len(index)))
     for n, img in enumerate(images):
         # use a mean that is mask-aware
         mean_intensity[n] = ndimage.mean(img, labeled_array, index=index)
-- 
2.43.0


From 8764b427b7a3083a2a96f0d8f31bab3f642f1dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:19 +0000
Subject: [PATCH 19/89] fix: vertical bars use the coordinates they are given

---
 skbeam/core/roi.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index 6df324e..00d69b1 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -612,9 +612,10 @@ def bar(edges, shape, horizontal=True, values=None):
             "r=0 outward"
         )
     if values is None:
-        values = np.repeat(range(shape[0]), shape[1])
-    if not horizontal:
-        values = np.tile(range(shape[1]), shape[0])
+        if horizontal:
+            values = np.repeat(range(shape[0]), shape[1])
+        else:
+            values = np.tile(range(shape[1]), shape[0])
 
     return _make_roi(values, edges, shape)
 
-- 
2.43.0


From fce91a0ee891cd0436d699d4f8170af356e7cb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:19 +0000
Subject: [PATCH 20/89] fix: lines keeps both end points inside the image

---
 skbeam/core/roi.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index 00d69b1..1d29f64 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -706,10 +706,10 @@ def lines(end_points, shape):
                 " ending co-ordinates for each line"
             )
         rr, cc = line(
-            np.max([points[0], 0]),
-            np.max([points[1], 0]),
-            np.min([points[2], shape[0] - 1]),
-            np.min([points[3], shape[1] - 1]),
+            np.clip(points[0], 0, shape[0] - 1),
+            np.clip(points[1], 0, shape[1] - 1),
+            np.clip(points[2], 0, shape[0] - 1),
+            np.clip(points[3], 0, shape[1] - 1),
         )
         label += 1
         label_array[rr, cc] = label
-- 
2.43.0


From 7aefe5a6fab5e06eb7d43d341cc3551f55ec7e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:38 +0000
Subject: [PATCH 21/89] fix: mask.threshold takes any iterable of images, as
 documented

---
 skbeam/core/mask.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/mask.py b/skbeam/core/mask.py
index 4298d02..85824a9 100644
--- a/skbeam/core/mask.py
+++ b/skbeam/core/mask.py
@@ -104,9 +104,9 @@ def threshold(images, threshold, mask=None):
         below marked as 1.
         shape is (num_columns, num_rows) of the image
     """
-    if mask is None:
-        mask = np.ones_like(images[0])
     for im in images:
+        if mask is None:
+            mask = np.ones_like(im)
         bad_pixels = np.where(im >= threshold)
         if len(bad_pixels[0]) != 0:
             mask[bad_pixels] = 0
-- 
2.43.0


From 0ee40347f98764352b9ba70676ea7e60cc36e779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:38 +0000
Subject: [PATCH 22/89] fix: a margin of no pixels masks nothing

---
 skbeam/core/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/mask.py b/skbeam/core/mask.py
index 85824a9..2fa0bf1 100644
--- a/skbeam/core/mask.py
+++ b/skbeam/core/mask.py
@@ -130,7 +130,7 @@ def margin(img_shape, edge_size):
         The mask array, bad pixels are 0
     """
     mask = np.ones(img_shape, dtype=bool)
-    mask[edge_size:-edge_size, edge_size:-edge_size] = 0.0
+    mask[edge_size : img_shape[0] - edge_size, edge_size : img_shape[1] - edge_size] = 0.0
     return ~mask
 
 
-- 
2.43.0


From 0e419c77493af636d45a44a629ec7d3975016e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:38 +0000
Subject: [PATCH 23/89] fix: binned_outlier compares a pixel with its own bin
 and keeps uniform bins

---
 skbeam/core/mask.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skbeam/core/mask.py b/skbeam/core/mask.py
index 2fa0bf1..a243fb8 100644
--- a/skbeam/core/mask.py
+++ b/skbeam/core/mask.py
@@ -170,7 +170,7 @@ def binned_outlier(img, r, alpha, bins, mask=None):
     msk_img = img[working_mask]
     msk_r = r[working_mask]
 
-    int_r = np.digitize(r, bins[:-1], True) - 1
+    int_r = np.digitize(r, bins[:-1]) - 1
     # integration
     mean = sts.binned_statistic(msk_r, msk_img, bins=bins, statistic="mean")[0]
     std = sts.binned_statistic(msk_r, msk_img, bins=bins, statistic=np.std)[0]
@@ -181,7 +181,7 @@ def binned_outlier(img, r, alpha, bins, mask=None):
     upper = mean + threshold
 
     # single out the too low and too high pixels
-    working_mask *= img > lower[int_r]
-    working_mask *= img < upper[int_r]
+    working_mask *= img >= lower[int_r]
+    working_mask *= img <= upper[int_r]
 
     return working_mask.astype(bool)
-- 
2.43.0


From 1839894e3e47b4c034be28a44cbff0cbff0b1ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:38 +0000
Subject: [PATCH 24/89] fix: construct_circ_avg_image honours left and right

---
 skbeam/core/image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/image.py b/skbeam/core/image.py
index cc8e8bf..3f14c44 100644
--- a/skbeam/core/image.py
+++ b/skbeam/core/image.py
@@ -101,7 +101,7 @@ def _corr_ax1(input_image):
     return np.histogram(est_by_row, bins=np.arange(0, dim + 1))
 
 
-def construct_circ_avg_image(radii, intensities, dims=None, center=None, pixel_size=(1, 1), left=0, right=0):
+def construct_circ_avg_image(radii, intensities, dims=None, center=None, pixel_size=(1, 1), left=None, right=0):
     """
     Constructs a 2D image from circular averaged data
     where radii are given in units of pixels.
@@ -169,7 +169,7 @@ def construct_circ_avg_image(radii, intensities, dims=None, center=None, pixel_s
         center = (dims[0] - 1) / 2.0, (dims[1] - 1) / 2.0
 
     radial_val = utils.radial_grid(center, dims, pixel_size)
-    CIMG = np.interp(radial_val, radii, intensities, right=0)
+    CIMG = np.interp(radial_val, radii, intensities, left=left, right=right)
 
     return CIMG
 
-- 
2.43.0


From 2f668055b56b1e748e285f828e0ed36bfa442aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:38 +0000
Subject: [PATCH 25/89] fix: construct_rphi_avg_image leaves the angles and the
 image of the caller alone

---
 skbeam/core/image.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skbeam/core/image.py b/skbeam/core/image.py
index 3f14c44..98e33a6 100644
--- a/skbeam/core/image.py
+++ b/skbeam/core/image.py
@@ -229,11 +229,11 @@ def construct_rphi_avg_image(radii, angles, image, mask=None, center=None, shape
                 raise ValueError(
                     "Mask shape ({}, {}) ".format(*mask.shape)
                     + "does not match expected"
-                    + " shape of ({},{})".format(*shape)
+                    + " shape of ({},{})".format(*image.shape)
                 )
             else:
                 raise ValueError("Mask not right dimensions." "Expected 2 got {}".format(mask.ndim))
-        image[np.where(mask == 0)] = np.nan
+        image = np.where(mask == 0, np.nan, image)
     if shape is None:
         if center is not None:
             raise ValueError(
@@ -254,7 +254,7 @@ def construct_rphi_avg_image(radii, angles, image, mask=None, center=None, shape
 
     # 1.a : subtract minimum
     anglemin = angles[0]
-    angles -= anglemin
+    angles = angles - anglemin
     # 1.b : modulo 2*pi
     angles = angles % (2 * np.pi)
     # 1.c : find any extra cross-overs and ignore them
-- 
2.43.0


From 66c4539e747206fcf2d83009387405204cd140d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:38 +0000
Subject: [PATCH 26/89] fix: the default bins of bin_grid reach the farthest
 pixel

---
 skbeam/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 70fb2be..612fb03 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -1245,7 +1245,7 @@ def bin_grid(image, r_array, pixel_sizes, statistic="mean", mask=None, bins=None
         mask = np.ones(image.shape, dtype=int).astype(bool)
     if bins is None:
         res = np.hypot(*pixel_sizes)
-        bins = np.arange(np.min(r_array) - res * 0.5, np.max(r_array) + res * 0.5, res)
+        bins = np.arange(np.min(r_array) - res * 0.5, np.max(r_array) + res, res)
 
     int_stat, bin_edge, bin_num = sts.binned_statistic(r_array[mask], image[mask], statistic=statistic, bins=bins)
 
-- 
2.43.0


From 9eb37dcee9285ce048b2ed7f29813e1cea83a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:34 +0000
Subject: [PATCH 27/89] fix: MD_dict does not lose leaves to reads and to paths
 through them

---
 skbeam/core/utils.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 612fb03..b2f93c9 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -105,15 +105,19 @@ class MD_dict(MutableMapping):
     def __setitem__(self, key, val):
         key_split = key.split(self._split)
         tmp = self._dict
+        # nothing is changed if the path leads through a leaf
         for k in key_split[:-1]:
-            try:
-                tmp = tmp[k]._dict
-            except Exception:
-                tmp[k] = type(self)()
-                tmp = tmp[k]._dict
-            if isinstance(tmp, md_value):
+            if k not in tmp:
+                break
+            if isinstance(tmp[k], md_value):
                 # TODO make message better
                 raise KeyError("trying to use a leaf node as a branch")
+            tmp = tmp[k]._dict
+        tmp = self._dict
+        for k in key_split[:-1]:
+            if k not in tmp:
+                tmp[k] = type(self)()
+            tmp = tmp[k]._dict
 
         # if passed in an md_value, set it and return
         if isinstance(val, md_value):
@@ -142,24 +146,30 @@ class MD_dict(MutableMapping):
         key_split = key.split(self._split)
         tmp = self._dict
         for k in key_split[:-1]:
-            try:
-                tmp = tmp[k]._dict
-            except Exception:
-                tmp[k] = type(self)()
-                tmp = tmp[k]._dict
-
-            if isinstance(tmp, md_value):
+            if k not in tmp:
+                return None
+            if isinstance(tmp[k], md_value):
                 # TODO make message better
                 raise KeyError("trying to use a leaf node as a branch")
+            tmp = tmp[k]._dict
 
         return tmp.get(key_split[-1], None)
 
+    def __contains__(self, key):
+        # __getitem__ answers None for what is not there
+        try:
+            return self[key] is not None
+        except KeyError:
+            return False
+
     def __delitem__(self, key):
         # pass one delete the entry
         # TODO make robust to non-keys
         key_split = key.split(self._split)
         tmp = self._dict
         for k in key_split[:-1]:
+            if isinstance(tmp[k], md_value):
+                raise KeyError("trying to use a leaf node as a branch")
             # make sure we are grabbing the internal dict
             tmp = tmp[k]._dict
         del tmp[key_split[-1]]
-- 
2.43.0


From 741fc3c179659b83523a7792d79b9c174d3979b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:35 +0000
Subject: [PATCH 28/89] fix: MD_dict takes short sequences and mappings as
 values

---
 skbeam/core/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index b2f93c9..bdb6b93 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -132,14 +132,14 @@ class MD_dict(MutableMapping):
         try:
             # if the second element is a string or None, cast to named tuple
             if isinstance(val[1], string_types) or val[1] is None:
-                print("here")
                 tmp[key_split[-1]] = md_value(*val)
             # else, assume whole thing is the value with no units
             else:
                 tmp[key_split[-1]] = md_value(val, None)
         # catch any type errors from trying to index into non-indexable things
         # or from trying to use iterables longer than 2
-        except TypeError:
+        # or from values that have no second element
+        except (TypeError, IndexError, KeyError):
             tmp[key_split[-1]] = md_value(val, None)
 
     def __getitem__(self, key):
-- 
2.43.0


From 2867bf2f91253ca06ca8c3862f14d4c1740cb647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:35 +0000
Subject: [PATCH 29/89] fix: RCParamDict finds nothing below a leaf

---
 skbeam/core/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index bdb6b93..22a9061 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -272,14 +272,20 @@ class RCParamDict(MutableMapping):
         # try to split the key
         splt_key = key.split(self._delim, 1)
         if len(splt_key) > 1:
-            return self._dict[splt_key[0]][splt_key[1]]
+            return self._branch(splt_key[0])[splt_key[1]]
         else:
             return self._dict[key]
 
+    def _branch(self, key):
+        branch = self._dict[key]
+        if not isinstance(branch, MutableMapping):
+            raise KeyError("name space is borked")
+        return branch
+
     def __delitem__(self, key):
         splt_key = key.split(self._delim, 1)
         if len(splt_key) > 1:
-            self._dict[splt_key[0]].__delitem__(splt_key[1])
+            self._branch(splt_key[0]).__delitem__(splt_key[1])
         else:
             del self._dict[key]
 
-- 
2.43.0


From e7153f11e95ae3d60d3723b38d8cfae7973c53fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:22 +0000
Subject: [PATCH 30/89] fix: refine_center moves rows by the sine and columns
 by the cosine

angle_grid counts angles from the columns towards the rows, so an offset of
the centre was corrected along the wrong axis.
---
 skbeam/core/calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/calibration.py b/skbeam/core/calibration.py
index 6b1b4a8..f5bbc56 100644
--- a/skbeam/core/calibration.py
+++ b/skbeam/core/calibration.py
@@ -227,7 +227,7 @@ def refine_center(
     # this is doing just one term of a Fourier series
     # note that we have to convert _back_ to pixels from real units
     # TODO do this with better integration/handle repeat better
-    col_shift = np.sum(np.sin(phi_centers) * mean_dr) * delta / (np.pi * pixel_size[1])
-    row_shift = np.sum(np.cos(phi_centers) * mean_dr) * delta / (np.pi * pixel_size[0])
+    col_shift = np.sum(np.cos(phi_centers) * mean_dr) * delta / (np.pi * pixel_size[1])
+    row_shift = np.sum(np.sin(phi_centers) * mean_dr) * delta / (np.pi * pixel_size[0])
 
     return tuple(np.array(calibrated_center) + np.array([row_shift, col_shift]))
-- 
2.43.0


From 7d9f1ac6494076aad10734f68bab8d27c06756b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:22 +0000
Subject: [PATCH 31/89] fix: find_largest_peak keeps its window inside the data

np.max(j - window, 0) is a maximum over axis 0, not over the two numbers: a
peak closer to the start than the window gave an empty slice.  Without a
window the last point was left out.
---
 skbeam/core/spectroscopy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/spectroscopy.py b/skbeam/core/spectroscopy.py
index 485ffec..ee57e57 100644
--- a/skbeam/core/spectroscopy.py
+++ b/skbeam/core/spectroscopy.py
@@ -131,9 +131,9 @@ def find_largest_peak(x, y, window=None):
     # get the bin with the largest number of counts
     j = np.argmax(y)
     if window is not None:
-        roi = slice(np.max(j - window, 0), j + window + 1)
+        roi = slice(max(j - window, 0), j + window + 1)
     else:
-        roi = slice(0, -1)
+        roi = slice(None)
 
     (w, x0, y0), r2 = fit_quad_to_peak(x[roi], np.log(y[roi]))
     return x0, np.exp(y0), 1 / np.sqrt(-2 * w)
-- 
2.43.0


From 084109a10f21d1a1c74b4fc7b9ea72668a36479d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:22 +0000
Subject: [PATCH 32/89] fix: integrate_ROI_spectrum goes by the centers of the
 bins, as documented

---
 skbeam/core/spectroscopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/spectroscopy.py b/skbeam/core/spectroscopy.py
index ee57e57..5b5896b 100644
--- a/skbeam/core/spectroscopy.py
+++ b/skbeam/core/spectroscopy.py
@@ -178,7 +178,7 @@ def integrate_ROI_spectrum(bin_edges, counts, x_min, x_max):
 
     """
     bin_edges = np.asarray(bin_edges)
-    return integrate_ROI(bin_edges[:-1] + np.diff(bin_edges), counts, x_min, x_max)
+    return integrate_ROI(bin_edges[:-1] + np.diff(bin_edges) / 2, counts, x_min, x_max)
 
 
 def _formatter_array_regions(x, centers, window=1, tab_count=0):
-- 
2.43.0


From 402042982b5517b0299869bcdf877decd7ecf90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:22 +0000
Subject: [PATCH 33/89] fix: peak filters and refinement return arrays when no
 peak is left

---
 skbeam/core/feature.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/feature.py b/skbeam/core/feature.py
index 234724f..39fcef9 100644
--- a/skbeam/core/feature.py
+++ b/skbeam/core/feature.py
@@ -136,6 +136,8 @@ def peak_refinement(x, y, cands, window, refine_function, refine_args=None):
         else:
             out_tmp.append(ret)
 
+    if not out_tmp:
+        return np.array([]), np.array([])
     return tuple([np.array(_) for _ in zip(*out_tmp)])
 
 
@@ -290,7 +292,7 @@ def filter_peak_height(y, cands, thresh, window=5):
         if pk_hght > thresh:
             out_tmp.append(ind)
 
-    return np.array(out_tmp)
+    return np.array(out_tmp, dtype=int)
 
 
 # add our refinement functions as an attribute on peak_refinement
-- 
2.43.0


From 20debf479cba2b31ed323ed376cabcabf10ae9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:22 +0000
Subject: [PATCH 34/89] fix: sgolay2d pads images of unsigned integers
 correctly

---
 skbeam/core/smoothing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skbeam/core/smoothing.py b/skbeam/core/smoothing.py
index 8cfc6d0..a69fb5d 100644
--- a/skbeam/core/smoothing.py
+++ b/skbeam/core/smoothing.py
@@ -67,6 +67,9 @@ def sgolay2d(image, window_size, order, derivative=None):
     if window_size**2 < n_terms:
         raise ValueError("order is too high for the window size")
 
+    # unsigned integers would wrap around in the borders
+    image = np.asarray(image, dtype=float)
+
     half_size = window_size // 2
 
     # exponents of the polynomial.
-- 
2.43.0


From 1d3a5fa09d78ed96a6dd07e42df3eb05af96e852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:22 +0000
Subject: [PATCH 35/89] fix: logical_sub may write to one of its arguments

---
 skbeam/core/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/arithmetic.py b/skbeam/core/arithmetic.py
index f9144a8..089af0e 100644
--- a/skbeam/core/arithmetic.py
+++ b/skbeam/core/arithmetic.py
@@ -164,4 +164,4 @@ def logical_sub(x1, x2, out=None):
            [False, False, False, False, False],
            [ True, False,  True, False,  True]], dtype=bool)
     """
-    return logical_and(x1, logical_not(logical_and(x1, x2, out), out), out)
+    return logical_and(x1, logical_not(x2), out)
-- 
2.43.0


From 3c1a0cf118ff169d16ef0e3969a2694ff551c3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:34 +0000
Subject: [PATCH 36/89] fix: cdi_recon puts the centre of odd-sized patterns at
 the origin

A pattern centred at N // 2 goes to the origin with ifftshift; for odd N,
fftshift leaves the centre one pixel off, so that not even the true object
is a solution.
---
 skbeam/core/cdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/cdi.py b/skbeam/core/cdi.py
index 17ebdee..db016d1 100644
--- a/skbeam/core/cdi.py
+++ b/skbeam/core/cdi.py
@@ -317,7 +317,7 @@ def cdi_recon(
     """
 
     diffracted_pattern = np.array(diffracted_pattern)  # diffraction data
-    diffracted_pattern = np.fft.fftshift(diffracted_pattern)
+    diffracted_pattern = np.fft.ifftshift(diffracted_pattern)
 
     pi_modulus_flag = pi_modulus_flag.lower()
     real_operation = False
-- 
2.43.0


From e5427ae477dd5cd023785df2f69a1292af45d11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:34 +0000
Subject: [PATCH 37/89] fix: cdi_recon calls back after every cb_step
 iterations, as documented

The condition looked at the total number of iterations, so the callback came
either after every iteration or never.
---
 skbeam/core/cdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/cdi.py b/skbeam/core/cdi.py
index db016d1..08002f9 100644
--- a/skbeam/core/cdi.py
+++ b/skbeam/core/cdi.py
@@ -379,7 +379,7 @@ def cdi_recon(
                     sup_error[n] = np.sum(sup_old)
                     sup_old = np.array(sup)
 
-        if cb_function and n_iterations % cb_step == 0:
+        if cb_function and (n + 1) % cb_step == 0:
             cb_function(sample_obj, obj_error, diff_error, sup_error)
 
         if n > start_avg * n_iterations:
-- 
2.43.0


From b8b09f13154ef6455800d1041ac7afc2ca680c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:34 +0000
Subject: [PATCH 38/89] fix: cdi_recon returns the last iteration, not NaN,
 when none is averaged

---
 skbeam/core/cdi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/cdi.py b/skbeam/core/cdi.py
index 08002f9..00d40a7 100644
--- a/skbeam/core/cdi.py
+++ b/skbeam/core/cdi.py
@@ -388,7 +388,8 @@ def cdi_recon(
 
         logger.info("%d object_chi= %f, diff_chi=%f" % (n, obj_error[n], diff_error[n]))
 
-    obj_avg = obj_avg / avg_i
+    # too few iterations to average: the last one is the result
+    obj_avg = obj_avg / avg_i if avg_i else np.array(sample_obj)
     time_end = time.time()
 
     logger.info("%d iterations takes %f sec" % (n_iterations, time_end - time_start))
-- 
2.43.0


From 41cdb42986dc38e11b1bd9535da7e16b653881e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:34 +0000
Subject: [PATCH 39/89] fix: cdi_recon leaves the initial sample of the caller
 alone

The iterations ran in the array of the caller: a second reconstruction
from the same start began where the first one had ended.
---
 skbeam/core/cdi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/cdi.py b/skbeam/core/cdi.py
index 00d40a7..2ca8b19 100644
--- a/skbeam/core/cdi.py
+++ b/skbeam/core/cdi.py
@@ -345,7 +345,7 @@ def cdi_recon(
 
     time_start = time.time()
     for n in range(n_iterations):
-        obj_old = np.array(sample_obj)
+        obj_old = sample_obj
 
         obj_a = pi_modulus(sample_obj, diffracted_pattern)
         if real_operation:
@@ -362,7 +362,7 @@ def cdi_recon(
         if real_operation:
             obj_b = np.abs(obj_b)
 
-        sample_obj += beta * (obj_a - obj_b)
+        sample_obj = sample_obj + beta * (obj_a - obj_b)
 
         # calculate errors
         obj_error[n] = np.linalg.norm(sample_obj - obj_old) / np.linalg.norm(obj_old)
-- 
2.43.0


From 8ef5eb1e237483fd099789fc5cb79c4633b3dc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:34 +0000
Subject: [PATCH 40/89] fix: sup_error is the size of the support that was
 found, as documented

It was the size found one refinement earlier (zero for the first).
---
 skbeam/core/cdi.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/skbeam/core/cdi.py b/skbeam/core/cdi.py
index 2ca8b19..9c7fdde 100644
--- a/skbeam/core/cdi.py
+++ b/skbeam/core/cdi.py
@@ -339,7 +339,6 @@ def cdi_recon(
     diff_error = np.zeros(n_iterations)
     sup_error = np.zeros(n_iterations)
 
-    sup_old = np.zeros_like(diffracted_pattern)
     obj_avg = np.zeros_like(diffracted_pattern).astype(complex)
     avg_i = 0
 
@@ -376,8 +375,7 @@ def cdi_recon(
                     sup = np.zeros_like(diffracted_pattern)
                     sup[sup_index] = 1
                     outside_sup_index = sup != 1
-                    sup_error[n] = np.sum(sup_old)
-                    sup_old = np.array(sup)
+                    sup_error[n] = np.sum(sup)
 
         if cb_function and (n + 1) % cb_step == 0:
             cb_function(sample_obj, obj_error, diff_error, sup_error)
-- 
2.43.0


From 2ab842acbac81bcb816626cebfa6d71ad8b5a261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:34 +0000
Subject: [PATCH 41/89] fix: generate_box_support covers boxes larger than the
 array and takes float radii

A negative start of the slice counted from the end, and float radii, which
the documentation allows, were not accepted.
---
 skbeam/core/cdi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/cdi.py b/skbeam/core/cdi.py
index 9c7fdde..1d37907 100644
--- a/skbeam/core/cdi.py
+++ b/skbeam/core/cdi.py
@@ -201,7 +201,9 @@ def generate_box_support(sup_radius, shape_v):
     sup : array
         support with a box area
     """
-    slc_list = [slice(s // 2 - sup_radius, s // 2 + sup_radius) for s in shape_v]
+    slc_list = [
+        slice(max(int(np.ceil(s // 2 - sup_radius)), 0), int(np.ceil(s // 2 + sup_radius))) for s in shape_v
+    ]
     sup = np.zeros(shape_v)
     sup[tuple(slc_list)] = 1
     return sup
-- 
2.43.0


From 4987d5ea870f7c26d65fdd6bb79b34e0f9956867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:34 +0000
Subject: [PATCH 42/89] fix: image_reduction takes the roi as an array, as
 documented

---
 skbeam/core/dpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/dpc.py b/skbeam/core/dpc.py
index acd8d97..ab9eb52 100644
--- a/skbeam/core/dpc.py
+++ b/skbeam/core/dpc.py
@@ -81,7 +81,7 @@ def image_reduction(im, roi=None, bad_pixels=None):
         for row, column in bad_pixels:
             im[row, column] = 0
 
-    if roi:
+    if roi is not None:
         r, c, row, col = roi
         im = im[r : (r + row), c : (c + col)]
 
-- 
2.43.0


From 5877062f0b467a9d746f441ba0fc0cf836719c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:34 +0000
Subject: [PATCH 43/89] fix: DPC reconstruction honours scale=False and works
 without negation

scale was ignored, and negate=False without scaling had no gradient at all.
---
 skbeam/core/dpc.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/skbeam/core/dpc.py b/skbeam/core/dpc.py
index ab9eb52..4082be6 100644
--- a/skbeam/core/dpc.py
+++ b/skbeam/core/dpc.py
@@ -519,9 +519,9 @@ def reconstruct_phase_from_partial_info(
     """
     if weighting < 0 or weighting > 1:
         raise ValueError("weighting should be within the range of [0, 1]!")
-    gx = None
+    gx = dpc_state.gx
     gy = dpc_state.gy
-    if pixel_size and focus_to_det:
+    if scale and pixel_size and focus_to_det:
         # Convert to wavelength
         lambda_ = 12.4e-4 / energy
         # pre-compute the scaling factor
@@ -529,10 +529,7 @@ def reconstruct_phase_from_partial_info(
         gx = dpc_state.gx * len(dpc_state.ref_fx) * scale
         gy = dpc_state.gy * len(dpc_state.ref_fy) * scale
     if negate:
-        if gx is not None:
-            gx *= -1
-        else:
-            gx = dpc_state.gx * -1
+        gx = gx * -1
     # Reconstruct the final phase image
     phase = recon(gx, gy, scan_xstep, scan_ystep, padding, weighting)
 
-- 
2.43.0


From 07b38e02e73987ebe6e3aec546570f920fb585ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:54 +0000
Subject: [PATCH 44/89] fix: gsas_writer does not scale the angles of FXYE
 files

With intensities above 999999 the angles were written scaled like the
intensities.
---
 skbeam/io/save_powder_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/io/save_powder_output.py b/skbeam/io/save_powder_output.py
index cb4f804..93b0378 100644
--- a/skbeam/io/save_powder_output.py
+++ b/skbeam/io/save_powder_output.py
@@ -227,7 +227,7 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
         )
         lines.append("%-80s" % l_bank)
         l_recs = [
-            "%22.10f%22.10f%24.10f" % (xx * scale, yy * scale, ee * scale)
+            "%22.10f%22.10f%24.10f" % (xx, yy * scale, ee * scale)
             for xx, yy, ee in zip(tth, intensity, err)
         ]
         for i in range(len(l_recs)):
-- 
2.43.0


From 3d6118d8505c31310796708097ae970c5ff76950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:54 +0000
Subject: [PATCH 45/89] fix: gsas_writer scales intensities of ESD files along
 with their errors

---
 skbeam/io/save_powder_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/io/save_powder_output.py b/skbeam/io/save_powder_output.py
index 93b0378..171dc58 100644
--- a/skbeam/io/save_powder_output.py
+++ b/skbeam/io/save_powder_output.py
@@ -211,7 +211,7 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
             0,
         )
         lines.append("%-80s" % l_bank)
-        l_recs = ["%8.0f%8.0f" % (ii, ee * scale) for ii, ee in zip(intensity, err)]
+        l_recs = ["%8.0f%8.0f" % (ii * scale, ee * scale) for ii, ee in zip(intensity, err)]
         for i in range(0, len(l_recs), 5):
             lines.append("".join(l_recs[i : i + 5]))
     elif mode == "FXYE":
-- 
2.43.0


From 04600c262d90f4ae33be0f95ac5f5818acc77fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:54 +0000
Subject: [PATCH 46/89] fix: gsas_writer does not delete an existing file when
 it refuses the mode

The mode was only looked at after the file of the same name had been removed.
---
 skbeam/io/save_powder_output.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/skbeam/io/save_powder_output.py b/skbeam/io/save_powder_output.py
index 171dc58..c4e33e0 100644
--- a/skbeam/io/save_powder_output.py
+++ b/skbeam/io/save_powder_output.py
@@ -160,6 +160,11 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
 
     _validate_input(tth, intensity, err, ext)
 
+    if err is None:
+        mode = "STD"
+    if mode not in ("STD", "ESD", "FXYE"):
+        raise ValueError("  Define the GSAS file type   ")
+
     file_path = _create_file_path(dir_path, output_name, ext)
 
     max_intensity = 999999
@@ -181,9 +186,6 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
     tth0_cdg = tth[0] * 100
     dtth_cdg = (tth[-1] - tth[0]) / (len(tth) - 1) * 100
 
-    if err is None:
-        mode = "STD"
-
     if mode == "STD":
         n_rec = int(np.ceil(n_chan / 10.0))
         l_bank = "BANK %5i %8i %8i CONST %9.5f %9.5f %9.5f %9.5f STD" % (
@@ -214,7 +216,7 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
         l_recs = ["%8.0f%8.0f" % (ii * scale, ee * scale) for ii, ee in zip(intensity, err)]
         for i in range(0, len(l_recs), 5):
             lines.append("".join(l_recs[i : i + 5]))
-    elif mode == "FXYE":
+    else:
         n_rec = n_chan
         l_bank = "BANK %5i %8i %8i CONST %9.5f %9.5f %9.5f %9.5f FXYE" % (
             i_bank,
@@ -232,8 +234,6 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
         ]
         for i in range(len(l_recs)):
             lines.append("%-80s" % l_recs[i])
-    else:
-        raise ValueError("  Define the GSAS file type   ")
 
     lines[-1] = "%-80s" % lines[-1]
     rv = "\r\n".join(lines) + "\r\n"
-- 
2.43.0


From 6a0fb69ab6e42b6f63b03c710d64a58617dc3bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:54 +0000
Subject: [PATCH 47/89] fix: gsas_reader returns as many points of an ESD file
 as there are

The last record was always taken for five points, blank ones included.
---
 skbeam/io/gsas_file_reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skbeam/io/gsas_file_reader.py b/skbeam/io/gsas_file_reader.py
index 642a0a8..d96d10c 100644
--- a/skbeam/io/gsas_file_reader.py
+++ b/skbeam/io/gsas_file_reader.py
@@ -163,9 +163,14 @@ def _get_esd_data(file):
         start = float(S[0].split()[5]) / 100.0
         step = float(S[0].split()[6]) / 100.0
 
+        # number of data values(two theta or intensity)
+        nch = int(S[0].split()[2])
+
         j = 0
         for line in S[1:]:
             for i in range(0, 80, 16):
+                if j >= nch:
+                    break
                 xi = start + step * j
                 yi = _sfloat(line[i : i + 8])
                 ei = _sfloat(line[i + 8 : i + 16])
-- 
2.43.0


From 460ea5ae74da6371a912c8e7eb844c5cabc6deca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:54 +0000
Subject: [PATCH 48/89] fix: load_netCDF reads volumes without a scale factor,
 or with a factor of 1

A missing attribute raised AttributeError instead of using the documented
default, and a netCDF variable cannot be divided by a float in place.
---
 skbeam/io/net_cdf_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/io/net_cdf_io.py b/skbeam/io/net_cdf_io.py
index 6cd0671..f18457d 100644
--- a/skbeam/io/net_cdf_io.py
+++ b/skbeam/io/net_cdf_io.py
@@ -69,7 +69,7 @@ def load_netCDF(file_name):
         data = src_file.variables["VOLUME"]
         md_dict = src_file.__dict__
         # Check for voxel intensity scale factor and apply if value is present
-        data /= data.scale_factor if data.scale_factor != 1.0 else 1.0
+        data = data[:] / getattr(data, "scale_factor", 1.0)
 
     # Accounts for specific case where z_pixel_size doesn't get assigned
     # even though dimensions are actuall isotropic. This occurs when
-- 
2.43.0


From 8acd7c6efb280a3f556f83622807cf42d48ca9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:54 +0000
Subject: [PATCH 49/89] fix: AmiraMesh files can be read with Python 3

Binary data was read as text, str.translate and filter were used the way of
Python 2, numpy knows no types h4 and H4, two ellipses are not an index,
newlines at either end of binary data were dropped, and a file without a
data section was read forever.
---
 skbeam/io/avizo_io.py | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/skbeam/io/avizo_io.py b/skbeam/io/avizo_io.py
index 698ff0c..ff2bffe 100644
--- a/skbeam/io/avizo_io.py
+++ b/skbeam/io/avizo_io.py
@@ -21,15 +21,17 @@ def _read_amira(src_file):
     am_header : list of strings
         This list contains all of the raw information contained in the
         AmiraMesh file header. Contains all of the raw header information
-    am_data : str
+    am_data : bytes
         A compiled string containing all of the image array data, that was
         stored in the source AmiraMesh data file. Contains the raw image data
     """
     am_header = []
     am_data = []
-    with open(os.path.normpath(src_file), "r") as input_file:
+    with open(os.path.normpath(src_file), "rb") as input_file:
         while True:
-            line = input_file.readline()
+            line = input_file.readline().decode("latin-1")
+            if not line:
+                raise ValueError("No data section found in {!r}".format(src_file))
             am_header.append(line)
             if line == "# Data section follows\n":
                 input_file.readline()
@@ -48,8 +50,8 @@ def _amira_data_to_numpy(am_data, header_dict, flip_z=True):
 
     Parameters
     ----------
-    am_data : str
-        String object containing all of the image array data, formatted as IEEE
+    am_data : bytes
+        Bytes object containing all of the image array data, formatted as IEEE
         binary. Current dType options include:
             float
             short
@@ -85,27 +87,23 @@ def _amira_data_to_numpy(am_data, header_dict, flip_z=True):
     # Dictionary of the encoding types for AmiraMesh files
     am_format_dict = {"BINARY-LITTLE-ENDIAN": "<", "BINARY": ">", "ASCII": "unknown"}
     # Dictionary of the data types encountered so far in AmiraMesh files
-    am_dtype_dict = {"float": "f4", "short": "h4", "ushort": "H4", "byte": "b"}
+    am_dtype_dict = {"float": "f4", "short": "i2", "ushort": "u2", "byte": "b"}
     # Had to split out the stripping of new line characters and conversion
     # of the original string data based on whether source data is BINARY
     # format or ASCII format. These format types require different stripping
     # tools and different string conversion tools.
-    if header_dict["data_format"] == "BINARY-LITTLE-ENDIAN":
-        data_strip = am_data.strip("\n")
-        flt_values = np.fromstring(
-            data_strip, (am_format_dict[header_dict["data_format"]] + am_dtype_dict[header_dict["data_type"]])
-        )
     if header_dict["data_format"] == "ASCII":
-        data_strip = am_data.translate(None, "\n")
-        string_list = data_strip.split(" ")
-        string_list = string_list[0 : (len(string_list) - 2)]
-        flt_values = np.array(string_list).astype(am_dtype_dict[header_dict["data_type"]])
-    # Resize the 1D array to the correct ndarray dimensions
-    # Note that resize is in-place whereas reshape is not
-    flt_values.resize(Zdim, Ydim, Xdim)
-    output = flt_values
+        flt_values = np.array(am_data.split()).astype(am_dtype_dict[header_dict["data_type"]])
+    else:
+        flt_values = np.frombuffer(
+            am_data,
+            am_format_dict[header_dict["data_format"]] + am_dtype_dict[header_dict["data_type"]],
+            count=Zdim * Ydim * Xdim,
+        ).copy()
+    # Reshape the 1D array to the correct ndarray dimensions
+    output = flt_values.reshape(Zdim, Ydim, Xdim)
     if flip_z:
-        output = flt_values[::-1, ..., ...]
+        output = output[::-1]
     return output
 
 
@@ -131,8 +129,8 @@ def _clean_amira_header(header_list):
     """
     clean_header = []
     for row in header_list:
-        split_header = filter(None, [word.translate(None, ',"') for word in row.strip("\n").split()])
-        clean_header.append(split_header)
+        words = [word.replace(",", "").replace('"', "") for word in row.strip("\n").split()]
+        clean_header.append([word for word in words if word])
     return clean_header
 
 
-- 
2.43.0


From 73bee6a099d65c0fe6a1a1ebb0e1bb333ad9dc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:15 +0000
Subject: [PATCH 50/89] fix: ParamController names the parameters of pileup
 peaks as the model does

The names lacked an underscore, so position, width and ratio of a pileup
peak were ignored by ModelSpectrum.
---
 skbeam/core/fitting/xrf_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 691f997..0087cdd 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -535,7 +535,7 @@ class ParamController(object):
             self.params.update({param_name: new_pos})
         else:  # for pileup peak
             linename = "pileup_" + element.replace("-", "_")
-            param_name = linename + param_suffix  # as in lmfit Model
+            param_name = "_".join((linename, param_suffix))  # as in lmfit Model
             new_pos = PARAM_DEFAULTS[kind].copy()
             if constraint is not None:
                 self._element_strategy[param_name] = constraint
-- 
2.43.0


From fd69aa79af5bd251d521a2ef6c7c7cefe2d1f822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:15 +0000
Subject: [PATCH 51/89] fix: get_activated_lines returns all lines of the given
 series, and no others

The K lines after the fourth of the table were missing for K series and
counted as lines of the L series.
---
 skbeam/core/fitting/xrf_model.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 0087cdd..2aaaace 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1453,8 +1453,7 @@ def _get_activated_line(incident_energy, elemental_line):
         e = Element(element)
         if e.cs(incident_energy)["ka1"] == 0:
             return
-        for num, item in enumerate(e.emission_line.all[:4]):
-            line_name = item[0]
+        for line_name in K_TRANSITIONS:
             if e.cs(incident_energy)[line_name] == 0:
                 continue
             line_list.append(str(element) + "_" + str(line_name))
@@ -1465,8 +1464,7 @@ def _get_activated_line(incident_energy, elemental_line):
         e = Element(element)
         if e.cs(incident_energy)["la1"] == 0:
             return
-        for num, item in enumerate(e.emission_line.all[4:-4]):
-            line_name = item[0]
+        for line_name in L_TRANSITIONS:
             if e.cs(incident_energy)[line_name] == 0:
                 continue
             line_list.append(str(element) + "_" + str(line_name))
@@ -1477,8 +1475,7 @@ def _get_activated_line(incident_energy, elemental_line):
         e = Element(element)
         if e.cs(incident_energy)["ma1"] == 0:
             return
-        for num, item in enumerate(e.emission_line.all[-4:]):
-            line_name = item[0]
+        for line_name in M_TRANSITIONS:
             if e.cs(incident_energy)[line_name] == 0:
                 continue
             line_list.append(str(element) + "_" + str(line_name))
-- 
2.43.0


From d00f0e3d7c4b8583a061b34b31c8ecd3391f406e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:15 +0000
Subject: [PATCH 52/89] fix: assemble_models skips elements which are not
 activated

It raised a TypeError, as setup_element_model returns None for them.
---
 skbeam/core/fitting/xrf_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 2aaaace..10e86ad 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1065,7 +1065,9 @@ class ModelSpectrum(object):
         self.mod = self.compton + self.elastic
 
         for element in self.elemental_lines:
-            self.mod += self.setup_element_model(element)
+            element_model = self.setup_element_model(element)
+            if element_model is not None:
+                self.mod += element_model
 
         # This is just a copy of the parameter list. Multiple occurrances.
         param_hints_elements = self._global_param_hints_elements_to_copy
-- 
2.43.0


From 8a4f4bc73e9981d53df85646bc473c9735f27878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:15 +0000
Subject: [PATCH 53/89] fix: fit_pixel_multiprocess_nnls works without snip
 background

use_snip=False, the default, raised UnboundLocalError.
---
 skbeam/core/fitting/xrf_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 10e86ad..ec31d21 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1518,7 +1518,7 @@ def fit_per_line_nnls(data, matv, param, use_snip):
             bg_sum = np.sum(bg)
             result, res = nnls_fit(y - bg, matv, weights=None)
         else:
-            result, res = nnls_fit(y - bg, matv, weights=None)
+            result, res = nnls_fit(y, matv, weights=None)
 
         sst = np.sum((y - np.mean(y)) ** 2)
         r2 = 1 - res / sst
-- 
2.43.0


From 86dae2da27e914790835e2aaae9cf77df6e48cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:16 +0000
Subject: [PATCH 54/89] fix: r_squared of fit_per_line_nnls is computed from
 the squared residual

nnls returns the norm of the residual, not its square.
---
 skbeam/core/fitting/xrf_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index ec31d21..5c8f768 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1521,7 +1521,7 @@ def fit_per_line_nnls(data, matv, param, use_snip):
             result, res = nnls_fit(y, matv, weights=None)
 
         sst = np.sum((y - np.mean(y)) ** 2)
-        r2 = 1 - res / sst
+        r2 = 1 - res**2 / sst
         result = list(result) + [bg_sum, r2]
         out.append(result)
     return np.array(out)
-- 
2.43.0


From 51e12d8a2e71b56a4e3d0ffe9b4e35a0129afec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:16 +0000
Subject: [PATCH 55/89] fix: set_default works with Python 3.11 and later

inspect.getargspec has been removed.
---
 skbeam/core/fitting/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/models.py b/skbeam/core/fitting/models.py
index 330ad4f..1687524 100644
--- a/skbeam/core/fitting/models.py
+++ b/skbeam/core/fitting/models.py
@@ -65,7 +65,7 @@ def set_default(model_name, func_name):
     func_name : function
         function name of physics peak
     """
-    paras = inspect.getargspec(func_name)
+    paras = inspect.getfullargspec(func_name)
 
     # the first argument is independent variable, also ignored
     # default values are not considered for fitting in this function
-- 
2.43.0


From e6e0a272ccac3c9f0f6d44e2b240699982e63ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:16 +0000
Subject: [PATCH 56/89] fix: get_para returns a copy of the default parameters

Changes a caller made to the returned dictionary, for instance with
set_parameter_bound, altered the defaults of all later calls.
---
 skbeam/core/fitting/base/parameter_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/base/parameter_data.py b/skbeam/core/fitting/base/parameter_data.py
index 3f78935..364acc9 100644
--- a/skbeam/core/fitting/base/parameter_data.py
+++ b/skbeam/core/fitting/base/parameter_data.py
@@ -43,6 +43,8 @@
 ########################################################################
 from __future__ import absolute_import, division, print_function
 
+import copy
+
 """
 Parameter dictionary are included for xrf fitting.
 Element data not included.
@@ -282,4 +284,4 @@ def get_para():
     based on different algorithms.
     Use copy for dict.
     """
-    return default_param
+    return copy.deepcopy(default_param)
-- 
2.43.0


From 693c6f5d950138b1eee3279d9bdefe66d7c7ff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:16 +0000
Subject: [PATCH 57/89] fix: poisson_dist is right for larger integer means

The power of an integer mean count overflowed, which gave negative or
wrong probabilities.
---
 skbeam/core/fitting/lineshapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/fitting/lineshapes.py b/skbeam/core/fitting/lineshapes.py
index cf1c418..a658060 100644
--- a/skbeam/core/fitting/lineshapes.py
+++ b/skbeam/core/fitting/lineshapes.py
@@ -49,7 +49,7 @@ import logging
 import numpy as np
 import scipy.special
 from scipy import stats
-from scipy.special import gamma, gammaln
+from scipy.special import gammaln, xlogy
 
 logger = logging.getLogger(__name__)
 
@@ -497,5 +497,5 @@ def poisson_dist(bin_values, K):
         P(K) = \\frac{<K>^K}{K!}\\exp(-<K>)
     """
 
-    poisson_dist = np.exp(-K) * np.power(K, bin_values) / gamma(bin_values + 1)
+    poisson_dist = np.exp(xlogy(bin_values, K) - K - gammaln(np.asarray(bin_values) + 1))
     return poisson_dist
-- 
2.43.0


From e6f539d810ee08bada29386d2ddcc067215f67c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:49 +0000
Subject: [PATCH 58/89] fix: compton accepts integer channels with an integer
 calibration

It raised a casting error.
---
 skbeam/core/fitting/lineshapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/lineshapes.py b/skbeam/core/fitting/lineshapes.py
index a658060..4481254 100644
--- a/skbeam/core/fitting/lineshapes.py
+++ b/skbeam/core/fitting/lineshapes.py
@@ -366,7 +366,7 @@ def compton(
     temp_val = 2 * np.sqrt(2 * np.log(2))
     sigma = np.sqrt((fwhm_offset / temp_val) ** 2 + compton_e * epsilon * fwhm_fanoprime)
 
-    counts = np.zeros_like(x)
+    counts = np.zeros_like(x, dtype=float)
 
     factor = 1 / (1 + compton_f_step + compton_f_tail + compton_hi_f_tail)
 
-- 
2.43.0


From 7d4d50377db033532d6aeefa45d9e4075257080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:30 +0000
Subject: [PATCH 59/89] fix: get_line_energy finds lines with a name of two
 letters (Ll, Ln, Mb, Mg)

---
 skbeam/core/fitting/xrf_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 5c8f768..2ccf590 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1127,14 +1127,14 @@ def get_line_energy(elemental_line):
     """
     name, line = elemental_line.split("_")
     line = line.lower()
+    e = Element(name)
 
     # Complete the emission line name
     if len(line) == 1:  # elemental line format 'Ca_K'
         line += "a1"
-    elif len(line) == 2:  # elemental line format 'Ca_Ka'
+    elif len(line) == 2 and line not in e.emission_line:  # 'Ca_Ka', but not 'Pt_Mb' or 'Pt_Ll'
         line += "1"
 
-    e = Element(name)
     e_cen = e.emission_line[line]
     return e_cen
 
-- 
2.43.0


From ded91e70f0442da046914fb710e75e37aa9e52f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:34 +0000
Subject: [PATCH 60/89] fix: bin_1D sums counts of narrow integer types without
 overflow

---
 skbeam/core/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 22a9061..4d07036 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -572,7 +572,8 @@ def bin_1D(x, y, nx=None, min_x=None, max_x=None):
 
     # use a weighted histogram to get the bin sum
     bins = np.linspace(start=min_x, stop=max_x, num=nx + 1, endpoint=True)
-    val, _ = np.histogram(a=x, bins=bins, weights=y)
+    # (in floating point, narrow integers would overflow)
+    val, _ = np.histogram(a=x, bins=bins, weights=np.asarray(y, dtype=float))
     # use an un-weighted histogram to get the counts
     count, _ = np.histogram(a=x, bins=bins)
     # return the three arrays
-- 
2.43.0


From 3dd0a1f53922ad685759d6e7df389374dff6e488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:34 +0000
Subject: [PATCH 61/89] fix: subtract_reference_images does not wrap around for
 unsigned images

---
 skbeam/core/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 4d07036..bbcfdd7 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -466,7 +466,9 @@ def subtract_reference_images(imgs, is_reference):
             ref_imge = imgs
             continue
         # else, do the subtraction
-        corrected_image.append(imgs - ref_imge)
+        # (in a signed type, differences of unsigned counts would wrap around)
+        dtype = np.result_type(imgs, ref_imge, np.int8)
+        corrected_image.append(np.subtract(imgs, ref_imge, dtype=dtype))
 
     # return the output as a list
     return list(corrected_image)
-- 
2.43.0


From 510fcf2d408bf1fe2d0fa2bee0def53aa1c711d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:34 +0000
Subject: [PATCH 62/89] fix: bin_edges_to_centers of narrow integers does not
 overflow

---
 skbeam/core/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index bbcfdd7..d2640d5 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -989,7 +989,8 @@ def bin_edges_to_centers(input_edges):
     centers : ndarray
         A length N array giving the centers of the bins
     """
-    input_edges = np.asarray(input_edges)
+    # 1.0: sums of narrow integers would overflow
+    input_edges = 1.0 * np.asarray(input_edges)
     return (input_edges[:-1] + input_edges[1:]) * 0.5
 
 
-- 
2.43.0


From 9da3225d9cdb63847025ed63f61d43bcd16bcf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:34 +0000
Subject: [PATCH 63/89] fix: xsvs adds up frames of narrow integer types
 without overflow

---
 skbeam/core/speckle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/speckle.py b/skbeam/core/speckle.py
index 3b501d1..5f43782 100644
--- a/skbeam/core/speckle.py
+++ b/skbeam/core/speckle.py
@@ -174,7 +174,8 @@ def xsvs(image_sets, label_array, number_of_img, timebin_num=2, max_cts=None):
             cur[0] = (1 + cur[0]) % timebin_num
             # read each frame
             # Put the image into the ring buffer.
-            buf[0, cur[0] - 1] = (np.ravel(img))[indices]
+            # add up frames in floating point, narrow integers would overflow
+            buf[0, cur[0] - 1] = (np.ravel(img))[indices].astype(float)
 
             _process(
                 num_roi,
-- 
2.43.0


From 326b20e94f3e3280db92976a576303ad1dd808a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:34 +0000
Subject: [PATCH 64/89] fix: find_ring_center_acorr_1D does not overflow for
 integer images

---
 skbeam/core/image.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skbeam/core/image.py b/skbeam/core/image.py
index 98e33a6..2003bfb 100644
--- a/skbeam/core/image.py
+++ b/skbeam/core/image.py
@@ -97,6 +97,8 @@ def _corr_ax1(input_image):
     m_ones = np.ones(dim)
     norm_mask = np.correlate(m_ones, m_ones, mode="full")
     # not sure that the /2 is the correct correction
+    # floating point: products of integer counts would overflow
+    input_image = np.asarray(input_image, dtype=float)
     est_by_row = [np.argmax(np.correlate(v, v[::-1], mode="full") / norm_mask) / 2 for v in input_image]
     return np.histogram(est_by_row, bins=np.arange(0, dim + 1))
 
-- 
2.43.0


From 18b69e9454961e51f8926b7b8fd7926146a7bd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:34 +0000
Subject: [PATCH 65/89] fix: fit_quad_to_peak takes integers of any type

---
 skbeam/core/fitting/funcs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skbeam/core/fitting/funcs.py b/skbeam/core/fitting/funcs.py
index 51eff98..38ec02a 100644
--- a/skbeam/core/fitting/funcs.py
+++ b/skbeam/core/fitting/funcs.py
@@ -31,6 +31,9 @@ def fit_quad_to_peak(x, y):
     # some sanity checks
     if lenx < 3:
         raise Exception("insufficient points handed in ")
+    # squares of integers may overflow
+    x = np.asarray(x, dtype=float)
+    y = np.asarray(y, dtype=float)
     # set up fitting array
     X = np.vstack((x**2, x, np.ones(lenx))).T
     # use linear least squares fitting
-- 
2.43.0


From bbff278a81cf1e662bafcc310500eec4ea451aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:34 +0000
Subject: [PATCH 66/89] fix: refine_log_quadratic takes logarithms in full
 precision

---
 skbeam/core/feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/feature.py b/skbeam/core/feature.py
index 39fcef9..81c69d9 100644
--- a/skbeam/core/feature.py
+++ b/skbeam/core/feature.py
@@ -212,7 +212,7 @@ def refine_log_quadratic(x, y, Rval_thresh=None):
        interval
 
     """
-    beta, R2 = fit_quad_to_peak(x, np.log(y))
+    beta, R2 = fit_quad_to_peak(x, np.log(np.asarray(y, dtype=float)))
     if Rval_thresh is not None and R2 < Rval_thresh:
         raise PeakRejection()
 
-- 
2.43.0


From 695b1d7cc403d9a210f08eae5b4398f895c10552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:34 +0000
Subject: [PATCH 67/89] fix: find_largest_peak takes logarithms in full
 precision

---
 skbeam/core/spectroscopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/spectroscopy.py b/skbeam/core/spectroscopy.py
index 5b5896b..38fcbb0 100644
--- a/skbeam/core/spectroscopy.py
+++ b/skbeam/core/spectroscopy.py
@@ -135,7 +135,7 @@ def find_largest_peak(x, y, window=None):
     else:
         roi = slice(None)
 
-    (w, x0, y0), r2 = fit_quad_to_peak(x[roi], np.log(y[roi]))
+    (w, x0, y0), r2 = fit_quad_to_peak(x[roi], np.log(y[roi].astype(float)))
     return x0, np.exp(y0), 1 / np.sqrt(-2 * w)
 
 
-- 
2.43.0


From 24e11552bc7c5f370e01b07c0c1a54995519e4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:34 +0000
Subject: [PATCH 68/89] fix: line shapes and counting statistics take positions
 of unsigned and narrow types

---
 skbeam/core/fitting/lineshapes.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/skbeam/core/fitting/lineshapes.py b/skbeam/core/fitting/lineshapes.py
index 4481254..2c86a74 100644
--- a/skbeam/core/fitting/lineshapes.py
+++ b/skbeam/core/fitting/lineshapes.py
@@ -111,7 +111,7 @@ def lorentzian2(x, area, center, sigma):
         standard deviation
     """
 
-    return (area / (1 + ((x - center) / sigma) ** 2) ** 2) / (np.pi * sigma)
+    return (area / (1 + ((1.0 * x - center) / sigma) ** 2) ** 2) / (np.pi * sigma)
 
 
 def voigt(x, area, center, sigma, gamma=None):
@@ -135,7 +135,7 @@ def voigt(x, area, center, sigma, gamma=None):
     """
     if gamma is None:
         gamma = sigma
-    z = (x - center + 1j * gamma) / (sigma * s2)
+    z = (1.0 * x - center + 1j * gamma) / (sigma * s2)
     return area * scipy.special.wofz(z).real / (sigma * s2pi)
 
 
@@ -189,7 +189,7 @@ def gausssian_step(x, area, center, sigma, peak_e):
         (Practical Spectroscopy)", CRC Press, 2 edition, pp. 182, 2007.
     """
 
-    return area * scipy.special.erfc((x - center) / (np.sqrt(2) * sigma)) / (2.0 * peak_e)
+    return area * scipy.special.erfc((1.0 * x - center) / (np.sqrt(2) * sigma)) / (2.0 * peak_e)
 
 
 def gaussian_tail(x, area, center, sigma, gamma):
@@ -222,12 +222,12 @@ def gaussian_tail(x, area, center, sigma, gamma):
         (Practical Spectroscopy)", CRC Press, 2 edition, pp. 182, 2007.
     """
 
-    dx_neg = np.array(x) - center
+    dx_neg = 1.0 * np.array(x) - center
     dx_neg[dx_neg > 0] = 0
 
     temp_a = np.exp(dx_neg / (gamma * sigma))
 
-    v1 = scipy.special.erfc((x - center) / (np.sqrt(2) * sigma) + (1 / (gamma * np.sqrt(2))))
+    v1 = scipy.special.erfc((1.0 * x - center) / (np.sqrt(2) * sigma) + (1 / (gamma * np.sqrt(2))))
     v2 = 2 * gamma * sigma * np.exp(-0.5 / (gamma**2))
     counts = area * temp_a * (v1 / v2)
 
@@ -276,6 +276,7 @@ def elastic(
         elastic peak
     """
 
+    x = 1.0 * x  # squares of narrow integers would overflow
     x = e_offset + x * e_linear + x**2 * e_quadratic
 
     temp_val = 2 * np.sqrt(2 * np.log(2))
@@ -356,6 +357,7 @@ def compton(
         2003.
     """
 
+    x = 1.0 * x  # squares of narrow integers would overflow
     x = e_offset + x * e_linear + x**2 * e_quadratic
 
     # the rest-mass energy of an electron (511 keV)
@@ -464,7 +466,7 @@ def nbinom_dist(bin_values, K, M):
         vol 21, p 1288-1295, 2014.
 
     """
-    co_eff = np.exp(gammaln(bin_values + M) - gammaln(bin_values + 1) - gammaln(M))
+    co_eff = np.exp(gammaln(bin_values + M) - gammaln(bin_values + 1.0) - gammaln(M))
 
     nbinom = co_eff * np.power(M / (K + M), M) * np.power(K / (M + K), bin_values)
     return nbinom
@@ -497,5 +499,5 @@ def poisson_dist(bin_values, K):
         P(K) = \\frac{<K>^K}{K!}\\exp(-<K>)
     """
 
-    poisson_dist = np.exp(xlogy(bin_values, K) - K - gammaln(np.asarray(bin_values) + 1))
+    poisson_dist = np.exp(xlogy(bin_values, K) - K - gammaln(np.asarray(bin_values) + 1.0))
     return poisson_dist
-- 
2.43.0


From db1fc448728b18c2b277565041fce828be03fb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:34 +0000
Subject: [PATCH 69/89] fix: standard deviation of binned values of narrow
 integer types, or far from zero

---
 skbeam/core/accumulators/binned_statistic.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index f7eab86..36f3604 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -296,11 +296,13 @@ class BinnedStatisticDD(object):
         elif statistic == "std":
             self.result.fill(0)
             flatsum = np.bincount(self.xy, values)
-            flatsum2 = np.bincount(self.xy, values**2)
             a = self.flatcount.nonzero()
-            variance = flatsum2[a] / self.flatcount[a] - (flatsum[a] / self.flatcount[a]) ** 2
-            # rounding can make the variance of (nearly) equal values negative
-            self.result[a] = np.sqrt(np.maximum(variance, 0))
+            mean = np.zeros(len(self.flatcount))
+            mean[a] = flatsum[a] / self.flatcount[a]
+            # deviations from the mean: squares of narrow integers would overflow,
+            # and differences of squares lose the digits that matter
+            flatsum2 = np.bincount(self.xy, (np.asarray(values, dtype=float) - mean[self.xy]) ** 2)
+            self.result[a] = np.sqrt(flatsum2[a] / self.flatcount[a])
         elif statistic == "count":
             self.result.fill(0)
             a = np.arange(len(self.flatcount))
@@ -326,7 +328,7 @@ class BinnedStatisticDD(object):
                 np.seterr(**old)
             self.result.fill(null)
 
-            vfs = values[self.argsort_index]
+            vfs = np.asarray(values)[self.argsort_index]
             i = 0
             for j, k in enumerate(self.flatcount):
                 if k > 0:
-- 
2.43.0


From 2c75edd4a7357f18537080f9d6344832dce7c614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:39 +0000
Subject: [PATCH 70/89] fix: roi_max_counts returns a number that does not
 overflow for narrow integer images

---
 skbeam/core/roi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index 1d29f64..b03cd10 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -326,7 +326,8 @@ def roi_max_counts(images_sets, label_array):
     max_cts = 0
     for img_set in images_sets:
         for img in img_set:
-            max_cts = max(max_cts, ndimage.maximum(img, label_array))
+            # a Python number: narrow types would overflow in what is done with it
+            max_cts = max(max_cts, np.asarray(ndimage.maximum(img, label_array)).item())
     return max_cts
 
 
-- 
2.43.0


From 6b96e6dc7984a2a43cadb3ba48b9eb0b629fd052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:04 +0000
Subject: [PATCH 71/89] fix: counting statistics of narrow integer counts in
 full precision

---
 skbeam/core/fitting/lineshapes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/lineshapes.py b/skbeam/core/fitting/lineshapes.py
index 2c86a74..f57414e 100644
--- a/skbeam/core/fitting/lineshapes.py
+++ b/skbeam/core/fitting/lineshapes.py
@@ -466,6 +466,7 @@ def nbinom_dist(bin_values, K, M):
         vol 21, p 1288-1295, 2014.
 
     """
+    bin_values = np.asarray(bin_values, dtype=float)  # narrow integers overflow or lose digits
     co_eff = np.exp(gammaln(bin_values + M) - gammaln(bin_values + 1.0) - gammaln(M))
 
     nbinom = co_eff * np.power(M / (K + M), M) * np.power(K / (M + K), bin_values)
@@ -499,5 +500,6 @@ def poisson_dist(bin_values, K):
         P(K) = \\frac{<K>^K}{K!}\\exp(-<K>)
     """
 
-    poisson_dist = np.exp(xlogy(bin_values, K) - K - gammaln(np.asarray(bin_values) + 1.0))
+    bin_values = np.asarray(bin_values, dtype=float)  # narrow integers overflow or lose digits
+    poisson_dist = np.exp(xlogy(bin_values, K) - K - gammaln(bin_values + 1.0))
     return poisson_dist
-- 
2.43.0


From 86abfb14a00be3309bf6c7b41326e719bd1bd616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:59 +0000
Subject: [PATCH 72/89] fix: standard error of voxels filled in an earlier
 gridding call

---
 src/ctrans.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index c257752..cb0c6a2 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -531,7 +531,7 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
   // Calculate the stderror
 
   for(j=0;j<grid_size;j++){
-    if(threadData[0].nout[j] == 0){
+    if(nout[j] == 0){
       stderror[j] = 0.0;
     } else {
       double var = (d2out[j] - pow(dout[j], 2) / nout[j]) / nout[j];
-- 
2.43.0


From 213cfb826d3ba49b40759419d37a111c9f5b2e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:59 +0000
Subject: [PATCH 73/89] fix: read the ignore_nan flag of the gridder as the
 integer it is

---
 src/ctrans.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index cb0c6a2..1dff4f4 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -319,7 +319,7 @@ static PyObject* gridder_3D(PyObject *self, PyObject *args, PyObject *kwargs){
   static char *kwlist[] = { "data", "xrange", "yrange", "zrange", "ignore_nan",
                             "gridout", "grid2out", "nout", NULL };
 
-  if(!PyArg_ParseTupleAndKeywords(args, kwargs, "O(ddd)(ddd)(lll)|dOOO", kwlist,
+  if(!PyArg_ParseTupleAndKeywords(args, kwargs, "O(ddd)(ddd)(lll)|iOOO", kwlist,
 				  &_I,
 				  &grid_start[0], &grid_start[1], &grid_start[2],
 				  &grid_stop[0], &grid_stop[1], &grid_stop[2],
-- 
2.43.0


From 1e1ad5daf0fd4b0e8c845c72492b41cab90a760f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:10 +0000
Subject: [PATCH 74/89] fix: energies of fluorescence channels given as narrow
 integers

The square of a channel number overflowed (or lost digits) in its own type,
so element lines ended up at the wrong energy.
---
 skbeam/core/fitting/xrf_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 2ccf590..49c03e2 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -154,6 +154,7 @@ def element_peak_xrf(
         temp_val = 2 * np.sqrt(2 * np.log(2))
         return np.sqrt((fwhm_offset / temp_val) ** 2 + center * epsilon * fwhm_fanoprime)
 
+    x = 1.0 * x  # squares of narrow integers would overflow
     x = e_offset + x * e_linear + x**2 * e_quadratic
 
     return (
@@ -1393,6 +1394,7 @@ def linear_spectrum_fitting(x, y, params, elemental_lines=None, weights=None):
     total_y = out * matv
     total_y = np.transpose(total_y)
 
+    x = 1.0 * x  # squares of narrow integers would overflow
     x_energy = (
         params["e_offset"]["value"] + params["e_linear"]["value"] * x + params["e_quadratic"]["value"] * x**2
     )
-- 
2.43.0


From 37bf4259511aa73f4d90fff458ab58311a58e85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:10 +0000
Subject: [PATCH 75/89] fix: weights of narrow integer types in nnls_fit

Their square roots were taken in half precision.
---
 skbeam/core/fitting/xrf_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 49c03e2..7224b69 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1333,6 +1333,7 @@ def nnls_fit(spectrum, expected_matrix, weights=None):
     .. note:: nnls is chosen as amplitude of each element should not be negative.
     """
     if weights is not None:
+        weights = np.asarray(weights, dtype=float)  # roots of narrow integers lose digits
         expected_matrix = np.transpose(np.multiply(np.transpose(expected_matrix), np.sqrt(weights)))
         spectrum = np.multiply(spectrum, np.sqrt(weights))
     return nnls(expected_matrix, spectrum)
-- 
2.43.0


From e1cd2ee345c664ce83572e2c66b0f6cd9865311f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:45 +0000
Subject: [PATCH 76/89] fix: angles given as narrow integers in GSAS files

A hundred times the first angle did not fit into its type.
---
 skbeam/io/save_powder_output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/io/save_powder_output.py b/skbeam/io/save_powder_output.py
index c4e33e0..39270e1 100644
--- a/skbeam/io/save_powder_output.py
+++ b/skbeam/io/save_powder_output.py
@@ -183,8 +183,8 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
     n_chan = len(intensity)
 
     # two-theta0 and dtwo-theta in centidegrees
-    tth0_cdg = tth[0] * 100
-    dtth_cdg = (tth[-1] - tth[0]) / (len(tth) - 1) * 100
+    tth0_cdg = float(tth[0]) * 100
+    dtth_cdg = (float(tth[-1]) - float(tth[0])) / (len(tth) - 1) * 100
 
     if mode == "STD":
         n_rec = int(np.ceil(n_chan / 10.0))
-- 
2.43.0


From e961b257d3b0234deef219b8328132279b34a508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:45 +0000
Subject: [PATCH 77/89] fix: AmiraMesh volumes of one column

Their resolution along x is zero, which was divided by.
---
 skbeam/io/avizo_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skbeam/io/avizo_io.py b/skbeam/io/avizo_io.py
index ff2bffe..2aa4709 100644
--- a/skbeam/io/avizo_io.py
+++ b/skbeam/io/avizo_io.py
@@ -203,7 +203,8 @@ def _create_md_dict(clean_header):
                     resolution_list.append(0)
             # isotropy determination (isotropic res, or anisotropic res)
             if (
-                resolution_list[1] / resolution_list[0] > 0.99
+                resolution_list[0] != 0
+                and resolution_list[1] / resolution_list[0] > 0.99
                 and resolution_list[2] / resolution_list[0] > 0.99
                 and resolution_list[1] / resolution_list[0] < 1.01
                 and resolution_list[2] / resolution_list[0] < 1.01
-- 
2.43.0


From 1e9eaef86487c12bf8cf664acf154e00f881ba0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:13 +0000
Subject: [PATCH 78/89] fix: negative binomial probabilities of many counts in
 many modes

The coefficient overflowed although the probability is an ordinary number.
---
 skbeam/core/fitting/lineshapes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/fitting/lineshapes.py b/skbeam/core/fitting/lineshapes.py
index f57414e..5b26ba4 100644
--- a/skbeam/core/fitting/lineshapes.py
+++ b/skbeam/core/fitting/lineshapes.py
@@ -467,9 +467,10 @@ def nbinom_dist(bin_values, K, M):
 
     """
     bin_values = np.asarray(bin_values, dtype=float)  # narrow integers overflow or lose digits
-    co_eff = np.exp(gammaln(bin_values + M) - gammaln(bin_values + 1.0) - gammaln(M))
+    co_eff = gammaln(bin_values + M) - gammaln(bin_values + 1.0) - gammaln(M)
 
-    nbinom = co_eff * np.power(M / (K + M), M) * np.power(K / (M + K), bin_values)
+    # the coefficient alone may be too large a number
+    nbinom = np.exp(co_eff + xlogy(M, M / (K + M)) + xlogy(bin_values, K / (M + K)))
     return nbinom
 
 
-- 
2.43.0


From 16de29a32fc07529b783a02486d256aa5b08f652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:01 +0000
Subject: [PATCH 79/89] fix: correlation model at lags given as narrow or
 unsigned integers

With a whole number for the rate the product did not fit into their type.
---
 skbeam/core/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/correlation.py b/skbeam/core/correlation.py
index 96fd674..daaa649 100644
--- a/skbeam/core/correlation.py
+++ b/skbeam/core/correlation.py
@@ -477,7 +477,7 @@ def auto_corr_scat_factor(lags, beta, relaxation_rate, baseline=1):
        visibility spectroscopy with partially coherent X-rays,"
        J. Synchrotron Rad. vol 21, p 1288-1295, 2014
     """
-    return beta * np.exp(-2 * relaxation_rate * lags) + baseline
+    return beta * np.exp(-2.0 * relaxation_rate * lags) + baseline
 
 
 def two_time_corr(labels, images, num_frames, num_bufs, num_levels=1):
-- 
2.43.0


From 087127c26136094a74ad53591c44ce987cce1c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:40 +0000
Subject: [PATCH 80/89] fix: inner radius of rings whose spacings are given as
 whole numbers

Inserting a fractional inner radius into an integer array cut it off.
---
 skbeam/core/roi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index b03cd10..bf94ee5 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -215,7 +215,7 @@ def ring_edges(inner_radius, width, spacing=0, num_rings=None):
         spacing = np.ones(num_rings - 1) * spacing
 
     # The inner radius is the first "spacing."
-    all_spacings = np.insert(spacing, 0, inner_radius)
+    all_spacings = np.concatenate(([inner_radius], spacing))
     steps = np.array([all_spacings, width]).T.ravel()
     edges = np.cumsum(steps).reshape(-1, 2)
 
-- 
2.43.0


From 1e6da27c19ef50d911f17ce7506f95d5557596ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:46 +0000
Subject: [PATCH 81/89] fix: refine the centre of images of any brightness

Bins whose summed intensity was not above 10 were left out, so images
scaled to small numbers had no rings at all.
---
 skbeam/core/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/calibration.py b/skbeam/core/calibration.py
index f5bbc56..50e7205 100644
--- a/skbeam/core/calibration.py
+++ b/skbeam/core/calibration.py
@@ -206,7 +206,7 @@ def refine_center(
 
     ring_trace = []
     for bins, b_sum, b_count in out:
-        mask = b_sum > 10
+        mask = b_count > 0
         avg = b_sum[mask] / b_count[mask]
         bin_centers = bin_edges_to_centers(bins)[mask]
 
-- 
2.43.0


From fad915817eff3a46b9b47ab1ab2a700b2fc243cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:12 +0000
Subject: [PATCH 82/89] fix: fit peaks far from the origin and in small units
 of length

---
 skbeam/core/fitting/funcs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/funcs.py b/skbeam/core/fitting/funcs.py
index 38ec02a..b4c19ab 100644
--- a/skbeam/core/fitting/funcs.py
+++ b/skbeam/core/fitting/funcs.py
@@ -34,6 +34,10 @@ def fit_quad_to_peak(x, y):
     # squares of integers may overflow
     x = np.asarray(x, dtype=float)
     y = np.asarray(y, dtype=float)
+    # far from the origin, or in small units, the fit would be ill-conditioned
+    shift = np.mean(x)
+    scale = np.max(np.abs(x - shift)) or 1.0
+    x = (x - shift) / scale
     # set up fitting array
     X = np.vstack((x**2, x, np.ones(lenx))).T
     # use linear least squares fitting
@@ -42,6 +46,6 @@ def fit_quad_to_peak(x, y):
     SSerr = np.sum((np.polyval(beta, x) - y) ** 2)
     SStot = np.sum((y - np.mean(y)) ** 2)
     # re-map the returned value to match the form we want
-    ret_beta = (beta[0], -beta[1] / (2 * beta[0]), beta[2] - beta[0] * (beta[1] / (2 * beta[0])) ** 2)
+    ret_beta = (beta[0] / scale**2, shift - scale * beta[1] / (2 * beta[0]), beta[2] - beta[0] * (beta[1] / (2 * beta[0])) ** 2)
 
     return ret_beta, 1 - SSerr / SStot
-- 
2.43.0


From 390590cc5c3a1a6635e733bca202fb0fde94775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:45 +0000
Subject: [PATCH 83/89] fix: gsas_writer writes patterns without a positive
 intensity

---
 skbeam/io/save_powder_output.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skbeam/io/save_powder_output.py b/skbeam/io/save_powder_output.py
index 39270e1..af2616b 100644
--- a/skbeam/io/save_powder_output.py
+++ b/skbeam/io/save_powder_output.py
@@ -168,8 +168,9 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
     file_path = _create_file_path(dir_path, output_name, ext)
 
     max_intensity = 999999
-    log_scale = np.floor(np.log10(max_intensity / np.max(intensity)))
-    log_scale = min(log_scale, 0)
+    log_scale = 0
+    if np.max(intensity) > 0:  # nothing to scale down otherwise
+        log_scale = min(np.floor(np.log10(max_intensity / np.max(intensity))), 0)
     scale = 10 ** int(log_scale)
     lines = []
 
-- 
2.43.0


From 57c6b8f76c3b18cc4da42dc98f61292cd9f500ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:06 +0000
Subject: [PATCH 84/89] fix: integrate over channels of unsigned and narrow
 integer types

The differences of unsigned channels are never negative, so that falling ones
were refused and unsorted ones accepted; those of int8 wrap round.
---
 skbeam/core/spectroscopy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/spectroscopy.py b/skbeam/core/spectroscopy.py
index 38fcbb0..7f997c1 100644
--- a/skbeam/core/spectroscopy.py
+++ b/skbeam/core/spectroscopy.py
@@ -177,7 +177,7 @@ def integrate_ROI_spectrum(bin_edges, counts, x_min, x_max):
         The totals integrated value in same units as `counts`
 
     """
-    bin_edges = np.asarray(bin_edges)
+    bin_edges = 1.0 * np.asarray(bin_edges)  # differences of narrow integers would overflow
     return integrate_ROI(bin_edges[:-1] + np.diff(bin_edges) / 2, counts, x_min, x_max)
 
 
@@ -272,6 +272,7 @@ def integrate_ROI(x, y, x_min, x_max):
     # use np.sign() to obtain array which has evaluated sign changes in all
     # diff in input x_value array. Checks and tests are then run on the
     # evaluated sign change array.
+    x = 1.0 * x  # differences of unsigned integers are never negative
     eval_x_arr_sign = np.sign(np.diff(x))
 
     # check to make sure no outliers exist which violate the monotonically
-- 
2.43.0


From acf756f178c396175ce8f94ccb4705960145d8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:06 +0000
Subject: [PATCH 85/89] fix: filter_peak_height takes candidates and counts of
 any integer type

The window of an unsigned candidate near the start wrapped round, and so did
the height of int8 counts.
---
 skbeam/core/feature.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/feature.py b/skbeam/core/feature.py
index 81c69d9..e193f98 100644
--- a/skbeam/core/feature.py
+++ b/skbeam/core/feature.py
@@ -286,9 +286,9 @@ def filter_peak_height(y, cands, thresh, window=5):
     y = np.asarray(y)
     out_tmp = deque()
     max_ind = len(y)
-    for ind in cands:
+    for ind in np.asarray(cands, dtype=int):
         slc = slice(np.max([0, ind - window]), np.min([max_ind, ind + window + 1]))
-        pk_hght = np.ptp(y[slc])
+        pk_hght = np.max(y[slc]).item() - np.min(y[slc]).item()  # Python numbers do not overflow
         if pk_hght > thresh:
             out_tmp.append(ind)
 
-- 
2.43.0


From b9e2d05f7033fa260a701b063657f2e1c6244b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:06 +0000
Subject: [PATCH 86/89] fix: the bins of XSVS do not depend on the type of
 max_cts

max_cts taken as the maximum of 8 bit images wrapped round for all but the
first integration time.
---
 skbeam/core/speckle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/speckle.py b/skbeam/core/speckle.py
index 5f43782..f78c311 100644
--- a/skbeam/core/speckle.py
+++ b/skbeam/core/speckle.py
@@ -143,7 +143,7 @@ def xsvs(image_sets, label_array, number_of_img, timebin_num=2, max_cts=None):
     # get the bin edges for each time bin for each ROI
     bin_edges = np.zeros(prob_k_all.shape[0], dtype=prob_k_all.dtype)
     for i in range(num_times):
-        bin_edges[i] = np.arange(max_cts * 2**i)
+        bin_edges[i] = np.arange(max_cts * 2.0**i)
 
     start_time = time.time()  # used to log the computation time (optionally)
 
@@ -320,7 +320,7 @@ def normalize_bin_edges(num_times, num_rois, mean_roi, max_cts):
     norm_bin_centers = np.zeros_like(norm_bin_edges)
     for i in range(num_times):
         for j in range(num_rois):
-            norm_bin_edges[i, j] = np.arange(max_cts * 2**i) / (mean_roi[j] * 2**i)
+            norm_bin_edges[i, j] = np.arange(max_cts * 2.0**i) / (mean_roi[j] * 2**i)
             norm_bin_centers[i, j] = bin_edges_to_centers(norm_bin_edges[i, j])
 
     return norm_bin_edges, norm_bin_centers
-- 
2.43.0


From 74a1a417f9982727ff11177c73da6df6296aa9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:06 +0000
Subject: [PATCH 87/89] fix: regions of interest from edges and coordinates of
 any integer type

Overlapping segmented rings with unsigned edges were not refused, and the far
side of a rectangle in narrow integers wrapped round.
---
 skbeam/core/roi.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index bf94ee5..780cafa 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -80,7 +80,8 @@ def rectangles(coords, shape):
 
     labels_grid = np.zeros(shape, dtype=np.int64)
 
-    for i, (col_coor, row_coor, col_val, row_val) in enumerate(coords):
+    # Python numbers do not overflow
+    for i, (col_coor, row_coor, col_val, row_val) in enumerate(np.asarray(list(coords)).tolist()):
         # only the part of the rectangle that is in the image
         left, right = np.clip([col_coor, col_coor + col_val], 0, shape[0])
         top, bottom = np.clip([row_coor, row_coor + row_val], 0, shape[1])
@@ -128,7 +129,7 @@ def rings(edges, center, shape):
         raise ValueError(
             "edges should have an even number of elements, " "giving inner, outer radii for each ring"
         )
-    if not np.all(np.diff(edges) >= 0):
+    if not np.all(edges[1:] >= edges[:-1]):
         raise ValueError(
             "edges are expected to be monotonically increasing, "
             "giving inner and outer radii of each ring from "
@@ -262,7 +263,7 @@ def segmented_rings(edges, segments, center, shape, offset_angle=0):
         raise ValueError(
             "edges should have an even number of elements, " "giving inner, outer radii for each ring"
         )
-    if not np.all(np.diff(edges) >= 0):
+    if not np.all(edges[1:] >= edges[:-1]):
         raise ValueError(
             "edges are expected to be monotonically increasing, "
             "giving inner and outer radii of each ring from "
@@ -606,7 +607,7 @@ def bar(edges, shape, horizontal=True, values=None):
         raise ValueError(
             "edges should have an even number of elements, " "giving inner, outer edge value for each bar"
         )
-    if not np.all(np.diff(edges) >= 0):
+    if not np.all(edges[1:] >= edges[:-1]):
         raise ValueError(
             "edges are expected to be monotonically increasing, "
             "giving inner and outer radii of each bar from "
-- 
2.43.0


From 2bd28656e8f8dce7cdb6eee440a851c90a32fdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:06 +0000
Subject: [PATCH 88/89] fix: default number of bins of bin_1D for narrow
 integer types

---
 skbeam/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index d2640d5..aaaa956 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -570,7 +570,7 @@ def bin_1D(x, y, nx=None, min_x=None, max_x=None):
     if max_x is None:
         max_x = np.max(x)
     if nx is None:
-        nx = int(max_x - min_x)
+        nx = int(1.0 * max_x - min_x)  # differences of narrow integers would overflow
 
     # use a weighted histogram to get the bin sum
     bins = np.linspace(start=min_x, stop=max_x, num=nx + 1, endpoint=True)
-- 
2.43.0


From 54e3c48b3f8cfd38f4220b818d9de3a0efc29aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:36 +0000
Subject: [PATCH 89/89] fix: negative intensities and large errors fit into the
 cells of a GSAS file

---
 skbeam/io/save_powder_output.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/skbeam/io/save_powder_output.py b/skbeam/io/save_powder_output.py
index af2616b..6e2a8ac 100644
--- a/skbeam/io/save_powder_output.py
+++ b/skbeam/io/save_powder_output.py
@@ -168,9 +168,14 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
     file_path = _create_file_path(dir_path, output_name, ext)
 
     max_intensity = 999999
-    log_scale = 0
-    if np.max(intensity) > 0:  # nothing to scale down otherwise
-        log_scale = min(np.floor(np.log10(max_intensity / np.max(intensity))), 0)
+    room = [1.0]
+    if np.max(intensity) > 0:
+        room.append(max_intensity / np.max(intensity))
+    if np.min(intensity) < 0:  # the sign takes a place
+        room.append(-99999 / float(np.min(intensity)))
+    if mode == "ESD" and np.max(err) > 0:
+        room.append(99999999 / np.max(err))
+    log_scale = np.floor(np.log10(min(room)))
     scale = 10 ** int(log_scale)
     lines = []
 
-- 
2.43.0

