From f863ae4cab87f90b43ea0bf91b7b63525617f8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:58 +0000
Subject: [PATCH 001/149] fix: return the 1-d product from the Python fallback
 of FSRRotation3dMatrix

---
 src/pysimulators/sparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index f3f8561..b8b79f8 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -765,7 +765,7 @@ class FSRRotation3dMatrix(_FSRotation3dMatrix):
             out_[i, 0] += np.sum(b.r11 * v[b.index, 0])
             out_[i, 1] += np.sum(b.r22 * v[b.index, 1] - b.r32 * v[b.index, 2])
             out_[i, 2] += np.sum(b.r32 * v[b.index, 1] + b.r22 * v[b.index, 2])
-        return out_
+        return out
 
     def _transpose(self):
         return FSCRotation3dMatrix(self.shape[::-1], data=self.data)
-- 
2.43.0


From 00f35d2ad55929203d8ee557768f38020bd0f2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:58 +0000
Subject: [PATCH 002/149] fix: allocate one entry per block column in
 FSCBlockMatrix with non-square blocks

---
 src/pysimulators/sparse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index b8b79f8..ff9451f 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -59,7 +59,10 @@ class _FSMatrix:
                     f'The maximum number of non-zero {straxes[0]}s per {straxes[1]} '
                     f'is not specified.'
                 )
-            shape_data = (shape[1 - sparse_axis] // block_shape[0], nmax)
+            shape_data = (
+                shape[1 - sparse_axis] // block_shape[1 - sparse_axis],
+                nmax,
+            )
             if dtype is None:
                 dtype = float
             if dtype_index is None:
-- 
2.43.0


From 9e175975f851c4312fbbdc980b9ae96fdd139fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:58 +0000
Subject: [PATCH 003/149] fix: do not discard the imaginary part in sparse
 matrix-vector products

---
 src/pysimulators/sparse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index ff9451f..9176862 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -136,7 +136,11 @@ class _FSMatrix:
         di = self.data.index.dtype
         ds = self.dtype
         dv = v.dtype
-        if str(ds) not in ('float32', 'float64') or str(di) not in ('int32', 'int64'):
+        if (
+            str(ds) not in ('float32', 'float64')
+            or str(di) not in ('int32', 'int64')
+            or dv.kind == 'c'
+        ):
             return v, out, False
 
         if (
-- 
2.43.0


From 5982f85b480bfe84a8a75e6b7caaeb5987ba535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:36 +0000
Subject: [PATCH 004/149] fix: reduce over the computed number of pixels per
 sample in object2pmatrix_sharp_edges

---
 src/flib/wcsutils.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flib/wcsutils.f90 b/src/flib/wcsutils.f90
index 6bb9a70..f5b25d3 100644
--- a/src/flib/wcsutils.f90
+++ b/src/flib/wcsutils.f90
@@ -352,7 +352,7 @@ contains
         if (status /= 0) return
 
         !$omp parallel do private(isample, coords2, roi) &
-        !$omp reduction(max : npixels_per_sample) reduction(.or. : out)
+        !$omp reduction(max : new_npixels_per_sample) reduction(.or. : out)
         do isample = 1, npointings
 
             if (masked(isample)) then
-- 
2.43.0


From 6ee60559720963aae434369bdfcb2bcd8676d86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:36 +0000
Subject: [PATCH 005/149] fix: data race on the value pointer in fsr_kernel

---
 src/flib/sparse.f90.j2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flib/sparse.f90.j2 b/src/flib/sparse.f90.j2
index fe07265..cc37e16 100644
--- a/src/flib/sparse.f90.j2
+++ b/src/flib/sparse.f90.j2
@@ -528,7 +528,7 @@ contains
         integer(int32), pointer :: val(:)
         integer(int64) :: i, j, pos
 
-        !$omp parallel do private(k, pos)
+        !$omp parallel do private(k, pos, val)
         do i = 1, m
             do j = 1, ncolmax
                 pos = ((i - 1) * ncolmax + j - 1) * stride
-- 
2.43.0


From 3303c34003b16158bb24e04ec57fec2113d0467d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:36 +0000
Subject: [PATCH 006/149] fix: data race on the outside flag in
 matrix_polygon_integration

---
 src/flib/projection.f90.j2 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flib/projection.f90.j2 b/src/flib/projection.f90.j2
index fe5f3b8..f2476bc 100644
--- a/src/flib/projection.f90.j2
+++ b/src/flib/projection.f90.j2
@@ -33,8 +33,10 @@ contains
         real({{ combo.rkind }})    :: polygon(2,nvertices), val
 
         min_ncolmax = 0
+        out = .false.
         !$omp parallel do private(xmin, xmax, ymin, ymax, ncols, polygon)      &
-        !$omp             private(val), reduction(max: min_ncolmax)
+        !$omp             private(val), reduction(max: min_ncolmax)              &
+        !$omp             reduction(.or.: out)
         do isample = 1, ninputs
 
             xmin = round_htpi_i{{ combo.isize }}_r{{ combo.rsize }}(minval(vertex(1,:,isample)))
-- 
2.43.0


From 165094215f0970c025f492a0ca108472e68ae36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:55 +0000
Subject: [PATCH 007/149] fix: scale the last sample in the in-place transpose
 of the truncated exponential

---
 src/flib/module_operators.f90.j2 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flib/module_operators.f90.j2 b/src/flib/module_operators.f90.j2
index 6ca75f7..e6cc7f9 100644
--- a/src/flib/module_operators.f90.j2
+++ b/src/flib/module_operators.f90.j2
@@ -499,6 +499,7 @@ contains
         end if
         w = exp(-1 / tau)
         v = 1 - w
+        input(n) = v * input(n)
         do i = n - 1, 1, -1
             input(i) = w * input(i+1) + v * input(i)
         end do
-- 
2.43.0


From 222ad81843a034f4ef3b3e1246f6251e9db9996e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:55 +0000
Subject: [PATCH 008/149] fix: return early for a null time constant in the
 truncated exponential transpose

---
 src/flib/module_operators.f90.j2 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flib/module_operators.f90.j2 b/src/flib/module_operators.f90.j2
index e6cc7f9..da99266 100644
--- a/src/flib/module_operators.f90.j2
+++ b/src/flib/module_operators.f90.j2
@@ -518,6 +518,7 @@ contains
         n = size(input)
         if (tau == 0) then
             output = input
+            return
         else if (tau < 0) then
             output = 0
             return
-- 
2.43.0


From 065bea46d326cbdf16b37275e33770bd0078d767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:55 +0000
Subject: [PATCH 009/149] fix: single precision input of
 ConvolutionTruncatedExponentialOperator

---
 src/pysimulators/operators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 78564f9..00cdff0 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -417,10 +417,11 @@ def _ravel_strided(x):
         return x, 1, x.size, x.size
     if x.ndim != 2:
         raise NotImplementedError()
-    if x.strides[1] != 8:
+    size = x.itemsize
+    if x.strides[1] != size:
         raise ValueError('The array is not C-contiguous.')
-    shape_all = x.shape[0], x.strides[0] // 8
-    x_ = np.lib.stride_tricks.as_strided(x, (product(shape_all),), (8,))
+    shape_all = x.shape[0], x.strides[0] // size
+    x_ = np.lib.stride_tricks.as_strided(x, (product(shape_all),), (size,))
     return x_, x.shape[0], x.shape[1], shape_all[1]
 
 
-- 
2.43.0


From 906cd9c28b4cc3a8ade6ae29ed6dd62e7171fa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 010/149] fix: corestriction of rotation projections by a mask
 over the block rows

---
 src/pysimulators/sparse.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 9176862..8c275d6 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -910,11 +910,10 @@ class SparseOperator(SparseBase):
                 f'sparse storage.'
             )
         nrow = np.sum(mask)
-        mask_ = np.repeat(mask, self.matrix.block_shape[0])
         out = self.copy()
         out.matrix = type(self.matrix)(
             (nrow * self.matrix.block_shape[0], self.matrix.shape[1]),
-            data=self.matrix.data[mask_],
+            data=self.matrix.data[mask],
         )
         if isinstance(self.matrix, FSRMatrix):
             out.broadcastable_shapeout = (nrow,)
-- 
2.43.0


From c92bf134c9bb3ef2b72da605d4231abba54da1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 011/149] fix: P.T * P over extra trailing dimensions

---
 src/pysimulators/sparse.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 8c275d6..619fb57 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -1029,8 +1029,13 @@ class SparseOperator(SparseBase):
             return
 
         m = self.matrix.data.ravel().view(np.int8)
-        data = np.zeros(self.shapein, dtype=self.dtype)
+        if isinstance(self.matrix, FSRMatrix):
+            data = np.zeros(self.broadcastable_shapein, dtype=self.dtype)
+        else:
+            data = np.zeros(self.shapein, dtype=self.dtype)
         func(m, data.ravel())
+        if data.shape != self.shapein:
+            return DiagonalOperator(data, broadcast='rightward', shapein=self.shapein)
         return DiagonalOperator(data)
 
 
-- 
2.43.0


From 52b12c5357cff22bbb29bbd4eee814d66cbb2356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 012/149] fix: pass the number of samples to the pointing
 matrix kernels

---
 src/pysimulators/operators.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 00cdff0..cc91ce3 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -645,7 +645,11 @@ class ProjectionBaseOperator(Operator):
         else:
             output_ = output
         flib.pointingmatrix.direct(
-            matrix.ravel().view(np.int64), input.T, output_.T, matrix.shape[-1]
+            matrix.ravel().view(np.int64),
+            input.T,
+            output_.T,
+            matrix.shape[-1],
+            matrix.size // matrix.shape[-1],
         )
         if not output.flags.contiguous:
             output[...] = output_
@@ -665,7 +669,11 @@ class ProjectionBaseOperator(Operator):
         else:
             input_ = input
         flib.pointingmatrix.transpose(
-            matrix.ravel().view(np.int64), input_.T, output.T, matrix.shape[-1]
+            matrix.ravel().view(np.int64),
+            input_.T,
+            output.T,
+            matrix.shape[-1],
+            matrix.size // matrix.shape[-1],
         )
 
     def set_attrin(self, attr):
@@ -745,6 +753,7 @@ class ProjectionBaseOperator(Operator):
                 out[0].ravel(),
                 out[1].ravel(),
                 matrix.shape[-1],
+                matrix.size // matrix.shape[-1],
             )
         else:
             flib.pointingmatrix.backprojection_weight(
@@ -753,6 +762,7 @@ class ProjectionBaseOperator(Operator):
                 out[0].ravel(),
                 out[1].ravel(),
                 matrix.shape[-1],
+                matrix.size // matrix.shape[-1],
             )
         return out
 
-- 
2.43.0


From 9bae01eeb5487e7f3db09117fe8678a715772ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 013/149] fix: projection by an empty pointing matrix left the
 output unset

---
 src/pysimulators/operators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index cc91ce3..1557df1 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -637,6 +637,7 @@ class ProjectionBaseOperator(Operator):
     def direct(self, input, output):
         matrix = self.matrix
         if matrix.size == 0:
+            output[...] = 0
             return
         if not output.flags.contiguous:
             if pyoperators.memory.verbose:
-- 
2.43.0


From 65ae73f0fd9812c992e1e3461eca8b067e1c4dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 014/149] fix: projection to a non-contiguous output

---
 src/pysimulators/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 1557df1..9e6ac6f 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -640,9 +640,9 @@ class ProjectionBaseOperator(Operator):
             output[...] = 0
             return
         if not output.flags.contiguous:
-            if pyoperators.memory.verbose:
+            if pyoperators.config.VERBOSE:
                 print('Optimize me: Projection output is not contiguous.')
-            output_ = np.empty_like(output)
+            output_ = np.empty(output.shape, output.dtype)
         else:
             output_ = output
         flib.pointingmatrix.direct(
-- 
2.43.0


From 099a56810319e79c54424a908865f255d0b9fd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 015/149] fix: dtype of the pTp array

---
 src/pysimulators/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 9e6ac6f..8c169c2 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -712,9 +712,9 @@ class ProjectionBaseOperator(Operator):
         matrix = self.matrix
         npixels = product(matrix.shape_input)
         if out is None:
-            out = empty((npixels, npixels), bool, description='for pTp array')
+            out = empty((npixels, npixels), float, description='for pTp array')
             out[...] = 0
-        elif out.dtype != np.bool_:
+        elif out.dtype != float:
             raise TypeError('The output ptp argument has an invalid type.')
         elif out.shape != (npixels, npixels):
             raise ValueError('The output ptp argument has an incompatible shap' 'e.')
-- 
2.43.0


From ac8930df560ce64116a01480edcefb271c272e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 016/149] fix: use the mask argument of get_pTx_pT1

---
 src/pysimulators/operators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 8c169c2..29b8962 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -745,12 +745,13 @@ class ProjectionBaseOperator(Operator):
                 out[0].unit = x.unit
         if matrix.size == 0:
             return out
-        mask = mask or getattr(x, 'mask', None)
+        if mask is None:
+            mask = getattr(x, 'mask', None)
         if mask is not None:
             flib.pointingmatrix.backprojection_weight_mask(
                 matrix.ravel().view(np.int64),
                 x.ravel(),
-                x.mask.ravel().view(np.int8),
+                np.asarray(mask, np.bool_).ravel().view(np.int8),
                 out[0].ravel(),
                 out[1].ravel(),
                 matrix.shape[-1],
-- 
2.43.0


From 1907638282cc72d806a32584890c5d0720dfd877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 017/149] fix: replace the removed np.cumproduct

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 29b8962..abf5aed 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -776,7 +776,7 @@ class ProjectionBaseOperator(Operator):
         matrix = self.matrix
         axes = (1,) + matrix.shape_input[:0:-1]
         index = np.array(fitscoords) - 1
-        index = int(np.sum(index * np.cumproduct(axes)))
+        index = int(np.sum(index * np.cumprod(axes)))
 
         shape = matrix.shape
         matrix_ = matrix.ravel().view(np.int64)
-- 
2.43.0


From f5be0e73afc7dde25d835c8b68482dc8a449d35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 018/149] fix: product of a diagonal operator and a pointing
 matrix projection

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index abf5aed..edc22df 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -875,7 +875,7 @@ class ProjectionInMemoryOperator(ProjectionBaseOperator):
             return
         matrix = self.matrix.copy()
         result = ProjectionInMemoryOperator(matrix)
-        matrix.value *= d.get_data()
+        matrix.value *= np.asarray(d.get_data())[..., None]
         return result
 
 
-- 
2.43.0


From e795f831c03f20af166ae95eb311fce85878ebd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 019/149] fix: project to zero the samples without pixel

---
 src/flib/module_pointingmatrix.f90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flib/module_pointingmatrix.f90 b/src/flib/module_pointingmatrix.f90
index 0fc7a6a..872d3e7 100644
--- a/src/flib/module_pointingmatrix.f90
+++ b/src/flib/module_pointingmatrix.f90
@@ -337,6 +337,8 @@ contains
         do isample = 1, nsamples
             if (pmatrix(isample)%index >= 0) then
                 timeline(isample) = map(pmatrix(isample)%index) * pmatrix(isample)%value
+            else
+                timeline(isample) = 0
             end if
         end do
         !$omp end parallel do
-- 
2.43.0


From b35a39344df41438cf32de093deca00cce2bbdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 020/149] fix: out-of-bounds write in ptp_one for samples
 without pixel

---
 src/flib/pointingmatrix_old.f90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flib/pointingmatrix_old.f90 b/src/flib/pointingmatrix_old.f90
index fc984ed..0215bde 100644
--- a/src/flib/pointingmatrix_old.f90
+++ b/src/flib/pointingmatrix_old.f90
@@ -260,6 +260,7 @@ contains
         integer*8 :: isample
 
         do isample = 1, nsamples
+            if (matrix(isample)%index < 0) cycle
             array(matrix(isample)%index) = array(matrix(isample)%index) +    &
                                            matrix(isample)%value**2
         end do
-- 
2.43.0


From 98913cb73ba81786d9fa925b349f9e1e07896a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:03 +0000
Subject: [PATCH 021/149] fix: concurrent plain stores to the kernel flags in
 fsr_kernel

---
 src/flib/sparse.f90.j2 | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/flib/sparse.f90.j2 b/src/flib/sparse.f90.j2
index cc37e16..06751fb 100644
--- a/src/flib/sparse.f90.j2
+++ b/src/flib/sparse.f90.j2
@@ -536,7 +536,10 @@ contains
                 if (k < 0) cycle
                 call c_f_pointer(c_loc(matrix(pos + {{ combo.isize }})), val,            &
                                  [(stride - {{ combo.isize }}) / 4])
-                if (any(val /= 0)) kernel(k) = .false.
+                if (any(val /= 0)) then
+                    !$omp atomic write
+                    kernel(k) = .false.
+                end if
             end do
         end do
         !$omp end parallel do
-- 
2.43.0


From 3b8700141800fdb041eca7db669a360d1224f040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:03 +0000
Subject: [PATCH 022/149] fix: concurrent plain stores to the mask in
 pmatrix_mask

---
 src/flib/module_pointingmatrix.f90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flib/module_pointingmatrix.f90 b/src/flib/module_pointingmatrix.f90
index 872d3e7..9efa6b6 100644
--- a/src/flib/module_pointingmatrix.f90
+++ b/src/flib/module_pointingmatrix.f90
@@ -449,6 +449,7 @@ contains
                 pixel = pmatrix(ipixel,isample)%index
                 if (pixel == -1) exit
                 if (pmatrix(ipixel,isample)%value == 0) cycle
+                !$omp atomic write
                 mask(pixel) = .false.
             end do
         end do
-- 
2.43.0


From cf4a0f94fc77c965af9ad9f406c121efe3b29086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 023/149] fix: bounds of the block column matrix in the
 fsc_block kernels

---
 src/flib/module_operators.f90.j2 | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/flib/module_operators.f90.j2 b/src/flib/module_operators.f90.j2
index da99266..ad19ca6 100644
--- a/src/flib/module_operators.f90.j2
+++ b/src/flib/module_operators.f90.j2
@@ -19,7 +19,7 @@ contains
         integer(int64) :: i, j
         integer({{ combo.ikind }}) :: k
 
-        call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
+        call c_f_pointer(data, matrix, shape=[ncolmax, ninput])
         !$omp parallel do private(k)
         do i = 1, ninput
             do j = 1, ncolmax
@@ -43,7 +43,7 @@ contains
         integer(int64) :: i, j
         integer({{ combo.ikind }}) :: k
 
-        call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
+        call c_f_pointer(data, matrix, shape=[ncolmax, ninput])
         !$omp parallel do private(k)
         do i = 1, ninput
             do j = 1, ncolmax
@@ -68,7 +68,7 @@ contains
         integer(int64) :: i, j
         integer({{ combo.ikind }}) :: k
 
-        call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
+        call c_f_pointer(data, matrix, shape=[ncolmax, ninput])
         !$omp parallel do private(k)
         do i = 1, ninput
             do j = 1, ncolmax
@@ -91,7 +91,7 @@ contains
         integer(int64) :: i, j
         integer({{ combo.ikind }}) :: k
 
-        call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
+        call c_f_pointer(data, matrix, shape=[ncolmax, ninput])
         !$omp parallel do private(k)
         do i = 1, ninput
             do j = 1, ncolmax
@@ -117,7 +117,7 @@ contains
         integer(int64) :: i, j
         integer({{ combo.ikind }}) :: k
 
-        call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
+        call c_f_pointer(data, matrix, shape=[ncolmax, ninput])
         !$omp parallel do private(k)
         do i = 1, ninput
             do j = 1, ncolmax
@@ -145,7 +145,7 @@ contains
         integer(int64) :: i, j
         integer({{ combo.ikind }}) :: k
 
-        call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
+        call c_f_pointer(data, matrix, shape=[ncolmax, ninput])
         !$omp parallel do private(k)
         do i = 1, ninput
             do j = 1, ncolmax
@@ -169,7 +169,7 @@ contains
         integer(int64) :: i, j
         integer({{ combo.ikind }}) :: k
 
-        call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
+        call c_f_pointer(data, matrix, shape=[ncolmax, ninput])
         !$omp parallel do private(k)
         do i = 1, ninput
             do j = 1, ncolmax
@@ -197,7 +197,7 @@ contains
         integer(int64) :: i, j
         integer({{ combo.ikind }}) :: k
 
-        call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
+        call c_f_pointer(data, matrix, shape=[ncolmax, ninput])
         !$omp parallel do private(k)
         do i = 1, ninput
             do j = 1, ncolmax
-- 
2.43.0


From 0139a2848832e6f49fab4a12df9123837490c0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:19 +0000
Subject: [PATCH 024/149] fix: update the square flag of restricted and
 corestricted projections

---
 src/pysimulators/sparse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 619fb57..ed83819 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -922,6 +922,8 @@ class SparseOperator(SparseBase):
                 out.shapeout = (nrow,) + self.shapeout[ndims_out:]
         else:
             out.shapeout = (nrow, out.matrix.block_shape[0])
+        if out.shapein is not None:
+            out._set_flags(square=out.shapein == out.shapeout)
         if inplace:
             self.delete()
         return out
@@ -987,6 +989,8 @@ class SparseOperator(SparseBase):
                 out.shapein = (ncol,) + self.shapein[ndims_in:]
         else:
             out.shapein = (ncol, out.matrix.block_shape[1])
+        if out.shapein is not None:
+            out._set_flags(square=out.shapein == out.shapeout)
         if inplace:
             self.delete()
         return out
-- 
2.43.0


From 5b9e5ba93bb7f506e04862ae4a2f9f1257e6be73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:44 +0000
Subject: [PATCH 025/149] fix: scaling of the coordinate transform operators

---
 src/pysimulators/operators.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index edc22df..a510aef 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1244,6 +1244,10 @@ class _CartesianEquatorialGalactic(DenseOperator):
         ]
     )[0]
 
+    @staticmethod
+    def _rule_homothety(self, other):
+        return DenseOperator(other.data * self.data)
+
 
 class CartesianEquatorial2GalacticOperator(_CartesianEquatorialGalactic):
     """
@@ -1365,6 +1369,10 @@ class _CartesianEquatorialHorizontal(DenseBlockDiagonalOperator):
         )
         DenseBlockDiagonalOperator.__init__(self, m, **keywords)
 
+    @staticmethod
+    def _rule_homothety(self, other):
+        return DenseBlockDiagonalOperator(other.data * self.data)
+
     @staticmethod
     def _jd2gst(jd):
         """
-- 
2.43.0


From c844d92f978528a09ec99679680253c6f5d0ce23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:44 +0000
Subject: [PATCH 026/149] fix: product by a sparse matrix without stored
 elements

---
 src/pysimulators/sparse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index ed83819..b05d62f 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -133,6 +133,9 @@ class _FSMatrix:
             out = out.ravel()
             self._validateout(out.shape)
 
+        if self.data.size == 0:
+            return v, out, True
+
         di = self.data.index.dtype
         ds = self.dtype
         dv = v.dtype
-- 
2.43.0


From c96d462a1b436e5b51d2d8034f8c9730858590ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:39 +0000
Subject: [PATCH 027/149] fix: restriction of a projection without stored
 elements

---
 src/pysimulators/sparse.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index b05d62f..8eb852d 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -963,7 +963,12 @@ class SparseOperator(SparseBase):
         else:
             matrix = self.matrix.copy()
         itype = matrix.data.dtype['index']
-        if itype.type in (np.int8, np.int16, np.int32, np.int64):
+        if matrix.data.size > 0 and itype.type in (
+            np.int8,
+            np.int16,
+            np.int32,
+            np.int64,
+        ):
             f = f'fsr_restrict_i{itype.itemsize}'
             func = getattr(fsp, f)
             block_shape = matrix.block_shape[0]
-- 
2.43.0


From b4c940f866cc270f0178bd1d3494648d3e6d7b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 028/149] fix: refuse the unsupported block shapes in
 FSRBlockMatrix

---
 src/pysimulators/sparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 8eb852d..8e84f14 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -473,7 +473,7 @@ class FSRBlockMatrix(_FSBlockMatrix):
     ):
         if data is not None:
             block_shape = data.dtype['value'].shape
-        _FSMatrix.__init__(
+        _FSBlockMatrix.__init__(
             self,
             'fsr_block',
             shape,
-- 
2.43.0


From 58ab51ab591244bfc96b6a29e6a5bb1ab77a2666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:01 +0000
Subject: [PATCH 029/149] fix: test all the components of the elements in
 canonical_basis_in_kernel

---
 src/pysimulators/operators.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index a510aef..59d9a47 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1063,12 +1063,12 @@ class ProjectionOperator(SparseOperator):
             if operation in (operation_assignment, operator.iand, operator.imul):
                 return out
         else:
-            if isinstance(self.matrix, FSRMatrix):
-                indices = data.index[data.value != 0]
-            elif isinstance(self.matrix, FSRRotation2dMatrix):
-                indices = data.index[(data.r11 != 0) | (data.r21 != 0)]
-            else:
-                indices = data.index[data.r11 != 0]
+            nonzero = np.zeros(data.shape, bool)
+            for name in data.dtype.names[1:]:
+                nonzero |= np.any(
+                    data[name].reshape(data.shape + (-1,)) != 0, axis=-1
+                )
+            indices = data.index[nonzero]
             n = product(shape)
             kernel = np.histogram(indices, n, range=(0, n))[0] == 0
         operation(out, kernel)
-- 
2.43.0


From 0667b2a40cbd3a2ffda31f41fa02a963b7bda001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:54 +0000
Subject: [PATCH 030/149] fix: restriction of block projections with a single
 column per block

---
 src/pysimulators/sparse.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 8e84f14..ee63c6b 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -952,7 +952,9 @@ class SparseOperator(SparseBase):
         if isinstance(self.matrix, FSRMatrix):
             block_shapein = self.broadcastable_shapein
         else:
-            block_shapein = self.shapein[:-1]
+            block_shapein = self.shapein
+            if self.matrix.block_shape[1] > 1:
+                block_shapein = block_shapein[:-1]
         if mask.shape != block_shapein:
             raise ValueError(
                 f"Invalid shape '{mask.shape}'. Expected value is '{block_shapein}'."
@@ -995,8 +997,10 @@ class SparseOperator(SparseBase):
             if self.shapein is not None:
                 ndims_in = len(self.broadcastable_shapein)
                 out.shapein = (ncol,) + self.shapein[ndims_in:]
-        else:
+        elif out.matrix.block_shape[1] > 1:
             out.shapein = (ncol, out.matrix.block_shape[1])
+        else:
+            out.shapein = (ncol,)
         if out.shapein is not None:
             out._set_flags(square=out.shapein == out.shapeout)
         if inplace:
-- 
2.43.0


From b5bbeffc2174d3c81e8946813aa793faa65156f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:54 +0000
Subject: [PATCH 031/149] fix: negative zeros in canonical_basis_in_kernel

---
 src/flib/sparse.f90.j2        | 22 ++++++++++++++++------
 src/pysimulators/operators.py |  1 +
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/flib/sparse.f90.j2 b/src/flib/sparse.f90.j2
index 06751fb..55fea82 100644
--- a/src/flib/sparse.f90.j2
+++ b/src/flib/sparse.f90.j2
@@ -517,26 +517,36 @@ contains
 {% for combo in combinations %}
 {% if combo.ikind in ['int8', 'int16', 'int32', 'int64'] and loop.index0 >= 12 %}
 
-    subroutine fsr_kernel_i{{ combo.isize }}(matrix, kernel, ncolmax, m, n, stride)
+    subroutine fsr_kernel_i{{ combo.isize }}(matrix, kernel, ncolmax, m, n, stride, rsize)
         integer(int64), intent(in)        :: ncolmax
         integer(int64), intent(in)        :: m
         integer(int64), intent(in)        :: n
         integer(int64), intent(in)        :: stride
+        integer(int64), intent(in)        :: rsize
         integer(int8), intent(in), target :: matrix(0:ncolmax*m*stride-1)
         logical(1), intent(inout)         :: kernel(0:n-1)
         integer({{ combo.ikind }}), pointer :: k
-        integer(int32), pointer :: val(:)
+        real(real32), pointer :: val4(:)
+        real(real64), pointer :: val8(:)
+        logical :: nonzero
         integer(int64) :: i, j, pos
 
-        !$omp parallel do private(k, pos, val)
+        !$omp parallel do private(k, pos, val4, val8, nonzero)
         do i = 1, m
             do j = 1, ncolmax
                 pos = ((i - 1) * ncolmax + j - 1) * stride
                 call c_f_pointer(c_loc(matrix(pos)), k)
                 if (k < 0) cycle
-                call c_f_pointer(c_loc(matrix(pos + {{ combo.isize }})), val,            &
-                                 [(stride - {{ combo.isize }}) / 4])
-                if (any(val /= 0)) then
+                if (rsize == 4) then
+                    call c_f_pointer(c_loc(matrix(pos + {{ combo.isize }})), val4,       &
+                                     [(stride - {{ combo.isize }}) / 4])
+                    nonzero = any(val4 /= 0)
+                else
+                    call c_f_pointer(c_loc(matrix(pos + {{ combo.isize }})), val8,       &
+                                     [(stride - {{ combo.isize }}) / 8])
+                    nonzero = any(val8 /= 0)
+                end if
+                if (nonzero) then
                     !$omp atomic write
                     kernel(k) = .false.
                 end if
diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 59d9a47..360547f 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1059,6 +1059,7 @@ class ProjectionOperator(SparseOperator):
                 self.matrix.ncolmax,
                 product(data.shape[:-1]),
                 data.strides[-1],
+                ftype.base.itemsize,
             )
             if operation in (operation_assignment, operator.iand, operator.imul):
                 return out
-- 
2.43.0


From 2ba22b71be7b5b2b8f280facf7dfa71b790c5b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:20 +0000
Subject: [PATCH 032/149] fix: non-contiguous output of
 canonical_basis_in_kernel

---
 src/pysimulators/operators.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 360547f..c7ede37 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1044,12 +1044,17 @@ class ProjectionOperator(SparseOperator):
             np.float32,
             np.float64,
         ):
-            if operation in (operation_assignment, operator.iand, operator.imul):
+            inplace_ = out.flags.c_contiguous and operation in (
+                operation_assignment,
+                operator.iand,
+                operator.imul,
+            )
+            if inplace_:
                 if operation is operation_assignment:
                     out[...] = True
                 kernel = out
             else:
-                kernel = np.ones_like(out)
+                kernel = np.ones(out.shape, bool)
 
             f = f'fsr_kernel_i{int(itype.itemsize)}'
             func = getattr(flib.sparse, f)
@@ -1061,7 +1066,7 @@ class ProjectionOperator(SparseOperator):
                 data.strides[-1],
                 ftype.base.itemsize,
             )
-            if operation in (operation_assignment, operator.iand, operator.imul):
+            if inplace_:
                 return out
         else:
             nonzero = np.zeros(data.shape, bool)
@@ -1072,6 +1077,7 @@ class ProjectionOperator(SparseOperator):
             indices = data.index[nonzero]
             n = product(shape)
             kernel = np.histogram(indices, n, range=(0, n))[0] == 0
+            kernel = kernel.reshape(shape)
         operation(out, kernel)
         return out
 
-- 
2.43.0


From 6b8d766a072bbef2badce53915f9b2e47ba41147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:56 +0000
Subject: [PATCH 033/149] fix: restriction by a multi-dimensional mask in the
 Python fallback

---
 src/pysimulators/sparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index ee63c6b..9ae9ca5 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -983,9 +983,9 @@ class SparseOperator(SparseBase):
             )
         else:
             ncol = np.sum(mask)
-            new_index = empty(mask.shape, itype)
+            new_index = empty(mask.size, itype)
             new_index[...] = -1
-            new_index[mask] = np.arange(ncol, dtype=itype)
+            new_index[mask.ravel()] = np.arange(ncol, dtype=itype)
             undef = matrix.data.index < 0
             matrix.data.index = new_index[matrix.data.index]
             matrix.data.index[undef] = -1
-- 
2.43.0


From 9c91a7e76227770e01003afcfd0b59ebc571481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:56 +0000
Subject: [PATCH 034/149] fix: accumulation in non-contiguous or differently
 typed coverages

---
 src/pysimulators/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index c7ede37..205b33c 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1125,7 +1125,7 @@ class ProjectionOperator(SparseOperator):
                 shapein = self.shapeout
             if isinstance(self.matrix, FSRMatrix):
                 x = ones(shapein, self.dtype)
-                self.T(x, out=out, operation=operation)
+                operation(out, self.T(x))
             elif isinstance(self.matrix, FSRRotation2dMatrix):
                 if operation is operation_assignment:
                     out[...] = 0
@@ -1210,7 +1210,7 @@ class ProjectionOperator(SparseOperator):
         else:
             self.pT1(out=pT1, operation=operation)
             if isinstance(self.matrix, FSRMatrix):
-                self.T(x, out=pTx, operation=operation)
+                operation(pTx, self.T(x))
             else:
                 operation(pTx, self.T(x)[..., 0])
         return pTx, pT1
-- 
2.43.0


From df45539f792161a339ad361d54d6b66c7e094e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:56 +0000
Subject: [PATCH 035/149] fix: coverage of block projections with a single
 column per block

---
 src/pysimulators/operators.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 205b33c..ac60592 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1138,7 +1138,10 @@ class ProjectionOperator(SparseOperator):
                         out[i] += d
             else:
                 x = ones(shapein, self.dtype)
-                operation(out, self.T(x)[..., 0])
+                pT1 = self.T(x)
+                if self.matrix.block_shape[1] > 1:
+                    pT1 = pT1[..., 0]
+                operation(out, pT1)
         return out
 
     def pTx_pT1(self, x, out=None, operation=operation_assignment):
@@ -1212,7 +1215,10 @@ class ProjectionOperator(SparseOperator):
             if isinstance(self.matrix, FSRMatrix):
                 operation(pTx, self.T(x))
             else:
-                operation(pTx, self.T(x)[..., 0])
+                pTx_ = self.T(x)
+                if self.matrix.block_shape[1] > 1:
+                    pTx_ = pTx_[..., 0]
+                operation(pTx, pTx_)
         return pTx, pT1
 
 
-- 
2.43.0


From c5804b5512a520d5e0ad7414923fb86b7bb4bc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:32 +0000
Subject: [PATCH 036/149] fix: kernel and coverage of projections over a
 multi-dimensional domain

---
 src/pysimulators/operators.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index ac60592..5a51537 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1022,8 +1022,8 @@ class ProjectionOperator(SparseOperator):
         """
         data = self.matrix.data
         shape = self.shapein
-        if shape is None:
-            shape = (self.matrix.shape[1],)
+        if isinstance(self.matrix, FSRMatrix):
+            shape = self.broadcastable_shapein
         elif self.matrix.block_shape[1] > 1:
             shape = shape[:-1]
         if out is None:
@@ -1089,7 +1089,7 @@ class ProjectionOperator(SparseOperator):
         """
         shapeout = self.shapein
         if shapeout is None:
-            shapeout = (self.matrix.shape[1],)
+            shapeout = self.broadcastable_shapein
         elif self.matrix.block_shape[1] > 1:
             shapeout = shapeout[:-1]
         if out is None:
@@ -1120,7 +1120,7 @@ class ProjectionOperator(SparseOperator):
             )
         else:
             if self.shapeout is None:
-                shapein = (self.matrix.shape[0],)
+                shapein = self.broadcastable_shapeout
             else:
                 shapein = self.shapeout
             if isinstance(self.matrix, FSRMatrix):
@@ -1159,13 +1159,10 @@ class ProjectionOperator(SparseOperator):
         x = np.asarray(x, order='C')
         shapein = self.shapeout
         if shapein is None:
-            block_size = self.matrix.block_shape[1]
-            shapein = (self.matrix.shape[0],) + (
-                () if block_size == 1 else (block_size,)
-            )
+            shapein = self.broadcastable_shapeout
         shapeout = self.shapein
         if shapeout is None:
-            shapeout = (self.matrix.shape[1],)
+            shapeout = self.broadcastable_shapein
         elif self.matrix.block_shape[1] > 1:
             shapeout = shapeout[:-1]
         if x.shape != shapein:
-- 
2.43.0


From c1cfe86f084dabefa75d8da48171bdc99ec2ee22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:50 +0000
Subject: [PATCH 037/149] fix: back-projection to a non-contiguous output

---
 src/pysimulators/operators.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 5a51537..909f91a 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -669,13 +669,21 @@ class ProjectionBaseOperator(Operator):
             input_ = np.ascontiguousarray(input)
         else:
             input_ = input
+        if not output.flags.contiguous:
+            if pyoperators.config.VERBOSE:
+                print('Optimize me: Projection.T output is not contiguous.')
+            output_ = np.ascontiguousarray(output)
+        else:
+            output_ = output
         flib.pointingmatrix.transpose(
             matrix.ravel().view(np.int64),
             input_.T,
-            output.T,
+            output_.T,
             matrix.shape[-1],
             matrix.size // matrix.shape[-1],
         )
+        if not output.flags.contiguous:
+            output[...] = output_
 
     def set_attrin(self, attr):
         if '_header' in attr:
-- 
2.43.0


From eac23d910aaf5364f0982485bd3865bf4a3f2f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:57 +0000
Subject: [PATCH 038/149] fix: stale identifier in the place holder after a
 failed on-fly computation

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 909f91a..b5aab3d 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -935,7 +935,7 @@ class ProjectionOnFlyOperator(ProjectionBaseOperator):
     def matrix(self):
         if self.place_holder['id'] is self.id:
             return self.place_holder['matrix']
-        self.place_holder['matrix'] = None
+        self.place_holder['id'], self.place_holder['matrix'] = None, None
         matrix = self.func(self.id)
         self.place_holder['id'], self.place_holder['matrix'] = self.id, matrix
         return matrix
-- 
2.43.0


From 5bdbe9349da5fb8c118dd1fad2a37bfbeb1571e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:02 +0000
Subject: [PATCH 039/149] fix: transpose of a sparse operator without rows

---
 src/pysimulators/sparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 9ae9ca5..ed0ad85 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -240,7 +240,7 @@ class _FSMatrix:
         if not isinstance(self, (FSCMatrix, FSRMatrix)):
             if size == self.shape[0]:
                 return
-        elif size % self.shape[0] == 0:
+        elif size % max(self.shape[0], 1) == 0:
             return
         raise ValueError(
             f"The shape '{shape}' is incompatible with the number of rows of the sparse"
@@ -892,7 +892,7 @@ class SparseOperator(SparseBase):
     def validateout(self, shape):
         size = product(shape)
         if isinstance(self.matrix, (FSCMatrix, FSRMatrix)):
-            if size % self.matrix.shape[0] != 0:
+            if size % max(self.matrix.shape[0], 1) != 0:
                 raise ValueError(
                     f"The output shape '{shape}' is incompatible with the expected "
                     f"number of rows '{self.matrix.shape[0]}'."
-- 
2.43.0


From fe62617d49cd0d6278f4630a4b9743b6ae373df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:53 +0000
Subject: [PATCH 040/149] fix: bounds of the normalized slices in PackedTable

---
 src/pysimulators/packedtables/core.py | 36 +++------------------------
 1 file changed, 4 insertions(+), 32 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index c292c0b..af78066 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -725,40 +725,12 @@ class PackedTable:
 
     @staticmethod
     def _normalize_slice(s, n):
-        step = 1 if s.step is None else s.step
-        if step == 0:
-            raise ValueError('Invalide stride.')
-
-        start = s.start
-        if start is None:
-            start = 0 if step > 0 else n - 1
-        elif start < 0:
-            start = n + start
-            if start < 0:
-                if step < 0:
-                    return slice(0, 0, step)
-                start = 0
-        elif start >= n:
-            if step > 0:
-                return slice(n - 1, n - 1, step)
-            start = n - 1
-
-        stop = s.stop
-        if stop is None:
-            stop = n if step > 0 else -1
-        elif stop < 0:
-            stop = n + stop
-        elif stop > n:
-            stop = n
-
-        if step > 0:
-            extent = max(stop - start, 0)
-        else:
-            extent = max(start - stop, 0)
-        size = int(np.ceil(extent / abs(step)))
+        start, stop, step = s.indices(n)
+        size = len(range(start, stop, step))
         if size == n and step == 1:
             return Ellipsis
-
+        if size == 0:
+            start = 0
         return slice(start, start + size * step, step)
 
     def _selection2bool(self, selection):
-- 
2.43.0


From 48143c3e8dd99e3310d3793f11ddb9646d3d00ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:53 +0000
Subject: [PATCH 041/149] fix: selection of repeated elements in PackedTable

---
 src/pysimulators/packedtables/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index af78066..29a05bc 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -715,7 +715,7 @@ class PackedTable:
             return s
         start = s[0]
         step = s[1] - s[0]
-        if np.all(s == start + np.arange(size) * step):
+        if step != 0 and np.all(s == start + np.arange(size) * step):
             if size == n and step == 1:
                 return Ellipsis
             else:
-- 
2.43.0


From cb894fe80dfca130f9c357e582c8fa623bfc3c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:53 +0000
Subject: [PATCH 042/149] fix: PackedTable.copy sets a reserved attribute

---
 src/pysimulators/packedtables/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 29a05bc..048853a 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -371,7 +371,7 @@ class PackedTable:
 
         """
         out = copy.deepcopy(self)
-        out.comm = self.comm.Dup()
+        object.__setattr__(out, 'comm', self.comm.Dup())
         return out
 
     def pack(self, x, out=None, copy=False):
-- 
2.43.0


From 3e50f9b8d681e60269c11ac0db53c4111e8cbf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:53 +0000
Subject: [PATCH 043/149] fix: selection by decreasing slices in PackedTable

---
 src/pysimulators/packedtables/core.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 048853a..ac75297 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -181,9 +181,12 @@ class PackedTable:
 
     @property
     def _indexable(self):
+        return self._get_indexable(self._index)
+
+    @staticmethod
+    def _get_indexable(index):
         # slice index with negative stop values cannot be used for indexing
-        index = self._index
-        if isinstance(index, slice) and index.stop < 0:
+        if isinstance(index, slice) and index.stop is not None and index.stop < 0:
             return slice(index.start, None, index.step)
         return index
 
@@ -326,7 +329,7 @@ class PackedTable:
             index = slice(start, stop, step)
         else:
             index = self.index
-            index = index[selection]
+            index = index[self._get_indexable(selection)]
 
         if isinstance(index, np.ndarray):
             index = self._normalize_int_selection(index, self._size_actual)
@@ -341,7 +344,7 @@ class PackedTable:
             except KeyError:
                 continue
             if isinstance(v, np.ndarray) and v.ndim > 0:
-                setattr(out, k, v[selection])
+                setattr(out, k, v[self._get_indexable(selection)])
         return out
 
     def __str__(self):
@@ -735,6 +738,10 @@ class PackedTable:
 
     def _selection2bool(self, selection):
         out = np.zeros(self._shape_actual, bool)
+        if isinstance(selection, tuple):
+            selection = tuple(self._get_indexable(_) for _ in selection)
+        else:
+            selection = self._get_indexable(selection)
         out[selection] = True
         return out
 
-- 
2.43.0


From ac6114e4a761b4caa1631ccddf6031918ab7d88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:53 +0000
Subject: [PATCH 044/149] fix: selection with an ordering of a
 multi-dimensional PackedTable

---
 src/pysimulators/packedtables/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index ac75297..ecc820a 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -741,7 +741,10 @@ class PackedTable:
         if isinstance(selection, tuple):
             selection = tuple(self._get_indexable(_) for _ in selection)
         else:
+            # the slice and integer selections refer to the collapsed dimensions
             selection = self._get_indexable(selection)
+            out.reshape(-1)[selection] = True
+            return out
         out[selection] = True
         return out
 
-- 
2.43.0


From 05a557b22473d46758980a31f2fa534383f784dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:53 +0000
Subject: [PATCH 045/149] fix: negative and out-of-bounds integer selections in
 PackedTable

---
 src/pysimulators/packedtables/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index ecc820a..56db9e4 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -680,7 +680,7 @@ class PackedTable:
         ):
             return Ellipsis
         if isscalarlike(selection):
-            return np.asarray([selection], self._dtype_index)
+            selection = np.asarray([selection], self._dtype_index)
         if isinstance(selection, slice):
             return self._normalize_slice(selection, product(shape))
         if isinstance(selection, (list, tuple)):
@@ -706,6 +706,10 @@ class PackedTable:
         if selection.dtype == int:
             if selection.ndim != 1:
                 raise ValueError('Index selection is not 1-dimensional.')
+            n = product(shape)
+            if np.any((selection < -n) | (selection >= n)):
+                raise IndexError(f'The selection is out of bounds for size {n}.')
+            selection = np.where(selection < 0, selection + n, selection)
         elif selection.shape != shape:
             raise ValueError('Invalid boolean selection dimensions.')
 
-- 
2.43.0


From 477db16001fdf2e95d40f6604464fff51c9c1494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:53 +0000
Subject: [PATCH 046/149] fix: selection of a multi-dimensional PackedTable by
 full slices

---
 src/pysimulators/packedtables/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 56db9e4..f334fde 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -686,6 +686,12 @@ class PackedTable:
         if isinstance(selection, (list, tuple)):
             selection_ = np.asarray(selection)
             if selection_.dtype == object:
+                selection = tuple(selection)
+                for i, s in enumerate(selection):
+                    if s is Ellipsis:
+                        fill = (slice(None),) * (len(shape) - len(selection) + 1)
+                        selection = selection[:i] + fill + selection[i + 1 :]
+                        break
                 if len(selection) > len(shape):
                     raise ValueError('Invalid selection dimensions.')
                 selection = tuple(
@@ -693,9 +699,10 @@ class PackedTable:
                     for _, s in zip(selection, shape)
                 )
                 try:
-                    return selection[: ilast_is_not(selection, Ellipsis) + 1]
+                    selection = selection[: ilast_is_not(selection, Ellipsis) + 1]
                 except ValueError:
                     return Ellipsis
+                return tuple(slice(None) if _ is Ellipsis else _ for _ in selection)
             else:
                 selection = selection_
         elif not isinstance(selection, np.ndarray):
-- 
2.43.0


From 005b70d8e50eb74635ebf8f1c4af222d0f8be518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:59 +0000
Subject: [PATCH 047/149] fix: selection of a PackedTable by a tuple of one
 element

---
 src/pysimulators/packedtables/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index f334fde..828d679 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -311,6 +311,11 @@ class PackedTable:
 
     def __getitem__(self, selection):
         selection = self._normalize_selection(selection, (len(self),))
+        if isinstance(selection, tuple):
+            # the packed table has only one dimension
+            (selection,) = selection
+            if not isinstance(selection, slice):
+                selection = self._normalize_selection(selection, (len(self),))
         if selection is Ellipsis:
             return self
 
-- 
2.43.0


From 3e3a8e72acb338a2bc84964f521fe40d319facee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:12 +0000
Subject: [PATCH 048/149] fix: compute the squared distances in more than two
 dimensions

---
 src/pysimulators/datautils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 3d08ba6..27dfb61 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -256,10 +256,7 @@ def _distance2_slow(shape, center, scale, dtype, out=None):
         (s * (a.astype(dtype) - o)) ** 2
         for a, o, s in zip(d, center[::-1], scale[::-1])
     ]
-    if len(d) == 1:
-        out[...] = d[0]
-        return out
-    np.sum(sum(d[:-1]), d[-1], out)
+    out[...] = sum(d)
     return out
 
 
-- 
2.43.0


From 434ce97529d1c947e1a863180a056e9254278fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:12 +0000
Subject: [PATCH 049/149] fix: do not truncate the distances of an aperture of
 integer type

---
 src/pysimulators/datautils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 27dfb61..60f8530 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -86,9 +86,11 @@ def aperture_circular(shape, diameter, center=None, scale=1, dtype=float):
         The output data type.
 
     """
-    array = distance2(shape, center=center, scale=scale, dtype=dtype)
+    array = distance2(
+        shape, center=center, scale=scale, dtype=float_intrinsic_dtype(dtype)
+    )
     array[...] = array <= (diameter / 2) ** 2
-    return array
+    return array.astype(dtype)
 
 
 def distance(shape, center=None, scale=1, dtype=float, out=None):
-- 
2.43.0


From ca91c795bf76116f82f031545998801dd95e1da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:12 +0000
Subject: [PATCH 050/149] fix: centre the profile of a PSD on the null
 frequency

---
 src/pysimulators/datautils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 60f8530..b7f8e5e 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -562,6 +562,6 @@ def profile_psd2(array, sampling_frequency=1, fftw_flag='FFTW_MEASURE'):
     if array.shape[0] != array.shape[1]:
         raise ValueError('The input array is not square.')
     psd = psd2(array, sampling_frequency=sampling_frequency, fftw_flag=fftw_flag)
-    x, y = profile(psd, center=array.shape // np.array(2) + 1)
+    x, y = profile(psd, center=array.shape // np.array(2))
     x *= sampling_frequency / array.shape[1]
     return x, y
-- 
2.43.0


From f290cd5212952d70eff7f983db434c0dd97f1b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:45 +0000
Subject: [PATCH 051/149] fix: NaN and infinity bit patterns in module_math

---
 src/flib/module_math.f90.j2 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/flib/module_math.f90.j2 b/src/flib/module_math.f90.j2
index 4eea029..5adf1ac 100644
--- a/src/flib/module_math.f90.j2
+++ b/src/flib/module_math.f90.j2
@@ -6,11 +6,11 @@ module module_math
     implicit none
 
     real(real32), parameter :: NAN_4  = real(z'FFFFFFFF', real32)
-    real(real32), parameter :: MINF_4 = real(z'FF700000', real32)
-    real(real32), parameter :: PINF_4 = real(z'7F700000', real32)
+    real(real32), parameter :: MINF_4 = real(z'FF800000', real32)
+    real(real32), parameter :: PINF_4 = real(z'7F800000', real32)
     real(real32), parameter :: PI_4 = 4._real32 * atan(1._real32)
-    real(real64), parameter :: NAN_8  = real(z'FFF800000000000', real64)
-    real(real64), parameter :: MINF_8 = real(z'FFF000000000000', real64)
+    real(real64), parameter :: NAN_8  = real(z'FFF8000000000000', real64)
+    real(real64), parameter :: MINF_8 = real(z'FFF0000000000000', real64)
     real(real64), parameter :: PINF_8 = real(z'7FF0000000000000', real64)
     real(real64), parameter :: PI_8 = 4._real64 * atan(1._real64)
 {% if PRECISION_REAL == 16 %}
-- 
2.43.0


From c1b75670d6eae7a8d92a5bffd351129de49e9cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:45 +0000
Subject: [PATCH 052/149] fix: NaN and infinity bit patterns in module_math_old

---
 src/flib/module_math_old.f90 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/flib/module_math_old.f90 b/src/flib/module_math_old.f90
index 61df943..0f5d4ca 100644
--- a/src/flib/module_math_old.f90
+++ b/src/flib/module_math_old.f90
@@ -49,9 +49,9 @@ module module_math_old
     !XXX should use ieee_arithmetic instead when gfortran implements it. So far, gfortran doesn't allow NaN, mInf, pInf conversion
     ! between different real kinds...
 #if PRECISION_REAL == 8
-    real(8), parameter :: NaN  = real(z'FFFFFFFF', 8)
-    real(8), parameter :: mInf = real(z'FFFF0000', 8)
-    real(8), parameter :: pInf = real(z'7FFF0000', 8)
+    real(8), parameter :: NaN  = real(z'FFF8000000000000', 8)
+    real(8), parameter :: mInf = real(z'FFF0000000000000', 8)
+    real(8), parameter :: pInf = real(z'7FF0000000000000', 8)
 #elif PRECISION_REAL == 16
     real(16), parameter :: NaN  = z'FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF'
     real(16), parameter :: mInf = z'FFFF0000000000000000000000000000'
-- 
2.43.0


From 6add6588de7511cf34d55ae6ddca16e83ccd5f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:08 +0000
Subject: [PATCH 053/149] fix: abscissae of the integrated profile

---
 src/pysimulators/datautils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index b7f8e5e..051e7e7 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -405,6 +405,7 @@ def integrated_profile(input, bin=1, nbins=None, center=None, scale=1):
     )
     y[~np.isfinite(y)] = 0
     y *= n * scale**2
+    x = bin * np.arange(1, len(y) + 1, dtype=x.dtype)
     return x, np.cumsum(y)
 
 
-- 
2.43.0


From 4262712725315d12511f0bec17a6fc8c4ec18849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:15 +0000
Subject: [PATCH 054/149] fix: Quantity(..., copy=False) copies when it is
 required by Numpy 2

---
 src/pysimulators/quantities.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index b5f69a0..34521f9 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -462,7 +462,12 @@ class Quantity(np.ndarray):
 
         # get a new Quantity instance (or a subclass if subok is True)
         result = np.array(
-            data, dtype=dtype, copy=copy, order=order, subok=True, ndmin=ndmin
+            data,
+            dtype=dtype,
+            copy=True if copy else None,
+            order=order,
+            subok=True,
+            ndmin=ndmin,
         )
         if not subok and type(result) is not cls or not isinstance(result, cls):
             result = result.view(cls)
-- 
2.43.0


From 9814cff52010f79df3350cf78a1b3927604baef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:15 +0000
Subject: [PATCH 055/149] fix: units in fmax, fmin, remainder, clip, arctan2,
 copysign, float_power and positive

---
 src/pysimulators/quantities.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 34521f9..4958266 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -743,16 +743,19 @@ class Quantity(np.ndarray):
 
         if ufunc in (
             np.add,
-            np.clip,
+            np.fmax,
+            np.fmin,
             np.fmod,
             np.hypot,
             np.maximum,
             np.minimum,
+            np.remainder,
             np.subtract,
-        ):
+        ) or ufunc.__name__ == 'clip':
             inputs, output_unit = self._get_inputs_with_common_units(inputs)
 
         elif ufunc in (
+            np.arctan2,
             np.equal,
             np.greater,
             np.greater_equal,
@@ -769,16 +772,13 @@ class Quantity(np.ndarray):
             np.conjugate,
             np.copysign,
             np.fabs,
-            np.float_power,
             np.floor,
-            np.fmax,
-            np.fmin,
-            np.hypot,
             np.negative,
+            np.positive,
             np.rint,
             np.trunc,
         ):
-            output_unit = self._unit
+            output_unit = input_units[0]
 
         elif ufunc is np.reciprocal:
             output_unit = _power_unit(input_units[0], -1)
@@ -792,7 +792,7 @@ class Quantity(np.ndarray):
         elif ufunc is np.square:
             output_unit = _power_unit(input_units[0], 2)
 
-        elif ufunc is np.power:
+        elif ufunc in (np.float_power, np.power):
             power = (
                 inputs[1].view(np.ndarray)
                 if isinstance(inputs[1], Quantity)
-- 
2.43.0


From de5c03b9dbf0f651c9fd457ff21bd86db3bd691f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:02 +0000
Subject: [PATCH 056/149] fix: products of the elements of a quantity

---
 src/pysimulators/quantities.py | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 4958266..e434cdd 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -741,7 +741,16 @@ class Quantity(np.ndarray):
 
         input_units = self._get_sequence_units(inputs)
 
-        if ufunc in (
+        if len(inputs) < ufunc.nin and ufunc in (
+            np.divide,
+            np.float_power,
+            np.floor_divide,
+            np.multiply,
+            np.power,
+        ):
+            output_unit = self._get_reduction_unit(ufunc, method, *inputs, **kwargs)
+
+        elif ufunc in (
             np.add,
             np.fmax,
             np.fmin,
@@ -840,6 +849,28 @@ class Quantity(np.ndarray):
 
         return self._process_ufunc_result(result, output_unit)
 
+    @classmethod
+    def _get_reduction_unit(
+        cls, ufunc, method, array, axis=0, *, initial=None, where=True, **keywords
+    ) -> UnitType:
+        """
+        Return the unit of a reduction by a ufunc that does not preserve the units.
+        """
+        unit = cls._get_units(array)
+        if len(unit) == 0:
+            return {}
+        if ufunc is not np.multiply or method != 'reduce' or where is not True:
+            raise UnitError(
+                f"The method '{method}' of '{ufunc.__name__}' cannot be applied on a qu"
+                f"antity of unit '{_strunit(unit)}'."
+            )
+        if axis is None:
+            axis = range(array.ndim)
+        elif not isinstance(axis, tuple):
+            axis = (axis,)
+        number = np.prod([array.shape[_] for _ in axis], dtype=int)
+        return _multiply_unit(cls._get_units(initial), _power_unit(unit, int(number)))
+
     def _process_ufunc_result(self, result, output_unit):
         """
         Process the result of a ufunc call, setting the appropriate unit.
-- 
2.43.0


From 07affd16bd2e221177fab01aeed5cfe7ccc95527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:42 +0000
Subject: [PATCH 057/149] fix: set the unit of the quantities specified as
 output

---
 src/pysimulators/quantities.py | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index e434cdd..5b9ba0d 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -503,6 +503,7 @@ class Quantity(np.ndarray):
         if conversion is None:
             return super().__array_function__(func, types, args, kwargs)
 
+        out = kwargs.get('out')
         input_units = self._get_function_input_units(args, conversion)
         output_units = self._get_function_output_units(input_units, conversion)
 
@@ -514,6 +515,11 @@ class Quantity(np.ndarray):
         if conversion.output is ConversionOutput.NONE:
             return None
 
+        if isinstance(out, Quantity):
+            if any(input_units):
+                out._unit = output_units
+            return out
+
         converted_outputs = self._convert_function_outputs(
             outputs, output_units, conversion
         )
@@ -840,7 +846,19 @@ class Quantity(np.ndarray):
             ],
             **kwargs,
         )
-        if result is None or result is NotImplemented or output_unit is None:
+        if result is NotImplemented:
+            return result
+
+        # the units of the specified outputs are updated
+        if out is not None:
+            results = result if isinstance(result, tuple) else (result,)
+            results = tuple(
+                self._process_ufunc_out(r, o, input_units, output_unit)
+                for r, o in zip(results, out if isinstance(out, tuple) else (out,))
+            )
+            return results if isinstance(result, tuple) else results[0]
+
+        if result is None or output_unit is None:
             return result
 
         # Handle tuple results (for ufuncs with multiple outputs)
@@ -849,6 +867,19 @@ class Quantity(np.ndarray):
 
         return self._process_ufunc_result(result, output_unit)
 
+    def _process_ufunc_out(self, result, out, input_units, output_unit):
+        """
+        Set the unit of an output specified in a ufunc call, unless no input
+        has a unit.
+        """
+        if isinstance(out, Quantity):
+            if any(input_units):
+                out._unit = output_unit or {}
+            return out
+        if output_unit is None or result is None:
+            return result
+        return self._process_ufunc_result(result, output_unit)
+
     @classmethod
     def _get_reduction_unit(
         cls, ufunc, method, array, axis=0, *, initial=None, where=True, **keywords
-- 
2.43.0


From f9b556cfca1220d01394cbb434b07a9f69755849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:58 +0000
Subject: [PATCH 058/149] fix: Numpy functions called with their quantities as
 keywords

---
 src/pysimulators/quantities.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 5b9ba0d..2ffc06a 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -2,6 +2,7 @@
 # All rights reserved
 #
 
+import inspect
 import re
 import sys
 from collections.abc import Callable, Iterable, Sequence
@@ -503,6 +504,7 @@ class Quantity(np.ndarray):
         if conversion is None:
             return super().__array_function__(func, types, args, kwargs)
 
+        args, kwargs = self._bind_function_inputs(func, args, kwargs)
         out = kwargs.get('out')
         input_units = self._get_function_input_units(args, conversion)
         output_units = self._get_function_output_units(input_units, conversion)
@@ -525,6 +527,29 @@ class Quantity(np.ndarray):
         )
         return converted_outputs
 
+    @staticmethod
+    def _bind_function_inputs(
+        func: Callable, args: tuple[Any, ...], keywords: dict[str, Any]
+    ) -> tuple[tuple[Any, ...], dict[str, Any]]:
+        """
+        Return the leading arguments as positional ones, even if they are specified as
+        keywords.
+        """
+        keywords = keywords.copy()
+        try:
+            parameters = list(inspect.signature(func).parameters.values())
+        except ValueError:
+            return args, keywords
+        for parameter in parameters[len(args) :]:
+            if (
+                parameter.kind is not parameter.POSITIONAL_OR_KEYWORD
+                or parameter.name not in keywords
+                or parameter.name == 'out'
+            ):
+                break
+            args += (keywords.pop(parameter.name),)
+        return args, keywords
+
     @classmethod
     def _get_function_input_units(
         cls, arrays: Iterable[Any], conversion: ConversionType
-- 
2.43.0


From fb1733c551057bc5bd594c6a87510b9824f54600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:58 +0000
Subject: [PATCH 059/149] fix: Numpy functions with quantities as other
 keywords, such as the weights of np.average

---
 src/pysimulators/quantities.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 2ffc06a..8ecaebf 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -92,7 +92,7 @@ FUNCTIONS = {
     np.atleast_1d: DEFAULT_CONVERSION,
     np.atleast_2d: DEFAULT_CONVERSION,
     np.atleast_3d: DEFAULT_CONVERSION,
-    np.average: DEFAULT_CONVERSION,
+    np.average: ConversionType(output=ConversionOutput.FIRST_IF_SEQUENCE),
     # np.block: ConversionType(ConversionInput.FIRST_NESTED),
     np.broadcast_arrays: ConversionType(
         ConversionInput.SEQUENCE, ConversionOutput.SEQUENCE, ConversionAction.EACH
@@ -512,7 +512,9 @@ class Quantity(np.ndarray):
         converted_inputs, kwargs = self._convert_function_inputs(
             args, kwargs, output_units, conversion
         )
-        converted_inputs = self._view_function_inputs(converted_inputs, conversion)
+        converted_inputs, kwargs = self._view_function_inputs(
+            converted_inputs, kwargs, conversion
+        )
         outputs = func(*converted_inputs, **kwargs)
         if conversion.output is ConversionOutput.NONE:
             return None
@@ -667,8 +669,10 @@ class Quantity(np.ndarray):
 
     @classmethod
     def _view_function_inputs(
-        cls, arrays: Any, conversion: ConversionType
-    ) -> tuple[Any, ...]:
+        cls, arrays: Any, keywords: dict[str, Any], conversion: ConversionType
+    ) -> tuple[tuple[Any, ...], dict[str, Any]]:
+        for key, value in keywords.items():
+            keywords[key] = cls._view_function_input(value)
         viewed_arrays = []
         for iarray, array in enumerate(arrays):
             if (
@@ -681,7 +685,7 @@ class Quantity(np.ndarray):
             else:
                 array = cls._view_function_input(array)
             viewed_arrays.append(array)
-        return tuple(viewed_arrays)
+        return tuple(viewed_arrays), keywords
 
     @classmethod
     def _view_function_input(cls, array):
-- 
2.43.0


From 55b298e5f664f4b100e7ebf7f75006b763bde07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:58 +0000
Subject: [PATCH 060/149] fix: np.cov and np.where called with a single
 quantity

---
 src/pysimulators/quantities.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 8ecaebf..690c071 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -113,7 +113,7 @@ FUNCTIONS = {
         ConversionInput.FIRST_AND_SECOND, action=ConversionAction.PROD
     ),
     np.cov: ConversionType(
-        ConversionInput.FIRST_AND_SECOND, action=ConversionAction.PROD
+        ConversionInput.FIRST_AND_SECOND, action=ConversionAction.SQUARE
     ),
     np.cross: ConversionType(
         ConversionInput.FIRST_AND_SECOND, action=ConversionAction.PROD
@@ -501,7 +501,7 @@ class Quantity(np.ndarray):
         ufuncs when appropriate.
         """
         conversion = FUNCTIONS.get(func)
-        if conversion is None:
+        if conversion is None or func is np.where and len(args) == 1:
             return super().__array_function__(func, types, args, kwargs)
 
         args, kwargs = self._bind_function_inputs(func, args, kwargs)
@@ -566,7 +566,8 @@ class Quantity(np.ndarray):
             case ConversionInput.SEQUENCE_EXCEPT_FIRST:
                 return cls._get_sequence_units(arrays[1:])
             case ConversionInput.FIRST_AND_SECOND:
-                return cls._get_sequence_units([arrays[0], arrays[1]])
+                # the second quantity may be optional
+                return cls._get_sequence_units(arrays[:2])
             case ConversionInput.SECOND_AND_THIRD:
                 return cls._get_sequence_units([arrays[1], arrays[2]])
             case ConversionInput.FIRST_AND_THIRD:
-- 
2.43.0


From 70ae05de77e831165c2c7eedb1ada7594af7bfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:56 +0000
Subject: [PATCH 061/149] fix: units of the limits in np.clip

---
 src/pysimulators/quantities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 690c071..59b9eb9 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -99,7 +99,7 @@ FUNCTIONS = {
     ),
     np.broadcast_to: DEFAULT_CONVERSION,
     np.choose: ConversionType(ConversionInput.SECOND_SEQUENCE),
-    np.clip: DEFAULT_CONVERSION,
+    # np.clip: the conversion is done by the ufuncs it is made of
     np.column_stack: ConversionType(ConversionInput.FIRST_SEQUENCE),
     np.compress: ConversionType(ConversionInput.SECOND),
     np.concat: ConversionType(ConversionInput.FIRST_SEQUENCE),
-- 
2.43.0


From 9a52b6a527d346e5eb26afe352863a0a328da35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:38 +0000
Subject: [PATCH 062/149] fix: unit conversions modify the derived units of the
 unit table

---
 src/pysimulators/quantities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 59b9eb9..8f7c853 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -1333,6 +1333,9 @@ def _get_du(input, key, derived_units):
     if hasattr(input, '_header'):
         du = du.view(type(input))
         du._header = input._header
+    else:
+        # the input derived units are not set in the table of derived units
+        du = du.view()
     du._derived_units = input._derived_units
     return du, broadcast
 
-- 
2.43.0


From 7f9ee881078de5fc3bdd4aeeb6dd482b819c6236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:38 +0000
Subject: [PATCH 063/149] fix: conversion to SI of the product of different
 angles

---
 src/pysimulators/quantities.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 8f7c853..f49c8a6 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -1217,6 +1217,14 @@ class Quantity(np.ndarray):
         result = (result.T * ffast.magnitude.T).T
         result._unit = _multiply_unit(fslow._unit, ffast._unit)
 
+        # the product of the derived units may itself be a derived unit (rad^2)
+        for key, val in result._unit.items():
+            if (key, val) in self._unit.items():
+                continue
+            for du in self.derived_units, units:
+                if (key, val) in du or (key, -val) in du:
+                    return result.SI
+
         return result
 
     def __reduce__(self):
-- 
2.43.0


From c1d305b72a39a2a79611107d9886a15d87fc564c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:46 +0000
Subject: [PATCH 064/149] fix: data type of the distances of integer type

---
 src/pysimulators/datautils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 051e7e7..d1c949f 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -152,7 +152,7 @@ def distance(shape, center=None, scale=1, dtype=float, out=None):
             out[...] = out_
     else:
         _distance_slow(shape, center, scale, dtype, out)
-    return Map(out, copy=False, unit=unit)
+    return Map(out, dtype=out.dtype, copy=False, unit=unit)
 
 
 def _distance_slow(shape, center, scale, dtype, out=None):
@@ -173,7 +173,10 @@ def _distance_slow(shape, center, scale, dtype, out=None):
         (s * (a.astype(dtype) - o)) ** 2
         for a, o, s in zip(d, center[::-1], scale[::-1])
     ]
-    return np.sqrt(sum(d), out)
+    if out is None:
+        out = np.empty(shape, dtype)
+    out[...] = np.sqrt(sum(d))
+    return out
 
 
 def distance2(shape, center=None, scale=1, dtype=float, out=None):
@@ -235,7 +238,7 @@ def distance2(shape, center=None, scale=1, dtype=float, out=None):
             out[...] = out_
     else:
         _distance2_slow(shape, center, scale, dtype, out)
-    return Map(out, copy=False, unit=unit)
+    return Map(out, dtype=out.dtype, copy=False, unit=unit)
 
 
 def _distance2_slow(shape, center, scale, dtype, out=None):
-- 
2.43.0


From 50a3a03f58d93ffe7ce8cb8ef2e15c3c96d1500e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:46 +0000
Subject: [PATCH 065/149] fix: data type of the multi-dimensional gaussians

---
 src/pysimulators/datautils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index d1c949f..985bc2a 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -372,6 +372,7 @@ def gaussian(shape, sigma=None, fwhm=None, center=None, dtype=float):
         out = 1 / ((2 * np.pi) ** (n / 2) * product(sigma))
         for a in axes:
             out = out * np.exp(-(a**2))
+        out = np.asarray(out, dtype)
     return out
 
 
-- 
2.43.0


From 4c902157b67015725e782d4ce69d2d0702aef0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:41 +0000
Subject: [PATCH 066/149] fix: selection with an Ellipsis of the broadcast
 derived units

---
 src/pysimulators/quantities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index f49c8a6..c8481f6 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -977,7 +977,9 @@ class Quantity(np.ndarray):
         # Replace Ellipsis with ':'
         try:
             pos = key.index(Ellipsis)
-            key = key[:pos] + (self.ndim - len(key)) * (slice(None),) + key[pos + 1 :]
+            key = (
+                key[:pos] + (self.ndim - len(key) + 1) * (slice(None),) + key[pos + 1 :]
+            )
         except ValueError:
             pass
 
-- 
2.43.0


From 8171d55eef4bd1f08c50e74394a6b57eaaea0716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:41 +0000
Subject: [PATCH 067/149] fix: conversion of units with leftward broadcast
 derived units

---
 src/pysimulators/quantities.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index c8481f6..d28ccb4 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -1148,20 +1148,25 @@ class Quantity(np.ndarray):
             self._unit = newunit
             return
 
+        # the derived units may be broadcast along the dimensions of the quantity
+        one = 1.0
+        if any('[' in key for key in self.derived_units):
+            one = np.ones(self.shape)
+
         # the header may contain information used to do unit conversions
         if hasattr(self, '_header'):
             q1 = self.__class__(
-                1,
+                one,
                 header=self._header,
                 unit=self._unit,
                 derived_units=self.derived_units,
             ).SI
             q2 = self.__class__(
-                1, header=self._header, unit=newunit, derived_units=self.derived_units
+                one, header=self._header, unit=newunit, derived_units=self.derived_units
             ).SI
         else:
-            q1 = Quantity(1.0, self._unit, self.derived_units).SI
-            q2 = Quantity(1.0, newunit, self.derived_units).SI
+            q1 = Quantity(one, self._unit, self.derived_units).SI
+            q2 = Quantity(one, newunit, self.derived_units).SI
 
         if q1._unit != q2._unit:
             raise UnitError(
-- 
2.43.0


From 6a2deddedc60015ff105c256f9d1ed25ead82abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:41 +0000
Subject: [PATCH 068/149] fix: scalar averages returned with their weights

---
 src/pysimulators/quantities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index d28ccb4..bd4f65b 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -736,7 +736,10 @@ class Quantity(np.ndarray):
                 )
                 or conversion.output is ConversionOutput.SEQUENCE
             ):
-                array = array.view(type(self))
+                if np.isscalar(array):
+                    array = type(self)(array)
+                else:
+                    array = array.view(type(self))
                 array.__array_finalize__(self)
                 array._unit = units
             outputs.append(array)
-- 
2.43.0


From 899cef1180bebeac6e6e9c9316a8f5988c661ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:00 +0000
Subject: [PATCH 069/149] fix: unit of the broadcast derived units that become
 scalars

---
 src/pysimulators/quantities.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index bd4f65b..e91c264 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -999,9 +999,14 @@ class Quantity(np.ndarray):
             # the derived unit is broadcastable, let's update it
             broadcast = d[pos + 1 : -1]
             if broadcast == 'leftward':
-                v = v[key[-v.ndim :]]
+                value = v[key[-v.ndim :]]
             else:
-                v = v[key[: v.ndim]]
+                value = v[key[: v.ndim]]
+            if isinstance(value, Quantity):
+                v = value
+            else:
+                # the items of a quantity have no unit
+                v = Quantity(value, v._unit, v._derived_units)
 
             if du is None:
                 du = item._derived_units.copy()
-- 
2.43.0


From 75cc6089996cc1b49683519cf2a994a42b7e6b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:15 +0000
Subject: [PATCH 070/149] fix: rotate integer coordinates and handle any output
 array

---
 src/pysimulators/geometry.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index ceaafd2..d1a5412 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -302,10 +302,21 @@ def rotate(coords, angle, out=None):
     from pyoperators.utils import isalias
 
     coords = _np.asarray(coords)
+    if coords.dtype.kind in 'biu':
+        coords = coords.astype(float)
     if out is None:
         out = _np.empty_like(coords)
+    elif out.shape != coords.shape:
+        raise ValueError(
+            f"Invalid shape of the output '{out.shape}'. Expected shape is "
+            f"'{coords.shape}'."
+        )
+    elif not isalias(coords, out) and _np.may_share_memory(coords, out):
+        coords = coords.copy()
     if (
-        coords.dtype.char == 'd'
+        coords.size > 0
+        and coords.dtype.char == 'd'
+        and out.dtype.char == 'd'
         and coords.flags.c_contiguous
         and out.flags.c_contiguous
     ):
@@ -323,9 +334,8 @@ def rotate(coords, angle, out=None):
         [[_np.cos(angle), -_np.sin(angle)], [_np.sin(angle), _np.cos(angle)]],
         coords.dtype,
     )
-    if isalias(coords, out):
-        coords = coords.copy()
-    return _np.dot(coords, m.T, out)
+    out[...] = _np.dot(coords, m.T)
+    return out
 
 
 def surface_simple_polygon(coords, out=None, dtype=float):
-- 
2.43.0


From 4b82d9f6c7e822635fd66047196f0f0d2982c2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:15 +0000
Subject: [PATCH 071/149] fix: grids whose shape is a list

---
 src/pysimulators/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index d1a5412..78815ff 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -98,7 +98,7 @@ def create_grid(
 
     """
     if out is None:
-        out = _np.empty(shape + (2,))
+        out = _np.empty(tuple(shape) + (2,))
     _flib.geometry.create_grid(
         spacing, xreflection, yreflection, angle, center[0], center[1], out.T
     )
@@ -142,7 +142,7 @@ def create_grid_squares(
 
     """
     if out is None:
-        out = _np.empty(shape + (4, 2))
+        out = _np.empty(tuple(shape) + (4, 2))
     _flib.geometry.create_grid_squares(
         spacing,
         filling_factor,
-- 
2.43.0


From 12ffa54b5256be5397cae9aef733787f16ef5df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:15 +0000
Subject: [PATCH 072/149] fix: surface of polygons for any number of dimensions
 and output

---
 src/pysimulators/geometry.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index 78815ff..144cb89 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -362,13 +362,16 @@ def surface_simple_polygon(coords, out=None, dtype=float):
     coords = _np.array(coords, dtype=float, order='c')
     if out is None:
         out = _np.empty(coords.shape[:-2], dtype)
-    if coords.ndim < 3:
-        coords = coords[None, ...]
-    if out.ndim == 0:
-        out_ = out.reshape(1)
-    else:
-        out_ = out
-    _flib.geometry.surface_simple_polygon(coords.T, out_.T)
+    elif out.shape != coords.shape[:-2]:
+        raise ValueError(
+            f"Invalid shape of the output '{out.shape}'. Expected shape is "
+            f"'{coords.shape[:-2]}'."
+        )
+    surface = _np.zeros(out.size)
+    if coords.size > 0:
+        coords = coords.reshape((-1,) + coords.shape[-2:])
+        _flib.geometry.surface_simple_polygon(coords.T, surface)
+    out[...] = surface.reshape(out.shape)
     if out.ndim == 0:
         out = out[()]
     return out
-- 
2.43.0


From efc7371c9ab9aa6f38413ab5f1e112772eea6cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:15 +0000
Subject: [PATCH 073/149] fix: unit of a layout grid without unit

---
 src/pysimulators/packedtables/layouts.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pysimulators/packedtables/layouts.py b/src/pysimulators/packedtables/layouts.py
index 30f5083..4bad20a 100644
--- a/src/pysimulators/packedtables/layouts.py
+++ b/src/pysimulators/packedtables/layouts.py
@@ -255,8 +255,7 @@ class LayoutGrid(Layout):
         unit = (
             getattr(spacing, 'unit', '')
             or getattr(origin, 'unit', '')
-            or 'radius' in keywords
-            and getattr(keywords['radius'], 'unit', '')
+            or getattr(keywords.get('radius'), 'unit', '')
         )
         if unit:
             spacing = Quantity(spacing).tounit(unit)
-- 
2.43.0


From 13f34067aabdfad28f98c6b5665f8e208749cd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:27 +0000
Subject: [PATCH 074/149] fix: memory order of the arrays created by the
 Quantity factories

---
 src/pysimulators/quantities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index e91c264..57975e4 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -1291,6 +1291,7 @@ class Quantity(np.ndarray):
             unit=unit,
             derived_units=derived_units,
             copy=False,
+            order=order,
             **keywords,
         )
 
@@ -1306,6 +1307,7 @@ class Quantity(np.ndarray):
             unit=unit,
             derived_units=derived_units,
             copy=False,
+            order=order,
             **keywords,
         )
 
@@ -1321,6 +1323,7 @@ class Quantity(np.ndarray):
             unit=unit,
             derived_units=derived_units,
             copy=False,
+            order=order,
             **keywords,
         )
 
-- 
2.43.0


From b49c7fc304048b428a41654ae472474f51ba46d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:07 +0000
Subject: [PATCH 075/149] fix: file left open when reading a FITS file

---
 src/pysimulators/mpiutils.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index fb4fe0e..657e09c 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -172,26 +172,24 @@ def read_fits(filename, extname, comm):
         raise ValueError('The file name is not the same for all MPI jobs.')
 
     # get primary hdu or extension
-    fits = pyfits.open(filename)
-    if extname is not None:
-        hdu = fits[extname]
-    else:
-        ihdu = 0
-        while True:
-            try:
-                hdu = fits[ihdu]
-            except IndexError:
-                raise OSError('The FITS file has no data.')
-            if hdu.header['NAXIS'] == 0:
+    with pyfits.open(filename) as fits:
+        if extname is not None:
+            hdu = fits[extname]
+        else:
+            ihdu = 0
+            while True:
+                try:
+                    hdu = fits[ihdu]
+                except IndexError:
+                    raise OSError('The FITS file has no data.')
+                if hdu.header['NAXIS'] != 0:
+                    break
                 ihdu += 1
-                continue
-            if hdu.data is not None:
-                break
 
-    header = hdu.header
-    n = header['NAXIS' + str(header['NAXIS'])]
-    s = split(n, comm.size, comm.rank)
-    output = pyfits.Section(hdu)[s]
+        header = hdu.header
+        n = header['NAXIS' + str(header['NAXIS'])]
+        s = split(n, comm.size, comm.rank)
+        output = pyfits.Section(hdu)[s]
 
     if not output.dtype.isnative:
         output = output.byteswap().view(output.dtype.newbyteorder('='))
-- 
2.43.0


From 0333e44bc5ec0b204ea5a577a9c959632ccdca59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:07 +0000
Subject: [PATCH 076/149] fix: reference pixel of the local headers when
 reading a distributed FITS file

---
 src/pysimulators/mpiutils.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index 657e09c..195a4cd 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -195,12 +195,10 @@ def read_fits(filename, extname, comm):
         output = output.byteswap().view(output.dtype.newbyteorder('='))
 
     # update the header
-    header['NAXIS' + str(header['NAXIS'])] = s.stop - s.start
-    try:
-        if header['CTYPE1'] == 'RA---TAN' and header['CTYPE2'] == 'DEC--TAN':
-            header['CRPIX2'] -= s.start
-    except KeyError:
-        pass
+    axis = str(header['NAXIS'])
+    header['NAXIS' + axis] = s.stop - s.start
+    if 'CRPIX' + axis in header:
+        header['CRPIX' + axis] -= s.start
     comm.Barrier()
 
     return output, header
-- 
2.43.0


From db769f149911990906073db00d65153555686226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:07 +0000
Subject: [PATCH 077/149] fix: collective writing of FITS files

---
 src/pysimulators/mpiutils.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index 195a4cd..d287534 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -285,10 +285,13 @@ def write_fits(filename, data, header, extension, extname, comm):
 
     # write FITS header
     if comm.rank == 0:
-        header['NAXIS' + str(ndim)] = nglobal
-        shdu = pyfits.StreamingHDU(filename, header)
-        data_loc = shdu._datLoc
+        header['BITPIX'] = pyfits.DTYPE2BITPIX[data.dtype.name]
+        header['NAXIS'] = ndim
+        for i, n in enumerate((nglobal,) + data.shape[1:]):
+            header['NAXIS' + str(ndim - i)] = n
+        shdu = pyfits.StreamingHDU(str(filename), header)
         shdu.close()
+        data_loc = os.path.getsize(filename)
     else:
         data_loc = None
     data_loc = comm.bcast(data_loc)
@@ -298,8 +301,7 @@ def write_fits(filename, data, header, extension, extname, comm):
     chunk = product(data.shape[1:])
     rank_nowork = min(comm.size, nglobal)
     group = comm.Get_group()
-    group.Incl(list(range(rank_nowork)))
-    newcomm = comm.Create(group)
+    newcomm = comm.Create(group.Incl(list(range(rank_nowork))))
 
     # collectively write data
     if comm.rank < rank_nowork:
@@ -310,7 +312,8 @@ def write_fits(filename, data, header, extension, extname, comm):
             or data.dtype.byteorder == '<'
         ):
             data = data.byteswap()
-        data = data.newbyteorder('=')
+        data = np.ascontiguousarray(data).view(np.ndarray)
+        data = data.view(data.dtype.newbyteorder('='))
         mtype = DTYPE_MAP[data.dtype]
         ftype = mtype.Create_subarray(
             [nglobal * chunk], [nlocal * chunk], [s.start * chunk]
@@ -323,16 +326,17 @@ def write_fits(filename, data, header, extension, extname, comm):
         f.Write_all(data)
         f.Close()
         ftype.Free()
-    newcomm.Free()
+        newcomm.Free()
+    comm.Barrier()
 
     # pad FITS file with zeros
     if comm.rank == 0:
         datasize = nglobal * chunk * int(data.dtype.itemsize)
         BLOCK_SIZE = 2880
-        padding = BLOCK_SIZE - (datasize % BLOCK_SIZE)
-        with open(filename, 'a') as f:
+        padding = -datasize % BLOCK_SIZE
+        with open(filename, 'ab') as f:
             if f.tell() - data_loc != datasize:
                 raise RuntimeError('Unexpected file size.')
-            f.write(padding * '\0')
+            f.write(padding * b'\0')
 
     comm.Barrier()
-- 
2.43.0


From b323db9e5ab3135423e73f3bf34a892b125922d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:25 +0000
Subject: [PATCH 078/149] fix: coverage, error, origin and mask of the files
 specified by a Path

---
 src/pysimulators/datatypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index f77288a..1d35554 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -660,7 +660,7 @@ class Map(FitsArray):
         if not subok and type(result) is not cls:
             result = result.view(cls)
 
-        if isinstance(data, str):
+        if isinstance(data, (str, Path)):
 
             if comm is None:
                 comm = MPI.COMM_SELF
@@ -1066,7 +1066,7 @@ class Tod(FitsArray):
         if mask is np.ma.nomask:
             mask = None
 
-        if mask is None and isinstance(data, str):
+        if mask is None and isinstance(data, (str, Path)):
 
             if comm is None:
                 comm = MPI.COMM_SELF
-- 
2.43.0


From 3598286a9a46d63307618db0ce08adb8e91c2948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:25 +0000
Subject: [PATCH 079/149] fix: FITS file left open when reading the derived
 units

---
 src/pysimulators/datatypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 1d35554..17e39f6 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -117,7 +117,8 @@ class FitsArray(Quantity):
                 comm = MPI.COMM_SELF
 
             try:
-                buf = pyfits.open(data)['derived_units'].data
+                with pyfits.open(data, memmap=False) as hdus:
+                    buf = hdus['derived_units'].data
                 derived_units = pickle.loads(buf.data)
             except (ImportError, KeyError):
                 pass
-- 
2.43.0


From 0f85476a92e3fb2f805c8cd8c4205d660d142f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:25 +0000
Subject: [PATCH 080/149] fix: memory order of the arrays created by the
 FitsArray, Map and Tod factories

---
 src/pysimulators/datatypes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 17e39f6..414abf7 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -226,6 +226,7 @@ class FitsArray(Quantity):
             derived_units=derived_units,
             dtype=dtype,
             copy=False,
+            order=order,
             **keywords,
         )
 
@@ -249,6 +250,7 @@ class FitsArray(Quantity):
             derived_units=derived_units,
             dtype=dtype,
             copy=False,
+            order=order,
             **keywords,
         )
 
@@ -272,6 +274,7 @@ class FitsArray(Quantity):
             derived_units=derived_units,
             dtype=dtype,
             copy=False,
+            order=order,
             **keywords,
         )
 
@@ -785,6 +788,7 @@ class Map(FitsArray):
             origin=origin,
             copy=False,
             dtype=dtype,
+            order=order,
             **keywords,
         )
 
@@ -814,6 +818,7 @@ class Map(FitsArray):
             origin=origin,
             copy=False,
             dtype=dtype,
+            order=order,
             **keywords,
         )
 
@@ -843,6 +848,7 @@ class Map(FitsArray):
             origin=origin,
             copy=False,
             dtype=dtype,
+            order=order,
             **keywords,
         )
 
@@ -1216,6 +1222,7 @@ class Tod(FitsArray):
             derived_units=derived_units,
             dtype=dtype,
             copy=False,
+            order=order,
             **keywords,
         )
 
@@ -1241,6 +1248,7 @@ class Tod(FitsArray):
             derived_units=derived_units,
             dtype=dtype,
             copy=False,
+            order=order,
             **keywords,
         )
 
@@ -1266,6 +1274,7 @@ class Tod(FitsArray):
             derived_units=derived_units,
             dtype=dtype,
             copy=False,
+            order=order,
             **keywords,
         )
 
-- 
2.43.0


From f8603a87dbddba9d0b6d8f949ab4b2329000d66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:25 +0000
Subject: [PATCH 081/149] fix: header, coverage, error and mask shared by the
 copies of a FitsArray, Map or Tod

---
 src/pysimulators/datatypes.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 414abf7..2271419 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -96,6 +96,8 @@ class FitsArray(Quantity):
     """
 
     _header = None
+    # names of the attributes which have the same shape as the array
+    _attached = ()
 
     def __new__(
         cls,
@@ -163,6 +165,23 @@ class FitsArray(Quantity):
         super().__array_finalize__(array)
         self._header = getattr(array, '_header', None)
 
+    def copy(self, order='C'):
+        return self._unshare(super().copy(order))
+
+    def __copy__(self):
+        return self._unshare(super().__copy__())
+
+    def __deepcopy__(self, memo):
+        return self._unshare(super().__deepcopy__(memo))
+
+    def _unshare(self, result):
+        """ Copy the metadata of the array to one of its copies. """
+        for name in ('_header',) + self._attached:
+            value = getattr(self, name)
+            if value is not None:
+                setattr(result, name, value.copy())
+        return result
+
     def __getattr__(self, name):
         if self.dtype.names and name in self.dtype.names:
             return self[name]
@@ -629,6 +648,7 @@ class Map(FitsArray):
     coverage = None
     error = None
     origin = None
+    _attached = 'coverage', 'error'
 
     def __new__(
         cls,
@@ -1036,6 +1056,7 @@ class Tod(FitsArray):
     """
 
     _mask = None
+    _attached = ('_mask',)
 
     def __new__(
         cls,
-- 
2.43.0


From 922db3451062847b647c52c7e98981d4c610ffac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:38 +0000
Subject: [PATCH 082/149] fix: coverage, error and mask of the rearranged and
 reduced maps and tods

---
 src/pysimulators/datatypes.py | 81 +++++++++++++++++++++++++++++------
 1 file changed, 69 insertions(+), 12 deletions(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 2271419..5fc7b71 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -36,6 +36,21 @@ from .wcsutils import create_fitsheader_for, has_wcs
 
 __all__ = ['FitsArray', 'Map', 'Tod']
 
+# functions that rearrange the elements of their first argument
+REARRANGING_FUNCTIONS = (
+    np.expand_dims,
+    np.flip,
+    np.fliplr,
+    np.flipud,
+    np.moveaxis,
+    np.roll,
+    np.rollaxis,
+    np.rot90,
+    np.squeeze,
+    np.swapaxes,
+    np.transpose,
+)
+
 
 class FitsArray(Quantity):
     """
@@ -182,6 +197,38 @@ class FitsArray(Quantity):
                 setattr(result, name, value.copy())
         return result
 
+    def _get_attached(self, array, name):
+        """ Return an array attribute, unless its shape is not that of self. """
+        value = getattr(array, name, None)
+        if np.ndim(value) > 0 and np.shape(value) != self.shape:
+            return None
+        return value
+
+    @property
+    def T(self):
+        return self.transpose()
+
+    def flatten(self, order='C'):
+        return self._rearrange(np.ndarray.flatten, order)
+
+    def squeeze(self, axis=None):
+        return self._rearrange(np.ndarray.squeeze, axis)
+
+    def swapaxes(self, axis1, axis2):
+        return self._rearrange(np.ndarray.swapaxes, axis1, axis2)
+
+    def transpose(self, *axes):
+        return self._rearrange(np.ndarray.transpose, *axes)
+
+    def _rearrange(self, func, *args, **keywords):
+        """ Rearrange the elements of the array and those of its attributes. """
+        result = func(self, *args, **keywords)
+        for name in self._attached:
+            value = getattr(self, name)
+            if np.ndim(value) > 0:
+                setattr(result, name, func(value, *args, **keywords))
+        return result
+
     def __getattr__(self, name):
         if self.dtype.names and name in self.dtype.names:
             return self[name]
@@ -726,8 +773,8 @@ class Map(FitsArray):
 
     def __array_finalize__(self, array):
         super().__array_finalize__(array)
-        self.coverage = getattr(array, 'coverage', None)
-        self.error = getattr(array, 'error', None)
+        self.coverage = self._get_attached(array, 'coverage')
+        self.error = self._get_attached(array, 'error')
         self.origin = getattr(array, 'origin', 'lower')
 
     def __array_function__(self, func, types, args, kwargs):
@@ -735,16 +782,23 @@ class Map(FitsArray):
             return args[0].reshape(*args[1:], **kwargs)
         if func is np.ravel:
             return args[0].ravel(*args[1:], **kwargs)
-        return super().__array_function__(func, types, args, kwargs)
+        result = super().__array_function__(func, types, args, kwargs)
+        if func in REARRANGING_FUNCTIONS:
+            args, kwargs = self._bind_function_inputs(func, args, kwargs)
+            for name in self._attached:
+                value = getattr(self, name)
+                if np.ndim(value) > 0:
+                    setattr(result, name, func(value, *args[1:], **kwargs))
+        return result
 
     def __getitem__(self, key):
         item = super().__getitem__(key)
         if not isinstance(item, Map):
             return item
-        if item.coverage is not None:
-            item.coverage = item.coverage[key]
-        if item.error is not None:
-            item.error = item.error[key]
+        if self.coverage is not None:
+            item.coverage = self.coverage[key]
+        if self.error is not None:
+            item.error = self.error[key]
         return item
 
     def astype(self, dtype):
@@ -1118,6 +1172,8 @@ class Tod(FitsArray):
 
     @property
     def mask(self):
+        if self._mask is np.ma.nomask:
+            return None
         return self._mask
 
     @mask.setter
@@ -1137,7 +1193,7 @@ class Tod(FitsArray):
 
         # handle the scalar case
         if mask.ndim == 0:
-            if self._mask is None:
+            if self.mask is None:
                 func = np.zeros if mask == 0 else np.ones
                 self._mask = func(self.shape, dtype=np.bool_)
             else:
@@ -1158,7 +1214,7 @@ class Tod(FitsArray):
 
     def __array_finalize__(self, array):
         super().__array_finalize__(array)
-        self._mask = getattr(array, 'mask', None)
+        self._mask = self._get_attached(array, 'mask')
 
     def __array_function__(self, func, types, args, kwargs):
         """Handle NumPy functions on Tod objects, respecting the mask."""
@@ -1180,8 +1236,9 @@ class Tod(FitsArray):
         """Convert function outputs back to Tod, extracting mask from MaskedArray."""
         # Handle MaskedConstant (all values masked)
         if isinstance(arrays, np.ma.core.MaskedConstant):
-            output = type(self)(np.nan, mask=True)
+            output = type(self)(np.nan)
             output.__array_finalize__(self)
+            output._mask = np.array(True)
             output._unit = output_units
             return output
 
@@ -1217,8 +1274,8 @@ class Tod(FitsArray):
         item = super().__getitem__(key)
         if not isinstance(item, Tod):
             return item
-        if item.mask is not None:
-            item.mask = item.mask[key]
+        if self.mask is not None:
+            item._mask = self.mask[key]
         return item
 
     @classmethod
-- 
2.43.0


From a010eebfe7ca90d8488f7a21d71c299cdf61c90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:26 +0000
Subject: [PATCH 083/149] fix: FITS file kept open by the arrays of bytes read
 from it

---
 src/pysimulators/mpiutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index d287534..46adfbc 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -172,7 +172,8 @@ def read_fits(filename, extname, comm):
         raise ValueError('The file name is not the same for all MPI jobs.')
 
     # get primary hdu or extension
-    with pyfits.open(filename) as fits:
+    # (without memory map, otherwise the array could keep the file open)
+    with pyfits.open(filename, memmap=False) as fits:
         if extname is not None:
             hdu = fits[extname]
         else:
-- 
2.43.0


From 1ef56ae918cf5fac855e53d7fbb1eb3da85f61d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:20 +0000
Subject: [PATCH 084/149] fix: set the mask of a 0-dimensional tod

---
 src/pysimulators/datatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 5fc7b71..83ae964 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -1197,7 +1197,7 @@ class Tod(FitsArray):
                 func = np.zeros if mask == 0 else np.ones
                 self._mask = func(self.shape, dtype=np.bool_)
             else:
-                self._mask[:] = mask
+                self._mask[...] = mask
             return
 
         # check shape compatibility
-- 
2.43.0


From 506825cc14ce182a939500cb48116feb784bbada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 085/149] fix: coverage, error and mask of the rearranged
 0-dimensional maps and tods

---
 src/pysimulators/datatypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 83ae964..66ba213 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -225,7 +225,7 @@ class FitsArray(Quantity):
         result = func(self, *args, **keywords)
         for name in self._attached:
             value = getattr(self, name)
-            if np.ndim(value) > 0:
+            if value is not None and np.shape(value) == self.shape:
                 setattr(result, name, func(value, *args, **keywords))
         return result
 
@@ -787,7 +787,7 @@ class Map(FitsArray):
             args, kwargs = self._bind_function_inputs(func, args, kwargs)
             for name in self._attached:
                 value = getattr(self, name)
-                if np.ndim(value) > 0:
+                if value is not None and np.shape(value) == self.shape:
                     setattr(result, name, func(value, *args[1:], **kwargs))
         return result
 
-- 
2.43.0


From 46040b413d813f59f741ca7110869c885b0b2259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 086/149] fix: table modified by scattering it when a process
 gets all its elements

---
 src/pysimulators/packedtables/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 828d679..2a267f8 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -476,7 +476,8 @@ class PackedTable:
             return self
 
         selection = split(len(self), comm.size, comm.rank)
-        out = self[selection]
+        # the indexing returns the table itself if everything is selected
+        out = copy.copy(self[selection])
         for k in out._special_attributes:
             if k in out._reserved_attributes:
                 continue
-- 
2.43.0


From 7fa54091ca86a10c292d4a85e9f6535d4d3f5a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 087/149] fix: MPI-gathering of arrays that are not
 C-contiguous

---
 src/pysimulators/packedtables/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 2a267f8..88dfc6d 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -514,7 +514,7 @@ class PackedTable:
         """
 
         def func(x):
-            x = np.asarray(x)
+            x = np.ascontiguousarray(x)
             out = np.empty((ntot,) + x.shape[1:], x.dtype)
             nbytes = product(x.shape[1:]) * int(x.itemsize)
             self.comm.Allgatherv(
-- 
2.43.0


From bafc10b3c693956d5b10e6efc7200fb2762b3cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 088/149] fix: distribute observations without valid detector
 or without observation

---
 src/pysimulators/mpiutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index 46adfbc..1de6714 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -107,11 +107,11 @@ def distribute_observation(detectors, observations, rank=None, comm=MPI.COMM_WOR
     nx = nobservations
 
     # number of detectors, grouped by the number of cpu cores
-    ny = int(np.ceil(ndetectors / nthreads))
+    ny = max(1, int(np.ceil(ndetectors / nthreads)))
 
     # we start with the minimum blocksize and increase it until we find a
     # configuration that covers all the observations
-    blocksize = int(np.ceil(nx * ny / size))
+    blocksize = max(1, int(np.ceil(nx * ny / size)))
     while True:
         # by looping over x first, we favor larger numbers of detectors and
         # fewer numbers of observations per processor, to minimise inter-
-- 
2.43.0


From 7ce8f3f5ebd19e540ecd1a27b88aa3caccb678cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 089/149] fix: cartesian coordinates of the masked samples
 modified by get_center

---
 src/pysimulators/packedtables/samplings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index 0f7d34d..2f29a68 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -161,7 +161,7 @@ class SamplingSpherical(Sampling):
             coords = self.cartesian
             if not isscalarlike(self.masked):
                 valid = 1 - self.masked
-                coords *= valid[:, None]
+                coords = coords * valid[:, None]
                 n = np.sum(valid)
             else:
                 n = len(self)
-- 
2.43.0


From 58934d8b2a4056f675280cdff84009851dd3ead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 090/149] fix: elevation of the center of the pointings

---
 src/pysimulators/packedtables/samplings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index 2f29a68..d2e62fe 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -171,7 +171,8 @@ class SamplingSpherical(Sampling):
         self.comm.Allreduce(MPI.IN_PLACE, as_mpi(center))
         if n == 0:
             raise ValueError('There is no valid pointing.')
-        center /= n
+        # the spherical coordinates are those of unit vectors
+        center /= np.sqrt(np.sum(center**2))
         return self.cartesian2spherical(center)
 
 
-- 
2.43.0


From c1435ddc97124bfd0452b5c2f7173241554645da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 091/149] fix: operator of the acquisition model

---
 src/pysimulators/acquisitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 40bc987..48f4201 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -237,7 +237,7 @@ class Acquisition:
                             self.instrument.get_operator(self.sampling[b], self.scene)
                             for b in self.block
                         ],
-                        axisin=1,
+                        axisout=1,
                     ),
                     self.scene.get_distribution_operator(self.comm),
                 ]
-- 
2.43.0


From 009fea3014c74c1685f58d85697b0bf229b9d9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 092/149] fix: operator of a restricted acquisition model

---
 src/pysimulators/acquisitions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 48f4201..d32cd70 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -164,6 +164,7 @@ class Acquisition:
 
         if any(not is_colon(_) for _ in x):
             self._operator = None
+            out._operator = None
             gc.collect()
 
         out.instrument = self.instrument[x[0]]
-- 
2.43.0


From 8073f7a4c4c4b5b5eaae188ee7764204aa8d2668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 093/149] fix: blocks and communicators of a restricted
 acquisition model

---
 src/pysimulators/acquisitions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index d32cd70..6e2426b 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -167,11 +167,16 @@ class Acquisition:
             out._operator = None
             gc.collect()
 
+        # the indexing of a table returns the table itself if it is all selected
         out.instrument = self.instrument[x[0]]
         if not is_colon(x[0]):
+            out.instrument.detector = copy(out.instrument.detector)
             object.__setattr__(out.instrument.detector, 'comm', MPI.COMM_SELF)
-        out.sampling = self.sampling[x[1]]  # XXX FIX BLOCKS!!!
+        out.sampling = self.sampling[x[1]]
         if not is_colon(x[1]):
+            n = len(out.sampling)
+            out.block = tuple(split(n, max(1, min(n, len(self.block)))))
+            out.sampling = copy(out.sampling)
             object.__setattr__(out.sampling, 'comm', MPI.COMM_SELF)
         out.scene = self.scene[x[2]]
 
-- 
2.43.0


From 89898641661b214a395c93ba18d7898bbc22e2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 094/149] fix: arguments ignored by the packing methods of the
 acquisition

---
 src/pysimulators/acquisitions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 6e2426b..a683d43 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -195,12 +195,14 @@ class Acquisition:
     __repr__ = __str__
 
     def pack(self, x, out=None, copy=False):
-        return self.instrument.detector.pack(x)
+        return self.instrument.detector.pack(x, out=out, copy=copy)
 
     pack.__doc__ = Layout.pack.__doc__
 
     def unpack(self, x, out=None, missing_value=None, copy=False):
-        return self.instrument.detector.unpack(x)
+        return self.instrument.detector.unpack(
+            x, out=out, missing_value=missing_value, copy=copy
+        )
 
     unpack.__doc__ = Layout.unpack.__doc__
 
-- 
2.43.0


From 862005f43aebd13bf786dec36b3b961772b3ef81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 095/149] fix: empty blocks of an acquisition limited to a
 small memory

---
 src/pysimulators/acquisitions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index a683d43..a98df45 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -118,6 +118,7 @@ class Acquisition:
                 nbytes = self.get_operator_nbytes()
                 if nbytes > max_nbytes:
                     nblocks = int(np.ceil(nbytes / max_nbytes))
+                    nblocks = min(nblocks, len(self.sampling))
                     self.block = tuple(split(len(self.sampling), nblocks))
         elif not isinstance(block, (list, tuple)) or any(
             not isinstance(b, slice) for b in block
-- 
2.43.0


From c5d5de40760e55cd281bf6a9cc3fe901813c259a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 096/149] fix: FITS headers created from a CD matrix

---
 src/pysimulators/wcsutils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index 9e94496..2fc14d2 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -281,9 +281,9 @@ def create_fitsheader(
         if pa is None:
             pa = 0.0
         theta = np.deg2rad(-pa)
-    cd = np.diag(cdelt).dot(
-        np.array([[np.cos(theta), np.sin(theta)], [-np.sin(theta), np.cos(theta)]])
-    )
+        cd = np.diag(cdelt).dot(
+            np.array([[np.cos(theta), np.sin(theta)], [-np.sin(theta), np.cos(theta)]])
+        )
 
     crval = np.asarray(crval, float)
     if crval.size != 2:
-- 
2.43.0


From c866acee9a2407680061bb40f17a007e3004483a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 097/149] fix: angle between identical or opposite directions

---
 src/flib/module_math_old.f90 | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/flib/module_math_old.f90 b/src/flib/module_math_old.f90
index 0f5d4ca..7f3d589 100644
--- a/src/flib/module_math_old.f90
+++ b/src/flib/module_math_old.f90
@@ -505,8 +505,10 @@ contains
         real(p), intent(in)  :: lon1, lat1, lon2, lat2
         real(p), intent(out) :: angle
 
-        angle = acos(cos(lat1*DEG2RAD) * cos(lat2*DEG2RAD) * cos((lon2 - lon1)*DEG2RAD) + sin(lat1*DEG2RAD) * sin(lat2*DEG2RAD)) * &
-                RAD2DEG
+        ! because of the rounding errors, the cosine can be slightly outside [-1, 1]
+        angle = cos(lat1*DEG2RAD) * cos(lat2*DEG2RAD) * cos((lon2 - lon1)*DEG2RAD) + sin(lat1*DEG2RAD) * sin(lat2*DEG2RAD)
+        if (abs(angle) > 1) angle = sign(1._p, angle)
+        angle = acos(angle) * RAD2DEG
 
     end subroutine angle_lonlat
 
-- 
2.43.0


From 77d496896eae85704cb213c74a54e1b92cce49e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 098/149] fix: out-of-bounds accesses in angle_lonlat

---
 src/pysimulators/wcsutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index 2fc14d2..cf0f4b6 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -58,6 +58,10 @@ def angle_lonlat(lon1, lat1, lon2=None, lat2=None):
     lat1 = np.asarray(lat1, float)
     lon2 = np.asarray(lon2, float)
     lat2 = np.asarray(lat2, float)
+    if lon1.size != lon2.size and lon1.size != 1 and lon2.size != 1:
+        raise ValueError(
+            f'The numbers of directions are incompatible: {lon1.size} and {lon2.size}.'
+        )
     angle = flib.wcsutils.angle_lonlat(
         lon1.ravel(), lat1.ravel(), lon2.ravel(), lat2.ravel()
     )
-- 
2.43.0


From ed3a8fab9f1eac248b5d5b12fed295e4279e5184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 099/149] fix: str2fitsheader with the current versions of
 Astropy

---
 src/pysimulators/wcsutils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index cf0f4b6..ea13020 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -497,13 +497,12 @@ def str2fitsheader(string):
     reached.
     """
     header = pyfits.Header()
-    cards = header.ascard()
     iline = 0
     while iline * 80 < len(string):
         line = string[iline * 80 : (iline + 1) * 80]
         if line[0:3] == 'END':
             break
-        cards.append(pyfits.Card().fromstring(line))
+        header.append(pyfits.Card.fromstring(line), end=True)
         iline += 1
     return header
 
-- 
2.43.0


From f461f8b04cc22c69f8a1e58bd10805fb4da91a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:59 +0000
Subject: [PATCH 100/149] fix: WCS operators with non-contiguous outputs

---
 src/pysimulators/wcsutils.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index ea13020..bb06fcb 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -714,10 +714,8 @@ class WCSToPixelOperator(_WCSOperator):
     __init__.__doc__ = _WCSOperator.__init__.__doc__
 
     def direct(self, input, output, operation=operation_assignment):
-        if ASTROPY_WCS_NDIM_IS_2:
-            input = input.reshape((-1, 2))
-            output = output.reshape((-1, 2))
-        operation(output, self.wcs.wcs_world2pix(input, self.origin))
+        result = self.wcs.wcs_world2pix(input.reshape((-1, 2)), self.origin)
+        operation(output, result.reshape(output.shape))
 
 
 class WCSToWorldOperator(_WCSOperator):
@@ -742,7 +740,6 @@ class WCSToWorldOperator(_WCSOperator):
     __init__.__doc__ = _WCSOperator.__init__.__doc__
 
     def direct(self, input, output, operation=operation_assignment):
-        if ASTROPY_WCS_NDIM_IS_2:
-            input = input.reshape((-1, 2))
-            output = output.reshape((-1, 2))
-        operation(output, self.wcs.wcs_pix2world(input, self.origin))
+        # the input is copied, since Astropy temporarily modifies it
+        result = self.wcs.wcs_pix2world(input.copy().reshape((-1, 2)), self.origin)
+        operation(output, result.reshape(output.shape))
-- 
2.43.0


From 3b1aa56e5fa41dd6f86b67d33195083759c276d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:37 +0000
Subject: [PATCH 101/149] fix: correlated noise of detectors of different
 densities

---
 src/pysimulators/instruments.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/instruments.py b/src/pysimulators/instruments.py
index 347d769..bca116a 100644
--- a/src/pysimulators/instruments.py
+++ b/src/pysimulators/instruments.py
@@ -328,9 +328,10 @@ class Instrument:
             p = _logloginterp_psd(f, bandwidth, psd)
 
         # looping over the detectors
-        for out_ in out:
+        p = np.broadcast_to(p, (len(out), p.shape[-1]))
+        for out_, p_ in zip(out, p):
             operation(
-                out_, _gaussian_sample(n, sampling_frequency, p, twosided=twosided)
+                out_, _gaussian_sample(n, sampling_frequency, p_, twosided=twosided)
             )
 
         return out
-- 
2.43.0


From 1773b4534011313deda87fb8413d195e6fecb8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:37 +0000
Subject: [PATCH 102/149] fix: noise of given density for odd numbers of
 samples

---
 src/pysimulators/instruments.py |  2 +-
 src/pysimulators/noises.py      | 24 ++++++++++++++++++------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/pysimulators/instruments.py b/src/pysimulators/instruments.py
index bca116a..b94a645 100644
--- a/src/pysimulators/instruments.py
+++ b/src/pysimulators/instruments.py
@@ -325,7 +325,7 @@ class Instrument:
         else:
             # log-log interpolation of one-sided PSD
             f = np.arange(n // 2 + 1, dtype=float) * (sampling_frequency / n)
-            p = _logloginterp_psd(f, bandwidth, psd)
+            p = _logloginterp_psd(f, bandwidth, psd, odd=n % 2 == 1)
 
         # looping over the detectors
         p = np.broadcast_to(p, (len(out), p.shape[-1]))
diff --git a/src/pysimulators/noises.py b/src/pysimulators/noises.py
index e5392ea..0e94bf8 100644
--- a/src/pysimulators/noises.py
+++ b/src/pysimulators/noises.py
@@ -24,10 +24,17 @@ def _fold_psd(p):
     return out
 
 
-def _unfold_psd(p):
-    """Convert one-sided PSD into even two-sided PSD."""
+def _unfold_psd(p, odd=False):
+    """Convert one-sided PSD into even (by default) or odd two-sided PSD."""
     p = np.asarray(p)
     n = p.shape[-1]
+    if odd:
+        # there is no Nyquist frequency
+        out = empty(p.shape[:-1] + (2 * n - 1,))
+        out[..., 0] = p[..., 0]
+        np.multiply(p[..., 1:], 0.5, out[..., 1:n])
+        out[..., n:] = out[..., n - 1 : 0 : -1]
+        return out
     out = empty(p.shape[:-1] + (2 * (n - 1),))
     out[..., 0] = p[..., 0]
     np.multiply(p[..., 1 : n - 1], 0.5, out[..., 1 : n - 1])
@@ -112,7 +119,7 @@ def _gaussian_sample(
         out = empty(psd.shape[:-1] + (nsamples,))
 
     if not twosided:
-        psd = _unfold_psd(psd)
+        psd = _unfold_psd(psd, odd=nsamples % 2 == 1)
 
     shape = psd.shape[:-1] + (nsamples,)
     gauss = np.random.randn(*shape)
@@ -161,8 +168,12 @@ def _psd2invntt(psd, bandwidth, ncorr, fftw_flag='FFTW_MEASURE'):
     return invntt
 
 
-def _logloginterp_psd(f, bandwidth, psd, out=None):
-    """Loglog-interpolation of one-sided PSD."""
+def _logloginterp_psd(f, bandwidth, psd, out=None, odd=False):
+    """
+    Loglog-interpolation of one-sided PSD. The last frequency is the Nyquist
+    frequency, unless the number of samples is odd.
+
+    """
     f = np.asarray(f)
     psd = np.asarray(psd)
     frequency = np.arange(psd.shape[-1], dtype=float) * bandwidth
@@ -173,7 +184,8 @@ def _logloginterp_psd(f, bandwidth, psd, out=None):
         np.log(f[1:]), np.log(frequency[1:-1]), np.log(psd[..., 1:-1]), out=out[..., 1:]
     )
     np.exp(out[..., 1:], out[..., 1:])
-    out[..., -1] /= 2
+    if not odd:
+        out[..., -1] /= 2
     return out
 
 
-- 
2.43.0


From b3d671158ee2c26fb45437a589d6777d612f0fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:37 +0000
Subject: [PATCH 103/149] fix: default correlation length of the inverse noise
 covariance

---
 src/pysimulators/instruments.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pysimulators/instruments.py b/src/pysimulators/instruments.py
index b94a645..ad26c79 100644
--- a/src/pysimulators/instruments.py
+++ b/src/pysimulators/instruments.py
@@ -180,6 +180,7 @@ class Instrument:
             The sampling frequency [Hz].
         ncorr : int
             The correlation length of the time-time noise correlation matrix.
+            By default, the largest one.
         fftw_flag : string, optional
             The flags FFTW_ESTIMATE, FFTW_MEASURE, FFTW_PATIENT and
             FFTW_EXHAUSTIVE can be used to describe the increasing amount of
@@ -217,6 +218,8 @@ class Instrument:
         fftsize = 2
         while fftsize < nsamples_max:
             fftsize *= 2
+        if ncorr is None:
+            ncorr = min(nsamples_max - 1, fftsize // 2)
 
         new_bandwidth = sampling_frequency / fftsize
         if bandwidth is not None and psd is not None:
-- 
2.43.0


From 8408e240845b0408a634f3bee9ee4e503b6c3dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:17 +0000
Subject: [PATCH 104/149] fix: samplings whose start date is a scalar astropy
 time

---
 src/pysimulators/packedtables/samplings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index d2e62fe..af09208 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -34,8 +34,8 @@ class Sampling(PackedTable):
             date_obs = Time([date_obs], scale='utc')
         elif not isinstance(date_obs, Time):
             raise TypeError('The observation start date is invalid.')
-        elif date_obs.is_scalar:  # work around astropy.time bug
-            date_obs = Time([str(date_obs)], scale='utc')
+        elif date_obs.isscalar:
+            date_obs = date_obs.reshape(1)
         if period is None:
             if hasattr(keywords, 'time'):
                 period = np.median(np.diff(keywords['time']))
-- 
2.43.0


From e666f5c4315fea240f4d756310d002653ffacd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:17 +0000
Subject: [PATCH 105/149] fix: period of the samplings of given time

---
 src/pysimulators/packedtables/samplings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index af09208..815eb59 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -37,7 +37,7 @@ class Sampling(PackedTable):
         elif date_obs.isscalar:
             date_obs = date_obs.reshape(1)
         if period is None:
-            if hasattr(keywords, 'time'):
+            if np.size(keywords.get('time')) > 1:
                 period = np.median(np.diff(keywords['time']))
             else:
                 period = self.DEFAULT_PERIOD
-- 
2.43.0


From 54769bf011fa4f94edfbeb808ab33bd267fa8c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:17 +0000
Subject: [PATCH 106/149] fix: non-scalar reference frequency of
 BlackBodyOperator

---
 src/pysimulators/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index b5aab3d..9e65d10 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -314,8 +314,8 @@ class BlackBodyOperator(DiagonalOperator):
             nu0 = np.asarray(frequency0, float)
         else:
             nu0 = c / np.asarray(wavelength0, float)
-        if nu.ndim != 0:
-            raise TypeError('The operating frequency or wavelength is not a sc' 'alar.')
+        if nu0.ndim != 0:
+            raise TypeError('The reference frequency or wavelength is not a scalar.')
         beta = float(beta)
         data = (
             (nu / nu0) ** (3 + beta)
-- 
2.43.0


From 128d5a1694cf7bab0c51f1cbbb704dd141ab35b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:17 +0000
Subject: [PATCH 107/149] fix: array-like slope in BlackBodyOperator

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 9e65d10..c7382ec 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -316,7 +316,7 @@ class BlackBodyOperator(DiagonalOperator):
             nu0 = c / np.asarray(wavelength0, float)
         if nu0.ndim != 0:
             raise TypeError('The reference frequency or wavelength is not a scalar.')
-        beta = float(beta)
+        beta = np.asarray(beta, float)
         data = (
             (nu / nu0) ** (3 + beta)
             * np.expm1(h * nu0 / (k * temperature))
-- 
2.43.0


From bdb8773aef308b10d7362fa67fecf8331dfd585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:17 +0000
Subject: [PATCH 108/149] fix: shapes of the blocks of operators partitioned
 along a new axis

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index c7382ec..852118e 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -200,7 +200,7 @@ def block_diagonal(*partition_args, **keywords):
                 if a is not None:
                     s[a] = p
                 else:
-                    np.delete(s, na)
+                    del s[na]
                 return tuple(s)
 
             if 'shapein' in keywords:
-- 
2.43.0


From 5f1d2307eae77e6a47c4b2256bf65d6238d3bcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 109/149] fix: mask of another shape given to
 PointingMatrix.pack

---
 src/pysimulators/operators.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 852118e..2648565 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -574,6 +574,12 @@ class PointingMatrix(FitsArray):
         discarding masked or unobserved pixels.
 
         """
+        mask = np.asarray(mask, np.bool_)
+        if mask.shape != self.shape_input:
+            raise ValueError(
+                f"The mask shape '{mask.shape}' is incompatible with that of the map "
+                f"'{self.shape_input}'."
+            )
         if self.size == 0:
             return
         flib.pointingmatrix.pack(
-- 
2.43.0


From 5f16d4be9c4c180b488459c0057baf6018d0be6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 110/149] fix: out of bounds accesses by profile with a distant
 or undefined center

---
 src/flib/datautils.f90.j2 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flib/datautils.f90.j2 b/src/flib/datautils.f90.j2
index 3dc91d8..76f7d90 100644
--- a/src/flib/datautils.f90.j2
+++ b/src/flib/datautils.f90.j2
@@ -139,6 +139,8 @@ contains
               val = array(i,j)
               if (val /= val) cycle
               distance = sqrt((i - origin(1))**2 + tmpj)
+              ! bins outside the profile may not be representable as integers
+              if (.not. (distance / bin >= 0 .and. distance / bin < nbins)) cycle
               ibin = int(distance / bin) + 1
               if (ibin > nbins) cycle
               x(ibin) = x(ibin) + distance
-- 
2.43.0


From 38ad78608bffc1bf9847a5f251f6da76bd0899bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 111/149] fix: out of bounds accesses by the
 truncated-exponential convolution of no sample

---
 src/pysimulators/operators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 2648565..53126b1 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -367,6 +367,8 @@ class ConvolutionTruncatedExponentialOperator(Operator):
         Operator.__init__(self, dtype=dtype, **keywords)
 
     def direct(self, input, output):
+        if input.size == 0:
+            return
         input_, nd, nt, int_all = _ravel_strided(input)
         output_, nd, nt, ont_all = _ravel_strided(output)
         f = f'trexp_direct_r{input.dtype.itemsize}'
@@ -385,6 +387,8 @@ class ConvolutionTruncatedExponentialOperator(Operator):
             raise NotImplementedError()
 
     def transpose(self, input, output):
+        if input.size == 0:
+            return
         input_, nd, nt, int_all = _ravel_strided(input)
         output_, nd, nt, ont_all = _ravel_strided(output)
         f = f'trexp_transpose_r{input.dtype.itemsize}'
-- 
2.43.0


From ab558224ff84d4e4854be0f8e61b117812724003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 112/149] fix: out of bounds accesses by angle_lonlat with
 incompatible sizes

---
 src/pysimulators/wcsutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index bb06fcb..f64a142 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -58,10 +58,14 @@ def angle_lonlat(lon1, lat1, lon2=None, lat2=None):
     lat1 = np.asarray(lat1, float)
     lon2 = np.asarray(lon2, float)
     lat2 = np.asarray(lat2, float)
+    if lon1.size != lat1.size or lon2.size != lat2.size:
+        raise ValueError('The numbers of longitudes and latitudes are different.')
     if lon1.size != lon2.size and lon1.size != 1 and lon2.size != 1:
         raise ValueError(
             f'The numbers of directions are incompatible: {lon1.size} and {lon2.size}.'
         )
+    if lon1.size == 0 or lon2.size == 0:
+        return np.empty(0)
     angle = flib.wcsutils.angle_lonlat(
         lon1.ravel(), lat1.ravel(), lon2.ravel(), lat2.ravel()
     )
-- 
2.43.0


From e1e94ecb712224776c84ce1bf89b96a5d96610bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 113/149] fix: outputs of an invalid shape or layout given to
 get_pTx_pT1

---
 src/pysimulators/operators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 53126b1..30db923 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -761,6 +761,10 @@ class ProjectionBaseOperator(Operator):
             self.set_attrin(out[0].__dict__)
             if hasattr(x, 'unit'):
                 out[0].unit = x.unit
+        elif any(_.shape != matrix.shape_input for _ in out):
+            raise ValueError('The output arguments have an incompatible shape.')
+        elif not all(_.flags.c_contiguous for _ in out):
+            raise ValueError('The output arguments are not contiguous.')
         if matrix.size == 0:
             return out
         if mask is None:
-- 
2.43.0


From ad1dfc407c01857a3ae717bfcd466dcf9ff8742e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 114/149] fix: stack overflow by profile with a large number of
 bins

---
 src/flib/datautils.f90.j2 | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/flib/datautils.f90.j2 b/src/flib/datautils.f90.j2
index 76f7d90..248cc2a 100644
--- a/src/flib/datautils.f90.j2
+++ b/src/flib/datautils.f90.j2
@@ -128,11 +128,15 @@ contains
 
       integer :: i, j, ibin
       real({{ combo.kind }}) :: distance, val, tmpj
-
-      x = 0
-      y = 0
-      n = 0
-      !$omp parallel do private(distance, ibin, tmpj, val) reduction(+:x,y,n)
+      ! allocatable, otherwise the threads would have their copy on the stack
+      real({{ combo.kind }}), allocatable :: sumx(:), sumy(:)
+      integer, allocatable :: hits(:)
+
+      allocate (sumx(nbins), sumy(nbins), hits(nbins))
+      sumx = 0
+      sumy = 0
+      hits = 0
+      !$omp parallel do private(distance, ibin, tmpj, val) reduction(+:sumx,sumy,hits)
       do j = 0, ny - 1
           tmpj = (j - origin(2))**2
           do i = 0, nx - 1
@@ -143,12 +147,15 @@ contains
               if (.not. (distance / bin >= 0 .and. distance / bin < nbins)) cycle
               ibin = int(distance / bin) + 1
               if (ibin > nbins) cycle
-              x(ibin) = x(ibin) + distance
-              y(ibin) = y(ibin) + val
-              n(ibin) = n(ibin) + 1
+              sumx(ibin) = sumx(ibin) + distance
+              sumy(ibin) = sumy(ibin) + val
+              hits(ibin) = hits(ibin) + 1
           end do
       end do
       !$omp end parallel do
+      x = sumx
+      y = sumy
+      n = hits
 
       do i = 1, nbins
           if (n(i) /= 0) then
-- 
2.43.0


From e5bad6b428909e24ea1d7af0c6c3ec419722f3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:35 +0000
Subject: [PATCH 115/149] fix: swapped pixel indices and values of MADMAP1
 observations

---
 src/pysimulators/interfaces/madmap1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/interfaces/madmap1.py b/src/pysimulators/interfaces/madmap1.py
index 6734d81..6f6ad05 100644
--- a/src/pysimulators/interfaces/madmap1.py
+++ b/src/pysimulators/interfaces/madmap1.py
@@ -196,7 +196,8 @@ class MadMap1Observation(Acquisition):
                 p = PointingMatrix.empty(
                     (ndetectors, b.n, npps), self.info.npixels_in_map
                 )
-                p[...] = data['matrix']
+                p['index'] = data['matrix']['index']
+                p['value'] = data['matrix']['value']
                 pmatrix.append(p)
         return tod, pmatrix
 
-- 
2.43.0


From 6067ab702eb7d2e77220b8ec17a96adc0be0809f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:35 +0000
Subject: [PATCH 116/149] fix: filters of the blocks of the MADMAP1 inverse
 noise operator

---
 src/pysimulators/interfaces/madmap1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/interfaces/madmap1.py b/src/pysimulators/interfaces/madmap1.py
index 6f6ad05..825f0b3 100644
--- a/src/pysimulators/interfaces/madmap1.py
+++ b/src/pysimulators/interfaces/madmap1.py
@@ -125,11 +125,11 @@ class MadMap1Observation(Acquisition):
         ops = [
             SymmetricBandToeplitzOperator(
                 (len(self.instrument), b.n),
-                self._filters,
+                filters,
                 fftw_flag=fftw_flag,
                 nthreads=nthreads,
             )
-            for b in self.block
+            for b, filters in zip(self.block, self._filters)
         ]
         return BlockDiagonalOperator(ops, axisin=-1)
 
-- 
2.43.0


From 4e32d31ff02f0642f3649b0e1a6d3a43978735cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:35 +0000
Subject: [PATCH 117/149] fix: special characters in the names of the MADMAP1
 filters

---
 src/pysimulators/interfaces/madmap1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/interfaces/madmap1.py b/src/pysimulators/interfaces/madmap1.py
index 825f0b3..93d300b 100644
--- a/src/pysimulators/interfaces/madmap1.py
+++ b/src/pysimulators/interfaces/madmap1.py
@@ -212,7 +212,7 @@ def _read_one_filter(filename, bigendian=False):
 def _read_filters(filename, bigendian=False):
     if isinstance(filename, str):
         filename = Path(filename)
-    regex = re.compile(str(filename) + r'\.[0-9]+$')
+    regex = re.compile(re.escape(str(filename)) + r'\.[0-9]+$')
     files = sorted(
         (_ for _ in filename.parent.iterdir() if regex.match(str(_))),
         key=lambda f: int(f.suffix[1:]),
-- 
2.43.0


From a334f187d1985afde52d6076f1605a5c0c6bc193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 118/149] fix: display of arrays of integers

---
 src/pysimulators/datatypes.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 66ba213..12ce72f 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -28,7 +28,7 @@ from astropy.io import fits as pyfits
 
 from pyoperators import MPI
 from pyoperators.memory import empty
-from pyoperators.utils import isscalarlike
+from pyoperators.utils import float_dtype, isscalarlike
 
 from .mpiutils import read_fits, write_fits
 from .quantities import Quantity
@@ -463,7 +463,8 @@ class FitsArray(Quantity):
         if np.iscomplexobj(self):
             data = abs(self.magnitude)
         else:
-            data = self.magnitude.copy()
+            # the invalid elements will be set to NaN
+            data = np.array(self.magnitude, float_dtype(self.dtype))
         if isscalarlike(percentile):
             percentile = percentile / 2, 100 - percentile / 2
         unfinite = ~np.isfinite(self.magnitude)
@@ -969,7 +970,8 @@ class Map(FitsArray):
         if np.iscomplexobj(self):
             data = abs(self.magnitude)
         else:
-            data = self.magnitude.copy()
+            # the invalid elements will be set to NaN
+            data = np.array(self.magnitude, float_dtype(self.dtype))
         if isscalarlike(percentile):
             percentile = percentile / 2, 100 - percentile / 2
         unfinite = ~np.isfinite(self.magnitude)
-- 
2.43.0


From 399a5ae677ef0760ff7696cac318ee5744c27de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 119/149] fix: interpolation of the display of maps without
 astrometry

---
 src/pysimulators/datatypes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 12ce72f..d27e3ce 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -960,6 +960,7 @@ class Map(FitsArray):
                 title=title,
                 xlabel=xlabel,
                 ylabel=ylabel,
+                interpolation=interpolation,
                 origin=origin,
                 colorbar=colorbar,
                 percentile=percentile,
-- 
2.43.0


From 8d41c9c3057f3babb9fa2cfbb790645aa01c5dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 120/149] fix: display in an existing ds9 instance

---
 src/pysimulators/datatypes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index d27e3ce..e3133a1 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -554,13 +554,13 @@ class FitsArray(Quantity):
             raise ImportError('The library pyds9 has not been installed.')
         import xpa
 
-        id = None
+        id_ = None
         if not new:
             list = pyds9.ds9_targets()
             if list is not None:
-                id = list[-1]
+                id_ = list[-1]
 
-        if id is None:
+        if id_ is None:
             if 'cmap' not in keywords:
                 keywords['cmap'] = 'heat'
 
-- 
2.43.0


From db60cfdc1a06ee3cdffa09aff868b4dd3849fe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 121/149] fix: astrometry of complex maps

---
 src/pysimulators/datatypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index e3133a1..55432bb 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -349,7 +349,8 @@ class FitsArray(Quantity):
         Returns True is the array has a FITS header with a defined World
         Coordinate System.
         """
-        return has_wcs(self.header)
+        # complex arrays do not have a header by default
+        return self.header is not None and has_wcs(self.header)
 
     @property
     def header(self):
-- 
2.43.0


From d845c9dd44f23b92b4b8b40ad5f98d5738ed9f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 122/149] fix: spherical coordinates of pointings at a constant
 angle

---
 src/pysimulators/packedtables/samplings.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index 815eb59..19d22fd 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -126,7 +126,11 @@ class SamplingSpherical(Sampling):
         Return the spherical coordinates as an (N, 2) ndarray.
 
         """
-        return np.array([getattr(self, self.names[0]), getattr(self, self.names[1])]).T
+        # one of the angles may be the same for all the samples
+        shape = (len(self),)
+        return np.array(
+            [np.broadcast_to(getattr(self, _), shape) for _ in self.names[:2]]
+        ).T
 
     @property
     def spherical2cartesian(self):
-- 
2.43.0


From 31fd600aa6d6862d1edb0c2058f1a68493aa459a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 123/149] fix: display of the pointings of integer type or at a
 constant angle

---
 src/pysimulators/packedtables/samplings.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index 19d22fd..d44f27a 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -257,14 +257,11 @@ class SamplingEquatorial(SamplingSpherical):
             if new_figure:
                 raise ValueError('There is no valid coordinates.')
             return
+        # the masked samples will be set to NaN
+        ra, dec = np.array(self.spherical, float).T
         if not isscalarlike(self.masked):
-            ra = self.ra.copy()
-            dec = self.dec.copy()
             ra[self.masked] = np.nan
             dec[self.masked] = np.nan
-        else:
-            ra = self.ra
-            dec = self.dec
 
         if header is None:
             header = getattr(map, 'header', None)
-- 
2.43.0


From c689dc6d038087755a15d3fee51d32e9c7017997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 124/149] fix: display of maps with astrometry in an existing
 figure

---
 src/pysimulators/datatypes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 55432bb..ace5715 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -996,6 +996,7 @@ class Map(FitsArray):
             fig = mp.figure()
             frame = fig.add_axes((0.1, 0.1, 0.8, 0.8))
         else:
+            fig = mp.gcf()
             frame = mp.gca()
         fontsize = 12.0 * fig.get_figheight() / 6.125
         for tick in frame.xaxis.get_major_ticks():
-- 
2.43.0


From 5d8090daba3e0002411e602382f34884122ad0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:09 +0000
Subject: [PATCH 125/149] fix: floor division and divmod of quantities of
 different units

---
 src/pysimulators/quantities.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 57975e4..48fc9a0 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -780,6 +780,9 @@ class Quantity(np.ndarray):
 
         input_units = self._get_sequence_units(inputs)
 
+        if ufunc is np.divmod and method == '__call__' and out is None:
+            return np.floor_divide(*inputs, **kwargs), np.remainder(*inputs, **kwargs)
+
         if len(inputs) < ufunc.nin and ufunc in (
             np.divide,
             np.float_power,
@@ -853,6 +856,13 @@ class Quantity(np.ndarray):
 
         elif ufunc in (np.floor_divide, np.true_divide, np.divide):
             output_unit = _divide_unit(input_units[0], input_units[1])
+            if ufunc is np.floor_divide and all(input_units):
+                # the quotient depends on the unit in which it is rounded
+                try:
+                    inputs, _ = self._get_inputs_with_common_units(inputs)
+                    output_unit = {}
+                except UnitError:
+                    pass
 
         elif ufunc in (np.exp, np.expm1, np.exp2, np.log, np.log10, np.log2, np.log1p):
             # Transcendental functions return dimensionless results
-- 
2.43.0


From 2f1ec625decc0c938e934c01e993eb2878bc0acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:09 +0000
Subject: [PATCH 126/149] fix: conversion of quantities and cubes with
 non-scalar derived units

---
 src/pysimulators/quantities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 48fc9a0..d06647d 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -1198,7 +1198,7 @@ class Quantity(np.ndarray):
         if self.ndim == 0:
             self.magnitude *= factor
         else:
-            self.magnitude.T[:] *= factor.T
+            self.magnitude[...] *= factor
         self._unit = newunit
 
     @property
-- 
2.43.0


From f1196527ad6bbe7d66a0499f8ef432d80d538b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:09 +0000
Subject: [PATCH 127/149] fix: refusal of local arrays that do not partition
 the global array

---
 src/pysimulators/mpiutils.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index 1de6714..665d1e2 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -9,7 +9,7 @@ from pathlib import Path
 import numpy as np
 from astropy.io import fits as pyfits
 
-from pyoperators.utils import omp_num_threads, product, split, strshape
+from pyoperators.utils import omp_num_threads, product, split
 from pyoperators.utils.mpi import DTYPE_MAP, MPI, combine
 
 from .wcsutils import create_fitsheader_for, has_wcs
@@ -245,7 +245,22 @@ def write_fits(filename, data, header, extension, extname, comm):
     ndim = ndims[0]
     shapes = comm.allgather(data.shape)
     if any(s[1:] != shapes[0][1:] for s in shapes):
-        raise ValueError(f"The arrays have incompatible shapes: '{strshape(shapes)}'.")
+        raise ValueError(f'The arrays have incompatible shapes: {shapes}.')
+
+    # get global/local parameters, which are checked by all the processes
+    if comm.size > 1:
+        nglobal = sum(s[0] for s in shapes)
+        for rank, shape in enumerate(shapes):
+            s = split(nglobal, comm.size, rank)
+            if shape[0] != s.stop - s.start:
+                msg = '' if comm.rank > 0 else f' Shapes are: {shapes}.'
+                raise ValueError(
+                    f"On rank {rank}, the local array shape '{shape}' is invalid. The "
+                    f"first dimension does not match the expected local number "
+                    f"'{s.stop - s.start}' given the global number '{nglobal}'.{msg}"
+                )
+        s = split(nglobal, comm.size, comm.rank)
+        nlocal = s.stop - s.start
 
     # get header
     if header is None:
@@ -272,18 +287,6 @@ def write_fits(filename, data, header, extension, extname, comm):
             pyfits.append(filename, data, header)
         return
 
-    # get global/local parameters
-    nglobal = sum(s[0] for s in shapes)
-    s = split(nglobal, comm.size, comm.rank)
-    nlocal = s.stop - s.start
-    if data.shape[0] != nlocal:
-        msg = '' if comm.rank > 0 else f' Shapes are: {shapes}.'
-        raise ValueError(
-            f"On rank {comm.rank}, the local array shape '{data.shape}' is invalid. "
-            f"The first dimension does not match the expected local number '{nlocal}' "
-            f"given the global number '{nglobal}'.{msg}"
-        )
-
     # write FITS header
     if comm.rank == 0:
         header['BITPIX'] = pyfits.DTYPE2BITPIX[data.dtype.name]
-- 
2.43.0


From 7ba662b4bed17ecb29c6083fd80c82ea68af1e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:08 +0000
Subject: [PATCH 128/149] fix: setting an attribute of a part of a table to a
 scalar

---
 src/pysimulators/packedtables/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 88dfc6d..c36c08f 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -275,8 +275,10 @@ class PackedTable:
                 try:
                     old_value = object.__getattribute__(self, key)
                     if old_value is not None and not isinstance(old_value, Callable):
-                        old_value[...] = value
-                        return
+                        # the values may be shared with another table
+                        new_value = old_value.copy()
+                        new_value[...] = value
+                        value = new_value
                 except AttributeError:
                     pass
         object.__setattr__(self, key, value)
-- 
2.43.0


From 5a501c953a456ff8604ce2470dee1624cc40aedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:05 +0000
Subject: [PATCH 129/149] fix: gathering a table or an array over the MPI
 processes loses its unit

---
 src/pysimulators/packedtables/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index c36c08f..1758bb2 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -515,8 +515,9 @@ class PackedTable:
 
         """
 
-        def func(x):
-            x = np.ascontiguousarray(x)
+        def func(array):
+            array = np.asanyarray(array)
+            x = np.ascontiguousarray(array)
             out = np.empty((ntot,) + x.shape[1:], x.dtype)
             nbytes = product(x.shape[1:]) * int(x.itemsize)
             self.comm.Allgatherv(
@@ -526,6 +527,10 @@ class PackedTable:
                     ([_ * nbytes for _ in counts], [_ * nbytes for _ in offsets]),
                 ],
             )
+            # keep the class and the unit, as pack and unpack do
+            out = out.view(type(array))
+            if out.__array_finalize__ is not None:
+                out.__array_finalize__(array)
             return out
 
         ntot = np.array(len(self))
-- 
2.43.0


From 77d970fc16e27a3a7df47820f1f63d08ef95adb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:05 +0000
Subject: [PATCH 130/149] fix: gathering a distributed table hangs or mixes its
 elements if its parts are not balanced

---
 src/pysimulators/packedtables/core.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 1758bb2..66368e9 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -533,15 +533,10 @@ class PackedTable:
                 out.__array_finalize__(array)
             return out
 
-        ntot = np.array(len(self))
-        self.comm.Allreduce(MPI.IN_PLACE, ntot, op=MPI.SUM)
-        counts = []
-        offsets = [0]
-        for s in split(ntot, self.comm.size):
-            n = s.stop - s.start
-            counts.append(n)
-            offsets.append(offsets[-1] + n)
-        offsets.pop()
+        # the processes may have selected different numbers of elements
+        counts = self.comm.allgather(len(self))
+        offsets = [sum(counts[:i]) for i in range(len(counts))]
+        ntot = sum(counts)
 
         if len(args) == 1:
             return func(args[0])
-- 
2.43.0


From 0a085cd3dee1306750b675f0a25b569386f33249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:06 +0000
Subject: [PATCH 131/149] fix: table whose communicator is not a predefined one
 cannot be copied

---
 src/pysimulators/packedtables/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 66368e9..884acce 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -380,7 +380,8 @@ class PackedTable:
         Return a deep copy of the packed array.
 
         """
-        out = copy.deepcopy(self)
+        # the communicators cannot be copied by deepcopy
+        out = copy.deepcopy(self, {id(self.comm): self.comm})
         object.__setattr__(out, 'comm', self.comm.Dup())
         return out
 
-- 
2.43.0


From bc071d5ced9df1f910e5772efd3852a04fefd7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:32 +0000
Subject: [PATCH 132/149] fix: gathering an array hangs or returns garbage if
 it does not have the size of the local table

---
 src/pysimulators/packedtables/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 884acce..d83630b 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -519,6 +519,12 @@ class PackedTable:
         def func(array):
             array = np.asanyarray(array)
             x = np.ascontiguousarray(array)
+            sizes = self.comm.allgather(x.shape[0])
+            if sizes != counts:
+                raise ValueError(
+                    f"The numbers of elements to be gathered '{sizes}' are "
+                    f"not those of the processes '{counts}'."
+                )
             out = np.empty((ntot,) + x.shape[1:], x.dtype)
             nbytes = product(x.shape[1:]) * int(x.itemsize)
             self.comm.Allgatherv(
-- 
2.43.0


From 70a53ffd3f6c1680fe6f50ca8415ecc749cb29d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:33 +0000
Subject: [PATCH 133/149] fix: third pointing angle given as a keyword is
 ignored if the others are positional arguments

---
 src/pysimulators/packedtables/samplings.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index d44f27a..2329034 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -90,9 +90,12 @@ class SamplingSpherical(Sampling):
             if names[2] not in keywords:
                 keywords[names[2]] = 0
         elif len(args) <= 3:
-            keywords[names[0]] = args[0]
-            keywords[names[1]] = args[1]
-            keywords[names[2]] = args[2] if len(args) == 3 else 0
+            for name, arg in zip(names, args):
+                if name in keywords:
+                    raise TypeError(f'Multiple values are specified for {name!r}.')
+                keywords[name] = arg
+            if len(args) == 2:
+                keywords.setdefault(names[2], 0)
         else:
             raise ValueError('Invalid number of arguments.')
 
-- 
2.43.0


From 5f0fa3054851154745eea0fd7fef469d08149e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:33 +0000
Subject: [PATCH 134/149] fix: local FITS headers of different types, or with
 missing keywords, are combined or hang

---
 src/pysimulators/mpiutils.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index 665d1e2..a004074 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -49,20 +49,19 @@ def gather_fitsheader_if_needed(header, comm=MPI.COMM_WORLD):
         raise KeyError('Scalar FITS headers cannot be combined.')
     if comm.size == 1:
         return header
-    if not has_wcs(header):
+    # all the processes must refuse the headers
+    headers = comm.allgather(header)
+    if any(not has_wcs(h) for h in headers):
         raise ValueError(
             'The input FITS header does not define a world coordi' 'nate system.'
         )
     naxis = header['NAXIS']
-    required_same = ['CRVAL1', 'CRVAL2', 'CRTYPE1', 'CRTYPE2', 'CDELT1', 'CDELT2']
+    required_same = ['NAXIS', 'CRVAL1', 'CRVAL2', 'CTYPE1', 'CTYPE2', 'CDELT1', 'CDELT2']
     required_same += ['NAXIS' + str(i + 1) for i in range(naxis - 1)]
     required_same += ['CRPIX' + str(i + 1) for i in range(naxis - 1)]
-    headers = comm.allgather(header)
     for keyword in required_same:
-        if keyword not in header:
-            continue
-        values = [h[keyword] for h in headers]
-        if any(v != headers[0][keyword] for v in values):
+        values = [h.get(keyword) for h in headers]
+        if any(v != values[0] for v in values):
             raise ValueError(
                 f'The FITS keyword {keyword!r} has different values across MPI '
                 f'processes: {values}'
-- 
2.43.0


From 3459508aa100e10fe5870a398b695e22b206987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:33 +0000
Subject: [PATCH 135/149] fix: unsigned or scaled arrays are corrupted when
 saved by several MPI processes

---
 src/pysimulators/mpiutils.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index a004074..c7f9a4f 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -287,6 +287,20 @@ def write_fits(filename, data, header, extension, extname, comm):
         return
 
     # write FITS header
+    # the data are not scaled, even if those of a previous file were
+    for keyword in 'BSCALE', 'BZERO':
+        header.remove(keyword, ignore_missing=True)
+    if data.dtype.kind == 'u' and data.dtype.itemsize > 1 or data.dtype == np.int8:
+        # FITS files store these integers with an offset, as those of the other sign
+        nbytes = data.dtype.itemsize
+        offset = 1 << 8 * nbytes - 1
+        data = np.asarray(data).astype(f'u{nbytes}')
+        data ^= data.dtype.type(offset)
+        if nbytes == 1:
+            header['BZERO'] = -offset
+        else:
+            header['BZERO'] = offset
+            data = data.view(f'i{nbytes}')
     if comm.rank == 0:
         header['BITPIX'] = pyfits.DTYPE2BITPIX[data.dtype.name]
         header['NAXIS'] = ndim
-- 
2.43.0


From c2178118336896a30b406d93830d3dddd480dd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:59 +0000
Subject: [PATCH 136/149] fix: coverage and back-projection accumulated without
 output return uninitialised values

---
 src/pysimulators/operators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 30db923..d4cf4f9 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1115,6 +1115,8 @@ class ProjectionOperator(SparseOperator):
         elif self.matrix.block_shape[1] > 1:
             shapeout = shapeout[:-1]
         if out is None:
+            if operation is not operation_assignment:
+                raise ValueError('The array for inplace operation is not specified')
             out = empty(shapeout, self.dtype)
         elif not isinstance(out, np.ndarray):
             raise TypeError('The output keyword is not an ndarray.')
@@ -1193,6 +1195,8 @@ class ProjectionOperator(SparseOperator):
             )
         dtypeout = max(self.dtype, x.dtype)
         if out is None:
+            if operation is not operation_assignment:
+                raise ValueError('The arrays for inplace operation are not specified')
             pTx = empty(shapeout, dtypeout)
             pT1 = empty(shapeout, dtypeout)
         elif not isinstance(out, (list, tuple)) or len(out) != 2:
-- 
2.43.0


From d97f498c4cdaef5cae9d281a7b64a97f288396e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:14 +0000
Subject: [PATCH 137/149] fix: header and derived units given along with the
 name of a FITS file are ignored

---
 src/pysimulators/datatypes.py | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index ace5715..4e4b9ba 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -133,23 +133,26 @@ class FitsArray(Quantity):
             if comm is None:
                 comm = MPI.COMM_SELF
 
-            try:
-                with pyfits.open(data, memmap=False) as hdus:
-                    buf = hdus['derived_units'].data
-                derived_units = pickle.loads(buf.data)
-            except (ImportError, KeyError):
-                pass
+            if derived_units is None:
+                try:
+                    with pyfits.open(data, memmap=False) as hdus:
+                        buf = hdus['derived_units'].data
+                    derived_units = pickle.loads(buf.data)
+                except (ImportError, KeyError):
+                    pass
 
-            data, header = read_fits(data, None, comm)
+            data, file_header = read_fits(data, None, comm)
 
             copy = False
             if unit is None:
-                if 'BUNIT' in header:
-                    unit = header['BUNIT']
-                elif 'QTTY____' in header:
-                    unit = header['QTTY____']  # HCSS crap
+                if 'BUNIT' in file_header:
+                    unit = file_header['BUNIT']
+                elif 'QTTY____' in file_header:
+                    unit = file_header['QTTY____']  # HCSS crap
                     if unit == '1':
                         unit = ''
+            if header is None:
+                header = file_header
 
         elif comm is not None:
             raise ValueError(
@@ -716,11 +719,14 @@ class Map(FitsArray):
         comm=None,
     ):
 
+        # the display origin is that of the file, even if another header is given
+        is_file = isinstance(data, (str, Path))
+
         # get a new Map instance (or a subclass if subok is True)
         result = FitsArray.__new__(
             cls,
             data,
-            header,
+            None if is_file else header,
             unit,
             derived_units,
             dtype,
@@ -733,7 +739,7 @@ class Map(FitsArray):
         if not subok and type(result) is not cls:
             result = result.view(cls)
 
-        if isinstance(data, (str, Path)):
+        if is_file:
 
             if comm is None:
                 comm = MPI.COMM_SELF
@@ -741,6 +747,8 @@ class Map(FitsArray):
             if 'DISPORIG' in result.header:
                 if origin is None:
                     origin = result.header['DISPORIG']
+            if header is not None:
+                result.header = header
             if coverage is None:
                 try:
                     coverage, junk = read_fits(data, 'Coverage', comm)
-- 
2.43.0


From bf0032fbaafe4e808425a372aad0caabfa702f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:14 +0000
Subject: [PATCH 138/149] fix: dimensionless array is saved with the unit of
 its header

---
 src/pysimulators/datatypes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 4e4b9ba..6e50c18 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -388,6 +388,10 @@ class FitsArray(Quantity):
 
         if len(self._unit) != 0:
             header['BUNIT'] = self.unit
+        else:
+            # the header may be that of an array which had a unit
+            header.remove('BUNIT', ignore_missing=True)
+            header.remove('QTTY____', ignore_missing=True)
 
         write_fits(filename, self, header, False, None, comm)
         if not self.derived_units:
-- 
2.43.0


From 631e744e3b7b07416e6ff3e834a9362e8737f296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:14 +0000
Subject: [PATCH 139/149] fix: mask whose shape is not that of the time-ordered
 data is accepted by the constructor

---
 src/pysimulators/datatypes.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 6e50c18..0ccafcc 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -1183,7 +1183,13 @@ class Tod(FitsArray):
         if mask is not None:
             if not isinstance(mask, np.ndarray) or mask.dtype != bool:
                 copy = True
-            result._mask = np.array(mask, np.bool_, copy=copy)
+            mask = np.array(mask, np.bool_, copy=copy)
+            if 0 < mask.ndim < ndmin:
+                mask = mask.reshape((ndmin - mask.ndim) * (1,) + mask.shape)
+            result._mask = mask
+            if mask.ndim > 0:
+                result._mask = None
+                result.mask = mask
 
         return result
 
-- 
2.43.0


From 974534ad8b3ef477e4a0afc94f81b6e0b42093a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:17 +0000
Subject: [PATCH 140/149] fix: selection by integers other than int64, or by
 slices along with arrays, is refused

---
 src/pysimulators/packedtables/core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index d83630b..79bc446 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -699,7 +699,11 @@ class PackedTable:
         if isinstance(selection, slice):
             return self._normalize_slice(selection, product(shape))
         if isinstance(selection, (list, tuple)):
-            selection_ = np.asarray(selection)
+            if any(isinstance(_, slice) or _ is Ellipsis for _ in selection):
+                # the other elements may be sequences
+                selection_ = np.empty(len(selection), object)
+            else:
+                selection_ = np.asarray(selection)
             if selection_.dtype == object:
                 selection = tuple(selection)
                 for i, s in enumerate(selection):
@@ -723,7 +727,9 @@ class PackedTable:
         elif not isinstance(selection, np.ndarray):
             raise TypeError('Invalid selection.')
 
-        if selection.dtype not in (bool, int):
+        if selection.dtype.kind in 'iu':
+            selection = selection.astype(self._dtype_index, copy=False)
+        elif selection.dtype != bool:
             raise TypeError('Invalid selection.')
         if selection.dtype == int:
             if selection.ndim != 1:
-- 
2.43.0


From 7c36df76fddfcc4f99807c3663358944a8c4a36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:17 +0000
Subject: [PATCH 141/149] fix: scalar boolean or floating-point number is
 accepted as the index of an element

---
 src/pysimulators/packedtables/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 79bc446..427d3b0 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -695,7 +695,7 @@ class PackedTable:
         ):
             return Ellipsis
         if isscalarlike(selection):
-            selection = np.asarray([selection], self._dtype_index)
+            selection = np.asarray([selection])
         if isinstance(selection, slice):
             return self._normalize_slice(selection, product(shape))
         if isinstance(selection, (list, tuple)):
-- 
2.43.0


From 9e0a359b112231f19843c46c817dd47e09fe4142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:32 +0000
Subject: [PATCH 142/149] fix: percentiles and quantiles of a quantity lose its
 unit

---
 src/pysimulators/quantities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index d06647d..255a231 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -165,6 +165,8 @@ FUNCTIONS = {
     np.nanmean: DEFAULT_CONVERSION,
     np.nanmedian: DEFAULT_CONVERSION,
     np.nanmin: DEFAULT_CONVERSION,
+    np.nanpercentile: DEFAULT_CONVERSION,
+    np.nanquantile: DEFAULT_CONVERSION,
     np.nanstd: DEFAULT_CONVERSION,
     np.nansum: DEFAULT_CONVERSION,
     np.nanvar: ConversionType(action=ConversionAction.SQUARE),
@@ -173,8 +175,10 @@ FUNCTIONS = {
     ),
     np.pad: DEFAULT_CONVERSION,
     np.partition: DEFAULT_CONVERSION,
+    np.percentile: DEFAULT_CONVERSION,
     np.permute_dims: DEFAULT_CONVERSION,
     np.ptp: DEFAULT_CONVERSION,
+    np.quantile: DEFAULT_CONVERSION,
     np.ravel: DEFAULT_CONVERSION,
     np.real: DEFAULT_CONVERSION,
     np.real_if_close: DEFAULT_CONVERSION,
-- 
2.43.0


From b3e30fa72f67cf9a364d94439e59321388e90f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:32 +0000
Subject: [PATCH 143/149] fix: units lost by numpy functions that may return
 several quantities

---
 src/pysimulators/quantities.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 255a231..7caf616 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -89,9 +89,15 @@ FUNCTIONS = {
     np.append: ConversionType(ConversionInput.FIRST_AND_SECOND),
     np.around: DEFAULT_CONVERSION,
     np.array_split: ConversionType(output=ConversionOutput.SEQUENCE),
-    np.atleast_1d: DEFAULT_CONVERSION,
-    np.atleast_2d: DEFAULT_CONVERSION,
-    np.atleast_3d: DEFAULT_CONVERSION,
+    np.atleast_1d: ConversionType(
+        ConversionInput.SEQUENCE, ConversionOutput.SEQUENCE, ConversionAction.EACH
+    ),
+    np.atleast_2d: ConversionType(
+        ConversionInput.SEQUENCE, ConversionOutput.SEQUENCE, ConversionAction.EACH
+    ),
+    np.atleast_3d: ConversionType(
+        ConversionInput.SEQUENCE, ConversionOutput.SEQUENCE, ConversionAction.EACH
+    ),
     np.average: ConversionType(output=ConversionOutput.FIRST_IF_SEQUENCE),
     # np.block: ConversionType(ConversionInput.FIRST_NESTED),
     np.broadcast_arrays: ConversionType(
@@ -150,7 +156,9 @@ FUNCTIONS = {
     ),
     np.insert: ConversionType(ConversionInput.FIRST_AND_THIRD),
     np.interp: DEFAULT_CONVERSION,
-    np.intersect1d: ConversionType(ConversionInput.FIRST_AND_SECOND),
+    np.intersect1d: ConversionType(
+        ConversionInput.FIRST_AND_SECOND, ConversionOutput.FIRST_IF_SEQUENCE
+    ),
     np.kron: ConversionType(
         ConversionInput.FIRST_AND_SECOND, action=ConversionAction.PROD
     ),
@@ -716,6 +724,8 @@ class Quantity(np.ndarray):
             else:
                 output = arrays.view(type(self))
             output.__array_finalize__(self)
+            if conversion.action is ConversionAction.EACH:
+                output_units = output_units[0]
             output._unit = output_units
             return output
 
-- 
2.43.0


From 677fa30dd9d8168ffad437c4d460a84e89e47670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:32 +0000
Subject: [PATCH 144/149] fix: covariance of quantities of different units

---
 src/pysimulators/quantities.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 7caf616..beb21dd 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -601,7 +601,7 @@ class Quantity(np.ndarray):
             case ConversionAction.EACH:
                 return input_units
             case ConversionAction.SQUARE:
-                return _power_unit(input_units[0], 2)
+                return _power_unit(next((_ for _ in input_units if _), {}), 2)
             case ConversionAction.PROD:
                 output_unit = input_units[0]
                 for input_unit in input_units[1:]:
@@ -622,14 +622,14 @@ class Quantity(np.ndarray):
         if out is not None:
             keywords['out'] = cls._view_function_input(out)
 
-        if conversion.action is not ConversionAction.SAME or conversion.input in (
-            ConversionInput.FIRST,
-            ConversionInput.SECOND,
-        ):
+        if conversion.action in (
+            ConversionAction.EACH,
+            ConversionAction.PROD,
+        ) or conversion.input in (ConversionInput.FIRST, ConversionInput.SECOND):
             return arrays, keywords
-        assert isinstance(output_units, dict)
 
-        common_unit = output_units
+        input_units = cls._get_function_input_units(arrays, conversion)
+        common_unit = next((_ for _ in input_units if _), {})
         if not common_unit:
             return arrays, keywords
 
-- 
2.43.0


From 3611fc707d1b3a5142a206c0a983c8162d3fbc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:32 +0000
Subject: [PATCH 145/149] fix: numpy functions that compare quantities ignore
 their units

---
 src/pysimulators/quantities.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index beb21dd..24fb5e0 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -88,6 +88,12 @@ FUNCTIONS = {
     np.amin: DEFAULT_CONVERSION,
     np.append: ConversionType(ConversionInput.FIRST_AND_SECOND),
     np.around: DEFAULT_CONVERSION,
+    np.array_equal: ConversionType(
+        ConversionInput.FIRST_AND_SECOND, action=ConversionAction.UNITLESS
+    ),
+    np.array_equiv: ConversionType(
+        ConversionInput.FIRST_AND_SECOND, action=ConversionAction.UNITLESS
+    ),
     np.array_split: ConversionType(output=ConversionOutput.SEQUENCE),
     np.atleast_1d: ConversionType(
         ConversionInput.SEQUENCE, ConversionOutput.SEQUENCE, ConversionAction.EACH
@@ -131,6 +137,9 @@ FUNCTIONS = {
     np.diagflat: DEFAULT_CONVERSION,
     np.diagonal: DEFAULT_CONVERSION,
     np.diff: DEFAULT_CONVERSION,
+    np.digitize: ConversionType(
+        ConversionInput.FIRST_AND_SECOND, action=ConversionAction.UNITLESS
+    ),
     np.dot: ConversionType(
         ConversionInput.FIRST_AND_SECOND, action=ConversionAction.PROD
     ),
@@ -159,6 +168,9 @@ FUNCTIONS = {
     np.intersect1d: ConversionType(
         ConversionInput.FIRST_AND_SECOND, ConversionOutput.FIRST_IF_SEQUENCE
     ),
+    np.isin: ConversionType(
+        ConversionInput.FIRST_AND_SECOND, action=ConversionAction.UNITLESS
+    ),
     np.kron: ConversionType(
         ConversionInput.FIRST_AND_SECOND, action=ConversionAction.PROD
     ),
@@ -198,6 +210,9 @@ FUNCTIONS = {
     np.rot90: DEFAULT_CONVERSION,
     np.round: DEFAULT_CONVERSION,
     np.row_stack: ConversionType(ConversionInput.FIRST_SEQUENCE),
+    np.searchsorted: ConversionType(
+        ConversionInput.FIRST_AND_SECOND, action=ConversionAction.UNITLESS
+    ),
     np.select: ConversionType(ConversionInput.SECOND_SEQUENCE),
     np.setdiff1d: ConversionType(ConversionInput.FIRST_AND_SECOND),
     np.setxor1d: ConversionType(ConversionInput.FIRST_AND_SECOND),
@@ -530,6 +545,8 @@ class Quantity(np.ndarray):
         outputs = func(*converted_inputs, **kwargs)
         if conversion.output is ConversionOutput.NONE:
             return None
+        if conversion.action is ConversionAction.UNITLESS:
+            return outputs
 
         if isinstance(out, Quantity):
             if any(input_units):
@@ -602,6 +619,8 @@ class Quantity(np.ndarray):
                 return input_units
             case ConversionAction.SQUARE:
                 return _power_unit(next((_ for _ in input_units if _), {}), 2)
+            case ConversionAction.UNITLESS:
+                return {}
             case ConversionAction.PROD:
                 output_unit = input_units[0]
                 for input_unit in input_units[1:]:
-- 
2.43.0


From ff347961cfa4e203166f316d764e922f5eabfe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:40 +0000
Subject: [PATCH 146/149] fix: indices of sorted or extremum elements of a
 quantity have its unit

---
 src/pysimulators/quantities.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 24fb5e0..9e3bcd0 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -87,6 +87,10 @@ FUNCTIONS = {
     np.amax: DEFAULT_CONVERSION,
     np.amin: DEFAULT_CONVERSION,
     np.append: ConversionType(ConversionInput.FIRST_AND_SECOND),
+    np.argmax: ConversionType(action=ConversionAction.UNITLESS),
+    np.argmin: ConversionType(action=ConversionAction.UNITLESS),
+    np.argpartition: ConversionType(action=ConversionAction.UNITLESS),
+    np.argsort: ConversionType(action=ConversionAction.UNITLESS),
     np.around: DEFAULT_CONVERSION,
     np.array_equal: ConversionType(
         ConversionInput.FIRST_AND_SECOND, action=ConversionAction.UNITLESS
@@ -181,6 +185,8 @@ FUNCTIONS = {
     np.moveaxis: DEFAULT_CONVERSION,
     np.nan_to_num: DEFAULT_CONVERSION,
     np.nancumsum: DEFAULT_CONVERSION,
+    np.nanargmax: ConversionType(action=ConversionAction.UNITLESS),
+    np.nanargmin: ConversionType(action=ConversionAction.UNITLESS),
     np.nanmax: DEFAULT_CONVERSION,
     np.nanmean: DEFAULT_CONVERSION,
     np.nanmedian: DEFAULT_CONVERSION,
@@ -1285,6 +1291,26 @@ class Quantity(np.ndarray):
 
         return result
 
+    def argmax(self, *args, **keywords):
+        return self.view(np.ndarray).argmax(*args, **keywords)
+
+    argmax.__doc__ = np.ndarray.argmax.__doc__
+
+    def argmin(self, *args, **keywords):
+        return self.view(np.ndarray).argmin(*args, **keywords)
+
+    argmin.__doc__ = np.ndarray.argmin.__doc__
+
+    def argpartition(self, *args, **keywords):
+        return self.view(np.ndarray).argpartition(*args, **keywords)
+
+    argpartition.__doc__ = np.ndarray.argpartition.__doc__
+
+    def argsort(self, *args, **keywords):
+        return self.view(np.ndarray).argsort(*args, **keywords)
+
+    argsort.__doc__ = np.ndarray.argsort.__doc__
+
     def __reduce__(self):
         state = list(np.ndarray.__reduce__(self))
         try:
-- 
2.43.0


From 2711cfcf9dc184e7ef4d481135eec3b71c947ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:40 +0000
Subject: [PATCH 147/149] fix: keywords of numpy functions that are quantities
 of another unit are not converted

---
 src/pysimulators/quantities.py | 48 +++++++++++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 9e3bcd0..680c8ca 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -259,6 +259,20 @@ FUNCTIONS = {
 }
 FUNCTIONS.pop(None, None)
 
+# keywords whose values are expressed in the unit of the arrays
+HOMOGENEOUS_KEYWORDS = {
+    'append',
+    'constant_values',
+    'default',
+    'initial',
+    'mean',
+    'nan',
+    'neginf',
+    'period',
+    'posinf',
+    'prepend',
+}
+
 
 def _extract_unit(string: str | UnitType) -> UnitType:
     """
@@ -570,18 +584,24 @@ class Quantity(np.ndarray):
     ) -> tuple[tuple[Any, ...], dict[str, Any]]:
         """
         Return the leading arguments as positional ones, even if they are specified as
-        keywords.
+        keywords, except those that are converted to the unit of the arrays.
         """
         keywords = keywords.copy()
         try:
             parameters = list(inspect.signature(func).parameters.values())
         except ValueError:
             return args, keywords
+        names = [_.name for _ in parameters[: len(args)]]
+        for i, name in enumerate(names):
+            if name in HOMOGENEOUS_KEYWORDS:
+                keywords.update(zip(names[i:], args[i:]))
+                return args[:i], keywords
         for parameter in parameters[len(args) :]:
             if (
                 parameter.kind is not parameter.POSITIONAL_OR_KEYWORD
                 or parameter.name not in keywords
                 or parameter.name == 'out'
+                or parameter.name in HOMOGENEOUS_KEYWORDS
             ):
                 break
             args += (keywords.pop(parameter.name),)
@@ -647,14 +667,18 @@ class Quantity(np.ndarray):
         if out is not None:
             keywords['out'] = cls._view_function_input(out)
 
+        if conversion.action not in (ConversionAction.EACH, ConversionAction.PROD):
+            unit = cls._get_function_common_unit(arrays, conversion)
+            for key in HOMOGENEOUS_KEYWORDS & keywords.keys():
+                keywords[key] = cls._convert_keyword(keywords[key], unit)
+
         if conversion.action in (
             ConversionAction.EACH,
             ConversionAction.PROD,
         ) or conversion.input in (ConversionInput.FIRST, ConversionInput.SECOND):
             return arrays, keywords
 
-        input_units = cls._get_function_input_units(arrays, conversion)
-        common_unit = next((_ for _ in input_units if _), {})
+        common_unit = cls._get_function_common_unit(arrays, conversion)
         if not common_unit:
             return arrays, keywords
 
@@ -705,6 +729,20 @@ class Quantity(np.ndarray):
             homogenized_args.append(array)
         return tuple(homogenized_args), keywords
 
+    @classmethod
+    def _get_function_common_unit(
+        cls, arrays: Iterable[Any], conversion: ConversionType
+    ) -> UnitType:
+        input_units = cls._get_function_input_units(arrays, conversion)
+        return next((_ for _ in input_units if _), {})
+
+    @classmethod
+    def _convert_keyword(cls, value: Any, unit: UnitType) -> Any:
+        unit_ = cls._get_units(value)
+        if unit and unit_ and unit_ != unit:
+            return value.tounit(unit)
+        return value
+
     @classmethod
     def _view_function_inputs(
         cls, arrays: Any, keywords: dict[str, Any], conversion: ConversionType
@@ -843,6 +881,10 @@ class Quantity(np.ndarray):
             np.subtract,
         ) or ufunc.__name__ == 'clip':
             inputs, output_unit = self._get_inputs_with_common_units(inputs)
+            if 'initial' in kwargs:
+                kwargs['initial'] = self._convert_keyword(
+                    kwargs['initial'], output_unit
+                )
 
         elif ufunc in (
             np.arctan2,
-- 
2.43.0


From e07f3a1e4fbdff78c149cbddcf9c35e7e9e061b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:21 +0000
Subject: [PATCH 148/149] fix: methods dot, searchsorted and trace ignore the
 units of quantities

---
 src/pysimulators/quantities.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 680c8ca..e45b698 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -1353,6 +1353,21 @@ class Quantity(np.ndarray):
 
     argsort.__doc__ = np.ndarray.argsort.__doc__
 
+    def dot(self, b, out=None):
+        return np.dot(self, b, out=out)
+
+    dot.__doc__ = np.ndarray.dot.__doc__
+
+    def searchsorted(self, v, side='left', sorter=None):
+        return np.searchsorted(self, v, side=side, sorter=sorter)
+
+    searchsorted.__doc__ = np.ndarray.searchsorted.__doc__
+
+    def trace(self, offset=0, axis1=0, axis2=1, dtype=None, out=None):
+        return np.trace(self, offset, axis1, axis2, dtype, out=out)
+
+    trace.__doc__ = np.ndarray.trace.__doc__
+
     def __reduce__(self):
         state = list(np.ndarray.__reduce__(self))
         try:
-- 
2.43.0


From b1c9da19b2c190ea1b98375ecd82eee0d94e64b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:21 +0000
Subject: [PATCH 149/149] fix: units lost by ldexp, modf, nextafter and spacing

---
 src/pysimulators/quantities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index e45b698..3850461 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -877,6 +877,7 @@ class Quantity(np.ndarray):
             np.hypot,
             np.maximum,
             np.minimum,
+            np.nextafter,
             np.remainder,
             np.subtract,
         ) or ufunc.__name__ == 'clip':
@@ -905,9 +906,12 @@ class Quantity(np.ndarray):
             np.copysign,
             np.fabs,
             np.floor,
+            np.ldexp,
+            np.modf,
             np.negative,
             np.positive,
             np.rint,
+            np.spacing,
             np.trunc,
         ):
             output_unit = input_units[0]
-- 
2.43.0

