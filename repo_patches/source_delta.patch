From d0b5eb538ba4a4d257584a8c63d4a0e22324387c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 01/56] fix: slicing a reversed (negative-stride) view computed
 the wrong offset

slice_axis used |stride| and gufunc_subarray clamped the delta at 0, so
views of reversed arrays addressed memory outside the array.
---
 src/array/views.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/array/views.rs b/src/array/views.rs
index abc7479..26b9b15 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -6,7 +6,7 @@ use std::sync::Arc;
 
 impl RumpyArray {
     /// Create a view with new offset, shape, and strides, sharing the buffer.
-    pub fn view_with(&self, offset_delta: usize, shape: Vec<usize>, strides: Vec<isize>) -> Self {
+    pub fn view_with(&self, offset_delta: isize, shape: Vec<usize>, strides: Vec<isize>) -> Self {
         let mut flags = ArrayFlags::WRITEABLE;
         if is_c_contiguous(&shape, &strides, self.dtype.itemsize()) {
             flags |= ArrayFlags::C_CONTIGUOUS;
@@ -17,7 +17,7 @@ impl RumpyArray {
 
         Self {
             buffer: Arc::clone(&self.buffer),
-            offset: self.offset + offset_delta,
+            offset: (self.offset as isize + offset_delta) as usize,
             shape,
             strides,
             dtype: self.dtype.clone(),
@@ -70,7 +70,8 @@ impl RumpyArray {
 
         // Compute offset delta (bytes to skip to reach start element)
         let old_stride = self.strides[axis];
-        let offset_delta = (start as usize) * (old_stride.unsigned_abs());
+        // Strides are signed: stepping into a reversed axis moves backwards.
+        let offset_delta = if new_len == 0 { 0 } else { start * old_stride };
 
         // New stride = old_stride * step
         let mut new_strides = self.strides.clone();
@@ -250,12 +251,12 @@ impl RumpyArray {
         // Handle case where we're extracting a scalar (empty core dims)
         if core_shape.is_empty() {
             return self.view_with(
-                offset_delta.max(0) as usize,
+                offset_delta,
                 vec![1],
                 vec![self.itemsize() as isize],
             );
         }
 
-        self.view_with(offset_delta.max(0) as usize, core_shape, core_strides)
+        self.view_with(offset_delta, core_shape, core_strides)
     }
 }
-- 
2.43.0


From 505d59755fd9cfe50afbb5b6dd39ce327412d21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:29 +0000
Subject: [PATCH 02/56] fix: einsum matmul path mishandled batch indices,
 contraction order and permuted outputs

---
 src/ops/einsum.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ops/einsum.rs b/src/ops/einsum.rs
index 5f12e08..93e474c 100644
--- a/src/ops/einsum.rs
+++ b/src/ops/einsum.rs
@@ -542,7 +542,8 @@ fn einsum_binary(
     // Try BLAS path for simple contractions
     if can_use_blas(a_sub, b_sub) && !contraction_indices.is_empty() {
         if let Some(blas_result) = try_blas_contraction(a, b, a_sub, b_sub, out_sub, dim_map, contraction_indices) {
-            // Copy result (dtype-aware)
+            // Copy result (dtype-aware); a permuted result is a view, so lay it out first
+            let blas_result = blas_result.astype(result.dtype());
             let out_ptr = result.data_ptr() as *mut u8;
             let blas_ptr = blas_result.data_ptr();
             let itemsize = result.dtype().itemsize();
@@ -576,7 +577,16 @@ fn try_blas_contraction(
 
     // Identify free indices for B (in B but not contracted)
     let b_free: Vec<char> = b_sub.iter().filter(|c| !contract_set.contains(c)).copied().collect();
-    let b_contract: Vec<char> = b_sub.iter().filter(|c| contract_set.contains(c)).copied().collect();
+    let b_contract_set: HashSet<char> = b_sub.iter().filter(|c| contract_set.contains(c)).copied().collect();
+
+    // A plain matmul has no batch indices and contracts over the same indices on both sides
+    if a_free.iter().any(|c| b_free.contains(c))
+        || a_contract.iter().copied().collect::<HashSet<char>>() != b_contract_set
+    {
+        return None;
+    }
+    // Contracted indices must be flattened in the same order on both sides
+    let b_contract = a_contract.clone();
 
     // Compute dimensions
     let a_free_dims: Vec<usize> = a_free.iter().map(|c| dim_map[c]).collect();
-- 
2.43.0


From b455bc7250da1697c03c8ff031a69096ffe3b81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:29 +0000
Subject: [PATCH 03/56] fix: reshape of a non-C-contiguous array must follow
 row-major element order

F-contiguous arrays were reshaped in column-major order, and other layouts failed.
---
 src/array/views.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/array/views.rs b/src/array/views.rs
index 26b9b15..d3fff96 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -1,7 +1,7 @@
 //! View operations: reshape, transpose, flip, slice_axis, broadcast_to, squeeze, expand_dims.
 
 use super::flags::ArrayFlags;
-use super::{compute_c_strides, compute_f_strides, is_c_contiguous, is_f_contiguous, RumpyArray};
+use super::{compute_c_strides, is_c_contiguous, is_f_contiguous, RumpyArray};
 use std::sync::Arc;
 
 impl RumpyArray {
@@ -83,24 +83,20 @@ impl RumpyArray {
         self.view_with(offset_delta, new_shape, new_strides)
     }
 
-    /// Reshape array. Returns a view if contiguous, otherwise would need copy.
-    /// For now, only works on contiguous arrays.
+    /// Reshape array (row-major element order). Returns a view if C-contiguous,
+    /// otherwise a copy.
     pub fn reshape(&self, new_shape: Vec<usize>) -> Option<Self> {
         let old_size: usize = self.shape.iter().product();
         let new_size: usize = new_shape.iter().product();
         if old_size != new_size {
             return None;
         }
-        if !self.is_c_contiguous() && !self.is_f_contiguous() {
-            return None; // Would need copy
+        if !self.is_c_contiguous() {
+            // Elements are not laid out in row-major order: reshape a contiguous copy
+            return self.copy().reshape(new_shape);
         }
 
-        let new_strides = if self.is_c_contiguous() {
-            compute_c_strides(&new_shape, self.dtype.itemsize())
-        } else {
-            compute_f_strides(&new_shape, self.dtype.itemsize())
-        };
-
+        let new_strides = compute_c_strides(&new_shape, self.dtype.itemsize());
         Some(self.view_with(0, new_shape, new_strides))
     }
 
-- 
2.43.0


From 44962d4d26e212623db31a3b633b654716e403b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:29 +0000
Subject: [PATCH 04/56] fix: out-of-range integer indices and negative-step
 slice bounds read outside the array

---
 src/python/pyarray/dunder_item.rs | 23 +++++++++++-------
 src/python/pyarray/mod.rs         | 40 +++++++++++++++++++------------
 2 files changed, 40 insertions(+), 23 deletions(-)

diff --git a/src/python/pyarray/dunder_item.rs b/src/python/pyarray/dunder_item.rs
index d374e11..3c75078 100644
--- a/src/python/pyarray/dunder_item.rs
+++ b/src/python/pyarray/dunder_item.rs
@@ -9,6 +9,13 @@ use super::{
 };
 use crate::array::RumpyArray;
 
+/// Length of the axis a bare integer or slice index applies to.
+fn first_axis_len(arr: &RumpyArray) -> PyResult<usize> {
+    arr.shape().first().copied().ok_or_else(|| {
+        pyo3::exceptions::PyIndexError::new_err("too many indices for array")
+    })
+}
+
 #[pymethods]
 impl PyRumpyArray {
     /// Indexing and slicing.
@@ -103,7 +110,7 @@ impl PyRumpyArray {
                             unreachable!()
                         }
                     })
-                    .collect();
+                    .collect::<PyResult<_>>()?;
                 let val = self.inner.get_element(&indices);
                 return Ok(val.into_pyobject(py)?.into_any().unbind());
             }
@@ -127,7 +134,7 @@ impl PyRumpyArray {
                                 "too many indices for array",
                             ));
                         }
-                        let idx = normalize_index(*idx, result.shape()[axis]);
+                        let idx = normalize_index(*idx, result.shape()[axis])?;
                         result = result.slice_axis(axis, idx as isize, idx as isize + 1, 1);
                         squeeze_axes.push(axis);
                         axis += 1;
@@ -156,7 +163,7 @@ impl PyRumpyArray {
 
         // Handle single integer index
         if let Ok(idx) = key.extract::<isize>() {
-            let idx = normalize_index(idx, self.inner.shape()[0]);
+            let idx = normalize_index(idx, first_axis_len(&self.inner)?)?;
             let result = self.inner.slice_axis(0, idx as isize, idx as isize + 1, 1);
             let result = result.squeeze_axis(0);
             return Ok(Self::new(result).into_pyobject(py)?.into_any().unbind());
@@ -164,7 +171,7 @@ impl PyRumpyArray {
 
         // Handle single slice
         if let Ok(slice) = key.downcast::<PySlice>() {
-            let (start, stop, step) = extract_slice_indices(slice, self.inner.shape()[0])?;
+            let (start, stop, step) = extract_slice_indices(slice, first_axis_len(&self.inner)?)?;
             let result = self.inner.slice_axis(0, start, stop, step);
             return Ok(Self::new(result).into_pyobject(py)?.into_any().unbind());
         }
@@ -194,7 +201,7 @@ impl PyRumpyArray {
                         let idx: isize = item.extract().unwrap();
                         normalize_index(idx, self.inner.shape()[axis])
                     })
-                    .collect();
+                    .collect::<PyResult<_>>()?;
 
                 if let Some(scalar) = value_scalar {
                     self.inner.set_element(&indices, scalar);
@@ -217,7 +224,7 @@ impl PyRumpyArray {
                     ));
                 }
                 if let Ok(idx) = item.extract::<isize>() {
-                    let idx = normalize_index(idx, view.shape()[axis]);
+                    let idx = normalize_index(idx, view.shape()[axis])?;
                     view = view.slice_axis(axis, idx as isize, idx as isize + 1, 1);
                     axis += 1;
                 } else if let Ok(slice) = item.downcast::<PySlice>() {
@@ -236,7 +243,7 @@ impl PyRumpyArray {
 
         // Handle single integer index (row assignment for 2D+, or single element for 1D)
         if let Ok(idx) = key.extract::<isize>() {
-            let idx = normalize_index(idx, self.inner.shape()[0]);
+            let idx = normalize_index(idx, first_axis_len(&self.inner)?)?;
 
             if self.inner.ndim() == 1 {
                 // Single element in 1D array
@@ -257,7 +264,7 @@ impl PyRumpyArray {
 
         // Handle single slice
         if let Ok(slice) = key.downcast::<PySlice>() {
-            let (start, stop, step) = extract_slice_indices(slice, self.inner.shape()[0])?;
+            let (start, stop, step) = extract_slice_indices(slice, first_axis_len(&self.inner)?)?;
             let mut view = self.inner.slice_axis(0, start, stop, step);
             return fill_view(&mut view, value_scalar, value_array.as_deref());
         }
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 1cbc113..e96cc65 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -979,12 +979,15 @@ fn extract_slice_indices(
 }
 
 /// Normalize a negative index to positive.
-fn normalize_index(idx: isize, len: usize) -> usize {
-    if idx < 0 {
-        (len as isize + idx) as usize
-    } else {
-        idx as usize
-    }
+fn normalize_index(idx: isize, len: usize) -> PyResult<usize> {
+    let norm = if idx < 0 { idx + len as isize } else { idx };
+    if norm < 0 || norm >= len as isize {
+        return Err(pyo3::exceptions::PyIndexError::new_err(format!(
+            "index {} is out of bounds for axis with size {}",
+            idx, len
+        )));
+    }
+    Ok(norm as usize)
 }
 
 /// Resolve a potentially negative axis to a positive index.
@@ -1037,19 +1040,21 @@ fn extract_f64_vec(obj: &Bound<'_, PyAny>, name: &str) -> PyResult<Vec<f64>> {
 
 /// Normalize slice start/stop values with proper defaults and clamping.
 fn normalize_slice(start: isize, stop: isize, step: isize, len: isize) -> (isize, isize) {
+    // Valid positions: [0, len] when walking forward, [-1, len - 1] when walking backward
+    let (lower, upper) = if step > 0 { (0, len) } else { (-1, len - 1) };
     let (default_start, default_stop) = if step > 0 {
-        (0, len)
+        (lower, upper)
     } else {
-        (len - 1, -len - 1)
+        (upper, lower)
     };
 
-    // Apply defaults for sentinel values
-    let start = if start == isize::MIN { default_start } else { start };
-    let stop = if stop == isize::MAX { default_stop } else { stop };
-
-    // Normalize negative indices
-    let start = if start < 0 { (start + len).max(0) } else { start.min(len) };
-    let stop = if stop < 0 { (stop + len).max(-1) } else { stop.min(len) };
+    // Apply defaults for sentinel values, then normalize negative indices and clamp
+    let clamp = |v: isize| -> isize {
+        let v = if v < 0 { v + len } else { v };
+        v.max(lower).min(upper)
+    };
+    let start = if start == isize::MIN { default_start } else { clamp(start) };
+    let stop = if stop == isize::MAX { default_stop } else { clamp(stop) };
 
     (start, stop)
 }
@@ -1118,6 +1123,11 @@ fn expand_ellipsis(tuple: &Bound<'_, PyTuple>, ndim: usize) -> PyResult<Vec<Inde
             let step = slice.getattr("step").ok()
                 .and_then(|v| if v.is_none() { None } else { v.extract::<isize>().ok() })
                 .unwrap_or(1);
+            if step == 0 {
+                return Err(pyo3::exceptions::PyValueError::new_err(
+                    "slice step cannot be zero",
+                ));
+            }
 
             // Use sentinel values that will be processed during application
             items.push(IndexItem::Slice(
-- 
2.43.0


From 975a5d393ad857458b6bb18da5065098b54b8600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:33 +0000
Subject: [PATCH 05/56] fix: squeeze of an all-ones shape must give a 0-d array

---
 src/array/views.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/array/views.rs b/src/array/views.rs
index d3fff96..3a3d8f5 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -173,11 +173,6 @@ impl RumpyArray {
             .map(|(_, &s)| s)
             .collect();
 
-        // Handle scalar case (all dims were 1)
-        if new_shape.is_empty() && self.size() == 1 {
-            return self.view_with(0, vec![1], vec![self.itemsize() as isize]);
-        }
-
         self.view_with(0, new_shape, new_strides)
     }
 
-- 
2.43.0


From a90efcd3e76e2cde11ebc0bf7ae8d4922986420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:33 +0000
Subject: [PATCH 06/56] fix: reading one element by a full index lost integer
 precision and complex values

---
 src/python/pyarray/dunder_item.rs |  5 ++---
 src/python/pyarray/mod.rs         | 27 +++++++++++++++++++++++----
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/python/pyarray/dunder_item.rs b/src/python/pyarray/dunder_item.rs
index 3c75078..fe69930 100644
--- a/src/python/pyarray/dunder_item.rs
+++ b/src/python/pyarray/dunder_item.rs
@@ -4,7 +4,7 @@ use pyo3::prelude::*;
 use pyo3::types::{PyEllipsis, PyList, PySlice, PyTuple};
 
 use super::{
-    expand_ellipsis, extract_slice_indices, fill_view, normalize_index, normalize_slice,
+    element_to_py, expand_ellipsis, extract_slice_indices, fill_view, normalize_index, normalize_slice,
     IndexItem, PyRumpyArray,
 };
 use crate::array::RumpyArray;
@@ -111,8 +111,7 @@ impl PyRumpyArray {
                         }
                     })
                     .collect::<PyResult<_>>()?;
-                let val = self.inner.get_element(&indices);
-                return Ok(val.into_pyobject(py)?.into_any().unbind());
+                return element_to_py(py, &self.inner, &indices);
             }
 
             // Process indices, tracking which axes had integer indices (to squeeze)
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index e96cc65..8026177 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -12,7 +12,7 @@ mod methods_reductions;
 use pyo3::prelude::*;
 use pyo3::types::{PyDict, PyEllipsis, PyList, PySlice, PyString, PyTuple};
 
-use crate::array::{promote_dtype, DType, RumpyArray};
+use crate::array::{promote_dtype, DType, DTypeKind, RumpyArray};
 use crate::ops::{map_binary_op_inplace, BinaryOp, ComparisonOp};
 use super::dtype::normalize_dtype_string;
 
@@ -423,13 +423,13 @@ impl PyRumpyArray {
     }
 
     /// Extract a scalar from a size-1 array.
-    fn item(&self) -> PyResult<f64> {
+    fn item(&self, py: Python<'_>) -> PyResult<PyObject> {
         if self.inner.size() != 1 {
             return Err(pyo3::exceptions::PyValueError::new_err(
                 "can only convert an array of size 1 to a Python scalar",
             ));
         }
-        Ok(self.inner.get_element(&vec![0; self.inner.ndim()]))
+        element_to_py(py, &self.inner, &vec![0; self.inner.ndim()])
     }
 
     /// Clip values to a range.
@@ -978,7 +978,26 @@ fn extract_slice_indices(
     Ok((indices.start, indices.stop, indices.step))
 }
 
-/// Normalize a negative index to positive.
+/// Read one element as the matching Python scalar (exact for every integer dtype).
+fn element_to_py(py: Python<'_>, arr: &RumpyArray, indices: &[usize]) -> PyResult<PyObject> {
+    let dtype = arr.dtype();
+    let kind = dtype.kind();
+    if matches!(kind, DTypeKind::Complex64 | DTypeKind::Complex128) {
+        let (re, im) = arr.get_complex_element(indices);
+        return Ok(pyo3::types::PyComplex::from_doubles(py, re, im).into_any().unbind());
+    }
+    if dtype.is_integer() {
+        let val = unsafe { dtype.ops().read_i64(arr.data_ptr(), arr.byte_offset_for(indices)) }
+            .unwrap_or(0);
+        return Ok(match kind {
+            DTypeKind::Uint64 => (val as u64).into_pyobject(py)?.into_any().unbind(),
+            _ => val.into_pyobject(py)?.into_any().unbind(),
+        });
+    }
+    Ok(arr.get_element(indices).into_pyobject(py)?.into_any().unbind())
+}
+
+/// Normalize a negative index to positive; out-of-range indices are an error.
 fn normalize_index(idx: isize, len: usize) -> PyResult<usize> {
     let norm = if idx < 0 { idx + len as isize } else { idx };
     if norm < 0 || norm >= len as isize {
-- 
2.43.0


From 732f2f9f122e14855f149c0255b40114fc367fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:55 +0000
Subject: [PATCH 07/56] fix: casting between dtypes lost integer precision and
 complex values

---
 src/array/mod.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/array/mod.rs b/src/array/mod.rs
index 2ccb842..809364a 100644
--- a/src/array/mod.rs
+++ b/src/array/mod.rs
@@ -415,10 +415,8 @@ impl RumpyArray {
                     }
                 }
                 _ => {
-                    // Cross-dtype conversion via f64 (lossy for complex)
                     for (i, offset) in self.iter_offsets().enumerate() {
-                        let val = unsafe { src_ops.read_f64(src_ptr, offset) }.unwrap_or(0.0);
-                        unsafe { dst_ops.write_f64(result_ptr, i, val); }
+                        unsafe { cast_element(src_ops, src_ptr, offset, dst_ops, result_ptr, i); }
                     }
                 }
             }
@@ -482,6 +480,32 @@ impl RumpyArray {
 
 }
 
+/// Convert one element between dtypes: out[idx] = src at byte_offset.
+///
+/// Integer values convert exactly (modulo the target width) and complex values keep
+/// their imaginary part when the target has one; everything else goes through f64.
+///
+/// # Safety
+/// Both pointers must be valid for the accessed element.
+pub(crate) unsafe fn cast_element(
+    src_ops: &dyn DTypeOps,
+    src: *const u8,
+    byte_offset: isize,
+    dst_ops: &dyn DTypeOps,
+    dst: *mut u8,
+    idx: usize,
+) {
+    let src_integral = src_ops.is_integer() || src_ops.kind() == DTypeKind::Bool;
+    if src_integral && dst_ops.is_integer() {
+        dst_ops.write_i64(dst, idx, src_ops.read_i64(src, byte_offset).unwrap_or(0));
+    } else if matches!(src_ops.kind(), DTypeKind::Complex64 | DTypeKind::Complex128) {
+        let (re, im) = src_ops.read_complex(src, byte_offset).unwrap_or((0.0, 0.0));
+        dst_ops.write_complex(dst, idx, re, im);
+    } else {
+        dst_ops.write_f64(dst, idx, src_ops.read_f64(src, byte_offset).unwrap_or(0.0));
+    }
+}
+
 /// Compute C-order (row-major) strides for given shape and itemsize.
 pub fn compute_c_strides(shape: &[usize], itemsize: usize) -> Vec<isize> {
     if shape.is_empty() {
-- 
2.43.0


From 9037de89f7a9bfe2755266b2d9a44184a0bbc22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:05 +0000
Subject: [PATCH 08/56] fix: item assignment lost precision, ignored
 broadcasting and corrupted overlapping copies

---
 src/python/pyarray/dunder_item.rs | 41 ++++----------
 src/python/pyarray/mod.rs         | 90 +++++++++++++++++++------------
 2 files changed, 67 insertions(+), 64 deletions(-)

diff --git a/src/python/pyarray/dunder_item.rs b/src/python/pyarray/dunder_item.rs
index fe69930..25eb4d8 100644
--- a/src/python/pyarray/dunder_item.rs
+++ b/src/python/pyarray/dunder_item.rs
@@ -182,10 +182,6 @@ impl PyRumpyArray {
 
     /// Item assignment (slice or element).
     fn __setitem__(&mut self, key: &Bound<'_, PyAny>, value: &Bound<'_, PyAny>) -> PyResult<()> {
-        // Extract value as scalar or array
-        let value_scalar = value.extract::<f64>().ok();
-        let value_array = value.extract::<PyRef<'_, PyRumpyArray>>().ok();
-
         // Handle tuple for multi-dimensional indexing
         if let Ok(tuple) = key.downcast::<PyTuple>() {
             // Check if all indices are integers (single element assignment)
@@ -202,14 +198,11 @@ impl PyRumpyArray {
                     })
                     .collect::<PyResult<_>>()?;
 
-                if let Some(scalar) = value_scalar {
-                    self.inner.set_element(&indices, scalar);
-                    return Ok(());
-                } else {
-                    return Err(pyo3::exceptions::PyTypeError::new_err(
-                        "can only assign scalar to single element",
-                    ));
+                let mut view = self.inner.clone();
+                for idx in indices {
+                    view = view.slice_axis(0, idx as isize, idx as isize + 1, 1).squeeze_axis(0);
                 }
+                return fill_view(&mut view, value);
             }
 
             // Slice assignment - get view and fill
@@ -224,8 +217,8 @@ impl PyRumpyArray {
                 }
                 if let Ok(idx) = item.extract::<isize>() {
                     let idx = normalize_index(idx, view.shape()[axis])?;
-                    view = view.slice_axis(axis, idx as isize, idx as isize + 1, 1);
-                    axis += 1;
+                    // An integer index removes its axis
+                    view = view.slice_axis(axis, idx as isize, idx as isize + 1, 1).squeeze_axis(axis);
                 } else if let Ok(slice) = item.downcast::<PySlice>() {
                     let (start, stop, step) = extract_slice_indices(slice, view.shape()[axis])?;
                     view = view.slice_axis(axis, start, stop, step);
@@ -237,35 +230,23 @@ impl PyRumpyArray {
                 }
             }
 
-            return fill_view(&mut view, value_scalar, value_array.as_deref());
+            return fill_view(&mut view, value);
         }
 
         // Handle single integer index (row assignment for 2D+, or single element for 1D)
         if let Ok(idx) = key.extract::<isize>() {
             let idx = normalize_index(idx, first_axis_len(&self.inner)?)?;
 
-            if self.inner.ndim() == 1 {
-                // Single element in 1D array
-                if let Some(scalar) = value_scalar {
-                    self.inner.set_element(&[idx], scalar);
-                    return Ok(());
-                } else {
-                    return Err(pyo3::exceptions::PyTypeError::new_err(
-                        "can only assign scalar to single element",
-                    ));
-                }
-            } else {
-                // Row/slice assignment
-                let mut view = self.inner.slice_axis(0, idx as isize, idx as isize + 1, 1);
-                return fill_view(&mut view, value_scalar, value_array.as_deref());
-            }
+            // An integer index removes its axis
+            let mut view = self.inner.slice_axis(0, idx as isize, idx as isize + 1, 1).squeeze_axis(0);
+            return fill_view(&mut view, value);
         }
 
         // Handle single slice
         if let Ok(slice) = key.downcast::<PySlice>() {
             let (start, stop, step) = extract_slice_indices(slice, first_axis_len(&self.inner)?)?;
             let mut view = self.inner.slice_axis(0, start, stop, step);
-            return fill_view(&mut view, value_scalar, value_array.as_deref());
+            return fill_view(&mut view, value);
         }
 
         Err(pyo3::exceptions::PyTypeError::new_err(
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 8026177..fcf3258 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -1164,43 +1164,65 @@ fn expand_ellipsis(tuple: &Bound<'_, PyTuple>, ndim: usize) -> PyResult<Vec<Inde
     Ok(items)
 }
 
-/// Fill a view with a scalar or array value.
-fn fill_view(
-    view: &mut RumpyArray,
-    scalar: Option<f64>,
-    array: Option<&PyRumpyArray>,
-) -> PyResult<()> {
-    use crate::array::increment_indices;
-
-    if let Some(val) = scalar {
-        // Fill with scalar
-        let mut indices = vec![0usize; view.ndim()];
-        let shape = view.shape().to_vec();
-        for _ in 0..view.size() {
-            view.set_element(&indices, val);
-            increment_indices(&mut indices, &shape);
-        }
-        Ok(())
-    } else if let Some(src) = array {
-        // Copy from array (shapes must match)
-        if view.shape() != src.inner.shape() {
-            return Err(pyo3::exceptions::PyValueError::new_err(
-                "could not broadcast input array to shape",
-            ));
-        }
-        let mut indices = vec![0usize; view.ndim()];
-        let shape = view.shape().to_vec();
-        for _ in 0..view.size() {
-            let val = src.inner.get_element(&indices);
-            view.set_element(&indices, val);
-            increment_indices(&mut indices, &shape);
-        }
-        Ok(())
+/// Fill a view with values from scalar or array (NumPy assignment rules: the value is
+/// converted to the view's dtype and broadcast to its shape).
+fn fill_view(view: &mut RumpyArray, value: &Bound<'_, PyAny>) -> PyResult<()> {
+    let dtype = view.dtype();
+    let source = if let Ok(arr) = value.extract::<PyRef<'_, PyRumpyArray>>() {
+        // The contiguous copy keeps overlapping source and target apart.
+        arr.inner.astype(dtype.clone())
     } else {
-        Err(pyo3::exceptions::PyTypeError::new_err(
+        scalar_array(value, &dtype)?
+    };
+
+    // Leading length-1 axes of the value may be dropped
+    let mut source = source;
+    while source.ndim() > view.ndim() && source.shape()[0] == 1 {
+        source = source.squeeze_axis(0);
+    }
+    let source = source.broadcast_to(view.shape()).ok_or_else(|| {
+        pyo3::exceptions::PyValueError::new_err("could not broadcast input array to shape")
+    })?;
+
+    let src_ptr = source.data_ptr();
+    let dst_ptr = view.data_ptr() as *mut u8;
+    for (src_offset, dst_offset) in source.iter_offsets().zip(view.iter_offsets()) {
+        unsafe { dtype.ops().copy_element(src_ptr, src_offset, dst_ptr.offset(dst_offset), 0); }
+    }
+    Ok(())
+}
+
+/// Build a 0-d array of the given dtype from a Python number.
+fn scalar_array(value: &Bound<'_, PyAny>, dtype: &DType) -> PyResult<RumpyArray> {
+    let mut arr = RumpyArray::zeros(vec![], dtype.clone());
+    let ptr = arr.data_ptr_mut();
+    let ops = dtype.ops();
+    let in_range = |v: i64| {
+        let bits = 8 * dtype.itemsize() as u32;
+        let unsigned = matches!(dtype.kind(), DTypeKind::Uint8 | DTypeKind::Uint16 | DTypeKind::Uint32 | DTypeKind::Uint64);
+        dtype.is_integer()
+            && if unsigned { v >= 0 && (bits == 64 || v >> bits == 0) } else { bits == 64 || (v >> (bits - 1)) == (v >> 63) }
+    };
+    let exact = if dtype.kind() == DTypeKind::Uint64 {
+        value.extract::<u64>().ok().map(|v| v as i64)
+    } else {
+        value.extract::<i64>().ok().filter(|&v| in_range(v))
+    };
+    if let Some(v) = exact {
+        unsafe { ops.write_i64(ptr, 0, v); }
+    } else if let Ok(v) = value.extract::<f64>() {
+        unsafe { ops.write_f64(ptr, 0, v); }
+    } else if let (Ok(c), DTypeKind::Complex64 | DTypeKind::Complex128) =
+        (value.downcast::<pyo3::types::PyComplex>(), dtype.kind())
+    {
+        use pyo3::types::PyComplexMethods;
+        unsafe { ops.write_complex(ptr, 0, c.real(), c.imag()); }
+    } else {
+        return Err(pyo3::exceptions::PyTypeError::new_err(
             "value must be a number or array",
-        ))
+        ));
     }
+    Ok(arr)
 }
 
 /// Check if an array qualifies for temporary elision (in-place buffer reuse).
-- 
2.43.0


From a8fac0172fcc9184aa4a2afb5fc7e9c30cfbe0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:44 +0000
Subject: [PATCH 09/56] fix: repeat, tile, roll, pad and concatenate moved
 elements through f64 or the wrong dtype

---
 src/array/manipulation.rs | 50 +++++++++++++++------------------------
 1 file changed, 19 insertions(+), 31 deletions(-)

diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index 1fce611..b783a1c 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -2,7 +2,7 @@
 
 use std::sync::Arc;
 
-use super::dtype::DType;
+use super::dtype::{promote_dtype, DType};
 use super::{increment_indices, RumpyArray};
 
 /// Concatenate arrays along an axis.
@@ -35,8 +35,11 @@ pub fn concatenate(arrays: &[RumpyArray], axis: usize) -> Option<RumpyArray> {
     let mut out_shape = first.shape().to_vec();
     out_shape[axis] = arrays.iter().map(|a| a.shape()[axis]).sum();
 
-    // Use dtype of first array (TODO: dtype promotion)
-    let dtype = first.dtype();
+    // Result dtype is the common dtype of all inputs
+    let mut dtype = first.dtype();
+    for arr in arrays.iter().skip(1) {
+        dtype = promote_dtype(&dtype, &arr.dtype());
+    }
     let mut result = RumpyArray::zeros(out_shape, dtype);
 
     if result.size() == 0 {
@@ -50,6 +53,13 @@ pub fn concatenate(arrays: &[RumpyArray], axis: usize) -> Option<RumpyArray> {
     // Copy data from each array
     let mut axis_offset = 0usize;
     for arr in arrays {
+        let converted;
+        let arr = if arr.dtype == result.dtype {
+            arr
+        } else {
+            converted = arr.astype(result.dtype());
+            &converted
+        };
         let size = arr.size();
         let src_ptr = arr.data_ptr();
         let mut src_indices = vec![0usize; ndim];
@@ -909,10 +919,6 @@ fn linear_index(indices: &[usize], shape: &[usize]) -> usize {
 /// Repeat elements of an array.
 /// If axis is None, flatten and repeat. Otherwise repeat along axis.
 pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<RumpyArray> {
-    if repeats == 0 {
-        return Some(RumpyArray::zeros(vec![0], arr.dtype()));
-    }
-
     match axis {
         None => {
             // Flatten and repeat each element
@@ -923,16 +929,13 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
 
             let src_ptr = arr.data_ptr();
             let src_ops = src_dtype.ops();
-            let dst_dtype = result.dtype();
             let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
             let dst_ptr = buffer.as_mut_ptr();
-            let dst_ops = dst_dtype.ops();
 
             let mut dst_idx = 0;
             for offset in arr.iter_offsets() {
-                let val = unsafe { src_ops.read_f64(src_ptr, offset) }.unwrap_or(0.0);
                 for _ in 0..repeats {
-                    unsafe { dst_ops.write_f64(dst_ptr, dst_idx, val); }
+                    unsafe { src_ops.copy_element(src_ptr, offset, dst_ptr, dst_idx); }
                     dst_idx += 1;
                 }
             }
@@ -953,10 +956,8 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
 
             let src_ptr = arr.data_ptr();
             let src_ops = src_dtype.ops();
-            let dst_dtype = result.dtype();
             let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
             let dst_ptr = buffer.as_mut_ptr();
-            let dst_ops = dst_dtype.ops();
 
             // Iterate through source indices and write repeated values
             let src_shape = arr.shape();
@@ -966,7 +967,6 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
             let size = arr.size();
             for _ in 0..size {
                 let src_offset = arr.byte_offset_for(&src_indices);
-                let val = unsafe { src_ops.read_f64(src_ptr, src_offset) }.unwrap_or(0.0);
 
                 // Write this value `repeats` times along the axis
                 dst_indices.copy_from_slice(&src_indices);
@@ -974,7 +974,7 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
                 for r in 0..repeats {
                     dst_indices[axis] = base_axis_idx + r;
                     let dst_offset = linear_index(&dst_indices, &new_shape);
-                    unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+                    unsafe { src_ops.copy_element(src_ptr, src_offset, dst_ptr, dst_offset); }
                 }
 
                 increment_indices(&mut src_indices, src_shape);
@@ -1037,10 +1037,8 @@ pub fn tile(arr: &RumpyArray, reps: &[usize]) -> RumpyArray {
 
     let src_ptr = arr.data_ptr();
     let src_ops = src_dtype.ops();
-    let dst_dtype = result.dtype();
     let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
     let dst_ptr = buffer.as_mut_ptr();
-    let dst_ops = dst_dtype.ops();
 
     // Iterate through destination indices
     let mut dst_indices = vec![0usize; max_ndim];
@@ -1061,11 +1059,10 @@ pub fn tile(arr: &RumpyArray, reps: &[usize]) -> RumpyArray {
             src_indices
         };
         let src_byte_offset = arr.byte_offset_for(&actual_src_indices);
-        let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
 
         // Destination offset (result is C-contiguous, so use linear index)
         let dst_offset = linear_index(&dst_indices, &new_shape);
-        unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+        unsafe { src_ops.copy_element(src_ptr, src_byte_offset, dst_ptr, dst_offset); }
 
         // Increment destination indices
         if i + 1 < dst_size {
@@ -1214,10 +1211,8 @@ pub fn pad(arr: &RumpyArray, pad_width: &[(usize, usize)], mode: &str, constant_
             let src_dtype = arr.dtype();
             let mut result = RumpyArray::zeros(new_shape.clone(), src_dtype.clone());
             let src_ops = src_dtype.ops();
-            let dst_dtype = result.dtype();
             let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
             let dst_ptr = buffer.as_mut_ptr();
-            let dst_ops = dst_dtype.ops();
 
             let mut dst_indices = vec![0usize; ndim];
             let dst_size: usize = new_shape.iter().product();
@@ -1236,9 +1231,8 @@ pub fn pad(arr: &RumpyArray, pad_width: &[(usize, usize)], mode: &str, constant_
                     .collect();
 
                 let src_byte_offset = arr.byte_offset_for(&src_indices);
-                let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
                 let dst_offset = linear_index(&dst_indices, &new_shape);
-                unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+                unsafe { src_ops.copy_element(src_ptr, src_byte_offset, dst_ptr, dst_offset); }
 
                 increment_indices(&mut dst_indices, &new_shape);
             }
@@ -1257,10 +1251,8 @@ fn copy_region(src: &RumpyArray, dst: &mut RumpyArray, pad_width: &[(usize, usiz
     let src_ptr = src.data_ptr();
     let src_dtype = src.dtype();
     let src_ops = src_dtype.ops();
-    let dst_dtype = dst.dtype();
     let buffer = Arc::get_mut(dst.buffer_mut()).expect("unique");
     let dst_ptr = buffer.as_mut_ptr();
-    let dst_ops = dst_dtype.ops();
 
     let mut src_indices = vec![0usize; ndim];
     let src_size = src.size();
@@ -1273,10 +1265,9 @@ fn copy_region(src: &RumpyArray, dst: &mut RumpyArray, pad_width: &[(usize, usiz
             .collect();
 
         let src_byte_offset = src.byte_offset_for(&src_indices);
-        let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
 
         let dst_offset = linear_index(&dst_indices, dst_shape);
-        unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+        unsafe { src_ops.copy_element(src_ptr, src_byte_offset, dst_ptr, dst_offset); }
 
         increment_indices(&mut src_indices, src_shape);
     }
@@ -1354,10 +1345,8 @@ pub fn roll(arr: &RumpyArray, shift: isize, axis: Option<isize>) -> RumpyArray {
             let mut result = RumpyArray::zeros(result_shape.clone(), src_dtype.clone());
             let src_ptr = arr.data_ptr();
             let src_ops = src_dtype.ops();
-            let dst_dtype = result.dtype();
             let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
             let dst_ptr = buffer.as_mut_ptr();
-            let dst_ops = dst_dtype.ops();
 
             let mut dst_indices = vec![0usize; ndim];
             let size = arr.size();
@@ -1368,10 +1357,9 @@ pub fn roll(arr: &RumpyArray, shift: isize, axis: Option<isize>) -> RumpyArray {
                 src_indices[axis] = (dst_indices[axis] + axis_len - shift) % axis_len;
 
                 let src_byte_offset = arr.byte_offset_for(&src_indices);
-                let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
 
                 let dst_offset = linear_index(&dst_indices, &result_shape);
-                unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+                unsafe { src_ops.copy_element(src_ptr, src_byte_offset, dst_ptr, dst_offset); }
 
                 increment_indices(&mut dst_indices, arr.shape());
             }
-- 
2.43.0


From 9ebc400449838fb0270fcbb4e9e3958abded4d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:20 +0000
Subject: [PATCH 10/56] fix: insert and delete positions out of range, scalar
 insert along an axis, edge padding of empty arrays

---
 src/array/manipulation.rs | 40 +++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index b783a1c..1b7f5dd 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -1101,6 +1101,12 @@ pub fn append(arr: &RumpyArray, values: &RumpyArray, axis: Option<isize>) -> Opt
     }
 }
 
+/// Resolve a possibly negative position (counted from `len`) that must lie in `0..bound`.
+fn normalize_position(index: isize, len: usize, bound: usize) -> Option<usize> {
+    let idx = if index < 0 { index + len as isize } else { index };
+    (idx >= 0 && (idx as usize) < bound).then_some(idx as usize)
+}
+
 /// Insert values into array at given index.
 /// If axis is None, flatten first.
 pub fn insert(arr: &RumpyArray, index: isize, values: &RumpyArray, axis: Option<isize>) -> Option<RumpyArray> {
@@ -1109,13 +1115,12 @@ pub fn insert(arr: &RumpyArray, index: isize, values: &RumpyArray, axis: Option<
             // Flatten
             let flat = ravel_arr(arr);
             let size = flat.size();
-            let idx = if index < 0 { (size as isize + index + 1).max(0) as usize } else { index as usize };
-            let idx = idx.min(size);
+            let idx = normalize_position(index, size, size + 1)?;
 
             // Split at index, insert, concatenate
             let before = if idx > 0 { flat.slice_axis(0, 0, idx as isize, 1) } else { RumpyArray::zeros(vec![0], arr.dtype()) };
             let after = if idx < size { flat.slice_axis(0, idx as isize, size as isize, 1) } else { RumpyArray::zeros(vec![0], arr.dtype()) };
-            let flat_vals = ravel_arr(values);
+            let flat_vals = ravel_arr(values).astype(arr.dtype());
 
             concatenate(&[before, flat_vals, after], 0)
         }
@@ -1127,16 +1132,22 @@ pub fn insert(arr: &RumpyArray, index: isize, values: &RumpyArray, axis: Option<
             }
 
             let axis_len = arr.shape()[axis];
-            let idx = if index < 0 { (axis_len as isize + index + 1).max(0) as usize } else { index as usize };
-            let idx = idx.min(axis_len);
+            let idx = normalize_position(index, axis_len, axis_len + 1)?;
 
             let before = arr.slice_axis(axis, 0, idx as isize, 1);
             let after = arr.slice_axis(axis, idx as isize, axis_len as isize, 1);
 
-            // Values need to be reshaped to match
+            // Values need to be reshaped (or broadcast) to match
             let mut val_shape = arr.shape().to_vec();
-            val_shape[axis] = values.size() / (arr.size() / axis_len).max(1);
-            let vals_reshaped = values.reshape(val_shape).unwrap_or_else(|| values.clone());
+            val_shape[axis] = 1;
+            let slab: usize = val_shape.iter().product();
+            let values = values.astype(arr.dtype());
+            let vals_reshaped = if slab > 0 && values.size() % slab == 0 {
+                val_shape[axis] = values.size() / slab;
+                values.reshape(val_shape)?
+            } else {
+                values.broadcast_to(&val_shape)?
+            };
 
             concatenate(&[before, vals_reshaped, after], axis)
         }
@@ -1153,10 +1164,7 @@ pub fn delete(arr: &RumpyArray, index: isize, axis: Option<isize>) -> Option<Rum
             if size == 0 {
                 return Some(flat);
             }
-            let idx = if index < 0 { (size as isize + index).max(0) as usize } else { index as usize };
-            if idx >= size {
-                return Some(flat);
-            }
+            let idx = normalize_position(index, size, size)?;
 
             let before = if idx > 0 { flat.slice_axis(0, 0, idx as isize, 1) } else { RumpyArray::zeros(vec![0], arr.dtype()) };
             let after = if idx + 1 < size { flat.slice_axis(0, (idx + 1) as isize, size as isize, 1) } else { RumpyArray::zeros(vec![0], arr.dtype()) };
@@ -1174,10 +1182,7 @@ pub fn delete(arr: &RumpyArray, index: isize, axis: Option<isize>) -> Option<Rum
             if axis_len == 0 {
                 return Some(arr.clone());
             }
-            let idx = if index < 0 { (axis_len as isize + index).max(0) as usize } else { index as usize };
-            if idx >= axis_len {
-                return Some(arr.clone());
-            }
+            let idx = normalize_position(index, axis_len, axis_len)?;
 
             let before = arr.slice_axis(axis, 0, idx as isize, 1);
             let after = arr.slice_axis(axis, (idx + 1) as isize, axis_len as isize, 1);
@@ -1208,6 +1213,9 @@ pub fn pad(arr: &RumpyArray, pad_width: &[(usize, usize)], mode: &str, constant_
             Some(result)
         }
         "edge" => {
+            if arr.size() == 0 {
+                return None; // No edge values to extend
+            }
             let src_dtype = arr.dtype();
             let mut result = RumpyArray::zeros(new_shape.clone(), src_dtype.clone());
             let src_ops = src_dtype.ops();
-- 
2.43.0


From 69d66a3e2a1b46206d4ba40404937a2dad848130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:39 +0000
Subject: [PATCH 11/56] fix: gufunc products (matmul, inner, outer, dot, diag)
 mishandled dtypes, batch broadcasting and result axes

---
 src/ops/dot.rs        |   8 +--
 src/ops/gufunc/mod.rs |  23 +++++++--
 src/ops/inner.rs      |  49 ++++++++++++++++---
 src/ops/linalg.rs     |  19 ++------
 src/ops/matmul.rs     | 110 ++++++++++++------------------------------
 src/ops/outer.rs      |  12 +++--
 6 files changed, 104 insertions(+), 117 deletions(-)

diff --git a/src/ops/dot.rs b/src/ops/dot.rs
index 47bf4db..5615f0a 100644
--- a/src/ops/dot.rs
+++ b/src/ops/dot.rs
@@ -6,6 +6,7 @@
 //! - 1D × 2D or 2D × 1D: vector-matrix product
 
 use crate::array::RumpyArray;
+use crate::ops::inner::inner;
 use crate::ops::matmul::matmul;
 
 /// Dot product with numpy semantics.
@@ -18,12 +19,7 @@ pub fn dot(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
             if a.shape()[0] != b.shape()[0] {
                 return None;
             }
-            let mut sum = 0.0;
-            for i in 0..a.shape()[0] {
-                sum += a.get_element(&[i]) * b.get_element(&[i]);
-            }
-            // Return as 0D array (scalar)
-            Some(RumpyArray::full(vec![], sum, a.dtype()))
+            inner(a, b)?.reshape(vec![])
         }
         (0, _) => {
             // Scalar × array: element-wise
diff --git a/src/ops/gufunc/mod.rs b/src/ops/gufunc/mod.rs
index 83721a8..103a45e 100644
--- a/src/ops/gufunc/mod.rs
+++ b/src/ops/gufunc/mod.rs
@@ -49,6 +49,23 @@ pub fn gufunc_call<K: GufuncKernel>(
         .reduce(|a, b| promote_dtype(&a, &b))
         .unwrap_or_else(|| inputs[0].dtype());
 
+    // Kernels work on one dtype, and loop dimensions align from the right: convert and
+    // broadcast every input to the full loop shape (core dimensions unchanged).
+    let loop_ndim = dims.loop_shape.len();
+    let inputs: Vec<RumpyArray> = inputs
+        .iter()
+        .enumerate()
+        .map(|(i, arr)| {
+            let mut shape = dims.loop_shape.clone();
+            shape.extend_from_slice(&arr.shape()[dims.input_loop_ndims[i]..]);
+            if arr.dtype() == output_dtype {
+                arr.broadcast_to(&shape)
+            } else {
+                arr.astype(output_dtype.clone()).broadcast_to(&shape)
+            }
+        })
+        .collect::<Option<_>>()?;
+
     // Allocate outputs
     let outputs: Vec<RumpyArray> = (0..sig.num_outputs())
         .map(|i| {
@@ -65,15 +82,13 @@ pub fn gufunc_call<K: GufuncKernel>(
         // Extract input core sub-arrays
         let input_cores: Vec<RumpyArray> = inputs
             .iter()
-            .enumerate()
-            .map(|(i, arr)| arr.gufunc_subarray(&loop_indices, dims.input_loop_ndims[i]))
+            .map(|arr| arr.gufunc_subarray(&loop_indices, loop_ndim))
             .collect();
 
         // Extract output core sub-arrays
-        let output_loop_ndim = dims.loop_shape.len();
         let mut output_cores: Vec<RumpyArray> = outputs
             .iter()
-            .map(|arr| arr.gufunc_subarray(&loop_indices, output_loop_ndim))
+            .map(|arr| arr.gufunc_subarray(&loop_indices, loop_ndim))
             .collect();
 
         // Call kernel
diff --git a/src/ops/inner.rs b/src/ops/inner.rs
index 6950523..83a4521 100644
--- a/src/ops/inner.rs
+++ b/src/ops/inner.rs
@@ -2,7 +2,8 @@
 //!
 //! Implements inner product with signature "(n),(n)->()".
 
-use crate::array::RumpyArray;
+use crate::array::dtype::{BinaryOp, ReduceOp};
+use crate::array::{DType, DTypeKind, RumpyArray};
 use crate::ops::gufunc::{gufunc_call, GufuncKernel, GufuncSignature};
 
 /// Inner product kernel.
@@ -33,16 +34,48 @@ impl GufuncKernel for InnerKernel {
         let n = a.shape()[0];
 
         // Inner product: sum_i a[i] * b[i]
-        let mut sum = 0.0;
-        for i in 0..n {
-            sum += a.get_element(&[i]) * b.get_element(&[i]);
+        unsafe {
+            dot_strided(
+                &c.dtype(),
+                a.data_ptr(), a.strides()[0],
+                b.data_ptr(), b.strides()[0],
+                n,
+                c.data_ptr() as *mut u8,
+            );
         }
+    }
+}
 
-        // Write scalar result
-        let c_ptr = c.data_ptr() as *mut f64;
-        unsafe {
-            *c_ptr = sum;
+/// Write sum_i a[i] * b[i] to `out` (all three of the given dtype).
+///
+/// Real floats accumulate in f64; every other dtype uses its own arithmetic.
+///
+/// # Safety
+/// The strided inputs and the output element must be valid for `dtype`.
+pub(crate) unsafe fn dot_strided(
+    dtype: &DType,
+    a: *const u8, a_stride: isize,
+    b: *const u8, b_stride: isize,
+    n: usize,
+    out: *mut u8,
+) {
+    let ops = dtype.ops();
+    if matches!(dtype.kind(), DTypeKind::Float16 | DTypeKind::Float32 | DTypeKind::Float64) {
+        let mut sum = 0.0;
+        for i in 0..n as isize {
+            let av = ops.read_f64(a, i * a_stride).unwrap_or(0.0);
+            let bv = ops.read_f64(b, i * b_stride).unwrap_or(0.0);
+            sum += av * bv;
         }
+        ops.write_f64(out, 0, sum);
+        return;
+    }
+    let mut product = [0u64; 2]; // scratch for one element (at most 16 bytes)
+    let product = product.as_mut_ptr() as *mut u8;
+    ops.write_zero(out, 0);
+    for i in 0..n as isize {
+        ops.binary_op(BinaryOp::Mul, a, i * a_stride, b, i * b_stride, product, 0);
+        ops.reduce_acc(ReduceOp::Sum, out, 0, product, 0);
     }
 }
 
diff --git a/src/ops/linalg.rs b/src/ops/linalg.rs
index 75342a4..cb72246 100644
--- a/src/ops/linalg.rs
+++ b/src/ops/linalg.rs
@@ -391,27 +391,16 @@ pub fn diag(a: &RumpyArray) -> Option<RumpyArray> {
     match a.ndim() {
         1 => {
             // Create diagonal matrix from 1D array
-            let n = a.shape()[0];
-            let result = RumpyArray::zeros(vec![n, n], a.dtype());
-            for i in 0..n {
-                let val = a.get_element(&[i]);
-                unsafe {
-                    let ptr = result.data_ptr().add((i * n + i) * 8) as *mut f64;
-                    *ptr = val;
-                }
-            }
-            Some(result)
+            Some(crate::array::diagflat(a, 0))
         }
         2 => {
             // Extract diagonal from 2D matrix
             let n = a.shape()[0].min(a.shape()[1]);
             let result = RumpyArray::zeros(vec![n], a.dtype());
+            let dtype = a.dtype();
             for i in 0..n {
-                let val = a.get_element(&[i, i]);
-                unsafe {
-                    let ptr = result.data_ptr().add(i * 8) as *mut f64;
-                    *ptr = val;
-                }
+                let src_offset = a.byte_offset_for(&[i, i]);
+                unsafe { dtype.ops().copy_element(a.data_ptr(), src_offset, result.data_ptr() as *mut u8, i); }
             }
             Some(result)
         }
diff --git a/src/ops/matmul.rs b/src/ops/matmul.rs
index aa195ff..88c59fd 100644
--- a/src/ops/matmul.rs
+++ b/src/ops/matmul.rs
@@ -5,6 +5,7 @@
 
 use crate::array::{DType, RumpyArray};
 use crate::ops::gufunc::{gufunc_call, GufuncKernel, GufuncSignature};
+use crate::ops::inner::dot_strided;
 
 // Link BLAS when accelerate feature is enabled
 #[cfg(feature = "accelerate")]
@@ -133,80 +134,26 @@ impl GufuncKernel for MatmulKernel {
             matmul_faer_c32(a, b, c, m, n, p);
         } else if dtype == DType::complex128() {
             matmul_faer_c64(a, b, c, m, n, p);
-        } else if dtype == DType::int64() {
-            matmul_generic::<i64>(a, b, c, m, n, p);
-        } else if dtype == DType::int32() {
-            matmul_generic::<i32>(a, b, c, m, n, p);
-        } else if dtype == DType::bool() {
-            matmul_bool(a, b, c, m, n, p);
         } else {
-            // Unsupported dtype - zero output
+            matmul_generic(a, b, c, m, n, p);
         }
     }
 }
 
-/// Bool matmul: C[i,j] = any(A[i,k] AND B[k,j] for all k)
-fn matmul_bool(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n: usize, p: usize) {
-    let a_row_stride = a.strides()[0] as usize;
-    let a_col_stride = a.strides()[1] as usize;
-    let b_row_stride = b.strides()[0] as usize;
-    let b_col_stride = b.strides()[1] as usize;
-    let c_row_stride = c.strides()[0] as usize;
-    let c_col_stride = c.strides()[1] as usize;
-
-    let a_ptr = a.data_ptr();
-    let b_ptr = b.data_ptr();
+/// Generic matmul for the remaining dtypes (no BLAS/faer support)
+fn matmul_generic(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n: usize, p: usize) {
+    let dtype = c.dtype();
     let c_ptr = c.data_ptr() as *mut u8;
-
-    for i in 0..m {
-        for j in 0..p {
-            let mut result = false;
-            for k in 0..n {
-                unsafe {
-                    let a_val = *a_ptr.add(i * a_row_stride + k * a_col_stride) != 0;
-                    let b_val = *b_ptr.add(k * b_row_stride + j * b_col_stride) != 0;
-                    if a_val && b_val {
-                        result = true;
-                        break; // Short-circuit: any true is enough
-                    }
-                }
-            }
+    for i in 0..m as isize {
+        for j in 0..p as isize {
             unsafe {
-                *c_ptr.add(i * c_row_stride + j * c_col_stride) = result as u8;
-            }
-        }
-    }
-}
-
-/// Generic matmul for integer types (no BLAS/faer support)
-fn matmul_generic<T>(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n: usize, p: usize)
-where
-    T: Copy + Default + std::ops::Add<Output = T> + std::ops::Mul<Output = T>,
-{
-    let elem_size = std::mem::size_of::<T>() as isize;
-    let a_row_stride = (a.strides()[0] / elem_size) as usize;
-    let a_col_stride = (a.strides()[1] / elem_size) as usize;
-    let b_row_stride = (b.strides()[0] / elem_size) as usize;
-    let b_col_stride = (b.strides()[1] / elem_size) as usize;
-    let c_row_stride = (c.strides()[0] / elem_size) as usize;
-    let c_col_stride = (c.strides()[1] / elem_size) as usize;
-
-    let a_ptr = a.data_ptr() as *const T;
-    let b_ptr = b.data_ptr() as *const T;
-    let c_ptr = c.data_ptr() as *mut T;
-
-    for i in 0..m {
-        for j in 0..p {
-            let mut sum = T::default();
-            for k in 0..n {
-                unsafe {
-                    let a_val = *a_ptr.add(i * a_row_stride + k * a_col_stride);
-                    let b_val = *b_ptr.add(k * b_row_stride + j * b_col_stride);
-                    sum = sum + a_val * b_val;
-                }
-            }
-            unsafe {
-                *c_ptr.add(i * c_row_stride + j * c_col_stride) = sum;
+                dot_strided(
+                    &dtype,
+                    a.data_ptr().offset(i * a.strides()[0]), a.strides()[1],
+                    b.data_ptr().offset(j * b.strides()[1]), b.strides()[0],
+                    n,
+                    c_ptr.offset(i * c.strides()[0] + j * c.strides()[1]),
+                );
             }
         }
     }
@@ -356,22 +303,25 @@ fn matmul_faer_c64(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n:
 /// ```
 pub fn matmul(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
     // Handle 1D inputs by expanding dims
-    let (a_expanded, b_expanded, squeeze_result) = expand_for_matmul(a, b)?;
+    let (a_expanded, b_expanded) = expand_for_matmul(a, b)?;
 
     let kernel = MatmulKernel::new();
     let mut results = gufunc_call(&kernel, &[&a_expanded, &b_expanded])?;
 
-    let result = results.pop()?;
+    let mut result = results.pop()?;
 
-    // Squeeze result if we expanded inputs
-    if squeeze_result {
-        Some(result.squeeze())
-    } else {
-        Some(result)
+    // Drop exactly the axes added by the expansion
+    if b.ndim() == 1 {
+        result = result.squeeze_axis(result.ndim() - 1);
+    }
+    if a.ndim() == 1 {
+        let row_axis = result.ndim() - if b.ndim() == 1 { 1 } else { 2 };
+        result = result.squeeze_axis(row_axis);
     }
+    Some(result)
 }
 
-/// Expand 1D arrays for matmul and return whether to squeeze result.
+/// Expand 1D arrays for matmul.
 ///
 /// NumPy semantics:
 /// - 1D @ 1D -> scalar (inner product)
@@ -380,7 +330,7 @@ pub fn matmul(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
 fn expand_for_matmul(
     a: &RumpyArray,
     b: &RumpyArray,
-) -> Option<(RumpyArray, RumpyArray, bool)> {
+) -> Option<(RumpyArray, RumpyArray)> {
     let a_ndim = a.ndim();
     let b_ndim = b.ndim();
 
@@ -390,23 +340,23 @@ fn expand_for_matmul(
             // Expand to (1, n) @ (n, 1) -> (1, 1), then squeeze
             let a_exp = a.expand_dims(0)?;
             let b_exp = b.expand_dims(1)?;
-            Some((a_exp, b_exp, true))
+            Some((a_exp, b_exp))
         }
         (1, _) => {
             // (n,) @ (..., n, p) -> (..., p)
             // Expand to (1, n) @ (..., n, p) -> (..., 1, p), squeeze axis -2
             let a_exp = a.expand_dims(0)?;
-            Some((a_exp, b.clone(), true))
+            Some((a_exp, b.clone()))
         }
         (_, 1) => {
             // (..., m, n) @ (n,) -> (..., m)
             // Expand to (..., m, n) @ (n, 1) -> (..., m, 1), squeeze last
             let b_exp = b.expand_dims(1)?;
-            Some((a.clone(), b_exp, true))
+            Some((a.clone(), b_exp))
         }
         _ => {
             // Standard 2D+ case
-            Some((a.clone(), b.clone(), false))
+            Some((a.clone(), b.clone()))
         }
     }
 }
diff --git a/src/ops/outer.rs b/src/ops/outer.rs
index 0c31abe..65f6374 100644
--- a/src/ops/outer.rs
+++ b/src/ops/outer.rs
@@ -2,6 +2,7 @@
 //!
 //! Implements outer product with signature "(m),(n)->(m,n)".
 
+use crate::array::dtype::BinaryOp;
 use crate::array::RumpyArray;
 use crate::ops::gufunc::{gufunc_call, GufuncKernel, GufuncSignature};
 
@@ -36,16 +37,19 @@ impl GufuncKernel for OuterKernel {
         let c_ptr = c.data_ptr() as *mut u8;
         let c_stride_0 = c.strides()[0];
         let c_stride_1 = c.strides()[1];
+        let dtype = c.dtype();
 
         // Outer product: c[i,j] = a[i] * b[j]
         for i in 0..m {
-            let ai = a.get_element(&[i]);
             for j in 0..n {
-                let bj = b.get_element(&[j]);
                 let byte_offset = (i as isize) * c_stride_0 + (j as isize) * c_stride_1;
                 unsafe {
-                    let dst = c_ptr.offset(byte_offset);
-                    *(dst as *mut f64) = ai * bj;
+                    dtype.ops().binary_op(
+                        BinaryOp::Mul,
+                        a.data_ptr(), (i as isize) * a.strides()[0],
+                        b.data_ptr(), (j as isize) * b.strides()[0],
+                        c_ptr.offset(byte_offset), 0,
+                    );
                 }
             }
         }
-- 
2.43.0


From 12bb1d84feeeeb038c05d34e4147a407e0532451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:52 +0000
Subject: [PATCH 12/56] fix: take and integer-array indexing out-of-bounds
 accesses and index-array result shapes

---
 src/array/mod.rs    | 14 ++++++++------
 src/ops/indexing.rs | 34 +++++++++++++++++++++++++---------
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/array/mod.rs b/src/array/mod.rs
index 809364a..bad1979 100644
--- a/src/array/mod.rs
+++ b/src/array/mod.rs
@@ -296,12 +296,9 @@ impl RumpyArray {
         out_shape[0] = num_indices;
 
         let mut result = Self::zeros(out_shape, self.dtype());
-        if num_indices == 0 {
-            return Some(result);
-        }
 
         let axis_len = self.shape()[0];
-        let slice_size: usize = self.shape()[1..].iter().product::<usize>().max(1);
+        let slice_size: usize = self.shape()[1..].iter().product();
 
         let buffer = Arc::get_mut(&mut result.buffer).expect("buffer must be unique");
         let result_ptr = buffer.as_mut_ptr();
@@ -309,8 +306,10 @@ impl RumpyArray {
 
         let src_ptr = self.data_ptr();
         let mut idx_indices = vec![0usize; indices.ndim()];
+        let idx_ops = indices.dtype.ops();
         for i in 0..num_indices {
-            let idx_val = indices.get_element(&idx_indices) as isize;
+            let idx_offset = indices.byte_offset_for(&idx_indices);
+            let idx_val = unsafe { idx_ops.read_i64(indices.data_ptr(), idx_offset) }? as isize;
             let idx = if idx_val < 0 {
                 (axis_len as isize + idx_val) as usize
             } else {
@@ -342,7 +341,10 @@ impl RumpyArray {
             increment_indices(&mut idx_indices, indices.shape());
         }
 
-        Some(result)
+        // The index array's shape replaces the first dimension
+        let mut full_shape = indices.shape().to_vec();
+        full_shape.extend_from_slice(&self.shape()[1..]);
+        result.reshape(full_shape)
     }
 
     /// Create a contiguous copy of the array.
diff --git a/src/ops/indexing.rs b/src/ops/indexing.rs
index dc9e81a..8b3dc94 100644
--- a/src/ops/indexing.rs
+++ b/src/ops/indexing.rs
@@ -1,7 +1,7 @@
 //! Indexing operations: take, take_along_axis, compress, searchsorted, etc.
 
 use std::sync::Arc;
-use crate::array::{DType, RumpyArray};
+use crate::array::{promote_dtype, DType, RumpyArray};
 
 /// Normalize a potentially negative index.
 #[inline]
@@ -16,11 +16,19 @@ fn normalize_index(idx: isize, len: usize) -> Option<usize> {
 
 /// Take elements from an array along an axis.
 pub fn take(arr: &RumpyArray, indices: &RumpyArray, axis: Option<usize>) -> Option<RumpyArray> {
-    let axis = axis.unwrap_or(0);
+    let Some(axis) = axis else {
+        // No axis: index the flattened array
+        return take(&arr.reshape(vec![arr.size()])?, indices, Some(0));
+    };
     if axis >= arr.ndim() {
         return None;
     }
 
+    // The index array's shape replaces the axis in the result
+    let mut full_shape = arr.shape()[..axis].to_vec();
+    full_shape.extend_from_slice(indices.shape());
+    full_shape.extend_from_slice(&arr.shape()[axis + 1..]);
+
     let num_indices = indices.size();
     let axis_len = arr.shape()[axis];
 
@@ -30,7 +38,7 @@ pub fn take(arr: &RumpyArray, indices: &RumpyArray, axis: Option<usize>) -> Opti
 
     let result = RumpyArray::zeros(out_shape.clone(), arr.dtype());
     if num_indices == 0 {
-        return Some(result);
+        return result.reshape(full_shape);
     }
 
     // Pre-collect and validate indices
@@ -45,16 +53,16 @@ pub fn take(arr: &RumpyArray, indices: &RumpyArray, axis: Option<usize>) -> Opti
 
     // Fast path: 1D contiguous case
     if arr.ndim() == 1 && arr.is_c_contiguous() {
-        return take_1d_contiguous(arr, &index_values, result);
+        return take_1d_contiguous(arr, &index_values, result)?.reshape(full_shape);
     }
 
     // Fast path: take along axis 0 with contiguous source
     if axis == 0 && arr.is_c_contiguous() {
-        return take_axis0_contiguous(arr, &index_values, result);
+        return take_axis0_contiguous(arr, &index_values, result)?.reshape(full_shape);
     }
 
     // General path
-    take_general(arr, &index_values, axis, result)
+    take_general(arr, &index_values, axis, result)?.reshape(full_shape)
 }
 
 /// Fast path for 1D contiguous take - direct pointer indexing.
@@ -85,8 +93,8 @@ fn take_axis0_contiguous(arr: &RumpyArray, indices: &[usize], mut result: RumpyA
     let result_ptr = buffer.as_mut_ptr();
     let src_ptr = arr.data_ptr();
 
-    // Each "row" is stride[0] bytes (for contiguous, this is product of remaining dims * itemsize)
-    let row_bytes = arr.strides()[0] as usize;
+    // Each "row" is the product of the remaining dims (strides[0] is arbitrary when shape[0] == 1)
+    let row_bytes = arr.shape()[1..].iter().product::<usize>() * arr.itemsize();
 
     for (i, &idx) in indices.iter().enumerate() {
         unsafe {
@@ -594,7 +602,7 @@ pub fn choose(indices: &RumpyArray, choices: &[RumpyArray]) -> Option<RumpyArray
 
     let num_choices = choices.len();
     let out_shape = indices.shape().to_vec();
-    let out_dtype = choices[0].dtype();
+    let out_dtype = choices.iter().skip(1).fold(choices[0].dtype(), |d, c| promote_dtype(&d, &c.dtype()));
 
     for choice in choices {
         if choice.shape() != indices.shape() {
@@ -602,6 +610,14 @@ pub fn choose(indices: &RumpyArray, choices: &[RumpyArray]) -> Option<RumpyArray
         }
     }
 
+    let converted: Vec<RumpyArray>;
+    let choices = if choices.iter().all(|c| c.dtype() == out_dtype) {
+        choices
+    } else {
+        converted = choices.iter().map(|c| c.astype(out_dtype.clone())).collect();
+        &converted[..]
+    };
+
     let mut result = RumpyArray::zeros(out_shape.clone(), out_dtype);
     let result_size: usize = out_shape.iter().product();
     if result_size == 0 {
-- 
2.43.0


From 50ad0fd9cdef33d7f46ec734be74dc79c1ded483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:06 +0000
Subject: [PATCH 13/56] fix: argmax/argmin along a strided axis dereferenced a
 data byte as a pointer

---
 src/ops/array_methods/reductions.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index 3efff6c..9ec241f 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -601,8 +601,7 @@ macro_rules! impl_arg_axis {
                     let mut best_val = unsafe { *start };
                     let mut best_idx = 0i64;
                     for j in 1..axis_len {
-                        let v = unsafe { *(start as *const u8).offset(axis_stride * j as isize) as *const T };
-                        let v = unsafe { *v };
+                        let v = unsafe { *((start as *const u8).offset(axis_stride * j as isize) as *const T) };
                         if v $cmp best_val {
                             best_val = v;
                             best_idx = j as i64;
-- 
2.43.0


From b2d8f9d1f5de17b92ca44bbb5fd91748dc61bbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:28 +0000
Subject: [PATCH 14/56] fix: integer floor division, abs and shifts at the
 edges; nextafter below zero; NaN in max/min reductions

---
 src/array/dtype/float16.rs    |  4 ++--
 src/array/dtype/macros.rs     | 38 ++++++++++++++++++++---------------
 src/ops/kernels/arithmetic.rs | 30 ++++++++++++++++++---------
 src/ops/kernels/bitwise.rs    |  6 ++++--
 src/ops/kernels/math.rs       |  2 +-
 5 files changed, 49 insertions(+), 31 deletions(-)

diff --git a/src/array/dtype/float16.rs b/src/array/dtype/float16.rs
index e527191..e444904 100644
--- a/src/array/dtype/float16.rs
+++ b/src/array/dtype/float16.rs
@@ -149,8 +149,8 @@ impl DTypeOps for Float16Ops {
         let result = match op {
             ReduceOp::Sum => a + v,
             ReduceOp::Prod => a * v,
-            ReduceOp::Max => a.max(v),
-            ReduceOp::Min => a.min(v),
+            ReduceOp::Max => if v > a || v.is_nan() { v } else { a },
+            ReduceOp::Min => if v < a || v.is_nan() { v } else { a },
         };
         Self::write(acc, idx, f16::from_f32(result));
     }
diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index c9c715d..c5b0b18 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -130,11 +130,11 @@ macro_rules! impl_float_dtype {
                         } else if av64 < bv64 {
                             // Move toward positive
                             let bits = av.to_bits();
-                            <$T>::from_bits(if av >= 0.0 as $T { bits + 1 } else { bits - 1 })
+                            <$T>::from_bits(if av == 0.0 as $T { 1 } else if av > 0.0 as $T { bits + 1 } else { bits - 1 })
                         } else {
                             // Move toward negative
                             let bits = av.to_bits();
-                            <$T>::from_bits(if av > 0.0 as $T { bits - 1 } else { bits + 1 })
+                            if av == 0.0 as $T { -<$T>::from_bits(1) } else { <$T>::from_bits(if av > 0.0 as $T { bits - 1 } else { bits + 1 }) }
                         }
                     },
                 };
@@ -157,8 +157,8 @@ macro_rules! impl_float_dtype {
                 let result = match op {
                     ReduceOp::Sum => a + v,
                     ReduceOp::Prod => a * v,
-                    ReduceOp::Max => a.max(v),
-                    ReduceOp::Min => a.min(v),
+                    ReduceOp::Max => if v > a || v.is_nan() { v } else { a },
+                    ReduceOp::Min => if v < a || v.is_nan() { v } else { a },
                 };
                 Self::write(acc, idx, result);
             }
@@ -259,8 +259,8 @@ macro_rules! impl_signed_int_dtype {
             unsafe fn unary_op(&self, op: UnaryOp, src: *const u8, byte_offset: isize, out: *mut u8, idx: usize) {
                 let v = Self::read(src, byte_offset);
                 let result = match op {
-                    UnaryOp::Neg => -v,
-                    UnaryOp::Abs => v.abs(),
+                    UnaryOp::Neg => v.wrapping_neg(),
+                    UnaryOp::Abs => v.wrapping_abs(),
                     UnaryOp::Sqrt => (v as f64).sqrt() as $T,
                     UnaryOp::Exp => (v as f64).exp() as $T,
                     UnaryOp::Log => (v as f64).ln() as $T,
@@ -310,16 +310,22 @@ macro_rules! impl_signed_int_dtype {
                     BinaryOp::Add => av.wrapping_add(bv),
                     BinaryOp::Sub => av.wrapping_sub(bv),
                     BinaryOp::Mul => av.wrapping_mul(bv),
-                    BinaryOp::Div => if bv != 0 { av / bv } else { 0 },
+                    BinaryOp::Div => if bv != 0 { av.wrapping_div(bv) } else { 0 },
                     BinaryOp::Pow => if bv >= 0 { av.wrapping_pow(bv as u32) } else { 0 },
-                    BinaryOp::Mod => if bv != 0 { av % bv } else { 0 },
-                    BinaryOp::FloorDiv => if bv != 0 { av.div_euclid(bv) } else { 0 },
+                    BinaryOp::Mod => if bv != 0 { av.wrapping_rem(bv) } else { 0 },
+                    BinaryOp::FloorDiv => {
+                        // Round toward negative infinity; MIN // -1 wraps
+                        if bv == 0 { 0 } else {
+                            let q = av.wrapping_div(bv);
+                            if av.wrapping_rem(bv) != 0 && ((av < 0) != (bv < 0)) { q.wrapping_sub(1) } else { q }
+                        }
+                    },
                     BinaryOp::Maximum | BinaryOp::FMax => av.max(bv),
                     BinaryOp::Minimum | BinaryOp::FMin => av.min(bv),
                     // Float-only ops: convert to float, compute, convert back
                     BinaryOp::Arctan2 => (av as f64).atan2(bv as f64) as $T,
                     BinaryOp::Hypot => (av as f64).hypot(bv as f64) as $T,
-                    BinaryOp::Copysign => if bv >= 0 { av.abs() } else { -av.abs() },
+                    BinaryOp::Copysign => if bv >= 0 { av.wrapping_abs() } else { av.wrapping_abs().wrapping_neg() },
                     BinaryOp::Logaddexp => ((av as f64).exp() + (bv as f64).exp()).ln() as $T,
                     BinaryOp::Logaddexp2 => ((av as f64).exp2() + (bv as f64).exp2()).log2() as $T,
                     BinaryOp::Nextafter => if av < bv { av.wrapping_add(1) } else if av > bv { av.wrapping_sub(1) } else { bv },
@@ -401,8 +407,8 @@ macro_rules! impl_signed_int_dtype {
                     BitwiseOp::And => av & bv,
                     BitwiseOp::Or => av | bv,
                     BitwiseOp::Xor => av ^ bv,
-                    BitwiseOp::LeftShift => av.wrapping_shl(bv as u32),
-                    BitwiseOp::RightShift => av.wrapping_shr(bv as u32),
+                    BitwiseOp::LeftShift => if (bv as u64) < <$T>::BITS as u64 { av << bv } else { 0 },
+                    BitwiseOp::RightShift => if (bv as u64) < <$T>::BITS as u64 { av >> bv } else if av < (0 as $T) { !0 } else { 0 },
                 };
                 Self::write(out, idx, result);
                 true
@@ -512,9 +518,9 @@ macro_rules! impl_unsigned_int_dtype {
                     BinaryOp::Add => av.wrapping_add(bv),
                     BinaryOp::Sub => av.wrapping_sub(bv),
                     BinaryOp::Mul => av.wrapping_mul(bv),
-                    BinaryOp::Div => if bv != 0 { av / bv } else { 0 },
+                    BinaryOp::Div => if bv != 0 { av.wrapping_div(bv) } else { 0 },
                     BinaryOp::Pow => av.wrapping_pow(bv as u32),
-                    BinaryOp::Mod => if bv != 0 { av % bv } else { 0 },
+                    BinaryOp::Mod => if bv != 0 { av.wrapping_rem(bv) } else { 0 },
                     BinaryOp::FloorDiv => if bv != 0 { av / bv } else { 0 },
                     BinaryOp::Maximum | BinaryOp::FMax => av.max(bv),
                     BinaryOp::Minimum | BinaryOp::FMin => av.min(bv),
@@ -603,8 +609,8 @@ macro_rules! impl_unsigned_int_dtype {
                     BitwiseOp::And => av & bv,
                     BitwiseOp::Or => av | bv,
                     BitwiseOp::Xor => av ^ bv,
-                    BitwiseOp::LeftShift => av.wrapping_shl(bv as u32),
-                    BitwiseOp::RightShift => av.wrapping_shr(bv as u32),
+                    BitwiseOp::LeftShift => if (bv as u64) < <$T>::BITS as u64 { av << bv } else { 0 },
+                    BitwiseOp::RightShift => if (bv as u64) < <$T>::BITS as u64 { av >> bv } else if av < (0 as $T) { !0 } else { 0 },
                 };
                 Self::write(out, idx, result);
                 true
diff --git a/src/ops/kernels/arithmetic.rs b/src/ops/kernels/arithmetic.rs
index c7d3a61..1ee2494 100644
--- a/src/ops/kernels/arithmetic.rs
+++ b/src/ops/kernels/arithmetic.rs
@@ -123,13 +123,13 @@ macro_rules! impl_float_arithmetic {
             #[inline(always)]
             fn init() -> $T { <$T>::NEG_INFINITY }
             #[inline(always)]
-            fn combine(acc: $T, v: $T) -> $T { if v > acc { v } else { acc } }
+            fn combine(acc: $T, v: $T) -> $T { if v > acc || v.is_nan() { v } else { acc } }
         }
         impl ReduceKernel<$T> for Min {
             #[inline(always)]
             fn init() -> $T { <$T>::INFINITY }
             #[inline(always)]
-            fn combine(acc: $T, v: $T) -> $T { if v < acc { v } else { acc } }
+            fn combine(acc: $T, v: $T) -> $T { if v < acc || v.is_nan() { v } else { acc } }
         }
         impl ReduceKernel<$T> for SumOfSquares {
             #[inline(always)]
@@ -206,8 +206,10 @@ macro_rules! impl_float_arithmetic {
             fn apply(a: $T, b: $T) -> $T {
                 if a == b { b }
                 else if a.is_nan() || b.is_nan() { <$T>::NAN }
-                else if a < b { <$T>::from_bits(a.to_bits().wrapping_add(1)) }
-                else { <$T>::from_bits(a.to_bits().wrapping_sub(1)) }
+                else if a == 0.0 { <$T>::from_bits(1).copysign(b) }
+                // Bit patterns grow with magnitude: step up when moving away from zero
+                else if (a < b) == (a > 0.0) { <$T>::from_bits(a.to_bits() + 1) }
+                else { <$T>::from_bits(a.to_bits() - 1) }
             }
         }
     };
@@ -298,13 +300,13 @@ impl ReduceKernel<f16> for Max {
     #[inline(always)]
     fn init() -> f16 { f16::NEG_INFINITY }
     #[inline(always)]
-    fn combine(acc: f16, v: f16) -> f16 { if v > acc { v } else { acc } }
+    fn combine(acc: f16, v: f16) -> f16 { if v > acc || v.is_nan() { v } else { acc } }
 }
 impl ReduceKernel<f16> for Min {
     #[inline(always)]
     fn init() -> f16 { f16::INFINITY }
     #[inline(always)]
-    fn combine(acc: f16, v: f16) -> f16 { if v < acc { v } else { acc } }
+    fn combine(acc: f16, v: f16) -> f16 { if v < acc || v.is_nan() { v } else { acc } }
 }
 impl ReduceKernel<f16> for SumOfSquares {
     #[inline(always)]
@@ -391,8 +393,10 @@ impl BinaryKernel<f16> for Nextafter {
     fn apply(a: f16, b: f16) -> f16 {
         if a == b { b }
         else if a.is_nan() || b.is_nan() { f16::NAN }
-        else if a < b { f16::from_bits(a.to_bits().wrapping_add(1)) }
-        else { f16::from_bits(a.to_bits().wrapping_sub(1)) }
+        else if a == f16::ZERO { if b > a { f16::from_bits(1) } else { f16::from_bits(0x8001) } }
+        // Bit patterns grow with magnitude: step up when moving away from zero
+        else if (a < b) == (a > f16::ZERO) { f16::from_bits(a.to_bits() + 1) }
+        else { f16::from_bits(a.to_bits() - 1) }
     }
 }
 
@@ -452,11 +456,17 @@ macro_rules! impl_int_arithmetic {
         }
         impl BinaryKernel<$T> for Mod {
             #[inline(always)]
-            fn apply(a: $T, b: $T) -> $T { if b == $zero { $zero } else { a % b } }
+            fn apply(a: $T, b: $T) -> $T { if b == $zero { $zero } else { a.wrapping_rem(b) } }
         }
         impl BinaryKernel<$T> for FloorDiv {
             #[inline(always)]
-            fn apply(a: $T, b: $T) -> $T { if b == $zero { $zero } else { a / b } }
+            #[allow(unused_comparisons)]
+            fn apply(a: $T, b: $T) -> $T {
+                // Round toward negative infinity; MIN // -1 wraps
+                if b == $zero { return $zero; }
+                let q = a.wrapping_div(b);
+                if a.wrapping_rem(b) != $zero && ((a < $zero) != (b < $zero)) { q.wrapping_sub($one) } else { q }
+            }
         }
         impl BinaryKernel<$T> for Maximum {
             #[inline(always)]
diff --git a/src/ops/kernels/bitwise.rs b/src/ops/kernels/bitwise.rs
index f954ad8..197ec62 100644
--- a/src/ops/kernels/bitwise.rs
+++ b/src/ops/kernels/bitwise.rs
@@ -62,14 +62,16 @@ macro_rules! impl_bitwise_int {
         impl BinaryKernel<$T> for LeftShift {
             #[inline(always)]
             fn apply(a: $T, b: $T) -> $T {
-                a.wrapping_shl(b as u32)
+                // Shifts of the full width or more (or negative) push every bit out
+                if (b as u64) < <$T>::BITS as u64 { a << b } else { 0 }
             }
         }
 
         impl BinaryKernel<$T> for RightShift {
             #[inline(always)]
+            #[allow(unused_comparisons)]
             fn apply(a: $T, b: $T) -> $T {
-                a.wrapping_shr(b as u32)
+                if (b as u64) < <$T>::BITS as u64 { a >> b } else if a < 0 { !0 } else { 0 }
             }
         }
 
diff --git a/src/ops/kernels/math.rs b/src/ops/kernels/math.rs
index 210c71c..70f6c9b 100644
--- a/src/ops/kernels/math.rs
+++ b/src/ops/kernels/math.rs
@@ -396,7 +396,7 @@ macro_rules! impl_signed_int_math {
         }
         impl UnaryKernel<$T> for Abs {
             #[inline(always)]
-            fn apply(v: $T) -> $T { v.abs() }
+            fn apply(v: $T) -> $T { v.wrapping_abs() }
         }
         impl UnaryKernel<$T> for Square {
             #[inline(always)]
-- 
2.43.0


From a066ce978bb4c355ac888ddb2b4fd687c71ebda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:28 +0000
Subject: [PATCH 15/56] fix: mixed-dtype arithmetic went through f64 and
 mixed-dtype bitwise operations read past the narrower operand

---
 src/ops/bitwise.rs |  4 +++-
 src/ops/special.rs |  8 ++++----
 src/ops/ufunc.rs   | 12 ++++++++++++
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/ops/bitwise.rs b/src/ops/bitwise.rs
index bba3c9f..4bd28ac 100644
--- a/src/ops/bitwise.rs
+++ b/src/ops/bitwise.rs
@@ -13,7 +13,9 @@ use crate::ops::dispatch;
 /// Apply a binary bitwise operation element-wise, preserving dtype.
 fn map_binary_bitwise(a: &RumpyArray, b: &RumpyArray, op: BitwiseOp) -> Option<RumpyArray> {
     let out_dtype = promote_dtype(&a.dtype(), &b.dtype());
-    let (a_bc, b_bc, result, out_shape) = broadcast_binary_setup(a, b, out_dtype.clone())?;
+    // The loops below read both operands as out_dtype
+    let (a, b) = (a.astype(out_dtype.clone()), b.astype(out_dtype.clone()));
+    let (a_bc, b_bc, result, out_shape) = broadcast_binary_setup(&a, &b, out_dtype.clone())?;
 
     if result.size() == 0 {
         return Some(result);
diff --git a/src/ops/special.rs b/src/ops/special.rs
index 2075ff9..4be88d6 100644
--- a/src/ops/special.rs
+++ b/src/ops/special.rs
@@ -667,22 +667,22 @@ trait SignedInt: Copy + PartialEq + std::ops::Rem<Output = Self> + std::ops::Div
 
 impl SignedInt for i64 {
     const ZERO: Self = 0;
-    #[inline] fn abs_val(self) -> Self { self.abs() }
+    #[inline] fn abs_val(self) -> Self { self.wrapping_abs() }
 }
 
 impl SignedInt for i32 {
     const ZERO: Self = 0;
-    #[inline] fn abs_val(self) -> Self { self.abs() }
+    #[inline] fn abs_val(self) -> Self { self.wrapping_abs() }
 }
 
 impl SignedInt for i16 {
     const ZERO: Self = 0;
-    #[inline] fn abs_val(self) -> Self { self.abs() }
+    #[inline] fn abs_val(self) -> Self { self.wrapping_abs() }
 }
 
 impl SignedInt for i8 {
     const ZERO: Self = 0;
-    #[inline] fn abs_val(self) -> Self { self.abs() }
+    #[inline] fn abs_val(self) -> Self { self.wrapping_abs() }
 }
 
 trait UnsignedInt: Copy + PartialEq + std::ops::Rem<Output = Self> + std::ops::Div<Output = Self> + std::ops::Mul<Output = Self> {
diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index d11dcdb..b2df1a8 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -55,6 +55,11 @@ pub(crate) fn is_integer_kind(kind: &DTypeKind) -> bool {
              DTypeKind::Uint8 | DTypeKind::Uint16 | DTypeKind::Uint32 | DTypeKind::Uint64)
 }
 
+/// Check if dtype holds numbers (or bools), as opposed to times or text.
+fn is_numeric_kind(kind: &DTypeKind) -> bool {
+    !matches!(kind, DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) | DTypeKind::Str(_) | DTypeKind::Bytes(_))
+}
+
 // ============================================================================
 // Unary operations
 // ============================================================================
@@ -206,6 +211,13 @@ pub fn map_binary_op_inplace(
         }
     }
 
+    // Mixed numeric dtypes: compute in the promoted dtype, so that integers
+    // keep their exact value and wrap like same-dtype operands do
+    if a.dtype() != b.dtype() && is_numeric_kind(&a.dtype().kind()) && is_numeric_kind(&b.dtype().kind()) {
+        let common = promote_dtype(&a.dtype(), &b.dtype());
+        return map_binary_op_inplace(&a.astype(common.clone()), &b.astype(common), op, out);
+    }
+
     let out_shape = broadcast_shapes(a.shape(), b.shape()).ok_or(BinaryOpError::ShapeMismatch)?;
     let a_bc = a.broadcast_to(&out_shape).ok_or(BinaryOpError::ShapeMismatch)?;
     let b_bc = b.broadcast_to(&out_shape).ok_or(BinaryOpError::ShapeMismatch)?;
-- 
2.43.0


From bdb1230c4bfeb1675b84822d95d62fc231c11a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:31 +0000
Subject: [PATCH 16/56] fix: special functions ignored strides, operand shapes
 and dtypes

---
 src/ops/special.rs   | 56 +++++++++++++++++++++++++++++++++-----------
 src/python/ufuncs.rs | 24 ++++++++++++-------
 2 files changed, 58 insertions(+), 22 deletions(-)

diff --git a/src/ops/special.rs b/src/ops/special.rs
index 4be88d6..c9a833f 100644
--- a/src/ops/special.rs
+++ b/src/ops/special.rs
@@ -5,14 +5,28 @@
 //! All functions operate natively in their input dtype (no f64 conversion).
 
 use crate::array::dtype::DTypeKind;
-use crate::array::{DType, RumpyArray};
+use crate::array::{broadcast_shapes, promote_dtype, DType, RumpyArray};
 use std::sync::Arc;
 
+/// Broadcast two operands against each other into fresh contiguous arrays,
+/// the layout the loops below walk. None if the shapes are incompatible.
+fn contiguous_pair(a: &RumpyArray, b: &RumpyArray) -> Option<(RumpyArray, RumpyArray)> {
+    let shape = broadcast_shapes(a.shape(), b.shape())?;
+    Some((a.broadcast_to(&shape)?.copy(), b.broadcast_to(&shape)?.copy()))
+}
+
+/// As `contiguous_pair`, converting both operands to their promoted dtype.
+fn promoted_pair(a: &RumpyArray, b: &RumpyArray) -> Option<(RumpyArray, RumpyArray)> {
+    let common = promote_dtype(&a.dtype(), &b.dtype());
+    contiguous_pair(&a.astype(common.clone()), &b.astype(common))
+}
+
 // ============================================================================
 // Sinc: sin(pi*x) / (pi*x)
 // ============================================================================
 
 pub fn sinc(arr: &RumpyArray) -> RumpyArray {
+    let arr = &arr.copy();
     match arr.dtype().kind() {
         DTypeKind::Float32 => sinc_typed::<f32>(arr, DType::float32()),
         DTypeKind::Float64 => sinc_typed::<f64>(arr, DType::float64()),
@@ -54,6 +68,7 @@ fn sinc_typed<T: Float>(arr: &RumpyArray, dtype: DType) -> RumpyArray {
 // ============================================================================
 
 pub fn i0(arr: &RumpyArray) -> RumpyArray {
+    let arr = &arr.copy();
     match arr.dtype().kind() {
         DTypeKind::Float32 => i0_typed::<f32>(arr, DType::float32()),
         DTypeKind::Float64 => i0_typed::<f64>(arr, DType::float64()),
@@ -107,6 +122,7 @@ fn i0_scalar<T: Float>(x: T) -> T {
 // ============================================================================
 
 pub fn spacing(arr: &RumpyArray) -> RumpyArray {
+    let arr = &arr.copy();
     match arr.dtype().kind() {
         DTypeKind::Float32 => spacing_f32(arr),
         DTypeKind::Float64 => spacing_f64(arr),
@@ -174,6 +190,7 @@ fn spacing_f32(arr: &RumpyArray) -> RumpyArray {
 // ============================================================================
 
 pub fn modf(arr: &RumpyArray) -> (RumpyArray, RumpyArray) {
+    let arr = &arr.copy();
     match arr.dtype().kind() {
         DTypeKind::Float32 => modf_typed::<f32>(arr, DType::float32()),
         DTypeKind::Float64 => modf_typed::<f64>(arr, DType::float64()),
@@ -221,6 +238,7 @@ fn modf_typed<T: Float>(arr: &RumpyArray, dtype: DType) -> (RumpyArray, RumpyArr
 // ============================================================================
 
 pub fn frexp(arr: &RumpyArray) -> (RumpyArray, RumpyArray) {
+    let arr = &arr.copy();
     match arr.dtype().kind() {
         DTypeKind::Float32 => frexp_f32(arr),
         DTypeKind::Float64 => frexp_f64(arr),
@@ -337,15 +355,17 @@ fn frexp_scalar_f32(x: f32) -> (f32, i32) {
 // Ldexp: x * 2^i
 // ============================================================================
 
-pub fn ldexp(x: &RumpyArray, i: &RumpyArray) -> RumpyArray {
-    match x.dtype().kind() {
+pub fn ldexp(x: &RumpyArray, i: &RumpyArray) -> Option<RumpyArray> {
+    let (x, i) = contiguous_pair(x, i)?;
+    let (x, i) = (&x, &i);
+    Some(match x.dtype().kind() {
         DTypeKind::Float32 => ldexp_typed::<f32>(x, i, DType::float32()),
         DTypeKind::Float64 => ldexp_typed::<f64>(x, i, DType::float64()),
         _ => {
             let x_f64 = x.astype(DType::float64());
             ldexp_typed::<f64>(&x_f64, i, DType::float64())
         }
-    }
+    })
 }
 
 fn ldexp_typed<T: Float>(x: &RumpyArray, i: &RumpyArray, dtype: DType) -> RumpyArray {
@@ -389,8 +409,10 @@ fn ldexp_typed<T: Float>(x: &RumpyArray, i: &RumpyArray, dtype: DType) -> RumpyA
 // Heaviside step function
 // ============================================================================
 
-pub fn heaviside(x: &RumpyArray, h0: &RumpyArray) -> RumpyArray {
-    match x.dtype().kind() {
+pub fn heaviside(x: &RumpyArray, h0: &RumpyArray) -> Option<RumpyArray> {
+    let (x, h0) = promoted_pair(x, h0)?;
+    let (x, h0) = (&x, &h0);
+    Some(match x.dtype().kind() {
         DTypeKind::Float32 => heaviside_typed::<f32>(x, h0, DType::float32()),
         DTypeKind::Float64 => heaviside_typed::<f64>(x, h0, DType::float64()),
         _ => {
@@ -398,7 +420,7 @@ pub fn heaviside(x: &RumpyArray, h0: &RumpyArray) -> RumpyArray {
             let h0_f64 = h0.astype(DType::float64());
             heaviside_typed::<f64>(&x_f64, &h0_f64, DType::float64())
         }
-    }
+    })
 }
 
 fn heaviside_typed<T: Float>(x: &RumpyArray, h0: &RumpyArray, dtype: DType) -> RumpyArray {
@@ -422,8 +444,10 @@ fn heaviside_typed<T: Float>(x: &RumpyArray, h0: &RumpyArray, dtype: DType) -> R
             T::ZERO
         } else if xv == T::ZERO {
             h0v
-        } else {
+        } else if xv > T::ZERO {
             T::ONE
+        } else {
+            xv // NaN
         };
         unsafe { *result_ptr.add(i) = y };
     }
@@ -434,9 +458,11 @@ fn heaviside_typed<T: Float>(x: &RumpyArray, h0: &RumpyArray, dtype: DType) -> R
 // GCD: Greatest common divisor
 // ============================================================================
 
-pub fn gcd(a: &RumpyArray, b: &RumpyArray) -> RumpyArray {
+pub fn gcd(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
+    let (a, b) = promoted_pair(a, b)?;
+    let (a, b) = (&a, &b);
     let kind = a.dtype().kind();
-    match kind {
+    Some(match kind {
         DTypeKind::Int64 => gcd_typed::<i64>(a, b, DType::int64()),
         DTypeKind::Int32 => gcd_typed::<i32>(a, b, DType::int32()),
         DTypeKind::Int16 => gcd_typed::<i16>(a, b, DType::int16()),
@@ -451,7 +477,7 @@ pub fn gcd(a: &RumpyArray, b: &RumpyArray) -> RumpyArray {
             let b_i64 = b.astype(DType::int64());
             gcd_typed::<i64>(&a_i64, &b_i64, DType::int64())
         }
-    }
+    })
 }
 
 fn gcd_typed<T: SignedInt>(a: &RumpyArray, b: &RumpyArray, dtype: DType) -> RumpyArray {
@@ -524,9 +550,11 @@ fn gcd_scalar_unsigned<T: UnsignedInt>(mut a: T, mut b: T) -> T {
 // LCM: Least common multiple
 // ============================================================================
 
-pub fn lcm(a: &RumpyArray, b: &RumpyArray) -> RumpyArray {
+pub fn lcm(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
+    let (a, b) = promoted_pair(a, b)?;
+    let (a, b) = (&a, &b);
     let kind = a.dtype().kind();
-    match kind {
+    Some(match kind {
         DTypeKind::Int64 => lcm_typed::<i64>(a, b, DType::int64()),
         DTypeKind::Int32 => lcm_typed::<i32>(a, b, DType::int32()),
         DTypeKind::Int16 => lcm_typed::<i16>(a, b, DType::int16()),
@@ -540,7 +568,7 @@ pub fn lcm(a: &RumpyArray, b: &RumpyArray) -> RumpyArray {
             let b_i64 = b.astype(DType::int64());
             lcm_typed::<i64>(&a_i64, &b_i64, DType::int64())
         }
-    }
+    })
 }
 
 fn lcm_typed<T: SignedInt>(a: &RumpyArray, b: &RumpyArray, dtype: DType) -> RumpyArray {
diff --git a/src/python/ufuncs.rs b/src/python/ufuncs.rs
index 5d4b323..4777c4e 100644
--- a/src/python/ufuncs.rs
+++ b/src/python/ufuncs.rs
@@ -782,26 +782,34 @@ pub fn frexp(x: &PyRumpyArray) -> (PyRumpyArray, PyRumpyArray) {
 
 /// Compute ldexp: x * 2^i.
 #[pyfunction]
-pub fn ldexp(x: &PyRumpyArray, i: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::ldexp(&x.inner, &i.inner))
+pub fn ldexp(x: &PyRumpyArray, i: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    crate::ops::ldexp(&x.inner, &i.inner)
+        .map(PyRumpyArray::new)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("shapes not broadcastable"))
 }
 
 /// Compute the Heaviside step function.
 #[pyfunction]
-pub fn heaviside(x: &PyRumpyArray, h0: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::heaviside(&x.inner, &h0.inner))
+pub fn heaviside(x: &PyRumpyArray, h0: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    crate::ops::heaviside(&x.inner, &h0.inner)
+        .map(PyRumpyArray::new)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("shapes not broadcastable"))
 }
 
 /// Compute the greatest common divisor element-wise.
 #[pyfunction]
-pub fn gcd(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::gcd(&x1.inner, &x2.inner))
+pub fn gcd(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    crate::ops::gcd(&x1.inner, &x2.inner)
+        .map(PyRumpyArray::new)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("shapes not broadcastable"))
 }
 
 /// Compute the least common multiple element-wise.
 #[pyfunction]
-pub fn lcm(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::lcm(&x1.inner, &x2.inner))
+pub fn lcm(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    crate::ops::lcm(&x1.inner, &x2.inner)
+        .map(PyRumpyArray::new)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("shapes not broadcastable"))
 }
 
 // ============================================================================
-- 
2.43.0


From be889d99b5243eed77a9b790b98825305a93dd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:23 +0000
Subject: [PATCH 17/56] fix: diff, gradient, cumulative and axis reductions on
 narrow integers, strided and 1-D inputs

---
 src/ops/array_methods/cumulative.rs | 36 +++++++++++++++--------------
 src/ops/array_methods/reductions.rs | 22 ++++++++++++++----
 src/ops/dispatch.rs                 |  2 ++
 src/ops/numerical.rs                |  4 ++++
 src/ops/statistics.rs               |  2 +-
 5 files changed, 43 insertions(+), 23 deletions(-)

diff --git a/src/ops/array_methods/cumulative.rs b/src/ops/array_methods/cumulative.rs
index d6c3c9a..4ebabf9 100644
--- a/src/ops/array_methods/cumulative.rs
+++ b/src/ops/array_methods/cumulative.rs
@@ -1,6 +1,6 @@
 //! Cumulative operations on RumpyArray (cumsum, cumprod, diff).
 
-use crate::array::dtype::DTypeKind;
+use crate::array::dtype::{BinaryOp, BitwiseOp, DTypeKind, DTypeOps};
 use crate::array::{increment_indices, DType, RumpyArray};
 use crate::ops::kernels::arithmetic::Sub;
 use crate::ops::loops;
@@ -42,16 +42,22 @@ fn diff_1d_contiguous(src_ptr: *const u8, result_ptr: *mut u8, n: usize, dtype:
             let itemsize = dtype.itemsize() as isize;
             let ops = dtype.ops();
             for i in 0..n {
-                unsafe {
-                    let v1 = ops.read_f64(src_ptr, (i as isize) * itemsize).unwrap_or(0.0);
-                    let v2 = ops.read_f64(src_ptr, (i as isize + 1) * itemsize).unwrap_or(0.0);
-                    ops.write_f64(result_ptr, i, v2 - v1);
-                }
+                let offset = (i as isize) * itemsize;
+                unsafe { diff_element(ops, src_ptr, offset + itemsize, offset, result_ptr, i); }
             }
         }
     }
 }
 
+/// Write `src[next] - src[prev]` (not-equal for bool) in the array's own dtype.
+unsafe fn diff_element(ops: &dyn DTypeOps, src: *const u8, next: isize, prev: isize, out: *mut u8, idx: usize) {
+    if ops.kind() == DTypeKind::Bool {
+        ops.bitwise_op(BitwiseOp::Xor, src, next, src, prev, out, idx);
+    } else {
+        ops.binary_op(BinaryOp::Sub, src, next, src, prev, out, idx);
+    }
+}
+
 /// Strided diff for N-D arrays along arbitrary axis.
 /// Element-by-element via DTypeOps (no vectorization benefit for strided access).
 fn diff_strided(
@@ -69,11 +75,7 @@ fn diff_strided(
     let mut out_indices = vec![0usize; src.ndim()];
     for i in 0..out_size {
         let offset1 = src.byte_offset_for(&out_indices);
-        unsafe {
-            let v1 = ops.read_f64(src_ptr, offset1).unwrap_or(0.0);
-            let v2 = ops.read_f64(src_ptr, offset1 + axis_stride).unwrap_or(0.0);
-            ops.write_f64(result_ptr, i, v2 - v1);
-        }
+        unsafe { diff_element(ops, src_ptr, offset1 + axis_stride, offset1, result_ptr, i); }
         increment_indices(&mut out_indices, out_shape);
     }
 }
@@ -206,20 +208,20 @@ impl RumpyArray {
     /// Cumulative sum along axis (or flattened if axis is None).
     pub fn cumsum(&self, axis: Option<usize>) -> RumpyArray {
         // Try typed dispatch first
-        if let Some(result) = crate::ops::dispatch::dispatch_cumsum(self, axis) {
+        if let Some(result) = crate::ops::dispatch::dispatch_cumsum(&self.to_accumulator(), axis) {
             return result;
         }
-        // Fallback for Bool, DateTime, Float16
+        // Fallback for DateTime
         self.cumulative_op(axis, 0.0, |acc, x| acc + x)
     }
 
     /// Cumulative product along axis (or flattened if axis is None).
     pub fn cumprod(&self, axis: Option<usize>) -> RumpyArray {
         // Try typed dispatch first
-        if let Some(result) = crate::ops::dispatch::dispatch_cumprod(self, axis) {
+        if let Some(result) = crate::ops::dispatch::dispatch_cumprod(&self.to_accumulator(), axis) {
             return result;
         }
-        // Fallback for Bool, DateTime, Float16
+        // Fallback for DateTime
         self.cumulative_op(axis, 1.0, |acc, x| acc * x)
     }
 
@@ -317,7 +319,7 @@ impl RumpyArray {
             .map(|(_, &s)| s)
             .collect();
 
-        let outer_size: usize = outer_shape.iter().product::<usize>().max(1);
+        let outer_size: usize = outer_shape.iter().product();
         let mut outer_indices = vec![0usize; outer_shape.len()];
 
         for _ in 0..outer_size {
@@ -373,7 +375,7 @@ impl RumpyArray {
             .map(|(_, &s)| s)
             .collect();
 
-        let outer_size: usize = outer_shape.iter().product::<usize>().max(1);
+        let outer_size: usize = outer_shape.iter().product();
         let mut outer_indices = vec![0usize; outer_shape.len()];
 
         for _ in 0..outer_size {
diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index 9ec241f..ee154d3 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -12,14 +12,25 @@ impl RumpyArray {
     // Basic reductions
     // ========================================================================
 
+    /// This array in the dtype its sums and products accumulate in: integers
+    /// narrower than 64 bits (and bool) widen so that totals do not overflow.
+    pub(crate) fn to_accumulator(&self) -> RumpyArray {
+        use crate::array::dtype::DTypeKind;
+        match self.dtype().kind() {
+            DTypeKind::Bool | DTypeKind::Int8 | DTypeKind::Int16 | DTypeKind::Int32 => self.astype(DType::int64()),
+            DTypeKind::Uint8 | DTypeKind::Uint16 | DTypeKind::Uint32 => self.astype(DType::uint64()),
+            _ => self.clone(),
+        }
+    }
+
     /// Sum all elements.
     pub fn sum(&self) -> f64 {
-        reduce_all_f64(self, ReduceOp::Sum)
+        reduce_all_f64(&self.to_accumulator(), ReduceOp::Sum)
     }
 
     /// Sum along axis.
     pub fn sum_axis(&self, axis: usize) -> RumpyArray {
-        reduce_axis_op(self, axis, ReduceOp::Sum)
+        reduce_axis_op(&self.to_accumulator(), axis, ReduceOp::Sum)
     }
 
     /// Sum of squares: sum(x*x). Single pass, no intermediate allocation.
@@ -30,12 +41,12 @@ impl RumpyArray {
 
     /// Product of all elements.
     pub fn prod(&self) -> f64 {
-        reduce_all_f64(self, ReduceOp::Prod)
+        reduce_all_f64(&self.to_accumulator(), ReduceOp::Prod)
     }
 
     /// Product along axis.
     pub fn prod_axis(&self, axis: usize) -> RumpyArray {
-        reduce_axis_op(self, axis, ReduceOp::Prod)
+        reduce_axis_op(&self.to_accumulator(), axis, ReduceOp::Prod)
     }
 
     /// Maximum element.
@@ -145,7 +156,8 @@ impl RumpyArray {
 
         // Compute mean and broadcast back to original shape
         let mean = self.mean_axis(axis);
-        let mean_expanded = mean.expand_dims(axis).expect("expand_dims succeeds");
+        // (reducing a 1-D array already leaves a single length-1 axis)
+        let mean_expanded = if self.ndim() == 1 { mean } else { mean.expand_dims(axis).expect("expand_dims succeeds") };
 
         // Compute deviations: x - mean (uses vectorized binary op with broadcasting)
         let diff = self.binary_op(&mean_expanded, BinaryOp::Sub).expect("broadcast succeeds");
diff --git a/src/ops/dispatch.rs b/src/ops/dispatch.rs
index 4ed0ef0..6ec9487 100644
--- a/src/ops/dispatch.rs
+++ b/src/ops/dispatch.rs
@@ -1931,6 +1931,7 @@ where
         + ReduceKernel<i64>
         + ReduceKernel<i32>
         + ReduceKernel<i16>
+        + ReduceKernel<i8>
         + ReduceKernel<u64>
         + ReduceKernel<u32>
         + ReduceKernel<u16>
@@ -1945,6 +1946,7 @@ where
         DTypeKind::Int64 => dispatch_cumulative_typed::<i64, K>(arr, axis, kernel, DType::int64()),
         DTypeKind::Int32 => dispatch_cumulative_typed::<i32, K>(arr, axis, kernel, DType::int32()),
         DTypeKind::Int16 => dispatch_cumulative_typed::<i16, K>(arr, axis, kernel, DType::int16()),
+        DTypeKind::Int8 => dispatch_cumulative_typed::<i8, K>(arr, axis, kernel, DType::int8()),
         DTypeKind::Uint64 => dispatch_cumulative_typed::<u64, K>(arr, axis, kernel, DType::uint64()),
         DTypeKind::Uint32 => dispatch_cumulative_typed::<u32, K>(arr, axis, kernel, DType::uint32()),
         DTypeKind::Uint16 => dispatch_cumulative_typed::<u16, K>(arr, axis, kernel, DType::uint16()),
diff --git a/src/ops/numerical.rs b/src/ops/numerical.rs
index 146c9e4..66a793a 100644
--- a/src/ops/numerical.rs
+++ b/src/ops/numerical.rs
@@ -115,6 +115,8 @@ pub fn gradient_with_coords(f: &RumpyArray, coords: &RumpyArray, axis: usize) ->
         return None;
     }
 
+    // The result is addressed with the source's offsets, so both must have the same layout
+    let f = &f.astype(DType::float64());
     let shape = f.shape();
     let n = shape[axis];
     let mut result = RumpyArray::zeros(shape.to_vec(), DType::float64());
@@ -152,6 +154,8 @@ pub fn gradient_with_coords(f: &RumpyArray, coords: &RumpyArray, axis: usize) ->
 }
 
 fn gradient_axis(f: &RumpyArray, spacing: f64, axis: usize) -> RumpyArray {
+    // The result is addressed with the source's offsets, so both must have the same layout
+    let f = &f.astype(DType::float64());
     let shape = f.shape();
     let n = shape[axis];
     let mut result = RumpyArray::zeros(shape.to_vec(), DType::float64());
diff --git a/src/ops/statistics.rs b/src/ops/statistics.rs
index 5f17775..9b33f5a 100644
--- a/src/ops/statistics.rs
+++ b/src/ops/statistics.rs
@@ -454,7 +454,7 @@ impl RumpyArray {
                 let mut in_indices = Vec::with_capacity(ndim);
                 in_indices.extend_from_slice(&outer_indices[..axis]);
                 in_indices.push(k);
-                in_indices.extend_from_slice(&outer_indices[axis..]);
+                in_indices.extend_from_slice(&outer_indices[axis..ndim - 1]);
                 values.push(self.get_element(&in_indices));
             }
 
-- 
2.43.0


From d78825f69697cb2328f3aaa942c1501eaefb810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:20 +0000
Subject: [PATCH 18/56] fix: sort, argsort, unique and set operations went
 through f64 and used a non-total order with NaN

---
 src/array/dtype/complex128.rs    |   6 +-
 src/array/dtype/complex64.rs     |   6 +-
 src/array/dtype/float16.rs       |   2 +-
 src/array/dtype/macros.rs        |   2 +-
 src/array/dtype/mod.rs           |   6 ++
 src/array/manipulation.rs        |   8 +-
 src/ops/array_methods/sorting.rs | 127 ++++++++++++++++-------
 src/ops/set_ops.rs               | 171 ++++++++++++-------------------
 src/ops/statistics.rs            |   8 +-
 9 files changed, 177 insertions(+), 159 deletions(-)

diff --git a/src/array/dtype/complex128.rs b/src/array/dtype/complex128.rs
index 8901a46..1cd5a11 100644
--- a/src/array/dtype/complex128.rs
+++ b/src/array/dtype/complex128.rs
@@ -390,12 +390,10 @@ impl DTypeOps for Complex128Ops {
     }
 
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
-        // Compare by magnitude (not ideal but allows sorting)
+        // Lexicographic (real part, then imaginary part), NaN last, like NumPy's sort order
         let (ar, ai) = Self::read(a, a_offset);
         let (br, bi) = Self::read(b, b_offset);
-        let mag_a = ar * ar + ai * ai;
-        let mag_b = br * br + bi * bi;
-        mag_a.partial_cmp(&mag_b).unwrap_or(Ordering::Equal)
+        super::nan_last_cmp(&ar, &br).then_with(|| super::nan_last_cmp(&ai, &bi))
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/array/dtype/complex64.rs b/src/array/dtype/complex64.rs
index 19e06f9..f1b463c 100644
--- a/src/array/dtype/complex64.rs
+++ b/src/array/dtype/complex64.rs
@@ -387,12 +387,10 @@ impl DTypeOps for Complex64Ops {
     }
 
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
-        // Compare by magnitude (not ideal but allows sorting)
+        // Lexicographic (real part, then imaginary part), NaN last, like NumPy's sort order
         let (ar, ai) = Self::read(a, a_offset);
         let (br, bi) = Self::read(b, b_offset);
-        let mag_a = ar * ar + ai * ai;
-        let mag_b = br * br + bi * bi;
-        mag_a.partial_cmp(&mag_b).unwrap_or(Ordering::Equal)
+        super::nan_last_cmp(&ar, &br).then_with(|| super::nan_last_cmp(&ai, &bi))
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/array/dtype/float16.rs b/src/array/dtype/float16.rs
index e444904..56be61f 100644
--- a/src/array/dtype/float16.rs
+++ b/src/array/dtype/float16.rs
@@ -164,7 +164,7 @@ impl DTypeOps for Float16Ops {
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
         let av = Self::read(a, a_offset);
         let bv = Self::read(b, b_offset);
-        av.partial_cmp(&bv).unwrap_or(Ordering::Equal)
+        super::nan_last_cmp(&av, &bv)
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index c5b0b18..36ac450 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -172,7 +172,7 @@ macro_rules! impl_float_dtype {
             unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> std::cmp::Ordering {
                 let av = Self::read(a, a_offset);
                 let bv = Self::read(b, b_offset);
-                av.partial_cmp(&bv).unwrap_or(std::cmp::Ordering::Equal)
+                $crate::array::dtype::nan_last_cmp(&av, &bv)
             }
 
             unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/array/dtype/mod.rs b/src/array/dtype/mod.rs
index 7c56589..8ee41bd 100644
--- a/src/array/dtype/mod.rs
+++ b/src/array/dtype/mod.rs
@@ -143,6 +143,12 @@ pub enum BitwiseOp {
     RightShift,
 }
 
+/// Total order on values that may be NaN: numeric order, NaN after everything else.
+pub(crate) fn nan_last_cmp<T: PartialOrd>(a: &T, b: &T) -> std::cmp::Ordering {
+    a.partial_cmp(b)
+        .unwrap_or_else(|| a.partial_cmp(a).is_none().cmp(&b.partial_cmp(b).is_none()))
+}
+
 /// Trait defining all dtype-specific behavior.
 ///
 /// Operations work directly on buffers - each dtype uses its native type internally.
diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index 1b7f5dd..9d8320f 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -273,7 +273,7 @@ fn percentile_flat(arr: &RumpyArray, q: &[f64]) -> Option<RumpyArray> {
     for offset in arr.iter_offsets() {
         values.push(unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0));
     }
-    values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    values.sort_by(crate::array::dtype::nan_last_cmp);
 
     // Compute percentiles using linear interpolation
     let mut result = RumpyArray::zeros(vec![q.len()], DType::float64());
@@ -337,7 +337,7 @@ fn percentile_axis(arr: &RumpyArray, q: &[f64], axis: usize) -> Option<RumpyArra
             values.push(unsafe { ops.read_f64(ptr, 0) }.unwrap_or(0.0));
             ptr = unsafe { ptr.offset(axis_stride) };
         }
-        values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+        values.sort_by(crate::array::dtype::nan_last_cmp);
 
         // Compute percentiles
         if q.len() == 1 {
@@ -400,7 +400,7 @@ fn nanpercentile_flat(arr: &RumpyArray, q: &[f64]) -> Option<RumpyArray> {
         return Some(RumpyArray::full(shape, f64::NAN, DType::float64()));
     }
 
-    values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    values.sort_by(crate::array::dtype::nan_last_cmp);
 
     // Compute percentiles using linear interpolation
     // Match numpy behavior: single q returns scalar-like, multiple q returns 1D array
@@ -469,7 +469,7 @@ fn nanpercentile_axis(arr: &RumpyArray, q: &[f64], axis: usize) -> Option<RumpyA
             }
             ptr = unsafe { ptr.offset(axis_stride) };
         }
-        values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+        values.sort_by(crate::array::dtype::nan_last_cmp);
 
         // Compute percentiles (NaN if all-NaN slice)
         if q.len() == 1 {
diff --git a/src/ops/array_methods/sorting.rs b/src/ops/array_methods/sorting.rs
index 3239991..609bd8f 100644
--- a/src/ops/array_methods/sorting.rs
+++ b/src/ops/array_methods/sorting.rs
@@ -30,12 +30,60 @@ impl RumpyArray {
         values
     }
 
+    /// Compare two elements of a C-contiguous array by row-major position.
+    pub(crate) fn compare_packed(&self, a: usize, b: usize) -> std::cmp::Ordering {
+        let itemsize = self.itemsize();
+        let ptr = self.data_ptr();
+        let dtype = self.dtype();
+        unsafe {
+            dtype.ops().compare_elements(ptr, (a * itemsize) as isize, ptr, (b * itemsize) as isize)
+        }
+    }
+
+    /// Whether the element of a C-contiguous array at a row-major position is NaN.
+    pub(crate) fn is_nan_packed(&self, position: usize) -> bool {
+        let dtype = self.dtype();
+        let ptr = self.data_ptr();
+        let offset = (position * self.itemsize()) as isize;
+        match dtype.kind() {
+            DTypeKind::Float16 | DTypeKind::Float32 | DTypeKind::Float64 => {
+                unsafe { dtype.ops().read_f64(ptr, offset) }.is_some_and(f64::is_nan)
+            }
+            DTypeKind::Complex64 | DTypeKind::Complex128 => {
+                unsafe { dtype.ops().read_complex(ptr, offset) }
+                    .is_some_and(|(re, im)| re.is_nan() || im.is_nan())
+            }
+            _ => false,
+        }
+    }
+
+    /// Row-major positions of a C-contiguous array in (stable) ascending element order.
+    pub(crate) fn sorted_order(&self) -> Vec<usize> {
+        let mut order: Vec<usize> = (0..self.size()).collect();
+        order.sort_by(|&a, &b| self.compare_packed(a, b));
+        order
+    }
+
+    /// 1-D array of the elements of a C-contiguous array at the given row-major positions.
+    pub(crate) fn gather_packed(&self, positions: &[usize]) -> RumpyArray {
+        let dtype = self.dtype();
+        let itemsize = self.itemsize();
+        let src = self.data_ptr();
+        let mut result = RumpyArray::zeros(vec![positions.len()], dtype.clone());
+        let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
+        let dst = buffer.as_mut_ptr();
+        for (i, &p) in positions.iter().enumerate() {
+            unsafe { dtype.ops().copy_element(src, (p * itemsize) as isize, dst, i); }
+        }
+        result
+    }
+
     /// Return unique sorted values.
     pub fn unique(&self) -> RumpyArray {
-        let mut values = self.to_vec();
-        values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
-        values.dedup_by(|a, b| (*a - *b).abs() < f64::EPSILON);
-        RumpyArray::from_vec(values, self.dtype())
+        let packed = self.copy();
+        let mut order = packed.sorted_order();
+        order.dedup_by(|a, b| packed.compare_packed(*a, *b) == std::cmp::Ordering::Equal);
+        packed.gather_packed(&order)
     }
 
     /// Return unique sorted values (same as unique, Array API compatible).
@@ -65,8 +113,8 @@ impl RumpyArray {
     /// - inverse_indices: index into values that reconstructs original (same shape as input)
     /// - counts: count of each unique value
     pub fn unique_all(&self) -> (RumpyArray, RumpyArray, RumpyArray, RumpyArray) {
-        let values = self.to_vec();
-        let n = values.len();
+        let packed = self.copy();
+        let n = packed.size();
         if n == 0 {
             return (
                 RumpyArray::from_vec(Vec::<f64>::new(), self.dtype()),
@@ -76,9 +124,8 @@ impl RumpyArray {
             );
         }
 
-        // Create indices and sort by value
-        let mut indexed: Vec<(f64, usize)> = values.iter().copied().enumerate().map(|(i, v)| (v, i)).collect();
-        indexed.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(std::cmp::Ordering::Equal));
+        // Sort positions by element; a NaN is a value of its own, never equal to another
+        let order = packed.sorted_order();
 
         // Collect unique values with all metadata
         let mut unique_vals = Vec::new();
@@ -86,30 +133,30 @@ impl RumpyArray {
         let mut counts = Vec::new();
         let mut inverse = vec![0i64; n];
 
-        let mut prev = indexed[0].0;
+        let mut prev = order[0];
         let mut unique_idx = 0i64;
-        let mut first_idx = indexed[0].1;
+        let mut first_idx = prev;
         let mut count = 1i64;
-        inverse[indexed[0].1] = unique_idx;
+        inverse[prev] = unique_idx;
 
-        for &(val, orig_idx) in &indexed[1..] {
-            if (val - prev).abs() < f64::EPSILON {
+        for &pos in &order[1..] {
+            if packed.compare_packed(pos, prev) == std::cmp::Ordering::Equal && !packed.is_nan_packed(pos) {
                 count += 1;
                 // Update first_idx if this occurrence is earlier
-                if orig_idx < first_idx {
-                    first_idx = orig_idx;
+                if pos < first_idx {
+                    first_idx = pos;
                 }
-                inverse[orig_idx] = unique_idx;
+                inverse[pos] = unique_idx;
             } else {
                 unique_vals.push(prev);
                 first_indices.push(first_idx as i64);
                 counts.push(count);
 
-                prev = val;
-                first_idx = orig_idx;
+                prev = pos;
+                first_idx = pos;
                 count = 1;
                 unique_idx += 1;
-                inverse[orig_idx] = unique_idx;
+                inverse[pos] = unique_idx;
             }
         }
         unique_vals.push(prev);
@@ -121,7 +168,7 @@ impl RumpyArray {
         let inverse_shaped = inverse_arr.reshape(self.shape().to_vec()).unwrap_or(inverse_arr);
 
         (
-            RumpyArray::from_vec(unique_vals, self.dtype()),
+            packed.gather_packed(&unique_vals),
             RumpyArray::from_vec_i64(first_indices, DType::int64()),
             inverse_shaped,
             RumpyArray::from_vec_i64(counts, DType::int64()),
@@ -158,27 +205,28 @@ impl RumpyArray {
         let out_size: usize = out_shape.iter().product();
 
         let ops = dtype.ops();
+        let src_ptr = self.data_ptr();
         let result_buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
         let result_ptr = result_buffer.as_mut_ptr();
 
         let mut out_indices = vec![0usize; out_shape.len()];
         for _ in 0..out_size {
-            // Collect values along axis
-            let mut values: Vec<(f64, usize)> = Vec::with_capacity(axis_len);
+            // Collect element offsets along axis
+            let mut offsets: Vec<(isize, usize)> = Vec::with_capacity(axis_len);
             for k in 0..axis_len {
                 let mut in_indices: Vec<usize> = out_indices[..axis.min(out_indices.len())].to_vec();
                 in_indices.push(k);
                 if axis < self.ndim() - 1 {
                     in_indices.extend_from_slice(&out_indices[axis..]);
                 }
-                values.push((self.get_element(&in_indices), k));
+                offsets.push((self.byte_offset_for(&in_indices), k));
             }
 
             // Sort by value
-            values.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(std::cmp::Ordering::Equal));
+            offsets.sort_by(|a, b| unsafe { ops.compare_elements(src_ptr, a.0, src_ptr, b.0) });
 
             // Write sorted values back
-            for (k, (val, _)) in values.iter().enumerate() {
+            for (k, (src_offset, _)) in offsets.iter().enumerate() {
                 let mut in_indices: Vec<usize> = out_indices[..axis.min(out_indices.len())].to_vec();
                 in_indices.push(k);
                 if axis < self.ndim() - 1 {
@@ -186,7 +234,7 @@ impl RumpyArray {
                 }
                 let byte_offset = result.byte_offset_for(&in_indices);
                 let linear_idx = byte_offset as usize / dtype.itemsize();
-                unsafe { ops.write_f64(result_ptr, linear_idx, *val); }
+                unsafe { ops.copy_element(src_ptr, *src_offset, result_ptr, linear_idx); }
             }
 
             increment_indices(&mut out_indices, &out_shape);
@@ -222,27 +270,30 @@ impl RumpyArray {
         }
         let out_size: usize = out_shape.iter().product();
 
+        let dtype = self.dtype();
+        let ops = dtype.ops();
+        let src_ptr = self.data_ptr();
         let result_buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
         let result_ptr = result_buffer.as_mut_ptr() as *mut i64;
 
         let mut out_indices = vec![0usize; out_shape.len()];
         for _ in 0..out_size {
-            // Collect values along axis with their indices
-            let mut values: Vec<(f64, usize)> = Vec::with_capacity(axis_len);
+            // Collect element offsets along axis with their indices
+            let mut offsets: Vec<(isize, usize)> = Vec::with_capacity(axis_len);
             for k in 0..axis_len {
                 let mut in_indices: Vec<usize> = out_indices[..axis.min(out_indices.len())].to_vec();
                 in_indices.push(k);
                 if axis < self.ndim() - 1 {
                     in_indices.extend_from_slice(&out_indices[axis..]);
                 }
-                values.push((self.get_element(&in_indices), k));
+                offsets.push((self.byte_offset_for(&in_indices), k));
             }
 
             // Sort by value, keeping track of original indices
-            values.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(std::cmp::Ordering::Equal));
+            offsets.sort_by(|a, b| unsafe { ops.compare_elements(src_ptr, a.0, src_ptr, b.0) });
 
             // Write sorted indices back
-            for (k, (_, orig_idx)) in values.iter().enumerate() {
+            for (k, (_, orig_idx)) in offsets.iter().enumerate() {
                 let mut in_indices: Vec<usize> = out_indices[..axis.min(out_indices.len())].to_vec();
                 in_indices.push(k);
                 if axis < self.ndim() - 1 {
@@ -332,11 +383,11 @@ fn partition_inplace(arr: &mut RumpyArray, kth: usize, axis: usize) {
         match dtype.kind() {
             DTypeKind::Float64 => {
                 let slice = unsafe { std::slice::from_raw_parts_mut(ptr as *mut f64, axis_len) };
-                slice.select_nth_unstable_by(kth, |a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+                slice.select_nth_unstable_by(kth, crate::array::dtype::nan_last_cmp);
             }
             DTypeKind::Float32 => {
                 let slice = unsafe { std::slice::from_raw_parts_mut(ptr as *mut f32, axis_len) };
-                slice.select_nth_unstable_by(kth, |a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+                slice.select_nth_unstable_by(kth, crate::array::dtype::nan_last_cmp);
             }
             DTypeKind::Int64 => {
                 let slice = unsafe { std::slice::from_raw_parts_mut(ptr as *mut i64, axis_len) };
@@ -486,7 +537,7 @@ fn argpartition_impl(arr: &RumpyArray, kth: usize, axis: usize) -> RumpyArray {
                 indices.select_nth_unstable_by(kth, |&a, &b| {
                     let va = slice[a as usize];
                     let vb = slice[b as usize];
-                    va.partial_cmp(&vb).unwrap_or(std::cmp::Ordering::Equal)
+                    crate::array::dtype::nan_last_cmp(&va, &vb)
                 });
             }
             DTypeKind::Float32 => {
@@ -494,7 +545,7 @@ fn argpartition_impl(arr: &RumpyArray, kth: usize, axis: usize) -> RumpyArray {
                 indices.select_nth_unstable_by(kth, |&a, &b| {
                     let va = slice[a as usize];
                     let vb = slice[b as usize];
-                    va.partial_cmp(&vb).unwrap_or(std::cmp::Ordering::Equal)
+                    crate::array::dtype::nan_last_cmp(&va, &vb)
                 });
             }
             DTypeKind::Int64 => {
@@ -666,11 +717,11 @@ pub fn lexsort(keys: &[&RumpyArray]) -> Option<RumpyArray> {
                 match info.dtype.kind() {
                     DTypeKind::Float64 => {
                         let slice = unsafe { std::slice::from_raw_parts(info.ptr as *const f64, n) };
-                        slice[a].partial_cmp(&slice[b]).unwrap_or(std::cmp::Ordering::Equal)
+                        crate::array::dtype::nan_last_cmp(&slice[a], &slice[b])
                     }
                     DTypeKind::Float32 => {
                         let slice = unsafe { std::slice::from_raw_parts(info.ptr as *const f32, n) };
-                        slice[a].partial_cmp(&slice[b]).unwrap_or(std::cmp::Ordering::Equal)
+                        crate::array::dtype::nan_last_cmp(&slice[a], &slice[b])
                     }
                     DTypeKind::Int64 => {
                         let slice = unsafe { std::slice::from_raw_parts(info.ptr as *const i64, n) };
diff --git a/src/ops/set_ops.rs b/src/ops/set_ops.rs
index 69a39f5..1db3e4a 100644
--- a/src/ops/set_ops.rs
+++ b/src/ops/set_ops.rs
@@ -5,62 +5,17 @@
 //! Uses sorting-based algorithms (like NumPy) rather than hash-based for better performance
 //! with sorted output requirements.
 
-use crate::array::dtype::DTypeKind;
 use crate::array::{DType, RumpyArray};
-use std::collections::HashSet;
 use std::sync::Arc;
 
-/// Collect array values as f64 Vec (for any contiguous array).
-fn collect_values(arr: &RumpyArray) -> Vec<f64> {
-    if arr.is_c_contiguous() {
-        let ptr = arr.data_ptr();
-        let size = arr.size();
-        match arr.dtype().kind() {
-            DTypeKind::Float64 => {
-                let p = ptr as *const f64;
-                (0..size).map(|i| unsafe { *p.add(i) }).collect()
-            }
-            DTypeKind::Int64 => {
-                let p = ptr as *const i64;
-                (0..size).map(|i| unsafe { *p.add(i) as f64 }).collect()
-            }
-            DTypeKind::Int32 => {
-                let p = ptr as *const i32;
-                (0..size).map(|i| unsafe { *p.add(i) as f64 }).collect()
-            }
-            DTypeKind::Float32 => {
-                let p = ptr as *const f32;
-                (0..size).map(|i| unsafe { *p.add(i) as f64 }).collect()
-            }
-            _ => {
-                let dtype = arr.dtype();
-                let ops = dtype.ops();
-                arr.iter_offsets()
-                    .map(|offset| unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0))
-                    .collect()
-            }
-        }
-    } else {
-        let dtype = arr.dtype();
-        let ops = dtype.ops();
-        let ptr = arr.data_ptr();
-        arr.iter_offsets()
-            .map(|offset| unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0))
-            .collect()
-    }
-}
-
-/// Extract values from array as sorted unique f64 Vec.
-fn collect_sorted_unique(arr: &RumpyArray) -> Vec<f64> {
-    let mut values = collect_values(arr);
-    values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
-    values.dedup();
-    values
-}
-
-/// Build a HashSet from array values for O(1) lookup.
-fn collect_hashset(arr: &RumpyArray) -> HashSet<u64> {
-    collect_values(arr).into_iter().map(|v| v.to_bits()).collect()
+/// Sorted unique elements of both arrays in their common dtype, joined in one array:
+/// the first `n1` elements come from `ar1`, the rest from `ar2`.
+fn sorted_unique_pair(ar1: &RumpyArray, ar2: &RumpyArray) -> (RumpyArray, usize) {
+    let dtype = crate::array::promote_dtype(&ar1.dtype(), &ar2.dtype());
+    let v1 = ar1.astype(dtype.clone()).unique();
+    let v2 = ar2.astype(dtype).unique();
+    let joined = crate::array::concatenate(&[v1.clone(), v2], 0).expect("1-D arrays of one dtype");
+    (joined, v1.size())
 }
 
 /// Test whether each element of `element` is also present in `test_elements`.
@@ -68,8 +23,12 @@ fn collect_hashset(arr: &RumpyArray) -> HashSet<u64> {
 ///
 /// If `invert` is true, returns the inverse (elements NOT in test_elements).
 pub fn isin(element: &RumpyArray, test_elements: &RumpyArray, invert: bool) -> RumpyArray {
-    let test_set = collect_hashset(test_elements);
-    let values = collect_values(element);
+    // One array of the common dtype: the elements first, then the sorted test values
+    let dtype = crate::array::promote_dtype(&element.dtype(), &test_elements.dtype());
+    let n = element.size();
+    let values = element.astype(dtype.clone()).reshape(vec![n]).expect("flatten should work");
+    let tests = test_elements.astype(dtype).unique();
+    let both = crate::array::concatenate(&[values, tests], 0).expect("1-D arrays of one dtype");
 
     // Create result array with same shape as element
     let mut result = RumpyArray::zeros(element.shape().to_vec(), DType::bool());
@@ -82,8 +41,17 @@ pub fn isin(element: &RumpyArray, test_elements: &RumpyArray, invert: bool) -> R
     let result_buffer = Arc::get_mut(buffer).expect("buffer must be unique");
     let result_ptr = result_buffer.as_mut_ptr();
 
-    for (i, val) in values.iter().enumerate() {
-        let found = test_set.contains(&val.to_bits());
+    for i in 0..n {
+        let (mut lo, mut hi) = (n, both.size());
+        while lo < hi {
+            let mid = lo + (hi - lo) / 2;
+            if both.compare_packed(mid, i).is_lt() {
+                lo = mid + 1;
+            } else {
+                hi = mid;
+            }
+        }
+        let found = lo < both.size() && both.compare_packed(lo, i).is_eq() && !both.is_nan_packed(i);
         unsafe { *result_ptr.add(i) = if found != invert { 1u8 } else { 0u8 }; }
     }
 
@@ -100,71 +68,69 @@ pub fn in1d(ar1: &RumpyArray, ar2: &RumpyArray, invert: bool) -> RumpyArray {
 /// Find the intersection of two arrays using sorted merge.
 /// Returns the sorted, unique values that are in both arrays.
 pub fn intersect1d(ar1: &RumpyArray, ar2: &RumpyArray) -> RumpyArray {
-    let v1 = collect_sorted_unique(ar1);
-    let v2 = collect_sorted_unique(ar2);
+    let (both, n1) = sorted_unique_pair(ar1, ar2);
+    let n2 = both.size();
 
     // Merge intersection on sorted arrays
-    let mut result = Vec::with_capacity(v1.len().min(v2.len()));
-    let (mut i, mut j) = (0, 0);
-    while i < v1.len() && j < v2.len() {
-        if v1[i] < v2[j] {
+    let mut result = Vec::with_capacity(n1.min(n2 - n1));
+    let (mut i, mut j) = (0, n1);
+    while i < n1 && j < n2 {
+        if both.compare_packed(i, j).is_lt() {
             i += 1;
-        } else if v1[i] > v2[j] {
+        } else if both.compare_packed(i, j).is_gt() {
             j += 1;
         } else {
-            result.push(v1[i]);
+            result.push(i);
             i += 1;
             j += 1;
         }
     }
 
-    let dtype = crate::array::promote_dtype(&ar1.dtype(), &ar2.dtype());
-    RumpyArray::from_vec(result, dtype)
+    both.gather_packed(&result)
 }
 
 /// Find the union of two arrays using sorted merge.
 /// Returns the sorted, unique values that are in either array.
 pub fn union1d(ar1: &RumpyArray, ar2: &RumpyArray) -> RumpyArray {
-    let v1 = collect_sorted_unique(ar1);
-    let v2 = collect_sorted_unique(ar2);
+    let (both, n1) = sorted_unique_pair(ar1, ar2);
+    let n2 = both.size();
 
     // Merge union on sorted arrays
-    let mut result = Vec::with_capacity(v1.len() + v2.len());
-    let (mut i, mut j) = (0, 0);
-    while i < v1.len() && j < v2.len() {
-        if v1[i] < v2[j] {
-            result.push(v1[i]);
+    let mut result = Vec::with_capacity(n2);
+    let (mut i, mut j) = (0, n1);
+    while i < n1 && j < n2 {
+        if both.compare_packed(i, j).is_lt() {
+            result.push(i);
             i += 1;
-        } else if v1[i] > v2[j] {
-            result.push(v2[j]);
+        } else if both.compare_packed(i, j).is_gt() {
+            result.push(j);
             j += 1;
         } else {
-            result.push(v1[i]);
+            result.push(i);
             i += 1;
             j += 1;
         }
     }
-    result.extend_from_slice(&v1[i..]);
-    result.extend_from_slice(&v2[j..]);
+    result.extend(i..n1);
+    result.extend(j..n2);
 
-    let dtype = crate::array::promote_dtype(&ar1.dtype(), &ar2.dtype());
-    RumpyArray::from_vec(result, dtype)
+    both.gather_packed(&result)
 }
 
 /// Find the set difference of two arrays using sorted merge.
 /// Returns the sorted, unique values in ar1 that are not in ar2.
 pub fn setdiff1d(ar1: &RumpyArray, ar2: &RumpyArray) -> RumpyArray {
-    let v1 = collect_sorted_unique(ar1);
-    let v2 = collect_sorted_unique(ar2);
+    let (both, n1) = sorted_unique_pair(ar1, ar2);
+    let n2 = both.size();
 
     // Merge difference on sorted arrays (elements in v1 not in v2)
-    let mut result = Vec::with_capacity(v1.len());
-    let (mut i, mut j) = (0, 0);
-    while i < v1.len() {
-        if j >= v2.len() || v1[i] < v2[j] {
-            result.push(v1[i]);
+    let mut result = Vec::with_capacity(n1);
+    let (mut i, mut j) = (0, n1);
+    while i < n1 {
+        if j >= n2 || both.compare_packed(i, j).is_lt() {
+            result.push(i);
             i += 1;
-        } else if v1[i] > v2[j] {
+        } else if both.compare_packed(i, j).is_gt() {
             j += 1;
         } else {
             // Equal - skip this element from v1
@@ -173,24 +139,24 @@ pub fn setdiff1d(ar1: &RumpyArray, ar2: &RumpyArray) -> RumpyArray {
         }
     }
 
-    RumpyArray::from_vec(result, ar1.dtype())
+    both.gather_packed(&result).astype(ar1.dtype())
 }
 
 /// Find the symmetric difference of two arrays using sorted merge.
 /// Returns the sorted, unique values that are in exactly one of the arrays.
 pub fn setxor1d(ar1: &RumpyArray, ar2: &RumpyArray) -> RumpyArray {
-    let v1 = collect_sorted_unique(ar1);
-    let v2 = collect_sorted_unique(ar2);
+    let (both, n1) = sorted_unique_pair(ar1, ar2);
+    let n2 = both.size();
 
     // Merge symmetric difference on sorted arrays
-    let mut result = Vec::with_capacity(v1.len() + v2.len());
-    let (mut i, mut j) = (0, 0);
-    while i < v1.len() && j < v2.len() {
-        if v1[i] < v2[j] {
-            result.push(v1[i]);
+    let mut result = Vec::with_capacity(n2);
+    let (mut i, mut j) = (0, n1);
+    while i < n1 && j < n2 {
+        if both.compare_packed(i, j).is_lt() {
+            result.push(i);
             i += 1;
-        } else if v1[i] > v2[j] {
-            result.push(v2[j]);
+        } else if both.compare_packed(i, j).is_gt() {
+            result.push(j);
             j += 1;
         } else {
             // Equal - skip both
@@ -198,11 +164,10 @@ pub fn setxor1d(ar1: &RumpyArray, ar2: &RumpyArray) -> RumpyArray {
             j += 1;
         }
     }
-    result.extend_from_slice(&v1[i..]);
-    result.extend_from_slice(&v2[j..]);
+    result.extend(i..n1);
+    result.extend(j..n2);
 
-    let dtype = crate::array::promote_dtype(&ar1.dtype(), &ar2.dtype());
-    RumpyArray::from_vec(result, dtype)
+    both.gather_packed(&result)
 }
 
 #[cfg(test)]
diff --git a/src/ops/statistics.rs b/src/ops/statistics.rs
index 9b33f5a..a9e3bfb 100644
--- a/src/ops/statistics.rs
+++ b/src/ops/statistics.rs
@@ -410,7 +410,7 @@ impl RumpyArray {
         let mid = size / 2;
 
         // select_nth_unstable partitions so values[mid] is the correct element
-        values.select_nth_unstable_by(mid, |a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+        values.select_nth_unstable_by(mid, crate::array::dtype::nan_last_cmp);
 
         if size.is_multiple_of(2) {
             // For even length, need max of left partition (which is unsorted)
@@ -459,7 +459,7 @@ impl RumpyArray {
             }
 
             // Sort and compute median
-            values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+            values.sort_by(crate::array::dtype::nan_last_cmp);
             let median = if axis_len.is_multiple_of(2) {
                 (values[axis_len / 2 - 1] + values[axis_len / 2]) / 2.0
             } else {
@@ -539,7 +539,7 @@ impl RumpyArray {
         let mid = n / 2;
 
         // Use select_nth_unstable for O(n) median
-        values.select_nth_unstable_by(mid, |a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+        values.select_nth_unstable_by(mid, crate::array::dtype::nan_last_cmp);
 
         if n % 2 == 0 {
             // For even length, need max of left partition
@@ -595,7 +595,7 @@ impl RumpyArray {
             let median = if values.is_empty() {
                 f64::NAN
             } else {
-                values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+                values.sort_by(crate::array::dtype::nan_last_cmp);
                 let n = values.len();
                 if n % 2 == 0 {
                     (values[n / 2 - 1] + values[n / 2]) / 2.0
-- 
2.43.0


From 4699a655080da1b3f16bebec189808b18b2f9072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:07 +0000
Subject: [PATCH 19/56] fix: datetime unit conversion must floor before the
 epoch; exact fractional seconds; ediff1d integer wrap

---
 src/array/dtype/datetime64.rs | 53 ++++++++++++++++++-----------------
 src/python/misc.rs            | 19 +++++++++++--
 2 files changed, 44 insertions(+), 28 deletions(-)

diff --git a/src/array/dtype/datetime64.rs b/src/array/dtype/datetime64.rs
index 186db18..d9026ce 100644
--- a/src/array/dtype/datetime64.rs
+++ b/src/array/dtype/datetime64.rs
@@ -460,8 +460,8 @@ pub fn format_datetime64(value: i64, unit: TimeUnit) -> String {
         TimeUnit::Months => {
             // value is months since 1970-01
             let total_months = 1970 * 12 + value;
-            let year = total_months / 12;
-            let month = (total_months % 12) + 1;
+            let year = total_months.div_euclid(12);
+            let month = total_months.rem_euclid(12) + 1;
             format!("{:04}-{:02}", year, month)
         }
         TimeUnit::Weeks => {
@@ -618,56 +618,57 @@ pub fn parse_datetime64(s: &str, unit: TimeUnit) -> i64 {
     let days = ymd_to_days(year, month, day);
 
     // Parse time if present
-    let (hours, minutes, seconds, subseconds) = if let Some(time_str) = time_part {
+    let (hours, minutes, seconds, nanoseconds) = if let Some(time_str) = time_part {
         parse_time_part(time_str)
     } else {
-        (0, 0, 0, 0.0)
+        (0, 0, 0, 0)
     };
 
     // Convert to target unit
     match unit {
         TimeUnit::Years => year - 1970,
         TimeUnit::Months => (year - 1970) * 12 + (month - 1),
-        TimeUnit::Weeks => days / 7,
+        TimeUnit::Weeks => days.div_euclid(7),
         TimeUnit::Days => days,
         TimeUnit::Hours => days * 24 + hours,
         TimeUnit::Minutes => days * 24 * 60 + hours * 60 + minutes,
         TimeUnit::Seconds => days * 86400 + hours * 3600 + minutes * 60 + seconds,
         TimeUnit::Milliseconds => {
             let secs = days * 86400 + hours * 3600 + minutes * 60 + seconds;
-            secs * 1000 + (subseconds * 1000.0) as i64
+            secs * 1000 + nanoseconds / 1_000_000
         }
         TimeUnit::Microseconds => {
             let secs = days * 86400 + hours * 3600 + minutes * 60 + seconds;
-            secs * 1_000_000 + (subseconds * 1_000_000.0) as i64
+            secs * 1_000_000 + nanoseconds / 1000
         }
         TimeUnit::Nanoseconds => {
             let secs = days * 86400 + hours * 3600 + minutes * 60 + seconds;
-            secs * 1_000_000_000 + (subseconds * 1_000_000_000.0) as i64
+            secs * 1_000_000_000 + nanoseconds
         }
     }
 }
 
-/// Parse time part HH:MM:SS.sss returning (hours, minutes, seconds, subseconds as fraction).
-fn parse_time_part(s: &str) -> (i64, i64, i64, f64) {
+/// Parse time part HH:MM:SS.sss returning (hours, minutes, seconds, nanoseconds).
+fn parse_time_part(s: &str) -> (i64, i64, i64, i64) {
     let parts: Vec<&str> = s.split(':').collect();
     let hours: i64 = parts.first().and_then(|s| s.parse().ok()).unwrap_or(0);
     let minutes: i64 = parts.get(1).and_then(|s| s.parse().ok()).unwrap_or(0);
 
     // Seconds may have fractional part
-    let (seconds, subseconds) = if let Some(sec_str) = parts.get(2) {
+    let (seconds, nanoseconds) = if let Some(sec_str) = parts.get(2) {
         if let Some(dot_pos) = sec_str.find('.') {
             let secs: i64 = sec_str[..dot_pos].parse().unwrap_or(0);
-            let frac: f64 = format!("0.{}", &sec_str[dot_pos+1..]).parse().unwrap_or(0.0);
+            let digits: String = sec_str[dot_pos + 1..].chars().chain("000000000".chars()).take(9).collect();
+            let frac: i64 = digits.parse().unwrap_or(0);
             (secs, frac)
         } else {
-            (sec_str.parse().unwrap_or(0), 0.0)
+            (sec_str.parse().unwrap_or(0), 0)
         }
     } else {
-        (0, 0.0)
+        (0, 0)
     };
 
-    (hours, minutes, seconds, subseconds)
+    (hours, minutes, seconds, nanoseconds)
 }
 
 /// Convert datetime64 value from one unit to another.
@@ -685,7 +686,7 @@ pub fn convert_datetime64(value: i64, from_unit: TimeUnit, to_unit: TimeUnit) ->
     match (from_unit, to_unit) {
         // Variable to variable
         (TimeUnit::Years, TimeUnit::Months) => value * 12,
-        (TimeUnit::Months, TimeUnit::Years) => value / 12,
+        (TimeUnit::Months, TimeUnit::Years) => value.div_euclid(12),
 
         // Variable to fixed - convert via date calculation
         (TimeUnit::Years, to) => {
@@ -695,8 +696,8 @@ pub fn convert_datetime64(value: i64, from_unit: TimeUnit, to_unit: TimeUnit) ->
         }
         (TimeUnit::Months, to) => {
             let total_months = 1970 * 12 + value;
-            let year = total_months / 12;
-            let month = (total_months % 12) + 1;
+            let year = total_months.div_euclid(12);
+            let month = total_months.rem_euclid(12) + 1;
             let days = ymd_to_days(year, month, 1);
             days_to_unit(days, to)
         }
@@ -720,7 +721,7 @@ pub fn convert_datetime64(value: i64, from_unit: TimeUnit, to_unit: TimeUnit) ->
             if from_factor >= to_factor {
                 value * (from_factor / to_factor)
             } else {
-                value / (to_factor / from_factor)
+                value.div_euclid(to_factor / from_factor)
             }
         }
     }
@@ -736,7 +737,7 @@ fn days_to_unit(days: i64, unit: TimeUnit) -> i64 {
                 (year - 1970) * 12 + (month - 1)
             }
         }
-        TimeUnit::Weeks => days / 7,
+        TimeUnit::Weeks => days.div_euclid(7),
         TimeUnit::Days => days,
         TimeUnit::Hours => days * 24,
         TimeUnit::Minutes => days * 24 * 60,
@@ -755,11 +756,11 @@ fn unit_to_days(value: i64, unit: TimeUnit) -> i64 {
         }
         TimeUnit::Weeks => value * 7,
         TimeUnit::Days => value,
-        TimeUnit::Hours => value / 24,
-        TimeUnit::Minutes => value / (24 * 60),
-        TimeUnit::Seconds => value / 86400,
-        TimeUnit::Milliseconds => value / (86400 * 1000),
-        TimeUnit::Microseconds => value / (86400 * 1_000_000),
-        TimeUnit::Nanoseconds => value / (86400 * 1_000_000_000),
+        TimeUnit::Hours => value.div_euclid(24),
+        TimeUnit::Minutes => value.div_euclid(24 * 60),
+        TimeUnit::Seconds => value.div_euclid(86400),
+        TimeUnit::Milliseconds => value.div_euclid(86400 * 1000),
+        TimeUnit::Microseconds => value.div_euclid(86400 * 1_000_000),
+        TimeUnit::Nanoseconds => value.div_euclid(86400 * 1_000_000_000),
     }
 }
diff --git a/src/python/misc.rs b/src/python/misc.rs
index 18ec667..883b588 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -976,6 +976,21 @@ pub fn ediff1d(
     let buffer = Arc::get_mut(&mut result.buffer).expect("unique");
     let dst_ptr = buffer.as_mut_ptr();
 
+    // Integer differences wrap, like every other integer operation
+    trait Ediff {
+        fn ediff(self, prev: Self) -> Self;
+    }
+    macro_rules! impl_ediff {
+        ($sub:ident: $($ty:ty),*) => {$(
+            impl Ediff for $ty {
+                fn ediff(self, prev: Self) -> Self { self.$sub(prev) }
+            }
+        )*};
+    }
+    use std::ops::Sub;
+    impl_ediff!(sub: f32, f64);
+    impl_ediff!(wrapping_sub: i8, i16, i32, i64, u8, u16, u32, u64);
+
     macro_rules! ediff1d_typed {
         ($ty:ty) => {{
             let dst = dst_ptr as *mut $ty;
@@ -998,7 +1013,7 @@ pub fn ediff1d(
                 let src = inner.data_ptr() as *const $ty;
                 if inner.is_c_contiguous() {
                     for i in 1..size {
-                        unsafe { *dst.add(idx) = *src.add(i) - *src.add(i - 1); }
+                        unsafe { *dst.add(idx) = (*src.add(i)).ediff(*src.add(i - 1)); }
                         idx += 1;
                     }
                 } else {
@@ -1006,7 +1021,7 @@ pub fn ediff1d(
                     for i in 1..size {
                         let curr = unsafe { *(inner.data_ptr().offset(offsets[i]) as *const $ty) };
                         let prev = unsafe { *(inner.data_ptr().offset(offsets[i - 1]) as *const $ty) };
-                        unsafe { *dst.add(idx) = curr - prev; }
+                        unsafe { *dst.add(idx) = curr.ediff(prev); }
                         idx += 1;
                     }
                 }
-- 
2.43.0


From 90ede0395cc8c7027c0d39e458664b93efdcc132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:04 +0000
Subject: [PATCH 20/56] fix: where() with complex or mixed dtypes; slice steps
 larger than the axis overflowed

---
 src/array/views.rs | 10 +++++----
 src/ops/mod.rs     | 51 ++++++++++++++--------------------------------
 2 files changed, 21 insertions(+), 40 deletions(-)

diff --git a/src/array/views.rs b/src/array/views.rs
index 3a3d8f5..c3a6b7e 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -57,12 +57,12 @@ impl RumpyArray {
         // Compute new length
         let new_len = if step > 0 {
             if stop > start {
-                (stop - start + step - 1) / step
+                (stop - start - 1) / step + 1
             } else {
                 0
             }
         } else if start > stop {
-            (start - stop - step - 1) / (-step)
+            (start - stop - 1) / step.saturating_neg() + 1
         } else {
             0
         };
@@ -73,9 +73,11 @@ impl RumpyArray {
         // Strides are signed: stepping into a reversed axis moves backwards.
         let offset_delta = if new_len == 0 { 0 } else { start * old_stride };
 
-        // New stride = old_stride * step
+        // New stride = old_stride * step (a step past the axis end leaves nothing to step over)
         let mut new_strides = self.strides.clone();
-        new_strides[axis] = old_stride * step;
+        if new_len > 1 {
+            new_strides[axis] = old_stride * step;
+        }
 
         let mut new_shape = self.shape.clone();
         new_shape[axis] = new_len;
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 5976f7e..49381c3 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -333,7 +333,11 @@ pub fn where_select(condition: &RumpyArray, x: &RumpyArray, y: &RumpyArray) -> O
         return Some(result);
     }
 
-    // Fallback for mixed dtypes
+    // Mixed dtypes: convert both branches to the result dtype first
+    if x.dtype() != result_dtype || y.dtype() != result_dtype {
+        return where_select(condition, &x.astype(result_dtype.clone()), &y.astype(result_dtype));
+    }
+
     let cond = condition.broadcast_to(&out_shape)?;
     let x_bc = x.broadcast_to(&out_shape)?;
     let y_bc = y.broadcast_to(&out_shape)?;
@@ -357,44 +361,19 @@ pub fn where_select(condition: &RumpyArray, x: &RumpyArray, y: &RumpyArray) -> O
     let x_ptr = x_bc.data_ptr();
     let y_ptr = y_bc.data_ptr();
 
-    // Check if all dtypes match for direct copy (shouldn't hit this if dispatch worked)
-    let same_dtype = x_bc.dtype() == y_bc.dtype() && x_bc.dtype() == result.dtype();
-
     let mut indices = vec![0usize; out_shape.len()];
 
-    if same_dtype {
-        for i in 0..size {
-            let cond_offset = cond.byte_offset_for(&indices);
-            let is_true = unsafe { cond_ops.is_truthy(cond_ptr, cond_offset) };
-            if is_true {
-                let x_offset = x_bc.byte_offset_for(&indices);
-                unsafe { result_ops.copy_element(x_ptr, x_offset, result_ptr, i); }
-            } else {
-                let y_offset = y_bc.byte_offset_for(&indices);
-                unsafe { result_ops.copy_element(y_ptr, y_offset, result_ptr, i); }
-            }
-            increment_indices(&mut indices, &out_shape);
-        }
-    } else {
-        // Different dtypes: read as f64, write as f64
-        let x_dtype = x_bc.dtype();
-        let x_ops = x_dtype.ops();
-        let y_dtype = y_bc.dtype();
-        let y_ops = y_dtype.ops();
-
-        for i in 0..size {
-            let cond_offset = cond.byte_offset_for(&indices);
-            let is_true = unsafe { cond_ops.is_truthy(cond_ptr, cond_offset) };
-            let val = if is_true {
-                let x_offset = x_bc.byte_offset_for(&indices);
-                unsafe { x_ops.read_f64(x_ptr, x_offset).unwrap_or(0.0) }
-            } else {
-                let y_offset = y_bc.byte_offset_for(&indices);
-                unsafe { y_ops.read_f64(y_ptr, y_offset).unwrap_or(0.0) }
-            };
-            unsafe { result_ops.write_f64(result_ptr, i, val); }
-            increment_indices(&mut indices, &out_shape);
+    for i in 0..size {
+        let cond_offset = cond.byte_offset_for(&indices);
+        let is_true = unsafe { cond_ops.is_truthy(cond_ptr, cond_offset) };
+        if is_true {
+            let x_offset = x_bc.byte_offset_for(&indices);
+            unsafe { result_ops.copy_element(x_ptr, x_offset, result_ptr, i); }
+        } else {
+            let y_offset = y_bc.byte_offset_for(&indices);
+            unsafe { result_ops.copy_element(y_ptr, y_offset, result_ptr, i); }
         }
+        increment_indices(&mut indices, &out_shape);
     }
 
     Some(result)
-- 
2.43.0


From da33d7a76b11ff2b23fcc903309457e92efff593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:25 +0000
Subject: [PATCH 21/56] fix: shuffle wrote out of bounds for narrow or strided
 arrays; integers, permutation and choice lost precision or range

---
 src/python/random.rs    | 120 ++++++++++++++++++----------------------
 src/random/generator.rs |  19 +++----
 2 files changed, 62 insertions(+), 77 deletions(-)

diff --git a/src/python/random.rs b/src/python/random.rs
index 9032e35..57453d6 100644
--- a/src/python/random.rs
+++ b/src/python/random.rs
@@ -86,14 +86,17 @@ impl PyGenerator {
             Some(h) => (low, h),
             None => (0, low),
         };
+        if low >= high {
+            return Err(pyo3::exceptions::PyValueError::new_err("low >= high"));
+        }
 
         Python::with_gil(|py| {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    // Return scalar - use integers with shape [1] and extract
-                    let arr = gen.integers(low, high, vec![1]);
-                    let val = arr.get_element(&[0]) as i64;
+                    // Return scalar
+                    let range = high.wrapping_sub(low) as u64;
+                    let val = low.wrapping_add(gen.bounded_uint64(range) as i64);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
@@ -228,17 +231,20 @@ impl PyGenerator {
 
         // Try array
         if let Ok(arr_ref) = x.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-            // Copy array data
-            let ptr = arr_ref.inner.data_ptr();
-            let dtype = arr_ref.inner.dtype();
-            let ops = dtype.ops();
-            let mut data: Vec<f64> = Vec::with_capacity(arr_ref.inner.size());
-            for offset in arr_ref.inner.iter_offsets() {
-                data.push(unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0));
-            }
-            // Shuffle
-            gen.shuffle_data(&mut data);
-            let result = RumpyArray::from_vec(data, DType::float64());
+            // Shuffle the order of the entries along the first axis
+            let arr = &arr_ref.inner;
+            let n = *arr.shape().first().ok_or_else(|| {
+                pyo3::exceptions::PyTypeError::new_err("permutation: x must be an integer or at least 1-d")
+            })?;
+            let row_size = arr.shape()[1..].iter().product::<usize>();
+            let mut order: Vec<usize> = (0..n).collect();
+            gen.shuffle_data(&mut order);
+            let positions: Vec<usize> = order.iter()
+                .flat_map(|&i| i * row_size..(i + 1) * row_size)
+                .collect();
+            let result = arr.copy().gather_packed(&positions)
+                .reshape(arr.shape().to_vec())
+                .expect("same number of elements");
             return Ok(PyRumpyArray::new(result));
         }
 
@@ -253,32 +259,32 @@ impl PyGenerator {
         let py_arr = x.borrow();
 
         let arr = &py_arr.inner;
-        let n = arr.shape()[0];
+        let n = *arr.shape().first().ok_or_else(|| {
+            pyo3::exceptions::PyTypeError::new_err("shuffle: x must be at least 1-d")
+        })?;
 
         if n <= 1 {
             return Ok(());
         }
 
-        // Get mutable pointer to data
         // Safety: We have exclusive access via PyO3's borrow checking and the GIL
-        let ptr = arr.data_ptr() as *mut f64;
-        let size = arr.size();
-        let data = unsafe { std::slice::from_raw_parts_mut(ptr, size) };
-
-        // For 1D arrays, shuffle elements directly
-        if arr.ndim() == 1 {
-            for i in (1..n).rev() {
-                let j = gen.bounded_uint64((i + 1) as u64) as usize;
-                data.swap(i, j);
-            }
-        } else {
-            // For ND arrays, shuffle along first axis by swapping rows
-            let row_size = arr.shape()[1..].iter().product::<usize>();
-            for i in (1..n).rev() {
-                let j = gen.bounded_uint64((i + 1) as u64) as usize;
-                // Swap rows i and j
-                for k in 0..row_size {
-                    data.swap(i * row_size + k, j * row_size + k);
+        let ptr = arr.data_ptr() as *mut u8;
+        let itemsize = arr.itemsize();
+        let axis_stride = arr.strides()[0];
+        // Byte offsets of the elements of the first row
+        let row: Vec<isize> = arr.slice_axis(0, 0, 1, 1).iter_offsets().collect();
+
+        // Fisher-Yates along the first axis
+        for i in (1..n).rev() {
+            let j = gen.bounded_uint64((i + 1) as u64) as usize;
+            if i == j {
+                continue;
+            }
+            for &offset in &row {
+                unsafe {
+                    let a = ptr.offset(offset + i as isize * axis_stride);
+                    let b = ptr.offset(offset + j as isize * axis_stride);
+                    std::ptr::swap_nonoverlapping(a, b, itemsize);
                 }
             }
         }
@@ -864,31 +870,21 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
 
             // Parse `a` - either integer (range) or array-like
-            let values: Option<Vec<f64>> = if a.extract::<usize>().is_ok() {
-                None // Integer case: sample indices directly
+            let values: RumpyArray = if let Ok(n) = a.extract::<usize>() {
+                RumpyArray::from_vec((0..n).map(|i| i as f64).collect(), DType::float64())
             } else if let Ok(arr) = a.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-                let ptr = arr.inner.data_ptr();
-                let dtype = arr.inner.dtype();
-                let ops = dtype.ops();
-                let mut vals = Vec::with_capacity(arr.inner.size());
-                for offset in arr.inner.iter_offsets() {
-                    vals.push(unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0));
-                }
-                Some(vals)
-            } else if let Ok(list) = a.extract::<Vec<f64>>() {
-                Some(list)
+                arr.inner.copy()
             } else if let Ok(list) = a.extract::<Vec<i64>>() {
-                Some(list.into_iter().map(|x| x as f64).collect())
+                RumpyArray::from_vec_i64(list, DType::int64())
+            } else if let Ok(list) = a.extract::<Vec<f64>>() {
+                RumpyArray::from_vec(list, DType::float64())
             } else {
                 return Err(pyo3::exceptions::PyTypeError::new_err(
                     "choice: 'a' must be an int or array-like"
                 ));
             };
 
-            let n = match &values {
-                Some(v) => v.len(),
-                None => a.extract::<usize>().unwrap(),
-            };
+            let n = values.size();
 
             if n == 0 {
                 return Err(pyo3::exceptions::PyValueError::new_err(
@@ -897,7 +893,7 @@ impl PyGenerator {
             }
 
             let shape = match size {
-                None => vec![1],
+                None => vec![],
                 Some(s) => parse_shape(s)?,
             };
             let total: usize = shape.iter().product();
@@ -908,29 +904,23 @@ impl PyGenerator {
                 ));
             }
 
-            // Generate samples
-            let result_data: Vec<f64> = if replace {
-                (0..total).map(|_| {
-                    let idx = gen.bounded_uint64(n as u64) as usize;
-                    values.as_ref().map_or(idx as f64, |v| v[idx])
-                }).collect()
+            // Draw positions, then gather the elements
+            let positions: Vec<usize> = if replace {
+                (0..total).map(|_| gen.bounded_uint64(n as u64) as usize).collect()
             } else {
                 let mut available: Vec<usize> = (0..n).collect();
                 (0..total).map(|i| {
                     let j = gen.bounded_uint64((n - i) as u64) as usize;
-                    let idx = available.swap_remove(j);
-                    values.as_ref().map_or(idx as f64, |v| v[idx])
+                    available.swap_remove(j)
                 }).collect()
             };
+            let samples = values.gather_packed(&positions);
 
             if size.is_none() {
-                return Ok(result_data[0].into_pyobject(py)?.into_any().unbind());
+                return samples.to_pylist(py)?.bind(py).get_item(0).map(|v| v.unbind());
             }
 
-            let arr = RumpyArray::from_vec(result_data, DType::float64())
-                .reshape(shape)
-                .unwrap_or_else(|| RumpyArray::zeros(vec![total], DType::float64()));
-
+            let arr = samples.reshape(shape).expect("same number of elements");
             Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
         })
     }
diff --git a/src/random/generator.rs b/src/random/generator.rs
index 3fe0b49..927c9ec 100644
--- a/src/random/generator.rs
+++ b/src/random/generator.rs
@@ -96,17 +96,17 @@ impl Generator {
 
     /// Generate random integers in [low, high).
     pub fn integers(&mut self, low: i64, high: i64, shape: Vec<usize>) -> RumpyArray {
-        let range = (high - low) as u64;
+        let range = high.wrapping_sub(low) as u64;
         let size: usize = shape.iter().product();
         let mut data = Vec::with_capacity(size);
 
         for _ in 0..size {
             // Bounded rejection sampling for uniform distribution
             let val = self.bounded_uint64(range);
-            data.push((low + val as i64) as f64);
+            data.push(low.wrapping_add(val as i64));
         }
 
-        RumpyArray::from_vec_with_shape(data, shape, DType::int64())
+        RumpyArray::from_vec_i64_with_shape(data, shape, DType::int64())
     }
 
     /// Generate bounded random u64 in [0, range) using Lemire's algorithm.
@@ -188,18 +188,13 @@ impl Generator {
 
     /// Random permutation of integers from 0 to n-1, or a shuffled copy of an array.
     pub fn permutation(&mut self, n: usize) -> RumpyArray {
-        let mut data: Vec<f64> = (0..n).map(|i| i as f64).collect();
-        // Fisher-Yates shuffle
-        for i in (1..n).rev() {
-            let j = self.bounded_uint64((i + 1) as u64) as usize;
-            data.swap(i, j);
-        }
-        RumpyArray::from_vec(data, DType::float64())
+        let mut data: Vec<i64> = (0..n as i64).collect();
+        self.shuffle_data(&mut data);
+        RumpyArray::from_vec_i64(data, DType::int64())
     }
 
     /// Shuffle data in place using Fisher-Yates algorithm.
-    /// Takes a mutable slice of f64 values.
-    pub fn shuffle_data(&mut self, data: &mut [f64]) {
+    pub fn shuffle_data<T>(&mut self, data: &mut [T]) {
         let n = data.len();
         for i in (1..n).rev() {
             let j = self.bounded_uint64((i + 1) as u64) as usize;
-- 
2.43.0


From 02e0e871b455ff06acf31116cb4b3e1b18bf4146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:52 +0000
Subject: [PATCH 22/56] fix: einsum with an index summed in one operand only
 read outside the operands; digitize with decreasing bins; place and putmask
 with other dtypes

---
 src/ops/einsum.rs   |  57 +++++--------
 src/ops/indexing.rs |   4 +-
 src/python/misc.rs  | 190 +++++++-------------------------------------
 3 files changed, 49 insertions(+), 202 deletions(-)

diff --git a/src/ops/einsum.rs b/src/ops/einsum.rs
index 93e474c..511e2c5 100644
--- a/src/ops/einsum.rs
+++ b/src/ops/einsum.rs
@@ -683,19 +683,19 @@ fn einsum_binary_elementwise(
     let contract_size: usize = contract_dims.iter().product();
     let out_size: usize = out_shape.iter().product();
 
-    // Build index mappings
-    let out_to_a: Vec<Option<usize>> = out_sub.iter()
-        .map(|c| a_sub.iter().position(|ac| ac == c))
-        .collect();
-    let out_to_b: Vec<Option<usize>> = out_sub.iter()
-        .map(|c| b_sub.iter().position(|bc| bc == c))
-        .collect();
-    let contract_in_a: Vec<usize> = contraction_indices.iter()
-        .filter_map(|c| a_sub.iter().position(|ac| ac == c))
-        .collect();
-    let contract_in_b: Vec<usize> = contraction_indices.iter()
-        .filter_map(|c| b_sub.iter().position(|bc| bc == c))
-        .collect();
+    // Where each operand axis gets its index from: (true, i) is output axis i,
+    // (false, i) is contraction index i. An index may repeat within an operand, and a
+    // contracted index may appear in one operand only.
+    let index_source = |sub: &[char]| -> Vec<(bool, usize)> {
+        sub.iter()
+            .map(|c| match out_sub.iter().position(|oc| oc == c) {
+                Some(i) => (true, i),
+                None => (false, contraction_indices.iter().position(|cc| cc == c).unwrap()),
+            })
+            .collect()
+    };
+    let a_source = index_source(a_sub);
+    let b_source = index_source(b_sub);
 
     let a_strides = a.strides();
     let b_strides = b.strides();
@@ -719,9 +719,7 @@ fn einsum_binary_elementwise(
         // Sum over contraction indices
         let mut sum = 0.0f64;
 
-        let contract_iters = if contract_size == 0 { 1 } else { contract_size };
-
-        for c_flat in 0..contract_iters {
+        for c_flat in 0..contract_size {
             // Decode contraction position
             let mut c_idx = vec![0usize; contract_dims.len()];
             if !contract_dims.is_empty() {
@@ -732,27 +730,9 @@ fn einsum_binary_elementwise(
                 }
             }
 
-            // Build a index
-            let mut a_idx = vec![0usize; a_sub.len()];
-            for (i, &maybe_a_pos) in out_to_a.iter().enumerate() {
-                if let Some(a_pos) = maybe_a_pos {
-                    a_idx[a_pos] = out_idx[i];
-                }
-            }
-            for (ci, &a_pos) in contract_in_a.iter().enumerate() {
-                a_idx[a_pos] = c_idx[ci];
-            }
-
-            // Build b index
-            let mut b_idx = vec![0usize; b_sub.len()];
-            for (i, &maybe_b_pos) in out_to_b.iter().enumerate() {
-                if let Some(b_pos) = maybe_b_pos {
-                    b_idx[b_pos] = out_idx[i];
-                }
-            }
-            for (ci, &b_pos) in contract_in_b.iter().enumerate() {
-                b_idx[b_pos] = c_idx[ci];
-            }
+            let pick = |&(from_out, i): &(bool, usize)| if from_out { out_idx[i] } else { c_idx[i] };
+            let a_idx: Vec<usize> = a_source.iter().map(pick).collect();
+            let b_idx: Vec<usize> = b_source.iter().map(pick).collect();
 
             let a_offset = compute_offset(&a_idx, a_strides);
             let b_offset = compute_offset(&b_idx, b_strides);
@@ -871,7 +851,8 @@ fn einsum_multi(
         current_sub = out_indices;
     }
 
-    // Copy result to output array (dtype-aware)
+    // Copy result to output array (dtype-aware); a permuted result is a view, so lay it out first
+    let current = current.astype(result.dtype());
     let out_ptr = result.data_ptr() as *mut u8;
     let cur_ptr = current.data_ptr();
     let itemsize = result.dtype().itemsize();
diff --git a/src/ops/indexing.rs b/src/ops/indexing.rs
index 8b3dc94..e641f37 100644
--- a/src/ops/indexing.rs
+++ b/src/ops/indexing.rs
@@ -939,9 +939,9 @@ pub fn digitize(x: &RumpyArray, bins: &RumpyArray, right: bool) -> RumpyArray {
         let bin_idx = if is_decreasing {
             // For decreasing bins: len(bins) - searchsorted(reversed_bins, val, side)
             let search_idx = if right {
-                reversed_bins.partition_point(|&b| b <= val)
-            } else {
                 reversed_bins.partition_point(|&b| b < val)
+            } else {
+                reversed_bins.partition_point(|&b| b <= val)
             };
             bins_size - search_idx
         } else {
diff --git a/src/python/misc.rs b/src/python/misc.rs
index 883b588..24a6357 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -512,95 +512,26 @@ pub fn place(arr: &PyRumpyArray, mask: &PyRumpyArray, vals: &PyRumpyArray) -> Py
         return Ok(());
     }
 
-    let arr_dtype = inner.dtype();
-    let size = inner.size();
+    // Elements are moved as whole items of the array's own dtype
+    let mask_arr = mask_arr.astype(DType::bool());
+    let vals_arr = vals_arr.astype(inner.dtype());
+    let itemsize = inner.dtype().itemsize();
     let vals_size = vals_arr.size();
-
-    // Fast path: all contiguous, same dtype, bool mask
-    if mask_arr.is_c_contiguous() && inner.is_c_contiguous() && vals_arr.is_c_contiguous()
-        && arr_dtype.kind() == vals_arr.dtype().kind()
-    {
-        let mask_ptr = mask_arr.data_ptr() as *const u8;
-        let arr_ptr = inner.data_ptr();
-        let vals_ptr = vals_arr.data_ptr();
-
-        macro_rules! place_typed {
-            ($ty:ty) => {{
-                let dst = arr_ptr as *mut $ty;
-                let src = vals_ptr as *const $ty;
-                let mut val_idx = 0usize;
-                for i in 0..size {
-                    if unsafe { *mask_ptr.add(i) } != 0 {
-                        unsafe { *dst.add(i) = *src.add(val_idx % vals_size); }
-                        val_idx += 1;
-                    }
-                }
-            }};
-        }
-
-        match arr_dtype.kind() {
-            DTypeKind::Float32 => place_typed!(f32),
-            DTypeKind::Float64 => place_typed!(f64),
-            DTypeKind::Int32 => place_typed!(i32),
-            DTypeKind::Int64 => place_typed!(i64),
-            DTypeKind::Uint32 => place_typed!(u32),
-            DTypeKind::Uint64 => place_typed!(u64),
-            DTypeKind::Int8 => place_typed!(i8),
-            DTypeKind::Int16 => place_typed!(i16),
-            DTypeKind::Uint8 => place_typed!(u8),
-            DTypeKind::Uint16 => place_typed!(u16),
-            DTypeKind::Bool => place_typed!(u8),
-            _ => {} // Fall through to generic path
-        }
-        return Ok(());
-    }
-
-    // Strided path with typed dispatch
     let mask_ptr = mask_arr.data_ptr();
-    let mask_offsets: Vec<isize> = mask_arr.iter_offsets().collect();
     let vals_ptr = vals_arr.data_ptr();
-    let vals_offsets: Vec<isize> = vals_arr.iter_offsets().collect();
-    let arr_ptr = inner.data_ptr();
-    let arr_offsets: Vec<isize> = inner.iter_offsets().collect();
-
-    macro_rules! place_strided_typed {
-        ($ty:ty) => {{
-            let mut val_idx = 0usize;
-            for i in 0..size {
-                if unsafe { *(mask_ptr.offset(mask_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { *(vals_ptr.offset(vals_offsets[val_idx % vals_size]) as *const $ty) };
-                    unsafe { *(arr_ptr.offset(arr_offsets[i]) as *mut $ty) = val; }
-                    val_idx += 1;
-                }
-            }
-        }};
-    }
+    let arr_ptr = inner.data_ptr() as *mut u8;
+    let mut val_idx = 0usize;
 
-    match arr_dtype.kind() {
-        DTypeKind::Float32 => place_strided_typed!(f32),
-        DTypeKind::Float64 => place_strided_typed!(f64),
-        DTypeKind::Int32 => place_strided_typed!(i32),
-        DTypeKind::Int64 => place_strided_typed!(i64),
-        DTypeKind::Uint32 => place_strided_typed!(u32),
-        DTypeKind::Uint64 => place_strided_typed!(u64),
-        DTypeKind::Int8 => place_strided_typed!(i8),
-        DTypeKind::Int16 => place_strided_typed!(i16),
-        DTypeKind::Uint8 => place_strided_typed!(u8),
-        DTypeKind::Uint16 => place_strided_typed!(u16),
-        DTypeKind::Bool => place_strided_typed!(u8),
-        _ => {
-            // Complex types fallback
-            let arr_ops = arr_dtype.ops();
-            let vals_dtype = vals_arr.dtype();
-            let vals_ops = vals_dtype.ops();
-            let mut val_idx = 0usize;
-            for i in 0..size {
-                if unsafe { *(mask_ptr.offset(mask_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { vals_ops.read_f64(vals_ptr, vals_offsets[val_idx % vals_size]) }.unwrap_or(0.0);
-                    unsafe { arr_ops.write_f64_at_byte_offset(arr_ptr as *mut u8, arr_offsets[i], val); }
-                    val_idx += 1;
-                }
+    for (i, offset) in inner.iter_offsets().enumerate() {
+        if unsafe { *mask_ptr.add(i) } != 0 {
+            unsafe {
+                std::ptr::copy_nonoverlapping(
+                    vals_ptr.add((val_idx % vals_size) * itemsize),
+                    arr_ptr.offset(offset),
+                    itemsize,
+                );
             }
+            val_idx += 1;
         }
     }
 
@@ -629,88 +560,23 @@ pub fn putmask(a: &PyRumpyArray, mask: &PyRumpyArray, values: &PyRumpyArray) ->
         return Ok(());
     }
 
-    let arr_dtype = inner.dtype();
-    let size = inner.size();
+    // Elements are moved as whole items of the array's own dtype
+    let mask_arr = mask_arr.astype(DType::bool());
+    let vals_arr = vals_arr.astype(inner.dtype());
+    let itemsize = inner.dtype().itemsize();
     let vals_size = vals_arr.size();
-
-    // Fast path: all contiguous, same dtype, bool mask
-    if mask_arr.is_c_contiguous() && inner.is_c_contiguous() && vals_arr.is_c_contiguous()
-        && arr_dtype.kind() == vals_arr.dtype().kind()
-    {
-        let mask_ptr = mask_arr.data_ptr() as *const u8;
-        let arr_ptr = inner.data_ptr();
-        let vals_ptr = vals_arr.data_ptr();
-
-        macro_rules! putmask_typed {
-            ($ty:ty) => {{
-                let dst = arr_ptr as *mut $ty;
-                let src = vals_ptr as *const $ty;
-                for i in 0..size {
-                    if unsafe { *mask_ptr.add(i) } != 0 {
-                        unsafe { *dst.add(i) = *src.add(i % vals_size); }
-                    }
-                }
-            }};
-        }
-
-        match arr_dtype.kind() {
-            DTypeKind::Float32 => putmask_typed!(f32),
-            DTypeKind::Float64 => putmask_typed!(f64),
-            DTypeKind::Int32 => putmask_typed!(i32),
-            DTypeKind::Int64 => putmask_typed!(i64),
-            DTypeKind::Uint32 => putmask_typed!(u32),
-            DTypeKind::Uint64 => putmask_typed!(u64),
-            DTypeKind::Int8 => putmask_typed!(i8),
-            DTypeKind::Int16 => putmask_typed!(i16),
-            DTypeKind::Uint8 => putmask_typed!(u8),
-            DTypeKind::Uint16 => putmask_typed!(u16),
-            DTypeKind::Bool => putmask_typed!(u8),
-            _ => {} // Fall through to generic path
-        }
-        return Ok(());
-    }
-
-    // Strided path with typed dispatch
     let mask_ptr = mask_arr.data_ptr();
-    let mask_offsets: Vec<isize> = mask_arr.iter_offsets().collect();
     let vals_ptr = vals_arr.data_ptr();
-    let vals_offsets: Vec<isize> = vals_arr.iter_offsets().collect();
-    let arr_ptr = inner.data_ptr();
-    let arr_offsets: Vec<isize> = inner.iter_offsets().collect();
-
-    macro_rules! putmask_strided_typed {
-        ($ty:ty) => {{
-            for i in 0..size {
-                if unsafe { *(mask_ptr.offset(mask_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { *(vals_ptr.offset(vals_offsets[i % vals_size]) as *const $ty) };
-                    unsafe { *(arr_ptr.offset(arr_offsets[i]) as *mut $ty) = val; }
-                }
-            }
-        }};
-    }
+    let arr_ptr = inner.data_ptr() as *mut u8;
 
-    match arr_dtype.kind() {
-        DTypeKind::Float32 => putmask_strided_typed!(f32),
-        DTypeKind::Float64 => putmask_strided_typed!(f64),
-        DTypeKind::Int32 => putmask_strided_typed!(i32),
-        DTypeKind::Int64 => putmask_strided_typed!(i64),
-        DTypeKind::Uint32 => putmask_strided_typed!(u32),
-        DTypeKind::Uint64 => putmask_strided_typed!(u64),
-        DTypeKind::Int8 => putmask_strided_typed!(i8),
-        DTypeKind::Int16 => putmask_strided_typed!(i16),
-        DTypeKind::Uint8 => putmask_strided_typed!(u8),
-        DTypeKind::Uint16 => putmask_strided_typed!(u16),
-        DTypeKind::Bool => putmask_strided_typed!(u8),
-        _ => {
-            // Complex types fallback
-            let arr_ops = arr_dtype.ops();
-            let vals_dtype = vals_arr.dtype();
-            let vals_ops = vals_dtype.ops();
-            for i in 0..size {
-                if unsafe { *(mask_ptr.offset(mask_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { vals_ops.read_f64(vals_ptr, vals_offsets[i % vals_size]) }.unwrap_or(0.0);
-                    unsafe { arr_ops.write_f64_at_byte_offset(arr_ptr as *mut u8, arr_offsets[i], val); }
-                }
+    for (i, offset) in inner.iter_offsets().enumerate() {
+        if unsafe { *mask_ptr.add(i) } != 0 {
+            unsafe {
+                std::ptr::copy_nonoverlapping(
+                    vals_ptr.add((i % vals_size) * itemsize),
+                    arr_ptr.offset(offset),
+                    itemsize,
+                );
             }
         }
     }
-- 
2.43.0


From a305e272f3c83d6c857d29a76a3088d7822b56ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:28 +0000
Subject: [PATCH 23/56] fix: save() of a Fortran-ordered array wrote the
 elements in the wrong order; load() overflowed on oversized shapes

---
 src/ops/io.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ops/io.rs b/src/ops/io.rs
index 5e70630..6352617 100644
--- a/src/ops/io.rs
+++ b/src/ops/io.rs
@@ -435,11 +435,12 @@ pub fn write_npy<W: Write>(writer: &mut W, arr: &RumpyArray) -> Result<(), Strin
         writer.write_all(&padding).map_err(|e| e.to_string())?;
     }
 
-    // Write data - need contiguous array
-    let contiguous = if arr.is_c_contiguous() {
-        arr.clone()
+    // Write data - need contiguous array, with the axes reversed for Fortran order
+    let ordered = if fortran_order { arr.transpose() } else { arr.clone() };
+    let contiguous = if ordered.is_c_contiguous() {
+        ordered
     } else {
-        arr.copy()
+        ordered.copy()
     };
 
     let data = unsafe { std::slice::from_raw_parts(contiguous.data_ptr(), contiguous.nbytes()) };
@@ -502,8 +503,11 @@ pub fn read_npy<R: Read>(reader: &mut R) -> Result<RumpyArray, String> {
     let (dtype, shape, fortran_order) = parse_npy_header(&header)?;
 
     // Create array and read data
-    let size: usize = shape.iter().product();
-    let nbytes = size * dtype.itemsize();
+    let nbytes = shape
+        .iter()
+        .try_fold(dtype.itemsize(), |n, &d| n.checked_mul(d))
+        .filter(|&n| n <= isize::MAX as usize)
+        .ok_or_else(|| "Array in file is too large".to_string())?;
 
     let mut buffer = ArrayBuffer::new(nbytes);
     let buf_ptr = buffer.as_mut_ptr();
-- 
2.43.0


From 28eb8cce0e46ffd7cf5ed3ab6ca57714e93689ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:28 +0000
Subject: [PATCH 24/56] fix: einsum on one operand with a repeated kept index
 took the wrong elements

---
 src/ops/einsum.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/ops/einsum.rs b/src/ops/einsum.rs
index 511e2c5..57fea39 100644
--- a/src/ops/einsum.rs
+++ b/src/ops/einsum.rs
@@ -362,11 +362,6 @@ fn einsum_single(
     let a_sub = &parsed.inputs[0];
     let out_sub = &parsed.output;
 
-    // Find which output index corresponds to which a index
-    let out_to_a: Vec<Option<usize>> = out_sub.iter()
-        .map(|c| a_sub.iter().position(|ac| ac == c))
-        .collect();
-
     // Find contraction index positions in a (may have multiple for repeated indices)
     let contract_in_a: Vec<(char, usize)> = contraction_indices.iter()
         .flat_map(|&c| {
@@ -440,9 +435,9 @@ fn einsum_single(
 
                 // Build full a index
                 let mut a_idx = vec![0usize; a_sub.len()];
-                for (i, &maybe_a_pos) in out_to_a.iter().enumerate() {
-                    if let Some(a_pos) = maybe_a_pos {
-                        a_idx[a_pos] = out_idx[i];
+                for (pos, c) in a_sub.iter().enumerate() {
+                    if let Some(i) = out_sub.iter().position(|oc| oc == c) {
+                        a_idx[pos] = out_idx[i];
                     }
                 }
                 // Map contraction index to contraction dimension and then to position
-- 
2.43.0


From 69aa3f1d5d911236ec6365bc8d2b4c41eace245d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:19 +0000
Subject: [PATCH 25/56] fix: convert imported arrays by their own dtype, byte
 order and alignment

An array imported through __array_interface__ was read as the requested
dtype instead of being converted to it, a big-endian source was read as
little-endian, and misaligned sources (and misaligned view()) aborted the
process in debug builds.
---
 src/python/creation.rs    | 45 +++++++++++++++++++++++++++++----------
 src/python/pyarray/mod.rs |  7 ++++++
 2 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/python/creation.rs b/src/python/creation.rs
index f8e5794..af777b0 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -347,6 +347,18 @@ pub fn array_impl(py: Python<'_>, obj: &Bound<'_, PyAny>, dtype: Option<&Bound<'
     ))
 }
 
+/// Size in bytes of an element's scalar components (the unit of alignment and byte order).
+pub(super) fn component_size(dtype: &DType) -> usize {
+    use crate::array::dtype::DTypeKind;
+
+    match dtype.kind() {
+        DTypeKind::Complex64 | DTypeKind::Complex128 => dtype.itemsize() / 2,
+        DTypeKind::Str(_) => 4,
+        DTypeKind::Bytes(_) => 1,
+        _ => dtype.itemsize(),
+    }
+}
+
 /// Create array from __array_interface__ dict.
 fn from_array_interface(
     _py: Python<'_>,
@@ -363,12 +375,12 @@ fn from_array_interface(
         return Err(pyo3::exceptions::PyValueError::new_err("Invalid shape"));
     };
 
-    // Extract typestr to determine dtype
+    // The typestr describes the source's elements; an override converts them afterwards
     let typestr: String = interface.get_item("typestr")?.extract()?;
-    let dtype = if let Some(dt) = dtype_override {
-        parse_dtype_any(dt)?
-    } else {
-        dtype_from_typestr(&typestr)?
+    let dtype = dtype_from_typestr(&typestr)?;
+    let target_dtype = match dtype_override {
+        Some(dt) => parse_dtype_any(dt)?,
+        None => dtype.clone(),
     };
 
     // Extract data pointer
@@ -392,20 +404,21 @@ fn from_array_interface(
     // Calculate size and copy data
     let size: usize = shape.iter().product();
     let itemsize = dtype.itemsize();
-    let mut arr = RumpyArray::zeros(shape.clone(), dtype);
+    let mut arr = RumpyArray::zeros(shape.clone(), dtype.clone());
 
     if size == 0 {
-        return Ok(PyRumpyArray::new(arr));
+        return Ok(PyRumpyArray::new(arr.astype(target_dtype)));
     }
 
+    // Big-endian sources are byte-swapped component by component
+    let swap_size = if typestr.starts_with('>') { component_size(&dtype) } else { 1 };
+
     // Copy data respecting strides
     let src_ptr = data_ptr as *const u8;
     let src_strides = strides.unwrap_or_else(|| {
         crate::array::compute_c_strides(&shape, itemsize)
     });
 
-    let dtype = arr.dtype();
-    // Use get_element pattern - iterate and copy
     let buffer = arr.buffer_mut();
     let result_buffer = std::sync::Arc::get_mut(buffer).expect("buffer must be unique");
     let dst_ptr = result_buffer.as_mut_ptr();
@@ -419,12 +432,22 @@ fn from_array_interface(
             .map(|(&idx, &stride)| idx as isize * stride)
             .sum();
 
-        // Copy element from source to destination
-        unsafe { dtype.ops().copy_element(src_ptr, src_offset, dst_ptr, i); }
+        // Copy the element's bytes: the source need not be aligned
+        unsafe {
+            let dst = dst_ptr.add(i * itemsize);
+            std::ptr::copy_nonoverlapping(src_ptr.offset(src_offset), dst, itemsize);
+            if swap_size > 1 {
+                let bytes = std::slice::from_raw_parts_mut(dst, itemsize);
+                bytes.chunks_exact_mut(swap_size).for_each(|c| c.reverse());
+            }
+        }
 
         increment_indices(&mut indices, &shape);
     }
 
+    if arr.dtype() != target_dtype {
+        arr = arr.astype(target_dtype);
+    }
     Ok(PyRumpyArray::new(arr))
 }
 
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index fcf3258..3127df8 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -683,6 +683,13 @@ impl PyRumpyArray {
         let mut new_shape = shape.to_vec();
         new_shape[shape.len() - 1] = last_dim_bytes / new_itemsize;
 
+        // Elements of the new type must be aligned
+        if self.inner.data_ptr() as usize % crate::python::creation::component_size(&new_dtype) != 0 {
+            return Err(pyo3::exceptions::PyValueError::new_err(
+                "view requires data aligned for the new dtype"
+            ));
+        }
+
         // Create new strides
         let mut new_strides = Vec::with_capacity(new_shape.len());
         let mut stride = new_itemsize as isize;
-- 
2.43.0


From fe1213157cbe78fd1bc0ce9e80fb80aa537f248c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:31 +0000
Subject: [PATCH 26/56] fix: infer a list's dtype from all of its elements

Only the first element was looked at, so array([1, 2.5]) truncated 2.5,
array([True, 2]) lost the 2, and nested string lists were cut to the
longest string of the first row.
---
 src/python/creation.rs | 61 +++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/src/python/creation.rs b/src/python/creation.rs
index af777b0..2be3a76 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -3,7 +3,7 @@
 use pyo3::prelude::*;
 use pyo3::types::PyList;
 
-use crate::array::{increment_indices, DType, RumpyArray};
+use crate::array::{increment_indices, promote_dtype, DType, RumpyArray};
 use super::{parse_dtype, parse_dtype_any, parse_shape, PyRumpyArray};
 
 /// Helper to parse optional dtype argument.
@@ -451,37 +451,38 @@ fn from_array_interface(
     Ok(PyRumpyArray::new(arr))
 }
 
-/// Infer dtype from first element of a Python list.
+/// Infer the dtype that holds every element of a (possibly nested) Python list.
 fn infer_dtype_from_list(list: &Bound<'_, PyList>) -> Option<DType> {
-    if list.is_empty() {
-        return Some(DType::float64());
-    }
-    let first = list.get_item(0).ok()?;
-    // Recurse into nested lists
-    if let Ok(sublist) = first.downcast::<PyList>() {
-        return infer_dtype_from_list(sublist);
-    }
-    // Check type of first element - order matters: bool before int!
-    if first.is_instance_of::<pyo3::types::PyBool>() {
-        return Some(DType::bool());
-    }
-    if first.is_instance_of::<pyo3::types::PyInt>() {
-        return Some(DType::int64());
-    }
-    if first.is_instance_of::<pyo3::types::PyFloat>() {
-        return Some(DType::float64());
-    }
-    // Check for strings - compute max length from all elements
-    if first.is_instance_of::<pyo3::types::PyString>() {
-        let max_len = compute_max_string_length(list).unwrap_or(0);
-        return Some(DType::str_(max_len));
-    }
-    // Check for bytes
-    if first.is_instance_of::<pyo3::types::PyBytes>() {
-        let max_len = compute_max_bytes_length(list).unwrap_or(0);
-        return Some(DType::bytes_(max_len));
+    use crate::array::dtype::DTypeKind;
+
+    let mut dtype: Option<DType> = None;
+    for item in list.iter() {
+        // Order matters: bool before int!
+        let item_dtype = if let Ok(sublist) = item.downcast::<PyList>() {
+            // Recurse into nested lists
+            infer_dtype_from_list(sublist)?
+        } else if item.is_instance_of::<pyo3::types::PyBool>() {
+            DType::bool()
+        } else if item.is_instance_of::<pyo3::types::PyInt>() {
+            DType::int64()
+        } else if item.is_instance_of::<pyo3::types::PyFloat>() {
+            DType::float64()
+        } else if item.is_instance_of::<pyo3::types::PyString>() {
+            DType::str_(0)
+        } else if item.is_instance_of::<pyo3::types::PyBytes>() {
+            DType::bytes_(0)
+        } else {
+            DType::float64()
+        };
+        dtype = match (item_dtype.kind(), dtype) {
+            // Strings and bytes - compute max length from all elements
+            (DTypeKind::Str(_), _) => return Some(DType::str_(compute_max_string_length(list)?)),
+            (DTypeKind::Bytes(_), _) => return Some(DType::bytes_(compute_max_bytes_length(list)?)),
+            (_, Some(dt)) => Some(promote_dtype(&dt, &item_dtype)),
+            (_, None) => Some(item_dtype),
+        };
     }
-    Some(DType::float64())
+    Some(dtype.unwrap_or(DType::float64()))
 }
 
 /// Compute the maximum string length in a (possibly nested) list.
-- 
2.43.0


From 80f8d10453b5efd60cb5b36b81309f0c076fe40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:05 +0000
Subject: [PATCH 27/56] fix: reject ragged nested lists

array([[1, 2], [3]]) silently produced an array of shape (3,).
---
 src/python/creation.rs | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/python/creation.rs b/src/python/creation.rs
index 2be3a76..8bb94cc 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -616,19 +616,30 @@ pub fn from_list(list: &Bound<'_, PyList>, dtype: Option<&Bound<'_, PyAny>>) ->
     Ok(PyRumpyArray::new(RumpyArray::from_vec(data, dtype)))
 }
 
+/// Record the shape of a nested list's i-th item: every item must have the shape of the first.
+fn extend_nested_shape(shape: &mut Vec<usize>, i: usize, item_shape: Vec<usize>) -> PyResult<()> {
+    if i == 0 {
+        shape.extend(item_shape);
+    } else if shape[1..] != item_shape[..] {
+        return Err(pyo3::exceptions::PyValueError::new_err(
+            "nested lists must all have the same shape",
+        ));
+    }
+    Ok(())
+}
+
 /// Flatten nested Python list, returning shape and data as f64.
 fn flatten_nested_list(list: &Bound<'_, PyList>) -> PyResult<(Vec<usize>, Vec<f64>)> {
     let mut shape = vec![list.len()];
     let mut data = Vec::new();
 
-    for item in list.iter() {
+    for (i, item) in list.iter().enumerate() {
         if let Ok(sublist) = item.downcast::<PyList>() {
             let (sub_shape, sub_data) = flatten_nested_list(sublist)?;
-            if shape.len() == 1 {
-                shape.extend(sub_shape);
-            }
+            extend_nested_shape(&mut shape, i, sub_shape)?;
             data.extend(sub_data);
         } else {
+            extend_nested_shape(&mut shape, i, Vec::new())?;
             data.push(item.extract::<f64>()?);
         }
     }
@@ -641,14 +652,13 @@ fn flatten_nested_list_i64(list: &Bound<'_, PyList>) -> PyResult<(Vec<usize>, Ve
     let mut shape = vec![list.len()];
     let mut data = Vec::new();
 
-    for item in list.iter() {
+    for (i, item) in list.iter().enumerate() {
         if let Ok(sublist) = item.downcast::<PyList>() {
             let (sub_shape, sub_data) = flatten_nested_list_i64(sublist)?;
-            if shape.len() == 1 {
-                shape.extend(sub_shape);
-            }
+            extend_nested_shape(&mut shape, i, sub_shape)?;
             data.extend(sub_data);
         } else {
+            extend_nested_shape(&mut shape, i, Vec::new())?;
             data.push(item.extract::<i64>()?);
         }
     }
@@ -661,14 +671,13 @@ fn flatten_nested_list_str(list: &Bound<'_, PyList>) -> PyResult<(Vec<usize>, Ve
     let mut shape = vec![list.len()];
     let mut data = Vec::new();
 
-    for item in list.iter() {
+    for (i, item) in list.iter().enumerate() {
         if let Ok(sublist) = item.downcast::<PyList>() {
             let (sub_shape, sub_data) = flatten_nested_list_str(sublist)?;
-            if shape.len() == 1 {
-                shape.extend(sub_shape);
-            }
+            extend_nested_shape(&mut shape, i, sub_shape)?;
             data.extend(sub_data);
         } else {
+            extend_nested_shape(&mut shape, i, Vec::new())?;
             data.push(item.extract::<String>()?);
         }
     }
@@ -681,14 +690,13 @@ fn flatten_nested_list_bytes(list: &Bound<'_, PyList>) -> PyResult<(Vec<usize>,
     let mut shape = vec![list.len()];
     let mut data = Vec::new();
 
-    for item in list.iter() {
+    for (i, item) in list.iter().enumerate() {
         if let Ok(sublist) = item.downcast::<PyList>() {
             let (sub_shape, sub_data) = flatten_nested_list_bytes(sublist)?;
-            if shape.len() == 1 {
-                shape.extend(sub_shape);
-            }
+            extend_nested_shape(&mut shape, i, sub_shape)?;
             data.extend(sub_data);
         } else {
+            extend_nested_shape(&mut shape, i, Vec::new())?;
             data.push(item.extract::<Vec<u8>>()?);
         }
     }
-- 
2.43.0


From 077710232d71f15fb49bb027cefaaf863b19db49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:10 +0000
Subject: [PATCH 28/56] fix: export string arrays with their width and values

np.asarray() and save() of a string or bytes array used a zero-width
typestr and lost every character; tolist() and item access returned 0.0
for strings, only the real part of complex and signed values of uint64.
---
 src/array/dtype/mod.rs    |  8 +++++++-
 src/ops/io.rs             |  2 +-
 src/ops/mod.rs            | 18 +++---------------
 src/python/pyarray/mod.rs | 13 ++++++++++++-
 4 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/array/dtype/mod.rs b/src/array/dtype/mod.rs
index 8ee41bd..4beb8d1 100644
--- a/src/array/dtype/mod.rs
+++ b/src/array/dtype/mod.rs
@@ -418,7 +418,13 @@ impl DType {
     pub fn itemsize(&self) -> usize { self.0.itemsize() }
 
     #[inline]
-    pub fn typestr(&self) -> &'static str { self.0.typestr() }
+    pub fn typestr(&self) -> String {
+        match self.kind() {
+            DTypeKind::Str(max_chars) => format!("<U{}", max_chars),
+            DTypeKind::Bytes(max_bytes) => format!("|S{}", max_bytes),
+            _ => self.0.typestr().to_string(),
+        }
+    }
 
     #[inline]
     pub fn format_char(&self) -> &'static str { self.0.format_char() }
diff --git a/src/ops/io.rs b/src/ops/io.rs
index 6352617..16bff00 100644
--- a/src/ops/io.rs
+++ b/src/ops/io.rs
@@ -379,7 +379,7 @@ pub fn save_npy(path: &Path, arr: &RumpyArray) -> Result<(), String> {
 /// Write array in NPY format to a writer.
 pub fn write_npy<W: Write>(writer: &mut W, arr: &RumpyArray) -> Result<(), String> {
     // Build header dictionary
-    let descr = arr.dtype().ops().typestr();
+    let descr = arr.dtype().typestr();
     let fortran_order = arr.is_f_contiguous() && !arr.is_c_contiguous();
     let shape_str = format!(
         "({}{})",
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 49381c3..b818072 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -279,22 +279,11 @@ impl RumpyArray {
             py: pyo3::Python<'_>,
             depth: usize,
             indices: &mut Vec<usize>,
-            use_int: bool,
         ) -> pyo3::PyResult<pyo3::PyObject> {
             use pyo3::IntoPyObject;
             if depth == arr.ndim() {
                 // Base case: return scalar of appropriate type
-                let offset = arr.byte_offset_for(indices);
-                let ptr = arr.data_ptr();
-                let dtype = arr.dtype();
-                let ops = dtype.ops();
-                if use_int {
-                    let val = unsafe { ops.read_i64(ptr, offset) }.unwrap_or(0);
-                    return Ok(val.into_pyobject(py)?.into_any().unbind());
-                } else {
-                    let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-                    return Ok(val.into_pyobject(py)?.into_any().unbind());
-                }
+                return crate::python::pyarray::element_to_py(py, arr, indices);
             }
 
             // Build list for this dimension
@@ -302,15 +291,14 @@ impl RumpyArray {
             let mut items = Vec::with_capacity(dim_size);
             for i in 0..dim_size {
                 indices[depth] = i;
-                items.push(build_list(arr, py, depth + 1, indices, use_int)?);
+                items.push(build_list(arr, py, depth + 1, indices)?);
             }
             let list = PyList::new(py, items)?;
             Ok(list.into_pyobject(py)?.into_any().unbind())
         }
 
         let mut indices = vec![0usize; self.ndim()];
-        let use_int = self.dtype().is_integer();
-        build_list(self, py, 0, &mut indices, use_int)
+        build_list(self, py, 0, &mut indices)
     }
 }
 
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 3127df8..6bb7eb7 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -986,7 +986,7 @@ fn extract_slice_indices(
 }
 
 /// Read one element as the matching Python scalar (exact for every integer dtype).
-fn element_to_py(py: Python<'_>, arr: &RumpyArray, indices: &[usize]) -> PyResult<PyObject> {
+pub(crate) fn element_to_py(py: Python<'_>, arr: &RumpyArray, indices: &[usize]) -> PyResult<PyObject> {
     let dtype = arr.dtype();
     let kind = dtype.kind();
     if matches!(kind, DTypeKind::Complex64 | DTypeKind::Complex128) {
@@ -1001,6 +1001,17 @@ fn element_to_py(py: Python<'_>, arr: &RumpyArray, indices: &[usize]) -> PyResul
             _ => val.into_pyobject(py)?.into_any().unbind(),
         });
     }
+    let ptr = unsafe { arr.data_ptr().offset(arr.byte_offset_for(indices)) };
+    if let DTypeKind::Str(max_chars) = kind {
+        let chars = unsafe { std::slice::from_raw_parts(ptr as *const u32, max_chars) };
+        let s: String = chars.iter().take_while(|&&c| c != 0).filter_map(|&c| char::from_u32(c)).collect();
+        return Ok(s.into_pyobject(py)?.into_any().unbind());
+    }
+    if let DTypeKind::Bytes(max_bytes) = kind {
+        let bytes = unsafe { std::slice::from_raw_parts(ptr, max_bytes) };
+        let len = bytes.iter().rposition(|&b| b != 0).map_or(0, |i| i + 1);
+        return Ok(pyo3::types::PyBytes::new(py, &bytes[..len]).into_any().unbind());
+    }
     Ok(arr.get_element(indices).into_pyobject(py)?.into_any().unbind())
 }
 
-- 
2.43.0


From 1ba5f25a84959d19606a5f3240890ac20f05dcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:29 +0000
Subject: [PATCH 29/56] fix: refuse to load big-endian datetime files

Only the big-endian datetime64/timedelta64 descriptors were accepted, and
their data was then read as little-endian.
---
 src/ops/io.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ops/io.rs b/src/ops/io.rs
index 16bff00..2435604 100644
--- a/src/ops/io.rs
+++ b/src/ops/io.rs
@@ -547,6 +547,9 @@ fn parse_npy_header(header: &str) -> Result<(DType, Vec<usize>, bool), String> {
 
     // Extract descr
     let descr = extract_string_value(header, "descr")?;
+    if descr.starts_with('>') {
+        return Err(format!("Unsupported dtype: {}", descr));
+    }
     let dtype = descr
         .parse::<DType>()
         .map_err(|_| format!("Unsupported dtype: {}", descr))?;
-- 
2.43.0


From 220478048c250878b85e2267c797deb24e97b31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:44 +0000
Subject: [PATCH 30/56] fix: string operations on strided arrays read the
 addressed elements

char.add, multiply, comparisons, padding, expandtabs and join ignored the
strides of their operands and read outside them.
---
 src/ops/char.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ops/char.rs b/src/ops/char.rs
index 3701b90..37f951f 100644
--- a/src/ops/char.rs
+++ b/src/ops/char.rs
@@ -287,9 +287,13 @@ unsafe fn read_string(arr: &RumpyArray, flat_idx: usize) -> String {
         _ => return String::new(),
     };
 
-    let itemsize = arr.dtype().itemsize();
     let ptr = arr.data_ptr();
-    let byte_offset = (flat_idx * itemsize) as isize;
+    let mut rest = flat_idx;
+    let mut byte_offset = 0isize;
+    for (&dim, &stride) in arr.shape().iter().zip(arr.strides()).rev() {
+        byte_offset += (rest % dim) as isize * stride;
+        rest /= dim;
+    }
     let start = ptr.offset(byte_offset) as *const u32;
 
     let mut chars = Vec::with_capacity(max_chars);
-- 
2.43.0


From 485edb8f8d17981840cd5575f0fff3f70271434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:12 +0000
Subject: [PATCH 31/56] fix: solve() returns floats and no longer writes past
 its result

The float64 solution was stored into an array of a's dtype, overrunning
the buffer for every narrower dtype and giving bit patterns for int64.
---
 src/ops/solve.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ops/solve.rs b/src/ops/solve.rs
index f128578..54bd3e9 100644
--- a/src/ops/solve.rs
+++ b/src/ops/solve.rs
@@ -2,7 +2,7 @@
 //!
 //! Solves Ax = b for x using LU decomposition with partial pivoting.
 
-use crate::array::RumpyArray;
+use crate::array::{promote_dtype, DType, DTypeKind, RumpyArray};
 use faer::prelude::SpSolver;
 
 /// Solve linear system Ax = b.
@@ -52,7 +52,7 @@ pub fn solve(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
     let fx = plu.solve(&fb);
 
     // Copy result to output
-    let result = RumpyArray::zeros(vec![n, m], a.dtype());
+    let result = RumpyArray::zeros(vec![n, m], DType::float64());
     let result_ptr = result.data_ptr() as *mut u8;
     let r_stride_0 = result.strides()[0];
     let r_stride_1 = result.strides()[1];
@@ -67,9 +67,17 @@ pub fn solve(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
         }
     }
 
-    // Squeeze back to 1D if input was 1D
+    // The solution has the operands' floating dtype
+    let dtype = promote_dtype(&a.dtype(), &b.dtype());
+    let result = if dtype.is_integer() || dtype.kind() == DTypeKind::Bool {
+        result
+    } else {
+        result.astype(dtype)
+    };
+
+    // Back to 1D if input was 1D
     if squeeze {
-        Some(result.squeeze())
+        result.reshape(vec![n])
     } else {
         Some(result)
     }
-- 
2.43.0


From 30f37477fd78511fe7f09d26e5b2db2c2fa82919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:12 +0000
Subject: [PATCH 32/56] fix: norms of strided, integer and complex arrays

norm() of a non-contiguous matrix was 0, integer squares wrapped, and
complex values were squared instead of taking their magnitude.
---
 src/ops/array_methods/reductions.rs | 12 ++++++++++--
 src/ops/kernels/arithmetic.rs       |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index ee154d3..f4e068f 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -2,7 +2,7 @@
 //! Includes both standard and NaN-aware variants.
 
 use crate::array::{increment_indices, DType, RumpyArray};
-use crate::array::dtype::{ReduceOp, UnaryOp};
+use crate::array::dtype::{DTypeKind, ReduceOp, UnaryOp};
 use crate::ops::{map_unary_op, reduce_all_f64, reduce_axis_op, BinaryOp};
 use crate::ops::ufunc::variance_f64_contiguous;
 use std::sync::Arc;
@@ -36,7 +36,15 @@ impl RumpyArray {
     /// Sum of squares: sum(x*x). Single pass, no intermediate allocation.
     /// Used for efficient 2-norm computation: sqrt(sum_of_squares(x)).
     pub fn sum_of_squares(&self) -> f64 {
-        crate::ops::dispatch::dispatch_reduce_sum_of_squares(self).unwrap_or(0.0)
+        // The kernels need packed data, and integers are squared as floats so that nothing wraps
+        let arr = if self.dtype().is_integer() || self.dtype().kind() == DTypeKind::Bool {
+            self.astype(DType::float64())
+        } else if self.is_c_contiguous() {
+            self.clone()
+        } else {
+            self.copy()
+        };
+        crate::ops::dispatch::dispatch_reduce_sum_of_squares(&arr).unwrap_or(0.0)
     }
 
     /// Product of all elements.
diff --git a/src/ops/kernels/arithmetic.rs b/src/ops/kernels/arithmetic.rs
index 1ee2494..50ccdd5 100644
--- a/src/ops/kernels/arithmetic.rs
+++ b/src/ops/kernels/arithmetic.rs
@@ -528,7 +528,7 @@ macro_rules! impl_complex_arithmetic {
             #[inline(always)]
             fn init() -> Complex<$F> { Complex::new(0.0 as $F, 0.0 as $F) }
             #[inline(always)]
-            fn combine(acc: Complex<$F>, v: Complex<$F>) -> Complex<$F> { acc + v * v }
+            fn combine(acc: Complex<$F>, v: Complex<$F>) -> Complex<$F> { acc + Complex::new(v.norm_sqr(), 0.0 as $F) }
         }
         impl BinaryKernel<Complex<$F>> for Pow {
             #[inline(always)]
-- 
2.43.0


From 20dea52c4a5e3998a49f13985c018d7ee5c7916e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:36 +0000
Subject: [PATCH 33/56] fix: copyto, put, put_along_axis, fill and
 fill_diagonal keep values and layout

They went through float64 (losing large integers and imaginary parts),
fill_diagonal and copyto ignored strides or overlap of their source.
---
 src/ops/indexing.rs       | 31 ++++++++++------
 src/python/creation.rs    | 74 ++++++++++++---------------------------
 src/python/indexing.rs    | 60 ++++---------------------------
 src/python/pyarray/mod.rs | 70 ++++++++++++++----------------------
 4 files changed, 75 insertions(+), 160 deletions(-)

diff --git a/src/ops/indexing.rs b/src/ops/indexing.rs
index e641f37..f21886e 100644
--- a/src/ops/indexing.rs
+++ b/src/ops/indexing.rs
@@ -499,10 +499,12 @@ pub fn flatnonzero(arr: &RumpyArray) -> RumpyArray {
     result
 }
 
-/// Replace elements at given flat indices with given values.
-pub fn put(arr: &mut RumpyArray, indices: &[i64], values: &[f64]) -> Option<()> {
+/// Replace elements at given flat indices with given values (repeated as needed).
+/// The values are packed and have the array's dtype.
+pub fn put(arr: &mut RumpyArray, indices: &[i64], values: &RumpyArray) -> Option<()> {
     let size = arr.size();
-    if indices.is_empty() {
+    let values_len = values.size();
+    if indices.is_empty() || values_len == 0 {
         return Some(());
     }
 
@@ -513,10 +515,12 @@ pub fn put(arr: &mut RumpyArray, indices: &[i64], values: &[f64]) -> Option<()>
 
     let ndim = arr.ndim();
     let shape = arr.shape().to_vec();
-    let values_len = values.len();
+    let dtype = arr.dtype();
+    let itemsize = dtype.itemsize();
+    let ptr = arr.data_ptr_mut();
 
     for (i, &flat_idx) in normalized.iter().enumerate() {
-        let val = values[i % values_len];
+        let val_offset = ((i % values_len) * itemsize) as isize;
 
         // Convert flat index to nd indices
         let mut indices_nd = vec![0usize; ndim];
@@ -526,7 +530,10 @@ pub fn put(arr: &mut RumpyArray, indices: &[i64], values: &[f64]) -> Option<()>
             remaining /= shape[d];
         }
 
-        arr.set_element(&indices_nd, val);
+        unsafe {
+            let dst = ptr.offset(arr.byte_offset_for(&indices_nd));
+            dtype.ops().copy_element(values.data_ptr(), val_offset, dst, 0);
+        }
     }
 
     Some(())
@@ -548,9 +555,10 @@ pub fn put_along_axis(arr: &mut RumpyArray, indices: &RumpyArray, values: &Rumpy
     let idx_ptr = indices.data_ptr();
     let idx_dtype = indices.dtype();
     let idx_ops = idx_dtype.ops();
+    let dtype = arr.dtype();
+    let values = values.astype(dtype.clone());
     let val_ptr = values.data_ptr();
-    let val_dtype = values.dtype();
-    let val_ops = val_dtype.ops();
+    let arr_ptr = arr.data_ptr_mut();
 
     let idx_strides = indices.strides();
     let val_strides = values.strides();
@@ -575,12 +583,13 @@ pub fn put_along_axis(arr: &mut RumpyArray, indices: &RumpyArray, values: &Rumpy
         let idx_val = unsafe { idx_ops.read_i64(idx_ptr, idx_offset) }.unwrap_or(0) as isize;
         let normalized_idx = normalize_index(idx_val, axis_len)?;
 
-        let val = unsafe { val_ops.read_f64(val_ptr, val_offset) }.unwrap_or(0.0);
-
         target_indices.copy_from_slice(&idx_indices);
         target_indices[axis] = normalized_idx;
 
-        arr.set_element(&target_indices, val);
+        unsafe {
+            let dst = arr_ptr.offset(arr.byte_offset_for(&target_indices));
+            dtype.ops().copy_element(val_ptr, val_offset, dst, 0);
+        }
 
         for d in (0..ndim).rev() {
             idx_indices[d] += 1;
diff --git a/src/python/creation.rs b/src/python/creation.rs
index 8bb94cc..79d0f8b 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -1079,74 +1079,46 @@ pub fn copyto(
     // For now, we support basic casting modes
     let _casting = casting.unwrap_or("same_kind");
 
-    // Broadcast src to dst shape if needed
-    let src_broadcasted = if src.inner.shape() != dst.inner.shape() {
-        src.inner.broadcast_to(dst.inner.shape())
-            .ok_or_else(|| {
-                pyo3::exceptions::PyValueError::new_err(
-                    "could not broadcast input array to destination shape"
-                )
-            })?
-    } else {
-        src.inner.clone()
-    };
+    // Convert first: the copy keeps overlapping source and target apart
+    let dtype = dst.inner.dtype();
+    let source = src.inner.astype(dtype.clone()).broadcast_to(dst.inner.shape())
+        .ok_or_else(|| {
+            pyo3::exceptions::PyValueError::new_err(
+                "could not broadcast input array to destination shape"
+            )
+        })?;
 
-    let size = dst.inner.size();
     let shape = dst.inner.shape().to_vec();
-    if size == 0 {
-        return Ok(());
-    }
-
     let dst_ptr = dst.inner.data_ptr() as *mut u8;
-    let src_ptr = src_broadcasted.data_ptr();
-    let dst_dtype = dst.inner.dtype();
-    let src_dtype = src_broadcasted.dtype();
-    let dst_ops = dst_dtype.ops();
-    let src_ops = src_dtype.ops();
+    let src_ptr = source.data_ptr();
 
     match where_mask {
         Some(mask) => {
-            // Copy only where mask is True
-            let mask_broadcasted = if mask.inner.shape() != &shape[..] {
-                mask.inner.broadcast_to(&shape)
-                    .ok_or_else(|| {
-                        pyo3::exceptions::PyValueError::new_err(
-                            "could not broadcast mask to destination shape"
-                        )
-                    })?
-            } else {
-                mask.inner.clone()
-            };
+            // Copy only where mask is True (the mask may overlap the target)
+            let mask_broadcasted = mask.inner.astype(DType::bool()).broadcast_to(&shape)
+                .ok_or_else(|| {
+                    pyo3::exceptions::PyValueError::new_err(
+                        "could not broadcast mask to destination shape"
+                    )
+                })?;
 
             let mask_ptr = mask_broadcasted.data_ptr();
             let mask_dtype = mask_broadcasted.dtype();
-            let mask_ops = mask_dtype.ops();
 
             for ((dst_off, src_off), mask_off) in dst.inner.iter_offsets()
-                .zip(src_broadcasted.iter_offsets())
+                .zip(source.iter_offsets())
                 .zip(mask_broadcasted.iter_offsets())
             {
-                let mask_val = unsafe { mask_ops.read_f64(mask_ptr, mask_off) }.unwrap_or(0.0);
-                if mask_val != 0.0 {
-                    let val = unsafe { src_ops.read_f64(src_ptr, src_off) }.unwrap_or(0.0);
-                    unsafe { dst_ops.write_f64_at_byte_offset(dst_ptr, dst_off, val); }
+                unsafe {
+                    if mask_dtype.ops().is_truthy(mask_ptr, mask_off) {
+                        dtype.ops().copy_element(src_ptr, src_off, dst_ptr.offset(dst_off), 0);
+                    }
                 }
             }
         }
         None => {
-            // Fast path: both contiguous and same dtype - use memcpy
-            if dst_dtype == src_dtype && dst.inner.is_c_contiguous() && src_broadcasted.is_c_contiguous() {
-                let nbytes = size * dst.inner.itemsize();
-                unsafe { std::ptr::copy_nonoverlapping(src_ptr, dst_ptr, nbytes); }
-                return Ok(());
-            }
-
-            // General path: iterate with typed pointer access
-            for (dst_off, src_off) in dst.inner.iter_offsets()
-                .zip(src_broadcasted.iter_offsets())
-            {
-                let val = unsafe { src_ops.read_f64(src_ptr, src_off) }.unwrap_or(0.0);
-                unsafe { dst_ops.write_f64_at_byte_offset(dst_ptr, dst_off, val); }
+            for (dst_off, src_off) in dst.inner.iter_offsets().zip(source.iter_offsets()) {
+                unsafe { dtype.ops().copy_element(src_ptr, src_off, dst_ptr.offset(dst_off), 0); }
             }
         }
     }
diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index b00b67e..007a177 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -145,24 +145,7 @@ pub fn put(
         ));
     };
 
-    let values: Vec<f64> = if let Ok(scalar) = v.extract::<f64>() {
-        vec![scalar]
-    } else if let Ok(list) = v.extract::<Vec<f64>>() {
-        list
-    } else if let Ok(arr) = v.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-        let size = arr.inner.size();
-        let mut result = Vec::with_capacity(size);
-        for offset in arr.inner.iter_offsets() {
-            let val = unsafe { arr.inner.dtype().ops().read_f64(arr.inner.data_ptr(), offset) }
-                .unwrap_or(0.0);
-            result.push(val);
-        }
-        result
-    } else {
-        return Err(pyo3::exceptions::PyTypeError::new_err(
-            "v must be number, array, or list",
-        ));
-    };
+    let values = super::pyarray::packed_values(v, &a.inner.dtype())?;
 
     crate::ops::indexing::put(&mut a.inner, &indices, &values)
         .ok_or_else(|| pyo3::exceptions::PyIndexError::new_err("index out of bounds"))
@@ -787,42 +770,11 @@ pub fn fill_diagonal(
         ));
     }
 
-    // Convert val to a RumpyArray to handle all dtypes uniformly
-    let val_arr: RumpyArray = if let Ok(arr) = val.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-        // Cast to target dtype if needed
-        if arr.inner.dtype().ops().name() != a.inner.dtype().ops().name() {
-            arr.inner.astype(a.inner.dtype())
-        } else {
-            arr.inner.clone()
-        }
-    } else if let Ok(scalar) = val.extract::<f64>() {
-        RumpyArray::from_vec(vec![scalar], a.inner.dtype().clone())
-    } else if let Ok(list) = val.extract::<Vec<f64>>() {
-        RumpyArray::from_vec(list, a.inner.dtype().clone())
-    } else {
-        // Try extracting as complex (Python complex type)
-        if let Ok(real_attr) = val.getattr("real") {
-            if let (Ok(real), Ok(imag)) = (real_attr.extract::<f64>(), val.getattr("imag").and_then(|i| i.extract::<f64>())) {
-                // Create a complex array using full() which handles complex dtypes
-                let target_dtype = a.inner.dtype();
-                if target_dtype.ops().name().contains("complex") {
-                    // Use full_complex which handles complex dtypes properly
-                    RumpyArray::full_complex(vec![1], real, imag, target_dtype.clone())
-                } else {
-                    // For non-complex target, just use the real part
-                    RumpyArray::from_vec(vec![real], target_dtype.clone())
-                }
-            } else {
-                return Err(pyo3::exceptions::PyTypeError::new_err(
-                    "val must be scalar, list, or array",
-                ));
-            }
-        } else {
-            return Err(pyo3::exceptions::PyTypeError::new_err(
-                "val must be scalar, list, or array",
-            ));
-        }
-    };
+    // Convert val to packed elements of the array's dtype
+    let val_arr = super::pyarray::packed_values(val, &a.inner.dtype())?;
+    if val_arr.size() == 0 {
+        return Ok(());
+    }
 
     let val_size = val_arr.size();
     let val_ptr = val_arr.data_ptr();
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 6bb7eb7..ecd181d 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -582,44 +582,24 @@ impl PyRumpyArray {
     /// Set values at indices (in-place).
     fn put(&mut self, indices: &Bound<'_, PyAny>, values: &Bound<'_, PyAny>) -> PyResult<()> {
         let idx_vec = extract_i64_vec(indices, "indices")?;
-        let val_vec = extract_f64_vec(values, "values")?;
-        crate::ops::indexing::put(&mut self.inner, &idx_vec, &val_vec)
+        let values = packed_values(values, &self.inner.dtype())?;
+        crate::ops::indexing::put(&mut self.inner, &idx_vec, &values)
             .ok_or_else(|| pyo3::exceptions::PyIndexError::new_err("index out of bounds"))
     }
 
     /// Fill the array with a scalar value (in-place).
-    fn fill(&mut self, value: f64) {
-        let size = self.inner.size();
-        if size == 0 {
-            return;
-        }
-
+    fn fill(&mut self, value: &Bound<'_, PyAny>) -> PyResult<()> {
         // Fast path: contiguous float64 - direct slice fill
-        if self.inner.is_c_contiguous() && self.inner.dtype().ops().name() == "float64" {
-            let ptr = self.inner.data_ptr_mut() as *mut f64;
-            let slice = unsafe { std::slice::from_raw_parts_mut(ptr, size) };
-            slice.fill(value);
-            return;
-        }
-
-        // Fast path: other contiguous types
-        if self.inner.is_c_contiguous() {
-            let dtype = self.inner.dtype();
-            let ptr = self.inner.data_ptr_mut();
-            let ops = dtype.ops();
-            for i in 0..size {
-                unsafe { ops.write_f64(ptr, i, value); }
-            }
-        } else {
-            // Slow path: strided iteration
-            let ndim = self.inner.ndim();
-            let shape = self.inner.shape().to_vec();
-            let mut indices = vec![0usize; ndim];
-            for _ in 0..size {
-                self.inner.set_element(&indices, value);
-                crate::array::increment_indices(&mut indices, &shape);
+        if self.inner.is_c_contiguous() && self.inner.dtype().kind() == DTypeKind::Float64 {
+            if let Ok(v) = value.extract::<f64>() {
+                let size = self.inner.size();
+                let ptr = self.inner.data_ptr_mut() as *mut f64;
+                let slice = unsafe { std::slice::from_raw_parts_mut(ptr, size) };
+                slice.fill(v);
+                return Ok(());
             }
         }
+        fill_view(&mut self.inner, value)
     }
 
     /// Return the array data as a bytes object.
@@ -1062,19 +1042,6 @@ fn extract_i64_vec(obj: &Bound<'_, PyAny>, name: &str) -> PyResult<Vec<i64>> {
     }
 }
 
-/// Extract f64 values from a Python list or array.
-fn extract_f64_vec(obj: &Bound<'_, PyAny>, name: &str) -> PyResult<Vec<f64>> {
-    if let Ok(list) = obj.downcast::<PyList>() {
-        list.iter().map(|x| x.extract::<f64>()).collect()
-    } else if let Ok(arr) = obj.extract::<PyRef<'_, PyRumpyArray>>() {
-        Ok(arr.inner.iter_offsets()
-            .map(|offset| unsafe { arr.inner.dtype().ops().read_f64(arr.inner.data_ptr(), offset) }.unwrap_or(0.0))
-            .collect())
-    } else {
-        Err(pyo3::exceptions::PyTypeError::new_err(format!("{} must be list or array", name)))
-    }
-}
-
 /// Normalize slice start/stop values with proper defaults and clamping.
 fn normalize_slice(start: isize, stop: isize, step: isize, len: isize) -> (isize, isize) {
     // Valid positions: [0, len] when walking forward, [-1, len - 1] when walking backward
@@ -1210,6 +1177,21 @@ fn fill_view(view: &mut RumpyArray, value: &Bound<'_, PyAny>) -> PyResult<()> {
     Ok(())
 }
 
+/// The elements of a number, list or array, converted to the given dtype in a packed array of
+/// their own (so that source and target may overlap).
+pub(crate) fn packed_values(value: &Bound<'_, PyAny>, dtype: &DType) -> PyResult<RumpyArray> {
+    if let Ok(arr) = value.extract::<PyRef<'_, PyRumpyArray>>() {
+        return Ok(arr.inner.astype(dtype.clone()));
+    }
+    match scalar_array(value, dtype) {
+        Ok(arr) => Ok(arr),
+        Err(err) => match super::creation::array_impl(value.py(), value, None) {
+            Ok(arr) => Ok(arr.inner.astype(dtype.clone())),
+            Err(_) => Err(err),
+        },
+    }
+}
+
 /// Build a 0-d array of the given dtype from a Python number.
 fn scalar_array(value: &Bound<'_, PyAny>, dtype: &DType) -> PyResult<RumpyArray> {
     let mut arr = RumpyArray::zeros(vec![], dtype.clone());
-- 
2.43.0


From bc5cde10a9fad088fcf1885a0b3a2e56d9eab9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:37 +0000
Subject: [PATCH 34/56] fix: integer power with exponents of 2**32 and above

---
 src/array/dtype/macros.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index 36ac450..c38556f 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -234,6 +234,18 @@ macro_rules! impl_signed_int_dtype {
             unsafe fn write_at_offset(ptr: *mut u8, byte_offset: isize, val: $T) {
                 *(ptr.offset(byte_offset) as *mut $T) = val;
             }
+
+            /// `base ** exp` with wraparound. `wrapping_pow` takes a 32-bit exponent,
+            /// so the high half of the exponent is applied separately.
+            #[inline]
+            fn power(base: $T, exp: u64) -> $T {
+                let low = base.wrapping_pow(exp as u32);
+                let high = (exp >> 32) as u32;
+                if high == 0 {
+                    return low;
+                }
+                base.wrapping_pow(1 << 16).wrapping_pow(1 << 16).wrapping_pow(high).wrapping_mul(low)
+            }
         }
 
         impl DTypeOps for $struct_name {
@@ -311,7 +323,7 @@ macro_rules! impl_signed_int_dtype {
                     BinaryOp::Sub => av.wrapping_sub(bv),
                     BinaryOp::Mul => av.wrapping_mul(bv),
                     BinaryOp::Div => if bv != 0 { av.wrapping_div(bv) } else { 0 },
-                    BinaryOp::Pow => if bv >= 0 { av.wrapping_pow(bv as u32) } else { 0 },
+                    BinaryOp::Pow => if bv >= 0 { Self::power(av, bv as u64) } else { 0 },
                     BinaryOp::Mod => if bv != 0 { av.wrapping_rem(bv) } else { 0 },
                     BinaryOp::FloorDiv => {
                         // Round toward negative infinity; MIN // -1 wraps
@@ -442,6 +454,18 @@ macro_rules! impl_unsigned_int_dtype {
             unsafe fn write_at_offset(ptr: *mut u8, byte_offset: isize, val: $T) {
                 *(ptr.offset(byte_offset) as *mut $T) = val;
             }
+
+            /// `base ** exp` with wraparound. `wrapping_pow` takes a 32-bit exponent,
+            /// so the high half of the exponent is applied separately.
+            #[inline]
+            fn power(base: $T, exp: u64) -> $T {
+                let low = base.wrapping_pow(exp as u32);
+                let high = (exp >> 32) as u32;
+                if high == 0 {
+                    return low;
+                }
+                base.wrapping_pow(1 << 16).wrapping_pow(1 << 16).wrapping_pow(high).wrapping_mul(low)
+            }
         }
 
         impl DTypeOps for $struct_name {
@@ -519,7 +543,7 @@ macro_rules! impl_unsigned_int_dtype {
                     BinaryOp::Sub => av.wrapping_sub(bv),
                     BinaryOp::Mul => av.wrapping_mul(bv),
                     BinaryOp::Div => if bv != 0 { av.wrapping_div(bv) } else { 0 },
-                    BinaryOp::Pow => av.wrapping_pow(bv as u32),
+                    BinaryOp::Pow => Self::power(av, bv as u64),
                     BinaryOp::Mod => if bv != 0 { av.wrapping_rem(bv) } else { 0 },
                     BinaryOp::FloorDiv => if bv != 0 { av / bv } else { 0 },
                     BinaryOp::Maximum | BinaryOp::FMax => av.max(bv),
-- 
2.43.0


From a8d30c8306faacb8dece29a54f105a3d6d5c9ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:04 +0000
Subject: [PATCH 35/56] fix: 64-bit integers converted to single precision were
 rounded twice

---
 src/array/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/array/mod.rs b/src/array/mod.rs
index bad1979..20680ce 100644
--- a/src/array/mod.rs
+++ b/src/array/mod.rs
@@ -500,6 +500,11 @@ pub(crate) unsafe fn cast_element(
     let src_integral = src_ops.is_integer() || src_ops.kind() == DTypeKind::Bool;
     if src_integral && dst_ops.is_integer() {
         dst_ops.write_i64(dst, idx, src_ops.read_i64(src, byte_offset).unwrap_or(0));
+    } else if src_integral && matches!(dst_ops.kind(), DTypeKind::Float32 | DTypeKind::Complex64) {
+        // Round to single precision once; going through f64 first would round twice
+        let v = src_ops.read_i64(src, byte_offset).unwrap_or(0);
+        let single = if src_ops.kind() == DTypeKind::Uint64 { v as u64 as f32 } else { v as f32 };
+        dst_ops.write_f64(dst, idx, single as f64);
     } else if matches!(src_ops.kind(), DTypeKind::Complex64 | DTypeKind::Complex128) {
         let (re, im) = src_ops.read_complex(src, byte_offset).unwrap_or((0.0, 0.0));
         dst_ops.write_complex(dst, idx, re, im);
-- 
2.43.0


From 427c8789c90d0c8dc6173db5743376c9ff137fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:56 +0000
Subject: [PATCH 36/56] fix: reductions over several axes at once reduced the
 partial results again

---
 src/python/reductions.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index 3912a0b..9682c82 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -75,21 +75,18 @@ fn parse_axis(axis: Option<&Bound<'_, pyo3::PyAny>>, ndim: usize) -> PyResult<Op
     }
 }
 
-/// Perform sequential reductions over multiple axes.
-/// When reducing axis N, all subsequent axes with index > N shift down by 1.
-/// To match NumPy, we sort axes in descending order and reduce from highest to lowest.
-fn reduce_multi_axis<F>(arr: &RumpyArray, mut axes: Vec<usize>, reduce_fn: F) -> RumpyArray
+/// Reduce over multiple axes at once: the reduced axes are moved last and merged
+/// into one, so that order statistics and moments see every element of a group together.
+fn reduce_multi_axis<F>(arr: &RumpyArray, axes: Vec<usize>, reduce_fn: F) -> RumpyArray
 where
     F: Fn(&RumpyArray, usize) -> RumpyArray,
 {
-    // Sort axes in descending order to avoid index shifting issues
-    axes.sort_by(|a, b| b.cmp(a));
-
-    let mut result = arr.clone();
-    for &axis in &axes {
-        result = reduce_fn(&result, axis);
-    }
-    result
+    let (reduced, kept): (Vec<usize>, Vec<usize>) = (0..arr.ndim()).partition(|d| axes.contains(d));
+    let order: Vec<usize> = kept.iter().chain(reduced.iter()).copied().collect();
+    let mut shape: Vec<usize> = kept.iter().map(|&d| arr.shape()[d]).collect();
+    shape.push(reduced.iter().map(|&d| arr.shape()[d]).product());
+    let merged = arr.transpose_axes(&order).copy().reshape(shape).expect("same number of elements");
+    reduce_fn(&merged, kept.len())
 }
 
 // ============================================================================
-- 
2.43.0


From 6e46bbda5736088e0e16a91720cde394ac189cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:27 +0000
Subject: [PATCH 37/56] fix: keepdims reductions of a whole array were stored
 in the input's type

---
 src/python/pyarray/methods_reductions.rs | 26 ++++++++++++------------
 src/python/pyarray/mod.rs                | 15 ++++++--------
 2 files changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/python/pyarray/methods_reductions.rs b/src/python/pyarray/methods_reductions.rs
index 4ff86b4..1fd62c4 100644
--- a/src/python/pyarray/methods_reductions.rs
+++ b/src/python/pyarray/methods_reductions.rs
@@ -6,7 +6,7 @@ use super::{
     axis_reduction_with_keepdims, check_axis, scalar_reduction_with_keepdims, PyRumpyArray,
     ReductionResult,
 };
-use crate::array::DType;
+use crate::array::RumpyArray;
 
 #[pymethods]
 impl PyRumpyArray {
@@ -17,7 +17,7 @@ impl PyRumpyArray {
                 &self.inner,
                 self.inner.sum(),
                 keepdims,
-                self.inner.dtype(),
+                RumpyArray::sum_axis,
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
@@ -38,7 +38,7 @@ impl PyRumpyArray {
                 &self.inner,
                 self.inner.prod(),
                 keepdims,
-                self.inner.dtype(),
+                RumpyArray::prod_axis,
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
@@ -59,7 +59,7 @@ impl PyRumpyArray {
                 &self.inner,
                 self.inner.max(),
                 keepdims,
-                self.inner.dtype(),
+                RumpyArray::max_axis,
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
@@ -80,7 +80,7 @@ impl PyRumpyArray {
                 &self.inner,
                 self.inner.min(),
                 keepdims,
-                self.inner.dtype(),
+                RumpyArray::min_axis,
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
@@ -101,7 +101,7 @@ impl PyRumpyArray {
                 &self.inner,
                 self.inner.mean(),
                 keepdims,
-                self.inner.dtype(),
+                RumpyArray::mean_axis,
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
@@ -122,7 +122,7 @@ impl PyRumpyArray {
                 &self.inner,
                 self.inner.var(),
                 keepdims,
-                self.inner.dtype(),
+                RumpyArray::var_axis,
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
@@ -143,7 +143,7 @@ impl PyRumpyArray {
                 &self.inner,
                 self.inner.std(),
                 keepdims,
-                self.inner.dtype(),
+                RumpyArray::std_axis,
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
@@ -165,7 +165,7 @@ impl PyRumpyArray {
                 &self.inner,
                 self.inner.moment(k),
                 keepdims,
-                self.inner.dtype(),
+                |arr, axis| arr.moment_axis(k, axis),
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
@@ -187,7 +187,7 @@ impl PyRumpyArray {
                 &self.inner,
                 self.inner.skew(),
                 keepdims,
-                self.inner.dtype(),
+                RumpyArray::skew_axis,
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
@@ -209,7 +209,7 @@ impl PyRumpyArray {
                 &self.inner,
                 self.inner.kurtosis(),
                 keepdims,
-                self.inner.dtype(),
+                RumpyArray::kurtosis_axis,
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
@@ -260,7 +260,7 @@ impl PyRumpyArray {
                 &self.inner,
                 val,
                 keepdims,
-                DType::bool(),
+                RumpyArray::all_axis,
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
@@ -283,7 +283,7 @@ impl PyRumpyArray {
                 &self.inner,
                 val,
                 keepdims,
-                DType::bool(),
+                RumpyArray::any_axis,
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index ecd181d..1a8f459 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -150,21 +150,18 @@ fn apply_keepdims(arr: RumpyArray, axis: usize) -> RumpyArray {
     arr.expand_dims(axis).unwrap_or(arr)
 }
 
-/// Helper for scalar reductions with keepdims support.
+/// Helper for scalar reductions with keepdims support. The kept array is reduced along
+/// the flattened array, so that its dtype is the one the axis reduction gives.
 fn scalar_reduction_with_keepdims(
     arr: &RumpyArray,
     value: f64,
     keepdims: bool,
-    dtype: DType,
+    along: impl Fn(&RumpyArray, usize) -> RumpyArray,
 ) -> ReductionResult {
     if keepdims {
-        let ones_shape = vec![1; arr.ndim()];
-        let mut result = RumpyArray::zeros(ones_shape, dtype.clone());
-        let buffer = result.buffer_mut();
-        let result_buffer = std::sync::Arc::get_mut(buffer).expect("buffer must be unique");
-        let ptr = result_buffer.as_mut_ptr();
-        unsafe { dtype.ops().write_f64(ptr, 0, value); }
-        ReductionResult::Array(PyRumpyArray::new(result))
+        let flat = arr.reshape(vec![arr.size()]).expect("same number of elements");
+        let kept = along(&flat, 0).reshape(vec![1; arr.ndim()]).expect("one element");
+        ReductionResult::Array(PyRumpyArray::new(kept))
     } else {
         ReductionResult::Scalar(value)
     }
-- 
2.43.0


From a99b662ac1ea68d17f29dfbb2dac311da31e2973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:40 +0000
Subject: [PATCH 38/56] fix: reductions of complex arrays were zero or compared
 by magnitude, argmax/argmin skipped NaN by layout

---
 src/ops/array_methods/reductions.rs | 91 +++++++++++++++--------------
 src/ops/kernels/arithmetic.rs       | 14 +++--
 src/python/pyarray/mod.rs           | 26 ++++++++-
 src/python/reductions.rs            | 14 ++---
 4 files changed, 88 insertions(+), 57 deletions(-)

diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index f4e068f..91ba4c9 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -171,7 +171,10 @@ impl RumpyArray {
         let diff = self.binary_op(&mean_expanded, BinaryOp::Sub).expect("broadcast succeeds");
 
         // Raise to power k using vectorized ops
-        let powered = if k == 2 {
+        let powered = if k == 2 && matches!(diff.dtype().kind(), DTypeKind::Complex64 | DTypeKind::Complex128) {
+            // Squared modulus
+            diff.binary_op(&diff.conj(), BinaryOp::Mul).expect("same shape").real()
+        } else if k == 2 {
             // Special case: x^2 = x * x (faster than pow)
             diff.binary_op(&diff, BinaryOp::Mul).expect("same shape")
         } else {
@@ -244,7 +247,7 @@ impl RumpyArray {
         match self.dtype().kind() {
             DTypeKind::Float64 => dispatch_argmax_full::<f64>(self),
             DTypeKind::Float32 => dispatch_argmax_full::<f32>(self),
-            DTypeKind::Int64 => dispatch_argmax_full::<i64>(self),
+            DTypeKind::Int64 | DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) => dispatch_argmax_full::<i64>(self),
             DTypeKind::Int32 => dispatch_argmax_full::<i32>(self),
             DTypeKind::Int16 => dispatch_argmax_full::<i16>(self),
             DTypeKind::Uint64 => dispatch_argmax_full::<u64>(self),
@@ -262,7 +265,7 @@ impl RumpyArray {
         match self.dtype().kind() {
             DTypeKind::Float64 => dispatch_argmin_full::<f64>(self),
             DTypeKind::Float32 => dispatch_argmin_full::<f32>(self),
-            DTypeKind::Int64 => dispatch_argmin_full::<i64>(self),
+            DTypeKind::Int64 | DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) => dispatch_argmin_full::<i64>(self),
             DTypeKind::Int32 => dispatch_argmin_full::<i32>(self),
             DTypeKind::Int16 => dispatch_argmin_full::<i16>(self),
             DTypeKind::Uint64 => dispatch_argmin_full::<u64>(self),
@@ -279,7 +282,7 @@ impl RumpyArray {
         match self.dtype().kind() {
             DTypeKind::Float64 => argmax_axis_typed::<f64>(self, axis),
             DTypeKind::Float32 => argmax_axis_typed::<f32>(self, axis),
-            DTypeKind::Int64 => argmax_axis_typed::<i64>(self, axis),
+            DTypeKind::Int64 | DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) => argmax_axis_typed::<i64>(self, axis),
             DTypeKind::Int32 => argmax_axis_typed::<i32>(self, axis),
             DTypeKind::Int16 => argmax_axis_typed::<i16>(self, axis),
             DTypeKind::Uint64 => argmax_axis_typed::<u64>(self, axis),
@@ -296,7 +299,7 @@ impl RumpyArray {
         match self.dtype().kind() {
             DTypeKind::Float64 => argmin_axis_typed::<f64>(self, axis),
             DTypeKind::Float32 => argmin_axis_typed::<f32>(self, axis),
-            DTypeKind::Int64 => argmin_axis_typed::<i64>(self, axis),
+            DTypeKind::Int64 | DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) => argmin_axis_typed::<i64>(self, axis),
             DTypeKind::Int32 => argmin_axis_typed::<i32>(self, axis),
             DTypeKind::Int16 => argmin_axis_typed::<i16>(self, axis),
             DTypeKind::Uint64 => argmin_axis_typed::<u64>(self, axis),
@@ -309,52 +312,43 @@ impl RumpyArray {
 
     /// Slow fallback for argmax (dynamic dispatch).
     fn argmax_slow(&self) -> usize {
-        let ptr = self.data_ptr();
-        let dtype = self.dtype();
-        let ops = dtype.ops();
-        let mut max_val = f64::NEG_INFINITY;
-        let mut max_idx = 0;
-        for (i, offset) in self.iter_offsets().enumerate() {
-            let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            if val > max_val {
-                max_val = val;
-                max_idx = i;
-            }
-        }
-        max_idx
+        self.arg_reduce_slow(|v, best| v > best)
     }
 
     /// Slow fallback for argmin (dynamic dispatch).
     fn argmin_slow(&self) -> usize {
-        let ptr = self.data_ptr();
-        let dtype = self.dtype();
-        let ops = dtype.ops();
-        let mut min_val = f64::INFINITY;
-        let mut min_idx = 0;
-        for (i, offset) in self.iter_offsets().enumerate() {
-            let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            if val < min_val {
-                min_val = val;
-                min_idx = i;
+        self.arg_reduce_slow(|v, best| v < best)
+    }
+
+    /// Slow fallback for argmax/argmin: first best element, complex values in lexicographic order.
+    fn arg_reduce_slow(&self, is_better: impl Fn((f64, f64), (f64, f64)) -> bool) -> usize {
+        let flat = self.reshape(vec![self.size()]).expect("same number of elements");
+        let mut best_val = flat.get_complex_element(&[0]);
+        let mut best_idx = 0;
+        for i in 1..flat.size() {
+            let val = flat.get_complex_element(&[i]);
+            if !complex_is_nan(best_val) && (complex_is_nan(val) || is_better(val, best_val)) {
+                best_val = val;
+                best_idx = i;
             }
         }
-        min_idx
+        best_idx
     }
 
     /// Slow fallback for argmax axis (dynamic dispatch).
     fn argmax_axis_slow(&self, axis: usize) -> RumpyArray {
-        self.arg_reduce_axis_slow(axis, |a, b| a > b)
+        self.arg_reduce_axis_slow(axis, |v, best| v > best)
     }
 
     /// Slow fallback for argmin axis (dynamic dispatch).
     fn argmin_axis_slow(&self, axis: usize) -> RumpyArray {
-        self.arg_reduce_axis_slow(axis, |a, b| a < b)
+        self.arg_reduce_axis_slow(axis, |v, best| v < best)
     }
 
     /// Slow fallback for argmax/argmin axis (non-optimized types).
     fn arg_reduce_axis_slow<F>(&self, axis: usize, is_better: F) -> RumpyArray
     where
-        F: Fn(f64, f64) -> bool,
+        F: Fn((f64, f64), (f64, f64)) -> bool,
     {
         let shape = self.shape();
         let axis_len = shape[axis];
@@ -384,12 +378,12 @@ impl RumpyArray {
                 in_indices.extend_from_slice(&outer_indices[axis..]);
             }
 
-            let mut best_val = self.get_element(&in_indices);
+            let mut best_val = self.get_complex_element(&in_indices);
             let mut best_idx: i64 = 0;
             for j in 1..axis_len {
                 in_indices[axis] = j;
-                let val = self.get_element(&in_indices);
-                if is_better(val, best_val) {
+                let val = self.get_complex_element(&in_indices);
+                if !complex_is_nan(best_val) && (complex_is_nan(val) || is_better(val, best_val)) {
                     best_val = val;
                     best_idx = j as i64;
                 }
@@ -406,12 +400,23 @@ impl RumpyArray {
 // Generic argmax/argmin implementations (monomorphized per dtype)
 // ============================================================================
 
+fn complex_is_nan((re, im): (f64, f64)) -> bool {
+    re.is_nan() || im.is_nan()
+}
+
 /// Trait for types that support argmax/argmin operations.
 trait ArgReducible: Copy + PartialOrd {
     fn neg_infinity() -> Self;
     fn pos_infinity() -> Self;
 }
 
+/// Whether `v` is the first NaN seen, given the best value so far: NaN wins over everything.
+#[inline(always)]
+#[allow(clippy::eq_op)]
+fn first_nan<T: PartialOrd>(v: T, best: T) -> bool {
+    v != v && best == best
+}
+
 impl ArgReducible for f64 {
     fn neg_infinity() -> Self { f64::NEG_INFINITY }
     fn pos_infinity() -> Self { f64::INFINITY }
@@ -475,7 +480,7 @@ fn argmax_contiguous<T: ArgReducible>(ptr: *const T, n: usize) -> usize {
     let mut best_idx = 0;
     for i in 1..n {
         let v = unsafe { *ptr.add(i) };
-        if v > best_val {
+        if v > best_val || first_nan(v, best_val) {
             best_val = v;
             best_idx = i;
         }
@@ -491,7 +496,7 @@ fn argmin_contiguous<T: ArgReducible>(ptr: *const T, n: usize) -> usize {
     let mut best_idx = 0;
     for i in 1..n {
         let v = unsafe { *ptr.add(i) };
-        if v < best_val {
+        if v < best_val || first_nan(v, best_val) {
             best_val = v;
             best_idx = i;
         }
@@ -506,7 +511,7 @@ fn argmax_strided<T: ArgReducible>(arr: &RumpyArray) -> usize {
     let mut best_idx = 0;
     for (i, offset) in arr.iter_offsets().enumerate() {
         let v = unsafe { *(ptr as *const u8).offset(offset).cast::<T>() };
-        if v > best_val {
+        if v > best_val || first_nan(v, best_val) {
             best_val = v;
             best_idx = i;
         }
@@ -521,7 +526,7 @@ fn argmin_strided<T: ArgReducible>(arr: &RumpyArray) -> usize {
     let mut best_idx = 0;
     for (i, offset) in arr.iter_offsets().enumerate() {
         let v = unsafe { *(ptr as *const u8).offset(offset).cast::<T>() };
-        if v < best_val {
+        if v < best_val || first_nan(v, best_val) {
             best_val = v;
             best_idx = i;
         }
@@ -569,7 +574,7 @@ macro_rules! impl_arg_axis {
                         let mut best_idx = 0usize;
                         for j in 1..n_cols {
                             let v = unsafe { *row_start.add(j) };
-                            if v $cmp best_val {
+                            if v $cmp best_val || first_nan(v, best_val) {
                                 best_val = v;
                                 best_idx = j;
                             }
@@ -584,7 +589,7 @@ macro_rules! impl_arg_axis {
                         let mut best_idx = 0usize;
                         for j in 1..axis_len {
                             let v = unsafe { *slice_start.add(j) };
-                            if v $cmp best_val {
+                            if v $cmp best_val || first_nan(v, best_val) {
                                 best_val = v;
                                 best_idx = j;
                             }
@@ -606,7 +611,7 @@ macro_rules! impl_arg_axis {
                         for inner_idx in 0..inner_size {
                             let v = unsafe { *src_ptr.add(src_idx) };
                             let out_idx = out_base + inner_idx;
-                            if v $cmp best_vals[out_idx] {
+                            if v $cmp best_vals[out_idx] || first_nan(v, best_vals[out_idx]) {
                                 best_vals[out_idx] = v;
                                 unsafe { *result_ptr.add(out_idx) = axis_idx as i64; }
                             }
@@ -622,7 +627,7 @@ macro_rules! impl_arg_axis {
                     let mut best_idx = 0i64;
                     for j in 1..axis_len {
                         let v = unsafe { *((start as *const u8).offset(axis_stride * j as isize) as *const T) };
-                        if v $cmp best_val {
+                        if v $cmp best_val || first_nan(v, best_val) {
                             best_val = v;
                             best_idx = j as i64;
                         }
diff --git a/src/ops/kernels/arithmetic.rs b/src/ops/kernels/arithmetic.rs
index 50ccdd5..cd94c1e 100644
--- a/src/ops/kernels/arithmetic.rs
+++ b/src/ops/kernels/arithmetic.rs
@@ -627,21 +627,25 @@ macro_rules! impl_complex_arithmetic {
             #[inline(always)]
             fn apply(_a: Complex<$F>, b: Complex<$F>) -> Complex<$F> { b } // Just return b
         }
-        // Max/Min reductions for complex: compare by magnitude
+        // Max/Min reductions for complex: lexicographic order, NaN propagates
         impl ReduceKernel<Complex<$F>> for Max {
             #[inline(always)]
-            fn init() -> Complex<$F> { Complex::new(<$F>::NEG_INFINITY, 0.0 as $F) }
+            fn init() -> Complex<$F> { Complex::new(<$F>::NEG_INFINITY, <$F>::NEG_INFINITY) }
             #[inline(always)]
             fn combine(acc: Complex<$F>, v: Complex<$F>) -> Complex<$F> {
-                if v.norm_sqr() > acc.norm_sqr() { v } else { acc }
+                if acc.re.is_nan() || acc.im.is_nan() { acc }
+                else if v.re.is_nan() || v.im.is_nan() { v }
+                else if v.re > acc.re || (v.re == acc.re && v.im > acc.im) { v } else { acc }
             }
         }
         impl ReduceKernel<Complex<$F>> for Min {
             #[inline(always)]
-            fn init() -> Complex<$F> { Complex::new(<$F>::INFINITY, 0.0 as $F) }
+            fn init() -> Complex<$F> { Complex::new(<$F>::INFINITY, <$F>::INFINITY) }
             #[inline(always)]
             fn combine(acc: Complex<$F>, v: Complex<$F>) -> Complex<$F> {
-                if v.norm_sqr() < acc.norm_sqr() { v } else { acc }
+                if acc.re.is_nan() || acc.im.is_nan() { acc }
+                else if v.re.is_nan() || v.im.is_nan() { v }
+                else if v.re < acc.re || (v.re == acc.re && v.im < acc.im) { v } else { acc }
             }
         }
     };
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 1a8f459..1d06a4f 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -10,7 +10,7 @@ mod dunder_ops;
 mod methods_reductions;
 
 use pyo3::prelude::*;
-use pyo3::types::{PyDict, PyEllipsis, PyList, PySlice, PyString, PyTuple};
+use pyo3::types::{PyComplex, PyDict, PyEllipsis, PyList, PySlice, PyString, PyTuple};
 
 use crate::array::{promote_dtype, DType, DTypeKind, RumpyArray};
 use crate::ops::{map_binary_op_inplace, BinaryOp, ComparisonOp};
@@ -116,6 +116,7 @@ pub fn resolve_reshape_shape(shape: Vec<isize>, size: usize) -> PyResult<Vec<usi
 /// Result type for reductions that can return scalar or array.
 pub enum ReductionResult {
     Scalar(f64),
+    Complex(f64, f64),
     Array(PyRumpyArray),
 }
 
@@ -127,6 +128,7 @@ impl<'py> IntoPyObject<'py> for ReductionResult {
     fn into_pyobject(self, py: Python<'py>) -> Result<Self::Output, Self::Error> {
         match self {
             ReductionResult::Scalar(v) => Ok(v.into_pyobject(py)?.into_any()),
+            ReductionResult::Complex(re, im) => Ok(PyComplex::from_doubles(py, re, im).into_any()),
             ReductionResult::Array(arr) => Ok(arr.into_pyobject(py)?.into_any()),
         }
     }
@@ -163,7 +165,27 @@ fn scalar_reduction_with_keepdims(
         let kept = along(&flat, 0).reshape(vec![1; arr.ndim()]).expect("one element");
         ReductionResult::Array(PyRumpyArray::new(kept))
     } else {
-        ReductionResult::Scalar(value)
+        scalar_reduction(arr, value, along)
+    }
+}
+
+/// Result of reducing a whole array to one value: `value`, or for complex arrays the
+/// reduction along the flattened array.
+pub fn scalar_reduction(
+    arr: &RumpyArray,
+    value: f64,
+    along: impl Fn(&RumpyArray, usize) -> RumpyArray,
+) -> ReductionResult {
+    if !matches!(arr.dtype().kind(), DTypeKind::Complex64 | DTypeKind::Complex128) {
+        return ReductionResult::Scalar(value);
+    }
+    let flat = arr.reshape(vec![arr.size()]).expect("same number of elements");
+    let total = along(&flat, 0);
+    match unsafe { total.dtype().ops().read_complex(total.data_ptr(), 0) } {
+        Some((re, im)) if matches!(total.dtype().kind(), DTypeKind::Complex64 | DTypeKind::Complex128) => {
+            ReductionResult::Complex(re, im)
+        }
+        _ => ReductionResult::Scalar(total.get_element(&[0])),
     }
 }
 
diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index 9682c82..50a09f5 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -99,7 +99,7 @@ where
 pub fn sum(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.sum())),
+        None => Ok(pyarray::scalar_reduction(&x.inner, x.inner.sum(), RumpyArray::sum_axis)),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.sum_axis(ax_vec[0]))))
         }
@@ -116,7 +116,7 @@ pub fn sum(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<
 pub fn prod(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.prod())),
+        None => Ok(pyarray::scalar_reduction(&x.inner, x.inner.prod(), RumpyArray::prod_axis)),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.prod_axis(ax_vec[0]))))
         }
@@ -133,7 +133,7 @@ pub fn prod(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult
 pub fn mean(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.mean())),
+        None => Ok(pyarray::scalar_reduction(&x.inner, x.inner.mean(), RumpyArray::mean_axis)),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.mean_axis(ax_vec[0]))))
         }
@@ -150,7 +150,7 @@ pub fn mean(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult
 pub fn var(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.var())),
+        None => Ok(pyarray::scalar_reduction(&x.inner, x.inner.var(), RumpyArray::var_axis)),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.var_axis(ax_vec[0]))))
         }
@@ -167,7 +167,7 @@ pub fn var(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<
 pub fn std_fn(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.std())),
+        None => Ok(pyarray::scalar_reduction(&x.inner, x.inner.std(), RumpyArray::std_axis)),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.std_axis(ax_vec[0]))))
         }
@@ -184,7 +184,7 @@ pub fn std_fn(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 pub fn max(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.max())),
+        None => Ok(pyarray::scalar_reduction(&x.inner, x.inner.max(), RumpyArray::max_axis)),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.max_axis(ax_vec[0]))))
         }
@@ -201,7 +201,7 @@ pub fn max(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<
 pub fn min(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.min())),
+        None => Ok(pyarray::scalar_reduction(&x.inner, x.inner.min(), RumpyArray::min_axis)),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.min_axis(ax_vec[0]))))
         }
-- 
2.43.0


From e3fd683bdd8f6fcc4ff78dbaf5671aa52b5b13c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:36 +0000
Subject: [PATCH 39/56] fix: nansum and friends of integers wrapped, median
 ignored NaN

---
 src/ops/array_methods/cumulative.rs |  6 ++++++
 src/ops/array_methods/reductions.rs | 29 +++++++++++++++++++++++++++++
 src/ops/statistics.rs               |  7 ++++++-
 3 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/ops/array_methods/cumulative.rs b/src/ops/array_methods/cumulative.rs
index 4ebabf9..489e702 100644
--- a/src/ops/array_methods/cumulative.rs
+++ b/src/ops/array_methods/cumulative.rs
@@ -512,11 +512,17 @@ impl RumpyArray {
 
     /// NaN-aware cumulative sum: NaN values are treated as zero.
     pub fn nancumsum(&self, axis: Option<usize>) -> RumpyArray {
+        if self.never_nan() {
+            return self.cumsum(axis);
+        }
         self.nan_cumulative_op(axis, 0.0, |acc, x| acc + x)
     }
 
     /// NaN-aware cumulative product: NaN values are treated as one.
     pub fn nancumprod(&self, axis: Option<usize>) -> RumpyArray {
+        if self.never_nan() {
+            return self.cumprod(axis);
+        }
         self.nan_cumulative_op(axis, 1.0, |acc, x| acc * x)
     }
 }
diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index 91ba4c9..20a9304 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -23,6 +23,11 @@ impl RumpyArray {
         }
     }
 
+    /// Whether the element type has no NaN (integers and bool).
+    pub(crate) fn never_nan(&self) -> bool {
+        self.dtype().is_integer() || self.dtype().kind() == DTypeKind::Bool
+    }
+
     /// Sum all elements.
     pub fn sum(&self) -> f64 {
         reduce_all_f64(&self.to_accumulator(), ReduceOp::Sum)
@@ -716,6 +721,9 @@ impl RumpyArray {
 
     /// Sum all elements, ignoring NaN values.
     pub fn nansum(&self) -> f64 {
+        if self.never_nan() {
+            return self.sum();
+        }
         use crate::ops::dispatch;
         dispatch::dispatch_nan_reduce_sum(self)
             .unwrap_or_else(|| self.nan_reduce_full(0.0, |acc, v| acc + v).0)
@@ -723,6 +731,9 @@ impl RumpyArray {
 
     /// Sum along axis, ignoring NaN values.
     pub fn nansum_axis(&self, axis: usize) -> RumpyArray {
+        if self.never_nan() {
+            return self.sum_axis(axis);
+        }
         use crate::ops::dispatch;
         dispatch::dispatch_nan_reduce_axis_sum(self, axis).unwrap_or_else(|| {
             self.nan_reduce_axis(axis, self.dtype(), |indices, ax, len| {
@@ -741,6 +752,9 @@ impl RumpyArray {
 
     /// Product of all elements, ignoring NaN values.
     pub fn nanprod(&self) -> f64 {
+        if self.never_nan() {
+            return self.prod();
+        }
         use crate::ops::dispatch;
         dispatch::dispatch_nan_reduce_prod(self)
             .unwrap_or_else(|| self.nan_reduce_full(1.0, |acc, v| acc * v).0)
@@ -748,6 +762,9 @@ impl RumpyArray {
 
     /// Product along axis, ignoring NaN values.
     pub fn nanprod_axis(&self, axis: usize) -> RumpyArray {
+        if self.never_nan() {
+            return self.prod_axis(axis);
+        }
         use crate::ops::dispatch;
         dispatch::dispatch_nan_reduce_axis_prod(self, axis).unwrap_or_else(|| {
             self.nan_reduce_axis(axis, self.dtype(), |indices, ax, len| {
@@ -867,6 +884,9 @@ impl RumpyArray {
 
     /// Minimum of all elements, ignoring NaN values.
     pub fn nanmin(&self) -> f64 {
+        if self.never_nan() && self.size() > 0 {
+            return self.min();
+        }
         use crate::ops::dispatch;
         match dispatch::dispatch_nan_reduce_min(self) {
             Some(val) if val == f64::INFINITY => f64::NAN, // All NaN case
@@ -880,6 +900,9 @@ impl RumpyArray {
 
     /// Minimum along axis, ignoring NaN values.
     pub fn nanmin_axis(&self, axis: usize) -> RumpyArray {
+        if self.never_nan() {
+            return self.min_axis(axis);
+        }
         use crate::ops::dispatch;
         dispatch::dispatch_nan_reduce_axis_min(self, axis).unwrap_or_else(|| {
             self.nan_reduce_axis(axis, self.dtype(), |indices, ax, len| {
@@ -900,6 +923,9 @@ impl RumpyArray {
 
     /// Maximum of all elements, ignoring NaN values.
     pub fn nanmax(&self) -> f64 {
+        if self.never_nan() && self.size() > 0 {
+            return self.max();
+        }
         use crate::ops::dispatch;
         match dispatch::dispatch_nan_reduce_max(self) {
             Some(val) if val == f64::NEG_INFINITY => f64::NAN, // All NaN case
@@ -913,6 +939,9 @@ impl RumpyArray {
 
     /// Maximum along axis, ignoring NaN values.
     pub fn nanmax_axis(&self, axis: usize) -> RumpyArray {
+        if self.never_nan() {
+            return self.max_axis(axis);
+        }
         use crate::ops::dispatch;
         dispatch::dispatch_nan_reduce_axis_max(self, axis).unwrap_or_else(|| {
             self.nan_reduce_axis(axis, self.dtype(), |indices, ax, len| {
diff --git a/src/ops/statistics.rs b/src/ops/statistics.rs
index a9e3bfb..cb8d418 100644
--- a/src/ops/statistics.rs
+++ b/src/ops/statistics.rs
@@ -407,6 +407,9 @@ impl RumpyArray {
             return f64::NAN;
         }
         let mut values = self.to_vec();
+        if values.iter().any(|v| v.is_nan()) {
+            return f64::NAN;
+        }
         let mid = size / 2;
 
         // select_nth_unstable partitions so values[mid] is the correct element
@@ -460,7 +463,9 @@ impl RumpyArray {
 
             // Sort and compute median
             values.sort_by(crate::array::dtype::nan_last_cmp);
-            let median = if axis_len.is_multiple_of(2) {
+            let median = if values[axis_len - 1].is_nan() {
+                f64::NAN // NaN sorts last
+            } else if axis_len.is_multiple_of(2) {
                 (values[axis_len / 2 - 1] + values[axis_len / 2]) / 2.0
             } else {
                 values[axis_len / 2]
-- 
2.43.0


From 24c5139be2e3bf40d92cc8c7ef3b3784fa8cdd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:40 +0000
Subject: [PATCH 40/56] fix: sums of squares of eight or more elements (norms)
 join partial sums by addition

---
 src/ops/kernels/arithmetic.rs | 8 ++++++++
 src/ops/kernels/mod.rs        | 3 +++
 src/ops/loops/contiguous.rs   | 6 +++---
 src/ops/loops/strided.rs      | 6 +++---
 4 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/ops/kernels/arithmetic.rs b/src/ops/kernels/arithmetic.rs
index cd94c1e..90ed056 100644
--- a/src/ops/kernels/arithmetic.rs
+++ b/src/ops/kernels/arithmetic.rs
@@ -136,6 +136,8 @@ macro_rules! impl_float_arithmetic {
             fn init() -> $T { 0.0 }
             #[inline(always)]
             fn combine(acc: $T, v: $T) -> $T { acc + v * v }
+            #[inline(always)]
+            fn merge(a: $T, b: $T) -> $T { a + b }
         }
         impl BinaryKernel<$T> for Pow {
             #[inline(always)]
@@ -313,6 +315,8 @@ impl ReduceKernel<f16> for SumOfSquares {
     fn init() -> f16 { f16::ZERO }
     #[inline(always)]
     fn combine(acc: f16, v: f16) -> f16 { f16::from_f32(acc.to_f32() + v.to_f32() * v.to_f32()) }
+    #[inline(always)]
+    fn merge(a: f16, b: f16) -> f16 { f16::from_f32(a.to_f32() + b.to_f32()) }
 }
 impl BinaryKernel<f16> for Pow {
     #[inline(always)]
@@ -453,6 +457,8 @@ macro_rules! impl_int_arithmetic {
             fn init() -> $T { $zero }
             #[inline(always)]
             fn combine(acc: $T, v: $T) -> $T { acc.wrapping_add(v.wrapping_mul(v)) }
+            #[inline(always)]
+            fn merge(a: $T, b: $T) -> $T { a.wrapping_add(b) }
         }
         impl BinaryKernel<$T> for Mod {
             #[inline(always)]
@@ -529,6 +535,8 @@ macro_rules! impl_complex_arithmetic {
             fn init() -> Complex<$F> { Complex::new(0.0 as $F, 0.0 as $F) }
             #[inline(always)]
             fn combine(acc: Complex<$F>, v: Complex<$F>) -> Complex<$F> { acc + Complex::new(v.norm_sqr(), 0.0 as $F) }
+            #[inline(always)]
+            fn merge(a: Complex<$F>, b: Complex<$F>) -> Complex<$F> { a + b }
         }
         impl BinaryKernel<Complex<$F>> for Pow {
             #[inline(always)]
diff --git a/src/ops/kernels/mod.rs b/src/ops/kernels/mod.rs
index 6e3a830..bf2bd5b 100644
--- a/src/ops/kernels/mod.rs
+++ b/src/ops/kernels/mod.rs
@@ -30,6 +30,9 @@ pub trait ReduceKernel<T>: Copy {
     fn init() -> T;
     /// Combine accumulator with new value.
     fn combine(acc: T, v: T) -> T;
+    /// Join two partial accumulators (differs from `combine` when elements are transformed first).
+    #[inline(always)]
+    fn merge(a: T, b: T) -> T { Self::combine(a, b) }
 }
 
 /// Kernel for comparison operations (returns bool).
diff --git a/src/ops/loops/contiguous.rs b/src/ops/loops/contiguous.rs
index a410e04..a779d9d 100644
--- a/src/ops/loops/contiguous.rs
+++ b/src/ops/loops/contiguous.rs
@@ -118,9 +118,9 @@ pub fn reduce<T: Copy, K: ReduceKernel<T>>(data: &[T], _kernel: K) -> T {
     }
 
     // Combine 8 accumulators in tree pattern (matches NumPy)
-    let mut acc = K::combine(
-        K::combine(K::combine(r[0], r[1]), K::combine(r[2], r[3])),
-        K::combine(K::combine(r[4], r[5]), K::combine(r[6], r[7])),
+    let mut acc = K::merge(
+        K::merge(K::merge(r[0], r[1]), K::merge(r[2], r[3])),
+        K::merge(K::merge(r[4], r[5]), K::merge(r[6], r[7])),
     );
 
     // Handle remainder
diff --git a/src/ops/loops/strided.rs b/src/ops/loops/strided.rs
index 736234c..049ffdb 100644
--- a/src/ops/loops/strided.rs
+++ b/src/ops/loops/strided.rs
@@ -104,9 +104,9 @@ pub unsafe fn reduce_strided<T: Copy, K: ReduceKernel<T>>(
     }
 
     // Combine 8 accumulators in tree pattern (matches NumPy)
-    let mut acc = K::combine(
-        K::combine(K::combine(r[0], r[1]), K::combine(r[2], r[3])),
-        K::combine(K::combine(r[4], r[5]), K::combine(r[6], r[7])),
+    let mut acc = K::merge(
+        K::merge(K::merge(r[0], r[1]), K::merge(r[2], r[3])),
+        K::merge(K::merge(r[4], r[5]), K::merge(r[6], r[7])),
     );
 
     // Handle remainder
-- 
2.43.0


From 7e592fa11feeb277f3f769f12e17607795e86857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:09 +0000
Subject: [PATCH 41/56] fix: where() must use the truth value of the condition,
 not one of its bytes

---
 src/ops/dispatch.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/ops/dispatch.rs b/src/ops/dispatch.rs
index 6ec9487..7e680f4 100644
--- a/src/ops/dispatch.rs
+++ b/src/ops/dispatch.rs
@@ -1681,6 +1681,7 @@ fn dispatch_where_typed<T: Copy>(
     let result_ptr = result_buffer.as_mut_ptr() as *mut T;
 
     let itemsize = std::mem::size_of::<T>() as isize;
+    let cond_dtype = cond_bc.dtype();
 
     // Check for contiguous fast path: all arrays contiguous and same itemsize
     let all_contiguous = cond_bc.is_c_contiguous() && x_bc.is_c_contiguous() && y_bc.is_c_contiguous();
@@ -1689,19 +1690,10 @@ fn dispatch_where_typed<T: Copy>(
         let cond_ptr = cond_bc.data_ptr();
         let x_ptr = x_bc.data_ptr() as *const T;
         let y_ptr = y_bc.data_ptr() as *const T;
-        let cond_itemsize = cond_bc.dtype().itemsize();
+        let cond_itemsize = cond_dtype.itemsize();
 
         for i in 0..size {
-            let cond_val = unsafe {
-                match cond_itemsize {
-                    1 => *cond_ptr.add(i) != 0,
-                    _ => {
-                        // For other dtypes, check if any byte is non-zero
-                        let ptr = cond_ptr.add(i * cond_itemsize);
-                        (0..cond_itemsize).any(|j| *ptr.add(j) != 0)
-                    }
-                }
-            };
+            let cond_val = unsafe { cond_dtype.ops().is_truthy(cond_ptr, (i * cond_itemsize) as isize) };
             let val = if cond_val {
                 unsafe { *x_ptr.add(i) }
             } else {
@@ -1716,7 +1708,7 @@ fn dispatch_where_typed<T: Copy>(
             .zip(y_bc.iter_offsets())
             .enumerate()
         {
-            let cond_val = unsafe { *cond_bc.data_ptr().byte_offset(cond_off) != 0 };
+            let cond_val = unsafe { cond_dtype.ops().is_truthy(cond_bc.data_ptr(), cond_off) };
             let val = if cond_val {
                 unsafe { *(x_bc.data_ptr() as *const T).byte_offset(x_off) }
             } else {
-- 
2.43.0


From ac946f0f652cbaad2d3979e8821a18b654795f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:10 +0000
Subject: [PATCH 42/56] fix: extract, nonzero and trim_zeros must use truth
 values and copy elements of every dtype

---
 src/ops/mod.rs     |   5 +-
 src/python/misc.rs | 139 +++++----------------------------------------
 2 files changed, 17 insertions(+), 127 deletions(-)

diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index b818072..b0c8dca 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -138,9 +138,10 @@ impl RumpyArray {
 
         let mut indices = vec![0usize; ndim];
         let size = self.size();
+        let ops = self.dtype.ops();
         for _ in 0..size {
-            let val = self.get_element(&indices);
-            if val != 0.0 {
+            let offset = self.byte_offset_for(&indices);
+            if unsafe { ops.is_truthy(self.data_ptr(), offset) } {
                 for (dim, &idx) in indices.iter().enumerate() {
                     indices_per_dim[dim].push(idx as i64);
                 }
diff --git a/src/python/misc.rs b/src/python/misc.rs
index 24a6357..6387820 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -309,8 +309,7 @@ pub fn trim_zeros(filt: &PyRumpyArray, trim: &str) -> PyResult<PyRumpyArray> {
             if trim.contains('f') || trim.contains('F') {
                 first = size;
                 for i in 0..size {
-                    let val = unsafe { ops.read_f64(ptr, offsets[i]) }.unwrap_or(0.0);
-                    if val != 0.0 {
+                    if unsafe { ops.is_truthy(ptr, offsets[i]) } {
                         first = i;
                         break;
                     }
@@ -321,8 +320,7 @@ pub fn trim_zeros(filt: &PyRumpyArray, trim: &str) -> PyResult<PyRumpyArray> {
             if trim.contains('b') || trim.contains('B') {
                 last = first;
                 for i in (0..size).rev() {
-                    let val = unsafe { ops.read_f64(ptr, offsets[i]) }.unwrap_or(0.0);
-                    if val != 0.0 {
+                    if unsafe { ops.is_truthy(ptr, offsets[i]) } {
                         last = i + 1;
                         break;
                     }
@@ -357,134 +355,25 @@ pub fn extract(condition: &PyRumpyArray, arr: &PyRumpyArray) -> PyResult<PyRumpy
         ));
     }
 
-    let dtype = inner.dtype();
-    let size = inner.size();
-
-    // Fast path: both contiguous boolean condition and typed source
-    if cond.is_c_contiguous() && inner.is_c_contiguous() {
-        let cond_ptr = cond.data_ptr() as *const u8;  // bool is stored as u8
-
-        // Count true values
-        let mut count = 0usize;
-        for i in 0..size {
-            if unsafe { *cond_ptr.add(i) } != 0 {
-                count += 1;
-            }
-        }
-
-        let mut result = RumpyArray::zeros(vec![count], dtype.clone());
-        if count == 0 {
-            return Ok(PyRumpyArray::new(result));
-        }
-
-        let buffer = Arc::get_mut(&mut result.buffer).expect("unique");
-        let dst_ptr = buffer.as_mut_ptr();
-        let src_ptr = inner.data_ptr();
-
-        // Typed dispatch for extraction
-        macro_rules! extract_typed {
-            ($ty:ty) => {{
-                let src = src_ptr as *const $ty;
-                let dst = dst_ptr as *mut $ty;
-                let mut dst_idx = 0usize;
-                for i in 0..size {
-                    if unsafe { *cond_ptr.add(i) } != 0 {
-                        unsafe { *dst.add(dst_idx) = *src.add(i); }
-                        dst_idx += 1;
-                    }
-                }
-            }};
-        }
-
-        match dtype.kind() {
-            DTypeKind::Float32 => extract_typed!(f32),
-            DTypeKind::Float64 => extract_typed!(f64),
-            DTypeKind::Int32 => extract_typed!(i32),
-            DTypeKind::Int64 => extract_typed!(i64),
-            DTypeKind::Uint32 => extract_typed!(u32),
-            DTypeKind::Uint64 => extract_typed!(u64),
-            DTypeKind::Int8 => extract_typed!(i8),
-            DTypeKind::Int16 => extract_typed!(i16),
-            DTypeKind::Uint8 => extract_typed!(u8),
-            DTypeKind::Uint16 => extract_typed!(u16),
-            DTypeKind::Bool => extract_typed!(u8),
-            _ => {
-                // Fallback for complex types
-                let ops = dtype.ops();
-                let mut dst_idx = 0usize;
-                for i in 0..size {
-                    if unsafe { *cond_ptr.add(i) } != 0 {
-                        let val = unsafe { ops.read_f64(src_ptr, (i * inner.itemsize()) as isize) }.unwrap_or(0.0);
-                        unsafe { ops.write_f64(dst_ptr, dst_idx, val); }
-                        dst_idx += 1;
-                    }
-                }
-            }
-        }
-
-        return Ok(PyRumpyArray::new(result));
-    }
-
-    // Strided path with typed dispatch
-    let cond_ptr = cond.data_ptr();
-    let cond_offsets: Vec<isize> = cond.iter_offsets().collect();
-
-    // Count true values (condition is always bool = u8)
-    let mut count = 0usize;
-    for &offset in &cond_offsets {
-        if unsafe { *(cond_ptr.offset(offset) as *const u8) } != 0 {
-            count += 1;
-        }
-    }
+    // Source offsets of the elements whose condition is true (any dtype)
+    let cond_dtype = cond.dtype();
+    let selected: Vec<isize> = cond.iter_offsets()
+        .zip(inner.iter_offsets())
+        .filter(|&(cond_offset, _)| unsafe { cond_dtype.ops().is_truthy(cond.data_ptr(), cond_offset) })
+        .map(|(_, src_offset)| src_offset)
+        .collect();
 
-    let mut result = RumpyArray::zeros(vec![count], dtype.clone());
-    if count == 0 {
+    let dtype = inner.dtype();
+    let mut result = RumpyArray::zeros(vec![selected.len()], dtype.clone());
+    if selected.is_empty() {
         return Ok(PyRumpyArray::new(result));
     }
 
     let src_ptr = inner.data_ptr();
-    let src_offsets: Vec<isize> = inner.iter_offsets().collect();
     let buffer = Arc::get_mut(&mut result.buffer).expect("unique");
     let dst_ptr = buffer.as_mut_ptr();
-
-    macro_rules! extract_strided_typed {
-        ($ty:ty) => {{
-            let dst = dst_ptr as *mut $ty;
-            let mut dst_idx = 0usize;
-            for i in 0..size {
-                if unsafe { *(cond_ptr.offset(cond_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { *(src_ptr.offset(src_offsets[i]) as *const $ty) };
-                    unsafe { *dst.add(dst_idx) = val; }
-                    dst_idx += 1;
-                }
-            }
-        }};
-    }
-
-    match dtype.kind() {
-        DTypeKind::Float32 => extract_strided_typed!(f32),
-        DTypeKind::Float64 => extract_strided_typed!(f64),
-        DTypeKind::Int32 => extract_strided_typed!(i32),
-        DTypeKind::Int64 => extract_strided_typed!(i64),
-        DTypeKind::Uint32 => extract_strided_typed!(u32),
-        DTypeKind::Uint64 => extract_strided_typed!(u64),
-        DTypeKind::Int8 => extract_strided_typed!(i8),
-        DTypeKind::Int16 => extract_strided_typed!(i16),
-        DTypeKind::Uint8 => extract_strided_typed!(u8),
-        DTypeKind::Uint16 => extract_strided_typed!(u16),
-        DTypeKind::Bool => extract_strided_typed!(u8),
-        _ => {
-            // Complex types fallback
-            let ops = dtype.ops();
-            let mut dst_idx = 0usize;
-            for i in 0..size {
-                if unsafe { *(cond_ptr.offset(cond_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { ops.read_f64(src_ptr, src_offsets[i]) }.unwrap_or(0.0);
-                    unsafe { ops.write_f64(dst_ptr, dst_idx as usize, val); }
-                    dst_idx += 1;
-                }
-            }
-        }
+    for (i, &src_offset) in selected.iter().enumerate() {
+        unsafe { dtype.ops().copy_element(src_ptr, src_offset, dst_ptr, i); }
     }
 
     Ok(PyRumpyArray::new(result))
-- 
2.43.0


From ff87278e94acde29eb4dca614f6c2a3ee3683ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:47 +0000
Subject: [PATCH 43/56] fix: order complex values lexicographically in <, <=,
 >, >= as NumPy does

---
 src/ops/kernels/comparison.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ops/kernels/comparison.rs b/src/ops/kernels/comparison.rs
index 1f91165..d79aa06 100644
--- a/src/ops/kernels/comparison.rs
+++ b/src/ops/kernels/comparison.rs
@@ -76,27 +76,27 @@ impl_ord_comparison!(u8);
 
 // ============================================================================
 // Complex implementations
-// For complex numbers, Eq/Ne compare exactly, Gt/Lt/Ge/Le compare by magnitude
-// (matching NumPy behavior where ordering is not well-defined for complex)
+// Eq/Ne compare exactly, Gt/Lt/Ge/Le compare lexicographically (real part, then
+// imaginary part) and are false when either operand contains a NaN, like NumPy
 // ============================================================================
 
 macro_rules! impl_complex_comparison {
     ($F:ty) => {
         impl CompareKernel<Complex<$F>> for Gt {
             #[inline(always)]
-            fn apply(a: Complex<$F>, b: Complex<$F>) -> bool { a.norm_sqr() > b.norm_sqr() }
+            fn apply(a: Complex<$F>, b: Complex<$F>) -> bool { (a.re > b.re && !a.im.is_nan() && !b.im.is_nan()) || (a.re == b.re && a.im > b.im) }
         }
         impl CompareKernel<Complex<$F>> for Lt {
             #[inline(always)]
-            fn apply(a: Complex<$F>, b: Complex<$F>) -> bool { a.norm_sqr() < b.norm_sqr() }
+            fn apply(a: Complex<$F>, b: Complex<$F>) -> bool { (a.re < b.re && !a.im.is_nan() && !b.im.is_nan()) || (a.re == b.re && a.im < b.im) }
         }
         impl CompareKernel<Complex<$F>> for Ge {
             #[inline(always)]
-            fn apply(a: Complex<$F>, b: Complex<$F>) -> bool { a.norm_sqr() >= b.norm_sqr() }
+            fn apply(a: Complex<$F>, b: Complex<$F>) -> bool { (a.re > b.re && !a.im.is_nan() && !b.im.is_nan()) || (a.re == b.re && a.im >= b.im) }
         }
         impl CompareKernel<Complex<$F>> for Le {
             #[inline(always)]
-            fn apply(a: Complex<$F>, b: Complex<$F>) -> bool { a.norm_sqr() <= b.norm_sqr() }
+            fn apply(a: Complex<$F>, b: Complex<$F>) -> bool { (a.re < b.re && !a.im.is_nan() && !b.im.is_nan()) || (a.re == b.re && a.im <= b.im) }
         }
         impl CompareKernel<Complex<$F>> for Eq {
             #[inline(always)]
-- 
2.43.0


From f4b7bacf897479bda2fb4e1880577b3c1dbff911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:47 +0000
Subject: [PATCH 44/56] fix: inner of N-D arrays pairs every vector of a with
 every vector of b

---
 src/ops/inner.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ops/inner.rs b/src/ops/inner.rs
index 83a4521..cc98acf 100644
--- a/src/ops/inner.rs
+++ b/src/ops/inner.rs
@@ -96,11 +96,16 @@ pub(crate) unsafe fn dot_strided(
 /// Broadcasting with loop dimensions:
 /// ```ignore
 /// let a = rp.zeros([3, 4]);  // (3, 4) - 3 vectors of length 4
-/// let b = rp.zeros([4]);     // (4,) - one vector
-/// let c = rp.inner(a, b);    // (3,) - 3 inner products
+/// let b = rp.zeros([2, 4]);  // (2, 4) - 2 vectors of length 4
+/// let c = rp.inner(a, b);    // (3, 2) - 6 inner products
 /// ```
 pub fn inner(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
     let kernel = InnerKernel::new();
-    let mut results = gufunc_call(&kernel, &[a, b])?;
+    // Every vector of `a` pairs up with every vector of `b`
+    let mut a_expanded = a.clone();
+    for _ in 1..b.ndim() {
+        a_expanded = a_expanded.expand_dims(a.ndim().saturating_sub(1))?;
+    }
+    let mut results = gufunc_call(&kernel, &[&a_expanded, b])?;
     results.pop()
 }
-- 
2.43.0


From 0fdf148a6e9511e76f74fef1e9385263056e0dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:57 +0000
Subject: [PATCH 45/56] fix: diff of datetime64 arrays is timedelta64

---
 src/ops/array_methods/cumulative.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ops/array_methods/cumulative.rs b/src/ops/array_methods/cumulative.rs
index 489e702..709b22b 100644
--- a/src/ops/array_methods/cumulative.rs
+++ b/src/ops/array_methods/cumulative.rs
@@ -89,20 +89,26 @@ impl RumpyArray {
             return self.copy();
         }
 
+        let dtype = self.dtype().clone();
+        // The difference of two datetimes is a timedelta of the same unit
+        let out_dtype = match dtype.kind() {
+            DTypeKind::DateTime64(unit) => DType::timedelta64(unit),
+            _ => dtype.clone(),
+        };
+
         let axis_len = self.shape()[axis];
         if axis_len <= n {
             // Result has size 0 along axis
             let mut new_shape = self.shape().to_vec();
             new_shape[axis] = 0;
-            return RumpyArray::zeros(new_shape, self.dtype().clone());
+            return RumpyArray::zeros(new_shape, out_dtype);
         }
 
         // Single diff: result[i] = input[i+1] - input[i]
         let mut new_shape = self.shape().to_vec();
         new_shape[axis] = axis_len - 1;
 
-        let dtype = self.dtype().clone();
-        let mut result = RumpyArray::zeros(new_shape.clone(), dtype.clone());
+        let mut result = RumpyArray::zeros(new_shape.clone(), out_dtype);
 
         let out_size: usize = new_shape.iter().product();
         if out_size == 0 {
-- 
2.43.0


From f09ff92052e280145e35a20ad2ebfc0bf46f252f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:57 +0000
Subject: [PATCH 46/56] fix: round keeps complex components and returns a fresh
 array for integers

---
 src/ops/dispatch.rs | 14 +++++++-------
 src/ops/mod.rs      |  7 +++++++
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/ops/dispatch.rs b/src/ops/dispatch.rs
index 7e680f4..63f3820 100644
--- a/src/ops/dispatch.rs
+++ b/src/ops/dispatch.rs
@@ -1528,13 +1528,13 @@ pub fn dispatch_round(arr: &RumpyArray, decimals: i32) -> Option<RumpyArray> {
         DTypeKind::Float64 => dispatch_round_f64(arr, decimals),
         DTypeKind::Float32 => dispatch_round_f32(arr, decimals),
         // For integers, round is a no-op if decimals >= 0
-        DTypeKind::Int64 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Int32 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Int16 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Uint64 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Uint32 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Uint16 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Uint8 if decimals >= 0 => Some(arr.clone()),
+        DTypeKind::Int64 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Int32 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Int16 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Uint64 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Uint32 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Uint16 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Uint8 if decimals >= 0 => Some(arr.copy()),
         // Negative decimals on integers: round to tens, hundreds, etc.
         DTypeKind::Int64 => dispatch_round_i64(arr, decimals),
         DTypeKind::Int32 => dispatch_round_i32(arr, decimals),
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index b0c8dca..4070c48 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -263,6 +263,13 @@ impl RumpyArray {
         let src_ptr = self.data_ptr();
 
         for (i, offset) in self.iter_offsets().enumerate() {
+            // Complex values are rounded component by component
+            if matches!(dtype.kind(), crate::array::DTypeKind::Complex64 | crate::array::DTypeKind::Complex128) {
+                let (re, im) = unsafe { ops.read_complex(src_ptr, offset) }.unwrap_or((0.0, 0.0));
+                let (re, im) = ((re * scale).round() / scale, (im * scale).round() / scale);
+                unsafe { ops.write_complex(result_ptr, i, re, im); }
+                continue;
+            }
             let val = unsafe { ops.read_f64(src_ptr, offset) }.unwrap_or(0.0);
             let rounded = (val * scale).round() / scale;
             unsafe { ops.write_f64(result_ptr, i, rounded); }
-- 
2.43.0


From d98b8b22aa25222a8cb1c576ebcc78d34a1ab6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:57 +0000
Subject: [PATCH 47/56] fix: select, piecewise and ediff1d read operands with
 their own dtype and broadcast shapes

---
 src/python/misc.rs | 244 ++++++---------------------------------------
 1 file changed, 33 insertions(+), 211 deletions(-)

diff --git a/src/python/misc.rs b/src/python/misc.rs
index 6387820..0815e9e 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -19,7 +19,7 @@ use pyo3::prelude::*;
 use pyo3::types::{PyList, PyTuple};
 use std::sync::Arc;
 
-use crate::array::{DType, RumpyArray};
+use crate::array::{promote_dtype, DType, RumpyArray};
 use crate::array::dtype::DTypeKind;
 use super::{PyRumpyArray, shape::to_rumpy_array};
 
@@ -497,75 +497,21 @@ pub fn select(
         ));
     }
 
-    let shape = condlist[0].inner.shape().to_vec();
-    let size = condlist[0].inner.size();
-    let out_dtype = choicelist[0].inner.dtype();
-
-    let mut result = RumpyArray::full(shape, default, out_dtype.clone());
-    let buffer = Arc::get_mut(&mut result.buffer).expect("unique");
-    let dst_ptr = buffer.as_mut_ptr();
-
-    // Collect offsets
-    let cond_offsets: Vec<Vec<isize>> = condlist.iter()
-        .map(|c| c.inner.iter_offsets().collect())
-        .collect();
-    let choice_offsets: Vec<Vec<isize>> = choicelist.iter()
-        .map(|c| c.inner.iter_offsets().collect())
-        .collect();
-
-    // Collect raw pointers
-    let cond_ptrs: Vec<*const u8> = condlist.iter()
-        .map(|c| c.inner.data_ptr())
-        .collect();
-    let choice_ptrs: Vec<*const u8> = choicelist.iter()
-        .map(|c| c.inner.data_ptr())
-        .collect();
-
-    macro_rules! select_typed {
-        ($ty:ty) => {{
-            let dst = dst_ptr as *mut $ty;
-            for i in 0..size {
-                for cond_idx in 0..condlist.len() {
-                    // Condition is bool = u8
-                    let cond_val = unsafe { *(cond_ptrs[cond_idx].offset(cond_offsets[cond_idx][i]) as *const u8) };
-                    if cond_val != 0 {
-                        let val = unsafe { *(choice_ptrs[cond_idx].offset(choice_offsets[cond_idx][i]) as *const $ty) };
-                        unsafe { *dst.add(i) = val; }
-                        break;
-                    }
-                }
-            }
-        }};
+    // Every choice is converted to the common dtype, and all operands broadcast together
+    let mut out_dtype = choicelist[0].inner.dtype();
+    for choice in &choicelist[1..] {
+        out_dtype = promote_dtype(&out_dtype, &choice.inner.dtype());
     }
 
-    match out_dtype.kind() {
-        DTypeKind::Float32 => select_typed!(f32),
-        DTypeKind::Float64 => select_typed!(f64),
-        DTypeKind::Int32 => select_typed!(i32),
-        DTypeKind::Int64 => select_typed!(i64),
-        DTypeKind::Uint32 => select_typed!(u32),
-        DTypeKind::Uint64 => select_typed!(u64),
-        DTypeKind::Int8 => select_typed!(i8),
-        DTypeKind::Int16 => select_typed!(i16),
-        DTypeKind::Uint8 => select_typed!(u8),
-        DTypeKind::Uint16 => select_typed!(u16),
-        DTypeKind::Bool => select_typed!(u8),
-        _ => {
-            // Complex types fallback
-            let dst_ops = out_dtype.ops();
-            for i in 0..size {
-                for cond_idx in 0..condlist.len() {
-                    let cond_val = unsafe { *(cond_ptrs[cond_idx].offset(cond_offsets[cond_idx][i]) as *const u8) };
-                    if cond_val != 0 {
-                        let choice = &choicelist[cond_idx].inner;
-                        let choice_dtype = choice.dtype();
-                        let val = unsafe { choice_dtype.ops().read_f64(choice_ptrs[cond_idx], choice_offsets[cond_idx][i]) }.unwrap_or(0.0);
-                        unsafe { dst_ops.write_f64(dst_ptr, i, val); }
-                        break;
-                    }
-                }
-            }
-        }
+    // The first true condition wins: apply the choices from last to first
+    let mut result = RumpyArray::full(vec![], default, out_dtype.clone());
+    for (cond, choice) in condlist.iter().zip(choicelist.iter()).rev() {
+        let choice = choice.inner.astype(out_dtype.clone());
+        result = crate::ops::where_select(&cond.inner, &choice, &result).ok_or_else(|| {
+            pyo3::exceptions::PyValueError::new_err(
+                "operands could not be broadcast together"
+            )
+        })?;
     }
 
     Ok(PyRumpyArray::new(result))
@@ -666,8 +612,8 @@ pub fn piecewise(
         for i in 0..size {
             if assigned[i] { continue; }
 
-            let cond_val = unsafe { *(cond_ptrs[cond_idx].offset(cond_offsets[cond_idx][i]) as *const u8) };
-            if cond_val != 0 {
+            let cond_ops = condlist[cond_idx].inner.dtype();
+            if unsafe { cond_ops.ops().is_truthy(cond_ptrs[cond_idx], cond_offsets[cond_idx][i]) } {
                 let val = constant_val.map_or_else(|| call_func(&func_item, i), Ok)?;
                 write_val!(i, val);
                 assigned[i] = true;
@@ -708,151 +654,27 @@ pub fn ediff1d(
     to_begin: Option<&Bound<'_, pyo3::PyAny>>,
 ) -> PyResult<PyRumpyArray> {
     let inner = &ary.inner;
-    let size = inner.size();
     let dtype = inner.dtype();
 
-    // Get begin/end array references or scalars
-    let begin_arr: Option<pyo3::PyRef<'_, PyRumpyArray>> = to_begin.and_then(|v| v.extract().ok());
-    let end_arr: Option<pyo3::PyRef<'_, PyRumpyArray>> = to_end.and_then(|v| v.extract().ok());
-    let begin_scalar: Option<f64> = if begin_arr.is_none() { to_begin.and_then(|v| v.extract().ok()) } else { None };
-    let end_scalar: Option<f64> = if end_arr.is_none() { to_end.and_then(|v| v.extract().ok()) } else { None };
-
-    let begin_len = begin_arr.as_ref().map(|a| a.inner.size()).unwrap_or(if begin_scalar.is_some() { 1 } else { 0 });
-    let end_len = end_arr.as_ref().map(|a| a.inner.size()).unwrap_or(if end_scalar.is_some() { 1 } else { 0 });
-
-    let diff_len = if size > 0 { size - 1 } else { 0 };
-    let out_len = begin_len + diff_len + end_len;
-
-    let mut result = RumpyArray::zeros(vec![out_len], dtype.clone());
-    if out_len == 0 {
-        return Ok(PyRumpyArray::new(result));
-    }
-
-    let buffer = Arc::get_mut(&mut result.buffer).expect("unique");
-    let dst_ptr = buffer.as_mut_ptr();
-
-    // Integer differences wrap, like every other integer operation
-    trait Ediff {
-        fn ediff(self, prev: Self) -> Self;
-    }
-    macro_rules! impl_ediff {
-        ($sub:ident: $($ty:ty),*) => {$(
-            impl Ediff for $ty {
-                fn ediff(self, prev: Self) -> Self { self.$sub(prev) }
-            }
-        )*};
-    }
-    use std::ops::Sub;
-    impl_ediff!(sub: f32, f64);
-    impl_ediff!(wrapping_sub: i8, i16, i32, i64, u8, u16, u32, u64);
-
-    macro_rules! ediff1d_typed {
-        ($ty:ty) => {{
-            let dst = dst_ptr as *mut $ty;
-            let mut idx = 0usize;
-
-            // Write begin values
-            if let Some(ref arr) = begin_arr {
-                let offsets: Vec<isize> = arr.inner.iter_offsets().collect();
-                for j in 0..begin_len {
-                    unsafe { *dst.add(idx) = *(arr.inner.data_ptr().offset(offsets[j]) as *const $ty); }
-                    idx += 1;
-                }
-            } else if let Some(scalar) = begin_scalar {
-                unsafe { *dst.add(idx) = scalar as $ty; }
-                idx += 1;
-            }
-
-            // Write differences
-            if size > 1 {
-                let src = inner.data_ptr() as *const $ty;
-                if inner.is_c_contiguous() {
-                    for i in 1..size {
-                        unsafe { *dst.add(idx) = (*src.add(i)).ediff(*src.add(i - 1)); }
-                        idx += 1;
-                    }
-                } else {
-                    let offsets: Vec<isize> = inner.iter_offsets().collect();
-                    for i in 1..size {
-                        let curr = unsafe { *(inner.data_ptr().offset(offsets[i]) as *const $ty) };
-                        let prev = unsafe { *(inner.data_ptr().offset(offsets[i - 1]) as *const $ty) };
-                        unsafe { *dst.add(idx) = curr.ediff(prev); }
-                        idx += 1;
-                    }
-                }
-            }
-
-            // Write end values
-            if let Some(ref arr) = end_arr {
-                let offsets: Vec<isize> = arr.inner.iter_offsets().collect();
-                for j in 0..end_len {
-                    unsafe { *dst.add(idx) = *(arr.inner.data_ptr().offset(offsets[j]) as *const $ty); }
-                    idx += 1;
-                }
-            } else if let Some(scalar) = end_scalar {
-                unsafe { *dst.add(idx) = scalar as $ty; }
-            }
-        }};
-    }
-
-    match dtype.kind() {
-        DTypeKind::Float32 => ediff1d_typed!(f32),
-        DTypeKind::Float64 => ediff1d_typed!(f64),
-        DTypeKind::Int32 => ediff1d_typed!(i32),
-        DTypeKind::Int64 => ediff1d_typed!(i64),
-        DTypeKind::Uint32 => ediff1d_typed!(u32),
-        DTypeKind::Uint64 => ediff1d_typed!(u64),
-        DTypeKind::Int8 => ediff1d_typed!(i8),
-        DTypeKind::Int16 => ediff1d_typed!(i16),
-        DTypeKind::Uint8 => ediff1d_typed!(u8),
-        DTypeKind::Uint16 => ediff1d_typed!(u16),
-        _ => {
-            // Complex types fallback
-            let ops = dtype.ops();
-            let mut idx = 0usize;
-
-            // Write begin values
-            if let Some(ref arr) = begin_arr {
-                let arr_dtype = arr.inner.dtype();
-                let arr_ops = arr_dtype.ops();
-                let offsets: Vec<isize> = arr.inner.iter_offsets().collect();
-                for j in 0..begin_len {
-                    let val = unsafe { arr_ops.read_f64(arr.inner.data_ptr(), offsets[j]) }.unwrap_or(0.0);
-                    unsafe { ops.write_f64(dst_ptr, idx, val); }
-                    idx += 1;
-                }
-            } else if let Some(scalar) = begin_scalar {
-                unsafe { ops.write_f64(dst_ptr, idx, scalar); }
-                idx += 1;
-            }
-
-            // Write differences
-            if size > 1 {
-                let offsets: Vec<isize> = inner.iter_offsets().collect();
-                for i in 1..size {
-                    let curr = unsafe { ops.read_f64(inner.data_ptr(), offsets[i]) }.unwrap_or(0.0);
-                    let prev = unsafe { ops.read_f64(inner.data_ptr(), offsets[i - 1]) }.unwrap_or(0.0);
-                    unsafe { ops.write_f64(dst_ptr, idx, curr - prev); }
-                    idx += 1;
-                }
-            }
-
-            // Write end values
-            if let Some(ref arr) = end_arr {
-                let arr_dtype = arr.inner.dtype();
-                let arr_ops = arr_dtype.ops();
-                let offsets: Vec<isize> = arr.inner.iter_offsets().collect();
-                for j in 0..end_len {
-                    let val = unsafe { arr_ops.read_f64(arr.inner.data_ptr(), offsets[j]) }.unwrap_or(0.0);
-                    unsafe { ops.write_f64(dst_ptr, idx, val); }
-                    idx += 1;
-                }
-            } else if let Some(scalar) = end_scalar {
-                unsafe { ops.write_f64(dst_ptr, idx, scalar); }
-            }
+    // to_begin / to_end (array or scalar), flattened and converted to the array's dtype
+    let edge = |v: Option<&Bound<'_, pyo3::PyAny>>| -> Option<RumpyArray> {
+        let v = v?;
+        if let Ok(arr) = v.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
+            return arr.inner.astype(dtype.clone()).reshape(vec![arr.inner.size()]);
         }
-    }
+        let scalar = v.extract::<f64>().ok()?;
+        Some(RumpyArray::full(vec![1], scalar, dtype.clone()))
+    };
+
+    let flat = inner.reshape(vec![inner.size()]).expect("flatten keeps the size");
+    let mut parts = Vec::new();
+    parts.extend(edge(to_begin));
+    parts.push(flat.diff(1, 0));
+    parts.extend(edge(to_end));
 
+    let result = crate::array::concatenate(&parts, 0).ok_or_else(|| {
+        pyo3::exceptions::PyValueError::new_err("could not join to_begin, differences and to_end")
+    })?;
     Ok(PyRumpyArray::new(result))
 }
 
-- 
2.43.0


From 2dc95c621de499602159ca8e7502c17504afb98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:11 +0000
Subject: [PATCH 48/56] fix: tile with more repetitions than axes adds the axes
 even when all are one

---
 src/array/manipulation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index 9d8320f..01b5a22 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -987,7 +987,7 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
 
 /// Construct array by repeating input array by given reps.
 pub fn tile(arr: &RumpyArray, reps: &[usize]) -> RumpyArray {
-    if reps.is_empty() || reps.iter().all(|&r| r == 1) {
+    if reps.len() <= arr.ndim() && reps.iter().all(|&r| r == 1) {
         return arr.copy();
     }
 
-- 
2.43.0


From a380aee8f1917157c5b876112c1c9a9b0ed9ff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:22 +0000
Subject: [PATCH 49/56] fix: sign of a NaN scalar is NaN

---
 src/python/ufuncs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ufuncs.rs b/src/python/ufuncs.rs
index 4777c4e..81c2a64 100644
--- a/src/python/ufuncs.rs
+++ b/src/python/ufuncs.rs
@@ -131,7 +131,7 @@ pub fn tanh(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
 
 #[pyfunction]
 pub fn sign(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
-    apply_unary(x, |v| if v > 0.0 { 1.0 } else if v < 0.0 { -1.0 } else { 0.0 }, |a| a.sign())
+    apply_unary(x, |v| if v > 0.0 { 1.0 } else if v < 0.0 { -1.0 } else if v.is_nan() { v } else { 0.0 }, |a| a.sign())
 }
 
 #[pyfunction]
-- 
2.43.0


From 0c0275641ad29b6ca3263f4ba46dfa4f0a4b20f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:13 +0000
Subject: [PATCH 50/56] fix: digitize compares in the element type and puts NaN
 last

---
 src/ops/indexing.rs | 76 ++++++++++-----------------------------------
 1 file changed, 17 insertions(+), 59 deletions(-)

diff --git a/src/ops/indexing.rs b/src/ops/indexing.rs
index f21886e..8374fbe 100644
--- a/src/ops/indexing.rs
+++ b/src/ops/indexing.rs
@@ -899,70 +899,28 @@ pub fn triu_indices(n: usize, k: i64, m: usize) -> (RumpyArray, RumpyArray) {
 /// Uses binary search to find insertion points. If bins are increasing,
 /// `digitize(x, bins, right=False)` is equivalent to `searchsorted(bins, x, side='right')`.
 pub fn digitize(x: &RumpyArray, bins: &RumpyArray, right: bool) -> RumpyArray {
-    let x_size = x.size();
     let bins_size = bins.size();
-
-    if x_size == 0 {
-        return RumpyArray::zeros(x.shape().to_vec(), DType::int64());
-    }
-
-    let mut result = RumpyArray::zeros(x.shape().to_vec(), DType::int64());
-    let result_buffer = result.buffer_mut();
-    let buffer = Arc::get_mut(result_buffer).expect("buffer must be unique");
-    let result_ptr = buffer.as_mut_ptr() as *mut i64;
+    let bins = bins.reshape(vec![bins_size]).expect("same number of elements");
+    let side = if right { "left" } else { "right" };
 
     // Check if bins are monotonically decreasing
-    let bins_dtype = bins.dtype();
-    let bins_ops = bins_dtype.ops();
-    let bins_ptr = bins.data_ptr();
-
-    let is_decreasing = if bins_size >= 2 {
-        let first_offset = bins.byte_offset_for(&[0]);
-        let last_offset = bins.byte_offset_for(&[bins_size - 1]);
-        let first = unsafe { bins_ops.read_f64(bins_ptr, first_offset) }.unwrap_or(0.0);
-        let last = unsafe { bins_ops.read_f64(bins_ptr, last_offset) }.unwrap_or(0.0);
-        first > last
-    } else {
-        false
-    };
-
-    // Read bins into a Vec for binary search
-    let bins_values: Vec<f64> = bins.iter_offsets()
-        .map(|offset| unsafe { bins_ops.read_f64(bins_ptr, offset) }.unwrap_or(0.0))
-        .collect();
-
-    // Pre-compute reversed bins for decreasing case (avoid allocation in loop)
-    let reversed_bins: Vec<f64> = if is_decreasing {
-        bins_values.iter().rev().copied().collect()
-    } else {
-        Vec::new()
+    let is_decreasing = bins_size >= 2 && {
+        let dtype = bins.dtype();
+        let (first, last) = (bins.byte_offset_for(&[0]), bins.byte_offset_for(&[bins_size - 1]));
+        unsafe { dtype.ops().compare_elements(bins.data_ptr(), first, bins.data_ptr(), last) }.is_gt()
     };
+    if !is_decreasing {
+        return searchsorted(&bins, x, side).expect("bins are 1-D");
+    }
 
-    let x_dtype = x.dtype();
-    let x_ops = x_dtype.ops();
-    let x_ptr = x.data_ptr();
-
-    for (i, offset) in x.iter_offsets().enumerate() {
-        let val = unsafe { x_ops.read_f64(x_ptr, offset) }.unwrap_or(0.0);
-
-        let bin_idx = if is_decreasing {
-            // For decreasing bins: len(bins) - searchsorted(reversed_bins, val, side)
-            let search_idx = if right {
-                reversed_bins.partition_point(|&b| b < val)
-            } else {
-                reversed_bins.partition_point(|&b| b <= val)
-            };
-            bins_size - search_idx
-        } else {
-            // For increasing bins, standard binary search
-            if right {
-                bins_values.partition_point(|&b| b < val)
-            } else {
-                bins_values.partition_point(|&b| b <= val)
-            }
-        };
-
-        unsafe { *result_ptr.add(i) = bin_idx as i64; }
+    // For decreasing bins: len(bins) - searchsorted(reversed_bins, x, side)
+    let reversed = bins.flip(0).expect("bins are 1-D");
+    let mut result = searchsorted(&reversed, x, side).expect("bins are 1-D");
+    let size = result.size();
+    let buffer = Arc::get_mut(result.buffer_mut()).expect("buffer must be unique");
+    let result_ptr = buffer.as_mut_ptr() as *mut i64;
+    for i in 0..size {
+        unsafe { *result_ptr.add(i) = bins_size as i64 - *result_ptr.add(i); }
     }
 
     result
-- 
2.43.0


From e8665b893a40f08fc39c71c4b9d6d9f4fdf09b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:01 +0000
Subject: [PATCH 51/56] fix: unravel_index read strided index arrays as if
 packed

---
 src/python/indexing.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index 007a177..a8cc690 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -369,12 +369,11 @@ pub fn unravel_index(
     } else if let Ok(list) = indices.extract::<Vec<i64>>() {
         list
     } else if let Ok(arr) = indices.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-        let size = arr.inner.size();
         let ptr = arr.inner.data_ptr();
         let dtype = arr.inner.dtype();
         let ops = dtype.ops();
-        (0..size)
-            .map(|i| unsafe { ops.read_i64(ptr, (i * dtype.itemsize()) as isize) }.unwrap_or(0))
+        arr.inner.iter_offsets()
+            .map(|offset| unsafe { ops.read_i64(ptr, offset) }.unwrap_or(0))
             .collect()
     } else {
         return Err(pyo3::exceptions::PyTypeError::new_err(
-- 
2.43.0


From 55d8e507c8f5648bf289e518e3be35c3d4700ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:01 +0000
Subject: [PATCH 52/56] fix: cumulative_sum and cumulative_prod with an initial
 element zeroed complex values

---
 src/ops/array_methods/cumulative.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ops/array_methods/cumulative.rs b/src/ops/array_methods/cumulative.rs
index 709b22b..6926e6f 100644
--- a/src/ops/array_methods/cumulative.rs
+++ b/src/ops/array_methods/cumulative.rs
@@ -367,6 +367,7 @@ impl RumpyArray {
         let result_buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
         let result_ptr = result_buffer.as_mut_ptr();
         let ops = dtype.ops();
+        let is_complex = matches!(dtype.kind(), crate::array::dtype::DTypeKind::Complex64 | crate::array::dtype::DTypeKind::Complex128);
 
         let axis_len = shape[axis];
 
@@ -407,9 +408,14 @@ impl RumpyArray {
                 let src_indices: Vec<usize> = result_indices.iter().enumerate()
                     .map(|(i, &idx)| if i == axis { j } else { idx })
                     .collect();
-                let src_val = cumulative.get_element(&src_indices);
                 let dst_flat = base_flat + (j + 1) * axis_stride;
-                unsafe { ops.write_f64(result_ptr, dst_flat, src_val); }
+                if is_complex {
+                    let (re, im) = cumulative.get_complex_element(&src_indices);
+                    unsafe { ops.write_complex(result_ptr, dst_flat, re, im); }
+                } else {
+                    let src_val = cumulative.get_element(&src_indices);
+                    unsafe { ops.write_f64(result_ptr, dst_flat, src_val); }
+                }
             }
 
             increment_indices(&mut outer_indices, &outer_shape);
-- 
2.43.0


From 7c399e7983046e990f948257c28db6600a438e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:09 +0000
Subject: [PATCH 53/56] fix: tuple slice bounds beyond the integer range are
 clamped like NumPy's

---
 src/python/pyarray/dunder_item.rs | 14 ++++----
 src/python/pyarray/mod.rs         | 54 ++++---------------------------
 2 files changed, 15 insertions(+), 53 deletions(-)

diff --git a/src/python/pyarray/dunder_item.rs b/src/python/pyarray/dunder_item.rs
index 25eb4d8..0752e39 100644
--- a/src/python/pyarray/dunder_item.rs
+++ b/src/python/pyarray/dunder_item.rs
@@ -4,8 +4,8 @@ use pyo3::prelude::*;
 use pyo3::types::{PyEllipsis, PyList, PySlice, PyTuple};
 
 use super::{
-    element_to_py, expand_ellipsis, extract_slice_indices, fill_view, normalize_index, normalize_slice,
-    IndexItem, PyRumpyArray,
+    element_to_py, expand_ellipsis, extract_slice_indices, fill_view, normalize_index, IndexItem,
+    PyRumpyArray,
 };
 use crate::array::RumpyArray;
 
@@ -138,15 +138,17 @@ impl PyRumpyArray {
                         squeeze_axes.push(axis);
                         axis += 1;
                     }
-                    IndexItem::Slice(start, stop, step) => {
+                    IndexItem::FullSlice => {
+                        axis += 1;
+                    }
+                    IndexItem::Slice(slice) => {
                         if axis >= result.ndim() {
                             return Err(pyo3::exceptions::PyIndexError::new_err(
                                 "too many indices for array",
                             ));
                         }
-                        let len = result.shape()[axis] as isize;
-                        let (norm_start, norm_stop) = normalize_slice(*start, *stop, *step, len);
-                        result = result.slice_axis(axis, norm_start, norm_stop, *step);
+                        let (start, stop, step) = extract_slice_indices(slice, result.shape()[axis])?;
+                        result = result.slice_axis(axis, start, stop, step);
                         axis += 1;
                     }
                 }
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 1d06a4f..ef40dea 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -1061,39 +1061,19 @@ fn extract_i64_vec(obj: &Bound<'_, PyAny>, name: &str) -> PyResult<Vec<i64>> {
     }
 }
 
-/// Normalize slice start/stop values with proper defaults and clamping.
-fn normalize_slice(start: isize, stop: isize, step: isize, len: isize) -> (isize, isize) {
-    // Valid positions: [0, len] when walking forward, [-1, len - 1] when walking backward
-    let (lower, upper) = if step > 0 { (0, len) } else { (-1, len - 1) };
-    let (default_start, default_stop) = if step > 0 {
-        (lower, upper)
-    } else {
-        (upper, lower)
-    };
-
-    // Apply defaults for sentinel values, then normalize negative indices and clamp
-    let clamp = |v: isize| -> isize {
-        let v = if v < 0 { v + len } else { v };
-        v.max(lower).min(upper)
-    };
-    let start = if start == isize::MIN { default_start } else { clamp(start) };
-    let stop = if stop == isize::MAX { default_stop } else { clamp(stop) };
-
-    (start, stop)
-}
-
 /// Represents an indexing item after ellipsis expansion.
 #[derive(Clone, Debug)]
-enum IndexItem {
+enum IndexItem<'py> {
     NewAxis,
     Int(isize),
-    Slice(isize, isize, isize), // start, stop, step
+    FullSlice,
+    Slice(Bound<'py, PySlice>), // resolved once the axis length is known
 }
 
 /// Expand ellipsis in a tuple of indices.
 /// Returns a Vec of IndexItem representing each axis operation.
-fn expand_ellipsis(tuple: &Bound<'_, PyTuple>, ndim: usize) -> PyResult<Vec<IndexItem>> {
-    let mut items: Vec<IndexItem> = Vec::new();
+fn expand_ellipsis<'py>(tuple: &Bound<'py, PyTuple>, ndim: usize) -> PyResult<Vec<IndexItem<'py>>> {
+    let mut items: Vec<IndexItem<'py>> = Vec::new();
     let mut ellipsis_pos: Option<usize> = None;
     let mut explicit_axis_count = 0usize;
 
@@ -1130,34 +1110,14 @@ fn expand_ellipsis(tuple: &Bound<'_, PyTuple>, ndim: usize) -> PyResult<Vec<Inde
         if item.downcast::<PyEllipsis>().is_ok() {
             // Expand ellipsis to full slices
             for _ in 0..ellipsis_axes {
-                items.push(IndexItem::Slice(0, isize::MAX, 1)); // Will be clipped by slice_axis
+                items.push(IndexItem::FullSlice);
             }
         } else if item.is_none() {
             items.push(IndexItem::NewAxis);
         } else if let Ok(idx) = item.extract::<isize>() {
             items.push(IndexItem::Int(idx));
         } else if let Ok(slice) = item.downcast::<PySlice>() {
-            // We'll extract proper indices later when we know the axis size
-            // For now, store special marker values
-            let start = slice.getattr("start").ok()
-                .and_then(|v| if v.is_none() { None } else { v.extract::<isize>().ok() });
-            let stop = slice.getattr("stop").ok()
-                .and_then(|v| if v.is_none() { None } else { v.extract::<isize>().ok() });
-            let step = slice.getattr("step").ok()
-                .and_then(|v| if v.is_none() { None } else { v.extract::<isize>().ok() })
-                .unwrap_or(1);
-            if step == 0 {
-                return Err(pyo3::exceptions::PyValueError::new_err(
-                    "slice step cannot be zero",
-                ));
-            }
-
-            // Use sentinel values that will be processed during application
-            items.push(IndexItem::Slice(
-                start.unwrap_or(isize::MIN),
-                stop.unwrap_or(isize::MAX),
-                step
-            ));
+            items.push(IndexItem::Slice(slice.clone()));
         } else {
             return Err(pyo3::exceptions::PyTypeError::new_err(
                 "indices must be integers, slices, ellipsis, or None",
-- 
2.43.0


From 64108ac2186d9abae4f54d2c294b1482bf3f02c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:37 +0000
Subject: [PATCH 54/56] fix: put_along_axis reads and validates its indices
 before storing

---
 src/ops/indexing.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/ops/indexing.rs b/src/ops/indexing.rs
index 8374fbe..5f95684 100644
--- a/src/ops/indexing.rs
+++ b/src/ops/indexing.rs
@@ -560,31 +560,27 @@ pub fn put_along_axis(arr: &mut RumpyArray, indices: &RumpyArray, values: &Rumpy
     let val_ptr = values.data_ptr();
     let arr_ptr = arr.data_ptr_mut();
 
-    let idx_strides = indices.strides();
     let val_strides = values.strides();
     let ndim = indices.ndim();
     let shape = indices.shape().to_vec();
-    let idx_size = indices.size();
+
+    // Read and validate all indices before storing: they may share memory with arr
+    let targets: Vec<usize> = indices.iter_offsets()
+        .map(|offset| normalize_index(unsafe { idx_ops.read_i64(idx_ptr, offset) }.unwrap_or(0) as isize, axis_len))
+        .collect::<Option<Vec<_>>>()?;
 
     let mut idx_indices = vec![0usize; ndim];
     let mut target_indices = vec![0usize; ndim];
 
-    for _ in 0..idx_size {
+    for &target in &targets {
         // Compute offsets inline
-        let idx_offset: isize = idx_indices.iter()
-            .zip(idx_strides.iter())
-            .map(|(&i, &s)| i as isize * s)
-            .sum();
         let val_offset: isize = idx_indices.iter()
             .zip(val_strides.iter())
             .map(|(&i, &s)| i as isize * s)
             .sum();
 
-        let idx_val = unsafe { idx_ops.read_i64(idx_ptr, idx_offset) }.unwrap_or(0) as isize;
-        let normalized_idx = normalize_index(idx_val, axis_len)?;
-
         target_indices.copy_from_slice(&idx_indices);
-        target_indices[axis] = normalized_idx;
+        target_indices[axis] = target;
 
         unsafe {
             let dst = arr_ptr.offset(arr.byte_offset_for(&target_indices));
-- 
2.43.0


From cfd57d6dc344b3c5337f660725d44b7b93c6b150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:37 +0000
Subject: [PATCH 55/56] fix: diff of order n > 1 of an array without elements
 has n fewer entries along the axis

---
 src/ops/array_methods/cumulative.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ops/array_methods/cumulative.rs b/src/ops/array_methods/cumulative.rs
index 6926e6f..c6c2978 100644
--- a/src/ops/array_methods/cumulative.rs
+++ b/src/ops/array_methods/cumulative.rs
@@ -112,7 +112,8 @@ impl RumpyArray {
 
         let out_size: usize = new_shape.iter().product();
         if out_size == 0 {
-            return result;
+            new_shape[axis] = axis_len - n;
+            return RumpyArray::zeros(new_shape, result.dtype());
         }
 
         let result_buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
-- 
2.43.0


From 33b7d725ce2c0e5384e51bf80bb0fa91d26caff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:55 +0000
Subject: [PATCH 56/56] fix: unravel_index of a zero-dimensional shape gives an
 empty tuple

---
 src/ops/indexing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops/indexing.rs b/src/ops/indexing.rs
index 5f95684..0ea246f 100644
--- a/src/ops/indexing.rs
+++ b/src/ops/indexing.rs
@@ -715,7 +715,7 @@ pub fn unravel_index(indices: &[i64], shape: &[usize], order: char) -> Option<Ve
     } else {
         // C order: last dim varies fastest
         let mut s = vec![1usize; ndim];
-        for i in (0..ndim - 1).rev() {
+        for i in (0..ndim.saturating_sub(1)).rev() {
             s[i] = s[i + 1] * shape[i + 1];
         }
         s
-- 
2.43.0

