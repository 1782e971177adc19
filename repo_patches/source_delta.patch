From b2bc9a49bf862013cfd1a7b187bd3a87e97451e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 01/55] fix: align shapes on the right in
 Shape::broadcast_shape

---
 crates/hodu_core/src/types/shape.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/hodu_core/src/types/shape.rs b/crates/hodu_core/src/types/shape.rs
index 5681bbe..c87564a 100644
--- a/crates/hodu_core/src/types/shape.rs
+++ b/crates/hodu_core/src/types/shape.rs
@@ -100,17 +100,23 @@ impl Shape {
         let mut result_dims = SmallVec::with_capacity(max_ndim);
 
         for i in 0..max_ndim {
-            let lhs_idx = lhs.ndim().saturating_sub(max_ndim - i);
-            let rhs_idx = rhs.ndim().saturating_sub(max_ndim - i);
-
-            let lhs_dim = lhs.dims.get(lhs_idx).copied().unwrap_or(1);
-            let rhs_dim = rhs.dims.get(rhs_idx).copied().unwrap_or(1);
+            // Align both shapes on the right; missing leading dimensions count as 1
+            let lhs_dim = if i + lhs.ndim() < max_ndim {
+                1
+            } else {
+                lhs.dims[i + lhs.ndim() - max_ndim]
+            };
+            let rhs_dim = if i + rhs.ndim() < max_ndim {
+                1
+            } else {
+                rhs.dims[i + rhs.ndim() - max_ndim]
+            };
 
             if lhs_dim != rhs_dim && lhs_dim != 1 && rhs_dim != 1 {
                 return None;
             }
 
-            result_dims.push(lhs_dim.max(rhs_dim));
+            result_dims.push(if lhs_dim == 1 { rhs_dim } else { lhs_dim });
         }
 
         Some(Shape { dims: result_dims })
-- 
2.43.0


From 957ca13ce278036927b9af8fc5461b6aa4bbedc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 02/55] fix: broadcast an extent of 1 against 0 to 0 in tensor
 operators

---
 crates/hodu_core/src/tensor/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hodu_core/src/tensor/utils.rs b/crates/hodu_core/src/tensor/utils.rs
index 5a21468..0ba652c 100644
--- a/crates/hodu_core/src/tensor/utils.rs
+++ b/crates/hodu_core/src/tensor/utils.rs
@@ -27,7 +27,7 @@ pub fn broadcast_tensors2(a: &Tensor, b: &Tensor) -> HoduResult<(Tensor, Tensor)
         let b_dim = if i < b_ndim { b_dims[b_ndim - 1 - i] } else { 1 };
 
         if a_dim == 1 || b_dim == 1 || a_dim == b_dim {
-            output_dims[output_ndim - 1 - i] = a_dim.max(b_dim);
+            output_dims[output_ndim - 1 - i] = if a_dim == 1 { b_dim } else { a_dim };
         } else {
             // Only clone shapes for error messages
             return Err(HoduError::incompatible_shapes(a.shape(), b.shape(), Op::Dummy));
-- 
2.43.0


From bb067ca3374dfcee3851d7c314e311c655cb733e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 03/55] fix: refuse repeated dimensions in Layout::squeeze

---
 crates/hodu_core/src/types/layout.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/hodu_core/src/types/layout.rs b/crates/hodu_core/src/types/layout.rs
index e052ecd..6059b1d 100644
--- a/crates/hodu_core/src/types/layout.rs
+++ b/crates/hodu_core/src/types/layout.rs
@@ -224,6 +224,12 @@ impl Layout {
                     });
                 }
 
+                if actual_dims.contains(&actual_dim) {
+                    return Err(HoduError::InvalidLayout {
+                        reason: format!("Cannot squeeze dimension {} more than once", dim),
+                    });
+                }
+
                 actual_dims.push(actual_dim);
             }
 
-- 
2.43.0


From 658e84e510346406e729ec0d138392f838936fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 04/55] fix: keep the offset when a SymbolicLayout becomes a
 Layout

---
 crates/hodu_core/src/types/symbolic_layout.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_core/src/types/symbolic_layout.rs b/crates/hodu_core/src/types/symbolic_layout.rs
index 492bdde..adafb55 100644
--- a/crates/hodu_core/src/types/symbolic_layout.rs
+++ b/crates/hodu_core/src/types/symbolic_layout.rs
@@ -108,7 +108,9 @@ impl SymbolicLayout {
     pub fn to_concrete(&self) -> Option<Layout> {
         if self.is_fully_concrete() {
             let shape = self.shape.to_concrete()?;
-            Some(Layout::new(shape, self.strides.to_vec()))
+            let mut layout = Layout::new(shape, self.strides.to_vec());
+            layout.set_offset(self.offset);
+            Some(layout)
         } else {
             None
         }
@@ -118,7 +120,9 @@ impl SymbolicLayout {
     /// Returns None if any dynamic dimension lacks a max_bound
     pub fn to_max_layout(&self) -> Option<Layout> {
         let max_shape = self.shape.to_max_shape()?;
-        Some(Layout::new(max_shape, self.strides.to_vec()))
+        let mut layout = Layout::new(max_shape, self.strides.to_vec());
+        layout.set_offset(self.offset);
+        Some(layout)
     }
 
     /// Computes contiguous strides using max_bound for dynamic dimensions
-- 
2.43.0


From 252fb54c9412049efae492b92e414e23dd14fe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:57 +0000
Subject: [PATCH 05/55] fix: never express a negative slice step as a forward
 view

---
 crates/hodu_core/src/tensor/ops/shape.rs | 14 ++++++++++
 crates/hodu_core/src/types/layout.rs     | 33 +++++++++---------------
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/shape.rs b/crates/hodu_core/src/tensor/ops/shape.rs
index 7e0dc97..e847d7e 100644
--- a/crates/hodu_core/src/tensor/ops/shape.rs
+++ b/crates/hodu_core/src/tensor/ops/shape.rs
@@ -475,6 +475,20 @@ impl Tensor {
         let step_i32 = step_scalar.to_i32();
 
         let current_layout = self.layout();
+
+        // A reversed dimension cannot be expressed as a view: flip it, then slice forwards
+        if step_i32 < 0 {
+            let dim_size = current_layout.dim_size(dim_i32).ok_or(HoduError::InvalidAxis {
+                axis: dim_i32,
+                ndim: current_layout.ndim(),
+            })? as i32;
+            let from_end = |idx: i32| if idx < 0 { dim_size + idx } else { idx };
+            let flipped_start = dim_size - 1 - from_end(start_i32).clamp(-1, dim_size - 1);
+            let flipped_end = end_i32.map(|e| dim_size - 1 - from_end(e).clamp(-1, dim_size - 1));
+            let flipped = self.flip(&[dim_i32])?;
+            return flipped.slice(dim_i32, flipped_start, flipped_end, step_i32.saturating_neg());
+        }
+
         let new_layout = current_layout.slice(dim_i32, start_i32, end_i32, step_i32)?;
         let requires_grad = self.is_requires_grad();
 
diff --git a/crates/hodu_core/src/types/layout.rs b/crates/hodu_core/src/types/layout.rs
index 6059b1d..7c74a7e 100644
--- a/crates/hodu_core/src/types/layout.rs
+++ b/crates/hodu_core/src/types/layout.rs
@@ -453,6 +453,13 @@ impl Layout {
             return Err(HoduError::InternalError("slice step cannot be zero".to_string()));
         }
 
+        // Strides are unsigned, so a reversed dimension cannot be expressed as a view
+        if step < 0 {
+            return Err(HoduError::InvalidLayout {
+                reason: "Cannot slice a layout with a negative step. Use .flip() before slicing".to_string(),
+            });
+        }
+
         let dim_size = self.shape.dims()[actual_dim] as i32;
 
         // Normalize negative indices and handle None for end
@@ -465,32 +472,16 @@ impl Layout {
                     e
                 }
             },
-            None => {
-                if step > 0 {
-                    dim_size
-                } else {
-                    -1
-                }
-            },
+            None => dim_size,
         };
 
         // Clamp indices to valid range
         let clamped_start = start_idx.clamp(0, dim_size);
-        let clamped_end = if step > 0 {
-            end_idx.clamp(0, dim_size)
-        } else {
-            end_idx.clamp(-1, dim_size - 1)
-        };
+        let clamped_end = end_idx.clamp(0, dim_size);
 
         // Calculate new size for the dimension
-        let new_size = if step > 0 {
-            if clamped_end > clamped_start {
-                (clamped_end - clamped_start + step - 1) / step
-            } else {
-                0
-            }
-        } else if clamped_start > clamped_end {
-            (clamped_start - clamped_end + (-step) - 1) / (-step)
+        let new_size = if clamped_end > clamped_start {
+            (clamped_end - clamped_start - 1) / step + 1
         } else {
             0
         };
@@ -504,7 +495,7 @@ impl Layout {
         let mut new_strides = self.strides.clone();
 
         new_shape.dims_mut()[actual_dim] = new_size as usize;
-        new_strides[actual_dim] = self.strides[actual_dim] * step.unsigned_abs() as usize;
+        new_strides[actual_dim] = self.strides[actual_dim] * step as usize;
 
         // Calculate new offset
         let new_offset = self.offset + clamped_start as usize * self.strides[actual_dim];
-- 
2.43.0


From a7d72d6dbccf695b31df81571dcc9697250bc145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 06/55] fix: read tensors back through their layout's offset
 and size

---
 crates/hodu_core/src/tensor/bytes.rs | 20 ++++++++++++--------
 crates/hodu_core/src/tensor/vec.rs   | 14 +++++++++-----
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/crates/hodu_core/src/tensor/bytes.rs b/crates/hodu_core/src/tensor/bytes.rs
index 5b7a18f..86bdc44 100644
--- a/crates/hodu_core/src/tensor/bytes.rs
+++ b/crates/hodu_core/src/tensor/bytes.rs
@@ -1,5 +1,5 @@
 use crate::{
-    be::storage::BackendStorage,
+    be::storage::{BackendStorage, BackendStorageT},
     be_cpu::storage::CpuStorage,
     error::{HoduError, HoduResult},
     tensor::{internal::from_storage_with_context, Tensor},
@@ -18,14 +18,18 @@ impl Tensor {
         let layout = self.layout();
 
         // Make contiguous if needed
-        let cpu_storage = if !layout.is_contiguous() {
-            let contiguous = self.contiguous()?;
-            contiguous.with_storage(|storage| storage.to_cpu_storage())?
-        } else {
-            cpu_storage
-        };
+        if !layout.is_contiguous() {
+            let contiguous = cpu_storage.contiguous(&layout)?;
+            return Ok(storage_to_bytes(&contiguous));
+        }
+
+        // A contiguous view may cover only a part of its (shared) storage
+        let size_in_bytes = self.dtype().size_in_bytes();
+        let start = layout.offset() * size_in_bytes;
+        let end = start + layout.size() * size_in_bytes;
+        let bytes = storage_to_bytes(&cpu_storage);
 
-        Ok(storage_to_bytes(&cpu_storage))
+        Ok(bytes[start..end].to_vec())
     }
 
     /// Create tensor from raw bytes on specified device
diff --git a/crates/hodu_core/src/tensor/vec.rs b/crates/hodu_core/src/tensor/vec.rs
index 8afbe36..88a00d0 100644
--- a/crates/hodu_core/src/tensor/vec.rs
+++ b/crates/hodu_core/src/tensor/vec.rs
@@ -310,10 +310,12 @@ fn extract_vec_from_cpu_storage<T: Clone + 'static>(cpu_storage: &CpuStorage, la
     let target_dtype = get_dtype_for_type::<T>()
         .ok_or_else(|| HoduError::InternalError("Unsupported type for extraction".to_string()))?;
 
-    let cpu_storage = if cpu_storage.dtype() != target_dtype {
-        cpu_storage.to_dtype(layout, target_dtype)?
+    // The conversion already gathers the logical elements into a contiguous storage
+    let contiguous_layout = Layout::from_shape(layout.shape());
+    let (cpu_storage, layout) = if cpu_storage.dtype() != target_dtype {
+        (cpu_storage.to_dtype(layout, target_dtype)?, &contiguous_layout)
     } else {
-        cpu_storage.clone()
+        (cpu_storage.clone(), layout)
     };
 
     let total_elements = layout.shape().dims().iter().copied().product::<usize>();
@@ -371,14 +373,16 @@ fn extract_with_layout<T: Clone>(result: &mut Vec<T>, data: &[T], layout: &Layou
     let strides = layout.strides();
 
     if layout.is_contiguous() {
-        result.extend_from_slice(data);
+        let offset = layout.offset();
+        result.extend_from_slice(&data[offset..offset + layout.size()]);
     } else {
         let total_elements = dims.dims().iter().copied().product::<usize>();
         let ndim = dims.ndim();
         let mut indices = vec![0usize; ndim];
 
         for _ in 0..total_elements {
-            let flat_idx = indices.iter().zip(strides.iter()).map(|(&i, &s)| i * s).sum::<usize>();
+            let flat_idx =
+                layout.offset() + indices.iter().zip(strides.iter()).map(|(&i, &s)| i * s).sum::<usize>();
 
             if flat_idx < data.len() {
                 result.push(data[flat_idx].clone());
-- 
2.43.0


From 8152e96b7966708ae8eb770a081b63463f45c1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 07/55] fix: honour the offset of rank-0 views in kernels

---
 crates/hodu_cpu_kernels/kernels/ops_cast.c    |  2 +-
 crates/hodu_cpu_kernels/kernels/ops_memory.c  |  2 +-
 crates/hodu_cpu_kernels/kernels/ops_unary.c   | 40 +++++++++----------
 .../ops_unary_blas_aarch64_apple_darwin.c     |  4 +-
 .../kernels/ops_unary_openblas.c              |  4 +-
 crates/hodu_cpu_kernels/kernels/storage.c     |  2 +-
 6 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_cast.c b/crates/hodu_cpu_kernels/kernels/ops_cast.c
index b09dcec..8bd98a8 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_cast.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_cast.c
@@ -59,7 +59,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata + 2 + num_dims;                                           \
-        const size_t offset = (num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;                     \
+        const size_t offset = metadata[2 + 2 * num_dims];                                          \
                                                                                                    \
         bool contiguous = is_contiguous(num_dims, dims, strides);                                  \
                                                                                                    \
diff --git a/crates/hodu_cpu_kernels/kernels/ops_memory.c b/crates/hodu_cpu_kernels/kernels/ops_memory.c
index 529b53d..3c067fb 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_memory.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_memory.c
@@ -42,7 +42,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata + 2 + num_dims;                                           \
-        const size_t offset = (num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;                     \
+        const size_t offset = metadata[2 + 2 * num_dims];                                          \
                                                                                                    \
         bool contiguous = is_contiguous(num_dims, dims, strides);                                  \
                                                                                                    \
diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary.c b/crates/hodu_cpu_kernels/kernels/ops_unary.c
index 5fc7caa..71d51ac 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary.c
@@ -70,7 +70,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -169,7 +169,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -241,7 +241,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -282,7 +282,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -324,7 +324,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -360,7 +360,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -395,7 +395,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -424,7 +424,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -454,7 +454,7 @@ void hodu_cpu_neg_f32(const void *input, void *output, const size_t *metadata) {
     f32_t *out = (f32_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -502,7 +502,7 @@ void hodu_cpu_abs_f32(const void *input, void *output, const size_t *metadata) {
     f32_t *out = (f32_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -553,7 +553,7 @@ void hodu_cpu_square_f32(const void *input, void *output, const size_t *metadata
     f32_t *out = (f32_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -602,7 +602,7 @@ void hodu_cpu_sqrt_f32(const void *input, void *output, const size_t *metadata)
     f32_t *out = (f32_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -653,7 +653,7 @@ void hodu_cpu_relu_f32(const void *input, void *output, const size_t *metadata)
     f32_t *out = (f32_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -758,7 +758,7 @@ void hodu_cpu_mul_scalar_f32_fallback(const void *input, void *output, const siz
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
@@ -817,7 +817,7 @@ void hodu_cpu_neg_f64(const void *input, void *output, const size_t *metadata) {
     f64_t *out = (f64_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -867,7 +867,7 @@ void hodu_cpu_abs_f64(const void *input, void *output, const size_t *metadata) {
     f64_t *out = (f64_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -920,7 +920,7 @@ void hodu_cpu_square_f64(const void *input, void *output, const size_t *metadata
     f64_t *out = (f64_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -972,7 +972,7 @@ void hodu_cpu_sqrt_f64(const void *input, void *output, const size_t *metadata)
     f64_t *out = (f64_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -1024,7 +1024,7 @@ void hodu_cpu_relu_f64(const void *input, void *output, const size_t *metadata)
     f64_t *out = (f64_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -1124,7 +1124,7 @@ void hodu_cpu_mul_scalar_f64_fallback(const void *input, void *output, const siz
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary_blas_aarch64_apple_darwin.c b/crates/hodu_cpu_kernels/kernels/ops_unary_blas_aarch64_apple_darwin.c
index 34a88f0..54e5057 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary_blas_aarch64_apple_darwin.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary_blas_aarch64_apple_darwin.c
@@ -20,7 +20,7 @@ void hodu_cpu_mul_scalar_f32(const void *input, void *output, const size_t *meta
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
@@ -53,7 +53,7 @@ void hodu_cpu_mul_scalar_f64(const void *input, void *output, const size_t *meta
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c b/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c
index 7138eab..2b034bc 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c
@@ -20,7 +20,7 @@ void hodu_cpu_mul_scalar_f32(const void *input, void *output, const size_t *meta
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
@@ -53,7 +53,7 @@ void hodu_cpu_mul_scalar_f64(const void *input, void *output, const size_t *meta
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
diff --git a/crates/hodu_cpu_kernels/kernels/storage.c b/crates/hodu_cpu_kernels/kernels/storage.c
index 75d860d..fa0da43 100644
--- a/crates/hodu_cpu_kernels/kernels/storage.c
+++ b/crates/hodu_cpu_kernels/kernels/storage.c
@@ -41,7 +41,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata + 2 + num_dims;                                           \
-        const size_t offset = (num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;                     \
+        const size_t offset = metadata[2 + 2 * num_dims];                                          \
                                                                                                    \
         bool contiguous = is_contiguous(num_dims, dims, strides);                                  \
                                                                                                    \
-- 
2.43.0


From 696b22f9cbebb404c1726d6089626b553560d4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 08/55] fix: round to nearest and keep subnormals when
 narrowing to f16 and bf16

---
 crates/hodu_cpu_kernels/kernels/t_bf16.h |  5 ++-
 crates/hodu_cpu_kernels/kernels/t_f16.h  | 49 +++++++++++-------------
 2 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/t_bf16.h b/crates/hodu_cpu_kernels/kernels/t_bf16.h
index b1dc2f2..e59b48d 100644
--- a/crates/hodu_cpu_kernels/kernels/t_bf16.h
+++ b/crates/hodu_cpu_kernels/kernels/t_bf16.h
@@ -35,7 +35,10 @@ static inline float bf16_to_float(bf16_t val) {
 static inline bf16_t float_to_bf16(float val) {
     uint32_t bits;
     memcpy(&bits, &val, sizeof(float));
-    return (bf16_t)(bits >> 16);
+    if ((bits & 0x7FFFFFFF) > 0x7F800000) // NaN: keep it quiet, its payload may be cut off
+        return (bf16_t)((bits >> 16) | 0x0040);
+    // Round to nearest even (may carry into the exponent, up to infinity)
+    return (bf16_t)((bits + 0x7FFF + ((bits >> 16) & 1)) >> 16);
 }
 
 // ============================================================================
diff --git a/crates/hodu_cpu_kernels/kernels/t_f16.h b/crates/hodu_cpu_kernels/kernels/t_f16.h
index b4c07e5..df192dc 100644
--- a/crates/hodu_cpu_kernels/kernels/t_f16.h
+++ b/crates/hodu_cpu_kernels/kernels/t_f16.h
@@ -3,6 +3,7 @@
 
 #include <math.h>
 #include <stdint.h>
+#include <string.h>
 
 #ifdef __cplusplus
 extern "C" {
@@ -46,34 +47,30 @@ static inline float f16_to_float(f16_t val) {
 }
 
 static inline f16_t float_to_f16(float val) {
-    if (val == 0.0f)
-        return 0;
-    if (isnan(val))
-        return 0x7E00;
-
-    uint32_t sign = val < 0 ? 1 : 0;
-    val = fabsf(val);
-
-    if (isinf(val) || val > 65504.0f)
-        return (sign << 15) | 0x7C00;
-    if (val < 0.00006103515625f)
-        return sign << 15;
-
-    int exp;
-    float mant = frexpf(val, &exp);
-    exp += 14;
-
-    if (exp <= 0) {
-        mant = ldexpf(mant, exp);
-        exp = 0;
-    } else if (exp >= 31) {
-        return (sign << 15) | 0x7C00;
+    uint32_t bits;
+    memcpy(&bits, &val, sizeof(float));
+    uint32_t sign = (bits >> 16) & 0x8000;
+    bits &= 0x7FFFFFFF;
+
+    if (bits > 0x7F800000) // NaN
+        return (f16_t)(sign | 0x7E00);
+    if (bits >= 0x477FF000) // At least 65520, rounds past 65504
+        return (f16_t)(sign | 0x7C00);
+
+    uint32_t exp = bits >> 23;
+    if (exp < 113) {
+        // Subnormal result: round the significand (in units of 2^-24) to nearest even
+        uint32_t shift = 126 - exp;
+        if (shift > 24)
+            return (f16_t)sign;
+        uint32_t mant = (bits & 0x7FFFFF) | 0x800000;
+        uint32_t half = (1u << (shift - 1)) - 1 + ((mant >> shift) & 1);
+        return (f16_t)(sign | ((mant + half) >> shift));
     }
 
-    int mant_bits = (int)((mant * 2.0f - 1.0f) * 1024.0f + 0.5f);
-    mant_bits = mant_bits > 1023 ? 1023 : mant_bits;
-
-    return (sign << 15) | (exp << 10) | mant_bits;
+    // Normal result: rebias the exponent and round to nearest even (may carry into it)
+    bits -= 112u << 23;
+    return (f16_t)(sign | ((bits + 0xFFF + ((bits >> 13) & 1)) >> 13));
 }
 
 // ============================================================================
-- 
2.43.0


From b97448183dc438d8689c990aea70bbcfa6281224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 09/55] fix: encode and decode 8-bit floats as their formats
 define

---
 crates/hodu_cpu_kernels/kernels/t_f8e4m3.h | 60 +++++++++-------------
 crates/hodu_cpu_kernels/kernels/t_f8e5m2.h | 53 +++++++++----------
 2 files changed, 48 insertions(+), 65 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/t_f8e4m3.h b/crates/hodu_cpu_kernels/kernels/t_f8e4m3.h
index 968da9a..4ac6159 100644
--- a/crates/hodu_cpu_kernels/kernels/t_f8e4m3.h
+++ b/crates/hodu_cpu_kernels/kernels/t_f8e4m3.h
@@ -3,6 +3,7 @@
 
 #include <math.h>
 #include <stdint.h>
+#include <string.h>
 
 #ifdef __cplusplus
 extern "C" {
@@ -30,12 +31,9 @@ static inline float f8e4m3_to_float(f8e4m3_t val) {
     uint32_t mant = val & 0x7;
 
     // E4M3 uses bias of 7
-    // Special values: exp=15 is infinity/NaN
-    if (exp == 15) {
-        if (mant == 0)
-            return sign ? -INFINITY : INFINITY;
+    // No infinities: the only special value is NaN, all exponent and mantissa bits set
+    if (exp == 15 && mant == 7)
         return NAN;
-    }
 
     if (exp == 0) {
         if (mant == 0)
@@ -50,38 +48,30 @@ static inline float f8e4m3_to_float(f8e4m3_t val) {
 }
 
 static inline f8e4m3_t float_to_f8e4m3(float val) {
-    if (val == 0.0f)
-        return 0;
-    if (isnan(val))
-        return 0x7F; // NaN
-
-    uint32_t sign = val < 0 ? 1 : 0;
-    val = fabsf(val);
-
-    // E4M3 max value is ~448
-    if (isinf(val) || val > 448.0f)
-        return (sign << 7) | 0x7F;
-
-    // E4M3 min normal value is 2^(-6) ≈ 0.015625
-    if (val < 0.001953125f) // 2^(-9)
-        return sign << 7;
-
-    int exp;
-    float mant = frexpf(val, &exp);
-    exp += 6; // bias = 7, but frexp returns [0.5, 1), so adjust
-
-    if (exp <= 0) {
-        // Subnormal
-        mant = ldexpf(mant, exp);
-        exp = 0;
-    } else if (exp >= 15) {
-        return (sign << 7) | 0x7F;
+    uint32_t bits;
+    memcpy(&bits, &val, sizeof(float));
+    uint32_t sign = (bits >> 24) & 0x80;
+    bits &= 0x7FFFFFFF;
+
+    if (bits > 0x7F800000) // NaN
+        return (f8e4m3_t)(sign | 0x7F);
+    if (bits > 0x43E80000) // Above 464, rounds past 448
+        return (f8e4m3_t)(sign | 0x7F);
+
+    uint32_t exp = bits >> 23;
+    if (exp < 121) {
+        // Subnormal result: round the significand (in units of 2^-9) to nearest even
+        uint32_t shift = 141 - exp;
+        if (shift > 24)
+            return (f8e4m3_t)sign;
+        uint32_t mant = (bits & 0x7FFFFF) | 0x800000;
+        uint32_t half = (1u << (shift - 1)) - 1 + ((mant >> shift) & 1);
+        return (f8e4m3_t)(sign | ((mant + half) >> shift));
     }
 
-    int mant_bits = (int)((mant * 2.0f - 1.0f) * 8.0f + 0.5f);
-    mant_bits = mant_bits > 7 ? 7 : mant_bits;
-
-    return (sign << 7) | (exp << 3) | mant_bits;
+    // Normal result: rebias the exponent and round to nearest even (may carry into it)
+    bits -= 120u << 23;
+    return (f8e4m3_t)(sign | ((bits + 0x7FFFF + ((bits >> 20) & 1)) >> 20));
 }
 
 // ============================================================================
diff --git a/crates/hodu_cpu_kernels/kernels/t_f8e5m2.h b/crates/hodu_cpu_kernels/kernels/t_f8e5m2.h
index 72c3dba..3e058eb 100644
--- a/crates/hodu_cpu_kernels/kernels/t_f8e5m2.h
+++ b/crates/hodu_cpu_kernels/kernels/t_f8e5m2.h
@@ -3,6 +3,7 @@
 
 #include <math.h>
 #include <stdint.h>
+#include <string.h>
 
 #ifdef __cplusplus
 extern "C" {
@@ -50,38 +51,30 @@ static inline float f8e5m2_to_float(f8e5m2_t val) {
 }
 
 static inline f8e5m2_t float_to_f8e5m2(float val) {
-    if (val == 0.0f)
-        return 0;
-    if (isnan(val))
-        return 0x7F; // NaN
-
-    uint32_t sign = val < 0 ? 1 : 0;
-    val = fabsf(val);
-
-    // E5M2 max value is ~57344
-    if (isinf(val) || val > 57344.0f)
-        return (sign << 7) | 0x7F;
-
-    // E5M2 min normal value is 2^(-14) ≈ 0.000061
-    if (val < 0.0000152587890625f) // 2^(-16)
-        return sign << 7;
-
-    int exp;
-    float mant = frexpf(val, &exp);
-    exp += 14; // bias = 15, but frexp returns [0.5, 1), so adjust
-
-    if (exp <= 0) {
-        // Subnormal
-        mant = ldexpf(mant, exp);
-        exp = 0;
-    } else if (exp >= 31) {
-        return (sign << 7) | 0x7F;
+    uint32_t bits;
+    memcpy(&bits, &val, sizeof(float));
+    uint32_t sign = (bits >> 24) & 0x80;
+    bits &= 0x7FFFFFFF;
+
+    if (bits > 0x7F800000) // NaN
+        return (f8e5m2_t)(sign | 0x7E);
+    if (bits >= 0x47700000) // At least 61440, rounds past 57344
+        return (f8e5m2_t)(sign | 0x7C);
+
+    uint32_t exp = bits >> 23;
+    if (exp < 113) {
+        // Subnormal result: round the significand (in units of 2^-16) to nearest even
+        uint32_t shift = 134 - exp;
+        if (shift > 24)
+            return (f8e5m2_t)sign;
+        uint32_t mant = (bits & 0x7FFFFF) | 0x800000;
+        uint32_t half = (1u << (shift - 1)) - 1 + ((mant >> shift) & 1);
+        return (f8e5m2_t)(sign | ((mant + half) >> shift));
     }
 
-    int mant_bits = (int)((mant * 2.0f - 1.0f) * 4.0f + 0.5f);
-    mant_bits = mant_bits > 3 ? 3 : mant_bits;
-
-    return (sign << 7) | (exp << 2) | mant_bits;
+    // Normal result: rebias the exponent and round to nearest even (may carry into it)
+    bits -= 112u << 23;
+    return (f8e5m2_t)(sign | ((bits + 0xFFFFF + ((bits >> 21) & 1)) >> 21));
 }
 
 // ============================================================================
-- 
2.43.0


From c8bc295f2506ef93af2281259fdbe02d08b73b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 10/55] fix: refuse a repeated output index in einsum equations

---
 crates/hodu_core/src/einsum.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/hodu_core/src/einsum.rs b/crates/hodu_core/src/einsum.rs
index de03ed9..4e63734 100644
--- a/crates/hodu_core/src/einsum.rs
+++ b/crates/hodu_core/src/einsum.rs
@@ -85,6 +85,7 @@ impl ParsedEinsum {
                 .collect()
         };
 
+        let mut output_set: HashSet<char> = HashSet::new();
         for &c in &output_subscripts {
             if !index_sizes.contains_key(&c) {
                 return Err(HoduError::InvalidArgument(format!(
@@ -92,9 +93,14 @@ impl ParsedEinsum {
                     c
                 )));
             }
+            if !output_set.insert(c) {
+                return Err(HoduError::InvalidArgument(format!(
+                    "einsum output index '{}' appears more than once",
+                    c
+                )));
+            }
         }
 
-        let output_set: HashSet<char> = output_subscripts.iter().cloned().collect();
         let contraction_indices: Vec<char> = all_indices
             .iter()
             .filter(|c| !output_set.contains(c))
-- 
2.43.0


From 6cb38267f897af87f68d4078b633462291aed911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 11/55] fix: lay element-wise and indexed results out row-major
 as their kernels write them

---
 crates/hodu_core/src/tensor/ops/binary.rs     | 10 +++----
 crates/hodu_core/src/tensor/ops/bitwise.rs    | 13 ++++-----
 .../hodu_core/src/tensor/ops/cast_memory.rs   |  2 +-
 crates/hodu_core/src/tensor/ops/cmp.rs        | 11 ++++----
 crates/hodu_core/src/tensor/ops/indexing.rs   | 27 ++++++++++---------
 crates/hodu_core/src/tensor/ops/unary.rs      | 21 ++++++++-------
 6 files changed, 46 insertions(+), 38 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/binary.rs b/crates/hodu_core/src/tensor/ops/binary.rs
index 5265fb7..252131d 100644
--- a/crates/hodu_core/src/tensor/ops/binary.rs
+++ b/crates/hodu_core/src/tensor/ops/binary.rs
@@ -2,7 +2,7 @@ use crate::{
     error::HoduResult,
     ops::{BinaryLogicalOp, BinaryLogicalParams, BinaryOp, BinaryParams, Op, OpParams},
     tensor::{create_builder_tensor, from_storage_with_context, gradient, utils::broadcast_tensors2, Tensor},
-    types::DType,
+    types::{DType, Layout},
     utils::valid::{
         validate_dtype_for_device, validate_dtype_for_op, validate_requires_grad_for_op, validate_same_device,
         validate_same_dtype,
@@ -24,7 +24,7 @@ macro_rules! binary_op {
                 let lhs_layout = lhs.layout();
                 let rhs_layout = rhs.layout();
                 let requires_grad = (lhs.is_requires_grad() || rhs.is_requires_grad()) && validate_requires_grad;
-                let result_layout = lhs_layout.clone();
+                let result_layout = Layout::from_shape(&lhs.shape());
                 let (result_id, result_tensor) =
                     create_builder_tensor(result_layout.clone(), lhs.dtype(), requires_grad);
 
@@ -65,7 +65,7 @@ macro_rules! binary_op {
                 let requires_grad = lhs.is_requires_grad() || rhs.is_requires_grad();
                 let requires_grad = requires_grad && validate_requires_grad;
 
-                let result = from_storage_with_context(storage, lhs_layout, true, requires_grad);
+                let result = from_storage_with_context(storage, Layout::from_shape(&lhs.shape()), true, requires_grad);
 
                 if !gradient::is_computing_gradients() && requires_grad {
                     gradient::record_operation(
@@ -95,7 +95,7 @@ macro_rules! binary_logical_op {
             if crate::snapshot::capture::is_active() {
                 let lhs_layout = lhs.layout();
                 let rhs_layout = rhs.layout();
-                let result_layout = lhs_layout.clone();
+                let result_layout = Layout::from_shape(&lhs.shape());
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), DType::BOOL, false);
 
                 crate::snapshot::capture::capture_operation(
@@ -123,7 +123,7 @@ macro_rules! binary_logical_op {
                     })
                 })?;
 
-                let result = from_storage_with_context(storage, lhs_layout, true, false);
+                let result = from_storage_with_context(storage, Layout::from_shape(&lhs.shape()), true, false);
 
                 Ok(result)
             }
diff --git a/crates/hodu_core/src/tensor/ops/bitwise.rs b/crates/hodu_core/src/tensor/ops/bitwise.rs
index 0c99d08..205f11e 100644
--- a/crates/hodu_core/src/tensor/ops/bitwise.rs
+++ b/crates/hodu_core/src/tensor/ops/bitwise.rs
@@ -5,6 +5,7 @@ use crate::{
         BitwiseBinaryOp, BitwiseBinaryParams, BitwiseUnaryOp, BitwiseUnaryParams, BitwiseUnaryScalarOp, Op, OpParams,
     },
     tensor::{create_builder_tensor, from_storage_with_context, utils::broadcast_tensors2, Tensor},
+    types::Layout,
     utils::valid::{validate_dtype_for_device, validate_dtype_for_op, validate_same_device, validate_same_dtype},
 };
 
@@ -21,7 +22,7 @@ macro_rules! bitwise_binary_op {
             if crate::snapshot::capture::is_active() {
                 let lhs_layout = lhs.layout();
                 let rhs_layout = rhs.layout();
-                let result_layout = lhs_layout.clone();
+                let result_layout = Layout::from_shape(&lhs.shape());
                 // Bitwise ops don't support gradient, requires_grad is always false
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), lhs.dtype(), false);
 
@@ -51,7 +52,7 @@ macro_rules! bitwise_binary_op {
                 })?;
 
                 // Bitwise ops don't support gradient
-                let result = from_storage_with_context(storage, lhs_layout, true, false);
+                let result = from_storage_with_context(storage, Layout::from_shape(&lhs.shape()), true, false);
 
                 Ok(result)
             }
@@ -67,7 +68,7 @@ macro_rules! bitwise_unary_op {
 
             if crate::snapshot::capture::is_active() {
                 let input_layout = self.layout();
-                let result_layout = input_layout.clone();
+                let result_layout = Layout::from_shape(&self.shape());
                 // Bitwise ops don't support gradient, requires_grad is always false
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), self.dtype(), false);
 
@@ -89,7 +90,7 @@ macro_rules! bitwise_unary_op {
                 })?;
 
                 // Bitwise ops don't support gradient
-                let result = from_storage_with_context(storage, input_layout, true, false);
+                let result = from_storage_with_context(storage, Layout::from_shape(&self.shape()), true, false);
 
                 Ok(result)
             }
@@ -108,7 +109,7 @@ macro_rules! bitwise_scalar_shift_op {
 
             if crate::snapshot::capture::is_active() {
                 let input_layout = self.layout();
-                let result_layout = input_layout.clone();
+                let result_layout = Layout::from_shape(&self.shape());
                 // Bitwise ops don't support gradient, requires_grad is always false
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), self.dtype(), false);
 
@@ -134,7 +135,7 @@ macro_rules! bitwise_scalar_shift_op {
                 })?;
 
                 // Bitwise ops don't support gradient
-                let result = from_storage_with_context(storage, input_layout, true, false);
+                let result = from_storage_with_context(storage, Layout::from_shape(&self.shape()), true, false);
 
                 Ok(result)
             }
diff --git a/crates/hodu_core/src/tensor/ops/cast_memory.rs b/crates/hodu_core/src/tensor/ops/cast_memory.rs
index db71308..81719e9 100644
--- a/crates/hodu_core/src/tensor/ops/cast_memory.rs
+++ b/crates/hodu_core/src/tensor/ops/cast_memory.rs
@@ -43,8 +43,8 @@ impl Tensor {
         if crate::snapshot::capture::is_active() {
             Err(HoduError::CaptureNotActive)
         } else {
+            let storage = self.with_storage(|storage| storage.to_device(&self.layout(), device))?;
             let layout = Layout::from_shape(&self.shape());
-            let storage = self.with_storage(|storage| storage.to_device(&layout, device))?;
 
             let result = from_storage_with_context(storage, layout, true, false);
 
diff --git a/crates/hodu_core/src/tensor/ops/cmp.rs b/crates/hodu_core/src/tensor/ops/cmp.rs
index 9d1b42a..f69b27e 100644
--- a/crates/hodu_core/src/tensor/ops/cmp.rs
+++ b/crates/hodu_core/src/tensor/ops/cmp.rs
@@ -21,7 +21,7 @@ macro_rules! cmp_op {
             let rhs_layout = rhs.layout();
 
             if crate::snapshot::capture::is_active() {
-                let result_layout = lhs_layout.clone();
+                let result_layout = Layout::from_shape(&lhs.shape());
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), DType::BOOL, false);
 
                 crate::snapshot::capture::capture_operation(
@@ -41,7 +41,7 @@ macro_rules! cmp_op {
                     })
                 })?;
 
-                let result = from_storage_with_context(storage, lhs_layout, true, false);
+                let result = from_storage_with_context(storage, Layout::from_shape(&lhs.shape()), true, false);
 
                 Ok(result)
             }
@@ -59,15 +59,16 @@ macro_rules! cmp_scalar_op {
             let input_layout = self.layout();
 
             if crate::snapshot::capture::is_active() {
-                let (result_id, result_tensor) = create_builder_tensor(input_layout.clone(), DType::BOOL, false);
+                let result_layout = Layout::from_shape(&self.shape());
+                let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), DType::BOOL, false);
 
                 crate::snapshot::capture::capture_operation(
                     Op::CmpScalar(CmpScalarOp::$op_name),
                     Some(OpParams::CmpScalar(CmpScalarParams { scalar })),
                     vec![self.id()],
                     result_id,
-                    vec![input_layout.clone()],
-                    input_layout,
+                    vec![input_layout],
+                    result_layout,
                 )?;
 
                 Ok(result_tensor)
diff --git a/crates/hodu_core/src/tensor/ops/indexing.rs b/crates/hodu_core/src/tensor/ops/indexing.rs
index 3401240..a4e2401 100644
--- a/crates/hodu_core/src/tensor/ops/indexing.rs
+++ b/crates/hodu_core/src/tensor/ops/indexing.rs
@@ -113,7 +113,8 @@ impl Tensor {
         validate_indices_dtype(indices, Op::Indexing(IndexingOp::IndexPut))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::IndexPut));
 
-        let result_layout = self.layout();
+        let self_layout = self.layout();
+        let result_layout = Layout::from_shape(&self.shape());
         let indices_layout = indices.layout();
         let values_layout = values.layout();
 
@@ -128,7 +129,7 @@ impl Tensor {
                 Some(op_params.clone()),
                 vec![self.id(), values.id(), indices.id()],
                 result_id,
-                vec![result_layout.clone(), values_layout, indices_layout],
+                vec![self_layout, values_layout, indices_layout],
                 result_layout.clone(),
             )?;
 
@@ -147,7 +148,7 @@ impl Tensor {
                 indices.with_storage(|indices_storage| {
                     values.with_storage(|values_storage| {
                         storage.call_ops_index_put(
-                            &result_layout,
+                            &self_layout,
                             indices_storage,
                             &indices_layout,
                             values_storage,
@@ -194,7 +195,8 @@ impl Tensor {
 
         // Output has same shape as indices
         let self_layout = self.layout();
-        let result_layout = indices.layout();
+        let indices_layout = indices.layout();
+        let result_layout = Layout::from_shape(&indices.shape());
 
         if crate::snapshot::capture::is_active() {
             let requires_grad = self.is_requires_grad() && validate_requires_grad;
@@ -207,7 +209,7 @@ impl Tensor {
                 Some(op_params.clone()),
                 vec![self.id(), indices.id()],
                 result_id,
-                vec![self_layout.clone(), result_layout.clone()],
+                vec![self_layout.clone(), indices_layout],
                 result_layout,
             )?;
 
@@ -227,7 +229,7 @@ impl Tensor {
                     storage.call_ops_gather(
                         &self_layout,
                         indices_storage,
-                        &result_layout,
+                        &indices_layout,
                         dim_usize,
                         Op::Indexing(IndexingOp::Gather),
                     )
@@ -269,7 +271,8 @@ impl Tensor {
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::Scatter));
 
         // Output has same shape as self
-        let result_layout = self.layout();
+        let self_layout = self.layout();
+        let result_layout = Layout::from_shape(&self.shape());
         let indices_layout = indices.layout();
         let src_layout = src.layout();
 
@@ -284,7 +287,7 @@ impl Tensor {
                 Some(op_params.clone()),
                 vec![self.id(), src.id(), indices.id()],
                 result_id,
-                vec![result_layout.clone(), src_layout.clone(), indices_layout.clone()],
+                vec![self_layout, src_layout.clone(), indices_layout.clone()],
                 result_layout,
             )?;
 
@@ -303,7 +306,7 @@ impl Tensor {
                 indices.with_storage(|indices_storage| {
                     src.with_storage(|src_storage| {
                         storage.call_ops_scatter(
-                            &result_layout,
+                            &self_layout,
                             indices_storage,
                             &indices_layout,
                             src_storage,
@@ -349,7 +352,7 @@ impl Tensor {
         validate_indices_dtype(indices, Op::Indexing(IndexingOp::ScatterAdd))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::ScatterAdd));
 
-        let result_layout = self.layout();
+        let result_layout = Layout::from_shape(&self.shape());
 
         if crate::snapshot::capture::is_active() {
             let requires_grad = (self.is_requires_grad() || src.is_requires_grad()) && validate_requires_grad;
@@ -427,7 +430,7 @@ impl Tensor {
         validate_indices_dtype(indices, Op::Indexing(IndexingOp::ScatterMax))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::ScatterMax));
 
-        let result_layout = self.layout();
+        let result_layout = Layout::from_shape(&self.shape());
 
         if crate::snapshot::capture::is_active() {
             let requires_grad = (self.is_requires_grad() || src.is_requires_grad()) && validate_requires_grad;
@@ -505,7 +508,7 @@ impl Tensor {
         validate_indices_dtype(indices, Op::Indexing(IndexingOp::ScatterMin))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::ScatterMin));
 
-        let result_layout = self.layout();
+        let result_layout = Layout::from_shape(&self.shape());
 
         if crate::snapshot::capture::is_active() {
             let requires_grad = (self.is_requires_grad() || src.is_requires_grad()) && validate_requires_grad;
diff --git a/crates/hodu_core/src/tensor/ops/unary.rs b/crates/hodu_core/src/tensor/ops/unary.rs
index 841ac52..27070f9 100644
--- a/crates/hodu_core/src/tensor/ops/unary.rs
+++ b/crates/hodu_core/src/tensor/ops/unary.rs
@@ -18,16 +18,17 @@ macro_rules! unary_op {
 
             if crate::snapshot::capture::is_active() {
                 let requires_grad = self.is_requires_grad() && validate_requires_grad;
+                let result_layout = Layout::from_shape(&self.shape());
                 let (result_id, result_tensor) =
-                    create_builder_tensor(input_layout.clone(), self.dtype(), requires_grad);
+                    create_builder_tensor(result_layout.clone(), self.dtype(), requires_grad);
 
                 crate::snapshot::capture::capture_operation(
                     Op::Unary(UnaryOp::$op_name),
                     Some(OpParams::Unary(UnaryParams)),
                     vec![self.id()],
                     result_id,
-                    vec![input_layout.clone()],
-                    input_layout,
+                    vec![input_layout],
+                    result_layout,
                 )?;
 
                 if requires_grad {
@@ -73,15 +74,16 @@ macro_rules! unary_logical_op {
             let input_layout = self.layout();
 
             if crate::snapshot::capture::is_active() {
-                let (result_id, result_tensor) = create_builder_tensor(input_layout.clone(), DType::BOOL, false);
+                let result_layout = Layout::from_shape(&self.shape());
+                let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), DType::BOOL, false);
 
                 crate::snapshot::capture::capture_operation(
                     Op::UnaryLogical(UnaryLogicalOp::$op_name),
                     Some(OpParams::UnaryLogical(UnaryLogicalParams)),
                     vec![self.id()],
                     result_id,
-                    vec![input_layout.clone()],
-                    input_layout,
+                    vec![input_layout],
+                    result_layout,
                 )?;
 
                 Ok(result_tensor)
@@ -112,16 +114,17 @@ macro_rules! unary_scalar_op {
 
             if crate::snapshot::capture::is_active() {
                 let requires_grad = self.is_requires_grad() && validate_requires_grad;
+                let result_layout = Layout::from_shape(&self.shape());
                 let (result_id, result_tensor) =
-                    create_builder_tensor(input_layout.clone(), self.dtype(), requires_grad);
+                    create_builder_tensor(result_layout.clone(), self.dtype(), requires_grad);
 
                 crate::snapshot::capture::capture_operation(
                     Op::UnaryScalar(UnaryScalarOp::$op_name),
                     Some(OpParams::UnaryScalar(UnaryScalarParams { scalar: scalar_value })),
                     vec![self.id()],
                     result_id,
-                    vec![input_layout.clone()],
-                    input_layout,
+                    vec![input_layout],
+                    result_layout,
                 )?;
 
                 if requires_grad {
-- 
2.43.0


From 6c24dcafd492e0ffcbe0590db905e6b416a82ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:12 +0000
Subject: [PATCH 12/55] fix: hand row-major operands to CPU kernels whose
 metadata has no strides

---
 crates/hodu_core/src/be_cpu/storage.rs        | 63 ++++++++++++++-----
 .../src/be_cpu/storage/ops_concat_split.rs    |  4 +-
 .../src/be_cpu/storage/ops_indexing.rs        |  2 +-
 crates/hodu_core/src/tensor/ops/sort.rs       |  2 +-
 4 files changed, 50 insertions(+), 21 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage.rs b/crates/hodu_core/src/be_cpu/storage.rs
index 77fceee..547d733 100644
--- a/crates/hodu_core/src/be_cpu/storage.rs
+++ b/crates/hodu_core/src/be_cpu/storage.rs
@@ -31,6 +31,7 @@ use float8::F8E4M3;
 #[cfg(feature = "f8e5m2")]
 use float8::F8E5M2;
 use half::{bf16, f16};
+use std::borrow::Cow;
 
 #[derive(Debug, Clone)]
 pub enum CpuStorage {
@@ -84,6 +85,16 @@ pub enum CpuStorage {
 
 impl CpuStorage {
     /// Get raw pointer to the underlying data
+    /// The elements `layout` addresses, in row-major order from the start of a buffer, and the
+    /// layout that says so. Kernels whose metadata carries no strides or offset read them this way.
+    fn row_major(&self, layout: &Layout) -> HoduResult<(Cow<'_, Self>, Layout)> {
+        if layout.is_contiguous() && layout.offset() == 0 {
+            Ok((Cow::Borrowed(self), layout.clone()))
+        } else {
+            Ok((Cow::Owned(self.contiguous(layout)?), Layout::from_shape(layout.shape())))
+        }
+    }
+
     pub fn as_ptr(&self) -> *const u8 {
         match self {
             Self::BOOL(v) => v.as_ptr() as *const u8,
@@ -480,7 +491,14 @@ impl BackendStorageT for CpuStorage {
     }
 
     fn call_ops_concat(&self, others: &[&Self], layouts: &[&Layout], dim: usize, op: Op) -> HoduResult<Self> {
-        ops_concat_split::call_ops_concat(self, others, layouts, dim, op)
+        let inputs = core::iter::once(self)
+            .chain(others.iter().copied())
+            .zip(layouts)
+            .map(|(storage, layout)| storage.row_major(layout))
+            .collect::<HoduResult<Vec<_>>>()?;
+        let storages: Vec<&Self> = inputs.iter().map(|(storage, _)| storage.as_ref()).collect();
+        let layouts: Vec<&Layout> = inputs.iter().map(|(_, layout)| layout).collect();
+        ops_concat_split::call_ops_concat(storages[0], &storages[1..], &layouts, dim, op)
     }
 
     fn call_ops_split(&self, layout: &Layout, dim: usize, start: usize, size: usize, op: Op) -> HoduResult<Self> {
@@ -495,7 +513,8 @@ impl BackendStorageT for CpuStorage {
         dim: usize,
         op: Op,
     ) -> HoduResult<Self> {
-        ops_indexing::call_ops_index_select(self, layout, indices_storage, indices_layout, dim, op)
+        let (indices, indices_layout) = indices_storage.row_major(indices_layout)?;
+        ops_indexing::call_ops_index_select(self, layout, &indices, &indices_layout, dim, op)
     }
 
     fn call_ops_index_put(
@@ -508,11 +527,12 @@ impl BackendStorageT for CpuStorage {
         dim: usize,
         op: Op,
     ) -> HoduResult<Self> {
+        let (indices, indices_layout) = indices_storage.row_major(indices_layout)?;
         ops_indexing::call_ops_index_put(
             self,
             layout,
-            indices_storage,
-            indices_layout,
+            &indices,
+            &indices_layout,
             values_storage,
             values_layout,
             dim,
@@ -561,7 +581,8 @@ impl BackendStorageT for CpuStorage {
         output_dtype: crate::types::DType,
         op: Op,
     ) -> HoduResult<Self> {
-        ops_indexing::call_ops_onehot(self, layout, num_classes, axis, output_dtype, op)
+        let (storage, layout) = self.row_major(layout)?;
+        ops_indexing::call_ops_onehot(&storage, &layout, num_classes, axis, output_dtype, op)
     }
 
     fn call_ops_conv(
@@ -574,11 +595,13 @@ impl BackendStorageT for CpuStorage {
         dilation: &[usize],
         op: Op,
     ) -> HoduResult<Self> {
+        let (storage, layout) = self.row_major(layout)?;
+        let (weight, weight_layout) = weight_storage.row_major(weight_layout)?;
         ops_conv::call_ops_conv(
-            self,
-            layout,
-            weight_storage,
-            weight_layout,
+            &storage,
+            &layout,
+            &weight,
+            &weight_layout,
             stride,
             padding,
             dilation,
@@ -597,11 +620,13 @@ impl BackendStorageT for CpuStorage {
         dilation: &[usize],
         op: Op,
     ) -> HoduResult<Self> {
+        let (storage, layout) = self.row_major(layout)?;
+        let (grad_output, grad_output_layout) = grad_output_storage.row_major(grad_output_layout)?;
         ops_conv::call_ops_conv_grad_weight(
-            self,
-            layout,
-            grad_output_storage,
-            grad_output_layout,
+            &storage,
+            &layout,
+            &grad_output,
+            &grad_output_layout,
             weight_shape,
             stride,
             padding,
@@ -629,7 +654,8 @@ impl BackendStorageT for CpuStorage {
         pad_value: Scalar,
         op: Op,
     ) -> HoduResult<Self> {
-        ops_padding::call_ops_pad(self, layout, pad_before, pad_after, pad_value, op)
+        let (storage, layout) = self.row_major(layout)?;
+        ops_padding::call_ops_pad(&storage, &layout, pad_before, pad_after, pad_value, op)
     }
 
     fn call_ops_resize(
@@ -657,7 +683,8 @@ impl BackendStorageT for CpuStorage {
     }
 
     fn call_ops_flip(&self, layout: &Layout, dims: &[usize]) -> HoduResult<Self> {
-        ops_shape_memory::call_ops_flip(self, layout, dims)
+        let (storage, layout) = self.row_major(layout)?;
+        ops_shape_memory::call_ops_flip(&storage, &layout, dims)
     }
 
     fn call_topk(
@@ -669,7 +696,8 @@ impl BackendStorageT for CpuStorage {
         largest: bool,
         sorted: bool,
     ) -> HoduResult<(Self, Self)> {
-        ops_sort::call_topk(self, layout, k, last_dim_size, outer_size, largest, sorted)
+        let (storage, layout) = self.row_major(layout)?;
+        ops_sort::call_topk(&storage, &layout, k, last_dim_size, outer_size, largest, sorted)
     }
 
     fn call_nonzero(&self, layout: &Layout) -> HoduResult<(Self, usize)> {
@@ -687,7 +715,8 @@ impl BackendStorageT for CpuStorage {
         condition_layout: &Layout,
         axis: Option<usize>,
     ) -> HoduResult<(Self, usize)> {
-        ops_indexing::call_compress(self, layout, condition, condition_layout, axis)
+        let (condition, condition_layout) = condition.row_major(condition_layout)?;
+        ops_indexing::call_compress(self, layout, &condition, &condition_layout, axis)
     }
 
     fn to_dtype(&self, layout: &Layout, target_dtype: DType) -> HoduResult<Self> {
diff --git a/crates/hodu_core/src/be_cpu/storage/ops_concat_split.rs b/crates/hodu_core/src/be_cpu/storage/ops_concat_split.rs
index 029394d..7060740 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_concat_split.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_concat_split.rs
@@ -110,9 +110,9 @@ pub fn call_ops_concat(
         ($variant:ident, $inner_type:ty) => {{
             // Extract all data vectors
             let mut input_vecs = Vec::with_capacity(num_inputs);
-            for storage in &storages {
+            for (storage, layout) in storages.iter().zip(layouts) {
                 match storage {
-                    CpuStorage::$variant(data) => input_vecs.push(data.as_slice()),
+                    CpuStorage::$variant(data) => input_vecs.push(&data[..layout.size()]),
                     _ => {
                         return Err(HoduError::DTypeMismatch {
                             expected: dtype,
diff --git a/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs b/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
index 5fc111c..14f0b46 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
@@ -821,7 +821,7 @@ pub fn call_compress(
 
     // Extract condition as contiguous bool slice
     let condition = match condition_storage {
-        CpuStorage::BOOL(data) => data.as_slice(),
+        CpuStorage::BOOL(data) => &data[..condition_layout.size()],
         _ => unreachable!(),
     };
 
diff --git a/crates/hodu_core/src/tensor/ops/sort.rs b/crates/hodu_core/src/tensor/ops/sort.rs
index 9860e95..12196e1 100644
--- a/crates/hodu_core/src/tensor/ops/sort.rs
+++ b/crates/hodu_core/src/tensor/ops/sort.rs
@@ -143,7 +143,7 @@ impl Tensor {
             let mut kernel_output_shape = input_shape.dims().to_vec();
             kernel_output_shape[ndim - 1] = k;
 
-            let (values_storage, indices_storage) = self
+            let (values_storage, indices_storage) = input
                 .with_storage(|storage| storage.call_topk(&input.layout(), k, last_dim, outer_size, largest, sorted))?;
 
             let values = from_storage_with_context(
-- 
2.43.0


From fab6225b896731d71dc59d452686e008ac14a05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:30 +0000
Subject: [PATCH 13/55] fix: batch axes and leading dimensions in BLAS matrix
 products

---
 .../ops_matrix_blas_aarch64_apple_darwin.c    | 213 +++++++-----------
 .../kernels/ops_matrix_openblas.c             | 213 +++++++-----------
 2 files changed, 170 insertions(+), 256 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_matrix_blas_aarch64_apple_darwin.c b/crates/hodu_cpu_kernels/kernels/ops_matrix_blas_aarch64_apple_darwin.c
index ebec0b5..e3a89f3 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_matrix_blas_aarch64_apple_darwin.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_matrix_blas_aarch64_apple_darwin.c
@@ -15,6 +15,32 @@ extern void hodu_cpu_dot_f32_fallback(const void *lhs_ptr, const void *rhs_ptr,
 extern void hodu_cpu_dot_f64_fallback(const void *lhs_ptr, const void *rhs_ptr, void *output_ptr,
                                       const size_t *metadata);
 
+/// Leading dimension BLAS needs to read a rows x cols matrix with these strides, setting *trans when
+/// it is stored column by column; 0 when its strides are not expressible (broadcast or gapped).
+static size_t blas_leading_dim(size_t rows, size_t cols, size_t row_stride, size_t col_stride,
+                               bool *trans) {
+    const size_t min_ld_rows = cols > 0 ? cols : 1;
+    const size_t min_ld_cols = rows > 0 ? rows : 1;
+
+    *trans = false;
+    if (cols <= 1 || col_stride == 1) {
+        if (rows <= 1)
+            return min_ld_rows;
+        if (row_stride >= min_ld_rows)
+            return row_stride;
+    }
+
+    *trans = true;
+    if (rows <= 1 || row_stride == 1) {
+        if (cols <= 1)
+            return min_ld_cols;
+        if (col_stride >= min_ld_cols)
+            return col_stride;
+    }
+
+    return 0;
+}
+
 /// F32 matmul using Accelerate cblas_sgemm
 void hodu_cpu_matmul_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_ptr,
                          const size_t *metadata) {
@@ -41,41 +67,18 @@ void hodu_cpu_matmul_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_
     lhs += lhs_offset;
     rhs += rhs_offset;
 
-    // Determine matrix layouts and transpose flags
-    // Row-major: innermost (last) stride is 1
-    // Col-major: outermost (second-to-last) stride is 1
-    bool lhs_row_major = (lhs_strides[lhs_ndim - 1] == 1);
-    bool lhs_col_major = (lhs_strides[lhs_ndim - 2] == 1);
-    bool rhs_row_major = (rhs_strides[rhs_ndim - 1] == 1);
-    bool rhs_col_major = (rhs_strides[rhs_ndim - 2] == 1);
+    // Determine matrix layouts, transpose flags and leading dimensions
+    bool lhs_trans, rhs_trans;
+    size_t lda = blas_leading_dim(M, K, lhs_strides[lhs_ndim - 2], lhs_strides[lhs_ndim - 1],
+                                  &lhs_trans);
+    size_t ldb = blas_leading_dim(K, N, rhs_strides[rhs_ndim - 2], rhs_strides[rhs_ndim - 1],
+                                  &rhs_trans);
 
     // Can use BLAS if either row-major or col-major (transposed)
-    if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
-        enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
-        enum CBLAS_TRANSPOSE trans_rhs = rhs_row_major ? CblasNoTrans : CblasTrans;
-
-        // Leading dimensions
-        size_t lda = lhs_row_major ? lhs_strides[lhs_ndim - 2] : lhs_strides[lhs_ndim - 1];
-        size_t ldb = rhs_row_major ? rhs_strides[rhs_ndim - 2] : rhs_strides[rhs_ndim - 1];
-        size_t ldc = N;
-
-        // Fix leading dimensions when they're too small
-        // For row-major: lda >= K, ldb >= N
-        // For col-major: lda >= M, ldb >= K
-        if (trans_lhs == CblasNoTrans) {
-            if (lda < K)
-                lda = K;
-        } else {
-            if (lda < M)
-                lda = M;
-        }
-        if (trans_rhs == CblasNoTrans) {
-            if (ldb < N)
-                ldb = N;
-        } else {
-            if (ldb < K)
-                ldb = K;
-        }
+    if (lda != 0 && ldb != 0) {
+        enum CBLAS_TRANSPOSE trans_lhs = lhs_trans ? CblasTrans : CblasNoTrans;
+        enum CBLAS_TRANSPOSE trans_rhs = rhs_trans ? CblasTrans : CblasNoTrans;
+        size_t ldc = N > 0 ? N : 1;
 
         if (batch_ndim == 0) {
             // No batching - single BLAS call
@@ -100,12 +103,17 @@ void hodu_cpu_matmul_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_
                     size_t dim_idx = idx % batch_shape[i - 1];
                     idx /= batch_shape[i - 1];
 
-                    // Apply broadcasting: if shape is 1, use index 0
-                    size_t lhs_dim_idx = (lhs_shape[lhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-                    size_t rhs_dim_idx = (rhs_shape[rhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-
-                    lhs_batch_offset += lhs_dim_idx * lhs_strides[lhs_ndim - 2 - i];
-                    rhs_batch_offset += rhs_dim_idx * rhs_strides[rhs_ndim - 2 - i];
+                    // Batch axes align on the right; an operand lacking this one, or with
+                    // extent 1 on it, is broadcast along it
+                    size_t from_right = batch_ndim - (i - 1);
+                    if (lhs_ndim - 2 >= from_right) {
+                        size_t d = lhs_ndim - 2 - from_right;
+                        lhs_batch_offset += (lhs_shape[d] == 1 ? 0 : dim_idx) * lhs_strides[d];
+                    }
+                    if (rhs_ndim - 2 >= from_right) {
+                        size_t d = rhs_ndim - 2 - from_right;
+                        rhs_batch_offset += (rhs_shape[d] == 1 ? 0 : dim_idx) * rhs_strides[d];
+                    }
                 }
 
                 const f32_t *lhs_batch = lhs + lhs_batch_offset;
@@ -148,35 +156,18 @@ void hodu_cpu_matmul_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_
     lhs += lhs_offset;
     rhs += rhs_offset;
 
-    // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_strides[lhs_ndim - 1] == 1);
-    bool lhs_col_major = (lhs_strides[lhs_ndim - 2] == 1);
-    bool rhs_row_major = (rhs_strides[rhs_ndim - 1] == 1);
-    bool rhs_col_major = (rhs_strides[rhs_ndim - 2] == 1);
-
-    if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
-        enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
-        enum CBLAS_TRANSPOSE trans_rhs = rhs_row_major ? CblasNoTrans : CblasTrans;
+    // Determine matrix layouts, transpose flags and leading dimensions
+    bool lhs_trans, rhs_trans;
+    size_t lda = blas_leading_dim(M, K, lhs_strides[lhs_ndim - 2], lhs_strides[lhs_ndim - 1],
+                                  &lhs_trans);
+    size_t ldb = blas_leading_dim(K, N, rhs_strides[rhs_ndim - 2], rhs_strides[rhs_ndim - 1],
+                                  &rhs_trans);
 
-        size_t lda = lhs_row_major ? lhs_strides[lhs_ndim - 2] : lhs_strides[lhs_ndim - 1];
-        size_t ldb = rhs_row_major ? rhs_strides[rhs_ndim - 2] : rhs_strides[rhs_ndim - 1];
-        size_t ldc = N;
-
-        // Fix leading dimensions when they're too small
-        if (trans_lhs == CblasNoTrans) {
-            if (lda < K)
-                lda = K;
-        } else {
-            if (lda < M)
-                lda = M;
-        }
-        if (trans_rhs == CblasNoTrans) {
-            if (ldb < N)
-                ldb = N;
-        } else {
-            if (ldb < K)
-                ldb = K;
-        }
+    // Can use BLAS if either row-major or col-major (transposed)
+    if (lda != 0 && ldb != 0) {
+        enum CBLAS_TRANSPOSE trans_lhs = lhs_trans ? CblasTrans : CblasNoTrans;
+        enum CBLAS_TRANSPOSE trans_rhs = rhs_trans ? CblasTrans : CblasNoTrans;
+        size_t ldc = N > 0 ? N : 1;
 
         if (batch_ndim == 0) {
             // No batching - single BLAS call
@@ -201,12 +192,17 @@ void hodu_cpu_matmul_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_
                     size_t dim_idx = idx % batch_shape[i - 1];
                     idx /= batch_shape[i - 1];
 
-                    // Apply broadcasting: if shape is 1, use index 0
-                    size_t lhs_dim_idx = (lhs_shape[lhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-                    size_t rhs_dim_idx = (rhs_shape[rhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-
-                    lhs_batch_offset += lhs_dim_idx * lhs_strides[lhs_ndim - 2 - i];
-                    rhs_batch_offset += rhs_dim_idx * rhs_strides[rhs_ndim - 2 - i];
+                    // Batch axes align on the right; an operand lacking this one, or with
+                    // extent 1 on it, is broadcast along it
+                    size_t from_right = batch_ndim - (i - 1);
+                    if (lhs_ndim - 2 >= from_right) {
+                        size_t d = lhs_ndim - 2 - from_right;
+                        lhs_batch_offset += (lhs_shape[d] == 1 ? 0 : dim_idx) * lhs_strides[d];
+                    }
+                    if (rhs_ndim - 2 >= from_right) {
+                        size_t d = rhs_ndim - 2 - from_right;
+                        rhs_batch_offset += (rhs_shape[d] == 1 ? 0 : dim_idx) * rhs_strides[d];
+                    }
                 }
 
                 const f64_t *lhs_batch = lhs + lhs_batch_offset;
@@ -244,36 +240,17 @@ void hodu_cpu_dot_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_ptr
     lhs += lhs_offset;
     rhs += rhs_offset;
 
-    // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_stride_k == 1);
-    bool lhs_col_major = (lhs_stride_m == 1);
-    bool rhs_row_major = (rhs_stride_n == 1);
-    bool rhs_col_major = (rhs_stride_k == 1);
-
-    if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
-        enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
-        enum CBLAS_TRANSPOSE trans_rhs = rhs_row_major ? CblasNoTrans : CblasTrans;
+    // Determine matrix layouts, transpose flags and leading dimensions
+    bool lhs_trans, rhs_trans;
+    size_t lda = blas_leading_dim(M, K, lhs_stride_m, lhs_stride_k, &lhs_trans);
+    size_t ldb = blas_leading_dim(K, N, rhs_stride_k, rhs_stride_n, &rhs_trans);
 
-        size_t lda = lhs_row_major ? lhs_stride_m : lhs_stride_k;
-        size_t ldb = rhs_row_major ? rhs_stride_k : rhs_stride_n;
-
-        if (trans_lhs == CblasNoTrans) {
-            if (lda < K)
-                lda = K;
-        } else {
-            if (lda < M)
-                lda = M;
-        }
-        if (trans_rhs == CblasNoTrans) {
-            if (ldb < N)
-                ldb = N;
-        } else {
-            if (ldb < K)
-                ldb = K;
-        }
+    if (lda != 0 && ldb != 0) {
+        enum CBLAS_TRANSPOSE trans_lhs = lhs_trans ? CblasTrans : CblasNoTrans;
+        enum CBLAS_TRANSPOSE trans_rhs = rhs_trans ? CblasTrans : CblasNoTrans;
 
         cblas_sgemm(CblasRowMajor, trans_lhs, trans_rhs, M, N, K, 1.0f, lhs, lda, rhs, ldb, 0.0f,
-                    output, N);
+                    output, N > 0 ? N : 1);
     } else {
         // Fallback for complex stride patterns
         hodu_cpu_dot_f32_fallback(lhs_ptr, rhs_ptr, output_ptr, metadata);
@@ -301,37 +278,17 @@ void hodu_cpu_dot_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_ptr
     lhs += lhs_offset;
     rhs += rhs_offset;
 
-    // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_stride_k == 1);
-    bool lhs_col_major = (lhs_stride_m == 1);
-    bool rhs_row_major = (rhs_stride_n == 1);
-    bool rhs_col_major = (rhs_stride_k == 1);
-
-    if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
-        enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
-        enum CBLAS_TRANSPOSE trans_rhs = rhs_row_major ? CblasNoTrans : CblasTrans;
+    // Determine matrix layouts, transpose flags and leading dimensions
+    bool lhs_trans, rhs_trans;
+    size_t lda = blas_leading_dim(M, K, lhs_stride_m, lhs_stride_k, &lhs_trans);
+    size_t ldb = blas_leading_dim(K, N, rhs_stride_k, rhs_stride_n, &rhs_trans);
 
-        size_t lda = lhs_row_major ? lhs_stride_m : lhs_stride_k;
-        size_t ldb = rhs_row_major ? rhs_stride_k : rhs_stride_n;
-
-        // Fix leading dimensions when they're too small
-        if (trans_lhs == CblasNoTrans) {
-            if (lda < K)
-                lda = K;
-        } else {
-            if (lda < M)
-                lda = M;
-        }
-        if (trans_rhs == CblasNoTrans) {
-            if (ldb < N)
-                ldb = N;
-        } else {
-            if (ldb < K)
-                ldb = K;
-        }
+    if (lda != 0 && ldb != 0) {
+        enum CBLAS_TRANSPOSE trans_lhs = lhs_trans ? CblasTrans : CblasNoTrans;
+        enum CBLAS_TRANSPOSE trans_rhs = rhs_trans ? CblasTrans : CblasNoTrans;
 
         cblas_dgemm(CblasRowMajor, trans_lhs, trans_rhs, M, N, K, 1.0, lhs, lda, rhs, ldb, 0.0,
-                    output, N);
+                    output, N > 0 ? N : 1);
     } else {
         // Fallback for complex stride patterns
         hodu_cpu_dot_f64_fallback(lhs_ptr, rhs_ptr, output_ptr, metadata);
diff --git a/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c b/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c
index 50bd87e..82fa50f 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c
@@ -15,6 +15,32 @@ extern void hodu_cpu_dot_f32_fallback(const void *lhs_ptr, const void *rhs_ptr,
 extern void hodu_cpu_dot_f64_fallback(const void *lhs_ptr, const void *rhs_ptr, void *output_ptr,
                                       const size_t *metadata);
 
+/// Leading dimension BLAS needs to read a rows x cols matrix with these strides, setting *trans when
+/// it is stored column by column; 0 when its strides are not expressible (broadcast or gapped).
+static size_t blas_leading_dim(size_t rows, size_t cols, size_t row_stride, size_t col_stride,
+                               bool *trans) {
+    const size_t min_ld_rows = cols > 0 ? cols : 1;
+    const size_t min_ld_cols = rows > 0 ? rows : 1;
+
+    *trans = false;
+    if (cols <= 1 || col_stride == 1) {
+        if (rows <= 1)
+            return min_ld_rows;
+        if (row_stride >= min_ld_rows)
+            return row_stride;
+    }
+
+    *trans = true;
+    if (rows <= 1 || row_stride == 1) {
+        if (cols <= 1)
+            return min_ld_cols;
+        if (col_stride >= min_ld_cols)
+            return col_stride;
+    }
+
+    return 0;
+}
+
 /// F32 matmul using OpenBLAS cblas_sgemm with thread control
 void hodu_cpu_matmul_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_ptr,
                          const size_t *metadata) {
@@ -41,41 +67,18 @@ void hodu_cpu_matmul_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_
     lhs += lhs_offset;
     rhs += rhs_offset;
 
-    // Determine matrix layouts and transpose flags
-    // Row-major: innermost (last) stride is 1
-    // Col-major: outermost (second-to-last) stride is 1
-    bool lhs_row_major = (lhs_strides[lhs_ndim - 1] == 1);
-    bool lhs_col_major = (lhs_strides[lhs_ndim - 2] == 1);
-    bool rhs_row_major = (rhs_strides[rhs_ndim - 1] == 1);
-    bool rhs_col_major = (rhs_strides[rhs_ndim - 2] == 1);
+    // Determine matrix layouts, transpose flags and leading dimensions
+    bool lhs_trans, rhs_trans;
+    size_t lda = blas_leading_dim(M, K, lhs_strides[lhs_ndim - 2], lhs_strides[lhs_ndim - 1],
+                                  &lhs_trans);
+    size_t ldb = blas_leading_dim(K, N, rhs_strides[rhs_ndim - 2], rhs_strides[rhs_ndim - 1],
+                                  &rhs_trans);
 
     // Can use BLAS if either row-major or col-major (transposed)
-    if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
-        enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
-        enum CBLAS_TRANSPOSE trans_rhs = rhs_row_major ? CblasNoTrans : CblasTrans;
-
-        // Leading dimensions
-        size_t lda = lhs_row_major ? lhs_strides[lhs_ndim - 2] : lhs_strides[lhs_ndim - 1];
-        size_t ldb = rhs_row_major ? rhs_strides[rhs_ndim - 2] : rhs_strides[rhs_ndim - 1];
-        size_t ldc = N;
-
-        // Fix leading dimensions when they're too small
-        // For row-major: lda >= K, ldb >= N
-        // For col-major: lda >= M, ldb >= K
-        if (trans_lhs == CblasNoTrans) {
-            if (lda < K)
-                lda = K;
-        } else {
-            if (lda < M)
-                lda = M;
-        }
-        if (trans_rhs == CblasNoTrans) {
-            if (ldb < N)
-                ldb = N;
-        } else {
-            if (ldb < K)
-                ldb = K;
-        }
+    if (lda != 0 && ldb != 0) {
+        enum CBLAS_TRANSPOSE trans_lhs = lhs_trans ? CblasTrans : CblasNoTrans;
+        enum CBLAS_TRANSPOSE trans_rhs = rhs_trans ? CblasTrans : CblasNoTrans;
+        size_t ldc = N > 0 ? N : 1;
 
         if (batch_ndim == 0) {
             // No batching - single BLAS call
@@ -126,12 +129,17 @@ void hodu_cpu_matmul_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_
                     size_t dim_idx = idx % batch_shape[i - 1];
                     idx /= batch_shape[i - 1];
 
-                    // Apply broadcasting: if shape is 1, use index 0
-                    size_t lhs_dim_idx = (lhs_shape[lhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-                    size_t rhs_dim_idx = (rhs_shape[rhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-
-                    lhs_batch_offset += lhs_dim_idx * lhs_strides[lhs_ndim - 2 - i];
-                    rhs_batch_offset += rhs_dim_idx * rhs_strides[rhs_ndim - 2 - i];
+                    // Batch axes align on the right; an operand lacking this one, or with
+                    // extent 1 on it, is broadcast along it
+                    size_t from_right = batch_ndim - (i - 1);
+                    if (lhs_ndim - 2 >= from_right) {
+                        size_t d = lhs_ndim - 2 - from_right;
+                        lhs_batch_offset += (lhs_shape[d] == 1 ? 0 : dim_idx) * lhs_strides[d];
+                    }
+                    if (rhs_ndim - 2 >= from_right) {
+                        size_t d = rhs_ndim - 2 - from_right;
+                        rhs_batch_offset += (rhs_shape[d] == 1 ? 0 : dim_idx) * rhs_strides[d];
+                    }
                 }
 
                 const f32_t *lhs_batch = lhs + lhs_batch_offset;
@@ -178,35 +186,18 @@ void hodu_cpu_matmul_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_
     lhs += lhs_offset;
     rhs += rhs_offset;
 
-    // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_strides[lhs_ndim - 1] == 1);
-    bool lhs_col_major = (lhs_strides[lhs_ndim - 2] == 1);
-    bool rhs_row_major = (rhs_strides[rhs_ndim - 1] == 1);
-    bool rhs_col_major = (rhs_strides[rhs_ndim - 2] == 1);
-
-    if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
-        enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
-        enum CBLAS_TRANSPOSE trans_rhs = rhs_row_major ? CblasNoTrans : CblasTrans;
+    // Determine matrix layouts, transpose flags and leading dimensions
+    bool lhs_trans, rhs_trans;
+    size_t lda = blas_leading_dim(M, K, lhs_strides[lhs_ndim - 2], lhs_strides[lhs_ndim - 1],
+                                  &lhs_trans);
+    size_t ldb = blas_leading_dim(K, N, rhs_strides[rhs_ndim - 2], rhs_strides[rhs_ndim - 1],
+                                  &rhs_trans);
 
-        size_t lda = lhs_row_major ? lhs_strides[lhs_ndim - 2] : lhs_strides[lhs_ndim - 1];
-        size_t ldb = rhs_row_major ? rhs_strides[rhs_ndim - 2] : rhs_strides[rhs_ndim - 1];
-        size_t ldc = N;
-
-        // Fix leading dimensions when they're too small
-        if (trans_lhs == CblasNoTrans) {
-            if (lda < K)
-                lda = K;
-        } else {
-            if (lda < M)
-                lda = M;
-        }
-        if (trans_rhs == CblasNoTrans) {
-            if (ldb < N)
-                ldb = N;
-        } else {
-            if (ldb < K)
-                ldb = K;
-        }
+    // Can use BLAS if either row-major or col-major (transposed)
+    if (lda != 0 && ldb != 0) {
+        enum CBLAS_TRANSPOSE trans_lhs = lhs_trans ? CblasTrans : CblasNoTrans;
+        enum CBLAS_TRANSPOSE trans_rhs = rhs_trans ? CblasTrans : CblasNoTrans;
+        size_t ldc = N > 0 ? N : 1;
 
         if (batch_ndim == 0) {
             // No batching - single BLAS call
@@ -256,12 +247,17 @@ void hodu_cpu_matmul_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_
                     size_t dim_idx = idx % batch_shape[i - 1];
                     idx /= batch_shape[i - 1];
 
-                    // Apply broadcasting: if shape is 1, use index 0
-                    size_t lhs_dim_idx = (lhs_shape[lhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-                    size_t rhs_dim_idx = (rhs_shape[rhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-
-                    lhs_batch_offset += lhs_dim_idx * lhs_strides[lhs_ndim - 2 - i];
-                    rhs_batch_offset += rhs_dim_idx * rhs_strides[rhs_ndim - 2 - i];
+                    // Batch axes align on the right; an operand lacking this one, or with
+                    // extent 1 on it, is broadcast along it
+                    size_t from_right = batch_ndim - (i - 1);
+                    if (lhs_ndim - 2 >= from_right) {
+                        size_t d = lhs_ndim - 2 - from_right;
+                        lhs_batch_offset += (lhs_shape[d] == 1 ? 0 : dim_idx) * lhs_strides[d];
+                    }
+                    if (rhs_ndim - 2 >= from_right) {
+                        size_t d = rhs_ndim - 2 - from_right;
+                        rhs_batch_offset += (rhs_shape[d] == 1 ? 0 : dim_idx) * rhs_strides[d];
+                    }
                 }
 
                 const f64_t *lhs_batch = lhs + lhs_batch_offset;
@@ -303,36 +299,17 @@ void hodu_cpu_dot_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_ptr
     lhs += lhs_offset;
     rhs += rhs_offset;
 
-    // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_stride_k == 1);
-    bool lhs_col_major = (lhs_stride_m == 1);
-    bool rhs_row_major = (rhs_stride_n == 1);
-    bool rhs_col_major = (rhs_stride_k == 1);
-
-    if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
-        enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
-        enum CBLAS_TRANSPOSE trans_rhs = rhs_row_major ? CblasNoTrans : CblasTrans;
+    // Determine matrix layouts, transpose flags and leading dimensions
+    bool lhs_trans, rhs_trans;
+    size_t lda = blas_leading_dim(M, K, lhs_stride_m, lhs_stride_k, &lhs_trans);
+    size_t ldb = blas_leading_dim(K, N, rhs_stride_k, rhs_stride_n, &rhs_trans);
 
-        size_t lda = lhs_row_major ? lhs_stride_m : lhs_stride_k;
-        size_t ldb = rhs_row_major ? rhs_stride_k : rhs_stride_n;
-
-        if (trans_lhs == CblasNoTrans) {
-            if (lda < K)
-                lda = K;
-        } else {
-            if (lda < M)
-                lda = M;
-        }
-        if (trans_rhs == CblasNoTrans) {
-            if (ldb < N)
-                ldb = N;
-        } else {
-            if (ldb < K)
-                ldb = K;
-        }
+    if (lda != 0 && ldb != 0) {
+        enum CBLAS_TRANSPOSE trans_lhs = lhs_trans ? CblasTrans : CblasNoTrans;
+        enum CBLAS_TRANSPOSE trans_rhs = rhs_trans ? CblasTrans : CblasNoTrans;
 
         cblas_sgemm(CblasRowMajor, trans_lhs, trans_rhs, M, N, K, 1.0f, lhs, lda, rhs, ldb, 0.0f,
-                    output, N);
+                    output, N > 0 ? N : 1);
     } else {
         // Fallback for complex stride patterns
         hodu_cpu_dot_f32_fallback(lhs_ptr, rhs_ptr, output_ptr, metadata);
@@ -360,37 +337,17 @@ void hodu_cpu_dot_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_ptr
     lhs += lhs_offset;
     rhs += rhs_offset;
 
-    // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_stride_k == 1);
-    bool lhs_col_major = (lhs_stride_m == 1);
-    bool rhs_row_major = (rhs_stride_n == 1);
-    bool rhs_col_major = (rhs_stride_k == 1);
-
-    if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
-        enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
-        enum CBLAS_TRANSPOSE trans_rhs = rhs_row_major ? CblasNoTrans : CblasTrans;
+    // Determine matrix layouts, transpose flags and leading dimensions
+    bool lhs_trans, rhs_trans;
+    size_t lda = blas_leading_dim(M, K, lhs_stride_m, lhs_stride_k, &lhs_trans);
+    size_t ldb = blas_leading_dim(K, N, rhs_stride_k, rhs_stride_n, &rhs_trans);
 
-        size_t lda = lhs_row_major ? lhs_stride_m : lhs_stride_k;
-        size_t ldb = rhs_row_major ? rhs_stride_k : rhs_stride_n;
-
-        // Fix leading dimensions when they're too small
-        if (trans_lhs == CblasNoTrans) {
-            if (lda < K)
-                lda = K;
-        } else {
-            if (lda < M)
-                lda = M;
-        }
-        if (trans_rhs == CblasNoTrans) {
-            if (ldb < N)
-                ldb = N;
-        } else {
-            if (ldb < K)
-                ldb = K;
-        }
+    if (lda != 0 && ldb != 0) {
+        enum CBLAS_TRANSPOSE trans_lhs = lhs_trans ? CblasTrans : CblasNoTrans;
+        enum CBLAS_TRANSPOSE trans_rhs = rhs_trans ? CblasTrans : CblasNoTrans;
 
         cblas_dgemm(CblasRowMajor, trans_lhs, trans_rhs, M, N, K, 1.0, lhs, lda, rhs, ldb, 0.0,
-                    output, N);
+                    output, N > 0 ? N : 1);
     } else {
         // Fallback for complex stride patterns
         hodu_cpu_dot_f64_fallback(lhs_ptr, rhs_ptr, output_ptr, metadata);
-- 
2.43.0


From 54e0c8f24e10d8b9546ad746dc6eea5ce3d67259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:30 +0000
Subject: [PATCH 14/55] fix: treat an exactly zero pivot as singular in det for
 every element type

---
 crates/hodu_cpu_kernels/kernels/ops_linalg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_linalg.c b/crates/hodu_cpu_kernels/kernels/ops_linalg.c
index 93cfbbd..7f979a5 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_linalg.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_linalg.c
@@ -136,7 +136,7 @@
                     TYPE abs_pivot = pivot;                                                        \
                     if (abs_pivot < 0)                                                             \
                         abs_pivot = -abs_pivot;                                                    \
-                    if (abs_pivot < (TYPE)1e-15) {                                                 \
+                    if (abs_pivot == 0 || abs_pivot < (TYPE)1e-15) {                               \
                         det = 0;                                                                   \
                         free(lu);                                                                  \
                         goto store_result_##TYPE_SUFFIX;                                           \
-- 
2.43.0


From dc0b5efbbd4568af3e0753524a13c161f948b9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:46 +0000
Subject: [PATCH 15/55] fix: describe every operand to the einsum kernel and
 enforce its documented limits

---
 crates/hodu_core/src/op_metadatas.rs      |  2 +-
 crates/hodu_core/src/tensor/ops/einsum.rs | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/hodu_core/src/op_metadatas.rs b/crates/hodu_core/src/op_metadatas.rs
index 6a094e3..fb61075 100644
--- a/crates/hodu_core/src/op_metadatas.rs
+++ b/crates/hodu_core/src/op_metadatas.rs
@@ -1508,7 +1508,7 @@ pub fn einsum_metadata(
     let num_total_indices = parsed.all_indices.len();
     let num_contraction_indices = parsed.contraction_indices.len();
     let output_ndim = output_layout.ndim();
-    let num_output_els = output_layout.size().max(1);
+    let num_output_els = output_layout.size();
 
     let mut metadata = vec![
         num_output_els,
diff --git a/crates/hodu_core/src/tensor/ops/einsum.rs b/crates/hodu_core/src/tensor/ops/einsum.rs
index 474e067..4700b41 100644
--- a/crates/hodu_core/src/tensor/ops/einsum.rs
+++ b/crates/hodu_core/src/tensor/ops/einsum.rs
@@ -65,6 +65,12 @@ impl Tensor {
         let input_shape_refs: Vec<_> = input_shapes.iter().collect();
         let parsed = ParsedEinsum::parse(equation, &input_shape_refs)?;
 
+        if parsed.all_indices.len() > 16 || input_shapes.iter().any(|shape| shape.ndim() > 16) {
+            return Err(HoduError::InvalidArgument(
+                "einsum supports at most 16 distinct indices and 16 dimensions per tensor".to_string(),
+            ));
+        }
+
         // Compute output shape
         let output_shape = parsed.compute_output_shape();
         let result_layout = Layout::from_shape(&output_shape);
@@ -101,12 +107,12 @@ impl Tensor {
 
             Ok(result_tensor)
         } else {
-            let other_layouts: Vec<Layout> = tensors.iter().skip(1).map(|t| t.layout()).collect();
-            let input_layout_refs: Vec<&Layout> = other_layouts.iter().collect();
+            // Layouts of all operands, the first included: the metadata describes every one
+            let input_layout_refs: Vec<&Layout> = input_layouts.iter().collect();
 
             // Execute with nested with_storage calls based on tensor count
             let storage = match tensors.len() {
-                1 => tensors[0].with_storage(|s0| s0.call_ops_einsum(&[], &[], &parsed))?,
+                1 => tensors[0].with_storage(|s0| s0.call_ops_einsum(&[], &input_layout_refs, &parsed))?,
                 2 => tensors[0].with_storage(|s0| {
                     tensors[1].with_storage(|s1| s0.call_ops_einsum(&[s1], &input_layout_refs, &parsed))
                 })?,
-- 
2.43.0


From c57bd5a450a591d9fff31c03650cd91906837546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:05 +0000
Subject: [PATCH 16/55] fix: give argmax/argmin and any/all results their own
 element type and refuse bad reduce axes

---
 .../src/be_cpu/storage/ops_reduce.rs          | 62 +++++++------------
 crates/hodu_core/src/tensor/ops/reduce.rs     | 32 +++++++---
 2 files changed, 44 insertions(+), 50 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_reduce.rs b/crates/hodu_core/src/be_cpu/storage/ops_reduce.rs
index 2989fdd..ba694f6 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_reduce.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_reduce.rs
@@ -2,8 +2,8 @@ use crate::{
     be::{device::BackendDeviceT, storage::BackendStorageT},
     be_cpu::{device::CpuDevice, storage::CpuStorage},
     error::{HoduError, HoduResult},
-    ops::Op,
-    types::{Layout, Shape},
+    ops::{Op, ReduceOp},
+    types::{DType, Layout, Shape},
 };
 use core::ffi::c_void;
 
@@ -73,47 +73,27 @@ pub fn call_ops_reduce(
     let kernel_name_static = crate::cache::kernel::get_kernel_name(kernel_name);
     let kernel = hodu_cpu_kernels::macros::Kernel(kernel_name_static);
 
-    // Create output storage
+    // Create output storage: argmax/argmin kernels write i32 indices and any/all kernels write bools
     let dtype = storage.dtype();
-    let mut output = CpuDevice::allocate(output_shape.size(), dtype)?;
-
-    // Get raw pointers and call kernel
-    macro_rules! call_kernel {
-        ($input_data:expr, $out_data:expr) => {{
-            let input_ptr = $input_data.as_ptr() as *const c_void;
-            let out_ptr = $out_data.as_mut_ptr() as *mut c_void;
-
-            hodu_cpu_kernels::call_ops_reduce(kernel, input_ptr, out_ptr, &metadata)?;
-        }};
-    }
-
-    match (storage, &mut output) {
-        (CpuStorage::F8E4M3(input), CpuStorage::F8E4M3(out)) => call_kernel!(input, out),
-        #[cfg(feature = "f8e5m2")]
-        (CpuStorage::F8E5M2(input), CpuStorage::F8E5M2(out)) => call_kernel!(input, out),
-        (CpuStorage::BF16(input), CpuStorage::BF16(out)) => call_kernel!(input, out),
-        (CpuStorage::F16(input), CpuStorage::F16(out)) => call_kernel!(input, out),
-        (CpuStorage::F32(input), CpuStorage::F32(out)) => call_kernel!(input, out),
-        #[cfg(feature = "f64")]
-        (CpuStorage::F64(input), CpuStorage::F64(out)) => call_kernel!(input, out),
-        (CpuStorage::U8(input), CpuStorage::U8(out)) => call_kernel!(input, out),
-        #[cfg(feature = "u16")]
-        (CpuStorage::U16(input), CpuStorage::U16(out)) => call_kernel!(input, out),
-        (CpuStorage::U32(input), CpuStorage::U32(out)) => call_kernel!(input, out),
-        #[cfg(feature = "u64")]
-        (CpuStorage::U64(input), CpuStorage::U64(out)) => call_kernel!(input, out),
-        (CpuStorage::I8(input), CpuStorage::I8(out)) => call_kernel!(input, out),
-        #[cfg(feature = "i16")]
-        (CpuStorage::I16(input), CpuStorage::I16(out)) => call_kernel!(input, out),
-        (CpuStorage::I32(input), CpuStorage::I32(out)) => call_kernel!(input, out),
-        #[cfg(feature = "i64")]
-        (CpuStorage::I64(input), CpuStorage::I64(out)) => call_kernel!(input, out),
-        _ => {
-            return Err(HoduError::BackendError(
-                "mismatched storage types in call_reduce".to_string(),
-            ))
+    let output_dtype = match reduce_op {
+        ReduceOp::ArgMax | ReduceOp::ArgMin => DType::I32,
+        ReduceOp::Any | ReduceOp::All => DType::BOOL,
+        _ if dtype == DType::BOOL => {
+            return Err(HoduError::UnsupportedDTypeForOp {
+                dtype,
+                op: Op::Reduce(reduce_op),
+            })
         },
-    }
+        _ => dtype,
+    };
+    let mut output = CpuDevice::allocate(output_shape.size(), output_dtype)?;
+
+    hodu_cpu_kernels::call_ops_reduce(
+        kernel,
+        storage.as_ptr() as *const c_void,
+        output.as_mut_ptr() as *mut c_void,
+        &metadata,
+    )?;
 
     Ok(output)
 }
diff --git a/crates/hodu_core/src/tensor/ops/reduce.rs b/crates/hodu_core/src/tensor/ops/reduce.rs
index adb5ac2..6750efe 100644
--- a/crates/hodu_core/src/tensor/ops/reduce.rs
+++ b/crates/hodu_core/src/tensor/ops/reduce.rs
@@ -1,5 +1,5 @@
 use crate::{
-    error::HoduResult,
+    error::{HoduError, HoduResult},
     ops::{Op, OpParams, ReduceOp, ReduceParams},
     scalar::Scalar,
     tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
@@ -160,16 +160,29 @@ impl Tensor {
                 .collect()
         };
 
-        let mut output_dims = shape_dims.to_vec();
-        for &dim in &reduce_dims {
-            if keep_dim {
-                output_dims[dim] = 1;
-            } else {
-                output_dims[dim] = 0;
+        // Every axis must exist and may be reduced only once
+        for (i, &dim) in reduce_dims.iter().enumerate() {
+            if dim >= ndim {
+                return Err(HoduError::InvalidAxis {
+                    axis: dims_i32[i],
+                    ndim,
+                });
+            }
+            if reduce_dims[..i].contains(&dim) {
+                return Err(HoduError::InternalError(format!(
+                    "repeated axis in reduce operation: {}",
+                    dim
+                )));
             }
         }
-        if !keep_dim {
-            output_dims.retain(|&size| size != 0);
+
+        let mut output_dims = Vec::with_capacity(ndim);
+        for (dim, &size) in shape_dims.iter().enumerate() {
+            if !reduce_dims.contains(&dim) {
+                output_dims.push(size);
+            } else if keep_dim {
+                output_dims.push(1);
+            }
         }
 
         let result_layout = Layout::from_shape(&Shape::from(output_dims));
@@ -186,6 +199,7 @@ impl Tensor {
 
             // Determine output dtype based on operation
             let output_dtype = match reduce_op {
+                ReduceOp::ArgMax | ReduceOp::ArgMin => DType::I32,
                 ReduceOp::Any | ReduceOp::All => DType::BOOL,
                 _ => self.dtype(),
             };
-- 
2.43.0


From 11e8c93a48864c895a094a03a5491dc1f6ea75e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:05 +0000
Subject: [PATCH 17/55] fix: order index_put metadata as the kernels read it

---
 crates/hodu_core/src/op_metadatas.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/crates/hodu_core/src/op_metadatas.rs b/crates/hodu_core/src/op_metadatas.rs
index fb61075..568e4ec 100644
--- a/crates/hodu_core/src/op_metadatas.rs
+++ b/crates/hodu_core/src/op_metadatas.rs
@@ -730,7 +730,7 @@ pub fn index_select_metadata(layout: &Layout, dim: usize, num_indices: usize, ou
 /// Generate metadata for index_put operations
 ///
 /// Format:
-/// - [num_els, num_dims, input_shape, input_strides, input_offset, values_shape, values_strides, values_offset, dim, num_indices]
+/// - [num_els, num_dims, input_shape, input_strides, values_strides, input_offset, values_offset, dim, num_indices]
 pub fn index_put_metadata(
     layout: &Layout,
     values_layout: &Layout,
@@ -739,10 +739,9 @@ pub fn index_put_metadata(
     output_num_els: usize,
 ) -> Vec<usize> {
     let input_shape = layout.shape();
-    let values_shape = values_layout.shape();
     let ndim = input_shape.ndim();
 
-    let mut metadata = Vec::with_capacity(2 + ndim + ndim + 1 + ndim + ndim + 1 + 1 + 1);
+    let mut metadata = Vec::with_capacity(2 + ndim + ndim + ndim + 1 + 1 + 1 + 1);
 
     metadata.push(output_num_els);
     metadata.push(ndim);
@@ -754,15 +753,14 @@ pub fn index_put_metadata(
     for &s in layout.strides() {
         metadata.push(s);
     }
-    metadata.push(layout.offset());
 
-    // values shape and strides
-    for &d in values_shape.dims() {
-        metadata.push(d);
-    }
+    // values strides
     for &s in values_layout.strides() {
         metadata.push(s);
     }
+
+    // offsets
+    metadata.push(layout.offset());
     metadata.push(values_layout.offset());
 
     metadata.push(dim);
-- 
2.43.0


From ea702563596ce184582c85f266d46064a77ee1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:05 +0000
Subject: [PATCH 18/55] fix: provide the relu kernels signed integers are
 accepted for

---
 crates/hodu_cpu_kernels/kernels/ops_unary.c      | 4 ++++
 crates/hodu_cpu_kernels/src/kernels/ops_unary.rs | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary.c b/crates/hodu_cpu_kernels/kernels/ops_unary.c
index 71d51ac..49a873a 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary.c
@@ -1653,6 +1653,7 @@ IMPL_UNARY_OP(i8_t, i8, softsign, (i8_t)((float)x / (1.0f + fabsf((float)x))))
 IMPL_UNARY_OP(i8_t, i8, square, x *x)
 IMPL_UNARY_OP(i8_t, i8, sqrt, (i8_t)sqrtf((float)((x < 0) ? -x : x)))
 IMPL_UNARY_OP(i8_t, i8, recip, (x != 0) ? (i8_t)(1.0f / (float)x) : 0)
+IMPL_UNARY_OP(i8_t, i8, relu, (x > 0) ? x : 0)
 IMPL_UNARY_TO_BOOL(i8_t, i8, logical_not, x == 0)
 IMPL_UNARY_WITH_SCALAR(i8_t, i8, add_scalar, x + const_val)
 IMPL_UNARY_WITH_SCALAR(i8_t, i8, sub_scalar, x - const_val)
@@ -1677,6 +1678,7 @@ IMPL_UNARY_OP(i16_t, i16, softsign, (i16_t)((float)x / (1.0f + fabsf((float)x)))
 IMPL_UNARY_OP(i16_t, i16, square, x *x)
 IMPL_UNARY_OP(i16_t, i16, sqrt, (i16_t)sqrtf((float)((x < 0) ? -x : x)))
 IMPL_UNARY_OP(i16_t, i16, recip, (x != 0) ? (i16_t)(1.0f / (float)x) : 0)
+IMPL_UNARY_OP(i16_t, i16, relu, (x > 0) ? x : 0)
 IMPL_UNARY_TO_BOOL(i16_t, i16, logical_not, x == 0)
 IMPL_UNARY_WITH_SCALAR(i16_t, i16, add_scalar, x + const_val)
 IMPL_UNARY_WITH_SCALAR(i16_t, i16, sub_scalar, x - const_val)
@@ -1701,6 +1703,7 @@ IMPL_UNARY_OP(i32_t, i32, softsign, (i32_t)((float)x / (1.0f + fabsf((float)x)))
 IMPL_UNARY_OP(i32_t, i32, square, x *x)
 IMPL_UNARY_OP(i32_t, i32, sqrt, (i32_t)sqrtf((float)((x < 0) ? -x : x)))
 IMPL_UNARY_OP(i32_t, i32, recip, (x != 0) ? (i32_t)(1.0f / (float)x) : 0)
+IMPL_UNARY_OP(i32_t, i32, relu, (x > 0) ? x : 0)
 IMPL_UNARY_TO_BOOL(i32_t, i32, logical_not, x == 0)
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, add_scalar, x + const_val)
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, sub_scalar, x - const_val)
@@ -1725,6 +1728,7 @@ IMPL_UNARY_OP(i64_t, i64, softsign, (i64_t)((double)x / (1.0 + fabs((double)x)))
 IMPL_UNARY_OP(i64_t, i64, square, x *x)
 IMPL_UNARY_OP(i64_t, i64, sqrt, (i64_t)sqrt((double)((x < 0) ? -x : x)))
 IMPL_UNARY_OP(i64_t, i64, recip, (x != 0) ? (i64_t)(1.0 / (double)x) : 0)
+IMPL_UNARY_OP(i64_t, i64, relu, (x > 0) ? x : 0)
 IMPL_UNARY_TO_BOOL(i64_t, i64, logical_not, x == 0)
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, add_scalar, x + const_val)
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, sub_scalar, x - const_val)
diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs b/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
index 0e43d10..cce6213 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
@@ -309,10 +309,10 @@ declare_and_dispatch_unary!(
         abs, sign, softsign, square, sqrt, recip, logical_not
     ],
     signed_types: [
-        neg
+        neg, relu
     ],
     float_types: [
-        relu, sigmoid, hardsigmoid, gelu, softplus, silu, hardsilu, mish, selu, celu,
+        sigmoid, hardsigmoid, gelu, softplus, silu, hardsilu, mish, selu, celu,
         sin, cos, tan, asin, acos, atan,
         sinh, cosh, tanh, asinh, acosh, atanh,
         exp, exp2, exp10, ln, log2, log10,
-- 
2.43.0


From 172e44550f5df3815ddf953cd4f5af53ed311144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 19/55] fix: sort negative integers below positive ones in
 unique

---
 crates/hodu_cpu_kernels/kernels/ops_indexing.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_indexing.c b/crates/hodu_cpu_kernels/kernels/ops_indexing.c
index e4e015b..7eb6f4d 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_indexing.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_indexing.c
@@ -1123,7 +1123,7 @@ NONZERO_FILL_OP(uint64_t, nonzero_fill_u64, val != 0)
 // Helper struct for sorting with original index
 typedef struct {
     size_t orig_idx;
-    size_t sort_key; // Used for integer comparison
+    uint64_t sort_key; // Used for integer comparison (unsigned order)
 } IndexPair;
 
 // Comparison function for qsort (by sort_key)
@@ -1153,6 +1153,10 @@ static int compare_index_pairs_float(const void *a, const void *b) {
     return 0;
 }
 
+/// Sort key whose unsigned order is the order of the (signed or unsigned) integer type
+#define UNIQUE_SORT_KEY(TYPENAME, x)                                                               \
+    (((TYPENAME) - 1 < (TYPENAME)1) ? ((uint64_t)(x) ^ ((uint64_t)1 << 63)) : (uint64_t)(x))
+
 /// Macro to implement unique operation for integer types
 #define UNIQUE_OP_INT(TYPENAME, FN_NAME)                                                           \
     size_t hodu_cpu_##FN_NAME(const void *input_ptr, void *values_ptr, int32_t *inverse,           \
@@ -1184,7 +1188,7 @@ static int compare_index_pairs_float(const void *a, const void *b) {
             }                                                                                      \
             input_values[id] = input[flat_idx];                                                    \
             pairs[id].orig_idx = id;                                                               \
-            pairs[id].sort_key = (size_t)input[flat_idx];                                          \
+            pairs[id].sort_key = UNIQUE_SORT_KEY(TYPENAME, input[flat_idx]);                       \
         }                                                                                          \
                                                                                                    \
         /* Sort by value */                                                                        \
-- 
2.43.0


From 5b8a4b4cbf6601bb112021a2ae76df36e1f2fbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:13 +0000
Subject: [PATCH 20/55] fix: let an empty batch dimension win over 1 in matmul

---
 crates/hodu_core/src/be_cpu/storage/ops_matrix.rs   | 2 +-
 crates/hodu_core/src/be_metal/storage/ops_matrix.rs | 2 +-
 crates/hodu_core/src/op_metadatas.rs                | 2 +-
 crates/hodu_core/src/tensor/ops/matrix.rs           | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_matrix.rs b/crates/hodu_core/src/be_cpu/storage/ops_matrix.rs
index a2658a1..278c0b8 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_matrix.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_matrix.rs
@@ -90,7 +90,7 @@ pub fn call_ops_matmul(
             ));
         }
 
-        batch_shape.push(lhs_dim.max(rhs_dim));
+        batch_shape.push(if lhs_dim == 1 { rhs_dim } else { lhs_dim });
     }
 
     // Build output shape: [...batch_dims, M, N]
diff --git a/crates/hodu_core/src/be_metal/storage/ops_matrix.rs b/crates/hodu_core/src/be_metal/storage/ops_matrix.rs
index 0683662..96871e0 100644
--- a/crates/hodu_core/src/be_metal/storage/ops_matrix.rs
+++ b/crates/hodu_core/src/be_metal/storage/ops_matrix.rs
@@ -59,7 +59,7 @@ pub fn call_ops_matmul(
             1
         };
 
-        batch_shape.push(lhs_dim.max(rhs_dim));
+        batch_shape.push(if lhs_dim == 1 { rhs_dim } else { lhs_dim });
     }
 
     let mut output_shape_vec = batch_shape;
diff --git a/crates/hodu_core/src/op_metadatas.rs b/crates/hodu_core/src/op_metadatas.rs
index 568e4ec..6af21c6 100644
--- a/crates/hodu_core/src/op_metadatas.rs
+++ b/crates/hodu_core/src/op_metadatas.rs
@@ -241,7 +241,7 @@ pub fn matmul_metadata(lhs_layout: &Layout, rhs_layout: &Layout, output_layout:
             )));
         }
 
-        batch_shape.push(lhs_dim.max(rhs_dim));
+        batch_shape.push(if lhs_dim == 1 { rhs_dim } else { lhs_dim });
     }
 
     let num_els = output_layout.size();
diff --git a/crates/hodu_core/src/tensor/ops/matrix.rs b/crates/hodu_core/src/tensor/ops/matrix.rs
index 21a404e..35983ca 100644
--- a/crates/hodu_core/src/tensor/ops/matrix.rs
+++ b/crates/hodu_core/src/tensor/ops/matrix.rs
@@ -148,7 +148,7 @@ impl Tensor {
                     Op::Matrix(MatrixOp::Matmul),
                 ));
             }
-            batch_dims[max_batch_ndim - 1 - i] = lhs_dim.max(rhs_dim);
+            batch_dims[max_batch_ndim - 1 - i] = if lhs_dim == 1 { rhs_dim } else { lhs_dim };
         }
 
         // Broadcast both tensors to have the same batch dimensions
-- 
2.43.0


From 35d3c72e4138953630c9a2acb207cb9af4fd406a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:30 +0000
Subject: [PATCH 21/55] fix: process no matrix when a batch extent is 0 in det,
 inv and trace

---
 crates/hodu_core/src/op_metadatas.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/crates/hodu_core/src/op_metadatas.rs b/crates/hodu_core/src/op_metadatas.rs
index 6af21c6..6796eca 100644
--- a/crates/hodu_core/src/op_metadatas.rs
+++ b/crates/hodu_core/src/op_metadatas.rs
@@ -319,7 +319,6 @@ pub fn det_metadata(layout: &Layout) -> HoduResult<Vec<usize>> {
 
     // Compute batch size
     let batch_size: usize = shape.dims()[..ndim - 2].iter().product();
-    let batch_size = if batch_size == 0 { 1 } else { batch_size };
 
     let mut metadata = Vec::with_capacity(3 + 2 * ndim + 1);
 
@@ -372,7 +371,6 @@ pub fn inv_metadata(layout: &Layout) -> HoduResult<Vec<usize>> {
 
     // Compute batch size
     let batch_size: usize = shape.dims()[..ndim - 2].iter().product();
-    let batch_size = if batch_size == 0 { 1 } else { batch_size };
 
     let mut metadata = Vec::with_capacity(3 + 2 * ndim + 1);
 
@@ -425,7 +423,6 @@ pub fn trace_metadata(layout: &Layout) -> HoduResult<Vec<usize>> {
 
     // Compute batch size
     let batch_size: usize = shape.dims()[..ndim - 2].iter().product();
-    let batch_size = if batch_size == 0 { 1 } else { batch_size };
 
     let mut metadata = Vec::with_capacity(3 + 2 * ndim + 1);
 
-- 
2.43.0


From 0ce96ed44bc19e8bbe5fd5aeb90d70227b11f413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:10 +0000
Subject: [PATCH 22/55] fix: keep the sign of zero in vectorised negation

---
 crates/hodu_cpu_kernels/kernels/simd_utils.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/simd_utils.h b/crates/hodu_cpu_kernels/kernels/simd_utils.h
index 16b0605..2276207 100644
--- a/crates/hodu_cpu_kernels/kernels/simd_utils.h
+++ b/crates/hodu_cpu_kernels/kernels/simd_utils.h
@@ -125,7 +125,7 @@ static inline simd_f32_t simd_f32_abs(simd_f32_t v) {
 }
 
 static inline simd_f32_t simd_f32_neg(simd_f32_t v) {
-    return _mm256_sub_ps(_mm256_setzero_ps(), v);
+    return _mm256_xor_ps(_mm256_set1_ps(-0.0f), v);
 }
 
 static inline simd_f32_t simd_f32_sqrt(simd_f32_t v) { return _mm256_sqrt_ps(v); }
@@ -189,7 +189,7 @@ static inline simd_f32_t simd_f32_abs(simd_f32_t v) {
     return _mm_andnot_ps(sign_mask, v);
 }
 
-static inline simd_f32_t simd_f32_neg(simd_f32_t v) { return _mm_sub_ps(_mm_setzero_ps(), v); }
+static inline simd_f32_t simd_f32_neg(simd_f32_t v) { return _mm_xor_ps(_mm_set1_ps(-0.0f), v); }
 
 static inline simd_f32_t simd_f32_sqrt(simd_f32_t v) { return _mm_sqrt_ps(v); }
 
@@ -320,7 +320,7 @@ static inline simd_f64_t simd_f64_abs(simd_f64_t v) {
 }
 
 static inline simd_f64_t simd_f64_neg(simd_f64_t v) {
-    return _mm256_sub_pd(_mm256_setzero_pd(), v);
+    return _mm256_xor_pd(_mm256_set1_pd(-0.0), v);
 }
 
 static inline simd_f64_t simd_f64_sqrt(simd_f64_t v) { return _mm256_sqrt_pd(v); }
@@ -378,7 +378,7 @@ static inline simd_f64_t simd_f64_abs(simd_f64_t v) {
     return _mm_andnot_pd(sign_mask, v);
 }
 
-static inline simd_f64_t simd_f64_neg(simd_f64_t v) { return _mm_sub_pd(_mm_setzero_pd(), v); }
+static inline simd_f64_t simd_f64_neg(simd_f64_t v) { return _mm_xor_pd(_mm_set1_pd(-0.0), v); }
 
 static inline simd_f64_t simd_f64_sqrt(simd_f64_t v) { return _mm_sqrt_pd(v); }
 
-- 
2.43.0


From 8ba861e8414b3259c18e6fdf3bda21929dbb21a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:31 +0000
Subject: [PATCH 23/55] fix: give scalar powers and bool subtraction the
 meaning of their tensor forms

---
 crates/hodu_cpu_kernels/kernels/math_utils.h |  4 ++--
 crates/hodu_cpu_kernels/kernels/ops_unary.c  | 20 ++++++++++----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/math_utils.h b/crates/hodu_cpu_kernels/kernels/math_utils.h
index ad11d99..39fa733 100644
--- a/crates/hodu_cpu_kernels/kernels/math_utils.h
+++ b/crates/hodu_cpu_kernels/kernels/math_utils.h
@@ -36,8 +36,8 @@ extern "C" {
 
 // Integer power function for integer types
 static inline int64_t ipow_i64(int64_t base, int64_t exp) {
-    if (exp < 0)
-        return 0;
+    if (exp < 0) // 1 / base^|exp|, which only 1 and -1 can represent
+        return base == 1 ? 1 : base == -1 ? (exp % 2 == 0 ? 1 : -1) : 0;
     int64_t result = 1;
     while (exp > 0) {
         if (exp & 1)
diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary.c b/crates/hodu_cpu_kernels/kernels/ops_unary.c
index 49a873a..7035e1d 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary.c
@@ -1201,11 +1201,11 @@ IMPL_UNARY_OP(uint8_t, bool, erf, x)
 IMPL_UNARY_TO_BOOL(uint8_t, bool, logical_not, !x)
 
 IMPL_UNARY_WITH_SCALAR(uint8_t, bool, add_scalar, x || const_val)
-IMPL_UNARY_WITH_SCALAR(uint8_t, bool, sub_scalar, x ^ const_val)
+IMPL_UNARY_WITH_SCALAR(uint8_t, bool, sub_scalar, x && !const_val)
 IMPL_UNARY_WITH_SCALAR(uint8_t, bool, mul_scalar, x &&const_val)
 IMPL_UNARY_WITH_SCALAR(uint8_t, bool, div_scalar, x &&const_val)
 IMPL_UNARY_WITH_SCALAR(uint8_t, bool, rem_scalar, x && !const_val)
-IMPL_UNARY_WITH_SCALAR(uint8_t, bool, pow_scalar, x && (const_val != 0))
+IMPL_UNARY_WITH_SCALAR(uint8_t, bool, pow_scalar, x || !const_val)
 IMPL_UNARY_WITH_SCALAR(uint8_t, bool, maximum_scalar, x || const_val)
 IMPL_UNARY_WITH_SCALAR(uint8_t, bool, minimum_scalar, x &&const_val)
 
@@ -1562,7 +1562,7 @@ IMPL_UNARY_WITH_SCALAR(u8_t, u8, sub_scalar, (x > const_val) ? (x - const_val) :
 IMPL_UNARY_WITH_SCALAR(u8_t, u8, mul_scalar, x *const_val)
 IMPL_UNARY_WITH_SCALAR(u8_t, u8, div_scalar, (const_val != 0) ? (x / const_val) : 0)
 IMPL_UNARY_WITH_SCALAR(u8_t, u8, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(u8_t, u8, pow_scalar, (u8_t)powf_opt((float)x, (float)const_val))
+IMPL_UNARY_WITH_SCALAR(u8_t, u8, pow_scalar, (u8_t)ipow_u64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(u8_t, u8, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(u8_t, u8, minimum_scalar, MINIMUM(x, const_val))
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(u8_t, u8, eq_scalar, x == const_val)
@@ -1585,7 +1585,7 @@ IMPL_UNARY_WITH_SCALAR(u16_t, u16, sub_scalar, (x > const_val) ? (x - const_val)
 IMPL_UNARY_WITH_SCALAR(u16_t, u16, mul_scalar, x *const_val)
 IMPL_UNARY_WITH_SCALAR(u16_t, u16, div_scalar, (const_val != 0) ? (x / const_val) : 0)
 IMPL_UNARY_WITH_SCALAR(u16_t, u16, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(u16_t, u16, pow_scalar, (u16_t)powf_opt((float)x, (float)const_val))
+IMPL_UNARY_WITH_SCALAR(u16_t, u16, pow_scalar, (u16_t)ipow_u64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(u16_t, u16, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(u16_t, u16, minimum_scalar, MINIMUM(x, const_val))
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(u16_t, u16, eq_scalar, x == const_val)
@@ -1608,7 +1608,7 @@ IMPL_UNARY_WITH_SCALAR(u32_t, u32, sub_scalar, (x > const_val) ? (x - const_val)
 IMPL_UNARY_WITH_SCALAR(u32_t, u32, mul_scalar, x *const_val)
 IMPL_UNARY_WITH_SCALAR(u32_t, u32, div_scalar, (const_val != 0) ? (x / const_val) : 0)
 IMPL_UNARY_WITH_SCALAR(u32_t, u32, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(u32_t, u32, pow_scalar, (u32_t)powf_opt((float)x, (float)const_val))
+IMPL_UNARY_WITH_SCALAR(u32_t, u32, pow_scalar, (u32_t)ipow_u64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(u32_t, u32, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(u32_t, u32, minimum_scalar, MINIMUM(x, const_val))
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(u32_t, u32, eq_scalar, x == const_val)
@@ -1631,7 +1631,7 @@ IMPL_UNARY_WITH_SCALAR(u64_t, u64, sub_scalar, (x > const_val) ? (x - const_val)
 IMPL_UNARY_WITH_SCALAR(u64_t, u64, mul_scalar, x *const_val)
 IMPL_UNARY_WITH_SCALAR(u64_t, u64, div_scalar, (const_val != 0) ? (x / const_val) : 0)
 IMPL_UNARY_WITH_SCALAR(u64_t, u64, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(u64_t, u64, pow_scalar, (u64_t)pow_opt((double)x, (double)const_val))
+IMPL_UNARY_WITH_SCALAR(u64_t, u64, pow_scalar, ipow_u64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(u64_t, u64, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(u64_t, u64, minimum_scalar, MINIMUM(x, const_val))
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(u64_t, u64, eq_scalar, x == const_val)
@@ -1660,7 +1660,7 @@ IMPL_UNARY_WITH_SCALAR(i8_t, i8, sub_scalar, x - const_val)
 IMPL_UNARY_WITH_SCALAR(i8_t, i8, mul_scalar, x *const_val)
 IMPL_UNARY_WITH_SCALAR(i8_t, i8, div_scalar, (const_val != 0) ? (x / const_val) : 0)
 IMPL_UNARY_WITH_SCALAR(i8_t, i8, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(i8_t, i8, pow_scalar, (i8_t)powf_opt((float)x, (float)const_val))
+IMPL_UNARY_WITH_SCALAR(i8_t, i8, pow_scalar, (i8_t)ipow_i64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i8_t, i8, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i8_t, i8, minimum_scalar, MINIMUM(x, const_val))
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(i8_t, i8, eq_scalar, x == const_val)
@@ -1685,7 +1685,7 @@ IMPL_UNARY_WITH_SCALAR(i16_t, i16, sub_scalar, x - const_val)
 IMPL_UNARY_WITH_SCALAR(i16_t, i16, mul_scalar, x *const_val)
 IMPL_UNARY_WITH_SCALAR(i16_t, i16, div_scalar, (const_val != 0) ? (x / const_val) : 0)
 IMPL_UNARY_WITH_SCALAR(i16_t, i16, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(i16_t, i16, pow_scalar, (i16_t)powf_opt((float)x, (float)const_val))
+IMPL_UNARY_WITH_SCALAR(i16_t, i16, pow_scalar, (i16_t)ipow_i64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i16_t, i16, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i16_t, i16, minimum_scalar, MINIMUM(x, const_val))
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(i16_t, i16, eq_scalar, x == const_val)
@@ -1710,7 +1710,7 @@ IMPL_UNARY_WITH_SCALAR(i32_t, i32, sub_scalar, x - const_val)
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, mul_scalar, x *const_val)
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, div_scalar, (const_val != 0) ? (x / const_val) : 0)
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(i32_t, i32, pow_scalar, (i32_t)powf_opt((float)x, (float)const_val))
+IMPL_UNARY_WITH_SCALAR(i32_t, i32, pow_scalar, (i32_t)ipow_i64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, minimum_scalar, MINIMUM(x, const_val))
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(i32_t, i32, eq_scalar, x == const_val)
@@ -1735,7 +1735,7 @@ IMPL_UNARY_WITH_SCALAR(i64_t, i64, sub_scalar, x - const_val)
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, mul_scalar, x *const_val)
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, div_scalar, (const_val != 0) ? (x / const_val) : 0)
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(i64_t, i64, pow_scalar, (i64_t)pow_opt((double)x, (double)const_val))
+IMPL_UNARY_WITH_SCALAR(i64_t, i64, pow_scalar, ipow_i64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, minimum_scalar, MINIMUM(x, const_val))
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(i64_t, i64, eq_scalar, x == const_val)
-- 
2.43.0


From 83eb1a8a3ddd87de50a3003b1cbb1031229c5205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:16 +0000
Subject: [PATCH 24/55] fix: do not trap when the smallest integer is divided
 by -1

---
 crates/hodu_cpu_kernels/kernels/math_utils.h | 7 +++++++
 crates/hodu_cpu_kernels/kernels/ops_binary.c | 8 ++++----
 crates/hodu_cpu_kernels/kernels/ops_unary.c  | 8 ++++----
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/math_utils.h b/crates/hodu_cpu_kernels/kernels/math_utils.h
index 39fa733..0b9a984 100644
--- a/crates/hodu_cpu_kernels/kernels/math_utils.h
+++ b/crates/hodu_cpu_kernels/kernels/math_utils.h
@@ -59,6 +59,13 @@ static inline uint64_t ipow_u64(uint64_t base, uint64_t exp) {
     return result;
 }
 
+// Signed division: 0 for a zero divisor; MIN / -1 wraps instead of trapping
+static inline int64_t idiv_i64(int64_t x, int64_t y) {
+    return y == 0 ? 0 : y == -1 ? (int64_t)(0 - (uint64_t)x) : x / y;
+}
+
+static inline int64_t irem_i64(int64_t x, int64_t y) { return y == 0 || y == -1 ? 0 : x % y; }
+
 // Float power with optimization
 static inline float powf_opt(float base, float exponent) {
     if (exponent == 0.0f)
diff --git a/crates/hodu_cpu_kernels/kernels/ops_binary.c b/crates/hodu_cpu_kernels/kernels/ops_binary.c
index 1ebf24b..6021405 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_binary.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_binary.c
@@ -777,8 +777,8 @@ IMPL_BINARY_TO_BOOL(i16_t, i16, ge, x >= y)
 IMPL_BINARY_OP(i32_t, i32, add, x + y)
 IMPL_BINARY_OP(i32_t, i32, sub, x - y)
 IMPL_BINARY_OP(i32_t, i32, mul, x *y)
-IMPL_BINARY_OP(i32_t, i32, div, (y != 0) ? (x / y) : 0)
-IMPL_BINARY_OP(i32_t, i32, rem, (y != 0) ? (x % y) : 0)
+IMPL_BINARY_OP(i32_t, i32, div, (i32_t)idiv_i64(x, y))
+IMPL_BINARY_OP(i32_t, i32, rem, (i32_t)irem_i64(x, y))
 IMPL_BINARY_OP(i32_t, i32, pow, (i32_t)ipow_i64(x, y))
 IMPL_BINARY_OP(i32_t, i32, maximum, MAXIMUM(x, y))
 IMPL_BINARY_OP(i32_t, i32, minimum, MINIMUM(x, y))
@@ -798,8 +798,8 @@ IMPL_BINARY_TO_BOOL(i32_t, i32, ge, x >= y)
 IMPL_BINARY_OP(i64_t, i64, add, x + y)
 IMPL_BINARY_OP(i64_t, i64, sub, x - y)
 IMPL_BINARY_OP(i64_t, i64, mul, x *y)
-IMPL_BINARY_OP(i64_t, i64, div, (y != 0) ? (x / y) : 0)
-IMPL_BINARY_OP(i64_t, i64, rem, (y != 0) ? (x % y) : 0)
+IMPL_BINARY_OP(i64_t, i64, div, (i64_t)idiv_i64(x, y))
+IMPL_BINARY_OP(i64_t, i64, rem, (i64_t)irem_i64(x, y))
 IMPL_BINARY_OP(i64_t, i64, pow, ipow_i64(x, y))
 IMPL_BINARY_OP(i64_t, i64, maximum, MAXIMUM(x, y))
 IMPL_BINARY_OP(i64_t, i64, minimum, MINIMUM(x, y))
diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary.c b/crates/hodu_cpu_kernels/kernels/ops_unary.c
index 7035e1d..8fe1985 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary.c
@@ -1708,8 +1708,8 @@ IMPL_UNARY_TO_BOOL(i32_t, i32, logical_not, x == 0)
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, add_scalar, x + const_val)
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, sub_scalar, x - const_val)
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, mul_scalar, x *const_val)
-IMPL_UNARY_WITH_SCALAR(i32_t, i32, div_scalar, (const_val != 0) ? (x / const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(i32_t, i32, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
+IMPL_UNARY_WITH_SCALAR(i32_t, i32, div_scalar, (i32_t)idiv_i64(x, const_val))
+IMPL_UNARY_WITH_SCALAR(i32_t, i32, rem_scalar, (i32_t)irem_i64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, pow_scalar, (i32_t)ipow_i64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, minimum_scalar, MINIMUM(x, const_val))
@@ -1733,8 +1733,8 @@ IMPL_UNARY_TO_BOOL(i64_t, i64, logical_not, x == 0)
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, add_scalar, x + const_val)
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, sub_scalar, x - const_val)
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, mul_scalar, x *const_val)
-IMPL_UNARY_WITH_SCALAR(i64_t, i64, div_scalar, (const_val != 0) ? (x / const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(i64_t, i64, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
+IMPL_UNARY_WITH_SCALAR(i64_t, i64, div_scalar, (i64_t)idiv_i64(x, const_val))
+IMPL_UNARY_WITH_SCALAR(i64_t, i64, rem_scalar, (i64_t)irem_i64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, pow_scalar, ipow_i64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, minimum_scalar, MINIMUM(x, const_val))
-- 
2.43.0


From e9a4e5a779e5be32894110dc83d95bb26b898b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:58 +0000
Subject: [PATCH 25/55] fix: refuse axes out of range and chunk counts the axis
 cannot fill

---
 .../hodu_core/src/tensor/ops/concat_split.rs  | 26 +++-------
 crates/hodu_core/src/tensor/ops/indexing.rs   | 49 +++----------------
 .../hodu_core/src/tensor/ops/normalization.rs | 14 +-----
 crates/hodu_core/src/tensor/ops/scan.rs       |  7 +--
 .../hodu_core/src/tensor/ops/shape_memory.rs  |  7 +--
 crates/hodu_core/src/tensor/utils.rs          |  9 ++++
 6 files changed, 27 insertions(+), 85 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/concat_split.rs b/crates/hodu_core/src/tensor/ops/concat_split.rs
index 7097337..2d4d451 100644
--- a/crates/hodu_core/src/tensor/ops/concat_split.rs
+++ b/crates/hodu_core/src/tensor/ops/concat_split.rs
@@ -22,12 +22,7 @@ impl Tensor {
         let dim_i32 = dim_scalar.to_i32();
 
         let first = tensors[0];
-        let ndim = first.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let dim_usize = crate::tensor::utils::normalize_axis(dim_i32, first.ndim())?;
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(tensors, Op::Concat(ConcatOp::Concat))?;
@@ -131,12 +126,7 @@ impl Tensor {
     pub fn split<D: Into<Scalar>>(&self, sizes: &[usize], dim: D) -> HoduResult<Vec<Self>> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let dim_usize = crate::tensor::utils::normalize_axis(dim_i32, self.ndim())?;
 
         // Validate dtype for device and operation
         validate_dtype_for_device(self.dtype(), self.device())?;
@@ -238,22 +228,20 @@ impl Tensor {
     pub fn chunk<D: Into<Scalar>>(&self, chunks: usize, dim: D) -> HoduResult<Vec<Self>> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let dim_usize = crate::tensor::utils::normalize_axis(dim_i32, self.ndim())?;
         let shape = self.shape();
         let shape_dims = shape.dims();
         let dim_size = shape_dims[dim_usize];
 
+        if chunks == 0 {
+            return Err(HoduError::InternalError("chunk requires at least one chunk".to_string()));
+        }
         let chunk_size = dim_size.div_ceil(chunks);
         let sizes: Vec<usize> = (0..chunks)
             .map(|i| {
                 let start = i * chunk_size;
                 let end = ((i + 1) * chunk_size).min(dim_size);
-                end - start
+                end.saturating_sub(start)
             })
             .filter(|&s| s > 0)
             .collect();
diff --git a/crates/hodu_core/src/tensor/ops/indexing.rs b/crates/hodu_core/src/tensor/ops/indexing.rs
index a4e2401..761cf6b 100644
--- a/crates/hodu_core/src/tensor/ops/indexing.rs
+++ b/crates/hodu_core/src/tensor/ops/indexing.rs
@@ -17,12 +17,7 @@ impl Tensor {
     pub fn index_select<D: Into<Scalar>>(&self, dim: D, indices: &Self) -> HoduResult<Self> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let dim_usize = crate::tensor::utils::normalize_axis(dim_i32, self.ndim())?;
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices], Op::Indexing(IndexingOp::IndexSelect))?;
@@ -98,12 +93,7 @@ impl Tensor {
     pub fn index_put<D: Into<Scalar>>(&self, dim: D, indices: &Self, values: &Self) -> HoduResult<Self> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let dim_usize = crate::tensor::utils::normalize_axis(dim_i32, self.ndim())?;
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices, values], Op::Indexing(IndexingOp::IndexPut))?;
@@ -179,12 +169,7 @@ impl Tensor {
     pub fn gather<D: Into<Scalar>>(&self, dim: D, indices: &Self) -> HoduResult<Self> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let dim_usize = crate::tensor::utils::normalize_axis(dim_i32, self.ndim())?;
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices], Op::Indexing(IndexingOp::Gather))?;
@@ -255,12 +240,7 @@ impl Tensor {
     pub fn scatter<D: Into<Scalar>>(&self, dim: D, indices: &Self, src: &Self) -> HoduResult<Self> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let dim_usize = crate::tensor::utils::normalize_axis(dim_i32, self.ndim())?;
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices, src], Op::Indexing(IndexingOp::Scatter))?;
@@ -337,12 +317,7 @@ impl Tensor {
     pub fn scatter_add<D: Into<Scalar>>(&self, dim: D, indices: &Self, src: &Self) -> HoduResult<Self> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let dim_usize = crate::tensor::utils::normalize_axis(dim_i32, self.ndim())?;
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices, src], Op::Indexing(IndexingOp::ScatterAdd))?;
@@ -415,12 +390,7 @@ impl Tensor {
     pub fn scatter_max<D: Into<Scalar>>(&self, dim: D, indices: &Self, src: &Self) -> HoduResult<Self> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let dim_usize = crate::tensor::utils::normalize_axis(dim_i32, self.ndim())?;
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices, src], Op::Indexing(IndexingOp::ScatterMax))?;
@@ -493,12 +463,7 @@ impl Tensor {
     pub fn scatter_min<D: Into<Scalar>>(&self, dim: D, indices: &Self, src: &Self) -> HoduResult<Self> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let dim_usize = crate::tensor::utils::normalize_axis(dim_i32, self.ndim())?;
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices, src], Op::Indexing(IndexingOp::ScatterMin))?;
diff --git a/crates/hodu_core/src/tensor/ops/normalization.rs b/crates/hodu_core/src/tensor/ops/normalization.rs
index 898f48d..a9f0c4c 100644
--- a/crates/hodu_core/src/tensor/ops/normalization.rs
+++ b/crates/hodu_core/src/tensor/ops/normalization.rs
@@ -4,12 +4,7 @@ impl Tensor {
     pub fn softmax<T: Into<Scalar>>(&self, dim: T) -> HoduResult<Self> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as u32
-        } else {
-            dim_i32 as u32
-        } as usize;
+        let dim_usize = crate::tensor::utils::normalize_axis(dim_i32, self.ndim())?;
 
         // Numerical stability: subtract max
         // softmax(x) = exp(x - max(x)) / sum(exp(x - max(x)))
@@ -23,12 +18,7 @@ impl Tensor {
     pub fn log_softmax<D: Into<Scalar>>(&self, dim: D) -> HoduResult<Self> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as u32
-        } else {
-            dim_i32 as u32
-        } as usize;
+        let dim_usize = crate::tensor::utils::normalize_axis(dim_i32, self.ndim())?;
 
         // Numerical stability: log_softmax(x) = x - max(x) - log(sum(exp(x - max(x))))
         let max_val = self.max(&[dim_usize], true)?;
diff --git a/crates/hodu_core/src/tensor/ops/scan.rs b/crates/hodu_core/src/tensor/ops/scan.rs
index 080ac65..04a192b 100644
--- a/crates/hodu_core/src/tensor/ops/scan.rs
+++ b/crates/hodu_core/src/tensor/ops/scan.rs
@@ -9,14 +9,9 @@ use crate::{
 
 impl Tensor {
     pub fn cumsum<D: Into<Scalar>>(&self, dim: D) -> HoduResult<Self> {
-        let ndim = self.ndim();
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let dim_usize = if dim_i32 < 0 {
-            (ndim as i32 + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let dim_usize = crate::tensor::utils::normalize_axis(dim_i32, self.ndim())?;
 
         let op_params = OpParams::Scan(ScanParams { dim: dim_usize });
 
diff --git a/crates/hodu_core/src/tensor/ops/shape_memory.rs b/crates/hodu_core/src/tensor/ops/shape_memory.rs
index 9beb744..2b6eab6 100644
--- a/crates/hodu_core/src/tensor/ops/shape_memory.rs
+++ b/crates/hodu_core/src/tensor/ops/shape_memory.rs
@@ -9,17 +9,12 @@ use crate::{
 
 impl Tensor {
     pub fn flip<D: Into<Scalar> + Copy>(&self, dims: &[D]) -> HoduResult<Self> {
-        let ndim = self.ndim();
         let mut dims_usize = Vec::with_capacity(dims.len());
 
         for &d in dims {
             let dim_scalar = d.into();
             let dim_i32 = dim_scalar.to_i32();
-            let dim_usize = if dim_i32 < 0 {
-                (ndim as i32 + dim_i32) as usize
-            } else {
-                dim_i32 as usize
-            };
+            let dim_usize = crate::tensor::utils::normalize_axis(dim_i32, self.ndim())?;
             dims_usize.push(dim_usize);
         }
 
diff --git a/crates/hodu_core/src/tensor/utils.rs b/crates/hodu_core/src/tensor/utils.rs
index 0ba652c..6078d24 100644
--- a/crates/hodu_core/src/tensor/utils.rs
+++ b/crates/hodu_core/src/tensor/utils.rs
@@ -4,6 +4,15 @@ use crate::{
     tensor::Tensor,
 };
 
+/// Counts a negative axis from the end and refuses one that names no axis.
+pub fn normalize_axis(axis: i32, ndim: usize) -> HoduResult<usize> {
+    let normalized = if axis < 0 { axis as i64 + ndim as i64 } else { axis as i64 };
+    if normalized < 0 || normalized >= ndim as i64 {
+        return Err(HoduError::InvalidAxis { axis, ndim });
+    }
+    Ok(normalized as usize)
+}
+
 pub fn broadcast_tensors2(a: &Tensor, b: &Tensor) -> HoduResult<(Tensor, Tensor)> {
     // Avoid cloning shapes by extracting only what we need
     let (a_dims, a_ndim, b_dims, b_ndim) = {
-- 
2.43.0


From e1439f6b2792c11c78a7e10e221290c67d0e8280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 26/55] fix: scatter_max/min compare low-precision floats by
 value; add f64 scatter_add/max/min

---
 .../hodu_cpu_kernels/kernels/ops_indexing.c   | 68 +++++++++++--------
 .../hodu_cpu_kernels/kernels/ops_indexing.h   |  6 ++
 .../src/kernels/ops_indexing.rs               |  2 +
 3 files changed, 46 insertions(+), 30 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_indexing.c b/crates/hodu_cpu_kernels/kernels/ops_indexing.c
index 7eb6f4d..3ae8315 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_indexing.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_indexing.c
@@ -625,6 +625,7 @@ SCATTER_ADD_OP_EXOTIC(f8e5m2_t, scatter_add_f8e5m2, f8e5m2_add)
 SCATTER_ADD_OP_EXOTIC(bf16_t, scatter_add_bf16, bf16_add)
 SCATTER_ADD_OP_EXOTIC(f16_t, scatter_add_f16, f16_add)
 SCATTER_ADD_OP(float, scatter_add_f32)
+SCATTER_ADD_OP(double, scatter_add_f64)
 SCATTER_ADD_OP(int8_t, scatter_add_i8)
 SCATTER_ADD_OP(int16_t, scatter_add_i16)
 SCATTER_ADD_OP(int32_t, scatter_add_i32)
@@ -644,11 +645,15 @@ SCATTER_ADD_OP(uint64_t, scatter_add_u64)
 // Algorithm:
 // Same as scatter but compares and keeps the maximum value.
 
+#define NATIVE_GT(a, b) ((a) > (b))
+#define NATIVE_LT(a, b) ((a) < (b))
+
 /// Macro to implement scatter_max operation (maximum mode)
 ///
 /// @param TYPENAME C type for the operation
 /// @param FN_NAME Function name
-#define SCATTER_MAX_OP(TYPENAME, FN_NAME)                                                          \
+/// @param IS_GT Comparison of two values of the type
+#define SCATTER_MAX_OP(TYPENAME, FN_NAME, IS_GT)                                                   \
     void hodu_cpu_##FN_NAME(const void *input_ptr, const int32_t *indices, const void *src_ptr,    \
                             void *output_ptr, const size_t *metadata) {                            \
         const TYPENAME *input = (const TYPENAME *)input_ptr;                                       \
@@ -731,25 +736,26 @@ SCATTER_ADD_OP(uint64_t, scatter_add_u64)
             }                                                                                      \
                                                                                                    \
             TYPENAME src_val = src[src_flat_idx];                                                  \
-            if (src_val > output[output_flat_idx]) {                                               \
+            if (IS_GT(src_val, output[output_flat_idx])) {                                         \
                 output[output_flat_idx] = src_val;                                                 \
             }                                                                                      \
         }                                                                                          \
     }
 
-SCATTER_MAX_OP(f8e4m3_t, scatter_max_f8e4m3)
-SCATTER_MAX_OP(f8e5m2_t, scatter_max_f8e5m2)
-SCATTER_MAX_OP(bf16_t, scatter_max_bf16)
-SCATTER_MAX_OP(f16_t, scatter_max_f16)
-SCATTER_MAX_OP(float, scatter_max_f32)
-SCATTER_MAX_OP(int8_t, scatter_max_i8)
-SCATTER_MAX_OP(int16_t, scatter_max_i16)
-SCATTER_MAX_OP(int32_t, scatter_max_i32)
-SCATTER_MAX_OP(int64_t, scatter_max_i64)
-SCATTER_MAX_OP(uint8_t, scatter_max_u8)
-SCATTER_MAX_OP(uint16_t, scatter_max_u16)
-SCATTER_MAX_OP(uint32_t, scatter_max_u32)
-SCATTER_MAX_OP(uint64_t, scatter_max_u64)
+SCATTER_MAX_OP(f8e4m3_t, scatter_max_f8e4m3, f8e4m3_gt)
+SCATTER_MAX_OP(f8e5m2_t, scatter_max_f8e5m2, f8e5m2_gt)
+SCATTER_MAX_OP(bf16_t, scatter_max_bf16, bf16_gt)
+SCATTER_MAX_OP(f16_t, scatter_max_f16, f16_gt)
+SCATTER_MAX_OP(float, scatter_max_f32, NATIVE_GT)
+SCATTER_MAX_OP(double, scatter_max_f64, NATIVE_GT)
+SCATTER_MAX_OP(int8_t, scatter_max_i8, NATIVE_GT)
+SCATTER_MAX_OP(int16_t, scatter_max_i16, NATIVE_GT)
+SCATTER_MAX_OP(int32_t, scatter_max_i32, NATIVE_GT)
+SCATTER_MAX_OP(int64_t, scatter_max_i64, NATIVE_GT)
+SCATTER_MAX_OP(uint8_t, scatter_max_u8, NATIVE_GT)
+SCATTER_MAX_OP(uint16_t, scatter_max_u16, NATIVE_GT)
+SCATTER_MAX_OP(uint32_t, scatter_max_u32, NATIVE_GT)
+SCATTER_MAX_OP(uint64_t, scatter_max_u64, NATIVE_GT)
 
 // ============================================================================
 // SCATTER MIN OPERATIONS
@@ -765,7 +771,8 @@ SCATTER_MAX_OP(uint64_t, scatter_max_u64)
 ///
 /// @param TYPENAME C type for the operation
 /// @param FN_NAME Function name
-#define SCATTER_MIN_OP(TYPENAME, FN_NAME)                                                          \
+/// @param IS_LT Comparison of two values of the type
+#define SCATTER_MIN_OP(TYPENAME, FN_NAME, IS_LT)                                                   \
     void hodu_cpu_##FN_NAME(const void *input_ptr, const int32_t *indices, const void *src_ptr,    \
                             void *output_ptr, const size_t *metadata) {                            \
         const TYPENAME *input = (const TYPENAME *)input_ptr;                                       \
@@ -848,25 +855,26 @@ SCATTER_MAX_OP(uint64_t, scatter_max_u64)
             }                                                                                      \
                                                                                                    \
             TYPENAME src_val = src[src_flat_idx];                                                  \
-            if (src_val < output[output_flat_idx]) {                                               \
+            if (IS_LT(src_val, output[output_flat_idx])) {                                         \
                 output[output_flat_idx] = src_val;                                                 \
             }                                                                                      \
         }                                                                                          \
     }
 
-SCATTER_MIN_OP(f8e4m3_t, scatter_min_f8e4m3)
-SCATTER_MIN_OP(f8e5m2_t, scatter_min_f8e5m2)
-SCATTER_MIN_OP(bf16_t, scatter_min_bf16)
-SCATTER_MIN_OP(f16_t, scatter_min_f16)
-SCATTER_MIN_OP(float, scatter_min_f32)
-SCATTER_MIN_OP(int8_t, scatter_min_i8)
-SCATTER_MIN_OP(int16_t, scatter_min_i16)
-SCATTER_MIN_OP(int32_t, scatter_min_i32)
-SCATTER_MIN_OP(int64_t, scatter_min_i64)
-SCATTER_MIN_OP(uint8_t, scatter_min_u8)
-SCATTER_MIN_OP(uint16_t, scatter_min_u16)
-SCATTER_MIN_OP(uint32_t, scatter_min_u32)
-SCATTER_MIN_OP(uint64_t, scatter_min_u64)
+SCATTER_MIN_OP(f8e4m3_t, scatter_min_f8e4m3, f8e4m3_lt)
+SCATTER_MIN_OP(f8e5m2_t, scatter_min_f8e5m2, f8e5m2_lt)
+SCATTER_MIN_OP(bf16_t, scatter_min_bf16, bf16_lt)
+SCATTER_MIN_OP(f16_t, scatter_min_f16, f16_lt)
+SCATTER_MIN_OP(float, scatter_min_f32, NATIVE_LT)
+SCATTER_MIN_OP(double, scatter_min_f64, NATIVE_LT)
+SCATTER_MIN_OP(int8_t, scatter_min_i8, NATIVE_LT)
+SCATTER_MIN_OP(int16_t, scatter_min_i16, NATIVE_LT)
+SCATTER_MIN_OP(int32_t, scatter_min_i32, NATIVE_LT)
+SCATTER_MIN_OP(int64_t, scatter_min_i64, NATIVE_LT)
+SCATTER_MIN_OP(uint8_t, scatter_min_u8, NATIVE_LT)
+SCATTER_MIN_OP(uint16_t, scatter_min_u16, NATIVE_LT)
+SCATTER_MIN_OP(uint32_t, scatter_min_u32, NATIVE_LT)
+SCATTER_MIN_OP(uint64_t, scatter_min_u64, NATIVE_LT)
 
 // ============================================================================
 // ONEHOT OPERATIONS
diff --git a/crates/hodu_cpu_kernels/kernels/ops_indexing.h b/crates/hodu_cpu_kernels/kernels/ops_indexing.h
index 50f7434..627cdd4 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_indexing.h
+++ b/crates/hodu_cpu_kernels/kernels/ops_indexing.h
@@ -276,6 +276,8 @@ void hodu_cpu_scatter_add_f16(const void *input, const int32_t *indices, const v
                               void *output, const size_t *metadata);
 void hodu_cpu_scatter_add_f32(const void *input, const int32_t *indices, const void *src,
                               void *output, const size_t *metadata);
+void hodu_cpu_scatter_add_f64(const void *input, const int32_t *indices, const void *src,
+                              void *output, const size_t *metadata);
 void hodu_cpu_scatter_add_i8(const void *input, const int32_t *indices, const void *src,
                              void *output, const size_t *metadata);
 void hodu_cpu_scatter_add_i16(const void *input, const int32_t *indices, const void *src,
@@ -312,6 +314,8 @@ void hodu_cpu_scatter_max_f16(const void *input, const int32_t *indices, const v
                               void *output, const size_t *metadata);
 void hodu_cpu_scatter_max_f32(const void *input, const int32_t *indices, const void *src,
                               void *output, const size_t *metadata);
+void hodu_cpu_scatter_max_f64(const void *input, const int32_t *indices, const void *src,
+                              void *output, const size_t *metadata);
 void hodu_cpu_scatter_max_i8(const void *input, const int32_t *indices, const void *src,
                              void *output, const size_t *metadata);
 void hodu_cpu_scatter_max_i16(const void *input, const int32_t *indices, const void *src,
@@ -348,6 +352,8 @@ void hodu_cpu_scatter_min_f16(const void *input, const int32_t *indices, const v
                               void *output, const size_t *metadata);
 void hodu_cpu_scatter_min_f32(const void *input, const int32_t *indices, const void *src,
                               void *output, const size_t *metadata);
+void hodu_cpu_scatter_min_f64(const void *input, const int32_t *indices, const void *src,
+                              void *output, const size_t *metadata);
 void hodu_cpu_scatter_min_i8(const void *input, const int32_t *indices, const void *src,
                              void *output, const size_t *metadata);
 void hodu_cpu_scatter_min_i16(const void *input, const int32_t *indices, const void *src,
diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_indexing.rs b/crates/hodu_cpu_kernels/src/kernels/ops_indexing.rs
index dafd067..8e4d86a 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_indexing.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_indexing.rs
@@ -256,6 +256,7 @@ macro_rules! declare_and_dispatch_scatter_add {
                 fn [<hodu_cpu_ $op_name _bf16>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _f16>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _f32>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
+                fn [<hodu_cpu_ $op_name _f64>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _i8>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _i16>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _i32>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
@@ -280,6 +281,7 @@ macro_rules! declare_and_dispatch_scatter_add {
                     concat!("hodu_cpu_", stringify!($op_name), "_bf16") => [<hodu_cpu_ $op_name _bf16>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_f16") => [<hodu_cpu_ $op_name _f16>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_f32") => [<hodu_cpu_ $op_name _f32>](input, indices, src, output, metadata),
+                    concat!("hodu_cpu_", stringify!($op_name), "_f64") => [<hodu_cpu_ $op_name _f64>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_i8") => [<hodu_cpu_ $op_name _i8>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_i16") => [<hodu_cpu_ $op_name _i16>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_i32") => [<hodu_cpu_ $op_name _i32>](input, indices, src, output, metadata),
-- 
2.43.0


From 08fb2b1d05fa311476891ec99eaae116c91222b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 27/55] fix: scatter_add/max/min run their own kernel;
 index_put, gather and scatter refuse shapes that address missing elements

---
 .../src/be_cpu/storage/ops_indexing.rs        | 52 +++++++++++++++----
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs b/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
index 14f0b46..8597642 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
@@ -186,9 +186,21 @@ pub fn call_ops_index_put(
 
     let output_shape = input_shape.clone();
     let num_els = output_shape.size();
+    let num_indices = indices_layout.shape().size();
+
+    // Values have the input's extents, with one slice per index along the axis
+    let values_shape = values_layout.shape();
+    if values_shape.ndim() != ndim
+        || (0..ndim).any(|d| values_shape[d] != if d == dim { num_indices } else { input_shape[d] })
+    {
+        return Err(HoduError::incompatible_shapes(
+            input_shape.clone(),
+            values_shape.clone(),
+            op,
+        ));
+    }
 
     // Generate metadata using centralized function
-    let num_indices = indices_layout.shape().size();
     let metadata = crate::op_metadatas::index_put_metadata(layout, values_layout, dim, num_indices, num_els);
 
     // Generate kernel name
@@ -197,8 +209,8 @@ pub fn call_ops_index_put(
     let kernel_name_static = crate::cache::kernel::get_kernel_name(kernel_name);
     let kernel = hodu_cpu_kernels::macros::Kernel(kernel_name_static);
 
-    // Create output storage (copy of input)
-    let mut output = storage.clone();
+    // Create output storage; the kernel writes every element of it
+    let mut output = CpuDevice::allocate(layout.size(), dtype)?;
 
     // Get raw pointers and call kernel
     macro_rules! call_kernel {
@@ -323,6 +335,15 @@ pub fn call_ops_gather(
         return Err(HoduError::InvalidAxis { axis: dim as i32, ndim });
     }
 
+    // Every coordinate of the indices must exist in the input on the axes it does not select
+    if indices_shape.ndim() != ndim || (0..ndim).any(|d| d != dim && indices_shape[d] > input_shape[d]) {
+        return Err(HoduError::incompatible_shapes(
+            input_shape.clone(),
+            indices_shape.clone(),
+            op,
+        ));
+    }
+
     // Output shape is same as indices shape
     let output_shape = indices_shape.clone();
     let num_els = output_shape.size();
@@ -422,10 +443,10 @@ pub fn call_ops_scatter(
     };
 
     // Validate op
-    match op {
+    let op_name = match op {
         Op::Indexing(
-            IndexingOp::Scatter | IndexingOp::ScatterAdd | IndexingOp::ScatterMax | IndexingOp::ScatterMin,
-        ) => (),
+            inner @ (IndexingOp::Scatter | IndexingOp::ScatterAdd | IndexingOp::ScatterMax | IndexingOp::ScatterMin),
+        ) => inner,
         _ => {
             return Err(HoduError::BackendError(
                 "Lcall_scatterE expects scatter-type op".to_string(),
@@ -449,17 +470,30 @@ pub fn call_ops_scatter(
         });
     }
 
+    // Every source element needs an index and a place in the input on the axes it does not select
+    let (indices_shape, src_shape) = (indices_layout.shape(), src_layout.shape());
+    if indices_shape.ndim() != ndim
+        || src_shape.ndim() != ndim
+        || (0..ndim).any(|d| src_shape[d] > indices_shape[d] || (d != dim && src_shape[d] > input_shape[d]))
+    {
+        return Err(HoduError::incompatible_shapes(
+            indices_shape.clone(),
+            src_shape.clone(),
+            op,
+        ));
+    }
+
     // Generate metadata using centralized function
     let metadata = crate::op_metadatas::scatter_metadata(layout, indices_layout, src_layout, dim);
 
     // Generate kernel name
     let dtype = storage.dtype();
-    let kernel_name = format!("hodu_cpu_scatter_{}", dtype);
+    let kernel_name = format!("hodu_cpu_{}_{}", op_name, dtype);
     let kernel_name_static = crate::cache::kernel::get_kernel_name(kernel_name);
     let kernel = hodu_cpu_kernels::macros::Kernel(kernel_name_static);
 
-    // Create output storage (copy of input)
-    let mut output = storage.clone();
+    // Create output storage; the kernel writes every element of it
+    let mut output = CpuDevice::allocate(layout.size(), dtype)?;
 
     // Get raw pointers and call kernel
     macro_rules! call_kernel {
-- 
2.43.0


From 124188363b585beb230f5ca26364ed71499e723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 28/55] fix: argmax/argmin/any/all run on f64 and rank-0
 tensors, any/all see negative zero as zero

---
 crates/hodu_cpu_kernels/kernels/ops_reduce.c  | 87 ++++++++++---------
 .../src/kernels/ops_reduce.rs                 |  4 +
 2 files changed, 52 insertions(+), 39 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_reduce.c b/crates/hodu_cpu_kernels/kernels/ops_reduce.c
index 1354989..6d4f839 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_reduce.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_reduce.c
@@ -2264,7 +2264,8 @@ REDUCE_LOGSUMEXP_OP(f64_t, f64, -DBL_MAX)
                     temp_reduced /= dims[dim];                                                     \
                 }                                                                                  \
                                                                                                    \
-                size_t actual_dim_idx = input_indices[reduce_dims[0]];                             \
+                size_t actual_dim_idx =                                                            \
+                    (num_reduce_dims > 0) ? input_indices[reduce_dims[0]] : 0;                     \
                                                                                                    \
                 size_t flat_index = offset;                                                        \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
@@ -2357,7 +2358,8 @@ REDUCE_LOGSUMEXP_OP(f64_t, f64, -DBL_MAX)
                     temp_reduced /= dims[dim];                                                     \
                 }                                                                                  \
                                                                                                    \
-                size_t actual_dim_idx = input_indices[reduce_dims[0]];                             \
+                size_t actual_dim_idx =                                                            \
+                    (num_reduce_dims > 0) ? input_indices[reduce_dims[0]] : 0;                     \
                                                                                                    \
                 size_t flat_index = offset;                                                        \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
@@ -2458,7 +2460,8 @@ REDUCE_LOGSUMEXP_OP(f64_t, f64, -DBL_MAX)
                     temp_reduced /= dims[dim];                                                     \
                 }                                                                                  \
                                                                                                    \
-                size_t actual_dim_idx = input_indices[reduce_dims[0]];                             \
+                size_t actual_dim_idx =                                                            \
+                    (num_reduce_dims > 0) ? input_indices[reduce_dims[0]] : 0;                     \
                                                                                                    \
                 size_t flat_index = offset;                                                        \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
@@ -2551,7 +2554,8 @@ REDUCE_LOGSUMEXP_OP(f64_t, f64, -DBL_MAX)
                     temp_reduced /= dims[dim];                                                     \
                 }                                                                                  \
                                                                                                    \
-                size_t actual_dim_idx = input_indices[reduce_dims[0]];                             \
+                size_t actual_dim_idx =                                                            \
+                    (num_reduce_dims > 0) ? input_indices[reduce_dims[0]] : 0;                     \
                                                                                                    \
                 size_t flat_index = offset;                                                        \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
@@ -2612,12 +2616,16 @@ REDUCE_ARGMIN_OP(uint64_t, u64)
 // Metadata layout: Same as generic reduction operations
 
 #define IS_NONZERO(val) ((val) != 0)
+// Low-precision floats are stored as bit patterns: both zeros (sign bit aside) are zero
+#define IS_NONZERO_FP8(val) (((val) & 0x7F) != 0)
+#define IS_NONZERO_FP16(val) (((val) & 0x7FFF) != 0)
 
 /// Macro to implement any reduction (logical OR, returns bool)
 ///
 /// @param IN_TYPE Input C type
 /// @param TYPE_SUFFIX Suffix for function naming
-#define REDUCE_ANY_OP(IN_TYPE, TYPE_SUFFIX)                                                        \
+/// @param NONZERO_FN Macro telling whether a stored value is non-zero
+#define REDUCE_ANY_OP(IN_TYPE, TYPE_SUFFIX, NONZERO_FN)                                            \
     void hodu_cpu_any_##TYPE_SUFFIX(const void *input_ptr, void *output_ptr,                       \
                                     const size_t *metadata) {                                      \
         const IN_TYPE *input = (const IN_TYPE *)input_ptr;                                         \
@@ -2689,7 +2697,7 @@ REDUCE_ARGMIN_OP(uint64_t, u64)
                     flat_index += input_indices[i] * strides[i];                                   \
                 }                                                                                  \
                                                                                                    \
-                if (IS_NONZERO(input[flat_index])) {                                               \
+                if (NONZERO_FN(input[flat_index])) {                                               \
                     result = true;                                                                 \
                     break;                                                                         \
                 }                                                                                  \
@@ -2712,7 +2720,8 @@ REDUCE_ARGMIN_OP(uint64_t, u64)
 ///
 /// @param IN_TYPE Input C type
 /// @param TYPE_SUFFIX Suffix for function naming
-#define REDUCE_ALL_OP(IN_TYPE, TYPE_SUFFIX)                                                        \
+/// @param NONZERO_FN Macro telling whether a stored value is non-zero
+#define REDUCE_ALL_OP(IN_TYPE, TYPE_SUFFIX, NONZERO_FN)                                            \
     void hodu_cpu_all_##TYPE_SUFFIX(const void *input_ptr, void *output_ptr,                       \
                                     const size_t *metadata) {                                      \
         const IN_TYPE *input = (const IN_TYPE *)input_ptr;                                         \
@@ -2784,7 +2793,7 @@ REDUCE_ARGMIN_OP(uint64_t, u64)
                     flat_index += input_indices[i] * strides[i];                                   \
                 }                                                                                  \
                                                                                                    \
-                if (!IS_NONZERO(input[flat_index])) {                                              \
+                if (!NONZERO_FN(input[flat_index])) {                                              \
                     result = false;                                                                \
                     break;                                                                         \
                 }                                                                                  \
@@ -2794,34 +2803,34 @@ REDUCE_ARGMIN_OP(uint64_t, u64)
         }                                                                                          \
     }
 
-REDUCE_ANY_OP(bool, bool)
-REDUCE_ANY_OP(f8e4m3_t, f8e4m3)
-REDUCE_ANY_OP(f8e5m2_t, f8e5m2)
-REDUCE_ANY_OP(bf16_t, bf16)
-REDUCE_ANY_OP(f16_t, f16)
-REDUCE_ANY_OP(f32_t, f32)
-REDUCE_ANY_OP(f64_t, f64)
-REDUCE_ANY_OP(int8_t, i8)
-REDUCE_ANY_OP(int16_t, i16)
-REDUCE_ANY_OP(int32_t, i32)
-REDUCE_ANY_OP(int64_t, i64)
-REDUCE_ANY_OP(uint8_t, u8)
-REDUCE_ANY_OP(uint16_t, u16)
-REDUCE_ANY_OP(uint32_t, u32)
-REDUCE_ANY_OP(uint64_t, u64)
-
-REDUCE_ALL_OP(bool, bool)
-REDUCE_ALL_OP(f8e4m3_t, f8e4m3)
-REDUCE_ALL_OP(f8e5m2_t, f8e5m2)
-REDUCE_ALL_OP(bf16_t, bf16)
-REDUCE_ALL_OP(f16_t, f16)
-REDUCE_ALL_OP(f32_t, f32)
-REDUCE_ALL_OP(f64_t, f64)
-REDUCE_ALL_OP(int8_t, i8)
-REDUCE_ALL_OP(int16_t, i16)
-REDUCE_ALL_OP(int32_t, i32)
-REDUCE_ALL_OP(int64_t, i64)
-REDUCE_ALL_OP(uint8_t, u8)
-REDUCE_ALL_OP(uint16_t, u16)
-REDUCE_ALL_OP(uint32_t, u32)
-REDUCE_ALL_OP(uint64_t, u64)
+REDUCE_ANY_OP(bool, bool, IS_NONZERO)
+REDUCE_ANY_OP(f8e4m3_t, f8e4m3, IS_NONZERO_FP8)
+REDUCE_ANY_OP(f8e5m2_t, f8e5m2, IS_NONZERO_FP8)
+REDUCE_ANY_OP(bf16_t, bf16, IS_NONZERO_FP16)
+REDUCE_ANY_OP(f16_t, f16, IS_NONZERO_FP16)
+REDUCE_ANY_OP(f32_t, f32, IS_NONZERO)
+REDUCE_ANY_OP(f64_t, f64, IS_NONZERO)
+REDUCE_ANY_OP(int8_t, i8, IS_NONZERO)
+REDUCE_ANY_OP(int16_t, i16, IS_NONZERO)
+REDUCE_ANY_OP(int32_t, i32, IS_NONZERO)
+REDUCE_ANY_OP(int64_t, i64, IS_NONZERO)
+REDUCE_ANY_OP(uint8_t, u8, IS_NONZERO)
+REDUCE_ANY_OP(uint16_t, u16, IS_NONZERO)
+REDUCE_ANY_OP(uint32_t, u32, IS_NONZERO)
+REDUCE_ANY_OP(uint64_t, u64, IS_NONZERO)
+
+REDUCE_ALL_OP(bool, bool, IS_NONZERO)
+REDUCE_ALL_OP(f8e4m3_t, f8e4m3, IS_NONZERO_FP8)
+REDUCE_ALL_OP(f8e5m2_t, f8e5m2, IS_NONZERO_FP8)
+REDUCE_ALL_OP(bf16_t, bf16, IS_NONZERO_FP16)
+REDUCE_ALL_OP(f16_t, f16, IS_NONZERO_FP16)
+REDUCE_ALL_OP(f32_t, f32, IS_NONZERO)
+REDUCE_ALL_OP(f64_t, f64, IS_NONZERO)
+REDUCE_ALL_OP(int8_t, i8, IS_NONZERO)
+REDUCE_ALL_OP(int16_t, i16, IS_NONZERO)
+REDUCE_ALL_OP(int32_t, i32, IS_NONZERO)
+REDUCE_ALL_OP(int64_t, i64, IS_NONZERO)
+REDUCE_ALL_OP(uint8_t, u8, IS_NONZERO)
+REDUCE_ALL_OP(uint16_t, u16, IS_NONZERO)
+REDUCE_ALL_OP(uint32_t, u32, IS_NONZERO)
+REDUCE_ALL_OP(uint64_t, u64, IS_NONZERO)
diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_reduce.rs b/crates/hodu_cpu_kernels/src/kernels/ops_reduce.rs
index 47c8e89..aa7a1e3 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_reduce.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_reduce.rs
@@ -327,6 +327,7 @@ unsafe fn dispatch_reduce(name: &str, input: *const c_void, output: *mut c_void,
             | "hodu_cpu_argmax_bf16"
             | "hodu_cpu_argmax_f16"
             | "hodu_cpu_argmax_f32"
+            | "hodu_cpu_argmax_f64"
             | "hodu_cpu_argmax_i8"
             | "hodu_cpu_argmax_i16"
             | "hodu_cpu_argmax_i32"
@@ -341,6 +342,7 @@ unsafe fn dispatch_reduce(name: &str, input: *const c_void, output: *mut c_void,
             | "hodu_cpu_argmin_bf16"
             | "hodu_cpu_argmin_f16"
             | "hodu_cpu_argmin_f32"
+            | "hodu_cpu_argmin_f64"
             | "hodu_cpu_argmin_i8"
             | "hodu_cpu_argmin_i16"
             | "hodu_cpu_argmin_i32"
@@ -355,6 +357,7 @@ unsafe fn dispatch_reduce(name: &str, input: *const c_void, output: *mut c_void,
             | "hodu_cpu_any_bf16"
             | "hodu_cpu_any_f16"
             | "hodu_cpu_any_f32"
+            | "hodu_cpu_any_f64"
             | "hodu_cpu_any_i8"
             | "hodu_cpu_any_i16"
             | "hodu_cpu_any_i32"
@@ -369,6 +372,7 @@ unsafe fn dispatch_reduce(name: &str, input: *const c_void, output: *mut c_void,
             | "hodu_cpu_all_bf16"
             | "hodu_cpu_all_f16"
             | "hodu_cpu_all_f32"
+            | "hodu_cpu_all_f64"
             | "hodu_cpu_all_i8"
             | "hodu_cpu_all_i16"
             | "hodu_cpu_all_i32"
-- 
2.43.0


From 83e796f5375e37435b82a8eac799668295cfdd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 29/55] fix: conv2d and its weight gradient multiply the im2col
 buffer in the order it was written (OpenBLAS)

---
 .../ops_conv_blas_aarch64_apple_darwin.c      | 32 +++++++++----------
 .../kernels/ops_conv_openblas.c               | 32 +++++++++----------
 2 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_conv_blas_aarch64_apple_darwin.c b/crates/hodu_cpu_kernels/kernels/ops_conv_blas_aarch64_apple_darwin.c
index bd0afb8..ef9ad78 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_conv_blas_aarch64_apple_darwin.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_conv_blas_aarch64_apple_darwin.c
@@ -110,7 +110,7 @@ void hodu_cpu_conv2d_f32(const void *input_ptr, const void *weight_ptr, void *ou
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K]
     float *col_buffer = (float *)malloc(K * N * sizeof(float));
     if (!col_buffer) {
         // Fallback to naive implementation if allocation fails
@@ -126,12 +126,12 @@ void hodu_cpu_conv2d_f32(const void *input_ptr, const void *weight_ptr, void *ou
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: output = weight × col_buffer
+        // GEMM: output = weight × col_buffer^T
         float *batch_output = output + b * out_channels * out_height * out_width;
         const float *batch_weight = weight + weight_offset;
 
-        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, N, K, 1.0f, batch_weight, K,
-                    col_buffer, N, 0.0f, batch_output, N);
+        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, N, K, 1.0f, batch_weight, K,
+                    col_buffer, K, 0.0f, batch_output, N);
     }
 
     free(col_buffer);
@@ -167,7 +167,7 @@ void hodu_cpu_conv2d_f64(const void *input_ptr, const void *weight_ptr, void *ou
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K]
     double *col_buffer = (double *)malloc(K * N * sizeof(double));
     if (!col_buffer) {
         // Fallback to naive implementation if allocation fails
@@ -183,12 +183,12 @@ void hodu_cpu_conv2d_f64(const void *input_ptr, const void *weight_ptr, void *ou
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: output = weight × col_buffer
+        // GEMM: output = weight × col_buffer^T
         double *batch_output = output + b * out_channels * out_height * out_width;
         const double *batch_weight = weight + weight_offset;
 
-        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, N, K, 1.0, batch_weight, K,
-                    col_buffer, N, 0.0, batch_output, N);
+        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, N, K, 1.0, batch_weight, K,
+                    col_buffer, K, 0.0, batch_output, N);
     }
 
     free(col_buffer);
@@ -254,7 +254,7 @@ void hodu_cpu_conv2d_grad_weight_f32(const void *input_ptr, const void *grad_out
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K]
     float *col_buffer = (float *)malloc(K * N * sizeof(float));
     if (!col_buffer) {
         hodu_cpu_conv2d_grad_weight_f32_fallback(input_ptr, grad_output_ptr, grad_weight_ptr,
@@ -270,12 +270,12 @@ void hodu_cpu_conv2d_grad_weight_f32(const void *input_ptr, const void *grad_out
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: grad_weight += grad_output × col_buffer^T
+        // GEMM: grad_weight += grad_output × col_buffer
         const float *batch_grad_output =
             grad_output + grad_output_offset + b * out_channels * out_height * out_width;
 
-        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, K, N, 1.0f, batch_grad_output, N,
-                    col_buffer, N, 1.0f, grad_weight, K);
+        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, K, N, 1.0f, batch_grad_output, N,
+                    col_buffer, K, 1.0f, grad_weight, K);
     }
 
     free(col_buffer);
@@ -341,7 +341,7 @@ void hodu_cpu_conv2d_grad_weight_f64(const void *input_ptr, const void *grad_out
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K]
     double *col_buffer = (double *)malloc(K * N * sizeof(double));
     if (!col_buffer) {
         hodu_cpu_conv2d_grad_weight_f64_fallback(input_ptr, grad_output_ptr, grad_weight_ptr,
@@ -357,12 +357,12 @@ void hodu_cpu_conv2d_grad_weight_f64(const void *input_ptr, const void *grad_out
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: grad_weight += grad_output × col_buffer^T
+        // GEMM: grad_weight += grad_output × col_buffer
         const double *batch_grad_output =
             grad_output + grad_output_offset + b * out_channels * out_height * out_width;
 
-        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, K, N, 1.0, batch_grad_output, N,
-                    col_buffer, N, 1.0, grad_weight, K);
+        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, K, N, 1.0, batch_grad_output, N,
+                    col_buffer, K, 1.0, grad_weight, K);
     }
 
     free(col_buffer);
diff --git a/crates/hodu_cpu_kernels/kernels/ops_conv_openblas.c b/crates/hodu_cpu_kernels/kernels/ops_conv_openblas.c
index 6c10fad..1301dde 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_conv_openblas.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_conv_openblas.c
@@ -110,7 +110,7 @@ void hodu_cpu_conv2d_f32(const void *input_ptr, const void *weight_ptr, void *ou
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K]
     float *col_buffer = (float *)malloc(K * N * sizeof(float));
     if (!col_buffer) {
         // Fallback to naive implementation if allocation fails
@@ -126,12 +126,12 @@ void hodu_cpu_conv2d_f32(const void *input_ptr, const void *weight_ptr, void *ou
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: output = weight × col_buffer
+        // GEMM: output = weight × col_buffer^T
         float *batch_output = output + b * out_channels * out_height * out_width;
         const float *batch_weight = weight + weight_offset;
 
-        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, N, K, 1.0f, batch_weight, K,
-                    col_buffer, N, 0.0f, batch_output, N);
+        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, N, K, 1.0f, batch_weight, K,
+                    col_buffer, K, 0.0f, batch_output, N);
     }
 
     free(col_buffer);
@@ -167,7 +167,7 @@ void hodu_cpu_conv2d_f64(const void *input_ptr, const void *weight_ptr, void *ou
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K]
     double *col_buffer = (double *)malloc(K * N * sizeof(double));
     if (!col_buffer) {
         // Fallback to naive implementation if allocation fails
@@ -183,12 +183,12 @@ void hodu_cpu_conv2d_f64(const void *input_ptr, const void *weight_ptr, void *ou
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: output = weight × col_buffer
+        // GEMM: output = weight × col_buffer^T
         double *batch_output = output + b * out_channels * out_height * out_width;
         const double *batch_weight = weight + weight_offset;
 
-        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, N, K, 1.0, batch_weight, K,
-                    col_buffer, N, 0.0, batch_output, N);
+        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, N, K, 1.0, batch_weight, K,
+                    col_buffer, K, 0.0, batch_output, N);
     }
 
     free(col_buffer);
@@ -254,7 +254,7 @@ void hodu_cpu_conv2d_grad_weight_f32(const void *input_ptr, const void *grad_out
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K]
     float *col_buffer = (float *)malloc(K * N * sizeof(float));
     if (!col_buffer) {
         hodu_cpu_conv2d_grad_weight_f32_fallback(input_ptr, grad_output_ptr, grad_weight_ptr,
@@ -270,12 +270,12 @@ void hodu_cpu_conv2d_grad_weight_f32(const void *input_ptr, const void *grad_out
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: grad_weight += grad_output × col_buffer^T
+        // GEMM: grad_weight += grad_output × col_buffer
         const float *batch_grad_output =
             grad_output + grad_output_offset + b * out_channels * out_height * out_width;
 
-        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, K, N, 1.0f, batch_grad_output, N,
-                    col_buffer, N, 1.0f, grad_weight, K);
+        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, K, N, 1.0f, batch_grad_output, N,
+                    col_buffer, K, 1.0f, grad_weight, K);
     }
 
     free(col_buffer);
@@ -341,7 +341,7 @@ void hodu_cpu_conv2d_grad_weight_f64(const void *input_ptr, const void *grad_out
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K]
     double *col_buffer = (double *)malloc(K * N * sizeof(double));
     if (!col_buffer) {
         hodu_cpu_conv2d_grad_weight_f64_fallback(input_ptr, grad_output_ptr, grad_weight_ptr,
@@ -357,12 +357,12 @@ void hodu_cpu_conv2d_grad_weight_f64(const void *input_ptr, const void *grad_out
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: grad_weight += grad_output × col_buffer^T
+        // GEMM: grad_weight += grad_output × col_buffer
         const double *batch_grad_output =
             grad_output + grad_output_offset + b * out_channels * out_height * out_width;
 
-        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, K, N, 1.0, batch_grad_output, N,
-                    col_buffer, N, 1.0, grad_weight, K);
+        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, K, N, 1.0, batch_grad_output, N,
+                    col_buffer, K, 1.0, grad_weight, K);
     }
 
     free(col_buffer);
-- 
2.43.0


From 671ad240a6e2707a5b04a16257a3f7c26c0a0944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 30/55] fix: transposed convolutions take [in, out, kernel]
 weights as the kernels and modules do and honour output padding; convolutions
 read strided operands and refuse impossible sizes

---
 crates/hodu_core/src/be/storage.rs            |  5 +
 crates/hodu_core/src/be_cpu/storage.rs        |  2 +
 .../hodu_core/src/be_cpu/storage/ops_conv.rs  | 79 +++++++++++++---
 crates/hodu_core/src/be_cuda/storage.rs       |  1 +
 crates/hodu_core/src/be_metal/storage.rs      |  1 +
 .../hodu_core/src/tensor/gradient/vjp_conv.rs | 21 ++---
 crates/hodu_core/src/tensor/ops/conv.rs       | 91 ++++++++++++++-----
 7 files changed, 153 insertions(+), 47 deletions(-)

diff --git a/crates/hodu_core/src/be/storage.rs b/crates/hodu_core/src/be/storage.rs
index b469a4f..6283237 100644
--- a/crates/hodu_core/src/be/storage.rs
+++ b/crates/hodu_core/src/be/storage.rs
@@ -116,6 +116,7 @@ pub trait BackendStorageT: Sized {
         _: &[usize],
         _: &[usize],
         _: &[usize],
+        _: &[usize],
         _: Op,
     ) -> HoduResult<Self>;
 
@@ -1033,6 +1034,7 @@ impl BackendStorage {
         weight_layout: &Layout,
         stride: &[usize],
         padding: &[usize],
+        output_padding: &[usize],
         dilation: &[usize],
         op: Op,
     ) -> HoduResult<Self> {
@@ -1053,6 +1055,7 @@ impl BackendStorage {
                 weight_layout,
                 stride,
                 padding,
+                output_padding,
                 dilation,
                 op,
             )?)),
@@ -1063,6 +1066,7 @@ impl BackendStorage {
                 weight_layout,
                 stride,
                 padding,
+                output_padding,
                 dilation,
                 op,
             )?)),
@@ -1073,6 +1077,7 @@ impl BackendStorage {
                 weight_layout,
                 stride,
                 padding,
+                output_padding,
                 dilation,
                 op,
             )?)),
diff --git a/crates/hodu_core/src/be_cpu/storage.rs b/crates/hodu_core/src/be_cpu/storage.rs
index 547d733..2ca4ce0 100644
--- a/crates/hodu_core/src/be_cpu/storage.rs
+++ b/crates/hodu_core/src/be_cpu/storage.rs
@@ -592,6 +592,7 @@ impl BackendStorageT for CpuStorage {
         weight_layout: &Layout,
         stride: &[usize],
         padding: &[usize],
+        output_padding: &[usize],
         dilation: &[usize],
         op: Op,
     ) -> HoduResult<Self> {
@@ -604,6 +605,7 @@ impl BackendStorageT for CpuStorage {
             &weight_layout,
             stride,
             padding,
+            output_padding,
             dilation,
             op,
         )
diff --git a/crates/hodu_core/src/be_cpu/storage/ops_conv.rs b/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
index 79cd064..d81b9f3 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
@@ -6,6 +6,18 @@ use crate::{
     types::{Layout, Shape},
 };
 use core::ffi::c_void;
+use std::borrow::Cow;
+
+/// The operand itself if its elements lie in row-major order, a row-major copy otherwise
+fn as_contiguous<'a>(storage: &'a CpuStorage, layout: &Layout) -> HoduResult<(Cow<'a, CpuStorage>, Layout)> {
+    if layout.is_contiguous() {
+        return Ok((Cow::Borrowed(storage), layout.clone()));
+    }
+    Ok((
+        Cow::Owned(storage.contiguous(layout)?),
+        Layout::from_shape(layout.shape()),
+    ))
+}
 
 /// Execute convolution operation
 ///
@@ -16,6 +28,7 @@ use core::ffi::c_void;
 /// * `weight_layout` - Weight tensor layout
 /// * `stride` - Stride values
 /// * `padding` - Padding values
+/// * `output_padding` - Extra output extent per axis (transposed convolutions)
 /// * `dilation` - Dilation values
 /// * `op` - The convolution operation
 ///
@@ -29,6 +42,7 @@ pub fn call_ops_conv(
     weight_layout: &Layout,
     stride: &[usize],
     padding: &[usize],
+    output_padding: &[usize],
     dilation: &[usize],
     op: Op,
 ) -> HoduResult<CpuStorage> {
@@ -46,6 +60,12 @@ pub fn call_ops_conv(
         });
     }
 
+    // The kernels index both operands by shape and offset alone
+    let (input, input_contiguous) = as_contiguous(input_storage, input_layout)?;
+    let (input_storage, input_layout) = (input.as_ref(), &input_contiguous);
+    let (weight, weight_contiguous) = as_contiguous(weight_storage, weight_layout)?;
+    let (weight_storage, weight_layout) = (weight.as_ref(), &weight_contiguous);
+
     let input_shape = input_layout.shape();
     let weight_shape = weight_layout.shape();
     let dtype = input_storage.dtype();
@@ -68,7 +88,8 @@ pub fn call_ops_conv(
         )));
     }
 
-    // Validate weight shape: [out_channels, in_channels, kernel...]
+    // Validate weight shape: [out_channels, in_channels, kernel...], or
+    // [in_channels, out_channels, kernel...] for transposed convolutions
     let weight_ndim = weight_shape.ndim();
     if weight_ndim != (2 + spatial_dims) {
         return Err(HoduError::BackendError(format!(
@@ -80,14 +101,21 @@ pub fn call_ops_conv(
 
     let batch_size = input_shape.dims()[0];
     let in_channels = input_shape.dims()[1];
-    let out_channels = weight_shape.dims()[0];
+    let transposed = matches!(
+        conv_op,
+        ConvOp::ConvTranspose1d | ConvOp::ConvTranspose2d | ConvOp::ConvTranspose3d
+    );
+    let (weight_in_channels, out_channels) = if transposed {
+        (weight_shape.dims()[0], weight_shape.dims()[1])
+    } else {
+        (weight_shape.dims()[1], weight_shape.dims()[0])
+    };
 
     // Validate in_channels match
-    if weight_shape.dims()[1] != in_channels {
+    if weight_in_channels != in_channels {
         return Err(HoduError::BackendError(format!(
             "weight in_channels {} does not match input in_channels {}",
-            weight_shape.dims()[1],
-            in_channels
+            weight_in_channels, in_channels
         )));
     }
 
@@ -102,7 +130,7 @@ pub fn call_ops_conv(
 
             let out_width = if matches!(conv_op, ConvOp::ConvTranspose1d) {
                 // Transposed convolution
-                (in_width - 1) * stride_w - 2 * padding_w + dilation_w * (kernel_width - 1) + 1
+                (in_width - 1) * stride_w + dilation_w * (kernel_width - 1) + output_padding[0] + 1 - 2 * padding_w
             } else {
                 // Standard convolution
                 (in_width + 2 * padding_w - dilation_w * (kernel_width - 1) - 1) / stride_w + 1
@@ -136,8 +164,10 @@ pub fn call_ops_conv(
 
             let (out_height, out_width) = if matches!(conv_op, ConvOp::ConvTranspose2d) {
                 // Transposed convolution
-                let out_h = (in_height - 1) * stride_h - 2 * padding_h + dilation_h * (kernel_height - 1) + 1;
-                let out_w = (in_width - 1) * stride_w - 2 * padding_w + dilation_w * (kernel_width - 1) + 1;
+                let out_h = (in_height - 1) * stride_h + dilation_h * (kernel_height - 1) + output_padding[0] + 1
+                    - 2 * padding_h;
+                let out_w =
+                    (in_width - 1) * stride_w + dilation_w * (kernel_width - 1) + output_padding[1] + 1 - 2 * padding_w;
                 (out_h, out_w)
             } else {
                 // Standard convolution
@@ -179,9 +209,12 @@ pub fn call_ops_conv(
 
             let (out_depth, out_height, out_width) = if matches!(conv_op, ConvOp::ConvTranspose3d) {
                 // Transposed convolution
-                let out_d = (in_depth - 1) * stride_d - 2 * padding_d + dilation_d * (kernel_depth - 1) + 1;
-                let out_h = (in_height - 1) * stride_h - 2 * padding_h + dilation_h * (kernel_height - 1) + 1;
-                let out_w = (in_width - 1) * stride_w - 2 * padding_w + dilation_w * (kernel_width - 1) + 1;
+                let out_d =
+                    (in_depth - 1) * stride_d + dilation_d * (kernel_depth - 1) + output_padding[0] + 1 - 2 * padding_d;
+                let out_h = (in_height - 1) * stride_h + dilation_h * (kernel_height - 1) + output_padding[1] + 1
+                    - 2 * padding_h;
+                let out_w =
+                    (in_width - 1) * stride_w + dilation_w * (kernel_width - 1) + output_padding[2] + 1 - 2 * padding_w;
                 (out_d, out_h, out_w)
             } else {
                 // Standard convolution
@@ -317,6 +350,30 @@ pub fn call_ops_conv_grad_weight(
         },
     };
 
+    let (input_shape, grad_output_shape) = (input_layout.shape().dims(), grad_output_layout.shape().dims());
+    let rank = spatial_dims + 2;
+    if input_shape.len() != rank || grad_output_shape.len() != rank || weight_shape.ndim() != rank {
+        return Err(HoduError::BackendError(format!(
+            "conv grad weight operands must have {} dimensions",
+            rank
+        )));
+    }
+    let channels = match conv_op {
+        ConvOp::Conv1dGradWeight | ConvOp::Conv2dGradWeight | ConvOp::Conv3dGradWeight => {
+            [grad_output_shape[1], input_shape[1]]
+        },
+        _ => [input_shape[1], grad_output_shape[1]],
+    };
+    if input_shape[0] != grad_output_shape[0] || weight_shape.dims()[..2] != channels {
+        return Err(HoduError::BackendError(
+            "conv grad weight batch or channel extents do not match".to_string(),
+        ));
+    }
+
+    // The kernels index the input by shape and offset alone
+    let (input, input_contiguous) = as_contiguous(input_storage, input_layout)?;
+    let (input_storage, input_layout) = (input.as_ref(), &input_contiguous);
+
     // Generate metadata using centralized function
     let metadata = crate::op_metadatas::conv_grad_weight_metadata(
         input_layout,
diff --git a/crates/hodu_core/src/be_cuda/storage.rs b/crates/hodu_core/src/be_cuda/storage.rs
index 3269532..2863b0e 100644
--- a/crates/hodu_core/src/be_cuda/storage.rs
+++ b/crates/hodu_core/src/be_cuda/storage.rs
@@ -484,6 +484,7 @@ impl BackendStorageT for CudaStorage {
         weight_layout: &Layout,
         stride: &[usize],
         padding: &[usize],
+        _output_padding: &[usize],
         dilation: &[usize],
         op: Op,
     ) -> HoduResult<Self> {
diff --git a/crates/hodu_core/src/be_metal/storage.rs b/crates/hodu_core/src/be_metal/storage.rs
index cda3dd8..c460162 100644
--- a/crates/hodu_core/src/be_metal/storage.rs
+++ b/crates/hodu_core/src/be_metal/storage.rs
@@ -406,6 +406,7 @@ impl BackendStorageT for MetalStorage {
         weight_layout: &Layout,
         stride: &[usize],
         padding: &[usize],
+        _output_padding: &[usize],
         dilation: &[usize],
         op: Op,
     ) -> HoduResult<Self> {
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_conv.rs b/crates/hodu_core/src/tensor/gradient/vjp_conv.rs
index abbadb7..bb696c2 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_conv.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_conv.rs
@@ -38,11 +38,8 @@ impl VjpCompute for ConvOp {
                 let dilation = p.dilation;
 
                 // Gradient w.r.t. input: use transposed convolution
-                // Conv1d weight: [Co, Ci, K], Conv_transpose1d (backend): w [Co_out, Ci_in, K]
-                // Transpose needed: [Co, Ci, K] -> [Ci, Co, K]
-                let weight_transposed = weight.transpose(0, 1)?;
-                let grad_input =
-                    grad_output_tensor.conv_transpose1d(&weight_transposed, stride, padding, 0, dilation)?;
+                // Conv1d weight [Co, Ci, K] is the transposed convolution's [in, out, K]
+                let grad_input = grad_output_tensor.conv_transpose1d(&weight, stride, padding, 0, dilation)?;
 
                 // Gradient w.r.t. weight: conv1d_grad_weight(input, grad_output, weight_shape)
                 let weight_shape = vec![channels_output, channels_input, kernel_size];
@@ -78,11 +75,8 @@ impl VjpCompute for ConvOp {
                 // Gradient w.r.t. input: use transposed convolution
                 // Conv2d: x [N, Ci, H, W] * w [Co, Ci, K, K] -> y [N, Co, H', W']
                 // Backward: grad_y [N, Co, H', W'] -> grad_x [N, Ci, H, W]
-                // Conv_transpose2d (backend): input [N, Ci_in, H, W] * w [Co_out, Ci_in, K, K] -> output [N, Co_out, H', W']
-                // For backward: grad_y [N, Co, H', W'] needs w [Ci, Co, K, K] (transpose needed!)
-                let weight_transposed = weight.transpose(0, 1)?; // [Co, Ci, K, K] -> [Ci, Co, K, K]
-                let grad_input =
-                    grad_output_tensor.conv_transpose2d(&weight_transposed, stride, padding, 0, dilation)?;
+                // Conv2d weight [Co, Ci, Kh, Kw] is the transposed convolution's [in, out, Kh, Kw]
+                let grad_input = grad_output_tensor.conv_transpose2d(&weight, stride, padding, 0, dilation)?;
 
                 // Gradient w.r.t. weight: conv2d_grad_weight(input, grad_output, weight_shape)
                 let weight_shape_vec = vec![channels_output, channels_input, kernel_height, kernel_width];
@@ -117,11 +111,8 @@ impl VjpCompute for ConvOp {
                 let dilation = p.dilation;
 
                 // Gradient w.r.t. input: use transposed convolution
-                // Conv3d weight: [Co, Ci, Kd, Kh, Kw], Conv_transpose3d (backend): w [Co_out, Ci_in, ...]
-                // Transpose needed: [Co, Ci, ...] -> [Ci, Co, ...]
-                let weight_transposed = weight.transpose(0, 1)?;
-                let grad_input =
-                    grad_output_tensor.conv_transpose3d(&weight_transposed, stride, padding, 0, dilation)?;
+                // Conv3d weight [Co, Ci, ...] is the transposed convolution's [in, out, ...]
+                let grad_input = grad_output_tensor.conv_transpose3d(&weight, stride, padding, 0, dilation)?;
 
                 // Gradient w.r.t. weight: conv3d_grad_weight(input, grad_output, weight_shape)
                 let weight_shape = vec![
diff --git a/crates/hodu_core/src/tensor/ops/conv.rs b/crates/hodu_core/src/tensor/ops/conv.rs
index c11a81e..b314c73 100644
--- a/crates/hodu_core/src/tensor/ops/conv.rs
+++ b/crates/hodu_core/src/tensor/ops/conv.rs
@@ -13,6 +13,46 @@ use crate::{
     },
 };
 
+/// Extent of one spatial axis of a convolution's output.
+fn conv_output_size(
+    input_size: usize,
+    kernel_size: usize,
+    stride: usize,
+    padding: usize,
+    dilation: usize,
+) -> HoduResult<usize> {
+    if kernel_size == 0 || stride == 0 {
+        return Err(HoduError::InvalidArgument(
+            "convolution kernel size and stride must be positive".to_string(),
+        ));
+    }
+    match (input_size + 2 * padding).checked_sub(dilation * (kernel_size - 1) + 1) {
+        Some(span) => Ok(span / stride + 1),
+        None => Err(HoduError::InvalidArgument(
+            "convolution kernel is larger than the padded input".to_string(),
+        )),
+    }
+}
+
+/// Extent of one spatial axis of a transposed convolution's output.
+fn conv_transpose_output_size(
+    input_size: usize,
+    kernel_size: usize,
+    stride: usize,
+    padding: usize,
+    output_padding: usize,
+    dilation: usize,
+) -> HoduResult<usize> {
+    if input_size == 0 || kernel_size == 0 || stride == 0 {
+        return Err(HoduError::InvalidArgument(
+            "transposed convolution input size, kernel size and stride must be positive".to_string(),
+        ));
+    }
+    ((input_size - 1) * stride + dilation * (kernel_size - 1) + output_padding + 1)
+        .checked_sub(2 * padding)
+        .ok_or_else(|| HoduError::InvalidArgument("transposed convolution padding is too large".to_string()))
+}
+
 impl Tensor {
     pub fn conv1d(&self, weight: &Self, stride: usize, padding: usize, dilation: usize) -> HoduResult<Self> {
         let input_shape = self.shape();
@@ -58,7 +98,7 @@ impl Tensor {
         validate_dtype_for_op(self.dtype(), Op::Conv(ConvOp::Conv1d))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::Conv1d));
 
-        let output_length = (length_input + 2 * padding - dilation * (kernel_size - 1) - 1) / stride + 1;
+        let output_length = conv_output_size(length_input, kernel_size, stride, padding, dilation)?;
         let output_shape = vec![batch_size, channels_output, output_length];
 
         let stride_arr = [stride];
@@ -114,6 +154,7 @@ impl Tensor {
                         &weight_layout,
                         &stride_arr,
                         &padding_arr,
+                        &[0; 1],
                         &dilation_arr,
                         Op::Conv(ConvOp::Conv1d),
                     )
@@ -181,8 +222,8 @@ impl Tensor {
         validate_dtype_for_op(self.dtype(), Op::Conv(ConvOp::Conv2d))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::Conv2d));
 
-        let output_height = (input_height + 2 * padding - dilation * (kernel_height - 1) - 1) / stride + 1;
-        let output_width = (input_width + 2 * padding - dilation * (kernel_width - 1) - 1) / stride + 1;
+        let output_height = conv_output_size(input_height, kernel_height, stride, padding, dilation)?;
+        let output_width = conv_output_size(input_width, kernel_width, stride, padding, dilation)?;
         let output_shape = vec![batch_size, channels_output, output_height, output_width];
 
         let stride_arr = [stride; 2];
@@ -240,6 +281,7 @@ impl Tensor {
                         &weight_layout,
                         &stride_arr,
                         &padding_arr,
+                        &[0; 2],
                         &dilation_arr,
                         Op::Conv(ConvOp::Conv2d),
                     )
@@ -309,9 +351,9 @@ impl Tensor {
         validate_dtype_for_op(self.dtype(), Op::Conv(ConvOp::Conv3d))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::Conv3d));
 
-        let output_depth = (input_depth + 2 * padding - dilation * (kernel_depth - 1) - 1) / stride + 1;
-        let output_height = (input_height + 2 * padding - dilation * (kernel_height - 1) - 1) / stride + 1;
-        let output_width = (input_width + 2 * padding - dilation * (kernel_width - 1) - 1) / stride + 1;
+        let output_depth = conv_output_size(input_depth, kernel_depth, stride, padding, dilation)?;
+        let output_height = conv_output_size(input_height, kernel_height, stride, padding, dilation)?;
+        let output_width = conv_output_size(input_width, kernel_width, stride, padding, dilation)?;
         let output_shape = vec![batch_size, channels_output, output_depth, output_height, output_width];
 
         let stride_arr = [stride; 3];
@@ -371,6 +413,7 @@ impl Tensor {
                         &weight_layout,
                         &stride_arr,
                         &padding_arr,
+                        &[0; 3],
                         &dilation_arr,
                         Op::Conv(ConvOp::Conv3d),
                     )
@@ -406,7 +449,7 @@ impl Tensor {
         let weight_dims = weight_shape.dims();
 
         // Input: [batch, in_channels, length]
-        // Weight: [out_channels, in_channels, kernel_size] (same as conv1d)
+        // Weight: [in_channels, out_channels, kernel_size]
         if input_dims.len() != 3 {
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -425,10 +468,10 @@ impl Tensor {
         let batch_size = input_dims[0];
         let _channels_input = input_dims[1];
         let length_input = input_dims[2];
-        let channels_output = weight_dims[0]; // Weight: [out_channels, in_channels, K]
+        let channels_output = weight_dims[1]; // Weight: [in_channels, out_channels, K]
         let kernel_size = weight_dims[2];
 
-        if input_dims[1] != weight_dims[1] {
+        if input_dims[1] != weight_dims[0] {
             // in_channels must match
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -445,11 +488,12 @@ impl Tensor {
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::ConvTranspose1d));
 
         let output_length =
-            (length_input - 1) * stride - 2 * padding + dilation * (kernel_size - 1) + output_padding + 1;
+            conv_transpose_output_size(length_input, kernel_size, stride, padding, output_padding, dilation)?;
         let output_shape = vec![batch_size, channels_output, output_length];
 
         let stride_arr = [stride];
         let padding_arr = [padding];
+        let output_padding_arr = [output_padding];
         let dilation_arr = [dilation];
 
         // Calculate layouts before if-else block
@@ -502,6 +546,7 @@ impl Tensor {
                         &weight_layout,
                         &stride_arr,
                         &padding_arr,
+                        &output_padding_arr,
                         &dilation_arr,
                         Op::Conv(ConvOp::ConvTranspose1d),
                     )
@@ -537,7 +582,7 @@ impl Tensor {
         let weight_dims = weight_shape.dims();
 
         // Input: [batch, in_channels, height, width]
-        // Weight: [out_channels, in_channels, kernel_h, kernel_w] (same as conv2d)
+        // Weight: [in_channels, out_channels, kernel_h, kernel_w]
         if input_dims.len() != 4 {
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -557,11 +602,11 @@ impl Tensor {
         let _channels_input = input_dims[1];
         let input_height = input_dims[2];
         let input_width = input_dims[3];
-        let channels_output = weight_dims[0]; // Weight: [out_channels, in_channels, K, K]
+        let channels_output = weight_dims[1]; // Weight: [in_channels, out_channels, K, K]
         let kernel_height = weight_dims[2];
         let kernel_width = weight_dims[3];
 
-        if input_dims[1] != weight_dims[1] {
+        if input_dims[1] != weight_dims[0] {
             // in_channels must match
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -578,13 +623,14 @@ impl Tensor {
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::ConvTranspose2d));
 
         let output_height =
-            (input_height - 1) * stride - 2 * padding + dilation * (kernel_height - 1) + output_padding + 1;
+            conv_transpose_output_size(input_height, kernel_height, stride, padding, output_padding, dilation)?;
         let output_width =
-            (input_width - 1) * stride - 2 * padding + dilation * (kernel_width - 1) + output_padding + 1;
+            conv_transpose_output_size(input_width, kernel_width, stride, padding, output_padding, dilation)?;
         let output_shape = vec![batch_size, channels_output, output_height, output_width];
 
         let stride_arr = [stride; 2];
         let padding_arr = [padding; 2];
+        let output_padding_arr = [output_padding; 2];
         let dilation_arr = [dilation; 2];
 
         // Calculate layouts before if-else block
@@ -639,6 +685,7 @@ impl Tensor {
                         &weight_layout,
                         &stride_arr,
                         &padding_arr,
+                        &output_padding_arr,
                         &dilation_arr,
                         Op::Conv(ConvOp::ConvTranspose2d),
                     )
@@ -674,7 +721,7 @@ impl Tensor {
         let weight_dims = weight_shape.dims();
 
         // Input: [batch, in_channels, depth, height, width]
-        // Weight: [out_channels, in_channels, kernel_d, kernel_h, kernel_w] (same as conv3d)
+        // Weight: [in_channels, out_channels, kernel_d, kernel_h, kernel_w]
         if input_dims.len() != 5 {
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -695,12 +742,12 @@ impl Tensor {
         let input_depth = input_dims[2];
         let input_height = input_dims[3];
         let input_width = input_dims[4];
-        let channels_output = weight_dims[0]; // Weight: [out_channels, in_channels, ...]
+        let channels_output = weight_dims[1]; // Weight: [in_channels, out_channels, ...]
         let kernel_depth = weight_dims[2];
         let kernel_height = weight_dims[3];
         let kernel_width = weight_dims[4];
 
-        if input_dims[1] != weight_dims[1] {
+        if input_dims[1] != weight_dims[0] {
             // in_channels must match
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -717,15 +764,16 @@ impl Tensor {
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::ConvTranspose3d));
 
         let output_depth =
-            (input_depth - 1) * stride - 2 * padding + dilation * (kernel_depth - 1) + output_padding + 1;
+            conv_transpose_output_size(input_depth, kernel_depth, stride, padding, output_padding, dilation)?;
         let output_height =
-            (input_height - 1) * stride - 2 * padding + dilation * (kernel_height - 1) + output_padding + 1;
+            conv_transpose_output_size(input_height, kernel_height, stride, padding, output_padding, dilation)?;
         let output_width =
-            (input_width - 1) * stride - 2 * padding + dilation * (kernel_width - 1) + output_padding + 1;
+            conv_transpose_output_size(input_width, kernel_width, stride, padding, output_padding, dilation)?;
         let output_shape = vec![batch_size, channels_output, output_depth, output_height, output_width];
 
         let stride_arr = [stride; 3];
         let padding_arr = [padding; 3];
+        let output_padding_arr = [output_padding; 3];
         let dilation_arr = [dilation; 3];
 
         // Calculate layouts before if-else block
@@ -782,6 +830,7 @@ impl Tensor {
                         &weight_layout,
                         &stride_arr,
                         &padding_arr,
+                        &output_padding_arr,
                         &dilation_arr,
                         Op::Conv(ConvOp::ConvTranspose3d),
                     )
-- 
2.43.0


From f666d030f6d9779b4dcf036d2a678537a274e3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 31/55] fix: reduce_window_mean averages low-precision values
 instead of their bit patterns; impossible windows are refused

---
 crates/hodu_core/src/tensor/ops/windowing.rs  |  8 +++++++
 .../hodu_cpu_kernels/kernels/ops_windowing.c  | 23 +++++++++++--------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/windowing.rs b/crates/hodu_core/src/tensor/ops/windowing.rs
index 5ae96d8..9a140d1 100644
--- a/crates/hodu_core/src/tensor/ops/windowing.rs
+++ b/crates/hodu_core/src/tensor/ops/windowing.rs
@@ -69,6 +69,14 @@ impl Tensor {
         let mut output_dims = Vec::with_capacity(rank);
         for i in 0..rank {
             let padded_size = input_dims[i] + padding[i].0 + padding[i].1;
+            if stride_dims[i] == 0 || window_dims[i] == 0 || window_dims[i] > padded_size {
+                return Err(HoduError::InvalidLayout {
+                    reason: format!(
+                        "window extent {} and stride {} do not fit the padded extent {} of dimension {}",
+                        window_dims[i], stride_dims[i], padded_size, i
+                    ),
+                });
+            }
             let out_size = (padded_size - window_dims[i]) / stride_dims[i] + 1;
             output_dims.push(out_size);
         }
diff --git a/crates/hodu_cpu_kernels/kernels/ops_windowing.c b/crates/hodu_cpu_kernels/kernels/ops_windowing.c
index d0083ac..1bd2241 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_windowing.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_windowing.c
@@ -128,8 +128,11 @@
  * @param IN_TYPE C type of input elements (float type)
  * @param OUT_TYPE C type of output elements (float type)
  * @param TYPE_SUFFIX Suffix for function name
+ * @param ACC_TYPE C type the sum is accumulated in
+ * @param LOAD Conversion from IN_TYPE to ACC_TYPE
+ * @param STORE Conversion from ACC_TYPE to OUT_TYPE
  */
-#define REDUCE_WINDOW_MEAN_OP(IN_TYPE, OUT_TYPE, TYPE_SUFFIX)                                      \
+#define REDUCE_WINDOW_MEAN_OP(IN_TYPE, OUT_TYPE, TYPE_SUFFIX, ACC_TYPE, LOAD, STORE)               \
     void hodu_cpu_reduce_window_mean_##TYPE_SUFFIX(const void *input_ptr, void *output_ptr,        \
                                                    const size_t *metadata) {                       \
         const IN_TYPE *input = (const IN_TYPE *)input_ptr;                                         \
@@ -154,7 +157,7 @@
                 tmp /= output_shape[i];                                                            \
             }                                                                                      \
                                                                                                    \
-            OUT_TYPE sum = 0;                                                                      \
+            ACC_TYPE sum = 0;                                                                      \
             size_t window_size = 1;                                                                \
             for (size_t i = 0; i < num_dims; i++) {                                                \
                 window_size *= window_shape[i];                                                    \
@@ -190,11 +193,11 @@
                     for (size_t i = 0; i < num_dims; i++) {                                        \
                         idx += input_coords[i] * input_strides[i];                                 \
                     }                                                                              \
-                    sum += (OUT_TYPE)input[idx];                                                   \
+                    sum += LOAD(input[idx]);                                                       \
                 }                                                                                  \
             }                                                                                      \
                                                                                                    \
-            output[out_idx] = sum / (OUT_TYPE)window_size;                                         \
+            output[out_idx] = STORE(sum / (ACC_TYPE)window_size);                                  \
         }                                                                                          \
     }
 
@@ -213,12 +216,12 @@ REDUCE_WINDOW_OP(uint16_t, uint16_t, max_u16, 0u, acc = MAX(acc, val))
 REDUCE_WINDOW_OP(uint32_t, uint32_t, max_u32, 0u, acc = MAX(acc, val))
 REDUCE_WINDOW_OP(uint64_t, uint64_t, max_u64, 0u, acc = MAX(acc, val))
 
-REDUCE_WINDOW_MEAN_OP(f8e4m3_t, f8e4m3_t, f8e4m3)
-REDUCE_WINDOW_MEAN_OP(f8e5m2_t, f8e5m2_t, f8e5m2)
-REDUCE_WINDOW_MEAN_OP(bf16_t, bf16_t, bf16)
-REDUCE_WINDOW_MEAN_OP(f16_t, f16_t, f16)
-REDUCE_WINDOW_MEAN_OP(float, float, f32)
-REDUCE_WINDOW_MEAN_OP(double, double, f64)
+REDUCE_WINDOW_MEAN_OP(f8e4m3_t, f8e4m3_t, f8e4m3, float, f8e4m3_to_float, float_to_f8e4m3)
+REDUCE_WINDOW_MEAN_OP(f8e5m2_t, f8e5m2_t, f8e5m2, float, f8e5m2_to_float, float_to_f8e5m2)
+REDUCE_WINDOW_MEAN_OP(bf16_t, bf16_t, bf16, float, bf16_to_float, float_to_bf16)
+REDUCE_WINDOW_MEAN_OP(f16_t, f16_t, f16, float, f16_to_float, float_to_f16)
+REDUCE_WINDOW_MEAN_OP(float, float, f32, float, , )
+REDUCE_WINDOW_MEAN_OP(double, double, f64, double, , )
 
 REDUCE_WINDOW_OP(f8e4m3_t, f8e4m3_t, sum_f8e4m3, F8E4M3_ZERO, acc = f8e4m3_add(acc, val))
 REDUCE_WINDOW_OP(f8e5m2_t, f8e5m2_t, sum_f8e5m2, F8E5M2_ZERO, acc = f8e5m2_add(acc, val))
-- 
2.43.0


From 11c6f961a7bd91a453e64a387a4d65629e7de90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 32/55] fix: 8-bit float extrema start from the lowest and
 highest values instead of NaN

---
 crates/hodu_cpu_kernels/kernels/math_utils.h | 10 +++++-----
 crates/hodu_cpu_kernels/kernels/t_f8e4m3.h   |  4 ++--
 crates/hodu_cpu_kernels/kernels/t_f8e5m2.h   |  4 ++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/math_utils.h b/crates/hodu_cpu_kernels/kernels/math_utils.h
index 0b9a984..e548745 100644
--- a/crates/hodu_cpu_kernels/kernels/math_utils.h
+++ b/crates/hodu_cpu_kernels/kernels/math_utils.h
@@ -14,13 +14,13 @@ extern "C" {
 // INFINITY CONSTANTS FOR EXOTIC FLOATING-POINT TYPES
 // ============================================================================
 
-// FP8 E4M3 infinity values (exponent=0xF)
-#define F8E4M3_NEG_INF ((f8e4m3_t)0xFF) // 1 sign | 1111 exp | 111 mant
-#define F8E4M3_POS_INF ((f8e4m3_t)0x7F) // 0 sign | 1111 exp | 111 mant
+// FP8 E4M3 has no infinities: its lowest and highest finite values
+#define F8E4M3_NEG_INF ((f8e4m3_t)0xFE) // 1 sign | 1111 exp | 110 mant
+#define F8E4M3_POS_INF ((f8e4m3_t)0x7E) // 0 sign | 1111 exp | 110 mant
 
 // FP8 E5M2 infinity values (exponent=0x1F)
-#define F8E5M2_NEG_INF ((f8e5m2_t)0xFF) // 1 sign | 11111 exp | 11 mant
-#define F8E5M2_POS_INF ((f8e5m2_t)0x7F) // 0 sign | 11111 exp | 11 mant
+#define F8E5M2_NEG_INF ((f8e5m2_t)0xFC) // 1 sign | 11111 exp | 00 mant
+#define F8E5M2_POS_INF ((f8e5m2_t)0x7C) // 0 sign | 11111 exp | 00 mant
 
 // BFloat16 infinity values (exponent=0xFF)
 #define BF16_NEG_INF ((bf16_t)0xFF80) // 1 sign | 11111111 exp | 0000000 mant
diff --git a/crates/hodu_cpu_kernels/kernels/t_f8e4m3.h b/crates/hodu_cpu_kernels/kernels/t_f8e4m3.h
index 4ac6159..36dfd24 100644
--- a/crates/hodu_cpu_kernels/kernels/t_f8e4m3.h
+++ b/crates/hodu_cpu_kernels/kernels/t_f8e4m3.h
@@ -18,8 +18,8 @@ typedef uint8_t f8e4m3_t;
 
 #define F8E4M3_ZERO ((f8e4m3_t)0x00)
 #define F8E4M3_ONE ((f8e4m3_t)0x38) // exp=7 (bias), mant=0
-#define F8E4M3_NEG_INF ((f8e4m3_t)0xFF)
-#define F8E4M3_POS_INF ((f8e4m3_t)0x7F)
+#define F8E4M3_NEG_INF ((f8e4m3_t)0xFE)
+#define F8E4M3_POS_INF ((f8e4m3_t)0x7E)
 
 // ============================================================================
 // CONVERSION
diff --git a/crates/hodu_cpu_kernels/kernels/t_f8e5m2.h b/crates/hodu_cpu_kernels/kernels/t_f8e5m2.h
index 3e058eb..04a7c22 100644
--- a/crates/hodu_cpu_kernels/kernels/t_f8e5m2.h
+++ b/crates/hodu_cpu_kernels/kernels/t_f8e5m2.h
@@ -18,8 +18,8 @@ typedef uint8_t f8e5m2_t;
 
 #define F8E5M2_ZERO ((f8e5m2_t)0x00)
 #define F8E5M2_ONE ((f8e5m2_t)0x3C) // exp=15 (bias), mant=0
-#define F8E5M2_NEG_INF ((f8e5m2_t)0xFF)
-#define F8E5M2_POS_INF ((f8e5m2_t)0x7F)
+#define F8E5M2_NEG_INF ((f8e5m2_t)0xFC)
+#define F8E5M2_POS_INF ((f8e5m2_t)0x7C)
 
 // ============================================================================
 // CONVERSION
-- 
2.43.0


From def06628797c76ba07407252f958ca7a5bbafceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 33/55] fix: narrow 8-bit float scalars like the kernels
 instead of saturating

---
 crates/hodu_core/src/scalar.rs | 93 +++++++++++++++++++++-------------
 1 file changed, 57 insertions(+), 36 deletions(-)

diff --git a/crates/hodu_core/src/scalar.rs b/crates/hodu_core/src/scalar.rs
index dd774f8..d8e1d17 100644
--- a/crates/hodu_core/src/scalar.rs
+++ b/crates/hodu_core/src/scalar.rs
@@ -72,6 +72,27 @@ mod serde_impls {
     }
 }
 
+/// Rounds to the nearest F8E4M3; values that round past the largest finite one become NaN, as in the kernels
+/// (`F8E4M3::from_f32` would saturate them).
+fn narrow_f8e4m3(x: f32) -> F8E4M3 {
+    if x.abs() > 464.0 {
+        F8E4M3::from_bits(if x.is_sign_negative() { 0xFF } else { 0x7F })
+    } else {
+        F8E4M3::from_f32(x)
+    }
+}
+
+/// Rounds to the nearest F8E5M2; values that round past the largest finite one become infinite, as in the kernels
+/// (`F8E5M2::from_f32` would saturate them).
+#[cfg(feature = "f8e5m2")]
+fn narrow_f8e5m2(x: f32) -> F8E5M2 {
+    if x.abs() >= 61440.0 {
+        F8E5M2::from_bits(if x.is_sign_negative() { 0xFC } else { 0x7C })
+    } else {
+        F8E5M2::from_f32(x)
+    }
+}
+
 #[derive(Clone, Copy, PartialEq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 pub enum Scalar {
@@ -283,9 +304,9 @@ impl Scalar {
     pub fn from_f32(value: f32, dtype: DType) -> Self {
         match dtype {
             DType::BOOL => Self::BOOL(value != 0.0),
-            DType::F8E4M3 => Self::F8E4M3(F8E4M3::from_f32(value)),
+            DType::F8E4M3 => Self::F8E4M3(narrow_f8e4m3(value)),
             #[cfg(feature = "f8e5m2")]
-            DType::F8E5M2 => Self::F8E5M2(F8E5M2::from_f32(value)),
+            DType::F8E5M2 => Self::F8E5M2(narrow_f8e5m2(value)),
             DType::BF16 => Self::BF16(bf16::from_f32(value)),
             DType::F16 => Self::F16(f16::from_f32(value)),
             DType::F32 => Self::F32(value),
@@ -310,9 +331,9 @@ impl Scalar {
     pub fn from_usize(value: usize, dtype: DType) -> Self {
         match dtype {
             DType::BOOL => Self::BOOL(value != 0),
-            DType::F8E4M3 => Self::F8E4M3(F8E4M3::from_f32(value as f32)),
+            DType::F8E4M3 => Self::F8E4M3(narrow_f8e4m3(value as f32)),
             #[cfg(feature = "f8e5m2")]
-            DType::F8E5M2 => Self::F8E5M2(F8E5M2::from_f32(value as f32)),
+            DType::F8E5M2 => Self::F8E5M2(narrow_f8e5m2(value as f32)),
             DType::BF16 => Self::BF16(bf16::from_f32(value as f32)),
             DType::F16 => Self::F16(f16::from_f32(value as f32)),
             DType::F32 => Self::F32(value as f32),
@@ -336,9 +357,9 @@ impl Scalar {
     pub fn from_isize(value: isize, dtype: DType) -> Self {
         match dtype {
             DType::BOOL => Self::BOOL(value != 0),
-            DType::F8E4M3 => Self::F8E4M3(F8E4M3::from_f32(value as f32)),
+            DType::F8E4M3 => Self::F8E4M3(narrow_f8e4m3(value as f32)),
             #[cfg(feature = "f8e5m2")]
-            DType::F8E5M2 => Self::F8E5M2(F8E5M2::from_f32(value as f32)),
+            DType::F8E5M2 => Self::F8E5M2(narrow_f8e5m2(value as f32)),
             DType::BF16 => Self::BF16(bf16::from_f32(value as f32)),
             DType::F16 => Self::F16(f16::from_f32(value as f32)),
             DType::F32 => Self::F32(value as f32),
@@ -395,9 +416,9 @@ impl Scalar {
 
         match dtype {
             DType::BOOL => Scalar::BOOL(self.to_bool()),
-            DType::F8E4M3 => Scalar::F8E4M3(F8E4M3::from_f32(self.to_f32())),
+            DType::F8E4M3 => Scalar::F8E4M3(narrow_f8e4m3(self.to_f32())),
             #[cfg(feature = "f8e5m2")]
-            DType::F8E5M2 => Scalar::F8E5M2(F8E5M2::from_f32(self.to_f32())),
+            DType::F8E5M2 => Scalar::F8E5M2(narrow_f8e5m2(self.to_f32())),
             DType::BF16 => Scalar::BF16(bf16::from_f32(self.to_f32())),
             DType::F16 => Scalar::F16(f16::from_f32(self.to_f32())),
             DType::F32 => Scalar::F32(self.to_f32()),
@@ -505,28 +526,28 @@ impl Scalar {
     #[inline]
     pub fn to_f8e4m3(&self) -> F8E4M3 {
         match *self {
-            Self::BOOL(x) => F8E4M3::from_f32(if x { 1.0 } else { 0.0 }),
+            Self::BOOL(x) => narrow_f8e4m3(if x { 1.0 } else { 0.0 }),
             Self::F8E4M3(x) => x,
             #[cfg(feature = "f8e5m2")]
-            Self::F8E5M2(x) => F8E4M3::from_f32(x.to_f32()),
-            Self::BF16(x) => F8E4M3::from_f32(x.to_f32()),
-            Self::F16(x) => F8E4M3::from_f32(x.to_f32()),
-            Self::F32(x) => F8E4M3::from_f32(x),
+            Self::F8E5M2(x) => narrow_f8e4m3(x.to_f32()),
+            Self::BF16(x) => narrow_f8e4m3(x.to_f32()),
+            Self::F16(x) => narrow_f8e4m3(x.to_f32()),
+            Self::F32(x) => narrow_f8e4m3(x),
             #[cfg(feature = "f64")]
-            Self::F64(x) => F8E4M3::from_f32(x as f32),
-            Self::U8(x) => F8E4M3::from_f32(x as f32),
+            Self::F64(x) => narrow_f8e4m3(x as f32),
+            Self::U8(x) => narrow_f8e4m3(x as f32),
             #[cfg(feature = "u16")]
-            Self::U16(x) => F8E4M3::from_f32(x as f32),
+            Self::U16(x) => narrow_f8e4m3(x as f32),
 
-            Self::U32(x) => F8E4M3::from_f32(x as f32),
+            Self::U32(x) => narrow_f8e4m3(x as f32),
             #[cfg(feature = "u64")]
-            Self::U64(x) => F8E4M3::from_f32(x as f32),
-            Self::I8(x) => F8E4M3::from_f32(x as f32),
+            Self::U64(x) => narrow_f8e4m3(x as f32),
+            Self::I8(x) => narrow_f8e4m3(x as f32),
             #[cfg(feature = "i16")]
-            Self::I16(x) => F8E4M3::from_f32(x as f32),
-            Self::I32(x) => F8E4M3::from_f32(x as f32),
+            Self::I16(x) => narrow_f8e4m3(x as f32),
+            Self::I32(x) => narrow_f8e4m3(x as f32),
             #[cfg(feature = "i64")]
-            Self::I64(x) => F8E4M3::from_f32(x as f32),
+            Self::I64(x) => narrow_f8e4m3(x as f32),
         }
     }
 
@@ -534,27 +555,27 @@ impl Scalar {
     #[cfg(feature = "f8e5m2")]
     pub fn to_f8e5m2(&self) -> F8E5M2 {
         match *self {
-            Self::BOOL(x) => F8E5M2::from_f32(if x { 1.0 } else { 0.0 }),
-            Self::F8E4M3(x) => F8E5M2::from_f32(x.to_f32()),
+            Self::BOOL(x) => narrow_f8e5m2(if x { 1.0 } else { 0.0 }),
+            Self::F8E4M3(x) => narrow_f8e5m2(x.to_f32()),
             Self::F8E5M2(x) => x,
-            Self::BF16(x) => F8E5M2::from_f32(x.to_f32()),
-            Self::F16(x) => F8E5M2::from_f32(x.to_f32()),
-            Self::F32(x) => F8E5M2::from_f32(x),
+            Self::BF16(x) => narrow_f8e5m2(x.to_f32()),
+            Self::F16(x) => narrow_f8e5m2(x.to_f32()),
+            Self::F32(x) => narrow_f8e5m2(x),
             #[cfg(feature = "f64")]
-            Self::F64(x) => F8E5M2::from_f32(x as f32),
-            Self::U8(x) => F8E5M2::from_f32(x as f32),
+            Self::F64(x) => narrow_f8e5m2(x as f32),
+            Self::U8(x) => narrow_f8e5m2(x as f32),
             #[cfg(feature = "u16")]
-            Self::U16(x) => F8E5M2::from_f32(x as f32),
+            Self::U16(x) => narrow_f8e5m2(x as f32),
 
-            Self::U32(x) => F8E5M2::from_f32(x as f32),
+            Self::U32(x) => narrow_f8e5m2(x as f32),
             #[cfg(feature = "u64")]
-            Self::U64(x) => F8E5M2::from_f32(x as f32),
-            Self::I8(x) => F8E5M2::from_f32(x as f32),
+            Self::U64(x) => narrow_f8e5m2(x as f32),
+            Self::I8(x) => narrow_f8e5m2(x as f32),
             #[cfg(feature = "i16")]
-            Self::I16(x) => F8E5M2::from_f32(x as f32),
-            Self::I32(x) => F8E5M2::from_f32(x as f32),
+            Self::I16(x) => narrow_f8e5m2(x as f32),
+            Self::I32(x) => narrow_f8e5m2(x as f32),
             #[cfg(feature = "i64")]
-            Self::I64(x) => F8E5M2::from_f32(x as f32),
+            Self::I64(x) => narrow_f8e5m2(x as f32),
         }
     }
 
-- 
2.43.0


From f9aaade3aca5ab2f8bc8d7d2bf5868b3fdb909cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 34/55] fix: compare top-k candidates in their own precision

---
 crates/hodu_cpu_kernels/kernels/ops_sort.c | 217 +++++++++++----------
 1 file changed, 111 insertions(+), 106 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_sort.c b/crates/hodu_cpu_kernels/kernels/ops_sort.c
index 5cda2db..2e1c921 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_sort.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_sort.c
@@ -2,98 +2,102 @@
 #include "types.h"
 #include <stdlib.h>
 
-// Helper struct for sorting with indices
-typedef struct {
-    float value;
-    i32_t index;
-} ValueIndex;
-
-// Comparison functions for qsort
-static int cmp_largest(const void *a, const void *b) {
-    float va = ((ValueIndex *)a)->value;
-    float vb = ((ValueIndex *)b)->value;
-    if (va > vb)
-        return -1;
-    if (va < vb)
-        return 1;
-    return 0;
-}
-
-static int cmp_smallest(const void *a, const void *b) {
-    float va = ((ValueIndex *)a)->value;
-    float vb = ((ValueIndex *)b)->value;
-    if (va < vb)
-        return -1;
-    if (va > vb)
-        return 1;
-    return 0;
-}
-
-// Partition for quickselect
-static size_t partition(ValueIndex *arr, size_t left, size_t right, int largest) {
-    float pivot = arr[right].value;
-    size_t i = left;
-    for (size_t j = left; j < right; j++) {
-        int should_swap = largest ? (arr[j].value > pivot) : (arr[j].value < pivot);
-        if (should_swap) {
-            ValueIndex tmp = arr[i];
-            arr[i] = arr[j];
-            arr[j] = tmp;
-            i++;
-        }
-    }
-    ValueIndex tmp = arr[i];
-    arr[i] = arr[right];
-    arr[right] = tmp;
-    return i;
-}
-
-// QuickSelect to find k-th element and partition array
-static void quickselect_k(ValueIndex *arr, size_t n, size_t k, int largest) {
-    if (n <= 1 || k == 0)
-        return;
-
-    size_t left = 0;
-    size_t right = n - 1;
-
-    while (left < right) {
-        size_t pivot_idx = partition(arr, left, right, largest);
-        if (pivot_idx == k - 1) {
-            break;
-        } else if (pivot_idx < k - 1) {
-            left = pivot_idx + 1;
-        } else {
-            right = pivot_idx - 1;
-        }
-    }
-}
-
-// Select top-k elements using partial sort
-static void topk_select(ValueIndex *arr, size_t n, size_t k, int largest, int sorted) {
-    if (k >= n) {
-        // If k >= n, just sort everything
-        if (largest) {
-            qsort(arr, n, sizeof(ValueIndex), cmp_largest);
-        } else {
-            qsort(arr, n, sizeof(ValueIndex), cmp_smallest);
-        }
-        return;
+// Selection over (value, index) pairs, instantiated per comparison key so that no element type is
+// compared through a narrower one. For each row: quickselect the k wanted elements to the front,
+// then sort them if requested (with k >= n everything is sorted).
+#define IMPL_TOPK_SELECT(KEY, SUFFIX)                                                              \
+    typedef struct {                                                                               \
+        KEY value;                                                                                 \
+        i32_t index;                                                                               \
+    } ValueIndex_##SUFFIX;                                                                         \
+                                                                                                   \
+    static int cmp_largest_##SUFFIX(const void *a, const void *b) {                                \
+        KEY va = ((ValueIndex_##SUFFIX *)a)->value;                                                \
+        KEY vb = ((ValueIndex_##SUFFIX *)b)->value;                                                \
+        if (va > vb)                                                                               \
+            return -1;                                                                             \
+        if (va < vb)                                                                               \
+            return 1;                                                                              \
+        return 0;                                                                                  \
+    }                                                                                              \
+                                                                                                   \
+    static int cmp_smallest_##SUFFIX(const void *a, const void *b) {                               \
+        KEY va = ((ValueIndex_##SUFFIX *)a)->value;                                                \
+        KEY vb = ((ValueIndex_##SUFFIX *)b)->value;                                                \
+        if (va < vb)                                                                               \
+            return -1;                                                                             \
+        if (va > vb)                                                                               \
+            return 1;                                                                              \
+        return 0;                                                                                  \
+    }                                                                                              \
+                                                                                                   \
+    static size_t partition_##SUFFIX(ValueIndex_##SUFFIX *arr, size_t left, size_t right,          \
+                                     int largest) {                                                \
+        KEY pivot = arr[right].value;                                                              \
+        size_t i = left;                                                                           \
+        for (size_t j = left; j < right; j++) {                                                    \
+            int should_swap = largest ? (arr[j].value > pivot) : (arr[j].value < pivot);           \
+            if (should_swap) {                                                                     \
+                ValueIndex_##SUFFIX tmp = arr[i];                                                  \
+                arr[i] = arr[j];                                                                   \
+                arr[j] = tmp;                                                                      \
+                i++;                                                                               \
+            }                                                                                      \
+        }                                                                                          \
+        ValueIndex_##SUFFIX tmp = arr[i];                                                          \
+        arr[i] = arr[right];                                                                       \
+        arr[right] = tmp;                                                                          \
+        return i;                                                                                  \
+    }                                                                                              \
+                                                                                                   \
+    static void quickselect_k_##SUFFIX(ValueIndex_##SUFFIX *arr, size_t n, size_t k,               \
+                                       int largest) {                                              \
+        if (n <= 1 || k == 0)                                                                      \
+            return;                                                                                \
+                                                                                                   \
+        size_t left = 0;                                                                           \
+        size_t right = n - 1;                                                                      \
+                                                                                                   \
+        while (left < right) {                                                                     \
+            size_t pivot_idx = partition_##SUFFIX(arr, left, right, largest);                      \
+            if (pivot_idx == k - 1) {                                                              \
+                break;                                                                             \
+            } else if (pivot_idx < k - 1) {                                                        \
+                left = pivot_idx + 1;                                                              \
+            } else {                                                                               \
+                right = pivot_idx - 1;                                                             \
+            }                                                                                      \
+        }                                                                                          \
+    }                                                                                              \
+                                                                                                   \
+    static void topk_select_##SUFFIX(ValueIndex_##SUFFIX *arr, size_t n, size_t k, int largest,    \
+                                     int sorted) {                                                 \
+        if (k >= n) {                                                                              \
+            if (largest) {                                                                         \
+                qsort(arr, n, sizeof(ValueIndex_##SUFFIX), cmp_largest_##SUFFIX);                  \
+            } else {                                                                               \
+                qsort(arr, n, sizeof(ValueIndex_##SUFFIX), cmp_smallest_##SUFFIX);                 \
+            }                                                                                      \
+            return;                                                                                \
+        }                                                                                          \
+                                                                                                   \
+        quickselect_k_##SUFFIX(arr, n, k, largest);                                                \
+                                                                                                   \
+        if (sorted) {                                                                              \
+            if (largest) {                                                                         \
+                qsort(arr, k, sizeof(ValueIndex_##SUFFIX), cmp_largest_##SUFFIX);                  \
+            } else {                                                                               \
+                qsort(arr, k, sizeof(ValueIndex_##SUFFIX), cmp_smallest_##SUFFIX);                 \
+            }                                                                                      \
+        }                                                                                          \
     }
 
-    // Use quickselect to partition first k elements
-    quickselect_k(arr, n, k, largest);
-
-    // Sort the first k elements if sorted is requested
-    if (sorted) {
-        if (largest) {
-            qsort(arr, k, sizeof(ValueIndex), cmp_largest);
-        } else {
-            qsort(arr, k, sizeof(ValueIndex), cmp_smallest);
-        }
-    }
-}
+IMPL_TOPK_SELECT(float, f32)
+IMPL_TOPK_SELECT(double, f64)
+IMPL_TOPK_SELECT(int64_t, i64)
+IMPL_TOPK_SELECT(uint64_t, u64)
 
-#define IMPL_TOPK(TYPE, TYPE_SUFFIX, TO_FLOAT)                                                     \
+#define IMPL_TOPK(TYPE, TYPE_SUFFIX, KEY, TO_KEY)                                                  \
     void hodu_cpu_topk_##TYPE_SUFFIX(const void *input, void *values, void *indices,               \
                                      const size_t *metadata) {                                     \
         const size_t k = metadata[1];                                                              \
@@ -108,7 +112,8 @@ static void topk_select(ValueIndex *arr, size_t n, size_t k, int largest, int so
         i32_t *idx_out = (i32_t *)indices;                                                         \
                                                                                                    \
         /* Allocate temporary buffer for sorting */                                                \
-        ValueIndex *temp = (ValueIndex *)malloc(last_dim_size * sizeof(ValueIndex));               \
+        ValueIndex_##KEY *temp =                                                                   \
+            (ValueIndex_##KEY *)malloc(last_dim_size * sizeof(ValueIndex_##KEY));                  \
         if (!temp)                                                                                 \
             return;                                                                                \
                                                                                                    \
@@ -117,12 +122,12 @@ static void topk_select(ValueIndex *arr, size_t n, size_t k, int largest, int so
                                                                                                    \
             /* Fill temporary buffer with values and indices */                                    \
             for (size_t i = 0; i < last_dim_size; i++) {                                           \
-                temp[i].value = TO_FLOAT(row[i]);                                                  \
+                temp[i].value = TO_KEY(row[i]);                                                    \
                 temp[i].index = (i32_t)i;                                                          \
             }                                                                                      \
                                                                                                    \
             /* Select top-k elements */                                                            \
-            topk_select(temp, last_dim_size, k, largest, sorted);                                  \
+            topk_select_##KEY(temp, last_dim_size, k, largest, sorted);                            \
                                                                                                    \
             /* Copy top-k results to output */                                                     \
             TYPE *val_row = val_out + outer * k;                                                   \
@@ -138,17 +143,17 @@ static void topk_select(ValueIndex *arr, size_t n, size_t k, int largest, int so
 
 #define IDENTITY(x) (x)
 
-IMPL_TOPK(f32_t, f32, IDENTITY)
-IMPL_TOPK(f64_t, f64, IDENTITY)
-IMPL_TOPK(u8_t, u8, IDENTITY)
-IMPL_TOPK(u16_t, u16, IDENTITY)
-IMPL_TOPK(u32_t, u32, IDENTITY)
-IMPL_TOPK(u64_t, u64, IDENTITY)
-IMPL_TOPK(i8_t, i8, IDENTITY)
-IMPL_TOPK(i16_t, i16, IDENTITY)
-IMPL_TOPK(i32_t, i32, IDENTITY)
-IMPL_TOPK(i64_t, i64, IDENTITY)
-IMPL_TOPK(bf16_t, bf16, bf16_to_float)
-IMPL_TOPK(f16_t, f16, f16_to_float)
-IMPL_TOPK(f8e4m3_t, f8e4m3, f8e4m3_to_float)
-IMPL_TOPK(f8e5m2_t, f8e5m2, f8e5m2_to_float)
+IMPL_TOPK(f32_t, f32, f32, IDENTITY)
+IMPL_TOPK(f64_t, f64, f64, IDENTITY)
+IMPL_TOPK(u8_t, u8, u64, IDENTITY)
+IMPL_TOPK(u16_t, u16, u64, IDENTITY)
+IMPL_TOPK(u32_t, u32, u64, IDENTITY)
+IMPL_TOPK(u64_t, u64, u64, IDENTITY)
+IMPL_TOPK(i8_t, i8, i64, IDENTITY)
+IMPL_TOPK(i16_t, i16, i64, IDENTITY)
+IMPL_TOPK(i32_t, i32, i64, IDENTITY)
+IMPL_TOPK(i64_t, i64, i64, IDENTITY)
+IMPL_TOPK(bf16_t, bf16, f32, bf16_to_float)
+IMPL_TOPK(f16_t, f16, f32, f16_to_float)
+IMPL_TOPK(f8e4m3_t, f8e4m3, f32, f8e4m3_to_float)
+IMPL_TOPK(f8e5m2_t, f8e5m2, f32, f8e5m2_to_float)
-- 
2.43.0


From 2120e46655bcf2c1b5157909468315eb11889ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 35/55] fix: read the compress condition through its layout

---
 crates/hodu_core/src/be_cpu/storage/ops_indexing.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs b/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
index 8597642..3483e23 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
@@ -853,13 +853,16 @@ pub fn call_compress(
         )));
     }
 
-    // Extract condition as contiguous bool slice
-    let condition = match condition_storage {
-        CpuStorage::BOOL(data) => &data[..condition_layout.size()],
+    let condition_size = condition_layout.size();
+
+    // Gather the condition's logical elements (it may be an offset, strided or broadcast view)
+    let condition: Vec<bool> = match condition_storage {
+        CpuStorage::BOOL(data) => {
+            let (offset, stride) = (condition_layout.offset(), condition_layout.strides()[0]);
+            (0..condition_size).map(|i| data[offset + i * stride]).collect()
+        },
         _ => unreachable!(),
     };
-
-    let condition_size = condition_layout.size();
     let dtype = storage.dtype();
 
     // Validate axis and condition size
-- 
2.43.0


From 9ec35b3475264eeaa2f593932f4862c5e792ed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 36/55] fix: refuse cumsum and topk on unsupported types
 instead of panicking

---
 crates/hodu_core/src/be_cpu/storage/ops_scan.rs | 10 ++++++++--
 crates/hodu_core/src/be_cpu/storage/ops_sort.rs | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_scan.rs b/crates/hodu_core/src/be_cpu/storage/ops_scan.rs
index 5d1bd40..881c1fa 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_scan.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_scan.rs
@@ -1,7 +1,8 @@
 use crate::{
     be::{device::BackendDeviceT, storage::BackendStorageT},
     be_cpu::{device::CpuDevice, storage::CpuStorage},
-    error::HoduResult,
+    error::{HoduError, HoduResult},
+    ops::{Op, ScanOp},
     types::Layout,
 };
 use core::ffi::c_void;
@@ -48,7 +49,12 @@ pub fn call_ops_cumsum(storage: &CpuStorage, layout: &Layout, dim: usize) -> Hod
         (CpuStorage::I32(input), CpuStorage::I32(out)) => call_cumsum!(input, out),
         #[cfg(feature = "i64")]
         (CpuStorage::I64(input), CpuStorage::I64(out)) => call_cumsum!(input, out),
-        _ => unreachable!("dtype mismatch or unsupported dtype for cumsum"),
+        _ => {
+            return Err(HoduError::UnsupportedDTypeForOp {
+                dtype,
+                op: Op::Scan(ScanOp::CumSum),
+            })
+        },
     }
 
     Ok(output)
diff --git a/crates/hodu_core/src/be_cpu/storage/ops_sort.rs b/crates/hodu_core/src/be_cpu/storage/ops_sort.rs
index 1b73125..40363b6 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_sort.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_sort.rs
@@ -1,7 +1,8 @@
 use crate::{
     be::{device::BackendDeviceT, storage::BackendStorageT},
     be_cpu::{device::CpuDevice, storage::CpuStorage},
-    error::HoduResult,
+    error::{HoduError, HoduResult},
+    ops::{Op, SortOp},
     types::{DType, Layout},
 };
 use core::ffi::c_void;
@@ -60,7 +61,12 @@ pub fn call_topk(
         (CpuStorage::I32(input), CpuStorage::I32(out)) => call_topk!(input, out),
         #[cfg(feature = "i64")]
         (CpuStorage::I64(input), CpuStorage::I64(out)) => call_topk!(input, out),
-        _ => unreachable!("dtype mismatch or unsupported dtype for topk"),
+        _ => {
+            return Err(HoduError::UnsupportedDTypeForOp {
+                dtype,
+                op: Op::Sort(SortOp::TopK),
+            })
+        },
     }
 
     Ok((values_output, indices_output))
-- 
2.43.0


From f4d857e004a5b3dba557e86d558e69a2e9588236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 37/55] fix: refuse shapes whose element count overflows in
 Tensor::from_bytes and from_slice

---
 crates/hodu_core/src/tensor/bytes.rs    | 5 ++++-
 crates/hodu_core/src/tensor/creation.rs | 4 ++--
 crates/hodu_core/src/types/shape.rs     | 8 ++++++++
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/crates/hodu_core/src/tensor/bytes.rs b/crates/hodu_core/src/tensor/bytes.rs
index 86bdc44..8b09f78 100644
--- a/crates/hodu_core/src/tensor/bytes.rs
+++ b/crates/hodu_core/src/tensor/bytes.rs
@@ -37,7 +37,10 @@ impl Tensor {
     /// Data is first loaded to CPU, then transferred to the target device if needed.
     pub fn from_bytes(data: &[u8], shape: impl Into<Shape>, dtype: DType, device: Device) -> HoduResult<Self> {
         let shape = shape.into();
-        let expected_size = shape.size() * dtype.size_in_bytes();
+        let expected_size = shape
+            .checked_size()
+            .and_then(|size| size.checked_mul(dtype.size_in_bytes()))
+            .ok_or_else(|| HoduError::InvalidArgument(format!("Shape {:?} is too large", shape.dims())))?;
 
         if data.len() != expected_size {
             return Err(HoduError::InvalidArgument(format!(
diff --git a/crates/hodu_core/src/tensor/creation.rs b/crates/hodu_core/src/tensor/creation.rs
index 8fb1c0d..fc6d56b 100644
--- a/crates/hodu_core/src/tensor/creation.rs
+++ b/crates/hodu_core/src/tensor/creation.rs
@@ -75,9 +75,9 @@ impl Tensor {
         let shape = shape.into();
         let data_shape = Shape::from(&data_shape_vec);
 
-        if shape.size() != data_shape.size() {
+        if shape.checked_size() != Some(data_shape.size()) {
             return Err(HoduError::SizeMismatch {
-                expected: shape.size(),
+                expected: shape.checked_size().unwrap_or(usize::MAX),
                 got: data_shape.size(),
             });
         }
diff --git a/crates/hodu_core/src/types/shape.rs b/crates/hodu_core/src/types/shape.rs
index c87564a..a0c43b5 100644
--- a/crates/hodu_core/src/types/shape.rs
+++ b/crates/hodu_core/src/types/shape.rs
@@ -69,6 +69,14 @@ impl Shape {
         self.dims.iter().product()
     }
 
+    /// Returns the total number of elements, or `None` if the shape is too large to be addressed.
+    pub fn checked_size(&self) -> Option<usize> {
+        self.dims
+            .iter()
+            .try_fold(1usize, |acc, &dim| acc.checked_mul(dim.max(1)))?;
+        Some(self.size())
+    }
+
     /// Returns true if this is a scalar (0 dimensions).
     #[inline]
     pub fn is_scalar(&self) -> bool {
-- 
2.43.0


From 7c05fbddb5945062eba55553af84752e2e41d7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 38/55] fix: refuse trailing bytes in hdt files

---
 crates/hodu_core/src/format/hdt.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_core/src/format/hdt.rs b/crates/hodu_core/src/format/hdt.rs
index 18b4822..ead307c 100644
--- a/crates/hodu_core/src/format/hdt.rs
+++ b/crates/hodu_core/src/format/hdt.rs
@@ -22,6 +22,14 @@ struct TensorCollection {
     tensors: Vec<(String, TensorData)>,
 }
 
+/// Decode a postcard message that spans the whole input: trailing bytes are refused
+fn from_bytes_exact<'a, T: serde::Deserialize<'a>>(data: &'a [u8]) -> Result<T, postcard::Error> {
+    match postcard::take_from_bytes(data)? {
+        (value, []) => Ok(value),
+        _ => Err(postcard::Error::SerdeDeCustom),
+    }
+}
+
 /// Load a single tensor from .hdt file
 pub fn load(path: impl AsRef<std::path::Path>) -> HoduResult<Tensor> {
     let data =
@@ -63,7 +71,7 @@ pub fn serialize(tensor: &Tensor) -> HoduResult<Vec<u8>> {
 
 /// Deserialize a single tensor from bytes
 pub fn deserialize(data: &[u8]) -> HoduResult<Tensor> {
-    let tensor_data: TensorData = postcard::from_bytes(data)
+    let tensor_data: TensorData = from_bytes_exact(data)
         .map_err(|e| HoduError::DeserializationFailed(format!("Failed to deserialize tensor: {}", e)))?;
 
     let shape = Shape::new(&tensor_data.shape);
@@ -93,7 +101,7 @@ pub fn serialize_many(tensors: &HashMap<String, Tensor>) -> HoduResult<Vec<u8>>
 
 /// Deserialize multiple named tensors from bytes
 pub fn deserialize_many(data: &[u8]) -> HoduResult<HashMap<String, Tensor>> {
-    let collection: TensorCollection = postcard::from_bytes(data)
+    let collection: TensorCollection = from_bytes_exact(data)
         .map_err(|e| HoduError::DeserializationFailed(format!("Failed to deserialize tensors: {}", e)))?;
 
     collection
-- 
2.43.0


From abcb5fe26e2cdddd55451159eb2a8b4e21a26e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 39/55] fix: json tensors keep every float value and refuse
 out-of-range integers

---
 crates/hodu_core/src/format/json.rs | 107 ++++++++++++----------------
 1 file changed, 45 insertions(+), 62 deletions(-)

diff --git a/crates/hodu_core/src/format/json.rs b/crates/hodu_core/src/format/json.rs
index 23bf41f..d88198d 100644
--- a/crates/hodu_core/src/format/json.rs
+++ b/crates/hodu_core/src/format/json.rs
@@ -21,6 +21,7 @@
 //! ```
 
 use crate::error::{HoduError, HoduResult};
+use crate::scalar::Scalar;
 use crate::tensor::Tensor;
 use crate::types::{DType, Shape};
 use float8::F8E4M3;
@@ -126,7 +127,7 @@ fn json_to_tensor(value: &Value) -> HoduResult<Tensor> {
         .iter()
         .map(|v| {
             v.as_u64()
-                .map(|n| n as usize)
+                .and_then(|n| usize::try_from(n).ok())
                 .ok_or_else(|| HoduError::DeserializationFailed("Invalid shape dimension".into()))
         })
         .collect::<HoduResult<Vec<_>>>()?;
@@ -146,6 +147,29 @@ fn json_to_tensor(value: &Value) -> HoduResult<Tensor> {
     json_data_to_tensor(data_arr, Shape::new(&shape), dtype)
 }
 
+/// Floats JSON numbers cannot carry exactly (NaN, infinities, or values the JSON parser
+/// would not read back to the same bits) are written as strings.
+fn float_to_json(v: f64) -> Value {
+    match serde_json::Number::from_f64(v) {
+        Some(n)
+            if serde_json::from_str::<f64>(&n.to_string())
+                .map(|r| r.to_bits() == v.to_bits())
+                .unwrap_or(false) =>
+        {
+            Value::Number(n)
+        },
+        _ => Value::String(v.to_string()),
+    }
+}
+
+/// Inverse of [`float_to_json`]; plain numbers are always accepted
+fn json_to_float(value: &Value) -> Option<f64> {
+    match value {
+        Value::String(s) => s.parse().ok(),
+        _ => value.as_f64(),
+    }
+}
+
 fn dtype_to_str(dtype: DType) -> &'static str {
     match dtype {
         DType::BOOL => "bool",
@@ -210,76 +234,38 @@ fn tensor_data_to_json(tensor: &Tensor) -> HoduResult<Value> {
         DType::F8E4M3 => {
             let data: Vec<F8E4M3> = tensor.to_flatten_vec()?;
             Ok(Value::Array(
-                data.into_iter()
-                    .map(|v| {
-                        serde_json::Number::from_f64(f32::from(v) as f64)
-                            .map(Value::Number)
-                            .unwrap_or(Value::Null)
-                    })
-                    .collect(),
+                data.into_iter().map(|v| float_to_json(f32::from(v) as f64)).collect(),
             ))
         },
         #[cfg(feature = "f8e5m2")]
         DType::F8E5M2 => {
             let data: Vec<F8E5M2> = tensor.to_flatten_vec()?;
             Ok(Value::Array(
-                data.into_iter()
-                    .map(|v| {
-                        serde_json::Number::from_f64(f32::from(v) as f64)
-                            .map(Value::Number)
-                            .unwrap_or(Value::Null)
-                    })
-                    .collect(),
+                data.into_iter().map(|v| float_to_json(f32::from(v) as f64)).collect(),
             ))
         },
         DType::BF16 => {
             let data: Vec<bf16> = tensor.to_flatten_vec()?;
             Ok(Value::Array(
-                data.into_iter()
-                    .map(|v| {
-                        serde_json::Number::from_f64(v.to_f64())
-                            .map(Value::Number)
-                            .unwrap_or(Value::Null)
-                    })
-                    .collect(),
+                data.into_iter().map(|v| float_to_json(v.to_f64())).collect(),
             ))
         },
         DType::F16 => {
             let data: Vec<f16> = tensor.to_flatten_vec()?;
             Ok(Value::Array(
-                data.into_iter()
-                    .map(|v| {
-                        serde_json::Number::from_f64(v.to_f64())
-                            .map(Value::Number)
-                            .unwrap_or(Value::Null)
-                    })
-                    .collect(),
+                data.into_iter().map(|v| float_to_json(v.to_f64())).collect(),
             ))
         },
         DType::F32 => {
             let data: Vec<f32> = tensor.to_flatten_vec()?;
             Ok(Value::Array(
-                data.into_iter()
-                    .map(|v| {
-                        serde_json::Number::from_f64(v as f64)
-                            .map(Value::Number)
-                            .unwrap_or(Value::Null)
-                    })
-                    .collect(),
+                data.into_iter().map(|v| float_to_json(v as f64)).collect(),
             ))
         },
         #[cfg(feature = "f64")]
         DType::F64 => {
             let data: Vec<f64> = tensor.to_flatten_vec()?;
-            Ok(Value::Array(
-                data.into_iter()
-                    .map(|v| {
-                        serde_json::Number::from_f64(v)
-                            .map(Value::Number)
-                            .unwrap_or(Value::Null)
-                    })
-                    .collect(),
-            ))
+            Ok(Value::Array(data.into_iter().map(|v| float_to_json(v)).collect()))
         },
         DType::U8 => {
             let data: Vec<u8> = tensor.to_flatten_vec()?;
@@ -357,8 +343,8 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
             let values: Vec<F8E4M3> = data
                 .iter()
                 .map(|v| {
-                    v.as_f64()
-                        .map(|f| F8E4M3::from_f32(f as f32))
+                    json_to_float(v)
+                        .map(|f| Scalar::from(f as f32).to_f8e4m3())
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected number".into()))
                 })
                 .collect::<HoduResult<Vec<_>>>()?;
@@ -369,8 +355,8 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
             let values: Vec<F8E5M2> = data
                 .iter()
                 .map(|v| {
-                    v.as_f64()
-                        .map(|f| F8E5M2::from_f32(f as f32))
+                    json_to_float(v)
+                        .map(|f| Scalar::from(f as f32).to_f8e5m2())
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected number".into()))
                 })
                 .collect::<HoduResult<Vec<_>>>()?;
@@ -380,7 +366,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
             let values: Vec<bf16> = data
                 .iter()
                 .map(|v| {
-                    v.as_f64()
+                    json_to_float(v)
                         .map(bf16::from_f64)
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected number".into()))
                 })
@@ -391,7 +377,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
             let values: Vec<f16> = data
                 .iter()
                 .map(|v| {
-                    v.as_f64()
+                    json_to_float(v)
                         .map(f16::from_f64)
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected number".into()))
                 })
@@ -402,7 +388,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
             let values: Vec<f32> = data
                 .iter()
                 .map(|v| {
-                    v.as_f64()
+                    json_to_float(v)
                         .map(|f| f as f32)
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected number".into()))
                 })
@@ -413,10 +399,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
         DType::F64 => {
             let values: Vec<f64> = data
                 .iter()
-                .map(|v| {
-                    v.as_f64()
-                        .ok_or_else(|| HoduError::DeserializationFailed("Expected number".into()))
-                })
+                .map(|v| json_to_float(v).ok_or_else(|| HoduError::DeserializationFailed("Expected number".into())))
                 .collect::<HoduResult<Vec<_>>>()?;
             Tensor::from_slice(values, shape)
         },
@@ -425,7 +408,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
                 .iter()
                 .map(|v| {
                     v.as_u64()
-                        .map(|n| n as u8)
+                        .and_then(|n| u8::try_from(n).ok())
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected integer".into()))
                 })
                 .collect::<HoduResult<Vec<_>>>()?;
@@ -437,7 +420,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
                 .iter()
                 .map(|v| {
                     v.as_u64()
-                        .map(|n| n as u16)
+                        .and_then(|n| u16::try_from(n).ok())
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected integer".into()))
                 })
                 .collect::<HoduResult<Vec<_>>>()?;
@@ -448,7 +431,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
                 .iter()
                 .map(|v| {
                     v.as_u64()
-                        .map(|n| n as u32)
+                        .and_then(|n| u32::try_from(n).ok())
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected integer".into()))
                 })
                 .collect::<HoduResult<Vec<_>>>()?;
@@ -470,7 +453,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
                 .iter()
                 .map(|v| {
                     v.as_i64()
-                        .map(|n| n as i8)
+                        .and_then(|n| i8::try_from(n).ok())
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected integer".into()))
                 })
                 .collect::<HoduResult<Vec<_>>>()?;
@@ -482,7 +465,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
                 .iter()
                 .map(|v| {
                     v.as_i64()
-                        .map(|n| n as i16)
+                        .and_then(|n| i16::try_from(n).ok())
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected integer".into()))
                 })
                 .collect::<HoduResult<Vec<_>>>()?;
@@ -493,7 +476,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
                 .iter()
                 .map(|v| {
                     v.as_i64()
-                        .map(|n| n as i32)
+                        .and_then(|n| i32::try_from(n).ok())
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected integer".into()))
                 })
                 .collect::<HoduResult<Vec<_>>>()?;
-- 
2.43.0


From ea59a05e19fbba4e88370165db300467b306fbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 40/55] fix: refuse snapshots with trailing bytes or
 self-contradicting constants and layouts

---
 crates/hodu_core/src/snapshot.rs | 43 +++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/crates/hodu_core/src/snapshot.rs b/crates/hodu_core/src/snapshot.rs
index 51289f1..a0d8f3e 100644
--- a/crates/hodu_core/src/snapshot.rs
+++ b/crates/hodu_core/src/snapshot.rs
@@ -96,7 +96,48 @@ impl Snapshot {
 
     #[cfg(feature = "serde")]
     pub fn from_bytes(data: &[u8]) -> crate::error::HoduResult<Self> {
-        postcard::from_bytes(data).map_err(|e| crate::error::HoduError::DeserializationFailed(e.to_string()))
+        let (snapshot, rest): (Self, &[u8]) = postcard::take_from_bytes(data)
+            .map_err(|e| crate::error::HoduError::DeserializationFailed(e.to_string()))?;
+        if !rest.is_empty() {
+            return Err(crate::error::HoduError::DeserializationFailed(format!(
+                "{} unexpected trailing bytes",
+                rest.len()
+            )));
+        }
+        snapshot.check_consistency()?;
+        Ok(snapshot)
+    }
+
+    /// Refuse snapshots whose constants or layouts contradict themselves
+    #[cfg(feature = "serde")]
+    fn check_consistency(&self) -> crate::error::HoduResult<()> {
+        for constant in &self.constants {
+            let expected = constant
+                .shape
+                .checked_size()
+                .and_then(|size| size.checked_mul(constant.dtype.size_in_bytes()));
+            if expected != Some(constant.data.len()) {
+                return Err(crate::error::HoduError::DeserializationFailed(format!(
+                    "constant {} has {} bytes, which does not match shape {:?} with dtype {:?}",
+                    constant.id.0,
+                    constant.data.len(),
+                    constant.shape.dims(),
+                    constant.dtype
+                )));
+            }
+        }
+        for node in &self.nodes {
+            for layout in node.input_layouts.iter().chain(std::iter::once(&node.output_layout)) {
+                if layout.strides().len() != layout.ndim() {
+                    return Err(crate::error::HoduError::DeserializationFailed(format!(
+                        "layout with {} axes has {} strides",
+                        layout.ndim(),
+                        layout.strides().len()
+                    )));
+                }
+            }
+        }
+        Ok(())
     }
 
     #[cfg(feature = "serde")]
-- 
2.43.0


From ed2e10a75b710832715c62bad011e772a7f5723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 41/55] fix: refuse plugins reporting a malformed protocol
 version

---
 crates/hodu_plugin_runtime/src/client.rs | 27 ++++++++++++++----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/crates/hodu_plugin_runtime/src/client.rs b/crates/hodu_plugin_runtime/src/client.rs
index dd40e43..19a0366 100644
--- a/crates/hodu_plugin_runtime/src/client.rs
+++ b/crates/hodu_plugin_runtime/src/client.rs
@@ -376,21 +376,26 @@ pub enum ClientError {
     Timeout(Duration),
 }
 
+/// Parse `major.minor.patch` (pre-release and build suffixes are ignored); `None` if malformed
+fn parse_version(version: &str) -> Option<(u32, u32)> {
+    let mut parts = version.split(['-', '+']).next()?.split('.');
+    let major = parts.next()?.parse().ok()?;
+    let minor = parts.next()?.parse().ok()?;
+    let _patch: u32 = parts.next()?.parse().ok()?;
+    match parts.next() {
+        None => Some((major, minor)),
+        Some(_) => None,
+    }
+}
+
 /// Check if two protocol versions are compatible
 /// - For 0.x.y: major.minor must match (unstable API)
 /// - For >= 1.0.0: major must match
+/// - A malformed version is compatible with nothing
 fn is_protocol_compatible(v1: &str, v2: &str) -> bool {
-    let parts1: Vec<u32> = v1.split('.').filter_map(|s| s.parse().ok()).collect();
-    let parts2: Vec<u32> = v2.split('.').filter_map(|s| s.parse().ok()).collect();
-
-    let (major1, minor1) = (
-        parts1.first().copied().unwrap_or(0),
-        parts1.get(1).copied().unwrap_or(0),
-    );
-    let (major2, minor2) = (
-        parts2.first().copied().unwrap_or(0),
-        parts2.get(1).copied().unwrap_or(0),
-    );
+    let (Some((major1, minor1)), Some((major2, minor2))) = (parse_version(v1), parse_version(v2)) else {
+        return false;
+    };
 
     if major1 == 0 || major2 == 0 {
         // Pre-1.0: major.minor must match
-- 
2.43.0


From 842e353f3f60111d7cff32caf1ac8023386952b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 42/55] fix: TensorData::is_valid refuses shapes whose byte
 size overflows

---
 crates/hodu_plugin/src/tensor.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_plugin/src/tensor.rs b/crates/hodu_plugin/src/tensor.rs
index 7ff600d..9e2cacb 100644
--- a/crates/hodu_plugin/src/tensor.rs
+++ b/crates/hodu_plugin/src/tensor.rs
@@ -175,8 +175,11 @@ impl TensorData {
 
     /// Check if tensor data is valid (size matches shape * dtype)
     pub fn is_valid(&self) -> bool {
-        let expected_size = self.numel() * self.dtype.size_in_bytes();
-        self.data.len() == expected_size
+        let expected_size = self
+            .shape
+            .iter()
+            .try_fold(self.dtype.size_in_bytes(), |size, &dim| size.checked_mul(dim));
+        expected_size == Some(self.data.len())
     }
 
     /// Get tensor rank (number of dimensions)
-- 
2.43.0


From f1b45ff1748656ec6c7d929c39f4dd06a6e76307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 43/55] fix: refuse json tensor inputs whose data does not
 match their shape

---
 hodu-cli/src/tensor/loader.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/hodu-cli/src/tensor/loader.rs b/hodu-cli/src/tensor/loader.rs
index 807d12e..653eab7 100644
--- a/hodu-cli/src/tensor/loader.rs
+++ b/hodu-cli/src/tensor/loader.rs
@@ -69,7 +69,11 @@ fn load_tensor_json(
         .and_then(|v| v.as_array())
         .ok_or("Missing 'shape' field")?
         .iter()
-        .map(|v| v.as_u64().map(|n| n as usize).ok_or("Invalid shape dimension"))
+        .map(|v| {
+            v.as_u64()
+                .and_then(|n| usize::try_from(n).ok())
+                .ok_or("Invalid shape dimension")
+        })
         .collect::<Result<Vec<_>, _>>()?;
 
     if shape != expected_shape {
@@ -102,7 +106,17 @@ fn load_tensor_json(
 
     let data = json_array_to_bytes(data_arr, dtype)?;
 
-    Ok(TensorData::new(data, shape, dtype))
+    let tensor = TensorData::new(data, shape, dtype);
+    if !tensor.is_valid() {
+        return Err(format!(
+            "Data mismatch: file has {} elements, shape {:?} does not",
+            data_arr.len(),
+            tensor.shape
+        )
+        .into());
+    }
+
+    Ok(tensor)
 }
 
 pub fn str_to_plugin_dtype(s: &str) -> Result<PluginDType, Box<dyn std::error::Error>> {
@@ -148,7 +162,7 @@ fn json_array_to_bytes(arr: &[serde_json::Value], dtype: PluginDType) -> Result<
         },
         PluginDType::I32 => {
             for v in arr {
-                let n = v.as_i64().ok_or("Expected integer")? as i32;
+                let n = i32::try_from(v.as_i64().ok_or("Expected integer")?)?;
                 bytes.extend_from_slice(&n.to_le_bytes());
             }
         },
-- 
2.43.0


From 218f353b1dd0347c763ffa12d008538cf00aa20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 44/55] fix: plugin install refuses malformed and pre-1.0
 incompatible protocol versions

---
 hodu-cli/src/commands/plugin/install.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/hodu-cli/src/commands/plugin/install.rs b/hodu-cli/src/commands/plugin/install.rs
index 42357de..84ad782 100644
--- a/hodu-cli/src/commands/plugin/install.rs
+++ b/hodu-cli/src/commands/plugin/install.rs
@@ -334,7 +334,11 @@ pub fn install_from_path(
     let host_parts: Vec<u32> = PLUGIN_VERSION.split('.').filter_map(|s| s.parse().ok()).collect();
     let plugin_parts: Vec<u32> = plugin_version.split('.').filter_map(|s| s.parse().ok()).collect();
 
-    if host_parts.len() >= 2 && plugin_parts.len() >= 2 {
+    if plugin_parts.len() < 2 || plugin_parts.len() != plugin_version.split('.').count() {
+        return Err(format!("Plugin has a malformed protocol version: {}", plugin_version).into());
+    }
+
+    if host_parts.len() >= 2 {
         let (host_major, host_minor) = (host_parts[0], host_parts[1]);
         let (plugin_major, plugin_minor) = (plugin_parts[0], plugin_parts[1]);
 
@@ -346,6 +350,15 @@ pub fn install_from_path(
             .into());
         }
 
+        // Pre-1.0: major.minor must match (unstable API)
+        if host_major == 0 && host_minor != plugin_minor {
+            return Err(format!(
+                "Plugin protocol version mismatch: host={}, plugin={}",
+                PLUGIN_VERSION, plugin_version
+            )
+            .into());
+        }
+
         if host_minor < plugin_minor {
             return Err(format!(
                 "Plugin requires newer protocol version: host={}, plugin={}",
-- 
2.43.0


From f0606822c56595ea6f99393401ef7d5837c16414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 45/55] fix: DataLoader seeds near the maximum no longer
 overflow

---
 crates/hodu_datasets/src/data/dataloader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hodu_datasets/src/data/dataloader.rs b/crates/hodu_datasets/src/data/dataloader.rs
index 03d375e..fe91461 100644
--- a/crates/hodu_datasets/src/data/dataloader.rs
+++ b/crates/hodu_datasets/src/data/dataloader.rs
@@ -187,7 +187,7 @@ impl<D: Dataset> DataLoader<D> {
         use rand::rngs::SmallRng;
 
         let length = self.indices.len();
-        let seed_base = self.seed.unwrap_or(0) + self.epoch;
+        let seed_base = self.seed.unwrap_or(0).wrapping_add(self.epoch);
         let mut rng = SmallRng::seed_from_u64(seed_base);
 
         for i in (1..length).rev() {
-- 
2.43.0


From 2d4beb13152c0da2ec3c07f426ba3cdc72bda4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:06 +0000
Subject: [PATCH 46/55] fix: accept protocol versions with components beyond
 u32

---
 crates/hodu_plugin_runtime/src/client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_plugin_runtime/src/client.rs b/crates/hodu_plugin_runtime/src/client.rs
index 19a0366..90578fd 100644
--- a/crates/hodu_plugin_runtime/src/client.rs
+++ b/crates/hodu_plugin_runtime/src/client.rs
@@ -377,11 +377,11 @@ pub enum ClientError {
 }
 
 /// Parse `major.minor.patch` (pre-release and build suffixes are ignored); `None` if malformed
-fn parse_version(version: &str) -> Option<(u32, u32)> {
+fn parse_version(version: &str) -> Option<(u64, u64)> {
     let mut parts = version.split(['-', '+']).next()?.split('.');
     let major = parts.next()?.parse().ok()?;
     let minor = parts.next()?.parse().ok()?;
-    let _patch: u32 = parts.next()?.parse().ok()?;
+    let _patch: u64 = parts.next()?.parse().ok()?;
     match parts.next() {
         None => Some((major, minor)),
         Some(_) => None,
-- 
2.43.0


From ddb8d50b7a33f5d838ec9cca449f60d9f8639a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:19 +0000
Subject: [PATCH 47/55] fix: where, masked_fill and clamp pick the right
 operand and never blend infinities

---
 crates/hodu_core/src/tensor/ops/selection.rs | 23 ++++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/selection.rs b/crates/hodu_core/src/tensor/ops/selection.rs
index df9ba35..c6cfdca 100644
--- a/crates/hodu_core/src/tensor/ops/selection.rs
+++ b/crates/hodu_core/src/tensor/ops/selection.rs
@@ -2,25 +2,24 @@ use crate::{
     error::HoduResult,
     scalar::Scalar,
     tensor::{utils::broadcast_tensors3, Tensor},
+    types::DType,
 };
 
 impl Tensor {
+    /// Element-wise choice: `self` where `condition` is non-zero, `other` elsewhere.
     pub fn where3(&self, condition: &Tensor, other: &Tensor) -> HoduResult<Self> {
         let (condition, x, y) = broadcast_tensors3(condition, self, other)?;
 
-        let mask = condition.to_dtype(x.dtype())?;
-        let one = Self::ones_like(&mask)?;
-        let inv_mask = one.sub(&mask)?;
-
-        let x_part = mask.mul(&x)?;
-        let y_part = inv_mask.mul(&y)?;
-        x_part.add(&y_part)
+        // Pick from the stacked candidates: blending with `mask * x + (1 - mask) * y` would turn an
+        // infinity or NaN that is not selected into NaN
+        let indices = condition.to_dtype(DType::BOOL)?.to_dtype(DType::I32)?.unsqueeze(0)?;
+        Self::stack(&[&y, &x], 0)?.gather(0, &indices)?.squeeze(&[0])
     }
 
     pub fn masked_fill<T: Into<Scalar>>(&self, mask: &Tensor, value: T) -> HoduResult<Self> {
         let value_scalar = value.into();
         let fill_tensor = Self::full_like(self, value_scalar)?;
-        self.where3(mask, &fill_tensor)
+        fill_tensor.where3(mask, self)
     }
 
     pub fn clamp<T: Into<Scalar>>(&self, min: T, max: T) -> HoduResult<Self> {
@@ -28,21 +27,21 @@ impl Tensor {
         let max_scalar = max.into();
 
         let min_tensor = Self::full_like(self, min_scalar)?;
-        let clamped_min = self.where3(&self.lt_scalar(min_scalar)?, &min_tensor)?;
+        let clamped_min = min_tensor.where3(&self.lt_scalar(min_scalar)?, self)?;
 
         let max_tensor = Self::full_like(&clamped_min, max_scalar)?;
-        clamped_min.where3(&clamped_min.gt_scalar(max_scalar)?, &max_tensor)
+        max_tensor.where3(&clamped_min.gt_scalar(max_scalar)?, &clamped_min)
     }
 
     pub fn clamp_min<T: Into<Scalar>>(&self, min: T) -> HoduResult<Self> {
         let min_scalar = min.into();
         let min_tensor = Self::full_like(self, min_scalar)?;
-        self.where3(&self.lt_scalar(min_scalar)?, &min_tensor)
+        min_tensor.where3(&self.lt_scalar(min_scalar)?, self)
     }
 
     pub fn clamp_max<T: Into<Scalar>>(&self, max: T) -> HoduResult<Self> {
         let max_scalar = max.into();
         let max_tensor = Self::full_like(self, max_scalar)?;
-        self.where3(&self.gt_scalar(max_scalar)?, &max_tensor)
+        max_tensor.where3(&self.gt_scalar(max_scalar)?, self)
     }
 }
-- 
2.43.0


From d5a7ac927ecda4d32fedf39fca9e88fce48f6558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:19 +0000
Subject: [PATCH 48/55] fix: embedding zeroes the padding rows instead of
 refusing the mask

---
 crates/hodu_nn/src/modules/embedding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hodu_nn/src/modules/embedding.rs b/crates/hodu_nn/src/modules/embedding.rs
index 8ccdc28..4e8e6fb 100644
--- a/crates/hodu_nn/src/modules/embedding.rs
+++ b/crates/hodu_nn/src/modules/embedding.rs
@@ -165,7 +165,7 @@ impl Embedding {
         let zero = Tensor::zeros(mask.shape(), embeddings.dtype())?;
 
         // Convert bool mask to float: where(mask, 0.0, 1.0)
-        let float_mask = mask.where3(&zero, &one)?;
+        let float_mask = zero.where3(&mask, &one)?;
 
         // Apply mask
         embeddings.mul(&float_mask)
-- 
2.43.0


From 2f257253d4a4795e0b199d961e01bcde97076eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:48 +0000
Subject: [PATCH 49/55] fix: integer matrix inverse no longer divides by zero
 on singular matrices

---
 crates/hodu_cpu_kernels/kernels/ops_linalg.c | 35 +++++++++++---------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_linalg.c b/crates/hodu_cpu_kernels/kernels/ops_linalg.c
index 7f979a5..c288c08 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_linalg.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_linalg.c
@@ -317,8 +317,13 @@ DET_OP(uint64_t, u64)
 #define INV_SET(output, batch_offset, row, col, n, value)                                          \
     ((output)[(batch_offset) + (row) * (n) + (col)] = (value))
 
+/// Division used by the matrix inverse, integer division by zero gives 0
+#define INV_DIV_FLOAT(x, y) ((x) / (y))
+#define INV_DIV_UINT(x, y) (((y) != 0) ? ((x) / (y)) : 0)
+#define INV_DIV_INT(x, y) (((y) == 0) ? 0 : ((y) == -1) ? (0 - (x)) : ((x) / (y)))
+
 /// Macro for matrix inverse operation
-#define INV_OP(TYPE, TYPE_SUFFIX)                                                                  \
+#define INV_OP(TYPE, TYPE_SUFFIX, DIV)                                                             \
     void hodu_cpu_inv_##TYPE_SUFFIX(const void *input_ptr, void *output_ptr,                       \
                                     const size_t *metadata) {                                      \
         const TYPE *input = (const TYPE *)input_ptr;                                               \
@@ -350,14 +355,14 @@ DET_OP(uint64_t, u64)
                                                                                                    \
             if (n == 1) {                                                                          \
                 TYPE a = DET_GET(input, batch_offset, 0, 0, row_stride, col_stride);               \
-                INV_SET(output, out_batch_offset, 0, 0, n, (TYPE)1 / a);                           \
+                INV_SET(output, out_batch_offset, 0, 0, n, DIV((TYPE)1, a));                       \
             } else if (n == 2) {                                                                   \
                 TYPE a = DET_GET(input, batch_offset, 0, 0, row_stride, col_stride);               \
                 TYPE b = DET_GET(input, batch_offset, 0, 1, row_stride, col_stride);               \
                 TYPE c = DET_GET(input, batch_offset, 1, 0, row_stride, col_stride);               \
                 TYPE d_val = DET_GET(input, batch_offset, 1, 1, row_stride, col_stride);           \
                 TYPE det = a * d_val - b * c;                                                      \
-                TYPE inv_det = (TYPE)1 / det;                                                      \
+                TYPE inv_det = DIV((TYPE)1, det);                                                  \
                 INV_SET(output, out_batch_offset, 0, 0, n, d_val * inv_det);                       \
                 INV_SET(output, out_batch_offset, 0, 1, n, -b * inv_det);                          \
                 INV_SET(output, out_batch_offset, 1, 0, n, -c * inv_det);                          \
@@ -376,7 +381,7 @@ DET_OP(uint64_t, u64)
                                                                                                    \
                 TYPE det =                                                                         \
                     a * (e * i - f * h) - b * (d_val * i - f * g) + c * (d_val * h - e * g);       \
-                TYPE inv_det = (TYPE)1 / det;                                                      \
+                TYPE inv_det = DIV((TYPE)1, det);                                                  \
                                                                                                    \
                 /* Adjugate matrix / det */                                                        \
                 INV_SET(output, out_batch_offset, 0, 0, n, (e * i - f * h) * inv_det);             \
@@ -431,7 +436,7 @@ DET_OP(uint64_t, u64)
                     /* Scale pivot row */                                                          \
                     TYPE pivot = aug[k * 2 * n + k];                                               \
                     for (size_t jj = 0; jj < 2 * n; jj++) {                                        \
-                        aug[k * 2 * n + jj] /= pivot;                                              \
+                        aug[k * 2 * n + jj] = DIV(aug[k * 2 * n + jj], pivot);                     \
                     }                                                                              \
                                                                                                    \
                     /* Eliminate column k in other rows */                                         \
@@ -598,8 +603,8 @@ DET_OP(uint64_t, u64)
     }
 
 // Generate inv implementations
-INV_OP(f32_t, f32)
-INV_OP(f64_t, f64)
+INV_OP(f32_t, f32, INV_DIV_FLOAT)
+INV_OP(f64_t, f64, INV_DIV_FLOAT)
 INV_OP_EXOTIC(f8e4m3_t, f8e4m3, F8E4M3_ZERO, F8E4M3_ONE, f8e4m3_add, f8e4m3_sub, f8e4m3_mul,
               f8e4m3_div, f8e4m3_neg, f8e4m3_abs, f8e4m3_lt)
 INV_OP_EXOTIC(f8e5m2_t, f8e5m2, F8E5M2_ZERO, F8E5M2_ONE, f8e5m2_add, f8e5m2_sub, f8e5m2_mul,
@@ -608,14 +613,14 @@ INV_OP_EXOTIC(bf16_t, bf16, BF16_ZERO, BF16_ONE, bf16_add, bf16_sub, bf16_mul, b
               bf16_abs, bf16_lt)
 INV_OP_EXOTIC(f16_t, f16, F16_ZERO, F16_ONE, f16_add, f16_sub, f16_mul, f16_div, f16_neg, f16_abs,
               f16_lt)
-INV_OP(int8_t, i8)
-INV_OP(int16_t, i16)
-INV_OP(int32_t, i32)
-INV_OP(int64_t, i64)
-INV_OP(uint8_t, u8)
-INV_OP(uint16_t, u16)
-INV_OP(uint32_t, u32)
-INV_OP(uint64_t, u64)
+INV_OP(int8_t, i8, INV_DIV_INT)
+INV_OP(int16_t, i16, INV_DIV_INT)
+INV_OP(int32_t, i32, INV_DIV_INT)
+INV_OP(int64_t, i64, INV_DIV_INT)
+INV_OP(uint8_t, u8, INV_DIV_UINT)
+INV_OP(uint16_t, u16, INV_DIV_UINT)
+INV_OP(uint32_t, u32, INV_DIV_UINT)
+INV_OP(uint64_t, u64, INV_DIV_UINT)
 
 // ============================================================================
 // MATRIX TRACE
-- 
2.43.0


From 4f10e6fd2e1d95e35761790567125791ba41bd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:48 +0000
Subject: [PATCH 50/55] fix: dispatch the rem kernels

---
 crates/hodu_cpu_kernels/src/kernels/ops_binary.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_binary.rs b/crates/hodu_cpu_kernels/src/kernels/ops_binary.rs
index e2d8232..1c7e675 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_binary.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_binary.rs
@@ -18,6 +18,7 @@ ops!(
     mul,
     div,
     pow,
+    rem,
     maximum,
     minimum,
     logical_and,
@@ -177,6 +178,7 @@ declare_and_dispatch_binary!(
     mul,
     div,
     pow,
+    rem,
     maximum,
     minimum,
     logical_and,
-- 
2.43.0


From c210cc10787e126e82d953073e5e3941ff2581c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:48 +0000
Subject: [PATCH 51/55] fix: add CPU kernels for leaky_relu, elu and prelu and
 dispatch rem_scalar

---
 crates/hodu_cpu_kernels/kernels/ops_unary.c   | 30 ++++++++++++++++
 .../hodu_cpu_kernels/src/kernels/ops_unary.rs | 34 +++++++++++++++++--
 2 files changed, 61 insertions(+), 3 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary.c b/crates/hodu_cpu_kernels/kernels/ops_unary.c
index 8fe1985..be7de68 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary.c
@@ -796,6 +796,9 @@ IMPL_UNARY_WITH_SCALAR(f32_t, f32, rem_scalar, fmodf(x, const_val))
 IMPL_UNARY_WITH_SCALAR(f32_t, f32, pow_scalar, powf_opt(x, const_val))
 IMPL_UNARY_WITH_SCALAR(f32_t, f32, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(f32_t, f32, minimum_scalar, MINIMUM(x, const_val))
+IMPL_UNARY_WITH_SCALAR(f32_t, f32, leaky_relu, (x > 0.0f) ? x : const_val *x)
+IMPL_UNARY_WITH_SCALAR(f32_t, f32, elu, (x > 0.0f) ? x : const_val *(expf(x) - 1.0f))
+IMPL_UNARY_WITH_SCALAR(f32_t, f32, prelu, (x > 0.0f) ? x : const_val *x)
 
 // Scalar comparison operations
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(f32_t, f32, eq_scalar, x == const_val)
@@ -1162,6 +1165,9 @@ IMPL_UNARY_WITH_SCALAR(f64_t, f64, rem_scalar, fmod(x, const_val))
 IMPL_UNARY_WITH_SCALAR(f64_t, f64, pow_scalar, pow_opt(x, const_val))
 IMPL_UNARY_WITH_SCALAR(f64_t, f64, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(f64_t, f64, minimum_scalar, MINIMUM(x, const_val))
+IMPL_UNARY_WITH_SCALAR(f64_t, f64, leaky_relu, (x > 0.0) ? x : const_val *x)
+IMPL_UNARY_WITH_SCALAR(f64_t, f64, elu, (x > 0.0) ? x : const_val *(exp(x) - 1.0))
+IMPL_UNARY_WITH_SCALAR(f64_t, f64, prelu, (x > 0.0) ? x : const_val *x)
 
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(f64_t, f64, eq_scalar, x == const_val)
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(f64_t, f64, ne_scalar, x != const_val)
@@ -1294,6 +1300,12 @@ IMPL_UNARY_WITH_SCALAR_CONVERT(f8e4m3_t, f8e4m3, maximum_scalar, MAXIMUM(x, cons
                                f8e4m3_to_float, float_to_f8e4m3)
 IMPL_UNARY_WITH_SCALAR_CONVERT(f8e4m3_t, f8e4m3, minimum_scalar, MINIMUM(x, const_val),
                                f8e4m3_to_float, float_to_f8e4m3)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e4m3_t, f8e4m3, leaky_relu, (x > 0.0f) ? x : const_val *x,
+                               f8e4m3_to_float, float_to_f8e4m3)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e4m3_t, f8e4m3, elu, (x > 0.0f) ? x : const_val *(expf(x) - 1.0f),
+                               f8e4m3_to_float, float_to_f8e4m3)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e4m3_t, f8e4m3, prelu, (x > 0.0f) ? x : const_val *x,
+                               f8e4m3_to_float, float_to_f8e4m3)
 
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(f8e4m3_t, f8e4m3, eq_scalar, x == const_val, f8e4m3_to_float)
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(f8e4m3_t, f8e4m3, ne_scalar, x != const_val, f8e4m3_to_float)
@@ -1380,6 +1392,12 @@ IMPL_UNARY_WITH_SCALAR_CONVERT(f8e5m2_t, f8e5m2, maximum_scalar, MAXIMUM(x, cons
                                f8e5m2_to_float, float_to_f8e5m2)
 IMPL_UNARY_WITH_SCALAR_CONVERT(f8e5m2_t, f8e5m2, minimum_scalar, MINIMUM(x, const_val),
                                f8e5m2_to_float, float_to_f8e5m2)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e5m2_t, f8e5m2, leaky_relu, (x > 0.0f) ? x : const_val *x,
+                               f8e5m2_to_float, float_to_f8e5m2)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e5m2_t, f8e5m2, elu, (x > 0.0f) ? x : const_val *(expf(x) - 1.0f),
+                               f8e5m2_to_float, float_to_f8e5m2)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e5m2_t, f8e5m2, prelu, (x > 0.0f) ? x : const_val *x,
+                               f8e5m2_to_float, float_to_f8e5m2)
 
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(f8e5m2_t, f8e5m2, eq_scalar, x == const_val, f8e5m2_to_float)
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(f8e5m2_t, f8e5m2, ne_scalar, x != const_val, f8e5m2_to_float)
@@ -1460,6 +1478,12 @@ IMPL_UNARY_WITH_SCALAR_CONVERT(bf16_t, bf16, maximum_scalar, MAXIMUM(x, const_va
                                float_to_bf16)
 IMPL_UNARY_WITH_SCALAR_CONVERT(bf16_t, bf16, minimum_scalar, MINIMUM(x, const_val), bf16_to_float,
                                float_to_bf16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(bf16_t, bf16, leaky_relu, (x > 0.0f) ? x : const_val *x,
+                               bf16_to_float, float_to_bf16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(bf16_t, bf16, elu, (x > 0.0f) ? x : const_val *(expf(x) - 1.0f),
+                               bf16_to_float, float_to_bf16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(bf16_t, bf16, prelu, (x > 0.0f) ? x : const_val *x, bf16_to_float,
+                               float_to_bf16)
 
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(bf16_t, bf16, eq_scalar, x == const_val, bf16_to_float)
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(bf16_t, bf16, ne_scalar, x != const_val, bf16_to_float)
@@ -1537,6 +1561,12 @@ IMPL_UNARY_WITH_SCALAR_CONVERT(f16_t, f16, maximum_scalar, MAXIMUM(x, const_val)
                                float_to_f16)
 IMPL_UNARY_WITH_SCALAR_CONVERT(f16_t, f16, minimum_scalar, MINIMUM(x, const_val), f16_to_float,
                                float_to_f16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f16_t, f16, leaky_relu, (x > 0.0f) ? x : const_val *x, f16_to_float,
+                               float_to_f16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f16_t, f16, elu, (x > 0.0f) ? x : const_val *(expf(x) - 1.0f),
+                               f16_to_float, float_to_f16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f16_t, f16, prelu, (x > 0.0f) ? x : const_val *x, f16_to_float,
+                               float_to_f16)
 
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(f16_t, f16, eq_scalar, x == const_val, f16_to_float)
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(f16_t, f16, ne_scalar, x != const_val, f16_to_float)
diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs b/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
index cce6213..645490d 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
@@ -63,6 +63,7 @@ ops!(
     mul_scalar,
     div_scalar,
     pow_scalar,
+    rem_scalar,
     maximum_scalar,
     minimum_scalar,
     eq_scalar,
@@ -70,7 +71,10 @@ ops!(
     lt_scalar,
     le_scalar,
     gt_scalar,
-    ge_scalar
+    ge_scalar,
+    leaky_relu,
+    elu,
+    prelu
 );
 
 /// Call unary operation by kernel name
@@ -144,7 +148,8 @@ macro_rules! declare_and_dispatch_unary {
         all_types: [$($all_op:ident),* $(,)?],
         signed_types: [$($signed_op:ident),* $(,)?],
         float_types: [$($float_op:ident),* $(,)?],
-        scalar_ops: [$($scalar_op:ident),* $(,)?]
+        scalar_ops: [$($scalar_op:ident),* $(,)?],
+        float_scalar_ops: [$($float_scalar_op:ident),* $(,)?]
     ) => {
         paste::paste! {
             // Extern C declarations
@@ -211,6 +216,16 @@ macro_rules! declare_and_dispatch_unary {
                     fn [<hodu_cpu_ $scalar_op _i32>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
                     fn [<hodu_cpu_ $scalar_op _i64>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
                 )*
+
+                // Scalar operations supporting only float types (no bool)
+                $(
+                    fn [<hodu_cpu_ $float_scalar_op _f8e4m3>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                    fn [<hodu_cpu_ $float_scalar_op _f8e5m2>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                    fn [<hodu_cpu_ $float_scalar_op _bf16>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                    fn [<hodu_cpu_ $float_scalar_op _f16>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                    fn [<hodu_cpu_ $float_scalar_op _f32>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                    fn [<hodu_cpu_ $float_scalar_op _f64>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                )*
             }
 
             // Dispatch function
@@ -296,6 +311,16 @@ macro_rules! declare_and_dispatch_unary {
                         concat!("hodu_cpu_", stringify!($scalar_op), "_i32") => [<hodu_cpu_ $scalar_op _i32>](input, output, metadata, scalar),
                         concat!("hodu_cpu_", stringify!($scalar_op), "_i64") => [<hodu_cpu_ $scalar_op _i64>](input, output, metadata, scalar),
                     )*
+
+                    // Scalar operations (float types, no bool - blocked by valid.rs)
+                    $(
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_f8e4m3") => [<hodu_cpu_ $float_scalar_op _f8e4m3>](input, output, metadata, scalar),
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_f8e5m2") => [<hodu_cpu_ $float_scalar_op _f8e5m2>](input, output, metadata, scalar),
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_bf16") => [<hodu_cpu_ $float_scalar_op _bf16>](input, output, metadata, scalar),
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_f16") => [<hodu_cpu_ $float_scalar_op _f16>](input, output, metadata, scalar),
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_f32") => [<hodu_cpu_ $float_scalar_op _f32>](input, output, metadata, scalar),
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_f64") => [<hodu_cpu_ $float_scalar_op _f64>](input, output, metadata, scalar),
+                    )*
                     _ => panic!("Unsupported unary scalar kernel: {}", name),
                 }
             }
@@ -321,8 +346,11 @@ declare_and_dispatch_unary!(
         isnan, isinf, isfinite
     ],
     scalar_ops: [
-        add_scalar, sub_scalar, mul_scalar, div_scalar, pow_scalar,
+        add_scalar, sub_scalar, mul_scalar, div_scalar, pow_scalar, rem_scalar,
         maximum_scalar, minimum_scalar,
         eq_scalar, ne_scalar, lt_scalar, le_scalar, gt_scalar, ge_scalar
+    ],
+    float_scalar_ops: [
+        leaky_relu, elu, prelu
     ]
 );
-- 
2.43.0


From bab1fa24b3c3c8e0032ea476d5009d23c44adb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:39 +0000
Subject: [PATCH 52/55] fix: random_split clamps the training part to the
 dataset

---
 crates/hodu_datasets/src/data/dataset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hodu_datasets/src/data/dataset.rs b/crates/hodu_datasets/src/data/dataset.rs
index b256684..16501bb 100644
--- a/crates/hodu_datasets/src/data/dataset.rs
+++ b/crates/hodu_datasets/src/data/dataset.rs
@@ -134,7 +134,7 @@ where
     use rand::rngs::SmallRng;
 
     let total_len = dataset.len();
-    let train_len = (total_len as f32 * train_size) as usize;
+    let train_len = ((total_len as f32 * train_size) as usize).min(total_len);
 
     let mut indices: Vec<usize> = (0..total_len).collect();
 
-- 
2.43.0


From 3a806bffca1d029424a470e913e58bc0811503c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:39 +0000
Subject: [PATCH 53/55] fix: norm with a fractional p is not truncated to the
 L1 or L2 norm

---
 crates/hodu_core/src/tensor/ops/reduce.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/reduce.rs b/crates/hodu_core/src/tensor/ops/reduce.rs
index 6750efe..fd48532 100644
--- a/crates/hodu_core/src/tensor/ops/reduce.rs
+++ b/crates/hodu_core/src/tensor/ops/reduce.rs
@@ -87,16 +87,17 @@ impl Tensor {
 
     pub fn norm<D: Into<Scalar> + Copy>(&self, p: impl Into<Scalar>, dims: &[D], keep_dim: bool) -> HoduResult<Self> {
         let p_scalar = p.into();
-        match p_scalar.to_i32() {
-            1 => self.l1_norm(dims, keep_dim),
-            2 => self.l2_norm(dims, keep_dim),
-            _ => {
-                let p_dtype = p_scalar.to_dtype(self.dtype());
-                self.abs()?
-                    .pow_scalar(p_dtype)?
-                    .sum(dims, keep_dim)?
-                    .pow_scalar(Scalar::one(self.dtype()) / p_dtype)
-            },
+        let p_value = p_scalar.to_f32();
+        if p_value == 1.0 {
+            self.l1_norm(dims, keep_dim)
+        } else if p_value == 2.0 {
+            self.l2_norm(dims, keep_dim)
+        } else {
+            let p_dtype = p_scalar.to_dtype(self.dtype());
+            self.abs()?
+                .pow_scalar(p_dtype)?
+                .sum(dims, keep_dim)?
+                .pow_scalar(Scalar::one(self.dtype()) / p_dtype)
         }
     }
 
-- 
2.43.0


From 9a05743975b95ab62449552fab197909c932d698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:39 +0000
Subject: [PATCH 54/55] fix: softplus of a large input does not overflow to
 infinity

---
 crates/hodu_cpu_kernels/kernels/math_utils.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/math_utils.h b/crates/hodu_cpu_kernels/kernels/math_utils.h
index e548745..aa47253 100644
--- a/crates/hodu_cpu_kernels/kernels/math_utils.h
+++ b/crates/hodu_cpu_kernels/kernels/math_utils.h
@@ -184,9 +184,13 @@ static inline double gelu_helper_f64(double x) {
     return 0.5 * x * (1.0 + tanh(0.7978845608 * (x + 0.044715 * x * x * x)));
 }
 
-static inline float softplus_helper_f32(float x) { return logf(1.0f + expf(x)); }
+static inline float softplus_helper_f32(float x) {
+    return x > 20.0f ? x : logf(1.0f + expf(x)); // exp(x) overflows for a large x
+}
 
-static inline double softplus_helper_f64(double x) { return log(1.0 + exp(x)); }
+static inline double softplus_helper_f64(double x) {
+    return x > 40.0 ? x : log(1.0 + exp(x)); // exp(x) overflows for a large x
+}
 
 static inline float silu_helper_f32(float x) { return x / (1.0f + expf(-x)); }
 
-- 
2.43.0


From 9672198677ee272d64a1e70421280adde5f2bd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:11 +0000
Subject: [PATCH 55/55] fix: pow of a negative base to a large integer exponent
 is not NaN

---
 crates/hodu_cpu_kernels/kernels/math_utils.h | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/math_utils.h b/crates/hodu_cpu_kernels/kernels/math_utils.h
index aa47253..aad2213 100644
--- a/crates/hodu_cpu_kernels/kernels/math_utils.h
+++ b/crates/hodu_cpu_kernels/kernels/math_utils.h
@@ -94,9 +94,6 @@ static inline float powf_opt(float base, float exponent) {
         }
     }
 
-    if (base < 0.0f)
-        return NAN;
-
     return powf(base, exponent);
 }
 
@@ -126,9 +123,6 @@ static inline double pow_opt(double base, double exponent) {
         }
     }
 
-    if (base < 0.0)
-        return NAN;
-
     return pow(base, exponent);
 }
 
-- 
2.43.0

