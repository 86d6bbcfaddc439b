From a2344b8b9fff93055e8895c5b588ea3ed7e393e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:09 +0000
Subject: [PATCH 01/53] fix: accept the f64 argmax, argmin, any and all
 reduction kernels

---
 crates/hodu_cpu_kernels/src/kernels/ops_reduce.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_reduce.rs b/crates/hodu_cpu_kernels/src/kernels/ops_reduce.rs
index 47c8e89..aa7a1e3 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_reduce.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_reduce.rs
@@ -327,6 +327,7 @@ unsafe fn dispatch_reduce(name: &str, input: *const c_void, output: *mut c_void,
             | "hodu_cpu_argmax_bf16"
             | "hodu_cpu_argmax_f16"
             | "hodu_cpu_argmax_f32"
+            | "hodu_cpu_argmax_f64"
             | "hodu_cpu_argmax_i8"
             | "hodu_cpu_argmax_i16"
             | "hodu_cpu_argmax_i32"
@@ -341,6 +342,7 @@ unsafe fn dispatch_reduce(name: &str, input: *const c_void, output: *mut c_void,
             | "hodu_cpu_argmin_bf16"
             | "hodu_cpu_argmin_f16"
             | "hodu_cpu_argmin_f32"
+            | "hodu_cpu_argmin_f64"
             | "hodu_cpu_argmin_i8"
             | "hodu_cpu_argmin_i16"
             | "hodu_cpu_argmin_i32"
@@ -355,6 +357,7 @@ unsafe fn dispatch_reduce(name: &str, input: *const c_void, output: *mut c_void,
             | "hodu_cpu_any_bf16"
             | "hodu_cpu_any_f16"
             | "hodu_cpu_any_f32"
+            | "hodu_cpu_any_f64"
             | "hodu_cpu_any_i8"
             | "hodu_cpu_any_i16"
             | "hodu_cpu_any_i32"
@@ -369,6 +372,7 @@ unsafe fn dispatch_reduce(name: &str, input: *const c_void, output: *mut c_void,
             | "hodu_cpu_all_bf16"
             | "hodu_cpu_all_f16"
             | "hodu_cpu_all_f32"
+            | "hodu_cpu_all_f64"
             | "hodu_cpu_all_i8"
             | "hodu_cpu_all_i16"
             | "hodu_cpu_all_i32"
-- 
2.43.0


From d7d58c19d8ff3d866088bf1142698964e706aa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:29 +0000
Subject: [PATCH 02/53] fix: argmax/argmin return i32 and any/all return bool
 from the CPU reductions

---
 .../src/be_cpu/storage/ops_reduce.rs          | 58 +++++++++++++++++--
 crates/hodu_core/src/tensor/ops/reduce.rs     |  1 +
 2 files changed, 55 insertions(+), 4 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_reduce.rs b/crates/hodu_core/src/be_cpu/storage/ops_reduce.rs
index 2989fdd..8804d30 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_reduce.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_reduce.rs
@@ -2,8 +2,8 @@ use crate::{
     be::{device::BackendDeviceT, storage::BackendStorageT},
     be_cpu::{device::CpuDevice, storage::CpuStorage},
     error::{HoduError, HoduResult},
-    ops::Op,
-    types::{Layout, Shape},
+    ops::{Op, ReduceOp},
+    types::{DType, Layout, Shape},
 };
 use core::ffi::c_void;
 
@@ -73,8 +73,12 @@ pub fn call_ops_reduce(
     let kernel_name_static = crate::cache::kernel::get_kernel_name(kernel_name);
     let kernel = hodu_cpu_kernels::macros::Kernel(kernel_name_static);
 
-    // Create output storage
-    let dtype = storage.dtype();
+    // Create output storage: index reductions produce I32, logical reductions produce BOOL
+    let dtype = match reduce_op {
+        ReduceOp::ArgMax | ReduceOp::ArgMin => DType::I32,
+        ReduceOp::Any | ReduceOp::All => DType::BOOL,
+        _ => storage.dtype(),
+    };
     let mut output = CpuDevice::allocate(output_shape.size(), dtype)?;
 
     // Get raw pointers and call kernel
@@ -87,6 +91,52 @@ pub fn call_ops_reduce(
         }};
     }
 
+    // Call a kernel whose output storage is fixed to `$out_variant` for every input dtype
+    macro_rules! call_kernel_into {
+        ($out_variant:ident) => {
+            match (storage, &mut output) {
+                (CpuStorage::BOOL(input), CpuStorage::$out_variant(out)) => call_kernel!(input, out),
+                (CpuStorage::F8E4M3(input), CpuStorage::$out_variant(out)) => call_kernel!(input, out),
+                #[cfg(feature = "f8e5m2")]
+                (CpuStorage::F8E5M2(input), CpuStorage::$out_variant(out)) => call_kernel!(input, out),
+                (CpuStorage::BF16(input), CpuStorage::$out_variant(out)) => call_kernel!(input, out),
+                (CpuStorage::F16(input), CpuStorage::$out_variant(out)) => call_kernel!(input, out),
+                (CpuStorage::F32(input), CpuStorage::$out_variant(out)) => call_kernel!(input, out),
+                #[cfg(feature = "f64")]
+                (CpuStorage::F64(input), CpuStorage::$out_variant(out)) => call_kernel!(input, out),
+                (CpuStorage::U8(input), CpuStorage::$out_variant(out)) => call_kernel!(input, out),
+                #[cfg(feature = "u16")]
+                (CpuStorage::U16(input), CpuStorage::$out_variant(out)) => call_kernel!(input, out),
+                (CpuStorage::U32(input), CpuStorage::$out_variant(out)) => call_kernel!(input, out),
+                #[cfg(feature = "u64")]
+                (CpuStorage::U64(input), CpuStorage::$out_variant(out)) => call_kernel!(input, out),
+                (CpuStorage::I8(input), CpuStorage::$out_variant(out)) => call_kernel!(input, out),
+                #[cfg(feature = "i16")]
+                (CpuStorage::I16(input), CpuStorage::$out_variant(out)) => call_kernel!(input, out),
+                (CpuStorage::I32(input), CpuStorage::$out_variant(out)) => call_kernel!(input, out),
+                #[cfg(feature = "i64")]
+                (CpuStorage::I64(input), CpuStorage::$out_variant(out)) => call_kernel!(input, out),
+                _ => {
+                    return Err(HoduError::BackendError(
+                        "mismatched storage types in call_reduce".to_string(),
+                    ))
+                },
+            }
+        };
+    }
+
+    match reduce_op {
+        ReduceOp::ArgMax | ReduceOp::ArgMin => {
+            call_kernel_into!(I32);
+            return Ok(output);
+        },
+        ReduceOp::Any | ReduceOp::All => {
+            call_kernel_into!(BOOL);
+            return Ok(output);
+        },
+        _ => {},
+    }
+
     match (storage, &mut output) {
         (CpuStorage::F8E4M3(input), CpuStorage::F8E4M3(out)) => call_kernel!(input, out),
         #[cfg(feature = "f8e5m2")]
diff --git a/crates/hodu_core/src/tensor/ops/reduce.rs b/crates/hodu_core/src/tensor/ops/reduce.rs
index adb5ac2..96e2413 100644
--- a/crates/hodu_core/src/tensor/ops/reduce.rs
+++ b/crates/hodu_core/src/tensor/ops/reduce.rs
@@ -187,6 +187,7 @@ impl Tensor {
             // Determine output dtype based on operation
             let output_dtype = match reduce_op {
                 ReduceOp::Any | ReduceOp::All => DType::BOOL,
+                ReduceOp::ArgMax | ReduceOp::ArgMin => DType::I32,
                 _ => self.dtype(),
             };
 
-- 
2.43.0


From 710dd706100b07df6fdaca688902f6a8a665045a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:24 +0000
Subject: [PATCH 03/53] fix: run the scatter_add/max/min kernels for those
 operations instead of plain scatter

---
 crates/hodu_core/src/be_cpu/storage/ops_indexing.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs b/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
index 5fc111c..afba020 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
@@ -421,11 +421,14 @@ pub fn call_ops_scatter(
         _ => unreachable!(),
     };
 
-    // Validate op
-    match op {
+    // Extract scatter op
+    let scatter_op = match op {
         Op::Indexing(
-            IndexingOp::Scatter | IndexingOp::ScatterAdd | IndexingOp::ScatterMax | IndexingOp::ScatterMin,
-        ) => (),
+            scatter_op @ (IndexingOp::Scatter
+            | IndexingOp::ScatterAdd
+            | IndexingOp::ScatterMax
+            | IndexingOp::ScatterMin),
+        ) => scatter_op,
         _ => {
             return Err(HoduError::BackendError(
                 "Lcall_scatterE expects scatter-type op".to_string(),
@@ -454,7 +457,7 @@ pub fn call_ops_scatter(
 
     // Generate kernel name
     let dtype = storage.dtype();
-    let kernel_name = format!("hodu_cpu_scatter_{}", dtype);
+    let kernel_name = format!("hodu_cpu_{}_{}", scatter_op, dtype);
     let kernel_name_static = crate::cache::kernel::get_kernel_name(kernel_name);
     let kernel = hodu_cpu_kernels::macros::Kernel(kernel_name_static);
 
-- 
2.43.0


From 8eaff666b01f2d1d4aedcac99381988d4a2d307d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:32 +0000
Subject: [PATCH 04/53] fix: make the existing rem and rem_scalar CPU kernels
 reachable

---
 crates/hodu_cpu_kernels/kernels/ops_binary.h      | 4 +++-
 crates/hodu_cpu_kernels/kernels/ops_unary.h       | 3 +++
 crates/hodu_cpu_kernels/src/kernels/ops_binary.rs | 4 +++-
 crates/hodu_cpu_kernels/src/kernels/ops_unary.rs  | 3 ++-
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_binary.h b/crates/hodu_cpu_kernels/kernels/ops_binary.h
index c5d995c..924083c 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_binary.h
+++ b/crates/hodu_cpu_kernels/kernels/ops_binary.h
@@ -47,7 +47,7 @@ extern "C" {
 // compatible shapes and perform element-wise operations only.
 
 /// Macro to declare arithmetic binary operations for a given type
-/// Declares: add, sub, mul, div, pow, maximum, minimum
+/// Declares: add, sub, mul, div, rem, pow, maximum, minimum
 #define DECLARE_BINARY_OP(TYPE_SUFFIX)                                                             \
     void hodu_cpu_add_##TYPE_SUFFIX(const void *lhs, const void *rhs, void *output,                \
                                     const size_t *metadata);                                       \
@@ -57,6 +57,8 @@ extern "C" {
                                     const size_t *metadata);                                       \
     void hodu_cpu_div_##TYPE_SUFFIX(const void *lhs, const void *rhs, void *output,                \
                                     const size_t *metadata);                                       \
+    void hodu_cpu_rem_##TYPE_SUFFIX(const void *lhs, const void *rhs, void *output,                \
+                                    const size_t *metadata);                                       \
     void hodu_cpu_pow_##TYPE_SUFFIX(const void *lhs, const void *rhs, void *output,                \
                                     const size_t *metadata);                                       \
     void hodu_cpu_maximum_##TYPE_SUFFIX(const void *lhs, const void *rhs, void *output,            \
diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary.h b/crates/hodu_cpu_kernels/kernels/ops_unary.h
index 7a300be..1b70a43 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary.h
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary.h
@@ -177,6 +177,7 @@ extern "C" {
  * - sub_scalar: Subtract scalar from each element (x - s)
  * - mul_scalar: Multiply each element by scalar (x * s)
  * - div_scalar: Divide each element by scalar (x / s)
+ * - rem_scalar: Remainder of dividing each element by scalar (x % s)
  * - pow_scalar: Raise each element to scalar power (x^s)
  * - maximum_scalar: Element-wise maximum with scalar (max(x, s))
  * - minimum_scalar: Element-wise minimum with scalar (min(x, s))
@@ -193,6 +194,8 @@ extern "C" {
                                            const size_t *metadata, const void *scalar);            \
     void hodu_cpu_div_scalar_##TYPE_SUFFIX(const void *input, void *output,                        \
                                            const size_t *metadata, const void *scalar);            \
+    void hodu_cpu_rem_scalar_##TYPE_SUFFIX(const void *input, void *output,                        \
+                                           const size_t *metadata, const void *scalar);            \
     void hodu_cpu_pow_scalar_##TYPE_SUFFIX(const void *input, void *output,                        \
                                            const size_t *metadata, const void *scalar);            \
     void hodu_cpu_maximum_scalar_##TYPE_SUFFIX(const void *input, void *output,                    \
diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_binary.rs b/crates/hodu_cpu_kernels/src/kernels/ops_binary.rs
index e2d8232..e13e66f 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_binary.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_binary.rs
@@ -1,7 +1,7 @@
 //! Binary operations for tensor element-wise computations
 //!
 //! This module provides element-wise binary operations including:
-//! - Arithmetic: add, sub, mul, div, pow, maximum, minimum
+//! - Arithmetic: add, sub, mul, div, rem, pow, maximum, minimum
 //! - Logical: logical_and, logical_or, logical_xor
 //! - Comparison: eq, ne, lt, le, gt, ge
 //!
@@ -17,6 +17,7 @@ ops!(
     sub,
     mul,
     div,
+    rem,
     pow,
     maximum,
     minimum,
@@ -176,6 +177,7 @@ declare_and_dispatch_binary!(
     sub,
     mul,
     div,
+    rem,
     pow,
     maximum,
     minimum,
diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs b/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
index 0e43d10..cd2895a 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
@@ -62,6 +62,7 @@ ops!(
     sub_scalar,
     mul_scalar,
     div_scalar,
+    rem_scalar,
     pow_scalar,
     maximum_scalar,
     minimum_scalar,
@@ -321,7 +322,7 @@ declare_and_dispatch_unary!(
         isnan, isinf, isfinite
     ],
     scalar_ops: [
-        add_scalar, sub_scalar, mul_scalar, div_scalar, pow_scalar,
+        add_scalar, sub_scalar, mul_scalar, div_scalar, rem_scalar, pow_scalar,
         maximum_scalar, minimum_scalar,
         eq_scalar, ne_scalar, lt_scalar, le_scalar, gt_scalar, ge_scalar
     ]
-- 
2.43.0


From 72e5bad6373fc4fefb17eb7bda1561b135ff9270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:09 +0000
Subject: [PATCH 05/53] fix: provide the f64 scatter_add, scatter_max and
 scatter_min CPU kernels

---
 crates/hodu_cpu_kernels/kernels/ops_indexing.c      | 3 +++
 crates/hodu_cpu_kernels/kernels/ops_indexing.h      | 6 ++++++
 crates/hodu_cpu_kernels/src/kernels/ops_indexing.rs | 2 ++
 3 files changed, 11 insertions(+)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_indexing.c b/crates/hodu_cpu_kernels/kernels/ops_indexing.c
index e4e015b..549b1f4 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_indexing.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_indexing.c
@@ -625,6 +625,7 @@ SCATTER_ADD_OP_EXOTIC(f8e5m2_t, scatter_add_f8e5m2, f8e5m2_add)
 SCATTER_ADD_OP_EXOTIC(bf16_t, scatter_add_bf16, bf16_add)
 SCATTER_ADD_OP_EXOTIC(f16_t, scatter_add_f16, f16_add)
 SCATTER_ADD_OP(float, scatter_add_f32)
+SCATTER_ADD_OP(double, scatter_add_f64)
 SCATTER_ADD_OP(int8_t, scatter_add_i8)
 SCATTER_ADD_OP(int16_t, scatter_add_i16)
 SCATTER_ADD_OP(int32_t, scatter_add_i32)
@@ -742,6 +743,7 @@ SCATTER_MAX_OP(f8e5m2_t, scatter_max_f8e5m2)
 SCATTER_MAX_OP(bf16_t, scatter_max_bf16)
 SCATTER_MAX_OP(f16_t, scatter_max_f16)
 SCATTER_MAX_OP(float, scatter_max_f32)
+SCATTER_MAX_OP(double, scatter_max_f64)
 SCATTER_MAX_OP(int8_t, scatter_max_i8)
 SCATTER_MAX_OP(int16_t, scatter_max_i16)
 SCATTER_MAX_OP(int32_t, scatter_max_i32)
@@ -859,6 +861,7 @@ SCATTER_MIN_OP(f8e5m2_t, scatter_min_f8e5m2)
 SCATTER_MIN_OP(bf16_t, scatter_min_bf16)
 SCATTER_MIN_OP(f16_t, scatter_min_f16)
 SCATTER_MIN_OP(float, scatter_min_f32)
+SCATTER_MIN_OP(double, scatter_min_f64)
 SCATTER_MIN_OP(int8_t, scatter_min_i8)
 SCATTER_MIN_OP(int16_t, scatter_min_i16)
 SCATTER_MIN_OP(int32_t, scatter_min_i32)
diff --git a/crates/hodu_cpu_kernels/kernels/ops_indexing.h b/crates/hodu_cpu_kernels/kernels/ops_indexing.h
index 50f7434..627cdd4 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_indexing.h
+++ b/crates/hodu_cpu_kernels/kernels/ops_indexing.h
@@ -276,6 +276,8 @@ void hodu_cpu_scatter_add_f16(const void *input, const int32_t *indices, const v
                               void *output, const size_t *metadata);
 void hodu_cpu_scatter_add_f32(const void *input, const int32_t *indices, const void *src,
                               void *output, const size_t *metadata);
+void hodu_cpu_scatter_add_f64(const void *input, const int32_t *indices, const void *src,
+                              void *output, const size_t *metadata);
 void hodu_cpu_scatter_add_i8(const void *input, const int32_t *indices, const void *src,
                              void *output, const size_t *metadata);
 void hodu_cpu_scatter_add_i16(const void *input, const int32_t *indices, const void *src,
@@ -312,6 +314,8 @@ void hodu_cpu_scatter_max_f16(const void *input, const int32_t *indices, const v
                               void *output, const size_t *metadata);
 void hodu_cpu_scatter_max_f32(const void *input, const int32_t *indices, const void *src,
                               void *output, const size_t *metadata);
+void hodu_cpu_scatter_max_f64(const void *input, const int32_t *indices, const void *src,
+                              void *output, const size_t *metadata);
 void hodu_cpu_scatter_max_i8(const void *input, const int32_t *indices, const void *src,
                              void *output, const size_t *metadata);
 void hodu_cpu_scatter_max_i16(const void *input, const int32_t *indices, const void *src,
@@ -348,6 +352,8 @@ void hodu_cpu_scatter_min_f16(const void *input, const int32_t *indices, const v
                               void *output, const size_t *metadata);
 void hodu_cpu_scatter_min_f32(const void *input, const int32_t *indices, const void *src,
                               void *output, const size_t *metadata);
+void hodu_cpu_scatter_min_f64(const void *input, const int32_t *indices, const void *src,
+                              void *output, const size_t *metadata);
 void hodu_cpu_scatter_min_i8(const void *input, const int32_t *indices, const void *src,
                              void *output, const size_t *metadata);
 void hodu_cpu_scatter_min_i16(const void *input, const int32_t *indices, const void *src,
diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_indexing.rs b/crates/hodu_cpu_kernels/src/kernels/ops_indexing.rs
index dafd067..8e4d86a 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_indexing.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_indexing.rs
@@ -256,6 +256,7 @@ macro_rules! declare_and_dispatch_scatter_add {
                 fn [<hodu_cpu_ $op_name _bf16>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _f16>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _f32>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
+                fn [<hodu_cpu_ $op_name _f64>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _i8>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _i16>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _i32>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
@@ -280,6 +281,7 @@ macro_rules! declare_and_dispatch_scatter_add {
                     concat!("hodu_cpu_", stringify!($op_name), "_bf16") => [<hodu_cpu_ $op_name _bf16>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_f16") => [<hodu_cpu_ $op_name _f16>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_f32") => [<hodu_cpu_ $op_name _f32>](input, indices, src, output, metadata),
+                    concat!("hodu_cpu_", stringify!($op_name), "_f64") => [<hodu_cpu_ $op_name _f64>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_i8") => [<hodu_cpu_ $op_name _i8>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_i16") => [<hodu_cpu_ $op_name _i16>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_i32") => [<hodu_cpu_ $op_name _i32>](input, indices, src, output, metadata),
-- 
2.43.0


From 30e2586a44e946a764652677d08d0e7454f6a5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:10 +0000
Subject: [PATCH 06/53] fix: provide the signed integer relu CPU kernels that
 validation admits

---
 crates/hodu_cpu_kernels/kernels/ops_unary.c      |  4 ++++
 crates/hodu_cpu_kernels/kernels/ops_unary.h      | 10 ++++++++++
 crates/hodu_cpu_kernels/src/kernels/ops_unary.rs |  4 ++--
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary.c b/crates/hodu_cpu_kernels/kernels/ops_unary.c
index 5fc7caa..7d95c27 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary.c
@@ -1650,6 +1650,7 @@ IMPL_UNARY_OP(i8_t, i8, neg, -x)
 IMPL_UNARY_OP(i8_t, i8, abs, (x < 0) ? -x : x)
 IMPL_UNARY_OP(i8_t, i8, sign, (x > 0) ? 1 : ((x < 0) ? -1 : 0))
 IMPL_UNARY_OP(i8_t, i8, softsign, (i8_t)((float)x / (1.0f + fabsf((float)x))))
+IMPL_UNARY_OP(i8_t, i8, relu, (x > 0) ? x : 0)
 IMPL_UNARY_OP(i8_t, i8, square, x *x)
 IMPL_UNARY_OP(i8_t, i8, sqrt, (i8_t)sqrtf((float)((x < 0) ? -x : x)))
 IMPL_UNARY_OP(i8_t, i8, recip, (x != 0) ? (i8_t)(1.0f / (float)x) : 0)
@@ -1674,6 +1675,7 @@ IMPL_UNARY_OP(i16_t, i16, neg, -x)
 IMPL_UNARY_OP(i16_t, i16, abs, (x < 0) ? -x : x)
 IMPL_UNARY_OP(i16_t, i16, sign, (x > 0) ? 1 : ((x < 0) ? -1 : 0))
 IMPL_UNARY_OP(i16_t, i16, softsign, (i16_t)((float)x / (1.0f + fabsf((float)x))))
+IMPL_UNARY_OP(i16_t, i16, relu, (x > 0) ? x : 0)
 IMPL_UNARY_OP(i16_t, i16, square, x *x)
 IMPL_UNARY_OP(i16_t, i16, sqrt, (i16_t)sqrtf((float)((x < 0) ? -x : x)))
 IMPL_UNARY_OP(i16_t, i16, recip, (x != 0) ? (i16_t)(1.0f / (float)x) : 0)
@@ -1698,6 +1700,7 @@ IMPL_UNARY_OP(i32_t, i32, neg, -x)
 IMPL_UNARY_OP(i32_t, i32, abs, (x < 0) ? -x : x)
 IMPL_UNARY_OP(i32_t, i32, sign, (x > 0) ? 1 : ((x < 0) ? -1 : 0))
 IMPL_UNARY_OP(i32_t, i32, softsign, (i32_t)((float)x / (1.0f + fabsf((float)x))))
+IMPL_UNARY_OP(i32_t, i32, relu, (x > 0) ? x : 0)
 IMPL_UNARY_OP(i32_t, i32, square, x *x)
 IMPL_UNARY_OP(i32_t, i32, sqrt, (i32_t)sqrtf((float)((x < 0) ? -x : x)))
 IMPL_UNARY_OP(i32_t, i32, recip, (x != 0) ? (i32_t)(1.0f / (float)x) : 0)
@@ -1722,6 +1725,7 @@ IMPL_UNARY_OP(i64_t, i64, neg, -x)
 IMPL_UNARY_OP(i64_t, i64, abs, (x < 0) ? -x : x)
 IMPL_UNARY_OP(i64_t, i64, sign, (x > 0) ? 1 : ((x < 0) ? -1 : 0))
 IMPL_UNARY_OP(i64_t, i64, softsign, (i64_t)((double)x / (1.0 + fabs((double)x))))
+IMPL_UNARY_OP(i64_t, i64, relu, (x > 0) ? x : 0)
 IMPL_UNARY_OP(i64_t, i64, square, x *x)
 IMPL_UNARY_OP(i64_t, i64, sqrt, (i64_t)sqrt((double)((x < 0) ? -x : x)))
 IMPL_UNARY_OP(i64_t, i64, recip, (x != 0) ? (i64_t)(1.0 / (double)x) : 0)
diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary.h b/crates/hodu_cpu_kernels/kernels/ops_unary.h
index 1b70a43..b68a581 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary.h
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary.h
@@ -140,6 +140,12 @@ extern "C" {
     void hodu_cpu_floor_##TYPE_SUFFIX(const void *input, void *output, const size_t *metadata);    \
     void hodu_cpu_round_##TYPE_SUFFIX(const void *input, void *output, const size_t *metadata);
 
+/**
+ * @brief Macro to declare relu for signed integer types
+ */
+#define DECLARE_UNARY_RELU(TYPE_SUFFIX)                                                            \
+    void hodu_cpu_relu_##TYPE_SUFFIX(const void *input, void *output, const size_t *metadata);
+
 /**
  * @brief Macro to declare logical operations
  *
@@ -318,21 +324,25 @@ DECLARE_UNARY_WITH_SCALAR(u64)
 DECLARE_UNARY_CMP_SCALAR(u64)
 
 DECLARE_UNARY_OP(i8)
+DECLARE_UNARY_RELU(i8)
 DECLARE_UNARY_LOGICAL(i8)
 DECLARE_UNARY_WITH_SCALAR(i8)
 DECLARE_UNARY_CMP_SCALAR(i8)
 
 DECLARE_UNARY_OP(i16)
+DECLARE_UNARY_RELU(i16)
 DECLARE_UNARY_LOGICAL(i16)
 DECLARE_UNARY_WITH_SCALAR(i16)
 DECLARE_UNARY_CMP_SCALAR(i16)
 
 DECLARE_UNARY_OP(i32)
+DECLARE_UNARY_RELU(i32)
 DECLARE_UNARY_LOGICAL(i32)
 DECLARE_UNARY_WITH_SCALAR(i32)
 DECLARE_UNARY_CMP_SCALAR(i32)
 
 DECLARE_UNARY_OP(i64)
+DECLARE_UNARY_RELU(i64)
 DECLARE_UNARY_LOGICAL(i64)
 DECLARE_UNARY_WITH_SCALAR(i64)
 DECLARE_UNARY_CMP_SCALAR(i64)
diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs b/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
index cd2895a..5e8d5fe 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
@@ -310,10 +310,10 @@ declare_and_dispatch_unary!(
         abs, sign, softsign, square, sqrt, recip, logical_not
     ],
     signed_types: [
-        neg
+        neg, relu
     ],
     float_types: [
-        relu, sigmoid, hardsigmoid, gelu, softplus, silu, hardsilu, mish, selu, celu,
+        sigmoid, hardsigmoid, gelu, softplus, silu, hardsilu, mish, selu, celu,
         sin, cos, tan, asin, acos, atan,
         sinh, cosh, tanh, asinh, acosh, atanh,
         exp, exp2, exp10, ln, log2, log10,
-- 
2.43.0


From f771d10b5f893070e8510abc76b670262ef79f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:43 +0000
Subject: [PATCH 07/53] fix: provide the leaky_relu, elu and prelu CPU kernels

---
 crates/hodu_cpu_kernels/kernels/ops_unary.c   | 30 +++++++++++++++++++
 crates/hodu_cpu_kernels/kernels/ops_unary.h   | 23 ++++++++++++++
 .../hodu_cpu_kernels/src/kernels/ops_unary.rs | 29 +++++++++++++++++-
 3 files changed, 81 insertions(+), 1 deletion(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary.c b/crates/hodu_cpu_kernels/kernels/ops_unary.c
index 7d95c27..e58070b 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary.c
@@ -796,6 +796,9 @@ IMPL_UNARY_WITH_SCALAR(f32_t, f32, rem_scalar, fmodf(x, const_val))
 IMPL_UNARY_WITH_SCALAR(f32_t, f32, pow_scalar, powf_opt(x, const_val))
 IMPL_UNARY_WITH_SCALAR(f32_t, f32, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(f32_t, f32, minimum_scalar, MINIMUM(x, const_val))
+IMPL_UNARY_WITH_SCALAR(f32_t, f32, leaky_relu, (x > 0.0f) ? x : const_val * x)
+IMPL_UNARY_WITH_SCALAR(f32_t, f32, elu, (x > 0.0f) ? x : const_val * (expf(x) - 1.0f))
+IMPL_UNARY_WITH_SCALAR(f32_t, f32, prelu, (x > 0.0f) ? x : const_val * x)
 
 // Scalar comparison operations
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(f32_t, f32, eq_scalar, x == const_val)
@@ -1162,6 +1165,9 @@ IMPL_UNARY_WITH_SCALAR(f64_t, f64, rem_scalar, fmod(x, const_val))
 IMPL_UNARY_WITH_SCALAR(f64_t, f64, pow_scalar, pow_opt(x, const_val))
 IMPL_UNARY_WITH_SCALAR(f64_t, f64, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(f64_t, f64, minimum_scalar, MINIMUM(x, const_val))
+IMPL_UNARY_WITH_SCALAR(f64_t, f64, leaky_relu, (x > 0.0) ? x : const_val * x)
+IMPL_UNARY_WITH_SCALAR(f64_t, f64, elu, (x > 0.0) ? x : const_val * (exp(x) - 1.0))
+IMPL_UNARY_WITH_SCALAR(f64_t, f64, prelu, (x > 0.0) ? x : const_val * x)
 
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(f64_t, f64, eq_scalar, x == const_val)
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(f64_t, f64, ne_scalar, x != const_val)
@@ -1294,6 +1300,12 @@ IMPL_UNARY_WITH_SCALAR_CONVERT(f8e4m3_t, f8e4m3, maximum_scalar, MAXIMUM(x, cons
                                f8e4m3_to_float, float_to_f8e4m3)
 IMPL_UNARY_WITH_SCALAR_CONVERT(f8e4m3_t, f8e4m3, minimum_scalar, MINIMUM(x, const_val),
                                f8e4m3_to_float, float_to_f8e4m3)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e4m3_t, f8e4m3, leaky_relu, (x > 0.0f) ? x : const_val * x,
+                               f8e4m3_to_float, float_to_f8e4m3)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e4m3_t, f8e4m3, elu, (x > 0.0f) ? x : const_val * (expf(x) - 1.0f),
+                               f8e4m3_to_float, float_to_f8e4m3)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e4m3_t, f8e4m3, prelu, (x > 0.0f) ? x : const_val * x,
+                               f8e4m3_to_float, float_to_f8e4m3)
 
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(f8e4m3_t, f8e4m3, eq_scalar, x == const_val, f8e4m3_to_float)
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(f8e4m3_t, f8e4m3, ne_scalar, x != const_val, f8e4m3_to_float)
@@ -1380,6 +1392,12 @@ IMPL_UNARY_WITH_SCALAR_CONVERT(f8e5m2_t, f8e5m2, maximum_scalar, MAXIMUM(x, cons
                                f8e5m2_to_float, float_to_f8e5m2)
 IMPL_UNARY_WITH_SCALAR_CONVERT(f8e5m2_t, f8e5m2, minimum_scalar, MINIMUM(x, const_val),
                                f8e5m2_to_float, float_to_f8e5m2)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e5m2_t, f8e5m2, leaky_relu, (x > 0.0f) ? x : const_val * x,
+                               f8e5m2_to_float, float_to_f8e5m2)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e5m2_t, f8e5m2, elu, (x > 0.0f) ? x : const_val * (expf(x) - 1.0f),
+                               f8e5m2_to_float, float_to_f8e5m2)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e5m2_t, f8e5m2, prelu, (x > 0.0f) ? x : const_val * x,
+                               f8e5m2_to_float, float_to_f8e5m2)
 
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(f8e5m2_t, f8e5m2, eq_scalar, x == const_val, f8e5m2_to_float)
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(f8e5m2_t, f8e5m2, ne_scalar, x != const_val, f8e5m2_to_float)
@@ -1460,6 +1478,12 @@ IMPL_UNARY_WITH_SCALAR_CONVERT(bf16_t, bf16, maximum_scalar, MAXIMUM(x, const_va
                                float_to_bf16)
 IMPL_UNARY_WITH_SCALAR_CONVERT(bf16_t, bf16, minimum_scalar, MINIMUM(x, const_val), bf16_to_float,
                                float_to_bf16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(bf16_t, bf16, leaky_relu, (x > 0.0f) ? x : const_val * x,
+                               bf16_to_float, float_to_bf16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(bf16_t, bf16, elu, (x > 0.0f) ? x : const_val * (expf(x) - 1.0f),
+                               bf16_to_float, float_to_bf16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(bf16_t, bf16, prelu, (x > 0.0f) ? x : const_val * x,
+                               bf16_to_float, float_to_bf16)
 
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(bf16_t, bf16, eq_scalar, x == const_val, bf16_to_float)
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(bf16_t, bf16, ne_scalar, x != const_val, bf16_to_float)
@@ -1537,6 +1561,12 @@ IMPL_UNARY_WITH_SCALAR_CONVERT(f16_t, f16, maximum_scalar, MAXIMUM(x, const_val)
                                float_to_f16)
 IMPL_UNARY_WITH_SCALAR_CONVERT(f16_t, f16, minimum_scalar, MINIMUM(x, const_val), f16_to_float,
                                float_to_f16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f16_t, f16, leaky_relu, (x > 0.0f) ? x : const_val * x,
+                               f16_to_float, float_to_f16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f16_t, f16, elu, (x > 0.0f) ? x : const_val * (expf(x) - 1.0f),
+                               f16_to_float, float_to_f16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f16_t, f16, prelu, (x > 0.0f) ? x : const_val * x,
+                               f16_to_float, float_to_f16)
 
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(f16_t, f16, eq_scalar, x == const_val, f16_to_float)
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(f16_t, f16, ne_scalar, x != const_val, f16_to_float)
diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary.h b/crates/hodu_cpu_kernels/kernels/ops_unary.h
index b68a581..d48dc4d 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary.h
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary.h
@@ -209,6 +209,23 @@ extern "C" {
     void hodu_cpu_minimum_scalar_##TYPE_SUFFIX(const void *input, void *output,                    \
                                                const size_t *metadata, const void *scalar);
 
+/**
+ * @brief Macro to declare activations with a scalar parameter
+ *
+ * - leaky_relu: x > 0 ? x : s * x
+ * - elu: x > 0 ? x : s * (exp(x) - 1)
+ * - prelu: x > 0 ? x : s * x
+ *
+ * Available for float types only (f8e4m3, f8e5m2, bf16, f16, f32, f64).
+ */
+#define DECLARE_UNARY_ACTIVATION_SCALAR(TYPE_SUFFIX)                                               \
+    void hodu_cpu_leaky_relu_##TYPE_SUFFIX(const void *input, void *output,                        \
+                                           const size_t *metadata, const void *scalar);            \
+    void hodu_cpu_elu_##TYPE_SUFFIX(const void *input, void *output, const size_t *metadata,       \
+                                    const void *scalar);                                           \
+    void hodu_cpu_prelu_##TYPE_SUFFIX(const void *input, void *output, const size_t *metadata,     \
+                                      const void *scalar);
+
 /**
  * @brief Macro to declare scalar comparison operations
  *
@@ -255,6 +272,7 @@ DECLARE_UNARY_EXP(f8e4m3)
 DECLARE_UNARY_LOGICAL(f8e4m3)
 DECLARE_UNARY_FLOAT_CHECK(f8e4m3)
 DECLARE_UNARY_WITH_SCALAR(f8e4m3)
+DECLARE_UNARY_ACTIVATION_SCALAR(f8e4m3)
 DECLARE_UNARY_CMP_SCALAR(f8e4m3)
 
 DECLARE_UNARY_OP(f8e5m2)
@@ -264,6 +282,7 @@ DECLARE_UNARY_EXP(f8e5m2)
 DECLARE_UNARY_LOGICAL(f8e5m2)
 DECLARE_UNARY_FLOAT_CHECK(f8e5m2)
 DECLARE_UNARY_WITH_SCALAR(f8e5m2)
+DECLARE_UNARY_ACTIVATION_SCALAR(f8e5m2)
 DECLARE_UNARY_CMP_SCALAR(f8e5m2)
 
 DECLARE_UNARY_OP(bf16)
@@ -273,6 +292,7 @@ DECLARE_UNARY_EXP(bf16)
 DECLARE_UNARY_LOGICAL(bf16)
 DECLARE_UNARY_FLOAT_CHECK(bf16)
 DECLARE_UNARY_WITH_SCALAR(bf16)
+DECLARE_UNARY_ACTIVATION_SCALAR(bf16)
 DECLARE_UNARY_CMP_SCALAR(bf16)
 
 DECLARE_UNARY_OP(f16)
@@ -282,6 +302,7 @@ DECLARE_UNARY_EXP(f16)
 DECLARE_UNARY_LOGICAL(f16)
 DECLARE_UNARY_FLOAT_CHECK(f16)
 DECLARE_UNARY_WITH_SCALAR(f16)
+DECLARE_UNARY_ACTIVATION_SCALAR(f16)
 DECLARE_UNARY_CMP_SCALAR(f16)
 
 DECLARE_UNARY_OP(f32)
@@ -291,6 +312,7 @@ DECLARE_UNARY_EXP(f32)
 DECLARE_UNARY_LOGICAL(f32)
 DECLARE_UNARY_FLOAT_CHECK(f32)
 DECLARE_UNARY_WITH_SCALAR(f32)
+DECLARE_UNARY_ACTIVATION_SCALAR(f32)
 DECLARE_UNARY_CMP_SCALAR(f32)
 
 DECLARE_UNARY_OP(f64)
@@ -300,6 +322,7 @@ DECLARE_UNARY_EXP(f64)
 DECLARE_UNARY_LOGICAL(f64)
 DECLARE_UNARY_FLOAT_CHECK(f64)
 DECLARE_UNARY_WITH_SCALAR(f64)
+DECLARE_UNARY_ACTIVATION_SCALAR(f64)
 DECLARE_UNARY_CMP_SCALAR(f64)
 
 // Integer types (u8, u16, u32, u64, i8, i16, i32, i64)
diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs b/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
index 5e8d5fe..967565f 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
@@ -66,6 +66,9 @@ ops!(
     pow_scalar,
     maximum_scalar,
     minimum_scalar,
+    leaky_relu,
+    elu,
+    prelu,
     eq_scalar,
     ne_scalar,
     lt_scalar,
@@ -145,7 +148,8 @@ macro_rules! declare_and_dispatch_unary {
         all_types: [$($all_op:ident),* $(,)?],
         signed_types: [$($signed_op:ident),* $(,)?],
         float_types: [$($float_op:ident),* $(,)?],
-        scalar_ops: [$($scalar_op:ident),* $(,)?]
+        scalar_ops: [$($scalar_op:ident),* $(,)?],
+        float_scalar_ops: [$($float_scalar_op:ident),* $(,)?]
     ) => {
         paste::paste! {
             // Extern C declarations
@@ -212,6 +216,16 @@ macro_rules! declare_and_dispatch_unary {
                     fn [<hodu_cpu_ $scalar_op _i32>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
                     fn [<hodu_cpu_ $scalar_op _i64>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
                 )*
+
+                // Scalar operations supporting only float types
+                $(
+                    fn [<hodu_cpu_ $float_scalar_op _f8e4m3>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                    fn [<hodu_cpu_ $float_scalar_op _f8e5m2>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                    fn [<hodu_cpu_ $float_scalar_op _bf16>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                    fn [<hodu_cpu_ $float_scalar_op _f16>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                    fn [<hodu_cpu_ $float_scalar_op _f32>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                    fn [<hodu_cpu_ $float_scalar_op _f64>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                )*
             }
 
             // Dispatch function
@@ -297,6 +311,16 @@ macro_rules! declare_and_dispatch_unary {
                         concat!("hodu_cpu_", stringify!($scalar_op), "_i32") => [<hodu_cpu_ $scalar_op _i32>](input, output, metadata, scalar),
                         concat!("hodu_cpu_", stringify!($scalar_op), "_i64") => [<hodu_cpu_ $scalar_op _i64>](input, output, metadata, scalar),
                     )*
+
+                    // Float-only scalar operations
+                    $(
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_f8e4m3") => [<hodu_cpu_ $float_scalar_op _f8e4m3>](input, output, metadata, scalar),
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_f8e5m2") => [<hodu_cpu_ $float_scalar_op _f8e5m2>](input, output, metadata, scalar),
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_bf16") => [<hodu_cpu_ $float_scalar_op _bf16>](input, output, metadata, scalar),
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_f16") => [<hodu_cpu_ $float_scalar_op _f16>](input, output, metadata, scalar),
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_f32") => [<hodu_cpu_ $float_scalar_op _f32>](input, output, metadata, scalar),
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_f64") => [<hodu_cpu_ $float_scalar_op _f64>](input, output, metadata, scalar),
+                    )*
                     _ => panic!("Unsupported unary scalar kernel: {}", name),
                 }
             }
@@ -325,5 +349,8 @@ declare_and_dispatch_unary!(
         add_scalar, sub_scalar, mul_scalar, div_scalar, rem_scalar, pow_scalar,
         maximum_scalar, minimum_scalar,
         eq_scalar, ne_scalar, lt_scalar, le_scalar, gt_scalar, ge_scalar
+    ],
+    float_scalar_ops: [
+        leaky_relu, elu, prelu
     ]
 );
-- 
2.43.0


From 8b6ca763a5748902239aa2d6af983e623b797441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:07 +0000
Subject: [PATCH 08/53] fix: describe freshly computed result buffers by a
 contiguous layout, not an operand's

---
 crates/hodu_core/src/tensor/ops/binary.rs     | 15 ++++++----
 crates/hodu_core/src/tensor/ops/bitwise.rs    | 13 +++++----
 .../hodu_core/src/tensor/ops/cast_memory.rs   |  7 +++--
 crates/hodu_core/src/tensor/ops/cmp.rs        | 11 +++----
 crates/hodu_core/src/tensor/ops/indexing.rs   | 29 ++++++++++---------
 crates/hodu_core/src/tensor/ops/unary.rs      | 21 ++++++++------
 6 files changed, 55 insertions(+), 41 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/binary.rs b/crates/hodu_core/src/tensor/ops/binary.rs
index 5265fb7..849bf1d 100644
--- a/crates/hodu_core/src/tensor/ops/binary.rs
+++ b/crates/hodu_core/src/tensor/ops/binary.rs
@@ -2,7 +2,7 @@ use crate::{
     error::HoduResult,
     ops::{BinaryLogicalOp, BinaryLogicalParams, BinaryOp, BinaryParams, Op, OpParams},
     tensor::{create_builder_tensor, from_storage_with_context, gradient, utils::broadcast_tensors2, Tensor},
-    types::DType,
+    types::{DType, Layout},
     utils::valid::{
         validate_dtype_for_device, validate_dtype_for_op, validate_requires_grad_for_op, validate_same_device,
         validate_same_dtype,
@@ -24,7 +24,7 @@ macro_rules! binary_op {
                 let lhs_layout = lhs.layout();
                 let rhs_layout = rhs.layout();
                 let requires_grad = (lhs.is_requires_grad() || rhs.is_requires_grad()) && validate_requires_grad;
-                let result_layout = lhs_layout.clone();
+                let result_layout = Layout::from_shape(lhs_layout.shape());
                 let (result_id, result_tensor) =
                     create_builder_tensor(result_layout.clone(), lhs.dtype(), requires_grad);
 
@@ -65,7 +65,12 @@ macro_rules! binary_op {
                 let requires_grad = lhs.is_requires_grad() || rhs.is_requires_grad();
                 let requires_grad = requires_grad && validate_requires_grad;
 
-                let result = from_storage_with_context(storage, lhs_layout, true, requires_grad);
+                let result = from_storage_with_context(
+                    storage,
+                    Layout::from_shape(lhs_layout.shape()),
+                    true,
+                    requires_grad,
+                );
 
                 if !gradient::is_computing_gradients() && requires_grad {
                     gradient::record_operation(
@@ -95,7 +100,7 @@ macro_rules! binary_logical_op {
             if crate::snapshot::capture::is_active() {
                 let lhs_layout = lhs.layout();
                 let rhs_layout = rhs.layout();
-                let result_layout = lhs_layout.clone();
+                let result_layout = Layout::from_shape(lhs_layout.shape());
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), DType::BOOL, false);
 
                 crate::snapshot::capture::capture_operation(
@@ -123,7 +128,7 @@ macro_rules! binary_logical_op {
                     })
                 })?;
 
-                let result = from_storage_with_context(storage, lhs_layout, true, false);
+                let result = from_storage_with_context(storage, Layout::from_shape(lhs_layout.shape()), true, false);
 
                 Ok(result)
             }
diff --git a/crates/hodu_core/src/tensor/ops/bitwise.rs b/crates/hodu_core/src/tensor/ops/bitwise.rs
index 0c99d08..d549879 100644
--- a/crates/hodu_core/src/tensor/ops/bitwise.rs
+++ b/crates/hodu_core/src/tensor/ops/bitwise.rs
@@ -5,6 +5,7 @@ use crate::{
         BitwiseBinaryOp, BitwiseBinaryParams, BitwiseUnaryOp, BitwiseUnaryParams, BitwiseUnaryScalarOp, Op, OpParams,
     },
     tensor::{create_builder_tensor, from_storage_with_context, utils::broadcast_tensors2, Tensor},
+    types::Layout,
     utils::valid::{validate_dtype_for_device, validate_dtype_for_op, validate_same_device, validate_same_dtype},
 };
 
@@ -21,7 +22,7 @@ macro_rules! bitwise_binary_op {
             if crate::snapshot::capture::is_active() {
                 let lhs_layout = lhs.layout();
                 let rhs_layout = rhs.layout();
-                let result_layout = lhs_layout.clone();
+                let result_layout = Layout::from_shape(lhs_layout.shape());
                 // Bitwise ops don't support gradient, requires_grad is always false
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), lhs.dtype(), false);
 
@@ -51,7 +52,7 @@ macro_rules! bitwise_binary_op {
                 })?;
 
                 // Bitwise ops don't support gradient
-                let result = from_storage_with_context(storage, lhs_layout, true, false);
+                let result = from_storage_with_context(storage, Layout::from_shape(lhs_layout.shape()), true, false);
 
                 Ok(result)
             }
@@ -67,7 +68,7 @@ macro_rules! bitwise_unary_op {
 
             if crate::snapshot::capture::is_active() {
                 let input_layout = self.layout();
-                let result_layout = input_layout.clone();
+                let result_layout = Layout::from_shape(input_layout.shape());
                 // Bitwise ops don't support gradient, requires_grad is always false
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), self.dtype(), false);
 
@@ -89,7 +90,7 @@ macro_rules! bitwise_unary_op {
                 })?;
 
                 // Bitwise ops don't support gradient
-                let result = from_storage_with_context(storage, input_layout, true, false);
+                let result = from_storage_with_context(storage, Layout::from_shape(input_layout.shape()), true, false);
 
                 Ok(result)
             }
@@ -108,7 +109,7 @@ macro_rules! bitwise_scalar_shift_op {
 
             if crate::snapshot::capture::is_active() {
                 let input_layout = self.layout();
-                let result_layout = input_layout.clone();
+                let result_layout = Layout::from_shape(input_layout.shape());
                 // Bitwise ops don't support gradient, requires_grad is always false
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), self.dtype(), false);
 
@@ -134,7 +135,7 @@ macro_rules! bitwise_scalar_shift_op {
                 })?;
 
                 // Bitwise ops don't support gradient
-                let result = from_storage_with_context(storage, input_layout, true, false);
+                let result = from_storage_with_context(storage, Layout::from_shape(input_layout.shape()), true, false);
 
                 Ok(result)
             }
diff --git a/crates/hodu_core/src/tensor/ops/cast_memory.rs b/crates/hodu_core/src/tensor/ops/cast_memory.rs
index db71308..7c313fb 100644
--- a/crates/hodu_core/src/tensor/ops/cast_memory.rs
+++ b/crates/hodu_core/src/tensor/ops/cast_memory.rs
@@ -13,7 +13,8 @@ impl Tensor {
 
         if crate::snapshot::capture::is_active() {
             let input_layout = self.layout();
-            let (result_id, result_tensor) = create_builder_tensor(input_layout.clone(), dtype, false);
+            let result_layout = Layout::from_shape(input_layout.shape());
+            let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), dtype, false);
 
             let op_params = OpParams::ToDType(ToDTypeParams { dtype });
 
@@ -22,8 +23,8 @@ impl Tensor {
                 Some(op_params),
                 vec![self.id()],
                 result_id,
-                vec![input_layout.clone()],
-                input_layout,
+                vec![input_layout],
+                result_layout,
             )?;
 
             Ok(result_tensor)
diff --git a/crates/hodu_core/src/tensor/ops/cmp.rs b/crates/hodu_core/src/tensor/ops/cmp.rs
index 9d1b42a..4c08d6b 100644
--- a/crates/hodu_core/src/tensor/ops/cmp.rs
+++ b/crates/hodu_core/src/tensor/ops/cmp.rs
@@ -21,7 +21,7 @@ macro_rules! cmp_op {
             let rhs_layout = rhs.layout();
 
             if crate::snapshot::capture::is_active() {
-                let result_layout = lhs_layout.clone();
+                let result_layout = Layout::from_shape(lhs_layout.shape());
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), DType::BOOL, false);
 
                 crate::snapshot::capture::capture_operation(
@@ -41,7 +41,7 @@ macro_rules! cmp_op {
                     })
                 })?;
 
-                let result = from_storage_with_context(storage, lhs_layout, true, false);
+                let result = from_storage_with_context(storage, Layout::from_shape(lhs_layout.shape()), true, false);
 
                 Ok(result)
             }
@@ -59,15 +59,16 @@ macro_rules! cmp_scalar_op {
             let input_layout = self.layout();
 
             if crate::snapshot::capture::is_active() {
-                let (result_id, result_tensor) = create_builder_tensor(input_layout.clone(), DType::BOOL, false);
+                let result_layout = Layout::from_shape(input_layout.shape());
+                let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), DType::BOOL, false);
 
                 crate::snapshot::capture::capture_operation(
                     Op::CmpScalar(CmpScalarOp::$op_name),
                     Some(OpParams::CmpScalar(CmpScalarParams { scalar })),
                     vec![self.id()],
                     result_id,
-                    vec![input_layout.clone()],
-                    input_layout,
+                    vec![input_layout],
+                    result_layout,
                 )?;
 
                 Ok(result_tensor)
diff --git a/crates/hodu_core/src/tensor/ops/indexing.rs b/crates/hodu_core/src/tensor/ops/indexing.rs
index 3401240..4d12331 100644
--- a/crates/hodu_core/src/tensor/ops/indexing.rs
+++ b/crates/hodu_core/src/tensor/ops/indexing.rs
@@ -113,7 +113,8 @@ impl Tensor {
         validate_indices_dtype(indices, Op::Indexing(IndexingOp::IndexPut))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::IndexPut));
 
-        let result_layout = self.layout();
+        let self_layout = self.layout();
+        let result_layout = Layout::from_shape(self_layout.shape());
         let indices_layout = indices.layout();
         let values_layout = values.layout();
 
@@ -128,8 +129,8 @@ impl Tensor {
                 Some(op_params.clone()),
                 vec![self.id(), values.id(), indices.id()],
                 result_id,
-                vec![result_layout.clone(), values_layout, indices_layout],
-                result_layout.clone(),
+                vec![self_layout, values_layout, indices_layout],
+                result_layout,
             )?;
 
             if requires_grad {
@@ -147,7 +148,7 @@ impl Tensor {
                 indices.with_storage(|indices_storage| {
                     values.with_storage(|values_storage| {
                         storage.call_ops_index_put(
-                            &result_layout,
+                            &self_layout,
                             indices_storage,
                             &indices_layout,
                             values_storage,
@@ -194,7 +195,8 @@ impl Tensor {
 
         // Output has same shape as indices
         let self_layout = self.layout();
-        let result_layout = indices.layout();
+        let indices_layout = indices.layout();
+        let result_layout = Layout::from_shape(indices_layout.shape());
 
         if crate::snapshot::capture::is_active() {
             let requires_grad = self.is_requires_grad() && validate_requires_grad;
@@ -207,7 +209,7 @@ impl Tensor {
                 Some(op_params.clone()),
                 vec![self.id(), indices.id()],
                 result_id,
-                vec![self_layout.clone(), result_layout.clone()],
+                vec![self_layout, indices_layout],
                 result_layout,
             )?;
 
@@ -227,7 +229,7 @@ impl Tensor {
                     storage.call_ops_gather(
                         &self_layout,
                         indices_storage,
-                        &result_layout,
+                        &indices_layout,
                         dim_usize,
                         Op::Indexing(IndexingOp::Gather),
                     )
@@ -269,7 +271,8 @@ impl Tensor {
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::Scatter));
 
         // Output has same shape as self
-        let result_layout = self.layout();
+        let self_layout = self.layout();
+        let result_layout = Layout::from_shape(self_layout.shape());
         let indices_layout = indices.layout();
         let src_layout = src.layout();
 
@@ -284,7 +287,7 @@ impl Tensor {
                 Some(op_params.clone()),
                 vec![self.id(), src.id(), indices.id()],
                 result_id,
-                vec![result_layout.clone(), src_layout.clone(), indices_layout.clone()],
+                vec![self_layout, src_layout, indices_layout],
                 result_layout,
             )?;
 
@@ -303,7 +306,7 @@ impl Tensor {
                 indices.with_storage(|indices_storage| {
                     src.with_storage(|src_storage| {
                         storage.call_ops_scatter(
-                            &result_layout,
+                            &self_layout,
                             indices_storage,
                             &indices_layout,
                             src_storage,
@@ -349,7 +352,7 @@ impl Tensor {
         validate_indices_dtype(indices, Op::Indexing(IndexingOp::ScatterAdd))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::ScatterAdd));
 
-        let result_layout = self.layout();
+        let result_layout = Layout::from_shape(&self.shape());
 
         if crate::snapshot::capture::is_active() {
             let requires_grad = (self.is_requires_grad() || src.is_requires_grad()) && validate_requires_grad;
@@ -427,7 +430,7 @@ impl Tensor {
         validate_indices_dtype(indices, Op::Indexing(IndexingOp::ScatterMax))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::ScatterMax));
 
-        let result_layout = self.layout();
+        let result_layout = Layout::from_shape(&self.shape());
 
         if crate::snapshot::capture::is_active() {
             let requires_grad = (self.is_requires_grad() || src.is_requires_grad()) && validate_requires_grad;
@@ -505,7 +508,7 @@ impl Tensor {
         validate_indices_dtype(indices, Op::Indexing(IndexingOp::ScatterMin))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::ScatterMin));
 
-        let result_layout = self.layout();
+        let result_layout = Layout::from_shape(&self.shape());
 
         if crate::snapshot::capture::is_active() {
             let requires_grad = (self.is_requires_grad() || src.is_requires_grad()) && validate_requires_grad;
diff --git a/crates/hodu_core/src/tensor/ops/unary.rs b/crates/hodu_core/src/tensor/ops/unary.rs
index 841ac52..6763038 100644
--- a/crates/hodu_core/src/tensor/ops/unary.rs
+++ b/crates/hodu_core/src/tensor/ops/unary.rs
@@ -18,16 +18,17 @@ macro_rules! unary_op {
 
             if crate::snapshot::capture::is_active() {
                 let requires_grad = self.is_requires_grad() && validate_requires_grad;
+                let result_layout = Layout::from_shape(input_layout.shape());
                 let (result_id, result_tensor) =
-                    create_builder_tensor(input_layout.clone(), self.dtype(), requires_grad);
+                    create_builder_tensor(result_layout.clone(), self.dtype(), requires_grad);
 
                 crate::snapshot::capture::capture_operation(
                     Op::Unary(UnaryOp::$op_name),
                     Some(OpParams::Unary(UnaryParams)),
                     vec![self.id()],
                     result_id,
-                    vec![input_layout.clone()],
-                    input_layout,
+                    vec![input_layout],
+                    result_layout,
                 )?;
 
                 if requires_grad {
@@ -73,15 +74,16 @@ macro_rules! unary_logical_op {
             let input_layout = self.layout();
 
             if crate::snapshot::capture::is_active() {
-                let (result_id, result_tensor) = create_builder_tensor(input_layout.clone(), DType::BOOL, false);
+                let result_layout = Layout::from_shape(input_layout.shape());
+                let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), DType::BOOL, false);
 
                 crate::snapshot::capture::capture_operation(
                     Op::UnaryLogical(UnaryLogicalOp::$op_name),
                     Some(OpParams::UnaryLogical(UnaryLogicalParams)),
                     vec![self.id()],
                     result_id,
-                    vec![input_layout.clone()],
-                    input_layout,
+                    vec![input_layout],
+                    result_layout,
                 )?;
 
                 Ok(result_tensor)
@@ -112,16 +114,17 @@ macro_rules! unary_scalar_op {
 
             if crate::snapshot::capture::is_active() {
                 let requires_grad = self.is_requires_grad() && validate_requires_grad;
+                let result_layout = Layout::from_shape(input_layout.shape());
                 let (result_id, result_tensor) =
-                    create_builder_tensor(input_layout.clone(), self.dtype(), requires_grad);
+                    create_builder_tensor(result_layout.clone(), self.dtype(), requires_grad);
 
                 crate::snapshot::capture::capture_operation(
                     Op::UnaryScalar(UnaryScalarOp::$op_name),
                     Some(OpParams::UnaryScalar(UnaryScalarParams { scalar: scalar_value })),
                     vec![self.id()],
                     result_id,
-                    vec![input_layout.clone()],
-                    input_layout,
+                    vec![input_layout],
+                    result_layout,
                 )?;
 
                 if requires_grad {
-- 
2.43.0


From 0059582e3c470e4810bd294db8d0dd3a9baeae9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:49 +0000
Subject: [PATCH 09/53] fix: read index and topk operands through their layouts
 and size index_put/scatter results by the layout

---
 .../src/be_cpu/storage/ops_indexing.rs         | 18 ++++++++++--------
 crates/hodu_core/src/tensor/ops/cast_memory.rs |  2 +-
 crates/hodu_core/src/tensor/ops/sort.rs        |  2 +-
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs b/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
index afba020..9fdb6e5 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
@@ -35,8 +35,9 @@ pub fn call_ops_index_select(
         });
     }
 
-    // Extract indices
-    let indices = match indices_storage {
+    // Extract indices (the kernel reads them densely)
+    let indices_storage = indices_storage.contiguous(indices_layout)?;
+    let indices = match &indices_storage {
         CpuStorage::I32(data) => data.as_slice(),
         _ => unreachable!(),
     };
@@ -153,8 +154,9 @@ pub fn call_ops_index_put(
         });
     }
 
-    // Extract indices
-    let indices = match indices_storage {
+    // Extract indices (the kernel reads them densely)
+    let indices_storage = indices_storage.contiguous(indices_layout)?;
+    let indices = match &indices_storage {
         CpuStorage::I32(data) => data.as_slice(),
         _ => unreachable!(),
     };
@@ -197,8 +199,8 @@ pub fn call_ops_index_put(
     let kernel_name_static = crate::cache::kernel::get_kernel_name(kernel_name);
     let kernel = hodu_cpu_kernels::macros::Kernel(kernel_name_static);
 
-    // Create output storage (copy of input)
-    let mut output = storage.clone();
+    // Create output storage (dense, the kernel fills it from the input)
+    let mut output = CpuDevice::allocate(num_els, dtype)?;
 
     // Get raw pointers and call kernel
     macro_rules! call_kernel {
@@ -461,8 +463,8 @@ pub fn call_ops_scatter(
     let kernel_name_static = crate::cache::kernel::get_kernel_name(kernel_name);
     let kernel = hodu_cpu_kernels::macros::Kernel(kernel_name_static);
 
-    // Create output storage (copy of input)
-    let mut output = storage.clone();
+    // Create output storage (dense, the kernel fills it from the input)
+    let mut output = CpuDevice::allocate(input_shape.size(), dtype)?;
 
     // Get raw pointers and call kernel
     macro_rules! call_kernel {
diff --git a/crates/hodu_core/src/tensor/ops/cast_memory.rs b/crates/hodu_core/src/tensor/ops/cast_memory.rs
index 7c313fb..ab9bd7d 100644
--- a/crates/hodu_core/src/tensor/ops/cast_memory.rs
+++ b/crates/hodu_core/src/tensor/ops/cast_memory.rs
@@ -44,8 +44,8 @@ impl Tensor {
         if crate::snapshot::capture::is_active() {
             Err(HoduError::CaptureNotActive)
         } else {
+            let storage = self.with_storage(|storage| storage.to_device(&self.layout(), device))?;
             let layout = Layout::from_shape(&self.shape());
-            let storage = self.with_storage(|storage| storage.to_device(&layout, device))?;
 
             let result = from_storage_with_context(storage, layout, true, false);
 
diff --git a/crates/hodu_core/src/tensor/ops/sort.rs b/crates/hodu_core/src/tensor/ops/sort.rs
index 9860e95..12196e1 100644
--- a/crates/hodu_core/src/tensor/ops/sort.rs
+++ b/crates/hodu_core/src/tensor/ops/sort.rs
@@ -143,7 +143,7 @@ impl Tensor {
             let mut kernel_output_shape = input_shape.dims().to_vec();
             kernel_output_shape[ndim - 1] = k;
 
-            let (values_storage, indices_storage) = self
+            let (values_storage, indices_storage) = input
                 .with_storage(|storage| storage.call_topk(&input.layout(), k, last_dim, outer_size, largest, sorted))?;
 
             let values = from_storage_with_context(
-- 
2.43.0


From 55bbfc5fecf59edb68579ba0693832e5963e91f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:02 +0000
Subject: [PATCH 10/53] fix: honour the storage offset of zero-dimensional
 views in the CPU kernels

---
 crates/hodu_cpu_kernels/kernels/ops_cast.c    |  2 +-
 crates/hodu_cpu_kernels/kernels/ops_memory.c  |  2 +-
 crates/hodu_cpu_kernels/kernels/ops_unary.c   | 40 +++++++++----------
 .../ops_unary_blas_aarch64_apple_darwin.c     |  4 +-
 .../kernels/ops_unary_openblas.c              |  4 +-
 crates/hodu_cpu_kernels/kernels/storage.c     |  2 +-
 6 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_cast.c b/crates/hodu_cpu_kernels/kernels/ops_cast.c
index b09dcec..8bd98a8 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_cast.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_cast.c
@@ -59,7 +59,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata + 2 + num_dims;                                           \
-        const size_t offset = (num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;                     \
+        const size_t offset = metadata[2 + 2 * num_dims];                                          \
                                                                                                    \
         bool contiguous = is_contiguous(num_dims, dims, strides);                                  \
                                                                                                    \
diff --git a/crates/hodu_cpu_kernels/kernels/ops_memory.c b/crates/hodu_cpu_kernels/kernels/ops_memory.c
index 529b53d..3c067fb 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_memory.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_memory.c
@@ -42,7 +42,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata + 2 + num_dims;                                           \
-        const size_t offset = (num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;                     \
+        const size_t offset = metadata[2 + 2 * num_dims];                                          \
                                                                                                    \
         bool contiguous = is_contiguous(num_dims, dims, strides);                                  \
                                                                                                    \
diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary.c b/crates/hodu_cpu_kernels/kernels/ops_unary.c
index e58070b..5c78e9d 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary.c
@@ -70,7 +70,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -169,7 +169,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -241,7 +241,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -282,7 +282,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -324,7 +324,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -360,7 +360,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -395,7 +395,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -424,7 +424,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -454,7 +454,7 @@ void hodu_cpu_neg_f32(const void *input, void *output, const size_t *metadata) {
     f32_t *out = (f32_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -502,7 +502,7 @@ void hodu_cpu_abs_f32(const void *input, void *output, const size_t *metadata) {
     f32_t *out = (f32_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -553,7 +553,7 @@ void hodu_cpu_square_f32(const void *input, void *output, const size_t *metadata
     f32_t *out = (f32_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -602,7 +602,7 @@ void hodu_cpu_sqrt_f32(const void *input, void *output, const size_t *metadata)
     f32_t *out = (f32_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -653,7 +653,7 @@ void hodu_cpu_relu_f32(const void *input, void *output, const size_t *metadata)
     f32_t *out = (f32_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -758,7 +758,7 @@ void hodu_cpu_mul_scalar_f32_fallback(const void *input, void *output, const siz
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
@@ -820,7 +820,7 @@ void hodu_cpu_neg_f64(const void *input, void *output, const size_t *metadata) {
     f64_t *out = (f64_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -870,7 +870,7 @@ void hodu_cpu_abs_f64(const void *input, void *output, const size_t *metadata) {
     f64_t *out = (f64_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -923,7 +923,7 @@ void hodu_cpu_square_f64(const void *input, void *output, const size_t *metadata
     f64_t *out = (f64_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -975,7 +975,7 @@ void hodu_cpu_sqrt_f64(const void *input, void *output, const size_t *metadata)
     f64_t *out = (f64_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -1027,7 +1027,7 @@ void hodu_cpu_relu_f64(const void *input, void *output, const size_t *metadata)
     f64_t *out = (f64_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -1127,7 +1127,7 @@ void hodu_cpu_mul_scalar_f64_fallback(const void *input, void *output, const siz
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary_blas_aarch64_apple_darwin.c b/crates/hodu_cpu_kernels/kernels/ops_unary_blas_aarch64_apple_darwin.c
index 34a88f0..54e5057 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary_blas_aarch64_apple_darwin.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary_blas_aarch64_apple_darwin.c
@@ -20,7 +20,7 @@ void hodu_cpu_mul_scalar_f32(const void *input, void *output, const size_t *meta
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
@@ -53,7 +53,7 @@ void hodu_cpu_mul_scalar_f64(const void *input, void *output, const size_t *meta
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c b/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c
index 7138eab..2b034bc 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c
@@ -20,7 +20,7 @@ void hodu_cpu_mul_scalar_f32(const void *input, void *output, const size_t *meta
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
@@ -53,7 +53,7 @@ void hodu_cpu_mul_scalar_f64(const void *input, void *output, const size_t *meta
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
diff --git a/crates/hodu_cpu_kernels/kernels/storage.c b/crates/hodu_cpu_kernels/kernels/storage.c
index 75d860d..fa0da43 100644
--- a/crates/hodu_cpu_kernels/kernels/storage.c
+++ b/crates/hodu_cpu_kernels/kernels/storage.c
@@ -41,7 +41,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata + 2 + num_dims;                                           \
-        const size_t offset = (num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;                     \
+        const size_t offset = metadata[2 + 2 * num_dims];                                          \
                                                                                                    \
         bool contiguous = is_contiguous(num_dims, dims, strides);                                  \
                                                                                                    \
-- 
2.43.0


From 9d34174ebcb7dd68e2c3de86120e1406015380ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:10 +0000
Subject: [PATCH 11/53] fix: read views through their layout when extracting
 vectors and bytes

---
 crates/hodu_core/src/tensor/bytes.rs | 15 ++++-----
 crates/hodu_core/src/tensor/vec.rs   | 49 +++++-----------------------
 2 files changed, 15 insertions(+), 49 deletions(-)

diff --git a/crates/hodu_core/src/tensor/bytes.rs b/crates/hodu_core/src/tensor/bytes.rs
index 5b7a18f..f991ec1 100644
--- a/crates/hodu_core/src/tensor/bytes.rs
+++ b/crates/hodu_core/src/tensor/bytes.rs
@@ -1,5 +1,5 @@
 use crate::{
-    be::storage::BackendStorage,
+    be::storage::{BackendStorage, BackendStorageT},
     be_cpu::storage::CpuStorage,
     error::{HoduError, HoduResult},
     tensor::{internal::from_storage_with_context, Tensor},
@@ -17,15 +17,12 @@ impl Tensor {
         let cpu_storage = self.with_storage(|storage| storage.to_cpu_storage())?;
         let layout = self.layout();
 
-        // Make contiguous if needed
-        let cpu_storage = if !layout.is_contiguous() {
-            let contiguous = self.contiguous()?;
-            contiguous.with_storage(|storage| storage.to_cpu_storage())?
-        } else {
-            cpu_storage
-        };
+        // Bring the elements of the view into logical order
+        let mut bytes = storage_to_bytes(&cpu_storage.contiguous(&layout)?);
+        // The buffer may be longer than a view that starts at its beginning
+        bytes.truncate(layout.size() * cpu_storage.dtype().size_in_bytes());
 
-        Ok(storage_to_bytes(&cpu_storage))
+        Ok(bytes)
     }
 
     /// Create tensor from raw bytes on specified device
diff --git a/crates/hodu_core/src/tensor/vec.rs b/crates/hodu_core/src/tensor/vec.rs
index 8afbe36..14f2ccb 100644
--- a/crates/hodu_core/src/tensor/vec.rs
+++ b/crates/hodu_core/src/tensor/vec.rs
@@ -310,19 +310,25 @@ fn extract_vec_from_cpu_storage<T: Clone + 'static>(cpu_storage: &CpuStorage, la
     let target_dtype = get_dtype_for_type::<T>()
         .ok_or_else(|| HoduError::InternalError("Unsupported type for extraction".to_string()))?;
 
+    // Bring the elements of the view into logical order; both conversions return a dense buffer
     let cpu_storage = if cpu_storage.dtype() != target_dtype {
         cpu_storage.to_dtype(layout, target_dtype)?
     } else {
-        cpu_storage.clone()
+        cpu_storage.contiguous(layout)?
     };
 
-    let total_elements = layout.shape().dims().iter().copied().product::<usize>();
+    let total_elements = layout.size();
     let mut result = Vec::with_capacity(total_elements);
 
     macro_rules! extract_storage {
         ($data:expr) => {
             if let Ok(typed_data) = try_cast_slice::<T, _>($data) {
-                extract_with_layout(&mut result, typed_data, layout);
+                // The buffer may be longer than a view that starts at its beginning
+                result.extend_from_slice(
+                    typed_data
+                        .get(..total_elements)
+                        .ok_or_else(|| HoduError::InternalError("Storage is smaller than its layout".to_string()))?,
+                );
             } else {
                 return Err(HoduError::InternalError(
                     "Type mismatch in extraction".to_string(),
@@ -366,43 +372,6 @@ fn try_cast_slice<T: 'static, U: 'static>(data: &[U]) -> Result<&[T], ()> {
     }
 }
 
-fn extract_with_layout<T: Clone>(result: &mut Vec<T>, data: &[T], layout: &Layout) {
-    let dims = layout.shape();
-    let strides = layout.strides();
-
-    if layout.is_contiguous() {
-        result.extend_from_slice(data);
-    } else {
-        let total_elements = dims.dims().iter().copied().product::<usize>();
-        let ndim = dims.ndim();
-        let mut indices = vec![0usize; ndim];
-
-        for _ in 0..total_elements {
-            let flat_idx = indices.iter().zip(strides.iter()).map(|(&i, &s)| i * s).sum::<usize>();
-
-            if flat_idx < data.len() {
-                result.push(data[flat_idx].clone());
-            }
-
-            // Increment indices
-            let mut carry = 1;
-            for i in (0..ndim).rev() {
-                indices[i] += carry;
-                if indices[i] < dims.dims()[i] {
-                    carry = 0;
-                    break;
-                } else {
-                    indices[i] = 0;
-                }
-            }
-
-            if carry == 1 {
-                break;
-            }
-        }
-    }
-}
-
 fn get_dtype_for_type<T: 'static>() -> Option<DType> {
     let type_id = core::any::TypeId::of::<T>();
 
-- 
2.43.0


From 8ac72815624f33d850e138c35db7ed0c1075698d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:10 +0000
Subject: [PATCH 12/53] fix: clamp and masked_fill replace the elements the
 mask selects

---
 crates/hodu_core/src/tensor/ops/selection.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/selection.rs b/crates/hodu_core/src/tensor/ops/selection.rs
index df9ba35..830984e 100644
--- a/crates/hodu_core/src/tensor/ops/selection.rs
+++ b/crates/hodu_core/src/tensor/ops/selection.rs
@@ -20,7 +20,7 @@ impl Tensor {
     pub fn masked_fill<T: Into<Scalar>>(&self, mask: &Tensor, value: T) -> HoduResult<Self> {
         let value_scalar = value.into();
         let fill_tensor = Self::full_like(self, value_scalar)?;
-        self.where3(mask, &fill_tensor)
+        fill_tensor.where3(mask, self)
     }
 
     pub fn clamp<T: Into<Scalar>>(&self, min: T, max: T) -> HoduResult<Self> {
@@ -28,21 +28,21 @@ impl Tensor {
         let max_scalar = max.into();
 
         let min_tensor = Self::full_like(self, min_scalar)?;
-        let clamped_min = self.where3(&self.lt_scalar(min_scalar)?, &min_tensor)?;
+        let clamped_min = min_tensor.where3(&self.lt_scalar(min_scalar)?, self)?;
 
         let max_tensor = Self::full_like(&clamped_min, max_scalar)?;
-        clamped_min.where3(&clamped_min.gt_scalar(max_scalar)?, &max_tensor)
+        max_tensor.where3(&clamped_min.gt_scalar(max_scalar)?, &clamped_min)
     }
 
     pub fn clamp_min<T: Into<Scalar>>(&self, min: T) -> HoduResult<Self> {
         let min_scalar = min.into();
         let min_tensor = Self::full_like(self, min_scalar)?;
-        self.where3(&self.lt_scalar(min_scalar)?, &min_tensor)
+        min_tensor.where3(&self.lt_scalar(min_scalar)?, self)
     }
 
     pub fn clamp_max<T: Into<Scalar>>(&self, max: T) -> HoduResult<Self> {
         let max_scalar = max.into();
         let max_tensor = Self::full_like(self, max_scalar)?;
-        self.where3(&self.gt_scalar(max_scalar)?, &max_tensor)
+        max_tensor.where3(&self.gt_scalar(max_scalar)?, self)
     }
 }
-- 
2.43.0


From cabc5e7e48b2fd2e34f285d94e88bd75e15fe8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:48 +0000
Subject: [PATCH 13/53] fix: let gradients flow through contiguous copies of
 views

---
 crates/hodu_core/src/ops.rs                   |  2 +-
 .../hodu_core/src/tensor/gradient/compute.rs  |  1 +
 .../src/tensor/gradient/vjp_shape_memory.rs   | 17 ++++++++++-
 .../hodu_core/src/tensor/ops/cast_memory.rs   | 28 ++++++++++++++++---
 crates/hodu_core/src/utils/valid.rs           |  4 +--
 5 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/crates/hodu_core/src/ops.rs b/crates/hodu_core/src/ops.rs
index 287f3ea..fa77879 100644
--- a/crates/hodu_core/src/ops.rs
+++ b/crates/hodu_core/src/ops.rs
@@ -810,7 +810,7 @@ impl fmt::Debug for CastOp {
 #[derive(Clone, Copy, PartialEq, Eq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 pub enum MemoryOp {
-    Contiguous, // no-backprop
+    Contiguous,
 }
 
 impl fmt::Display for MemoryOp {
diff --git a/crates/hodu_core/src/tensor/gradient/compute.rs b/crates/hodu_core/src/tensor/gradient/compute.rs
index 8d2b786..5b8707a 100644
--- a/crates/hodu_core/src/tensor/gradient/compute.rs
+++ b/crates/hodu_core/src/tensor/gradient/compute.rs
@@ -185,6 +185,7 @@ fn compute_vjp_for_op(
         Op::Shape(op) => op.compute_vjp(inputs, output, grad_output, op_params),
         Op::ShapeScalars(op) => op.compute_vjp(inputs, output, grad_output, op_params),
         Op::ShapeMemory(op) => op.compute_vjp(inputs, output, grad_output, op_params),
+        Op::Memory(op) => op.compute_vjp(inputs, output, grad_output, op_params),
         _ => Err(HoduError::VjpFunctionNotFound(format!("compute_vjp for {:?}", op))),
     }
 }
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_shape_memory.rs b/crates/hodu_core/src/tensor/gradient/vjp_shape_memory.rs
index f21e67f..2c14c7d 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_shape_memory.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_shape_memory.rs
@@ -2,7 +2,7 @@ use super::VjpCompute;
 use crate::{
     error::{HoduError, HoduResult},
     op_params::{FlipParams, OpParams},
-    ops::ShapeMemoryOp,
+    ops::{MemoryOp, ShapeMemoryOp},
     tensor::{tensor_from_id, TensorId},
 };
 
@@ -31,3 +31,18 @@ impl VjpCompute for ShapeMemoryOp {
         }
     }
 }
+
+impl VjpCompute for MemoryOp {
+    fn compute_vjp(
+        &self,
+        _inputs: &[TensorId],
+        _output: TensorId,
+        grad_output: TensorId,
+        _op_params: &OpParams,
+    ) -> HoduResult<Vec<TensorId>> {
+        match self {
+            // Copying elements into contiguous memory does not change them
+            MemoryOp::Contiguous => Ok(vec![grad_output]),
+        }
+    }
+}
diff --git a/crates/hodu_core/src/tensor/ops/cast_memory.rs b/crates/hodu_core/src/tensor/ops/cast_memory.rs
index ab9bd7d..38b8a0a 100644
--- a/crates/hodu_core/src/tensor/ops/cast_memory.rs
+++ b/crates/hodu_core/src/tensor/ops/cast_memory.rs
@@ -1,9 +1,9 @@
 use crate::{
     error::{HoduError, HoduResult},
     ops::{CastOp, ContiguousParams, MemoryOp, Op, OpParams, ToDTypeParams},
-    tensor::{create_builder_tensor, from_storage_with_context, Tensor},
+    tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
     types::{DType, Device, Layout},
-    utils::valid::validate_dtype_for_device,
+    utils::valid::{validate_dtype_for_device, validate_requires_grad_for_op},
 };
 
 impl Tensor {
@@ -59,9 +59,11 @@ impl Tensor {
             return Ok(self.clone());
         }
 
+        let requires_grad = self.is_requires_grad() && validate_requires_grad_for_op(Op::Memory(MemoryOp::Contiguous));
+
         if crate::snapshot::capture::is_active() {
             let result_layout = Layout::from_shape(&self.shape());
-            let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), self.dtype(), false);
+            let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), self.dtype(), requires_grad);
 
             crate::snapshot::capture::capture_operation(
                 Op::Memory(MemoryOp::Contiguous),
@@ -72,12 +74,30 @@ impl Tensor {
                 result_layout,
             )?;
 
+            if requires_grad {
+                gradient::record_operation(
+                    vec![self.id()],
+                    result_id,
+                    Op::Memory(MemoryOp::Contiguous),
+                    OpParams::Contiguous(ContiguousParams),
+                )?;
+            }
+
             Ok(result_tensor)
         } else {
             let storage = self.with_storage(|storage| storage.contiguous(&self.layout()))?;
             let layout = Layout::from_shape(&self.shape());
 
-            let result = from_storage_with_context(storage, layout, true, false);
+            let result = from_storage_with_context(storage, layout, true, requires_grad);
+
+            if !gradient::is_computing_gradients() && requires_grad {
+                gradient::record_operation(
+                    vec![self.id()],
+                    result.id(),
+                    Op::Memory(MemoryOp::Contiguous),
+                    OpParams::Contiguous(ContiguousParams),
+                )?;
+            }
 
             Ok(result)
         }
diff --git a/crates/hodu_core/src/utils/valid.rs b/crates/hodu_core/src/utils/valid.rs
index d2069fd..29a4c1c 100644
--- a/crates/hodu_core/src/utils/valid.rs
+++ b/crates/hodu_core/src/utils/valid.rs
@@ -493,8 +493,8 @@ pub fn validate_requires_grad_for_op(op: Op) -> bool {
         // Cast operations - no backprop
         Op::Cast(_) => false, // !
 
-        // Memory operations - no backprop
-        Op::Memory(_) => false, // !
+        // Memory operations (contiguous only copies its input, so gradients pass through)
+        Op::Memory(_) => true,
 
         Op::Dummy => false,
     }
-- 
2.43.0


From fe8ae02150e5a9d79497276cf8e098fc7f4ab76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:11 +0000
Subject: [PATCH 14/53] fix: reject concat operands whose other dimensions
 differ

---
 crates/hodu_core/src/tensor/ops/concat_split.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/hodu_core/src/tensor/ops/concat_split.rs b/crates/hodu_core/src/tensor/ops/concat_split.rs
index 7097337..3c15607 100644
--- a/crates/hodu_core/src/tensor/ops/concat_split.rs
+++ b/crates/hodu_core/src/tensor/ops/concat_split.rs
@@ -44,7 +44,13 @@ impl Tensor {
         let mut output_dims = layouts[0].shape().dims().to_vec();
         for layout in &layouts[1..] {
             let dims = layout.shape().dims();
-            if dims.len() != output_dims.len() {
+            let compatible = dims.len() == output_dims.len()
+                && dims
+                    .iter()
+                    .zip(&output_dims)
+                    .enumerate()
+                    .all(|(axis, (a, b))| axis == dim_usize || a == b);
+            if !compatible {
                 return Err(HoduError::incompatible_shapes(
                     Shape::from(&output_dims),
                     layout.shape().clone(),
-- 
2.43.0


From 6e75c4ab9e678ec9c4800b917300218f1262866f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:23 +0000
Subject: [PATCH 15/53] fix: compare small float types by value in scatter_max
 and scatter_min

---
 .../hodu_cpu_kernels/kernels/ops_indexing.c   | 72 ++++++++++---------
 1 file changed, 40 insertions(+), 32 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_indexing.c b/crates/hodu_cpu_kernels/kernels/ops_indexing.c
index 549b1f4..bc0e4c9 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_indexing.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_indexing.c
@@ -645,11 +645,15 @@ SCATTER_ADD_OP(uint64_t, scatter_add_u64)
 // Algorithm:
 // Same as scatter but compares and keeps the maximum value.
 
+/// Comparison of native C types
+#define SCATTER_GT(a, b) ((a) > (b))
+
 /// Macro to implement scatter_max operation (maximum mode)
 ///
 /// @param TYPENAME C type for the operation
 /// @param FN_NAME Function name
-#define SCATTER_MAX_OP(TYPENAME, FN_NAME)                                                          \
+/// @param GT_FN Comparison of two values of the type
+#define SCATTER_MAX_OP(TYPENAME, FN_NAME, GT_FN)                                                   \
     void hodu_cpu_##FN_NAME(const void *input_ptr, const int32_t *indices, const void *src_ptr,    \
                             void *output_ptr, const size_t *metadata) {                            \
         const TYPENAME *input = (const TYPENAME *)input_ptr;                                       \
@@ -732,26 +736,26 @@ SCATTER_ADD_OP(uint64_t, scatter_add_u64)
             }                                                                                      \
                                                                                                    \
             TYPENAME src_val = src[src_flat_idx];                                                  \
-            if (src_val > output[output_flat_idx]) {                                               \
+            if (GT_FN(src_val, output[output_flat_idx])) {                                         \
                 output[output_flat_idx] = src_val;                                                 \
             }                                                                                      \
         }                                                                                          \
     }
 
-SCATTER_MAX_OP(f8e4m3_t, scatter_max_f8e4m3)
-SCATTER_MAX_OP(f8e5m2_t, scatter_max_f8e5m2)
-SCATTER_MAX_OP(bf16_t, scatter_max_bf16)
-SCATTER_MAX_OP(f16_t, scatter_max_f16)
-SCATTER_MAX_OP(float, scatter_max_f32)
-SCATTER_MAX_OP(double, scatter_max_f64)
-SCATTER_MAX_OP(int8_t, scatter_max_i8)
-SCATTER_MAX_OP(int16_t, scatter_max_i16)
-SCATTER_MAX_OP(int32_t, scatter_max_i32)
-SCATTER_MAX_OP(int64_t, scatter_max_i64)
-SCATTER_MAX_OP(uint8_t, scatter_max_u8)
-SCATTER_MAX_OP(uint16_t, scatter_max_u16)
-SCATTER_MAX_OP(uint32_t, scatter_max_u32)
-SCATTER_MAX_OP(uint64_t, scatter_max_u64)
+SCATTER_MAX_OP(f8e4m3_t, scatter_max_f8e4m3, f8e4m3_gt)
+SCATTER_MAX_OP(f8e5m2_t, scatter_max_f8e5m2, f8e5m2_gt)
+SCATTER_MAX_OP(bf16_t, scatter_max_bf16, bf16_gt)
+SCATTER_MAX_OP(f16_t, scatter_max_f16, f16_gt)
+SCATTER_MAX_OP(float, scatter_max_f32, SCATTER_GT)
+SCATTER_MAX_OP(double, scatter_max_f64, SCATTER_GT)
+SCATTER_MAX_OP(int8_t, scatter_max_i8, SCATTER_GT)
+SCATTER_MAX_OP(int16_t, scatter_max_i16, SCATTER_GT)
+SCATTER_MAX_OP(int32_t, scatter_max_i32, SCATTER_GT)
+SCATTER_MAX_OP(int64_t, scatter_max_i64, SCATTER_GT)
+SCATTER_MAX_OP(uint8_t, scatter_max_u8, SCATTER_GT)
+SCATTER_MAX_OP(uint16_t, scatter_max_u16, SCATTER_GT)
+SCATTER_MAX_OP(uint32_t, scatter_max_u32, SCATTER_GT)
+SCATTER_MAX_OP(uint64_t, scatter_max_u64, SCATTER_GT)
 
 // ============================================================================
 // SCATTER MIN OPERATIONS
@@ -763,11 +767,15 @@ SCATTER_MAX_OP(uint64_t, scatter_max_u64)
 // Algorithm:
 // Same as scatter but compares and keeps the minimum value.
 
+/// Comparison of native C types
+#define SCATTER_LT(a, b) ((a) < (b))
+
 /// Macro to implement scatter_min operation (minimum mode)
 ///
 /// @param TYPENAME C type for the operation
 /// @param FN_NAME Function name
-#define SCATTER_MIN_OP(TYPENAME, FN_NAME)                                                          \
+/// @param LT_FN Comparison of two values of the type
+#define SCATTER_MIN_OP(TYPENAME, FN_NAME, LT_FN)                                                   \
     void hodu_cpu_##FN_NAME(const void *input_ptr, const int32_t *indices, const void *src_ptr,    \
                             void *output_ptr, const size_t *metadata) {                            \
         const TYPENAME *input = (const TYPENAME *)input_ptr;                                       \
@@ -850,26 +858,26 @@ SCATTER_MAX_OP(uint64_t, scatter_max_u64)
             }                                                                                      \
                                                                                                    \
             TYPENAME src_val = src[src_flat_idx];                                                  \
-            if (src_val < output[output_flat_idx]) {                                               \
+            if (LT_FN(src_val, output[output_flat_idx])) {                                         \
                 output[output_flat_idx] = src_val;                                                 \
             }                                                                                      \
         }                                                                                          \
     }
 
-SCATTER_MIN_OP(f8e4m3_t, scatter_min_f8e4m3)
-SCATTER_MIN_OP(f8e5m2_t, scatter_min_f8e5m2)
-SCATTER_MIN_OP(bf16_t, scatter_min_bf16)
-SCATTER_MIN_OP(f16_t, scatter_min_f16)
-SCATTER_MIN_OP(float, scatter_min_f32)
-SCATTER_MIN_OP(double, scatter_min_f64)
-SCATTER_MIN_OP(int8_t, scatter_min_i8)
-SCATTER_MIN_OP(int16_t, scatter_min_i16)
-SCATTER_MIN_OP(int32_t, scatter_min_i32)
-SCATTER_MIN_OP(int64_t, scatter_min_i64)
-SCATTER_MIN_OP(uint8_t, scatter_min_u8)
-SCATTER_MIN_OP(uint16_t, scatter_min_u16)
-SCATTER_MIN_OP(uint32_t, scatter_min_u32)
-SCATTER_MIN_OP(uint64_t, scatter_min_u64)
+SCATTER_MIN_OP(f8e4m3_t, scatter_min_f8e4m3, f8e4m3_lt)
+SCATTER_MIN_OP(f8e5m2_t, scatter_min_f8e5m2, f8e5m2_lt)
+SCATTER_MIN_OP(bf16_t, scatter_min_bf16, bf16_lt)
+SCATTER_MIN_OP(f16_t, scatter_min_f16, f16_lt)
+SCATTER_MIN_OP(float, scatter_min_f32, SCATTER_LT)
+SCATTER_MIN_OP(double, scatter_min_f64, SCATTER_LT)
+SCATTER_MIN_OP(int8_t, scatter_min_i8, SCATTER_LT)
+SCATTER_MIN_OP(int16_t, scatter_min_i16, SCATTER_LT)
+SCATTER_MIN_OP(int32_t, scatter_min_i32, SCATTER_LT)
+SCATTER_MIN_OP(int64_t, scatter_min_i64, SCATTER_LT)
+SCATTER_MIN_OP(uint8_t, scatter_min_u8, SCATTER_LT)
+SCATTER_MIN_OP(uint16_t, scatter_min_u16, SCATTER_LT)
+SCATTER_MIN_OP(uint32_t, scatter_min_u32, SCATTER_LT)
+SCATTER_MIN_OP(uint64_t, scatter_min_u64, SCATTER_LT)
 
 // ============================================================================
 // ONEHOT OPERATIONS
-- 
2.43.0


From 7306f27b643eb0e8df973d26099726bd8c6da3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:04 +0000
Subject: [PATCH 16/53] fix: release the tape lock before cleaning up a removed
 gradient context

---
 crates/hodu_core/src/tensor/gradient/tape.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/hodu_core/src/tensor/gradient/tape.rs b/crates/hodu_core/src/tensor/gradient/tape.rs
index 895b28f..ac12b93 100644
--- a/crates/hodu_core/src/tensor/gradient/tape.rs
+++ b/crates/hodu_core/src/tensor/gradient/tape.rs
@@ -31,7 +31,9 @@ pub(super) fn initialize_tape(context_id: ContextId) {
 
 /// Remove a tape for a context and clean up context-owned tensors
 pub(super) fn remove_tape(context_id: ContextId) {
-    if let Some(tape) = GRADIENT_TAPES.lock().unwrap().remove(&context_id) {
+    // The lock must be released before the cleanup, which takes it again
+    let removed = GRADIENT_TAPES.lock().unwrap().remove(&context_id);
+    if let Some(tape) = removed {
         cleanup_context_tensors(context_id, &tape);
     }
 }
-- 
2.43.0


From 218fb471435b3010346ce1f95a87e1ce2f10b57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:04 +0000
Subject: [PATCH 17/53] fix: slice with a negative step reverses the dimension
 instead of reading past the end

---
 crates/hodu_core/src/tensor/ops/shape.rs | 19 ++++++++++++++
 crates/hodu_core/src/types/layout.rs     | 33 +++++++++---------------
 2 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/shape.rs b/crates/hodu_core/src/tensor/ops/shape.rs
index 7e0dc97..13e3c92 100644
--- a/crates/hodu_core/src/tensor/ops/shape.rs
+++ b/crates/hodu_core/src/tensor/ops/shape.rs
@@ -475,6 +475,25 @@ impl Tensor {
         let step_i32 = step_scalar.to_i32();
 
         let current_layout = self.layout();
+
+        if step_i32 < 0 {
+            // A view cannot walk backwards: reverse the dimension and slice the result forwards
+            let ndim = current_layout.ndim();
+            let axis = if dim_i32 < 0 { dim_i32 + ndim as i32 } else { dim_i32 };
+            if axis < 0 || axis as usize >= ndim {
+                return Err(HoduError::InvalidAxis { axis: dim_i32, ndim });
+            }
+            let dim_size = current_layout.shape().dims()[axis as usize] as i32;
+            let last = dim_size - 1;
+            let normalize = |index: i32| if index < 0 { index + dim_size } else { index }.clamp(-1, last);
+            return self.flip(&[axis])?.slice(
+                axis,
+                last - normalize(start_i32),
+                end_i32.map(|end| last - normalize(end)),
+                step_i32.saturating_neg(),
+            );
+        }
+
         let new_layout = current_layout.slice(dim_i32, start_i32, end_i32, step_i32)?;
         let requires_grad = self.is_requires_grad();
 
diff --git a/crates/hodu_core/src/types/layout.rs b/crates/hodu_core/src/types/layout.rs
index e052ecd..0b37948 100644
--- a/crates/hodu_core/src/types/layout.rs
+++ b/crates/hodu_core/src/types/layout.rs
@@ -447,6 +447,13 @@ impl Layout {
             return Err(HoduError::InternalError("slice step cannot be zero".to_string()));
         }
 
+        // Strides are unsigned, so no view can walk a dimension backwards
+        if step < 0 {
+            return Err(HoduError::InternalError(
+                "slice step of a layout cannot be negative".to_string(),
+            ));
+        }
+
         let dim_size = self.shape.dims()[actual_dim] as i32;
 
         // Normalize negative indices and handle None for end
@@ -459,32 +466,16 @@ impl Layout {
                     e
                 }
             },
-            None => {
-                if step > 0 {
-                    dim_size
-                } else {
-                    -1
-                }
-            },
+            None => dim_size,
         };
 
         // Clamp indices to valid range
         let clamped_start = start_idx.clamp(0, dim_size);
-        let clamped_end = if step > 0 {
-            end_idx.clamp(0, dim_size)
-        } else {
-            end_idx.clamp(-1, dim_size - 1)
-        };
+        let clamped_end = end_idx.clamp(0, dim_size);
 
         // Calculate new size for the dimension
-        let new_size = if step > 0 {
-            if clamped_end > clamped_start {
-                (clamped_end - clamped_start + step - 1) / step
-            } else {
-                0
-            }
-        } else if clamped_start > clamped_end {
-            (clamped_start - clamped_end + (-step) - 1) / (-step)
+        let new_size = if clamped_end > clamped_start {
+            (clamped_end - clamped_start - 1) / step + 1
         } else {
             0
         };
@@ -498,7 +489,7 @@ impl Layout {
         let mut new_strides = self.strides.clone();
 
         new_shape.dims_mut()[actual_dim] = new_size as usize;
-        new_strides[actual_dim] = self.strides[actual_dim] * step.unsigned_abs() as usize;
+        new_strides[actual_dim] = self.strides[actual_dim] * step as usize;
 
         // Calculate new offset
         let new_offset = self.offset + clamped_start as usize * self.strides[actual_dim];
-- 
2.43.0


From 6979d2f114a59435745c795627fa67b361ef6725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:41 +0000
Subject: [PATCH 18/53] fix: give einsum kernels the layouts of all operands

---
 crates/hodu_core/src/tensor/ops/einsum.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/einsum.rs b/crates/hodu_core/src/tensor/ops/einsum.rs
index 474e067..63c0b57 100644
--- a/crates/hodu_core/src/tensor/ops/einsum.rs
+++ b/crates/hodu_core/src/tensor/ops/einsum.rs
@@ -101,12 +101,11 @@ impl Tensor {
 
             Ok(result_tensor)
         } else {
-            let other_layouts: Vec<Layout> = tensors.iter().skip(1).map(|t| t.layout()).collect();
-            let input_layout_refs: Vec<&Layout> = other_layouts.iter().collect();
+            let input_layout_refs: Vec<&Layout> = input_layouts.iter().collect();
 
             // Execute with nested with_storage calls based on tensor count
             let storage = match tensors.len() {
-                1 => tensors[0].with_storage(|s0| s0.call_ops_einsum(&[], &[], &parsed))?,
+                1 => tensors[0].with_storage(|s0| s0.call_ops_einsum(&[], &input_layout_refs, &parsed))?,
                 2 => tensors[0].with_storage(|s0| {
                     tensors[1].with_storage(|s1| s0.call_ops_einsum(&[s1], &input_layout_refs, &parsed))
                 })?,
-- 
2.43.0


From bbc315a57cf357072c04cfd429ac98ab0d80e0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:15 +0000
Subject: [PATCH 19/53] fix: validate the element type before cumsum and topk

---
 crates/hodu_core/src/tensor/ops/scan.rs | 4 ++++
 crates/hodu_core/src/tensor/ops/sort.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/hodu_core/src/tensor/ops/scan.rs b/crates/hodu_core/src/tensor/ops/scan.rs
index 080ac65..1fbef35 100644
--- a/crates/hodu_core/src/tensor/ops/scan.rs
+++ b/crates/hodu_core/src/tensor/ops/scan.rs
@@ -5,10 +5,14 @@ use crate::{
     scalar::Scalar,
     tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
     types::Layout,
+    utils::valid::{validate_dtype_for_device, validate_dtype_for_op},
 };
 
 impl Tensor {
     pub fn cumsum<D: Into<Scalar>>(&self, dim: D) -> HoduResult<Self> {
+        validate_dtype_for_device(self.dtype(), self.device())?;
+        validate_dtype_for_op(self.dtype(), Op::Scan(ScanOp::CumSum))?;
+
         let ndim = self.ndim();
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
diff --git a/crates/hodu_core/src/tensor/ops/sort.rs b/crates/hodu_core/src/tensor/ops/sort.rs
index 12196e1..ee36cce 100644
--- a/crates/hodu_core/src/tensor/ops/sort.rs
+++ b/crates/hodu_core/src/tensor/ops/sort.rs
@@ -4,6 +4,7 @@ use crate::{
     ops::{Op, SortOp},
     tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
     types::{DType, Layout, Shape},
+    utils::valid::{validate_dtype_for_device, validate_dtype_for_op},
 };
 
 impl Tensor {
@@ -28,6 +29,9 @@ impl Tensor {
     /// // indices: [5, 4, 2]
     /// ```
     pub fn topk(&self, k: usize, dim: i32, largest: bool, sorted: bool) -> HoduResult<(Self, Self)> {
+        validate_dtype_for_device(self.dtype(), self.device())?;
+        validate_dtype_for_op(self.dtype(), Op::Sort(SortOp::TopK))?;
+
         let shape = self.shape();
         let ndim = shape.ndim();
 
-- 
2.43.0


From 3548583e91ac261972ee690d37d0c864cdd4ae03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:50 +0000
Subject: [PATCH 20/53] fix: flip reads non-contiguous views through their
 layout

---
 crates/hodu_core/src/be_cpu/storage/ops_shape_memory.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_shape_memory.rs b/crates/hodu_core/src/be_cpu/storage/ops_shape_memory.rs
index 0946a29..19d8d6e 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_shape_memory.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_shape_memory.rs
@@ -17,6 +17,8 @@ pub fn call_ops_flip(storage: &CpuStorage, layout: &Layout, dims: &[usize]) -> H
 
     let metadata = crate::op_metadatas::flip_metadata(layout, dims);
 
+    // The kernel walks its input in row-major order, so views are made contiguous first
+    let storage = storage.contiguous(layout)?;
     let mut output = CpuDevice::allocate(num_els, dtype)?;
 
     macro_rules! call_flip {
@@ -27,7 +29,7 @@ pub fn call_ops_flip(storage: &CpuStorage, layout: &Layout, dims: &[usize]) -> H
         }};
     }
 
-    match (storage, &mut output) {
+    match (&storage, &mut output) {
         (CpuStorage::BOOL(input), CpuStorage::BOOL(out)) => call_flip!(input, out),
         (CpuStorage::F8E4M3(input), CpuStorage::F8E4M3(out)) => call_flip!(input, out),
         #[cfg(feature = "f8e5m2")]
-- 
2.43.0


From a34b85f0727d7f5e234e287d1c1337628604867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 21/53] fix: concat packs views through their layouts

---
 .../hodu_core/src/be_cpu/storage/ops_concat_split.rs  | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_concat_split.rs b/crates/hodu_core/src/be_cpu/storage/ops_concat_split.rs
index 029394d..5d4d0ea 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_concat_split.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_concat_split.rs
@@ -94,8 +94,17 @@ pub fn call_ops_concat(
     output_shape_vec[dim] = layouts.iter().map(|l| l.shape().dims()[dim]).sum();
     let output_shape = Shape::new(&output_shape_vec);
 
+    // The inputs are packed one after another, so views are made contiguous first
+    let storages = storages
+        .iter()
+        .zip(layouts)
+        .map(|(storage, layout)| storage.contiguous(layout))
+        .collect::<HoduResult<Vec<_>>>()?;
+    let packed_layouts: Vec<Layout> = layouts.iter().map(|l| Layout::from_shape(l.shape())).collect();
+    let packed_layouts: Vec<&Layout> = packed_layouts.iter().collect();
+
     // Generate metadata using centralized function
-    let metadata = crate::op_metadatas::concat_metadata(layouts, dim, &output_shape_vec);
+    let metadata = crate::op_metadatas::concat_metadata(&packed_layouts, dim, &output_shape_vec);
 
     // Generate kernel name
     let kernel_name = format!("hodu_cpu_concat_{}", dtype);
-- 
2.43.0


From 1349701ac2c8eeaec1661a34b11692e6da2cd2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 22/53] fix: convolutions read views through their layouts

---
 crates/hodu_core/src/be_cpu/storage/ops_conv.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_conv.rs b/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
index 79cd064..b504cfb 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
@@ -91,6 +91,12 @@ pub fn call_ops_conv(
         )));
     }
 
+    // The kernels walk their operands in row-major order, so views are made contiguous first
+    let input_storage = &input_storage.contiguous(input_layout)?;
+    let weight_storage = &weight_storage.contiguous(weight_layout)?;
+    let input_layout = &Layout::from_shape(input_shape);
+    let weight_layout = &Layout::from_shape(weight_shape);
+
     // Build metadata and compute output shape based on spatial dimensions
     let (metadata, output_shape) = match spatial_dims {
         1 => {
-- 
2.43.0


From 1b15f017fed88de930e740549136089ff50c7a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 23/53] fix: onehot indices and compress conditions are read
 through their layouts

---
 crates/hodu_core/src/be_cpu/storage/ops_indexing.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs b/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
index 9fdb6e5..3e5d5ad 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
@@ -566,8 +566,8 @@ pub fn call_ops_onehot(
         _ => return Err(HoduError::BackendError("call_ops_onehot expects Onehot op".to_string())),
     };
 
-    // Convert indices to i32
-    let indices: Vec<i32> = match indices_storage {
+    // Convert indices to i32 (the kernel reads them densely)
+    let indices: Vec<i32> = match &indices_storage.contiguous(indices_layout)? {
         CpuStorage::I8(data) => data.iter().map(|&x| x as i32).collect(),
         #[cfg(feature = "i16")]
         CpuStorage::I16(data) => data.iter().map(|&x| x as i32).collect(),
@@ -825,7 +825,8 @@ pub fn call_compress(
     }
 
     // Extract condition as contiguous bool slice
-    let condition = match condition_storage {
+    let condition_storage = condition_storage.contiguous(condition_layout)?;
+    let condition = match &condition_storage {
         CpuStorage::BOOL(data) => data.as_slice(),
         _ => unreachable!(),
     };
-- 
2.43.0


From f6f9ac442e901a134584f508b5121dd1856ca389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 24/53] fix: padding reads views through their layout

---
 crates/hodu_core/src/be_cpu/storage/ops_padding.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_padding.rs b/crates/hodu_core/src/be_cpu/storage/ops_padding.rs
index 6817c6c..ad25134 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_padding.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_padding.rs
@@ -51,6 +51,8 @@ pub fn call_ops_pad(
     let output_shape = Shape::new(&output_shape_vec);
     let metadata = crate::op_metadatas::padding_metadata(layout, pad_before, &output_shape_vec);
 
+    // The kernels walk their input in row-major order, so views are made contiguous first
+    let storage = &storage.contiguous(layout)?;
     let dtype = storage.dtype();
     let kernel_name = format!("{}_{}", kernel_prefix, dtype);
     let kernel_name_static = crate::cache::kernel::get_kernel_name(kernel_name);
-- 
2.43.0


From 21c9eee356e5716b6634a9460cc5961c54b083d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 25/53] fix: the topk storage operation honours its layout

---
 crates/hodu_core/src/be_cpu/storage/ops_sort.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_sort.rs b/crates/hodu_core/src/be_cpu/storage/ops_sort.rs
index 1b73125..85dca7d 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_sort.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_sort.rs
@@ -15,6 +15,9 @@ pub fn call_topk(
     largest: bool,
     sorted: bool,
 ) -> HoduResult<(CpuStorage, CpuStorage)> {
+    // The kernel walks its input in row-major order, so views are made contiguous first
+    let storage = &storage.contiguous(layout)?;
+    let layout = &Layout::from_shape(layout.shape());
     let dtype = storage.dtype();
     let output_size = outer_size * k;
 
-- 
2.43.0


From 8b563f5a8955217e69720383cebf25e7ab19d18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:48 +0000
Subject: [PATCH 26/53] fix: transposed convolutions allocate the padded output

---
 crates/hodu_core/src/be/storage.rs            |  5 +++++
 crates/hodu_core/src/be_cpu/storage.rs        |  2 ++
 .../hodu_core/src/be_cpu/storage/ops_conv.rs  | 18 ++++++++++------
 crates/hodu_core/src/be_cuda/storage.rs       | 13 +++++++++++-
 .../hodu_core/src/be_cuda/storage/ops_conv.rs |  1 +
 crates/hodu_core/src/be_metal/storage.rs      |  2 ++
 .../src/be_metal/storage/ops_conv.rs          |  1 +
 crates/hodu_core/src/tensor/ops/conv.rs       | 21 +++++++++++++------
 8 files changed, 50 insertions(+), 13 deletions(-)

diff --git a/crates/hodu_core/src/be/storage.rs b/crates/hodu_core/src/be/storage.rs
index b469a4f..1726e35 100644
--- a/crates/hodu_core/src/be/storage.rs
+++ b/crates/hodu_core/src/be/storage.rs
@@ -116,6 +116,7 @@ pub trait BackendStorageT: Sized {
         _: &[usize],
         _: &[usize],
         _: &[usize],
+        _: &[usize],
         _: Op,
     ) -> HoduResult<Self>;
 
@@ -1034,6 +1035,7 @@ impl BackendStorage {
         stride: &[usize],
         padding: &[usize],
         dilation: &[usize],
+        output_padding: &[usize],
         op: Op,
     ) -> HoduResult<Self> {
         // Check devices match
@@ -1054,6 +1056,7 @@ impl BackendStorage {
                 stride,
                 padding,
                 dilation,
+                output_padding,
                 op,
             )?)),
             #[cfg(feature = "cuda")]
@@ -1064,6 +1067,7 @@ impl BackendStorage {
                 stride,
                 padding,
                 dilation,
+                output_padding,
                 op,
             )?)),
             #[cfg(feature = "metal")]
@@ -1074,6 +1078,7 @@ impl BackendStorage {
                 stride,
                 padding,
                 dilation,
+                output_padding,
                 op,
             )?)),
             #[cfg(any(feature = "cuda", feature = "metal"))]
diff --git a/crates/hodu_core/src/be_cpu/storage.rs b/crates/hodu_core/src/be_cpu/storage.rs
index 77fceee..44fb16a 100644
--- a/crates/hodu_core/src/be_cpu/storage.rs
+++ b/crates/hodu_core/src/be_cpu/storage.rs
@@ -572,6 +572,7 @@ impl BackendStorageT for CpuStorage {
         stride: &[usize],
         padding: &[usize],
         dilation: &[usize],
+        output_padding: &[usize],
         op: Op,
     ) -> HoduResult<Self> {
         ops_conv::call_ops_conv(
@@ -582,6 +583,7 @@ impl BackendStorageT for CpuStorage {
             stride,
             padding,
             dilation,
+            output_padding,
             op,
         )
     }
diff --git a/crates/hodu_core/src/be_cpu/storage/ops_conv.rs b/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
index b504cfb..04fe727 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
@@ -30,6 +30,7 @@ pub fn call_ops_conv(
     stride: &[usize],
     padding: &[usize],
     dilation: &[usize],
+    output_padding: &[usize],
     op: Op,
 ) -> HoduResult<CpuStorage> {
     // Validate op
@@ -108,7 +109,7 @@ pub fn call_ops_conv(
 
             let out_width = if matches!(conv_op, ConvOp::ConvTranspose1d) {
                 // Transposed convolution
-                (in_width - 1) * stride_w - 2 * padding_w + dilation_w * (kernel_width - 1) + 1
+                (in_width - 1) * stride_w + dilation_w * (kernel_width - 1) + output_padding[0] + 1 - 2 * padding_w
             } else {
                 // Standard convolution
                 (in_width + 2 * padding_w - dilation_w * (kernel_width - 1) - 1) / stride_w + 1
@@ -142,8 +143,10 @@ pub fn call_ops_conv(
 
             let (out_height, out_width) = if matches!(conv_op, ConvOp::ConvTranspose2d) {
                 // Transposed convolution
-                let out_h = (in_height - 1) * stride_h - 2 * padding_h + dilation_h * (kernel_height - 1) + 1;
-                let out_w = (in_width - 1) * stride_w - 2 * padding_w + dilation_w * (kernel_width - 1) + 1;
+                let out_h = (in_height - 1) * stride_h + dilation_h * (kernel_height - 1) + output_padding[0] + 1
+                    - 2 * padding_h;
+                let out_w =
+                    (in_width - 1) * stride_w + dilation_w * (kernel_width - 1) + output_padding[1] + 1 - 2 * padding_w;
                 (out_h, out_w)
             } else {
                 // Standard convolution
@@ -185,9 +188,12 @@ pub fn call_ops_conv(
 
             let (out_depth, out_height, out_width) = if matches!(conv_op, ConvOp::ConvTranspose3d) {
                 // Transposed convolution
-                let out_d = (in_depth - 1) * stride_d - 2 * padding_d + dilation_d * (kernel_depth - 1) + 1;
-                let out_h = (in_height - 1) * stride_h - 2 * padding_h + dilation_h * (kernel_height - 1) + 1;
-                let out_w = (in_width - 1) * stride_w - 2 * padding_w + dilation_w * (kernel_width - 1) + 1;
+                let out_d =
+                    (in_depth - 1) * stride_d + dilation_d * (kernel_depth - 1) + output_padding[0] + 1 - 2 * padding_d;
+                let out_h = (in_height - 1) * stride_h + dilation_h * (kernel_height - 1) + output_padding[1] + 1
+                    - 2 * padding_h;
+                let out_w =
+                    (in_width - 1) * stride_w + dilation_w * (kernel_width - 1) + output_padding[2] + 1 - 2 * padding_w;
                 (out_d, out_h, out_w)
             } else {
                 // Standard convolution
diff --git a/crates/hodu_core/src/be_cuda/storage.rs b/crates/hodu_core/src/be_cuda/storage.rs
index 3269532..edaac34 100644
--- a/crates/hodu_core/src/be_cuda/storage.rs
+++ b/crates/hodu_core/src/be_cuda/storage.rs
@@ -485,9 +485,20 @@ impl BackendStorageT for CudaStorage {
         stride: &[usize],
         padding: &[usize],
         dilation: &[usize],
+        output_padding: &[usize],
         op: Op,
     ) -> HoduResult<Self> {
-        ops_conv::call_ops_conv(self, layout, weight, weight_layout, stride, padding, dilation, op)
+        ops_conv::call_ops_conv(
+            self,
+            layout,
+            weight,
+            weight_layout,
+            stride,
+            padding,
+            dilation,
+            output_padding,
+            op,
+        )
     }
 
     fn call_ops_conv_grad_weight(
diff --git a/crates/hodu_core/src/be_cuda/storage/ops_conv.rs b/crates/hodu_core/src/be_cuda/storage/ops_conv.rs
index e95ca1b..dae2575 100644
--- a/crates/hodu_core/src/be_cuda/storage/ops_conv.rs
+++ b/crates/hodu_core/src/be_cuda/storage/ops_conv.rs
@@ -16,6 +16,7 @@ pub fn call_ops_conv(
     stride: &[usize],
     padding: &[usize],
     dilation: &[usize],
+    _output_padding: &[usize],
     op: Op,
 ) -> HoduResult<CudaStorage> {
     let conv_op = match op {
diff --git a/crates/hodu_core/src/be_metal/storage.rs b/crates/hodu_core/src/be_metal/storage.rs
index cda3dd8..4b761b7 100644
--- a/crates/hodu_core/src/be_metal/storage.rs
+++ b/crates/hodu_core/src/be_metal/storage.rs
@@ -407,6 +407,7 @@ impl BackendStorageT for MetalStorage {
         stride: &[usize],
         padding: &[usize],
         dilation: &[usize],
+        output_padding: &[usize],
         op: Op,
     ) -> HoduResult<Self> {
         ops_conv::call_ops_conv(
@@ -417,6 +418,7 @@ impl BackendStorageT for MetalStorage {
             stride,
             padding,
             dilation,
+            output_padding,
             op,
         )
     }
diff --git a/crates/hodu_core/src/be_metal/storage/ops_conv.rs b/crates/hodu_core/src/be_metal/storage/ops_conv.rs
index a28a7bc..36a8b34 100644
--- a/crates/hodu_core/src/be_metal/storage/ops_conv.rs
+++ b/crates/hodu_core/src/be_metal/storage/ops_conv.rs
@@ -16,6 +16,7 @@ pub fn call_ops_conv(
     stride: &[usize],
     padding: &[usize],
     dilation: &[usize],
+    _output_padding: &[usize],
     op: Op,
 ) -> HoduResult<MetalStorage> {
     // Validate op
diff --git a/crates/hodu_core/src/tensor/ops/conv.rs b/crates/hodu_core/src/tensor/ops/conv.rs
index c11a81e..a80a2f7 100644
--- a/crates/hodu_core/src/tensor/ops/conv.rs
+++ b/crates/hodu_core/src/tensor/ops/conv.rs
@@ -115,6 +115,7 @@ impl Tensor {
                         &stride_arr,
                         &padding_arr,
                         &dilation_arr,
+                        &[0],
                         Op::Conv(ConvOp::Conv1d),
                     )
                 })
@@ -241,6 +242,7 @@ impl Tensor {
                         &stride_arr,
                         &padding_arr,
                         &dilation_arr,
+                        &[0, 0],
                         Op::Conv(ConvOp::Conv2d),
                     )
                 })
@@ -372,6 +374,7 @@ impl Tensor {
                         &stride_arr,
                         &padding_arr,
                         &dilation_arr,
+                        &[0, 0, 0],
                         Op::Conv(ConvOp::Conv3d),
                     )
                 })
@@ -445,12 +448,13 @@ impl Tensor {
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::ConvTranspose1d));
 
         let output_length =
-            (length_input - 1) * stride - 2 * padding + dilation * (kernel_size - 1) + output_padding + 1;
+            (length_input - 1) * stride + dilation * (kernel_size - 1) + output_padding + 1 - 2 * padding;
         let output_shape = vec![batch_size, channels_output, output_length];
 
         let stride_arr = [stride];
         let padding_arr = [padding];
         let dilation_arr = [dilation];
+        let output_padding_arr = [output_padding];
 
         // Calculate layouts before if-else block
         let input_layout = self.layout();
@@ -503,6 +507,7 @@ impl Tensor {
                         &stride_arr,
                         &padding_arr,
                         &dilation_arr,
+                        &output_padding_arr,
                         Op::Conv(ConvOp::ConvTranspose1d),
                     )
                 })
@@ -578,14 +583,15 @@ impl Tensor {
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::ConvTranspose2d));
 
         let output_height =
-            (input_height - 1) * stride - 2 * padding + dilation * (kernel_height - 1) + output_padding + 1;
+            (input_height - 1) * stride + dilation * (kernel_height - 1) + output_padding + 1 - 2 * padding;
         let output_width =
-            (input_width - 1) * stride - 2 * padding + dilation * (kernel_width - 1) + output_padding + 1;
+            (input_width - 1) * stride + dilation * (kernel_width - 1) + output_padding + 1 - 2 * padding;
         let output_shape = vec![batch_size, channels_output, output_height, output_width];
 
         let stride_arr = [stride; 2];
         let padding_arr = [padding; 2];
         let dilation_arr = [dilation; 2];
+        let output_padding_arr = [output_padding; 2];
 
         // Calculate layouts before if-else block
         let input_layout = self.layout();
@@ -640,6 +646,7 @@ impl Tensor {
                         &stride_arr,
                         &padding_arr,
                         &dilation_arr,
+                        &output_padding_arr,
                         Op::Conv(ConvOp::ConvTranspose2d),
                     )
                 })
@@ -717,16 +724,17 @@ impl Tensor {
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::ConvTranspose3d));
 
         let output_depth =
-            (input_depth - 1) * stride - 2 * padding + dilation * (kernel_depth - 1) + output_padding + 1;
+            (input_depth - 1) * stride + dilation * (kernel_depth - 1) + output_padding + 1 - 2 * padding;
         let output_height =
-            (input_height - 1) * stride - 2 * padding + dilation * (kernel_height - 1) + output_padding + 1;
+            (input_height - 1) * stride + dilation * (kernel_height - 1) + output_padding + 1 - 2 * padding;
         let output_width =
-            (input_width - 1) * stride - 2 * padding + dilation * (kernel_width - 1) + output_padding + 1;
+            (input_width - 1) * stride + dilation * (kernel_width - 1) + output_padding + 1 - 2 * padding;
         let output_shape = vec![batch_size, channels_output, output_depth, output_height, output_width];
 
         let stride_arr = [stride; 3];
         let padding_arr = [padding; 3];
         let dilation_arr = [dilation; 3];
+        let output_padding_arr = [output_padding; 3];
 
         // Calculate layouts before if-else block
         let input_layout = self.layout();
@@ -783,6 +791,7 @@ impl Tensor {
                         &stride_arr,
                         &padding_arr,
                         &dilation_arr,
+                        &output_padding_arr,
                         Op::Conv(ConvOp::ConvTranspose3d),
                     )
                 })
-- 
2.43.0


From 38b41e5edb3deb710aae02f06c1305dd7088c262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 27/53] fix: index_put metadata follows the layout its kernels
 read

---
 crates/hodu_core/src/op_metadatas.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/crates/hodu_core/src/op_metadatas.rs b/crates/hodu_core/src/op_metadatas.rs
index 6a094e3..3e5098f 100644
--- a/crates/hodu_core/src/op_metadatas.rs
+++ b/crates/hodu_core/src/op_metadatas.rs
@@ -730,7 +730,7 @@ pub fn index_select_metadata(layout: &Layout, dim: usize, num_indices: usize, ou
 /// Generate metadata for index_put operations
 ///
 /// Format:
-/// - [num_els, num_dims, input_shape, input_strides, input_offset, values_shape, values_strides, values_offset, dim, num_indices]
+/// - [num_els, num_dims, input_shape, input_strides, values_strides, input_offset, values_offset, dim, num_indices]
 pub fn index_put_metadata(
     layout: &Layout,
     values_layout: &Layout,
@@ -739,10 +739,9 @@ pub fn index_put_metadata(
     output_num_els: usize,
 ) -> Vec<usize> {
     let input_shape = layout.shape();
-    let values_shape = values_layout.shape();
     let ndim = input_shape.ndim();
 
-    let mut metadata = Vec::with_capacity(2 + ndim + ndim + 1 + ndim + ndim + 1 + 1 + 1);
+    let mut metadata = Vec::with_capacity(2 + 3 * ndim + 4);
 
     metadata.push(output_num_els);
     metadata.push(ndim);
@@ -754,15 +753,14 @@ pub fn index_put_metadata(
     for &s in layout.strides() {
         metadata.push(s);
     }
-    metadata.push(layout.offset());
 
-    // values shape and strides
-    for &d in values_shape.dims() {
-        metadata.push(d);
-    }
+    // values strides
     for &s in values_layout.strides() {
         metadata.push(s);
     }
+
+    // offsets
+    metadata.push(layout.offset());
     metadata.push(values_layout.offset());
 
     metadata.push(dim);
-- 
2.43.0


From c8dbc3c3a8dc0a58f88b9d715f893ea7bbec1542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 28/53] fix: BLAS matmul and dot only take operands BLAS can
 describe

A broadcast operand has stride 0 between rows or columns; clamping the
leading dimension made BLAS read other elements, and past the buffer.
Such operands now take the fallback kernel.
---
 .../ops_matrix_blas_aarch64_apple_darwin.c    | 40 +++++++++++--------
 .../kernels/ops_matrix_openblas.c             | 40 +++++++++++--------
 2 files changed, 48 insertions(+), 32 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_matrix_blas_aarch64_apple_darwin.c b/crates/hodu_cpu_kernels/kernels/ops_matrix_blas_aarch64_apple_darwin.c
index ebec0b5..a3f50ac 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_matrix_blas_aarch64_apple_darwin.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_matrix_blas_aarch64_apple_darwin.c
@@ -44,10 +44,14 @@ void hodu_cpu_matmul_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_
     // Determine matrix layouts and transpose flags
     // Row-major: innermost (last) stride is 1
     // Col-major: outermost (second-to-last) stride is 1
-    bool lhs_row_major = (lhs_strides[lhs_ndim - 1] == 1);
-    bool lhs_col_major = (lhs_strides[lhs_ndim - 2] == 1);
-    bool rhs_row_major = (rhs_strides[rhs_ndim - 1] == 1);
-    bool rhs_col_major = (rhs_strides[rhs_ndim - 2] == 1);
+    bool lhs_row_major =
+        (lhs_strides[lhs_ndim - 1] == 1 && (M <= 1 || lhs_strides[lhs_ndim - 2] >= K));
+    bool lhs_col_major =
+        (lhs_strides[lhs_ndim - 2] == 1 && (K <= 1 || lhs_strides[lhs_ndim - 1] >= M));
+    bool rhs_row_major =
+        (rhs_strides[rhs_ndim - 1] == 1 && (K <= 1 || rhs_strides[rhs_ndim - 2] >= N));
+    bool rhs_col_major =
+        (rhs_strides[rhs_ndim - 2] == 1 && (N <= 1 || rhs_strides[rhs_ndim - 1] >= K));
 
     // Can use BLAS if either row-major or col-major (transposed)
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
@@ -149,10 +153,14 @@ void hodu_cpu_matmul_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_
     rhs += rhs_offset;
 
     // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_strides[lhs_ndim - 1] == 1);
-    bool lhs_col_major = (lhs_strides[lhs_ndim - 2] == 1);
-    bool rhs_row_major = (rhs_strides[rhs_ndim - 1] == 1);
-    bool rhs_col_major = (rhs_strides[rhs_ndim - 2] == 1);
+    bool lhs_row_major =
+        (lhs_strides[lhs_ndim - 1] == 1 && (M <= 1 || lhs_strides[lhs_ndim - 2] >= K));
+    bool lhs_col_major =
+        (lhs_strides[lhs_ndim - 2] == 1 && (K <= 1 || lhs_strides[lhs_ndim - 1] >= M));
+    bool rhs_row_major =
+        (rhs_strides[rhs_ndim - 1] == 1 && (K <= 1 || rhs_strides[rhs_ndim - 2] >= N));
+    bool rhs_col_major =
+        (rhs_strides[rhs_ndim - 2] == 1 && (N <= 1 || rhs_strides[rhs_ndim - 1] >= K));
 
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
         enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
@@ -245,10 +253,10 @@ void hodu_cpu_dot_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_ptr
     rhs += rhs_offset;
 
     // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_stride_k == 1);
-    bool lhs_col_major = (lhs_stride_m == 1);
-    bool rhs_row_major = (rhs_stride_n == 1);
-    bool rhs_col_major = (rhs_stride_k == 1);
+    bool lhs_row_major = (lhs_stride_k == 1 && (M <= 1 || lhs_stride_m >= K));
+    bool lhs_col_major = (lhs_stride_m == 1 && (K <= 1 || lhs_stride_k >= M));
+    bool rhs_row_major = (rhs_stride_n == 1 && (K <= 1 || rhs_stride_k >= N));
+    bool rhs_col_major = (rhs_stride_k == 1 && (N <= 1 || rhs_stride_n >= K));
 
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
         enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
@@ -302,10 +310,10 @@ void hodu_cpu_dot_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_ptr
     rhs += rhs_offset;
 
     // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_stride_k == 1);
-    bool lhs_col_major = (lhs_stride_m == 1);
-    bool rhs_row_major = (rhs_stride_n == 1);
-    bool rhs_col_major = (rhs_stride_k == 1);
+    bool lhs_row_major = (lhs_stride_k == 1 && (M <= 1 || lhs_stride_m >= K));
+    bool lhs_col_major = (lhs_stride_m == 1 && (K <= 1 || lhs_stride_k >= M));
+    bool rhs_row_major = (rhs_stride_n == 1 && (K <= 1 || rhs_stride_k >= N));
+    bool rhs_col_major = (rhs_stride_k == 1 && (N <= 1 || rhs_stride_n >= K));
 
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
         enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
diff --git a/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c b/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c
index 50bd87e..4129832 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c
@@ -44,10 +44,14 @@ void hodu_cpu_matmul_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_
     // Determine matrix layouts and transpose flags
     // Row-major: innermost (last) stride is 1
     // Col-major: outermost (second-to-last) stride is 1
-    bool lhs_row_major = (lhs_strides[lhs_ndim - 1] == 1);
-    bool lhs_col_major = (lhs_strides[lhs_ndim - 2] == 1);
-    bool rhs_row_major = (rhs_strides[rhs_ndim - 1] == 1);
-    bool rhs_col_major = (rhs_strides[rhs_ndim - 2] == 1);
+    bool lhs_row_major =
+        (lhs_strides[lhs_ndim - 1] == 1 && (M <= 1 || lhs_strides[lhs_ndim - 2] >= K));
+    bool lhs_col_major =
+        (lhs_strides[lhs_ndim - 2] == 1 && (K <= 1 || lhs_strides[lhs_ndim - 1] >= M));
+    bool rhs_row_major =
+        (rhs_strides[rhs_ndim - 1] == 1 && (K <= 1 || rhs_strides[rhs_ndim - 2] >= N));
+    bool rhs_col_major =
+        (rhs_strides[rhs_ndim - 2] == 1 && (N <= 1 || rhs_strides[rhs_ndim - 1] >= K));
 
     // Can use BLAS if either row-major or col-major (transposed)
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
@@ -179,10 +183,14 @@ void hodu_cpu_matmul_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_
     rhs += rhs_offset;
 
     // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_strides[lhs_ndim - 1] == 1);
-    bool lhs_col_major = (lhs_strides[lhs_ndim - 2] == 1);
-    bool rhs_row_major = (rhs_strides[rhs_ndim - 1] == 1);
-    bool rhs_col_major = (rhs_strides[rhs_ndim - 2] == 1);
+    bool lhs_row_major =
+        (lhs_strides[lhs_ndim - 1] == 1 && (M <= 1 || lhs_strides[lhs_ndim - 2] >= K));
+    bool lhs_col_major =
+        (lhs_strides[lhs_ndim - 2] == 1 && (K <= 1 || lhs_strides[lhs_ndim - 1] >= M));
+    bool rhs_row_major =
+        (rhs_strides[rhs_ndim - 1] == 1 && (K <= 1 || rhs_strides[rhs_ndim - 2] >= N));
+    bool rhs_col_major =
+        (rhs_strides[rhs_ndim - 2] == 1 && (N <= 1 || rhs_strides[rhs_ndim - 1] >= K));
 
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
         enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
@@ -304,10 +312,10 @@ void hodu_cpu_dot_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_ptr
     rhs += rhs_offset;
 
     // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_stride_k == 1);
-    bool lhs_col_major = (lhs_stride_m == 1);
-    bool rhs_row_major = (rhs_stride_n == 1);
-    bool rhs_col_major = (rhs_stride_k == 1);
+    bool lhs_row_major = (lhs_stride_k == 1 && (M <= 1 || lhs_stride_m >= K));
+    bool lhs_col_major = (lhs_stride_m == 1 && (K <= 1 || lhs_stride_k >= M));
+    bool rhs_row_major = (rhs_stride_n == 1 && (K <= 1 || rhs_stride_k >= N));
+    bool rhs_col_major = (rhs_stride_k == 1 && (N <= 1 || rhs_stride_n >= K));
 
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
         enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
@@ -361,10 +369,10 @@ void hodu_cpu_dot_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_ptr
     rhs += rhs_offset;
 
     // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_stride_k == 1);
-    bool lhs_col_major = (lhs_stride_m == 1);
-    bool rhs_row_major = (rhs_stride_n == 1);
-    bool rhs_col_major = (rhs_stride_k == 1);
+    bool lhs_row_major = (lhs_stride_k == 1 && (M <= 1 || lhs_stride_m >= K));
+    bool lhs_col_major = (lhs_stride_m == 1 && (K <= 1 || lhs_stride_k >= M));
+    bool rhs_row_major = (rhs_stride_n == 1 && (K <= 1 || rhs_stride_k >= N));
+    bool rhs_col_major = (rhs_stride_k == 1 && (N <= 1 || rhs_stride_n >= K));
 
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
         enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
-- 
2.43.0


From c229b31c974f3abc79e99c472786c7ab7cc3d97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 29/53] fix: BLAS matmul walks batch dimensions in the
 operands' own order

The batch index was decomposed from the last dimension while strides and
sizes were taken from the first, and operands of different ranks indexed
past the start of their shapes.
---
 .../ops_matrix_blas_aarch64_apple_darwin.c    | 38 +++++++++++++------
 .../kernels/ops_matrix_openblas.c             | 38 +++++++++++++------
 2 files changed, 52 insertions(+), 24 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_matrix_blas_aarch64_apple_darwin.c b/crates/hodu_cpu_kernels/kernels/ops_matrix_blas_aarch64_apple_darwin.c
index a3f50ac..ddb84d0 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_matrix_blas_aarch64_apple_darwin.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_matrix_blas_aarch64_apple_darwin.c
@@ -104,12 +104,19 @@ void hodu_cpu_matmul_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_
                     size_t dim_idx = idx % batch_shape[i - 1];
                     idx /= batch_shape[i - 1];
 
-                    // Apply broadcasting: if shape is 1, use index 0
-                    size_t lhs_dim_idx = (lhs_shape[lhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-                    size_t rhs_dim_idx = (rhs_shape[rhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-
-                    lhs_batch_offset += lhs_dim_idx * lhs_strides[lhs_ndim - 2 - i];
-                    rhs_batch_offset += rhs_dim_idx * rhs_strides[rhs_ndim - 2 - i];
+                    // Batch dimensions align at the right; a missing one does not advance
+                    // the operand, and one of size 1 is broadcast (index 0)
+                    size_t from_last = batch_ndim - i;
+                    if (from_last + 2 < lhs_ndim) {
+                        size_t d = lhs_ndim - 3 - from_last;
+                        size_t lhs_dim_idx = (lhs_shape[d] == 1) ? 0 : dim_idx;
+                        lhs_batch_offset += lhs_dim_idx * lhs_strides[d];
+                    }
+                    if (from_last + 2 < rhs_ndim) {
+                        size_t d = rhs_ndim - 3 - from_last;
+                        size_t rhs_dim_idx = (rhs_shape[d] == 1) ? 0 : dim_idx;
+                        rhs_batch_offset += rhs_dim_idx * rhs_strides[d];
+                    }
                 }
 
                 const f32_t *lhs_batch = lhs + lhs_batch_offset;
@@ -209,12 +216,19 @@ void hodu_cpu_matmul_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_
                     size_t dim_idx = idx % batch_shape[i - 1];
                     idx /= batch_shape[i - 1];
 
-                    // Apply broadcasting: if shape is 1, use index 0
-                    size_t lhs_dim_idx = (lhs_shape[lhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-                    size_t rhs_dim_idx = (rhs_shape[rhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-
-                    lhs_batch_offset += lhs_dim_idx * lhs_strides[lhs_ndim - 2 - i];
-                    rhs_batch_offset += rhs_dim_idx * rhs_strides[rhs_ndim - 2 - i];
+                    // Batch dimensions align at the right; a missing one does not advance
+                    // the operand, and one of size 1 is broadcast (index 0)
+                    size_t from_last = batch_ndim - i;
+                    if (from_last + 2 < lhs_ndim) {
+                        size_t d = lhs_ndim - 3 - from_last;
+                        size_t lhs_dim_idx = (lhs_shape[d] == 1) ? 0 : dim_idx;
+                        lhs_batch_offset += lhs_dim_idx * lhs_strides[d];
+                    }
+                    if (from_last + 2 < rhs_ndim) {
+                        size_t d = rhs_ndim - 3 - from_last;
+                        size_t rhs_dim_idx = (rhs_shape[d] == 1) ? 0 : dim_idx;
+                        rhs_batch_offset += rhs_dim_idx * rhs_strides[d];
+                    }
                 }
 
                 const f64_t *lhs_batch = lhs + lhs_batch_offset;
diff --git a/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c b/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c
index 4129832..9f71955 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c
@@ -130,12 +130,19 @@ void hodu_cpu_matmul_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_
                     size_t dim_idx = idx % batch_shape[i - 1];
                     idx /= batch_shape[i - 1];
 
-                    // Apply broadcasting: if shape is 1, use index 0
-                    size_t lhs_dim_idx = (lhs_shape[lhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-                    size_t rhs_dim_idx = (rhs_shape[rhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-
-                    lhs_batch_offset += lhs_dim_idx * lhs_strides[lhs_ndim - 2 - i];
-                    rhs_batch_offset += rhs_dim_idx * rhs_strides[rhs_ndim - 2 - i];
+                    // Batch dimensions align at the right; a missing one does not advance
+                    // the operand, and one of size 1 is broadcast (index 0)
+                    size_t from_last = batch_ndim - i;
+                    if (from_last + 2 < lhs_ndim) {
+                        size_t d = lhs_ndim - 3 - from_last;
+                        size_t lhs_dim_idx = (lhs_shape[d] == 1) ? 0 : dim_idx;
+                        lhs_batch_offset += lhs_dim_idx * lhs_strides[d];
+                    }
+                    if (from_last + 2 < rhs_ndim) {
+                        size_t d = rhs_ndim - 3 - from_last;
+                        size_t rhs_dim_idx = (rhs_shape[d] == 1) ? 0 : dim_idx;
+                        rhs_batch_offset += rhs_dim_idx * rhs_strides[d];
+                    }
                 }
 
                 const f32_t *lhs_batch = lhs + lhs_batch_offset;
@@ -264,12 +271,19 @@ void hodu_cpu_matmul_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_
                     size_t dim_idx = idx % batch_shape[i - 1];
                     idx /= batch_shape[i - 1];
 
-                    // Apply broadcasting: if shape is 1, use index 0
-                    size_t lhs_dim_idx = (lhs_shape[lhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-                    size_t rhs_dim_idx = (rhs_shape[rhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-
-                    lhs_batch_offset += lhs_dim_idx * lhs_strides[lhs_ndim - 2 - i];
-                    rhs_batch_offset += rhs_dim_idx * rhs_strides[rhs_ndim - 2 - i];
+                    // Batch dimensions align at the right; a missing one does not advance
+                    // the operand, and one of size 1 is broadcast (index 0)
+                    size_t from_last = batch_ndim - i;
+                    if (from_last + 2 < lhs_ndim) {
+                        size_t d = lhs_ndim - 3 - from_last;
+                        size_t lhs_dim_idx = (lhs_shape[d] == 1) ? 0 : dim_idx;
+                        lhs_batch_offset += lhs_dim_idx * lhs_strides[d];
+                    }
+                    if (from_last + 2 < rhs_ndim) {
+                        size_t d = rhs_ndim - 3 - from_last;
+                        size_t rhs_dim_idx = (rhs_shape[d] == 1) ? 0 : dim_idx;
+                        rhs_batch_offset += rhs_dim_idx * rhs_strides[d];
+                    }
                 }
 
                 const f64_t *lhs_batch = lhs + lhs_batch_offset;
-- 
2.43.0


From 1a2a650d57b50e150b5c6e7ec675b04d9455e9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 30/53] fix: convolution weight gradients read a strided input
 as laid out

---
 crates/hodu_core/src/be_cpu/storage/ops_conv.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_conv.rs b/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
index 04fe727..45698f5 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
@@ -329,6 +329,10 @@ pub fn call_ops_conv_grad_weight(
         },
     };
 
+    // The kernels walk the input in row-major order, so a view is made contiguous first
+    let input_storage = &input_storage.contiguous(input_layout)?;
+    let input_layout = &Layout::from_shape(input_layout.shape());
+
     // Generate metadata using centralized function
     let metadata = crate::op_metadatas::conv_grad_weight_metadata(
         input_layout,
-- 
2.43.0


From 062180104ae29c49f639a6c087bb157230479560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:06 +0000
Subject: [PATCH 31/53] fix: windowed mean and any/all compute on the value of
 small floats, not on their bits

---
 crates/hodu_cpu_kernels/kernels/ops_reduce.c  | 72 ++++++++++---------
 .../hodu_cpu_kernels/kernels/ops_windowing.c  | 28 ++++----
 2 files changed, 54 insertions(+), 46 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_reduce.c b/crates/hodu_cpu_kernels/kernels/ops_reduce.c
index 1354989..3a649a5 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_reduce.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_reduce.c
@@ -2612,12 +2612,17 @@ REDUCE_ARGMIN_OP(uint64_t, u64)
 // Metadata layout: Same as generic reduction operations
 
 #define IS_NONZERO(val) ((val) != 0)
+#define F8E4M3_NONZERO(val) (f8e4m3_to_float(val) != 0.0f)
+#define F8E5M2_NONZERO(val) (f8e5m2_to_float(val) != 0.0f)
+#define BF16_NONZERO(val) (bf16_to_float(val) != 0.0f)
+#define F16_NONZERO(val) (f16_to_float(val) != 0.0f)
 
 /// Macro to implement any reduction (logical OR, returns bool)
 ///
 /// @param IN_TYPE Input C type
 /// @param TYPE_SUFFIX Suffix for function naming
-#define REDUCE_ANY_OP(IN_TYPE, TYPE_SUFFIX)                                                        \
+/// @param IS_NONZERO Macro testing an element
+#define REDUCE_ANY_OP(IN_TYPE, TYPE_SUFFIX, IS_NONZERO)                                            \
     void hodu_cpu_any_##TYPE_SUFFIX(const void *input_ptr, void *output_ptr,                       \
                                     const size_t *metadata) {                                      \
         const IN_TYPE *input = (const IN_TYPE *)input_ptr;                                         \
@@ -2712,7 +2717,8 @@ REDUCE_ARGMIN_OP(uint64_t, u64)
 ///
 /// @param IN_TYPE Input C type
 /// @param TYPE_SUFFIX Suffix for function naming
-#define REDUCE_ALL_OP(IN_TYPE, TYPE_SUFFIX)                                                        \
+/// @param IS_NONZERO Macro testing an element
+#define REDUCE_ALL_OP(IN_TYPE, TYPE_SUFFIX, IS_NONZERO)                                            \
     void hodu_cpu_all_##TYPE_SUFFIX(const void *input_ptr, void *output_ptr,                       \
                                     const size_t *metadata) {                                      \
         const IN_TYPE *input = (const IN_TYPE *)input_ptr;                                         \
@@ -2794,34 +2800,34 @@ REDUCE_ARGMIN_OP(uint64_t, u64)
         }                                                                                          \
     }
 
-REDUCE_ANY_OP(bool, bool)
-REDUCE_ANY_OP(f8e4m3_t, f8e4m3)
-REDUCE_ANY_OP(f8e5m2_t, f8e5m2)
-REDUCE_ANY_OP(bf16_t, bf16)
-REDUCE_ANY_OP(f16_t, f16)
-REDUCE_ANY_OP(f32_t, f32)
-REDUCE_ANY_OP(f64_t, f64)
-REDUCE_ANY_OP(int8_t, i8)
-REDUCE_ANY_OP(int16_t, i16)
-REDUCE_ANY_OP(int32_t, i32)
-REDUCE_ANY_OP(int64_t, i64)
-REDUCE_ANY_OP(uint8_t, u8)
-REDUCE_ANY_OP(uint16_t, u16)
-REDUCE_ANY_OP(uint32_t, u32)
-REDUCE_ANY_OP(uint64_t, u64)
-
-REDUCE_ALL_OP(bool, bool)
-REDUCE_ALL_OP(f8e4m3_t, f8e4m3)
-REDUCE_ALL_OP(f8e5m2_t, f8e5m2)
-REDUCE_ALL_OP(bf16_t, bf16)
-REDUCE_ALL_OP(f16_t, f16)
-REDUCE_ALL_OP(f32_t, f32)
-REDUCE_ALL_OP(f64_t, f64)
-REDUCE_ALL_OP(int8_t, i8)
-REDUCE_ALL_OP(int16_t, i16)
-REDUCE_ALL_OP(int32_t, i32)
-REDUCE_ALL_OP(int64_t, i64)
-REDUCE_ALL_OP(uint8_t, u8)
-REDUCE_ALL_OP(uint16_t, u16)
-REDUCE_ALL_OP(uint32_t, u32)
-REDUCE_ALL_OP(uint64_t, u64)
+REDUCE_ANY_OP(bool, bool, IS_NONZERO)
+REDUCE_ANY_OP(f8e4m3_t, f8e4m3, F8E4M3_NONZERO)
+REDUCE_ANY_OP(f8e5m2_t, f8e5m2, F8E5M2_NONZERO)
+REDUCE_ANY_OP(bf16_t, bf16, BF16_NONZERO)
+REDUCE_ANY_OP(f16_t, f16, F16_NONZERO)
+REDUCE_ANY_OP(f32_t, f32, IS_NONZERO)
+REDUCE_ANY_OP(f64_t, f64, IS_NONZERO)
+REDUCE_ANY_OP(int8_t, i8, IS_NONZERO)
+REDUCE_ANY_OP(int16_t, i16, IS_NONZERO)
+REDUCE_ANY_OP(int32_t, i32, IS_NONZERO)
+REDUCE_ANY_OP(int64_t, i64, IS_NONZERO)
+REDUCE_ANY_OP(uint8_t, u8, IS_NONZERO)
+REDUCE_ANY_OP(uint16_t, u16, IS_NONZERO)
+REDUCE_ANY_OP(uint32_t, u32, IS_NONZERO)
+REDUCE_ANY_OP(uint64_t, u64, IS_NONZERO)
+
+REDUCE_ALL_OP(bool, bool, IS_NONZERO)
+REDUCE_ALL_OP(f8e4m3_t, f8e4m3, F8E4M3_NONZERO)
+REDUCE_ALL_OP(f8e5m2_t, f8e5m2, F8E5M2_NONZERO)
+REDUCE_ALL_OP(bf16_t, bf16, BF16_NONZERO)
+REDUCE_ALL_OP(f16_t, f16, F16_NONZERO)
+REDUCE_ALL_OP(f32_t, f32, IS_NONZERO)
+REDUCE_ALL_OP(f64_t, f64, IS_NONZERO)
+REDUCE_ALL_OP(int8_t, i8, IS_NONZERO)
+REDUCE_ALL_OP(int16_t, i16, IS_NONZERO)
+REDUCE_ALL_OP(int32_t, i32, IS_NONZERO)
+REDUCE_ALL_OP(int64_t, i64, IS_NONZERO)
+REDUCE_ALL_OP(uint8_t, u8, IS_NONZERO)
+REDUCE_ALL_OP(uint16_t, u16, IS_NONZERO)
+REDUCE_ALL_OP(uint32_t, u32, IS_NONZERO)
+REDUCE_ALL_OP(uint64_t, u64, IS_NONZERO)
diff --git a/crates/hodu_cpu_kernels/kernels/ops_windowing.c b/crates/hodu_cpu_kernels/kernels/ops_windowing.c
index d0083ac..f5414db 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_windowing.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_windowing.c
@@ -125,15 +125,17 @@
  * Computes the average of values in each window. Padding areas are treated as 0.
  * Only available for floating-point types.
  *
- * @param IN_TYPE C type of input elements (float type)
- * @param OUT_TYPE C type of output elements (float type)
+ * @param IN_TYPE C type of input and output elements (float type)
+ * @param ACC_TYPE C type the window is summed in
  * @param TYPE_SUFFIX Suffix for function name
+ * @param TO_ACC Conversion of an element to ACC_TYPE
+ * @param FROM_ACC Conversion of ACC_TYPE to an element
  */
-#define REDUCE_WINDOW_MEAN_OP(IN_TYPE, OUT_TYPE, TYPE_SUFFIX)                                      \
+#define REDUCE_WINDOW_MEAN_OP(IN_TYPE, ACC_TYPE, TYPE_SUFFIX, TO_ACC, FROM_ACC)                    \
     void hodu_cpu_reduce_window_mean_##TYPE_SUFFIX(const void *input_ptr, void *output_ptr,        \
                                                    const size_t *metadata) {                       \
         const IN_TYPE *input = (const IN_TYPE *)input_ptr;                                         \
-        OUT_TYPE *output = (OUT_TYPE *)output_ptr;                                                 \
+        IN_TYPE *output = (IN_TYPE *)output_ptr;                                                   \
                                                                                                    \
         const size_t num_els = metadata[0];                                                        \
         const size_t num_dims = metadata[1];                                                       \
@@ -154,7 +156,7 @@
                 tmp /= output_shape[i];                                                            \
             }                                                                                      \
                                                                                                    \
-            OUT_TYPE sum = 0;                                                                      \
+            ACC_TYPE sum = 0;                                                                      \
             size_t window_size = 1;                                                                \
             for (size_t i = 0; i < num_dims; i++) {                                                \
                 window_size *= window_shape[i];                                                    \
@@ -190,11 +192,11 @@
                     for (size_t i = 0; i < num_dims; i++) {                                        \
                         idx += input_coords[i] * input_strides[i];                                 \
                     }                                                                              \
-                    sum += (OUT_TYPE)input[idx];                                                   \
+                    sum += TO_ACC(input[idx]);                                                     \
                 }                                                                                  \
             }                                                                                      \
                                                                                                    \
-            output[out_idx] = sum / (OUT_TYPE)window_size;                                         \
+            output[out_idx] = FROM_ACC(sum / (ACC_TYPE)window_size);                               \
         }                                                                                          \
     }
 
@@ -213,12 +215,12 @@ REDUCE_WINDOW_OP(uint16_t, uint16_t, max_u16, 0u, acc = MAX(acc, val))
 REDUCE_WINDOW_OP(uint32_t, uint32_t, max_u32, 0u, acc = MAX(acc, val))
 REDUCE_WINDOW_OP(uint64_t, uint64_t, max_u64, 0u, acc = MAX(acc, val))
 
-REDUCE_WINDOW_MEAN_OP(f8e4m3_t, f8e4m3_t, f8e4m3)
-REDUCE_WINDOW_MEAN_OP(f8e5m2_t, f8e5m2_t, f8e5m2)
-REDUCE_WINDOW_MEAN_OP(bf16_t, bf16_t, bf16)
-REDUCE_WINDOW_MEAN_OP(f16_t, f16_t, f16)
-REDUCE_WINDOW_MEAN_OP(float, float, f32)
-REDUCE_WINDOW_MEAN_OP(double, double, f64)
+REDUCE_WINDOW_MEAN_OP(f8e4m3_t, float, f8e4m3, f8e4m3_to_float, float_to_f8e4m3)
+REDUCE_WINDOW_MEAN_OP(f8e5m2_t, float, f8e5m2, f8e5m2_to_float, float_to_f8e5m2)
+REDUCE_WINDOW_MEAN_OP(bf16_t, float, bf16, bf16_to_float, float_to_bf16)
+REDUCE_WINDOW_MEAN_OP(f16_t, float, f16, f16_to_float, float_to_f16)
+REDUCE_WINDOW_MEAN_OP(float, float, f32, (float), (float))
+REDUCE_WINDOW_MEAN_OP(double, double, f64, (double), (double))
 
 REDUCE_WINDOW_OP(f8e4m3_t, f8e4m3_t, sum_f8e4m3, F8E4M3_ZERO, acc = f8e4m3_add(acc, val))
 REDUCE_WINDOW_OP(f8e5m2_t, f8e5m2_t, sum_f8e5m2, F8E5M2_ZERO, acc = f8e5m2_add(acc, val))
-- 
2.43.0


From 43669034d3551cfa793b5e07fb9c9aa8a70e75fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:54 +0000
Subject: [PATCH 32/53] fix: topk orders 32/64-bit integers and f64 without
 rounding them to f32

---
 crates/hodu_cpu_kernels/kernels/ops_sort.c | 41 +++++++++++++++++-----
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_sort.c b/crates/hodu_cpu_kernels/kernels/ops_sort.c
index 5cda2db..0861e31 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_sort.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_sort.c
@@ -1,17 +1,42 @@
 #include "ops_sort.h"
 #include "types.h"
+#include <stdint.h>
 #include <stdlib.h>
+#include <string.h>
 
-// Helper struct for sorting with indices
+// Helper struct for sorting with indices; keys order like the elements they stand for
 typedef struct {
-    float value;
+    uint64_t value;
     i32_t index;
 } ValueIndex;
 
+static inline uint64_t key_unsigned(uint64_t x) { return x; }
+
+static inline uint64_t key_signed(int64_t x) { return (uint64_t)x ^ (UINT64_C(1) << 63); }
+
+static inline uint64_t key_float(double x) {
+    uint64_t bits;
+    x += 0.0; // -0.0 equals 0.0
+    memcpy(&bits, &x, sizeof(bits));
+    return (bits >> 63) ? ~bits : bits | (UINT64_C(1) << 63);
+}
+
+// Key of a number of any type, without rounding it
+#define SORT_KEY(x)                                                                                \
+    _Generic((x),                                                                                  \
+        float: key_float,                                                                          \
+        double: key_float,                                                                         \
+        signed char: key_signed,                                                                   \
+        short: key_signed,                                                                         \
+        int: key_signed,                                                                           \
+        long: key_signed,                                                                          \
+        long long: key_signed,                                                                     \
+        default: key_unsigned)(x)
+
 // Comparison functions for qsort
 static int cmp_largest(const void *a, const void *b) {
-    float va = ((ValueIndex *)a)->value;
-    float vb = ((ValueIndex *)b)->value;
+    uint64_t va = ((ValueIndex *)a)->value;
+    uint64_t vb = ((ValueIndex *)b)->value;
     if (va > vb)
         return -1;
     if (va < vb)
@@ -20,8 +45,8 @@ static int cmp_largest(const void *a, const void *b) {
 }
 
 static int cmp_smallest(const void *a, const void *b) {
-    float va = ((ValueIndex *)a)->value;
-    float vb = ((ValueIndex *)b)->value;
+    uint64_t va = ((ValueIndex *)a)->value;
+    uint64_t vb = ((ValueIndex *)b)->value;
     if (va < vb)
         return -1;
     if (va > vb)
@@ -31,7 +56,7 @@ static int cmp_smallest(const void *a, const void *b) {
 
 // Partition for quickselect
 static size_t partition(ValueIndex *arr, size_t left, size_t right, int largest) {
-    float pivot = arr[right].value;
+    uint64_t pivot = arr[right].value;
     size_t i = left;
     for (size_t j = left; j < right; j++) {
         int should_swap = largest ? (arr[j].value > pivot) : (arr[j].value < pivot);
@@ -117,7 +142,7 @@ static void topk_select(ValueIndex *arr, size_t n, size_t k, int largest, int so
                                                                                                    \
             /* Fill temporary buffer with values and indices */                                    \
             for (size_t i = 0; i < last_dim_size; i++) {                                           \
-                temp[i].value = TO_FLOAT(row[i]);                                                  \
+                temp[i].value = SORT_KEY(TO_FLOAT(row[i]));                                        \
                 temp[i].index = (i32_t)i;                                                          \
             }                                                                                      \
                                                                                                    \
-- 
2.43.0


From 374bd251c5cd9f5c7f113c6156166bda858dad07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:54 +0000
Subject: [PATCH 33/53] fix: resize of f64 interpolates in f64

---
 crates/hodu_cpu_kernels/kernels/ops_resize.c | 233 ++++++++++---------
 1 file changed, 119 insertions(+), 114 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_resize.c b/crates/hodu_cpu_kernels/kernels/ops_resize.c
index 1267244..d3238a3 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_resize.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_resize.c
@@ -14,66 +14,71 @@
 // 3=pytorch_half_pixel) [5+3*num_dims]: nearest_mode (0=floor, 1=ceil, 2=round_prefer_floor,
 // 3=round_prefer_ceil)
 
-static inline float transform_coord(float out_coord, size_t in_size, size_t out_size,
-                                    int coord_transform) {
-    if (in_size == out_size) {
-        return out_coord;
-    }
-
-    float scale = (float)in_size / (float)out_size;
-
-    switch (coord_transform) {
-    case RESIZE_COORD_HALF_PIXEL:
-        return (out_coord + 0.5f) * scale - 0.5f;
-    case RESIZE_COORD_ASYMMETRIC:
-        return out_coord * scale;
-    case RESIZE_COORD_ALIGN_CORNERS:
-        if (out_size == 1)
-            return 0.0f;
-        return out_coord * (float)(in_size - 1) / (float)(out_size - 1);
-    case RESIZE_COORD_PYTORCH_HALF_PIXEL:
-        if (out_size == 1)
-            return 0.0f;
-        return (out_coord + 0.5f) * scale - 0.5f;
-    default:
-        return out_coord * scale;
-    }
-}
-
-static inline size_t round_nearest(float coord, size_t max_idx, int nearest_mode) {
-    float rounded;
-    switch (nearest_mode) {
-    case RESIZE_NEAREST_FLOOR:
-        rounded = floorf(coord);
-        break;
-    case RESIZE_NEAREST_CEIL:
-        rounded = ceilf(coord);
-        break;
-    case RESIZE_NEAREST_ROUND_PREFER_FLOOR:
-        rounded = (coord == floorf(coord) + 0.5f) ? floorf(coord) : roundf(coord);
-        break;
-    case RESIZE_NEAREST_ROUND_PREFER_CEIL:
-        rounded = roundf(coord);
-        break;
-    default:
-        rounded = floorf(coord);
+// Coordinates and interpolation in the precision of the elements
+#define IMPL_RESIZE_HELPERS(REAL, SFX, FLOOR, CEIL, ROUND)                                         \
+    static inline REAL transform_coord_##SFX(REAL out_coord, size_t in_size, size_t out_size,      \
+                                        int coord_transform) {                                     \
+        if (in_size == out_size) {                                                                 \
+            return out_coord;                                                                      \
+        }                                                                                          \
+                                                                                                   \
+        REAL scale = (REAL)in_size / (REAL)out_size;                                               \
+                                                                                                   \
+        switch (coord_transform) {                                                                 \
+        case RESIZE_COORD_HALF_PIXEL:                                                              \
+            return (out_coord + 0.5f) * scale - 0.5f;                                              \
+        case RESIZE_COORD_ASYMMETRIC:                                                              \
+            return out_coord * scale;                                                              \
+        case RESIZE_COORD_ALIGN_CORNERS:                                                           \
+            if (out_size == 1)                                                                     \
+                return 0.0f;                                                                       \
+            return out_coord * (REAL)(in_size - 1) / (REAL)(out_size - 1);                         \
+        case RESIZE_COORD_PYTORCH_HALF_PIXEL:                                                      \
+            if (out_size == 1)                                                                     \
+                return 0.0f;                                                                       \
+            return (out_coord + 0.5f) * scale - 0.5f;                                              \
+        default:                                                                                   \
+            return out_coord * scale;                                                              \
+        }                                                                                          \
+    }                                                                                              \
+                                                                                                   \
+    static inline size_t round_nearest_##SFX(REAL coord, size_t max_idx, int nearest_mode) {       \
+        REAL rounded;                                                                              \
+        switch (nearest_mode) {                                                                    \
+        case RESIZE_NEAREST_FLOOR:                                                                 \
+            rounded = FLOOR(coord);                                                                \
+            break;                                                                                 \
+        case RESIZE_NEAREST_CEIL:                                                                  \
+            rounded = CEIL(coord);                                                                 \
+            break;                                                                                 \
+        case RESIZE_NEAREST_ROUND_PREFER_FLOOR:                                                    \
+            rounded = (coord == FLOOR(coord) + 0.5f) ? FLOOR(coord) : ROUND(coord);                \
+            break;                                                                                 \
+        case RESIZE_NEAREST_ROUND_PREFER_CEIL:                                                     \
+            rounded = ROUND(coord);                                                                \
+            break;                                                                                 \
+        default:                                                                                   \
+            rounded = FLOOR(coord);                                                                \
+        }                                                                                          \
+                                                                                                   \
+        if (rounded < 0)                                                                           \
+            return 0;                                                                              \
+        if (rounded > (REAL)max_idx)                                                               \
+            return max_idx;                                                                        \
+        return (size_t)rounded;                                                                    \
+    }                                                                                              \
+                                                                                                   \
+    static inline REAL cubic_interp_##SFX(REAL p0, REAL p1, REAL p2, REAL p3, REAL t) {            \
+        /* Cubic interpolation using Catmull-Rom spline */                                         \
+        REAL a = -0.5f * p0 + 1.5f * p1 - 1.5f * p2 + 0.5f * p3;                                   \
+        REAL b = p0 - 2.5f * p1 + 2.0f * p2 - 0.5f * p3;                                           \
+        REAL c = -0.5f * p0 + 0.5f * p2;                                                           \
+        REAL d = p1;                                                                               \
+        return a * t * t * t + b * t * t + c * t + d;                                              \
     }
 
-    if (rounded < 0)
-        return 0;
-    if (rounded > (float)max_idx)
-        return max_idx;
-    return (size_t)rounded;
-}
-
-static inline float cubic_interp(float p0, float p1, float p2, float p3, float t) {
-    // Cubic interpolation using Catmull-Rom spline
-    float a = -0.5f * p0 + 1.5f * p1 - 1.5f * p2 + 0.5f * p3;
-    float b = p0 - 2.5f * p1 + 2.0f * p2 - 0.5f * p3;
-    float c = -0.5f * p0 + 0.5f * p2;
-    float d = p1;
-    return a * t * t * t + b * t * t + c * t + d;
-}
+IMPL_RESIZE_HELPERS(float, f32, floorf, ceilf, roundf)
+IMPL_RESIZE_HELPERS(double, f64, floor, ceil, round)
 
 static inline size_t clamp_idx(int idx, size_t max_idx) {
     if (idx < 0)
@@ -83,7 +88,7 @@ static inline size_t clamp_idx(int idx, size_t max_idx) {
     return (size_t)idx;
 }
 
-#define IMPL_RESIZE(TYPE, TYPE_SUFFIX)                                                             \
+#define IMPL_RESIZE(TYPE, TYPE_SUFFIX, FLOOR)                                                      \
     void hodu_cpu_resize_##TYPE_SUFFIX(const void *input, void *output, const size_t *metadata) {  \
         const size_t output_size = metadata[0];                                                    \
         const size_t num_dims = metadata[1];                                                       \
@@ -125,26 +130,26 @@ static inline size_t clamp_idx(int idx, size_t max_idx) {
                 size_t in_idx = base_in_idx;                                                       \
                 for (size_t s = 0; s < num_spatial; s++) {                                         \
                     size_t d = spatial_start + s;                                                  \
-                    float coord = transform_coord((float)out_coords[d], in_shape[d], out_shape[d], \
+                    TYPE coord = transform_coord_##TYPE_SUFFIX((TYPE)out_coords[d], in_shape[d], out_shape[d],\
                                                   coord_transform);                                \
-                    size_t src_idx = round_nearest(coord, in_shape[d] - 1, nearest_mode);          \
+                    size_t src_idx = round_nearest_##TYPE_SUFFIX(coord, in_shape[d] - 1, nearest_mode);\
                     in_idx += src_idx * in_strides[d];                                             \
                 }                                                                                  \
                 out[out_idx] = in[in_idx];                                                         \
             } else if (mode == RESIZE_MODE_LINEAR && num_spatial == 2) {                           \
                 /* Bilinear interpolation for 2D */                                                \
-                float y_coord = transform_coord((float)out_coords[2], in_shape[2], out_shape[2],   \
+                TYPE y_coord = transform_coord_##TYPE_SUFFIX((TYPE)out_coords[2], in_shape[2], out_shape[2],\
                                                 coord_transform);                                  \
-                float x_coord = transform_coord((float)out_coords[3], in_shape[3], out_shape[3],   \
+                TYPE x_coord = transform_coord_##TYPE_SUFFIX((TYPE)out_coords[3], in_shape[3], out_shape[3],\
                                                 coord_transform);                                  \
                                                                                                    \
-                int y0 = (int)floorf(y_coord);                                                     \
-                int x0 = (int)floorf(x_coord);                                                     \
+                int y0 = (int)FLOOR(y_coord);                                                      \
+                int x0 = (int)FLOOR(x_coord);                                                      \
                 int y1 = y0 + 1;                                                                   \
                 int x1 = x0 + 1;                                                                   \
                                                                                                    \
-                float fy = y_coord - (float)y0;                                                    \
-                float fx = x_coord - (float)x0;                                                    \
+                TYPE fy = y_coord - (TYPE)y0;                                                      \
+                TYPE fx = x_coord - (TYPE)x0;                                                      \
                                                                                                    \
                 size_t y0c = clamp_idx(y0, in_shape[2] - 1);                                       \
                 size_t y1c = clamp_idx(y1, in_shape[2] - 1);                                       \
@@ -156,26 +161,26 @@ static inline size_t clamp_idx(int idx, size_t max_idx) {
                 TYPE v10 = in[base_in_idx + y1c * in_strides[2] + x0c * in_strides[3]];            \
                 TYPE v11 = in[base_in_idx + y1c * in_strides[2] + x1c * in_strides[3]];            \
                                                                                                    \
-                TYPE result = (TYPE)((1.0f - fy) * ((1.0f - fx) * (float)v00 + fx * (float)v01) +  \
-                                     fy * ((1.0f - fx) * (float)v10 + fx * (float)v11));           \
+                TYPE result = (TYPE)((1.0f - fy) * ((1.0f - fx) * (TYPE)v00 + fx * (TYPE)v01) +    \
+                                     fy * ((1.0f - fx) * (TYPE)v10 + fx * (TYPE)v11));             \
                 out[out_idx] = result;                                                             \
             } else if (mode == RESIZE_MODE_LINEAR && num_spatial == 3) {                           \
                 /* Trilinear interpolation for 3D */                                               \
-                float d_coord = transform_coord((float)out_coords[2], in_shape[2], out_shape[2],   \
+                TYPE d_coord = transform_coord_##TYPE_SUFFIX((TYPE)out_coords[2], in_shape[2], out_shape[2],\
                                                 coord_transform);                                  \
-                float h_coord = transform_coord((float)out_coords[3], in_shape[3], out_shape[3],   \
+                TYPE h_coord = transform_coord_##TYPE_SUFFIX((TYPE)out_coords[3], in_shape[3], out_shape[3],\
                                                 coord_transform);                                  \
-                float w_coord = transform_coord((float)out_coords[4], in_shape[4], out_shape[4],   \
+                TYPE w_coord = transform_coord_##TYPE_SUFFIX((TYPE)out_coords[4], in_shape[4], out_shape[4],\
                                                 coord_transform);                                  \
                                                                                                    \
-                int d0 = (int)floorf(d_coord);                                                     \
-                int h0 = (int)floorf(h_coord);                                                     \
-                int w0 = (int)floorf(w_coord);                                                     \
+                int d0 = (int)FLOOR(d_coord);                                                      \
+                int h0 = (int)FLOOR(h_coord);                                                      \
+                int w0 = (int)FLOOR(w_coord);                                                      \
                 int d1 = d0 + 1, h1 = h0 + 1, w1 = w0 + 1;                                         \
                                                                                                    \
-                float fd = d_coord - (float)d0;                                                    \
-                float fh = h_coord - (float)h0;                                                    \
-                float fw = w_coord - (float)w0;                                                    \
+                TYPE fd = d_coord - (TYPE)d0;                                                      \
+                TYPE fh = h_coord - (TYPE)h0;                                                      \
+                TYPE fw = w_coord - (TYPE)w0;                                                      \
                                                                                                    \
                 size_t d0c = clamp_idx(d0, in_shape[2] - 1);                                       \
                 size_t d1c = clamp_idx(d1, in_shape[2] - 1);                                       \
@@ -201,47 +206,47 @@ static inline size_t clamp_idx(int idx, size_t max_idx) {
                 TYPE v111 = in[base_in_idx + d1c * in_strides[2] + h1c * in_strides[3] +           \
                                w1c * in_strides[4]];                                               \
                                                                                                    \
-                float c00 = (1.0f - fw) * (float)v000 + fw * (float)v001;                          \
-                float c01 = (1.0f - fw) * (float)v010 + fw * (float)v011;                          \
-                float c10 = (1.0f - fw) * (float)v100 + fw * (float)v101;                          \
-                float c11 = (1.0f - fw) * (float)v110 + fw * (float)v111;                          \
-                float c0 = (1.0f - fh) * c00 + fh * c01;                                           \
-                float c1 = (1.0f - fh) * c10 + fh * c11;                                           \
+                TYPE c00 = (1.0f - fw) * (TYPE)v000 + fw * (TYPE)v001;                             \
+                TYPE c01 = (1.0f - fw) * (TYPE)v010 + fw * (TYPE)v011;                             \
+                TYPE c10 = (1.0f - fw) * (TYPE)v100 + fw * (TYPE)v101;                             \
+                TYPE c11 = (1.0f - fw) * (TYPE)v110 + fw * (TYPE)v111;                             \
+                TYPE c0 = (1.0f - fh) * c00 + fh * c01;                                            \
+                TYPE c1 = (1.0f - fh) * c10 + fh * c11;                                            \
                 out[out_idx] = (TYPE)((1.0f - fd) * c0 + fd * c1);                                 \
             } else if (mode == RESIZE_MODE_CUBIC && num_spatial == 2) {                            \
                 /* Bicubic interpolation for 2D */                                                 \
-                float y_coord = transform_coord((float)out_coords[2], in_shape[2], out_shape[2],   \
+                TYPE y_coord = transform_coord_##TYPE_SUFFIX((TYPE)out_coords[2], in_shape[2], out_shape[2],\
                                                 coord_transform);                                  \
-                float x_coord = transform_coord((float)out_coords[3], in_shape[3], out_shape[3],   \
+                TYPE x_coord = transform_coord_##TYPE_SUFFIX((TYPE)out_coords[3], in_shape[3], out_shape[3],\
                                                 coord_transform);                                  \
                                                                                                    \
-                int y0 = (int)floorf(y_coord);                                                     \
-                int x0 = (int)floorf(x_coord);                                                     \
-                float fy = y_coord - (float)y0;                                                    \
-                float fx = x_coord - (float)x0;                                                    \
+                int y0 = (int)FLOOR(y_coord);                                                      \
+                int x0 = (int)FLOOR(x_coord);                                                      \
+                TYPE fy = y_coord - (TYPE)y0;                                                      \
+                TYPE fx = x_coord - (TYPE)x0;                                                      \
                                                                                                    \
-                float cols[4];                                                                     \
+                TYPE cols[4];                                                                      \
                 for (int j = -1; j <= 2; j++) {                                                    \
                     size_t yc = clamp_idx(y0 + j, in_shape[2] - 1);                                \
-                    float p0 = (float)in[base_in_idx + yc * in_strides[2] +                        \
+                    TYPE p0 = (TYPE)in[base_in_idx + yc * in_strides[2] +                          \
                                          clamp_idx(x0 - 1, in_shape[3] - 1) * in_strides[3]];      \
-                    float p1 = (float)in[base_in_idx + yc * in_strides[2] +                        \
+                    TYPE p1 = (TYPE)in[base_in_idx + yc * in_strides[2] +                          \
                                          clamp_idx(x0, in_shape[3] - 1) * in_strides[3]];          \
-                    float p2 = (float)in[base_in_idx + yc * in_strides[2] +                        \
+                    TYPE p2 = (TYPE)in[base_in_idx + yc * in_strides[2] +                          \
                                          clamp_idx(x0 + 1, in_shape[3] - 1) * in_strides[3]];      \
-                    float p3 = (float)in[base_in_idx + yc * in_strides[2] +                        \
+                    TYPE p3 = (TYPE)in[base_in_idx + yc * in_strides[2] +                          \
                                          clamp_idx(x0 + 2, in_shape[3] - 1) * in_strides[3]];      \
-                    cols[j + 1] = cubic_interp(p0, p1, p2, p3, fx);                                \
+                    cols[j + 1] = cubic_interp_##TYPE_SUFFIX(p0, p1, p2, p3, fx);                  \
                 }                                                                                  \
-                out[out_idx] = (TYPE)cubic_interp(cols[0], cols[1], cols[2], cols[3], fy);         \
+                out[out_idx] = (TYPE)cubic_interp_##TYPE_SUFFIX(cols[0], cols[1], cols[2], cols[3], fy);\
             } else {                                                                               \
                 /* Fallback: nearest neighbor */                                                   \
                 size_t in_idx = base_in_idx;                                                       \
                 for (size_t s = 0; s < num_spatial; s++) {                                         \
                     size_t d = spatial_start + s;                                                  \
-                    float coord = transform_coord((float)out_coords[d], in_shape[d], out_shape[d], \
+                    TYPE coord = transform_coord_##TYPE_SUFFIX((TYPE)out_coords[d], in_shape[d], out_shape[d],\
                                                   coord_transform);                                \
-                    size_t src_idx = round_nearest(coord, in_shape[d] - 1, nearest_mode);          \
+                    size_t src_idx = round_nearest_##TYPE_SUFFIX(coord, in_shape[d] - 1, nearest_mode);\
                     in_idx += src_idx * in_strides[d];                                             \
                 }                                                                                  \
                 out[out_idx] = in[in_idx];                                                         \
@@ -249,8 +254,8 @@ static inline size_t clamp_idx(int idx, size_t max_idx) {
         }                                                                                          \
     }
 
-IMPL_RESIZE(f32_t, f32)
-IMPL_RESIZE(f64_t, f64)
+IMPL_RESIZE(f32_t, f32, floorf)
+IMPL_RESIZE(f64_t, f64, floor)
 
 #define IMPL_RESIZE_CONVERT(TYPE, TYPE_SUFFIX, TO_FLOAT, FROM_FLOAT)                               \
     void hodu_cpu_resize_##TYPE_SUFFIX(const void *input, void *output, const size_t *metadata) {  \
@@ -290,16 +295,16 @@ IMPL_RESIZE(f64_t, f64)
                 size_t in_idx = base_in_idx;                                                       \
                 for (size_t s = 0; s < num_spatial; s++) {                                         \
                     size_t d = spatial_start + s;                                                  \
-                    float coord = transform_coord((float)out_coords[d], in_shape[d], out_shape[d], \
+                    float coord = transform_coord_f32((float)out_coords[d], in_shape[d], out_shape[d],\
                                                   coord_transform);                                \
-                    size_t src_idx = round_nearest(coord, in_shape[d] - 1, nearest_mode);          \
+                    size_t src_idx = round_nearest_f32(coord, in_shape[d] - 1, nearest_mode);      \
                     in_idx += src_idx * in_strides[d];                                             \
                 }                                                                                  \
                 out[out_idx] = in[in_idx];                                                         \
             } else if (mode == RESIZE_MODE_LINEAR && num_spatial == 2) {                           \
-                float y_coord = transform_coord((float)out_coords[2], in_shape[2], out_shape[2],   \
+                float y_coord = transform_coord_f32((float)out_coords[2], in_shape[2], out_shape[2],\
                                                 coord_transform);                                  \
-                float x_coord = transform_coord((float)out_coords[3], in_shape[3], out_shape[3],   \
+                float x_coord = transform_coord_f32((float)out_coords[3], in_shape[3], out_shape[3],\
                                                 coord_transform);                                  \
                                                                                                    \
                 int y0 = (int)floorf(y_coord);                                                     \
@@ -324,11 +329,11 @@ IMPL_RESIZE(f64_t, f64)
                                fy * ((1.0f - fx) * v10 + fx * v11);                                \
                 out[out_idx] = FROM_FLOAT(result);                                                 \
             } else if (mode == RESIZE_MODE_LINEAR && num_spatial == 3) {                           \
-                float d_coord = transform_coord((float)out_coords[2], in_shape[2], out_shape[2],   \
+                float d_coord = transform_coord_f32((float)out_coords[2], in_shape[2], out_shape[2],\
                                                 coord_transform);                                  \
-                float h_coord = transform_coord((float)out_coords[3], in_shape[3], out_shape[3],   \
+                float h_coord = transform_coord_f32((float)out_coords[3], in_shape[3], out_shape[3],\
                                                 coord_transform);                                  \
-                float w_coord = transform_coord((float)out_coords[4], in_shape[4], out_shape[4],   \
+                float w_coord = transform_coord_f32((float)out_coords[4], in_shape[4], out_shape[4],\
                                                 coord_transform);                                  \
                                                                                                    \
                 int d0 = (int)floorf(d_coord);                                                     \
@@ -372,9 +377,9 @@ IMPL_RESIZE(f64_t, f64)
                 float c1 = (1.0f - fh) * c10 + fh * c11;                                           \
                 out[out_idx] = FROM_FLOAT((1.0f - fd) * c0 + fd * c1);                             \
             } else if (mode == RESIZE_MODE_CUBIC && num_spatial == 2) {                            \
-                float y_coord = transform_coord((float)out_coords[2], in_shape[2], out_shape[2],   \
+                float y_coord = transform_coord_f32((float)out_coords[2], in_shape[2], out_shape[2],\
                                                 coord_transform);                                  \
-                float x_coord = transform_coord((float)out_coords[3], in_shape[3], out_shape[3],   \
+                float x_coord = transform_coord_f32((float)out_coords[3], in_shape[3], out_shape[3],\
                                                 coord_transform);                                  \
                                                                                                    \
                 int y0 = (int)floorf(y_coord);                                                     \
@@ -393,16 +398,16 @@ IMPL_RESIZE(f64_t, f64)
                                            clamp_idx(x0 + 1, in_shape[3] - 1) * in_strides[3]]);   \
                     float p3 = TO_FLOAT(in[base_in_idx + yc * in_strides[2] +                      \
                                            clamp_idx(x0 + 2, in_shape[3] - 1) * in_strides[3]]);   \
-                    cols[j + 1] = cubic_interp(p0, p1, p2, p3, fx);                                \
+                    cols[j + 1] = cubic_interp_f32(p0, p1, p2, p3, fx);                            \
                 }                                                                                  \
-                out[out_idx] = FROM_FLOAT(cubic_interp(cols[0], cols[1], cols[2], cols[3], fy));   \
+                out[out_idx] = FROM_FLOAT(cubic_interp_f32(cols[0], cols[1], cols[2], cols[3], fy));\
             } else {                                                                               \
                 size_t in_idx = base_in_idx;                                                       \
                 for (size_t s = 0; s < num_spatial; s++) {                                         \
                     size_t d = spatial_start + s;                                                  \
-                    float coord = transform_coord((float)out_coords[d], in_shape[d], out_shape[d], \
+                    float coord = transform_coord_f32((float)out_coords[d], in_shape[d], out_shape[d],\
                                                   coord_transform);                                \
-                    size_t src_idx = round_nearest(coord, in_shape[d] - 1, nearest_mode);          \
+                    size_t src_idx = round_nearest_f32(coord, in_shape[d] - 1, nearest_mode);      \
                     in_idx += src_idx * in_strides[d];                                             \
                 }                                                                                  \
                 out[out_idx] = in[in_idx];                                                         \
-- 
2.43.0


From d78152e9c71c9c88bb7ed1e7d0456939b2b8a48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:54 +0000
Subject: [PATCH 34/53] fix: sqrt, recip, softsign and pow_scalar of 32-bit
 integers do not round them to f32

---
 crates/hodu_cpu_kernels/kernels/ops_unary.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary.c b/crates/hodu_cpu_kernels/kernels/ops_unary.c
index 5c78e9d..7258eff 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary.c
@@ -1627,18 +1627,18 @@ IMPL_UNARY_CMP_SCALAR_TO_BOOL(u16_t, u16, ge_scalar, x >= const_val)
 
 // U32
 IMPL_UNARY_OP(u32_t, u32, sign, (x > 0) ? 1 : 0)
-IMPL_UNARY_OP(u32_t, u32, softsign, (u32_t)(x / (1.0f + (float)x)))
+IMPL_UNARY_OP(u32_t, u32, softsign, (u32_t)(x / (1.0 + (double)x)))
 IMPL_UNARY_OP(u32_t, u32, square, x *x)
-IMPL_UNARY_OP(u32_t, u32, sqrt, (u32_t)sqrtf((float)x))
+IMPL_UNARY_OP(u32_t, u32, sqrt, (u32_t)sqrt((double)x))
 IMPL_UNARY_OP(u32_t, u32, abs, x)
-IMPL_UNARY_OP(u32_t, u32, recip, (x != 0) ? (u32_t)(1.0f / (float)x) : 0)
+IMPL_UNARY_OP(u32_t, u32, recip, (x != 0) ? (u32_t)(1.0 / (double)x) : 0)
 IMPL_UNARY_TO_BOOL(u32_t, u32, logical_not, x == 0)
 IMPL_UNARY_WITH_SCALAR(u32_t, u32, add_scalar, x + const_val)
 IMPL_UNARY_WITH_SCALAR(u32_t, u32, sub_scalar, (x > const_val) ? (x - const_val) : 0)
 IMPL_UNARY_WITH_SCALAR(u32_t, u32, mul_scalar, x *const_val)
 IMPL_UNARY_WITH_SCALAR(u32_t, u32, div_scalar, (const_val != 0) ? (x / const_val) : 0)
 IMPL_UNARY_WITH_SCALAR(u32_t, u32, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(u32_t, u32, pow_scalar, (u32_t)powf_opt((float)x, (float)const_val))
+IMPL_UNARY_WITH_SCALAR(u32_t, u32, pow_scalar, (u32_t)pow_opt((double)x, (double)const_val))
 IMPL_UNARY_WITH_SCALAR(u32_t, u32, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(u32_t, u32, minimum_scalar, MINIMUM(x, const_val))
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(u32_t, u32, eq_scalar, x == const_val)
@@ -1729,18 +1729,18 @@ IMPL_UNARY_CMP_SCALAR_TO_BOOL(i16_t, i16, ge_scalar, x >= const_val)
 IMPL_UNARY_OP(i32_t, i32, neg, -x)
 IMPL_UNARY_OP(i32_t, i32, abs, (x < 0) ? -x : x)
 IMPL_UNARY_OP(i32_t, i32, sign, (x > 0) ? 1 : ((x < 0) ? -1 : 0))
-IMPL_UNARY_OP(i32_t, i32, softsign, (i32_t)((float)x / (1.0f + fabsf((float)x))))
+IMPL_UNARY_OP(i32_t, i32, softsign, (i32_t)((double)x / (1.0 + fabs((double)x))))
 IMPL_UNARY_OP(i32_t, i32, relu, (x > 0) ? x : 0)
 IMPL_UNARY_OP(i32_t, i32, square, x *x)
-IMPL_UNARY_OP(i32_t, i32, sqrt, (i32_t)sqrtf((float)((x < 0) ? -x : x)))
-IMPL_UNARY_OP(i32_t, i32, recip, (x != 0) ? (i32_t)(1.0f / (float)x) : 0)
+IMPL_UNARY_OP(i32_t, i32, sqrt, (i32_t)sqrt((double)((x < 0) ? -x : x)))
+IMPL_UNARY_OP(i32_t, i32, recip, (x != 0) ? (i32_t)(1.0 / (double)x) : 0)
 IMPL_UNARY_TO_BOOL(i32_t, i32, logical_not, x == 0)
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, add_scalar, x + const_val)
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, sub_scalar, x - const_val)
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, mul_scalar, x *const_val)
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, div_scalar, (const_val != 0) ? (x / const_val) : 0)
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(i32_t, i32, pow_scalar, (i32_t)powf_opt((float)x, (float)const_val))
+IMPL_UNARY_WITH_SCALAR(i32_t, i32, pow_scalar, (i32_t)pow_opt((double)x, (double)const_val))
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, minimum_scalar, MINIMUM(x, const_val))
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(i32_t, i32, eq_scalar, x == const_val)
-- 
2.43.0


From 0ed667985aecfb4a105a3ee7159c22155655b29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:44 +0000
Subject: [PATCH 35/53] fix: CPU backend refuses ranks that overrun the index
 arrays of its kernels

---
 crates/hodu_core/src/be_cpu/storage.rs | 35 ++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/crates/hodu_core/src/be_cpu/storage.rs b/crates/hodu_core/src/be_cpu/storage.rs
index 44fb16a..97c05bd 100644
--- a/crates/hodu_core/src/be_cpu/storage.rs
+++ b/crates/hodu_core/src/be_cpu/storage.rs
@@ -32,6 +32,16 @@ use float8::F8E4M3;
 use float8::F8E5M2;
 use half::{bf16, f16};
 
+/// Rejects tensors with more dimensions than the index arrays of a kernel hold.
+fn check_ndim(op: &str, ndim: usize, max_ndim: usize) -> HoduResult<()> {
+    if ndim > max_ndim {
+        return Err(HoduError::UnsupportedOperation(format!(
+            "{op} on CPU supports at most {max_ndim} dimensions, got {ndim}"
+        )));
+    }
+    Ok(())
+}
+
 #[derive(Debug, Clone)]
 pub enum CpuStorage {
     BOOL(Vec<bool>),
@@ -456,6 +466,8 @@ impl BackendStorageT for CpuStorage {
         rhs_layout: &Layout,
         op: Op,
     ) -> HoduResult<Self> {
+        // two of the dimensions are not batch dimensions
+        check_ndim("matmul", lhs_layout.ndim().max(rhs_layout.ndim()), 18)?;
         ops_matrix::call_ops_matmul(self, rhs_storage, lhs_layout, rhs_layout, op)
     }
 
@@ -476,14 +488,19 @@ impl BackendStorageT for CpuStorage {
     }
 
     fn call_ops_reduce(&self, layout: &Layout, dims: &[usize], keep_dim: bool, op: Op) -> HoduResult<Self> {
+        check_ndim("reduce", layout.ndim(), 16)?;
         ops_reduce::call_ops_reduce(self, layout, dims, keep_dim, op)
     }
 
     fn call_ops_concat(&self, others: &[&Self], layouts: &[&Layout], dim: usize, op: Op) -> HoduResult<Self> {
+        for layout in layouts {
+            check_ndim("concat", layout.ndim(), 16)?;
+        }
         ops_concat_split::call_ops_concat(self, others, layouts, dim, op)
     }
 
     fn call_ops_split(&self, layout: &Layout, dim: usize, start: usize, size: usize, op: Op) -> HoduResult<Self> {
+        check_ndim("split", layout.ndim(), 16)?;
         ops_concat_split::call_ops_split(self, layout, dim, start, size, op)
     }
 
@@ -541,6 +558,7 @@ impl BackendStorageT for CpuStorage {
         dim: usize,
         op: Op,
     ) -> HoduResult<Self> {
+        check_ndim("scatter", layout.ndim().max(src_layout.ndim()), 32)?;
         ops_indexing::call_ops_scatter(
             self,
             layout,
@@ -561,6 +579,8 @@ impl BackendStorageT for CpuStorage {
         output_dtype: crate::types::DType,
         op: Op,
     ) -> HoduResult<Self> {
+        // the output has one dimension more
+        check_ndim("onehot", layout.ndim(), 31)?;
         ops_indexing::call_ops_onehot(self, layout, num_classes, axis, output_dtype, op)
     }
 
@@ -620,6 +640,7 @@ impl BackendStorageT for CpuStorage {
         padding: &[usize],
         op: Op,
     ) -> HoduResult<Self> {
+        check_ndim("reduce_window", layout.ndim(), 16)?;
         ops_windowing::call_ops_reduce_window(self, layout, window_shape, strides, padding, op)
     }
 
@@ -642,10 +663,12 @@ impl BackendStorageT for CpuStorage {
         coord_transform: crate::op_params::ResizeCoordTransform,
         nearest_mode: crate::op_params::ResizeNearestMode,
     ) -> HoduResult<Self> {
+        check_ndim("resize", layout.ndim(), 16)?;
         ops_resize::call_ops_resize(self, layout, output_shape, mode, coord_transform, nearest_mode)
     }
 
     fn call_ops_cumsum(&self, layout: &Layout, dim: usize) -> HoduResult<Self> {
+        check_ndim("cumsum", layout.ndim(), 16)?;
         ops_scan::call_ops_cumsum(self, layout, dim)
     }
 
@@ -655,6 +678,16 @@ impl BackendStorageT for CpuStorage {
         input_layouts: &[&Layout],
         parsed: &crate::einsum::ParsedEinsum,
     ) -> HoduResult<Self> {
+        if input_layouts.len() > 4 {
+            return Err(HoduError::UnsupportedOperation(format!(
+                "einsum on CPU supports at most 4 inputs, got {}",
+                input_layouts.len()
+            )));
+        }
+        check_ndim("einsum", parsed.all_indices.len(), 16)?;
+        for layout in input_layouts {
+            check_ndim("einsum", layout.ndim(), 16)?;
+        }
         ops_einsum::call_ops_einsum(self, inputs, input_layouts, parsed)
     }
 
@@ -675,6 +708,7 @@ impl BackendStorageT for CpuStorage {
     }
 
     fn call_nonzero(&self, layout: &Layout) -> HoduResult<(Self, usize)> {
+        check_ndim("nonzero", layout.ndim(), 32)?;
         ops_indexing::call_nonzero(self, layout)
     }
 
@@ -689,6 +723,7 @@ impl BackendStorageT for CpuStorage {
         condition_layout: &Layout,
         axis: Option<usize>,
     ) -> HoduResult<(Self, usize)> {
+        check_ndim("compress", layout.ndim(), 32)?;
         ops_indexing::call_compress(self, layout, condition, condition_layout, axis)
     }
 
-- 
2.43.0


From a410d67999446afbb515575d42f66c198badfd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 36/53] fix: parameters() of Dropout and of the losses recursed
 for ever

---
 crates/hodu_nn/src/losses/binary_cross_entropy.rs | 8 ++++++++
 crates/hodu_nn/src/losses/cosine_embedding.rs     | 4 ++++
 crates/hodu_nn/src/losses/cross_entropy.rs        | 4 ++++
 crates/hodu_nn/src/losses/huber.rs                | 4 ++++
 crates/hodu_nn/src/losses/kl_div.rs               | 4 ++++
 crates/hodu_nn/src/losses/mae.rs                  | 4 ++++
 crates/hodu_nn/src/losses/mse.rs                  | 4 ++++
 crates/hodu_nn/src/losses/nll.rs                  | 4 ++++
 crates/hodu_nn/src/losses/smooth_l1.rs            | 4 ++++
 crates/hodu_nn/src/modules/dropout.rs             | 4 ++++
 10 files changed, 44 insertions(+)

diff --git a/crates/hodu_nn/src/losses/binary_cross_entropy.rs b/crates/hodu_nn/src/losses/binary_cross_entropy.rs
index c428128..3eb870d 100644
--- a/crates/hodu_nn/src/losses/binary_cross_entropy.rs
+++ b/crates/hodu_nn/src/losses/binary_cross_entropy.rs
@@ -51,6 +51,10 @@ impl BCELoss {
         // Mean over all elements
         bce.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
 
 #[derive(Module, Clone, Default)]
@@ -81,4 +85,8 @@ impl BCEWithLogitsLoss {
         // Mean over all elements
         loss.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/cosine_embedding.rs b/crates/hodu_nn/src/losses/cosine_embedding.rs
index 083351f..f676ebe 100644
--- a/crates/hodu_nn/src/losses/cosine_embedding.rs
+++ b/crates/hodu_nn/src/losses/cosine_embedding.rs
@@ -72,4 +72,8 @@ impl CosineEmbeddingLoss {
 
         loss.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/cross_entropy.rs b/crates/hodu_nn/src/losses/cross_entropy.rs
index 6199563..eb1442f 100644
--- a/crates/hodu_nn/src/losses/cross_entropy.rs
+++ b/crates/hodu_nn/src/losses/cross_entropy.rs
@@ -46,4 +46,8 @@ impl CrossEntropyLoss {
         // Mean over batch
         nll.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/huber.rs b/crates/hodu_nn/src/losses/huber.rs
index c642eea..51d4bcf 100644
--- a/crates/hodu_nn/src/losses/huber.rs
+++ b/crates/hodu_nn/src/losses/huber.rs
@@ -35,4 +35,8 @@ impl HuberLoss {
 
         Ok(mean)
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/kl_div.rs b/crates/hodu_nn/src/losses/kl_div.rs
index 12a5762..7592d30 100644
--- a/crates/hodu_nn/src/losses/kl_div.rs
+++ b/crates/hodu_nn/src/losses/kl_div.rs
@@ -51,4 +51,8 @@ impl KLDivLoss {
 
         loss.sum_all()?.div_scalar(input.shape()[0] as f32)
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/mae.rs b/crates/hodu_nn/src/losses/mae.rs
index 8c52593..856f0ad 100644
--- a/crates/hodu_nn/src/losses/mae.rs
+++ b/crates/hodu_nn/src/losses/mae.rs
@@ -20,4 +20,8 @@ impl MAELoss {
 
         Ok(mean)
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/mse.rs b/crates/hodu_nn/src/losses/mse.rs
index f314773..8bd258c 100644
--- a/crates/hodu_nn/src/losses/mse.rs
+++ b/crates/hodu_nn/src/losses/mse.rs
@@ -20,4 +20,8 @@ impl MSELoss {
 
         Ok(mean)
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/nll.rs b/crates/hodu_nn/src/losses/nll.rs
index 8a32680..328c418 100644
--- a/crates/hodu_nn/src/losses/nll.rs
+++ b/crates/hodu_nn/src/losses/nll.rs
@@ -43,4 +43,8 @@ impl NLLLoss {
         // Mean over batch
         nll.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/smooth_l1.rs b/crates/hodu_nn/src/losses/smooth_l1.rs
index 715157e..acc5f8e 100644
--- a/crates/hodu_nn/src/losses/smooth_l1.rs
+++ b/crates/hodu_nn/src/losses/smooth_l1.rs
@@ -53,4 +53,8 @@ impl SmoothL1Loss {
 
         loss.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/modules/dropout.rs b/crates/hodu_nn/src/modules/dropout.rs
index c70e039..6aa088a 100644
--- a/crates/hodu_nn/src/modules/dropout.rs
+++ b/crates/hodu_nn/src/modules/dropout.rs
@@ -26,4 +26,8 @@ impl Dropout {
 
         input.mul(&scaled_mask)
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
-- 
2.43.0


From f1a9c80529675780858280c3ec0e9406cf807730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 37/53] fix: train! and eval! name the state module through
 $crate so that users can call them

---
 crates/hodu_nn/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/hodu_nn/src/lib.rs b/crates/hodu_nn/src/lib.rs
index 02c167d..d77bd7c 100644
--- a/crates/hodu_nn/src/lib.rs
+++ b/crates/hodu_nn/src/lib.rs
@@ -38,18 +38,18 @@ pub use optimizers::{
     sgd::SGD,
 };
 
-pub(crate) mod state {
+#[doc(hidden)]
+pub mod state {
     use std::sync::Mutex;
 
     #[derive(Debug, Clone, Copy, PartialEq)]
-    pub(crate) enum State {
+    pub enum State {
         Training,
         Evaluation,
     }
 
     static STATE: Mutex<State> = Mutex::new(State::Training);
 
-    #[allow(dead_code)]
     pub fn set_state(new_state: State) {
         *STATE.lock().unwrap() = new_state;
     }
@@ -63,7 +63,7 @@ pub(crate) mod state {
 #[macro_export]
 macro_rules! train {
     () => {
-        state::set_state(state::State::Training);
+        $crate::state::set_state($crate::state::State::Training);
     };
 }
 
@@ -71,6 +71,6 @@ macro_rules! train {
 #[macro_export]
 macro_rules! eval {
     () => {
-        state::set_state(state::State::Evaluation);
+        $crate::state::set_state($crate::state::State::Evaluation);
     };
 }
-- 
2.43.0


From c243244421e5e90174e0c0eac673f0f6ae8040a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 38/53] fix: abs passes gradients on (its VJP was never
 reached)

---
 crates/hodu_core/src/ops.rs         | 2 +-
 crates/hodu_core/src/utils/valid.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/hodu_core/src/ops.rs b/crates/hodu_core/src/ops.rs
index fa77879..17d0aff 100644
--- a/crates/hodu_core/src/ops.rs
+++ b/crates/hodu_core/src/ops.rs
@@ -155,7 +155,7 @@ impl fmt::Debug for CmpScalarOp {
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 pub enum UnaryOp {
     Neg,
-    Abs,      // no-backprop
+    Abs,
     Sign,     // no-backprop
     Softsign, // x / (1 + |x|)
     Square,
diff --git a/crates/hodu_core/src/utils/valid.rs b/crates/hodu_core/src/utils/valid.rs
index 29a4c1c..bcea115 100644
--- a/crates/hodu_core/src/utils/valid.rs
+++ b/crates/hodu_core/src/utils/valid.rs
@@ -408,8 +408,8 @@ pub fn validate_requires_grad_for_op(op: Op) -> bool {
 
         // Unary operations
         Op::Unary(inner_op) => match inner_op {
-            UnaryOp::Neg | UnaryOp::Square | UnaryOp::Sqrt | UnaryOp::Recip => true,
-            UnaryOp::Abs | UnaryOp::Sign => false, // !
+            UnaryOp::Neg | UnaryOp::Abs | UnaryOp::Square | UnaryOp::Sqrt | UnaryOp::Recip => true,
+            UnaryOp::Sign => false, // !
             UnaryOp::Softsign => true,
             UnaryOp::Relu
             | UnaryOp::Sigmoid
-- 
2.43.0


From 0fff6138320c90fd5926cee23840c0110f1578d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 39/53] fix: losses bring scalars and masks to the type of
 their input

---
 .../hodu_nn/src/losses/binary_cross_entropy.rs  |  5 +++--
 crates/hodu_nn/src/losses/cosine_embedding.rs   |  6 ++++--
 crates/hodu_nn/src/losses/huber.rs              | 17 +++++++++++------
 crates/hodu_nn/src/losses/kl_div.rs             |  5 +++--
 crates/hodu_nn/src/losses/mae.rs                |  2 +-
 crates/hodu_nn/src/losses/smooth_l1.rs          |  6 +++++-
 6 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/crates/hodu_nn/src/losses/binary_cross_entropy.rs b/crates/hodu_nn/src/losses/binary_cross_entropy.rs
index 3eb870d..98d4608 100644
--- a/crates/hodu_nn/src/losses/binary_cross_entropy.rs
+++ b/crates/hodu_nn/src/losses/binary_cross_entropy.rs
@@ -29,8 +29,9 @@ impl BCELoss {
     fn forward(&self, (pred, target): (&Tensor, &Tensor)) -> HoduResult<Tensor> {
         // Clamp predictions to avoid log(0)
         // pred_clamped = clamp(pred, epsilon, 1 - epsilon)
-        let one_minus_eps_scalar = Scalar::one(self.epsilon.dtype()) - self.epsilon;
-        let pred_clamped = pred.clamp(self.epsilon, one_minus_eps_scalar)?;
+        let epsilon = self.epsilon.to_dtype(pred.dtype());
+        let one_minus_eps_scalar = Scalar::one(pred.dtype()) - epsilon;
+        let pred_clamped = pred.clamp(epsilon, one_minus_eps_scalar)?;
 
         // BCE = -[target * log(pred) + (1 - target) * log(1 - pred)]
 
diff --git a/crates/hodu_nn/src/losses/cosine_embedding.rs b/crates/hodu_nn/src/losses/cosine_embedding.rs
index f676ebe..5173755 100644
--- a/crates/hodu_nn/src/losses/cosine_embedding.rs
+++ b/crates/hodu_nn/src/losses/cosine_embedding.rs
@@ -64,11 +64,13 @@ impl CosineEmbeddingLoss {
 
         // y = 1 -> use loss_positive, y = -1 -> use loss_negative
         // mask = (y == 1)
-        let mask = y.eq_scalar(one)?;
+        let mask = y.eq_scalar(Scalar::one(y.dtype()))?;
+        let inverse_mask = mask.logical_not()?.to_dtype(dtype)?;
 
         let loss = mask
+            .to_dtype(dtype)?
             .mul(&loss_positive)?
-            .add(&mask.logical_not()?.mul(&loss_negative)?)?;
+            .add(&inverse_mask.mul(&loss_negative)?)?;
 
         loss.mean_all()
     }
diff --git a/crates/hodu_nn/src/losses/huber.rs b/crates/hodu_nn/src/losses/huber.rs
index 51d4bcf..6e491c0 100644
--- a/crates/hodu_nn/src/losses/huber.rs
+++ b/crates/hodu_nn/src/losses/huber.rs
@@ -16,18 +16,23 @@ impl HuberLoss {
         let diff = pred.sub(target)?;
         let abs_diff = diff.abs()?;
 
+        let dtype = diff.dtype();
+        let delta = self.delta.to_dtype(dtype);
+
         let quadratic_loss = diff
-            .pow_scalar(Scalar::from_f32(2.0, diff.dtype()))?
-            .div_scalar(Scalar::from_f32(2.0, diff.dtype()))?;
+            .pow_scalar(Scalar::from_f32(2.0, dtype))?
+            .div_scalar(Scalar::from_f32(2.0, dtype))?;
         let linear_loss = abs_diff
-            .mul_scalar(self.delta)?
-            .sub_scalar(self.delta.powi(2) / Scalar::from_f32(2.0, self.delta.dtype()))?;
+            .mul_scalar(delta)?
+            .sub_scalar(delta.powi(2) / Scalar::from_f32(2.0, dtype))?;
 
-        let mask = abs_diff.le_scalar(self.delta)?;
+        let mask = abs_diff.le_scalar(delta)?;
+        let inverse_mask = mask.logical_not()?.to_dtype(dtype)?;
 
         let loss = mask
+            .to_dtype(dtype)?
             .mul(&quadratic_loss)?
-            .add(&mask.logical_not()?.mul(&linear_loss)?)?;
+            .add(&inverse_mask.mul(&linear_loss)?)?;
 
         let pred_shape = pred.shape();
         let batch_size = Scalar::from_f32(pred_shape[0] as f32, diff.dtype());
diff --git a/crates/hodu_nn/src/losses/kl_div.rs b/crates/hodu_nn/src/losses/kl_div.rs
index 7592d30..97ece1d 100644
--- a/crates/hodu_nn/src/losses/kl_div.rs
+++ b/crates/hodu_nn/src/losses/kl_div.rs
@@ -1,5 +1,5 @@
 use crate::module::Module;
-use hodu_core::{error::HoduResult, tensor::Tensor};
+use hodu_core::{error::HoduResult, scalar::Scalar, tensor::Tensor};
 
 /// Kullback-Leibler Divergence Loss.
 ///
@@ -49,7 +49,8 @@ impl KLDivLoss {
             target_log_target.sub(&target_input)?
         };
 
-        loss.sum_all()?.div_scalar(input.shape()[0] as f32)
+        loss.sum_all()?
+            .div_scalar(Scalar::from_f32(input.shape()[0] as f32, input.dtype()))
     }
 
     fn parameters(&self) -> Vec<&Tensor> {
diff --git a/crates/hodu_nn/src/losses/mae.rs b/crates/hodu_nn/src/losses/mae.rs
index 856f0ad..0fe6925 100644
--- a/crates/hodu_nn/src/losses/mae.rs
+++ b/crates/hodu_nn/src/losses/mae.rs
@@ -15,7 +15,7 @@ impl MAELoss {
         let abs_diff = diff.abs()?;
 
         let pred_shape = pred.shape();
-        let batch_size = Scalar::new(pred_shape[0]);
+        let batch_size = Scalar::from_f32(pred_shape[0] as f32, diff.dtype());
         let mean = abs_diff.sum_all()?.div_scalar(batch_size)?;
 
         Ok(mean)
diff --git a/crates/hodu_nn/src/losses/smooth_l1.rs b/crates/hodu_nn/src/losses/smooth_l1.rs
index acc5f8e..b46d0bb 100644
--- a/crates/hodu_nn/src/losses/smooth_l1.rs
+++ b/crates/hodu_nn/src/losses/smooth_l1.rs
@@ -49,7 +49,11 @@ impl SmoothL1Loss {
 
         // Select based on condition: |x - y| < beta
         let mask = abs_diff.lt_scalar(beta)?;
-        let loss = mask.mul(&quadratic)?.add(&mask.logical_not()?.mul(&linear)?)?;
+        let inverse_mask = mask.logical_not()?.to_dtype(dtype)?;
+        let loss = mask
+            .to_dtype(dtype)?
+            .mul(&quadratic)?
+            .add(&inverse_mask.mul(&linear)?)?;
 
         loss.mean_all()
     }
-- 
2.43.0


From 8a820379ac4de841a5e7950cab49f74bcbad2857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 40/53] fix: dropout, attention and RReLU bring scalars and
 random values to the type of their input

---
 crates/hodu_nn/src/modules/activation.rs |  6 +++---
 crates/hodu_nn/src/modules/attention.rs  | 24 ++++++++++++++----------
 crates/hodu_nn/src/modules/dropout.rs    |  7 ++++---
 3 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/crates/hodu_nn/src/modules/activation.rs b/crates/hodu_nn/src/modules/activation.rs
index 1f6bdda..41ef365 100644
--- a/crates/hodu_nn/src/modules/activation.rs
+++ b/crates/hodu_nn/src/modules/activation.rs
@@ -225,9 +225,9 @@ impl RReLU {
         // Compute alpha based on training/evaluation mode
         let alpha = if get_state() == State::Training {
             // Training mode: use random alpha for each element
-            let lower_f32 = self.lower.to_f32();
-            let upper_f32 = self.upper.to_f32();
-            Tensor::rand_uniform_like(input, lower_f32, upper_f32)?
+            let lower = self.lower.to_dtype(dtype);
+            let upper = self.upper.to_dtype(dtype);
+            Tensor::rand_uniform_like(input, lower, upper)?
         } else {
             // Evaluation mode: use average of lower and upper bounds
             let avg = (self.lower.to_f32() + self.upper.to_f32()) / 2.0;
diff --git a/crates/hodu_nn/src/modules/attention.rs b/crates/hodu_nn/src/modules/attention.rs
index c083b92..d77a6bc 100644
--- a/crates/hodu_nn/src/modules/attention.rs
+++ b/crates/hodu_nn/src/modules/attention.rs
@@ -34,7 +34,9 @@ pub fn scaled_dot_product_attention(
     let scale = 1.0 / d_k.sqrt();
 
     // QK^T / sqrt(d_k)
-    let attn_weights = query.matmul(&key.transpose(-2, -1)?)?.mul_scalar(scale)?;
+    let attn_weights = query
+        .matmul(&key.transpose(-2, -1)?)?
+        .mul_scalar(Scalar::from_f32(scale as f32, query.dtype()))?;
 
     // Apply causal mask if needed
     let attn_weights = if is_causal {
@@ -50,7 +52,7 @@ pub fn scaled_dot_product_attention(
     // Apply attention mask if provided (0 = mask out, 1 = attend)
     let attn_weights = if let Some(mask) = attn_mask {
         let neg_inf = get_neg_inf(query.dtype());
-        attn_weights.masked_fill(&mask.eq_scalar(0.0)?, neg_inf)?
+        attn_weights.masked_fill(&mask.eq_scalar(Scalar::zero(mask.dtype()))?, neg_inf)?
     } else {
         attn_weights
     };
@@ -82,21 +84,23 @@ fn create_causal_mask(seq_len_q: usize, seq_len_k: usize) -> HoduResult<Tensor>
 }
 
 /// Get negative infinity for masking based on dtype
-fn get_neg_inf(dtype: DType) -> f64 {
-    match dtype {
-        DType::F32 => f32::NEG_INFINITY as f64,
+fn get_neg_inf(dtype: DType) -> Scalar {
+    let neg_inf = match dtype {
+        DType::F32 => f32::NEG_INFINITY,
         #[cfg(feature = "f64")]
-        DType::F64 => f64::NEG_INFINITY,
+        DType::F64 => f32::NEG_INFINITY,
         DType::F16 | DType::BF16 => -65504.0,
         _ => -1e9,
-    }
+    };
+    Scalar::from_f32(neg_inf, dtype)
 }
 
 /// Apply dropout to tensor
 fn apply_dropout(x: &Tensor, p: f64) -> HoduResult<Tensor> {
-    let random = Tensor::rand_uniform_like(x, 0.0, 1.0)?;
-    let mask = random.gt_scalar(p)?.to_dtype(x.dtype())?;
-    let scale = 1.0 / (1.0 - p);
+    let dtype = x.dtype();
+    let random = Tensor::rand_uniform_like(x, Scalar::zero(dtype), Scalar::one(dtype))?;
+    let mask = random.gt_scalar(Scalar::from_f32(p as f32, dtype))?.to_dtype(dtype)?;
+    let scale = Scalar::from_f32((1.0 / (1.0 - p)) as f32, dtype);
     let scaled_mask = mask.mul_scalar(scale)?;
     x.mul(&scaled_mask)
 }
diff --git a/crates/hodu_nn/src/modules/dropout.rs b/crates/hodu_nn/src/modules/dropout.rs
index 6aa088a..3544f8c 100644
--- a/crates/hodu_nn/src/modules/dropout.rs
+++ b/crates/hodu_nn/src/modules/dropout.rs
@@ -19,9 +19,10 @@ impl Dropout {
         }
 
         // Training mode: apply dropout
-        let random = Tensor::rand_uniform_like(input, 0.0, 1.0)?;
-        let mask = random.gt_scalar(self.p)?.to_dtype(input.dtype())?;
-        let scale = 1.0 / (1.0 - self.p.to_f32());
+        let dtype = input.dtype();
+        let random = Tensor::rand_uniform_like(input, Scalar::zero(dtype), Scalar::one(dtype))?;
+        let mask = random.gt_scalar(self.p.to_dtype(dtype))?.to_dtype(dtype)?;
+        let scale = Scalar::from_f32(1.0 / (1.0 - self.p.to_f32()), dtype);
         let scaled_mask = mask.mul_scalar(scale)?;
 
         input.mul(&scaled_mask)
-- 
2.43.0


From edee8b6346ee313d26ec0787f002c359f5f2d5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 41/53] fix: Adagrad's initial accumulators have the type of
 their parameter

---
 crates/hodu_nn/src/optimizers/adagrad.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hodu_nn/src/optimizers/adagrad.rs b/crates/hodu_nn/src/optimizers/adagrad.rs
index 08f5dd2..d4d4ab1 100644
--- a/crates/hodu_nn/src/optimizers/adagrad.rs
+++ b/crates/hodu_nn/src/optimizers/adagrad.rs
@@ -65,7 +65,7 @@ impl Adagrad {
             } else {
                 self.v = parameters
                     .iter()
-                    .map(|param| Tensor::full_like(param, self.initial_accumulator_value))
+                    .map(|param| Tensor::full_like(param, self.initial_accumulator_value.to_dtype(param.dtype())))
                     .collect::<HoduResult<Vec<_>>>()?;
             }
         }
-- 
2.43.0


From 63198190cf1dd6cacecc5b94574182a84a3a2c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 42/53] fix: where3, masked_fill and clamp pick values instead
 of weighting them (0 * inf gave NaN)

---
 crates/hodu_core/src/tensor/ops/selection.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/selection.rs b/crates/hodu_core/src/tensor/ops/selection.rs
index 830984e..5e099e2 100644
--- a/crates/hodu_core/src/tensor/ops/selection.rs
+++ b/crates/hodu_core/src/tensor/ops/selection.rs
@@ -2,19 +2,17 @@ use crate::{
     error::HoduResult,
     scalar::Scalar,
     tensor::{utils::broadcast_tensors3, Tensor},
+    types::DType,
 };
 
 impl Tensor {
     pub fn where3(&self, condition: &Tensor, other: &Tensor) -> HoduResult<Self> {
         let (condition, x, y) = broadcast_tensors3(condition, self, other)?;
 
-        let mask = condition.to_dtype(x.dtype())?;
-        let one = Self::ones_like(&mask)?;
-        let inv_mask = one.sub(&mask)?;
-
-        let x_part = mask.mul(&x)?;
-        let y_part = inv_mask.mul(&y)?;
-        x_part.add(&y_part)
+        // Picks one of the two instead of weighting them, so that a NaN or an infinity
+        // that was not chosen leaves no trace in the result
+        let index = condition.to_dtype(DType::BOOL)?.to_dtype(DType::I32)?.unsqueeze(0)?;
+        Self::stack(&[&y, &x], 0)?.gather(0, &index)?.squeeze(&[0])
     }
 
     pub fn masked_fill<T: Into<Scalar>>(&self, mask: &Tensor, value: T) -> HoduResult<Self> {
-- 
2.43.0


From 66e719228403007e66c49a76ee41a20cc2a4fdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 43/53] fix: zero_grad resumes recording when a parameter's
 gradient cannot be reset

---
 crates/hodu_nn/macros/src/derive.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/hodu_nn/macros/src/derive.rs b/crates/hodu_nn/macros/src/derive.rs
index 4901323..ea4319d 100644
--- a/crates/hodu_nn/macros/src/derive.rs
+++ b/crates/hodu_nn/macros/src/derive.rs
@@ -92,12 +92,10 @@ pub fn derive_optimizer_impl(input: TokenStream) -> TokenStream {
                 #hodu_core_path::tensor::set_optimizer_step_flag(true);
 
                 // Zero out gradients for each parameter
-                for param in parameters.iter() {
-                    param.zero_grad()?;
-                }
+                let result = parameters.iter().try_for_each(|param| param.zero_grad());
 
                 #hodu_core_path::tensor::set_optimizer_step_flag(false);
-                Ok(())
+                result
             }
         }
     };
-- 
2.43.0


From cc686eaf49cd5d437ee5fa2a9f919b06fcf2a398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:03 +0000
Subject: [PATCH 44/53] fix: the gradient tape keeps the inputs of recorded
 operations alive until backward

---
 crates/hodu_core/src/tensor/core.rs           | 34 +++----------
 crates/hodu_core/src/tensor/gradient.rs       |  5 --
 .../hodu_core/src/tensor/gradient/compute.rs  | 23 +++++----
 crates/hodu_core/src/tensor/gradient/tape.rs  | 49 +++++++------------
 crates/hodu_core/src/tensor/internal.rs       | 12 ++---
 5 files changed, 39 insertions(+), 84 deletions(-)

diff --git a/crates/hodu_core/src/tensor/core.rs b/crates/hodu_core/src/tensor/core.rs
index a10e352..bf06813 100644
--- a/crates/hodu_core/src/tensor/core.rs
+++ b/crates/hodu_core/src/tensor/core.rs
@@ -46,7 +46,7 @@ impl Clone for Tensor {
 
 impl Drop for Tensor {
     fn drop(&mut self) {
-        let (should_remove, should_cleanup_tape, grad_id) = registry::with_tensor(self.0, |t| {
+        let (should_remove, grad_id) = registry::with_tensor(self.0, |t| {
             let prev_count = t.ref_count.load(Ordering::Relaxed);
 
             if prev_count > 0 {
@@ -59,31 +59,19 @@ impl Drop for Tensor {
                 (prev_count == 1 || prev_count == 0) && t.is_runtime && t.owner_context.is_none() && !t.is_gradient
             };
 
-            let cleanup =
-                prev_count == 1 && t.requires_grad && t.owner_context.is_none() && !gradient::is_computing_gradients();
-
-            (remove, cleanup, t.grad_tensor_id)
+            (remove, t.grad_tensor_id)
         })
-        .unwrap_or((false, false, None));
-
-        if should_cleanup_tape {
-            gradient::cleanup_tape_for_dropped_tensor(self.0);
-        }
+        .unwrap_or((false, None));
 
         if should_remove {
             if let Some(grad_id) = grad_id {
-                if let Some((should_remove_grad, should_cleanup_grad_tape)) = registry::with_tensor(grad_id, |g| {
+                if let Some(should_remove_grad) = registry::with_tensor(grad_id, |g| {
                     let prev_count = g.ref_count.load(Ordering::Relaxed);
                     if prev_count > 0 {
                         g.ref_count.fetch_sub(1, Ordering::Relaxed);
                     }
-                    let remove = (prev_count == 1 || prev_count == 0) && g.is_runtime && g.owner_context.is_none();
-                    let cleanup = (prev_count == 1 || prev_count == 0) && g.requires_grad && g.owner_context.is_none();
-                    (remove, cleanup)
+                    (prev_count == 1 || prev_count == 0) && g.is_runtime && g.owner_context.is_none()
                 }) {
-                    if should_cleanup_grad_tape {
-                        gradient::cleanup_tape_for_dropped_tensor(grad_id);
-                    }
                     if should_remove_grad {
                         registry::remove(grad_id);
                     }
@@ -267,17 +255,11 @@ impl Tensor {
             })
             .ok_or(HoduError::TensorNotFound(old_grad_id))?;
 
-            let (should_remove, should_cleanup_tape) = registry::with_tensor(old_grad_id, |t| {
+            let should_remove = registry::with_tensor(old_grad_id, |t| {
                 let prev_count = t.ref_count.fetch_sub(1, Ordering::Relaxed);
-                let remove = prev_count == 1 && t.is_runtime && t.owner_context.is_none();
-                let cleanup = prev_count == 1 && t.requires_grad && t.owner_context.is_none();
-                (remove, cleanup)
+                prev_count == 1 && t.is_runtime && t.owner_context.is_none()
             })
-            .unwrap_or((false, false));
-
-            if should_cleanup_tape {
-                gradient::cleanup_tape_for_dropped_tensor(old_grad_id);
-            }
+            .unwrap_or(false);
 
             if should_remove {
                 registry::remove(old_grad_id);
diff --git a/crates/hodu_core/src/tensor/gradient.rs b/crates/hodu_core/src/tensor/gradient.rs
index 33f244d..2eecc32 100644
--- a/crates/hodu_core/src/tensor/gradient.rs
+++ b/crates/hodu_core/src/tensor/gradient.rs
@@ -41,8 +41,3 @@ pub use core::{is_computing_gradients, is_in_optimizer_step, set_optimizer_step_
 
 pub(crate) use core::get_active_context;
 pub(crate) use vjp::VjpCompute;
-
-pub(crate) fn cleanup_tape_for_dropped_tensor(tensor_id: crate::tensor::TensorId) {
-    let context_id = get_active_context();
-    tape::remove_entries_with_input(context_id, tensor_id);
-}
diff --git a/crates/hodu_core/src/tensor/gradient/compute.rs b/crates/hodu_core/src/tensor/gradient/compute.rs
index 5b8707a..e5a69e5 100644
--- a/crates/hodu_core/src/tensor/gradient/compute.rs
+++ b/crates/hodu_core/src/tensor/gradient/compute.rs
@@ -34,7 +34,7 @@ pub fn record_operation(input_ids: Vec<TensorId>, output_id: TensorId, op: Op, o
         output_id,
         op,
         op_params,
-        input_ids,
+        inputs: input_ids.into_iter().map(tensor_from_id).collect(),
     };
 
     push_entry(context_id, entry)
@@ -85,7 +85,9 @@ pub fn compute_gradients(loss_tensor_id: TensorId) -> HoduResult<()> {
     let result = (|| -> HoduResult<()> {
         for entry in tape.iter().rev() {
             if let Some(&grad_output) = gradients.get(&entry.output_id) {
-                for &input_id in &entry.input_ids {
+                let input_ids: Vec<TensorId> = entry.inputs.iter().map(|input| input.id()).collect();
+
+                for &input_id in &input_ids {
                     if tensor::get(input_id).is_none() {
                         return Err(HoduError::TensorNotFound(input_id));
                     }
@@ -97,19 +99,14 @@ pub fn compute_gradients(loss_tensor_id: TensorId) -> HoduResult<()> {
 
                 guard.keep(tensor_from_id(grad_output));
 
-                let input_grads = compute_vjp_for_op(
-                    &entry.op,
-                    &entry.op_params,
-                    &entry.input_ids,
-                    entry.output_id,
-                    grad_output,
-                )?;
+                let input_grads =
+                    compute_vjp_for_op(&entry.op, &entry.op_params, &input_ids, entry.output_id, grad_output)?;
 
                 for &grad_id in &input_grads {
                     guard.keep(tensor_from_id(grad_id));
                 }
 
-                for (input_id, grad_id) in entry.input_ids.iter().zip(input_grads.iter()) {
+                for (input_id, grad_id) in input_ids.iter().zip(input_grads.iter()) {
                     if tensor::get(*grad_id).is_none() {
                         return Err(HoduError::TensorNotFound(*grad_id));
                     }
@@ -144,11 +141,13 @@ pub fn compute_gradients(loss_tensor_id: TensorId) -> HoduResult<()> {
     if result.is_ok() {
         use super::tape;
 
+        // The tape owns the tensors it refers to, so they can only be cleaned up after it has let them go
+        drop(tape);
+        tape::clear_tape_for_context(context_id);
+
         if context_id == ContextId::DEFAULT {
             tape::cleanup_default_context_after_backward();
         }
-
-        tape::clear_tape_for_context(context_id);
     }
 
     result
diff --git a/crates/hodu_core/src/tensor/gradient/tape.rs b/crates/hodu_core/src/tensor/gradient/tape.rs
index ac12b93..59d2d4b 100644
--- a/crates/hodu_core/src/tensor/gradient/tape.rs
+++ b/crates/hodu_core/src/tensor/gradient/tape.rs
@@ -3,18 +3,20 @@ use crate::error::HoduError;
 use crate::{
     error::HoduResult,
     ops::{Op, OpParams},
-    tensor::TensorId,
+    tensor::{Tensor, TensorId},
 };
 use std::collections::HashMap;
 use std::sync::{LazyLock, Mutex};
 
 /// A single entry in the gradient tape
+///
+/// The entry owns its inputs: backward needs them after the caller has dropped its own handles.
 #[derive(Clone)]
 pub(super) struct TapeEntry {
     pub output_id: TensorId,
     pub op: Op,
     pub op_params: OpParams,
-    pub input_ids: Vec<TensorId>,
+    pub inputs: Vec<Tensor>,
 }
 
 /// Global gradient tape storage (one tape per context)
@@ -34,12 +36,13 @@ pub(super) fn remove_tape(context_id: ContextId) {
     // The lock must be released before the cleanup, which takes it again
     let removed = GRADIENT_TAPES.lock().unwrap().remove(&context_id);
     if let Some(tape) = removed {
-        cleanup_context_tensors(context_id, &tape);
+        drop(tape);
+        cleanup_context_tensors(context_id);
     }
 }
 
 /// Clean up tensors owned by a specific context
-fn cleanup_context_tensors(context_id: ContextId, _tape: &[TapeEntry]) {
+fn cleanup_context_tensors(context_id: ContextId) {
     use crate::tensor;
     use std::sync::atomic::Ordering;
 
@@ -64,22 +67,16 @@ fn cleanup_context_tensors(context_id: ContextId, _tape: &[TapeEntry]) {
             if should_remove {
                 // If this tensor has a gradient, decrement its ref_count and remove if necessary
                 if let Some(grad_id) = grad_id {
-                    if let Some((should_remove_grad, should_cleanup_tape)) = tensor::with_tensor(grad_id, |g| {
+                    if let Some(should_remove_grad) = tensor::with_tensor(grad_id, |g| {
                         let prev_count = g.ref_count.load(Ordering::Relaxed);
                         if prev_count > 0 {
                             g.ref_count.fetch_sub(1, Ordering::Relaxed);
                         }
-                        let remove = (prev_count == 1 || prev_count == 0)
+                        (prev_count == 1 || prev_count == 0)
                             && g.is_runtime
                             && g.owner_context.is_none()
-                            && !g.is_gradient;
-                        let cleanup =
-                            (prev_count == 1 || prev_count == 0) && g.requires_grad && g.owner_context.is_none();
-                        (remove, cleanup)
+                            && !g.is_gradient
                     }) {
-                        if should_cleanup_tape {
-                            remove_entries_with_input(context_id, grad_id);
-                        }
                         if should_remove_grad {
                             tensor::remove(grad_id);
                         }
@@ -95,9 +92,7 @@ fn cleanup_context_tensors(context_id: ContextId, _tape: &[TapeEntry]) {
 /// Clean up tensors owned by the default context after backward
 /// Only removes tensors with ref_count=0
 pub(super) fn cleanup_default_context_after_backward() {
-    let context_id = ContextId::DEFAULT;
-    let tape = get_tape_clone(context_id).unwrap_or_default();
-    cleanup_context_tensors(context_id, &tape);
+    cleanup_context_tensors(ContextId::DEFAULT);
 }
 
 /// Add an entry to the tape for a given context
@@ -117,20 +112,10 @@ pub(super) fn get_tape_clone(context_id: ContextId) -> HoduResult<Vec<TapeEntry>
 
 /// Clear the tape for a given context (but don't remove tensors)
 pub(super) fn clear_tape_for_context(context_id: ContextId) {
-    if let Ok(mut tapes) = GRADIENT_TAPES.lock() {
-        if let Some(tape) = tapes.get_mut(&context_id) {
-            tape.clear();
-        }
-    }
-}
-
-/// Remove tape entries that have the given tensor as input
-/// This is called when a tensor with requires_grad=true is dropped
-pub(super) fn remove_entries_with_input(context_id: ContextId, tensor_id: TensorId) {
-    if let Ok(mut tapes) = GRADIENT_TAPES.lock() {
-        if let Some(tape) = tapes.get_mut(&context_id) {
-            // Remove entries where tensor_id is an input
-            tape.retain(|entry| !entry.input_ids.contains(&tensor_id));
-        }
-    }
+    // The entries own tensors, so they must be dropped after the lock is released
+    let cleared = GRADIENT_TAPES
+        .lock()
+        .ok()
+        .and_then(|mut tapes| tapes.get_mut(&context_id).map(std::mem::take));
+    drop(cleared);
 }
diff --git a/crates/hodu_core/src/tensor/internal.rs b/crates/hodu_core/src/tensor/internal.rs
index fc595f9..4ff656c 100644
--- a/crates/hodu_core/src/tensor/internal.rs
+++ b/crates/hodu_core/src/tensor/internal.rs
@@ -111,17 +111,11 @@ pub(crate) fn set_grad_tensor_id(tensor_id: TensorId, grad_tensor_id: TensorId)
     let old_grad_id = registry::with_tensor(tensor_id, |tensor_ref| tensor_ref.grad_tensor_id);
 
     if let Some(Some(old_grad_id)) = old_grad_id {
-        let (should_remove, should_cleanup_tape) = registry::with_tensor(old_grad_id, |t| {
+        let should_remove = registry::with_tensor(old_grad_id, |t| {
             let prev_count = t.ref_count.fetch_sub(1, Ordering::Relaxed);
-            let remove = prev_count == 1 && t.is_runtime && t.owner_context.is_none();
-            let cleanup = prev_count == 1 && t.requires_grad && t.owner_context.is_none();
-            (remove, cleanup)
+            prev_count == 1 && t.is_runtime && t.owner_context.is_none()
         })
-        .unwrap_or((false, false));
-
-        if should_cleanup_tape {
-            gradient::cleanup_tape_for_dropped_tensor(old_grad_id);
-        }
+        .unwrap_or(false);
 
         if should_remove {
             registry::remove(old_grad_id);
-- 
2.43.0


From acb073d1c74267370fc9a6ac7fa212a72e6d74d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 45/53] fix: dropping a tensor released the reference to its
 gradient twice

---
 crates/hodu_core/src/tensor/registry.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/crates/hodu_core/src/tensor/registry.rs b/crates/hodu_core/src/tensor/registry.rs
index 4d5e5e8..6664f23 100644
--- a/crates/hodu_core/src/tensor/registry.rs
+++ b/crates/hodu_core/src/tensor/registry.rs
@@ -1,6 +1,5 @@
 use super::core::{TensorId, Tensor_};
 use dashmap::DashMap;
-use std::sync::atomic::Ordering;
 use std::sync::LazyLock;
 
 static TENSORS: LazyLock<DashMap<TensorId, Tensor_>> = LazyLock::new(|| {
@@ -17,12 +16,8 @@ pub fn exists(tensor_id: TensorId) -> bool {
     TENSORS.contains_key(&tensor_id)
 }
 
+/// Removes a tensor; the reference it holds to its gradient is the caller's to release
 pub(crate) fn remove(tensor_id: TensorId) {
-    if let Some(Some(grad_id)) = with_tensor(tensor_id, |t| t.grad_tensor_id) {
-        with_tensor(grad_id, |t| {
-            t.ref_count.fetch_sub(1, Ordering::Relaxed);
-        });
-    }
     TENSORS.remove(&tensor_id);
 }
 
-- 
2.43.0


From 2278d7bd55fa5878f15b18c46e8355c6d33fca19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 46/53] fix: tensors given up by two threads at once were never
 removed

---
 crates/hodu_core/src/tensor.rs               |  2 +-
 crates/hodu_core/src/tensor/core.rs          | 18 +++++++++---------
 crates/hodu_core/src/tensor/gradient/tape.rs |  5 +----
 3 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/crates/hodu_core/src/tensor.rs b/crates/hodu_core/src/tensor.rs
index 197e3ed..ccb69e0 100644
--- a/crates/hodu_core/src/tensor.rs
+++ b/crates/hodu_core/src/tensor.rs
@@ -12,7 +12,7 @@ pub(crate) mod utils;
 mod vec;
 
 // Re-export core types
-pub(crate) use core::Tensor_;
+pub(crate) use core::{release, Tensor_};
 pub use core::{Tensor, TensorId};
 pub use creation::{get_runtime_device, set_runtime_device};
 pub use gradient::{is_computing_gradients, is_in_optimizer_step, set_optimizer_step_flag, ContextId, GradientContext};
diff --git a/crates/hodu_core/src/tensor/core.rs b/crates/hodu_core/src/tensor/core.rs
index bf06813..04a2afe 100644
--- a/crates/hodu_core/src/tensor/core.rs
+++ b/crates/hodu_core/src/tensor/core.rs
@@ -44,14 +44,17 @@ impl Clone for Tensor {
     }
 }
 
+/// Gives up one reference and returns the count before; of several threads that do so, one sees the last count
+pub(crate) fn release(ref_count: &AtomicUsize) -> usize {
+    ref_count
+        .fetch_update(Ordering::AcqRel, Ordering::Acquire, |count| count.checked_sub(1))
+        .unwrap_or(0)
+}
+
 impl Drop for Tensor {
     fn drop(&mut self) {
         let (should_remove, grad_id) = registry::with_tensor(self.0, |t| {
-            let prev_count = t.ref_count.load(Ordering::Relaxed);
-
-            if prev_count > 0 {
-                t.ref_count.fetch_sub(1, Ordering::Relaxed);
-            }
+            let prev_count = release(&t.ref_count);
 
             let remove = if gradient::is_computing_gradients() {
                 false
@@ -66,10 +69,7 @@ impl Drop for Tensor {
         if should_remove {
             if let Some(grad_id) = grad_id {
                 if let Some(should_remove_grad) = registry::with_tensor(grad_id, |g| {
-                    let prev_count = g.ref_count.load(Ordering::Relaxed);
-                    if prev_count > 0 {
-                        g.ref_count.fetch_sub(1, Ordering::Relaxed);
-                    }
+                    let prev_count = release(&g.ref_count);
                     (prev_count == 1 || prev_count == 0) && g.is_runtime && g.owner_context.is_none()
                 }) {
                     if should_remove_grad {
diff --git a/crates/hodu_core/src/tensor/gradient/tape.rs b/crates/hodu_core/src/tensor/gradient/tape.rs
index 59d2d4b..6ffed86 100644
--- a/crates/hodu_core/src/tensor/gradient/tape.rs
+++ b/crates/hodu_core/src/tensor/gradient/tape.rs
@@ -68,10 +68,7 @@ fn cleanup_context_tensors(context_id: ContextId) {
                 // If this tensor has a gradient, decrement its ref_count and remove if necessary
                 if let Some(grad_id) = grad_id {
                     if let Some(should_remove_grad) = tensor::with_tensor(grad_id, |g| {
-                        let prev_count = g.ref_count.load(Ordering::Relaxed);
-                        if prev_count > 0 {
-                            g.ref_count.fetch_sub(1, Ordering::Relaxed);
-                        }
+                        let prev_count = tensor::release(&g.ref_count);
                         (prev_count == 1 || prev_count == 0)
                             && g.is_runtime
                             && g.owner_context.is_none()
-- 
2.43.0


From 21e59bca5f217b0907b7c6e03c950c69a04c77ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:13 +0000
Subject: [PATCH 47/53] fix: derivatives of det, inv and trace own the
 references they give up

---
 .../hodu_core/src/tensor/gradient/vjp_linalg.rs  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs b/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs
index 17ea7c3..010c113 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs
@@ -2,7 +2,7 @@ use super::VjpCompute;
 use crate::{
     error::HoduResult,
     ops::{LinalgOp, OpParams},
-    tensor::{Tensor, TensorId},
+    tensor::{tensor_from_id, Tensor, TensorId},
 };
 
 impl VjpCompute for LinalgOp {
@@ -25,9 +25,9 @@ impl VjpCompute for LinalgOp {
                 // input A: [..., N, N]
                 // result: [..., N, N]
 
-                let input = Tensor::from_id(inputs[0]);
-                let det_value = Tensor::from_id(output);
-                let grad = Tensor::from_id(grad_output);
+                let input = tensor_from_id(inputs[0]);
+                let det_value = tensor_from_id(output);
+                let grad = tensor_from_id(grad_output);
 
                 // Compute A^{-1}
                 let inv_a = input.inv()?;
@@ -53,8 +53,8 @@ impl VjpCompute for LinalgOp {
                 // Since output = inv(A), we have:
                 // dL/dA = -output^T @ grad_output @ output^T
 
-                let inv_a = Tensor::from_id(output);
-                let grad = Tensor::from_id(grad_output);
+                let inv_a = tensor_from_id(output);
+                let grad = tensor_from_id(grad_output);
 
                 // Transpose the output (inverse): A^{-T}
                 let inv_a_t = inv_a.transpose(-2, -1)?;
@@ -77,8 +77,8 @@ impl VjpCompute for LinalgOp {
                 // input A: [..., N, N]
                 // result: [..., N, N]
 
-                let input = Tensor::from_id(inputs[0]);
-                let grad = Tensor::from_id(grad_output);
+                let input = tensor_from_id(inputs[0]);
+                let grad = tensor_from_id(grad_output);
 
                 // Get the matrix size from input shape
                 let shape = input.shape();
-- 
2.43.0


From a495d25ce91210fcb167becb5a9ce44b5959f762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 48/53] fix: clear the current plugin request however a call
 ends

---
 crates/hodu_plugin_runtime/src/client.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/hodu_plugin_runtime/src/client.rs b/crates/hodu_plugin_runtime/src/client.rs
index dd40e43..a2d9c53 100644
--- a/crates/hodu_plugin_runtime/src/client.rs
+++ b/crates/hodu_plugin_runtime/src/client.rs
@@ -266,10 +266,21 @@ impl PluginClient {
         R: serde::de::DeserializeOwned,
     {
         let id_num = self.next_id.fetch_add(1, Ordering::SeqCst);
-        let id = RequestId::Number(id_num);
 
-        // Track current request ID for cancellation
+        // Track current request ID for cancellation, until the call is over however it ends
         self.current_request_id.store(id_num, Ordering::SeqCst);
+        let result = self.exchange(id_num, method, params);
+        self.current_request_id.store(0, Ordering::SeqCst);
+        result
+    }
+
+    /// Send the request with the given ID and wait for its response
+    fn exchange<P, R>(&mut self, id_num: i64, method: &str, params: Option<P>) -> Result<R, ClientError>
+    where
+        P: serde::Serialize,
+        R: serde::de::DeserializeOwned,
+    {
+        let id = RequestId::Number(id_num);
 
         let params_value = params
             .map(|p| serde_json::to_value(p))
@@ -317,9 +328,6 @@ impl PluginClient {
                 continue; // Keep reading for the actual response
             }
 
-            // It's a response - clear current request ID
-            self.current_request_id.store(0, Ordering::SeqCst);
-
             let response: Response = serde_json::from_str(&line).map_err(|e| ClientError::Parse(e.to_string()))?;
 
             // Verify ID matches
-- 
2.43.0


From 9d9dcf5b513b6fdba4c561e7a0cccaa496291516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 49/53] fix: pass over late replies to earlier plugin requests

---
 crates/hodu_plugin_runtime/src/client.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/hodu_plugin_runtime/src/client.rs b/crates/hodu_plugin_runtime/src/client.rs
index a2d9c53..3a78c5d 100644
--- a/crates/hodu_plugin_runtime/src/client.rs
+++ b/crates/hodu_plugin_runtime/src/client.rs
@@ -332,6 +332,10 @@ impl PluginClient {
 
             // Verify ID matches
             if response.id != id {
+                // An earlier request of ours may be answered late (after a timeout), as may a cancel request
+                if matches!(response.id, RequestId::Number(n) if n > 0 && n < self.next_id.load(Ordering::SeqCst)) {
+                    continue;
+                }
                 return Err(ClientError::IdMismatch);
             }
 
-- 
2.43.0


From 36ad9346adc2d287aa53c34fc289e8687c936b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 50/53] fix: accept a null result from a plugin

---
 crates/hodu_plugin_runtime/src/client.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_plugin_runtime/src/client.rs b/crates/hodu_plugin_runtime/src/client.rs
index 3a78c5d..e7932c6 100644
--- a/crates/hodu_plugin_runtime/src/client.rs
+++ b/crates/hodu_plugin_runtime/src/client.rs
@@ -344,8 +344,12 @@ impl PluginClient {
                 return Err(ClientError::Rpc(error));
             }
 
-            // Parse result
-            let result = response.result.ok_or(ClientError::NoResult)?;
+            // Parse result (null is a result: handlers may have nothing to return)
+            let result = match response.result {
+                Some(result) => result,
+                None if value.get("result").is_some() => serde_json::Value::Null,
+                None => return Err(ClientError::NoResult),
+            };
             return serde_json::from_value(result).map_err(|e| ClientError::Parse(e.to_string()));
         }
     }
-- 
2.43.0


From d559476759a89bc707c4efafd936478c9fc97723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 51/53] fix: end a plugin process that cannot be initialized or
 told to stop

---
 crates/hodu_plugin_runtime/src/backend.rs | 25 ++++++++++++++++++-----
 crates/hodu_plugin_runtime/src/format.rs  | 25 ++++++++++++++++++-----
 hodu-cli/src/plugins/process.rs           | 25 ++++++++++++++++++-----
 3 files changed, 60 insertions(+), 15 deletions(-)

diff --git a/crates/hodu_plugin_runtime/src/backend.rs b/crates/hodu_plugin_runtime/src/backend.rs
index 0826ab9..7a75568 100644
--- a/crates/hodu_plugin_runtime/src/backend.rs
+++ b/crates/hodu_plugin_runtime/src/backend.rs
@@ -117,22 +117,37 @@ impl PluginManager {
             .spawn()
             .map_err(|e| ManagerError::Spawn(e.to_string()))?;
 
-        // Create client
-        let mut client = PluginClient::new(&mut child).map_err(ManagerError::Client)?;
+        match self.connect(&mut child) {
+            Ok((client, info)) => Ok(ManagedPlugin { child, client, info }),
+            Err(e) => {
+                // Do not leave a process behind that nobody will talk to
+                let _ = child.kill();
+                let _ = child.wait();
+                Err(ManagerError::Client(e))
+            },
+        }
+    }
+
+    /// Create a client for a spawned plugin process and initialize it
+    fn connect(&self, child: &mut Child) -> Result<(PluginClient, InitializeResult), ClientError> {
+        let mut client = PluginClient::new(child)?;
 
         // Set timeout
         client.set_timeout(self.timeout);
 
         // Initialize
-        let info = client.initialize().map_err(ManagerError::Client)?;
+        let info = client.initialize()?;
 
-        Ok(ManagedPlugin { child, client, info })
+        Ok((client, info))
     }
 
     /// Shutdown a specific plugin
     pub fn shutdown_plugin(&mut self, name: &str) -> Result<(), ManagerError> {
         if let Some(mut managed) = self.processes.remove(name) {
-            let _ = managed.client.shutdown();
+            if managed.client.shutdown().is_err() {
+                // It was not told to exit, so waiting for it could take forever
+                let _ = managed.child.kill();
+            }
             let _ = managed.child.wait();
         }
         Ok(())
diff --git a/crates/hodu_plugin_runtime/src/format.rs b/crates/hodu_plugin_runtime/src/format.rs
index 37fe072..a3a8b6d 100644
--- a/crates/hodu_plugin_runtime/src/format.rs
+++ b/crates/hodu_plugin_runtime/src/format.rs
@@ -128,22 +128,37 @@ impl PluginManager {
             .spawn()
             .map_err(|e| ManagerError::Spawn(e.to_string()))?;
 
-        // Create client
-        let mut client = PluginClient::new(&mut child).map_err(ManagerError::Client)?;
+        match self.connect(&mut child) {
+            Ok((client, info)) => Ok(ManagedPlugin { child, client, info }),
+            Err(e) => {
+                // Do not leave a process behind that nobody will talk to
+                let _ = child.kill();
+                let _ = child.wait();
+                Err(ManagerError::Client(e))
+            },
+        }
+    }
+
+    /// Create a client for a spawned plugin process and initialize it
+    fn connect(&self, child: &mut Child) -> Result<(PluginClient, InitializeResult), ClientError> {
+        let mut client = PluginClient::new(child)?;
 
         // Set timeout
         client.set_timeout(self.timeout);
 
         // Initialize
-        let info = client.initialize().map_err(ManagerError::Client)?;
+        let info = client.initialize()?;
 
-        Ok(ManagedPlugin { child, client, info })
+        Ok((client, info))
     }
 
     /// Shutdown a specific plugin
     pub fn shutdown_plugin(&mut self, name: &str) -> Result<(), ManagerError> {
         if let Some(mut managed) = self.processes.remove(name) {
-            let _ = managed.client.shutdown();
+            if managed.client.shutdown().is_err() {
+                // It was not told to exit, so waiting for it could take forever
+                let _ = managed.child.kill();
+            }
             let _ = managed.child.wait();
         }
         Ok(())
diff --git a/hodu-cli/src/plugins/process.rs b/hodu-cli/src/plugins/process.rs
index 34811a3..bb2d3de 100644
--- a/hodu-cli/src/plugins/process.rs
+++ b/hodu-cli/src/plugins/process.rs
@@ -132,8 +132,20 @@ impl PluginManager {
             .spawn()
             .map_err(|e| ProcessError::Spawn(e.to_string()))?;
 
-        // Create client
-        let mut client = PluginClient::new(&mut child).map_err(ProcessError::Client)?;
+        match self.connect(&mut child) {
+            Ok((client, info)) => Ok(ManagedPlugin { child, client, info }),
+            Err(e) => {
+                // Do not leave a process behind that nobody will talk to
+                let _ = child.kill();
+                let _ = child.wait();
+                Err(ProcessError::Client(e))
+            },
+        }
+    }
+
+    /// Create a client for a spawned plugin process and initialize it
+    fn connect(&self, child: &mut Child) -> Result<(PluginClient, InitializeResult), ClientError> {
+        let mut client = PluginClient::new(child)?;
 
         // Set timeout
         client.set_timeout(self.timeout);
@@ -142,15 +154,18 @@ impl PluginManager {
         client.set_notification_handler(Box::new(cli_notification_handler));
 
         // Initialize
-        let info = client.initialize().map_err(ProcessError::Client)?;
+        let info = client.initialize()?;
 
-        Ok(ManagedPlugin { child, client, info })
+        Ok((client, info))
     }
 
     /// Shutdown a specific plugin
     pub fn shutdown_plugin(&mut self, name: &str) -> Result<(), ProcessError> {
         if let Some(mut managed) = self.processes.remove(name) {
-            let _ = managed.client.shutdown();
+            if managed.client.shutdown().is_err() {
+                // It was not told to exit, so waiting for it could take forever
+                let _ = managed.child.kill();
+            }
             let _ = managed.child.wait();
         }
         Ok(())
-- 
2.43.0


From b4bfad0b55cd59597e7a4656d089537094158c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 52/53] fix: replace the plugin registry atomically

---
 crates/hodu_plugin_runtime/src/registry.rs | 26 +++++++++++++---------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/crates/hodu_plugin_runtime/src/registry.rs b/crates/hodu_plugin_runtime/src/registry.rs
index 660c4c7..516134b 100644
--- a/crates/hodu_plugin_runtime/src/registry.rs
+++ b/crates/hodu_plugin_runtime/src/registry.rs
@@ -4,6 +4,7 @@ pub use super::types::{DetectedPluginType, PluginEntry, PluginType};
 use fs2::FileExt;
 use serde::{Deserialize, Serialize};
 use std::fs::OpenOptions;
+use std::io::Write;
 use std::path::{Path, PathBuf};
 
 /// Plugin registry stored in ~/.hodu/plugins.json
@@ -49,28 +50,31 @@ impl PluginRegistry {
         Ok(registry)
     }
 
-    /// Save registry to file with exclusive lock
+    /// Save registry to file
     pub fn save(&self, path: &Path) -> Result<(), RegistryError> {
         // Ensure parent directory exists
         if let Some(parent) = path.parent() {
             std::fs::create_dir_all(parent).map_err(|e| RegistryError::Io(e.to_string()))?;
         }
 
-        let file = OpenOptions::new()
+        let content = serde_json::to_string_pretty(self).map_err(|e| RegistryError::Serialize(e.to_string()))?;
+
+        // Write a file of its own and rename it into place, so that whoever reads the registry, and whoever comes
+        // after a crash, finds either the old contents or the new
+        let temp = path.with_extension(format!("json.{}.tmp", std::process::id()));
+        let mut file = OpenOptions::new()
             .write(true)
             .create(true)
             .truncate(true)
-            .open(path)
+            .open(&temp)
             .map_err(|e| RegistryError::Io(e.to_string()))?;
+        let written = file.write_all(content.as_bytes()).and_then(|_| file.sync_all());
+        drop(file);
+        if let Err(e) = written.and_then(|_| std::fs::rename(&temp, path)) {
+            let _ = std::fs::remove_file(&temp);
+            return Err(RegistryError::Io(e.to_string()));
+        }
 
-        // Acquire exclusive lock for writing
-        file.lock_exclusive().map_err(|e| RegistryError::Lock(e.to_string()))?;
-
-        let content = serde_json::to_string_pretty(self).map_err(|e| RegistryError::Serialize(e.to_string()))?;
-
-        std::fs::write(path, content).map_err(|e| RegistryError::Io(e.to_string()))?;
-
-        // Lock released when file is dropped
         Ok(())
     }
 
-- 
2.43.0


From cda6f778393e924a87f4884e36b437f663a47e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 53/53] fix: unregister a plugin before deleting its files

---
 hodu-cli/src/commands/plugin.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hodu-cli/src/commands/plugin.rs b/hodu-cli/src/commands/plugin.rs
index e4d2e6e..861b17f 100644
--- a/hodu-cli/src/commands/plugin.rs
+++ b/hodu-cli/src/commands/plugin.rs
@@ -527,14 +527,14 @@ fn remove_plugin(args: RemoveArgs) -> Result<(), Box<dyn std::error::Error>> {
 
     output::removing(&format!("{} v{}", name, version));
 
+    // Remove from registry first: a registered plugin always has its files
+    registry.remove(&name);
+    registry.save(&registry_path)?;
+
     if plugin_dir.exists() {
         std::fs::remove_dir_all(&plugin_dir)?;
     }
 
-    // Remove from registry
-    registry.remove(&name);
-    registry.save(&registry_path)?;
-
     output::removed(&format!("{} v{}", name, version));
     Ok(())
 }
-- 
2.43.0

