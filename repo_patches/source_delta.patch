From c8acdad72100f6864671816028c1f832916c6871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:59 +0000
Subject: [PATCH 01/36] fix: aitisa_resolve returns STATUS_SUCCESS instead of
 an indeterminate value

---
 src/core/tensor.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/tensor.c b/src/core/tensor.c
index cd86624..38e692b 100644
--- a/src/core/tensor.c
+++ b/src/core/tensor.c
@@ -39,4 +39,5 @@ Status aitisa_resolve(Tensor input, DataType *dtype, Device *device,
   void *data_ = aitisa_tensor_data(input);
   *data = data_;
   *len = aitisa_tensor_size(input) * (*dtype).size;
+  return STATUS_SUCCESS;
 }
-- 
2.43.0


From efc2bb10f4f178c85e3baa509af346e42ace9a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:59 +0000
Subject: [PATCH 02/36] fix: convolution returns STATUS_SUCCESS instead of an
 indeterminate value

---
 src/nn/conv.c | 348 +++++++++++++++++++++++++-------------------------
 1 file changed, 175 insertions(+), 173 deletions(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 4aeaa5d..df24137 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -1,173 +1,175 @@
-#include "src/core/utils.h"
-#include "src/core/allocator.h"
-#include "src/basic/index_utils.h"
-#include "src/nn/conv.h"
-#include <stdio.h>
-
-/*
- * Compute the output dims based on input dims, filter dims and other related
- * configurations such as stride, padding, and dialation.
- */
-static void conv_output_dims(const int64_t *input_dims,
-                             const int64_t *filter_dims, const int *stride,
-                             const int *padding, const int *dilation,
-                             int64_t ndim, int64_t *output_dims) {
-  output_dims[0] = input_dims[0];
-  output_dims[1] = filter_dims[0];
-  for (int64_t d = 2; d < ndim; ++d) {
-    int64_t kernel = dilation[d - 2] * (filter_dims[d] - 1) + 1;
-    output_dims[d] = (input_dims[d] + (2 * padding[d - 2])
-                        - kernel) / stride[d - 2] + 1;
-  }
-}
-
-/* The implementation of convolution for the float data type */
-static Status aitisa_conv_float(const Tensor input, const Tensor filter,
-                                const int *stride, const int *padding,
-                                const int *dilation, const int groups,
-                                Tensor *output_ptr) {
-  int64_t ndim = aitisa_tensor_ndim(input);
-  int64_t *in_dims = aitisa_tensor_dims(input);
-  int64_t *fil_dims = aitisa_tensor_dims(filter);
-  int64_t *out_dims =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * ndim);
-  int64_t *in_coords =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*in_coords) * ndim);
-  int64_t *fil_coords =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*fil_coords) * ndim);
-  int64_t *out_coords =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_coords) * ndim);
-  int64_t *tmp_coords =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*tmp_coords) * ndim);
-  int64_t *in_strides =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*in_strides) * ndim);
-  int64_t *fil_strides =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*fil_strides) * ndim);
-  int64_t *out_strides =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_strides) * ndim);
-
-  conv_output_dims(in_dims, fil_dims, stride, padding, dilation, ndim, out_dims);
-
-  Tensor new_tensor;
-  DataType dtype = aitisa_tensor_data_type(input);
-  Device device = aitisa_tensor_device(input);
-  // LayoutType layout_type = aitisa_tensor_layout_type(input);
-  CHECK_STATUS(
-      aitisa_create(dtype, device, out_dims, ndim, NULL, 0, &new_tensor));
-  *output_ptr = new_tensor;
-
-  aitisa_get_all_strides(input, in_strides);
-  aitisa_get_all_strides(filter, fil_strides);
-  aitisa_get_all_strides(*output_ptr, out_strides);
-
-  float *in_data = aitisa_tensor_data(input);
-  float *fil_data = aitisa_tensor_data(filter);
-  float *out_data = aitisa_tensor_data(*output_ptr);
-
-  int64_t out_space_size = size_from_dim(2, out_dims, ndim);
-  // int64_t in_space_size = size_from_dim(2, in_dims, ndim);
-  int64_t fil_space_size = size_from_dim(2, fil_dims, ndim);
-
-  int64_t nbatch = aitisa_tensor_dim(input, 0);
-  int64_t in_chan = aitisa_tensor_dim(input, 1);
-  int64_t out_chan = aitisa_tensor_dim(*output_ptr, 1);
-  int64_t sdim = ndim - 2;
-
-  for (int64_t b = 0; b < nbatch; ++b) {
-    for (int64_t oc = 0; oc < out_chan; ++oc) {
-      for (int64_t out_idx = 0; out_idx < out_space_size; ++out_idx) {
-        aitisa_linidx_to_coords(*output_ptr, out_idx, out_coords);
-        out_coords[0] = b;
-        out_coords[1] = oc;
-
-        for (int64_t d = 0; d < sdim; ++d) {
-          in_coords[2 + d] = out_coords[2 + d] * stride[d] - padding[d];
-        }
-        in_coords[0] = b;
-
-        float tmp = 0.0;
-        for (int64_t ic = 0; ic < in_chan; ++ic) {
-          in_coords[1] = ic;
-          for (int64_t fil_idx = 0; fil_idx < fil_space_size; ++fil_idx) {
-            aitisa_linidx_to_coords(filter, fil_idx, fil_coords);
-            fil_coords[0] = oc;
-            fil_coords[1] = ic;
-
-            int inside = 1;
-            for (int64_t d = 0; d < sdim && inside; ++d) {
-              tmp_coords[2 + d] =
-                  in_coords[2 + d] + dilation[d] * fil_coords[2 + d];
-              if (tmp_coords[2 + d] < 0 || tmp_coords[2 + d] >= in_dims[2 + d])
-                inside = 0;
-            }
-            tmp_coords[0] = in_coords[0];
-            tmp_coords[1] = in_coords[1];
-
-            if (inside) {
-              int64_t in_offset =
-                  aitisa_coords_to_offset(input, tmp_coords, ndim);
-              int64_t fil_offset =
-                  aitisa_coords_to_offset(filter, fil_coords, ndim);
-              tmp += in_data[in_offset] * fil_data[fil_offset];
-            }
-          }
-          int64_t out_offset =
-              aitisa_coords_to_offset(*output_ptr, out_coords, ndim);
-          out_data[out_offset] = tmp;
-        }
-      }
-    }
-  }
-
-  aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
-  aitisa_default_cpu_allocator()->raw_dealloc(in_coords);
-  aitisa_default_cpu_allocator()->raw_dealloc(fil_coords);
-  aitisa_default_cpu_allocator()->raw_dealloc(out_coords);
-  aitisa_default_cpu_allocator()->raw_dealloc(in_strides);
-  aitisa_default_cpu_allocator()->raw_dealloc(fil_strides);
-  aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
-  aitisa_default_cpu_allocator()->raw_dealloc(tmp_coords);
-}
-
-/*
- * The implementation of the convolution operation. For now, it is only support
- * the float data type.
- */
-Status aitisa_conv(const Tensor input, const Tensor filter, const int *stride,
-                   const int *padding, const int *dilation, const int groups,
-                   Tensor *output_ptr) {
-  DataType dtype = aitisa_tensor_data_type(input);
-  switch (dtype.code) {
-    case TYPE_FLOAT:
-      CHECK_STATUS(aitisa_conv_float(input, filter, stride, padding, dilation,
-                                     groups, output_ptr));
-      break;
-    default:
-      return STATUS_NOT_SUPPORTED;
-  }
-}
-
-Status aitisa_conv2d(const Tensor input, const Tensor filter, const int *stride,
-                     const int stride_len, const int *padding, const int padding_len, 
-                     const int *dilation, const int dilation_len, const int groups,
-                     Tensor *output_ptr) {
-  int64_t ndim = aitisa_tensor_ndim(input);
-  if(ndim != 4){
-    return STATUS_DIMENSIONS_MISMATCH;
-  }
-
-  return aitisa_conv(input, filter, stride, padding, dilation, groups, output_ptr);
-}
-
-Status aitisa_conv3d(const Tensor input, const Tensor filter, const int *stride,
-                     const int stride_len, const int *padding, const int padding_len, 
-                     const int *dilation, const int dilation_len, const int groups,
-                     Tensor *output_ptr) {
-  int64_t ndim = aitisa_tensor_ndim(input);
-  if(ndim != 5){
-    return STATUS_DIMENSIONS_MISMATCH;
-  }
-
-  return aitisa_conv(input, filter, stride, padding, dilation, groups, output_ptr);
-}
-
+#include "src/core/utils.h"
+#include "src/core/allocator.h"
+#include "src/basic/index_utils.h"
+#include "src/nn/conv.h"
+#include <stdio.h>
+
+/*
+ * Compute the output dims based on input dims, filter dims and other related
+ * configurations such as stride, padding, and dialation.
+ */
+static void conv_output_dims(const int64_t *input_dims,
+                             const int64_t *filter_dims, const int *stride,
+                             const int *padding, const int *dilation,
+                             int64_t ndim, int64_t *output_dims) {
+  output_dims[0] = input_dims[0];
+  output_dims[1] = filter_dims[0];
+  for (int64_t d = 2; d < ndim; ++d) {
+    int64_t kernel = dilation[d - 2] * (filter_dims[d] - 1) + 1;
+    output_dims[d] = (input_dims[d] + (2 * padding[d - 2])
+                        - kernel) / stride[d - 2] + 1;
+  }
+}
+
+/* The implementation of convolution for the float data type */
+static Status aitisa_conv_float(const Tensor input, const Tensor filter,
+                                const int *stride, const int *padding,
+                                const int *dilation, const int groups,
+                                Tensor *output_ptr) {
+  int64_t ndim = aitisa_tensor_ndim(input);
+  int64_t *in_dims = aitisa_tensor_dims(input);
+  int64_t *fil_dims = aitisa_tensor_dims(filter);
+  int64_t *out_dims =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * ndim);
+  int64_t *in_coords =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*in_coords) * ndim);
+  int64_t *fil_coords =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*fil_coords) * ndim);
+  int64_t *out_coords =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_coords) * ndim);
+  int64_t *tmp_coords =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*tmp_coords) * ndim);
+  int64_t *in_strides =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*in_strides) * ndim);
+  int64_t *fil_strides =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*fil_strides) * ndim);
+  int64_t *out_strides =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_strides) * ndim);
+
+  conv_output_dims(in_dims, fil_dims, stride, padding, dilation, ndim, out_dims);
+
+  Tensor new_tensor;
+  DataType dtype = aitisa_tensor_data_type(input);
+  Device device = aitisa_tensor_device(input);
+  // LayoutType layout_type = aitisa_tensor_layout_type(input);
+  CHECK_STATUS(
+      aitisa_create(dtype, device, out_dims, ndim, NULL, 0, &new_tensor));
+  *output_ptr = new_tensor;
+
+  aitisa_get_all_strides(input, in_strides);
+  aitisa_get_all_strides(filter, fil_strides);
+  aitisa_get_all_strides(*output_ptr, out_strides);
+
+  float *in_data = aitisa_tensor_data(input);
+  float *fil_data = aitisa_tensor_data(filter);
+  float *out_data = aitisa_tensor_data(*output_ptr);
+
+  int64_t out_space_size = size_from_dim(2, out_dims, ndim);
+  // int64_t in_space_size = size_from_dim(2, in_dims, ndim);
+  int64_t fil_space_size = size_from_dim(2, fil_dims, ndim);
+
+  int64_t nbatch = aitisa_tensor_dim(input, 0);
+  int64_t in_chan = aitisa_tensor_dim(input, 1);
+  int64_t out_chan = aitisa_tensor_dim(*output_ptr, 1);
+  int64_t sdim = ndim - 2;
+
+  for (int64_t b = 0; b < nbatch; ++b) {
+    for (int64_t oc = 0; oc < out_chan; ++oc) {
+      for (int64_t out_idx = 0; out_idx < out_space_size; ++out_idx) {
+        aitisa_linidx_to_coords(*output_ptr, out_idx, out_coords);
+        out_coords[0] = b;
+        out_coords[1] = oc;
+
+        for (int64_t d = 0; d < sdim; ++d) {
+          in_coords[2 + d] = out_coords[2 + d] * stride[d] - padding[d];
+        }
+        in_coords[0] = b;
+
+        float tmp = 0.0;
+        for (int64_t ic = 0; ic < in_chan; ++ic) {
+          in_coords[1] = ic;
+          for (int64_t fil_idx = 0; fil_idx < fil_space_size; ++fil_idx) {
+            aitisa_linidx_to_coords(filter, fil_idx, fil_coords);
+            fil_coords[0] = oc;
+            fil_coords[1] = ic;
+
+            int inside = 1;
+            for (int64_t d = 0; d < sdim && inside; ++d) {
+              tmp_coords[2 + d] =
+                  in_coords[2 + d] + dilation[d] * fil_coords[2 + d];
+              if (tmp_coords[2 + d] < 0 || tmp_coords[2 + d] >= in_dims[2 + d])
+                inside = 0;
+            }
+            tmp_coords[0] = in_coords[0];
+            tmp_coords[1] = in_coords[1];
+
+            if (inside) {
+              int64_t in_offset =
+                  aitisa_coords_to_offset(input, tmp_coords, ndim);
+              int64_t fil_offset =
+                  aitisa_coords_to_offset(filter, fil_coords, ndim);
+              tmp += in_data[in_offset] * fil_data[fil_offset];
+            }
+          }
+          int64_t out_offset =
+              aitisa_coords_to_offset(*output_ptr, out_coords, ndim);
+          out_data[out_offset] = tmp;
+        }
+      }
+    }
+  }
+
+  aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
+  aitisa_default_cpu_allocator()->raw_dealloc(in_coords);
+  aitisa_default_cpu_allocator()->raw_dealloc(fil_coords);
+  aitisa_default_cpu_allocator()->raw_dealloc(out_coords);
+  aitisa_default_cpu_allocator()->raw_dealloc(in_strides);
+  aitisa_default_cpu_allocator()->raw_dealloc(fil_strides);
+  aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
+  aitisa_default_cpu_allocator()->raw_dealloc(tmp_coords);
+  return STATUS_SUCCESS;
+}
+
+/*
+ * The implementation of the convolution operation. For now, it is only support
+ * the float data type.
+ */
+Status aitisa_conv(const Tensor input, const Tensor filter, const int *stride,
+                   const int *padding, const int *dilation, const int groups,
+                   Tensor *output_ptr) {
+  DataType dtype = aitisa_tensor_data_type(input);
+  switch (dtype.code) {
+    case TYPE_FLOAT:
+      CHECK_STATUS(aitisa_conv_float(input, filter, stride, padding, dilation,
+                                     groups, output_ptr));
+      break;
+    default:
+      return STATUS_NOT_SUPPORTED;
+  }
+  return STATUS_SUCCESS;
+}
+
+Status aitisa_conv2d(const Tensor input, const Tensor filter, const int *stride,
+                     const int stride_len, const int *padding, const int padding_len, 
+                     const int *dilation, const int dilation_len, const int groups,
+                     Tensor *output_ptr) {
+  int64_t ndim = aitisa_tensor_ndim(input);
+  if(ndim != 4){
+    return STATUS_DIMENSIONS_MISMATCH;
+  }
+
+  return aitisa_conv(input, filter, stride, padding, dilation, groups, output_ptr);
+}
+
+Status aitisa_conv3d(const Tensor input, const Tensor filter, const int *stride,
+                     const int stride_len, const int *padding, const int padding_len, 
+                     const int *dilation, const int dilation_len, const int groups,
+                     Tensor *output_ptr) {
+  int64_t ndim = aitisa_tensor_ndim(input);
+  if(ndim != 5){
+    return STATUS_DIMENSIONS_MISMATCH;
+  }
+
+  return aitisa_conv(input, filter, stride, padding, dilation, groups, output_ptr);
+}
+
-- 
2.43.0


From 8bbdd88b060ff7cd1be798603f682549611228aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:59 +0000
Subject: [PATCH 03/36] fix: casting to the tensor's own type produces an
 output tensor

---
 src/basic/cast.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/basic/cast.c b/src/basic/cast.c
index 3811ebf..7604ce1 100644
--- a/src/basic/cast.c
+++ b/src/basic/cast.c
@@ -72,12 +72,6 @@ static Status cast_template(const Tensor input, DataType out_dtype,
 }
 
 Status aitisa_cast(const Tensor input, DataType dtype, Tensor *output) {
-  // If the DataType of input and the DataType to cast to are identical,
-  // then do nothing.
-  DataType in_dtype = aitisa_tensor_data_type(input);
-  if (in_dtype.code == dtype.code) {
-    return STATUS_SUCCESS;
-  }
   // Create output
   Tensor new_tensor;
   Device device = aitisa_tensor_device(input);
-- 
2.43.0


From 85067329c62f5e676d1bcb56500739b78e23dfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:59 +0000
Subject: [PATCH 04/36] fix: slice rejects ranges whose end overflows int

---
 src/basic/slice.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/slice.c b/src/basic/slice.c
index f2a4ac5..e24dcc4 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -53,7 +53,7 @@ static Status slice_check_parameters(const Tensor input, int *begin, int *size,
   int64_t *in_dims = aitisa_tensor_dims(input);
   for (int i = 0; i < in_ndim; i++) {
     bool cond_begin = begin[i] < 0 || begin[i] >= in_dims[i];
-    bool cond_size  = size[i] < 0  || begin[i] + size[i] > in_dims[i];
+    bool cond_size  = size[i] < 0  || size[i] > in_dims[i] - begin[i];
     bool cond_step  = step[i] < 1;
     if (cond_begin || cond_size || cond_step) {
       return STATUS_INVALID_ARGUMENT;
-- 
2.43.0


From 74d04a6ab7910144588efd8ae98d1a4ec05506e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:59 +0000
Subject: [PATCH 05/36] fix: slicing a scalar no longer writes before its
 scratch array

---
 src/basic/slice.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/slice.c b/src/basic/slice.c
index e24dcc4..921d4c3 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -108,7 +108,7 @@ static Status slice_template(const Tensor input, int *begin, int *size,
     index_recorder[i] = begin[i];
     boundary[i] = (int64_t)begin[i] + (int64_t)size[i] - 1;
   }
-  offset_recorder[in_ndim - 1] = 1;
+  if (in_ndim > 0) offset_recorder[in_ndim - 1] = 1;
   for (int i = in_ndim - 2; i >= 0; i--) {
     offset_recorder[i] = offset_recorder[i + 1] * in_dims[i + 1];
   }
-- 
2.43.0


From 17057cebe15005e1cf2db9083cdb455f7bd88110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:59 +0000
Subject: [PATCH 06/36] fix: squeeze rejects axes beyond the tensor's rank

---
 src/basic/squeeze.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/squeeze.c b/src/basic/squeeze.c
index 29b430b..5214c03 100644
--- a/src/basic/squeeze.c
+++ b/src/basic/squeeze.c
@@ -10,7 +10,7 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   if (num_axis < 0) return STATUS_INVALID_ARGUMENT;
   if (num_axis > 0) {
     for (int64_t i = 0; i < num_axis; i++) {
-      if (axis[i] < 0) {
+      if (axis[i] < 0 || axis[i] >= in_ndim) {
         return STATUS_INVALID_ARGUMENT;
       }
     }
-- 
2.43.0


From d8a764f49cac18adf16a56807978c63e4a4fdd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:59 +0000
Subject: [PATCH 07/36] fix: squeeze counts an axis that is listed twice only
 once

---
 src/basic/squeeze.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/squeeze.c b/src/basic/squeeze.c
index 5214c03..a365f25 100644
--- a/src/basic/squeeze.c
+++ b/src/basic/squeeze.c
@@ -33,7 +33,7 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
     }
   } else if (num_axis > 0) {
     for (int64_t i = 0; i < num_axis; i++) {
-      if (in_dims[axis[i]] == 1) {
+      if (processed_in_dims[axis[i]] == 1) {
         processed_in_dims[axis[i]] = 0;
         out_ndim--;
       }
-- 
2.43.0


From 2010c4d0812caf667d7a4efa0327285ab29c0b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:59 +0000
Subject: [PATCH 08/36] fix: squeeze keeps dimensions of size zero

---
 src/basic/squeeze.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/basic/squeeze.c b/src/basic/squeeze.c
index a365f25..d9e442f 100644
--- a/src/basic/squeeze.c
+++ b/src/basic/squeeze.c
@@ -27,14 +27,14 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   if (num_axis == 0) {
     for (int64_t i = 0; i < in_ndim; i++) {
       if (in_dims[i] == 1) {
-        processed_in_dims[i] = 0;
+        processed_in_dims[i] = -1;
         out_ndim--;
       }
     }
   } else if (num_axis > 0) {
     for (int64_t i = 0; i < num_axis; i++) {
       if (processed_in_dims[axis[i]] == 1) {
-        processed_in_dims[axis[i]] = 0;
+        processed_in_dims[axis[i]] = -1;
         out_ndim--;
       }
     }
@@ -46,7 +46,7 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   if (!out_dims) return STATUS_ALLOC_FAILED;
   int64_t j = 0;
   for (int64_t i = 0; i < in_ndim; i++) {
-    if (processed_in_dims[i] != 0) {
+    if (processed_in_dims[i] != -1) {
       out_dims[j++] = processed_in_dims[i];
     }
   }
-- 
2.43.0


From 93bdbef635463d4fbfc868a7a032f739a7a0ae87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:59 +0000
Subject: [PATCH 09/36] fix: broadcasting a dimension of 1 against 0 yields 0

---
 src/basic/broadcast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/broadcast.c b/src/basic/broadcast.c
index 9499cca..739b528 100644
--- a/src/basic/broadcast.c
+++ b/src/basic/broadcast.c
@@ -12,7 +12,7 @@ Status aitisa_broadcast_array(int64_t* dims_in1, int64_t ndim_in1,
     int64_t d_in2 = dims_in2[ndim_in2 - i - 1];
     bool match = d_in1 == 1 || d_in2 == 1 || d_in1 == d_in2;
     if (match) {
-      dims_out[ndim_out - i - 1] = d_in1 > d_in2 ? d_in1 : d_in2;
+      dims_out[ndim_out - i - 1] = d_in1 == 1 ? d_in2 : d_in1;
       i++;
     } else {
       return STATUS_DIMENSIONS_MISMATCH;
-- 
2.43.0


From 4e40edc18ecde3df279dd4fe23de67eb1a9c506b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:59 +0000
Subject: [PATCH 10/36] fix: dropout rejects a NaN rate

---
 src/nn/dropout.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nn/dropout.c b/src/nn/dropout.c
index 1eea647..ea977a1 100644
--- a/src/nn/dropout.c
+++ b/src/nn/dropout.c
@@ -25,7 +25,7 @@ static Status dropout_template(Tensor *tensor, const double rate) {
 
 Status aitisa_dropout(const Tensor input, const double rate, Tensor *output) {
   // Check if rate satisfy 0 <= rate <= 1
-  if (rate < 0 || rate > 1) {
+  if (!(rate >= 0 && rate <= 1)) {
     return STATUS_INVALID_ARGUMENT;
   }
   // Copy input
-- 
2.43.0


From 443e6f0cca977ad65dbf2dbfa93c84cd9af92e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:59 +0000
Subject: [PATCH 11/36] fix: tanh saturates instead of returning NaN for large
 inputs

---
 src/nn/tanh.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nn/tanh.c b/src/nn/tanh.c
index fb228ce..c3f1eda 100644
--- a/src/nn/tanh.c
+++ b/src/nn/tanh.c
@@ -6,8 +6,7 @@
   typename *in_data = aitisa_tensor_data(input);                    \
   typename *out_data = aitisa_tensor_data(*output);                 \
   for (int64_t i = 0; i < size; i++) {                              \
-    out_data[i] = (typename)((exp(in_data[i]) - exp(-in_data[i]))   \
-                / (exp(in_data[i]) + exp(-in_data[i])));            \
+    out_data[i] = (typename)tanh(in_data[i]);                       \
   }
 
 Status aitisa_tanh(const Tensor input, Tensor *output) {
-- 
2.43.0


From d69fde7ec0ee3e46cd316c93b751d21e05328f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:26 +0000
Subject: [PATCH 12/36] fix: creating a tensor with a wrong data length no
 longer leaks

---
 src/core/tensor.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/tensor.c b/src/core/tensor.c
index 38e692b..fc2298b 100644
--- a/src/core/tensor.c
+++ b/src/core/tensor.c
@@ -11,7 +11,10 @@ Status aitisa_create(DataType dtype, Device device, int64_t *dims, int64_t ndim,
   tensor->size = size_of_dims(dims, ndim);
   tensor->offset = 0;
   if(data){
-    if(len/dtype.size != tensor->size) return STATUS_INVALID_ARGUMENT;
+    if(len/dtype.size != tensor->size){
+      aitisa_default_cpu_allocator()->raw_dealloc(tensor);
+      return STATUS_INVALID_ARGUMENT;
+    }
   }
   CHECK_STATUS(aitisa_create_shape(LAYOUT_DENSE, dims, ndim, &tensor->shape));
   CHECK_STATUS(
-- 
2.43.0


From 64c906cfee6b17c5136fe2478be1c27cbee1caf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:26 +0000
Subject: [PATCH 13/36] fix: tensor creation releases its parts when an
 allocation fails

---
 src/core/shape.c   |  9 +++++++--
 src/core/storage.c |  5 ++++-
 src/core/tensor.c  | 15 ++++++++++++---
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/core/shape.c b/src/core/shape.c
index f822616..aaadd22 100644
--- a/src/core/shape.c
+++ b/src/core/shape.c
@@ -41,8 +41,13 @@ Status aitisa_create_shape(LayoutType layout_type, int64_t *dims, int64_t ndim,
   for (int64_t i = 0; i < ndim; ++i) {
     shape->dims[i] = dims[i];
   }
-  CHECK_STATUS(aitisa_create_default_layout(layout_type, ndim, &shape->layout));
-  return STATUS_SUCCESS;
+  Status status =
+      aitisa_create_default_layout(layout_type, ndim, &shape->layout);
+  if(status != STATUS_SUCCESS && shape->dims){
+    aitisa_default_cpu_allocator()->raw_dealloc(shape->dims);
+    shape->dims = NULL;
+  }
+  return status;
 }
 
 Status aitisa_destroy_shape(Shape *shape){
diff --git a/src/core/storage.c b/src/core/storage.c
index c5e68d3..e2dd13b 100644
--- a/src/core/storage.c
+++ b/src/core/storage.c
@@ -17,7 +17,10 @@ Status aitisa_create_storage(DataType dtype, Device device, int64_t size,
     new_storage->data =
       aitisa_default_cpu_allocator()->raw_alloc(
           dtype.size * size);
-    if (!new_storage->data) return STATUS_ALLOC_FAILED;
+    if (!new_storage->data) {
+      aitisa_default_cpu_allocator()->raw_dealloc(new_storage);
+      return STATUS_ALLOC_FAILED;
+    }
   }
   *storage = new_storage;
   return STATUS_SUCCESS;
diff --git a/src/core/tensor.c b/src/core/tensor.c
index fc2298b..5d1655e 100644
--- a/src/core/tensor.c
+++ b/src/core/tensor.c
@@ -16,9 +16,18 @@ Status aitisa_create(DataType dtype, Device device, int64_t *dims, int64_t ndim,
       return STATUS_INVALID_ARGUMENT;
     }
   }
-  CHECK_STATUS(aitisa_create_shape(LAYOUT_DENSE, dims, ndim, &tensor->shape));
-  CHECK_STATUS(
-      aitisa_create_storage(dtype, device, tensor->size, data, &tensor->storage));
+  Status status = aitisa_create_shape(LAYOUT_DENSE, dims, ndim, &tensor->shape);
+  if(status != STATUS_SUCCESS){
+    aitisa_default_cpu_allocator()->raw_dealloc(tensor);
+    return status;
+  }
+  status =
+      aitisa_create_storage(dtype, device, tensor->size, data, &tensor->storage);
+  if(status != STATUS_SUCCESS){
+    aitisa_destroy_shape(&tensor->shape);
+    aitisa_default_cpu_allocator()->raw_dealloc(tensor);
+    return status;
+  }
   *output = tensor;
   return STATUS_SUCCESS;
 }
-- 
2.43.0


From ebd462ab4b2ab5c5614839c6558b5e5b2ee8096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:26 +0000
Subject: [PATCH 14/36] fix: slice reports a failed allocation without
 publishing garbage or leaking

---
 src/basic/slice.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/basic/slice.c b/src/basic/slice.c
index 921d4c3..4838be5 100644
--- a/src/basic/slice.c
+++ b/src/basic/slice.c
@@ -24,6 +24,10 @@ static Status slice_create_output(const Tensor input, int *begin, int *size,
   }
   int64_t *out_dims =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * out_ndim);
+  if (!out_dims) {
+    aitisa_default_cpu_allocator()->raw_dealloc(out_dims_temp);
+    return STATUS_ALLOC_FAILED;
+  }
   int last_idx = 0;
   for (int i = 0; i < in_ndim; i++) {
     if (out_dims_temp[i] > 0) {
@@ -40,7 +44,9 @@ static Status slice_create_output(const Tensor input, int *begin, int *size,
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
   status = aitisa_create(dtype, device, out_dims, out_ndim,
                          NULL, 0, &new_tensor);
-  *output = new_tensor;
+  if (status == STATUS_SUCCESS) {
+    *output = new_tensor;
+  }
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
   
@@ -102,6 +108,10 @@ static Status slice_template(const Tensor input, int *begin, int *size,
   int64_t *offset_recorder = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*offset_recorder) * in_ndim);
   if (!index_recorder || !boundary || !offset_recorder) {
+    aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
+    aitisa_default_cpu_allocator()->raw_dealloc(boundary);
+    aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
+    aitisa_destroy(output);
     return STATUS_ALLOC_FAILED;
   }
   for (int i = 0; i < in_ndim; i++) {
-- 
2.43.0


From 313951f37d174f08c408ad232258f47729481314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:26 +0000
Subject: [PATCH 15/36] fix: duplicate and squeeze release scratch memory when
 an allocation fails

---
 src/basic/duplicate.c | 3 +++
 src/basic/squeeze.c   | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/basic/duplicate.c b/src/basic/duplicate.c
index 114b248..b94894a 100644
--- a/src/basic/duplicate.c
+++ b/src/basic/duplicate.c
@@ -10,6 +10,9 @@ Status aitisa_duplicate(const Tensor input, Tensor *output) {
   int *size = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size) * ndim);
   int *step = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim);
   if (!begin || !size || !step) {
+    aitisa_default_cpu_allocator()->raw_dealloc(begin);
+    aitisa_default_cpu_allocator()->raw_dealloc(size);
+    aitisa_default_cpu_allocator()->raw_dealloc(step);
     return STATUS_ALLOC_FAILED;
   }
   for (int64_t i = 0; i < ndim; i++) {
diff --git a/src/basic/squeeze.c b/src/basic/squeeze.c
index d9e442f..6e7759b 100644
--- a/src/basic/squeeze.c
+++ b/src/basic/squeeze.c
@@ -43,7 +43,10 @@ Status aitisa_squeeze(const Tensor input, int64_t *axis, int64_t num_axis,
   // Create dims and ndim of output
   int64_t *out_dims =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * out_ndim);
-  if (!out_dims) return STATUS_ALLOC_FAILED;
+  if (!out_dims) {
+    aitisa_default_cpu_allocator()->raw_dealloc(processed_in_dims);
+    return STATUS_ALLOC_FAILED;
+  }
   int64_t j = 0;
   for (int64_t i = 0; i < in_ndim; i++) {
     if (processed_in_dims[i] != -1) {
-- 
2.43.0


From af271b0532057f1dc6a0737695d362f6844939bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:51 +0000
Subject: [PATCH 16/36] fix: matmul rejects operands of different data types

---
 src/math/matmul.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/matmul.c b/src/math/matmul.c
index 28af743..8fb746d 100644
--- a/src/math/matmul.c
+++ b/src/math/matmul.c
@@ -92,6 +92,10 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
       aitisa_tensor_device(tensor2).type != DEVICE_CPU) {
     return STATUS_NOT_SUPPORTED;
   }
+  if (aitisa_tensor_data_type(tensor1).code !=
+      aitisa_tensor_data_type(tensor2).code) {
+    return STATUS_TYPE_MISMATCH;
+  }
   int64_t ndim_tensor1 = aitisa_tensor_ndim(tensor1);
   int64_t ndim_tensor2 = aitisa_tensor_ndim(tensor2);
   Status status = STATUS_SUCCESS;
-- 
2.43.0


From dcf43d04f90902107569d37f4aa8b98cd377998e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:51 +0000
Subject: [PATCH 17/36] fix: matmul releases its scratch dims when the batch
 dims do not broadcast

---
 src/math/matmul.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/math/matmul.c b/src/math/matmul.c
index 8fb746d..af9d6c5 100644
--- a/src/math/matmul.c
+++ b/src/math/matmul.c
@@ -288,10 +288,14 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     int64_t ndim_out = max_int64_(ndim_tensor1, ndim_tensor2);
     int64_t *dims_out =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(int64_t) * ndim_out);
-    CHECK_STATUS(aitisa_broadcast_array(
+    status = aitisa_broadcast_array(
         aitisa_tensor_dims(tensor1), max_int64_(ndim_tensor1 - 2, 0),
         aitisa_tensor_dims(tensor2), max_int64_(ndim_tensor2 - 2, 0), dims_out,
-        ndim_out - 2));
+        ndim_out - 2);
+    if (status != STATUS_SUCCESS) {
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      return status;
+    }
     dims_out[ndim_out - 2] = dim0_tensor1;
     dims_out[ndim_out - 1] = dim1_tensor2;
     CHECK_STATUS(aitisa_full(aitisa_tensor_data_type(tensor1),
-- 
2.43.0


From 96f4748cdfcd8871d44206a679bc113936c05df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:51 +0000
Subject: [PATCH 18/36] fix: batched matmul reports failed allocations instead
 of crashing

---
 src/math/matmul.c | 62 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 9 deletions(-)

diff --git a/src/math/matmul.c b/src/math/matmul.c
index af9d6c5..9b85745 100644
--- a/src/math/matmul.c
+++ b/src/math/matmul.c
@@ -190,12 +190,17 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     int64_t ndim_out = ndim_tensor1 - 1;
     int64_t *dims_out =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(int64_t) * ndim_out);
+    if (!dims_out) return STATUS_ALLOC_FAILED;
     for (int64_t i = 0; i < ndim_out; ++i) {
       dims_out[i] = aitisa_tensor_dim(tensor1, i);
     }
-    CHECK_STATUS(aitisa_full(aitisa_tensor_data_type(tensor1),
-                             aitisa_tensor_device(tensor1), dims_out, ndim_out,
-                             0.0, output));
+    status = aitisa_full(aitisa_tensor_data_type(tensor1),
+                         aitisa_tensor_device(tensor1), dims_out, ndim_out,
+                         0.0, output);
+    if (status != STATUS_SUCCESS) {
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      return status;
+    }
     // data_ptr of batches
     int64_t n_batch = size_to_dim(ndim_tensor1 - 2, aitisa_tensor_dims(tensor1),
                                   ndim_tensor1);
@@ -205,6 +210,13 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
     void **Cs =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
+    if (!As || !Bs || !Cs) {
+      aitisa_default_cpu_allocator()->raw_dealloc(Cs);
+      aitisa_default_cpu_allocator()->raw_dealloc(Bs);
+      aitisa_default_cpu_allocator()->raw_dealloc(As);
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      return STATUS_ALLOC_FAILED;
+    }
     void *data_tensor1 = aitisa_tensor_data(tensor1);
     void *data_tensor2 = aitisa_tensor_data(tensor2);
     void *data_output = aitisa_tensor_data(*output);
@@ -238,13 +250,18 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     int64_t ndim_out = ndim_tensor2 - 1;
     int64_t *dims_out =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(int64_t) * ndim_out);
+    if (!dims_out) return STATUS_ALLOC_FAILED;
     for (int64_t i = 0; i < ndim_out - 1; ++i) {
       dims_out[i] = aitisa_tensor_dim(tensor2, i);
     }
     dims_out[ndim_out - 1] = aitisa_tensor_dim(tensor2, ndim_tensor2 - 1);
-    CHECK_STATUS(aitisa_full(aitisa_tensor_data_type(tensor1),
-                             aitisa_tensor_device(tensor1), dims_out, ndim_out,
-                             0.0, output));
+    status = aitisa_full(aitisa_tensor_data_type(tensor1),
+                         aitisa_tensor_device(tensor1), dims_out, ndim_out,
+                         0.0, output);
+    if (status != STATUS_SUCCESS) {
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      return status;
+    }
     // data_ptr of batches
     int64_t n_batch = size_to_dim(ndim_tensor2 - 2, aitisa_tensor_dims(tensor2),
                                   ndim_tensor2);
@@ -254,6 +271,13 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
     void **Cs =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
+    if (!As || !Bs || !Cs) {
+      aitisa_default_cpu_allocator()->raw_dealloc(Cs);
+      aitisa_default_cpu_allocator()->raw_dealloc(Bs);
+      aitisa_default_cpu_allocator()->raw_dealloc(As);
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      return STATUS_ALLOC_FAILED;
+    }
     void *data_tensor1 = aitisa_tensor_data(tensor1);
     void *data_tensor2 = aitisa_tensor_data(tensor2);
     void *data_output = aitisa_tensor_data(*output);
@@ -288,6 +312,7 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     int64_t ndim_out = max_int64_(ndim_tensor1, ndim_tensor2);
     int64_t *dims_out =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(int64_t) * ndim_out);
+    if (!dims_out) return STATUS_ALLOC_FAILED;
     status = aitisa_broadcast_array(
         aitisa_tensor_dims(tensor1), max_int64_(ndim_tensor1 - 2, 0),
         aitisa_tensor_dims(tensor2), max_int64_(ndim_tensor2 - 2, 0), dims_out,
@@ -298,15 +323,25 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
     }
     dims_out[ndim_out - 2] = dim0_tensor1;
     dims_out[ndim_out - 1] = dim1_tensor2;
-    CHECK_STATUS(aitisa_full(aitisa_tensor_data_type(tensor1),
-                             aitisa_tensor_device(tensor1), dims_out, ndim_out,
-                             0.0, output));
+    status = aitisa_full(aitisa_tensor_data_type(tensor1),
+                         aitisa_tensor_device(tensor1), dims_out, ndim_out,
+                         0.0, output);
+    if (status != STATUS_SUCCESS) {
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      return status;
+    }
     // strides of batches
     int64_t ndim_batch = ndim_out - 2;
     int64_t *strides_t1 = aitisa_default_cpu_allocator()->raw_alloc(
         sizeof(int64_t) * (ndim_batch));
     int64_t *strides_t2 = aitisa_default_cpu_allocator()->raw_alloc(
         sizeof(int64_t) * (ndim_batch));
+    if (!strides_t1 || !strides_t2) {
+      aitisa_default_cpu_allocator()->raw_dealloc(strides_t2);
+      aitisa_default_cpu_allocator()->raw_dealloc(strides_t1);
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      return STATUS_ALLOC_FAILED;
+    }
     batch_strides(aitisa_tensor_dims(tensor1), ndim_tensor1 - 2, strides_t1,
                   ndim_batch);
     batch_strides(aitisa_tensor_dims(tensor2), ndim_tensor2 - 2, strides_t2,
@@ -319,6 +354,15 @@ Status aitisa_matmul(const Tensor tensor1, const Tensor tensor2,
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
     void **Cs =
         aitisa_default_cpu_allocator()->raw_alloc(sizeof(void *) * n_batch);
+    if (!As || !Bs || !Cs) {
+      aitisa_default_cpu_allocator()->raw_dealloc(Cs);
+      aitisa_default_cpu_allocator()->raw_dealloc(Bs);
+      aitisa_default_cpu_allocator()->raw_dealloc(As);
+      aitisa_default_cpu_allocator()->raw_dealloc(strides_t2);
+      aitisa_default_cpu_allocator()->raw_dealloc(strides_t1);
+      aitisa_default_cpu_allocator()->raw_dealloc(dims_out);
+      return STATUS_ALLOC_FAILED;
+    }
     void *data_tensor1 = aitisa_tensor_data(tensor1);
     void *data_tensor2 = aitisa_tensor_data(tensor2);
     void *data_output = aitisa_tensor_data(*output);
-- 
2.43.0


From 2db641e9fd57e1b217f550e5b9c266178b6b09c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:34 +0000
Subject: [PATCH 19/36] fix: element-wise arithmetic reports failed scratch
 allocations instead of crashing

---
 src/math/binary_op.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/math/binary_op.c b/src/math/binary_op.c
index d58d6db..b110f2d 100644
--- a/src/math/binary_op.c
+++ b/src/math/binary_op.c
@@ -235,6 +235,13 @@ Status aitisa_add(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   DataType dtype = aitisa_tensor_data_type(tensor1);
   void *a = malloc(dtype.size), *b = malloc(dtype.size),
        *c = malloc(dtype.size);
+  if (!a || !b || !c) {
+    free(a);
+    free(b);
+    free(c);
+    aitisa_destroy(output);
+    return STATUS_ALLOC_FAILED;
+  }
   for (int i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
@@ -281,6 +288,13 @@ Status aitisa_sub(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   DataType dtype = aitisa_tensor_data_type(tensor1);
   void *a = malloc(dtype.size), *b = malloc(dtype.size),
        *c = malloc(dtype.size);
+  if (!a || !b || !c) {
+    free(a);
+    free(b);
+    free(c);
+    aitisa_destroy(output);
+    return STATUS_ALLOC_FAILED;
+  }
   for (int i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
@@ -327,6 +341,13 @@ Status aitisa_mul(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   DataType dtype = aitisa_tensor_data_type(tensor1);
   void *a = malloc(dtype.size), *b = malloc(dtype.size),
        *c = malloc(dtype.size);
+  if (!a || !b || !c) {
+    free(a);
+    free(b);
+    free(c);
+    aitisa_destroy(output);
+    return STATUS_ALLOC_FAILED;
+  }
   for (int i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
@@ -373,6 +394,13 @@ Status aitisa_div(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
   DataType dtype = aitisa_tensor_data_type(tensor1);
   void *a = malloc(dtype.size), *b = malloc(dtype.size),
        *c = malloc(dtype.size);
+  if (!a || !b || !c) {
+    free(a);
+    free(b);
+    free(c);
+    aitisa_destroy(output);
+    return STATUS_ALLOC_FAILED;
+  }
   for (int i = 0; i < size; i++) {
     aitisa_get_typed_array_value_func(dtype)(data_tensor1, i, a);
     aitisa_get_typed_array_value_func(dtype)(data_tensor2, i, b);
-- 
2.43.0


From bd1da27d447fcb513758c44820e9919dc725aea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:34 +0000
Subject: [PATCH 20/36] fix: dot with a 64-bit integer scalar keeps every bit
 of the scalar

---
 src/math/dot.c | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/math/dot.c b/src/math/dot.c
index d9c4369..901a41f 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -22,16 +22,6 @@ static Status dot_template(DataType dtype, void *data1, void *data2,
   return status;
 }
 
-#define dot_get_value_kernel(typename, tensor, idx, value)      \
-  typename val = ((typename *)aitisa_tensor_data(tensor))[idx]; \
-  *value = (double)val;
-
-static Status dot_get_value(const Tensor tensor, int idx, double *value) {
-  DataType dtype = aitisa_tensor_data_type(tensor);
-  AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, dot_get_value_kernel, tensor, idx, value);
-  return STATUS_SUCCESS;
-}
-
 static Status scalar_tensor_mul(const Tensor tensor1, const Tensor tensor2,
                                 Tensor *output) {
   int64_t tensor1_ndim = aitisa_tensor_ndim(tensor1);
@@ -39,21 +29,24 @@ static Status scalar_tensor_mul(const Tensor tensor1, const Tensor tensor2,
   // Create a new tensor full of the scalar value
   int64_t out_ndim;
   int64_t *out_dims = NULL;
-  double value;
+  void *value;
   Tensor new_tensor;
   DataType dtype = aitisa_tensor_data_type(tensor1);
   Device device = aitisa_tensor_device(tensor1);
   if (tensor1_ndim > ndim_tensor2) {
     out_ndim = tensor1_ndim;
     out_dims = aitisa_tensor_dims(tensor1);
-    CHECK_STATUS(dot_get_value(tensor2, 0, &value));
+    value = aitisa_tensor_data(tensor2);
   } else {
     out_ndim = ndim_tensor2;
     out_dims = aitisa_tensor_dims(tensor2);
-    CHECK_STATUS(dot_get_value(tensor1, 0, &value));
+    value = aitisa_tensor_data(tensor1);
   }
   CHECK_STATUS(
-      aitisa_full(dtype, device, out_dims, out_ndim, value, &new_tensor));
+      aitisa_create(dtype, device, out_dims, out_ndim, NULL, 0, &new_tensor));
+  for (int64_t i = 0; i < aitisa_tensor_size(new_tensor); i++) {
+    aitisa_tensor_set_item(new_tensor, i, value);
+  }
   // Implement tensor multiplication
   Status status;
   if (tensor1_ndim > ndim_tensor2) {
-- 
2.43.0


From 8ed0132113b052320dff9bfed820b5c37cc7c1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:34 +0000
Subject: [PATCH 21/36] fix: dot over an empty contracted dimension yields
 zeros instead of dividing by zero

---
 src/math/dot.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/math/dot.c b/src/math/dot.c
index 901a41f..c298e2d 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -106,11 +106,13 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   DataType dtype = aitisa_tensor_data_type(tensor1);
   Device device = aitisa_tensor_device(tensor1);
   // LayoutType layout_type = aitisa_tensor_layout_type(tensor1);
-  CHECK_STATUS(aitisa_create(dtype, device, out_dims, out_ndim,
-                             NULL, 0, &new_tensor));
+  CHECK_STATUS(
+      aitisa_full(dtype, device, out_dims, out_ndim, 0.0, &new_tensor));
   *output = new_tensor;
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
+  // An empty contraction leaves every element zero
+  if (tensor1_dims[ndim_tensor1 - 1] == 0) return STATUS_SUCCESS;
   // Make an index recorder of vectors in tensor1 then initialize it
   int *index_recorder = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*index_recorder) * ndim_tensor1);
@@ -195,11 +197,13 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
   DataType dtype = aitisa_tensor_data_type(tensor1);
   Device device = aitisa_tensor_device(tensor1);
   LayoutType layout_type = aitisa_tensor_layout_type(tensor1);
-  CHECK_STATUS(aitisa_create(dtype, device, out_dims, out_ndim,
-                             NULL, 0, &new_tensor));
+  CHECK_STATUS(
+      aitisa_full(dtype, device, out_dims, out_ndim, 0.0, &new_tensor));
   *output = new_tensor;
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
+  // An empty contraction leaves every element zero
+  if (tensor1_dims[ndim_tensor1 - 1] == 0) return STATUS_SUCCESS;
   // Make index recorders of vectors in tensor1 and tensor2 then initialize them
   int *index_recorder_t1 = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*index_recorder_t1) * ndim_tensor1);
-- 
2.43.0


From c19ad8ab1632c0bc9b241c9ce782c98c2f393be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:34 +0000
Subject: [PATCH 22/36] fix: softmax shifts by the maximum so that large inputs
 do not overflow to NaN

---
 src/nn/softmax.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/nn/softmax.c b/src/nn/softmax.c
index 0043a1a..e47c506 100644
--- a/src/nn/softmax.c
+++ b/src/nn/softmax.c
@@ -23,8 +23,13 @@ static Status softmax_create_output(const Tensor input, Tensor *output){
   /*calculate exp(in_data) and temporarily save them in out_data*/    \
   int64_t size = aitisa_tensor_size(input);                           \
   double total = 0;                                                   \
+  /*shift by the largest element so that exp() cannot overflow*/      \
+  typename max = 0;                                                   \
   for(int64_t i=0; i<size; i++){                                      \
-    out_data[i] = (typename)exp(in_data[i]);                          \
+    if(i == 0 || in_data[i] > max) max = in_data[i];                  \
+  }                                                                   \
+  for(int64_t i=0; i<size; i++){                                      \
+    out_data[i] = (typename)exp((double)in_data[i] - max);            \
     total += out_data[i];                                             \
   }                                                                   \
   /*calculate the real softmax value for output*/                     \
@@ -56,11 +61,20 @@ static Status softmax_with_all(const Tensor input, Tensor *output){
     int64_t linear_idx_copy = linear_idx;                       \
     /*implement softmax*/                                       \
     double total = 0;                                           \
+    /*shift by the largest element so that exp() cannot         \
+      overflow*/                                                \
+    typename max = 0;                                           \
+    for(int64_t i=0; i<dims[axis]; i++){                        \
+      if(i == 0 || in_data[linear_idx] > max)                   \
+        max = in_data[linear_idx];                              \
+      linear_idx += element_offset;                             \
+    }                                                           \
+    linear_idx = linear_idx_copy;                               \
     for(int64_t i=0; i<dims[axis]; i++){                        \
       /*calculate the exp(in_data) and                          \
         temporarily save them in out_data*/                     \
       out_data[linear_idx] =                                    \
-        (typename)exp(in_data[linear_idx]);                     \
+        (typename)exp((double)in_data[linear_idx] - max);       \
       total += out_data[linear_idx];                            \
       /*update linear_idx*/                                     \
       linear_idx += element_offset;                             \
-- 
2.43.0


From cf6b48cc9a42e10b9042aad0edd1003b6cb8ba8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:34 +0000
Subject: [PATCH 23/36] fix: softmax reports a failed allocation without
 publishing garbage or leaking

---
 src/nn/softmax.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nn/softmax.c b/src/nn/softmax.c
index e47c506..dffc818 100644
--- a/src/nn/softmax.c
+++ b/src/nn/softmax.c
@@ -13,7 +13,9 @@ static Status softmax_create_output(const Tensor input, Tensor *output){
   Device device = aitisa_tensor_device(input);
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
   status = aitisa_create(dtype, device, dims, ndim, NULL, 0, &new_tensor);
-  *output = new_tensor;
+  if(status == STATUS_SUCCESS){
+    *output = new_tensor;
+  }
   return status;
 }
 
@@ -119,6 +121,8 @@ static Status softmax_along_axis(const Tensor input, const int axis,
   int64_t *offset_recorder =
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*index_recorder) * ndim);
   if(!index_recorder || !offset_recorder){
+    aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
+    aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
     return STATUS_ALLOC_FAILED;
   }
   for(int64_t i=0; i<ndim; i++){
-- 
2.43.0


From e56230622c98ce1a75cac96c91db861d049bc304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:28 +0000
Subject: [PATCH 24/36] fix: convolution rejects filters and configurations
 that do not match the input

---
 src/nn/conv.c | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index df24137..99c0f34 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -16,11 +16,43 @@ static void conv_output_dims(const int64_t *input_dims,
   output_dims[1] = filter_dims[0];
   for (int64_t d = 2; d < ndim; ++d) {
     int64_t kernel = dilation[d - 2] * (filter_dims[d] - 1) + 1;
-    output_dims[d] = (input_dims[d] + (2 * padding[d - 2])
+    output_dims[d] = (input_dims[d] + (2 * (int64_t)padding[d - 2])
                         - kernel) / stride[d - 2] + 1;
   }
 }
 
+/* Check that the filter and the configurations match the input. */
+static Status conv_check_parameters(const Tensor input, const Tensor filter,
+                                    const int *stride, const int *padding,
+                                    const int *dilation, const int groups) {
+  if (aitisa_tensor_data_type(input).code !=
+      aitisa_tensor_data_type(filter).code) {
+    return STATUS_TYPE_MISMATCH;
+  }
+  int64_t ndim = aitisa_tensor_ndim(input);
+  if (ndim < 2 || aitisa_tensor_ndim(filter) != ndim) {
+    return STATUS_DIMENSIONS_MISMATCH;
+  }
+  int64_t *in_dims = aitisa_tensor_dims(input);
+  int64_t *fil_dims = aitisa_tensor_dims(filter);
+  if (groups < 1 || in_dims[1] % groups != 0 || fil_dims[0] % groups != 0) {
+    return STATUS_INVALID_ARGUMENT;
+  }
+  if (fil_dims[1] != in_dims[1] / groups) {
+    return STATUS_DIMENSIONS_MISMATCH;
+  }
+  for (int64_t d = 2; d < ndim; ++d) {
+    if (stride[d - 2] < 1 || padding[d - 2] < 0 || dilation[d - 2] < 1) {
+      return STATUS_INVALID_ARGUMENT;
+    }
+    int64_t kernel = dilation[d - 2] * (fil_dims[d] - 1) + 1;
+    if (in_dims[d] + 2 * (int64_t)padding[d - 2] < kernel) {
+      return STATUS_INVALID_ARGUMENT;
+    }
+  }
+  return STATUS_SUCCESS;
+}
+
 /* The implementation of convolution for the float data type */
 static Status aitisa_conv_float(const Tensor input, const Tensor filter,
                                 const int *stride, const int *padding,
@@ -140,6 +172,8 @@ Status aitisa_conv(const Tensor input, const Tensor filter, const int *stride,
   DataType dtype = aitisa_tensor_data_type(input);
   switch (dtype.code) {
     case TYPE_FLOAT:
+      CHECK_STATUS(conv_check_parameters(input, filter, stride, padding,
+                                         dilation, groups));
       CHECK_STATUS(aitisa_conv_float(input, filter, stride, padding, dilation,
                                      groups, output_ptr));
       break;
-- 
2.43.0


From af6cdcfea29282df619c4388ecd236ca976c75bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:28 +0000
Subject: [PATCH 25/36] fix: convolution honours the groups argument

---
 src/nn/conv.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 99c0f34..e8fba9b 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -101,7 +101,8 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
   int64_t fil_space_size = size_from_dim(2, fil_dims, ndim);
 
   int64_t nbatch = aitisa_tensor_dim(input, 0);
-  int64_t in_chan = aitisa_tensor_dim(input, 1);
+  // Each group of output channels reads its own group of input channels
+  int64_t group_chan = aitisa_tensor_dim(filter, 1);
   int64_t out_chan = aitisa_tensor_dim(*output_ptr, 1);
   int64_t sdim = ndim - 2;
 
@@ -118,8 +119,9 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
         in_coords[0] = b;
 
         float tmp = 0.0;
-        for (int64_t ic = 0; ic < in_chan; ++ic) {
-          in_coords[1] = ic;
+        int64_t group = oc / (out_chan / groups);
+        for (int64_t ic = 0; ic < group_chan; ++ic) {
+          in_coords[1] = group * group_chan + ic;
           for (int64_t fil_idx = 0; fil_idx < fil_space_size; ++fil_idx) {
             aitisa_linidx_to_coords(filter, fil_idx, fil_coords);
             fil_coords[0] = oc;
-- 
2.43.0


From 7cb95d70c6d9d9adba15f411d079244f3b55888a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:28 +0000
Subject: [PATCH 26/36] fix: convolution reports failed allocations instead of
 crashing

---
 src/nn/conv.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index e8fba9b..9cfb3c8 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -77,6 +77,18 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*fil_strides) * ndim);
   int64_t *out_strides =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_strides) * ndim);
+  if (!out_dims || !in_coords || !fil_coords || !out_coords || !tmp_coords ||
+      !in_strides || !fil_strides || !out_strides) {
+    aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
+    aitisa_default_cpu_allocator()->raw_dealloc(in_coords);
+    aitisa_default_cpu_allocator()->raw_dealloc(fil_coords);
+    aitisa_default_cpu_allocator()->raw_dealloc(out_coords);
+    aitisa_default_cpu_allocator()->raw_dealloc(tmp_coords);
+    aitisa_default_cpu_allocator()->raw_dealloc(in_strides);
+    aitisa_default_cpu_allocator()->raw_dealloc(fil_strides);
+    aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
+    return STATUS_ALLOC_FAILED;
+  }
 
   conv_output_dims(in_dims, fil_dims, stride, padding, dilation, ndim, out_dims);
 
@@ -84,8 +96,19 @@ static Status aitisa_conv_float(const Tensor input, const Tensor filter,
   DataType dtype = aitisa_tensor_data_type(input);
   Device device = aitisa_tensor_device(input);
   // LayoutType layout_type = aitisa_tensor_layout_type(input);
-  CHECK_STATUS(
-      aitisa_create(dtype, device, out_dims, ndim, NULL, 0, &new_tensor));
+  Status status =
+      aitisa_create(dtype, device, out_dims, ndim, NULL, 0, &new_tensor);
+  if (status != STATUS_SUCCESS) {
+    aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
+    aitisa_default_cpu_allocator()->raw_dealloc(in_coords);
+    aitisa_default_cpu_allocator()->raw_dealloc(fil_coords);
+    aitisa_default_cpu_allocator()->raw_dealloc(out_coords);
+    aitisa_default_cpu_allocator()->raw_dealloc(tmp_coords);
+    aitisa_default_cpu_allocator()->raw_dealloc(in_strides);
+    aitisa_default_cpu_allocator()->raw_dealloc(fil_strides);
+    aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
+    return status;
+  }
   *output_ptr = new_tensor;
 
   aitisa_get_all_strides(input, in_strides);
-- 
2.43.0


From 3f2b592a1ce9274d2eb92377712bd47f544fbe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:14 +0000
Subject: [PATCH 27/36] fix: pooling no longer leaks its scratch arrays when
 the window does not fit

---
 src/nn/pooling.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index 255b3eb..dc61179 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -51,6 +51,12 @@ static Status pooling_double(const Tensor input, const char *mode,
   int64_t ndim = aitisa_tensor_ndim(input);
   int64_t *in_dims = aitisa_tensor_dims(input);
   int64_t c_start = axis==1?2:1;
+  // Check whether the kernel window is larger than a channel
+  for(int64_t i=0; i<ndim-2; i++){
+    if((ksize[i]-1)*dilation[i]+1 > 2*padding[i]+in_dims[i+c_start]){
+      return STATUS_INVALID_ARGUMENT;
+    }
+  }
   int64_t *out_dims =
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims)*ndim);
   int64_t *index =
@@ -63,12 +69,6 @@ static Status pooling_double(const Tensor input, const char *mode,
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*k_head)*ndim);
   int64_t *k_tail =
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*k_tail)*ndim);
-  // Check whether the kernel window is larger than a channel
-  for(int64_t i=0; i<ndim-2; i++){
-    if((ksize[i]-1)*dilation[i]+1 > 2*padding[i]+in_dims[i+c_start]){
-      return STATUS_INVALID_ARGUMENT;
-    }
-  }
   // Create output
   Tensor new_tensor;
   CHECK_STATUS(
-- 
2.43.0


From b50809f86145b2bf3579721431d0cadaf7904250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:14 +0000
Subject: [PATCH 28/36] fix: pooling rejects unknown modes and out-of-range
 window parameters

---
 src/nn/pooling.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index dc61179..bdb8318 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -34,7 +34,7 @@ static Status pooling_create_output(const Tensor input, int64_t *out_dims,
   out_dims[axis] = in_dims[axis];
   for(int64_t i = c_start; i < c_start + ndim - 2; i++){
     double temp = in_dims[i] + 2.0 * padding[i - c_start] -
-                  dilation[i - c_start] * (ksize[i - c_start] - 1);
+                  (double)dilation[i - c_start] * (ksize[i - c_start] - 1);
     out_dims[i] = (int64_t)floor((temp-1)/stride[i-c_start] + 1 );
   }
   DataType dtype = aitisa_tensor_data_type(input);
@@ -51,9 +51,16 @@ static Status pooling_double(const Tensor input, const char *mode,
   int64_t ndim = aitisa_tensor_ndim(input);
   int64_t *in_dims = aitisa_tensor_dims(input);
   int64_t c_start = axis==1?2:1;
+  if(strcmp(mode, "avg") && strcmp(mode, "max")){
+    return STATUS_NOT_SUPPORTED;
+  }
   // Check whether the kernel window is larger than a channel
   for(int64_t i=0; i<ndim-2; i++){
-    if((ksize[i]-1)*dilation[i]+1 > 2*padding[i]+in_dims[i+c_start]){
+    if(ksize[i] < 1 || stride[i] < 1 || padding[i] < 0 || dilation[i] < 1){
+      return STATUS_INVALID_ARGUMENT;
+    }
+    if((int64_t)(ksize[i]-1)*dilation[i]+1 >
+       2*(int64_t)padding[i]+in_dims[i+c_start]){
       return STATUS_INVALID_ARGUMENT;
     }
   }
-- 
2.43.0


From bbb10fe5935bfe0dd9356ce5d100d8e2316242f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:14 +0000
Subject: [PATCH 29/36] fix: max pooling handles all-negative windows and keeps
 64-bit integers exact

---
 src/nn/pooling.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index bdb8318..f7f282f 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -9,8 +9,9 @@
     temp += ((typename*)in_data)[linear_idx];         \
   }                                                   \
   else if (!strcmp(mode, "max")) {                    \
-    if (temp < ((typename*)in_data)[linear_idx]) {    \
-      temp = ((typename*)in_data)[linear_idx];        \
+    if (best < 0 || ((typename*)in_data)[best] <      \
+                    ((typename*)in_data)[linear_idx]){\
+      best = linear_idx;                              \
     }                                                 \
   }
 
@@ -19,7 +20,9 @@
     ((typename*)out_data)[out_linear_idx] = (typename)(temp / window_size);   \
   }                                                                           \
   else if (!strcmp(mode, "max")) {                                            \
-    ((typename*)out_data)[out_linear_idx] = (typename)temp;                   \
+    typename top = best < 0 ? 0 : ((typename*)in_data)[best];                 \
+    if (has_padding && top < 0) top = 0;                                      \
+    ((typename*)out_data)[out_linear_idx] = top;                              \
   }
 
 
@@ -116,6 +119,8 @@ static Status pooling_double(const Tensor input, const char *mode,
           index[i] = k_head[i];
         }
         double temp = 0; 
+        int64_t best = -1;    // linear index of the largest element
+        int has_padding = 0;  // whether the window covers implicit zeros
         int hasElement = 1;
         while(hasElement){
           int64_t linear_idx = bc_stride;
@@ -129,7 +134,9 @@ static Status pooling_double(const Tensor input, const char *mode,
             }
           }
           // need to consider padding
-          if(!padded){
+          if(padded){
+            has_padding = 1;
+          }else{
             AITISA_DISPATCH_ALL_TYPES_RETURN(dtype, pooling_kernel);
           }
           // update index
-- 
2.43.0


From a134e680fa4972616d017b3c200dfdb3de64da6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:14 +0000
Subject: [PATCH 30/36] fix: pooling reports failed allocations instead of
 crashing

---
 src/nn/pooling.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/nn/pooling.c b/src/nn/pooling.c
index f7f282f..184fa90 100644
--- a/src/nn/pooling.c
+++ b/src/nn/pooling.c
@@ -79,11 +79,29 @@ static Status pooling_double(const Tensor input, const char *mode,
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*k_head)*ndim);
   int64_t *k_tail =
     aitisa_default_cpu_allocator()->raw_alloc(sizeof(*k_tail)*ndim);
+  if(!out_dims || !index || !strides || !out_strides || !k_head || !k_tail){
+    aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
+    aitisa_default_cpu_allocator()->raw_dealloc(index);
+    aitisa_default_cpu_allocator()->raw_dealloc(strides);
+    aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
+    aitisa_default_cpu_allocator()->raw_dealloc(k_head);
+    aitisa_default_cpu_allocator()->raw_dealloc(k_tail);
+    return STATUS_ALLOC_FAILED;
+  }
   // Create output
   Tensor new_tensor;
-  CHECK_STATUS(
+  Status status =
     pooling_create_output(input, out_dims, ksize, stride,
-                   padding, dilation, axis, c_start, &new_tensor));
+                   padding, dilation, axis, c_start, &new_tensor);
+  if(status != STATUS_SUCCESS){
+    aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
+    aitisa_default_cpu_allocator()->raw_dealloc(index);
+    aitisa_default_cpu_allocator()->raw_dealloc(strides);
+    aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
+    aitisa_default_cpu_allocator()->raw_dealloc(k_head);
+    aitisa_default_cpu_allocator()->raw_dealloc(k_tail);
+    return status;
+  }
   // Implement pooling
   int64_t window_size = 1;
   for(int64_t i=0; i<ndim-2; i++){
-- 
2.43.0


From cd24498c3cba15eac0d33404a9c633468b935614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:14 +0000
Subject: [PATCH 31/36] fix: batch_norm releases its intermediates when
 variance + epsilon is negative

---
 src/nn/batch_norm.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/nn/batch_norm.c b/src/nn/batch_norm.c
index e1e71ba..df8d8e7 100644
--- a/src/nn/batch_norm.c
+++ b/src/nn/batch_norm.c
@@ -278,10 +278,15 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
         aitisa_full(dtype, device, eps_dims, eps_ndim, epsilon, &eps_tensor));
     // Get sqrt(variance+epsilon), denoted by denominator
     CHECK_STATUS(aitisa_add(variance, eps_tensor, &temp));
-    CHECK_STATUS(aitisa_sqrt(temp, *denominator));
+    **denominator = NULL;
+    Status status = aitisa_sqrt(temp, *denominator);
     // Destroy epsilon and temp tensor
     aitisa_destroy(&eps_tensor);
     aitisa_destroy(&temp);
+    if (status != STATUS_SUCCESS) {
+      aitisa_destroy(*denominator);
+      return status;
+    }
   }else if (in_ndim > 2) {
     // The case with channel
     int64_t *in_dims = aitisa_tensor_dims(input);
@@ -355,8 +360,28 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
       }
       // sqrt(var_array[c] + epsilon_tensor)
       CHECK_STATUS(aitisa_add(var_array[c], eps_tensor, &(temp[c])));
-      CHECK_STATUS(aitisa_sqrt(temp[c], &((*denominator)[c])));
+      (*denominator)[c] = NULL;
+      Status status = aitisa_sqrt(temp[c], &((*denominator)[c]));
       aitisa_destroy(&(var_array[c]));
+      if (status != STATUS_SUCCESS) {
+        // Release everything that was built for the channels so far
+        for (int64_t i = 0; i <= c; i++) {
+          aitisa_destroy(&((*mean_array)[i]));
+          aitisa_destroy(&((*scale_array)[i]));
+          aitisa_destroy(&((*bias_array)[i]));
+          aitisa_destroy(&((*denominator)[i]));
+          aitisa_destroy(&temp[i]);
+        }
+        aitisa_destroy(&eps_tensor);
+        aitisa_default_cpu_allocator()->raw_dealloc(*mean_array);
+        aitisa_default_cpu_allocator()->raw_dealloc(*scale_array);
+        aitisa_default_cpu_allocator()->raw_dealloc(*bias_array);
+        aitisa_default_cpu_allocator()->raw_dealloc(*denominator);
+        aitisa_default_cpu_allocator()->raw_dealloc(var_array);
+        aitisa_default_cpu_allocator()->raw_dealloc(temp);
+        aitisa_default_cpu_allocator()->raw_dealloc(param_dims);
+        return status;
+      }
     }
     aitisa_destroy(&eps_tensor);
     aitisa_default_cpu_allocator()->raw_dealloc(var_array);
-- 
2.43.0


From de0d18e2b19b4a5e762d109ff155e806fc5be294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:14 +0000
Subject: [PATCH 32/36] fix: batch_norm checks all of its scratch allocations

---
 src/nn/batch_norm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nn/batch_norm.c b/src/nn/batch_norm.c
index df8d8e7..dbbea96 100644
--- a/src/nn/batch_norm.c
+++ b/src/nn/batch_norm.c
@@ -197,6 +197,7 @@ static Status batch_norm_with_channel(const Tensor input, const int axis,
   int64_t num_saxis = 2;
   int64_t *squeeze_axis = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*squeeze_axis) * num_saxis);
+  if (!squeeze_axis) return STATUS_ALLOC_FAILED;
   squeeze_axis[0] = 0;
   squeeze_axis[1] = axis;
   // Make parameters for data transportation
@@ -327,7 +328,7 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
     Tensor *var_array = aitisa_default_cpu_allocator()->raw_alloc(
         sizeof(*var_array) * num_channels);
     if (!*mean_array || !*scale_array || !*bias_array ||
-        !*denominator || !var_array) {
+        !*denominator || !temp || !var_array) {
       return STATUS_ALLOC_FAILED;
     } 
     for (uint32_t c = 0; c < num_channels; c++) {
-- 
2.43.0


From d1cd12b66ac00f69b8dbcd2cdb06cd6a93fb810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:37 +0000
Subject: [PATCH 33/36] fix: dot releases its intermediates when an inner
 allocation fails

---
 src/math/dot.c | 61 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 22 deletions(-)

diff --git a/src/math/dot.c b/src/math/dot.c
index c298e2d..8acb739 100644
--- a/src/math/dot.c
+++ b/src/math/dot.c
@@ -106,11 +106,12 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   DataType dtype = aitisa_tensor_data_type(tensor1);
   Device device = aitisa_tensor_device(tensor1);
   // LayoutType layout_type = aitisa_tensor_layout_type(tensor1);
-  CHECK_STATUS(
-      aitisa_full(dtype, device, out_dims, out_ndim, 0.0, &new_tensor));
-  *output = new_tensor;
+  Status status =
+      aitisa_full(dtype, device, out_dims, out_ndim, 0.0, &new_tensor);
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
+  if (status != STATUS_SUCCESS) return status;
+  *output = new_tensor;
   // An empty contraction leaves every element zero
   if (tensor1_dims[ndim_tensor1 - 1] == 0) return STATUS_SUCCESS;
   // Make an index recorder of vectors in tensor1 then initialize it
@@ -123,8 +124,11 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   // step
   int *step =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim_tensor1);
+  Tensor vec1 = NULL;
+  Tensor result = NULL;
   if (!index_recorder || !size || !step) {
-    return STATUS_ALLOC_FAILED;
+    status = STATUS_ALLOC_FAILED;
+    goto cleanup;
   }
   for (int64_t i = 0; i < ndim_tensor1; i++) {
     index_recorder[i] = 0;
@@ -136,13 +140,13 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
   int64_t nvec_tensor1 =
       size_to_dim(ndim_tensor1 - 1, tensor1_dims, ndim_tensor1);
   Tensor vec2 = tensor2;
-  Tensor vec1;
-  Tensor result;
   void *out_data = aitisa_tensor_data(*output);
   int data_size = aitisa_tensor_data_type(*output).size;
   for (int vec_idx = 0; vec_idx < nvec_tensor1; vec_idx++) {
-    CHECK_STATUS(aitisa_slice(tensor1, index_recorder, size, step, &vec1));
-    CHECK_STATUS(vector_vector_dot(vec1, vec2, &result));
+    status = aitisa_slice(tensor1, index_recorder, size, step, &vec1);
+    if (status != STATUS_SUCCESS) goto cleanup;
+    status = vector_vector_dot(vec1, vec2, &result);
+    if (status != STATUS_SUCCESS) goto cleanup;
     // Store the result into output
     void *result_data = aitisa_tensor_data(result);
     memcpy((char *)out_data + vec_idx * data_size, result_data, data_size);
@@ -159,10 +163,14 @@ static Status tensor_vector_dot(const Tensor tensor1, const Tensor tensor2,
     aitisa_destroy(&vec1);
     aitisa_destroy(&result);
   }
+cleanup:
+  aitisa_destroy(&vec1);
+  aitisa_destroy(&result);
   aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
   aitisa_default_cpu_allocator()->raw_dealloc(size);
   aitisa_default_cpu_allocator()->raw_dealloc(step);
-  return STATUS_SUCCESS;
+  if (status != STATUS_SUCCESS) aitisa_destroy(output);
+  return status;
 }
 
 static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
@@ -197,11 +205,12 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
   DataType dtype = aitisa_tensor_data_type(tensor1);
   Device device = aitisa_tensor_device(tensor1);
   LayoutType layout_type = aitisa_tensor_layout_type(tensor1);
-  CHECK_STATUS(
-      aitisa_full(dtype, device, out_dims, out_ndim, 0.0, &new_tensor));
-  *output = new_tensor;
+  Status status =
+      aitisa_full(dtype, device, out_dims, out_ndim, 0.0, &new_tensor);
   aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
   out_dims = NULL;
+  if (status != STATUS_SUCCESS) return status;
+  *output = new_tensor;
   // An empty contraction leaves every element zero
   if (tensor1_dims[ndim_tensor1 - 1] == 0) return STATUS_SUCCESS;
   // Make index recorders of vectors in tensor1 and tensor2 then initialize them
@@ -220,9 +229,13 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
                                                            ndim_tensor1);
   int *step_t2 = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step_t2) *
                                                            ndim_tensor2);
+  Tensor vec2 = NULL;
+  Tensor vec1 = NULL;
+  Tensor result = NULL;
   if (!index_recorder_t1 || !index_recorder_t2 || 
       !size_t1 || !size_t2 || !step_t1 || !step_t2) {
-    return STATUS_ALLOC_FAILED;
+    status = STATUS_ALLOC_FAILED;
+    goto cleanup;
   }
   for (int64_t i = 0; i < ndim_tensor1; i++) {
     index_recorder_t1[i] = 0;
@@ -241,18 +254,17 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
       size_to_dim(ndim_tensor1 - 1, tensor1_dims, ndim_tensor1);
   int64_t nvec_tensor2 =
       size_of_dims(tensor2_dims, ndim_tensor2) / tensor2_dims[ndim_tensor2 - 2];
-  Tensor vec2;
-  Tensor vec1;
-  Tensor result;
   void *out_data = aitisa_tensor_data(*output);
   int data_size = aitisa_tensor_data_type(*output).size;
   for (int vec1_idx = 0; vec1_idx < nvec_tensor1; vec1_idx++) {
-    CHECK_STATUS(
-        aitisa_slice(tensor1, index_recorder_t1, size_t1, step_t1, &vec1));
+    status = aitisa_slice(tensor1, index_recorder_t1, size_t1, step_t1, &vec1);
+    if (status != STATUS_SUCCESS) goto cleanup;
     for (int vec2_idx = 0; vec2_idx < nvec_tensor2; vec2_idx++) {
-      CHECK_STATUS(
-          aitisa_slice(tensor2, index_recorder_t2, size_t2, step_t2, &vec2));
-      CHECK_STATUS(vector_vector_dot(vec1, vec2, &result));
+      status =
+          aitisa_slice(tensor2, index_recorder_t2, size_t2, step_t2, &vec2);
+      if (status != STATUS_SUCCESS) goto cleanup;
+      status = vector_vector_dot(vec1, vec2, &result);
+      if (status != STATUS_SUCCESS) goto cleanup;
       // Store the result into output
       void *result_data = aitisa_tensor_data(result);
       memcpy(
@@ -284,13 +296,18 @@ static Status multidim_dot(const Tensor tensor1, const Tensor tensor2,
     }
     aitisa_destroy(&vec1);
   }
+cleanup:
+  aitisa_destroy(&vec1);
+  aitisa_destroy(&vec2);
+  aitisa_destroy(&result);
   aitisa_default_cpu_allocator()->raw_dealloc(index_recorder_t1);
   aitisa_default_cpu_allocator()->raw_dealloc(size_t1);
   aitisa_default_cpu_allocator()->raw_dealloc(step_t1);
   aitisa_default_cpu_allocator()->raw_dealloc(index_recorder_t2);
   aitisa_default_cpu_allocator()->raw_dealloc(size_t2);
   aitisa_default_cpu_allocator()->raw_dealloc(step_t2);
-  return STATUS_SUCCESS;
+  if (status != STATUS_SUCCESS) aitisa_destroy(output);
+  return status;
 }
 
 Status aitisa_dot(const Tensor tensor1, const Tensor tensor2, Tensor *output) {
-- 
2.43.0


From b4c9ce98f51dedeb0091b7f6f2f95cda0a45b0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:02 +0000
Subject: [PATCH 34/36] fix: batch_norm releases its intermediates when an
 inner allocation fails

---
 src/nn/batch_norm.c | 208 ++++++++++++++++++++++++++------------------
 1 file changed, 122 insertions(+), 86 deletions(-)

diff --git a/src/nn/batch_norm.c b/src/nn/batch_norm.c
index dbbea96..cf64e63 100644
--- a/src/nn/batch_norm.c
+++ b/src/nn/batch_norm.c
@@ -122,35 +122,44 @@ static Status batch_norm_without_channel(const Tensor input, const Tensor scale,
   int *begin = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*begin) * ndim);
   int *size = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size) * ndim);
   int *step = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim);
-  if (!begin || !size || !step) return STATUS_ALLOC_FAILED;
+  // Make parameters for squeeze
+  int64_t num_axis = 1;
+  int64_t *axis =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*axis) * num_axis);
+  Status status = STATUS_SUCCESS;
+  Tensor temp0 = NULL, temp1 = NULL;
+  if (!begin || !size || !step || !axis) {
+    status = STATUS_ALLOC_FAILED;
+    goto cleanup;
+  }
   for (int64_t i = 0; i < ndim; i++) {
     begin[i] = 0;
     size[i] = dims[i];
     step[i] = 1;
   }
   size[0] = 1;
-  // Make parameters for squeeze
-  int64_t num_axis = 1;
-  int64_t *axis =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*axis) * num_axis);
-  if (!axis) return STATUS_ALLOC_FAILED;
   axis[0] = 0;
   // Implement 1d batch normalization without channel
   uint8_t ele_size = aitisa_tensor_data_type(input).size;
   char *out_data = aitisa_tensor_data(*output);
   for (int64_t s = 0; s < batch_size; s++) {
-    Tensor temp0, temp1;
-    CHECK_STATUS(aitisa_slice(input, begin, size, step, &temp0));
-    CHECK_STATUS(aitisa_squeeze(temp0, axis, num_axis, &temp1));
-    CHECK_STATUS(aitisa_destroy(&temp0));
-    CHECK_STATUS(aitisa_sub(temp1, mean, &temp0));
-    CHECK_STATUS(aitisa_destroy(&temp1));
-    CHECK_STATUS(aitisa_div(temp0, denominator, &temp1));
-    CHECK_STATUS(aitisa_destroy(&temp0));
-    CHECK_STATUS(aitisa_mul(scale, temp1, &temp0));
-    CHECK_STATUS(aitisa_destroy(&temp1));
-    CHECK_STATUS(aitisa_add(temp0, bias, &temp1));
-    CHECK_STATUS(aitisa_destroy(&temp0));
+    status = aitisa_slice(input, begin, size, step, &temp0);
+    if (status != STATUS_SUCCESS) goto cleanup;
+    status = aitisa_squeeze(temp0, axis, num_axis, &temp1);
+    if (status != STATUS_SUCCESS) goto cleanup;
+    aitisa_destroy(&temp0);
+    status = aitisa_sub(temp1, mean, &temp0);
+    if (status != STATUS_SUCCESS) goto cleanup;
+    aitisa_destroy(&temp1);
+    status = aitisa_div(temp0, denominator, &temp1);
+    if (status != STATUS_SUCCESS) goto cleanup;
+    aitisa_destroy(&temp0);
+    status = aitisa_mul(scale, temp1, &temp0);
+    if (status != STATUS_SUCCESS) goto cleanup;
+    aitisa_destroy(&temp1);
+    status = aitisa_add(temp0, bias, &temp1);
+    if (status != STATUS_SUCCESS) goto cleanup;
+    aitisa_destroy(&temp0);
     // Transport data to output
     int64_t size = aitisa_tensor_size(temp1);
     char *temp1_data = aitisa_tensor_data(temp1);
@@ -158,16 +167,19 @@ static Status batch_norm_without_channel(const Tensor input, const Tensor scale,
       memcpy(out_data + s * size * ele_size + ele * ele_size,
              temp1_data + ele * ele_size, ele_size);
     }
-    CHECK_STATUS(aitisa_destroy(&temp1));
+    aitisa_destroy(&temp1);
     // Update begin
     begin[0]++;
   }
+cleanup:
+  aitisa_destroy(&temp0);
+  aitisa_destroy(&temp1);
   // Destroy parameters for slice and squeeze
   aitisa_default_cpu_allocator()->raw_dealloc(begin);
   aitisa_default_cpu_allocator()->raw_dealloc(size);
   aitisa_default_cpu_allocator()->raw_dealloc(step);
   aitisa_default_cpu_allocator()->raw_dealloc(axis);
-  return STATUS_SUCCESS;
+  return status;
 }
 
 static Status batch_norm_with_channel(const Tensor input, const int axis,
@@ -185,29 +197,31 @@ static Status batch_norm_with_channel(const Tensor input, const int axis,
   int *begin = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*begin) * ndim);
   int *size = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size) * ndim);
   int *step = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim);
-  if (!begin || !step || !size) return STATUS_ALLOC_FAILED;
-  for (int64_t i = 0; i < ndim; i++) {
-    begin[i] = 0;
-    step[i] = 1;
-    size[i] = (int)(dims[i]);
-  }
-  size[0] = 1;
-  size[axis] = 1;
   // Make parameters for squeeze
   int64_t num_saxis = 2;
   int64_t *squeeze_axis = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*squeeze_axis) * num_saxis);
-  if (!squeeze_axis) return STATUS_ALLOC_FAILED;
-  squeeze_axis[0] = 0;
-  squeeze_axis[1] = axis;
   // Make parameters for data transportation
   int64_t *index_recorder =
       aitisa_default_cpu_allocator()->raw_alloc(sizeof(*index_recorder) * ndim);
   int64_t *offset_recorder = aitisa_default_cpu_allocator()->raw_alloc(
       sizeof(*offset_recorder) * ndim);
-  if (!index_recorder || !offset_recorder) {
-    return STATUS_ALLOC_FAILED;
+  Status status = STATUS_SUCCESS;
+  Tensor temp0 = NULL, temp1 = NULL;
+  if (!begin || !step || !size || !squeeze_axis || !index_recorder ||
+      !offset_recorder) {
+    status = STATUS_ALLOC_FAILED;
+    goto cleanup;
   }
+  for (int64_t i = 0; i < ndim; i++) {
+    begin[i] = 0;
+    step[i] = 1;
+    size[i] = (int)(dims[i]);
+  }
+  size[0] = 1;
+  size[axis] = 1;
+  squeeze_axis[0] = 0;
+  squeeze_axis[1] = axis;
   for (int64_t i = 0; i < ndim; i++) {
     index_recorder[i] = 0;
   }
@@ -222,29 +236,37 @@ static Status batch_norm_with_channel(const Tensor input, const int axis,
     // Set index_recorder
     index_recorder[0] = s;
     for (int64_t c = 0; c < channel_size; c++) {
-      Tensor temp0, temp1;
       // Slice to get a channel
       begin[axis] = (int)c;  // set begin
-      CHECK_STATUS(aitisa_slice(input, begin, size, step, &temp0));
-      CHECK_STATUS(aitisa_squeeze(temp0, squeeze_axis, num_saxis, &temp1));
-      CHECK_STATUS(aitisa_destroy(&temp0));
+      status = aitisa_slice(input, begin, size, step, &temp0);
+      if (status != STATUS_SUCCESS) goto cleanup;
+      status = aitisa_squeeze(temp0, squeeze_axis, num_saxis, &temp1);
+      if (status != STATUS_SUCCESS) goto cleanup;
+      aitisa_destroy(&temp0);
       // Implement the equation
-      CHECK_STATUS(aitisa_sub(temp1, mean_array[c], &temp0));
-      CHECK_STATUS(aitisa_destroy(&temp1));
-      CHECK_STATUS(aitisa_div(temp0, denominator[c], &temp1));
-      CHECK_STATUS(aitisa_destroy(&temp0));
-      CHECK_STATUS(aitisa_mul(scale_array[c], temp1, &temp0));
-      CHECK_STATUS(aitisa_destroy(&temp1));
-      CHECK_STATUS(aitisa_add(temp0, bias_array[c], &temp1));
+      status = aitisa_sub(temp1, mean_array[c], &temp0);
+      if (status != STATUS_SUCCESS) goto cleanup;
+      aitisa_destroy(&temp1);
+      status = aitisa_div(temp0, denominator[c], &temp1);
+      if (status != STATUS_SUCCESS) goto cleanup;
+      aitisa_destroy(&temp0);
+      status = aitisa_mul(scale_array[c], temp1, &temp0);
+      if (status != STATUS_SUCCESS) goto cleanup;
+      aitisa_destroy(&temp1);
+      status = aitisa_add(temp0, bias_array[c], &temp1);
+      if (status != STATUS_SUCCESS) goto cleanup;
       // Transport data of temp1 to output
       index_recorder[axis] = c;
       batch_norm_transport(temp1, output, index_recorder, offset_recorder,
                            axis);
       // Destroy temp0 and temp1
-      CHECK_STATUS(aitisa_destroy(&temp0));
-      CHECK_STATUS(aitisa_destroy(&temp1));
+      aitisa_destroy(&temp0);
+      aitisa_destroy(&temp1);
     }
   }
+cleanup:
+  aitisa_destroy(&temp0);
+  aitisa_destroy(&temp1);
   // Destroy parameters for slice and squeeze
   aitisa_default_cpu_allocator()->raw_dealloc(begin);
   aitisa_default_cpu_allocator()->raw_dealloc(size);
@@ -252,7 +274,7 @@ static Status batch_norm_with_channel(const Tensor input, const int axis,
   aitisa_default_cpu_allocator()->raw_dealloc(squeeze_axis);
   aitisa_default_cpu_allocator()->raw_dealloc(index_recorder);
   aitisa_default_cpu_allocator()->raw_dealloc(offset_recorder);
-  return STATUS_SUCCESS;
+  return status;
 }
 
 static Status get_intermediate_tensors(const Tensor input, const int axis,
@@ -272,15 +294,15 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
     *bias_array = NULL;
     *mean_array = NULL;
     // Get epsilon tensor
-    Tensor eps_tensor, temp;
+    Tensor eps_tensor, temp = NULL;
     int64_t *eps_dims = aitisa_tensor_dims(variance);
     int64_t eps_ndim = aitisa_tensor_ndim(variance);
     CHECK_STATUS(
         aitisa_full(dtype, device, eps_dims, eps_ndim, epsilon, &eps_tensor));
     // Get sqrt(variance+epsilon), denoted by denominator
-    CHECK_STATUS(aitisa_add(variance, eps_tensor, &temp));
     **denominator = NULL;
-    Status status = aitisa_sqrt(temp, *denominator);
+    Status status = aitisa_add(variance, eps_tensor, &temp);
+    if (status == STATUS_SUCCESS) status = aitisa_sqrt(temp, *denominator);
     // Destroy epsilon and temp tensor
     aitisa_destroy(&eps_tensor);
     aitisa_destroy(&temp);
@@ -309,8 +331,12 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
     }
     // Get epsilon tensor
     Tensor eps_tensor;
-    CHECK_STATUS(aitisa_full(dtype, device, param_dims, param_ndim, epsilon,
-                             &eps_tensor));
+    Status status = aitisa_full(dtype, device, param_dims, param_ndim, epsilon,
+                                &eps_tensor);
+    if (status != STATUS_SUCCESS) {
+      aitisa_default_cpu_allocator()->raw_dealloc(param_dims);
+      return status;
+    }
     // Get mean_array, scale_array, bias_array, denominator
     int64_t tensor_size = size_of_dims(param_dims, param_ndim);
     uint8_t ele_size = dtype.size;
@@ -329,17 +355,31 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
         sizeof(*var_array) * num_channels);
     if (!*mean_array || !*scale_array || !*bias_array ||
         !*denominator || !temp || !var_array) {
-      return STATUS_ALLOC_FAILED;
+      num_channels = 0;
+      status = STATUS_ALLOC_FAILED;
+      goto cleanup;
     } 
+    for (int64_t c = 0; c < num_channels; c++) {
+      (*mean_array)[c] = NULL;
+      (*scale_array)[c] = NULL;
+      (*bias_array)[c] = NULL;
+      (*denominator)[c] = NULL;
+      temp[c] = NULL;
+      var_array[c] = NULL;
+    }
     for (uint32_t c = 0; c < num_channels; c++) {
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
-                                 NULL, 0, &((*mean_array)[c])));
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
-                                 NULL, 0, &((*scale_array)[c])));
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
-                                 NULL, 0, &((*bias_array)[c])));
-      CHECK_STATUS(aitisa_create(dtype, device, param_dims, param_ndim,
-                                 NULL, 0, &(var_array[c])));
+      status = aitisa_create(dtype, device, param_dims, param_ndim,
+                             NULL, 0, &((*mean_array)[c]));
+      if (status != STATUS_SUCCESS) goto cleanup;
+      status = aitisa_create(dtype, device, param_dims, param_ndim,
+                             NULL, 0, &((*scale_array)[c]));
+      if (status != STATUS_SUCCESS) goto cleanup;
+      status = aitisa_create(dtype, device, param_dims, param_ndim,
+                             NULL, 0, &((*bias_array)[c]));
+      if (status != STATUS_SUCCESS) goto cleanup;
+      status = aitisa_create(dtype, device, param_dims, param_ndim,
+                             NULL, 0, &(var_array[c]));
+      if (status != STATUS_SUCCESS) goto cleanup;
       // Repeatedly copy data to array
       char *mean_array_c_data = aitisa_tensor_data((*mean_array)[c]);
       char *mean_data = aitisa_tensor_data(mean);
@@ -360,37 +400,33 @@ static Status get_intermediate_tensors(const Tensor input, const int axis,
                (void *)(var_data + c * ele_size), ele_size);
       }
       // sqrt(var_array[c] + epsilon_tensor)
-      CHECK_STATUS(aitisa_add(var_array[c], eps_tensor, &(temp[c])));
-      (*denominator)[c] = NULL;
-      Status status = aitisa_sqrt(temp[c], &((*denominator)[c]));
-      aitisa_destroy(&(var_array[c]));
+      status = aitisa_add(var_array[c], eps_tensor, &(temp[c]));
+      if (status != STATUS_SUCCESS) goto cleanup;
+      status = aitisa_sqrt(temp[c], &((*denominator)[c]));
+      if (status != STATUS_SUCCESS) goto cleanup;
+    }
+  cleanup:
+    for (int64_t i = 0; i < num_channels; i++) {
+      aitisa_destroy(&temp[i]);
+      aitisa_destroy(&(var_array[i]));
       if (status != STATUS_SUCCESS) {
-        // Release everything that was built for the channels so far
-        for (int64_t i = 0; i <= c; i++) {
-          aitisa_destroy(&((*mean_array)[i]));
-          aitisa_destroy(&((*scale_array)[i]));
-          aitisa_destroy(&((*bias_array)[i]));
-          aitisa_destroy(&((*denominator)[i]));
-          aitisa_destroy(&temp[i]);
-        }
-        aitisa_destroy(&eps_tensor);
-        aitisa_default_cpu_allocator()->raw_dealloc(*mean_array);
-        aitisa_default_cpu_allocator()->raw_dealloc(*scale_array);
-        aitisa_default_cpu_allocator()->raw_dealloc(*bias_array);
-        aitisa_default_cpu_allocator()->raw_dealloc(*denominator);
-        aitisa_default_cpu_allocator()->raw_dealloc(var_array);
-        aitisa_default_cpu_allocator()->raw_dealloc(temp);
-        aitisa_default_cpu_allocator()->raw_dealloc(param_dims);
-        return status;
+        aitisa_destroy(&((*mean_array)[i]));
+        aitisa_destroy(&((*scale_array)[i]));
+        aitisa_destroy(&((*bias_array)[i]));
+        aitisa_destroy(&((*denominator)[i]));
       }
     }
     aitisa_destroy(&eps_tensor);
     aitisa_default_cpu_allocator()->raw_dealloc(var_array);
-    aitisa_default_cpu_allocator()->raw_dealloc(param_dims); 
-    for(int64_t i = 0; i < num_channels; i++){
-      aitisa_destroy(&temp[i]);
-    }
     aitisa_default_cpu_allocator()->raw_dealloc(temp);
+    aitisa_default_cpu_allocator()->raw_dealloc(param_dims);
+    if (status != STATUS_SUCCESS) {
+      aitisa_default_cpu_allocator()->raw_dealloc(*mean_array);
+      aitisa_default_cpu_allocator()->raw_dealloc(*scale_array);
+      aitisa_default_cpu_allocator()->raw_dealloc(*bias_array);
+      aitisa_default_cpu_allocator()->raw_dealloc(*denominator);
+      return status;
+    }
   }
   return STATUS_SUCCESS;
 }
-- 
2.43.0


From c126c99b23c7683df32ccb307f7846b33435be9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:24 +0000
Subject: [PATCH 35/36] fix: duplicate keeps the shape of an empty tensor

---
 src/basic/duplicate.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/basic/duplicate.c b/src/basic/duplicate.c
index b94894a..b3201c7 100644
--- a/src/basic/duplicate.c
+++ b/src/basic/duplicate.c
@@ -6,6 +6,12 @@ Status aitisa_duplicate(const Tensor input, Tensor *output) {
   Tensor new_tensor;
   int64_t *dims = aitisa_tensor_dims(input);
   int ndim = (int)(aitisa_tensor_ndim(input));
+  // A slice drops dimensions of size zero, so an empty tensor is created anew
+  if (aitisa_tensor_size(input) == 0) {
+    return aitisa_create(aitisa_tensor_data_type(input),
+                         aitisa_tensor_device(input), dims, ndim, NULL, 0,
+                         output);
+  }
   int *begin = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*begin) * ndim);
   int *size = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*size) * ndim);
   int *step = aitisa_default_cpu_allocator()->raw_alloc(sizeof(*step) * ndim);
-- 
2.43.0


From 2fe6ba45936c73a6609b1d43f9d0a94e6651976b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:29 +0000
Subject: [PATCH 36/36] fix: restore the original line endings of conv.c

---
 src/nn/conv.c | 468 +++++++++++++++++++++++++-------------------------
 1 file changed, 234 insertions(+), 234 deletions(-)

diff --git a/src/nn/conv.c b/src/nn/conv.c
index 9cfb3c8..f549faf 100644
--- a/src/nn/conv.c
+++ b/src/nn/conv.c
@@ -1,234 +1,234 @@
-#include "src/core/utils.h"
-#include "src/core/allocator.h"
-#include "src/basic/index_utils.h"
-#include "src/nn/conv.h"
-#include <stdio.h>
-
-/*
- * Compute the output dims based on input dims, filter dims and other related
- * configurations such as stride, padding, and dialation.
- */
-static void conv_output_dims(const int64_t *input_dims,
-                             const int64_t *filter_dims, const int *stride,
-                             const int *padding, const int *dilation,
-                             int64_t ndim, int64_t *output_dims) {
-  output_dims[0] = input_dims[0];
-  output_dims[1] = filter_dims[0];
-  for (int64_t d = 2; d < ndim; ++d) {
-    int64_t kernel = dilation[d - 2] * (filter_dims[d] - 1) + 1;
-    output_dims[d] = (input_dims[d] + (2 * (int64_t)padding[d - 2])
-                        - kernel) / stride[d - 2] + 1;
-  }
-}
-
-/* Check that the filter and the configurations match the input. */
-static Status conv_check_parameters(const Tensor input, const Tensor filter,
-                                    const int *stride, const int *padding,
-                                    const int *dilation, const int groups) {
-  if (aitisa_tensor_data_type(input).code !=
-      aitisa_tensor_data_type(filter).code) {
-    return STATUS_TYPE_MISMATCH;
-  }
-  int64_t ndim = aitisa_tensor_ndim(input);
-  if (ndim < 2 || aitisa_tensor_ndim(filter) != ndim) {
-    return STATUS_DIMENSIONS_MISMATCH;
-  }
-  int64_t *in_dims = aitisa_tensor_dims(input);
-  int64_t *fil_dims = aitisa_tensor_dims(filter);
-  if (groups < 1 || in_dims[1] % groups != 0 || fil_dims[0] % groups != 0) {
-    return STATUS_INVALID_ARGUMENT;
-  }
-  if (fil_dims[1] != in_dims[1] / groups) {
-    return STATUS_DIMENSIONS_MISMATCH;
-  }
-  for (int64_t d = 2; d < ndim; ++d) {
-    if (stride[d - 2] < 1 || padding[d - 2] < 0 || dilation[d - 2] < 1) {
-      return STATUS_INVALID_ARGUMENT;
-    }
-    int64_t kernel = dilation[d - 2] * (fil_dims[d] - 1) + 1;
-    if (in_dims[d] + 2 * (int64_t)padding[d - 2] < kernel) {
-      return STATUS_INVALID_ARGUMENT;
-    }
-  }
-  return STATUS_SUCCESS;
-}
-
-/* The implementation of convolution for the float data type */
-static Status aitisa_conv_float(const Tensor input, const Tensor filter,
-                                const int *stride, const int *padding,
-                                const int *dilation, const int groups,
-                                Tensor *output_ptr) {
-  int64_t ndim = aitisa_tensor_ndim(input);
-  int64_t *in_dims = aitisa_tensor_dims(input);
-  int64_t *fil_dims = aitisa_tensor_dims(filter);
-  int64_t *out_dims =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * ndim);
-  int64_t *in_coords =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*in_coords) * ndim);
-  int64_t *fil_coords =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*fil_coords) * ndim);
-  int64_t *out_coords =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_coords) * ndim);
-  int64_t *tmp_coords =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*tmp_coords) * ndim);
-  int64_t *in_strides =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*in_strides) * ndim);
-  int64_t *fil_strides =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*fil_strides) * ndim);
-  int64_t *out_strides =
-      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_strides) * ndim);
-  if (!out_dims || !in_coords || !fil_coords || !out_coords || !tmp_coords ||
-      !in_strides || !fil_strides || !out_strides) {
-    aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
-    aitisa_default_cpu_allocator()->raw_dealloc(in_coords);
-    aitisa_default_cpu_allocator()->raw_dealloc(fil_coords);
-    aitisa_default_cpu_allocator()->raw_dealloc(out_coords);
-    aitisa_default_cpu_allocator()->raw_dealloc(tmp_coords);
-    aitisa_default_cpu_allocator()->raw_dealloc(in_strides);
-    aitisa_default_cpu_allocator()->raw_dealloc(fil_strides);
-    aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
-    return STATUS_ALLOC_FAILED;
-  }
-
-  conv_output_dims(in_dims, fil_dims, stride, padding, dilation, ndim, out_dims);
-
-  Tensor new_tensor;
-  DataType dtype = aitisa_tensor_data_type(input);
-  Device device = aitisa_tensor_device(input);
-  // LayoutType layout_type = aitisa_tensor_layout_type(input);
-  Status status =
-      aitisa_create(dtype, device, out_dims, ndim, NULL, 0, &new_tensor);
-  if (status != STATUS_SUCCESS) {
-    aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
-    aitisa_default_cpu_allocator()->raw_dealloc(in_coords);
-    aitisa_default_cpu_allocator()->raw_dealloc(fil_coords);
-    aitisa_default_cpu_allocator()->raw_dealloc(out_coords);
-    aitisa_default_cpu_allocator()->raw_dealloc(tmp_coords);
-    aitisa_default_cpu_allocator()->raw_dealloc(in_strides);
-    aitisa_default_cpu_allocator()->raw_dealloc(fil_strides);
-    aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
-    return status;
-  }
-  *output_ptr = new_tensor;
-
-  aitisa_get_all_strides(input, in_strides);
-  aitisa_get_all_strides(filter, fil_strides);
-  aitisa_get_all_strides(*output_ptr, out_strides);
-
-  float *in_data = aitisa_tensor_data(input);
-  float *fil_data = aitisa_tensor_data(filter);
-  float *out_data = aitisa_tensor_data(*output_ptr);
-
-  int64_t out_space_size = size_from_dim(2, out_dims, ndim);
-  // int64_t in_space_size = size_from_dim(2, in_dims, ndim);
-  int64_t fil_space_size = size_from_dim(2, fil_dims, ndim);
-
-  int64_t nbatch = aitisa_tensor_dim(input, 0);
-  // Each group of output channels reads its own group of input channels
-  int64_t group_chan = aitisa_tensor_dim(filter, 1);
-  int64_t out_chan = aitisa_tensor_dim(*output_ptr, 1);
-  int64_t sdim = ndim - 2;
-
-  for (int64_t b = 0; b < nbatch; ++b) {
-    for (int64_t oc = 0; oc < out_chan; ++oc) {
-      for (int64_t out_idx = 0; out_idx < out_space_size; ++out_idx) {
-        aitisa_linidx_to_coords(*output_ptr, out_idx, out_coords);
-        out_coords[0] = b;
-        out_coords[1] = oc;
-
-        for (int64_t d = 0; d < sdim; ++d) {
-          in_coords[2 + d] = out_coords[2 + d] * stride[d] - padding[d];
-        }
-        in_coords[0] = b;
-
-        float tmp = 0.0;
-        int64_t group = oc / (out_chan / groups);
-        for (int64_t ic = 0; ic < group_chan; ++ic) {
-          in_coords[1] = group * group_chan + ic;
-          for (int64_t fil_idx = 0; fil_idx < fil_space_size; ++fil_idx) {
-            aitisa_linidx_to_coords(filter, fil_idx, fil_coords);
-            fil_coords[0] = oc;
-            fil_coords[1] = ic;
-
-            int inside = 1;
-            for (int64_t d = 0; d < sdim && inside; ++d) {
-              tmp_coords[2 + d] =
-                  in_coords[2 + d] + dilation[d] * fil_coords[2 + d];
-              if (tmp_coords[2 + d] < 0 || tmp_coords[2 + d] >= in_dims[2 + d])
-                inside = 0;
-            }
-            tmp_coords[0] = in_coords[0];
-            tmp_coords[1] = in_coords[1];
-
-            if (inside) {
-              int64_t in_offset =
-                  aitisa_coords_to_offset(input, tmp_coords, ndim);
-              int64_t fil_offset =
-                  aitisa_coords_to_offset(filter, fil_coords, ndim);
-              tmp += in_data[in_offset] * fil_data[fil_offset];
-            }
-          }
-          int64_t out_offset =
-              aitisa_coords_to_offset(*output_ptr, out_coords, ndim);
-          out_data[out_offset] = tmp;
-        }
-      }
-    }
-  }
-
-  aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
-  aitisa_default_cpu_allocator()->raw_dealloc(in_coords);
-  aitisa_default_cpu_allocator()->raw_dealloc(fil_coords);
-  aitisa_default_cpu_allocator()->raw_dealloc(out_coords);
-  aitisa_default_cpu_allocator()->raw_dealloc(in_strides);
-  aitisa_default_cpu_allocator()->raw_dealloc(fil_strides);
-  aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
-  aitisa_default_cpu_allocator()->raw_dealloc(tmp_coords);
-  return STATUS_SUCCESS;
-}
-
-/*
- * The implementation of the convolution operation. For now, it is only support
- * the float data type.
- */
-Status aitisa_conv(const Tensor input, const Tensor filter, const int *stride,
-                   const int *padding, const int *dilation, const int groups,
-                   Tensor *output_ptr) {
-  DataType dtype = aitisa_tensor_data_type(input);
-  switch (dtype.code) {
-    case TYPE_FLOAT:
-      CHECK_STATUS(conv_check_parameters(input, filter, stride, padding,
-                                         dilation, groups));
-      CHECK_STATUS(aitisa_conv_float(input, filter, stride, padding, dilation,
-                                     groups, output_ptr));
-      break;
-    default:
-      return STATUS_NOT_SUPPORTED;
-  }
-  return STATUS_SUCCESS;
-}
-
-Status aitisa_conv2d(const Tensor input, const Tensor filter, const int *stride,
-                     const int stride_len, const int *padding, const int padding_len, 
-                     const int *dilation, const int dilation_len, const int groups,
-                     Tensor *output_ptr) {
-  int64_t ndim = aitisa_tensor_ndim(input);
-  if(ndim != 4){
-    return STATUS_DIMENSIONS_MISMATCH;
-  }
-
-  return aitisa_conv(input, filter, stride, padding, dilation, groups, output_ptr);
-}
-
-Status aitisa_conv3d(const Tensor input, const Tensor filter, const int *stride,
-                     const int stride_len, const int *padding, const int padding_len, 
-                     const int *dilation, const int dilation_len, const int groups,
-                     Tensor *output_ptr) {
-  int64_t ndim = aitisa_tensor_ndim(input);
-  if(ndim != 5){
-    return STATUS_DIMENSIONS_MISMATCH;
-  }
-
-  return aitisa_conv(input, filter, stride, padding, dilation, groups, output_ptr);
-}
-
+#include "src/core/utils.h"
+#include "src/core/allocator.h"
+#include "src/basic/index_utils.h"
+#include "src/nn/conv.h"
+#include <stdio.h>
+
+/*
+ * Compute the output dims based on input dims, filter dims and other related
+ * configurations such as stride, padding, and dialation.
+ */
+static void conv_output_dims(const int64_t *input_dims,
+                             const int64_t *filter_dims, const int *stride,
+                             const int *padding, const int *dilation,
+                             int64_t ndim, int64_t *output_dims) {
+  output_dims[0] = input_dims[0];
+  output_dims[1] = filter_dims[0];
+  for (int64_t d = 2; d < ndim; ++d) {
+    int64_t kernel = dilation[d - 2] * (filter_dims[d] - 1) + 1;
+    output_dims[d] = (input_dims[d] + (2 * (int64_t)padding[d - 2])
+                        - kernel) / stride[d - 2] + 1;
+  }
+}
+
+/* Check that the filter and the configurations match the input. */
+static Status conv_check_parameters(const Tensor input, const Tensor filter,
+                                    const int *stride, const int *padding,
+                                    const int *dilation, const int groups) {
+  if (aitisa_tensor_data_type(input).code !=
+      aitisa_tensor_data_type(filter).code) {
+    return STATUS_TYPE_MISMATCH;
+  }
+  int64_t ndim = aitisa_tensor_ndim(input);
+  if (ndim < 2 || aitisa_tensor_ndim(filter) != ndim) {
+    return STATUS_DIMENSIONS_MISMATCH;
+  }
+  int64_t *in_dims = aitisa_tensor_dims(input);
+  int64_t *fil_dims = aitisa_tensor_dims(filter);
+  if (groups < 1 || in_dims[1] % groups != 0 || fil_dims[0] % groups != 0) {
+    return STATUS_INVALID_ARGUMENT;
+  }
+  if (fil_dims[1] != in_dims[1] / groups) {
+    return STATUS_DIMENSIONS_MISMATCH;
+  }
+  for (int64_t d = 2; d < ndim; ++d) {
+    if (stride[d - 2] < 1 || padding[d - 2] < 0 || dilation[d - 2] < 1) {
+      return STATUS_INVALID_ARGUMENT;
+    }
+    int64_t kernel = dilation[d - 2] * (fil_dims[d] - 1) + 1;
+    if (in_dims[d] + 2 * (int64_t)padding[d - 2] < kernel) {
+      return STATUS_INVALID_ARGUMENT;
+    }
+  }
+  return STATUS_SUCCESS;
+}
+
+/* The implementation of convolution for the float data type */
+static Status aitisa_conv_float(const Tensor input, const Tensor filter,
+                                const int *stride, const int *padding,
+                                const int *dilation, const int groups,
+                                Tensor *output_ptr) {
+  int64_t ndim = aitisa_tensor_ndim(input);
+  int64_t *in_dims = aitisa_tensor_dims(input);
+  int64_t *fil_dims = aitisa_tensor_dims(filter);
+  int64_t *out_dims =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_dims) * ndim);
+  int64_t *in_coords =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*in_coords) * ndim);
+  int64_t *fil_coords =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*fil_coords) * ndim);
+  int64_t *out_coords =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_coords) * ndim);
+  int64_t *tmp_coords =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*tmp_coords) * ndim);
+  int64_t *in_strides =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*in_strides) * ndim);
+  int64_t *fil_strides =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*fil_strides) * ndim);
+  int64_t *out_strides =
+      aitisa_default_cpu_allocator()->raw_alloc(sizeof(*out_strides) * ndim);
+  if (!out_dims || !in_coords || !fil_coords || !out_coords || !tmp_coords ||
+      !in_strides || !fil_strides || !out_strides) {
+    aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
+    aitisa_default_cpu_allocator()->raw_dealloc(in_coords);
+    aitisa_default_cpu_allocator()->raw_dealloc(fil_coords);
+    aitisa_default_cpu_allocator()->raw_dealloc(out_coords);
+    aitisa_default_cpu_allocator()->raw_dealloc(tmp_coords);
+    aitisa_default_cpu_allocator()->raw_dealloc(in_strides);
+    aitisa_default_cpu_allocator()->raw_dealloc(fil_strides);
+    aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
+    return STATUS_ALLOC_FAILED;
+  }
+
+  conv_output_dims(in_dims, fil_dims, stride, padding, dilation, ndim, out_dims);
+
+  Tensor new_tensor;
+  DataType dtype = aitisa_tensor_data_type(input);
+  Device device = aitisa_tensor_device(input);
+  // LayoutType layout_type = aitisa_tensor_layout_type(input);
+  Status status =
+      aitisa_create(dtype, device, out_dims, ndim, NULL, 0, &new_tensor);
+  if (status != STATUS_SUCCESS) {
+    aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
+    aitisa_default_cpu_allocator()->raw_dealloc(in_coords);
+    aitisa_default_cpu_allocator()->raw_dealloc(fil_coords);
+    aitisa_default_cpu_allocator()->raw_dealloc(out_coords);
+    aitisa_default_cpu_allocator()->raw_dealloc(tmp_coords);
+    aitisa_default_cpu_allocator()->raw_dealloc(in_strides);
+    aitisa_default_cpu_allocator()->raw_dealloc(fil_strides);
+    aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
+    return status;
+  }
+  *output_ptr = new_tensor;
+
+  aitisa_get_all_strides(input, in_strides);
+  aitisa_get_all_strides(filter, fil_strides);
+  aitisa_get_all_strides(*output_ptr, out_strides);
+
+  float *in_data = aitisa_tensor_data(input);
+  float *fil_data = aitisa_tensor_data(filter);
+  float *out_data = aitisa_tensor_data(*output_ptr);
+
+  int64_t out_space_size = size_from_dim(2, out_dims, ndim);
+  // int64_t in_space_size = size_from_dim(2, in_dims, ndim);
+  int64_t fil_space_size = size_from_dim(2, fil_dims, ndim);
+
+  int64_t nbatch = aitisa_tensor_dim(input, 0);
+  // Each group of output channels reads its own group of input channels
+  int64_t group_chan = aitisa_tensor_dim(filter, 1);
+  int64_t out_chan = aitisa_tensor_dim(*output_ptr, 1);
+  int64_t sdim = ndim - 2;
+
+  for (int64_t b = 0; b < nbatch; ++b) {
+    for (int64_t oc = 0; oc < out_chan; ++oc) {
+      for (int64_t out_idx = 0; out_idx < out_space_size; ++out_idx) {
+        aitisa_linidx_to_coords(*output_ptr, out_idx, out_coords);
+        out_coords[0] = b;
+        out_coords[1] = oc;
+
+        for (int64_t d = 0; d < sdim; ++d) {
+          in_coords[2 + d] = out_coords[2 + d] * stride[d] - padding[d];
+        }
+        in_coords[0] = b;
+
+        float tmp = 0.0;
+        int64_t group = oc / (out_chan / groups);
+        for (int64_t ic = 0; ic < group_chan; ++ic) {
+          in_coords[1] = group * group_chan + ic;
+          for (int64_t fil_idx = 0; fil_idx < fil_space_size; ++fil_idx) {
+            aitisa_linidx_to_coords(filter, fil_idx, fil_coords);
+            fil_coords[0] = oc;
+            fil_coords[1] = ic;
+
+            int inside = 1;
+            for (int64_t d = 0; d < sdim && inside; ++d) {
+              tmp_coords[2 + d] =
+                  in_coords[2 + d] + dilation[d] * fil_coords[2 + d];
+              if (tmp_coords[2 + d] < 0 || tmp_coords[2 + d] >= in_dims[2 + d])
+                inside = 0;
+            }
+            tmp_coords[0] = in_coords[0];
+            tmp_coords[1] = in_coords[1];
+
+            if (inside) {
+              int64_t in_offset =
+                  aitisa_coords_to_offset(input, tmp_coords, ndim);
+              int64_t fil_offset =
+                  aitisa_coords_to_offset(filter, fil_coords, ndim);
+              tmp += in_data[in_offset] * fil_data[fil_offset];
+            }
+          }
+          int64_t out_offset =
+              aitisa_coords_to_offset(*output_ptr, out_coords, ndim);
+          out_data[out_offset] = tmp;
+        }
+      }
+    }
+  }
+
+  aitisa_default_cpu_allocator()->raw_dealloc(out_dims);
+  aitisa_default_cpu_allocator()->raw_dealloc(in_coords);
+  aitisa_default_cpu_allocator()->raw_dealloc(fil_coords);
+  aitisa_default_cpu_allocator()->raw_dealloc(out_coords);
+  aitisa_default_cpu_allocator()->raw_dealloc(in_strides);
+  aitisa_default_cpu_allocator()->raw_dealloc(fil_strides);
+  aitisa_default_cpu_allocator()->raw_dealloc(out_strides);
+  aitisa_default_cpu_allocator()->raw_dealloc(tmp_coords);
+  return STATUS_SUCCESS;
+}
+
+/*
+ * The implementation of the convolution operation. For now, it is only support
+ * the float data type.
+ */
+Status aitisa_conv(const Tensor input, const Tensor filter, const int *stride,
+                   const int *padding, const int *dilation, const int groups,
+                   Tensor *output_ptr) {
+  DataType dtype = aitisa_tensor_data_type(input);
+  switch (dtype.code) {
+    case TYPE_FLOAT:
+      CHECK_STATUS(conv_check_parameters(input, filter, stride, padding,
+                                         dilation, groups));
+      CHECK_STATUS(aitisa_conv_float(input, filter, stride, padding, dilation,
+                                     groups, output_ptr));
+      break;
+    default:
+      return STATUS_NOT_SUPPORTED;
+  }
+  return STATUS_SUCCESS;
+}
+
+Status aitisa_conv2d(const Tensor input, const Tensor filter, const int *stride,
+                     const int stride_len, const int *padding, const int padding_len, 
+                     const int *dilation, const int dilation_len, const int groups,
+                     Tensor *output_ptr) {
+  int64_t ndim = aitisa_tensor_ndim(input);
+  if(ndim != 4){
+    return STATUS_DIMENSIONS_MISMATCH;
+  }
+
+  return aitisa_conv(input, filter, stride, padding, dilation, groups, output_ptr);
+}
+
+Status aitisa_conv3d(const Tensor input, const Tensor filter, const int *stride,
+                     const int stride_len, const int *padding, const int padding_len, 
+                     const int *dilation, const int dilation_len, const int groups,
+                     Tensor *output_ptr) {
+  int64_t ndim = aitisa_tensor_ndim(input);
+  if(ndim != 5){
+    return STATUS_DIMENSIONS_MISMATCH;
+  }
+
+  return aitisa_conv(input, filter, stride, padding, dilation, groups, output_ptr);
+}
+
-- 
2.43.0

