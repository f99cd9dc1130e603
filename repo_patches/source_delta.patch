From 97691b5c3e58a2c62fef0603f6731bab4db46e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 001/110] fix: scalarize of a single-element view reads the
 viewed element

---
 bland/bland/ndarray.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 9c554a0..6e7a4ac 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -215,13 +215,14 @@ int64_t bland::ndarray::ndim() const {
 
 template <typename T>
 T bland::ndarray::scalarize() const {
-    if (numel() > 1) {
-        throw std::runtime_error("scalarize: There is more than one element, so not a scalar. Cannot scalarize");
+    if (numel() != 1) {
+        throw std::runtime_error("scalarize: There is not exactly one element, so not a scalar. Cannot scalarize");
     }
     // You can only scalarize a cpu value...
     auto cpu_copy = bland::to(*this, "cpu");
     // TODO also check datatype makes sense to scalarize
-    return cpu_copy.data_ptr<T>()[0];
+    // The array may be a view in to a larger buffer so the offsets need to be respected
+    return cpu_copy.scalarize<T>(std::vector<int64_t>(cpu_copy.ndim(), 0));
 }
 
 template float    bland::ndarray::scalarize<float>() const;
@@ -242,7 +243,7 @@ T bland::ndarray::scalarize(const std::vector<int64_t> &nd_index) const {
         throw std::runtime_error("scalarize: wrong number of dimensions indexing to array");
     }
 
-    auto linear_offset = 0;
+    int64_t linear_offset = 0;
     for (int dim = 0; dim < nd_index.size(); ++dim) {
         linear_offset +=  _tensor._offsets[dim] +  nd_index[dim] * _tensor.strides[dim]; // TODO: also add offset
     }
-- 
2.43.0


From 7c8c00191d25709ce04775ee6c6ec86f4a249838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 002/110] fix: negative slice bounds are offsets from the end
 and invalid slices are rejected

---
 bland/bland/ndarray.cpp |  2 +-
 bland/bland/ops/ops.cpp | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 6e7a4ac..8b08963 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -181,7 +181,7 @@ std::vector<int64_t> bland::ndarray::shape() const {
 }
 
 int64_t bland::ndarray::size(int64_t axis) const {
-    if (axis < _tensor.ndim) {
+    if (axis >= 0 && axis < _tensor.ndim) {
         return _tensor.shape[axis];
     } else {
         throw std::invalid_argument("bad axis for ndim");
diff --git a/bland/bland/ops/ops.cpp b/bland/bland/ops/ops.cpp
index 7e3b7b4..d965ce1 100644
--- a/bland/bland/ops/ops.cpp
+++ b/bland/bland/ops/ops.cpp
@@ -165,15 +165,19 @@ ndarray_slice bland::slice(const ndarray &a, int64_t dim, int64_t start, int64_t
 
     ndarray_slice sliced(a);
 
+    if (stride < 1) {
+        throw std::invalid_argument("slice: stride must be at least 1");
+    }
     if (start < 0) {
         // Negative is an offset from the end
-        start = a.size(dim) + start - 1;
-    } else if (start > a.size(dim)) {
-        throw std::out_of_range("Invalid start for stride (begins beyond the end)");
+        start = a.size(dim) + start;
+    }
+    if (start < 0 || start > a.size(dim)) {
+        throw std::out_of_range("Invalid start for stride (begins outside of the array)");
     }
     if (end < 0) {
         // Negative is an offset from the end
-        end = a.size(dim) + end - 1;
+        end = a.size(dim) + end;
     } else if (end > a.size(dim)) {
         end = a.size(dim);
     }
-- 
2.43.0


From 4bb75edffd9e77975cfe2c6119b74b5d4567a851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 003/110] fix: squeeze keeps the offset of the squeezed axis

---
 bland/bland/ndarray.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 8b08963..9d31e2f 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -671,6 +671,12 @@ ndarray bland::ndarray::squeeze(int64_t squeeze_axis) {
             new_offsets.push_back(_tensor._offsets[axis]);
         }
     }
+    // The squeezed axis may be a view that doesn't begin at the first item, keep the offset it contributed
+    if (!new_offsets.empty()) {
+        new_offsets.front() += _tensor._offsets[squeeze_axis];
+    } else {
+        _tensor.data = static_cast<char *>(_tensor.data) + _tensor._offsets[squeeze_axis] * (_tensor.dtype.bits / 8);
+    }
     _tensor._shape_ownership   = new_shape;
     _tensor.shape              = _tensor._shape_ownership.data();
     _tensor._strides_ownership = new_strides;
-- 
2.43.0


From 41472a49966a4eef263a377238b49ede0967a071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 004/110] fix: unsqueeze rejects axes outside of the array

---
 bland/bland/ndarray.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 9d31e2f..b630fe9 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -687,6 +687,11 @@ ndarray bland::ndarray::squeeze(int64_t squeeze_axis) {
 }
 
 ndarray bland::ndarray::unsqueeze(const int64_t unsqueeze_axis) {
+    if (unsqueeze_axis < 0 || unsqueeze_axis > ndim()) {
+        auto error_message = fmt::format(
+                "ndarray::unsqueeze({}) cannot insert that axis in a tensor with {} dims", unsqueeze_axis, ndim());
+        throw std::runtime_error(error_message);
+    }
     auto    new_shape      = std::vector<int64_t>();
     auto    new_strides    = std::vector<int64_t>();
     auto    new_offsets    = std::vector<int64_t>();
-- 
2.43.0


From 04d6b7e321f02ebced13e56780df4591a7491643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 005/110] fix: reshape gives correct strides and copies views
 that are not dense

---
 bland/bland/ndarray.cpp | 68 ++++++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 28 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index b630fe9..7d73895 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -597,38 +597,50 @@ ndarray bland::ndarray::reshape(const std::vector<int64_t> &new_shape) {
         throw std::runtime_error(error_message);
     }
 
-    if (new_shape.size() != _tensor.ndim) {
-        // This won't always be right and I think sometimes it might be required to make
-        // a copy. That's what pytorch does if the new shape isn't compatible due to strides
-        int64_t new_ndim = new_shape.size();
-        // We can collapse all offsets to the last dimension
-        auto new_offsets   = std::vector<int64_t>(new_ndim, 0);
-        new_offsets.back() = std::accumulate(_tensor._offsets.begin(), _tensor._offsets.end(), 0);
-        _tensor._offsets   = new_offsets;
-
-        // Number of dims changing means we need to update strides
-        auto    new_strides        = std::vector<int64_t>(new_ndim, 0);
-        int     old_stride_axis    = _tensor.ndim - 1;
-        int64_t accumulated_stride = 1;
-        for (int axis = new_ndim - 1; axis >= 0; --axis) {
-            if (old_stride_axis > 0) {
-                accumulated_stride *= _tensor.strides[old_stride_axis];
-                new_strides[axis] = _tensor.strides[old_stride_axis];
-                old_stride_axis -= 1;
-            } else {
-                new_strides[axis] = accumulated_stride;
-                accumulated_stride *= new_shape[axis];
-            }
+    for (const auto &dim_size : new_shape) {
+        if (dim_size < 0) {
+            throw std::runtime_error(fmt::format("reshape to {} is not a valid shape", new_shape));
+        }
+    }
+
+    // A dense (row-major) array can be viewed with any shape. Anything else (slices, strides...) is copied to a dense
+    // array first
+    int64_t dense_stride = 1;
+    bool    is_dense     = true;
+    for (int axis = _tensor.ndim - 1; axis >= 0; --axis) {
+        if (_tensor.shape[axis] != 1 && _tensor.strides[axis] != dense_stride) {
+            is_dense = false;
         }
-        _tensor._strides_ownership = new_strides;
-        _tensor.strides            = _tensor._strides_ownership.data();
-        _tensor.ndim               = new_ndim;
+        dense_stride *= _tensor.shape[axis];
+    }
+    if (!is_dense) {
+        *this = bland::copy(*this);
+    }
+
+    int64_t offset = std::accumulate(_tensor._offsets.begin(), _tensor._offsets.end(), int64_t{0});
+
+    auto    new_ndim    = new_shape.size();
+    auto    new_strides = std::vector<int64_t>(new_ndim, 0);
+    int64_t stride      = 1;
+    for (int axis = static_cast<int>(new_ndim) - 1; axis >= 0; --axis) {
+        new_strides[axis] = stride;
+        stride *= new_shape[axis];
+    }
+
+    // We can collapse all offsets to the last dimension
+    auto new_offsets = std::vector<int64_t>(new_ndim, 0);
+    if (!new_offsets.empty()) {
+        new_offsets.back() = offset;
     } else {
-        throw std::runtime_error("This reshape would require a copy which isn't yet implemented");
+        _tensor.data = static_cast<char *>(_tensor.data) + offset * (_tensor.dtype.bits / 8);
     }
 
-    _tensor._shape_ownership = new_shape;
-    _tensor.shape            = _tensor._shape_ownership.data();
+    _tensor._offsets           = new_offsets;
+    _tensor._strides_ownership = new_strides;
+    _tensor.strides            = _tensor._strides_ownership.data();
+    _tensor.ndim               = new_ndim;
+    _tensor._shape_ownership   = new_shape;
+    _tensor.shape              = _tensor._shape_ownership.data();
 
     return *this;
 }
-- 
2.43.0


From 29d6f430c561eb0fcb1e8d426f4530ccb2f248e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 006/110] fix: copy checks shapes and broadcasts from the
 source's own shape

---
 bland/bland/ops/cpu/elementwise_unary_op.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ops/cpu/elementwise_unary_op.hpp b/bland/bland/ops/cpu/elementwise_unary_op.hpp
index bdc9848..bf36710 100644
--- a/bland/bland/ops/cpu/elementwise_unary_op.hpp
+++ b/bland/bland/ops/cpu/elementwise_unary_op.hpp
@@ -34,8 +34,6 @@ ndarray elementwise_unary_op(ndarray &out, const ndarray &a) {
     auto out_strides = out.strides();
     auto out_offset  = out.offsets();
 
-    a_shape = compute_broadcast_shape(a_shape, out_shape);
-    a_strides = compute_broadcast_strides(a_shape, a_strides, out_shape);
     if (a.ndim() == out.ndim()) {
         for (int dim = 0; dim < a.ndim(); ++dim) {
             if (a_shape[dim] != out_shape[dim] && a_shape[dim] != 1) {
@@ -45,6 +43,8 @@ ndarray elementwise_unary_op(ndarray &out, const ndarray &a) {
     } else {
         throw std::runtime_error("out rank does not match in rank. Cannot store output in provided tensor");
     }
+    a_strides = compute_broadcast_strides(a_shape, a_strides, out_shape);
+    a_shape   = compute_broadcast_shape(a_shape, out_shape);
 
     // Current (multi-dimensional) index for a and out
     std::vector<int64_t> nd_index(out_shape.size(), 0);
-- 
2.43.0


From 203ee9df88e03c28245069bf4983ced08d8359b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 007/110] fix: assigning an array keeps its data pointer when
 the data is borrowed

---
 bland/bland/bland_tensor_internals.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bland/bland/bland_tensor_internals.cpp b/bland/bland/bland_tensor_internals.cpp
index a8a420c..3973ef8 100644
--- a/bland/bland/bland_tensor_internals.cpp
+++ b/bland/bland/bland_tensor_internals.cpp
@@ -173,7 +173,8 @@ blandDLTensor &blandDLTensor::operator=(const blandDLTensor &other) {
     if (this != &other) {
         this->byte_offset     = other.byte_offset;
         this->_data_ownership = other._data_ownership; // shared_ptr increases refcount
-        this->data            = static_cast<void *>(this->_data_ownership.get());
+        // Borrowed tensors (views from another framework) have no owned data, so always take the pointer itself
+        this->data            = other.data;
 
         this->device = other.device;
         this->dtype  = other.dtype;
-- 
2.43.0


From fc391e73dab3001f965acc427cce86e7171b0723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 008/110] fix: subtract and multiply broadcast the first array
 like add and divide do

---
 bland/bland/ops/cpu/arithmetic_cpu.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ops/cpu/arithmetic_cpu.cpp b/bland/bland/ops/cpu/arithmetic_cpu.cpp
index 8e01251..26a92e4 100644
--- a/bland/bland/ops/cpu/arithmetic_cpu.cpp
+++ b/bland/bland/ops/cpu/arithmetic_cpu.cpp
@@ -34,7 +34,8 @@ ndarray bland::cpu::add_cpu<ndarray_slice>(ndarray a, ndarray_slice b) {
 // Subtracts...
 template <> // Specialize for adding an array
 ndarray bland::cpu::subtract_cpu<ndarray>(ndarray a, ndarray b) {
-    auto out = ndarray(a.shape(), a.dtype(), a.device());
+    auto out_shape = expand_shapes_to_broadcast(a.shape(), b.shape());
+    auto out = ndarray(out_shape, a.dtype(), a.device());
     return dispatch<elementwise_binary_op_impl_wrapper<elementwise_subtract_op_ts>>(out, a, b);
 }
 template <>
@@ -45,7 +46,8 @@ ndarray bland::cpu::subtract_cpu<ndarray_slice>(ndarray a, ndarray_slice b) {
 // Multiplies...
 template <> // Specialize for adding an array
 ndarray bland::cpu::multiply_cpu<ndarray>(ndarray a, ndarray b) {
-    auto out = ndarray(a.shape(), a.dtype(), a.device());
+    auto out_shape = expand_shapes_to_broadcast(a.shape(), b.shape());
+    auto out = ndarray(out_shape, a.dtype(), a.device());
     return dispatch<elementwise_binary_op_impl_wrapper<elementwise_multiply_op_ts>>(out, a, b);
 }
 template <>
-- 
2.43.0


From b01b780ec39da211ae64487d75191f9f12dda4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 009/110] fix: broadcasting aligns trailing dimensions of
 arrays with different ranks

---
 .../internal/include/internal/shape_helpers.cpp      | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/bland/bland/internal/include/internal/shape_helpers.cpp b/bland/bland/internal/include/internal/shape_helpers.cpp
index 332c6c0..0425ac0 100644
--- a/bland/bland/internal/include/internal/shape_helpers.cpp
+++ b/bland/bland/internal/include/internal/shape_helpers.cpp
@@ -56,15 +56,13 @@ std::vector<int64_t> bland::compute_broadcast_strides(const std::vector<int64_t>
 }
 
 std::vector<int64_t> bland::compute_broadcast_shape(std::vector<int64_t> shape, std::vector<int64_t> out_shape) {
-    std::vector<int64_t> broadcast_shape(out_shape.size());
+    std::vector<int64_t> broadcast_shape(out_shape.size(), 1);
 
-    size_t input_shape_index = 0;
-    for (size_t i = 0; i < out_shape.size(); ++i) {
-        if (shape[input_shape_index] == out_shape[i] || shape[input_shape_index] == 1) {
+    // Trailing dimensions are aligned with each other, missing leading dimensions act like size 1
+    int64_t offset = static_cast<int64_t>(out_shape.size()) - static_cast<int64_t>(shape.size());
+    for (int64_t i = 0; i < static_cast<int64_t>(out_shape.size()); ++i) {
+        if (i < offset || shape[i - offset] == out_shape[i] || shape[i - offset] == 1) {
             broadcast_shape[i] = out_shape[i];
-            input_shape_index += 1;
-        } else {
-            broadcast_shape[i] = 1;
         }
     }
 
-- 
2.43.0


From 1df587145b2d34b200d9ff6dba08c1af936bf384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 010/110] fix: scalar minus array and scalar over array keep
 their operand order

---
 bland/bland/ndarray.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 7d73895..a3afa54 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -480,7 +480,8 @@ template ndarray bland::ndarray::operator-<uint32_t>(const uint32_t &b) const;
 template <typename T>
 typename std::enable_if<std::is_arithmetic<T>::value, ndarray>::type bland::operator-(const T       &lhs,
                                                                                       const ndarray &rhs) {
-    return rhs - lhs;
+    // subtraction isn't commutative so the scalar needs to be the first array (broadcast with the second)
+    return ndarray(std::vector<int64_t>(rhs.ndim(), 1), lhs, rhs.dtype(), rhs.device()) - rhs;
 }
 
 template ndarray bland::operator-<float>(const float &lhs, const ndarray &rhs);
@@ -570,7 +571,8 @@ template ndarray bland::ndarray::operator/<uint32_t>(const uint32_t &b) const;
 template <typename T>
 typename std::enable_if<std::is_arithmetic<T>::value, ndarray>::type bland::operator/(const T       &lhs,
                                                                                       const ndarray &rhs) {
-    return rhs * lhs;
+    // division isn't commutative so the scalar needs to be the first array (broadcast with the second)
+    return ndarray(std::vector<int64_t>(rhs.ndim(), 1), lhs, rhs.dtype(), rhs.device()) / rhs;
 }
 
 template ndarray bland::operator/<float>(const float &lhs, const ndarray &rhs);
-- 
2.43.0


From 0a3a221e49190a463b352f0cc86b91fba1fd6b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 011/110] fix: masked statistics read the mask through its own
 layout

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 741d99d..1b2a691 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -177,11 +177,13 @@ struct masked_mean_impl {
             int64_t          elements_in_mean = 0;
             for (int jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
+                int64_t mask_linear_index  = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
+                    mask_linear_index += mask_offset[axis] + (reduce_nd_index[axis] % mask_shape[axis]) * mask_strides[axis];
                 }
-                if (mask_data[input_linear_index] == 0) {
+                if (mask_data[mask_linear_index] == 0) {
                     mean += a_data[input_linear_index];
                     elements_in_mean += 1;
                 }
@@ -421,11 +423,13 @@ struct masked_stddev_impl {
 
             for (int jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
+                int64_t mask_linear_index  = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
+                    mask_linear_index += mask_offset[axis] + (reduce_nd_index[axis] % mask_shape[axis]) * mask_strides[axis];
                 }
-                if (mask_data[input_linear_index] == 0) {
+                if (mask_data[mask_linear_index] == 0) {
                     auto x = a_data[input_linear_index];
                     accum_x += x;
                     accum_x2 += static_cast<accumulator_type>(x) * x;
@@ -677,11 +681,13 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
 
             for (int jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
+                int64_t mask_linear_index  = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
+                    mask_linear_index += mask_offset[axis] + (reduce_nd_index[axis] % mask_shape[axis]) * mask_strides[axis];
                 }
-                if (mask_data[input_linear_index] == 0) {
+                if (mask_data[mask_linear_index] == 0) {
                     auto x = a_data[input_linear_index];
                     accum_x += x;
                     accum_x2 += static_cast<accumulator_type>(x) * x;
-- 
2.43.0


From f816de229c71cb78739b139626e43a1f06fae788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 012/110] fix: masked statistics reject every mask that is not
 uint8

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 1b2a691..866629b 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -147,7 +147,7 @@ struct masked_mean_impl {
             reduced_elements *= a_shape[d];
         }
 
-        if (mask.dtype().code != ndarray::datatype::uint8.code && mask.dtype().bits != 8) {
+        if (mask.dtype().code != ndarray::datatype::uint8.code || mask.dtype().bits != 8) {
             throw std::runtime_error("masked_mean: mask dtype is not uint8_t");
         }
         auto mask_data    = mask.data_ptr<uint8_t>();
@@ -380,7 +380,7 @@ struct masked_stddev_impl {
         auto                 a_offset  = a.offsets();
         std::vector<int64_t> input_index(a_shape.size(), 0);
 
-        if (mask.dtype().code != ndarray::datatype::uint8.code && mask.dtype().bits != 8) {
+        if (mask.dtype().code != ndarray::datatype::uint8.code || mask.dtype().bits != 8) {
             throw std::runtime_error("masked_mean: mask dtype is not uint8_t");
         }
         auto mask_data    = mask.data_ptr<uint8_t>();
@@ -638,7 +638,7 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
         auto                 a_offset  = a.offsets();
         std::vector<int64_t> input_index(a_shape.size(), 0);
 
-        if (mask.dtype().code != ndarray::datatype::uint8.code && mask.dtype().bits != 8) {
+        if (mask.dtype().code != ndarray::datatype::uint8.code || mask.dtype().bits != 8) {
             throw std::runtime_error("masked_mean: mask dtype is not uint8_t");
         }
         auto mask_data    = mask.data_ptr<uint8_t>();
-- 
2.43.0


From c7b08547fc9d3ac3343fc27ee7e58db6d94fddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 013/110] fix: masked deviation of (nearly) constant data is
 never NaN from rounding

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 866629b..5e99051 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -458,7 +458,8 @@ struct masked_stddev_impl {
                 throw std::runtime_error("masked_stddev: there are no non-masked elements to take the mean of");
             }
             auto mean = accum_x / elements_in_dev;
-            out_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(accum_x2 / elements_in_dev - mean*mean));
+            auto diff = std::max((accumulator_type) 0, (accumulator_type)(accum_x2 / elements_in_dev - mean*mean));
+            out_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(diff));
 
             // Increment the multi-dimensional output index
             for (int axis = out_shape.size() - 1; axis >= 0; --axis) {
@@ -716,8 +717,9 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
                 throw std::runtime_error("masked_stddev: there are no non-masked elements to take the mean of");
             }
             auto mean = accum_x / elements_in_dev;
+            auto diff = std::max((accumulator_type) 0, (accumulator_type)(accum_x2 / elements_in_dev - mean*mean));
             out_mean_data[out_linear_index] = static_cast<out_datatype>(mean);
-            out_stddev_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(accum_x2 / elements_in_dev - mean*mean));
+            out_stddev_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(diff));
 
             // Increment the multi-dimensional output index
             for (int axis = out_mean_shape.size() - 1; axis >= 0; --axis) {
-- 
2.43.0


From 6cddc2b3dadc803935caef35f624de0976c0f972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 014/110] fix: sigma clipping starts from a uint8 mask so it
 can run

---
 bliss/flaggers/sigmaclip.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/flaggers/sigmaclip.cpp b/bliss/flaggers/sigmaclip.cpp
index d52be2a..9e58dbb 100644
--- a/bliss/flaggers/sigmaclip.cpp
+++ b/bliss/flaggers/sigmaclip.cpp
@@ -11,7 +11,7 @@ using namespace bliss;
 bland::ndarray bliss::flag_sigmaclip(const bland::ndarray &data, int max_iter, float low, float high) {
 
     constexpr float eps = 1e-6;
-    auto            rfi = bland::zeros(data.shape(), data.dtype(), data.device());
+    auto            rfi = bland::zeros(data.shape(), bland::ndarray::datatype::uint8, data.device());
 
     auto [mean, stddev] = bland::masked_mean_stddev(data, rfi);
     for (int iter = 0; iter < max_iter; ++iter) {
-- 
2.43.0


From e6514c40de801247b65fe5e8a823d3db226e4a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 015/110] fix: comparisons of arrays broadcast the first array
 too

---
 bland/bland/ops/cpu/comparison_cpu.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/bland/bland/ops/cpu/comparison_cpu.cpp b/bland/bland/ops/cpu/comparison_cpu.cpp
index c8f93c9..922e546 100644
--- a/bland/bland/ops/cpu/comparison_cpu.cpp
+++ b/bland/bland/ops/cpu/comparison_cpu.cpp
@@ -4,6 +4,7 @@
 #include "bland/ndarray_slice.hpp"
 
 #include "internal/dispatcher.hpp"
+#include "internal/shape_helpers.hpp"
 #include "elementwise_binary_op.hpp"
 #include "elementwise_scalar_op.hpp"
 
@@ -25,7 +26,8 @@ ndarray bland::cpu::greater_than(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<greater_than_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -72,7 +74,8 @@ ndarray bland::cpu::greater_than_equal_to(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_equal_to_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<greater_than_equal_to_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -116,7 +119,8 @@ ndarray bland::cpu::less_than(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<less_than_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -160,7 +164,8 @@ ndarray bland::cpu::less_than_equal_to(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_equal_to_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<less_than_equal_to_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -204,7 +209,8 @@ ndarray bland::cpu::logical_and(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, logical_and_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<logical_and_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -251,7 +257,8 @@ ndarray bland::cpu::equal_to(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, equal_to_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<equal_to_impl>, uint8_t>(out, lhs, rhs);
     }
 }
-- 
2.43.0


From cc07b801e97ec3878a1cd7aed7ff810e934a6662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 016/110] fix: comparisons with the scalar on the left keep
 their operand order

---
 bland/bland/ops/cpu/comparison_cpu.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bland/bland/ops/cpu/comparison_cpu.cpp b/bland/bland/ops/cpu/comparison_cpu.cpp
index 922e546..569293d 100644
--- a/bland/bland/ops/cpu/comparison_cpu.cpp
+++ b/bland/bland/ops/cpu/comparison_cpu.cpp
@@ -20,7 +20,8 @@ template <typename L, typename R>
 ndarray bland::cpu::greater_than(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_impl>(out, rhs, lhs);
+        // the scalar op has the array first, so mirror the comparison
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_impl>(out, rhs, lhs);
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_impl>(out, lhs, rhs);
@@ -68,7 +69,8 @@ template <typename L, typename R>
 ndarray bland::cpu::greater_than_equal_to(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_equal_to_impl>(out, rhs, lhs);
+        // the scalar op has the array first, so mirror the comparison
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_equal_to_impl>(out, rhs, lhs);
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_equal_to_impl>(out, lhs, rhs);
@@ -113,7 +115,8 @@ template <typename L, typename R>
 ndarray bland::cpu::less_than(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_impl>(out, rhs, lhs);
+        // the scalar op has the array first, so mirror the comparison
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_impl>(out, rhs, lhs);
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_impl>(out, lhs, rhs);
@@ -158,7 +161,8 @@ template <typename L, typename R>
 ndarray bland::cpu::less_than_equal_to(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_equal_to_impl>(out, rhs, lhs);
+        // the scalar op has the array first, so mirror the comparison
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_equal_to_impl>(out, rhs, lhs);
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_equal_to_impl>(out, lhs, rhs);
-- 
2.43.0


From e51bf8256a7f01617aaf4c3885935bbfe8332157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 017/110] fix: comparisons between different element types
 compare the values

---
 bland/bland/ops/cpu/comparison_cpu_impl.hpp | 26 +++++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/bland/bland/ops/cpu/comparison_cpu_impl.hpp b/bland/bland/ops/cpu/comparison_cpu_impl.hpp
index fa38cda..a0b1812 100644
--- a/bland/bland/ops/cpu/comparison_cpu_impl.hpp
+++ b/bland/bland/ops/cpu/comparison_cpu_impl.hpp
@@ -1,43 +1,59 @@
 #pragma once
 
+#include <cstdint>
 #include <stdexcept>
 #include <type_traits>
 
 
 namespace bland {
 
+/**
+ * Type two values of type A and B are compared in. The usual arithmetic conversions change values when comparing signed
+ * with unsigned 32 bit types (negative numbers wrap around) or integers with floats (large integers are rounded).
+ */
+template <typename A, typename B>
+using comparison_type = std::conditional_t<
+        std::is_same_v<A, B>,
+        A,
+        std::conditional_t<std::is_integral_v<A> && std::is_integral_v<B>, int64_t, double>>;
+
 struct greater_than_impl {
     template <typename Out, typename A, typename B>
     static inline Out call(const A &a, const B &b) {
-        return static_cast<Out>(a > b);
+        using C = comparison_type<A, B>;
+        return static_cast<Out>(static_cast<C>(a) > static_cast<C>(b));
     }
 };
 
 struct greater_than_equal_to_impl {
     template <typename Out, typename A, typename B>
     static inline Out call(const A &a, const B &b) {
-        return static_cast<Out>(a >= b);
+        using C = comparison_type<A, B>;
+        return static_cast<Out>(static_cast<C>(a) >= static_cast<C>(b));
     }
 };
 
 struct less_than_equal_to_impl {
     template <typename Out, typename A, typename B>
     static inline Out call(const A &a, const B &b) {
-        return static_cast<Out>(a <= b);
+        using C = comparison_type<A, B>;
+        return static_cast<Out>(static_cast<C>(a) <= static_cast<C>(b));
     }
 };
 
 struct less_than_impl {
     template <typename Out, typename A, typename B>
     static inline Out call(const A &a, const B &b) {
-        return static_cast<Out>(a < b);
+        using C = comparison_type<A, B>;
+        return static_cast<Out>(static_cast<C>(a) < static_cast<C>(b));
     }
 };
 
 struct equal_to_impl {
     template <typename Out, typename A, typename B>
     static inline Out call(const A &a, const B &b) {
-        return static_cast<Out>(a == b);
+        using C = comparison_type<A, B>;
+        return static_cast<Out>(static_cast<C>(a) == static_cast<C>(b));
     }
 };
 
-- 
2.43.0


From 5ce9edde0e4c4aab5d999a1d7a151ad9d4a11c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:36 +0000
Subject: [PATCH 018/110] fix: var and masked_var store the variance in the
 output array given

---
 bland/bland/ops/statistical.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ops/statistical.cpp b/bland/bland/ops/statistical.cpp
index 09aee62..77eeca6 100644
--- a/bland/bland/ops/statistical.cpp
+++ b/bland/bland/ops/statistical.cpp
@@ -325,7 +325,7 @@ std::pair<ndarray, ndarray> bland::masked_mean_stddev(const ndarray &a, const nd
 // TODO: we have a cuda var, implement a cpu one and dispatch appropriately...
 ndarray bland::var(const ndarray &a, ndarray &out, std::vector<int64_t> reduced_axes) {
     stddev(a, out, reduced_axes);
-    return square(out);
+    return square(out, out);
 }
 ndarray bland::var(const ndarray &a, std::vector<int64_t> reduced_axes) {
     auto out = stddev(a, reduced_axes);
@@ -334,7 +334,7 @@ ndarray bland::var(const ndarray &a, std::vector<int64_t> reduced_axes) {
 
 ndarray bland::masked_var(const ndarray &a, const ndarray &mask, ndarray &out, std::vector<int64_t> reduced_axes) {
     masked_stddev(a, mask, out, reduced_axes);
-    return square(out);
+    return square(out, out);
 }
 ndarray bland::masked_var(const ndarray &a, const ndarray &mask, std::vector<int64_t> reduced_axes) {
     auto out = masked_stddev(a, mask, reduced_axes);
-- 
2.43.0


From 48b1bc5de40b33439990543635d95a16656a01e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 019/110] fix: mean_stddev writes each output through its own
 layout

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 5e99051..775c37b 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -571,15 +571,19 @@ bland::cpu::mean_stddev(const ndarray &a, ndarray &out_mean, ndarray &out_stddev
         }
 
         // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
-        int64_t out_linear_index = 0;
+        // the two outputs may be laid out differently
+        int64_t out_linear_index        = 0;
+        int64_t out_stddev_linear_index = 0;
         for (int axis = 0; axis < out_mean_shape.size(); ++axis) {
             out_linear_index +=
                     out_mean_offset[axis] + (out_mean_index[axis] % out_mean_shape[axis]) * out_mean_strides[axis];
+            out_stddev_linear_index += out_stddev_offset[axis] +
+                                       (out_mean_index[axis] % out_stddev_shape[axis]) * out_stddev_strides[axis];
         }
 
         auto diff = std::max((accumulator_type)0, (accumulator_type)(accum_x2 - accum_x * accum_x));
         out_mean_data[out_linear_index]   = static_cast<out_datatype>(accum_x);
-        out_stddev_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(diff));
+        out_stddev_data[out_stddev_linear_index] = static_cast<out_datatype>(std::sqrt(diff));
 
         // Increment the multi-dimensional output index
         for (int axis = out_mean_shape.size() - 1; axis >= 0; --axis) {
@@ -708,9 +712,13 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
             }
 
             // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
-            int64_t out_linear_index = 0;
+            // the two outputs may be laid out differently
+            int64_t out_linear_index        = 0;
+            int64_t out_stddev_linear_index = 0;
             for (int axis = 0; axis < out_mean_shape.size(); ++axis) {
                 out_linear_index += out_mean_offset[axis] + (out_mean_index[axis] % out_mean_shape[axis]) * out_mean_strides[axis];
+                out_stddev_linear_index += out_stddev_offset[axis] +
+                                           (out_mean_index[axis] % out_stddev_shape[axis]) * out_stddev_strides[axis];
             }
 
             if (elements_in_dev == 0) {
@@ -719,7 +727,7 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
             auto mean = accum_x / elements_in_dev;
             auto diff = std::max((accumulator_type) 0, (accumulator_type)(accum_x2 / elements_in_dev - mean*mean));
             out_mean_data[out_linear_index] = static_cast<out_datatype>(mean);
-            out_stddev_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(diff));
+            out_stddev_data[out_stddev_linear_index] = static_cast<out_datatype>(std::sqrt(diff));
 
             // Increment the multi-dimensional output index
             for (int axis = out_mean_shape.size() - 1; axis >= 0; --axis) {
-- 
2.43.0


From a62c8ade882af4bfd89003ced4b7f6106607373d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:59 +0000
Subject: [PATCH 020/110] fix: tensors borrowed from dlpack honour byte_offset
 and missing strides and own their shape

---
 bland/bland/bland_tensor_internals.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/bland/bland/bland_tensor_internals.cpp b/bland/bland/bland_tensor_internals.cpp
index 3973ef8..4a07c72 100644
--- a/bland/bland/bland_tensor_internals.cpp
+++ b/bland/bland/bland_tensor_internals.cpp
@@ -30,18 +30,25 @@ blandDLTensor::blandDLTensor(DLManagedTensor other_tensor) {
     _shape_ownership   = std::vector<int64_t>(other_tensor.dl_tensor.shape,
                                             other_tensor.dl_tensor.shape + other_tensor.dl_tensor.ndim);
     DLTensor::shape    = _shape_ownership.data();
-    _strides_ownership = std::vector<int64_t>(other_tensor.dl_tensor.strides,
-                                              other_tensor.dl_tensor.strides + other_tensor.dl_tensor.ndim);
+    if (other_tensor.dl_tensor.strides != nullptr) {
+        _strides_ownership = std::vector<int64_t>(other_tensor.dl_tensor.strides,
+                                                  other_tensor.dl_tensor.strides + other_tensor.dl_tensor.ndim);
+    } else {
+        // dlpack allows leaving out the strides of a compact row-major tensor
+        _strides_ownership = std::vector<int64_t>(DLTensor::ndim, 1);
+        for (int dim = DLTensor::ndim - 2; dim >= 0; --dim) {
+            _strides_ownership[dim] = _strides_ownership[dim + 1] * _shape_ownership[dim + 1];
+        }
+    }
     DLTensor::strides  = _strides_ownership.data();
 
-    // dlpack can't support offsets, so they must be 0
+    // dlpack only has one offset (in bytes) rather than an offset per dim, apply it to the data pointer
     blandDLTensor::_offsets = std::vector<int64_t>(DLTensor::ndim, 0);
+    DLTensor::byte_offset   = 0;
 
     DLTensor::device  = other_tensor.dl_tensor.device;
     DLTensor::dtype   = other_tensor.dl_tensor.dtype;
-    DLTensor::data    = other_tensor.dl_tensor.data;
-    DLTensor::shape   = other_tensor.dl_tensor.shape;
-    DLTensor::strides = other_tensor.dl_tensor.strides;
+    DLTensor::data    = static_cast<char *>(other_tensor.dl_tensor.data) + other_tensor.dl_tensor.byte_offset;
     // TODO, need to keep a reference to this and call its deleter eventually
 }
 
-- 
2.43.0


From 35f0191908f42d7d0ad606e84acf8aa3c0b801f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 021/110] fix: views exported to dlpack start at their first
 element and their tensor is freed

---
 bland/bland/bland_tensor_internals.cpp | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/bland/bland/bland_tensor_internals.cpp b/bland/bland/bland_tensor_internals.cpp
index 4a07c72..8720508 100644
--- a/bland/bland/bland_tensor_internals.cpp
+++ b/bland/bland/bland_tensor_internals.cpp
@@ -202,22 +202,6 @@ blandDLTensor &blandDLTensor::operator=(const blandDLTensor &other) {
 
 // Method to export to other frameworks
 DLManagedTensor *blandDLTensor::to_dlpack() {
-    // TODO: if we have a non-zero offset we need to make a copy
-    // under some conditions we should be able to use the byte_offset instead of copying
-    // but need to think through corner cases
-    bool copy_required = false;
-    for (const auto &offset : _offsets) {
-        if (offset > 0) {
-            copy_required = true;
-            break;
-        }
-    }
-    if (copy_required) {
-        // auto dense_copy = copy(*this);
-        fmt::print("deep copy of data buf required");
-        // TODO actually do the copy...
-    }
-
     // Create a DLManagedTensor that shares the memory with the NDArray
     // Set the deleter function to be called when the DLManagedTensor is destroyed
     DLManagedTensor *tensor = new DLManagedTensor;
@@ -226,6 +210,10 @@ DLManagedTensor *blandDLTensor::to_dlpack() {
 
     // Dynamically allocate a new blandDLTensor to co-own underlying data
     auto context_owner  = new blandDLTensor(*this);
+    // dlpack has no offset per dim, so point to the first element of this view
+    int64_t offset       = std::accumulate(_offsets.begin(), _offsets.end(), 0LL);
+    context_owner->data  = static_cast<char *>(data) + offset * (dtype.bits / 8);
+    context_owner->_offsets.assign(ndim, 0);
     tensor->dl_tensor   = *context_owner;
     tensor->manager_ctx = context_owner;
 
@@ -234,6 +222,7 @@ DLManagedTensor *blandDLTensor::to_dlpack() {
         // we need to check the refcounts before just deleting I think
         auto context = static_cast<blandDLTensor *>(self->manager_ctx);
         delete context;
+        delete self;
     };
     return tensor;
 }
-- 
2.43.0


From e20784bb82850817df6037716bfdb90622beac97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 022/110] fix: write_to_file writes elements of the array's own
 type

---
 bland/bland/ops/cpu/ops_cpu.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/bland/bland/ops/cpu/ops_cpu.cpp b/bland/bland/ops/cpu/ops_cpu.cpp
index da6b749..310fe17 100644
--- a/bland/bland/ops/cpu/ops_cpu.cpp
+++ b/bland/bland/ops/cpu/ops_cpu.cpp
@@ -17,15 +17,14 @@ using namespace bland;
 using namespace bland::cpu;
 
 void bland::cpu::write_to_file(ndarray x, std::string_view file_path) {
-    using file_dtype = float;
-    
-    std::ofstream out_file(file_path.data(), std::ios::binary);
+    std::ofstream out_file(std::string(file_path), std::ios::binary);
     if (!out_file) {
         throw std::runtime_error("Unable to open file for writing.");
     }
 
-    // do a typed dispatch :shrug:
-    auto x_data = x.data_ptr<file_dtype>(); // TODO: templatize and dispatch
+    // The values are written as they are in memory, so only the size of an element matters
+    auto    x_data       = x.data_ptr<char>();
+    int64_t element_size = x.dtype().bits / 8;
     auto x_shape = x.shape();
     auto x_strides = x.strides();
     auto x_offset = x.offsets();
@@ -37,8 +36,7 @@ void bland::cpu::write_to_file(ndarray x, std::string_view file_path) {
 
     auto numel = x.numel();
     for (int64_t n = 0; n < numel; ++n) {
-        auto val = x_data[x_linear_index];
-        out_file.write(reinterpret_cast<const char*>(&val), sizeof(file_dtype));
+        out_file.write(x_data + x_linear_index * element_size, element_size);
 
         // Increment the multi-dimensional index
         for (int i = nd_index.size() - 1; i >= 0; --i) {
@@ -55,7 +53,7 @@ void bland::cpu::write_to_file(ndarray x, std::string_view file_path) {
 }
 
 ndarray bland::cpu::read_from_file(std::string_view file_path, ndarray::datatype dtype) {
-    std::ifstream in_file(file_path.data(), std::ios::binary);
+    std::ifstream in_file(std::string(file_path), std::ios::binary);
     if (!in_file) {
         throw std::runtime_error("Could not open file for reading.");
     }
-- 
2.43.0


From 1b96f6c1ea12e3783c18006679fa3a2e33b33ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 023/110] fix: read_from_file never reads more than the array
 holds

---
 bland/bland/ops/cpu/ops_cpu.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/cpu/ops_cpu.cpp b/bland/bland/ops/cpu/ops_cpu.cpp
index 310fe17..19f5831 100644
--- a/bland/bland/ops/cpu/ops_cpu.cpp
+++ b/bland/bland/ops/cpu/ops_cpu.cpp
@@ -64,7 +64,8 @@ ndarray bland::cpu::read_from_file(std::string_view file_path, ndarray::datatype
     int64_t numel = file_length_bytes / (dtype.bits/8);
     auto x = ndarray({numel}, dtype);
     auto x_ptr = x.data_ptr<char>();
-    in_file.read(x_ptr, file_length_bytes);
+    // a partial element at the end of the file does not fit in the array
+    in_file.read(x_ptr, numel * (dtype.bits/8));
 
     return x;
 }
-- 
2.43.0


From 4447c2b11f41c4e3b1bf6c722653c5e63067a321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 024/110] fix: linspace is evenly spaced for integer ends,
 descending spans and no steps

---
 bland/bland/ops/creators.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/bland/bland/ops/creators.cpp b/bland/bland/ops/creators.cpp
index 7ce8c3c..f63ddd6 100644
--- a/bland/bland/ops/creators.cpp
+++ b/bland/bland/ops/creators.cpp
@@ -219,7 +219,10 @@ bland::arange<double, double, double>(double start, double end, double step, DLD
 template <typename T>
 ndarray bland::linspace(T start, T end, size_t number_steps, DLDataType dtype, DLDevice device) {
     auto aranged_array = ndarray({static_cast<int64_t>(number_steps)}, dtype, device);
-    auto step          = (end - start) / number_steps;
+    // Integers may not have a whole step between items, the span may be negative
+    using real_type  = std::conditional_t<std::is_floating_point_v<T>, T, double>;
+    const auto span  = static_cast<real_type>(end) - static_cast<real_type>(start);
+    auto       item  = [&](size_t ii) { return static_cast<real_type>(start) + span * ii / number_steps; };
 
     switch (dtype.code) {
     case kDLFloat: {
@@ -227,13 +230,13 @@ ndarray bland::linspace(T start, T end, size_t number_steps, DLDataType dtype, D
         case 32: {
             auto data = aranged_array.data_ptr<float>();
             for (int ii = 0; ii < number_steps; ++ii) {
-                data[ii] = start + (step * ii);
+                data[ii] = item(ii);
             }
         } break;
         case 64: {
             auto data = aranged_array.data_ptr<double>();
             for (int ii = 0; ii < number_steps; ++ii) {
-                data[ii] = start + (step * ii);
+                data[ii] = item(ii);
             }
         } break;
         default:
@@ -245,25 +248,25 @@ ndarray bland::linspace(T start, T end, size_t number_steps, DLDataType dtype, D
         case 8: {
             auto data = aranged_array.data_ptr<int8_t>();
             for (int ii = 0; ii < number_steps; ++ii) {
-                data[ii] = start + (step * ii);
+                data[ii] = item(ii);
             }
         } break;
         case 16: {
             auto data = aranged_array.data_ptr<int16_t>();
             for (int ii = 0; ii < number_steps; ++ii) {
-                data[ii] = start + (step * ii);
+                data[ii] = item(ii);
             }
         } break;
         case 32: {
             auto data = aranged_array.data_ptr<int32_t>();
             for (int ii = 0; ii < number_steps; ++ii) {
-                data[ii] = start + (step * ii);
+                data[ii] = item(ii);
             }
         } break;
         case 64: {
             auto data = aranged_array.data_ptr<int64_t>();
             for (int ii = 0; ii < number_steps; ++ii) {
-                data[ii] = start + (step * ii);
+                data[ii] = item(ii);
             }
         } break;
         default:
@@ -275,25 +278,25 @@ ndarray bland::linspace(T start, T end, size_t number_steps, DLDataType dtype, D
         case 8: {
             auto data = aranged_array.data_ptr<uint8_t>();
             for (int ii = 0; ii < number_steps; ++ii) {
-                data[ii] = start + (step * ii);
+                data[ii] = item(ii);
             }
         } break;
         case 16: {
             auto data = aranged_array.data_ptr<uint16_t>();
             for (int ii = 0; ii < number_steps; ++ii) {
-                data[ii] = start + (step * ii);
+                data[ii] = item(ii);
             }
         } break;
         case 32: {
             auto data = aranged_array.data_ptr<uint32_t>();
             for (int ii = 0; ii < number_steps; ++ii) {
-                data[ii] = start + (step * ii);
+                data[ii] = item(ii);
             }
         } break;
         case 64: {
             auto data = aranged_array.data_ptr<uint64_t>();
             for (int ii = 0; ii < number_steps; ++ii) {
-                data[ii] = start + (step * ii);
+                data[ii] = item(ii);
             }
         } break;
         default:
-- 
2.43.0


From 90a3ec6ffbebcb7e45b187c51cf30bb9bee3bc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 025/110] fix: arange steps in the type of its values and
 rejects ends it cannot reach

---
 bland/bland/ops/creators.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/creators.cpp b/bland/bland/ops/creators.cpp
index f63ddd6..9e3d1dc 100644
--- a/bland/bland/ops/creators.cpp
+++ b/bland/bland/ops/creators.cpp
@@ -11,7 +11,12 @@
 using namespace bland;
 
 template <typename START_TYPE, typename END_TYPE, typename STEP_TYPE>
-ndarray bland::arange(START_TYPE start, END_TYPE end, STEP_TYPE step, DLDataType dtype, DLDevice device) {
+ndarray bland::arange(START_TYPE start, END_TYPE end, STEP_TYPE step_size, DLDataType dtype, DLDevice device) {
+    // Steps are taken in the type of the values, an unsigned step must not turn negative values unsigned
+    const auto step = static_cast<START_TYPE>(step_size);
+    if (step == 0 || (start != end && (end < start) != (step < 0))) {
+        throw std::invalid_argument("arange: the end is not reachable from start with the given step");
+    }
     auto number_steps  = static_cast<int64_t>((end - start) / step);
     auto aranged_array = ndarray({number_steps}, dtype, device);
 
-- 
2.43.0


From 7b5bf8c4f6e2339a3657ca76c5248d95a52498bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 026/110] fix: using an empty ndarray_deferred is an error
 rather than a crash

---
 bland/bland/ndarray_deferred.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ndarray_deferred.cpp b/bland/bland/ndarray_deferred.cpp
index caed8af..15400be 100644
--- a/bland/bland/ndarray_deferred.cpp
+++ b/bland/bland/ndarray_deferred.cpp
@@ -3,6 +3,8 @@
 
 #include <fmt/format.h>
 
+#include <stdexcept>
+
 using namespace bland;
 
 
@@ -21,7 +23,7 @@ bland::ndarray_deferred::ndarray_deferred(ndarray pod)
 
 ndarray_deferred bland::ndarray_deferred::to(bland::ndarray::dev device) {
     _device = device;
-    if (std::holds_alternative<ndarray>(*_deferred_data)) {
+    if (_deferred_data != nullptr && std::holds_alternative<ndarray>(*_deferred_data)) {
         auto unmemoized_array = std::get<ndarray>(*_deferred_data);
         auto on_device = unmemoized_array.to(_device.value());
         _deferred_data = std::make_shared<std::variant<bland::ndarray, std::function<bland::ndarray ()>>>(on_device);
@@ -36,6 +38,9 @@ ndarray_deferred bland::ndarray_deferred::to(std::string_view dev_str) {
 }
 
 bland::ndarray_deferred::operator ndarray() {
+    if (_deferred_data == nullptr) {
+        throw std::runtime_error("ndarray_deferred: has no array or function to get an array from");
+    }
     // TODO: to make thread-safe, we need a lock unless it's OK to execute
     // twice in a race
     bland::ndarray actual_data;
@@ -57,6 +62,9 @@ bland::ndarray_deferred::operator ndarray() {
 }
 
 std::string bland::ndarray_deferred::repr() const {
+    if (_deferred_data == nullptr) {
+        return "ndarray_deferred (empty)";
+    }
     if (std::holds_alternative<ndarray>(*_deferred_data)) {
         return std::get<ndarray>(*_deferred_data).repr();
     } else {
-- 
2.43.0


From a7ef918f8068fba786b56b167607f8a3a50f0e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 027/110] fix: scans with few fine channels and unknown
 channelization no longer divide by zero

---
 bliss/core/scan.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index f5acc1f..a95a321 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -65,9 +65,8 @@ infer_number_coarse_channels(int number_fine_channels, double foff, double tsamp
     // behavior of existing pipelines is to imitate 64 coarse channels of 1M fine channels each)
     // The "reasonable size" is dependent on the number of time steps and the vram we're OK consuming
     // at once but the more important thing is having safe defaults for current telescopes of interest
-    {
-        // Try 2**18 (Matches ATA)
-        constexpr int common_channelization = 1<<18;
+    // Try 2**18 (Matches ATA)
+    if (constexpr int common_channelization = 1<<18; number_fine_channels >= common_channelization) {
         auto number_coarse = number_fine_channels / common_channelization;
         auto remainder_per_coarse = (number_fine_channels % common_channelization) / number_coarse;
         auto fine_per_coarse = common_channelization + remainder_per_coarse;
@@ -79,9 +78,8 @@ infer_number_coarse_channels(int number_fine_channels, double foff, double tsamp
         }
     }
 
-    {
-        // Try 1M (Matches Parkes)
-        constexpr int common_channelization = 1000000;
+    // Try 1M (Matches Parkes)
+    if (constexpr int common_channelization = 1000000; number_fine_channels >= common_channelization) {
         auto number_coarse = number_fine_channels / common_channelization;
         auto remainder_per_coarse = (number_fine_channels % common_channelization) / number_coarse;
         auto fine_per_coarse = common_channelization + remainder_per_coarse;
-- 
2.43.0


From 27147ec0b4abd54831e45b32f9db94398575772c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 028/110] fix: reading one coarse channel past the last one is
 out of range

---
 bliss/core/scan.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index a95a321..00f11d2 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -210,7 +210,7 @@ scan::scan(std::string_view file_path, int num_fine_channels_per_coarse) : scan(
 
 
 std::shared_ptr<coarse_channel> bliss::scan::read_coarse_channel(int coarse_channel_index) {
-    if (coarse_channel_index < 0 || coarse_channel_index > _num_coarse_channels) {
+    if (coarse_channel_index < 0 || coarse_channel_index >= _num_coarse_channels) {
         throw std::out_of_range("ERROR: invalid coarse channel");
     }
 
@@ -270,7 +270,7 @@ std::shared_ptr<coarse_channel> bliss::scan::read_coarse_channel(int coarse_chan
 
 
 std::shared_ptr<coarse_channel> bliss::scan::peak_coarse_channel(int coarse_channel_index) {
-    if (coarse_channel_index < 0 || coarse_channel_index > _num_coarse_channels) {
+    if (coarse_channel_index < 0 || coarse_channel_index >= _num_coarse_channels) {
         throw std::out_of_range("ERROR: invalid coarse channel");
     }
 
-- 
2.43.0


From 7900cc65bbae45f2852337f36fd32d85cb617788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 029/110] fix: frequency lookup works when fine channels are
 left over and for scans made of coarse channels

---
 bliss/core/scan.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 00f11d2..f30a010 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -105,6 +105,7 @@ scan::scan(std::map<int, std::shared_ptr<coarse_channel>> coarse_channels) {
     _num_coarse_channels = _coarse_channels.size();
     _foff = first_cc->foff();
     _fch1 = first_cc->fch1();
+    _fine_channels_per_coarse = first_cc->nchans();
     _nchans = first_cc->nchans() * _num_coarse_channels;
     _tstart = first_cc->tstart();
     _tsamp = first_cc->tsamp();
@@ -293,9 +294,10 @@ void bliss::scan::add_coarse_channel_transform(std::function<coarse_channel(coar
 }
 
 int bliss::scan::get_coarse_channel_with_frequency(double frequency) const {
-    auto band_fraction = ((frequency - _fch1) / _foff / static_cast<double>(_nchans));
-    // TODO: if band_fraction is < 0 or > 1 then it's not in this filterbank. Throw an error
-    auto fractional_channel = band_fraction * _num_coarse_channels;
+    // _nchans does not need to be a whole number of coarse channels, so count in fine channels
+    auto fine_channel = (frequency - _fch1) / _foff;
+    // TODO: if fine_channel is < 0 or >= _nchans then it's not in this filterbank. Throw an error
+    auto fractional_channel = fine_channel / _fine_channels_per_coarse;
     return std::floor(fractional_channel);
 }
 
-- 
2.43.0


From 94972af8d2fec6bfbc5ecdb30759c186c0a96af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 030/110] fix: slicing coarse channels outside of a scan is out
 of range

---
 bliss/core/scan.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index f30a010..55fa518 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -368,9 +368,12 @@ bliss::scan bliss::scan::slice_scan_channels(int64_t start_channel, int64_t coun
         count = get_number_coarse_channels() - start_channel;
     }
 
+    if (start_channel < 0 || count < 0 || start_channel + count > get_number_coarse_channels()) {
+        throw std::out_of_range("slice_scan_channels: the slice is not inside the scan");
+    }
+
     auto sliced_scan = *this;
 
-    // what are implications of negative numbers here?
     sliced_scan._coarse_channel_offset += start_channel;
     sliced_scan._num_coarse_channels = count;
 
-- 
2.43.0


From 2c3293bc7c64b0b622acb3788ddae1aba56a3faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 031/110] fix: nbits, nifs and nchans missing from a file are
 derived rather than left undefined

---
 bliss/core/scan.cpp                     | 8 ++++++--
 bliss/file_types/h5_filterbank_file.cpp | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 55fa518..70500f6 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -170,22 +170,26 @@ scan::scan(h5_filterbank_file fb_file, int num_fine_channels_per_coarse) {
     } catch (std::invalid_argument &e) {
         // nbits is not specified, derive from datatype (if it's ever likely we get nbits but not datatype
         // we can verify that nbits is 32 before assuming data_type)
+        _nbits = 32;
     }
+    // This is expected to be [time, feed, freq]
+    auto data_shape = _h5_file_handle->get_data_shape();
+
     // int64_t     nchans;
     try {
         _nchans = fb_file.read_data_attr<int64_t>("nchans");
     } catch (std::invalid_argument &e) {
         // nchans is not specified, derive from datashape
+        _nchans = data_shape.at(2);
     }
     // int64_t     nifs;
     try {
         _nifs = fb_file.read_data_attr<int64_t>("nifs");
     } catch (std::invalid_argument &e) {
         // nifs is not specified, derive from datashape
+        _nifs = data_shape.at(1);
     }
 
-    // This is expected to be [time, feed, freq]
-    auto data_shape = _h5_file_handle->get_data_shape();
     if (data_shape.size() == 3) {
         _ntsteps = data_shape[0];
         _tduration_secs = _ntsteps * _tsamp;
diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 36344f1..d91e410 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -276,7 +276,8 @@ std::vector<int64_t> bliss::h5_filterbank_file::get_data_shape() {
     if (std::get<1>(freq_bins) == false) {
         throw std::invalid_argument("Could not find a frequency dimension in dimension labels");
     }
-    if (std::get<0>(time_steps) == read_data_attr<int64_t>("nchans") && std::get<0>(freq_bins) != read_data_attr<int64_t>("nchans")) {
+    int64_t nchans = _h5_data_handle.attrExists("nchans") ? read_data_attr<int64_t>("nchans") : std::get<0>(freq_bins);
+    if (std::get<0>(time_steps) == nchans && std::get<0>(freq_bins) != nchans) {
         static bool warning_issued = false;
         if (!warning_issued) {
             fmt::print("WARN h5_filterbank_file: the DIMENSION_LABELS appear out of order, time dimension matches nchans\n");
-- 
2.43.0


From 980e86989c68c854ad2914f91713f29e06b39227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 032/110] fix: scans made of coarse channels take all of their
 metadata and never read from a file they do not have

---
 bliss/core/scan.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 70500f6..c29161c 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -110,6 +110,15 @@ scan::scan(std::map<int, std::shared_ptr<coarse_channel>> coarse_channels) {
     _tstart = first_cc->tstart();
     _tsamp = first_cc->tsamp();
     _source_name = first_cc->source_name();
+    _machine_id = first_cc->_machine_id;
+    _nbits = first_cc->_nbits.value_or(32);
+    _nifs = first_cc->nifs();
+    _src_dej = first_cc->_src_dej;
+    _src_raj = first_cc->_src_raj;
+    _telescope_id = first_cc->_telescope_id;
+    _data_type = first_cc->data_type();
+    _az_start = first_cc->_az_start;
+    _za_start = first_cc->_za_start;
     _ntsteps = first_cc->ntsteps();
     _tduration_secs = _ntsteps * _tsamp;
 }
@@ -221,6 +230,9 @@ std::shared_ptr<coarse_channel> bliss::scan::read_coarse_channel(int coarse_chan
 
     auto global_offset_in_file = coarse_channel_index + _coarse_channel_offset;
     if (_coarse_channels.find(global_offset_in_file) == _coarse_channels.end()) {
+        if (_h5_file_handle == nullptr) {
+            throw std::out_of_range("ERROR: this scan has no such coarse channel and no file to read it from");
+        }
         // This is expected to be [time, feed, freq]
         auto data_count = _h5_file_handle->get_data_shape();
         std::vector<int64_t> data_offset(3, 0);
-- 
2.43.0


From 5d04c01fe2b3b1e05f97407cb5b3da2960d3057e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 033/110] fix: slices of observations and cadences keep the
 target name and device

---
 bliss/core/cadence.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bliss/core/cadence.cpp b/bliss/core/cadence.cpp
index 2ed8c42..dfd4d3c 100644
--- a/bliss/core/cadence.cpp
+++ b/bliss/core/cadence.cpp
@@ -88,6 +88,8 @@ int bliss::observation_target::get_number_coarse_channels() {
 
 bliss::observation_target bliss::observation_target::slice_observation_channels(int64_t start_channel, int64_t count) {
     observation_target target_coarse_channel;
+    target_coarse_channel._target_name = _target_name;
+    target_coarse_channel._device      = _device;
     for (auto &sc : _scans) {
         target_coarse_channel._scans.push_back(sc.slice_scan_channels(start_channel, count));
     }
@@ -181,6 +183,7 @@ int bliss::cadence::get_number_coarse_channels() {
 
 bliss::cadence bliss::cadence::slice_cadence_channels(int64_t start_channel, int64_t count) {
     cadence cadence_coarse_channel;
+    cadence_coarse_channel._device = _device;
     for (auto &obs : _observations) {
         cadence_coarse_channel._observations.push_back(obs.slice_observation_channels(start_channel, count));
     }
-- 
2.43.0


From 122608736f51a6557290335b91e888d14b48b873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 034/110] fix: scans of an observation or cadence are
 consistent when they agree, not when they differ

---
 bliss/core/cadence.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bliss/core/cadence.cpp b/bliss/core/cadence.cpp
index dfd4d3c..28416e3 100644
--- a/bliss/core/cadence.cpp
+++ b/bliss/core/cadence.cpp
@@ -60,7 +60,7 @@ bool bliss::observation_target::validate_scan_consistency() {
     for (const auto &sc : _scans) {
         // For double comparison can probably lower epsilon, but this field is
         // in MHz which gives us 1 Hz error and should be sufficient
-        if ((std::abs(sc.fch1() - fch1) < 1e-6) || (std::abs(sc.foff() - foff) < 1e-6) || (sc.nchans() != nchans)) {
+        if ((std::abs(sc.fch1() - fch1) > 1e-6) || (std::abs(sc.foff() - foff) > 1e-6) || (sc.nchans() != nchans)) {
             fmt::print("INFO: observation_target::validate_scan_consistency: one of `fch1`, `foff`, `nchans` does not match");
             return false;
         }
@@ -70,7 +70,7 @@ bool bliss::observation_target::validate_scan_consistency() {
 }
 
 int bliss::observation_target::get_coarse_channel_with_frequency(double frequency) {
-    if (validate_scan_consistency()) {
+    if (!_scans.empty() && validate_scan_consistency()) {
         // Since they're consistent we can use any of them...
         return _scans[0].get_coarse_channel_with_frequency(frequency);
     } else {
@@ -148,7 +148,7 @@ bool bliss::cadence::validate_scan_consistency() {
     }
     for (auto &obs: _observations) {
         for (auto & sc : obs._scans) {
-            if ((std::abs(sc.fch1() - fch1) < 1e-6) || (std::abs(sc.foff() - foff) < 1e-6) || sc.nchans() != nchans) {
+            if ((std::abs(sc.fch1() - fch1) > 1e-6) || (std::abs(sc.foff() - foff) > 1e-6) || sc.nchans() != nchans) {
                 fmt::print("INFO: cadence::validate_scan_consistency: one of `fch1`, `foff`, `nchans` does not match");
                 return false;
             }
-- 
2.43.0


From 9bf0484c55619e123e4a07833fa50b505d22f236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 035/110] fix: string attributes of fixed length are read
 without their padding and empty ones as empty

---
 bliss/file_types/h5_filterbank_file.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index d91e410..fde11ea 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -112,18 +112,25 @@ std::string bliss::h5_filterbank_file::read_data_attr<std::string>(const std::st
         if (dtype.getClass() == H5T_STRING && !dtype.isVariableStr()) {
             // ATA pipeline emits fixed-length bytestrings for the source_name
             hsize_t size = attr.getInMemDataSize();
-            std::vector<uint8_t> val(size);
+            std::vector<char> val(size);
             attr.read(dtype, val.data());
 
-            // Convert the byte string to a std::string
-            return std::string(val.begin(), val.end());
+            // Convert the byte string to a std::string without the padding that fills up the fixed length
+            std::string result(val.begin(), val.end());
+            if (H5Tget_strpad(dtype.getId()) == H5T_STR_SPACEPAD) {
+                result.erase(result.find_last_not_of(' ') + 1);
+            } else {
+                result.resize(std::min(result.find('\0'), result.size()));
+            }
+            return result;
         } else if (dtype.getClass() == H5T_STRING && dtype.isVariableStr()) {
             // Some pipelines generate variable length bytestrings
             char* val;
             // hdf5 will allocate space for val
             attr.read(dtype, &val);
 
-            std::string result(val);
+            // a null string is how an empty one may be stored
+            std::string result(val == nullptr ? "" : val);
 
             // Free the memory allocated by HDF5
             #if H5_VERSION_GE(1, 8, 13)
@@ -134,7 +141,7 @@ std::string bliss::h5_filterbank_file::read_data_attr<std::string>(const std::st
 
             return result;
         } else {
-            auto err_msg = fmt::format("{} expected as string but is not a string type");
+            auto err_msg = fmt::format("{} expected as string but is not a string type", key);
             throw std::invalid_argument(err_msg);
         }
     } else {
-- 
2.43.0


From a25bccfdfe9ecaa597424aa710fce2dfba7d9553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 036/110] fix: numeric attributes of any width or byte order
 are read as their value, others are refused

---
 bliss/file_types/h5_filterbank_file.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index fde11ea..3ff6309 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -77,10 +77,17 @@ T bliss::h5_filterbank_file::read_data_attr(const std::string &key) {
             double val;
             attr.read(dtype, &val);
             return static_cast<T>(val);
+        } else if (dtype.getClass() == H5T_INTEGER) {
+            // any other width or byte order, hdf5 converts to the native type
+            int64_t val;
+            attr.read(H5::PredType::NATIVE_INT64, &val);
+            return static_cast<T>(val);
+        } else if (dtype.getClass() == H5T_FLOAT) {
+            double val;
+            attr.read(H5::PredType::NATIVE_DOUBLE, &val);
+            return static_cast<T>(val);
         } else {
-            T val;
-            attr.read(dtype, &val);
-            return val;
+            throw std::invalid_argument(fmt::format("H5 attribute {} is not a number", key));
         }
     } else {
         auto err_msg = fmt::format("H5 data does not have an attribute key {}", key);
-- 
2.43.0


From 92b734989a4e1d6e325ded3a5ed465a5ee53bc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 037/110] fix: attributes with another number of values or
 fixed length labels never go outside of what was allocated

---
 bliss/file_types/h5_filterbank_file.cpp       | 29 +++++++++++++++++--
 .../include/file_types/h5_filterbank_file.hpp |  3 ++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 3ff6309..87c2a27 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -19,6 +19,9 @@ T bliss::h5_filterbank_file::read_data_attr(const std::string &key) {
     if (_h5_data_handle.attrExists(key)) {
         auto attr  = _h5_data_handle.openAttribute(key);
         auto dtype = attr.getDataType();
+        if (attr.getSpace().getSimpleExtentNpoints() != 1) {
+            throw std::invalid_argument(fmt::format("H5 attribute {} is expected to be a single value", key));
+        }
 
         // Check the data type and perform the appropriate casting
         if (dtype == H5::PredType::NATIVE_INT16) {
@@ -114,6 +117,9 @@ std::string bliss::h5_filterbank_file::read_data_attr<std::string>(const std::st
     if (_h5_data_handle.attrExists(key)) {
         auto attr  = _h5_data_handle.openAttribute(key);
         auto dtype = attr.getDataType();
+        if (attr.getSpace().getSimpleExtentNpoints() != 1) {
+            throw std::invalid_argument(fmt::format("H5 attribute {} is expected to be a single value", key));
+        }
 
         // Check if the attribute is a byte string
         if (dtype.getClass() == H5T_STRING && !dtype.isVariableStr()) {
@@ -161,13 +167,29 @@ std::string bliss::h5_filterbank_file::read_data_attr<std::string>(const std::st
 template <>
 std::vector<std::string> bliss::h5_filterbank_file::read_data_attr<std::vector<std::string>>(const std::string &key) {
     if (_h5_data_handle.attrExists(key)) {
-        H5::Attribute             attr = _h5_data_handle.openAttribute(key);
+        H5::Attribute             attr  = _h5_data_handle.openAttribute(key);
+        auto                      dtype = attr.getDataType();
+        if (dtype.getClass() != H5T_STRING) {
+            throw std::invalid_argument(fmt::format("{} expected as strings but is not a string type", key));
+        }
+        if (!dtype.isVariableStr()) {
+            // every string takes the same, fixed, number of bytes
+            std::vector<char> fixed_length_vals(attr.getInMemDataSize());
+            attr.read(dtype, fixed_length_vals.data());
+            std::vector<std::string> vals;
+            for (size_t offset = 0; offset < fixed_length_vals.size(); offset += dtype.getSize()) {
+                std::string val(fixed_length_vals.data() + offset, dtype.getSize());
+                val.resize(std::min(val.find('\0'), val.size()));
+                vals.push_back(val);
+            }
+            return vals;
+        }
         std::vector<const char *> vals_as_read_from_h5(attr.getInMemDataSize() / sizeof(char *));
         attr.read(attr.getDataType(), vals_as_read_from_h5.data());
 
         std::vector<std::string> vals;
         for (size_t i = 0; i < vals_as_read_from_h5.size(); ++i) {
-            vals.emplace_back(vals_as_read_from_h5[i]);
+            vals.emplace_back(vals_as_read_from_h5[i] == nullptr ? "" : vals_as_read_from_h5[i]);
         }
 
         return vals;
@@ -252,6 +274,9 @@ std::vector<int64_t> bliss::h5_filterbank_file::get_data_shape() {
     dataspace.getSimpleExtentDims(dims.data());
 
     auto dim_labels = read_data_attr<std::vector<std::string>>("DIMENSION_LABELS");
+    if (dim_labels.size() != dims.size()) {
+        throw std::invalid_argument("The number of DIMENSION_LABELS does not match the number of dimensions");
+    }
     // tuples of size, initialized state, index. This will validate the dimensions
     // fit our expectations:
     // * there are 3 dimensions with unique labels of time, feed_id, frequency
diff --git a/bliss/file_types/include/file_types/h5_filterbank_file.hpp b/bliss/file_types/include/file_types/h5_filterbank_file.hpp
index 893eb30..d334440 100644
--- a/bliss/file_types/include/file_types/h5_filterbank_file.hpp
+++ b/bliss/file_types/include/file_types/h5_filterbank_file.hpp
@@ -88,6 +88,9 @@ T bliss::h5_filterbank_file::read_file_attr(const std::string &key) {
     if (_h5_file_handle.attrExists(key)) {
         auto attr  = _h5_file_handle.openAttribute(key);
         auto dtype = attr.getDataType();
+        if (attr.getSpace().getSimpleExtentNpoints() != 1) {
+            throw std::invalid_argument(fmt::format("H5 file attribute '{}' is expected to be a single value", key));
+        }
         attr.read(dtype, val);
         return val;
     } else {
-- 
2.43.0


From 81f98d5df6ade4a677da2cabbde83cbd062ae468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 038/110] fix: unknown dimensions are accepted when their size
 is 1 and data in another order is refused

---
 bliss/file_types/h5_filterbank_file.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 87c2a27..a85a8fe 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -296,7 +296,7 @@ std::vector<int64_t> bliss::h5_filterbank_file::get_data_shape() {
             }
         } else { // if there are more than 3 dims this will catch it
             // unknown dimension. If it's size 1, we're probably OK though
-            if (dims[ii] != 1) {
+            if (dims[ii] == 1) {
                 // TODO, we're using fmtlib now, update this. Does fmtlib act as a proper
                 // "logging" lib?
                 std::cerr << "Got unknown " << ii << " dimension: " << dim_labels[ii]
@@ -328,6 +328,11 @@ std::vector<int64_t> bliss::h5_filterbank_file::get_data_shape() {
         time_steps           = temp_time_steps;
     }
 
+    // Data is read in the order it has in the file, it is not transposed
+    if (std::get<2>(time_steps) != 0 || std::get<2>(feed_id) != 1 || std::get<2>(freq_bins) != 2) {
+        throw std::invalid_argument("Expected the dimensions of data to be in the order time, feed_id, frequency");
+    }
+
     auto shape = std::vector<int64_t>({std::get<0>(time_steps), std::get<0>(feed_id), std::get<0>(freq_bins)});
     return shape;
   }
@@ -357,6 +362,9 @@ bland::ndarray bliss::h5_filterbank_file::read_data(std::vector<int64_t> offset,
 
     std::vector<hsize_t> offset_hsize(offset.begin(), offset.end());
     std::vector<hsize_t> count_hsize(count.begin(), count.end());
+    // there may be more dimensions of size 1
+    offset_hsize.resize(number_dims, 0);
+    count_hsize.resize(number_dims, 1);
 
     dataspace.selectHyperslab(H5S_SELECT_SET, count_hsize.data(), offset_hsize.data());
 
-- 
2.43.0


From ccba0b7b43a395249dd95f7383eb1228a518c7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 039/110] fix: file paths given as views do not need to be null
 terminated

---
 bliss/file_types/h5_filterbank_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index a85a8fe..cd354a7 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -215,7 +215,7 @@ bliss::h5_filterbank_file::h5_filterbank_file(std::string_view file_path) {
     fmt::print("INFO: HDF5 looking for filter plugins in: \n{}", filter_paths);
     #endif
 
-    _h5_file_handle = H5::H5File(file_path.data(), H5F_ACC_RDONLY);
+    _h5_file_handle = H5::H5File(std::string(file_path), H5F_ACC_RDONLY);
     try {
         _h5_data_handle = _h5_file_handle.openDataSet("data");
     } catch (H5::FileIException h5_data_exception) {
-- 
2.43.0


From af0ba0e2af2c47fdb5359e6bbd3dcd8aebfef374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 040/110] fix: an unknown filterbank version with braces in it
 is reported rather than failing to print

---
 bliss/file_types/h5_filterbank_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index cd354a7..98ec640 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -257,7 +257,7 @@ bliss::h5_filterbank_file::h5_filterbank_file(std::string_view file_path) {
                         "versions list {}. Trying to read it anyway!\n",
                         filterbank_version,
                         supported_filterbank_versions);
-            fmt::print(warning);
+            fmt::print("{}", warning);
         }
     } catch (std::invalid_argument &e) {
         fmt::print("WARN: the h5 file does not have a 'VERSION' attribute to indicate what version of FILTERBANK this is. Will assume it is compatible and resume.\n");
-- 
2.43.0


From f71a2c64d86d5526a7b5e8793f78cc2ce98e2efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 041/110] fix: read_mask without a count covers the rest of the
 file like read_data

---
 bliss/file_types/h5_filterbank_file.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 98ec640..540c121 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -414,6 +414,12 @@ bland::ndarray bliss::h5_filterbank_file::read_mask(std::vector<int64_t> offset,
     //     mask_grid = mask_grid.squeeze(1); // squeeze out the feed_id
     //     return mask_grid;
     // } else {
+        if (count.empty()) {
+            count = get_data_shape();
+            for (size_t dim = 0; dim < offset.size(); ++dim) {
+                count[dim] -= offset[dim];
+            }
+        }
         // The file has no "mask" dataset, it's typically zeros anyway so just allocate the appropriate number of uint8 zeros
         auto mask_grid = bland::zeros(count, bland::ndarray::datatype::uint8, bland::ndarray::dev::cpu);
         mask_grid = mask_grid.squeeze(1); // squeeze out the feed_id
-- 
2.43.0


From 8b398bfc64c947f7fb8e9d5f8092ff9c67afa949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 042/110] fix: channel widths of a few Hz that differ are not
 consistent

---
 bliss/core/cadence.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bliss/core/cadence.cpp b/bliss/core/cadence.cpp
index 28416e3..d40ff5d 100644
--- a/bliss/core/cadence.cpp
+++ b/bliss/core/cadence.cpp
@@ -59,8 +59,8 @@ bool bliss::observation_target::validate_scan_consistency() {
     }
     for (const auto &sc : _scans) {
         // For double comparison can probably lower epsilon, but this field is
-        // in MHz which gives us 1 Hz error and should be sufficient
-        if ((std::abs(sc.fch1() - fch1) > 1e-6) || (std::abs(sc.foff() - foff) > 1e-6) || (sc.nchans() != nchans)) {
+        // in MHz which gives us 1 Hz error and should be sufficient (foff differences add up over channels)
+        if ((std::abs(sc.fch1() - fch1) > 1e-6) || (std::abs(sc.foff() - foff) * nchans > 1e-6) || (sc.nchans() != nchans)) {
             fmt::print("INFO: observation_target::validate_scan_consistency: one of `fch1`, `foff`, `nchans` does not match");
             return false;
         }
@@ -148,7 +148,7 @@ bool bliss::cadence::validate_scan_consistency() {
     }
     for (auto &obs: _observations) {
         for (auto & sc : obs._scans) {
-            if ((std::abs(sc.fch1() - fch1) > 1e-6) || (std::abs(sc.foff() - foff) > 1e-6) || sc.nchans() != nchans) {
+            if ((std::abs(sc.fch1() - fch1) > 1e-6) || (std::abs(sc.foff() - foff) * nchans > 1e-6) || sc.nchans() != nchans) {
                 fmt::print("INFO: cadence::validate_scan_consistency: one of `fch1`, `foff`, `nchans` does not match");
                 return false;
             }
-- 
2.43.0


From 33db2611c980deb158fe29ae2ce2f220f22ecd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 043/110] fix: an observation without scans has no number of
 coarse channels

---
 bliss/core/cadence.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/core/cadence.cpp b/bliss/core/cadence.cpp
index d40ff5d..6e8fa8c 100644
--- a/bliss/core/cadence.cpp
+++ b/bliss/core/cadence.cpp
@@ -79,7 +79,7 @@ int bliss::observation_target::get_coarse_channel_with_frequency(double frequenc
 }
 
 int bliss::observation_target::get_number_coarse_channels() {
-    if (validate_scan_consistency()) {
+    if (!_scans.empty() && validate_scan_consistency()) {
         return _scans[0].get_number_coarse_channels();
     } else {
         throw std::runtime_error("scans inside observation target are not consistent enough to return a number of channels");
-- 
2.43.0


From 79e9ab23656b1e8da2b05abd9e2a20dc3405433b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 044/110] fix: a flag which is already set stays set when it is
 set again rather than turning into another flag

---
 bliss/core/include/core/flag_values.hpp | 10 ++++++++++
 bliss/flaggers/magnitude.cpp            |  2 +-
 bliss/flaggers/sigmaclip.cpp            |  2 +-
 bliss/flaggers/spectral_kurtosis.cpp    |  2 +-
 4 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/bliss/core/include/core/flag_values.hpp b/bliss/core/include/core/flag_values.hpp
index b7ee37c..b8f0c02 100644
--- a/bliss/core/include/core/flag_values.hpp
+++ b/bliss/core/include/core/flag_values.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <bland/ops/ops.hpp>
+
 #include <cstdint>
 
 namespace bliss {
@@ -17,4 +19,12 @@ enum flag_values {
     RESERVED_1             = 1 << 6,
     RESERVED_2             = 1 << 7,
 };
+
+/**
+ * combine flags with the ones a mask already has (bitwise or), broadcasting flags to the mask. A flag which is already
+ * set stays set.
+ */
+inline bland::ndarray accumulate_flags(const bland::ndarray &mask, const bland::ndarray &flags) {
+    return mask + (flags - bland::logical_and(mask, flags));
+}
 } // namespace bliss
diff --git a/bliss/flaggers/magnitude.cpp b/bliss/flaggers/magnitude.cpp
index 9b065d9..e0f8582 100644
--- a/bliss/flaggers/magnitude.cpp
+++ b/bliss/flaggers/magnitude.cpp
@@ -20,7 +20,7 @@ coarse_channel bliss::flag_magnitude(coarse_channel cc_data, float threshold) {
     auto magnitude_mask = flag_magnitude(cc_data.data(), threshold);
 
     bland::ndarray mask = cc_data.mask();
-    mask = mask + magnitude_mask;
+    mask = accumulate_flags(mask, magnitude_mask);
     cc_data.set_mask(mask);
     return cc_data;
 }
diff --git a/bliss/flaggers/sigmaclip.cpp b/bliss/flaggers/sigmaclip.cpp
index 9e58dbb..a657310 100644
--- a/bliss/flaggers/sigmaclip.cpp
+++ b/bliss/flaggers/sigmaclip.cpp
@@ -39,7 +39,7 @@ coarse_channel bliss::flag_sigmaclip(coarse_channel cc_data, int max_iter, float
     // 2. Generate SK flag
     auto rfi = flag_sigmaclip(spectrum_grid, max_iter, low, high);
 
-    auto accumulated_rfi = rfi_flags + rfi; // a | operator would be more appropriate
+    auto accumulated_rfi = accumulate_flags(rfi_flags, rfi);
 
     // 3. Store back accumulated rfi
     cc_data.set_mask(accumulated_rfi);
diff --git a/bliss/flaggers/spectral_kurtosis.cpp b/bliss/flaggers/spectral_kurtosis.cpp
index ec1c899..6146ee0 100644
--- a/bliss/flaggers/spectral_kurtosis.cpp
+++ b/bliss/flaggers/spectral_kurtosis.cpp
@@ -36,7 +36,7 @@ coarse_channel bliss::flag_spectral_kurtosis(coarse_channel cc_data, float lower
     // 2. Generate SK flag
     auto rfi = flag_spectral_kurtosis(spectrum_grid, N, M, d, lower_threshold, upper_threshold);
 
-    auto accumulated_rfi = rfi_flags + rfi; // a | operator would be more appropriate
+    auto accumulated_rfi = accumulate_flags(rfi_flags, rfi);
 
     // 3. Store back accumulated rfi
     cc_data.set_mask(accumulated_rfi);
-- 
2.43.0


From a0c47e1c6926dd63c834eb2870d6a3e9b0dc84ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 045/110] fix: rolloff flags leave the mask they start from
 alone and a width below half a channel flags nothing

---
 bliss/flaggers/filter_rolloff.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/bliss/flaggers/filter_rolloff.cpp b/bliss/flaggers/filter_rolloff.cpp
index d7d1903..3f2d40a 100644
--- a/bliss/flaggers/filter_rolloff.cpp
+++ b/bliss/flaggers/filter_rolloff.cpp
@@ -7,18 +7,25 @@
 #include <fmt/core.h>
 #include <fmt/ranges.h>
 
+#include <algorithm> // std::min
+#include <cmath>     // std::round
+
 using namespace bliss;
 
 coarse_channel bliss::flag_filter_rolloff(coarse_channel cc_data, float rolloff_width) {
 
     auto deferred_rfi_mask = bland::ndarray_deferred([mask=cc_data.mask(), rolloff_width]() mutable {
-        bland::ndarray rfi_flags = mask;
+        // The mask may be shared with other holders of this channel, so flags are set in an array of their own
+        bland::ndarray rfi_flags = bland::zeros(mask.shape(), bland::ndarray::datatype::uint8, mask.device());
 
         auto nchans = rfi_flags.shape()[1];
         int64_t one_sided_channels = std::round(nchans * rolloff_width);
-        bland::slice(rfi_flags, {1, 0, one_sided_channels}) = bland::slice(rfi_flags, {1, 0, one_sided_channels}) + static_cast<uint8_t>(flag_values::filter_rolloff);
-        bland::slice(rfi_flags, {1, -one_sided_channels, nchans}) = bland::slice(rfi_flags, {1, -one_sided_channels, nchans}) + static_cast<uint8_t>(flag_values::filter_rolloff);
-        return rfi_flags;
+        one_sided_channels = std::min(one_sided_channels, nchans);
+        if (one_sided_channels > 0) {
+            bland::fill(bland::slice(rfi_flags, {1, 0, one_sided_channels}), static_cast<uint8_t>(flag_values::filter_rolloff));
+            bland::fill(bland::slice(rfi_flags, {1, nchans - one_sided_channels, nchans}), static_cast<uint8_t>(flag_values::filter_rolloff));
+        }
+        return accumulate_flags(mask, rfi_flags);
     });
     
     cc_data.set_mask(deferred_rfi_mask);
-- 
2.43.0


From 644d58e8c866da5d32e17cc40abf75903932f2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 046/110] fix: magnitude flags of a scan are applied to its
 coarse channels rather than lost

---
 bliss/flaggers/magnitude.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/bliss/flaggers/magnitude.cpp b/bliss/flaggers/magnitude.cpp
index e0f8582..8b0473e 100644
--- a/bliss/flaggers/magnitude.cpp
+++ b/bliss/flaggers/magnitude.cpp
@@ -38,20 +38,16 @@ coarse_channel bliss::flag_magnitude(coarse_channel cc_data) {
  * 
 */
 scan bliss::flag_magnitude(scan fil_data, float threshold) {
-    auto number_coarse_channels = fil_data.get_number_coarse_channels();
-    for (auto cc_index = 0; cc_index < number_coarse_channels; ++cc_index) {
-        auto cc = fil_data.read_coarse_channel(cc_index);
-        *cc = flag_magnitude(*cc, threshold);
-    }
+    fil_data.add_coarse_channel_transform([threshold](coarse_channel cc) {
+        return flag_magnitude(cc, threshold);
+    });
     return fil_data;
 }
 
 scan bliss::flag_magnitude(scan fil_data) {
-    auto number_coarse_channels = fil_data.get_number_coarse_channels();
-    for (auto cc_index = 0; cc_index < number_coarse_channels; ++cc_index) {
-        auto cc = fil_data.read_coarse_channel(cc_index);
-        *cc = flag_magnitude(*cc);
-    }
+    fil_data.add_coarse_channel_transform([](coarse_channel cc) {
+        return flag_magnitude(cc);
+    });
     return fil_data;
 }
 
-- 
2.43.0


From 774ed3abb4bf202491a595219359df848d0eb967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 047/110] fix: equalizing a scan is applied to its coarse
 channels rather than lost

---
 bliss/preprocess/passband_static_equalize.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bliss/preprocess/passband_static_equalize.cpp b/bliss/preprocess/passband_static_equalize.cpp
index 25a16b3..3b9e8dc 100644
--- a/bliss/preprocess/passband_static_equalize.cpp
+++ b/bliss/preprocess/passband_static_equalize.cpp
@@ -121,11 +121,7 @@ coarse_channel bliss::equalize_passband_filter(coarse_channel cc, std::string_vi
 
 
 scan bliss::equalize_passband_filter(scan sc, bland::ndarray h) {
-    auto number_coarse_channels = sc.get_number_coarse_channels();
-    for (auto cc_index = 0; cc_index < number_coarse_channels; ++cc_index) {
-        auto cc = sc.read_coarse_channel(cc_index);
-        *cc = equalize_passband_filter(*cc, h);
-    }
+    sc.add_coarse_channel_transform([h](coarse_channel cc) { return equalize_passband_filter(cc, h); });
     return sc;
 }
 
-- 
2.43.0


From 85d99723331a785fb1ef260119fad54fccb997b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 048/110] fix: channelizer responses of one or an odd number of
 coarse or fine channels are folded around zero frequency

---
 bliss/preprocess/passband_static_equalize.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bliss/preprocess/passband_static_equalize.cpp b/bliss/preprocess/passband_static_equalize.cpp
index 3b9e8dc..49f57ae 100644
--- a/bliss/preprocess/passband_static_equalize.cpp
+++ b/bliss/preprocess/passband_static_equalize.cpp
@@ -86,8 +86,11 @@ bland::ndarray bliss::gen_coarse_channel_response(int fine_per_coarse, int num_c
 
     // bland::write_to_file(H, "H_full_magsquare.cuda_f32");
 
-    auto number_coarse_channels_contributing = H.size(0)/fine_per_coarse - 1;
-    auto slice_dims = bland::slice_spec{0, fine_per_coarse/2, full_res_length-fine_per_coarse/2};
+    // Fold with zero frequency in the center of a coarse channel, ignoring partial coarse channels at the band edges
+    int64_t zero_frequency = full_res_length/2;
+    int64_t first_whole_channel = (zero_frequency - fine_per_coarse/2) % fine_per_coarse;
+    auto number_coarse_channels_contributing = (full_res_length - first_whole_channel)/fine_per_coarse;
+    auto slice_dims = bland::slice_spec{0, first_whole_channel, first_whole_channel + number_coarse_channels_contributing*fine_per_coarse};
     auto H_slice = H.slice(slice_dims);
     H = H_slice;
 
-- 
2.43.0


From 7bec710b2399b44aa0b2bdaa94521140b1553c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 049/110] fix: a filter with one tap is not divided by zero

---
 bliss/preprocess/passband_static_equalize.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bliss/preprocess/passband_static_equalize.cpp b/bliss/preprocess/passband_static_equalize.cpp
index 49f57ae..fc699d7 100644
--- a/bliss/preprocess/passband_static_equalize.cpp
+++ b/bliss/preprocess/passband_static_equalize.cpp
@@ -20,6 +20,11 @@ std::vector<float> hamming_window(int N) {
     constexpr float a_1 = 0.46;
     auto w = std::vector<float>();
     w.reserve(N);
+    if (N == 1) {
+        // There is nothing to taper
+        w.push_back(1.0f);
+        return w;
+    }
     for (int n = 0; n < N; ++n) {
         w.push_back(a_0 - a_1 * cos((two_pi * n) / N_float));
     }
-- 
2.43.0


From 7582051329cd9ccc898d5427b2ce38d13f0efb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 050/110] fix: fft_shift_mag_square writes and reads inside of
 its arrays for even lengths and views

---
 bland/bland/ops/cpu/frequency_cpu_impl.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ops/cpu/frequency_cpu_impl.cpp b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
index 1eb633f..ab98fee 100644
--- a/bland/bland/ops/cpu/frequency_cpu_impl.cpp
+++ b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
@@ -3,6 +3,7 @@
 #include "internal/dispatcher.hpp"
 
 #include "bland/ndarray.hpp"
+#include "bland/ops/ops.hpp"
 
 #include <fftw3.h>
 
@@ -19,6 +20,10 @@ ndarray bland::cpu::fft(ndarray x, ndarray &out) {
 
 ndarray bland::cpu::fft_shift_mag_square(ndarray x, ndarray &out) {
     auto shape = x.shape();
+    if (shape.size() != 1 || shape[0] < 1) {
+        throw std::runtime_error("fft_shift_mag_square: only supports one dimensional arrays with at least one element");
+    }
+    x = bland::copy(x); // the fft takes dense arrays
     int N = shape[0];
     int half_N = floor(N/2) + 1;
 
@@ -38,11 +43,13 @@ ndarray bland::cpu::fft_shift_mag_square(ndarray x, ndarray &out) {
         int shift_index = dc_index + i;
         int rev_index = dc_index - i;
         auto mag_squared = real*real + imag*imag;
-        out_ptr[shift_index] = mag_squared;
+        // The last output of an even length is the only one at the band edge, it's first when shifted
+        if (shift_index < N) {
+            out_ptr[shift_index] = mag_squared;
+        }
         if (i != 0) {
             out_ptr[rev_index] = mag_squared;
         }
-\
     }
 
     fftwf_destroy_plan(plan);
-- 
2.43.0


From 7337627ef299cd85dab0e927e2c2ded34d46e5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 051/110] fix: sigma clipping does not stop early for data of
 small scale

---
 bliss/flaggers/sigmaclip.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bliss/flaggers/sigmaclip.cpp b/bliss/flaggers/sigmaclip.cpp
index a657310..f483457 100644
--- a/bliss/flaggers/sigmaclip.cpp
+++ b/bliss/flaggers/sigmaclip.cpp
@@ -19,8 +19,10 @@ bland::ndarray bliss::flag_sigmaclip(const bland::ndarray &data, int max_iter, f
         rfi = (data < (mean - stddev * low)) + (data > (mean + stddev * high));
 
         auto [new_mean, new_std] = bland::masked_mean_stddev(data, rfi);
-        if (std::abs((new_mean - mean).scalarize<float>()) < eps &&
-            std::abs((new_std - stddev).scalarize<float>()) < eps) {
+        // Whether it still changes is relative to the spread of the data, which can be of any scale
+        auto max_change = eps * stddev.scalarize<float>();
+        if (std::abs((new_mean - mean).scalarize<float>()) <= max_change &&
+            std::abs((new_std - stddev).scalarize<float>()) <= max_change) {
             break;
         } else {
             mean   = new_mean;
-- 
2.43.0


From c1b945f977767604be7b4482739f2feb313d478d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 052/110] fix: spectral kurtosis of long observations does not
 overflow

---
 bliss/estimators/spectral_kurtosis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/estimators/spectral_kurtosis.cpp b/bliss/estimators/spectral_kurtosis.cpp
index f87834a..d6749c2 100644
--- a/bliss/estimators/spectral_kurtosis.cpp
+++ b/bliss/estimators/spectral_kurtosis.cpp
@@ -10,7 +10,7 @@ bland::ndarray bliss::estimate_spectral_kurtosis(const bland::ndarray &spectrum_
     // fmt::print("INFO: spec kurtosis with M={}, N={}, d={}\n", M, N, d);
     auto s1 = bland::square(bland::sum(spectrum_grid, {0}));
     auto s2 = bland::sum(bland::square(spectrum_grid), {0});
-    auto sk = ((M * N * d + 1) / (M - 1)) * (M * (s2 / s1) - 1);
+    auto sk = ((static_cast<float>(M) * N * d + 1) / (M - 1)) * (M * (s2 / s1) - 1);
     return sk;
 }
 
-- 
2.43.0


From c616b7de9102832b13b90d491bf3bf664900a2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 053/110] fix: noise estimates which are not implemented are an
 error rather than empty

---
 bliss/estimators/noise_estimate.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bliss/estimators/noise_estimate.cpp b/bliss/estimators/noise_estimate.cpp
index 55dc1e0..6e147bb 100644
--- a/bliss/estimators/noise_estimate.cpp
+++ b/bliss/estimators/noise_estimate.cpp
@@ -42,6 +42,8 @@ noise_stats noise_power_estimate_stddev(bland::ndarray x, bland::ndarray mask) {
  * Compute noise power using the Median Absolute Deviation (MAD) over the population
  */
 noise_stats noise_power_estimate_mad(const bland::ndarray &x) {
+
+    throw std::runtime_error("noise power estimation with mad is not implemented yet");
     noise_stats estimated_stats;
 
     // TODO: do medians right (TM)
-- 
2.43.0


From 20c3b8643223969332946edaab381689393f8076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:53 +0000
Subject: [PATCH 054/110] fix: hits written to capnp files keep the number of
 their coarse channel

---
 bliss/file_types/detail/cpnp_hit_builder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index 7ff7f0e..88d6eeb 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -13,6 +13,7 @@ void bliss::detail::bliss_hit_to_capnp_signal_message(Signal::Builder &signal_bu
     signal_builder.setDriftRate(this_hit.drift_rate_Hz_per_sec);
     signal_builder.setDriftIndex(this_hit.rate_index);
     signal_builder.setSnr(this_hit.snr);
+    signal_builder.setCoarseChannel(this_hit.coarse_channel_number);
     signal_builder.setNumTimesteps(this_hit.time_span_steps); // for us, redundant with driftSteps
     // the power and incoherentpower are redundant in bliss, but were not in seticore
     // the seticore power was normalized for computing an SNR, the incoherentpower was just the integrated power
@@ -38,6 +39,7 @@ hit bliss::detail::capnp_signal_message_to_bliss_hit(const Signal::Reader &signa
     // rounded up power-of-2 value
     this_hit.time_span_steps = signal_reader.getNumTimesteps();
     this_hit.snr             = signal_reader.getSnr();
+    this_hit.coarse_channel_number = signal_reader.getCoarseChannel();
 
     this_hit.start_time_sec = signal_reader.getStartTime();
     this_hit.duration_sec   = signal_reader.getDurationSeconds();
-- 
2.43.0


From c02d127afb5224c03ec8ebdef2ef016db793055f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:53 +0000
Subject: [PATCH 055/110] fix: coarse channels without hits can be written to
 capnp files

---
 bliss/file_types/detail/cpnp_hit_builder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index 88d6eeb..ee56464 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -70,7 +70,8 @@ void bliss::detail::bliss_coarse_channel_to_capnp_coarse_channel_message(CoarseC
     md_builder.setNumChannels(cc.nchans());
 
     // Serialize out the hits
-    auto   hits         = cc.hits();
+    // a coarse channel which no hits were searched in is written without any
+    auto   hits         = cc.has_hits() ? cc.hits() : std::list<hit>();
     auto   hits_builder = cc_builder.initHits(hits.size());
     size_t hit_index    = 0;
     for (const auto &hit : hits) {
-- 
2.43.0


From 1dcbf320c0a82694e2335e46483ef92690028463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:53 +0000
Subject: [PATCH 056/110] fix: scans written to capnp files include the coarse
 channels that were not read yet

---
 bliss/file_types/detail/cpnp_hit_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index ee56464..f91dcd0 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -140,7 +140,7 @@ void bliss::detail::bliss_scan_to_capnp_scan(Scan::Builder &scan_builder, scan s
     auto serialized_coarse_channels = scan_builder.initCoarseChannels(number_coarse_channels);
 
     for (int cc_index=0; cc_index < number_coarse_channels; ++cc_index) {
-        auto cc = scan_with_hits.peak_coarse_channel(cc_index);
+        auto cc = scan_with_hits.read_coarse_channel(cc_index);
         if (cc != nullptr) {
             auto cc_builder = serialized_coarse_channels[cc_index];
             bliss_coarse_channel_to_capnp_coarse_channel_message(cc_builder, *cc);
-- 
2.43.0


From 57c5b81d19f43c5406f289200d711cda1465b4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:26 +0000
Subject: [PATCH 057/110] fix: files with more than 64 MiB of hits can be read
 back

---
 bliss/file_types/cpnp_files.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/bliss/file_types/cpnp_files.cpp b/bliss/file_types/cpnp_files.cpp
index 77feac4..a4028e1 100644
--- a/bliss/file_types/cpnp_files.cpp
+++ b/bliss/file_types/cpnp_files.cpp
@@ -17,8 +17,24 @@
 #include <fmt/core.h>
 #include <fmt/format.h>
 
+#include <algorithm>
+#include <sys/stat.h>
+
 using namespace bliss;
 
+/**
+ * By default messages of more than 64 MiB are refused as untrusted. A file of many hits may be larger than that, so
+ * accept as much as the file itself could hold (each part is visited a small number of times).
+ */
+static capnp::ReaderOptions reader_options_for_file(int fd) {
+    capnp::ReaderOptions options;
+    struct stat          file_info;
+    if (fstat(fd, &file_info) == 0 && file_info.st_size > 0) {
+        uint64_t file_words           = file_info.st_size / sizeof(capnp::word);
+        options.traversalLimitInWords = std::max<uint64_t>(options.traversalLimitInWords, 4 * file_words);
+    }
+    return options;
+}
 
 template<typename Container>
 void bliss::write_hits_to_capnp_file(Container hits, std::string_view file_path) {
@@ -76,7 +92,7 @@ coarse_channel bliss::read_coarse_channel_hits_from_capnp_file(std::string_view
 
     auto in_file = detail::raii_file_for_read(file_path);
 
-    capnp::StreamFdMessageReader message(in_file._fd);
+    capnp::StreamFdMessageReader message(in_file._fd, reader_options_for_file(in_file._fd));
 
     auto coarse_channel_reader = message.getRoot<CoarseChannel>();
     auto deserialized_cc = detail::capnp_coarse_channel_message_to_bliss_coarse_channel(coarse_channel_reader);
@@ -98,7 +114,7 @@ void bliss::write_scan_hits_to_capnp_file(scan scan_with_hits, std::string_view
 scan bliss::read_scan_hits_from_capnp_file(std::string_view file_path) {
     auto in_file = detail::raii_file_for_read(file_path);
 
-    capnp::StreamFdMessageReader message(in_file._fd);
+    capnp::StreamFdMessageReader message(in_file._fd, reader_options_for_file(in_file._fd));
     auto scan_reader = message.getRoot<Scan>();
 
     auto scan_with_hits = detail::capnp_scan_message_to_bliss_scan(scan_reader);
@@ -121,7 +137,7 @@ void bliss::write_observation_target_hits_to_capnp_files(observation_target obse
 observation_target bliss::read_observation_target_hits_from_capnp_files(std::string_view file_path) {
     auto in_file = detail::raii_file_for_read(file_path);
 
-    capnp::StreamFdMessageReader message(in_file._fd);
+    capnp::StreamFdMessageReader message(in_file._fd, reader_options_for_file(in_file._fd));
     auto obstarget_reader = message.getRoot<ObservationTarget>();
 
     auto observations = detail::capnp_observation_target_message_to_bliss_observation_target(obstarget_reader);
@@ -143,7 +159,7 @@ void bliss::write_cadence_hits_to_capnp_files(cadence cadence_with_hits, std::st
 cadence bliss::read_cadence_hits_from_capnp_files(std::string_view file_path) {
     auto in_file = detail::raii_file_for_read(file_path);
 
-    capnp::StreamFdMessageReader message(in_file._fd);
+    capnp::StreamFdMessageReader message(in_file._fd, reader_options_for_file(in_file._fd));
     auto cadence_reader = message.getRoot<Cadence>();
 
     auto deserialized_cadence = detail::capnp_cadence_message_to_cadence(cadence_reader);
-- 
2.43.0


From 76f6e8d6830d1cbe562af5aabb89929534b03925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:26 +0000
Subject: [PATCH 058/110] fix: paths of hit files given as views do not need to
 be null terminated

---
 bliss/file_types/detail/raii_file_helpers.cpp | 6 ++++--
 bliss/file_types/detail/raii_file_helpers.hpp | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/bliss/file_types/detail/raii_file_helpers.cpp b/bliss/file_types/detail/raii_file_helpers.cpp
index f2360b0..d9b22d5 100644
--- a/bliss/file_types/detail/raii_file_helpers.cpp
+++ b/bliss/file_types/detail/raii_file_helpers.cpp
@@ -6,13 +6,15 @@
 using namespace bliss::detail;
 
 bliss::detail::raii_file_for_write::raii_file_for_write(std::string_view file_path) {
+    // the view need not be null terminated
+    std::string path(file_path);
     struct stat buffer;
-    bool file_exists = (stat(file_path.data(), &buffer) == 0);
+    bool file_exists = (stat(path.c_str(), &buffer) == 0);
     if (file_exists) {
         fmt::print("WARN: writing to file {} that already exists. Existing contents will be overwritten.\n", file_path);
     }
 
-    _fd = open(file_path.data(), O_WRONLY | O_CREAT | O_TRUNC, S_IRUSR | S_IWUSR | S_IRGRP | S_IROTH);
+    _fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, S_IRUSR | S_IWUSR | S_IRGRP | S_IROTH);
     if (_fd == -1) {
         auto str_err = strerror(errno);
         auto err_msg =
diff --git a/bliss/file_types/detail/raii_file_helpers.hpp b/bliss/file_types/detail/raii_file_helpers.hpp
index 58d8a82..2b2c988 100644
--- a/bliss/file_types/detail/raii_file_helpers.hpp
+++ b/bliss/file_types/detail/raii_file_helpers.hpp
@@ -7,6 +7,9 @@
 #include <fcntl.h>  // for 'open' and 'O_WRONLY'
 #include <unistd.h> // for 'close'
 
+#include <string>
+#include <string_view>
+
 namespace bliss {
 
 namespace detail {
@@ -21,7 +24,7 @@ struct raii_file_for_write {
 struct raii_file_for_read {
     int _fd;
     raii_file_for_read(std::string_view file_path) {
-        _fd = open(file_path.data(), O_RDONLY);
+        _fd = open(std::string(file_path).c_str(), O_RDONLY);
         if (_fd == -1) {
             auto str_err = strerror(errno);
             auto err_msg =
-- 
2.43.0


From f49f286e71dfdff42fc5e3bca795b54cb4831be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:26 +0000
Subject: [PATCH 059/110] fix: unknown hit file formats are reported rather
 than failing to print

---
 bliss/file_types/hits_file.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/file_types/hits_file.cpp b/bliss/file_types/hits_file.cpp
index d4075ef..56d46ac 100644
--- a/bliss/file_types/hits_file.cpp
+++ b/bliss/file_types/hits_file.cpp
@@ -44,7 +44,7 @@ std::list<hit> bliss::read_hits_from_file(std::string_view file_path, std::strin
         throw std::runtime_error("read_hits_from_dat_file not implemented yet");
         // return read_hits_from_dat_file(file_path);
     } else {
-        fmt::print("ERROR: read_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n");
+        fmt::print("ERROR: read_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n", format);
         throw std::invalid_argument("Unknown file format to read_hits_from_file");
     }
 }
@@ -76,7 +76,7 @@ scan bliss::read_scan_hits_from_file(std::string_view file_path, std::string for
         throw std::runtime_error("read_hits_from_dat_file not implemented yet");
         // return read_scan_hits_from_dat_file(file_path);
     } else {
-        fmt::print("ERROR: read_scan_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n");
+        fmt::print("ERROR: read_scan_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n", format);
         throw std::invalid_argument("Unknown file format to read_scan_hits_from_file");
     }
 }
-- 
2.43.0


From 984e58ce9dcbd65e091fa169b4c50bdb617c928e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:26 +0000
Subject: [PATCH 060/110] fix: positions in dat files never have 60 seconds or
 minutes

---
 bliss/file_types/dat_file.cpp | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/bliss/file_types/dat_file.cpp b/bliss/file_types/dat_file.cpp
index e922ac6..97126c7 100644
--- a/bliss/file_types/dat_file.cpp
+++ b/bliss/file_types/dat_file.cpp
@@ -4,6 +4,8 @@
 
 #include <fmt/format.h>
 
+#include <cmath>
+#include <cstdint>
 #include <cstdio>
 #include <ext/stdio_filebuf.h>
 #include <ios>
@@ -19,14 +21,13 @@ using namespace bliss;
  * used especially for right ascenion (raj) from filterbank files
  */
 std::string format_archours_to_sexagesimal(double src_raj) {
-    double ra_deg = src_raj * 15.0;
+    // Convert RA to sexagesimal. Round to the printed precision first, so that no part is printed as 60
+    int64_t milliseconds = std::llround(std::abs(src_raj) * 3600.0 * 1000.0);
+    int64_t ra_hours     = milliseconds / (3600 * 1000);
+    int64_t ra_minutes   = milliseconds / (60 * 1000) % 60;
+    double  ra_seconds   = (milliseconds % (60 * 1000)) / 1000.0;
 
-    // Convert RA to sexagesimal
-    int ra_hours = static_cast<int>(ra_deg / 15.0);
-    int ra_minutes = static_cast<int>((ra_deg / 15.0 - ra_hours) * 60.0);
-    double ra_seconds = ((ra_deg / 15.0 - ra_hours) * 60.0 - ra_minutes) * 60.0;
-
-    return fmt::format("{:02}h{:02}m{:06.3f}s", ra_hours, ra_minutes, ra_seconds);
+    return fmt::format("{}{:02}h{:02}m{:06.3f}s", src_raj < 0 ? "-" : "", ra_hours, ra_minutes, ra_seconds);
 }
 
 /**
@@ -35,12 +36,14 @@ std::string format_archours_to_sexagesimal(double src_raj) {
  * used especially for declination (dej) from filterbank files
  */
 std::string format_degrees_to_sexagesimal(double src_dej) {
-    int dec_degrees = static_cast<int>(src_dej);
-    int dec_arcminutes = static_cast<int>((std::abs(src_dej) - std::abs(dec_degrees)) * 60.0);
-    double dec_arcseconds = ((std::abs(src_dej) - std::abs(dec_degrees)) * 60.0 - dec_arcminutes) * 60.0;
-    char dec_sign = src_dej >= 0 ? '+' : '-';
-
-    return fmt::format("{}{:02}d{:02}m{:05.2f}s", dec_sign, std::abs(dec_degrees), dec_arcminutes, dec_arcseconds);
+    // Round to the printed precision first, so that no part is printed as 60
+    int64_t centiarcseconds = std::llround(std::abs(src_dej) * 3600.0 * 100.0);
+    int64_t dec_degrees     = centiarcseconds / (3600 * 100);
+    int64_t dec_arcminutes  = centiarcseconds / (60 * 100) % 60;
+    double  dec_arcseconds  = (centiarcseconds % (60 * 100)) / 100.0;
+    char    dec_sign        = src_dej >= 0 ? '+' : '-';
+
+    return fmt::format("{}{:02}d{:02}m{:05.2f}s", dec_sign, dec_degrees, dec_arcminutes, dec_arcseconds);
 }
 
 template<typename Container>
-- 
2.43.0


From 3392982214595c69da483875fc67ac97690c3cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:26 +0000
Subject: [PATCH 061/110] fix: the right ascension of dat files has one unit of
 seconds

---
 bliss/file_types/dat_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/file_types/dat_file.cpp b/bliss/file_types/dat_file.cpp
index 97126c7..7b38742 100644
--- a/bliss/file_types/dat_file.cpp
+++ b/bliss/file_types/dat_file.cpp
@@ -118,7 +118,7 @@ void bliss::write_scan_hits_to_dat_file(scan scan_with_hits, std::string_view fi
                         "# File ID: {}\n"
                         "# -------------------------- o --------------------------\n"
                         "# Source:{}\n"
-                        "# MJD: {}\tRA: {}s\tDEC:{}\n"
+                        "# MJD: {}\tRA: {}\tDEC:{}\n"
                         "# DELTAT: {:6f}\tDELTAF(Hz):  {:6f} max_drift_rate: {}\tobs_length: {:2f}\n"
                         "# --------------------------\n"
                         "# "
-- 
2.43.0


From 32d7c286531080fee2a276eeb979ba1d8acdacce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:26 +0000
Subject: [PATCH 062/110] fix: the header of dat files names each of the
 columns that follow

---
 bliss/file_types/dat_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/file_types/dat_file.cpp b/bliss/file_types/dat_file.cpp
index 7b38742..f4929a3 100644
--- a/bliss/file_types/dat_file.cpp
+++ b/bliss/file_types/dat_file.cpp
@@ -122,7 +122,7 @@ void bliss::write_scan_hits_to_dat_file(scan scan_with_hits, std::string_view fi
                         "# DELTAT: {:6f}\tDELTAF(Hz):  {:6f} max_drift_rate: {}\tobs_length: {:2f}\n"
                         "# --------------------------\n"
                         "# "
-                        "Top_Hit_#\tDrift_Rate\tSNR\tUncorrected_Frequency\tCorrected_Frequency\tIndex\tfreq_start\tfreq_end\tSEFD_freq\tCoarse_Channel_Number\tFull_number_of_hits\n"
+                        "Top_Hit_#\tDrift_Rate\tSNR\tUncorrected_Frequency\tCorrected_Frequency\tIndex\tfreq_start\tfreq_end\tSEFD\tSEFD_freq\tCoarse_Channel_Number\tFull_number_of_hits\n"
                         "# --------------------------\n",
                         file_path_id,
                         source_name,
-- 
2.43.0


From f8295dbbdeb12ac91ec37a5ab4fa524fca26fa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:41 +0000
Subject: [PATCH 063/110] fix: dat files which cannot be written completely are
 an error

---
 bliss/file_types/dat_file.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/bliss/file_types/dat_file.cpp b/bliss/file_types/dat_file.cpp
index f4929a3..3f98a72 100644
--- a/bliss/file_types/dat_file.cpp
+++ b/bliss/file_types/dat_file.cpp
@@ -7,6 +7,7 @@
 #include <cmath>
 #include <cstdint>
 #include <cstdio>
+#include <cstring>
 #include <ext/stdio_filebuf.h>
 #include <ios>
 #include <regex>
@@ -46,6 +47,23 @@ std::string format_degrees_to_sexagesimal(double src_dej) {
     return fmt::format("{}{:02}d{:02}m{:05.2f}s", dec_sign, dec_degrees, dec_arcminutes, dec_arcseconds);
 }
 
+/**
+ * Write all of the contents to an open file, or throw if that is not possible (such as when the disk is full)
+ */
+static void write_all(int fd, const std::string &contents) {
+    size_t written = 0;
+    while (written < contents.size()) {
+        auto this_write = write(fd, contents.data() + written, contents.size() - written);
+        if (this_write < 0) {
+            if (errno == EINTR) {
+                continue;
+            }
+            throw std::runtime_error(fmt::format("write_scan_hits_to_dat_file: could not write hits (error={})", strerror(errno)));
+        }
+        written += this_write;
+    }
+}
+
 template<typename Container>
 std::string format_hits_to_dat_list(Container hits) {
     std::string table_string;
@@ -133,9 +151,9 @@ void bliss::write_scan_hits_to_dat_file(scan scan_with_hits, std::string_view fi
                         scan_with_hits.foff()*1e6,
                         "n/a",
                         scan_with_hits.ntsteps()*scan_with_hits.tsamp());
-    write(output_file._fd, header.c_str(), header.size());
+    write_all(output_file._fd, header);
     auto table_contents = format_hits_to_dat_list(hits);
-    write(output_file._fd, table_contents.c_str(), table_contents.size());
+    write_all(output_file._fd, table_contents);
 }
 
 scan bliss::read_scan_hits_from_dat_file(std::string_view file_path) {
-- 
2.43.0


From eea4afdb9bb80eef0f2dc536d4e80d8f937ae350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:07 +0000
Subject: [PATCH 064/110] fix: searching an empty range of drift rates is an
 error rather than undefined

---
 bliss/drift_search/integrate_drifts.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bliss/drift_search/integrate_drifts.cpp b/bliss/drift_search/integrate_drifts.cpp
index 9cc63db..bc1da06 100644
--- a/bliss/drift_search/integrate_drifts.cpp
+++ b/bliss/drift_search/integrate_drifts.cpp
@@ -11,9 +11,15 @@
 #include <fmt/core.h>
 #include <fmt/ranges.h>
 
+#include <stdexcept>
+
 using namespace bliss;
 
 std::vector<frequency_drift_plane::drift_rate> compute_drifts(int time_steps, double foff, double tsamp, integrate_drifts_options options) {
+    if (options.rate_step_size <= 0 || options.high_rate <= options.low_rate) {
+        throw std::invalid_argument(fmt::format("integrate_drifts: no drift rates to search from {} to {} in steps of {}",
+                                                options.low_rate, options.high_rate, options.rate_step_size));
+    }
     auto maximum_drift_span = time_steps - 1;
 
     // Convert the drift options to specific drift info
-- 
2.43.0


From 527c836c54ff5f1558438ff7dbaa8e19ab9d3416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:07 +0000
Subject: [PATCH 065/110] fix: the last drift rate below the high bound is
 searched when the step does not divide the range

---
 bliss/drift_search/integrate_drifts.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bliss/drift_search/integrate_drifts.cpp b/bliss/drift_search/integrate_drifts.cpp
index bc1da06..e3bdbfb 100644
--- a/bliss/drift_search/integrate_drifts.cpp
+++ b/bliss/drift_search/integrate_drifts.cpp
@@ -23,7 +23,8 @@ std::vector<frequency_drift_plane::drift_rate> compute_drifts(int time_steps, do
     auto maximum_drift_span = time_steps - 1;
 
     // Convert the drift options to specific drift info
-    auto number_drifts = (options.high_rate - options.low_rate) / options.rate_step_size;
+    // (the last step may be shorter when the steps do not divide the range)
+    auto number_drifts = (options.high_rate - options.low_rate + options.rate_step_size - 1) / options.rate_step_size;
     std::vector<frequency_drift_plane::drift_rate> drift_rate_info;
     drift_rate_info.reserve(number_drifts);
     for (int drift_index = 0; drift_index < number_drifts; ++drift_index) {
-- 
2.43.0


From 7aab177749838659f56a790dafc5369092923a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:07 +0000
Subject: [PATCH 066/110] fix: drift rates of scans with a single time step are
 finite

---
 bliss/drift_search/integrate_drifts.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bliss/drift_search/integrate_drifts.cpp b/bliss/drift_search/integrate_drifts.cpp
index e3bdbfb..4206f04 100644
--- a/bliss/drift_search/integrate_drifts.cpp
+++ b/bliss/drift_search/integrate_drifts.cpp
@@ -11,6 +11,7 @@
 #include <fmt/core.h>
 #include <fmt/ranges.h>
 
+#include <algorithm>
 #include <stdexcept>
 
 using namespace bliss;
@@ -20,7 +21,8 @@ std::vector<frequency_drift_plane::drift_rate> compute_drifts(int time_steps, do
         throw std::invalid_argument(fmt::format("integrate_drifts: no drift rates to search from {} to {} in steps of {}",
                                                 options.low_rate, options.high_rate, options.rate_step_size));
     }
-    auto maximum_drift_span = time_steps - 1;
+    // nothing drifts during a single time step, but its slope still has to be finite
+    auto maximum_drift_span = std::max(1, time_steps - 1);
 
     // Convert the drift options to specific drift info
     // (the last step may be shorter when the steps do not divide the range)
-- 
2.43.0


From 8569318936951684bdd71dc4cdbba9398ca64637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:07 +0000
Subject: [PATCH 067/110] fix: drift integration reads views of data and masks
 from where they start

---
 bliss/drift_search/kernels/drift_integration_cpu.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bliss/drift_search/kernels/drift_integration_cpu.cpp b/bliss/drift_search/kernels/drift_integration_cpu.cpp
index 75b3c47..63b54d5 100644
--- a/bliss/drift_search/kernels/drift_integration_cpu.cpp
+++ b/bliss/drift_search/kernels/drift_integration_cpu.cpp
@@ -17,12 +17,17 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
                                          bland::ndarray    rfi_mask,
                                          std::vector<frequency_drift_plane::drift_rate> drift_rates,
                                          integrate_drifts_options options) {
+    // The data and mask may be views into larger arrays
+    auto spectrum_offsets = spectrum_grid.offsets();
     auto spectrum_ptr     = spectrum_grid.data_ptr<float>();
     auto spectrum_strides = spectrum_grid.strides();
     auto spectrum_shape   = spectrum_grid.shape();
+    spectrum_ptr += spectrum_offsets[0] + spectrum_offsets[1];
 
+    auto rfi_offsets = rfi_mask.offsets();
     auto rfi_ptr     = rfi_mask.data_ptr<uint8_t>();
     auto rfi_strides = rfi_mask.strides();
+    rfi_ptr += rfi_offsets[0] + rfi_offsets[1];
     auto rfi_shape   = rfi_mask.shape();
 
     int32_t time_steps      = spectrum_grid.size(0);
-- 
2.43.0


From 354d8fec5c362b2152f7f8d24784823e226695a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 068/110] fix: drift integration stays inside of the band when
 it is narrower than the drift

---
 bliss/drift_search/kernels/drift_integration_cpu.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bliss/drift_search/kernels/drift_integration_cpu.cpp b/bliss/drift_search/kernels/drift_integration_cpu.cpp
index 63b54d5..baea1f2 100644
--- a/bliss/drift_search/kernels/drift_integration_cpu.cpp
+++ b/bliss/drift_search/kernels/drift_integration_cpu.cpp
@@ -72,8 +72,9 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
 
                     int64_t spectrum_freq_slice_start  = channel_offset;
                     int64_t spectrum_freq_slice_end    = number_channels;
-                    if (spectrum_freq_slice_start > spectrum_shape[1]) {
-                        fmt::print("ERROR: drift integration might be going out of bounds. Report this condition");
+                    if (spectrum_freq_slice_start >= spectrum_shape[1]) {
+                        // Every line has left the band by now
+                        continue;
                     }
 
                     auto   number_channels = drift_freq_slice_end - drift_freq_slice_start;
@@ -124,6 +125,10 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
                         spectrum_freq_slice_start -= offset_amount;
                         drift_freq_slice_start -= offset_amount;
                     }
+                    if (drift_freq_slice_start >= drift_freq_slice_end) {
+                        // Every line has left the band by now
+                        continue;
+                    }
 
                     auto   number_channels = drift_freq_slice_end - drift_freq_slice_start;
                     size_t drift_plane_index =
-- 
2.43.0


From 011abc9e776190bf7ecd025f78f564e2d7cba944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 069/110] fix: negative drifts close to the lower edge
 integrate what is inside of the band like positive ones do at the upper edge

---
 .../drift_search/kernels/drift_integration_cpu.cpp  | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/bliss/drift_search/kernels/drift_integration_cpu.cpp b/bliss/drift_search/kernels/drift_integration_cpu.cpp
index baea1f2..c410df2 100644
--- a/bliss/drift_search/kernels/drift_integration_cpu.cpp
+++ b/bliss/drift_search/kernels/drift_integration_cpu.cpp
@@ -113,18 +113,13 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
                     // towards)
                     auto channel_offset = freq_offset_at_time - desmear_channel;
 
-                    int64_t drift_freq_slice_start = -rate.drift_channels_span;
+                    // Lines that start close to the lower edge leave the band, what they pass before that counts
+                    // like it does for lines that leave at the upper edge
+                    int64_t drift_freq_slice_start = -channel_offset;
                     int64_t drift_freq_slice_end   = number_channels;
 
-                    int64_t spectrum_freq_slice_start = -rate.drift_channels_span + channel_offset;
+                    int64_t spectrum_freq_slice_start = 0;
                     int64_t spectrum_freq_slice_end   = number_channels + channel_offset;
-                    if (spectrum_freq_slice_start < 0) {
-                        // This condition occurs at fast drive rates (very negative) with desmearing on.
-                        auto offset_amount = spectrum_freq_slice_start;
-
-                        spectrum_freq_slice_start -= offset_amount;
-                        drift_freq_slice_start -= offset_amount;
-                    }
                     if (drift_freq_slice_start >= drift_freq_slice_end) {
                         // Every line has left the band by now
                         continue;
-- 
2.43.0


From 1ac41717c4e99eda0f979603c147d293e61edb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 070/110] fix: counts of flagged samples along a drift do not
 start over after 255

---
 .../kernels/drift_integration_cpu.cpp         | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/bliss/drift_search/kernels/drift_integration_cpu.cpp b/bliss/drift_search/kernels/drift_integration_cpu.cpp
index c410df2..bba9b1d 100644
--- a/bliss/drift_search/kernels/drift_integration_cpu.cpp
+++ b/bliss/drift_search/kernels/drift_integration_cpu.cpp
@@ -9,9 +9,19 @@
 #include <fmt/format.h>
 
 #include <cmath> // std::round, std::abs
+#include <limits>
 
 using namespace bliss;
 
+/**
+ * Count one more flagged sample. Counts stop at the most the integrated flags can represent rather than start over
+ */
+static inline void count_flag(uint8_t &count) {
+    if (count < std::numeric_limits<uint8_t>::max()) {
+        ++count;
+    }
+}
+
 [[nodiscard]] frequency_drift_plane
 bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
                                          bland::ndarray    rfi_mask,
@@ -92,15 +102,15 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
                         spectrum_index += spectrum_strides[1];
                         if (collect_rfi) {
                             if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::low_spectral_kurtosis)) {
-                                lowsk_rfi_ptr[lowsk_index] += 1;
+                                count_flag(lowsk_rfi_ptr[lowsk_index]);
                             }
                             lowsk_index += lowsk_rfi_strides[1];
                             if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::high_spectral_kurtosis)) {
-                                highsk_rfi_ptr[highsk_index] += 1;
+                                count_flag(highsk_rfi_ptr[highsk_index]);
                             }
                             highsk_index += highsk_rfi_strides[1];
                             if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::filter_rolloff)) {
-                                rolloff_rfi_ptr[filtrolloff_index] += 1;
+                                count_flag(rolloff_rfi_ptr[filtrolloff_index]);
                             }
                             filtrolloff_index += rolloff_rfi_strides[1];
 
@@ -140,15 +150,15 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
                         spectrum_index += spectrum_strides[1];
                         if (collect_rfi) {
                             if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::low_spectral_kurtosis)) {
-                                lowsk_rfi_ptr[lowsk_index] += 1;
+                                count_flag(lowsk_rfi_ptr[lowsk_index]);
                             }
                             lowsk_index += lowsk_rfi_strides[1];
                             if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::high_spectral_kurtosis)) {
-                                highsk_rfi_ptr[highsk_index] += 1;
+                                count_flag(highsk_rfi_ptr[highsk_index]);
                             }
                             highsk_index += highsk_rfi_strides[1];
                             if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::filter_rolloff)) {
-                                rolloff_rfi_ptr[filtrolloff_index] += 1;
+                                count_flag(rolloff_rfi_ptr[filtrolloff_index]);
                             }
                             filtrolloff_index += rolloff_rfi_strides[1];
 
-- 
2.43.0


From c2f4f37cbd9b64d2510f6f484cde360a8b477d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 071/110] fix: connected components report the flag counts of
 their strongest cell

---
 bliss/drift_search/kernels/connected_components_cpu.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bliss/drift_search/kernels/connected_components_cpu.cpp b/bliss/drift_search/kernels/connected_components_cpu.cpp
index be34351..62653bf 100644
--- a/bliss/drift_search/kernels/connected_components_cpu.cpp
+++ b/bliss/drift_search/kernels/connected_components_cpu.cpp
@@ -154,11 +154,11 @@ bliss::find_components_above_threshold_cpu(bland::ndarray                    dop
                             // auto dedrifted_rfi = drift_plane.integrated_rfi();
 
                             this_component.rfi_counts[flag_values::low_spectral_kurtosis] =
-                                    dedrifted_rfi.low_spectral_kurtosis.scalarize<uint8_t>({curr_coord.drift_index, curr_coord.frequency_channel});
+                                    dedrifted_rfi.low_spectral_kurtosis.scalarize<uint8_t>({idx.drift_index, idx.frequency_channel});
                             this_component.rfi_counts[flag_values::high_spectral_kurtosis] =
-                                    dedrifted_rfi.high_spectral_kurtosis.scalarize<uint8_t>({curr_coord.drift_index, curr_coord.frequency_channel});
+                                    dedrifted_rfi.high_spectral_kurtosis.scalarize<uint8_t>({idx.drift_index, idx.frequency_channel});
                             this_component.rfi_counts[flag_values::filter_rolloff] =
-                                    dedrifted_rfi.filter_rolloff.scalarize<uint8_t>({curr_coord.drift_index, curr_coord.frequency_channel});
+                                    dedrifted_rfi.filter_rolloff.scalarize<uint8_t>({idx.drift_index, idx.frequency_channel});
                             // this_component.rfi_counts[flag_values::magnitude] =
                             //         dedrifted_rfi.magnitude.scalarize<uint8_t>(curr_coord);
                             // this_component.rfi_counts[flag_values::sigma_clip] =
-- 
2.43.0


From 71f0f70ad877ee410476c743bd4844e54cf9cbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 072/110] fix: connected components reach equally far up and
 down in frequency and drift

---
 bliss/drift_search/kernels/connected_components_cpu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/drift_search/kernels/connected_components_cpu.cpp b/bliss/drift_search/kernels/connected_components_cpu.cpp
index 62653bf..223e01c 100644
--- a/bliss/drift_search/kernels/connected_components_cpu.cpp
+++ b/bliss/drift_search/kernels/connected_components_cpu.cpp
@@ -168,8 +168,8 @@ bliss::find_components_above_threshold_cpu(bland::ndarray                    dop
                         this_component.locations.push_back(idx);
 
                         // Then add all of the neighbors as candidates
-                        for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset < neighbor_l1_dist; ++freq_neighbor_offset) {
-                            for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset < neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
+                        for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset <= neighbor_l1_dist; ++freq_neighbor_offset) {
+                            for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset <= neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
                                 auto neighbor_coord = idx;
 
                                 neighbor_coord.drift_index += drift_neighbor_offset;
-- 
2.43.0


From 9efad9415e9e4b96735b10dd9275227794a066db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 073/110] fix: local maxima are compared to their neighbors but
 not to themselves, which none is greater than

---
 bliss/drift_search/kernels/local_maxima_cpu.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bliss/drift_search/kernels/local_maxima_cpu.cpp b/bliss/drift_search/kernels/local_maxima_cpu.cpp
index 04df535..f309955 100644
--- a/bliss/drift_search/kernels/local_maxima_cpu.cpp
+++ b/bliss/drift_search/kernels/local_maxima_cpu.cpp
@@ -55,6 +55,9 @@ bliss::find_local_maxima_above_threshold_cpu(bland::ndarray                  dop
                 bool neighborhood_max = true;
                 for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset < neighbor_l1_dist; ++freq_neighbor_offset) {
                     for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset < neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
+                        if (freq_neighbor_offset == 0 && drift_neighbor_offset == 0) {
+                            continue; // nothing is greater than itself
+                        }
                         auto neighbor_coord = curr_coord;
 
                         neighbor_coord.drift_index += drift_neighbor_offset;
-- 
2.43.0


From 7e09d9cd2b736173b446106afab0646f5511c8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 074/110] fix: local maxima are compared to neighbors equally
 far up and down in frequency and drift

---
 bliss/drift_search/kernels/local_maxima_cpu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/drift_search/kernels/local_maxima_cpu.cpp b/bliss/drift_search/kernels/local_maxima_cpu.cpp
index f309955..181cb50 100644
--- a/bliss/drift_search/kernels/local_maxima_cpu.cpp
+++ b/bliss/drift_search/kernels/local_maxima_cpu.cpp
@@ -53,8 +53,8 @@ bliss::find_local_maxima_above_threshold_cpu(bland::ndarray                  dop
             if (candidate_snr > snr_threshold) {
                 // 4. Check if it is greater than surrounding neighborhood
                 bool neighborhood_max = true;
-                for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset < neighbor_l1_dist; ++freq_neighbor_offset) {
-                    for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset < neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
+                for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset <= neighbor_l1_dist; ++freq_neighbor_offset) {
+                    for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset <= neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
                         if (freq_neighbor_offset == 0 && drift_neighbor_offset == 0) {
                             continue; // nothing is greater than itself
                         }
-- 
2.43.0


From 0b1ccd0674500d360bb4f4a991e398ad927d90a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 075/110] fix: hit searches read planes that are views from
 where they start

---
 bliss/drift_search/kernels/connected_components_cpu.cpp | 3 +++
 bliss/drift_search/kernels/local_maxima_cpu.cpp         | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/bliss/drift_search/kernels/connected_components_cpu.cpp b/bliss/drift_search/kernels/connected_components_cpu.cpp
index 223e01c..3386156 100644
--- a/bliss/drift_search/kernels/connected_components_cpu.cpp
+++ b/bliss/drift_search/kernels/connected_components_cpu.cpp
@@ -95,6 +95,9 @@ bliss::find_components_above_threshold_cpu(bland::ndarray                    dop
     auto doppler_spectrum_data    = doppler_spectrum.data_ptr<float>();
     auto doppler_spectrum_strides = doppler_spectrum.strides();
     auto doppler_spectrum_shape = doppler_spectrum.shape();
+    // the plane may be a view into a larger array
+    auto doppler_spectrum_offsets = doppler_spectrum.offsets();
+    doppler_spectrum_data += doppler_spectrum_offsets[0] + doppler_spectrum_offsets[1];
 
     auto visited =
             bland::ndarray(doppler_spectrum.shape(), 0, bland::ndarray::datatype::uint8, bland::ndarray::dev::cpu);
diff --git a/bliss/drift_search/kernels/local_maxima_cpu.cpp b/bliss/drift_search/kernels/local_maxima_cpu.cpp
index 181cb50..b365c06 100644
--- a/bliss/drift_search/kernels/local_maxima_cpu.cpp
+++ b/bliss/drift_search/kernels/local_maxima_cpu.cpp
@@ -20,6 +20,9 @@ bliss::find_local_maxima_above_threshold_cpu(bland::ndarray                  dop
     auto doppler_spectrum_data    = doppler_spectrum.data_ptr<float>();
     auto doppler_spectrum_strides = doppler_spectrum.strides();
     auto doppler_spectrum_shape = doppler_spectrum.shape();
+    // the plane may be a view into a larger array
+    auto doppler_spectrum_offsets = doppler_spectrum.offsets();
+    doppler_spectrum_data += doppler_spectrum_offsets[0] + doppler_spectrum_offsets[1];
 
     // Use 1 to mark visited, then we can potentially replace this creation with a mask of above thresh to speed things
     // up a bit
-- 
2.43.0


From 4f04e893df70513d22721e7c28ca74d7464ac3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 076/110] fix: the number of time steps of a hit is set rather
 than undefined

---
 bliss/drift_search/hit_search.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bliss/drift_search/hit_search.cpp b/bliss/drift_search/hit_search.cpp
index 8152a5f..b4b1e60 100644
--- a/bliss/drift_search/hit_search.cpp
+++ b/bliss/drift_search/hit_search.cpp
@@ -50,6 +50,7 @@ std::list<hit> bliss::hit_search(coarse_channel dedrifted_scan, hit_search_optio
         this_hit.start_freq_MHz = dedrifted_scan.fch1() + freq_offset;
         this_hit.start_time_sec = dedrifted_scan.tstart() * 24 * 60 * 60; // convert MJD to seconds since MJ
         this_hit.duration_sec   = dedrifted_scan.tsamp() * integration_length;
+        this_hit.time_span_steps = integration_length;
         this_hit.coarse_channel_number = dedrifted_scan._coarse_channel_number;
         hits.push_back(this_hit);
     }
-- 
2.43.0


From 52354adc4a54e4e47f5110247b21256b231ca651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 077/110] fix: the distance between two hits does not depend on
 which of them is first

---
 bliss/drift_search/event_search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/drift_search/event_search.cpp b/bliss/drift_search/event_search.cpp
index 94d4ea7..dfc1878 100644
--- a/bliss/drift_search/event_search.cpp
+++ b/bliss/drift_search/event_search.cpp
@@ -24,7 +24,7 @@ float distance_func(const hit &a, const hit &b) {
     auto drift_error = drift_difference * drift_difference;
 
     auto first_sample_time = std::min(a.start_time_sec, b.start_time_sec);
-    auto last_sample_time  = std::max(a.start_time_sec + b.duration_sec, b.start_time_sec + b.duration_sec);
+    auto last_sample_time  = std::max(a.start_time_sec + a.duration_sec, b.start_time_sec + b.duration_sec);
     auto rendezvous_time   = (last_sample_time + first_sample_time) / 2;
 
     auto a_time_to_rendezvous = rendezvous_time - a.start_time_sec;
-- 
2.43.0


From e930c72bfe266eba1214f40e6715e15c55182b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 078/110] fix: events last until the end of the last scan they
 were found in

---
 bliss/drift_search/event_search.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bliss/drift_search/event_search.cpp b/bliss/drift_search/event_search.cpp
index dfc1878..3e9ebf4 100644
--- a/bliss/drift_search/event_search.cpp
+++ b/bliss/drift_search/event_search.cpp
@@ -151,6 +151,12 @@ std::vector<event> bliss::event_search(cadence cadence_with_hits) {
                 }
                 if (best_distance_to_a_hit < 50 /* Made up number that looks good when staring at distances */) {
                     candidate_event.hits.push_back(*best_matching_hit);
+                    // the event lasts at least until this scan ends
+                    candidate_event.event_start_seconds =
+                            std::min(candidate_event.event_start_seconds, candidate_scan.tstart() * seconds_per_day);
+                    candidate_event.event_end_seconds =
+                            std::max(candidate_event.event_end_seconds,
+                                     candidate_scan.tstart() * seconds_per_day + candidate_scan.tduration_secs());
                     hits_to_check.erase(best_matching_hit);
                     // TODO: fix this
                     // candidate_scan.hits(hits_to_check); // update the hits in the scan with the removed matches
-- 
2.43.0


From 6b0bb22b2ed97692e5bba89941870a95adf6896c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 079/110] fix: a cadence without observations has no events
 rather than undefined ones

---
 bliss/drift_search/event_search.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bliss/drift_search/event_search.cpp b/bliss/drift_search/event_search.cpp
index 3e9ebf4..6543ff9 100644
--- a/bliss/drift_search/event_search.cpp
+++ b/bliss/drift_search/event_search.cpp
@@ -82,6 +82,9 @@ std::vector<event> bliss::event_search(cadence cadence_with_hits) {
     // assume the on_target is the 0-indexed target inside the cadence. This can be adjusted
     // or we could even loop over multiple on_targets in the future, so keep it as a variable
     const int64_t on_target_index = 0;
+    if (cadence_with_hits._observations.empty()) {
+        return detected_events;
+    }
     auto          on_target_obs   = cadence_with_hits._observations[on_target_index];
     std::vector<std::list<hit>> on_scan_hits;
     for (auto &scan : on_target_obs._scans) {
-- 
2.43.0


From 585bb13496d4f8d2cbd423dd2391c4af341a90d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:14 +0000
Subject: [PATCH 080/110] fix: attributes of h5 files that are no integer where
 one is needed are an error rather than undefined

---
 bliss/file_types/h5_filterbank_file.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 540c121..0081c66 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -5,13 +5,32 @@
 #include <fmt/format.h>
 #include <fmt/ranges.h>
 #include <bland/bland.hpp>
+#include <cmath>
 #include <iostream> // cerr
+#include <limits>
+#include <type_traits>
 #include <vector>
 
 using namespace bliss;
 
 constexpr bool pedantic = false;
 
+/**
+ * Convert the value of an attribute, which has to be one that the requested type can represent
+ */
+template <typename T, typename V>
+static T convert_attr(const std::string &key, V val) {
+    if constexpr (std::is_integral_v<T> && std::is_floating_point_v<V>) {
+        // comparing to the power of 2 above the largest value is exact. NaN compares false
+        const auto upper = std::ldexp(1.0, std::numeric_limits<T>::digits);
+        const auto lower = static_cast<double>(std::numeric_limits<T>::min());
+        if (!(std::trunc(val) >= lower && val < upper)) {
+            throw std::invalid_argument(fmt::format("H5 attribute {} has a value which is not a valid integer", key));
+        }
+    }
+    return static_cast<T>(val);
+}
+
 // Default implementation for reading data_attr
 template <typename T>
 T bliss::h5_filterbank_file::read_data_attr(const std::string &key) {
@@ -72,14 +91,14 @@ T bliss::h5_filterbank_file::read_data_attr(const std::string &key) {
             }
             float val;
             attr.read(dtype, &val);
-            return static_cast<T>(val);
+            return convert_attr<T>(key, val);
         }  else if (dtype == H5::PredType::NATIVE_DOUBLE) {
             if constexpr (pedantic && !std::is_same_v<double, T>) {
                 fmt::print("WARN: attr {} requested as {} but is NATIVE_DOUBLE in file\n", key, typeid(T).name());
             }
             double val;
             attr.read(dtype, &val);
-            return static_cast<T>(val);
+            return convert_attr<T>(key, val);
         } else if (dtype.getClass() == H5T_INTEGER) {
             // any other width or byte order, hdf5 converts to the native type
             int64_t val;
@@ -88,7 +107,7 @@ T bliss::h5_filterbank_file::read_data_attr(const std::string &key) {
         } else if (dtype.getClass() == H5T_FLOAT) {
             double val;
             attr.read(H5::PredType::NATIVE_DOUBLE, &val);
-            return static_cast<T>(val);
+            return convert_attr<T>(key, val);
         } else {
             throw std::invalid_argument(fmt::format("H5 attribute {} is not a number", key));
         }
-- 
2.43.0


From ebebea37e0dbb2a8af9000420c165963986bd196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:06 +0000
Subject: [PATCH 081/110] fix: hits of several input files are written to an
 output file each

---
 bliss/bliss_find_hits.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/bliss/bliss_find_hits.cpp b/bliss/bliss_find_hits.cpp
index db851ba..9577d44 100644
--- a/bliss/bliss_find_hits.cpp
+++ b/bliss/bliss_find_hits.cpp
@@ -141,20 +141,23 @@ int main(int argc, char *argv[]) {
             auto &sc = pipeline_object_with_hits._scans[scan_index];
             auto hits = sc.hits();
 
-            if (output_path.empty()) {
+            // each scan has an output of its own unless there is one to use given
+            auto scan_output_path = output_path;
+            auto scan_output_format = output_format;
+            if (scan_output_path.empty()) {
                 auto path = fs::path(pipeline_files[scan_index]);
 
-                output_path = path.filename().replace_extension("capnp");
-                output_format = "capnp";
+                scan_output_path = path.filename().replace_extension("capnp");
+                scan_output_format = "capnp";
             }
 
-            if (output_path == "-" || output_path == "stdout") {
+            if (scan_output_path == "-" || scan_output_path == "stdout") {
                 fmt::print("scan has {} hits\n", hits.size());
                 for (auto &h : hits) {
                     fmt::print("{}\n", h.repr());
                 }
             } else {
-                bliss::write_scan_hits_to_file(sc, output_path, output_format);
+                bliss::write_scan_hits_to_file(sc, scan_output_path, scan_output_format);
             }
         }
     } catch (std::exception &e) {
-- 
2.43.0


From 4d54c32ce21ff2a0d34b077a94d1434a622ab3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:06 +0000
Subject: [PATCH 082/110] fix: hits of several input files do not overwrite
 each other in the same output file

---
 bliss/bliss_find_hits.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bliss/bliss_find_hits.cpp b/bliss/bliss_find_hits.cpp
index 9577d44..e86e764 100644
--- a/bliss/bliss_find_hits.cpp
+++ b/bliss/bliss_find_hits.cpp
@@ -109,6 +109,13 @@ int main(int argc, char *argv[]) {
         return 0;
     }
 
+    if (pipeline_files.size() > 1 && !output_path.empty() && output_path != "-" && output_path != "stdout") {
+        fmt::print("ERROR: hits of {} input files cannot be written to a single output file. Leave out the output to write "
+                   "a file for each input.\n",
+                   pipeline_files.size());
+        return 1;
+    }
+
     auto pipeline_object = bliss::observation_target(pipeline_files, nchan_per_coarse);
 
     pipeline_object = pipeline_object.slice_observation_channels(coarse_channel, number_coarse_channels);
-- 
2.43.0


From bd48f52126c5d3f57f5f8206a35f0c88fd95cd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:28 +0000
Subject: [PATCH 083/110] fix: the hit finder and hits to dat report failures
 by their exit code rather than success or an abort

---
 bliss/bliss_find_hits.cpp   | 10 +++++++++-
 bliss/bliss_hits_to_dat.cpp |  5 ++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/bliss/bliss_find_hits.cpp b/bliss/bliss_find_hits.cpp
index e86e764..74f4b37 100644
--- a/bliss/bliss_find_hits.cpp
+++ b/bliss/bliss_find_hits.cpp
@@ -12,6 +12,7 @@
 #include <flaggers/magnitude.hpp>
 #include <flaggers/sigmaclip.hpp>
 #include <flaggers/spectral_kurtosis.hpp>
+#include <file_types/h5_filterbank_file.hpp>
 #include <file_types/hits_file.hpp>
 
 #include "fmt/core.h"
@@ -34,7 +35,7 @@ namespace fs = std::experimental::filesystem;
 
 #include "clipp.h"
 
-int main(int argc, char *argv[]) {
+int main(int argc, char *argv[]) try {
 
     std::vector<std::string> pipeline_files;
     int coarse_channel=0;
@@ -171,6 +172,13 @@ int main(int argc, char *argv[]) {
         fmt::print("ERROR: got a fatal exception ({}) while running pipeline. This is likely due to running out of "
                    "memory. Ending processing.\n",
                    e.what());
+        return 1;
     }
 
+} catch (std::exception &e) {
+    fmt::print("ERROR: got a fatal exception ({}) while setting up the pipeline. Ending processing.\n", e.what());
+    return 1;
+} catch (H5::Exception &e) {
+    fmt::print("ERROR: got a fatal exception ({}) while reading input files. Ending processing.\n", e.getDetailMsg());
+    return 1;
 }
diff --git a/bliss/bliss_hits_to_dat.cpp b/bliss/bliss_hits_to_dat.cpp
index 8773be5..e7a94af 100644
--- a/bliss/bliss_hits_to_dat.cpp
+++ b/bliss/bliss_hits_to_dat.cpp
@@ -23,7 +23,7 @@ namespace fs = std::experimental::filesystem;
 
 #include "clipp.h"
 
-int main(int argc, char *argv[]) {
+int main(int argc, char *argv[]) try {
 
     std::string input_file;
     std::string output_path = "";
@@ -66,4 +66,7 @@ int main(int argc, char *argv[]) {
         bliss::write_scan_hits_to_dat_file(scan_with_hits, output_path);
     }
 
+} catch (std::exception &e) {
+    fmt::print("ERROR: could not convert hits ({})\n", e.what());
+    return 1;
 }
-- 
2.43.0


From a67c256a3c3d140624d36ae374b074147d327708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:56 +0000
Subject: [PATCH 084/110] fix: options following the output of the hit finder
 are not input files or formats, and wrong usage ends with an error code

---
 bliss/bliss_find_hits.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/bliss/bliss_find_hits.cpp b/bliss/bliss_find_hits.cpp
index 74f4b37..ffc3b35 100644
--- a/bliss/bliss_find_hits.cpp
+++ b/bliss/bliss_find_hits.cpp
@@ -58,9 +58,14 @@ int main(int argc, char *argv[]) try {
         float sigmaclip_high = 4;
     } flag_options;
     bool help = false;
+    // neither an input file nor the (optional) format of the output is an option
+    auto is_no_option = [](const std::string &arg) { return !arg.empty() && arg[0] != '-'; };
     auto cli = (
         (
-            clipp::values("files").set(pipeline_files) % "input hdf5 filterbank files",
+            clipp::values(is_no_option, "files").set(pipeline_files) % "input hdf5 filterbank files",
+
+            // Output, where the options are found after the optional format only in this order
+            (clipp::option("-o", "--output") & clipp::value("output_file").set(output_path) & clipp::opt_value(is_no_option, "format").set(output_format)) % "Filename to store output",
 
             // Data slicing before any processing
             (clipp::option("-c", "--coarse-channel") & clipp::value("coarse_channel").set(coarse_channel)) % "Coarse channel to process",
@@ -95,9 +100,7 @@ int main(int argc, char *argv[]) try {
             (clipp::option("--local-maxima") .set(hit_search_options.method, bliss::hit_search_methods::LOCAL_MAXIMA) |
              clipp::option("--connected-components").set(hit_search_options.method, bliss::hit_search_methods::CONNECTED_COMPONENTS)) % "select the hit search method",
             (clipp::option("-s", "--snr") & clipp::value("snr_threshold").set(hit_search_options.snr_threshold)) % "SNR threshold (10)",
-            (clipp::option("--distance") & clipp::value("l1_distance").set(hit_search_options.neighbor_l1_dist)) % "L1 distance to consider hits connected (7)",
-
-            (clipp::option("-o", "--output") & (clipp::value("output_file").set(output_path), clipp::opt_value("format").set(output_format))) % "Filename to store output"
+            (clipp::option("--distance") & clipp::value("l1_distance").set(hit_search_options.neighbor_l1_dist)) % "L1 distance to consider hits connected (7)"
         )
         |
         clipp::option("-h", "--help").set(help) % "Show this screen."
@@ -107,7 +110,7 @@ int main(int argc, char *argv[]) try {
 
     if (!parse_result || help) {
         std::cout << clipp::make_man_page(cli, "bliss_find_hits");
-        return 0;
+        return help ? 0 : 1;
     }
 
     if (pipeline_files.size() > 1 && !output_path.empty() && output_path != "-" && output_path != "stdout") {
-- 
2.43.0


From ab064cb450feb818f8cbc7b12b99b261eca5f156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:29 +0000
Subject: [PATCH 085/110] fix: median of arrays of other types than float read
 their bytes as floats; of nothing, it read outside

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 775c37b..602dc17 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -906,8 +906,12 @@ ndarray bland::cpu::standardized_moment(const ndarray &a, int degree, ndarray &o
 // TODO: generalize this to an ndarray op
 float bland::cpu::median(const ndarray &x, std::vector<int64_t> axes) {
     const size_t size = x.numel();
+    if (size == 0) {
+        throw std::invalid_argument("median: there are no elements to take the median of");
+    }
 
-    auto x_copy = bland::ndarray(x.shape(), x.dtype(), x.device());
+    // The values are compared as float, whatever the type of the given array
+    auto x_copy = bland::ndarray(x.shape(), bland::ndarray::datatype::float32, x.device());
     x_copy = cpu::copy(x, x_copy);
     auto x_data = x_copy.data_ptr<float>();
     // Compute the position of the median
-- 
2.43.0


From fba11b00cadc65ab53554c2da9df776a5fc22785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:29 +0000
Subject: [PATCH 086/110] fix: reductions over axes the array does not have (or
 to an output or with a mask of another shape) corrupted memory or ignored
 them

---
 bland/bland/ops/statistical.cpp | 49 +++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/bland/bland/ops/statistical.cpp b/bland/bland/ops/statistical.cpp
index 77eeca6..23ffbbc 100644
--- a/bland/bland/ops/statistical.cpp
+++ b/bland/bland/ops/statistical.cpp
@@ -17,9 +17,45 @@
 
 #include <algorithm> // std::find
 #include <numeric>   // std::accumulate
+#include <stdexcept> // std::invalid_argument
 
 using namespace bland;
 
+namespace {
+
+/**
+ * The reductions walk memory by the axes they are given, so refuse axes that the array does not have (or lists more than
+ * once), and an out array or mask that does not have the shape this takes
+ */
+void validate_reduction(const ndarray &a, const std::vector<int64_t> &reduced_axes, const std::vector<ndarray> &outs, const ndarray *mask = nullptr) {
+    std::vector<bool> reduced(a.ndim(), reduced_axes.empty());
+    for (auto axis : reduced_axes) {
+        if (axis < 0 || axis >= a.ndim() || reduced[axis]) {
+            throw std::invalid_argument(fmt::format("reduction over axes {} is not possible on an array of {} dimensions", reduced_axes, a.ndim()));
+        }
+        reduced[axis] = true;
+    }
+    std::vector<int64_t> out_shape;
+    for (int axis = 0; axis < a.ndim(); ++axis) {
+        if (!reduced[axis]) {
+            out_shape.push_back(a.size(axis));
+        }
+    }
+    if (out_shape.empty()) {
+        out_shape = {1};
+    }
+    for (const auto &out : outs) {
+        if (out.shape() != out_shape) {
+            throw std::invalid_argument(fmt::format("reduction to shape {} does not fit the out array with shape {}", out_shape, out.shape()));
+        }
+    }
+    if (mask != nullptr && mask->shape() != a.shape()) {
+        throw std::invalid_argument(fmt::format("mask with shape {} does not fit the array with shape {}", mask->shape(), a.shape()));
+    }
+}
+
+} // namespace
+
 
 ndarray bland::max(const ndarray &a, std::vector<int64_t> reduced_axes) {
     auto out_shape = std::vector<int64_t>();
@@ -40,6 +76,7 @@ ndarray bland::max(const ndarray &a, std::vector<int64_t> reduced_axes) {
 }
 
 ndarray bland::max(const ndarray &a, ndarray &out, std::vector<int64_t> reduced_axes) {
+    validate_reduction(a, reduced_axes, {out});
     auto compute_device = a.device();
 
     if (out.device() != compute_device) {
@@ -63,6 +100,7 @@ ndarray bland::max(const ndarray &a, ndarray &out, std::vector<int64_t> reduced_
 }
 
 ndarray bland::mean(const ndarray &a, ndarray &out, std::vector<int64_t> reduced_axes) {
+    validate_reduction(a, reduced_axes, {out});
     auto compute_device = a.device();
     if (out.device() != compute_device) {
         throw std::runtime_error("out array is not on same device as input");
@@ -104,6 +142,7 @@ ndarray bland::mean(const ndarray &a, std::vector<int64_t> reduced_axes) {
 }
 
 ndarray bland::masked_mean(const ndarray &a, const ndarray &mask, ndarray &out, std::vector<int64_t> reduced_axes) {
+    validate_reduction(a, reduced_axes, {out}, &mask);
     auto compute_device = a.device();
 
     if (out.device() != compute_device) {
@@ -149,6 +188,7 @@ ndarray bland::masked_mean(const ndarray &a, const ndarray &mask, std::vector<in
 }
 
 ndarray bland::stddev(const ndarray &a, ndarray &out, std::vector<int64_t> reduced_axes) {
+    validate_reduction(a, reduced_axes, {out});
     auto compute_device = a.device();
 
     if (out.device() != compute_device) {
@@ -190,6 +230,7 @@ ndarray bland::stddev(const ndarray &a, std::vector<int64_t> reduced_axes) {
 }
 
 ndarray bland::masked_stddev(const ndarray &a, const ndarray &mask, ndarray &out, std::vector<int64_t> reduced_axes) {
+    validate_reduction(a, reduced_axes, {out}, &mask);
     auto compute_device = a.device();
 
     if (out.device() != compute_device) {
@@ -235,6 +276,7 @@ ndarray bland::masked_stddev(const ndarray &a, const ndarray &mask, std::vector<
 }
 
 std::pair<ndarray, ndarray> bland::mean_stddev(const ndarray &a, ndarray &out_mean, ndarray &out_stddev, std::vector<int64_t> reduced_axes) {
+    validate_reduction(a, reduced_axes, {out_mean, out_stddev});
     auto compute_device = a.device();
 
     if (out_mean.device() != compute_device || out_stddev.device() != compute_device) {
@@ -277,6 +319,7 @@ std::pair<ndarray, ndarray> bland::mean_stddev(const ndarray &a, std::vector<int
 }
 
 std::pair<ndarray, ndarray> bland::masked_mean_stddev(const ndarray &a, const ndarray &mask, ndarray &out_mean, ndarray &out_stddev, std::vector<int64_t> reduced_axes) {
+    validate_reduction(a, reduced_axes, {out_mean, out_stddev}, &mask);
     auto compute_device = a.device();
 
     if (out_mean.device() != compute_device || out_stddev.device() != compute_device) {
@@ -342,6 +385,7 @@ ndarray bland::masked_var(const ndarray &a, const ndarray &mask, std::vector<int
 }
 
 ndarray bland::standardized_moment(const ndarray &a, int degree, ndarray &out, std::vector<int64_t> reduced_axes) {
+    validate_reduction(a, reduced_axes, {out});
     return cpu::standardized_moment(a, degree, out, reduced_axes);
 }
 ndarray bland::standardized_moment(const ndarray &a, int degree, std::vector<int64_t> reduced_axes) {
@@ -363,10 +407,15 @@ ndarray bland::standardized_moment(const ndarray &a, int degree, std::vector<int
 }
 
 float bland::median(const ndarray &x, std::vector<int64_t> reduced_axes) {
+    validate_reduction(x, reduced_axes, {});
+    if (!reduced_axes.empty() && static_cast<int64_t>(reduced_axes.size()) != x.ndim()) {
+        throw std::invalid_argument("median: only the median of all elements is available");
+    }
     return cpu::median(x, reduced_axes);
 }
 
 ndarray bland::sum(const ndarray &a, ndarray &out, std::vector<int64_t> reduced_axes) {
+    validate_reduction(a, reduced_axes, {out});
     auto compute_device = a.device();
 
     if (out.device() != compute_device) {
-- 
2.43.0


From 0545325ecb72a25c73c1c3cc38591ac2a78d8017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 087/110] fix: python comparisons with negative integers, and
 sums with integers above 2^31, rounded the integer to a float

---
 bland/python/pybland.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bland/python/pybland.hpp b/bland/python/pybland.hpp
index d45827b..5a84488 100644
--- a/bland/python/pybland.hpp
+++ b/bland/python/pybland.hpp
@@ -107,6 +107,9 @@ void bind_pybland(nb::module_ m) {
     m.def("add", [](nb::ndarray<> a, int32_t b) {
         return bland::add(nb_to_bland(a), b);
     });
+    m.def("add", [](nb::ndarray<> a, uint32_t b) {
+        return bland::add(nb_to_bland(a), b);
+    });
     // m.def("add", [](nb::ndarray<> a, int64_t b) {
     //     return bland::add(nb_to_bland(a), b);
     // });
@@ -128,6 +131,9 @@ void bind_pybland(nb::module_ m) {
     m.def("subtract", [](nb::ndarray<> a, int32_t b) {
         return bland::subtract(nb_to_bland(a), b);
     });
+    m.def("subtract", [](nb::ndarray<> a, uint32_t b) {
+        return bland::subtract(nb_to_bland(a), b);
+    });
     // m.def("subtract", [](nb::ndarray<> a, int64_t b) {
     //     return bland::subtract(nb_to_bland(a), b);
     // });
@@ -184,6 +190,9 @@ void bind_pybland(nb::module_ m) {
     m.def("less_than", [](nb::ndarray<> a, uint32_t b) {
         return bland::less_than(nb_to_bland(a), b);
     });
+    m.def("less_than", [](nb::ndarray<> a, int32_t b) {
+        return bland::less_than(nb_to_bland(a), b);
+    });
     // m.def("less_than", [](nb::ndarray<> a, uint64_t b) {
     //     return bland::less_than(nb_to_bland(a), b);
     // });
@@ -203,6 +212,9 @@ void bind_pybland(nb::module_ m) {
     m.def("greater_than", [](nb::ndarray<> a, uint32_t b) {
         return bland::greater_than(nb_to_bland(a), b);
     });
+    m.def("greater_than", [](nb::ndarray<> a, int32_t b) {
+        return bland::greater_than(nb_to_bland(a), b);
+    });
     // m.def("greater_than", [](nb::ndarray<> a, uint64_t b) {
     //     return bland::greater_than(nb_to_bland(a), b);
     // });
-- 
2.43.0


From dbbb8866ae856dd1b25eed2c19d9085de271a5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 088/110] fix: a datatype made of an unknown name was left
 uninitialised

---
 bland/bland/ndarray.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index a3afa54..18fd139 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -60,6 +60,8 @@ bland::ndarray::datatype::datatype(std::string_view dtype_str) {
         code  = kDLUInt;
         bits  = 8;
         lanes = 1;
+    } else {
+        throw std::runtime_error(fmt::format("'{}' is not a known datatype", dtype_str));
     }
 }
 bland::ndarray::datatype::datatype(DLDataType dtype) : DLDataType(dtype) {}
-- 
2.43.0


From 9e82a8613876bccde4aea1b2608381517d6eb61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 089/110] fix: the device names cudamanaged and cudahost named
 cuda devices

---
 bland/bland/ndarray.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 18fd139..6e3f5ba 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -102,12 +102,6 @@ bland::ndarray::dev::dev(std::string_view dev_str) {
     if (dev_str == "cpu") {
 		device_type = DLDeviceType::kDLCPU;
 		device_id   = 0;
-    } else if (dev_str.substr(0, 4) == "cuda") {
-        device_type = DLDeviceType::kDLCUDA;
-        device_id   = 0;
-        if (dev_str.size() > 4 && dev_str[4] == ':') {
-            device_id = std::stoi(std::string(dev_str.substr(5)));
-        }
     } else if (dev_str.substr(0, 11) == "cudamanaged") {
         device_type = DLDeviceType::kDLCUDAManaged;
         device_id   = 0;
@@ -120,6 +114,12 @@ bland::ndarray::dev::dev(std::string_view dev_str) {
         if (dev_str.size() > 8 && dev_str[8] == ':') {
             device_id = std::stoi(std::string(dev_str.substr(9)));
         }
+    } else if (dev_str.substr(0, 4) == "cuda") {
+        device_type = DLDeviceType::kDLCUDA;
+        device_id   = 0;
+        if (dev_str.size() > 4 && dev_str[4] == ':') {
+            device_id = std::stoi(std::string(dev_str.substr(5)));
+        }
     } else {
         throw std::runtime_error("Device type not supported in bland yet");
 	}
-- 
2.43.0


From a808ff46d0c29a54713aba139ac90c3368843e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:48 +0000
Subject: [PATCH 090/110] fix: the fft of a cpu array, which is not
 implemented, returned uninitialised memory

---
 bland/bland/ops/cpu/frequency_cpu_impl.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bland/bland/ops/cpu/frequency_cpu_impl.cpp b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
index ab98fee..21958be 100644
--- a/bland/bland/ops/cpu/frequency_cpu_impl.cpp
+++ b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
@@ -14,8 +14,7 @@ using namespace bland::cpu;
 
 
 ndarray bland::cpu::fft(ndarray x, ndarray &out) {
-    fmt::print("WARN: cpu fft not implemented yet\n");
-    return out;
+    throw std::runtime_error("bland::fft: not implemented for cpu");
 }
 
 ndarray bland::cpu::fft_shift_mag_square(ndarray x, ndarray &out) {
-- 
2.43.0


From 380a133932b442821f56f622bd3e2c05ebd6939b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:49 +0000
Subject: [PATCH 091/110] fix: python arrays could not be pickled or copied

---
 bland/python/pybland.hpp | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/bland/python/pybland.hpp b/bland/python/pybland.hpp
index 5a84488..4a954f5 100644
--- a/bland/python/pybland.hpp
+++ b/bland/python/pybland.hpp
@@ -7,6 +7,9 @@
 #include <nanobind/stl/string_view.h>
 #include <nanobind/stl/vector.h>
 #include <nanobind/stl/pair.h>
+#include <nanobind/stl/tuple.h>
+
+#include <cstring> // memcpy
 
 namespace nb = nanobind;
 using namespace nb::literals;
@@ -40,25 +43,20 @@ void bind_pybland(nb::module_ m) {
     .def("size", &bland::ndarray::size)
     .def("__getstate__", [](bland::ndarray &self) {
         auto dtype = self.dtype();
-        auto device = self.device();
-        size_t bytes_per_elem = self.dtype().bits / 8;
-        auto state_tuple = std::make_tuple(
-            std::vector<int8_t>{
-                self.data_ptr<int8_t>(),
-                self.data_ptr<int8_t>() + self.numel() * bytes_per_elem
-            },
-            std::make_tuple(dtype.bits, dtype.code),
-            std::make_tuple(device.device_type, device.device_id),
-            self.shape(),
-            self.strides(),
-            self.offsets()
-        );
-        return state_tuple;
+        auto dense = bland::copy(self.to("cpu"));
+        nb::bytes elements(static_cast<const char *>(dense.data_ptr<void>()), dense.numel() * (dtype.bits / 8));
+        return std::make_tuple(elements, std::make_tuple(dtype.code, dtype.bits, dtype.lanes), self.shape());
+    })
+    .def("__setstate__", [](bland::ndarray &self, std::tuple<nb::bytes, std::tuple<uint8_t, uint8_t, uint16_t>, std::vector<int64_t>> state) {
+        auto [code, bits, lanes] = std::get<1>(state);
+        auto array = bland::ndarray(std::get<2>(state), bland::ndarray::datatype(DLDataType{code, bits, lanes}), bland::ndarray::dev::cpu);
+        auto &elements = std::get<0>(state);
+        if (elements.size() != array.numel() * (bits / 8)) {
+            throw std::runtime_error("the state does not have the elements of an array of its shape");
+        }
+        std::memcpy(array.data_ptr<void>(), elements.c_str(), elements.size());
+        new (&self) bland::ndarray(array);
     })
-    .def("__setstate__", [](bland::ndarray &self, std::tuple<std::vector<int8_t>, std::tuple<uint8_t, uint8_t>, std::tuple<DLDeviceType, int>, std::vector<int64_t>, std::vector<int64_t>, std::vector<int64_t>> state_tuple) {
-        // new (&self) bland::ndarray();
-    }
-    )
     ;
 
     nb::class_<bland::ndarray::dev>(pyndarray, "dev")
-- 
2.43.0


From 876ea6260b72ee219e46d35d2c12c6b30cfa54ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:49 +0000
Subject: [PATCH 092/110] fix: the type of a device could not be read from
 python

---
 bland/python/pybland.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bland/python/pybland.hpp b/bland/python/pybland.hpp
index 4a954f5..f15ea6e 100644
--- a/bland/python/pybland.hpp
+++ b/bland/python/pybland.hpp
@@ -61,7 +61,9 @@ void bind_pybland(nb::module_ m) {
 
     nb::class_<bland::ndarray::dev>(pyndarray, "dev")
     .def(nb::init<std::string_view>())
-    .def_rw("device_type", &bland::ndarray::dev::device_type)
+    .def_prop_rw("device_type",
+        [](const bland::ndarray::dev &self) { return static_cast<int>(self.device_type); },
+        [](bland::ndarray::dev &self, int device_type) { self.device_type = static_cast<DLDeviceType>(device_type); })
     .def_rw("device_id", &bland::ndarray::dev::device_id)
     .def("__repr__", &bland::ndarray::dev::repr)
     .def("__str__", &bland::ndarray::dev::repr);
-- 
2.43.0


From e781010f3fb10935c675b8ab548b48cb4c305042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 093/110] fix: hits pickled in python lost their times and flag
 counts, and the precision of their frequency and drift rate

---
 bliss/core/hit.cpp              | 26 ++++++++++++++++----------
 bliss/core/include/core/hit.hpp | 18 ++++++++++--------
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/bliss/core/hit.cpp b/bliss/core/hit.cpp
index 96d7eee..fec1de7 100644
--- a/bliss/core/hit.cpp
+++ b/bliss/core/hit.cpp
@@ -14,25 +14,31 @@ std::string bliss::hit::repr() const {
 hit::state_tuple bliss::hit::get_state() const {
     return std::make_tuple(start_freq_index,
                            start_freq_MHz,
+                           start_time_sec,
+                           duration_sec,
                            rate_index,
                            drift_rate_Hz_per_sec,
                            power,
                            time_span_steps,
                            snr,
                            bandwidth,
-                           binwidth
-                           // rfi_counts,
-    );
+                           binwidth,
+                           rfi_counts,
+                           coarse_channel_number);
 }
 
 void bliss::hit::set_state(state_tuple state) {
     start_freq_index      = std::get<0>(state);
     start_freq_MHz        = std::get<1>(state);
-    rate_index            = std::get<2>(state);
-    drift_rate_Hz_per_sec = std::get<3>(state);
-    power                 = std::get<4>(state);
-    time_span_steps       = std::get<5>(state);
-    snr                   = std::get<6>(state);
-    bandwidth             = std::get<7>(state);
-    binwidth              = std::get<8>(state);
+    start_time_sec        = std::get<2>(state);
+    duration_sec          = std::get<3>(state);
+    rate_index            = std::get<4>(state);
+    drift_rate_Hz_per_sec = std::get<5>(state);
+    power                 = std::get<6>(state);
+    time_span_steps       = std::get<7>(state);
+    snr                   = std::get<8>(state);
+    bandwidth             = std::get<9>(state);
+    binwidth              = std::get<10>(state);
+    rfi_counts            = std::get<11>(state);
+    coarse_channel_number = std::get<12>(state);
 }
diff --git a/bliss/core/include/core/hit.hpp b/bliss/core/include/core/hit.hpp
index f3e0bac..8fc0e08 100644
--- a/bliss/core/include/core/hit.hpp
+++ b/bliss/core/include/core/hit.hpp
@@ -81,16 +81,18 @@ struct hit {
     }
 
     using state_tuple = std::tuple<int64_t /*start_freq_index*/,
-                                   float /*start_freq_MHz*/,
+                                   double /*start_freq_MHz*/,
+                                   double /*start_time_sec*/,
+                                   double /*duration_sec*/,
                                    int64_t /*rate_index*/,
-                                   float /*drift_rate_Hz_per_sec*/,
-                                   float /*power*/,
-                                   float /*time_span_steps*/,
+                                   double /*drift_rate_Hz_per_sec*/,
+                                   double /*power*/,
+                                   int64_t /*time_span_steps*/,
                                    float /*snr*/,
-                                   double /*bandwidth*/,
-                                   int64_t /*binwidth*/
-                                   // rfi /*rfi_counts*/,
-                                   >;
+                                   float /*bandwidth*/,
+                                   int64_t /*binwidth*/,
+                                   rfi /*rfi_counts*/,
+                                   int64_t /*coarse_channel_number*/>;
 
     state_tuple get_state() const;
 
-- 
2.43.0


From 9dd326ce3457526b9a88a23418f8d5e6bea9926d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 094/110] fix: flag values pickled in python could not be read
 back, and printed debug messages

---
 .../flaggers/include/flaggers/pyflaggers.hpp  | 20 +++----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/bliss/flaggers/include/flaggers/pyflaggers.hpp b/bliss/flaggers/include/flaggers/pyflaggers.hpp
index ee04abb..6c0cf52 100644
--- a/bliss/flaggers/include/flaggers/pyflaggers.hpp
+++ b/bliss/flaggers/include/flaggers/pyflaggers.hpp
@@ -12,8 +12,6 @@
 #include <nanobind/stl/string.h>
 #include <nanobind/stl/vector.h>
 
-#include <iostream>
-
 namespace nb = nanobind;
 using namespace nb::literals;
 
@@ -170,19 +168,7 @@ void bind_pyflaggers(nb::module_ m) {
             .value("high_spectral_kurtosis", bliss::flag_values::high_spectral_kurtosis)
             .value("magnitude", bliss::flag_values::magnitude)
             .value("sigma_clip", bliss::flag_values::sigma_clip)
-            .def("__getstate__",
-                 [](const bliss::flag_values &self) {
-                     std::cout << "get state is " << static_cast<int>(self) << std::endl;
-                     return std::make_tuple(static_cast<uint8_t>(self));
-                 })
-            // .def("__setstate__", [](bliss::flag_values &self, const std::tuple<uint8_t> &state) {
-            //       std::cout << "called setstate" << std::endl;
-            //       self = static_cast<bliss::flag_values>(std::get<0>(state));
-            // })
-
-            // .def("__getstate__", [](const bliss::flag_values &self) { return std::string("filter_rolloff"); })
-            .def("__setstate__", [](bliss::flag_values &self, const std::tuple<uint8_t> &state) {
-                std::cout << "called setstate" << std::endl;
-                self = static_cast<bliss::flag_values>(std::get<0>(state));
+            .def("__reduce__", [](nb::object self) {
+                return nb::make_tuple(self.type(), nb::make_tuple(static_cast<int>(nb::cast<bliss::flag_values>(self))));
             });
-}
\ No newline at end of file
+}
-- 
2.43.0


From 0c0f0c8d3418a1d89f1089d35e05670e96a71e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 095/110] fix: events pickled in python could not be read back

---
 .../include/drift_search/pydrift_search.hpp   | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/bliss/drift_search/include/drift_search/pydrift_search.hpp b/bliss/drift_search/include/drift_search/pydrift_search.hpp
index d64057b..04ae2ad 100644
--- a/bliss/drift_search/include/drift_search/pydrift_search.hpp
+++ b/bliss/drift_search/include/drift_search/pydrift_search.hpp
@@ -102,12 +102,20 @@ void bind_pydrift_search(nb::module_ m) {
             .def_rw("event_start_seconds", &bliss::event::event_start_seconds)
             .def_rw("event_end_seconds", &bliss::event::event_end_seconds)
             .def("__repr__", &bliss::event::repr)
-            .def("__getstate__", [](const bliss::event &self) { return self.hits; })
-            //     .def("__setstate__", [](bliss::event &self, const std::vector<bliss::hit> &state) {
-            //         new (&self) bliss::event{.hits = state};
-            //     })
-            ;
-
+            .def("__getstate__", [](const bliss::event &self) {
+                return std::make_tuple(self.hits,
+                                       self.starting_frequency_Hz,
+                                       self.average_power,
+                                       self.average_bandwidth,
+                                       self.average_snr,
+                                       self.average_drift_rate_Hz_per_sec,
+                                       self.event_start_seconds,
+                                       self.event_end_seconds);
+            })
+            .def("__setstate__", [](bliss::event &self, const std::tuple<std::list<bliss::hit>, double, float, float, float, double, double, double> &state) {
+                auto [hits, frequency, power, bandwidth, snr, drift_rate, start, end] = state;
+                new (&self) bliss::event{hits, frequency, power, bandwidth, snr, drift_rate, start, end};
+            });
 
     nb::class_<bliss::filter_options>(m, "filter_options")
     .def(nb::init<>())
-- 
2.43.0


From aab57f9ffefe0be69efc978cbb96faf9ba412264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 096/110] fix: the locations of protohits could not be read
 from python

---
 bliss/drift_search/include/drift_search/pydrift_search.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bliss/drift_search/include/drift_search/pydrift_search.hpp b/bliss/drift_search/include/drift_search/pydrift_search.hpp
index 04ae2ad..80e0d10 100644
--- a/bliss/drift_search/include/drift_search/pydrift_search.hpp
+++ b/bliss/drift_search/include/drift_search/pydrift_search.hpp
@@ -36,6 +36,10 @@ void bind_pydrift_search(nb::module_ m) {
           nb::overload_cast<bliss::cadence, bliss::integrate_drifts_options>(&bliss::integrate_drifts));
 
     // General "protohit" class as intermediate between dedrifted clusters of prehits and hits
+    nb::class_<bliss::freq_drift_coord>(m, "freq_drift_coord")
+            .def_rw("drift_index", &bliss::freq_drift_coord::drift_index)
+            .def_rw("frequency_channel", &bliss::freq_drift_coord::frequency_channel);
+
     nb::class_<bliss::protohit>(m, "protohit")
             .def_rw("locations", &bliss::protohit::locations)
             .def_rw("index_max", &bliss::protohit::index_max)
-- 
2.43.0


From dc78714fb5783a16a680002a51ea7bdff9a3e423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 097/110] fix: the hits of a coarse channel could not be
 encoded for plotting

---
 bliss/python/blissdedrift/plot_utils/_encodings.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bliss/python/blissdedrift/plot_utils/_encodings.py b/bliss/python/blissdedrift/plot_utils/_encodings.py
index 5124a50..c9e8d4e 100644
--- a/bliss/python/blissdedrift/plot_utils/_encodings.py
+++ b/bliss/python/blissdedrift/plot_utils/_encodings.py
@@ -12,8 +12,10 @@ def get_hits_list(pipeline_object, origin_name=None):
         if origin_name is None:
             # Try to come up with a good one, but it probably doesn't matter
             origin_name = f"{pipeline_object.source_name}:{pipeline_object.src_dej:1.4f},{pipeline_object.src_raj:1.4f}:{pipeline_object.tstart:1.4f}"
-        # This should succeed for `coarse_channel` and `scan` which can directly query `hits()`
-        hits = pipeline_object.hits()
+        # This should succeed for `coarse_channel` and `scan` which can directly query `hits` (a property) and `hits()`
+        hits = pipeline_object.hits
+        if callable(hits):
+            hits = hits()
         hits_list = [{
             "start_freq_MHz": hit.start_freq_MHz, "drift_rate_Hz_per_sec": hit.drift_rate_Hz_per_sec,
             "SNR": hit.snr, "power": hit.power, "bandwidth_Hz": hit.bandwidth,
-- 
2.43.0


From 4de85ad3ffcf0cfe5c0eb101d14cf0743c3a1b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:55 +0000
Subject: [PATCH 098/110] fix: parts of python targets, cadences and events
 were used after replacing the list they are in

---
 bliss/core/include/core/pyblisscore.hpp       | 27 ++++++++++++++++---
 .../include/drift_search/pydrift_search.hpp   | 12 ++++++---
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/bliss/core/include/core/pyblisscore.hpp b/bliss/core/include/core/pyblisscore.hpp
index be4f05a..c7f46f1 100644
--- a/bliss/core/include/core/pyblisscore.hpp
+++ b/bliss/core/include/core/pyblisscore.hpp
@@ -20,6 +20,23 @@
 namespace nb = nanobind;
 using namespace nb::literals;
 
+/**
+ * A member which is a list of objects. The python list refers to the objects, so when the list is replaced the previous
+ * objects have to live as long as the owner
+ */
+template <typename Owner, typename List>
+void def_list(nb::class_<Owner> &owner, const char *name, List Owner::*member) {
+    owner.def_prop_rw(
+            name,
+            [member](Owner &self) -> List & { return self.*member; },
+            [member](nb::handle self, List list) {
+                auto &current  = nb::cast<Owner &>(self).*member;
+                auto  previous = new List(std::move(current));
+                current        = std::move(list);
+                nb::detail::keep_alive(self.ptr(), previous, [](void *p) noexcept { delete static_cast<List *>(p); });
+            });
+}
+
 void bind_pycore(nb::module_ m) {
 
     nb::class_<bliss::frequency_drift_plane> pyfrequency_drift_plane(m, "frequency_drift_plane");
@@ -107,7 +124,9 @@ void bind_pycore(nb::module_ m) {
         .def_rw("magnitude", &bliss::integrated_flags::magnitude)
         .def_rw("sigma_clip", &bliss::integrated_flags::sigma_clip);
 
-    nb::class_<bliss::observation_target>(m, "observation_target")
+    nb::class_<bliss::observation_target> pyobservation_target(m, "observation_target");
+    def_list(pyobservation_target, "scans", &bliss::observation_target::_scans);
+    pyobservation_target
         .def(nb::init<std::vector<bliss::scan>>(), "scans"_a)
         .def(nb::init<std::vector<std::string>, int>(), "scan_files"_a, "fine_channels_per_coarse"_a=0)
         .def("validate_scan_consistency", &bliss::observation_target::validate_scan_consistency)
@@ -117,17 +136,17 @@ void bind_pycore(nb::module_ m) {
         .def("device", &bliss::observation_target::device)
         .def("set_device", nb::overload_cast<bland::ndarray::dev&, bool>(&bliss::observation_target::set_device), "device"_a, "verbose"_a=true)
         .def("set_device", nb::overload_cast<std::string_view, bool>(&bliss::observation_target::set_device), "device"_a, "verbose"_a=true)
-        .def_rw("scans", &bliss::observation_target::_scans)
         .def_rw("target_name", &bliss::observation_target::_target_name);
 
-    nb::class_<bliss::cadence>(m, "cadence")
+    nb::class_<bliss::cadence> pycadence(m, "cadence");
+    def_list(pycadence, "observations", &bliss::cadence::_observations);
+    pycadence
         .def(nb::init<std::vector<bliss::observation_target>>(), "observations"_a)
         .def(nb::init<std::vector<std::vector<std::string>>, int>(), "scan_files"_a, "fine_channels_per_coarse"_a=0)
         .def("validate_scan_consistency", &bliss::cadence::validate_scan_consistency)
         .def("get_coarse_channel_with_frequency", &bliss::cadence::get_coarse_channel_with_frequency, "frequency"_a)
         .def_prop_ro("number_coarse_channels", &bliss::cadence::get_number_coarse_channels)
         .def("slice_cadence_channels", &bliss::cadence::slice_cadence_channels, "start"_a=0, "count"_a=1)
-        .def_rw("observations", &bliss::cadence::_observations)
         .def("device", &bliss::cadence::device)
         .def("set_device", nb::overload_cast<bland::ndarray::dev&, bool>(&bliss::cadence::set_device), "device"_a, "verbose"_a=true)
         .def("set_device", nb::overload_cast<std::string_view, bool>(&bliss::cadence::set_device), "device"_a, "verbose"_a=true);
diff --git a/bliss/drift_search/include/drift_search/pydrift_search.hpp b/bliss/drift_search/include/drift_search/pydrift_search.hpp
index 80e0d10..8273260 100644
--- a/bliss/drift_search/include/drift_search/pydrift_search.hpp
+++ b/bliss/drift_search/include/drift_search/pydrift_search.hpp
@@ -7,6 +7,8 @@
 #include <nanobind/stl/list.h>
 #include <nanobind/stl/vector.h>
 
+#include "core/pyblisscore.hpp"
+
 #include "connected_components.hpp"
 #include "event_search.hpp"
 #include "hit_search.hpp"
@@ -40,8 +42,9 @@ void bind_pydrift_search(nb::module_ m) {
             .def_rw("drift_index", &bliss::freq_drift_coord::drift_index)
             .def_rw("frequency_channel", &bliss::freq_drift_coord::frequency_channel);
 
-    nb::class_<bliss::protohit>(m, "protohit")
-            .def_rw("locations", &bliss::protohit::locations)
+    nb::class_<bliss::protohit> pyprotohit(m, "protohit");
+    def_list(pyprotohit, "locations", &bliss::protohit::locations);
+    pyprotohit
             .def_rw("index_max", &bliss::protohit::index_max)
             .def_rw("max_integration", &bliss::protohit::max_integration)
             .def_rw("rfi_counts", &bliss::protohit::rfi_counts);
@@ -96,8 +99,9 @@ void bind_pydrift_search(nb::module_ m) {
     m.def("hit_search", nb::overload_cast<bliss::observation_target, bliss::hit_search_options>(&bliss::hit_search));
     m.def("hit_search", nb::overload_cast<bliss::cadence, bliss::hit_search_options>(&bliss::hit_search));
 
-    nb::class_<bliss::event>(m, "event")
-            .def_rw("hits", &bliss::event::hits)
+    nb::class_<bliss::event> pyevent(m, "event");
+    def_list(pyevent, "hits", &bliss::event::hits);
+    pyevent
             .def_rw("starting_frequency_Hz", &bliss::event::starting_frequency_Hz)
             .def_rw("average_power", &bliss::event::average_power)
             .def_rw("average_bandwidth", &bliss::event::average_bandwidth)
-- 
2.43.0


From 6015d7e3bc30536fba875222e09fd203e3b3f4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:16 +0000
Subject: [PATCH 099/110] fix: slices with a stride that does not divide their
 range lost their last element

---
 bland/bland/ops/ops.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/ops.cpp b/bland/bland/ops/ops.cpp
index d965ce1..7f467e5 100644
--- a/bland/bland/ops/ops.cpp
+++ b/bland/bland/ops/ops.cpp
@@ -192,7 +192,8 @@ ndarray_slice bland::slice(const ndarray &a, int64_t dim, int64_t start, int64_t
     // of the current axis rather than the number of items at new stride
     sliced._tensor._offsets[dim] += start * sliced._tensor.strides[dim];
 
-    sliced._tensor.shape[dim] = (end - start) / stride;
+    // Every element from start which is before end counts, including when the last stride would go beyond end
+    sliced._tensor.shape[dim] = (end - start) / stride + ((end - start) % stride != 0);
     sliced._tensor.strides[dim] *= stride;
 
     return sliced;
-- 
2.43.0


From 6dba26e9f8a735ad0e85b25dd2af8e9e4d01d174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:43 +0000
Subject: [PATCH 100/110] fix: moving a view to another cpu device copied the
 wrong elements

---
 bland/bland/ops/ops.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/ops.cpp b/bland/bland/ops/ops.cpp
index 7f467e5..36de1c6 100644
--- a/bland/bland/ops/ops.cpp
+++ b/bland/bland/ops/ops.cpp
@@ -108,7 +108,8 @@ ndarray bland::to(ndarray src, DLDevice dest_dev) {
         } else if (dest_dev.device_type == ndarray::dev::cpu.device_type) {
             if (source_dev.device_id != dest_dev.device_id) {
                 // cpu -> cpu, but different device_id, probably a numa thing
-                memcpy(dst_ptr, src_ptr, copy_size);
+                // The source may be a view (offsets and strides) which is not contiguous
+                return cpu::copy(src, dst);
             } else {
                 // should not get here (should have returned the src as our result since no copy is required)
                 throw std::runtime_error("bland to: cpu->cpu reached unexpected code path");
-- 
2.43.0


From cf183c9def889761cdb7d2a33c89f5f7f41462eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:57 +0000
Subject: [PATCH 101/110] fix: arrays of more than 2^31 elements, and views
 that far into one, used 32-bit counts and offsets

---
 bland/bland/ndarray.cpp                       |  4 +-
 bland/bland/ops/cpu/assignment_op.hpp         |  2 +-
 bland/bland/ops/cpu/elementwise_binary_op.hpp |  6 +--
 bland/bland/ops/cpu/elementwise_scalar_op.hpp |  8 ++--
 bland/bland/ops/cpu/elementwise_unary_op.hpp  |  4 +-
 bland/bland/ops/cpu/ops_cpu.cpp               |  2 +-
 bland/bland/ops/cpu/statistical_cpu.cpp       | 40 +++++++++----------
 bland/bland/ops/creators.cpp                  |  2 +-
 .../ops/cuda/elementwise_binary_op_cuda.cuh   |  6 +--
 9 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 6e3f5ba..a1c02d0 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -207,7 +207,7 @@ bland::ndarray::dev bland::ndarray::device() const {
 }
 
 int64_t bland::ndarray::numel() const {
-    int64_t num_elements = std::accumulate(_tensor.shape, _tensor.shape + _tensor.ndim, 1, std::multiplies<int64_t>());
+    int64_t num_elements = std::accumulate(_tensor.shape, _tensor.shape + _tensor.ndim, int64_t{1}, std::multiplies<int64_t>());
     return num_elements;
 }
 
@@ -590,7 +590,7 @@ template ndarray bland::operator/<uint32_t>(const uint32_t &lhs, const ndarray &
 
 
 ndarray bland::ndarray::reshape(const std::vector<int64_t> &new_shape) {
-    int64_t num_elements = std::accumulate(new_shape.begin(), new_shape.end(), 1, std::multiplies<int64_t>());
+    int64_t num_elements = std::accumulate(new_shape.begin(), new_shape.end(), int64_t{1}, std::multiplies<int64_t>());
 
     if (num_elements != numel()) {
         auto error_message = fmt::format("reshape {} to {} does not match number of elements ({} to {})",
diff --git a/bland/bland/ops/cpu/assignment_op.hpp b/bland/bland/ops/cpu/assignment_op.hpp
index 4a693ac..42b1dd3 100644
--- a/bland/bland/ops/cpu/assignment_op.hpp
+++ b/bland/bland/ops/cpu/assignment_op.hpp
@@ -22,7 +22,7 @@ ndarray assignment_op(ndarray &out, const S &a) {
     // Current (multi-dimensional) index to read into out
     auto ndim = out_shape.size();
     std::vector<int64_t> nd_index(ndim, 0);
-    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), 0);
+    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), int64_t{0});
 
     auto numel = out.numel();
     for (int64_t n = 0; n < numel; ++n) {
diff --git a/bland/bland/ops/cpu/elementwise_binary_op.hpp b/bland/bland/ops/cpu/elementwise_binary_op.hpp
index 1550818..11fbfea 100644
--- a/bland/bland/ops/cpu/elementwise_binary_op.hpp
+++ b/bland/bland/ops/cpu/elementwise_binary_op.hpp
@@ -40,9 +40,9 @@ ndarray elementwise_binary_op(ndarray &out, const ndarray &a, const ndarray &b)
     constexpr int64_t    LAST_DIM_UNROLL_FACTOR = 8;
     std::vector<int64_t> nd_index(out_shape.size(), 0);
 
-    int64_t a_index   = std::accumulate(a_offset.begin(), a_offset.end(), 0);
-    int64_t b_index   = std::accumulate(b_offset.begin(), b_offset.end(), 0);
-    int64_t out_index = std::accumulate(out_offset.begin(), out_offset.end(), 0);
+    int64_t a_index   = std::accumulate(a_offset.begin(), a_offset.end(), int64_t{0});
+    int64_t b_index   = std::accumulate(b_offset.begin(), b_offset.end(), int64_t{0});
+    int64_t out_index = std::accumulate(out_offset.begin(), out_offset.end(), int64_t{0});
 
     const auto    ndim            = out_shape.size();
     int64_t       unroll_dim      = ndim - 1;
diff --git a/bland/bland/ops/cpu/elementwise_scalar_op.hpp b/bland/bland/ops/cpu/elementwise_scalar_op.hpp
index f1296da..ae511d3 100644
--- a/bland/bland/ops/cpu/elementwise_scalar_op.hpp
+++ b/bland/bland/ops/cpu/elementwise_scalar_op.hpp
@@ -32,8 +32,8 @@ ndarray elementwise_scalar_op(ndarray out, const ndarray &a, const B &b) {
     // Current (multi-dimensional) index to read into a, out
     std::vector<int64_t> nd_index(out_shape.size(), 0);
 
-    int64_t a_linear_index   = std::accumulate(a_offset.begin(), a_offset.end(), 0);
-    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), 0);
+    int64_t a_linear_index   = std::accumulate(a_offset.begin(), a_offset.end(), int64_t{0});
+    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), int64_t{0});
 
     auto numel = out.numel();
     for (int64_t n = 0; n < numel; ++n) {
@@ -76,8 +76,8 @@ ndarray elementwise_scalar_op_fast(ndarray out, const ndarray &a, const B &b) {
     // Current (multi-dimensional) index to read into a, out
     std::vector<int64_t> nd_index(out_shape.size(), 0);
 
-    int64_t a_index   = std::accumulate(a_offset.begin(), a_offset.end(), 0);
-    int64_t out_index = std::accumulate(out_offset.begin(), out_offset.end(), 0);
+    int64_t a_index   = std::accumulate(a_offset.begin(), a_offset.end(), int64_t{0});
+    int64_t out_index = std::accumulate(out_offset.begin(), out_offset.end(), int64_t{0});
 
     const auto    ndim            = out_shape.size();
     int64_t       unroll_dim      = ndim - 1;
diff --git a/bland/bland/ops/cpu/elementwise_unary_op.hpp b/bland/bland/ops/cpu/elementwise_unary_op.hpp
index bf36710..2d978ae 100644
--- a/bland/bland/ops/cpu/elementwise_unary_op.hpp
+++ b/bland/bland/ops/cpu/elementwise_unary_op.hpp
@@ -49,8 +49,8 @@ ndarray elementwise_unary_op(ndarray &out, const ndarray &a) {
     // Current (multi-dimensional) index for a and out
     std::vector<int64_t> nd_index(out_shape.size(), 0);
 
-    int64_t a_linear_index = std::accumulate(a_offset.begin(), a_offset.end(), 0);
-    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), 0);
+    int64_t a_linear_index = std::accumulate(a_offset.begin(), a_offset.end(), int64_t{0});
+    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), int64_t{0});
 
     auto numel = out.numel();
     for (int64_t n = 0; n < numel; ++n) {
diff --git a/bland/bland/ops/cpu/ops_cpu.cpp b/bland/bland/ops/cpu/ops_cpu.cpp
index 19f5831..6cd1a95 100644
--- a/bland/bland/ops/cpu/ops_cpu.cpp
+++ b/bland/bland/ops/cpu/ops_cpu.cpp
@@ -32,7 +32,7 @@ void bland::cpu::write_to_file(ndarray x, std::string_view file_path) {
     // Current (multi-dimensional) index for a and out
     std::vector<int64_t> nd_index(x.ndim(), 0);
 
-    int64_t x_linear_index = std::accumulate(x_offset.begin(), x_offset.end(), 0);
+    int64_t x_linear_index = std::accumulate(x_offset.begin(), x_offset.end(), int64_t{0});
 
     auto numel = x.numel();
     for (int64_t n = 0; n < numel; ++n) {
diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 602dc17..4ed4621 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -57,12 +57,12 @@ struct mean_impl {
 
         accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements - 1);
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto             reduce_nd_index = input_index;
             accumulator_type mean            = 0;
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
@@ -169,13 +169,13 @@ struct masked_mean_impl {
         using accumulator_type = std::conditional_t<is_floating_point, double, out_datatype>;
 
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto             reduce_nd_index  = input_index;
             accumulator_type mean             = 0;
             int64_t          elements_in_mean = 0;
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 int64_t mask_linear_index  = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
@@ -285,7 +285,7 @@ struct stddev_impl {
         accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements);
 
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto             reduce_nd_index = input_index;
@@ -293,7 +293,7 @@ struct stddev_impl {
             accumulator_type accum_x2        = 0;
 
             // auto this_reduction_mean = mean_data[mean_linear_index];
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
@@ -411,7 +411,7 @@ struct masked_stddev_impl {
         accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements);
 
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto             reduce_nd_index = input_index;
@@ -421,7 +421,7 @@ struct masked_stddev_impl {
             accumulator_type accum_x = 0;
             accumulator_type accum_x2 = 0;
 
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 int64_t mask_linear_index  = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
@@ -540,7 +540,7 @@ bland::cpu::mean_stddev(const ndarray &a, ndarray &out_mean, ndarray &out_stddev
     accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements);
 
     auto numel = out_mean.numel();
-    for (int i = 0; i < numel; ++i) {
+    for (int64_t i = 0; i < numel; ++i) {
         // Make a copy of the current input index, we'll fix the non-summed dims
         // and iterate over the reduced dims accumulating the total
         auto             reduce_nd_index = input_index;
@@ -548,7 +548,7 @@ bland::cpu::mean_stddev(const ndarray &a, ndarray &out_mean, ndarray &out_stddev
         accumulator_type accum_x2        = 0;
 
         // auto this_reduction_mean = mean_data[mean_linear_index];
-        for (int jj = 0; jj < reduced_elements; ++jj) {
+        for (int64_t jj = 0; jj < reduced_elements; ++jj) {
             int64_t input_linear_index = 0;
             // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
             for (int axis = 0; axis < a_shape.size(); ++axis) {
@@ -674,7 +674,7 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
         accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements);
 
         auto numel = out_mean.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto             reduce_nd_index = input_index;
@@ -684,7 +684,7 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
             accumulator_type accum_x = 0;
             accumulator_type accum_x2 = 0;
 
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 int64_t mask_linear_index  = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
@@ -814,7 +814,7 @@ struct standardized_moment_impl {
         double scale = 1.0 / static_cast<double>(reduced_elements - 1);
 
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto   reduce_nd_index = input_index;
@@ -828,7 +828,7 @@ struct standardized_moment_impl {
             }
 
             auto this_reduction_mean = mean_data[mean_linear_index];
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
@@ -968,12 +968,12 @@ struct sum_impl {
 
         // Loop over the dimensions of the array and perform the reduction operation
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto        reduce_nd_index = input_index;
             in_datatype total           = 0;
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
@@ -1044,11 +1044,11 @@ struct count_impl {
         auto a_offset  = a.offsets();
 
         std::vector<int64_t> input_index(a_shape.size(), 0);
-        int64_t a_linear_index = std::accumulate(a_offset.begin(), a_offset.end(), 0);
+        int64_t a_linear_index = std::accumulate(a_offset.begin(), a_offset.end(), int64_t{0});
 
         int64_t count = 0;
         auto    numel = a.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             if (a_data[a_linear_index]) {
@@ -1113,12 +1113,12 @@ struct max_impl {
 
         // Loop over the dimensions of the array and perform the reduction operation
         auto numel = out.numel();
-        for (int i = 0; i < numel; ++i) {
+        for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto        reduce_nd_index = input_index;
             datatype max = std::numeric_limits<datatype>::lowest();
-            for (int jj = 0; jj < reduced_elements; ++jj) {
+            for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
diff --git a/bland/bland/ops/creators.cpp b/bland/bland/ops/creators.cpp
index 9e3d1dc..bb9f512 100644
--- a/bland/bland/ops/creators.cpp
+++ b/bland/bland/ops/creators.cpp
@@ -429,7 +429,7 @@ void initialize_randn(T *data, int64_t numel, D distribution) {
     std::random_device rd{};
     std::mt19937       gen{rd()};
     // We know this is a dense array
-    for (int n = 0; n < numel; ++n) {
+    for (int64_t n = 0; n < numel; ++n) {
         data[n] = distribution(gen);
     }
 }
diff --git a/bland/bland/ops/cuda/elementwise_binary_op_cuda.cuh b/bland/bland/ops/cuda/elementwise_binary_op_cuda.cuh
index 8dd3d17..054b49e 100644
--- a/bland/bland/ops/cuda/elementwise_binary_op_cuda.cuh
+++ b/bland/bland/ops/cuda/elementwise_binary_op_cuda.cuh
@@ -88,13 +88,13 @@ struct elementwise_binary_op_impl_wrapper_cuda {
         auto out_data = out.data_ptr<Out>();
 
         const auto a_offset   = a.offsets();
-        int64_t a_ptr_offset = std::accumulate(a_offset.begin(), a_offset.end(), 0);
+        int64_t a_ptr_offset = std::accumulate(a_offset.begin(), a_offset.end(), int64_t{0});
         a_data += a_ptr_offset;
         const auto b_offset   = b.offsets();
-        int64_t b_ptr_offset = std::accumulate(b_offset.begin(), b_offset.end(), 0);
+        int64_t b_ptr_offset = std::accumulate(b_offset.begin(), b_offset.end(), int64_t{0});
         b_data += b_ptr_offset;
         const auto out_offset = out.offsets();
-        int64_t out_ptr_offset = std::accumulate(out_offset.begin(), out_offset.end(), 0);
+        int64_t out_ptr_offset = std::accumulate(out_offset.begin(), out_offset.end(), int64_t{0});
         out_data += out_ptr_offset;
 
         const auto out_shape = out.shape();
-- 
2.43.0


From c9f83c64628416cbf5d145f3d919f58263d0dfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:27 +0000
Subject: [PATCH 102/110] fix: sums were accumulated in the element type, too
 narrow for long arrays or wider outputs

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 4ed4621..f21a2c9 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -966,13 +966,17 @@ struct sum_impl {
         auto                 a_offset  = a.offsets();
         std::vector<int64_t> input_index(a_shape.size(), 0);
 
+        // The sum may need more range or precision than an element does
+        constexpr bool is_floating_point = std::is_floating_point<in_datatype>::value || std::is_floating_point<out_datatype>::value;
+        using accumulator_type           = std::conditional_t<is_floating_point, double, int64_t>;
+
         // Loop over the dimensions of the array and perform the reduction operation
         auto numel = out.numel();
         for (int64_t i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto        reduce_nd_index = input_index;
-            in_datatype total           = 0;
+            accumulator_type total      = 0;
             for (int64_t jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
@@ -997,7 +1001,7 @@ struct sum_impl {
                 out_linear_index += out_offset[axis] + (out_index[axis]) * out_strides[axis];
             }
 
-            out_data[out_linear_index] = total;
+            out_data[out_linear_index] = static_cast<out_datatype>(total);
 
             // Increment the multi-dimensional output index
             for (int axis = out_shape.size() - 1; axis >= 0; --axis) {
-- 
2.43.0


From 30a0cc6dcfa9fb8f6e65716c68b4a654be36304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:32 +0000
Subject: [PATCH 103/110] fix: scans of more than 2^31 fine channels had
 negative channel counts and were never consistent

---
 bliss/core/cadence.cpp           | 4 ++--
 bliss/core/include/core/scan.hpp | 2 +-
 bliss/core/scan.cpp              | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/bliss/core/cadence.cpp b/bliss/core/cadence.cpp
index 6e8fa8c..ad21590 100644
--- a/bliss/core/cadence.cpp
+++ b/bliss/core/cadence.cpp
@@ -51,7 +51,7 @@ bool bliss::observation_target::validate_scan_consistency() {
 
     double fch1;
     double foff;
-    int nchans;
+    int64_t nchans;
     if (!_scans.empty()) {
         fch1 = _scans[0].fch1();
         foff = _scans[0].foff();
@@ -135,7 +135,7 @@ bool bliss::cadence::validate_scan_consistency() {
 
     double fch1;
     double foff;
-    int nchans;
+    int64_t nchans;
     bool found_valid_scan = false;
     for (auto &obs: _observations) {
         if (!obs._scans.empty()) {
diff --git a/bliss/core/include/core/scan.hpp b/bliss/core/include/core/scan.hpp
index e0fe560..eec4204 100644
--- a/bliss/core/include/core/scan.hpp
+++ b/bliss/core/include/core/scan.hpp
@@ -158,7 +158,7 @@ class scan {
 
 
     // Derived OR inferred
-    int _fine_channels_per_coarse;
+    int64_t _fine_channels_per_coarse;
     // Derived values at read-time
     int64_t _num_coarse_channels;
     int64_t _coarse_channel_offset = 0;
diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index c29161c..2c23a4b 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -45,8 +45,8 @@ constexpr std::array<std::tuple<int, double, double, const char*>, 9> known_chan
 /**
  * returned tuple is {number of coarse channels, number of fine channels per coarse}
 */
-std::tuple<int, int>
-infer_number_coarse_channels(int number_fine_channels, double foff, double tsamp) {
+std::tuple<int64_t, int64_t>
+infer_number_coarse_channels(int64_t number_fine_channels, double foff, double tsamp) {
     for (const auto &channelization : known_channelizations) {
         auto [fine_channels_per_coarse, freq_res, time_res, version] = channelization;
 
-- 
2.43.0


From e2e17955f0330f2151b5d4aac34a8f3bcf8be397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:26 +0000
Subject: [PATCH 104/110] fix: blocks of a file that start outside of it or
 have another number of dimensions were undefined

---
 bliss/file_types/h5_filterbank_file.cpp | 42 +++++++++++++++----------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 0081c66..bbe7da5 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -357,6 +357,30 @@ std::vector<int64_t> bliss::h5_filterbank_file::get_data_shape() {
   }
 
 
+/**
+ * Fill in the parts of a block that were not given (from the start, until the end of the data) and check that the
+ * block is inside of the data
+ */
+static void validate_block(const std::vector<int64_t> &shape, std::vector<int64_t> &offset, std::vector<int64_t> &count) {
+    if (offset.empty()) {
+        offset = std::vector<int64_t>(shape.size(), 0);
+    }
+    if (offset.size() != shape.size() || (!count.empty() && count.size() != shape.size())) {
+        throw std::invalid_argument("The offset and count to read need a value for each of time, feed_id and frequency");
+    }
+    if (count.empty()) {
+        count = shape;
+        for (size_t dim = 0; dim < shape.size(); ++dim) {
+            count[dim] -= offset[dim];
+        }
+    }
+    for (size_t dim = 0; dim < shape.size(); ++dim) {
+        if (offset[dim] < 0 || offset[dim] > shape[dim] || count[dim] < 0 || count[dim] > shape[dim] - offset[dim]) {
+            throw std::out_of_range("The offset and count to read are not inside of the data");
+        }
+    }
+}
+
 bland::ndarray bliss::h5_filterbank_file::read_data(std::vector<int64_t> offset, std::vector<int64_t> count) {
     auto dataspace   = _h5_data_handle.getSpace();
     auto number_dims = dataspace.getSimpleExtentNdims();
@@ -365,19 +389,10 @@ bland::ndarray bliss::h5_filterbank_file::read_data(std::vector<int64_t> offset,
 
     auto shape = get_data_shape();
 
-    if (offset.empty()) {
-        offset = std::vector<int64_t>(shape.size(), 0);
-    }
-    if (count.empty()) {
-        count = shape;
-        count[0] -= offset[0];
-        count[1] -= offset[1];
-        count[2] -= offset[2];
-    }
+    validate_block(shape, offset, count);
     // TODO: if we have cuda we should put this in unified memory since we *know* we'll move it to device
     // and it needs to pass through there anyway
     spectrum_grid = bland::ndarray(count, bland::ndarray::datatype::float32, bland::ndarray::dev::cpu);
-    // TODO: validate both offset and count are size 3
 
     std::vector<hsize_t> offset_hsize(offset.begin(), offset.end());
     std::vector<hsize_t> count_hsize(count.begin(), count.end());
@@ -433,12 +448,7 @@ bland::ndarray bliss::h5_filterbank_file::read_mask(std::vector<int64_t> offset,
     //     mask_grid = mask_grid.squeeze(1); // squeeze out the feed_id
     //     return mask_grid;
     // } else {
-        if (count.empty()) {
-            count = get_data_shape();
-            for (size_t dim = 0; dim < offset.size(); ++dim) {
-                count[dim] -= offset[dim];
-            }
-        }
+        validate_block(get_data_shape(), offset, count);
         // The file has no "mask" dataset, it's typically zeros anyway so just allocate the appropriate number of uint8 zeros
         auto mask_grid = bland::zeros(count, bland::ndarray::datatype::uint8, bland::ndarray::dev::cpu);
         mask_grid = mask_grid.squeeze(1); // squeeze out the feed_id
-- 
2.43.0


From bc7a2f5050b72b918f1e675b3b900cc51c65ae1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:19 +0000
Subject: [PATCH 105/110] fix: filling an array of more than 2^31 elements
 overflowed its int counter

---
 bland/bland/ndarray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index a1c02d0..3231f21 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -144,7 +144,7 @@ bland::ndarray::ndarray(std::vector<int64_t> dims, datatype dtype, DLDevice devi
 template <typename T>
 void initialize_memory(T *data, int64_t numel, T value) {
     // We know this is a dense array
-    for (int n = 0; n < numel; ++n) {
+    for (int64_t n = 0; n < numel; ++n) {
         data[n] = value;
     }
 }
-- 
2.43.0


From ddb9e1ba12e3d86937a83936baf3ea98c07753f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:36 +0000
Subject: [PATCH 106/110] fix: events of more than 64 MiB, and all after them,
 were lost when reading a file of events

---
 bliss/file_types/cpnp_files.cpp              | 25 ++++----------------
 bliss/file_types/detail/cpnp_hit_builder.cpp | 13 ++++++++++
 bliss/file_types/detail/cpnp_hit_builder.hpp |  6 +++++
 bliss/file_types/events_file.cpp             |  2 +-
 4 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/bliss/file_types/cpnp_files.cpp b/bliss/file_types/cpnp_files.cpp
index a4028e1..c35014c 100644
--- a/bliss/file_types/cpnp_files.cpp
+++ b/bliss/file_types/cpnp_files.cpp
@@ -17,25 +17,8 @@
 #include <fmt/core.h>
 #include <fmt/format.h>
 
-#include <algorithm>
-#include <sys/stat.h>
-
 using namespace bliss;
 
-/**
- * By default messages of more than 64 MiB are refused as untrusted. A file of many hits may be larger than that, so
- * accept as much as the file itself could hold (each part is visited a small number of times).
- */
-static capnp::ReaderOptions reader_options_for_file(int fd) {
-    capnp::ReaderOptions options;
-    struct stat          file_info;
-    if (fstat(fd, &file_info) == 0 && file_info.st_size > 0) {
-        uint64_t file_words           = file_info.st_size / sizeof(capnp::word);
-        options.traversalLimitInWords = std::max<uint64_t>(options.traversalLimitInWords, 4 * file_words);
-    }
-    return options;
-}
-
 template<typename Container>
 void bliss::write_hits_to_capnp_file(Container hits, std::string_view file_path) {
 
@@ -92,7 +75,7 @@ coarse_channel bliss::read_coarse_channel_hits_from_capnp_file(std::string_view
 
     auto in_file = detail::raii_file_for_read(file_path);
 
-    capnp::StreamFdMessageReader message(in_file._fd, reader_options_for_file(in_file._fd));
+    capnp::StreamFdMessageReader message(in_file._fd, detail::reader_options_for_file(in_file._fd));
 
     auto coarse_channel_reader = message.getRoot<CoarseChannel>();
     auto deserialized_cc = detail::capnp_coarse_channel_message_to_bliss_coarse_channel(coarse_channel_reader);
@@ -114,7 +97,7 @@ void bliss::write_scan_hits_to_capnp_file(scan scan_with_hits, std::string_view
 scan bliss::read_scan_hits_from_capnp_file(std::string_view file_path) {
     auto in_file = detail::raii_file_for_read(file_path);
 
-    capnp::StreamFdMessageReader message(in_file._fd, reader_options_for_file(in_file._fd));
+    capnp::StreamFdMessageReader message(in_file._fd, detail::reader_options_for_file(in_file._fd));
     auto scan_reader = message.getRoot<Scan>();
 
     auto scan_with_hits = detail::capnp_scan_message_to_bliss_scan(scan_reader);
@@ -137,7 +120,7 @@ void bliss::write_observation_target_hits_to_capnp_files(observation_target obse
 observation_target bliss::read_observation_target_hits_from_capnp_files(std::string_view file_path) {
     auto in_file = detail::raii_file_for_read(file_path);
 
-    capnp::StreamFdMessageReader message(in_file._fd, reader_options_for_file(in_file._fd));
+    capnp::StreamFdMessageReader message(in_file._fd, detail::reader_options_for_file(in_file._fd));
     auto obstarget_reader = message.getRoot<ObservationTarget>();
 
     auto observations = detail::capnp_observation_target_message_to_bliss_observation_target(obstarget_reader);
@@ -159,7 +142,7 @@ void bliss::write_cadence_hits_to_capnp_files(cadence cadence_with_hits, std::st
 cadence bliss::read_cadence_hits_from_capnp_files(std::string_view file_path) {
     auto in_file = detail::raii_file_for_read(file_path);
 
-    capnp::StreamFdMessageReader message(in_file._fd, reader_options_for_file(in_file._fd));
+    capnp::StreamFdMessageReader message(in_file._fd, detail::reader_options_for_file(in_file._fd));
     auto cadence_reader = message.getRoot<Cadence>();
 
     auto deserialized_cadence = detail::capnp_cadence_message_to_cadence(cadence_reader);
diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index f91dcd0..abd0040 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -2,9 +2,22 @@
 #include "cpnp_hit_builder.hpp"
 #include <core/hit.hpp>
 
+#include <algorithm>
+#include <sys/stat.h>
+
 using namespace bliss;
 using namespace bliss::detail;
 
+capnp::ReaderOptions bliss::detail::reader_options_for_file(int fd) {
+    capnp::ReaderOptions options;
+    struct stat          file_info;
+    if (fstat(fd, &file_info) == 0 && file_info.st_size > 0) {
+        uint64_t file_words           = file_info.st_size / sizeof(capnp::word);
+        options.traversalLimitInWords = std::max<uint64_t>(options.traversalLimitInWords, 4 * file_words);
+    }
+    return options;
+}
+
 void bliss::detail::bliss_hit_to_capnp_signal_message(Signal::Builder &signal_builder, hit this_hit) {
     signal_builder.setFrequency(this_hit.start_freq_MHz);
     signal_builder.setIndex(this_hit.start_freq_index);
diff --git a/bliss/file_types/detail/cpnp_hit_builder.hpp b/bliss/file_types/detail/cpnp_hit_builder.hpp
index e877cc5..293b190 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.hpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.hpp
@@ -16,6 +16,12 @@
 
 namespace bliss::detail {
 
+/**
+ * By default messages of more than 64 MiB are refused as untrusted. A file of many hits may be larger than that, so
+ * accept as much as the file itself could hold (each part is visited a small number of times).
+ */
+capnp::ReaderOptions reader_options_for_file(int fd);
+
 /**
  * A single source for converting our native `bliss::hit` type to a cap'n proto `signal` through a capnp builder
  */
diff --git a/bliss/file_types/events_file.cpp b/bliss/file_types/events_file.cpp
index 953e58d..b0bfe1a 100644
--- a/bliss/file_types/events_file.cpp
+++ b/bliss/file_types/events_file.cpp
@@ -50,7 +50,7 @@ std::vector<event> bliss::read_events_from_file(std::string_view file_path) {
     while (true) {
 
         try {
-            capnp::StreamFdMessageReader message(in_file._fd);
+            capnp::StreamFdMessageReader message(in_file._fd, detail::reader_options_for_file(in_file._fd));
 
             auto event_reader      = message.getRoot<Event>();
             auto deserialized_hits = event_reader.getHits();
-- 
2.43.0


From 7ddc0a8c534b47b4320f29bcc4e7c5adcfe4a298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:45 +0000
Subject: [PATCH 107/110] fix: integer attributes with values that the
 requested type cannot represent were read as other numbers

---
 bliss/file_types/h5_filterbank_file.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index bbe7da5..0c8f3d6 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -27,6 +27,11 @@ static T convert_attr(const std::string &key, V val) {
         if (!(std::trunc(val) >= lower && val < upper)) {
             throw std::invalid_argument(fmt::format("H5 attribute {} has a value which is not a valid integer", key));
         }
+    } else if constexpr (std::is_integral_v<T>) {
+        // the value has to survive the conversion, including its sign
+        if (static_cast<V>(static_cast<T>(val)) != val || (static_cast<T>(val) < 0) != (val < 0)) {
+            throw std::invalid_argument(fmt::format("H5 attribute {} has a value which does not fit", key));
+        }
     }
     return static_cast<T>(val);
 }
@@ -49,42 +54,42 @@ T bliss::h5_filterbank_file::read_data_attr(const std::string &key) {
             }
             int16_t val;
             attr.read(dtype, &val);
-            return static_cast<T>(val);
+            return convert_attr<T>(key, val);
         } else if (dtype == H5::PredType::NATIVE_UINT16) {
             if constexpr (pedantic && !std::is_same_v<uint16_t, T>) {
                 fmt::print("WARN: attr {} requested as {} but is NATIVE_UINT16 in file\n", key, typeid(T).name());
             }
             uint16_t val;
             attr.read(dtype, &val);
-            return static_cast<T>(val);
+            return convert_attr<T>(key, val);
         } else if (dtype == H5::PredType::NATIVE_INT32) {
             if constexpr (pedantic && !std::is_same_v<int32_t, T>) {
                 fmt::print("WARN: attr {} requested as {} but is NATIVE_INT32 in file\n", key, typeid(T).name());
             }
             int32_t val;
             attr.read(dtype, &val);
-            return static_cast<T>(val);
+            return convert_attr<T>(key, val);
         } else if (dtype == H5::PredType::NATIVE_UINT32) {
             if constexpr (pedantic && !std::is_same_v<uint32_t, T>) {
                 fmt::print("WARN: attr {} requested as {} but is NATIVE_UINT32 in file\n", key, typeid(T).name());
             }
             uint32_t val;
             attr.read(dtype, &val);
-            return static_cast<T>(val);
+            return convert_attr<T>(key, val);
         }  else if (dtype == H5::PredType::NATIVE_INT64) {
             if constexpr (pedantic && !std::is_same_v<int64_t, T>) {
                 fmt::print("WARN: attr {} requested as {} but is NATIVE_INT64 in file\n", key, typeid(T).name());
             }
             int64_t val;
             attr.read(dtype, &val);
-            return static_cast<T>(val);
+            return convert_attr<T>(key, val);
         }  else if (dtype == H5::PredType::NATIVE_UINT64) {
             if constexpr (pedantic && !std::is_same_v<uint64_t, T>) {
                 fmt::print("WARN: attr {} requested as {} but is NATIVE_UINT64 in file\n", key, typeid(T).name());
             }
             uint64_t val;
             attr.read(dtype, &val);
-            return static_cast<T>(val);
+            return convert_attr<T>(key, val);
         }  else if (dtype == H5::PredType::NATIVE_FLOAT) {
             if constexpr (pedantic && !std::is_same_v<float, T>) {
                 fmt::print("WARN: attr {} requested as {} but is NATIVE_FLOAT in file\n", key, typeid(T).name());
@@ -101,9 +106,14 @@ T bliss::h5_filterbank_file::read_data_attr(const std::string &key) {
             return convert_attr<T>(key, val);
         } else if (dtype.getClass() == H5T_INTEGER) {
             // any other width or byte order, hdf5 converts to the native type
+            if (H5Tget_sign(dtype.getId()) == H5T_SGN_NONE) {
+                uint64_t val;
+                attr.read(H5::PredType::NATIVE_UINT64, &val);
+                return convert_attr<T>(key, val);
+            }
             int64_t val;
             attr.read(H5::PredType::NATIVE_INT64, &val);
-            return static_cast<T>(val);
+            return convert_attr<T>(key, val);
         } else if (dtype.getClass() == H5T_FLOAT) {
             double val;
             attr.read(H5::PredType::NATIVE_DOUBLE, &val);
-- 
2.43.0


From 739991c452d74f3a5a49dc64b17f518e5cbd0462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:01 +0000
Subject: [PATCH 108/110] fix: the frequency resolution read from a dat file
 was in Hz instead of MHz

---
 bliss/file_types/dat_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/file_types/dat_file.cpp b/bliss/file_types/dat_file.cpp
index 3f98a72..08c8e28 100644
--- a/bliss/file_types/dat_file.cpp
+++ b/bliss/file_types/dat_file.cpp
@@ -178,7 +178,7 @@ scan bliss::read_scan_hits_from_dat_file(std::string_view file_path) {
             auto dej_sexagesimal = match[3];
         } else if (std::regex_search(line, match, tstart_regex)) {
             deserialized_scan.set_tsamp(std::stod(match[1]));
-            deserialized_scan.set_foff(std::stod(match[2]));
+            deserialized_scan.set_foff(std::stod(match[2]) / 1e6); // DELTAF is in Hz
             // scan_data.max_drift_rate = match[3];
             // scan_data.obs_length = std::stod(match[4]);
         } else if (std::regex_search(line, match, data_regex)) {
-- 
2.43.0


From f231ac3957ca46c20d4f580e635a536792eb78c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:34 +0000
Subject: [PATCH 109/110] fix: reading a dat file closed its file descriptor
 twice

---
 bliss/file_types/dat_file.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bliss/file_types/dat_file.cpp b/bliss/file_types/dat_file.cpp
index 08c8e28..a70e39d 100644
--- a/bliss/file_types/dat_file.cpp
+++ b/bliss/file_types/dat_file.cpp
@@ -159,7 +159,8 @@ void bliss::write_scan_hits_to_dat_file(scan scan_with_hits, std::string_view fi
 scan bliss::read_scan_hits_from_dat_file(std::string_view file_path) {
     auto in_file = detail::raii_file_for_read(file_path);
 
-    auto in_buff   = __gnu_cxx::stdio_filebuf<char>(in_file._fd, std::ios::in);
+    // the buffer closes the descriptor it is given, which must not be the one that in_file closes
+    auto in_buff   = __gnu_cxx::stdio_filebuf<char>(dup(in_file._fd), std::ios::in);
     auto in_stream = std::istream(&in_buff);
 
     std::string line;
-- 
2.43.0


From 42d470e615bd5d4ab5552c1d1d3485c7d53915fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:15 +0000
Subject: [PATCH 110/110] fix: an array that did not fit on the disk was
 reported as written

---
 bland/bland/ops/cpu/ops_cpu.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bland/bland/ops/cpu/ops_cpu.cpp b/bland/bland/ops/cpu/ops_cpu.cpp
index 6cd1a95..32968f2 100644
--- a/bland/bland/ops/cpu/ops_cpu.cpp
+++ b/bland/bland/ops/cpu/ops_cpu.cpp
@@ -50,6 +50,9 @@ void bland::cpu::write_to_file(ndarray x, std::string_view file_path) {
         }
     }
     out_file.close();
+    if (!out_file) {
+        throw std::runtime_error("Unable to write all of the array to file.");
+    }
 }
 
 ndarray bland::cpu::read_from_file(std::string_view file_path, ndarray::datatype dtype) {
@@ -66,6 +69,9 @@ ndarray bland::cpu::read_from_file(std::string_view file_path, ndarray::datatype
     auto x_ptr = x.data_ptr<char>();
     // a partial element at the end of the file does not fit in the array
     in_file.read(x_ptr, numel * (dtype.bits/8));
+    if (!in_file) {
+        throw std::runtime_error("Could not read all of the array from file.");
+    }
 
     return x;
 }
-- 
2.43.0

