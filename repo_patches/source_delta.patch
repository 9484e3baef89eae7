From 7b6bc9cd075b48770440a87400e00d19ac4d54f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:26 +0000
Subject: [PATCH 01/50] fix: Tensor -= and *= with a scalar call the existing
 operations

---
 smart_dnn/Tensor/Tensor.impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 81e4265..9900ba0 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -77,13 +77,13 @@ Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator+=(T scalar) {
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator-=(T scalar) {
-    TensorOperations<T, DeviceType>::substractScalarInPlace(data_, scalar);
+    TensorOperations<T, DeviceType>::subtractScalarInPlace(data_, scalar);
     return *this;
 }
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator*=(T scalar) {
-    TensorOperations<T, DeviceType>::multipleScalarInPlace(data_, scalar);
+    TensorOperations<T, DeviceType>::multiplyScalarInPlace(data_, scalar);
     return *this;
 }
 
-- 
2.43.0


From 66ffe39f35141626bcc169c91710463cc05b484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:34 +0000
Subject: [PATCH 02/50] fix: reject shapes whose element count overflows

---
 smart_dnn/Shape/Shape.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Shape/Shape.hpp b/smart_dnn/Shape/Shape.hpp
index c0b4f00..b596c4e 100644
--- a/smart_dnn/Shape/Shape.hpp
+++ b/smart_dnn/Shape/Shape.hpp
@@ -2,7 +2,9 @@
 #define SHAPE_HPP
 
 #include <iostream>
+#include <limits>
 #include <numeric>
+#include <stdexcept>
 #include <vector>
 #include <sstream>
 
@@ -108,7 +110,14 @@ private:
     std::vector<size_t> _stride;
 
     size_t calculateSize() const {
-        return std::accumulate(_dimensions.begin(), _dimensions.end(), size_t(1), std::multiplies<size_t>());
+        size_t size = 1;
+        for (int dim : _dimensions) {
+            if (size > std::numeric_limits<size_t>::max() / static_cast<size_t>(dim)) {
+                throw std::overflow_error("Shape size exceeds maximum representable value");
+            }
+            size *= static_cast<size_t>(dim);
+        }
+        return size;
     }
 
     std::vector<size_t> calculateStride() const {
-- 
2.43.0


From 9feba3bd62126bc82d7bb3f66e62f5c77145c473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:06 +0000
Subject: [PATCH 03/50] fix: construct tensors from vectors, and reject a wrong
 number of values

---
 smart_dnn/Tensor/Tensor.hpp             |  2 +-
 smart_dnn/Tensor/Tensor.impl.hpp        |  2 +-
 smart_dnn/Tensor/TensorData.hpp         | 10 +++++++++-
 smart_dnn/Tensor/TensorDataCPU.impl.hpp | 13 +++++++------
 4 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/smart_dnn/Tensor/Tensor.hpp b/smart_dnn/Tensor/Tensor.hpp
index e180378..4fc6dc6 100644
--- a/smart_dnn/Tensor/Tensor.hpp
+++ b/smart_dnn/Tensor/Tensor.hpp
@@ -22,7 +22,7 @@ public:
     Tensor(Tensor&& other) noexcept;
     Tensor(Shape dimensions, std::initializer_list<T> values);
     Tensor(Shape dimensions, const std::vector<T>& values);
-    Tensor(Shape dimensions, std::vector<T>&& values) noexcept;
+    Tensor(Shape dimensions, std::vector<T>&& values);
 
     ~Tensor() = default;
 
diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 9900ba0..0011c37 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -35,7 +35,7 @@ TEMPLATE_TENSOR
 Tensor<T, DeviceType>::Tensor(Shape dimensions, const std::vector<T>& values) : data_(dimensions, values) {}
 
 TEMPLATE_TENSOR
-Tensor<T, DeviceType>::Tensor(Shape dimensions, std::vector<T>&& values) noexcept : data_(dimensions, std::move(values)) {}
+Tensor<T, DeviceType>::Tensor(Shape dimensions, std::vector<T>&& values) : data_(dimensions, std::move(values)) {}
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator=(const Tensor<T, DeviceType>& other) {
diff --git a/smart_dnn/Tensor/TensorData.hpp b/smart_dnn/Tensor/TensorData.hpp
index 5c77331..6c50519 100644
--- a/smart_dnn/Tensor/TensorData.hpp
+++ b/smart_dnn/Tensor/TensorData.hpp
@@ -6,6 +6,8 @@
 #include "smart_dnn/Tensor/DeviceTypes.hpp"
 #include <iomanip>
 #include <functional>
+#include <stdexcept>
+#include <string>
 
 namespace smart_dnn {
 
@@ -24,7 +26,7 @@ public:
     TensorData(const TensorData& other);
     TensorData(Shape dimensions, std::initializer_list<T> values);
     TensorData(Shape dimensions, const std::vector<T>& values);
-    TensorData(Shape dimensions, std::vector<T>&& values) noexcept;
+    TensorData(Shape dimensions, std::vector<T>&& values);
 
 
     TensorData(TensorData&&) noexcept = default;
@@ -61,6 +63,12 @@ public:
     T* end() const { return (data_.get() + shape_.size()); }
 
 private:
+    static void validateValueCount(const Shape& shape, size_t count) {
+        if (shape.size() != count) {
+            throw std::invalid_argument("Number of values (" + std::to_string(count) + ") does not match shape " + shape.toString());
+        }
+    }
+
     Shape shape_;
     std::unique_ptr<T[]> data_;
 };
diff --git a/smart_dnn/Tensor/TensorDataCPU.impl.hpp b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
index a757e84..f6c14e9 100644
--- a/smart_dnn/Tensor/TensorDataCPU.impl.hpp
+++ b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
@@ -38,20 +38,21 @@ TENSOR_DATA_CPU::TensorData(const TENSOR_DATA_CPU& other)
 TEMPLATE_TENSOR
 TENSOR_DATA_CPU::TensorData(Shape dimensions, std::initializer_list<T> values)
     : shape_(dimensions), data_(std::make_unique<T[]>(dimensions.size())) {
+    validateValueCount(shape_, values.size());
     std::copy(values.begin(), values.end(), data_.get());
 }
 
 TEMPLATE_TENSOR
-TENSOR_DATA_CPU::TensorData(Shape dimensions, const std::vector<T>& values){
-    shape_ = dimensions;
-    data_ = std::make_unique<T[]>(shape_.size());
+TENSOR_DATA_CPU::TensorData(Shape dimensions, const std::vector<T>& values)
+    : shape_(dimensions), data_(std::make_unique<T[]>(dimensions.size())) {
+    validateValueCount(shape_, values.size());
     std::copy(values.begin(), values.end(), data_.get());
 }
 
 TEMPLATE_TENSOR
-TENSOR_DATA_CPU::TensorData(Shape dimensions, std::vector<T>&& values) noexcept{
-    shape_ = dimensions;
-    data_ = std::make_unique<T[]>(shape_.size());
+TENSOR_DATA_CPU::TensorData(Shape dimensions, std::vector<T>&& values)
+    : shape_(dimensions), data_(std::make_unique<T[]>(dimensions.size())) {
+    validateValueCount(shape_, values.size());
     std::move(values.begin(), values.end(), data_.get());
 }
 
-- 
2.43.0


From 7643930652c766e0516c2b0ba69e53bbbd0aeae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:43 +0000
Subject: [PATCH 04/50] fix: batch normalization backward pass computes the
 derivative, within bounds

---
 .../Regularisation/BatchNormalizationLayer.hpp     | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
index 0fdd581..0b865d2 100644
--- a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
+++ b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
@@ -61,8 +61,12 @@ public:
         }
 
         const auto& inputShape = gradOutput.getShape();
+
+        if (inputShape != normalizedInput->getShape()) {
+            throw std::invalid_argument("BatchNormalizationLayer: gradient shape does not match the last input");
+        }
         
-        int batchSize = inputShape[0];
+        T reductionSize = T(inputShape.size() / inputShape[1]);
         std::vector<size_t> reductionAxes = (inputShape.rank() == 4) ? std::vector<size_t>{0, 2, 3} : std::vector<size_t>{0};
 
         TensorType reshapedGamma = reshapeForBroadcast(gamma, inputShape);
@@ -78,7 +82,7 @@ public:
         
         TensorType dVariance = AdvancedTensorOperations<T>::sum(dNormalized * (*normalizedInput), reductionAxes);
         dVariance = reshapeForBroadcast(dVariance, invStdDev.getShape());
-        dVariance = dVariance * T(-0.5) * invStdDev * invStdDev * invStdDev;
+        dVariance = dVariance * T(-0.5) * invStdDev; // scaled by the standard deviation, as normalizedInput is divided by it
         dVariance = reshapeForBroadcast(dVariance, inputShape);
         
         TensorType dMean = AdvancedTensorOperations<T>::sum(dNormalized * invStdDev * T(-1), reductionAxes);
@@ -86,8 +90,8 @@ public:
 
         
         TensorType dInput = dNormalized * invStdDev +
-                            dVariance * T(2) * (*normalizedInput) / T(batchSize) +
-                            dMean / T(batchSize);
+                            dVariance * T(2) * (*normalizedInput) / reductionSize +
+                            dMean / reductionSize;
 
         gammaGrad = dGamma;
         betaGrad = dBeta;
@@ -123,7 +127,7 @@ private:
 
     TensorType reshapeForBroadcast(const TensorType& tensor, const Shape& targetShape) {
         std::vector<int> newShape(targetShape.rank(), 1);
-        newShape[1] = tensor.getShape()[1];  // Preserve the channel dimension
+        newShape[1] = tensor.getShape().size();  // Preserve the channel dimension
         
         // For 2D input, we need to keep the first dimension as 1 to allow broadcasting
         if (targetShape.rank() == 2) {
-- 
2.43.0


From 72ef1238ea7221345131ee7c618eb247ba3abc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:02 +0000
Subject: [PATCH 05/50] fix: batch normalization keeps running statistics per
 feature for rank-4 inputs

---
 smart_dnn/Regularisation/BatchNormalizationLayer.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
index 0b865d2..081ce09 100644
--- a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
+++ b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
@@ -25,6 +25,10 @@ public:
             throw std::runtime_error("BatchNormalizationLayer: input tensor must have rank 2 or 4");
         }
 
+        if (shape[1] != numFeatures) {
+            throw std::invalid_argument("BatchNormalizationLayer: expected " + std::to_string(numFeatures) + " features, got " + std::to_string(shape[1]));
+        }
+
         std::vector<size_t> reductionAxes = (shape.rank() == 4) ? std::vector<size_t>{0, 2, 3} : std::vector<size_t>{0};
 
         if (this->trainingMode) {
@@ -40,8 +44,8 @@ public:
             normalizedInput = (input - reshapedMean) / (reshapedVariance + epsilon).sqrt();
             TensorType output = (*normalizedInput * reshapedGamma) + reshapedBeta;
 
-            runningMean = (momentum * runningMean) + ((1 - momentum) * (*batchMean));
-            runningVariance = (momentum * runningVariance) + ((1 - momentum) * (*batchVariance));
+            runningMean = (momentum * runningMean) + ((1 - momentum) * AdvancedTensorOperations<T>::reshape(*batchMean, runningMean.getShape()));
+            runningVariance = (momentum * runningVariance) + ((1 - momentum) * AdvancedTensorOperations<T>::reshape(*batchVariance, runningVariance.getShape()));
 
             return output;
         } else {
-- 
2.43.0


From eda16bd58922a2e0de3e88148226985043af7457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:27 +0000
Subject: [PATCH 06/50] fix: let allocation failures of tensor construction,
 copy and reshape reach the caller

---
 smart_dnn/Shape/Shape.hpp               | 9 +++------
 smart_dnn/Tensor/Tensor.hpp             | 6 +++---
 smart_dnn/Tensor/Tensor.impl.hpp        | 6 +++---
 smart_dnn/Tensor/TensorData.hpp         | 4 ++--
 smart_dnn/Tensor/TensorDataCPU.impl.hpp | 8 +++-----
 5 files changed, 14 insertions(+), 19 deletions(-)

diff --git a/smart_dnn/Shape/Shape.hpp b/smart_dnn/Shape/Shape.hpp
index b596c4e..4335d96 100644
--- a/smart_dnn/Shape/Shape.hpp
+++ b/smart_dnn/Shape/Shape.hpp
@@ -11,7 +11,7 @@
 struct Shape {
     ~Shape() = default;
 
-    Shape(const Shape& other) noexcept
+    Shape(const Shape& other)
         : _dimensions(other._dimensions), _size(other._size), _stride(other._stride) {}
 
     Shape(Shape&& other) noexcept
@@ -52,9 +52,7 @@ struct Shape {
 
     Shape& operator=(const Shape& other) {
         if (this != &other) {
-            _dimensions = other._dimensions;
-            _size = other._size;
-            _stride = other._stride;  
+            *this = Shape(other); // Allocate before changing anything
         }
         return *this;
     }
@@ -88,8 +86,7 @@ struct Shape {
                 + ". New dimensions: " + Shape(dims).toString());
         }
 
-        _dimensions = dims;
-        _stride = calculateStride();
+        *this = Shape(dims);
     }
 
     [[nodiscard]] const std::vector<int>& getDimensions() const { return _dimensions; }
diff --git a/smart_dnn/Tensor/Tensor.hpp b/smart_dnn/Tensor/Tensor.hpp
index 4fc6dc6..4107c70 100644
--- a/smart_dnn/Tensor/Tensor.hpp
+++ b/smart_dnn/Tensor/Tensor.hpp
@@ -13,9 +13,9 @@ namespace smart_dnn {
 template <typename T=float, typename DeviceType=CPUDevice>
 class Tensor {
 public:
-    Tensor(Shape dimensions) noexcept;
-    Tensor(Shape dimensions, T value) noexcept;
-    Tensor(const TensorData<T, DeviceType>& data) noexcept;
+    Tensor(Shape dimensions);
+    Tensor(Shape dimensions, T value);
+    Tensor(const TensorData<T, DeviceType>& data);
     Tensor(TensorData<T, DeviceType>&& data) noexcept;
     Tensor(Shape dimensions, const T* dataArray);
     Tensor(const Tensor& other);
diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 0011c37..2309a31 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -6,16 +6,16 @@ namespace smart_dnn {
 #define TEMPLATE_TENSOR template <typename T, typename DeviceType>
 
 TEMPLATE_TENSOR
-Tensor<T, DeviceType>::Tensor(Shape dimensions) noexcept : data_(dimensions) {}
+Tensor<T, DeviceType>::Tensor(Shape dimensions) : data_(dimensions) {}
 
 TEMPLATE_TENSOR
-Tensor<T, DeviceType>::Tensor(Shape dimensions, T value) noexcept : data_(dimensions, value) {}
+Tensor<T, DeviceType>::Tensor(Shape dimensions, T value) : data_(dimensions, value) {}
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>::Tensor(Shape dimensions, const T* dataArray) : data_(dimensions, dataArray) {}
 
 TEMPLATE_TENSOR
-Tensor<T, DeviceType>::Tensor(const TensorData<T, DeviceType>& data) noexcept : data_(data) {}
+Tensor<T, DeviceType>::Tensor(const TensorData<T, DeviceType>& data) : data_(data) {}
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>::Tensor(TensorData<T, DeviceType>&& data) noexcept : data_(std::move(data)) {}
diff --git a/smart_dnn/Tensor/TensorData.hpp b/smart_dnn/Tensor/TensorData.hpp
index 6c50519..f3bbf9e 100644
--- a/smart_dnn/Tensor/TensorData.hpp
+++ b/smart_dnn/Tensor/TensorData.hpp
@@ -19,8 +19,8 @@ class TensorData;
 template <typename T>
 class TensorData<T, CPUDevice> {
 public:
-    explicit TensorData(Shape dimensions) noexcept;
-    TensorData(Shape dimensions, T value) noexcept;
+    explicit TensorData(Shape dimensions);
+    TensorData(Shape dimensions, T value);
     TensorData(Shape dimensions, const T* data);
     TensorData(Shape dimensions, T* data) noexcept; // used for slicing.
     TensorData(const TensorData& other);
diff --git a/smart_dnn/Tensor/TensorDataCPU.impl.hpp b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
index f6c14e9..4f46a39 100644
--- a/smart_dnn/Tensor/TensorDataCPU.impl.hpp
+++ b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
@@ -8,13 +8,13 @@ namespace smart_dnn {
 #define TENSOR_DATA_CPU TensorData<T, CPUDevice>
 
 TEMPLATE_TENSOR
-TENSOR_DATA_CPU::TensorData(Shape dimensions) noexcept 
+TENSOR_DATA_CPU::TensorData(Shape dimensions) 
     : shape_(std::move(dimensions)), data_(std::make_unique<T[]>(shape_.size())) {
         std::fill(data_.get(), data_.get() + shape_.size(), T{});
     }
 
 TEMPLATE_TENSOR
-TENSOR_DATA_CPU::TensorData(Shape dimensions, T value) noexcept 
+TENSOR_DATA_CPU::TensorData(Shape dimensions, T value) 
     : shape_(dimensions), data_(std::make_unique<T[]>(dimensions.size())) {
     std::fill_n(data_.get(), shape_.size(), value);
 }
@@ -59,9 +59,7 @@ TENSOR_DATA_CPU::TensorData(Shape dimensions, std::vector<T>&& values)
 TEMPLATE_TENSOR
 TENSOR_DATA_CPU& TENSOR_DATA_CPU::operator=(const TENSOR_DATA_CPU& other) {
     if (this != &other) {
-        shape_ = other.shape_;
-        data_.reset(new T[shape_.size()]);
-        std::copy_n(other.data_.get(), shape_.size(), data_.get());
+        *this = TensorData(other); // Allocate before changing anything
     }
     return *this;
 }
-- 
2.43.0


From 1b54633c693ec131f41158e7b70d50d8c5611274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:17 +0000
Subject: [PATCH 07/50] fix: moved-from tensors stay valid, and failing to make
 them so is reported

---
 smart_dnn/Tensor/Tensor.hpp      |  4 ++--
 smart_dnn/Tensor/Tensor.impl.hpp | 12 ++++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/smart_dnn/Tensor/Tensor.hpp b/smart_dnn/Tensor/Tensor.hpp
index 4107c70..fc7b333 100644
--- a/smart_dnn/Tensor/Tensor.hpp
+++ b/smart_dnn/Tensor/Tensor.hpp
@@ -19,7 +19,7 @@ public:
     Tensor(TensorData<T, DeviceType>&& data) noexcept;
     Tensor(Shape dimensions, const T* dataArray);
     Tensor(const Tensor& other);
-    Tensor(Tensor&& other) noexcept;
+    Tensor(Tensor&& other);
     Tensor(Shape dimensions, std::initializer_list<T> values);
     Tensor(Shape dimensions, const std::vector<T>& values);
     Tensor(Shape dimensions, std::vector<T>&& values);
@@ -27,7 +27,7 @@ public:
     ~Tensor() = default;
 
     Tensor& operator=(const Tensor& other);
-    Tensor& operator=(Tensor&& other) noexcept = default;
+    Tensor& operator=(Tensor&& other) noexcept;
 
     Tensor& operator+=(const Tensor& other);
     Tensor& operator-=(const Tensor& other);
diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 2309a31..c20beb1 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -24,8 +24,8 @@ TEMPLATE_TENSOR
 Tensor<T, DeviceType>::Tensor(const Tensor<T, DeviceType>& other) : data_(other.data_) {}
 
 TEMPLATE_TENSOR
-Tensor<T, DeviceType>::Tensor(Tensor<T, DeviceType>&& other) noexcept : data_(std::move(other.data_)) {
-    other.data_ = TensorData<T, DeviceType>(Shape({1})); // We should not have an empty tensor
+Tensor<T, DeviceType>::Tensor(Tensor<T, DeviceType>&& other) : data_(Shape({1})) {
+    std::swap(data_, other.data_); // We should not have an empty tensor
 }
 
 TEMPLATE_TENSOR
@@ -45,6 +45,14 @@ Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator=(const Tensor<T, DeviceTy
     return *this;
 }
 
+TEMPLATE_TENSOR
+Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator=(Tensor<T, DeviceType>&& other) noexcept {
+    if (this != &other) {
+        std::swap(data_, other.data_); // We should not have an empty tensor
+    }
+    return *this;
+}
+
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator+=(const Tensor<T, DeviceType>& other) {
     TensorOperations<T, DeviceType>::addInPlace(data_, other.data_);
-- 
2.43.0


From 845d1bb147743e08ce1ec5578b073c0bb4b49b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:03 +0000
Subject: [PATCH 08/50] fix: Tensor::slice selects along the requested
 dimension and checks its arguments

---
 smart_dnn/Tensor/Tensor.impl.hpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index c20beb1..ac7f1c1 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -294,15 +294,26 @@ void Tensor<T, DeviceType>::reshape(const std::initializer_list<int>& dims) {
 
 template <typename T, typename DeviceType>
 Tensor<T, DeviceType> Tensor<T, DeviceType>::slice(int dim, int index) const {
-    Shape newShape = this->data_.shape();
-    std::vector<int> shape = newShape.getDimensions();
-    const std::vector<size_t> strides = this->data_.stride();
-
-    int offset = index * strides[dim];
+    const Shape& fullShape = this->data_.shape();
+    if (dim < 0 || static_cast<size_t>(dim) >= fullShape.rank()) {
+        throw std::out_of_range("Invalid dimension for slice: " + std::to_string(dim));
+    }
+    if (index < 0 || index >= fullShape[dim]) {
+        throw std::out_of_range("Index out of bounds for slice: " + std::to_string(index));
+    }
 
+    std::vector<int> shape = fullShape.getDimensions();
     shape.erase(shape.begin() + dim);
 
-    TensorData<T, DeviceType> slicedData(Shape(shape), this->data_.data() + offset);
+    TensorData<T, DeviceType> slicedData{Shape(shape)};
+
+    // Copy one run of contiguous elements for each index combination before dim
+    const size_t runLength = fullShape.getStride()[dim];
+    const size_t runDistance = runLength * fullShape[dim];
+    const T* source = this->data_.data() + index * runLength;
+    for (T* target = slicedData.begin(); target != slicedData.end(); target += runLength, source += runDistance) {
+        std::copy_n(source, runLength, target);
+    }
 
     return Tensor<T, DeviceType>(std::move(slicedData));
 }
-- 
2.43.0


From 1bfad018381af0268367a32c25ce807748d08b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:10 +0000
Subject: [PATCH 09/50] fix: SliceView honours its end bound and rejects
 invalid steps and empty selections

---
 smart_dnn/Tensor/SliceView.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/smart_dnn/Tensor/SliceView.hpp b/smart_dnn/Tensor/SliceView.hpp
index 555ee6b..452f97c 100644
--- a/smart_dnn/Tensor/SliceView.hpp
+++ b/smart_dnn/Tensor/SliceView.hpp
@@ -16,12 +16,13 @@ private:
     const TensorData<T, DeviceType>& original_;
     std::optional<Shape> sliced_shape_;
     std::vector<int> start_indices_;
+    std::vector<int> end_indices_;
     std::vector<int> step_sizes_;
 
     void calculateSlicedShape() {
         std::vector<int> new_dims;
         for (size_t i = 0; i < original_.shape().rank(); ++i) {
-            int dim_size = (original_.shape()[i] - start_indices_[i] + step_sizes_[i] - 1) / step_sizes_[i];
+            int dim_size = (end_indices_[i] - start_indices_[i] - 1) / step_sizes_[i] + 1;
             new_dims.push_back(dim_size);
         }
         sliced_shape_ = Shape(new_dims);
@@ -56,10 +57,17 @@ public:
             if (end < 0) end += tensor.shape()[i];
             if (end > tensor.shape()[i]) end = tensor.shape()[i];
 
-            start = std::max(0, std::min(start, tensor.shape()[i] - 1));
-            end = std::max(start, std::min(end, tensor.shape()[i]));
+            start = std::max(0, start);
+
+            if (step_sizes_[i] <= 0) {
+                throw std::invalid_argument("Slice steps must be positive");
+            }
+            if (end <= start) {
+                throw std::invalid_argument("Slice selects no elements in dimension " + std::to_string(i));
+            }
 
             start_indices_.push_back(start);
+            end_indices_.push_back(end);
         }
 
         calculateSlicedShape();
-- 
2.43.0


From fda939e2e8f3de0c4b6fd7b33824c6c821c2ed1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:17 +0000
Subject: [PATCH 10/50] fix: BroadcastView rejects a tensor of higher rank than
 its target shape

---
 smart_dnn/Tensor/BroadcastView.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smart_dnn/Tensor/BroadcastView.hpp b/smart_dnn/Tensor/BroadcastView.hpp
index ec2590b..5e787e3 100644
--- a/smart_dnn/Tensor/BroadcastView.hpp
+++ b/smart_dnn/Tensor/BroadcastView.hpp
@@ -39,6 +39,12 @@ private:
             --broadcast_dim;
             --orig_dim;
         }
+
+        for (; orig_dim >= 0; --orig_dim) {
+            if (orig_shape[orig_dim] != 1) {
+                throw std::runtime_error("Cannot broadcast shape " + orig_shape.toString() + " to the lower-rank shape " + broadcasted_shape_.toString());
+            }
+        }
     }
 
     int mapIndex(const std::vector<int>& indices) const {
-- 
2.43.0


From 392d181919a7820ca1364119e0edbb1c0a249579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:49 +0000
Subject: [PATCH 11/50] fix: reductions over all axes by list work, and
 mismatching axes and means are rejected

---
 smart_dnn/Tensor/AdvancedTensorOperations.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/smart_dnn/Tensor/AdvancedTensorOperations.hpp b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
index 24564c6..aba4d54 100644
--- a/smart_dnn/Tensor/AdvancedTensorOperations.hpp
+++ b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
@@ -88,6 +88,10 @@ class AdvancedTensorOperations<T, CPUDevice> {
             }
         }
 
+        if (finalShape.empty()) {
+            finalShape.push_back(1); // All axes were summed
+        }
+
         result.reshape(Shape(finalShape));
 
         return result;
@@ -100,6 +104,12 @@ class AdvancedTensorOperations<T, CPUDevice> {
     }
 
     static Tensor<T> mean(const Tensor<T>& tensor, const std::vector<size_t>& axes) {
+        for (size_t axis : axes) {
+            if (axis >= tensor.getShape().rank()) {
+                throw std::invalid_argument("Invalid axis for mean calculation");
+            }
+        }
+
         if (axes.empty() || axes.size() == tensor.getShape().rank()) {
             return mean(tensor);
         }
@@ -171,6 +181,10 @@ class AdvancedTensorOperations<T, CPUDevice> {
 
         Tensor<T> summedSquaredDiff = sum(squaredDiff, axes);
 
+        if (summedSquaredDiff.getShape().size() != meanShape.size()) {
+            throw std::invalid_argument("Mean of shape " + meanShape.toString() + " does not match the axes of the variance");
+        }
+
         // Ensure the result has the same shape as the mean tensor
         Tensor<T> result(meanShape);
         for (size_t i = 0; i < result.getData().size(); ++i) {
-- 
2.43.0


From 0c56e8464d9f86a7550a3aea8f4e2dbc7664d3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:54 +0000
Subject: [PATCH 12/50] fix: Sigmoid computes in the element type

---
 smart_dnn/Activations/Sigmoid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Activations/Sigmoid.hpp b/smart_dnn/Activations/Sigmoid.hpp
index 0c7665a..57bf66f 100644
--- a/smart_dnn/Activations/Sigmoid.hpp
+++ b/smart_dnn/Activations/Sigmoid.hpp
@@ -20,7 +20,7 @@ class Sigmoid : public Activation<T> {
     using TensorType = Tensor<T>;
 public:
     TensorType forward(const TensorType& input) const override {
-        return AdvancedTensorOperations<T>::apply(input, [](float x) { return T(1) / (T(1) + std::exp(-x)); });
+        return AdvancedTensorOperations<T>::apply(input, [](T x) { return T(1) / (T(1) + std::exp(-x)); });
     }
 
     TensorType backward(const TensorType& input, const TensorType& gradOutput) const override {
-- 
2.43.0


From 6cee6ccb828f981ab669f711f3af104e480b6ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:59 +0000
Subject: [PATCH 13/50] fix: Tanh does not overflow to NaN for large inputs

---
 smart_dnn/Activations/Tanh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Activations/Tanh.hpp b/smart_dnn/Activations/Tanh.hpp
index 531f70c..5ce1bbb 100644
--- a/smart_dnn/Activations/Tanh.hpp
+++ b/smart_dnn/Activations/Tanh.hpp
@@ -20,7 +20,7 @@ template <typename T>
 class Tanh : public Activation<T> {
 public:
     Tensor<T> forward(const Tensor<T>& input) const override {
-        return AdvancedTensorOperations<T>::apply(input, [](T x) { return (std::exp(x * T(2)) - T(1)) / (std::exp(x * T(2)) + T(1)); });
+        return AdvancedTensorOperations<T>::apply(input, [](T x) { return std::tanh(x); });
     }
 
     Tensor<T> backward(const Tensor<T>& input, const Tensor<T>& gradOutput) const override {
-- 
2.43.0


From 425ff3c307a538eef69e16a54b9472c63c629569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:32 +0000
Subject: [PATCH 14/50] fix: Softmax backward rejects a gradient of another
 shape instead of reading out of bounds

---
 smart_dnn/Activations/Softmax.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smart_dnn/Activations/Softmax.hpp b/smart_dnn/Activations/Softmax.hpp
index 1990016..5719ad7 100644
--- a/smart_dnn/Activations/Softmax.hpp
+++ b/smart_dnn/Activations/Softmax.hpp
@@ -60,6 +60,9 @@ public:
         if (input.getShape().rank() < 2 || gradOutput.getShape().rank() < 2) {
             throw std::invalid_argument("Input and gradOutput must have at least 2 dimensions (batch_size, features)");
         }
+        if (input.getShape() != gradOutput.getShape()) {
+            throw std::invalid_argument("Input and gradOutput must have the same shape");
+        }
         
         Tensor<T> forwardOutput = forward(input);
         Tensor<T> gradInput(input.getShape());
-- 
2.43.0


From 0003c3894e4d0edf5eea839e822845616293c935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:36 +0000
Subject: [PATCH 15/50] fix: ActivationLayer rejects backward before forward

---
 smart_dnn/Layers/ActivationLayer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smart_dnn/Layers/ActivationLayer.hpp b/smart_dnn/Layers/ActivationLayer.hpp
index 665c0da..473acab 100644
--- a/smart_dnn/Layers/ActivationLayer.hpp
+++ b/smart_dnn/Layers/ActivationLayer.hpp
@@ -22,6 +22,9 @@ public:
     }
 
     TensorType backward(const TensorType& gradOutput) override {
+        if (!input) {
+            throw std::runtime_error("Input tensor is not initialized!");
+        }
         return activation->backward((*input), gradOutput);
     }
 
-- 
2.43.0


From 75c0f4ee01ae094f62e5ecb5c32220c807c747bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:40 +0000
Subject: [PATCH 16/50] fix: FlattenLayer remembers the shape of rank-2 inputs
 and rejects backward before forward

---
 smart_dnn/Layers/FlattenLayer.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Layers/FlattenLayer.hpp b/smart_dnn/Layers/FlattenLayer.hpp
index 20e4de1..1eb74f4 100644
--- a/smart_dnn/Layers/FlattenLayer.hpp
+++ b/smart_dnn/Layers/FlattenLayer.hpp
@@ -27,11 +27,12 @@ public:
             throw std::invalid_argument("Input tensor must have at least 2 dimensions");
         }
 
+        this->originalShape = input.getShape();
+
         if (input.getShape().rank() == 2) {
             return input;
         }
 
-        this->originalShape = input.getShape();
         int batchSize = (*originalShape)[0];
         int flattenedSize = (*originalShape).size() / batchSize;
         
@@ -48,6 +49,9 @@ public:
     
     */
     TensorType backward(const TensorType& gradOutput) override {
+        if (!originalShape) {
+            throw std::runtime_error("Forward pass must be called before backward.");
+        }
         return AdvancedTensorOperations<T>::reshape(gradOutput, (*originalShape));
     }
 
-- 
2.43.0


From e29bc823a7816cb3a9d64aadc748b7765fe05a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:55 +0000
Subject: [PATCH 17/50] fix: Dropout drops with the configured probability for
 every tensor size

---
 smart_dnn/Regularisation/DropoutLayer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Regularisation/DropoutLayer.hpp b/smart_dnn/Regularisation/DropoutLayer.hpp
index 584645a..4b55438 100644
--- a/smart_dnn/Regularisation/DropoutLayer.hpp
+++ b/smart_dnn/Regularisation/DropoutLayer.hpp
@@ -14,8 +14,8 @@ public:
 
     TensorType forward(const TensorType& input) override {
         if (this->trainingMode) {
-            mask = TensorType::rand(input.getShape());
-            mask = (*mask).apply([this](T x) { return x > dropoutRate ? T(1) : T(0); });
+            mask = TensorType::zeros(input.getShape());
+            (*mask).apply([this](T) { return T(RandomEngine::getRand()) >= dropoutRate ? T(1) : T(0); });
             return input * (*mask) * (T(1) / (T(1) - dropoutRate));
         } else {
             return input; // No dropout during inference
-- 
2.43.0


From 130b87b138d9bb9a5e494a7104abd6feee5fbc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:15 +0000
Subject: [PATCH 18/50] fix: Dropout backward applies the factors of the
 forward pass, and only in training mode

---
 smart_dnn/Regularisation/DropoutLayer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/smart_dnn/Regularisation/DropoutLayer.hpp b/smart_dnn/Regularisation/DropoutLayer.hpp
index 4b55438..a80c1b8 100644
--- a/smart_dnn/Regularisation/DropoutLayer.hpp
+++ b/smart_dnn/Regularisation/DropoutLayer.hpp
@@ -23,11 +23,11 @@ public:
     }
 
     TensorType backward(const TensorType& gradOutput) override {
-        if (gradOutput.getShape() != (*mask).getShape()) {
-            throw std::invalid_argument("Mask not initialised or has wrong shape in Dropout Layer.");
-        }
         if (this->trainingMode) {
-            return gradOutput * (*mask);
+            if (!mask || gradOutput.getShape() != (*mask).getShape()) {
+                throw std::invalid_argument("Mask not initialised or has wrong shape in Dropout Layer.");
+            }
+            return gradOutput * (*mask) * (T(1) / (T(1) - dropoutRate));
         }
         return gradOutput;
     }
-- 
2.43.0


From 288d90d0ae8140e13e9025758cbab7a3cd67d0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:23 +0000
Subject: [PATCH 19/50] fix: fully connected layer returns the input gradient
 in the input's shape

---
 smart_dnn/Layers/FullyConnectedLayer.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Layers/FullyConnectedLayer.hpp b/smart_dnn/Layers/FullyConnectedLayer.hpp
index 5ea5fe1..d910c40 100644
--- a/smart_dnn/Layers/FullyConnectedLayer.hpp
+++ b/smart_dnn/Layers/FullyConnectedLayer.hpp
@@ -50,7 +50,7 @@ public:
     -------------------------------
 
     Input: Gradient tensor shape (batch_size, output_size)
-    Output: Gradient tensor shape (batch_size, input_size)
+    Output: Gradient tensor, same shape as the input
 
     */
     TensorType backward(const TensorType& gradOutput) override {
@@ -84,6 +84,10 @@ public:
         TensorType weightsTransposed = AdvancedTensorOperations<T>::transpose(*weights, 0, 1); // Shape: (output_size, input_size)
         TensorType gradInput = AdvancedTensorOperations<T>::matmul(reshapedGradOutput, weightsTransposed); // Shape: (batch_size, input_size)
 
+        if (input->getShape().rank() == 1) {
+            gradInput = AdvancedTensorOperations<T>::reshape(gradInput, input->getShape());
+        }
+
         return gradInput;
     }
 
-- 
2.43.0


From 6583a07cd18906e81872c1d76cbaf2e82cf3c145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:23 +0000
Subject: [PATCH 20/50] fix: Conv2DLayer honours all channels and samples,
 stride, padding and dilation

---
 smart_dnn/Layers/Conv2DLayer.hpp | 87 ++++++++++++++++++--------------
 1 file changed, 50 insertions(+), 37 deletions(-)

diff --git a/smart_dnn/Layers/Conv2DLayer.hpp b/smart_dnn/Layers/Conv2DLayer.hpp
index 7ffb815..3f86146 100644
--- a/smart_dnn/Layers/Conv2DLayer.hpp
+++ b/smart_dnn/Layers/Conv2DLayer.hpp
@@ -22,6 +22,10 @@ public:
     Conv2DLayer(int inputChannels, int outputChannels, int kernelHeight, int kernelWidth, int stride = 1, int padding = 0, int dilation = 1) 
         : inputChannels(inputChannels), outputChannels(outputChannels), kernelHeight(kernelHeight), kernelWidth(kernelWidth), 
           stride(stride), padding(padding), dilation(dilation) {
+
+        if (stride < 1 || padding < 0 || dilation < 1) {
+            throw std::invalid_argument("Conv2DLayer: stride and dilation must be positive and padding must not be negative");
+        }
         
         initializeWeights();
     }
@@ -36,15 +40,15 @@ public:
         assert(input.getShape().rank() == 4 && "Input must be 4D (batch, channels, height, width)");
         assert(input.getShape()[1] == inputChannels && "Input channels must match layer's input channels");
 
-        // Store the input for use in backward pass
-        this->input = input;
-
         int batchSize = input.getShape()[0];
         int inputHeight = input.getShape()[2];
         int inputWidth = input.getShape()[3];
         
-        int outputHeight = inputHeight - kernelHeight + 1;
-        int outputWidth = inputWidth - kernelWidth + 1;
+        int outputHeight = outputSize(inputHeight, kernelHeight);
+        int outputWidth = outputSize(inputWidth, kernelWidth);
+
+        // Store the input for use in backward pass
+        this->input = input;
 
         TensorType output({batchSize, outputChannels, outputHeight, outputWidth});
 
@@ -56,13 +60,17 @@ public:
             for (int oc = 0; oc < outputChannels; ++oc) {
                 for (int oh = 0; oh < outputHeight; ++oh) {
                     for (int ow = 0; ow < outputWidth; ++ow) {
-                        float sum = 0.0f;
-                        for (int kh = 0; kh < kernelHeight; ++kh) {
-                            for (int kw = 0; kw < kernelWidth; ++kw) {
-                                int ih = oh + kh;
-                                int iw = ow + kw;
-                                sum += inputData.at({b, 0, ih, iw}) * 
-                                    weightData.at({oc, 0, kh, kw});
+                        T sum = T(0);
+                        for (int ic = 0; ic < inputChannels; ++ic) {
+                            for (int kh = 0; kh < kernelHeight; ++kh) {
+                                int ih = oh * stride + kh * dilation - padding;
+                                if (ih < 0 || ih >= inputHeight) continue;
+                                for (int kw = 0; kw < kernelWidth; ++kw) {
+                                    int iw = ow * stride + kw * dilation - padding;
+                                    if (iw < 0 || iw >= inputWidth) continue;
+                                    sum += inputData.at({b, ic, ih, iw}) * 
+                                        weightData.at({oc, ic, kh, kw});
+                                }
                             }
                         }
                         sum += biasData.at({oc, 0});
@@ -93,39 +101,36 @@ public:
         Shape weightsShape = weightsTensor.getShape();
         Shape gradOutputShape = gradOutput.getShape();
 
+        if (gradOutputShape != Shape({inputShape[0], outputChannels, 
+                                      outputSize(inputShape[2], kernelHeight), outputSize(inputShape[3], kernelWidth)})) {
+            throw std::invalid_argument("Conv2DLayer: gradient shape does not match the output of the last forward pass");
+        }
+
         // Initialize gradients
         this->weightGradients = TensorType::zeros(weightsShape);
         this->biasGradients = TensorType::zeros((*biases).getShape());
 
-        // Compute bias gradients
-        for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
-            for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
-                biasGradients->getData()[0] += gradOutput.at({0, 0, oh, ow});
-            }
-        }
+        TensorType gradInput(inputShape, T(0));
 
-        // Compute weight gradients
-        for (int kh = 0; kh < kernelHeight; ++kh) {
-            for (int kw = 0; kw < kernelWidth; ++kw) {
-                float sum = 0.0f;
+        for (int b = 0; b < inputShape[0]; ++b) {
+            for (int oc = 0; oc < outputChannels; ++oc) {
                 for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
                     for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
-                        sum += inputTensor.at({0, 0, oh+kh, ow+kw}) * gradOutput.at({0, 0, oh, ow});
-                    }
-                }
-                weightGradients->at({0, 0, kh, kw}) = sum;
-            }
-        }
+                        const T grad = gradOutput.at({b, oc, oh, ow});
+                        biasGradients->at({oc, 0}) += grad;
 
-        // Compute input gradients
-        TensorType gradInput(inputShape, 0.0f);
-        for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
-            for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
-                for (int kh = 0; kh < kernelHeight; ++kh) {
-                    for (int kw = 0; kw < kernelWidth; ++kw) {
-                        int ih = oh + kh;
-                        int iw = ow + kw;
-                        gradInput.at({0, 0, ih, iw}) += weightsTensor.at({0, 0, kh, kw}) * gradOutput.at({0, 0, oh, ow});
+                        for (int ic = 0; ic < inputChannels; ++ic) {
+                            for (int kh = 0; kh < kernelHeight; ++kh) {
+                                int ih = oh * stride + kh * dilation - padding;
+                                if (ih < 0 || ih >= inputShape[2]) continue;
+                                for (int kw = 0; kw < kernelWidth; ++kw) {
+                                    int iw = ow * stride + kw * dilation - padding;
+                                    if (iw < 0 || iw >= inputShape[3]) continue;
+                                    weightGradients->at({oc, ic, kh, kw}) += inputTensor.at({b, ic, ih, iw}) * grad;
+                                    gradInput.at({b, ic, ih, iw}) += weightsTensor.at({oc, ic, kh, kw}) * grad;
+                                }
+                            }
+                        }
                     }
                 }
             }
@@ -188,6 +193,14 @@ private:
     int padding;
     int dilation;
 
+    int outputSize(int inputSize, int kernelSize) const {
+        int lastStart = inputSize + 2 * padding - dilation * (kernelSize - 1) - 1;
+        if (lastStart < 0) {
+            throw std::invalid_argument("Conv2DLayer: kernel does not fit the padded input");
+        }
+        return lastStart / stride + 1;
+    }
+
     void initializeWeights() {
         weights = TensorType::rand({outputChannels, inputChannels, kernelHeight, kernelWidth});
         biases = TensorType::zeros({outputChannels, 1});
-- 
2.43.0


From 049b9d315268bc29e377a17814f0de83e0c2d9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:58 +0000
Subject: [PATCH 21/50] fix: asking a layer for gradients it does not have yet
 throws

---
 smart_dnn/Layers/Conv2DLayer.hpp         | 4 ++--
 smart_dnn/Layers/FullyConnectedLayer.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/smart_dnn/Layers/Conv2DLayer.hpp b/smart_dnn/Layers/Conv2DLayer.hpp
index 3f86146..bf0c5fe 100644
--- a/smart_dnn/Layers/Conv2DLayer.hpp
+++ b/smart_dnn/Layers/Conv2DLayer.hpp
@@ -163,11 +163,11 @@ public:
     }
 
     TensorType getWeightGradients() const {
-        return *weightGradients;
+        return weightGradients.value();
     }
 
     TensorType getBiasGradients() const {
-        return *biasGradients;
+        return biasGradients.value();
     }
 
     void setWeights(const TensorType& newWeights) {
diff --git a/smart_dnn/Layers/FullyConnectedLayer.hpp b/smart_dnn/Layers/FullyConnectedLayer.hpp
index d910c40..1cbb36b 100644
--- a/smart_dnn/Layers/FullyConnectedLayer.hpp
+++ b/smart_dnn/Layers/FullyConnectedLayer.hpp
@@ -115,11 +115,11 @@ public:
     }
 
     TensorType getWeightGradients() const {
-        return *weightGradients;
+        return weightGradients.value();
     }
 
     TensorType getBiasGradients() const {
-        return *biasGradients;
+        return biasGradients.value();
     }
 
     void setWeights(const TensorType& newWeights) {
-- 
2.43.0


From 6c798322d2c13adc4445f2b8b4b532bce24e4851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:03 +0000
Subject: [PATCH 22/50] fix: MaxPooling2DLayer honours padding and rejects
 invalid geometry

---
 .../Regularisation/MaxPooling2DLayer.hpp      | 32 +++++++++++++++----
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
index 63219cc..4cc7092 100644
--- a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
+++ b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
@@ -14,23 +14,27 @@ class MaxPooling2DLayer : public Layer<T> {
 public:
     MaxPooling2DLayer(int poolSize) : MaxPooling2DLayer(poolSize, poolSize, 0) {}
     MaxPooling2DLayer(int poolSize, int stride) : MaxPooling2DLayer(poolSize, stride, 0) {}
-    MaxPooling2DLayer(int poolSize, int stride, int padding) : poolSize(poolSize), stride(stride), padding(padding) {}
+    MaxPooling2DLayer(int poolSize, int stride, int padding) : poolSize(poolSize), stride(stride), padding(padding) {
+        if (poolSize < 1 || stride < 1 || padding < 0 || padding >= poolSize) {
+            throw std::invalid_argument("MaxPooling2DLayer: pool size and stride must be positive and padding in [0, pool size)");
+        }
+    }
 
     TensorType forward(const TensorType& input) override {
         if (input.getShape().rank() != 4) {
             throw std::runtime_error("MaxPooling2DLayer: input tensor must have rank 4");
         }
 
-        this->input = input;
-
         int batchSize = input.getShape()[0];
         int inputChannels = input.getShape()[1];  // Number of channels should remain unchanged
         int inputHeight = input.getShape()[2];
         int inputWidth = input.getShape()[3];
 
         // Calculate output dimensions based on stride and pooling size
-        int outputHeight = (inputHeight - poolSize) / stride + 1;
-        int outputWidth = (inputWidth - poolSize) / stride + 1;
+        int outputHeight = outputSize(inputHeight);
+        int outputWidth = outputSize(inputWidth);
+
+        this->input = input;
 
         // Output shape retains the number of channels
         TensorType output({batchSize, inputChannels, outputHeight, outputWidth});
@@ -58,8 +62,12 @@ public:
 
         int batchSize = tensorValue.getShape()[0];
         int inputChannels = tensorValue.getShape()[1];
-        int outputHeight = gradOutput.getShape()[2];
-        int outputWidth = gradOutput.getShape()[3];
+        int outputHeight = outputSize(tensorValue.getShape()[2]);
+        int outputWidth = outputSize(tensorValue.getShape()[3]);
+
+        if (gradOutput.getShape() != Shape({batchSize, inputChannels, outputHeight, outputWidth})) {
+            throw std::invalid_argument("MaxPooling2DLayer: gradient shape does not match the output of the last forward pass");
+        }
 
         for (int n = 0; n < batchSize; ++n) {
             for (int ic = 0; ic < inputChannels; ++ic) {
@@ -80,6 +88,14 @@ private:
     int padding;
     std::optional<TensorType> input;
 
+    int outputSize(int inputSize) const {
+        int lastStart = inputSize + 2 * padding - poolSize;
+        if (lastStart < 0) {
+            throw std::invalid_argument("MaxPooling2DLayer: input is smaller than the pooling window");
+        }
+        return lastStart / stride + 1;
+    }
+
     std::tuple<T, int, int> findMaxInPoolWindow(const TensorType& tensor, int n, int ic, int oh, int ow) {
         T maxVal = -std::numeric_limits<T>::infinity();
         int maxIh = 0, maxIw = 0;
@@ -88,10 +104,12 @@ private:
 
         for (int ph = 0; ph < poolSize; ++ph) {
             int ih = ihStart + ph;
+            if (ih < 0) continue;
             if (ih >= tensor.getShape()[2]) break; 
 
             for (int pw = 0; pw < poolSize; ++pw) {
                 int iw = iwStart + pw;
+                if (iw < 0) continue;
                 if (iw >= tensor.getShape()[3]) break;
 
                 T val = tensor.at({n, ic, ih, iw});
-- 
2.43.0


From b9be3695c61f9d2ddde96055d7ab621eb9cee580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:06 +0000
Subject: [PATCH 23/50] fix: cross entropy rejects predictions that are not of
 rank 2

---
 smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp b/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
index 3e4531d..26cb2da 100644
--- a/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
+++ b/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
@@ -26,6 +26,9 @@ public:
         if (prediction.getShape() != target.getShape()) {
             throw std::invalid_argument("Prediction and target shapes must match");
         }
+        if (prediction.getShape().rank() != 2) {
+            throw std::invalid_argument("Prediction must have shape (batchSize, numClasses)");
+        }
 
         int batchSize = prediction.getShape()[0];
         int numClasses = prediction.getShape()[1];
@@ -52,6 +55,9 @@ public:
         if (prediction.getShape() != target.getShape()) {
             throw std::invalid_argument("Prediction and target shapes must match");
         }
+        if (prediction.getShape().rank() != 2) {
+            throw std::invalid_argument("Prediction must have shape (batchSize, numClasses)");
+        }
 
         int batchSize = prediction.getShape()[0];
         int numClasses = prediction.getShape()[1];
-- 
2.43.0


From 13a48b440b897963c268975c09aba242a21f9180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:11 +0000
Subject: [PATCH 24/50] fix: cross entropy gradient is the derivative with
 respect to the prediction

---
 smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp b/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
index 26cb2da..31908f1 100644
--- a/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
+++ b/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
@@ -68,7 +68,7 @@ public:
         for (int i = 0; i < batchSize; ++i) {
             for (int j = 0; j < numClasses; ++j) {
                 T predValue = std::min(std::max(prediction.at({i, j}), epsilon), T(1.0) - epsilon);
-                grad.at({i, j}) = (predValue - target.at({i, j}));
+                grad.at({i, j}) = -target.at({i, j}) / predValue;
             }
         }
 
-- 
2.43.0


From a6db8b3da9b6495e0e2d0d24aa7e3b5899bfd276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:00 +0000
Subject: [PATCH 25/50] fix: centered RMSProp does not take the square root of
 a variance rounded below zero

---
 smart_dnn/Optimizers/RMSPropOptimizer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Optimizers/RMSPropOptimizer.hpp b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
index a4c0397..fb6ab1d 100644
--- a/smart_dnn/Optimizers/RMSPropOptimizer.hpp
+++ b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
@@ -99,7 +99,8 @@ private:
                 meanGradsData[j] = alpha * meanGradsData[j] + (T(1) - alpha) * grad;
                 
                 // Centered RMSProp: denominator = sqrt(sq_avg - mean_avg^2 + epsilon)
-                T variance = sqGradsData[j] - meanGradsData[j] * meanGradsData[j];
+                // (the difference is not negative, but its rounded value may be)
+                T variance = std::max(T(0), sqGradsData[j] - meanGradsData[j] * meanGradsData[j]);
                 denom = std::sqrt(variance + epsilon);
             } else {
                 // Standard RMSProp: denominator = sqrt(sq_avg + epsilon)
-- 
2.43.0


From 4bb987ca9543f1b01276323804f24ca246b8c8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:09 +0000
Subject: [PATCH 26/50] fix: Adam corrects the bias of its moment estimates
 once, not twice

---
 smart_dnn/Optimizers/AdamOptimizer.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index 0d43303..250360b 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -76,10 +76,6 @@ private:
         size_t key = reinterpret_cast<size_t>(&weight);
         initializeMomentEstimates(key, weight.getShape());
 
-        T beta1Power = std::max(T(std::pow(beta1, iterations)), std::numeric_limits<T>::min());
-        T beta2Power = std::max(T(std::pow(beta2, iterations)), std::numeric_limits<T>::min());
-        T alphaT = learningRate * std::sqrt(T(1) - beta2Power) / (T(1) - beta1Power);
-
         size_t size = weight.getShape().size();
         T* weightData = weight.getData().data();
         const T* gradientData = gradient.getData().data();
@@ -88,7 +84,7 @@ private:
 
         #pragma omp parallel for if(size > 1000)
         for (size_t j = 0; j < size; ++j) {
-            updateParameter(weightData[j], gradientData[j], mData[j], vData[j], alphaT);
+            updateParameter(weightData[j], gradientData[j], mData[j], vData[j]);
         }
     }
 
@@ -99,7 +95,7 @@ private:
         }
     }
 
-    void updateParameter(T& weight, const T& gradient, T& mValue, T& vValue, T alphaT) {
+    void updateParameter(T& weight, const T& gradient, T& mValue, T& vValue) {
         // Average the gradient over the batch
         T averagedGradient = gradient / static_cast<T>(batchSize);
 
@@ -112,7 +108,7 @@ private:
         // Compute update
         T mHat = mValue / (T(1) - std::pow(beta1, iterations));
         T vHat = vValue / (T(1) - std::pow(beta2, iterations));
-        T update = alphaT * mHat / (std::sqrt(vHat) + epsilon);
+        T update = learningRate * mHat / (std::sqrt(vHat) + epsilon);
 
         // Apply L1 and L2 regularization
         if (l1Strength > T(0)) {
-- 
2.43.0


From c24ac32969cd09a5cca1e34dc3cde4010fb21e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:59 +0000
Subject: [PATCH 27/50] fix: Adam counts updates per tensor, so that every
 layer of a model gets the same correction

---
 smart_dnn/Optimizers/AdamOptimizer.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index 250360b..db0e0bc 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -42,10 +42,8 @@ public:
             throw std::invalid_argument("Weights and gradients size mismatch!");
         }
 
-        updateLearningRate(learningRateOverride);
-
         for (size_t i = 0; i < weights.size(); ++i) {
-            updateTensor(weights[i].get(), gradients[i].get());
+            updateTensor(weights[i].get(), gradients[i].get(), learningRateOverride);
         }
     }
 
@@ -62,9 +60,9 @@ private:
     int batchSize;
     std::unordered_map<size_t, Tensor<T>> m; // First moment estimate 
     std::unordered_map<size_t, Tensor<T>> v; // Second moment estimate
+    std::unordered_map<size_t, int> iterationCounts;
 
     void updateLearningRate(T learningRateOverride) {
-        iterations++;
         if (learningRateOverride <= T(0)) {
             learningRate = initialLearningRate * (decay > 0 ? (T(1) / (T(1) + decay * iterations)) : 1);
         } else {
@@ -72,10 +70,13 @@ private:
         }
     }
 
-    void updateTensor(Tensor<T>& weight, const Tensor<T>& gradient) {
+    void updateTensor(Tensor<T>& weight, const Tensor<T>& gradient, T learningRateOverride) {
         size_t key = reinterpret_cast<size_t>(&weight);
         initializeMomentEstimates(key, weight.getShape());
 
+        iterations = ++iterationCounts.at(key); // Number of updates of this tensor
+        updateLearningRate(learningRateOverride);
+
         size_t size = weight.getShape().size();
         T* weightData = weight.getData().data();
         const T* gradientData = gradient.getData().data();
@@ -90,6 +91,7 @@ private:
 
     void initializeMomentEstimates(size_t key, const Shape& shape) {
         if (m.find(key) == m.end()) {
+            iterationCounts.emplace(key, 0);
             m.emplace(key, Tensor<T>(shape, T(0)));
             v.emplace(key, Tensor<T>(shape, T(0)));
         }
-- 
2.43.0


From 53a2d09c0324f747c984c72290d1937db0bebbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:07 +0000
Subject: [PATCH 28/50] fix: optimizers reject gradients of another size than
 their weight

---
 smart_dnn/Optimizers/AdamOptimizer.hpp    | 6 ++++++
 smart_dnn/Optimizers/RMSPropOptimizer.hpp | 6 ++++++
 smart_dnn/Optimizers/SGDOptimizer.hpp     | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index db0e0bc..a0cc7c2 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -42,6 +42,12 @@ public:
             throw std::invalid_argument("Weights and gradients size mismatch!");
         }
 
+        for (size_t i = 0; i < weights.size(); ++i) {
+            if (weights[i].get().getShape().size() != gradients[i].get().getShape().size()) {
+                throw std::invalid_argument("Gradient size does not match its weight!");
+            }
+        }
+
         for (size_t i = 0; i < weights.size(); ++i) {
             updateTensor(weights[i].get(), gradients[i].get(), learningRateOverride);
         }
diff --git a/smart_dnn/Optimizers/RMSPropOptimizer.hpp b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
index fb6ab1d..ac8aefd 100644
--- a/smart_dnn/Optimizers/RMSPropOptimizer.hpp
+++ b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
@@ -37,6 +37,12 @@ public:
             throw std::invalid_argument("Weights and gradients size mismatch!");
         }
 
+        for (size_t i = 0; i < weights.size(); ++i) {
+            if (weights[i].get().getShape().size() != gradients[i].get().getShape().size()) {
+                throw std::invalid_argument("Gradient size does not match its weight!");
+            }
+        }
+
         T currentLR = (learningRateOverride > T(0)) ? learningRateOverride : learningRate;
 
         for (size_t i = 0; i < weights.size(); ++i) {
diff --git a/smart_dnn/Optimizers/SGDOptimizer.hpp b/smart_dnn/Optimizers/SGDOptimizer.hpp
index 79a6006..633bd28 100644
--- a/smart_dnn/Optimizers/SGDOptimizer.hpp
+++ b/smart_dnn/Optimizers/SGDOptimizer.hpp
@@ -35,6 +35,12 @@ public:
             throw std::invalid_argument("Weights and gradients size mismatch!");
         }
 
+        for (size_t i = 0; i < weights.size(); ++i) {
+            if (weights[i].get().getShape().size() != gradients[i].get().getShape().size()) {
+                throw std::invalid_argument("Gradient size does not match its weight!");
+            }
+        }
+
         T currentLR = (learningRateOverride > T(0)) ? learningRateOverride : learningRate;
 
         for (size_t i = 0; i < weights.size(); ++i) {
-- 
2.43.0


From 54b73bca05ba80db364a276a781282ad84b884ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:14 +0000
Subject: [PATCH 29/50] fix: Adam starts anew for a tensor whose size changed
 or whose state could not be allocated

---
 smart_dnn/Optimizers/AdamOptimizer.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index a0cc7c2..5a51fe0 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -96,10 +96,12 @@ private:
     }
 
     void initializeMomentEstimates(size_t key, const Shape& shape) {
-        if (m.find(key) == m.end()) {
-            iterationCounts.emplace(key, 0);
-            m.emplace(key, Tensor<T>(shape, T(0)));
-            v.emplace(key, Tensor<T>(shape, T(0)));
+        // v is set last, so it tells whether the state of this tensor is complete
+        auto existing = v.find(key);
+        if (existing == v.end() || existing->second.getShape().size() != shape.size()) {
+            iterationCounts[key] = 0;
+            m.insert_or_assign(key, Tensor<T>(shape, T(0)));
+            v.insert_or_assign(key, Tensor<T>(shape, T(0)));
         }
     }
 
-- 
2.43.0


From 630b7f188cb0211702d58202ffa410f022d8d6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:20 +0000
Subject: [PATCH 30/50] fix: SGD and RMSProp keep their state per tensor, not
 per data address

---
 smart_dnn/Optimizers/RMSPropOptimizer.hpp | 30 ++++++++++-------------
 smart_dnn/Optimizers/SGDOptimizer.hpp     | 18 ++++++++------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/smart_dnn/Optimizers/RMSPropOptimizer.hpp b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
index ac8aefd..50abde6 100644
--- a/smart_dnn/Optimizers/RMSPropOptimizer.hpp
+++ b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
@@ -57,35 +57,22 @@ private:
         T* weightMutableData = weight.getData().data();
         
         size_t size = weight.getShape().size();
-        auto weightsPtr = reinterpret_cast<uintptr_t>(weightData);
+        auto weightsPtr = reinterpret_cast<uintptr_t>(&weight);
         
         // Get or create squared gradients buffer
-        if (squaredGrads.find(weightsPtr) == squaredGrads.end()) {
-            squaredGrads[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
-        }
-        auto& sqGrads = *squaredGrads[weightsPtr];
+        auto& sqGrads = stateBuffer(squaredGrads, weightsPtr, weight.getShape());
         T* sqGradsData = sqGrads.getData().data();
         
         // For centered RMSProp, also track the mean of gradients
-        std::shared_ptr<Tensor<T>> meanGradsPtr = nullptr;
         T* meanGradsData = nullptr;
         if (centered) {
-            if (meanGrads.find(weightsPtr) == meanGrads.end()) {
-                meanGrads[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
-            }
-            meanGradsPtr = meanGrads[weightsPtr];
-            meanGradsData = meanGradsPtr->getData().data();
+            meanGradsData = stateBuffer(meanGrads, weightsPtr, weight.getShape()).getData().data();
         }
         
         // For momentum, track velocity buffer
-        std::shared_ptr<Tensor<T>> velocityPtr = nullptr;
         T* velocityData = nullptr;
         if (momentum > T(0)) {
-            if (velocityBuffers.find(weightsPtr) == velocityBuffers.end()) {
-                velocityBuffers[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
-            }
-            velocityPtr = velocityBuffers[weightsPtr];
-            velocityData = velocityPtr->getData().data();
+            velocityData = stateBuffer(velocityBuffers, weightsPtr, weight.getShape()).getData().data();
         }
         
         for (size_t j = 0; j < size; ++j) {
@@ -127,6 +114,15 @@ private:
         }
     }
 
+    // Check if a buffer of the right size exists, create it if it doesn't
+    static Tensor<T>& stateBuffer(std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>>& buffers, uintptr_t key, const Shape& shape) {
+        auto& buffer = buffers[key];
+        if (!buffer || buffer->getShape().size() != shape.size()) {
+            buffer = std::make_shared<Tensor<T>>(shape, T(0));
+        }
+        return *buffer;
+    }
+
     T learningRate;
     T alpha;
     T epsilon;
diff --git a/smart_dnn/Optimizers/SGDOptimizer.hpp b/smart_dnn/Optimizers/SGDOptimizer.hpp
index 633bd28..fc93ff6 100644
--- a/smart_dnn/Optimizers/SGDOptimizer.hpp
+++ b/smart_dnn/Optimizers/SGDOptimizer.hpp
@@ -57,14 +57,9 @@ private:
         size_t size = weight.getShape().size();
         
         // Get or create momentum buffer for this tensor
-        auto weightsPtr = reinterpret_cast<uintptr_t>(weightData);
+        auto weightsPtr = reinterpret_cast<uintptr_t>(&weight);
         
-        // Check if momentum buffer exists, create if it doesn't
-        if (momentumBuffers.find(weightsPtr) == momentumBuffers.end()) {
-            momentumBuffers[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
-        }
-        
-        auto& momentumBuffer = *momentumBuffers[weightsPtr];
+        auto& momentumBuffer = stateBuffer(momentumBuffers, weightsPtr, weight.getShape());
         
         T* momentumData = momentumBuffer.getData().data();
         
@@ -94,6 +89,15 @@ private:
         }
     }
 
+    // Check if a buffer of the right size exists, create it if it doesn't
+    static Tensor<T>& stateBuffer(std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>>& buffers, uintptr_t key, const Shape& shape) {
+        auto& buffer = buffers[key];
+        if (!buffer || buffer->getShape().size() != shape.size()) {
+            buffer = std::make_shared<Tensor<T>>(shape, T(0));
+        }
+        return *buffer;
+    }
+
     T learningRate;
     T momentum;
     T dampening;
-- 
2.43.0


From 22d0d6de0ce711e10c8e29aa03fdac288a181a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:24 +0000
Subject: [PATCH 31/50] fix: SmartDNN rejects training without loss or
 optimizer or with unpaired data, and invalid layer indices

---
 smart_dnn/SmartDNN/SmartDNN.impl.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/SmartDNN/SmartDNN.impl.hpp b/smart_dnn/SmartDNN/SmartDNN.impl.hpp
index 27d3ce6..dc1adc5 100644
--- a/smart_dnn/SmartDNN/SmartDNN.impl.hpp
+++ b/smart_dnn/SmartDNN/SmartDNN.impl.hpp
@@ -16,6 +16,9 @@ void SmartDNN<T>::backward(const Tensor<T>& gradOutput) {
 
 template <typename T>
 void SmartDNN<T>::updateWeights() {
+    if (!optimizer) {
+        throw std::runtime_error("Model must be compiled before updating weights");
+    }
     for (auto& layer : layers) {
         layer->updateWeights(*optimizer);
     }
@@ -23,11 +26,18 @@ void SmartDNN<T>::updateWeights() {
 
 template <typename T>
 Layer<T>* SmartDNN<T>::getLayer(size_t index) const {
-    return layers[index].get();
+    return layers.at(index).get();
 }
 
 template <typename T>
 void SmartDNN<T>::train(const std::vector<Tensor<T>>& inputs, const std::vector<Tensor<T>>& targets, int epochs) {
+    if (!lossFunction || !optimizer) {
+        throw std::runtime_error("Model must be compiled before training");
+    }
+    if (inputs.size() != targets.size()) {
+        throw std::invalid_argument("Number of inputs and targets must match");
+    }
+
     for (int epoch = 0; epoch < epochs; ++epoch) {
         Tensor<T> totalLoss{Shape({1}), T(0)};
         size_t inputSize = inputs.size();
-- 
2.43.0


From a6c9da7bb421ed60116031fcc3bbd8c6f2de70fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:14 +0000
Subject: [PATCH 32/50] fix: MNIST ASCII art maps values outside [0, 1] to the
 outermost characters

---
 smart_dnn/Datasets/MNistLoader.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Datasets/MNistLoader.hpp b/smart_dnn/Datasets/MNistLoader.hpp
index 01c204d..8c606c6 100644
--- a/smart_dnn/Datasets/MNistLoader.hpp
+++ b/smart_dnn/Datasets/MNistLoader.hpp
@@ -40,7 +40,8 @@ public:
                 float value = input.at(indices);
                 
                 // Map the value to an ASCII character
-                int index = std::min(static_cast<int>(value * numLevels), numLevels - 1);
+                float level = value * numLevels;
+                int index = (level > 0) ? ((level < numLevels) ? static_cast<int>(level) : numLevels - 1) : 0;
                 oss << asciiChars[index];
             }
             oss << "\n";
-- 
2.43.0


From b1d4f4278ef9446d00913c2fd753458b52425739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:18 +0000
Subject: [PATCH 33/50] fix: MNIST loader rejects files that do not hold the
 samples they should

---
 smart_dnn/Datasets/MNistLoader.hpp | 43 +++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/smart_dnn/Datasets/MNistLoader.hpp b/smart_dnn/Datasets/MNistLoader.hpp
index 8c606c6..4ec00d5 100644
--- a/smart_dnn/Datasets/MNistLoader.hpp
+++ b/smart_dnn/Datasets/MNistLoader.hpp
@@ -14,7 +14,11 @@ class MNISTLoader {
     using TensorType = Tensor<T>;
 public:
     MNISTLoader(const std::string& imagesPath, const std::string& labelsPath, int batchSize = 1, int numSamples = -1) 
-        : imagesPath(imagesPath), labelsPath(labelsPath), batchSize(batchSize), numSamples(numSamples) {}
+        : imagesPath(imagesPath), labelsPath(labelsPath), batchSize(batchSize), numSamples(numSamples) {
+        if (batchSize < 1 || numSamples < -1) {
+            throw std::invalid_argument("Batch size must be positive, and the number of samples not negative (or -1 for all)");
+        }
+    }
 
     std::pair<std::vector<TensorType>, std::vector<TensorType>> loadData() {
         std::vector<TensorType> images = loadImages();
@@ -67,13 +71,14 @@ private:
         int numRows = readInt(file);
         int numCols = readInt(file);
 
-        if (numSamples != -1) {
-            numImages = numSamples;
-        }
-
         if (magicNumber != 2051) {
             throw std::runtime_error("Invalid magic number in MNIST image file!");
         }
+        if (numRows < 1 || numCols < 1) {
+            throw std::runtime_error("Invalid image size in MNIST image file!");
+        }
+
+        numImages = samplesToRead(file, numImages, static_cast<size_t>(numRows) * static_cast<size_t>(numCols));
         
         std::vector<TensorType> images;
         for (int i = 0; i < numImages; i += batchSize) {
@@ -105,14 +110,12 @@ private:
         int magicNumber = readInt(file);
         int numLabels = readInt(file);
 
-        if (numSamples != -1) {
-            numLabels = numSamples;
-        }
-
         if (magicNumber != 2049) {
             throw std::runtime_error("Invalid magic number in MNIST label file!");
         }
 
+        numLabels = samplesToRead(file, numLabels, 1);
+
         std::vector<TensorType> labels;
         for (int i = 0; i < numLabels; i += batchSize) {
             int currentBatchSize = std::min(batchSize, numLabels - i); // Handle last batch size
@@ -120,6 +123,9 @@ private:
             TensorType label({currentBatchSize, 10}, T(0)); 
             for (int j = 0; j < currentBatchSize; ++j) { 
                 unsigned char digit = file.get();
+                if (digit > 9) {
+                    throw std::runtime_error("Label out of range: " + std::to_string(digit));
+                }
                 label.at({j, digit}) = T(1);
             }
             labels.push_back(label);
@@ -128,9 +134,26 @@ private:
         return labels;
     }
 
+    // The number of samples to read, all of which the rest of the file holds
+    int samplesToRead(std::ifstream& file, int announcedSamples, size_t sampleSize) {
+        int samples = (numSamples != -1) ? numSamples : announcedSamples;
+
+        std::streampos start = file.tellg();
+        file.seekg(0, std::ios::end);
+        size_t available = static_cast<size_t>(file.tellg() - start);
+        file.seekg(start);
+
+        if (samples < 0 || samples > announcedSamples || static_cast<size_t>(samples) > available / sampleSize) {
+            throw std::runtime_error("MNIST file does not hold the expected number of samples!");
+        }
+        return samples;
+    }
+
     int readInt(std::ifstream& file) {
         unsigned char buffer[4];
-        file.read(reinterpret_cast<char*>(buffer), 4);
+        if (!file.read(reinterpret_cast<char*>(buffer), 4)) {
+            throw std::runtime_error("MNIST file is too short!");
+        }
         return (buffer[0] << 24) | (buffer[1] << 16) | (buffer[2] << 8) | buffer[3];
     }
 };
-- 
2.43.0


From 7812a3aeb1eb0f4175f2505ea841866d83c7eab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:25 +0000
Subject: [PATCH 34/50] fix: transpose does not share its index buffers between
 OpenMP threads

---
 smart_dnn/Tensor/AdvancedTensorOperations.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Tensor/AdvancedTensorOperations.hpp b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
index aba4d54..6ce993e 100644
--- a/smart_dnn/Tensor/AdvancedTensorOperations.hpp
+++ b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
@@ -229,12 +229,13 @@ class AdvancedTensorOperations<T, CPUDevice> {
         std::swap(oldToNew[dim0], oldToNew[dim1]);
 
         // Iterate through all elements and place them in their new positions
-        std::vector<int> oldIndices(rank, 0);
-        std::vector<int> newIndices(rank, 0);
         size_t totalSize = shape.size();
 
         #pragma omp parallel for
         for (size_t i = 0; i < totalSize; ++i) {
+            std::vector<int> oldIndices(rank, 0);
+            std::vector<int> newIndices(rank, 0);
+
             // Calculate old indices
             size_t temp = i;
             for (int d = static_cast<int>(rank) - 1; d >= 0; --d) {
-- 
2.43.0


From 05c56daa9ace878ecfce0ee8dd789eac1ddea280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:33 +0000
Subject: [PATCH 35/50] fix: random tensors are drawn from the shared engine by
 one thread

---
 smart_dnn/Tensor/TensorOperations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Tensor/TensorOperations.hpp b/smart_dnn/Tensor/TensorOperations.hpp
index 4f7f206..33720da 100644
--- a/smart_dnn/Tensor/TensorOperations.hpp
+++ b/smart_dnn/Tensor/TensorOperations.hpp
@@ -302,7 +302,7 @@ public:
     static TensorData<T, CPUDevice> createRandom(const Shape& shape, T min, T max){
         TensorData<T, CPUDevice> result(shape);
         
-        #pragma omp parallel for
+        // Not parallel: the elements are drawn in order from the one random engine
         for (size_t i = 0; i < result.size(); ++i) {
             result[i] = RandomEngine::getHeRandRange(shape.size(), min, max);
         }
-- 
2.43.0


From fd8438c5d611c8536f5b15320c5234ed094e8b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:18 +0000
Subject: [PATCH 36/50] fix: output size of convolution and pooling does not
 overflow

---
 smart_dnn/Layers/Conv2DLayer.hpp               | 9 +++++++--
 smart_dnn/Regularisation/MaxPooling2DLayer.hpp | 7 +++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/smart_dnn/Layers/Conv2DLayer.hpp b/smart_dnn/Layers/Conv2DLayer.hpp
index bf0c5fe..d7969be 100644
--- a/smart_dnn/Layers/Conv2DLayer.hpp
+++ b/smart_dnn/Layers/Conv2DLayer.hpp
@@ -3,6 +3,7 @@
 
 #include <vector>
 #include <cmath>
+#include <limits>
 #include <iostream>
 #include <cassert>
 #include "smart_dnn/Layer.hpp"
@@ -194,11 +195,15 @@ private:
     int dilation;
 
     int outputSize(int inputSize, int kernelSize) const {
-        int lastStart = inputSize + 2 * padding - dilation * (kernelSize - 1) - 1;
+        long long paddedSize = static_cast<long long>(inputSize) + 2LL * padding;
+        if (paddedSize > std::numeric_limits<int>::max()) {
+            throw std::invalid_argument("Conv2DLayer: padded input is too large");
+        }
+        long long lastStart = paddedSize - static_cast<long long>(dilation) * (kernelSize - 1) - 1;
         if (lastStart < 0) {
             throw std::invalid_argument("Conv2DLayer: kernel does not fit the padded input");
         }
-        return lastStart / stride + 1;
+        return static_cast<int>(lastStart / stride + 1);
     }
 
     void initializeWeights() {
diff --git a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
index 4cc7092..a39ed81 100644
--- a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
+++ b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
@@ -89,11 +89,14 @@ private:
     std::optional<TensorType> input;
 
     int outputSize(int inputSize) const {
-        int lastStart = inputSize + 2 * padding - poolSize;
+        long long lastStart = static_cast<long long>(inputSize) + 2LL * padding - poolSize;
         if (lastStart < 0) {
             throw std::invalid_argument("MaxPooling2DLayer: input is smaller than the pooling window");
         }
-        return lastStart / stride + 1;
+        if (lastStart + poolSize > std::numeric_limits<int>::max()) {
+            throw std::invalid_argument("MaxPooling2DLayer: padded input is too large");
+        }
+        return static_cast<int>(lastStart / stride + 1);
     }
 
     std::tuple<T, int, int> findMaxInPoolWindow(const TensorType& tensor, int n, int ic, int oh, int ow) {
-- 
2.43.0


From 0f6cb0333c1957ebda2a1f8f313662d2b08f311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:45 +0000
Subject: [PATCH 37/50] fix: a rejected input does not replace the one a
 backward pass needs

---
 smart_dnn/Layers/ActivationLayer.hpp     | 5 +++--
 smart_dnn/Layers/FullyConnectedLayer.hpp | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/smart_dnn/Layers/ActivationLayer.hpp b/smart_dnn/Layers/ActivationLayer.hpp
index 473acab..8526d86 100644
--- a/smart_dnn/Layers/ActivationLayer.hpp
+++ b/smart_dnn/Layers/ActivationLayer.hpp
@@ -17,8 +17,9 @@ public:
         : activation(std::make_unique<std::decay_t<ActivationType>>(std::forward<ActivationType>(activation))) {}
 
     TensorType forward(const TensorType& input) override {
-        this->input = input;
-        return activation->forward(input);
+        TensorType output = activation->forward(input);
+        this->input = input; // Only an accepted input is kept for the backward pass
+        return output;
     }
 
     TensorType backward(const TensorType& gradOutput) override {
diff --git a/smart_dnn/Layers/FullyConnectedLayer.hpp b/smart_dnn/Layers/FullyConnectedLayer.hpp
index 1cbb36b..9788171 100644
--- a/smart_dnn/Layers/FullyConnectedLayer.hpp
+++ b/smart_dnn/Layers/FullyConnectedLayer.hpp
@@ -30,13 +30,13 @@ public:
     */
     
     TensorType forward(const TensorType& input) override {
-        this->input = input;
         TensorType reshapedInput = input;
         if (input.getShape().rank() == 1) {
             reshapedInput = AdvancedTensorOperations<T>::reshape(input, {1, input.getShape()[0]});
         }
         TensorType output = AdvancedTensorOperations<T>::matmul(reshapedInput, *weights);
         output = output + *biases;
+        this->input = input; // Only an accepted input is kept for the backward pass
 
         if (input.getShape().rank() == 1) {
             output = AdvancedTensorOperations<T>::reshape(output, {output.getShape()[1]});
-- 
2.43.0


From 46b2076a6bf6e5006ea94cdc584a86d607c728f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:40 +0000
Subject: [PATCH 38/50] fix: batched linear dataset rejects a batch size below
 1 and accepts the largest

---
 smart_dnn/Datasets/SampleGenerator.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Datasets/SampleGenerator.hpp b/smart_dnn/Datasets/SampleGenerator.hpp
index a84114e..8719925 100644
--- a/smart_dnn/Datasets/SampleGenerator.hpp
+++ b/smart_dnn/Datasets/SampleGenerator.hpp
@@ -4,6 +4,7 @@
 #include <iostream>
 #include <vector>
 #include <random>
+#include <stdexcept>
 #include "smart_dnn/Tensor/Tensor.hpp"
 
 namespace smart_dnn {
@@ -31,6 +32,10 @@ std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateLinear
 }
 
 std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateBatchedLinearDataset(int num_samples, int batch_size, float noise=1.0) {
+    if (batch_size < 1) {
+        throw std::invalid_argument("Batch size must be positive");
+    }
+
     std::vector<Tensor<float>> input_batches;
     std::vector<Tensor<float>> target_batches;
 
@@ -39,7 +44,7 @@ std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateBatche
     std::uniform_real_distribution<> input_dist(0, 100.0);
     std::normal_distribution<> noise_dist(0, noise);
 
-    int num_batches = (num_samples + batch_size - 1) / batch_size;  // Ceiling division
+    int num_batches = num_samples / batch_size + (num_samples % batch_size > 0 ? 1 : 0);  // Ceiling division
 
     for (int batch = 0; batch < num_batches; ++batch) {
         int current_batch_size = std::min(batch_size, num_samples - batch * batch_size);
-- 
2.43.0


From df8c724d0e41478704e33051774505afb187eef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:36 +0000
Subject: [PATCH 39/50] fix: linear datasets without noise do not ask for a
 normal distribution of width 0

---
 smart_dnn/Datasets/SampleGenerator.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/smart_dnn/Datasets/SampleGenerator.hpp b/smart_dnn/Datasets/SampleGenerator.hpp
index 8719925..e017088 100644
--- a/smart_dnn/Datasets/SampleGenerator.hpp
+++ b/smart_dnn/Datasets/SampleGenerator.hpp
@@ -16,11 +16,11 @@ std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateLinear
     std::random_device rd;
     std::mt19937 gen(rd());
     std::uniform_real_distribution<> input_dist(0, 100.0);
-    std::normal_distribution<> noise_dist(0, noise); 
+    std::normal_distribution<> noise_dist(0, 1);
 
     for (int i = 0; i < num_samples; ++i) {
         float x = input_dist(gen);
-        float y = 2.0f * x + 3.0f + noise_dist(gen);
+        float y = 2.0f * x + 3.0f + noise * noise_dist(gen);
 
         Tensor input(Shape{1}, x); 
         Tensor target(Shape{1}, y);
@@ -42,7 +42,7 @@ std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateBatche
     std::random_device rd;
     std::mt19937 gen(rd());
     std::uniform_real_distribution<> input_dist(0, 100.0);
-    std::normal_distribution<> noise_dist(0, noise);
+    std::normal_distribution<> noise_dist(0, 1);
 
     int num_batches = num_samples / batch_size + (num_samples % batch_size > 0 ? 1 : 0);  // Ceiling division
 
@@ -54,7 +54,7 @@ std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateBatche
 
         for (int i = 0; i < current_batch_size; ++i) {
             float x = input_dist(gen);
-            float y = 2.0f * x + 3.0f + noise_dist(gen);
+            float y = 2.0f * x + 3.0f + noise * noise_dist(gen);
 
             input_batch.at({i, 0}) = x;
             target_batch.at({i, 0}) = y;
-- 
2.43.0


From 5ed2e4951ce48f6a904e66ff0440b0dd011b7de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:38 +0000
Subject: [PATCH 40/50] fix: copies of an SGD or RMSProp optimizer shared their
 momentum and gradient averages

---
 smart_dnn/Optimizers/RMSPropOptimizer.hpp | 16 ++++++++--------
 smart_dnn/Optimizers/SGDOptimizer.hpp     | 12 ++++++------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/smart_dnn/Optimizers/RMSPropOptimizer.hpp b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
index 50abde6..31c5e5c 100644
--- a/smart_dnn/Optimizers/RMSPropOptimizer.hpp
+++ b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
@@ -115,12 +115,12 @@ private:
     }
 
     // Check if a buffer of the right size exists, create it if it doesn't
-    static Tensor<T>& stateBuffer(std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>>& buffers, uintptr_t key, const Shape& shape) {
-        auto& buffer = buffers[key];
-        if (!buffer || buffer->getShape().size() != shape.size()) {
-            buffer = std::make_shared<Tensor<T>>(shape, T(0));
+    static Tensor<T>& stateBuffer(std::unordered_map<uintptr_t, Tensor<T>>& buffers, uintptr_t key, const Shape& shape) {
+        auto buffer = buffers.find(key);
+        if (buffer == buffers.end() || buffer->second.getShape().size() != shape.size()) {
+            buffer = buffers.insert_or_assign(key, Tensor<T>(shape, T(0))).first;
         }
-        return *buffer;
+        return buffer->second;
     }
 
     T learningRate;
@@ -131,9 +131,9 @@ private:
     T weightDecay;
     
     // Store state buffers for each tensor (identified by memory address)
-    std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>> squaredGrads;
-    std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>> meanGrads;      // For centered RMSProp
-    std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>> velocityBuffers; // For momentum
+    std::unordered_map<uintptr_t, Tensor<T>> squaredGrads;
+    std::unordered_map<uintptr_t, Tensor<T>> meanGrads;      // For centered RMSProp
+    std::unordered_map<uintptr_t, Tensor<T>> velocityBuffers; // For momentum
 };
 
 } // namespace smart_dnn
diff --git a/smart_dnn/Optimizers/SGDOptimizer.hpp b/smart_dnn/Optimizers/SGDOptimizer.hpp
index fc93ff6..23ff225 100644
--- a/smart_dnn/Optimizers/SGDOptimizer.hpp
+++ b/smart_dnn/Optimizers/SGDOptimizer.hpp
@@ -90,12 +90,12 @@ private:
     }
 
     // Check if a buffer of the right size exists, create it if it doesn't
-    static Tensor<T>& stateBuffer(std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>>& buffers, uintptr_t key, const Shape& shape) {
-        auto& buffer = buffers[key];
-        if (!buffer || buffer->getShape().size() != shape.size()) {
-            buffer = std::make_shared<Tensor<T>>(shape, T(0));
+    static Tensor<T>& stateBuffer(std::unordered_map<uintptr_t, Tensor<T>>& buffers, uintptr_t key, const Shape& shape) {
+        auto buffer = buffers.find(key);
+        if (buffer == buffers.end() || buffer->second.getShape().size() != shape.size()) {
+            buffer = buffers.insert_or_assign(key, Tensor<T>(shape, T(0))).first;
         }
-        return *buffer;
+        return buffer->second;
     }
 
     T learningRate;
@@ -105,7 +105,7 @@ private:
     bool nesterov;
     
     // Store momentum buffers for each tensor (identified by memory address)
-    std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>> momentumBuffers;
+    std::unordered_map<uintptr_t, Tensor<T>> momentumBuffers;
 };
 
 } // namespace smart_dnn
-- 
2.43.0


From 71b8dca97cbaaf8696f4b654aced112f221e8ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:21 +0000
Subject: [PATCH 41/50] fix: make the headers compile as C++20: is_tensor_like
 is declared in every language version

---
 smart_dnn/Tensor/TensorOperations.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/smart_dnn/Tensor/TensorOperations.hpp b/smart_dnn/Tensor/TensorOperations.hpp
index 33720da..b3cb5a3 100644
--- a/smart_dnn/Tensor/TensorOperations.hpp
+++ b/smart_dnn/Tensor/TensorOperations.hpp
@@ -8,12 +8,6 @@
 
 namespace smart_dnn {
 
-#if __cplusplus >= 202002L
-// use concept (C++20)
-template<typename T, typename DeviceType>
-concept TensorLike = std::is_same_v<T, TensorData<typename T::value_type, DeviceType>> ||
-                     std::is_same_v<T, BroadcastView<typename T::value_type, DeviceType>>;
-#else
 // use type trait (C++17)
 template<typename T, typename DeviceType>
 struct is_tensor_like : std::false_type {};
@@ -23,6 +17,11 @@ struct is_tensor_like<TensorData<T, DeviceType>, DeviceType> : std::true_type {}
 
 template<typename T, typename DeviceType>
 struct is_tensor_like<BroadcastView<T, DeviceType>, DeviceType> : std::true_type {};
+
+#if __cplusplus >= 202002L
+// use concept (C++20)
+template<typename T, typename DeviceType>
+concept TensorLike = is_tensor_like<T, DeviceType>::value;
 #endif
 
 template <typename T, typename DeviceType>
-- 
2.43.0


From 25b3ac7e1be68f6f0daf5d6301010f240abadc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:33 +0000
Subject: [PATCH 42/50] fix: max pooling of windows holding only -infinity sent
 the gradient to position (0,0), and integer windows of negative values gave 0

---
 smart_dnn/Regularisation/MaxPooling2DLayer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
index a39ed81..263ea62 100644
--- a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
+++ b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
@@ -100,10 +100,11 @@ private:
     }
 
     std::tuple<T, int, int> findMaxInPoolWindow(const TensorType& tensor, int n, int ic, int oh, int ow) {
-        T maxVal = -std::numeric_limits<T>::infinity();
-        int maxIh = 0, maxIw = 0;
+        T maxVal = std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::lowest();
         int ihStart = oh * stride - padding;
         int iwStart = ow * stride - padding;
+        // The window's first element inside the image, in case none exceeds the initial value
+        int maxIh = std::max(ihStart, 0), maxIw = std::max(iwStart, 0);
 
         for (int ph = 0; ph < poolSize; ++ph) {
             int ih = ihStart + ph;
-- 
2.43.0


From c1b439b4605ee41e7c2320d619685547450dbb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:58 +0000
Subject: [PATCH 43/50] fix: tensors of more than INT_MAX elements: applyPair,
 sums over axes, means, variances and matrix products counted their elements
 in int

---
 smart_dnn/Tensor/AdvancedTensorOperations.hpp | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/smart_dnn/Tensor/AdvancedTensorOperations.hpp b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
index 6ce993e..5b9e14a 100644
--- a/smart_dnn/Tensor/AdvancedTensorOperations.hpp
+++ b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
@@ -35,10 +35,10 @@ class AdvancedTensorOperations<T, CPUDevice> {
         const T* aData = a.getData().data();
         const T* bData = b.getData().data();
         T* resultData = result.getData().data();
-        int size = a.getShape().size();
+        size_t size = a.getShape().size();
 
         #pragma omp parallel for
-        for (int i = 0; i < size; ++i) {
+        for (size_t i = 0; i < size; ++i) {
             resultData[i] = f(aData[i], bData[i]);
         }
 
@@ -74,8 +74,8 @@ class AdvancedTensorOperations<T, CPUDevice> {
         std::vector<int> resultIndices(shape.rank(), 0);
         
         do {
-            int inputIndex = computeFlatIndex(shape, inputIndices);
-            int resultIndex = computeFlatIndex(result.getShape(), resultIndices);
+            size_t inputIndex = computeFlatIndex(shape, inputIndices);
+            size_t resultIndex = computeFlatIndex(result.getShape(), resultIndices);
             
             resultData[resultIndex] += inputData[inputIndex];
         } while (incrementIndices(inputIndices, shape, &axesToSum, &resultIndices));
@@ -116,7 +116,7 @@ class AdvancedTensorOperations<T, CPUDevice> {
 
         const auto& shape = tensor.getShape();
         Tensor<T> result = tensor;
-        int totalElements = 1;
+        size_t totalElements = 1;
 
         std::vector<int> newShape(shape.rank(), 1);
         for (size_t i = 0; i < shape.rank(); ++i) {
@@ -156,7 +156,7 @@ class AdvancedTensorOperations<T, CPUDevice> {
         const auto& shape = tensor.getShape();
         const auto& meanShape = meanTensor.getShape();
 
-        int totalElements = 1;
+        size_t totalElements = 1;
         for (size_t axis : axes) {
             if (axis < 0 || axis >= shape.rank()) {
                 throw std::runtime_error("Invalid axis for variance calculation: " + std::to_string(axis));
@@ -371,7 +371,7 @@ private:
             T sum = 0;
             #pragma omp simd reduction(+:sum)
             for (int j = 0; j < n; ++j) {
-                sum += aData[i * n + j] * bData[j];
+                sum += aData[static_cast<size_t>(i) * n + j] * bData[j];
             }
             resultData[i] = sum;
         }
@@ -412,9 +412,9 @@ private:
             for (int j = 0; j < n; j++) {
                 T sum = 0;
                 for (int p = 0; p < k; p++) {
-                    sum += aData[i * k + p] * bData[p * n + j];
+                    sum += aData[static_cast<size_t>(i) * k + p] * bData[static_cast<size_t>(p) * n + j];
                 }
-                resultData[i * n + j] = sum;
+                resultData[static_cast<size_t>(i) * n + j] = sum;
             }
         }
 
@@ -455,7 +455,7 @@ private:
                 for (int p = 0; p < k; ++p) {
                     sum += a[{i, p}] * b[{p, j}];
                 }
-                resultData[i * n + j] = sum;
+                resultData[static_cast<size_t>(i) * n + j] = sum;
             }
         }
 
-- 
2.43.0


From 999d65fba3ae002ff26953aacdb24d79758f12dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:06 +0000
Subject: [PATCH 44/50] fix: views of tensors of more than INT_MAX elements
 computed element offsets in int

---
 smart_dnn/Tensor/BroadcastView.hpp | 4 ++--
 smart_dnn/Tensor/SliceView.hpp     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/smart_dnn/Tensor/BroadcastView.hpp b/smart_dnn/Tensor/BroadcastView.hpp
index 5e787e3..aa9fadb 100644
--- a/smart_dnn/Tensor/BroadcastView.hpp
+++ b/smart_dnn/Tensor/BroadcastView.hpp
@@ -47,8 +47,8 @@ private:
         }
     }
 
-    int mapIndex(const std::vector<int>& indices) const {
-        int flatIndex = 0;
+    size_t mapIndex(const std::vector<int>& indices) const {
+        size_t flatIndex = 0;
         const auto& orig_shape = original_.shape();
         const auto& orig_stride = original_.shape().getStride();
         int orig_dim = orig_shape.rank() - 1;
diff --git a/smart_dnn/Tensor/SliceView.hpp b/smart_dnn/Tensor/SliceView.hpp
index 452f97c..4fa2755 100644
--- a/smart_dnn/Tensor/SliceView.hpp
+++ b/smart_dnn/Tensor/SliceView.hpp
@@ -28,8 +28,8 @@ private:
         sliced_shape_ = Shape(new_dims);
     }
 
-    int mapIndex(const std::vector<int>& indices) const {
-        int flatIndex = 0;
+    size_t mapIndex(const std::vector<int>& indices) const {
+        size_t flatIndex = 0;
         const auto& orig_stride = original_.shape().getStride();
         for (size_t i = 0; i < indices.size(); ++i) {
             flatIndex += (start_indices_[i] + indices[i] * step_sizes_[i]) * orig_stride[i];
-- 
2.43.0


From e3ab5bf6a59aa06181098dcd1c87721bca3a4012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:14 +0000
Subject: [PATCH 45/50] fix: softmax of inputs of more than INT_MAX elements
 computed offsets in int

---
 smart_dnn/Activations/Softmax.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/smart_dnn/Activations/Softmax.hpp b/smart_dnn/Activations/Softmax.hpp
index 5719ad7..b249339 100644
--- a/smart_dnn/Activations/Softmax.hpp
+++ b/smart_dnn/Activations/Softmax.hpp
@@ -33,7 +33,7 @@ public:
         T* outputData = output.getData().data();
 
         int batchSize = input.getShape()[0];
-        int featuresSize = input.getShape().size() / batchSize;
+        size_t featuresSize = input.getShape().size() / batchSize;
 
         for (int b = 0; b < batchSize; ++b) {
             const T* batchInputData = inputData + b * featuresSize;
@@ -42,12 +42,12 @@ public:
             T maxVal = *std::max_element(batchInputData, batchInputData + featuresSize);
             T sum = T(0);
 
-            for (int i = 0; i < featuresSize; ++i) {
+            for (size_t i = 0; i < featuresSize; ++i) {
                 batchOutputData[i] = std::exp(batchInputData[i] - maxVal);
                 sum += batchOutputData[i];
             }
 
-            for (int i = 0; i < featuresSize; ++i) {
+            for (size_t i = 0; i < featuresSize; ++i) {
                 batchOutputData[i] /= sum;
             }
         }
@@ -72,16 +72,16 @@ public:
         T* gradInputData = gradInput.getData().data();
 
         int batchSize = input.getShape()[0];
-        int featuresSize = input.getShape().size() / batchSize;
+        size_t featuresSize = input.getShape().size() / batchSize;
 
         for (int b = 0; b < batchSize; ++b) {
             const T* batchOutputData = outputData + b * featuresSize;
             const T* batchGradOutputData = gradOutputData + b * featuresSize;
             T* batchGradInputData = gradInputData + b * featuresSize;
 
-            for (int i = 0; i < featuresSize; ++i) {
+            for (size_t i = 0; i < featuresSize; ++i) {
                 T gradient = T(0);
-                for (int j = 0; j < featuresSize; ++j) {
+                for (size_t j = 0; j < featuresSize; ++j) {
                     if (i == j) {
                         gradient += batchOutputData[i] * (T(1) - batchOutputData[j]) * batchGradOutputData[j];
                     } else {
-- 
2.43.0


From c639a66e9e8e73c163b422f1687823a5497581d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:04 +0000
Subject: [PATCH 46/50] fix: FlattenLayer narrowed the size of a sample to int,
 and a refused input replaced the stored shape

---
 smart_dnn/Layers/FlattenLayer.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/smart_dnn/Layers/FlattenLayer.hpp b/smart_dnn/Layers/FlattenLayer.hpp
index 1eb74f4..d74b608 100644
--- a/smart_dnn/Layers/FlattenLayer.hpp
+++ b/smart_dnn/Layers/FlattenLayer.hpp
@@ -27,16 +27,19 @@ public:
             throw std::invalid_argument("Input tensor must have at least 2 dimensions");
         }
 
+        int batchSize = input.getShape()[0];
+        size_t flattenedSize = input.getShape().size() / batchSize;
+        if (flattenedSize > static_cast<size_t>(std::numeric_limits<int>::max())) {
+            throw std::invalid_argument("FlattenLayer: a sample has too many elements for one dimension");
+        }
+
         this->originalShape = input.getShape();
 
         if (input.getShape().rank() == 2) {
             return input;
         }
 
-        int batchSize = (*originalShape)[0];
-        int flattenedSize = (*originalShape).size() / batchSize;
-        
-        return AdvancedTensorOperations<T>::reshape(input, Shape({batchSize, flattenedSize}));
+        return AdvancedTensorOperations<T>::reshape(input, Shape({batchSize, static_cast<int>(flattenedSize)}));
     }
 
     /*
-- 
2.43.0


From f600d3b4cc5d83dc9b8e289aee1e7fa83aaf1826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:29 +0000
Subject: [PATCH 47/50] fix: means and variances of integer tensors are divided
 by the element count, not multiplied by its integer reciprocal

---
 smart_dnn/Tensor/AdvancedTensorOperations.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/smart_dnn/Tensor/AdvancedTensorOperations.hpp b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
index 5b9e14a..b6a4e71 100644
--- a/smart_dnn/Tensor/AdvancedTensorOperations.hpp
+++ b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
@@ -139,7 +139,7 @@ class AdvancedTensorOperations<T, CPUDevice> {
         }
 
         // Divide the sum by the total number of elements to get the mean
-        result = result * (T(1) / T(totalElements));
+        result = result / T(totalElements);
         result = reshape(result, Shape(newShape));
 
         return result;
@@ -148,7 +148,7 @@ class AdvancedTensorOperations<T, CPUDevice> {
 
     // Mean function: calculates the mean for the entire tensor (all elements)
     static Tensor<T> mean(const Tensor<T>& tensor) {
-        return sum(tensor) * (T(1) / T(tensor.getShape().size()));
+        return sum(tensor) / T(tensor.getShape().size());
     }
 
     // Variance function: calculates the variance between tensors (all elements) along the specified axes
@@ -198,7 +198,7 @@ class AdvancedTensorOperations<T, CPUDevice> {
     // The variance is the mean of the squared differences from the mean
     static Tensor<T> variance(const Tensor<T>& tensor, const Tensor<T>& meanTensor) {
         Tensor<T> diff = tensor - meanTensor;
-        return sum(diff * diff) * (T(1) / T(tensor.getShape().size()));
+        return sum(diff * diff) / T(tensor.getShape().size());
     }
 
     static Tensor<T> reshape(const Tensor<T>& tensor, const Shape& newShape) {
-- 
2.43.0


From f91571d44220e6058800e902b6d0d3827b5a0c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:35 +0000
Subject: [PATCH 48/50] fix: reject division of an integer tensor by a tensor
 with a zero element

---
 smart_dnn/Tensor/TensorOperations.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/smart_dnn/Tensor/TensorOperations.hpp b/smart_dnn/Tensor/TensorOperations.hpp
index b3cb5a3..0e56a44 100644
--- a/smart_dnn/Tensor/TensorOperations.hpp
+++ b/smart_dnn/Tensor/TensorOperations.hpp
@@ -362,6 +362,11 @@ private:
         static_assert(are_tensor_like<LHS, RHS>(), "Both operands must be either TensorData or BroadcastView");
         if (lhs.shape().size() != rhs.shape().size()) { throw std::runtime_error("Shapes are not broadcastable! Mismatch between shapes: " + lhs.shape().toString() + " + " + rhs.shape().toString()); }
     
+        if constexpr (std::is_integral_v<T>) {
+            if (std::find(rhs.begin(), rhs.end(), T(0)) != rhs.end()) {
+                throw std::invalid_argument("Division by zero");
+            }
+        }
         std::transform(lhs.begin(), lhs.end(), rhs.begin(), result.begin(), std::divides<T>());
     }
 
-- 
2.43.0


From 9af88229a0b54659248ef3c3eb81c0a024fde853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:42 +0000
Subject: [PATCH 49/50] fix: print the elements of character tensors as numbers

---
 smart_dnn/Tensor/TensorDataCPU.impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Tensor/TensorDataCPU.impl.hpp b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
index 4f46a39..7f9aafe 100644
--- a/smart_dnn/Tensor/TensorDataCPU.impl.hpp
+++ b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
@@ -103,7 +103,7 @@ std::string TENSOR_DATA_CPU::toString() const {
     size_t max_elements = 10;  // Limit the number of elements to display
         for (size_t i = 0; i < std::min(shape_.size(), max_elements); ++i) {
             if (i > 0) oss << ", ";
-            oss << data_[i];
+            oss << +data_[i]; // Characters are numbers here
         }
     if (shape_.size() > max_elements) oss << ", ...";
     oss << "]";
@@ -116,7 +116,7 @@ std::string TENSOR_DATA_CPU::toDataString() const {
     oss << "[";
     for (size_t i = 0; i < shape_.size(); ++i) {
         if (i > 0) oss << ", ";
-        oss << data_[i];
+        oss << +data_[i]; // Characters are numbers here
     }
     oss << "]";
     return oss.str();
-- 
2.43.0


From ff3850f3f960953004304dd8c04c8d5b89eee110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:10 +0000
Subject: [PATCH 50/50] fix: define the sample generators inline, so that
 several source files can include them

---
 smart_dnn/Datasets/SampleGenerator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Datasets/SampleGenerator.hpp b/smart_dnn/Datasets/SampleGenerator.hpp
index e017088..e9c09d0 100644
--- a/smart_dnn/Datasets/SampleGenerator.hpp
+++ b/smart_dnn/Datasets/SampleGenerator.hpp
@@ -9,7 +9,7 @@
 
 namespace smart_dnn {
 
-std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateLinearDataset(int num_samples, float noise=1.0) {
+inline std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateLinearDataset(int num_samples, float noise=1.0) {
     std::vector<Tensor<float>> inputs;
     std::vector<Tensor<float>> targets;
 
@@ -31,7 +31,7 @@ std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateLinear
     return {inputs, targets};
 }
 
-std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateBatchedLinearDataset(int num_samples, int batch_size, float noise=1.0) {
+inline std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateBatchedLinearDataset(int num_samples, int batch_size, float noise=1.0) {
     if (batch_size < 1) {
         throw std::invalid_argument("Batch size must be positive");
     }
-- 
2.43.0

