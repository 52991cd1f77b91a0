From a4939b857815ae739473fa5251c43a0efefba2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:31 +0000
Subject: [PATCH 001/111] fix: 8-bit floats turned negative zero and
 underflowing negative values into a positive value

---
 src/types/quarter_float.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/types/quarter_float.hpp b/src/types/quarter_float.hpp
index 9f8a0cf..2f6a0d7 100644
--- a/src/types/quarter_float.hpp
+++ b/src/types/quarter_float.hpp
@@ -97,9 +97,11 @@ namespace happyml {
         const uint32_t exponent = (!clamped) * adjusted_exponent + (clamp_top * 0xE);
         const uint32_t clamped_exponent = (exponent < 0xF) * exponent + (exponent == 0xF) * 0xE;
         const uint32_t clamped_mantissa = ((!clamped) * rounded_mantissa) + (clamp_top * 0x7);
-        const uint32_t prepped_bits = (sign << 7) | (clamped_exponent << 3) | (clamped_mantissa & 0x7);
+        const uint32_t magnitude_bits = (clamped_exponent << 3) | (clamped_mantissa & 0x7);
+        // 10000000 does not represent negative zero, so a magnitude of zero never carries the sign
+        const uint32_t prepped_bits = ((sign && magnitude_bits) << 7) | magnitude_bits;
         const uint32_t special_case_tiny =
-                encoded_value && (!prepped_bits && adjusted_exponent >= (-12 + bias)); // -5 rounds nearest
+                encoded_value && (!sign && !prepped_bits && adjusted_exponent >= (-12 + bias)); // -5 rounds nearest
         const uint32_t result_bits = (special_case_tiny) * 0b10000000 +
                                      (!special_case_tiny) * prepped_bits;
 
-- 
2.43.0


From b93467a2c6e5289969170aa3b22e66f59930286c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:44 +0000
Subject: [PATCH 002/111] fix: 8-bit floats stored a not-a-number with a
 payload as the largest value

---
 src/types/quarter_float.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/types/quarter_float.hpp b/src/types/quarter_float.hpp
index 2f6a0d7..b55499d 100644
--- a/src/types/quarter_float.hpp
+++ b/src/types/quarter_float.hpp
@@ -105,11 +105,12 @@ namespace happyml {
         const uint32_t result_bits = (special_case_tiny) * 0b10000000 +
                                      (!special_case_tiny) * prepped_bits;
 
-        return (encoded_value == FLOAT_NEG_NAN || encoded_value == FLOAT_POS_NAN) * QUARTER_NAN +
+        // any payload is not-a-number, not just the two default patterns
+        const bool is_nan = (encoded_value & 0x7FFFFFFF) > FLOAT_INF;
+        return is_nan * QUARTER_NAN +
                (encoded_value == FLOAT_INF) * QUARTER_POS_INFINITY
                + (encoded_value == FLOAT_NEG_INF) * QUARTER_NEG_INFINITY +
-               ((encoded_value != FLOAT_NEG_NAN && encoded_value != FLOAT_POS_NAN) && (encoded_value != FLOAT_INF) &&
-                (encoded_value != FLOAT_NEG_INF)) *
+               (!is_nan && (encoded_value != FLOAT_INF) && (encoded_value != FLOAT_NEG_INF)) *
                result_bits;
     }
 
-- 
2.43.0


From 43b81e4cbb7bb9094d4ae8a605832acd8dd0ef50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:18 +0000
Subject: [PATCH 003/111] fix: getRowValues ignored the requested channel

---
 src/types/base_tensors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/base_tensors.hpp b/src/types/base_tensors.hpp
index aa54f1b..ba05a07 100644
--- a/src/types/base_tensors.hpp
+++ b/src/types/base_tensors.hpp
@@ -203,7 +203,7 @@ namespace happyml {
             vector<float> nextRow;
             size_t columnCount1 = columnCount();
             for (size_t col = 0; col < columnCount1; col++) {
-                nextRow.push_back(getValue(row, col, 0));
+                nextRow.push_back(getValue(row, col, channel));
             }
             return nextRow;
         }
-- 
2.43.0


From 44a8008c3bfbddc76d6ed97f2da9f05da5258e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:52 +0000
Subject: [PATCH 004/111] fix: views over three tensors ignored the third
 tensor

---
 src/types/base_tensors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/base_tensors.hpp b/src/types/base_tensors.hpp
index ba05a07..a4ff99d 100644
--- a/src/types/base_tensors.hpp
+++ b/src/types/base_tensors.hpp
@@ -737,7 +737,7 @@ namespace happyml {
                                                const shared_ptr<BaseTensor> &tensor3) {
             this->left_child_ = tensor1;
             this->middle_child_ = tensor2;
-            this->right_child_ = tensor2;
+            this->right_child_ = tensor3;
         }
 
         bool contains(const shared_ptr<BaseTensor> &other) override {
-- 
2.43.0


From 94ed6ebd31f8bb5900c76ce6837b97ca8f65afcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:52 +0000
Subject: [PATCH 005/111] fix: the euclidean norm of a zero tensor was not a
 number

---
 src/types/base_tensors.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/base_tensors.hpp b/src/types/base_tensors.hpp
index a4ff99d..611bf1c 100644
--- a/src/types/base_tensors.hpp
+++ b/src/types/base_tensors.hpp
@@ -452,6 +452,9 @@ namespace happyml {
             const size_t cols = columnCount();
             const size_t maxChannels = channelCount();
             auto max_abs_val = (double) max_abs();
+            if (max_abs_val == 0) {
+                return 0.f;
+            }
             for (size_t channel = 0; channel < maxChannels; channel++) {
                 for (size_t row = 0; row < rows; row++) {
                     for (size_t col = 0; col < cols; col++) {
-- 
2.43.0


From 214b3b6cf12a244d60f99a98c8003de2cb503fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:52 +0000
Subject: [PATCH 006/111] fix: standardizing a tensor used a wrong mean and
 deviation

---
 src/types/tensor_views/standardize_tensor_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/tensor_views/standardize_tensor_view.hpp b/src/types/tensor_views/standardize_tensor_view.hpp
index cadb636..b573615 100644
--- a/src/types/tensor_views/standardize_tensor_view.hpp
+++ b/src/types/tensor_views/standardize_tensor_view.hpp
@@ -19,7 +19,7 @@ namespace happyml {
             for (size_t element = 0; element < total_elements; ++element) {
                 double value = tensor->getValue(element);
                 double delta = value - mean;
-                mean += delta / total_elements;
+                mean += delta / ((double) element + 1.0);
                 double delta2 = value - mean;
                 M2 += delta * delta2;
             }
-- 
2.43.0


From 4ce33e991b69e2c0a47977af97f606fb5d018788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:52 +0000
Subject: [PATCH 007/111] fix: matrix division did not multiply by the inverse

---
 src/types/tensor_views/matrix_divide_tensor_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/tensor_views/matrix_divide_tensor_view.hpp b/src/types/tensor_views/matrix_divide_tensor_view.hpp
index 58b177a..491e642 100644
--- a/src/types/tensor_views/matrix_divide_tensor_view.hpp
+++ b/src/types/tensor_views/matrix_divide_tensor_view.hpp
@@ -49,7 +49,7 @@ namespace happyml {
             // Compute the inverse of the right_child_ matrix for the given row, column, channel
             float val = 0;
             for (size_t col = 0; col < left_child_->columnCount(); col++) {
-                val += left_child_->getValue(row, col, channel) * right_child_->getValue(row, col, channel);
+                val += left_child_->getValue(row, col, channel) * right_child_->getValue(col, column, channel);
             }
             return val;
         }
-- 
2.43.0


From 9d5e8eb68df0cf709f5bc86ab8ccbb082e6e561f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:07 +0000
Subject: [PATCH 008/111] fix: full cross-correlation padded too little for
 kernels of four or more rows or columns

---
 .../full_2d_cross_correlation_tensor_view.hpp        | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp b/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp
index 4e5fae2..b636261 100644
--- a/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp
+++ b/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp
@@ -25,14 +25,10 @@ namespace happyml {
         Full2DCrossCorrelationTensorView(const shared_ptr<BaseTensor> &tensor, const shared_ptr<BaseTensor> &kernel)
                 : Valid2DCrossCorrelationTensorView(
                 make_shared<ZeroPadTensorView>(tensor,
-                                                           (kernel->rowCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->rowCount()) / 2.0),
-                                                           (kernel->rowCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->rowCount()) / 2.0),
-                                                           (kernel->columnCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->columnCount()) / 2.0),
-                                                           (kernel->columnCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->columnCount()) / 2.0)),
+                                                           kernel->rowCount() - 1,
+                                                           kernel->rowCount() - 1,
+                                                           kernel->columnCount() - 1,
+                                                           kernel->columnCount() - 1),
                 kernel) {
         }
 
-- 
2.43.0


From 17ce0c80424f3611cbe72a6bb815f69354961bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:07 +0000
Subject: [PATCH 009/111] fix: a valid cross-correlation with a kernel larger
 than its input wrapped its shape around

---
 .../tensor_views/valid_2d_cross_correlation_tensor_view.hpp    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/tensor_views/valid_2d_cross_correlation_tensor_view.hpp b/src/types/tensor_views/valid_2d_cross_correlation_tensor_view.hpp
index 92c47a2..5aa3cf2 100644
--- a/src/types/tensor_views/valid_2d_cross_correlation_tensor_view.hpp
+++ b/src/types/tensor_views/valid_2d_cross_correlation_tensor_view.hpp
@@ -13,6 +13,9 @@ namespace happyml {
     public:
         Valid2DCrossCorrelationTensorView(const shared_ptr<BaseTensor> &tensor, const shared_ptr<BaseTensor> &kernel)
                 : BaseTensorBinaryOperatorView(tensor, kernel) {
+            if (kernel->rowCount() > tensor->rowCount() || kernel->columnCount() > tensor->columnCount()) {
+                throw runtime_error("The kernel of a valid cross-correlation cannot be larger than its input.");
+            }
             rows = left_child_->rowCount() - right_child_->rowCount() + 1;
             cols = left_child_->columnCount() - right_child_->columnCount() + 1;
         }
-- 
2.43.0


From be662637ad47a9bb671b4a2883768d3ef43059fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:07 +0000
Subject: [PATCH 010/111] fix: normalizing values that are all equal gave
 not-a-number

---
 src/types/tensor_views/normalize_tensor_view.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/types/tensor_views/normalize_tensor_view.hpp b/src/types/tensor_views/normalize_tensor_view.hpp
index 241a05e..85cf9d6 100644
--- a/src/types/tensor_views/normalize_tensor_view.hpp
+++ b/src/types/tensor_views/normalize_tensor_view.hpp
@@ -18,11 +18,17 @@ namespace happyml {
             min_val_ = range.first;
             max_val_ = range.second;
             val_range_ = max_val_ - min_val_;
+            if (val_range_ == 0) {
+                val_range_ = 1.0f;
+            }
         }
 
         explicit NormalizeTensorView(const shared_ptr<BaseTensor> &tensor, float min_val, float max_val)
                 : BaseTensorUnaryOperatorView(tensor), min_val_(min_val), max_val_(max_val) {
             val_range_ = max_val_ - min_val_;
+            if (val_range_ == 0) {
+                val_range_ = 1.0f;
+            }
         }
 
         float getValue(size_t row, size_t column, size_t channel) override {
-- 
2.43.0


From 699c86e89d1a64243d68798ea3c826e31ae08138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:07 +0000
Subject: [PATCH 011/111] fix: standardizing with a standard deviation of zero
 gave not-a-number

---
 src/types/tensor_views/standardize_tensor_view.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/tensor_views/standardize_tensor_view.hpp b/src/types/tensor_views/standardize_tensor_view.hpp
index b573615..418e737 100644
--- a/src/types/tensor_views/standardize_tensor_view.hpp
+++ b/src/types/tensor_views/standardize_tensor_view.hpp
@@ -34,6 +34,9 @@ namespace happyml {
 
         explicit StandardizeTensorView(const shared_ptr<BaseTensor> &tensor, float mean, float std_dev)
                 : BaseTensorUnaryOperatorView(tensor), mean_(mean), std_dev_(std_dev) {
+            if (std_dev_ == 0) {
+                std_dev_ = 1.0f;
+            }
         }
 
         float getValue(size_t row, size_t column, size_t channel) override {
-- 
2.43.0


From a8decfea646b67a700c4c816716da53c4ffb2995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:07 +0000
Subject: [PATCH 012/111] fix: concatenating tensors with different channel
 counts was not refused

---
 src/types/tensor_views/concat_wide_tensor_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/tensor_views/concat_wide_tensor_view.h b/src/types/tensor_views/concat_wide_tensor_view.h
index 122e68f..b2fe046 100644
--- a/src/types/tensor_views/concat_wide_tensor_view.h
+++ b/src/types/tensor_views/concat_wide_tensor_view.h
@@ -13,12 +13,12 @@ namespace happyml {
     public:
         ConcatWideTensorView(const shared_ptr<BaseTensor> &tensor1,
                              const shared_ptr<BaseTensor> &tensor2) : BaseTensorBinaryOperatorView(tensor1, tensor2) {
-            if (tensor1->rowCount() != tensor2->rowCount()) {
+            if (tensor1->rowCount() != tensor2->rowCount() || tensor1->channelCount() != tensor2->channelCount()) {
                 cout << "[" << tensor1->rowCount() << ", " << tensor1->columnCount() << ", " << tensor1->channelCount()
                      << "] + [";
                 cout << tensor2->rowCount() << ", " << tensor2->columnCount() << ", " << tensor2->channelCount() << "]"
                      << endl;
-                throw runtime_error("You can only concatenate two tensors with the same number of rows.");
+                throw runtime_error("You can only concatenate two tensors with the same number of rows and channels.");
             }
         }
 
-- 
2.43.0


From 53e6fa5ad818409c486276c15defde7b7340bc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:07 +0000
Subject: [PATCH 013/111] fix: inverting a matrix that is not square was not
 refused

---
 src/types/tensor_views/inverse_tensor_view.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/tensor_views/inverse_tensor_view.hpp b/src/types/tensor_views/inverse_tensor_view.hpp
index 5359561..a4f357a 100644
--- a/src/types/tensor_views/inverse_tensor_view.hpp
+++ b/src/types/tensor_views/inverse_tensor_view.hpp
@@ -12,6 +12,9 @@ namespace happyml {
 
     // Helper function to compute the inverse of a matrix using the Gauss-Jordan elimination method
     shared_ptr<BaseTensor> inverse_tensor(const shared_ptr<BaseTensor> &tensor) {
+        if (tensor->rowCount() != tensor->columnCount()) {
+            throw runtime_error("Only square matrices can be inverted");
+        }
         vector<vector<vector<float>>> result;
         for (size_t channel = 0; channel < tensor->channelCount(); channel++) {
             // Create a matrix from the tensor (only one channel
-- 
2.43.0


From a4f37c688367329e08a6f4c721d0bb1dccc9d328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 014/111] fix: the diagonal of a row or column only held its
 first element

---
 src/types/tensor_views/diagonal_tensor_view.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/tensor_views/diagonal_tensor_view.hpp b/src/types/tensor_views/diagonal_tensor_view.hpp
index 8eb1c4b..a288ddd 100644
--- a/src/types/tensor_views/diagonal_tensor_view.hpp
+++ b/src/types/tensor_views/diagonal_tensor_view.hpp
@@ -55,6 +55,9 @@ namespace happyml {
         }
 
         float getValue(size_t row, size_t column, size_t channel) override {
+            if (row == column && (child_->rowCount() == 1 || child_->columnCount() == 1)) {
+                return child_->rowCount() == 1 ? child_->getValue(0, column, channel) : child_->getValue(row, 0, channel);
+            }
             if (row == column && row < child_->rowCount() && column < child_->columnCount() && channel < child_->channelCount()) {
                 return child_->getValue(row, column, channel);
             }
-- 
2.43.0


From ec5afec62f1ed824093d5809cf9f1fd25e276633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 015/111] fix: selecting by a mask of another shape was not
 refused

---
 src/types/tensor_views/masked_select_tensor_view.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/types/tensor_views/masked_select_tensor_view.hpp b/src/types/tensor_views/masked_select_tensor_view.hpp
index 6b941be..ca9c3b6 100644
--- a/src/types/tensor_views/masked_select_tensor_view.hpp
+++ b/src/types/tensor_views/masked_select_tensor_view.hpp
@@ -13,7 +13,12 @@ namespace happyml {
                                         const std::shared_ptr<BaseTensor> &value_above_discriminator,
                                         const std::shared_ptr<BaseTensor> &value_below_discriminator,
                                         const float mask_discriminator = 0.0f)
-                : BaseTensorTrinaryOperatorView(mask, value_above_discriminator, value_below_discriminator), mask_discriminator_(mask_discriminator) {}
+                : BaseTensorTrinaryOperatorView(mask, value_above_discriminator, value_below_discriminator), mask_discriminator_(mask_discriminator) {
+            if (mask->getShape() != value_above_discriminator->getShape() ||
+                mask->getShape() != value_below_discriminator->getShape()) {
+                throw runtime_error("A mask and the values it selects from must have the same shape.");
+            }
+        }
 
         float getValue(size_t row, size_t column, size_t channel) override {
             const float mask_val = left_child_->getValue(row, column, channel);
-- 
2.43.0


From e5067545f5c722ed7111cbf4a6c972a7f8026718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 016/111] fix: the outer product of anything but a column and a
 row was not refused

---
 src/types/tensor_views/outer_product_tensor_view.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/types/tensor_views/outer_product_tensor_view.hpp b/src/types/tensor_views/outer_product_tensor_view.hpp
index 2af906c..19ef468 100644
--- a/src/types/tensor_views/outer_product_tensor_view.hpp
+++ b/src/types/tensor_views/outer_product_tensor_view.hpp
@@ -12,7 +12,11 @@ namespace happyml {
     class OuterProductTensorView : public BaseTensorBinaryOperatorView {
     public:
         OuterProductTensorView(const shared_ptr<BaseTensor> &left, const shared_ptr<BaseTensor> &right)
-                : BaseTensorBinaryOperatorView(left, right) {}
+                : BaseTensorBinaryOperatorView(left, right) {
+            if (left->columnCount() != 1 || right->rowCount() != 1 || left->channelCount() != right->channelCount()) {
+                throw runtime_error("An outer product needs a column and a row with the same number of channels.");
+            }
+        }
 
         void printMaterializationPlan() override {
             cout << "OuterProductTensorView{" << rowCount() << "," << columnCount() << "," << channelCount()
-- 
2.43.0


From 97df95c9d085b0f6f90bca12cec8f65b7197955c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:46 +0000
Subject: [PATCH 017/111] fix: the recommended offset of a narrow 8-bit
 encoding was taken from values lumped together by it

---
 src/util/tensor_stats.hpp | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/util/tensor_stats.hpp b/src/util/tensor_stats.hpp
index 639ee72..02c4dd1 100644
--- a/src/util/tensor_stats.hpp
+++ b/src/util/tensor_stats.hpp
@@ -147,21 +147,7 @@ namespace happyml {
                 wide_target_range = fullRange();
             }
 
-//        cout << "wide range: " << wide_target_range << endl;
-            if (bagAndCheckRangeForBiasGoal(bagCounts->bagCounts14, 14, wide_target_range)) {
-                recommendedBias = 14;
-            } else if (bagAndCheckRangeForBiasGoal(bagCounts->bagCounts8, 8, wide_target_range)) {
-                recommendedBias = 8;
-            } else if (bagAndCheckRangeForBiasGoal(bagCounts->bagCounts4, 4, wide_target_range)) {
-                recommendedBias = 4;
-            } else if (bagAndCheckRangeForBiasGoal(bagCounts->bagCounts1, 1, wide_target_range)) {
-                recommendedBias = 1;
-            } else {
-                // we tried to fit, but we're left with the default
-                bag(bagCounts->bagCountsNegative4);
-                recommendedBias = -4;
-            }
-
+            // the candidates below group the values anew, and a narrow one lumps all values beyond its reach together
             const double half_range = wide_target_range / 2;
             if (bias_fit == FIT_BIAS_FOR_80) {
                 if (require_0_for_fit) {
@@ -185,6 +171,21 @@ namespace happyml {
                     recommendedOffset = (float) (eightyValues.at(0) + half_range);
                 }
             }
+
+//        cout << "wide range: " << wide_target_range << endl;
+            if (bagAndCheckRangeForBiasGoal(bagCounts->bagCounts14, 14, wide_target_range)) {
+                recommendedBias = 14;
+            } else if (bagAndCheckRangeForBiasGoal(bagCounts->bagCounts8, 8, wide_target_range)) {
+                recommendedBias = 8;
+            } else if (bagAndCheckRangeForBiasGoal(bagCounts->bagCounts4, 4, wide_target_range)) {
+                recommendedBias = 4;
+            } else if (bagAndCheckRangeForBiasGoal(bagCounts->bagCounts1, 1, wide_target_range)) {
+                recommendedBias = 1;
+            } else {
+                // we tried to fit, but we're left with the default
+                bag(bagCounts->bagCountsNegative4);
+                recommendedBias = -4;
+            }
 //        cout << "finished constructor" << endl;
         }
 
-- 
2.43.0


From ce7788a19840b73fbbce8e90d8f5cfa58c1e8884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 018/111] fix: text that only begins like a number was written
 without quotes

---
 src/training_data/data_encoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/training_data/data_encoder.hpp b/src/training_data/data_encoder.hpp
index f23d72d..0403239 100644
--- a/src/training_data/data_encoder.hpp
+++ b/src/training_data/data_encoder.hpp
@@ -64,7 +64,7 @@ namespace happyml {
     bool isFloat(const string &text) {
         float value = 0.0;
         auto [ptr, error_check] = std::from_chars(text.data(), text.data() + text.size(), value);
-        return error_check == std::errc();
+        return error_check == std::errc() && ptr == text.data() + text.size();
     }
 
     class HappyMLVariantEncoder {
-- 
2.43.0


From 4a03ec0f254c4952d749f50a1573c9c09da80716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 019/111] fix: doubled quotes in a delimited file were halved
 twice

---
 src/util/file_reader.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index 68beaa9..1bbe4d4 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -182,13 +182,8 @@ namespace happyml {
         }
 
         string decode(string &current_word) const {
+            // enclosing quotes are already gone and doubled quotes already single
             auto stripped_column = strip(current_word);
-            auto stripped_column_length = stripped_column.length();
-            if (stripped_column_length > 0 && stripped_column[0] == '"' &&
-                stripped_column[stripped_column_length - 1] == '"') {
-                stripped_column = stripped_column.substr(1, stripped_column_length - 2);
-            }
-            string_replace_all(stripped_column, "\"\"", "\"");
             stripped_column = TextEncoderDecoder::decodeString(stripped_column, delimiter_);
             return stripped_column;
         }
-- 
2.43.0


From b3868b2557513bb61548125b6281c2854badb8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 020/111] fix: a field of a single quote was written as an
 empty field

---
 src/util/file_writer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/file_writer.hpp b/src/util/file_writer.hpp
index 5f3d66b..7aa7f39 100644
--- a/src/util/file_writer.hpp
+++ b/src/util/file_writer.hpp
@@ -74,7 +74,7 @@ namespace happyml {
                 auto stripped_column = strip(column);
                 auto stripped_column_length = stripped_column.length();
                 if (stripped_column_length > 0) {
-                    if (stripped_column[0] == '\"' && stripped_column[stripped_column_length - 1] == '\"') {
+                    if (stripped_column_length > 1 && stripped_column[0] == '\"' && stripped_column[stripped_column_length - 1] == '\"') {
                         stripped_column = stripped_column.substr(1, stripped_column_length - 2);
                         string_replace_all(stripped_column, "\"", "\"\"");
                         auto encoded_column = TextEncoderDecoder::encodeString(stripped_column, delimiter_);
-- 
2.43.0


From eb4846d843d2af3d5026671f8587e7aab193fb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 021/111] fix: reading a folder stopped at the first empty file

---
 src/util/file_reader.hpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index 1bbe4d4..76d746d 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -74,22 +74,24 @@ namespace happyml {
                     if (getline(stream, line)) {
                         next_line = line;
                     } else {
-                        stream.close();
-                        current_file++;
-                        if (current_file < filenames.size()) {
+                        // move on to the next file that has a line left
+                        has_next = false;
+                        next_line = "";
+                        while (!has_next) {
+                            stream.close();
+                            current_file++;
+                            if (current_file >= filenames.size()) {
+                                break;
+                            }
+                            stream.clear();
                             stream.open(filenames[current_file]);
-                            if (skip_header) {
-                                skipHeader();
+                            if (skip_header && !getline(stream, line)) {
+                                continue;
                             }
                             if (getline(stream, line)) {
                                 next_line = line;
-                            } else {
-                                has_next = false;
-                                next_line = "";
+                                has_next = true;
                             }
-                        } else {
-                            has_next = false;
-                            next_line = "";
                         }
                     }
                 }
@@ -104,8 +106,8 @@ namespace happyml {
     private:
         void skipHeader() {
             string line;
-            if (!stream.is_open() || !getline(stream, line)) {
-                has_next = false;
+            if (stream.is_open()) {
+                getline(stream, line);
             }
         }
 
-- 
2.43.0


From a4d64c9b9b31fd4d71788fecfb6a1a299f2aae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 022/111] fix: reading text swallowed a character after <_ or
 <~

---
 src/util/text_encoder_decoder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/text_encoder_decoder.hpp b/src/util/text_encoder_decoder.hpp
index ba58896..9ad03f8 100644
--- a/src/util/text_encoder_decoder.hpp
+++ b/src/util/text_encoder_decoder.hpp
@@ -43,7 +43,7 @@ namespace happyml {
                         } else if (str[i] == '_') {
                             decoded << "<_";
                         } else {
-                            decoded << '<' << str[i];
+                            decoded << "<_" << str[i];
                         }
                     } else if (str[i] == '~' && i + 2 < str.size()) {
                         ++i;
@@ -54,7 +54,7 @@ namespace happyml {
                             decoded << '\n';
                             ++i; // Move past the '>'
                         } else {
-                            decoded << '<' << str[i];
+                            decoded << "<~" << str[i];
                         }
                     } else {
                         decoded << '<' << str[i];
-- 
2.43.0


From 7f8225a6b9ee6d6f7c01173f50a9ae69e394bd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 023/111] fix: text with something after a number was accepted
 as that number

---
 src/training_data/data_encoder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/training_data/data_encoder.hpp b/src/training_data/data_encoder.hpp
index 0403239..3276889 100644
--- a/src/training_data/data_encoder.hpp
+++ b/src/training_data/data_encoder.hpp
@@ -48,7 +48,7 @@ namespace happyml {
         float value = 0.0f;
         if (!text.empty()) {
             auto [ptr, error_check] = std::from_chars(text.data(), text.data() + text.size(), value);
-            if (error_check != std::errc()) {
+            if (error_check != std::errc() || ptr != text.data() + text.size()) {
                 string message = "Couldn't convert text to float: " + text;
                 throw runtime_error(message.c_str());
             }
@@ -58,7 +58,7 @@ namespace happyml {
 
     bool stringToFloat(const string &text, float &value) {
         auto [ptr, error_check] = std::from_chars(text.data(), text.data() + text.size(), value);
-        return error_check == std::errc();
+        return error_check == std::errc() && ptr == text.data() + text.size();
     }
 
     bool isFloat(const string &text) {
-- 
2.43.0


From bd0c63b91b923bc7128e9feb53f9dc1cc64042fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:10 +0000
Subject: [PATCH 024/111] fix: sorting a file without a folder in its path
 wrote to the root folder, and chunk files replaced others of the same name

---
 src/util/text_file_sorter.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/util/text_file_sorter.hpp b/src/util/text_file_sorter.hpp
index c124f9b..f87abcd 100644
--- a/src/util/text_file_sorter.hpp
+++ b/src/util/text_file_sorter.hpp
@@ -26,8 +26,6 @@ namespace happyml {
         // at least in the case where the given is in the file before the expected
         // values.
         static bool sort(const std::string &file_name, const std::string &result_file_name, bool has_header = true, int chunk_size = 10000, bool delete_duplicates = true) {
-            auto parent_path = std::filesystem::path(file_name).parent_path().string();
-
             std::ifstream input(file_name);
 
             if (!input.is_open()) {
@@ -52,7 +50,7 @@ namespace happyml {
                 if (lines.size() >= chunk_size) {
                     sort_chunk(lines);
 
-                    std::string chunk_path = parent_path + "/chunk_" + std::to_string(chunk_counter) + ".txt";
+                    std::string chunk_path = chunk_path_for(result_file_name, chunk_counter);
                     std::ofstream chunk_output(chunk_path);
                     chunk_paths.push_back(chunk_path);
                     for (const auto &sorted_line: lines) {
@@ -68,7 +66,7 @@ namespace happyml {
             if (!lines.empty()) {
                 sort_chunk(lines);
 
-                std::string chunk_path = parent_path + "/chunk_" + std::to_string(chunk_counter) + ".txt";
+                std::string chunk_path = chunk_path_for(result_file_name, chunk_counter);
                 std::ofstream chunk_output(chunk_path);
                 chunk_paths.push_back(chunk_path);
                 for (const auto &sorted_line: lines) {
@@ -79,7 +77,7 @@ namespace happyml {
             }
 
             input.close();
-            merge_chunks(parent_path, result_file_name, chunk_counter, header, has_header, delete_duplicates);
+            merge_chunks(result_file_name, chunk_counter, header, has_header, delete_duplicates);
             for (const auto &chunk_path: chunk_paths) {
                 std::filesystem::remove(chunk_path);
             }
@@ -87,18 +85,23 @@ namespace happyml {
         }
 
     private:
+        // named after the result, so that no other file is taken for a chunk and the result's own folder is used
+        static std::string chunk_path_for(const std::string &result_file_name, size_t chunk) {
+            return result_file_name + ".chunk_" + std::to_string(chunk);
+        }
+
         static void sort_chunk(std::vector<std::string> &lines) {
             std::sort(lines.begin(), lines.end());
         }
 
-        static void merge_chunks(const std::string &parent_path, const std::string &output_file, size_t num_chunks, const std::string &header, bool has_header, bool delete_duplicates) {
+        static void merge_chunks(const std::string &output_file, size_t num_chunks, const std::string &header, bool has_header, bool delete_duplicates) {
             auto line_comparator = [](const auto &a, const auto &b) { return a.first > b.first; };
             std::priority_queue<std::pair<std::string, std::ifstream *>, std::vector<std::pair<std::string, std::ifstream *>>, decltype(line_comparator)> min_heap(line_comparator);
 
             std::vector<std::ifstream> chunk_files(num_chunks);
 
             for (size_t i = 0; i < num_chunks; ++i) {
-                std::string chunk_path = parent_path + "/chunk_" + std::to_string(i) + ".txt";
+                std::string chunk_path = chunk_path_for(output_file, i);
 
                 chunk_files[i].open(chunk_path);
 
-- 
2.43.0


From a6c08d56b6ca208807a8918acd6bcb299a96d096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:50 +0000
Subject: [PATCH 025/111] fix: every column of a data set was rescaled with the
 first column's parameters

---
 src/util/file_reader.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index 76d746d..6ece919 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -263,19 +263,22 @@ namespace happyml {
                                                             renormalize_given_metadata_[given_offset]->mean, renormalize_given_metadata_[given_offset]->standard_deviation);
                 }
                 given_tensors.push_back(next_tensor);
+                given_offset++;
             }
             vector<shared_ptr<BaseTensor>> expected_tensors;
+            size_t expected_offset = 0;
             for (const auto &metadata: expected_metadata_) {
                 shared_ptr<BaseTensor> next_tensor = loadTensor(metadata);
                 if (!renormalize_expected_metadata_.empty()) {
                     next_tensor = renormalizeAndStandardize(next_tensor, metadata->is_normalized, metadata->is_standardized,
                                                             metadata->min_value, metadata->max_value,
                                                             metadata->mean, metadata->standard_deviation,
-                                                            renormalize_expected_metadata_[given_offset]->is_normalized, renormalize_expected_metadata_[given_offset]->is_standardized,
-                                                            renormalize_expected_metadata_[given_offset]->min_value, renormalize_expected_metadata_[given_offset]->max_value,
-                                                            renormalize_expected_metadata_[given_offset]->mean, renormalize_expected_metadata_[given_offset]->standard_deviation);
+                                                            renormalize_expected_metadata_[expected_offset]->is_normalized, renormalize_expected_metadata_[expected_offset]->is_standardized,
+                                                            renormalize_expected_metadata_[expected_offset]->min_value, renormalize_expected_metadata_[expected_offset]->max_value,
+                                                            renormalize_expected_metadata_[expected_offset]->mean, renormalize_expected_metadata_[expected_offset]->standard_deviation);
                 }
                 expected_tensors.push_back(next_tensor);
+                expected_offset++;
             }
             return {given_tensors, expected_tensors};
         }
-- 
2.43.0


From 4e980c894ace03bb71f9443544611ba4bf152606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:50 +0000
Subject: [PATCH 026/111] fix: records that differ only in very small numbers
 were dropped as duplicates

---
 src/util/file_writer.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/util/file_writer.hpp b/src/util/file_writer.hpp
index 7aa7f39..97408f1 100644
--- a/src/util/file_writer.hpp
+++ b/src/util/file_writer.hpp
@@ -251,9 +251,17 @@ namespace happyml {
             std::hash<string> hasher;
             size_t result = 0;
             for (const auto &next_tensor: given_tensors) {
-                stringstream ss;
-                next_tensor->print(ss);
-                result ^= hasher(ss.str()) + 0x9e3779b9 + (result << 6) + (result >> 2);
+                // all bits of every value, since printing makes very small values look alike
+                string content;
+                for (size_t channel = 0; channel < next_tensor->channelCount(); channel++) {
+                    for (size_t row = 0; row < next_tensor->rowCount(); row++) {
+                        for (size_t column = 0; column < next_tensor->columnCount(); column++) {
+                            const float value = next_tensor->getValue(row, column, channel);
+                            content.append(reinterpret_cast<const char *>(&value), sizeof(value));
+                        }
+                    }
+                }
+                result ^= hasher(content) + 0x9e3779b9 + (result << 6) + (result >> 2);
             }
             return result;
         }
-- 
2.43.0


From 51ccd2c2d23e0a0c972b60de707a3d4318838e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:50 +0000
Subject: [PATCH 027/111] fix: two parts of a split data set could share or
 miss a record

---
 src/training_data/training_dataset.hpp | 37 +++++++++++++-------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/training_data/training_dataset.hpp b/src/training_data/training_dataset.hpp
index fac1120..e6717d5 100644
--- a/src/training_data/training_dataset.hpp
+++ b/src/training_data/training_dataset.hpp
@@ -80,15 +80,7 @@ namespace happyml {
             }
             split_shuffler_ = make_shared<Shuffler>(reader_.rowCount());
             split_shuffler_->shuffle_predictably(); // shuffle once to make sure we have a fair distribution in case the original data was sorted.
-            if (split > 0) {
-                // left to right
-                first_record_offset_ = 0;
-                record_count_ = reader_.rowCount() * split;
-            } else {
-                // right to left
-                first_record_offset_ = reader_.rowCount() * (1.0f + split);
-                record_count_ = reader_.rowCount() - first_record_offset_;
-            }
+            select_split(split);
             current_offset_ = 0;
         }
 
@@ -98,15 +90,7 @@ namespace happyml {
             }
             split_shuffler_ = make_shared<Shuffler>(reader_.rowCount());
             split_shuffler_->shuffle_predictably(); // shuffle once to make sure we have a fair distribution in case the original data was sorted.
-            if (split > 0) {
-                // left to right
-                first_record_offset_ = 0;
-                record_count_ = reader_.rowCount() * split;
-            } else {
-                // right to left
-                first_record_offset_ = reader_.rowCount() * (1.0f + split);
-                record_count_ = reader_.rowCount() - first_record_offset_;
-            }
+            select_split(split);
             current_offset_ = 0;
         }
 
@@ -170,6 +154,23 @@ namespace happyml {
 
 
     private:
+        void select_split(float split) {
+            // The ratios are decimals that a float only approximates, so one part and the
+            // part that complements it must not be cut at different records by rounding.
+            const double ratio = split > 0 ? split : 1.0 + (double) split;
+            const double cut = (double) reader_.rowCount() * (std::round(ratio * 1e6) / 1e6);
+            const size_t cut_offset = std::min(reader_.rowCount(), (size_t) std::floor(cut + 1e-9));
+            if (split > 0) {
+                // left to right
+                first_record_offset_ = 0;
+                record_count_ = cut_offset;
+            } else {
+                // right to left
+                first_record_offset_ = cut_offset;
+                record_count_ = reader_.rowCount() - first_record_offset_;
+            }
+        }
+
         BinaryDatasetReader reader_;
         size_t current_offset_ = 0;
         size_t first_record_offset_ = 0;
-- 
2.43.0


From 68c5d7fd4904c796a28c943947f40a4bfe5e5467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:38 +0000
Subject: [PATCH 028/111] fix: undoing standardization or normalization with a
 zero deviation or range lost the values

---
 src/types/tensor_views/denormalize_tensor_view.hpp   | 4 ++++
 src/types/tensor_views/unstandardize_tensor_view.hpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/types/tensor_views/denormalize_tensor_view.hpp b/src/types/tensor_views/denormalize_tensor_view.hpp
index 0c5376d..92472ee 100644
--- a/src/types/tensor_views/denormalize_tensor_view.hpp
+++ b/src/types/tensor_views/denormalize_tensor_view.hpp
@@ -15,6 +15,10 @@ namespace happyml {
         explicit DenormalizeTensorView(const std::shared_ptr<BaseTensor> &tensor, float min_val, float max_val)
                 : BaseTensorUnaryOperatorView(tensor), min_val_(min_val), max_val_(max_val) {
             val_range_ = max_val_ - min_val_;
+            // as normalizing does
+            if (val_range_ == 0) {
+                val_range_ = 1.0f;
+            }
         }
 
         float getValue(size_t row, size_t column, size_t channel) override {
diff --git a/src/types/tensor_views/unstandardize_tensor_view.hpp b/src/types/tensor_views/unstandardize_tensor_view.hpp
index 755d402..c02d071 100644
--- a/src/types/tensor_views/unstandardize_tensor_view.hpp
+++ b/src/types/tensor_views/unstandardize_tensor_view.hpp
@@ -13,6 +13,10 @@ namespace happyml {
     public:
         explicit UnstandardizeTensorView(const shared_ptr<BaseTensor> &tensor, float mean, float std_dev)
                 : BaseTensorUnaryOperatorView(tensor), mean_(mean), std_dev_(std_dev) {
+            // as standardizing does
+            if (std_dev_ == 0) {
+                std_dev_ = 1.0f;
+            }
         }
 
         float getValue(size_t row, size_t column, size_t channel) override {
-- 
2.43.0


From dcb07b21912bcc9ea6363c6d9aad71b155534199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:38 +0000
Subject: [PATCH 029/111] fix: standardized columns were normalized with the
 range of the values before standardizing, losing precision

---
 src/util/dataset_utils.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index c246212..35babf0 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -173,6 +173,14 @@ namespace happyml {
         return next_metadata;
     }
 
+    // Normalizing comes after standardizing, so the range has to be the range of the standardized values.
+    void use_standardized_range(const shared_ptr<BinaryColumnMetadata> &metadata) {
+        if (metadata->is_standardized) {
+            metadata->min_value = (metadata->min_value - metadata->mean) / metadata->standard_deviation;
+            metadata->max_value = (metadata->max_value - metadata->mean) / metadata->standard_deviation;
+        }
+    }
+
     void normalize_and_standardize_dataset(const string &raw_binary_file,
                                            const string &dataset_path) {
 
@@ -239,6 +247,7 @@ namespace happyml {
                     given_metadata[i]->is_normalized = is_numeric_value;
                     given_metadata[i]->min_value = (float) given_standardization_values[i]->min_value;
                     given_metadata[i]->max_value = (float) given_standardization_values[i]->max_value;
+                    use_standardized_range(given_metadata[i]);
                 }
             }
             if (expected_has_numbers) {
@@ -250,6 +259,7 @@ namespace happyml {
                     expected_metadata[i]->is_normalized = is_numeric_value;
                     expected_metadata[i]->min_value = (float) expected_standardization_values[i]->min_value;
                     expected_metadata[i]->max_value = (float) expected_standardization_values[i]->max_value;
+                    use_standardized_range(expected_metadata[i]);
                 }
             }
         }
-- 
2.43.0


From 959019f256439262dd4d525463f9457e15f5185b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:37 +0000
Subject: [PATCH 030/111] fix: column groups overlapping in one column were not
 refused

---
 src/util/dataset_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index 35babf0..b083a9f 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -31,7 +31,7 @@ namespace happyml {
 
             size_t prev_endIndex = prev->start_index_ + prev->source_column_count_ - 1;
 
-            if (prev_endIndex > curr->start_index_) {
+            if (prev_endIndex >= curr->start_index_) {
                 return true;
             }
         }
-- 
2.43.0


From 8af0089e88e84ce0ff00fe3a9715101ecc729954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:37 +0000
Subject: [PATCH 031/111] fix: creating a data set from records with too few
 columns read past their end

---
 src/training_data/training_dataset.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/training_data/training_dataset.hpp b/src/training_data/training_dataset.hpp
index e6717d5..af15aa4 100644
--- a/src/training_data/training_dataset.hpp
+++ b/src/training_data/training_dataset.hpp
@@ -345,11 +345,17 @@ namespace happyml {
             auto record = reader.nextRecord();
             vector<string> new_record;
             for (const auto &column: given_columns) {
+                if (column->start_index_ + column->source_column_count_ > record.size()) {
+                    throw runtime_error("Record " + to_string(records_updated) + " only has " + to_string(record.size()) + " columns.");
+                }
                 for (size_t i = 0; i < column->source_column_count_; i++) {
                     new_record.push_back(record[column->start_index_ + i]);
                 }
             }
             for (const auto &column: expected_columns) {
+                if (column->start_index_ + column->source_column_count_ > record.size()) {
+                    throw runtime_error("Record " + to_string(records_updated) + " only has " + to_string(record.size()) + " columns.");
+                }
                 for (size_t i = 0; i < column->source_column_count_; i++) {
                     new_record.push_back(record[column->start_index_ + i]);
                 }
-- 
2.43.0


From a9dc8cd51c79bfa8304b929f9faf7ea238a8185e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:37 +0000
Subject: [PATCH 032/111] fix: data sets could not be created from text and
 tab-separated files, and doing so overwrote a csv file of the same name

---
 src/lang/statements/create_dataset_statement.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lang/statements/create_dataset_statement.hpp b/src/lang/statements/create_dataset_statement.hpp
index 8eda412..3746a68 100644
--- a/src/lang/statements/create_dataset_statement.hpp
+++ b/src/lang/statements/create_dataset_statement.hpp
@@ -101,16 +101,19 @@ namespace happyml {
             string file_extension = location_.substr(last_period_offset + 1);
             auto index_of_start_of_file_name = location_.find("://") + 3;
             string base_file_path = location_.substr(index_of_start_of_file_name, last_period_offset - index_of_start_of_file_name);
+            string source_path = location_.substr(index_of_start_of_file_name);
             string current_location = base_file_path + ".csv";
             bool has_header = has_header_;
             if (file_extension == "txt") {
                 has_header = false;
-                if (!convert_txt_to_csv(location_, current_location, 4000)) {
+                current_location = base_file_path + ".txt.csv";
+                if (!convert_txt_to_csv(source_path, current_location, 4000)) {
                     return make_shared<ExecutionResult>(false, false,
                                                         "Could not open source or destination file to convert text to csv.");
                 }
             } else if (file_extension == "tsv") {
-                if (!convert_tsv_to_csv(location_, current_location)) {
+                current_location = base_file_path + ".tsv.csv";
+                if (!convert_tsv_to_csv(source_path, current_location)) {
                     return make_shared<ExecutionResult>(false, false,
                                                         "Could not open source or destination file to convert tsv to csv.");
                 }
@@ -161,6 +164,10 @@ namespace happyml {
                 return make_shared<ExecutionResult>(false, false,
                                                     "Empty dataset");
             }
+            if (current_location != source_path && !filesystem::remove(current_location)) {
+                return make_shared<ExecutionResult>(false, false,
+                                                    "Could not remove the converted file.");
+            }
 
             if(verbose_) {
                 cout << "Sorting. This aids in deduping." << endl;
-- 
2.43.0


From c40928612f912855011b406531fbbf5d7db0455e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:49 +0000
Subject: [PATCH 033/111] fix: a record of a single empty field was written as
 an empty line and lost by sorting

---
 src/util/file_writer.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util/file_writer.hpp b/src/util/file_writer.hpp
index 97408f1..c408b11 100644
--- a/src/util/file_writer.hpp
+++ b/src/util/file_writer.hpp
@@ -90,7 +90,12 @@ namespace happyml {
                 currentDelimiter = delimiter_;
             }
 
-            line_writer_.writeLine(combinedRecord.str());
+            auto line = combinedRecord.str();
+            if (line.empty() && !record.empty()) {
+                // an empty line would not be recognized as a record
+                line = "\"\"";
+            }
+            line_writer_.writeLine(line);
         }
 
         bool is_open() {
-- 
2.43.0


From 9345f402f39e583a265654a4319a322d94e33977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:34 +0000
Subject: [PATCH 034/111] fix: values supplied to a task were encoded with rows
 and columns exchanged, pixels unscaled and counts unchecked

---
 src/training_data/data_encoder.hpp | 55 ++++++++++++++++--------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/src/training_data/data_encoder.hpp b/src/training_data/data_encoder.hpp
index 3276889..5e00fd8 100644
--- a/src/training_data/data_encoder.hpp
+++ b/src/training_data/data_encoder.hpp
@@ -78,14 +78,16 @@ namespace happyml {
         std::shared_ptr<BaseTensor> encode(const std::vector<HappyMLVariant> &text) {
             // purpose: 'I' (image), 'T' (text), 'N' (number), 'L' (label)
             if (metadata->purpose == 'I') {
+                require_count(text, metadata->rows * metadata->columns * metadata->channels);
                 std::vector<std::vector<std::vector<float>>> floats;
                 floats.resize(metadata->channels);
+                size_t offset = 0;
                 for (size_t channel = 0; channel < metadata->channels; channel++) {
-                    floats[channel].resize(metadata->columns);
-                    for (size_t column = 0; column < metadata->columns; column++) {
-                        floats[channel][column].resize(metadata->rows);
-                        for (size_t row = 0; row < metadata->rows; row++) {
-                            floats[channel][column][row] = text[channel * metadata->columns * metadata->rows + column * metadata->rows + row].as_float();
+                    floats[channel].resize(metadata->rows);
+                    for (size_t row = 0; row < metadata->rows; row++) {
+                        floats[channel][row].resize(metadata->columns);
+                        for (size_t column = 0; column < metadata->columns; column++) {
+                            floats[channel][row][column] = text[offset++].as_float() / 255.f;
                         }
                     }
                 }
@@ -93,14 +95,16 @@ namespace happyml {
             } else if (metadata->purpose == 'T') {
                 throw runtime_error("Text encoding not implemented yet.");
             } else if (metadata->purpose == 'N') {
+                require_count(text, metadata->rows * metadata->columns * metadata->channels);
                 std::vector<std::vector<std::vector<float>>> floats;
                 floats.resize(metadata->channels);
+                size_t offset = 0;
                 for (size_t channel = 0; channel < metadata->channels; channel++) {
-                    floats[channel].resize(metadata->columns);
-                    for (size_t column = 0; column < metadata->columns; column++) {
-                        floats[channel][column].resize(metadata->rows);
-                        for (size_t row = 0; row < metadata->rows; row++) {
-                            floats[channel][column][row] = text[channel * metadata->columns * metadata->rows + column * metadata->rows + row].as_float();
+                    floats[channel].resize(metadata->rows);
+                    for (size_t row = 0; row < metadata->rows; row++) {
+                        floats[channel][row].resize(metadata->columns);
+                        for (size_t column = 0; column < metadata->columns; column++) {
+                            floats[channel][row][column] = text[offset++].as_float();
                         }
                     }
                 }
@@ -113,12 +117,15 @@ namespace happyml {
                 }
                 return base_tensor;
             } else if (metadata->purpose == 'L') {
+                // one row per value, as in a data set
+                require_count(text, metadata->rows);
+                vector<vector<vector<float>>> result(1);
                 for (const auto &next_text: text) {
-                    size_t column_offset = 0;
+                    vector<float> row(metadata->columns, 0.f);
                     bool found = false;
-                    for (size_t i = 0; i < metadata->ordered_labels.size(); i++) {
+                    for (size_t i = 0; i < metadata->ordered_labels.size() && i < row.size(); i++) {
                         if (metadata->ordered_labels[i] == next_text.to_string()) {
-                            column_offset = i;
+                            row[i] = 1.f;
                             found = true;
                             break;
                         }
@@ -127,20 +134,9 @@ namespace happyml {
                         string error_message = "Unknown label " + next_text.to_string() + " for column: " + metadata->name;
                         throw runtime_error(error_message);
                     }
-                    vector<vector<vector<float>>> result;
-                    result.resize(metadata->channels);
-                    for (size_t channel = 0; channel < metadata->channels; channel++) {
-                        result[channel].resize(metadata->columns);
-                        for (size_t column = 0; column < metadata->columns; column++) {
-                            result[channel][column].resize(metadata->rows);
-                            for (size_t row = 0; row < metadata->rows; row++) {
-                                result[channel][column][row] = column == column_offset ? 1.f : 0.f;
-                            }
-                        }
-                    }
-
-                    return tensor(result);
+                    result[0].push_back(row);
                 }
+                return tensor(result);
             }
             string error_message = "Unknown purpose " + string(1, metadata->purpose) + " for column: " + metadata->name;
             throw runtime_error(error_message);
@@ -148,6 +144,13 @@ namespace happyml {
 
     private:
         shared_ptr<BinaryColumnMetadata> metadata;
+
+        void require_count(const std::vector<HappyMLVariant> &values, size_t count) {
+            if (values.size() != count) {
+                string error_message = "Expected " + std::to_string(count) + " values but got " + std::to_string(values.size()) + " for column: " + metadata->name;
+                throw runtime_error(error_message);
+            }
+        }
     };
 
     class DataEncoder {
-- 
2.43.0


From 33bc1aaf0cd416c4f98a2d2e02fd7f67c0496314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:34 +0000
Subject: [PATCH 035/111] fix: encoding too few values read past their end

---
 src/training_data/data_encoder.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/training_data/data_encoder.hpp b/src/training_data/data_encoder.hpp
index 5e00fd8..13727da 100644
--- a/src/training_data/data_encoder.hpp
+++ b/src/training_data/data_encoder.hpp
@@ -162,6 +162,13 @@ namespace happyml {
     };
 
 
+    void require_word_count(const vector<string> &words, size_t count) {
+        if (words.size() != count) {
+            string message = "Expected " + to_string(count) + " values to encode but got " + to_string(words.size());
+            throw runtime_error(message.c_str());
+        }
+    }
+
     class TextToPixelEncoder : public DataEncoder {
     public:
         shared_ptr<BaseTensor> encode(const vector<string> &words,
@@ -171,6 +178,7 @@ namespace happyml {
             // TODO: I think I could make a FullTensor constructor that steals the memory we are allocating here.
             // TODO: I could also make a PixelTensor that steals the memory of a vector using a uint_8.
             // Of course, then I'll need a string_to_uint_8() method.
+            require_word_count(words, rows * columns * channels);
             vector<vector<vector<float>>> result;
             result.resize(channels);
             size_t offset = 0;
@@ -198,6 +206,7 @@ namespace happyml {
     public:
         shared_ptr<BaseTensor> encode(const vector<string> &words,
                                       size_t rows, size_t columns, size_t channels, bool trim) override {
+            require_word_count(words, rows * columns * channels);
             vector<vector<vector<float>>> result;
             result.resize(channels);
             size_t offset = 0;
-- 
2.43.0


From ecf24c82838b8ba90b02c9ba80f1ba5b31afcac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:34 +0000
Subject: [PATCH 036/111] fix: an unknown label was not reported with a message

---
 src/training_data/data_encoder.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/training_data/data_encoder.hpp b/src/training_data/data_encoder.hpp
index 13727da..5b77b33 100644
--- a/src/training_data/data_encoder.hpp
+++ b/src/training_data/data_encoder.hpp
@@ -267,12 +267,13 @@ namespace happyml {
 
             size_t row_offset = 0;
             for (const auto &word: words) {
-                size_t column_offset;
-                if (trim) {
-                    column_offset = categoryMapping.at(strip(word));
-                } else {
-                    column_offset = categoryMapping.at(word);
+                const string label = trim ? strip(word) : word;
+                const auto mapping = categoryMapping.find(label);
+                if (mapping == categoryMapping.end()) {
+                    string message = "Unknown label: " + label;
+                    throw runtime_error(message.c_str());
                 }
+                const size_t column_offset = mapping->second;
                 if (row_offset >= rows) {
                     throw runtime_error("mapping returned an out of bounds index for rows.");
                 }
-- 
2.43.0


From 5e3fe022a26e8e3b8aed46d730612cc2b60cf829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:34 +0000
Subject: [PATCH 037/111] fix: text with something after a number was accepted
 as a task's input

---
 src/lang/happyml_variant.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/lang/happyml_variant.hpp b/src/lang/happyml_variant.hpp
index 5a6e281..3ee3fe1 100644
--- a/src/lang/happyml_variant.hpp
+++ b/src/lang/happyml_variant.hpp
@@ -6,6 +6,8 @@
 #ifndef HAPPYML_HAPPYML_VARIANT_HPP
 #define HAPPYML_HAPPYML_VARIANT_HPP
 
+#include <charconv>
+#include <cctype>
 #include <string>
 
 namespace happyml {
@@ -85,12 +87,22 @@ namespace happyml {
             } else if (type_ == Type::INT) {
                 return static_cast<float>(int_value_);
             } else if (type_ == Type::STRING) {
-                try {
-                    return std::stof(string_value_);
-                } catch (std::exception &e) {
+                // as numbers in a data set: blanks around it do not matter, but anything else does
+                const char *first = string_value_.data();
+                const char *last = first + string_value_.size();
+                while (first < last && std::isspace((unsigned char) *first)) {
+                    first++;
+                }
+                while (last > first && std::isspace((unsigned char) *(last - 1))) {
+                    last--;
+                }
+                float value = 0.0f;
+                auto [end, error_check] = std::from_chars(first, last, value);
+                if (error_check != std::errc() || end != last) {
                     string error = "Cannot convert to float: " + string_value_;
                     throw std::runtime_error(error);
                 }
+                return value;
             } else if (type_ == Type::BOOL) {
                 return bool_value_ ? 1.0f : 0.0f;
             } else {
-- 
2.43.0


From b0822e347d3f86521a7d5da2e21595d58f8bac97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:34 +0000
Subject: [PATCH 038/111] fix: decoding the top labels of a tensor with more
 columns than labels read past the labels

---
 src/training_data/data_decoder.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/training_data/data_decoder.hpp b/src/training_data/data_decoder.hpp
index a3ed2d9..285527a 100644
--- a/src/training_data/data_decoder.hpp
+++ b/src/training_data/data_decoder.hpp
@@ -128,6 +128,10 @@ namespace happyml {
             vector<string> result;
             result.reserve(categoryIndex.size());
             for (const auto &index: categoryIndex) {
+                if (index.getIndex() >= categoryLabels_.size()) {
+                    string message = "Category index out of bounds: " + to_string(index.getIndex());
+                    throw runtime_error(message);
+                }
                 result.push_back(categoryLabels_[index.getIndex()]);
             }
             return result;
-- 
2.43.0


From 9008fa6ab092721ed8ff781add8ed9f5d896d9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:52 +0000
Subject: [PATCH 039/111] fix: bytes from 128 up were encoded as codes outside
 of the vocabulary

---
 src/ml/byte_pair_encoder.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ml/byte_pair_encoder.hpp b/src/ml/byte_pair_encoder.hpp
index 1ed6c8e..5c0c3a1 100644
--- a/src/ml/byte_pair_encoder.hpp
+++ b/src/ml/byte_pair_encoder.hpp
@@ -85,13 +85,15 @@ namespace happyml {
             if (token.empty()) {
                 return {};
             }
-            u16string const text16bit(token.begin(), token.end());
             // looks simpler, but we need to optimize:
             // u16string encoded = delimiter_ + text16bit + delimiter_;
             u16string encoded;
-            encoded.reserve(delimiter_.size() * 2 + text16bit.size());
+            encoded.reserve(delimiter_.size() * 2 + token.size());
             encoded += delimiter_;
-            encoded += text16bit;
+            for (const char character: token) {
+                // char may be signed, but the codes of single bytes are 0 to 255
+                encoded.push_back(static_cast<unsigned char>(character));
+            }
             encoded += delimiter_;
             shared_ptr<u16string> buffer = make_shared<u16string>();
             shared_ptr<u16string> encoded_ptr = make_shared<u16string>(std::move(encoded));
-- 
2.43.0


From 945fa4b9fc38cb441071f9dc7ccf4aa98380e14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:52 +0000
Subject: [PATCH 040/111] fix: training on an empty token read past its end

---
 src/ml/byte_pair_encoder.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ml/byte_pair_encoder.hpp b/src/ml/byte_pair_encoder.hpp
index 5c0c3a1..09603a7 100644
--- a/src/ml/byte_pair_encoder.hpp
+++ b/src/ml/byte_pair_encoder.hpp
@@ -453,7 +453,7 @@ namespace happyml {
                 // in a more compact vocabulary the second call to train()
                 // It LOOKS like it works, which is why I'm leaving it in.
                 u16string line16 = encode(token);
-                for (size_t i = 0; i < line16.size() - 1; ++i) {
+                for (size_t i = 0; i + 1 < line16.size(); ++i) {
                     u16string const pair = u16string(1, line16[i]) + u16string(1, line16[i + 1]);
                     // If the character pair is already in the vocab unordered_map, increment its frequency; otherwise, add it to the vocab unordered_map with a frequency of 1.
                     auto exiting_entry = vocab.find(
@@ -621,7 +621,7 @@ namespace happyml {
                     char c = buffer[i];
                     append_character(c, last_char, token, [&vocab, this](const std::string &new_token) {
                         u16string line16 = this->encode(new_token);
-                        for (size_t i = 0; i < line16.size() - 1; ++i) {
+                        for (size_t i = 0; i + 1 < line16.size(); ++i) {
                             u16string const pair = u16string(1, line16[i]) + u16string(1, line16[i + 1]);
                             auto existing_entry = vocab.find(pair);
                             if (existing_entry != vocab.end()) {
@@ -637,7 +637,7 @@ namespace happyml {
             // Process any remaining data after the buffer read
             if (!token.empty()) {
                 u16string line16 = encode(token);
-                for (size_t i = 0; i < line16.size() - 1; ++i) {
+                for (size_t i = 0; i + 1 < line16.size(); ++i) {
                     u16string const pair = u16string(1, line16[i]) + u16string(1, line16[i + 1]);
                     auto existing_entry = vocab.find(pair);
                     if (existing_entry != vocab.end()) {
-- 
2.43.0


From 44db42c373ff7d220cfaed69c26a6ed7d8be2aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:52 +0000
Subject: [PATCH 041/111] fix: training learned a merge when asked for none

---
 src/ml/byte_pair_encoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/byte_pair_encoder.hpp b/src/ml/byte_pair_encoder.hpp
index 09603a7..77d602a 100644
--- a/src/ml/byte_pair_encoder.hpp
+++ b/src/ml/byte_pair_encoder.hpp
@@ -295,7 +295,7 @@ namespace happyml {
             size_t merge_count = 0;
             int no_improvement_counter = 0;
             ElapsedTimer mergeTimer;
-            while (!vocab.empty() && (merge_count < 1 || merge_count < num_merges)) {
+            while (!vocab.empty() && (num_merges < 0 || merge_count < (size_t) num_merges)) {
                 auto most_frequent = findMostFrequentPair(vocab, min_frequency);
                 if (most_frequent.second == 0) {
                     break;
-- 
2.43.0


From a5463ac95ce9d906f6af68a9894e2df867a8e6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:52 +0000
Subject: [PATCH 042/111] fix: training a full tokenizer again used the
 reserved code

---
 src/ml/byte_pair_encoder.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/ml/byte_pair_encoder.hpp b/src/ml/byte_pair_encoder.hpp
index 77d602a..5b948d0 100644
--- a/src/ml/byte_pair_encoder.hpp
+++ b/src/ml/byte_pair_encoder.hpp
@@ -296,6 +296,13 @@ namespace happyml {
             int no_improvement_counter = 0;
             ElapsedTimer mergeTimer;
             while (!vocab.empty() && (num_merges < 0 || merge_count < (size_t) num_merges)) {
+                // 32,767 codes is the limit of the current implementation
+                if (next_code_ > max_code) {
+                    if (show_progress_) {
+                        cout << "Exiting early because Current Code hit the limit of " << max_code << "." << endl;
+                    }
+                    break;
+                }
                 auto most_frequent = findMostFrequentPair(vocab, min_frequency);
                 if (most_frequent.second == 0) {
                     break;
@@ -343,14 +350,6 @@ namespace happyml {
 
                 next_code_++;
                 merge_count++;
-
-                // 32,767 codes is the limit of the current implementation
-                if (next_code_ >= max_code) {
-                    if (show_progress_) {
-                        cout << "Exiting early because Current Code hit the limit of " << max_code << "." << endl;
-                    }
-                    break;
-                }
             }
             vector<pair<u16string, u16string>> ordered_bpe_codes(bpe_codes.begin(), bpe_codes.end());
             sort(ordered_bpe_codes.begin(), ordered_bpe_codes.end(),
-- 
2.43.0


From 401a03710aa5ca5771741b76a31a02d696d594a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:52 +0000
Subject: [PATCH 043/111] fix: a loaded tokenizer reported too small a largest
 code and kept codes it had before

---
 src/ml/byte_pair_encoder.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ml/byte_pair_encoder.hpp b/src/ml/byte_pair_encoder.hpp
index 5b948d0..56bd77c 100644
--- a/src/ml/byte_pair_encoder.hpp
+++ b/src/ml/byte_pair_encoder.hpp
@@ -558,6 +558,7 @@ namespace happyml {
             uint16_t delimiter_code = 0;
             file.read(reinterpret_cast<char *>(&delimiter_code), sizeof(delimiter_code));
             setDelimiterCode(delimiter_code);
+            ordered_bpe_codes_.clear();
 
             while (!file.eof()) {
                 pair<u16string, u16string> code_pair;
@@ -575,6 +576,9 @@ namespace happyml {
                 }
 
                 if (!file.eof()) {
+                    uint16_t const next = std::max(find_max_16bit_value(code_pair.first),
+                                                   find_max_16bit_value(code_pair.second)) + 1;
+                    next_code_ = std::max(next, next_code_);
                     ordered_bpe_codes_.push_back(std::move(code_pair));
                 }
             }
-- 
2.43.0


From 4ce794e24d540fc160fa5aa610a0ed6ebbe4cea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:52 +0000
Subject: [PATCH 044/111] fix: training a tokenizer on a file again built on
 codes it then dropped

---
 src/ml/byte_pair_encoder.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ml/byte_pair_encoder.hpp b/src/ml/byte_pair_encoder.hpp
index 56bd77c..1aa81a5 100644
--- a/src/ml/byte_pair_encoder.hpp
+++ b/src/ml/byte_pair_encoder.hpp
@@ -134,6 +134,7 @@ namespace happyml {
             unordered_map<u16string, size_t> vocab;
             std::ifstream file(filename);
             if (file.is_open()) {
+                forget_training();
                 buildVocab(file, show_progress_, vocab);
                 file.close();
             } else {
@@ -168,6 +169,7 @@ namespace happyml {
                     files_found = true;
                 }
             }
+            forget_training();
             unordered_map<u16string, size_t> vocab;
             for (const auto &file_path: file_paths) {
                 file_count++;
@@ -603,6 +605,11 @@ namespace happyml {
             next_code_ = delimiter_code_ + 1;
         }
 
+        void forget_training() {
+            ordered_bpe_codes_.clear();
+            next_code_ = delimiter_code_ + 1;
+        }
+
         void buildVocab(std::ifstream &file, bool show_progress, unordered_map<u16string, size_t> &vocab) {
             std::string token;
             char last_char = 0;
-- 
2.43.0


From 7f9b7eb3b8c813a22594f1a072b87b61cdaad104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:11 +0000
Subject: [PATCH 045/111] fix: one-hot encoding the code equal to the largest
 wrote past the end

---
 src/util/one_hot_encoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/one_hot_encoder.hpp b/src/util/one_hot_encoder.hpp
index 0caf61a..30ff25e 100644
--- a/src/util/one_hot_encoder.hpp
+++ b/src/util/one_hot_encoder.hpp
@@ -39,7 +39,7 @@ namespace happyml {
         for (const auto &token: tokens) {
             for (const auto &c: token) {
                 vector<float> encoded_chars(largest_bpe_code, 0.0);
-                if (c <= largest_bpe_code) {
+                if (c < largest_bpe_code) {
                     encoded_chars[c] = 1.0;
                 }
                 encoded_tokens.push_back(encoded_chars);
-- 
2.43.0


From 57c8516daac2cd142dda35e4c6c49e00e50a63c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:11 +0000
Subject: [PATCH 046/111] fix: one-hot encoding a character from 128 up wrote
 out of bounds

---
 src/util/one_hot_encoder.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util/one_hot_encoder.hpp b/src/util/one_hot_encoder.hpp
index 30ff25e..6a4965a 100644
--- a/src/util/one_hot_encoder.hpp
+++ b/src/util/one_hot_encoder.hpp
@@ -56,7 +56,11 @@ namespace happyml {
         for (const auto &token: tokens) {
             for (const auto &c: token) {
                 vector<float> encoded_chars(255, 0.0);
-                encoded_chars[c] = 1.0;
+                // char may be signed. As with unknown tokens, a character without a position is all zeroes.
+                const auto code = (size_t) static_cast<unsigned char>(c);
+                if (code < encoded_chars.size()) {
+                    encoded_chars[code] = 1.0;
+                }
                 encoded_tokens.push_back(encoded_chars);
             }
         }
-- 
2.43.0


From e4eab5879b256ded2aab296366fd860f1075d396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:11 +0000
Subject: [PATCH 047/111] fix: inserting a key that was cached already evicted
 others

---
 src/util/lru_cache.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/util/lru_cache.h b/src/util/lru_cache.h
index 08b50dd..1087423 100644
--- a/src/util/lru_cache.h
+++ b/src/util/lru_cache.h
@@ -22,6 +22,14 @@ namespace happyml {
         }
 
         void insert(const Key &key, const Value &value) {
+            auto existing = cache_map_.find(key);
+            if (existing != cache_map_.end()) {
+                // The key is only moved to the front of the list
+                lru_list_.erase(existing->second.second);
+                lru_list_.push_front(key);
+                existing->second = {value, lru_list_.begin()};
+                return;
+            }
             if (cache_map_.size() >= capacity_) {
                 // Remove the least recently used entry
                 Key least_recent = lru_list_.back();
-- 
2.43.0


From 8f2f13198bd40bfd1f681fc3d970ef1f5133b8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:24 +0000
Subject: [PATCH 048/111] fix: a script that ends in the middle of a statement
 is rejected with a message instead of ending the session

---
 src/lang/parser/parser.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lang/parser/parser.hpp b/src/lang/parser/parser.hpp
index b3631b5..b02b21b 100644
--- a/src/lang/parser/parser.hpp
+++ b/src/lang/parser/parser.hpp
@@ -35,7 +35,16 @@ namespace happyml {
 
             // cout << "Lexer: " << lexResult->getMessage() << endl << lexResult->getMatchStream()->render() << endl;
             // then build parsed result.
-            return parseCodeBlock(lexResult->getMatchStream());
+            auto stream = lexResult->getMatchStream();
+            try {
+                return parseCodeBlock(stream);
+            } catch (const exception &e) {
+                // the script ended in the middle of a statement or a number couldn't be represented.
+                if (stream->previous() == nullptr) {
+                    return make_shared<ParseResult>(e.what(), false);
+                }
+                return generateError("Incomplete or malformed statement (" + string(e.what()) + ") at: ", stream->previous());
+            }
         }
 
     private:
-- 
2.43.0


From 5e4aa4d4c44ae312400ee11c453a70369ee4f2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:24 +0000
Subject: [PATCH 049/111] fix: a statement that fails with an exception is
 reported and leaves the session usable

---
 src/lang/interpreter.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lang/interpreter.hpp b/src/lang/interpreter.hpp
index 48d35d3..ee58493 100644
--- a/src/lang/interpreter.hpp
+++ b/src/lang/interpreter.hpp
@@ -36,13 +36,17 @@ namespace happyml {
             // but we won't do it here because we don't know if the session
             // state would impact how it made its prediction.
             auto executable = parseResult->getExecutable();
-            auto result = executable->execute(executionContext);
-            // TODO: handle errors
-            if (!result->isSuccessful()) {
-                // print error
-                cerr << result->getMessage() << endl;
+            try {
+                auto result = executable->execute(executionContext);
+                if (!result->isSuccessful()) {
+                    // print error
+                    cerr << result->getMessage() << endl;
+                }
+                return result->exitRequested();
+            } catch (const exception &e) {
+                cerr << "Failed to execute: " << e.what() << endl;
+                return false;
             }
-            return result->exitRequested();
         }
 
         bool interpretFile(const string &filePath) {
-- 
2.43.0


From 315cb81bb6828ddadf8ebe99a5fb4eac8e548315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:24 +0000
Subject: [PATCH 050/111] fix: an empty line at the prompt does not look at the
 character before the line

---
 src/lang/interpreter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/interpreter.hpp b/src/lang/interpreter.hpp
index ee58493..3a2fd96 100644
--- a/src/lang/interpreter.hpp
+++ b/src/lang/interpreter.hpp
@@ -79,7 +79,7 @@ namespace happyml {
             cout << "> ";
             while (std::getline(std::cin, nextLine)) {
                 nextLine = trimEnd(nextLine);
-                if (nextLine.back() == '\\') {
+                if (!nextLine.empty() && nextLine.back() == '\\') {
                     // Remove the backslash and add the line to the buffer
                     nextLine.pop_back();
                     fullLine += nextLine + '\n';
-- 
2.43.0


From 536317eec72e3ccdf7c149a949e9c022a2effd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:24 +0000
Subject: [PATCH 051/111] fix: a script file that cannot be read is reported

---
 src/lang/interpreter.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lang/interpreter.hpp b/src/lang/interpreter.hpp
index 3a2fd96..299055e 100644
--- a/src/lang/interpreter.hpp
+++ b/src/lang/interpreter.hpp
@@ -54,6 +54,10 @@ namespace happyml {
             try {
                 ifstream stream;
                 stream.open(filePath, ifstream::in);
+                if (!stream.is_open()) {
+                    cerr << "Failed to load: " << filePath << endl;
+                    return false;
+                }
                 stringstream fullText;
                 fullText << stream.rdbuf();
                 try {
-- 
2.43.0


From 1aa621381109071cdb01d3469909791b986017f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:24 +0000
Subject: [PATCH 052/111] fix: nothing runs after exit, and exit is not
 forgotten when other statements follow it

---
 src/lang/statements/code_block_statement.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/statements/code_block_statement.hpp b/src/lang/statements/code_block_statement.hpp
index 2f03fcd..f18270b 100644
--- a/src/lang/statements/code_block_statement.hpp
+++ b/src/lang/statements/code_block_statement.hpp
@@ -24,7 +24,7 @@ namespace happyml {
                 lastResult = child->execute(context);
                 // We are discarding all results but the last one. This is fine for handling errors, but
                 // I'm not sure if we should use them for anything. I don't need them now, so this is fine.
-                if (!lastResult->isSuccessful()) {
+                if (!lastResult->isSuccessful() || lastResult->exitRequested()) {
                     break;
                 }
             }
-- 
2.43.0


From 686872c05999f06041e9ad48555d22ba85634373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:24 +0000
Subject: [PATCH 053/111] fix: help without a topic does not swallow the start
 of the next statement

---
 src/lang/parser/parser.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lang/parser/parser.hpp b/src/lang/parser/parser.hpp
index b02b21b..0f5997d 100644
--- a/src/lang/parser/parser.hpp
+++ b/src/lang/parser/parser.hpp
@@ -60,6 +60,11 @@ namespace happyml {
             if (!stream->hasNext()) {
                 return make_shared<ParseResult>(make_shared<HelpStatement>());
             }
+            auto label = stream->peek()->getLabel();
+            if ("_help" == label || "_print" == label || "_create" == label || "_execute" == label || "_exit" == label) {
+                // this is the next statement, not a help topic.
+                return make_shared<ParseResult>(make_shared<HelpStatement>());
+            }
             auto next = stream->next();
             return make_shared<ParseResult>(make_shared<HelpStatement>(next->getValue()));
         }
-- 
2.43.0


From 3a060df634e71d5f539abe4536fef1a235f637a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:24 +0000
Subject: [PATCH 054/111] fix: every keyword is recognised in any letter case,
 as documented

---
 src/lang/parser/parser.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/lang/parser/parser.hpp b/src/lang/parser/parser.hpp
index 0f5997d..7911d1b 100644
--- a/src/lang/parser/parser.hpp
+++ b/src/lang/parser/parser.hpp
@@ -66,7 +66,7 @@ namespace happyml {
                 return make_shared<ParseResult>(make_shared<HelpStatement>());
             }
             auto next = stream->next();
-            return make_shared<ParseResult>(make_shared<HelpStatement>(next->getValue()));
+            return make_shared<ParseResult>(make_shared<HelpStatement>(asLower(next->getValue())));
         }
 
         static shared_ptr<ParseResult> parsePrintStatement(const shared_ptr<TokenStream> &stream) {
@@ -74,10 +74,10 @@ namespace happyml {
                 return generateError("usage: print <raw|pretty> <name> [limit <x>]", stream->previous());
             }
             auto next = stream->next();
-            if ("raw" != next->getValue() && "pretty" != next->getValue()) {
+            if ("_raw" != next->getLabel() && "_pretty" != next->getLabel()) {
                 return generateError("usage: print <raw|pretty> <name> [limit <x>]", stream->previous());
             }
-            bool raw = "raw" == next->getValue();
+            bool raw = "_raw" == next->getLabel();
             next = stream->next();
             auto dataset_name = next->getValue();
             if (!stream->hasNext() || "_limit" != stream->peek()->getLabel()) {
@@ -107,7 +107,7 @@ namespace happyml {
             if (!stream->hasNext()) {
                 return generateError("with statement data type missing ", stream->previous());
             }
-            columnGroup->data_type_ = stream->next()->getValue();
+            columnGroup->data_type_ = asLower(stream->next()->getValue());
             if (!stream->hasNext()) {
                 return generateError("with statement label missing ", stream->previous());
             }
@@ -169,7 +169,7 @@ namespace happyml {
             //  the url, which is a problem, since words like "raw' are allowed in the url. I'm going to
             //  manually allow "raw" to pass, but all of the keywords should be allowed. The problem is
             //  if we didn't do this check, we'd keep going for the rest of the file.
-            while ("raw" == stream->peek()->getValue() || "_word" == nextLabel || "_slash" == nextLabel || "_backslash" == nextLabel
+            while ("_raw" == stream->peek()->getLabel() || "_word" == nextLabel || "_slash" == nextLabel || "_backslash" == nextLabel
                    || "_dot" == nextLabel || "_colon" == nextLabel || "_number" == nextLabel
                    || "_underscore" == nextLabel) {
                 url << stream->next()->getValue();
@@ -208,16 +208,16 @@ namespace happyml {
                         return generateError("create task with statement malformed: ", next);
                     }
                     auto parameterToken = stream->next();
-                    if ("test" == parameterToken->getValue()) {
+                    if ("_test" == parameterToken->getLabel()) {
                         if (!stream->hasNext()) {
                             return generateError("create task with statement malformed: ", parameterToken);
                         }
                         test_dataset_name = stream->next()->getValue();
-                    } else if ("goal" == parameterToken->getValue()) {
+                    } else if ("_goal" == parameterToken->getLabel()) {
                         if (!stream->hasNext()) {
                             return generateError("create task with statement malformed: ", parameterToken);
                         }
-                        goal = stream->next()->getValue();
+                        goal = asLower(stream->next()->getValue());
                     } else {
                         return generateError("create task with statement malformed: ", parameterToken);
                     }
@@ -230,7 +230,7 @@ namespace happyml {
                     return generateError("create task using statement malformed: ", usingToken);
                 }
                 auto datasetName = stream->next();
-                auto createTaskResult = make_shared<CreateTaskStatement>(taskType->getValue(),
+                auto createTaskResult = make_shared<CreateTaskStatement>(asLower(taskType->getValue()),
                                                                          taskName->getValue(),
                                                                          goal,
                                                                          datasetName->getValue(),
@@ -269,7 +269,7 @@ namespace happyml {
                     if (!stream->hasNext()) {
                         return generateError("with statement is incomplete ", stream->previous());
                     }
-                    string withType = stream->next()->getValue();
+                    string withType = asLower(stream->next()->getValue());
                     if ("header" == withType) {
                         has_header = true;
                     } else {
-- 
2.43.0


From a4a6032b1750a3c561c0e353e278303e059dc2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:24 +0000
Subject: [PATCH 055/111] fix: a location without :// is rejected instead of
 losing its first characters

---
 src/lang/parser/parser.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lang/parser/parser.hpp b/src/lang/parser/parser.hpp
index 7911d1b..95ea16f 100644
--- a/src/lang/parser/parser.hpp
+++ b/src/lang/parser/parser.hpp
@@ -161,7 +161,14 @@ namespace happyml {
             if (!stream->hasNext(3)) {
                 throw runtime_error("Malformed url at: " + scheme->render());
             }
-            stream->consume(3); // :// that follows the https or file
+            // :// that follows the https or file
+            if ("_colon" != stream->peek(1)->getLabel() || "_slash" != stream->peek(2)->getLabel() || "_slash" != stream->peek(3)->getLabel()) {
+                throw runtime_error("Malformed url at: " + scheme->render());
+            }
+            stream->consume(3);
+            if (!stream->hasNext()) {
+                throw runtime_error("Malformed url at: " + scheme->render());
+            }
             stringstream url;
             url << scheme->getValue() << "://";
             auto nextLabel = stream->peek()->getLabel();
-- 
2.43.0


From ec573529d0736dd6b44e8e7daf3378442a15127c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:59 +0000
Subject: [PATCH 056/111] fix: a column declared without any value is refused
 instead of dividing by zero

---
 src/lang/statements/create_dataset_statement.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lang/statements/create_dataset_statement.hpp b/src/lang/statements/create_dataset_statement.hpp
index 3746a68..ab381c4 100644
--- a/src/lang/statements/create_dataset_statement.hpp
+++ b/src/lang/statements/create_dataset_statement.hpp
@@ -72,6 +72,10 @@ namespace happyml {
                 } else if (columnGroup->data_type_ == "text" && !has_text) {
                     has_text = true;
                 }
+                if (columnGroup->rows_ == 0 || columnGroup->columns_ == 0 || columnGroup->channels_ == 0) {
+                    return make_shared<ExecutionResult>(false, false,
+                                                        "create dataset's columns must have at least one row, column and channel.");
+                }
                 if (columnGroup->use_ != "expected" && columnGroup->use_ != "given") {
                     return make_shared<ExecutionResult>(false, false,
                                                         "create dataset's use must be one of: expected or given.");
-- 
2.43.0


From 0d394496f131cd8d9b1d76561d0ab09562771362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:11 +0000
Subject: [PATCH 057/111] fix: a list of input values that is not closed is
 rejected instead of taking what follows as values

---
 src/lang/parser/parser.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lang/parser/parser.hpp b/src/lang/parser/parser.hpp
index 95ea16f..8724258 100644
--- a/src/lang/parser/parser.hpp
+++ b/src/lang/parser/parser.hpp
@@ -366,6 +366,9 @@ namespace happyml {
                         if( "_comma" == label ) {
                             continue;
                         }
+                        if ("_string" != label && "_word" != label && "_number" != label) {
+                            throw runtime_error("Invalid input value");
+                        }
                         string data = token->getValue();
                         if ("_number" == label) {
                             value = stof(data);
-- 
2.43.0


From 5041cd735ca194e9e19c07101e6e37a246c5ad55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:45 +0000
Subject: [PATCH 058/111] fix: print and create task do not take the next
 statement for a missing data set name

---
 src/lang/parser/parser.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lang/parser/parser.hpp b/src/lang/parser/parser.hpp
index 8724258..a4f7d2a 100644
--- a/src/lang/parser/parser.hpp
+++ b/src/lang/parser/parser.hpp
@@ -80,6 +80,9 @@ namespace happyml {
             bool raw = "_raw" == next->getLabel();
             next = stream->next();
             auto dataset_name = next->getValue();
+            if ("_word" != next->getLabel()) {
+                return generateError("dataset name is invalid: ", next);
+            }
             if (!stream->hasNext() || "_limit" != stream->peek()->getLabel()) {
                 return make_shared<ParseResult>(make_shared<PrintStatement>(dataset_name, raw));
             }
@@ -237,6 +240,9 @@ namespace happyml {
                     return generateError("create task using statement malformed: ", usingToken);
                 }
                 auto datasetName = stream->next();
+                if ("_word" != datasetName->getLabel()) {
+                    return generateError("dataset name is invalid: ", datasetName);
+                }
                 auto createTaskResult = make_shared<CreateTaskStatement>(asLower(taskType->getValue()),
                                                                          taskName->getValue(),
                                                                          goal,
-- 
2.43.0


From 42f2744a1a5a011cf1a266aff0b2dd8b0ad1f130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:28 +0000
Subject: [PATCH 059/111] fix: derivative of the mean absolute error is the
 sign of the difference

---
 src/ml/losses/mae_loss.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ml/losses/mae_loss.hpp b/src/ml/losses/mae_loss.hpp
index c872257..2b1c748 100644
--- a/src/ml/losses/mae_loss.hpp
+++ b/src/ml/losses/mae_loss.hpp
@@ -7,6 +7,7 @@
 #define HAPPYML_MAE_LOSS_HPP
 
 #include "../../types/tensor_views/absolute_tensor_view.hpp"
+#include "../../types/tensor_views/value_transform_tensor_view.hpp"
 
 namespace happyml {
     // Also known as L1 loss
@@ -32,7 +33,9 @@ namespace happyml {
             shared_ptr<BaseTensor> accumulatedLossDerivative;
             // Derivative of mean absolute error = sign(prediction_i - truth_i)
             shared_ptr<BaseTensor> error_diff = make_shared<SubtractTensorView>(prediction, truth);
-            shared_ptr<BaseTensor> currentLossDerivative = make_shared<ScalarMultiplyTensorView>(error_diff, -1.0f);
+            shared_ptr<BaseTensor> currentLossDerivative = make_shared<ValueTransformTensorView>(error_diff, [](float difference) {
+                return (float) (difference > 0.0f) - (float) (difference < 0.0f);
+            });
             return currentLossDerivative;
         }
     };
-- 
2.43.0


From 4add229d8ee9aeb00651487a8367f82d2f6517a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:28 +0000
Subject: [PATCH 060/111] fix: derivative of the smooth mean absolute error for
 large differences is their sign

---
 src/ml/losses/smae_loss.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ml/losses/smae_loss.hpp b/src/ml/losses/smae_loss.hpp
index b1074c5..194712c 100644
--- a/src/ml/losses/smae_loss.hpp
+++ b/src/ml/losses/smae_loss.hpp
@@ -8,6 +8,7 @@
 
 #include "../../types/tensor_views/less_than_scalar_tensor_view.hpp"
 #include "../../types/tensor_views/masked_select_tensor_view.hpp"
+#include "../../types/tensor_views/value_transform_tensor_view.hpp"
 
 namespace happyml {
     // Also known as Smooth L1 loss, Smooth Mean Absolute Error loss, or Huber loss
@@ -51,7 +52,9 @@ namespace happyml {
             shared_ptr<BaseTensor> error_diff = make_shared<SubtractTensorView>(prediction, truth);
             shared_ptr<BaseTensor> abs_error_diff = make_shared<AbsoluteTensorView>(error_diff);
             shared_ptr<BaseTensor> smooth_derivative = make_shared<ScalarMultiplyTensorView>(error_diff, 1.0f / smoothness);
-            shared_ptr<BaseTensor> unsmooth_derivative = make_shared<ScalarMultiplyTensorView>(error_diff, -1.0f);
+            shared_ptr<BaseTensor> unsmooth_derivative = make_shared<ValueTransformTensorView>(error_diff, [](float difference) {
+                return (float) (difference > 0.0f) - (float) (difference < 0.0f);
+            });
 
             shared_ptr<BaseTensor> smooth_mask = make_shared<LessThanScalarTensorView>(abs_error_diff, smoothness);
             shared_ptr<BaseTensor> currentLossDerivative = make_shared<MaskedSelectTensorView>(smooth_mask, smooth_derivative, unsmooth_derivative);
-- 
2.43.0


From e064ae00b6b76a7bdeb4411612217b68e94d3171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:28 +0000
Subject: [PATCH 061/111] fix: derivative of the binary cross-entropy stays
 finite for predictions of exactly zero or one

---
 src/ml/losses/binary_cross_entropy.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ml/losses/binary_cross_entropy.hpp b/src/ml/losses/binary_cross_entropy.hpp
index 32a762e..531e49b 100644
--- a/src/ml/losses/binary_cross_entropy.hpp
+++ b/src/ml/losses/binary_cross_entropy.hpp
@@ -51,16 +51,19 @@ namespace happyml {
                                                        shared_ptr<BaseTensor> &prediction) override {
             // Derivative of binary cross-entropy = -(truth/prediction - (1 - truth) / (1 - prediction))
 
+            // clipped like in compute_error, so that a prediction of exactly zero or one doesn't divide by zero
+            auto epsilon = 1e-8f;
+            auto clip_prediction = make_shared<ClipTensorView>(prediction, epsilon, 1.0f - epsilon);
+            auto clip_one_minus_prediction = make_shared<ClipTensorView>(make_shared<ScalarSubtractTensorView>(1.0f, prediction), epsilon, 1.0f - epsilon);
+
             // truth / prediction
-            auto truth_div_prediction = make_shared<ElementWiseDivideTensorView>(truth, prediction);
+            auto truth_div_prediction = make_shared<ElementWiseDivideTensorView>(truth, clip_prediction);
 
             // 1 - truth
             auto one_minus_truth = make_shared<ScalarSubtractTensorView>(1.0f, truth);
-            // 1 - prediction
-            auto one_minus_prediction = make_shared<ScalarSubtractTensorView>(1.0f, prediction);
 
             // (1 - truth) / (1 - prediction)
-            auto one_minus_truth_div_one_minus_prediction = make_shared<ElementWiseDivideTensorView>(one_minus_truth, one_minus_prediction);
+            auto one_minus_truth_div_one_minus_prediction = make_shared<ElementWiseDivideTensorView>(one_minus_truth, clip_one_minus_prediction);
 
             // truth/prediction - (1 - truth) / (1 - prediction)
             auto unscaled_derivative = make_shared<SubtractTensorView>(truth_div_prediction, one_minus_truth_div_one_minus_prediction);
-- 
2.43.0


From de9badd020df2691382304f658e9e31c4f8607d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:28 +0000
Subject: [PATCH 062/111] fix: softmax passes the slope of the categorical
 cross-entropy on unchanged

---
 src/ml/activators/softmax_activation_function.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ml/activators/softmax_activation_function.hpp b/src/ml/activators/softmax_activation_function.hpp
index 69686a8..563fd76 100644
--- a/src/ml/activators/softmax_activation_function.hpp
+++ b/src/ml/activators/softmax_activation_function.hpp
@@ -27,8 +27,9 @@ namespace happyml {
         }
 
         std::shared_ptr<BaseTensor> derivative(const std::shared_ptr<BaseTensor> &input) override {
-            // shortcut. We don't explicitly compute the Jacobian matrix because this is always used before categorical cross-entropy loss
-            return input;
+            // shortcut. We don't explicitly compute the Jacobian matrix because this is always used before categorical cross-entropy loss,
+            // whose derivative (prediction - truth) is already the slope with respect to the input of softmax.
+            return std::make_shared<UniformTensor>(input->getShape(), 1.0f);
         }
     };
 }
-- 
2.43.0


From 98cbfb28951ada25866e85f10539c5fb6f902f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:47 +0000
Subject: [PATCH 063/111] fix: a refused prediction leaves no input behind for
 the next one

---
 src/ml/neural_network_node.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ml/neural_network_node.hpp b/src/ml/neural_network_node.hpp
index dc2d625..d50b776 100644
--- a/src/ml/neural_network_node.hpp
+++ b/src/ml/neural_network_node.hpp
@@ -161,10 +161,11 @@ namespace happyml {
                 }
                 inputs.push_back(lockedInput->next_input);
             }
-            doForward(inputs, forTraining);
+            // cleared before going on, so that nothing stale is left behind if a later layer refuses its input
             for (const auto &input: connectionInputs) {
                 input.lock()->next_input = nullptr;
             }
+            doForward(inputs, forTraining);
         }
 
         vector<shared_ptr<BaseTensor>> clip(const vector<shared_ptr<BaseTensor>> &errors_from_backward) {
-- 
2.43.0


From e26c58b4bd8a4130421a44f412b987e469471113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:47 +0000
Subject: [PATCH 064/111] fix: layers shared by several branches are trained
 once per batch

---
 src/ml/neural_network_node.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ml/neural_network_node.hpp b/src/ml/neural_network_node.hpp
index d50b776..074b101 100644
--- a/src/ml/neural_network_node.hpp
+++ b/src/ml/neural_network_node.hpp
@@ -39,6 +39,7 @@ namespace happyml {
             this->saved = true;
             this->use_norm_clipping = false;
             this->norm_clip_threshold = 5.0f;
+            this->has_errors_to_apply = false;
         }
 
         void set_use_norm_clipping(bool use_clipping) {
@@ -185,6 +186,10 @@ namespace happyml {
         }
 
         void apply(const shared_ptr<BaseOptimizer> &optimizer) {
+            if (!has_errors_to_apply) {
+                return; // a node shared by several branches was already applied by another branch.
+            }
+            has_errors_to_apply = false;
             neuralNetworkFunction->apply(optimizer);
             for (const auto &inputConnection: connectionInputs) {
                 const auto conn = inputConnection.lock();
@@ -206,6 +211,7 @@ namespace happyml {
             }
 #endif
             auto prior_errors = neuralNetworkFunction->backward(outputError);
+            has_errors_to_apply = true;
             if (use_norm_clipping) {
                 prior_errors = clip(prior_errors);
             }
@@ -308,6 +314,7 @@ namespace happyml {
         bool saved;
         bool use_norm_clipping;
         float norm_clip_threshold;
+        bool has_errors_to_apply;
     };
 
     class NeuralNetworkOutputNode : public NeuralNetworkNode {
-- 
2.43.0


From 023f27360764ed5160bb428ea5dd946ad27608b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:47 +0000
Subject: [PATCH 065/111] fix: the error of the last branch is not counted
 twice

---
 src/ml/neural_network_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/neural_network_node.hpp b/src/ml/neural_network_node.hpp
index 074b101..1529f29 100644
--- a/src/ml/neural_network_node.hpp
+++ b/src/ml/neural_network_node.hpp
@@ -251,7 +251,7 @@ namespace happyml {
                             break;
                         }
                         if (sum == nullptr) {
-                            sum = make_shared<AddTensorView>(prior_error, output_conn->prior_error);
+                            sum = output_conn->prior_error;
                         } else {
                             sum = make_shared<AddTensorView>(sum, output_conn->prior_error);
                         }
-- 
2.43.0


From 218222721d4db2f72b5000b545a8fce4c9712d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:36 +0000
Subject: [PATCH 066/111] fix: flattening handles inputs of several channels

---
 src/ml/happyml_dsl.hpp          |  2 +-
 src/ml/layers/flatten_layer.hpp | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index fb703bf..44f010c 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -418,7 +418,7 @@ namespace happyml {
                 shared_ptr<NeuralNetworkNode> last_node = nullptr;
                 if (node_type == LayerType::full) {
                     auto inputShape = inputShapes[0];
-                    if (inputShape[0] > 1) {
+                    if (inputShape[0] > 1 || inputShape[2] > 1) {
                         auto flatten_node = make_shared<NeuralNetworkNode>(make_shared<FlattenLayer>());
                         last_node = appendNode(last_node, flatten_node);
                     }
diff --git a/src/ml/layers/flatten_layer.hpp b/src/ml/layers/flatten_layer.hpp
index 9aab991..51bceb6 100644
--- a/src/ml/layers/flatten_layer.hpp
+++ b/src/ml/layers/flatten_layer.hpp
@@ -6,6 +6,8 @@
 #ifndef HAPPYML_FLATTEN_LAYER_HPP
 #define HAPPYML_FLATTEN_LAYER_HPP
 
+#include "../../types/tensor_impls/tensor_from_function.hpp"
+
 
 namespace happyml {
     class FlattenLayer : public BaseLayer {
@@ -18,7 +20,8 @@ namespace happyml {
             const auto &nextInput = input[0];
             originalCols = nextInput->columnCount();
             originalRows = nextInput->rowCount();
-            if (originalRows == 1) {
+            originalChannels = nextInput->channelCount();
+            if (originalRows == 1 && originalChannels == 1) {
                 // This flatten function was added unnecessarily. We could throw an exception.
                 return nextInput;
             }
@@ -27,16 +30,25 @@ namespace happyml {
 
         vector<shared_ptr<BaseTensor>> backward(const shared_ptr<BaseTensor> &output_error) override {
             PROFILE_BLOCK(profileBlock);
-            if (originalRows == output_error->rowCount() && originalCols == output_error->columnCount()) {
+            if (originalRows == output_error->rowCount() && originalCols == output_error->columnCount() &&
+                originalChannels == output_error->channelCount()) {
                 // This flatten function was added unnecessarily. We could throw an exception.
                 return {output_error};
             }
+            if (originalChannels > 1) {
+                const auto rows = originalRows;
+                const auto cols = originalCols;
+                return {make_shared<TensorFromFunction>([output_error, rows, cols](size_t row, size_t col, size_t channel) {
+                    return output_error->getValue((channel * rows + row) * cols + col);
+                }, originalRows, originalCols, originalChannels)};
+            }
             return {make_shared<ReshapeTensorView>(output_error, originalRows, originalCols)};
         }
 
     private:
         size_t originalRows{};
         size_t originalCols{};
+        size_t originalChannels{};
     };
 }
 #endif //HAPPYML_FLATTEN_LAYER_HPP
-- 
2.43.0


From 98a480a86d9b9d8af257fb16b14b82fad6e41e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:36 +0000
Subject: [PATCH 067/111] fix: dropout keeps the shape of its input

---
 src/ml/happyml_dsl.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 44f010c..be10b17 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -454,10 +454,6 @@ namespace happyml {
                     next_node = make_shared<NeuralNetworkNode>(make_shared<NormalizationLayer>());
                 } else if (node_type == LayerType::dropout) {
                     auto inputShape = inputShapes[0];
-                    if (inputShape[0] > 1) {
-                        auto flatten_node = make_shared<NeuralNetworkNode>(make_shared<FlattenLayer>());
-                        last_node = appendNode(last_node, flatten_node);
-                    }
                     string dropoutNodeLabel = asString(vertexUniqueId) + "_dropout";
                     next_node = make_shared<NeuralNetworkNode>(make_shared<DropoutLayer>(dropoutNodeLabel, inputShape, dropout_rate));
                 } else if (node_type == LayerType::convolution2dValid) {
-- 
2.43.0


From df9c918ec8167123650b00a7c83d6057568c385b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:36 +0000
Subject: [PATCH 068/111] fix: a convolution passes each input channel its own
 error

---
 src/ml/layers/convolution_2d_valid_layer.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index 61d6fb7..2ee5daa 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -156,8 +156,7 @@ namespace happyml {
 
             weight_changes.push(output_layers_weight_changes);
 
-            const auto resultError = make_shared<SumChannelsTensorView>(inputError);
-            return {resultError};
+            return {inputError};
         }
 
         void apply(const shared_ptr<BaseOptimizer> &optimizer) override {
-- 
2.43.0


From f36ba5b48d6645e9cf78234c85124b2577405c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:36 +0000
Subject: [PATCH 069/111] fix: L2 regularization of a convolution decays its
 weights

---
 src/ml/layers/convolution_2d_valid_layer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index 2ee5daa..fa5ee2a 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -143,7 +143,7 @@ namespace happyml {
                                                                                                             outputErrorForLayer);
                     if (use_l2_regularization) {
                         PROFILE_BLOCK(profileBlock2);
-                        auto l2_regularization = make_shared<ScalarMultiplyTensorView>(nextWeightError, regularization_strength);
+                        auto l2_regularization = make_shared<ScalarMultiplyTensorView>(weightForInputLayer, regularization_strength);
                         nextWeightError = make_shared<AddTensorView>(nextWeightError, l2_regularization);
                     }
                     const auto nextWeightToInputChannel = make_shared<SumToChannelTensorView>(nextWeightError,
-- 
2.43.0


From 3e3f8aa9cb5f9fe9c95f0da3760200f77e80c0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:36 +0000
Subject: [PATCH 070/111] fix: a convolution averages the gradients of a batch
 like the other layers

---
 src/ml/layers/convolution_2d_valid_layer.hpp | 24 ++++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index fa5ee2a..6391f8f 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -162,17 +162,27 @@ namespace happyml {
         void apply(const shared_ptr<BaseOptimizer> &optimizer) override {
             PROFILE_BLOCK(profileBlock);
 
+            if (weight_changes.empty()) {
+                throw runtime_error("Convolution2dValidFunction.apply() called without previous weight_changes.");
+            }
             const size_t filters = outputShape[2];
+            const size_t current_batch_size = weight_changes.size();
+            vector<shared_ptr<BaseTensor>> loss_gradients = weight_changes.front();
+            weight_changes.pop();
             while (!weight_changes.empty()) {
-                vector<shared_ptr<BaseTensor>> weightChanges = weight_changes.front();
-                weight_changes.pop();
                 for (size_t outputLayer = 0; outputLayer < filters; outputLayer++) {
-                    auto loss_gradient = weightChanges[outputLayer];
-                    const auto adjustedWeights = optimizer->calculateWeightsChange(registration_id,
-                                                                                   weights[outputLayer],
-                                                                                   loss_gradient);
-                    weights[outputLayer] = materializeTensor(adjustedWeights, bits);
+                    loss_gradients[outputLayer] = make_shared<AddTensorView>(loss_gradients[outputLayer],
+                                                                             weight_changes.front()[outputLayer]);
                 }
+                weight_changes.pop();
+            }
+            for (size_t outputLayer = 0; outputLayer < filters; outputLayer++) {
+                const auto loss_gradient = materializeTensor(
+                        make_shared<ScalarDivideTensorView>(loss_gradients[outputLayer], (float) current_batch_size));
+                const auto adjustedWeights = optimizer->calculateWeightsChange(registration_id,
+                                                                               weights[outputLayer],
+                                                                               loss_gradient);
+                weights[outputLayer] = materializeTensor(adjustedWeights, bits);
             }
         }
 
-- 
2.43.0


From d7687f807ff94c97734e351281e5fa5f588aa980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:36 +0000
Subject: [PATCH 071/111] fix: each filter of a convolution has its own
 optimizer state

---
 src/ml/happyml_dsl.hpp                       | 7 ++++++-
 src/ml/layers/convolution_2d_valid_layer.hpp | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index be10b17..6e1f9cb 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -459,9 +459,14 @@ namespace happyml {
                 } else if (node_type == LayerType::convolution2dValid) {
                     auto inputShape = inputShapes[0];
                     string c2dvLabel = asString(vertexUniqueId) + "_c2dv";
+                    // every filter has its own state in the optimizer, so the layer uses consecutive ids.
+                    const int registration_id = optimizer->registerForWeightChanges();
+                    for (size_t next_filter = 1; next_filter < filters; next_filter++) {
+                        optimizer->registerForWeightChanges();
+                    }
                     auto c2d = make_shared<Convolution2dValidFunction>(c2dvLabel, inputShape, filters, kernel_size,
                                                                        bits,
-                                                                       optimizer->registerForWeightChanges(),
+                                                                       registration_id,
                                                                        use_l2_regularization,
                                                                        regularization_strength);
                     next_node = make_shared<NeuralNetworkNode>(c2d);
diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index 6391f8f..38c815a 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -179,7 +179,7 @@ namespace happyml {
             for (size_t outputLayer = 0; outputLayer < filters; outputLayer++) {
                 const auto loss_gradient = materializeTensor(
                         make_shared<ScalarDivideTensorView>(loss_gradients[outputLayer], (float) current_batch_size));
-                const auto adjustedWeights = optimizer->calculateWeightsChange(registration_id,
+                const auto adjustedWeights = optimizer->calculateWeightsChange(registration_id + (int) outputLayer,
                                                                                weights[outputLayer],
                                                                                loss_gradient);
                 weights[outputLayer] = materializeTensor(adjustedWeights, bits);
-- 
2.43.0


From 0226891ce103d8068984fb3bb1799d5e2283ea55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:30 +0000
Subject: [PATCH 072/111] fix: the slope of a normalization layer accounts for
 the mean and the deviation

---
 src/ml/layers/normalization_layer.hpp         |  8 +++--
 .../standardize_derivative_tensor_view.hpp    | 33 +++++++++----------
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/ml/layers/normalization_layer.hpp b/src/ml/layers/normalization_layer.hpp
index 199046c..816b22b 100644
--- a/src/ml/layers/normalization_layer.hpp
+++ b/src/ml/layers/normalization_layer.hpp
@@ -30,7 +30,8 @@ namespace happyml {
 
             shared_ptr<StandardizeTensorView> normTensor = make_shared<StandardizeTensorView>(inputTensor);
             if (forTraining) {
-                lastInput = normTensor;
+                lastInput = inputTensor;
+                lastOutput = normTensor;
             }
 #ifdef DEBUG_TRAIN_NAN
             if (normTensor->hasNaNOrInf()) {
@@ -48,7 +49,7 @@ namespace happyml {
                 throw runtime_error("No inputs to backpropagate through.");
             }
 
-            shared_ptr<BaseTensor> normDerivativeTensor = make_shared<StandardizeDerivativeTensorView>(output_error, lastInput, lastInput->get_mean(), lastInput->get_std_dev());
+            shared_ptr<BaseTensor> normDerivativeTensor = make_shared<StandardizeDerivativeTensorView>(output_error, lastInput, lastOutput->get_mean(), lastOutput->get_std_dev());
 #ifdef DEBUG_TRAIN_NAN
             if (normDerivativeTensor->hasNaNOrInf()) {
                 normDerivativeTensor->print();
@@ -60,7 +61,8 @@ namespace happyml {
         }
 
     private:
-        shared_ptr<StandardizeTensorView> lastInput;
+        shared_ptr<BaseTensor> lastInput;
+        shared_ptr<StandardizeTensorView> lastOutput;
     };
 
 }
diff --git a/src/types/tensor_views/standardize_derivative_tensor_view.hpp b/src/types/tensor_views/standardize_derivative_tensor_view.hpp
index df49a40..7b497ea 100644
--- a/src/types/tensor_views/standardize_derivative_tensor_view.hpp
+++ b/src/types/tensor_views/standardize_derivative_tensor_view.hpp
@@ -18,28 +18,26 @@ namespace happyml {
     public:
         explicit StandardizeDerivativeTensorView(const shared_ptr<BaseTensor> &d_output, const shared_ptr<BaseTensor> &input, float mean, float std_dev)
                 : BaseTensorUnaryOperatorView(d_output), mean_(mean), std_dev_(std_dev), input_(input) {
-            total_elements_ = input->size();
+            // every element of the input changes the mean and the deviation, and through them every output:
+            // dx = (dy - mean(dy) - y * mean(dy * y)) / std_dev
+            const size_t total_elements = input->size();
+            double sum_of_d_output = 0.0;
+            double sum_of_d_output_by_output = 0.0;
+            for (size_t element = 0; element < total_elements; ++element) {
+                const double d_output_value = d_output->getValue(element);
+                sum_of_d_output += d_output_value;
+                sum_of_d_output_by_output += d_output_value * ((input->getValue(element) - mean_) / std_dev_);
+            }
+            mean_of_d_output_ = (float) (sum_of_d_output / (double) total_elements);
+            mean_of_d_output_by_output_ = (float) (sum_of_d_output_by_output / (double) total_elements);
         }
 
         float getValue(size_t row, size_t column, size_t channel) override {
             // get corresponding values
             float d_output_value = child_->getValue(row, column, channel);
             float input_value = input_->getValue(row, column, channel);
-
-            // calculate common part
-            float common = d_output_value / (std_dev_ * (float) total_elements_);
-
-            // calculate three parts of gradient
-            float dx1 = d_output_value / std_dev_;
-            float dx2 = -common * (input_value - mean_);
-
-            // Recompute common with square of difference
-            float diff = input_value - mean_;
-            common = d_output_value * diff / (std_dev_ * std_dev_ * std_dev_ * (float) total_elements_);
-            float dx3 = - (float) total_elements_ * diff * common;
-
-            // return total gradient
-            return dx1 + dx2 + dx3;
+            float output_value = (input_value - mean_) / std_dev_;
+            return (d_output_value - mean_of_d_output_ - output_value * mean_of_d_output_by_output_) / std_dev_;
         }
 
         void printMaterializationPlan() override {
@@ -51,7 +49,8 @@ namespace happyml {
         float mean_;
         float std_dev_;
         shared_ptr<BaseTensor> input_;
-        size_t total_elements_;
+        float mean_of_d_output_;
+        float mean_of_d_output_by_output_;
     };
 }
 
-- 
2.43.0


From e846bdc1df98c02569ac6ee56ea47e7f6eb0c373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:30 +0000
Subject: [PATCH 073/111] fix: dropout scales the values kept in training
 instead of the predictions

---
 src/ml/layers/dropout_layer.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ml/layers/dropout_layer.hpp b/src/ml/layers/dropout_layer.hpp
index 5876c1f..ac5e6d1 100644
--- a/src/ml/layers/dropout_layer.hpp
+++ b/src/ml/layers/dropout_layer.hpp
@@ -16,7 +16,8 @@ namespace happyml {
             if (dropout_rate < 0.0 || dropout_rate > 1.0) {
                 throw runtime_error("DropoutLayer: dropout rate must be between 0 and 1.");
             }
-            forward_scale_ = 1.0f / (1.0f - dropout_rate_);
+            // the values that are kept are scaled up during training, so that predictions don't need any scaling
+            forward_scale_ = dropout_rate_ < 1.0f ? 1.0f / (1.0f - dropout_rate_) : 0.0f;
             output_shape_ = input_shape_;
         }
 
@@ -26,16 +27,16 @@ namespace happyml {
                 seed_seq_++;
                 shared_ptr < BaseTensor > random_tensor = make_shared<TensorFromRandom>(input[0]->getShape(), 0.0f, 1.0f, seed_seq_);
                 shared_ptr < BaseTensor > zeros = make_shared<UniformTensor>(input[0]->getShape(), 0.0f);
-                shared_ptr < BaseTensor > ones = make_shared<UniformTensor>(input[0]->getShape(), 1.0f);
+                shared_ptr < BaseTensor > scales = make_shared<UniformTensor>(input[0]->getShape(), forward_scale_);
 
                 // Populate dropout_mask_ with random values from a uniform distribution between 0 and 1
-                // then set to 1 if value > dropout_rate_, else 0
-                dropout_mask_ = make_shared<MaskedSelectTensorView>(random_tensor, ones, zeros, dropout_rate_);
+                // then set to the scale if value > dropout_rate_, else 0
+                dropout_mask_ = make_shared<MaskedSelectTensorView>(random_tensor, scales, zeros, dropout_rate_);
 
                 // Multiply input by dropout_mask_
                 return make_shared<ElementWiseMultiplyTensorView>(input[0], dropout_mask_);
             }
-            return make_shared<ElementWiseMultiplyTensorView>(input[0], make_shared<UniformTensor>(input[0]->getShape(), forward_scale_));
+            return input[0];
         }
 
         std::vector<std::shared_ptr<BaseTensor>> backward(const std::shared_ptr<BaseTensor> &output_error) override {
-- 
2.43.0


From 2a2548c2e9ae7f6f818a70e609224f21d203e511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:30 +0000
Subject: [PATCH 074/111] fix: the builder refuses a layer after an output
 instead of crashing on prediction

---
 src/ml/happyml_dsl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 6e1f9cb..e2c0924 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -365,6 +365,9 @@ namespace happyml {
             }
 
             void addEdge(const shared_ptr<NNVertex> &to) {
+                if (producesOutput) {
+                    throw runtime_error("An output layer can't feed another layer.");
+                }
                 auto nne = make_shared<NNEdge>();
                 nne->from = shared_from_this();
                 nne->to = to;
-- 
2.43.0


From a6effdc66f9f2a00de44cd9a5afea98bc4b00fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:09 +0000
Subject: [PATCH 075/111] fix: a full layer has the output shape that was asked
 for

---
 src/ml/happyml_dsl.hpp          |  5 ++++
 src/ml/layers/reshape_layer.hpp | 41 +++++++++++++++++++++++++++++++++
 2 files changed, 46 insertions(+)
 create mode 100644 src/ml/layers/reshape_layer.hpp

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index e2c0924..897aa10 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -23,6 +23,7 @@
 #include "neural_network.hpp"
 #include "layers/activation_layer.hpp"
 #include "layers/flatten_layer.hpp"
+#include "layers/reshape_layer.hpp"
 #include "layers/normalization_layer.hpp"
 #include "layers/convolution_2d_valid_layer.hpp"
 #include "layers/concatenate_wide_layer.hpp"
@@ -482,6 +483,10 @@ namespace happyml {
                 }
                 last_node = appendNode(last_node, next_node);
 
+                if (node_type == LayerType::full && (outputShape[0] > 1 || outputShape[2] > 1)) {
+                    last_node = appendNode(last_node, make_shared<NeuralNetworkNode>(make_shared<ReshapeLayer>(outputShape)));
+                }
+
                 if (use_bias) {
                     string biasLabel = asString(vertexUniqueId) + "_bias";
                     auto b = make_shared<BiasLayer>(biasLabel, outputShape, outputShape, bits, optimizer->registerForBiasChanges());
diff --git a/src/ml/layers/reshape_layer.hpp b/src/ml/layers/reshape_layer.hpp
new file mode 100644
index 0000000..d2311dc
--- /dev/null
+++ b/src/ml/layers/reshape_layer.hpp
@@ -0,0 +1,41 @@
+//
+// Created by Erik Hyrkas on 6/1/2023.
+// Copyright 2023. Usable under MIT license.
+//
+
+#ifndef HAPPYML_RESHAPE_LAYER_HPP
+#define HAPPYML_RESHAPE_LAYER_HPP
+
+#include "../../types/tensor_impls/tensor_from_function.hpp"
+
+namespace happyml {
+    // the opposite of the FlattenLayer: gives a single row the shape that was asked for.
+    class ReshapeLayer : public BaseLayer {
+    public:
+        explicit ReshapeLayer(const vector<size_t> &outputShape) {
+            this->outputShape = outputShape;
+        }
+
+        shared_ptr<BaseTensor> forward(const vector<shared_ptr<BaseTensor>> &input, bool forTraining) override {
+            PROFILE_BLOCK(profileBlock);
+            if (input.size() != 1) {
+                throw runtime_error("Cannot reshape multiple inputs at the same time. Please merge.");
+            }
+            const auto nextInput = input[0];
+            const auto rows = outputShape[0];
+            const auto cols = outputShape[1];
+            return make_shared<TensorFromFunction>([nextInput, rows, cols](size_t row, size_t col, size_t channel) {
+                return nextInput->getValue((channel * rows + row) * cols + col);
+            }, rows, cols, outputShape[2]);
+        }
+
+        vector<shared_ptr<BaseTensor>> backward(const shared_ptr<BaseTensor> &output_error) override {
+            PROFILE_BLOCK(profileBlock);
+            return {make_shared<RowFlattenTensorView>(output_error)};
+        }
+
+    private:
+        vector<size_t> outputShape;
+    };
+}
+#endif //HAPPYML_RESHAPE_LAYER_HPP
-- 
2.43.0


From 38eb9e0b0be5944d90d92188ffe2fac2cba7af76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:09 +0000
Subject: [PATCH 076/111] fix: a loaded model creates a layer reached through
 several edges once

---
 src/ml/happyml_dsl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 897aa10..927e839 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -811,6 +811,9 @@ namespace happyml {
         // "vertex", id, is input, is output, node type, activation type, materialized, uses bias, bits,
         // input rows, input columns, input channels, output rows, output columns, output channels, filters, kernels
         const uint32_t vertexId = stoul(vertexMetadata[1]);
+        if (createdVertexes.count(vertexId) > 0) {
+            return; // already reached through another edge
+        }
         const auto acceptsInput = asBool(vertexMetadata[2]);
         const bool producesOutput = asBool(vertexMetadata[3]);
         const LayerType layerType = stringToNodeType(vertexMetadata[4]);
-- 
2.43.0


From 21bde8d3e11105428b9e87474bac428e57ffba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:09 +0000
Subject: [PATCH 077/111] fix: a loaded model gives each layer its own stored
 knowledge

---
 src/ml/happyml_dsl.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 927e839..9df4c07 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -585,6 +585,10 @@ namespace happyml {
                 return vertexUniqueId;
             }
 
+            void setVertexUniqueId(uint32_t id) {
+                this->vertexUniqueId = id;
+            }
+
             bool isForOutput() const {
                 return producesOutput;
             }
@@ -920,6 +924,7 @@ namespace happyml {
                                                              activationType);
             }
         }
+        createdVertexes[vertexId]->setVertexUniqueId(vertexId); // the knowledge is stored under this id
         createdVertexes[vertexId]->setMaterialized(isMaterialized);
         createdVertexes[vertexId]->setUseBias(useBias);
         createdVertexes[vertexId]->setBits(bits);
-- 
2.43.0


From 28391ed25dfbea3ddbce63a0d297b3c62b4f1f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:09 +0000
Subject: [PATCH 078/111] fix: a loaded model has its outputs in the same order

---
 src/ml/happyml_dsl.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 9df4c07..c98d13c 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -375,6 +375,14 @@ namespace happyml {
                 edges.push_back(nne);
             }
 
+            // puts the edges into the order of the ids
+            void orderEdges(const vector<uint32_t> &ids) {
+                std::stable_sort(edges.begin(), edges.end(), [&ids](const shared_ptr<NNEdge> &a, const shared_ptr<NNEdge> &b) {
+                    return std::find(ids.begin(), ids.end(), a->to->getVertexUniqueId()) <
+                           std::find(ids.begin(), ids.end(), b->to->getVertexUniqueId());
+                });
+            }
+
             void reset() {
                 this->first_node = nullptr;
             }
@@ -1021,6 +1029,13 @@ namespace happyml {
                                      edgeFromTo);
         }
 
+        // the order of the edges decides the order of the outputs
+        for (const auto &vertexEdges: edgeFromTo) {
+            if (createdVertexes.count(vertexEdges.first) > 0) {
+                createdVertexes[vertexEdges.first]->orderEdges(vertexEdges.second);
+            }
+        }
+
         auto resultNeuralNetwork = dsl->build();
         resultNeuralNetwork->loadKnowledge("default");
         return resultNeuralNetwork;
-- 
2.43.0


From 66a785a14639fdbaa8b71bb77b03525cb25a7919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:09 +0000
Subject: [PATCH 079/111] fix: layers are concatenated in the order that was
 asked for

---
 src/ml/happyml_dsl.hpp         | 40 ++++++++++++++++++++++++++++++++++
 src/ml/neural_network_node.hpp | 11 ++++++++++
 2 files changed, 51 insertions(+)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index c98d13c..5038b0b 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -114,6 +114,9 @@ namespace happyml {
             for (const auto &head: inputReceptors) {
                 neuralNetwork->addHeadNode(head->buildLayer(neuralNetwork, networkMetadata));
             }
+            for (const auto &concatenator: concatenators) {
+                concatenator->orderConcatenatedLayers();
+            }
 
             neuralNetwork->setNetworkMetadata(networkMetadata);
             return neuralNetwork;
@@ -375,6 +378,25 @@ namespace happyml {
                 edges.push_back(nne);
             }
 
+            void setConcatenatedLayers(const vector<shared_ptr<NNVertex>> &layers) {
+                concatenatedLayers.clear();
+                for (const auto &layer: layers) {
+                    concatenatedLayers.push_back(layer);
+                }
+            }
+
+            // the graph is connected in the order it is visited, but the values need to be concatenated in the order
+            // that was asked for.
+            void orderConcatenatedLayers() {
+                vector<shared_ptr<NeuralNetworkNode>> sources;
+                for (const auto &layer: concatenatedLayers) {
+                    sources.push_back(layer.lock()->built_last_node);
+                }
+                if (first_node) {
+                    first_node->order_inputs(sources);
+                }
+            }
+
             // puts the edges into the order of the ids
             void orderEdges(const vector<uint32_t> &ids) {
                 std::stable_sort(edges.begin(), edges.end(), [&ids](const shared_ptr<NNEdge> &a, const shared_ptr<NNEdge> &b) {
@@ -385,6 +407,7 @@ namespace happyml {
 
             void reset() {
                 this->first_node = nullptr;
+                this->built_last_node = nullptr;
             }
 
             shared_ptr<NeuralNetworkForTraining> build() {
@@ -424,6 +447,9 @@ namespace happyml {
                 metadata_row.push_back(asString(getNormClippingThreshold()));
                 metadata_row.push_back(asString(getDropoutRate()));
                 metadata_row.push_back(asString(regularization_strength));
+                for (const auto &layer: concatenatedLayers) {
+                    metadata_row.push_back(asString(layer.lock()->getVertexUniqueId()));
+                }
                 networkMetadata.push_back(metadata_row);
                 shared_ptr<BaseOptimizer> optimizer = nn->getOptimizer();
                 shared_ptr<NeuralNetworkNode> next_node;
@@ -531,6 +557,8 @@ namespace happyml {
                     last_node->setMaterialized(materialized);
                 }
 
+                built_last_node = last_node;
+
                 vector<string> edgeMetadata{"edge", asString(getVertexUniqueId())};
                 for (const auto &edge: edges) {
                     edgeMetadata.push_back(asString(edge->to->getVertexUniqueId()));
@@ -681,6 +709,8 @@ namespace happyml {
             float norm_clipping_threshold;
             uint8_t bits;
             shared_ptr<NeuralNetworkNode> first_node;
+            shared_ptr<NeuralNetworkNode> built_last_node;
+            vector<weak_ptr<NNVertex>> concatenatedLayers;
             size_t kernel_size{};
             size_t filters{};
             bool producesOutput;
@@ -789,6 +819,8 @@ namespace happyml {
             for (auto &inputReceptor: previous_layers) {
                 inputReceptor->addEdge(concatenator);
             }
+            concatenator->setConcatenatedLayers(previous_layers);
+            concatenators.push_back(concatenator);
             // add the dense layer (we only support one layer type right now) that the user asked for:
             return concatenator;
         }
@@ -799,6 +831,7 @@ namespace happyml {
         float learningRate;
         float biasLearningRate;
         vector<shared_ptr<NNVertex>> inputReceptors;
+        vector<shared_ptr<NNVertex>> concatenators;
         string modelName;
         string repoRootPath;
         uint32_t vertexUniqueSequenceCounter;
@@ -914,6 +947,13 @@ namespace happyml {
                 if (!all_parents_exist) {
                     return;
                 }
+                // the concatenated layers are listed in order
+                if (vertexMetadata.size() >= current_metadata_offset + number_of_inputs) {
+                    all_parents.clear();
+                    for (size_t i = 0; i < number_of_inputs; ++i) {
+                        all_parents.push_back(createdVertexes.at(stoul(vertexMetadata[current_metadata_offset + i])));
+                    }
+                }
                 createdVertexes[vertexId] = dsl->add_concatenated_layer(all_parents);
             } else if (filters > 0) {
                 createdVertexes[vertexId] = parent->addLayer(filters,
diff --git a/src/ml/neural_network_node.hpp b/src/ml/neural_network_node.hpp
index 1529f29..2eb7739 100644
--- a/src/ml/neural_network_node.hpp
+++ b/src/ml/neural_network_node.hpp
@@ -306,6 +306,17 @@ namespace happyml {
             return child; // this lets us chain together calls in a builder format.
         }
 
+        // puts the incoming connections into the order of the nodes they come from
+        void order_inputs(const vector<shared_ptr<NeuralNetworkNode>> &sources) {
+            auto position = [&sources](const weak_ptr<NeuralNetworkConnection> &connection) {
+                return std::find(sources.begin(), sources.end(), connection.lock()->from.lock());
+            };
+            std::stable_sort(connectionInputs.begin(), connectionInputs.end(),
+                             [&position](const weak_ptr<NeuralNetworkConnection> &a, const weak_ptr<NeuralNetworkConnection> &b) {
+                                 return position(a) < position(b);
+                             });
+        }
+
     private:
         vector<weak_ptr<NeuralNetworkConnection>> connectionInputs;
         vector<shared_ptr<NeuralNetworkConnection>> connectionOutputs;
-- 
2.43.0


From 4ff67953ed4c6ef09adb7105965f6e538b4bfd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:09 +0000
Subject: [PATCH 080/111] fix: a concatenation of layers with several rows or
 channels has their shape

---
 src/ml/happyml_dsl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 5038b0b..07c14dd 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -811,7 +811,7 @@ namespace happyml {
                 total_input_width += layer->getOutputShape()[1];
                 input_shapes.push_back(layer->getOutputShape());
             }
-            vector<size_t> concat_shape_vector = {1, total_input_width, 1};
+            vector<size_t> concat_shape_vector = {input_shapes[0][0], total_input_width, input_shapes[0][2]};
             auto concatenator = make_shared<NNVertex>(shared_from_this(),
                                                       LayerType::concatenate, input_shapes,
                                                       concat_shape_vector, nextVertexId());
-- 
2.43.0


From 64e5493220f1d4a20a5bff5de1faf4733d086b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:08 +0000
Subject: [PATCH 081/111] fix: the errors of several branches add up instead of
 being averaged

---
 src/ml/neural_network_node.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ml/neural_network_node.hpp b/src/ml/neural_network_node.hpp
index 2eb7739..bc9123c 100644
--- a/src/ml/neural_network_node.hpp
+++ b/src/ml/neural_network_node.hpp
@@ -202,7 +202,6 @@ namespace happyml {
         // todo: right now, i'm assuming this is a directed acyclic graph, this may not work for everything.
         //  It is possible, I'll have to track visited nodes to avoid infinite cycles.
         void backward(const shared_ptr<BaseTensor> &outputError) {
-            // TODO: for multiple errors, I'm currently averaging the errors as they propagate, but it probably should be a weighted average
             PROFILE_BLOCK(profileBlock);
 #ifdef DEBUG_TRAIN_NAN
             if (outputError->hasNaNOrInf()) {
@@ -259,9 +258,8 @@ namespace happyml {
                     if (!ready) {
                         continue;
                     }
-                    // TODO: for multiple errors, I'm currently averaging the errors as they propagate, but it probably should be a weighted average
-                    shared_ptr<BaseTensor> average_error = make_shared<ScalarDivideTensorView>(sum, (float) fromConnectionOutputSize);
-                    from->backward(average_error);
+                    // the output reaches the loss through every branch, so its slope is the sum of the errors of the branches.
+                    from->backward(sum);
                     for (const auto &output_conn: from->connectionOutputs) {
                         output_conn->prior_error = nullptr;
                     }
-- 
2.43.0


From a6d9a4bedd66260c4c0c517763ab2631df55ddc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:41 +0000
Subject: [PATCH 082/111] fix: a model saved beside an existing one keeps its
 knowledge

---
 src/ml/neural_network.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 0eb9e58..568652d 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -238,7 +238,7 @@ namespace happyml {
                 writer->writeRecord(record);
             }
             writer->close();
-            saveKnowledge(modelFolderPath, "default", overwrite);
+            saveKnowledge(modelPath, "default", overwrite);
         }
 
         void saveKnowledgeWithOverwrite(const string &knowledgeLabel) {
-- 
2.43.0


From a07d5f1ad92c283f119757689c4ee13320857d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:41 +0000
Subject: [PATCH 083/111] fix: models saved in the same millisecond do not
 share a folder

---
 src/ml/neural_network.hpp |  2 +-
 src/util/data_util.hpp    | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 568652d..495006f 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -224,7 +224,7 @@ namespace happyml {
                          << " already existed, attempting to save to the new location: ";
                     auto ms = std::to_string(chrono::duration_cast<chrono::milliseconds>(
                             chrono::system_clock::now().time_since_epoch()).count());
-                    canonicalModelPath += "_" + ms;
+                    canonicalModelPath = unused_path(canonicalModelPath.generic_string() + "_" + ms);
                     cerr << canonicalModelPath << endl;
                     modelPath = canonicalModelPath.generic_string();
                 } else {
diff --git a/src/util/data_util.hpp b/src/util/data_util.hpp
index 6ebc719..97199c4 100644
--- a/src/util/data_util.hpp
+++ b/src/util/data_util.hpp
@@ -33,6 +33,15 @@ namespace happyml {
         return ss.str();
     }
 
+    // the path itself, or the path with a number after it when something is there already
+    string unused_path(const string &path) {
+        string result = path;
+        for (size_t number = 2; filesystem::exists(result); number++) {
+            result = path + "_" + std::to_string(number);
+        }
+        return result;
+    }
+
     string initialize_knowledge_path_directory(const string &modelFolderPath, const string &knowledgeLabel, bool overwrite) {
         string fullKnowledgePath = modelFolderPath + "/" + knowledgeLabel;
         if (filesystem::is_directory(fullKnowledgePath)) {
@@ -42,7 +51,7 @@ namespace happyml {
                      << " already existed, attempting to save to the new location: ";
                 auto ms = std::to_string(chrono::duration_cast<chrono::milliseconds>(
                         chrono::system_clock::now().time_since_epoch()).count());
-                canonicalFullKnowledgePath += "_" + ms;
+                canonicalFullKnowledgePath = unused_path(canonicalFullKnowledgePath.generic_string() + "_" + ms);
                 cerr << canonicalFullKnowledgePath << endl;
                 fullKnowledgePath = canonicalFullKnowledgePath.generic_string();
             } else {
-- 
2.43.0


From 58549d5cd4e243678761404da8914c803d0f0e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:41 +0000
Subject: [PATCH 084/111] fix: a missing or truncated tensor file is an error

---
 src/types/tensor_impls/full_tensor.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/types/tensor_impls/full_tensor.hpp b/src/types/tensor_impls/full_tensor.hpp
index c1fce49..6a0bb39 100644
--- a/src/types/tensor_impls/full_tensor.hpp
+++ b/src/types/tensor_impls/full_tensor.hpp
@@ -120,6 +120,7 @@ namespace happyml {
             try {
                 ifstream stream;
                 stream.open(fileName, ifstream::in | ios::binary);
+                requireWholeTensor(stream, fileName);
                 assignFromStream(stream);
                 stream.close();
             } catch (ofstream::failure &e) {
@@ -165,6 +166,30 @@ namespace happyml {
     private:
         vector<vector<vector<float>>> data;
 
+        // throws unless the file has exactly the values that its header announces
+        static void requireWholeTensor(ifstream &stream, const string &fileName) {
+            stream.seekg(0, ios::end);
+            const auto file_size = stream ? (uint64_t) stream.tellg() : 0;
+            stream.seekg(0, ios::beg);
+            uint64_t expected_values = 1;
+            for (int dimension = 0; dimension < 3; dimension++) {
+                uint64_t size = 0;
+                stream.read(reinterpret_cast<char *>(&size), sizeof(size));
+                size = portableBytes(size);
+                if (!stream || size > file_size) {
+                    throw runtime_error("Not a readable tensor: " + fileName);
+                }
+                expected_values *= size;
+                if (expected_values > file_size) {
+                    throw runtime_error("Not a complete tensor: " + fileName);
+                }
+            }
+            if (file_size != 3 * sizeof(uint64_t) + expected_values * sizeof(uint32_t)) {
+                throw runtime_error("Not a complete tensor: " + fileName);
+            }
+            stream.seekg(0, ios::beg);
+        }
+
         void assignFromStream(ifstream &stream) {
             uint64_t channels;
             uint64_t rows;
-- 
2.43.0


From 8d317c38b66fb28c948faa60689c996a72634730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:17 +0000
Subject: [PATCH 085/111] fix: knowledge of another shape is not loaded into a
 layer

---
 src/ml/base_layer.hpp                        | 11 +++++++++++
 src/ml/layers/bias_layer.hpp                 |  2 +-
 src/ml/layers/convolution_2d_valid_layer.hpp |  2 +-
 src/ml/layers/fully_connected_layer.hpp      |  2 +-
 4 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/ml/base_layer.hpp b/src/ml/base_layer.hpp
index 5be5434..cd5e345 100644
--- a/src/ml/base_layer.hpp
+++ b/src/ml/base_layer.hpp
@@ -8,6 +8,7 @@
 
 #include "activation.hpp"
 #include "optimizer.hpp"
+#include "../types/tensor_impls/full_tensor.hpp"
 #include "../types/tensor_views/row_flatten_tensor_view.hpp"
 #include "../types/tensor_views/transpose_tensor_view.hpp"
 #include "../types/tensor_views/sum_to_channel_tensor_view.hpp"
@@ -46,6 +47,16 @@ namespace happyml {
         virtual size_t get_parameter_count() {
             return 0;
         }
+
+    protected:
+        // knowledge of another shape belongs to another model
+        static shared_ptr<BaseTensor> loadTensor(const string &path, size_t rows, size_t columns, size_t channels) {
+            shared_ptr<BaseTensor> tensor = make_shared<FullTensor>(path);
+            if (tensor->rowCount() != rows || tensor->columnCount() != columns || tensor->channelCount() != channels) {
+                throw runtime_error("The knowledge does not have the shape that the layer needs: " + path);
+            }
+            return tensor;
+        }
     };
 
 
diff --git a/src/ml/layers/bias_layer.hpp b/src/ml/layers/bias_layer.hpp
index 05c07c5..c3ffa03 100644
--- a/src/ml/layers/bias_layer.hpp
+++ b/src/ml/layers/bias_layer.hpp
@@ -37,7 +37,7 @@ namespace happyml {
 
         void loadKnowledge(const string &fullKnowledgePath) override {
             string path = fullKnowledgePath + "/" + label + ".tensor";
-            this->bias = make_shared<FullTensor>(path);
+            this->bias = loadTensor(path, outputShape[0], outputShape[1], outputShape[2]);
         }
 
         // predicting
diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index 38c815a..059e57c 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -47,7 +47,7 @@ namespace happyml {
             auto filters = outputShape[2];
             for (size_t next_weight_layer = 0; next_weight_layer < filters; next_weight_layer++) {
                 string path = fullKnowledgePath + "/" + label + "_" + asString(next_weight_layer) + ".tensor";
-                auto matrix = make_shared<FullTensor>(path);
+                auto matrix = loadTensor(path, kernelSize, kernelSize, inputShape[2]);
                 this->weights.push_back(matrix);
             }
         }
diff --git a/src/ml/layers/fully_connected_layer.hpp b/src/ml/layers/fully_connected_layer.hpp
index b41ce0f..65585e8 100644
--- a/src/ml/layers/fully_connected_layer.hpp
+++ b/src/ml/layers/fully_connected_layer.hpp
@@ -43,7 +43,7 @@ namespace happyml {
 
         void loadKnowledge(const string &fullKnowledgePath) override {
             string path = fullKnowledgePath + "/" + label + ".tensor";
-            this->weights = make_shared<FullTensor>(path);
+            this->weights = loadTensor(path, inputShapes[0][1], outputShape[1], 1);
         }
 
         // predicting
-- 
2.43.0


From ccec05a5b6581bafe91836be471d8d9c55ab6c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:17 +0000
Subject: [PATCH 086/111] fix: an incomplete model.config is an error

---
 src/ml/happyml_dsl.hpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 07c14dd..e931995 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -855,6 +855,9 @@ namespace happyml {
                                   map<uint32_t, vector<uint32_t>> &edgeFromTo) {
         // "vertex", id, is input, is output, node type, activation type, materialized, uses bias, bits,
         // input rows, input columns, input channels, output rows, output columns, output channels, filters, kernels
+        if (vertexMetadata.size() < 10) {
+            throw runtime_error("Invalid model.config incomplete vertex.");
+        }
         const uint32_t vertexId = stoul(vertexMetadata[1]);
         if (createdVertexes.count(vertexId) > 0) {
             return; // already reached through another edge
@@ -868,6 +871,11 @@ namespace happyml {
         const uint8_t bits = stoul(vertexMetadata[8]);
         const size_t number_of_inputs = stoull(vertexMetadata[9]);
         size_t current_metadata_offset = 10;
+        // the shapes are followed by three output dimensions and eight settings
+        if (number_of_inputs < 1 || number_of_inputs > vertexMetadata.size() ||
+            vertexMetadata.size() < current_metadata_offset + 3 * number_of_inputs + 11) {
+            throw runtime_error("Invalid model.config incomplete vertex.");
+        }
         vector<vector<size_t>> inputShapes;
         for (size_t i = 0; i < number_of_inputs; ++i) {
             const vector<size_t> inputShape = {stoull(vertexMetadata[current_metadata_offset]),
@@ -1008,25 +1016,25 @@ namespace happyml {
         auto configReader = make_shared<DelimitedTextFileReader>(configPath, ':');
 
         auto optimizerRecord = configReader->nextRecord();
-        if (optimizerRecord[0] != "optimizer") {
+        if (optimizerRecord.size() < 2 || optimizerRecord[0] != "optimizer") {
             throw runtime_error("Invalid model.config missing optimizer field.");
         }
         const OptimizerType optimizerType = stringToOptimizerType(optimizerRecord[1]);
 
         auto learningRateRecord = configReader->nextRecord();
-        if (learningRateRecord[0] != "learningRate") {
+        if (learningRateRecord.size() < 2 || learningRateRecord[0] != "learningRate") {
             throw runtime_error("Invalid model.config missing learningRate field.");
         }
         float learningRate = stof(learningRateRecord[1]);
 
         auto biasLearningRateRecord = configReader->nextRecord();
-        if (biasLearningRateRecord[0] != "biasLearningRate") {
+        if (biasLearningRateRecord.size() < 2 || biasLearningRateRecord[0] != "biasLearningRate") {
             throw runtime_error("Invalid model.config missing biasLearningRate field.");
         }
         float biasLearningRate = stof(biasLearningRateRecord[1]);
 
         auto lossRecord = configReader->nextRecord();
-        if (lossRecord[0] != "loss") {
+        if (lossRecord.size() < 2 || lossRecord[0] != "loss") {
             throw runtime_error("Invalid model.config missing loss field.");
         }
         const LossType lossType = stringToLossType(lossRecord[1]);
@@ -1041,6 +1049,9 @@ namespace happyml {
         map<uint32_t, vector<uint32_t>> edgeFromTo;
         while (configReader->hasNext()) {
             auto nextRecord = configReader->nextRecord();
+            if (nextRecord.size() < 3) {
+                throw runtime_error("Invalid model.config incomplete record.");
+            }
             if (nextRecord[0] == "vertex") {
                 uint32_t vertexId = stoul(nextRecord[1]);
                 vertexes[vertexId] = nextRecord;
@@ -1048,6 +1059,8 @@ namespace happyml {
                 if (acceptsInput) {
                     headVertexes.insert(vertexId);
                 }
+            } else if (nextRecord[0] != "edge") {
+                throw runtime_error("Invalid model.config unknown record.");
             } else {
                 uint32_t fromLabel = stoul(nextRecord[1]);
                 vector<uint32_t> toLabels;
@@ -1069,6 +1082,10 @@ namespace happyml {
                                      edgeFromTo);
         }
 
+        if (vertexes.empty() || createdVertexes.size() != vertexes.size()) {
+            throw runtime_error("Invalid model.config with layers that can't be reached.");
+        }
+
         // the order of the edges decides the order of the outputs
         for (const auto &vertexEdges: edgeFromTo) {
             if (createdVertexes.count(vertexEdges.first) > 0) {
-- 
2.43.0


From c93f1fe51ae663d0a94a4d444eedcc45db9f425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:45 +0000
Subject: [PATCH 087/111] fix: a model.config without outputs is an error

---
 src/ml/happyml_dsl.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index e931995..46c4717 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -1093,6 +1093,14 @@ namespace happyml {
             }
         }
 
+        bool producesOutput = false;
+        for (const auto &vertex: createdVertexes) {
+            producesOutput = producesOutput || vertex.second->isForOutput();
+        }
+        if (!producesOutput) {
+            throw runtime_error("Invalid model.config without an output.");
+        }
+
         auto resultNeuralNetwork = dsl->build();
         resultNeuralNetwork->loadKnowledge("default");
         return resultNeuralNetwork;
-- 
2.43.0


From a4a860dde5596243ab8d23ff32b0d9a4c6015e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:17 +0000
Subject: [PATCH 088/111] fix: the last, smaller batch counts in the training
 loss

---
 src/ml/neural_network.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 495006f..20e20f1 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -440,7 +440,7 @@ namespace happyml {
             result->total_records = total_records;
 
             if (!silentMode) {
-                logTraining(0, 0, 0, ceil(total_records / batchSize), batchSize, 0, 0, 0, overwriteOutputLines);
+                logTraining(0, 0, 0, ceil((double) total_records / batchSize), batchSize, 0, 0, 0, overwriteOutputLines);
             }
             size_t epoch = 0;
             ElapsedTimer epochTimer;
@@ -487,7 +487,7 @@ namespace happyml {
 
                     nextRecord = trainingDataset->nextRecord();
                     if (batchOffset >= batchSize || nextRecord == nullptr) {
-                        size_t currentBatch = ceil(current_record / batchSize);
+                        size_t currentBatch = ceil((double) current_record / batchSize);
                         for (size_t outputIndex = 0; outputIndex < outputSize; outputIndex++) {
                             outputNodes[outputIndex]->apply(optimizer);
                         }
@@ -498,7 +498,7 @@ namespace happyml {
                         auto elapsedTime = batchTimer.peekMilliseconds();
                         if (!silentMode) {
                             logTraining(elapsedTime, epoch, currentBatch,
-                                        ceil(total_records / batchSize), batchSize,
+                                        ceil((double) total_records / batchSize), batchSize,
                                         epochTrainingLoss, lowestLoss, lowestLossEpoch,
                                         overwriteOutputLines);
                         }
@@ -547,8 +547,8 @@ namespace happyml {
                         }
                     }
                     if (!silentMode) {
-                        logTraining(batchTimer.peekMilliseconds(), epoch, ceil(total_records / batchSize),
-                                    ceil(total_records / batchSize), batchSize,
+                        logTraining(batchTimer.peekMilliseconds(), epoch, ceil((double) total_records / batchSize),
+                                    ceil((double) total_records / batchSize), batchSize,
                                     epochTrainingLoss, lowestLoss, lowestLossEpoch,
                                     overwriteOutputLines);
                     }
-- 
2.43.0


From 420584079dde8729bc87bfc67e8bffbc32339555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:17 +0000
Subject: [PATCH 089/111] fix: binary accuracy looks at every value of an
 output

---
 src/ml/neural_network.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 20e20f1..f7ebd5b 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -299,7 +299,7 @@ namespace happyml {
                 for (int i = 0; i < testDataset->getExpectedShapes().size(); i++) {
                     auto best_prediction = prediction[i];
                     auto best_actual = actual[i];
-                    for (int j = 0; j < prediction.size(); j++) {
+                    for (int j = 0; j < best_prediction->size(); j++) {
                         if (!roughlyEqual(std::round(best_prediction->getValue(j)), std::round(best_actual->getValue(j)))) {
                             matched_all = false;
                             break;
-- 
2.43.0


From 8c65e8f56c3c9be72eb5e5b957be26095a5e221a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:17 +0000
Subject: [PATCH 090/111] fix: the exit rule is given the time of the whole
 training

---
 src/ml/neural_network.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index f7ebd5b..1f17f12 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -555,7 +555,7 @@ namespace happyml {
                 }
                 trainingDataset->restart();
                 epoch++;
-                trainingElapsedTimeInMilliseconds = epochTimer.getMilliseconds();
+                trainingElapsedTimeInMilliseconds = epochTimer.peekMilliseconds();
             } while (!exitStrategy->isDone(epoch, epochTestingLoss, trainingElapsedTimeInMilliseconds));
 
             if (!silentMode) {
-- 
2.43.0


From d5e5210742a34776b6006b2445f485c4ea888739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:17 +0000
Subject: [PATCH 091/111] fix: the reported epochs are counted from one

---
 src/ml/neural_network.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 1f17f12..48268f6 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -534,7 +534,7 @@ namespace happyml {
                         if (lowestLoss < result->final_test_loss) {
                             result->generalized = result->trained;
                             result->final_test_loss = lowestLoss;
-                            result->epochs = lowestLossEpoch;
+                            result->epochs = lowestLossEpoch + 1;
                             result->training_time_ms = totalTimer.peekMilliseconds();
                         }
                         saveKnowledge(knowledgeCheckpointLabel, true);
@@ -542,7 +542,7 @@ namespace happyml {
                         if (lowestLoss < result->final_test_loss) {
                             result->generalized = result->trained;
                             result->final_test_loss = epochTestingLoss;
-                            result->epochs = epoch;
+                            result->epochs = epoch + 1;
                             result->training_time_ms = totalTimer.peekMilliseconds();
                         }
                     }
-- 
2.43.0


From 2846bc8733b48e9a47fb6507a0df698f8d5cd2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:17 +0000
Subject: [PATCH 092/111] fix: a batch size of zero is refused

---
 src/ml/neural_network.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 48268f6..4c7cdfd 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -422,6 +422,9 @@ namespace happyml {
                 //  set. If they are, give a warning.
             }
             auto total_records = trainingDataset->recordCount();
+            if (batchSize < 1) {
+                throw runtime_error("Batch Size must be at least one.");
+            }
             if (batchSize > total_records) {
                 throw runtime_error("Batch Size cannot be larger than trainingDataset data set.");
             }
-- 
2.43.0


From 6a7a4ba8a4d97f83710267e4de1859e7102bca80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:17 +0000
Subject: [PATCH 093/111] fix: a data set with too few or too many outputs is
 refused

---
 src/ml/neural_network.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 4c7cdfd..426e9af 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -421,6 +421,9 @@ namespace happyml {
                 // TODO: take in a test set and then validate that the records aren't in the training
                 //  set. If they are, give a warning.
             }
+            if (trainingDataset->getExpectedShapes().size() != outputNodes.size()) {
+                throw runtime_error("Training dataset has a different number of outputs than the network.");
+            }
             auto total_records = trainingDataset->recordCount();
             if (batchSize < 1) {
                 throw runtime_error("Batch Size must be at least one.");
-- 
2.43.0


From 0b9f0958dbf0cc051b1eb3c4b90c21605f60375d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:35 +0000
Subject: [PATCH 094/111] fix: knowledge of layers that were not trained is
 saved after training the others

---
 src/ml/neural_network_node.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ml/neural_network_node.hpp b/src/ml/neural_network_node.hpp
index bc9123c..b310b73 100644
--- a/src/ml/neural_network_node.hpp
+++ b/src/ml/neural_network_node.hpp
@@ -58,11 +58,10 @@ namespace happyml {
         }
 
         void markUnsaved() {
-            if (saved) {
-                saved = false;
-                for (const auto &outputConnection: connectionOutputs) {
-                    outputConnection->to->markUnsaved();
-                }
+            // a node that is unsaved may have saved nodes after it, when those were not trained
+            saved = false;
+            for (const auto &outputConnection: connectionOutputs) {
+                outputConnection->to->markUnsaved();
             }
         }
 
-- 
2.43.0


From e4368ec57aa94eed48fd52b1e3ca5c140b1846c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:35 +0000
Subject: [PATCH 095/111] fix: a training does not use what an interrupted one
 left behind

---
 src/ml/base_layer.hpp                        |  4 ++++
 src/ml/layers/activation_layer.hpp           |  4 ++++
 src/ml/layers/bias_layer.hpp                 |  4 ++++
 src/ml/layers/convolution_2d_valid_layer.hpp |  5 +++++
 src/ml/layers/fully_connected_layer.hpp      |  5 +++++
 src/ml/neural_network.hpp                    |  3 +++
 src/ml/neural_network_node.hpp               | 11 +++++++++++
 7 files changed, 36 insertions(+)

diff --git a/src/ml/base_layer.hpp b/src/ml/base_layer.hpp
index cd5e345..29164e6 100644
--- a/src/ml/base_layer.hpp
+++ b/src/ml/base_layer.hpp
@@ -34,6 +34,10 @@ namespace happyml {
 
         }
 
+        // drops the inputs and errors that are remembered for training
+        virtual void forget() {
+        }
+
         virtual void saveKnowledge(const string &fullKnowledgePath) {
         }
 
diff --git a/src/ml/layers/activation_layer.hpp b/src/ml/layers/activation_layer.hpp
index 7e379ae..217fa1b 100644
--- a/src/ml/layers/activation_layer.hpp
+++ b/src/ml/layers/activation_layer.hpp
@@ -14,6 +14,10 @@ namespace happyml {
             this->activationFunction = activationFunction;
         }
 
+        void forget() override {
+            lastInputs = {};
+        }
+
         shared_ptr<BaseTensor> forward(const vector<shared_ptr<BaseTensor>> &input, bool forTraining) override {
             // todo: throw error on wrong size input?
             PROFILE_BLOCK(profileBlock);
diff --git a/src/ml/layers/bias_layer.hpp b/src/ml/layers/bias_layer.hpp
index c3ffa03..be20ead 100644
--- a/src/ml/layers/bias_layer.hpp
+++ b/src/ml/layers/bias_layer.hpp
@@ -40,6 +40,10 @@ namespace happyml {
             this->bias = loadTensor(path, outputShape[0], outputShape[1], outputShape[2]);
         }
 
+        void forget() override {
+            bias_errors = {};
+        }
+
         // predicting
         shared_ptr<BaseTensor> forward(const vector<shared_ptr<BaseTensor>> &input, bool forTraining) override {
             PROFILE_BLOCK(profileBlock);
diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index 059e57c..60ed114 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -52,6 +52,11 @@ namespace happyml {
             }
         }
 
+        void forget() override {
+            lastInputs = {};
+            weight_changes = {};
+        }
+
         shared_ptr<BaseTensor> forward(const vector<shared_ptr<BaseTensor>> &input, bool forTraining) override {
             PROFILE_BLOCK(profileBlock);
             if (input.size() > 1) {
diff --git a/src/ml/layers/fully_connected_layer.hpp b/src/ml/layers/fully_connected_layer.hpp
index 65585e8..9120bdd 100644
--- a/src/ml/layers/fully_connected_layer.hpp
+++ b/src/ml/layers/fully_connected_layer.hpp
@@ -46,6 +46,11 @@ namespace happyml {
             this->weights = loadTensor(path, inputShapes[0][1], outputShape[1], 1);
         }
 
+        void forget() override {
+            lastInputs = {};
+            weights_errors = {};
+        }
+
         // predicting
         shared_ptr<BaseTensor> forward(const vector<shared_ptr<BaseTensor>> &input, bool forTraining) override {
             PROFILE_BLOCK(profileBlock);
diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 426e9af..a669f7f 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -432,6 +432,9 @@ namespace happyml {
                 throw runtime_error("Batch Size cannot be larger than trainingDataset data set.");
             }
 
+            for (const auto &headNode: headNodes) {
+                headNode->forget();
+            }
             auto trainingShuffler = make_shared<Shuffler>(trainingDataset->recordCount());
             trainingDataset->setShuffler(trainingShuffler);
 
diff --git a/src/ml/neural_network_node.hpp b/src/ml/neural_network_node.hpp
index b310b73..d063082 100644
--- a/src/ml/neural_network_node.hpp
+++ b/src/ml/neural_network_node.hpp
@@ -65,6 +65,17 @@ namespace happyml {
             }
         }
 
+        // drops what an interrupted training left behind
+        void forget() {
+            neuralNetworkFunction->forget();
+            has_errors_to_apply = false;
+            for (const auto &outputConnection: connectionOutputs) {
+                outputConnection->next_input = nullptr;
+                outputConnection->prior_error = nullptr;
+                outputConnection->to->forget();
+            }
+        }
+
         void saveKnowledge(const string &fullKnowledgePath) {
             if (saved) {
                 return;
-- 
2.43.0


From 9847bf2937d308e7984f447a573e4919cf3e6939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:54 +0000
Subject: [PATCH 096/111] fix: hyperband eliminates the worst configurations,
 not the best

---
 src/ml/hyperband/hyperband.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ml/hyperband/hyperband.hpp b/src/ml/hyperband/hyperband.hpp
index 571cdb4..2dbb736 100644
--- a/src/ml/hyperband/hyperband.hpp
+++ b/src/ml/hyperband/hyperband.hpp
@@ -74,9 +74,9 @@ namespace happyml {
 
             std::partial_sort(configurations.begin(), configurations.begin() + static_cast<vector<shared_ptr<Hyperparameters>>::difference_type>(num_configurations) / reduction_factor, configurations.end(),
                               [](const shared_ptr<Hyperparameters> &config1, const shared_ptr<Hyperparameters> &config2) {
-                                  // return true if config1 is worse than config2
-                                  return (config1->minimize_metric && config1->evaluation_metric > config2->evaluation_metric) ||
-                                         (!config1->minimize_metric && config1->evaluation_metric < config2->evaluation_metric);
+                                  // return true if config1 is better than config2, because the first ones are kept
+                                  return (config1->minimize_metric && config1->evaluation_metric < config2->evaluation_metric) ||
+                                         (!config1->minimize_metric && config1->evaluation_metric > config2->evaluation_metric);
                               });
 
             configurations.erase(configurations.begin() + static_cast<vector<shared_ptr<Hyperparameters>>::difference_type>(num_configurations) / reduction_factor, configurations.end());
-- 
2.43.0


From 6de94c3dfb2fa5270331dc8c7beb35afe3f2d762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:54 +0000
Subject: [PATCH 097/111] fix: hyperband trains with the resources it allocated

---
 src/ml/hyperband/configuration_evaluator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ml/hyperband/configuration_evaluator.hpp b/src/ml/hyperband/configuration_evaluator.hpp
index 64880aa..8b85d11 100644
--- a/src/ml/hyperband/configuration_evaluator.hpp
+++ b/src/ml/hyperband/configuration_evaluator.hpp
@@ -224,6 +224,7 @@ namespace happyml {
                                                                   improvement_tolerance,
                                                                   2,
                                                                   0.25f);
+            model->setExitStrategy(exit_strategy);
             model->setSilentMode(true);
             shared_ptr<BinaryDataSet> data_set = make_shared<BinaryDataSet>(dataset_path_, dataset_split_);
             shared_ptr<BinaryDataSet> test_data_set = make_shared<BinaryDataSet>(test_dataset_path_, test_dataset_split_);
-- 
2.43.0


From b1e9f5f3c166365b133bd08a875aad9d438fe26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:54 +0000
Subject: [PATCH 098/111] fix: hyperband evaluates a single configuration too

---
 src/ml/hyperband/hyperband.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/hyperband/hyperband.hpp b/src/ml/hyperband/hyperband.hpp
index 2dbb736..828e1dc 100644
--- a/src/ml/hyperband/hyperband.hpp
+++ b/src/ml/hyperband/hyperband.hpp
@@ -25,7 +25,7 @@ namespace happyml {
                 }
                 std::vector<shared_ptr<Hyperparameters>> configurations = generateInitialConfigurations(num_configurations, bits_per_hyperparameter);
                 std::cout << "Searching for the best configuration among " << num_configurations << " likely options." << endl;
-                for (int round = 0; num_configurations > 1; round++) {
+                for (int round = 0; num_configurations > 1 || round == 0; round++) {
                     int allocated_resources = std::max(2, max_resources / static_cast<int>(pow(reduction_factor, round)));
 
                     std::cout << "Round " << (round + 1) << ": ";
-- 
2.43.0


From 9879d6a284ab11e42a7867f2f50b962ca825650e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:45 +0000
Subject: [PATCH 099/111] fix: hyperband goes on when a configuration cannot be
 trained

---
 src/ml/hyperband/hyperband.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ml/hyperband/hyperband.hpp b/src/ml/hyperband/hyperband.hpp
index 828e1dc..635e3da 100644
--- a/src/ml/hyperband/hyperband.hpp
+++ b/src/ml/hyperband/hyperband.hpp
@@ -31,7 +31,13 @@ namespace happyml {
                     std::cout << "Round " << (round + 1) << ": ";
                     std::for_each(std::execution::par, configurations.begin(), configurations.end(), [&](shared_ptr<Hyperparameters> &configuration) {
                         cout << "{";
-                        configuration_evaluator_->evaluateConfiguration(configuration, allocated_resources, target_metric);
+                        try {
+                            configuration_evaluator_->evaluateConfiguration(configuration, allocated_resources, target_metric);
+                        } catch (std::exception &e) {
+                            // this configuration doesn't work for this data set. An exception may not leave a parallel algorithm.
+                            configuration->minimize_metric = configuration_evaluator_->getMinimizeMetric();
+                            configuration->evaluation_metric = configuration->minimize_metric ? INFINITY : -INFINITY;
+                        }
                         cout << "}";
                     });
                     cout << endl;
-- 
2.43.0


From e769b107fefac89687622a9b636ecf8caa67cfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:45 +0000
Subject: [PATCH 100/111] fix: creating a task gives up after the retries it
 allows itself

---
 src/util/task_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index 3cc1929..514886e 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -509,8 +509,8 @@ namespace happyml {
             int attempt = 0;
             float next_search_size = 640.0f;
 
+            int retries = 0;
             while (!found) {
-                int retries = 0;
                 float best_accuracy = 0.0f;
                 string best_attempt_key;
                 shared_ptr<BinaryDataSet> searchDataSource;
-- 
2.43.0


From 097ac5cde9e1247f0bdc4787cfea6754425b3ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:45 +0000
Subject: [PATCH 101/111] fix: creating a task fails when nothing can be
 trained

---
 src/util/task_utils.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index 514886e..dcad4a9 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -605,6 +605,9 @@ namespace happyml {
                             }
                         }
                         complexity_lr_pairs = next_complexity_lr_pairs;
+                        if (complexity_lr_pairs.empty()) {
+                            throw runtime_error("None of the combinations could be trained.");
+                        }
                         cout << "Complexity/learning rate pairs left: " << complexity_lr_pairs.size() << endl;
                         log_file << "Complexity/learning rate pairs left: " << complexity_lr_pairs.size() << endl;
                         for (auto next_pair: complexity_lr_pairs) {
-- 
2.43.0


From 8e1360a4d74f6916b55e882a5fe7cd7a8d694efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:45 +0000
Subject: [PATCH 102/111] fix: a task without its column descriptions is
 incomplete

---
 src/util/task_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index dcad4a9..d9d799f 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -405,7 +405,7 @@ namespace happyml {
             string task_full_path = task_folder_path + task_name;
             if (filesystem::exists(task_full_path)) {
                 string config = task_full_path + "/model.config";
-                if (filesystem::exists(config)) {
+                if (filesystem::exists(config) && filesystem::exists(task_full_path + "/dataset.bin")) {
                     cout << "Task " << task_name << " already exists. Skipping." << endl;
                     return true;
                 }
-- 
2.43.0


From f6808d04945cbe3502c32bea8cefa0cb1fcb7adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:12 +0000
Subject: [PATCH 103/111] fix: labels of a data set read for another one get
 the positions they have there

---
 src/util/file_reader.hpp | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index 6ece919..7c0cd43 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -255,6 +255,7 @@ namespace happyml {
             for (const auto &metadata: given_metadata_) {
                 shared_ptr<BaseTensor> next_tensor = loadTensor(metadata);
                 if (!renormalize_given_metadata_.empty()) {
+                    next_tensor = relabel(next_tensor, metadata, renormalize_given_metadata_[given_offset]);
                     next_tensor = renormalizeAndStandardize(next_tensor, metadata->is_normalized, metadata->is_standardized,
                                                             metadata->min_value, metadata->max_value,
                                                             metadata->mean, metadata->standard_deviation,
@@ -270,6 +271,7 @@ namespace happyml {
             for (const auto &metadata: expected_metadata_) {
                 shared_ptr<BaseTensor> next_tensor = loadTensor(metadata);
                 if (!renormalize_expected_metadata_.empty()) {
+                    next_tensor = relabel(next_tensor, metadata, renormalize_expected_metadata_[expected_offset]);
                     next_tensor = renormalizeAndStandardize(next_tensor, metadata->is_normalized, metadata->is_standardized,
                                                             metadata->min_value, metadata->max_value,
                                                             metadata->mean, metadata->standard_deviation,
@@ -302,14 +304,18 @@ namespace happyml {
             if (index >= expected_metadata_.size()) {
                 throw runtime_error("Index out of bounds");
             }
-            return {expected_metadata_[index]->rows, expected_metadata_[index]->columns, expected_metadata_[index]->channels};
+            const bool relabels = !renormalize_expected_metadata_.empty() && expected_metadata_[index]->purpose == 'L';
+            const auto &metadata = relabels ? renormalize_expected_metadata_[index] : expected_metadata_[index];
+            return {metadata->rows, metadata->columns, metadata->channels};
         }
 
         vector<size_t> getGivenTensorDims(size_t index) {
             if (index >= given_metadata_.size()) {
                 throw runtime_error("Index out of bounds");
             }
-            return {given_metadata_[index]->rows, given_metadata_[index]->columns, given_metadata_[index]->channels};
+            const bool relabels = !renormalize_given_metadata_.empty() && given_metadata_[index]->purpose == 'L';
+            const auto &metadata = relabels ? renormalize_given_metadata_[index] : given_metadata_[index];
+            return {metadata->rows, metadata->columns, metadata->channels};
         }
 
         size_t get_given_column_count() {
@@ -500,6 +506,36 @@ namespace happyml {
             return metadata;
         }
 
+        // The position of a label depends on which labels there are, so the same label can have another position elsewhere.
+        static shared_ptr<BaseTensor> relabel(const shared_ptr<BaseTensor> &tensor,
+                                              const shared_ptr<BinaryColumnMetadata> &from,
+                                              const shared_ptr<BinaryColumnMetadata> &to) {
+            if (from->purpose != 'L' && to->purpose != 'L') {
+                return tensor;
+            }
+            if (from->purpose != to->purpose || from->rows != to->rows) {
+                throw runtime_error("The column " + from->name + " is incompatible with the column " + to->name);
+            }
+            if (from->ordered_labels == to->ordered_labels) {
+                return tensor;
+            }
+            vector<vector<vector<float>>> values(1, vector<vector<float>>(to->rows, vector<float>(to->columns, 0.0f)));
+            for (size_t row = 0; row < from->rows; row++) {
+                for (size_t column = 0; column < from->columns; column++) {
+                    if (tensor->getValue(row, column, 0) == 0.0f) {
+                        continue;
+                    }
+                    const auto &label = from->ordered_labels[column];
+                    const auto position = std::find(to->ordered_labels.begin(), to->ordered_labels.end(), label);
+                    if (position == to->ordered_labels.end()) {
+                        throw runtime_error("Unknown label for the column " + from->name + ": " + label);
+                    }
+                    values[0][row][position - to->ordered_labels.begin()] = 1.0f;
+                }
+            }
+            return make_shared<FullTensor>(values);
+        }
+
         [[nodiscard]] shared_ptr<BaseTensor> loadTensor(const shared_ptr<BinaryColumnMetadata> &metadata) {
             shared_ptr<BaseTensor> next_tensor;
             if (metadata->purpose == 'I') {
-- 
2.43.0


From ccc38f2d930bfb8e7d87e10801bc4b385e8fb69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:12 +0000
Subject: [PATCH 104/111] fix: a task executes a data set in the units and
 labels it was created with

---
 src/util/task_utils.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index d9d799f..9d91bb4 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -178,20 +178,20 @@ namespace happyml {
         auto loadedNeuralNetwork = loadNeuralNetworkForTraining(task_name,
                                                                 task_folder_path);
 
+        // the network works with the units and labels of the data set the task was created with
         string dataset_full_file_path = dataset_file_path + "/dataset.bin";
-        BinaryDatasetReader reader(dataset_full_file_path);
+        BinaryDatasetReader reader(task_full_path + "/dataset.bin");
         vector<shared_ptr<RawDecoder>> given_decoders = build_given_decoders(false, reader);
         vector<shared_ptr<RawDecoder>> expected_decoders = build_expected_decoders(false, reader);
         vector<string> given_column_names = reader.get_given_names();
         vector<string> expected_column_names = reader.get_expected_names();
         auto given_metadata = reader.get_given_metadata();
-        auto expected_metadata = reader.get_expected_metadata();
         reader.close();
 
         vector<string> merged_headers = pretty_print_merge_headers(expected_column_names, given_column_names);
         vector<size_t> widths;
         cout << "Results: " << endl;
-        auto dataset = make_shared<BinaryDataSet>(dataset_full_file_path, given_metadata, expected_metadata);
+        auto dataset = make_shared<BinaryDataSet>(dataset_full_file_path, given_metadata, vector<shared_ptr<BinaryColumnMetadata>>{});
         auto nextRecord = dataset->nextRecord();
         while (nextRecord) {
             auto given_values = nextRecord->getGiven();
-- 
2.43.0


From 80880398199cc2b6c33021d343f4773bb53e0a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:44 +0000
Subject: [PATCH 105/111] fix: a dropout layer uses the rate it is given

---
 src/ml/happyml_dsl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 46c4717..34fbba0 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -343,6 +343,7 @@ namespace happyml {
                                                  this->outputShape,
                                                  false, false,
                                                  ActivationType::linear, parentObject->nextVertexId());
+                nnv->setDropoutRate(dropout_rate);
                 addEdge(nnv);
                 return nnv;
             }
-- 
2.43.0


From 7326d8985331de14dd6defc25c1bf173043c9a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:48 +0000
Subject: [PATCH 106/111] fix: statistics of huge tensors forgot the values of
 groups that one line lacks

---
 src/util/tensor_stats.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/util/tensor_stats.hpp b/src/util/tensor_stats.hpp
index 02c4dd1..ca30d26 100644
--- a/src/util/tensor_stats.hpp
+++ b/src/util/tensor_stats.hpp
@@ -305,7 +305,7 @@ namespace happyml {
             size_t index = 0;
             for (const auto &[val, count]: local->bagCounts14) {
                 const double original = bagCounts->bagCounts14[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
+                if (count > 0 && ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original))) {
                     bagCounts->bagCounts14[index][0] = val;
                 }
                 bagCounts->bagCounts14[index][1] += count;
@@ -314,7 +314,7 @@ namespace happyml {
             index = 0;
             for (const auto &[val, count]: local->bagCounts8) {
                 const double original = bagCounts->bagCounts8[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
+                if (count > 0 && ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original))) {
                     bagCounts->bagCounts8[index][0] = val;
                 }
                 bagCounts->bagCounts8[index][1] += count;
@@ -323,7 +323,7 @@ namespace happyml {
             index = 0;
             for (const auto &[val, count]: local->bagCounts4) {
                 const double original = bagCounts->bagCounts4[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
+                if (count > 0 && ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original))) {
                     bagCounts->bagCounts4[index][0] = val;
                 }
                 bagCounts->bagCounts4[index][1] += count;
@@ -332,7 +332,7 @@ namespace happyml {
             index = 0;
             for (const auto &[val, count]: local->bagCounts1) {
                 const double original = bagCounts->bagCounts1[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
+                if (count > 0 && ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original))) {
                     bagCounts->bagCounts1[index][0] = val;
                 }
                 bagCounts->bagCounts1[index][1] += count;
@@ -341,7 +341,7 @@ namespace happyml {
             index = 0;
             for (const auto &[val, count]: local->bagCountsNegative4) {
                 const double original = bagCounts->bagCountsNegative4[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
+                if (count > 0 && ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original))) {
                     bagCounts->bagCountsNegative4[index][0] = val;
                 }
                 bagCounts->bagCountsNegative4[index][1] += count;
@@ -362,7 +362,7 @@ namespace happyml {
             size_t index = 0;
             for (const auto &[val, count]: local->bagCounts14) {
                 const double original = bagCounts->bagCounts14[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
+                if (count > 0 && ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original))) {
                     bagCounts->bagCounts14[index][0] = val;
                 }
                 bagCounts->bagCounts14[index][1] += count;
@@ -371,7 +371,7 @@ namespace happyml {
             index = 0;
             for (const auto &[val, count]: local->bagCounts8) {
                 const double original = bagCounts->bagCounts8[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
+                if (count > 0 && ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original))) {
                     bagCounts->bagCounts8[index][0] = val;
                 }
                 bagCounts->bagCounts8[index][1] += count;
@@ -380,7 +380,7 @@ namespace happyml {
             index = 0;
             for (const auto &[val, count]: local->bagCounts4) {
                 const double original = bagCounts->bagCounts4[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
+                if (count > 0 && ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original))) {
                     bagCounts->bagCounts4[index][0] = val;
                 }
                 bagCounts->bagCounts4[index][1] += count;
@@ -389,7 +389,7 @@ namespace happyml {
             index = 0;
             for (const auto &[val, count]: local->bagCounts1) {
                 const double original = bagCounts->bagCounts1[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
+                if (count > 0 && ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original))) {
                     bagCounts->bagCounts1[index][0] = val;
                 }
                 bagCounts->bagCounts1[index][1] += count;
@@ -398,7 +398,7 @@ namespace happyml {
             index = 0;
             for (const auto &[val, count]: local->bagCountsNegative4) {
                 const double original = bagCounts->bagCountsNegative4[index][0];
-                if ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original)) {
+                if (count > 0 && ((val == 0) || (val < 0 && val < original) || (val > 0 && val > original))) {
                     bagCounts->bagCountsNegative4[index][0] = val;
                 }
                 bagCounts->bagCountsNegative4[index][1] += count;
-- 
2.43.0


From d187abffdf7cfbe8990c48efa939c65c4e66b646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:28 +0000
Subject: [PATCH 107/111] fix: cutting a text into records repeated a word
 after each sentence and wrote empty records

---
 src/util/dataset_utils.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index b083a9f..8c0891b 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -100,7 +100,8 @@ namespace happyml {
         int near_limit = character_limit * 4 / 5;
         bool write_cell;
         while (std::getline(input_file, token, ' ')) {
-            if (cell.length() + token.length() + 1 <= character_limit) {
+            const bool token_fits = cell.length() + token.length() + 1 <= character_limit;
+            if (token_fits) {
                 cell += " " + token;
                 auto token_len = token.length();
                 write_cell = (cell.length() > near_limit && token_len > 1 && (token[token_len - 1] == '.' || token[token_len - 2] == '.'));
@@ -108,8 +109,10 @@ namespace happyml {
                 write_cell = true;
             }
             if (write_cell) {
-                delimitedTextFileWriter.writeRecord({cell});
-                cell = token;
+                if (!cell.empty()) {
+                    delimitedTextFileWriter.writeRecord({cell});
+                }
+                cell = token_fits ? "" : token;
             }
         }
 
-- 
2.43.0


From 4f9aea3a21f44b107f5775ae1e379e26f95c0af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:07 +0000
Subject: [PATCH 108/111] fix: loading a delimited file read past the end of a
 record with too few values

---
 src/util/dataset_utils.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index 8c0891b..6f771e5 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -474,6 +474,9 @@ namespace happyml {
 
         while (delimitedTextFileReader.hasNext()) {
             auto record = delimitedTextFileReader.nextRecord();
+            if (record.size() < expected_columns + given_columns) {
+                throw runtime_error("A record of " + path + " has only " + to_string(record.size()) + " values.");
+            }
             auto middleIter(record.begin());
             std::advance(middleIter, expected_first ? expected_columns : given_columns);
             vector<string> firstHalf(record.begin(), middleIter);
-- 
2.43.0


From 6afc13f48f47fda6417d0611bca4b1ffe0c1c7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:18 +0000
Subject: [PATCH 109/111] fix: building a network twice gave one without
 outputs that shared the layers of the first

---
 src/ml/happyml_dsl.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 34fbba0..1ccfd63 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -111,6 +111,10 @@ namespace happyml {
             // and then it will add any edge records:
             // "edge", from id, to id, to id, to id...
 
+            // the nodes of a network that was built before belong to that network
+            for (const auto &head: inputReceptors) {
+                head->reset();
+            }
             for (const auto &head: inputReceptors) {
                 neuralNetwork->addHeadNode(head->buildLayer(neuralNetwork, networkMetadata));
             }
@@ -407,8 +411,14 @@ namespace happyml {
             }
 
             void reset() {
+                if (!first_node) {
+                    return; // wasn't built, so neither was anything that follows
+                }
                 this->first_node = nullptr;
                 this->built_last_node = nullptr;
+                for (const auto &edge: edges) {
+                    edge->to->reset();
+                }
             }
 
             shared_ptr<NeuralNetworkForTraining> build() {
-- 
2.43.0


From 3b0905f50cbf2216e2cb3f3df989b8fc9019a67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:18 +0000
Subject: [PATCH 110/111] fix: a setting or output that was refused became part
 of the network all the same

---
 src/ml/happyml_dsl.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 1ccfd63..52b7cb0 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -223,10 +223,10 @@ namespace happyml {
             }
 
             shared_ptr<NNVertex> setUseL2Regularization(bool b) {
-                this->use_l2_regularization = b;
                 if (b && (node_type != LayerType::full && node_type != LayerType::convolution2dValid)) {
                     throw runtime_error("L2 regularization can only be used on full layers or convolution2dValid layers");
                 }
+                this->use_l2_regularization = b;
                 return shared_from_this();
             }
 
@@ -236,19 +236,19 @@ namespace happyml {
             }
 
             shared_ptr<NNVertex> setUseNormalization(bool b) {
-                this->use_normalization = b;
                 if (b && (node_type != LayerType::full && node_type != LayerType::convolution2dValid)) {
                     throw runtime_error("Layer Normalization can only be used on full layers or convolution2dValid layers");
                 }
+                this->use_normalization = b;
                 return shared_from_this();
             }
 
             shared_ptr<NNVertex> setUseBias(bool b) {
-                this->use_bias = b;
                 if (b && (node_type != LayerType::full &&
                           node_type != LayerType::convolution2dValid)) {
                     throw runtime_error("Bias can only be used on full or convolution2dValid layers");
                 }
+                this->use_bias = b;
                 return shared_from_this();
             }
 
@@ -258,11 +258,11 @@ namespace happyml {
             }
 
             shared_ptr<NNVertex> setMaterialized(bool m) {
-                this->materialized = m;
                 if (m && (node_type != LayerType::full &&
                           node_type != LayerType::convolution2dValid)) {
                     throw runtime_error("Materialized can only be used on full or convolution2dValid layers");
                 }
+                this->materialized = m;
                 return shared_from_this();
             }
 
@@ -302,6 +302,7 @@ namespace happyml {
                 if (result->outputShape[0] != nodeOutputShape[0] ||
                     result->outputShape[1] != nodeOutputShape[1] ||
                     result->outputShape[2] != nodeOutputShape[2]) {
+                    edges.pop_back(); // the refused output isn't part of the network
                     stringstream ss;
                     ss << "The calculated output shape of the node ("
                        << result->outputShape[0] << ", " << result->outputShape[1] << ", " << result->outputShape[2]
-- 
2.43.0


From fb2964bf7458d63edd41c93afbaf7949fed86c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:53 +0000
Subject: [PATCH 111/111] fix: a label column that does not name all of its
 labels was read for another one past their end

---
 src/util/file_reader.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index 7c0cd43..91fcbcd 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -519,6 +519,9 @@ namespace happyml {
             if (from->ordered_labels == to->ordered_labels) {
                 return tensor;
             }
+            if (from->ordered_labels.size() != from->columns || to->ordered_labels.size() != to->columns || from->channels != 1) {
+                throw runtime_error("The column " + from->name + " is incompatible with the column " + to->name);
+            }
             vector<vector<vector<float>>> values(1, vector<vector<float>>(to->rows, vector<float>(to->columns, 0.0f)));
             for (size_t row = 0; row < from->rows; row++) {
                 for (size_t column = 0; column < from->columns; column++) {
-- 
2.43.0

