From 118913831d960c047335b234d835cffa1a2eaaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:17 +0000
Subject: [PATCH 01/68] fix: value of a power with variance must equal the
 plain power

The value was computed as base**(exponent-1) * base, which is NaN for a zero
base with negative exponent or an infinite base with exponent < 1. The variance
of x**0 was NaN for x == 0.
---
 lib/core/include/scipp/core/value_and_variance.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/core/include/scipp/core/value_and_variance.h b/lib/core/include/scipp/core/value_and_variance.h
index 77d8fd8..d42867c 100644
--- a/lib/core/include/scipp/core/value_and_variance.h
+++ b/lib/core/include/scipp/core/value_and_variance.h
@@ -69,11 +69,12 @@ constexpr auto operator-(const ValueAndVariance<T> a) noexcept {
 
 template <class B, class E>
 constexpr auto pow(const ValueAndVariance<B> base, const E exponent) noexcept {
+  // The value must not be derived from the derivative: `pow_1 * base.value` is
+  // NaN if one factor is zero and the other infinite.
+  const auto pow_0 = numeric::pow(base.value, exponent);
   const auto pow_1 = numeric::pow(base.value, exponent - 1);
-  const auto var_factor = std::abs(exponent) * pow_1;
-  const auto pow_0 = (base.value == 0 && exponent == 0  ? 1
-                      : base.value == 0 && exponent > 0 ? 0
-                                                        : pow_1 * base.value);
+  const auto var_factor =
+      exponent == 0 ? decltype(pow_1)(0) : std::abs(exponent) * pow_1;
   return ValueAndVariance{pow_0, var_factor * var_factor * base.variance};
 }
 
-- 
2.43.0


From be6673f47a18216af723dd634cad7c1579de22d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:55 +0000
Subject: [PATCH 02/68] fix: islinspace and isarange must reject non-monotonic
 and NaN data

Using the absolute difference of neighbors accepted integer sequences such as
0,1,0,1,2, which then took the shortcuts for evenly spaced edges and groups.
NaN compared false against the tolerance and was accepted as well. Differences
of integers overflowed for large ranges.
---
 lib/common/include/scipp/common/numeric.h | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/lib/common/include/scipp/common/numeric.h b/lib/common/include/scipp/common/numeric.h
index eb51afb..157ca01 100644
--- a/lib/common/include/scipp/common/numeric.h
+++ b/lib/common/include/scipp/common/numeric.h
@@ -13,6 +13,18 @@
 
 namespace scipp::numeric {
 
+namespace {
+/// Return `b - a`, provided that `a <= b`. Integers do not overflow.
+template <class T> constexpr auto step(const T &a, const T &b) {
+  if constexpr (std::is_integral_v<T>) {
+    using U = std::make_unsigned_t<T>;
+    return static_cast<U>(static_cast<U>(b) - static_cast<U>(a));
+  } else {
+    return b - a;
+  }
+}
+} // namespace
+
 template <class Range> bool islinspace(const Range &range) {
   if (scipp::size(range) < 2)
     return false;
@@ -27,14 +39,15 @@ template <class Range> bool islinspace(const Range &range) {
                       (std::abs(range.front()) + std::abs(range.back())) * ulp;
     return std::adjacent_find(range.begin(), range.end(),
                               [epsilon, delta](const auto &a, const auto &b) {
-                                return std::abs(std::abs(b - a) - delta) >
-                                       epsilon;
+                                // Negated so NaN is not accepted.
+                                return !(std::abs(std::abs(b - a) - delta) <=
+                                         epsilon);
                               }) == range.end();
   } else {
-    const auto delta = range[1] - range[0];
+    const auto delta = step(range[0], range[1]);
     return std::adjacent_find(range.begin(), range.end(),
                               [delta](const auto &a, const auto &b) {
-                                return std::abs(b - a) != delta;
+                                return b <= a || step(a, b) != delta;
                               }) == range.end();
   }
 }
@@ -47,7 +60,7 @@ template <class Range> bool isarange(const Range &range) {
     return false;
   return std::adjacent_find(range.begin(), range.end(),
                             [](const auto &a, const auto &b) {
-                              return std::abs(b - a) != 1;
+                              return b <= a || step(a, b) != 1;
                             }) == range.end();
 }
 
-- 
2.43.0


From 81f950851e5b863c4df1c056ef05953fc1cbab38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:55 +0000
Subject: [PATCH 03/68] fix: exact floor division and remainder of integers

Going through double gave wrong quotients and remainders for 64-bit integers
beyond 2**53, such as times in nanoseconds, and quotient * divisor overflowed.
---
 lib/common/include/scipp/common/numeric.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/lib/common/include/scipp/common/numeric.h b/lib/common/include/scipp/common/numeric.h
index 157ca01..8c2e88a 100644
--- a/lib/common/include/scipp/common/numeric.h
+++ b/lib/common/include/scipp/common/numeric.h
@@ -76,9 +76,19 @@ template <class T, class U> auto true_divide(const T &a, const U &b) {
 template <class T, class U>
 std::common_type_t<T, U> floor_divide(const T &a, const U &b) {
   using std::floor;
-  if constexpr (std::is_integral_v<T> && std::is_integral_v<U>)
-    return b == 0 ? 0 : floor(static_cast<double>(a) / static_cast<double>(b));
-  else
+  if constexpr (std::is_integral_v<T> && std::is_integral_v<U>) {
+    // Not using floating-point division since double cannot represent all
+    // 64-bit integers.
+    using R = std::common_type_t<T, U>;
+    if (b == 0)
+      return 0;
+    if (b == -1) // the minimum divided by -1 is undefined, wrap around instead
+      return static_cast<R>(std::make_unsigned_t<R>(0) -
+                            static_cast<std::make_unsigned_t<R>>(a));
+    const auto quotient = static_cast<R>(a) / static_cast<R>(b);
+    const bool round_down = (a < 0) != (b < 0) && quotient * b != a;
+    return round_down ? quotient - 1 : quotient;
+  } else
     return floor(a / b);
 }
 
@@ -87,7 +97,11 @@ template <class T, class U> auto remainder(const T &a, const U &b) {
   if constexpr (std::is_floating_point_v<T> || std::is_floating_point_v<U>) {
     return b == 0 ? NAN : a - floor_divide(a, b) * b;
   } else {
-    return b == 0 ? 0 : a - floor_divide(a, b) * b;
+    using R = std::common_type_t<T, U>;
+    if (b == 0 || b == -1)
+      return R(0);
+    const auto rem = static_cast<R>(static_cast<R>(a) % static_cast<R>(b));
+    return static_cast<R>(rem != 0 && (rem < 0) != (b < 0) ? rem + b : rem);
   }
 }
 
-- 
2.43.0


From f742ead62e34c2d31a7f4c01133c28762c89d506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:55 +0000
Subject: [PATCH 04/68] fix: avoid negation overflow in pow with smallest
 integer exponent

---
 lib/common/include/scipp/common/numeric.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/common/include/scipp/common/numeric.h b/lib/common/include/scipp/common/numeric.h
index 8c2e88a..9db627e 100644
--- a/lib/common/include/scipp/common/numeric.h
+++ b/lib/common/include/scipp/common/numeric.h
@@ -129,8 +129,10 @@ constexpr auto pow(const B base, const E exponent) noexcept {
     if (exponent >= 0) {
       return integer_pow_pos_exponent(base, exponent);
     } else {
+      // Negate as unsigned, the minimum has no signed counterpart.
+      using U = std::make_unsigned_t<std::decay_t<E>>;
       return static_cast<std::decay_t<B>>(1) /
-             integer_pow_pos_exponent(base, -exponent);
+             integer_pow_pos_exponent(base, U(0) - static_cast<U>(exponent));
     }
   } else {
     using std::pow;
-- 
2.43.0


From 40d14b5b8ab057ccc3d6302bce19abc36e6bb524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:36 +0000
Subject: [PATCH 05/68] fix: concurrent first use of a dimension label must
 yield a single id

---
 lib/units/dim.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/units/dim.cpp b/lib/units/dim.cpp
index 83563a2..b90df86 100644
--- a/lib/units/dim.cpp
+++ b/lib/units/dim.cpp
@@ -58,6 +58,11 @@ Dim::Dim(const std::string &label) {
   }
   read_lock.unlock();
   const std::unique_lock write_lock(mutex);
+  // Another thread may have added the label while no lock was held.
+  if (const auto it = custom_ids().find(label); it != custom_ids().end()) {
+    m_id = it->second;
+    return;
+  }
   const auto id = scipp::size(custom_ids()) + 1000;
   if (id > std::numeric_limits<std::underlying_type<Id>::type>::max())
     throw std::runtime_error(
-- 
2.43.0


From ad0085fea7ac96a847bb7d5fe486a38abdc337e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:47 +0000
Subject: [PATCH 06/68] fix: name all built-in dimension labels

---
 lib/units/dim.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/units/dim.cpp b/lib/units/dim.cpp
index b90df86..4318a27 100644
--- a/lib/units/dim.cpp
+++ b/lib/units/dim.cpp
@@ -24,6 +24,9 @@ const auto &builtin_ids() {
       {"<internal_histogram>", Dim::InternalHistogram},
       {"<internal_sort>", Dim::InternalSort},
       {"<internal_accumulate>", Dim::InternalAccumulate},
+      {"<internal_bin_coarse>", Dim::InternalBinCoarse},
+      {"<internal_bin_fine>", Dim::InternalBinFine},
+      {"<internal_subbin>", Dim::InternalSubbin},
       {"energy", Dim::Energy},
       {"event", Dim::Event},
       {"group", Dim::Group},
-- 
2.43.0


From 2c9f66f20d9f8b342561393121b7748265610d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:47 +0000
Subject: [PATCH 07/68] fix: reject views with too many dimensions instead of
 writing out of bounds

---
 lib/core/view_index.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/core/view_index.cpp b/lib/core/view_index.cpp
index 57493cf..6d7e55f 100644
--- a/lib/core/view_index.cpp
+++ b/lib/core/view_index.cpp
@@ -4,6 +4,9 @@
 /// @author Jan-Lukas Wynen
 #include "scipp/core/view_index.h"
 
+#include <stdexcept>
+#include <string>
+
 #include "scipp/core/except.h"
 
 namespace scipp::core {
@@ -19,6 +22,10 @@ ViewIndex::ViewIndex(const Dimensions &target_dimensions,
     const auto size = target_dimensions.size(dim_read);
     rewind = size * stride;
     if (delta != 0 || stride == 0) {
+      if (dim_write >= NDIM_OP_MAX)
+        throw std::runtime_error("Operations with more than " +
+                                 std::to_string(NDIM_OP_MAX) +
+                                 " dimensions are not supported.");
       m_shape[dim_write] = size;
       m_delta[dim_write] = delta;
       m_strides[dim_write] = stride;
-- 
2.43.0


From 2f7b78ddd1fa61cfa675197ea16bd7ce28e12862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:47 +0000
Subject: [PATCH 08/68] fix: memory bounds of a broadcast view must include its
 element

---
 lib/common/include/scipp/common/index_composition.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/common/include/scipp/common/index_composition.h b/lib/common/include/scipp/common/index_composition.h
index 54c043a..5b0edca 100644
--- a/lib/common/include/scipp/common/index_composition.h
+++ b/lib/common/include/scipp/common/index_composition.h
@@ -55,6 +55,10 @@ constexpr auto memory_bounds(ForwardIt1 shape_it, const ForwardIt1 shape_end,
     else
       end += *shape_it * *strides_it;
   }
+  if (begin == end) {
+    // With only zero strides (broadcast) a single element is in use.
+    ++end;
+  }
   return std::pair{begin, end};
 }
 
-- 
2.43.0


From 97e587c136188802e2952c5e953c4d99839772c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:59 +0000
Subject: [PATCH 09/68] fix: do not merge a broadcast dimension into the
 innermost one

---
 lib/core/multi_index.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/core/multi_index.cpp b/lib/core/multi_index.cpp
index a6b37c1..3665b67 100644
--- a/lib/core/multi_index.cpp
+++ b/lib/core/multi_index.cpp
@@ -105,10 +105,13 @@ flatten_dims(const scipp::span<std::array<scipp::index, sizeof...(StridesArgs)>>
                                "For binned data, the combined bin+event "
                                "dimensions count");
     const auto size = dims.size(dim_read);
+    // Must be called for every dim since it updates strides_for_contiguous.
+    const bool contiguous =
+        can_be_flattened(dim_read, size, std::make_index_sequence<N>{},
+                         strides_for_contiguous, strides...);
     if (dim_read > non_flattenable_dim &&
         dim_write > 0 && // need to write at least one inner dim
-        can_be_flattened(dim_read, size, std::make_index_sequence<N>{},
-                         strides_for_contiguous, strides...)) {
+        contiguous) {
       out_shape[dim_write - 1] *= size;
     } else {
       out_shape[dim_write] = size;
-- 
2.43.0


From 32212ca49040e52a375094f851afef03e97d7790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:26 +0000
Subject: [PATCH 10/68] fix: bins in a buffer with another dimension of length
 zero are empty

---
 lib/core/multi_index.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib/core/multi_index.cpp b/lib/core/multi_index.cpp
index 3665b67..49bfabd 100644
--- a/lib/core/multi_index.cpp
+++ b/lib/core/multi_index.cpp
@@ -64,6 +64,16 @@ template <class T>
                      static_cast<size_t>(NDIM_OP_MAX - begin)};
 }
 
+/// Number of elements every bin contains per step along the sliced dim.
+[[nodiscard]] scipp::index volume_without(const Dimensions &dims,
+                                          const Dim excluded) {
+  scipp::index volume = 1;
+  for (const auto &dim : dims)
+    if (dim != excluded)
+      volume *= dims[dim];
+  return volume;
+}
+
 template <class StridesArg>
 [[nodiscard]] scipp::index value_or_default(const StridesArg &strides,
                                             const scipp::index i) {
@@ -138,7 +148,12 @@ template <scipp::index N>
 template <class... Params>
 MultiIndex<N>::MultiIndex(binned_tag, const Dimensions &inner_dims,
                           const Dimensions &bin_dims, const Params &...params)
-    : m_bin{BinIterator(params.bucketParams(), bin_dims.volume())...} {
+    // All bins are empty if a dim of the buffer apart from the sliced one is.
+    : m_bin{BinIterator(
+          params.bucketParams(),
+          bin_dims.volume() *
+              volume_without(inner_dims,
+                             get_slice_dim(params.bucketParams()...)))...} {
   validate_bin_indices(params...);
 
   const Dim slice_dim = get_slice_dim(params.bucketParams()...);
-- 
2.43.0


From c644997b4d380d76cebdc257ac4259813968558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:02 +0000
Subject: [PATCH 11/68] fix: copy-assigning an unset element_array must yield
 an unset one

---
 lib/core/include/scipp/core/element_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core/include/scipp/core/element_array.h b/lib/core/include/scipp/core/element_array.h
index 7b16df9..37d3843 100644
--- a/lib/core/include/scipp/core/element_array.h
+++ b/lib/core/include/scipp/core/element_array.h
@@ -104,7 +104,7 @@ public:
   }
 
   element_array &operator=(const element_array &other) {
-    return *this = element_array(other.begin(), other.end());
+    return *this = element_array(other);
   }
 
   explicit operator bool() const noexcept { return m_size != -1; }
-- 
2.43.0


From a3a85c8a82d9ed37e49787c3456d0f17755a7aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:02 +0000
Subject: [PATCH 12/68] fix: exclusive scan of sub-bin sizes must not read
 below the stored sizes

---
 lib/core/subbin_sizes.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/core/subbin_sizes.cpp b/lib/core/subbin_sizes.cpp
index ec77f5f..adce7c8 100644
--- a/lib/core/subbin_sizes.cpp
+++ b/lib/core/subbin_sizes.cpp
@@ -97,6 +97,11 @@ SubbinSizes operator-(const SubbinSizes &a, const SubbinSizes &b) {
  * via suboperations but a single loop.
  */
 void SubbinSizes::exclusive_scan(SubbinSizes &x) {
+  if (x.offset() < offset()) {
+    // Nothing accumulated yet below the old offset.
+    m_sizes.insert(m_sizes.begin(), offset() - x.offset(), 0);
+    m_offset = x.offset();
+  }
   const scipp::index osize = scipp::size(sizes());
   const scipp::index size = scipp::size(x.sizes());
   const auto delta = x.offset() - offset();
-- 
2.43.0


From 26a7344ccc5c6873f9d819c6bb261252ed3ee0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 13/68] fix: product of affine and linear transform composes
 them

---
 lib/core/include/scipp/core/spatial_transforms.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/core/include/scipp/core/spatial_transforms.h b/lib/core/include/scipp/core/spatial_transforms.h
index 40dfdf0..de194a7 100644
--- a/lib/core/include/scipp/core/spatial_transforms.h
+++ b/lib/core/include/scipp/core/spatial_transforms.h
@@ -127,6 +127,14 @@ operator*(const T_LHS &lhs, const T_RHS &rhs) {
   return Eigen::Affine3d(asEigenType(lhs) * asEigenType(rhs));
 }
 
+/// Eigen treats the columns of a 3x3 matrix on the right-hand side as points.
+[[nodiscard]] inline Eigen::Affine3d operator*(const Eigen::Affine3d &lhs,
+                                               const Eigen::Matrix3d &rhs) {
+  Eigen::Affine3d out(lhs);
+  out.linear() = lhs.linear() * rhs;
+  return out;
+}
+
 [[nodiscard]] inline Eigen::Vector3d operator*(const Quaternion &lhs,
                                                const Eigen::Vector3d &rhs) {
   return asEigenType(lhs) * rhs;
-- 
2.43.0


From a378df47092ad8bf316eb42748113002dff19c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 14/68] fix: overflow in bounds check of point slice at largest
 index

---
 lib/core/except.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/core/except.cpp b/lib/core/except.cpp
index a796b29..02ade08 100644
--- a/lib/core/except.cpp
+++ b/lib/core/except.cpp
@@ -97,8 +97,10 @@ void ndim_is(const Sizes &dims, const scipp::index expected) {
 void validSlice(const Sizes &dims, const Slice &slice) {
   if (slice == Slice{})
     return;
-  const auto end = slice.end() < 0 ? slice.begin() + 1 : slice.end();
-  if (!dims.contains(slice.dim()) || end > dims[slice.dim()])
+  const auto in_range = [&](const auto size) {
+    return slice.isRange() ? slice.end() <= size : slice.begin() < size;
+  };
+  if (!dims.contains(slice.dim()) || !in_range(dims[slice.dim()]))
     throw except::SliceError("Expected " + to_string(slice) + " to be in " +
                              to_string(dims) + ".");
 }
-- 
2.43.0


From 3993bb391b330226db83f947038ca69dacec0e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:48 +0000
Subject: [PATCH 15/68] fix: no pointer arithmetic on the null buffer of an
 array without elements

---
 lib/core/include/scipp/core/element_array_view.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/core/include/scipp/core/element_array_view.h b/lib/core/include/scipp/core/element_array_view.h
index 2b4609e..bba566f 100644
--- a/lib/core/include/scipp/core/element_array_view.h
+++ b/lib/core/include/scipp/core/element_array_view.h
@@ -103,12 +103,16 @@ public:
   ElementArrayView(T *buffer, const scipp::index offset,
                    const Dimensions &iterDims, const Strides &strides,
                    const BucketParams &bucketParams = BucketParams{})
-      : ElementArrayViewParams(offset, iterDims, strides, bucketParams),
+      : ElementArrayViewParams(buffer ? offset : 0, iterDims, strides,
+                               bucketParams),
         m_buffer(buffer) {}
 
   /// Construct an ElementArrayView over given buffer.
   ElementArrayView(const ElementArrayViewParams &base, T *buffer)
-      : ElementArrayViewParams(base), m_buffer(buffer) {}
+      : ElementArrayViewParams(base), m_buffer(buffer) {
+    if (!buffer) // no elements, the offset of a slice is meaningless
+      m_offset = 0;
+  }
 
   /// Construct a ElementArrayView from another ElementArrayView, with different
   /// iteration dimensions.
-- 
2.43.0


From b4d275028628151d5883cbcf47f03695930a8c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:32 +0000
Subject: [PATCH 16/68] fix: apply spatial transforms with translation also to
 binned data

---
 lib/variable/arithmetic.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/variable/arithmetic.cpp b/lib/variable/arithmetic.cpp
index d42dee8..17e3e8a 100644
--- a/lib/variable/arithmetic.cpp
+++ b/lib/variable/arithmetic.cpp
@@ -15,8 +15,9 @@ namespace scipp::variable {
 namespace {
 
 bool is_transform_with_translation(const Variable &var) {
-  return var.dtype() == dtype<Eigen::Affine3d> ||
-         var.dtype() == dtype<scipp::core::Translation>;
+  const auto type = variableFactory().elem_dtype(var);
+  return type == dtype<Eigen::Affine3d> ||
+         type == dtype<scipp::core::Translation>;
 }
 
 auto make_factor(const Variable &prototype, const double value) {
@@ -50,7 +51,7 @@ Variable operator-(const Variable &a, const Variable &b) {
 Variable operator*(const Variable &a, const Variable &b) {
   if (is_transform_with_translation(a) &&
       (is_transform_with_translation(b) ||
-       b.dtype() == dtype<Eigen::Vector3d>)) {
+       variableFactory().elem_dtype(b) == dtype<Eigen::Vector3d>)) {
     return transform(a, b, core::element::apply_spatial_transformation,
                      std::string_view("apply_spatial_transformation"));
   } else {
-- 
2.43.0


From 1955cd124783f8ec2be95aca618fee184e5db7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:26 +0000
Subject: [PATCH 17/68] fix: pow with output argument must not discard its
 result or damage operands

Integer output with floating-point exponent was left holding the base, an
output that is also the exponent was overwritten before it was read, and on
errors the output was left modified.
---
 lib/variable/pow.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/variable/pow.cpp b/lib/variable/pow.cpp
index 38ee422..3786c7a 100644
--- a/lib/variable/pow.cpp
+++ b/lib/variable/pow.cpp
@@ -111,8 +111,12 @@ Variable pow(const Variable &base, const Variable &exponent) {
 Variable &pow(const Variable &base, const Variable &exponent, Variable &out) {
   const auto target_dims = merge(base.dims(), exponent.dims());
   core::expect::equals(target_dims, out.dims());
-  copy(astype(base, out.dtype(), CopyPolicy::TryAvoid), out);
-  pow_handle_dtype(out, exponent, true);
-  return out;
+  // Not computing directly in `out`: it may be the exponent, and has to stay
+  // unchanged if there is an error.
+  const auto result = pow_handle_dtype(
+      astype(base, variableFactory().elem_dtype(out), CopyPolicy::TryAvoid)
+          .broadcast(target_dims),
+      exponent, false);
+  return copy(result, out);
 }
 } // namespace scipp::variable
-- 
2.43.0


From 9f39dded4826cc18ceff817815139b29159b569b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:26 +0000
Subject: [PATCH 18/68] fix: pow must treat binned integers like dense integers

---
 lib/variable/pow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/variable/pow.cpp b/lib/variable/pow.cpp
index 3786c7a..f8a1b0a 100644
--- a/lib/variable/pow.cpp
+++ b/lib/variable/pow.cpp
@@ -88,7 +88,7 @@ Variable pow_handle_dtype(V &&base, const Variable &exponent,
   if (is_bins(exponent)) {
     throw std::invalid_argument("Binned exponents are not supported by pow.");
   }
-  if (!is_int(base.dtype())) {
+  if (!is_int(variableFactory().elem_dtype(base))) {
     return pow_handle_unit(std::forward<V>(base), exponent, in_place);
   }
   if (is_int(exponent.dtype())) {
-- 
2.43.0


From 85b175d23615ae8e442899140bf61b1770696da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:45 +0000
Subject: [PATCH 19/68] fix: powers of units must not truncate or overflow the
 exponent

---
 lib/units/unit.cpp   | 5 ++++-
 lib/variable/pow.cpp | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/units/unit.cpp b/lib/units/unit.cpp
index 3b18cb6..5f624aa 100644
--- a/lib/units/unit.cpp
+++ b/lib/units/unit.cpp
@@ -3,6 +3,7 @@
 /// @file
 /// @author Simon Heybrock
 /// @author Neil Vaytet
+#include <limits>
 #include <regex>
 #include <stdexcept>
 
@@ -157,7 +158,9 @@ Unit sqrt(const Unit &a) {
 Unit pow(const Unit &a, const int64_t power) {
   if (a == none)
     return a;
-  if (llnl::units::pow_overflows(a.underlying(), static_cast<int>(power)))
+  if (power < std::numeric_limits<int>::min() ||
+      power > std::numeric_limits<int>::max() ||
+      llnl::units::pow_overflows(a.underlying(), static_cast<int>(power)))
     throw except::UnitError("Unsupported unit as result of pow: pow(" +
                             a.name() + ", " + std::to_string(power) + ").");
   return Unit{a.underlying().pow(static_cast<int>(power))};
diff --git a/lib/variable/pow.cpp b/lib/variable/pow.cpp
index f8a1b0a..c5d9a2d 100644
--- a/lib/variable/pow.cpp
+++ b/lib/variable/pow.cpp
@@ -38,7 +38,9 @@ template <class T> struct PowUnit {
                            const Variable &exponent) {
     const auto exp_val = exponent.value<T>();
     if constexpr (std::is_floating_point_v<T>) {
-      if (static_cast<T>(static_cast<int64_t>(exp_val)) != exp_val) {
+      constexpr auto limit = static_cast<T>(1ull << 63);
+      if (!(exp_val >= -limit && exp_val < limit) ||
+          static_cast<T>(static_cast<int64_t>(exp_val)) != exp_val) {
         throw except::UnitError("Powers of dimension-full variables must be "
                                 "integers or integer valued floats. Got " +
                                 std::to_string(exp_val) + ".");
-- 
2.43.0


From a4c2900fbcf9860d21388b894424637a15a57a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:04 +0000
Subject: [PATCH 20/68] fix: views of bins with different bin indices overlap

---
 lib/core/element_array_view.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/core/element_array_view.cpp b/lib/core/element_array_view.cpp
index e0b2b35..468a4e3 100644
--- a/lib/core/element_array_view.cpp
+++ b/lib/core/element_array_view.cpp
@@ -63,8 +63,14 @@ void ElementArrayViewParams::requireContiguous() const {
 
 [[nodiscard]] bool
 ElementArrayViewParams::overlaps(const ElementArrayViewParams &other) const {
+  // Views of bins with different bin indices are not the same, even if they
+  // otherwise agree, since the bins may be in different places of the buffer.
+  const auto &bins = m_bucketParams;
+  const auto &other_bins = other.m_bucketParams;
   if (m_offset == other.m_offset && m_iterDims == other.m_iterDims &&
-      m_strides == other.m_strides) {
+      m_strides == other.m_strides && bins.indices == other_bins.indices &&
+      bins.dim == other_bins.dim && bins.dims == other_bins.dims &&
+      bins.strides == other_bins.strides) {
     // When both views are exactly the same, we should be fine without
     // making extra copies.
     return false;
-- 
2.43.0


From 82a4f14f5240dec21c77b3efd6d6dd26a3accc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:25 +0000
Subject: [PATCH 21/68] fix: refuse in-place unit change of bins in a buffer
 slice before changing data

---
 .../include/scipp/variable/bin_array_variable.tcc        | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/variable/include/scipp/variable/bin_array_variable.tcc b/lib/variable/include/scipp/variable/bin_array_variable.tcc
index c27c987..7ef26ad 100644
--- a/lib/variable/include/scipp/variable/bin_array_variable.tcc
+++ b/lib/variable/include/scipp/variable/bin_array_variable.tcc
@@ -148,7 +148,14 @@ public:
   }
   void expect_can_set_elem_unit(const Variable &var,
                                 const units::Unit &u) const override {
-    if (elem_unit(var) != u && var.is_slice())
+    const auto buffer_is_slice = [](const auto &buf) {
+      if constexpr (std::is_same_v<T, Variable>)
+        return buf.is_slice();
+      else
+        return buf.data().is_slice();
+    };
+    if (elem_unit(var) != u &&
+        (var.is_slice() || buffer_is_slice(buffer(var))))
       throw except::UnitError("Partial view on data of variable cannot be "
                               "used to change the unit.");
   }
-- 
2.43.0


From 86cb418c92b37f7b6496c41d879fcfdbbfc7c113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:54 +0000
Subject: [PATCH 22/68] fix: failing in-place operations must not modify masks,
 nor skip items sharing data with the operand

---
 lib/dataset/arithmetic.cpp                  | 17 +++++++++++++----
 lib/dataset/bins.cpp                        | 11 +++++++----
 lib/dataset/dataset.cpp                     | 16 +++++++++++++---
 lib/dataset/include/scipp/dataset/dataset.h |  5 +++++
 lib/templates/dataset_inplace.cpp.in        |  7 +++++--
 5 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/lib/dataset/arithmetic.cpp b/lib/dataset/arithmetic.cpp
index 929e6f6..fcffc7f 100644
--- a/lib/dataset/arithmetic.cpp
+++ b/lib/dataset/arithmetic.cpp
@@ -2,6 +2,8 @@
 // Copyright (c) 2023 Scipp contributors (https://github.com/scipp)
 /// @file
 /// @author Simon Heybrock
+#include <vector>
+
 #include "scipp/core/element/arithmetic.h"
 #include "scipp/dataset/dataset.h"
 #include "scipp/dataset/except.h"
@@ -27,6 +29,7 @@ template <class T, class Op> void dry_run_op(T &&a, const Variable &b, Op op) {
 
 template <class T, class Op> void dry_run_op(T &&a, const DataArray &b, Op op) {
   expect::coords_are_superset(a, b, "");
+  expect_can_union_or_in_place(a.masks(), b.masks());
   dry_run_op(a, b.data(), op);
 }
 
@@ -66,18 +69,24 @@ decltype(auto) apply_with_delay(const Op &op, A &&a, const B &b) {
     dry_run_op(item, b, op);
   // For `b` referencing data in `a` we delay operation. The alternative would
   // be to make a deep copy of `other` before starting the iteration over items.
-  DataArray delayed;
+  std::vector<DataArray> delayed;
   // Note the inefficiency here: We are comparing some or all of the coords for
   // each item. This could be improved by implementing the operations for
   // internal items of Dataset instead of DataArray.
   for (auto &&item : a) {
     if (have_common_underlying(item, b))
-      delayed = item;
+      delayed.emplace_back(item);
     else
       op(item, b);
   }
-  if (delayed.is_valid())
-    op(delayed, b);
+  if (delayed.size() == 1) {
+    op(delayed.front(), b);
+  } else if (delayed.size() > 1) {
+    // The first operation may modify `b`.
+    const auto operand = copy(b);
+    for (auto &item : delayed)
+      op(item, operand);
+  }
   return std::forward<A>(a);
 }
 
diff --git a/lib/dataset/bins.cpp b/lib/dataset/bins.cpp
index 7dc350f..450e4a0 100644
--- a/lib/dataset/bins.cpp
+++ b/lib/dataset/bins.cpp
@@ -313,10 +313,11 @@ void append(Variable &&var0, const Variable &var1) { append(var0, var1); }
 
 void append(DataArray &a, const DataArray &b) {
   expect::coords_are_superset(a, b, "bins.append");
-  union_or_in_place(a.masks(), b.masks());
+  expect_can_union_or_in_place(a.masks(), b.masks());
   auto data = a.data();
   append(data, b.data());
   a.setData(data);
+  union_or_in_place(a.masks(), b.masks());
 }
 
 Variable histogram(const Variable &data, const Variable &binEdges) {
@@ -388,9 +389,9 @@ void scale(DataArray &array, const DataArray &histogram, Dim dim) {
   if (dim == Dim::Invalid)
     dim = edge_dimension(histogram);
   // Coords along dim are ignored since "binning" is dynamic for buckets.
-  expect::coords_are_superset(array, histogram.slice({dim, 0}), "bins.scale");
-  // scale applies masks along dim but others are kept
-  union_or_in_place(array.masks(), histogram.slice({dim, 0}).masks());
+  const auto other = histogram.slice({dim, 0});
+  expect::coords_are_superset(array, other, "bins.scale");
+  expect_can_union_or_in_place(array.masks(), other.masks());
   auto data = bins_view<DataArray>(array.data()).data();
   const auto &coord = bins_view<DataArray>(array.data()).meta()[dim];
   const auto &edges = histogram.meta()[dim];
@@ -407,5 +408,7 @@ void scale(DataArray &array, const DataArray &histogram, Dim dim) {
                        core::element::event::map_and_mul_sorted_edges,
                        "bins.scale");
   }
+  // scale applies masks along dim but others are kept
+  union_or_in_place(array.masks(), other.masks());
 }
 } // namespace scipp::dataset::buckets
diff --git a/lib/dataset/dataset.cpp b/lib/dataset/dataset.cpp
index bdc19b0..2786ff2 100644
--- a/lib/dataset/dataset.cpp
+++ b/lib/dataset/dataset.cpp
@@ -337,10 +337,13 @@ typename Masks::holder_type union_or(const Masks &currentMasks,
   return out;
 }
 
-void union_or_in_place(Masks &currentMasks, const Masks &otherMasks) {
+/// Throw if union_or_in_place would fail. Masks are not modified.
+void expect_can_union_or_in_place(const Masks &currentMasks,
+                                  const Masks &otherMasks) {
   using core::to_string;
   using units::to_string;
 
+  auto result = currentMasks;
   for (const auto &[key, item] : otherMasks) {
     const auto it = currentMasks.find(key);
     if (it == currentMasks.end() && currentMasks.is_readonly()) {
@@ -353,17 +356,24 @@ void union_or_in_place(Masks &currentMasks, const Masks &otherMasks) {
                                    "broadcast along the slice dimension.");
     } else if (it != currentMasks.end() &&
                (item.dtype() != core::dtype<bool> ||
-                currentMasks[key].dtype() != core::dtype<bool>)) {
+                it->second.dtype() != core::dtype<bool>)) {
       throw except::TypeError(" Cannot combine non-boolean mask '" + key +
                               "' in operation");
     } else if (it != currentMasks.end() &&
                (item.unit() != scipp::units::none ||
-                currentMasks[key].unit() != scipp::units::none)) {
+                it->second.unit() != scipp::units::none)) {
       throw except::UnitError(" Cannot combine a unit-specified mask '" + key +
                               "' in operation");
+    } else if (it == currentMasks.end()) {
+      result.set(key, item);
+    } else if (!it->second.is_readonly()) {
+      scipp::expect::includes(it->second.dims(), item.dims());
     }
   }
+}
 
+void union_or_in_place(Masks &currentMasks, const Masks &otherMasks) {
+  expect_can_union_or_in_place(currentMasks, otherMasks);
   for (const auto &[key, item] : otherMasks) {
     const auto it = currentMasks.find(key);
     if (it == currentMasks.end()) {
diff --git a/lib/dataset/include/scipp/dataset/dataset.h b/lib/dataset/include/scipp/dataset/dataset.h
index 4aff536..7621010 100644
--- a/lib/dataset/include/scipp/dataset/dataset.h
+++ b/lib/dataset/include/scipp/dataset/dataset.h
@@ -298,6 +298,11 @@ SCIPP_DATASET_EXPORT
 typename Masks::holder_type union_or(const Masks &currentMasks,
                                      const Masks &otherMasks);
 
+/// Throw if union_or_in_place would fail for the given masks.
+SCIPP_DATASET_EXPORT void
+expect_can_union_or_in_place(const Masks &currentMasks,
+                             const Masks &otherMasks);
+
 /// Union the masks of the two proxies.
 /// If any of the masks repeat they are OR'ed.
 /// The result is stored in the first view.
diff --git a/lib/templates/dataset_inplace.cpp.in b/lib/templates/dataset_inplace.cpp.in
index c91e946..66bffb4 100644
--- a/lib/templates/dataset_inplace.cpp.in
+++ b/lib/templates/dataset_inplace.cpp.in
@@ -15,8 +15,9 @@ DataArray &@NAME@(DataArray &lhs, const Variable &rhs) {
 }
 DataArray &@NAME@(DataArray &lhs, const DataArray &rhs) {
   expect::coords_are_superset(lhs, rhs, "@OPNAME@");
-  union_or_in_place(lhs.masks(), rhs.masks());
+  expect_can_union_or_in_place(lhs.masks(), rhs.masks());
   @NAME@(lhs.data(), rhs.data());
+  union_or_in_place(lhs.masks(), rhs.masks());
   return lhs;
 }
 DataArray @NAME@(DataArray &&lhs, const Variable &rhs) {
@@ -25,8 +26,10 @@ DataArray @NAME@(DataArray &&lhs, const Variable &rhs) {
 }
 DataArray @NAME@(DataArray &&lhs, const DataArray &rhs) {
   expect::coords_are_superset(lhs, rhs, "@OPNAME@");
+  expect_can_union_or_in_place(lhs.masks(), rhs.masks());
+  @NAME@(lhs.data(), rhs.data());
   union_or_in_place(lhs.masks(), rhs.masks());
-  return @NAME@(std::move(lhs), rhs.data());
+  return std::move(lhs);
 }
 
 } // namespace scipp::dataset
-- 
2.43.0


From 7cb5ad4da9c312fc2ca322ad5e8e87743c7df451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:24 +0000
Subject: [PATCH 23/68] fix: validate everything before assigning to a slice or
 to bins

---
 lib/dataset/bins.cpp                       | 42 +++++++++++++---------
 lib/dataset/data_array.cpp                 |  7 ++--
 lib/dataset/dataset.cpp                    |  3 ++
 lib/dataset/sized_dict.cpp                 |  2 ++
 lib/variable/bins.cpp                      | 24 ++++++++++---
 lib/variable/include/scipp/variable/bins.h |  5 +++
 lib/variable/variable.cpp                  | 15 ++++++++
 7 files changed, 73 insertions(+), 25 deletions(-)

diff --git a/lib/dataset/bins.cpp b/lib/dataset/bins.cpp
index 450e4a0..eaf4289 100644
--- a/lib/dataset/bins.cpp
+++ b/lib/dataset/bins.cpp
@@ -34,14 +34,20 @@
 
 namespace scipp::dataset {
 namespace {
-constexpr auto copy_or_match = [](const auto &a, auto &&b, const Dim dim,
-                                  const Variable &srcIndices,
-                                  const Variable &dstIndices) {
-  if (a.dims().contains(dim))
-    copy_slices(a, b, dim, srcIndices, dstIndices);
-  else
-    core::expect::equals(a, b);
-};
+/// Copy slices of all given pairs of source and destination that depend on
+/// `dim`, the others must match. Nothing is copied if any of this would fail.
+void copy_or_match(const std::vector<std::pair<Variable, Variable>> &items,
+                   const Dim dim, const Variable &srcIndices,
+                   const Variable &dstIndices) {
+  for (const auto &[a, b] : items)
+    if (a.dims().contains(dim))
+      expect_can_copy_slices(a, b, dim, srcIndices, dstIndices);
+    else
+      core::expect::equals(a, b);
+  for (const auto &[a, b] : items)
+    if (a.dims().contains(dim))
+      copy_slices(a, b, dim, srcIndices, dstIndices);
+}
 
 constexpr auto expect_matching_keys = [](const auto &a, const auto &b) {
   bool ok = true;
@@ -81,31 +87,35 @@ auto make_fill(const DataArray &function,
 
 void copy_slices(const DataArray &src, DataArray dst, const Dim dim,
                  const Variable &srcIndices, const Variable &dstIndices) {
-  copy_slices(src.data(), dst.data(), dim, srcIndices, dstIndices);
   expect_matching_keys(src.meta(), dst.meta());
   expect_matching_keys(src.masks(), dst.masks());
+  std::vector<std::pair<Variable, Variable>> items;
+  items.emplace_back(src.data(), dst.data());
   for (const auto &[name, coord] : src.meta())
-    copy_or_match(coord, dst.meta()[name], dim, srcIndices, dstIndices);
+    items.emplace_back(coord, dst.meta()[name]);
   for (const auto &[name, mask] : src.masks())
-    copy_or_match(mask, dst.masks()[name], dim, srcIndices, dstIndices);
+    items.emplace_back(mask, dst.masks()[name]);
+  copy_or_match(items, dim, srcIndices, dstIndices);
 }
 
 void copy_slices(const Dataset &src, Dataset dst, const Dim dim,
                  const Variable &srcIndices, const Variable &dstIndices) {
-  for (const auto &[name, var] : src.coords())
-    copy_or_match(var, dst.coords()[name], dim, srcIndices, dstIndices);
   expect_matching_keys(src.coords(), dst.coords());
   expect_matching_keys(src, dst);
+  std::vector<std::pair<Variable, Variable>> items;
+  for (const auto &[name, var] : src.coords())
+    items.emplace_back(var, dst.coords()[name]);
   for (const auto &item : src) {
     const auto &dst_ = dst[item.name()];
     expect_matching_keys(item.attrs(), dst_.attrs());
     expect_matching_keys(item.masks(), dst_.masks());
-    copy_or_match(item.data(), dst_.data(), dim, srcIndices, dstIndices);
+    items.emplace_back(item.data(), dst_.data());
     for (const auto &[name, var] : item.masks())
-      copy_or_match(var, dst_.masks()[name], dim, srcIndices, dstIndices);
+      items.emplace_back(var, dst_.masks()[name]);
     for (const auto &[name, var] : item.attrs())
-      copy_or_match(var, dst_.attrs()[name], dim, srcIndices, dstIndices);
+      items.emplace_back(var, dst_.attrs()[name]);
   }
+  copy_or_match(items, dim, srcIndices, dstIndices);
 }
 
 namespace {
diff --git a/lib/dataset/data_array.cpp b/lib/dataset/data_array.cpp
index 5403ed1..a189b1c 100644
--- a/lib/dataset/data_array.cpp
+++ b/lib/dataset/data_array.cpp
@@ -140,12 +140,11 @@ void DataArray::validateSlice(const Slice &s, const DataArray &array) const {
 }
 
 DataArray &DataArray::setSlice(const Slice &s, const DataArray &array) {
-  // validateSlice, but not masks as otherwise repeated
-  expect::coords_are_superset(slice(s), array, "");
-  data().validateSlice(s, array.data());
+  validateSlice(s, array);
   // Apply changes
+  setSlice(s, array.data());
   masks().setSlice(s, array.masks());
-  return setSlice(s, array.data());
+  return *this;
 }
 
 DataArray &DataArray::setSlice(const Slice &s, const Variable &var) {
diff --git a/lib/dataset/dataset.cpp b/lib/dataset/dataset.cpp
index 2786ff2..332def6 100644
--- a/lib/dataset/dataset.cpp
+++ b/lib/dataset/dataset.cpp
@@ -257,6 +257,9 @@ Dataset &Dataset::setSlice(const Slice &s, const DataArray &data) {
 }
 
 Dataset &Dataset::setSlice(const Slice &s, const Variable &data) {
+  // Validate slice on all items as a dry-run
+  for (const auto &item : m_data)
+    item.second.data().validateSlice(s, data);
   for (auto &&item : *this)
     item.setSlice(s, data);
   return *this;
diff --git a/lib/dataset/sized_dict.cpp b/lib/dataset/sized_dict.cpp
index bc1e31a..fa86bf3 100644
--- a/lib/dataset/sized_dict.cpp
+++ b/lib/dataset/sized_dict.cpp
@@ -316,6 +316,8 @@ void SizedDict<Key, Value>::validateSlice(const Slice &s,
                                    "' via slice since it is implicitly "
                                    "broadcast along the slice dimension '" +
                                    to_string(s.dim()) + "'.");
+    } else if (!var.is_readonly() && var.dims().contains(s.dim())) {
+      var.validateSlice(s, item);
     }
   }
 }
diff --git a/lib/variable/bins.cpp b/lib/variable/bins.cpp
index a79bafa..b7f56d7 100644
--- a/lib/variable/bins.cpp
+++ b/lib/variable/bins.cpp
@@ -16,6 +16,15 @@
 
 namespace scipp::variable {
 
+namespace {
+using CopyTypes =
+    std::tuple<double, float, int64_t, int32_t, bool, std::string,
+               core::time_point, scipp::index_pair, Eigen::Vector3d,
+               Eigen::Matrix3d, Eigen::Affine3d, core::Translation,
+               core::Quaternion>;
+constexpr auto copy_element = [](auto &a, const auto &b) { a = b; };
+} // namespace
+
 /// Used internally by BinArrayModel to implement copying.
 ///
 /// This is using transform, so only data (no coords, etc.) is copied, but we
@@ -23,11 +32,16 @@ namespace scipp::variable {
 void copy_data(const Variable &src, Variable &dst) {
   assert(src.dtype() == dtype<bucket<Variable>>);
   assert(dst.dtype() == dtype<bucket<Variable>>);
-  transform_in_place<double, float, int64_t, int32_t, bool, std::string,
-                     core::time_point, scipp::index_pair, Eigen::Vector3d,
-                     Eigen::Matrix3d, Eigen::Affine3d, core::Translation,
-                     core::Quaternion>(
-      dst, src, [](auto &a, const auto &b) { a = b; }, "copy");
+  transform_in_place<CopyTypes>(dst, src, copy_element, "copy");
+}
+
+/// Throw if `copy_slices` with the same arguments would fail.
+void expect_can_copy_slices(const Variable &src, Variable dst, const Dim dim,
+                            const Variable &srcIndices,
+                            const Variable &dstIndices) {
+  auto dst_ = make_bins_no_validate(dstIndices, dim, dst);
+  dry_run::transform_in_place<CopyTypes>(
+      dst_, make_bins_no_validate(srcIndices, dim, src), copy_element, "copy");
 }
 
 /// Computes the size of each bin, i.e. the number of elements inside each bin.
diff --git a/lib/variable/include/scipp/variable/bins.h b/lib/variable/include/scipp/variable/bins.h
index 201a77a..8a27d0e 100644
--- a/lib/variable/include/scipp/variable/bins.h
+++ b/lib/variable/include/scipp/variable/bins.h
@@ -12,6 +12,11 @@ SCIPP_VARIABLE_EXPORT void copy_data(const Variable &src, Variable &dst);
 
 [[nodiscard]] SCIPP_VARIABLE_EXPORT Variable bin_sizes(const Variable &var);
 
+SCIPP_VARIABLE_EXPORT void expect_can_copy_slices(const Variable &src,
+                                                  Variable dst, const Dim dim,
+                                                  const Variable &srcIndices,
+                                                  const Variable &dstIndices);
+
 SCIPP_VARIABLE_EXPORT void copy_slices(const Variable &src, Variable dst,
                                        const Dim dim,
                                        const Variable &srcIndices,
diff --git a/lib/variable/variable.cpp b/lib/variable/variable.cpp
index a8e8368..6f528ff 100644
--- a/lib/variable/variable.cpp
+++ b/lib/variable/variable.cpp
@@ -9,6 +9,7 @@
 #include "scipp/core/dtype.h"
 #include "scipp/core/eigen.h"
 #include "scipp/variable/arithmetic.h"
+#include "scipp/variable/bins.h"
 #include "scipp/variable/except.h"
 #include "scipp/variable/variable_concept.h"
 #include "scipp/variable/variable_factory.h"
@@ -227,6 +228,20 @@ void Variable::validateSlice(const Slice &s, const Variable &data) const {
                             to_string(variableFactory().elem_dtype(data)) +
                             ". Variable has dtype " +
                             to_string(variableFactory().elem_dtype(*this)));
+  const auto target = slice(s);
+  target.expect_writable();
+  expect::includes(target.dims(), data.dims());
+  if (is_bins(data)) {
+    if (target.dtype() != data.dtype())
+      throw except::TypeError("Invalid slice operation. Slice has dtype " +
+                              to_string(data.dtype()) +
+                              ". Variable has dtype " +
+                              to_string(target.dtype()));
+    if (bin_sizes(target) != bin_sizes(data).broadcast(target.dims()))
+      throw except::BinnedDataError(
+          "Invalid slice operation. Slice and Variable have different bin "
+          "sizes.");
+  }
 }
 
 Variable &Variable::setSlice(const Slice params, const Variable &data) {
-- 
2.43.0


From 88782df15d2d0c562c466eccb78cfc98843970f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:54 +0000
Subject: [PATCH 24/68] fix: convert units of integers and time points without
 floating-point detour

---
 lib/core/include/scipp/core/element/to_unit.h | 46 ++++++++++++++++++-
 lib/variable/to_unit.cpp                      | 42 +++++++++++------
 2 files changed, 73 insertions(+), 15 deletions(-)

diff --git a/lib/core/include/scipp/core/element/to_unit.h b/lib/core/include/scipp/core/element/to_unit.h
index 81e3a29..d573ddf 100644
--- a/lib/core/include/scipp/core/element/to_unit.h
+++ b/lib/core/include/scipp/core/element/to_unit.h
@@ -36,8 +36,50 @@ constexpr auto round = [](const auto x) {
   else
     return static_cast<T>(x);
 };
+
+/// Exact product of integers with a positive scale, saturating like safe_cast.
+constexpr auto exact_multiply = [](const int64_t x, const int64_t scale) {
+  using limits = std::numeric_limits<int64_t>;
+  if (x > limits::max() / scale)
+    return limits::max();
+  if (x < limits::min() / scale)
+    return limits::min();
+  return x * scale;
+};
+
+constexpr auto scale_and_round = [](const auto &x, const auto &scale) {
+  if constexpr (std::is_integral_v<std::decay_t<decltype(scale)>>)
+    return exact_multiply(x, scale);
+  else
+    return round<std::decay_t<decltype(x)>>(x * scale);
+};
+
+/// Exact quotient of integers with a positive divisor, rounding half away from
+/// zero.
+constexpr auto exact_divide = [](const int64_t x, const int64_t divisor) {
+  const auto quotient = x / divisor;
+  const auto remainder = x % divisor;
+  if (remainder >= divisor - remainder)
+    return quotient + 1;
+  if (remainder <= -divisor - remainder)
+    return quotient - 1;
+  return quotient;
+};
 } // namespace
 
+/// Conversion of integers to a unit which is a multiple of their unit.
+constexpr auto to_unit_divide = overloaded{
+    arg_list<int64_t, std::tuple<time_point, int64_t>>,
+    transform_flags::expect_no_variance_arg<0>,
+    transform_flags::expect_no_variance_arg<1>,
+    [](const units::Unit &, const units::Unit &target) { return target; },
+    [](const auto &x, const auto &divisor) {
+      if constexpr (std::is_same_v<std::decay_t<decltype(x)>, time_point>)
+        return time_point{exact_divide(x.time_since_epoch(), divisor)};
+      else
+        return exact_divide(x, divisor);
+    }};
+
 constexpr auto to_unit = overloaded{
     arg_list<double, std::tuple<float, double>, std::tuple<int64_t, double>,
              std::tuple<int64_t, int64_t>, std::tuple<int32_t, double>,
@@ -48,7 +90,7 @@ constexpr auto to_unit = overloaded{
     transform_flags::expect_no_variance_arg<1>,
     [](const units::Unit &, const units::Unit &target) { return target; },
     [](const time_point &x, const auto &scale) {
-      return time_point{round<int64_t>(x.time_since_epoch() * scale)};
+      return time_point{scale_and_round(x.time_since_epoch(), scale)};
     },
     [](const Eigen::Affine3d &x, const auto &scale) {
       auto out = x;
@@ -59,7 +101,7 @@ constexpr auto to_unit = overloaded{
       return Translation(x.vector() * scale);
     },
     [](const auto &x, const auto &scale) {
-      return round<std::decay_t<decltype(x)>>(x * scale);
+      return scale_and_round(x, scale);
     }};
 
 } // namespace scipp::core::element
diff --git a/lib/variable/to_unit.cpp b/lib/variable/to_unit.cpp
index dc6b59e..d9f6060 100644
--- a/lib/variable/to_unit.cpp
+++ b/lib/variable/to_unit.cpp
@@ -3,6 +3,7 @@
 /// @file
 /// @author Simon Heybrock
 #include <cmath>
+#include <optional>
 #include <units/units.hpp>
 
 #include "scipp/core/element/to_unit.h"
@@ -25,6 +26,18 @@ bool greater_than_days(const units::Unit &unit) {
   }
   return unit.underlying().multiplier() >= days_multiplier;
 }
+
+/// Return the scale if it is an integer, up to errors due to machine precision.
+std::optional<double> integral_scale(const double scale) {
+  // Need to make sure that errors due to machine precision actually affect
+  // decimal places, otherwise the approach based on std::round will do nothing.
+  const auto base = scale > 1e6 ? 1e6 : 1.0;
+  const auto base_scale = scale > 1e6 ? scale * 1e-6 : scale;
+  const auto iscale = std::round(base_scale);
+  if (std::abs(base_scale - iscale) < 1e-12 * std::abs(base_scale))
+    return base * iscale;
+  return std::nullopt;
+}
 } // namespace
 
 Variable to_unit(const Variable &var, const units::Unit &unit,
@@ -49,20 +62,23 @@ Variable to_unit(const Variable &var, const units::Unit &unit,
         "This limitation exists because such conversions would require "
         "information about calendars and time zones.");
   }
+  const auto elem_dtype = variableFactory().elem_dtype(var);
+  const bool is_int64 =
+      elem_dtype == dtype<int64_t> || elem_dtype == dtype<core::time_point>;
+  const auto iscale = integral_scale(scale);
+  // Integers are scaled by integers where possible, to avoid the limited
+  // precision of floating-point numbers.
+  constexpr double max_int_scale = 9e18;
+  if (is_int64 && !iscale)
+    if (const auto divisor = integral_scale(1.0 / scale);
+        divisor && *divisor < max_int_scale)
+      return variable::transform(var, static_cast<int64_t>(*divisor) * unit,
+                                 core::element::to_unit_divide, "to_unit");
   Variable scalevar;
-  // Need to make sure that errors due to machine precision actually affect
-  // decimal places, otherwise the approach based on std::round will do nothing.
-  const auto base_scale = scale > 1e6 ? scale * 1e-6 : scale;
-  if (const auto iscale = std::round(base_scale);
-      (std::abs(base_scale - iscale) < 1e-12 * std::abs(base_scale))) {
-    if (var.dtype() == dtype<int64_t> || var.dtype() == dtype<core::time_point>)
-      scalevar = int64_t{scale > 1e6 ? 1000000 : 1} *
-                 static_cast<int64_t>(iscale) * unit;
-    else
-      scalevar = (scale > 1e6 ? 1000000 : 1) * iscale * unit;
-  } else {
-    scalevar = scale * unit;
-  }
+  if (is_int64 && iscale && *iscale < max_int_scale)
+    scalevar = static_cast<int64_t>(*iscale) * unit;
+  else
+    scalevar = iscale.value_or(scale) * unit;
   return variable::transform(var, scalevar, core::element::to_unit, "to_unit");
 }
 
-- 
2.43.0


From ce03c03e57543b7329bd29f9ca574598a52a4d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:38 +0000
Subject: [PATCH 25/68] fix: exact integral unit scales that are no multiple of
 1e6, and rounding with large divisors

Also apply the restrictions for time points to binned time points.
---
 lib/core/include/scipp/core/element/to_unit.h |  6 ++++--
 lib/variable/to_unit.cpp                      | 11 +++++------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/lib/core/include/scipp/core/element/to_unit.h b/lib/core/include/scipp/core/element/to_unit.h
index d573ddf..85def9c 100644
--- a/lib/core/include/scipp/core/element/to_unit.h
+++ b/lib/core/include/scipp/core/element/to_unit.h
@@ -59,9 +59,11 @@ constexpr auto scale_and_round = [](const auto &x, const auto &scale) {
 constexpr auto exact_divide = [](const int64_t x, const int64_t divisor) {
   const auto quotient = x / divisor;
   const auto remainder = x % divisor;
-  if (remainder >= divisor - remainder)
+  // Compare with half of the divisor, without overflow for large divisors.
+  const auto half = (divisor - 1) / 2;
+  if (remainder > half)
     return quotient + 1;
-  if (remainder <= -divisor - remainder)
+  if (remainder < -half)
     return quotient - 1;
   return quotient;
 };
diff --git a/lib/variable/to_unit.cpp b/lib/variable/to_unit.cpp
index d9f6060..b5e10bf 100644
--- a/lib/variable/to_unit.cpp
+++ b/lib/variable/to_unit.cpp
@@ -31,8 +31,8 @@ bool greater_than_days(const units::Unit &unit) {
 std::optional<double> integral_scale(const double scale) {
   // Need to make sure that errors due to machine precision actually affect
   // decimal places, otherwise the approach based on std::round will do nothing.
-  const auto base = scale > 1e6 ? 1e6 : 1.0;
-  const auto base_scale = scale > 1e6 ? scale * 1e-6 : scale;
+  const auto base = scale > 1e9 ? 1e6 : 1.0;
+  const auto base_scale = scale > 1e9 ? scale * 1e-6 : scale;
   const auto iscale = std::round(base_scale);
   if (std::abs(base_scale - iscale) < 1e-12 * std::abs(base_scale))
     return base * iscale;
@@ -52,9 +52,9 @@ Variable to_unit(const Variable &var, const units::Unit &unit,
   if (std::isnan(scale))
     throw except::UnitError("Conversion from `" + to_string(var_unit) +
                             "` to `" + to_string(unit) + "` is not valid.");
-  if (var.dtype() == dtype<core::time_point> &&
-      (greater_than_days(variableFactory().elem_unit(var)) ||
-       greater_than_days(unit))) {
+  const auto elem_dtype = variableFactory().elem_dtype(var);
+  if (elem_dtype == dtype<core::time_point> &&
+      (greater_than_days(var_unit) || greater_than_days(unit))) {
     throw except::UnitError(
         "Unit conversions for datetimes with a unit of days or greater "
         "are not supported. Attempted conversion from `" +
@@ -62,7 +62,6 @@ Variable to_unit(const Variable &var, const units::Unit &unit,
         "This limitation exists because such conversions would require "
         "information about calendars and time zones.");
   }
-  const auto elem_dtype = variableFactory().elem_dtype(var);
   const bool is_int64 =
       elem_dtype == dtype<int64_t> || elem_dtype == dtype<core::time_point>;
   const auto iscale = integral_scale(scale);
-- 
2.43.0


From b649b877d73edaffd0fd1b775def3dfd0d01c7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:29 +0000
Subject: [PATCH 26/68] fix: setting variances must follow the memory layout of
 source and target

---
 lib/variable/variable.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/variable/variable.cpp b/lib/variable/variable.cpp
index 6f528ff..d9a1329 100644
--- a/lib/variable/variable.cpp
+++ b/lib/variable/variable.cpp
@@ -322,6 +322,13 @@ void Variable::setVariances(const Variable &v) {
   if (v.is_valid()) {
     core::expect::equals(unit(), v.unit());
     core::expect::equals(dims(), v.dims());
+    if (v.is_slice() || v.m_strides != m_strides) {
+      // The buffer of `v` is not in the memory order of this.
+      Variable ordered(*this);
+      ordered.m_object = v.data().makeDefaultFromParent(data().size());
+      copy(v, ordered);
+      return data().setVariances(ordered);
+    }
   }
   data().setVariances(v);
 }
-- 
2.43.0


From b0dfc32299a7e365573f01a446486f935e02903a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:02 +0000
Subject: [PATCH 27/68] fix: mean of masked data must keep the order of
 dimensions

The mask's dimension order took precedence over that of the data, in contrast
to the other reductions.
---
 lib/dataset/variable_reduction.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/lib/dataset/variable_reduction.cpp b/lib/dataset/variable_reduction.cpp
index 9a1428b..3ffe2e6 100644
--- a/lib/dataset/variable_reduction.cpp
+++ b/lib/dataset/variable_reduction.cpp
@@ -17,12 +17,22 @@
 namespace scipp::dataset {
 
 namespace {
+/// Return union of masks depending on dim, with the dimension order of var.
+Variable irreducible_mask_like(const Variable &var, const Masks &masks,
+                               const Dim dim) {
+  const auto mask_union = irreducible_mask(masks, dim);
+  return mask_union.is_valid()
+             ? transpose(
+                   mask_union,
+                   intersection(var.dims(), mask_union.dims()).labels())
+             : mask_union;
+}
+
 template <class Op>
 Variable reduce_impl(const Variable &var, const Dim dim, const Masks &masks,
                      const FillValue fill, const Op &op) {
-  if (auto mask_union = irreducible_mask(masks, dim); mask_union.is_valid()) {
-    mask_union = transpose(
-        mask_union, intersection(var.dims(), mask_union.dims()).labels());
+  if (const auto mask_union = irreducible_mask_like(var, masks, dim);
+      mask_union.is_valid()) {
     return op(
         where(mask_union, dense_special_like(var, Dimensions{}, fill), var),
         dim);
@@ -72,7 +82,7 @@ Variable any(const Variable &var, const Dim dim, const Masks &masks) {
 }
 
 Variable mean(const Variable &var, const Dim dim, const Masks &masks) {
-  if (const auto mask_union = irreducible_mask(masks, dim);
+  if (const auto mask_union = irreducible_mask_like(var, masks, dim);
       mask_union.is_valid()) {
     const auto count = sum(~mask_union, dim);
     return mean_impl(where(mask_union, zero_like(var), var), dim, count);
@@ -81,7 +91,7 @@ Variable mean(const Variable &var, const Dim dim, const Masks &masks) {
 }
 
 Variable nanmean(const Variable &var, const Dim dim, const Masks &masks) {
-  if (const auto mask_union = irreducible_mask(masks, dim);
+  if (const auto mask_union = irreducible_mask_like(var, masks, dim);
       mask_union.is_valid()) {
     const auto count = sum(
         where(mask_union, makeVariable<bool>(Values{false}), ~isnan(var)), dim);
-- 
2.43.0


From e53558f028ec70b904ad47c0f6262d21cfc782ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:25 +0000
Subject: [PATCH 28/68] fix: fold must compare with the length of the folded
 dimension

---
 lib/core/dimensions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core/dimensions.cpp b/lib/core/dimensions.cpp
index 07f5c1e..f8d0c1a 100644
--- a/lib/core/dimensions.cpp
+++ b/lib/core/dimensions.cpp
@@ -154,7 +154,7 @@ Dimensions fold(const Dimensions &old_dims, const Dim from_dim,
     else
       for (const auto &lab : to_dims.labels())
         new_dims.addInner(lab, to_dims[lab]);
-  if (old_dims.volume() != new_dims.volume())
+  if (old_dims[from_dim] != to_dims.volume())
     throw except::DimensionError(
         "Sizes " + to_string(to_dims) +
         " provided to `fold` not compatible with length '" +
-- 
2.43.0


From 1e11e0c66ffb6097e4f17fc3ff034239fcf747bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:25 +0000
Subject: [PATCH 29/68] fix: exclusive scan must not recover the previous sum
 by subtraction

---
 lib/core/include/scipp/core/element/cumulative.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/core/include/scipp/core/element/cumulative.h b/lib/core/include/scipp/core/element/cumulative.h
index dbb3cfa..30d9b80 100644
--- a/lib/core/include/scipp/core/element/cumulative.h
+++ b/lib/core/include/scipp/core/element/cumulative.h
@@ -17,8 +17,9 @@ constexpr auto exclusive_scan = overloaded{
     arg_list<double, std::tuple<double, float>, int64_t, int32_t>,
     transform_flags::expect_no_variance_arg<0>,
     transform_flags::expect_no_variance_arg<1>, [](auto &sum, auto &x) {
+      const auto previous = sum;
       sum += x;
-      x = sum - x;
+      x = previous;
     }};
 
 constexpr auto inclusive_scan = overloaded{
-- 
2.43.0


From 021559a712c52b4a5e38acddf2d9c4801f927e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:25 +0000
Subject: [PATCH 30/68] fix: concat of sizes with zero length or mismatching
 other dimensions

---
 lib/core/sizes.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/core/sizes.cpp b/lib/core/sizes.cpp
index 17c1716..ed74c9e 100644
--- a/lib/core/sizes.cpp
+++ b/lib/core/sizes.cpp
@@ -173,7 +173,15 @@ Sizes Sizes::rename_dims(const std::vector<std::pair<Dim, Dim>> &names,
 
 namespace {
 Sizes concat2(const Sizes &a, const Sizes &b, const Dim dim) {
-  Sizes out = a.contains(dim) ? a.slice({dim, 0}) : a;
+  Sizes out = a;
+  if (out.contains(dim))
+    out.erase(dim);
+  for (const auto &label : b)
+    if (label != dim && out.contains(label) && out[label] != b[label])
+      throw except::DimensionError("Cannot concatenate sizes " + to_string(a) +
+                                   " and " + to_string(b) +
+                                   " along dimension '" + to_string(dim) +
+                                   "'.");
   out.set(dim, (a.contains(dim) ? a[dim] : 1) + (b.contains(dim) ? b[dim] : 1));
   return out;
 }
-- 
2.43.0


From 913b07ed154fd34e8b34437db0617d975554369e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:25 +0000
Subject: [PATCH 31/68] fix: flattening bin edges must compare and keep all
 joined edges

---
 lib/dataset/shape.cpp | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/lib/dataset/shape.cpp b/lib/dataset/shape.cpp
index b2f0d79..7177dcf 100644
--- a/lib/dataset/shape.cpp
+++ b/lib/dataset/shape.cpp
@@ -213,27 +213,24 @@ Variable fold_bin_edge(const Variable &var, const Dim from_dim,
 Variable flatten_bin_edge(const Variable &var,
                           const scipp::span<const Dim> &from_labels,
                           const Dim to_dim, const Dim bin_edge_dim) {
-  const auto data_shape = var.dims()[bin_edge_dim] - 1;
+  const auto nbin = var.dims()[bin_edge_dim] - 1;
+  const auto lower =
+      flatten(var.slice({bin_edge_dim, 0, nbin}), from_labels, to_dim);
+  const auto upper =
+      flatten(var.slice({bin_edge_dim, 1, nbin + 1}), from_labels, to_dim);
+  const auto size = lower.dims()[to_dim];
 
   // Make sure that the bin edges can be joined together
-  const auto front = var.slice({bin_edge_dim, 0});
-  const auto back = var.slice({bin_edge_dim, data_shape});
-  const auto front_flat = flatten(front, front.dims().labels(), to_dim);
-  const auto back_flat = flatten(back, back.dims().labels(), to_dim);
-  if (front_flat.slice({to_dim, 1, front.dims().volume()}) !=
-      back_flat.slice({to_dim, 0, back.dims().volume() - 1}))
+  if (size == 0 || !equals_nan(upper.slice({to_dim, 0, size - 1}),
+                               lower.slice({to_dim, 1, size})))
     return {};
 
-  // Make the bulk slice of the coord, leaving out the last bin edge
-  const auto bulk =
-      flatten(var.slice({bin_edge_dim, 0, data_shape}), from_labels, to_dim);
-  auto out_dims = bulk.dims();
   // To make the container of the right size, we increase to_dim by 1
-  out_dims.resize(to_dim, out_dims[to_dim] + 1);
+  auto out_dims = lower.dims();
+  out_dims.resize(to_dim, size + 1);
   auto out = empty(out_dims, var.unit(), var.dtype(), var.has_variances());
-  copy(bulk, out.slice({to_dim, 0, out_dims[to_dim] - 1}));
-  copy(back_flat.slice({to_dim, back.dims().volume() - 1}),
-       out.slice({to_dim, out_dims[to_dim] - 1}));
+  copy(lower, out.slice({to_dim, 0, size}));
+  copy(upper.slice({to_dim, size - 1}), out.slice({to_dim, size}));
   return out;
 }
 
-- 
2.43.0


From 06f2094bf6794a13a9a9d59eaa35c395db729575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:42 +0000
Subject: [PATCH 32/68] fix: order NaN consistently when sorting variables

---
 lib/core/include/scipp/core/element/sort.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/core/include/scipp/core/element/sort.h b/lib/core/include/scipp/core/element/sort.h
index 51e72e3..4098839 100644
--- a/lib/core/include/scipp/core/element/sort.h
+++ b/lib/core/include/scipp/core/element/sort.h
@@ -15,6 +15,19 @@
 namespace scipp::core::element {
 
 namespace {
+/// Strict weak ordering in which NaN is greater than any number.
+constexpr auto nan_sensitive_less = [](const auto &a, const auto &b) {
+  using numeric::isnan;
+  if constexpr (!std::is_same_v<std::decay_t<decltype(a)>, std::string> &&
+                !std::is_same_v<std::decay_t<decltype(a)>, time_point>)
+    if (isnan(b))
+      return !isnan(a);
+  return a < b;
+};
+constexpr auto nan_sensitive_greater = [](const auto &a, const auto &b) {
+  return nan_sensitive_less(b, a);
+};
+
 template <class Compare> constexpr auto make_sort(Compare compare) {
   return overloaded{
       core::element::arg_list<scipp::span<int64_t>, scipp::span<int32_t>,
@@ -43,7 +56,7 @@ template <class Compare> constexpr auto make_sort(Compare compare) {
 }
 } // namespace
 
-auto sort_nonascending = make_sort(greater);
-auto sort_nondescending = make_sort(less);
+auto sort_nonascending = make_sort(nan_sensitive_greater);
+auto sort_nondescending = make_sort(nan_sensitive_less);
 
 } // namespace scipp::core::element
-- 
2.43.0


From d5e48df6cba521b2f834417789d9592a6b45128c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:42 +0000
Subject: [PATCH 33/68] fix: sorting a dataset must refuse a key of another
 length

---
 lib/dataset/sort.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/sort.cpp b/lib/dataset/sort.cpp
index 82b269f..934ff49 100644
--- a/lib/dataset/sort.cpp
+++ b/lib/dataset/sort.cpp
@@ -59,7 +59,7 @@ Variable indices_for_sorting(const Variable &key, const SortOrder order) {
       core::time_point>::apply<IndicesForSorting>(key.dtype(), key, order);
 }
 
-void require_same_shape(const Dimensions &var_dims, const Dimensions &key_dims,
+void require_same_shape(const Sizes &var_dims, const Sizes &key_dims,
                         const Dim dim) {
   if (var_dims[dim] != key_dims[dim])
     throw except::DimensionError(
@@ -91,6 +91,7 @@ DataArray sort(const DataArray &array, const Dim &key, const SortOrder order) {
 /// Return a Dataset sorted based on key.
 Dataset sort(const Dataset &dataset, const Variable &key,
              const SortOrder order) {
+  require_same_shape(dataset.sizes(), key.dims(), key.dim());
   return extract_ranges(indices_for_sorting(key, order), dataset, key.dim());
 }
 
-- 
2.43.0


From 3c8587fab6142a0eeceef48c635ee2b8911fe83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:42 +0000
Subject: [PATCH 34/68] fix: extract with non-contiguous condition

---
 lib/dataset/extract.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/dataset/extract.cpp b/lib/dataset/extract.cpp
index c3ee1c8..7bddda1 100644
--- a/lib/dataset/extract.cpp
+++ b/lib/dataset/extract.cpp
@@ -101,7 +101,7 @@ template <class T> T extract_impl(const T &obj, const Variable &condition) {
         " must be be included in the dimensions of the sliced object " +
         to_string(obj.dims()) + '.');
 
-  auto values = condition.values<bool>().as_span();
+  const auto values = condition.values<bool>();
   std::vector<scipp::index_pair> indices;
   for (scipp::index i = 0; i < scipp::size(values); ++i) {
     if (i > 0 && values[i - 1] == values[i])
-- 
2.43.0


From 966d3e5e623148fe541636ae43666be96ef4a8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:42 +0000
Subject: [PATCH 35/68] fix: constructing empty structured variables must not
 dereference null

---
 lib/variable/include/scipp/variable/variable.tcc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/variable/include/scipp/variable/variable.tcc b/lib/variable/include/scipp/variable/variable.tcc
index 712f023..8d6f0e9 100644
--- a/lib/variable/include/scipp/variable/variable.tcc
+++ b/lib/variable/include/scipp/variable/variable.tcc
@@ -66,7 +66,9 @@ auto make_model(const units::Unit unit, const Dimensions &dimensions,
     using Elem = typename model_t<T>::element_type;
     element_array<Elem> elems;
     if (values) {
-      auto begin = static_cast<Elem *>(&get<0>(*values.begin()));
+      auto begin = values.size() == 0
+                       ? nullptr
+                       : static_cast<Elem *>(&get<0>(*values.begin()));
       auto end = begin + model_t<T>::element_count * values.size();
       elems = element_array<Elem>{begin, end};
     }
-- 
2.43.0


From d01085775499781be9c4d5ec0f21bbc74ad704fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:30 +0000
Subject: [PATCH 36/68] fix: finding the bin of a value must work for any
 sorted edges

---
 lib/common/include/scipp/common/numeric.h | 11 ++++--
 lib/core/include/scipp/core/histogram.h   | 41 +++++++++++++++++------
 2 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/lib/common/include/scipp/common/numeric.h b/lib/common/include/scipp/common/numeric.h
index 9db627e..4d12ce7 100644
--- a/lib/common/include/scipp/common/numeric.h
+++ b/lib/common/include/scipp/common/numeric.h
@@ -14,11 +14,18 @@
 namespace scipp::numeric {
 
 namespace {
+template <class T, class = void> struct is_time : std::false_type {};
+template <class T>
+struct is_time<T, std::void_t<decltype(&T::time_since_epoch)>>
+    : std::true_type {};
+
 /// Return `b - a`, provided that `a <= b`. Integers do not overflow.
 template <class T> constexpr auto step(const T &a, const T &b) {
   if constexpr (std::is_integral_v<T>) {
     using U = std::make_unsigned_t<T>;
     return static_cast<U>(static_cast<U>(b) - static_cast<U>(a));
+  } else if constexpr (is_time<T>::value) {
+    return step(a.time_since_epoch(), b.time_since_epoch());
   } else {
     return b - a;
   }
@@ -40,8 +47,8 @@ template <class Range> bool islinspace(const Range &range) {
     return std::adjacent_find(range.begin(), range.end(),
                               [epsilon, delta](const auto &a, const auto &b) {
                                 // Negated so NaN is not accepted.
-                                return !(std::abs(std::abs(b - a) - delta) <=
-                                         epsilon);
+                                return !(a <= b &&
+                                         std::abs(b - a - delta) <= epsilon);
                               }) == range.end();
   } else {
     const auto delta = step(range[0], range[1]);
diff --git a/lib/core/include/scipp/core/histogram.h b/lib/core/include/scipp/core/histogram.h
index 16e7c34..279ef5a 100644
--- a/lib/core/include/scipp/core/histogram.h
+++ b/lib/core/include/scipp/core/histogram.h
@@ -5,18 +5,36 @@
 #pragma once
 
 #include <algorithm>
+#include <cstdint>
 #include <tuple>
+#include <type_traits>
 
 #include "scipp/core/except.h"
+#include "scipp/core/time_point.h"
 
 namespace scipp::core {
 
+/// Return `b - a`, provided that `a <= b`. Integers do not overflow.
+constexpr static auto edge_distance = [](const auto &a, const auto &b) {
+  using A = std::decay_t<decltype(a)>;
+  using B = std::decay_t<decltype(b)>;
+  if constexpr (std::is_same_v<A, time_point>)
+    return static_cast<double>(static_cast<uint64_t>(b.time_since_epoch()) -
+                               static_cast<uint64_t>(a.time_since_epoch()));
+  else if constexpr (std::is_integral_v<A> && std::is_integral_v<B>)
+    return static_cast<double>(static_cast<uint64_t>(b) -
+                               static_cast<uint64_t>(a));
+  else
+    return static_cast<double>(b) - static_cast<double>(a);
+};
+
 /// Return params for computing bin index for linear edges (constant bin width).
 constexpr static auto linear_edge_params = [](const auto &edges) {
   auto len = scipp::size(edges) - 1;
   const auto offset = edges.front();
   const auto nbin = len;
-  const auto scale = static_cast<double>(nbin) / (edges.back() - edges.front());
+  const auto scale =
+      static_cast<double>(nbin) / edge_distance(edges.front(), edges.back());
   return std::tuple{offset, nbin, scale};
 };
 
@@ -38,15 +56,18 @@ Index get_bin(const T &x, const Edges &edges, const Params &params) {
     if (std::isnan(x))
       return -1;
   const auto [offset, nbin, scale] = params;
-  Index bin = (x - offset) * scale;
-  bin = std::clamp(bin, Index(0), Index(nbin - 1));
-  if (x < edges[bin]) {
-    return bin - 1;
-  } else if (x >= edges[bin + 1]) {
-    return bin + 1;
-  } else {
-    return bin;
-  }
+  // The edges may deviate from constant bin width, so this is just a guess.
+  const auto guess = edge_distance(offset, x) * scale;
+  Index bin = 0;
+  if (guess >= static_cast<double>(nbin))
+    bin = nbin - 1;
+  else if (guess > 0.0)
+    bin = static_cast<Index>(guess);
+  while (x < edges[bin])
+    --bin;
+  while (x >= edges[bin + 1])
+    ++bin;
+  return bin;
 }
 
 } // namespace scipp::core
-- 
2.43.0


From 77a5300ca18f5b552fce0ec74f92956998b87e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:29 +0000
Subject: [PATCH 37/68] fix: histogram of transposed coords with other element
 type than the edges

---
 lib/dataset/bins.cpp      | 3 ++-
 lib/dataset/histogram.cpp | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/dataset/bins.cpp b/lib/dataset/bins.cpp
index eaf4289..6f56245 100644
--- a/lib/dataset/bins.cpp
+++ b/lib/dataset/bins.cpp
@@ -361,7 +361,8 @@ Variable histogram(const Variable &data, const Variable &binEdges) {
   const auto coord = buffer.meta()[hist_dim];
   const auto dt = common_type(binEdges, coord);
   const auto promoted_coord = astype(coord, dt, CopyPolicy::TryAvoid);
-  const auto promoted_edges = astype(binEdges, dt, CopyPolicy::TryAvoid);
+  const auto promoted_edges =
+      as_contiguous(astype(binEdges, dt, CopyPolicy::TryAvoid), hist_dim);
   auto hist = variable::transform_subspan(
       buffer.dtype(), hist_dim, nbin,
       subspan_view(promoted_coord, dim, indices),
diff --git a/lib/dataset/histogram.cpp b/lib/dataset/histogram.cpp
index 2f7187a..603a9e4 100644
--- a/lib/dataset/histogram.cpp
+++ b/lib/dataset/histogram.cpp
@@ -73,10 +73,11 @@ DataArray histogram(const DataArray &events, const Variable &binEdges) {
           // matters, users should ensure that they use bin edges and coord with
           // the same dtype.
           const auto dt = common_type(binEdges_, cont_coord);
-          const auto promoted_coord =
-              astype(cont_coord, dt, CopyPolicy::TryAvoid);
-          const auto promoted_edges =
-              astype(binEdges_, dt, CopyPolicy::TryAvoid);
+          // Converting may change the memory layout.
+          const auto promoted_coord = as_contiguous(
+              astype(cont_coord, dt, CopyPolicy::TryAvoid), event_dim_);
+          const auto promoted_edges = as_contiguous(
+              astype(binEdges_, dt, CopyPolicy::TryAvoid), dim);
           return transform_subspan(
               events_.dtype(), dim, binEdges_.dims()[dim] - 1,
               subspan_view(promoted_coord, event_dim_),
-- 
2.43.0


From dcc76fda9e25486bbc61a6db6484f13c7d5c07b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:30 +0000
Subject: [PATCH 38/68] fix: rebinning along existing dim with non-contiguous
 edges

---
 lib/dataset/bin.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/dataset/bin.cpp b/lib/dataset/bin.cpp
index 384557f..8fe5acd 100644
--- a/lib/dataset/bin.cpp
+++ b/lib/dataset/bin.cpp
@@ -310,10 +310,12 @@ public:
     };
     m_offsets = makeVariable<scipp::index>(Values{0}, units::none);
     m_nbin = dims().volume() * units::none;
-    for (const auto &[action, dim, key] : m_actions) {
+    for (const auto &[action, dim, edges_or_groups] : m_actions) {
       if (action == AxisAction::Group)
-        update_indices_by_grouping(indices, get_coord(dim), key);
+        update_indices_by_grouping(indices, get_coord(dim), edges_or_groups);
       else if (action == AxisAction::Bin) {
+        // begin_edge, end_edge, and make_bins require contiguous edges.
+        const auto key = as_contiguous(edges_or_groups, dim);
         const auto linspace = all(islinspace(key, dim)).template value<bool>();
         // When binning along an existing dim with a coord (may be edges or
         // not), not all input bins can map to all output bins. The array of
-- 
2.43.0


From d94aac81346428d470e9f2024fbebb642df94a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:30 +0000
Subject: [PATCH 39/68] fix: rebinning must not use a point coord as bounds of
 the events

---
 lib/dataset/bin.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/dataset/bin.cpp b/lib/dataset/bin.cpp
index 8fe5acd..0aaa35d 100644
--- a/lib/dataset/bin.cpp
+++ b/lib/dataset/bin.cpp
@@ -341,14 +341,18 @@ public:
         // algorithm, `indices`, containing the index of the target bin for
         // every input event. This is unrelated and varies independently,
         // depending on parameters of the input.
+        const auto is_bin_edge = [&](const Variable &coord) {
+          return coord.dims()[dim] ==
+                 (indices.dims().contains(dim) ? indices.dims()[dim] : 1) + 1;
+        };
         if (key.ndim() == 1 && // index setup not implemented for this case
             bin_coords.count(dim) && m_offsets.dims().empty() &&
             bin_coords.at(dim).dims().contains(dim) &&
-            allsorted(bin_coords.at(dim), dim)) {
+            allsorted(bin_coords.at(dim), dim) &&
+            // A coord that is not bin edges does not bound the events' coord.
+            (is_bin_edge(bin_coords.at(dim)) || !coords.count(dim))) {
           const auto &bin_coord = bin_coords.at(dim);
-          const bool histogram =
-              bin_coord.dims()[dim] ==
-              (indices.dims().contains(dim) ? indices.dims()[dim] : 1) + 1;
+          const bool histogram = is_bin_edge(bin_coord);
           auto begin =
               begin_edge(histogram ? left_edge(bin_coord) : bin_coord, key);
           auto end = histogram ? end_edge(right_edge(bin_coord), key)
-- 
2.43.0


From a1e34994c5dfa765e7ff583b21e42cb1dd9ac976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:30 +0000
Subject: [PATCH 40/68] fix: rebinning with multi-dim edges or input bins of
 zero width

---
 lib/dataset/bin.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/dataset/bin.cpp b/lib/dataset/bin.cpp
index 0aaa35d..9c5428f 100644
--- a/lib/dataset/bin.cpp
+++ b/lib/dataset/bin.cpp
@@ -9,10 +9,12 @@
 #include "scipp/variable/bin_detail.h"
 #include "scipp/variable/bin_util.h"
 #include "scipp/variable/bins.h"
+#include "scipp/variable/comparison.h"
 #include "scipp/variable/cumulative.h"
 #include "scipp/variable/reduction.h"
 #include "scipp/variable/shape.h"
 #include "scipp/variable/subspan_view.h"
+#include "scipp/variable/util.h"
 #include "scipp/variable/variable_factory.h"
 
 #include "scipp/dataset/bin.h"
@@ -353,10 +355,18 @@ public:
             (is_bin_edge(bin_coords.at(dim)) || !coords.count(dim))) {
           const auto &bin_coord = bin_coords.at(dim);
           const bool histogram = is_bin_edge(bin_coord);
-          auto begin =
-              begin_edge(histogram ? left_edge(bin_coord) : bin_coord, key);
-          auto end = histogram ? end_edge(right_edge(bin_coord), key)
-                               : begin + 2 * units::none;
+          // `dim` is not necessarily the inner dim of a multi-dim coord.
+          const auto coord_size = bin_coord.dims()[dim];
+          auto begin = begin_edge(
+              histogram ? bin_coord.slice({dim, 0, coord_size - 1}) : bin_coord,
+              key);
+          const auto min_end = begin + 2 * units::none;
+          auto end = min_end;
+          if (histogram) {
+            end = end_edge(bin_coord.slice({dim, 1, coord_size}), key);
+            // An empty input bin at an edge shared by several output bins
+            end = where(less(end, min_end), min_end, end);
+          }
           // When we have bin edges (of length 2) for a dimension that is not
           // a dimension of the input it needs to be squeezed to avoid problems
           // in various places later on.
-- 
2.43.0


From 79b188d2d27cb56c60c38801d049aa17742494bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:30 +0000
Subject: [PATCH 41/68] fix: rebinning along an existing dim that is not the
 outer target dim

---
 lib/dataset/bin.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/dataset/bin.cpp b/lib/dataset/bin.cpp
index 9c5428f..6cc7b13 100644
--- a/lib/dataset/bin.cpp
+++ b/lib/dataset/bin.cpp
@@ -348,6 +348,7 @@ public:
                  (indices.dims().contains(dim) ? indices.dims()[dim] : 1) + 1;
         };
         if (key.ndim() == 1 && // index setup not implemented for this case
+            is_outer(dim) &&   // offsets below are in units of inner volume
             bin_coords.count(dim) && m_offsets.dims().empty() &&
             bin_coords.at(dim).dims().contains(dim) &&
             allsorted(bin_coords.at(dim), dim) &&
@@ -457,6 +458,17 @@ private:
   Dimensions m_dims;
   Variable m_offsets;
   Variable m_nbin;
+  // True if all dims outside of given dim have length 1.
+  [[nodiscard]] bool is_outer(const Dim dim) const {
+    for (const auto &label : m_dims) {
+      if (label == dim)
+        return true;
+      if (m_dims[label] != 1)
+        return false;
+    }
+    return true;
+  }
+
   std::vector<std::tuple<AxisAction, Dim, Variable>> m_actions;
   std::vector<Variable> m_joined;
 };
-- 
2.43.0


From f939127a87a32c26f06f0f04e8d0c9b22062bb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:30 +0000
Subject: [PATCH 42/68] fix: rebinning with multi-dim edges along several
 existing dims

---
 lib/dataset/bin.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/bin.cpp b/lib/dataset/bin.cpp
index 6cc7b13..d0e3e36 100644
--- a/lib/dataset/bin.cpp
+++ b/lib/dataset/bin.cpp
@@ -350,7 +350,7 @@ public:
         if (key.ndim() == 1 && // index setup not implemented for this case
             is_outer(dim) &&   // offsets below are in units of inner volume
             bin_coords.count(dim) && m_offsets.dims().empty() &&
-            bin_coords.at(dim).dims().contains(dim) &&
+            is_sole_target_dim(dim, bin_coords.at(dim).dims()) &&
             allsorted(bin_coords.at(dim), dim) &&
             // A coord that is not bin edges does not bound the events' coord.
             (is_bin_edge(bin_coords.at(dim)) || !coords.count(dim))) {
@@ -458,6 +458,19 @@ private:
   Dimensions m_dims;
   Variable m_offsets;
   Variable m_nbin;
+  // True if given dim is the only one of the input dims that is part of the
+  // target. Bin offsets are then increasing along all dims that are summed or
+  // scanned, as required by SubbinSizes::exclusive_scan.
+  [[nodiscard]] bool is_sole_target_dim(const Dim dim,
+                                        const Dimensions &input) const {
+    if (!input.contains(dim))
+      return false;
+    for (const auto &label : input)
+      if (label != dim && m_dims.contains(label))
+        return false;
+    return true;
+  }
+
   // True if all dims outside of given dim have length 1.
   [[nodiscard]] bool is_outer(const Dim dim) const {
     for (const auto &label : m_dims) {
-- 
2.43.0


From dd25804d842204e39b9b5d20763fd1340432695a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:30 +0000
Subject: [PATCH 43/68] fix: rebin must not depend on the memory layout and
 handle zero-width bins

---
 lib/core/include/scipp/core/element/rebin.h | 11 ++++++++-
 lib/variable/rebin.cpp                      | 26 ++++++++++++++++++---
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/lib/core/include/scipp/core/element/rebin.h b/lib/core/include/scipp/core/element/rebin.h
index d7f61bc..4ced131 100644
--- a/lib/core/include/scipp/core/element/rebin.h
+++ b/lib/core/include/scipp/core/element/rebin.h
@@ -39,6 +39,10 @@ static constexpr auto rebin = overloaded{
           inew++; // old and new bins do not overlap
         else if (!less(xn_low, xo_high))
           iold++; // old and new bins do not overlap
+        else if (!less(xo_low, xo_high))
+          iold++; // old bin has no extent, so there is no overlap
+        else if (!less(xn_low, xn_high))
+          inew++; // new bin has no extent, must not add 0 * inf or 0 * NaN
         else {
           // delta is the overlap of the bins on the x axis
           using std::min;
@@ -46,7 +50,12 @@ static constexpr auto rebin = overloaded{
           const auto delta =
               std::abs(min(xn_high, xo_high, less) - max(xn_low, xo_low, less));
           const auto owidth = std::abs(xo_high - xo_low);
-          const auto scale = delta / owidth;
+          // Difference of time points is an integer, must not truncate here.
+          using Width = std::decay_t<decltype(owidth)>;
+          using Scale = std::conditional_t<std::is_floating_point_v<Width>,
+                                           Width, double>;
+          const auto scale =
+              static_cast<Scale>(delta) / static_cast<Scale>(owidth);
           if constexpr (is_ValueAndVariance_v<
                             std::decay_t<decltype(data_old)>>) {
             data_new.value[inew] += data_old.value[iold] * scale;
diff --git a/lib/variable/rebin.cpp b/lib/variable/rebin.cpp
index 794efb8..603ead3 100644
--- a/lib/variable/rebin.cpp
+++ b/lib/variable/rebin.cpp
@@ -38,10 +38,23 @@ void rebin_non_inner(const Dim dim, const Variable &oldT,
     // delta is the overlap of the bins on the x axis
     const auto delta = std::abs(std::min<double>(xn_high, xo_high, Less{}) -
                                 std::max<double>(xn_low, xo_low, Less{}));
+    if (delta == 0)
+      return; // no overlap, must not add 0 * inf or 0 * NaN
     const auto owidth = std::abs(xo_high - xo_low);
     slice += oldT.slice({dim, iold}) *
              ((delta / owidth) * (slice.unit() / oldT.unit()));
   };
+  auto add_whole_bins = [&](auto &&slice, const scipp::index begin,
+                            const scipp::index end) {
+    // Bins without extent do not overlap with anything and are left out.
+    for (auto i = begin; i < end; ++i) {
+      const auto first = i;
+      while (i < end && xold[i] != xold[i + 1])
+        ++i;
+      if (first < i)
+        sum_into(slice, oldT.slice({dim, first, i}));
+    }
+  };
   auto accumulate_bin = [&](auto &&slice, const auto xn_low,
                             const auto xn_high) {
     scipp::index begin =
@@ -53,7 +66,7 @@ void rebin_non_inner(const Dim dim, const Variable &oldT,
     begin = std::max(scipp::index(0), begin - 1);
     add_from_bin(slice, xn_low, xn_high, begin);
     if (begin + 1 < end - 1)
-      sum_into(slice, oldT.slice({dim, begin + 1, end - 1}));
+      add_whole_bins(slice, begin + 1, end - 1);
     if (begin != end - 1 && end < oldSize + 1)
       add_from_bin(slice, xn_low, xn_high, end - 1);
   };
@@ -91,10 +104,17 @@ struct Less {
 
 Variable rebin(const Variable &var, const Dim dim, const Variable &oldCoord,
                const Variable &newCoord) {
-  // The code branch dealing with non-stride-1 data cannot handle non-1D edges.
+  // The code branch dealing with non-stride-1 data cannot handle non-1D edges,
+  // variances, and anything but floating-point edges of matching dtype and unit.
   // This is likely a rare case in practice so a slow transpose of input and
   // output should be sufficient for now.
-  if (var.stride(dim) != 1 && (oldCoord.ndim() != 1 || newCoord.ndim() != 1))
+  if (var.stride(dim) != 1 &&
+      (oldCoord.ndim() != 1 || newCoord.ndim() != 1 || var.has_variances() ||
+       var.dtype() == dtype<bool> || oldCoord.unit() != newCoord.unit() ||
+       oldCoord.has_variances() || newCoord.has_variances() ||
+       oldCoord.dtype() != newCoord.dtype() ||
+       (oldCoord.dtype() != dtype<double> &&
+        oldCoord.dtype() != dtype<float>)))
     // We *copy* the transpose to ensure that memory order of dims matches input
     return copy(
         transpose(rebin(as_contiguous(var, dim), dim, oldCoord, newCoord),
-- 
2.43.0


From 4d087247a78f7dc33c54f8a07295b43fb016e476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:30 +0000
Subject: [PATCH 44/68] fix: concatenation of groups must use the grouping
 rather than values of a coord

---
 lib/dataset/groupby.cpp | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/lib/dataset/groupby.cpp b/lib/dataset/groupby.cpp
index 579e701..0f747d6 100644
--- a/lib/dataset/groupby.cpp
+++ b/lib/dataset/groupby.cpp
@@ -113,10 +113,32 @@ T GroupBy<T>::reduce(Op op, const Dim reductionDim,
 /// This only supports binned data.
 template <class T> T GroupBy<T>::concat(const Dim reductionDim) const {
   const auto conc = [&](const auto &data) {
-    if (key().dims().volume() == scipp::size(groups()))
-      return groupby_concat_bins(data, {}, key(), reductionDim);
-    else
-      return groupby_concat_bins(data, key(), {}, reductionDim);
+    // Identify groups by their index rather than by the values of the key. The
+    // key is not necessarily a coord of `data` and may contain NaN.
+    const auto slice_dim = m_grouping.sliceDim();
+    auto group_index = makeVariable<scipp::index>(
+        Dims{slice_dim}, Shape{data.dims()[slice_dim]}, units::none);
+    const auto index = group_index.template values<scipp::index>();
+    std::fill(index.begin(), index.end(), -1); // not in any group
+    for (scipp::index group = 0; group < size(); ++group)
+      for (const auto &slice : groups()[group])
+        std::fill(index.begin() + slice.begin(), index.begin() + slice.end(),
+                  group);
+    auto coords = data.coords().items();
+    auto attrs = data.attrs().items();
+    coords.insert_or_assign(dim(), group_index);
+    if (attrs.contains(dim()))
+      attrs.erase(dim());
+    auto group_range = makeVariable<scipp::index>(Dims{dim()}, Shape{size()},
+                                                  units::none);
+    const auto range = group_range.template values<scipp::index>();
+    std::iota(range.begin(), range.end(), 0);
+    auto out = groupby_concat_bins(
+        DataArray(data.data(), std::move(coords), data.masks().items(),
+                  std::move(attrs), data.name()),
+        {}, group_range, reductionDim);
+    out.coords().set(dim(), key());
+    return out;
   };
   if constexpr (std::is_same_v<T, DataArray>) {
     return conc(m_data);
-- 
2.43.0


From aa34dd48aad23c27ec7763e9cea0052eb92db710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:30 +0000
Subject: [PATCH 45/68] fix: grouping by NaN must not depend on sign and
 payload

---
 lib/dataset/groupby.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/groupby.cpp b/lib/dataset/groupby.cpp
index 0f747d6..2cf0a9c 100644
--- a/lib/dataset/groupby.cpp
+++ b/lib/dataset/groupby.cpp
@@ -258,13 +258,26 @@ template <class T> struct nan_sensitive_equal {
 };
 } // namespace
 
+namespace {
+template <class T> struct nan_sensitive_hash {
+  // NaNs are equal according to nan_sensitive_equal, irrespective of their sign
+  // and payload. They must therefore have the same hash.
+  auto operator()(const T &x) const {
+    if constexpr (std::is_floating_point_v<T>)
+      if (std::isnan(x))
+        return std::hash<T>{}(std::numeric_limits<T>::quiet_NaN());
+    return std::hash<T>{}(x);
+  }
+};
+} // namespace
+
 template <class T> struct MakeGroups {
   static GroupByGrouping apply(const Variable &key, const Dim targetDim) {
     expect::is_key(key);
     const auto &values = key.values<T>();
 
     const auto dim = key.dim();
-    std::unordered_map<T, GroupByGrouping::group, std::hash<T>,
+    std::unordered_map<T, GroupByGrouping::group, nan_sensitive_hash<T>,
                        nan_sensitive_equal<T>>
         indices;
     const auto end = values.end();
-- 
2.43.0


From 16e5dcd1f5aa85f6a658e6466b38b8edd52becd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:08 +0000
Subject: [PATCH 46/68] fix: avoid signed overflow when grouping by contiguous
 groups

---
 lib/core/include/scipp/core/element/bin.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/core/include/scipp/core/element/bin.h b/lib/core/include/scipp/core/element/bin.h
index ac0bdc4..19c8816 100644
--- a/lib/core/include/scipp/core/element/bin.h
+++ b/lib/core/include/scipp/core/element/bin.h
@@ -168,8 +168,11 @@ static constexpr auto update_indices_by_grouping_contiguous = overloaded{
       if (index == -1)
         return;
       index *= ngroup;
-      const auto group = x - offset;
-      index = group < 0 || group >= ngroup ? -1 : (index + group);
+      // Difference is computed as unsigned since it may exceed the signed range.
+      const auto group = static_cast<uint64_t>(x) - static_cast<uint64_t>(offset);
+      index = x < offset || group >= static_cast<uint64_t>(ngroup)
+                  ? -1
+                  : (index + static_cast<scipp::index>(group));
     }};
 
 static constexpr auto update_indices_from_existing = overloaded{
-- 
2.43.0


From ce6bd251bd22adb6146346f65dd60a253c0487a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:08 +0000
Subject: [PATCH 47/68] fix: exact unit scale applies to int64 only

---
 lib/core/include/scipp/core/element/to_unit.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/core/include/scipp/core/element/to_unit.h b/lib/core/include/scipp/core/element/to_unit.h
index 85def9c..1493832 100644
--- a/lib/core/include/scipp/core/element/to_unit.h
+++ b/lib/core/include/scipp/core/element/to_unit.h
@@ -48,7 +48,8 @@ constexpr auto exact_multiply = [](const int64_t x, const int64_t scale) {
 };
 
 constexpr auto scale_and_round = [](const auto &x, const auto &scale) {
-  if constexpr (std::is_integral_v<std::decay_t<decltype(scale)>>)
+  if constexpr (std::is_same_v<std::decay_t<decltype(x)>, int64_t> &&
+                std::is_integral_v<std::decay_t<decltype(scale)>>)
     return exact_multiply(x, scale);
   else
     return round<std::decay_t<decltype(x)>>(x * scale);
-- 
2.43.0


From feb9818bd04465b38880f40eb9d85d2a22449797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:39 +0000
Subject: [PATCH 48/68] fix: do not print uninitialized bins in error message

---
 lib/dataset/bins.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/dataset/bins.cpp b/lib/dataset/bins.cpp
index 6f56245..3006d61 100644
--- a/lib/dataset/bins.cpp
+++ b/lib/dataset/bins.cpp
@@ -26,6 +26,7 @@
 #include "scipp/dataset/bins_view.h"
 #include "scipp/dataset/dataset.h"
 #include "scipp/dataset/histogram.h"
+#include "scipp/dataset/string.h"
 
 #include "../variable/operations_common.h"
 #include "bin_common.h"
@@ -62,8 +63,8 @@ constexpr auto expect_matching_keys = [](const auto &a, const auto &b) {
   for (const auto &x : b)
     ok &= a.contains(key(x));
   if (!ok)
-    throw std::runtime_error("Mismatching keys in\n" + to_string(a) + " and\n" +
-                             to_string(b));
+    throw std::runtime_error("Mismatching keys in\n" + dict_keys_to_string(a) +
+                             " and\n" + dict_keys_to_string(b));
 };
 
 auto make_fill(const DataArray &function,
-- 
2.43.0


From 95278b7e00510c28ee88030cae417206dcd0a217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:39 +0000
Subject: [PATCH 49/68] fix: append to transposed bins and refuse to append
 more bins

---
 lib/dataset/bins.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/dataset/bins.cpp b/lib/dataset/bins.cpp
index 3006d61..c0dd0e2 100644
--- a/lib/dataset/bins.cpp
+++ b/lib/dataset/bins.cpp
@@ -312,12 +312,13 @@ DataArray concatenate(const DataArray &array, const Dim dim) {
 }
 
 void append(Variable &var0, const Variable &var1) {
-  if (var0.dtype() == dtype<bucket<Variable>>)
-    var0.setDataHandle(combine<Variable>(var0, var1).data_handle());
-  else if (var0.dtype() == dtype<bucket<DataArray>>)
-    var0.setDataHandle(combine<DataArray>(var0, var1).data_handle());
-  else
-    var0.setDataHandle(combine<Dataset>(var0, var1).data_handle());
+  auto out = concatenate(var0, var1);
+  core::expect::equals(var0.dims(), out.dims());
+  // The old and new model may order their elements differently. Therefore
+  // replacing the model is not enough if `var0` is, e.g., transposed.
+  var0.setDataHandle(out.data_handle());
+  out.set_aligned(var0.is_aligned());
+  var0 = std::move(out);
 }
 
 void append(Variable &&var0, const Variable &var1) { append(var0, var1); }
-- 
2.43.0


From 7938c0ee7f8cb9c277638f2592db2e318988b554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:39 +0000
Subject: [PATCH 50/68] fix: event lookup in tables that are not contiguous in
 memory

---
 lib/dataset/bins.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/dataset/bins.cpp b/lib/dataset/bins.cpp
index c0dd0e2..201f42b 100644
--- a/lib/dataset/bins.cpp
+++ b/lib/dataset/bins.cpp
@@ -214,8 +214,8 @@ bool is_bins(const Dataset &dataset) {
 Variable lookup_previous(const DataArray &function, const Variable &x, Dim dim,
                          const std::optional<Variable> &fill_value) {
   const auto fill = make_fill(function, fill_value);
-  const auto &coord = function.meta()[dim];
-  const auto data = masked_data(function, dim, fill);
+  const auto coord = as_contiguous(function.meta()[dim], dim);
+  const auto data = as_contiguous(masked_data(function, dim, fill), dim);
   const auto weights = subspan_view(data, dim);
   if (!allsorted(coord, dim))
     throw except::DataArrayError(
@@ -381,11 +381,11 @@ Variable map(const DataArray &function, const Variable &x, Dim dim,
   const auto fill = make_fill(function, fill_value);
   if (dim == Dim::Invalid)
     dim = edge_dimension(function);
-  const auto &edges = function.meta()[dim];
-  if (!is_edges(function.dims(), edges.dims(), dim))
+  if (!is_edges(function.dims(), function.meta()[dim].dims(), dim))
     throw except::BinEdgeError(
         "Function used as lookup table in map operation must be a histogram");
-  const auto data = masked_data(function, dim, fill);
+  const auto edges = as_contiguous(function.meta()[dim], dim);
+  const auto data = as_contiguous(masked_data(function, dim, fill), dim);
   const auto weights = subspan_view(data, dim);
   if (all(islinspace(edges, dim)).value<bool>()) {
     return variable::transform(x, subspan_view(edges, dim), weights, fill,
@@ -407,8 +407,8 @@ void scale(DataArray &array, const DataArray &histogram, Dim dim) {
   expect_can_union_or_in_place(array.masks(), other.masks());
   auto data = bins_view<DataArray>(array.data()).data();
   const auto &coord = bins_view<DataArray>(array.data()).meta()[dim];
-  const auto &edges = histogram.meta()[dim];
-  const auto masked = masked_data(histogram, dim);
+  const auto edges = as_contiguous(histogram.meta()[dim], dim);
+  const auto masked = as_contiguous(masked_data(histogram, dim), dim);
   const auto weights = subspan_view(masked, dim);
   if (all(islinspace(edges, dim)).value<bool>()) {
     transform_in_place(data, coord, subspan_view(edges, dim), weights,
-- 
2.43.0


From 477bb07298080ae1934364cd48f7517b24e499ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:54 +0000
Subject: [PATCH 51/68] fix: refuse to look up previous points in a histogram

---
 lib/dataset/bins.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/dataset/bins.cpp b/lib/dataset/bins.cpp
index 201f42b..36f0b22 100644
--- a/lib/dataset/bins.cpp
+++ b/lib/dataset/bins.cpp
@@ -215,6 +215,9 @@ Variable lookup_previous(const DataArray &function, const Variable &x, Dim dim,
                          const std::optional<Variable> &fill_value) {
   const auto fill = make_fill(function, fill_value);
   const auto coord = as_contiguous(function.meta()[dim], dim);
+  if (coord.dims()[dim] != function.dims()[dim])
+    throw except::BinEdgeError(
+        "Function used as lookup table must not be a histogram");
   const auto data = as_contiguous(masked_data(function, dim, fill), dim);
   const auto weights = subspan_view(data, dim);
   if (!allsorted(coord, dim))
-- 
2.43.0


From f72069aa325aa431b0f9efbdeb35b1de58d0f67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:58 +0000
Subject: [PATCH 52/68] fix: no previous point for NaN in event lookup

---
 lib/core/include/scipp/core/element/event_operations.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/core/include/scipp/core/element/event_operations.h b/lib/core/include/scipp/core/element/event_operations.h
index 936f0a3..664c1bf 100644
--- a/lib/core/include/scipp/core/element/event_operations.h
+++ b/lib/core/include/scipp/core/element/event_operations.h
@@ -105,6 +105,9 @@ constexpr auto lookup_previous =
     overloaded{map, [](const auto &point, const auto &x, const auto &weights,
                        const auto &fill) {
                  auto it = std::upper_bound(x.begin(), x.end(), point);
+                 // There is no point previous to NaN.
+                 if (numeric::isnan(point))
+                   it = x.begin();
                  return it == x.begin() ? fill : get(weights, --it - x.begin());
                }};
 
-- 
2.43.0


From b091402d2192b1940cc3ea9526c706c89e2d3e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:58 +0000
Subject: [PATCH 53/68] fix: scaling of events by histogram with masked first
 bin

---
 lib/dataset/bins.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/bins.cpp b/lib/dataset/bins.cpp
index 36f0b22..2e5db0a 100644
--- a/lib/dataset/bins.cpp
+++ b/lib/dataset/bins.cpp
@@ -405,7 +405,14 @@ void scale(DataArray &array, const DataArray &histogram, Dim dim) {
   if (dim == Dim::Invalid)
     dim = edge_dimension(histogram);
   // Coords along dim are ignored since "binning" is dynamic for buckets.
-  const auto other = histogram.slice({dim, 0});
+  auto other = histogram.slice({dim, 0});
+  // Masks along dim are applied to the weights, see below.
+  Masks masks(other.dims(), {});
+  for (const auto &[name, mask] : histogram.masks())
+    if (!mask.dims().contains(dim))
+      masks.set(name, mask);
+  other =
+      DataArray(other.data(), other.coords(), std::move(masks), other.attrs());
   expect::coords_are_superset(array, other, "bins.scale");
   expect_can_union_or_in_place(array.masks(), other.masks());
   auto data = bins_view<DataArray>(array.data()).data();
-- 
2.43.0


From e9643599378c1ad8620ec0afc05a2f0b422f51fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:01 +0000
Subject: [PATCH 54/68] fix: in-place operations of arrays with NaN coords

---
 lib/dataset/except.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/except.cpp b/lib/dataset/except.cpp
index 98affdd..a0ac6ed 100644
--- a/lib/dataset/except.cpp
+++ b/lib/dataset/except.cpp
@@ -68,7 +68,8 @@ void coords_are_superset(const Coords &a_coords, const Coords &b_coords,
         continue;
     }
     const auto &a_coord = a_coords[key];
-    if (a_coord.is_aligned() && b_coord.is_aligned() && a_coord != b_coord)
+    if (a_coord.is_aligned() && b_coord.is_aligned() &&
+        !equals_nan(a_coord, b_coord))
       throw except::CoordMismatchError(key, a_coord, b_coord, opname);
   }
 }
-- 
2.43.0


From 7792e52f06db3b5a9a6f0ae016d5fa367f83c5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:01 +0000
Subject: [PATCH 55/68] fix: groupby with bin-edge coord as key

---
 lib/dataset/groupby.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/dataset/groupby.cpp b/lib/dataset/groupby.cpp
index 2cf0a9c..fcc3769 100644
--- a/lib/dataset/groupby.cpp
+++ b/lib/dataset/groupby.cpp
@@ -370,6 +370,8 @@ GroupBy<T> call_groupby(const T &array, const Variable &key, const Dim &dim) {
 /// coord in a later apply/combine step.
 GroupBy<DataArray> groupby(const DataArray &array, const Dim dim) {
   const auto &key = array.meta()[dim];
+  if (!array.dims().includes(key.dims()))
+    throw except::DimensionError("Size of Group-by key is incorrect.");
   return call_groupby(array, key, dim);
 }
 
@@ -404,6 +406,8 @@ GroupBy<DataArray> groupby(const DataArray &array, const Variable &key,
 /// coord in a later apply/combine step.
 GroupBy<Dataset> groupby(const Dataset &dataset, const Dim dim) {
   const auto &key = dataset.meta()[dim];
+  if (!dataset.sizes().includes(key.dims()))
+    throw except::DimensionError("Size of Group-by key is incorrect.");
   return call_groupby(dataset, key, dim);
 }
 
-- 
2.43.0


From 0991b6b675244839b6c70cccf4d7d592adfece89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:41 +0000
Subject: [PATCH 56/68] fix: lengths of extra dims of coords, read-only masks
 of items of datasets

---
 lib/dataset/dataset.cpp    |  8 ++++---
 lib/dataset/sized_dict.cpp | 46 ++++++++++++++++++++------------------
 2 files changed, 29 insertions(+), 25 deletions(-)

diff --git a/lib/dataset/dataset.cpp b/lib/dataset/dataset.cpp
index 332def6..f398a04 100644
--- a/lib/dataset/dataset.cpp
+++ b/lib/dataset/dataset.cpp
@@ -204,8 +204,8 @@ void Dataset::setData(const std::string &name, const DataArray &data) {
   // Attrs might be shadowed by a coord, but this cannot be prevented in
   // general, so instead of failing here we proceed (and may fail later if
   // meta() is called).
-  item.attrs() = data.attrs();
-  item.masks() = data.masks();
+  item.attrs() = Attrs(data.attrs());
+  item.masks() = Masks(data.masks());
 }
 
 /// Like setData but allow inserting into a default-initialized dataset.
@@ -228,7 +228,9 @@ void Dataset::setDataInit(const std::string &name, const DataArray &data) {
 
 /// Return slice of the dataset along given dimension with given extents.
 Dataset Dataset::slice(const Slice &s) const {
-  Dataset out(slice_map(m_coords.sizes(), m_data, s));
+  auto items = slice_map(m_coords.sizes(), m_data, s);
+  Dataset out(items);
+  out.m_data = std::move(items); // with read-only masks and attrs
   out.m_coords = m_coords.slice_coords(s);
   out.m_readonly = true;
   return out;
diff --git a/lib/dataset/sized_dict.cpp b/lib/dataset/sized_dict.cpp
index fa86bf3..a3637e2 100644
--- a/lib/dataset/sized_dict.cpp
+++ b/lib/dataset/sized_dict.cpp
@@ -198,25 +198,39 @@ Dim SizedDict<Key, Value>::dim_of(const Key &key) const {
   return Dim::Invalid;
 }
 
-template <class Key, class Value>
-void SizedDict<Key, Value>::setSizes(const Sizes &sizes) {
-  scipp::expect::includes(sizes, m_sizes);
-  m_sizes = sizes;
-}
-
 namespace {
 template <class Key>
 void expect_valid_coord_dims(const Key &key, const Dimensions &coord_dims,
                              const Sizes &da_sizes) {
   using core::to_string;
-  if (!da_sizes.includes(coord_dims))
+  auto dims = coord_dims;
+  // Is a good definition for things that are allowed: "would be possible to
+  // concat along existing dim or extra dim"?
+  for (const auto &dim : coord_dims) {
+    if (!da_sizes.contains(dim) && dims[dim] == 2) { // bin edge along extra dim
+      dims.erase(dim);
+      break;
+    } else if (dims[dim] == da_sizes[dim] + 1) {
+      dims.resize(dim, da_sizes[dim]);
+      break;
+    }
+  }
+  if (!da_sizes.includes(dims))
     throw except::DimensionError(
-        "Cannot add coord '" + to_string(key) + "' of dims " +
-        to_string(coord_dims) + " to DataArray with dims " +
+        "Cannot add coord '" + to_string(key) + "' of dims " + to_string(dims) +
+        " to DataArray with dims " +
         to_string(Dimensions{da_sizes.labels(), da_sizes.sizes()}));
 }
 } // namespace
 
+template <class Key, class Value>
+void SizedDict<Key, Value>::setSizes(const Sizes &sizes) {
+  scipp::expect::includes(sizes, m_sizes);
+  for (const auto &[key, value] : m_items)
+    expect_valid_coord_dims(key, value.dims(), sizes);
+  m_sizes = sizes;
+}
+
 template <class Key, class Value>
 void SizedDict<Key, Value>::set(const key_type &key, mapped_type coord) {
   if (contains(key) && at(key).is_same(coord))
@@ -233,19 +247,7 @@ void SizedDict<Key, Value>::set(const key_type &key, mapped_type coord) {
         "use\n"
         "    da.bins.coords[" +
         to_string(key) + "] = binned_var`");
-  auto dims = coord.dims();
-  // Is a good definition for things that are allowed: "would be possible to
-  // concat along existing dim or extra dim"?
-  for (const auto &dim : coord.dims()) {
-    if (!sizes().contains(dim) && dims[dim] == 2) { // bin edge along extra dim
-      dims.erase(dim);
-      break;
-    } else if (dims[dim] == sizes()[dim] + 1) {
-      dims.resize(dim, sizes()[dim]);
-      break;
-    }
-  }
-  expect_valid_coord_dims(key, dims, m_sizes);
+  expect_valid_coord_dims(key, coord.dims(), m_sizes);
   m_items.insert_or_assign(key, std::move(coord));
 }
 
-- 
2.43.0


From 29927c71457c44b7bca5df57386bfd046555b2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:37 +0000
Subject: [PATCH 57/68] fix: copy of binned data with another type of buffer

---
 lib/variable/bins.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/variable/bins.cpp b/lib/variable/bins.cpp
index b7f56d7..ae729bf 100644
--- a/lib/variable/bins.cpp
+++ b/lib/variable/bins.cpp
@@ -30,8 +30,8 @@ constexpr auto copy_element = [](auto &a, const auto &b) { a = b; };
 /// This is using transform, so only data (no coords, etc.) is copied, but we
 /// only use this for buffers of type Variable.
 void copy_data(const Variable &src, Variable &dst) {
-  assert(src.dtype() == dtype<bucket<Variable>>);
-  assert(dst.dtype() == dtype<bucket<Variable>>);
+  core::expect::equals(dtype<bucket<Variable>>, src.dtype());
+  core::expect::equals(dtype<bucket<Variable>>, dst.dtype());
   transform_in_place<CopyTypes>(dst, src, copy_element, "copy");
 }
 
-- 
2.43.0


From f2e3bde773c7218c30b95f30e0a2515fee9444f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:46 +0000
Subject: [PATCH 58/68] fix: merge of datasets with differing unaligned coords

---
 lib/dataset/operations.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/dataset/operations.cpp b/lib/dataset/operations.cpp
index be94246..7108ba3 100644
--- a/lib/dataset/operations.cpp
+++ b/lib/dataset/operations.cpp
@@ -33,7 +33,12 @@ auto union_(const Dataset &a, const Dataset &b) {
 }
 
 Dataset merge(const Dataset &a, const Dataset &b) {
-  return Dataset(union_(a, b), union_(a.coords(), b.coords(), "merge"));
+  auto items = union_(a, b);
+  // Coords of the items must not bring back coords dropped by the union.
+  for (auto &&[name, item] : items)
+    item = DataArray(item.data(), {}, item.masks().items(),
+                     item.attrs().items(), name);
+  return Dataset(std::move(items), union_(a.coords(), b.coords(), "merge"));
 }
 
 /// Return a copy of dict-like objects as a core::Dict.
-- 
2.43.0


From 33a331fcc617c724d64861391098debf206871bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:55 +0000
Subject: [PATCH 59/68] fix: data race on unit when tasks write to slices of
 one variable

---
 lib/variable/variable.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/variable/variable.cpp b/lib/variable/variable.cpp
index d9a1329..8941845 100644
--- a/lib/variable/variable.cpp
+++ b/lib/variable/variable.cpp
@@ -117,7 +117,10 @@ const units::Unit &Variable::unit() const { return m_object->unit(); }
 void Variable::setUnit(const units::Unit &unit) {
   expect_writable();
   expect_can_set_unit(unit);
-  m_object->setUnit(unit);
+  // Tasks writing to distinct slices of the same buffer "set" the unit it has.
+  // They must not write to the unit, since others are reading it.
+  if (m_object->unit() != unit)
+    m_object->setUnit(unit);
 }
 
 Dim Variable::dim() const {
-- 
2.43.0


From 37aee0139fd38d7eacaff4c1ebd594cdaea4c826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:55 +0000
Subject: [PATCH 60/68] fix: order of elements with equal sort keys depends on
 thread scheduling

---
 lib/dataset/sort.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/dataset/sort.cpp b/lib/dataset/sort.cpp
index 934ff49..d58b193 100644
--- a/lib/dataset/sort.cpp
+++ b/lib/dataset/sort.cpp
@@ -19,6 +19,15 @@ constexpr auto nan_sensitive_less = [](const auto &a, const auto &b) {
 };
 
 template <class T> struct IndicesForSorting {
+  // The parallel sort is not stable, the order of equal keys would depend on
+  // how the work is split over threads.
+  static bool less(const std::pair<T, scipp::index> &a,
+                   const std::pair<T, scipp::index> &b, const bool if_equal) {
+    if (nan_sensitive_less(a.first, b.first))
+      return true;
+    return !nan_sensitive_less(b.first, a.first) && if_equal;
+  }
+
   static Variable apply(const Variable &key, const SortOrder order) {
     const auto size = key.dims()[key.dim()];
     const auto values = key.values<T>();
@@ -34,12 +43,12 @@ template <class T> struct IndicesForSorting {
     if (order == SortOrder::Ascending)
       core::parallel::parallel_sort(
           key_index.begin(), key_index.end(), [](const auto &a, const auto &b) {
-            return nan_sensitive_less(a.first, b.first);
+            return less(a, b, a.second < b.second);
           });
     else
       core::parallel::parallel_sort(
           key_index.begin(), key_index.end(), [](const auto &a, const auto &b) {
-            return nan_sensitive_less(b.first, a.first);
+            return less(b, a, a.second < b.second);
           });
 
     auto indices =
-- 
2.43.0


From 8587f7c35e9b87a5e88a0741d471dd2fadbe1adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:45 +0000
Subject: [PATCH 61/68] fix: text of time points before 1970, far from 1970,
 and in units of days or longer

---
 lib/core/string.cpp | 132 ++++++++++++++++++++++++++------------------
 1 file changed, 79 insertions(+), 53 deletions(-)

diff --git a/lib/core/string.cpp b/lib/core/string.cpp
index 4c59faf..f611cf8 100644
--- a/lib/core/string.cpp
+++ b/lib/core/string.cpp
@@ -2,9 +2,8 @@
 // Copyright (c) 2023 Scipp contributors (https://github.com/scipp)
 /// @file
 /// @author Simon Heybrock
-#include <chrono>
 #include <iomanip>
-#include <mutex>
+#include <limits>
 #include <sstream>
 
 #include "scipp/units/unit.h"
@@ -83,75 +82,102 @@ std::map<DType, std::string> &dtypeNameRegistry() {
 }
 
 namespace {
-template <class Ratio> constexpr int64_t num_digits() {
-  static_assert(Ratio::num == 1 || Ratio::num % 10 == 0);
-  static_assert(Ratio::den == 1 || Ratio::den % 10 == 0);
-  static_assert(Ratio::den > Ratio::num);
-  int64_t result = 0;
-  for (std::size_t i = Ratio::num; i < Ratio::den; i *= 10) {
-    ++result;
-  }
-  return result;
+std::string pad(const int64_t number, const int width) {
+  std::ostringstream oss;
+  oss << std::internal << std::setfill('0')
+      << std::setw(number < 0 ? width + 1 : width) << number;
+  return oss.str();
 }
 
-// For synchronizing access to gmtime because its return value is shared.
-std::mutex gmtime_mutex;
+/// Return quotient, rounded towards negative infinity, and remainder.
+std::pair<int64_t, int64_t> floor_div(const int64_t a, const int64_t b) {
+  const auto negative = a % b < 0;
+  return {a / b - negative, a % b + (negative ? b : 0)};
+}
 
-void put_time(std::ostream &os, const std::time_t time_point,
-              const bool include_time) {
-  std::lock_guard guard_{gmtime_mutex};
-  const std::tm *tm = std::gmtime(&time_point);
-  if (include_time)
-    os << std::put_time(tm, "%FT%T");
-  else
-    os << std::put_time(tm, "%F");
+std::string to_iso_year(const int64_t years_since_epoch) {
+  constexpr int64_t epoch = 1970;
+  if (years_since_epoch > std::numeric_limits<int64_t>::max() - epoch)
+    return std::to_string(static_cast<uint64_t>(years_since_epoch) + epoch);
+  return pad(years_since_epoch + epoch, 4);
 }
 
-template <class Rep, class Period>
-std::string to_string(const std::chrono::duration<Rep, Period> &duration) {
-  using Clock = std::chrono::system_clock;
+std::string to_iso_month(const int64_t months_since_epoch) {
+  const auto [year, month] = floor_div(months_since_epoch, 12);
+  return to_iso_year(year) + '-' + pad(month + 1, 2);
+}
 
-  std::ostringstream oss;
+/// Proleptic Gregorian date.
+///
+/// Independent of the range and of the shared state of std::gmtime, see
+/// http://howardhinnant.github.io/date_algorithms.html#civil_from_days
+std::string to_iso_day(const int64_t days_since_epoch) {
+  constexpr int64_t days_per_era = 146097; // 400 years
+  constexpr int64_t first_day = 719468;    // 0000-03-01 to 1970-01-01
+  auto [era, day] = floor_div(days_since_epoch, days_per_era);
+  const auto [more_eras, day_of_era] =
+      floor_div(day + first_day, days_per_era);
+  era += more_eras;
+  const auto year_of_era = (day_of_era - day_of_era / 1460 +
+                            day_of_era / 36524 - day_of_era / 146096) /
+                           365;
+  const auto day_of_year =
+      day_of_era - (365 * year_of_era + year_of_era / 4 - year_of_era / 100);
+  const auto month_from_march = (5 * day_of_year + 2) / 153;
+  const auto day_of_month = day_of_year - (153 * month_from_march + 2) / 5 + 1;
+  const auto month = month_from_march + (month_from_march < 10 ? 3 : -9);
+  const auto year = year_of_era + era * 400 + (month <= 2 ? 1 : 0);
+  return pad(year, 4) + '-' + pad(month, 2) + '-' + pad(day_of_month, 2);
+}
 
-#ifdef _WIN32
-  // Windows' time functions (e.g. gmtime) don't support datetimes before 1970.
-  if (duration < std::chrono::duration<Rep, Period>::zero()) {
-    return "(datetime before 1970, cannot format)";
-  }
-#endif
-
-  // Cast to seconds to be independent of clock precision.
-  // Sub-second digits are formatted manually.
-  put_time(oss,
-           Clock::to_time_t(Clock::time_point{
-               std::chrono::duration_cast<std::chrono::seconds>(duration)}),
-           true);
-  if constexpr (std::ratio_less_v<Period, std::ratio<1, 1>>) {
-    oss << '.' << std::setw(num_digits<Period>()) << std::setfill('0')
-        << (duration.count() % (Period::den / Period::num));
-  }
-  return oss.str();
+std::string to_iso_time(const int64_t days_since_epoch,
+                        const int64_t second_of_day) {
+  return to_iso_day(days_since_epoch) + 'T' + pad(second_of_day / 3600, 2) +
+         ':' + pad(second_of_day / 60 % 60, 2) + ':' +
+         pad(second_of_day % 60, 2);
+}
+
+/// Format time in units of seconds divided by 10**digits.
+std::string to_iso_time_with_fraction(const int64_t ticks_since_epoch,
+                                      const int64_t ticks_per_second,
+                                      const int digits) {
+  const auto [second, fraction] =
+      floor_div(ticks_since_epoch, ticks_per_second);
+  const auto [day, second_of_day] = floor_div(second, 24 * 3600);
+  const auto out = to_iso_time(day, second_of_day);
+  return digits == 0 ? out : out + '.' + pad(fraction, digits);
+}
+
+/// Format time in units that are multiples of seconds.
+std::string to_iso_min_or_hour(const int64_t ticks_since_epoch,
+                               const int64_t ticks_per_day) {
+  constexpr int64_t seconds_per_day = 24 * 3600;
+  const auto [day, tick] = floor_div(ticks_since_epoch, ticks_per_day);
+  return to_iso_time(day, tick * (seconds_per_day / ticks_per_day));
 }
 } // namespace
 
 std::string to_iso_date(const scipp::core::time_point &item,
                         const units::Unit &unit) {
+  const auto time = item.time_since_epoch();
   if (unit == units::ns) {
-    return to_string(std::chrono::nanoseconds{item.time_since_epoch()});
+    return to_iso_time_with_fraction(time, 1000000000, 9);
   } else if (unit == units::s) {
-    return to_string(std::chrono::seconds{item.time_since_epoch()});
+    return to_iso_time_with_fraction(time, 1, 0);
   } else if (unit == units::us) {
-    return to_string(std::chrono::microseconds{item.time_since_epoch()});
+    return to_iso_time_with_fraction(time, 1000000, 6);
   } else if (unit == units::Unit(llnl::units::precise::ms)) {
-    return to_string(std::chrono::milliseconds{item.time_since_epoch()});
+    return to_iso_time_with_fraction(time, 1000, 3);
   } else if (unit == units::Unit(llnl::units::precise::min)) {
-    return to_string(std::chrono::minutes{item.time_since_epoch()});
+    return to_iso_min_or_hour(time, 24 * 60);
   } else if (unit == units::Unit(llnl::units::precise::hr)) {
-    return to_string(std::chrono::hours{item.time_since_epoch()});
-  } else if (unit == units::Unit(llnl::units::precise::day) ||
-             unit == units::Unit("month") || unit == units::Unit("year")) {
-    throw except::UnitError("Printing of time points with units greater than "
-                            "hours is not yet implemented.");
+    return to_iso_min_or_hour(time, 24);
+  } else if (unit == units::Unit(llnl::units::precise::day)) {
+    return to_iso_day(time);
+  } else if (unit == units::Unit("month")) {
+    return to_iso_month(time);
+  } else if (unit == units::Unit("year")) {
+    return to_iso_year(time);
   }
   throw except::UnitError("Cannot display time point, unsupported unit: " +
                           to_string(unit));
-- 
2.43.0


From 3246a985c608df26f573d352dda5df8cd4426bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:11 +0000
Subject: [PATCH 62/68] fix: text of nested variables and arrays with a single
 element in several dims

---
 lib/dataset/variable_instantiate_dataset.cpp | 7 +++++--
 lib/variable/variable_instantiate_basic.cpp  | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/dataset/variable_instantiate_dataset.cpp b/lib/dataset/variable_instantiate_dataset.cpp
index 9323ca9..ce877cd 100644
--- a/lib/dataset/variable_instantiate_dataset.cpp
+++ b/lib/dataset/variable_instantiate_dataset.cpp
@@ -11,8 +11,11 @@ namespace scipp::variable {
 
 template <>
 std::string Formatter<DataArray>::format(const Variable &var) const {
-  if (var.dims().volume() == 1)
-    return "DataArray" + format_variable_like(var.value<DataArray>());
+  if (var.dims().volume() == 1) {
+    const auto &value = var.values<DataArray>().front();
+    return "DataArray" +
+           (value.is_valid() ? format_variable_like(value) : "(invalid)");
+  }
   return "[multiple data arrays]";
 }
 
diff --git a/lib/variable/variable_instantiate_basic.cpp b/lib/variable/variable_instantiate_basic.cpp
index 5806285..232da69 100644
--- a/lib/variable/variable_instantiate_basic.cpp
+++ b/lib/variable/variable_instantiate_basic.cpp
@@ -10,8 +10,11 @@
 namespace scipp::variable {
 
 template <> std::string Formatter<Variable>::format(const Variable &var) const {
-  if (var.dims().volume() == 1)
-    return "Variable" + format_variable_like(var.value<Variable>());
+  if (var.dims().volume() == 1) {
+    const auto &value = var.values<Variable>().front();
+    return "Variable" +
+           (value.is_valid() ? format_variable_like(value) : "(invalid)");
+  }
   return "[multiple variables]";
 }
 
-- 
2.43.0


From 71b194315a8e07cc6030e215443e8fa17f34a259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:26 +0000
Subject: [PATCH 63/68] fix: operations with bins of datasets terminate the
 process instead of raising

---
 lib/variable/include/scipp/variable/visit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/variable/include/scipp/variable/visit.h b/lib/variable/include/scipp/variable/visit.h
index f93c5b4..a0e375a 100644
--- a/lib/variable/include/scipp/variable/visit.h
+++ b/lib/variable/include/scipp/variable/visit.h
@@ -38,7 +38,7 @@ template <class T, class Var> auto variable_access(Var &var) {
 namespace visit_detail {
 
 template <template <class...> class Tuple, class... T, class... V>
-static bool holds_alternatives(Tuple<T...> &&, const V &...v) noexcept {
+static bool holds_alternatives(Tuple<T...> &&, const V &...v) {
   return ((dtype<T> == variableFactory().elem_dtype(v)) && ...);
 }
 
-- 
2.43.0


From 0d3eda94d86d2a8cb3b9b19d203b93b8ec237cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:26 +0000
Subject: [PATCH 64/68] fix: make_bins without any bins accepts a dim that the
 buffer does not have

---
 lib/variable/variable_instantiate_bin_elements.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/variable/variable_instantiate_bin_elements.cpp b/lib/variable/variable_instantiate_bin_elements.cpp
index 17feb30..efd7afb 100644
--- a/lib/variable/variable_instantiate_bin_elements.cpp
+++ b/lib/variable/variable_instantiate_bin_elements.cpp
@@ -38,11 +38,12 @@ private:
 void expect_valid_bin_indices(const Variable &indices, const Dim dim,
                               const Sizes &buffer_sizes) {
   core::expect::equals(units::none, indices.unit());
+  const auto buffer_size = buffer_sizes[dim];
   auto var = copy(indices);
   const auto vals = var.values<scipp::index_pair>().as_span();
   std::sort(vals.begin(), vals.end());
   if ((!vals.empty() && (vals.begin()->first < 0)) ||
-      (!vals.empty() && ((vals.end() - 1)->second > buffer_sizes[dim])))
+      (!vals.empty() && ((vals.end() - 1)->second > buffer_size)))
     throw except::SliceError("Bin indices out of range");
   if (std::adjacent_find(vals.begin(), vals.end(),
                          [](const auto a, const auto b) {
-- 
2.43.0


From ad271fedeadd95ee4c82e4191bb7c8f54ff73782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:26 +0000
Subject: [PATCH 65/68] fix: setCoords can give a dataset dims that its items
 do not have

---
 lib/dataset/dataset.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/dataset/dataset.cpp b/lib/dataset/dataset.cpp
index f398a04..1c84874 100644
--- a/lib/dataset/dataset.cpp
+++ b/lib/dataset/dataset.cpp
@@ -80,6 +80,8 @@ void Dataset::clear() {
 void Dataset::setCoords(Coords other) {
   expect_valid(*this);
   scipp::expect::includes(other.sizes(), m_coords.sizes());
+  if (!m_data.empty()) // all items have the dims of the dataset
+    scipp::expect::includes(m_coords.sizes(), other.sizes());
   m_coords = std::move(other);
 }
 /// Return a const view to all coordinates of the dataset.
-- 
2.43.0


From 38411922879018fbf11624f2acc42af7fac0d731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:12 +0000
Subject: [PATCH 66/68] fix: rebin of a range without bins reads past the end
 of its edges

---
 lib/variable/rebin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/variable/rebin.cpp b/lib/variable/rebin.cpp
index 603ead3..3f9df48 100644
--- a/lib/variable/rebin.cpp
+++ b/lib/variable/rebin.cpp
@@ -61,7 +61,7 @@ void rebin_non_inner(const Dim dim, const Variable &oldT,
         std::upper_bound(xold, xold + oldSize + 1, xn_low, Less{}) - xold;
     scipp::index end =
         std::upper_bound(xold, xold + oldSize + 1, xn_high, Less{}) - xold;
-    if (begin == oldSize + 1 || end == 0)
+    if (oldSize == 0 || begin == oldSize + 1 || end == 0)
       return;
     begin = std::max(scipp::index(0), begin - 1);
     add_from_bin(slice, xn_low, xn_high, begin);
-- 
2.43.0


From cac93345a1e3a9791521614bb56ea6231c34920a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:12 +0000
Subject: [PATCH 67/68] fix: operations with bins of multi-dimensional arrays
 use a buffer of wrong length

---
 lib/dataset/variable_instantiate_bin_elements.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/dataset/variable_instantiate_bin_elements.cpp b/lib/dataset/variable_instantiate_bin_elements.cpp
index 7fbeda3..a416e0a 100644
--- a/lib/dataset/variable_instantiate_bin_elements.cpp
+++ b/lib/dataset/variable_instantiate_bin_elements.cpp
@@ -107,13 +107,13 @@ private:
     // can use a cheap and simple copy of the buffer's coords and masks.
     // Otherwise we fall back to a copy via the binned views of the respective
     // content buffers.
-    if (source.dims() == Dimensions{dim, dims.volume()} &&
+    if (source.dims() == dims &&
         indices == parent.bin_indices()) {
       auto buffer = DataArray(std::move(data_buffer), copy(source.coords()),
                               copy(source.masks()), copy(source.attrs()));
       return make_bins_no_validate(indices, dim, std::move(buffer));
     } else {
-      auto buffer = resize_default_init(source, dim, dims.volume());
+      auto buffer = resize_default_init(source, dim, dims[dim]);
       auto out = make_bins_no_validate(indices, dim, std::move(buffer));
       // Note the inefficiency here: The data is copied, even though it will be
       // replaced and overwritten. Since this branch is a special case it is not
-- 
2.43.0


From ca039fc58431aec05f97d4732c2d487109dc5043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:45 +0000
Subject: [PATCH 68/68] fix: slicing with a huge step overflows strides

---
 lib/variable/variable.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/variable/variable.cpp b/lib/variable/variable.cpp
index 8941845..ec33593 100644
--- a/lib/variable/variable.cpp
+++ b/lib/variable/variable.cpp
@@ -2,6 +2,8 @@
 // Copyright (c) 2023 Scipp contributors (https://github.com/scipp)
 /// @file
 /// @author Simon Heybrock
+#include <algorithm>
+
 #include <units/units.hpp>
 
 #include "scipp/variable/variable.h"
@@ -202,7 +204,9 @@ Variable Variable::slice(const Slice params) const {
     out.m_dims.erase(dim);
   } else {
     static_cast<Sizes &>(out.m_dims) = out.m_dims.slice(params);
-    out.m_strides[index] *= stride;
+    // Steps beyond the range are equivalent but would overflow.
+    out.m_strides[index] *=
+        std::min(stride, std::max<scipp::index>(1, end - begin));
   }
   return out;
 }
-- 
2.43.0

