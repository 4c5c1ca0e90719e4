From 689ca04461849d7d41523820543824665ec8f20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 01/19] fix: assigning a value to a moved-from array of fixed
 shape must allocate

---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index dac1709..9901a9b 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2526,7 +2526,7 @@ public:
    * copy constructed from `value`. */
   void assign(Shape shape, const T& value) {
     shape.resolve();
-    if (shape_ == shape) {
+    if (base_ && shape_ == shape) {
       destroy();
     } else {
       deallocate();
-- 
2.43.0


From 209008535809a7b16c72d2507b150eee556e012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 02/19] fix: empty arrays must have a null base, also with
 negative strides

---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 9901a9b..42e08fc 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2287,7 +2287,7 @@ private:
       buffer_size_ = flat_extent;
       buffer_ = alloc_traits::allocate(alloc_, buffer_size_);
     }
-    base_ = buffer_ - shape_.flat_min();
+    base_ = internal::pointer_add(buffer_, -shape_.flat_min());
   }
 
   // Call the constructor on all of the elements of the array.
-- 
2.43.0


From f401ad3bdc45943384ab578061b8bb9ace8d6aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 03/19] fix: move_reinterpret_shape must check the subset with
 the offset negated

---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 42e08fc..63f91b6 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3051,7 +3051,7 @@ array<T, NewShape, Alloc> move_reinterpret_shape(
       std::is_trivial<T>::value, "move_reinterpret_shape is broken for non-trivial types.");
   using std::swap;
 
-  assert(new_shape.is_subset_of(from.shape(), offset));
+  assert(new_shape.is_subset_of(from.shape(), -offset));
   array<T, NewShape, Alloc> result;
   // Consider this to be a move assignment.
   if (std::allocator_traits<Alloc>::propagate_on_container_move_assignment::value) {
-- 
2.43.0


From b4eda87038a69ccb84eadcfb33afc248ebbbd4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:10 +0000
Subject: [PATCH 04/19] fix: make_move of an rvalue array must move, not copy,
 the array

---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 63f91b6..52b1bf7 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2880,7 +2880,7 @@ auto make_move(
 template <class T, class Shape, class Alloc>
 auto make_move(array<T, Shape, Alloc>&& src, const Shape& shape, const Alloc& alloc = Alloc()) {
   if (src.shape() == shape && alloc == src.get_allocator()) {
-    return src;
+    return std::move(src);
   } else {
     return make_move(src.ref(), shape, alloc);
   }
-- 
2.43.0


From b26d5740c984a51daf531e66c528b2b67ec88138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 05/19] fix: z-order traversal of an empty range must not call
 the function

---
 include/array/z_order.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/array/z_order.h b/include/array/z_order.h
index a4c7555..695fbe1 100644
--- a/include/array/z_order.h
+++ b/include/array/z_order.h
@@ -72,6 +72,8 @@ NDARRAY_UNIQUE void for_each_index_in_z_order(const Extents& extents, const Fn&
   constexpr index_t Rank = std::tuple_size<Extents>::value;
   // Get the ends of the iteration space as an array.
   const auto end = tuple_to_array<index_t>(extents, make_index_sequence<Rank>());
+  // If any extent is empty, there are no indices to visit.
+  if (*std::min_element(end.begin(), end.end()) <= 0) { return; }
   const index_t max_extent = *std::max_element(end.begin(), end.end());
   const index_t step = std::max<index_t>(1, next_power_of_two(max_extent) >> 1);
   std::array<index_t, Rank> z = {{0,}};
-- 
2.43.0


From 04be70838e1cc73218d2fb34c83021de606346c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:29 +0000
Subject: [PATCH 06/19] fix: make_compact must not count the extent of a dense
 dim twice

---
 include/array/array.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 52b1bf7..2283132 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1503,8 +1503,10 @@ NDARRAY_HOST_DEVICE auto make_compact_dims(
     const dim<Min, Extent, Stride>& dim0, const Dims&... dims) {
 
   // If we know the extent of this dimension, we can also provide
-  // a constant stride for the next dimension.
-  constexpr index_t NextStride = static_mul(CurrentStride, Extent);
+  // a constant stride for the next dimension. If this dimension already has a
+  // constant stride, its extent is already accounted for in CurrentStride.
+  constexpr index_t NextStride =
+      is_static(Stride) ? CurrentStride : static_mul(CurrentStride, Extent);
   // Give this dimension the current stride if we don't have one already,
   // and don't give it a runtime stride. If CurrentStride is static, that
   // will be the stride. If not, it will be dynamic, and resolved later.
@@ -1516,8 +1518,8 @@ NDARRAY_HOST_DEVICE auto make_compact_dims(
 template <class Dims, size_t... Is>
 NDARRAY_HOST_DEVICE auto make_compact_dims(const Dims& dims, index_sequence<Is...>) {
   // Currently, the algorithm is:
-  // - If any dimension has a static stride greater than one, don't give any
-  //   static strides.
+  // - If any dimension has a static stride with magnitude greater than one,
+  //   don't give any static strides.
   // - If all dimensions are dynamic, use 1 as the next stride.
   // - If a dimension has static stride 1, use its Extent as the next stride.
   // This is very conservative, but the only thing I can figure out how to
@@ -1526,7 +1528,9 @@ NDARRAY_HOST_DEVICE auto make_compact_dims(const Dims& dims, index_sequence<Is..
       variadic_max(std::tuple_element<Is, Dims>::type::Stride == 1
                        ? static_abs(std::tuple_element<Is, Dims>::type::Extent)
                        : dynamic...);
-  constexpr bool AnyStrideGreaterThanOne = any((std::tuple_element<Is, Dims>::type::Stride > 1)...);
+  constexpr bool AnyStrideGreaterThanOne =
+      any((is_static(std::tuple_element<Is, Dims>::type::Stride) &&
+           internal::abs(std::tuple_element<Is, Dims>::type::Stride) > 1)...);
   constexpr bool AllDynamic = all(is_dynamic(std::tuple_element<Is, Dims>::type::Stride)...);
   constexpr index_t NextStride = AnyStrideGreaterThanOne ? dynamic : (AllDynamic ? 1 : MinStride);
   return make_compact_dims<NextStride>(std::get<Is>(dims)...);
-- 
2.43.0


From af7b76d42d80f3ae5518a0e252333ca8b1907398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 07/19] fix: the intersection of disjoint shapes in reshape
 must be empty

---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 2283132..0bdae24 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1555,7 +1555,7 @@ NDARRAY_HOST_DEVICE auto clamp_dims(const DimA& a, const DimB& b) {
   constexpr index_t Extent = static_add(static_sub(Max, Min), 1);
   index_t min = internal::max(a.min(), b.min());
   index_t max = internal::min(a.max(), b.max());
-  index_t extent = max - min + 1;
+  index_t extent = internal::max<index_t>(0, max - min + 1);
   return dim<Min, Extent, DimA::Stride>(min, extent, a.stride());
 }
 
-- 
2.43.0


From e13f06019c46bda22f62cfb533fd62b55dac6d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:57 +0000
Subject: [PATCH 08/19] fix: reshape must keep using the allocator of the array

---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 0bdae24..1f29faa 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2634,7 +2634,7 @@ public:
     if (shape_ == new_shape) { return; }
 
     // Allocate an array with the new shape.
-    array new_array(new_shape);
+    array new_array(new_shape, alloc_);
 
     // Move the common elements to the new array.
     Shape intersection =
-- 
2.43.0


From 94e640a2139ab88ca6dd1c2db2c7109a16d4775d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 09/19] fix: crop of an image to a disjoint rectangle must be
 empty

---
 include/array/image.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/array/image.h b/include/array/image.h
index 6502ca8..544b832 100644
--- a/include/array/image.h
+++ b/include/array/image.h
@@ -156,6 +156,9 @@ array_ref<T, Shape> crop(const array_ref<T, Shape>& im, index_t x0, index_t y0,
   y0 = internal::max(y0, im.y().min());
   x1 = internal::min(x1, im.x().max() + 1);
   y1 = internal::min(y1, im.y().max() + 1);
+  // If the crop does not intersect the image, the result is empty.
+  x1 = internal::max(x0, x1);
+  y1 = internal::max(y0, y1);
   Shape cropped_shape = crop_image_shape(im.shape(), x0, y0, x1, y1, origin);
   index_t c0 = im.c().min();
   T* base = im.base() != nullptr ? &im(x0, y0, c0) : nullptr;
-- 
2.43.0


From 62bc46be62d88e39a76027ed350e4dc789f25fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 10/19] fix: make_compact must know the extents of all dense
 dims to use them

---
 include/array/array.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 1f29faa..dea1e1e 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1525,14 +1525,21 @@ NDARRAY_HOST_DEVICE auto make_compact_dims(const Dims& dims, index_sequence<Is..
   // This is very conservative, but the only thing I can figure out how to
   // express as constexpr with C++14 that doesn't risk doing dumb things.
   constexpr index_t MinStride =
-      variadic_max(std::tuple_element<Is, Dims>::type::Stride == 1
+      variadic_max(static_abs(std::tuple_element<Is, Dims>::type::Stride) == 1
                        ? static_abs(std::tuple_element<Is, Dims>::type::Extent)
                        : dynamic...);
   constexpr bool AnyStrideGreaterThanOne =
       any((is_static(std::tuple_element<Is, Dims>::type::Stride) &&
            internal::abs(std::tuple_element<Is, Dims>::type::Stride) > 1)...);
   constexpr bool AllDynamic = all(is_dynamic(std::tuple_element<Is, Dims>::type::Stride)...);
-  constexpr index_t NextStride = AnyStrideGreaterThanOne ? dynamic : (AllDynamic ? 1 : MinStride);
+  // The extents of all dimensions with stride of magnitude 1 must be known to use them below.
+  constexpr bool AnyUnitStrideUnknownExtent =
+      any((is_static(std::tuple_element<Is, Dims>::type::Stride) &&
+           internal::abs(std::tuple_element<Is, Dims>::type::Stride) == 1 &&
+           is_dynamic(std::tuple_element<Is, Dims>::type::Extent))...);
+  constexpr index_t NextStride = AnyStrideGreaterThanOne || AnyUnitStrideUnknownExtent
+                                     ? dynamic
+                                     : (AllDynamic ? 1 : MinStride);
   return make_compact_dims<NextStride>(std::get<Is>(dims)...);
 }
 
-- 
2.43.0


From c2d5bdb0abdab971bab131ac6f92a2340dbe4e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 11/19] fix: iteration and generation must not move from the
 caller's function

for_all_indices, for_each_index<LoopOrder...>, generate, transform_index,
transform_indices and for_each_value of matrices and chunky images moved from
their function argument also when it is an lvalue, which left e.g. a
std::function of the caller empty.
---
 include/array/array.h  | 12 ++++++------
 include/array/image.h  |  2 +-
 include/array/matrix.h |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index dea1e1e..cb44ca5 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1962,7 +1962,7 @@ template <size_t... LoopOrder, class Shape, class Fn,
     std::enable_if_t<(sizeof...(LoopOrder) == 0), int> = 0>
 NDARRAY_UNIQUE NDARRAY_HOST_DEVICE void for_all_indices(const Shape& s, Fn&& fn) {
   using index_type = typename Shape::index_type;
-  for_each_index(s, [fn = std::move(fn)](const index_type& i) { internal::apply(fn, i); });
+  for_each_index(s, [&fn](const index_type& i) { internal::apply(fn, i); });
 }
 template <size_t... LoopOrder, class Shape, class Fn,
     class = internal::enable_if_callable<Fn, index_of_rank<sizeof...(LoopOrder)>>,
@@ -1970,14 +1970,14 @@ template <size_t... LoopOrder, class Shape, class Fn,
 NDARRAY_UNIQUE NDARRAY_HOST_DEVICE void for_each_index(const Shape& s, Fn&& fn) {
   using index_type = index_of_rank<sizeof...(LoopOrder)>;
   for_each_index_in_order(reorder<LoopOrder...>(s),
-      [fn = std::move(fn)](const index_type& i) { fn(internal::unshuffle<LoopOrder...>(i)); });
+      [&fn](const index_type& i) { fn(internal::unshuffle<LoopOrder...>(i)); });
 }
 template <size_t... LoopOrder, class Shape, class Fn,
     class = internal::enable_if_callable<Fn, decltype(LoopOrder)...>,
     std::enable_if_t<(sizeof...(LoopOrder) != 0), int> = 0>
 NDARRAY_UNIQUE NDARRAY_HOST_DEVICE void for_all_indices(const Shape& s, Fn&& fn) {
   using index_type = index_of_rank<sizeof...(LoopOrder)>;
-  for_each_index_in_order(reorder<LoopOrder...>(s), [fn = std::move(fn)](const index_type& i) {
+  for_each_index_in_order(reorder<LoopOrder...>(s), [&fn](const index_type& i) {
     internal::apply(fn, internal::unshuffle<LoopOrder...>(i));
   });
 }
@@ -2927,7 +2927,7 @@ void fill(array<T, Shape, Alloc>& dst, const T& value) {
  * `shape_traits<Shape>::for_each_value`. */
 template <class T, class Shape, class Generator, class = internal::enable_if_callable<Generator>>
 NDARRAY_HOST_DEVICE void generate(const array_ref<T, Shape>& dst, Generator&& g) {
-  dst.for_each_value([g = std::move(g)](T& i) { i = g(); });
+  dst.for_each_value([&g](T& i) { i = g(); });
 }
 template <class T, class Shape, class Alloc, class Generator,
     class = internal::enable_if_callable<Generator>>
@@ -2942,7 +2942,7 @@ template <typename T, typename Shape, class Fn>
 NDARRAY_HOST_DEVICE void transform_index(const array_ref<T, Shape>& dst, Fn&& fn) {
   using index_type = typename Shape::index_type;
   for_each_index(
-      dst.shape(), [&, fn = std::move(fn)](const index_type& idx) { dst[idx] = fn(idx); });
+      dst.shape(), [&](const index_type& idx) { dst[idx] = fn(idx); });
 }
 template <typename T, typename Shape, class Fn>
 void transform_index(array<T, Shape>& dst, Fn&& fn) {
@@ -2956,7 +2956,7 @@ template <typename T, typename Shape, class Fn>
 NDARRAY_HOST_DEVICE void transform_indices(const array_ref<T, Shape>& dst, Fn&& fn) {
   using index_type = typename Shape::index_type;
   transform_index(
-      dst, [fn = std::move(fn)](const index_type& idx) { return internal::apply(fn, idx); });
+      dst, [&fn](const index_type& idx) { return internal::apply(fn, idx); });
 }
 template <typename T, typename Shape, class Fn>
 void transform_indices(array<T, Shape>& dst, Fn&& fn) {
diff --git a/include/array/image.h b/include/array/image.h
index 544b832..0a942c3 100644
--- a/include/array/image.h
+++ b/include/array/image.h
@@ -78,7 +78,7 @@ public:
   template <class Ptr, class Fn>
   static void for_each_value(const shape_type& s, Ptr base, Fn&& fn) {
     for_each_image_index(
-        s, [=, fn = std::move(fn)](const typename shape_type::index_type& i) { fn(base[s[i]]); });
+        s, [=, &fn](const typename shape_type::index_type& i) { fn(base[s[i]]); });
   }
 };
 
diff --git a/include/array/matrix.h b/include/array/matrix.h
index 3db0457..1417403 100644
--- a/include/array/matrix.h
+++ b/include/array/matrix.h
@@ -80,7 +80,7 @@ public:
   template <class Ptr, class Fn>
   static void for_each_value(const shape_type& s, Ptr base, Fn&& fn) {
     for_each_matrix_index(
-        s, [=, fn = std::move(fn)](const typename shape_type::index_type& i) { fn(base[s[i]]); });
+        s, [=, &fn](const typename shape_type::index_type& i) { fn(base[s[i]]); });
   }
 };
 
-- 
2.43.0


From aceddd581ad58d420845df7b08d7ef8c4f190048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 12/19] fix: slices of a const array must refer to const
 elements

---
 include/array/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index cb44ca5..b4e9ee6 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2575,11 +2575,11 @@ public:
   }
   template <class... Args, class = enable_if_any_slices<Args...>>
   auto operator[](const std::tuple<Args...>& args) const {
-    return internal::make_array_ref_at(base_, shape_, args);
+    return internal::make_array_ref_at(base(), shape_, args);
   }
   template <class... Args, class = enable_if_any_slices<Args...>>
   auto operator()(Args... args) const {
-    return internal::make_array_ref_at(base_, shape_, std::make_tuple(args...));
+    return internal::make_array_ref_at(base(), shape_, std::make_tuple(args...));
   }
 
   /** Call a function with a reference to each value in this array. The order in
-- 
2.43.0


From 49aab1285704ecd40b566855f38f7d76661ca66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:15 +0000
Subject: [PATCH 13/19] fix: a moved-from array must have a resolved shape

Moving from an array left its shape unresolved, so that copying from the
(empty) moved-from array failed the assertion in copy_construct.
---
 include/array/array.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/array/array.h b/include/array/array.h
index b4e9ee6..bda4718 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2409,6 +2409,7 @@ public:
     // Just assume we can swap in that case.
     if (typename alloc_traits::propagate_on_container_move_assignment() ||
         alloc_ == other.get_allocator()) {
+      shape_.resolve();
       swap_except_allocator(other);
     } else {
       shape_ = other.shape_;
@@ -2426,6 +2427,7 @@ public:
       : alloc_(alloc), buffer_(nullptr), buffer_size_(0), base_(nullptr) {
     using std::swap;
     if (alloc_ == other.get_allocator()) {
+      shape_.resolve();
       swap_except_allocator(other);
     } else {
       shape_ = other.shape_;
@@ -3076,6 +3078,7 @@ array<T, NewShape, Alloc> move_reinterpret_shape(
   swap(result.base_, from.base_);
   result.shape_ = new_shape;
   from.shape_ = OldShape();
+  from.shape_.resolve();
   result.base_ += offset;
 
   return result;
-- 
2.43.0


From d06969f9cc92984b0f91e04c658fb9761005fb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:36 +0000
Subject: [PATCH 14/19] fix: swap must keep the allocators it may not propagate

Without propagate_on_container_swap, swapping went through a temporary with
a default constructed allocator and through move assignment: elements were
moved although the allocators were equal, the allocators were exchanged if
they propagate on move assignment, and swapping an array with constant
extents with itself aborted.
---
 include/array/array.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index bda4718..9f86441 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2358,6 +2358,14 @@ private:
     swap(shape_, other.shape_);
   }
 
+  void move_except_allocator(array& other) {
+    if (alloc_ == other.get_allocator()) {
+      swap_except_allocator(other);
+    } else {
+      assign(std::move(other));
+    }
+  }
+
 public:
   /** Construct an array with a default constructed Shape. Most shapes are empty
    * by default, but a Shape with non-zero compile-time constants for all
@@ -2707,12 +2715,12 @@ public:
     if (alloc_traits::propagate_on_container_swap::value) {
       swap(alloc_, other.alloc_);
       swap_except_allocator(other);
-    } else {
+    } else if (this != &other) {
       // TODO: If the shapes are equal, we could swap each element without the
       // temporary allocation.
-      array temp(std::move(other));
-      other = std::move(*this);
-      *this = std::move(temp);
+      array temp(std::move(other), other.get_allocator());
+      other.move_except_allocator(*this);
+      move_except_allocator(temp);
     }
   }
 
-- 
2.43.0


From a2c2478afd6998eb41a385d95b3385a9da0e5715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 15/19] fix: make_move of an rvalue array must use the given
 allocator

Move constructing the result without an allocator uses a default
constructed one (and moves each element) unless the allocator propagates on
move assignment.
---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 9f86441..5ac3349 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2901,7 +2901,7 @@ auto make_move(
 template <class T, class Shape, class Alloc>
 auto make_move(array<T, Shape, Alloc>&& src, const Shape& shape, const Alloc& alloc = Alloc()) {
   if (src.shape() == shape && alloc == src.get_allocator()) {
-    return std::move(src);
+    return array<T, Shape, Alloc>(std::move(src), alloc);
   } else {
     return make_move(src.ref(), shape, alloc);
   }
-- 
2.43.0


From 3a939b15e6201f2d5d7e0d335d05f469e9d789d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:34 +0000
Subject: [PATCH 16/19] fix: make_copy and make_move must return the array with
 the given allocator

With a deduced return type clang does not elide the move of the local
array, and the move constructor of an array with an allocator that does
not propagate replaced the given allocator by a default constructed one.
---
 include/array/array.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 5ac3349..c3567c7 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2810,7 +2810,8 @@ void copy(const array<TSrc, ShapeSrc, AllocSrc>& src, array<TDst, ShapeDst, Allo
 /** Make a copy of the `src` array or array_ref with a new allocator `alloc`. */
 template <class T, class ShapeSrc,
     class Alloc = std::allocator<typename std::remove_const<T>::type>>
-auto make_copy(const array_ref<T, ShapeSrc>& src, const Alloc& alloc = Alloc()) {
+array<typename Alloc::value_type, ShapeSrc, Alloc> make_copy(
+    const array_ref<T, ShapeSrc>& src, const Alloc& alloc = Alloc()) {
   array<typename std::allocator_traits<Alloc>::value_type, ShapeSrc, Alloc> dst(src.shape(), alloc);
   copy(src, dst);
   return dst;
@@ -2825,7 +2826,7 @@ auto make_copy(const array<T, ShapeSrc, AllocSrc>& src, const AllocDst& alloc =
 template <class T, class ShapeSrc, class ShapeDst,
     class Alloc = std::allocator<typename std::remove_const<T>::type>,
     class = internal::enable_if_shapes_copy_compatible<ShapeDst, ShapeSrc>>
-auto make_copy(
+array<typename Alloc::value_type, ShapeDst, Alloc> make_copy(
     const array_ref<T, ShapeSrc>& src, const ShapeDst& shape, const Alloc& alloc = Alloc()) {
   array<typename std::allocator_traits<Alloc>::value_type, ShapeDst, Alloc> dst(shape, alloc);
   copy(src, dst);
@@ -2886,7 +2887,7 @@ void move(array<T, Shape, Alloc>&& src, array<T, Shape, Alloc>& dst) {
  * elements of `src` are moved to the result. */
 template <class T, class ShapeSrc, class ShapeDst, class Alloc = std::allocator<T>,
     class = internal::enable_if_shapes_copy_compatible<ShapeDst, ShapeSrc>>
-auto make_move(
+array<typename Alloc::value_type, ShapeDst, Alloc> make_move(
     const array_ref<T, ShapeSrc>& src, const ShapeDst& shape, const Alloc& alloc = Alloc()) {
   array<typename std::allocator_traits<Alloc>::value_type, ShapeDst, Alloc> dst(shape, alloc);
   move(src, dst);
-- 
2.43.0


From 1963b5663846ea6b30a67c22a6461f74069fda1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:04 +0000
Subject: [PATCH 17/19] fix: reshape must not require the common part to have
 the static extents

The intersection of the old and the new bounds of an array with a static
extent and a dynamic min has a smaller extent when the mins differ.
---
 include/array/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index c3567c7..132887a 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2654,11 +2654,11 @@ public:
     array new_array(new_shape, alloc_);
 
     // Move the common elements to the new array.
-    Shape intersection =
+    auto intersection =
         internal::clamp(new_shape.dims(), shape_.dims(), typename Shape::dim_indices());
     pointer intersection_base =
         internal::pointer_add(new_array.base_, new_shape[intersection.min()]);
-    copy_shape_traits_type::for_each_value(
+    copy_shape_traits<Shape, decltype(intersection)>::for_each_value(
         shape_, base_, intersection, intersection_base, internal::move_assign<T, T>);
 
     *this = std::move(new_array);
-- 
2.43.0


From d2fd59f697b3de4ac16422176f12c6b0ef9f8c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:37 +0000
Subject: [PATCH 18/19] fix: all dims addressed by a repeated index must be
 reconciled

An operand may use one loop index for several of its dims, e.g. the trace
ein<i, i>(A). Only the first such dim was used to find the bounds of the
loop; a smaller second dim was read out of bounds instead of asserting.
---
 include/array/ein_reduce.h | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/include/array/ein_reduce.h b/include/array/ein_reduce.h
index 684646d..8209a5d 100644
--- a/include/array/ein_reduce.h
+++ b/include/array/ein_reduce.h
@@ -277,13 +277,24 @@ template <index_t NewStride, index_t Min, index_t Extent, index_t Stride>
 NDARRAY_INLINE auto with_stride(const dim<Min, Extent, Stride>& d) {
   return dim<Min, Extent, NewStride>(d.min(), d.extent());
 }
-template <index_t NewStride, class Dim>
-NDARRAY_INLINE auto with_stride(const std::tuple<Dim>& maybe_dim) {
-  return std::make_tuple(with_stride<NewStride>(std::get<0>(maybe_dim)));
+template <index_t NewStride, class Dims, size_t... Is>
+NDARRAY_INLINE auto with_stride(const Dims& dims, index_sequence<Is...>) {
+  return std::make_tuple(with_stride<NewStride>(std::get<Is>(dims))...);
 }
-template <index_t NewStride>
-NDARRAY_INLINE std::tuple<> with_stride(std::tuple<> maybe_dim) {
-  return maybe_dim;
+template <index_t NewStride, class... Dims>
+NDARRAY_INLINE auto with_stride(const std::tuple<Dims...>& dims) {
+  return with_stride<NewStride>(dims, make_index_sequence<sizeof...(Dims)>());
+}
+
+// Get all of the dims of an operand that are addressed by the loop index Dim.
+// An operand may use the same loop index for more than one of its dims.
+template <size_t Dim, size_t... Is, class Dims, size_t... Ds>
+NDARRAY_INLINE auto dims_of_index(const Dims& dims, index_sequence<Ds...>) {
+  return std::tuple_cat(get_or_empty<(Is == Dim ? Ds : 10000)>(dims)...);
+}
+template <size_t Dim, size_t... Is, class Dims>
+NDARRAY_INLINE auto dims_of_index(const Dims& dims) {
+  return dims_of_index<Dim, Is...>(dims, make_index_sequence<sizeof...(Is)>());
 }
 
 // These types are flags that let us overload behavior based on these 3 options.
@@ -295,17 +306,17 @@ class is_operand_shape {};
 template <size_t Dim, class Dims, size_t... Is>
 NDARRAY_INLINE auto gather_dims(is_result_shape, const ein_op<Dims, Is...>& op) {
   // If this is part of the result, we want to keep its strides.
-  return get_or_empty<index_of<Dim, Is...>()>(dims_of(op.op));
+  return dims_of_index<Dim, Is...>(dims_of(op.op));
 }
 template <size_t Dim, class Dims, size_t... Is>
 NDARRAY_INLINE auto gather_dims(is_inferred_shape, const ein_op<Dims, Is...>& op) {
   // For inferred shapes, we want shapes without any constexpr strides, so it can be reshaped.
-  return with_stride<dynamic>(get_or_empty<index_of<Dim, Is...>()>(dims_of(op.op)));
+  return with_stride<dynamic>(dims_of_index<Dim, Is...>(dims_of(op.op)));
 }
 template <size_t Dim, class Dims, size_t... Is>
 NDARRAY_INLINE auto gather_dims(is_operand_shape, const ein_op<Dims, Is...>& op) {
   // If this is an operand shape, we want all of its dimensions to be stride 0.
-  return with_stride<0>(get_or_empty<index_of<Dim, Is...>()>(dims_of(op.op)));
+  return with_stride<0>(dims_of_index<Dim, Is...>(dims_of(op.op)));
 }
 
 template <size_t Dim, class Kind, class Op, class X>
-- 
2.43.0


From d9b81b448d576b0929c67f503868638608f05306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 19/19] fix: auto_allocator with a custom base allocator can be
 compared

The comparison operators named auto_allocator<U, N, A>, which is only the
specialization with the default BaseAlloc, so an auto_allocator with another
BaseAlloc (and any array using it) could not be compared at all.
---
 include/array/array.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 132887a..2de0800 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3186,8 +3186,9 @@ public:
     }
   }
 
-  template <class U, size_t U_N, size_t U_A>
-  friend bool operator==(const auto_allocator& a, const auto_allocator<U, U_N, U_A>& b) {
+  template <class U, size_t U_N, size_t U_A, class U_BaseAlloc>
+  friend bool operator==(
+      const auto_allocator& a, const auto_allocator<U, U_N, U_A, U_BaseAlloc>& b) {
     if (a.allocated || b.allocated) {
       return &a.buffer[0] == &b.buffer[0];
     } else {
@@ -3195,8 +3196,9 @@ public:
     }
   }
 
-  template <class U, size_t U_N, size_t U_A>
-  friend bool operator!=(const auto_allocator& a, const auto_allocator<U, U_N, U_A>& b) {
+  template <class U, size_t U_N, size_t U_A, class U_BaseAlloc>
+  friend bool operator!=(
+      const auto_allocator& a, const auto_allocator<U, U_N, U_A, U_BaseAlloc>& b) {
     return !(a == b);
   }
 };
-- 
2.43.0

