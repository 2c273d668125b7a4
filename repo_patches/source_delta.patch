From 662cdd774d36b1be857c04be8ee404a2909e1a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 01/29] fix: don't offset a null buffer when allocating an
 empty array

An empty shape with a negative stride has a nonzero flat_min, so base_ became a bogus
non-null pointer, and the array later deallocated a null buffer or aborted when assigned.
---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index dac1709..7c182b5 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2287,7 +2287,7 @@ private:
       buffer_size_ = flat_extent;
       buffer_ = alloc_traits::allocate(alloc_, buffer_size_);
     }
-    base_ = buffer_ - shape_.flat_min();
+    base_ = internal::pointer_add(buffer_, -shape_.flat_min());
   }
 
   // Call the constructor on all of the elements of the array.
-- 
2.43.0


From 8cd4c0f40db50626f11c3796f2f5648a82698b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 02/29] fix: allocate when assigning a value to an array
 without an allocation

A moved-from array with a fixed shape has no allocation but may compare equal to the new
shape; assign(shape, value) then constructed nothing (or failed an assertion).
---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 7c182b5..42e08fc 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2526,7 +2526,7 @@ public:
    * copy constructed from `value`. */
   void assign(Shape shape, const T& value) {
     shape.resolve();
-    if (shape_ == shape) {
+    if (base_ && shape_ == shape) {
       destroy();
     } else {
       deallocate();
-- 
2.43.0


From a3936cb61e6426712677d7a595e3a89db3d0b3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 03/29] fix: allow assignment between arrays that have no
 allocation

A moved-from array of a shape with static extents has no allocation, but its
shape is not empty, so assigning one such array to another (or to itself, as
std::swap(a, a) does) failed an assertion.
---
 include/array/array.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 42e08fc..59ddabd 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2439,7 +2439,7 @@ public:
         assert(shape_ == other.shape_);
       } else {
         shape_ = other.shape_;
-        assert(shape_.empty());
+        assert(!buffer_);
       }
       return *this;
     }
@@ -2464,7 +2464,7 @@ public:
         assert(shape_ == other.shape_);
       } else {
         swap(shape_, other.shape_);
-        assert(shape_.empty());
+        assert(!buffer_);
       }
       return *this;
     }
@@ -2489,7 +2489,7 @@ public:
         assert(shape_ == other.shape_);
       } else {
         shape_ = other.shape_;
-        assert(shape_.empty());
+        assert(!buffer_);
       }
       return;
     }
@@ -2508,7 +2508,7 @@ public:
         assert(shape_ == other.shape_);
       } else {
         shape_ = other.shape_;
-        assert(shape_.empty());
+        assert(!buffer_);
       }
       return;
     }
-- 
2.43.0


From 8b35f5991aea72e8c6af1c77de6d9aaff3246f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 04/29] fix: handle disjoint and static extent shapes in
 array::reshape

The intersection of the old and new shapes was converted to the array's shape
type, which fails if that type has static extents and the min changed, and it
had a negative extent if the shapes are disjoint.
---
 include/array/array.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 59ddabd..fdf9396 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1551,7 +1551,8 @@ NDARRAY_HOST_DEVICE auto clamp_dims(const DimA& a, const DimB& b) {
   constexpr index_t Extent = static_add(static_sub(Max, Min), 1);
   index_t min = internal::max(a.min(), b.min());
   index_t max = internal::min(a.max(), b.max());
-  index_t extent = max - min + 1;
+  // If the intervals are disjoint, the intersection is empty.
+  index_t extent = internal::max<index_t>(max - min + 1, 0);
   return dim<Min, Extent, DimA::Stride>(min, extent, a.stride());
 }
 
@@ -2632,13 +2633,16 @@ public:
     // Allocate an array with the new shape.
     array new_array(new_shape);
 
-    // Move the common elements to the new array.
-    Shape intersection =
+    // Move the common elements to the new array. The intersection may not be a
+    // valid `Shape`, if `Shape` has dimensions with a static extent.
+    auto intersection =
         internal::clamp(new_shape.dims(), shape_.dims(), typename Shape::dim_indices());
-    pointer intersection_base =
-        internal::pointer_add(new_array.base_, new_shape[intersection.min()]);
-    copy_shape_traits_type::for_each_value(
-        shape_, base_, intersection, intersection_base, internal::move_assign<T, T>);
+    if (!intersection.empty()) {
+      pointer intersection_base =
+          internal::pointer_add(new_array.base_, new_shape[intersection.min()]);
+      copy_shape_traits<Shape, decltype(intersection)>::for_each_value(
+          shape_, base_, intersection, intersection_base, internal::move_assign<T, T>);
+    }
 
     *this = std::move(new_array);
   }
-- 
2.43.0


From b396f338cb6ad4e5c929312232bca4ee0b205c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 05/29] fix: use the array's allocator in array::reshape

---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index fdf9396..3e7d0de 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2631,7 +2631,7 @@ public:
     if (shape_ == new_shape) { return; }
 
     // Allocate an array with the new shape.
-    array new_array(new_shape);
+    array new_array(new_shape, alloc_);
 
     // Move the common elements to the new array. The intersection may not be a
     // valid `Shape`, if `Shape` has dimensions with a static extent.
-- 
2.43.0


From 14e89cd71f2768b167cae899114eaf28d0137bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 06/29] fix: sign of the offset in move_reinterpret_shape's
 bounds assertion

---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 3e7d0de..393006d 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3055,7 +3055,7 @@ array<T, NewShape, Alloc> move_reinterpret_shape(
       std::is_trivial<T>::value, "move_reinterpret_shape is broken for non-trivial types.");
   using std::swap;
 
-  assert(new_shape.is_subset_of(from.shape(), offset));
+  assert(new_shape.is_subset_of(from.shape(), -offset));
   array<T, NewShape, Alloc> result;
   // Consider this to be a move assignment.
   if (std::allocator_traits<Alloc>::propagate_on_container_move_assignment::value) {
-- 
2.43.0


From 010c29c11d93b5788f31892249a94833a6ac053f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 07/29] fix: move the array in make_move of an array rvalue

Returning the rvalue reference parameter by name copies it.
---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 393006d..4106f52 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2884,7 +2884,7 @@ auto make_move(
 template <class T, class Shape, class Alloc>
 auto make_move(array<T, Shape, Alloc>&& src, const Shape& shape, const Alloc& alloc = Alloc()) {
   if (src.shape() == shape && alloc == src.get_allocator()) {
-    return src;
+    return array<T, Shape, Alloc>(std::move(src), alloc);
   } else {
     return make_move(src.ref(), shape, alloc);
   }
-- 
2.43.0


From 65c81844a9819221ef969a58c5e45183f1f7477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 08/29] fix: don't pad dims after a static stride in
 make_compact

A dimension with a static stride does not use up the current stride, so the
dimension after it should get the same one. Static strides less than -1 also
occupy a range of offsets, like those greater than one.
---
 include/array/array.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 4106f52..c89c4b8 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1503,8 +1503,10 @@ NDARRAY_HOST_DEVICE auto make_compact_dims(
     const dim<Min, Extent, Stride>& dim0, const Dims&... dims) {
 
   // If we know the extent of this dimension, we can also provide
-  // a constant stride for the next dimension.
-  constexpr index_t NextStride = static_mul(CurrentStride, Extent);
+  // a constant stride for the next dimension. A dimension that already has a
+  // static stride does not use the current stride.
+  constexpr index_t NextStride =
+      is_static(Stride) ? CurrentStride : static_mul(CurrentStride, Extent);
   // Give this dimension the current stride if we don't have one already,
   // and don't give it a runtime stride. If CurrentStride is static, that
   // will be the stride. If not, it will be dynamic, and resolved later.
@@ -1516,8 +1518,8 @@ NDARRAY_HOST_DEVICE auto make_compact_dims(
 template <class Dims, size_t... Is>
 NDARRAY_HOST_DEVICE auto make_compact_dims(const Dims& dims, index_sequence<Is...>) {
   // Currently, the algorithm is:
-  // - If any dimension has a static stride greater than one, don't give any
-  //   static strides.
+  // - If any dimension has a static stride of magnitude greater than one, don't
+  //   give any static strides.
   // - If all dimensions are dynamic, use 1 as the next stride.
   // - If a dimension has static stride 1, use its Extent as the next stride.
   // This is very conservative, but the only thing I can figure out how to
@@ -1526,7 +1528,8 @@ NDARRAY_HOST_DEVICE auto make_compact_dims(const Dims& dims, index_sequence<Is..
       variadic_max(std::tuple_element<Is, Dims>::type::Stride == 1
                        ? static_abs(std::tuple_element<Is, Dims>::type::Extent)
                        : dynamic...);
-  constexpr bool AnyStrideGreaterThanOne = any((std::tuple_element<Is, Dims>::type::Stride > 1)...);
+  constexpr bool AnyStrideGreaterThanOne =
+      any((static_abs(std::tuple_element<Is, Dims>::type::Stride) > 1)...);
   constexpr bool AllDynamic = all(is_dynamic(std::tuple_element<Is, Dims>::type::Stride)...);
   constexpr index_t NextStride = AnyStrideGreaterThanOne ? dynamic : (AllDynamic ? 1 : MinStride);
   return make_compact_dims<NextStride>(std::get<Is>(dims)...);
-- 
2.43.0


From 4ec62648410941dcaf0541a612c4b4509cb9ca1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 09/29] fix: crop of an image to a disjoint region is empty

The extents of the result were negative, and it referred to memory outside the
image.
---
 include/array/image.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/array/image.h b/include/array/image.h
index 6502ca8..0969aa2 100644
--- a/include/array/image.h
+++ b/include/array/image.h
@@ -152,10 +152,11 @@ Shape crop_image_shape(Shape s, index_t x0, index_t y0, index_t x1, index_t y1,
 template <class T, class Shape>
 array_ref<T, Shape> crop(const array_ref<T, Shape>& im, index_t x0, index_t y0, index_t x1,
     index_t y1, crop_origin origin = crop_origin::crop) {
-  x0 = internal::max(x0, im.x().min());
-  y0 = internal::max(y0, im.y().min());
-  x1 = internal::min(x1, im.x().max() + 1);
-  y1 = internal::min(y1, im.y().max() + 1);
+  // If the crop is disjoint from the image (or inverted), the result is empty.
+  x0 = clamp(x0, im.x().min(), im.x().max() + 1);
+  y0 = clamp(y0, im.y().min(), im.y().max() + 1);
+  x1 = clamp(x1, x0, im.x().max() + 1);
+  y1 = clamp(y1, y0, im.y().max() + 1);
   Shape cropped_shape = crop_image_shape(im.shape(), x0, y0, x1, y1, origin);
   index_t c0 = im.c().min();
   T* base = im.base() != nullptr ? &im(x0, y0, c0) : nullptr;
-- 
2.43.0


From 5cdd9800b7852ea071c743e5530cab5f34d6c9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 10/29] fix: for_each_in_z_order of an empty range

The function was called for (and dereferenced) elements of an empty range.
---
 include/array/z_order.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/array/z_order.h b/include/array/z_order.h
index a4c7555..9ab2255 100644
--- a/include/array/z_order.h
+++ b/include/array/z_order.h
@@ -72,6 +72,8 @@ NDARRAY_UNIQUE void for_each_index_in_z_order(const Extents& extents, const Fn&
   constexpr index_t Rank = std::tuple_size<Extents>::value;
   // Get the ends of the iteration space as an array.
   const auto end = tuple_to_array<index_t>(extents, make_index_sequence<Rank>());
+  // If any of the ranges is empty, there is nothing to iterate over.
+  if (*std::min_element(end.begin(), end.end()) <= 0) { return; }
   const index_t max_extent = *std::max_element(end.begin(), end.end());
   const index_t step = std::max<index_t>(1, next_power_of_two(max_extent) >> 1);
   std::array<index_t, Rank> z = {{0,}};
-- 
2.43.0


From 90635133076a76c286c3a3632bacc3af249c20b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 11/29] fix: don't move from callables passed as lvalues

Traversals moved the caller's function object into a lambda, which left an
lvalue argument moved-from (an empty std::function, for example), and did not
compile for function objects with a non-const operator().
---
 include/array/array.h  | 12 ++++++------
 include/array/image.h  |  2 +-
 include/array/matrix.h |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index c89c4b8..371c189 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1955,7 +1955,7 @@ template <size_t... LoopOrder, class Shape, class Fn,
     std::enable_if_t<(sizeof...(LoopOrder) == 0), int> = 0>
 NDARRAY_UNIQUE NDARRAY_HOST_DEVICE void for_all_indices(const Shape& s, Fn&& fn) {
   using index_type = typename Shape::index_type;
-  for_each_index(s, [fn = std::move(fn)](const index_type& i) { internal::apply(fn, i); });
+  for_each_index(s, [&](const index_type& i) { internal::apply(fn, i); });
 }
 template <size_t... LoopOrder, class Shape, class Fn,
     class = internal::enable_if_callable<Fn, index_of_rank<sizeof...(LoopOrder)>>,
@@ -1963,14 +1963,14 @@ template <size_t... LoopOrder, class Shape, class Fn,
 NDARRAY_UNIQUE NDARRAY_HOST_DEVICE void for_each_index(const Shape& s, Fn&& fn) {
   using index_type = index_of_rank<sizeof...(LoopOrder)>;
   for_each_index_in_order(reorder<LoopOrder...>(s),
-      [fn = std::move(fn)](const index_type& i) { fn(internal::unshuffle<LoopOrder...>(i)); });
+      [&](const index_type& i) { fn(internal::unshuffle<LoopOrder...>(i)); });
 }
 template <size_t... LoopOrder, class Shape, class Fn,
     class = internal::enable_if_callable<Fn, decltype(LoopOrder)...>,
     std::enable_if_t<(sizeof...(LoopOrder) != 0), int> = 0>
 NDARRAY_UNIQUE NDARRAY_HOST_DEVICE void for_all_indices(const Shape& s, Fn&& fn) {
   using index_type = index_of_rank<sizeof...(LoopOrder)>;
-  for_each_index_in_order(reorder<LoopOrder...>(s), [fn = std::move(fn)](const index_type& i) {
+  for_each_index_in_order(reorder<LoopOrder...>(s), [&](const index_type& i) {
     internal::apply(fn, internal::unshuffle<LoopOrder...>(i));
   });
 }
@@ -2923,7 +2923,7 @@ void fill(array<T, Shape, Alloc>& dst, const T& value) {
  * `shape_traits<Shape>::for_each_value`. */
 template <class T, class Shape, class Generator, class = internal::enable_if_callable<Generator>>
 NDARRAY_HOST_DEVICE void generate(const array_ref<T, Shape>& dst, Generator&& g) {
-  dst.for_each_value([g = std::move(g)](T& i) { i = g(); });
+  dst.for_each_value([&](T& i) { i = g(); });
 }
 template <class T, class Shape, class Alloc, class Generator,
     class = internal::enable_if_callable<Generator>>
@@ -2938,7 +2938,7 @@ template <typename T, typename Shape, class Fn>
 NDARRAY_HOST_DEVICE void transform_index(const array_ref<T, Shape>& dst, Fn&& fn) {
   using index_type = typename Shape::index_type;
   for_each_index(
-      dst.shape(), [&, fn = std::move(fn)](const index_type& idx) { dst[idx] = fn(idx); });
+      dst.shape(), [&](const index_type& idx) { dst[idx] = fn(idx); });
 }
 template <typename T, typename Shape, class Fn>
 void transform_index(array<T, Shape>& dst, Fn&& fn) {
@@ -2952,7 +2952,7 @@ template <typename T, typename Shape, class Fn>
 NDARRAY_HOST_DEVICE void transform_indices(const array_ref<T, Shape>& dst, Fn&& fn) {
   using index_type = typename Shape::index_type;
   transform_index(
-      dst, [fn = std::move(fn)](const index_type& idx) { return internal::apply(fn, idx); });
+      dst, [&](const index_type& idx) { return internal::apply(fn, idx); });
 }
 template <typename T, typename Shape, class Fn>
 void transform_indices(array<T, Shape>& dst, Fn&& fn) {
diff --git a/include/array/image.h b/include/array/image.h
index 0969aa2..8b8fe81 100644
--- a/include/array/image.h
+++ b/include/array/image.h
@@ -78,7 +78,7 @@ public:
   template <class Ptr, class Fn>
   static void for_each_value(const shape_type& s, Ptr base, Fn&& fn) {
     for_each_image_index(
-        s, [=, fn = std::move(fn)](const typename shape_type::index_type& i) { fn(base[s[i]]); });
+        s, [&](const typename shape_type::index_type& i) { fn(base[s[i]]); });
   }
 };
 
diff --git a/include/array/matrix.h b/include/array/matrix.h
index 3db0457..2ec39c5 100644
--- a/include/array/matrix.h
+++ b/include/array/matrix.h
@@ -80,7 +80,7 @@ public:
   template <class Ptr, class Fn>
   static void for_each_value(const shape_type& s, Ptr base, Fn&& fn) {
     for_each_matrix_index(
-        s, [=, fn = std::move(fn)](const typename shape_type::index_type& i) { fn(base[s[i]]); });
+        s, [&](const typename shape_type::index_type& i) { fn(base[s[i]]); });
   }
 };
 
-- 
2.43.0


From b3da28ae300d56104b1325c91b8daca6138650b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 12/29] fix: resolve strides of dims added by convert_shape of
 an array_ref

The added dims had an unresolved stride, which is the minimum index_t, and was
used in pointer arithmetic when iterating over the result.
---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 371c189..6c20c8d 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2990,7 +2990,7 @@ bool equal(const array<TA, ShapeA, AllocA>& a, const array<TB, ShapeB, AllocB>&
  * `NewShape`. The new shape is copy constructed from `a.shape()`. */
 template <class NewShape, class T, class OldShape>
 NDARRAY_HOST_DEVICE array_ref<T, NewShape> convert_shape(const array_ref<T, OldShape>& a) {
-  return array_ref<T, NewShape>(a.base(), convert_shape<NewShape>(a.shape()), internal::no_resolve{});
+  return array_ref<T, NewShape>(a.base(), convert_shape<NewShape>(a.shape()));
 }
 template <class NewShape, class T, class OldShape, class Allocator>
 array_ref<T, NewShape> convert_shape(array<T, OldShape, Allocator>& a) {
-- 
2.43.0


From 92a6e4c121fab071f4a058bb0500c78459935463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:05 +0000
Subject: [PATCH 13/29] fix: views of a const array are const

The const overloads of array's slicing operators returned an array_ref of
mutable elements, so a const array could be modified through its views.
---
 include/array/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 6c20c8d..0eceac5 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2568,11 +2568,11 @@ public:
   }
   template <class... Args, class = enable_if_any_slices<Args...>>
   auto operator[](const std::tuple<Args...>& args) const {
-    return internal::make_array_ref_at(base_, shape_, args);
+    return internal::make_array_ref_at(base(), shape_, args);
   }
   template <class... Args, class = enable_if_any_slices<Args...>>
   auto operator()(Args... args) const {
-    return internal::make_array_ref_at(base_, shape_, std::make_tuple(args...));
+    return internal::make_array_ref_at(base(), shape_, std::make_tuple(args...));
   }
 
   /** Call a function with a reference to each value in this array. The order in
-- 
2.43.0


From 697b7f616cacbcde4a6b1c75e0ff8b228a4ee92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 14/29] fix: ambiguous make_copy of an array_ref with a new
 shape

make_copy(array_ref, shape) matched both the overload taking a shape and the
one taking an allocator.
---
 include/array/array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 0eceac5..94579b8 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2795,7 +2795,8 @@ void copy(const array<TSrc, ShapeSrc, AllocSrc>& src, array<TDst, ShapeDst, Allo
 
 /** Make a copy of the `src` array or array_ref with a new allocator `alloc`. */
 template <class T, class ShapeSrc,
-    class Alloc = std::allocator<typename std::remove_const<T>::type>>
+    class Alloc = std::allocator<typename std::remove_const<T>::type>,
+    class = internal::enable_if_allocator<Alloc>>
 auto make_copy(const array_ref<T, ShapeSrc>& src, const Alloc& alloc = Alloc()) {
   array<typename std::allocator_traits<Alloc>::value_type, ShapeSrc, Alloc> dst(src.shape(), alloc);
   copy(src, dst);
-- 
2.43.0


From 30b703ca4cace6c8875cb4038a81dcd5a89f0b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:04 +0000
Subject: [PATCH 15/29] fix: copying or moving elements from a moved-from array

---
 include/array/array.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/array/array.h b/include/array/array.h
index 94579b8..04c6d58 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2305,12 +2305,22 @@ private:
   }
   void copy_construct(const array& other) {
     assert(base_ || shape_.empty());
+    if (!other.base_) {
+      // other was moved from, it has no elements, even if its shape is not empty.
+      construct();
+      return;
+    }
     assert(shape_ == other.shape_);
     copy_shape_traits_type::for_each_value(other.shape_, other.base_, shape_, base_,
         [&](const_reference src, reference dst) { alloc_traits::construct(alloc_, &dst, src); });
   }
   void move_construct(array& other) {
     assert(base_ || shape_.empty());
+    if (!other.base_) {
+      // other was moved from, it has no elements, even if its shape is not empty.
+      construct();
+      return;
+    }
     assert(shape_ == other.shape_);
     copy_shape_traits_type::for_each_value(
         other.shape_, other.base_, shape_, base_, [&](reference src, reference dst) {
-- 
2.43.0


From f04e27632a222189856bc990197e611f18d7cf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 16/29] fix: propagate allocators in assignments between empty
 arrays

---
 include/array/array.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/array/array.h b/include/array/array.h
index 04c6d58..5920d01 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2454,6 +2454,9 @@ public:
       } else {
         shape_ = other.shape_;
         assert(!buffer_);
+        if (alloc_traits::propagate_on_container_copy_assignment::value) {
+          alloc_ = other.get_allocator();
+        }
       }
       return *this;
     }
@@ -2479,6 +2482,9 @@ public:
       } else {
         swap(shape_, other.shape_);
         assert(!buffer_);
+        if (alloc_traits::propagate_on_container_move_assignment::value) {
+          swap(alloc_, other.alloc_);
+        }
       }
       return *this;
     }
-- 
2.43.0


From 1b1a41e193e35b1be8932dbcdd3caf3d6706ea9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 17/29] fix: swap arrays with equal allocators without moving
 elements

---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 5920d01..c53640b 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2720,7 +2720,7 @@ public:
     } else {
       // TODO: If the shapes are equal, we could swap each element without the
       // temporary allocation.
-      array temp(std::move(other));
+      array temp(std::move(other), other.get_allocator());
       other = std::move(*this);
       *this = std::move(temp);
     }
-- 
2.43.0


From 505372c305f4e38335606fbef2062d244efcaa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:09 +0000
Subject: [PATCH 18/29] fix: make functions keep the given allocator without
 copy elision

---
 include/array/array.h      | 12 +++++++++---
 include/array/ein_reduce.h |  3 ++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index c53640b..5fc455f 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2816,7 +2816,9 @@ template <class T, class ShapeSrc,
 auto make_copy(const array_ref<T, ShapeSrc>& src, const Alloc& alloc = Alloc()) {
   array<typename std::allocator_traits<Alloc>::value_type, ShapeSrc, Alloc> dst(src.shape(), alloc);
   copy(src, dst);
-  return dst;
+  // Without copy elision, moving dst may not preserve its allocator.
+  return array<typename std::allocator_traits<Alloc>::value_type, ShapeSrc, Alloc>(
+      std::move(dst), alloc);
 }
 template <class T, class ShapeSrc, class AllocSrc, class AllocDst = AllocSrc,
     class = internal::enable_if_allocator<AllocDst>>
@@ -2832,7 +2834,9 @@ auto make_copy(
     const array_ref<T, ShapeSrc>& src, const ShapeDst& shape, const Alloc& alloc = Alloc()) {
   array<typename std::allocator_traits<Alloc>::value_type, ShapeDst, Alloc> dst(shape, alloc);
   copy(src, dst);
-  return dst;
+  // Without copy elision, moving dst may not preserve its allocator.
+  return array<typename std::allocator_traits<Alloc>::value_type, ShapeDst, Alloc>(
+      std::move(dst), alloc);
 }
 template <class T, class ShapeSrc, class ShapeDst, class AllocSrc, class AllocDst = AllocSrc,
     class = internal::enable_if_shapes_copy_compatible<ShapeDst, ShapeSrc>>
@@ -2893,7 +2897,9 @@ auto make_move(
     const array_ref<T, ShapeSrc>& src, const ShapeDst& shape, const Alloc& alloc = Alloc()) {
   array<typename std::allocator_traits<Alloc>::value_type, ShapeDst, Alloc> dst(shape, alloc);
   move(src, dst);
-  return dst;
+  // Without copy elision, moving dst may not preserve its allocator.
+  return array<typename std::allocator_traits<Alloc>::value_type, ShapeDst, Alloc>(
+      std::move(dst), alloc);
 }
 template <class T, class ShapeSrc, class ShapeDst, class AllocSrc, class AllocDst = AllocSrc,
     class = internal::enable_if_shapes_copy_compatible<ShapeDst, ShapeSrc>>
diff --git a/include/array/ein_reduce.h b/include/array/ein_reduce.h
index 684646d..54ea993 100644
--- a/include/array/ein_reduce.h
+++ b/include/array/ein_reduce.h
@@ -479,7 +479,8 @@ NDARRAY_INLINE auto make_ein_sum(
   auto result_shape = make_ein_reduce_shape<ResultIs...>(expr);
   auto result = make_array<T>(result_shape, init, alloc);
   ein_reduce(ein<ResultIs...>(result) += expr);
-  return result;
+  // Without copy elision, moving result may not preserve its allocator.
+  return decltype(result)(std::move(result), alloc);
 }
 
 } // namespace nda
-- 
2.43.0


From 2be31d46e0dc7ffaf6f364d0730efb8914b1442b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:24 +0000
Subject: [PATCH 19/29] fix: compare auto_allocators with a custom base
 allocator

---
 include/array/array.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 5fc455f..89a5835 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3193,8 +3193,9 @@ public:
     }
   }
 
-  template <class U, size_t U_N, size_t U_A>
-  friend bool operator==(const auto_allocator& a, const auto_allocator<U, U_N, U_A>& b) {
+  template <class U, size_t U_N, size_t U_A, class U_BaseAlloc>
+  friend bool operator==(
+      const auto_allocator& a, const auto_allocator<U, U_N, U_A, U_BaseAlloc>& b) {
     if (a.allocated || b.allocated) {
       return &a.buffer[0] == &b.buffer[0];
     } else {
@@ -3202,8 +3203,9 @@ public:
     }
   }
 
-  template <class U, size_t U_N, size_t U_A>
-  friend bool operator!=(const auto_allocator& a, const auto_allocator<U, U_N, U_A>& b) {
+  template <class U, size_t U_N, size_t U_A, class U_BaseAlloc>
+  friend bool operator!=(
+      const auto_allocator& a, const auto_allocator<U, U_N, U_A, U_BaseAlloc>& b) {
     return !(a == b);
   }
 };
-- 
2.43.0


From 93a10e3c6c2f4d93590d08b1c7a5fe88b2cb42b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:40 +0000
Subject: [PATCH 20/29] fix: move_reinterpret_shape from an array to a static
 shape

---
 include/array/array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/array/array.h b/include/array/array.h
index 89a5835..2ae35fe 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3083,6 +3083,8 @@ array<T, NewShape, Alloc> move_reinterpret_shape(
 
   assert(new_shape.is_subset_of(from.shape(), -offset));
   array<T, NewShape, Alloc> result;
+  // If the default NewShape is not empty, from can't have the elements of result.
+  result.deallocate();
   // Consider this to be a move assignment.
   if (std::allocator_traits<Alloc>::propagate_on_container_move_assignment::value) {
     swap(result.alloc_, from.alloc_);
-- 
2.43.0


From 2c1e04b0b9388b81c7ef4acd7783f9ba8f00ff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:24 +0000
Subject: [PATCH 21/29] fix: resolve strides of dims added by
 move_reinterpret_shape

---
 include/array/array.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/array/array.h b/include/array/array.h
index 2ae35fe..eaf6c37 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3105,6 +3105,7 @@ template <typename NewShape, typename T, typename OldShape, typename Alloc>
 array<T, NewShape, Alloc> move_reinterpret_shape(
     array<T, OldShape, Alloc>&& from, index_t offset = 0) {
   NewShape new_shape = convert_shape<NewShape>(from.shape());
+  new_shape.resolve();
   return move_reinterpret_shape(std::move(from), new_shape, offset);
 }
 
-- 
2.43.0


From a9f5dd17bca72951cbedde5cd6058443ee555f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 22/29] fix: z-order traversal of iterator ranges with
 NDARRAY_INT_INDICES

---
 include/array/z_order.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/z_order.h b/include/array/z_order.h
index 9ab2255..4567d2b 100644
--- a/include/array/z_order.h
+++ b/include/array/z_order.h
@@ -85,7 +85,7 @@ NDARRAY_UNIQUE void for_each_in_z_order_impl(
     const std::tuple<Ranges...>& ranges, const Fn& fn, index_sequence<Is...>) {
   constexpr size_t Rank = sizeof...(Is);
   std::array<index_t, Rank> extents = {
-      {(std::end(std::get<Is>(ranges)) - std::begin(std::get<Is>(ranges)))...}};
+      {static_cast<index_t>(std::end(std::get<Is>(ranges)) - std::begin(std::get<Is>(ranges)))...}};
   for_each_index_in_z_order(extents, [&](const std::array<index_t, Rank>& i) {
     fn(std::make_tuple(*(std::begin(std::get<Is>(ranges)) + std::get<Is>(i))...));
   });
-- 
2.43.0


From d7704105ad3b47af52d25af846e6c7c0844046c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 23/29] fix: allow min and max of ein operands of the same type

---
 include/array/array.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index eaf6c37..dec46a2 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -166,13 +166,14 @@ public:
   NDARRAY_INLINE NDARRAY_HOST_DEVICE operator index_t() const { return value_; }
 };
 
-// Defined here to avoid pulling in <algorithm>.
-template <typename T>
+// Defined here to avoid pulling in <algorithm>. These require operator< so they do not compete with
+// overloads of min and max for other types.
+template <typename T, class = decltype(std::declval<const T&>() < std::declval<const T&>())>
 constexpr const T& max(const T& a, const T& b) {
   return (a < b) ? b : a;
 }
 
-template <typename T>
+template <typename T, class = decltype(std::declval<const T&>() < std::declval<const T&>())>
 constexpr const T& min(const T& a, const T& b) {
   return (b < a) ? b : a;
 }
-- 
2.43.0


From ef2c67e75a730802159d61cb6cf8cb0eb93c4817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 24/29] fix: make_compact with several dense dimensions

---
 include/array/array.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index dec46a2..b845334 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1531,8 +1531,11 @@ NDARRAY_HOST_DEVICE auto make_compact_dims(const Dims& dims, index_sequence<Is..
                        : dynamic...);
   constexpr bool AnyStrideGreaterThanOne =
       any((static_abs(std::tuple_element<Is, Dims>::type::Stride) > 1)...);
+  constexpr bool AnyDenseExtentDynamic = any((std::tuple_element<Is, Dims>::type::Stride == 1 &&
+                                              is_dynamic(std::tuple_element<Is, Dims>::type::Extent))...);
   constexpr bool AllDynamic = all(is_dynamic(std::tuple_element<Is, Dims>::type::Stride)...);
-  constexpr index_t NextStride = AnyStrideGreaterThanOne ? dynamic : (AllDynamic ? 1 : MinStride);
+  constexpr index_t NextStride =
+      AnyStrideGreaterThanOne || AnyDenseExtentDynamic ? dynamic : (AllDynamic ? 1 : MinStride);
   return make_compact_dims<NextStride>(std::get<Is>(dims)...);
 }
 
-- 
2.43.0


From e895505f4b36b6b35cac09e85902580c6b2ac464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 25/29] fix: do not allocate memory for empty shapes

---
 include/array/array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index b845334..3f7cc64 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2290,9 +2290,9 @@ private:
   void allocate() {
     assert(!buffer_);
     shape_.resolve();
-    size_type flat_extent = shape_.flat_extent();
-    if (flat_extent > 0) {
-      buffer_size_ = flat_extent;
+    // The flat min and max of an empty shape do not describe any memory.
+    if (!shape_.empty()) {
+      buffer_size_ = shape_.flat_extent();
       buffer_ = alloc_traits::allocate(alloc_, buffer_size_);
     }
     base_ = internal::pointer_add(buffer_, -shape_.flat_min());
-- 
2.43.0


From ec5d4ff0de51d3d947ea0564272627b873a0b410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:56 +0000
Subject: [PATCH 26/29] fix: transform_index and transform_indices of arrays
 with any allocator

---
 include/array/array.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 3f7cc64..705e38f 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2967,8 +2967,8 @@ NDARRAY_HOST_DEVICE void transform_index(const array_ref<T, Shape>& dst, Fn&& fn
   for_each_index(
       dst.shape(), [&](const index_type& idx) { dst[idx] = fn(idx); });
 }
-template <typename T, typename Shape, class Fn>
-void transform_index(array<T, Shape>& dst, Fn&& fn) {
+template <typename T, typename Shape, class Alloc, class Fn>
+void transform_index(array<T, Shape, Alloc>& dst, Fn&& fn) {
   transform_index(dst.ref(), fn);
 }
 
@@ -2981,8 +2981,8 @@ NDARRAY_HOST_DEVICE void transform_indices(const array_ref<T, Shape>& dst, Fn&&
   transform_index(
       dst, [&](const index_type& idx) { return internal::apply(fn, idx); });
 }
-template <typename T, typename Shape, class Fn>
-void transform_indices(array<T, Shape>& dst, Fn&& fn) {
+template <typename T, typename Shape, class Alloc, class Fn>
+void transform_indices(array<T, Shape, Alloc>& dst, Fn&& fn) {
   transform_indices(dst.ref(), fn);
 }
 
-- 
2.43.0


From 921744abcbd5451545c56d1a9ffccd2ed91c18d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:08 +0000
Subject: [PATCH 27/29] fix: ein assignment between operands of the same type

---
 include/array/ein_reduce.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/array/ein_reduce.h b/include/array/ein_reduce.h
index 54ea993..546b481 100644
--- a/include/array/ein_reduce.h
+++ b/include/array/ein_reduce.h
@@ -74,6 +74,8 @@ template <class Op, size_t... Is>
 struct ein_op : public ein_op_base<ein_op<Op, Is...>> {
   Op op;
   ein_op(Op op) : op(std::move(op)) {}
+  ein_op(const ein_op&) = default;
+  ein_op(ein_op&&) = default;
 
   // The largest dimension used by this operand.
   static constexpr index_t MaxIndex = sizeof...(Is) == 0 ? -1 : variadic_max(Is...);
@@ -86,7 +88,10 @@ struct ein_op : public ein_op_base<ein_op<Op, Is...>> {
     return op(std::get<Is>(i)...);
   }
 
-  // Only ein_op has assignment operators.
+  // Only ein_op has assignment operators. The template is not used if `r` has the same type as this.
+  auto operator=(const ein_op& r) const {
+    return make_ein_op_assign(*this, r);
+  }
   template <class T, class = enable_if_ein_op<T>>
   auto operator=(const T& r) const {
     return make_ein_op_assign(*this, r);
-- 
2.43.0


From 8f229cfb436c1327d5caa67365a3a6921df95e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:20 +0000
Subject: [PATCH 28/29] fix: a split iterator advanced past its last piece in
 one step stops at the end

---
 include/array/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 705e38f..761699e 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -544,14 +544,14 @@ public:
       // When the extent of the inner split is a compile-time constant,
       // we can't shrink the out of bounds interval. Instead, shift the min,
       // assuming the outer dimension is bigger than the inner extent.
-      i.set_min(i.min() + InnerExtent * n);
+      i.set_min(internal::min(i.min() + InnerExtent * n, outer_max + 1));
       // Only shift the min when this straddles the end of the buffer,
       // so the iterator can advance to the end (one past the max).
       if (i.min() <= outer_max && i.max() > outer_max) { i.set_min(outer_max - InnerExtent + 1); }
     } else {
       // When the extent of the inner split is not a compile-time constant,
       // we can just modify the extent.
-      i.set_min(i.min() + i.extent() * n);
+      i.set_min(internal::min(i.min() + i.extent() * n, outer_max + 1));
       index_t max = min(i.max(), outer_max);
       i.set_extent(max - i.min() + 1);
     }
-- 
2.43.0


From fbeb50796eb5df775cdd24e77a10504e38938316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:52 +0000
Subject: [PATCH 29/29] fix: uninitialized_allocator forwards
 select_on_container_copy_construction

---
 include/array/array.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 761699e..0874d8e 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3232,11 +3232,14 @@ public:
       typename std::allocator_traits<BaseAlloc>::propagate_on_container_move_assignment;
   using propagate_on_container_swap =
       typename std::allocator_traits<BaseAlloc>::propagate_on_container_swap;
-  static uninitialized_allocator select_on_container_copy_construction(
-      const uninitialized_allocator& alloc) {
-    return std::allocator_traits<BaseAlloc>::select_on_container_copy_construction(alloc);
+  uninitialized_allocator select_on_container_copy_construction() const {
+    return uninitialized_allocator(
+        std::allocator_traits<BaseAlloc>::select_on_container_copy_construction(*this));
   }
 
+  uninitialized_allocator() = default;
+  uninitialized_allocator(const BaseAlloc& alloc) : BaseAlloc(alloc) {}
+
   value_type* allocate(size_t n) { return std::allocator_traits<BaseAlloc>::allocate(*this, n); }
   void deallocate(value_type* p, size_t n) noexcept {
     return std::allocator_traits<BaseAlloc>::deallocate(*this, p, n);
-- 
2.43.0

