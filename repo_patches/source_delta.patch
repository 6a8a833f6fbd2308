From 628b4b240206d2f466538b1eb71a8818f2e4d857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:30 +0000
Subject: [PATCH 01/25] fix: range of a non-periodic dimension of even order
 ends at the last coordinate

---
 src/include/BSpline.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index 3b9831b..2a9dcbc 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -223,7 +223,8 @@ class BSpline {
         knots_[dim_ind] = std::forward<C>(_knots);
         range_[dim_ind].first = knots_[dim_ind][order];
         range_[dim_ind].second =
-            knots_[dim_ind][knots_[dim_ind].size() - order - (2 - order % 2)];
+            knots_[dim_ind][knots_[dim_ind].size() - order -
+                            (periodicity_[dim_ind] ? 2 - order % 2 : 1)];
     }
 
 #ifdef INTP_CELL_LAYOUT
-- 
2.43.0


From 1cc45aa01fed9feb2b2a68a71123e037e675591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:30 +0000
Subject: [PATCH 02/25] fix: band matrix-vector product uses A, not its
 transpose

---
 src/include/BandMatrix.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/BandMatrix.hpp b/src/include/BandMatrix.hpp
index 2a4d9ec..c84a0b7 100644
--- a/src/include/BandMatrix.hpp
+++ b/src/include/BandMatrix.hpp
@@ -68,9 +68,9 @@ class BandMatrix {
     util::remove_cvref_t<Vec> operator*(const Vec& x) const {
         util::remove_cvref_t<Vec> xx(x.size());
         for (size_type i = 0; i < x.size(); ++i) {
-            for (size_type j = p_ > i ? p_ - i : 0, k = i > p_ ? i - p_ : 0;
-                 j < std::min(p_ + q_ + 1, n_ + p_ - i); ++j, ++k) {
-                xx[i] += bands_(i, j) * x[k];
+            for (size_type j = i > p_ ? i - p_ : 0;
+                 j < std::min(i + q_ + 1, n_); ++j) {
+                xx[i] += (*this)(i, j) * x[j];
             }
         }
         return xx;
-- 
2.43.0


From 1ed49cfb4f4ecc0dc32858cd70fc085f83b931da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:30 +0000
Subject: [PATCH 03/25] fix: BandLU::compute does not move from an lvalue
 matrix

---
 src/include/BandLU.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/BandLU.hpp b/src/include/BandLU.hpp
index 726faae..046fb73 100644
--- a/src/include/BandLU.hpp
+++ b/src/include/BandLU.hpp
@@ -34,7 +34,7 @@ class BandLUBase : public util::CRTP<Solver<Matrix>> {
             std::is_same<util::remove_cvref_t<Mat_>, matrix_type>::value,
             "Matrix type mismatch");
         if (!is_computed_) {
-            lu_store_ = std::forward<matrix_type>(mat);
+            lu_store_ = std::forward<Mat_>(mat);
             this->cast().compute_impl();
             is_computed_ = true;
         }
-- 
2.43.0


From 4bcd31eb6bbc691ff24152b90afb3a260b8ef4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:38 +0000
Subject: [PATCH 04/25] fix: even-order periodic knot vector has no surplus
 knot

A periodic dimension of even order got one knot more than its segments need,
so that a coordinate wrapping exactly onto the right end was located one
segment too far (reading outside the control points in cell layout), and
cell strides derived from the knot number disagreed with the stored cells
(eval_proxy returned wrong values in 2D and above).
---
 src/include/BSpline.hpp       | 3 +--
 src/include/Interpolation.hpp | 9 +++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index 2a9dcbc..aa539c9 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -223,8 +223,7 @@ class BSpline {
         knots_[dim_ind] = std::forward<C>(_knots);
         range_[dim_ind].first = knots_[dim_ind][order];
         range_[dim_ind].second =
-            knots_[dim_ind][knots_[dim_ind].size() - order -
-                            (periodicity_[dim_ind] ? 2 - order % 2 : 1)];
+            knots_[dim_ind][knots_[dim_ind].size() - order - 1];
     }
 
 #ifdef INTP_CELL_LAYOUT
diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index 41c1a22..7b94b81 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -335,7 +335,7 @@ class InterpolationFunction {
         dx_[dim_ind] =
             (x_range.second - x_range.first) / static_cast<coord_type>(n - 1);
 
-        const size_t extra = periodic ? 2 * order + (1 - order % 2) : order + 1;
+        const size_t extra = periodic ? 2 * order : order + 1;
 
         std::vector<coord_type> xs(n + extra, x_range.first);
 
@@ -343,7 +343,8 @@ class InterpolationFunction {
             for (size_type i = 0; i < xs.size(); ++i) {
                 xs[i] = x_range.first +
                         (static_cast<coord_type>(i) -
-                         coord_type{.5} * static_cast<coord_type>(extra)) *
+                         coord_type{.5} * static_cast<coord_type>(
+                                              extra + (1 - order % 2))) *
                             dx_[dim_ind];
             }
         } else {
@@ -391,8 +392,8 @@ class InterpolationFunction {
         // suppress unused parameter warning
         (void)mesh_dimension;
 #endif
-        typename spline_type::KnotContainer xs(
-            periodic ? n + 2 * order + (1 - order % 2) : n + order + 1);
+        typename spline_type::KnotContainer xs(periodic ? n + 2 * order
+                                                        : n + order + 1);
 
         auto& input_coord = input_coords[dim_ind];
         input_coord.reserve(n);
-- 
2.43.0


From 7bf43d35d5a6050610d28c86a81347df7eaff385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:01 +0000
Subject: [PATCH 05/25] fix: define static constexpr members for C++11/14

order and dim are odr-used (std::min and the like take references), so an
unoptimised C++11/14 build failed to link.
---
 src/include/BSpline.hpp               | 10 ++++++++++
 src/include/Interpolation.hpp         | 10 ++++++++++
 src/include/InterpolationTemplate.hpp | 10 ++++++++++
 3 files changed, 30 insertions(+)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index aa539c9..053033d 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -759,6 +759,16 @@ class BSpline {
 #endif  // INTP_CELL_LAYOUT
 };
 
+#if __cplusplus < 201703L
+// out-of-class definition of static data members, needed when they are
+// odr-used before C++17
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename BSpline<T, D, O, U>::size_type BSpline<T, D, O, U>::dim;
+
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename BSpline<T, D, O, U>::size_type BSpline<T, D, O, U>::order;
+#endif
+
 }  // namespace intp
 
 #endif
diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index 7b94b81..60f1ec4 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -507,6 +507,16 @@ class InterpolationFunction {
 #endif  // INTP_CELL_LAYOUT
 };
 
+#if __cplusplus < 201703L
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename InterpolationFunction<T, D, O, U>::size_type
+    InterpolationFunction<T, D, O, U>::dim;
+
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename InterpolationFunction<T, D, O, U>::size_type
+    InterpolationFunction<T, D, O, U>::order;
+#endif
+
 template <std::size_t O = std::size_t{3},
           typename T = double,
           typename U = double>
diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index 843bc0b..02a3a60 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -580,6 +580,16 @@ class InterpolationFunctionTemplate {
     }
 };
 
+#if __cplusplus < 201703L
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename InterpolationFunctionTemplate<T, D, O, U>::size_type
+    InterpolationFunctionTemplate<T, D, O, U>::dim;
+
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename InterpolationFunctionTemplate<T, D, O, U>::size_type
+    InterpolationFunctionTemplate<T, D, O, U>::order;
+#endif
+
 template <std::size_t O, typename T = double, typename U = double>
 class InterpolationFunctionTemplate1D
     : public InterpolationFunctionTemplate<T, size_t{1}, O, U> {
-- 
2.43.0


From 1d823a32691e9c82b9965c0b3dea8cb136dd5726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:14 +0000
Subject: [PATCH 06/25] fix: copying a template keeps its solvers in C++11/14

The copy constructor of the solver union left the copy inactive, so a copied
template solved with uninitialised solvers.
---
 src/include/InterpolationTemplate.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index 02a3a60..f24df0e 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -221,10 +221,20 @@ class InterpolationFunctionTemplate {
             return *this;
         }
 
-        // Copy constructor is required by aggregate initialization, but never
-        // invoked in this code since the content of this union is never
-        // switched.
-        EitherSolver(const EitherSolver&) {}
+        // Copy constructor is required by aggregate initialization and by
+        // copying the template, it copies the active union member.
+        EitherSolver(const EitherSolver& other)
+            : is_active_(other.is_active_), is_periodic_(other.is_periodic_) {
+            if (is_active_) {
+                if (is_periodic_) {
+                    new (&solver_periodic)
+                        extended_solver_type(other.solver_periodic);
+                } else {
+                    new (&solver_aperiodic)
+                        base_solver_type(other.solver_aperiodic);
+                }
+            }
+        }
         // Destructor needed and it invokes either member's destructor according
         // to the tag "is_periodic";
         ~EitherSolver() {
-- 
2.43.0


From 9757d75f71f1575aef62a4a1d18287736aa2cbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:14 +0000
Subject: [PATCH 07/25] fix: const Mesh::end of one dimension compiles

---
 src/include/Mesh.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/Mesh.hpp b/src/include/Mesh.hpp
index b2b8ffb..e1aafe9 100644
--- a/src/include/Mesh.hpp
+++ b/src/include/Mesh.hpp
@@ -365,8 +365,9 @@ class Mesh {
                                       index_type indices) const {
         indices[dim_ind] = dimension_.dim_size(dim_ind);
         return skip_iterator<const val_type>(
-            storage_.data() + indexing(indices),
-            dimension_.dim_acc_size(dim - dim_ind - 1));
+            storage_.data() + dimension_.indexing(indices),
+            static_cast<typename skip_iterator<val_type>::difference_type>(
+                dimension_.dim_acc_size(dim - dim_ind - 1)));
     }
 
     index_type iter_indices(const_iterator iter) const {
-- 
2.43.0


From 4918c598033295c3ffdd4301fc62dfd1107a7f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:14 +0000
Subject: [PATCH 08/25] fix: arrow and ordering operators of the mesh iterator
 compile

---
 src/include/Mesh.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/Mesh.hpp b/src/include/Mesh.hpp
index e1aafe9..b7714f7 100644
--- a/src/include/Mesh.hpp
+++ b/src/include/Mesh.hpp
@@ -161,7 +161,7 @@ class Mesh {
         // forward iterator requirement
 
         reference operator*() { return *ptr_; }
-        reference operator->() { return ptr_; }
+        pointer operator->() { return ptr_; }
 
         bool operator==(const skip_iterator& other) const {
             return this->ptr_ == other.ptr_ &&
@@ -216,7 +216,7 @@ class Mesh {
             return tmp -= n;
         }
 
-        difference_type operator-(skip_iterator other) {
+        difference_type operator-(const skip_iterator& other) const {
             return (ptr_ - other.ptr_) / step_length_;
         }
 
-- 
2.43.0


From 22bfce36d10b756a45bec12851d5160290ccda53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:34 +0000
Subject: [PATCH 09/25] fix: dispatch_indexed deduces its index sequence

---
 src/include/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/util.hpp b/src/include/util.hpp
index c1abbf8..8f49562 100644
--- a/src/include/util.hpp
+++ b/src/include/util.hpp
@@ -47,7 +47,7 @@ constexpr typename std::enable_if<std::is_unsigned<T2>::value, T1>::type pow(
     return exp == 0 ? T1{1} : base * pow(base, exp - 1);
 }
 
-template <typename Func, typename... Args, unsigned... indices>
+template <typename Func, typename... Args, size_t... indices>
 void dispatch_indexed_helper(index_sequence<indices...>,
                              Func& func,
                              Args&&... args) {
-- 
2.43.0


From 1bff2b2315209613388db2bb38e0a80ffedbf5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:34 +0000
Subject: [PATCH 10/25] fix: aligned-allocator.hpp includes what it uses

---
 src/include/aligned-allocator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/aligned-allocator.hpp b/src/include/aligned-allocator.hpp
index 3330666..198e032 100644
--- a/src/include/aligned-allocator.hpp
+++ b/src/include/aligned-allocator.hpp
@@ -14,6 +14,10 @@
 
 #include <cstddef>
 #include <cstdlib>
+#include <memory>       // addressof
+#include <new>          // bad_alloc
+#include <type_traits>  // true_type
+#include <utility>      // forward
 
 namespace intp {
 
-- 
2.43.0


From 763568e3fedc332f211c674f4f24e6ab57c5b4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:54 +0000
Subject: [PATCH 11/25] fix: deallocate of the const aligned allocator compiles

---
 src/include/aligned-allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/aligned-allocator.hpp b/src/include/aligned-allocator.hpp
index 198e032..2898544 100644
--- a/src/include/aligned-allocator.hpp
+++ b/src/include/aligned-allocator.hpp
@@ -163,7 +163,7 @@ class AlignedAllocator<const T, Align> {
     }
 
     void deallocate(pointer p, size_type) noexcept {
-        return detail::deallocate_aligned_memory(p);
+        return detail::deallocate_aligned_memory(const_cast<T*>(p));
     }
 
     template <class U, class... Args>
-- 
2.43.0


From fd4ffb78e8aab8711487767a2ab4ec5d1d6e51e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:54 +0000
Subject: [PATCH 12/25] fix: aligned allocator rejects a request whose byte
 count overflows

---
 src/include/aligned-allocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/aligned-allocator.hpp b/src/include/aligned-allocator.hpp
index 2898544..c7edad3 100644
--- a/src/include/aligned-allocator.hpp
+++ b/src/include/aligned-allocator.hpp
@@ -101,6 +101,7 @@ class AlignedAllocator {
     pointer allocate(
         size_type n,
         typename AlignedAllocator<void, Align>::const_pointer = nullptr) {
+        if (n > max_size()) { throw std::bad_alloc(); }
         const size_type alignment = static_cast<size_type>(Align);
         void* ptr = detail::allocate_aligned_memory(alignment, n * sizeof(T));
         if (ptr == nullptr) { throw std::bad_alloc(); }
@@ -155,6 +156,7 @@ class AlignedAllocator<const T, Align> {
     pointer allocate(
         size_type n,
         typename AlignedAllocator<void, Align>::const_pointer = 0) {
+        if (n > max_size()) { throw std::bad_alloc(); }
         const size_type alignment = static_cast<size_type>(Align);
         void* ptr = detail::allocate_aligned_memory(alignment, n * sizeof(T));
         if (ptr == nullptr) { throw std::bad_alloc(); }
-- 
2.43.0


From 890222ddec3b454b793e224990d7295d8b8ba09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:38 +0000
Subject: [PATCH 13/25] fix: BSpline.hpp includes iostream for INTP_TRACE

---
 src/include/BSpline.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index 053033d..7834b2b 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -13,7 +13,7 @@
 #include "DedicatedThreadPool.hpp"
 #endif
 
-#ifdef INTP_DEBUG
+#if defined(INTP_DEBUG) || defined(INTP_TRACE)
 #include <iostream>
 #endif
 
-- 
2.43.0


From 7e90a6f74857e9609292e5831a60ec9dd15ec96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:38 +0000
Subject: [PATCH 14/25] fix: derivative compiles for coordinate types other
 than double

---
 src/include/Interpolation.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index 60f1ec4..f89b811 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -308,11 +308,13 @@ class InterpolationFunction {
             uniform_[di]
                 ? std::min(spline_.knots_num(di) - order - 2,
                            static_cast<size_type>(std::ceil(std::max(
-                               0., (c[di] - range(di).first) / dx_[di] -
-                                       (periodicity(di)
-                                            ? 1.
-                                            : .5 * static_cast<coord_type>(
-                                                       order + 1))))) +
+                               coord_type{0.},
+                               (c[di] - range(di).first) / dx_[di] -
+                                   (periodicity(di)
+                                        ? coord_type{1.}
+                                        : coord_type{.5} *
+                                              static_cast<coord_type>(
+                                                  order + 1))))) +
                                order)
                 : order,
             static_cast<size_type>(d[di]))...});
-- 
2.43.0


From fdac095ab4b1fb8bf3eba402e8592973fc2ce1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:48 +0000
Subject: [PATCH 15/25] fix: derivatives need no product of two values of the
 value type

Evaluation only scales and adds values; derivatives converted the derivative
order and the basis values to the value type, which rejects (or changes the
meaning of) a value type that is a mere vector space.
---
 src/include/BSpline.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index 7834b2b..f8ecd8a 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -425,7 +425,7 @@ class BSpline {
         auto local_spline_val = local_control_points;
 #else
         Mesh<val_type, dim> local_control_points(order + 1);
-        auto local_spline_val = local_control_points;
+        Mesh<knot_type, dim> local_spline_val(order + 1);
 #endif
 
         // get local control points and basic spline values
@@ -510,7 +510,7 @@ class BSpline {
                     // Reduce backward to match pattern of local_spline_val.
                     for (diff_type j = k; j > 0; --j) {
                         iter[static_cast<diff_type>(order) + j - k] =
-                            static_cast<val_type>(k) *
+                            static_cast<knot_type>(k) *
                             (iter[static_cast<diff_type>(order) + j - k] -
                              iter[static_cast<diff_type>(order) + j - k - 1]) /
                             (knot_iters[d][j] - knot_iters[d][j - k]);
@@ -522,8 +522,8 @@ class BSpline {
         // combine spline value and control points to get spline derivative
         // value
         val_type v{};
-        for (auto s_it = local_spline_val.begin(),
-                  c_it = local_control_points.begin();
+        auto c_it = local_control_points.begin();
+        for (auto s_it = local_spline_val.begin();
              s_it != local_spline_val.end(); ++s_it, ++c_it) {
             v += (*s_it) * (*c_it);
         }
-- 
2.43.0


From 3cc9994bdbba6d5d9bf3af4e01ab9670ebd1a7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:19 +0000
Subject: [PATCH 16/25] fix: thread pool termination flag is synchronised

The flag was a plain bool written without the mutex the workers wait under:
a data race, and a worker between its predicate check and its wait missed the
only notification, so destruction hung in join.
---
 src/include/DedicatedThreadPool.hpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/include/DedicatedThreadPool.hpp b/src/include/DedicatedThreadPool.hpp
index fb6e9df..264c47e 100644
--- a/src/include/DedicatedThreadPool.hpp
+++ b/src/include/DedicatedThreadPool.hpp
@@ -1,6 +1,7 @@
 #ifndef INTP_THREAD_POOL
 #define INTP_THREAD_POOL
 
+#include <atomic>
 #include <future>   //unique_lock, packaged_task
 #include <mutex>    // mutex
 #include <queue>    // deque
@@ -105,8 +106,7 @@ class DedicatedThreadPool {
 #endif
         } catch (...) {  // in this case dtor is not called, so threads
                          // termination should be proper handled here
-            should_terminate = true;
-            cv.notify_all();
+            terminate_threads();
             throw;
         }
     }
@@ -115,8 +115,7 @@ class DedicatedThreadPool {
     using return_type = T;
 
     ~DedicatedThreadPool() {
-        should_terminate = true;
-        cv.notify_all();
+        terminate_threads();
 
 #ifdef INTP_DEBUG
         std::cout << "\n[DEBUG] The thread pool has " << thread_num()
@@ -204,6 +203,19 @@ class DedicatedThreadPool {
         }
     };
 
+    /**
+     * @brief Tell all threads to stop. The flag is set while holding the mutex
+     * a waiting thread checks it under, otherwise the notification could slip
+     * in between that thread's check and its wait.
+     */
+    void terminate_threads() {
+        {
+            lock_type lk(main_queue_mutex);
+            should_terminate = true;
+        }
+        cv.notify_all();
+    }
+
     bool try_pop_from_main(task_type& task) {
         {
             lock_type lk(main_queue_mutex);
@@ -259,7 +271,8 @@ class DedicatedThreadPool {
 #ifdef INTP_DEBUG
     size_t submitted{};
 #endif
-    bool should_terminate = false;  // Tells threads to stop looking for tasks
+    // Tells threads to stop looking for tasks
+    std::atomic<bool> should_terminate{false};
     std::mutex main_queue_mutex;    // Protects main task queue
     std::condition_variable cv;     // Signals for thread sleep/awake
     std::vector<std::thread> threads;  // Thread container
-- 
2.43.0


From f1902c1e06c68463adce5f347a5c66cc0925999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:19 +0000
Subject: [PATCH 17/25] fix: debug statistics of the thread pool are read after
 the threads end

---
 src/include/DedicatedThreadPool.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/include/DedicatedThreadPool.hpp b/src/include/DedicatedThreadPool.hpp
index 264c47e..02d692a 100644
--- a/src/include/DedicatedThreadPool.hpp
+++ b/src/include/DedicatedThreadPool.hpp
@@ -118,6 +118,8 @@ class DedicatedThreadPool {
         terminate_threads();
 
 #ifdef INTP_DEBUG
+        // the statistics below are written by the threads
+        join_threads.join();
         std::cout << "\n[DEBUG] The thread pool has " << thread_num()
                   << " threads.\n"
                   << "[DEBUG]    Main queue has " << submitted
@@ -196,7 +198,8 @@ class DedicatedThreadPool {
         JoinThreads(const JoinThreads&) = delete;
         JoinThreads(JoinThreads&) = delete;
         JoinThreads& operator=(JoinThreads&) = delete;
-        ~JoinThreads() {
+        ~JoinThreads() { join(); }
+        void join() {
             for (auto& t : ts_) {
                 if (t.joinable()) { t.join(); }
             }
-- 
2.43.0


From bc4b60d81a7a3ba8a13e1cdf1de9a3d2c3fe61b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:22 +0000
Subject: [PATCH 18/25] fix: parallel sections wait for their tasks when left
 by an exception

If one chunk (or queueing one) threw, the section unwound while other tasks
were still running on its local variables.
---
 src/include/BSpline.hpp               |  2 +-
 src/include/DedicatedThreadPool.hpp   | 31 +++++++++++++++++++++++++++
 src/include/InterpolationTemplate.hpp |  2 +-
 3 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index f8ecd8a..3296a68 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -739,7 +739,7 @@ class BSpline {
                                              : hyper_surface_size / block_num;
 
         auto& thread_pool = DedicatedThreadPool<void>::get_instance(8);
-        std::vector<std::future<void>> res;
+        TaskGroup<void> res(block_num);
 
         for (size_type i = 0; i < block_num; ++i) {
             res.push_back(thread_pool.queue_task([=]() {
diff --git a/src/include/DedicatedThreadPool.hpp b/src/include/DedicatedThreadPool.hpp
index 02d692a..f147005 100644
--- a/src/include/DedicatedThreadPool.hpp
+++ b/src/include/DedicatedThreadPool.hpp
@@ -7,6 +7,7 @@
 #include <queue>    // deque
 #include <thread>   // hardware_concurrency
 #include <utility>  // move
+#include <vector>
 
 #ifdef INTP_DEBUG
 #include <iostream>
@@ -303,6 +304,36 @@ thread_local typename DedicatedThreadPool<T>::shared_working_queue*
     DedicatedThreadPool<T>::worker_queue_ptr{};
 #endif
 
+/**
+ * @brief A collection of futures that waits for all of them on destruction, so
+ * that tasks never outlive the scope whose local variables they refer to, even
+ * if that scope is left by an exception.
+ */
+template <typename T>
+class TaskGroup {
+   public:
+    explicit TaskGroup(size_t capacity) { futures_.reserve(capacity); }
+    TaskGroup(const TaskGroup&) = delete;
+    TaskGroup& operator=(const TaskGroup&) = delete;
+    ~TaskGroup() {
+        for (auto& f : futures_) {
+            if (f.valid()) { f.wait(); }
+        }
+    }
+
+    void push_back(std::future<T>&& f) { futures_.push_back(std::move(f)); }
+
+    typename std::vector<std::future<T>>::iterator begin() {
+        return futures_.begin();
+    }
+    typename std::vector<std::future<T>>::iterator end() {
+        return futures_.end();
+    }
+
+   private:
+    std::vector<std::future<T>> futures_;
+};
+
 }  // namespace intp
 
 #endif  // INTP_THREAD_POOL
diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index f24df0e..723775b 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -562,7 +562,7 @@ class InterpolationFunctionTemplate {
                 block_num == 0 ? hyperplane_size : hyperplane_size / block_num;
 
             auto& thread_pool = DedicatedThreadPool<void>::get_instance(8);
-            std::vector<std::future<void>> res;
+            TaskGroup<void> res(block_num);
 
             for (size_type i = 0; i < block_num; ++i) {
                 // use thread pool here may seem to be a bit overhead
-- 
2.43.0


From da3d7296f8f7b588654e58dcdff3783e73bb5315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:22 +0000
Subject: [PATCH 19/25] fix: assertion builds reject data whose size differs
 from the template's

---
 src/include/InterpolationTemplate.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index 723775b..648ee5d 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -457,6 +457,20 @@ class InterpolationFunctionTemplate {
 
     ctrl_pt_type solve_for_control_points_(
         const Mesh<val_type, dim>& f_mesh) const {
+        for (size_type d = 0; d < dim; ++d) {
+#ifdef INTP_PERIODIC_NO_DUMMY_POINT
+            INTP_ASSERT(f_mesh.dim_size(d) == mesh_dimension_.dim_size(d),
+                        std::string("Inconsistency between template and "
+                                    "interpolated value number at dimension ") +
+                            std::to_string(d));
+#else
+            INTP_ASSERT(f_mesh.dim_size(d) == mesh_dimension_.dim_size(d) +
+                                                  (base_.periodicity(d) ? 1 : 0),
+                        std::string("Inconsistency between template and "
+                                    "interpolated value number at dimension ") +
+                            std::to_string(d));
+#endif
+        }
         ctrl_pt_type weights{mesh_dimension_};
 #ifdef INTP_PERIODIC_NO_DUMMY_POINT
         for (auto it = f_mesh.begin(); it != f_mesh.end(); ++it) {
-- 
2.43.0


From 1b0415616126e40a9c81290f173561cceddc14da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:47 +0000
Subject: [PATCH 20/25] fix: nonuniform coordinates given by input iterators
 are read once

---
 src/include/Interpolation.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index f89b811..7d7c22d 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -377,8 +377,11 @@ class InterpolationFunction {
         uniform_[dim_ind] = false;
         const auto periodic = periodicity(dim_ind);
 
-        const size_type n{static_cast<size_type>(
-            std::distance(x_range.first, x_range.second))};
+        // The x_range may be given by input iterators, which can not be
+        // multi-passed.
+        const typename spline_type::KnotContainer coords(x_range.first,
+                                                         x_range.second);
+        const size_type n{coords.size()};
 #ifdef INTP_PERIODIC_NO_DUMMY_POINT
         INTP_ASSERT(n == mesh_dimension.dim_size(dim_ind) + (periodic ? 1 : 0),
                     std::string("Inconsistency between knot number and "
@@ -399,13 +402,11 @@ class InterpolationFunction {
 
         auto& input_coord = input_coords[dim_ind];
         input_coord.reserve(n);
-        // The x_range may be given by input iterators, which can not be
-        // multi-passed.
         if (periodic) {
             // In periodic case, the knots are data points, shifted by half
             // of local grid size if spline order is odd.
 
-            auto iter = x_range.first;
+            auto iter = coords.begin();
             input_coord.push_back(*iter);
             for (size_type i = order + 1; i < order + n; ++i) {
                 coord_type present = *(++iter);
@@ -422,7 +423,7 @@ class InterpolationFunction {
             // In aperiodic case, the internal knots are moving average of
             // data points with windows size equal to spline order.
 
-            auto it = x_range.first;
+            auto it = coords.begin();
             auto l_knot = *it;
             // fill leftmost *order+1* identical knots
             for (size_type i = 0; i < order + 1; ++i) { xs[i] = l_knot; }
-- 
2.43.0


From 5d89d9056a4118880e0a11843e2e260be8362b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:13 +0000
Subject: [PATCH 21/25] fix: 1D template and 1D function agree on the default
 periodic range

---
 src/include/InterpolationTemplate.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index 648ee5d..94894b5 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -626,7 +626,14 @@ class InterpolationFunctionTemplate1D
         : InterpolationFunctionTemplate1D(
               std::make_pair(
                   typename base::coord_type{},
-                  static_cast<typename base::coord_type>(f_length - 1)),
+                  static_cast<typename base::coord_type>(
+                      f_length
+#ifdef INTP_PERIODIC_NO_DUMMY_POINT
+                      - (periodicity ? 0 : 1)
+#else
+                      - 1
+#endif
+                          )),
               f_length,
               periodicity) {}
 
-- 
2.43.0


From ec66929df045012b7aa43110470ecc438175e4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:50 +0000
Subject: [PATCH 22/25] fix: BandLU solve of an extended band matrix whose side
 bands meet (n < p + q)

The loop over the right side bands ran to j - q, which wraps around for j < q
and made the solver read far outside the matrix.
---
 src/include/BandLU.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/BandLU.hpp b/src/include/BandLU.hpp
index 046fb73..930122e 100644
--- a/src/include/BandLU.hpp
+++ b/src/include/BandLU.hpp
@@ -249,7 +249,7 @@ class BandLU<ExtendedBandMatrix<Ts...>>
 
             // right side bands
             if (j > n - p - 1) {
-                for (size_type i = 0; i < j - q; ++i) {
+                for (size_type i = 0; i + q < j; ++i) {
                     iter[static_cast<ind_type>(i)] -=
                         lu_store_.side_bands_val(i, j) *
                         iter[static_cast<ind_type>(j)];
-- 
2.43.0


From a0afe488c39e0c907b63de56da2644ce39b49241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:56 +0000
Subject: [PATCH 23/25] fix: convert coordinates of derivative pairs and
 eval_proxy

A coordinate of another arithmetic type was narrowed in a braced initializer
there, which is ill-formed, while evaluation by operator() and at() converts
it.
---
 src/include/Interpolation.hpp         | 6 ++++--
 src/include/InterpolationTemplate.hpp | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index 7d7c22d..b6d8e3b 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -199,7 +199,8 @@ class InterpolationFunction {
      */
     template <typename... CoordDeriOrderPair>
     val_type derivative(CoordDeriOrderPair... coord_deriOrder_pair) const {
-        return derivative(DimArray<coord_type>{coord_deriOrder_pair.first...},
+        return derivative(DimArray<coord_type>{static_cast<coord_type>(
+                              coord_deriOrder_pair.first)...},
                           DimArray<size_type>{static_cast<size_type>(
                               coord_deriOrder_pair.second)...});
     }
@@ -238,7 +239,8 @@ class InterpolationFunction {
     template <typename... CoordDeriOrderPair>
     val_type derivative_at(CoordDeriOrderPair... coord_deriOrder_pair) const {
         return derivative_at(
-            DimArray<coord_type>{coord_deriOrder_pair.first...},
+            DimArray<coord_type>{
+                static_cast<coord_type>(coord_deriOrder_pair.first)...},
             DimArray<size_type>{
                 static_cast<size_type>(coord_deriOrder_pair.second)...});
     }
diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index 94894b5..3e21bef 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -154,7 +154,8 @@ class InterpolationFunctionTemplate {
     std::function<val_type(const function_type&)>
 #endif
     eval_proxy(Coords... x) const {
-        return base_.eval_proxy(DimArray<coord_type>{x...});
+        return base_.eval_proxy(
+            DimArray<coord_type>{static_cast<coord_type>(x)...});
     }
 
 #if __cplusplus >= 201402L
-- 
2.43.0


From 118961e7734a6ca20bf0dae07ced1c2727381af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:20 +0000
Subject: [PATCH 24/25] fix: 1D ranges with ends of different types

The common type of a negative int and an unsigned integer turned the former
into a huge number, and the constructors of templates did not accept ends of
different types at all.
---
 src/include/Interpolation.hpp         | 15 ++++++++++++---
 src/include/InterpolationTemplate.hpp | 10 +++++++---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index b6d8e3b..6413e1f 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -33,6 +33,16 @@ class InterpolationFunction {
     template <typename T_>
     using DimArray = std::array<T_, dim>;
 
+    // Common type of the ends of a range given by numbers or iterators. Numbers
+    // become coordinates, since the common type of different integer types may
+    // not be able to represent both.
+    template <typename C1, typename C2>
+    using range_value_type =
+        typename std::conditional<std::is_arithmetic<C1>::value &&
+                                      std::is_arithmetic<C2>::value,
+                                  std::common_type<coord_type>,
+                                  std::common_type<C1, C2>>::type::type;
+
     friend class InterpolationFunctionTemplate<val_type,
                                                dim,
                                                order,
@@ -61,9 +71,8 @@ class InterpolationFunction {
         : InterpolationFunction(
               {periodic},
               Mesh<val_type, 1u>{std::make_pair(f_range.first, f_range.second)},
-              static_cast<std::pair<typename std::common_type<C1, C2>::type,
-                                    typename std::common_type<C1, C2>::type>>(
-                  x_range)) {}
+              static_cast<std::pair<range_value_type<C1, C2>,
+                                    range_value_type<C1, C2>>>(x_range)) {}
 
     template <
         typename InputIter,
diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index 3e21bef..d94f459 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -89,9 +89,13 @@ class InterpolationFunctionTemplate {
     InterpolationFunctionTemplate(bool periodicity,
                                   size_type f_length,
                                   std::pair<C1, C2> x_range)
-        : InterpolationFunctionTemplate({periodicity},
-                                        MeshDim{f_length},
-                                        x_range) {
+        : InterpolationFunctionTemplate(
+              {periodicity},
+              MeshDim{f_length},
+              static_cast<std::pair<
+                  typename function_type::template range_value_type<C1, C2>,
+                  typename function_type::template range_value_type<C1, C2>>>(
+                  x_range)) {
         static_assert(
             dim == size_type{1},
             "You can only use this overload of constructor in 1D case.");
-- 
2.43.0


From 7b9ea4d3127a539e1ccd56f7d8913765329c776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:20 +0000
Subject: [PATCH 25/25] fix: width of a range given by integers

The difference of the ends was taken in the integer type, where it can
overflow.
---
 src/include/Interpolation.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index 6413e1f..a905bdb 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -345,8 +345,9 @@ class InterpolationFunction {
                             + (periodic ? 1 : 0)
 #endif
             ;
-        dx_[dim_ind] =
-            (x_range.second - x_range.first) / static_cast<coord_type>(n - 1);
+        dx_[dim_ind] = (static_cast<coord_type>(x_range.second) -
+                        static_cast<coord_type>(x_range.first)) /
+                       static_cast<coord_type>(n - 1);
 
         const size_t extra = periodic ? 2 * order : order + 1;
 
-- 
2.43.0

