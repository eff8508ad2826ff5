From ac57a554776833335c54bda05fa4961f63b4b435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:06 +0000
Subject: [PATCH 01/22] fix: Complex /= by a scalar that is a part of the
 number itself

---
 libraries/datatypes/cmplx.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/datatypes/cmplx.h b/libraries/datatypes/cmplx.h
index aa6869a..b626ebd 100644
--- a/libraries/datatypes/cmplx.h
+++ b/libraries/datatypes/cmplx.h
@@ -503,7 +503,7 @@ class Complex {
      * @return Complex<T>&
      */
     template <typename A, std::enable_if_t<hila::is_assignable<Complex<T> &, A>::value, int> = 0>
-    inline Complex<T> &operator/=(const A &lhs) & {
+    inline Complex<T> &operator/=(const A lhs) & {
         if constexpr (hila::is_complex<A>::value) {
 
             T m = 1.0 / max(::abs(lhs.re), ::abs(lhs.im));
-- 
2.43.0


From 5896ca993556386ac8d428568c91530381aa9942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 02/22] fix: Matrix += scalar when the scalar is an element of
 the matrix itself

---
 libraries/datatypes/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/datatypes/matrix.h b/libraries/datatypes/matrix.h
index a049a20..d3b5011 100644
--- a/libraries/datatypes/matrix.h
+++ b/libraries/datatypes/matrix.h
@@ -810,7 +810,7 @@ class Matrix_t {
      */
     template <typename S,
               std::enable_if_t<hila::is_assignable<T &, hila::type_plus<T, S>>::value, int> = 0>
-    auto &operator+=(const S &rhs) & {
+    auto &operator+=(const S rhs) & {
 
         static_assert(n == m, "rows != columns : scalar addition possible for square matrix only!");
 
-- 
2.43.0


From 035fb2439607f4d266ac07285c7b2f5903271096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:03 +0000
Subject: [PATCH 03/22] fix: DiagonalMatrix::transpose() did not compile
 (non-const reference to const object)

---
 libraries/datatypes/diagonal_matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/datatypes/diagonal_matrix.h b/libraries/datatypes/diagonal_matrix.h
index ad3059a..4a06e8b 100644
--- a/libraries/datatypes/diagonal_matrix.h
+++ b/libraries/datatypes/diagonal_matrix.h
@@ -269,7 +269,7 @@ class DiagonalMatrix {
     /**
      * @brief transpose - leaves diagonal matrix as is
      */
-    DiagonalMatrix &transpose() const {
+    const DiagonalMatrix &transpose() const {
         return *this;
     }
 
-- 
2.43.0


From 4aed98bf3abf2eeb789d349d4be011a048406764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:03 +0000
Subject: [PATCH 04/22] fix: DiagonalMatrix op= scalar when the scalar is an
 element of the matrix itself

---
 libraries/datatypes/diagonal_matrix.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libraries/datatypes/diagonal_matrix.h b/libraries/datatypes/diagonal_matrix.h
index 4a06e8b..81a2947 100644
--- a/libraries/datatypes/diagonal_matrix.h
+++ b/libraries/datatypes/diagonal_matrix.h
@@ -187,7 +187,7 @@ class DiagonalMatrix {
 
 
     template <typename S, std::enable_if_t<hila::is_assignable<T &, S>::value, int> = 0>
-    DiagonalMatrix &operator+=(const S &rhs) & {
+    DiagonalMatrix &operator+=(const S rhs) & {
         for (int i = 0; i < n; i++) {
             c[i] += rhs;
         }
@@ -206,7 +206,7 @@ class DiagonalMatrix {
 
 
     template <typename S, std::enable_if_t<hila::is_assignable<T &, S>::value, int> = 0>
-    DiagonalMatrix &operator-=(const S &rhs) & {
+    DiagonalMatrix &operator-=(const S rhs) & {
         for (int i = 0; i < n; i++) {
             c[i] -= rhs;
         }
@@ -227,7 +227,7 @@ class DiagonalMatrix {
 
     template <typename S,
               std::enable_if_t<hila::is_assignable<T &, hila::type_mul<T, S>>::value, int> = 0>
-    DiagonalMatrix &operator*=(const S &rhs) & {
+    DiagonalMatrix &operator*=(const S rhs) & {
         for (int i = 0; i < n; i++) {
             c[i] *= rhs;
         }
@@ -248,7 +248,7 @@ class DiagonalMatrix {
 
     template <typename S,
               std::enable_if_t<hila::is_assignable<T &, hila::type_div<T, S>>::value, int> = 0>
-    DiagonalMatrix &operator/=(const S &rhs) & {
+    DiagonalMatrix &operator/=(const S rhs) & {
         for (int i = 0; i < n; i++) {
             c[i] /= rhs;
         }
-- 
2.43.0


From b2aa2b20df83d1c6a41a3bae1ff4da69c3519707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:11 +0000
Subject: [PATCH 05/22] fix: return *this from SU2 initializer list assignment

---
 libraries/datatypes/su2.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libraries/datatypes/su2.h b/libraries/datatypes/su2.h
index f166fc6..e1d5afd 100644
--- a/libraries/datatypes/su2.h
+++ b/libraries/datatypes/su2.h
@@ -120,6 +120,7 @@ class SU2 {
         b = *(it++);
         c = *(it++);
         d = *(it);
+        return *this;
     }
 #pragma hila loop_function
     /// assign from 'scalar'
-- 
2.43.0


From 6920e08021e7a299fbfd451cf2a58711023d4340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:11 +0000
Subject: [PATCH 06/22] fix: SU2::exp() used uninitialized components

---
 libraries/datatypes/su2.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libraries/datatypes/su2.h b/libraries/datatypes/su2.h
index e1d5afd..e1f9e9b 100644
--- a/libraries/datatypes/su2.h
+++ b/libraries/datatypes/su2.h
@@ -247,9 +247,9 @@ class SU2 {
         T ed = ::exp(d);
         T sr = ed * ::sin(r) / r;
         ret.d = ed * ::cos(r);
-        ret.a *= sr;
-        ret.b *= sr;
-        ret.c *= sr;
+        ret.a = sr * a;
+        ret.b = sr * b;
+        ret.c = sr * c;
         return ret;
     }
 
-- 
2.43.0


From a3a0dc7c45f09f1d39bc8b5b08c0491d2b68648d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:11 +0000
Subject: [PATCH 07/22] fix: U1 * U1 did not compile

---
 libraries/datatypes/u1.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/datatypes/u1.h b/libraries/datatypes/u1.h
index 7980869..c9a1501 100644
--- a/libraries/datatypes/u1.h
+++ b/libraries/datatypes/u1.h
@@ -119,7 +119,7 @@ inline T imag(const U1<T> arg) {
 /// and U1*U1
 template <typename T>
 inline U1<T> operator*(U1<T> a, const U1<T> b) {
-    a += b;
+    a *= b;
     return a;
 }
 
-- 
2.43.0


From c529e2fff9310cf3946a1df44b3a83184b6bfa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:33 +0000
Subject: [PATCH 08/22] fix: result shape of DiagonalMatrix times a non-square
 matrix

---
 libraries/datatypes/diagonal_matrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libraries/datatypes/diagonal_matrix.h b/libraries/datatypes/diagonal_matrix.h
index 81a2947..52ad09c 100644
--- a/libraries/datatypes/diagonal_matrix.h
+++ b/libraries/datatypes/diagonal_matrix.h
@@ -773,7 +773,7 @@ inline Rtype operator-(const Mtype &b, const DiagonalMatrix<n, T> &a) {
 // multiply by matrix
 
 template <int n, typename T, typename Mtype, std::enable_if_t<Mtype::is_matrix(), int> = 0,
-          typename Rtype = hila::mat_x_mat_type<Matrix<n, n, T>, Mtype>>
+          typename Rtype = hila::mat_x_mat_type<Matrix<n, Mtype::columns(), T>, Mtype>>
 inline Rtype operator*(const DiagonalMatrix<n, T> &a, const Mtype &b) {
 
     constexpr int mr = Mtype::rows();
@@ -789,7 +789,7 @@ inline Rtype operator*(const DiagonalMatrix<n, T> &a, const Mtype &b) {
 }
 
 template <int n, typename T, typename Mtype, std::enable_if_t<Mtype::is_matrix(), int> = 0,
-          typename Rtype = hila::mat_x_mat_type<Matrix<n, n, T>, Mtype>>
+          typename Rtype = hila::mat_x_mat_type<Matrix<Mtype::rows(), n, T>, Mtype>>
 inline Rtype operator*(const Mtype &b, const DiagonalMatrix<n, T> &a) {
 
     constexpr int mr = Mtype::rows();
@@ -806,7 +806,7 @@ inline Rtype operator*(const Mtype &b, const DiagonalMatrix<n, T> &a) {
 
 // division
 template <int n, typename T, typename Mtype, std::enable_if_t<Mtype::is_matrix(), int> = 0,
-          typename Rtype = hila::mat_x_mat_type<Matrix<n, n, T>, Mtype>>
+          typename Rtype = hila::mat_x_mat_type<Matrix<Mtype::rows(), n, T>, Mtype>>
 inline Rtype operator/(const Mtype &b, const DiagonalMatrix<n, T> &a) {
 
     constexpr int mr = Mtype::rows();
-- 
2.43.0


From 166b61776221a60c8a494283a7edb499478e0dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:39 +0000
Subject: [PATCH 09/22] hooks for loop invariants (empty unless HILA_VERIFY is
 defined)

---
 libraries/plumbing/defs.h      | 11 +++++++++++
 libraries/plumbing/lattice.cpp | 12 +++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/libraries/plumbing/defs.h b/libraries/plumbing/defs.h
index 87933ce..0daba63 100644
--- a/libraries/plumbing/defs.h
+++ b/libraries/plumbing/defs.h
@@ -47,6 +47,17 @@
 #include "plumbing/timing.h"
 
 
+/// Hooks at the start of loop bodies where the deductive verification attaches loop invariants.
+/// Unless HILA_VERIFY is defined they only check that the arguments are valid expressions:
+/// nothing is evaluated.
+#ifdef HILA_VERIFY
+#define HILA_VERIFY_LOOP(name, ...) verif_inv_##name(__VA_ARGS__)
+#else
+template <typename... Args>
+char hila_verify_args(const Args &...);
+#define HILA_VERIFY_LOOP(name, ...) static_cast<void>(sizeof(hila_verify_args(__VA_ARGS__)))
+#endif
+
 /// Define __restrict__?  It is non-standard but supported by most (all?) compilers.
 /// ADD HERE GUARD FOR THOSE WHICH DO not HAVE IT
 #define RESTRICT __restrict__
diff --git a/libraries/plumbing/lattice.cpp b/libraries/plumbing/lattice.cpp
index 0c79a1b..38a2da9 100644
--- a/libraries/plumbing/lattice.cpp
+++ b/libraries/plumbing/lattice.cpp
@@ -130,7 +130,9 @@ void lattice_struct::setup_node_divisors() {
         // last element will be size(dir), for convenience
         int n = -1;
         for (int i = 0; i <= l_size[dir]; i++) {
+            HILA_VERIFY_LOOP(node_divisors, dir, i, n);
             while (n < (i * nodes.n_divisions[dir]) / l_size[dir]) {
+                HILA_VERIFY_LOOP(node_divisors_fill, dir, i, n);
                 ++n;
                 nodes.divisors[dir][n] = i;
             }
@@ -575,6 +577,7 @@ void lattice_struct::node_struct::setup(node_info &ni, lattice_struct &lattice)
     coordinates.resize(volume);
     CoordinateVector l = min;
     for (unsigned i = 0; i < volume; i++) {
+        HILA_VERIFY_LOOP(node_coordinates, i, l);
         coordinates[lattice.site_index(l)] = l;
         advance_local_coordinate(l);
     }
@@ -649,6 +652,8 @@ void lattice_struct::create_std_gathers() {
         // - set the neighb array, anything to communicate?
 
         for (size_t i = 0; i < mynode.volume; i++) {
+            HILA_VERIFY_LOOP(gather_count, d, i, from_node.evensites, from_node.oddsites,
+                             to_node.evensites, to_node.oddsites, from_node.rank, to_node.rank);
             CoordinateVector ln, l;
             l = coordinates(i);
             // set ln to be the neighbour of the site
@@ -698,6 +703,7 @@ void lattice_struct::create_std_gathers() {
             size_t to_even = 0, to_odd = 0, from_even = 0, from_odd = 0;
 
             for (size_t i = 0; i < mynode.volume; i++) {
+                HILA_VERIFY_LOOP(gather_lists, d, i, from_even, from_odd, to_even, to_odd);
                 if (neighb[d][i] == mynode.volume) {
                     CoordinateVector l, ln;
                     l = coordinates(i);
@@ -766,6 +772,7 @@ void lattice_struct::initialize_wait_arrays() {
     wait_arr_ = (dir_mask_t *)memalloc(mynode.volume * sizeof(unsigned char));
 
     for (size_t i = 0; i < mynode.volume; i++) {
+        HILA_VERIFY_LOOP(wait_arrays, i);
         wait_arr_[i] = 0; /* basic, no wait */
         foralldir (dir) {
             Direction odir = -dir;
@@ -936,7 +943,8 @@ void lattice_struct::init_special_boundaries() {
                 special_boundaries[d].is_needed = true;
                 special_boundaries[d].offset = mynode.field_alloc_size;
 
-                for (unsigned i = 0; i < mynode.volume; i++)
+                for (unsigned i = 0; i < mynode.volume; i++) {
+                    HILA_VERIFY_LOOP(boundary_count, d, i);
                     if (coordinate(i, abs(d)) == coord) {
                         // set buffer indices
                         special_boundaries[d].n_total++;
@@ -945,6 +953,7 @@ void lattice_struct::init_special_boundaries() {
                         else
                             special_boundaries[d].n_odd++;
                     }
+                }
                 mynode.field_alloc_size += special_boundaries[d].n_total;
             }
         }
@@ -1011,6 +1020,7 @@ void lattice_struct::setup_special_boundary_array(Direction d) {
 
     int k = 0;
     for (int i = 0; i < mynode.volume; i++) {
+        HILA_VERIFY_LOOP(boundary_array, d, i, k, offs);
         if (coordinate(i, abs(d)) != coord) {
             special_boundaries[d].neighbours[i] = neighb[d][i];
         } else {
-- 
2.43.0


From 7c0653479d1d2ff9dfd0cf7da0b89e8df612ef7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:29 +0000
Subject: [PATCH 10/22] fix: setup_layout did not terminate when the first
 division failed and the second succeeded

---
 libraries/plumbing/setup_layout_generic.cpp | 5 +++--
 libraries/plumbing/setup_layout_vector.cpp  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/libraries/plumbing/setup_layout_generic.cpp b/libraries/plumbing/setup_layout_generic.cpp
index d541906..8584649 100644
--- a/libraries/plumbing/setup_layout_generic.cpp
+++ b/libraries/plumbing/setup_layout_generic.cpp
@@ -72,6 +72,7 @@ void lattice_struct::setup_layout() {
 
     int mdir = 0;
     bool secondtime = false;
+    bool fail;
     do {
         // try the division a couple of times, if the 1st fails
 
@@ -129,7 +130,7 @@ void lattice_struct::setup_layout() {
             }
 
         // now check that the div makes sens
-        bool fail = false;
+        fail = false;
         foralldir(dir) if (nodesiz[dir] < 2) fail = true; // don't allow nodes of size 1
         if (fail && !secondtime) {
             secondtime = true;
@@ -141,7 +142,7 @@ void lattice_struct::setup_layout() {
             hila::finishrun();
         }
 
-    } while (secondtime);
+    } while (fail);
 
     // set up struct nodes variables
     nodes.number = hila::number_of_nodes();
diff --git a/libraries/plumbing/setup_layout_vector.cpp b/libraries/plumbing/setup_layout_vector.cpp
index 1cfcf87..b41ed28 100644
--- a/libraries/plumbing/setup_layout_vector.cpp
+++ b/libraries/plumbing/setup_layout_vector.cpp
@@ -98,6 +98,7 @@ void lattice_struct::setup_layout() {
 
     int gdir;
     bool secondtime = false;
+    bool fail;
     do {
         // try the division a couple of times, if the 1st fails
 
@@ -165,7 +166,7 @@ void lattice_struct::setup_layout() {
 
         // Division done, now check that the div makes sense
 
-        bool fail = false;
+        fail = false;
 
         foralldir (dir)
             if (nodesiz[dir] < 1)
@@ -241,7 +242,7 @@ void lattice_struct::setup_layout() {
             hila::finishrun();
         }
 
-    } while (secondtime);
+    } while (fail);
 
     // set up struct nodes variables
     nodes.number = hila::number_of_nodes();
-- 
2.43.0


From 8ba56040a2f5c6d8a693300717c8b0e0875cf376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 11/22] hooks for the node layout loops (empty unless
 HILA_VERIFY is defined)

---
 libraries/plumbing/map_node_layout.cpp      | 4 ++--
 libraries/plumbing/setup_layout_generic.cpp | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/libraries/plumbing/map_node_layout.cpp b/libraries/plumbing/map_node_layout.cpp
index a99ab2b..261325b 100644
--- a/libraries/plumbing/map_node_layout.cpp
+++ b/libraries/plumbing/map_node_layout.cpp
@@ -62,7 +62,7 @@ void lattice_struct::allnodes::create_remap() {
     blocksize.fill(1);
 
     bool found = true;
-    while (found && nblocks > 1) {
+    while (HILA_VERIFY_LOOP(remap_blocks, nblocks, blocksize, blockdivs), found && nblocks > 1) {
 
         found = false; // if not divisible stop trying
         foralldir(d) {
@@ -94,7 +94,7 @@ void lattice_struct::allnodes::create_remap() {
 
     // Loop over the "logical" node indices (i.e.)
 
-    for (int i = 0; i < this->number; i++) {
+    for (int i = 0; HILA_VERIFY_LOOP(remap_fill, i, nblocks, blocksize, blockdivs), i < this->number; i++) {
         // lcoord is the coordinate of the logical node,
         // bcoord the block coord and icoord coord inside block
         CoordinateVector lcoord, bcoord, icoord;
diff --git a/libraries/plumbing/setup_layout_generic.cpp b/libraries/plumbing/setup_layout_generic.cpp
index 8584649..9eeea67 100644
--- a/libraries/plumbing/setup_layout_generic.cpp
+++ b/libraries/plumbing/setup_layout_generic.cpp
@@ -42,7 +42,7 @@ void lattice_struct::setup_layout() {
     int i = nn;
     for (int n = 0; n < NPRIMES; n++) {
         nfactors[n] = 0;
-        while (i % prime[n] == 0) {
+        while (HILA_VERIFY_LOOP(layout_factor, n, i, nfactors), i % prime[n] == 0) {
             i /= prime[n];
             nfactors[n]++;
         }
@@ -63,7 +63,7 @@ void lattice_struct::setup_layout() {
     foralldir(d) {
         int64_t cosize = l_volume / l_size[d];
         int64_t n = l_size[d];
-        while ((n * cosize) % nn != 0)
+        while (HILA_VERIFY_LOOP(layout_ghost, d, n, cosize, nn), (n * cosize) % nn != 0)
             n++; // virtual size can be odd
         // now nsize is the new would-be size
         ghosts[d] = (n - l_size[d]) * cosize;
@@ -87,7 +87,8 @@ void lattice_struct::setup_layout() {
         }
 
         for (int n = NPRIMES - 1; n >= 0; n--)
-            for (int i = 0; i < nfactors[n]; i++) {
+            for (int i = 0; HILA_VERIFY_LOOP(layout_divide, n, i, mdir, nfactors, nsize, nodesiz),
+                     i < nfactors[n]; i++) {
                 // figure out which direction to divide -- start from the largest prime,
                 // because we don't want this to be last divisor! (would probably wind up
                 // with size 1)
@@ -156,7 +157,7 @@ void lattice_struct::setup_layout() {
                    << nodesiz[mdir] << " sites) + " << ghost_slices << " * (" << nodesiz[mdir] - 1
                    << " sites)\n";
         hila::out0 << "Divisions: ";
-        for (int i = 0; i < nodes.n_divisions[mdir]; i++) {
+        for (int i = 0; HILA_VERIFY_LOOP(layout_print, i), i < nodes.n_divisions[mdir]; i++) {
             if (i > 0)
                 hila::out0 << " - ";
             hila::out0 << nodes.divisors[mdir][i + 1] - nodes.divisors[mdir][i];
-- 
2.43.0


From 212fae3afcfa1437921e8140b9f15b3cfdf6c96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:34 +0000
Subject: [PATCH 12/22] Verification hooks in lattice loops stand in the loop
 condition (HILA_VERIFY guarded)

---
 libraries/plumbing/lattice.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/libraries/plumbing/lattice.cpp b/libraries/plumbing/lattice.cpp
index 38a2da9..06816a6 100644
--- a/libraries/plumbing/lattice.cpp
+++ b/libraries/plumbing/lattice.cpp
@@ -651,9 +651,10 @@ void lattice_struct::create_std_gathers() {
         // first pass through the sites
         // - set the neighb array, anything to communicate?
 
-        for (size_t i = 0; i < mynode.volume; i++) {
-            HILA_VERIFY_LOOP(gather_count, d, i, from_node.evensites, from_node.oddsites,
-                             to_node.evensites, to_node.oddsites, from_node.rank, to_node.rank);
+        for (size_t i = 0;
+            HILA_VERIFY_LOOP(gather_count, d, i, from_node.evensites,
+                             from_node.oddsites, to_node.evensites, to_node.oddsites, from_node.rank, to_node.rank),
+            i < mynode.volume; i++) {
             CoordinateVector ln, l;
             l = coordinates(i);
             // set ln to be the neighbour of the site
@@ -702,8 +703,10 @@ void lattice_struct::create_std_gathers() {
             // index - no sorting needed
             size_t to_even = 0, to_odd = 0, from_even = 0, from_odd = 0;
 
-            for (size_t i = 0; i < mynode.volume; i++) {
-                HILA_VERIFY_LOOP(gather_lists, d, i, from_even, from_odd, to_even, to_odd);
+            for (size_t i = 0;
+                HILA_VERIFY_LOOP(gather_lists, d, i, from_even, from_odd, to_even,
+                                 to_odd),
+                i < mynode.volume; i++) {
                 if (neighb[d][i] == mynode.volume) {
                     CoordinateVector l, ln;
                     l = coordinates(i);
@@ -771,8 +774,9 @@ void lattice_struct::initialize_wait_arrays() {
 
     wait_arr_ = (dir_mask_t *)memalloc(mynode.volume * sizeof(unsigned char));
 
-    for (size_t i = 0; i < mynode.volume; i++) {
-        HILA_VERIFY_LOOP(wait_arrays, i);
+    for (size_t i = 0;
+        HILA_VERIFY_LOOP(wait_arrays, i),
+        i < mynode.volume; i++) {
         wait_arr_[i] = 0; /* basic, no wait */
         foralldir (dir) {
             Direction odir = -dir;
@@ -943,8 +947,9 @@ void lattice_struct::init_special_boundaries() {
                 special_boundaries[d].is_needed = true;
                 special_boundaries[d].offset = mynode.field_alloc_size;
 
-                for (unsigned i = 0; i < mynode.volume; i++) {
-                    HILA_VERIFY_LOOP(boundary_count, d, i);
+                for (unsigned i = 0;
+                    HILA_VERIFY_LOOP(boundary_count, d, i),
+                    i < mynode.volume; i++) {
                     if (coordinate(i, abs(d)) == coord) {
                         // set buffer indices
                         special_boundaries[d].n_total++;
@@ -1019,8 +1024,9 @@ void lattice_struct::setup_special_boundary_array(Direction d) {
         coord = 0;
 
     int k = 0;
-    for (int i = 0; i < mynode.volume; i++) {
-        HILA_VERIFY_LOOP(boundary_array, d, i, k, offs);
+    for (int i = 0;
+        HILA_VERIFY_LOOP(boundary_array, d, i, k, offs),
+        i < mynode.volume; i++) {
         if (coordinate(i, abs(d)) != coord) {
             special_boundaries[d].neighbours[i] = neighb[d][i];
         } else {
-- 
2.43.0


From aa17af6124b9d9dd37050a49ce5319fc78cb9f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:27 +0000
Subject: [PATCH 13/22] Verification hooks in the element copy loops
 (HILA_VERIFY guarded)

---
 libraries/plumbing/backend_cpu/field_storage_backend.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libraries/plumbing/backend_cpu/field_storage_backend.h b/libraries/plumbing/backend_cpu/field_storage_backend.h
index c939f8d..805ee31 100644
--- a/libraries/plumbing/backend_cpu/field_storage_backend.h
+++ b/libraries/plumbing/backend_cpu/field_storage_backend.h
@@ -49,6 +49,7 @@ void field_storage<T>::gather_elements(T *RESTRICT buffer, const unsigned *RESTR
 // decorate with pragma omp, should not matter if omp not used
 #pragma omp parallel for
     for (unsigned j = 0; j < n; j++) {
+        HILA_VERIFY_LOOP(gather_elements, j);
         unsigned index = index_list[j];
         buffer[j] = get(index, lattice->mynode.field_alloc_size);
         // std::memcpy( buffer + j, (char *) (&element), sizeof(T) );
@@ -62,6 +63,7 @@ void field_storage<T>::gather_elements_negated(T *RESTRICT buffer,
     if constexpr (hila::has_unary_minus<T>::value) {
 #pragma omp parallel for
         for (unsigned j = 0; j < n; j++) {
+            HILA_VERIFY_LOOP(gather_negated, j);
             unsigned index = index_list[j];
             buffer[j] = -get(index, lattice->mynode.field_alloc_size); /// requires unary - !!
             // std::memcpy( buffer + j, (char *) (&element), sizeof(T) );
@@ -78,6 +80,7 @@ void field_storage<T>::place_elements(T *RESTRICT buffer, const unsigned *RESTRI
                                       int n, const Lattice lattice) {
 #pragma omp parallel for
     for (unsigned j = 0; j < n; j++) {
+        HILA_VERIFY_LOOP(place_elements, j);
         set(buffer[j], index_list[j], lattice->mynode.field_alloc_size);
     }
 }
-- 
2.43.0


From d366b641863b958c6f18f376d71a04ab5e2ef631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:27 +0000
Subject: [PATCH 14/22] fix: finish ongoing gathers before changing the
 boundary condition of a Field

---
 libraries/plumbing/field.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libraries/plumbing/field.h b/libraries/plumbing/field.h
index 1aa9c51..b5f92aa 100644
--- a/libraries/plumbing/field.h
+++ b/libraries/plumbing/field.h
@@ -743,6 +743,10 @@ class Field {
         check_alloc();
         will_change();
 
+        // finish ongoing comms while the old b.c. (which determines the comms done) is valid
+        drop_comms(dir, ALL);
+        drop_comms(-dir, ALL);
+
         lattice_struct *mylat = fs->mylattice.ptr();
         fs->boundary_condition[dir] = bc;
         fs->boundary_condition[-dir] = bc;
-- 
2.43.0


From 000afd203c9a9868b2e47ad93f5c14a73314233b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:45 +0000
Subject: [PATCH 15/22] Verification hooks in the heat bath rejection loops
 (HILA_VERIFY guarded)

---
 libraries/gauge/KennedyPendleton.h | 1 +
 libraries/gauge/sun_heatbath.h     | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/libraries/gauge/KennedyPendleton.h b/libraries/gauge/KennedyPendleton.h
index d3196f2..f2f2dc5 100644
--- a/libraries/gauge/KennedyPendleton.h
+++ b/libraries/gauge/KennedyPendleton.h
@@ -47,6 +47,7 @@ SU2<T> KennedyPendleton(const SU2<T> &staple) {
     double r1, r2, r3, delta;
     nloops = 0;
     do {
+        HILA_VERIFY_LOOP(su2_kp, nloops);
         // r1, r2 need division by alpha but this is done in one go when setting delta (micro-optimization?) 
         r1 = -::log(1.0 - hila::random());
         r2 = -::log(1.0 - hila::random());
diff --git a/libraries/gauge/sun_heatbath.h b/libraries/gauge/sun_heatbath.h
index 8a009f4..5c2b59e 100644
--- a/libraries/gauge/sun_heatbath.h
+++ b/libraries/gauge/sun_heatbath.h
@@ -111,7 +111,7 @@ double suN_heatbath(SU<N, T> &U, const SU<N, T> &staple, double beta) {
             if ((1.00 - 0.5 * d) <= xr4 * xr4) {
                 if (al > 2.0) { /* k-p algorithm */
                     test = 0;
-                    for (k = 0; k < 40 && !test; k++) {
+                    for (k = 0; HILA_VERIFY_LOOP(heatbath_kp, k, test, d, al), k < 40 && !test; k++) {
                         /*  get four random numbers */
                         xr1 = log(1.0 - hila::random());
                         xr2 = log(1.0 - hila::random());
@@ -137,7 +137,7 @@ double suN_heatbath(SU<N, T> &U, const SU<N, T> &staple, double beta) {
                     xd = 1.0 - xl;
                     test = 0;
                     double a0;
-                    for (k = 0; k < 40 && test == 0; k++) {
+                    for (k = 0; HILA_VERIFY_LOOP(heatbath_creutz, k, test, a0, al, xl, xd), k < 40 && test == 0; k++) {
                         /*        get two random numbers */
                         xr1 = hila::random();
                         xr2 = hila::random();
-- 
2.43.0


From 03b776c0b3409b1b2254e1bd36b8d035c8ea81fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:45 +0000
Subject: [PATCH 16/22] fix: suN_heatbath keeps the link when no
 Kennedy-Pendleton try is accepted (it left SU(N))

---
 libraries/gauge/sun_heatbath.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libraries/gauge/sun_heatbath.h b/libraries/gauge/sun_heatbath.h
index 5c2b59e..eb5b06b 100644
--- a/libraries/gauge/sun_heatbath.h
+++ b/libraries/gauge/sun_heatbath.h
@@ -125,6 +125,8 @@ double suN_heatbath(SU<N, T> &U, const SU<N, T> &staple, double beta) {
                             test = 1;
                     }
                     utry += k;
+                    if (!test)
+                        continue; // no a0 accepted: leave the link as it is
                     uhit++;
 #ifndef __CUDA_ARCH__
                     // TODO: Make parallel-warning out of this
-- 
2.43.0


From 151e1127f174568a3a77e5c2fa1d6bcb9b1b76bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:02 +0000
Subject: [PATCH 17/22] fix: a delayed Reduction used again after its reduction
 was done counted the old total once per rank

---
 libraries/plumbing/reduction.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/reduction.h b/libraries/plumbing/reduction.h
index 777bbdc..c3de5e5 100644
--- a/libraries/plumbing/reduction.h
+++ b/libraries/plumbing/reduction.h
@@ -206,8 +206,9 @@ class Reduction {
 
         wait(); // wait for possible ongoing
 
-        // add the node values to reduction var
-        if (hila::myrank() == 0 || is_delayed_)
+        // add the node values to reduction var.  On ranks other than 0 the old value counts
+        // only if it is waiting for a delayed reduction
+        if (hila::myrank() == 0 || delay_is_on)
             val += v;
         else
             val = v;
-- 
2.43.0


From c598d8254ccd7490abb1183c21817ea37243e675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:02 +0000
Subject: [PATCH 18/22] fix: Reduction<Complex> r; r = 0; did not compile

---
 libraries/plumbing/reduction.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libraries/plumbing/reduction.h b/libraries/plumbing/reduction.h
index c3de5e5..45e8dd1 100644
--- a/libraries/plumbing/reduction.h
+++ b/libraries/plumbing/reduction.h
@@ -166,7 +166,8 @@ class Reduction {
         wait();
 
         comm_is_on = false;
-        T ret = rhs;
+        T ret;
+        ret = rhs;
         if_rank0() {
             val = ret;
         } else {
-- 
2.43.0


From bee43281af7ac01a17e9279de3ff34e501745bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:02 +0000
Subject: [PATCH 19/22] fix: delayed product of a ReductionVector was reduced
 as a sum

---
 libraries/plumbing/reductionvector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libraries/plumbing/reductionvector.h b/libraries/plumbing/reductionvector.h
index cc24a66..43ebc70 100644
--- a/libraries/plumbing/reductionvector.h
+++ b/libraries/plumbing/reductionvector.h
@@ -243,6 +243,7 @@ class ReductionVector {
                 assert(0 && "Cannot mix sum and product reductions!");
             }
             delay_is_on = true;
+            is_delayed_sum = true;
         } else {
             reduce_operation(MPI_SUM);
         }
@@ -264,6 +265,7 @@ class ReductionVector {
                 assert(0 && "Cannot mix sum and product reductions!");
             }
             delay_is_on = true;
+            is_delayed_sum = false;
         } else {
             reduce_operation(MPI_PROD);
         }
-- 
2.43.0


From 4429d4de1f4a0faf32472c48d8d11ea278b05a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:02 +0000
Subject: [PATCH 20/22] fix: assignment to a ReductionVector did not wait for a
 non-blocking reduction in progress, which then overwrote it

---
 libraries/plumbing/reductionvector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libraries/plumbing/reductionvector.h b/libraries/plumbing/reductionvector.h
index 43ebc70..cffb06c 100644
--- a/libraries/plumbing/reductionvector.h
+++ b/libraries/plumbing/reductionvector.h
@@ -204,12 +204,14 @@ class ReductionVector {
     /// Make this return void, hard to imagine it is used for anything useful
     template <typename S, std::enable_if_t<std::is_assignable<T &, S>::value, int> = 0>
     void operator=(const S &rhs) {
+        wait();
         for (auto &vp : val)
             vp = rhs;
     }
 
     /// Assignment from 0
     void operator=(std::nullptr_t np) {
+        wait();
         for (auto &vp : val)
             vp = 0;
     }
-- 
2.43.0


From d6c65d62261026f2f5907795c084ab8349a75978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:02 +0000
Subject: [PATCH 21/22] fix: Field::max() of a float or double field with no
 positive values returned the smallest positive number

---
 libraries/plumbing/reduction.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/reduction.h b/libraries/plumbing/reduction.h
index 45e8dd1..3db0205 100644
--- a/libraries/plumbing/reduction.h
+++ b/libraries/plumbing/reduction.h
@@ -332,14 +332,14 @@ T Field<T>::minmax(bool is_min, Parity par, CoordinateVector &loc) const {
     T val = gpu_minmax(is_min, par, loc);
 #else
     // get suitable initial value
-    T val = is_min ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
+    T val = is_min ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
 
     // write the loop with explicit OpenMP parallel region.  It has negligible effect
     // on non-OpenMP code, and the pragmas are ignored.
     #pragma omp parallel shared(val, loc, is_min)
     {
         CoordinateVector loc_th(0);
-        T val_th = is_min ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
+        T val_th = is_min ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
 
         // Pragma "hila omp_parallel_region" is necessary here, because this is within
         // omp parallel
-- 
2.43.0


From 36ce27ff6ef5b417fde0ef8c1b261cbc4d0c74eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:05 +0000
Subject: [PATCH 22/22] fix: selecting a site twice in SiteValueSelect kept the
 first value, or wrote past the end after the last site

---
 libraries/plumbing/site_select.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/plumbing/site_select.h b/libraries/plumbing/site_select.h
index 3de66df..a4e75b8 100644
--- a/libraries/plumbing/site_select.h
+++ b/libraries/plumbing/site_select.h
@@ -292,8 +292,8 @@ class SiteValueSelect : public SiteSelect {
     }
 
     void select_site_value(const SiteIndex s, const T &val) {
-        values[current_index] = val;
         SiteSelect::select_site(s);
+        values[current_index - 1] = val;
     }
 
 
-- 
2.43.0

