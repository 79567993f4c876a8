From d9bb8730d59f88a3112eaf111b63cf4f269b6be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:25 +0000
Subject: [PATCH 01/20] fix: keep every point's grid cell inside the grid

A coordinate just below 1 can round to cell gr, one past the last cell
(always possible in double precision, where the cell length is a float),
and coordinates outside the cube or NaN gave arbitrary cell numbers: the
cell counts were then written outside the offset array. A grid resolution
of 0 did the same. validate_xyzset() now also refuses NaN.
---
 src/xyzset.ipp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/xyzset.ipp b/src/xyzset.ipp
index 9bf22a4..a5add86 100644
--- a/src/xyzset.ipp
+++ b/src/xyzset.ipp
@@ -13,22 +13,31 @@ inline T2 get_distance(
   return square(p0 - q0) + square(p1 - q1) + square(p2 - q2);
 }
 
+// Grid cell holding the coordinate x. Rounding may place a coordinate close to
+// 1 one cell too far, so the cell is always kept inside the grid.
+template <typename T2>
+inline int get_cell(const T2 x, const T2 gl, const int gr) {
+  const T2 cell = std::floor(x / gl);
+  if (!(cell > 0)) return 0;
+  return (cell < gr) ? static_cast<int>(cell) : std::max(gr - 1, 0);
+}
+
 template <typename T1, typename T2>
 const std::pair<std::vector<T1>, std::vector<T1>>
 sort(std::vector<std::array<T2,3>>& xyzset, const args::xyzset& args) {
 
   const auto gr = args.grid_resolution;
   const T2 gl = 1.0f / gr; // TODO: make this template safe
-  const T1 idmax = gr * gr * gr;
+  const T1 idmax = std::max(gr * gr * gr, 1);
 
   std::vector<T1> id(xyzset.size());
   std::vector<T1> offset(0,0);
   
   // init
   for (size_t i = 0; i < xyzset.size(); i++) {
-    id[i] = static_cast<T1>(std::floor(xyzset[i][0] / gl))
-          + static_cast<T1>(std::floor(xyzset[i][1] / gl)) * gr  
-          + static_cast<T1>(std::floor(xyzset[i][2] / gl)) * gr * gr; 
+    id[i] = get_cell(xyzset[i][0], gl, gr)
+          + get_cell(xyzset[i][1], gl, gr) * gr
+          + get_cell(xyzset[i][2], gl, gr) * gr * gr;
   };
   
   // sort
@@ -74,7 +83,7 @@ bool
 validate_xyzset(const std::vector<std::array<T2,3>>& xyzset) {
   for (size_t i = 0; i < xyzset.size(); i++) {
     for (size_t j = 0; j < xyzset[0].size(); j++) {
-      if (xyzset[i][j] >= 1.0f || xyzset[i][j] <= 0.0f) {
+      if (!(xyzset[i][j] < 1.0f && xyzset[i][j] > 0.0f)) {
         return false;
       }
     }
@@ -108,9 +117,9 @@ bool validate_sort(
 ) {
   T2 gl = 1.0f / gr;
   for (size_t i = 0; i < xyzset.size(); ++i) {
-    T1 cid = static_cast<T1>(std::floor(xyzset[i][0] / gl)) +
-             static_cast<T1>(std::floor(xyzset[i][1] / gl) * gr) +
-             static_cast<T1>(std::floor(xyzset[i][2] / gl) * gr * gr);
+    T1 cid = get_cell<T2>(xyzset[i][0], gl, gr) +
+             get_cell<T2>(xyzset[i][1], gl, gr) * gr +
+             get_cell<T2>(xyzset[i][2], gl, gr) * gr * gr;
     if (cid != id[i]) {
       return false;
     }
-- 
2.43.0


From 16bc175612a20324e4cd6883cad3430f8cabbc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:58 +0000
Subject: [PATCH 02/20] fix: cells with many planes or candidates

With cc_p_maxsize >= 256 the 8-bit loop counters of the boundary search
could not represent its bound and every cell was abandoned as having an
infinite boundary. Plane 255 could also not be told apart from the
undefined marker, and k was truncated to 16 bits.
---
 src/boundary.ipp | 12 ++++++------
 src/cc.ipp       | 15 +++++++++------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/boundary.ipp b/src/boundary.ipp
index 03432ba..4f3f98f 100644
--- a/src/boundary.ipp
+++ b/src/boundary.ipp
@@ -193,10 +193,10 @@ inline boundary::bstatus boundary::compute(
     }
   
     bool flag = false;
-    for (uint8_t edge_i = 0; edge_i < dr_size; edge_i++) {
+    for (Ti edge_i = 0; edge_i < dr_size; edge_i++) {
       if (cycle[dr_offs + edge_i] == boundary::bstatus::undefined) continue;
 
-      for (uint8_t edge_j = edge_i + 1; edge_j < dr_size; edge_j++) {
+      for (Ti edge_j = edge_i + 1; edge_j < dr_size; edge_j++) {
         if (cycle[dr_offs + edge_j] == boundary::bstatus::undefined) continue;
 
         const bool cond = cycle[dr_offs + edge_i] == cycle[dr_offs + edge_j];
@@ -251,7 +251,7 @@ inline boundary::bstatus boundary::compute(
     cycle[dr_offs + head] = triangle_edge_1;
   }
   
-  Tu swap_j = r_size;
+  Ti swap_j = r_size;
   for (Ti j = 1; j < r_size; j++) {
   
     struct vstatus stat;
@@ -264,7 +264,7 @@ inline boundary::bstatus boundary::compute(
   
       uint8_t edge = cycle[dr_offs + first];
   
-      Tu counter = 0;
+      Ti counter = 0;
       while (true) {
         head = edge;
   
@@ -331,11 +331,11 @@ inline boundary::bstatus boundary::compute(
   
   
     bool flag = false;
-    for (uint8_t edge_i = 0; edge_i < dr_size; edge_i++) {
+    for (Ti edge_i = 0; edge_i < dr_size; edge_i++) {
       if (cycle[dr_offs + edge_i] == boundary::bstatus::undefined) continue;
 
 
-      for (uint8_t edge_j = edge_i + 1; edge_j < dr_size; edge_j++) {
+      for (Ti edge_j = edge_i + 1; edge_j < dr_size; edge_j++) {
         if (cycle[dr_offs + edge_j] == boundary::bstatus::undefined) continue;
 
         const bool cond = cycle[dr_offs + edge_i] == cycle[dr_offs + edge_j];
diff --git a/src/cc.ipp b/src/cc.ipp
index ad3da13..9d79bb4 100644
--- a/src/cc.ipp
+++ b/src/cc.ipp
@@ -31,7 +31,7 @@ void cci::compute(
   const unsigned short int p_initsize = sizeof(p_init) / (sizeof(*p_init) * 4);
   const unsigned short int t_initsize = sizeof(t_init) / (sizeof(*t_init) * 3);
 
-  const unsigned short int k = args.k;
+  const int k = args.k;
   const unsigned short int p_maxsize = args.p_maxsize;
   const unsigned short int t_maxsize = args.t_maxsize;
 
@@ -135,7 +135,8 @@ void cci::compute(
     
     if (r_size > 0) {
 
-      if (p_size >= p_maxsize) {
+      // plane indices must stay distinct from the marker used in dR
+      if (p_size >= p_maxsize || p_size >= boundary::bstatus::undefined) {
         state.set_true(cc::error_p_overflow);
         return;
       }
@@ -254,7 +255,7 @@ void cci::compute(
   const unsigned short int p_initsize = sizeof(p_init) / (sizeof(*p_init) * 4);
   const unsigned short int t_initsize = sizeof(t_init) / (sizeof(*t_init) * 3);
 
-  const unsigned short int k = args.k;
+  const int k = args.k;
   const unsigned short int p_maxsize = args.p_maxsize;
   const unsigned short int t_maxsize = args.t_maxsize;
 
@@ -358,7 +359,8 @@ void cci::compute(
     
     if (r_size > 0) {
 
-      if (p_size >= p_maxsize) {
+      // plane indices must stay distinct from the marker used in dR
+      if (p_size >= p_maxsize || p_size >= boundary::bstatus::undefined) {
         state.set_true(cc::error_p_overflow);
         return;
       }
@@ -481,7 +483,7 @@ void cci::compute(
   const unsigned short int p_initsize = sizeof(p_init) / (sizeof(*p_init) * 4);
   const unsigned short int t_initsize = sizeof(t_init) / (sizeof(*t_init) * 3);
 
-  const unsigned short int k = args.k;
+  const int k = args.k;
   const unsigned short int p_maxsize = args.p_maxsize;
   const unsigned short int t_maxsize = args.t_maxsize;
 
@@ -585,7 +587,8 @@ void cci::compute(
     
     if (r_size > 0) {
 
-      if (p_size >= p_maxsize) {
+      // plane indices must stay distinct from the marker used in dR
+      if (p_size >= p_maxsize || p_size >= boundary::bstatus::undefined) {
         state.set_true(cc::error_p_overflow);
         return;
       }
-- 
2.43.0


From 9794d8f81f0934ec8051d7177746cd1e63530e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:48 +0000
Subject: [PATCH 03/20] fix: scratch array indices no longer overflow the index
 type

Row offsets into the k, P, T and dR arrays were computed in Ti: with
Ti=short a set of 600 points already indexed outside the arrays, and with
int large unchunked sets did. They are now size_t; sets or results that Ti
cannot index are refused.
---
 include/cc.hpp  |  2 +-
 include/knn.hpp |  2 +-
 src/cc.ipp      |  8 ++++----
 src/knn.ipp     |  4 ++--
 src/votess.ipp  | 50 +++++++++++++++++++++++++++++++------------------
 5 files changed, 40 insertions(+), 26 deletions(-)

diff --git a/include/cc.hpp b/include/cc.hpp
index a9d0ccc..faf67d6 100644
--- a/include/cc.hpp
+++ b/include/cc.hpp
@@ -22,7 +22,7 @@ namespace cci {
 /* ------------------------------------------------------------------------- */
 template <typename Ti, typename Tf, typename Tu>
 void compute(
-  const Ti i, const Ti index,
+  const size_t i, const Ti index,
   std::vector<cc::state>& states,
   Tf* P, Tu* T, Tu* dR,
   std::vector<Ti>& knn,
diff --git a/include/knn.hpp b/include/knn.hpp
index 70b505a..d47aa69 100644
--- a/include/knn.hpp
+++ b/include/knn.hpp
@@ -18,7 +18,7 @@ namespace knni {
 
 template <typename Ti, typename Tf>
 void compute(
-  const Ti i, const Ti index,
+  const size_t i, const Ti index,
   const std::vector<std::array<Tf,3>>& xyzset,
   const Ti xyzsize,
   const std::vector<Ti>& id,
diff --git a/src/cc.ipp b/src/cc.ipp
index 9d79bb4..8a68dab 100644
--- a/src/cc.ipp
+++ b/src/cc.ipp
@@ -1,6 +1,6 @@
 template <typename Ti, typename Tf, typename Tu>
 void cci::compute(
-  const Ti i, const Ti index,
+  const size_t i, const Ti index,
   std::vector<cc::state>& states,
   Tf* P,
   Tu* T,
@@ -148,15 +148,15 @@ void cci::compute(
       dknn[k * i + neighbor] = p_size;
       p_size += 1;
   
-      const Ti dr_offs = p_maxsize * i;
+      const size_t dr_offs = p_maxsize * i;
       for (Ti j = 0; j < p_maxsize; j++) {
         dR[dr_offs + j] = boundary::bstatus::undefined;
       }
 
       short int head = -1;
       boundary::bstatus bstat = boundary::compute<Ti, Tu>(
-        dR, dr_offs, p_maxsize, head,
-        T, 3 * t_maxsize * i + t_size * 3, r_size
+        dR + dr_offs, 0, p_maxsize, head,
+        T + (3 * t_maxsize * i + t_size * 3), 0, r_size
       );
       r_size = 0;
   
diff --git a/src/knn.ipp b/src/knn.ipp
index 3137d57..a8aea32 100644
--- a/src/knn.ipp
+++ b/src/knn.ipp
@@ -21,7 +21,7 @@ static inline bool is_inshell(
 
 template <typename Ti, typename Tf>
 void knni::compute(
-  const Ti i, const Ti index,
+  const size_t i, const Ti index,
   const std::vector<std::array<Tf,3>>& xyzset,
   const Ti xyzsize,
   const std::vector<Ti>& id,
@@ -50,7 +50,7 @@ void knni::compute(
   const auto gr = args.grid_resolution;
   const auto gl = 1.0f / args.grid_resolution;
 
-  const Ti h0 = k * i;
+  const size_t h0 = k * i;
 
   // memory access
   const int px = (id[index]) % gr;
diff --git a/src/votess.ipp b/src/votess.ipp
index e5ccd99..d97d8be 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -11,6 +11,8 @@
 #include <vector>
 #include <array>
 #include <cstdint>
+#include <limits>
+#include <stdexcept>
 #include <thread>
 #include <mutex>
 #include <iomanip>
@@ -157,6 +159,10 @@ tmpnn_getdnn(std::vector<std::vector<Ti>>& tmpnn) {
 
   }
 
+  if (_list.size() > static_cast<size_t>(std::numeric_limits<Ti>::max())) {
+    throw std::overflow_error("votess: Ti cannot index all neighbors");
+  }
+
   for (Ti i = 1; i < xyzsize + 1; i++) {
     _offs[i] += _offs[i - 1];
   }
@@ -405,14 +411,14 @@ __cpu__tesellate(
 
   std::vector<Ti> indices(subsize);
 
-  std::vector<Ti> heap_id(subsize * k);
-  std::vector<Tf> heap_pq(subsize * k);
-  std::vector<Ti> dknn(subsize * k);
+  std::vector<Ti> heap_id(static_cast<size_t>(subsize) * k);
+  std::vector<Tf> heap_pq(static_cast<size_t>(subsize) * k);
+  std::vector<Ti> dknn(static_cast<size_t>(subsize) * k);
   std::vector<Ti>& knn = heap_id;
 
-  std::vector<Tf>       P(subsize * p_maxsize * 4);
-  std::vector<Tu>  T(subsize * t_maxsize * 3);
-  std::vector<Tu> dR(subsize * p_maxsize);
+  std::vector<Tf>       P(static_cast<size_t>(subsize) * p_maxsize * 4);
+  std::vector<Tu>  T(static_cast<size_t>(subsize) * t_maxsize * 3);
+  std::vector<Tu> dR(static_cast<size_t>(subsize) * p_maxsize);
 
   for (int run = 0; run < nruns; run++) {
 
@@ -526,14 +532,16 @@ __cpu__recompute(
   int p_maxsize = args["cc_p_maxsize"];
   int t_maxsize = args["cc_t_maxsize"];
 
-  std::vector<Ti> heap_id(subsize * k, 0);
-  std::vector<Tf> heap_pq(subsize * k, std::numeric_limits<Tf>::infinity());
-  std::vector<Ti> dknn(subsize * k, __INTERNAL__K_UNDEFINED);
+  std::vector<Ti> heap_id(static_cast<size_t>(subsize) * k, 0);
+  std::vector<Tf> heap_pq(static_cast<size_t>(subsize) * k, 
+                          std::numeric_limits<Tf>::infinity());
+  std::vector<Ti> dknn(static_cast<size_t>(subsize) * k, 
+                       __INTERNAL__K_UNDEFINED);
   std::vector<Ti>& knn = heap_id;
 
-  std::vector<Tf>       P(subsize * p_maxsize * 4);
-  std::vector<Tu>  T(subsize * t_maxsize * 3);
-  std::vector<Tu> dR(subsize * p_maxsize);
+  std::vector<Tf>       P(static_cast<size_t>(subsize) * p_maxsize * 4);
+  std::vector<Tu>  T(static_cast<size_t>(subsize) * t_maxsize * 3);
+  std::vector<Tu> dR(static_cast<size_t>(subsize) * p_maxsize);
 
   while (1) {
 
@@ -576,13 +584,15 @@ __cpu__recompute(
     T.clear();
     dR.clear();
 
-    heap_id.resize(subsize * k, 0);
-    heap_pq.resize(subsize * k, std::numeric_limits<Tf>::infinity());
-    dknn.resize(subsize * k, __INTERNAL__K_UNDEFINED);
+    heap_id.resize(static_cast<size_t>(subsize) * k, 0);
+    heap_pq.resize(static_cast<size_t>(subsize) * k, 
+                   std::numeric_limits<Tf>::infinity());
+    dknn.resize(static_cast<size_t>(subsize) * k, 
+                __INTERNAL__K_UNDEFINED);
 
-    P.resize(subsize * p_maxsize * 4);
-    T.resize(subsize * t_maxsize * 3);
-    dR.resize(subsize * p_maxsize);
+    P.resize(static_cast<size_t>(subsize) * p_maxsize * 4);
+    T.resize(static_cast<size_t>(subsize) * t_maxsize * 3);
+    dR.resize(static_cast<size_t>(subsize) * p_maxsize);
 
     const size_t threadsize  = subsize / nthreads;
 
@@ -665,6 +675,10 @@ tesellate(
   "Template type Tf must be a floating-point type."
   );
 
+  if (xyzset.size() >= static_cast<size_t>(std::numeric_limits<Ti>::max())) {
+    throw std::overflow_error("votess: Ti cannot index all points");
+  }
+
   const auto [id,offset] = xyzset::sort<Ti,Tf>(xyzset, args.get_xyzset());
 
   // TODO : Make errors actually good
-- 
2.43.0


From d43134f82fd2422d4908937ae0b19fccad0f463e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:49 +0000
Subject: [PATCH 04/20] fix: refuse unusable parameters and limit k to the
 points available

With k larger than the number of other points the missing candidates were
filled in with point 0, giving rows with repeated neighbours and points
neighbouring themselves. k < 1, a grid resolution that is not positive or
whose cells do not fit the index type, and capacities too small for the
initial cube divided by zero or wrote outside the scratch arrays.
---
 src/votess.ipp | 47 ++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index d97d8be..ab409ac 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -649,6 +649,49 @@ static bool device_found(void) {
          false : true;
 }
 
+// Refuses parameters that no tesellation can be computed with, and limits the
+// others to what a set of the given size can make use of.
+template <typename Ti>
+static void
+prepare_args(class vtargs& args, const size_t size) {
+
+  const int k = args["k"];
+  const int gr = args["knn_grid_resolution"];
+  const int p_maxsize = args["cc_p_maxsize"];
+  const int t_maxsize = args["cc_t_maxsize"];
+
+  if (size >= static_cast<size_t>(std::numeric_limits<Ti>::max())) {
+    throw std::overflow_error("votess: Ti cannot index all points");
+  }
+
+  if (k < 1) {
+    throw std::invalid_argument("votess: k must be positive");
+  }
+
+  const int64_t ncells_max = std::min<int64_t>(
+    std::numeric_limits<Ti>::max(), std::numeric_limits<int>::max()
+  );
+  if (gr < 1 || gr > 2048 || static_cast<int64_t>(gr) * gr * gr >= ncells_max) {
+    throw std::invalid_argument("votess: knn_grid_resolution out of range");
+  }
+
+  // a cell starts out as the unit cube, with 6 planes and 8 vertices
+  if (p_maxsize < 6) {
+    throw std::invalid_argument("votess: cc_p_maxsize must be at least 6");
+  }
+  if (t_maxsize < 8) {
+    throw std::invalid_argument("votess: cc_t_maxsize must be at least 8");
+  }
+
+  // planes are numbered with 8 bits, and a cell with p planes has at most
+  // 2p - 4 vertices
+  const int p_limit = boundary::bstatus::undefined;
+  args["k"] = static_cast<int>(std::min<size_t>(k, size > 2 ? size - 1 : 1));
+  args["cc_p_maxsize"] = std::min(p_maxsize, p_limit);
+  args["cc_t_maxsize"] = std::min(t_maxsize, 2 * p_limit);
+
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 /// Tesellate End Function                                                  ///
 ///////////////////////////////////////////////////////////////////////////////
@@ -675,9 +718,7 @@ tesellate(
   "Template type Tf must be a floating-point type."
   );
 
-  if (xyzset.size() >= static_cast<size_t>(std::numeric_limits<Ti>::max())) {
-    throw std::overflow_error("votess: Ti cannot index all points");
-  }
+  prepare_args<Ti>(args, xyzset.size());
 
   const auto [id,offset] = xyzset::sort<Ti,Tf>(xyzset, args.get_xyzset());
 
-- 
2.43.0


From 219425e4da058028db678df9d960e9c3fd4eabd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:30 +0000
Subject: [PATCH 05/20] fix: a failed thread start no longer terminates the
 process

Threads already running were destroyed while joinable. They are now joined
and the exception reaches the caller. hardware_concurrency() may also
return 0, which was divided by.
---
 src/votess.ipp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index ab409ac..8b1c41d 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -98,6 +98,14 @@ namespace votess {
 /// Tesellate Internal Functions                                            ///
 ///////////////////////////////////////////////////////////////////////////////
 
+// Joins the threads that were started, also when starting another one failed
+struct join_guard {
+  std::vector<std::thread>& threads;
+  ~join_guard() {
+    for (auto& thread : threads) if (thread.joinable()) thread.join();
+  }
+};
+
 // NOTE: This is the source of continuosly increasing memory for long runs
 template <typename Ti>
 static void 
@@ -387,8 +395,8 @@ __cpu__tesellate(
   const Ti refsize = refset.size();
 
   const size_t nthreads = args["cpu_nthreads"].get<size_t>() != 0 ?
-                          args["cpu_nthreads"] : 
-                          std::thread::hardware_concurrency(); 
+                          args["cpu_nthreads"].get<size_t>() : 
+                          std::max(std::thread::hardware_concurrency(), 1u); 
 
   const int chunksize = args["use_chunking"].get<bool>() ? 
                         args["chunksize"] : refsize + 1;
@@ -441,6 +449,7 @@ __cpu__tesellate(
     const auto args_cc  = args.get_cc();
 
     std::vector<std::thread> threads(nthreads);
+    const join_guard guard{threads};
     for (size_t i = 0; i < nthreads; i++) {
 
       const size_t _tstart = i * threadsize;
@@ -511,8 +520,8 @@ __cpu__recompute(
   const Ti refsize = refset.size();
 
   const size_t nthreads = args["cpu_nthreads"].get<size_t>() != 0 ?
-                          args["cpu_nthreads"] : 
-                          std::thread::hardware_concurrency(); 
+                          args["cpu_nthreads"].get<size_t>() : 
+                          std::max(std::thread::hardware_concurrency(), 1u); 
 
   Ti subsize = 0;
   for (auto& s : states) {
@@ -600,6 +609,7 @@ __cpu__recompute(
     const auto args_cc  = args.get_cc();
 
     std::vector<std::thread> threads(nthreads);
+    const join_guard guard{threads};
     for (size_t i = 0; i < nthreads; i++) {
 
       const size_t _tstart = i * threadsize;
-- 
2.43.0


From 7865f618054c25ff60c52473aae66dc438d2c218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:02 +0000
Subject: [PATCH 06/20] fix: recompute finishes every cell it can and keeps the
 status of the others

Recomputation stopped as soon as k reached the size of the set even if
cells had overflowed in that very pass and only needed more capacity, and
it cleared the status of all cells, so that the summary reported every
cell as failed.
---
 src/votess.ipp | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 8b1c41d..25c09e7 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -541,6 +541,11 @@ __cpu__recompute(
   int p_maxsize = args["cc_p_maxsize"];
   int t_maxsize = args["cc_t_maxsize"];
 
+  // planes are numbered with 8 bits, and a cell with p planes has at most
+  // 2p - 4 vertices
+  const int p_limit = boundary::bstatus::undefined;
+  const int t_limit = 2 * p_limit;
+
   std::vector<Ti> heap_id(static_cast<size_t>(subsize) * k, 0);
   std::vector<Tf> heap_pq(static_cast<size_t>(subsize) * k, 
                           std::numeric_limits<Tf>::infinity());
@@ -557,30 +562,37 @@ __cpu__recompute(
     bool update_t_maxsize = false;
     bool update_p_maxsize = false;
   
+    // once all other points were candidates, only more capacity can help
+    const bool k_exhausted = k >= refsize - 1;
+
     Ti cur = 0;
     for (Ti i = 0; i < subsize; i++) {
       const auto index = indices[i];
-      if (!states[index].get(cc::security_radius_reached)) {
-        indices[cur++] = index;
-      } 
-      if (states[index].get(cc::error_p_overflow)) {
-        update_p_maxsize = true;
-      } 
-      if (states[index].get(cc::error_t_overflow)) {
-        update_t_maxsize = true;
-      } 
+      auto& state = states[index];
+
+      if (state.get(cc::security_radius_reached)) continue;
+
+      const bool grow_p = state.get(cc::error_p_overflow) 
+                          && p_maxsize < p_limit;
+      const bool grow_t = state.get(cc::error_t_overflow) 
+                          && t_maxsize < t_limit;
+      if (k_exhausted && !grow_p && !grow_t) continue;
+
+      if (grow_p) update_p_maxsize = true;
+      if (grow_t) update_t_maxsize = true;
+      indices[cur++] = index;
+      state.reset();
     } 
 
     subsize = cur;
-    for (Ti i = 0; i < refsize; i++) states[i].reset();
 
     if (subsize <= 0) {
       break;
     }
 
     k = (k * 2) > (refsize - 1) ? refsize - 1 : k * 2;
-    p_maxsize *= update_p_maxsize ? 2 : 1;
-    t_maxsize *= update_t_maxsize ? 2 : 1;
+    if (update_p_maxsize) p_maxsize = std::min(p_maxsize * 2, p_limit);
+    if (update_t_maxsize) t_maxsize = std::min(t_maxsize * 2, t_limit);
 
     args["k"] = k;
     args["cc_p_maxsize"] = p_maxsize;
@@ -642,10 +654,6 @@ __cpu__recompute(
 
     tmpnn_fill(tmpnn, indices, subsize, knn, args);
 
-    if (k >= (refsize - 1)) {
-      break;
-    }
-
   }
 
 }
-- 
2.43.0


From 2c263b8cd8854c8b5f869e6e54b627585e8f6b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:56 +0000
Subject: [PATCH 07/20] fix: overlapping calls no longer corrupt std::cout

Each call saved and restored the stream's buffer on its own, so two calls
overlapping in time could leave std::cout pointing at the destroyed buffer
of the other one, and both wrote to it unsynchronised. The redirection is
now shared and counted, and the stream's error state is kept.
---
 src/votess.ipp | 47 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 25c09e7..5e3596d 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -12,7 +12,9 @@
 #include <array>
 #include <cstdint>
 #include <limits>
+#include <memory>
 #include <stdexcept>
+#include <streambuf>
 #include <thread>
 #include <mutex>
 #include <iomanip>
@@ -23,18 +25,53 @@
 #define FP_INFINITY 128.00f
 
 namespace suppress {
+
+  class nullbuf : public std::streambuf {
+    protected:
+      int_type overflow(int_type c) override { 
+        return traits_type::not_eof(c); 
+      }
+      std::streamsize xsputn(const char*, std::streamsize n) override { 
+        return n; 
+      }
+  };
+
+  // Discards what is written to std::cout while at least one instance exists.
+  // Instances may overlap: the first one redirects, the last one restores.
   class stdout {
     public:
-      stdout() : buf(std::cout.rdbuf()) {
-        std::cout.rdbuf(__tmp__buf.rdbuf());
+      stdout() {
+        auto& s = get_shared();
+        const std::lock_guard<std::mutex> lock(s.mutex);
+        if (s.count++ == 0) {
+          s.state = std::cout.rdstate();
+          s.buf = std::cout.rdbuf(&s.null);
+        }
       }
       ~stdout() {
-        std::cout.rdbuf(buf);
+        auto& s = get_shared();
+        const std::lock_guard<std::mutex> lock(s.mutex);
+        if (--s.count == 0) {
+          std::cout.rdbuf(s.buf);
+          std::cout.setstate(s.state);
+        }
       }
+      stdout(const stdout&) = delete;
+      stdout& operator=(const stdout&) = delete;
     private:
-      std::streambuf* buf;
-      std::stringstream __tmp__buf;
+      struct shared {
+        std::mutex mutex;
+        size_t count = 0;
+        std::ios_base::iostate state = std::ios_base::goodbit;
+        std::streambuf* buf = nullptr;
+        nullbuf null;
+      };
+      static shared& get_shared() {
+        static shared s;
+        return s;
+      }
   };
+
 }
 
 static inline void 
-- 
2.43.0


From becc3ff2e0f04dcf3df59de0e2113e312a46a017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:44 +0000
Subject: [PATCH 08/20] fix: print and save empty rows

Only one row end was written however many rows ended at an element, and
trailing empty rows were dropped, so that lines no longer corresponded to
points. A default constructed dnn reported 2^64-1 rows, and a failed write
went unreported.
---
 src/dnn.ipp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/dnn.ipp b/src/dnn.ipp
index 5121dc0..1524d6a 100644
--- a/src/dnn.ipp
+++ b/src/dnn.ipp
@@ -76,13 +76,13 @@ votess::dnn<Ti>::operator[](const int i) {
 
 template<typename Ti>
 size_t votess::dnn<Ti>::size() const {
-  return offs.size() - 1;
+  return offs.empty() ? 0 : offs.size() - 1;
 }
 
 template <typename Ti>
 void votess::dnn<Ti>::print() const {
 
-  if (this->list.empty()) {
+  if (this->size() == 0) {
     std::cout<<"{}"<<std::endl;
     return;
   }
@@ -91,16 +91,15 @@ void votess::dnn<Ti>::print() const {
   size_t counter = 1;
   std::cout<<"{\n  {";
   for (auto i : this->list) {
-    if (index == this->offs[counter]) {
-      if (counter < this->offs.size() - 1) {
-        counter += 1;
-      }
+    while (counter < this->size() && index == this->offs[counter]) {
+      counter += 1;
       std::cout << "}\n  {";
     }
 
     std::cout<<std::setw(1)<<i<<", ";
     index += 1;
   }
+  for (; counter < this->size(); counter++) std::cout << "}\n  {";
   std::cout << "}\n}" << std::endl;
 
 }
@@ -116,17 +115,18 @@ void votess::dnn<Ti>::savetxt(const std::string& fname) const {
   Ti index = 0;
   size_t counter = 1;
   for (auto i : this->list) {
-    if (index == this->offs[counter]) {
-      if (counter < this->offs.size() - 1) {
-        counter += 1;
-      }
+    while (counter < this->size() && index == this->offs[counter]) {
+      counter += 1;
       fp<<"\n";
     }
     fp<<std::setw(1)<<i<<" ";
     index += 1;
   }
-  fp<<"\n";
+  for (; counter <= this->size(); counter++) fp<<"\n";
   fp.close();
+  if (!fp) {
+    std::cerr<<"Failed to write file: "<<fname<<std::endl;
+  }
 }
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From d1c82a03f0c90ea564c39ef0cd810c3c0978b77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:39 +0000
Subject: [PATCH 09/20] fix: rows obtained from Python stay valid and check
 their indices

A row taken from a temporary result referred to freed memory, indices were
not checked, so that iterating over a result or a row never ended and read
outside it, and offsets given to the constructor were trusted.
---
 src/pybind11/pyvotess.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/pybind11/pyvotess.cpp b/src/pybind11/pyvotess.cpp
index dff77cc..86c1bd0 100644
--- a/src/pybind11/pyvotess.cpp
+++ b/src/pybind11/pyvotess.cpp
@@ -1,6 +1,9 @@
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
 
+#include <algorithm>
+#include <stdexcept>
+
 #include "votess.hpp"
 #include "arguments.hpp"
 ///////////////////////////////////////////////////////////////////////////////
@@ -51,19 +54,31 @@ pybind11::class_<votess::vtargs>(module, "vtargs")
 /* ------------------------------------------------------------------------- */
 
 pybind11::class_<votess::dnn<int>::proxy>(module, "Proxy")
-  .def("__getitem__", [](votess::dnn<int>::proxy &self, int i) -> int & {
+  .def("__getitem__", [](votess::dnn<int>::proxy &self, int i) -> int {
+    if (i < 0 || static_cast<size_t>(i) >= self.size()) {
+      throw pybind11::index_error("neighbor index out of range");
+    }
     return self[i];
-  }, pybind11::return_value_policy::reference_internal)
+  })
   .def("size", &votess::dnn<int>::proxy::size);
 
 pybind11::class_<votess::dnn<int>>(module, "dnn")
   .def(pybind11::init<>())
-  .def(pybind11::init<std::vector<int>&, std::vector<int>&>())
+  .def(pybind11::init([](std::vector<int>& list, std::vector<int>& offs) {
+    if (!std::is_sorted(offs.begin(), offs.end()) || (!offs.empty() &&
+        (offs.front() != 0 || static_cast<size_t>(offs.back()) != list.size()))) {
+      throw std::invalid_argument("offsets do not describe the list");
+    }
+    return votess::dnn<int>(list, offs);
+  }))
   .def("size", &votess::dnn<int>::size)
   .def("__getitem__", [](votess::dnn<int> &instance, int i) 
       -> votess::dnn<int>::proxy {
+    if (i < 0 || static_cast<size_t>(i) >= instance.size()) {
+      throw pybind11::index_error("point index out of range");
+    }
     return instance[i];
-  }, pybind11::return_value_policy::reference_internal)
+  }, pybind11::keep_alive<0, 1>())
   .def("print", &votess::dnn<int>::print)
   .def("savetxt", &votess::dnn<int>::savetxt);
 
-- 
2.43.0


From aafdc2829ad6b8030e41080fd2ef4558497a6140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:53 +0000
Subject: [PATCH 10/20] fix: parameters can be read back from Python

vtargs.__getitem__ returned a type Python does not know, so that every
read raised TypeError.
---
 src/pybind11/pyvotess.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pybind11/pyvotess.cpp b/src/pybind11/pyvotess.cpp
index 86c1bd0..6523331 100644
--- a/src/pybind11/pyvotess.cpp
+++ b/src/pybind11/pyvotess.cpp
@@ -29,10 +29,15 @@ pybind11::enum_<votess::device>(module, "device")
 
 pybind11::class_<votess::vtargs>(module, "vtargs")
   .def(pybind11::init<>())
-  .def("__getitem__", [](votess::vtargs &self, const std::string &key) 
-      -> votess::vtargref & {
-    return self[key];
-  }, pybind11::return_value_policy::reference_internal)
+  .def("__getitem__", [](const votess::vtargs &self, const std::string &key) 
+      -> pybind11::object {
+    const pybind11::str value(self[key].get<std::string>());
+    try {
+      return pybind11::int_(value);
+    } catch (const pybind11::error_already_set&) {
+      return value;
+    }
+  })
   .def("__setitem__", [](votess::vtargs &self,
                          const std::string &key,
                          pybind11::object value) {
-- 
2.43.0


From cd7f1d336288501739373ee27e1d425cc7970784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:57 +0000
Subject: [PATCH 11/20] fix: command line options, exit status and error
 reporting

The device given with -x was parsed but not used, --gridres as documented
was not accepted, values that are not numbers were read as 0, unknown
options and devices were ignored, --help failed for lack of an input file,
an unreadable file gave an empty result, an empty file or unusable
parameter ended in an uncaught exception, and write errors were ignored.
---
 src/main.cpp | 69 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 48 insertions(+), 21 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 85a3ccb..09e4de6 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -10,6 +10,10 @@
 #include <array>
 #include <functional>
 #include <cstdlib>
+#include <cstring>
+#include <climits>
+#include <cerrno>
+#include <stdexcept>
 
 #include <getopt.h>
 
@@ -63,6 +67,17 @@ static std::string infile = "";
 static int k_init = 0;
 static int grid_resolution = 24;
   
+static int
+parse_int(const char* const value) {
+  char* end = nullptr;
+  errno = 0;
+  const long v = std::strtol(value, &end, 10);
+  if (end == value || *end || errno || v < INT_MIN || v > INT_MAX) {
+    throw std::invalid_argument(std::string("Not an integer: ") + value);
+  }
+  return static_cast<int>(v);
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 /// Main
 ///////////////////////////////////////////////////////////////////////////////
@@ -94,6 +109,7 @@ parse_args(int argc, char* argv[]) {
     {"use-device",        required_argument,  0,  'x'},
     {"k-init",            required_argument,  0,  'k'},
     {"grid-resolution",   required_argument,  0,  'g'},
+    {"gridres",           required_argument,  0,  'g'},
     {"cpu-nthreads",      required_argument,  0,  't'},
     {"gpu-ndsize",        required_argument,  0,  'd'},
     {"chunksize",         required_argument,  0,  'c'},
@@ -111,10 +127,10 @@ parse_args(int argc, char* argv[]) {
     switch (opt) {
       case 'v':
         print_version(argv[0]);
-        break;
+        std::exit(0);
       case 'h':
         print_help(argv[0]);
-        break;
+        std::exit(0);
       case 'i':
         infile = optarg;
         break;
@@ -125,26 +141,27 @@ parse_args(int argc, char* argv[]) {
           std::cerr << "Error: " 
                     << "Unknown device type. Use 'cpu' or 'gpu'." 
                     << std::endl;
+          std::exit(1);
         }
         break;
       case 'k':
-        k_init = std::atoi(optarg);
+        k_init = parse_int(optarg);
         vtargs["k"] = k_init;
         break;
       case 'g':
-        grid_resolution = std::atoi(optarg);
+        grid_resolution = parse_int(optarg);
         vtargs["knn_grid_resolution"] = grid_resolution;
         break;
       case 't':
-        cpu_nthreads = std::atoi(optarg);
+        cpu_nthreads = parse_int(optarg);
         vtargs["cpu_nthreads"] = cpu_nthreads;
         break;
       case 'd':
-        gpu_ndsize = std::atoi(optarg);
+        gpu_ndsize = parse_int(optarg);
         vtargs["gpu_ndsize"] = gpu_ndsize;
         break;
       case 'c':
-        chunksize = std::atoi(optarg);
+        chunksize = parse_int(optarg);
         vtargs["chunksize"] = chunksize;
         break;
       case 'u':
@@ -156,19 +173,19 @@ parse_args(int argc, char* argv[]) {
         vtargs["use_recompute"] = use_recompute;
         break;
       case 'p':
-        cc_p_maxsize = std::atoi(optarg);
+        cc_p_maxsize = parse_int(optarg);
         vtargs["cc_p_maxsize"] = cc_p_maxsize;
         break;
       case 'm':
-        cc_t_maxsize = std::atoi(optarg);
+        cc_t_maxsize = parse_int(optarg);
         vtargs["cc_t_maxsize"] = cc_t_maxsize;
         break;
       case '?':
         std::cerr << "Unknown option" << std::endl;
-        break;
+        std::exit(1);
       default:
         std::cerr << "Usage error" << std::endl;
-        break;
+        std::exit(1);
     }
   }
 
@@ -176,12 +193,8 @@ parse_args(int argc, char* argv[]) {
 
 }
 
-int 
-main(int argc, char* argv[]) {
-
-  if (argc == 0) {
-    print_usage(argv[0]);
-  }
+static int 
+run(int argc, char* argv[]) {
 
   auto [infile, vtargs, device] = parse_args(argc, argv); 
 
@@ -214,19 +227,33 @@ main(int argc, char* argv[]) {
     xyzset.push_back(point);
 
   }
+
+  if (file.bad()) {
+    std::cerr << "Error: Could not read file: " << infile << std::endl;
+    return 1;
+  }
   
   if (vtargs["k"].get<int>() == 0) {
 
-    vtargs["k"] = xyzset.size() < default_k_init ? 
-                  xyzset.size() : default_k_init;
+    vtargs["k"] = default_k_init;
 
   }
 
-  auto dnn = votess::tesellate<int, float>(xyzset, vtargs);
+  auto dnn = votess::tesellate<int, float>(xyzset, vtargs, device);
 
   dnn.print();
 
-  return 0;
+  return std::cout.flush() ? 0 : 1;
+}
+
+int 
+main(int argc, char* argv[]) {
+  try {
+    return run(argc, argv);
+  } catch (const std::exception& e) {
+    std::cerr << "Error: " << e.what() << std::endl;
+    return 1;
+  }
 }
 
 #else
-- 
2.43.0


From 50d1463c2b050353ebbe93dc0317e00d31ad7dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:05 +0000
Subject: [PATCH 12/20] fix: fall back to the CPU when no SYCL platform is
 usable

Without any platform the device query throws instead of returning an empty
list, and asking for the GPU failed instead of falling back.
---
 src/votess.ipp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 5e3596d..e9185dd 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -700,8 +700,12 @@ __cpu__recompute(
 ///////////////////////////////////////////////////////////////////////////////
 
 static bool device_found(void) {
-  return sycl::device::get_devices(sycl::info::device_type::gpu).empty() ? 
-         false : true;
+  try {
+    return sycl::device::get_devices(sycl::info::device_type::gpu).empty() ? 
+           false : true;
+  } catch (const sycl::exception&) {
+    return false; // no usable SYCL platform at all
+  }
 }
 
 // Refuses parameters that no tesellation can be computed with, and limits the
-- 
2.43.0


From be3bb6d3a5273e3900061386252174bdafb1a8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:38 +0000
Subject: [PATCH 13/20] fix: GPU runs with chunking, other work group sizes and
 large grids

Chunked runs addressed the points with the chunk size as stride and gave
unrelated rows, cell states were never initialised on the device, work
group sizes not dividing the number of points were rejected by the
runtime, grid resolutions above 255 were truncated to 8 bits, and an empty
set or chunk launched an empty kernel.
---
 src/cc.ipp     | 40 ++++++++++++++++++++--------------------
 src/knn.ipp    | 30 +++++++++++++++---------------
 src/votess.ipp | 25 ++++++++++++++++++++-----
 3 files changed, 55 insertions(+), 40 deletions(-)

diff --git a/src/cc.ipp b/src/cc.ipp
index 8a68dab..d03f5c0 100644
--- a/src/cc.ipp
+++ b/src/cc.ipp
@@ -501,10 +501,10 @@ void cci::compute(
   const Tf pz = refset[refsize * 2 + index];
   
   for (Ti j = 0; j < p_initsize; j++) {
-    P[4 * refsize * j + refsize * 0 + i] = p_init[4 * j + 0];
-    P[4 * refsize * j + refsize * 1 + i] = p_init[4 * j + 1];
-    P[4 * refsize * j + refsize * 2 + i] = p_init[4 * j + 2];
-    P[4 * refsize * j + refsize * 3 + i] = p_init[4 * j + 3];
+    P[4 * koffs * j + koffs * 0 + i] = p_init[4 * j + 0];
+    P[4 * koffs * j + koffs * 1 + i] = p_init[4 * j + 1];
+    P[4 * koffs * j + koffs * 2 + i] = p_init[4 * j + 2];
+    P[4 * koffs * j + koffs * 3 + i] = p_init[4 * j + 3];
   }
 
   for (Ti j = 0; j < t_initsize; j++) {
@@ -534,20 +534,20 @@ void cci::compute(
       const Tu& t1 = T[3 * t_maxsize * i + t_index * 3 + 1];
       const Tu& t2 = T[3 * t_maxsize * i + t_index * 3 + 2];
   
-      const Tf& plane_00 = P[4 * refsize * t0 + refsize * 0 + i];
-      const Tf& plane_01 = P[4 * refsize * t0 + refsize * 1 + i];
-      const Tf& plane_02 = P[4 * refsize * t0 + refsize * 2 + i];
-      const Tf& plane_03 = P[4 * refsize * t0 + refsize * 3 + i];
+      const Tf& plane_00 = P[4 * koffs * t0 + koffs * 0 + i];
+      const Tf& plane_01 = P[4 * koffs * t0 + koffs * 1 + i];
+      const Tf& plane_02 = P[4 * koffs * t0 + koffs * 2 + i];
+      const Tf& plane_03 = P[4 * koffs * t0 + koffs * 3 + i];
 
-      const Tf& plane_10 = P[4 * refsize * t1 + refsize * 0 + i];
-      const Tf& plane_11 = P[4 * refsize * t1 + refsize * 1 + i];
-      const Tf& plane_12 = P[4 * refsize * t1 + refsize * 2 + i];
-      const Tf& plane_13 = P[4 * refsize * t1 + refsize * 3 + i];
+      const Tf& plane_10 = P[4 * koffs * t1 + koffs * 0 + i];
+      const Tf& plane_11 = P[4 * koffs * t1 + koffs * 1 + i];
+      const Tf& plane_12 = P[4 * koffs * t1 + koffs * 2 + i];
+      const Tf& plane_13 = P[4 * koffs * t1 + koffs * 3 + i];
 
-      const Tf& plane_20 = P[4 * refsize * t2 + refsize * 0 + i];
-      const Tf& plane_21 = P[4 * refsize * t2 + refsize * 1 + i];
-      const Tf& plane_22 = P[4 * refsize * t2 + refsize * 2 + i];
-      const Tf& plane_23 = P[4 * refsize * t2 + refsize * 3 + i];
+      const Tf& plane_20 = P[4 * koffs * t2 + koffs * 0 + i];
+      const Tf& plane_21 = P[4 * koffs * t2 + koffs * 1 + i];
+      const Tf& plane_22 = P[4 * koffs * t2 + koffs * 2 + i];
+      const Tf& plane_23 = P[4 * koffs * t2 + koffs * 3 + i];
   
       // TODO : implement exception handling
       planes::intersect<Tf>(
@@ -593,10 +593,10 @@ void cci::compute(
         return;
       }
 
-      P[4 * refsize * p_size + refsize * 0 + i] = bisector[0];
-      P[4 * refsize * p_size + refsize * 1 + i] = bisector[1];
-      P[4 * refsize * p_size + refsize * 2 + i] = bisector[2];
-      P[4 * refsize * p_size + refsize * 3 + i] = bisector[3];
+      P[4 * koffs * p_size + koffs * 0 + i] = bisector[0];
+      P[4 * koffs * p_size + koffs * 1 + i] = bisector[1];
+      P[4 * koffs * p_size + koffs * 2 + i] = bisector[2];
+      P[4 * koffs * p_size + koffs * 3 + i] = bisector[3];
       dknn[koffs * neighbor + i] = p_size;
       p_size += 1;
   
diff --git a/src/knn.ipp b/src/knn.ipp
index a8aea32..625c009 100644
--- a/src/knn.ipp
+++ b/src/knn.ipp
@@ -246,13 +246,13 @@ void knni::compute(
   const Tf q1 = refset[refsize * 1 + index];
   const Tf q2 = refset[refsize * 2 + index];
 
-  const uint16_t k = args.k;
-  const uint8_t gr = args.grid_resolution;
+  const int k = args.k;
+  const int gr = args.grid_resolution;
   const Tf gl = 1.0f / args.grid_resolution;
 
-  const uint16_t px = (id[index]) % gr;
-  const uint16_t py = (id[index]  / gr) % gr;
-  const uint16_t pz = (id[index]) / (gr * gr);
+  const int px = (id[index]) % gr;
+  const int py = (id[index]  / gr) % gr;
+  const int pz = (id[index]) / (gr * gr);
   
   const Tf gl2 = gl / 2;
   const Tf dx = sycl::fmod(q0, gl);
@@ -263,19 +263,19 @@ void knni::compute(
   const Tf min_dz = dz * (dz <= gl2) + (gl - dz) * (dz > gl2);
   const Tf min = utils::bmin(min_dx, min_dy, min_dz);
 
-  for (uint8_t r = 0; r < gr; r++) {
+  for (int r = 0; r < gr; r++) {
 
-    const uint16_t beg_z = utils::bmax(pz - r, 0);
-    const uint16_t beg_y = utils::bmax(py - r, 0);
-    const uint16_t beg_x = utils::bmax(px - r, 0);
+    const int beg_z = utils::bmax(pz - r, 0);
+    const int beg_y = utils::bmax(py - r, 0);
+    const int beg_x = utils::bmax(px - r, 0);
 
-    const uint16_t end_z = utils::bmin(pz + r, gr - 1);
-    const uint16_t end_y = utils::bmin(py + r, gr - 1);
-    const uint16_t end_x = utils::bmin(px + r, gr - 1);
+    const int end_z = utils::bmin(pz + r, gr - 1);
+    const int end_y = utils::bmin(py + r, gr - 1);
+    const int end_x = utils::bmin(px + r, gr - 1);
     
-    for (uint16_t z = beg_z; z <= end_z; z++) {
-    for (uint16_t y = beg_y; y <= end_y; y++) {
-    for (uint16_t x = beg_x; x <= end_x; x++) {
+    for (int z = beg_z; z <= end_z; z++) {
+    for (int y = beg_y; y <= end_y; y++) {
+    for (int x = beg_x; x <= end_x; x++) {
 
       if (is_inshell(x, y, z, px, py, pz, r)) {
         continue; 
diff --git a/src/votess.ipp b/src/votess.ipp
index e9185dd..7d2bc2f 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -257,6 +257,14 @@ __gpu__tesellate(
                (chunksize < refsize) ? 
                chunksize : refsize;
 
+  if (refsize == 0) return;
+
+  // the kernels compute their offsets in Ti
+  if (static_cast<size_t>(subsize) * std::max({k, 4 * p_maxsize, 3 * t_maxsize})
+      > static_cast<size_t>(std::numeric_limits<Ti>::max())) {
+    throw std::overflow_error("votess: Ti cannot index the device buffers");
+  }
+
   std::vector<Tf> xyzset(3 * xyzsize);
   for (int i = 0; i < xyzsize; i++) {
     xyzset[xyzsize * 0 + i] = _xyzset[i][0];
@@ -280,7 +288,7 @@ __gpu__tesellate(
   sycl::buffer<Ti,1> bheap_id(sycl::range<1>(subsize * k));
   sycl::buffer<Tf,1> bheap_pq(sycl::range<1>(subsize * k));
 
-  sycl::buffer<cc::state,1> bstates((sycl::range<1>(xyzsize)));
+  sycl::buffer<cc::state,1> bstates(states.begin(), states.end());
   sycl::buffer<Ti,1>      bdknn(sycl::range<1>(subsize * k));
   sycl::buffer<Tf,1>      bP(sycl::range<1>(subsize * p_maxsize * 4));
   sycl::buffer<Tu,1> bT(sycl::range<1>(subsize * t_maxsize * 3));
@@ -293,6 +301,11 @@ __gpu__tesellate(
     const size_t _cend = (run == nruns - 1) ? refsize : _cstart + chunksize;
     subsize = _cend - _cstart;
 
+    if (subsize == 0) break;
+
+    // a whole number of work groups; the surplus items do nothing
+    const size_t globalsize = (subsize + ndsize - 1) / ndsize * ndsize;
+
     queue.submit([&](sycl::handler& cgh) {
       auto a = sycl::accessor(bheap_id, cgh, sycl::write_only, sycl::no_init);
       cgh.parallel_for<class fill_heap_id>
@@ -346,7 +359,7 @@ __gpu__tesellate(
 
       auto aP  = sycl::accessor(bP,  cgh, read_write, property::no_init());
       auto aT  = sycl::accessor(bT,  cgh, read_write, property::no_init());
-      auto astates = accessor(bstates, cgh, read_write, property::no_init());
+      auto astates = accessor(bstates, cgh, read_write);
 
       sycl::local_accessor<Tu, 1> 
       ldR(sycl::range<1>(ndsize * p_maxsize), cgh);
@@ -355,16 +368,18 @@ __gpu__tesellate(
       auto aargs_cc = args_cc;
 
       cgh.parallel_for<class __sycl__tessellate>
-      (sycl::nd_range<1>(sycl::range<1>(subsize), sycl::range<1>(ndsize)),
+      (sycl::nd_range<1>(sycl::range<1>(globalsize), sycl::range<1>(ndsize)),
       [=](sycl::nd_item<1> it) {
 
         const size_t g_index = it.get_global_linear_id();
         const size_t l_index = it.get_local_linear_id();
 
+        if (g_index >= static_cast<size_t>(subsize)) return;
+
         knni::compute<Ti, Tf>(
           g_index, aindices[g_index],
           axyzset, xyzsize, aid, aoffset,
-          axyzset, subsize,
+          axyzset, xyzsize,
           aheap_id, aheap_pq, subsize,
           aargs_knn
         );
@@ -377,7 +392,7 @@ __gpu__tesellate(
           aheap_id, subsize,
           adknn,
           axyzset, xyzsize,
-          axyzset, subsize,
+          axyzset, xyzsize,
           aargs_cc
         );
         #endif
-- 
2.43.0


From 98d5d37642d6df92288ee134a882a01a759e373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:31 +0000
Subject: [PATCH 14/20] fix: refuse parameter values that only start like the
 type asked for

A value was converted from its leading characters: a chunksize of 1e6,
stored as "1e+06", was silently used as 1, and 12abc as 12.
---
 include/arguments.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arguments.hpp b/include/arguments.hpp
index a4e86fd..ad3d251 100644
--- a/include/arguments.hpp
+++ b/include/arguments.hpp
@@ -89,7 +89,7 @@ class vtargref {
       std::istringstream iss(s); 
       T v;
       iss >> v;
-      if (iss.fail()) {
+      if (iss.fail() || !(iss >> std::ws).eof()) {
         throw std::invalid_argument("Invalid type conversion");
       }
       return v;
-- 
2.43.0


From c1efd04b9b85bafb3c76587ec9f9b3d25ff2380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:18 +0000
Subject: [PATCH 15/20] fix: capacities beyond what a narrow index type can
 number

---
 src/votess.ipp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 7d2bc2f..4339294 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -143,6 +143,20 @@ struct join_guard {
   }
 };
 
+// Planes are numbered with 8 bits, and a cell with p planes has at most 2p - 4
+// vertices. Ti must be able to number both.
+template <typename Ti>
+static int get_p_limit(void) {
+  return std::min<int64_t>(boundary::bstatus::undefined, 
+                           std::numeric_limits<Ti>::max());
+}
+
+template <typename Ti>
+static int get_t_limit(void) {
+  return std::min<int64_t>(2 * boundary::bstatus::undefined, 
+                           std::numeric_limits<Ti>::max());
+}
+
 // NOTE: This is the source of continuosly increasing memory for long runs
 template <typename Ti>
 static void 
@@ -593,10 +607,8 @@ __cpu__recompute(
   int p_maxsize = args["cc_p_maxsize"];
   int t_maxsize = args["cc_t_maxsize"];
 
-  // planes are numbered with 8 bits, and a cell with p planes has at most
-  // 2p - 4 vertices
-  const int p_limit = boundary::bstatus::undefined;
-  const int t_limit = 2 * p_limit;
+  const int p_limit = get_p_limit<Ti>();
+  const int t_limit = get_t_limit<Ti>();
 
   std::vector<Ti> heap_id(static_cast<size_t>(subsize) * k, 0);
   std::vector<Tf> heap_pq(static_cast<size_t>(subsize) * k, 
@@ -757,12 +769,9 @@ prepare_args(class vtargs& args, const size_t size) {
     throw std::invalid_argument("votess: cc_t_maxsize must be at least 8");
   }
 
-  // planes are numbered with 8 bits, and a cell with p planes has at most
-  // 2p - 4 vertices
-  const int p_limit = boundary::bstatus::undefined;
   args["k"] = static_cast<int>(std::min<size_t>(k, size > 2 ? size - 1 : 1));
-  args["cc_p_maxsize"] = std::min(p_maxsize, p_limit);
-  args["cc_t_maxsize"] = std::min(t_maxsize, 2 * p_limit);
+  args["cc_p_maxsize"] = std::min(p_maxsize, get_p_limit<Ti>());
+  args["cc_t_maxsize"] = std::min(t_maxsize, get_t_limit<Ti>());
 
 }
 
-- 
2.43.0


From 5dc417c2938fb90de5ca5225791ec55867693fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:30 +0000
Subject: [PATCH 16/20] fix: refuse unusable thread counts and unreadable
 options before any work

A negative cpu_nthreads, and chunk or device options that cannot be
converted, were only noticed after the caller's points had been reordered.
---
 src/votess.ipp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/votess.ipp b/src/votess.ipp
index 4339294..cac1584 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -769,6 +769,16 @@ prepare_args(class vtargs& args, const size_t size) {
     throw std::invalid_argument("votess: cc_t_maxsize must be at least 8");
   }
 
+  if (args["cpu_nthreads"].get<int>() < 0) {
+    throw std::invalid_argument("votess: cpu_nthreads must not be negative");
+  }
+
+  // read later on: values that cannot be converted are refused already here
+  args["gpu_ndsize"].get<int>();
+  args["chunksize"].get<int>();
+  args["use_chunking"].get<bool>();
+  args["use_recompute"].get<bool>();
+
   args["k"] = static_cast<int>(std::min<size_t>(k, size > 2 ? size - 1 : 1));
   args["cc_p_maxsize"] = std::min(p_maxsize, get_p_limit<Ti>());
   args["cc_t_maxsize"] = std::min(t_maxsize, get_t_limit<Ti>());
-- 
2.43.0


From f519ee76a764e37c16d86ad5372bb4319801ddc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:27 +0000
Subject: [PATCH 17/20] fix: divide the last chunk by its own size, not by that
 of the chunk before

The workers of a shorter (or empty) last chunk were given ranges computed from
the size of the previous chunk, so that cells of that chunk were computed again
and the last chunk itself was left to the first worker.
---
 src/votess.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index cac1584..2c46c32 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -501,12 +501,12 @@ __cpu__tesellate(
     std::fill(heap_pq.begin(), heap_pq.end(), 
               std::numeric_limits<Tf>::infinity());
 
-    const size_t threadsize  = subsize / nthreads;
-
     const size_t _cstart = run * chunksize;
     const size_t _cend = (run == nruns - 1) ? refsize : _cstart + chunksize;
     subsize = _cend - _cstart;
 
+    const size_t threadsize  = subsize / nthreads;
+
     for (Ti i = 0; i < subsize; i++) {
       indices[i] = _cstart + i;
     }
-- 
2.43.0


From c7bce4b6b11fa4ee86f742dbfe2051f52855aecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:27 +0000
Subject: [PATCH 18/20] fix: print and save 8 bit indices as numbers, not as
 characters

---
 src/dnn.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dnn.ipp b/src/dnn.ipp
index 1524d6a..fb9cb48 100644
--- a/src/dnn.ipp
+++ b/src/dnn.ipp
@@ -96,7 +96,7 @@ void votess::dnn<Ti>::print() const {
       std::cout << "}\n  {";
     }
 
-    std::cout<<std::setw(1)<<i<<", ";
+    std::cout<<std::setw(1)<<+i<<", ";
     index += 1;
   }
   for (; counter < this->size(); counter++) std::cout << "}\n  {";
@@ -119,7 +119,7 @@ void votess::dnn<Ti>::savetxt(const std::string& fname) const {
       counter += 1;
       fp<<"\n";
     }
-    fp<<std::setw(1)<<i<<" ";
+    fp<<std::setw(1)<<+i<<" ";
     index += 1;
   }
   for (; counter <= this->size(); counter++) fp<<"\n";
-- 
2.43.0


From adff1a6b6fa162ad3fa91983c038476a1ada0c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:56 +0000
Subject: [PATCH 19/20] fix: parameters and saved files no longer depend on the
 global locale

---
 include/arguments.hpp | 3 +++
 src/dnn.ipp           | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/include/arguments.hpp b/include/arguments.hpp
index ad3d251..c41e475 100644
--- a/include/arguments.hpp
+++ b/include/arguments.hpp
@@ -44,6 +44,7 @@
 #include <string>
 #include <unordered_map>
 #include <sstream>
+#include <locale>
 #include <stdexcept>
 
 #include <initializer_list>
@@ -80,6 +81,7 @@ class vtargref {
     template <typename T>
     std::string to_str(const T v) const {
       std::ostringstream oss;
+      oss.imbue(std::locale::classic());
       oss << v;
       return oss.str();
     }
@@ -87,6 +89,7 @@ class vtargref {
     template <typename T>
     T from_str(const std::string& s) const {
       std::istringstream iss(s); 
+      iss.imbue(std::locale::classic());
       T v;
       iss >> v;
       if (iss.fail() || !(iss >> std::ws).eof()) {
diff --git a/src/dnn.ipp b/src/dnn.ipp
index fb9cb48..4687a79 100644
--- a/src/dnn.ipp
+++ b/src/dnn.ipp
@@ -1,6 +1,7 @@
 #include <iostream>
 #include <iomanip>
 #include <fstream>
+#include <locale>
 #include <vector>
 #include <type_traits>
 
@@ -111,6 +112,7 @@ void votess::dnn<Ti>::savetxt(const std::string& fname) const {
     std::cerr<<"Failed to open file: "<<fname<<std::endl;
     return;
   }
+  fp.imbue(std::locale::classic());
 
   Ti index = 0;
   size_t counter = 1;
-- 
2.43.0


From 8501011bc145f5416a59ba64024574241c008074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:08 +0000
Subject: [PATCH 20/20] fix: let the candidate search stop by a radius of the
 coordinates' precision

For double precision coordinates the reach of the searched shells was
rounded to single precision, so that the search could stop before a point
nearer than the last candidate had been looked at.
---
 src/knn.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/knn.ipp b/src/knn.ipp
index 625c009..2edfc71 100644
--- a/src/knn.ipp
+++ b/src/knn.ipp
@@ -48,7 +48,7 @@ void knni::compute(
 
   const auto k = args.k;
   const auto gr = args.grid_resolution;
-  const auto gl = 1.0f / args.grid_resolution;
+  const Tf gl = 1.0f / args.grid_resolution;
 
   const size_t h0 = k * i;
 
@@ -152,7 +152,7 @@ void knni::compute(
 
   const auto k = args.k;
   const auto gr = args.grid_resolution;
-  const auto gl = 1.0f / args.grid_resolution;
+  const Tf gl = 1.0f / args.grid_resolution;
 
   const Ti h0 = k * i;
 
-- 
2.43.0

