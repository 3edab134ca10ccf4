From bf3559245eb34c86689190d5ac96127706b4bb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 01/10] fix: read the tasks_generated flag only while holding
 its mutex

HyperbolicTree::generate tested the plain bool without the lock while the
task-generating thread stores to it: a data race.
---
 source/hypergirgs/include/hypergirgs/HyperbolicTree.inl | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index ebd2770..89fbbb0 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -124,10 +124,8 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
             visitCellPairSample(0, 0, 0, first_parallel_level, num_threads - 1, tid, gens[tid]);
 
             // wait until tasks are ready
-            if (!tasks_generated) {
-                std::unique_lock<std::mutex> lock(mutex);
-                cv.wait(lock, [&] {return tasks_generated;});
-            }
+            std::unique_lock<std::mutex> lock(mutex);
+            cv.wait(lock, [&] {return tasks_generated;});
         }
 
     // 2. Phase
-- 
2.43.0


From 05231c057c00f0b7b3b132fba33dbe720ae7b62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 02/10] fix: HyperbolicTree::generate must not wait for tasks
 nobody announces

The task list was only published if the recursion reaches the first parallel
level and if the OpenMP team has exactly omp_get_max_threads() members.
Otherwise (small graphs, OMP_THREAD_LIMIT, nested regions) all other threads
waited forever. Let the last thread of the actual team publish it in any case
and distribute the shares of missing threads over the team.
---
 .../include/hypergirgs/HyperbolicTree.inl           | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index 89fbbb0..7606a9a 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -96,10 +96,11 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
     {
 
         const auto tid = omp_get_thread_num();
+        const auto team_size = omp_get_num_threads(); // may be less than num_threads
 
     // 1. Phase
         // one thread will generate the task list
-        if (tid + 1 == num_threads && first_parallel_level < m_levels) {
+        if (tid + 1 == team_size && first_parallel_level < m_levels) {
             ScopedTimer timer("Gen Tasks", m_profile);
             tasks.reserve(num_tasks);
 
@@ -110,8 +111,10 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
                 return t.cellA == t.cellB;});
 
             assert(num_tasks == tasks.size());
+        }
 
-            // inform consumers that tasks are ready
+        if (tid + 1 == team_size) {
+            // inform consumers that tasks are ready (even if there are none)
             {
                 std::lock_guard<std::mutex> lock(mutex);
                 tasks_generated = true;
@@ -120,9 +123,11 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
         }
 
         // all others will sample the cells in the first levels of the recursion tree
-        if (tid + 1 < num_threads) {
-            visitCellPairSample(0, 0, 0, first_parallel_level, num_threads - 1, tid, gens[tid]);
+        // (the last thread only takes part if the team is smaller than num_threads)
+        for (int share = tid; share < num_threads - 1; share += team_size)
+            visitCellPairSample(0, 0, 0, first_parallel_level, num_threads - 1, share, gens[share]);
 
+        {
             // wait until tasks are ready
             std::unique_lock<std::mutex> lock(mutex);
             cv.wait(lock, [&] {return tasks_generated;});
-- 
2.43.0


From c294254245940b4ecbbfaf39992fa42dd34c9bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 03/10] fix: reject NaN in the parameter range checks of the
 CLIs

Every comparison with NaN is false, so "-alpha nan" and the like passed the
check and crashed in the generator.
---
 source/cli/gengirg/main.cpp | 2 +-
 source/cli/genhrg/main.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cli/gengirg/main.cpp b/source/cli/gengirg/main.cpp
index 8dfc6b9..299649e 100644
--- a/source/cli/gengirg/main.cpp
+++ b/source/cli/gengirg/main.cpp
@@ -40,7 +40,7 @@ void logParam(T value, const string& name) {
 
 template<typename T>
 void rangeCheck(T value, T min, T max, string name, bool lex = false, bool hex = false) {
-    if (value < min || value > max || (value == min && lex) || (value == max && hex)) {
+    if (!(value >= min && value <= max) || (value == min && lex) || (value == max && hex)) {
         cerr << "ERROR: parameter " << name << " = " << value << " is not in range "
             << (lex ? "(" : "[") << min << "," << max << (hex ? ")" : "]") << '\n';
         exit(1);
diff --git a/source/cli/genhrg/main.cpp b/source/cli/genhrg/main.cpp
index d0eedcb..c0b2628 100644
--- a/source/cli/genhrg/main.cpp
+++ b/source/cli/genhrg/main.cpp
@@ -39,7 +39,7 @@ void logParam(T value, const string& name) {
 
 template<typename T>
 void rangeCheck(T value, T min, T max, string name, bool lex = false, bool hex = false) {
-    if (value < min || value > max || (value == min && lex) || (value == max && hex)) {
+    if (!(value >= min && value <= max) || (value == min && lex) || (value == max && hex)) {
         cerr << "ERROR: parameter " << name << " = " << value << " is not in range "
             << (lex ? "(" : "[") << min << "," << max << (hex ? ")" : "]") << '\n';
         exit(1);
-- 
2.43.0


From bc4b892b8d30dd144684eb920258f4078b8ae9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 04/10] fix: genhrg must not accept alpha=0.5

The radius estimate divides by alpha-0.5, so R is infinite and genhrg crashes.
---
 README.md                  | 2 +-
 source/cli/genhrg/main.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/README.md b/README.md
index 5bc9c6b..29ce914 100644
--- a/README.md
+++ b/README.md
@@ -107,7 +107,7 @@ The HRG generator features the following input parameters.
 ./genhrg --help
 usage: ./genhrg
 		[-n anInt]          // number of nodes                          default 10000
-		[-alpha aFloat]     // model parameter          range [0.5,1]   default 0.75
+		[-alpha aFloat]     // model parameter          range (0.5,1]   default 0.75
 		[-t aFloat]         // temperature parameter    range [0,1)     default 0
 		[-deg aFloat]       // average degree           range [1,n)     default 10
 		[-rseed anInt]      // radii seed                               default 12
diff --git a/source/cli/genhrg/main.cpp b/source/cli/genhrg/main.cpp
index c0b2628..f698a69 100644
--- a/source/cli/genhrg/main.cpp
+++ b/source/cli/genhrg/main.cpp
@@ -55,7 +55,7 @@ int main(int argc, char* argv[]) {
     if (argc < 2 || 0 == strcmp(argv[1], "--help") || 0 == strcmp(argv[1], "-help")) {
         clog << "usage: ./genhrg\n"
             << "\t\t[-n anInt]          // number of nodes                          default 10000\n"
-            << "\t\t[-alpha aFloat]     // model parameter          range [0.5,1]   default 0.75\n"
+            << "\t\t[-alpha aFloat]     // model parameter          range (0.5,1]   default 0.75\n"
             << "\t\t[-t aFloat]         // temperature parameter    range [0,1)     default 0\n"
             << "\t\t[-deg aFloat]       // average degree           range [1,n)     default 10\n"
             << "\t\t[-rseed anInt]      // radii seed                               default 12\n"
@@ -98,7 +98,7 @@ int main(int argc, char* argv[]) {
     // log params and range checks
     cout << "using:\n";
     logParam(n, "n");
-    rangeCheck(alpha, 0.5, 1.0, "alpha");
+    rangeCheck(alpha, 0.5, 1.0, "alpha", true);
     rangeCheck(T, 0.0, 1.0, "t", false, true);
     rangeCheck(deg, 1.0, n-1.0, "deg");
     logParam(rseed, "rseed");
-- 
2.43.0


From 3529600b5e3d3b0426a54279af9e6ec861d89dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 05/10] fix: clamp the distances of the DistanceFilter at 0

For small R/T the inverse connection probability is negative for stages
close to 1. As cosh is even, the filter then connected pairs that must
be rejected (e.g. genhrg -n 1000 -deg 999 -t 0.5).
---
 source/hypergirgs/include/hypergirgs/DistanceFilter.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/hypergirgs/include/hypergirgs/DistanceFilter.h b/source/hypergirgs/include/hypergirgs/DistanceFilter.h
index b0e830b..30215e5 100644
--- a/source/hypergirgs/include/hypergirgs/DistanceFilter.h
+++ b/source/hypergirgs/include/hypergirgs/DistanceFilter.h
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <algorithm>
 #include <array>
+#include <cassert>
 #include <cmath>
 #include <limits>
 
@@ -62,7 +64,8 @@ private:
     /// inverse of the edge probability function
     /// invConnectionProb(p_uv) = dist_uv
     double invConnectionProb(double p, double R, double T) const {
-        return R + 2*T*std::log(1.0 / p - 1);
+        // p may exceed the probability at distance 0 (cosh would turn a negative distance into a positive one)
+        return std::max(0.0, R + 2*T*std::log(1.0 / p - 1));
     }
 
     std::array<double, stages+1> filter_stages; ///< pos i holds the cosh(distance) at which to points would have a connection prob of (i/stages)
-- 
2.43.0


From c1e2920e5bc4962864cab7e5aef0e7444786bd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 06/10] fix: handle empty graphs in the generators

sampleRadii/sampleAngles divided by zero and generateEdges accessed the first
element of empty vectors.
---
 source/girgs/source/Generator.cpp      | 3 +++
 source/hypergirgs/source/Generator.cpp | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/girgs/source/Generator.cpp b/source/girgs/source/Generator.cpp
index f0bc66c..d7e3433 100644
--- a/source/girgs/source/Generator.cpp
+++ b/source/girgs/source/Generator.cpp
@@ -75,6 +75,9 @@ std::vector<std::pair<int, int>> generateEdges(const std::vector<double> &weight
     using edge_vector = std::vector<std::pair<int, int>>;
     edge_vector result;
 
+    if (weights.empty())
+        return result;
+
     std::vector<std::pair<
             edge_vector,
             uint64_t[31] /* avoid false sharing */
diff --git a/source/hypergirgs/source/Generator.cpp b/source/hypergirgs/source/Generator.cpp
index ddf488d..1305360 100644
--- a/source/hypergirgs/source/Generator.cpp
+++ b/source/hypergirgs/source/Generator.cpp
@@ -89,7 +89,7 @@ static std::pair<std::vector<double>, std::vector<double>> sampleRadiiAndAnglesH
     std::vector<double> angles(n * Angles);
 
     constexpr auto kMinChunkSize = 10000;
-    const auto threads = parallel ? std::min<int>(omp_get_max_threads(), (n + kMinChunkSize - 1) / kMinChunkSize) : 1;
+    const auto threads = parallel ? std::max(1, std::min<int>(omp_get_max_threads(), (n + kMinChunkSize - 1) / kMinChunkSize)) : 1;
 
     const auto invalpha = 1.0 / alpha;
     #pragma omp parallel num_threads(threads)
@@ -135,6 +135,9 @@ std::vector<std::pair<int, int> > generateEdges(std::vector<double>& radii, std:
     using edge_vector = std::vector<std::pair<int, int>>;
     edge_vector result;
 
+    if (radii.empty())
+        return result;
+
     std::vector<std::pair<
             edge_vector,
             uint64_t[31] /* avoid false sharing */
-- 
2.43.0


From a806586c5fe53ddc6290d8e13e24207cf32c0f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 07/10] fix: gap repair must not read the first element of the
 next thread's chunk (data race)

---
 source/girgs/include/girgs/SpatialTree.inl | 3 ++-
 source/hypergirgs/source/RadiusLayer.cpp   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/girgs/include/girgs/SpatialTree.inl b/source/girgs/include/girgs/SpatialTree.inl
index 90579ce..08d97d3 100644
--- a/source/girgs/include/girgs/SpatialTree.inl
+++ b/source/girgs/include/girgs/SpatialTree.inl
@@ -432,7 +432,8 @@ std::vector<WeightLayer<D>> SpatialTree<D, EdgeCallback>::buildPartition(const s
 
             const auto begin = std::min(max_cell_id, chunk_size * rank);
 
-            auto i = std::min(max_cell_id, begin + chunk_size);
+            // the last element of the chunk is already fixed; looking at its successor would race with the next thread
+            auto i = std::max(begin + 1, std::min(max_cell_id, begin + chunk_size)) - 1;
             while (i-- > begin) {
                 m_first_in_cell[i] = std::min(
                     m_first_in_cell[i],
diff --git a/source/hypergirgs/source/RadiusLayer.cpp b/source/hypergirgs/source/RadiusLayer.cpp
index c2eb30c..3eb37ec 100644
--- a/source/hypergirgs/source/RadiusLayer.cpp
+++ b/source/hypergirgs/source/RadiusLayer.cpp
@@ -155,7 +155,8 @@ std::vector<RadiusLayer> RadiusLayer::buildPartition(const std::vector<double>&
 
             const auto begin = std::min(max_cell_id, chunk_size * rank);
 
-            auto i = std::min(max_cell_id, begin + chunk_size);
+            // the last element of the chunk is already fixed; looking at its successor would race with the next thread
+            auto i = std::max(begin + 1, std::min(max_cell_id, begin + chunk_size)) - 1;
             while (i-- > begin) {
                 first_in_cell[i] = std::min(
                     first_in_cell[i],
-- 
2.43.0


From 5ac5d03c51e93d0bd442774ecfd785275cab5736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:29 +0000
Subject: [PATCH 08/10] fix: the type II bound assertion must allow equality
 (16 vertices of weight 1 abort in debug builds)

---
 source/girgs/include/girgs/SpatialTree.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/girgs/include/girgs/SpatialTree.inl b/source/girgs/include/girgs/SpatialTree.inl
index 08d97d3..1ed17b2 100644
--- a/source/girgs/include/girgs/SpatialTree.inl
+++ b/source/girgs/include/girgs/SpatialTree.inl
@@ -242,7 +242,7 @@ void SpatialTree<D, EdgeCallback>::sampleTypeII(
     const auto cell_distance = CoordinateHelper::dist(cellA, cellB, level);
     const auto dist_lower_bound = pow_to_the<D>(cell_distance);
     const auto max_connection_prob = std::min(std::pow(w_upper_bound/dist_lower_bound, m_alpha), 1.0);
-    assert(dist_lower_bound > w_upper_bound); // in threshold model we would not sample anything
+    assert(dist_lower_bound >= w_upper_bound); // in threshold model we would not sample anything
     const auto num_pairs = sizeV_i_A * sizeV_j_B;
     const auto expected_samples = num_pairs * max_connection_prob;
 
-- 
2.43.0


From 39ff731b4fc9e82030f892b32abbf4a53ebe3aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:40 +0000
Subject: [PATCH 09/10] fix: radii close to 0 were filed outside of the layer
 table if R is a multiple of the layer height

---
 source/hypergirgs/source/RadiusLayer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/hypergirgs/source/RadiusLayer.cpp b/source/hypergirgs/source/RadiusLayer.cpp
index 3eb37ec..bdd2ae0 100644
--- a/source/hypergirgs/source/RadiusLayer.cpp
+++ b/source/hypergirgs/source/RadiusLayer.cpp
@@ -1,6 +1,7 @@
 
 #include <hypergirgs/RadiusLayer.h>
 
+#include <algorithm>
 #include <cassert>
 #include <omp.h>
 
@@ -45,12 +46,17 @@ std::vector<RadiusLayer> RadiusLayer::buildPartition(const std::vector<double>&
     const auto n = radii.size();
 
     // translate radius <-> layer
-    auto radius_to_layer = [R, layer_height] (double radius) {return static_cast<unsigned int>( (R - radius) / layer_height );};
     auto layer_rad_max   = [R, layer_height] (int l) {return R - l * layer_height;};
     auto layer_rad_min   = [R, layer_height] (int l) {return R - l * layer_height - layer_height;};
     const auto r_min_outer = R - layer_height;
     auto num_layers = static_cast<unsigned int>(std::ceil( R / layer_height));
 
+    // radii close to 0 belong to the innermost layer even if R is a multiple of the layer height
+    const auto last_layer = num_layers - 1;
+    auto radius_to_layer = [R, layer_height, last_layer] (double radius) {
+        return std::min(static_cast<unsigned int>( (R - radius) / layer_height ), last_layer);
+    };
+
     // generate look-up to get the level of a layer
     const auto level_of_layer = [&] {
         std::vector<int> level_of_layer(num_layers);
-- 
2.43.0


From b9dbb8eeeedff4a6581639acf922c2c9f7176468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:03 +0000
Subject: [PATCH 10/10] fix: IntSort accepts a key equal to max_key if max_key
 is a power of two

The key width was the number of bits of max_key - 1, so for max_key = 2^k
(k >= 8) an element with the documented largest key went to queue 256 of 256,
outside of the pointer array.
---
 source/girgs/include/girgs/IntSort.h           | 2 +-
 source/hypergirgs/include/hypergirgs/IntSort.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/girgs/include/girgs/IntSort.h b/source/girgs/include/girgs/IntSort.h
index c0df6f0..37a5624 100644
--- a/source/girgs/include/girgs/IntSort.h
+++ b/source/girgs/include/girgs/IntSort.h
@@ -57,7 +57,7 @@ public:
     IntSortImpl(KeyExtract key_extract, const Key max_key) :
         key_extract{key_extract},
         max_key{max_key},
-        max_bits{ilog2(max_key)},
+        max_bits{ilog2(max_key) + !(max_key & (max_key - 1))}, // keys up to and including max_key, also if it is a power of two
         msb_radix_width{std::min(max_bits, RADIX_WIDTH)},
         msb_radix{Key{1} << msb_radix_width},
         msb_shift{max_bits - msb_radix_width},
diff --git a/source/hypergirgs/include/hypergirgs/IntSort.h b/source/hypergirgs/include/hypergirgs/IntSort.h
index c0df6f0..37a5624 100644
--- a/source/hypergirgs/include/hypergirgs/IntSort.h
+++ b/source/hypergirgs/include/hypergirgs/IntSort.h
@@ -57,7 +57,7 @@ public:
     IntSortImpl(KeyExtract key_extract, const Key max_key) :
         key_extract{key_extract},
         max_key{max_key},
-        max_bits{ilog2(max_key)},
+        max_bits{ilog2(max_key) + !(max_key & (max_key - 1))}, // keys up to and including max_key, also if it is a power of two
         msb_radix_width{std::min(max_bits, RADIX_WIDTH)},
         msb_radix{Key{1} << msb_radix_width},
         msb_shift{max_bits - msb_radix_width},
-- 
2.43.0

