From f8e20ff1c0caabe9bf8964a0d9fa90234a073f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:48 +0000
Subject: [PATCH 01/27] fix: distances from the origin return a value instead
 of a dangling reference, and accept unsigned features

---
 include/ffcl/common/math/heuristics/Distances.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ffcl/common/math/heuristics/Distances.hpp b/include/ffcl/common/math/heuristics/Distances.hpp
index 827c173..1413acf 100644
--- a/include/ffcl/common/math/heuristics/Distances.hpp
+++ b/include/ffcl/common/math/heuristics/Distances.hpp
@@ -78,11 +78,11 @@ auto euclidean_distance(const LeftFeaturesIterator&  left_features_range_first,
 template <typename FeaturesIterator>
 auto manhattan_distance_from_origin(const FeaturesIterator& features_range_first,
                                     const FeaturesIterator& features_range_last)
-    -> decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>()) {
+    -> typename std::iterator_traits<FeaturesIterator>::value_type {
     static_assert(std::is_signed<typename std::iterator_traits<FeaturesIterator>::value_type>::value,
                   "Input must be signed.");
 
-    using ResultType = decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>());
+    using ResultType = typename std::iterator_traits<FeaturesIterator>::value_type;
 
     return std::transform_reduce(features_range_first,
                                  features_range_last,
@@ -119,11 +119,11 @@ auto manhattan_distance(const LeftFeaturesIterator&  left_features_range_first,
 template <typename FeaturesIterator>
 auto unsigned_manhattan_distance_from_origin(const FeaturesIterator& features_range_first,
                                              const FeaturesIterator& features_range_last)
-    -> decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>()) {
-    static_assert(std::is_signed<typename std::iterator_traits<FeaturesIterator>::value_type>::value,
-                  "Input must be signed.");
+    -> typename std::iterator_traits<FeaturesIterator>::value_type {
+    static_assert(std::is_unsigned_v<typename std::iterator_traits<FeaturesIterator>::value_type>,
+                  "Input must be unsigned integer.");
 
-    using ResultType = decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>());
+    using ResultType = typename std::iterator_traits<FeaturesIterator>::value_type;
 
     return std::transform_reduce(features_range_first,
                                  features_range_last,
-- 
2.43.0


From a087b41f624e42551917702a89e8c9c12c8e6a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:05 +0000
Subject: [PATCH 02/27] fix: partition compares keys exactly so that values
 closer than the machine epsilon are still ordered

---
 include/ffcl/common/algorithms/Sorting.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/ffcl/common/algorithms/Sorting.hpp b/include/ffcl/common/algorithms/Sorting.hpp
index e70a5fe..de81e3b 100644
--- a/include/ffcl/common/algorithms/Sorting.hpp
+++ b/include/ffcl/common/algorithms/Sorting.hpp
@@ -107,8 +107,7 @@ std::size_t partition_around_pivot_index(const IndicesIterator& indices_range_fi
         // left_index (!= || ==) pivot_index && pivot_index (!= || ==) right_index
 
         // pivot_value > right_value
-        if (inequality(pivot_value,
-                       samples_range_first[indices_range_first[right_index] * n_features + feature_index])) {
+        if (samples_range_first[indices_range_first[right_index] * n_features + feature_index] < pivot_value) {
             // swap left_value and right_value
             std::iter_swap(indices_range_first + left_index, indices_range_first + right_index);
             // if the pivot was swapped because left index was equal to pivot index, update it to the index it was
@@ -123,8 +122,7 @@ std::size_t partition_around_pivot_index(const IndicesIterator& indices_range_fi
         // else if pivot_value == right_value
         else {
             // if left_value == pivot_value
-            if (equality(samples_range_first[indices_range_first[left_index] * n_features + feature_index],
-                         pivot_value)) {
+            if (!(pivot_value < samples_range_first[indices_range_first[left_index] * n_features + feature_index])) {
                 // dont swap if the left_index == pivot_index
                 if (static_cast<std::size_t>(left_index) != pivot_index) {
                     // swap the ranges so that the range of the left index is put at the right of the pivot
-- 
2.43.0


From a4e0388a59b0aa29f0d76f61f330fd5775c70043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:05 +0000
Subject: [PATCH 03/27] fix: the median shift only skips values equal to the
 cut value, not values within epsilon of it

---
 include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
index 487673b..c8d5a5f 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
@@ -206,7 +206,7 @@ auto shift_median_to_leftmost_equal_value(std::size_t                    median_
         // Decrement the iterators while the left range isn't empty and the neighbor value at the left of the median is
         // still equal to the cut value at the corresponding feature index
         while (left_neighbor_it >= left_indices_range.first &&
-               common::equality(samples_range_first[left_neighbor_it[0] * n_features + feature_index], cut_value)) {
+               samples_range_first[left_neighbor_it[0] * n_features + feature_index] == cut_value) {
             --left_neighbor_it;
         }
         // Update the ranges accordingly
-- 
2.43.0


From 47d084ff2e8105ee8e2079a95fc8b979549c6b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:41 +0000
Subject: [PATCH 04/27] fix: moving a kd-tree keeps its number of samples

---
 include/ffcl/datastruct/tree/kdtree/KDTree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
index 23b2ad7..520980a 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
@@ -244,6 +244,7 @@ KDTree<IndicesIterator, SamplesIterator>::KDTree(KDTree&& other) noexcept
   : options_{std::move(other.options_)}
   , samples_range_first_{std::move(other.samples_range_first_)}
   , samples_range_last_{std::move(other.samples_range_last_)}
+  , n_samples_{std::move(other.n_samples_)}
   , n_features_{std::move(other.n_features_)}
   , bound_{std::move(other.bound_)}
   , root_{std::move(other.root_)} {}
-- 
2.43.0


From c1e09e05a50bd79bd8eb30e173c5aa2678b0ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:10 +0000
Subject: [PATCH 05/27] fix: the distance to the cut of a kd-tree node does not
 wrap around for unsigned features

---
 include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp b/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp
index e20740b..54650f4 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp
@@ -233,9 +233,13 @@ auto KDNodeView<IndicesIterator, Bound>::select_sibling_node(
         // nearest neighbor to the other side of the hyperrectangle since the values that are equal to the pivot are
         // put to the right
         auto visit_sibling = [&]() {
-            return is_left_child_ret ? common::abs(pivot_split_value - query_split_value) <=
+            // subtract the lesser value from the greater one: a negative difference wraps around for unsigned features
+            const auto axis_distance = pivot_split_value < query_split_value ? query_split_value - pivot_split_value
+                                                                             : pivot_split_value - query_split_value;
+
+            return is_left_child_ret ? axis_distance <=
                                            query_buffer.furthest_distance(parent_node->cut_axis_feature_index_)
-                                     : common::abs(pivot_split_value - query_split_value) <
+                                     : axis_distance <
                                            query_buffer.furthest_distance(parent_node->cut_axis_feature_index_);
         };
         return query_buffer.remaining_capacity() || visit_sibling()
-- 
2.43.0


From 06a9c7f1201a2bccdabbeb03616792dde06d7b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:10 +0000
Subject: [PATCH 06/27] fix: the furthest bound distance of a box with a
 centroid is not truncated to an integer

---
 include/ffcl/datastruct/bounds/AABBWithCentroid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp b/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
index b21ec72..e7d49d4 100644
--- a/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
+++ b/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
@@ -161,7 +161,7 @@ constexpr auto AABBWithCentroid<Segment, NFeatures>::compute_distance_to_centroi
 
 template <typename Segment, std::size_t NFeatures>
 constexpr auto AABBWithCentroid<Segment, NFeatures>::centroid_to_furthest_bound_distance_impl() const {
-    auto furthest_distance = 0;
+    ValueType furthest_distance = 0;
 
     for (const auto& segment : segments_) {
         const auto candidate_furthest_distance = segment.centroid_to_bound_distance();
-- 
2.43.0


From a36f671b9921c84a9948dbd64062d28b69b7602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:57 +0000
Subject: [PATCH 07/27] fix: the default maximum depth of a kd-tree is
 unlimited instead of zero

---
 include/ffcl/datastruct/tree/kdtree/KDTree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
index 520980a..4ebbeaa 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
@@ -17,6 +17,7 @@
 #include <algorithm>
 #include <array>
 #include <cstddef>  // std::size_t
+#include <limits>
 #include <memory>
 #include <tuple>
 
@@ -60,7 +61,7 @@ class KDTree {
     struct Options {
         Options()
           : bucket_size_{40}
-          , max_depth_{common::infinity<std::size_t>()}
+          , max_depth_{std::numeric_limits<std::size_t>::max()}
           , axis_selection_policy_ptr_{std::make_shared<
                 kdtree::policy::HighestVarianceBuild<IndicesIteratorType, SamplesIteratorType, BoundType>>()}
           , splitting_rule_policy_ptr_{
-- 
2.43.0


From 5b2db27ffb8a46fbd9e8f498b620e8c654086f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:57 +0000
Subject: [PATCH 08/27] fix: an empty search buffer of integral distances does
 not prune the rest of the tree

---
 include/ffcl/search/buffer/StaticBuffer.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ffcl/search/buffer/StaticBuffer.hpp b/include/ffcl/search/buffer/StaticBuffer.hpp
index 205fd86..eb2e378 100644
--- a/include/ffcl/search/buffer/StaticBuffer.hpp
+++ b/include/ffcl/search/buffer/StaticBuffer.hpp
@@ -8,6 +8,7 @@
 #include "ffcl/datastruct/bounds/UnboundedBall.hpp"  // default bound
 
 #include <cstddef>
+#include <limits>
 #include <tuple>
 #include <vector>
 
@@ -47,7 +48,9 @@ class StaticBuffer {
       , closest_index_{0}
       , closest_distance_{common::infinity<DistanceType>()}
       , buffer_index_of_furthest_index_{0}
-      , furthest_distance_{common::infinity<DistanceType>()}
+      // integral types have no infinity: an empty buffer would otherwise prune every node that does not touch the query
+      , furthest_distance_{std::numeric_limits<DistanceType>::has_infinity ? common::infinity<DistanceType>()
+                                                                           : std::numeric_limits<DistanceType>::max()}
       , max_capacity_{max_capacity} {}
 
     constexpr auto centroid_begin() const {
-- 
2.43.0


From 6eaa893f2cf0289f7e12219008ad89a03cd83469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:57 +0000
Subject: [PATCH 09/27] fix: the left-rounded center of negative integers stays
 within its bounds

---
 include/ffcl/common/Utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/Utils.hpp b/include/ffcl/common/Utils.hpp
index 51d5707..30a777c 100644
--- a/include/ffcl/common/Utils.hpp
+++ b/include/ffcl/common/Utils.hpp
@@ -447,7 +447,7 @@ constexpr auto compute_center_with_left_rounding(const T& lower, const U& upper)
     const auto lower_plus_upper = lower + upper;
 
     if constexpr (std::is_integral_v<std::common_type_t<T, U>>) {
-        return lower_plus_upper < 0 ? lower_plus_upper / 2 - 1 : lower_plus_upper / 2;
+        return lower_plus_upper < 0 ? (lower_plus_upper - 1) / 2 : lower_plus_upper / 2;
 
     } else {
         // For floating point, regular calculation suffices
-- 
2.43.0


From 3eb759cbb303d1b57d4cb24314b995ff56e29e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:16 +0000
Subject: [PATCH 10/27] fix: a search buffer that owns its visited indices
 keeps them when it is copied or moved

---
 include/ffcl/search/buffer/WithMemory.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/ffcl/search/buffer/WithMemory.hpp b/include/ffcl/search/buffer/WithMemory.hpp
index 8f84c03..6a183db 100644
--- a/include/ffcl/search/buffer/WithMemory.hpp
+++ b/include/ffcl/search/buffer/WithMemory.hpp
@@ -34,21 +34,21 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
     explicit WithMemory(BoundType&& bound, const IndexType& max_capacity = common::infinity<IndexType>())
       : StaticBuffer<WithMemory<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , visited_indices_{}
-      , visited_indices_const_reference_{visited_indices_} {}
+      , external_visited_indices_ptr_{nullptr} {}
 
     WithMemory(BoundType&&           bound,
                const VisitedIndices& visited_indices_reference,
                const IndexType&      max_capacity = common::infinity<IndexType>())
       : StaticBuffer<WithMemory<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , visited_indices_{}
-      , visited_indices_const_reference_{visited_indices_reference} {}
+      , external_visited_indices_ptr_{&visited_indices_reference} {}
 
     WithMemory(BoundType&&      bound,
                VisitedIndices&& visited_indices,
                const IndexType& max_capacity = common::infinity<IndexType>())
       : StaticBuffer<WithMemory<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , visited_indices_{std::move(visited_indices)}
-      , visited_indices_const_reference_{visited_indices_} {}
+      , external_visited_indices_ptr_{nullptr} {}
 
     WithMemory(BoundType&&                       bound,
                const VisitedIndicesIteratorType& visited_indices_first,
@@ -88,9 +88,9 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
                    max_capacity) {}
 
     void update_impl(const IndexType& index_candidate, const DistanceType& distance_candidate) {
+        const auto& visited_indices = external_visited_indices_ptr_ ? *external_visited_indices_ptr_ : visited_indices_;
         // consider an update only if the candidate hasnt been visited
-        const bool is_candidate_valid =
-            visited_indices_const_reference_.find(index_candidate) == visited_indices_const_reference_.end();
+        const bool is_candidate_valid = visited_indices.find(index_candidate) == visited_indices.end();
 
         if (is_candidate_valid) {
             this->update_static_buffers(index_candidate, distance_candidate);
@@ -120,8 +120,10 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
     }
 
   private:
-    VisitedIndices        visited_indices_;
-    const VisitedIndices& visited_indices_const_reference_;
+    VisitedIndices visited_indices_;
+    // points to the visited indices that are owned by the caller, nullptr if the buffer owns them (the buffer can then
+    // be copied or moved without referring to the indices of the buffer it was made from)
+    const VisitedIndices* external_visited_indices_ptr_;
 };
 
 // Declare and define a static_base_traits specialization for WithMemory:
-- 
2.43.0


From 90681b80f947c020e6ad1cf39d3e2edf7ddf9528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:44 +0000
Subject: [PATCH 11/27] fix: the k-th shortest edge of two trees no longer
 drops edges while fewer than k are known

---
 include/ffcl/search/buffer/IndicesToBuffersMap.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/search/buffer/IndicesToBuffersMap.hpp b/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
index 93917d6..54c0988 100644
--- a/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
+++ b/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
@@ -428,7 +428,8 @@ void IndicesToBuffersMap<Buffer, QueryIndexer, ReferenceIndexer>::update_priorit
     // be to find the nth_elemnts from the buffer and emplace only those to the priority queue. The first method's
     // drawback is that it requires management of the emplace/pop-ed elements. The second method's drawback is that
     // it would require a deep copy of the indices and distances of buffer.
-    if (buffer.closest_distance() < (kth_closest_edge_priority_queue_.empty()
+    // Any candidate qualifies as long as the priority queue is not full.
+    if (buffer.closest_distance() < (kth_closest_edge_priority_queue_.size() < buffer.max_capacity()
                                          ? common::infinity<DistanceType>()
                                          : std::get<2>(kth_closest_edge_priority_queue_.top()))) {
         // Iterate over all the buffer indices as we dont know which elements could be valid candidates.
@@ -436,7 +437,7 @@ void IndicesToBuffersMap<Buffer, QueryIndexer, ReferenceIndexer>::update_priorit
             const auto candidate_index    = buffer_indices[buffer_index];
             const auto candidate_distance = buffer_distances[buffer_index];
 
-            const auto pq_furthest_distance = kth_closest_edge_priority_queue_.empty()
+            const auto pq_furthest_distance = kth_closest_edge_priority_queue_.size() < buffer.max_capacity()
                                                   ? common::infinity<DistanceType>()
                                                   : std::get<2>(kth_closest_edge_priority_queue_.top());
 
-- 
2.43.0


From d7a350aac1aa1c194322baa531746827d3679bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:17 +0000
Subject: [PATCH 12/27] fix: cutting the single linkage tree separates the
 clusters that merge at or above the cut level

---
 .../SingleLinkageClusterTree.hpp              | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
index de72049..9af90fa 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
@@ -153,21 +153,20 @@ void SingleLinkageClusterTree<IndexType, ValueType>::preorder_traversal_single_l
     ClusterIndexType                   cluster_label,
     const SingleLinkageClusterNodePtr& single_linkage_cluster_node,
     std::vector<ClusterIndexType>&     flat_cluster) const {
-    // consider updating the cluster label for the descendant nodes only if we are above or at the desired cut level
-    // else the same cluster label will be used for all the descendant nodes from the current node
-    if (single_linkage_cluster_node->level_ >= options_.cut_level_) {
-        // set the cluster label as noise if the current node is parent of less than 'min cluster size' nodes
-        // else set the cluster label as the one at the current level
-        cluster_label = single_linkage_cluster_node->size() < options_.min_cluster_size_
-                            ? 0
-                            : single_linkage_cluster_node->representative_;
-    }
     // continue to traverse the tree if the current node is not leaf
     // a single linkage cluster node is guaranteed to have a left and a right child if its not leaf
     if (!single_linkage_cluster_node->is_leaf()) {
-        preorder_traversal_single_linkage_clustering(cluster_label, single_linkage_cluster_node->left_, flat_cluster);
-        preorder_traversal_single_linkage_clustering(cluster_label, single_linkage_cluster_node->right_, flat_cluster);
-
+        for (const auto& child_node : {single_linkage_cluster_node->left_, single_linkage_cluster_node->right_}) {
+            auto child_cluster_label = cluster_label;
+            // the children of a node that is above or at the desired cut level are separate clusters
+            // else the same cluster label will be used for all the descendant nodes from the current node
+            if (single_linkage_cluster_node->level_ >= options_.cut_level_) {
+                // set the cluster label as noise if the child node is parent of less than 'min cluster size' nodes
+                child_cluster_label =
+                    child_node->size() < options_.min_cluster_size_ ? 0 : child_node->representative_;
+            }
+            preorder_traversal_single_linkage_clustering(child_cluster_label, child_node, flat_cluster);
+        }
     } else {
         // assign the cluster label to the sample index (which is its own node at level 0)
         flat_cluster[single_linkage_cluster_node->representative_] = cluster_label;
-- 
2.43.0


From 46d399400c686bf807d565d4fa7c2f6db410c01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:48 +0000
Subject: [PATCH 13/27] fix: DBSCAN assigns border samples that were first seen
 as noise to the cluster that reaches them

---
 include/ffcl/dbscan/DBSCAN.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/dbscan/DBSCAN.hpp b/include/ffcl/dbscan/DBSCAN.hpp
index b8baa24..a22a4ad 100644
--- a/include/ffcl/dbscan/DBSCAN.hpp
+++ b/include/ffcl/dbscan/DBSCAN.hpp
@@ -174,12 +174,13 @@ void DBSCAN<Indexer>::predict_inner(NeighborsIndices&                neighbors_i
                 auto inner_neighbors_indices = std::move(inner_neighbors_buffer).indices();
 
                 // iterate over each neighbor's neighbors and add them to the neighbors to visit only if
-                // they havent been visited already
+                // they havent been assigned to a cluster already. A sample that has been visited and marked as noise
+                // still has to be added since it is on the border of the current cluster
                 std::copy_if(std::make_move_iterator(inner_neighbors_indices.begin()),
                              std::make_move_iterator(inner_neighbors_indices.end()),
                              std::back_inserter(neighbors_indices),
-                             [&visited_indices](const auto& inner_neighbor_index) {
-                                 return !visited_indices[inner_neighbor_index];
+                             [&predictions](const auto& inner_neighbor_index) {
+                                 return predictions[inner_neighbor_index] == static_cast<LabelType>(SampleStatus::noise);
                              });
             }
         }
-- 
2.43.0


From 8f1d00493e3243d91640f78b87c3017824e81220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:52 +0000
Subject: [PATCH 14/27] fix: a Lloyd centroid without samples keeps its
 position instead of jumping to the origin

---
 include/ffcl/kmeans/Lloyd.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/ffcl/kmeans/Lloyd.hpp b/include/ffcl/kmeans/Lloyd.hpp
index d1ca740..33ae07a 100644
--- a/include/ffcl/kmeans/Lloyd.hpp
+++ b/include/ffcl/kmeans/Lloyd.hpp
@@ -111,12 +111,8 @@ void Lloyd<SamplesIterator>::update_centroids() {
         const auto feature_index_start = centroid_index * n_features;
         const auto feature_index_end   = feature_index_start + n_features;
 
-        if (cluster_sizes[centroid_index] == 0) {
-            // For centroids with only 1 associated sample, the new position is the same as the previous one
-            std::copy(cluster_position_sums.begin() + feature_index_start,
-                      cluster_position_sums.begin() + feature_index_end,
-                      centroids_.begin() + feature_index_start);
-        } else {
+        // a centroid with no associated sample keeps its previous position
+        if (cluster_sizes[centroid_index]) {
             // Compute the new centroid position for the centroid that has more than 1 associated sample
             std::transform(cluster_position_sums.begin() + feature_index_start,
                            cluster_position_sums.begin() + feature_index_end,
-- 
2.43.0


From 2e1eb52691f282a8db324a08e075a7bce2636d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:27 +0000
Subject: [PATCH 15/27] fix: the total deviation of Hamerly is computed for its
 current centroids instead of a stale estimate

---
 include/ffcl/kmeans/Hamerly.hpp | 48 +++++++++++----------------------
 1 file changed, 16 insertions(+), 32 deletions(-)

diff --git a/include/ffcl/kmeans/Hamerly.hpp b/include/ffcl/kmeans/Hamerly.hpp
index 244daf3..766b86a 100644
--- a/include/ffcl/kmeans/Hamerly.hpp
+++ b/include/ffcl/kmeans/Hamerly.hpp
@@ -24,10 +24,6 @@ class Hamerly {
 
     Hamerly(const DatasetDescriptorType& dataset_descriptor, const std::vector<DataType>& centroids);
 
-    Hamerly(const DatasetDescriptorType& dataset_descriptor,
-            const std::vector<DataType>& centroids,
-            const DataType&              loss);
-
     Hamerly(const Hamerly&) = delete;
 
     auto total_deviation() const;
@@ -62,37 +58,33 @@ class Hamerly {
 
     void update_centroids_velocities(const std::vector<DataType>& previous_centroids);
 
-    auto update_bounds();
+    void update_bounds();
 
     DatasetDescriptorType    dataset_descriptor_;
     std::vector<DataType>    centroids_;
     std::unique_ptr<Buffers> buffers_ptr_;
-    DataType                 loss_;
 };
 
 template <typename SamplesIterator>
 Hamerly<SamplesIterator>::Hamerly(const DatasetDescriptorType& dataset_descriptor,
                                   const std::vector<DataType>& centroids)
-  : Hamerly<SamplesIterator>::Hamerly(dataset_descriptor, centroids, common::infinity<DataType>()) {
-    // compute initial loss
-    loss_ = std::reduce(buffers_ptr_->samples_to_nearest_centroid_distances_.begin(),
-                        buffers_ptr_->samples_to_nearest_centroid_distances_.end(),
-                        static_cast<DataType>(0),
-                        std::plus<>());
-}
-
-template <typename SamplesIterator>
-Hamerly<SamplesIterator>::Hamerly(const DatasetDescriptorType& dataset_descriptor,
-                                  const std::vector<DataType>& centroids,
-                                  const DataType&              loss)
   : dataset_descriptor_{dataset_descriptor}
   , centroids_{centroids}
-  , buffers_ptr_{std::make_unique<Buffers>(dataset_descriptor, centroids_)}
-  , loss_{loss} {}
+  , buffers_ptr_{std::make_unique<Buffers>(dataset_descriptor, centroids_)} {}
 
 template <typename SamplesIterator>
 auto Hamerly<SamplesIterator>::total_deviation() const {
-    return loss_;
+    // the bounds are not tight so the distances are recomputed w.r.t. the current centroids
+    const auto samples_to_nearest_centroid_distances =
+        kmeans::utils::samples_to_nearest_centroid_distances(std::get<0>(dataset_descriptor_),
+                                                             std::get<1>(dataset_descriptor_),
+                                                             std::get<2>(dataset_descriptor_),
+                                                             centroids_);
+
+    return std::reduce(samples_to_nearest_centroid_distances.begin(),
+                       samples_to_nearest_centroid_distances.end(),
+                       static_cast<DataType>(0),
+                       std::plus<>());
 }
 
 template <typename SamplesIterator>
@@ -109,8 +101,8 @@ auto Hamerly<SamplesIterator>::step() {
     // upate the centroids velocities based on the previous centroids and the updated centroids
     update_centroids_velocities(previous_centroids);
 
-    // recompute the loss w.r.t. the updated buffers
-    loss_ = update_bounds();
+    // move the bounds w.r.t. the updated centroids
+    update_bounds();
 
     return centroids_;
 }
@@ -146,8 +138,6 @@ void Hamerly<SamplesIterator>::swap_bounds() {
                 centroids_.begin() + assigned_centroid_index * n_features,
                 centroids_.begin() + assigned_centroid_index * n_features + n_features);
 
-            const auto previous_assigned_centroid_distance = samples_to_nearest_centroid_distances[sample_index];
-
             samples_to_nearest_centroid_distances[sample_index] = upper_bound;
 
             // second bound test
@@ -205,10 +195,6 @@ void Hamerly<SamplesIterator>::swap_bounds() {
                                    samples_range_first + sample_index * n_features,
                                    cluster_position_sums.begin() + assigned_centroid_index * n_features,
                                    std::plus<>());
-
-                    // update the loss by removing its previous contribution and adding the new one
-                    loss_ -= previous_assigned_centroid_distance;
-                    loss_ += upper_bound;
                 }
             }
         }
@@ -258,7 +244,7 @@ void Hamerly<SamplesIterator>::update_centroids_velocities(const std::vector<Dat
 }
 
 template <typename SamplesIterator>
-auto Hamerly<SamplesIterator>::update_bounds() {
+void Hamerly<SamplesIterator>::update_bounds() {
     const auto [furthest_moving_centroid_index, furthest_moving_centroid_distance] =
         common::math::statistics::get_max_index_value_pair(buffers_ptr_->centroid_velocities_.begin(),
                                                            buffers_ptr_->centroid_velocities_.end());
@@ -287,8 +273,6 @@ auto Hamerly<SamplesIterator>::update_bounds() {
     }
     buffers_ptr_->centroid_to_nearest_centroid_distances_ = kmeans::utils::nearest_neighbor_distances(
         centroids_.begin(), centroids_.end(), std::get<2>(dataset_descriptor_));
-
-    return loss_;
 }
 
 template <typename SamplesIterator>
-- 
2.43.0


From 63218180cde63c19e0396b556984f31940a0ea20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:27 +0000
Subject: [PATCH 16/27] fix: a centroid as near as the nearest one counts as
 the second nearest

---
 include/ffcl/kmeans/KMeansUtils.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/ffcl/kmeans/KMeansUtils.hpp b/include/ffcl/kmeans/KMeansUtils.hpp
index ef5d56c..108dafa 100644
--- a/include/ffcl/kmeans/KMeansUtils.hpp
+++ b/include/ffcl/kmeans/KMeansUtils.hpp
@@ -104,8 +104,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = second_nearest_candidate;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
             }
         }
-- 
2.43.0


From a8af85c29e3c3a6a25f5ad581861bfa1c896a164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:31 +0000
Subject: [PATCH 17/27] fix: FasterPAM considers every sample that is not a
 medoid as a swap candidate, and only those

---
 include/ffcl/kmedoids/FasterPAM.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterPAM.hpp b/include/ffcl/kmedoids/FasterPAM.hpp
index 191bd33..880f824 100644
--- a/include/ffcl/kmedoids/FasterPAM.hpp
+++ b/include/ffcl/kmedoids/FasterPAM.hpp
@@ -136,11 +136,9 @@ auto FasterPAM<SamplesIterator>::total_deviation() const {
 
 template <typename SamplesIterator>
 auto FasterPAM<SamplesIterator>::step() {
-    const auto& samples_to_nearest_medoid_indices = buffers_ptr_->samples_to_nearest_medoid_indices_;
-
     for (std::size_t medoid_candidate_index = 0; medoid_candidate_index < n_samples_; ++medoid_candidate_index) {
         // execute only if the current candidate is not already selected as a medoid
-        if (medoid_candidate_index != samples_to_nearest_medoid_indices[medoid_candidate_index]) {
+        if (std::find(medoids_.begin(), medoids_.end(), medoid_candidate_index) == medoids_.end()) {
             // the total deviation change for the best swap candidate and its index in the dataset
             const auto [best_swap_delta_td, best_swap_index] = find_best_swap(medoid_candidate_index);
 
-- 
2.43.0


From 6dd813b2173d14427b7a1de864e4a96677a51af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:44 +0000
Subject: [PATCH 18/27] fix: medoids as near as the nearest one count as the
 second and third nearest

---
 include/ffcl/kmedoids/PAMUtils.hpp | 40 +++++++++---------------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/include/ffcl/kmedoids/PAMUtils.hpp b/include/ffcl/kmedoids/PAMUtils.hpp
index be5c117..2926ac7 100644
--- a/include/ffcl/kmedoids/PAMUtils.hpp
+++ b/include/ffcl/kmedoids/PAMUtils.hpp
@@ -127,8 +127,7 @@ std::vector<std::size_t> samples_to_second_nearest_medoid_indices(const SamplesI
                 first_min_distance  = second_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
                 second_min_index    = idx;
             }
@@ -169,8 +168,7 @@ std::vector<std::size_t> samples_to_second_nearest_medoid_indices(
                 first_min_distance  = second_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
                 second_min_index    = idx;
             }
@@ -222,16 +220,13 @@ std::vector<std::size_t> samples_to_third_nearest_medoid_indices(const SamplesIt
                 first_min_distance  = third_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 third_min_index     = second_min_index;
                 second_min_distance = third_nearest_candidate;
                 second_min_index    = idx;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
                 third_min_index    = idx;
             }
@@ -276,16 +271,13 @@ std::vector<std::size_t> samples_to_third_nearest_medoid_indices(
                 first_min_distance  = third_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 third_min_index     = second_min_index;
                 second_min_distance = third_nearest_candidate;
                 second_min_index    = idx;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
                 third_min_index    = idx;
             }
@@ -453,8 +445,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = second_nearest_candidate;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
             }
         }
@@ -490,8 +481,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = second_nearest_candidate;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
             }
         }
@@ -537,14 +527,11 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 second_min_distance = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
             }
         }
@@ -582,14 +569,11 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 second_min_distance = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
             }
         }
-- 
2.43.0


From f4569b89885be777df29a92d69a0356a575d072a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:54 +0000
Subject: [PATCH 19/27] fix: the variance of masked features uses every sample
 of the subset instead of the first one only

---
 include/ffcl/common/math/statistics/Statistics.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index c6cbf31..c180269 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -315,7 +315,7 @@ auto compute_variance_per_feature(const IndicesIterator&          indices_range_
         auto features_accumulator = std::vector<DataType>(feature_mask.size());
 
         for (std::size_t mask_index = 0; mask_index < feature_mask.size(); ++mask_index) {
-            const auto temp = samples_range_first[*indices_range_first * n_features + feature_mask[mask_index]] -
+            const auto temp = samples_range_first[indices_range_first[sample_index] * n_features + feature_mask[mask_index]] -
                               mean_per_feature[mask_index];
             variance_per_feature[mask_index] += temp * temp;
         }
@@ -417,7 +417,7 @@ std::size_t argmax_variance_per_feature(const IndicesIterator&          indices_
         auto features_accumulator = std::vector<DataType>(feature_mask.size());
 
         for (std::size_t mask_index = 0; mask_index < feature_mask.size(); ++mask_index) {
-            const auto temp = samples_range_first[*indices_range_first * n_features + feature_mask[mask_index]] -
+            const auto temp = samples_range_first[indices_range_first[sample_index] * n_features + feature_mask[mask_index]] -
                               mean_per_feature[mask_index];
             variance_per_feature[mask_index] += temp * temp;
         }
-- 
2.43.0


From fc3cfba2dc34cf5fcbc6968d840cbf869cf0536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:54 +0000
Subject: [PATCH 20/27] fix: argmin and argmax return an index type instead of
 the element type

---
 include/ffcl/common/math/statistics/Statistics.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index c180269..6878218 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -49,13 +49,13 @@ void min_container_inplace_left(Container& left_container, const Container& righ
 }
 
 template <typename Iterator>
-auto argmin(const Iterator& first, const Iterator& last) -> typename std::iterator_traits<Iterator>::value_type {
+std::size_t argmin(const Iterator& first, const Iterator& last) {
     auto min_it = std::min_element(first, last);
     return std::distance(first, min_it);
 }
 
 template <typename Iterator>
-auto argmax(const Iterator& first, const Iterator& last) -> typename std::iterator_traits<Iterator>::value_type {
+std::size_t argmax(const Iterator& first, const Iterator& last) {
     auto max_it = std::max_element(first, last);
     return std::distance(first, max_it);
 }
-- 
2.43.0


From d596c79695953a705c46a041794ec86f78e8377a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:09 +0000
Subject: [PATCH 21/27] fix: the mean of negative integral features does not
 wrap around

---
 include/ffcl/common/math/statistics/Statistics.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index 6878218..02bab80 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -154,7 +154,7 @@ auto compute_mean_per_feature(const SamplesIterator& samples_range_first,
     std::transform(/**/ mean_per_feature.begin(),
                    /**/ mean_per_feature.end(),
                    /**/ mean_per_feature.begin(),
-                   [n_samples](const auto& feature) { return feature / n_samples; });
+                   [n_samples](const auto& feature) { return feature / static_cast<std::ptrdiff_t>(n_samples); });
     return mean_per_feature;
 }
 
@@ -180,7 +180,7 @@ auto compute_mean_per_feature(const IndicesIterator& indices_range_first,
     std::transform(/**/ mean_per_feature.begin(),
                    /**/ mean_per_feature.end(),
                    /**/ mean_per_feature.begin(),
-                   [n_samples](const auto& feature) { return feature / n_samples; });
+                   [n_samples](const auto& feature) { return feature / static_cast<std::ptrdiff_t>(n_samples); });
     return mean_per_feature;
 }
 
@@ -209,7 +209,7 @@ auto compute_mean_per_feature(const IndicesIterator&          indices_range_firs
         /**/ mean_per_feature.begin(),
         /**/ mean_per_feature.end(),
         /**/ mean_per_feature.begin(),
-        [n_samples](const auto& feature) { return feature / n_samples; });
+        [n_samples](const auto& feature) { return feature / static_cast<std::ptrdiff_t>(n_samples); });
     return mean_per_feature;
 }
 
-- 
2.43.0


From 0cbd48f81185de2dde404c1ee829b8f47bb5a592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:33 +0000
Subject: [PATCH 22/27] fix: select_n_elements draws from the whole range
 instead of its first n elements

---
 include/ffcl/common/math/random/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/random/Sampling.hpp b/include/ffcl/common/math/random/Sampling.hpp
index 08c13f9..cc90804 100644
--- a/include/ffcl/common/math/random/Sampling.hpp
+++ b/include/ffcl/common/math/random/Sampling.hpp
@@ -17,7 +17,7 @@ auto select_n_elements(const Iterator& first, const Iterator& last, std::size_t
     // Perform a partial shuffle of the first n_elements elements
     for (std::size_t element_index = 0; element_index < n_elements; ++element_index) {
         std::swap(selected_elements[element_index],
-                  selected_elements[uniform_distribution{element_index, n_elements - 1}()]);
+                  selected_elements[uniform_distribution{element_index, selected_elements.size() - 1}()]);
     }
     // Resize the vector to keep only the first n_elements elements
     selected_elements.resize(n_elements);
-- 
2.43.0


From 93e716728cbb72c8126fcc656e992d8d35a2f78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:33 +0000
Subject: [PATCH 23/27] fix: spatially uniform positions stay in the bounding
 box of negative data

---
 include/ffcl/common/math/random/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/random/Sampling.hpp b/include/ffcl/common/math/random/Sampling.hpp
index cc90804..098f967 100644
--- a/include/ffcl/common/math/random/Sampling.hpp
+++ b/include/ffcl/common/math/random/Sampling.hpp
@@ -125,7 +125,7 @@ auto init_spatial_uniform(const SamplesIterator& samples_range_first,
 
     // row vector buffers to keep track of min-max values
     auto min_buffer = std::vector<DataType>(n_features, std::numeric_limits<DataType>::max());
-    auto max_buffer = std::vector<DataType>(n_features, std::numeric_limits<DataType>::min());
+    auto max_buffer = std::vector<DataType>(n_features, std::numeric_limits<DataType>::lowest());
 
     for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
         for (std::size_t feature_index = 0; feature_index < n_features; ++feature_index) {
-- 
2.43.0


From 847e52f27bfd0928ed35ef8f7f6b400700a331b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:33 +0000
Subject: [PATCH 24/27] fix: the silhouette of the only sample of a cluster is
 0, as documented

---
 include/ffcl/common/math/heuristics/SilhouetteMethod.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp b/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
index 395c49b..eb49052 100644
--- a/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
+++ b/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
@@ -238,13 +238,19 @@ auto silhouette(const SamplesIterator&       samples_range_first,
                                               /**/ cluster_labels_range_first,
                                               /**/ cluster_labels_range_last);
 
+    const auto cluster_sizes = get_cluster_sizes(cluster_labels_range_first, cluster_labels_range_last);
+
     auto samples_silhouette_scores = std::vector<ElementType>(n_samples);
 
     for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
         const auto coh = cohesion_values[sample_index];
         const auto sep = separation_values[sample_index];
 
-        if (coh < sep) {
+        // the score of the only sample of a cluster is 0 by definition
+        if (cluster_sizes[cluster_labels_range_first[sample_index]] == 1) {
+            samples_silhouette_scores[sample_index] = 0;
+
+        } else if (coh < sep) {
             samples_silhouette_scores[sample_index] = static_cast<ElementType>(1) - coh / sep;
 
         } else if (coh > sep) {
-- 
2.43.0


From cdec22f988ca02cf60702d00fc787bf18ef4cb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:06 +0000
Subject: [PATCH 25/27] fix: the second largest element is never reported at
 the position of the largest one

---
 include/ffcl/common/math/statistics/Statistics.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index 02bab80..9685803 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -97,17 +97,17 @@ auto get_second_max_index_value_pair(const Iterator& first, const Iterator& last
     if (std::distance(first, last) < 2) {
         return {max_idx, max_value};
     }
-    // Replace the maximum element with the lowest possible value
-    *max_it = std::numeric_limits<DataType>::lowest();
+    // Get the largest elements on both sides of the maximum element
+    const auto left_max_it  = std::max_element(first, max_it);
+    const auto right_max_it = std::max_element(std::next(max_it), last);
+
+    // Get the index of the second maximum element, the leftmost one if there are many
+    const auto second_max_it =
+        right_max_it == last || (left_max_it != max_it && !(*left_max_it < *right_max_it)) ? left_max_it : right_max_it;
 
-    // Get the index of the second maximum element
-    const auto     second_max_it    = std::max_element(first, last);
     std::size_t    second_max_idx   = std::distance(first, second_max_it);
     const DataType second_max_value = *second_max_it;
 
-    // Restore the original maximum value
-    *max_it = max_value;
-
     return {second_max_idx, second_max_value};
 }
 
-- 
2.43.0


From 0c50c6d273a71128e320bc037ccdb4d49002969b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:21 +0000
Subject: [PATCH 26/27] fix: a search buffer without a given capacity reports
 an unlimited capacity instead of 0

---
 include/ffcl/search/buffer/StaticBuffer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ffcl/search/buffer/StaticBuffer.hpp b/include/ffcl/search/buffer/StaticBuffer.hpp
index eb2e378..a77dee4 100644
--- a/include/ffcl/search/buffer/StaticBuffer.hpp
+++ b/include/ffcl/search/buffer/StaticBuffer.hpp
@@ -51,7 +51,9 @@ class StaticBuffer {
       // integral types have no infinity: an empty buffer would otherwise prune every node that does not touch the query
       , furthest_distance_{std::numeric_limits<DistanceType>::has_infinity ? common::infinity<DistanceType>()
                                                                            : std::numeric_limits<DistanceType>::max()}
-      , max_capacity_{max_capacity} {}
+      // integral types have no infinity either: an unlimited buffer would otherwise report a capacity of 0
+      , max_capacity_{max_capacity == common::infinity<IndexType>() ? std::numeric_limits<IndexType>::max()
+                                                                    : max_capacity} {}
 
     constexpr auto centroid_begin() const {
         return bound_.centroid_begin();
-- 
2.43.0


From 2fae1fa64ee7dd95f86739a27bb379f0a3b8e7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:29 +0000
Subject: [PATCH 27/27] fix: Boruvka's algorithm finds the edge with the
 smallest mutual reachability distance instead of that of the nearest sample

---
 .../graph/spanning_tree/BoruvkasAlgorithm.hpp | 99 ++++++++++---------
 1 file changed, 54 insertions(+), 45 deletions(-)

diff --git a/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp b/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
index 007c037..96f75cc 100644
--- a/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
+++ b/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
@@ -215,6 +215,13 @@ class BoruvkasAlgorithm {
                                         const CoreDistancesArrayType&    core_distances,
                                         Forest&                          forest) const;
 
+    void update_closest_edge(const search::Searcher<Indexer>& searcher,
+                             const CoreDistancesArrayType&    core_distances,
+                             const Forest&                    forest,
+                             const IndexType&                 component_representative,
+                             const IndexType&                 query_index,
+                             EdgeType&                        closest_edge) const;
+
     void step_dual_tree_sequential(const search::Searcher<Indexer>& searcher,
                                    const CoreDistancesArrayType&    core_distances,
                                    Forest&                          forest) const;
@@ -277,6 +284,45 @@ void BoruvkasAlgorithm<Indexer>::step_sequential(const search::Searcher<Indexer>
     }
 }
 
+template <typename Indexer>
+void BoruvkasAlgorithm<Indexer>::update_closest_edge(const search::Searcher<Indexer>& searcher,
+                                                     const CoreDistancesArrayType&    core_distances,
+                                                     const Forest&                    forest,
+                                                     const IndexType&                 component_representative,
+                                                     const IndexType&                 query_index,
+                                                     EdgeType&                        closest_edge) const {
+    // The nearest sample of another component doesn't necessarily have the smallest k_mutual_reachability_distance since
+    // its own core distance could be large. Query more neighbors until the next ones can't be any closer.
+    for (IndexType max_capacity = 1;; max_capacity *= 2) {
+        const auto nn_buffer_query = searcher(search::buffer::WithUnionFind(searcher.features_range_first(query_index),
+                                                                            searcher.features_range_last(query_index),
+                                                                            forest.get_union_find_const_reference(),
+                                                                            component_representative,
+                                                                            max_capacity));
+
+        const auto& neighbors_indices   = nn_buffer_query.indices_const_ref();
+        const auto& neighbors_distances = nn_buffer_query.distances_const_ref();
+
+        for (std::size_t neighbor = 0; neighbor < nn_buffer_query.size(); ++neighbor) {
+            const auto k_mutual_reachability_distance = std::max({core_distances[query_index],
+                                                                  core_distances[neighbors_indices[neighbor]],
+                                                                  neighbors_distances[neighbor]});
+
+            // update the current shortest edge if the k_mutual_reachability_distance is indeed shortest than the
+            // current shortest edge distance
+            if (k_mutual_reachability_distance < std::get<2>(closest_edge)) {
+                closest_edge = EdgeType{query_index, neighbors_indices[neighbor], k_mutual_reachability_distance};
+            }
+        }
+        // the samples that weren't returned are at least as far as the furthest neighbor
+        if (nn_buffer_query.size() < max_capacity ||
+            std::get<2>(closest_edge) <=
+                std::max(core_distances[query_index], nn_buffer_query.furthest_distance())) {
+            return;
+        }
+    }
+}
+
 template <typename Indexer>
 void BoruvkasAlgorithm<Indexer>::step_sequential(const search::Searcher<Indexer>& searcher,
                                                  const CoreDistancesArrayType&    core_distances,
@@ -290,29 +336,12 @@ void BoruvkasAlgorithm<Indexer>::step_sequential(const search::Searcher<Indexer>
         components_closest_edge[component_representative] = datastruct::mst::make_default_edge<IndexType, ValueType>();
 
         for (const auto& query_index : component) {
-            // initialize a nearest neighbor buffer to compare the query_index with sample indices that don't belong to
-            // the same component using the UnionFind data structure
-            auto nn_buffer_query = searcher(search::buffer::WithUnionFind(searcher.features_range_first(query_index),
-                                                                          searcher.features_range_last(query_index),
-                                                                          forest.get_union_find_const_reference(),
-                                                                          component_representative,
-                                                                          /*max_capacity=*/static_cast<IndexType>(1)));
-
-            // the furthest nearest neighbor is also the closest in this case since we query only 1 neighbor
-            const auto nearest_neighbor_index    = nn_buffer_query.furthest_index();
-            const auto nearest_neighbor_distance = nn_buffer_query.furthest_distance();
-
-            const auto current_closest_edge_distance = std::get<2>(components_closest_edge[component_representative]);
-
-            const auto k_mutual_reachability_distance = std::max(
-                {core_distances[query_index], core_distances[nearest_neighbor_index], nearest_neighbor_distance});
-
-            // update the current shortest edge if the k_mutual_reachability_distance is indeed shortest than the
-            // current shortest edge distance
-            if (k_mutual_reachability_distance < current_closest_edge_distance) {
-                components_closest_edge[component_representative] =
-                    EdgeType{query_index, nearest_neighbor_index, k_mutual_reachability_distance};
-            }
+            update_closest_edge(searcher,
+                                core_distances,
+                                forest,
+                                component_representative,
+                                query_index,
+                                components_closest_edge[component_representative]);
         }
     }
     // merge components based on the best edges found in each component so far
@@ -390,28 +419,8 @@ void BoruvkasAlgorithm<Indexer>::dual_component_step_sequential(const search::Se
     auto closest_edge = datastruct::mst::make_default_edge<IndexType, ValueType>();
 
     for (const auto& query_index : smallest_component) {
-        // initialize a nearest neighbor buffer to compare the query_index with sample indices that don't belong to
-        // the same component using the UnionFind data structure
-        auto nn_buffer_query = searcher(search::buffer::WithUnionFind(searcher.features_range_first(query_index),
-                                                                      searcher.features_range_last(query_index),
-                                                                      forest.get_union_find_const_reference(),
-                                                                      smallest_component_representative,
-                                                                      /*max_capacity=*/static_cast<IndexType>(1)));
-
-        // the furthest nearest neighbor is also the closest in this case since we query only 1 neighbor
-        const auto nearest_neighbor_index    = nn_buffer_query.furthest_index();
-        const auto nearest_neighbor_distance = nn_buffer_query.furthest_distance();
-
-        const auto current_closest_edge_distance = std::get<2>(closest_edge);
-
-        const auto k_mutual_reachability_distance =
-            std::max({core_distances[query_index], core_distances[nearest_neighbor_index], nearest_neighbor_distance});
-
-        // update the current shortest edge if the k_mutual_reachability_distance is indeed shortest than the current
-        // shortest edge distance
-        if (k_mutual_reachability_distance < current_closest_edge_distance) {
-            closest_edge = EdgeType{query_index, nearest_neighbor_index, k_mutual_reachability_distance};
-        }
+        update_closest_edge(
+            searcher, core_distances, forest, smallest_component_representative, query_index, closest_edge);
     }
     // merge components based on the best edge found
     forest.merge_components(closest_edge);
-- 
2.43.0

