From 5e9562be74349ce5e25035ddfdb1d3b4008879fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 01/40] fix: dynamic ASYNC parallel for loops ignore the start
 of the range

---
 include/common_robotics_utilities/parallelism.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/parallelism.hpp b/include/common_robotics_utilities/parallelism.hpp
index 1b3b4ed..d8e02bc 100644
--- a/include/common_robotics_utilities/parallelism.hpp
+++ b/include/common_robotics_utilities/parallelism.hpp
@@ -398,7 +398,7 @@ void DynamicParallelForRangeLoop(
               functor(work_range);
               return thread_number;
             },
-            workers_dispatched,
+            range_start + workers_dispatched,
             thread_number_keeper.CheckoutThreadNumber()));
         workers_dispatched++;
       }
-- 
2.43.0


From b90695998a7092259a8f5a2f2c611fcb5354c034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 02/40] fix: dynamic ASYNC parallel for loop hangs if a worker
 cannot allocate its exit notifier

---
 include/common_robotics_utilities/parallelism.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/parallelism.hpp b/include/common_robotics_utilities/parallelism.hpp
index d8e02bc..fe8ab35 100644
--- a/include/common_robotics_utilities/parallelism.hpp
+++ b/include/common_robotics_utilities/parallelism.hpp
@@ -3,6 +3,7 @@
 #include <cstdint>
 #include <deque>
 #include <exception>
+#include <functional>
 #include <future>
 #include <list>
 #include <mutex>
@@ -392,7 +393,9 @@ void DynamicParallelForRangeLoop(
               };
 
               // Run notify via RAII, so it runs even if an exception is thrown.
-              const utility::OnScopeExit on_exit(notify_when_done);
+              // Passing by reference ensures that constructing OnScopeExit does
+              // not allocate, and thus cannot itself throw and skip notify.
+              const utility::OnScopeExit on_exit(std::ref(notify_when_done));
 
               const ThreadWorkRange work_range(index, index + 1, thread_number);
               functor(work_range);
-- 
2.43.0


From e99bd4ac27cc18880d18bcaf0bc7193026ec9348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 03/40] fix: parallel k-nearest neighbors loses results when
 one thread performs several ranges

---
 .../simple_knearest_neighbors.hpp                         | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/simple_knearest_neighbors.hpp b/include/common_robotics_utilities/simple_knearest_neighbors.hpp
index 3e2cec3..a6e5def 100644
--- a/include/common_robotics_utilities/simple_knearest_neighbors.hpp
+++ b/include/common_robotics_utilities/simple_knearest_neighbors.hpp
@@ -196,11 +196,17 @@ inline std::vector<IndexAndDistance> GetKNearestNeighborsInRangeParallel(
       const auto per_range_work = [&](
           const parallelism::ThreadWorkRange& work_range)
       {
-        per_thread_nearests[work_range.GetThreadNum()] =
+        const auto range_nearests =
             GetKNearestNeighborsInRangeSerial<Item, Value, Container>(
                 items, static_cast<size_t>(work_range.GetRangeStart()),
                 static_cast<size_t>(work_range.GetRangeEnd()), current,
                 distance_fn, K);
+        // A thread may be given more than one range (for example, if fewer
+        // threads are provided than were requested), so append the results.
+        auto& thread_nearests = per_thread_nearests[work_range.GetThreadNum()];
+        thread_nearests.insert(
+            thread_nearests.end(), range_nearests.begin(),
+            range_nearests.end());
       };
 
       // Dispatch, preferably using OpenMP if available, std::async otherwise.
-- 
2.43.0


From c0ce208adf87e138702bea2265132d36c3237261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 04/40] fix: k-means clustering never returns if asked for more
 clusters than data

---
 .../simple_kmeans_clustering.hpp                         | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/common_robotics_utilities/simple_kmeans_clustering.hpp b/include/common_robotics_utilities/simple_kmeans_clustering.hpp
index eb05d11..367f3d0 100644
--- a/include/common_robotics_utilities/simple_kmeans_clustering.hpp
+++ b/include/common_robotics_utilities/simple_kmeans_clustering.hpp
@@ -169,6 +169,15 @@ std::vector<int32_t> ClusterWeighted(
   {
     throw std::invalid_argument("num_clusters == 0");
   }
+  else if (num_clusters < 0)
+  {
+    throw std::invalid_argument("num_clusters < 0");
+  }
+  else if (static_cast<size_t>(num_clusters) > data.size())
+  {
+    // There are not enough elements to initialize the cluster centers.
+    throw std::invalid_argument("num_clusters > data.size()");
+  }
   // Make sure we have enough datapoints to do meaningful preliminary clustering
   bool enable_preliminary_clustering = do_preliminary_clustering;
   if (enable_preliminary_clustering)
-- 
2.43.0


From c6e25a357a088c988f9cfde023313b2209ab140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 05/40] fix: parallel roadmap edge updates race on graph
 overlays

---
 include/common_robotics_utilities/simple_prm_planner.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/common_robotics_utilities/simple_prm_planner.hpp b/include/common_robotics_utilities/simple_prm_planner.hpp
index 3efe403..4735685 100644
--- a/include/common_robotics_utilities/simple_prm_planner.hpp
+++ b/include/common_robotics_utilities/simple_prm_planner.hpp
@@ -696,6 +696,14 @@ void UpdateRoadMapEdges(
     throw std::invalid_argument("Provided roadmap has invalid linkage");
   }
 
+  // Retrieving a mutable node may modify the roadmap itself (e.g. a graph overlay
+  // copies the node from its base graph the first time), which is not safe to do
+  // in parallel, so retrieve every node once before starting parallel work.
+  for (int64_t node_index = 0; node_index < roadmap.Size(); node_index++)
+  {
+    roadmap.GetNodeMutable(node_index);
+  }
+
   const auto per_item_work = [&](
       const int32_t thread_num, const int64_t current_node_index)
   {
-- 
2.43.0


From dfecbfc748c13abf13f585248a71f8d1cbcc41b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:33 +0000
Subject: [PATCH 06/40] fix: asymmetric roadmap connections from new states use
 the wrong direction

---
 .../simple_prm_planner.hpp                    | 35 +++++++++----------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/include/common_robotics_utilities/simple_prm_planner.hpp b/include/common_robotics_utilities/simple_prm_planner.hpp
index 4735685..34c7de2 100644
--- a/include/common_robotics_utilities/simple_prm_planner.hpp
+++ b/include/common_robotics_utilities/simple_prm_planner.hpp
@@ -273,7 +273,6 @@ int64_t AddNodeToRoadmap(
     const size_t idx = static_cast<size_t>(index);
     const auto& nearest_neighbor = nearest_neighbors.at(idx);
     const int64_t nearest_neighbor_index = nearest_neighbor.Index();
-    const double graph_to_node_distance = nearest_neighbor.Distance();
     const T& nearest_neighbor_state = roadmap.GetNodeImmutable(
         nearest_neighbor_index).GetValueImmutable();
     const bool graph_to_node_edge_validity =
@@ -282,35 +281,33 @@ int64_t AddNodeToRoadmap(
     {
       // Distance is symmetric and the edge is valid
       nearest_neighbors_distances.at(idx)
-          = std::make_pair(graph_to_node_distance,
-                           graph_to_node_distance);
+          = std::make_pair(nearest_neighbor.Distance(),
+                           nearest_neighbor.Distance());
     }
     else if (!connection_is_symmetric)
     {
       const bool node_to_graph_edge_validity =
           edge_validity_check_fn(thread_num, state, nearest_neighbor_state);
+      // KNN has already computed the distance in one direction, compute the other
+      const double other_direction_distance
+          = (nn_distance_direction == NNDistanceDirection::ROADMAP_TO_NEW_STATE)
+            ? distance_fn(state, nearest_neighbor_state)
+            : distance_fn(nearest_neighbor_state, state);
+      // Set the distance values depending on direction
+      const double graph_to_node_distance
+          = (nn_distance_direction == NNDistanceDirection::ROADMAP_TO_NEW_STATE)
+            ? nearest_neighbor.Distance() : other_direction_distance;
       const double node_to_graph_distance
-          = distance_fn(state,
-                        roadmap.GetNodeImmutable(nearest_neighbor_index)
-                            .GetValueImmutable());
+          = (nn_distance_direction == NNDistanceDirection::ROADMAP_TO_NEW_STATE)
+            ? other_direction_distance : nearest_neighbor.Distance();
       // We use -1 as a signaling value of an infeasible edge
       const double real_graph_to_node_distance
           = (graph_to_node_edge_validity) ? graph_to_node_distance : -1.0;
       const double real_node_to_graph_distance
           = (node_to_graph_edge_validity) ? node_to_graph_distance : -1.0;
-      // Set the distance values depending on direction
-      if (nn_distance_direction == NNDistanceDirection::ROADMAP_TO_NEW_STATE)
-      {
-        nearest_neighbors_distances.at(idx)
-            = std::make_pair(real_graph_to_node_distance,
-                             real_node_to_graph_distance);
-      }
-      else
-      {
-        nearest_neighbors_distances.at(idx)
-            = std::make_pair(real_node_to_graph_distance,
-                             real_graph_to_node_distance);
-      }
+      nearest_neighbors_distances.at(idx)
+          = std::make_pair(real_graph_to_node_distance,
+                           real_node_to_graph_distance);
     }
     else
     {
-- 
2.43.0


From c4b3b4c0b519c2e7fcb28bf38b5712a3d422afa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:33 +0000
Subject: [PATCH 07/40] fix: failing to add an edge to a graph leaves it
 recorded at one node only

---
 .../simple_graph.hpp                          | 37 +++++++++++++------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/include/common_robotics_utilities/simple_graph.hpp b/include/common_robotics_utilities/simple_graph.hpp
index 11a8c9d..a9cea67 100644
--- a/include/common_robotics_utilities/simple_graph.hpp
+++ b/include/common_robotics_utilities/simple_graph.hpp
@@ -332,6 +332,25 @@ public:
   }
 };
 
+/// Adds edge as an out edge of from_node and an in edge of to_node. If either
+/// cannot be added, neither is added.
+template<typename NodeType>
+void AddEdgeToNodes(
+    const typename NodeType::EdgeType& edge, NodeType& from_node,
+    NodeType& to_node)
+{
+  from_node.AddOutEdge(edge);
+  try
+  {
+    to_node.AddInEdge(edge);
+  }
+  catch (...)
+  {
+    from_node.GetOutEdgesMutable().pop_back();
+    throw;
+  }
+}
+
 template<typename GraphType>
 bool CheckGraphLinkage(const GraphType& graph)
 {
@@ -733,8 +752,7 @@ public:
           "Invalid circular edge from == to not allowed");
     }
     const EdgeType new_edge(from_index, to_index, edge_weight);
-    from_node.AddOutEdge(new_edge);
-    to_node.AddInEdge(new_edge);
+    AddEdgeToNodes(new_edge, from_node, to_node);
   }
 
   void AddEdgesBetweenNodes(const int64_t first_index,
@@ -750,11 +768,9 @@ public:
           "Invalid circular edge first == second not allowed");
     }
     const EdgeType first_edge(first_index, second_index, edge_weight);
-    first_node.AddOutEdge(first_edge);
-    second_node.AddInEdge(first_edge);
+    AddEdgeToNodes(first_edge, first_node, second_node);
     const EdgeType second_edge(second_index, first_index, edge_weight);
-    second_node.AddOutEdge(second_edge);
-    first_node.AddInEdge(second_edge);
+    AddEdgeToNodes(second_edge, second_node, first_node);
   }
 };
 
@@ -882,8 +898,7 @@ public:
 
     // Add the new edge.
     const EdgeType new_edge(from_index, to_index, edge_weight);
-    from_node.AddOutEdge(new_edge);
-    to_node.AddInEdge(new_edge);
+    AddEdgeToNodes(new_edge, from_node, to_node);
   }
 
   void AddEdgesBetweenNodes(const int64_t first_index,
@@ -908,11 +923,9 @@ public:
 
     // Add the new edges.
     const EdgeType first_edge(first_index, second_index, edge_weight);
-    first_node.AddOutEdge(first_edge);
-    second_node.AddInEdge(first_edge);
+    AddEdgeToNodes(first_edge, first_node, second_node);
     const EdgeType second_edge(second_index, first_index, edge_weight);
-    second_node.AddOutEdge(second_edge);
-    first_node.AddInEdge(second_edge);
+    AddEdgeToNodes(second_edge, second_node, first_node);
   }
 
   std::string Print() const
-- 
2.43.0


From 9192a06ffe785589b741f00215bea2957489d244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 08/40] fix: planning calls omitted solution callbacks if
 already solved

---
 .../simple_rrt_planner.hpp                       | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/common_robotics_utilities/simple_rrt_planner.hpp b/include/common_robotics_utilities/simple_rrt_planner.hpp
index 979e893..235d3d4 100644
--- a/include/common_robotics_utilities/simple_rrt_planner.hpp
+++ b/include/common_robotics_utilities/simple_rrt_planner.hpp
@@ -705,7 +705,10 @@ MultipleSolutionPlanningResults<StateType, Container> RRTPlanMultiPath(
     if (check_goal_reached_fn(tree.GetNodeImmutable(idx).GetValueImmutable()))
     {
       goal_state_indices.push_back(idx);
-      goal_reached_callback_fn(tree, idx);
+      if (goal_reached_callback_fn)
+      {
+        goal_reached_callback_fn(tree, idx);
+      }
     }
   }
 
@@ -958,10 +961,13 @@ MultipleSolutionPlanningResults<StateType, Container> BiRRTPlanMultiPath(
               active_tree_type))
       {
         goal_bridges.emplace_back(start_tree_idx, goal_tree_idx);
-        goal_bridge_callback_fn(
-            start_tree, start_tree_idx,
-            goal_tree, goal_tree_idx,
-            active_tree_type);
+        if (goal_bridge_callback_fn)
+        {
+          goal_bridge_callback_fn(
+              start_tree, start_tree_idx,
+              goal_tree, goal_tree_idx,
+              active_tree_type);
+        }
       }
     }
   }
-- 
2.43.0


From 048efa6bd09826661029dd492ca59e7f7390b81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:58 +0000
Subject: [PATCH 09/40] fix: failing to add a planner tree node leaves it
 unknown to its parent

---
 .../common_robotics_utilities/simple_rrt_planner.hpp  | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/simple_rrt_planner.hpp b/include/common_robotics_utilities/simple_rrt_planner.hpp
index 235d3d4..70899a0 100644
--- a/include/common_robotics_utilities/simple_rrt_planner.hpp
+++ b/include/common_robotics_utilities/simple_rrt_planner.hpp
@@ -248,7 +248,16 @@ public:
   {
     nodes_.emplace_back(value, parent_index);
     const int64_t new_node_index = static_cast<int64_t>(nodes_.size() - 1);
-    GetNodeMutable(parent_index).AddChildIndex(new_node_index);
+    try
+    {
+      GetNodeMutable(parent_index).AddChildIndex(new_node_index);
+    }
+    catch (...)
+    {
+      // Do not leave behind a node that is unknown to its parent.
+      nodes_.pop_back();
+      throw;
+    }
     return new_node_index;
   }
 
-- 
2.43.0


From 0cdb637f6597407bdda6a8d033318cdb1ffd6942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:58 +0000
Subject: [PATCH 10/40] fix: a NaN planning timeout is accepted and never stops
 planning

---
 include/common_robotics_utilities/simple_rrt_planner.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/common_robotics_utilities/simple_rrt_planner.hpp b/include/common_robotics_utilities/simple_rrt_planner.hpp
index 70899a0..351a1cc 100644
--- a/include/common_robotics_utilities/simple_rrt_planner.hpp
+++ b/include/common_robotics_utilities/simple_rrt_planner.hpp
@@ -1382,9 +1382,9 @@ private:
 public:
   explicit TimeoutCheckHelper(const double timeout)
   {
-    if (timeout <= 0.0)
+    if (!(timeout > 0.0))
     {
-      throw std::runtime_error("timeout <= 0.0");
+      throw std::runtime_error("timeout <= 0.0 or timeout is NaN");
     }
     timeout_ = std::chrono::duration<double>(timeout);
   }
-- 
2.43.0


From c80b5d23a8599bfac7c5ef0fb2133123216a9334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:13 +0000
Subject: [PATCH 11/40] fix: OpenMP thread count override restores the
 delivered team size

The previous setting, not the size of the team the runtime happened to
deliver, is restored when an override ends.
---
 include/common_robotics_utilities/openmp_helpers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/openmp_helpers.hpp b/include/common_robotics_utilities/openmp_helpers.hpp
index f10557c..ffd0197 100644
--- a/include/common_robotics_utilities/openmp_helpers.hpp
+++ b/include/common_robotics_utilities/openmp_helpers.hpp
@@ -162,7 +162,7 @@ public:
     {
       throw std::invalid_argument("num_threads must be greater than zero");
     }
-    starting_num_omp_threads_ = GetNumOmpThreads();
+    starting_num_omp_threads_ = GetContextMaxNumOmpThreads();
 #if defined(_OPENMP)
     omp_set_num_threads(num_threads);
 #endif
-- 
2.43.0


From e38feb88f3145bcf2bcee333cb2be89db939bc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:13 +0000
Subject: [PATCH 12/40] fix: reseeding a used XorShift1024StarPRNG gives a
 different stream

---
 include/common_robotics_utilities/simple_prngs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/simple_prngs.hpp b/include/common_robotics_utilities/simple_prngs.hpp
index 6928675..6715263 100644
--- a/include/common_robotics_utilities/simple_prngs.hpp
+++ b/include/common_robotics_utilities/simple_prngs.hpp
@@ -153,7 +153,6 @@ public:
   explicit XorShift1024StarPRNG(const uint64_t seed_val)
   {
     seed(seed_val);
-    p_ = 0;
   }
 
   static constexpr uint64_t min(void)
@@ -173,6 +172,7 @@ public:
     {
       state_[idx] = temp_seed_gen();
     }
+    p_ = 0;
   }
 
   void discard(const uint64_t z)
-- 
2.43.0


From d4bde6b4ce47f00d8c734601dfd68b39d9f80742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:39 +0000
Subject: [PATCH 13/40] fix: OpenMP thread count queries race on their result

---
 include/common_robotics_utilities/openmp_helpers.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/common_robotics_utilities/openmp_helpers.hpp b/include/common_robotics_utilities/openmp_helpers.hpp
index ffd0197..57e3962 100644
--- a/include/common_robotics_utilities/openmp_helpers.hpp
+++ b/include/common_robotics_utilities/openmp_helpers.hpp
@@ -98,7 +98,10 @@ inline int32_t GetMaxNumOmpThreads()
   int32_t max_num_threads = 0;
 #pragma omp parallel
   {
-    max_num_threads = GetContextMaxNumOmpThreads();
+#pragma omp single
+    {
+      max_num_threads = GetContextMaxNumOmpThreads();
+    }
   }
   return max_num_threads;
 #else
@@ -116,7 +119,10 @@ inline int32_t GetNumOmpThreads()
   int32_t num_threads = 0;
 #pragma omp parallel
   {
-    num_threads = GetContextNumOmpThreads();
+#pragma omp single
+    {
+      num_threads = GetContextNumOmpThreads();
+    }
   }
   return num_threads;
 #else
-- 
2.43.0


From 2e3f96daa84a38a5cd6ab774e61bf5901c7cbf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:53 +0000
Subject: [PATCH 14/40] fix: optional values destroy an object twice after a
 failed assignment

---
 include/common_robotics_utilities/maybe.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/maybe.hpp b/include/common_robotics_utilities/maybe.hpp
index a3e8248..640fd54 100644
--- a/include/common_robotics_utilities/maybe.hpp
+++ b/include/common_robotics_utilities/maybe.hpp
@@ -33,6 +33,11 @@ private:
         type_ = TYPE_B;
         break;
       }
+      case TYPE_NONE:
+      {
+        type_ = TYPE_NONE;
+        break;
+      }
     }
   }
 
@@ -52,6 +57,11 @@ private:
         type_ = TYPE_B;
         break;
       }
+      case TYPE_NONE:
+      {
+        type_ = TYPE_NONE;
+        break;
+      }
     }
   }
 
@@ -69,7 +79,12 @@ private:
         value_b_.~B();
         break;
       }
+      case TYPE_NONE:
+      {
+        break;
+      }
     }
+    type_ = TYPE_NONE;
   }
 
 public:
@@ -79,7 +94,9 @@ public:
     B value_b_;
   };
 
-  enum {TYPE_A, TYPE_B} type_{};
+  // TYPE_NONE means that neither value exists, which is only the case after
+  // assignment failed because constructing the new value threw.
+  enum {TYPE_A, TYPE_B, TYPE_NONE} type_{};
 
   explicit TaggedUnion(const A& value_a)
       : value_a_(value_a), type_(TYPE_A) {}
-- 
2.43.0


From fd3902a7187d812924e32991d556211be904a809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:18 +0000
Subject: [PATCH 15/40] fix: report failures to write compressed files

---
 src/common_robotics_utilities/zlib_helpers.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/common_robotics_utilities/zlib_helpers.cpp b/src/common_robotics_utilities/zlib_helpers.cpp
index 4ea45b5..21c76a3 100644
--- a/src/common_robotics_utilities/zlib_helpers.cpp
+++ b/src/common_robotics_utilities/zlib_helpers.cpp
@@ -156,9 +156,17 @@ void CompressAndWriteToFile(
 {
   const auto compressed = CompressBytes(uncompressed);
   std::ofstream output_file(filename, std::ios::out | std::ios::binary);
+  if (!output_file.is_open())
+  {
+    throw std::runtime_error("Failed to open file [" + filename + "]");
+  }
   output_file.write(reinterpret_cast<const char*>(compressed.data()),
                     static_cast<std::streamsize>(compressed.size()));
   output_file.close();
+  if (!output_file)
+  {
+    throw std::runtime_error("Failed to write entire contents of file");
+  }
 }
 } // namespace zlib_helpers
 CRU_NAMESPACE_END
-- 
2.43.0


From ed9090b3f12a04cd12995585eac1a98bf130a195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:51 +0000
Subject: [PATCH 16/40] fix: check sizes in damaged serialized data before
 using them

---
 .../common_robotics_utilities/serialization.hpp    | 10 ++++++++--
 src/common_robotics_utilities/serialization.cpp    | 14 ++++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/common_robotics_utilities/serialization.hpp b/include/common_robotics_utilities/serialization.hpp
index ffc28b6..6f6ee4d 100644
--- a/include/common_robotics_utilities/serialization.hpp
+++ b/include/common_robotics_utilities/serialization.hpp
@@ -473,11 +473,12 @@ DeserializeMemcpyableVectorLike(
   const uint64_t size = deserialized_size.Value();
   current_position += deserialized_size.BytesRead();
   // Deserialize the items
-  const size_t serialized_length = sizeof(T) * size;
-  if ((current_position + serialized_length) > buffer.size())
+  // Note that sizeof(T) * size may overflow if size is not valid
+  if (size > ((buffer.size() - current_position) / sizeof(T)))
   {
     throw std::invalid_argument("Not enough room in the provided buffer");
   }
+  const size_t serialized_length = sizeof(T) * size;
   VectorLike deserialized(size);
   // Only memcpy if a non-zero number of bytes will be copied, since memcpy on
   // nullptr dst/src (encountered if a vector is empty) is undefined behavior.
@@ -1004,6 +1005,11 @@ DeserializeNetworkMemcpyableVectorLike(const std::vector<uint8_t>& buffer,
   const uint64_t size = deserialized_size.Value();
   current_position += deserialized_size.BytesRead();
   // Deserialize the items
+  // Check the size before allocating and initializing items for it
+  if (size > ((buffer.size() - current_position) / sizeof(T)))
+  {
+    throw std::invalid_argument("Not enough room in the provided buffer");
+  }
   VectorLike deserialized(size);
   for (size_t idx = 0; idx < deserialized.size(); idx++)
   {
diff --git a/src/common_robotics_utilities/serialization.cpp b/src/common_robotics_utilities/serialization.cpp
index 9153c73..5e14092 100644
--- a/src/common_robotics_utilities/serialization.cpp
+++ b/src/common_robotics_utilities/serialization.cpp
@@ -1,6 +1,7 @@
 #include <common_robotics_utilities/serialization.hpp>
 
 #include <cstdint>
+#include <limits>
 #include <utility>
 #include <vector>
 
@@ -136,11 +137,20 @@ Deserialized<Eigen::MatrixXd> DeserializeMatrixXd(
   const uint64_t cols = deserialized_cols.Value();
   current_position += deserialized_cols.BytesRead();
   // Deserialize the items
-  const size_t serialized_length = sizeof(double) * rows * cols;
-  if ((current_position + serialized_length) > buffer.size())
+  const uint64_t max_size =
+      static_cast<uint64_t>(std::numeric_limits<Eigen::Index>::max());
+  if (rows > max_size || cols > max_size)
+  {
+    throw std::invalid_argument("Invalid number of rows or cols");
+  }
+  // Note that sizeof(double) * rows * cols may overflow if they are not valid
+  const uint64_t available_items =
+      (buffer.size() - current_position) / sizeof(double);
+  if (cols > 0 && rows > (available_items / cols))
   {
     throw std::invalid_argument("Not enough room in the provided buffer");
   }
+  const size_t serialized_length = sizeof(double) * rows * cols;
   Eigen::MatrixXd deserialized = Eigen::MatrixXd::Zero(
       static_cast<ssize_t>(rows), static_cast<ssize_t>(cols));
   memcpy(deserialized.data(), &buffer[current_position], serialized_length);
-- 
2.43.0


From 18400c62d029730f515121d56125d9328aeee8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:51 +0000
Subject: [PATCH 17/40] fix: base64 decoding reads outside its table for bytes
 above 127

---
 src/common_robotics_utilities/base64_helpers.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/common_robotics_utilities/base64_helpers.cpp b/src/common_robotics_utilities/base64_helpers.cpp
index 9fe6585..aa3d3e6 100644
--- a/src/common_robotics_utilities/base64_helpers.cpp
+++ b/src/common_robotics_utilities/base64_helpers.cpp
@@ -36,10 +36,10 @@ std::vector<uint8_t> Decode(const std::string& encoded)
   for (size_t i = 0, j = 0; i < L; i += 4)
   {
     const int32_t n =
-        B64IndexTable[static_cast<size_t>(encoded[i])] << 18
-        | B64IndexTable[static_cast<size_t>(encoded[i + 1])] << 12
-        | B64IndexTable[static_cast<size_t>(encoded[i + 2])] << 6
-        | B64IndexTable[static_cast<size_t>(encoded[i + 3])];
+        B64IndexTable[static_cast<uint8_t>(encoded[i])] << 18
+        | B64IndexTable[static_cast<uint8_t>(encoded[i + 1])] << 12
+        | B64IndexTable[static_cast<uint8_t>(encoded[i + 2])] << 6
+        | B64IndexTable[static_cast<uint8_t>(encoded[i + 3])];
     buffer[j++] = static_cast<uint8_t>(n >> 16);
     buffer[j++] = static_cast<uint8_t>(n >> 8 & 0xFF);
     buffer[j++] = static_cast<uint8_t>(n & 0xFF);
@@ -47,12 +47,12 @@ std::vector<uint8_t> Decode(const std::string& encoded)
   if (pad > 0)
   {
     int32_t n =
-        B64IndexTable[static_cast<size_t>(encoded[L])] << 18
-        | B64IndexTable[static_cast<size_t>(encoded[L + 1])] << 12;
+        B64IndexTable[static_cast<uint8_t>(encoded[L])] << 18
+        | B64IndexTable[static_cast<uint8_t>(encoded[L + 1])] << 12;
     buffer[buffer.size() - 1] = static_cast<uint8_t>(n >> 16);
     if (encoded_length > L + 2 && encoded[L + 2] != '=')
     {
-      n |= B64IndexTable[static_cast<size_t>(encoded[L + 2])] << 6;
+      n |= B64IndexTable[static_cast<uint8_t>(encoded[L + 2])] << 6;
       buffer.push_back(static_cast<uint8_t>(n >> 8 & 0xFF));
     }
   }
-- 
2.43.0


From 87c53d6c86403871b55be58d2d6e40c9c261d8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 18/40] fix: grid sizes whose cell count overflows are accepted

---
 .../common_robotics_utilities/voxel_grid.hpp  | 45 ++++++++++---------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/include/common_robotics_utilities/voxel_grid.hpp b/include/common_robotics_utilities/voxel_grid.hpp
index 2606ac1..5caf7a6 100644
--- a/include/common_robotics_utilities/voxel_grid.hpp
+++ b/include/common_robotics_utilities/voxel_grid.hpp
@@ -2,6 +2,7 @@
 
 #include <cmath>
 #include <cstdint>
+#include <limits>
 #include <memory>
 #include <ostream>
 #include <stdexcept>
@@ -84,6 +85,15 @@ private:
     return (param > 0);
   }
 
+  // The total number of cells must be representable.
+  static bool CheckTotalCells(const int64_t num_x_cells,
+                              const int64_t num_y_cells,
+                              const int64_t num_z_cells)
+  {
+    return (num_x_cells <= std::numeric_limits<int64_t>::max() / num_y_cells
+                               / num_z_cells);
+  }
+
   bool Initialize(
       const double cell_x_size,
       const double cell_y_size,
@@ -97,27 +107,17 @@ private:
         CheckPositiveValid(cell_z_size) && CheckPositiveValid(x_size) &&
         CheckPositiveValid(y_size) && CheckPositiveValid(z_size))
     {
-      // Set
-      cell_x_size_ = cell_x_size;
-      cell_y_size_ = cell_y_size;
-      cell_z_size_ = cell_z_size;
-      inv_cell_x_size_ = 1.0 / cell_x_size_;
-      inv_cell_y_size_ = 1.0 / cell_y_size_;
-      inv_cell_z_size_ = 1.0 / cell_z_size_;
-      num_x_cells_
-          = static_cast<int64_t>(std::ceil(x_size / cell_x_size));
-      num_y_cells_
-          = static_cast<int64_t>(std::ceil(y_size / cell_y_size));
-      num_z_cells_
-          = static_cast<int64_t>(std::ceil(z_size / cell_z_size));
-      x_size_ = static_cast<double>(num_x_cells_) * cell_x_size_;
-      y_size_ = static_cast<double>(num_y_cells_) * cell_y_size_;
-      z_size_ = static_cast<double>(num_z_cells_) * cell_z_size_;
-      stride1_ = num_y_cells_ * num_z_cells_;
-      stride2_ = num_z_cells_;
-      valid_ = true;
-
-      return true;
+      const double num_x_cells = std::ceil(x_size / cell_x_size);
+      const double num_y_cells = std::ceil(y_size / cell_y_size);
+      const double num_z_cells = std::ceil(z_size / cell_z_size);
+      // The smallest double that is too large to convert to int64_t
+      const double cell_limit = std::ldexp(1.0, 63);
+      return (num_x_cells < cell_limit && num_y_cells < cell_limit &&
+              num_z_cells < cell_limit &&
+              Initialize(cell_x_size, cell_y_size, cell_z_size,
+                         static_cast<int64_t>(num_x_cells),
+                         static_cast<int64_t>(num_y_cells),
+                         static_cast<int64_t>(num_z_cells)));
     }
     else
     {
@@ -136,7 +136,8 @@ private:
     // Safety check
     if (CheckPositiveValid(cell_x_size) && CheckPositiveValid(cell_y_size) &&
         CheckPositiveValid(cell_z_size) && CheckPositiveValid(num_x_cells) &&
-        CheckPositiveValid(num_y_cells) && CheckPositiveValid(num_z_cells))
+        CheckPositiveValid(num_y_cells) && CheckPositiveValid(num_z_cells) &&
+        CheckTotalCells(num_x_cells, num_y_cells, num_z_cells))
     {
       // Set
       cell_x_size_ = cell_x_size;
-- 
2.43.0


From 2ab6b7b476932488c2d241bb82efb8c752d9763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 19/40] fix: failed zlib initialisation ends an uninitialised
 stream

---
 src/common_robotics_utilities/zlib_helpers.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/common_robotics_utilities/zlib_helpers.cpp b/src/common_robotics_utilities/zlib_helpers.cpp
index 21c76a3..d521f1c 100644
--- a/src/common_robotics_utilities/zlib_helpers.cpp
+++ b/src/common_robotics_utilities/zlib_helpers.cpp
@@ -28,7 +28,6 @@ std::vector<uint8_t> DecompressBytes(const std::vector<uint8_t>& compressed)
     int ret = inflateInit(&strm);
     if (ret != Z_OK)
     {
-      inflateEnd(&strm);
       throw std::runtime_error(
           "ZLIB can't init inflate stream (ret = " + std::to_string(ret) + ")");
     }
@@ -82,7 +81,6 @@ std::vector<uint8_t> CompressBytes(const std::vector<uint8_t>& uncompressed)
     int ret = deflateInit(&strm, Z_BEST_SPEED);
     if (ret != Z_OK)
     {
-      deflateEnd(&strm);
       throw std::runtime_error(
           "ZLIB can't init deflate stream (ret = " + std::to_string(ret) + ")");
     }
-- 
2.43.0


From e9548d1414de8d8fd40021c188623433041de5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:16 +0000
Subject: [PATCH 20/40] fix: setting a sparse grid location that is not finite
 never returns

---
 .../dynamic_spatial_hashed_voxel_grid.hpp                    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 72c56bb..d6381bc 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -739,6 +739,11 @@ private:
   void AllocateChunkAt(
       const ChunkRegion& chunk_region, const DSHVGFillType fill_type)
   {
+    // A chunk at a non-finite location could never be found again.
+    if (!chunk_region.Base().allFinite())
+    {
+      throw std::invalid_argument("Cannot allocate chunk: not finite");
+    }
     const auto result = chunks_.emplace(
         chunk_region,
         GridChunk(chunk_region, chunk_sizes_, fill_type, default_value_));
-- 
2.43.0


From 6b690b04e473a3af6f36c14c13bb0d3bde2f313d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:47 +0000
Subject: [PATCH 21/40] fix: mutable access to a voxel grid index is vetoed at
 the wrong index

---
 include/common_robotics_utilities/voxel_grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/voxel_grid.hpp b/include/common_robotics_utilities/voxel_grid.hpp
index 5caf7a6..3f2191f 100644
--- a/include/common_robotics_utilities/voxel_grid.hpp
+++ b/include/common_robotics_utilities/voxel_grid.hpp
@@ -662,7 +662,7 @@ private:
 
   bool OnMutableAccess(const GridIndex& index)
   {
-    return OnMutableAccess(index.X(), index.Y(), index.Y());
+    return OnMutableAccess(index.X(), index.Y(), index.Z());
   }
 
 protected:
-- 
2.43.0


From eaa8db652e796de4a2d4941312af80c167b5145d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:47 +0000
Subject: [PATCH 22/40] fix: failed voxel grid operations lose or garble the
 contents

---
 .../common_robotics_utilities/voxel_grid.hpp  | 58 +++++++++++++------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/include/common_robotics_utilities/voxel_grid.hpp b/include/common_robotics_utilities/voxel_grid.hpp
index 3f2191f..d065c6c 100644
--- a/include/common_robotics_utilities/voxel_grid.hpp
+++ b/include/common_robotics_utilities/voxel_grid.hpp
@@ -7,6 +7,7 @@
 #include <ostream>
 #include <stdexcept>
 #include <string>
+#include <utility>
 #include <vector>
 
 #include <Eigen/Geometry>
@@ -577,11 +578,19 @@ private:
     }
   }
 
+  static BackingStore MakeContents(const GridSizes& sizes, const T& value)
+  {
+    BackingStore contents;
+    contents.resize(static_cast<typename BackingStore::size_type>(
+        sizes.TotalCells()), value);
+    return contents;
+  }
+
   void SetContents(const T& value)
   {
-    data_.clear();
-    data_.resize(static_cast<typename BackingStore::size_type>(
-        sizes_.TotalCells()), value);
+    // The existing contents must survive a failure to make the new contents,
+    // and value may refer to one of the existing cells.
+    data_ = MakeContents(sizes_, value);
   }
 
   uint64_t BaseSerializeSelf(
@@ -617,31 +626,27 @@ private:
     // Deserialize the transforms
     const auto origin_transform_deserialized
         = serialization::DeserializeIsometry3d(buffer, current_position);
-    origin_transform_ = origin_transform_deserialized.Value();
     current_position += origin_transform_deserialized.BytesRead();
-    inverse_origin_transform_ = origin_transform_.inverse();
     // Deserialize the default value
-    const auto default_value_deserialized
+    auto default_value_deserialized
         = value_deserializer(buffer, current_position);
-    default_value_ = default_value_deserialized.Value();
     current_position += default_value_deserialized.BytesRead();
     // Deserialize the OOB value
-    const auto oob_value_deserialized
+    auto oob_value_deserialized
         = value_deserializer(buffer, current_position);
-    oob_value_ = oob_value_deserialized.Value();
     current_position += oob_value_deserialized.BytesRead();
     // Deserialize the data
-    const auto data_deserialized
+    auto data_deserialized
         = serialization::DeserializeVectorLike<T, BackingStore>(
               buffer, current_position, value_deserializer);
-    data_ = data_deserialized.Value();
     current_position += data_deserialized.BytesRead();
     // Deserialize the cell sizes
     const auto sizes_deserialized
         = GridSizes::Deserialize(buffer, current_position);
-    sizes_ = sizes_deserialized.Value();
+    const GridSizes& sizes = sizes_deserialized.Value();
     current_position += sizes_deserialized.BytesRead();
-    if (sizes_.TotalCells() != static_cast<int64_t>(data_.size()))
+    if (sizes.TotalCells()
+        != static_cast<int64_t>(data_deserialized.Value().size()))
     {
       throw std::runtime_error("sizes_.NumCells() != data_.size()");
     }
@@ -649,12 +654,21 @@ private:
     const auto initialized_deserialized
         = serialization::DeserializeMemcpyable<uint8_t>(buffer,
                                                         current_position);
-    initialized_ = static_cast<bool>(initialized_deserialized.Value());
+    const bool initialized
+        = static_cast<bool>(initialized_deserialized.Value());
     current_position += initialized_deserialized.BytesRead();
-    if (sizes_.Valid() != initialized_)
+    if (sizes.Valid() != initialized)
     {
       throw std::runtime_error("sizes_.Valid() != initialized_");
     }
+    // Only change the grid once everything has been deserialized
+    origin_transform_ = origin_transform_deserialized.Value();
+    inverse_origin_transform_ = origin_transform_.inverse();
+    default_value_ = std::move(default_value_deserialized.MutableValue());
+    oob_value_ = std::move(oob_value_deserialized.MutableValue());
+    data_ = std::move(data_deserialized.MutableValue());
+    sizes_ = sizes;
+    initialized_ = initialized;
     // Figure out how many bytes were read
     const uint64_t bytes_read = current_position - starting_offset;
     return bytes_read;
@@ -726,12 +740,17 @@ public:
   {
     if (sizes.Valid())
     {
+      // Make everything that may fail first, so that a failure leaves an
+      // already initialized grid as it was.
+      BackingStore new_data = MakeContents(sizes, default_value);
+      T new_default_value = default_value;
+      T new_oob_value = oob_value;
       origin_transform_ = origin_transform;
       inverse_origin_transform_ = origin_transform_.inverse();
-      default_value_ = default_value;
-      oob_value_ = oob_value;
+      default_value_ = std::move(new_default_value);
+      oob_value_ = std::move(new_oob_value);
+      data_ = std::move(new_data);
       sizes_ = sizes;
-      SetContents(default_value_);
       initialized_ = true;
     }
     else
@@ -1287,7 +1306,8 @@ public:
       const int64_t expected_length = GetTotalCells();
       if (static_cast<int64_t>(data.size()) == expected_length)
       {
-        data_ = data;
+        BackingStore new_data = data;
+        data_ = std::move(new_data);
       }
       else
       {
-- 
2.43.0


From 522596172daf2314d297ac7f50f9d8357be8ac3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 23/40] fix: failed sparse voxel grid operations lose or garble
 the contents

---
 .../dynamic_spatial_hashed_voxel_grid.hpp     | 74 ++++++++++++-------
 1 file changed, 48 insertions(+), 26 deletions(-)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index d6381bc..6fb82e8 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -6,6 +6,7 @@
 #include <stdexcept>
 #include <string>
 #include <unordered_map>
+#include <utility>
 #include <vector>
 
 #include <Eigen/Geometry>
@@ -238,18 +239,26 @@ private:
     }
   }
 
+  void SetContents(
+      const typename BackingStore::size_type size, const T& value)
+  {
+    // The existing contents must survive a failure to make the new contents,
+    // and value may refer to one of the existing cells.
+    BackingStore contents;
+    contents.resize(size, value);
+    data_ = std::move(contents);
+  }
+
   void SetCellFilledContents(const T& value)
   {
-    data_.clear();
-    data_.resize(static_cast<typename BackingStore::size_type>(
+    SetContents(static_cast<typename BackingStore::size_type>(
         sizes_.TotalCells()), value);
     fill_status_ = DSHVGFillStatus::CELL_FILLED;
   }
 
   void SetChunkFilledContents(const T& value)
   {
-    data_.clear();
-    data_.resize(1, value);
+    SetContents(1, value);
     fill_status_ = DSHVGFillStatus::CHUNK_FILLED;
   }
 
@@ -334,48 +343,52 @@ public:
     // Deserialize the transforms
     const auto region_deserialized
         = ChunkRegion::Deserialize(buffer, current_position);
-    region_ = region_deserialized.Value();
     current_position += region_deserialized.BytesRead();
     // Deserialize the cell sizes
     const auto sizes_deserialized
         = GridSizes::Deserialize(buffer, current_position);
-    sizes_ = sizes_deserialized.Value();
+    const GridSizes& sizes = sizes_deserialized.Value();
     current_position += sizes_deserialized.BytesRead();
     // Deserialize the data
-    const auto data_deserialized
+    auto data_deserialized
         = serialization::DeserializeVectorLike<T, BackingStore>(
               buffer, current_position, value_deserializer);
-    data_ = data_deserialized.Value();
+    BackingStore& data = data_deserialized.MutableValue();
     current_position += data_deserialized.BytesRead();
     // Deserialize the fill status
     const auto fill_status_deserialized
         = serialization::DeserializeMemcpyable<uint8_t>(buffer,
                                                         current_position);
-    fill_status_ =
+    const DSHVGFillStatus fill_status =
         static_cast<DSHVGFillStatus>(fill_status_deserialized.Value());
     current_position += fill_status_deserialized.BytesRead();
     // Safety checks
-    if (fill_status_ == DSHVGFillStatus::CELL_FILLED)
+    if (fill_status == DSHVGFillStatus::CELL_FILLED)
     {
-      if (static_cast<int64_t>(data_.size()) != sizes_.TotalCells())
+      if (static_cast<int64_t>(data.size()) != sizes.TotalCells())
       {
         throw std::runtime_error("sizes_.NumCells() != data_.size()");
       }
     }
-    else if (fill_status_ == DSHVGFillStatus::CHUNK_FILLED)
+    else if (fill_status == DSHVGFillStatus::CHUNK_FILLED)
     {
-      if (data_.size() != 1)
+      if (data.size() != 1)
       {
         throw std::runtime_error("sizes_.NumCells() != 1");
       }
     }
     else
     {
-      if (data_.size() != 0)
+      if (data.size() != 0)
       {
         throw std::runtime_error("sizes_.NumCells() != 0");
       }
     }
+    // Only change the chunk once everything has been deserialized
+    region_ = region_deserialized.Value();
+    data_ = std::move(data);
+    sizes_ = sizes;
+    fill_status_ = fill_status;
     // Figure out how many bytes were read
     const uint64_t bytes_read = current_position - starting_offset;
     return bytes_read;
@@ -506,9 +519,11 @@ public:
   {
     if (fill_status_ == DSHVGFillStatus::CHUNK_FILLED)
     {
+      // value may refer to the existing chunk value
+      const T cell_value = value;
       const T initial_value = AccessIndex(0);
       SetCellFilledContents(initial_value);
-      fill_status_ = DSHVGFillStatus::CELL_FILLED;
+      return SetCellLocation4d(location, cell_value);
     }
     if (fill_status_ == DSHVGFillStatus::CELL_FILLED)
     {
@@ -534,9 +549,11 @@ public:
   {
     if (fill_status_ == DSHVGFillStatus::CHUNK_FILLED)
     {
+      // value may refer to the existing chunk value
+      const T cell_value = value;
       const T initial_value = AccessIndex(0);
       SetCellFilledContents(initial_value);
-      fill_status_ = DSHVGFillStatus::CELL_FILLED;
+      return SetCellLocation4d(location, cell_value);
     }
     if (fill_status_ == DSHVGFillStatus::CELL_FILLED)
     {
@@ -665,18 +682,15 @@ private:
     // Deserialize the transforms
     const auto origin_transform_deserialized
         = serialization::DeserializeIsometry3d(buffer, current_position);
-    origin_transform_ = origin_transform_deserialized.Value();
     current_position += origin_transform_deserialized.BytesRead();
-    inverse_origin_transform_ = origin_transform_.inverse();
     // Deserialize the default value
-    const auto default_value_deserialized
+    auto default_value_deserialized
         = value_deserializer(buffer, current_position);
-    default_value_ = default_value_deserialized.Value();
     current_position += default_value_deserialized.BytesRead();
     // Deserialize the chunk sizes
     const auto chunk_sizes_deserialized
         = GridSizes::Deserialize(buffer, current_position);
-    chunk_sizes_ = chunk_sizes_deserialized.Value();
+    const GridSizes& chunk_sizes = chunk_sizes_deserialized.Value();
     current_position += chunk_sizes_deserialized.BytesRead();
     // Deserialize the data
     const auto chunk_deserializer
@@ -686,27 +700,35 @@ private:
       return GridChunk::Deserialize(
           deserialize_buffer, offset, value_deserializer);
     };
-    const auto chunks_deserialized
+    auto chunks_deserialized
         = serialization::DeserializeMapLike<ChunkRegion, GridChunk, ChunkMap>(
             buffer, current_position, ChunkRegion::Deserialize,
             chunk_deserializer);
-    chunks_ = chunks_deserialized.Value();
+    ChunkMap& chunks = chunks_deserialized.MutableValue();
     current_position += chunks_deserialized.BytesRead();
     // Deserialize the initialized
     const auto initialized_deserialized
         = serialization::DeserializeMemcpyable<uint8_t>(buffer,
                                                         current_position);
-    initialized_ = static_cast<bool>(initialized_deserialized.Value());
+    const bool initialized
+        = static_cast<bool>(initialized_deserialized.Value());
     current_position += initialized_deserialized.BytesRead();
     // Safety checks
-    if (chunk_sizes_.Valid() != initialized_)
+    if (chunk_sizes.Valid() != initialized)
     {
       throw std::runtime_error("sizes_.Valid() != initialized_");
     }
-    if (chunks_.size() > 0 && !chunk_sizes_.Valid())
+    if (chunks.size() > 0 && !chunk_sizes.Valid())
     {
       throw std::runtime_error("chunks.size() > 0 with invalid chunk sizes");
     }
+    // Only change the grid once everything has been deserialized
+    origin_transform_ = origin_transform_deserialized.Value();
+    inverse_origin_transform_ = origin_transform_.inverse();
+    default_value_ = std::move(default_value_deserialized.MutableValue());
+    chunk_sizes_ = chunk_sizes;
+    chunks_ = std::move(chunks);
+    initialized_ = initialized;
     // Figure out how many bytes were read
     const uint64_t bytes_read = current_position - starting_offset;
     return bytes_read;
-- 
2.43.0


From 74a6e4e16534c7324de58bedce3fa730dc1c8f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:55 +0000
Subject: [PATCH 24/40] fix: sparse grid locations at chunk boundaries cannot
 be accessed

---
 .../dynamic_spatial_hashed_voxel_grid.hpp     | 56 +++++++++++++++----
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 6fb82e8..da4157b 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <cstdint>
 #include <memory>
@@ -193,12 +194,19 @@ private:
     // Ok, we're inside the chunk
     else
     {
-      const int64_t x_cell = static_cast<int64_t>(
-          std::floor(location_wrt_chunk(0) / sizes_.CellXSize()));
-      const int64_t y_cell = static_cast<int64_t>(
-          std::floor(location_wrt_chunk(1) / sizes_.CellYSize()));
-      const int64_t z_cell = static_cast<int64_t>(
-          std::floor(location_wrt_chunk(2) / sizes_.CellZSize()));
+      // Rounding may place a location just inside the chunk past the last cell.
+      const int64_t x_cell = std::min(
+          static_cast<int64_t>(
+              std::floor(location_wrt_chunk(0) / sizes_.CellXSize())),
+          sizes_.NumXCells() - 1);
+      const int64_t y_cell = std::min(
+          static_cast<int64_t>(
+              std::floor(location_wrt_chunk(1) / sizes_.CellYSize())),
+          sizes_.NumYCells() - 1);
+      const int64_t z_cell = std::min(
+          static_cast<int64_t>(
+              std::floor(location_wrt_chunk(2) / sizes_.CellZSize())),
+          sizes_.NumZCells() - 1);
       if (x_cell < 0 || y_cell < 0 || z_cell < 0 || x_cell >= sizes_.NumXCells()
           || y_cell >= sizes_.NumYCells() || z_cell >= sizes_.NumZCells())
       {
@@ -758,6 +766,33 @@ private:
     }
   }
 
+  // Rounding may place a location in a chunk region that ends just before, or
+  // begins just after, the location. Returns the closest location that is inside
+  // the given region.
+  Eigen::Vector4d MoveIntoChunkRegion(
+      const Eigen::Vector4d& grid_location,
+      const ChunkRegion& chunk_region) const
+  {
+    const Eigen::Vector3d chunk_sizes = chunk_sizes_.Sizes();
+    const Eigen::Vector3d cell_sizes = chunk_sizes_.CellSizes();
+    Eigen::Vector4d location_in_region = grid_location;
+    for (int axis = 0; axis < 3; axis++)
+    {
+      const double base = chunk_region.Base()(axis);
+      const double offset = grid_location(axis) - base;
+      if (offset < 0.0)
+      {
+        location_in_region(axis) = base;
+      }
+      else if (offset >= chunk_sizes(axis))
+      {
+        location_in_region(axis)
+            = base + chunk_sizes(axis) - cell_sizes(axis) * 0.5;
+      }
+    }
+    return location_in_region;
+  }
+
   void AllocateChunkAt(
       const ChunkRegion& chunk_region, const DSHVGFillType fill_type)
   {
@@ -893,7 +928,7 @@ public:
     if (found_chunk_itr != chunks_.end())
     {
       return found_chunk_itr->second.GetLocationImmutable4d(
-          grid_frame_location);
+          MoveIntoChunkRegion(grid_frame_location, region));
     }
     else
     {
@@ -925,7 +960,8 @@ public:
     {
       if (OnMutableAccess(grid_frame_location))
       {
-        return found_chunk_itr->second.GetLocationMutable4d(grid_frame_location);
+        return found_chunk_itr->second.GetLocationMutable4d(
+            MoveIntoChunkRegion(grid_frame_location, region));
       }
       else
       {
@@ -969,7 +1005,7 @@ public:
         if (set_type == DSHVGSetType::SET_CELL)
         {
           return found_chunk_itr->second.SetCellLocation4d(
-              grid_frame_location, value);
+              MoveIntoChunkRegion(grid_frame_location, region), value);
         }
         else
         {
@@ -1022,7 +1058,7 @@ public:
         if (set_type == DSHVGSetType::SET_CELL)
         {
           return found_chunk_itr->second.SetCellLocation4d(
-              grid_frame_location, value);
+              MoveIntoChunkRegion(grid_frame_location, region), value);
         }
         else
         {
-- 
2.43.0


From 2c55d8ca7a1663787a9678ebbb054c8232c3ca77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 25/40] fix: failed assignment of a sparse grid mixes its
 chunks with other sizes

---
 .../dynamic_spatial_hashed_voxel_grid.hpp     | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index da4157b..ee6be6f 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -873,6 +873,26 @@ public:
 
   DynamicSpatialHashedVoxelGridBase() = default;
 
+  DynamicSpatialHashedVoxelGridBase(
+      const DynamicSpatialHashedVoxelGridBase<T, BackingStore>& other)
+      = default;
+
+  DynamicSpatialHashedVoxelGridBase<T, BackingStore>& operator=(
+      const DynamicSpatialHashedVoxelGridBase<T, BackingStore>& other)
+  {
+    // Make everything that may fail first, so that a failure never combines the
+    // existing chunks with the sizes of the other grid's chunks.
+    T new_default_value = other.default_value_;
+    ChunkMap new_chunks = other.chunks_;
+    origin_transform_ = other.origin_transform_;
+    inverse_origin_transform_ = other.inverse_origin_transform_;
+    default_value_ = std::move(new_default_value);
+    chunk_sizes_ = other.chunk_sizes_;
+    chunks_ = std::move(new_chunks);
+    initialized_ = other.initialized_;
+    return *this;
+  }
+
   virtual ~DynamicSpatialHashedVoxelGridBase() {}
 
   std::unique_ptr<DynamicSpatialHashedVoxelGridBase<T, BackingStore>>
-- 
2.43.0


From bf58387fccee5ab1c4a97a8bfb57a5b68a52f2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:58 +0000
Subject: [PATCH 26/40] fix: take the cheapest predecessor in SimpleDTW when
 two of them tie

---
 .../common_robotics_utilities/simple_dtw.hpp   | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/include/common_robotics_utilities/simple_dtw.hpp b/include/common_robotics_utilities/simple_dtw.hpp
index b8d3be8..cecd23a 100644
--- a/include/common_robotics_utilities/simple_dtw.hpp
+++ b/include/common_robotics_utilities/simple_dtw.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cstdint>
 #include <functional>
 #include <limits>
@@ -85,24 +86,11 @@ public:
         const SecondDatatype& second_item
             = second_sequence[static_cast<size_t>(j - 1)];
         const double index_cost = distance_fn(first_item, second_item);
-        double prev_cost = 0.0;
-        // Get the next neighboring values from the matrix to use for the update
+        // Get the best of the three neighboring costs to use for the update
         const double im1j = dtw_matrix_(i - 1, j);
         const double im1jm1 = dtw_matrix_(i - 1, j - 1);
         const double ijm1 = dtw_matrix_(i, j - 1);
-        // Start the update step
-        if (im1j < im1jm1 && im1j < ijm1)
-        {
-          prev_cost = im1j;
-        }
-        else if (ijm1 < im1j && ijm1 < im1jm1)
-        {
-          prev_cost = ijm1;
-        }
-        else
-        {
-          prev_cost = im1jm1;
-        }
+        const double prev_cost = std::min(im1jm1, std::min(im1j, ijm1));
         // Update the value in the matrix
         const double new_cost = index_cost + prev_cost;
         dtw_matrix_(i, j) = new_cost;
-- 
2.43.0


From 5e2cf15609f055e145db8025fd69cedfbbebb73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:58 +0000
Subject: [PATCH 27/40] fix: keep SimpleDTW valid when growing its matrix runs
 out of memory

---
 include/common_robotics_utilities/simple_dtw.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/common_robotics_utilities/simple_dtw.hpp b/include/common_robotics_utilities/simple_dtw.hpp
index cecd23a..29b5a9e 100644
--- a/include/common_robotics_utilities/simple_dtw.hpp
+++ b/include/common_robotics_utilities/simple_dtw.hpp
@@ -28,18 +28,21 @@ protected:
     const ssize_t cols = second_sequence_size + 1;
     if (dtw_matrix_.rows() < rows || dtw_matrix_.cols() < cols)
     {
-      dtw_matrix_ = Eigen::MatrixXd::Zero(rows, cols);
+      // Swap in the new matrix only once it is complete, since an Eigen matrix
+      // whose resize runs out of memory is no longer valid.
+      Eigen::MatrixXd new_matrix = Eigen::MatrixXd::Zero(rows, cols);
       if (rows > 1 && cols > 1)
       {
         for (ssize_t row = 1; row < rows; row++)
         {
-          dtw_matrix_(row, 0) = std::numeric_limits<double>::infinity();
+          new_matrix(row, 0) = std::numeric_limits<double>::infinity();
         }
         for (ssize_t col = 1; col < cols; col++)
         {
-          dtw_matrix_(0, col) = std::numeric_limits<double>::infinity();
+          new_matrix(0, col) = std::numeric_limits<double>::infinity();
         }
       }
+      dtw_matrix_.swap(new_matrix);
     }
   }
 
-- 
2.43.0


From aa299ae77cba2be8284a322929dba60c8a5b7c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:59 +0000
Subject: [PATCH 28/40] fix: do not share the cached segment between copies of
 a TOTP trajectory

---
 .../time_optimal_trajectory_parametrization.cpp       | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index 0e78e75..af1d019 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -273,6 +273,17 @@ public:
              const Eigen::VectorXd& max_acceleration,
              const double timestep = 0.001);
 
+  // A copy starts without a cached segment, since the cached segment of the
+  // other trajectory is part of that trajectory.
+  Trajectory(const Trajectory& other)
+    : path_(other.path_),
+      max_velocity_(other.max_velocity_),
+      max_acceleration_(other.max_acceleration_),
+      n_(other.n_),
+      trajectory_(other.trajectory_),
+      time_step_(other.time_step_),
+      cached_time_(std::numeric_limits<double>::max()) {}
+
   // Returns the optimal duration of the trajectory
   double Duration() const;
 
-- 
2.43.0


From b09740600bd424084b34e78d7ae1c7dbca936aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:59 +0000
Subject: [PATCH 29/40] fix: reject negative and NaN times before looking up
 the TOTP segment

---
 .../time_optimal_trajectory_parametrization.cpp               | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index af1d019..50e747b 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -1131,6 +1131,10 @@ Trajectory::GetTrajectorySegment(double time) const
 std::pair<Eigen::VectorXd, Eigen::VectorXd> Trajectory::GetPositionVelocity(
     const double time) const
 {
+  if (!(time >= 0.0))
+  {
+    throw std::invalid_argument("time must be >= 0");
+  }
   std::list<TrajectoryStep>::const_iterator it = GetTrajectorySegment(time);
   std::list<TrajectoryStep>::const_iterator previous = it;
   previous--;
-- 
2.43.0


From f8178922d4470bc83f25a24c4784098a819aba52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:59 +0000
Subject: [PATCH 30/40] fix: release path segments when building or copying a
 TOTP path fails

---
 ...ime_optimal_trajectory_parametrization.cpp | 41 ++++++++-----------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index 50e747b..1db0e17 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -233,8 +233,6 @@ public:
 
   Path(const Path& path);
 
-  ~Path();
-
   double Length() const;
 
   Eigen::VectorXd GetConfig(const double s) const;
@@ -255,7 +253,7 @@ private:
 
   std::list<std::pair<double, bool>> switching_points_;
 
-  std::list<PathSegment*> path_segments_;
+  std::list<std::unique_ptr<PathSegment>> path_segments_;
 };
 
 class Trajectory
@@ -393,22 +391,25 @@ Path::Path(const std::list<Eigen::VectorXd>& path, const double max_deviation)
     config3++;
     if (max_deviation > 0.0 && config3 != path.end())
     {
-      CircularPathSegment* blend_segment
-          = new CircularPathSegment(0.5 * (*config1 + *config2),
-                                    *config2, 0.5 * (*config2 + *config3),
-                                    max_deviation);
+      std::unique_ptr<PathSegment> blend_segment(
+          new CircularPathSegment(0.5 * (*config1 + *config2),
+                                  *config2, 0.5 * (*config2 + *config3),
+                                  max_deviation));
       const Eigen::VectorXd end_config = blend_segment->GetConfig(0.0);
       if ((end_config - start_config).norm() > 0.000001)
       {
         path_segments_.push_back(
-              new LinearPathSegment(start_config, end_config));
+              std::unique_ptr<PathSegment>(
+                  new LinearPathSegment(start_config, end_config)));
       }
-      path_segments_.push_back(blend_segment);
       start_config = blend_segment->GetConfig(blend_segment->Length());
+      path_segments_.push_back(std::move(blend_segment));
     }
     else
     {
-      path_segments_.push_back(new LinearPathSegment(start_config, *config2));
+      path_segments_.push_back(
+          std::unique_ptr<PathSegment>(
+              new LinearPathSegment(start_config, *config2)));
       start_config = *config2;
     }
     config1 = config2;
@@ -416,7 +417,7 @@ Path::Path(const std::list<Eigen::VectorXd>& path, const double max_deviation)
   }
   // Create std::list of switching point candidates,
   // calculate total path length and absolute positions of path segments
-  for (std::list<PathSegment*>::iterator segment = path_segments_.begin();
+  for (auto segment = path_segments_.begin();
        segment != path_segments_.end(); segment++)
   {
     (*segment)->position = length_;
@@ -442,17 +443,9 @@ Path::Path(const std::list<Eigen::VectorXd>& path, const double max_deviation)
 Path::Path(const Path& path)
   : length_(path.length_), switching_points_(path.switching_points_)
 {
-  for (const auto* segment : path.path_segments_)
-  {
-    path_segments_.push_back(segment->Clone());
-  }
-}
-
-Path::~Path()
-{
-  for (auto* segment : path_segments_)
+  for (const auto& segment : path.path_segments_)
   {
-    delete segment;
+    path_segments_.push_back(std::unique_ptr<PathSegment>(segment->Clone()));
   }
 }
 
@@ -460,8 +453,8 @@ double Path::Length() const { return length_; }
 
 PathSegment* Path::GetPathSegment(double& s) const
 {
-  std::list<PathSegment*>::const_iterator it = path_segments_.begin();
-  std::list<PathSegment*>::const_iterator next = it;
+  auto it = path_segments_.begin();
+  auto next = it;
   next++;
   while (next != path_segments_.end() && s >= (*next)->position)
   {
@@ -469,7 +462,7 @@ PathSegment* Path::GetPathSegment(double& s) const
     next++;
   }
   s -= (*it)->position;
-  return *it;
+  return it->get();
 }
 
 Eigen::VectorXd Path::GetConfig(const double s) const
-- 
2.43.0


From c75251f0606f64e2510235e11a41b34a77378d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:37 +0000
Subject: [PATCH 31/40] fix: choose from ranges whose size the value type
 cannot represent

---
 include/common_robotics_utilities/utility.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/common_robotics_utilities/utility.hpp b/include/common_robotics_utilities/utility.hpp
index 72d9a62..e9e7445 100644
--- a/include/common_robotics_utilities/utility.hpp
+++ b/include/common_robotics_utilities/utility.hpp
@@ -2,9 +2,11 @@
 
 #include <atomic>
 #include <chrono>
+#include <cmath>
 #include <cstdlib>
 #include <functional>
 #include <future>
+#include <limits>
 #include <stdexcept>
 #include <string>
 #include <map>
@@ -261,10 +263,19 @@ SizeType GetUniformRandomInRange(
   {
     throw std::invalid_argument("start must be <= end");
   }
-  const SizeType range = end - start;
-  const SizeType offset =
-      GetUniformRandomIndex<SizeType>(uniform_unit_real_fn, range + 1);
-  return start + offset;
+  // The size of the range may not be representable in a signed SizeType, and
+  // the number of values in it may not be representable at all.
+  using UnsignedType = typename std::make_unsigned<SizeType>::type;
+  const UnsignedType range = static_cast<UnsignedType>(
+      static_cast<UnsignedType>(end) - static_cast<UnsignedType>(start));
+  const UnsignedType offset =
+      (range < std::numeric_limits<UnsignedType>::max())
+          ? GetUniformRandomIndex<UnsignedType>(
+                uniform_unit_real_fn, static_cast<UnsignedType>(range + 1))
+          : static_cast<UnsignedType>(std::floor(
+                uniform_unit_real_fn() * (static_cast<double>(range) + 1.0)));
+  return static_cast<SizeType>(
+      static_cast<UnsignedType>(static_cast<UnsignedType>(start) + offset));
 }
 
 template <class T>
-- 
2.43.0


From d365edaa79079fe3fc06295d0742887f5bc077dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:37 +0000
Subject: [PATCH 32/40] fix: make the gaussian distributions header compile

---
 .../common_robotics_utilities/gaussian_distributions.hpp    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/gaussian_distributions.hpp b/include/common_robotics_utilities/gaussian_distributions.hpp
index b7c0aa2..92ab954 100644
--- a/include/common_robotics_utilities/gaussian_distributions.hpp
+++ b/include/common_robotics_utilities/gaussian_distributions.hpp
@@ -2,8 +2,12 @@
 
 #include <cmath>
 #include <cstdint>
+#include <limits>
 #include <random>
+#include <stdexcept>
 
+#include <Eigen/Cholesky>
+#include <Eigen/Eigenvalues>
 #include <Eigen/Geometry>
 #include <common_robotics_utilities/cru_namespace.hpp>
 
@@ -152,7 +156,7 @@ private:
   double std_upper_bound_ = 0.0;
 
   enum class DrawCases {TYPE_1, TYPE_2, TYPE_3, TYPE_4, NONE};
-  DrawCases case_ = NONE;
+  DrawCases case_ = DrawCases::NONE;
   std::uniform_real_distribution<double> uniform_unit_dist_;
   std::uniform_real_distribution<double> uniform_range_dist_;
   std::exponential_distribution<double> exponential_dist_;
-- 
2.43.0


From a02eaed8d208ed63d55952344d2397bc2f944f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:37 +0000
Subject: [PATCH 33/40] fix: sample narrow tails of truncated gaussians between
 the standardized bounds

---
 include/common_robotics_utilities/gaussian_distributions.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/common_robotics_utilities/gaussian_distributions.hpp b/include/common_robotics_utilities/gaussian_distributions.hpp
index 92ab954..a42e732 100644
--- a/include/common_robotics_utilities/gaussian_distributions.hpp
+++ b/include/common_robotics_utilities/gaussian_distributions.hpp
@@ -351,6 +351,9 @@ public:
         else
         {
           case_ = DrawCases::TYPE_4;
+          // Sampling is performed between the standardized bounds.
+          uniform_range_dist_ = std::uniform_real_distribution<double>(
+              std_lower_bound_, std_upper_bound_);
         }
       }
       if ((case_ != DrawCases::TYPE_1) && (case_ != DrawCases::TYPE_2)
-- 
2.43.0


From 5e549d6eb0dc2069a52ca7cc5d20ef0a8c6f7248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:37 +0000
Subject: [PATCH 34/40] fix: accept multivariate gaussians of more than one
 dimension

---
 include/common_robotics_utilities/gaussian_distributions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/gaussian_distributions.hpp b/include/common_robotics_utilities/gaussian_distributions.hpp
index a42e732..22ac280 100644
--- a/include/common_robotics_utilities/gaussian_distributions.hpp
+++ b/include/common_robotics_utilities/gaussian_distributions.hpp
@@ -419,7 +419,7 @@ public:
       : mean_(mean), norm_transform_(CalculateNormTransform(covariance)),
         unit_gaussian_dist_(0.0, 1.0)
   {
-    if (mean_.rows() != covariance.rows() || mean_.cols() != covariance.cols())
+    if (mean_.rows() != covariance.rows() || mean_.rows() != covariance.cols())
     {
       throw std::invalid_argument("mean and covariance are different sizes");
     }
-- 
2.43.0


From d9aa054c1b2b1cbc8c3d2a6aa14522bdcba90ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:56 +0000
Subject: [PATCH 35/40] fix: reject truncated gaussians with inverted bounds

---
 .../gaussian_distributions.hpp                         | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/common_robotics_utilities/gaussian_distributions.hpp b/include/common_robotics_utilities/gaussian_distributions.hpp
index 22ac280..97434f3 100644
--- a/include/common_robotics_utilities/gaussian_distributions.hpp
+++ b/include/common_robotics_utilities/gaussian_distributions.hpp
@@ -305,10 +305,14 @@ public:
   TruncatedGaussianDistribution(
       const double mean, const double stddev, const double lower_bound,
       const double upper_bound)
-    : uniform_unit_dist_(0.0, 1.0),
-      uniform_range_dist_(lower_bound, upper_bound),
-      exponential_dist_(1.0), normal_dist_(0.0, 1.0)
+    : uniform_unit_dist_(0.0, 1.0), exponential_dist_(1.0),
+      normal_dist_(0.0, 1.0)
   {
+    // Note that this also rejects NaN bounds.
+    if (!(lower_bound <= upper_bound))
+    {
+      throw std::invalid_argument("lower_bound > upper_bound");
+    }
     // Set operating parameters
     mean_ = mean;
     stddev_ = stddev;
-- 
2.43.0


From 102a8aef35c85326e2546e445fbe2ae49c5312a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:48 +0000
Subject: [PATCH 36/40] fix: let OwningGraphOverlay inherit
 NonOwningGraphOverlay publicly

Private inheritance left an owning overlay with no usable operation at all,
and unusable where a graph overlay is expected.
---
 include/common_robotics_utilities/simple_graph.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/simple_graph.hpp b/include/common_robotics_utilities/simple_graph.hpp
index a9cea67..f019d82 100644
--- a/include/common_robotics_utilities/simple_graph.hpp
+++ b/include/common_robotics_utilities/simple_graph.hpp
@@ -959,7 +959,8 @@ public:
 };
 
 template<typename NodeValueType, typename GraphType>
-class OwningGraphOverlay : NonOwningGraphOverlay<NodeValueType, GraphType>
+class OwningGraphOverlay
+    : public NonOwningGraphOverlay<NodeValueType, GraphType>
 {
 private:
   std::shared_ptr<const GraphType> owned_base_graph_;
-- 
2.43.0


From d521c2759232c546bac63a808e017a36fe51e77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:48 +0000
Subject: [PATCH 37/40] fix: refuse negative neighbor indices from graph KNN
 providers

---
 include/common_robotics_utilities/simple_prm_planner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/simple_prm_planner.hpp b/include/common_robotics_utilities/simple_prm_planner.hpp
index 34c7de2..9b0a0fd 100644
--- a/include/common_robotics_utilities/simple_prm_planner.hpp
+++ b/include/common_robotics_utilities/simple_prm_planner.hpp
@@ -115,7 +115,7 @@ private:
   {
     for (const auto& neighbor : nearest_neighbors)
     {
-      if (neighbor.Index() >= roadmap_size ||
+      if (neighbor.Index() < 0 || neighbor.Index() >= roadmap_size ||
           neighbor.Index() >= max_node_index_for_knn)
       {
         throw std::runtime_error(
-- 
2.43.0


From 1239ddcd792dfd369fe224c3167d6a520d1632e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:53 +0000
Subject: [PATCH 38/40] fix: let mutable access to the internal chunks of a
 sparse grid compile

---
 .../dynamic_spatial_hashed_voxel_grid.hpp                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index ee6be6f..a7ed4f6 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -1141,7 +1141,7 @@ public:
     return chunks_;
   }
 
-  ChunkMap& GetMutableInternalChunks() const
+  ChunkMap& GetMutableInternalChunks()
   {
     if (OnMutableRawAccess())
     {
-- 
2.43.0


From aca64a51e6bcbcd216c808fc872646d2d5287c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:54 +0000
Subject: [PATCH 39/40] fix: let mutable access by index to the cells of a
 sparse grid's chunk compile

---
 .../dynamic_spatial_hashed_voxel_grid.hpp                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index a7ed4f6..6ce4ead 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -438,7 +438,7 @@ public:
   }
 
   DynamicSpatialHashedGridQuery<T> GetIndexMutable(
-      const GridIndex& internal_cell_index) const
+      const GridIndex& internal_cell_index)
   {
     if (fill_status_ == DSHVGFillStatus::CELL_FILLED)
     {
-- 
2.43.0


From 8976b9e46fa2932640385e6cfb2dd74ada25bea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:13 +0000
Subject: [PATCH 40/40] fix: printing a forward_list did not compile

---
 include/common_robotics_utilities/print.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/print.hpp b/include/common_robotics_utilities/print.hpp
index f844797..9897c90 100644
--- a/include/common_robotics_utilities/print.hpp
+++ b/include/common_robotics_utilities/print.hpp
@@ -507,7 +507,7 @@ inline std::string Print(const std::forward_list<T, Allocator>& listtoprint,
                          const std::string& separator)
 {
   std::ostringstream strm;
-  if (listtoprint.size() > 0)
+  if (!listtoprint.empty())
   {
     if (add_delimiters)
     {
-- 
2.43.0

