From f2580c9398958a779885198b665ed669f0bbc715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 01/20] fix: bound the size header of memcpyable vectors
 without overflow

---
 include/common_robotics_utilities/serialization.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/common_robotics_utilities/serialization.hpp b/include/common_robotics_utilities/serialization.hpp
index ffc28b6..2505101 100644
--- a/include/common_robotics_utilities/serialization.hpp
+++ b/include/common_robotics_utilities/serialization.hpp
@@ -473,11 +473,12 @@ DeserializeMemcpyableVectorLike(
   const uint64_t size = deserialized_size.Value();
   current_position += deserialized_size.BytesRead();
   // Deserialize the items
-  const size_t serialized_length = sizeof(T) * size;
-  if ((current_position + serialized_length) > buffer.size())
+  // Note: check via division, as the product of a corrupt size may overflow.
+  if (size > ((buffer.size() - current_position) / sizeof(T)))
   {
     throw std::invalid_argument("Not enough room in the provided buffer");
   }
+  const size_t serialized_length = sizeof(T) * size;
   VectorLike deserialized(size);
   // Only memcpy if a non-zero number of bytes will be copied, since memcpy on
   // nullptr dst/src (encountered if a vector is empty) is undefined behavior.
-- 
2.43.0


From bb13d4aa051931f408f0beee6105732b8a93d506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 02/20] fix: in-place serialization position check cannot
 overflow

---
 include/common_robotics_utilities/serialization.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/serialization.hpp b/include/common_robotics_utilities/serialization.hpp
index 2505101..6d1311f 100644
--- a/include/common_robotics_utilities/serialization.hpp
+++ b/include/common_robotics_utilities/serialization.hpp
@@ -748,7 +748,8 @@ inline uint64_t SerializeNetworkMemcpyableInPlace(
     memcpy(&temp_buffer[0], &swapped, 8);
   }
   // Move to buffer
-  if ((buffer_position + sizeof(item_to_serialize)) <= buffer.size())
+  if (buffer_position <= buffer.size()
+      && sizeof(item_to_serialize) <= (buffer.size() - buffer_position))
   {
     memcpy(&buffer[buffer_position],
            temp_buffer.data(),
-- 
2.43.0


From 0564112ec38af769acde9abce1cd6aa995f9a18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 03/20] fix: matrix codec accepts empty matrices and rejects
 corrupt dimensions

---
 .../serialization.cpp                         | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/common_robotics_utilities/serialization.cpp b/src/common_robotics_utilities/serialization.cpp
index 9153c73..899cbe4 100644
--- a/src/common_robotics_utilities/serialization.cpp
+++ b/src/common_robotics_utilities/serialization.cpp
@@ -1,6 +1,7 @@
 #include <common_robotics_utilities/serialization.hpp>
 
 #include <cstdint>
+#include <limits>
 #include <utility>
 #include <vector>
 
@@ -50,7 +51,11 @@ uint64_t SerializeMatrixXd(
   const size_t previous_buffer_size = buffer.size();
   buffer.resize(previous_buffer_size + serialized_length, 0x00);
   // Serialize the contained items
-  memcpy(&buffer[previous_buffer_size], value.data(), serialized_length);
+  // Only memcpy if a non-zero number of bytes will be copied.
+  if (serialized_length > 0)
+  {
+    memcpy(&buffer[previous_buffer_size], value.data(), serialized_length);
+  }
   // Figure out how many bytes were written
   const uint64_t end_buffer_size = buffer.size();
   const uint64_t bytes_written = end_buffer_size - start_buffer_size;
@@ -136,14 +141,24 @@ Deserialized<Eigen::MatrixXd> DeserializeMatrixXd(
   const uint64_t cols = deserialized_cols.Value();
   current_position += deserialized_cols.BytesRead();
   // Deserialize the items
-  const size_t serialized_length = sizeof(double) * rows * cols;
-  if ((current_position + serialized_length) > buffer.size())
+  // Note: check via division, as the product of corrupt sizes may overflow.
+  const uint64_t max_dimension =
+      static_cast<uint64_t>(std::numeric_limits<ssize_t>::max());
+  const uint64_t max_items =
+      (buffer.size() - current_position) / sizeof(double);
+  if (rows > max_dimension || cols > max_dimension
+      || (rows > 0 && cols > (max_items / rows)))
   {
     throw std::invalid_argument("Not enough room in the provided buffer");
   }
+  const size_t serialized_length = sizeof(double) * (rows * cols);
   Eigen::MatrixXd deserialized = Eigen::MatrixXd::Zero(
       static_cast<ssize_t>(rows), static_cast<ssize_t>(cols));
-  memcpy(deserialized.data(), &buffer[current_position], serialized_length);
+  // Only memcpy if a non-zero number of bytes will be copied.
+  if (serialized_length > 0)
+  {
+    memcpy(deserialized.data(), &buffer[current_position], serialized_length);
+  }
   current_position += serialized_length;
   // Figure out how many bytes were read
   const uint64_t bytes_read = current_position - starting_offset;
-- 
2.43.0


From a008f0f7691bf8d2fda0fe8d2e8804a8887c4cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 04/20] fix: ask the voxel grid access hook about the cell
 being accessed

---
 include/common_robotics_utilities/voxel_grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/voxel_grid.hpp b/include/common_robotics_utilities/voxel_grid.hpp
index 2606ac1..7752a26 100644
--- a/include/common_robotics_utilities/voxel_grid.hpp
+++ b/include/common_robotics_utilities/voxel_grid.hpp
@@ -661,7 +661,7 @@ private:
 
   bool OnMutableAccess(const GridIndex& index)
   {
-    return OnMutableAccess(index.X(), index.Y(), index.Y());
+    return OnMutableAccess(index.X(), index.Y(), index.Z());
   }
 
 protected:
-- 
2.43.0


From 6ef1e53873fb2071c865a5707b84e460edb83600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 05/20] fix: grid query and chunk members that could not be
 instantiated

---
 .../dynamic_spatial_hashed_voxel_grid.hpp                 | 8 ++++----
 include/common_robotics_utilities/voxel_grid.hpp          | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 72c56bb..7a8610f 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -98,7 +98,7 @@ private:
   DynamicSpatialHashedGridQuery(T& value, const DSHVGFoundStatus found_status)
       : value_(value), found_status_(found_status)
   {
-    if (FoundStatus() == DSHVGFoundStatus::NOT_FOUND &&
+    if (FoundStatus() == DSHVGFoundStatus::NOT_FOUND ||
         FoundStatus() == DSHVGFoundStatus::MUTABLE_ACCESS_PROHIBITED)
     {
       throw std::invalid_argument(
@@ -158,7 +158,7 @@ public:
 
   T& Value() { return value_.Value(); }
 
-  T& Value() const { return value_.Value(); }
+  const T& Value() const { return value_.Value(); }
 
   DSHVGFoundStatus FoundStatus() const { return found_status_; }
 
@@ -417,7 +417,7 @@ public:
   }
 
   DynamicSpatialHashedGridQuery<T> GetIndexMutable(
-      const GridIndex& internal_cell_index) const
+      const GridIndex& internal_cell_index)
   {
     if (fill_status_ == DSHVGFillStatus::CELL_FILLED)
     {
@@ -1058,7 +1058,7 @@ public:
     return chunks_;
   }
 
-  ChunkMap& GetMutableInternalChunks() const
+  ChunkMap& GetMutableInternalChunks()
   {
     if (OnMutableRawAccess())
     {
diff --git a/include/common_robotics_utilities/voxel_grid.hpp b/include/common_robotics_utilities/voxel_grid.hpp
index 7752a26..ef48910 100644
--- a/include/common_robotics_utilities/voxel_grid.hpp
+++ b/include/common_robotics_utilities/voxel_grid.hpp
@@ -520,7 +520,7 @@ public:
     status_ = AccessStatus::UNKNOWN;
   }
 
-  T& Value() const { return value_.Value(); }
+  const T& Value() const { return value_.Value(); }
 
   T& Value() { return value_.Value(); }
 
-- 
2.43.0


From 23d09d9f74c0adc26615d279dbebf5bdedd7f1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 06/20] fix: dynamic parallel loops on the async backend start
 at range_start

---
 include/common_robotics_utilities/parallelism.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/parallelism.hpp b/include/common_robotics_utilities/parallelism.hpp
index 1b3b4ed..d8e02bc 100644
--- a/include/common_robotics_utilities/parallelism.hpp
+++ b/include/common_robotics_utilities/parallelism.hpp
@@ -398,7 +398,7 @@ void DynamicParallelForRangeLoop(
               functor(work_range);
               return thread_number;
             },
-            workers_dispatched,
+            range_start + workers_dispatched,
             thread_number_keeper.CheckoutThreadNumber()));
         workers_dispatched++;
       }
-- 
2.43.0


From 491ca0fd7b5a43ce8799989f97fa0e8fc6d9d873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:22 +0000
Subject: [PATCH 07/20] fix: PruneGraph rejects node indices outside the graph

---
 include/common_robotics_utilities/simple_graph.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/common_robotics_utilities/simple_graph.hpp b/include/common_robotics_utilities/simple_graph.hpp
index 11a8c9d..e1107e2 100644
--- a/include/common_robotics_utilities/simple_graph.hpp
+++ b/include/common_robotics_utilities/simple_graph.hpp
@@ -433,6 +433,12 @@ OutputGraphType PruneGraph(
   std::vector<int64_t> vector_nodes_to_prune
       = utility::GetKeysFromSetLike<int64_t>(nodes_to_prune);
   std::sort(vector_nodes_to_prune.begin(), vector_nodes_to_prune.end());
+  if (!vector_nodes_to_prune.empty() &&
+      (vector_nodes_to_prune.front() < 0 ||
+       vector_nodes_to_prune.back() >= graph.Size()))
+  {
+    throw std::invalid_argument("nodes_to_prune contains out of range index");
+  }
   // Make the pruned graph, initialized with the number of nodes we expect it
   // to contain.
   OutputGraphType pruned_graph(
-- 
2.43.0


From ba4fdc95f7067395a6637df369c0af4a3c193a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:16 +0000
Subject: [PATCH 08/20] fix: UpdateRoadMapEdges adds overlay nodes before its
 parallel loop

Mutable access to a node of a graph overlay copies the node into the
overlay's map; iterations of the parallel loop did so concurrently.
---
 include/common_robotics_utilities/simple_prm_planner.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/common_robotics_utilities/simple_prm_planner.hpp b/include/common_robotics_utilities/simple_prm_planner.hpp
index 3efe403..03e8e96 100644
--- a/include/common_robotics_utilities/simple_prm_planner.hpp
+++ b/include/common_robotics_utilities/simple_prm_planner.hpp
@@ -696,6 +696,14 @@ void UpdateRoadMapEdges(
     throw std::invalid_argument("Provided roadmap has invalid linkage");
   }
 
+  // Mutable access to a node of a graph overlay may add the node to the overlay,
+  // which is not safe to perform in parallel, so all nodes are accessed here
+  // first.
+  for (int64_t node_index = 0; node_index < roadmap.Size(); node_index++)
+  {
+    roadmap.GetNodeMutable(node_index);
+  }
+
   const auto per_item_work = [&](
       const int32_t thread_num, const int64_t current_node_index)
   {
-- 
2.43.0


From 1fb32062241730adad6bd8b8797218277537d9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:11 +0000
Subject: [PATCH 09/20] fix: Decode looks up characters above 127 within its
 table

char is signed here, so such a character became a huge index.
---
 src/common_robotics_utilities/base64_helpers.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/common_robotics_utilities/base64_helpers.cpp b/src/common_robotics_utilities/base64_helpers.cpp
index 9fe6585..aa3d3e6 100644
--- a/src/common_robotics_utilities/base64_helpers.cpp
+++ b/src/common_robotics_utilities/base64_helpers.cpp
@@ -36,10 +36,10 @@ std::vector<uint8_t> Decode(const std::string& encoded)
   for (size_t i = 0, j = 0; i < L; i += 4)
   {
     const int32_t n =
-        B64IndexTable[static_cast<size_t>(encoded[i])] << 18
-        | B64IndexTable[static_cast<size_t>(encoded[i + 1])] << 12
-        | B64IndexTable[static_cast<size_t>(encoded[i + 2])] << 6
-        | B64IndexTable[static_cast<size_t>(encoded[i + 3])];
+        B64IndexTable[static_cast<uint8_t>(encoded[i])] << 18
+        | B64IndexTable[static_cast<uint8_t>(encoded[i + 1])] << 12
+        | B64IndexTable[static_cast<uint8_t>(encoded[i + 2])] << 6
+        | B64IndexTable[static_cast<uint8_t>(encoded[i + 3])];
     buffer[j++] = static_cast<uint8_t>(n >> 16);
     buffer[j++] = static_cast<uint8_t>(n >> 8 & 0xFF);
     buffer[j++] = static_cast<uint8_t>(n & 0xFF);
@@ -47,12 +47,12 @@ std::vector<uint8_t> Decode(const std::string& encoded)
   if (pad > 0)
   {
     int32_t n =
-        B64IndexTable[static_cast<size_t>(encoded[L])] << 18
-        | B64IndexTable[static_cast<size_t>(encoded[L + 1])] << 12;
+        B64IndexTable[static_cast<uint8_t>(encoded[L])] << 18
+        | B64IndexTable[static_cast<uint8_t>(encoded[L + 1])] << 12;
     buffer[buffer.size() - 1] = static_cast<uint8_t>(n >> 16);
     if (encoded_length > L + 2 && encoded[L + 2] != '=')
     {
-      n |= B64IndexTable[static_cast<size_t>(encoded[L + 2])] << 6;
+      n |= B64IndexTable[static_cast<uint8_t>(encoded[L + 2])] << 6;
       buffer.push_back(static_cast<uint8_t>(n >> 8 & 0xFF));
     }
   }
-- 
2.43.0


From a18b9e35d7bab06137db1368738e5cf14567e9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:11 +0000
Subject: [PATCH 10/20] fix: CompressAndWriteToFile reports files it cannot
 open or write

---
 src/common_robotics_utilities/zlib_helpers.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/common_robotics_utilities/zlib_helpers.cpp b/src/common_robotics_utilities/zlib_helpers.cpp
index 4ea45b5..f3b66b4 100644
--- a/src/common_robotics_utilities/zlib_helpers.cpp
+++ b/src/common_robotics_utilities/zlib_helpers.cpp
@@ -156,9 +156,17 @@ void CompressAndWriteToFile(
 {
   const auto compressed = CompressBytes(uncompressed);
   std::ofstream output_file(filename, std::ios::out | std::ios::binary);
+  if (!output_file.is_open())
+  {
+    throw std::runtime_error("Failed to open file [" + filename + "]");
+  }
   output_file.write(reinterpret_cast<const char*>(compressed.data()),
                     static_cast<std::streamsize>(compressed.size()));
   output_file.close();
+  if (!output_file)
+  {
+    throw std::runtime_error("Failed to write entire contents to file");
+  }
 }
 } // namespace zlib_helpers
 CRU_NAMESPACE_END
-- 
2.43.0


From 87de83ce24f4fa9e07730acf7549f9a90857d60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:11 +0000
Subject: [PATCH 11/20] fix: zlib streams are initialised before
 inflateInit/deflateInit

When initialisation failed (out of memory), inflateEnd/deflateEnd read an
uninitialised state pointer; inflateInit also requires next_in and avail_in.
---
 src/common_robotics_utilities/zlib_helpers.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common_robotics_utilities/zlib_helpers.cpp b/src/common_robotics_utilities/zlib_helpers.cpp
index f3b66b4..c0ff3a7 100644
--- a/src/common_robotics_utilities/zlib_helpers.cpp
+++ b/src/common_robotics_utilities/zlib_helpers.cpp
@@ -18,7 +18,7 @@ std::vector<uint8_t> DecompressBytes(const std::vector<uint8_t>& compressed)
 {
   if (compressed.size() <= std::numeric_limits<uint32_t>::max())
   {
-    z_stream strm;
+    z_stream strm = {};
     std::vector<uint8_t> buffer;
     const size_t BUFSIZE = 1024 * 1024;
     uint8_t temp_buffer[BUFSIZE];
@@ -67,7 +67,7 @@ std::vector<uint8_t> CompressBytes(const std::vector<uint8_t>& uncompressed)
 {
   if (uncompressed.size() <= std::numeric_limits<uint32_t>::max())
   {
-    z_stream strm;
+    z_stream strm = {};
     std::vector<uint8_t> buffer;
     const size_t BUFSIZE = 1024 * 1024;
     uint8_t temp_buffer[BUFSIZE];
-- 
2.43.0


From d8e4788c09c236ccb1ab2e8b6d676f1cfe0a90c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:40 +0000
Subject: [PATCH 12/20] fix: AddNodeToRoadmap stores non-symmetric edges in the
 direction they were checked

---
 .../simple_prm_planner.hpp                    | 35 ++++++++-----------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/include/common_robotics_utilities/simple_prm_planner.hpp b/include/common_robotics_utilities/simple_prm_planner.hpp
index 03e8e96..d23cc11 100644
--- a/include/common_robotics_utilities/simple_prm_planner.hpp
+++ b/include/common_robotics_utilities/simple_prm_planner.hpp
@@ -273,7 +273,6 @@ int64_t AddNodeToRoadmap(
     const size_t idx = static_cast<size_t>(index);
     const auto& nearest_neighbor = nearest_neighbors.at(idx);
     const int64_t nearest_neighbor_index = nearest_neighbor.Index();
-    const double graph_to_node_distance = nearest_neighbor.Distance();
     const T& nearest_neighbor_state = roadmap.GetNodeImmutable(
         nearest_neighbor_index).GetValueImmutable();
     const bool graph_to_node_edge_validity =
@@ -282,35 +281,31 @@ int64_t AddNodeToRoadmap(
     {
       // Distance is symmetric and the edge is valid
       nearest_neighbors_distances.at(idx)
-          = std::make_pair(graph_to_node_distance,
-                           graph_to_node_distance);
+          = std::make_pair(nearest_neighbor.Distance(),
+                           nearest_neighbor.Distance());
     }
     else if (!connection_is_symmetric)
     {
       const bool node_to_graph_edge_validity =
           edge_validity_check_fn(thread_num, state, nearest_neighbor_state);
-      const double node_to_graph_distance
-          = distance_fn(state,
-                        roadmap.GetNodeImmutable(nearest_neighbor_index)
-                            .GetValueImmutable());
+      // KNN provides the distance in one direction, depending on the direction
+      // of the query. Compute the distance in the other direction.
+      const bool knn_distance_is_graph_to_node =
+          nn_distance_direction == NNDistanceDirection::ROADMAP_TO_NEW_STATE;
+      const double graph_to_node_distance = knn_distance_is_graph_to_node
+          ? nearest_neighbor.Distance()
+          : distance_fn(nearest_neighbor_state, state);
+      const double node_to_graph_distance = knn_distance_is_graph_to_node
+          ? distance_fn(state, nearest_neighbor_state)
+          : nearest_neighbor.Distance();
       // We use -1 as a signaling value of an infeasible edge
       const double real_graph_to_node_distance
           = (graph_to_node_edge_validity) ? graph_to_node_distance : -1.0;
       const double real_node_to_graph_distance
           = (node_to_graph_edge_validity) ? node_to_graph_distance : -1.0;
-      // Set the distance values depending on direction
-      if (nn_distance_direction == NNDistanceDirection::ROADMAP_TO_NEW_STATE)
-      {
-        nearest_neighbors_distances.at(idx)
-            = std::make_pair(real_graph_to_node_distance,
-                             real_node_to_graph_distance);
-      }
-      else
-      {
-        nearest_neighbors_distances.at(idx)
-            = std::make_pair(real_node_to_graph_distance,
-                             real_graph_to_node_distance);
-      }
+      nearest_neighbors_distances.at(idx)
+          = std::make_pair(real_graph_to_node_distance,
+                           real_node_to_graph_distance);
     }
     else
     {
-- 
2.43.0


From 814a05602d786e0bba15bff69e445b02e59010b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:16 +0000
Subject: [PATCH 13/20] fix: SanityCheckKNNResults refuses negative neighbor
 indices

---
 include/common_robotics_utilities/simple_prm_planner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/simple_prm_planner.hpp b/include/common_robotics_utilities/simple_prm_planner.hpp
index d23cc11..9b097a6 100644
--- a/include/common_robotics_utilities/simple_prm_planner.hpp
+++ b/include/common_robotics_utilities/simple_prm_planner.hpp
@@ -115,7 +115,7 @@ private:
   {
     for (const auto& neighbor : nearest_neighbors)
     {
-      if (neighbor.Index() >= roadmap_size ||
+      if (neighbor.Index() < 0 || neighbor.Index() >= roadmap_size ||
           neighbor.Index() >= max_node_index_for_knn)
       {
         throw std::runtime_error(
-- 
2.43.0


From 84b705160eb27aab056f7ea23071d968a2c7d310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:17 +0000
Subject: [PATCH 14/20] fix: TaggedUnion holds nothing while it is assigned, so
 a throwing constructor cannot cause double destruction

---
 include/common_robotics_utilities/maybe.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/maybe.hpp b/include/common_robotics_utilities/maybe.hpp
index a3e8248..9ee5878 100644
--- a/include/common_robotics_utilities/maybe.hpp
+++ b/include/common_robotics_utilities/maybe.hpp
@@ -21,6 +21,10 @@ private:
   {
     switch (other.type_)
     {
+      case TYPE_NONE:
+      {
+        break;
+      }
       case TYPE_A:
       {
         ::new(&value_a_) A(other.value_a_);
@@ -40,6 +44,10 @@ private:
   {
     switch (other.type_)
     {
+      case TYPE_NONE:
+      {
+        break;
+      }
       case TYPE_A:
       {
         ::new(&value_a_) A(std::move(other.value_a_));
@@ -59,6 +67,10 @@ private:
   {
     switch (type_)
     {
+      case TYPE_NONE:
+      {
+        break;
+      }
       case TYPE_A:
       {
         value_a_.~A();
@@ -70,6 +82,8 @@ private:
         break;
       }
     }
+    // If constructing a new value throws, nothing is stored.
+    type_ = TYPE_NONE;
   }
 
 public:
@@ -79,7 +93,7 @@ public:
     B value_b_;
   };
 
-  enum {TYPE_A, TYPE_B} type_{};
+  enum {TYPE_NONE, TYPE_A, TYPE_B} type_{};
 
   explicit TaggedUnion(const A& value_a)
       : value_a_(value_a), type_(TYPE_A) {}
-- 
2.43.0


From fd183f7cf1cfe2cc5e6c7ddf5fff486fe7f34d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:16 +0000
Subject: [PATCH 15/20] fix: AddNodeAndConnect refuses a parent that is not yet
 in the tree before adding the node

---
 include/common_robotics_utilities/simple_rrt_planner.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/common_robotics_utilities/simple_rrt_planner.hpp b/include/common_robotics_utilities/simple_rrt_planner.hpp
index 979e893..a01a655 100644
--- a/include/common_robotics_utilities/simple_rrt_planner.hpp
+++ b/include/common_robotics_utilities/simple_rrt_planner.hpp
@@ -246,6 +246,8 @@ public:
 
   int64_t AddNodeAndConnect(const StateType& value, const int64_t parent_index)
   {
+    // The parent must already be in the tree before anything is changed.
+    GetNodeImmutable(parent_index);
     nodes_.emplace_back(value, parent_index);
     const int64_t new_node_index = static_cast<int64_t>(nodes_.size() - 1);
     GetNodeMutable(parent_index).AddChildIndex(new_node_index);
-- 
2.43.0


From ed0b2c91315c986c02bc48c17658f3d69a4fb036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:22 +0000
Subject: [PATCH 16/20] fix: planners no longer call an absent goal callback
 for states already at the goal

---
 .../simple_rrt_planner.hpp                       | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/common_robotics_utilities/simple_rrt_planner.hpp b/include/common_robotics_utilities/simple_rrt_planner.hpp
index a01a655..a141c3a 100644
--- a/include/common_robotics_utilities/simple_rrt_planner.hpp
+++ b/include/common_robotics_utilities/simple_rrt_planner.hpp
@@ -707,7 +707,10 @@ MultipleSolutionPlanningResults<StateType, Container> RRTPlanMultiPath(
     if (check_goal_reached_fn(tree.GetNodeImmutable(idx).GetValueImmutable()))
     {
       goal_state_indices.push_back(idx);
-      goal_reached_callback_fn(tree, idx);
+      if (goal_reached_callback_fn)
+      {
+        goal_reached_callback_fn(tree, idx);
+      }
     }
   }
 
@@ -960,10 +963,13 @@ MultipleSolutionPlanningResults<StateType, Container> BiRRTPlanMultiPath(
               active_tree_type))
       {
         goal_bridges.emplace_back(start_tree_idx, goal_tree_idx);
-        goal_bridge_callback_fn(
-            start_tree, start_tree_idx,
-            goal_tree, goal_tree_idx,
-            active_tree_type);
+        if (goal_bridge_callback_fn)
+        {
+          goal_bridge_callback_fn(
+              start_tree, start_tree_idx,
+              goal_tree, goal_tree_idx,
+              active_tree_type);
+        }
       }
     }
   }
-- 
2.43.0


From ee3b1e84eb7f3c053d362a57bfbe822f24e2ae37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:49 +0000
Subject: [PATCH 17/20] fix: a copied TOTP trajectory no longer keeps a
 position in the source's list

---
 .../time_optimal_trajectory_parametrization.cpp          | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index 0e78e75..bf34bfa 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -273,6 +273,15 @@ public:
              const Eigen::VectorXd& max_acceleration,
              const double timestep = 0.001);
 
+  // The cached segment is a position in this trajectory's own list, so a copy
+  // starts with an empty cache instead of a position in the source's list.
+  Trajectory(const Trajectory& other)
+    : path_(other.path_), max_velocity_(other.max_velocity_),
+      max_acceleration_(other.max_acceleration_), n_(other.n_),
+      trajectory_(other.trajectory_), time_step_(other.time_step_),
+      cached_time_(std::numeric_limits<double>::max()),
+      cached_trajectory_segment_(trajectory_.begin()) {}
+
   // Returns the optimal duration of the trajectory
   double Duration() const;
 
-- 
2.43.0


From 0724664f83f33b6dab8cdd9a33fd0b0045d07010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:35 +0000
Subject: [PATCH 18/20] fix: warping cost takes the cheapest neighbour when two
 of them tie

---
 .../common_robotics_utilities/simple_dtw.hpp    | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/include/common_robotics_utilities/simple_dtw.hpp b/include/common_robotics_utilities/simple_dtw.hpp
index b8d3be8..a7f8ca8 100644
--- a/include/common_robotics_utilities/simple_dtw.hpp
+++ b/include/common_robotics_utilities/simple_dtw.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cstdint>
 #include <functional>
 #include <limits>
@@ -85,24 +86,12 @@ public:
         const SecondDatatype& second_item
             = second_sequence[static_cast<size_t>(j - 1)];
         const double index_cost = distance_fn(first_item, second_item);
-        double prev_cost = 0.0;
         // Get the next neighboring values from the matrix to use for the update
         const double im1j = dtw_matrix_(i - 1, j);
         const double im1jm1 = dtw_matrix_(i - 1, j - 1);
         const double ijm1 = dtw_matrix_(i, j - 1);
-        // Start the update step
-        if (im1j < im1jm1 && im1j < ijm1)
-        {
-          prev_cost = im1j;
-        }
-        else if (ijm1 < im1j && ijm1 < im1jm1)
-        {
-          prev_cost = ijm1;
-        }
-        else
-        {
-          prev_cost = im1jm1;
-        }
+        // Start the update step, from the cheapest neighboring value
+        const double prev_cost = std::min(im1jm1, std::min(im1j, ijm1));
         // Update the value in the matrix
         const double new_cost = index_cost + prev_cost;
         dtw_matrix_(i, j) = new_cost;
-- 
2.43.0


From f73cc7d718eaec6c7f23b38fa4de402bee5c6cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:43 +0000
Subject: [PATCH 19/20] fix: k-means refuses more clusters than items

---
 .../common_robotics_utilities/simple_kmeans_clustering.hpp    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/common_robotics_utilities/simple_kmeans_clustering.hpp b/include/common_robotics_utilities/simple_kmeans_clustering.hpp
index eb05d11..f1f5eff 100644
--- a/include/common_robotics_utilities/simple_kmeans_clustering.hpp
+++ b/include/common_robotics_utilities/simple_kmeans_clustering.hpp
@@ -169,6 +169,10 @@ std::vector<int32_t> ClusterWeighted(
   {
     throw std::invalid_argument("num_clusters == 0");
   }
+  else if (num_clusters > static_cast<int64_t>(data.size()))
+  {
+    throw std::invalid_argument("num_clusters > data.size()");
+  }
   // Make sure we have enough datapoints to do meaningful preliminary clustering
   bool enable_preliminary_clustering = do_preliminary_clustering;
   if (enable_preliminary_clustering)
-- 
2.43.0


From 83b8461e0c50119c4722d678734c61a7d4491f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:50 +0000
Subject: [PATCH 20/20] fix: reseeding XorShift1024StarPRNG restarts its
 sequence

---
 include/common_robotics_utilities/simple_prngs.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/common_robotics_utilities/simple_prngs.hpp b/include/common_robotics_utilities/simple_prngs.hpp
index 6928675..ba6ae8a 100644
--- a/include/common_robotics_utilities/simple_prngs.hpp
+++ b/include/common_robotics_utilities/simple_prngs.hpp
@@ -173,6 +173,7 @@ public:
     {
       state_[idx] = temp_seed_gen();
     }
+    p_ = 0;
   }
 
   void discard(const uint64_t z)
-- 
2.43.0

