From 5386915eebf9d4747dfa0d0b15108cace02d2153 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Sun, 15 Nov 2026 17:18:48 +0000
Subject: [PATCH 01/33] fix: store an explicit removal time of 0 instead of
 treating it as missing

---
 .../deepgnn/graph_engine/snark/converter/writers.py       | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/converter/writers.py b/src/python/deepgnn/graph_engine/snark/converter/writers.py
index 0ea7a9d..8dd1580 100644
--- a/src/python/deepgnn/graph_engine/snark/converter/writers.py
+++ b/src/python/deepgnn/graph_engine/snark/converter/writers.py
@@ -103,7 +103,7 @@ class BinaryWriter:
                     self.node_type_num = type_num_value
                 # Fill defaults for a new node
                 node_created_at = created_at or 0
-                node_removed_at = removed_at or -1
+                node_removed_at = -1 if removed_at is None else removed_at
                 self.node_writer.add(
                     src,
                     typ,
@@ -146,8 +146,10 @@ class BinaryWriter:
                     or node_removed_at == -1
                     or removed_at <= node_removed_at
                 ), f"Edge ({src}, {dst}, {typ}) was deleted[{removed_at}] after source node[{node_removed_at}]."
-                created_at = created_at or node_created_at
-                removed_at = removed_at or node_removed_at
+                if created_at is None:
+                    created_at = node_created_at
+                if removed_at is None:
+                    removed_at = node_removed_at
                 self.edge_writer.add(
                     dst,
                     typ,
-- 
2.43.0


From 496ae47391ee46259449e4ec5f21ed3a01805fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:37:06 +0000
Subject: [PATCH 02/33] fix: keep separate weights for every partition of a
 worker when merging metadata

---
 src/python/deepgnn/graph_engine/snark/meta_merger.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/meta_merger.py b/src/python/deepgnn/graph_engine/snark/meta_merger.py
index ad5f082..4b8d412 100644
--- a/src/python/deepgnn/graph_engine/snark/meta_merger.py
+++ b/src/python/deepgnn/graph_engine/snark/meta_merger.py
@@ -55,8 +55,12 @@ class Meta:
         self.node_feature_count = meta["node_feature_count"]
         self.edge_feature_count = meta["edge_feature_count"]
         self.partition_count = len(meta["partitions"])
-        self.node_weights = [[0.0] * self.node_type_count] * self.partition_count
-        self.edge_weights = [[0.0] * self.edge_type_count] * self.partition_count
+        self.node_weights = [
+            [0.0] * self.node_type_count for _ in range(self.partition_count)
+        ]
+        self.edge_weights = [
+            [0.0] * self.edge_type_count for _ in range(self.partition_count)
+        ]
         for j, id in enumerate(meta["partitions"]):
             for i in range(self.node_type_count):
                 self.node_weights[j][i] += meta["partitions"][id]["node_weight"][i]
-- 
2.43.0


From 6e2a914091d8fe863dae17fa8b4c406295be03b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:37:06 +0000
Subject: [PATCH 03/33] fix: merge worker metadata in numeric order so
 partition weights keep their partition

---
 src/python/deepgnn/graph_engine/snark/meta_merger.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/snark/meta_merger.py b/src/python/deepgnn/graph_engine/snark/meta_merger.py
index 4b8d412..bae1784 100644
--- a/src/python/deepgnn/graph_engine/snark/meta_merger.py
+++ b/src/python/deepgnn/graph_engine/snark/meta_merger.py
@@ -3,6 +3,7 @@
 
 """Merge meta data files generated by distributed converters."""
 import os
+import re
 from typing import List
 import json
 
@@ -128,6 +129,11 @@ def merge_metadata_files(meta_path: str):
     if len(total_files) == 0:
         return
 
+    # partitions are numbered in worker order: meta_2 goes before meta_10.
+    total_files.sort(
+        key=lambda f: [int(x) for x in re.findall(r"\d+", os.path.basename(f))]
+    )
+
     meta_list = [Meta(fs, f) for f in total_files]
     merge(fs, meta_path, meta_list)
 
-- 
2.43.0


From 8da5f4f220001174b77df21a5d4e218b46c1d7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:18:36 +0000
Subject: [PATCH 04/33] fix: accept an empty feature vector in json input

---
 src/python/deepgnn/graph_engine/snark/decoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/decoders.py b/src/python/deepgnn/graph_engine/snark/decoders.py
index c224f96..762717d 100644
--- a/src/python/deepgnn/graph_engine/snark/decoders.py
+++ b/src/python/deepgnn/graph_engine/snark/decoders.py
@@ -367,7 +367,7 @@ class JsonDecoder(Decoder):
                     ret_list.append(None)
                     curr += 1
 
-                if isinstance(value, list) and isinstance(value[0], dict):
+                if isinstance(value, list) and value and isinstance(value[0], dict):
                     value = self._serialize_temporal_features(
                         value, created_at, removed_at, key
                     )
-- 
2.43.0


From 6c2007403a3e2fd477dbc6e497d04fb06ddfbec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:18:36 +0000
Subject: [PATCH 05/33] fix: use edge type 0 when sorting tsv neighbors without
 a type

---
 src/python/deepgnn/graph_engine/snark/decoders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/decoders.py b/src/python/deepgnn/graph_engine/snark/decoders.py
index 762717d..885a19d 100644
--- a/src/python/deepgnn/graph_engine/snark/decoders.py
+++ b/src/python/deepgnn/graph_engine/snark/decoders.py
@@ -532,7 +532,8 @@ class TsvDecoder(Decoder):
 
         def order(edge):
             edge_items = edge.split(",")
-            return int(edge_items[1]), int(edge_items[0])
+            has_type = len(edge_items) > 1 and edge_items[1]
+            return int(edge_items[1]) if has_type else 0, int(edge_items[0])
 
         for n in sorted(neighbors, key=order):
             neighbor_columns = n.split(",")
-- 
2.43.0


From 154f234f31b319766f2cb27e1bb9029ddcaa19fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:05:15 +0000
Subject: [PATCH 06/33] fix: drop the incomplete last batch of edges that have
 features

The file edge sampler passed drop_last on only for files without features.
With features the last batch was padded although len() did not count it.
---
 src/python/deepgnn/graph_engine/samplers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index 96c5dd0..cdc9184 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -429,6 +429,7 @@ class FileEdgeSampler(BaseSampler):
                 ),
                 np.zeros(shape=(self.feature_dim), dtype=np.float32),
             ],
+            drop_last=self.drop_last,
             data_parallel_num=self.data_parallel_num,
             data_parallel_index=self.data_parallel_index,
         )
-- 
2.43.0


From a4e1d845f6d3b32a81f29d578d5875046a27509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:05:15 +0000
Subject: [PATCH 07/33] fix: keep the last id of a range read by several
 loaders

The number of ids left in the last batch was rounded down, so the last id
was replaced with the backfill id when the loaders do not divide the range.
---
 src/python/deepgnn/graph_engine/samplers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index cdc9184..572ed8e 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -544,7 +544,8 @@ class _RangeNodeIterator(_GEIterator):
         last = self.first + self.batch_size * self.data_parallel_num
         res = np.arange(self.first, last, step=self.data_parallel_num)
         if last > self.last:
-            res[(self.last - self.first) // self.data_parallel_num :] = self.backfill_id
+            left = math.ceil((self.last - self.first) / self.data_parallel_num)
+            res[left:] = self.backfill_id
 
         self.first += self.num_workers * self.batch_size * self.data_parallel_num
         return res
-- 
2.43.0


From d7d5b129cda1078ff47e59664992b1e44c68cba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:05:15 +0000
Subject: [PATCH 08/33] fix: give range sampler workers different ids when each
 has several loaders

A worker with several loaders reads batch_size * data_parallel_num ids at a
time, but the next worker started only batch_size ids later.
---
 src/python/deepgnn/graph_engine/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index 572ed8e..39bee99 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -574,7 +574,7 @@ class RangeNodeSampler(BaseSampler):
             data_parallel_index=data_parallel_index,
             data_parallel_num=data_parallel_num,
         )
-        self.start_id = first + worker_index * batch_size
+        self.start_id = first + worker_index * batch_size * data_parallel_num
         self.last = last
         assert self.start_id < self.last
         self.batch_size = batch_size
-- 
2.43.0


From 8b9d9cc6ff24de4a9248b69c5668a99405b757ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:05:15 +0000
Subject: [PATCH 09/33] fix: repeat the csv node list for every epoch and every
 iteration

The csv sampler counted batches of all epochs but stopped after the first
one, returned nothing when iterated again and announced too few batches
when the list is shared by several loaders.
---
 src/python/deepgnn/graph_engine/samplers.py | 23 ++++++++-------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index 39bee99..0e291a0 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -710,29 +710,24 @@ class CSVNodeSampler(BaseSampler):
 
         self.node_list: np.ndarray = np.array(node_list)
         self.cur_batch = 0
-        self.count = (
-            (len(node_list) + self.batch_size - 1)
-            // (self.batch_size * self.data_parallel_num)
-            * epoch
+        self.count = epoch * math.ceil(
+            len(node_list) / (self.batch_size * self.data_parallel_num)
         )
 
     def __iter__(self):
-        """No-op."""
+        """Start from the first batch."""
+        self.cur_batch = 0
         return self
 
     def __next__(self) -> np.ndarray:
         """Implement iterator interface."""
-        start_pos = (
-            self.cur_batch * self.batch_size * self.data_parallel_num
-            + self.data_parallel_index
-        )
-        if start_pos >= len(self.node_list):
+        step = self.batch_size * self.data_parallel_num
+        epoch_size = math.ceil((len(self.node_list) - self.data_parallel_index) / step)
+        if self.cur_batch >= self.epochs * epoch_size:
             raise StopIteration
+        start_pos = self.cur_batch % epoch_size * step + self.data_parallel_index
         self.cur_batch += 1
-        end_pos = (
-            self.cur_batch * self.batch_size * self.data_parallel_num
-            + self.data_parallel_index
-        )
+        end_pos = start_pos + step
         if end_pos >= len(self.node_list):
             end_pos = len(self.node_list)
         return np.array(self.node_list[start_pos : end_pos : self.data_parallel_num])
-- 
2.43.0


From 294fc5e9a804ea3e274d7423caca6ae898f622f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:05:15 +0000
Subject: [PATCH 10/33] fix: do not sample a batch of empty lines from an empty
 text file

---
 src/python/deepgnn/graph_engine/samplers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index 0e291a0..0b4b952 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -914,6 +914,9 @@ class TextFileSampler(BaseSampler):
                 self.end = True
                 break
 
+        if len(self.buf) == 0:
+            raise StopIteration
+
         if self.shuffle and new_added:
             random.shuffle(self.buf)
 
-- 
2.43.0


From 3ae6078f2d2ecfd972b2e756f81c1a0767074ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:59:06 +0000
Subject: [PATCH 11/33] fix: return edge creation times from uniform sampling
 without query times

---
 src/python/deepgnn/graph_engine/snark/client.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index c82129b..7dcf64c 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -1090,11 +1090,9 @@ class MemoryGraph:
             result_nodes.ctypes.data_as(POINTER(c_int64)),
             result_types.ctypes.data_as(POINTER(c_int32)),
             (
-                None
-                if timestamps is None
-                or len(timestamps) == 0
-                or (not return_edge_created_ts)
-                else result_ts.ctypes.data_as(POINTER(c_int64))
+                result_ts.ctypes.data_as(POINTER(c_int64))
+                if return_edge_created_ts
+                else None
             ),
             c_int64(default_node),
             c_int32(default_type),
-- 
2.43.0


From 38971c0678466d7e315e03c8401697a5a922d081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:59:06 +0000
Subject: [PATCH 12/33] fix: limit the delay between retries by the maximum
 backoff

---
 src/python/deepgnn/graph_engine/snark/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index 7dcf64c..f9389c5 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -1428,7 +1428,7 @@ class DistributedGraph(MemoryGraph):
             wait=wait_exponential(
                 multiplier=retry_ops["backoff_multiplier"],
                 min=retry_ops["initial_backoff"],
-                max=retry_ops["max_attempts"],
+                max=retry_ops["max_backoff"],
             ),
             before=before_log(get_logger(), logging.DEBUG),
             after=after_log(get_logger(), logging.WARNING),
-- 
2.43.0


From b556b0943a8dfa4a9160f93e918aad6c70ff4d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:59:16 +0000
Subject: [PATCH 13/33] fix: retry page rank sampling like other remote queries

---
 src/python/deepgnn/graph_engine/snark/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index f9389c5..44c1c57 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -1136,7 +1136,8 @@ class MemoryGraph:
         etypes_arr = TypeArray(*edge_types)
         result_nodes = np.full((len(nodes), count), default_node, dtype=np.int64)
         result_weights = np.full((len(nodes), count), default_weight, dtype=np.float32)
-        self.lib.PPRSampleNeighbor(
+        self._retryer(
+            self.lib.PPRSampleNeighbor,
             self.g_,
             nodes.ctypes.data_as(POINTER(c_int64)),
             c_size_t(nodes.size),
-- 
2.43.0


From 8e6128726e94e14371924ed6348f44858d40560f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:17:17 +0000
Subject: [PATCH 14/33] fix: download every partition with its own file system

Files of remote partitions were requested in one call from the file system of
the last partition. Graphs with partitions on different file systems, or with a
local partition at the end, failed to load.
---
 src/python/deepgnn/graph_engine/snark/_downloader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/_downloader.py b/src/python/deepgnn/graph_engine/snark/_downloader.py
index 6b84c13..55289a7 100644
--- a/src/python/deepgnn/graph_engine/snark/_downloader.py
+++ b/src/python/deepgnn/graph_engine/snark/_downloader.py
@@ -39,13 +39,13 @@ def download_graph_data(path: str, partitions: List[Tuple[str, int]]) -> GraphPa
     data_path = tempfile.TemporaryDirectory(suffix="_snark")
     fs.get(mt._get_meta_path(path, fs.sep), mt._get_meta_path(data_path.name))
     graph_meta = mt.Meta(data_path.name)
-    lpath = []
     for i in range(len(partitions)):
         partition_path, partition_index = partitions[i]
         fs, _ = get_fs(partition_path)
         if isinstance(fs, LocalFileSystem):
             continue
 
+        lpath = []
         lpath.append(mt._get_node_map_path(partition_path, partition_index, -1, fs.sep))
         lpath.append(
             mt._get_neighbors_index_path(partition_path, partition_index, -1, fs.sep)
@@ -96,7 +96,8 @@ def download_graph_data(path: str, partitions: List[Tuple[str, int]]) -> GraphPa
             )
         )
 
+        # Partitions might be stored in different file systems.
+        fs.get(lpath, data_path.name)
         partitions[i] = (data_path.name, partition_index)
 
-    fs.get(lpath, data_path.name)
     return GraphPath(data_path)
-- 
2.43.0


From 55a32a18002e9a42f4a81cb4273e3acd17efd9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:17:27 +0000
Subject: [PATCH 15/33] fix: download edge timestamps of temporal graphs

Remote temporal graphs were fetched without their timestamp files, so the
native library could not open them afterwards.
---
 src/python/deepgnn/graph_engine/snark/_downloader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/snark/_downloader.py b/src/python/deepgnn/graph_engine/snark/_downloader.py
index 55289a7..f85b48b 100644
--- a/src/python/deepgnn/graph_engine/snark/_downloader.py
+++ b/src/python/deepgnn/graph_engine/snark/_downloader.py
@@ -60,6 +60,12 @@ def download_graph_data(path: str, partitions: List[Tuple[str, int]]) -> GraphPa
                 mt._Element.EDGE, partition_path, partition_index, -1, fs.sep
             )
         )
+        if graph_meta.watermark >= 0:
+            lpath.append(
+                mt._get_element_timestamps_path(
+                    mt._Element.EDGE, partition_path, partition_index, -1, fs.sep
+                )
+            )
         if graph_meta._node_feature_count > 0:
             lpath.append(
                 mt._get_element_features_data_path(
-- 
2.43.0


From 3b3eccf915c5fab7d9ed130645a12e376aa844d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:00:54 +0000
Subject: [PATCH 16/33] fix: load the requested partitions instead of the first
 ones

---
 src/python/deepgnn/graph_engine/snark/local.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/local.py b/src/python/deepgnn/graph_engine/snark/local.py
index 58dea18..78706e9 100644
--- a/src/python/deepgnn/graph_engine/snark/local.py
+++ b/src/python/deepgnn/graph_engine/snark/local.py
@@ -37,9 +37,7 @@ class Client(Graph):
         if len(partitions) == 0:
             self.logger.info("Partitions not set, defaulting to [0]")
             partitions = [0]
-        partitions_with_paths = [
-            (path, partition) for partition in range(len(partitions))
-        ]
+        partitions_with_paths = [(path, partition) for partition in partitions]
         self.logger.info(
             f"Graph data path: {path}. Partitions {partitions}. Storage type {storage_type}. Config path {config_path}. Stream {stream}."
         )
-- 
2.43.0


From 9450248e44be95a48d4c5c1b98f7f39263f6045d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:00:54 +0000
Subject: [PATCH 17/33] fix: do not share samplers between strategies or long
 lists of types

---
 src/python/deepgnn/graph_engine/snark/local.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/local.py b/src/python/deepgnn/graph_engine/snark/local.py
index 78706e9..21023ae 100644
--- a/src/python/deepgnn/graph_engine/snark/local.py
+++ b/src/python/deepgnn/graph_engine/snark/local.py
@@ -63,7 +63,7 @@ class Client(Graph):
         """Return an array of nodes with a specified type."""
         assert size > 0
 
-        key = _sampling_map[strategy] + str(node_types)
+        key = _sampling_map[strategy] + str(self.__check_types(node_types))
         if key not in self.node_samplers:
             self.node_samplers[key] = client.NodeSampler(
                 self.graph, self.__check_types(node_types), _sampling_map[strategy]
@@ -82,7 +82,7 @@ class Client(Graph):
         """Return an array of edges with a specified type."""
         assert size > 0
 
-        key = str(edge_types)
+        key = _sampling_map[strategy] + str(self.__check_types(edge_types))
         if key not in self.edge_samplers:
             self.edge_samplers[key] = client.EdgeSampler(
                 self.graph, self.__check_types(edge_types), _sampling_map[strategy]
-- 
2.43.0


From a10a518e0b7d4316225a045910e9db7d62f0679f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:00:54 +0000
Subject: [PATCH 18/33] fix: use the requested default edge type in weighted
 neighbor sampling

---
 src/python/deepgnn/graph_engine/snark/local.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/deepgnn/graph_engine/snark/local.py b/src/python/deepgnn/graph_engine/snark/local.py
index 21023ae..8e6de16 100644
--- a/src/python/deepgnn/graph_engine/snark/local.py
+++ b/src/python/deepgnn/graph_engine/snark/local.py
@@ -118,6 +118,7 @@ class Client(Graph):
                 count,
                 default_node,
                 default_weight,
+                default_edge_type,
                 seed=int(random.getrandbits(64)),
                 timestamps=timestamps,
                 return_edge_created_ts=return_edge_created_ts,
-- 
2.43.0


From de67a7c553b234b5ac1afb74a9304bb90ac4f7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:00:54 +0000
Subject: [PATCH 19/33] fix: give graph engine servers the addresses of their
 own hosts

---
 src/python/deepgnn/graph_engine/backends/snark/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index 4791eea..e3ad752 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -397,7 +397,7 @@ class _AddressFinder:
 # _AddressReader must be wrapped by SynchronizedClient to wait all servers.
 class _AddressReader:
     def __init__(self, path: str):
-        self._servers: List[str] = []
+        servers: List[Tuple[int, str]] = []
         for file_name in glob.glob(os.path.join(path, "*.servername")):
             with open(file_name, "r", newline=os.linesep) as f:
                 # First line is the address and the second - server index.
@@ -405,7 +405,9 @@ class _AddressReader:
                 assert len(raw) == 2
                 server_idx = int(raw[1])
                 if server_idx >= 0:
-                    self._servers.append(raw[0].rstrip(os.linesep))
+                    servers.append((server_idx, raw[0].rstrip(os.linesep)))
+        # Every worker starts its server on the address at its own server index.
+        self._servers: List[str] = [address for _, address in sorted(servers)]
 
     def servers(self) -> List[str]:
         return self._servers
-- 
2.43.0


From 1c89a2bf1daf3e6199d641edebdf61ecf13e3fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:00:54 +0000
Subject: [PATCH 20/33] fix: count partitions in json metadata to choose the
 number of servers

---
 src/python/deepgnn/graph_engine/backends/snark/client.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index e3ad752..bd55a8d 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -183,9 +183,8 @@ class SnarkDistributedBackend(GraphEngineBackend):
             # TODO(alsamylk): provide a better metadata reader in snark
             with open(os.path.join(options.data_dir, "meta.json"), "r") as meta:
                 # Use a simple heuristic: number of original partitions, but cap it at 4
-                # to avoid extreme cases. Partition count is written on 7th line.
-                lines = meta.readlines()
-                options.num_ge = min(int(lines[7]), 4)
+                # to avoid extreme cases.
+                options.num_ge = min(len(json.load(meta)["partitions"]), 4)
 
         # Use explicitly set index if it was provided
         if options.server_idx is not None:
-- 
2.43.0


From f407ccb53780849cf40d3f4e9b26f7eebc5ca3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:00:54 +0000
Subject: [PATCH 21/33] fix: connect with the given grpc options after starting
 servers

---
 src/python/deepgnn/graph_engine/backends/snark/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index bd55a8d..350fb31 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -133,6 +133,9 @@ class SnarkDistributedBackend(GraphEngineBackend):
             DistributedClient,
             options.servers,
             options.ssl_cert,
+            grpc_options=options.grpc_options,
+            num_threads=options.num_threads,
+            num_cq_per_thread=options.num_cq_per_thread,
         )
 
     def _check_servers_option(
-- 
2.43.0


From a52534c635a42bfd8763f5cba28af70da389ea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:00:54 +0000
Subject: [PATCH 22/33] fix: keep connection options of a serialized client

---
 src/python/deepgnn/graph_engine/snark/distributed.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/distributed.py b/src/python/deepgnn/graph_engine/snark/distributed.py
index fca4834..e0e353d 100644
--- a/src/python/deepgnn/graph_engine/snark/distributed.py
+++ b/src/python/deepgnn/graph_engine/snark/distributed.py
@@ -33,6 +33,7 @@ class Client(ge_snark.Client):
             servers = [servers]
         self._servers = servers
         self._ssl_cert = ssl_cert
+        self._options = (grpc_options, num_threads, num_cq_per_thread)
         self.graph = client.DistributedGraph(
             servers,
             ssl_cert,
@@ -53,7 +54,7 @@ class Client(ge_snark.Client):
             get_logger().setLevel(logging.ERROR)
             return Client(*args)
 
-        return deserialize, (self._servers, self._ssl_cert)
+        return deserialize, (self._servers, self._ssl_cert, *self._options)
 
 
 class Server:
-- 
2.43.0


From faf5ff3aac3440738a1adc098e70d7b026253e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:12:28 +0000
Subject: [PATCH 23/33] fix: leave the given list of workers in its order

Finding the server index of a worker sorted the list of worker hosts in
place.  A second backend made from the same options then looked up its
task index in the sorted list and took the place of another worker.
---
 src/python/deepgnn/graph_engine/backends/snark/client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index 350fb31..11eabb5 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -292,9 +292,8 @@ class SnarkDistributedBackend(GraphEngineBackend):
 
     def _extract_server_index(self, workers: List[str], index: int) -> Optional[int]:
         curr_worker = workers[index]
-        workers.sort()
         seen_hosts = set()
-        for worker in workers:
+        for worker in sorted(workers):
             host = worker.rsplit(":", 1)[0]
             if curr_worker != worker:
                 seen_hosts.add(host)
-- 
2.43.0


From cf199c4dfda23a5b176b62ca00d2ff6a6158c5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:21:44 +0000
Subject: [PATCH 24/33] fix: gen_skipgrams pairs words with the right window,
 not the left one twice

---
 src/python/deepgnn/graph_engine/graph_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/graph_ops.py b/src/python/deepgnn/graph_engine/graph_ops.py
index 231f5c7..aad957c 100644
--- a/src/python/deepgnn/graph_engine/graph_ops.py
+++ b/src/python/deepgnn/graph_engine/graph_ops.py
@@ -82,7 +82,7 @@ def gen_skipgrams(
         # each path
         for j in range(0, path_len):
             left_start = max(0, j - left_win_size)
-            right_end = min(path_len - 1, j + left_win_size)
+            right_end = min(path_len - 1, j + right_win_size)
             for k in range(left_start, right_end + 1):
                 if k == j:
                     continue
-- 
2.43.0


From a72bbe26314dd2b44b747168ff25bb4ea212b09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:43:20 +0000
Subject: [PATCH 25/33] fix: raise a failed query that arrives after the end of
 the sampler

---
 src/python/deepgnn/graph_engine/prefetch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/prefetch.py b/src/python/deepgnn/graph_engine/prefetch.py
index 6cd7040..912e1a3 100644
--- a/src/python/deepgnn/graph_engine/prefetch.py
+++ b/src/python/deepgnn/graph_engine/prefetch.py
@@ -207,6 +207,9 @@ class Generator:
             item = self.outputs.get()
             self.outputs.task_done()
             self.index += 1
+            if type(item) is FetchDone and item.exception_info is not None:
+                get_logger().error(item.exception_info)
+                raise Exception(item.exception_info)
 
         return item
 
-- 
2.43.0


From ae04e1b16d569605160821b98458b32d9162d3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:43:38 +0000
Subject: [PATCH 26/33] fix: end again after an empty sampler instead of
 waiting forever

---
 src/python/deepgnn/graph_engine/prefetch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/prefetch.py b/src/python/deepgnn/graph_engine/prefetch.py
index 912e1a3..6352044 100644
--- a/src/python/deepgnn/graph_engine/prefetch.py
+++ b/src/python/deepgnn/graph_engine/prefetch.py
@@ -152,7 +152,7 @@ class Generator:
         collate_fn: Optional[Callable] = None,
     ):
         """Initialize generator."""
-        self.count = 0
+        self.count: Optional[int] = None
         self.index = 0
         self.outputs: Queue[Tuple[np.ndarray]] = Queue(prefetch_size)
         self.max_workers = max_workers
@@ -190,7 +190,7 @@ class Generator:
 
     def __next__(self):
         """Parse the queue and get the "count" queue item. Use it to decide terminate the iteration or not."""
-        if self.count > 0 and self.index == self.count + 1:
+        if self.count is not None and self.index == self.count + 1:
             raise StopIteration
 
         item = self.outputs.get()
-- 
2.43.0


From 303142459c057306925aa53f6795dd10226dcf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:27 +0000
Subject: [PATCH 27/33] fix: average clustering looks nodes up by position

Sampling used positions as node names and could draw one position past
the end, so the function failed for every graph.
---
 .../deepgnn/graph_engine/snark/preprocess/sampler/metric.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/preprocess/sampler/metric.py b/src/python/deepgnn/graph_engine/snark/preprocess/sampler/metric.py
index 1a12496..287c912 100644
--- a/src/python/deepgnn/graph_engine/snark/preprocess/sampler/metric.py
+++ b/src/python/deepgnn/graph_engine/snark/preprocess/sampler/metric.py
@@ -51,8 +51,8 @@ def average_clustering(input_graph: nx.digraph, trials: int) -> float:
     g = nx.to_undirected(input_graph)
     n = len(g)
     triangles = 0
-    nodes = g.nodes()
-    for i in [random.randint(0, n) for _ in range(trials)]:
+    nodes = list(g.nodes())
+    for i in [random.randrange(n) for _ in range(trials)]:
         nbrs = list(g[nodes[i]])
         if len(nbrs) < 2:
             continue
-- 
2.43.0


From 33ebcb5a33c3c9b96731e6959a993669aec4906d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:44 +0000
Subject: [PATCH 28/33] fix: evaluate all batches during training

The evaluation run during training stopped after its first batch when
the training step had reached the limit of steps of an epoch.
---
 src/python/deepgnn/pytorch/training/trainer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/pytorch/training/trainer.py b/src/python/deepgnn/pytorch/training/trainer.py
index 61943bc..a5926f9 100644
--- a/src/python/deepgnn/pytorch/training/trainer.py
+++ b/src/python/deepgnn/pytorch/training/trainer.py
@@ -315,7 +315,8 @@ class Trainer:
                     preds.append(pred.detach().cpu())
                     labels.append(label.detach().cpu())
 
-                if self._should_stop():
+                # Training steps don't limit evaluation during training.
+                if self.args.mode != TrainMode.TRAIN and self._should_stop():
                     break
 
         if self.args.use_per_step_metrics:
-- 
2.43.0


From 7a8724f263ae2a5c9c3c2af0d93c6f5701e16e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:44 +0000
Subject: [PATCH 29/33] fix: order checkpoints by number

Names were compared as text. Once steps or epochs outgrew their padding
the newest checkpoint sorted before older ones, so it was not picked up
when training resumed and was the first to be removed.
---
 src/python/deepgnn/pytorch/common/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/pytorch/common/utils.py b/src/python/deepgnn/pytorch/common/utils.py
index 5d77340..eae9d6f 100644
--- a/src/python/deepgnn/pytorch/common/utils.py
+++ b/src/python/deepgnn/pytorch/common/utils.py
@@ -131,7 +131,7 @@ def get_sorted_checkpoints(
     model_dir: str, perfix: str = PREFIX_CHECKPOINT, sort_ckpt_by_mtime: bool = False
 ) -> List[str]:
     """Return model checkpoints."""
-    ordering_and_checkpoint_path = []
+    ordering_and_checkpoint_path: List[Tuple] = []
 
     glob_checkpoints = [str(x) for x in Path(model_dir).glob(f"{perfix}-*")]
 
@@ -141,7 +141,9 @@ def get_sorted_checkpoints(
         else:
             regex_match = re.match(f".*{perfix}-([0-9\\-]+)", path)
             if regex_match and regex_match.groups():
-                ordering_and_checkpoint_path.append((regex_match.groups()[0], path))
+                # Compare as numbers, epochs and steps can outgrow their padding.
+                order = [int(n) for n in regex_match.groups()[0].split("-") if n]
+                ordering_and_checkpoint_path.append((order, path))
 
     return [checkpoint[1] for checkpoint in sorted(ordering_and_checkpoint_path)]
 
-- 
2.43.0


From e8bc16a38ac81202c95165c1ce6d0d6474a8193e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:59 +0000
Subject: [PATCH 30/33] fix: load every partition of the generated citation
 graphs

---
 src/python/deepgnn/graph_engine/data/cora.py      | 2 +-
 src/python/deepgnn/graph_engine/data/data_util.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/data/cora.py b/src/python/deepgnn/graph_engine/data/cora.py
index 38c21c6..e4279ae 100644
--- a/src/python/deepgnn/graph_engine/data/cora.py
+++ b/src/python/deepgnn/graph_engine/data/cora.py
@@ -108,7 +108,7 @@ if __name__ == "__main__":
     parser.add_argument("--data_dir", default=f"{tempfile.gettempdir()}/cora", type=str)
     parser.add_argument("--train_node_ratio", default=1.0, type=float)
     parser.add_argument("--random_selection", action="store_true")
-    parser.add_argument("--num_partitions", default=1)
+    parser.add_argument("--num_partitions", default=1, type=int)
     args = parser.parse_args()
 
     g = CoraFull(
diff --git a/src/python/deepgnn/graph_engine/data/data_util.py b/src/python/deepgnn/graph_engine/data/data_util.py
index 6e64d62..222437f 100644
--- a/src/python/deepgnn/graph_engine/data/data_util.py
+++ b/src/python/deepgnn/graph_engine/data/data_util.py
@@ -108,7 +108,7 @@ class Dataset(Client):
         self._build_graph_impl(
             self.input_location, self.output_dir, train_node_ratio, random_selection
         )
-        super().__init__(self.output_dir, partitions=[0])
+        super().__init__(self.output_dir, partitions=list(range(num_partitions)))
 
     def _build_graph_impl(
         self,
-- 
2.43.0


From bb7c7ad327d7cd2cd1c810fcf9f93b3ce6f2237f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:59 +0000
Subject: [PATCH 31/33] fix: random split honours the number of training nodes
 per class

---
 src/python/deepgnn/graph_engine/data/citation.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/data/citation.py b/src/python/deepgnn/graph_engine/data/citation.py
index b29d70b..51f7861 100644
--- a/src/python/deepgnn/graph_engine/data/citation.py
+++ b/src/python/deepgnn/graph_engine/data/citation.py
@@ -161,7 +161,6 @@ def random_split(
     num_test: int,
 ) -> Tuple[np.ndarray, np.ndarray, np.ndarray]:
     """Split graph data to train/test/validation sets with node sampling."""
-    num_train_per_class = 20
     num_nodes = labels.shape[0]
     train_idx = []
     for cl in range(num_classes):
-- 
2.43.0


From 8a22d41c99ccab1061036046a48904b97f3bd80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:07 +0000
Subject: [PATCH 32/33] fix: read a downloaded citation graph from where it was
 saved

---
 src/python/deepgnn/graph_engine/data/data_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/data/data_util.py b/src/python/deepgnn/graph_engine/data/data_util.py
index 222437f..18cb2ae 100644
--- a/src/python/deepgnn/graph_engine/data/data_util.py
+++ b/src/python/deepgnn/graph_engine/data/data_util.py
@@ -120,7 +120,7 @@ class Dataset(Client):
         filename = self.GRAPH_NAME + ".zip"
         if "http" in self.input_location:
             download_file(input_location, ".", filename)
-            input_location = os.path.join(input_location, filename)
+            input_location = os.path.join(".", filename)
         if self.input_location == "local":
             package_name = "deepgnn.graph_engine.data"
             zip_filename = f"{self.GRAPH_NAME}.zip"
-- 
2.43.0


From 696c344ae773f9f8e5f54026cef6cb52af2e04fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:48 +0000
Subject: [PATCH 33/33] fix: an empty text handed to the uploader no longer
 ends the upload

An empty piece of data was taken for the marker that tells upload
processes and threads to finish, so everything written after it was
never uploaded. Only the marker itself ends the upload now.
---
 src/python/deepgnn/graph_engine/adl_uploader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/adl_uploader.py b/src/python/deepgnn/graph_engine/adl_uploader.py
index c015f0e..27b8d48 100644
--- a/src/python/deepgnn/graph_engine/adl_uploader.py
+++ b/src/python/deepgnn/graph_engine/adl_uploader.py
@@ -76,7 +76,7 @@ class MultiThreadsAdlDataWriter:
         out_file = None
         while True:
             chunk = self.data_queue.get()
-            if not chunk:
+            if chunk is None:
                 if out_file:
                     out_file.close()
                 self.data_queue.task_done()
@@ -213,7 +213,7 @@ class AdlDataWriter:
         )
         while True:
             chunk = self.data_queues[process_idx].get()
-            if not chunk or not uploader.is_alive():
+            if chunk is None or not uploader.is_alive():
                 break
             uploader.enqueue(chunk)
 
-- 
2.43.0

