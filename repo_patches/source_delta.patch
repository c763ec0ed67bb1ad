From 786cd1895cf64bdcb7ac25801ebd428a10e61a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:09:47 +0000
Subject: [PATCH 001/118] fix: read feature data in release builds

The file read was the argument of an assert, so builds with NDEBUG never loaded feature data into memory.
Read unconditionally and report a short read.
---
 src/cc/lib/graph/storage.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/graph/storage.h b/src/cc/lib/graph/storage.h
index 2699159..6d47ce6 100644
--- a/src/cc/lib/graph/storage.h
+++ b/src/cc/lib/graph/storage.h
@@ -78,14 +78,17 @@ template <typename T> struct MemoryStorage : BaseStorage<T>
         }
         m_logger = logger;
 
-        auto file_ptr = open_file(std::move(path), std::move(suffix), m_logger);
+        auto file_ptr = open_file(path, suffix, m_logger);
 
         snark::platform_fseek(file_ptr, 0L, SEEK_END);
         auto size = snark::platform_ftell(file_ptr);
         m_data.resize(size);
 
         snark::platform_fseek(file_ptr, 0L, SEEK_SET);
-        assert(size == fread(m_data.data(), 1, size, file_ptr) && "Failed to read node features data");
+        if (fread(m_data.data(), 1, m_data.size(), file_ptr) != m_data.size())
+        {
+            m_logger->log_fatal("Failed to read data from %s, suffix %s", path.string().c_str(), suffix.c_str());
+        }
 
         fclose(file_ptr);
     }
-- 
2.43.0


From 8fe9551a0813b165f03bd34b85490f117af6074d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:10:02 +0000
Subject: [PATCH 002/118] fix: let the queue dispatcher finish when it uses
 threads

Joining a dispatcher created with use_threads=True failed twice.
The input queues were closed while worker threads still read from them, and threads have no terminate method.
---
 src/python/deepgnn/graph_engine/snark/dispatcher.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/dispatcher.py b/src/python/deepgnn/graph_engine/snark/dispatcher.py
index 74c9e2a..fb5cb23 100755
--- a/src/python/deepgnn/graph_engine/snark/dispatcher.py
+++ b/src/python/deepgnn/graph_engine/snark/dispatcher.py
@@ -331,7 +331,6 @@ class QueueDispatcher(Dispatcher):
         """Wrapup conversion."""
         for i in self.active_partitions:
             self.q_in[i].put(FLAG_ALL_DONE)
-            self.q_in[i].close()
 
         for _ in self.active_partitions:
             flag, output = self.q_out.get()
@@ -349,6 +348,9 @@ class QueueDispatcher(Dispatcher):
 
             assert flag == FLAG_WORKER_FINISHED_PROCESSING
         self.q_out.close()
+        # Worker threads share queues with the dispatcher, close them after the last read.
+        for i in self.active_partitions:
+            self.q_in[i].close()
 
         for p in self.partitions:
             real_node_type_num = len(p["node_type_count"])
@@ -385,7 +387,9 @@ class QueueDispatcher(Dispatcher):
                         pass
 
         for p in self.processes:
-            p.terminate()
+            # Threads can't be terminated, idle ones are daemons and don't block an exit.
+            if not isinstance(p, threading.Thread):
+                p.terminate()
 
     def prop(self, name: str) -> typing.Any:
         """Properties relevant for conversion.
-- 
2.43.0


From 4d0d5afb3a68e75629d1b65b514c29a88fd738a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:13:18 +0000
Subject: [PATCH 003/118] fix: don't skip edge types between requested ones

When a node had an edge type between two requested types that it doesn't have, the following type was skipped.
Neighbor lists, counts and samples missed edges as a result.
---
 src/cc/lib/graph/partition.cc | 44 +++++------------------------------
 1 file changed, 6 insertions(+), 38 deletions(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index e8da9aa..6c605b0 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -675,13 +675,6 @@ size_t NeighborIndexIterator(uint64_t internal_id, std::optional<Timestamp> node
         {
             break;
         }
-        for (; i < offset + nb_count && edge_types[curr_type] > m_edge_types[i]; ++i)
-        {
-        }
-        if (i == offset + nb_count)
-        {
-            break;
-        }
         // Find satisfying edge type, if exists
         if (m_edge_types[i] == edge_types[curr_type])
         {
@@ -1140,13 +1133,6 @@ void Partition::SampleNeighbor(bool return_edge_created_ts, int64_t seed, uint64
         {
             break;
         }
-        for (; i < last_type && in_edge_types[curr_type] > m_edge_types[i]; ++i)
-        {
-        }
-        if (i == last_type)
-        {
-            break;
-        }
 
         if (m_edge_types[i] == in_edge_types[curr_type])
         {
@@ -1223,14 +1209,6 @@ void Partition::SampleNeighbor(bool return_edge_created_ts, int64_t seed, uint64
             break;
         }
 
-        for (; i < last_type && in_edge_types[curr_type] > m_edge_types[i]; ++i)
-        {
-        }
-        if (i == last_type)
-        {
-            break;
-        }
-
         if (total_weight == 0 || left_over_neighbors == 0)
         {
             break;
@@ -1369,11 +1347,10 @@ void Partition::UniformSampleNeighbor(bool without_replacement, bool return_edge
     }
 }
 
-// Advance neighbor_type_index(for edges coming out of the current node) and in_edge_type_index(requested edge
-// types) until underlying types match.
-bool advance_edge_types(size_t &in_edge_type_index, size_t &neighbor_type_index,
-                        const std::span<const Type> &in_edge_types, const std::vector<Type> &neighbor_types,
-                        size_t last_type)
+// Advance in_edge_type_index(requested edge types) up to the type at neighbor_type_index(for edges coming out of the
+// current node) and check if underlying types match.
+bool advance_edge_types(size_t &in_edge_type_index, size_t neighbor_type_index,
+                        const std::span<const Type> &in_edge_types, const std::vector<Type> &neighbor_types)
 {
     for (; in_edge_type_index < in_edge_types.size() &&
            in_edge_types[in_edge_type_index] < neighbor_types[neighbor_type_index];
@@ -1384,15 +1361,6 @@ bool advance_edge_types(size_t &in_edge_type_index, size_t &neighbor_type_index,
     {
         return false;
     }
-    for (; neighbor_type_index < last_type && in_edge_types[in_edge_type_index] > neighbor_types[neighbor_type_index];
-         ++neighbor_type_index)
-    {
-    }
-    if (neighbor_type_index >= last_type)
-    {
-        return false;
-    }
-
     return neighbor_types[neighbor_type_index] == in_edge_types[in_edge_type_index];
 }
 
@@ -1411,7 +1379,7 @@ void Partition::UniformSampleNeighborWithReplacement(bool return_edge_created_ts
     const auto last_type = offset + nb_count;
     for (size_t neighbor_type_index = offset; neighbor_type_index < last_type; ++neighbor_type_index)
     {
-        if (!advance_edge_types(in_edge_type_index, neighbor_type_index, in_edge_types, m_edge_types, last_type))
+        if (!advance_edge_types(in_edge_type_index, neighbor_type_index, in_edge_types, m_edge_types))
         {
             continue;
         }
@@ -1492,7 +1460,7 @@ void Partition::UniformSampleNeighborWithoutReplacement(bool return_edge_created
 
     for (size_t i = offset; i < last_type; ++i)
     {
-        if (!advance_edge_types(curr_type, i, in_edge_types, m_edge_types, last_type))
+        if (!advance_edge_types(curr_type, i, in_edge_types, m_edge_types))
         {
             continue;
         }
-- 
2.43.0


From ae6587c10d4ff274f6ee56e8fd61cd0348e70aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:20:06 +0000
Subject: [PATCH 004/118] fix: split text files at line ends only

str.splitlines also splits at form feeds, Unicode line separators and other control characters.
Lines with such characters in string features were cut into pieces.
---
 .../deepgnn/graph_engine/_adl_reader.py       | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/_adl_reader.py b/src/python/deepgnn/graph_engine/_adl_reader.py
index d2417e6..9963007 100644
--- a/src/python/deepgnn/graph_engine/_adl_reader.py
+++ b/src/python/deepgnn/graph_engine/_adl_reader.py
@@ -26,6 +26,14 @@ class FetchDone(object):
         self.exception_info = exception
 
 
+def _split_lines(data) -> List[str]:
+    # Only \n and \r\n end a line, str.splitlines has many more separators.
+    lines = data.decode("utf-8").split("\n")
+    if lines[-1] == "":
+        lines.pop()
+    return [line[:-1] if line.endswith("\r") else line for line in lines]
+
+
 class AdlCredentialParser:
     @staticmethod
     def read_credentials(config: Optional[str] = None) -> dict:
@@ -182,10 +190,8 @@ class TextFileIterator:
                     sub_block[last_delim_index + 1 :]
                 )
                 if last_delim_index != first_delim_index:
-                    decoded_buf[index]["lines"] = (
+                    decoded_buf[index]["lines"] = _split_lines(
                         sub_block[first_delim_index + 1 : last_delim_index]
-                        .decode("utf-8")
-                        .splitlines()
                     )
 
             len_to_read = self.get_length_to_read()
@@ -237,9 +243,7 @@ class TextFileIterator:
             if cur_buf["suffix"] is not None:
                 if head_block["suffix"] is not None:
                     # there is '\n' in head block, concat the current prefix and head's suffix and decode.
-                    head_block["lines"].extend(
-                        head_buf.decode("utf-8").splitlines(False)
-                    )
+                    head_block["lines"].extend(_split_lines(head_buf))
 
                 # concat lines in current block into head block
                 head_block["lines"].extend(cur_buf["lines"])
@@ -391,9 +395,7 @@ class TextFileIterator:
 
             if head["suffix"] is not None:
                 if len(self.remain_bytes) > 0:
-                    self.remain_lines.extend(
-                        self.remain_bytes.decode("utf-8").splitlines(False)
-                    )
+                    self.remain_lines.extend(_split_lines(self.remain_bytes))
                 self.remain_lines.extend(head["lines"])
                 self.remain_bytes = head["suffix"]
 
-- 
2.43.0


From ac0bfebe1615ff53cda353c1737211a98a0a53b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:20:06 +0000
Subject: [PATCH 005/118] fix: report errors of text file reader threads

A failed read was treated as the end of a file and the rest of the data was dropped silently.
---
 .../deepgnn/graph_engine/_adl_reader.py       | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/_adl_reader.py b/src/python/deepgnn/graph_engine/_adl_reader.py
index 9963007..a822681 100644
--- a/src/python/deepgnn/graph_engine/_adl_reader.py
+++ b/src/python/deepgnn/graph_engine/_adl_reader.py
@@ -197,21 +197,29 @@ class TextFileIterator:
             len_to_read = self.get_length_to_read()
             sub_len = len_to_read // self.thread_count
             last_id = self.thread_count - 1
-            for thread_idx in range(last_id):
+            reads = [
                 pool.submit(
                     _read_block_worker,
                     thread_idx,
                     self.offset + (thread_idx * sub_len),
                     sub_len,
                 )
+                for thread_idx in range(last_id)
+            ]
 
-            pool.submit(
-                _read_block_worker,
-                last_id,
-                self.offset + (last_id * sub_len),
-                len_to_read - last_id * sub_len,
+            reads.append(
+                pool.submit(
+                    _read_block_worker,
+                    last_id,
+                    self.offset + (last_id * sub_len),
+                    len_to_read - last_id * sub_len,
+                )
             )
 
+        # raise exceptions from the read threads.
+        for read in reads:
+            read.result()
+
         # merge the prefix and suffix between blocks.
         # first we get the head block of the block list,
         # then we will concat each block after the head into head block.
@@ -258,6 +266,13 @@ class TextFileIterator:
         return 0
 
     def _read_block(self):
+        try:
+            self._read_files()
+        except Exception as e:
+            # pass the exception to the consumer, otherwise it'll wait forever.
+            self.outputs.put(FetchDone(exception=e))
+
+    def _read_files(self):
         while not self.stop:
             # try to read some data from current file using multi-threading
             block = self._read_block_by_threads()
@@ -384,6 +399,9 @@ class TextFileIterator:
             self.outputs.task_done()
             # if the head is finish indicator, convert the remaining unprocessed bytes to string and return
             if type(head) is FetchDone:
+                if head.exception_info is not None:
+                    self.end = True
+                    raise head.exception_info
                 if len(self.remain_bytes) != 0:
                     line = self.remain_bytes.decode("utf-8").strip("\r\n")
                     if len(line) > 0:
-- 
2.43.0


From 0b3f1293b8a19b137ea4589335aecd36f440771d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:21:33 +0000
Subject: [PATCH 006/118] fix: let split text readers be iterated again

The number of bytes left to read was not restored, so the second iteration returned nothing.
---
 src/python/deepgnn/graph_engine/_adl_reader.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/_adl_reader.py b/src/python/deepgnn/graph_engine/_adl_reader.py
index a822681..fd077f2 100644
--- a/src/python/deepgnn/graph_engine/_adl_reader.py
+++ b/src/python/deepgnn/graph_engine/_adl_reader.py
@@ -446,6 +446,7 @@ class TextFileSplitIterator(TextFileIterator):
     ):
         self.worker_offset = worker_offset
         self.total_read_length = total_read_length
+        self.left_read_length = total_read_length
 
         super(TextFileSplitIterator, self).__init__(
             filename=filename,
@@ -478,12 +479,17 @@ class TextFileSplitIterator(TextFileIterator):
         return total_files
 
     def get_length_to_read(self) -> int:
-        if self.total_read_length == -1:
+        if self.left_read_length == -1:
             return self.length
 
-        read = min(self.total_read_length, self.length)
-        self.total_read_length -= read
+        read = min(self.left_read_length, self.length)
+        self.left_read_length -= read
         return read
 
     def get_offset(self) -> int:
         return self.worker_offset
+
+    def reset(self):
+        self.join()
+        self.left_read_length = self.total_read_length
+        super().reset()
-- 
2.43.0


From e596a3880eded593d76a000a0fe88c504a8f914c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:27:07 +0000
Subject: [PATCH 007/118] fix: decode empty feature lists in json lines

---
 src/python/deepgnn/graph_engine/snark/decoders.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/decoders.py b/src/python/deepgnn/graph_engine/snark/decoders.py
index c224f96..f7cc943 100644
--- a/src/python/deepgnn/graph_engine/snark/decoders.py
+++ b/src/python/deepgnn/graph_engine/snark/decoders.py
@@ -367,7 +367,11 @@ class JsonDecoder(Decoder):
                     ret_list.append(None)
                     curr += 1
 
-                if isinstance(value, list) and isinstance(value[0], dict):
+                if (
+                    isinstance(value, list)
+                    and len(value) > 0
+                    and isinstance(value[0], dict)
+                ):
                     value = self._serialize_temporal_features(
                         value, created_at, removed_at, key
                     )
-- 
2.43.0


From c181445d346cbe756109c52890dc0a80b6749dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:27:07 +0000
Subject: [PATCH 008/118] fix: decode tsv neighbors without an edge type

---
 src/python/deepgnn/graph_engine/snark/decoders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/decoders.py b/src/python/deepgnn/graph_engine/snark/decoders.py
index f7cc943..e55153a 100644
--- a/src/python/deepgnn/graph_engine/snark/decoders.py
+++ b/src/python/deepgnn/graph_engine/snark/decoders.py
@@ -536,7 +536,8 @@ class TsvDecoder(Decoder):
 
         def order(edge):
             edge_items = edge.split(",")
-            return int(edge_items[1]), int(edge_items[0])
+            edge_type = edge_items[1] if len(edge_items) > 1 else ""
+            return int(edge_type) if edge_type else 0, int(edge_items[0])
 
         for n in sorted(neighbors, key=order):
             neighbor_columns = n.split(",")
-- 
2.43.0


From 43af920a8f1eee309d0e0b31ec3668d43ab9ceb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:27:28 +0000
Subject: [PATCH 009/118] fix: parse bool features of edge lists

---
 .../deepgnn/graph_engine/snark/decoders.py      | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/decoders.py b/src/python/deepgnn/graph_engine/snark/decoders.py
index e55153a..2bb5ce3 100644
--- a/src/python/deepgnn/graph_engine/snark/decoders.py
+++ b/src/python/deepgnn/graph_engine/snark/decoders.py
@@ -193,6 +193,15 @@ class EdgeListDecoder(Decoder):
                 return ""
             return item[idx]
 
+        def _values(count):
+            # Any non empty string is true for numpy, so parse bool values first.
+            items = (
+                map(lambda v: v.strip().lower() not in ("", "0", "false"), data)
+                if key == "bool"
+                else data
+            )
+            return np.fromiter(items, count=count, dtype=key)
+
         if not length[0]:
             return None
 
@@ -202,11 +211,7 @@ class EdgeListDecoder(Decoder):
                 np.fromiter(
                     data, count=values_len * max(coords_dim, 1), dtype=np.int64
                 ).reshape((values_len, coords_dim) if coords_dim else values_len),
-                np.fromiter(
-                    data,
-                    count=values_len,
-                    dtype=key,
-                ),
+                _values(values_len),
             )
 
         length_single = length[0]
@@ -226,7 +231,7 @@ class EdgeListDecoder(Decoder):
             return output
         else:
             # type: ignore
-            return np.fromiter(data, count=length_single, dtype=key)
+            return _values(length_single)
 
     def decode(
         self, line: str
-- 
2.43.0


From 169e00c3a9adeceab6fad3b6aa7a6fe363a81ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:27:28 +0000
Subject: [PATCH 010/118] fix: order edges by the times inherited from their
 node

---
 src/python/deepgnn/graph_engine/snark/decoders.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/decoders.py b/src/python/deepgnn/graph_engine/snark/decoders.py
index 2bb5ce3..00b411d 100644
--- a/src/python/deepgnn/graph_engine/snark/decoders.py
+++ b/src/python/deepgnn/graph_engine/snark/decoders.py
@@ -422,10 +422,10 @@ class JsonDecoder(Decoder):
                 edge_list,
                 key=lambda edge: (
                     edge["edge_type"],
-                    edge.get("created_at", 0),
+                    edge.get("created_at", node_created_at),
                     (
-                        edge.get("removed_at", 0)
-                        if edge.get("removed_at") != -1
+                        edge.get("removed_at", node_removed_at)
+                        if edge.get("removed_at", node_removed_at) != -1
                         else float("inf")
                     ),
                     edge["dst_id"],
-- 
2.43.0


From 75f84a963971c6c216c56fcabe19b4957f2c079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:27:28 +0000
Subject: [PATCH 011/118] fix: give every converter worker its share of
 partitions

---
 src/python/deepgnn/graph_engine/snark/convert.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/convert.py b/src/python/deepgnn/graph_engine/snark/convert.py
index 855f82a..bad2805 100755
--- a/src/python/deepgnn/graph_engine/snark/convert.py
+++ b/src/python/deepgnn/graph_engine/snark/convert.py
@@ -4,7 +4,6 @@
 """Conversion functions to internal binary format."""
 from typing import Optional
 import multiprocessing as mp
-import math
 from operator import add
 import fsspec
 import json
@@ -84,12 +83,13 @@ class MultiWorkersConverter:
         self.fs, _ = get_fs(graph_path)
 
         # calculate the partition offset and count of this worker.
-        self.partition_count = (
-            int(math.ceil(partition_count / worker_count)) if not self._debug else 1
-        )
-        self.partition_offset = self.partition_count * worker_index
-        if self.partition_offset + self.partition_count > partition_count:
-            self.partition_count = partition_count - self.partition_offset
+        if self._debug:
+            self.partition_count, self.partition_offset = 1, 0
+        else:
+            # Spread partitions evenly, a worker without partitions loses its input.
+            base, extra = divmod(partition_count, worker_count)
+            self.partition_count = base + (1 if worker_index < extra else 0)
+            self.partition_offset = base * worker_index + min(worker_index, extra)
 
         if self.dispatcher is None and not self._debug:
             # when converting data in HDFS make sure to turn it off: https://hdfs3.readthedocs.io/en/latest/limitations.html
-- 
2.43.0


From 6e5a91abe7aeff1fb0e687ab19e0de0c57795c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:27:28 +0000
Subject: [PATCH 012/118] fix: don't write timestamps for graphs converted
 without a watermark

---
 src/python/deepgnn/graph_engine/snark/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/convert.py b/src/python/deepgnn/graph_engine/snark/convert.py
index bad2805..7c7728e 100755
--- a/src/python/deepgnn/graph_engine/snark/convert.py
+++ b/src/python/deepgnn/graph_engine/snark/convert.py
@@ -266,6 +266,6 @@ if __name__ == "__main__":
         decoder=decoder,
         skip_node_sampler=args.skip_node_sampler,
         skip_edge_sampler=args.skip_edge_sampler,
-        watermark=args.watermark,
+        watermark=args.watermark if args.watermark >= 0 else None,
     )
     c.convert()
-- 
2.43.0


From 93347f3367826b322b75d8ba60d8dcf714ffa0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:27:28 +0000
Subject: [PATCH 013/118] fix: let the converter command line read edge lists

---
 src/python/deepgnn/graph_engine/snark/convert.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/convert.py b/src/python/deepgnn/graph_engine/snark/convert.py
index 7c7728e..aee6501 100755
--- a/src/python/deepgnn/graph_engine/snark/convert.py
+++ b/src/python/deepgnn/graph_engine/snark/convert.py
@@ -231,7 +231,7 @@ if __name__ == "__main__":
         "--type",
         type=str,
         default="json",
-        help="Type of decoder object which is used to parse the raw graph data file. Supported: json, tsv",
+        help="Type of decoder object which is used to parse the raw graph data file. Supported: json, tsv, edgelist",
     )
     parser.add_argument(
         "--skip_node_sampler",
@@ -253,9 +253,14 @@ if __name__ == "__main__":
     )
     args = parser.parse_args()
 
-    decoder = getattr(decoders, f"{args.type.capitalize()}Decoder")()
-    if decoder is None:
+    decoder_types = {
+        "json": decoders.JsonDecoder,
+        "tsv": decoders.TsvDecoder,
+        "edgelist": decoders.EdgeListDecoder,
+    }
+    if args.type.lower() not in decoder_types:
         raise ValueError("Unsupported decoder type.")
+    decoder = decoder_types[args.type.lower()]()
 
     c = MultiWorkersConverter(
         graph_path=args.data,
-- 
2.43.0


From 66373d26080c6033dd952fcf7e7657265c3391b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:29:58 +0000
Subject: [PATCH 014/118] fix: keep partition weights and types apart when
 merging metadata

---
 .../deepgnn/graph_engine/snark/meta_merger.py | 64 +++++++++++++------
 1 file changed, 46 insertions(+), 18 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/meta_merger.py b/src/python/deepgnn/graph_engine/snark/meta_merger.py
index ad5f082..1d9f076 100644
--- a/src/python/deepgnn/graph_engine/snark/meta_merger.py
+++ b/src/python/deepgnn/graph_engine/snark/meta_merger.py
@@ -17,10 +17,10 @@ from deepgnn.graph_engine._base import get_fs
 # binary_version          equal
 # node_count              additive
 # edge_count              additive
-# node_type_count         equal
-# edge_type_count         equal
-# node_feature_count      equal
-# edge_feature_count      equal
+# node_type_count         maximum
+# edge_type_count         maximum
+# node_feature_count      maximum
+# edge_feature_count      maximum
 # node weight             additive
 # edge weight             additive
 # node count              additive
@@ -55,8 +55,13 @@ class Meta:
         self.node_feature_count = meta["node_feature_count"]
         self.edge_feature_count = meta["edge_feature_count"]
         self.partition_count = len(meta["partitions"])
-        self.node_weights = [[0.0] * self.node_type_count] * self.partition_count
-        self.edge_weights = [[0.0] * self.edge_type_count] * self.partition_count
+        self.partition_ids = [int(id) for id in meta["partitions"]]
+        self.node_weights = [
+            [0.0] * self.node_type_count for _ in range(self.partition_count)
+        ]
+        self.edge_weights = [
+            [0.0] * self.edge_type_count for _ in range(self.partition_count)
+        ]
         for j, id in enumerate(meta["partitions"]):
             for i in range(self.node_type_count):
                 self.node_weights[j][i] += meta["partitions"][id]["node_weight"][i]
@@ -67,15 +72,26 @@ class Meta:
         self.edge_count_per_type = meta["edge_count_per_type"]
         self.watermark = meta["watermark"]
 
-    def get_partition(self, offset):
+    def pad_types(self, node_type_count: int, edge_type_count: int):
+        """Add empty types, a worker might not have seen all of them."""
+        extra_nodes = [0] * (node_type_count - self.node_type_count)
+        extra_edges = [0] * (edge_type_count - self.edge_type_count)
+        for weights in self.node_weights:
+            weights.extend(extra_nodes)
+        for weights in self.edge_weights:
+            weights.extend(extra_edges)
+        self.node_count_per_type = self.node_count_per_type + extra_nodes
+        self.edge_count_per_type = self.edge_count_per_type + extra_edges
+
+    def get_partition(self, ids):
         """Return the sub content of meta info."""
         return {
-            f"{offset + i}": {
+            f"{id}": {
                 "node_weight": self.node_weights[i],
                 "edge_weight": self.edge_weights[i],
             }
-            for i in range(self.partition_count)
-        }, offset + self.partition_count
+            for i, id in enumerate(ids)
+        }
 
 
 def merge(fs, output_dir: str, meta_list: List[Meta]):
@@ -83,29 +99,39 @@ def merge(fs, output_dir: str, meta_list: List[Meta]):
     assert all(
         map(lambda x: x.version == meta_list[0].version, meta_list)
     ), "All partitions must have the same binary version"
+    node_type_count = max(i.node_type_count for i in meta_list)
+    edge_type_count = max(i.edge_type_count for i in meta_list)
+    for i in meta_list:
+        i.pad_types(node_type_count, edge_type_count)
     content = {
         "binary_data_version": meta_list[0].version,
         "node_count": sum([i.node_count for i in meta_list]),
         "edge_count": sum([i.edge_count for i in meta_list]),
-        "node_type_count": meta_list[0].node_type_count,
-        "edge_type_count": meta_list[0].edge_type_count,
-        "node_feature_count": int(meta_list[0].node_feature_count),
-        "edge_feature_count": int(meta_list[0].edge_feature_count),
+        "node_type_count": node_type_count,
+        "edge_type_count": edge_type_count,
+        "node_feature_count": max(int(i.node_feature_count) for i in meta_list),
+        "edge_feature_count": max(int(i.edge_feature_count) for i in meta_list),
         "watermark": int(meta_list[0].watermark),
     }
+    # Keep partition numbers from workers unless they overlap.
+    all_ids = [id for i in meta_list for id in i.partition_ids]
+    keep_ids = len(set(all_ids)) == len(all_ids)
     offset = 0
     content["partitions"] = {}
     for i in meta_list:
-        data, offset = i.get_partition(offset)
-        content["partitions"].update(data)
+        ids = (
+            i.partition_ids if keep_ids else range(offset, offset + i.partition_count)
+        )
+        content["partitions"].update(i.get_partition(ids))
+        offset += i.partition_count
 
     content["node_count_per_type"] = [
         sum([i.node_count_per_type[count] for i in meta_list])
-        for count in range(int(meta_list[0].node_type_count))
+        for count in range(int(node_type_count))
     ]
     content["edge_count_per_type"] = [
         sum([i.edge_count_per_type[count] for i in meta_list])
-        for count in range(int(meta_list[0].edge_type_count))
+        for count in range(int(edge_type_count))
     ]
 
     with fs.open("{}/meta.json".format(output_dir), "w") as file:
@@ -124,6 +150,8 @@ def merge_metadata_files(meta_path: str):
     if len(total_files) == 0:
         return
 
+    # Worker index is a number: meta_2.json comes before meta_10.json.
+    total_files.sort(key=lambda f: (len(os.path.basename(f)), f))
     meta_list = [Meta(fs, f) for f in total_files]
     merge(fs, meta_path, meta_list)
 
-- 
2.43.0


From 3f2882bbb06d3e581e9bd7a98a41f8872c19442c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:29:58 +0000
Subject: [PATCH 015/118] fix: add alias tables for types unknown to some
 converter workers

---
 .../deepgnn/graph_engine/snark/meta_merger.py | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/snark/meta_merger.py b/src/python/deepgnn/graph_engine/snark/meta_merger.py
index 1d9f076..4ec7185 100644
--- a/src/python/deepgnn/graph_engine/snark/meta_merger.py
+++ b/src/python/deepgnn/graph_engine/snark/meta_merger.py
@@ -9,6 +9,7 @@ import json
 import fsspec
 
 from deepgnn.graph_engine._base import get_fs
+from deepgnn.graph_engine.snark.meta import _Element, _get_element_alias_path
 
 # Content of sample meta.json
 
@@ -134,6 +135,25 @@ def merge(fs, output_dir: str, meta_list: List[Meta]):
         for count in range(int(edge_type_count))
     ]
 
+    # Samplers read tables of every type from every partition. Converters create
+    # them for types known to a worker, so add empty ones for the remaining types.
+    for element, type_count in (
+        (_Element.NODE, node_type_count),
+        (_Element.EDGE, edge_type_count),
+    ):
+        existing = set(
+            os.path.basename(f)
+            for f in fs.glob(os.path.join(output_dir, f"{element.value}_*.alias"))
+        )
+        if len(existing) == 0:
+            continue
+        for id in content["partitions"]:
+            for tp in range(type_count):
+                path = _get_element_alias_path(element, output_dir, tp, id, "/")
+                if os.path.basename(path) not in existing:
+                    with fs.open(path, "wb"):
+                        pass
+
     with fs.open("{}/meta.json".format(output_dir), "w") as file:
         file.write(json.dumps(content))
 
-- 
2.43.0


From 865bd0ab85b128ec9c29b4b217af266f85062d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:30:20 +0000
Subject: [PATCH 016/118] fix: complete the files of partitions unused by a
 queue dispatcher

---
 src/python/deepgnn/graph_engine/snark/dispatcher.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/dispatcher.py b/src/python/deepgnn/graph_engine/snark/dispatcher.py
index fb5cb23..71797df 100755
--- a/src/python/deepgnn/graph_engine/snark/dispatcher.py
+++ b/src/python/deepgnn/graph_engine/snark/dispatcher.py
@@ -283,8 +283,6 @@ class QueueDispatcher(Dispatcher):
         self.q_out: mp.Queue = mp.Queue(num_partitions)
         self.partition_func = partion_func
 
-        # not all partitions might be used, we'll keep track them here
-        self.active_partitions: typing.Set = set()
         self.processes = [
             parallel_func(
                 target=process,
@@ -321,7 +319,6 @@ class QueueDispatcher(Dispatcher):
         """
         partition = self.partition_func(line)
         self.q_in[partition].put(line)
-        self.active_partitions.add(partition)
 
         self.count += 1
         if self.count % PROCESS_PRINT_INTERVAL == 0:
@@ -329,10 +326,11 @@ class QueueDispatcher(Dispatcher):
 
     def join(self):
         """Wrapup conversion."""
-        for i in self.active_partitions:
+        # Unused partitions need complete files too, graph is loaded with all of them.
+        for i in range(self.num_partitions):
             self.q_in[i].put(FLAG_ALL_DONE)
 
-        for _ in self.active_partitions:
+        for _ in range(self.num_partitions):
             flag, output = self.q_out.get()
             self.node_count += output["node_count"]
             self.edge_count += output["edge_count"]
@@ -349,7 +347,7 @@ class QueueDispatcher(Dispatcher):
             assert flag == FLAG_WORKER_FINISHED_PROCESSING
         self.q_out.close()
         # Worker threads share queues with the dispatcher, close them after the last read.
-        for i in self.active_partitions:
+        for i in range(self.num_partitions):
             self.q_in[i].close()
 
         for p in self.partitions:
-- 
2.43.0


From c28087e98485ff3a9a7ef6354e3c858c4bfbea75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:32:02 +0000
Subject: [PATCH 017/118] fix: build alias tables in double precision

---
 src/python/deepgnn/graph_engine/snark/alias.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/snark/alias.py b/src/python/deepgnn/graph_engine/snark/alias.py
index 6652ff1..c15f5ae 100644
--- a/src/python/deepgnn/graph_engine/snark/alias.py
+++ b/src/python/deepgnn/graph_engine/snark/alias.py
@@ -19,6 +19,8 @@ class Vose:
             weights (np.array): corresponging elements weights
         """
         self.elements = elements
+        # Rounding errors of single precision add up in large tables.
+        weights = np.asarray(weights, dtype=np.float64)
         weights = np.multiply(weights, len(weights) / np.sum(weights))
         self.alias = np.empty(len(elements), dtype=np.uint64)
         self.prob = np.empty(len(elements), dtype=np.float32)
-- 
2.43.0


From cca2ea3a41db8b5abf5af37072b359b75730273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:50:40 +0000
Subject: [PATCH 018/118] fix: check for edge features before reading edge
 strings

---
 src/cc/lib/graph/partition.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index 6c605b0..d520bce 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -1046,7 +1046,7 @@ void Partition::GetEdgeStringFeature(uint64_t internal_src_node_id, NodeId input
 
     auto file_ptr = m_edge_features->start();
     auto has_edge_features = EdgeFeatureOffset(internal_src_node_id, input_edge_dst, input_edge_type);
-    if (!has_edge_features.has_value())
+    if (!has_edge_features.has_value() || m_edge_feature_offset.empty() || m_edge_feature_index.empty())
     {
         return;
     }
-- 
2.43.0


From 883eb5601b51dca10f770166d8f1ee29fe375916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:51:25 +0000
Subject: [PATCH 019/118] fix: return empty features for empty requests

---
 src/cc/lib/distributed/client.cc | 6 +++---
 src/cc/lib/graph/graph.cc        | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cc/lib/distributed/client.cc b/src/cc/lib/distributed/client.cc
index 0299b09..8270333 100644
--- a/src/cc/lib/distributed/client.cc
+++ b/src/cc/lib/distributed/client.cc
@@ -305,7 +305,7 @@ void GRPCClient::GetNodeFeature(std::span<const NodeId> node_ids, std::span<cons
         feature_len_prefix.emplace_back(curr_feature_prefix);
         curr_feature_prefix += feature.second;
     }
-    const size_t fv_size = output.size() / node_len;
+    const size_t fv_size = node_len == 0 ? 0 : output.size() / node_len;
     std::vector<std::future<void>> futures;
     futures.reserve(m_engine_stubs.size());
     std::vector<NodeFeaturesReply> replies(m_engine_stubs.size());
@@ -398,7 +398,7 @@ void GRPCClient::GetEdgeFeature(std::span<const NodeId> edge_src_ids, std::span<
            output.size());
     assert(len == edge_src_ids.size());
     assert(len == edge_dst_ids.size());
-    assert(output.size() % len == 0);
+    assert(len == 0 || output.size() % len == 0);
 
     EdgeFeaturesRequest request;
     *request.mutable_node_ids() = {std::begin(edge_src_ids), std::end(edge_src_ids)};
@@ -413,7 +413,7 @@ void GRPCClient::GetEdgeFeature(std::span<const NodeId> edge_src_ids, std::span<
         wire_feature->set_size(feature.second);
     }
 
-    const size_t fv_size = output.size() / len;
+    const size_t fv_size = len == 0 ? 0 : output.size() / len;
     std::vector<std::future<void>> futures;
     futures.reserve(m_engine_stubs.size());
     std::vector<EdgeFeaturesReply> replies(m_engine_stubs.size());
diff --git a/src/cc/lib/graph/graph.cc b/src/cc/lib/graph/graph.cc
index 95de988..d640b87 100644
--- a/src/cc/lib/graph/graph.cc
+++ b/src/cc/lib/graph/graph.cc
@@ -138,7 +138,7 @@ void Graph::GetNodeFeature(std::span<const NodeId> node_ids, std::span<const Tim
                node_ids.size() ==
            output.size());
 
-    const size_t features_size = output.size() / node_ids.size();
+    const size_t features_size = node_ids.empty() ? 0 : output.size() / node_ids.size();
     size_t feature_offset = 0;
     absl::InlinedVector<Timestamp, 1024> feature_flags(features.size());
     for (size_t node_index = 0; node_index < node_ids.size(); ++node_index)
@@ -261,7 +261,7 @@ void Graph::GetEdgeFeature(std::span<const NodeId> input_edge_src, std::span<con
                input_edge_src.size() ==
            output.size());
 
-    const size_t feature_size = output.size() / input_edge_src.size();
+    const size_t feature_size = input_edge_src.empty() ? 0 : output.size() / input_edge_src.size();
     size_t feature_offset = 0;
     size_t edge_offset = 0;
     absl::InlinedVector<Timestamp, 1024> feature_flags(features.size());
-- 
2.43.0


From 112439ad8e9ac5692dc584d2760b4470071d3457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:51:46 +0000
Subject: [PATCH 020/118] fix: read empty features at the end of files

---
 src/cc/lib/graph/storage.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cc/lib/graph/storage.h b/src/cc/lib/graph/storage.h
index 6d47ce6..8190fee 100644
--- a/src/cc/lib/graph/storage.h
+++ b/src/cc/lib/graph/storage.h
@@ -313,6 +313,10 @@ template <typename T> struct DiskStorage final : BaseStorage<T>
     typename std::span<T>::iterator read(uint64_t offset, uint64_t size, typename std::span<T>::iterator output_ptr,
                                          std::shared_ptr<FilePtr> file_ptr_temp) const override
     {
+        // Empty values can be stored at the very end of a file.
+        if (size == 0)
+            return output_ptr;
+
         FILE *file_ptr = **file_ptr_temp;
 
         if (file_ptr == nullptr)
-- 
2.43.0


From 597536b54c7437639904ed7c7e25e6ff1093727d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:56:13 +0000
Subject: [PATCH 021/118] fix: find active edges with overlapping lifetimes

---
 src/cc/lib/graph/partition.cc | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index d520bce..c4e5992 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -691,37 +691,24 @@ size_t NeighborIndexIterator(uint64_t internal_id, std::optional<Timestamp> node
 namespace
 {
 
-auto find_start(const std::span<const std::pair<Timestamp, Timestamp>> &range, Timestamp ts)
+bool is_active(const std::pair<Timestamp, Timestamp> &interval, Timestamp ts)
 {
-    if (range.empty())
-    {
-        return std::end(range);
-    }
-
-    if (range.front().first <= ts && (range.front().second > ts || range.front().second == -1))
-    {
-        return std::begin(range);
-    }
+    return interval.first <= ts && (interval.second > ts || interval.second == -1);
+}
 
-    ts = std::max(ts, range.front().second);
-    return std::lower_bound(
-        std::begin(range), std::end(range), ts,
-        [](const std::pair<Timestamp, Timestamp> &a, int x) { return a.second != -1 && a.second <= x; });
+// Lifetimes of edges sorted by creation time can overlap in any way, so active ones are not contiguous.
+// Find the first active edge in the range.
+auto find_start(const std::span<const std::pair<Timestamp, Timestamp>> &range, Timestamp ts)
+{
+    return std::find_if(std::begin(range), std::end(range), [ts](const auto &a) { return is_active(a, ts); });
 }
 
 using cspan_it = std::span<const std::pair<Timestamp, Timestamp>>::iterator;
 
+// Find the end of the run of active edges at the beginning of the range.
 cspan_it find_last(const std::span<const std::pair<Timestamp, Timestamp>> &range, Timestamp ts)
 {
-    if (range.front().first > ts)
-    {
-        return std::begin(range);
-    }
-
-    auto last = range.front().second;
-    return std::upper_bound(
-        std::begin(range), std::end(range), ts,
-        [last](Timestamp ts, const std::pair<Timestamp, Timestamp> &a) { return a.second > last || a.first > ts; });
+    return std::find_if_not(std::begin(range), std::end(range), [ts](const auto &a) { return is_active(a, ts); });
 }
 
 } // anonymous namespace
@@ -834,7 +821,7 @@ size_t Partition::LastNCreatedNeighbors(bool return_edge_created_ts, uint64_t in
         for (size_t index = start; index < last; ++index)
         {
             auto &ts = m_edge_timestamps[index];
-            if ((ts.second != -1 && ts.second < timestamp) || ts.first > timestamp)
+            if (!is_active(ts, timestamp))
             {
                 continue;
             }
-- 
2.43.0


From 0bce3471586c99fed2ab8573940b9ed6b4898855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:56:13 +0000
Subject: [PATCH 022/118] fix: sample later runs of active edges without
 replacement

---
 src/cc/lib/graph/partition.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index c4e5992..a0e998d 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -1489,6 +1489,7 @@ void Partition::UniformSampleNeighborWithoutReplacement(bool return_edge_created
                 }
                 const auto local_pos =
                     size_t((lst - std::begin(it_subspan)) + it_dist); // equivavlent of lst - std::begin(timestamp_span)
+                first += local_pos;
                 timestamp_span = timestamp_span.subspan(local_pos);
             }
         }
-- 
2.43.0


From bd9a296b1d97660c6e33d26d64731d6e23460235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:56:13 +0000
Subject: [PATCH 023/118] fix: keep default timestamps of sampled neighbors
 inside the output

---
 src/cc/lib/graph/graph.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/graph/graph.cc b/src/cc/lib/graph/graph.cc
index d640b87..f439db3 100644
--- a/src/cc/lib/graph/graph.cc
+++ b/src/cc/lib/graph/graph.cc
@@ -538,8 +538,9 @@ void Graph::UniformSampleNeighbor(bool without_replacement, bool return_edge_cre
 
             if (fill_edge_ts_by_partition)
             {
-                std::fill(std::begin(out_nb_ts) + (timestamps.empty() ? 0 : neighbors_total_count[node_index]),
-                          std::end(out_nb_ts), snark::PLACEHOLDER_TIMESTAMP);
+                const size_t found = timestamps.empty() ? 0 : neighbors_total_count[node_index];
+                std::fill(std::begin(out_nb_ts) + std::min(found, count), std::end(out_nb_ts),
+                          snark::PLACEHOLDER_TIMESTAMP);
             }
         }
     }
-- 
2.43.0


From 272dc1c6710a9d244d6999e3580aa5d89be5d0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:57:20 +0000
Subject: [PATCH 024/118] fix: treat missing features of temporal graphs as
 empty

---
 src/cc/lib/graph/partition.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index a0e998d..2a61e72 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -35,6 +35,12 @@ std::tuple<uint64_t, uint64_t, Timestamp> deserialize_temporal_feature(uint64_t
                                                                        std::shared_ptr<snark::FilePtr> file_ptr,
                                                                        Timestamp timestamp)
 {
+    // There are no time intervals to read for a missing feature.
+    if (stored_size == 0)
+    {
+        return std::make_tuple(initial_offset, 0, -1);
+    }
+
     uint32_t timestamps_size = 0;
     auto timestamps_size_output = std::span(reinterpret_cast<uint8_t *>(&timestamps_size), 4);
     storage->read(initial_offset, timestamps_size_output.size(), std::begin(timestamps_size_output), file_ptr);
-- 
2.43.0


From dece054788685521ca1416169c418bba2912314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:59:03 +0000
Subject: [PATCH 025/118] fix: pass the output of creation times to uniform
 sampling without timestamps

---
 src/python/deepgnn/graph_engine/snark/client.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index c82129b..7dcf64c 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -1090,11 +1090,9 @@ class MemoryGraph:
             result_nodes.ctypes.data_as(POINTER(c_int64)),
             result_types.ctypes.data_as(POINTER(c_int32)),
             (
-                None
-                if timestamps is None
-                or len(timestamps) == 0
-                or (not return_edge_created_ts)
-                else result_ts.ctypes.data_as(POINTER(c_int64))
+                result_ts.ctypes.data_as(POINTER(c_int64))
+                if return_edge_created_ts
+                else None
             ),
             c_int64(default_node),
             c_int32(default_type),
-- 
2.43.0


From b75088848d1d3826a4cb9b73bca886131ef30875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:08:24 +0000
Subject: [PATCH 026/118] fix: pick every kept neighbor with the same
 probability when merging samples without replacement

---
 src/cc/lib/graph/reservoir.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/graph/reservoir.cc b/src/cc/lib/graph/reservoir.cc
index 6ceaa32..074e531 100644
--- a/src/cc/lib/graph/reservoir.cc
+++ b/src/cc/lib/graph/reservoir.cc
@@ -93,11 +93,13 @@ void sample_n(It first, It last, size_t n, snark::Xoroshiro128PlusGenerator &gen
     size_t total_elements = size_t(last - first);
     assert(total_elements > 0);
     assert(n <= total_elements && "Sample size is larger than the range");
+    // Every element has to stay in its place with the same probability, unless all of them are taken.
+    const size_t first_choice = n < total_elements ? 0 : 1;
     // There is no need to swap the last element with itself.
     total_elements -= 1;
     for (size_t i = 0; i < total_elements; ++i)
     {
-        std::uniform_int_distribution<size_t> dist(i + 1, total_elements);
+        std::uniform_int_distribution<size_t> dist(i + first_choice, total_elements);
         std::swap(first[i], first[dist(gen)]);
     }
 }
@@ -137,7 +139,7 @@ void WithoutReplacementMerge::add(size_t n, std::function<void(size_t, size_t)>
     }
 
     // Randomly shuffle the indices of the left and right reservoirs to determine final indices.
-    size_t left_size = m_seen;
+    size_t left_size = std::min(m_seen, m_k);
     size_t right_size = std::min(n, m_k);
     std::vector<size_t> left_indices(left_size);
     std::vector<size_t> right_indices(right_size);
@@ -169,6 +171,7 @@ void WithoutReplacementMerge::add(size_t n, std::function<void(size_t, size_t)>
             ++right_index;
         }
     }
+    m_seen += n;
 }
 
 void WithoutReplacementMerge::reset()
-- 
2.43.0


From fa4326d168aff23fd488adc61135baa051614ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:12:43 +0000
Subject: [PATCH 027/118] fix: keep pointers valid when a server reads nodes
 present in several partitions

---
 src/cc/lib/distributed/graph_engine.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/distributed/graph_engine.cc b/src/cc/lib/distributed/graph_engine.cc
index dd75504..be35118 100644
--- a/src/cc/lib/distributed/graph_engine.cc
+++ b/src/cc/lib/distributed/graph_engine.cc
@@ -763,11 +763,15 @@ void GraphEngineServiceImpl::ReadNodeMap(std::filesystem::path path, std::string
             auto old_count = m_counts[old_offset];
             m_node_map[pair[0]] = m_internal_indices.size();
 
-            std::copy_n(std::begin(m_internal_indices) + old_offset, old_count, std::back_inserter(m_internal_indices));
+            auto old_size = m_internal_indices.size();
+            m_internal_indices.resize(old_size + old_count);
+            std::copy_n(std::begin(m_internal_indices) + old_offset, old_count,
+                        std::begin(m_internal_indices) + old_size);
             m_internal_indices.emplace_back(pair[1]);
 
+            m_partitions_indices.resize(old_size + old_count);
             std::copy_n(std::begin(m_partitions_indices) + old_offset, old_count,
-                        std::back_inserter(m_partitions_indices));
+                        std::begin(m_partitions_indices) + old_size);
             m_partitions_indices.emplace_back(index);
 
             std::fill_n(std::back_inserter(m_counts), old_count + 1, old_count + 1);
-- 
2.43.0


From bc04a25a084559c2dcc6124fcf2d864e64841ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:15:13 +0000
Subject: [PATCH 028/118] fix: return the default type for nodes known only by
 their edges

---
 src/cc/lib/graph/graph.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cc/lib/graph/graph.cc b/src/cc/lib/graph/graph.cc
index f439db3..bdc11a0 100644
--- a/src/cc/lib/graph/graph.cc
+++ b/src/cc/lib/graph/graph.cc
@@ -125,6 +125,10 @@ void Graph::GetNodeType(std::span<const NodeId> node_ids, std::span<Type> output
                     break;
                 }
             }
+            if (*curr_type == snark::PLACEHOLDER_NODE_TYPE)
+            {
+                *curr_type = default_type;
+            }
         }
         ++curr_type;
     }
-- 
2.43.0


From 3512003e538ae0e4fe97cf2a7f1f7aee47fbc72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:20:32 +0000
Subject: [PATCH 029/118] fix: wait for all replies before reporting a failed
 request

---
 src/cc/lib/distributed/client.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cc/lib/distributed/client.cc b/src/cc/lib/distributed/client.cc
index 8270333..d5df139 100644
--- a/src/cc/lib/distributed/client.cc
+++ b/src/cc/lib/distributed/client.cc
@@ -48,6 +48,11 @@ struct AsyncClientCall
 
 void WaitForFutures(std::vector<std::future<void>> &futures)
 {
+    // Callbacks of every request use buffers of the caller, wait for all of them before reporting a failure.
+    for (auto &f : futures)
+    {
+        f.wait();
+    }
     for (auto &f : futures)
     {
         f.get();
-- 
2.43.0


From 00bd97081e09408b57b0a86e0db9b2b57a0782fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:20:32 +0000
Subject: [PATCH 030/118] fix: report failures while selecting last created
 neighbors

---
 src/cc/lib/py_graph.cc | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index d92d181..9625405 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -857,25 +857,25 @@ int32_t LastNCreatedNeighbor(PyGraph *py_graph, bool return_edge_created_ts, Nod
         return 0;
     }
 
-    // try
-    // {
-    py_graph->graph->client->LastNCreated(
-        return_edge_created_ts, std::span(reinterpret_cast<snark::NodeId *>(in_node_ids), in_node_ids_size),
-        std::span(reinterpret_cast<snark::Type *>(in_edge_types), in_edge_types_size),
-        std::span(reinterpret_cast<snark::Timestamp *>(timestamps), in_node_ids_size), count,
-        std::span(reinterpret_cast<snark::NodeId *>(out_neighbor_ids), out_size),
-        std::span(reinterpret_cast<snark::Type *>(out_types), out_size),
-        std::span(reinterpret_cast<float *>(out_weights), out_size),
-        std::span(reinterpret_cast<Timestamp *>(out_timestamps), out_size), default_node_id, default_weight,
-        default_edge_type, default_timestamp);
+    try
+    {
+        py_graph->graph->client->LastNCreated(
+            return_edge_created_ts, std::span(reinterpret_cast<snark::NodeId *>(in_node_ids), in_node_ids_size),
+            std::span(reinterpret_cast<snark::Type *>(in_edge_types), in_edge_types_size),
+            std::span(reinterpret_cast<snark::Timestamp *>(timestamps), in_node_ids_size), count,
+            std::span(reinterpret_cast<snark::NodeId *>(out_neighbor_ids), out_size),
+            std::span(reinterpret_cast<snark::Type *>(out_types), out_size),
+            std::span(reinterpret_cast<float *>(out_weights), out_size),
+            std::span(reinterpret_cast<Timestamp *>(out_timestamps), out_size), default_node_id, default_weight,
+            default_edge_type, default_timestamp);
 
-    return 0;
-    // }
-    // catch (const std::exception &e)
-    // {
-    //     RAW_LOG_ERROR("Exception while selecting last n created neighbors: %s", e.what());
-    //     return 1;
-    // }
+        return 0;
+    }
+    catch (const std::exception &e)
+    {
+        RAW_LOG_ERROR("Exception while selecting last n created neighbors: %s", e.what());
+        return 1;
+    }
 }
 
 // Expected length of out_node_ids buffer is (walk_length + 1) * in_node_ids_size
-- 
2.43.0


From 63234fc6b40b7726ea5f2956bde83700af57c5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:20:40 +0000
Subject: [PATCH 031/118] fix: report failures in the middle of random walks
 and page rank queries

---
 src/cc/lib/py_graph.cc | 54 +++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index 9625405..43da290 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -935,8 +935,13 @@ int32_t RandomWalk(PyGraph *py_graph, int64_t seed, float p, float q, NodeID def
         weights.resize(0);
         types.resize(0);
         edge_created_ts.resize(0);
-        GetNeighborsInternal(py_graph, false, curr_nodes.data(), curr_nodes.size(), timestamps, in_edge_types,
-                             in_edge_types_size, curr_counts.data(), neighbors, types, weights, edge_created_ts);
+        const auto res =
+            GetNeighborsInternal(py_graph, false, curr_nodes.data(), curr_nodes.size(), timestamps, in_edge_types,
+                                 in_edge_types_size, curr_counts.data(), neighbors, types, weights, edge_created_ts);
+        if (res != 0)
+        {
+            return res;
+        }
         size_t nb_offset = 0;
         for (size_t index = 0; index < in_node_ids_size; ++index)
         {
@@ -1042,8 +1047,8 @@ typedef struct
 } NB_Count_Cache;
 
 // Cache neighbor counts for each node in the input list.
-void lookup_neighbor_counts(PyGraph *py_graph, NB_Count_Cache &cache, const std::vector<NodeID> &neighbors,
-                            Type *in_edge_types, size_t in_edge_types_size, Timestamp *timestamps)
+int32_t lookup_neighbor_counts(PyGraph *py_graph, NB_Count_Cache &cache, const std::vector<NodeID> &neighbors,
+                               Type *in_edge_types, size_t in_edge_types_size, Timestamp *timestamps)
 {
     assert(cache.node_ids.empty());
     assert(cache.counts.empty());
@@ -1080,14 +1085,18 @@ void lookup_neighbor_counts(PyGraph *py_graph, NB_Count_Cache &cache, const std:
 
     if (cache.node_ids.empty())
     {
-        return;
+        return 0;
     }
 
     const size_t request_nodes_size = cache.node_ids.size();
     cache.counts.resize(request_nodes_size);
-    NeighborCount(py_graph, cache.node_ids.data(), request_nodes_size,
-                  timestamps == nullptr ? timestamps : cache.timestamps.data(), in_edge_types, in_edge_types_size,
-                  cache.counts.data());
+    const auto res = NeighborCount(py_graph, cache.node_ids.data(), request_nodes_size,
+                                   timestamps == nullptr ? timestamps : cache.timestamps.data(), in_edge_types,
+                                   in_edge_types_size, cache.counts.data());
+    if (res != 0)
+    {
+        return res;
+    }
     for (size_t i = 0; i < request_nodes_size; ++i)
     {
         const auto timestamp = timestamps == nullptr ? -1 : timestamps[i];
@@ -1097,12 +1106,13 @@ void lookup_neighbor_counts(PyGraph *py_graph, NB_Count_Cache &cache, const std:
     cache.node_ids.clear();
     cache.counts.clear();
     cache.nb_index.clear();
+    return 0;
 }
 
 // Cache neighbor lists for each node in the input list.
-void lookup_neighbor_lists(PyGraph *py_graph, NB_Count_Cache &cache,
-                           absl::flat_hash_set<std::pair<NodeID, Timestamp>> input, Type *in_edge_types,
-                           size_t in_edge_types_size, Timestamp *timestamps)
+int32_t lookup_neighbor_lists(PyGraph *py_graph, NB_Count_Cache &cache,
+                              absl::flat_hash_set<std::pair<NodeID, Timestamp>> input, Type *in_edge_types,
+                              size_t in_edge_types_size, Timestamp *timestamps)
 {
     assert(cache.node_ids.empty());
     for (auto node_ts : input)
@@ -1122,9 +1132,14 @@ void lookup_neighbor_lists(PyGraph *py_graph, NB_Count_Cache &cache,
     if (!cache.node_ids.empty())
     {
         cache.nb_counts.resize(cache.node_ids.size());
-        GetNeighborsInternal(py_graph, false, cache.node_ids.data(), cache.node_ids.size(), mutable_timestamps,
-                             in_edge_types, in_edge_types_size, cache.nb_counts.data(), cache.nb_ids, cache.nb_types,
-                             cache.nb_weights, cache.edge_created_ts);
+        const auto res =
+            GetNeighborsInternal(py_graph, false, cache.node_ids.data(), cache.node_ids.size(), mutable_timestamps,
+                                 in_edge_types, in_edge_types_size, cache.nb_counts.data(), cache.nb_ids,
+                                 cache.nb_types, cache.nb_weights, cache.edge_created_ts);
+        if (res != 0)
+        {
+            return res;
+        }
         assert(cache.edge_created_ts.empty());
 
         auto nb_offset = std::begin(cache.nb_ids);
@@ -1150,11 +1165,13 @@ void lookup_neighbor_lists(PyGraph *py_graph, NB_Count_Cache &cache,
         cache.nb_ids.emplace_back(nt.first);
     }
 
-    lookup_neighbor_counts(py_graph, cache, cache.nb_ids, in_edge_types, in_edge_types_size, mutable_timestamps);
+    const auto res = lookup_neighbor_counts(py_graph, cache, cache.nb_ids, in_edge_types, in_edge_types_size,
+                                            mutable_timestamps);
     cache.timestamps.clear();
     cache.nb_types.clear();
     cache.nb_weights.clear();
     cache.nb_ids.clear();
+    return res;
 }
 
 } // namespace
@@ -1199,7 +1216,12 @@ int32_t PPRSampleNeighbor(PyGraph *py_graph, NodeID *in_node_ids, size_t in_node
                 new_nodes.insert({node_id, timestamps == nullptr ? -1 : timestamps[node_index]});
             }
         }
-        lookup_neighbor_lists(py_graph, nb_cache, std::move(new_nodes), in_edge_types, in_edge_types_size, timestamps);
+        const auto res = lookup_neighbor_lists(py_graph, nb_cache, std::move(new_nodes), in_edge_types,
+                                               in_edge_types_size, timestamps);
+        if (res != 0)
+        {
+            return res;
+        }
         for (size_t node_index = 0; node_index < in_node_ids_size; ++node_index)
         {
             if (q[node_index].empty())
-- 
2.43.0


From f2c3b9422994a8545da8e95206d65331d445eaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:20:58 +0000
Subject: [PATCH 032/118] fix: raise an exception when servers can't be reached
 at connection time

---
 src/cc/lib/py_graph.cc                          | 17 +++++++++++++----
 src/python/deepgnn/graph_engine/snark/client.py |  3 +--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index 43da290..86405e1 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -306,10 +306,19 @@ int32_t CreateRemoteClient(PyGraph *py_graph, const char *output_folder, const c
         channels.emplace_back(grpc::CreateCustomChannel(connection[i], creds, args));
     }
 
-    py_graph->graph->client =
-        std::make_unique<snark::GRPCClient>(std::move(channels), uint32_t(num_threads), uint32_t(num_threads_per_cq));
-    py_graph->graph->client->WriteMetadata(output_folder);
-    return 0;
+    try
+    {
+        py_graph->graph->client = std::make_unique<snark::GRPCClient>(std::move(channels), uint32_t(num_threads),
+                                                                      uint32_t(num_threads_per_cq));
+        py_graph->graph->client->WriteMetadata(output_folder);
+        return 0;
+    }
+    catch (const std::exception &e)
+    {
+        RAW_LOG_ERROR("Exception while connecting to servers: %s", e.what());
+        py_graph->graph.reset();
+        return 1;
+    }
 }
 
 std::vector<snark::FeatureMeta> ExtractFeatureInfo(Feature *features, size_t features_size)
diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index 7dcf64c..7aa9e85 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -1387,6 +1387,7 @@ class DistributedGraph(MemoryGraph):
         self.lib.CreateRemoteClient.errcheck = _ErrCallback(  # type: ignore
             "initialize remote client"
         )
+        super()._describe_clib_functions()
         if num_threads is None:
             if platform.system() == "Linux":
                 num_threads = max(len(os.sched_getaffinity(0)), 1)  # type: ignore
@@ -1435,8 +1436,6 @@ class DistributedGraph(MemoryGraph):
             reraise=True,
         )
 
-        super()._describe_clib_functions()
-
 
 class NodeSampler:
     """Sampler to fetch nodes from a graph."""
-- 
2.43.0


From eee1ed91393c0c812f96eae5bf6cac2a199f0dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:20:58 +0000
Subject: [PATCH 033/118] fix: retry creation of samplers

---
 .../deepgnn/graph_engine/snark/client.py      | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index 7aa9e85..d93ea77 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -1496,10 +1496,14 @@ class NodeSampler:
 
         TypeArray = c_int32 * len(types)
         types_array = TypeArray(*types)
-        sampler_func[kind](
-            byref(self.graph.g_), byref(self.ns_), len(types), types_array
-        )
         self._describe_clib_functions()
+        self.graph._retryer(
+            sampler_func[kind],
+            byref(self.graph.g_),
+            byref(self.ns_),
+            len(types),
+            types_array,
+        )
 
     def _describe_clib_functions(self):
         self.lib.SampleNodes.argtypes = [
@@ -1609,10 +1613,14 @@ class EdgeSampler:
         sampler_func[kind].restype = c_int32
         TypeArray = c_int32 * len(types)
         types_array = TypeArray(*types)
-        sampler_func[kind](
-            byref(self.graph.g_), byref(self.es_), len(types), types_array
-        )
         self._describe_clib_functions()
+        self.graph._retryer(
+            sampler_func[kind],
+            byref(self.graph.g_),
+            byref(self.es_),
+            len(types),
+            types_array,
+        )
 
     def _describe_clib_functions(self):
         self.lib.SampleEdges.argtypes = [
-- 
2.43.0


From da6357d4ed9fe8b3377d8c12cc6c9cedddb65976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:20:58 +0000
Subject: [PATCH 034/118] fix: retry failed page rank queries

---
 src/python/deepgnn/graph_engine/snark/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index d93ea77..85d9948 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -1136,7 +1136,8 @@ class MemoryGraph:
         etypes_arr = TypeArray(*edge_types)
         result_nodes = np.full((len(nodes), count), default_node, dtype=np.int64)
         result_weights = np.full((len(nodes), count), default_weight, dtype=np.float32)
-        self.lib.PPRSampleNeighbor(
+        self._retryer(
+            self.lib.PPRSampleNeighbor,
             self.g_,
             nodes.ctypes.data_as(POINTER(c_int64)),
             c_size_t(nodes.size),
-- 
2.43.0


From 19a5c9a066830ca89ef789cf9d14d7ca131f87d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:23:01 +0000
Subject: [PATCH 035/118] fix: follow the backoff settings of the retry policy

---
 .../deepgnn/graph_engine/snark/client.py      | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index 85d9948..027e6b7 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -50,13 +50,16 @@ def _parse_grpc_options(options: List[Tuple[str, str]]) -> Dict:
                 max_attempts = int(
                     config["methodConfig"][0]["retryPolicy"]["maxAttempts"]
                 )
-                initial_backoff = datetime.strptime(
-                    config["methodConfig"][0]["retryPolicy"]["initialBackoff"], "%Ss"
-                ).second
-                max_backoff = datetime.strptime(
-                    config["methodConfig"][0]["retryPolicy"]["maxBackoff"], "%Ss"
-                ).second
-                backoff_multiplier = int(
+                # Durations are decimal numbers of seconds with a suffix, e.g. 0.1s or 90s.
+                initial_backoff = float(
+                    config["methodConfig"][0]["retryPolicy"]["initialBackoff"].rstrip(
+                        "s"
+                    )
+                )
+                max_backoff = float(
+                    config["methodConfig"][0]["retryPolicy"]["maxBackoff"].rstrip("s")
+                )
+                backoff_multiplier = float(
                     config["methodConfig"][0]["retryPolicy"]["backoffMultiplier"]
                 )
                 return {
@@ -1430,7 +1433,7 @@ class DistributedGraph(MemoryGraph):
             wait=wait_exponential(
                 multiplier=retry_ops["backoff_multiplier"],
                 min=retry_ops["initial_backoff"],
-                max=retry_ops["max_attempts"],
+                max=retry_ops["max_backoff"],
             ),
             before=before_log(get_logger(), logging.DEBUG),
             after=after_log(get_logger(), logging.WARNING),
-- 
2.43.0


From 57a958c83522c91bb48a47721f50447b09d4fc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:24:53 +0000
Subject: [PATCH 036/118] fix: return to the previous node of a walk only along
 existing edges

---
 src/cc/lib/py_graph.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index 86405e1..c79f604 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -954,11 +954,13 @@ int32_t RandomWalk(PyGraph *py_graph, int64_t seed, float p, float q, NodeID def
         size_t nb_offset = 0;
         for (size_t index = 0; index < in_node_ids_size; ++index)
         {
-            // Look up parent transitional probability via map to find edge weight.
-            auto parent = t_nbs[index].find(curr_nodes[index]);
-            if (parent != std::end(t_nbs[index]))
+            // Look up edges back to the parent, a starting node doesn't have one.
+            for (size_t nb_index = 0; curr_step > 0 && nb_index < curr_counts[index]; ++nb_index)
             {
-                transition_node_prob.emplace_back(past_nodes[index], parent->second / p);
+                if (neighbors[nb_offset + nb_index] == past_nodes[index])
+                {
+                    transition_node_prob.emplace_back(past_nodes[index], weights[nb_offset + nb_index] / p);
+                }
             }
 
             for (size_t nb_index = 0; nb_index < curr_counts[index]; ++nb_index, ++nb_offset)
@@ -966,7 +968,7 @@ int32_t RandomWalk(PyGraph *py_graph, int64_t seed, float p, float q, NodeID def
                 const auto node = neighbors[nb_offset];
                 const auto weight = weights[nb_offset];
                 // Skip parent node, because it was added above.
-                if (node == past_nodes[index])
+                if (curr_step > 0 && node == past_nodes[index])
                 {
                     continue;
                 }
-- 
2.43.0


From 0bdec736a662ede08ff3f64c3baf1aac0c38a3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:24:53 +0000
Subject: [PATCH 037/118] fix: keep finished walks at the default node

---
 src/cc/lib/py_graph.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index c79f604..3b308db 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -926,6 +926,9 @@ int32_t RandomWalk(PyGraph *py_graph, int64_t seed, float p, float q, NodeID def
     std::vector<NodeID> past_nodes(in_node_ids, in_node_ids + in_node_ids_size);
     std::vector<uint64_t> curr_counts(in_node_ids_size);
 
+    // Walks without neighbors to continue stay at the default node even if it is present in the graph.
+    std::vector<bool> finished(in_node_ids_size);
+
     // Unnormalized transition probabilities to node x if the parent is t and current node is v:
     //           / 1/p if d_{tx} = 0
     // P[t, x] = |  1  if d_{tx} = 1
@@ -954,6 +957,12 @@ int32_t RandomWalk(PyGraph *py_graph, int64_t seed, float p, float q, NodeID def
         size_t nb_offset = 0;
         for (size_t index = 0; index < in_node_ids_size; ++index)
         {
+            if (finished[index])
+            {
+                nb_offset += curr_counts[index];
+                continue;
+            }
+
             // Look up edges back to the parent, a starting node doesn't have one.
             for (size_t nb_index = 0; curr_step > 0 && nb_index < curr_counts[index]; ++nb_index)
             {
@@ -987,6 +996,7 @@ int32_t RandomWalk(PyGraph *py_graph, int64_t seed, float p, float q, NodeID def
 
             if (transition_node_prob.empty())
             {
+                finished[index] = true;
                 past_nodes[index] = curr_nodes[index];
                 curr_nodes[index] = default_node_id;
                 curr_out_nodes[index * (walk_length + 1) + curr_step + 1] = default_node_id;
-- 
2.43.0


From 8fae6cad9f5b03b54c5066f343d25fd162af38a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:27:09 +0000
Subject: [PATCH 038/118] fix: avoid integer overflow while hashing sampled
 edges

---
 src/cc/lib/graph/sampler.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/graph/sampler.cc b/src/cc/lib/graph/sampler.cc
index 6fb1904..04060a4 100644
--- a/src/cc/lib/graph/sampler.cc
+++ b/src/cc/lib/graph/sampler.cc
@@ -478,9 +478,9 @@ UniformEdgeSamplerPartition<WithReplacement>::UniformEdgeSamplerPartition(Metada
     }
     struct pair_hash
     {
-        size_t operator()(const std::pair<int, int> &p) const
+        size_t operator()(const std::pair<NodeId, NodeId> &p) const
         {
-            return 48271 * p.first + p.second;
+            return 48271 * size_t(p.first) + size_t(p.second);
         }
     };
     absl::flat_hash_set<std::pair<NodeId, NodeId>, pair_hash> edge_set;
-- 
2.43.0


From 2133b58fc1bb594e4a7b86d124637b21b39216e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:28:58 +0000
Subject: [PATCH 039/118] fix: do not sample more elements than requested
 without replacement

---
 src/cc/lib/graph/sampler.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/graph/sampler.cc b/src/cc/lib/graph/sampler.cc
index 04060a4..da1f5a8 100644
--- a/src/cc/lib/graph/sampler.cc
+++ b/src/cc/lib/graph/sampler.cc
@@ -101,7 +101,7 @@ void SamplerImpl<Partition, element>::Sample(int64_t seed, std::span<Type> out_t
             // Make sure we don't sample too little.
             if (left - type_count > m_type_min[i])
             {
-                type_count = m_type_max[i];
+                type_count = std::min(m_type_max[i], left - m_type_min[i]);
             }
         }
 
@@ -121,7 +121,7 @@ void SamplerImpl<Partition, element>::Sample(int64_t seed, std::span<Type> out_t
                 // Make sure we don't sample too little and handle larger than sample size output buffer.
                 if (left_items - item_count > m_partition_min[i][p])
                 {
-                    item_count = m_partition_max[i][p];
+                    item_count = std::min(m_partition_max[i][p], left_items - m_partition_min[i][p]);
                 }
             }
 
-- 
2.43.0


From 90b79dfa0420b63de66e17a97d002167e385660f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:31:40 +0000
Subject: [PATCH 040/118] fix: sample no more elements than a server has
 without replacement

---
 src/cc/lib/distributed/client.cc | 39 ++++++++++++++++++++++++++++++--
 src/cc/lib/distributed/client.h  |  3 +++
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/distributed/client.cc b/src/cc/lib/distributed/client.cc
index d5df139..8986d10 100644
--- a/src/cc/lib/distributed/client.cc
+++ b/src/cc/lib/distributed/client.cc
@@ -921,15 +921,46 @@ uint64_t GRPCClient::CreateSampler(bool is_edge, CreateSamplerRequest_Category c
 
     WaitForFutures(futures);
 
+    std::vector<size_t> sub_sampler_limits;
+    if (category == CreateSamplerRequest_Category::CreateSamplerRequest_Category_UNIFORM_WITHOUT_REPLACEMENT)
+    {
+        sub_sampler_limits.assign(std::begin(sub_sampler_weights), std::end(sub_sampler_weights));
+    }
+
     // Adjust weights for future sampling.
     conditional_probabilities(sub_sampler_weights);
     std::lock_guard l(m_sampler_mutex);
     uint64_t sampler_id = m_sampler_ids.size();
     m_sampler_ids.emplace_back(std::move(sub_sampler_ids));
     m_sampler_weights.emplace_back(std::move(sub_sampler_weights));
+    m_sampler_limits.emplace_back(std::move(sub_sampler_limits));
     return sampler_id;
 }
 
+namespace
+{
+
+// Number of elements to sample from a shard, can't be more than it has when sampling without replacement.
+size_t ShardSampleSize(size_t left, float weight, std::span<const size_t> limits, size_t shard,
+                       snark::Xoroshiro128PlusGenerator &gen)
+{
+    size_t count = boost::random::binomial_distribution<int32_t>(left, weight)(gen);
+    if (limits.empty())
+    {
+        return count;
+    }
+
+    count = std::min(count, limits[shard]);
+    const size_t rest = std::accumulate(std::begin(limits) + shard + 1, std::end(limits), size_t(0));
+    if (left - count > rest)
+    {
+        count = std::min(limits[shard], left - rest);
+    }
+    return count;
+}
+
+} // namespace
+
 void GRPCClient::SampleNodes(int64_t seed, uint64_t sampler_id, std::span<NodeId> out_node_ids,
                              std::span<Type> out_types)
 {
@@ -941,11 +972,13 @@ void GRPCClient::SampleNodes(int64_t seed, uint64_t sampler_id, std::span<NodeId
 
     std::span<const float> weights;
     std::span<const uint64_t> sampler_ids;
+    std::span<const size_t> limits;
     {
         std::lock_guard l(m_sampler_mutex);
         weights = std::span(m_sampler_weights[sampler_id].data(), m_sampler_stubs.size());
 
         sampler_ids = std::span(m_sampler_ids[sampler_id].data(), m_sampler_stubs.size());
+        limits = std::span(m_sampler_limits[sampler_id]);
     }
 
     snark::Xoroshiro128PlusGenerator gen(seed);
@@ -961,7 +994,7 @@ void GRPCClient::SampleNodes(int64_t seed, uint64_t sampler_id, std::span<NodeId
         }
 
         auto *call = new AsyncClientCall();
-        const size_t element_count = boost::random::binomial_distribution<int32_t>(left, weights[shard])(gen);
+        const size_t element_count = ShardSampleSize(left, weights[shard], limits, shard, gen);
         left -= element_count;
 
         request.set_seed(subseed(gen));
@@ -996,10 +1029,12 @@ void GRPCClient::SampleEdges(int64_t seed, uint64_t sampler_id, std::span<NodeId
 
     std::span<const float> weights;
     std::span<const uint64_t> sampler_ids;
+    std::span<const size_t> limits;
     {
         std::lock_guard l(m_sampler_mutex);
         weights = std::span(m_sampler_weights[sampler_id].data(), m_sampler_stubs.size());
         sampler_ids = std::span(m_sampler_ids[sampler_id].data(), m_sampler_stubs.size());
+        limits = std::span(m_sampler_limits[sampler_id]);
     }
 
     snark::Xoroshiro128PlusGenerator gen(seed);
@@ -1010,7 +1045,7 @@ void GRPCClient::SampleEdges(int64_t seed, uint64_t sampler_id, std::span<NodeId
     for (size_t shard = 0; shard < m_sampler_stubs.size() && left > 0; ++shard)
     {
         auto *call = new AsyncClientCall();
-        const size_t shard_count = boost::random::binomial_distribution<int32_t>(left, weights[shard])(gen);
+        const size_t shard_count = ShardSampleSize(left, weights[shard], limits, shard, gen);
         left -= shard_count;
 
         request.set_seed(subseed(gen));
diff --git a/src/cc/lib/distributed/client.h b/src/cc/lib/distributed/client.h
index 3000450..e002638 100644
--- a/src/cc/lib/distributed/client.h
+++ b/src/cc/lib/distributed/client.h
@@ -97,6 +97,9 @@ class GRPCClient final
     std::vector<std::vector<uint64_t>> m_sampler_ids;
     std::vector<std::vector<float>> m_sampler_weights;
 
+    // Number of elements every shard has, empty for samplers with replacement.
+    std::vector<std::vector<size_t>> m_sampler_limits;
+
     std::function<void()> AsyncCompleteRpc(size_t i);
     grpc::CompletionQueue *NextCompletionQueue();
 
-- 
2.43.0


From 7b93821db4e14e2e2a7a2e3986e514eb85ada08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:31:40 +0000
Subject: [PATCH 041/118] fix: read weights of sampled edges from the folder of
 their partition

---
 src/cc/lib/graph/sampler.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/graph/sampler.cc b/src/cc/lib/graph/sampler.cc
index da1f5a8..f590e67 100644
--- a/src/cc/lib/graph/sampler.cc
+++ b/src/cc/lib/graph/sampler.cc
@@ -363,10 +363,10 @@ WeightedEdgeSamplerPartition::WeightedEdgeSamplerPartition(Metadata meta, Type t
         logger = std::make_shared<snark::GLogger>();
     }
     std::shared_ptr<BaseStorage<uint8_t>> edge_weights;
-    if (!is_hdfs_path(meta.m_path))
+    if (!is_hdfs_path(partition_path))
     {
         edge_weights =
-            std::make_shared<DiskStorage<uint8_t>>(meta.m_path, partition_index, tp, open_edge_alias, logger);
+            std::make_shared<DiskStorage<uint8_t>>(partition_path, partition_index, tp, open_edge_alias, logger);
     }
     else
     {
-- 
2.43.0


From a95da799913d66e5d48ff27f035314be84258503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:31:54 +0000
Subject: [PATCH 042/118] fix: allow samplers on servers without data

---
 src/cc/lib/graph/sampler.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/graph/sampler.cc b/src/cc/lib/graph/sampler.cc
index f590e67..03afac7 100644
--- a/src/cc/lib/graph/sampler.cc
+++ b/src/cc/lib/graph/sampler.cc
@@ -54,7 +54,10 @@ SamplerImpl<Partition, element>::SamplerImpl(std::vector<snark::Type> types,
         // Aggregate max number of elements can be sampled from the remaining partitions.
         // E.g. if there are 3 partitions with 5, 6 and 7 elements, then
         // m_partition_max should be [13, 7, 0]
-        std::partial_sum(last, last + m_partition_max.back().size() - 1, m_partition_min.back().rbegin() + 1);
+        if (!m_partition_max.back().empty())
+        {
+            std::partial_sum(last, last + m_partition_max.back().size() - 1, m_partition_min.back().rbegin() + 1);
+        }
 
         m_type_weights.emplace_back(total_weight);
         m_type_max.emplace_back(total_weight);
@@ -66,7 +69,10 @@ SamplerImpl<Partition, element>::SamplerImpl(std::vector<snark::Type> types,
     auto last = m_type_max.rbegin();
 
     // Similar calculation as for partiotion, but for types.
-    std::partial_sum(last, last + m_type_max.size() - 1, m_type_min.rbegin() + 1);
+    if (!m_type_max.empty())
+    {
+        std::partial_sum(last, last + m_type_max.size() - 1, m_type_min.rbegin() + 1);
+    }
 }
 
 // First find out how many element of a specific type to sample with
-- 
2.43.0


From 009ec9b2ee2d70f0453dd4207fa693ee711c6a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:31:54 +0000
Subject: [PATCH 043/118] fix: avoid undefined probabilities of empty
 partitions in samplers

---
 src/cc/lib/graph/sampler.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/sampler.cc b/src/cc/lib/graph/sampler.cc
index 03afac7..8ef5344 100644
--- a/src/cc/lib/graph/sampler.cc
+++ b/src/cc/lib/graph/sampler.cc
@@ -652,7 +652,10 @@ void conditional_probabilities(std::vector<float> &probs)
     for (auto p = std::rbegin(probs); p != std::rend(probs); p++)
     {
         sum_weight += *p;
-        *p /= sum_weight;
+        if (sum_weight > 0)
+        {
+            *p /= sum_weight;
+        }
     }
 }
 
-- 
2.43.0


From bbc52ff0fd0f216fd685de0bb70b07737e04e637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:32:31 +0000
Subject: [PATCH 044/118] fix: keep edge samplers of different strategies apart

---
 src/python/deepgnn/graph_engine/snark/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/local.py b/src/python/deepgnn/graph_engine/snark/local.py
index 58dea18..36db38f 100644
--- a/src/python/deepgnn/graph_engine/snark/local.py
+++ b/src/python/deepgnn/graph_engine/snark/local.py
@@ -84,7 +84,7 @@ class Client(Graph):
         """Return an array of edges with a specified type."""
         assert size > 0
 
-        key = str(edge_types)
+        key = _sampling_map[strategy] + str(edge_types)
         if key not in self.edge_samplers:
             self.edge_samplers[key] = client.EdgeSampler(
                 self.graph, self.__check_types(edge_types), _sampling_map[strategy]
-- 
2.43.0


From 544230640b66f6687db1335ad787167cc9f38666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:51:59 +0000
Subject: [PATCH 045/118] fix: drop incomplete batches of edges with features

---
 src/python/deepgnn/graph_engine/samplers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index 96c5dd0..cdc9184 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -429,6 +429,7 @@ class FileEdgeSampler(BaseSampler):
                 ),
                 np.zeros(shape=(self.feature_dim), dtype=np.float32),
             ],
+            drop_last=self.drop_last,
             data_parallel_num=self.data_parallel_num,
             data_parallel_index=self.data_parallel_index,
         )
-- 
2.43.0


From dc2f89f3ba52be53d933d961bbda72634c8bb058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:51:59 +0000
Subject: [PATCH 046/118] fix: keep the last node of a sharded range

---
 src/python/deepgnn/graph_engine/samplers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index cdc9184..bd98be2 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -544,7 +544,9 @@ class _RangeNodeIterator(_GEIterator):
         last = self.first + self.batch_size * self.data_parallel_num
         res = np.arange(self.first, last, step=self.data_parallel_num)
         if last > self.last:
-            res[(self.last - self.first) // self.data_parallel_num :] = self.backfill_id
+            # ids left for this shard, rounded up.
+            left = -(-(self.last - self.first) // self.data_parallel_num)
+            res[left:] = self.backfill_id
 
         self.first += self.num_workers * self.batch_size * self.data_parallel_num
         return res
-- 
2.43.0


From f2e46da1d37b691a8521440121e324aaede8bfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:51:59 +0000
Subject: [PATCH 047/118] fix: give workers of a sharded range disjoint nodes

---
 src/python/deepgnn/graph_engine/samplers.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index bd98be2..1995702 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -575,13 +575,23 @@ class RangeNodeSampler(BaseSampler):
             data_parallel_index=data_parallel_index,
             data_parallel_num=data_parallel_num,
         )
-        self.start_id = first + worker_index * batch_size
+        self.first_id = first
+        self.worker_index = worker_index
         self.last = last
-        assert self.start_id < self.last
         self.batch_size = batch_size
+        assert self.start_id < self.last
         self.num_workers = num_workers
         self.backfill_id = backfill_id
 
+    @property
+    def start_id(self) -> int:
+        """First node id of the worker."""
+        # shards of a worker take data_parallel_num batches in a row.
+        return (
+            self.first_id
+            + self.worker_index * self.batch_size * self.data_parallel_num
+        )
+
     def __iter__(self) -> _RangeNodeIterator:
         """Return a new range iterator."""
         return _RangeNodeIterator(
-- 
2.43.0


From f72325e286237a6465d805fb4d18eb429fadd1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:51:59 +0000
Subject: [PATCH 048/118] fix: start every iteration over a csv file from the
 beginning

---
 src/python/deepgnn/graph_engine/samplers.py | 22 +++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index 1995702..31004b0 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -721,14 +721,12 @@ class CSVNodeSampler(BaseSampler):
 
         self.node_list: np.ndarray = np.array(node_list)
         self.cur_batch = 0
-        self.count = (
-            (len(node_list) + self.batch_size - 1)
-            // (self.batch_size * self.data_parallel_num)
-            * epoch
-        )
+        self.cur_epoch = 0
 
     def __iter__(self):
-        """No-op."""
+        """Start iteration from beginning."""
+        self.cur_batch = 0
+        self.cur_epoch = 0
         return self
 
     def __next__(self) -> np.ndarray:
@@ -738,7 +736,13 @@ class CSVNodeSampler(BaseSampler):
             + self.data_parallel_index
         )
         if start_pos >= len(self.node_list):
-            raise StopIteration
+            self.cur_epoch += 1
+            start_pos = self.data_parallel_index
+            self.cur_batch = 0
+            if self.cur_epoch >= self.epochs or start_pos >= len(self.node_list):
+                self.cur_epoch = self.epochs
+                self.cur_batch = len(self.node_list)
+                raise StopIteration
         self.cur_batch += 1
         end_pos = (
             self.cur_batch * self.batch_size * self.data_parallel_num
@@ -750,7 +754,9 @@ class CSVNodeSampler(BaseSampler):
 
     def __len__(self) -> int:
         """Total number of minibatches in this sampler."""
-        return self.count
+        return self.epochs * math.ceil(
+            len(self.node_list) / (self.batch_size * self.data_parallel_num)
+        )
 
 
 class FileTupleSampler(BaseSampler):
-- 
2.43.0


From 4c36be7073d6f5befe4ac452d1e338bc14edb19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:51:59 +0000
Subject: [PATCH 049/118] fix: do not make a batch of an empty text file

---
 src/python/deepgnn/graph_engine/samplers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index 31004b0..ad04ede 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -936,6 +936,9 @@ class TextFileSampler(BaseSampler):
                 self.end = True
                 break
 
+        if len(self.buf) == 0:
+            raise StopIteration
+
         if self.shuffle and new_added:
             random.shuffle(self.buf)
 
-- 
2.43.0


From 91b8de70b43c69ccf99f217f693daa312d1f6310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:56:32 +0000
Subject: [PATCH 050/118] fix: end prefetching after errors and empty samplers

---
 src/python/deepgnn/graph_engine/prefetch.py | 28 +++++++++++----------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/prefetch.py b/src/python/deepgnn/graph_engine/prefetch.py
index 6cd7040..e891e49 100644
--- a/src/python/deepgnn/graph_engine/prefetch.py
+++ b/src/python/deepgnn/graph_engine/prefetch.py
@@ -154,6 +154,8 @@ class Generator:
         """Initialize generator."""
         self.count = 0
         self.index = 0
+        self.counted = False
+        self.done = False
         self.outputs: Queue[Tuple[np.ndarray]] = Queue(prefetch_size)
         self.max_workers = max_workers
         self.pool = ThreadPoolExecutor(max_workers=max_workers)
@@ -190,25 +192,25 @@ class Generator:
 
     def __next__(self):
         """Parse the queue and get the "count" queue item. Use it to decide terminate the iteration or not."""
-        if self.count > 0 and self.index == self.count + 1:
-            raise StopIteration
+        while not self.done:
+            if self.counted and self.index == self.count + 1:
+                self.done = True
+                break
+
+            item = self.outputs.get()
+            self.outputs.task_done()
+            self.index += 1
+            if type(item) is not FetchDone:
+                return item
 
-        item = self.outputs.get()
-        self.outputs.task_done()
-        self.index += 1
-        if type(item) is FetchDone:
             if item.exception_info is not None:
+                self.done = True
                 get_logger().error(item.exception_info)
                 raise Exception(item.exception_info)
             self.count = item.count
-            if self.index == self.count + 1:
-                raise StopIteration
-
-            item = self.outputs.get()
-            self.outputs.task_done()
-            self.index += 1
+            self.counted = True
 
-        return item
+        raise StopIteration
 
     def _drain_outputs(self):
         while self.outputs.qsize() > 0:
-- 
2.43.0


From 16b4012a001ef15a6a378435f1499f9506a94d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:56:32 +0000
Subject: [PATCH 051/118] fix: stop prefetching threads when the interpreter
 exits

---
 src/python/deepgnn/graph_engine/prefetch.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/prefetch.py b/src/python/deepgnn/graph_engine/prefetch.py
index e891e49..dfa9116 100644
--- a/src/python/deepgnn/graph_engine/prefetch.py
+++ b/src/python/deepgnn/graph_engine/prefetch.py
@@ -7,6 +7,7 @@ import numpy as np
 import threading
 import atexit
 import concurrent.futures.thread
+import weakref
 
 from typing import Callable, Tuple, Optional
 from queue import Queue
@@ -136,6 +137,21 @@ def _produce(
     )
 
 
+# Generators with threads still running.
+_generators: weakref.WeakSet = weakref.WeakSet()
+
+
+def _join_generators():
+    for generator in list(_generators):
+        generator.join()
+
+
+# Starting from python 3.9 the interpreter joins threads of the pools before
+# calling atexit handlers, so unregistering a handler is not enough.
+if hasattr(threading, "_register_atexit"):
+    threading._register_atexit(_join_generators)  # type: ignore
+
+
 # TODO(alsamylk): rebalance load between workers with a global step count
 # TODO(alsamylk): rebalance load inside a worker: optimize queues and queries.
 class Generator:
@@ -181,6 +197,7 @@ class Generator:
                 self.collate_fn,
             )
             self.workers.append(f)
+        _generators.add(self)
 
     def __iter__(self):
         """No-op."""
@@ -238,3 +255,4 @@ class Generator:
 
             self.outputs.join()
             self.pool.shutdown(wait=True)
+            _generators.discard(self)
-- 
2.43.0


From dfa16360fbdf1b3b4cfb81149224ff9bf1038952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:17:21 +0000
Subject: [PATCH 052/118] fix: allow repeated reset of synchronized servers and
 clients

---
 .../deepgnn/graph_engine/backends/snark/synchronized.py     | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/synchronized.py b/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
index c2e5192..967b074 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
@@ -42,7 +42,11 @@ def _check_lock_file(folder: str, index: int, extension: str):
 
 def _delete_lock_file(folder: str, index: int, extension: str):
     path = pathlib.Path(folder, f"snark_{index}.{extension}")
-    os.remove(path)
+    try:
+        os.remove(path)
+    except FileNotFoundError:
+        # Already deleted by an earlier reset or never created after a failure.
+        pass
 
 
 class SupportsReset:
-- 
2.43.0


From 451f9d30191f303e9a290ecb4939b53e87691fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:17:21 +0000
Subject: [PATCH 053/118] fix: do not wait for clients forever on exit

---
 .../backends/snark/synchronized.py            | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/synchronized.py b/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
index 967b074..61e5350 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
@@ -146,10 +146,19 @@ class SynchronizedClient:
 
 
 class _ServerProcess(mp.Process):
-    def __init__(self, sync_path: str, index: int, klass: Callable, *args, **kwargs):
+    def __init__(
+        self,
+        sync_path: str,
+        index: int,
+        timeout: Optional[float],
+        klass: Callable,
+        *args,
+        **kwargs,
+    ):
         super(_ServerProcess, self).__init__()
         self.id = index
         self.sync_path = sync_path
+        self.timeout = timeout
         self._ktr = lambda: klass(*args, **kwargs)
         self._server: Optional[SupportsReset] = None
         self._stop_event = mp.Event()
@@ -193,7 +202,9 @@ class _ServerProcess(mp.Process):
 
     def join(self, timeout: Optional[float] = None):
         """Stop the GE server."""
-        self._wait_for_clients(timeout)
+        # The interpreter joins every process on exit without a timeout.
+        if not self._stop_event.is_set():
+            self._wait_for_clients(self.timeout if timeout is None else timeout)
         self._stop_event.set()
         if self._server is not None:
             self._server.reset()
@@ -217,7 +228,9 @@ class SynchronizedServer:
         self.id = index
         self.timeout = timeout
         self.original_pid = os.getpid()
-        self._server_process = _ServerProcess(sync_path, index, klass, *args, **kwargs)
+        self._server_process = _ServerProcess(
+            sync_path, index, timeout, klass, *args, **kwargs
+        )
         self._server_process.start()
 
     def reset(self):
-- 
2.43.0


From 4c7e7b4b90798155fcf7d6fe6a040d6782b14739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:17:21 +0000
Subject: [PATCH 054/118] fix: release a synchronized server when it stops

---
 src/python/deepgnn/graph_engine/backends/snark/synchronized.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/synchronized.py b/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
index 61e5350..b63dd1c 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
@@ -199,6 +199,7 @@ class _ServerProcess(mp.Process):
         _create_lock_file(self.sync_path, self.id, "server")
         self._stop_event.wait()
         get_logger().info(f"Shutting down server #{self.id}")
+        self._server.reset()
 
     def join(self, timeout: Optional[float] = None):
         """Stop the GE server."""
-- 
2.43.0


From e9d40b2f984da4bf35cf591fb1254e567993a02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:18:11 +0000
Subject: [PATCH 055/118] fix: do not announce a server stopped during its
 start

---
 .../graph_engine/backends/snark/synchronized.py      | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/synchronized.py b/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
index b63dd1c..6fbdb73 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
@@ -159,6 +159,7 @@ class _ServerProcess(mp.Process):
         self.id = index
         self.sync_path = sync_path
         self.timeout = timeout
+        self.original_pid = os.getpid()
         self._ktr = lambda: klass(*args, **kwargs)
         self._server: Optional[SupportsReset] = None
         self._stop_event = mp.Event()
@@ -196,7 +197,9 @@ class _ServerProcess(mp.Process):
     def run(self):
         """Start a GE server."""
         self._server = self._ktr()
-        _create_lock_file(self.sync_path, self.id, "server")
+        # Do not announce a server that was stopped during its initialization.
+        if not self._stop_event.is_set():
+            _create_lock_file(self.sync_path, self.id, "server")
         self._stop_event.wait()
         get_logger().info(f"Shutting down server #{self.id}")
         self._server.reset()
@@ -204,11 +207,16 @@ class _ServerProcess(mp.Process):
     def join(self, timeout: Optional[float] = None):
         """Stop the GE server."""
         # The interpreter joins every process on exit without a timeout.
+        if timeout is None:
+            timeout = self.timeout
         if not self._stop_event.is_set():
-            self._wait_for_clients(self.timeout if timeout is None else timeout)
+            self._wait_for_clients(timeout)
         self._stop_event.set()
         if self._server is not None:
             self._server.reset()
+        # Let the process finish before its sync file is deleted.
+        if os.getpid() == self.original_pid:
+            super(_ServerProcess, self).join(timeout)
 
 
 class SynchronizedServer:
-- 
2.43.0


From c62e95937ac09796633bd887554a7f15ea0e41bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:31:02 +0000
Subject: [PATCH 056/118] fix: read partition count from metadata to start
 servers

---
 src/python/deepgnn/graph_engine/backends/snark/client.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index 4791eea..dd4d5b9 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -183,9 +183,8 @@ class SnarkDistributedBackend(GraphEngineBackend):
             # TODO(alsamylk): provide a better metadata reader in snark
             with open(os.path.join(options.data_dir, "meta.json"), "r") as meta:
                 # Use a simple heuristic: number of original partitions, but cap it at 4
-                # to avoid extreme cases. Partition count is written on 7th line.
-                lines = meta.readlines()
-                options.num_ge = min(int(lines[7]), 4)
+                # to avoid extreme cases.
+                options.num_ge = min(len(json.load(meta)["partitions"]), 4)
 
         # Use explicitly set index if it was provided
         if options.server_idx is not None:
-- 
2.43.0


From fd7938db6b64f0def7ad228739556d1aa4801f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:31:02 +0000
Subject: [PATCH 057/118] fix: keep order of worker hosts

---
 src/python/deepgnn/graph_engine/backends/snark/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index dd4d5b9..5a0c53d 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -289,9 +289,9 @@ class SnarkDistributedBackend(GraphEngineBackend):
 
     def _extract_server_index(self, workers: List[str], index: int) -> Optional[int]:
         curr_worker = workers[index]
-        workers.sort()
         seen_hosts = set()
-        for worker in workers:
+        # The list belongs to a caller, keep the order of its items.
+        for worker in sorted(workers):
             host = worker.rsplit(":", 1)[0]
             if curr_worker != worker:
                 seen_hosts.add(host)
-- 
2.43.0


From 7ac761e6b8f1a350296efa74af06d161519ea210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:31:02 +0000
Subject: [PATCH 058/118] fix: order detected servers by their index

---
 src/python/deepgnn/graph_engine/backends/snark/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index 5a0c53d..1d7b657 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -396,7 +396,7 @@ class _AddressFinder:
 # _AddressReader must be wrapped by SynchronizedClient to wait all servers.
 class _AddressReader:
     def __init__(self, path: str):
-        self._servers: List[str] = []
+        servers: List[Tuple[int, str]] = []
         for file_name in glob.glob(os.path.join(path, "*.servername")):
             with open(file_name, "r", newline=os.linesep) as f:
                 # First line is the address and the second - server index.
@@ -404,7 +404,9 @@ class _AddressReader:
                 assert len(raw) == 2
                 server_idx = int(raw[1])
                 if server_idx >= 0:
-                    self._servers.append(raw[0].rstrip(os.linesep))
+                    servers.append((server_idx, raw[0].rstrip(os.linesep)))
+        # Every worker has to use the same list with addresses at their indices.
+        self._servers: List[str] = [address for _, address in sorted(servers)]
 
     def servers(self) -> List[str]:
         return self._servers
-- 
2.43.0


From d79464084057efaa262595a3af76525e185a9a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:35:07 +0000
Subject: [PATCH 059/118] fix: register client of a worker before its server
 starts

---
 .../graph_engine/backends/snark/client.py     | 36 ++++++++++---------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index 1d7b657..c24040a 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -109,6 +109,18 @@ class SnarkDistributedBackend(GraphEngineBackend):
             )
 
         os.makedirs(sync_dir, exist_ok=True)
+        # Register a client first: servers of other workers may stop as soon as
+        # they find no clients and this server has already started.
+        assert client_rank is not None, "Client rank should be always initialized"
+        self._client = SynchronizedClient(  # type: ignore
+            sync_dir,
+            client_rank,
+            len(options.servers),
+            options.ge_start_timeout,
+            DistributedClient,
+            options.servers,
+            options.ssl_cert,
+        )
         if server_index >= 0:
             self._server = SynchronizedServer(
                 sync_dir,
@@ -124,16 +136,6 @@ class SnarkDistributedBackend(GraphEngineBackend):
                 config_path=options.config_path,
                 stream=options.stream,
             )
-        assert client_rank is not None, "Client rank should be always initialized"
-        self._client = SynchronizedClient(  # type: ignore
-            sync_dir,
-            client_rank,
-            len(options.servers),
-            options.ge_start_timeout,
-            DistributedClient,
-            options.servers,
-            options.ssl_cert,
-        )
 
     def _check_servers_option(
         self,
@@ -148,22 +150,22 @@ class SnarkDistributedBackend(GraphEngineBackend):
         address_folder = os.path.join(options.model_dir, "sync", "addresses")
         os.makedirs(sync_folder, exist_ok=True)
         os.makedirs(address_folder, exist_ok=True)
-        server = SynchronizedServer(
+        client = SynchronizedClient(
             sync_folder,
             client_rank,
+            world_size,
             options.ge_start_timeout,
-            _AddressFinder,
+            _AddressReader,
             address_folder,
-            client_rank,
-            server_idx,
         )
-        client = SynchronizedClient(
+        server = SynchronizedServer(
             sync_folder,
             client_rank,
-            world_size,
             options.ge_start_timeout,
-            _AddressReader,
+            _AddressFinder,
             address_folder,
+            client_rank,
+            server_idx,
         )
         options.servers = client.client.servers()
         client.reset()
-- 
2.43.0


From d14b6155fcbc508a06a70415c77cbd88b6994ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:40:32 +0000
Subject: [PATCH 060/118] fix: use right window size to generate skip-grams

---
 src/python/deepgnn/graph_engine/graph_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/graph_ops.py b/src/python/deepgnn/graph_engine/graph_ops.py
index 231f5c7..aad957c 100644
--- a/src/python/deepgnn/graph_engine/graph_ops.py
+++ b/src/python/deepgnn/graph_engine/graph_ops.py
@@ -82,7 +82,7 @@ def gen_skipgrams(
         # each path
         for j in range(0, path_len):
             left_start = max(0, j - left_win_size)
-            right_end = min(path_len - 1, j + left_win_size)
+            right_end = min(path_len - 1, j + right_win_size)
             for k in range(left_start, right_end + 1):
                 if k == j:
                     continue
-- 
2.43.0


From 6b389e369101f6b4d6e86ffe777ca8a5c7830c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:40:32 +0000
Subject: [PATCH 061/118] fix: count self loops of a subgraph once

---
 src/python/deepgnn/graph_engine/graph_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/graph_ops.py b/src/python/deepgnn/graph_engine/graph_ops.py
index aad957c..950b34c 100644
--- a/src/python/deepgnn/graph_engine/graph_ops.py
+++ b/src/python/deepgnn/graph_engine/graph_ops.py
@@ -174,6 +174,6 @@ def sub_graph(
 
         # add self loop
         if self_loop:
-            adj += np.eye(n)
+            np.fill_diagonal(adj, 1)
 
         return unique_nodes, adj, src_nodes_idx
-- 
2.43.0


From 4cbacd51eecb34af7ad075517cf38d9467f409b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:48:17 +0000
Subject: [PATCH 062/118] fix: download edge times of remote graphs

---
 src/python/deepgnn/graph_engine/snark/_downloader.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/snark/_downloader.py b/src/python/deepgnn/graph_engine/snark/_downloader.py
index 6b84c13..4ba6a0a 100644
--- a/src/python/deepgnn/graph_engine/snark/_downloader.py
+++ b/src/python/deepgnn/graph_engine/snark/_downloader.py
@@ -83,6 +83,13 @@ def download_graph_data(path: str, partitions: List[Tuple[str, int]]) -> GraphPa
                 )
             )
 
+        if graph_meta.watermark >= 0:
+            lpath.append(
+                mt._get_element_timestamps_path(
+                    mt._Element.EDGE, partition_path, partition_index, -1, fs.sep
+                )
+            )
+
         # Use pattern matching to skip downloading alias tables if they were not created
         lpath.append(
             mt._get_element_alias_path(
-- 
2.43.0


From b53d45776cede460837f960d715e443c8b763fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:48:17 +0000
Subject: [PATCH 063/118] fix: download every partition from its own file
 system

---
 src/python/deepgnn/graph_engine/snark/_downloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/_downloader.py b/src/python/deepgnn/graph_engine/snark/_downloader.py
index 4ba6a0a..08cf5ae 100644
--- a/src/python/deepgnn/graph_engine/snark/_downloader.py
+++ b/src/python/deepgnn/graph_engine/snark/_downloader.py
@@ -39,13 +39,13 @@ def download_graph_data(path: str, partitions: List[Tuple[str, int]]) -> GraphPa
     data_path = tempfile.TemporaryDirectory(suffix="_snark")
     fs.get(mt._get_meta_path(path, fs.sep), mt._get_meta_path(data_path.name))
     graph_meta = mt.Meta(data_path.name)
-    lpath = []
     for i in range(len(partitions)):
         partition_path, partition_index = partitions[i]
         fs, _ = get_fs(partition_path)
         if isinstance(fs, LocalFileSystem):
             continue
 
+        lpath = []
         lpath.append(mt._get_node_map_path(partition_path, partition_index, -1, fs.sep))
         lpath.append(
             mt._get_neighbors_index_path(partition_path, partition_index, -1, fs.sep)
@@ -104,6 +104,6 @@ def download_graph_data(path: str, partitions: List[Tuple[str, int]]) -> GraphPa
         )
 
         partitions[i] = (data_path.name, partition_index)
+        fs.get(lpath, data_path.name)
 
-    fs.get(lpath, data_path.name)
     return GraphPath(data_path)
-- 
2.43.0


From 3fd8a1dfc7d55997d66403e1de6fc917b3883411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:48:17 +0000
Subject: [PATCH 064/118] fix: download remote partitions of a local graph

---
 src/python/deepgnn/graph_engine/snark/_downloader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/_downloader.py b/src/python/deepgnn/graph_engine/snark/_downloader.py
index 08cf5ae..a0da794 100644
--- a/src/python/deepgnn/graph_engine/snark/_downloader.py
+++ b/src/python/deepgnn/graph_engine/snark/_downloader.py
@@ -32,9 +32,11 @@ class GraphPath:
 
 
 def download_graph_data(path: str, partitions: List[Tuple[str, int]]) -> GraphPath:
-    """Download graph data to a temp folder if path is remote. If path is local, nothing is done."""
+    """Download graph data to a temp folder if any path is remote. If all paths are local, nothing is done."""
     fs, _ = get_fs(path)
-    if isinstance(fs, LocalFileSystem):
+    if isinstance(fs, LocalFileSystem) and all(
+        isinstance(get_fs(p)[0], LocalFileSystem) for p, _ in partitions
+    ):
         return GraphPath(path)
     data_path = tempfile.TemporaryDirectory(suffix="_snark")
     fs.get(mt._get_meta_path(path, fs.sep), mt._get_meta_path(data_path.name))
-- 
2.43.0


From 07a41e0d4f93778f4ff409d5ebe4cf8bb45d01e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:48:17 +0000
Subject: [PATCH 065/118] fix: pick nodes of any name to estimate clustering

---
 .../deepgnn/graph_engine/snark/preprocess/sampler/metric.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/preprocess/sampler/metric.py b/src/python/deepgnn/graph_engine/snark/preprocess/sampler/metric.py
index 1a12496..04b4697 100644
--- a/src/python/deepgnn/graph_engine/snark/preprocess/sampler/metric.py
+++ b/src/python/deepgnn/graph_engine/snark/preprocess/sampler/metric.py
@@ -51,8 +51,8 @@ def average_clustering(input_graph: nx.digraph, trials: int) -> float:
     g = nx.to_undirected(input_graph)
     n = len(g)
     triangles = 0
-    nodes = g.nodes()
-    for i in [random.randint(0, n) for _ in range(trials)]:
+    nodes = list(g.nodes())
+    for i in [random.randint(0, n - 1) for _ in range(trials)]:
         nbrs = list(g[nodes[i]])
         if len(nbrs) < 2:
             continue
-- 
2.43.0


From 1aba7afc72992d729f21e458b764cc6d987a5491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:48:17 +0000
Subject: [PATCH 066/118] fix: sample the requested number of nodes with forest
 fire

---
 .../graph_engine/snark/preprocess/sampler/forest_fire.py     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/snark/preprocess/sampler/forest_fire.py b/src/python/deepgnn/graph_engine/snark/preprocess/sampler/forest_fire.py
index 758144f..c72b077 100644
--- a/src/python/deepgnn/graph_engine/snark/preprocess/sampler/forest_fire.py
+++ b/src/python/deepgnn/graph_engine/snark/preprocess/sampler/forest_fire.py
@@ -34,6 +34,9 @@ def __forest_fire_helper(
     sample = nx.DiGraph()
 
     list_nodes = list(g.nodes())
+    sample_size = min(sample_size, len(list_nodes))
+    if sample_size <= 0:
+        return sample
 
     visited = set()
     rand_node = list_nodes[random.randint(0, len(list_nodes) - 1)]
@@ -46,6 +49,8 @@ def __forest_fire_helper(
             # can revisit as long as not burned from same node
             if initial_node not in visited:
                 visited.add(initial_node)
+                # Nodes without edges are a part of the sample as well.
+                sample.add_node(initial_node)
                 successor = list(g.successors(initial_node))
                 predecessor = list(g.predecessors(initial_node))
                 num_successor = np.random.geometric(1 - forward_prob)
-- 
2.43.0


From d41d3ad34a38076522d1b8b153ee46b19cfc8537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:49:48 +0000
Subject: [PATCH 067/118] fix: do not stop uploading after an empty write

---
 src/python/deepgnn/graph_engine/adl_uploader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/adl_uploader.py b/src/python/deepgnn/graph_engine/adl_uploader.py
index c015f0e..781d685 100644
--- a/src/python/deepgnn/graph_engine/adl_uploader.py
+++ b/src/python/deepgnn/graph_engine/adl_uploader.py
@@ -223,6 +223,9 @@ class AdlDataWriter:
     def write(self, embed):
         """Write data to processing queue."""
         chunk = bytes(embed, "utf-8")
+        # Empty chunks are used as end marks.
+        if len(chunk) == 0:
+            return True
         self.data_queues[self.total_chunk % len(self.processes)].put(chunk)
         self.total_chunk += 1
 
-- 
2.43.0


From 3937d5e232254f83907bf70d14362e6228b1fd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:50:27 +0000
Subject: [PATCH 068/118] fix: report writes that cannot be uploaded

---
 .../deepgnn/graph_engine/adl_uploader.py      | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/adl_uploader.py b/src/python/deepgnn/graph_engine/adl_uploader.py
index 781d685..23c2d5e 100644
--- a/src/python/deepgnn/graph_engine/adl_uploader.py
+++ b/src/python/deepgnn/graph_engine/adl_uploader.py
@@ -226,8 +226,20 @@ class AdlDataWriter:
         # Empty chunks are used as end marks.
         if len(chunk) == 0:
             return True
-        self.data_queues[self.total_chunk % len(self.processes)].put(chunk)
-        self.total_chunk += 1
+        return self._enqueue(chunk)
+
+    def _enqueue(self, chunk):
+        # Wait for space in the queue until the writer is closed.
+        while self.is_running:
+            try:
+                self.data_queues[self.total_chunk % len(self.processes)].put(
+                    chunk, timeout=1
+                )
+                self.total_chunk += 1
+                return True
+            except queue.Full:
+                continue
+        return False
 
     def writelines(self, embeds):
         """Write data line by line."""
@@ -240,19 +252,11 @@ class AdlDataWriter:
                 if offset + self.max_lines_per_chunk < embed_size
                 else embed_size
             )
-            if not self.is_running:
-                return False
             chunk = "\n".join(embeds[offset:end_offset]) + "\n"
             chunk = bytes(chunk, "utf-8")
-            try:
-                self.data_queues[self.total_chunk % len(self.processes)].put(
-                    chunk, timeout=1
-                )
-            except ValueError:
-                self.total_chunk += 1
-
+            if not self._enqueue(chunk):
+                return False
             offset = end_offset
-            self.total_chunk += 1
         return True
 
     def _start_uploading(self):
-- 
2.43.0


From fce3b46ee65a8d8abb639912a8728cd04b8676df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:55:49 +0000
Subject: [PATCH 069/118] fix: wait for uploads when the monitor closes the
 writer

---
 .../deepgnn/graph_engine/adl_uploader.py      | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/adl_uploader.py b/src/python/deepgnn/graph_engine/adl_uploader.py
index 23c2d5e..590a131 100644
--- a/src/python/deepgnn/graph_engine/adl_uploader.py
+++ b/src/python/deepgnn/graph_engine/adl_uploader.py
@@ -183,6 +183,7 @@ class AdlDataWriter:
 
         self.total_chunk = 0
         self.is_running = False
+        self._close_lock = threading.Lock()
         self._start_uploading()
 
     def _monitor_thread(self):
@@ -270,18 +271,20 @@ class AdlDataWriter:
 
     def close(self):
         """Stop uploading and put close flags to data queues."""
-        if self.is_running:
-            self.logger.info("[AdlUploader] stop...")
-            self.is_running = False
+        # Wait for the end of uploading if the monitor thread is closing the writer.
+        with self._close_lock:
+            if self.is_running:
+                self.logger.info("[AdlUploader] stop...")
+                self.is_running = False
 
-            for i in range(len(self.processes)):
-                if self.processes[i].is_alive():
-                    self.data_queues[i].put(None)
+                for i in range(len(self.processes)):
+                    if self.processes[i].is_alive():
+                        self.data_queues[i].put(None)
 
-            for process in self.processes:
-                process.join()
+                for process in self.processes:
+                    process.join()
 
-            self.logger.info("[AdlUploader] stopped successfully.")
+                self.logger.info("[AdlUploader] stopped successfully.")
 
     def __enter__(self):
         """Return writer."""
-- 
2.43.0


From dd7e11aa685f8e710d4c2e85ecb1fe6b1e24583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:02:18 +0000
Subject: [PATCH 070/118] fix: keep last edges of forest fire samples

---
 .../snark/preprocess/sampler/forest_fire.py          | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/preprocess/sampler/forest_fire.py b/src/python/deepgnn/graph_engine/snark/preprocess/sampler/forest_fire.py
index c72b077..35b7732 100644
--- a/src/python/deepgnn/graph_engine/snark/preprocess/sampler/forest_fire.py
+++ b/src/python/deepgnn/graph_engine/snark/preprocess/sampler/forest_fire.py
@@ -49,8 +49,6 @@ def __forest_fire_helper(
             # can revisit as long as not burned from same node
             if initial_node not in visited:
                 visited.add(initial_node)
-                # Nodes without edges are a part of the sample as well.
-                sample.add_node(initial_node)
                 successor = list(g.successors(initial_node))
                 predecessor = list(g.predecessors(initial_node))
                 num_successor = np.random.geometric(1 - forward_prob)
@@ -64,6 +62,16 @@ def __forest_fire_helper(
                 chosen_successor = random.sample(successor, num_successor)
                 chosen_predecessor = random.sample(predecessor, num_predecessor)
 
+                # There is no edge to add if the node is isolated or there is a space
+                # only for this node and not for its neighbor.
+                nbs = chosen_successor + chosen_predecessor
+                if len(nbs) == 0 or (
+                    len(sample.nodes()) == sample_size - 1
+                    and initial_node not in sample
+                    and nbs[0] not in sample
+                ):
+                    sample.add_node(initial_node)
+
                 for succ in chosen_successor:
                     if len(sample.nodes()) < sample_size:
                         sample.add_edge(initial_node, succ)
-- 
2.43.0


From 679a60b77b0e0c135271c391bdff69347e1bf14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:12:55 +0000
Subject: [PATCH 071/118] fix: load the partitions given to a local client

Clients loaded the first partitions of a folder, as many as there were ids in the list.
---
 src/python/deepgnn/graph_engine/snark/local.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/local.py b/src/python/deepgnn/graph_engine/snark/local.py
index 36db38f..c7914a6 100644
--- a/src/python/deepgnn/graph_engine/snark/local.py
+++ b/src/python/deepgnn/graph_engine/snark/local.py
@@ -37,9 +37,7 @@ class Client(Graph):
         if len(partitions) == 0:
             self.logger.info("Partitions not set, defaulting to [0]")
             partitions = [0]
-        partitions_with_paths = [
-            (path, partition) for partition in range(len(partitions))
-        ]
+        partitions_with_paths = [(path, partition) for partition in partitions]
         self.logger.info(
             f"Graph data path: {path}. Partitions {partitions}. Storage type {storage_type}. Config path {config_path}. Stream {stream}."
         )
-- 
2.43.0


From 2729425169fe91377a4385c3e89932d2f845bd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:12:55 +0000
Subject: [PATCH 072/118] fix: honour the default edge type when sampling
 neighbors by weight

---
 src/python/deepgnn/graph_engine/snark/local.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/deepgnn/graph_engine/snark/local.py b/src/python/deepgnn/graph_engine/snark/local.py
index c7914a6..5961efa 100644
--- a/src/python/deepgnn/graph_engine/snark/local.py
+++ b/src/python/deepgnn/graph_engine/snark/local.py
@@ -118,6 +118,7 @@ class Client(Graph):
                 count,
                 default_node,
                 default_weight,
+                default_edge_type,
                 seed=int(random.getrandbits(64)),
                 timestamps=timestamps,
                 return_edge_created_ts=return_edge_created_ts,
-- 
2.43.0


From efbcf0e739a6c2aabf588dc44fb6fc17a84ba8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:12:55 +0000
Subject: [PATCH 073/118] fix: do not return uninitialized weights for uniform
 samples

---
 src/python/deepgnn/graph_engine/snark/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/local.py b/src/python/deepgnn/graph_engine/snark/local.py
index 5961efa..9c5ff8b 100644
--- a/src/python/deepgnn/graph_engine/snark/local.py
+++ b/src/python/deepgnn/graph_engine/snark/local.py
@@ -146,7 +146,7 @@ class Client(Graph):
             )
             return (
                 result[0],
-                np.empty(result[0].shape, dtype=np.float32),
+                np.full(result[0].shape, default_weight, dtype=np.float32),
                 result[1],
                 (
                     result[2]
-- 
2.43.0


From 1af69c927e793303600cd7c8461d069a98339758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:12:55 +0000
Subject: [PATCH 074/118] fix: keep samplers of long type lists apart

Text form of a long array leaves out items in the middle, so lists with different types shared a sampler.
---
 src/python/deepgnn/graph_engine/snark/local.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/local.py b/src/python/deepgnn/graph_engine/snark/local.py
index 9c5ff8b..ed3c572 100644
--- a/src/python/deepgnn/graph_engine/snark/local.py
+++ b/src/python/deepgnn/graph_engine/snark/local.py
@@ -63,10 +63,11 @@ class Client(Graph):
         """Return an array of nodes with a specified type."""
         assert size > 0
 
-        key = _sampling_map[strategy] + str(node_types)
+        types_list = self.__check_types(node_types)
+        key = _sampling_map[strategy] + str(types_list)
         if key not in self.node_samplers:
             self.node_samplers[key] = client.NodeSampler(
-                self.graph, self.__check_types(node_types), _sampling_map[strategy]
+                self.graph, types_list, _sampling_map[strategy]
             )
 
         # Explicitly set random bits so users can have reproducable samples
@@ -82,10 +83,11 @@ class Client(Graph):
         """Return an array of edges with a specified type."""
         assert size > 0
 
-        key = _sampling_map[strategy] + str(edge_types)
+        types_list = self.__check_types(edge_types)
+        key = _sampling_map[strategy] + str(types_list)
         if key not in self.edge_samplers:
             self.edge_samplers[key] = client.EdgeSampler(
-                self.graph, self.__check_types(edge_types), _sampling_map[strategy]
+                self.graph, types_list, _sampling_map[strategy]
             )
 
         # Explicitly set random bits so users can have reproducable samples
-- 
2.43.0


From a270568ec7cf417ab3c3bdea2fcd1ba3ac0e5560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:12:55 +0000
Subject: [PATCH 075/118] fix: restore pickled distributed clients with their
 settings

Plain pickle could not serialize a client, and a restored one lost its grpc options and thread counts.
---
 .../deepgnn/graph_engine/snark/distributed.py | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/distributed.py b/src/python/deepgnn/graph_engine/snark/distributed.py
index fca4834..5608e24 100644
--- a/src/python/deepgnn/graph_engine/snark/distributed.py
+++ b/src/python/deepgnn/graph_engine/snark/distributed.py
@@ -15,6 +15,11 @@ from deepgnn import get_logger
 from deepgnn.graph_engine.snark.meta import download_meta
 
 
+def _deserialize_client(*args):
+    get_logger().setLevel(logging.ERROR)
+    return Client(*args)
+
+
 class Client(ge_snark.Client):
     """Distributed client."""
 
@@ -33,6 +38,9 @@ class Client(ge_snark.Client):
             servers = [servers]
         self._servers = servers
         self._ssl_cert = ssl_cert
+        self._grpc_options = grpc_options
+        self._num_threads = num_threads
+        self._num_cq_per_thread = num_cq_per_thread
         self.graph = client.DistributedGraph(
             servers,
             ssl_cert,
@@ -48,12 +56,13 @@ class Client(ge_snark.Client):
 
     def __reduce__(self):
         """On serialize reload as new client."""
-
-        def deserialize(*args):
-            get_logger().setLevel(logging.ERROR)
-            return Client(*args)
-
-        return deserialize, (self._servers, self._ssl_cert)
+        return _deserialize_client, (
+            self._servers,
+            self._ssl_cert,
+            self._grpc_options,
+            self._num_threads,
+            self._num_cq_per_thread,
+        )
 
 
 class Server:
-- 
2.43.0


From 3f671629666eddd597d71351606194d7fe1d4653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:23:32 +0000
Subject: [PATCH 076/118] fix: pass grpc options that start with a number as
 strings

Only the leading number of an option such as a host name was used, and a large number stopped the process.
---
 src/cc/lib/py_graph.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index 3b308db..e462687 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -290,14 +290,26 @@ int32_t CreateRemoteClient(PyGraph *py_graph, const char *output_folder, const c
     args.SetMaxReceiveMessageSize(-1);
     for (size_t custom_arg_index = 0; custom_arg_index < num_custom_args; ++custom_arg_index)
     {
+        const std::string value(custom_args_values[custom_arg_index]);
+        size_t parsed = 0;
+        int number = 0;
         try
         {
-            auto val = std::stoi(std::string(custom_args_values[custom_arg_index]));
-            args.SetInt(custom_args_keys[custom_arg_index], val);
+            number = std::stoi(value, &parsed);
         }
-        catch (std::invalid_argument const &ex)
+        catch (const std::logic_error &ex)
         {
-            args.SetString(custom_args_keys[custom_arg_index], custom_args_values[custom_arg_index]);
+            // Not a number or it is too large, use it as a string.
+            parsed = 0;
+        }
+        // Strings can start with a number too, e.g. host names.
+        if (!value.empty() && parsed == value.size())
+        {
+            args.SetInt(custom_args_keys[custom_arg_index], number);
+        }
+        else
+        {
+            args.SetString(custom_args_keys[custom_arg_index], value);
         }
     }
 
-- 
2.43.0


From 3bd0034aaae2a3c222c00581009d74e333c38070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:29:24 +0000
Subject: [PATCH 077/118] fix: use connection options of a backend that waits
 for servers

A backend that synchronizes with servers ignored grpc options and thread
counts. It also used a certificate when SSL was turned off.
---
 src/python/deepgnn/graph_engine/backends/snark/client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index c24040a..aa21365 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -119,7 +119,10 @@ class SnarkDistributedBackend(GraphEngineBackend):
             options.ge_start_timeout,
             DistributedClient,
             options.servers,
-            options.ssl_cert,
+            options.ssl_cert if options.enable_ssl else None,
+            grpc_options=options.grpc_options,
+            num_threads=options.num_threads,
+            num_cq_per_thread=options.num_cq_per_thread,
         )
         if server_index >= 0:
             self._server = SynchronizedServer(
-- 
2.43.0


From ce05a8b2946b287efb13f590de3c03cffe03291f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:37:42 +0000
Subject: [PATCH 078/118] fix: load all partitions of a dataset

A dataset converted to several partitions loaded only the first one.
---
 src/python/deepgnn/graph_engine/data/data_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/data/data_util.py b/src/python/deepgnn/graph_engine/data/data_util.py
index 6e64d62..222437f 100644
--- a/src/python/deepgnn/graph_engine/data/data_util.py
+++ b/src/python/deepgnn/graph_engine/data/data_util.py
@@ -108,7 +108,7 @@ class Dataset(Client):
         self._build_graph_impl(
             self.input_location, self.output_dir, train_node_ratio, random_selection
         )
-        super().__init__(self.output_dir, partitions=[0])
+        super().__init__(self.output_dir, partitions=list(range(num_partitions)))
 
     def _build_graph_impl(
         self,
-- 
2.43.0


From 45a266ebcda7042ab2da49561f1a683264f6d269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:37:42 +0000
Subject: [PATCH 079/118] fix: open the downloaded archive of a dataset

The archive was looked up under its URL instead of the downloaded file.
---
 src/python/deepgnn/graph_engine/data/data_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/data/data_util.py b/src/python/deepgnn/graph_engine/data/data_util.py
index 222437f..18cb2ae 100644
--- a/src/python/deepgnn/graph_engine/data/data_util.py
+++ b/src/python/deepgnn/graph_engine/data/data_util.py
@@ -120,7 +120,7 @@ class Dataset(Client):
         filename = self.GRAPH_NAME + ".zip"
         if "http" in self.input_location:
             download_file(input_location, ".", filename)
-            input_location = os.path.join(input_location, filename)
+            input_location = os.path.join(".", filename)
         if self.input_location == "local":
             package_name = "deepgnn.graph_engine.data"
             zip_filename = f"{self.GRAPH_NAME}.zip"
-- 
2.43.0


From d15a59df80dbb6374754b9b04d75d3b184808424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:37:42 +0000
Subject: [PATCH 080/118] fix: build datasets without training nodes

Logging of graph statistics failed when all nodes were test nodes.
---
 src/python/deepgnn/graph_engine/data/data_util.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/data/data_util.py b/src/python/deepgnn/graph_engine/data/data_util.py
index 18cb2ae..65b2979 100644
--- a/src/python/deepgnn/graph_engine/data/data_util.py
+++ b/src/python/deepgnn/graph_engine/data/data_util.py
@@ -173,11 +173,12 @@ class Dataset(Client):
         train_nodes = set([nid for nid in nodes if node_types[nid] == "train"])
         test_nodes = set([nid for nid in nodes if node_types[nid] == "test"])
         logging.info("*********** {} graph info *************".format(self.GRAPH_NAME))
-        logging.info(
-            "* node type: 0, id: {} ~ {}, num: {}".format(
-                min(train_nodes), max(train_nodes), len(train_nodes)
+        if len(train_nodes) > 0:
+            logging.info(
+                "* node type: 0, id: {} ~ {}, num: {}".format(
+                    min(train_nodes), max(train_nodes), len(train_nodes)
+                )
             )
-        )
         if len(test_nodes) > 0:
             logging.info(
                 "* node type: 1, id: {} ~ {}, num: {}".format(
-- 
2.43.0


From ab1c0180bdfe369dd74fd0b0371c095aa3091c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:37:42 +0000
Subject: [PATCH 081/118] fix: rebuild citation datasets in a removed folder

distutils remembers the folders it created and does not create them again.
---
 src/python/deepgnn/graph_engine/data/citation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/data/citation.py b/src/python/deepgnn/graph_engine/data/citation.py
index b29d70b..d479e12 100644
--- a/src/python/deepgnn/graph_engine/data/citation.py
+++ b/src/python/deepgnn/graph_engine/data/citation.py
@@ -2,6 +2,7 @@
 # Licensed under the MIT License.
 """Citation graph datasets."""
 import argparse
+import shutil
 import sys
 import tempfile
 import os
@@ -13,7 +14,6 @@ import networkx as nx
 import scipy.sparse as sp  # type: ignore
 from zipfile import ZipFile
 import importlib.resources as pkg_resources
-from distutils.dir_util import copy_tree
 
 from deepgnn.graph_engine.snark.local import Client
 
@@ -226,7 +226,9 @@ class CitationGraph(Client):
         data_dir = output_dir
         download_gcn_data(self.GRAPH_NAME, data_dir)
 
-        copy_tree(os.path.join(data_dir, self.GRAPH_NAME), data_dir)
+        shutil.copytree(
+            os.path.join(data_dir, self.GRAPH_NAME), data_dir, dirs_exist_ok=True
+        )
         """
         adj, features, labels, train_mask, val_mask, test_mask = self._load_raw_graph(
             raw_data_dir
-- 
2.43.0


From 660d5a0df09979b14cc31f4269c5398e22a92b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:37:42 +0000
Subject: [PATCH 082/118] fix: use the requested number of training nodes per
 class

random_split always took 20 nodes of each class.
---
 src/python/deepgnn/graph_engine/data/citation.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/data/citation.py b/src/python/deepgnn/graph_engine/data/citation.py
index d479e12..0eacfc9 100644
--- a/src/python/deepgnn/graph_engine/data/citation.py
+++ b/src/python/deepgnn/graph_engine/data/citation.py
@@ -161,7 +161,6 @@ def random_split(
     num_test: int,
 ) -> Tuple[np.ndarray, np.ndarray, np.ndarray]:
     """Split graph data to train/test/validation sets with node sampling."""
-    num_train_per_class = 20
     num_nodes = labels.shape[0]
     train_idx = []
     for cl in range(num_classes):
-- 
2.43.0


From 0c0c634776d182b57be0ca4584078e04defd03f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:37:42 +0000
Subject: [PATCH 083/118] fix: parse the number of partitions of cora as a
 number

A value from the command line was passed to the converter as a string.
---
 src/python/deepgnn/graph_engine/data/cora.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/data/cora.py b/src/python/deepgnn/graph_engine/data/cora.py
index 38c21c6..e4279ae 100644
--- a/src/python/deepgnn/graph_engine/data/cora.py
+++ b/src/python/deepgnn/graph_engine/data/cora.py
@@ -108,7 +108,7 @@ if __name__ == "__main__":
     parser.add_argument("--data_dir", default=f"{tempfile.gettempdir()}/cora", type=str)
     parser.add_argument("--train_node_ratio", default=1.0, type=float)
     parser.add_argument("--random_selection", action="store_true")
-    parser.add_argument("--num_partitions", default=1)
+    parser.add_argument("--num_partitions", default=1, type=int)
     args = parser.parse_args()
 
     g = CoraFull(
-- 
2.43.0


From 8efa9d307d6c64ca0272d3772e38db0ede760be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:40:31 +0000
Subject: [PATCH 084/118] fix: look up degrees of page rank neighbors at their
 own times

Timestamps were indexed by the position of a neighbor, past the end of the
list of starting nodes, and overwritten.
---
 src/cc/lib/py_graph.cc | 55 ++++++++++--------------------------------
 1 file changed, 13 insertions(+), 42 deletions(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index e462687..56afef5 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -1069,7 +1069,6 @@ typedef struct
     absl::flat_hash_map<std::pair<NodeID, Timestamp>, std::vector<NodeID>> lookup_neighbors;
     std::vector<NodeID> node_ids;
     std::vector<Timestamp> timestamps;
-    std::vector<size_t> nb_index;
     std::vector<uint64_t> counts;
 
     std::vector<NodeID> nb_ids;
@@ -1080,39 +1079,19 @@ typedef struct
 } NB_Count_Cache;
 
 // Cache neighbor counts for each node in the input list.
-int32_t lookup_neighbor_counts(PyGraph *py_graph, NB_Count_Cache &cache, const std::vector<NodeID> &neighbors,
-                               Type *in_edge_types, size_t in_edge_types_size, Timestamp *timestamps)
+int32_t lookup_neighbor_counts(PyGraph *py_graph, NB_Count_Cache &cache,
+                               const absl::flat_hash_set<std::pair<NodeID, Timestamp>> &neighbors, Type *in_edge_types,
+                               size_t in_edge_types_size, bool use_timestamps)
 {
     assert(cache.node_ids.empty());
+    assert(cache.timestamps.empty());
     assert(cache.counts.empty());
-    assert(cache.nb_index.empty());
-
-    // It is better to keep unique nodes off cache object, because internal buckets reuse between requests leads to
-    // slower performance.
-    absl::flat_hash_set<std::pair<NodeID, Timestamp>> unique_nodes;
-    for (size_t nb_index = 0; nb_index < neighbors.size(); ++nb_index)
+    for (const auto &node_ts : neighbors)
     {
-        const auto node_id = neighbors[nb_index];
-        const auto timestamp = timestamps == nullptr ? -1 : timestamps[nb_index];
-        auto it = cache.lookup_count.find({node_id, timestamp});
-        if (it != cache.lookup_count.end())
-        {
-            continue;
-        }
-        else
+        if (cache.lookup_count.find(node_ts) == std::end(cache.lookup_count))
         {
-            if (unique_nodes.find({node_id, timestamp}) == std::end(unique_nodes))
-            {
-                const auto new_index = cache.node_ids.size();
-                cache.node_ids.emplace_back(node_id);
-                if (timestamps != nullptr)
-                {
-                    timestamps[new_index] = timestamp;
-                }
-                unique_nodes.emplace(node_id, timestamp);
-            }
-
-            cache.nb_index.emplace_back(nb_index);
+            cache.node_ids.emplace_back(node_ts.first);
+            cache.timestamps.emplace_back(node_ts.second);
         }
     }
 
@@ -1124,7 +1103,7 @@ int32_t lookup_neighbor_counts(PyGraph *py_graph, NB_Count_Cache &cache, const s
     const size_t request_nodes_size = cache.node_ids.size();
     cache.counts.resize(request_nodes_size);
     const auto res = NeighborCount(py_graph, cache.node_ids.data(), request_nodes_size,
-                                   timestamps == nullptr ? timestamps : cache.timestamps.data(), in_edge_types,
+                                   use_timestamps ? cache.timestamps.data() : nullptr, in_edge_types,
                                    in_edge_types_size, cache.counts.data());
     if (res != 0)
     {
@@ -1132,13 +1111,12 @@ int32_t lookup_neighbor_counts(PyGraph *py_graph, NB_Count_Cache &cache, const s
     }
     for (size_t i = 0; i < request_nodes_size; ++i)
     {
-        const auto timestamp = timestamps == nullptr ? -1 : timestamps[i];
-        cache.lookup_count[{cache.node_ids[i], timestamp}] = cache.counts[i];
+        cache.lookup_count[{cache.node_ids[i], cache.timestamps[i]}] = cache.counts[i];
     }
 
     cache.node_ids.clear();
+    cache.timestamps.clear();
     cache.counts.clear();
-    cache.nb_index.clear();
     return 0;
 }
 
@@ -1191,16 +1169,9 @@ int32_t lookup_neighbor_lists(PyGraph *py_graph, NB_Count_Cache &cache,
     }
 
     cache.node_ids.clear();
-    cache.nb_ids.clear();
-    cache.nb_ids.reserve(input.size());
-    for (const auto &nt : input)
-    {
-        cache.nb_ids.emplace_back(nt.first);
-    }
-
-    const auto res = lookup_neighbor_counts(py_graph, cache, cache.nb_ids, in_edge_types, in_edge_types_size,
-                                            mutable_timestamps);
     cache.timestamps.clear();
+    const auto res =
+        lookup_neighbor_counts(py_graph, cache, input, in_edge_types, in_edge_types_size, timestamps != nullptr);
     cache.nb_types.clear();
     cache.nb_weights.clear();
     cache.nb_ids.clear();
-- 
2.43.0


From 6a3cfe9ff107fdaaa60882039a418ded9e1dab69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:40:31 +0000
Subject: [PATCH 085/118] fix: return nothing when no page rank neighbors are
 requested

A request for zero neighbors read from an empty queue.
---
 src/cc/lib/py_graph.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index 56afef5..d25c38f 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -1192,6 +1192,11 @@ int32_t PPRSampleNeighbor(PyGraph *py_graph, NodeID *in_node_ids, size_t in_node
         return 1;
     }
 
+    if (count == 0)
+    {
+        return 0;
+    }
+
     const float alpha_eps = alpha * eps;
     std::vector<std::vector<NodeID>> q(in_node_ids_size);
 
-- 
2.43.0


From 78ce3751fd6514429d2da775bec131e1fb68a3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:46:53 +0000
Subject: [PATCH 086/118] fix: give every graph and sampler its own library
 handle

Functions of the shared handle were described again for every new graph and sampler.
This freed objects other threads were using in their calls.
---
 src/python/deepgnn/graph_engine/snark/_lib.py   | 5 ++---
 src/python/deepgnn/graph_engine/snark/client.py | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/_lib.py b/src/python/deepgnn/graph_engine/snark/_lib.py
index 02a33b8..a50987b 100644
--- a/src/python/deepgnn/graph_engine/snark/_lib.py
+++ b/src/python/deepgnn/graph_engine/snark/_lib.py
@@ -3,7 +3,6 @@
 
 import os
 import platform
-import functools
 
 if platform.system() == "Windows":
     from ctypes import WinDLL  # type: ignore
@@ -22,8 +21,8 @@ _LIB_PATH = os.path.join(os.path.dirname(__file__), _LIB_FILE_NAME)
 _SNARK_LIB_PATH_ENV_KEY = "SNARK_LIB_PATH"
 
 
-# Use lru_cache for to load library only once in thread safe mode.
-@functools.lru_cache(maxsize=1)
+# Every caller gets its own handle of the library: describing functions of a handle
+# is not thread safe if another thread is calling them at the same time.
 def _get_c_lib():
     global _LIB_PATH
 
diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index 027e6b7..d35a3ba 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -1479,7 +1479,7 @@ class NodeSampler:
         self.types = types
         self.ns_ = _DEEP_GRAPH()
         self.graph = g
-        self.lib = g.lib
+        self.lib = _get_c_lib()
 
         sampler_func = {
             "weighted": self.lib.CreateWeightedNodeSampler,
@@ -1598,7 +1598,7 @@ class EdgeSampler:
         self.types = types
         self.es_ = _DEEP_GRAPH()
         self.graph = g
-        self.lib = g.lib
+        self.lib = _get_c_lib()
         sampler_func = {
             "weighted": self.lib.CreateWeightedEdgeSampler,
             "uniform": self.lib.CreateUniformEdgeSampler,
-- 
2.43.0


From 0e78735934389fbf1983f843fece564c3065928a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:00:44 +0000
Subject: [PATCH 087/118] fix: draw seeds of all servers before sampling
 neighbors

Replies used the random engine while seeds of other requests were drawn from it.
---
 src/cc/lib/distributed/client.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cc/lib/distributed/client.cc b/src/cc/lib/distributed/client.cc
index 8986d10..f33a18d 100644
--- a/src/cc/lib/distributed/client.cc
+++ b/src/cc/lib/distributed/client.cc
@@ -748,9 +748,13 @@ void GRPCClient::WeightedSampleNeighbor(bool return_edge_created_ts, int64_t see
     // neighbors that are split across shards.
     std::vector<float> shard_weights(node_ids.size());
     std::mutex mtx;
+
+    // Replies use the engine as soon as they arrive, so all seeds are drawn before the first request.
+    std::vector<int64_t> seeds(m_engine_stubs.size());
+    std::generate(std::begin(seeds), std::end(seeds), [&]() { return subseed(engine); });
     for (size_t shard = 0; shard < m_engine_stubs.size(); ++shard)
     {
-        request.set_seed(subseed(engine));
+        request.set_seed(seeds[shard]);
 
         auto *call = new AsyncClientCall();
 
-- 
2.43.0


From 85f82eda97c59b17c7c3a77a12fd251335017928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:31:34 +0000
Subject: [PATCH 088/118] fix: refuse samples of samplers a server does not
 know

A restarted server crashed or returned other elements when asked by clients of its predecessor.
Errors of sampling and edge feature calls were not reported to clients.
---
 src/cc/lib/distributed/call_data.cc     | 20 ++++++++++----------
 src/cc/lib/distributed/client.cc        |  5 +++++
 src/cc/lib/distributed/graph_sampler.cc | 14 ++++++++++----
 src/cc/lib/distributed/graph_sampler.h  |  2 ++
 4 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/cc/lib/distributed/call_data.cc b/src/cc/lib/distributed/call_data.cc
index ac46389..6f9b487 100644
--- a/src/cc/lib/distributed/call_data.cc
+++ b/src/cc/lib/distributed/call_data.cc
@@ -62,9 +62,9 @@ void EdgeFeaturesCallData::Proceed()
     else if (m_status == PROCESS)
     {
         new EdgeFeaturesCallData(m_service, m_cq, m_service_impl);
-        m_service_impl.GetEdgeFeatures(&m_ctx, &m_request, &m_reply);
+        const auto status = m_service_impl.GetEdgeFeatures(&m_ctx, &m_request, &m_reply);
         m_status = FINISH;
-        m_responder.Finish(m_reply, grpc::Status::OK, this);
+        m_responder.Finish(m_reply, status, this);
     }
     else
     {
@@ -233,9 +233,9 @@ void CreateSamplerCallData::Proceed()
     else if (m_status == PROCESS)
     {
         new CreateSamplerCallData(m_service, m_cq, m_service_impl);
-        m_service_impl.Create(&m_ctx, &m_request, &m_reply);
+        const auto status = m_service_impl.Create(&m_ctx, &m_request, &m_reply);
         m_status = FINISH;
-        m_responder.Finish(m_reply, grpc::Status::OK, this);
+        m_responder.Finish(m_reply, status, this);
     }
     else
     {
@@ -261,9 +261,9 @@ void SampleElementsCallData::Proceed()
     else if (m_status == PROCESS)
     {
         new SampleElementsCallData(m_service, m_cq, m_service_impl);
-        m_service_impl.Sample(&m_ctx, &m_request, &m_reply);
+        const auto status = m_service_impl.Sample(&m_ctx, &m_request, &m_reply);
         m_status = FINISH;
-        m_responder.Finish(m_reply, grpc::Status::OK, this);
+        m_responder.Finish(m_reply, status, this);
     }
     else
     {
@@ -375,9 +375,9 @@ void EdgeSparseFeaturesCallData::Proceed()
     else if (m_status == PROCESS)
     {
         new EdgeSparseFeaturesCallData(m_service, m_cq, m_service_impl);
-        m_service_impl.GetEdgeSparseFeatures(&m_ctx, &m_request, &m_reply);
+        const auto status = m_service_impl.GetEdgeSparseFeatures(&m_ctx, &m_request, &m_reply);
         m_status = FINISH;
-        m_responder.Finish(m_reply, grpc::Status::OK, this);
+        m_responder.Finish(m_reply, status, this);
     }
     else
     {
@@ -433,9 +433,9 @@ void EdgeStringFeaturesCallData::Proceed()
     else if (m_status == PROCESS)
     {
         new EdgeStringFeaturesCallData(m_service, m_cq, m_service_impl);
-        m_service_impl.GetEdgeStringFeatures(&m_ctx, &m_request, &m_reply);
+        const auto status = m_service_impl.GetEdgeStringFeatures(&m_ctx, &m_request, &m_reply);
         m_status = FINISH;
-        m_responder.Finish(m_reply, grpc::Status::OK, this);
+        m_responder.Finish(m_reply, status, this);
     }
     else
     {
diff --git a/src/cc/lib/distributed/client.cc b/src/cc/lib/distributed/client.cc
index f33a18d..980ee50 100644
--- a/src/cc/lib/distributed/client.cc
+++ b/src/cc/lib/distributed/client.cc
@@ -1048,6 +1048,11 @@ void GRPCClient::SampleEdges(int64_t seed, uint64_t sampler_id, std::span<NodeId
 
     for (size_t shard = 0; shard < m_sampler_stubs.size() && left > 0; ++shard)
     {
+        if (sampler_ids[shard] == empty_sampler_id)
+        {
+            continue;
+        }
+
         auto *call = new AsyncClientCall();
         const size_t shard_count = ShardSampleSize(left, weights[shard], limits, shard, gen);
         left -= shard_count;
diff --git a/src/cc/lib/distributed/graph_sampler.cc b/src/cc/lib/distributed/graph_sampler.cc
index 6bc2321..5cc2629 100644
--- a/src/cc/lib/distributed/graph_sampler.cc
+++ b/src/cc/lib/distributed/graph_sampler.cc
@@ -4,6 +4,7 @@
 #include "src/cc/lib/distributed/graph_sampler.h"
 #include "src/cc/lib/graph/sampler.h"
 #include <cstdio>
+#include <random>
 #include <thread>
 
 namespace snark
@@ -11,8 +12,8 @@ namespace snark
 
 GraphSamplerServiceImpl::GraphSamplerServiceImpl(snark::Metadata metadata, std::vector<std::string> partition_paths,
                                                  std::vector<size_t> partition_indices, std::shared_ptr<Logger> logger)
-    : m_metadata(std::move(metadata)), m_partition_indices(std::move(partition_indices)),
-      m_patrition_paths(std::move(partition_paths))
+    : m_first_sampler_id(std::random_device()()), m_metadata(std::move(metadata)),
+      m_partition_indices(std::move(partition_indices)), m_patrition_paths(std::move(partition_paths))
 {
     if (!logger)
     {
@@ -61,7 +62,7 @@ grpc::Status GraphSamplerServiceImpl::Create(::grpc::ServerContext *context, con
     response->set_weight(sampler->Weight());
     {
         std::lock_guard l(m_mutex);
-        response->set_sampler_id(m_samplers.size());
+        response->set_sampler_id(m_first_sampler_id + m_samplers.size());
         m_samplers.emplace_back(std::move(sampler));
     }
 
@@ -79,7 +80,12 @@ grpc::Status GraphSamplerServiceImpl::Sample(::grpc::ServerContext *context, con
     snark::Sampler *sampler;
     {
         std::lock_guard l(m_mutex);
-        sampler = m_samplers[request->sampler_id()].get();
+        const uint64_t index = request->sampler_id() - m_first_sampler_id;
+        if (index >= m_samplers.size())
+        {
+            return grpc::Status(grpc::StatusCode::FAILED_PRECONDITION, "Sampler was not created by this server");
+        }
+        sampler = m_samplers[index].get();
     }
 
     const auto count = request->count();
diff --git a/src/cc/lib/distributed/graph_sampler.h b/src/cc/lib/distributed/graph_sampler.h
index 1e08e83..1ae7bdb 100644
--- a/src/cc/lib/distributed/graph_sampler.h
+++ b/src/cc/lib/distributed/graph_sampler.h
@@ -41,6 +41,8 @@ class GraphSamplerServiceImpl final : public snark::GraphSampler::Service
     absl::flat_hash_map<snark::CreateSamplerRequest_Category, std::shared_ptr<snark::SamplerFactory>>
         m_edge_sampler_factory;
     std::vector<std::unique_ptr<snark::Sampler>> m_samplers;
+    // Different for every server, to recognize samplers created before a restart.
+    uint64_t m_first_sampler_id;
     snark::Metadata m_metadata;
     std::vector<size_t> m_partition_indices;
     std::vector<std::string> m_patrition_paths;
-- 
2.43.0


From 3985dc2149bf88b9ce238761a032c65fe2c0514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:12:04 +0000
Subject: [PATCH 089/118] fix: sample zero neighbors without touching memory

Uniform sampling without replacement and last created neighbors wrote or read outside of their buffers when no elements were requested.
---
 src/cc/lib/graph/partition.cc | 5 +++++
 src/cc/lib/graph/reservoir.cc | 9 ++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index 2a61e72..b224eb1 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -822,6 +822,11 @@ size_t Partition::LastNCreatedNeighbors(bool return_edge_created_ts, uint64_t in
                                         lastn_queue &lastn, NodeId default_node_id, Type default_edge_type,
                                         float default_weight, Timestamp default_timestamp) const
 {
+    if (count == 0 || m_edge_timestamps.empty())
+    {
+        return lastn.size();
+    }
+
     auto lambda = [&out_nodes, &out_types, &out_edge_weights, &out_timestamps, &lastn, timestamp, count, this,
                    return_edge_created_ts](auto start, auto last, int i) {
         for (size_t index = start; index < last; ++index)
diff --git a/src/cc/lib/graph/reservoir.cc b/src/cc/lib/graph/reservoir.cc
index 074e531..b230a62 100644
--- a/src/cc/lib/graph/reservoir.cc
+++ b/src/cc/lib/graph/reservoir.cc
@@ -14,11 +14,16 @@ AlgorithmL::AlgorithmL(size_t k, snark::Xoroshiro128PlusGenerator &gen)
     : m_k(k), m_W{0}, m_next(0), m_seen(0), m_gen(gen),
       m_dist(boost::random::uniform_real_distribution<float>(0.0f, 1.0f))
 {
-    assert(k > 0);
 }
 
 void AlgorithmL::add(size_t n, std::function<void(size_t, size_t)> update)
 {
+    // There is no place for any element in an empty reservoir.
+    if (m_k == 0)
+    {
+        return;
+    }
+
     size_t i = 0;
     for (; m_seen < m_k && i < n; ++m_seen, ++i, ++m_next)
     {
@@ -57,7 +62,6 @@ void AlgorithmL::add(size_t n, std::function<void(size_t, size_t)> update)
 WithReplacement::WithReplacement(size_t k, snark::Xoroshiro128PlusGenerator &gen)
     : m_seen(0), m_k(k), m_gen(gen), m_dist(boost::random::uniform_real_distribution<float>(0.0f, 1.0f))
 {
-    assert(k > 0);
 }
 
 void WithReplacement::add(size_t w, std::function<void(size_t, size_t)> update)
@@ -81,7 +85,6 @@ void WithReplacement::reset()
 WithoutReplacementMerge::WithoutReplacementMerge(size_t k, snark::Xoroshiro128PlusGenerator &gen)
     : m_seen(0), m_k(k), m_gen(gen), m_dist(boost::random::uniform_real_distribution<float>(0.0f, 1.0f))
 {
-    assert(k > 0);
 }
 
 namespace
-- 
2.43.0


From 78ebed560c5158d7a1524f72ccfdcf0263b14063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:12:04 +0000
Subject: [PATCH 090/118] fix: ignore requested times in graphs loaded without
 edge timestamps

Neighbor counts, full neighbors and weighted sampling read past the end of an empty list of timestamps.
---
 src/cc/lib/graph/partition.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index b224eb1..6ec277a 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -722,7 +722,7 @@ cspan_it find_last(const std::span<const std::pair<Timestamp, Timestamp>> &range
 size_t Partition::NeighborCount(uint64_t internal_id, std::optional<Timestamp> node_ts,
                                 std::span<const Type> edge_types) const
 {
-    if (!node_ts)
+    if (!node_ts || m_edge_timestamps.empty())
     {
         auto lambda = [](const auto start, const auto last, const auto i) {};
         return NeighborIndexIterator(internal_id, std::move(node_ts), edge_types, std::move(lambda), m_neighbors_index,
@@ -762,7 +762,7 @@ size_t Partition::FullNeighbor(bool return_edge_created_ts, uint64_t internal_id
                                std::vector<Type> &out_edge_types, std::vector<float> &out_edge_weights,
                                std::vector<Timestamp> &out_edge_created_ts) const
 {
-    if (node_ts)
+    if (node_ts && !m_edge_timestamps.empty())
     {
         size_t count = 0;
         auto lambda = [&count, node_ts = node_ts.value(), &ts = m_edge_timestamps, &out_neighbors_ids, &out_edge_types,
@@ -1135,7 +1135,7 @@ void Partition::SampleNeighbor(bool return_edge_created_ts, int64_t seed, uint64
         if (m_edge_types[i] == in_edge_types[curr_type])
         {
             auto lst = m_edge_type_offset[i + 1];
-            if (!node_ts.has_value())
+            if (!node_ts.has_value() || m_edge_timestamps.empty())
             {
                 total_weight += m_edge_weights[lst - 1];
                 continue;
@@ -1216,7 +1216,7 @@ void Partition::SampleNeighbor(bool return_edge_created_ts, int64_t seed, uint64
         {
             auto first = m_edge_type_offset[i];
             auto last = m_edge_type_offset[i + 1] - 1;
-            if (node_ts.has_value())
+            if (node_ts.has_value() && !m_edge_timestamps.empty())
             {
                 ++last;
                 auto timestamp_span = std::span(m_edge_timestamps).subspan(first, last - first);
-- 
2.43.0


From 2a12e7a578c3347a1871cf574ce5e3ad739ffc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:12:04 +0000
Subject: [PATCH 091/118] fix: check stored layout before reading temporal and
 sparse features

A feature of another kind could be requested by mistake. Its bytes were used as sizes and offsets.
---
 src/cc/lib/graph/partition.cc | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index 6ec277a..b368a45 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -36,20 +36,22 @@ std::tuple<uint64_t, uint64_t, Timestamp> deserialize_temporal_feature(uint64_t
                                                                        Timestamp timestamp)
 {
     // There are no time intervals to read for a missing feature.
-    if (stored_size == 0)
+    uint32_t timestamps_size = 0;
+    if (stored_size < sizeof(timestamps_size))
     {
         return std::make_tuple(initial_offset, 0, -1);
     }
 
-    uint32_t timestamps_size = 0;
     auto timestamps_size_output = std::span(reinterpret_cast<uint8_t *>(&timestamps_size), 4);
     storage->read(initial_offset, timestamps_size_output.size(), std::begin(timestamps_size_output), file_ptr);
-    if (timestamps_size == 0)
+    // Features stored without time intervals can not be interpreted as temporal ones.
+    if (timestamps_size == 0 ||
+        sizeof(timestamps_size) + (2 * uint64_t(timestamps_size) + 1) * sizeof(int64_t) > stored_size)
     {
         return std::make_tuple(initial_offset, 0, -1);
     }
 
-    std::vector<int64_t> timestamp_index(2 * timestamps_size + 1);
+    std::vector<int64_t> timestamp_index(2 * size_t(timestamps_size) + 1);
     std::span<uint8_t> timestamp_raw(reinterpret_cast<uint8_t *>(timestamp_index.data()),
                                      timestamp_index.size() * sizeof(int64_t));
     storage->read(initial_offset + 4, timestamp_raw.size(), std::begin(timestamp_raw), file_ptr);
@@ -73,6 +75,11 @@ std::tuple<uint64_t, uint64_t, Timestamp> deserialize_temporal_feature(uint64_t
     }
 
     auto offset = last_timestamp + (time_pos - std::begin(timestamp_index));
+    if (*offset < 0 || *(offset + 1) < *offset || uint64_t(*(offset + 1)) > stored_size)
+    {
+        return std::make_tuple(initial_offset, 0, -1);
+    }
+
     return std::make_tuple(initial_offset + *offset, *(offset + 1) - *offset, *time_pos);
 }
 
@@ -113,9 +120,16 @@ void deserialize_sparse_features(uint64_t data_offset, uint64_t stored_size,
     uint32_t indices_dim = 0;
     auto indices_dim_output = std::span(reinterpret_cast<uint8_t *>(&indices_dim), 4);
     storage->read(data_offset + 4, indices_dim_output.size(), std::begin(indices_dim_output), file_ptr);
-    out_dimension = int64_t(indices_dim);
 
-    assert(indices_size % indices_dim == 0);
+    // Features of other kinds can be requested by mistake.
+    if (indices_dim == 0 || indices_size % indices_dim != 0 || 8 + uint64_t(indices_size) * 8 > stored_size)
+    {
+        auto feature_string = std::to_string(feature);
+        logger->log_warning("Invalid feature request: feature %s is not sparse", feature_string.c_str());
+        return;
+    }
+
+    out_dimension = int64_t(indices_dim);
     size_t num_values = indices_size / indices_dim;
     const auto old_len = out_indices.size();
     out_indices.resize(old_len + indices_size + num_values, prefix);
-- 
2.43.0


From 2aadc79e764c53c7a98f4c7e7d86534c9133df34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:12:04 +0000
Subject: [PATCH 092/118] fix: return -1 for nodes and edges a sampler can not
 provide

Samplers without replacement and samplers of items with zero weights returned uninitialized memory.
---
 src/cc/lib/distributed/graph_sampler.cc         |  6 +++---
 src/python/deepgnn/graph_engine/snark/client.py | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/cc/lib/distributed/graph_sampler.cc b/src/cc/lib/distributed/graph_sampler.cc
index 5cc2629..c52ca0c 100644
--- a/src/cc/lib/distributed/graph_sampler.cc
+++ b/src/cc/lib/distributed/graph_sampler.cc
@@ -89,10 +89,10 @@ grpc::Status GraphSamplerServiceImpl::Sample(::grpc::ServerContext *context, con
     }
 
     const auto count = request->count();
-    response->mutable_types()->Resize(count, {});
+    response->mutable_types()->Resize(count, -1);
     if (request->is_edge())
     {
-        response->mutable_node_ids()->Resize(2 * count, {});
+        response->mutable_node_ids()->Resize(2 * count, -1);
         auto src = response->mutable_node_ids()->mutable_data();
         auto tp = response->mutable_types()->mutable_data();
         auto dst = src + count;
@@ -100,7 +100,7 @@ grpc::Status GraphSamplerServiceImpl::Sample(::grpc::ServerContext *context, con
     }
     else
     {
-        response->mutable_node_ids()->Resize(count, {});
+        response->mutable_node_ids()->Resize(count, -1);
         auto out = response->mutable_node_ids()->mutable_data();
         auto tp = response->mutable_types()->mutable_data();
         sampler->Sample(request->seed(), std::span(tp, count), std::span(out, count));
diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index d35a3ba..a91df19 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -1542,8 +1542,8 @@ class NodeSampler:
         Returns:
             Tuple[np.ndarray, np.ndarray]: a tuple of nodes and their corresponding types.
         """
-        result_nodes = np.empty(size, dtype=np.int64)
-        result_types = np.empty(size, dtype=np.int32)
+        result_nodes = np.full(size, -1, dtype=np.int64)
+        result_types = np.full(size, -1, dtype=np.int32)
 
         self.graph._retryer(
             self.lib.SampleNodes,
@@ -1660,9 +1660,9 @@ class EdgeSampler:
         Returns:
             Tuple[np.ndarray, np.ndarray]: a tuple of source, destination nodes for edges and their corresponding types.
         """
-        result_src = np.empty(size, dtype=np.int64)
-        result_dst = np.empty(size, dtype=np.int64)
-        result_types = np.empty(size, dtype=np.int32)
+        result_src = np.full(size, -1, dtype=np.int64)
+        result_dst = np.full(size, -1, dtype=np.int64)
+        result_types = np.full(size, -1, dtype=np.int32)
 
         self.graph._retryer(
             self.lib.SampleEdges,
-- 
2.43.0


From 0f4b6f426de221bf6d59657849900ce36d7382b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:12:04 +0000
Subject: [PATCH 093/118] fix: refuse tables of nodes and timestamps of unequal
 length

Output buffers are allocated for a flat list of nodes. Other shapes and short lists of timestamps made native code access memory outside of them.
---
 .../deepgnn/graph_engine/snark/client.py      | 138 ++++++------------
 1 file changed, 43 insertions(+), 95 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index a91df19..aaa5af9 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -145,6 +145,9 @@ class _SparseFeatureCallback:
         self.dtype = dtype
 
     def __call__(self, indices, indices_len, values, values_len, dimensions):
+        if self.feature_len == 0:
+            return
+
         self.dimensions = np.copy(np.ctypeslib.as_array(dimensions, [self.feature_len]))
         for i in range(self.feature_len):
             if indices_len[i] == 0:
@@ -203,6 +206,21 @@ def _make_sorted_list(input: Union[int, List[int]]) -> List[int]:
     return sorted(list(set(input)))
 
 
+def _make_node_list(nodes: Union[np.ndarray, List[int]]) -> np.ndarray:
+    nodes = np.array(nodes, dtype=np.int64)
+    # Outputs are allocated for every element of the first dimension.
+    assert len(nodes) == nodes.size, "Expected one dimensional list of nodes"
+    return nodes
+
+
+def _make_timestamps(timestamps: Optional[Union[np.ndarray, List[int]]], size: int):
+    if timestamps is None or len(timestamps) == 0:
+        return None
+    timestamps = np.array(timestamps, dtype=np.int64)
+    assert timestamps.size == size, "Expected a timestamp for every item"
+    return timestamps.ctypes.data_as(POINTER(c_int64))
+
+
 class MemoryGraph:
     """Graph stored fully in memory."""
 
@@ -558,9 +576,10 @@ class MemoryGraph:
         Returns:
             np.array: Features values ordered by node ids first and then by feature ids
         """
-        nodes = np.array(nodes, dtype=np.int64)
+        nodes = _make_node_list(nodes)
         features = np.array(features, dtype=np.int32)
         assert features.shape[1] == 2
+        assert np.all(features[:, 1] >= 0)
 
         result = np.zeros((len(nodes), features[:, 1].sum()), dtype=dtype)
         features_in_bytes = features.copy()
@@ -571,13 +590,7 @@ class MemoryGraph:
             self.g_,
             nodes.ctypes.data_as(POINTER(c_int64)),
             c_size_t(len(nodes)),
-            (
-                None
-                if timestamps is None or len(timestamps) == 0
-                else np.array(timestamps, dtype=np.int64).ctypes.data_as(
-                    POINTER(c_int64)
-                )
-            ),
+            _make_timestamps(timestamps, len(nodes)),
             features_in_bytes.ctypes.data_as(POINTER(c_int32)),
             c_size_t(len(features)),
             result.ctypes.data_as(POINTER(c_uint8)),
@@ -606,7 +619,7 @@ class MemoryGraph:
             List[np.ndarray]: List of numpy arrays of sparse features values. List items ordered by feature ids passed as input.
             np.array: dimensions of returned sparse features.
         """
-        nodes = np.array(nodes, dtype=np.int64)
+        nodes = _make_node_list(nodes)
         features = np.array(features, dtype=np.int32)
         assert len(features.shape) == 1
 
@@ -617,13 +630,7 @@ class MemoryGraph:
             self.g_,
             nodes.ctypes.data_as(POINTER(c_int64)),
             c_size_t(len(nodes)),
-            (
-                None
-                if timestamps is None or len(timestamps) == 0
-                else np.array(timestamps, dtype=np.int64).ctypes.data_as(
-                    POINTER(c_int64)
-                )
-            ),
+            _make_timestamps(timestamps, len(nodes)),
             features.ctypes.data_as(POINTER(c_int32)),
             c_size_t(len(features)),
             _SPARSE_FEATURE_CALLBACKFUNC(py_cb),
@@ -649,7 +656,7 @@ class MemoryGraph:
             np.array: feature values
             np.array: dimensions of returned features (#nodes, #features)
         """
-        nodes = np.array(nodes, dtype=np.int64)
+        nodes = _make_node_list(nodes)
         features = np.array(features, dtype=np.int32)
         assert len(features.shape) == 1
         dimensions = np.zeros((nodes.size, features.size), dtype=np.int64)
@@ -660,13 +667,7 @@ class MemoryGraph:
             self.g_,
             nodes.ctypes.data_as(POINTER(c_int64)),
             c_size_t(len(nodes)),
-            (
-                None
-                if timestamps is None or len(timestamps) == 0
-                else np.array(timestamps, dtype=np.int64).ctypes.data_as(
-                    POINTER(c_int64)
-                )
-            ),
+            _make_timestamps(timestamps, len(nodes)),
             features.ctypes.data_as(POINTER(c_int32)),
             c_size_t(len(features)),
             dimensions.ctypes.data_as(POINTER(c_int64)),
@@ -705,6 +706,7 @@ class MemoryGraph:
         edge_tp = np.array(edge_tp, dtype=np.int32)
         features = np.array(features, dtype=np.int32)
         assert features.shape[1] == 2
+        assert np.all(features[:, 1] >= 0)
 
         result = np.zeros((len(edge_src), features[:, 1].sum()), dtype=dtype)
         features_in_bytes = features.copy()
@@ -717,13 +719,7 @@ class MemoryGraph:
             edge_dst.ctypes.data_as(POINTER(c_int64)),
             edge_tp.ctypes.data_as(POINTER(c_int32)),
             c_size_t(len(edge_src)),
-            (
-                None
-                if timestamps is None or len(timestamps) == 0
-                else np.array(timestamps, dtype=np.int64).ctypes.data_as(
-                    POINTER(c_int64)
-                )
-            ),
+            _make_timestamps(timestamps, len(edge_src)),
             features_in_bytes.ctypes.data_as(POINTER(c_int32)),
             c_size_t(len(features)),
             result.ctypes.data_as(POINTER(c_uint8)),
@@ -773,13 +769,7 @@ class MemoryGraph:
             edge_dst.ctypes.data_as(POINTER(c_int64)),
             edge_tp.ctypes.data_as(POINTER(c_int32)),
             c_size_t(len(edge_src)),
-            (
-                None
-                if timestamps is None or len(timestamps) == 0
-                else np.array(timestamps, dtype=np.int64).ctypes.data_as(
-                    POINTER(c_int64)
-                )
-            ),
+            _make_timestamps(timestamps, len(edge_src)),
             features.ctypes.data_as(POINTER(c_int32)),
             c_size_t(len(features)),
             _SPARSE_FEATURE_CALLBACKFUNC(py_cb),
@@ -829,13 +819,7 @@ class MemoryGraph:
             edge_dst.ctypes.data_as(POINTER(c_int64)),
             edge_tp.ctypes.data_as(POINTER(c_int32)),
             c_size_t(len(edge_src)),
-            (
-                None
-                if timestamps is None or len(timestamps) == 0
-                else np.array(timestamps, dtype=np.int64).ctypes.data_as(
-                    POINTER(c_int64)
-                )
-            ),
+            _make_timestamps(timestamps, len(edge_src)),
             features.ctypes.data_as(POINTER(c_int32)),
             c_size_t(len(features)),
             dimensions.ctypes.data_as(POINTER(c_int64)),
@@ -860,7 +844,7 @@ class MemoryGraph:
         Returns:
             np.ndarray: neighbor count
         """
-        nodes = np.array(nodes, dtype=np.int64)
+        nodes = _make_node_list(nodes)
         edge_types = _make_sorted_list(edge_types)
         TypeArray = c_int32 * len(edge_types)
         etypes_arr = TypeArray(*edge_types)
@@ -871,13 +855,7 @@ class MemoryGraph:
             self.g_,
             nodes.ctypes.data_as(POINTER(c_int64)),
             nodes.size,
-            (
-                None
-                if timestamps is None or len(timestamps) == 0
-                else np.array(timestamps, dtype=np.int64).ctypes.data_as(
-                    POINTER(c_int64)
-                )
-            ),
+            _make_timestamps(timestamps, len(nodes)),
             etypes_arr,
             len(edge_types),
             counts.ctypes.data_as(POINTER(c_uint64)),
@@ -911,7 +889,7 @@ class MemoryGraph:
         -- neighbor counts per node, with the shape [len(nodes)].
         -- timestamp when edge was created if return_edge_created_ts is set to True.
         """
-        nodes = np.array(nodes, dtype=np.int64)
+        nodes = _make_node_list(nodes)
         edge_types = _make_sorted_list(edge_types)
         TypeArray = c_int32 * len(edge_types)
         etypes_arr = TypeArray(*edge_types)
@@ -925,13 +903,7 @@ class MemoryGraph:
             c_bool(return_edge_created_ts),
             nodes.ctypes.data_as(POINTER(c_int64)),
             nodes.size,
-            (
-                None
-                if timestamps is None or len(timestamps) == 0
-                else np.array(timestamps, dtype=np.int64).ctypes.data_as(
-                    POINTER(c_int64)
-                )
-            ),
+            _make_timestamps(timestamps, len(nodes)),
             etypes_arr,
             len(edge_types),
             result_counts.ctypes.data_as(POINTER(c_uint64)),
@@ -979,7 +951,7 @@ class MemoryGraph:
             Tuple[np.ndarray, np.ndarray, np.ndarray]: a tuple of neighbor nodes, weights, and edge types. If return_edge_created_ts specified,
             then this tuple will have a fourth element, list of timestamps when edges were created.
         """
-        nodes = np.array(nodes, dtype=np.int64)
+        nodes = _make_node_list(nodes)
         edge_types = _make_sorted_list(edge_types)
         TypeArray = c_int32 * len(edge_types)
         etypes_arr = TypeArray(*edge_types)
@@ -1002,13 +974,7 @@ class MemoryGraph:
             c_size_t(nodes.size),
             etypes_arr,
             c_size_t(len(edge_types)),
-            (
-                None
-                if timestamps is None or len(timestamps) == 0
-                else np.array(timestamps, dtype=np.int64).ctypes.data_as(
-                    POINTER(c_int64)
-                )
-            ),
+            _make_timestamps(timestamps, len(nodes)),
             c_size_t(count),
             result_nodes.ctypes.data_as(POINTER(c_int64)),
             result_types.ctypes.data_as(POINTER(c_int32)),
@@ -1058,7 +1024,7 @@ class MemoryGraph:
             Tuple[np.ndarray, np.ndarray, np.ndarray]: a tuple of neighbor nodes, edge types. If return_edge_created_ts specified,
             then this tuple will have a third element list of timestamps when edges were created.
         """
-        nodes = np.array(nodes, dtype=np.int64)
+        nodes = _make_node_list(nodes)
         edge_types = _make_sorted_list(edge_types)
 
         TypeArray = c_int32 * len(edge_types)
@@ -1082,13 +1048,7 @@ class MemoryGraph:
             c_size_t(nodes.size),
             etypes_arr,
             c_size_t(len(edge_types)),
-            (
-                None
-                if timestamps is None or len(timestamps) == 0
-                else np.array(timestamps, dtype=np.int64).ctypes.data_as(
-                    POINTER(c_int64)
-                )
-            ),
+            _make_timestamps(timestamps, len(nodes)),
             c_size_t(count),
             result_nodes.ctypes.data_as(POINTER(c_int64)),
             result_types.ctypes.data_as(POINTER(c_int32)),
@@ -1133,7 +1093,7 @@ class MemoryGraph:
         Returns:
             Tuple[np.ndarray, np.ndarray]: a tuple of neighbor nodes, corresponding PR weights.
         """
-        nodes = np.array(nodes, dtype=np.int64)
+        nodes = _make_node_list(nodes)
         edge_types = _make_sorted_list(edge_types)
         TypeArray = c_int32 * len(edge_types)
         etypes_arr = TypeArray(*edge_types)
@@ -1144,13 +1104,7 @@ class MemoryGraph:
             self.g_,
             nodes.ctypes.data_as(POINTER(c_int64)),
             c_size_t(nodes.size),
-            (
-                None
-                if timestamps is None or len(timestamps) == 0
-                else np.array(timestamps, dtype=np.int64).ctypes.data_as(
-                    POINTER(c_int64)
-                )
-            ),
+            _make_timestamps(timestamps, len(nodes)),
             etypes_arr,
             c_size_t(len(edge_types)),
             c_size_t(count),
@@ -1197,7 +1151,7 @@ class MemoryGraph:
             array with timestamps when corresponding edge was created.
         """
         assert self.meta.watermark >= 0
-        nodes = np.array(nodes, dtype=np.int64)
+        nodes = _make_node_list(nodes)
         timestamps = np.array(timestamps, dtype=np.int64)
         assert len(nodes) == len(timestamps)
         edge_types = _make_sorted_list(edge_types)
@@ -1286,7 +1240,7 @@ class MemoryGraph:
         timestamps: timestamps corresponding to starting nodes
         Returns starting and neighbor nodes visited during the walk
         """
-        node_ids = np.array(node_ids, dtype=np.int64)
+        node_ids = _make_node_list(node_ids)
         edge_types = _make_sorted_list(edge_types)
 
         TypeArray = c_int32 * len(edge_types)
@@ -1302,13 +1256,7 @@ class MemoryGraph:
             c_int64(default_node),
             node_ids.ctypes.data_as(POINTER(c_int64)),
             c_size_t(node_ids.size),
-            (
-                None
-                if timestamps is None or len(timestamps) == 0
-                else np.array(timestamps, dtype=np.int64).ctypes.data_as(
-                    POINTER(c_int64)
-                )
-            ),
+            _make_timestamps(timestamps, len(node_ids)),
             etypes_arr,
             c_size_t(len(edge_types)),
             c_size_t(walk_len),
@@ -1331,7 +1279,7 @@ class MemoryGraph:
         Returns:
             np.array: types of the input nodes
         """
-        nodes = np.array(nodes, dtype=np.int64)
+        nodes = _make_node_list(nodes)
         result = np.empty(len(nodes), dtype=np.int32)
 
         self._retryer(
-- 
2.43.0


From 0cdc8d242ebdb706b09f048334f7db48b377adb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:25:48 +0000
Subject: [PATCH 094/118] fix: read features past 2 GiB from disk storage

---
 src/cc/lib/graph/locator.cc | 2 +-
 src/cc/lib/graph/locator.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/graph/locator.cc b/src/cc/lib/graph/locator.cc
index f2af236..d5b5538 100644
--- a/src/cc/lib/graph/locator.cc
+++ b/src/cc/lib/graph/locator.cc
@@ -84,7 +84,7 @@ FILE *open_node_alias(std::filesystem::path path, size_t partition, Type type, s
                      std::move(logger));
 }
 
-void platform_fseek(FILE *f, int offset, int origin)
+void platform_fseek(FILE *f, int64_t offset, int origin)
 {
     // To work with large files on windows we need 64bit versions of fseek/ftell
 #ifdef SNARK_PLATFORM_WINDOWS
diff --git a/src/cc/lib/graph/locator.h b/src/cc/lib/graph/locator.h
index 51565c0..1a6f5fd 100644
--- a/src/cc/lib/graph/locator.h
+++ b/src/cc/lib/graph/locator.h
@@ -31,7 +31,7 @@ FILE *open_edge_alias(std::filesystem::path path, size_t partition, Type type,
 FILE *open_node_alias(std::filesystem::path path, size_t partition, Type type,
                       std::shared_ptr<Logger> logger = nullptr);
 
-void platform_fseek(FILE *f, int offset, int origin);
+void platform_fseek(FILE *f, int64_t offset, int origin);
 size_t platform_ftell(FILE *f);
 }; // namespace snark
 
-- 
2.43.0


From 97febe3a16f1ae22a36cda65c1600f19553b0880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:30:29 +0000
Subject: [PATCH 095/118] fix: accept false as a value of the converter's skip
 flags

---
 src/python/deepgnn/graph_engine/snark/convert.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/convert.py b/src/python/deepgnn/graph_engine/snark/convert.py
index aee6501..81866ff 100755
--- a/src/python/deepgnn/graph_engine/snark/convert.py
+++ b/src/python/deepgnn/graph_engine/snark/convert.py
@@ -209,6 +209,7 @@ if __name__ == "__main__":
     # import here for special usage of the module.
     import argparse
     import deepgnn.graph_engine.snark.decoders as decoders
+    from deepgnn.arg_types import str2bool
 
     parser = argparse.ArgumentParser(
         description="Convert graph from euler json format to the deepgnn binary."
@@ -235,13 +236,13 @@ if __name__ == "__main__":
     )
     parser.add_argument(
         "--skip_node_sampler",
-        type=bool,
+        type=str2bool,
         default=False,
         help="Skip generation of node alias tables for node sampling",
     )
     parser.add_argument(
         "--skip_edge_sampler",
-        type=bool,
+        type=str2bool,
         default=False,
         help="Skip generation of edge alias tables for edge sampling",
     )
-- 
2.43.0


From e629e069215f27e89dea7e1e6f8ab67461cf1219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:01:04 +0000
Subject: [PATCH 096/118] fix: keep interrupted saves from leaving a broken
 newest checkpoint

---
 src/python/deepgnn/pytorch/training/trainer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/pytorch/training/trainer.py b/src/python/deepgnn/pytorch/training/trainer.py
index 61943bc..4de3bd5 100644
--- a/src/python/deepgnn/pytorch/training/trainer.py
+++ b/src/python/deepgnn/pytorch/training/trainer.py
@@ -450,7 +450,12 @@ class Trainer:
         }
         if hasattr(self.model, "init_parameters"):
             output.update({"init_parameters": self.model.init_parameters})
-        torch.save(output, save_path)
+        # Checkpoints appear under their final name only when they are complete.
+        temp_path = os.path.join(
+            self.args.save_path, f".{os.path.basename(save_path)}.tmp"
+        )
+        torch.save(output, temp_path)
+        os.replace(temp_path, save_path)
         self.logger.info(self._wrap_log(f"Saved checkpoint to {save_path}."))
         rotate_checkpoints(self.args.save_path, self.args.max_saved_ckpts)
 
-- 
2.43.0


From 1865023a8a8e8e450d200af529d160991db69a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:01:04 +0000
Subject: [PATCH 097/118] fix: order checkpoints by number after epoch 999 or
 step 999999

---
 src/python/deepgnn/pytorch/common/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/pytorch/common/utils.py b/src/python/deepgnn/pytorch/common/utils.py
index 5d77340..9f2866c 100644
--- a/src/python/deepgnn/pytorch/common/utils.py
+++ b/src/python/deepgnn/pytorch/common/utils.py
@@ -131,17 +131,19 @@ def get_sorted_checkpoints(
     model_dir: str, perfix: str = PREFIX_CHECKPOINT, sort_ckpt_by_mtime: bool = False
 ) -> List[str]:
     """Return model checkpoints."""
-    ordering_and_checkpoint_path = []
+    ordering_and_checkpoint_path: List[Tuple[List[float], str]] = []
 
     glob_checkpoints = [str(x) for x in Path(model_dir).glob(f"{perfix}-*")]
 
     for path in glob_checkpoints:
         if sort_ckpt_by_mtime:
-            ordering_and_checkpoint_path.append((str(os.path.getmtime(path)), path))
+            ordering_and_checkpoint_path.append(([os.path.getmtime(path)], path))
         else:
             regex_match = re.match(f".*{perfix}-([0-9\\-]+)", path)
             if regex_match and regex_match.groups():
-                ordering_and_checkpoint_path.append((regex_match.groups()[0], path))
+                # Numbers can be longer than their padding in file names.
+                numbers = [float(n) for n in regex_match.groups()[0].split("-") if n]
+                ordering_and_checkpoint_path.append((numbers, path))
 
     return [checkpoint[1] for checkpoint in sorted(ordering_and_checkpoint_path)]
 
-- 
2.43.0


From d3f6fdb697fb0ebb1c55b5908738a76e10d42793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:01:04 +0000
Subject: [PATCH 098/118] fix: respect sort_ckpt_by_mtime when loading and
 rotating checkpoints

---
 src/python/deepgnn/pytorch/training/trainer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/pytorch/training/trainer.py b/src/python/deepgnn/pytorch/training/trainer.py
index 4de3bd5..4ce5660 100644
--- a/src/python/deepgnn/pytorch/training/trainer.py
+++ b/src/python/deepgnn/pytorch/training/trainer.py
@@ -457,12 +457,18 @@ class Trainer:
         torch.save(output, temp_path)
         os.replace(temp_path, save_path)
         self.logger.info(self._wrap_log(f"Saved checkpoint to {save_path}."))
-        rotate_checkpoints(self.args.save_path, self.args.max_saved_ckpts)
+        rotate_checkpoints(
+            self.args.save_path,
+            self.args.max_saved_ckpts,
+            sort_ckpt_by_mtime=self.args.sort_ckpt_by_mtime,
+        )
 
     def _load_checkpoint(self, ckpt_path: Optional[str] = None):
         if not ckpt_path:
             # Search and sort checkpoints from model path.
-            ckpts = get_sorted_checkpoints(self.args.model_dir)
+            ckpts = get_sorted_checkpoints(
+                self.args.model_dir, sort_ckpt_by_mtime=self.args.sort_ckpt_by_mtime
+            )
             ckpt_path = ckpts[-1] if len(ckpts) > 0 else None
 
         if ckpt_path is not None:
-- 
2.43.0


From d08f5ca8f6a27038d382a80e6ba2bb264f4a1d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:01:04 +0000
Subject: [PATCH 099/118] fix: evaluate all data at the last training step of
 an epoch

---
 src/python/deepgnn/pytorch/training/trainer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/pytorch/training/trainer.py b/src/python/deepgnn/pytorch/training/trainer.py
index 4ce5660..89788bc 100644
--- a/src/python/deepgnn/pytorch/training/trainer.py
+++ b/src/python/deepgnn/pytorch/training/trainer.py
@@ -315,7 +315,8 @@ class Trainer:
                     preds.append(pred.detach().cpu())
                     labels.append(label.detach().cpu())
 
-                if self._should_stop():
+                # Steps of training do not limit evaluation during training.
+                if self.args.mode != TrainMode.TRAIN and self._should_stop():
                     break
 
         if self.args.use_per_step_metrics:
-- 
2.43.0


From b1409cac58e2675a04562fa245115d4141383d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:09 +0000
Subject: [PATCH 100/118] fix: merge node features stored in several partitions

A node can have records with different features in several partitions.
An empty dense feature of the first record hid the one of another record.
String features were returned in the order of partitions.
Older versions of sparse features were mixed with newer ones.
---
 src/cc/lib/graph/partition.cc | 45 ++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index b368a45..9b0c423 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -515,6 +515,13 @@ void Partition::GetNodeFeature(uint64_t internal_id, std::optional<Timestamp> no
         Timestamp feature_ts = 0;
         auto data_offset = m_node_feature_index[feature_index_offset + feature_id];
         auto stored_size = m_node_feature_index[feature_index_offset + feature_id + 1] - data_offset;
+        // Feature is empty here, other partitions might have it.
+        if (stored_size == 0)
+        {
+            curr += feature_size;
+            continue;
+        }
+
         if (node_ts.has_value())
         {
             std::tie(data_offset, stored_size, feature_ts) =
@@ -588,13 +595,21 @@ void Partition::GetNodeSparseFeature(uint64_t internal_node_id, std::optional<Ti
             continue;
         }
 
-        // Overwrite old string features.
+        // Overwrite old features: all coordinates of this node are in the end of the list.
         if (feature_flags[feature_index] >= 0)
         {
-            const auto new_indices_size = out_indices[feature_index].size() - out_dimensions[feature_index] - 1;
-            out_indices[feature_index].resize(new_indices_size);
-            const auto new_values_size = out_values[feature_index].size() - values_sizes[feature_index];
-            out_values[feature_index].resize(new_values_size);
+            auto &indices = out_indices[feature_index];
+            const size_t row_size = out_dimensions[feature_index] + 1;
+            const auto old_size = indices.size();
+            while (indices.size() >= row_size && indices[indices.size() - row_size] == prefix)
+            {
+                indices.resize(indices.size() - row_size);
+            }
+            if (indices.size() < old_size)
+            {
+                const auto new_values_size = out_values[feature_index].size() - values_sizes[feature_index];
+                out_values[feature_index].resize(new_values_size);
+            }
         }
 
         feature_flags[feature_index] = feature_ts;
@@ -618,8 +633,20 @@ void Partition::GetNodeStringFeature(uint64_t internal_node_id, std::optional<Ti
     auto file_ptr = m_node_features->start();
     auto feature_index_offset = m_node_index[internal_node_id];
     auto next_offset = m_node_index[internal_node_id + 1];
+
+    // Partitions can hold features of a node in any order, but values must be ordered as in the request.
+    // Track size of the values already stored for the current and following features.
+    size_t tail_size = 0;
+    for (size_t feature_index = 0; feature_index < features.size(); ++feature_index)
+    {
+        tail_size += feature_flags[feature_index] >= 0 ? out_dimensions[feature_index] : 0;
+    }
+
     for (size_t feature_index = 0; feature_index < features.size(); ++feature_index)
     {
+        const size_t old_size = feature_flags[feature_index] >= 0 ? out_dimensions[feature_index] : 0;
+        const size_t start = out_values.size() - tail_size;
+        tail_size -= old_size;
         if ((!node_ts.has_value() && feature_flags[feature_index] >= 0) ||
             (node_ts.has_value() && feature_flags[feature_index] == node_ts.value()))
         {
@@ -657,15 +684,11 @@ void Partition::GetNodeStringFeature(uint64_t internal_node_id, std::optional<Ti
         }
 
         // Overwrite old string features.
-        if (feature_flags[feature_index] >= 0)
-        {
-            const auto new_size = out_values.size() - out_dimensions[feature_index];
-            out_values.resize(new_size);
-        }
-
+        out_values.erase(std::begin(out_values) + start, std::begin(out_values) + start + old_size);
         feature_flags[feature_index] = feature_ts;
         deserialize_string_features(data_offset, stored_size, m_node_features, file_ptr, out_dimensions[feature_index],
                                     out_values);
+        std::rotate(std::begin(out_values) + start, std::end(out_values) - stored_size, std::end(out_values));
     }
 }
 
-- 
2.43.0


From a9a095bb0a310634c0178e3c8a827d8031b13659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:09 +0000
Subject: [PATCH 101/118] fix: keep newest versions of sparse and string
 features from several servers

The version that was returned depended on the order of replies.
Timestamps of string features in replies now match their dimensions.
---
 src/cc/lib/distributed/graph_engine.cc | 25 +++++-----------
 src/cc/lib/graph/merger.h              | 40 +++++++++++---------------
 2 files changed, 23 insertions(+), 42 deletions(-)

diff --git a/src/cc/lib/distributed/graph_engine.cc b/src/cc/lib/distributed/graph_engine.cc
index be35118..4436d0a 100644
--- a/src/cc/lib/distributed/graph_engine.cc
+++ b/src/cc/lib/distributed/graph_engine.cc
@@ -337,7 +337,8 @@ grpc::Status GraphEngineServiceImpl::GetNodeStringFeatures(::grpc::ServerContext
     reply_dimensions->Resize(int(features_size * nodes_size), 0);
     auto dimensions = std::span(reply_dimensions->mutable_data(), reply_dimensions->size());
     std::vector<uint8_t> values;
-    absl::InlinedVector<Timestamp, 1024> feature_flags(features.size());
+    response->mutable_timestamps()->Resize(int(features_size * nodes_size), -1);
+    auto feature_flags = std::span(response->mutable_timestamps()->mutable_data(), response->timestamps().size());
 
     for (int node_offset = 0; node_offset < request->node_ids().size(); ++node_offset)
     {
@@ -351,20 +352,13 @@ grpc::Status GraphEngineServiceImpl::GetNodeStringFeatures(::grpc::ServerContext
 
         auto index = internal_id->second;
         const size_t partition_count = m_counts[index];
-        std::fill(std::begin(feature_flags), std::end(feature_flags), -1);
         for (size_t partition = 0; partition < partition_count; ++partition, ++index)
         {
             m_partitions[m_partitions_indices[index]].GetNodeStringFeature(
                 m_internal_indices[index],
                 request->timestamps().empty() ? std::nullopt
                                               : std::optional<snark::Timestamp>(request->timestamps(node_offset)),
-                features, std::span(feature_flags), dims_span, values);
-        }
-
-        if (std::any_of(std::begin(feature_flags), std::end(feature_flags),
-                        [](snark::Timestamp ts) { return ts >= 0; }))
-        {
-            response->mutable_timestamps()->Add(std::begin(feature_flags), std::end(feature_flags));
+                features, feature_flags.subspan(features_size * node_offset, features_size), dims_span, values);
         }
     }
 
@@ -387,7 +381,8 @@ grpc::Status GraphEngineServiceImpl::GetEdgeStringFeatures(::grpc::ServerContext
     reply_dimensions->Resize(int(features_size * len), 0);
     auto dimensions = std::span(reply_dimensions->mutable_data(), reply_dimensions->size());
     std::vector<uint8_t> values;
-    absl::InlinedVector<Timestamp, 1024> feature_flags(features.size());
+    response->mutable_timestamps()->Resize(int(features_size * len), -1);
+    auto feature_flags = std::span(response->mutable_timestamps()->mutable_data(), response->timestamps().size());
 
     for (size_t edge_offset = 0; edge_offset < len; ++edge_offset)
     {
@@ -399,20 +394,14 @@ grpc::Status GraphEngineServiceImpl::GetEdgeStringFeatures(::grpc::ServerContext
 
         auto index = internal_id->second;
         const size_t partition_count = m_counts[index];
-        std::fill(std::begin(feature_flags), std::end(feature_flags), -1);
         for (size_t partition = 0; partition < partition_count; ++partition, ++index)
         {
             m_partitions[m_partitions_indices[index]].GetEdgeStringFeature(
                 m_internal_indices[index], request->node_ids()[len + edge_offset], request->types()[edge_offset],
                 request->timestamps().empty() ? std::nullopt
                                               : std::optional<snark::Timestamp>(request->timestamps(edge_offset)),
-                features, std::span(feature_flags), dimensions.subspan(features_size * edge_offset, features_size),
-                values);
-        }
-        if (std::any_of(std::begin(feature_flags), std::end(feature_flags),
-                        [](snark::Timestamp ts) { return ts >= 0; }))
-        {
-            response->mutable_timestamps()->Add(std::begin(feature_flags), std::end(feature_flags));
+                features, feature_flags.subspan(features_size * edge_offset, features_size),
+                dimensions.subspan(features_size * edge_offset, features_size), values);
         }
     }
 
diff --git a/src/cc/lib/graph/merger.h b/src/cc/lib/graph/merger.h
index 08661a0..59de51e 100644
--- a/src/cc/lib/graph/merger.h
+++ b/src/cc/lib/graph/merger.h
@@ -114,17 +114,21 @@ void UpdateSparseFeatureIndex(SparseFeaturesReply &reply, std::vector<snark::Spa
         {
             const auto item_index = reply.indices(node_offset);
             auto &response_index_item = response_index[item_index * feature_count + feature_index];
-            if (reply.timestamps(item_index * feature_count + feature_index) <= response_index_item.timestamp ||
-                (response_index_item.shard >= 0 && response_index_item.shard != int(shard)))
+            if (response_index_item.shard != int(shard))
             {
-                continue;
-            }
+                // Pick latest value across all shards.
+                const auto timestamp = reply.timestamps(item_index * feature_count + feature_index);
+                if (timestamp <= response_index_item.timestamp)
+                {
+                    continue;
+                }
 
-            if (response_index_item.index_count == 0)
-            {
-                response_index_item.shard = shard;
-                response_index_item.index_offset = node_offset;
-                response_index_item.value_offset = value_offset;
+                response_index_item = {.shard = int(shard),
+                                       .index_offset = int(node_offset),
+                                       .index_count = 0,
+                                       .value_offset = int(value_offset),
+                                       .value_count = 0,
+                                       .timestamp = timestamp};
             }
             response_index_item.index_count += feature_dim;
             response_index_item.value_count += value_increment;
@@ -137,25 +141,13 @@ void UpdateStringFeatureIndex(StringFeaturesReply &reply, std::mutex &mtx,
                               std::vector<std::tuple<size_t, size_t, snark::Timestamp>> &response_index, size_t shard,
                               std::span<int64_t> out_dimensions)
 {
-    if (reply.values().empty())
-    {
-        return;
-    }
-
     int64_t value_offset = 0;
-    int64_t ts_index = 0;
+    std::lock_guard lock(mtx);
     for (int64_t feature_index = 0; feature_index < reply.dimensions().size(); ++feature_index)
     {
         const auto dim = reply.dimensions(feature_index);
-        if (dim == 0)
-        {
-            continue;
-        }
-
-        std::lock_guard lock(mtx);
-        const auto ts = reply.timestamps(ts_index);
-        ++ts_index;
-        if (std::get<2>(response_index[feature_index]) <= ts)
+        const auto ts = reply.timestamps(feature_index);
+        if (ts >= 0 && std::get<2>(response_index[feature_index]) <= ts)
         {
             response_index[feature_index] = {shard, value_offset, ts};
             out_dimensions[feature_index] = dim;
-- 
2.43.0


From 0e0d454a0bfa025d4101f934c5ee3d78d41c260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:09 +0000
Subject: [PATCH 102/118] fix: support different neighbor counts in layers of
 SageEncoder

Neighbors of neighbors were grouped by the count of the wrong layer.
---
 src/python/deepgnn/pytorch/encoding/gnn_encoder_sage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/pytorch/encoding/gnn_encoder_sage.py b/src/python/deepgnn/pytorch/encoding/gnn_encoder_sage.py
index 9a97f59..971f382 100644
--- a/src/python/deepgnn/pytorch/encoding/gnn_encoder_sage.py
+++ b/src/python/deepgnn/pytorch/encoding/gnn_encoder_sage.py
@@ -101,9 +101,10 @@ class SageEncoder(nn.Module):
         )  # type: ignore
 
         if isinstance(neigh_feats_unique, dict):
+            # Number of neighbors depends on the encoder behind query_func.
             neigh_feats_unique["neighbor_feats"] = neigh_feats_unique[
                 "neighbor_feats"
-            ].reshape((-1, self.num_sample, feature_dim))
+            ].reshape((neigh_nodes_unique.size, -1, feature_dim))
             context["neighbor_feats"] = {
                 "node_feats": neigh_feats_unique["node_feats"][idx],
                 "neighbor_feats": neigh_feats_unique["neighbor_feats"][idx].reshape(
-- 
2.43.0


From af2aba329ccfbe642a8aa6a7421dde23519cd551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:09 +0000
Subject: [PATCH 103/118] fix: tokenize text features cut in the middle of a
 character

Text features are cut to a number of bytes, which can split a character.
---
 src/python/deepgnn/pytorch/encoding/feature_encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/pytorch/encoding/feature_encoder.py b/src/python/deepgnn/pytorch/encoding/feature_encoder.py
index d253407..4a1f3d3 100644
--- a/src/python/deepgnn/pytorch/encoding/feature_encoder.py
+++ b/src/python/deepgnn/pytorch/encoding/feature_encoder.py
@@ -140,7 +140,7 @@ class TwinBERTFeatureEncoder(FeatureEncoder):
                     for sentence in flatten:
                         sentence = (
                             bytearray(sentence)
-                            .decode(encoding="utf-8")
+                            .decode(encoding="utf-8", errors="ignore")
                             .strip("\0 \t\n")
                         )
                         seq, mask = self._tokenize_single_sentence(sentence)
-- 
2.43.0


From 3e239a51f8ac85ae7b5ea518a1c271adb6a9d60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:09 +0000
Subject: [PATCH 104/118] fix: split prepared tokens and mask along the last
 dimension

---
 src/python/deepgnn/pytorch/encoding/feature_encoder.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/python/deepgnn/pytorch/encoding/feature_encoder.py b/src/python/deepgnn/pytorch/encoding/feature_encoder.py
index 4a1f3d3..06050a3 100644
--- a/src/python/deepgnn/pytorch/encoding/feature_encoder.py
+++ b/src/python/deepgnn/pytorch/encoding/feature_encoder.py
@@ -175,14 +175,8 @@ class TwinBERTFeatureEncoder(FeatureEncoder):
             ):
                 context[key] = {}
                 assert data.shape[-1] >= self.max_seq_len
-                encoder_seq = data[:, : -self.max_seq_len]
-                encoder_mask = data[:, -self.max_seq_len :]
-                context[key][ENCODER_SEQ] = np.reshape(
-                    encoder_seq, list(data.shape[:-1]) + list(encoder_seq.shape[1:])
-                )
-                context[key][ENCODER_MASK] = np.reshape(
-                    encoder_mask, list(data.shape[:-1]) + list(encoder_mask.shape[1:])
-                )
+                context[key][ENCODER_SEQ] = data[..., : -self.max_seq_len]
+                context[key][ENCODER_MASK] = data[..., -self.max_seq_len :]
 
     def transform(self, context: dict):
         """Transform binary or int64 features."""
-- 
2.43.0


From 98266b99ea117a897b375f105fda7b53de9dd098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:09 +0000
Subject: [PATCH 105/118] fix: keep batch dimension and hop of residuals in
 LgclEncoder

The residual of deeper hops was taken from the first hop.
Batches with a single node lost their first dimension.
---
 src/python/deepgnn/pytorch/encoding/gnn_encoder_lgcl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/pytorch/encoding/gnn_encoder_lgcl.py b/src/python/deepgnn/pytorch/encoding/gnn_encoder_lgcl.py
index e979a06..d108c98 100644
--- a/src/python/deepgnn/pytorch/encoding/gnn_encoder_lgcl.py
+++ b/src/python/deepgnn/pytorch/encoding/gnn_encoder_lgcl.py
@@ -96,7 +96,7 @@ class LgclEncoder(nn.Module):
                 seq = self.acts[layer](
                     getattr(self, f"{LgclEncoder.LGCL_PREFIX}_{layer}_{hop}_1")(seq)
                 )
-                seq = torch.squeeze(seq)
+                seq = torch.squeeze(seq, 2)
 
                 if self.residual == MODEL_RESIDUAL_ADD:
                     if samples[hop].shape[-1] != seq.shape[-1]:
@@ -104,7 +104,7 @@ class LgclEncoder(nn.Module):
                             self, f"{LgclEncoder.ADD_RES}_{str(layer)}"
                         )(samples[hop])
                     else:
-                        seq = seq + samples[0]
+                        seq = seq + samples[hop]
                 elif self.residual == MODEL_RESIDUAL_CONCAT:
                     seq = torch.cat([seq, samples[hop]], dim=-1)
 
-- 
2.43.0


From 541b497f35dfe8b675d57ce1119173430006da30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:09 +0000
Subject: [PATCH 106/118] fix: compute loss of batches with a single node

---
 src/python/deepgnn/pytorch/modeling/base_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/pytorch/modeling/base_model.py b/src/python/deepgnn/pytorch/modeling/base_model.py
index b128be1..6a34245 100644
--- a/src/python/deepgnn/pytorch/modeling/base_model.py
+++ b/src/python/deepgnn/pytorch/modeling/base_model.py
@@ -160,6 +160,9 @@ class BaseSupervisedModel(BaseModel):
             labels = context.squeeze()  # type: ignore
         else:
             raise TypeError("Invalid input type.")
+        if labels.dim() == 1:
+            # Batch with a single node.
+            labels = labels.unsqueeze(0)
         device = labels.device
 
         # TODO(chaoyl): Due to the bug of pytorch argmax, we have to copy labels to numpy for argmax
@@ -172,10 +175,10 @@ class BaseSupervisedModel(BaseModel):
         return (
             self.xent(
                 scores,
-                Variable(torch.tensor(labels.squeeze(), dtype=torch.int64).to(device)),
+                Variable(torch.tensor(labels, dtype=torch.int64).to(device)),
             ),
             scores.argmax(dim=1),
-            torch.tensor(labels.squeeze(), dtype=torch.int64),
+            torch.tensor(labels, dtype=torch.int64),
         )
 
     def forward(
-- 
2.43.0


From aa7e102c73631c4eced49589f18c384d9598c4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:11 +0000
Subject: [PATCH 107/118] fix: load datasets without a graph backend

---
 src/python/deepgnn/graph_engine/graph_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/graph_dataset.py b/src/python/deepgnn/graph_engine/graph_dataset.py
index ec7ba6c..9412e10 100644
--- a/src/python/deepgnn/graph_engine/graph_dataset.py
+++ b/src/python/deepgnn/graph_engine/graph_dataset.py
@@ -82,7 +82,7 @@ class DeepGNNDataset:
         self.enable_prefetch = enable_prefetch
         self.collate_fn = collate_fn
         self.kwargs = kwargs
-        self.graph: Graph
+        self.graph: Graph = None  # type: ignore
         self.sampler: BaseSampler
 
         self.init_graph_client()
-- 
2.43.0


From 0495324660f6380e178d3e1a5547409ae6674885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:11 +0000
Subject: [PATCH 108/118] fix: remove old sync files from folders with brackets
 in names

---
 src/python/deepgnn/tf/common/dist_sync.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/tf/common/dist_sync.py b/src/python/deepgnn/tf/common/dist_sync.py
index 07cb55c..44c6e9c 100644
--- a/src/python/deepgnn/tf/common/dist_sync.py
+++ b/src/python/deepgnn/tf/common/dist_sync.py
@@ -27,7 +27,9 @@ class DistributedSync:
 
     def _cleanup_sync_files(self):
         retry = 100
-        filelist = glob.glob(os.path.join(self.folder, "{}.*".format(self.SYNC_FILE)))
+        filelist = glob.glob(
+            os.path.join(glob.escape(self.folder), "{}.*".format(self.SYNC_FILE))
+        )
         for fname in filelist:
             while os.path.exists(fname) and retry > 0:
                 try:
-- 
2.43.0


From 0796ed05be26e0611be77880aadf0fbd7a0fe906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:11 +0000
Subject: [PATCH 109/118] fix: load embeddings from folders with brackets in
 names

---
 src/python/deepgnn/tf/common/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/tf/common/utils.py b/src/python/deepgnn/tf/common/utils.py
index 6ca7a25..40cc587 100644
--- a/src/python/deepgnn/tf/common/utils.py
+++ b/src/python/deepgnn/tf/common/utils.py
@@ -146,7 +146,7 @@ def load_embeddings(
 ):
     """Load embeddings from files identified by prefix."""
     res = np.zeros((num_nodes, dim), dtype=np.float32)
-    files = glob.glob(os.path.join(model_dir, fileprefix))
+    files = glob.glob(os.path.join(glob.escape(model_dir), fileprefix))
     for fname in files:
         for line in open(fname):
             col = line.split("\t")
-- 
2.43.0


From 1143ba32adcf4b765bbdf6ba1cc73e0831994541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:11 +0000
Subject: [PATCH 110/118] fix: create aggregators with bias

---
 src/python/deepgnn/tf/nn/sage_conv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/deepgnn/tf/nn/sage_conv.py b/src/python/deepgnn/tf/nn/sage_conv.py
index a957c9d..8e277b9 100644
--- a/src/python/deepgnn/tf/nn/sage_conv.py
+++ b/src/python/deepgnn/tf/nn/sage_conv.py
@@ -40,7 +40,7 @@ class MeanAggregator(tf.keras.layers.Layer):
         if self.enable_bias:
             self.bias = self.add_weight(
                 name="bias",
-                shape=[self.out_dim],
+                shape=[self.output_dim * (2 if self.concat else 1)],
                 initializer="zeros",
                 dtype=tf.float32,
                 trainable=True,
@@ -110,7 +110,7 @@ class MaxPoolingAggregator(tf.keras.layers.Layer):
         if self.enable_bias:
             self.bias = self.add_weight(
                 name="bias",
-                shape=[self.out_dim],
+                shape=[self.output_dim * (2 if self.concat else 1)],
                 initializer="zeros",
                 dtype=tf.float32,
                 trainable=True,
@@ -175,7 +175,7 @@ class LSTMAggregator(tf.keras.layers.Layer):
         if self.enable_bias:
             self.bias = self.add_weight(
                 name="bias",
-                shape=[self.out_dim],
+                shape=[self.output_dim * (2 if self.concat else 1)],
                 initializer="zeros",
                 dtype=tf.float32,
                 trainable=True,
@@ -208,7 +208,7 @@ class LSTMAggregator(tf.keras.layers.Layer):
             output = tf.add_n([from_self, from_neig])
 
         if self.enable_bias:
-            output += self.vars["bias"]
+            output += self.bias
         if self.act is not None:
             output = self.act(output)
         return output
-- 
2.43.0


From 71d39ec6b07f79d8579871f99171de77e6705a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:11 +0000
Subject: [PATCH 111/118] fix: keep edge weights in normalized sparse graphs

---
 src/python/deepgnn/tf/nn/gcn_conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/tf/nn/gcn_conv.py b/src/python/deepgnn/tf/nn/gcn_conv.py
index 6471bf8..81b0c62 100644
--- a/src/python/deepgnn/tf/nn/gcn_conv.py
+++ b/src/python/deepgnn/tf/nn/gcn_conv.py
@@ -18,7 +18,7 @@ def gcn_norm_adj(adj: tf.Tensor) -> tf.Tensor:
         d_inv = tf.where(tf.math.is_inf(d_inv), tf.zeros_like(d_inv), d_inv)
         d_inv_src = tf.nn.embedding_lookup(d_inv, edges[:, 0])
         d_inv_dst = tf.nn.embedding_lookup(d_inv, edges[:, 1])
-        edge_weight = d_inv_src * d_inv_dst
+        edge_weight = d_inv_src * edges_value * d_inv_dst
         sp_adj = tf.sparse.SparseTensor(edges, edge_weight, dense_shape=adj_shape)
         return sp_adj
     else:
-- 
2.43.0


From d6812ad8db86b8a346a123b26225d28ab4ee6ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:11 +0000
Subject: [PATCH 112/118] fix: drop inputs of GCN layers only in training

---
 src/python/deepgnn/tf/nn/gcn_conv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/tf/nn/gcn_conv.py b/src/python/deepgnn/tf/nn/gcn_conv.py
index 81b0c62..91bf249 100644
--- a/src/python/deepgnn/tf/nn/gcn_conv.py
+++ b/src/python/deepgnn/tf/nn/gcn_conv.py
@@ -62,7 +62,8 @@ class GCNConv(tf.keras.layers.Layer):
     def call(self, inputs: tf.Tensor, training: bool = True) -> tf.Tensor:
         """Compute embeddings."""
         x, adj = inputs
-        x = tf.nn.dropout(x, rate=self.dropout)
+        if training and self.dropout != 0.0:
+            x = tf.nn.dropout(x, rate=self.dropout)
         x = self.w(x)
         if isinstance(adj, tf.SparseTensor):
             support = tf.sparse.sparse_dense_matmul(adj, x)
-- 
2.43.0


From 3445e49f9f99b581e39dfb72eded28a995d85b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:12 +0000
Subject: [PATCH 113/118] fix: give every metapath its own attention heads

---
 src/python/deepgnn/tf/encoders/han_encoder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/tf/encoders/han_encoder.py b/src/python/deepgnn/tf/encoders/han_encoder.py
index 2259341..59ca23d 100644
--- a/src/python/deepgnn/tf/encoders/han_encoder.py
+++ b/src/python/deepgnn/tf/encoders/han_encoder.py
@@ -101,7 +101,9 @@ class HANEncoder(AttEncoder):
         self.metapath_num = int(len(self.edge_types) / len(self.nb_num))
         self.simple_att_layer = SimpleAttLayer(out_dim)
 
-        self.att_headers = [[[]]] * self.metapath_num  # type: ignore
+        self.att_headers = [  # type: ignore
+            [[] for _ in self.head_num] for _ in range(self.metapath_num)
+        ]
         for i in range(self.metapath_num):
             for layer_id in range(len(self.head_num)):
                 for j in range(self.head_num[layer_id]):
-- 
2.43.0


From c53c42fd0c756c5a879ad75feb76d41a7b107e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:12 +0000
Subject: [PATCH 114/118] fix: encode metapaths with several hops

---
 src/python/deepgnn/tf/encoders/han_encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/tf/encoders/han_encoder.py b/src/python/deepgnn/tf/encoders/han_encoder.py
index 59ca23d..b3860a1 100644
--- a/src/python/deepgnn/tf/encoders/han_encoder.py
+++ b/src/python/deepgnn/tf/encoders/han_encoder.py
@@ -121,7 +121,7 @@ class HANEncoder(AttEncoder):
                 "layer {0} hidden shape {1}".format(layer_id, hidden_val.shape)
             )
             hidden_val = tf.reshape(
-                hidden_val, [-1, sum(self.nb_num) + 1, self.hidden_dim[layer_id]]
+                hidden_val, [-1, np.prod(self.nb_num) + 1, self.hidden_dim[layer_id]]
             )
             hidden.append(hidden_val)
         return tf.concat(hidden, -1)
-- 
2.43.0


From 6f2fb53644bc0d372ef5b90e67385e25b02167f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:27 +0000
Subject: [PATCH 115/118] fix: read files of remote storage in as many pieces
 as they come

---
 src/cc/lib/graph/hdfs_wrap.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/cc/lib/graph/hdfs_wrap.cc b/src/cc/lib/graph/hdfs_wrap.cc
index 158f3b5..d6b49f1 100644
--- a/src/cc/lib/graph/hdfs_wrap.cc
+++ b/src/cc/lib/graph/hdfs_wrap.cc
@@ -232,15 +232,12 @@ void HDFSConnection::read(hdfsFile_so readFile, int64_t read_size, void *output)
     while (read_size > acc_read)
     {
         read_size_curr = static_cast<int32_t>(std::min(read_size - acc_read, static_cast<int64_t>(BUFFER_SIZE)));
+        // A single call can return any number of bytes, 0 means end of file and negative values are errors.
         curr_read = hdfs_bindings->hdfsRead_so(fs, readFile, m_buffer, read_size_curr);
-        if (curr_read < read_size_curr)
-            curr_read +=
-                hdfs_bindings->hdfsRead_so(fs, readFile, static_cast<void *>(static_cast<char *>(m_buffer) + curr_read),
-                                           read_size_curr - curr_read);
-        if (curr_read != read_size_curr)
+        if (curr_read <= 0)
             RAW_LOG_FATAL("file %s : Stopped reading after %li bytes, expected %li bytes!", m_data_path.c_str(),
                           acc_read, read_size);
-        memcpy(dst, src, read_size_curr);
+        memcpy(dst, src, curr_read);
         dst += curr_read;
         acc_read += curr_read;
     }
-- 
2.43.0


From 0da1c5c3d51e05e7f4f95f3fd9970cfd898f755c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:27 +0000
Subject: [PATCH 116/118] fix: parse settings of streamed graphs without a
 shared temporary file

---
 src/cc/lib/graph/metadata.cc | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/cc/lib/graph/metadata.cc b/src/cc/lib/graph/metadata.cc
index 81d1e43..fc1b5d4 100644
--- a/src/cc/lib/graph/metadata.cc
+++ b/src/cc/lib/graph/metadata.cc
@@ -25,6 +25,7 @@ Metadata::Metadata(std::filesystem::path path, std::string config_path, bool ski
     {
         logger = std::make_shared<GLogger>();
     }
+    json meta;
     if (is_hdfs_path(path))
 #ifndef SNARK_PLATFORM_LINUX
         logger->log_fatal("HDFS streaming only supported on Linux!");
@@ -32,22 +33,14 @@ Metadata::Metadata(std::filesystem::path path, std::string config_path, bool ski
     {
         auto full_path = path / "meta.json";
         auto buffer = read_hdfs<char>(full_path.string(), m_config_path);
-
-        path = std::filesystem::temp_directory_path();
-        auto meta_write = open_meta(path, "w", logger);
-        for (uint64_t i = 0; i < buffer.size(); ++i)
-        {
-            if (fprintf(meta_write, "%c", buffer[i]) <= 0)
-            {
-                exit(errno);
-            }
-        }
-        fclose(meta_write);
+        meta = json::parse(buffer);
     }
+    else
 #endif
-
-    std::ifstream f(path / "meta.json");
-    json meta = json::parse(f);
+    {
+        std::ifstream f(path / "meta.json");
+        meta = json::parse(f);
+    }
 
     std::string version_full = meta["binary_data_version"];
     version_full.erase(0, 1);
-- 
2.43.0


From 92419804f11c416d73426305fcc0b2dfb28cf230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:27 +0000
Subject: [PATCH 117/118] fix: find partitions of streamed graphs by file name
 only

---
 src/cc/lib/distributed/graph_engine.cc | 17 +++++++++++------
 src/cc/lib/graph/graph.cc              | 17 +++++++++++------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/cc/lib/distributed/graph_engine.cc b/src/cc/lib/distributed/graph_engine.cc
index 4436d0a..38f052d 100644
--- a/src/cc/lib/distributed/graph_engine.cc
+++ b/src/cc/lib/distributed/graph_engine.cc
@@ -69,15 +69,20 @@ GraphEngineServiceImpl::GraphEngineServiceImpl(snark::Metadata metadata, std::ve
         else
         {
             auto filenames = hdfs_list_directory(paths[partition_index], m_metadata.m_config_path);
-            for (auto &full : filenames)
+            for (auto &filename : filenames)
             {
+                // Names of parent folders are not relevant.
+                auto full = std::filesystem::path(filename).stem().string();
+                if (full.size() <= neighbors_prefix_len)
+                {
+                    continue;
+                }
+
                 // Use files with neighbor lists to detect eligible suffixes.
-                auto loc = full.find(neighbors_prefix);
-                if (loc != std::string::npos &&
-                    int(partitions[partition_index]) == stoi(full.substr(loc + neighbors_prefix_len)))
+                if (full.starts_with(neighbors_prefix) &&
+                    int(partitions[partition_index]) == stoi(full.substr(neighbors_prefix_len)))
                 {
-                    std::filesystem::path full_path = full.substr(loc + neighbors_prefix_len);
-                    suffixes.push_back(full_path.stem().string());
+                    suffixes.push_back(full.substr(neighbors_prefix_len));
                 }
             }
         }
diff --git a/src/cc/lib/graph/graph.cc b/src/cc/lib/graph/graph.cc
index bdc11a0..0d6317d 100644
--- a/src/cc/lib/graph/graph.cc
+++ b/src/cc/lib/graph/graph.cc
@@ -78,15 +78,20 @@ Graph::Graph(Metadata metadata, std::vector<std::string> paths, std::vector<uint
         else
         {
             auto filenames = hdfs_list_directory(paths[partition_index], m_metadata.m_config_path);
-            for (auto &full : filenames)
+            for (auto &filename : filenames)
             {
+                // Names of parent folders are not relevant.
+                auto full = std::filesystem::path(filename).stem().string();
+                if (full.size() <= neighbors_prefix_len)
+                {
+                    continue;
+                }
+
                 // Use files with neighbor lists to detect eligible suffixes.
-                auto loc = full.find(neighbors_prefix);
-                if (loc != std::string::npos &&
-                    int(partitions[partition_index]) == stoi(full.substr(loc + neighbors_prefix_len)))
+                if (full.starts_with(neighbors_prefix) &&
+                    int(partitions[partition_index]) == stoi(full.substr(neighbors_prefix_len)))
                 {
-                    std::filesystem::path full_path = full.substr(loc + neighbors_prefix_len);
-                    suffixes.push_back(full_path.stem().string());
+                    suffixes.push_back(full.substr(neighbors_prefix_len));
                 }
             }
         }
-- 
2.43.0


From 154c8f5b3179e16f8bd25a2299ab7918447ce1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:04:36 +0000
Subject: [PATCH 118/118] fix: allow polynomial decay whose warmup takes all
 training steps

---
 src/python/deepgnn/pytorch/common/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/pytorch/common/optimization.py b/src/python/deepgnn/pytorch/common/optimization.py
index 8ba3709..242b988 100644
--- a/src/python/deepgnn/pytorch/common/optimization.py
+++ b/src/python/deepgnn/pytorch/common/optimization.py
@@ -228,7 +228,7 @@ def get_polynomial_decay_schedule_with_warmup(
             return lr_end / lr_init  # as LambdaLR multiplies by lr_init
         else:
             lr_range = lr_init - lr_end
-            decay_steps = num_training_steps - num_warmup_steps
+            decay_steps = max(1, num_training_steps - num_warmup_steps)
             pct_remaining = 1 - (current_step - num_warmup_steps) / decay_steps
             decay = lr_range * pct_remaining**power + lr_end
             return decay / lr_init  # as LambdaLR multiplies by lr_init
-- 
2.43.0

