From 4d84955081c8b7619fb0d47c034885fd8b7d1b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:16 +0000
Subject: [PATCH 01/57] fix: Memory storage counts the first batch of failed
 samples of a level as finished

---
 mlmc/sample_storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index 01be908..8ef330c 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -199,8 +199,8 @@ class Memory(SampleStorage):
 
             if level_id not in self._n_finished:
                 self._n_finished[level_id] = 0
-            else:
-                self._n_finished[level_id] += len(res)
+
+            self._n_finished[level_id] += len(res)
 
     def save_result_format(self, res_spec: List[QuantitySpec]):
         """
-- 
2.43.0


From c0a8f71da6d19ce4674510a097de08b995832d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:16 +0000
Subject: [PATCH 02/57] fix: Memory storage accounting handles levels without
 finished samples

---
 mlmc/sample_storage.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index 8ef330c..eb53253 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -215,7 +215,7 @@ class Memory(SampleStorage):
         Number of finished samples on each level
         :return: List
         """
-        n_finished = np.empty(max(self._n_finished.items(), key=lambda k: k[0])[0]+1)
+        n_finished = np.zeros(self._n_stored_levels())
         for level_id, n_fin in self._n_finished.items():
             n_finished[level_id] = n_fin
 
@@ -247,7 +247,7 @@ class Memory(SampleStorage):
         Sample results split to numpy arrays
         :return: List[Array[M, N, 2]]
         """
-        levels_results = list(np.empty(len(self._results)))
+        levels_results = [[] for _ in range(self._n_stored_levels())]
 
         for level_id in self.get_level_ids():
             results = self.sample_pairs_level(ChunkSpec(level_id=level_id))
@@ -322,7 +322,7 @@ class Memory(SampleStorage):
         Number of collected samples at each level
         :return: List
         """
-        n_collected = list(np.zeros(len(self._results)))
+        n_collected = list(np.zeros(self._n_stored_levels()))
         for level_id in self.get_level_ids():
             n_collected[int(level_id)] = len(self._results[int(level_id)])
         return n_collected
@@ -334,5 +334,13 @@ class Memory(SampleStorage):
         """
         return len(self._results)
 
+    def _n_stored_levels(self):
+        """
+        Number of levels including those without any finished sample yet
+        :return: int
+        """
+        n_declared = 0 if self._level_parameters is None else len(self._level_parameters)
+        return max([n_declared] + [int(level_id) + 1 for level_id in self._n_finished])
+
     def get_level_parameters(self):
         return self._level_parameters
-- 
2.43.0


From 3cb0fb935c7e680b92ace424369dec9627c9273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:36 +0000
Subject: [PATCH 03/57] fix: HDF storage reports levels without collected
 samples as empty

---
 mlmc/sample_storage_hdf.py | 3 +++
 mlmc/tool/hdf5.py          | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index 7e5fbef..80954b6 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -157,6 +157,9 @@ class SampleStorageHDF(SampleStorage):
         levels_results = list(np.empty(len(self._level_groups)))
 
         for level in self._level_groups:
+            if level.collected_n_items() == 0:
+                levels_results[int(level.level_id)] = []
+                continue
             chunk_spec = next(self.chunks(level_id=int(level.level_id),
                                           n_samples=self.get_n_collected()[int(level.level_id)]))
             results = self.sample_pairs_level(chunk_spec)  # return all samples no chunks
diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index f6f3219..c0d1278 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -382,7 +382,7 @@ class LevelGroup:
         """
         with h5py.File(self.file_name, 'r') as hdf_file:
             if 'collected_values' not in hdf_file[self.level_group_path]:
-                return AttributeError("collected_values dataset not in HDF file for level {}".format(self.level_id))
+                return 0  # no successful sample has been saved yet
             dataset = hdf_file["/".join([self.level_group_path, "collected_values"])]
             collected_n_items = len(dataset[()])
         return collected_n_items
-- 
2.43.0


From 3c25318fc6ba40ccc6f944fce27f69eb6d0185f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:28 +0000
Subject: [PATCH 04/57] fix: synthetic simulation applies the location offset
 on level 0 as well

Fine results of level 0 lacked the offset that coarse results of level 1 have, so the
levels did not telescope for any location but the first one.
---
 mlmc/sim/synth_simulation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mlmc/sim/synth_simulation.py b/mlmc/sim/synth_simulation.py
index 5341721..75910ed 100644
--- a/mlmc/sim/synth_simulation.py
+++ b/mlmc/sim/synth_simulation.py
@@ -116,10 +116,10 @@ class SynthSimulation(Simulation):
             raise Exception("result is nan")
 
         results = []
-        for result in [fine_result, coarse_result]:
+        for result, step in [(fine_result, fine_step), (coarse_result, coarse_step)]:
             quantities = []
             for quantity in quantity_format:
-                if coarse_step == 0:
+                if step == 0:
                     locations = np.array([result for _ in range(len(quantity.locations))])
                 else:
                     locations = np.array([result + i for i in range(len(quantity.locations))])
@@ -270,11 +270,11 @@ class SynthSimulationWorkspace(SynthSimulation):
             raise Exception("result is nan")
 
         results = []
-        for result in [fine_result, coarse_result]:
+        for result, step in [(fine_result, fine_step), (coarse_result, coarse_step)]:
             quantities = []
 
             for quantity in quantity_format:
-                if coarse_step == 0:
+                if step == 0:
                     locations = np.array([result for _ in range(len(quantity.locations))])
                 else:
                     locations = np.array([result + i for i in range(len(quantity.locations))])
-- 
2.43.0


From c68834deb3165d81861fbee6fa65f20ce71d3134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:49 +0000
Subject: [PATCH 05/57] fix: cached samples of a discarded quantity are not
 returned for a new one

The cache key contained id(self), which is reused for new quantities after the original
one is garbage collected.
---
 mlmc/quantity/quantity.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index bdeddb9..1a4ead3 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -1,3 +1,4 @@
+import itertools
 import operator
 import numpy as np
 import scipy.stats
@@ -33,6 +34,10 @@ def make_root_quantity(storage: SampleStorage, q_specs: List[QuantitySpec]):
 
 
 class Quantity:
+
+    _cache_ids = itertools.count()
+    # Source of identifiers used in cache keys, unlike id() they are never reused
+
     def __init__(self, quantity_type, operation, input_quantities=[]):
         """
         Quantity class represents real quantity and also provides operation that can be performed with stored values.
@@ -121,7 +126,9 @@ class Quantity:
         chunk_size = None
         if chunk_spec.chunk_slice is not None:
             chunk_size = chunk_spec.chunk_slice.stop - chunk_spec.chunk_slice.start
-        return (chunk_spec.level_id, chunk_spec.chunk_id, chunk_size, id(self))  # redundant parentheses needed due to py36, py37
+        if "_cache_id" not in self.__dict__:
+            self._cache_id = next(Quantity._cache_ids)
+        return (chunk_spec.level_id, chunk_spec.chunk_id, chunk_size, self._cache_id)  # redundant parentheses needed due to py36, py37
 
     @cached(custom_key_maker=get_cache_key)
     def samples(self, chunk_spec):
-- 
2.43.0


From 525795c7d4d01be57db7987c2e034b20fe65002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:50 +0000
Subject: [PATCH 06/57] fix: item access on arrays of non-scalar quantities

---
 mlmc/quantity/quantity_types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mlmc/quantity/quantity_types.py b/mlmc/quantity/quantity_types.py
index 41d6ea7..9af8943 100644
--- a/mlmc/quantity/quantity_types.py
+++ b/mlmc/quantity/quantity_types.py
@@ -130,8 +130,9 @@ class ArrayType(QType):
         """
         # Reshape M to original shape to allow access
         assert self._shape is not None
-        chunk = chunk.reshape((*self._shape, chunk.shape[-2], chunk.shape[-1]))
-        return QType.keep_dims(chunk[key])
+        items = np.arange(np.prod(self._shape)).reshape(self._shape)[key].flatten()
+        chunk = chunk.reshape((np.prod(self._shape), self._qtype.size(), chunk.shape[-2], chunk.shape[-1]))
+        return QType.keep_dims(chunk[items])
 
     def reshape(self, data):
         if isinstance(self._qtype, ScalarType):
-- 
2.43.0


From a4950c2ce4821b9cb4cb83e476762a8112d8f383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:50 +0000
Subject: [PATCH 07/57] fix: access to an item of an estimated mean by a tuple
 of indices

---
 mlmc/quantity/quantity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index 1a4ead3..61879fd 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -650,8 +650,9 @@ class QuantityMean:
             key = slice(start, start + new_qtype.size())
 
         # Getting items, it performs reshape inside
-        l_means = self.l_means[:, key]
-        l_vars = self.l_vars[:, key]
+        level_key = (slice(None), *key) if isinstance(key, tuple) else (slice(None), key)
+        l_means = self.l_means[level_key]
+        l_vars = self.l_vars[level_key]
 
         return QuantityMean(quantity_type=new_qtype, l_means=l_means.reshape((l_means.shape[0], -1)),
                             l_vars=l_vars.reshape((l_vars.shape[0], -1)), n_samples=self._n_samples,
-- 
2.43.0


From 7223a80c4976c5ce17a51ae69c514f076507c759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:50 +0000
Subject: [PATCH 08/57] fix: constant quantities of multidimensional arrays are
 flattened like any other array

---
 mlmc/quantity/quantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index 61879fd..93ad432 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -543,7 +543,7 @@ class QuantityConst(Quantity):
         """
         if isinstance(value, (int, float, bool)):
             value = np.array([value])
-        return value[:, np.newaxis, np.newaxis]
+        return np.reshape(value, (-1, 1, 1))
 
     def selection_id(self):
         """
-- 
2.43.0


From d2016c3450007b0c3ac141f509d6025b7b0d8b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:57 +0000
Subject: [PATCH 09/57] fix: results arriving while a local pool is polled are
 not lost

---
 mlmc/sampling_pool.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index 0d40232..93b2699 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -281,13 +281,13 @@ class OneProcessPool(SamplingPool):
     def _queues_to_list(self, queue_dict_list):
         results = {}
         for level_id, q in queue_dict_list:
-            queue_list = list(q.queue)
+            # Read and clear at once, results may be put to the queue by another thread
+            with q.mutex:
+                queue_list = list(q.queue)
+                q.queue.clear()
             if not queue_list:
                 continue
             results[level_id] = queue_list
-            # Thread safe clear
-            with q.mutex:
-                q.queue.clear()
 
             self._n_running -= len(results[level_id])
 
-- 
2.43.0


From 08c6e29c25668cb2a000f7ab21788f7057b85465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:57 +0000
Subject: [PATCH 10/57] fix: error of a pool worker marks its sample as failed

---
 mlmc/sampling_pool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index 93b2699..202579e 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -320,7 +320,8 @@ class ProcessPool(OneProcessPool):
 
         self._pool.apply_async(SamplingPool.calculate_sample, args=(sample_id, level_sim, self._output_dir),
                                callback=lambda res: self.res_callback(res, level_sim),
-                               error_callback=lambda res: self.res_callback(res, level_sim))
+                               error_callback=lambda exc: self.res_callback((sample_id, (None, None), repr(exc), 0),
+                                                                            level_sim))
 
 
 class ThreadPool(ProcessPool):
-- 
2.43.0


From 8c59aa4d897f27499164e2d229fd47504c11e596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:57 +0000
Subject: [PATCH 11/57] fix: failed preparation of a sample workspace makes the
 sample failed

---
 mlmc/sampling_pool.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index 202579e..eca07a7 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -99,9 +99,9 @@ class SamplingPool(ABC):
         err_msg = ""
         running_time = 0
 
-        if level_sim.need_sample_workspace:
-            SamplingPool.handle_sim_files(work_dir, sample_id, level_sim)
         try:
+            if level_sim.need_sample_workspace:
+                SamplingPool.handle_sim_files(work_dir, sample_id, level_sim)
             start = time.time()
             res = level_sim._calculate(level_sim.config_dict, seed)
             running_time = time.time() - start
-- 
2.43.0


From 838be0816e788787ae613130453ad718270ccd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:04 +0000
Subject: [PATCH 12/57] fix: Memory storage cost per sample is total time over
 number of samples

---
 mlmc/sample_storage.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index eb53253..f0a2a16 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -292,19 +292,21 @@ class Memory(SampleStorage):
         """
         for level, (time, n_samples) in n_ops:
             if level not in self._n_ops:
-                self._n_ops[level] = 0
+                self._n_ops[level] = [0., 0.]
 
-            if n_samples != 0:
-                self._n_ops[level] += time/n_samples
+            if n_samples > 0:
+                self._n_ops[level][0] += time
+                self._n_ops[level][1] += n_samples
 
     def get_n_ops(self):
         """
         Get number of operations on each level
         :return: List[float]
         """
-        n_ops = list(np.empty(len(np.max(self._n_ops.keys()))))
-        for level, time in self._n_ops.items():
-            n_ops[level] = time
+        n_ops = list(np.zeros(max([self._n_stored_levels()] + [level + 1 for level in self._n_ops])))
+        for level, (time, n_samples) in self._n_ops.items():
+            if n_samples > 0:
+                n_ops[level] = time / n_samples
         return n_ops
 
     def unfinished_ids(self):
-- 
2.43.0


From 396f219f41b026c4d1091f4a01a07d2f49cf464f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:04 +0000
Subject: [PATCH 13/57] fix: HDF storage reports zero cost for levels without
 measured samples

---
 mlmc/sample_storage_hdf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index 80954b6..cf855d0 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -246,8 +246,9 @@ class SampleStorageHDF(SampleStorage):
         """
         n_ops = list(np.zeros(len(self._level_groups)))
         for level in self._level_groups:
-            if level.n_ops_estimate[1] > 0:
-                n_ops[int(level.level_id)] = level.n_ops_estimate[0] / level.n_ops_estimate[1]
+            n_ops_saved = level.n_ops_estimate
+            if n_ops_saved is not None and n_ops_saved[1] > 0:
+                n_ops[int(level.level_id)] = n_ops_saved[0] / n_ops_saved[1]
             else:
                 n_ops[int(level.level_id)] = 0
         return n_ops
-- 
2.43.0


From c32afa3820abe37787713ad1b1b4b37a9ac19885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:04 +0000
Subject: [PATCH 14/57] fix: local pools report running time of each sample
 once

---
 mlmc/sampling_pool.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index eca07a7..b30bc03 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -215,6 +215,7 @@ class OneProcessPool(SamplingPool):
         self._queues = {}
         self._n_running = 0
         self.times = {}
+        self._reported_times = {}
 
     def schedule_sample(self, sample_id, level_sim):
         self._n_running += 1
@@ -276,7 +277,19 @@ class OneProcessPool(SamplingPool):
         successful = self._queues_to_list(list(self._queues.items()))
         failed = self._queues_to_list(list(self._failed_queues.items()))
 
-        return successful, failed, self._n_running, list(self.times.items())
+        return successful, failed, self._n_running, self._new_times()
+
+    def _new_times(self):
+        """
+        Running times measured since the last call, the storage accumulates them
+        :return: List[Tuple[level_id, List[time, number of samples]]]
+        """
+        new_times = []
+        for level_id, (total_time, n_samples) in list(self.times.items()):
+            reported_time, reported_n = self._reported_times.get(level_id, (0, 0))
+            self._reported_times[level_id] = (total_time, n_samples)
+            new_times.append((level_id, [total_time - reported_time, n_samples - reported_n]))
+        return new_times
 
     def _queues_to_list(self, queue_dict_list):
         results = {}
-- 
2.43.0


From 70209bc17cd45a5bf710fdba0c73e28dcddad14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:04 +0000
Subject: [PATCH 15/57] fix: running time of a sample with unexpected result
 format is not counted

---
 mlmc/sampling_pool.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index b30bc03..ac6b3e1 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -122,6 +122,7 @@ class SamplingPool(ABC):
         except Exception:
             str_list = traceback.format_exception(*sys.exc_info())
             err_msg = "".join(str_list)
+            running_time = 0
 
         return sample_id, res, err_msg, running_time
 
-- 
2.43.0


From f801544607da7528fec8b508983d01033af0caed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:08 +0000
Subject: [PATCH 16/57] fix: running time and number of samples of a level are
 updated at once

---
 mlmc/sampling_pool.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index ac6b3e1..39331b8 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -265,8 +265,9 @@ class OneProcessPool(SamplingPool):
             self.times[level_id] = [0, 0]
         # Failed samples have running time equal 0 by default
         if running_time != 0:
-            self.times[level_id][0] += running_time
-            self.times[level_id][1] += 1
+            total_time, n_samples = self.times[level_id]
+            # Single assignment, times may be read by another thread meanwhile
+            self.times[level_id] = [total_time + running_time, n_samples + 1]
 
     def have_permanent_samples(self, sample_ids):
         return False
-- 
2.43.0


From 39b4efa7e525af20639364e64d59f1ef60d29985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:58 +0000
Subject: [PATCH 17/57] fix: change of the number of moments keeps their
 options

---
 mlmc/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index 2329566..0984a4f 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -53,7 +53,7 @@ class Moments:
         Return moment object with different size.
         :param size: int, new number of _moments_fn
         """
-        return self.__class__(size, self.domain, self._is_log, self._is_clip)
+        return self.__class__(size, self.domain, ref_domain=self.ref_domain, log=self._is_log, safe_eval=self._is_clip)
 
     def clip(self, value):
         """
-- 
2.43.0


From be56b249d1fa567680ce5d8af9d3ec59e5291b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:58 +0000
Subject: [PATCH 18/57] fix: evaluation of one moment for multidimensional
 values

---
 mlmc/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index 0984a4f..2ee9324 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -76,7 +76,7 @@ class Moments:
         return self._eval_all(value, self.size)
 
     def eval(self, i, value):
-        return self._eval_all(value, i+1)[:, -1]
+        return self._eval_all(value, i+1)[..., -1]
 
     def eval_single_moment(self, i, value):
         """
-- 
2.43.0


From cafa308abfd07e7b276096b30b3fa6eb10d4f157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:58 +0000
Subject: [PATCH 19/57] fix: single Fourier moment is the same function as in
 all moments

---
 mlmc/moments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index 2ee9324..bcd0235 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -164,11 +164,11 @@ class Fourier(Moments):
     def eval(self, i, value):
         t = self.transform(np.atleast_1d(value))
         if i == 0:
-            return 1
+            return np.ones(t.shape)
         elif i % 2 == 1:
-            return np.sin( (i - 1) / 2 * t)
+            return np.cos((i + 1) / 2 * t)
         else:
-            return np.cos(i / 2 * t)
+            return np.sin(i / 2 * t)
 
 
 class Legendre(Moments):
-- 
2.43.0


From 12140cfcd76c1401bab39ab9013db181eb8703de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:58 +0000
Subject: [PATCH 20/57] fix: Fourier moments of multidimensional values

---
 mlmc/moments.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index bcd0235..d46e739 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -150,15 +150,15 @@ class Fourier(Moments):
         R = int(size / 2)
         shorter_sin = 1 - int(size % 2)
         k = np.arange(1, R + 1)
-        kx = np.outer(t, k)
+        kx = t[..., np.newaxis] * k
 
-        res = np.empty((len(t), size))
-        res[:, 0] = 1
+        res = np.empty(t.shape + (size,))
+        res[..., 0] = 1
 
         # Odd column index
-        res[:, 1::2] = np.cos(kx[:, :])
+        res[..., 1::2] = np.cos(kx)
         # Even column index
-        res[:, 2::2] = np.sin(kx[:, : R - shorter_sin])
+        res[..., 2::2] = np.sin(kx[..., : R - shorter_sin])
         return res
 
     def eval(self, i, value):
-- 
2.43.0


From 4677a449c01b8c5d6f43c31040e56b0d87c3aa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:58 +0000
Subject: [PATCH 21/57] fix: derivatives of a smaller number of Legendre
 moments

---
 mlmc/moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index d46e739..dce30dc 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -221,12 +221,12 @@ class Legendre(Moments):
     def _eval_diff(self, value, size):
         t = self.transform(np.atleast_1d(value))
         P_n = np.polynomial.legendre.legvander(t, deg=size - 1)
-        return P_n @ self.diff_mat
+        return P_n @ self.diff_mat[:size, :size]
 
     def _eval_diff2(self, value, size):
         t = self.transform(np.atleast_1d(value))
         P_n = np.polynomial.legendre.legvander(t, deg=size - 1)
-        return P_n @ self.diff2_mat
+        return P_n @ self.diff2_mat[:size, :size]
 
 
 class TransformedMoments(Moments):
-- 
2.43.0


From a6d2c84c70a17b5af9cd3f93a15409b8aa81121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:58 +0000
Subject: [PATCH 22/57] fix: derivatives of Legendre moments for
 multidimensional values

---
 mlmc/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index dce30dc..0488b97 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -215,7 +215,7 @@ class Legendre(Moments):
                 coef[-1] = 1
 
             coef = np.polynomial.legendre.legder(coef, degree)
-            eval_values[:, s] = np.polynomial.legendre.legval(value, coef)
+            eval_values[..., s] = np.polynomial.legendre.legval(value, coef)
         return eval_values
 
     def _eval_diff(self, value, size):
-- 
2.43.0


From 9a080d3362b4dbb6c764efc8a838d8d0583bfec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:24 +0000
Subject: [PATCH 23/57] fix: upper end of the domain is not rounded out of the
 reference domain

---
 mlmc/moments.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index 0488b97..2a12241 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -24,6 +24,7 @@ class Moments:
         diff = max(diff, 1e-15)
         self._linear_scale = (self.ref_domain[1] - self.ref_domain[0]) / diff
         self._linear_shift = lin_domain[0]
+        self._linear_diff = diff
 
         if safe_eval and log:
             self.transform = lambda val: self.clip(self.linear(np.log(val)))
@@ -67,7 +68,9 @@ class Moments:
         return ma.filled(out, np.nan)
 
     def linear(self, value):
-        return (value - self._linear_shift) * self._linear_scale + self.ref_domain[0]
+        # Divide first, so that the upper end of the domain is not rounded beyond the reference domain
+        relative = (value - self._linear_shift) / self._linear_diff
+        return relative * (self.ref_domain[1] - self.ref_domain[0]) + self.ref_domain[0]
 
     def inv_linear(self, value):
         return (value - self.ref_domain[0]) / self._linear_scale + self._linear_shift
-- 
2.43.0


From fa3a56c42f7e362ac51b4a4ee8ef9bca4acde7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:10 +0000
Subject: [PATCH 24/57] fix: polling the PBS pool does not change the working
 directory

---
 mlmc/sampling_pool_pbs.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index 01c4128..c3681eb 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -329,28 +329,26 @@ class SamplingPoolPBS(SamplingPool):
                  n_running: int, number of running samples
                  times:
         """
-        os.chdir(self._jobs_dir)
-
         # Get number of running samples
         n_running = 0
         for pbs_id in unfinished_pbs_jobs:
-            reg = "*_{}".format(pbs_id)
+            reg = os.path.join(glob.escape(self._jobs_dir), "*_{}".format(pbs_id))
             file = glob.glob(reg)
             if len(file) > 0:
-                job_id = re.findall(r'(\d+)_\d+', file[0])[0]
+                job_id = re.findall(r'(\d+)_\d+', os.path.basename(file[0]))[0]
                 n_running += PbsJob.get_job_n_running(job_id, self._jobs_dir)
 
         successful_results = {}
         failed_results = {}
         times = {}
         for pbs_id in finished_pbs_jobs:
-            reg = "*_{}".format(pbs_id)  # JobID_PbsId file
+            reg = os.path.join(glob.escape(self._jobs_dir), "*_{}".format(pbs_id))  # JobID_PbsId file
             file = glob.glob(reg)
 
             if file:
                 # Find jobID
                 file = file[0]
-                job_id = re.findall(r'(\d+)_\d+', file)[0]
+                job_id = re.findall(r'(\d+)_\d+', os.path.basename(file))[0]
                 # Get sample results
                 successful, failed, time = PbsJob.read_results(job_id, self._jobs_dir)
 
-- 
2.43.0


From 66d4f1eb179e3b7a81e28a2e29a34c541f398db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:59 +0000
Subject: [PATCH 25/57] fix: PBS pool does not skip the job following a
 finished one

---
 mlmc/sampling_pool_pbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index c3681eb..69b7f62 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -306,7 +306,7 @@ class SamplingPoolPBS(SamplingPool):
 
         # Get unfinished as diff between planned and finished
         unfinished_pbs_jobs = []
-        for pbs_id in self._pbs_ids:
+        for pbs_id in list(self._pbs_ids):
             if pbs_id not in finished_pbs_jobs:
                 unfinished_pbs_jobs.append(pbs_id)
             else:
-- 
2.43.0


From 426589e62bb376b379f5e2e4cea577d0c18bef59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:14 +0000
Subject: [PATCH 26/57] fix: an empty result file of a killed PBS job is read
 as no results

---
 mlmc/tool/pbs_job.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mlmc/tool/pbs_job.py b/mlmc/tool/pbs_job.py
index a39b864..c7372d4 100644
--- a/mlmc/tool/pbs_job.py
+++ b/mlmc/tool/pbs_job.py
@@ -299,21 +299,21 @@ class PbsJob:
         # Save successful results
         if os.path.exists(os.path.join(jobs_dir, PbsJob.SUCCESSFUL_RESULTS.format(job_id))):
             with open(os.path.join(jobs_dir, PbsJob.SUCCESSFUL_RESULTS.format(job_id)), "r") as reader:
-                successful_samples = yaml.load(reader)
+                successful_samples = yaml.load(reader) or []
                 for level_id, sample_id, result in successful_samples:
                     successful.setdefault(level_id, []).append((sample_id, result))
 
         # Save failed results
         if os.path.exists(os.path.join(jobs_dir, PbsJob.FAILED_RESULTS.format(job_id))):
             with open(os.path.join(jobs_dir, PbsJob.FAILED_RESULTS.format(job_id)), "r") as reader:
-                failed_samples = yaml.load(reader)
+                failed_samples = yaml.load(reader) or []
                 for level_id, sample_id, err_msg in failed_samples:
                     failed.setdefault(level_id, []).append((sample_id, err_msg))
 
         # Save time
         if os.path.exists(os.path.join(jobs_dir, PbsJob.TIME.format(job_id))):
             with open(os.path.join(jobs_dir, PbsJob.TIME.format(job_id)), "r") as reader:
-                times = yaml.load(reader)
+                times = yaml.load(reader) or []
                 for level_id, n_samples, t in times:
                     time.setdefault(level_id, []).append((n_samples, t))
 
-- 
2.43.0


From fb3581a54c5eef34452a910693725a9bb84eebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:23 +0000
Subject: [PATCH 27/57] fix: samples waiting for submission to PBS are counted
 as running

---
 mlmc/sampling_pool_pbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index 69b7f62..982ee18 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -329,8 +329,8 @@ class SamplingPoolPBS(SamplingPool):
                  n_running: int, number of running samples
                  times:
         """
-        # Get number of running samples
-        n_running = 0
+        # Get number of running samples, including those whose submission failed so far
+        n_running = len(self._scheduled)
         for pbs_id in unfinished_pbs_jobs:
             reg = os.path.join(glob.escape(self._jobs_dir), "*_{}".format(pbs_id))
             file = glob.glob(reg)
-- 
2.43.0


From 833e480e466c0da3ab1ea69ace6a5986acc6cb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:09 +0000
Subject: [PATCH 28/57] fix: a new PBS pool continues after the highest job id
 in the work directory

---
 mlmc/sampling_pool_pbs.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index 982ee18..4018b37 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -96,13 +96,8 @@ class SamplingPoolPBS(SamplingPool):
         Get number of created jobs
         :return:
         """
-        files_pattern = os.path.join(self._jobs_dir, "*_job.sh")
-        files = glob.glob(files_pattern)
-        if not files:
-            return 0
-
-        job_id = re.findall(r'(\d+)_job.sh', files[-1])[0]
-        return int(job_id) + 1
+        job_ids = [re.match(r'(\d+)_', file) for file in os.listdir(self._jobs_dir)]
+        return max([int(job_id.group(1)) + 1 for job_id in job_ids if job_id], default=0)
 
     def _save_structure(self):
         """
-- 
2.43.0


From abddaaea264aad5b7471cda951113c9380acc53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:35 +0000
Subject: [PATCH 29/57] fix: samples of a crashed main process are collected
 from their jobs, with failures, once the job has ended

---
 mlmc/sampling_pool_pbs.py | 101 +++++++++++++++++++++-----------------
 mlmc/tool/pbs_job.py      |  20 +++++---
 2 files changed, 69 insertions(+), 52 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index 4018b37..c707ca5 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -81,6 +81,10 @@ class SamplingPoolPBS(SamplingPool):
         # List of pbs job ids which should run
         self._unfinished_sample_ids = set()
         # List of sample id which are not collected - collection attempts are done in the get_finished()
+        self._resumed_jobs = {}
+        # Jobs of the crashed main process which are not collected yet, Dict[job_id, Set[sample_id]]
+        self._resumed_pbs_ids = set()
+        # Their pbs ids
         self._debug = debug
         # If true then keep sample directories
         super().__init__(self._work_dir, self._debug)
@@ -287,11 +291,14 @@ class SamplingPoolPBS(SamplingPool):
             # qstat call
             process = subprocess.run(qstat_call, stderr=subprocess.PIPE, stdout=subprocess.PIPE)
             try:
-                if process.returncode != 0:
+                # Job of the crashed main process could have finished so long ago that it is not known anymore
+                forgotten = [pbs_id for pbs_id in re.findall(r"Unknown Job Id (\d+)", process.stderr.decode("ascii"))
+                             if pbs_id in self._resumed_pbs_ids]
+                if process.returncode != 0 and not forgotten:
                     raise Exception(process.stderr.decode("ascii"))
                 output = process.stdout.decode("ascii")
                 # Find all finished jobs
-                finished_pbs_jobs = re.findall(r"(\d+)\..*\d+ F", output)
+                finished_pbs_jobs = re.findall(r"(\d+)\..*\d+ F", output) + forgotten
                 self._qstat_failed_n = 0
             except:
                 self._qstat_failed_n += 1
@@ -344,20 +351,9 @@ class SamplingPoolPBS(SamplingPool):
                 # Find jobID
                 file = file[0]
                 job_id = re.findall(r'(\d+)_\d+', os.path.basename(file))[0]
-                # Get sample results
-                successful, failed, time = PbsJob.read_results(job_id, self._jobs_dir)
-
-                # Split results to levels
-                for level_id, results in successful.items():
-                    successful_results.setdefault(level_id, []).extend(results)
-                for level_id, results in failed.items():
-                    failed_results.setdefault(level_id, []).extend(results)
-                for level_id, results in time.items():
-                    if level_id in times:
-                        times[level_id][0] += results[-1][0]
-                        times[level_id][1] += results[-1][1]
-                    else:
-                        times[level_id] = list(results[-1])
+                # Get sample results, just samples unfinished before the crash in case of a resumed job
+                self._add_results(job_id, successful_results, failed_results, times,
+                                  self._resumed_jobs.pop(job_id, None))
 
                 # Delete pbsID file - it means job is finished
                 SamplingPoolPBS.delete_pbs_id_file(file)
@@ -376,45 +372,60 @@ class SamplingPoolPBS(SamplingPool):
         :param times: dict
         :return: all input dictionaries
         """
-        already_collected = set()
-        for sample_id in self._unfinished_sample_ids:
-            if sample_id in already_collected:
-                continue
-
-            job_id = PbsJob.job_id_from_sample_id(sample_id, self._jobs_dir)
-            successful, failed, time = PbsJob.read_results(job_id, self._jobs_dir)
-
-            # Split results to levels
-            for level_id, results in successful.items():
-                for res in results:
-                    if res[0] in self._unfinished_sample_ids:
-                        already_collected.add(res[0])
-                        successful_results.setdefault(level_id, []).append(res)
-
-            for level_id, results in failed_results.items():
-                for res in results:
-                    if res[0] in self._unfinished_sample_ids:
-                        already_collected.add(res[0])
-                        failed_results.setdefault(level_id, []).append(res)
-
-            for level_id, results in times.items():
-                for res in results:
-                    if res[0] in self._unfinished_sample_ids:
-                        times.setdefault(level_id, []).append(res)
-                times[level_id] = results
-
-            # Delete pbsID file - it means job is finished
-            # SamplingPoolPBS.delete_pbs_id_file(file)
+        unfinished_jobs = PbsJob.sample_ids_by_job(self._unfinished_sample_ids, self._jobs_dir)
+        for job_id, sample_ids in unfinished_jobs.items():
+            if job_id is None:
+                # Main process crashed before the sample got to a job
+                for sample_id in sorted(sample_ids):
+                    level_id = int(re.match(r'L(\d+)_', sample_id).group(1))
+                    failed_results.setdefault(level_id, []).append((sample_id, "sample was not submitted"))
+            else:
+                self._add_results(job_id, successful_results, failed_results, times, sample_ids)
 
         self._unfinished_sample_ids = set()
 
         return successful_results, failed_results, times
 
+    def _add_results(self, job_id, successful_results, failed_results, times, sample_ids=None):
+        """
+        Add results of given job
+        :param job_id: str
+        :param successful_results: dict
+        :param failed_results: dict
+        :param times: dict
+        :param sample_ids: set, if given other samples of the job are left out
+        :return: None
+        """
+        successful, failed, time = PbsJob.read_results(job_id, self._jobs_dir)
+        for job_results, all_results in ((successful, successful_results), (failed, failed_results)):
+            for level_id, results in job_results.items():
+                results = [res for res in results if sample_ids is None or res[0] in sample_ids]
+                if results:
+                    all_results.setdefault(level_id, []).extend(results)
+
+        if sample_ids is not None and PbsJob.get_job_n_running(job_id, self._jobs_dir) > len(sample_ids):
+            return  # Time of the remaining samples is not known
+        for level_id, results in time.items():
+            if level_id in times:
+                times[level_id][0] += results[-1][0]
+                times[level_id][1] += results[-1][1]
+            else:
+                times[level_id] = list(results[-1])
+
     def have_permanent_samples(self, sample_ids):
         """
         List of unfinished sample ids, the corresponding samples are collecting in next get_finished() call .
+        Samples of jobs which have not been collected yet are collected when the job is finished.
         """
         self._unfinished_sample_ids = set(sample_ids)
+        unfinished_jobs = PbsJob.sample_ids_by_job(self._unfinished_sample_ids, self._jobs_dir)
+        for file in sorted(os.listdir(self._jobs_dir)):
+            ids = re.fullmatch(r'(\d+)_(\d+)', file)  # JobID_PbsId file
+            if ids and ids.group(1) in unfinished_jobs and ids.group(2) not in self._pbs_ids:
+                self._pbs_ids.append(ids.group(2))
+                self._resumed_jobs[ids.group(1)] = unfinished_jobs[ids.group(1)]
+                self._unfinished_sample_ids -= unfinished_jobs[ids.group(1)]
+                self._resumed_pbs_ids.add(ids.group(2))
 
     @staticmethod
     def delete_pbs_id_file(file_path):
diff --git a/mlmc/tool/pbs_job.py b/mlmc/tool/pbs_job.py
index c7372d4..b96d70d 100644
--- a/mlmc/tool/pbs_job.py
+++ b/mlmc/tool/pbs_job.py
@@ -248,17 +248,23 @@ class PbsJob:
             json.dump(saved_ids, file)
 
     @staticmethod
-    def job_id_from_sample_id(sample_id, jobs_dir):
+    def sample_ids_by_job(sample_ids, jobs_dir):
         """
-        Get job ID for given sample ID
-        :param sample_id: str
+        Split samples to their jobs
+        :param sample_ids: iterable of sample ids
         :param jobs_dir: jobs directory with results
-        :return: str, job id
+        :return: Dict[job_id, Set[sample_id]], job_id is None for samples which are not in any job
         """
         sample_id_job_id_file = os.path.join(jobs_dir, PbsJob.SAMPLE_ID_JOB_ID)
-        with open(sample_id_job_id_file, "r") as file:
-            saved_ids = json.load(file)
-        return saved_ids[sample_id]
+        saved_ids = {}
+        if os.path.exists(sample_id_job_id_file):
+            with open(sample_id_job_id_file, "r") as file:
+                saved_ids = json.load(file)
+
+        jobs = {}
+        for sample_id in sample_ids:
+            jobs.setdefault(saved_ids.get(sample_id), set()).add(sample_id)
+        return jobs
 
     def _append_file(self, data, path):
         """
-- 
2.43.0


From 78ce1a821c74bba50a42015718acab4d9a339bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:16 +0000
Subject: [PATCH 30/57] fix: files of PBS jobs are complete whenever the main
 process crashes

---
 mlmc/sampling_pool_pbs.py |  6 +++---
 mlmc/tool/pbs_job.py      | 19 ++++++++++++++++---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index c707ca5..8246e24 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -7,7 +7,7 @@ import json
 import glob
 from mlmc.level_simulation import LevelSimulation
 from mlmc.sampling_pool import SamplingPool
-from mlmc.tool.pbs_job import PbsJob
+from mlmc.tool.pbs_job import PbsJob, replace_file
 
 """
 SamplingPoolPBS description
@@ -191,7 +191,7 @@ class SamplingPoolPBS(SamplingPool):
         file_path = os.path.join(self._output_dir, SamplingPoolPBS.LEVEL_SIM_CONFIG.format(level_sim._level_id))
 
         if not os.path.exists(file_path):
-            with open(file_path, "wb") as f:
+            with replace_file(file_path, "wb") as f:
                 pickle.dump(level_sim, f)
 
     def execute(self):
@@ -205,9 +205,9 @@ class SamplingPoolPBS(SamplingPool):
             pbs_process = PbsJob.create_job(self._output_dir, self._jobs_dir, job_id,
                                             SamplingPoolPBS.LEVEL_SIM_CONFIG, self._debug)
 
-            pbs_process.save_sample_id_job_id(job_id, self._scheduled)
             # Write scheduled samples to file
             pbs_process.save_scheduled(self._scheduled)
+            pbs_process.save_sample_id_job_id(job_id, self._scheduled)
 
             # Format pbs script
             self._create_script()
diff --git a/mlmc/tool/pbs_job.py b/mlmc/tool/pbs_job.py
index b96d70d..0e60015 100644
--- a/mlmc/tool/pbs_job.py
+++ b/mlmc/tool/pbs_job.py
@@ -5,12 +5,25 @@ import warnings
 import json
 import ruamel.yaml as yaml
 import pickle
+from contextlib import contextmanager
 from mlmc.sampling_pool import SamplingPool
 from ruamel.yaml.error import ReusedAnchorWarning, UnsafeLoaderWarning
 warnings.simplefilter("ignore", UnsafeLoaderWarning)
 warnings.simplefilter("ignore", ReusedAnchorWarning)
 
 
+@contextmanager
+def replace_file(path, mode="w"):
+    """
+    Open file for writing, original file is replaced when the content is complete
+    :param path: str, file path
+    :param mode: str, file mode
+    """
+    with open(path + ".tmp", mode) as file:
+        yield file
+    os.replace(path + ".tmp", path)
+
+
 class PbsJob:
     SCHEDULED = "{}_scheduled.yaml"
     # Store scheduled samples as List[(level_sim._level_id, sample_id, seed)]
@@ -82,7 +95,7 @@ class PbsJob:
         :return: None
         """
         if not os.path.exists(os.path.join(pbs_process._output_dir, PbsJob.CLASS_FILE)):
-            with open(os.path.join(pbs_process._output_dir, PbsJob.CLASS_FILE), "w") as writer:
+            with replace_file(os.path.join(pbs_process._output_dir, PbsJob.CLASS_FILE)) as writer:
                 writer.write(pbs_process._jobs_dir + ";")
                 writer.write(pbs_process._level_sim_file + ";")
                 writer.write(str(pbs_process._debug) + ";")
@@ -243,7 +256,7 @@ class PbsJob:
             with open(sample_id_job_id_file, "r") as file:
                 saved_ids = json.load(file)
 
-        with open(sample_id_job_id_file, "w") as file:
+        with replace_file(sample_id_job_id_file) as file:
             saved_ids.update(new_ids)
             json.dump(saved_ids, file)
 
@@ -372,7 +385,7 @@ class PbsJob:
         :return: None
         """
         try:
-            with open(os.path.join(self._jobs_dir, PbsJob.SCHEDULED.format(self._job_id)), "w") as file:
+            with replace_file(os.path.join(self._jobs_dir, PbsJob.SCHEDULED.format(self._job_id))) as file:
                 yaml.dump(scheduled, file)
         except FileNotFoundError:
             print("Make sure you call _create_files method previously")
-- 
2.43.0


From fa0f86cf1f21507c2ddfa03ad95fbd4b712217f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:33 +0000
Subject: [PATCH 31/57] fix: ids and results of collected samples are stored
 together

---
 mlmc/tool/hdf5.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index c0d1278..9cfaf7b 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -306,8 +306,6 @@ class LevelGroup:
         :param samples: np.ndarray
         :return: None
         """
-        self._append_dataset(self.collected_ids_dset, samples[:, 0])
-
         values = samples[:, 1]
         result_type = np.dtype((np.float, np.array(values[0]).shape))
 
@@ -316,8 +314,9 @@ class LevelGroup:
                            dtype=result_type, maxshape=(None,),
                            chunks=True)
 
+        # Ids and results are written together
         d_name = 'collected_values'
-        self._append_dataset(d_name, [val for val in values])
+        self._append_datasets({self.collected_ids_dset: samples[:, 0], d_name: [val for val in values]})
 
     def append_failed(self, failed_samples):
         """
@@ -334,12 +333,21 @@ class LevelGroup:
         :param values: list of values (tuple, NumPy array or single value)
         :return: None
         """
+        self._append_datasets({dataset_name: values})
+
+    def _append_datasets(self, datasets):
+        """
+        Append values to several existing datasets
+        :param datasets: Dict[dataset name: str, list of values]
+        :return: None
+        """
         with h5py.File(self.file_name, 'a') as hdf_file:
-            dataset = hdf_file[self.level_group_path][dataset_name]
-            # Resize dataset
-            dataset.resize(dataset.shape[0] + len(values), axis=0)
-            # Append new values to the end of dataset
-            dataset[-len(values):] = values
+            for dataset_name, values in datasets.items():
+                dataset = hdf_file[self.level_group_path][dataset_name]
+                # Resize dataset
+                dataset.resize(dataset.shape[0] + len(values), axis=0)
+                # Append new values to the end of dataset
+                dataset[-len(values):] = values
 
     def scheduled(self):
         """
-- 
2.43.0


From e0bed188d8eca4a0ac9e5050ef75ef55cdcb99d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:05 +0000
Subject: [PATCH 32/57] fix: quantity specifications with different locations
 are not equal

---
 mlmc/quantity/quantity_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/quantity/quantity_spec.py b/mlmc/quantity/quantity_spec.py
index ea25dc6..e174137 100644
--- a/mlmc/quantity/quantity_spec.py
+++ b/mlmc/quantity/quantity_spec.py
@@ -16,7 +16,7 @@ class QuantitySpec:
         if (self.name, self.unit) == (other.name, other.unit) \
                 and np.array_equal(self.shape, other.shape)\
                 and np.array_equal(self.times, other.times)\
-                and not (set(self.locations) - set(other.locations)):
+                and np.array_equal(self.locations, other.locations):
             return True
         return False
 
-- 
2.43.0


From f621c790d5c799261e13a3fc36a9d1f9e13a4cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:06 +0000
Subject: [PATCH 33/57] fix: result format of every quantity is stored with its
 own shape, times and locations

---
 mlmc/sample_storage_hdf.py | 28 ++++++++++++++++------------
 mlmc/tool/hdf5.py          |  5 +++--
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index cf855d0..360e280 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -1,4 +1,5 @@
 import os
+import h5py
 import numpy as np
 from typing import List
 from mlmc.sample_storage import SampleStorage
@@ -33,23 +34,21 @@ class SampleStorageHDF(SampleStorage):
                 for i_level in range(len(self._hdf_object.level_parameters)):
                     self._level_groups.append(self._hdf_object.add_level_group(str(i_level)))
 
-    def _hdf_result_format(self, locations, times):
+    def _hdf_result_format(self, result_format):
         """
         QuantitySpec data type, necessary for hdf storage
+        :param result_format: List[QuantitySpec]
         :return:
         """
-        if len(locations[0]) == 3:
-            tuple_dtype = np.dtype((np.float, (3,)))
-            loc_dtype = np.dtype((tuple_dtype, (len(locations),)))
-        else:
-            loc_dtype = np.dtype(('S50', (len(locations),)))
+        # Locations are either names or coordinates
+        loc_dtype = 'S50' if isinstance(result_format[0].locations[0], str) else float
 
         result_dtype = {'names': ('name', 'unit', 'shape', 'times', 'locations'),
                         'formats': ('S50',
                                     'S50',
-                                    np.dtype((np.int32, (2,))),
-                                    np.dtype((np.float, (len(times),))),
-                                    loc_dtype
+                                    h5py.vlen_dtype(np.int32),
+                                    h5py.vlen_dtype(np.float64),
+                                    h5py.vlen_dtype(np.dtype(loc_dtype))
                                     )
                         }
 
@@ -62,7 +61,7 @@ class SampleStorageHDF(SampleStorage):
         :param result_format: simulation result format
         :return: None
         """
-        res_dtype = self._hdf_result_format(result_format[0].locations, result_format[0].times)
+        res_dtype = self._hdf_result_format(result_format)
 
         # Create file structure
         self._hdf_object.create_file_structure(level_parameters)
@@ -94,6 +93,7 @@ class SampleStorageHDF(SampleStorage):
         try:
             if self.load_result_format() != result_format:
                 raise ValueError('You are setting a new different result format for an existing sample storage')
+            return
         except AttributeError:
             pass
         self._hdf_object.save_result_format(result_format, res_dtype)
@@ -105,8 +105,12 @@ class SampleStorageHDF(SampleStorage):
         results_format = self._hdf_object.load_result_format()
         quantities = []
         for res_format in results_format:
-            spec = QuantitySpec(res_format[0].decode(), res_format[1].decode(), res_format[2], res_format[3],
-                                [loc.decode() for loc in res_format[4]])
+            locations = res_format[4]
+            if locations.dtype.kind == 'S':
+                locations = [loc.decode() for loc in locations]
+            else:
+                locations = [tuple(loc) for loc in locations.reshape(-1, 3)]
+            spec = QuantitySpec(res_format[0].decode(), res_format[1].decode(), res_format[2], res_format[3], locations)
 
             quantities.append(spec)
 
diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index 9cfaf7b..d0596ec 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -152,8 +152,9 @@ class HDF5:
         result_array = np.empty((len(result_format),), dtype=result_format_dtype)
         for res, quantity_spec in zip(result_array, result_format):
             for attribute in list(quantity_spec.__dict__.keys()):
-                if isinstance(getattr(quantity_spec, attribute), (tuple, list)):
-                    res[attribute][:] = getattr(quantity_spec, attribute)
+                item_dtype = h5py.check_vlen_dtype(result_array.dtype[attribute])
+                if item_dtype is not None:
+                    res[attribute] = np.array(getattr(quantity_spec, attribute), dtype=item_dtype).flatten()
                 else:
                     res[attribute] = getattr(quantity_spec, attribute)
 
-- 
2.43.0


From 1a8b890fed459f2a98053a53cec1d36d104189e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:37 +0000
Subject: [PATCH 34/57] fix: existing storage refuses a result format with
 different locations

---
 mlmc/quantity/quantity_spec.py | 2 +-
 mlmc/sample_storage_hdf.py     | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/mlmc/quantity/quantity_spec.py b/mlmc/quantity/quantity_spec.py
index e174137..ea25dc6 100644
--- a/mlmc/quantity/quantity_spec.py
+++ b/mlmc/quantity/quantity_spec.py
@@ -16,7 +16,7 @@ class QuantitySpec:
         if (self.name, self.unit) == (other.name, other.unit) \
                 and np.array_equal(self.shape, other.shape)\
                 and np.array_equal(self.times, other.times)\
-                and np.array_equal(self.locations, other.locations):
+                and not (set(self.locations) - set(other.locations)):
             return True
         return False
 
diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index 360e280..f05fa04 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -91,7 +91,10 @@ class SampleStorageHDF(SampleStorage):
         :return: None
         """
         try:
-            if self.load_result_format() != result_format:
+            stored = self.load_result_format()
+            # Note: equality of specifications compares locations as subsets only
+            if stored != result_format or \
+                    not all(np.array_equal(s.locations, r.locations) for s, r in zip(stored, result_format)):
                 raise ValueError('You are setting a new different result format for an existing sample storage')
             return
         except AttributeError:
-- 
2.43.0


From e2e9c5e9880600744ff2d82b252377fb420ab33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:37 +0000
Subject: [PATCH 35/57] fix: deviations given by a list or kept from the
 previous call of set_points

---
 mlmc/random/correlated_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index ba83e15..e98f509 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -339,7 +339,7 @@ class RandomFieldBase:
         if sigma is not None:
             self.sigma = sigma
         self.sigma = np.array(self.sigma, dtype=float)
-        assert self.sigma.shape == () or sigma.shape == (len(points),)
+        assert self.sigma.shape == () or self.sigma.shape == (len(points),)
 
     def _set_points(self):
         pass
-- 
2.43.0


From 75871feef76ccf341b9ce6b56cddac01d536777b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:37 +0000
Subject: [PATCH 36/57] fix: setting new points discards the covariance factor
 of the old ones

---
 mlmc/random/correlated_field.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index e98f509..f3f53df 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -340,6 +340,7 @@ class RandomFieldBase:
             self.sigma = sigma
         self.sigma = np.array(self.sigma, dtype=float)
         assert self.sigma.shape == () or self.sigma.shape == (len(points),)
+        self._set_points()
 
     def _set_points(self):
         pass
-- 
2.43.0


From ee99c0d01232092cf1c5150dd22fc79358ab7c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:37 +0000
Subject: [PATCH 37/57] fix: number of terms of the covariance decomposition
 found by bisection

---
 mlmc/random/correlated_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index f3f53df..2738675 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -467,7 +467,7 @@ class SpatialCorrelatedField(RandomFieldBase):
                 m = range[1]
             else:
                 f = lambda m: self._eigen_value_estimate(m) - precision
-                m = sp.optmize.bisect(f, range[0], range[1], xtol=0.5, )
+                m = int(np.ceil(sp.optimize.bisect(f, range[0], range[1], xtol=0.5)))
 
             m = max(m, range[0])
             threshold = 2 * precision
-- 
2.43.0


From a986cbcb1fa6d30296f87630e52e3fa66b82e77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:37 +0000
Subject: [PATCH 38/57] fix: decomposition of the covariance uses up to the
 allowed number of terms

---
 mlmc/random/correlated_field.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index 2738675..4c25c21 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -472,11 +472,13 @@ class SpatialCorrelatedField(RandomFieldBase):
             m = max(m, range[0])
             threshold = 2 * precision
             # TODO: Test if we should cut eigen values by relative (like now) or absolute value
-            while threshold >= precision and m <= range[1]:
+            while threshold >= precision:
                 #print("treshold: {} m: {} precision: {} max_m: {}".format(threshold,  m, precision, range[1]))
                 U, ev, VT = randomized_svd(self.cov_mat, n_components=m, n_iter=3, random_state=None)
                 threshold = ev[-1] / ev[0]
-                m = int(np.ceil(1.5 * m))
+                if m >= range[1]:
+                    break
+                m = min(int(np.ceil(1.5 * m)), range[1])
 
             m = len(ev)
             m = min(m, range[1])
-- 
2.43.0


From dc798e4e29df0cd6f1b0c27b2869fb68f14a0b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:37 +0000
Subject: [PATCH 39/57] fix: points of fields can be set without regions

---
 mlmc/random/correlated_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index 4c25c21..e9d6e3a 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -198,7 +198,7 @@ class Fields:
         :return:
         """
         self.n_elements = len(points)
-        assert len(points) == len(region_ids)
+        assert len(region_ids) in (0, len(points))
         reg_points = {}
         for i, reg_id in enumerate(region_ids):
             reg_list = reg_points.get(reg_id, [])
-- 
2.43.0


From e100b4cf962dcf3c7ddeb622aad8a7c1d563e51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:37 +0000
Subject: [PATCH 40/57] fix: random field of a region without points is empty

---
 mlmc/random/correlated_field.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index e9d6e3a..52a5143 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -86,6 +86,9 @@ class Field:
         if self.const is not None:
             self._sample = self.const * np.ones(len(points))
         elif self.correlated_field is not None:
+            self._n_points = len(points)
+            if self._n_points == 0:
+                return
             self.correlated_field.set_points(points)
             if type(self.correlated_field) is  SpatialCorrelatedField:
                 # TODO: make n_terms_range an optianal parmater for SpatialCorrelatedField
@@ -101,7 +104,7 @@ class Field:
         if self.const is not None:
             return self._sample
         elif self.correlated_field is not None:
-            self._sample = self.correlated_field.sample()
+            self._sample = self.correlated_field.sample() if self._n_points > 0 else np.zeros(0)
         else:
             params = [ pf._sample for pf in self.param_fields]
             self._sample = self._func(*params)
-- 
2.43.0


From 592356f97c3f7cfe6e705341c50782684108bd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:37 +0000
Subject: [PATCH 41/57] fix: a random field used by more fields of a set has
 own points in each of them

---
 mlmc/random/correlated_field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index 52a5143..f470926 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -144,6 +144,9 @@ class Fields:
         # and the given instances of Field can be used by an independent FieldSet instance.
         for field in self.fields_orig:
             new_field = copy.copy(field)
+            if any(new_field.correlated_field is f.correlated_field for f in self.fields if f.correlated_field is not None):
+                # every field has its own points
+                new_field.correlated_field = copy.copy(new_field.correlated_field)
             if new_field.param_fields:
                 new_field.param_fields = [self._get_field_obj(field, new_field.regions) for field in new_field.param_fields]
             self.fields_dict[new_field.name] = new_field
-- 
2.43.0


From 9f5de99bb1f221d17fbabd3af0c953253efc98e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:35 +0000
Subject: [PATCH 42/57] fix: domain is estimated from the samples of every
 level

---
 mlmc/estimator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index af4f6e0..df96bc8 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -291,8 +291,9 @@ class Estimate:
             except AttributeError:
                 print("No collected values for level {}".format(level_id))
                 break
-            chunk_spec = next(sample_storage.chunks(n_samples=sample_storage.get_n_collected()[level_id]))
-            fine_samples = quantity.samples(chunk_spec)[..., 0]  # Fine samples at level 0
+            chunk_spec = next(sample_storage.chunks(level_id=level_id,
+                                                    n_samples=sample_storage.get_n_collected()[level_id]))
+            fine_samples = quantity.samples(chunk_spec)[..., 0]  # Fine samples
 
             fine_samples = np.squeeze(fine_samples)
             fine_samples = fine_samples[~np.isnan(fine_samples)]  # remove NaN
-- 
2.43.0


From b10d803fb04966916e5282bcbbb77fc1fc4498f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:31 +0000
Subject: [PATCH 43/57] fix: domain estimate of the module is the one of the
 Estimate class

---
 mlmc/estimator.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index df96bc8..f0235b7 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -350,18 +350,7 @@ def estimate_domain(quantity, sample_storage, quantile=None):
     :param quantile: float in interval (0, 1), None means whole sample range
     :return: lower_bound, upper_bound
     """
-    ranges = []
-    if quantile is None:
-        quantile = 0.01
-
-    for level_id in range(sample_storage.get_n_levels()):
-        fine_samples = quantity.samples(ChunkSpec(level_id=level_id, n_samples=sample_storage.get_n_collected()[0]))[..., 0]
-
-        fine_samples = np.squeeze(fine_samples)
-        ranges.append(np.percentile(fine_samples, [100 * quantile, 100 * (1 - quantile)]))
-
-    ranges = np.array(ranges)
-    return np.min(ranges[:, 0]), np.max(ranges[:, 1])
+    return Estimate.estimate_domain(quantity, sample_storage, quantile)
 
 
 def estimate_n_samples_for_target_variance(target_variance, prescribe_vars, n_ops, n_levels):
-- 
2.43.0


From f83e6326794a16c1401f811fd7922011304a07eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:54 +0000
Subject: [PATCH 44/57] fix: bootstrap estimates use the subsampled quantity

---
 mlmc/estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index f0235b7..f3dcb00 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -183,7 +183,7 @@ class Estimate:
         bs_l_means = []
         bs_l_vars = []
         for i in range(n_subsamples):
-            quantity_subsample = self.quantity.select(self.quantity.subsample(sample_vec=sample_vector))
+            quantity_subsample = self.quantity.subsample(sample_vec=sample_vector)
             moments_quantity = qe.moments(quantity_subsample, moments_fn=moments_fn, mom_at_bottom=False)
             q_mean = qe.estimate_mean(moments_quantity)
 
-- 
2.43.0


From 8f2afd58d6336415a78cb5143e5ce28baac8a350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:54 +0000
Subject: [PATCH 45/57] fix: subsampling of a level split into chunks draws the
 requested number of samples

---
 mlmc/quantity/quantity.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index 93ad432..d6f87aa 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -355,15 +355,17 @@ class Quantity:
         # Create a QuantityConst of dictionary in the sense of hashing dictionary items
         quantity_subsample_params = Quantity.wrap(hash(frozenset(subsample_level_params.items())))
 
-        def adjust_value(values, level_id):
+        def adjust_value(values, level_id, chunk_id):
             """
             Custom implementation of QuantityConst.adjust_value()
             It allows us to get different parameters for different levels
             """
             subsample_l_params_obj = subsample_level_params[level_id]
-            subsample_l_params_obj.k = subsample_l_params_obj._orig_k
-            subsample_l_params_obj.n = subsample_l_params_obj._orig_n
-            subsample_l_params_obj.total_n = subsample_l_params_obj._orig_total_n
+            # The first chunk of the level starts new subsampling, others continue
+            if not chunk_id:
+                subsample_l_params_obj.k = subsample_l_params_obj._orig_k
+                subsample_l_params_obj.n = subsample_l_params_obj._orig_n
+                subsample_l_params_obj.total_n = subsample_l_params_obj._orig_total_n
             return subsample_l_params_obj
         quantity_subsample_params._adjust_value = adjust_value
 
@@ -552,12 +554,13 @@ class QuantityConst(Quantity):
         """
         return self._selection_id
 
-    def _adjust_value(self, value, level_id=None):
+    def _adjust_value(self, value, level_id=None, chunk_id=None):
         """
         Allows process value based on chunk_epc params (such as level_id, ...).
         The custom implementation is used in Qunatity.subsample method
         :param value: np.ndarray
         :param level_id: int
+        :param chunk_id: int
         :return: np.ndarray, particular type depends on implementation
         """
         return value
@@ -569,7 +572,7 @@ class QuantityConst(Quantity):
         :param chunk_spec: object containing chunk identifier level identifier and chunk_slice - slice() object
         :return: np.ndarray
         """
-        return self._adjust_value(self._value, chunk_spec.level_id)
+        return self._adjust_value(self._value, chunk_spec.level_id, chunk_spec.chunk_id)
 
 
 class QuantityMean:
-- 
2.43.0


From 3da15ebc552a99e7aaedffd7c992a6c9a3bacb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 46/57] fix: normalization of the fitted density divides it by
 its integral

---
 mlmc/tool/simple_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/tool/simple_distribution.py b/mlmc/tool/simple_distribution.py
index 77513f6..dd3bf76 100644
--- a/mlmc/tool/simple_distribution.py
+++ b/mlmc/tool/simple_distribution.py
@@ -83,7 +83,7 @@ class SimpleDistribution:
         m0 = sc.integrate.quad(self.density, self.domain[0], self.domain[1])[0]
         if self._verbose:
             print("moment[0]: {} m0: {}".format(moment_0, m0))
-        self.multipliers[0] -= np.log(moment_0)
+        self.multipliers[0] += np.log(moment_0) * self._moment_errs[0]
 
         if result.success or jac_norm < tol:
             result.success = True
-- 
2.43.0


From 3e07e5df975eb85c699f53d341b752ee1a115406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 47/57] fix: cumulative distribution function of values in any
 order

---
 mlmc/tool/simple_distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/tool/simple_distribution.py b/mlmc/tool/simple_distribution.py
index dd3bf76..252c029 100644
--- a/mlmc/tool/simple_distribution.py
+++ b/mlmc/tool/simple_distribution.py
@@ -114,9 +114,9 @@ class SimpleDistribution:
 
         for i, val in enumerate(values):
             if val <= self.domain[0]:
-                last_y = 0
+                last_x, last_y = self.domain[0], 0
             elif val >= self.domain[1]:
-                last_y = 1
+                last_x, last_y = self.domain[1], 1
             else:
                 dy = integrate.fixed_quad(self.density, last_x, val, n=10)[0]
                 last_x = val
-- 
2.43.0


From 4d33ce2bda564b1a768eaeab9616530a15af5263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:15 +0000
Subject: [PATCH 48/57] fix: the constant is the first of orthogonal moments
 also if eigenvalues are cut

---
 mlmc/tool/simple_distribution.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mlmc/tool/simple_distribution.py b/mlmc/tool/simple_distribution.py
index 252c029..4f1938d 100644
--- a/mlmc/tool/simple_distribution.py
+++ b/mlmc/tool/simple_distribution.py
@@ -817,6 +817,12 @@ def construct_ortogonal_moments(moments, cov, tol=None):
     if L_mn[0, 0] < 0:
         L_mn = -L_mn
 
+    if threshold > 0:
+        # R_nm is only trapezoidal, rotate the basis to have the constant moment as the first one
+        const = L_mn @ cov[:, 0]
+        sign = -1 if const[0] < 0 else 1
+        const[0] += sign
+        L_mn = -sign * (L_mn - 2 * np.outer(const, const @ L_mn) / (const @ const))
 
     ortogonal_moments = mlmc.moments.TransformedMoments(moments, L_mn)
     #ortogonal_moments = mlmc.moments.TransformedMoments(moments, cov_sqrt_t.T)
-- 
2.43.0


From e0a116c2c121a9b6796874fa63a7d75930ee1d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:33 +0000
Subject: [PATCH 49/57] fix: mesh reader keeps elements with few columns and
 element data with more components

---
 mlmc/tool/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/tool/gmsh_io.py b/mlmc/tool/gmsh_io.py
index c5a3ad3..46cd4dd 100644
--- a/mlmc/tool/gmsh_io.py
+++ b/mlmc/tool/gmsh_io.py
@@ -143,7 +143,7 @@ class GmshIO:
                     except ValueError:
                         print('Node format error: ' + line, ERROR)
                         readmode = 0
-                elif ftype == 0 and readmode > 1 and len(columns) > 5:
+                elif ftype == 0 and readmode in (2, 3) and len(columns) > 3:
                     # Version 1.0 or 2.0 Elements
                     try:
                         columns = [int(col) for col in columns]
-- 
2.43.0


From a7857f9d3c1c2f31bc8e80b454c40ce9e2824c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:33 +0000
Subject: [PATCH 50/57] fix: physical names are read as they were written

---
 mlmc/tool/gmsh_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlmc/tool/gmsh_io.py b/mlmc/tool/gmsh_io.py
index 46cd4dd..6fd8ad4 100644
--- a/mlmc/tool/gmsh_io.py
+++ b/mlmc/tool/gmsh_io.py
@@ -117,8 +117,9 @@ class GmshIO:
                     self.current_elem_data[ele_idx] = comp_values
 
                 if readmode == 5:
+                    columns = line.split(None, 2)
                     if len(columns) == 3:
-                        self.physical[str(columns[2])] = (int(columns[1]), int(columns[0]))
+                        self.physical[columns[2].strip('"')] = (int(columns[1]), int(columns[0]))
 
                 if readmode == 4:
                     if len(columns) == 3:
-- 
2.43.0


From 4d7797d157b2ba6cc6814bbe8e523573ccfd8525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:33 +0000
Subject: [PATCH 51/57] fix: fields can be written to the current mesh file

---
 mlmc/tool/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/tool/gmsh_io.py b/mlmc/tool/gmsh_io.py
index 6fd8ad4..2fdd10b 100644
--- a/mlmc/tool/gmsh_io.py
+++ b/mlmc/tool/gmsh_io.py
@@ -296,7 +296,7 @@ class GmshIO:
         :param fields: {'field_name' : values_array, ..}
         """
         if not msh_file:
-            msh_file = open(self.filename, 'w')
+            msh_file = self.filename
         with open(msh_file, "w") as fout:
             fout.write('$MeshFormat\n2.2 0 8\n$EndMeshFormat\n')
             for name, values in fields.items():
-- 
2.43.0


From ecd94c3e6a4061aed3a07ab44e9e54a68b90e6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:57 +0000
Subject: [PATCH 52/57] fix: quantities of the same structure can be composed

Types were compared by identity, so parts of two quantities with the same
shape, times and locations could not be put into one array, series or field.
---
 mlmc/quantity/quantity_types.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/mlmc/quantity/quantity_types.py b/mlmc/quantity/quantity_types.py
index 9af8943..07a7064 100644
--- a/mlmc/quantity/quantity_types.py
+++ b/mlmc/quantity/quantity_types.py
@@ -19,6 +19,18 @@ class QType(metaclass=abc.ABCMeta):
     def base_qtype(self):
         return self._qtype.base_qtype()
 
+    def __eq__(self, other):
+        """
+        Types are equal if they have the same structure
+        """
+        return type(self) is type(other) and self._structure() == other._structure()
+
+    def __hash__(self):
+        return hash(type(self))
+
+    def _structure(self):
+        return [self._qtype]
+
     def replace_scalar(self, substitute_qtype):
         """
         Find ScalarType and replace it with substitute_qtype
@@ -121,6 +133,9 @@ class ArrayType(QType):
             q_type = self._qtype
         return q_type, 0
 
+    def _structure(self):
+        return [list(self._shape), self._qtype]
+
     def _make_getitem_op(self, chunk, key):
         """
         Operation
@@ -151,6 +166,9 @@ class TimeSeriesType(QType):
     def size(self) -> int:
         return len(self._times) * self._qtype.size()
 
+    def _structure(self):
+        return [list(self._times), self._qtype]
+
     def get_key(self, key):
         q_type = self._qtype
         try:
@@ -188,6 +206,9 @@ class FieldType(QType):
     def size(self) -> int:
         return len(self._dict.keys()) * self._qtype.size()
 
+    def _structure(self):
+        return [list(self._dict.keys()), self._qtype]
+
     def get_key(self, key):
         q_type = self._qtype
         try:
@@ -218,6 +239,9 @@ class DictType(QType):
     def size(self) -> int:
         return int(sum(q_type.size() for _, q_type in self._dict.items()))
 
+    def _structure(self):
+        return list(self._dict.items())
+
     def get_qtypes(self):
         return self._dict.values()
 
-- 
2.43.0


From 395686219a0144d0d309c273903ac4c11fa7560c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:31 +0000
Subject: [PATCH 53/57] fix: flow simulation without cleaning knows the fields
 used by its input

Without clean the list of used fields stayed None and every sample of the level failed.
---
 mlmc/tool/flow_mc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mlmc/tool/flow_mc.py b/mlmc/tool/flow_mc.py
index 09fc12d..7af0b4e 100644
--- a/mlmc/tool/flow_mc.py
+++ b/mlmc/tool/flow_mc.py
@@ -172,6 +172,7 @@ class FlowSim(Simulation):
 
         self.mesh_file = os.path.join(common_files_dir, self.MESH_FILE)
 
+        yaml_template = os.path.join(common_files_dir, self.YAML_TEMPLATE)
         if self.clean:
             # Prepare mesh
             geo_file = os.path.join(common_files_dir, self.GEO_FILE)
@@ -179,10 +180,12 @@ class FlowSim(Simulation):
             self._make_mesh(geo_file, self.mesh_file, fine_step)  # Common computational mesh for all samples.
 
             # Prepare main input YAML
-            yaml_template = os.path.join(common_files_dir, self.YAML_TEMPLATE)
             shutil.copyfile(self.base_yaml_file, yaml_template)
             yaml_file = os.path.join(common_files_dir, self.YAML_FILE)
             self._substitute_yaml(yaml_template, yaml_file)
+        else:
+            # The level is already prepared, just determine the used fields
+            self._substitute_yaml(yaml_template, os.devnull)
 
         # Mesh is extracted because we need number of mesh points to determine task_size parameter (see return value)
         fine_mesh_data = self.extract_mesh(self.mesh_file)
-- 
2.43.0


From 3f2609c7e6390d8cb6961d1d3d7c252e64415fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:02 +0000
Subject: [PATCH 54/57] fix: level variances are estimated for the moments of
 the estimate by default

estimate_diff_vars without arguments failed instead of using the moments given to the Estimate.
---
 mlmc/estimator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index f3dcb00..915ed2b 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -81,6 +81,9 @@ class Estimate:
             diff_variance - shape LxR, variances of diffs of moments_fn
             n_samples -  shape L, num samples for individual levels.
         """
+        if moments_fn is None:
+            moments_fn = self._moments_fn
+
         moments_mean = qe.estimate_mean(qe.moments(self._quantity, moments_fn))
         return moments_mean.l_vars, moments_mean.n_samples
 
-- 
2.43.0


From 5afe4477cbaa611dd02f7a155c0539e1691305c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:35 +0000
Subject: [PATCH 55/57] fix: divergence is finite where the prior density
 vanishes

---
 mlmc/tool/simple_distribution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mlmc/tool/simple_distribution.py b/mlmc/tool/simple_distribution.py
index 4f1938d..d5e72b7 100644
--- a/mlmc/tool/simple_distribution.py
+++ b/mlmc/tool/simple_distribution.py
@@ -453,7 +453,9 @@ def KL_divergence(prior_density, posterior_density, a, b):
         # posterior
         q = max(posterior_density(x), 1e-300)
         # modified integrand to provide positive value even in the case of imperfect normalization
-        return  p * np.log(p / q) - p + q
+        # limit of p * log(p) for vanishing prior
+        p_log = p * np.log(p / q) if p > 0 else 0.0
+        return p_log - p + q
 
     value = integrate.quad(integrand, a, b, epsabs=1e-10)
     return max(value[0], 1e-10)
-- 
2.43.0


From cd73b3d46e5389973ebda97a295b2c33823727f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:28 +0000
Subject: [PATCH 56/57] fix: failed samples with messages beyond ASCII can be
 stored

---
 mlmc/tool/hdf5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index d0596ec..459deba 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -325,7 +325,8 @@ class LevelGroup:
         :param failed_samples: set; Level sample ids
         :return: None
         """
-        self._append_dataset(self.failed_dset, failed_samples)
+        # Messages are stored as bytes, they are not limited to ASCII
+        self._append_dataset(self.failed_dset, [(sample_id, message.encode(errors="replace")) for sample_id, message in failed_samples])
 
     def _append_dataset(self, dataset_name, values):
         """
-- 
2.43.0


From 61f0a85fdbf4910ebda0a3110018ac02aa01242f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:22 +0000
Subject: [PATCH 57/57] fix: running jobs are not taken for finished because of
 their names

---
 mlmc/sampling_pool_pbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index 8246e24..23707cf 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -297,8 +297,8 @@ class SamplingPoolPBS(SamplingPool):
                 if process.returncode != 0 and not forgotten:
                     raise Exception(process.stderr.decode("ascii"))
                 output = process.stdout.decode("ascii")
-                # Find all finished jobs
-                finished_pbs_jobs = re.findall(r"(\d+)\..*\d+ F", output) + forgotten
+                # Find all finished jobs, the state precedes the queue in the last column
+                finished_pbs_jobs = re.findall(r"^\s*(\d+)\..* F +\S+\s*$", output, re.MULTILINE) + forgotten
                 self._qstat_failed_n = 0
             except:
                 self._qstat_failed_n += 1
-- 
2.43.0

