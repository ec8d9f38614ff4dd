From 26b8b0404bd4086d77e09bb1cf577d4372ad54d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 01/64] fix: interleave set_state drops stale exhausted slots
 and does not alias the state

---
 .../python/dataset/transformations/interleave.py  | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index d1830f6..ed5e709 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -17,7 +17,7 @@ import collections
 from collections.abc import Sequence
 import copy
 import functools
-from typing import Any, TypeVar, cast
+from typing import Any, TypeVar
 import weakref
 
 from absl import logging
@@ -204,7 +204,7 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
         "iterators_in_use_indices": self._iterators_in_use_indices.copy(),
         "iterators_in_use_states": iterators_in_use_states,
         "exhausted": exhausted,
-        "future_states": self._future_states,
+        "future_states": self._future_states.copy(),
     }
     return state
 
@@ -256,6 +256,8 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     for index_in_cycle, (index_in_datasets, it_state) in enumerate(
         zip(state["iterators_in_use_indices"], state["iterators_in_use_states"])
     ):
+      # The slot may have been exhausted before this state was set.
+      self._exhausted_iterator_state[index_in_cycle] = None
       if it_state is None:
         self._iterators_in_use[index_in_cycle] = None
       elif exhausted[index_in_cycle] == 0:
@@ -294,8 +296,13 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     )
     self._next_index_in_cycle = state["next_index_in_cycle"]
     self._next_index_in_datasets = state["next_index_in_datasets"]
-    self._iterators_in_use_indices = state["iterators_in_use_indices"]
-    self._future_states = cast(dict[int, Any], state.get("future_states", {}))
+    # Both are updated in place during iteration, copy to not alter the state.
+    self._iterators_in_use_indices = list(state["iterators_in_use_indices"])
+    # JSON round trip turns integer keys into strings.
+    self._future_states = {
+        int(index): future_state
+        for index, future_state in state.get("future_states", {}).items()
+    }
 
   def set_shard_states(self, shard_states: Sequence[Any]) -> None:
     active_states = []
-- 
2.43.0


From a8d269f27623e33cfadde95c4546cc8273fc277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 02/64] fix: flat map iterator restored to the end drops its
 old buffer

---
 grain/_src/python/dataset/transformations/flatmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/flatmap.py b/grain/_src/python/dataset/transformations/flatmap.py
index 75a8ea6..bc0ec5f 100644
--- a/grain/_src/python/dataset/transformations/flatmap.py
+++ b/grain/_src/python/dataset/transformations/flatmap.py
@@ -133,7 +133,7 @@ class _FlatMapDatasetIterator(dataset.DatasetIterator[T]):
     except StopIteration:
       # Edge case: The iterator has run out of elements.
       # We keep this EOF state.
-
+      self._buffer = []
       self._next_index_in_buffer = 0
       pass
 
-- 
2.43.0


From 8ed435448518b5a2de42cb107b3f3a510e4e9975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 03/64] fix: index_shuffle block size for power of two and very
 large max_index

---
 .../python/experimental/index_shuffle/index_shuffle.cc    | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/experimental/index_shuffle/index_shuffle.cc b/grain/_src/python/experimental/index_shuffle/index_shuffle.cc
index b031fe7..d2d0074 100644
--- a/grain/_src/python/experimental/index_shuffle/index_shuffle.cc
+++ b/grain/_src/python/experimental/index_shuffle/index_shuffle.cc
@@ -35,7 +35,6 @@ limitations under the License.
 
 #include <algorithm>
 #include <bitset>
-#include <cmath>
 #include <cstdint>
 #include <random>
 #include <vector>
@@ -115,7 +114,12 @@ uint64_t index_shuffle(const uint64_t index, const uint64_t max_index,
   // Block size must be large enough to represent max_index and even (since
   // word size is half of it). We force at least 16 bits as minimum block size
   // since we observed pattern in the permutations below.
-  int block_size = static_cast<int>(std::ceil(std::log2(max_index)));
+  // Count bits rather than rounding up log2(max_index): an exact power of two
+  // needs one more bit and doubles cannot represent all 64-bit integers.
+  int block_size = 0;
+  for (uint64_t value = max_index; value != 0; value >>= 1) {
+    ++block_size;
+  }
   block_size = std::max(block_size + block_size % 2, kMinBlockSize);
   assert(block_size > 0 && block_size % 2 == 0 && block_size <= 64);
   // rounds should be in [4, 1024] and number of rounds must be even.
-- 
2.43.0


From 1ba7c771f3a92ad81e0966564c6f45832cd38607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 04/64] fix: window shuffle seeds wrap around at 32 bits

---
 grain/_src/python/dataset/transformations/shuffle.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/shuffle.py b/grain/_src/python/dataset/transformations/shuffle.py
index 23e56c4..6c65eb2 100644
--- a/grain/_src/python/dataset/transformations/shuffle.py
+++ b/grain/_src/python/dataset/transformations/shuffle.py
@@ -111,7 +111,8 @@ class WindowShuffleMapDataset(dataset.MapDataset[T]):
 
   def _shuffled_index(self, index: int) -> int:
     window_index, index_in_window = divmod(index, self._window_size)
-    seed = self._seed + window_index
+    # index_shuffle expects 32-bit seed.
+    seed = (self._seed + window_index) % 2**32
     shuffled_index_in_window = index_shuffle.index_shuffle(
         index_in_window,
         max_index=self._window_size - 1,
@@ -210,7 +211,9 @@ class _WindowShuffleDatasetIterator(dataset.DatasetIterator[T]):
       # End of the parent iterator, nothing else to process.
       self._parent_exhausted = True
     self._window = _reshuffle_window(
-        window=self._window, seed=self._global_seed + self._window_index
+        window=self._window,
+        # index_shuffle expects 32-bit seed.
+        seed=(self._global_seed + self._window_index) % 2**32,
     )
 
   @stats.record_next_duration_if_output
-- 
2.43.0


From c81bb9e3b16a1030698b1c98c3fb2b5a09eaffcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 05/64] fix: concat-then-split keeps the start of features that
 are not split again

---
 .../transformations/packing_concat_then_split.py      | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/packing_concat_then_split.py b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
index f54e2a6..8599a8b 100644
--- a/grain/_src/python/dataset/transformations/packing_concat_then_split.py
+++ b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
@@ -375,17 +375,18 @@ class _ConcatThenSplitDatasetIterator(dataset.DatasetIterator):
           return element
         new_tokens_in_buffer[key] = sequence_length
       else:
+        # The element may already be a slice of the original element.
+        if element.slices[key] == _EMPTY_SLICE:
+          start_index = 0
+        else:
+          start_index = element.slices[key][0]
         if sequence_length > available_tokens:
           needs_splitting = True
-          if element.slices[key] == _EMPTY_SLICE:
-            start_index = 0
-          else:
-            start_index = element.slices[key][0]
           split_points[key] = start_index + available_tokens
           new_tokens_in_buffer[key] = available_tokens
         else:
           # No splitting.
-          split_points[key] = sequence_length
+          split_points[key] = start_index + sequence_length
           new_tokens_in_buffer[key] = sequence_length
 
     if needs_splitting:
-- 
2.43.0


From f3dec6ba1928360b3a956312535cb4398da1ce9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 06/64] fix: concat-then-split emits scalar features once when
 an element is split

---
 .../dataset/transformations/packing_concat_then_split.py     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/packing_concat_then_split.py b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
index 8599a8b..234a7ff 100644
--- a/grain/_src/python/dataset/transformations/packing_concat_then_split.py
+++ b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
@@ -182,10 +182,13 @@ class _CtsElement:
 
   def get_sliced_features(self, key: str) -> Mapping[str, Any]:
     feature = self.features[key]
-    if np.ndim(feature) != 0 and key in self.slices:
+    if key in self.slices:
       sl = self.slices[key]
       if sl != _EMPTY_SLICE:
         start, stop = self.slices[key]
+        if np.ndim(feature) == 0:
+          # Scalars are treated as 1-dimensional arrays of size 1.
+          feature = np.expand_dims(feature, axis=0)
         return feature[start:stop]
     return feature
 
-- 
2.43.0


From 74f4398ed04aa4ee8205f6e88a1fd7bf44b7d6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 07/64] fix: concat-then-split restores states that were
 serialized to JSON

---
 .../dataset/transformations/packing_concat_then_split.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/packing_concat_then_split.py b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
index 234a7ff..d8c9322 100644
--- a/grain/_src/python/dataset/transformations/packing_concat_then_split.py
+++ b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
@@ -529,6 +529,10 @@ class _ConcatThenSplitDatasetIterator(dataset.DatasetIterator):
 
   def set_state(self, state: dict[str, Any]):
     state = _CtsState(**state)
+    # Slices come back as lists if the state was serialized to JSON.
+    state.remainder_slices = {
+        key: tuple(sl) for key, sl in state.remainder_slices.items()
+    }
     # Clear internal state.
     self._packed_elements = collections.deque()
     self._remainder_element = None
-- 
2.43.0


From a9f04d61c28f2d882b6215047979c6632c5dc68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 08/64] fix: rebatch restored at the end of a consumed batch
 emits no empty batch

---
 grain/_src/python/dataset/transformations/rebatch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/rebatch.py b/grain/_src/python/dataset/transformations/rebatch.py
index e6cfb25..9e6ad2f 100644
--- a/grain/_src/python/dataset/transformations/rebatch.py
+++ b/grain/_src/python/dataset/transformations/rebatch.py
@@ -146,6 +146,10 @@ class _RebatchDatasetIterator(dataset.DatasetIterator):
               "Rebatching with starting batch size of 0 is not supported."
           )
 
+        # A restored state can point to the end of a fully consumed batch.
+        if self._batch_idx >= len(self._current_batch[0]):
+          continue
+
         if not to_concatenate:
           for _ in range(len(self._current_batch)):
             to_concatenate.append(list())
-- 
2.43.0


From ba62d4a26559f489306efb50ba1974d314c062fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 09/64] fix: batching into shared memory promotes dtypes like
 np.stack

---
 .../python/dataset/transformations/batch.py     | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/batch.py b/grain/_src/python/dataset/transformations/batch.py
index 93169fc..8980d74 100644
--- a/grain/_src/python/dataset/transformations/batch.py
+++ b/grain/_src/python/dataset/transformations/batch.py
@@ -58,6 +58,14 @@ _PARALLEL_BATCHING_MIN_TOTAL_BYTES = 4 * 1024 * 1024
 _PARALLEL_BATCHING_MIN_BATCH_SIZE = 4
 
 
+def _stacked_shape_and_dtype(
+    xs: Sequence[Any],
+) -> tuple[tuple[int, ...], np.dtype]:
+  """Returns shape and dtype that `np.stack(xs)` would produce."""
+  arrays = [np.asanyarray(x) for x in xs]
+  return (len(xs),) + arrays[0].shape, np.result_type(*arrays)
+
+
 class _MakeBatchParallel:
   """A callable class for batching sequences of structured data in parallel.
 
@@ -92,8 +100,7 @@ class _MakeBatchParallel:
     if not self._output_to_shared_memory:
       return np.stack(xs)
 
-    first_arg = np.asanyarray(xs[0])
-    shape, dtype = (len(xs),) + first_arg.shape, first_arg.dtype
+    shape, dtype = _stacked_shape_and_dtype(xs)
     if dtype.hasobject:
       return np.stack(xs)
     # For string dtypes, np.stack with a pre-allocated out= array would
@@ -119,8 +126,7 @@ class _MakeBatchParallel:
       if (self._parallel_batch_executor is None) or not all_ndarray:
         return self._stack(xs)
       xs = cast(Sequence[np.ndarray], xs)
-      first_arg = xs[0]
-      shape, dtype = (len(xs),) + first_arg.shape, first_arg.dtype
+      shape, dtype = _stacked_shape_and_dtype(xs)
       # For string dtypes, the parallel path would silently truncate strings
       # because the output array dtype is inferred from the first element only.
       # Fall back to the serial _stack path which handles strings correctly.
@@ -191,8 +197,7 @@ def make_batch(
   if output_to_shared_memory:
 
     def shm_stacking_function(*args):
-      first_arg = np.asanyarray(args[0])
-      shape, dtype = (len(args),) + first_arg.shape, first_arg.dtype
+      shape, dtype = _stacked_shape_and_dtype(args)
       if dtype.hasobject:
         return np.stack(args)
       # For string dtypes, np.stack with a pre-allocated out= array would
-- 
2.43.0


From f42e04d31b0cb5958d774a21fedb834e3e7fc0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 10/64] fix: finalizing a prefetching iterator does not wait
 for its thread

Garbage collection can run in any thread at any point, e.g. while the thread
holds a lock of concurrent.futures that the prefetch thread needs, or in the
prefetch thread itself. Joining the prefetch thread there deadlocks.
---
 grain/_src/python/dataset/dataset.py           | 18 +++++++++++++++++-
 .../python/dataset/transformations/prefetch.py | 12 ++++++++++++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/dataset.py b/grain/_src/python/dataset/dataset.py
index 21de5b8..3c24c46 100644
--- a/grain/_src/python/dataset/dataset.py
+++ b/grain/_src/python/dataset/dataset.py
@@ -51,6 +51,7 @@ from collections.abc import Awaitable, Callable, Iterable, Iterator, Mapping, Se
 import functools
 import json
 import sys
+import threading
 from typing import Any, Generic, TypeVar, Union, cast, overload
 import warnings
 
@@ -1637,7 +1638,22 @@ class DatasetIterator(Iterator[T], abc.ABC):
   # pylint: enable=protected-access
 
   def __del__(self):
-    self.close()
+    # Finalizers run in whichever thread triggered garbage collection, at any
+    # point of its execution, so `close` must not wait for other threads here.
+    nested = in_finalizer()
+    _finalizer.active = True
+    try:
+      self.close()
+    finally:
+      _finalizer.active = nested
+
+
+_finalizer = threading.local()
+
+
+def in_finalizer() -> bool:
+  """Returns True if the current thread is finalizing a dataset iterator."""
+  return getattr(_finalizer, "active", False)
 
 
 class _WithSeedMapDataset(MapDataset[T]):
diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index 76449dd..42520ff 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -657,6 +657,11 @@ class ThreadPrefetchDatasetIterator(dataset.DatasetIterator[T]):
   def close(self):
     """Stops the iterator. No further calls to the iterator are expected."""
     self._closed = True
+    if self._prefetch_thread is not None and dataset.in_finalizer():
+      # The prefetch thread may still be using the parent, which is finalized
+      # when the thread exits.
+      self._stop_prefetch()
+      return
     self._stop_prefetch()
     if isinstance(self._maybe_nonnative_parent, dataset.DatasetIterator):
       self._maybe_nonnative_parent.close()
@@ -674,6 +679,13 @@ class ThreadPrefetchDatasetIterator(dataset.DatasetIterator[T]):
       return
 
     self._prefetch_should_stop.set()
+    if dataset.in_finalizer():
+      # The interrupted code may hold a lock that the prefetch thread is waiting
+      # for, or be the prefetch thread itself, so it must not be waited for. It
+      # exits after the current element.
+      if self._prefetch_thread is not threading.current_thread():
+        self._clear_buffer()
+      return
     if clear_buffer:
       # Remove entries from the buffer to unblock the producer, so that it
       # checks producer_running.is_set() and exits.
-- 
2.43.0


From 91e8c8f3d73e0280bcc93743397aeeceea757a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 11/64] fix: process prefetch reports worker failures while a
 set_state is pending

The error (or exit) of a worker was discarded as stale if the worker had not
acknowledged the last set_state, and the iterator waited forever.
---
 .../transformations/process_prefetch.py        | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 1bf3c8a..7134d38 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -497,7 +497,8 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
       raise StopIteration
     timer = dataset_stats.Timer()
     with timer:
-      err_traceback = None
+      err, err_traceback = None, None
+      worker_exited = False
       self.start_prefetch()
       # Loop until we get a non-stale element.
       while True:
@@ -507,15 +508,22 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
           )
         except queue.Empty:
           assert self._prefetch_process is not None
-          if self._process_failed():
-            element, state, next_index = None, None, None
+          if not worker_exited:
+            # Check the buffer once more if the worker exited: it could have
+            # added elements after the timeout.
+            worker_exited = self._prefetch_process.exitcode is not None
+            continue
+          # No more elements or responses to `set_state` will arrive. If the
+          # worker exited normally it has reported the error before that.
+          if self._process_failed() or err is None:
             err = RuntimeError(
                 "Worker process was terminated unexpectedly with exit code "
                 f"{self._prefetch_process.exitcode}. Search the logs above for "
                 "the source of the crash."
             )
-          else:
-            continue
+            err_traceback = None
+          element, state, next_index = None, None, None
+          break
         if isinstance(element, _SetStateIsDone):
           self._set_state_count -= 1
         elif self._set_state_count == 0:
-- 
2.43.0


From 1cc6d84dde2b139998e8e3682c213aa65c10766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 12/64] fix: repeated set_state before process prefetching
 starts does not block

---
 .../_src/python/dataset/transformations/process_prefetch.py  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 7134d38..635263c 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -360,8 +360,9 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
     self._set_state_request_count: sharedctypes.Synchronized[int] = (
         self._process_ctx.Value("i", 0)
     )
-    self._set_state_queue: queues.Queue[StateT | int] = self._process_ctx.Queue(
-        5
+    # Unbounded because nothing reads it until the worker process is started.
+    self._set_state_queue: queues.Queue[StateT | int] = (
+        self._process_ctx.Queue()
     )
     self._buffer: queues.Queue[
         tuple[
-- 
2.43.0


From 30530a7728b804dc6e3e39a0beac7b35143ded7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 13/64] fix: multiprocess prefetching does not turn on shared
 memory output of the caller's dataset

---
 .../python/dataset/transformations/process_prefetch.py    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 635263c..76d714f 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -674,6 +674,10 @@ class _LazyWorkerSliceIterDataset(dataset.IterDataset[T]):
     prefetch._set_slice_iter_dataset(
         self._parent, self._slice, self._sequential_slice
     )
+    # Enable SharedMemoryArray outputs if the transform supports it. This is
+    # done in the worker process to not affect the original dataset.
+    if isinstance(self._parent, base.SupportsSharedMemoryOutput):
+      self._parent.enable_shared_memory_output()
     return self._parent.__iter__()
 
   @property
@@ -718,10 +722,6 @@ def multiprocess_prefetch(
     if num_workers == 1:
       worker_ds = ds
     else:
-      # Enable SharedMemoryArray outputs if the transform supports it.
-      if isinstance(ds, base.SupportsSharedMemoryOutput):
-        ds.enable_shared_memory_output()
-
       worker_ds = _LazyWorkerSliceIterDataset(
           ds,
           slice(i, None, num_workers),
-- 
2.43.0


From b2a30ba6e0c0e0f546aed129339c11fd904eff83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 14/64] fix: best-fit packing applies max_sequences_per_bin to
 empty sequences

---
 .../dataset/transformations/packing_packed_batch.py       | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/packing_packed_batch.py b/grain/_src/python/dataset/transformations/packing_packed_batch.py
index 56f8ae1..ecb4ee8 100644
--- a/grain/_src/python/dataset/transformations/packing_packed_batch.py
+++ b/grain/_src/python/dataset/transformations/packing_packed_batch.py
@@ -419,13 +419,15 @@ class BestFitPackedBatch(PackedBatch[_T]):
     new_free_cells = free_cells_matrix + element_lengths[:, np.newaxis]
 
     if self._max_sequences_per_bin is not None:
-      # Invalidate bins that have reached the max sequence limit. Adding the
-      # capacity ensures they fail the subsequent length check.
+      # Invalidate bins that have reached the max sequence limit. Adding more
+      # than the capacity ensures they fail the subsequent length check, also
+      # for empty sequences in empty bins.
       max_sequence_mask = np.where(
           self._num_examples_per_row < self._max_sequences_per_bin, 0, 1
       )
       new_free_cells = (
-          new_free_cells + max_sequence_mask * self._capacities[:, np.newaxis]
+          new_free_cells
+          + max_sequence_mask * (self._capacities[:, np.newaxis] + 1)
       )
     fittable_mask = np.all(
         new_free_cells <= self._capacities[:, np.newaxis], axis=0
-- 
2.43.0


From 97e1945290d4f5ed7908ce292bc85f5c3deac5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:51 +0000
Subject: [PATCH 15/64] fix: concat-then-split does not write BOS for an empty
 part of a feature

---
 .../python/dataset/transformations/packing_concat_then_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/packing_concat_then_split.py b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
index d8c9322..d16c843 100644
--- a/grain/_src/python/dataset/transformations/packing_concat_then_split.py
+++ b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
@@ -316,7 +316,7 @@ class _ConcatThenSplitDatasetIterator(dataset.DatasetIterator):
               " ConcatThenSplitPackDatasetIterator."
           )
         values[start:end] = sequence
-        if replace_with_bos:
+        if replace_with_bos and end > start:
           values[start] = self._config.bos_token_id
         if not is_meta_feature:
           assert segment_ids is not None
-- 
2.43.0


From 244f45b1dc82cb4d57cc427cd43d2d61d35e605b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 16/64] fix: interleaving no datasets ends immediately

---
 grain/_src/python/dataset/transformations/interleave.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index ed5e709..530cd96 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -100,6 +100,8 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     self._started = True
     timer = stats.Timer()
     _ = self._stats  # eagerly initialize stats
+    if not self._datasets:
+      raise StopIteration
     while True:
       if iterator_to_use := self._iterators_in_use[self._next_index_in_cycle]:
         try:
-- 
2.43.0


From 6905095b310bf9da60635891f547745b41199a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:12 +0000
Subject: [PATCH 17/64] fix: next index of a single-dataset interleave works
 after exhaustion

---
 .../dataset/transformations/interleave.py     | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index 530cd96..6b17c7a 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -355,7 +355,10 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     if len(self._datasets) == 1:
       it = self._iterators_in_use[0]
       if it is None:
-        return 0
+        if self._exhausted_iterator_state[0] is None:
+          return 0
+        it = self._make_first_iterator()
+        it.set_state(self._exhausted_iterator_state[0])
       return dataset.get_next_index(it)
     raise NotImplementedError(
         "get_next_index is not supported for InterleaveDatasetIterator with"
@@ -366,15 +369,24 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     if len(self._datasets) == 1:
       # Ensure iterator is created by calling get_state.
       _ = self.get_state()
-      it = self._iterators_in_use[0]
-      assert it is not None
-      dataset.set_next_index(it, index)
+      if self._iterators_in_use[0] is None:
+        # The only iterator is exhausted.
+        self._iterators_in_use[0] = self._make_first_iterator()
+        self._exhausted_iterator_state[0] = None
+      dataset.set_next_index(self._iterators_in_use[0], index)
     else:
       raise NotImplementedError(
           "set_next_index is not supported for InterleaveDatasetIterator with"
           " more than one dataset."
       )
 
+  def _make_first_iterator(self) -> dataset.DatasetIterator[T]:
+    return _add_prefetch_and_make_iterator(
+        self._datasets[0],
+        interleave_iterator=weakref.ref(self),
+        start_prefetch=False,
+    )
+
   def set_keep_iterators_after_stop_iteration(
       self, keep_iterators: bool
   ) -> None:
-- 
2.43.0


From 02cb3e1810ef9a5e4141dfdbf4648de39ffc365c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 18/64] fix: interleave does not re-read exhausted datasets
 after re-sharding

---
 .../dataset/transformations/interleave.py     | 28 ++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index 6b17c7a..fd7a7ae 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -30,6 +30,8 @@ from grain._src.python.dataset.transformations import prefetch
 
 T = TypeVar("T")
 
+_NOT_STARTED = object()
+
 
 class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
   """Iterates over the interleaved datasets."""
@@ -89,7 +91,8 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     self._exhausted_iterators: list[
         tuple[int, dataset.DatasetIterator[T]] | None
     ] = [None] * self._cycle_length
-    # Future states used for elastic iterators
+    # Future states used for elastic iterators. `None` marks datasets that were
+    # already exhausted.
     self._future_states: dict[int, Any] = {}
     self._cached_start_states: dict[int, Any] = {}
 
@@ -142,6 +145,7 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
             ) % self._cycle_length
             continue
       with timer:
+        self._skip_exhausted_datasets()
         if self._next_index_in_datasets < len(self._datasets):
           self._iterators_in_use[self._next_index_in_cycle] = next(
               self._prefetch_ds_iter
@@ -168,6 +172,16 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
               self._next_index_in_cycle + 1
           ) % self._cycle_length
 
+  def _skip_exhausted_datasets(self) -> None:
+    """Skips upcoming datasets that were exhausted before re-sharding."""
+    next_index = self._next_index_in_datasets
+    while self._future_states.get(next_index, _NOT_STARTED) is None:
+      del self._future_states[next_index]
+      next_index += 1
+    if next_index != self._next_index_in_datasets:
+      self._next_index_in_datasets = next_index
+      self._prefetch_ds_iter.set_state({"next_index": next_index})
+
   def get_state(self):
     iterators_in_use_states = [None] * self._cycle_length
     for i in range(self._cycle_length):
@@ -226,14 +240,15 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
       # means the current shard has not yet started to be iterated on or have a
       # future state has been saved for it.
       if i >= next_index_in_datasets:
-        if i in self._future_states:
+        future_state = self._future_states.get(i, _NOT_STARTED)
+        if future_state is not _NOT_STARTED and future_state is not None:
           shard_states[i] = {
               "exhausted": 0,
-              "state": self._future_states[i],
+              "state": future_state,
           }
         else:
           shard_states[i] = {
-              "exhausted": 0,
+              "exhausted": int(future_state is None),
               "state": self._get_iterator_start_state(i),  # pylint: disable=protected-access
           }
       elif i not in indices:
@@ -329,6 +344,11 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
         max(iterators_in_use_indices) + 1 if iterators_in_use_indices else 0
     )
 
+    # Exhausted shards that come after the ones in use must not be read again.
+    for indx, shard_state in enumerate(shard_states):
+      if shard_state["exhausted"] and indx >= next_index_in_datasets:
+        future_states[indx] = None
+
     # This is the case where the cycle length is greater than the number of
     # non-exhausted shards. We will just go back through the datasets to fill
     # the cycle length.
-- 
2.43.0


From 21922d70138403fbb818e0723747f2c7e4c858b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 19/64] fix: datasets shared by several branches are sliced
 once for worker prefetching

---
 grain/_src/python/dataset/transformations/prefetch.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index 42520ff..b3d822f 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -395,6 +395,7 @@ def _set_slice_iter_dataset(
     ds: dataset.IterDataset,
     sl: slice,
     sequential_slice: bool = False,
+    visited: set[int] | None = None,
 ) -> None:
   """Sets data slice for the given dataset.IterDataset in place.
 
@@ -406,7 +407,13 @@ def _set_slice_iter_dataset(
    ds: dataset.IterDataset to apply slice to.
    sl: slice to apply.
    sequential_slice: whether to apply sequential slicing.
+   visited: ids of the datasets that were already sliced. A dataset can be
+     reachable through several parents but must only be sliced once.
   """
+  visited = set() if visited is None else visited
+  if id(ds) in visited:
+    return
+  visited.add(id(ds))
   if isinstance(ds, SupportsInPlaceSlicing):
     ds.set_slice(sl, sequential_slice)
     return
@@ -416,7 +423,7 @@ def _set_slice_iter_dataset(
     if isinstance(parent, dataset.MapDataset):
       _set_slice_map_dataset(parent, sl, sequential_slice)
     else:
-      _set_slice_iter_dataset(parent, sl, sequential_slice)
+      _set_slice_iter_dataset(parent, sl, sequential_slice, visited)
 
 
 def _set_slice_map_dataset(
-- 
2.43.0


From 92e17e7d76ddc7fb41af39ad73a97ca61f21f649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 20/64] fix: lengths of batch, repeat and zip follow
 sequentially sliced sources

---
 .../python/dataset/transformations/batch.py    |  9 +++------
 .../python/dataset/transformations/repeat.py   | 18 +++++++-----------
 .../python/dataset/transformations/source.py   |  4 +++-
 .../_src/python/dataset/transformations/zip.py |  4 ++--
 4 files changed, 15 insertions(+), 20 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/batch.py b/grain/_src/python/dataset/transformations/batch.py
index 8980d74..86022f7 100644
--- a/grain/_src/python/dataset/transformations/batch.py
+++ b/grain/_src/python/dataset/transformations/batch.py
@@ -427,9 +427,9 @@ class BatchMapDataset(dataset.MapDataset[T]):
     self._batch_size = batch_size
     self._drop_remainder = drop_remainder
     self._batch_fn = make_batch if batch_fn is None else batch_fn
-    self._length = self._get_length()
 
-  def _get_length(self) -> int:
+  def __len__(self) -> int:
+    # Not cached because the parent can be sliced in place.
     if self._drop_remainder:
       return len(self._parent) // self._batch_size
     else:
@@ -443,15 +443,12 @@ class BatchMapDataset(dataset.MapDataset[T]):
       return lambda items: self._parent._getitems(list(items))  # pylint: disable=protected-access
     return lambda items: [self._parent[i] for i in items]
 
-  def __len__(self):
-    return self._length
-
   def __getitem__(self, index):
     if isinstance(index, slice):
       return self.slice(index)
     # Each epoch gets batched separately. If users want to batch across epochs
     # they can repeat() before the batch().
-    epoch, index_in_epoch = divmod(index, self._length)
+    epoch, index_in_epoch = divmod(index, len(self))
     # Get range within the epoch without going outside the epoch.
     start = index_in_epoch * self._batch_size
     stop = min(len(self._parent), (index_in_epoch + 1) * self._batch_size)
diff --git a/grain/_src/python/dataset/transformations/repeat.py b/grain/_src/python/dataset/transformations/repeat.py
index e1d2cc5..198844c 100644
--- a/grain/_src/python/dataset/transformations/repeat.py
+++ b/grain/_src/python/dataset/transformations/repeat.py
@@ -48,25 +48,21 @@ class RepeatMapDataset(dataset.MapDataset[T]):
           f"Repeating already infinite dataset {parent} does nothing."
       )
     self._num_epochs = num_epochs
-    self._parent_length = len(parent)
-    if num_epochs is None:
-      if self._parent_length == 0:  # pylint: disable=g-explicit-length-test
-        self._length: int = 0
-      else:
-        self._length: int = sys.maxsize
-    else:
-      self._length = num_epochs * self._parent_length
     self._reseed_each_epoch = reseed_each_epoch
 
   def __len__(self) -> int:
-    return self._length
+    # Not cached because the parent can be sliced in place.
+    parent_length = len(self._parent)
+    if self._num_epochs is not None:
+      return self._num_epochs * parent_length
+    return sys.maxsize if parent_length else 0
 
   def __str__(self) -> str:
     return f"RepeatMapDataset(num_epochs={self._num_epochs})"
 
   def _getitems(self, indices: Sequence[int]):
     if not self._reseed_each_epoch:
-      indices = [index % self._parent_length for index in indices]
+      indices = [index % len(self._parent) for index in indices]
     return self._stats.record_output_spec_for_batch(self._parent._getitems(indices))  # pylint: disable=protected-access
 
   def __getitem__(self, index):
@@ -74,7 +70,7 @@ class RepeatMapDataset(dataset.MapDataset[T]):
       return self.slice(index)
     if not self._reseed_each_epoch:
       # Use elements from the first epoch.
-      index = index % self._parent_length
+      index = index % len(self._parent)
     return self._stats.record_output_spec(self._parent[index])
 
   @property
diff --git a/grain/_src/python/dataset/transformations/source.py b/grain/_src/python/dataset/transformations/source.py
index 9cec968..b77cbe5 100644
--- a/grain/_src/python/dataset/transformations/source.py
+++ b/grain/_src/python/dataset/transformations/source.py
@@ -127,7 +127,9 @@ class SourceMapDataset(dataset.MapDataset):
         shard_count=workers_count,
         drop_remainder=False,
     )
-    shard_start, shard_end = sharding.even_split(self.__len__(), shard_options)
+    shard_start, shard_end = sharding.even_split(
+        len(self._original_source_map_dataset or self), shard_options
+    )
     return slice(shard_start, shard_end)
 
   def set_slice(self, sl: slice, sequential_slice: bool = False) -> None:
diff --git a/grain/_src/python/dataset/transformations/zip.py b/grain/_src/python/dataset/transformations/zip.py
index 3f29280..ae21ef4 100644
--- a/grain/_src/python/dataset/transformations/zip.py
+++ b/grain/_src/python/dataset/transformations/zip.py
@@ -34,10 +34,10 @@ class ZipMapDataset(dataset.MapDataset[T]):
       raise ValueError("At least one parent must be provided.")
     if not all(lengths[0] == l for l in lengths):
       raise ValueError("All parents must have the same length.")
-    self._length = lengths[0]
 
   def __len__(self) -> int:
-    return self._length
+    # Not cached because parents can be sliced in place.
+    return len(self._parents[0])
 
   def __getitem__(self, index):
     if isinstance(index, slice):
-- 
2.43.0


From 4d01d7385f703f834811c0c1403bd7a7b11928b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:12 +0000
Subject: [PATCH 21/64] fix: states of unstarted process prefetch workers match
 the sliced dataset

---
 .../python/dataset/transformations/process_prefetch.py   | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 76d714f..f625d4a 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -16,6 +16,7 @@
 from __future__ import annotations
 
 from collections.abc import Callable, Sequence
+import copy
 import functools
 from multiprocessing import queues
 from multiprocessing import sharedctypes
@@ -670,7 +671,13 @@ class _LazyWorkerSliceIterDataset(dataset.IterDataset[T]):
 
   def __iter__(self) -> dataset.DatasetIterator[T]:
     if not _is_in_worker_process:
-      return self._parent.__iter__()
+      # Only used for states and indices. These must match those of the worker
+      # but the original dataset must not be altered.
+      parent = copy.deepcopy(self._parent)
+      prefetch._set_slice_iter_dataset(
+          parent, self._slice, self._sequential_slice
+      )
+      return parent.__iter__()
     prefetch._set_slice_iter_dataset(
         self._parent, self._slice, self._sequential_slice
     )
-- 
2.43.0


From ec1760c346186eb211882232957dcf9142f7081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 22/64] fix: empty arrays can be placed in shared memory

---
 grain/_src/python/ipc/shared_memory_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/ipc/shared_memory_array.py b/grain/_src/python/ipc/shared_memory_array.py
index 8dab940..aaf3f19 100644
--- a/grain/_src/python/ipc/shared_memory_array.py
+++ b/grain/_src/python/ipc/shared_memory_array.py
@@ -70,7 +70,8 @@ class SharedMemoryArray(np.ndarray):
       dtype: npt.DTypeLike = float,
   ):
     # See https://numpy.org/doc/stable/user/basics.subclassing.html
-    size = math.prod(shape) * np.dtype(dtype).itemsize
+    # Shared memory cannot be empty, unlike arrays.
+    size = max(1, math.prod(shape) * np.dtype(dtype).itemsize)
     shm = shared_memory.SharedMemory(create=True, size=size)
     return cls.from_shared_memory(shm, shape, dtype)
 
-- 
2.43.0


From 7561e35898310dc4593e9f69b3c8ffdbe33b5d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 23/64] fix: views of shared memory arrays are copied when sent
 between processes

---
 grain/_src/python/ipc/shared_memory_array.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/ipc/shared_memory_array.py b/grain/_src/python/ipc/shared_memory_array.py
index aaf3f19..9216a18 100644
--- a/grain/_src/python/ipc/shared_memory_array.py
+++ b/grain/_src/python/ipc/shared_memory_array.py
@@ -190,7 +190,9 @@ class SharedMemoryArray(np.ndarray):
 
 def _copy_leaf_to_shm(leaf: Any, min_size: int = 0) -> Any:
   """Copies `leaf` to shared memory if it's a big enough numpy array."""
-  if isinstance(leaf, SharedMemoryArray):
+  # Metadata describes a whole shared memory block. Views of it and derived
+  # arrays, which have no block of their own, must be copied.
+  if isinstance(leaf, SharedMemoryArray) and isinstance(leaf.base, mmap.mmap):
     return leaf.metadata
   if (
       not isinstance(leaf, np.ndarray)
-- 
2.43.0


From 90b512f394e34ad736d1a4a3f162b84d8d581a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 24/64] fix: length of batched large or endless datasets is
 exact

---
 grain/_src/python/dataset/transformations/batch.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/batch.py b/grain/_src/python/dataset/transformations/batch.py
index 86022f7..ff49df0 100644
--- a/grain/_src/python/dataset/transformations/batch.py
+++ b/grain/_src/python/dataset/transformations/batch.py
@@ -18,7 +18,6 @@ from __future__ import annotations
 from collections.abc import Sequence
 import concurrent.futures
 import functools
-import math
 import pprint
 import sys
 from typing import Any, Callable, Generic, Protocol, TypeVar, cast, runtime_checkable
@@ -433,7 +432,7 @@ class BatchMapDataset(dataset.MapDataset[T]):
     if self._drop_remainder:
       return len(self._parent) // self._batch_size
     else:
-      return math.ceil(len(self._parent) / self._batch_size)
+      return -(-len(self._parent) // self._batch_size)
 
   @functools.cached_property
   def _get_parent_items_fn(self):
-- 
2.43.0


From 08551ec8dfe456db185470f6d8f7a6748997c5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 25/64] fix: copies of a batched dataset read from their own
 parent

---
 grain/_src/python/dataset/transformations/batch.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/batch.py b/grain/_src/python/dataset/transformations/batch.py
index ff49df0..02f4df8 100644
--- a/grain/_src/python/dataset/transformations/batch.py
+++ b/grain/_src/python/dataset/transformations/batch.py
@@ -434,13 +434,13 @@ class BatchMapDataset(dataset.MapDataset[T]):
     else:
       return -(-len(self._parent) // self._batch_size)
 
-  @functools.cached_property
-  def _get_parent_items_fn(self):
+  # Not cached because copies of the dataset would use the original parent.
+  def _get_parent_items_fn(self, items: Sequence[int]):
     # Leverage batch pushdown API to retrieve multiple items at once if the
     # experiment is enabled.
     if _is_batch_map_pushdown_experiment_enabled():
-      return lambda items: self._parent._getitems(list(items))  # pylint: disable=protected-access
-    return lambda items: [self._parent[i] for i in items]
+      return self._parent._getitems(list(items))  # pylint: disable=protected-access
+    return [self._parent[i] for i in items]
 
   def __getitem__(self, index):
     if isinstance(index, slice):
-- 
2.43.0


From edf944b397820629f7c1ef576397da52c3ac8bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 26/64] fix: parallel batching reports mismatching shapes
 instead of broadcasting

---
 grain/_src/python/dataset/transformations/batch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/batch.py b/grain/_src/python/dataset/transformations/batch.py
index 02f4df8..7a4dc3d 100644
--- a/grain/_src/python/dataset/transformations/batch.py
+++ b/grain/_src/python/dataset/transformations/batch.py
@@ -131,6 +131,9 @@ class _MakeBatchParallel:
       # Fall back to the serial _stack path which handles strings correctly.
       if dtype.kind in ("U", "S"):
         return self._stack(xs)
+      # Assigning into `out` would broadcast, `np.stack` reports the mismatch.
+      if any(x.shape != xs[0].shape for x in xs):
+        return self._stack(xs)
       # Fall back to the standard serial `np.stack` operation if the size of
       # of the entire batch is smaller (measured in bytes) than the threshold.
       if sum(x.nbytes for x in xs) < _PARALLEL_BATCHING_MIN_TOTAL_BYTES:
-- 
2.43.0


From 3ae7e93bd24e39d9e600ddd4861f58f0e3b801a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 27/64] fix: mixture length is not subject to floating point
 rounding

---
 grain/_src/python/dataset/transformations/mix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/mix.py b/grain/_src/python/dataset/transformations/mix.py
index 74cdb50..fb53b8f 100644
--- a/grain/_src/python/dataset/transformations/mix.py
+++ b/grain/_src/python/dataset/transformations/mix.py
@@ -54,7 +54,7 @@ class SelectionWithProportionsMap(base.DatasetSelectionMap):
     # once.
     weight_sum = sum(proportions)
     lengths = [
-        len(parent) / (weight / weight_sum)
+        len(parent) * weight_sum // weight
         for parent, weight in zip(parents, proportions)
     ]
     zero_length_datasets = []
-- 
2.43.0


From a6b11eec2edd05dec4a730afabc54fb9ad41318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:28 +0000
Subject: [PATCH 28/64] fix: mixture weights given as a mapping are matched
 with datasets by key

---
 grain/_src/python/dataset/transformations/mix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/mix.py b/grain/_src/python/dataset/transformations/mix.py
index fb53b8f..70191db 100644
--- a/grain/_src/python/dataset/transformations/mix.py
+++ b/grain/_src/python/dataset/transformations/mix.py
@@ -276,6 +276,9 @@ class MixedIterDataset(dataset.IterDataset[T]):
     if proportions is None:
       proportions = [1] * len(flat_parents)
     else:
+      if isinstance(parents, Mapping):
+        # Flattening may preserve the order of keys, use the one of parents.
+        proportions = parents | dict(proportions)
       proportions = tree_lib.flatten(proportions)
 
     if 0 in proportions:
-- 
2.43.0


From e8044288e0795c1ebfe623d43831b5e6ea3bbf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:57 +0000
Subject: [PATCH 29/64] fix: finalizing iterators at interpreter shutdown does
 not print errors

---
 grain/_src/python/dataset/dataset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grain/_src/python/dataset/dataset.py b/grain/_src/python/dataset/dataset.py
index 3c24c46..9114b06 100644
--- a/grain/_src/python/dataset/dataset.py
+++ b/grain/_src/python/dataset/dataset.py
@@ -1640,6 +1640,9 @@ class DatasetIterator(Iterator[T], abc.ABC):
   def __del__(self):
     # Finalizers run in whichever thread triggered garbage collection, at any
     # point of its execution, so `close` must not wait for other threads here.
+    if _finalizer is None:
+      # The interpreter is shutting down and modules are already cleared.
+      return
     nested = in_finalizer()
     _finalizer.active = True
     try:
-- 
2.43.0


From eee45f363ff876e71c90926e7d2e85b3b37d7f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:48 +0000
Subject: [PATCH 30/64] fix: a failed read does not shift the position of
 prefetching iterators

---
 .../dataset/transformations/prefetch.py       | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index b3d822f..7b9c675 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -261,12 +261,21 @@ class PrefetchDatasetIterator(dataset.DatasetIterator[T]):
           element = self._buffer.popleft()
           # Prefetch elements until the buffer is full again.
           self._fill_buffer()
-          element = element.result()
+          try:
+            element = element.result()
+          except BaseException:
+            # The buffer holds the elements after the failed one.
+            self._reset_buffer()
+            raise
         else:
           # In case prefetch buffer size was decreased, we still want to consume
           # the already prefetched elements.
           if self._buffer:
-            element = self._buffer.popleft().result()
+            try:
+              element = self._buffer.popleft().result()
+            except BaseException:
+              self._reset_buffer()
+              raise
           else:
             element = self._stats.record_bytes_consumed(
                 self._map_parent[self._next_returned_index]
@@ -296,11 +305,14 @@ class PrefetchDatasetIterator(dataset.DatasetIterator[T]):
             f"Checkpoint `next_index` {self._next_returned_index} is out of"
             f" range for dataset of length {self._dataset_length}."
         )
-
-      # Cancel all pending futures in the buffer.
-      while self._buffer:
-        future = self._buffer.popleft()
-        future.cancel()
+      self._reset_buffer()
+
+  def _reset_buffer(self) -> None:
+    """Cancels all pending futures to restart from the next returned index."""
+    self._next_buffered_index = self._next_returned_index
+    while self._buffer:
+      future = self._buffer.popleft()
+      future.cancel()
 
   def _get_next_index(self) -> int:
     return self._next_returned_index
-- 
2.43.0


From 057848157b51aa1b84f703aff17ec07dd0fa228e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:48 +0000
Subject: [PATCH 31/64] fix: thread prefetch passes SystemExit raised by the
 pipeline to the consumer

---
 grain/_src/python/dataset/transformations/prefetch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index 7b9c675..8656fa2 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -523,7 +523,7 @@ class ThreadPrefetchIterDataset(dataset.IterDataset[T]):
 # Type for the iterator state.
 StateT = dict[str, Any]
 # Type for the buffer elements.
-BufferElementT = tuple[T, StateT, Exception | None]
+BufferElementT = tuple[T, StateT, BaseException | None]
 
 
 def _put_iterator_elements_in_buffer(
@@ -538,7 +538,8 @@ def _put_iterator_elements_in_buffer(
       element = stats.record_bytes_consumed(iterator.__next__())
       state = copy.deepcopy(iterator.get_state())
       buffer.put((element, state, None))
-  except Exception as e:  # pylint: disable=broad-except
+  except BaseException as e:  # pylint: disable=broad-except
+    # Includes `SystemExit`: the consumer would wait for an element forever.
     buffer.put((None, None, e))
 
 
-- 
2.43.0


From 27e71b7dceb155df04baeb479aa0e1231de611c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:35 +0000
Subject: [PATCH 32/64] fix: elements and errors that cannot be pickled are
 reported by worker processes

---
 .../transformations/process_prefetch.py       | 81 +++++++++++++------
 1 file changed, 58 insertions(+), 23 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index f625d4a..603530d 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -19,11 +19,13 @@ from collections.abc import Callable, Sequence
 import copy
 import functools
 from multiprocessing import queues
+from multiprocessing import reduction
 from multiprocessing import sharedctypes
 from multiprocessing import synchronize
 from multiprocessing import util
 import queue
 import time
+import traceback
 from typing import Any, TypeVar
 import weakref
 
@@ -126,6 +128,33 @@ def _serialize_dataset(ds: dataset.IterDataset) -> bytes:
     raise e
 
 
+class _EagerPicklingQueue(queues.Queue):
+  """Queue that pickles items in the thread calling `put`.
+
+  `multiprocessing.Queue` pickles items in a background thread and drops those
+  that can not be pickled. Here `put` raises an error instead.
+  """
+
+  def put(self, obj, block=True, timeout=None):
+    pickled_obj = bytes(reduction.ForkingPickler.dumps(obj))
+    super().put(pickled_obj, block, timeout)
+
+  def get(self, block=True, timeout=None):
+    return reduction.ForkingPickler.loads(super().get(block, timeout))
+
+
+def _serialize_error(e: Exception) -> bytes:
+  """Serializes an exception raised in the worker process."""
+  try:
+    serialized_error = cloudpickle.dumps(e)
+    # Exceptions can define a constructor that they can not be unpickled with.
+    cloudpickle.loads(serialized_error)
+    return serialized_error
+  except Exception:  # pylint: disable=broad-except
+    message = "".join(traceback.format_exception_only(type(e), e)).strip()
+    return cloudpickle.dumps(RuntimeError(message))
+
+
 def _clear_queue_and_maybe_unlink_shm(q: queues.Queue[Any]) -> int:
   count = 0
   while True:
@@ -201,7 +230,7 @@ def _put_dataset_elements_in_buffer(
             Any,
             StateT | None,
             int | None,
-            Exception | None,
+            bytes | None,
             traceback_util.PicklableTraceback | None,
         ]
     ],
@@ -257,15 +286,37 @@ def _put_dataset_elements_in_buffer(
         # error. Wait until set_state_event or should_stop is set.
         time.sleep(_PARENT_EXHAUSTED_WAIT_S)
         continue
+      element = None
       try:
         element = next(it)
+        element = shared_memory_array.copy_to_shm(
+            element, min_size=min_shm_size
+        )
+        # If the node is prefetch, we already record the bytes produced in it's
+        # __next__ method.
+        if not it._stats._config.is_prefetch:  # pylint: disable=protected-access
+          it._stats.record_bytes_produced(element)  # pylint: disable=protected-access
+        if next_index is not None:
+          next_index += 1
+        if not grain_queue.add_element_to_queue(  # pytype: disable=wrong-arg-types
+            (element, it.get_state(), next_index, None, None),
+            buffer,
+            should_stop.is_set,
+        ):
+          # We failed to put the element into the output queue because the
+          # should_stop event was set. The element may contain a shared memory
+          # block reference that has to be cleaned up.
+          shared_memory_array.unlink_shm(element)
       except Exception as e:  # pylint: disable=broad-except
+        if element is not None:
+          # The element could not be sent.
+          shared_memory_array.unlink_shm(element)
         grain_queue.add_element_to_queue(  # pytype: disable=wrong-arg-types
             (
                 None,
                 None,
                 None,
-                e,
+                _serialize_error(e),
                 traceback_util.PicklableTraceback.from_traceback(
                     e.__traceback__
                 ),
@@ -273,25 +324,7 @@ def _put_dataset_elements_in_buffer(
             buffer,
             should_stop.is_set,
         )
-
         parent_exhausted = True
-        continue
-      element = shared_memory_array.copy_to_shm(element, min_size=min_shm_size)
-      # If the node is prefetch, we already record the bytes produced in it's
-      # __next__ method.
-      if not it._stats._config.is_prefetch:  # pylint: disable=protected-access
-        it._stats.record_bytes_produced(element)  # pylint: disable=protected-access
-      if next_index is not None:
-        next_index += 1
-      if not grain_queue.add_element_to_queue(  # pytype: disable=wrong-arg-types
-          (element, it.get_state(), next_index, None, None),
-          buffer,
-          should_stop.is_set,
-      ):
-        # We failed to put the element into the output queue because the
-        # should_stop event was set. The element may contain a shared memory
-        # block reference that has to be cleaned up.
-        shared_memory_array.unlink_shm(element)
   except Exception as e:  # pylint: disable=broad-except
     _clear_queue_and_maybe_unlink_shm(buffer)
     _clear_queue_and_maybe_unlink_shm(set_state_queue)
@@ -300,7 +333,7 @@ def _put_dataset_elements_in_buffer(
             None,
             None,
             None,
-            e,
+            _serialize_error(e),
             traceback_util.PicklableTraceback.from_traceback(e.__traceback__),
         ),
         buffer,
@@ -370,10 +403,10 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
             T,
             StateT | None,
             int | None,
-            Exception | None,
+            bytes | None,
             traceback_util.PicklableTraceback | None,
         ]
-    ] = self._process_ctx.Queue(maxsize=self._buffer_size)
+    ] = _EagerPicklingQueue(maxsize=self._buffer_size, ctx=self._process_ctx)
     self._stats_in_queue = self._process_ctx.Queue(maxsize=5)
     self._start_profiling_event = self._process_ctx.Event()
     self._stop_profiling_event = self._process_ctx.Event()
@@ -534,6 +567,8 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
           # Unlink shared memory for the discarded element.
           shared_memory_array.unlink_shm(element)
       if err is not None:
+        if isinstance(err, bytes):
+          err = cloudpickle.loads(err)
         if (
             not isinstance(err, StopIteration)
             or not self._keep_workers_after_stop_iteration
-- 
2.43.0


From cd4bf285b165b1a147e6b924e2a10abe41808013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 33/64] fix: flat map iterator does not repeat or skip elements
 after a failed read

---
 grain/_src/python/dataset/transformations/flatmap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/transformations/flatmap.py b/grain/_src/python/dataset/transformations/flatmap.py
index bc0ec5f..0d7562b 100644
--- a/grain/_src/python/dataset/transformations/flatmap.py
+++ b/grain/_src/python/dataset/transformations/flatmap.py
@@ -104,11 +104,13 @@ class _FlatMapDatasetIterator(dataset.DatasetIterator[T]):
       # Stores the previous state so that we can checkpoint this iterator
       # without storing `self._buffer` elements
       self._last_parent_state = self._parent.get_state()
+      # Reset the buffer first: reading or mapping the element can fail.
+      self._buffer = []
+      self._next_index_in_buffer = 0
 
       element = next(self._parent)  # Raises `StopIteration` when done.
 
       with timer:
-        self._next_index_in_buffer = 0
         self._buffer = self._flat_map(element)
 
     with self._stats.record_self_time(offset_ns=timer.value()):
-- 
2.43.0


From 29982c534233c889f09c0e6f74e73944b95116d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:50 +0000
Subject: [PATCH 34/64] fix: a terminated worker process does not hang its
 consumer

---
 .../transformations/process_prefetch.py       | 58 ++++++++++++-------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 603530d..02afdbc 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -161,7 +161,8 @@ def _clear_queue_and_maybe_unlink_shm(q: queues.Queue[Any]) -> int:
     try:
       shared_memory_array.unlink_shm(q.get_nowait())
       count += 1
-    except queue.Empty:
+    except (queue.Empty, EOFError, OSError):
+      # The process adding elements could have been terminated.
       return count
 
 
@@ -390,6 +391,26 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
     self._process_ctx = mp.get_context("spawn")
     self._state: StateT | None = None
     self._prefetch_process: Any | None = None
+    self._create_queues()
+    self._stats_in_queue = self._process_ctx.Queue(maxsize=5)
+    self._start_profiling_event = self._process_ctx.Event()
+    self._stop_profiling_event = self._process_ctx.Event()
+    self._set_state_count = 0
+    self._exhausted = False
+    self._prefetch_ds_iter = None
+    self._next_index: int | None = 0
+    # Ensure that the iterator is closed before the multiprocessing module
+    # attempts to terminate the worker processes to prevent process hanging
+    # issues.
+    util.Finalize(
+        self,
+        _close_if_alive,
+        args=(weakref.ref(self),),
+        exitpriority=1,
+    )
+
+  def _create_queues(self) -> None:
+    """Creates the means of communication with the worker process."""
     self._prefetch_should_stop: synchronize.Event = self._process_ctx.Event()
     self._set_state_request_count: sharedctypes.Synchronized[int] = (
         self._process_ctx.Value("i", 0)
@@ -407,22 +428,6 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
             traceback_util.PicklableTraceback | None,
         ]
     ] = _EagerPicklingQueue(maxsize=self._buffer_size, ctx=self._process_ctx)
-    self._stats_in_queue = self._process_ctx.Queue(maxsize=5)
-    self._start_profiling_event = self._process_ctx.Event()
-    self._stop_profiling_event = self._process_ctx.Event()
-    self._set_state_count = 0
-    self._exhausted = False
-    self._prefetch_ds_iter = None
-    self._next_index: int | None = 0
-    # Ensure that the iterator is closed before the multiprocessing module
-    # attempts to terminate the worker processes to prevent process hanging
-    # issues.
-    util.Finalize(
-        self,
-        _close_if_alive,
-        args=(weakref.ref(self),),
-        exitpriority=1,
-    )
 
   @property
   def buffer_size(self) -> int:
@@ -508,6 +513,9 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
         name=f"grain-process-prefetch-{self}",
     )
     self._prefetch_process.start()
+    # Only the worker process writes to the buffer. If it is terminated while
+    # writing an element, reading the rest of the element has to fail.
+    self._buffer._writer.close()  # pylint: disable=protected-access
     shared_memory_array.SharedMemoryArray.enable_async_del(1)
     if (
         self._prefetch_process.is_alive()
@@ -541,9 +549,12 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
           element, state, next_index, err, err_traceback = self._buffer.get(
               timeout=_QUEUE_WAIT_TIMEOUT_S
           )
-        except queue.Empty:
+        except (queue.Empty, EOFError, OSError) as e:
           assert self._prefetch_process is not None
-          if not worker_exited:
+          if not isinstance(e, queue.Empty):
+            # The worker process closed the buffer.
+            self._prefetch_process.join(timeout=_PROCESS_KILL_TIMEOUT_S)
+          elif not worker_exited:
             # Check the buffer once more if the worker exited: it could have
             # added elements after the timeout.
             worker_exited = self._prefetch_process.exitcode is not None
@@ -607,9 +618,11 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
     if self._unregister_fn is not None:
       self._unregister_fn()
 
-    self._prefetch_should_stop.set()
+    if self._prefetch_process.exitcode is None:
+      # A terminated worker process could still hold the locks.
+      self._prefetch_should_stop.set()
+      self._clear_set_state_queue()
     _clear_queue_and_maybe_unlink_shm(self._buffer)
-    self._clear_set_state_queue()
 
     # Not joining here will cause the children to be zombie after they finish.
     # Need to join or call active_children.
@@ -623,6 +636,9 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
       _clear_queue_and_maybe_unlink_shm(self._buffer)
     self._prefetch_process = None
     self._set_state_count = 0
+    if not self._closed:
+      # The worker process could have been terminated while using the queues.
+      self._create_queues()
 
   def get_state(self) -> StateT:
     if self._state is not None:
-- 
2.43.0


From ce3826b33315e54abcebf0e77ff00075e87f6a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:54 +0000
Subject: [PATCH 35/64] fix: iterators of worker processes can be closed while
 another thread reads

---
 .../transformations/process_prefetch.py       | 34 +++++++++----------
 grain/_src/python/ipc/shared_memory_array.py  |  3 ++
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 02afdbc..e470856 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -528,12 +528,6 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
       except Exception as e:  # pylint: disable=broad-except
         logging.warning("Failed to register subprocess: %s", str(e))
 
-  def _process_failed(self) -> bool:
-    if self._prefetch_process is None:
-      return False
-    exit_code = self._prefetch_process.exitcode
-    return exit_code is not None and exit_code != 0
-
   @dataset_stats.record_next_duration_if_output
   def __next__(self):
     if self._exhausted:
@@ -543,6 +537,8 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
       err, err_traceback = None, None
       worker_exited = False
       self.start_prefetch()
+      # The iterator can be closed by another thread, e.g. at interpreter exit.
+      process = self._prefetch_process
       # Loop until we get a non-stale element.
       while True:
         try:
@@ -550,22 +546,23 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
               timeout=_QUEUE_WAIT_TIMEOUT_S
           )
         except (queue.Empty, EOFError, OSError) as e:
-          assert self._prefetch_process is not None
+          if process is None or self._closed:
+            raise ValueError("Attempting to use a closed iterator.") from None
           if not isinstance(e, queue.Empty):
             # The worker process closed the buffer.
-            self._prefetch_process.join(timeout=_PROCESS_KILL_TIMEOUT_S)
+            process.join(timeout=_PROCESS_KILL_TIMEOUT_S)
           elif not worker_exited:
             # Check the buffer once more if the worker exited: it could have
             # added elements after the timeout.
-            worker_exited = self._prefetch_process.exitcode is not None
+            worker_exited = process.exitcode is not None
             continue
           # No more elements or responses to `set_state` will arrive. If the
           # worker exited normally it has reported the error before that.
-          if self._process_failed() or err is None:
+          if process.exitcode or err is None:
             err = RuntimeError(
                 "Worker process was terminated unexpectedly with exit code "
-                f"{self._prefetch_process.exitcode}. Search the logs above for "
-                "the source of the crash."
+                f"{process.exitcode}. Search the logs above for the source of "
+                "the crash."
             )
             err_traceback = None
           element, state, next_index = None, None, None
@@ -612,13 +609,15 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
 
   def _stop_prefetch(self):
     """Stops the prefetching process if it's currently running."""
-    if self._prefetch_process is None:
+    # Can be called by multiple threads, e.g. at interpreter exit.
+    process, self._prefetch_process = self._prefetch_process, None
+    if process is None:
       return
 
     if self._unregister_fn is not None:
       self._unregister_fn()
 
-    if self._prefetch_process.exitcode is None:
+    if process.exitcode is None:
       # A terminated worker process could still hold the locks.
       self._prefetch_should_stop.set()
       self._clear_set_state_queue()
@@ -626,15 +625,14 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
 
     # Not joining here will cause the children to be zombie after they finish.
     # Need to join or call active_children.
-    self._prefetch_process.join(timeout=_PROCESS_KILL_TIMEOUT_S)
+    process.join(timeout=_PROCESS_KILL_TIMEOUT_S)
 
     # In case all our attempts to terminate the system fails, we forcefully
     # kill the child processes.
-    if self._prefetch_process.is_alive():
-      self._prefetch_process.kill()
+    if process.is_alive():
+      process.kill()
     else:
       _clear_queue_and_maybe_unlink_shm(self._buffer)
-    self._prefetch_process = None
     self._set_state_count = 0
     if not self._closed:
       # The worker process could have been terminated while using the queues.
diff --git a/grain/_src/python/ipc/shared_memory_array.py b/grain/_src/python/ipc/shared_memory_array.py
index 9216a18..c54d43e 100644
--- a/grain/_src/python/ipc/shared_memory_array.py
+++ b/grain/_src/python/ipc/shared_memory_array.py
@@ -167,6 +167,9 @@ class SharedMemoryArray(np.ndarray):
     self._unlink_on_del = True
 
   def __del__(self) -> None:
+    if mmap is None:
+      # The interpreter is exiting, the resource tracker unlinks the memory.
+      return
     # Ensure that this array is not a view before closing shared memory
     if not isinstance(self.base, mmap.mmap):
       return
-- 
2.43.0


From 68d6f711b6a64a6c70244b1ec79aefc5493db4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:43 +0000
Subject: [PATCH 36/64] fix: closing an interleave iterator closes the
 exhausted iterators it keeps

---
 grain/_src/python/dataset/transformations/interleave.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index fd7a7ae..4a6cad5 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -425,6 +425,9 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     for iterator in self._iterators_in_use:
       if iterator is not None:
         iterator.close()
+    for exhausted_iterator in self._exhausted_iterators:
+      if exhausted_iterator is not None:
+        exhausted_iterator[1].close()
 
   def start_prefetch(self):
     for it in self._iterators_in_use:
-- 
2.43.0


From 076461d1ec02d7ef55428b8bb1af68cc4c1329e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:43 +0000
Subject: [PATCH 37/64] fix: shared memory in a reference cycle is closed once
 and unlinked

---
 grain/_src/python/ipc/shared_memory_array.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/ipc/shared_memory_array.py b/grain/_src/python/ipc/shared_memory_array.py
index c54d43e..1f88874 100644
--- a/grain/_src/python/ipc/shared_memory_array.py
+++ b/grain/_src/python/ipc/shared_memory_array.py
@@ -42,6 +42,22 @@ class SharedMemoryArrayMetadata:
     shm.unlink()
 
 
+class _SharedMemory(shared_memory.SharedMemory):
+  """Shared memory that can be closed by multiple threads.
+
+  When the garbage collector finds an array in a reference cycle it finalizes
+  both the array, which closes the memory in a thread, and the memory itself.
+  """
+
+  def __init__(self, *args, **kwargs):
+    self._close_lock = threading.RLock()
+    super().__init__(*args, **kwargs)
+
+  def close(self) -> None:
+    with self._close_lock:
+      super().close()
+
+
 def _del_shm(shm: shared_memory.SharedMemory, unlink: bool) -> None:
   shm.close()
   if unlink:
@@ -72,7 +88,7 @@ class SharedMemoryArray(np.ndarray):
     # See https://numpy.org/doc/stable/user/basics.subclassing.html
     # Shared memory cannot be empty, unlike arrays.
     size = max(1, math.prod(shape) * np.dtype(dtype).itemsize)
-    shm = shared_memory.SharedMemory(create=True, size=size)
+    shm = _SharedMemory(create=True, size=size)
     return cls.from_shared_memory(shm, shape, dtype)
 
   def __array_finalize__(self, obj):
@@ -95,7 +111,7 @@ class SharedMemoryArray(np.ndarray):
   def from_metadata(
       cls, metadata: SharedMemoryArrayMetadata
   ) -> SharedMemoryArray:
-    shm = shared_memory.SharedMemory(metadata.name)
+    shm = _SharedMemory(metadata.name)
     return cls.from_shared_memory(shm, metadata.shape, metadata.dtype)
 
   @property
-- 
2.43.0


From 73472c5c87c890d3310569210ffa53798eb23a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:43 +0000
Subject: [PATCH 38/64] fix: stopping a worker process reads the elements it is
 still sending

---
 .../dataset/transformations/process_prefetch.py      | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index e470856..2e126b0 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -54,6 +54,7 @@ StateT = dict[str, Any]
 
 # Timeout for killing worker processes on iterator close.
 _PROCESS_KILL_TIMEOUT_S = 25
+_PROCESS_JOIN_INTERVAL_S = 0.1
 # Interval to wait in the worker process when the parent iterator is exhausted
 # to avoid busy-waiting.
 _PARENT_EXHAUSTED_WAIT_S = 0.5
@@ -621,11 +622,16 @@ class ProcessPrefetchDatasetIterator(dataset.DatasetIterator[T]):
       # A terminated worker process could still hold the locks.
       self._prefetch_should_stop.set()
       self._clear_set_state_queue()
-    _clear_queue_and_maybe_unlink_shm(self._buffer)
 
     # Not joining here will cause the children to be zombie after they finish.
-    # Need to join or call active_children.
-    process.join(timeout=_PROCESS_KILL_TIMEOUT_S)
+    # Need to join or call active_children. The worker process does not exit
+    # until the elements it already put in the buffer are read.
+    deadline = time.monotonic() + _PROCESS_KILL_TIMEOUT_S
+    while True:
+      _clear_queue_and_maybe_unlink_shm(self._buffer)
+      process.join(timeout=_PROCESS_JOIN_INTERVAL_S)
+      if not process.is_alive() or time.monotonic() > deadline:
+        break
 
     # In case all our attempts to terminate the system fails, we forcefully
     # kill the child processes.
-- 
2.43.0


From 34e87ab4a0faeb7ae1ed883447d15dd26a67a1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:16 +0000
Subject: [PATCH 39/64] fix: prefetch threads are stopped at interpreter exit

---
 .../dataset/transformations/prefetch.py       | 35 +++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index 8656fa2..82b1849 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -20,11 +20,14 @@ from collections.abc import Iterator, Sequence
 import copy
 import functools
 from multiprocessing import queues
+from multiprocessing import util
 import queue
 import sys
 import threading
+import time
 import typing
 from typing import Any, Optional, Protocol, TypeVar
+import weakref
 
 from absl import logging
 from concurrent import futures
@@ -543,6 +546,34 @@ def _put_iterator_elements_in_buffer(
     buffer.put((None, None, e))
 
 
+# Prefetch threads with their `should_stop` events and buffers.
+_prefetch_threads = weakref.WeakKeyDictionary()
+# Timeout for waiting for prefetch threads at interpreter exit.
+_THREADS_EXIT_TIMEOUT_S = 10
+
+
+def _stop_prefetch_threads() -> None:
+  """Stops prefetch threads at interpreter exit.
+
+  A thread that is still running when the interpreter is finalized can crash it.
+  """
+  threads = list(_prefetch_threads.items())
+  for _, (should_stop, _) in threads:
+    should_stop.set()
+  deadline = time.monotonic() + _THREADS_EXIT_TIMEOUT_S
+  for thread, (_, buffer) in threads:
+    while thread.is_alive() and time.monotonic() < deadline:
+      # Make space for the element the thread may be adding.
+      try:
+        buffer.get_nowait()
+      except queue.Empty:
+        thread.join(timeout=0.02)
+
+
+# Runs after the worker processes, that threads can be waiting for, are stopped.
+util.Finalize(None, _stop_prefetch_threads, exitpriority=0)
+
+
 class CheckpointableIterator(Iterator[T], Protocol[T]):
   """Iterator that can be checkpointed."""
 
@@ -641,6 +672,10 @@ class ThreadPrefetchDatasetIterator(dataset.DatasetIterator[T]):
         name=f"grain-thread-prefetch-{str(self)}",
     )
     self._prefetch_thread.start()
+    _prefetch_threads[self._prefetch_thread] = (
+        self._prefetch_should_stop,
+        self._buffer,
+    )
 
   @dataset_stats.record_next_duration_if_output
   @dataset_stats.trace_input_pipeline_next(
-- 
2.43.0


From 959089b1d8e80d1434aca7dc4889e35654a624d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:20 +0000
Subject: [PATCH 40/64] fix: shared memory is unlinked before asynchronous
 deletion stops at exit

---
 grain/_src/python/ipc/shared_memory_array.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/grain/_src/python/ipc/shared_memory_array.py b/grain/_src/python/ipc/shared_memory_array.py
index 1f88874..4236b00 100644
--- a/grain/_src/python/ipc/shared_memory_array.py
+++ b/grain/_src/python/ipc/shared_memory_array.py
@@ -21,6 +21,7 @@ import math
 import mmap
 from multiprocessing import pool
 from multiprocessing import shared_memory
+from multiprocessing import util
 import threading
 from typing import Any, Iterable
 
@@ -160,6 +161,18 @@ class SharedMemoryArray(np.ndarray):
         SharedMemoryArray._outstanding_del_requests = threading.Semaphore(
             max_outstanding_requests
         )
+        # Runs before the thread pool is terminated at interpreter exit, which
+        # discards outstanding requests.
+        util.Finalize(None, cls._finish_async_del, exitpriority=20)
+
+  @classmethod
+  def _finish_async_del(cls) -> None:
+    """Finishes asynchronous deletion, further arrays are deleted in place."""
+    thread_pool = SharedMemoryArray._del_thread_pool
+    SharedMemoryArray._del_thread_pool = None
+    if thread_pool is not None:
+      thread_pool.close()
+      thread_pool.join()
 
   # For use in tests.
   @classmethod
-- 
2.43.0


From 0cc8e20dc92b06fcf190bc95898b2ec7d66f27e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:14 +0000
Subject: [PATCH 41/64] fix: prefetch threads registered for interpreter exit
 do not keep elements alive

---
 grain/_src/python/dataset/transformations/prefetch.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index 82b1849..75d8c1b 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -546,7 +546,8 @@ def _put_iterator_elements_in_buffer(
     buffer.put((None, None, e))
 
 
-# Prefetch threads with their `should_stop` events and buffers.
+# Prefetch threads with their `should_stop` events and references to buffers. An
+# error in the buffer refers to the thread.
 _prefetch_threads = weakref.WeakKeyDictionary()
 # Timeout for waiting for prefetch threads at interpreter exit.
 _THREADS_EXIT_TIMEOUT_S = 10
@@ -561,7 +562,8 @@ def _stop_prefetch_threads() -> None:
   for _, (should_stop, _) in threads:
     should_stop.set()
   deadline = time.monotonic() + _THREADS_EXIT_TIMEOUT_S
-  for thread, (_, buffer) in threads:
+  for thread, (_, buffer_ref) in threads:
+    buffer = buffer_ref()
     while thread.is_alive() and time.monotonic() < deadline:
       # Make space for the element the thread may be adding.
       try:
@@ -674,7 +676,7 @@ class ThreadPrefetchDatasetIterator(dataset.DatasetIterator[T]):
     self._prefetch_thread.start()
     _prefetch_threads[self._prefetch_thread] = (
         self._prefetch_should_stop,
-        self._buffer,
+        weakref.ref(self._buffer),
     )
 
   @dataset_stats.record_next_duration_if_output
-- 
2.43.0


From af7ae21856934bf96d2ed70e047e99ed917700ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:50 +0000
Subject: [PATCH 42/64] fix: restoring a flat map iterator does not read the
 next element

---
 grain/_src/python/dataset/transformations/flatmap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/flatmap.py b/grain/_src/python/dataset/transformations/flatmap.py
index 0d7562b..a332179 100644
--- a/grain/_src/python/dataset/transformations/flatmap.py
+++ b/grain/_src/python/dataset/transformations/flatmap.py
@@ -128,6 +128,10 @@ class _FlatMapDatasetIterator(dataset.DatasetIterator[T]):
     self._last_parent_state = state["parent"]
     self._parent.set_state(state["parent"])
     self._next_index_in_buffer = state["next_index_in_buffer"]
+    self._buffer = []
+    if self._next_index_in_buffer == 0:
+      # The next element was not read yet.
+      return
     try:
       element = next(self._parent)
       # Recovers the buffer
-- 
2.43.0


From a7ccfca89556ca38631187f340a3cf70f86e12f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:37 +0000
Subject: [PATCH 43/64] fix: parallel batching does not nest zero-dimensional
 object arrays

---
 grain/_src/python/dataset/transformations/batch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/batch.py b/grain/_src/python/dataset/transformations/batch.py
index 7a4dc3d..581ba05 100644
--- a/grain/_src/python/dataset/transformations/batch.py
+++ b/grain/_src/python/dataset/transformations/batch.py
@@ -129,7 +129,8 @@ class _MakeBatchParallel:
       # For string dtypes, the parallel path would silently truncate strings
       # because the output array dtype is inferred from the first element only.
       # Fall back to the serial _stack path which handles strings correctly.
-      if dtype.kind in ("U", "S"):
+      # Assigning zero-dimensional object arrays would nest them in the output.
+      if dtype.kind in ("U", "S") or dtype.hasobject:
         return self._stack(xs)
       # Assigning into `out` would broadcast, `np.stack` reports the mismatch.
       if any(x.shape != xs[0].shape for x in xs):
@@ -139,7 +140,7 @@ class _MakeBatchParallel:
       if sum(x.nbytes for x in xs) < _PARALLEL_BATCHING_MIN_TOTAL_BYTES:
         return self._stack(xs)
 
-      if not self._output_to_shared_memory or dtype.hasobject:
+      if not self._output_to_shared_memory:
         out = np.empty(shape, dtype=dtype)
       else:
         out = shared_memory_array.SharedMemoryArray(shape, dtype=dtype)
-- 
2.43.0


From 6b7be9515b76fe14ede7bce5d482ae26b4563f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:21 +0000
Subject: [PATCH 44/64] fix: packing operation does not emit elements of
 earlier iterations again

---
 .../experimental/example_packing/packing.py   | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/grain/_src/python/experimental/example_packing/packing.py b/grain/_src/python/experimental/example_packing/packing.py
index 6f2df2e..6bc55b5 100644
--- a/grain/_src/python/experimental/example_packing/packing.py
+++ b/grain/_src/python/experimental/example_packing/packing.py
@@ -202,8 +202,6 @@ class PackAndBatchOperation(Generic[_T]):
   length_struct: Any  # PyTree[int]
   batch_size: int
   max_sequences_per_bin: int | None = None
-  # We don't know input shapes and corresponding buffer shapes until __call__.
-  _cur_batch: Union[_PackedBatch, None] = None
 
   def __post_init__(self):
     logging.error(
@@ -214,10 +212,13 @@ class PackAndBatchOperation(Generic[_T]):
   def __call__(
       self, input_iterator: Iterator[record.Record[_T]]
   ) -> Iterator[record.Record[tuple[_T, _T, _T]]]:
+    # We don't know input shapes and corresponding buffer shapes until the first
+    # element.
+    cur_batch: Union[_PackedBatch, None] = None
     for element in input_iterator:
       # Use `element` to set dtypes + trailing dimensions.
-      if self._cur_batch is None:  # pytype: disable=attribute-error
-        self._cur_batch = _PackedBatch(
+      if cur_batch is None:
+        cur_batch = _PackedBatch(
             element.data,
             self.batch_size,
             self.length_struct,
@@ -225,19 +226,20 @@ class PackAndBatchOperation(Generic[_T]):
         )
 
       # Try adding element to the current packed batch.
-      element_added_to_batch = self._cur_batch.try_add_to_batch(element)
+      element_added_to_batch = cur_batch.try_add_to_batch(element)
 
       # When we have a full batch, yield the current packed data,
       # and then start a new batch with this element.
       if not element_added_to_batch:
-        yield self._cur_batch.get_packed_batch()  # Main yield
-        self._cur_batch = _PackedBatch(
+        yield cur_batch.get_packed_batch()  # Main yield
+        cur_batch = _PackedBatch(
             element.data,
             self.batch_size,
             self.length_struct,
             self.max_sequences_per_bin,
         )
-        self._cur_batch.try_add_to_batch(element)
+        cur_batch.try_add_to_batch(element)
 
     # Final batch
-    yield self._cur_batch.get_packed_batch()
+    if cur_batch is not None:
+      yield cur_batch.get_packed_batch()
-- 
2.43.0


From b6d07405294761b9cda0eee48b6f6918fb05e37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:12 +0000
Subject: [PATCH 45/64] fix: packing keeps values that the type of the first
 example cannot hold

---
 .../transformations/packing_concat_then_split.py | 16 +++++++++-------
 .../transformations/packing_packed_batch.py      |  8 ++++++++
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/packing_concat_then_split.py b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
index d16c843..e080797 100644
--- a/grain/_src/python/dataset/transformations/packing_concat_then_split.py
+++ b/grain/_src/python/dataset/transformations/packing_concat_then_split.py
@@ -116,11 +116,13 @@ class _CtsConfig:
 _zeros = np.zeros
 
 
-def _make_packed_buffer(length: int, x: np.ndarray | int) -> np.ndarray:
+def _make_packed_buffer(
+    length: int, xs: Sequence[np.ndarray | int]
+) -> np.ndarray:
   """Defines the main buffers we will pack the data into."""
-  x = np.asarray(x)
-  shape = x.shape[1:]
-  dtype = x.dtype
+  xs = [np.asarray(x) for x in xs]
+  shape = xs[0].shape[1:]
+  dtype = np.result_type(*xs)
   return _zeros(
       shape=(length, *shape),
       dtype=dtype,
@@ -285,9 +287,9 @@ class _ConcatThenSplitDatasetIterator(dataset.DatasetIterator):
     packed_element = {}
     for key, sequence_length in self._config.length_struct.items():
       is_meta_feature = key in self._config.meta_features
-      dummy_element = elements[0].features[key]
-
-      values = _make_packed_buffer(sequence_length, dummy_element)
+      values = _make_packed_buffer(
+          sequence_length, [element.features[key] for element in elements]
+      )
       if is_meta_feature:
         segment_ids = None
         positions = None
diff --git a/grain/_src/python/dataset/transformations/packing_packed_batch.py b/grain/_src/python/dataset/transformations/packing_packed_batch.py
index ecb4ee8..21ef057 100644
--- a/grain/_src/python/dataset/transformations/packing_packed_batch.py
+++ b/grain/_src/python/dataset/transformations/packing_packed_batch.py
@@ -298,6 +298,14 @@ class PackedBatch(abc.ABC, Generic[_T]):
       alignment = flat_alignments[idx]
       padded_end = ((end + alignment - 1) // alignment) * alignment
 
+      # The buffer was made for the first element, it should be able to hold
+      # this one unchanged (e.g. longer strings).
+      buffer_dtype = self._flat_values[idx].dtype
+      if not np.can_cast(np.asarray(value).dtype, buffer_dtype, "safe"):
+        self._flat_values[idx] = self._flat_values[idx].astype(
+            np.result_type(np.asarray(value).dtype, buffer_dtype)
+        )
+        self._values = tree_lib.unflatten_as(self._values, self._flat_values)
       self._flat_values[idx][row, start:end] = value
       self._flat_segment_ids[idx][row, start:end] = segment_id
       self._flat_positions[idx][row, start:end] = np.arange(
-- 
2.43.0


From 6839f64fbdc3c67ba0d025904511cec4ffe3a233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:12 +0000
Subject: [PATCH 46/64] fix: restoring an incomplete set of shard states is
 refused

---
 grain/_src/python/dataset/transformations/interleave.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/interleave.py b/grain/_src/python/dataset/transformations/interleave.py
index 4a6cad5..8ac764d 100644
--- a/grain/_src/python/dataset/transformations/interleave.py
+++ b/grain/_src/python/dataset/transformations/interleave.py
@@ -322,6 +322,12 @@ class InterleaveDatasetIterator(dataset.DatasetIterator[T]):
     }
 
   def set_shard_states(self, shard_states: Sequence[Any]) -> None:
+    if len(shard_states) != len(self._datasets):
+      raise ValueError(
+          f"Got states of {len(shard_states)} shards for"
+          f" {len(self._datasets)} interleaved datasets. The number of datasets"
+          " must not change and the states of all of them must be present."
+      )
     active_states = []
     for indx, shard_state in enumerate(shard_states):
       if not shard_state["exhausted"]:
-- 
2.43.0


From 82600b0f3302da3078151b95f2e11842212cb7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:12 +0000
Subject: [PATCH 47/64] fix: closing an elastic iterator closes its base
 iterator

---
 grain/_src/python/dataset/elastic_iterator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/elastic_iterator.py b/grain/_src/python/dataset/elastic_iterator.py
index 5304259..c0cb2a3 100644
--- a/grain/_src/python/dataset/elastic_iterator.py
+++ b/grain/_src/python/dataset/elastic_iterator.py
@@ -477,7 +477,7 @@ class ElasticIterator(dataset.DatasetIterator):
 
   def close(self) -> None:
     """Closes the base iterator if it was created for backwards compatibility."""
-    if "_base_iterator" in self.__dict__:
+    if "base_iterator" in self.__dict__:
       self.base_iterator.close()
 
   def get_state(self) -> dict[str, Any]:
-- 
2.43.0


From 5edfc86aefa012887acd2282262e7c525f69c254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:12 +0000
Subject: [PATCH 48/64] fix: all shards of an elastic iterator make the same
 number of steps

---
 grain/_src/python/dataset/elastic_iterator.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/grain/_src/python/dataset/elastic_iterator.py b/grain/_src/python/dataset/elastic_iterator.py
index c0cb2a3..7dcbb07 100644
--- a/grain/_src/python/dataset/elastic_iterator.py
+++ b/grain/_src/python/dataset/elastic_iterator.py
@@ -316,10 +316,6 @@ class _ElasticMapDatasetIterator(dataset.DatasetIterator):
 
   @functools.cached_property
   def _iterator(self) -> dataset.DatasetIterator:
-    ds = self._ds[
-        self._global_next_index
-        + self._shard_options.shard_index :: self._shard_options.shard_count
-    ]
     host_batch_size, remainder = divmod(
         self._global_batch_size, self._shard_options.shard_count
     )
@@ -328,6 +324,16 @@ class _ElasticMapDatasetIterator(dataset.DatasetIterator):
           f"Global batch size {self._global_batch_size} is not divisible by"
           f" shard count {self._shard_options.shard_count}."
       )
+    # Only whole global batches, otherwise some shards would make more steps than
+    # others.
+    num_remaining = max(len(self._ds) - self._global_next_index, 0)
+    stop = self._global_next_index + (
+        num_remaining - num_remaining % max(self._global_batch_size, 1)
+    )
+    ds = self._ds[
+        self._global_next_index
+        + self._shard_options.shard_index : stop : self._shard_options.shard_count
+    ]
     ds = ds.batch(host_batch_size, drop_remainder=True)
     ds = ds.to_iter_dataset(read_options=self._read_options)
     if self._multiprocessing_options is not None:
-- 
2.43.0


From 54f38e7d9a35bcc1ae45ed49d4b1bb05de15783f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:01 +0000
Subject: [PATCH 49/64] fix: views and copies of shared memory arrays are
 pickled by value

---
 grain/_src/python/ipc/shared_memory_array.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grain/_src/python/ipc/shared_memory_array.py b/grain/_src/python/ipc/shared_memory_array.py
index 4236b00..e7b43ca 100644
--- a/grain/_src/python/ipc/shared_memory_array.py
+++ b/grain/_src/python/ipc/shared_memory_array.py
@@ -136,6 +136,10 @@ class SharedMemoryArray(np.ndarray):
     return obj
 
   def __reduce_ex__(self, protocol):
+    # Views of a shared memory block and derived arrays, which have no block of
+    # their own, are pickled by value.
+    if not isinstance(self.base, mmap.mmap):
+      return self.view(np.ndarray).__reduce_ex__(protocol)
     # For out-of-band pickling we don't need a PickleBuffer because the
     # `SharedMemory` class automatically pickles itself using only its name
     return self.from_shared_memory, (self.shm, self.shape, self.dtype)
-- 
2.43.0


From e52fc6d9feca88bdc06d0d69e6c711e88a226773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:01 +0000
Subject: [PATCH 50/64] fix: growing a multiprocessing queue cancels its
 pending shrinking

---
 grain/_src/python/ipc/variable_size_queue.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/ipc/variable_size_queue.py b/grain/_src/python/ipc/variable_size_queue.py
index 1bfa7ae..711fadb 100644
--- a/grain/_src/python/ipc/variable_size_queue.py
+++ b/grain/_src/python/ipc/variable_size_queue.py
@@ -67,7 +67,10 @@ class VariableSizeMultiprocessingQueue(queues.Queue):
     with self._resize_lock:
       delta = max_size - self._max_size_val.value
       if delta > 0:
-        for _ in range(delta):
+        # Slots that are still to be taken away are kept instead.
+        num_kept = min(delta, self._pending_shrink.value)
+        self._pending_shrink.value -= num_kept
+        for _ in range(delta - num_kept):
           self._sem.release()
         self._max_size_val.value = max_size
       elif delta < 0:
-- 
2.43.0


From 889aea07f74dfbcdc24c30b31e17e5718964ca94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:01 +0000
Subject: [PATCH 51/64] fix: size of resized queues is reported correctly

---
 grain/_src/python/ipc/variable_size_queue.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/grain/_src/python/ipc/variable_size_queue.py b/grain/_src/python/ipc/variable_size_queue.py
index 711fadb..f52410a 100644
--- a/grain/_src/python/ipc/variable_size_queue.py
+++ b/grain/_src/python/ipc/variable_size_queue.py
@@ -83,6 +83,14 @@ class VariableSizeMultiprocessingQueue(queues.Queue):
           else:
             break
 
+  def qsize(self) -> int:
+    """Returns the size of the queue, similar to `queue.Queue.qsize`."""
+    with self._resize_lock:
+      # pytype: disable=attribute-error
+      num_free = self._sem._semlock._get_value()
+      # pytype: enable=attribute-error
+      return self._max_size_val.value + self._pending_shrink.value - num_free
+
   def get(self, block: bool = True, timeout: float | None = None):
     """Gets an item from the queue, similar to `queue.Queue.get`."""
     # pytype: disable=attribute-error
@@ -171,6 +179,9 @@ class VariableSizeQueue(queue.Queue):
             break
       super().put(item, block=False)
 
+  def full(self) -> bool:
+    return self.qsize() >= self._max_size
+
   def get(self, block: bool = True, timeout: float | None = None):
     item = super().get(block=block, timeout=timeout)
     with self._cond:
-- 
2.43.0


From 38782ee7acbeb35c83e1f67c83f8ce548989f559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:04 +0000
Subject: [PATCH 52/64] fix: generators spawned in random maps depend on the
 element

---
 .../python/dataset/transformations/map.py     | 39 ++++++++++++++++++-
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/map.py b/grain/_src/python/dataset/transformations/map.py
index 9070eec..4dae4fe 100644
--- a/grain/_src/python/dataset/transformations/map.py
+++ b/grain/_src/python/dataset/transformations/map.py
@@ -33,9 +33,44 @@ T = TypeVar("T")  # pylint: disable=invalid-name
 # C++.
 
 
+class _ElementSeedSequence(np.random.bit_generator.ISpawnableSeedSequence):
+  """Seeds the bit generator that is reused for many elements.
+
+  `rng.spawn` derives generators from the seed sequence instead of the state of
+  the bit generator. These must also depend on the index of the element and not
+  on how many were spawned for the elements before.
+  """
+
+  def __init__(self, seed: int):
+    self._seed = seed
+    self._seed_sequence = np.random.SeedSequence(seed)
+    self.reset(op_seed=0, index=0)
+
+  def reset(self, op_seed: int, index: int) -> None:
+    self._spawn_key = (op_seed, index)
+    self._spawning_sequence = None
+
+  def generate_state(self, n_words, dtype=np.uint32):
+    return self._seed_sequence.generate_state(n_words, dtype)
+
+  def spawn(self, n_children):
+    if self._spawning_sequence is None:
+      self._spawning_sequence = np.random.SeedSequence(
+          self._seed, spawn_key=self._spawn_key
+      )
+    return self._spawning_sequence.spawn(n_children)
+
+
+def _create_rng(seed: int) -> np.random.Generator:
+  return np.random.Generator(np.random.Philox(_ElementSeedSequence(seed)))
+
+
 def _reset_rng_state(
     rng: np.random.Generator, op_seed: int, index: int
 ) -> None:
+  seed_seq = getattr(rng.bit_generator, "seed_seq", None)
+  if isinstance(seed_seq, _ElementSeedSequence):
+    seed_seq.reset(op_seed, index)
   state = rng.bit_generator.state
   state["state"]["counter"] = np.array([0, 0, op_seed, index], dtype=np.uint64)
   state["buffer"] = np.array([0, 0, 0, 0], dtype=np.uint64)
@@ -62,7 +97,7 @@ class RngPool:
       if self._generator_cache:
         rng = self._generator_cache.pop()
       else:
-        rng = np.random.Generator(np.random.Philox(self._seed))
+        rng = _create_rng(self._seed)
     _reset_rng_state(rng, op_seed=op_seed, index=index)
     return rng
 
@@ -341,7 +376,7 @@ class _RandomMapDatasetIterator(dataset.DatasetIterator[T]):
     self._map_fn = map_fn
     self._index_for_rng = 0
     self._seed = seed
-    self._rng = np.random.Generator(np.random.Philox(seed))
+    self._rng = _create_rng(seed)
     self._transform_name = transform_name
 
   @stats.record_next_duration_if_output
-- 
2.43.0


From f21e223566a5e886e71ff5b1d550f62ec1c13f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:37 +0000
Subject: [PATCH 53/64] fix: threads starting workers do not copy and pickle a
 dataset concurrently

---
 .../transformations/process_prefetch.py       | 26 ++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 2e126b0..5fa645e 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -24,6 +24,7 @@ from multiprocessing import sharedctypes
 from multiprocessing import synchronize
 from multiprocessing import util
 import queue
+import threading
 import time
 import traceback
 from typing import Any, TypeVar
@@ -117,16 +118,22 @@ def _check_picklable(
     raise e
 
 
+# Worker iterators are created by several threads from the same dataset. Neither
+# copying nor pickling works while another thread adds attributes to it.
+_dataset_copy_lock = threading.RLock()
+
+
 def _serialize_dataset(ds: dataset.IterDataset) -> bytes:
   """Overrides the default implementation to generate better error messages."""
-  try:
-    return cloudpickle.dumps(ds)
-  except Exception as e:  # pylint: disable=broad-except
-    # Calls `_check_picklable` to generate useful pickle errors
-    _check_picklable(ds)
-    # If somehow we cannot find the dataset that is causing the pickle
-    # issues, just raise the original error
-    raise e
+  with _dataset_copy_lock:
+    try:
+      return cloudpickle.dumps(ds)
+    except Exception as e:  # pylint: disable=broad-except
+      # Calls `_check_picklable` to generate useful pickle errors
+      _check_picklable(ds)
+      # If somehow we cannot find the dataset that is causing the pickle
+      # issues, just raise the original error
+      raise e
 
 
 class _EagerPicklingQueue(queues.Queue):
@@ -728,7 +735,8 @@ class _LazyWorkerSliceIterDataset(dataset.IterDataset[T]):
     if not _is_in_worker_process:
       # Only used for states and indices. These must match those of the worker
       # but the original dataset must not be altered.
-      parent = copy.deepcopy(self._parent)
+      with _dataset_copy_lock:
+        parent = copy.deepcopy(self._parent)
       prefetch._set_slice_iter_dataset(
           parent, self._slice, self._sequential_slice
       )
-- 
2.43.0


From 900134f51661900fc3955864c267f2518da64b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:37 +0000
Subject: [PATCH 54/64] fix: prefetch iterators whose construction failed are
 finalized without errors

---
 grain/_src/python/dataset/transformations/prefetch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/prefetch.py b/grain/_src/python/dataset/transformations/prefetch.py
index 75d8c1b..edf8e29 100644
--- a/grain/_src/python/dataset/transformations/prefetch.py
+++ b/grain/_src/python/dataset/transformations/prefetch.py
@@ -591,6 +591,9 @@ class ThreadPrefetchDatasetIterator(dataset.DatasetIterator[T]):
 
   _MUTATES_ELEMENT_SPEC = False
 
+  # Set for `close` if the constructor fails, e.g. in the parent's `get_state`.
+  _prefetch_thread: threading.Thread | None = None
+
   def __init__(
       self,
       parent: CheckpointableIterator[T],
-- 
2.43.0


From ee42db2bb83034015df8d7ff437bc6b8bc4bb344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:06 +0000
Subject: [PATCH 55/64] fix: Parquet files without row groups and with many
 empty ones can be read

---
 .../python/dataset/sources/parquet_dataset.py | 27 ++++++++++---------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/grain/_src/python/dataset/sources/parquet_dataset.py b/grain/_src/python/dataset/sources/parquet_dataset.py
index 6b31d60..407d43d 100644
--- a/grain/_src/python/dataset/sources/parquet_dataset.py
+++ b/grain/_src/python/dataset/sources/parquet_dataset.py
@@ -51,6 +51,9 @@ class _ParquetDatasetIterator(dataset.DatasetIterator[T]):
     self._read_row_group_to_np_table()
 
   def _read_row_group_to_np_table(self):
+    if not self._pq_file.num_row_groups:
+      # Files without records may have no row groups.
+      return
     table = self._pq_file.read_row_group(self._row_group)
     self._row_group_len = len(table)
     self._np_table = {}
@@ -58,20 +61,18 @@ class _ParquetDatasetIterator(dataset.DatasetIterator[T]):
       self._np_table[table.field(i).name] = table.column(i).to_numpy()
 
   def __next__(self):
-    if self._index_within_row_group >= self._row_group_len:
-      if self._row_group < self._pq_file.num_row_groups - 1:
-        self._row_group += 1
-        self._index_within_row_group = 0
-        self._read_row_group_to_np_table()
-        return self.__next__()
-      else:
+    # Row groups can be empty.
+    while self._index_within_row_group >= self._row_group_len:
+      if self._row_group >= self._pq_file.num_row_groups - 1:
         raise StopIteration()
-    else:
-      item = {
-          k: v[self._index_within_row_group] for k, v in self._np_table.items()
-      }
-      self._index_within_row_group += 1
-      return item
+      self._row_group += 1
+      self._index_within_row_group = 0
+      self._read_row_group_to_np_table()
+    item = {
+        k: v[self._index_within_row_group] for k, v in self._np_table.items()
+    }
+    self._index_within_row_group += 1
+    return item
 
   def get_state(self):
     return {
-- 
2.43.0


From be26b6d25e8532b50310ef4c7d29720103e8cabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:13 +0000
Subject: [PATCH 56/64] fix: the length of large range data sources is exact

---
 grain/_src/python/data_sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grain/_src/python/data_sources.py b/grain/_src/python/data_sources.py
index f885dae..49c3534 100644
--- a/grain/_src/python/data_sources.py
+++ b/grain/_src/python/data_sources.py
@@ -23,7 +23,6 @@ pipelines.
 
 from collections.abc import Sequence
 import inspect
-import math
 from multiprocessing import shared_memory
 import os
 import threading
@@ -113,7 +112,8 @@ class RangeDataSource:
     self._start = start
     self._stop = stop
     self._step = step
-    self._len = int(math.ceil((self._stop - self._start) / step))
+    # Rounds up without the loss of precision of a float division.
+    self._len = int(-((self._start - self._stop) // step))
     assert self._len >= 0, "length can't be negative."
     _api_usage_counter.Increment("RangeDataSource")
 
-- 
2.43.0


From 6ff28de553a54a205213dd5c1517104f25cdd195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:56 +0000
Subject: [PATCH 57/64] fix: a dataset can be pickled after it was used with
 visualization

---
 grain/_src/python/dataset/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/stats.py b/grain/_src/python/dataset/stats.py
index 985bb39..70719e5 100644
--- a/grain/_src/python/dataset/stats.py
+++ b/grain/_src/python/dataset/stats.py
@@ -793,7 +793,7 @@ class _VisualizationStats(Stats):
     self._reported_lock = threading.Lock()
 
   def __reduce__(self):
-    return _VisualizationStats, (self._config.name, self._parents)
+    return _VisualizationStats, (self._config, self._parents)
 
   @contextlib.contextmanager
   def record_self_time(self, *, num_elements: int = 1, offset_ns: int = 0):
-- 
2.43.0


From 465b041b3a40a5c0eaa014669c6f10bec7e2dd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:18 +0000
Subject: [PATCH 58/64] fix: execution tracking and visualization do not
 rebuild or reject elements

---
 grain/_src/python/dataset/stats.py       |  7 ++++++-
 grain/_src/python/dataset/stats_utils.py | 23 +++++++++++++++++------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/grain/_src/python/dataset/stats.py b/grain/_src/python/dataset/stats.py
index 70719e5..418263c 100644
--- a/grain/_src/python/dataset/stats.py
+++ b/grain/_src/python/dataset/stats.py
@@ -802,7 +802,12 @@ class _VisualizationStats(Stats):
   def record_output_spec(self, element: T) -> T:
     # Visualize the dataset graph once last node had seen a non-None element.
     if self._self_output_spec is None:
-      self._self_output_spec = tree_lib.spec_like(element)
+      try:
+        self._self_output_spec = tree_lib.spec_like(element)
+      except Exception:  # pylint: disable=broad-except
+        # Not a PyTree, e.g. a dictionary with keys that can not be sorted, or a
+        # leaf that can not be inspected.
+        self._self_output_spec = type(element).__name__
       if self._is_output and not self._reported:
         # The check above with update without a lock is not atomic, need to
         # check again under a lock.
diff --git a/grain/_src/python/dataset/stats_utils.py b/grain/_src/python/dataset/stats_utils.py
index 8498c06..71342b8 100644
--- a/grain/_src/python/dataset/stats_utils.py
+++ b/grain/_src/python/dataset/stats_utils.py
@@ -13,7 +13,6 @@
 # limitations under the License.
 """Util functions for stats.py."""
 
-import functools
 import math
 from typing import Any
 
@@ -226,8 +225,20 @@ def _record_leaf_size(element: Any, memory_buffer: list[int]) -> Any:
 
 
 def record_size(element: Any, memory_buffer: list[int]) -> Any:
-  """Records the size of the element in the memory buffer."""
-  return tree_lib.map_structure(
-      functools.partial(_record_leaf_size, memory_buffer=memory_buffer),
-      element,
-  )
+  """Records the size of the element in the memory buffer.
+
+  Args:
+    element: The element, not modified.
+    memory_buffer: The buffer to append the sizes to.
+
+  Returns:
+    The `element` itself -- recording must not change what the pipeline produces.
+  """
+  try:
+    leaves = tree_lib.flatten(element)
+  except (TypeError, ValueError):
+    # Not a PyTree, e.g. a dictionary with keys that can not be sorted.
+    leaves = (element,)
+  for leaf in leaves:
+    _record_leaf_size(leaf, memory_buffer)
+  return element
-- 
2.43.0


From 8ebef8908b5f75edfaeb7198cb95de0939eebf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:38 +0000
Subject: [PATCH 59/64] fix: a filter threshold of zero is not ignored

---
 .../_src/python/dataset/transformations/filter.py  | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/grain/_src/python/dataset/transformations/filter.py b/grain/_src/python/dataset/transformations/filter.py
index 2c320d4..e450d97 100644
--- a/grain/_src/python/dataset/transformations/filter.py
+++ b/grain/_src/python/dataset/transformations/filter.py
@@ -96,8 +96,14 @@ class FilterThresholdChecker:
     self._transform_name = transform_name
     self._passed = 0
     self._skipped = 0
-    self._warn_threshold: float = warn_threshold or float("inf")
-    self._raise_threshold: float = raise_threshold or float("inf")
+    # Only `None` disables a check. With a threshold of zero any filtered out
+    # element is reported.
+    self._warn_threshold: float = (
+        float("inf") if warn_threshold is None else warn_threshold
+    )
+    self._raise_threshold: float = (
+        float("inf") if raise_threshold is None else raise_threshold
+    )
 
   def check(self, passed: bool) -> None:
     """Record whether an element was filtered out and check the ratio."""
@@ -108,7 +114,7 @@ class FilterThresholdChecker:
 
     if self._passed + self._skipped >= _CHECK_FILTERED_INTERVAL:
       skipped_ratio = self._skipped / (self._passed + self._skipped)
-      if skipped_ratio >= self._raise_threshold:
+      if self._skipped and skipped_ratio >= self._raise_threshold:
         raise ValueError(
             f"Transformation {self._transform_name} skipped"
             f" {(skipped_ratio*100):.2f} % of the last seen"
@@ -118,7 +124,7 @@ class FilterThresholdChecker:
             " `grain.experimental.DatasetOptions.filter_raise_threshold_ratio`"
             " used in `WithOptionsIterDataset` to `None`."
         )
-      if skipped_ratio >= self._warn_threshold:
+      if self._skipped and skipped_ratio >= self._warn_threshold:
         logging.log_every_n_seconds(
             logging.WARNING,
             "Transformation %s skipped %.2f %% of the last seen %d elements."
-- 
2.43.0


From 3ca3171c49b85c75bfc7d852c1d927c423489567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:55 +0000
Subject: [PATCH 60/64] fix: summaries of interleaved datasets tracking
 execution differently

---
 grain/_src/python/dataset/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grain/_src/python/dataset/stats.py b/grain/_src/python/dataset/stats.py
index 418263c..d188d12 100644
--- a/grain/_src/python/dataset/stats.py
+++ b/grain/_src/python/dataset/stats.py
@@ -1110,7 +1110,8 @@ class _InterleaveExecutionStats(_ExecutionStats):
     aggregated_summary = execution_summary_pb2.ExecutionSummary()
     num_nodes_in_parent = None
     for parent_stats in self._parents:
-      assert isinstance(parent_stats, _ExecutionStats)
+      if not isinstance(parent_stats, _ExecutionStats):
+        raise ValueError("Execution is tracked only for some of the parents.")
       parent_summary = parent_stats._get_execution_summary()  # pylint: disable=protected-access
       if num_nodes_in_parent is None:
         num_nodes_in_parent = len(parent_summary.nodes)
-- 
2.43.0


From 027b0e173310ba4a30902446b1019e01777ec6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:56 +0000
Subject: [PATCH 61/64] fix: a negative number of workers is rejected

---
 grain/_src/python/dataset/transformations/process_prefetch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grain/_src/python/dataset/transformations/process_prefetch.py b/grain/_src/python/dataset/transformations/process_prefetch.py
index 5fa645e..d74d22c 100644
--- a/grain/_src/python/dataset/transformations/process_prefetch.py
+++ b/grain/_src/python/dataset/transformations/process_prefetch.py
@@ -782,6 +782,10 @@ def multiprocess_prefetch(
   Returns:
     `IterDataset` that prefetches elements from `ds` using multiple processes.
   """
+  if num_workers < 0:
+    raise ValueError(
+        f"`num_workers` must be greater than or equal to 0, got {num_workers}."
+    )
   if num_workers == 0:
     return ds
 
-- 
2.43.0


From 1f223f7ae57099e5693f98a3e027982796feab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:40 +0000
Subject: [PATCH 62/64] fix: trees are flattened in the same order without JAX

---
 grain/_src/core/tree_lib.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/grain/_src/core/tree_lib.py b/grain/_src/core/tree_lib.py
index 75e4867..f031eb5 100644
--- a/grain/_src/core/tree_lib.py
+++ b/grain/_src/core/tree_lib.py
@@ -86,6 +86,15 @@ try:
 
 except ImportError:
 
+  def _items(mapping):
+    """Items in the order of traversal in JAX: sorted, unless it is ordered."""
+    if isinstance(mapping, collections.OrderedDict):
+      return list(mapping.items())
+    try:
+      return sorted(mapping.items(), key=lambda item: item[0])
+    except TypeError:  # The keys are not comparable.
+      return list(mapping.items())
+
   def map_structure(f, *trees, is_leaf=None):
     """Pure Python version of `jax.tree_util.tree_map`."""
     a = trees[0]
@@ -117,7 +126,7 @@ except ImportError:
     elif isinstance(structure, _MAPPING_TYPES):
       return list(
           itertools.chain.from_iterable(
-              flatten(v) for _, v in structure.items()
+              flatten(v) for _, v in _items(structure)
           )
       )
     else:  # leaf
@@ -135,9 +144,9 @@ except ImportError:
       else:
         return type(structure)(new_items)
     elif isinstance(structure, _MAPPING_TYPES):
-      new_items = (
-          (k, _unflatten_iter_as(v, flat_iter)) for k, v in structure.items()
-      )
+      new_items = [
+          (k, _unflatten_iter_as(v, flat_iter)) for k, v in _items(structure)
+      ]
       if isinstance(structure, collections.defaultdict):
         new_tree = type(structure)(structure.default_factory)
         new_tree.update(new_items)
@@ -199,7 +208,8 @@ except ImportError:
     elif isinstance(structure, _MAPPING_TYPES):
       return list(
           itertools.chain.from_iterable(
-              _flatten_with_path(prefix + (k,), v) for k, v in structure.items()
+              _flatten_with_path(prefix + (k,), v)
+              for k, v in _items(structure)
           )
       )
     else:  # leaf
-- 
2.43.0


From 0a2be6c9b2e755e3fd97358207297a3576eee77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:40 +0000
Subject: [PATCH 63/64] fix: trees of different structure are not truncated
 without JAX

---
 grain/_src/core/tree_lib.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/grain/_src/core/tree_lib.py b/grain/_src/core/tree_lib.py
index f031eb5..405e8a6 100644
--- a/grain/_src/core/tree_lib.py
+++ b/grain/_src/core/tree_lib.py
@@ -95,18 +95,31 @@ except ImportError:
     except TypeError:  # The keys are not comparable.
       return list(mapping.items())
 
+  def _check_same_node(trees):
+    """Raises an error if the roots of the trees are different."""
+    a = trees[0]
+    for b in trees[1:]:
+      if type(a) is not type(b) or (
+          a.keys() != b.keys()
+          if isinstance(a, _MAPPING_TYPES)
+          else len(a) != len(b)
+      ):
+        raise ValueError(f"Structures are not the same: a = {a}, b = {b}")
+
   def map_structure(f, *trees, is_leaf=None):
     """Pure Python version of `jax.tree_util.tree_map`."""
     a = trees[0]
     if is_leaf is not None and is_leaf(a):
       return f(*trees)
     elif isinstance(a, _SEQUENCE_TYPES):
+      _check_same_node(trees)
       new_items = (map_structure(f, *v, is_leaf=is_leaf) for v in zip(*trees))
       if epy.is_namedtuple(a):
         return type(a)(*new_items)
       else:
         return type(a)(new_items)
     elif isinstance(a, _MAPPING_TYPES):
+      _check_same_node(trees)
       new_items = (
           (k, map_structure(f, *v, is_leaf=is_leaf))
           for k, v in epy.zip_dict(*trees)
@@ -164,8 +177,8 @@ except ImportError:
 
   def _assert_same_structure(a, b):
     """`assert_same_structure` recursive implementation."""
-    if isinstance(a, _ALL_TYPES):
-      if not isinstance(a, type(b)):
+    if isinstance(a, _ALL_TYPES) or isinstance(b, _ALL_TYPES):
+      if type(a) is not type(b):
         raise AssertionError(
             f"structures have different types: {type(a)} != {type(b)}"
         )
@@ -224,6 +237,7 @@ except ImportError:
     if is_leaf is not None and is_leaf(a):
       return f(prefix, *trees)
     elif isinstance(a, _SEQUENCE_TYPES):
+      _check_same_node(trees)
       new_items = (
           _map_structure_with_path(prefix + (i,), f, *v, is_leaf=is_leaf)
           for i, v in enumerate(zip(*trees))
@@ -233,6 +247,7 @@ except ImportError:
       else:
         return type(a)(new_items)
     elif isinstance(a, _MAPPING_TYPES):
+      _check_same_node(trees)
       new_items = (
           (k, _map_structure_with_path(prefix + (k,), f, *v, is_leaf=is_leaf))
           for k, v in epy.zip_dict(*trees)
-- 
2.43.0


From 6e421a99676fb1ec1d1972a5d2d56160d7d5cd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:40 +0000
Subject: [PATCH 64/64] fix: None is an empty tree without JAX

---
 grain/_src/core/tree_lib.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/grain/_src/core/tree_lib.py b/grain/_src/core/tree_lib.py
index 405e8a6..fc6e0bb 100644
--- a/grain/_src/core/tree_lib.py
+++ b/grain/_src/core/tree_lib.py
@@ -99,7 +99,7 @@ except ImportError:
     """Raises an error if the roots of the trees are different."""
     a = trees[0]
     for b in trees[1:]:
-      if type(a) is not type(b) or (
+      if type(a) is not type(b) or a is not None and (
           a.keys() != b.keys()
           if isinstance(a, _MAPPING_TYPES)
           else len(a) != len(b)
@@ -111,6 +111,9 @@ except ImportError:
     a = trees[0]
     if is_leaf is not None and is_leaf(a):
       return f(*trees)
+    elif a is None:  # An empty structure, as in JAX.
+      _check_same_node(trees)
+      return None
     elif isinstance(a, _SEQUENCE_TYPES):
       _check_same_node(trees)
       new_items = (map_structure(f, *v, is_leaf=is_leaf) for v in zip(*trees))
@@ -134,7 +137,9 @@ except ImportError:
       return f(*trees)
 
   def flatten(structure):
-    if isinstance(structure, _SEQUENCE_TYPES):
+    if structure is None:  # An empty structure, as in JAX.
+      return []
+    elif isinstance(structure, _SEQUENCE_TYPES):
       return list(itertools.chain.from_iterable(flatten(v) for v in structure))
     elif isinstance(structure, _MAPPING_TYPES):
       return list(
@@ -150,7 +155,9 @@ except ImportError:
 
   def _unflatten_iter_as(structure, flat_iter):
     """`unflatten` recursive implementation."""
-    if isinstance(structure, _SEQUENCE_TYPES):
+    if structure is None:  # An empty structure, as in JAX.
+      return None
+    elif isinstance(structure, _SEQUENCE_TYPES):
       new_items = (_unflatten_iter_as(v, flat_iter) for v in structure)
       if epy.is_namedtuple(structure):
         return type(structure)(*new_items)
@@ -177,6 +184,8 @@ except ImportError:
 
   def _assert_same_structure(a, b):
     """`assert_same_structure` recursive implementation."""
+    if (a is None) != (b is None):
+      raise AssertionError(f"structures are not the same: {a} != {b}")
     if isinstance(a, _ALL_TYPES) or isinstance(b, _ALL_TYPES):
       if type(a) is not type(b):
         raise AssertionError(
@@ -211,7 +220,9 @@ except ImportError:
 
   def _flatten_with_path(prefix, structure):
     """Recursive implementation of `flatten_with_path`."""
-    if isinstance(structure, _SEQUENCE_TYPES):
+    if structure is None:  # An empty structure, as in JAX.
+      return []
+    elif isinstance(structure, _SEQUENCE_TYPES):
       return list(
           itertools.chain.from_iterable(
               _flatten_with_path(prefix + (i,), v)
@@ -236,6 +247,9 @@ except ImportError:
     a = trees[0]
     if is_leaf is not None and is_leaf(a):
       return f(prefix, *trees)
+    elif a is None:  # An empty structure, as in JAX.
+      _check_same_node(trees)
+      return None
     elif isinstance(a, _SEQUENCE_TYPES):
       _check_same_node(trees)
       new_items = (
-- 
2.43.0

