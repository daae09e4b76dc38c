From 00ccef5ac8a4398e95239ecdfbc20e3bff833fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 01/40] fix: keep the sample numbering of a worker-less loader
 across save and restore

---
 src/megatron/energon/savable_loader.py | 31 +++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index ca21e48..ef1f98b 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -108,14 +108,33 @@ class SimpleSavableDatasetWrapper(SavableDataset[Tuple[int, int, T]], Generic[T]
                 if worker_active:
                     self.worker_config.worker_deactivate()
 
-    def save_state(self) -> State:
-        return self.dataset.save_state()
+    def save_state(self) -> SimpleSavableDatasetState:
+        return SimpleSavableDatasetState(
+            dataset_type=type(self).__name__,
+            dataset_state=self.dataset.save_state(),
+            sample_index=self._sample_index[self.worker_config.rank_worker_id()],
+        )
 
-    def merge_states(self, states: List[State]) -> MergedState:
-        return self.dataset.merge_states(states)
+    def merge_states(
+        self, states: List[Optional[SimpleSavableDatasetState]]
+    ) -> SimpleSavableDatasetMergedState:
+        assert all(s is None or isinstance(s, SimpleSavableDatasetState) for s in states)
+        return SimpleSavableDatasetMergedState(
+            dataset_type=type(self).__name__,
+            dataset_state=self.dataset.merge_states(
+                [None if s is None else s.dataset_state for s in states]
+            ),
+            sample_indexes=[0 if s is None else s.sample_index for s in states],
+        )
 
-    def restore_state(self, state: MergedState):
-        self.dataset.restore_state(state)
+    def restore_state(self, state: Optional[SimpleSavableDatasetMergedState]):
+        if state is None:
+            self.dataset.restore_state(None)
+            self._sample_index = [0] * max(self.worker_config.num_workers, 1)
+        else:
+            assert isinstance(state, SimpleSavableDatasetMergedState)
+            self.dataset.restore_state(state.dataset_state)
+            self._sample_index = list(state.sample_indexes)
         self._state_restored = True
 
     def can_restore_sample(self) -> bool:
-- 
2.43.0


From 9ccd2149ea325b6e28459321199c75d9f4822bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 02/40] fix: do not alias a restored state with the live
 dataset state

Restoring kept references to the lists of the given state, so iterating on
modified the state object itself and a second restore from it was wrong.
---
 src/megatron/energon/flavors/webdataset/sample_loader.py | 6 +++---
 src/megatron/energon/savable_loader.py                   | 2 +-
 src/megatron/energon/wrappers/base.py                    | 2 +-
 src/megatron/energon/wrappers/batch_dataset.py           | 4 ++--
 src/megatron/energon/wrappers/buffer.py                  | 2 +-
 src/megatron/energon/wrappers/epochize_dataset.py        | 2 +-
 src/megatron/energon/wrappers/limit_dataset.py           | 2 +-
 src/megatron/energon/wrappers/log_sample_dataset.py      | 2 +-
 src/megatron/energon/wrappers/map_dataset.py             | 4 ++--
 src/megatron/energon/wrappers/packing_dataset.py         | 4 +++-
 src/megatron/energon/wrappers/repeat_dataset.py          | 2 +-
 11 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/sample_loader.py b/src/megatron/energon/flavors/webdataset/sample_loader.py
index 3642e18..d42b04c 100644
--- a/src/megatron/energon/flavors/webdataset/sample_loader.py
+++ b/src/megatron/energon/flavors/webdataset/sample_loader.py
@@ -749,9 +749,9 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
                     state.active_shards, self.shards_by_key
                 )
             ]
-            self._sample_count = state.sample_count
-            self._epoch_count = state.epoch_count
-            self._epoch_sample_count = state.epoch_sample_count
+            self._sample_count = list(state.sample_count)
+            self._epoch_count = list(state.epoch_count)
+            self._epoch_sample_count = list(state.epoch_sample_count)
 
     def config(self) -> Dict[str, Any]:
         return {
diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index ef1f98b..e7ceb31 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -589,7 +589,7 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
             self._restore_from = state.state
             self._worker_offset = worker_offset
             self.dataset.restore_state(state.dataset_state)
-            self._skip_samples = state.offset
+            self._skip_samples = list(state.offset)
 
     def can_restore_sample(self) -> bool:
         return self.dataset.can_restore_sample()
diff --git a/src/megatron/energon/wrappers/base.py b/src/megatron/energon/wrappers/base.py
index afe7cd6..c92ede5 100644
--- a/src/megatron/energon/wrappers/base.py
+++ b/src/megatron/energon/wrappers/base.py
@@ -198,7 +198,7 @@ class SampleIndex:
             self._sample_index = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert len(state) == len(self._sample_index)
-            self._sample_index = state
+            self._sample_index = list(state)
 
 
 def get_sample_restore_key(sample: Any) -> Optional[Union[str, int]]:
diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index ab66da2..4d51c62 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -251,8 +251,8 @@ class BatchDataset(
             assert isinstance(state, BatchMergedState)
             self._sample_index.restore_state(state.sample_indexes)
             if isinstance(state, BatchGeneratorMergedState):
-                self._generator_sample_keys = state.generator_sample_keys
-                self._generator_offsets = state.generator_offsets
+                self._generator_sample_keys = list(state.generator_sample_keys)
+                self._generator_offsets = list(state.generator_offsets)
             else:
                 self._generator_sample_keys = [None] * max(self.worker_config.num_workers, 1)
                 self._generator_offsets = [None] * max(self.worker_config.num_workers, 1)
diff --git a/src/megatron/energon/wrappers/buffer.py b/src/megatron/energon/wrappers/buffer.py
index 730e504..de17c04 100644
--- a/src/megatron/energon/wrappers/buffer.py
+++ b/src/megatron/energon/wrappers/buffer.py
@@ -139,7 +139,7 @@ class SavableSampleBuffer(BaseWrapperDataset[T_sample], Generic[T_sample]):
             assert isinstance(state, SampleBufferMergedState)
             assert len(state.buffer) == max(self.worker_config.num_workers, 1)
             self._buffer = [[] for _ in range(max(self.worker_config.num_workers, 1))]
-            self._restore_keys = state.buffer
+            self._restore_keys = [list(keys) for keys in state.buffer]
             self._restore_pending = True
 
     def restore_key(self) -> Tuple[Union[str, int], ...]:
diff --git a/src/megatron/energon/wrappers/epochize_dataset.py b/src/megatron/energon/wrappers/epochize_dataset.py
index 0dcc326..724c025 100644
--- a/src/megatron/energon/wrappers/epochize_dataset.py
+++ b/src/megatron/energon/wrappers/epochize_dataset.py
@@ -128,7 +128,7 @@ class EpochizeDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sa
             self._offset = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, EpochizeMergedState)
-            self._offset = state.offset
+            self._offset = list(state.offset)
 
     def config(self) -> Dict[str, Any]:
         return {
diff --git a/src/megatron/energon/wrappers/limit_dataset.py b/src/megatron/energon/wrappers/limit_dataset.py
index c32f6c6..e95772d 100644
--- a/src/megatron/energon/wrappers/limit_dataset.py
+++ b/src/megatron/energon/wrappers/limit_dataset.py
@@ -133,7 +133,7 @@ class LimitDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sampl
             self._current_offset = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, LimitMergedState)
-            self._current_offset = state.offset
+            self._current_offset = list(state.offset)
 
     def config(self) -> Dict[str, Any]:
         return {
diff --git a/src/megatron/energon/wrappers/log_sample_dataset.py b/src/megatron/energon/wrappers/log_sample_dataset.py
index 772b180..b0582e5 100644
--- a/src/megatron/energon/wrappers/log_sample_dataset.py
+++ b/src/megatron/energon/wrappers/log_sample_dataset.py
@@ -130,7 +130,7 @@ class LogSampleDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_s
             self._step = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, LogSampleMergedState)
-            self._step = state.step
+            self._step = list(state.step)
 
     def config(self) -> Dict[str, Any]:
         # Transparent logger, it won't change the samples
diff --git a/src/megatron/energon/wrappers/map_dataset.py b/src/megatron/energon/wrappers/map_dataset.py
index 7f9122b..474e156 100644
--- a/src/megatron/energon/wrappers/map_dataset.py
+++ b/src/megatron/energon/wrappers/map_dataset.py
@@ -219,8 +219,8 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
             assert isinstance(state, MapMergedState)
             self._sample_index.restore_state(state.sample_indexes)
             if isinstance(state, MapGeneratorMergedState):
-                self._generator_sample_keys = state.generator_sample_keys
-                self._generator_offsets = state.generator_offsets
+                self._generator_sample_keys = list(state.generator_sample_keys)
+                self._generator_offsets = list(state.generator_offsets)
             else:
                 self._generator_sample_keys = [None] * max(self.worker_config.num_workers, 1)
                 self._generator_offsets = [None] * max(self.worker_config.num_workers, 1)
diff --git a/src/megatron/energon/wrappers/packing_dataset.py b/src/megatron/energon/wrappers/packing_dataset.py
index eaa8806..666fbee 100644
--- a/src/megatron/energon/wrappers/packing_dataset.py
+++ b/src/megatron/energon/wrappers/packing_dataset.py
@@ -316,7 +316,9 @@ class PackingDataset(
             assert isinstance(state, PackingMergedState)
             self._reading_buffer.restore_state(state.reading_buffer)
             self._pre_packing_buffer.restore_state(state.pre_packing_buffer)
-            self._pre_packing_lengths = state.pre_packing_lengths
+            self._pre_packing_lengths = [
+                list(lengths) for lengths in state.pre_packing_lengths
+            ]
             self._pre_packing_sample_index.restore_state(state.pre_packing_index)
             self._final_packing_sample_index.restore_state(state.final_packing_index)
 
diff --git a/src/megatron/energon/wrappers/repeat_dataset.py b/src/megatron/energon/wrappers/repeat_dataset.py
index fd491cb..e0eb685 100644
--- a/src/megatron/energon/wrappers/repeat_dataset.py
+++ b/src/megatron/energon/wrappers/repeat_dataset.py
@@ -106,7 +106,7 @@ class RepeatDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_samp
             self._offset = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, RepeatMergedState)
-            self._offset = state.offset
+            self._offset = list(state.offset)
 
     def config(self) -> Dict[str, Any]:
         return {
-- 
2.43.0


From 2237803ee1504916145a223988c96c5e2bd6657f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 03/40] fix: blend restore keys must index all blended datasets

The restore key stored the index among the datasets which have samples for the
worker, while restore_sample indexes all datasets.
---
 src/megatron/energon/wrappers/blend_dataset.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/megatron/energon/wrappers/blend_dataset.py b/src/megatron/energon/wrappers/blend_dataset.py
index 2ab6d3a..026eb63 100644
--- a/src/megatron/energon/wrappers/blend_dataset.py
+++ b/src/megatron/energon/wrappers/blend_dataset.py
@@ -78,10 +78,11 @@ class BlendDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
 
     def __iter__(self) -> Iterator[T_sample]:
         assert self.worker_has_samples(), "Cannot blend all empty datasets"
-        datasets, weights = zip(
+        # Keep the index into dataset_weights, which is part of the restore key
+        ds_indexes, datasets, weights = zip(
             *[
-                (dataset, weight)
-                for dataset, weight in self.dataset_weights
+                (idx, dataset, weight)
+                for idx, (dataset, weight) in enumerate(self.dataset_weights)
                 if dataset.worker_has_samples()
             ]
         )
@@ -92,7 +93,7 @@ class BlendDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
         while True:
             ds_idx = self._worker_rng.choice_idx(probs=probs)
             sample = next(dataset_iters[ds_idx])
-            yield add_sample_restore_key(sample, ds_idx, src=self)
+            yield add_sample_restore_key(sample, ds_indexes[ds_idx], src=self)
 
     def worker_has_samples(self) -> bool:
         return any(dataset.worker_has_samples() for dataset, _weight in self.dataset_weights)
-- 
2.43.0


From d8f6db78cb967c2a6e4eb112a51b46a4338fd114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 04/40] fix: resetting the worker rng must reset the generator

---
 src/megatron/energon/rng.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/rng.py b/src/megatron/energon/rng.py
index 6fdf81d..093dc09 100644
--- a/src/megatron/energon/rng.py
+++ b/src/megatron/energon/rng.py
@@ -111,6 +111,8 @@ class WorkerRng:
 
     def restore_state(self, state: Optional[WorkerRngMergedState]) -> None:
         if state is None:
+            # Back to the initial state: The generator is seeded again on next use
+            self._rng = None
             self._restore_states = None
         else:
             assert isinstance(state, WorkerRngMergedState)
-- 
2.43.0


From 84ac3193b61603698e4408317ec047350f14caae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 05/40] fix: restoring an epochized dataset must drop the
 active iterator

---
 src/megatron/energon/wrappers/epochize_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/wrappers/epochize_dataset.py b/src/megatron/energon/wrappers/epochize_dataset.py
index 724c025..bebe2e6 100644
--- a/src/megatron/energon/wrappers/epochize_dataset.py
+++ b/src/megatron/energon/wrappers/epochize_dataset.py
@@ -124,6 +124,8 @@ class EpochizeDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sa
 
     def restore_state(self, state: Optional[EpochizeMergedState]) -> None:
         super().restore_state(state)
+        # The active iterator belongs to the previous state
+        self._active_iter = None
         if state is None:
             self._offset = [0] * max(self.worker_config.num_workers, 1)
         else:
-- 
2.43.0


From 1b078633604180d0bbfe56abae353db8658bb7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 06/40] fix: a finite repeat must resume in the same repetition
 and restart each epoch

The repetition was counted as done when it started, so a state saved within it
lost one repetition, and iterating the dataset again yielded nothing.
---
 src/megatron/energon/wrappers/repeat_dataset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/repeat_dataset.py b/src/megatron/energon/wrappers/repeat_dataset.py
index e0eb685..2009c4d 100644
--- a/src/megatron/energon/wrappers/repeat_dataset.py
+++ b/src/megatron/energon/wrappers/repeat_dataset.py
@@ -59,9 +59,9 @@ class RepeatDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_samp
         if self.repeats is None:
             assert self.dataset.worker_has_samples(), "Cannot repeat empty dataset infinitely"
             while True:
-                self._offset[worker_idx] += 1
                 for sample in self.dataset:
                     yield sample
+                self._offset[worker_idx] += 1
                 if self.worker_config.should_log(level=2):
                     self.worker_config.worker_log(
                         {
@@ -73,9 +73,10 @@ class RepeatDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_samp
                     )
         else:
             for offset in range(self._offset[worker_idx], self.repeats):
-                self._offset[worker_idx] = offset + 1
+                # The current repetition is only done when the inner dataset is exhausted
                 for sample in self.dataset:
                     yield sample
+                self._offset[worker_idx] = offset + 1
                 if self.worker_config.should_log(level=2):
                     self.worker_config.worker_log(
                         {
@@ -86,6 +87,7 @@ class RepeatDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_samp
                             "repeats": self.repeats,
                         }
                     )
+            self._offset[worker_idx] = 0
 
     def save_state(self) -> RepeatState:
         return RepeatState.extend(
-- 
2.43.0


From 0afc3e1590b394a5de9d9025637069a75c810ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 07/40] fix: resume a concatenation in the dataset it was saved
 in

The finished datasets were iterated again after restoring the state.
---
 .../energon/wrappers/concat_dataset.py        | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/concat_dataset.py b/src/megatron/energon/wrappers/concat_dataset.py
index 3efce37..382a062 100644
--- a/src/megatron/energon/wrappers/concat_dataset.py
+++ b/src/megatron/energon/wrappers/concat_dataset.py
@@ -18,12 +18,18 @@ T_sample = TypeVar("T_sample")
 
 @dataclass
 class ConcatState(State):
+    #: Index of the dataset currently being iterated
+    dataset_idx: int
+
     #: State of the inner datasets
     dataset_states: List[State]
 
 
 @dataclass
 class ConcatMergedState(MergedState):
+    #: Index of the dataset currently being iterated, per worker
+    dataset_idxs: List[int]
+
     #: State of the inner datasets
     dataset_states: List[MergedState]
 
@@ -36,6 +42,7 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
     """
 
     datasets: Tuple[SavableDataset[T_sample], ...]
+    _dataset_idxs: List[int]
 
     def __init__(
         self,
@@ -45,25 +52,30 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
         """Construct a concatenated dataset."""
         super().__init__(datasets, worker_config=worker_config)
         self.datasets = datasets
+        self._dataset_idxs = [0] * max(self.worker_config.num_workers, 1)
         assert len(self) >= 0, "Datasets must be finite."
 
     def __len__(self):
         return sum(len(dataset) for dataset in self.datasets)
 
     def __iter__(self) -> Iterator[T_sample]:
-        for ds_idx, dataset in enumerate(self.datasets):
-            for sample in dataset:
+        worker_idx = self.worker_config.rank_worker_id()
+        for ds_idx in range(self._dataset_idxs[worker_idx], len(self.datasets)):
+            self._dataset_idxs[worker_idx] = ds_idx
+            for sample in self.datasets[ds_idx]:
                 yield add_sample_restore_key(
                     sample,
                     ds_idx,
                     src=self,
                 )
+        self._dataset_idxs[worker_idx] = 0
 
     def worker_has_samples(self) -> bool:
         return any(dataset.worker_has_samples() for dataset in self.datasets)
 
     def save_state(self) -> ConcatState:
         return ConcatState(
+            dataset_idx=self._dataset_idxs[self.worker_config.rank_worker_id()],
             dataset_states=[dataset.save_state() for dataset in self.datasets],
         )
 
@@ -71,6 +83,7 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
         assert all(s is None or isinstance(s, ConcatState) for s in states)
         assert all(s is None or len(s.dataset_states) == len(self.datasets) for s in states)
         return ConcatMergedState(
+            dataset_idxs=[0 if s is None else s.dataset_idx for s in states],
             dataset_states=[
                 dataset.merge_states(
                     [None if s is None else s.dataset_states[ds_idx] for s in states]
@@ -81,11 +94,13 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
 
     def restore_state(self, state: Optional[ConcatMergedState]) -> None:
         if state is None:
+            self._dataset_idxs = [0] * max(self.worker_config.num_workers, 1)
             for dataset in self.datasets:
                 dataset.restore_state(None)
         else:
             assert isinstance(state, ConcatMergedState)
             assert len(self.datasets) == len(state.dataset_states)
+            self._dataset_idxs = list(state.dataset_idxs)
             for dataset, dstate in zip(self.datasets, state.dataset_states):
                 dataset.restore_state(dstate)
 
-- 
2.43.0


From 479088fe37474fa33d88d213cf6d68c36c197fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 08/40] fix: resume a partly consumed map generator with its
 own sample index

The resumed generator ran with the index of the next sample, errors raised by
it were not handled, and a failed generator was kept in the saved state.
---
 src/megatron/energon/wrappers/map_dataset.py | 53 +++++++++++---------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/src/megatron/energon/wrappers/map_dataset.py b/src/megatron/energon/wrappers/map_dataset.py
index 474e156..76880b9 100644
--- a/src/megatron/energon/wrappers/map_dataset.py
+++ b/src/megatron/energon/wrappers/map_dataset.py
@@ -111,27 +111,33 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
         if self._generator_sample_keys[worker_id] is not None:
             assert self._generator_offsets[worker_id] is not None
             sample = self.dataset.restore_sample(self._generator_sample_keys[worker_id])
-            # Do not increment the sample index, use previous index
-            with self._sample_index.ctx(self._sample_index.current_idx) as sample_idx:
-                mapped_sample = self.map_fn(sample)
-            assert isinstance(mapped_sample, Generator)
-            assert inspect.isgeneratorfunction(
-                self.map_fn
-            ), f"Generator in {self.map_fn} but not marked as such."
-            target_offset = self._generator_offsets[worker_id]
-            self._generator_offsets[worker_id] = 0
-            for idx, (sample_idx, inner_sample) in enumerate(
-                self._sample_index.iter_ctx(mapped_sample, sample_idx)
-            ):
-                # Skip other samples
-                if idx >= target_offset:
-                    self._generator_offsets[worker_id] = idx + 1
-                    yield add_sample_restore_key(
-                        inner_sample,
-                        sample_idx,
-                        idx,
-                        src=self,
-                    )
+            try:
+                # Do not increment the sample index, use previous index
+                with self._sample_index.ctx(self._sample_index.current_idx - 1) as sample_idx:
+                    mapped_sample = self.map_fn(sample)
+                assert isinstance(mapped_sample, Generator)
+                assert inspect.isgeneratorfunction(
+                    self.map_fn
+                ), f"Generator in {self.map_fn} but not marked as such."
+                target_offset = self._generator_offsets[worker_id]
+                for idx, (sample_idx, inner_sample) in enumerate(
+                    self._sample_index.iter_ctx(mapped_sample, sample_idx)
+                ):
+                    # Skip other samples
+                    if idx >= target_offset:
+                        self._generator_offsets[worker_id] = idx + 1
+                        yield add_sample_restore_key(
+                            inner_sample,
+                            sample_idx,
+                            idx,
+                            src=self,
+                        )
+            except SkipSample:
+                pass
+            except SYSTEM_EXCEPTIONS:
+                raise FatalSampleError.from_sample(sample)
+            except Exception as e:
+                self.error_handler(e, sample)
             self._generator_sample_keys[worker_id] = None
             self._generator_offsets[worker_id] = None
 
@@ -157,8 +163,6 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
                             idx,
                             src=self,
                         )
-                    self._generator_sample_keys[worker_id] = None
-                    self._generator_offsets[worker_id] = None
                 else:
                     yield add_sample_restore_key(
                         mapped_sample,
@@ -171,6 +175,9 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
                 raise FatalSampleError.from_sample(sample)
             except Exception as e:
                 self.error_handler(e, sample)
+            # The generator is finished, also if it raised
+            self._generator_sample_keys[worker_id] = None
+            self._generator_offsets[worker_id] = None
 
     def save_state(self) -> MapState:
         state = MapState.extend(
-- 
2.43.0


From 1ffe4a9bc2e03884dff7585787f589063628c665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 09/40] fix: forget the samples of a skipped or failed batch,
 resume batch generators correctly

The restore keys of a skipped batch stayed in the restore key of all following
batches, the generator keys in a saved state were cleared afterwards, and a
resumed generator ran with the index of the next batch.
---
 .../energon/wrappers/batch_dataset.py         | 60 +++++++++++--------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index 4d51c62..4ee716c 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -135,30 +135,37 @@ class BatchDataset(
             sample_restore_keys = self._generator_sample_keys[worker_id]
             assert self._generator_offsets[worker_id] is not None
             batch = [self.dataset.restore_sample(inner_idx) for inner_idx in sample_restore_keys]
-            with self._sample_index.ctx(self._sample_index.current_idx) as sample_idx:
-                batch_sample = self.batcher(batch)
-            assert isinstance(batch_sample, Generator)
-            assert inspect.isgeneratorfunction(
-                self.batcher
-            ), f"Generator in {self.batcher} but not marked as such."
-            target_offset = self._generator_offsets[worker_id]
-            self._generator_offsets[worker_id] = 0
-            for batch_sub_idx, (sample_idx, inner_batch_sample) in enumerate(
-                self._sample_index.iter_ctx(batch_sample, sample_idx)
-            ):
-                # Skip other samples
-                if batch_sub_idx >= target_offset:
-                    self._generator_offsets[worker_id] = batch_sub_idx + 1
-                    yield set_sample_restore_key(
-                        inner_batch_sample,
-                        sample_idx,
-                        batch_sub_idx,
-                        *sample_restore_keys,
-                        src=self,
-                    )
+            try:
+                # Do not increment the sample index, use previous index
+                with self._sample_index.ctx(self._sample_index.current_idx - 1) as sample_idx:
+                    batch_sample = self.batcher(batch)
+                assert isinstance(batch_sample, Generator)
+                assert inspect.isgeneratorfunction(
+                    self.batcher
+                ), f"Generator in {self.batcher} but not marked as such."
+                target_offset = self._generator_offsets[worker_id]
+                for batch_sub_idx, (sample_idx, inner_batch_sample) in enumerate(
+                    self._sample_index.iter_ctx(batch_sample, sample_idx)
+                ):
+                    # Skip other samples
+                    if batch_sub_idx >= target_offset:
+                        self._generator_offsets[worker_id] = batch_sub_idx + 1
+                        yield set_sample_restore_key(
+                            inner_batch_sample,
+                            sample_idx,
+                            batch_sub_idx,
+                            *sample_restore_keys,
+                            src=self,
+                        )
+            except SkipSample:
+                pass
+            except SYSTEM_EXCEPTIONS:
+                raise FatalSampleError.from_sample(batch)
+            except Exception as e:
+                self.error_handler(e, batch)
             self._generator_sample_keys[worker_id] = None
             self._generator_offsets[worker_id] = None
-            batch.clear()
+            batch = []
             sample_restore_keys = []
 
         def flush():
@@ -169,7 +176,7 @@ class BatchDataset(
                     assert inspect.isgeneratorfunction(
                         self.batcher
                     ), f"Generator in {self.batcher} but not marked as such."
-                    self._generator_sample_keys[worker_id] = sample_restore_keys
+                    self._generator_sample_keys[worker_id] = list(sample_restore_keys)
                     self._generator_offsets[worker_id] = 0
                     for batch_sub_idx, (sample_idx, inner_batch_sample) in enumerate(
                         self._sample_index.iter_ctx(batch_sample, sample_idx)
@@ -182,18 +189,19 @@ class BatchDataset(
                             *sample_restore_keys,
                             src=self,
                         )
-                    self._generator_sample_keys[worker_id] = None
-                    self._generator_offsets[worker_id] = None
                 else:
                     set_sample_restore_key(batch_sample, sample_idx, *sample_restore_keys, src=self)
                     yield batch_sample
-                sample_restore_keys.clear()
             except SkipSample:
                 pass
             except SYSTEM_EXCEPTIONS:
                 raise FatalSampleError.from_sample(batch)
             except Exception as e:
                 self.error_handler(e, batch)
+            # The batch is finished, also if it was skipped or raised
+            self._generator_sample_keys[worker_id] = None
+            self._generator_offsets[worker_id] = None
+            sample_restore_keys.clear()
 
         for sample in self.dataset:
             batch.append(sample)
-- 
2.43.0


From eb8315a64221fe6568b7b72716169377585ec03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:42 +0000
Subject: [PATCH 10/40] fix: restore the buckets of a grouped batching

The buffered samples were restored for all workers but the one they belong to,
and a state saved while flushing the last buckets continued to fill them with
samples of the next epoch.
---
 .../energon/wrappers/group_batch_dataset.py   | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/megatron/energon/wrappers/group_batch_dataset.py b/src/megatron/energon/wrappers/group_batch_dataset.py
index 070e936..d438f1e 100644
--- a/src/megatron/energon/wrappers/group_batch_dataset.py
+++ b/src/megatron/energon/wrappers/group_batch_dataset.py
@@ -63,6 +63,8 @@ class GroupBatchState(BaseSingleWrapperState):
     bucket_sample_index: int
     batch_sample_index: int
     buckets: List[BucketState]
+    #: True, if the inner dataset was exhausted and the remaining samples are being flushed
+    draining: bool
 
 
 @dataclass
@@ -70,6 +72,7 @@ class GroupBatchMergedState(BaseSingleWrapperMergedState):
     bucket_sample_index: List[int]
     batch_sample_index: List[int]
     buckets: List[List[BucketMergedState]]
+    draining: List[bool]
 
 
 @dataclass
@@ -97,6 +100,7 @@ class GroupBatchDataset(
     _group_key_sample_index: SampleIndex
     _batch_sample_index: SampleIndex
     _buckets: List[Dict[Hashable, Bucket[T_batch_sample]]]
+    _draining: List[bool]
 
     def __init__(
         self,
@@ -134,6 +138,7 @@ class GroupBatchDataset(
         self._group_key_sample_index = SampleIndex(worker_config, src=self)
         self._batch_sample_index = SampleIndex(worker_config, src=self)
         self._buckets = [{} for _ in range(max(self.worker_config.num_workers, 1))]
+        self._draining = [False] * max(self.worker_config.num_workers, 1)
         assert not inspect.isgeneratorfunction(
             batcher
         ), f"Batcher {batcher} must not be a generator function for grouped batching."
@@ -174,8 +179,8 @@ class GroupBatchDataset(
             except Exception as e:
                 self.error_handler(e, batch_items)
 
-        # Add samples to the buckets
-        for sample in self.dataset:
+        # Add samples to the buckets (unless the inner dataset was already exhausted on saving)
+        for sample in () if self._draining[worker_idx] else self.dataset:
             try:
                 with self._group_key_sample_index.ctx():
                     bucket_key, batch_size = self.sample_group_key(sample)
@@ -206,11 +211,13 @@ class GroupBatchDataset(
             if len(bucket.samples) >= bucket.batch_size:
                 yield from flush(bucket)
         # Flush out last samples
+        self._draining[worker_idx] = True
         if not self.drop_last:
             for bucket in buckets.values():
                 if len(bucket.samples) > 0:
                     yield from flush(bucket)
         # Clear the buckets
+        self._draining[worker_idx] = False
         self._buckets[worker_idx].clear()
 
     def save_state(self) -> GroupBatchState:
@@ -231,6 +238,7 @@ class GroupBatchDataset(
                 if self._buckets[rank] is not None
                 else []
             ),
+            draining=self._draining[rank],
         )
 
     def merge_states(self, states: List[Optional[GroupBatchState]]) -> GroupBatchMergedState:
@@ -244,16 +252,21 @@ class GroupBatchDataset(
                 [0 if s is None else s.batch_sample_index for s in states]
             ),
             buckets=[(state.buckets if state else []) for state in states],
+            draining=[(state.draining if state else False) for state in states],
         )
 
     def restore_state(self, state: Optional[GroupBatchMergedState]) -> None:
         super().restore_state(state)
         if state is None:
+            self._group_key_sample_index.restore_state(None)
+            self._batch_sample_index.restore_state(None)
+            self._draining = [False] * max(self.worker_config.num_workers, 1)
             self._buckets = [{} for _ in range(max(self.worker_config.num_workers, 1))]
         else:
             assert isinstance(state, GroupBatchMergedState)
             self._group_key_sample_index.restore_state(state.bucket_sample_index)
             self._batch_sample_index.restore_state(state.batch_sample_index)
+            self._draining = list(state.draining)
             for worker_idx, (buckets_state, buckets) in enumerate(
                 zip(state.buckets, self._buckets)
             ):
@@ -273,7 +286,7 @@ class GroupBatchDataset(
                                 buffer=[
                                     (
                                         []
-                                        if gen_worker_idx == worker_idx
+                                        if gen_worker_idx != worker_idx
                                         else bucket_state.samples.buffer
                                     )
                                     for gen_worker_idx in range(
-- 
2.43.0


From 0ce1432bba652b57324aca66ef36b4ca3361d1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:42 +0000
Subject: [PATCH 11/40] fix: resume packing in the middle of a pack generator
 and of the final flush

A state saved between two samples of a final_packer generator lost the rest of
the pack, one saved while yielding the last packs continued to fill the buffer,
and a worker without a state got the invalid pack lengths [0, 0].
---
 .../energon/wrappers/packing_dataset.py       | 68 +++++++++++++++++--
 1 file changed, 64 insertions(+), 4 deletions(-)

diff --git a/src/megatron/energon/wrappers/packing_dataset.py b/src/megatron/energon/wrappers/packing_dataset.py
index 666fbee..a4601fb 100644
--- a/src/megatron/energon/wrappers/packing_dataset.py
+++ b/src/megatron/energon/wrappers/packing_dataset.py
@@ -46,6 +46,11 @@ class PackingState(BaseSingleWrapperState):
     pre_packing_lengths: List[int]
     pre_packing_index: int
     final_packing_index: int
+    #: True, if the inner dataset was exhausted and the remaining packs are being yielded
+    draining: bool
+    #: The samples and progress of a final packer generator which is not finished, if any
+    generator_sample_keys: Optional[List[Any]]
+    generator_offset: int
 
 
 @dataclass
@@ -55,6 +60,9 @@ class PackingMergedState(BaseSingleWrapperMergedState):
     pre_packing_lengths: List[List[int]]
     pre_packing_index: List[int]
     final_packing_index: List[int]
+    draining: List[bool]
+    generator_sample_keys: List[Optional[List[Any]]]
+    generator_offset: List[int]
 
 
 class PackingDataset(
@@ -89,6 +97,15 @@ class PackingDataset(
     #: Sample index for the final_packer
     _final_packing_sample_index: SampleIndex
 
+    #: True, if the inner dataset was exhausted and the remaining packs are being yielded
+    _draining: List[bool]
+
+    #: Restore keys of the samples in the unfinished generator of the final_packer
+    _generator_sample_keys: List[Optional[List[Any]]]
+
+    #: Number of samples yielded by the unfinished generator of the final_packer
+    _generator_offsets: List[int]
+
     def __init__(
         self,
         dataset: SavableDataset[T_sample],
@@ -136,6 +153,9 @@ class PackingDataset(
         self._pre_packing_lengths = [[] for _ in range(max(worker_config.num_workers, 1))]
         self._pre_packing_sample_index = SampleIndex(worker_config, src=self)
         self._final_packing_sample_index = SampleIndex(worker_config, src=self)
+        self._draining = [False] * max(worker_config.num_workers, 1)
+        self._generator_sample_keys = [None] * max(worker_config.num_workers, 1)
+        self._generator_offsets = [0] * max(worker_config.num_workers, 1)
 
     def __len__(self):
         """The real length is unknown, since it depends on the packing function.
@@ -208,17 +228,31 @@ class PackingDataset(
             pack = list(self._pre_packing_buffer[: pre_packing_lengths[0]])
             del self._pre_packing_buffer[: pre_packing_lengths[0]]
             del pre_packing_lengths[0]
+            pack_restore_keys = tuple(get_sample_restore_key(sample) for sample in pack)
+            yield from final_pack(pack, pack_restore_keys)
+
+        def final_pack(
+            pack: List[T_sample],
+            pack_restore_keys: Tuple[Any, ...],
+            pack_idx: Optional[int] = None,
+            skip: int = 0,
+        ) -> Generator[T_batch_sample, None, None]:
+            """Yield the results of the final packer for one pack, without the first `skip`."""
+
             try:
-                pack_restore_keys = tuple(get_sample_restore_key(sample) for sample in pack)
-                with self._final_packing_sample_index.ctx() as pack_idx:
+                with self._final_packing_sample_index.ctx(pack_idx) as pack_idx:
                     final_packed_sample = self.final_packer(pack)
                 if isinstance(final_packed_sample, Generator):
                     assert inspect.isgeneratorfunction(
                         self.final_packer
                     ), f"Generator in {self.final_packer} but not marked as such."
+                    self._generator_sample_keys[worker_idx] = list(pack_restore_keys)
                     for pack_sub_idx, (pack_idx, inner_batch_sample) in enumerate(
                         self._final_packing_sample_index.iter_ctx(final_packed_sample, pack_idx)
                     ):
+                        if pack_sub_idx < skip:
+                            continue
+                        self._generator_offsets[worker_idx] = pack_sub_idx + 1
                         yield set_sample_restore_key(
                             inner_batch_sample,
                             pack_idx,
@@ -239,9 +273,21 @@ class PackingDataset(
                 raise FatalSampleError.from_sample(pack)
             except Exception as e:
                 self.error_handler(e, pack)
+            self._generator_sample_keys[worker_idx] = None
+            self._generator_offsets[worker_idx] = 0
+
+        if self._generator_sample_keys[worker_idx] is not None:
+            # Continue the final packer generator which was active when saving
+            pack_restore_keys = tuple(self._generator_sample_keys[worker_idx])
+            yield from final_pack(
+                [self.dataset.restore_sample(key) for key in pack_restore_keys],
+                pack_restore_keys,
+                self._final_packing_sample_index.current_idx - 1,
+                self._generator_offsets[worker_idx],
+            )
 
         # Main loop:
-        stopping = False
+        stopping = self._draining[worker_idx]
         while not stopping:
 
             pre_pack_round = 0
@@ -270,8 +316,10 @@ class PackingDataset(
                 break
 
         # Yield the remaining packs, flushing the collecting buffer
+        self._draining[worker_idx] = True
         while len(pre_packing_lengths) > 0:
             yield from next_final_pack()
+        self._draining[worker_idx] = False
 
     def save_state(self) -> PackingState:
         return PackingState.extend(
@@ -283,6 +331,9 @@ class PackingDataset(
             ),
             final_packing_index=self._final_packing_sample_index.save_state(),
             pre_packing_index=self._pre_packing_sample_index.save_state(),
+            draining=self._draining[self.worker_config.rank_worker_id()],
+            generator_sample_keys=self._generator_sample_keys[self.worker_config.rank_worker_id()],
+            generator_offset=self._generator_offsets[self.worker_config.rank_worker_id()],
         )
 
     def merge_states(self, states: List[PackingState]) -> PackingMergedState:
@@ -295,13 +346,16 @@ class PackingDataset(
             pre_packing_buffer=self._pre_packing_buffer.merge_states(
                 [None if s is None else s.pre_packing_buffer for s in states]
             ),
-            pre_packing_lengths=[[0, 0] if s is None else s.pre_packing_lengths for s in states],
+            pre_packing_lengths=[[] if s is None else s.pre_packing_lengths for s in states],
             final_packing_index=self._final_packing_sample_index.merge_states(
                 [0 if state is None else state.final_packing_index for state in states]
             ),
             pre_packing_index=self._pre_packing_sample_index.merge_states(
                 [0 if state is None else state.pre_packing_index for state in states]
             ),
+            draining=[False if s is None else s.draining for s in states],
+            generator_sample_keys=[None if s is None else s.generator_sample_keys for s in states],
+            generator_offset=[0 if s is None else s.generator_offset for s in states],
         )
 
     def restore_state(self, state: Optional[PackingMergedState]) -> None:
@@ -312,6 +366,9 @@ class PackingDataset(
             self._pre_packing_lengths = [[] for _ in range(max(self.worker_config.num_workers, 1))]
             self._pre_packing_sample_index.restore_state(None)
             self._final_packing_sample_index.restore_state(None)
+            self._draining = [False] * max(self.worker_config.num_workers, 1)
+            self._generator_sample_keys = [None] * max(self.worker_config.num_workers, 1)
+            self._generator_offsets = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, PackingMergedState)
             self._reading_buffer.restore_state(state.reading_buffer)
@@ -321,6 +378,9 @@ class PackingDataset(
             ]
             self._pre_packing_sample_index.restore_state(state.pre_packing_index)
             self._final_packing_sample_index.restore_state(state.final_packing_index)
+            self._draining = list(state.draining)
+            self._generator_sample_keys = list(state.generator_sample_keys)
+            self._generator_offsets = list(state.generator_offset)
 
     def can_restore_sample(self) -> bool:
         # Cannot really verify if the returned elements contain a __restore_key__.
-- 
2.43.0


From 2d491a8497496b24ce3ad270e3b258bc2cf58e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 12/40] fix: combine an infinite shuffle_over_epochs (-1) with
 a multiplier

-1 times a multiplier gave an invalid negative number of epochs.
---
 src/megatron/energon/metadataset/loader_interface.py |  7 +++++++
 src/megatron/energon/metadataset/metadataset.py      | 10 +++++++---
 src/megatron/energon/metadataset/metadataset_v2.py   | 10 +++++++---
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/metadataset/loader_interface.py b/src/megatron/energon/metadataset/loader_interface.py
index 79984a7..c5ab7a9 100644
--- a/src/megatron/energon/metadataset/loader_interface.py
+++ b/src/megatron/energon/metadataset/loader_interface.py
@@ -8,6 +8,13 @@ from megatron.energon.flavors.base_dataset import BaseCoreDatasetFactory
 from megatron.energon.worker import WorkerConfig
 
 
+def combine_shuffle_over_epochs(outer: int, inner: int) -> int:
+    """Combines two shuffle over epochs multipliers. -1 (infinite) stays infinite."""
+    if outer == -1 or inner == -1:
+        return -1
+    return outer * inner
+
+
 class DatasetLoaderInterface(ABC):
     """General interface for a dataset loader."""
 
diff --git a/src/megatron/energon/metadataset/metadataset.py b/src/megatron/energon/metadataset/metadataset.py
index 2bc82d4..5d3f8ce 100644
--- a/src/megatron/energon/metadataset/metadataset.py
+++ b/src/megatron/energon/metadataset/metadataset.py
@@ -9,7 +9,10 @@ from megatron.energon.epathlib import EPath
 from megatron.energon.flavors.base_dataset import BaseCoreDatasetFactory
 from megatron.energon.flavors.webdataset import MAIN_FOLDER_NAME
 from megatron.energon.metadataset.dataset_loader import DatasetLoader
-from megatron.energon.metadataset.loader_interface import DatasetLoaderInterface
+from megatron.energon.metadataset.loader_interface import (
+    DatasetLoaderInterface,
+    combine_shuffle_over_epochs,
+)
 from megatron.energon.worker import WorkerConfig
 
 
@@ -71,8 +74,9 @@ class DatasetReference:
             worker_config=worker_config,
             subflavor=subflavor or self.subflavor,
             subflavors=subflavors,
-            shuffle_over_epochs_multiplier=shuffle_over_epochs_multiplier
-            * self.shuffle_over_epochs_multiplier,
+            shuffle_over_epochs_multiplier=combine_shuffle_over_epochs(
+                shuffle_over_epochs_multiplier, self.shuffle_over_epochs_multiplier
+            ),
             **kwargs,
         )
 
diff --git a/src/megatron/energon/metadataset/metadataset_v2.py b/src/megatron/energon/metadataset/metadataset_v2.py
index c89800f..0da149a 100644
--- a/src/megatron/energon/metadataset/metadataset_v2.py
+++ b/src/megatron/energon/metadataset/metadataset_v2.py
@@ -10,7 +10,10 @@ from megatron.energon.flavors import BaseCoreDatasetFactory, Sample
 from megatron.energon.flavors.webdataset import MAIN_FOLDER_NAME
 from megatron.energon.metadataset.dataset_loader import DatasetLoader
 from megatron.energon.metadataset.join_dataset_loader import JoinDatasetLoader
-from megatron.energon.metadataset.loader_interface import DatasetLoaderInterface
+from megatron.energon.metadataset.loader_interface import (
+    DatasetLoaderInterface,
+    combine_shuffle_over_epochs,
+)
 from megatron.energon.worker import WorkerConfig
 
 
@@ -71,8 +74,9 @@ class DatasetReference(DatasetLoaderInterface):
             worker_config=worker_config,
             subflavor=subflavor or self.subflavor,
             subflavors=subflavors,
-            shuffle_over_epochs_multiplier=shuffle_over_epochs_multiplier
-            * self.shuffle_over_epochs_multiplier,
+            shuffle_over_epochs_multiplier=combine_shuffle_over_epochs(
+                shuffle_over_epochs_multiplier, self.shuffle_over_epochs_multiplier
+            ),
             **kwargs,
         )
 
-- 
2.43.0


From e244169521131a6f962b0491ef464c441cdc89ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 13/40] fix: apply the shuffle_over_epochs_multiplier of a
 joined dataset

---
 src/megatron/energon/metadataset/join_dataset_loader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/metadataset/join_dataset_loader.py b/src/megatron/energon/metadataset/join_dataset_loader.py
index 1d8cd23..979e441 100644
--- a/src/megatron/energon/metadataset/join_dataset_loader.py
+++ b/src/megatron/energon/metadataset/join_dataset_loader.py
@@ -11,7 +11,10 @@ from megatron.energon.flavors import (
     Sample,
 )
 from megatron.energon.metadataset.dataset_loader import DatasetLoader
-from megatron.energon.metadataset.loader_interface import DatasetLoaderInterface
+from megatron.energon.metadataset.loader_interface import (
+    DatasetLoaderInterface,
+    combine_shuffle_over_epochs,
+)
 from megatron.energon.worker import WorkerConfig
 
 
@@ -130,7 +133,9 @@ class JoinDatasetLoader(DatasetLoaderInterface):
                     worker_config=worker_config,
                     subflavor=subflavor,
                     subflavors=subflavors,
-                    shuffle_over_epochs=shuffle_over_epochs_multiplier,
+                    shuffle_over_epochs=combine_shuffle_over_epochs(
+                        shuffle_over_epochs_multiplier, self.shuffle_over_epochs_multiplier
+                    ),
                     **kwargs,
                 ),
                 1.0,
-- 
2.43.0


From 25cdebd51b7f7830f95e9a0812718747767317fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:31 +0000
Subject: [PATCH 14/40] fix: end the epoch after restoring a state saved at its
 last batch

Batching and shuffle buffer still yield samples after their inner dataset is
exhausted. A state saved then continued with the next epoch of the inner
dataset within the current one.
---
 src/megatron/energon/wrappers/batch_dataset.py    | 14 +++++++++++++-
 .../energon/wrappers/shuffle_buffer_dataset.py    | 15 ++++++++++++++-
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index 4ee716c..4fccdd5 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -37,11 +37,14 @@ T_batch_sample = TypeVar("T_batch_sample", covariant=True)
 @dataclass
 class BatchState(BaseSingleWrapperState):
     sample_index: int
+    #: True, if the inner dataset was exhausted and the last batch is being yielded
+    draining: bool
 
 
 @dataclass
 class BatchMergedState(BaseSingleWrapperMergedState):
     sample_indexes: List[int]
+    draining: List[bool]
 
 
 @dataclass
@@ -68,6 +71,7 @@ class BatchDataset(
     _sample_index: SampleIndex
     _generator_sample_keys: List[Optional[Any]]
     _generator_offsets: List[Optional[int]]
+    _draining: List[bool]
 
     def __init__(
         self,
@@ -105,6 +109,7 @@ class BatchDataset(
         self.drop_last = drop_last
         self.error_handler = error_handler
         self._sample_index = SampleIndex(worker_config, src=self)
+        self._draining = [False] * max(self.worker_config.num_workers, 1)
         self._generator_sample_keys = [None] * max(self.worker_config.num_workers, 1)
         self._generator_offsets = [None] * max(self.worker_config.num_workers, 1)
 
@@ -203,19 +208,23 @@ class BatchDataset(
             self._generator_offsets[worker_id] = None
             sample_restore_keys.clear()
 
-        for sample in self.dataset:
+        # Do not start the next epoch, if the inner dataset was already exhausted on saving
+        for sample in () if self._draining[worker_id] else self.dataset:
             batch.append(sample)
             sample_restore_keys.append(get_sample_restore_key(sample))
             if len(batch) == self.batch_size:
                 yield from flush()
                 batch = []
         if len(batch) > 0 and not self.drop_last:
+            self._draining[worker_id] = True
             yield from flush()
+        self._draining[worker_id] = False
 
     def save_state(self) -> BatchState:
         state = BatchState.extend(
             super().save_state(),
             sample_index=self._sample_index.save_state(),
+            draining=self._draining[self.worker_config.rank_worker_id()],
         )
         if self._generator_offsets[self.worker_config.rank_worker_id()] is not None:
             state = BatchGeneratorState.extend(
@@ -234,6 +243,7 @@ class BatchDataset(
             sample_indexes=self._sample_index.merge_states(
                 [0 if state is None else state.sample_index for state in states]
             ),
+            draining=[False if state is None else state.draining for state in states],
         )
         if any(isinstance(s, BatchGeneratorState) for s in states):
             state = BatchGeneratorMergedState.extend(
@@ -253,11 +263,13 @@ class BatchDataset(
         super().restore_state(state)
         if state is None:
             self._sample_index.restore_state(None)
+            self._draining = [False] * max(self.worker_config.num_workers, 1)
             self._generator_sample_keys = [None] * max(self.worker_config.num_workers, 1)
             self._generator_offsets = [None] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, BatchMergedState)
             self._sample_index.restore_state(state.sample_indexes)
+            self._draining = list(state.draining)
             if isinstance(state, BatchGeneratorMergedState):
                 self._generator_sample_keys = list(state.generator_sample_keys)
                 self._generator_offsets = list(state.generator_offsets)
diff --git a/src/megatron/energon/wrappers/shuffle_buffer_dataset.py b/src/megatron/energon/wrappers/shuffle_buffer_dataset.py
index c18594f..6bd47a1 100644
--- a/src/megatron/energon/wrappers/shuffle_buffer_dataset.py
+++ b/src/megatron/energon/wrappers/shuffle_buffer_dataset.py
@@ -24,12 +24,15 @@ T_sample = TypeVar("T_sample")
 @dataclass
 class ShuffleBufferState(BaseSingleWrapperState):
     buffer: SampleBufferState
+    #: True, if the inner dataset was exhausted and the remaining samples are being yielded
+    draining: bool
     rng: WorkerRngState
 
 
 @dataclass
 class ShuffleBufferMergedState(BaseSingleWrapperMergedState):
     buffer: SampleBufferMergedState
+    draining: List[bool]
     rng: WorkerRngMergedState
 
 
@@ -40,6 +43,7 @@ class ShuffleBufferDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic
     _worker_rng: WorkerRng
 
     _active_buffer: SavableSampleBuffer[T_sample]
+    _draining: List[bool]
 
     def __init__(
         self,
@@ -53,14 +57,17 @@ class ShuffleBufferDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic
         self.size = size
         self._worker_rng = WorkerRng(self.worker_config)
         self._active_buffer = SavableSampleBuffer(dataset, worker_config=worker_config)
+        self._draining = [False] * max(self.worker_config.num_workers, 1)
 
     def __len__(self) -> int:
         return len(self.dataset)
 
     def __iter__(self) -> Iterator[T_sample]:
+        worker_id = self.worker_config.rank_worker_id()
         self._active_buffer.worker_start()
         it = iter(self._active_buffer.append_iter())
-        while True:
+        # Do not start the next epoch, if the inner dataset was already exhausted on saving
+        while not self._draining[worker_id]:
             if len(self._active_buffer) >= self.size:
                 pop_idx = self._worker_rng.randbelow(len(self._active_buffer))
                 yield self._active_buffer.pop(pop_idx)
@@ -69,15 +76,18 @@ class ShuffleBufferDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic
                     next(it)
                 except StopIteration:
                     break
+        self._draining[worker_id] = True
         while len(self._active_buffer) > 0:
             pop_idx = self._worker_rng.randbelow(len(self._active_buffer))
             yield self._active_buffer.pop(pop_idx)
+        self._draining[worker_id] = False
 
     def save_state(self) -> ShuffleBufferState:
         return ShuffleBufferState.extend(
             super().save_state(),
             rng=self._worker_rng.save_state(),
             buffer=self._active_buffer.save_state(),
+            draining=self._draining[self.worker_config.rank_worker_id()],
         )
 
     def merge_states(self, states: List[Optional[ShuffleBufferState]]) -> ShuffleBufferMergedState:
@@ -88,16 +98,19 @@ class ShuffleBufferDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic
             buffer=self._active_buffer.merge_states(
                 [None if s is None else s.buffer for s in states]
             ),
+            draining=[False if s is None else s.draining for s in states],
         )
 
     def restore_state(self, state: Optional[ShuffleBufferMergedState]) -> None:
         super().restore_state(state)
         if state is None:
             self._active_buffer.restore_state(None)
+            self._draining = [False] * max(self.worker_config.num_workers, 1)
             self._worker_rng.restore_state(None)
         else:
             assert isinstance(state, ShuffleBufferMergedState)
             self._active_buffer.restore_state(state.buffer)
+            self._draining = list(state.draining)
             self._worker_rng.restore_state(state.rng)
 
     def restore_sample(self, index: Tuple[Union[str, int, tuple], ...]) -> T_sample:
-- 
2.43.0


From 558386fb2cf6ed70c2128688374a5e6527bed066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 15/40] fix: start with the right worker after restoring, also
 in the following epochs

---
 src/megatron/energon/savable_loader.py | 60 +++++++++++++++-----------
 src/megatron/energon/worker.py         | 13 +-----
 2 files changed, 37 insertions(+), 36 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index e7ceb31..31d8ad6 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -274,7 +274,8 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
     _result_queues: List[torch.multiprocessing.Queue]
 
     _sample_index: int = 0
-    _worker_offset: int = 0
+    #: Id of the worker to emit the first sample after restoring a checkpoint
+    _restore_next_worker_id: int = 0
     _last_checkpoints: List[SavableCheckpoint]
     _restore_from: Optional[Any] = None
     _skip_samples: List[int]
@@ -370,8 +371,6 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
             # print(f"{id(self)}:{multiprocessing.current_process().ident} Cmd thread closed")
 
     def __iter__(self):
-        # First: Set the worker offset globally for the current worker
-        WorkerConfig.worker_id_offset = self._worker_offset
         self._worker_id = self.worker_config.rank_worker_id()
         global_worker_id = self.worker_config.global_worker_id()
         if self._cmd_thread is None:
@@ -391,6 +390,11 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
                 if self._restore_from:
                     self._restore_state(self._restore_from)
                     self._restore_from = None
+                if self._worker_id < self._restore_next_worker_id:
+                    # The restored round of workers had already passed this worker. Pytorch always
+                    # starts with worker 0, so yield a marker, which the loader discards.
+                    yield from self._yield_unlocked((self._worker_id, None, None))
+                self._restore_next_worker_id = 0
                 # If skipping, also restart the iterator to reach the start of the restored
                 # checkpoint
                 last_was_skip = True
@@ -419,17 +423,10 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
                             )
                             self._sample_index += 1
                             self._store_checkpoint()
-                            try:
-                                self._command_lock.release()
-                                # print(f"{id(self)}:{multiprocessing.current_process().ident} Lock released")
-                                # Commands may be executed only when data was yielded, not during
-                                # iteration fetching.
-                                # print(f"Yield next data [{self._worker_id}:{sample_index}] {src_data}")
-                                yield self._worker_id, sample_index, src_data
-                            finally:
-                                # print(f"{id(self)}:{multiprocessing.current_process().ident} Lock acquiring")
-                                self._command_lock.acquire()
-                                # print(f"{id(self)}:{multiprocessing.current_process().ident} Lock acquired")
+                            # print(f"Yield next data [{self._worker_id}:{sample_index}] {src_data}")
+                            yield from self._yield_unlocked(
+                                (self._worker_id, sample_index, src_data)
+                            )
                             self.worker_config.worker_activate(self._sample_index)
                             worker_active = True
                     finally:
@@ -444,6 +441,18 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
             # Always store a final checkpoint (it's likely to be saved)
             self._store_checkpoint(force=True)
 
+    def _yield_unlocked(self, data: Tuple[int, Optional[int], Any]) -> Iterator[Any]:
+        """Yields the data with the command lock released. Commands may be executed only when data
+        was yielded, not during iteration fetching."""
+        self._command_lock.release()
+        try:
+            # print(f"{id(self)}:{multiprocessing.current_process().ident} Lock released")
+            yield data
+        finally:
+            # print(f"{id(self)}:{multiprocessing.current_process().ident} Lock acquiring")
+            self._command_lock.acquire()
+            # print(f"{id(self)}:{multiprocessing.current_process().ident} Lock acquired")
+
     def _store_checkpoint(self, force: bool = False) -> None:
         """
         Internally create a checkpoint for the current state. This is required to store states
@@ -567,27 +576,27 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
     def restore_checkpoint(
         self,
         state: Optional[SavableDatasetMergedCheckpoint],
-        worker_offset: int,
+        next_worker_id: int,
     ) -> None:
         """
         Restores the merged checkpoint from all worker processes.
 
         Args:
             state: The state to restore
-            worker_offset: The offset of the last worker which has emitted a sample. This will be
-                set in all worker processes to ensure the right worker starts as first.
+            next_worker_id: The id of the worker which emits the next sample. This will be set in
+                all worker processes to ensure the right worker starts as first.
         """
         assert torch.utils.data.get_worker_info() is None, "Cannot restore in worker process"
         if state is None:
             self._restore_from = None
-            assert worker_offset == 0
-            self._worker_offset = 0
+            assert next_worker_id == 0
+            self._restore_next_worker_id = 0
             self.dataset.restore_state(None)
             self._skip_samples = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, SavableDatasetMergedCheckpoint)
             self._restore_from = state.state
-            self._worker_offset = worker_offset
+            self._restore_next_worker_id = next_worker_id
             self.dataset.restore_state(state.dataset_state)
             self._skip_samples = list(state.offset)
 
@@ -655,8 +664,7 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
       from which worker.
     - Internally, pytorch iterates through the workers in order to retrieve the next worker's
       samples. Unfortunately, that next worker index cannot be restored in pytorch's dataloader,
-      thus the workers are shifted internally by that offset
-      (see :attr:`megatron.energon.WorkerConfig.worker_id_offset`).
+      thus the workers before the next worker first yield a marker, which is discarded.
 
     1. The dataset is wrapped in a :class:`megatron.energon.SavableDatasetWrapper`. This allows the main
        process to communicate with the worker and send commands to the workers and retrieve the
@@ -670,8 +678,7 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
        state of the dataset.
     3. The state can be restored using :meth:`megatron.energon.SavableDatasetWrapper.restore_state`
        before a worker is started, such that all workers initially receive the same state array.
-       The worker firstly sets the worker index offset, then uses its (shifted) own index to get its
-       required state from the merged state array.
+       The worker uses its own index to get its required state from the merged state array.
 
     """
 
@@ -826,6 +833,9 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
             def __next__(self):
                 try:
                     worker_id, sample_idx, sample = next(self._iterator)
+                    while sample_idx is None:
+                        # Marker of a worker before the next worker of the restored state
+                        worker_id, sample_idx, sample = next(self._iterator)
                     outerself._worker_sample_counters[worker_id] = sample_idx
                     # If the next sample will be from the first worker, we can safely resume
                     outerself._next_worker_id = (worker_id + 1) % max(outerself.num_workers, 1)
@@ -945,7 +955,7 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
         else:
             assert isinstance(self.dataset, SavableDatasetWrapper)
             assert isinstance(state.dataset_state, SavableDatasetMergedCheckpoint)
-            self.dataset.restore_checkpoint(state.dataset_state, worker_offset=state.next_worker_id)
+            self.dataset.restore_checkpoint(state.dataset_state, next_worker_id=state.next_worker_id)
         # if len(self.cmd_queues) > 0:
         #     self._worker_command("restore_state", state["dataset"])
 
diff --git a/src/megatron/energon/worker.py b/src/megatron/energon/worker.py
index ba5dc7c..255d3d6 100644
--- a/src/megatron/energon/worker.py
+++ b/src/megatron/energon/worker.py
@@ -39,12 +39,6 @@ class WorkerConfig:
     #: If not using all ranks for data parallel, set this to the corresponding group.
     data_parallel_group: Optional[torch.distributed.ProcessGroup] = None
 
-    #: The id offset of the current worker. e.g. the worker may live as `worker_info.id=0`, but
-    # actually yield samples for id=1 (i.e. worker_id_offset=1). Required to support restoring the
-    # worker state if last emitted sample was not for worker_id=0. Required by SavableDataLoader to
-    # restore the worker state. Is only set to nonzero within a worker process.
-    worker_id_offset: ClassVar[int] = 0
-
     #: The following seed_offset is used used at two points in the code.
     # 1. The seed_offset in the worker_config that is passed to the dataset initialization, is used
     #    to set the seed for the dataset shuffling and shuffled blending (All code that uses WorkerRng).
@@ -158,15 +152,12 @@ class WorkerConfig:
     def rank_worker_id(self) -> int:
         """Returns the self worker id within the current rank."""
         if self._worker_override_global_rank:
-            assert self.worker_id_offset == 0
             return self._worker_override_global_rank % self.num_workers
         worker_info = torch.utils.data.get_worker_info()
         if worker_info is None:
-            return self.worker_id_offset
+            return 0
         assert worker_info.num_workers == self.num_workers
-        return (
-            worker_info.id + worker_info.num_workers - self.worker_id_offset
-        ) % worker_info.num_workers
+        return worker_info.id
 
     def assert_worker(self):
         """Checks if the current process is a worker (if configured so), and that the workers are
-- 
2.43.0


From 83f8807e8209ecdc322ac36a1f7f6f038db8902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 16/40] fix: save the checkpoint of the epoch and sample the
 loader has reached

---
 src/megatron/energon/savable_loader.py | 157 +++++++++++++++----------
 1 file changed, 96 insertions(+), 61 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 31d8ad6..c821ce7 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -224,6 +224,10 @@ class SavableCheckpoint:
     checkpoint_time: float
     #: Index of the next sample to be returned from the dataset after restoring the checkpoint
     sample_index: int
+    #: The epoch (i.e. pass over the dataset since the worker started) of the next sample
+    epoch: int = 0
+    #: True, if the checkpoint was created before the first sample of the epoch
+    epoch_start: bool = False
 
 
 @dataclass
@@ -266,7 +270,7 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
     #: The minimum number of samples to be emitted between two checkpoints. Should be `number of
     # workers * 2`.
     checkpoint_every_min_n_samples: int
-    #: The number of checkpoints to keep in memory, before discarding. Should be 2.
+    #: The minimum number of checkpoints to keep in memory, before discarding. Should be 2.
     n_checkpoints: int
     #: The queue of the worker process to receive commands from the `SavableDataLoader`.
     _cmd_queues: List[torch.multiprocessing.Queue]
@@ -274,6 +278,8 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
     _result_queues: List[torch.multiprocessing.Queue]
 
     _sample_index: int = 0
+    #: Number of finished passes over the dataset
+    _epoch: int = 0
     #: Id of the worker to emit the first sample after restoring a checkpoint
     _restore_next_worker_id: int = 0
     _last_checkpoints: List[SavableCheckpoint]
@@ -305,7 +311,7 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
                 checkpoints.
             checkpoint_every_min_n_samples: The minimum number of samples to be emitted between
                 two checkpoints. Should be `number of workers * 2`.
-            n_checkpoints: Number of checkpoints to keep.
+            n_checkpoints: Minimum number of checkpoints to keep.
             cmd_queues: The command queues for communicating with the worker processes.
             result_queues: The result queues for communicating with the worker processes.
         """
@@ -316,7 +322,11 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
         self.n_checkpoints = n_checkpoints
         self._last_checkpoints = [
             SavableCheckpoint(
-                state=None, dataset_state=None, checkpoint_time=time.perf_counter(), sample_index=0
+                state=None,
+                dataset_state=None,
+                checkpoint_time=time.perf_counter(),
+                sample_index=0,
+                epoch_start=True,
             )
         ]
         self._skip_samples = [0] * max(worker_config.num_workers, 1)
@@ -373,6 +383,10 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
     def __iter__(self):
         self._worker_id = self.worker_config.rank_worker_id()
         global_worker_id = self.worker_config.global_worker_id()
+        if self._restore_from:
+            # Restore before any command may be executed
+            self._restore_state(self._restore_from)
+            self._restore_from = None
         if self._cmd_thread is None:
             self._running = True
             self._command_lock = threading.RLock()
@@ -385,61 +399,44 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
             )
             self._cmd_thread.start()
             # atexit.register(lambda: weakref_self.__del__())
-        try:
-            with self._command_lock:
-                if self._restore_from:
-                    self._restore_state(self._restore_from)
-                    self._restore_from = None
+        with self._command_lock:
+            try:
                 if self._worker_id < self._restore_next_worker_id:
                     # The restored round of workers had already passed this worker. Pytorch always
                     # starts with worker 0, so yield a marker, which the loader discards.
                     yield from self._yield_unlocked((self._worker_id, None, None))
                 self._restore_next_worker_id = 0
-                # If skipping, also restart the iterator to reach the start of the restored
-                # checkpoint
-                last_was_skip = True
-                while last_was_skip:
-                    dataset_has_samples = False
-                    self.worker_config.worker_activate(self._sample_index)
-                    worker_active = True
-                    try:
-                        for src_data in self.dataset:
-                            self.worker_config.worker_deactivate()
-                            worker_active = False
-                            dataset_has_samples = True
-                            if self._skip_samples[self._worker_id] > 0:
-                                # Skip ahead to reach the start of the restored checkpoint
-                                # print(f"Skip [{self._worker_id}:{self._sample_index}] {src_data}")
-                                self._skip_samples[self._worker_id] -= 1
-                                self._sample_index += 1
-                                last_was_skip = True
-                                self.worker_config.worker_activate(self._sample_index)
-                                worker_active = True
-                                continue
-                            last_was_skip = False
-                            sample_index = self._sample_index
-                            add_sample_restore_key(
-                                src_data, global_worker_id, sample_index, src=self
-                            )
+                self.worker_config.worker_activate(self._sample_index)
+                worker_active = True
+                try:
+                    for src_data in self.dataset:
+                        self.worker_config.worker_deactivate()
+                        worker_active = False
+                        if self._skip_samples[self._worker_id] > 0:
+                            # Skip ahead to reach the start of the restored checkpoint. If the
+                            # dataset ends with the skipped samples, so does the current pass.
+                            # print(f"Skip [{self._worker_id}:{self._sample_index}] {src_data}")
+                            self._skip_samples[self._worker_id] -= 1
                             self._sample_index += 1
-                            self._store_checkpoint()
-                            # print(f"Yield next data [{self._worker_id}:{sample_index}] {src_data}")
-                            yield from self._yield_unlocked(
-                                (self._worker_id, sample_index, src_data)
-                            )
                             self.worker_config.worker_activate(self._sample_index)
                             worker_active = True
-                    finally:
-                        if worker_active:
-                            self.worker_config.worker_deactivate()
-
-                    # If the dataset is empty, don't try again and again
-                    if not dataset_has_samples:
-                        break
-        finally:
-            # print(f"{id(self)}:{multiprocessing.current_process().ident} Worker iter closing")
-            # Always store a final checkpoint (it's likely to be saved)
-            self._store_checkpoint(force=True)
+                            continue
+                        sample_index = self._sample_index
+                        add_sample_restore_key(src_data, global_worker_id, sample_index, src=self)
+                        self._sample_index += 1
+                        self._store_checkpoint()
+                        # print(f"Yield next data [{self._worker_id}:{sample_index}] {src_data}")
+                        yield from self._yield_unlocked((self._worker_id, sample_index, src_data))
+                        self.worker_config.worker_activate(self._sample_index)
+                        worker_active = True
+                finally:
+                    if worker_active:
+                        self.worker_config.worker_deactivate()
+            finally:
+                # print(f"{id(self)}:{multiprocessing.current_process().ident} Worker iter closing")
+                # Always store a final checkpoint (it's likely to be saved)
+                self._epoch += 1
+                self._store_checkpoint(force=True)
 
     def _yield_unlocked(self, data: Tuple[int, Optional[int], Any]) -> Iterator[Any]:
         """Yields the data with the command lock released. Commands may be executed only when data
@@ -460,7 +457,8 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
         intermediate queues.
 
         Args:
-            force: If true, ignore time or frequency condition.
+            force: If true, ignore time or frequency condition. Used for the checkpoint at the end
+                of a pass, i.e. before the first sample of the next epoch.
         """
         if (
             force
@@ -479,9 +477,24 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
                     dataset_state=self.dataset.save_state(),
                     checkpoint_time=time.perf_counter(),
                     sample_index=self._sample_index,
+                    epoch=self._epoch,
+                    epoch_start=force,
                 )
             )
-            if len(self._last_checkpoints) > self.n_checkpoints:
+            # The samples which are possibly not yet retrieved by the loader: All samples in the
+            # intermediate queues, which may all come from this worker, if others are exhausted.
+            # At the end of the pass, the loader may still be in the epoch that just ended.
+            epoch = self._epoch - 1 if force else self._epoch
+            sample_index = self._sample_index - 2 * self.worker_config.num_workers
+            while len(self._last_checkpoints) > self.n_checkpoints:
+                # Always keep one checkpoint before those samples
+                next_checkpoint = self._last_checkpoints[1]
+                if next_checkpoint.epoch > epoch or (
+                    next_checkpoint.epoch == epoch
+                    and not next_checkpoint.epoch_start
+                    and next_checkpoint.sample_index >= sample_index
+                ):
+                    break
                 self._last_checkpoints.pop(0)
 
     def _save_state(self) -> SavableDatasetState:
@@ -540,19 +553,25 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
             )
         ]
 
-    def get_checkpoint(self, last_sample_indexes: List[int]) -> SavableDatasetCheckpoint:
+    def get_checkpoint(self, last_sample_indexes: List[int], epoch: int) -> SavableDatasetCheckpoint:
         """
         Get a checkpoint given the last emitted sample indexes for all workers.
 
         Args:
             last_sample_indexes: The last emitted sample indexes for all workers.
+            epoch: The number of passes over the dataset, which the loader finished.
 
         Returns:
             The found checkpoint including the offset to the next sample index
         """
         sample_index = last_sample_indexes[self._worker_id] + 1
         for checkpoint in reversed(self._last_checkpoints):
-            if checkpoint.sample_index <= sample_index:
+            # Prefer a checkpoint before the last emitted sample: If that was the last sample of the
+            # epoch, the end of the epoch is reached after skipping it.
+            if checkpoint.epoch == epoch and (
+                checkpoint.sample_index < sample_index
+                or (checkpoint.epoch_start and checkpoint.sample_index == sample_index)
+            ):
                 # print(f"Found cp for {sample_index} at {checkpoint.sample_index}")
                 return SavableDatasetCheckpoint(
                     dataset_state=checkpoint.dataset_state,
@@ -700,8 +719,12 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
     #: Instance of the current data iterator. There shall be only one active iterator, such that the
     # dataset is not iterated multiple times in parallel. The state will proceed.
     _persistent_iterator: Optional[Iterator[T]] = None
-    #: The index of the current worker
+    #: The index of the last retrieved sample for each worker, -1 if there is none
     _worker_sample_counters: List[int]
+    #: The number of finished passes over the dataset
+    _epoch: int = 0
+    #: The restored state, until the workers are started
+    _restored_state: Optional["SavableDataLoaderState"] = None
     #: Id of the next worker to retrieve data from
     _next_worker_id: int = 0
     #: Global index of the last yielded sample
@@ -729,8 +752,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
                 Only applies if using workers.
             checkpoint_every_min_n_samples: Overwrites the minimum number of samples between
                 checkpoints. Defaults to `number of workers * 2`. Only applies if using workers.
-            n_checkpoints: The number of checkpoints to keep in memory. Only applies if using
-                workers.
+            n_checkpoints: The minimum number of checkpoints to keep in memory. Only applies if
+                using workers.
         """
         self.worker_config = dataset.worker_config
         self.id = self.next_id()
@@ -757,7 +780,7 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
         else:
             dataset = SimpleSavableDatasetWrapper(dataset, self.worker_config)
 
-        self._worker_sample_counters = [0] * max(self.worker_config.num_workers, 1)
+        self._worker_sample_counters = [-1] * max(self.worker_config.num_workers, 1)
 
         kwargs = {}
         if self.worker_config.num_workers > 0:
@@ -867,6 +890,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
                     self.iter_idx += 1
                     return sample
                 except StopIteration:
+                    if not self.finished:
+                        outerself._epoch += 1
                     self.finished = True
                     outerself._next_worker_id = 0
                     if outerself.worker_config.should_log(level=1):
@@ -921,11 +946,13 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
             assert self._next_worker_id == 0
             merged_states = self.dataset.merge_states(worker_states)
         elif self._persistent_iterator is None:
-            # Workers configured, but not started yet -> Initial state
-            return None
+            # Workers configured, but not started yet -> Restored or initial state
+            return self._restored_state
         else:
             # Fetch from worker processes
-            worker_states = self._worker_command("get_checkpoint", self._worker_sample_counters)
+            worker_states = self._worker_command(
+                "get_checkpoint", self._worker_sample_counters, self._epoch
+            )
             merged_states = self.dataset.merge_checkpoints(worker_states)
 
         # Merge the states
@@ -955,6 +982,14 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
         else:
             assert isinstance(self.dataset, SavableDatasetWrapper)
             assert isinstance(state.dataset_state, SavableDatasetMergedCheckpoint)
+            self._worker_sample_counters = [
+                sample_index + offset - 1
+                for sample_index, offset in zip(
+                    state.dataset_state.state.sample_index, state.dataset_state.offset
+                )
+            ]
+            self._next_worker_id = state.next_worker_id
+            self._restored_state = state
             self.dataset.restore_checkpoint(state.dataset_state, next_worker_id=state.next_worker_id)
         # if len(self.cmd_queues) > 0:
         #     self._worker_command("restore_state", state["dataset"])
-- 
2.43.0


From fb805969420f34e426ef10ee52ca5cb188a4c885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 17/40] fix: fail instead of waiting forever for the state of a
 dead worker

---
 src/megatron/energon/savable_loader.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index c821ce7..db6ae8b 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -923,7 +923,18 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
             cmd_queue.put(cmd_args)
         # print(f"waiting for res")
         assert len(self.result_queues) == self.worker_config.num_workers
-        res = {k: v for results_queue in self.result_queues for k, v in results_queue.get().items()}
+        res = {}
+        for worker, results_queue in zip(
+            self._persistent_iterator._iterator._workers, self.result_queues
+        ):
+            while True:
+                alive = worker.is_alive()
+                try:
+                    res.update(results_queue.get(timeout=1))
+                    break
+                except queue.Empty:
+                    if not alive:
+                        raise RuntimeError(f"DataLoader worker (pid {worker.pid}) is not running")
         res = [res[i] for i in range(len(res))]
         # print(f"res: {res}")
         for r in res:
-- 
2.43.0


From c239171a109396743cb6c7d4c04fac15f12041f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:05 +0000
Subject: [PATCH 18/40] fix: a restored checkpoint without offset is a valid
 epoch start

---
 src/megatron/energon/savable_loader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index db6ae8b..15c0b9c 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -550,6 +550,7 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
                 dataset_state=self.dataset.save_state(),
                 checkpoint_time=time.perf_counter(),
                 sample_index=self._sample_index,
+                epoch_start=True,
             )
         ]
 
-- 
2.43.0


From d926dc80c414836d3787b9cc9af2d4578be7dec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:44 +0000
Subject: [PATCH 19/40] fix: fail instead of looping forever when epochizing a
 worker without samples

---
 src/megatron/energon/wrappers/epochize_dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/megatron/energon/wrappers/epochize_dataset.py b/src/megatron/energon/wrappers/epochize_dataset.py
index bebe2e6..7b3929d 100644
--- a/src/megatron/energon/wrappers/epochize_dataset.py
+++ b/src/megatron/energon/wrappers/epochize_dataset.py
@@ -88,6 +88,7 @@ class EpochizeDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sa
 
         # Only iterate if there are samples to iterate
         if len(offset_range) > 0:
+            assert self.dataset.worker_has_samples(), "Cannot epochize empty dataset"
             if self._active_iter is None:
                 self._active_iter = iter(self._infinite())
 
-- 
2.43.0


From e51fea111150b8360ffde750cb20499573d1192b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:34 +0000
Subject: [PATCH 20/40] fix: use the seed of the active worker for
 restore_seeds functions

---
 src/megatron/energon/task_encoder/base.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/megatron/energon/task_encoder/base.py b/src/megatron/energon/task_encoder/base.py
index d0b8fb8..7c2f529 100644
--- a/src/megatron/energon/task_encoder/base.py
+++ b/src/megatron/energon/task_encoder/base.py
@@ -133,13 +133,11 @@ def stateless(
     if fn is None:
         return lambda f: stateless(f, restore_seeds=restore_seeds)
     if restore_seeds:
-        worker_seed = None
 
         @functools.wraps(fn)
         def seed_wrapper_generator(self, *args, **kwargs):
-            nonlocal worker_seed
-            if worker_seed is None:
-                worker_seed = WorkerConfig.active_worker_config.worker_seed()
+            # Not cached, because samples of another worker may be restored in between
+            worker_seed = WorkerConfig.active_worker_config.worker_seed()
 
             # Save the RNG states and set the new seed
             outer_rng_state = SystemRng.save_state()
@@ -185,9 +183,8 @@ def stateless(
 
         @functools.wraps(fn)
         def seed_wrapper(self, *args, **kwargs):
-            nonlocal worker_seed
-            if worker_seed is None:
-                worker_seed = WorkerConfig.active_worker_config.worker_seed()
+            # Not cached, because samples of another worker may be restored in between
+            worker_seed = WorkerConfig.active_worker_config.worker_seed()
 
             # Save the RNG states and set the new seed
             rng_state = SystemRng.save_state()
-- 
2.43.0


From 44faa05cb49200b666c18392150e4f9f9ff4151f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 21/40] fix: do not lose the last sample of a sliced shard to
 rounding

---
 src/megatron/energon/flavors/webdataset/sharder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/sharder.py b/src/megatron/energon/flavors/webdataset/sharder.py
index fb35bf9..6ef4aba 100644
--- a/src/megatron/energon/flavors/webdataset/sharder.py
+++ b/src/megatron/energon/flavors/webdataset/sharder.py
@@ -24,11 +24,11 @@ class Sharder:
         ):
             # Split the shard into slices of max_samples_per_sequence (more or less)
             slice_count = max(round((end_offset - start_offset) / max_samples_per_sequence), 1)
-            samples_per_sequence = (end_offset - start_offset) / slice_count
             # Note this must include the end offset as well, so slice_count + 1 steps (down there,
             # idx+1 is used to access the end offset)
             offsets = [
-                start_offset + int(slice * samples_per_sequence) for slice in range(slice_count + 1)
+                start_offset + slice * (end_offset - start_offset) // slice_count
+                for slice in range(slice_count + 1)
             ]
             return [
                 [
-- 
2.43.0


From 33db6cf0636b95030847fdec2831b2ce7194b253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:34 +0000
Subject: [PATCH 22/40] fix: count excluded samples for the restore key and the
 offset in the shard

---
 .../flavors/webdataset/single_shard_reader.py       | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/single_shard_reader.py b/src/megatron/energon/flavors/webdataset/single_shard_reader.py
index 519ea42..c686351 100644
--- a/src/megatron/energon/flavors/webdataset/single_shard_reader.py
+++ b/src/megatron/energon/flavors/webdataset/single_shard_reader.py
@@ -42,6 +42,8 @@ class SingleShardReader:
     _cur_base_name: Optional[str] = None
     _cur_ext: Optional[str] = None
     _cur_key: Optional[str] = None
+    # Offset of the current sample in the shard (excluded samples count as well)
+    _cur_offset: int
 
     def __init__(
         self,
@@ -56,6 +58,7 @@ class SingleShardReader:
         self.shard_state = shard_state
         self.part_filter = part_filter
         self.handler = handler
+        self._cur_offset = shard_state.offset - 1
 
         if shard_state.offset == shard_state.shard.count:
             # Empty shard, return immediately
@@ -117,6 +120,7 @@ class SingleShardReader:
 
     def _next_tarinfo(self) -> None:
         """Internally loads the nest tar entry metadata. Or raises StopIteration."""
+        last_base_name = self._cur_base_name
         while True:
             try:
                 self._cur_tarinfo = next(self._stream)
@@ -136,6 +140,9 @@ class SingleShardReader:
             if not m:
                 continue
             self._cur_base_name, self._cur_ext = m.groups()
+            if self._cur_base_name != last_base_name:
+                last_base_name = self._cur_base_name
+                self._cur_offset += 1
 
             self._cur_key = f"{self.shard_state.shard.name}/{self._cur_base_name}"
             if self._cur_key in self.exclude:
@@ -164,7 +171,7 @@ class SingleShardReader:
             __restore_key__=(
                 "Webdataset",
                 self.shard_state.shard.name,
-                self.shard_state.offset + self.shard_state.shard.offset,
+                self._cur_offset + self.shard_state.shard.offset,
             ),
         )
         while True:
@@ -179,7 +186,7 @@ class SingleShardReader:
                         next_sample_offset_in_sub_tar + self._orig_shard_state_byte_offset
                     )
                     assert self.shard_state.byte_offset <= self.shard_state.shard.byte_size
-                    self.shard_state.offset += 1
+                    self.shard_state.offset = self._cur_offset
 
                     if self.worker_config.should_log(level=3):
                         self.worker_config.worker_log(
@@ -225,7 +232,7 @@ class SingleShardReader:
             next_sample_offset_in_sub_tar + self._orig_shard_state_byte_offset
         )
         assert self.shard_state.byte_offset <= self.shard_state.shard.byte_size
-        self.shard_state.offset += 1
+        self.shard_state.offset = self._cur_offset + 1
 
         if self.worker_config.should_log(level=3):
             self.worker_config.worker_log(
-- 
2.43.0


From ebb89dafaac239d5c19513b77a9593905229805e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:59 +0000
Subject: [PATCH 23/40] fix: pass the statelessness of the batch function to
 grouped batching

---
 src/megatron/energon/task_encoder/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/megatron/energon/task_encoder/base.py b/src/megatron/energon/task_encoder/base.py
index 7c2f529..2c98829 100644
--- a/src/megatron/energon/task_encoder/base.py
+++ b/src/megatron/energon/task_encoder/base.py
@@ -398,6 +398,7 @@ class TaskEncoder(ABC, Generic[T_sample, T_encoded_sample, T_raw_batch, T_batch]
                 fixed_batch_size=batch_size,
                 sample_group_key=self.batch_group_criterion,
                 batcher=self.batch,
+                batcher_stateless=get_stateless(self.batch),
                 drop_last=batch_drop_last,
                 worker_config=worker_config,
             )
-- 
2.43.0


From 8e0bfa13f4a3d12ce7e01436754e0c13f4cde00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:16 +0000
Subject: [PATCH 24/40] fix: name the rank in restore keys of loaders without
 workers

---
 src/megatron/energon/worker.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/megatron/energon/worker.py b/src/megatron/energon/worker.py
index 255d3d6..7235f57 100644
--- a/src/megatron/energon/worker.py
+++ b/src/megatron/energon/worker.py
@@ -151,8 +151,8 @@ class WorkerConfig:
 
     def rank_worker_id(self) -> int:
         """Returns the self worker id within the current rank."""
-        if self._worker_override_global_rank:
-            return self._worker_override_global_rank % self.num_workers
+        if self._worker_override_global_rank is not None:
+            return self._worker_override_global_rank % max(self.num_workers, 1)
         worker_info = torch.utils.data.get_worker_info()
         if worker_info is None:
             return 0
@@ -184,11 +184,12 @@ class WorkerConfig:
             assert override_local_worker_id is None
             return self._worker_override_global_rank
 
+        # Without workers, each rank counts as one global worker
         if override_local_worker_id is not None:
-            return self.rank * self.num_workers + override_local_worker_id
+            return self.rank * max(self.num_workers, 1) + override_local_worker_id
         else:
             self.assert_worker()
-            return self.rank * self.num_workers + self.rank_worker_id()
+            return self.rank * max(self.num_workers, 1) + self.rank_worker_id()
 
     def worker_seed(self, override_local_worker_id: Optional[int] = None) -> int:
         """Returns the seed for the current worker (or a specified worker).
@@ -201,11 +202,8 @@ class WorkerConfig:
                 the current worker, which is the default.
         """
 
-        if self.num_workers == 0:
-            # If we are not using workers, different ranks should still get a different seed
-            global_worker_id = self.rank
-        else:
-            global_worker_id = self.global_worker_id(override_local_worker_id)
+        # If we are not using workers, different ranks still get a different seed
+        global_worker_id = self.global_worker_id(override_local_worker_id)
 
         seed_offset = self.seed_offset
 
-- 
2.43.0


From 84b562930342f5bd006f7d33db26c6989ac42315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:09 +0000
Subject: [PATCH 25/40] fix: scatter the state to ranks without a state,
 address ranks of the group

---
 src/megatron/energon/savable_loader.py | 40 +++++++++++++++-----------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 15c0b9c..45f2185 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -1038,13 +1038,22 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
                 else:
                     output = None
                 torch.distributed.gather_object(
-                    merged_state, output, dst_rank, group=self.worker_config.data_parallel_group
+                    merged_state,
+                    output,
+                    self._global_rank(dst_rank),
+                    group=self.worker_config.data_parallel_group,
                 )
             return output
         else:
             # Not distributed -> return the merged state
             return merged_state
 
+    def _global_rank(self, rank: int) -> int:
+        """Returns the global rank for a rank of the data parallel group."""
+        if self.worker_config.data_parallel_group is None:
+            return rank
+        return torch.distributed.get_global_rank(self.worker_config.data_parallel_group, rank)
+
     def restore_state(
         self,
         state: Union[SavableDataLoaderState, List[SavableDataLoaderState], None, List[None]],
@@ -1059,29 +1068,28 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
                 to None. If not set, all ranks are assumed to hold the data.
         """
         assert self._persistent_iterator is None, "Cannot restore state while workers are running"
-        # Only restore multi-rank if state is actually a list and we are in a torch distributed setup.
-        # Otherwise treat as single rank state.
-        if (
-            torch.distributed.is_available()
-            and torch.distributed.is_initialized()
-            and isinstance(state, list)
-        ):
+        # Only restore multi-rank if we are in a torch distributed setup. Otherwise, or if the state
+        # is not a list, treat as single rank state.
+        if torch.distributed.is_available() and torch.distributed.is_initialized():
             if src_rank is None:
-                # All ranks have the state
-                # Select the state of the current rank
-                state = state[self.worker_config.rank]
+                if isinstance(state, list):
+                    # All ranks have the state
+                    # Select the state of the current rank
+                    state = state[self.worker_config.rank]
             else:
-                # Only the src_rank has the state
+                # Only the src_rank has the state, send it to all other ranks. All ranks must take
+                # part.
                 if self.worker_config.rank != src_rank:
-                    # Send the state to all other ranks
                     assert state is None
-                    # Must still be a list of Nones
-                    state = [None] * self.worker_config.world_size
+                if not isinstance(state, list):
+                    states = [None] * self.worker_config.world_size
+                    states[self.worker_config.rank] = state
+                    state = states
                 local_object = [None]
                 torch.distributed.scatter_object_list(
                     local_object,
                     state,
-                    src=src_rank,
+                    src=self._global_rank(src_rank),
                     group=self.worker_config.data_parallel_group,
                 )
                 state = local_object[0]
-- 
2.43.0


From 0d6ad052633bd1bfc79c3f7f81e0edb9e284949e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:44 +0000
Subject: [PATCH 26/40] fix: continue the retry stream exactly after short
 reads, failed opens and failed seeks

---
 src/megatron/energon/retry_stream.py | 57 +++++++++++++++++++---------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/src/megatron/energon/retry_stream.py b/src/megatron/energon/retry_stream.py
index 0ca24d2..e529761 100644
--- a/src/megatron/energon/retry_stream.py
+++ b/src/megatron/energon/retry_stream.py
@@ -20,7 +20,17 @@ class RetryReadStream(BinaryIO):
         self._path = path
         self._file = None
         self._pos = 0
-        self._size = path.size()
+        self._size = self._get_size()
+
+    def _get_size(self) -> int:
+        for _ in range(9):
+            try:
+                return self._path.size()
+            except FileNotFoundError:
+                raise
+            except IOError:
+                continue
+        return self._path.size()
 
     def __enter__(self) -> "RetryReadStream":
         return self
@@ -35,30 +45,40 @@ class RetryReadStream(BinaryIO):
             self._file.close()
 
     def read(self, n: int = -1) -> bytes:
+        remaining = max(self._size - self._pos, 0)
+        if n is not None and n >= 0:
+            remaining = min(n, remaining)
         buf = b""
-        for retry in range(10):
+        retry = 0
+        while remaining > 0:
             try:
                 if self._file is None:
                     self._file = self._path.open("rb")
                     self._file.seek(self._pos)
-                res = self._file.read(n)
-                self._pos += len(res)
-                buf += res
-                if (
-                    (n == -1 and self._pos >= self._size)
-                    or len(buf) == n
-                    or self._pos >= self._size
-                ):
-                    return res
+                res = self._file.read(remaining)
+                if not res:
+                    raise IOError(f"Unexpected end of file at {self._pos} in {self._path}")
             except IOError:
-                try:
-                    self._file.close()
-                except IOError:
-                    pass
-                self._file = None
-                if retry == 9:
+                self._drop_file()
+                retry += 1
+                if retry == 10:
                     raise
                 continue
+            # Some data was read (maybe less than requested): Continue after it
+            retry = 0
+            self._pos += len(res)
+            remaining -= len(res)
+            buf += res
+        return buf
+
+    def _drop_file(self) -> None:
+        """Closes the underlying file, such that it is reopened for the next read."""
+        if self._file is not None:
+            try:
+                self._file.close()
+            except IOError:
+                pass
+            self._file = None
 
     def seek(self, offset: int, whence: int = 0) -> int:
         if whence == 0:
@@ -75,7 +95,8 @@ class RetryReadStream(BinaryIO):
             if self._file is not None:
                 self._file.seek(offset)
         except IOError:
-            pass
+            # The position of the file is unknown now
+            self._drop_file()
         return self._pos
 
     def tell(self) -> int:
-- 
2.43.0


From d3a2cdbcd5bea782cf3c3e75792f486c3b4436aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:44 +0000
Subject: [PATCH 27/40] fix: read the sample index and the shard header with
 retries

---
 src/megatron/energon/flavors/webdataset/itar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/itar.py b/src/megatron/energon/flavors/webdataset/itar.py
index 7a27eca..938b981 100644
--- a/src/megatron/energon/flavors/webdataset/itar.py
+++ b/src/megatron/energon/flavors/webdataset/itar.py
@@ -16,7 +16,7 @@ ITAR_SUFFIX = ".tar.idx"
 class TarIndexReader:
     def __init__(self, tar_path: Union[EPath, str]):
         tar_path = EPath(tar_path)
-        self.itar = (tar_path.with_suffix(ITAR_SUFFIX)).open("rb")
+        self.itar = RetryReadStream(tar_path.with_suffix(ITAR_SUFFIX))
         self._length = len(self)
 
     def __getitem__(self, index: int) -> int:
@@ -148,7 +148,7 @@ def open_itar(path: Union[str, EPath], byte_offset: int = 0, byte_size: Optional
     path = EPath(path)
 
     # TODO: if tar file startswith(b"\x1f\x8b\x08") -> Seekable gzip file
-    with path.open("rb") as f:
+    with RetryReadStream(path) as f:
         if f.read(3) == b"\x1f\x8b\x08":
             # Open as seekable tgz
             raise ValueError("Seekable tgz not supported yet")
-- 
2.43.0


From 452747044ecd0d1e284fdeace6c419f4a4d8bf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:15 +0000
Subject: [PATCH 28/40] fix: restore keys of IterMapDataset after errors and
 for several outputs per input

---
 src/megatron/energon/wrappers/iter_map_dataset.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/iter_map_dataset.py b/src/megatron/energon/wrappers/iter_map_dataset.py
index 00f3213..3921065 100644
--- a/src/megatron/energon/wrappers/iter_map_dataset.py
+++ b/src/megatron/energon/wrappers/iter_map_dataset.py
@@ -111,12 +111,17 @@ class IterMapDataset(
         iter_idx = 0
         sample_idx = 0
         sample_restore_keys = []
+        # True, if a sample was yielded since the last inner sample was fetched
+        has_yielded = False
 
         def reset_idx_iter() -> Generator[T_sample, None, None]:
             # Resets the inner sample index
-            nonlocal iter_idx, sample_restore_keys
+            nonlocal iter_idx, has_yielded
             for entry in last_sample_wrapper:
                 iter_idx = 0
+                if has_yielded:
+                    sample_restore_keys.clear()
+                    has_yielded = False
                 sample_restore_keys.append(get_sample_restore_key(entry))
                 yield entry
 
@@ -125,8 +130,11 @@ class IterMapDataset(
         # While True will break when the inner dataset is exhausted, but may continue on exception
         while True:
             iter_idx = 0
+            sample_restore_keys.clear()
+            has_yielded = False
             try:
                 for sample_idx, sample in self._sample_index.iter_ctx(self.iter_map_fn(ds_iter)):
+                    has_yielded = True
                     yield set_sample_restore_key(
                         sample,
                         sample_idx,
@@ -134,7 +142,6 @@ class IterMapDataset(
                         *sample_restore_keys,
                         src=self,
                     )
-                    sample_restore_keys.clear()
                     iter_idx += 1
             except SYSTEM_EXCEPTIONS:
                 raise FatalSampleError.from_sample(last_sample_wrapper.last_sample)
-- 
2.43.0


From 230336464671dd56c1e559fb4d8cbd40cf8e8ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:15 +0000
Subject: [PATCH 29/40] fix: do not swallow errors of the inner dataset in
 IterMapDataset

---
 .../energon/wrappers/iter_map_dataset.py      | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/megatron/energon/wrappers/iter_map_dataset.py b/src/megatron/energon/wrappers/iter_map_dataset.py
index 3921065..3914eb5 100644
--- a/src/megatron/energon/wrappers/iter_map_dataset.py
+++ b/src/megatron/energon/wrappers/iter_map_dataset.py
@@ -113,17 +113,23 @@ class IterMapDataset(
         sample_restore_keys = []
         # True, if a sample was yielded since the last inner sample was fetched
         has_yielded = False
+        # True, if the inner dataset (i.e. not the iter_map_fn) raised an exception
+        inner_failed = False
 
         def reset_idx_iter() -> Generator[T_sample, None, None]:
             # Resets the inner sample index
-            nonlocal iter_idx, has_yielded
-            for entry in last_sample_wrapper:
-                iter_idx = 0
-                if has_yielded:
-                    sample_restore_keys.clear()
-                    has_yielded = False
-                sample_restore_keys.append(get_sample_restore_key(entry))
-                yield entry
+            nonlocal iter_idx, has_yielded, inner_failed
+            try:
+                for entry in last_sample_wrapper:
+                    iter_idx = 0
+                    if has_yielded:
+                        sample_restore_keys.clear()
+                        has_yielded = False
+                    sample_restore_keys.append(get_sample_restore_key(entry))
+                    yield entry
+            except Exception:
+                inner_failed = True
+                raise
 
         ds_iter = iter(reset_idx_iter())
 
@@ -146,6 +152,9 @@ class IterMapDataset(
             except SYSTEM_EXCEPTIONS:
                 raise FatalSampleError.from_sample(last_sample_wrapper.last_sample)
             except Exception as e:
+                if inner_failed:
+                    # The inner dataset cannot be continued: not an error of the iter_map_fn
+                    raise
                 self.error_handler(e, last_sample_wrapper.last_sample)
             else:
                 break
-- 
2.43.0


From cc6b69ccb89413e7bfa93416e729d47322da75d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:07 +0000
Subject: [PATCH 30/40] fix: never yield incomplete or wrongly combined samples
 after a handled read error

---
 .../energon/flavors/webdataset/sample_loader.py    |  8 +++++++-
 .../flavors/webdataset/single_shard_reader.py      | 14 +++++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/sample_loader.py b/src/megatron/energon/flavors/webdataset/sample_loader.py
index d42b04c..9d92a59 100644
--- a/src/megatron/energon/flavors/webdataset/sample_loader.py
+++ b/src/megatron/energon/flavors/webdataset/sample_loader.py
@@ -241,6 +241,7 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
                 except Exception as e:
                     self.handler(e, readers[0].shard_state.shard.name)
                 else:
+                    complete = groups[0] is not None
                     for idx, reader in enumerate(readers[1:], 1):
                         try:
                             _, groups[idx] = reader.read_next(group_name, must_match=True)
@@ -262,7 +263,12 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
                             )
                         except Exception as e:
                             self.handler(e, reader.shard_state.shard.name)
-                    yield tuple(groups)
+                            complete = False
+                        else:
+                            complete = complete and groups[idx] is not None
+                    # Never combine with (the column of) another sample or with parts of a sample
+                    if complete:
+                        yield tuple(groups)
 
     def _shards_once(self, shards: List[Sequence[ShardInfo]]) -> List[Sequence[ShardInfo]]:
         """Possibly (re)shuffles the shards using the random generator."""
diff --git a/src/megatron/energon/flavors/webdataset/single_shard_reader.py b/src/megatron/energon/flavors/webdataset/single_shard_reader.py
index c686351..e0226b5 100644
--- a/src/megatron/energon/flavors/webdataset/single_shard_reader.py
+++ b/src/megatron/energon/flavors/webdataset/single_shard_reader.py
@@ -124,7 +124,8 @@ class SingleShardReader:
         while True:
             try:
                 self._cur_tarinfo = next(self._stream)
-            except StopIteration:
+            except BaseException:
+                # Exhausted or unreadable from here on. Do not start over with the last file.
                 self._cur_base_name = self._cur_ext = self._cur_key = self._cur_tarinfo = None
                 raise
             fname = self._cur_tarinfo.name
@@ -151,8 +152,10 @@ class SingleShardReader:
 
     def read_next(
         self, for_group_name: Optional[str] = None, must_match: bool = False
-    ) -> Tuple[str, FilteredSample]:
-        """Gets the next sample, or raises StopIteration if exhausted."""
+    ) -> Tuple[str, Optional[FilteredSample]]:
+        """Gets the next sample, or raises StopIteration if exhausted. If a part of the sample could
+        not be read and the handler did not raise, the sample is incomplete and None is returned."""
+        incomplete = False
         if self._cur_tarinfo is None:
             self._next_tarinfo()
         assert self._cur_tarinfo is not None
@@ -205,7 +208,7 @@ class SingleShardReader:
                             }
                         )
 
-                    return group_name, group
+                    return group_name, None if incomplete else group
 
                 if self.part_filter is None or self.part_filter(self._cur_ext):
                     group[self._cur_ext] = self._tar_file.extractfile(self._cur_tarinfo).read()
@@ -213,6 +216,7 @@ class SingleShardReader:
                 raise FatalSampleError.from_sample_key(self._cur_key)
             except Exception as e:
                 self.handler(e, self._cur_key)
+                incomplete = True
 
             try:
                 self._next_tarinfo()
@@ -261,4 +265,4 @@ class SingleShardReader:
                 f"; this indicates an internal bug. Shard might not have been iterated completely, samples may be missing."
             )
 
-        return group_name, group
+        return group_name, None if incomplete else group
-- 
2.43.0


From cfec8f92b1c1ae413e657b47f0f39196aef5b358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:47 +0000
Subject: [PATCH 31/40] fix: make samples of joined datasets restorable

---
 .../flavors/webdataset/joined_webdataset.py      | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/joined_webdataset.py b/src/megatron/energon/flavors/webdataset/joined_webdataset.py
index 44ceb24..7951c5f 100644
--- a/src/megatron/energon/flavors/webdataset/joined_webdataset.py
+++ b/src/megatron/energon/flavors/webdataset/joined_webdataset.py
@@ -22,7 +22,6 @@ from megatron.energon.flavors.base_dataset import (
     BaseCoreDatasetFactory,
     Sample,
     SavableDataset,
-    set_sample_restore_key,
 )
 from megatron.energon.flavors.webdataset.base_webdataset import BaseWebdatasetFactory
 from megatron.energon.flavors.webdataset.error_handler import ErrorHandler
@@ -234,12 +233,15 @@ class JoinedWebdatasetFactory(
             for dataset, sample in zip(self.inner_datasets, samples)
         )
         # Then combine the loaded smaples into the final type
-        return set_sample_restore_key(
-            self._sample_joiner(*loaded_samples),
-            *restore_key,
-            src=self,
-            fail_otherwise=True,
-        )
+        joined_sample = self._sample_joiner(*loaded_samples)
+        # The restore key already contains the id of the sample loader
+        if isinstance(joined_sample, dict) and "__restore_key__" in joined_sample:
+            joined_sample["__restore_key__"] = tuple(restore_key)
+        elif hasattr(joined_sample, "__restore_key__"):
+            joined_sample.__restore_key__ = tuple(restore_key)
+        else:
+            raise RuntimeError("The joiner did not return a sample with a restore key.")
+        return joined_sample
 
     def config(self) -> Dict[str, Any]:
         return dict(
-- 
2.43.0


From ff1805bc861ceda459416e3e5bfbb1ff856da463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:19 +0000
Subject: [PATCH 32/40] fix: do not count a shard whose index was not written

---
 src/megatron/energon/flavors/webdataset/prepare.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/prepare.py b/src/megatron/energon/flavors/webdataset/prepare.py
index c72776d..0f27cef 100644
--- a/src/megatron/energon/flavors/webdataset/prepare.py
+++ b/src/megatron/energon/flavors/webdataset/prepare.py
@@ -96,8 +96,9 @@ class WebdatasetPreparator:
                             iw.append(member.offset)
                             last_base_name = base_name
                             count += 1
-                    shard_info.count = count
                     iw.append(tar.offset)
+            # Only count the shard once its index is complete
+            shard_info.count = count
             return shard_info, parts
         except BaseException:
             logger.exception(f"Shard failed to load: {path!r}. Skipping it.")
-- 
2.43.0


From 6e260032f78326ee4a8e94f114018ca820065499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:19 +0000
Subject: [PATCH 33/40] fix: skip shards with a truncated or corrupt header

---
 src/megatron/energon/flavors/webdataset/prepare.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/megatron/energon/flavors/webdataset/prepare.py b/src/megatron/energon/flavors/webdataset/prepare.py
index 0f27cef..7e57ed0 100644
--- a/src/megatron/energon/flavors/webdataset/prepare.py
+++ b/src/megatron/energon/flavors/webdataset/prepare.py
@@ -96,6 +96,10 @@ class WebdatasetPreparator:
                             iw.append(member.offset)
                             last_base_name = base_name
                             count += 1
+                    # The tarfile module also ends silently at a truncated or corrupt header
+                    tar.fileobj.seek(tar.offset)
+                    if tar.fileobj.read(tarfile.BLOCKSIZE).strip(b"\0"):
+                        raise tarfile.ReadError(f"Invalid header at offset {tar.offset}")
                     iw.append(tar.offset)
             # Only count the shard once its index is complete
             shard_info.count = count
-- 
2.43.0


From d15dc8da549b2bad957d9c97b6585d71136eb499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:19 +0000
Subject: [PATCH 34/40] fix: do not lose shards to rounding of the split ratio

---
 src/megatron/energon/flavors/webdataset/prepare.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/prepare.py b/src/megatron/energon/flavors/webdataset/prepare.py
index 7e57ed0..626287f 100644
--- a/src/megatron/energon/flavors/webdataset/prepare.py
+++ b/src/megatron/energon/flavors/webdataset/prepare.py
@@ -240,7 +240,8 @@ class WebdatasetPreparator:
             split_offset = 0
             for split_part, split_ratio in split_parts_ratio:
                 split_total += split_ratio
-                split_end = int(len(shards) * split_total)
+                # The sum of the ratios is not exact, do not lose a shard to that
+                split_end = int(len(shards) * split_total + 1e-6)
                 split_shards[split_part] = [shard.name for shard in shards[split_offset:split_end]]
                 split_offset = split_end
         else:
-- 
2.43.0


From b43651d62915d63c40d56911bb4441d77a0ab327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:19 +0000
Subject: [PATCH 35/40] fix: write the dataset info and split files atomically

---
 .../energon/flavors/webdataset/prepare.py         | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/prepare.py b/src/megatron/energon/flavors/webdataset/prepare.py
index 626287f..f1a44de 100644
--- a/src/megatron/energon/flavors/webdataset/prepare.py
+++ b/src/megatron/energon/flavors/webdataset/prepare.py
@@ -37,6 +37,15 @@ logger = logging.getLogger(__name__)
 T = TypeVar("T", covariant=True)
 
 
+def _write_yaml(path: EPath, obj: Any) -> None:
+    """Write the object to the yaml file. Writes to a .tmp file first, to make sure only complete
+    files are used."""
+    tmp_path = path.parent / (path.name + ".tmp")
+    with tmp_path.open("w") as wf:
+        yaml.dump(to_json_object(obj), wf)
+    tmp_path.move(path)
+
+
 class WebdatasetPreparator:
 
     @staticmethod
@@ -222,8 +231,7 @@ class WebdatasetPreparator:
         info = WebdatasetInfo(
             shard_counts={shard.name: shard.count for shard in shards},
         )
-        with (parent_path / MAIN_FOLDER_NAME / info_config).open("w") as wf:
-            yaml.dump(to_json_object(info), wf)
+        _write_yaml(parent_path / MAIN_FOLDER_NAME / info_config, info)
 
         if split_parts_ratio is not None:
             # Normalize ratio
@@ -261,7 +269,6 @@ class WebdatasetPreparator:
                 ]
         # Save split config
         splits_config = WebdatasetSplits(split_parts=split_shards)
-        with (parent_path / MAIN_FOLDER_NAME / split_config).open("w") as wf:
-            yaml.dump(to_json_object(splits_config), wf)
+        _write_yaml(parent_path / MAIN_FOLDER_NAME / split_config, splits_config)
 
         return found_parts
-- 
2.43.0


From c9e5a51fbd9e71c1832a48913fd6b9a00ae387c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:26 +0000
Subject: [PATCH 36/40] fix: do not log to files of other processes while
 restoring samples

---
 src/megatron/energon/worker.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/megatron/energon/worker.py b/src/megatron/energon/worker.py
index 7235f57..984ef3e 100644
--- a/src/megatron/energon/worker.py
+++ b/src/megatron/energon/worker.py
@@ -229,11 +229,11 @@ class WorkerConfig:
         if self.worker_debug_path is None:
             print(json.dumps(data) + "\n", end="", flush=True)
         else:
-            in_worker = torch.utils.data.get_worker_info() is not None
-            # Additional "worker" with rank_worker_id=0 is the main process. All workers have +1
-            # as their worker_id.
-            worker_id = (
-                self.rank * (self.num_workers + 1) + self.rank_worker_id() + (1 if in_worker else 0)
+            # The file belongs to the actual process, also while restoring a sample for another
+            # global rank. The main process comes first, all workers have +1 as their worker_id.
+            worker_info = torch.utils.data.get_worker_info()
+            worker_id = self.rank * (self.num_workers + 1) + (
+                worker_info.id + 1 if worker_info is not None else 0
             )
             if self._worker_debug_file is None or self._worker_debug_file_worker_id != worker_id:
                 if self._worker_debug_file is not None:
-- 
2.43.0


From 1a7fbcc029ef3eeca9b176f406e2c3372831dffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:26 +0000
Subject: [PATCH 37/40] fix: share the debug log file between worker configs of
 one process

---
 src/megatron/energon/worker.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/megatron/energon/worker.py b/src/megatron/energon/worker.py
index 984ef3e..27d9271 100644
--- a/src/megatron/energon/worker.py
+++ b/src/megatron/energon/worker.py
@@ -55,10 +55,9 @@ class WorkerConfig:
     worker_debug_path: Optional[str] = None
     #: Log level for worker logging.
     worker_log_level: int = 0
-    #: The opened file for the current worker. Should not be set from outside.
-    _worker_debug_file: Optional[TextIO] = None
-    #: worker_id of the opened worker debug file
-    _worker_debug_file_worker_id: Optional[int] = None
+    #: The opened debug files of the current process by path. Shared by all worker configs, because
+    # several configs may log to the same file within one process.
+    _worker_debug_files: ClassVar[Dict[str, TextIO]] = {}
 
     #: The current sample index within the current iterating worker
     _sample_index_stack: ClassVar[Optional[List[int]]] = None
@@ -235,16 +234,14 @@ class WorkerConfig:
             worker_id = self.rank * (self.num_workers + 1) + (
                 worker_info.id + 1 if worker_info is not None else 0
             )
-            if self._worker_debug_file is None or self._worker_debug_file_worker_id != worker_id:
-                if self._worker_debug_file is not None:
-                    self._worker_debug_file.close()
-                path = EPath(
-                    self.worker_debug_path.format(
-                        worker_id=worker_id, pid=multiprocessing.current_process().ident
-                    )
-                )
+            path_str = self.worker_debug_path.format(
+                worker_id=worker_id, pid=multiprocessing.current_process().ident
+            )
+            debug_file = WorkerConfig._worker_debug_files.get(path_str)
+            if debug_file is None:
+                path = EPath(path_str)
                 path.parent.mkdir(exist_ok=True, parents=True)
-                self._worker_debug_file = path.open("w")
-                self._worker_debug_file_worker_id = worker_id
-            self._worker_debug_file.write(json.dumps(data) + "\n")
-            self._worker_debug_file.flush()
+                debug_file = path.open("w")
+                WorkerConfig._worker_debug_files[path_str] = debug_file
+            debug_file.write(json.dumps(data) + "\n")
+            debug_file.flush()
-- 
2.43.0


From 0cdc24803dfd848924b4f7d9c003347514900393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:06 +0000
Subject: [PATCH 38/40] fix: reported number of batches counted wrong last
 batches of workers with one more sample

---
 src/megatron/energon/wrappers/batch_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index 4fccdd5..99b56f5 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -123,7 +123,7 @@ class BatchDataset(
             n_batches_per_worker_floor += 1
         # Correct number of batches for the workers which yield 1 more sample (to balance)
         n_batches_per_worker_ceil = (n_samples_per_worker_floor + 1) // self.batch_size
-        if n_batches_per_worker_ceil % self.batch_size != 0 and not self.drop_last:
+        if (n_samples_per_worker_floor + 1) % self.batch_size != 0 and not self.drop_last:
             n_batches_per_worker_ceil += 1
 
         return (
-- 
2.43.0


From 66faf74f75131d6ebb272fe4632f8fd64c83fb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:13 +0000
Subject: [PATCH 39/40] fix: the end of a pass used up a sample index of
 iter_map_fn, so numbers differed after resuming at the end of an epoch

---
 src/megatron/energon/wrappers/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/megatron/energon/wrappers/base.py b/src/megatron/energon/wrappers/base.py
index c92ede5..15a42b5 100644
--- a/src/megatron/energon/wrappers/base.py
+++ b/src/megatron/energon/wrappers/base.py
@@ -182,6 +182,9 @@ class SampleIndex:
                         x = next(it)
                     yield res_sample_idx, x
                 except StopIteration:
+                    if sample_idx is None:
+                        # There is no sample for this index, use it for the next sample
+                        self._sample_index[self._rank] = res_sample_idx
                     break
         finally:
             if hasattr(it, "close"):
-- 
2.43.0


From b48f33e64fa06c08bf4f1d9abab4c203059139c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:12 +0000
Subject: [PATCH 40/40] fix: encode_batch was silently not applied to batches
 formed with batch_group_criterion

---
 src/megatron/energon/task_encoder/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/megatron/energon/task_encoder/base.py b/src/megatron/energon/task_encoder/base.py
index 2c98829..75da5d9 100644
--- a/src/megatron/energon/task_encoder/base.py
+++ b/src/megatron/energon/task_encoder/base.py
@@ -402,6 +402,14 @@ class TaskEncoder(ABC, Generic[T_sample, T_encoded_sample, T_raw_batch, T_batch]
                 drop_last=batch_drop_last,
                 worker_config=worker_config,
             )
+
+            if getattr(self.encode_batch, "__func__", None) is not TaskEncoder.encode_batch:
+                dataset = MapDataset(
+                    dataset,
+                    self.encode_batch,
+                    worker_config=worker_config,
+                    stateless_map_fn=get_stateless(self.encode_batch),
+                )
         else:
             # No grouping is active
 
-- 
2.43.0

