From 4da40f65ef536646c0f7911f6ccf8c6482e4cc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:01 +0000
Subject: [PATCH 01/14] fix: any temporary file of a step makes its checkpoint
 incomplete

A step whose unfinished shard has a suffix which is not required by the caller
was reported as complete. Steps with files both with and without a suffix made
the iteration fail comparing None and str.
---
 vmoe/checkpoints/base.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/vmoe/checkpoints/base.py b/vmoe/checkpoints/base.py
index 01ff717..72ed98a 100644
--- a/vmoe/checkpoints/base.py
+++ b/vmoe/checkpoints/base.py
@@ -13,8 +13,8 @@
 # limitations under the License.
 
 """Base functions for checkpointing."""
+import collections
 import functools
-import itertools
 import multiprocessing.pool
 import os
 import re
@@ -111,14 +111,15 @@ def iterate_complete_steps_for_prefix(
   # Remove any steps where there is an associated temp file.
   workdir = os.path.dirname(prefix)
   pattern_tmp = os.path.join(workdir, f'.tmp.{os.path.basename(prefix)}') + '*'
-  incomplete_steps_and_suffixes = set(
-      map(_parse_step_and_suffix_or_error, gfile.glob(pattern_tmp)))
-
-  for step, group in itertools.groupby(
-      sorted(steps_and_suffixes - incomplete_steps_and_suffixes,
-             reverse=decreasing),
-      lambda x: x[0]):
-    if not suffixes.difference(set(x[1] for x in group)):
+  incomplete_steps = set(
+      _parse_step_and_suffix_or_error(filepath)[0]
+      for filepath in gfile.glob(pattern_tmp))
+
+  suffixes_per_step = collections.defaultdict(set)
+  for step, suffix in steps_and_suffixes:
+    suffixes_per_step[step].add(suffix)
+  for step in sorted(suffixes_per_step, reverse=decreasing):
+    if step not in incomplete_steps and suffixes <= suffixes_per_step[step]:
       yield step
 
 
-- 
2.43.0


From 9a02877b0e8af26b4913200fb37eeb6cb6775c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:01 +0000
Subject: [PATCH 02/14] fix: ignore the checkpoints of other prefixes

The files of 'ckpt_best_5' were taken for those of step 5 of 'ckpt', and any
file such as 'ckpt_best' made the iteration fail.
---
 vmoe/checkpoints/base.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/vmoe/checkpoints/base.py b/vmoe/checkpoints/base.py
index 72ed98a..f106e50 100644
--- a/vmoe/checkpoints/base.py
+++ b/vmoe/checkpoints/base.py
@@ -94,26 +94,26 @@ def iterate_complete_steps_for_prefix(
     suffixes = (None,)
   suffixes = set(suffixes)
 
-  def _parse_step_and_suffix_or_error(filepath):
-    m = CHECKPOINT_REGEX.fullmatch(filepath)
-    assert m is not None, (
-        f'Filepath {filepath!r} does not match CHECKPOINT_REGEX. '
-        f'This should not happen.')
-    if m.group(2) is None:
-      raise ValueError(f'Filepath {filepath!r} does not contain a step number.')
-    step = int(m.group(2)[1:])
-    suffix = m.group(3)
-    return step, suffix
+  def _iter_steps_and_suffixes_or_error(file_prefix):
+    for filepath in gfile.glob(file_prefix + '*'):
+      m = CHECKPOINT_REGEX.fullmatch(filepath)
+      assert m is not None, (
+          f'Filepath {filepath!r} does not match CHECKPOINT_REGEX. '
+          f'This should not happen.')
+      if os.path.basename(m.group(1)) != os.path.basename(file_prefix):
+        continue  # File of another prefix, e.g. 'ckpt_best_1' vs. 'ckpt_1'.
+      if m.group(2) is None:
+        raise ValueError(
+            f'Filepath {filepath!r} does not contain a step number.')
+      yield int(m.group(2)[1:]), m.group(3)
 
   # Find set of (step, suffix) from the given prefix.
-  steps_and_suffixes = set(
-      map(_parse_step_and_suffix_or_error, gfile.glob(prefix + '*')))
+  steps_and_suffixes = set(_iter_steps_and_suffixes_or_error(prefix))
   # Remove any steps where there is an associated temp file.
   workdir = os.path.dirname(prefix)
-  pattern_tmp = os.path.join(workdir, f'.tmp.{os.path.basename(prefix)}') + '*'
+  prefix_tmp = os.path.join(workdir, f'.tmp.{os.path.basename(prefix)}')
   incomplete_steps = set(
-      _parse_step_and_suffix_or_error(filepath)[0]
-      for filepath in gfile.glob(pattern_tmp))
+      step for step, _ in _iter_steps_and_suffixes_or_error(prefix_tmp))
 
   suffixes_per_step = collections.defaultdict(set)
   for step, suffix in steps_and_suffixes:
-- 
2.43.0


From dae96c19489ace0cd7480c3c3cc5b843edebc425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:23 +0000
Subject: [PATCH 03/14] fix: a checkpoint with missing shards is not complete

If a save was interrupted after some of the shards were in place and before the
others were opened, no temporary file tells that the checkpoint is incomplete.
---
 vmoe/checkpoints/base.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/vmoe/checkpoints/base.py b/vmoe/checkpoints/base.py
index f106e50..ff4a46c 100644
--- a/vmoe/checkpoints/base.py
+++ b/vmoe/checkpoints/base.py
@@ -18,7 +18,7 @@ import functools
 import multiprocessing.pool
 import os
 import re
-from typing import Any, Callable, Iterable, Iterator, Sequence, Mapping, Optional
+from typing import Any, Callable, Collection, Iterable, Iterator, Sequence, Mapping, Optional
 
 from tensorflow.io import gfile
 from vmoe.checkpoints import serialization
@@ -73,7 +73,7 @@ def iterate_complete_steps_for_prefix(
   """Iterates over steps with complete checkpoints from a given prefix.
 
   Complete steps are those for which there are not incomplete (temp) checkpoint
-  shards and for which all suffixes are present.
+  shards and for which all suffixes (and all of their shards) are present.
 
   E.g. If the prefix is '/dir/ckpt', the suffixes are ('.index', '.data') and
   the files in '/dir/' are: '/dir/ckpt_1.index', '/dir/ckpt_1.data',
@@ -94,7 +94,7 @@ def iterate_complete_steps_for_prefix(
     suffixes = (None,)
   suffixes = set(suffixes)
 
-  def _iter_steps_and_suffixes_or_error(file_prefix):
+  def _iter_steps_suffixes_and_shards_or_error(file_prefix):
     for filepath in gfile.glob(file_prefix + '*'):
       m = CHECKPOINT_REGEX.fullmatch(filepath)
       assert m is not None, (
@@ -105,24 +105,40 @@ def iterate_complete_steps_for_prefix(
       if m.group(2) is None:
         raise ValueError(
             f'Filepath {filepath!r} does not contain a step number.')
-      yield int(m.group(2)[1:]), m.group(3)
+      yield int(m.group(2)[1:]), m.group(3), m.group(4)
 
-  # Find set of (step, suffix) from the given prefix.
-  steps_and_suffixes = set(_iter_steps_and_suffixes_or_error(prefix))
+  # Find the shards of each (step, suffix) from the given prefix.
+  shards = collections.defaultdict(set)
+  for step, suffix, shard in _iter_steps_suffixes_and_shards_or_error(prefix):
+    shards[step, suffix].add(shard)
   # Remove any steps where there is an associated temp file.
   workdir = os.path.dirname(prefix)
   prefix_tmp = os.path.join(workdir, f'.tmp.{os.path.basename(prefix)}')
   incomplete_steps = set(
-      step for step, _ in _iter_steps_and_suffixes_or_error(prefix_tmp))
+      step for step, _, _ in _iter_steps_suffixes_and_shards_or_error(prefix_tmp))
 
   suffixes_per_step = collections.defaultdict(set)
-  for step, suffix in steps_and_suffixes:
-    suffixes_per_step[step].add(suffix)
+  for (step, suffix), shard_names in shards.items():
+    if _has_all_shards(shard_names):
+      suffixes_per_step[step].add(suffix)
   for step in sorted(suffixes_per_step, reverse=decreasing):
     if step not in incomplete_steps and suffixes <= suffixes_per_step[step]:
       yield step
 
 
+def _has_all_shards(shard_names: Collection[Optional[str]]) -> bool:
+  """Whether there's an unsharded file, or all shards for some shard count."""
+  if None in shard_names:
+    return True
+  shards_per_count = collections.defaultdict(set)
+  for name in shard_names:
+    shard, shard_count = re.fullmatch(r'-([0-9]+)-of-([0-9]+)', name).groups()
+    shards_per_count[int(shard_count)].add(int(shard))
+  return any(
+      shards.issuperset(range(shard_count))
+      for shard_count, shards in shards_per_count.items())
+
+
 def remove_checkpoints(filepaths: Iterable[str],
                        match_fn: Callable[[str], bool],
                        *,
-- 
2.43.0


From fe00e514c2f25177aefad8e5ab1871ffb06ee740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:23 +0000
Subject: [PATCH 04/14] fix: remove the temporary file if a checkpoint cannot
 be put in place

With overwrite=False, saving to an existing file fails but left its temporary
file behind, so that the existing checkpoint was no longer found.
---
 vmoe/checkpoints/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vmoe/checkpoints/base.py b/vmoe/checkpoints/base.py
index ff4a46c..cdc9ad9 100644
--- a/vmoe/checkpoints/base.py
+++ b/vmoe/checkpoints/base.py
@@ -190,7 +190,12 @@ def save_checkpoint(filepath: str,
   temp_filepath = os.path.join(wdir, '.tmp.' + os.path.basename(filepath))
   with gfile.GFile(temp_filepath, 'wb') as fp:
     fp.write(serialization.to_bytes(tree))
-  gfile.rename(temp_filepath, filepath, overwrite=overwrite)
+  try:
+    gfile.rename(temp_filepath, filepath, overwrite=overwrite)
+  except Exception:
+    # A leftover temp file would make an existing checkpoint look incomplete.
+    gfile.remove(temp_filepath)
+    raise
   return filepath
 
 
-- 
2.43.0


From 8eff68bce508fefc95d92a191666585595f3c6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:54 +0000
Subject: [PATCH 05/14] fix: sharded checkpoints of arrays without elements can
 be restored

No sub-chunk was stored for them, and decoding the shard failed.
---
 vmoe/checkpoints/partitioned.py   | 3 +--
 vmoe/checkpoints/serialization.py | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/vmoe/checkpoints/partitioned.py b/vmoe/checkpoints/partitioned.py
index a7d0402..2fc7c98 100644
--- a/vmoe/checkpoints/partitioned.py
+++ b/vmoe/checkpoints/partitioned.py
@@ -528,8 +528,7 @@ def _restore_local_buffers(
         ckpt_chunks.chunks[i], ckpt_chunks.global_slices[i]):
       for global_slice, buffer in local_buffers[i].items():
         intersect_slice = _intersect_slicend(global_slice, ckpt_slice)
-        if (global_slice == ckpt_slice or  # account for scalars with shape ().
-            intersect_slice):
+        if intersect_slice is not None:
           local_intersect_slice = tuple(
               slice(a.start - b.start, a.stop - b.start)
               for a, b in safe_zip(intersect_slice, global_slice))
diff --git a/vmoe/checkpoints/serialization.py b/vmoe/checkpoints/serialization.py
index 2c0bbe3..62e6c65 100644
--- a/vmoe/checkpoints/serialization.py
+++ b/vmoe/checkpoints/serialization.py
@@ -216,7 +216,7 @@ def _lazy_array_chunks_encode(
     subchunk_size = max(1, int(_MAX_CHUNK_SIZE / chunk.dtype.itemsize))
     subchunks = [
         chunk[i:i + subchunk_size]
-        for i in range(0, chunk.size, subchunk_size)
+        for i in range(0, max(1, chunk.size), subchunk_size)
     ]
     return [subchunks, global_slice]
 
-- 
2.43.0


From fc4303f003b3f7a0186e0c8dca61444799f8dfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:05 +0000
Subject: [PATCH 06/14] fix: items of an ensemble member are never routed to
 experts of another

A gate which underflows to exactly zero tied with the zero gates of the experts
of the other members, so that with several selected experts per item the item
could occupy the buffer of another member's expert and displace its items.
---
 vmoe/nn/ensemble_routing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vmoe/nn/ensemble_routing.py b/vmoe/nn/ensemble_routing.py
index 3d4c3e2..f2c5770 100644
--- a/vmoe/nn/ensemble_routing.py
+++ b/vmoe/nn/ensemble_routing.py
@@ -109,6 +109,10 @@ class NoisyTopExpertsPerItemEnsembleRouter(
     # (G, S / M, M, H) -> (G, M, S / M, E / M).
     gates_softmax, metrics = self._super_compute_gates_softmax_and_metrics(
         inputs)
+    # A gate which underflows to zero would tie with those of the experts of the
+    # other members (exactly zero), and the item could be routed to them.
+    gates_softmax = jnp.maximum(
+        gates_softmax, jnp.finfo(gates_softmax.dtype).tiny)
     # (G, M, S / M, E / M) -> (G, S, E).
     gates_softmax = reshape_from_diag_blocks(gates_softmax)
     # (G, S, E) -> (G, M, S / M, E) -> (G, S / M, M, E) -> (G, S, E).
-- 
2.43.0


From 4e6405fdad0a1753baa92572497cf201004a743d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:46 +0000
Subject: [PATCH 07/14] fix: tiling the mesh by process keeps the devices of a
 process together

The logical mesh was split along each axis without regard to which
partitions and replicas the devices of a process hold, so that they did not
form a contiguous slice, e.g. 16 partitions of a 4x4x2 TPUv4 with hosts of
2x2x1 chips.
---
 vmoe/partitioning.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vmoe/partitioning.py b/vmoe/partitioning.py
index 6a0a087..51b9382 100644
--- a/vmoe/partitioning.py
+++ b/vmoe/partitioning.py
@@ -282,10 +282,14 @@ def get_logical_mesh_tile_by_process(
   def fn(p, r, l):
     # (p, r) are the number of (partitions, replicas) across a given axis.
     # l is the number of devices per process across a given axis.
-    if p % l == 0:
+    # The devices of a process are consecutive along the axis, hence they hold
+    # either some of the replicas of one partition or all of some partitions.
+    if r % l == 0:
+      return p, 1, r // l, l
+    elif l % r == 0:
+      return p * r // l, l // r, 1, r
+    elif p % l == 0:
       return p // l, l, r, 1
-    elif r % l == 0:
-      return 1, p, r // l, l
     else:
       raise ValueError(
           f'Neither p = {p}, nor r = {r} are multiples of l = {l}')
-- 
2.43.0


From 0366faf9f8392f623765a3295699bf58afc1c5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:53 +0000
Subject: [PATCH 08/14] fix: evaluation data with a pre_filter_fn yields the
 same number of batches in every process

The examples removed by pre_filter_fn were not replaced with fake ones, so real
examples could be lost with the last incomplete batch and processes could yield
different numbers of batches.
---
 vmoe/data/input_pipeline.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vmoe/data/input_pipeline.py b/vmoe/data/input_pipeline.py
index f895ccf..ba58377 100644
--- a/vmoe/data/input_pipeline.py
+++ b/vmoe/data/input_pipeline.py
@@ -130,11 +130,18 @@ def get_dataset(
       deterministic=False)
   if variant != 'train':
     num_fake_examples = builder.get_num_fake_examples(batch_size_per_process)
-    if num_fake_examples > 0:
+    if num_fake_examples > 0 or pre_filter_fn is not None:
       fake_elem = tf.nest.map_structure(
           lambda spec: tf.zeros(spec.shape, spec.dtype), data.element_spec)
       fake_data = tf.data.Dataset.from_tensors(fake_elem)
       fake_data = fake_data.repeat(num_fake_examples).cache()
+      if pre_filter_fn is not None:
+        # The filtered examples are replaced with fake ones too. Otherwise, the
+        # number of examples would differ from the one assumed by the builder.
+        filtered_data = builder.as_dataset().filter(
+            lambda x: tf.math.logical_not(pre_filter_fn(x)))
+        fake_data = fake_data.concatenate(
+            filtered_data.map(lambda _: fake_elem))
       data = data.concatenate(fake_data)
   # Batch data.
   data = data.batch(batch_size_per_process, drop_remainder=True)
-- 
2.43.0


From a88777bd9a2c01f0b591b2a7a4ae8eacefab1561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:23 +0000
Subject: [PATCH 09/14] fix: few-shot evaluation with the same split for
 training and testing

The same iterator was used for both, so the test examples were missing because
the training had exhausted it.
---
 vmoe/evaluate/fewshot.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vmoe/evaluate/fewshot.py b/vmoe/evaluate/fewshot.py
index 129d525..39bf228 100644
--- a/vmoe/evaluate/fewshot.py
+++ b/vmoe/evaluate/fewshot.py
@@ -313,8 +313,11 @@ def _get_datasets(
 ) -> Mapping[str, Tuple[DatasetIterator, DatasetIterator, int]]:
   """Returns a dict with the train&test datasets, and the num_classes of each fewshot dataset."""
 
+  # Note: Train and test never share an iterator, since one is exhausted before
+  # the other is used (and they are the same if both use the same split).
   @cachetools.cached(cache={})
-  def _get_dataset(name: str, split: str) -> DatasetIterator:
+  def _get_dataset(name: str, split: str, is_train: bool) -> DatasetIterator:
+    del is_train  # Only used as a key of the cache.
     return vmoe.data.input_pipeline.get_dataset(
         variant='fewshot', name=name, split=split, **dataset_kwargs)
 
@@ -323,7 +326,8 @@ def _get_datasets(
     return tfds.builder(name).info.features['label'].num_classes
 
   return {
-      key: (_get_dataset(name, tr_split), _get_dataset(name, te_split),
+      key: (_get_dataset(name, tr_split, True),
+            _get_dataset(name, te_split, False),
             _get_num_classes(name))
       for key, (name, tr_split, te_split) in datasets.items()
   }
-- 
2.43.0


From 691b31f33922fa5bbdae527e52e09f3708e3f3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:39 +0000
Subject: [PATCH 10/14] fix: weight decay pairs every gradient with the
 parameter of the same name

---
 vmoe/train/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vmoe/train/optimizer.py b/vmoe/train/optimizer.py
index f90ff58..89d8f66 100644
--- a/vmoe/train/optimizer.py
+++ b/vmoe/train/optimizer.py
@@ -75,11 +75,12 @@ def add_decayed_weights(
         flax.serialization.to_state_dict(updates), sep='/')
     flatparams = flax.traverse_util.flatten_dict(
         flax.serialization.to_state_dict(params), sep='/')
+    # Note: the keys of updates and params may come in different orders.
     flatupdates = dict(utils.safe_map(
         lambda k, g, p: (k, g + weight_decay_fn(k) * p),
         flatupdates.keys(),
         flatupdates.values(),
-        flatparams.values()))
+        (flatparams[k] for k in flatupdates)))
     updates = flax.serialization.from_state_dict(
         updates, flax.traverse_util.unflatten_dict(flatupdates, sep='/'))
     return updates, state
-- 
2.43.0


From 9b45731a65a3c574afc5f76fc6e8a4723ba42c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:15 +0000
Subject: [PATCH 11/14] fix: the inverse square root schedule does not become
 negative after its cooldown

---
 vmoe/train/schedule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vmoe/train/schedule.py b/vmoe/train/schedule.py
index 91b8460..d81fc20 100644
--- a/vmoe/train/schedule.py
+++ b/vmoe/train/schedule.py
@@ -16,6 +16,7 @@
 import math
 
 import jax
+import jax.numpy as jnp
 import optax
 
 
@@ -102,7 +103,8 @@ def big_vision_rsqrt_schedule(
   def _cooldown(count):
     # Note: count starts from 0, optax.join_schedules subtracts
     # decay_steps - cooldown_steps.
-    return cooldown_peak_value * (1 - count / cooldown_steps)
+    # The rate stays at 0 after the end of the schedule.
+    return cooldown_peak_value * jnp.maximum(0., 1 - count / cooldown_steps)
 
   schedules, boundaries = [], []
   # Warmup phase.
-- 
2.43.0


From c295e9c81d8e31bea38ea32805bccc98fd904e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:52 +0000
Subject: [PATCH 12/14] fix: a training step with mixup does not modify the
 given state

---
 vmoe/train/trainer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vmoe/train/trainer.py b/vmoe/train/trainer.py
index 3c5e581..86bdc65 100644
--- a/vmoe/train/trainer.py
+++ b/vmoe/train/trainer.py
@@ -934,7 +934,9 @@ def wrap_train_step_with_mixup(
       raise ValueError(f'Mixup requires a PRNGKey with the name "mixup", but '
                        f'only these were given: {sorted(state.rngs.keys())}')
     frozen_rngs = isinstance(state.rngs, flax.core.FrozenDict)
-    rngs = flax.core.unfreeze(state.rngs) if frozen_rngs else state.rngs
+    # Note: The PRNGKeys are copied, the given state must not be modified.
+    rngs = (flax.core.unfreeze(state.rngs) if frozen_rngs
+            else dict(state.rngs))
     # Apply mixup on images and labels.
     mixup_rng = rngs.pop('mixup')
     mixup_rng, next_mixup_rng = jax.random.split(mixup_rng)
-- 
2.43.0


From 78f5ef834fca3ad61f30f6ee457a3fd7ca099616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:09 +0000
Subject: [PATCH 13/14] fix: adversarial attacks on restored checkpoints get
 variables and shardings of the same structure

---
 vmoe/projects/adversarial_attacks/restore.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vmoe/projects/adversarial_attacks/restore.py b/vmoe/projects/adversarial_attacks/restore.py
index 6d9b7fc..b5edcc1 100644
--- a/vmoe/projects/adversarial_attacks/restore.py
+++ b/vmoe/projects/adversarial_attacks/restore.py
@@ -168,8 +168,9 @@ def restore_from_config(
               tree=variables_shape['params']),
   })
   loss_fn = get_loss_including_auxiliary_fn(**config.get('loss'))
-  return (flax_module, variables, variables_axis_resources, loss_fn,
-          router_keys, extra_rng_keys)
+  # The axis resources must have the same tree structure as the variables.
+  return (flax_module, variables, flax.core.freeze(variables_axis_resources),
+          loss_fn, router_keys, extra_rng_keys)
 
 
 def router_filter(mdl, _) -> bool:
-- 
2.43.0


From 4c5e4b38fe1793d0e9a601c0bec5f15fae599b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:23 +0000
Subject: [PATCH 14/14] fix: attack statistics with the indices dispatcher
 ignore the choices that exceed the capacity

---
 vmoe/projects/adversarial_attacks/restore.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vmoe/projects/adversarial_attacks/restore.py b/vmoe/projects/adversarial_attacks/restore.py
index b5edcc1..419283e 100644
--- a/vmoe/projects/adversarial_attacks/restore.py
+++ b/vmoe/projects/adversarial_attacks/restore.py
@@ -83,8 +83,11 @@ def get_combine_weights(intermediates) -> Dict[str, jnp.ndarray]:
       # (G, S, K) -> (G, S, K, E).
       indices_one_hot = jax.nn.one_hot(
           dispatcher.indices[..., 0], dispatcher.num_experts, dtype=jnp.float32)
-      combine_weights = (
-          indices_one_hot * dispatcher.combine_weights[:, :, :, None])
+      # Choices exceeding the capacity of the experts are not processed.
+      within_capacity = dispatcher.indices[..., 1] < dispatcher.capacity
+      combine_weights = jnp.where(
+          within_capacity, dispatcher.combine_weights, 0.)
+      combine_weights = indices_one_hot * combine_weights[:, :, :, None]
       # (G, S, K, E) -> (G, S, E).
       combine_weights = jnp.sum(combine_weights, axis=2)
     else:
-- 
2.43.0

