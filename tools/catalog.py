"""Single source of properties.jsonl, MANIFEST.json and the DESIGN.md table."""

def P(id, title, statement, over, qtext, why, files, mech, design, level,
      note, technique=None, hook=False):
  return dict(id=id, title=title, statement=statement, over=over, qtext=qtext,
              why=why, files=files, mech=mech, design=design, level=level,
              note=note, technique=technique, hook=hook)

MC = 'model_checking'

PROPS = [
P('C01', 'Sharded checkpoints restore the exact state that was saved',
  'A training state saved as a sharded checkpoint is restored with every array bit-identical in value, dtype and shape and the tree structure unchanged; trees with leaves that are not device arrays, and restore targets of another structure, are rejected. This holds for any mixture of array shardings and replication when saving, any number of checkpoint shards and any maximum chunk size. When restoring, the arrays may be requested with any other sharding or mesh and every device receives exactly the slice its requested sharding assigns to it.',
  ['configurations', 'inputs'],
  'all save shardings x restore shardings x shard counts x chunk sizes x dtypes x tree shapes',
  'The tests restore a few fixed trees with mocked meshes and a single sharding; the product of save and restore layouts, chunking and process counts is not sampled.',
  ['vmoe/checkpoints/partitioned.py', 'vmoe/checkpoints/types.py'],
  [('save_checkpoint / restore_checkpoint', 'vmoe/checkpoints/partitioned.py'),
   ('Slice intersection arithmetic', 'vmoe/checkpoints/types.py')],
  'spec/ShardedCkpt.tla: states = (saved slices per shard, requested slices); TLC proves over all 1-D/2-D tilings within bounds that copying the intersections of saved and requested slices rebuilds the array. The harness saves and restores real sharded jax Arrays over a TLC-enumerated set of (mesh, save spec, restore spec, shards, chunk bytes) on 8 devices and with several real processes; the judge compares cell identities read back on every device.',
  MC, 'Exhaustive on the slice arithmetic within small bounds; the real code is replayed on the enumerated layouts (8 host devices, and 2-4 real processes over loopback).'),
P('C02', 'Sharded checkpoints partition the arrays among files exactly once',
  'In a sharded checkpoint the saved pieces of each array are pairwise disjoint and together cover the array exactly, and no stored piece is larger than the requested maximum chunk size unless it is a single element. Each shard file is written by exactly one process, only with data that process can address, and the index file, written by one process, lists for every shard exactly the pieces that shard holds. The sizes of the shards written by one process differ by at most the largest stored piece.',
  ['configurations', 'schedules'],
  'all shardings, replication patterns, process layouts, shard counts and chunk sizes',
  'Tests check hand-written examples of slice assignment with mocks; no test checks the tiling of arbitrary layouts or real multi-process saves.',
  ['vmoe/checkpoints/partitioned.py', 'vmoe/checkpoints/types.py'],
  [('slice-to-shard assignment', 'vmoe/checkpoints/partitioned.py'),
   ('chunking', 'vmoe/checkpoints/types.py')],
  'spec/ShardedCkpt.tla: greedy assignment as a transition system, invariants tiling/ownership/balance. The harness saves with the real code (1-4 real processes), parses the files with the public restore functions and emits the stored pieces; TLC judges tiling, size, ownership and the index.',
  MC, 'All layouts in the TLC-enumerated set; ownership observed with real processes.'),
P('C03', 'Checkpoint saves are crash-atomic and isolated from later mutation',
  'If the process is killed at any point while a checkpoint file is being saved, the final path holds either nothing, or the complete previous content, or the complete new content, never a partial file, and a checkpoint is reported as complete only once all of its files are. An asynchronous save never changes these guarantees, reports the failure of any of its writes when waited on, and, once it is reported finished, every file is readable. Saving without permission to overwrite never alters an existing file.',
  ['crash_points', 'schedules', 'fault_sequences'],
  'every file-system operation boundary (crash or I/O error) and every interleaving of concurrent saves of different files',
  'The tests never interrupt a save, and only run sequential successful saves.',
  ['vmoe/checkpoints/base.py', 'vmoe/checkpoints/partitioned.py'],
  [('write to temporary and rename', 'vmoe/checkpoints/base.py'),
   ('asynchronous multi-file save', 'vmoe/checkpoints/base.py')],
  'spec/CkptFS.tla: files, writers with steps open/write/close/rename, crash and I/O error at any step; invariants: final path atomic, complete implies all shards. The harness records the file-system operations of real saves by wrapping the file layer, replays a crash/fault at every operation boundary in a subprocess-free simulated crash (exception that stops the world), then inspects the directory with the real discovery and restore code; TLC replays each recorded history through the CkptFS actions.',
  'fault_enumeration', 'Every operation boundary of the recorded saves is cut; crash = process stop between file-layer calls (and in the middle of a write), no power-loss reordering.'),
P('C04', 'Discovery and removal of checkpoints select exactly the right steps',
  'Given any set of files in a directory, the latest complete checkpoint for a prefix is the largest step for which all required suffixes are present as final files and no unfinished (temporary) file of that step remains; steps compare as numbers. Files of other prefixes are never mistaken for checkpoints of the prefix. Removing checkpoints deletes exactly the files selected by the caller, and adding then removing a shard suffix returns the original path.',
  ['inputs', 'histories'],
  'all directory contents made of final/temporary files of several prefixes, steps, suffixes and shards',
  'The tests mock the directory listing with two examples.',
  ['vmoe/checkpoints/base.py'],
  [('complete-step iteration', 'vmoe/checkpoints/base.py'), ('removal', 'vmoe/checkpoints/base.py')],
  'spec/CkptNames.tla: directory as a set of structured names; Complete(step) defined declaratively; TLC enumerates directories as the states of a history machine (create temp, finish, crash, remove) and the harness materialises each in a scratch directory and calls the real functions; TLC judges.',
  MC, 'All directories reachable in the bounded history machine, plus sampled larger ones.'),
P('C05', 'Serialized trees decode to the same values, dtypes and structure',
  'Serializing any tree of arrays, scalars, strings, nested containers, array slices, shapes and array chunks and decoding it gives back equal values with the same dtypes and shapes, regardless of array size, of the chunking applied to large arrays, or of zero-size and zero-dimensional arrays. Decoding into a target tree keeps the structure of the target, and truncated bytes, or bytes lacking something the target has, are rejected. Serializing never modifies the input tree.',
  ['inputs'], 'all trees over the supported leaf types, sizes around the chunk limit',
  'Tests serialize a handful of trees and one chunked array.',
  ['vmoe/checkpoints/serialization.py', 'vmoe/checkpoints/base.py'],
  [('to_bytes / from_bytes', 'vmoe/checkpoints/serialization.py')],
  'spec/Serde.tla: trees as TLC-generated terms; encoder/decoder as a rewriting machine with a chunk bound; invariant Decode(Encode(t)) = t. TLC enumerates tree shapes and chunk sizes, the harness builds real trees, round-trips them and emits both sides structurally; TLC compares.',
  MC, 'Exhaustive on enumerated tree shapes/leaf kinds; numeric content sampled including NaN/inf/denormal bit patterns.'),
P('C06', 'Token-choice routing honours top-K choices, priority and capacity',
  'When each item chooses its K best experts, an item is only ever sent to experts among its K highest gates, each expert buffer slot holds at most one item, and no expert receives more than its capacity. Choices are served by rank first (all first choices before any second choice) and, within a rank, by item order, or by decreasing best gate of the items when batch priority is enabled; a choice is dropped only if the expert is already full with choices served before it. The weight with which an expert output is combined is exactly the gate of that item and expert, and zero for dropped choices.',
  ['inputs', 'configurations'],
  'all gate matrices, K, capacities, group sizes, with and without batch priority, for both dispatcher implementations',
  'Tests check a few hand-made gate matrices; ordering under contention for arbitrary inputs is not covered.',
  ['vmoe/moe.py'],
  [('top-experts-per-item dispatcher', 'vmoe/moe.py'), ('batch prioritized routing', 'vmoe/moe.py')],
  'spec/Routing.tla: a machine that serves (rank, item) choices one by one into expert buffers; invariants Capacity, OneItemPerSlot, TopK, NoNeedlessDrop, checked by TLC over all gate rank matrices within bounds. The harness feeds TLC-enumerated and random gates through the real dispatcher and observes routing only by dispatching item ids and combining expert/slot codes; TLC judges each outcome against the machine (tie-lenient).',
  MC, 'Exhaustive for all strict rankings of small groups; random dyadic gates beyond, ties judged leniently.'),
P('C07', 'Dispatch and combine move data faithfully for every implementation',
  'Dispatching then combining equals the per-item sum, over the experts that accepted the item, of combine weight times that expert applied to that item: unaccepted items contribute zero, unused slots never leak, groups never mix and experts never see the data of another slot. The indices-based and the einsum-based implementations agree, as do any numbers of groups versus experts, any item payload shape, reduced-precision transfer (up to that precision), and any sharding over devices.',
  ['inputs', 'configurations'],
  'all routings, group/expert counts, payload shapes, device counts and dispatcher implementations',
  'Tests check shapes and a few values on one device.',
  ['vmoe/moe.py'],
  [('dispatch/combine einsum and indices', 'vmoe/moe.py'), ('reshape for expert parallelism', 'vmoe/moe.py')],
  'spec/Dispatch.tla: cells (group, expert, slot) moving through the group-by-expert transposition as index maps; TLC proves the layout is a bijection for all G,E,C,D within bounds and that combine inverts dispatch. The harness sends distinct integer payloads through real dispatchers on 1 and 8 devices and TLC judges each received cell.',
  MC, 'All (G,E,C) layouts within bounds; real runs on 1, 4 and 8 host devices.'),
P('C08', 'Expert-choice routing fills each expert with its best items',
  'When each expert chooses items, every expert takes exactly its capacity of distinct items, each item at most once per expert, and no rejected item has a higher gate for that expert than an accepted one. Combine weights are the gates of the accepted pairs and nothing else. The reported statistics (least and most experts per item, smallest and largest selected gate, share of items processed by at least so many experts) equal those of the actual routing.',
  ['inputs', 'configurations'], 'all gate matrices, capacities, group sizes',
  'Tests sample single examples.',
  ['vmoe/moe.py'], [('top-items-per-expert dispatcher', 'vmoe/moe.py'), ('metrics', 'vmoe/moe.py')],
  'spec/ExpertChoice.tla: machine in which each expert repeatedly takes its best remaining item; invariants. Same black-box observation as C06; metrics recomputed in TLA+ as exact rationals.',
  MC, 'Exhaustive small rankings, random beyond; metrics within float tolerance.'),
P('C09', 'Expert capacity follows the configured factor, rounding and limits',
  'The capacity of each expert equals the number of tokens times the number of selected experts times the capacity factor divided by the number of experts, rounded up or to nearest as requested, and then rounded up to the next multiple when a multiple is requested; a result below one is rejected. When experts choose items, the selected experts do not multiply the tokens. A capacity given explicitly is used as is, and giving both or neither of capacity and factor is rejected.',
  ['inputs', 'configurations'], 'all token counts, expert counts, factors, rounding modes and multiples',
  'Tests sample a few combinations.',
  ['vmoe/moe.py'], [('compute_capacity', 'vmoe/moe.py'), ('get_dispatcher', 'vmoe/moe.py')],
  'spec/Capacity.tla: exact rational definition; TLC enumerates the grid and checks the algebraic laws as invariants; the harness evaluates the real function on every grid point and the judge compares each value.',
  MC, 'Exhaustive on the enumerated grid.'),

P('C10', 'Ensemble members are routed independently within their own experts',
  'With an efficient ensemble, the batch is replicated once per member and every item of a member is routed only to the experts which belong to that member, with gates normalised over the experts of that member only. The routing, noise, losses and predictions of one member never depend on the parameters, contents or gates of another member: each member computes what the ordinary model with only its experts computes. Replicas are laid out so that each member sees every input exactly once and in order.',
  ['inputs', 'configurations'], 'all ensemble sizes, expert counts, K, capacities and batches',
  'Tests check shapes and a single example.',
  ['vmoe/nn/ensemble_routing.py', 'vmoe/nn/vit_moe_ensemble.py'],
  [('ensemble router', 'vmoe/nn/ensemble_routing.py'), ('tiling', 'vmoe/nn/vit_moe_ensemble.py')],
  'spec/Ensemble.tla: members with disjoint expert blocks, routed by the Routing machine; non-interference as an invariant over pairs of runs (self-composition). The harness drives the real ensemble router and model with perturbed members; TLC judges reachability of experts and non-interference.',
  MC, 'Small ensembles exhaustively in the model; real runs on enumerated configurations.'),
P('C11', 'Soft MoE mixes tokens of a group with softmaxes of one set of scores',
  'In soft mixture-of-experts routing, every slot receives a convex combination of the tokens of its own group (softmax over tokens) and every token receives a convex combination of the outputs of all slots of all experts (softmax over slots), both of the same scores: scale times the cosine of token and slot parameter, plus, when not deterministic, noise of the configured scale, fresh for every score. Groups never influence one another. The number of slots per expert is the configured one or follows from the capacity factor, and reported weight and slot-similarity statistics are those of the actual weights.',
  ['inputs', 'configurations'], 'all token values, group counts, slot and expert counts, including normalisation options',
  'Tests check shapes and one example.',
  ['vmoe/projects/soft_moe/router.py'], [('soft router', 'vmoe/projects/soft_moe/router.py')],
  'spec/SoftMoE.tla: slots and tokens with rational weights; invariants convexity, isolation, equivariance. The harness observes the weights through dispatch/combine of one-hot data and TLC checks sums, isolation and consistency of dispatch/combine scores by cross-ratio.',
  MC, 'Numeric clauses are checked on fixed-point observations with a stated tolerance.'),
P('C12', 'MoE layers group tokens, use one expert per slot and place layers right',
  'A MoE layer splits all tokens of the batch, in order, into groups of the configured size and puts the outputs back in the same order, and rejects sizes which do not divide; each expert applies its own parameters, initialised independently when rngs are split, so that the output of a token is the weighted sum of the accepting experts applied to that token only. Exactly the configured encoder layers are MoE layers and each router contributes its auxiliary loss once to the total. As long as no expert is over capacity, predictions depend neither on the group size nor on the other images of the batch, and they depend on the order of the patches only through position embeddings.',
  ['inputs', 'configurations'], 'all batch/sequence/group sizes, expert counts and layer selections',
  'Tests of these modules are not run in this environment and check shapes only.',
  ['vmoe/nn/vit_moe.py', 'vmoe/moe.py'], [('MlpMoeBlock, EncoderMoe, VisionTransformerMoe', 'vmoe/nn/vit_moe.py')],
  'spec/MoeLayer.tla: grouping/ungrouping as index maps (bijection proved by TLC over all sizes), layer selection and auxiliary-loss accounting as a machine walking the encoder. The harness runs the real modules with counting experts and integer payloads; TLC judges.',
  MC, 'Enumerated shapes and layer selections; the external ViT library is replaced by a stand-in.'),
P('C13', 'Logical device meshes use every device once with the requested shape',
  'A logical mesh uses every available device exactly once, with the requested number of partitions (at most one per device) on the expert axis and the replicas on the other, each partition being a block of consecutive devices of every hardware axis, filled in the documented order of the axes. The devices of a process form a contiguous slice of the mesh whenever each process holds whole partitions or a whole fraction of one along every axis, and the mesh is identical on every process. Requests that are not products of divisors of the hardware axes are rejected.',
  ['configurations'], 'all hardware meshes (devices, cores, processes, coordinates) and requested shapes',
  'Tests cover a handful of mocked topologies.',
  ['vmoe/partitioning.py'], [('get_auto_logical_mesh', 'vmoe/partitioning.py')],
  'spec/Mesh.tla: machine which builds the mesh, tests contiguity and refines by process, over all small meshes, blocks and requests (spec/MeshRules.tla states what a good mesh is). MeshGen enumerates TPU and CPU/GPU topologies; the harness describes such devices to the real functions as seen from several processes, and builds meshes of real devices of 2 and 3 processes; MeshTrace judges.',
  MC, 'All meshes up to the bounds.'),
P('C14', 'Axis resources are assigned by the first matching rule only',
  'Given ordered pairs of pattern and partition spec, every parameter of a tree gets the spec of the first pattern that occurs anywhere in its full path; parameters that match none, or with at most one element, are replicated. The assignment keeps the structure of the tree, whatever its containers, and does not depend on the order of the parameters. Specs may be written as a name, a tuple, nested tuples or nothing, with the same meaning.',
  ['inputs', 'configurations'], 'all parameter trees and rule lists',
  'Tests use one tree.',
  ['vmoe/partitioning.py'], [('tree_axis_resources_from_regexes', 'vmoe/partitioning.py')],
  'spec/AxisRules.tla: machine trying the rules for every parameter in any order; RegexGen enumerates patterns over a small alphabet and spec/Regex.tla defines when they occur in a path. The harness runs the real function on random trees (dicts, sequences, structs, train states); AxisRulesTrace judges every leaf.',
  MC, 'Exhaustive over enumerated path/rule alphabets.'),
P('C15', 'Evaluation data is seen exactly once, padding is marked as fake',
  'When iterating an evaluation split that gives every process at least one example, every example (that passes the filter, if any) is delivered by exactly one process, exactly once and marked valid, and every other delivered position is marked as not valid. All processes deliver the same number of batches, all of the global batch size divided by the number of processes, whatever the filter; a batch size not divisible by the numbers of processes and devices is rejected. Training data is repeated forever, every process delivering each example of its share once per epoch (up to the shuffling buffer), and the shares partition the split.',
  ['inputs', 'configurations', 'schedules'], 'all dataset sizes, batch sizes, process counts and filters',
  'Tests use one size and one process.',
  ['vmoe/data/input_pipeline.py', 'vmoe/data/builder.py'], [('get_dataset', 'vmoe/data/input_pipeline.py')],
  'spec/EvalPipeline.tla: machine splitting N examples among P processes with padding; invariants exactly-once and equal batches. The harness builds in-memory datasets for every (N, B, P) of the TLC grid and emits what each process is delivered; TLC judges.',
  MC, 'All sizes within the grid.'),
P('C16', 'Prefetching to devices preserves order and content and is lazy',
  'Iterating over data prefetched to devices yields the elements of the source iterator, once each, in order, for every buffer size including none, and then stops; if the source fails, a prefix of what it gave is yielded and the error surfaces. At most the buffer size of elements is taken ahead of the consumer, and the buffer is kept full while the source lasts. The local device of rank r in the mesh holds the r-th equal slice of the rows of its process (other batch sizes are rejected), the global shape and sharding are those announced by the shape structures, and strings and ragged tensors are left on the host.',
  ['schedules', 'inputs', 'configurations'], 'all source lengths, buffer sizes, consumption histories and shardings',
  'Tests iterate one source with one size.',
  ['vmoe/data/pjit_utils.py'], [('prefetch_to_device', 'vmoe/data/pjit_utils.py')],
  'spec/Prefetch.tla: bounded queue between source and consumer with source errors; invariants order, no loss, lookahead bound; TLC behaviours (source length, size, pulls, error position) are replayed into the real iterator and recorded traces judged against the queue.',
  MC, 'All histories within bounds.'),
P('C17', 'Evaluation metrics count every valid example exactly once',
  'For every data set with a valid example, the reported loss and precision are the sums over its valid examples, under the parameters passed in that call, divided by the number of valid examples, independently of how the data is split in batches, devices and processes and of the (finite) content of padding. This holds at every evaluation of a history: each covers all its data sets again, runs exactly at the configured steps, and leaves the parameters untouched. Every batch uses fresh random keys, and the same keys are used at every evaluation.',
  ['inputs', 'configurations', 'histories'], 'all data sizes, batch splits, paddings and device counts',
  'Tests mock the evaluation step.',
  ['vmoe/evaluate/evaluator.py'], [('evaluate_dataset and evaluation step', 'vmoe/evaluate/evaluator.py')],
  'spec/Evaluate.tla: accumulator machine over arbitrary batchings; invariant: final = sum over valid / count. The harness evaluates real datasets with every batching of the TLC grid; TLC judges exact integer sums.',
  MC, 'Enumerated batchings, 1 and 8 devices.'),
P('C18', 'Few-shot evaluation fits and scores on exactly the intended examples',
  'For each number of shots k, the few-shot classifier is the L2-regularised least squares fit (whitened features, nearly unregularised bias) on exactly min(k, available) valid training examples of every class, in an order per class that depends only on the seed and is shared by all k, and the accuracy is the share of valid test examples whose label gets the highest score. Padding, batching, devices and processes make no difference, also when training and test split coincide. One regularisation strength per number of shots is chosen, the one of best mean rank over all data sets, and evaluations with the same seed report the same numbers.',
  ['inputs', 'configurations'], 'all label distributions, shots, paddings and batch splits',
  'Tests use a toy dataset and mocks.',
  ['vmoe/evaluate/fewshot.py'], [('few-shot evaluator', 'vmoe/evaluate/fewshot.py')],
  'spec/Fewshot.tla: selection machine scanning examples with a per-class quota; the harness runs the real evaluator with features that identify each example and emits selection and scores; TLC judges.',
  MC, 'Enumerated label sequences; least squares judged by exact rational optimality on small integer features.'),
P('C19', 'Ensemble losses and predictions average the right members',
  'Evaluation losses and predicted classes of an ensemble use, for every example in order, the mean over its own members of their (softmax or sigmoid) probabilities, whatever the ensemble size; training losses compare every member with the label of its own example. With one member all equal the single-model quantities; losses are linear in the labels, finite for extreme logits, and classes of zero probability and zero label contribute nothing to the softmax evaluation loss. Members are never mixed across examples.',
  ['inputs', 'configurations'], 'all ensemble sizes, batch sizes and logits',
  'Tests sample one shape.',
  ['vmoe/evaluate/ensemble.py'], [('ensemble losses and predictions', 'vmoe/evaluate/ensemble.py')],
  'spec/EnsembleEval.tla: (example, member) index maps and averaging over rationals; harness drives the real functions with logits giving exact probabilities; TLC judges.',
  MC, 'Enumerated sizes, exact power-of-two probabilities.'),
P('C20', 'Interrupted training resumes to the same result as uninterrupted runs',
  'If training is stopped at any point and started again with the same configuration, it resumes from the latest saved step, performs exactly the remaining steps, never repeats or skips a step counted in the state, and ends at the configured total with the same state as a run that was never stopped, given the same data; starting a finished run again trains no further and changes nothing. Checkpoints are written at the start, at exactly the configured steps and at the final step, and a finished run has kept exactly those that its retention settings name (but for one whose writing a kill interrupted). Every step is reported with its own number, evaluations happen at their configured steps, and the number of steps follows from exactly one of steps and epochs.',
  ['crash_points', 'histories'], 'all stop points, checkpoint periods, retention settings and numbers of restarts',
  'Tests of the trainer are not run in this environment and never interrupt training.',
  ['vmoe/train/trainer.py'], [('train_and_evaluate', 'vmoe/train/trainer.py'), ('checkpoint hook', 'vmoe/train/trainer.py')],
  'spec/TrainLoop.tla: step counter, checkpoint store with retention, crash/restart actions; invariants on resume point and schedule, checked exhaustively by TLC; TLC crash histories are replayed into the real training loop (toy model, real checkpoint manager) and every recorded event is judged by the same actions.',
  'fault_enumeration', 'All crash histories within bounds for the model; a covering subset for the real loop.'),
P('C21', 'A training step applies the mean gradient of the whole batch once',
  'A training step moves the parameters by one optimizer update of the gradient of the mean loss plus auxiliary losses over the whole batch, whatever the number of gradient accumulation steps, devices or shardings, and increments the step by exactly one. Every step uses fresh randomness derived from the state, different micro-batches use different randomness, and identical states and batches give identical results. Accumulation settings which do not divide the batch are rejected.',
  ['inputs', 'configurations', 'histories'], 'all batch sizes, accumulation counts, device counts and step histories',
  'Tests of the trainer are not run here and compare a single case.',
  ['vmoe/train/trainer.py', 'vmoe/utils.py', 'vmoe/train/train_state.py'], [('train_step, gradient accumulation', 'vmoe/train/trainer.py')],
  'spec/TrainStep.tla: accumulation machine over integer gradients; invariant accumulated mean = full-batch mean; rng as a counter of derived keys never reused. The harness runs the real step on integer-valued linear models and records params, steps and keys; TLC judges.',
  MC, 'Integer-exact linear models, enumerated splits, 1 and 8 devices.'),
P('C22', 'Optimizers update exactly the intended parameters in the intended order',
  'Every gradient passes, in this order, the scale of the first rule found in the name of its parameter, clipping (each value, or all together by their global norm), the direction of the named optimizer (momentum, Adam or Adafactor), the weight decay of the first rule found in its name times the value of the same parameter, and the learning rate of its step. Frozen parameters never change, whatever the momentum or decay; all others do. The result does not depend on the order or containers of the parameters or on compilation, and contradictory or unknown settings are rejected.',
  ['inputs', 'configurations', 'histories'], 'all parameter trees, rules, clipping thresholds and gradients',
  'Tests sample single configurations.',
  ['vmoe/train/optimizer.py'], [('create_optimizer', 'vmoe/train/optimizer.py')],
  'spec/Optimizer.tla: SGD-with-momentum/decay/clip/freeze machine on integers/rationals; TLC enumerates configurations; the harness steps the real optimizer on dyadic values; TLC judges each step.',
  MC, 'Exact for SGD/momentum/decay/clip/freeze; adaptive optimizers through relations.'),
P('C23', 'Learning-rate schedules follow their definition at every step',
  'Every schedule gives a finite non-negative rate at every step, rises linearly from zero to its peak over the warm-up, joins the decay continuously, follows its named curve (linear, polynomial, cosine, inverse root with linear cooldown, exponential) without increasing, and from its last step on stays at its end value. The length is the given one or else that of the training run. Schedules are pure functions of the step, hence the same after a restart, and unknown or impossible ones are rejected.',
  ['inputs', 'configurations'], 'all steps, warm-up lengths, totals and schedule types',
  'Tests sample a few steps.',
  ['vmoe/train/schedule.py'], [('create_learning_rate_schedule', 'vmoe/train/schedule.py')],
  'spec/Schedule.tla: step-by-step machine with fixed-point values; TLC enumerates configurations, the harness evaluates the real schedule at every step, TLC judges the curve clauses.',
  MC, 'Every step of every enumerated configuration.'),
P('C24', 'Mixup blends examples and labels with the same weights and partners',
  'Mixup replaces each example and its label by the same convex combination of itself and partner examples of the batch, with non-negative weights adding up to one, where an image and its label always use the same partner and weight. Partners are the next examples of the same device, the largest weight stays with the example itself, weights are shared exactly as the granularity says and drawn anew at every step, and the given state is not modified. Batches keep their size, mixing zero partners changes nothing, and impossible settings are rejected.',
  ['inputs', 'configurations'], 'all batch sizes, mixing sizes and random keys',
  'Tests check a single draw.',
  ['vmoe/train/trainer.py'], [('mixup', 'vmoe/train/trainer.py')],
  'spec/Mixup.tla: permutations and simplex weights; judge recovers partner/weight matrix from one-hot images and labels emitted by the real function and checks equality and convexity.',
  MC, 'Observed weight matrices at fixed-point resolution.'),
P('C25', 'Checkpoint mapping rules transfer each parameter as its first rule says',
  'When parameters are initialised from a checkpoint through mapping rules, every source parameter is handled by the first rule whose pattern is found in its name (dropped, or renamed and copied, reshaped, squeezed, tiled to experts, resized or stacked in natural order of the names, with numbers compared as numbers), and each target array gets exactly the resulting values in its own shape, dtype and sharding. A source without a rule, a target that does not exist, is hit twice without stacking or stays unmatched, an empty node against a non-empty one, and a shape or dtype mismatch are each rejected or tolerated exactly as the four strictness flags say; tolerated targets keep their initial value. The result does not depend on the order of the entries of either tree.',
  ['inputs', 'configurations'], 'all rule lists, strictness flags and pairs of source/target trees',
  'Rule scan, renaming, stacking and strictness combine; the tests of these modules are not run in this environment.',
  ['vmoe/initialization/rules.py', 'vmoe/initialization/mapping.py', 'vmoe/initialization/initialization.py'], [('rules and mapping', 'vmoe/initialization/mapping.py')],
  'spec/MapRules.tla and spec/Mapping.tla: machine that scans the source names in natural order with the regular expressions of spec/Regex.tla, and applies the rule; TLC enumerates rule lists x trees x flags; the harness runs the real mapping with identity-coded arrays; TLC judges outcome, values, dtype, sharding.',
  MC, 'Exhaustive over the enumerated alphabets; the orbax variant cannot run with the installed orbax.'),
P('C26', 'A new or resumed training state has the right source, values and layout',
  'The training state starts, as a whole, from the latest complete checkpoint of the working directory (with the index of the last example that was seen); without one, the leaves that the configured initialisation from another checkpoint covers have the mapped values of that checkpoint and all others are freshly initialised, and a bad configuration is an error. Every array has the shape and dtype of a fresh state and the sharding requested by the first matching rule, and leaves that exist already are neither recomputed nor moved. Fresh values depend on the seed, with a distinct random stream for each name, and not on the number of devices or the mesh.',
  ['configurations', 'histories'], 'all combinations of existing and half-written checkpoints, initialisation settings, rules and meshes',
  'The combinations of disk contents, configuration and layout are not sampled; tests of the trainer are not run here.',
  ['vmoe/train/trainer.py', 'vmoe/initialization/initialization.py'], [('restore_or_create_train_state', 'vmoe/train/trainer.py'), ('create_or_reuse_train_state', 'vmoe/train/trainer.py')],
  'spec/InitState.tla: machine of processes that save, die and start, and fill every leaf from its source; TLC enumerates situations; the harness starts the real functions in them on meshes of 1, 2 and 4 devices; TLC judges the source, layout and shape of every leaf.',
  MC, 'Enumerated situations, sampled in the quick tier.'),
P('C27', 'Adversarial attacks walk the gradient within budget and count correctly',
  'An attack with n updates and radius eps moves every component of the image n times by eps/n along the sign of the gradient of the attacked loss at the current image (with the auxiliary loss iff requested), so that no component ever moves by more than eps, with a fresh random key for each update and one for later; adversarial training passes exactly these images and keys, and everything else unchanged, to the wrapped step, and is the plain step if n or eps is not positive. Attack statistics (images, errors, losses, changed predictions, overlap of the experts before and after) equal those recomputed from the predictions and routings of the valid images, whatever the batches, padding, storage and dispatcher; the experts listed for a token are those that contribute to its output. Stored examples are complete and in order.',
  ['inputs', 'configurations', 'histories'], 'all images, gradients, radii, numbers of updates, masks and routings',
  'Tests check single examples, and those of the library are not run here.',
  ['vmoe/projects/adversarial_attacks/attacks.py', 'vmoe/projects/adversarial_attacks/lib.py', 'vmoe/projects/adversarial_attacks/restore.py', 'vmoe/train/trainer.py'],
  [('PGD attack', 'vmoe/projects/adversarial_attacks/attacks.py'), ('runs', 'vmoe/projects/adversarial_attacks/lib.py'), ('listed experts', 'vmoe/projects/adversarial_attacks/restore.py')],
  'spec/Attack.tla: signed walk of coordinates and counters of batches; TLC checks box, ascent and counters; the real attack runs on losses with integer gradients, real counters on integer facts, and whole runs on restored V-MoE checkpoints; TLC recomputes walk, counters, listed experts and reported rates.',
  MC, 'Dyadic steps, enumerated gradients; whole runs on tiny models.'),
P('C28', 'Tree summaries report every selected leaf under every matching rule',
  'A summary of a tree reports, for every leaf and every rule whose pattern is found in the name of the leaf, the value of each component of the array that results from applying the operations of the rule one after the other over their axes, as a scalar, under a name made of the path, the operations with their axes and the indices of the components. Nothing else is reported, distinct components of one array have distinct names, and the same summarizer gives the same reports again. Unknown operations, impossible axes and more components than allowed are errors instead.',
  ['inputs', 'configurations'], 'all trees, rule lists and operation chains', 'Tests use one tree.',
  ['vmoe/train/tree_summarizer.py', 'vmoe/train/trainer.py'], [('TreeSummarizer', 'vmoe/train/tree_summarizer.py')],
  'spec/Summaries.tla: machine scanning leaves and rules, with arrays, reductions and names; TLC checks that nothing is lost or reported twice and that names tell components apart; the real summarizer runs on random integer trees with patterns enumerated by TLC; TLC recomputes names and values.',
  MC, 'Arrays of up to 12 integers, patterns over a small alphabet.'),
P('C29', 'Preprocessing expressions build exactly the operations they spell',
  'A preprocessing expression is parsed into the operations it names, applied left to right with exactly the arguments, keys and defaults it spells; unknown names, malformed text and arguments that are not literals are rejected, and nothing in the text is ever executed as code. Every operation changes only the key it writes (`keep` also retains the validity mask), and writes what its definition says: centred crops, flips with probability 1/2, random crops within the area limits, resizing that preserves the type, (multi-)hot labels with the given on/off values, affine rescaling of value ranges with optional clipping, decoded images, validity of examples without labels. Examples that are not dictionaries or lack a key that is read are rejected.',
  ['inputs', 'programs'], 'all expressions over the operation grammar, all examples', 'Tests parse a few strings and apply single operations to single images.',
  ['vmoe/data/pp_ops.py', 'vmoe/data/input_pipeline.py', 'vmoe/utils.py'], [('preprocess parsing', 'vmoe/data/input_pipeline.py'), ('parse_call', 'vmoe/utils.py'), ('operations', 'vmoe/data/pp_ops.py')],
  'spec/Preproc.tla: an interpreter of operation programs over examples (spec/PreRules.tla: set of possible results of every operation, exact to 1/10000), checked by TLC for frame and all-or-nothing rejection; TLC enumerates programs and call expressions, the harness renders them, runs the real parser and operations (eagerly and inside tf.data, also with unknown shapes) and TLC judges results, parsed arguments and that nothing ran.',
  MC, 'Enumerated programs, images up to 6x6.'),
P('C30', 'Periodic actions fire exactly at their configured steps on one process',
  'Every periodic action of a training run fires exactly at the steps its configuration designates, including the first and last step only when requested, never twice for the same step, and with the metrics of that step. Reports are written by one process only. Actions never run before all processes reached the step when synchronisation is requested.',
  ['histories', 'schedules', 'configurations'], 'all periods, start steps, totals and restarts', 'Tests call actions at a few steps.',
  ['vmoe/train/periodic_actions.py', 'vmoe/evaluate/evaluator.py'], [('periodic actions', 'vmoe/train/periodic_actions.py')],
  'spec/Periodic.tla: step counter with restarts and actions; harness steps the real actions through TLC histories; TLC judges the fired steps.',
  MC, 'All histories within bounds.'),
P('C31', 'Combining parallel trees never pairs different entries',
  'Zipping trees or dictionaries pairs values of the same key only, in any order, and rejects inputs with different keys; partitioning and merging a tree by a rule gives back the original tree and puts each leaf in exactly the part its rule designates.',
  ['inputs'], 'all trees/dictionaries', 'Tests use single examples.',
  ['vmoe/utils.py'], [('safe_zip / safe_map', 'vmoe/utils.py')],
  'spec/Trees.tla: maps; enumerated by TLC; real functions judged.', MC, 'Enumerated trees.'),
P('C32', 'Contrastive training compares each image with its own text',
  'The contrastive loss treats exactly the pairs of same position over the whole global batch as positives and all other pairs as negatives, is symmetric in the two modalities and does not depend on how the batch is split over devices. Evaluation retrieves with the same similarity and counts a hit only for the paired items.',
  ['inputs', 'configurations'], 'all batch sizes, device counts and embeddings', 'Tests check shapes.',
  ['vmoe/projects/contrastive/trainer.py', 'vmoe/projects/contrastive/models.py', 'vmoe/projects/contrastive/evaluators.py'], [('contrastive loss', 'vmoe/projects/contrastive/trainer.py')],
  'spec/Contrastive.tla: pair matrix; harness on enumerated embeddings; TLC judges.', MC, 'Enumerated embeddings.'),
P('C33', 'Routers are deterministic when asked and their losses measure balance',
  'In deterministic mode the router adds no noise and needs no randomness, and identical inputs give identical gates; otherwise Gaussian noise of the configured scale divided by the number of experts is added to the logits, afresh for every random key. The gates of each item are a probability distribution over the experts (the softmax of its logits). The importance and load losses are the squared coefficients of variation over experts of, respectively, the summed noise-free gates and the mean probability of exceeding the last selected noisy logit; the total auxiliary loss is the weighted sum, and expert-choice routing has none.',
  ['inputs', 'configurations'], 'all inputs, expert counts and noise settings', 'Tests check single examples.',
  ['vmoe/nn/routing.py'], [('noisy top experts router', 'vmoe/nn/routing.py')],
  'spec/RouterLoss.tla: rational CV^2 of importance vectors; metamorphic relations; harness emits gates/losses; TLC judges.', MC, 'Fixed-point tolerance stated in the module.'),
]
