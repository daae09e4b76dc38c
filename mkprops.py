#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that ids/anchors stay consistent)."""
import json, os
W="src/megatron/energon/"
P=[]
MECH={
"C01":[("per-worker checkpoint history + exact offset replay","savable_loader.py:SavableDatasetWrapper"),("stage save_state/restore_state","wrappers/*.py")],
"C02":[("SimpleSavableDatasetWrapper + stage states","savable_loader.py")],
"C03":[("offset accumulation in SavableCheckpoint / next worker id","savable_loader.py:SavableDataLoader.restore_state_rank")],
"C04":[("command thread and lock around loading","savable_loader.py:_command_thread, _worker_command")],
"C05":[("WorkerRng / deterministic sharding","rng.py, flavors/webdataset/sharder.py")],
"C06":[("split of samples over workers","flavors/webdataset/sharder.py")],
"C07":[("shuffled shard order over n epochs, open-shard state","flavors/webdataset/sample_loader.py")],
"C08":[("consecutive split by global worker id, rotation offset","flavors/webdataset/sharder.py, worker.py")],
"C09":[("restore keys pushed by each stage","flavors/base_dataset.py, wrappers/*.py")],
"C10":[("gather/scatter of rank states","savable_loader.py:save_state_global/restore_state_global")],
"C11":[("retrying read stream","retry_stream.py")],
"C12":[("handler around user calls","wrappers/*.py, errors.py")],
"C13":[("SavableSampleBuffer and flush at end","wrappers/buffer.py, batch/group/packing datasets")],
"C14":[("active iterator kept across epochs; limit reset","wrappers/epochize_dataset.py, limit_dataset.py")],
"C15":[("weighted draw, exhausted datasets removed","wrappers/blend_dataset.py")],
"C16":[("readers advanced in lock step, key check","flavors/webdataset/joined_webdataset.py")],
"C17":[("tmp-file then move","flavors/webdataset/prepare.py, itar.py")],
"C18":[("tar offsets recorded while scanning","flavors/webdataset/prepare.py, itar.py")],
"C19":[("stateless(restore_seeds=True), FreezeRngs","task_encoder/base.py, savable_loader.py, rng.py")],
"C20":[("SampleIndex and batch index stacks","wrappers/base.py, worker.py")],
"C21":[("worker polling / shutdown","savable_loader.py")],
"C22":[("per-worker log file","worker.py:worker_log, wrappers/log_sample_dataset.py")],
"C23":[("typed conversion","typed_converter.py")],
"C24":[("padding collate","task_encoder/base.py")],
}
def p(id,title,statement,over,qtext,why,files,**anch):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
                  why_tests_cant=why,anchors=dict(files=[W+f for f in files],mechanism=[dict(name=a,where=b) for a,b in MECH[id]],**anch)))

p("C01","Resume with worker processes reproduces the uninterrupted stream",
 "With loader worker processes, a state saved between any two delivered batches and restored into a freshly built, identically configured loader makes that loader deliver exactly the batches the uninterrupted run would have delivered next: same contents, same order, nothing repeated, nothing missing. This holds for every pipeline of stages, worker count, save point (including before every worker has delivered, at and after an epoch end) and internal checkpoint interval, and however far the workers had read ahead.",
 ["configurations","schedules","crash_points"],
 "all pipelines built from the public stages x 1..4 workers x every save position x every process/thread interleaving and clock reading",
 "Tests save at a few fixed positions with real timing; the outcome depends on how far workers prefetched, on which internal checkpoints were kept (wall clock) and on which worker is next.",
 ["savable_loader.py","worker.py","wrappers/base.py","wrappers/map_dataset.py","wrappers/batch_dataset.py","wrappers/shuffle_buffer_dataset.py","wrappers/packing_dataset.py","wrappers/group_batch_dataset.py","wrappers/epochize_dataset.py","flavors/webdataset/sample_loader.py","rng.py"])
p("C02","Resume without worker processes reproduces the uninterrupted stream",
 "When the loader runs without worker processes, a state saved between any two delivered batches and restored, either into a freshly built loader or into the already used one, makes the following batches identical in content and order to the uninterrupted run. The batch and sample numbering seen by user code and the restore keys also continue where they stopped.",
 ["configurations","crash_points","histories"],
 "all pipelines x every save position x restore into fresh or used loader x repeated save/restore",
 "Tests cover few pipelines and positions; state is spread over a dozen stages and each must save, restore and discard all of its own state.",
 ["savable_loader.py","wrappers/epochize_dataset.py","wrappers/limit_dataset.py","wrappers/repeat_dataset.py","wrappers/concat_dataset.py","wrappers/blend_dataset.py","wrappers/buffer.py","wrappers/iter_map_dataset.py","wrappers/filter_dataset.py","flavors/webdataset/sample_loader.py","rng.py"])
p("C03","Chains of crash, restore and save never drift",
 "Any sequence of crash, restore, consume and save steps, including saving again right after a restore before any batch was fetched and restoring the same state several times, yields a combined stream equal to the uninterrupted one. A saved state is self-contained and stays valid however far the run that produced it continues.",
 ["histories","crash_points","schedules"],
 "all sequences of save / kill / restore / consume over the life of a training job, at all positions, for any interleaving",
 "A unit test restores once; drift shows only after restoring a state that itself was taken from a restored run, with worker rotation and skip-ahead composed.",
 ["savable_loader.py","worker.py","flavors/webdataset/sample_loader.py","wrappers/buffer.py"])
p("C04","Saving a state never disturbs, blocks or fails the run",
 "Asking for the state at any moment between two batches always returns within bounded time and never raises, never changes the batches delivered afterwards, and reflects exactly the batches delivered so far, not those merely prefetched by workers.",
 ["schedules","histories","configurations"],
 "every moment and frequency of saving, every interleaving of the command channel with loading, stalls of workers, any clock behaviour",
 "Depends on the race between the request channel, the lock around loading, prefetching and the internal checkpoint history.",
 ["savable_loader.py"])
p("C05","The stream does not depend on timing",
 "For a fixed configuration and seed, the sequence of batches each rank delivers is a function of the configuration only: it does not change with process or thread scheduling, worker speed, stalls, clock readings or the internal checkpoint interval, and building the loader again gives the same sequence.",
 ["schedules","configurations"],
 "all interleavings, stalls, clock jumps and checkpoint intervals",
 "A test observes one schedule; divergence needs a particular interleaving.",
 ["savable_loader.py","worker.py","rng.py","wrappers/blend_dataset.py","wrappers/shuffle_buffer_dataset.py","flavors/webdataset/sample_loader.py","task_encoder/base.py"])
p("C06","A validation pass covers every sample exactly once across ranks and workers",
 "One full pass over a validation split, summed over all ranks and all workers, delivers every sample of the split exactly once, whatever the number of ranks, workers, shards and samples and the slicing of shards. Each following pass delivers the same set again, and the shares of any two workers differ by at most one sample. For a single dataset with a fixed batch size, len() of the loader is the number of batches which a pass delivers on that rank.",
 ["configurations","schedules"],
 "all shard layouts (incl. fewer samples than workers), world sizes, worker counts, slicing limits, joins and concatenations",
 "Partitioning arithmetic has edge cases at every boundary between shard, slice, worker and rank.",
 ["flavors/webdataset/sharder.py","flavors/webdataset/sample_loader.py","flavors/webdataset/single_shard_reader.py","wrappers/concat_dataset.py","task_encoder/base.py"])
p("C07","Training epochs sample without replacement",
 "In training, each worker visits every sample of its share exactly n times in every window of n of its epochs when shuffling over n epochs, for any number of concurrently opened shards, also when the run is killed and resumed inside the window. Excluded samples or shards are never delivered and do not disturb the others.",
 ["configurations","crash_points","histories"],
 "all shard layouts x parallel shard counts x shuffle windows x resume points x exclude lists",
 "Needs long histories over randomised shard orders and resume points inside open shards.",
 ["flavors/webdataset/sample_loader.py","flavors/webdataset/single_shard_reader.py","flavors/webdataset/metadata.py","flavors/webdataset/sharder.py"])
p("C08","Same global batches for any split into ranks and workers",
 "Two runs whose product of world size and workers per rank is equal deliver the same global batches: collecting, for each step, the batches of all ranks in order gives the same sequence of global batches, whatever the split. No two global workers share data, and datasets blended together are rotated so that leftover samples spread over different workers.",
 ["configurations","schedules"],
 "all factorisations of the global worker count, dataset layouts, blends and seeds",
 "Requires several multi-process runs of different shape to be compared batch by batch.",
 ["flavors/webdataset/sharder.py","worker.py","task_encoder/base.py","savable_loader.py","rng.py"])
p("C09","A restore key reproduces its sample",
 "The restore key attached to any delivered sample, batch or pack, used later on a loader built for the same configuration in any process that has the sample's shard, reproduces that item with identical content, key and deterministic augmentation. Requesting items this way does not change the batches delivered by iteration. A pipeline with a function which is not declared repeatable says that it cannot restore, and refuses.",
 ["inputs","configurations","histories"],
 "every delivered item of every pipeline whose functions are declared restorable, including after a resume, with generators, grouping, packing, joins, excludes and skipped samples",
 "The key is assembled by all stages; a single stage numbering wrongly after an unusual history breaks it.",
 ["savable_loader.py","flavors/base_dataset.py","wrappers/map_dataset.py","wrappers/batch_dataset.py","wrappers/group_batch_dataset.py","wrappers/packing_dataset.py","wrappers/iter_map_dataset.py","wrappers/blend_dataset.py","flavors/webdataset/sample_loader.py","flavors/webdataset/single_shard_reader.py","flavors/webdataset/joined_webdataset.py","task_encoder/base.py"])
p("C10","Distributed save and restore gives each rank its own state",
 "Saving and restoring through the distributed interface, gathered to all ranks or to one rank and scattered back, resumes every rank of the group exactly where that rank stood, in whatever order ranks reach the calls. Ranks that are not the destination obtain no state, and with no state given every rank starts from the beginning.",
 ["schedules","configurations","crash_points"],
 "world sizes, destination/source ranks, arrival orders, ranks at different positions, crash of the whole job after the save",
 "Needs several ranks running concurrently with a collective transport.",
 ["savable_loader.py","worker.py"])
p("C11","Read faults never yield wrong data",
 "When reading shard data hits transient errors or short reads from storage, what is delivered is byte-identical to a fault-free run, provided fewer consecutive failures than the retry budget occur. When storage stays broken an error is raised; data is never silently truncated, duplicated, shifted or replaced.",
 ["fault_sequences","inputs"],
 "all sequences of open, read and seek errors and short reads at every offset and size",
 "Tests read healthy local files only.",
 ["retry_stream.py","flavors/webdataset/itar.py","flavors/webdataset/single_shard_reader.py"])
p("C12","Failing samples are isolated",
 "A sample, group, pack or batch whose processing function raises an ordinary error or asks to be skipped is dropped alone: all other samples are still delivered, in the same order and grouping rule, with correct restore keys and resumable state. Errors that denote a broken program or environment, or that the configured handler re-raises, surface to the consumer instead of being swallowed.",
 ["fault_sequences","inputs","crash_points"],
 "failures at any call of any user function, alone or combined, with and without resume afterwards",
 "Combinatorial in which call of which stage fails and in the state saved around it.",
 ["wrappers/map_dataset.py","wrappers/batch_dataset.py","wrappers/group_batch_dataset.py","wrappers/packing_dataset.py","wrappers/iter_map_dataset.py","errors.py","wrappers/_log_exception.py","wrappers/skip.py","flavors/webdataset/error_handler.py"])
p("C13","Buffering stages conserve samples",
 "Shuffle buffering, batching, grouping and packing neither lose nor duplicate nor alter samples: every input sample ends in exactly one output item, apart from those dropped by an explicit drop-last setting or by user functions, also at the end of the data and across kill and resume. Every function the task encoder defines for a stage is applied to every item of that stage. Batches have the configured size except possibly the last of a pass or group, and a group never mixes group keys.",
 ["configurations","inputs","crash_points"],
 "all stage combinations, buffer and batch sizes, group functions, packing functions, data lengths and resume points",
 "Boundary conditions between buffers, end of data and restore are combinatorial.",
 ["wrappers/shuffle_buffer_dataset.py","wrappers/batch_dataset.py","wrappers/group_batch_dataset.py","wrappers/packing_dataset.py","wrappers/buffer.py"])
p("C14","Epoch lengths and limits are exact",
 "With a virtual epoch length of L, every epoch of a rank delivers exactly L batches and the next epoch continues with the following data instead of restarting; with a limit of L a pass delivers at most L batches and every pass starts again from the beginning. Both hold for any number of workers, for lengths not divisible by or smaller than it, and when resumed inside an epoch.",
 ["configurations","crash_points","schedules"],
 "all lengths, worker counts, epochs and resume points",
 "Splitting over workers and state at the epoch boundary interact with prefetching and resume.",
 ["wrappers/epochize_dataset.py","wrappers/limit_dataset.py","wrappers/repeat_dataset.py","savable_loader.py"])
p("C15","Blending respects weights and membership",
 "A blend draws each next sample from its datasets with probability proportional to the effective (nested, normalised) weights, keeps drawing while any dataset has samples on that worker, and keeps each dataset's own order and without-replacement guarantee. A dataset with no samples on a worker does not stall or bias the others, and every sample carries the subflavor settings of its own dataset.",
 ["configurations","inputs","schedules"],
 "all weights, nesting, dataset sizes (incl. empty shares), worker counts, resume points",
 "Statistical and per-worker edge cases are invisible in a short single run.",
 ["wrappers/blend_dataset.py","metadataset/metadataset.py","metadataset/metadataset_v2.py","task_encoder/base.py","wrappers/mix_batch_dataset.py"])
p("C16","Joined datasets stay aligned",
 "Joining datasets combines, for every delivered sample, the parts that carry the same sample key, through sharding, slicing, shuffling, resume and restore by key. A mismatch of keys or lengths is reported as an error and never produces a wrongly combined sample.",
 ["inputs","configurations","crash_points","fault_sequences"],
 "all layouts, slice limits, orders, resume points and single-sample mismatches between the joined datasets",
 "Alignment must hold at each slice and resume boundary of several files read in parallel.",
 ["flavors/webdataset/joined_webdataset.py","metadataset/join_dataset_loader.py","metadataset/metadataset_v2.py","flavors/webdataset/sample_loader.py","flavors/webdataset/single_shard_reader.py"])
p("C17","Preparation is crash-consistent",
 "If dataset preparation is killed or hits a storage error at any point, whatever a reader then finds is either a complete earlier version, a complete new version or an explicit error: never a truncated index, shard list or split that loads as a smaller or shifted dataset. Running the preparation again completes it, and a shard that cannot be read is left out of the result instead of being half included.",
 ["crash_points","fault_sequences","schedules"],
 "kill or I/O error at every file operation, first preparation or re-preparation over an older one, any worker interleaving",
 "Unit tests never interrupt the preparation.",
 ["flavors/webdataset/prepare.py","flavors/webdataset/itar.py","epathlib/epath.py"])
p("C18","The prepared index matches the archive",
 "After preparation, sample counts, per-sample offsets, splits and detected parts describe exactly the archive contents, in shard order and independent of how many preparation workers ran or how they were scheduled. Reading any range of samples through the index gives the same samples and bytes as reading the archive sequentially.",
 ["inputs","schedules"],
 "all archives (long names, meta files, directories, multi-dot names, empty and one-sample shards), worker counts and interleavings, all sample ranges",
 "The input space of archive layouts and ranges is unbounded.",
 ["flavors/webdataset/prepare.py","flavors/webdataset/itar.py","flavors/webdataset/single_shard_reader.py","flavors/webdataset/config.py"])
p("C19","Declared-reproducible randomness is reproducible and contained",
 "A processing function declared to have its random seeds restored produces, for a given sample position, the same result on every run, after every resume and when restored by key, different positions and workers get different randomness, and calling it leaves the surrounding random state untouched. Randomness drawn by other user functions continues exactly after a resume with worker processes.",
 ["schedules","histories","configurations"],
 "all interleavings of processes, generators suspended midway, resume points, restoring a key in another process",
 "Hidden global generator state is shared by all stages of a process; leaks need particular call orders.",
 ["task_encoder/base.py","rng.py","worker.py","savable_loader.py","wrappers/base.py"])
p("C20","Batch and sample numbering is unique and monotonic",
 "The batch number visible to user code strictly increases along each worker, is unique among the workers of a rank and is the same on every rank for the same batch position; the sample number seen by each processing function is unique per function among a rank's workers. Both continue without gap or repetition after a resume.",
 ["schedules","histories","crash_points"],
 "worker counts, resume points (with rotated workers), skipped samples, nested stages",
 "Numbers come from per-process stacks and worker rotation, only visible inside concurrent workers.",
 ["worker.py","wrappers/base.py","savable_loader.py","task_encoder/base.py"])
p("C21","A dead or failing worker is reported, not waited for",
 "If a loader worker process fails or is killed, the consumer gets an error within bounded time from the next batch request or state request that needs this worker, instead of blocking for ever or silently losing that worker's data. Closing a loader at any time, including while workers are busy or stalled, finishes within bounded time.",
 ["fault_sequences","schedules","crash_points"],
 "worker killed or raising at any point, incl. during a state request; closing at any point",
 "Needs killing processes at chosen instants relative to queue operations.",
 ["savable_loader.py"])
p("C22","The debug log is faithful",
 "With debug logging on, every batch delivered is logged exactly once, in order, with its index and keys by the process that delivered it, each process writes only its own file, and every line is complete valid JSON, also after a kill up to the last completed batch. Logging does not change the batches delivered.",
 ["schedules","crash_points","configurations"],
 "log levels, worker counts, interleavings, kill points",
 "File ownership and ordering depend on concurrent processes and kill instants.",
 ["worker.py","savable_loader.py","wrappers/log_sample_dataset.py"])
p("C23","Typed configuration values are converted faithfully",
 "Reading a dataset or split description converts each value to the declared type or raises an error naming the offending field; unknown or missing fields are never dropped silently in strict mode.",
 ["inputs"],
 "all configuration documents",
 "The space of documents is unbounded.",
 ["typed_converter.py","dataset_config.py"])
p("C24","Padding and stacking of tensors keep values",
 "Collating tensors of different shapes pads with zeros only outside each tensor's own region and keeps every value in place.",
 ["inputs"],
 "all tensor shapes and dtypes",
 "The space of shapes is unbounded.",
 ["task_encoder/base.py","wrappers/mix_batch_dataset.py"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
print(len(P))
