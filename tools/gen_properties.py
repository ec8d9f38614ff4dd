"""Generates properties.jsonl (single place where property texts are edited)."""
import json, os
D = "grain/_src/python/dataset/"
T = D + "transformations/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
  a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
  if observe: a["observe_at"] = observe
  if state: a["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in state]
  a["hook_needed"] = None
  P.append(dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

prop("C01", "Checkpoint and restore resumes an iterator exactly where it was",
 "For every in-process dataset iterator, a state taken after any number of elements and set on a fresh or an already used (even exhausted) iterator of an identically built pipeline makes it produce exactly the elements the original would have produced next, with the same values, order and end of data. This holds for any chain of such save/restore steps and when the state goes through JSON.",
 ["inputs", "programs", "histories", "crash_points"],
 "every composition of dataset transformations, every position (before the first element, mid window/batch/pack/buffer, after the end), every target iterator history, every sequence of save/restore/next",
 "Tests checkpoint each transformation mostly alone, at every position of one small pipeline, restored once on one kind of iterator; the quantifier is over compositions, repeated restores and restore targets with leftover buffers.",
 [D + "dataset.py", T + "prefetch.py", T + "interleave.py", T + "packing.py", T + "packing_concat_then_split.py", T + "flatmap.py", T + "rebatch.py", T + "shuffle.py", T + "repeat.py", T + "zip.py", T + "mix.py", T + "cache.py", T + "limit.py", T + "batch.py", T + "filter.py", T + "map.py"],
 [("get_state/set_state of every DatasetIterator", D + "dataset.py"), ("state of buffered transformations holds the parent state before the buffer plus an offset", T + "flatmap.py")],
 ["get_state()", "set_state()", "next()"])

prop("C02", "Iterator states are inert, reusable, JSON-serializable snapshots",
 "Taking a state never changes what an iterator produces; a state is JSON-serializable and its content never changes afterwards, whatever is done with the iterator it came from or with iterators it is set on; setting it leaves it intact, so the same state object can be set any number of times on any number of iterators with the same effect. All states of a pipeline have the same structure, types and shapes at any point of its life (except that interleaving holds the states of whichever datasets are in use).",
 ["programs", "histories"],
 "every iterator type and composition, every interleaving of taking states, setting them, advancing, over any number of iterators sharing a state",
 "Tests compare one restored sequence right away; aliasing between a snapshot and live iterator internals only shows when a state is kept, compared and reused after further advancement.",
 [D + "dataset.py", T + "interleave.py", T + "packing.py", T + "flatmap.py", T + "cache.py", T + "prefetch.py", T + "zip.py", T + "mix.py", T + "shuffle.py", T + "repeat.py", "grain/_src/python/data_loader.py"],
 [("get_state copies / set_state copies", D + "dataset.py"), ("states always have the same shapes and types (documentation of get_state)", D + "dataset.py")],
 ["get_state()", "set_state()"])

prop("C03", "In-process prefetching and threading are transparent",
 "For every pipeline, reading ahead with any number of read threads and any buffer size, prefetching the iterator in a background thread at any point of the pipeline, or starting prefetch explicitly, yields exactly the elements, in the same order and with the same states, as fully sequential execution, whatever the relative timing of the workers. No element is lost, duplicated, reordered or computed against another element's position.",
 ["schedules", "configurations", "programs"],
 "every read-options setting, thread-prefetch placement and buffer size, every relative speed of loading, transforming and consuming, every point at which a state is taken or set while work is in flight",
 "Tests use uniform instantaneous elements, so workers never overtake each other and state is rarely set with work in flight.",
 [T + "prefetch.py", D + "dataset.py", T + "interleave.py", "grain/_src/python/options.py", T + "prefetch_autotune.py"],
 [("in-order deque of futures", T + "prefetch.py:PrefetchDatasetIterator"), ("producer thread handing over (element, state) pairs", T + "prefetch.py:ThreadPrefetchDatasetIterator")],
 ["next()", "get_state()"])

prop("C04", "Multiprocess prefetching is exact, deterministic and resumable",
 "Prefetching a pipeline in N worker processes yields, for every N, buffer size, slicing mode and timing, exactly the round-robin interleaving of the streams that the pipeline produces over N disjoint slices covering the source: every source element is processed exactly once, the order never depends on which worker is faster, and the caller's own dataset object is not altered. A state taken at any point resumes that sequence exactly, also on a fresh iterator or on one whose workers are running.",
 ["schedules", "configurations", "histories", "programs"],
 "every worker count, per-worker buffer, strided slicing, or sequential slicing of the source, source length (also shorter than the worker count), uneven worker speeds, repeat/shuffle/batch/filter/random maps in the workers, every checkpoint position",
 "Tests use few fixed worker counts with uniform speed and mostly one resume position; the schedule and uneven-length space is not sampled.",
 [T + "process_prefetch.py", T + "prefetch.py", T + "interleave.py", T + "source.py", D + "base.py"],
 [("per-worker slice of the source", T + "process_prefetch.py:multiprocess_prefetch"), ("round-robin interleave of worker iterators", T + "interleave.py"), ("versioned set_state/next_index requests", T + "process_prefetch.py:ProcessPrefetchDatasetIterator")],
 ["next()", "get_state()", "set_state()"])

prop("C05", "Random access on map datasets is exact, pure and thread-safe",
 "For every composition of map-dataset transformations, element i is a pure function of i: it equals the documented composition of source, slice, map, filter, shuffle, repeat, batch, mix, concatenate, zip and flat-map semantics, for indices in the first and in later epochs and for slices of slices; fetching single items, batches of items, in any order, repeatedly or from many threads at once gives the same values.",
 ["programs", "inputs", "schedules"],
 "every composition and parameters (negative/odd steps, empty and singleton lengths, many epochs), every index, every access order and every set of concurrent readers",
 "Tests check each transformation over one small range mostly on its own; composition, later epochs, batched fetch and concurrent access are not enumerated.",
 [D + "dataset.py", T + "source.py", T + "slice.py", T + "map.py", T + "filter.py", T + "shuffle.py", T + "repeat.py", T + "batch.py", T + "mix.py", T + "zip.py", T + "flatmap.py"],
 [("__getitem__ and _getitems of each MapDataset", T), ("wrapping of indices modulo length with epoch", T + "repeat.py")],
 ["ds[i]", "ds[a:b:c]", "len(ds)"])

prop("C06", "Iterator transformations follow their documented semantics",
 "For every pipeline of iterator transformations (map, filter, flat-map, batch, limit, repeat, zip, mix, window shuffle, cache, rebatch, prefetch) the produced sequence equals that of the documented sequential meaning of each transformation applied in order: nothing is dropped, duplicated or reordered except as the transformation specifies, and once the end is reported it stays reported.",
 ["programs", "inputs"],
 "every composition with any parameters (batch sizes, limits, windows, epochs, drop_remainder, strictness, None and empty elements), and any lengths including empty",
 "Tests check transformations pairwise on small fixed ranges; compositions and edge lengths are unbounded.",
 [T + "map.py", T + "filter.py", T + "flatmap.py", T + "batch.py", T + "limit.py", T + "repeat.py", T + "zip.py", T + "mix.py", T + "shuffle.py", T + "cache.py", T + "rebatch.py", D + "dataset.py"],
 [("__next__ of each DatasetIterator", T)],
 ["next()", "StopIteration"])

prop("C07", "Shuffling is a seeded permutation, memory-safe at any size",
 "Shuffling a dataset of any length visits every element exactly once per epoch, in an order fully determined by the seed and the epoch, with different orders for different epochs (within 2^32 of each other) and seeds; windowed shuffling permutes only within each window. The native permutation is a bijection of [0, max] for every max, seed and supported round count, and neither faults nor performs undefined arithmetic on any argument.",
 ["inputs", "configurations"],
 "every dataset length (powers of two and their neighbours, huge lengths), seed, epoch, window size and round count",
 "Tests check bijectivity on a few small sizes; failure sizes (e.g. powers of two near block-size boundaries) need targeted or exhaustive evaluation.",
 [T + "shuffle.py", "grain/_src/python/experimental/index_shuffle/index_shuffle.cc", "grain/_src/python/experimental/index_shuffle/python/index_shuffle_module.cc", "grain/_src/python/samplers.py"],
 [("Simon block cipher with cycle walking", "grain/_src/python/experimental/index_shuffle/index_shuffle.cc"), ("per-epoch seed", T + "shuffle.py")],
 ["shuffled order", "index_shuffle()"])

prop("C08", "Sharding partitions the data exactly",
 "For every number of records and shards, the shards of a dataset (contiguous, strided, or by sampler) are pairwise disjoint and together cover every record exactly once when remainders are kept; with remainder dropping all shards have equal size and only the remainder is missing. Shard sizes differ by at most one, and invalid shard parameters are rejected.",
 ["inputs", "configurations"],
 "every record count (smaller than, equal to and not divisible by the shard count), shard count, drop-remainder setting, epoch count, with and without shuffling",
 "Tests use a few divisible sizes; coverage and disjointness are statements over all (records, shards) pairs.",
 ["grain/_src/core/sharding.py", "grain/_src/python/samplers.py", T + "slice.py", T + "source.py", "grain/_src/python/data_loader.py", "grain/_src/python/load.py"],
 [("even_split", "grain/_src/core/sharding.py"), ("IndexSampler", "grain/_src/python/samplers.py"), ("strided slice per process", T + "slice.py")],
 ["record keys per shard"])

prop("C09", "Mixing honours proportions and preserves component order",
 "Mixing datasets with any weights takes elements of each component in their own order, each element at most once per epoch, and after every prefix the number taken from each component stays within a bounded distance of its weight's share. Mixing map datasets has the length given by the first component to run out, non-positive weights are rejected, and concatenation keeps all elements in order.",
 ["inputs", "programs"],
 "every number of components, weights (integer, fractional, tiny, widely different), lengths and prefixes, for map and iterator datasets, random access and iteration, checkpoints included",
 "Tests use two or three components with friendly weights and check short prefixes.",
 [T + "mix.py"],
 [("deterministic selection map", T + "mix.py:SelectionWithProportionsMap"), ("iterator credit selection", T + "mix.py:_MixedDatasetIterator")],
 ["produced sequence"])

prop("C10", "Batching and unbatching preserve every value, structure and dtype",
 "Batching any stream stacks consecutive elements leaf by leaf, in order, without changing any value, structure or losing precision, keeping or dropping only the last partial batch as asked; padding to a fixed size only appends padding; rebatching and unbatching keep the concatenated content identical. The result is the same whether leaves are stacked sequentially, in parallel or straight into shared memory.",
 ["inputs", "configurations", "programs"],
 "every nested structure, dtype mix, leaf shape (scalars, empty, large), batch size, remainder handling, and serial / parallel / shared-memory stacking",
 "Tests stack uniform int arrays; mixed dtypes, shared-memory output and odd remainders are not enumerated.",
 [T + "batch.py", T + "rebatch.py", "grain/_src/python/operations.py", "grain/_src/python/ipc/shared_memory_array.py", T + "flatmap.py"],
 [("make_batch", T + "batch.py"), ("BatchOperation", "grain/_src/python/operations.py"), ("Rebatch", T + "rebatch.py")],
 ["batches"])

prop("C11", "Packing conserves every token within the capacity limits",
 "Packing variable-length examples by concatenate-and-split, first-fit or best-fit emits every token of every sequence feature of every example exactly once (per-example meta features accompany each part of their example), in order within its example and aligned across features; no packed row exceeds its capacity or its maximum number of sequences, and segment ids and positions describe exactly which example each token came from, with padding elsewhere.",
 ["inputs", "configurations", "histories"],
 "every distribution of example lengths (zero, exactly full, longer than the row where allowed), number of features and capacities, number of bins, meta features, BOS handling and checkpoint positions",
 "Tests check a handful of hand-written inputs with expected outputs; conservation is a statement over all length sequences.",
 [T + "packing.py", T + "packing_packed_batch.py", T + "packing_concat_then_split.py", "grain/_src/python/experimental/example_packing/packing.py"],
 [("PackedBatch.try_add_to_batch", T + "packing_packed_batch.py"), ("ConcatThenSplit buffer", T + "packing_concat_then_split.py")],
 ["packed batches, segment_ids, positions"])

prop("C12", "DataLoader delivers every sampled record exactly once, deterministically",
 "A data loader yields exactly the sampler's records, each read and transformed once, in an order that depends only on its configuration: the same run after run, independent of worker timing, and equal to the in-process order re-dealt round-robin over workers. Epoch, shard and remainder settings select exactly the documented records.",
 ["schedules", "configurations"],
 "every worker count, buffer sizes, read threads, shard options, epochs, shuffling, batch/filter/random-map operations and worker speeds",
 "Tests fix worker counts 0-2 with uniform timing and check order on a few sizes.",
 ["grain/_src/python/data_loader.py", "grain/_src/python/samplers.py", "grain/_src/python/operations.py", "grain/_src/python/load.py", "grain/_src/python/record.py"],
 [("per-worker strided sampling and strict round-robin reading", "grain/_src/python/data_loader.py")],
 ["next(iter(loader))"])

prop("C13", "DataLoader checkpoints resume exactly; mismatches are rejected",
 "A data loader iterator's state, taken after any number of steps, restores into a new iterator of the same configuration so that the remaining output is exactly what would have followed; restoring a state taken with a different data source or sampler (as told by their representation) or worker count is refused with an error instead of silently producing other data.",
 ["histories", "configurations", "crash_points"],
 "every position (before the first step, between workers, past the end), every worker count, operation list and chain of restores; every incompatible configuration change",
 "Tests restore once at one or two fixed positions.",
 ["grain/_src/python/data_loader.py"],
 [("state = last seen index per worker + validation", "grain/_src/python/data_loader.py:_IteratorState")],
 ["get_state()", "set_state()", "next()"])

prop("C14", "Failures surface promptly at the consumer and never turn into hangs",
 "When a user transformation, source, worker initialisation or worker process fails, at any position and in any thread or process, the consumer receives the elements that precede the failure (after the sudden death of a process, a prefix of them) and then an exception carrying the original type or message; it is never a silent end of data, wrong data or a hang. States taken before the failure still resume exactly where they were taken, and after a transient failure reading goes on without losing or repeating elements. (A StopIteration raised by user code is not a failure: it is how Python iterators end.)",
 ["fault_sequences", "schedules", "crash_points"],
 "every failing position and stage, exception kind (also unpicklable), worker count, buffer size, death by signal or exit, with or without pending state changes",
 "Tests inject a few failures at a fixed element with default settings; fault position x stage x configuration is not enumerated.",
 [T + "process_prefetch.py", T + "prefetch.py", "grain/_src/python/data_loader.py", "grain/_src/core/transforms.py", "grain/_src/core/exceptions.py", D + "dataset.py"],
 [("exceptions travel through the buffers in order", T + "prefetch.py"), ("worker exit code polling", T + "process_prefetch.py")],
 ["exception at next()"])

prop("C15", "Closing or dropping iterators releases threads, processes and memory",
 "After an iterator or loader is closed, exhausted and dropped, dropped mid-iteration, or the program ends, all worker threads, worker processes, descriptors and shared-memory segments it created disappear within bounded time (for dropped iterators: after garbage collection); elements already handed out stay valid. Closing is idempotent and never deadlocks or raises, whatever is in flight; reading after closing neither hangs nor starts new workers.",
 ["schedules", "histories", "configurations"],
 "every pipeline with thread or process prefetch, every moment of closing (unstarted, buffers full, worker mid-element, after error, after set_state) and concurrent use",
 "Tests check close on a few idle iterators; in-flight timing is not explored and leaks are not measured.",
 [T + "prefetch.py", T + "process_prefetch.py", T + "interleave.py", "grain/_src/python/data_loader.py", "grain/_src/python/ipc/shared_memory_array.py", D + "dataset.py"],
 [("close() and finalizers", T + "process_prefetch.py"), ("reader/producer termination events", "grain/_src/python/data_loader.py")],
 ["live threads", "child processes", "/dev/shm"])

prop("C16", "Elastic re-sharding continues exactly once across process counts",
 "When iteration is checkpointed with one number of shards and resumed with another, the union of what all old shards had produced and what all new shards produce is every element of the global dataset exactly once per epoch, in the documented global order.",
 ["histories", "configurations", "crash_points"],
 "every old/new shard count, checkpoint position, dataset length, several successive re-shardings, map-based and iterator-based elastic iteration",
 "Tests re-shard once between two fixed counts at one position.",
 [D + "elastic_iterator.py", "grain/_src/python/checkpoint/elastic_checkpoint.py"],
 [("global state redistribution", D + "elastic_iterator.py")],
 ["elements of all shards"])

prop("C17", "The next-index interface agrees with iteration",
 "Wherever an iterator exposes its next index, setting it to k makes the iterator continue exactly with the k-th element of its full sequence (the position after the last element may be refused with an error), and reading it after k elements gives an index from which iteration continues identically, for every supported pipeline and k.",
 ["programs", "inputs", "histories"],
 "every supported composition (map source, map, batch, filter-free chains, thread/process prefetch, interleave) and every k, before and after other seeks",
 "Tests check a couple of indices on few pipelines.",
 [T + "prefetch.py", T + "process_prefetch.py", T + "interleave.py", T + "batch.py", T + "map.py", D + "dataset.py", T + "repeat.py", T + "limit.py"],
 [("_get_next_index/_set_next_index", D + "dataset.py")],
 ["get_next_index", "set_next_index"])

prop("C18", "Inter-process and variable-size queues and shared arrays lose nothing",
 "Variable-size queues behave as bounded FIFO queues under concurrent producers, consumers and resizing: every item put is got exactly once, in order per producer, the current capacity is never exceeded by completed puts, and blocked operations wake when space, items or a resize allow. Arrays passed through shared memory arrive bit-identical, and segments are freed exactly once.",
 ["schedules", "histories", "inputs"],
 "every interleaving of put, get, increase and decrease with blocking, non-blocking and timed variants; every dtype, shape, and order of unlink and garbage collection",
 "Tests resize queues from one thread and copy a few arrays; concurrent histories are not checked.",
 ["grain/_src/python/ipc/variable_size_queue.py", "grain/_src/python/ipc/shared_memory_array.py"],
 [("VariableSizeQueue / VariableSizeMultiprocessingQueue", "grain/_src/python/ipc"), ("SharedMemoryArray", "grain/_src/python/ipc/shared_memory_array.py")],
 ["queue histories", "arrays"])

prop("C19", "Randomness is reproducible, positional and isolated",
 "For a fixed seed every random transformation produces the same values in every run, for every element depending only on the element's position and the seed and not on threads, prefetching, access order or other elements; different positions and epochs, and the transformations of one chain, get different random streams; and global random state is neither used nor disturbed.",
 ["schedules", "programs", "inputs"],
 "every seed (of the dataset or of the transformation), placement of random maps before/after shuffle, repeat and mix, number of threads and access order",
 "Tests compare two runs of one small pipeline, rarely under concurrency.",
 [T + "map.py", "grain/_src/core/grain_random.py", D + "base.py", D + "dataset.py", T + "shuffle.py"],
 [("RngPool per index", D + "base.py"), ("default seed derivation", D + "dataset.py")],
 ["random values"])

prop("C20", "File and in-memory sources return exactly their records and resume",
 "Every data source returns each stored record bit-identically at its index (or once in file order for streaming sources), for any file sizes, splits, record sizes and access order; concurrent and repeated reads, pickling and resuming from any position give the same records.",
 ["inputs", "histories", "schedules"],
 "every record count per file (including empty files and row groups), file-instruction range, record size, access pattern, restore point",
 "Tests read small fixed files sequentially.",
 ["grain/_src/python/data_sources.py", D + "sources/parquet_dataset.py", D + "sources/tfrecord_dataset.py", T + "source.py"],
 [("ArrayRecordDataSource", "grain/_src/python/data_sources.py"), ("parquet/tfrecord iterators", D + "sources")],
 ["records"])

prop("C21", "Element specs describe what is produced",
 "The element spec inferred for a dataset matches every element it produces: same tree structure, and for each leaf the same dtype and shape, for every pipeline for which a spec is available; otherwise asking for it raises an error instead of returning a wrong spec.",
 ["programs", "inputs"],
 "every composition of transformations with spec support and nested element structures",
 "Tests check specs of single transformations.",
 [D + "base.py", D + "dataset.py", T + "batch.py", T + "source.py"],
 [("element_spec of each transformation", T)],
 ["element_spec vs elements"])

prop("C22", "Options and observability do not change the data",
 "Execution tracking, debug or summary modes, pipeline visualization, statistics and read or multiprocessing options never alter the elements, their order, checkpoint states' meaning or end of data of a pipeline; merging options gives explicit later settings precedence and rejects invalid values, and slicing/options wrappers only have their documented effect.",
 ["configurations", "programs"],
 "every combination of option values and observability modes over every pipeline",
 "Tests run pipelines with observability on single shapes and do not compare output differentially.",
 [D + "base.py", D + "stats.py", D + "stats_utils.py", "grain/_src/core/config.py", D + "dataset.py"],
 [("stats wrappers around __next__/__getitem__", D + "stats.py"), ("DatasetOptions.merge", D + "base.py")],
 ["elements", "merged options"])

prop("C23", "Interleaving datasets is exact, ordered and resumable",
 "Interleaving any number of datasets emits every element of every dataset exactly once, each dataset's elements in order, following the documented cycle: one (block of) element per active dataset in turn, with elements drawn from at most cycle-length datasets at a time and the next dataset replacing an exhausted one, independent of prefetch buffers and timing.",
 ["inputs", "schedules", "histories"],
 "every number and lengths of datasets (empty ones included), cycle lengths, buffer sizes, prefetch thread counts, repeats and checkpoint positions",
 "Tests use few lists of short datasets.",
 [T + "interleave.py"],
 [("slot rotation and exhausted-iterator bookkeeping", T + "interleave.py")],
 ["produced sequence"])

prop("C24", "Checkpoint files round-trip the iterator state and survive failures",
 "Saving an iterator's state through the checkpoint handlers and restoring it, in the same or another process and for any directory and process index/count, puts the iterator exactly at the saved position; states written by several processes never mix, and files that are missing, truncated or of another number of processes raise an error rather than restoring something else.",
 ["histories", "configurations", "fault_sequences"],
 "every iterator kind, state size, process layout, number of steps between saves, repeated saves to the same path, missing or truncated files",
 "Tests save once per handler for one iterator.",
 ["grain/_src/python/checkpoint/handler.py", "grain/_src/python/checkpoint/elastic_checkpoint.py", D + "dataset.py"],
 [("CheckpointHandler save/restore per process file", "grain/_src/python/checkpoint")],
 ["restored iterators"])

prop("C25", "Results do not depend on JAX being installed",
 "Every pipeline gives the same elements, structures and states whether or not JAX is importable: nested dict, list, tuple, namedtuple and dataclass-like elements are traversed, batched, packed, padded and traced the same way.",
 ["configurations", "inputs"],
 "every nested structure and tree-consuming transformation, with JAX present or absent",
 "JAX-specific tests run only where it is installed and compare no outputs with the fallback.",
 ["grain/_src/core/tree_lib.py"],
 [("tree_lib fallback implementation", "grain/_src/core/tree_lib.py")],
 ["elements"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
  for p in P:
    assert len(p["title"]) <= 80, p["id"]
    f.write(json.dumps(p) + "\n")
print(len(P))
