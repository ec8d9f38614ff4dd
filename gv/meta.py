"""Per-property run plans (no grain import here)."""
import json
import os

META = {}


def add(prop, level, rule, plan, minimum=None, **kw):
  META[prop] = dict(level=level, rule=rule, plan=plan, min=minimum or {}, **kw)


Q, T = "quick", "thorough"

add("C01", "exploration",
    "A case is a random pipeline of 1-9 transformations over <=24 uniquely numbered elements plus random chains of "
    "save/restore; non-trivial = distinct pipeline spec with >=1 restore compared.",
    {Q: dict(cases=100000, budget_s=22), T: dict(cases=10**7, budget_s=600)},
    {Q: dict(restores=500)})
add("C02", "exploration",
    "A case is a random pipeline and a random history of next/get_state/set_state over 1-3 iterators of one dataset "
    "object; non-trivial = distinct pipeline that produces elements.",
    {Q: dict(cases=10**6, budget_s=20), T: dict(cases=10**7, budget_s=500)},
    {Q: dict(reuses=300, states_set=300)})
add("C03", "exploration",
    "A case is a random pipeline run sequentially and in 2 random parallel forms (read threads, thread prefetch, "
    "random delays, switch intervals); non-trivial = distinct pipeline with >1 element.",
    {Q: dict(cases=10**6, budget_s=22), T: dict(cases=10**7, budget_s=600)},
    {Q: dict(variants=200, state_crossings=100)})
add("C05", "exploration",
    "A case is a random composition of map-dataset transformations over unique elements, read at random positions of "
    "three epochs, through slices, batches, iteration and from up to 8 threads; non-trivial = distinct non-empty "
    "composition.",
    {Q: dict(cases=10**6, budget_s=20), T: dict(cases=10**7, budget_s=500)},
    {Q: dict(reads=10000, concurrent_reads=1000)})
add("C06", "exploration",
    "A case is a random pipeline of iterator transformations compared element by element with an independent "
    "sequential model; non-trivial = distinct pipeline with >1 element.",
    {Q: dict(cases=10**6, budget_s=20), T: dict(cases=10**7, budget_s=500)},
    {Q: dict(elements=5000, reads_after_end=500)})
add("C17", "exploration",
    "A case is a random pipeline of index-addressable stages and a random history of next / get_next_index / "
    "set_next_index / state save and restore; non-trivial = distinct pipeline that produces elements.",
    {Q: dict(cases=10**6, budget_s=20), T: dict(cases=10**7, budget_s=400)},
    {Q: dict(index_sets=1000, index_reads=500, multiprocess_cases=8)})
add("C23", "exploration",
    "A case is an interleave of 0-15 (map or iterator, possibly empty or lazily built) datasets with cycle 1-16, random "
    "prefetch and make-iterator buffers, delays and outer transformations, compared element by element with an "
    "independent model and resumed from 3 states; non-trivial = distinct non-empty interleaving.",
    {Q: dict(cases=10**6, budget_s=20), T: dict(cases=10**7, budget_s=400)},
    {Q: dict(restores=300, slow_components=20, datasets_interleaved=500)})
add("C12", "exploration",
    "A case is a DataLoader (sampler, shard, epochs, 0-4 operations incl. legacy ones, threads, 0-3 workers) compared "
    "with an independent model, with every source read logged; or the shards of a built-in sampler over epochs; "
    "non-trivial = distinct non-empty configuration.",
    {Q: dict(cases=10**6, budget_s=20), T: dict(cases=10**7, budget_s=500)},
    {Q: dict(records_read=2000, sampler_cases=100, multiprocess_cases=12)})
add("C13", "exploration",
    "A case is a DataLoader configuration and a random history of steps, states and restores (new and used iterators, "
    "same or rebuilt loader, 0-4 workers), each restored tail compared with an independent model, plus states offered "
    "to loaders with another source, sampler or worker count; non-trivial = distinct non-empty configuration.",
    {Q: dict(cases=10**6, budget_s=20), T: dict(cases=10**7, budget_s=500)},
    {Q: dict(restores=500, mismatches_refused=300, multiprocess_cases=12)})
add("C04", "exploration",
    "A case is a random pipeline prefetched with 1-6 workers (processes, or threads sharing the slicing code), strided "
    "or sequential slices, buffers 1-5, delays, optional further transformation, compared with the round-robin of "
    "independently built slices and resumed from states; non-trivial = distinct (pipeline, workers) with >1 element.",
    {Q: dict(cases=10**6, budget_s=45), T: dict(cases=10**7, budget_s=600)},
    {Q: dict(restores=200, multiprocess_cases=16)})
add("C07", "exploration",
    "A case is a whole native permutation (ASan+UBSan build, extension module), sampled indices of permutations of up to "
    "2^64 elements, concurrent callers (TSan build), or a shuffled / window-shuffled dataset over several epochs; "
    "non-trivial = distinct (size, seed, kind).",
    {Q: dict(cases=10**6, budget_s=20), T: dict(cases=10**7, budget_s=400)},
    {Q: dict(native_indices=100000, full_permutations=16, race_runs=8, epochs=300, windows=300)},
    prepare="gv.native:prepare")
add("C08", "exploration",
    "A case is one partition: all shards of a sampler over 1-3 epochs, shard boundaries of huge datasets, nested strided "
    "shards of a random pipeline, or whole loaders; non-trivial = distinct (kind, size, shards).",
    {Q: dict(cases=10**6, budget_s=15), T: dict(cases=10**7, budget_s=300)},
    {Q: dict(records=20000, shards=3000, refused=50)})
add("C09", "exploration",
    "A case is a mixture of 1-6 components with random weights (or a concatenation / selection), its every prefix compared "
    "with the weights' shares, each component's order and counts checked; non-trivial = distinct (lengths, weights).",
    {Q: dict(cases=10**6, budget_s=15), T: dict(cases=10**7, budget_s=300)},
    {Q: dict(mixed_elements=20000, changed_components=5, concatenations=30)})
add("C10", "exploration",
    "A case is a random structure of leaves (dtypes, layouts, scalars, strings) batched by one of 12 ways (map, iterator, "
    "parallel, shared memory, padding, pushdown, loader, legacy, ...), rebatched or split again, compared row by row with "
    "the elements; or elements that must be refused; non-trivial = distinct (structure, way, sizes).",
    {Q: dict(cases=10**6, budget_s=20), T: dict(cases=10**7, budget_s=400)},
    {Q: dict(batches=5000, mismatches_refused=100, rebatched=100, mp_batches=16, parallel_batches=200, shm_batches=200)})
add("C14", "exploration",
    "A case is a pipeline, loader or worker set with a failure at a random element of a random stage (exceptions incl. "
    "unpicklable ones, process death, worker_init_fn, unpicklable elements), its prefix, error and earlier states checked; "
    "non-trivial = distinct failing pipeline.",
    {Q: dict(cases=10**6, budget_s=30), T: dict(cases=10**7, budget_s=500)},
    {Q: dict(failures=500, worker_failures=10, worker_deaths=5, init_failures=4, restores=500, source_kinds=60)})
add("C15", "exploration",
    "A case is a pipeline, worker set, loader or program whose iterator is closed, dropped or exhausted at a random point; "
    "threads, processes, descriptors and named shared memory of the process are watched until gone; non-trivial = distinct "
    "(pipeline, action) with live resources.",
    {Q: dict(cases=10**6, budget_s=30), T: dict(cases=10**7, budget_s=500)},
    {Q: dict(releases=400, mp_releases=24, cases_with_workers=12, cases_with_segments=6, program_exits=4)})
add("C11", "exploration",
    "A case packs 0-40 examples of 1-3 features (many dtypes, trailing shapes, scalars, zero / full / too long lengths, "
    "meta features, alignment, padding, sequence limits, BOS) by one of four packers, partly through a restored iterator; "
    "a decoder accounts for every token and for the documented placement; non-trivial = distinct (lengths, configuration).",
    {Q: dict(cases=10**6, budget_s=20), T: dict(cases=10**7, budget_s=400)},
    {Q: dict(rows=10000, examples=10000, batches_checked=500, cts_rows=1000, legacy_rows=500, refused=50,
             restored_midway=100)})
add("C16", "exploration",
    "A case is a dataset read by 1-11 simulated hosts, checkpointed (states, JSON or the handler's files) and continued by "
    "other numbers of hosts and batch sizes up to four times, with a ledger of everything produced; non-trivial = distinct "
    "(dataset, history of host counts and batch sizes).",
    {Q: dict(cases=10**6, budget_s=20), T: dict(cases=10**7, budget_s=400)},
    {Q: dict(elements=20000, reshardings=1000, count_changes=200, iter_cases=200, ends=100, refused=10, mp_cases=4,
             incomplete_refused=10)})
add("C18", "exploration",
    "A case is a concurrent history of put / get / resize over 1-8 threads on one of two queues (checked offline), a "
    "sequential history compared with an exact model, blocked operations to be woken, nested arrays of all dtypes sent "
    "through segments, pickles, threads and processes; non-trivial = distinct history or set of arrays.",
    {Q: dict(cases=10**6, budget_s=20), T: dict(cases=10**7, budget_s=400)},
    {Q: dict(items=20000, resizes=1000, full_raised=200, empty_raised=200, sequential=200, wakeups=50, arrays=1000,
             segments=500, process_cases=4, tight_puts=500)})
add("C19", "exploration",
    "A case is a random chain of random maps, shuffles, filters, repeats and slices whose draws at every position are "
    "compared with an isolated evaluation of that position under another access order, thread count, failure history, "
    "process or global random state; draws must never repeat; non-trivial = distinct (chain, way of access).",
    {Q: dict(cases=10**6, budget_s=15), T: dict(cases=10**7, budget_s=300)},
    {Q: dict(positions_compared=10000, distinct_draws=10000, failures=100, threaded=20, default_seeds=50, orders=200,
             explicit_seeds=10, mp_cases=4, processes=4)})
add("C20", "exploration",
    "A case generates files (TFRecord, Parquet, ArrayRecord with instructions) or in-memory sources with known records and "
    "reads them by random access, streaming, slices, threads, copies, workers and restored iterators; cut off files must be "
    "refused; non-trivial = distinct generated records.",
    {Q: dict(cases=10**6, budget_s=20), T: dict(cases=10**7, budget_s=300)},
    {Q: dict(records=50000, restores=2000, refused=200, truncated_refused=20, tfrecord_files=100, parquet_files=200,
             arrayrecord_sources=50, ranges=50, shared_sources=30, mp_cases=4, concurrent_reads=1000)})
add("C21", "exploration",
    "A case is a random composition of transformations over structured elements (dicts, lists, tuples, named tuples of arrays "
    "and scalars); the inferred spec is compared with every element produced and with an independent inference; non-trivial = "
    "distinct pipeline and structure that produced elements.",
    {Q: dict(cases=10**6, budget_s=15), T: dict(cases=10**7, budget_s=300)},
    {Q: dict(elements=8000, map_specs=500, iter_specs=500, refused=100, mp_cases=6, parallel_batch_cases=5)})
add("C22", "exploration",
    "A case runs a random pipeline (or loader, or one over unusual elements) with all modes off and in two random modes "
    "(execution tracking, debug, visualization, summaries, pickling, options anywhere) and exchanges states, or merges random "
    "options, or runs filters against an own model of the thresholds; non-trivial = distinct pipeline or options.",
    {Q: dict(cases=10**6, budget_s=22), T: dict(cases=10**7, budget_s=400)},
    {Q: dict(mode_runs=500, crossings=800, weird=80, loaders=40, merges=100, thresholds=100, threshold_raised=20, refused=10,
             mode_debug=100, mode_viz=100, pickled=50, summaries=100, mp_cases=5)})
add("C24", "fault_enumeration",
    "A case saves the iterators of 1-11 simulated hosts at random points through random checkpoint APIs (serially, from threads, in "
    "one event loop) and restores them from the files, or with a missing, truncated or foreign file; non-trivial = distinct "
    "pipelines and number of hosts.",
    {Q: dict(cases=10**6, budget_s=20), T: dict(cases=10**7, budget_s=400)},
    {Q: dict(saves=500, restores=500, refused=50, refused_truncated=10, refused_count=10, overwritten=20, saved_threads=40,
             saved_loop=40, after_faults=50, other_processes=3, mp_cases=2)})
add("C25", "exploration",
    "A case executes one seeded job (nested elements through a tree-consuming transformation, or a random pipeline or loader) in a "
    "process with and one without JAX; non-trivial = distinct results that are not just an error.",
    {Q: dict(cases=10**6, budget_s=20), T: dict(cases=10**7, budget_s=300)},
    {Q: dict(elements=3000, restored=100, job_batch=80, job_trees=80, job_pack=40, job_mix=30, job_pipe=30, job_loader=20, errors_alike=20,
             mp_cases=2)})
