# NOTE[id], TECH[id]: texts for MANIFEST.json
_b = "Bounded exploration: the verdict covers the executions observed (counts in the evidence file). "
TECH.update({
 "C01": "runtime monitoring: differential trace oracle (a restored iterator's trace against the uninterrupted trace)",
 "C02": "runtime monitoring: snapshot monitor (states compared with their JSON image after every later operation)",
 "C03": "runtime monitoring: differential trace oracle under injected delays, thread counts and tiny switch intervals",
 "C04": "runtime monitoring: trace oracle (round-robin of independently built slices) over real worker processes and threads",
 "C05": "runtime monitoring: online comparison of random accesses with an independent reference model, also by concurrent readers",
 "C06": "runtime monitoring: online comparison of produced sequences with an independent reference model",
 "C07": "runtime monitoring and sanitizers: ASan/UBSan and TSan builds of the permutation with a bijectivity monitor, order monitors on datasets",
 "C08": "runtime monitoring: conservation ledger over the records of all shards",
 "C09": "runtime monitoring: online proportion, order and conservation monitors over mixture traces",
 "C10": "runtime monitoring: row-by-row oracle of batches against the elements, refusal monitor",
 "C11": "runtime monitoring: decoder that accounts for every token of the packed rows, placement oracle",
 "C12": "runtime monitoring: trace oracle over loaders, read log of the source across processes",
 "C13": "runtime monitoring: differential trace oracle for restored loaders, refusal monitor for mismatched states",
 "C14": "runtime monitoring with fault injection: prefix, error and recovery monitors",
 "C15": "runtime monitoring: resource ledger (threads, processes, descriptors, named segments) per action, hang watchdog",
 "C16": "runtime monitoring: ledger of everything produced by simulated hosts across re-shardings",
 "C17": "runtime monitoring: differential oracle between moving to an index and iterating to it",
 "C18": "runtime monitoring: offline checker over logged concurrent queue histories; ledger of segment creations and unlinks",
 "C19": "runtime monitoring: isolated per-position oracle, global duplicate monitor over all draws, cross-process digests",
 "C20": "runtime monitoring: record oracle over generated files, open-descriptor and concurrency monitors",
 "C21": "runtime monitoring: every produced element is checked against the inferred specification",
 "C22": "runtime monitoring: differential trace oracle between observability/option settings",
 "C23": "runtime monitoring: online comparison with an independent model of the interleaving cycle",
 "C24": "runtime monitoring with fault injection: differential trace oracle over checkpoint directories",
 "C25": "runtime monitoring: differential trace oracle between processes with and without JAX",
})
for _i, _t in {
 "C01": "Trusts the uninterrupted run as reference (its own meaning is decided by C05/C06); in-process pipelines only.",
 "C03": "Timing is perturbed by delays and switch intervals, not enumerated.",
 "C04": "Sequential slicing together with slicing or mixing transformations is a known finding and left out of random cases.",
 "C07": "The native code is recompiled from /repo with sanitizers; huge permutations are sampled, small ones exhausted.",
 "C09": "Weights are resolved to 1 % of the smallest; zero weights are refused by the library.",
 "C11": "Legacy batching of packed rows only with numeric dtypes.",
 "C14": "Failures at user code, sources, worker start and worker death; not at the allocator or the kernel.",
 "C15": "Resources are observed through /proc and /dev/shm with a patience of several seconds.",
 "C16": "Hosts are simulated in one process; stateful transformations above the elastic interleave are documented as unsupported and left out.",
 "C18": "Sleep-free stress with tiny switch intervals; interleavings are sampled.",
 "C19": "Branches that are given the same seed share streams by documentation; only one chain is required to be distinct.",
}.items():
  NOTE[_i] = _b + _t
