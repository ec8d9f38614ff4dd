"""C22: options and observability do not change the data.

The same pipelines and loaders run with everything off and under execution tracking, debug mode, visualization, traceback
filtering, requested summaries and options anywhere; elements (types and key order included), errors, ends and the positions
states stand for are compared.  The effect options document is checked against an own model of merging and of thresholds.
"""
import collections
import contextlib
import importlib
import copy
import dataclasses
import os
import pickle
import time

from absl import flags
import cloudpickle
import grain
from grain import experimental as gexp
from grain._src.core import config as config_lib
from grain._src.python.dataset import dataset as dataset_lib
from grain._src.python.ipc import shared_memory_array
import numpy as np

from gv import core, fns, loaders, pipes
from gv.core import snap, take

STATS = "grain._src.python.dataset.stats"
# Reporting threads end soon, so that those of earlier cases do not pile up.
for _a, _v in (("_REPORTING_PERIOD_SEC", 0.5), ("_LOG_EXECUTION_SUMMARY_PERIOD_SEC", 0.5), ("_WORKER_QUEUE_TIMEOUT_SEC", 0.2),
               ("_REPORTING_TIMEOUT_SEC", 0.5)):
  setattr(importlib.import_module(STATS), _a, _v)
FILTERS = ["auto", "off", "tracebackhide", "quiet_remove_frames", "remove_frames"]


@contextlib.contextmanager
def mode(m):
  """Sets the flags of a mode and makes the background reporting frequent."""
  if not flags.FLAGS.is_parsed():
    flags.FLAGS.mark_as_parsed()
  cfg = config_lib.config
  with contextlib.ExitStack() as st:
    if m.get("fast"):
      for a, v in (("_REPORTING_PERIOD_SEC", 0.002), ("_LOG_EXECUTION_SUMMARY_PERIOD_SEC", 0.003)):
        st.enter_context(core.patched(STATS, a, v))
    cfg.update("py_debug_mode", bool(m.get("debug")))
    cfg.update("py_dataset_visualization_output_dir", "" if m.get("viz") else None)
    cfg.update("py_traceback_filtering", m.get("tb", "auto"))
    try:
      yield
    finally:
      cfg.update("py_debug_mode", False)
      cfg.update("py_dataset_visualization_output_dir", None)
      cfg.update("py_traceback_filtering", "auto")


def gen_mode(rng):
  m = {}
  for k, p in (("debug", 0.35), ("viz", 0.35), ("fast", 0.4), ("summaries", 0.4), ("pickle", 0.2), ("touch", 0.2)):
    if rng.random() < p:
      m[k] = True
  if rng.random() < 0.2:
    m["tb"] = rng.choice(FILTERS)
  return m


def gen_opts(rng):
  o = {}
  if rng.random() < 0.6:
    o["timing"] = True
  if rng.random() < 0.3:
    o["filter_warn_threshold_ratio"] = rng.choice([None, 0.0, 0.1, 0.99])
  if rng.random() < 0.2:
    o["filter_raise_threshold_ratio"] = rng.choice([None, 0.9])  # too few elements for it to apply
  if rng.random() < 0.2:
    o["min_shm_size"] = rng.choice([0, 1, 10**6])
  return o


ITER = {"iter", "ifilter", "imap", "iwrap", "imapidx", "irandmap", "ibatch", "limit", "irepeat", "izip", "imix",
        "iwshuffle", "cache", "rebatch", "ifan", "inter", "ffit", "bfit", "cts", "tprefetch", "boom"}


def with_opts(s, rng, p):
  """The pipeline with options at random places."""
  t = dict(s)
  t["in"] = [with_opts(x, rng, p) for x in s.get("in", [])]
  if s["op"] in ITER and (s["op"] != "boom" or s["in"][0]["op"] in ITER) and rng.random() < p:
    t = {"op": "opts", "opts": gen_opts(rng), "in": [t]}
  return t


# ------------------------------------------------------------------------------------------ strict comparison


def deep(x, d=0):
  """The value with types and order of keys."""
  if isinstance(x, dict):
    return (type(x).__name__, [(repr(k), deep(v, d + 1)) for k, v in x.items()])
  if isinstance(x, (list, tuple)):
    return (type(x).__name__, [deep(v, d + 1) for v in x])
  if isinstance(x, np.ndarray):
    a = np.asarray(x)
    return ("ndarray", a.dtype.str if not a.dtype.names else str(a.dtype), list(a.shape), repr(a.tolist()))
  if isinstance(x, Odd):
    return (type(x).__name__, deep(x.__dict__, d + 1))
  if isinstance(x, (set, frozenset)):
    return (type(x).__name__, sorted(map(repr, x)))
  return (type(x).__name__, repr(x))


@dataclasses.dataclass
class Data:
  a: object
  b: object = None


class Odd:
  """Not an array and nothing NumPy can look into."""

  def __init__(self, i):
    self.i = i

  def __array__(self, *a, **k):
    raise RuntimeError("not an array")


class Sized(Odd):
  def __len__(self):
    raise RuntimeError("no length")

  def __iter__(self):
    raise RuntimeError("not iterable")

  def __getitem__(self, i):
    raise RuntimeError("not subscriptable")


class Unequal(Odd):
  def __eq__(self, o):
    raise RuntimeError("not comparable")

  __hash__ = None

  def __bool__(self):
    raise RuntimeError("neither true nor false")


class MyDict(dict):
  pass


class MyList(list):
  pass


P = collections.namedtuple("P", "y x")

WEIRD = [
    lambda i: {1: i, "a": 2}, lambda i: {"z": i, "a": {"q": 1, "b": [i]}}, lambda i: collections.OrderedDict(z=i, a=2),
    lambda i: collections.defaultdict(list, q=[i], a=[]), lambda i: MyDict(b=i, a=1), lambda i: MyList([i, "x"]),
    lambda i: Data(i, np.arange(i)), lambda i: Odd(i), lambda i: {"o": Odd(i)}, lambda i: Sized(i), lambda i: [Sized(i)],
    lambda i: Unequal(i), lambda i: (Unequal(i), {}), lambda i: [], lambda i: (), lambda i: {}, lambda i: {"a": None, "b": i},
    lambda i: [None, i], lambda i: "s" * i, lambda i: b"b" * i, lambda i: {i, "s"}, lambda i: frozenset([i]),
    lambda i: np.str_("x" * i), lambda i: np.array(i), lambda i: np.array([i, "a", None], object),
    lambda i: np.array([(i, 2.5)], dtype=[("a", "i4"), ("b", "f8")]), lambda i: np.datetime64(i, "D"),
    lambda i: [[1], [1, 2, i]], lambda i: [[i, 2], [3, 4]], lambda i: 10**30 + i, lambda i: 1j * i, lambda i: slice(i),
    lambda i: int, lambda i: P(i, [i]), lambda i: P(y={"k": i}, x=None), lambda i: ValueError(i), lambda i: [{1: i}, {"a": i}],
    lambda i: float("nan"), lambda i: False, lambda i: 0, lambda i: "", lambda i: range(i), lambda i: ((i,), [i], {0: i}),
    lambda i: np.zeros((0, 3)), lambda i: np.float16(i), lambda i: [Data(i), Data(i)], lambda i: {(1, i): 2, (): 3},
]


class Weird:
  def __init__(self, kinds):
    self.kinds = kinds

  def __call__(self, i):
    return WEIRD[self.kinds[int(i) % len(self.kinds)]](int(i) % 7)


def yes(x):
  return True


def weird_pipeline(rng):
  n, kinds = rng.choice([1, 3, 9, 20]), [rng.randrange(len(WEIRD)) for _ in range(rng.choice([1, 2, 5]))]
  plan = [rng.choice(["filter", "tprefetch", "limit", "cache", "wshuffle", "repeat", "mix", "zip", "inter", "opts", "opts"])
          for _ in range(rng.randint(0, 4))]
  threads, early, opts, b = rng.choice([0, 1, 4]), rng.choice(["none", "filter", "shuffle"]), gen_opts(rng), rng.random() < 0.2
  b = b and early != "filter"

  def make(observed):
    ds = grain.MapDataset.range(n).map(Weird(kinds))
    ds = ds.filter(yes) if early == "filter" else ds.shuffle(seed=3) if early == "shuffle" else ds
    if b:
      ds = ds.batch(2, batch_fn=list)
    ds = ds.to_iter_dataset(grain.ReadOptions(num_threads=threads, prefetch_buffer_size=2 if threads else 0))
    for k in plan:
      if k == "filter":
        ds = ds.filter(yes)
      elif k == "tprefetch":
        ds = gexp.ThreadPrefetchIterDataset(ds, prefetch_buffer_size=2)
      elif k == "limit":
        ds = gexp.LimitIterDataset(ds, 12)
      elif k == "cache":
        ds = gexp.CacheIterDataset(ds)
      elif k == "wshuffle":
        ds = gexp.WindowShuffleIterDataset(ds, window_size=3, seed=2)
      elif k == "repeat":
        ds = gexp.RepeatIterDataset(ds, 2)
      elif k == "mix":
        ds = grain.IterDataset.mix([ds, gexp.LimitIterDataset(ds, 3)], [0.5, 0.5])
      elif k == "zip":
        ds = gexp.ZipIterDataset([ds, ds])
      elif k == "inter":
        ds = gexp.InterleaveIterDataset([ds, gexp.LimitIterDataset(ds, 2)], cycle_length=2)
      elif observed:
        o = dict(opts)
        if o.pop("timing", False):
          o["execution_tracking_mode"] = gexp.ExecutionTrackingMode.STAGE_TIMING
        ds = gexp.WithOptionsIterDataset(ds, gexp.DatasetOptions(**o))
    return ds
  return make, [n, kinds, plan, threads, early, opts, b]


# ------------------------------------------------------------------------------------------ differential runs


def drive(ctx, ds, m, cap, seen=snap, at=(), rng=None):
  """Elements, states before each and the final error, observing as the mode says."""
  if m.get("touch") and rng is not None:
    str(ds), repr(ds)
    with contextlib.suppress(Exception):
      gexp.get_element_spec(ds)
  it = iter(ds)
  out, states, err = [], [], None
  for _ in range(cap):
    states.append(copy.deepcopy(it.get_state()))
    if m.get("summaries") and len(out) % 5 == 2:
      try:
        s = dataset_lib.get_execution_summary(it)
        ctx.count("summaries")
        ctx.check(len(s.nodes) > 0, "summary", "an empty execution summary")
        str(it)
      except ValueError as e:
        ctx.check("execution_tracking_mode" in str(e), "summary", f"no summary: {e!r}"[:300])
        ctx.count("summaries_refused")
    try:
      out.append(seen(next(it)))
    except StopIteration:
      err = "end"
      break
    except Exception as e:  # pylint: disable=broad-except
      err = (type(e).__name__, str(e).split("\n")[0][:60])
      break
    ctx.beat()
  return out, states, err, it


def reuse(ctx, m, ds):
  """Pickles the used dataset, as starting a worker would."""
  if m.get("pickle"):
    ds = cloudpickle.loads(cloudpickle.dumps(ds))
    ctx.count("pickled")
  return ds


def differential(ctx, rng, make, modes, cap, seen, what):
  """make(observed) builds the pipeline without or with options."""
  with mode({}):
    base, bstates, berr, _ = drive(ctx, make(False), {}, cap, seen)
  for m in modes:
    ctx.describe(pipeline=what, mode=m)
    with mode(m):
      ds = make(True)
      if m.get("pickle"):
        drive(ctx, ds, m, 2, seen)
        ds = reuse(ctx, m, ds)
      got, states, err, it = drive(ctx, ds, m, cap, seen, rng=rng)
      ctx.count("oracle_checks")
      if not core.same_seq(got, base):
        ctx.fail("elements", f"mode {m} changed the elements: {str(core.first_diff(got, base))[:400]}")
      ctx.check(err == berr, "ending", f"mode {m}: ended with {err} instead of {berr}")
      if err == "end" and rng.random() < 0.3:
        ctx.check(take(it, 1)[1], "ending", f"mode {m}: an element after the end")
      k = rng.randrange(len(bstates))
      it2 = it if rng.random() < 0.4 else iter(ds)
      it2.set_state(copy.deepcopy(bstates[k]))
      if berr != "end" and berr is not None:
        more = base[k:]
        rest = [seen(x) for x in take(it2, len(more))[0]]
      else:
        more = base[k:k + 8]
        rest = [seen(x) for x in take(it2, 8)[0]][:len(more)]
      if not core.same_seq(rest, more):
        ctx.fail("state-into-mode", f"the state at {k} set in mode {m}: {str(core.first_diff(rest, more))[:300]}", state=core.jsonable(bstates[k]))
    with mode({}):
      k = rng.randrange(len(states))
      it3 = iter(make(False))
      it3.set_state(copy.deepcopy(states[k]))
      more = base[k:k + 8]
      rest = [seen(x) for x in take(it3, len(more))[0]]
      if not core.same_seq(rest, more):
        ctx.fail("state-from-mode", f"the state at {k} of mode {m} set without: {str(core.first_diff(rest, more))[:300]}", state=core.jsonable(states[k]))
    ctx.count("crossings", 2)
    ctx.count("mode_runs")
    ctx.count("elements", len(base))
    for x in m:
      ctx.count(f"mode_{x}")
  return base


def pipeline(ctx, rng):
  g = pipes.G(rng, max_n=20, model_only=False)
  spec = g.packds(max_n=20) if rng.random() < 0.1 else g.iterds()[0]
  if rng.random() < 0.1:
    spec = {"op": "boom", "bad": [rng.randint(0, 9)], "in": [spec]}
  opt = with_opts(spec, rng, rng.choice([0, 0.2, 0.6]))
  base = differential(ctx, rng, lambda o: pipes.build(opt if o else spec), [gen_mode(rng) for _ in range(2)], 50, snap, opt)
  if base:
    ctx.sig(opt)
  ctx.sample(opt)


def weird(ctx, rng):
  make, what = weird_pipeline(rng)
  differential(ctx, rng, make, [gen_mode(rng) for _ in range(2)], 50, deep, what)
  ctx.count("weird")
  ctx.sig(what)


def loader(ctx, rng, workers=0):
  s = loaders.gen(rng, workers=workers)
  if loaders.infinite(s):
    s["epochs"] = 3            # its filters may drop everything
  cap = 40
  with mode({}):
    it = iter(loaders.build(s))
    base, states = [], []
    for _ in range(cap):
      states.append(it.get_state())
      x, e = take(it, 1, ctx)
      if e:
        break
      base.append(snap(x[0]))
  m = gen_mode(rng)
  ctx.describe(loader=s, mode=m)
  with mode(m):
    it = iter(loaders.build(s))
    got = []
    for _ in range(cap):
      x, e = take(it, 1, ctx)
      if e:
        break
      got.append(snap(x[0]))
    if not core.same_seq(got, base):
      ctx.fail("loader-elements", f"mode {m} changed the loader's elements: {str(core.first_diff(got, base))[:300]}")
    if base:
      k = rng.randrange(len(states))
      it = iter(loaders.build(s))
      it.set_state(states[k])
      rest = [snap(x) for x in take(it, 8)[0]]
      ctx.check(core.same_seq(rest[:len(base[k:k + 8])], base[k:k + 8]), "loader-state", f"mode {m}: restored at {k} elsewhere")
  ctx.count("loaders")
  ctx.count("mode_runs")


# ------------------------------------------------------------------------------------------ options


FIELDS = {"filter_warn_threshold_ratio": (0.9, [None, 0.1, 0.5, 0.9]), "filter_raise_threshold_ratio": (None, [None, 0.2, 0.7]),
          "execution_tracking_mode": (gexp.ExecutionTrackingMode.DISABLED, list(gexp.ExecutionTrackingMode)),
          "min_shm_size": (0, [0, 5, 1000])}


def merging(ctx, rng):
  """Precedence of explicit values, in any grouping and number of merges."""
  sets = []
  for _ in range(rng.randint(1, 6)):
    sets.append({f: rng.choice(v) for f, (_, v) in FIELDS.items() if rng.random() < 0.4})
  opts = [gexp.DatasetOptions(**s) for s in sets]
  before = [copy.deepcopy(o) for o in opts]
  want = {f: next((s[f] for s in sets if f in s), d) for f, (d, _) in FIELDS.items()}

  def tree(xs):
    if len(xs) == 1:
      return pickle.loads(pickle.dumps(xs[0])) if rng.random() < 0.2 else xs[0]
    k = rng.randint(1, len(xs) - 1)
    return tree(xs[:k]).merge(tree(xs[k:]))
  ctx.describe(options=sets)
  got = tree(opts)
  have = {f: getattr(got, f) for f in FIELDS}
  ctx.check(have == want, "merge", f"merging {sets} gave {have} instead of {want}")
  ctx.check(opts == before, "merge-mutates", "merging changed its inputs")
  ctx.check(got.merge(None) == got, "merge", "merging with None changed options")
  ctx.count("merges")
  ctx.sig(["merge", str(sets)])


class Pattern:
  """Discards the given number of elements out of each thousand."""

  def __init__(self, drops, slice_=(0, 1)):
    self.drops, (self.k, self.w) = drops, slice_

  def __call__(self, x):
    x = int(x) // self.w
    return x % 1000 >= self.drops[x // 1000 % len(self.drops)]


def effective(ctx, rng):
  """Thresholds anywhere apply to filters anywhere; the latest explicit one counts."""
  n = rng.choice([999, 1000, 2500, 3000])
  drops = [rng.choice([0, 1, 300, 650, 999, 1000]) for _ in range(3)]
  where = rng.choice(["map", "iter", "iter", "tprefetch", "inter", "flatmix"])
  levels = []
  for _ in range(4):
    o = {}
    if rng.random() < 0.5:
      o["filter_raise_threshold_ratio"] = rng.choice([None, 0.0, 0.0005, 0.25, 0.5, 0.9, 0.9999])
    if rng.random() < 0.3:
      o["filter_warn_threshold_ratio"] = rng.choice([None, 0.0, 0.5])
    if rng.random() < 0.3:
      o["timing"] = True
    levels.append(o if rng.random() < 0.8 else None)

  def opt(ds, k):
    if levels[k] is None:
      return ds
    o = dict(levels[k])
    if o.pop("timing", False):
      o["execution_tracking_mode"] = gexp.ExecutionTrackingMode.STAGE_TIMING
    return gexp.WithOptionsIterDataset(ds, gexp.DatasetOptions(**o))
  ctx.describe(n=n, drops=drops, where=where, levels=levels)
  ds = grain.MapDataset.range(n)
  f = Pattern(drops)
  threads = rng.choice([0, 3])
  read = grain.ReadOptions(num_threads=threads, prefetch_buffer_size=5 if threads else 0)
  if where == "map":
    ds = opt(ds.filter(f).to_iter_dataset(read), 0)
  elif where == "inter":
    ds = gexp.InterleaveIterDataset([opt(ds.to_iter_dataset(read).filter(f), 0)], cycle_length=1)
  elif where == "flatmix":
    ds = grain.IterDataset.mix([opt(ds.to_iter_dataset(read).filter(f), 0)], [1.0])
  else:
    ds = opt(ds.to_iter_dataset(read), 0).filter(f)
  ds = opt(ds, 1)
  if where == "tprefetch":
    ds = gexp.ThreadPrefetchIterDataset(ds, prefetch_buffer_size=3)
  ds = opt(opt(ds.map(int), 2), 3)
  chain = [o for o in reversed(levels) if o is not None]
  thr = next((o["filter_raise_threshold_ratio"] for o in chain if "filter_raise_threshold_ratio" in o), None)
  # Iterators above an interleaving do not know the options of the interleaved datasets.
  timing = any(o.get("timing") for o in (chain if where != "inter" or levels[0] is None else chain[:-1]))
  want, err, skipped = [], "end", 0
  for x in range(n):
    keep = f(x)
    skipped += not keep
    if x % 1000 == 999:
      if thr is not None and skipped and skipped / 1000 >= thr:
        err = "ValueError"
        break
      skipped = 0
    if keep:
      want.append(x)
  it = iter(ds)
  got, end = [], None
  try:
    for x in it:
      got.append(x)
    end = "end"
  except ValueError as e:
    end = "ValueError" if "skipped" in str(e) else repr(e)
  ctx.check(end == err, "threshold", f"threshold {thr}: ended with {end} instead of {err} after {len(got)} of {len(want)} elements")
  if where != "tprefetch" and where != "inter" or err == "end":
    ctx.check(got == want, "threshold", f"threshold {thr}: {len(got)} elements instead of {len(want)}")
  try:
    dataset_lib.get_execution_summary(it)
    has = True
  except ValueError:
    has = False
  ctx.check(has == timing, "tracking-option", f"an execution summary {'exists' if has else 'is missing'} though tracking is {timing}")
  ctx.count("thresholds")
  ctx.count("threshold_raised", int(err != "end"))
  ctx.sig([n, drops, where, levels])


INVALID = [
    ("negative read threads", lambda: grain.ReadOptions(num_threads=-1)),
    ("negative read buffer", lambda: grain.ReadOptions(prefetch_buffer_size=-1)),
    ("negative workers", lambda: grain.MapDataset.range(4).to_iter_dataset().mp_prefetch(grain.MultiprocessingOptions(num_workers=-1))),
    ("no thread prefetch buffer", lambda: list(gexp.ThreadPrefetchIterDataset(grain.MapDataset.range(4).to_iter_dataset(), prefetch_buffer_size=-1))),
    ("batch size 0", lambda: grain.MapDataset.range(4).batch(0)),
    ("negative batch size", lambda: grain.MapDataset.range(4).to_iter_dataset().batch(-2)),
    ("rebatch size 0", lambda: gexp.RebatchIterDataset(grain.MapDataset.range(4).to_iter_dataset(), 0)),
    ("negative limit", lambda: gexp.LimitIterDataset(grain.MapDataset.range(4).to_iter_dataset(), -1)),
    ("negative seed", lambda: list(grain.MapDataset.range(4).shuffle(seed=-1))),
    ("too large seed", lambda: list(grain.MapDataset.range(4).shuffle(seed=2**32))),
    ("shard index", lambda: grain.sharding.ShardOptions(shard_index=3, shard_count=3)),
    ("negative shard", lambda: grain.sharding.ShardOptions(shard_index=-1, shard_count=3)),
    ("no shards", lambda: grain.sharding.ShardOptions(shard_index=0, shard_count=0)),
    ("step 0", lambda: grain.MapDataset.range(0, 5, 0)),
]


def invalid(ctx, rng):
  for name, f in INVALID:
    ctx.describe(invalid=name)
    try:
      x = f()
    except (ValueError, TypeError):
      ctx.count("refused")
    else:
      ctx.fail("accepted-invalid", f"{name} was accepted: {str(x)[:100]}")
    ctx.sig(name)


# ------------------------------------------------------------------------------------------ worker processes


class Arrays:
  def __call__(self, i):
    return {"small": np.full(4, i, np.uint8), "big": np.full(1000, i, np.int64), "text": "x"}


def mp_shm(ctx, rng):
  """min_shm_size wherever it is set decides how arrays travel."""
  for size in rng.sample([0, 1, 4, 5, 8000, 8001, None], 4):
    ds = grain.MapDataset.range(6).map(Arrays()).to_iter_dataset()
    o = gexp.DatasetOptions(min_shm_size=size) if size is not None else gexp.DatasetOptions(filter_warn_threshold_ratio=None)
    other = gexp.DatasetOptions(filter_raise_threshold_ratio=0.9) if rng.random() < 0.5 else gexp.DatasetOptions(
        min_shm_size=rng.choice([0, 10**6]))
    late = rng.random() < 0.5
    if size is None and late is not None:
      other = gexp.DatasetOptions(filter_raise_threshold_ratio=0.9)
    ctx.describe(min_shm_size=size, late=late, other=str(other))
    if late:  # overrides what is set before the workers
      ds = gexp.WithOptionsIterDataset(ds, other).mp_prefetch(grain.MultiprocessingOptions(num_workers=2))
      ds = gexp.WithOptionsIterDataset(ds, o)
    else:
      ds = gexp.WithOptionsIterDataset(gexp.WithOptionsIterDataset(ds, other), o)
      ds = ds.mp_prefetch(grain.MultiprocessingOptions(num_workers=1, enable_profiling=rng.random() < 0.3))
    got = list(ds)
    ctx.check([int(x["big"][0]) for x in got] == list(range(6)), "elements", f"min_shm_size {size}: other elements")
    for x in got:
      for k, nbytes in (("small", 4), ("big", 8000)):
        shm = isinstance(x[k], shared_memory_array.SharedMemoryArray)
        ctx.check(shm == (nbytes >= (size or 0)), "min-shm-size", f"min_shm_size {size}: an array of {nbytes} bytes was "
                  f"{'passed in shared memory' if shm else 'copied'}")
        ctx.count("shm_decisions")
    ctx.beat()
    ctx.sig(["shm", size, late])
  ctx.count("mp_cases")


def mp_modes(ctx, rng):
  """Worker processes under every mode."""
  spec = pipes.G(rng, max_n=12, model_only=False, inf=False).iterds(mdepth=2, depth=2)[0]
  n = rng.choice([1, 2])
  w = lambda s: {"op": "mp", "n": n, "buf": rng.choice([1, 2]), "in": [s]}
  opt = with_opts(w(spec), rng, 0.4)
  opt = {"op": "opts", "opts": dict(gen_opts(rng), timing=True), "in": [opt]}
  m = gen_mode(rng)
  m["fast"] = True
  differential(ctx, rng, lambda o: pipes.build(opt if o else w(spec)), [m], 40, snap, opt)
  ctx.beat()
  loader(ctx, rng, workers=2)
  ctx.count("mp_cases")
  ctx.sig(opt)


def mp_threshold(ctx, rng):
  """Thresholds set after the workers apply inside of them."""
  for thr, drops, err in ((0.4, [500], True), (0.6, [500], False), (None, [999], False), (0.0, [1], True), (0.0, [0], False)):
    ds = grain.MapDataset.range(2400).to_iter_dataset().filter(Pattern(drops, (0, 2)))
    if rng.random() < 0.5:
      ds = gexp.WithOptionsIterDataset(ds, gexp.DatasetOptions(filter_raise_threshold_ratio=0.001 if not err else None))
    ds = ds.mp_prefetch(grain.MultiprocessingOptions(num_workers=2, per_worker_buffer_size=20))
    ds = gexp.WithOptionsIterDataset(ds, gexp.DatasetOptions(filter_raise_threshold_ratio=thr))
    ctx.describe(threshold=thr, drops=drops)
    try:
      got = [int(x) for x in ds]
      end = False
    except ValueError as e:
      ctx.check("skipped" in str(e), "threshold", repr(e)[:300])
      end = True
    ctx.check(end == err, "threshold", f"workers with threshold {thr} dropping {drops} of 1000: {'raised' if end else 'did not raise'}")
    if not err:
      f = Pattern(drops, (0, 2))
      ctx.check(sorted(got) == [x for x in range(2400) if f(x)], "threshold", "other elements")
    ctx.count("thresholds")
    ctx.beat()
  ctx.count("mp_cases")


def case(ctx, i, rng):
  x = rng.random()
  if x < 0.45:
    return pipeline(ctx, rng)
  if x < 0.65:
    return weird(ctx, rng)
  if x < 0.75:
    return loader(ctx, rng)
  if x < 0.88:
    return merging(ctx, rng)
  return effective(ctx, rng)


DIRECTED = [invalid, mp_shm, mp_modes, mp_threshold, mp_modes, mp_shm, mp_modes, mp_modes]
