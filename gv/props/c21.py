"""C21: element specs describe what is produced.

Pipelines over structured elements are built together with their exact structure (own inference); the spec grain infers is
compared with every element the pipeline really produces, and with the own inference for precision.
"""
import collections
import dataclasses
import threading
import typing

import cloudpickle
import grain
from grain import experimental as gexp
from grain import transforms
import numpy as np

from gv import core
from gv.core import take

Pair = collections.namedtuple("Pair", ["first", "second"])


class Triple(typing.NamedTuple):
  a: typing.Any
  b: typing.Any
  c: typing.Any


@dataclasses.dataclass
class MySpec:
  shape: tuple
  dtype: typing.Any


@dataclasses.dataclass(frozen=True)
class L:
  """Leaf of the own inference; dims are ints, None (varies) or ("<=", k)."""
  dtype: str
  shape: tuple


def tmap(fn, x, *more):
  if isinstance(x, dict):
    return type(x)((k, tmap(fn, v, *[m[k] for m in more])) for k, v in x.items())
  if isinstance(x, tuple) and hasattr(x, "_fields"):
    return type(x)(*[tmap(fn, *vs) for vs in zip(x, *more)])
  if isinstance(x, (list, tuple)):
    return type(x)(tmap(fn, *vs) for vs in zip(x, *more))
  return fn(x, *more)


def leaves(x):
  out = []
  tmap(out.append, x)
  return out


# ------------------------------------------------------------------------------------------ transformations with specs

CALLS = collections.Counter()  # of transformations by thread


def value(leaf, seed):
  r = np.random.default_rng(seed)
  dt = np.dtype(leaf.dtype)
  if leaf.shape == () and leaf.dtype in ("int64", "float64", "bool") and seed % 2:
    v = r.integers(0, 100)
    return {"int64": int, "float64": float, "bool": bool}[leaf.dtype](v)
  v = r.integers(0, 100, leaf.shape).astype(dt)
  return v if leaf.shape else dt.type(v)


class Make:
  """int -> structure."""

  def __init__(self, struct, cls):
    self.struct, self.cls = struct, cls

  def make(self, x):
    CALLS[threading.get_ident()] += 1
    return tmap(lambda l: value(l, int(np.sum(leaves(x)[0])) % 2**31), self.struct)

  def output_spec(self, input_spec):
    return tmap(lambda l: self.cls(shape=l.shape, dtype=np.dtype(l.dtype)), self.struct)


class MakeMap(Make, transforms.Map):
  def map(self, x):
    return self.make(x)


class MakeCall(Make):
  def __call__(self, x):
    return self.make(x)


class MakeRandom(Make, transforms.RandomMap):
  def random_map(self, x, rng):
    rng.integers(3)
    return self.make(x)


class MakeIndex(Make, transforms.MapWithIndex):
  def map_with_index(self, i, x):
    return self.make(x)


class Wrap:
  """x -> {"w": x, "extra": scalar} or (x, x)."""

  def __init__(self, how):
    self.how = how

  def make(self, x):
    CALLS[threading.get_ident()] += 1
    return {"w": x, "extra": np.float32(1)} if self.how else (x, [x])

  def output_spec(self, s):
    return {"w": s, "extra": MySpec((), np.float32)} if self.how else (s, [s])


class WrapMap(Wrap, transforms.Map):
  def map(self, x):
    return self.make(x)


class WrapRandom(Wrap, transforms.RandomMap):
  def random_map(self, x, rng):
    return self.make(x)


class WrapIndex(Wrap, transforms.MapWithIndex):
  def map_with_index(self, i, x):
    return self.make(x)


class Keep(transforms.Filter):
  def filter(self, x):
    CALLS[threading.get_ident()] += 1
    return int(np.sum(np.asarray(leaves(x)[0]).astype(np.int64))) % 4 != 0


class Stack:
  """A batch function that can tell its spec."""

  def __init__(self, tag):
    self.tag = tag

  def __call__(self, elements):
    return {self.tag: tmap(lambda *xs: np.stack([np.asarray(x) for x in xs]), *elements), "size": len(elements)}

  def output_spec(self, input_spec, batch_size, drop_remainder):
    n = batch_size if drop_remainder else None
    return {self.tag: tmap(lambda s: MySpec((n,) + tuple(s.shape), s.dtype), input_spec), "size": MySpec((), np.int64)}


# ------------------------------------------------------------------------------------------ structures


def leaf(rng):
  return L(rng.choice(["int64", "int64", "float64", "bool", "int8", "uint16", "float32", "float16", "complex64", "int32"]),
           rng.choice([(), (), (1,), (3,), (2, 3), (0,), (1, 2, 2)]))


def structure(rng, depth=0, lead=None):
  k = rng.random()
  if depth > 2 or k < 0.35:
    l = leaf(rng)
    return L(l.dtype, (lead,) + l.shape) if lead else l
  sub = lambda: structure(rng, depth + 1, lead)
  if k < 0.6:
    return {n: sub() for n in rng.sample(["a", "b", "c", "z", "B"], rng.randint(1, 3))}
  if k < 0.7:
    return tuple(sub() for _ in range(rng.randint(1, 3)))
  if k < 0.8:
    return [sub() for _ in range(rng.randint(1, 3))]
  if k < 0.9:
    return Pair(sub(), sub())
  return Triple(sub(), sub(), sub())


SPEC_CLASSES = [MySpec]
try:
  import jax
  SPEC_CLASSES.append(jax.ShapeDtypeStruct)
except ImportError:
  pass


def plus(st, b, drop):
  d = b if drop else None
  return tmap(lambda l: L(l.dtype, (d,) + l.shape), st)


def fixed(st):
  return all(isinstance(d, int) for l in leaves(st) for d in l.shape)


def leads(st):
  """Can be rebatched: every leaf an array with the same leading dimension."""
  ls = leaves(st)
  return all(l.shape for l in ls) and len({l.shape[0] for l in ls}) == 1 and ls[0].shape[0] != 0


def gen_map(rng, st0=None, depth=0):
  """A map dataset, its own spec, whether its spec can be known and how it was made."""
  n = rng.choice([0, 1, 2, 5, 9, 16])
  a = rng.choice([0, 5, -3])
  step = rng.choice([1, 2, -1])
  ds, st, ok, how = grain.MapDataset.range(a, a + n * step, step), L("int64", ()), True, [f"range{n}"]
  st0 = st0 or structure(rng, lead=rng.choice([None, None, 2, 3]))
  for _ in range(rng.randint(0, 2)):
    if rng.random() < 0.2:
      ds, how = ds.shuffle(3), how + ["shuffle"]
    else:
      ds, how = ds[:rng.randint(0, 9)], how + ["slice"]
  cls = rng.choice(SPEC_CLASSES)
  k = rng.choice([MakeMap, MakeMap, MakeCall, MakeRandom, MakeIndex])
  if k is MakeRandom:
    ds = ds.random_map(k(st0, cls), seed=3)
  elif k is MakeIndex:
    ds = ds.map_with_index(k(st0, cls))
  else:
    ds = ds.map(k(st0, cls))
  st = st0
  how.append(k.__name__)
  for _ in range(rng.randint(0, 3)):
    k = rng.choice(["wrap", "shuffle", "slice", "repeat", "batch", "filter", "mix", "concat", "zip", "seed", "wshuffle", "wrap2",
                    "select", "reseed"]) if rng.random() < 0.92 else rng.choice(["lambda", "custom", "flat", "source"])
    how.append(k)
    if k == "wrap":
      w = rng.random() < 0.5
      ds, st = ds.map(WrapMap(w)), wrapped(st, w)
    elif k == "wrap2":
      w = rng.random() < 0.5
      ds = ds.seed(1).random_map(WrapRandom(w)) if rng.random() < 0.5 else ds.map_with_index(WrapIndex(w))
      st = wrapped(st, w)
    elif k == "shuffle":
      ds = ds.seed(7).shuffle()
    elif k == "wshuffle":
      ds = gexp.WindowShuffleMapDataset(ds, window_size=3, seed=4)
    elif k == "slice":
      ds = ds[rng.randint(0, 3)::rng.choice([1, 2])]
    elif k == "repeat":
      ds = ds.repeat(2) if len(ds) else ds
    elif k == "reseed":
      ds = ds.repeat(2, reseed_each_epoch=False) if len(ds) else ds
    elif k == "seed":
      ds = ds.seed(5)
    elif k == "filter":
      if "filter" in how[:-1] or not fixed(st):
        continue
      ds = ds.filter(Keep())
    elif k == "batch":
      if {"filter", "flat"} & set(how) or not fixed(st):
        how[-1] = "-"
        continue
      b, drop = rng.choice([1, 2, 3, 30]), rng.random() < 0.5
      if rng.random() < 0.25:
        ds, st = ds.batch(b, drop_remainder=drop, batch_fn=Stack("s")), {"s": plus(st, b, drop), "size": L("int64", ())}
      else:
        ds, st = ds.batch(b, drop_remainder=drop), plus(st, b, drop)
    elif k in ("mix", "concat", "select"):
      if depth or not isinstance(ok, bool):
        continue
      o = twin(rng, ds, st)
      if not len(ds) or not len(o):
        continue
      if k == "mix":
        ds = grain.MapDataset.mix([ds, o], [1, 2])
      elif k == "concat":
        ds = grain.MapDataset.concatenate([ds, o])
      else:
        ds = grain.MapDataset.select_from_datasets([ds, o], Pick([(rng.randint(0, 1), 0) for _ in range(3)]))
    elif k == "zip":
      o = grain.MapDataset.range(max(1, len(ds))).map(MakeMap(structure(rng), MySpec))
      if not len(ds) or "filter" in how:
        how[-1] = "-"
        continue
      so = o._transform.struct  # pylint: disable=protected-access
      ds, st = gexp.ZipMapDataset([ds, o]), (st, so)
    elif k == "lambda":
      ds, ok = ds.map(lambda x: x), False
    elif k == "custom":
      if {"filter", "flat"} & set(how):
        continue
      ds, ok, st = ds.batch(2, batch_fn=lambda xs: len(xs)), False, L("int64", ())
    elif k == "flat":
      ds, ok = gexp.FlatMapMapDataset(ds, Twice()), False
    elif k == "source":
      ds, ok, st = grain.MapDataset.source([1, 2, 3]), False, L("int64", ())
  return ds, st, ok, how


class Pick(transforms.DatasetSelectionMap):
  def __init__(self, picks):
    self.picks = picks

  def __len__(self):
    return len(self.picks)

  def __getitem__(self, i):
    return self.picks[i % len(self.picks)]


class Twice(gexp.FlatMapTransform):
  max_fan_out = 2

  def flat_map(self, x):
    return [x, x]


def wrapped(st, w):
  return {"w": st, "extra": L("float32", ())} if w else (st, [st])


def twin(rng, ds, st):
  """Another dataset with the same element structure."""
  del st
  return ds[:rng.randint(1, 5)] if rng.random() < 0.5 else ds.shuffle(seed=1)


def gen_iter(rng, mp=False):
  ds, st, ok, how = gen_map(rng)
  if how[-1:] == ["range0"]:
    pass
  ds = ds.to_iter_dataset(*([grain.ReadOptions(num_threads=rng.choice([1, 4]), prefetch_buffer_size=3)] if rng.random() < 0.3 else []))
  how.append("|")
  for _ in range(rng.randint(0, 4)):
    k = rng.choice(["wrap", "batch", "rebatch", "rebatch", "filter", "mix", "inter", "limit", "repeat", "cache", "zip", "thread",
                    "options", "seed", "wshuffle", "wrap2"]) if rng.random() < 0.93 else rng.choice(["lambda", "custom", "flat", "pad"])
    how.append(k)
    if k == "wrap":
      w = rng.random() < 0.5
      ds, st = ds.map(WrapMap(w)), wrapped(st, w)
    elif k == "wrap2":
      w = rng.random() < 0.5
      ds = ds.seed(1).random_map(WrapRandom(w)) if rng.random() < 0.5 else ds.map_with_index(WrapIndex(w))
      st = wrapped(st, w)
    elif k == "batch":
      if not fixed(st):
        how[-1] = "-"
        continue
      b, drop = rng.choice([1, 2, 3, 30]), rng.random() < 0.5
      if rng.random() < 0.25:
        ds, st = ds.batch(b, drop_remainder=drop, batch_fn=Stack("s")), {"s": plus(st, b, drop), "size": L("int64", ())}
      else:
        ds, st = ds.batch(b, drop_remainder=drop), plus(st, b, drop)
    elif k == "rebatch":
      if not leads(st) or not all(isinstance(d, int) for l in leaves(st) for d in l.shape[1:]):
        how[-1] = "-"
        continue
      b, drop = rng.choice([1, 2, 3, 5, 8]), rng.random() < 0.5
      ds = gexp.RebatchIterDataset(ds, b, drop_remainder=drop)
      st = tmap(lambda l: L(l.dtype, (b if drop else ("<=", b),) + l.shape[1:]), st)
    elif k == "filter":
      ds = ds.filter(Keep())
    elif k == "mix":
      ds = grain.IterDataset.mix([ds, gexp.LimitIterDataset(ds, 3)], [0.5, 0.5])
    elif k == "inter":
      ds = gexp.InterleaveIterDataset([ds, gexp.LimitIterDataset(ds, 2), ds], cycle_length=2)
    elif k == "limit":
      ds = gexp.LimitIterDataset(ds, rng.randint(1, 9))
    elif k == "repeat":
      ds = gexp.RepeatIterDataset(ds, 2)
    elif k == "cache":
      ds = gexp.CacheIterDataset(ds)
    elif k == "zip":
      s2 = structure(rng)
      ds = gexp.ZipIterDataset([ds, grain.MapDataset.range(9).map(MakeCall(s2, MySpec)).to_iter_dataset()], strict=False)
      st = (st, s2)
    elif k == "thread":
      ds = gexp.ThreadPrefetchIterDataset(ds, prefetch_buffer_size=2)
    elif k == "options":
      ds = gexp.WithOptionsIterDataset(ds, gexp.DatasetOptions(filter_warn_threshold_ratio=None))
    elif k == "seed":
      ds = ds.seed(5)
    elif k == "wshuffle":
      ds = gexp.WindowShuffleIterDataset(ds, window_size=3, seed=3)
    elif k == "lambda":
      ds, ok = ds.map(lambda x: x), False
    elif k == "custom":
      ds, ok, st = ds.batch(2, batch_fn=lambda xs: np.zeros(len(xs))), False, L("float64", (None,))
    elif k == "flat":
      ds, ok = gexp.FlatMapIterDataset(ds, Twice()), False
    elif k == "pad":
      if not fixed(st):
        continue
      import functools
      ds, ok = ds.batch(4, batch_fn=functools.partial(gexp.batch_and_pad, batch_size=4)), False
      st = plus(st, 4, True)
  if mp:
    how.append("mp")
    if rng.random() < 0.6 and fixed(st):
      b, drop = rng.choice([1, 2, 3]), rng.random() < 0.5
      ds, st = ds.batch(b, drop_remainder=drop), plus(st, b, drop)
      how.append("batch")
    ds = ds.mp_prefetch(grain.MultiprocessingOptions(num_workers=2))
  return ds, st, ok, how


# ------------------------------------------------------------------------------------------ oracle


def is_spec(x):
  return hasattr(x, "shape") and hasattr(x, "dtype") and not isinstance(x, (np.ndarray, np.generic, dict, list, tuple))


def mismatch(spec, elem, own, path="$"):
  """First difference between a spec and an element."""
  if is_spec(spec):
    if isinstance(elem, (dict, list, tuple)):
      return f"{path}: a {type(elem).__name__} instead of an array"
    a = np.asarray(elem)
    if a.dtype != np.dtype(spec.dtype):
      return f"{path}: dtype {a.dtype} but spec {spec.dtype}"
    if len(spec.shape) != a.ndim:
      return f"{path}: shape {a.shape} but spec {spec.shape}"
    for j, (d, s) in enumerate(zip(a.shape, spec.shape)):
      free = isinstance(own, L) and j < len(own.shape) and isinstance(own.shape[j], tuple)
      if s is not None and d != s and not (free and d <= s):
        return f"{path}: shape {a.shape} but spec {spec.shape}"
    return None
  if type(spec) is not type(elem):
    return f"{path}: a {type(elem).__name__} but spec has {type(spec).__name__}"
  if isinstance(spec, dict):
    if spec.keys() != elem.keys():
      return f"{path}: keys {sorted(elem)} but spec has {sorted(spec)}"
    return next((m for k in spec if (m := mismatch(spec[k], elem[k], own[k] if isinstance(own, dict) else None, f"{path}.{k}"))), None)
  if isinstance(spec, (list, tuple)):
    if len(spec) != len(elem):
      return f"{path}: {len(elem)} items but spec has {len(spec)}"
    owns = own if isinstance(own, (list, tuple)) else [None] * len(spec)
    return next((m for j, (s, e, o) in enumerate(zip(spec, elem, owns)) if (m := mismatch(s, e, o, f"{path}[{j}]"))), None)
  return f"{path}: {spec!r} is not a spec"


def text(spec):
  return str(tmap(lambda s: f"{np.dtype(s.dtype)}{tuple(s.shape)}" if is_spec(s) else f"?{s!r}", spec))


def imprecise(spec, own):
  """The spec as text and whether it leaves open what is known."""
  try:
    bad = []
    tmap(lambda o, s: bad.append((o, s)) if np.dtype(s.dtype) != np.dtype(o.dtype) or len(s.shape) != len(o.shape) or any(
        isinstance(d, int) and d != x for d, x in zip(o.shape, s.shape)) else None, own, spec)
  except (TypeError, KeyError, AttributeError, IndexError) as e:
    return repr(e)
  return str(bad[0])[:200] if bad else None


def run(ctx, rng, ds, st, ok, how):
  ctx.describe(pipeline=how)
  CALLS.clear()
  try:
    spec = gexp.get_element_spec(ds)
  except Exception as e:  # pylint: disable=broad-except
    if ok:
      raise
    ctx.count("refused")
    ctx.sig([how, str(st)])
    return
  ctx.check(CALLS[threading.get_ident()] == 0, "computes", "asking for the element spec ran transformations")
  ctx.count("oracle_checks")
  again = gexp.get_element_spec(ds)
  ctx.check(text(again) == text(spec), "unstable", f"asking again gave {text(again)[:200]} instead of {text(spec)[:200]}")
  if rng.random() < 0.3:
    copy = gexp.get_element_spec(cloudpickle.loads(cloudpickle.dumps(ds)))
    ctx.check(text(copy) == text(spec), "unstable", f"a pickled copy has spec {text(copy)[:200]} instead of {text(spec)[:200]}")
  n = 0
  elems = (ds[i] for i in range(min(len(ds), 40))) if isinstance(ds, grain.MapDataset) else take(iter(ds), 60)[0]
  for e in elems:
    if e is None:
      continue
    m = mismatch(spec, e, st)
    if m:
      ctx.fail("element", f"{how}: spec {text(spec)[:250]}, element {n}: {m}")
    n += 1
  if ok:
    m = imprecise(spec, st)
    ctx.check(not m, "imprecise", f"{how}: spec {text(spec)[:250]} is not what the pipeline determines: {m}")
  else:
    ctx.fail("unsupported", f"{how}: a spec ({text(spec)[:200]}) for a transformation that can not tell its output") if n == 0 else None
  ctx.count("elements", n)
  ctx.count("specs")
  ctx.count("map_specs" if isinstance(ds, grain.MapDataset) else "iter_specs")
  if n:
    ctx.sig([how, str(st)])
    ctx.sample([how, text(spec)[:300]])


def case(ctx, i, rng):
  if rng.random() < 0.4:
    ds, st, ok, how = gen_map(rng)
  else:
    ds, st, ok, how = gen_iter(rng)
  run(ctx, rng, ds, st, ok, how)


def mp(ctx, rng):
  """Worker processes, shared memory and the parallel batch function."""
  from contextlib import ExitStack
  from gv.props import c10
  with ExitStack() as st:
    if rng.random() < 0.5:
      st.enter_context(c10.parallel())
    for _ in range(3):
      ctx.beat()
      run(ctx, rng, *gen_iter(rng, mp=True))
      ctx.count("mp_cases")


def parallel(ctx, rng):
  from gv.props import c10
  with c10.parallel():
    for _ in range(10):
      case(ctx, 0, rng)
      ctx.count("parallel_batch_cases")


def rebatch_rest(ctx, rng):
  """The last batch of a rebatched dataset."""
  ds = grain.MapDataset.range(10).batch(3, drop_remainder=True).to_iter_dataset()
  ds = gexp.RebatchIterDataset(ds, 4, drop_remainder=False)
  spec = gexp.get_element_spec(ds)
  for e in ds:
    ctx.check(spec.shape[0] in (None, len(e)), "rebatch-partial-batch", f"spec {text(spec)}, element of shape {e.shape}")


DIRECTED = [rebatch_rest, mp, mp, parallel, mp, mp, parallel]
