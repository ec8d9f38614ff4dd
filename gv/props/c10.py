"""C10: batching and unbatching preserve every value, structure and dtype."""
import collections
import contextlib
import functools

import grain
from grain import experimental as gexp
from grain._src.python import operations as legacy
import numpy as np

from gv import core, fns
from gv.core import snap, take

NT = collections.namedtuple("NT", ["x", "y"])
BATCH = "grain._src.python.dataset.transformations.batch"

DTYPES = ["bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float16", "float32",
          "float64", "complex64", "complex128", "U", "S", "M8[s]", "m8[ms]", "object", "struct", ">i4", ">f8"]
SCALARS = ["pyint", "pyfloat", "pybool", "pystr", "pybytes", "npint", "npfloat", "npu64"]


def template(rng, depth=0):
  """A random structure of leaf descriptions."""
  t = rng.random()
  if depth < 3 and t < 0.25:
    return {k: template(rng, depth + 1) for k in rng.sample(["a", "b", "c", "zz", "B"], rng.randint(1, 3))}
  if depth < 3 and t < 0.33:
    return [template(rng, depth + 1) for _ in range(rng.randint(1, 2))]
  if depth < 3 and t < 0.41:
    return tuple(template(rng, depth + 1) for _ in range(rng.randint(1, 3)))
  if depth < 3 and t < 0.47:
    return NT(template(rng, depth + 1), template(rng, depth + 1))
  if t < 0.65 and depth:
    return ("leaf", rng.choice(SCALARS))
  shape = [rng.choice([0, 1, 2, 3]) if rng.random() < 0.3 else rng.randint(1, 4) for _ in range(rng.randint(0, 3))]
  return ("leaf", rng.choice(DTYPES), shape, rng.choice(["c", "c", "f", "t", "neg", "stride", "ro"]))


def is_leaf(t):
  return type(t) is tuple and len(t) > 1 and t[0] == "leaf"


def fill(t, u, salt=0):
  """The element of number u; every value depends on u."""
  if is_leaf(t):
    return leaf(t, u * 31 + salt)
  if isinstance(t, dict):
    return {k: fill(v, u, salt + 1 + j) for j, (k, v) in enumerate(t.items())}
  if isinstance(t, NT):
    return NT(fill(t.x, u, salt + 3), fill(t.y, u, salt + 4))
  if isinstance(t, list):
    return [fill(v, u, salt + 7 + j) for j, v in enumerate(t)]
  return tuple(fill(v, u, salt + 11 + j) for j, v in enumerate(t))


def leaf(t, u):
  k = t[1]
  if k in SCALARS:
    return {"pyint": u - 40, "pyfloat": u / 8, "pybool": u % 3 == 0, "pystr": "s" * (u % 5) + str(u),
            "pybytes": b"b" * (u % 4) + str(u).encode(), "npint": np.int32(u - 9), "npfloat": np.float32(u / 4),
            "npu64": np.uint64(2**63 + u)}[k]
  shape, lay = tuple(t[2]), t[3]
  n = int(np.prod(shape)) if shape else 1
  if k == "bool":
    a = (np.arange(n) * 7 + u) % 3 == 0
  elif k == "U":
    a = np.array([f"é{u}" + "x" * ((u + j) % 6) for j in range(n)], dtype=None if n else "U3")
  elif k == "S":
    a = np.array([str(u).encode() + b"y" * ((u + j) % 6) for j in range(n)], dtype=None if n else "S3")
  elif k == "object":
    a = np.empty(n, object)
    for j in range(n):
      a[j] = ("o", u, j)
  elif k == "struct":
    a = np.zeros(n, dtype=[("p", "i4"), ("q", "f8", (2,))])
    a["p"] = np.arange(n) + u
    a["q"] = (np.arange(n) + u)[:, None] / 2
  elif k in ("M8[s]", "m8[ms]"):
    a = (np.arange(n, dtype="i8") * 1000 + u).astype(k)
  elif k == "uint64":
    a = np.arange(n, dtype="u8") + np.uint64(2**64 - 1 - 5000) + np.uint64(u % 4000)
  elif k == "int64":
    a = np.arange(n, dtype="i8") + (2**62 + u) * (-1 if u % 2 else 1)
  elif k in ("float16", "float32", "float64", ">f8"):
    a = ((np.arange(n) + u) / 7).astype(k)
    if n and u % 5 == 0:
      a[0] = np.nan
    if n > 1 and u % 7 == 0:
      a[1] = -np.inf
  elif k.startswith("complex"):
    a = ((np.arange(n) + u) * (1 + 0.5j)).astype(k)
  else:
    a = (np.arange(n) * 3 + u).astype(k)
  a = a.reshape(shape)
  if lay == "f":
    a = np.asfortranarray(a)
  elif lay == "t" and a.ndim > 1:
    a = np.ascontiguousarray(a.T).T
  elif lay == "neg" and a.ndim:
    a = np.ascontiguousarray(a[::-1])[::-1]
  elif lay == "stride" and a.ndim:
    big = np.repeat(a, 2, axis=-1)
    a = big[..., ::2]
  elif lay == "ro":
    a.setflags(write=False)
  return a


def ref_stack(es, pad=None):
  """Leaf-wise stacking, checked row by row against the elements."""
  e0 = es[0]
  if isinstance(e0, dict):
    return {k: ref_stack([e[k] for e in es], pad) for k in e0}
  if isinstance(e0, NT):
    return NT(*(ref_stack([e[j] for e in es], pad) for j in range(2)))
  if isinstance(e0, (list, tuple)):
    return type(e0)(ref_stack([e[j] for e in es], pad) for j in range(len(e0)))
  arrs = [np.asarray(e) for e in es]
  dt = np.result_type(*arrs) if arrs[0].dtype.kind != "O" else arrs[0].dtype
  out = np.empty((len(es) + (pad[0] if pad else 0),) + arrs[0].shape, dt)
  for j, a in enumerate(arrs):
    out[j, ...] = a
  if pad and pad[0]:
    out[len(es):] = np.full((), pad[1], arrs[0].dtype)
  return out


def norm(e):
  """Plain arrays without subclasses (shared memory) and byte order."""
  def f(l):
    return np.array(l) if isinstance(l, np.ndarray) else l
  return fns.tmap(f, e)


def eq(a, b):
  """Like core.same, with byte order ignored."""
  if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
    return a.dtype.newbyteorder("=") == b.dtype.newbyteorder("=") and a.shape == b.shape and _vals(a, b)
  if type(a) is not type(b):
    return False
  if isinstance(a, dict):
    return a.keys() == b.keys() and all(eq(a[k], b[k]) for k in a)
  if isinstance(a, (list, tuple)):
    return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
  return core.same(a, b)


def _vals(a, b):
  if a.dtype.kind == "O":
    return all(eq(x, y) for x, y in zip(a.ravel(), b.ravel()))
  if a.dtype.names:
    return all(_vals(a[n], b[n]) for n in a.dtype.names)
  if a.dtype.kind in "fc":
    return bool(np.array_equal(a, b, equal_nan=True))
  return bool(np.array_equal(a, b))


def kinds_in(t, out=None):
  out = set() if out is None else out
  if is_leaf(t):
    out.add(t[1])
  else:
    for v in (t.values() if isinstance(t, dict) else t):
      kinds_in(v, out)
  return out


class Make:
  def __init__(self, t):
    self.t = t

  def __call__(self, u):
    return fill(self.t, int(u))


def describe(t):
  return core.jsonable(t) if not isinstance(t, NT) else ["NT", core.jsonable(t.x), core.jsonable(t.y)]


def expected(es, bs, drop, pad=None):
  out = []
  for j in range(0, len(es), bs):
    b = es[j:j + bs]
    if len(b) < bs and drop:
      break
    out.append(ref_stack(b, (bs - len(b), pad) if pad is not None else None))
  return out


def compare(ctx, got, want, key, what):
  ctx.count("batches", len(want))
  ctx.check(len(got) == len(want), key, f"{what}: {len(got)} batches instead of {len(want)}")
  for j, (a, b) in enumerate(zip(got, want)):
    ctx.check(eq(norm(a), b), key, f"{what}: batch {j} differs", got=core.jsonable(a), want=core.jsonable(b))


@contextlib.contextmanager
def parallel():
  with contextlib.ExitStack() as st:
    ok = st.enter_context(core.patched(BATCH, "_is_parallel_batch_experiment_enabled", lambda: True))
    st.enter_context(core.patched(BATCH, "_PARALLEL_BATCHING_MIN_TOTAL_BYTES", 0))
    st.enter_context(core.patched(BATCH, "_PARALLEL_BATCHING_MIN_BATCH_SIZE", 1))
    yield ok


def case(ctx, i, rng):
  k = rng.randrange(10)
  if k in (3, 7):
    return rebatch(ctx, rng)
  if k == 5:
    return mismatch(ctx, rng)
  if k == 8:
    return unbatch(ctx, rng)
  t = template(rng)
  n = rng.randint(1, 20)
  bs = rng.randint(1, 7)
  drop = rng.random() < 0.4
  how = rng.choice(["map", "map", "iter", "iter", "parallel", "parallel", "shm", "shm", "pshm", "pad", "ipad", "pushdown",
                    "custom", "loader", "legacy"])
  ctx.describe(template=describe(t), n=n, bs=bs, drop=drop, how=how)
  es = [fill(t, u) for u in range(n)]
  want = expected(es, bs, drop)
  src = grain.MapDataset.source(fns.Src(n, 0, "int")).map(Make(t))
  ctx.sig([describe(t), how, n, bs])
  ctx.sample([describe(t), how, n, bs])
  ctx.count(f"how_{how}")
  if how in ("map", "pushdown"):
    ds = src.batch(bs, drop_remainder=drop)
    ctx.check(len(ds) == len(want), "batch-count", f"len() is {len(ds)}, not {len(want)}")
    with core.patched(BATCH, "_is_batch_map_pushdown_experiment_enabled", lambda: how == "pushdown"):
      order = list(range(len(want)))
      rng.shuffle(order)
      got = [None] * len(want)
      for j in order:
        got[j] = snap(ds[j])
      compare(ctx, got, want, "batch-content", how)
      if want:
        ep = rng.randint(1, 3)
        compare(ctx, [ds[len(want) * ep + j] for j in range(len(want))], want, "batch-epoch", f"{how}, epoch {ep}")
  elif how == "iter":
    compare(ctx, list(src.to_iter_dataset().batch(bs, drop_remainder=drop)), want, "batch-content", how)
  elif how in ("parallel", "pshm"):
    with parallel() as ok:
      ds = src.to_iter_dataset().batch(bs, drop_remainder=drop)
      if how == "pshm" and hasattr(ds, "enable_shared_memory_output"):
        ds.enable_shared_memory_output()
      got = [keep(x) for x in ds]
      compare(ctx, got, want, "batch-parallel", how)
      if ok:
        ctx.count("parallel_batches", len(want))
  elif how == "shm":
    ds = src.batch(bs, drop_remainder=drop) if rng.random() < 0.5 else src.to_iter_dataset().batch(bs, drop_remainder=drop)
    ds.enable_shared_memory_output()
    if isinstance(ds, grain.MapDataset):
      got = [keep(ds[j]) for j in range(len(want))]
    else:
      got = [keep(x) for x in ds]
    compare(ctx, got, want, "batch-shm", how)
    ctx.count("shm_batches", len(want))
  elif how in ("pad", "ipad"):
    if kinds_in(t) & {"U", "S", "object", "struct", "pystr", "pybytes", "M8[s]", "m8[ms]", "npu64", "uint64"}:
      return
    pv = rng.choice([0, 1, 3]) if rng.random() < 0.8 else rng.choice([True, 2.0])
    fn = functools.partial(gexp.batch_and_pad, batch_size=bs, pad_value=pv)
    ds = src.batch(bs, batch_fn=fn) if how == "pad" else src.to_iter_dataset().batch(bs, batch_fn=fn)
    got = [ds[j] for j in range(len(ds))] if how == "pad" else list(ds)
    compare(ctx, got, expected(es, bs, False, pad=pv), "batch-pad", how)
    ctx.count("padded")
  elif how == "custom":
    ds = src.batch(bs, drop_remainder=drop, batch_fn=fns.as_list) if rng.random() < 0.5 else \
        src.to_iter_dataset().batch(bs, drop_remainder=drop, batch_fn=fns.as_list)
    got = [ds[j] for j in range(len(ds))] if isinstance(ds, grain.MapDataset) else list(ds)
    w = [es[j:j + bs] for j in range(0, n, bs) if not drop or j + bs <= n]
    ctx.check(eq(got, w), "batch-fn-input", "the batch function does not receive the consecutive elements")
  elif how in ("loader", "legacy"):
    op = grain.transforms.Batch(bs, drop_remainder=drop) if how == "loader" else legacy.BatchOperation(bs, drop_remainder=drop)
    if how == "legacy" and kinds_in(t) & {"U", "S", "object", "pystr", "pybytes", "struct"}:
      return
    dl = grain.DataLoader(data_source=fns.Src(n, 0, "int"), sampler=grain.samplers.SequentialSampler(
        num_records=n, shard_options=grain.sharding.NoSharding()), operations=[MakeOp(t), op], worker_count=0)
    compare(ctx, list(dl), want, f"batch-{how}", how)


class MakeOp(grain.transforms.Map):
  def __init__(self, t):
    self.t = t

  def map(self, u):
    return fill(self.t, int(u))


def keep(b):
  """Copies a batch out of shared memory and frees the memory."""
  c = norm(b)
  def f(l):
    if hasattr(l, "unlink_on_del"):
      l.unlink_on_del()
    return None
  fns.tmap(f, b)
  return c


def rebatch(ctx, rng):
  """Batches of varying sizes cut to another size keep the concatenated rows."""
  while True:
    t = template(rng)
    if not kinds_in(t) & set(SCALARS):
      break
  sizes = [rng.randint(1, 7) for _ in range(rng.randint(0, 8))]
  if rng.random() < 0.4:
    sizes = [rng.choice([1, 4])] * len(sizes)
  bs, drop = rng.randint(1, 9), rng.random() < 0.4
  ctx.describe(rebatch=sizes, bs=bs, drop=drop, template=describe(t))
  n = sum(sizes)
  es = [fill(t, u) for u in range(n)]
  groups, j = [], 0
  for k in sizes:
    groups.append(ref_stack(es[j:j + k]))
    j += k
  ds = gexp.RebatchIterDataset(grain.MapDataset.source(groups).to_iter_dataset() if groups else
                               grain.MapDataset.range(0).to_iter_dataset(), bs, drop)
  if rng.random() < 0.3:
    bs2 = rng.randint(1, 9)
    if not drop:
      ds = gexp.RebatchIterDataset(ds, bs2, drop)
      bs = bs2
  got = [norm(x) for x in ds]
  want = expected(es, bs, drop)
  ctx.count("batches", len(want))
  ctx.check(len(got) == len(want), "rebatch", f"{len(got)} batches of {bs} from {sizes}, not {len(want)}")
  for j, (a, b) in enumerate(zip(got, want)):
    # strings keep the width of the batches they came from
    ctx.check(rows_equal(a, b), "rebatch", f"batch {j} differs", got=core.jsonable(a), want=core.jsonable(b))
  ctx.count("rebatched")
  if groups:
    ctx.sig([sizes, bs, drop, describe(t)])


def rows_equal(a, b):
  if isinstance(a, np.ndarray) and a.dtype.kind in "US":
    return isinstance(b, np.ndarray) and b.dtype.kind == a.dtype.kind and a.shape == b.shape and bool((a == b).all())
  if type(a) is not type(b):
    return False
  if isinstance(a, dict):
    return a.keys() == b.keys() and all(rows_equal(a[k], b[k]) for k in a)
  if isinstance(a, (list, tuple)):
    return len(a) == len(b) and all(rows_equal(x, y) for x, y in zip(a, b))
  return eq(a, b)


def mismatch(ctx, rng):
  """Elements that cannot be stacked are refused in every mode, not broadcast or truncated."""
  n = rng.randint(2, 9)
  j = rng.randrange(n)
  base = [rng.randint(1, 3) for _ in range(rng.randint(0, 2))]
  kind = rng.choice(["shape", "rank", "keys", "length", "one"])
  a = lambda u, s: np.full(s, u, np.int32)
  es = [{"a": a(u, base), "b": a(u, [2])} for u in range(n)]
  if kind == "shape":
    es[j]["b"] = a(j, [rng.choice([1, 3])])
  elif kind == "one":
    es[j]["b"] = a(j, [1]) if rng.random() < 0.5 else a(j, [])
  elif kind == "rank":
    es[j]["a"] = a(j, base + [1])
  elif kind == "keys":
    es[j] = {"a": es[j]["a"], "c": es[j]["b"]}
  else:
    es[j] = {"a": es[j]["a"]} if rng.random() < 0.5 else dict(es[j], d=a(0, []))
  how = rng.choice(["map", "iter", "parallel", "pshm", "shm", "pad"])
  if how == "pad" and kind in ("keys", "length") and False:
    return
  ctx.describe(mismatch=kind, n=n, at=j, how=how, base=base)
  src = grain.MapDataset.source(es)
  with contextlib.ExitStack() as st:
    if how in ("parallel", "pshm"):
      st.enter_context(parallel())
    kw = {"batch_fn": functools.partial(gexp.batch_and_pad, batch_size=n + rng.choice([0, 1]))} if how == "pad" else {}
    ds = src.batch(n, **kw) if how in ("map", "pad") else src.to_iter_dataset().batch(n, **kw)
    if how in ("shm", "pshm"):
      ds.enable_shared_memory_output()
    try:
      got = next(iter(ds)) if isinstance(ds, grain.IterDataset) else ds[0]
    except Exception:  # pylint: disable=broad-except
      ctx.count("mismatches_refused")
      return
    ctx.fail("mismatch-accepted", f"elements of different {kind} are batched ({how})", got=core.jsonable(norm(got)))


def unbatch(ctx, rng):
  """Splitting batches into rows and batching rows again."""
  while True:
    t = template(rng)
    if not kinds_in(t) & (set(SCALARS) | {"object"}):
      break
  n, bs, bs2 = rng.randint(1, 15), rng.randint(1, 5), rng.randint(1, 5)
  ctx.describe(unbatch=n, bs=bs, bs2=bs2, template=describe(t))
  es = [fill(t, u) for u in range(n)]

  class Rows(fns._t.FlatMap):
    max_fan_out = bs

    def flat_map(self, b):
      k = len(fns.leaves(b)[0])
      return [fns.tmap(lambda l: l[j], b) for j in range(k)]

  ds = grain.MapDataset.source(es).batch(bs)
  it = gexp.FlatMapIterDataset(ds.to_iter_dataset(), Rows()) if rng.random() < 0.5 else \
      gexp.FlatMapMapDataset(ds, Rows()).to_iter_dataset()
  got = list(it)
  ctx.check(len(got) == n, "unbatch", f"{len(got)} rows, not {n}")
  for g, e in zip(got, es):
    ctx.check(rows_equal(fns.tmap(np.asarray, g), fns.tmap(np.asarray, e)), "unbatch", "a row changed", got=core.jsonable(g))
  got = list(it.batch(bs2))
  want = expected(es, bs2, False)
  ctx.check(len(got) == len(want) and all(rows_equal(norm(a), b) for a, b in zip(got, want)), "unbatch",
            "batches of the rows differ")
  ctx.count("unbatched", n)


def big_parallel(ctx, rng):
  """Batches above the real size threshold of parallel batching."""
  with core.patched(BATCH, "_is_parallel_batch_experiment_enabled", lambda: True):
    n = rng.randint(4, 9)
    dt = rng.choice(["u1", "f4", "i8", "bool", "f2"])
    es = [{"x": (np.arange(400_000) * (u + 3) % 251).astype(dt).reshape(4, -1), "y": u} for u in range(n)]
    ctx.describe(big=n, dtype=dt)
    ds = grain.MapDataset.source(es).to_iter_dataset().batch(4)
    if rng.random() < 0.5:
      ds.enable_shared_memory_output()
    compare(ctx, [keep(x) for x in ds], expected(es, 4, False), "batch-parallel", "large parallel batches")
    ctx.count("big_parallel")


def mp_case(ctx, rng):
  """Batches made in worker processes, straight into shared memory."""
  while True:
    t = template(rng)
    if "object" not in kinds_in(t):
      break
  n, bs, drop = rng.randint(6, 24), rng.randint(1, 5), rng.random() < 0.4
  w = rng.choice([1, 2])
  after = rng.random() < 0.5
  ctx.describe(mp=n, bs=bs, drop=drop, workers=w, template=describe(t), after=after)
  src = grain.MapDataset.source(fns.Src(n, 0, "int")).map(Make(t))
  opts = grain.MultiprocessingOptions(num_workers=w)
  es = [fill(t, u) for u in range(n)]
  if after:
    ds = src.to_iter_dataset().mp_prefetch(opts).batch(bs, drop_remainder=drop)
    want = expected(es, bs, drop)
  else:
    ds = src.batch(bs, drop_remainder=drop)
    nb = len(ds)
    ds = (ds if rng.random() < 0.5 else ds).to_iter_dataset() if rng.random() < 0.5 else ds.to_iter_dataset().map(ident)
    ds = ds.mp_prefetch(opts)
    want = expected(es, bs, drop)
    assert nb == len(want)
  it = iter(ds)
  got = []
  for x in it:
    got.append(norm(x))
    ctx.beat()
  compare(ctx, got, want, "batch-worker", "batches from workers")
  it.close()
  ctx.count("mp_batches", len(want))


def ident(e):
  return e


DIRECTED = [big_parallel] * 8 + [mp_case] * 16
