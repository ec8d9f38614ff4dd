"""C25: results do not depend on JAX being installed.

Each shard runs in a process with JAX and has a partner process from which JAX is hidden (an import stub in front of it,
inherited by worker processes). Both execute the same seeded job: random nested elements through batching, padding,
rebatching, packing, zipping, mixing of trees of datasets, loaders, shared memory, element specs, or any random pipeline.
Monitor: equality of the produced elements (types, dtypes, shapes, values, structure), of the states, specs and ends,
and of what each produces after restoring the other's states.
"""
import collections
import contextlib
import dataclasses
import json
import os
import random
import subprocess
import sys
import threading

import grain
import numpy as np
from absl import flags
from grain import experimental as gexp
from grain._src.core import tree_lib

from gv import fns, loaders, pipes
from gv.core import take

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Pair = collections.namedtuple("Pair", ["left", "right"])
Triple = collections.namedtuple("Triple", ["zz", "aa", "mm"])


@dataclasses.dataclass
class Point:
  x: object
  y: object


def text(x):
  """The element with its types and structure; the order of the keys of a dict does not matter."""
  if isinstance(x, collections.OrderedDict):
    return "OrderedDict{" + ", ".join(f"{k!r}: {text(v)}" for k, v in x.items()) + "}"
  if isinstance(x, dict):
    return type(x).__name__ + "{" + ", ".join(sorted(f"{k!r}: {text(v)}" for k, v in x.items())) + "}"
  if isinstance(x, (list, tuple)):
    return f"{type(x).__name__}({', '.join(map(text, x))})"
  if isinstance(x, np.ndarray):
    a = np.asarray(x)
    if a.dtype == object:
      return f"array(object, {list(a.shape)}, [{', '.join(map(text, a.ravel()))}])"
    return f"array({a.dtype}, {list(a.shape)}, {a.tolist()!r})"
  if isinstance(x, Point):
    return f"Point({text(x.x)}, {text(x.y)})"
  if type(x).__name__ == "ShapeDtypeStruct" or hasattr(x, "shape") and hasattr(x, "dtype") and not isinstance(x, np.generic):
    return f"spec({x.dtype}, {x.shape})"
  return f"{type(x).__name__}({x!r})"


# ------------------------------------------------------------------------------------------ elements


def gen_tree(rng, depth=3, leaves=("int", "float", "arr", "arr2", "str", "bytes", "npint", "bool", "f16", "obj", "none"), top=True, ints=True):
  """The description of a structure."""
  if depth == 0 or not top and rng.random() < 0.4:
    return rng.choice(leaves)
  kind = rng.choice(["dict", "dict", "dict", "list", "tuple", "pair", "triple", "odict", "ddict"] + ["intdict"] * ints)
  k = {"pair": 2, "triple": 3}.get(kind, rng.choice([0, 1, 2, 3, 4] if rng.random() < 0.3 else [1, 2, 3]))
  kids = [gen_tree(rng, depth - 1, leaves, False, ints) for _ in range(k)]
  if kind == "intdict":
    return ["intdict", rng.sample(range(-3, 30), k), kids]
  if kind in ("dict", "odict", "ddict"):
    return [kind, rng.sample(["b", "a", "z", "ab", "B", "_x", "10", "9", "", "long key", "é"], k), kids]
  return [kind, None, kids]


def fill(t, i, order):
  """Element i of the structure; order (None or a Random) shuffles the insertion order of dicts."""
  if isinstance(t, list):
    kind, keys, kids = t
    if kind in ("dict", "intdict", "ddict", "odict"):
      at = list(range(len(keys)))
      if order is not None and kind != "odict":
        order.shuffle(at)
      items = [(keys[j], fill(kids[j], i * 7 + j, order)) for j in at]
      if kind == "odict":
        return collections.OrderedDict(items)
      if kind == "ddict":
        d = collections.defaultdict(list)
        d.update(items)
        return d
      return dict(items)
    vals = [fill(x, i * 7 + j, order) for j, x in enumerate(kids)]
    return {"list": list, "tuple": tuple, "pair": lambda v: Pair(*v), "triple": lambda v: Triple(*v)}[kind](vals)
  return {"int": lambda: i, "float": lambda: i / 4, "arr": lambda: np.arange(i, i + 3, dtype=np.int32),
          "arr2": lambda: np.full((2, 2), i, np.float32), "str": lambda: f"s{i}", "bytes": lambda: b"b%d" % i,
          "npint": lambda: np.int16(i % 1000), "bool": lambda: i % 2 == 0, "f16": lambda: np.float16(i % 64),
          "obj": lambda: Point(i, [i]), "none": lambda: None, "var": lambda: np.arange(i % 5 + 1) + i,
          "var2": lambda: np.ones((i % 4 + 1, 2), np.int16) * (i % 99), "big": lambda: np.full(3000, i, np.int64)}[t]()


class Fill:
  def __init__(self, tree, seed=None):
    self.tree, self.seed = tree, seed

  def __call__(self, i):
    i = int(i)
    return fill(self.tree, i + 1, None if self.seed is None else random.Random(f"{self.seed}:{i}"))


class Bad(Fill):
  """One element has another structure."""

  def __init__(self, tree, at, how):
    super().__init__(tree)
    self.at, self.how = at, how

  def __call__(self, i):
    x = super().__call__(i)
    return self.change(x) if i == self.at else x

  def change(self, x):
    if self.how == "wrap":
      return [x]
    if self.how == "leaf":
      return 3
    if self.how == "none":
      return None
    if isinstance(x, dict):
      x = dict(x)
      if self.how == "more":
        x[999 if all(isinstance(k, int) for k in x) else "new"] = 1
      elif x:
        x.pop(next(iter(x)))
      return x
    if self.how == "more":
      return [*x, 1] if not hasattr(x, "_fields") else [*x]
    return list(x)[:-1] if isinstance(x, list) else tuple(list(x)[:-1])


# ------------------------------------------------------------------------------------------ jobs


def j_batch(rng, res):
  leaves = ("int", "float", "arr", "arr2", "str", "npint", "bool", "f16", "bytes", "none")
  t = gen_tree(rng, leaves=leaves)
  n = rng.randint(1, 12)
  ds = grain.MapDataset.range(n).map(Fill(t, rng.randrange(99) if rng.random() < 0.5 else None))
  kw = dict(drop_remainder=rng.random() < 0.5)
  how = rng.choice(["map", "iter", "pad", "rebatch", "loader", "rebatch"])
  b = rng.randint(1, 5)
  if how == "pad":
    import functools
    ds = ds.to_iter_dataset().batch(b, batch_fn=functools.partial(gexp.batch_and_pad, batch_size=b, pad_value=rng.choice([0, 7])))
  elif how == "iter":
    ds = ds.to_iter_dataset().batch(b, **kw)
  elif how == "map":
    ds = ds.batch(b, **kw).to_iter_dataset()
  elif how == "loader":
    src = grain.MapDataset.range(n)
    ops = [fns.FnMap(Fill(t, 3)) if hasattr(fns, "FnMap") else MapOf(Fill(t, 3)), grain.transforms.Batch(b, **kw)]
    ds = grain.DataLoader(data_source=src, operations=ops, sampler=grain.samplers.SequentialSampler(n, grain.sharding.NoSharding()))
    return collect(res, iter(ds), 30, states=False)
  else:
    ds = gexp.RebatchIterDataset(ds.to_iter_dataset().batch(b), rng.randint(1, 6), drop_remainder=rng.random() < 0.5)
  if rng.random() < 0.3:
    spec(res, ds)
  collect(res, iter(ds), 30)


class MapOf(grain.transforms.Map):
  def __init__(self, f):
    self.f = f

  def map(self, x):
    return self.f(x)


def j_trees(rng, res):
  """The tree functions themselves."""
  t = gen_tree(rng)
  o = random.Random(rng.random())
  a, b = fill(t, 3, o), fill(t, 50, o)
  res.append(text(tree_lib.map_structure(lambda x: (text(x), 1), a)))
  res.append(text(tree_lib.map_structure(lambda x, y: text(x) + text(y), a, b)))
  flat = tree_lib.flatten(a)
  res.append([text(x) for x in flat])
  res.append(text(tree_lib.unflatten_as(b, list(range(len(flat))))))
  # Entries of a path may differ in kind (names or positions of fields).
  res.append(text(tree_lib.map_structure_with_path(lambda p, x: (len(p), text(x)), a)))
  res.append([(len(p), text(x)) for p, x in tree_lib.flatten_with_path(a)])
  res.append(tree_lib.estimate_byte_size(a))
  res.append(text(tree_lib.map_structure_up_to(a, text, b)))
  res.append(text(tree_lib.spec_like(a)))
  tree_lib.assert_same_structure(a, b)
  how = rng.choice(["wrap", "leaf", "more", "less", "none"])
  c = Bad(t, 0, how).change(fill(t, 3, None))
  for f in (lambda: tree_lib.assert_same_structure(a, c), lambda: tree_lib.map_structure(lambda x, y: 0, a, c)):
    try:
      f()
    except Exception:  # pylint: disable=broad-except
      res.append("refused")
    else:
      res.append("accepted")


def j_bad(rng, res):
  """Elements of different structures."""
  t = gen_tree(rng, depth=2, leaves=("int", "arr", "str"))
  n = rng.randint(2, 8)
  ds = grain.MapDataset.range(n).map(Bad(t, rng.randrange(n), rng.choice(["wrap", "leaf", "more", "less", "none"])))
  ds = ds.to_iter_dataset().batch(rng.randint(2, 4))
  collect(res, iter(ds), 20, states=False)


def j_pack(rng, res):
  """Packing with structures whose keys come in different orders."""
  t = gen_tree(rng, depth=rng.choice([1, 1, 2]), leaves=("var", "var", "var2"), ints=False)  # keys are extended by suffixes
  if "var" not in json.dumps(t):
    return
  seed = rng.randrange(99) if rng.random() < 0.6 else None
  ds = grain.MapDataset.range(rng.randint(1, 25)).map(Fill(t, seed)).to_iter_dataset()
  order = lambda: random.Random(rng.random()) if rng.random() < 0.6 else None
  lens = const(t, lambda: rng.randint(5, 12), order())
  kw = {}
  if rng.random() < 0.4:
    kw["pack_alignment_struct"] = const(t, lambda: rng.choice([1, 2, 3]), order())
  if rng.random() < 0.4:
    kw["padding_struct"] = const(t, lambda: rng.choice([0, 7, -1]), order())
  how = rng.choice(["ff", "ff", "bf"])
  cls = gexp.FirstFitPackIterDataset if how == "ff" else gexp.BestFitPackIterDataset if hasattr(gexp, "BestFitPackIterDataset") else gexp.FirstFitPackIterDataset
  if rng.random() < 0.3:
    kw["max_sequences_per_bin"] = rng.randint(1, 3)
  ds = cls(ds, length_struct=lens, num_packing_bins=rng.randint(1, 5), seed=rng.randrange(9), shuffle_bins=rng.random() < 0.5, **kw)
  collect(res, iter(ds), 40)


def const(t, f, order):
  if isinstance(t, list):
    kind, keys, kids = t
    vals = [const(x, f, None) if order is None else const(x, f, order) for x in kids]
    if keys is not None:
      items = list(zip(keys, vals))
      if order is not None and kind != "odict":
        order.shuffle(items)
      if kind == "odict":
        return collections.OrderedDict(items)
      if kind == "ddict":
        d = collections.defaultdict(list)
        d.update(items)
        return d
      return dict(items)
    return {"list": list, "tuple": tuple, "pair": lambda v: Pair(*v), "triple": lambda v: Triple(*v)}[kind](vals)
  return f()


def j_mix(rng, res):
  """Mixtures of trees of datasets."""
  t = gen_tree(rng, depth=2, leaves=("int",))
  k = len(tree_leaves(t))
  if not k:
    return
  count = iter(range(100))
  sizes = [rng.randint(1, 9) for _ in range(k)]
  ws = [rng.choice([1, 2, 3, 0.5]) for _ in range(k)]

  def one():
    j = next(count)
    return grain.MapDataset.range(100 * j, 100 * j + sizes[j]).repeat()[:40].to_iter_dataset()

  o = random.Random(rng.random()) if rng.random() < 0.6 else None
  parents = const(t, one, o)
  it = iter(ws)
  weights = const(t, lambda: next(it), random.Random(rng.random()) if rng.random() < 0.6 else None)
  mix = rng.choice(["cls", "cls", "list"])
  if mix == "cls":
    from grain._src.python.dataset.transformations import mix as mix_lib
    ds = mix_lib.MixedIterDataset(parents, weights if rng.random() < 0.7 else None)
  else:
    ds = grain.IterDataset.mix([one2(100 * j, s) for j, s in enumerate(sizes)], ws)
  collect(res, iter(ds), 25)


def one2(a, n):
  return grain.MapDataset.range(a, a + n).to_iter_dataset()


def tree_leaves(t):
  return [y for x in t[2] for y in tree_leaves(x)] if isinstance(t, list) else [t]


def j_pipe(rng, res):
  g = pipes.G(rng, max_n=20, model_only=False, inf=False)
  s = g.packds(max_n=20) if rng.random() < 0.25 else g.iterds(mdepth=2, depth=3)[0]
  ds = pipes.build(s)
  if rng.random() < 0.2:
    spec(res, ds)
  collect(res, iter(ds), 30)


def j_loader(rng, res):
  s = loaders.gen(rng)
  if loaders.infinite(s):
    s["epochs"] = 3
  it = iter(loaders.build(s))
  collect(res, it, 25, states=True)


def j_specs(rng, res):
  t = gen_tree(rng, leaves=("arr", "arr2", "npint", "f16", "big"))
  n = rng.randint(1, 9)
  class S(Fill):  # a source with elements of the structure
    def __len__(self):
      return n
    __getitem__ = Fill.__call__
  ds = grain.MapDataset.source(S(t, 5))
  if rng.random() < 0.5:
    ds = ds.batch(rng.randint(1, 3), drop_remainder=True)
  ds = ds.to_iter_dataset()
  if rng.random() < 0.5:
    ds = ds.batch(rng.randint(1, 3), drop_remainder=True)
  spec(res, ds)
  collect(res, iter(ds), 10)


def j_mp(rng, res):
  """Elements of worker processes travel through shared memory."""
  t = gen_tree(rng, leaves=("int", "arr", "big", "str", "npint", "arr2"))
  ds = grain.MapDataset.range(rng.randint(1, 9)).map(Fill(t, 3)).to_iter_dataset()
  ds = ds.mp_prefetch(grain.MultiprocessingOptions(num_workers=rng.choice([1, 2])))
  collect(res, iter(ds), 10)


def spec(res, ds):
  try:
    res.append(text(gexp.get_element_spec(ds)))
  except Exception:  # pylint: disable=broad-except
    res.append("no spec")


JOBS = {"batch": j_batch, "trees": j_trees, "bad": j_bad, "pack": j_pack, "mix": j_mix, "pipe": j_pipe, "loader": j_loader,
        "specs": j_specs, "mp": j_mp}
MAKE = threading.local()


def collect(res, it, cap, states=True):
  """Elements, states and end; or, when asked to, what follows a given state."""
  st = getattr(MAKE, "state", None)
  if st is not None:
    it.set_state(st if not isinstance(it, grain.DataLoaderIterator) else st.encode())
  out, sts = [], []
  try:
    for _ in range(cap):
      if states:
        s = it.get_state()
        sts.append(s.decode() if isinstance(s, bytes) else s)
      out.append(text(next(it)))
    end = "cap"
  except StopIteration:
    end = "end"
  except Exception as e:  # pylint: disable=broad-except
    end = "error"
    MAKE.error = repr(e)[:300]
  MAKE.states = sts
  res.append(out)
  res.append(end)
  with contextlib.suppress(AttributeError):
    it.close()


def execute(job):
  if not flags.FLAGS.is_parsed():
    flags.FLAGS.mark_as_parsed()
  rng = random.Random(job["seed"])
  random.seed(job["seed"])
  MAKE.state, MAKE.states, MAKE.error = job.get("state"), [], None
  res = []
  try:
    JOBS[job["kind"]](rng, res)
  except Exception as e:  # pylint: disable=broad-except
    import traceback
    res.append("error")
    MAKE.error = traceback.format_exc()[-1500:]
  return {"res": json.loads(json.dumps(res)), "states": json.loads(json.dumps(MAKE.states)), "error": MAKE.error}


# ------------------------------------------------------------------------------------------ the partner process


CHILD = None


def partner(ctx):
  global CHILD
  if CHILD is None or CHILD.poll() is not None:
    env = dict(os.environ)
    env["PYTHONPATH"] = os.path.join(HERE, "nojax") + os.pathsep + env.get("PYTHONPATH", "")
    CHILD = subprocess.Popen([sys.executable, "-m", "gv.c25_child"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env)
  return CHILD


def without_jax(ctx, job):
  c = partner(ctx)
  c.stdin.write(json.dumps(job) + "\n")
  c.stdin.flush()
  while True:
    line = c.stdout.readline()
    if not line:
      ctx.fail("partner-died", "the process without JAX ended")
    if line.startswith("GV"):
      return json.loads(line[2:])


def setup(ctx):
  import jax  # noqa: F401
  partner(ctx)


def compare(ctx, job):
  ctx.describe(job=job)
  a = execute(job)
  ctx.beat()
  b = without_jax(ctx, job)
  ctx.beat()
  ctx.check("crash" not in b, "crash", f"the partner failed: {b.get('crash')}")
  if a["res"] != b["res"]:
    k = next((k for k, (x, y) in enumerate(zip(a["res"], b["res"])) if x != y), min(len(a["res"]), len(b["res"])))
    ctx.fail("differs", f"{job['kind']}: results differ with and without JAX", with_jax=str(a["res"][k:k + 1])[:1500],
             without=str(b["res"][k:k + 1])[:1500], error_with=a["error"], error_without=b["error"])
  ctx.check(a["states"] == b["states"], "states", f"{job['kind']}: states differ with and without JAX",
            with_jax=str(a["states"])[:900], without=str(b["states"])[:900])
  ctx.count("results", len(a["res"]))
  ctx.count("elements", sum(len(x) for x in a["res"] if isinstance(x, list)))
  ctx.count("errors_alike", int(a["error"] is not None))
  return a, b


def case(ctx, i, rng, kind=None):
  kind = kind or rng.choice(["batch"] * 4 + ["trees"] * 4 + ["bad", "pack", "pack", "pack", "mix", "mix", "pipe", "pipe", "loader", "specs"])
  job = {"kind": kind, "seed": f"{kind}:{rng.random()}"}
  a, b = compare(ctx, job)
  ctx.count(f"job_{kind}")
  if a["res"] and a["res"] != ["error"]:
    ctx.sig([kind, a["res"]])
  if len(a["states"]) > 1 and kind != "mp" and rng.random() < 0.5:
    # a state saved on either side is restored on the other one
    st = rng.choice(a["states"])
    job = dict(job, state=st)
    a, b = compare(ctx, job)
    ctx.count("restored")


def mp(ctx, rng):
  for _ in range(2):
    case(ctx, 0, rng, "mp")
  ctx.count("mp_cases")


DIRECTED = [mp, mp, mp]
