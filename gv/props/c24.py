"""C24: checkpoint files round-trip the iterator state and survive failures.

Simulated hosts (jax.process_index/process_count answer per thread or task) save their iterators, each at a position of
its own, into shared directories: through the checkpoint handler (both calling conventions) and through the iterators'
own asynchronous save, one after another, from concurrent threads or in one event loop with delays, repeatedly to the
same directory, and while the iterators move on. Monitors: what an iterator restored from the files (fresh, used,
ahead or behind; in this or another process) produces, against what the saved iterator went on to produce; and the
error raised when the file of a process is missing, truncated at a random byte, or of another number of processes.
"""
import asyncio
import contextlib
import contextvars
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
import threading
import types

import grain
import jax
import numpy as np
from etils import epath
from grain import experimental as gexp
from grain._src.python.checkpoint import handler as handler_lib

from gv import core, loaders, pipes
from gv.core import take

HOST = contextvars.ContextVar("host", default=(0, 1))
CAP = 36                      # elements looked at per iterator
LEGACY = ("lmap", "lrand", "lfilter", "lbatch", "custom")


@contextlib.contextmanager
def hosts():
  """jax reports the process that the calling thread or task simulates."""
  old = jax.process_index, jax.process_count
  jax.process_index, jax.process_count = (lambda *a, **k: HOST.get()[0]), (lambda *a, **k: HOST.get()[1])
  try:
    yield
  finally:
    jax.process_index, jax.process_count = old


def as_host(h, f):
  """Calls f as process h = (index, count)."""
  ctx = contextvars.copy_context()

  def run():
    HOST.set(h)
    return f()

  return ctx.run(run)


def text(x):
  """The element with its types, as text."""
  if isinstance(x, dict):
    return "{" + ", ".join(f"{k!r}: {text(x[k])}" for k in sorted(x, key=repr)) + "}"
  if isinstance(x, (list, tuple)):
    return f"{type(x).__name__}({', '.join(map(text, x))})"
  if isinstance(x, np.ndarray):
    a = np.asarray(x)
    return f"array({a.dtype}, {list(a.shape)}, {a.tolist()!r})"
  return f"{type(x).__name__}({x!r})"


# ------------------------------------------------------------------------------------------ iterators


def gen(rng, kind, workers=0):
  if kind == "loader":
    s = loaders.gen(rng, workers=workers)
    if loaders.infinite(s):
      s["epochs"] = 3
    return s
  if kind == "elastic":
    return {"n": rng.randint(4, 40), "seed": rng.choice([None, 1, 7]), "batch": rng.choice([1, 2, 3]), "add": rng.randint(0, 99),
            "threads": rng.choice([0, 2])}
  if kind == "elastic-iter":
    return {"n": [rng.randint(0, 9) for _ in range(rng.randint(4, 7))], "cycle": rng.choice([1, 2, 4]), "add": rng.randint(0, 99),
            "batch": rng.choice([0, 0, 1, 2])}
  g = pipes.G(rng, max_n=20, model_only=False, inf=rng.random() < 0.2)
  s = g.packds(max_n=20) if rng.random() < 0.1 else g.iterds(mdepth=2, depth=3)[0]
  if workers:
    s = {"op": "mp", "n": workers, "buf": rng.choice([1, 3]), "in": [s]}
  return s


def make(kind, spec, host=(0, 1)):
  if kind == "loader":
    return iter(loaders.build(spec))
  s = grain.sharding.ShardOptions(shard_index=host[0], shard_count=host[1])
  if kind == "elastic":
    ds = grain.MapDataset.range(spec["n"]).map(Add(spec["add"]))
    if spec["seed"] is not None:
      ds = ds.shuffle(seed=spec["seed"])
    return gexp.ElasticIterator(ds, host[1] * spec["batch"], s,
                                read_options=grain.ReadOptions(num_threads=spec["threads"], prefetch_buffer_size=2 * spec["threads"]))
  if kind == "elastic-iter":
    parts = [grain.MapDataset.range(100 * i, 100 * i + n).map(Add(spec["add"])).to_iter_dataset() for i, n in enumerate(spec["n"])]
    ds = gexp.InterleaveIterDataset(parts, cycle_length=spec["cycle"])
    b = spec["batch"]
    return gexp.ElasticIterator(ds, b * host[1], s)
  return iter(pipes.build(spec))


class Add(grain.transforms.Map):
  def __init__(self, a):
    self.a = a

  def map(self, x):
    return x + self.a


def rest_of(kind, spec, host, at):
  """What an iterator produces after `at` elements."""
  it = make(kind, spec, host)
  take(it, at)
  return [text(x) for x in take(it, CAP - at)[0]]


# ------------------------------------------------------------------------------------------ saving and restoring


class Pending:
  """A directory that is created later (what Orbax passes to the asynchronous API)."""

  def __init__(self, path, delay=0.0):
    self.path, self.delay = path, delay

  async def await_creation(self):
    if self.delay:
      await asyncio.sleep(self.delay)
    os.makedirs(self.path, exist_ok=True)
    return self.path


APIS = ["item", "positional", "args", "async"]


def save(it, path, api, after=None, delay=0.0):
  """Saves; `after` runs as soon as saving has captured the state."""
  h = handler_lib.CheckpointHandler()
  if api == "async":
    async def go():
      bg = await it.save(Pending(path, delay))
      if after is not None:
        after()
      await bg
    asyncio.run(go())
    return
  os.makedirs(path, exist_ok=True)
  if api == "item":
    h.save(path, item=it)
  elif api == "positional":
    h.save(path, it)
  else:
    h.save(path, args=types.SimpleNamespace(item=it))
  h.finalize(path)
  h.close()
  if after is not None:
    after()


def restore(it, path, api):
  h = handler_lib.CheckpointHandler()
  if api == "async":
    async def go():
      await (await it.load(path))
    asyncio.run(go())
    return it
  if api == "item":
    return h.restore(path, item=it)
  if api == "positional":
    return h.restore(path, it)
  return h.restore(path, args=types.SimpleNamespace(item=it))


async def save_all(its, path, hs, delays, afters):
  """All hosts' asynchronous saves in one event loop."""
  async def one(p):
    HOST.set(hs[p])
    bg = await its[p].save(Pending(path, delays[p]))
    afters[p]()
    await bg
  await asyncio.gather(*[one(p) for p in range(len(its))])


def listing(path):
  return {f: (path / f).read_bytes() for f in sorted(os.listdir(path))} if os.path.isdir(path) else {}


NAMES = ["ckpt", "step 1", "a.b", "ünï", "0", "process_0-of-1.json", "x-of-3", "%d{}", "tmp [1]"]


def oneshot(kind, spec):
  """Legacy operations are generators: an exhausted iterator over them cannot be used again."""
  return kind == "loader" and any(o["op"] in LEGACY for o in spec["ops"])


def roundtrip(ctx, rng, workers=0, kind=None):
  kind = kind or rng.choice(["pipe"] * 6 + ["loader"] * 2 + ["elastic", "elastic-iter"])
  count = rng.choice([1, 1, 2, 3, 4, 11]) if not workers else 1
  if kind == "elastic-iter":
    count = min(count, 4)
  spec = gen(rng, kind, workers)
  if kind in ("loader", "elastic", "elastic-iter"):
    specs = [spec] * count
  else:
    specs = [spec if rng.random() < 0.7 else gen(rng, kind, workers) for _ in range(count)]
  hs = [(p, count) for p in range(count)]
  what = dict(kind=kind, specs=specs[:2], hosts=count)
  describe = ctx.describe
  ctx.describe = lambda **kw: describe(**what, **kw)
  ctx.describe()
  root = epath.Path(tempfile.mkdtemp(prefix="gv_c24_"))
  try:
    with hosts():
      _roundtrip(ctx, rng, kind, specs, hs, root, workers)
  finally:
    shutil.rmtree(root, ignore_errors=True)
    ctx.describe = describe
  ctx.sig([kind, specs, count])
  ctx.count(f"kind_{kind}")


def _roundtrip(ctx, rng, kind, specs, hs, root, workers):
  count = len(hs)
  its = [make(kind, specs[p], hs[p]) for p in range(count)]
  ref = [rest_of(kind, specs[p], hs[p], 0) for p in range(count)] if kind != "elastic-iter" else None
  n = [len(r) for r in ref] if ref else [6] * count
  at = [0] * count
  seen = [[] for _ in range(count)]

  def advance(p, k):
    got = [text(x) for x in take(its[p], min(k, CAP - at[p]))[0]]
    seen[p] += got
    at[p] += len(got)
    ctx.beat()

  saved = {}                  # directory name -> positions
  for _ in range(rng.choice([1, 1, 2, 3])):
    for p in range(count):
      advance(p, rng.choice([0, 1, 2, 5, rng.randint(0, max(1, n[p]))]) if kind != "elastic-iter" else rng.choice([0, 1]))
    name = rng.choice(list(saved)) if saved and rng.random() < 0.4 else rng.choice(NAMES[:-1] if kind == "elastic-iter" else NAMES)
    d = root / name if rng.random() < 0.8 or name in saved else root / "deep" / name
    d = pathlib.Path(os.fspath(d)) if rng.random() < 0.15 else d
    name = os.fspath(d.relative_to(root) if isinstance(d, pathlib.Path) else os.path.relpath(os.fspath(d), os.fspath(root)))
    saved[name] = list(at)
    how = rng.choice(["serial", "threads", "loop"]) if count > 1 else "serial"
    move = rng.random() < 0.4 and kind != "elastic-iter"
    afters = [(lambda p=p: advance(p, 1)) if move else (lambda: None) for p in range(count)]
    order = rng.sample(range(count), count)
    before = listing(root / name)
    if how == "loop":
      asyncio.run(save_all([its[p] for p in order], d, [hs[p] for p in order],
                           [rng.choice([0, 0.001, 0.003]) for _ in order], [afters[p] for p in order]))
    elif how == "threads":
      errs = []
      apis = [rng.choice(APIS) for _ in order]

      def work(p, api):
        try:
          as_host(hs[p], lambda: save(its[p], d, api, afters[p]))
        except BaseException as e:  # pylint: disable=broad-except
          errs.append(e)

      ts = [threading.Thread(target=work, args=(p, a)) for p, a in zip(order, apis)]
      for t in ts:
        t.start()
      for t in ts:
        t.join()
      if errs:
        raise errs[0]
    else:
      for p in order:
        as_host(hs[p], lambda: save(its[p], d, rng.choice(APIS), afters[p], rng.choice([0, 0.002])))
    ctx.count("saves", count)
    ctx.count(f"saved_{how}")
    if before:
      ctx.count("overwritten")
  # the iterators themselves were not disturbed by saving
  if ref:
    for p in range(count):
      advance(p, CAP)
      ctx.check(seen[p] == ref[p], "disturbed", f"the iterator of process {p} produces other elements when it is saved",
                diff=str(core.first_diff(seen[p], ref[p]))[:500])
  for name, pos in saved.items():
    d = root / name
    for p in rng.sample(range(count), min(count, 3)):
      api = rng.choice(APIS)
      which = rng.choice(["fresh", "fresh", "used", "same"]) if not oneshot(kind, specs[p]) else "fresh"
      it = its[p] if which == "same" else make(kind, specs[p], hs[p])
      if which == "used" and kind != "elastic-iter":
        take(it, rng.randint(1, 6))
      ctx.describe(restore=dict(process=p, api=api, which=which, at=pos[p], dir=name))
      it = as_host(hs[p], lambda: restore(it, d, api))
      if kind == "elastic-iter":
        continue
      got = [text(x) for x in take(it, CAP - pos[p], ctx)[0]]
      ctx.check(got == ref[p][pos[p]:], "restored-elsewhere", f"process {p} of {count} restored at {pos[p]} produces other elements",
                diff=str(core.first_diff(got, ref[p][pos[p]:]))[:500])
      ctx.count("restores")
      ctx.count("restored_elements", len(got))
      ctx.count(f"restored_{which}")
    if kind == "elastic-iter":
      elastic_rest(ctx, kind, specs, hs, d)
      continue
    faults(ctx, rng, kind, specs, hs, d, pos, ref)


def elastic_rest(ctx, kind, specs, hs, d):
  """All hosts of an interleaved elastic iterator restored produce each element at most once, and nothing produced before."""
  out = []
  for h in hs:
    it = make(kind, specs[0], h)
    as_host(h, lambda: restore(it, d, "item"))
    out += [text(x) for x in take(it, 60)[0]]
  ctx.check(len(set(out)) == len(out), "elastic-duplicates", "elements are produced twice after restoring")
  ctx.count("restores", len(hs))
  ctx.count("restored_elements", len(out))


def faults(ctx, rng, kind, specs, hs, d, pos, ref):
  """Missing, truncated and foreign files are refused; the iterator then still works."""
  count = len(hs)
  fault = rng.choice(["count", "index", "removed", "truncated", "truncated", "empty-dir", "none"])
  if fault == "none" or kind == "elastic" and fault != "truncated":
    return
  p = rng.randrange(count)
  h = hs[p]
  copy = epath.Path(tempfile.mkdtemp(prefix="gv_c24_"))
  try:
    src = copy / "c"
    shutil.copytree(d, src)
    if fault == "count":
      h = (p, rng.choice([c for c in (1, 2, 3, 4, 5, 11, 12, 21) if c != count and c > p]))
    elif fault == "index":
      h = (count + rng.choice([0, 1, 8, 10]), max(count + 11, count))
      h = (h[0], count)
    elif fault == "empty-dir":
      src = copy / "e"
      if rng.random() < 0.5:
        src.mkdir()
    else:
      # the file of process p: the one that changes when only it saves again
      probe = copy / "p"
      as_host(h, lambda: save(make(kind, specs[p], h), probe, rng.choice(APIS)))
      names = list(listing(probe))
      for f in names:
        if fault == "removed":
          os.remove(src / f)
        else:
          b = (src / f).read_bytes()
          k = rng.choice([0, 1, len(b) - 1, len(b) // 2, rng.randrange(len(b))])
          if not b[k:].strip() or not len(b):
            continue
          (src / f).write_bytes(b[:k])
          ctx.describe(truncated=k)
    api = rng.choice(APIS)
    it = make(kind, specs[p], hs[p])
    k = rng.randint(0, 4) if not oneshot(kind, specs[p]) else 0
    took = len(take(it, k)[0])
    ctx.describe(fault=fault, host=h, api=api)
    try:
      as_host(h, lambda: restore(it, src, api))
    except Exception as e:  # pylint: disable=broad-except
      ctx.count("refused")
      ctx.count(f"refused_{fault}")
      ctx.describe(error=repr(e)[:200])
    else:
      ctx.fail("not-refused", f"restoring process {h} with the fault {fault} of a checkpoint by {count} processes raised no error")
      return
    if rng.random() < 0.5:
      got = [text(x) for x in take(it, CAP - took, ctx)[0]]
      ctx.check(got == ref[p][took:], "failed-restore", f"a failed restore ({fault}) moved the iterator from {took}",
                diff=str(core.first_diff(got, ref[p][took:]))[:500])
    else:
      as_host(hs[p], lambda: restore(it, d, rng.choice(APIS)))
      got = [text(x) for x in take(it, CAP - pos[p], ctx)[0]]
      ctx.check(got == ref[p][pos[p]:], "retry", f"restoring after a failed restore ({fault}) gives other elements",
                diff=str(core.first_diff(got, ref[p][pos[p]:]))[:500])
    ctx.count("after_faults")
  finally:
    shutil.rmtree(copy, ignore_errors=True)


def other_process(ctx, rng):
  """Saved here, restored in a new process."""
  kind = rng.choice(["pipe", "pipe", "loader"])
  spec = json.loads(json.dumps(gen(rng, kind)))
  root = tempfile.mkdtemp(prefix="gv_c24_")
  try:
    it = make(kind, spec)
    at = len(take(it, rng.choice([0, 1, 3, 7]))[0])
    d = epath.Path(root) / "ckpt"
    save(it, d, rng.choice(APIS))
    want = [text(x) for x in take(it, CAP - at)[0]]
    job = dict(kind=kind, spec=spec, dir=os.fspath(d), api=rng.choice(APIS), n=CAP - at)
    ctx.describe(job=job)
    with open(os.path.join(root, "job.json"), "w") as f:
      json.dump(job, f)
    ctx.beat()
    p = subprocess.run([sys.executable, "-m", "gv.ckpt_child", os.path.join(root, "job.json")], capture_output=True, text=True,
                       timeout=300, check=False)
    ctx.beat()
    line = next((x for x in p.stdout.splitlines() if x.startswith("GV")), None)
    ctx.check(line is not None, "child", f"restoring in another process failed: {p.stderr[-1500:]}")
    got = json.loads(line[2:])
    ctx.check(got == want, "other-process", f"another process restored at {at} produces other elements",
              diff=str(core.first_diff(got, want))[:500])
    ctx.count("other_processes")
  finally:
    shutil.rmtree(root, ignore_errors=True)


def mp_case(ctx, rng):
  """Iterators with worker processes."""
  for kind in ("pipe", "loader"):
    roundtrip(ctx, rng, workers=rng.choice([1, 2]), kind=kind)
  ctx.count("mp_cases")


def case(ctx, i, rng):
  roundtrip(ctx, rng)


DIRECTED = [mp_case, other_process, other_process, other_process, mp_case, mp_case, other_process, other_process]
