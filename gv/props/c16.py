"""C16: elastic re-sharding continues exactly once across process counts.

Several simulated hosts (one ElasticIterator each, read in random interleavings) produce a global stream; it is
checkpointed at random points, through states or through the checkpoint handler's files, and continued by another number
of hosts with another batch size, several times. Monitors: a conservation ledger over everything all hosts ever
produced, the documented global order (map datasets), per-dataset order (interleaved datasets), equality of the states
and of the number of steps of all hosts.
"""
import collections
import json
import os
import pathlib
import shutil
import tempfile

import grain
import numpy as np
from etils import epath
from grain import experimental as gexp
from grain._src.python.checkpoint import handler

from gv import core, fns


def shards(c):
  if c == 1 and False:
    return [grain.sharding.NoSharding()]
  return [grain.sharding.ShardOptions(shard_index=i, shard_count=c) for i in range(c)]


def flat(b, batched):
  """The elements of a (batched) output, as plain numbers."""
  if isinstance(b, dict):
    cols = {k: flat(v, batched) for k, v in b.items()}
    n = len(next(iter(cols.values())))
    return [tuple((k, cols[k][i]) for k in sorted(cols)) for i in range(n)]
  if not batched:
    return [plain(b)]
  return [plain(x) for x in np.asarray(b)]


def plain(x):
  if isinstance(x, dict):
    return tuple((k, plain(x[k])) for k in sorted(x))
  return x.tolist() if isinstance(x, np.ndarray) else (x.item() if isinstance(x, np.generic) else x)


def flat_e(x, batched):
  if isinstance(x, dict) and not batched:
    return [plain(x)]
  return flat(x, batched)


class Num(grain.transforms.Map):
  def __init__(self, a):
    self.a = a

  def map(self, e):
    return e * 3 + self.a if not isinstance(e, dict) else {k: self.map(v) for k, v in e.items()}


class Plus(grain.transforms.Map):
  def map(self, e):
    return e + 500


class Rnd(grain.transforms.RandomMap):
  def random_map(self, e, rng):
    return {"v": e if not isinstance(e, dict) else e["v"], "r": int(rng.integers(1 << 30))}


def map_ds(rng, n):
  ds = grain.MapDataset.source(fns.Src(n, rng.choice([0, 1000]), "int"))
  names = []
  for _ in range(rng.randint(0, 3)):
    op = rng.choice(["shuffle", "map", "rand", "repeat", "slice", "seed_shuffle", "concat", "wshuffle"])
    names.append(op)
    if op == "shuffle":
      ds = ds.shuffle(seed=rng.randint(0, 99))
    elif op == "seed_shuffle":
      ds = ds.seed(rng.randint(0, 99)).shuffle()
    elif op == "map":
      ds = ds.map(Num(rng.randint(0, 2)))
    elif op == "rand" and "concat" not in names:
      ds = ds.seed(rng.randint(0, 9)).random_map(Rnd())
    elif op == "repeat" and len(ds) < 200 and "repeat" not in names[:-1]:
      ds = ds.repeat(rng.randint(1, 3))
    elif op == "slice":
      ds = ds[rng.randint(0, 3)::rng.choice([1, 1, 2])]
    elif op == "concat" and "rand" not in names:
      ds = grain.MapDataset.concatenate([ds, ds])
    elif op == "wshuffle" and len(ds):
      ds = gexp.WindowShuffleMapDataset(ds, window_size=rng.randint(1, 8), seed=3)
  return ds, names


def drive(rng, its, steps, ctx):
  """Advances every iterator by `steps` in a random interleaving; returns the outputs per iterator."""
  out = [[] for _ in its]
  todo = [i for i in range(len(its)) for _ in range(steps)]
  rng.shuffle(todo)
  for i in todo:
    out[i].append(core.snap(next(its[i])))
  ctx.beat()
  return out


def elastic_map(ctx, rng, mp=False):
  n = rng.choice([0, 1, 2, 5]) if rng.random() < 0.1 else rng.randint(3, 150)
  ds, names = map_ds(rng, n)
  n = len(ds)
  want = [plain(core.snap(ds[i])) for i in range(n)]
  ctx.describe(map=n, ops=names, mp=mp)
  pos, rounds, hist = 0, rng.randint(1, 4), []
  old = []
  if rng.random() < 0.2:  # epochs go on endlessly
    ds = ds.repeat()
    if n:
      want = want if "r" in str(want[0]) or True else want
      want = [plain(core.snap(ds[i])) for i in range(3 * n)]
    endless = True
  else:
    endless = False
  state = None
  for k in range(rounds + 1):
    c = rng.choice([1, 1, 2, 2, 3, 4, 5, 8])
    if mp:
      c = min(c, 2)
    gb = c * rng.randint(1, 4)
    kw = {}
    if mp:
      kw["multiprocessing_options"] = grain.MultiprocessingOptions(num_workers=rng.choice([1, 2]))
    elif rng.random() < 0.5:
      kw["read_options"] = grain.ReadOptions(num_threads=rng.choice([0, 1, 4]), prefetch_buffer_size=rng.choice([1, 5, 50]))
      if kw["read_options"].num_threads == 0:
        kw["read_options"] = grain.ReadOptions(num_threads=0, prefetch_buffer_size=0)
    its = [gexp.ElasticIterator(ds, gb, s, **kw) for s in shards(c)]
    hist.append((c, gb))
    ctx.describe(map=n, ops=names, mp=mp, rounds=hist, endless=endless)
    for it in its:
      if rng.random() < 0.2:
        try:
          next(it)
          ctx.count("used_iterators")
        except StopIteration:
          pass
        it.set_state(state or {"global_next_index": 0})
      elif state is not None:
        it.set_state(json.loads(json.dumps(state)))
    end = k == rounds and not endless
    limit = (len(want) - pos) // gb
    steps = limit if end else rng.randint(0, max(0, limit) if limit < 6 else rng.choice([6, limit]))
    out = drive(rng, its, steps, ctx)
    for j in range(steps):
      exp = want[pos + j * gb: pos + (j + 1) * gb]
      for i in range(c):
        got = flat_e(out[i][j], True)
        core_got = [tuple(x) if isinstance(x, tuple) else x for x in got]
        ctx.equal(core_got, exp[i::c], "global-order", f"shard {i} of {c}, step {j} after {pos} elements")
        ctx.count("elements", len(got))
    pos += steps * gb
    if end:
      for i, it in enumerate(its):
        for _ in range(2):
          try:
            x = next(it)
          except StopIteration:
            continue
          ctx.fail("uneven-end", f"shard {i} of {c} makes more steps than {steps}: {x}")
      ctx.count("ends")
    states = [it.get_state() for it in its]
    for st in states[1:]:
      ctx.check(st == states[0], "states-differ", f"hosts advanced equally have states {states}")
    ctx.check(not endless or n == 0 or states[0]["global_next_index"] == pos, "state", f"{states[0]} at {pos}")
    state = json.loads(json.dumps(rng.choice(states)))
    ctx.count("reshardings")
    for it in its:
      if rng.random() < 0.7:
        it.close()
        it.close()
      else:
        old.append(it)
  ctx.sig(["map", n, names, hist])
  ctx.sample(["map", n, names, hist])
  for it in old:
    it.close()


class Proc:
  """Runs a handler call as a given process of a given number."""

  def __init__(self, i, c):
    self.p = core.patched("grain._src.core.sharding", "get_process_index_and_count", lambda: (i, c))

  def __enter__(self):
    return self.p.__enter__()

  def __exit__(self, *a):
    return self.p.__exit__(*a)


def elastic_iter(ctx, rng):
  nd = rng.choice([1, 2, 3]) if rng.random() < 0.2 else rng.randint(1, 10)
  lens = [0 if rng.random() < 0.1 else rng.randint(1, 25) for _ in range(nd)]
  cyc = rng.choice([1, 2, 3, 4, 8, 16])
  kw = dict(cycle_length=cyc, num_make_iter_threads=rng.choice([1, 2]), make_iter_buffer_size=rng.choice([0, 1, 2]),
            iter_buffer_size=rng.choice([1, 1, 2, 4]))
  kinds, want = [], []
  comps = []
  filt = rng.random() < 0.25
  for d, l in enumerate(lens):
    m = grain.MapDataset.source(fns.Src(l, d * 1000, "int"))
    kind = rng.choice(["iter", "iter", "map", "shuf", "iflt", "imap", "buf"])
    kinds.append(kind)
    vals = [plain(core.snap(m[i])) for i in range(l)]
    if kind == "shuf":
      m = m.shuffle(seed=d)
      vals = [plain(core.snap(m[i])) for i in range(l)]
    if kind == "map":
      comps.append(m)
    else:
      ro = grain.ReadOptions(num_threads=rng.choice([1, 4]), prefetch_buffer_size=rng.choice([1, 8]))
      x = m.to_iter_dataset(read_options=ro)
      if kind == "iflt":
        x = x.filter(Mod(3, d))
        vals = [v for v in vals if Mod(3, d)(v)]
      elif kind == "imap":
        x = x.map(Plus())
        vals = [v + 500 for v in vals]
      elif kind == "buf":
        x = gexp.WindowShuffleIterDataset(x, window_size=rng.randint(1, 5), seed=d)
        vals = [plain(core.snap(v)) for v in iter(x)]
      comps.append(x)
    want.append(vals)
  comp_of = {v: (d, j) for d, vals in enumerate(want) for j, v in enumerate(vals)}
  assert len(comp_of) == sum(map(len, want))
  f = None
  if filt:
    f = Mod(2, 1)
  rounds = rng.randint(1, 4)
  seen = collections.Counter()
  nextpos = [-1] * nd
  hist = []
  how = rng.choice(["states", "files", "files", "json"])
  root = epath.Path(tempfile.mkdtemp(prefix="c16_"))
  h = handler.CheckpointHandler()
  saved = None
  c_prev = None
  ctx.sample(["iter", lens, cyc, kinds, how])

  def pipeline():
    ds = gexp.InterleaveIterDataset(comps, **kw)
    if outer == "map":
      ds = ds.map(Keep2())
    if f is not None:
      ds = ds.filter(f)
    return ds

  outer = rng.choice(["none", "map", "none"])
  try:
    for k in range(rounds + 1):
      c = rng.choice([1, 1, 2, 2, 3, 4, 6, nd, nd + 1])
      gb = 0 if rng.random() < 0.3 else c * rng.randint(1, 4)
      hist.append((c, gb))
      ctx.describe(iter=lens, kinds=kinds, kw=kw, rounds=hist, how=how, filt=filt, outer=outer)
      its = [gexp.ElasticIterator(pipeline(), gb, s) for s in shards(c)]
      if saved is not None:
        for i, it in enumerate(its):
          if rng.random() < 0.2:
            next(it, None)
            ctx.count("used_iterators")
          if how == "files":
            with Proc(i, c):
              h.restore(saved, item=it)
          elif c == c_prev and rng.random() < 0.5:
            it.set_state(json.loads(json.dumps(own[i])) if how == "json" else own[i])
          else:
            mine = {g: s for g, s in saved.items() if int(g) % c == i}
            it.set_shard_states(json.loads(json.dumps(mine)) if how == "json" else mine)
        ctx.count("reshardings")
        if c != c_prev:
          ctx.count("count_changes")
      end = k == rounds
      order = []
      live = list(range(c))
      budget = 10**6 if end else rng.choice([0, 1, 3, 10, 30, 100])
      pend = [rng.randint(0, budget) for _ in range(c)]
      while live:
        i = rng.choice(live)
        if not end and pend[i] <= 0:
          live.remove(i)
          continue
        pend[i] -= 1
        try:
          x = core.snap(next(its[i]))
        except StopIteration:
          live.remove(i)
          continue
        for v in flat_e(x, gb > 0):
          ctx.check(v in comp_of, "unknown-element", f"{v!r} is no element of the datasets")
          seen[v] += 1
          ctx.check(seen[v] == 1, "duplicate", f"element {v} was produced again by host {i} of {c} in round {k}")
          d, j = comp_of[v]
          ctx.check(d % c == i, "foreign-shard", f"host {i} of {c} produced an element of dataset {d}")
          ctx.check(j > nextpos[d], "order", f"element {j} of dataset {d} came after element {nextpos[d]}")
          nextpos[d] = j
          ctx.count("elements")
      ctx.beat()
      if end:
        break
      c_prev = c
      if how == "files":
        saved = root / f"ck{k}"
        saved.mkdir()
        for i in rng.sample(range(c), c):
          with Proc(i, c):
            h.save(saved, item=its[i])
        files = [p.name for p in saved.iterdir() if p.name.startswith("shard_state_")]
        ctx.check(len(files) == nd, "shard-files", f"{sorted(files)} for {nd} datasets")
      else:
        saved, own = {}, []
        for it in its:
          part = it.get_shard_states()
          ctx.check(not set(part) & set(saved), "shard-keys", f"several hosts have the state of {set(part) & set(saved)}")
          saved.update(part)
          own.append(it.get_state())
        ctx.check(sorted(saved) == list(range(nd)), "shard-keys", f"states of shards {sorted(saved)} for {nd} datasets")
        if how == "json":
          saved = json.loads(json.dumps(saved))
      if rng.random() < 0.3:  # reading on does not change what was saved
        for it in its:
          for _ in range(rng.randint(0, 3)):
            next(it, None)
      for it in its:
        it.close()
    lost = [v for v in comp_of if not seen[v] and (f is None or f(v))]
    ctx.check(not lost, "lost", f"{len(lost)} elements were never produced: {lost[:10]}")
    ctx.check(f is None or all(f(v) for v in seen), "filtered", "filtered elements were produced")
    ctx.count("iter_cases")
    if how == "files" and saved is not None and nd >= 2 and rng.random() < 0.3:
      missing(ctx, rng, saved, h, pipeline, nd, c_prev)
  finally:
    shutil.rmtree(root, ignore_errors=True)
  ctx.sig(["iter", lens, cyc, kinds, hist])


def missing(ctx, rng, saved, h, pipeline, nd, c_prev):
  """An incomplete checkpoint must not be taken for a complete one."""
  gone = rng.randrange(nd)
  (saved / f"shard_state_{gone}.json").unlink()
  c = c_prev % 3 + 1
  if c == c_prev:
    c += 1
  i = gone % c
  it = gexp.ElasticIterator(pipeline(), 0, shards(c)[i])
  try:
    with Proc(i, c):
      h.restore(saved, item=it)
  except Exception:  # pylint: disable=broad-except
    return ctx.count("incomplete_refused")
  ctx.fail("incomplete", f"a checkpoint without the state of shard {gone} of {nd} was restored without an error")


class Mod(grain.transforms.Filter):
  def __init__(self, m, r):
    self.m, self.r = m, r % m

  def filter(self, e):
    return int(e) % self.m != self.r

  __call__ = filter


class Keep2(grain.transforms.Map):
  def map(self, e):
    return e


def refused(ctx, rng):
  """Pipelines and batch sizes that cannot be elastic are refused."""
  ds = grain.MapDataset.source(fns.Src(20, 0, "int"))
  kind = rng.choice(["filter", "batch", "zip", "mix", "nointer"])
  ctx.describe(refused=kind)
  s = shards(3)[1]
  try:
    if kind == "filter":
      it = gexp.ElasticIterator(ds.filter(Mod(2, 0)).map(Keep2()), 3, s)
    elif kind == "batch":
      it = gexp.ElasticIterator(ds, rng.choice([1, 2, 4, 5, 7]), s)
    else:
      a = [ds.to_iter_dataset(), ds.to_iter_dataset()]
      x = (gexp.InterleaveIterDataset(a, cycle_length=2))
      if kind == "zip":
        x = grain.IterDataset.zip([x, x]) if hasattr(grain.IterDataset, "zip") else gexp.ZipIterDataset([x, x])
      elif kind == "mix":
        x = grain.IterDataset.mix([x, x], [1, 1])
      else:
        x = a[0]
      it = gexp.ElasticIterator(x, 3, s)
    next(it)
  except (ValueError, NotImplementedError, AttributeError) as e:
    if isinstance(e, AttributeError):
      raise
    return ctx.count("refused")
  ctx.fail("not-refused", f"an elastic iterator over a pipeline with {kind} was created")


def mp_case(ctx, rng):
  elastic_map(ctx, rng, mp=True)
  ctx.count("mp_cases")


def case(ctx, i, rng):
  x = rng.random()
  if x < 0.48:
    return elastic_map(ctx, rng)
  if x < 0.97:
    return elastic_iter(ctx, rng)
  return refused(ctx, rng)


DIRECTED = [mp_case] * 8
