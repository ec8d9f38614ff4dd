"""C19: randomness is reproducible, positional and isolated.

Every random map of a generated pipeline appends the raw draws it was given to the element. The oracle evaluates each
position on its own: a fresh build of the pipeline whose very first access is that position, in one thread. Everything
else (iteration, threads, prefetching, other access orders, batches of indices, earlier failures, copies, other processes
with another hash seed, disturbed global generators) must give the same draws, and no 64-bit draw may occur twice.
"""
import hashlib
import json
import os
import pickle
import random
import subprocess
import sys
import threading

import cloudpickle
import grain
from grain import experimental as gexp
import numpy as np

from gv import core, fns


class Bad(Exception):
  pass


def draw(rng, how):
  """64 random bits used for identification plus draws that leave a generator in all kinds of states."""
  u = int(rng.integers(0, 2**64, dtype=np.uint64))
  x = []
  if how == 1:
    x = [int(rng.integers(2**32, dtype=np.uint32))]
  elif how == 2:
    x = [float(rng.random(dtype=np.float32)), float(rng.normal())]
  elif how == 3:
    x = [rng.bytes(5).hex()]
  elif how == 4:
    x = rng.permutation(5).tolist() + rng.choice(9, 2).tolist()
  elif how == 5:
    x = [float(v) for v in rng.standard_gamma(0.7, 3)]
  elif how == 6:
    a = list(range(6))
    rng.shuffle(a)
    x = a + [int(rng.integers(2**16, dtype=np.uint16))]
  return u, tuple(x)


class Draw(grain.transforms.RandomMap):
  """(element, ((tag, bits), ...)) with one more entry; the amount drawn depends on the element."""

  def __init__(self, tag, salt, fail_first=0):
    self.tag, self.salt, self.fail = tag, salt, fail_first
    self.seen, self.lock = {}, threading.Lock()

  def __getstate__(self):
    return (self.tag, self.salt, self.fail)

  def __setstate__(self, s):
    self.__init__(*s)

  def random_map(self, e, rng):
    e, acc = e
    how = (int(e) * 31 + self.salt) % 7
    d = draw(rng, how)
    if self.fail and (int(e) + self.salt) % 3 == 0:
      with self.lock:
        k = self.seen[d[0]] = self.seen.get(d[0], 0) + 1
      if k <= self.fail:
        raise Bad("x")
    return (e, acc + ((self.tag,) + d,))


class Start(grain.transforms.Map):
  def map(self, e):
    return (int(e), ())


class KeepId(grain.transforms.Filter):
  def __init__(self, m, r):
    self.m, self.r = m, r

  def filter(self, e):
    return e[0] % self.m != self.r


def items(rng):
  """Specification of a chain of map dataset transformations over a range."""
  n = rng.randint(3, 24)
  out = [["range", n]]
  seeded = rng.random() < 0.6
  if seeded:
    out.append(["seed", rng.choice([0, 1, 7, 2**31, 2**32 - 1, rng.getrandbits(32)])])
  out.append(["start"])
  tag = 0
  for _ in range(rng.randint(1, 5)):
    x = rng.random()
    s = None if seeded and rng.random() < 0.7 else rng.getrandbits(32)
    if x < 0.6:
      out.append(["draw", tag, rng.randrange(7), s])
      tag += 1
    elif x < 0.75:
      out.append(["shuffle", s])
    elif x < 0.85:
      out.append(["filter", rng.randint(2, 4), 0])
    elif x < 0.9 and not any(o[0] == "repeat" for o in out):
      out.append(["repeat", rng.randint(2, 3)])
    elif x < 0.95 and seeded:
      out.append(["seed", rng.getrandbits(32)])
    else:
      out.append(["slice", rng.randint(0, 2), rng.randint(1, 3)])
  if not tag:
    out.append(["draw", 0, rng.randrange(7), None if seeded else rng.getrandbits(32)])
  return out


def build(spec, fail=0, mix=None):
  ds = None
  for o in spec:
    k = o[0]
    if k == "range":
      ds = grain.MapDataset.range(o[1])
    elif k == "seed":
      ds = ds.seed(o[1])
    elif k == "start":
      ds = ds.map(Start())
    elif k == "draw":
      ds = ds.random_map(Draw(o[1], o[2], fail), **({} if o[3] is None else {"seed": o[3]}))
    elif k == "shuffle":
      ds = ds.shuffle(**({} if o[1] is None else {"seed": o[1]}))
    elif k == "filter":
      ds = ds.filter(KeepId(o[1], o[2]))
    elif k == "repeat":
      ds = ds.repeat(o[1])
    elif k == "slice":
      ds = ds.slice(slice(o[1], None, o[2]))
  return ds


def eq(ctx, a, b, key, msg):
  ctx.count("oracle_checks")
  ctx.count("positions_compared", len(b))
  if a != b:
    i = next((i for i in range(max(len(a), len(b))) if i >= len(a) or i >= len(b) or a[i] != b[i]), None)
    ctx.fail(key, f"{msg}: position {i}: {str(a[i] if i < len(a) else None)[:200]} instead of "
             f"{str(b[i] if i < len(b) else None)[:200]}")


def unique(ctx, elements, what, index=None, key="shared-stream"):
  seen = {}
  for p, e in enumerate(elements):
    if e is None:
      continue
    for tag, bits, *_ in e[1]:
      where = (tag, p if index is None else index(p, e))
      if bits in seen and seen[bits] != where:
        ctx.fail(key, f"{what}: random map {tag} at position {p} got the same bits as (random map, position) {seen[bits]}")
      seen[bits] = where
  ctx.count("distinct_draws", len(seen))


class Globals:
  """Global generators: disturbed before, unchanged by grain."""

  def __init__(self, rng):
    np.random.seed(rng.getrandbits(32))
    random.seed(rng.getrandbits(32))
    np.random.normal()
    self.np, self.py = np.random.get_state(), random.getstate()

  def check(self, ctx, what):
    a, b = np.random.get_state(), self.np
    ctx.check(a[0] == b[0] and (a[1] == b[1]).all() and a[2:] == b[2:] and random.getstate() == self.py, "global-state",
              f"{what} changed or used the global random state")


def positional(ctx, rng):
  spec = items(rng)
  n = len(build(spec))
  ctx.describe(positional=spec)
  extra = rng.choice([0, 0, n])  # positions of a second epoch
  g = Globals(rng)
  want = [build(spec)[i] for i in range(n + extra)]
  g.check(ctx, "random access")
  if n:
    unique(ctx, want[:n], "one epoch")
    unique(ctx, want, "two epochs")
  g = Globals(rng)
  ds = build(spec)
  how = rng.choice(["order", "getitems", "iter", "iter", "threads", "copy", "fail", "prefetch", "global", "pin"])
  if how in ("order", "global", "fail"):
    fail = rng.randint(1, 2) if how == "fail" else 0
    ds = build(spec, fail)
    order = [i for i in range(n + extra) for _ in range(2 + 3 * fail * len(spec))]
    rng.shuffle(order)
    got = [None] * (n + extra)
    done = set()
    for i in order:
      if how == "global":
        np.random.seed(i)
        random.seed(i)
      try:
        x = ds[i]
      except Bad:
        ctx.count("failures")
        continue
      if i in done:
        ctx.check(x == got[i], "unstable", f"position {i} gave two values")
      got[i] = x
      done.add(i)
    if len(done) == n + extra:
      eq(ctx, got, want, how, "other order of access")
  elif how == "getitems":
    idx = [rng.randrange(n + extra) for _ in range(2 * n)] if n else []
    eq(ctx, list(ds._getitems(idx)), [want[i] for i in idx], how, "batched access")
  elif how == "threads":
    got = [None] * (n + extra)
    order = [list(range(n + extra)) for _ in range(4)]
    bad = []

    def work(o):
      for i in o:
        x = ds[i]
        if x != want[i]:
          bad.append((i, x))
        got[i] = x
    ts = []
    for o in order:
      rng.shuffle(o)
      ts.append(threading.Thread(target=work, args=(o,)))
    sw = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    for t in ts:
      t.start()
    for t in ts:
      t.join()
    sys.setswitchinterval(sw)
    eq(ctx, got, want, how, "concurrent access")
    ctx.check(not bad, how, f"concurrent access gave other values {bad[:1]}")
    ctx.count("threaded")
  elif how == "copy":
    ds[0] if n else None
    ds2 = pickle.loads(cloudpickle.dumps(ds)) if rng.random() < 0.7 else ds
    eq(ctx, [ds2[i] for i in range(n + extra)], want, how, "pickled dataset")
  else:
    ro = grain.ReadOptions(num_threads=rng.choice([0, 1, 4, 16]), prefetch_buffer_size=rng.choice([1, 3, 20]))
    it_ds = ds.to_iter_dataset(ro)
    if how == "prefetch":
      it_ds = gexp.ThreadPrefetchIterDataset(it_ds, prefetch_buffer_size=rng.randint(1, 4))
    its = [iter(it_ds) for _ in range(rng.choice([1, 1, 2]))]
    outs = [[] for _ in its]
    alive = list(range(len(its)))
    while alive:
      j = rng.choice(alive)
      try:
        outs[j].append(next(its[j]))
      except StopIteration:
        alive.remove(j)
    for o in outs:
      eq(ctx, o, [x for x in want[:n] if x is not None], how, f"iteration {ro.num_threads} threads")
  if how != "global":
    g.check(ctx, how)
  # Another seed changes every draw.
  if n and rng.random() < 0.3:
    other = [[o[0], o[1] ^ 1] if o[0] == "seed" else o[:3] + [o[3] ^ 1] if o[0] == "draw" and o[3] is not None else
             ["shuffle", o[1] ^ 1] if o[0] == "shuffle" and o[1] is not None else o for o in spec]
    ds = build(other)
    bits = {d[1] for e in want if e for d in e[1]}
    both = {d[1] for i in range(n) for e in [ds[i]] if e for d in e[1]} & bits
    ctx.check(not both, "seed-ignored", f"{len(both)} draws are the same with other seeds")
    ctx.count("other_seeds")
  ctx.sig([spec, how])
  ctx.sample([spec, how])
  ctx.count("positional")
  ctx.count("how_" + how)


def iterators(ctx, rng):
  """Random maps over iterators: the k-th element uses the k-th stream, whatever was filtered, restored or prefetched."""
  n = rng.randint(3, 30)
  seed = rng.getrandbits(32)
  explicit = rng.random() < 0.4
  m = rng.randint(1, 3)
  filt = rng.random() < 0.4
  salts = [rng.randrange(7) for _ in range(m)]
  where = rng.choice(["plain", "tprefetch", "inner", "restore", "restore", "global", "repeat"])
  ctx.describe(iterators=where, n=n, maps=m)

  def make():
    ds = grain.MapDataset.range(n).seed(seed).map(Start()).to_iter_dataset(
        grain.ReadOptions(num_threads=rng.choice([0, 3]), prefetch_buffer_size=4))
    if filt:
      ds = ds.filter(KeepId(3, 1))
    for t in range(m):
      ds = ds.random_map(Draw(t, salts[t]), **({"seed": seed ^ (t + 1)} if explicit else {}))
      if where == "inner":
        ds = gexp.ThreadPrefetchIterDataset(ds, prefetch_buffer_size=2)
    if where == "tprefetch":
      ds = gexp.ThreadPrefetchIterDataset(ds, prefetch_buffer_size=3)
    if where == "repeat":
      ds = gexp.RepeatIterDataset(ds, 2)
    return ds

  # The stream of position k must not depend on the elements: read over other elements with the same maps.
  g = Globals(rng)
  want = list(make())
  g.check(ctx, "iterating")
  k = len(want)
  unique(ctx, want, "iterator", index=(lambda p, e: p % (k // 2)) if where == "repeat" and k else None)
  firsts = [[d[1] for d in e[1]] for e in want]
  for t in range(m):
    ds = grain.MapDataset.range(n + 7).seed(seed).map(Start()).to_iter_dataset()
    if not explicit:
      break
    ds = ds.random_map(Draw(t, 3), seed=seed ^ (t + 1))
    it = iter(ds)
    for p in range(k if where != "repeat" else k // 2):
      e = next(it)
      ctx.check(e[1][0][1] == firsts[p][t], "not-positional",
                f"the stream of position {p} depends on the elements or the other random maps")
      ctx.count("positions_compared")
  if where == "restore":
    it = iter(make())
    states, out = [it.get_state()], []
    for e in it:
      out.append(e)
      states.append(it.get_state())
    eq(ctx, out, want, "iter", "second iterator with states taken")
    for _ in range(4):
      p = rng.randrange(len(states))
      it2 = iter(make()) if rng.random() < 0.5 else it
      it2.set_state(json.loads(json.dumps(states[p])))
      eq(ctx, [x for x in it2], want[p:], "restore", f"restored at {p}")
  else:
    if where == "global":
      random.seed(1)
      np.random.seed(1)
    eq(ctx, list(make()), want, "iter", "second iterator")
  ctx.sig([where, n, seed, m, filt, explicit, salts])
  ctx.count("iterators")


def default_seeds(ctx, rng):
  """Seeds derived from ds.seed: deterministic, different along the chain, overridable, explicit ones untouched."""
  n = rng.randint(20, 40)
  s = rng.choice([0, 1, 2**32 - 1, rng.getrandbits(32), rng.getrandbits(60)])
  depth = rng.randint(2, 8)
  kinds = [rng.choice(["draw", "draw", "shuffle", "map"]) for _ in range(depth)]
  it_from = rng.choice([None, depth // 2])
  ctx.describe(default_seeds=kinds, seed=s)

  def make(s, explicit=None, second=None):
    """draws of all random maps per position; orders are seen in the ids"""
    ds = grain.MapDataset.range(n).seed(s).map(Start())
    for t, k in enumerate(kinds):
      if it_from == t:
        ds = ds.to_iter_dataset()
      if second is not None and second[0] == t:
        ds = ds.seed(second[1])
      if k == "draw" or (k == "shuffle" and it_from is not None and t >= it_from):
        ds = ds.random_map(Draw(t, 0), **({} if explicit is None or explicit[0] != t else {"seed": explicit[1]}))
      elif k == "shuffle":
        ds = ds.shuffle(**({} if explicit is None or explicit[0] != t else {"seed": explicit[1]}))
      else:
        ds = ds.map(lambda e: e)
    return list(ds)

  a = make(s)
  eq(ctx, make(s), a, "default-seed", "the same seed")
  unique(ctx, a, "chain with derived seeds")
  b = make(s ^ 1)
  both = {d[1] for e in a for d in e[1]} & {d[1] for e in b for d in e[1]}
  ctx.check(not both, "seed-ignored", f"{len(both)} draws are the same with another ds.seed")
  if "shuffle" in kinds[:it_from]:
    ctx.check([e[0] for e in a] != [e[0] for e in b], "seed-ignored", "the order is the same with another ds.seed")
  # An explicit seed: only that transformation's draws change, and they do not depend on ds.seed.
  t = rng.randrange(depth)
  is_draw = kinds[t] == "draw" or (kinds[t] == "shuffle" and it_from is not None and t >= it_from)
  if is_draw:
    x = rng.getrandbits(32)
    c, c2 = make(s, (t, x)), make(s ^ 1, (t, x))
    pos = lambda es: [[d[1] for d in e[1] if d[0] == t] for e in es]
    if not any(k == "shuffle" for k in kinds):
      eq(ctx, pos(c), pos(c2), "explicit-seed", "draws of a random map with its own seed under another ds.seed")
    ctx.check(not ({d for p in pos(c) for d in p} & {d for p in pos(a) for d in p}), "explicit-seed", "the seed is ignored")
    eq(ctx, [[d for d in e[1] if d[0] != t] for e in c], [[d for d in e[1] if d[0] != t] for e in a], "explicit-seed",
       "draws of the other random maps")
    ctx.count("explicit_seeds")
  # A second ds.seed overrides the first one downstream (and only there).
  t = rng.randrange(depth)
  x = rng.getrandbits(32)
  if not any(k == "shuffle" for k in kinds):
    d1, d2 = make(s, None, (t, x)), make(s ^ 1, None, (t, x))
    down = lambda es: [[d for d in e[1] if d[0] >= t] for e in es]
    up = lambda es: [[d for d in e[1] if d[0] < t] for e in es]
    eq(ctx, down(d1), down(d2), "seed-override", "draws after the second ds.seed under another first seed")
    eq(ctx, up(d1), up(a), "seed-override", "draws before the second ds.seed")
    ctx.count("overridden_seeds")
  # Both seeds of a mixture matter.
  def mixed(s1, s2):
    p = [grain.MapDataset.range(n).seed(v).map(Start()) for v in (s1, s2)]
    return [d[1] for e in grain.MapDataset.mix(p).random_map(Draw(0, 0)) for d in e[1]]
  y = rng.getrandbits(32)
  m = mixed(s, y)
  eq(ctx, mixed(s, y), m, "default-seed", "mixture")
  for o in (mixed(s ^ 1, y), mixed(s, y ^ 1)):
    ctx.check(not set(o) & set(m), "seed-ignored", "the seed of one component of a mixture is ignored")
  ctx.check(len(set(m)) == len(m), "shared-stream", "mixture")
  try:
    grain.MapDataset.range(n).map(Start()).random_map(Draw(0, 0))
  except ValueError:
    ctx.count("refused")
  else:
    ctx.fail("no-seed", "a random map without any seed was accepted")
  ctx.sig([kinds, s, it_from])
  ctx.count("default_seeds")


def orders(ctx, rng):
  """Shuffles: epochs, windows, packing batches and seeds get different orders; all reproducible."""
  seed = rng.choice([0, 5, 2**32 - 1, rng.getrandbits(32)])
  kind = rng.choice(["shuffle", "wshuffle", "iwshuffle", "pack", "sampler"])
  w = rng.randint(14, 40)
  ctx.describe(orders=kind, seed=seed, size=w)
  g = Globals(rng)

  def make(s):
    if kind == "shuffle":
      ds = grain.MapDataset.range(w).shuffle(seed=s).repeat(4)
      return [[ds[e * w + i] for i in range(w)] for e in range(4)]
    if kind == "wshuffle":
      ds = gexp.WindowShuffleMapDataset(grain.MapDataset.range(4 * w), window_size=w, seed=s)
      return [[ds[e * w + i] % w for i in range(w)] for e in range(4)]
    if kind == "iwshuffle":
      ds = gexp.WindowShuffleIterDataset(grain.MapDataset.range(4 * w).to_iter_dataset(), window_size=w, seed=s)
      xs = list(ds)
      return [[x % w for x in xs[e * w:(e + 1) * w]] for e in range(4)]
    if kind == "pack":
      ds = grain.MapDataset.range(4 * w).map(lambda i: {"a": np.array([i])}).to_iter_dataset()
      ds = gexp.FirstFitPackIterDataset(ds, length_struct={"a": 1}, num_packing_bins=w, seed=s, shuffle_bins=True)
      xs = [int(e["a"][0] if "a" in e else e[0]["a"][0]) for e in ds]
      return [[x % w for x in xs[e * w:(e + 1) * w]] for e in range(4)]
    sm = grain.samplers.IndexSampler(w, grain.sharding.NoSharding(), shuffle=True, num_epochs=4, seed=s)
    xs = [sm[i].record_key for i in range(4 * w)]
    return [xs[e * w:(e + 1) * w] for e in range(4)]

  a = make(seed)
  g.check(ctx, kind)
  np.random.seed(3)
  random.seed(4)
  ctx.check(make(seed) == a, "not-reproducible", f"{kind} gives another order the second time")
  for o in a:
    ctx.check(sorted(o) == list(range(w)), "not-a-permutation", f"{o}")
  ctx.check(len({tuple(o) for o in a}) == 4, "same-order", f"{kind}: epochs or windows are ordered the same way")
  s2 = (seed + 9) % 2**32
  b = make(s2)
  ctx.check(not {tuple(o) for o in a} & {tuple(o) for o in b}, "same-order", f"{kind}: order does not depend on the seed")
  ctx.sig([kind, seed, w])
  ctx.count("orders", 8)


def loaders(ctx, rng, workers=0):
  n, epochs = rng.randint(4, 20), rng.randint(1, 2)
  seed = rng.choice([0, 3, rng.getrandbits(31)])
  k = rng.randint(1, 3)
  shuffle = rng.random() < 0.5
  ctx.describe(loader=n, epochs=epochs, workers=workers)

  def make(s, workers, threads, m=k):
    return grain.DataLoader(
        data_source=fns.Src(n),
        sampler=grain.samplers.IndexSampler(n, grain.sharding.NoSharding(), shuffle=shuffle, num_epochs=epochs, seed=s),
        operations=[Start()] + [Draw(t, t) for t in range(m)], worker_count=workers,
        read_options=grain.ReadOptions(num_threads=threads, prefetch_buffer_size=4))
  g = Globals(rng)
  want = list(make(seed, 0, 0))
  ctx.check(len(want) == n * epochs, "loader", f"{len(want)} elements")
  unique(ctx, want, "loader")
  got = list(make(seed, workers, rng.choice([0, 4])))
  g.check(ctx, "loader")
  eq(ctx, sorted(got), sorted(want), "loader", f"{workers} workers") if workers else eq(ctx, got, want, "loader", "again")
  other = list(make(seed + 1000, 0, 0))
  ctx.check(not {d[1] for e in other for d in e[1]} & {d[1] for e in want for d in e[1]}, "seed-ignored", "loader")
  if workers:
    ctx.count("mp_cases")
  ctx.count("loaders")


def mp(ctx, rng):
  """Worker processes: map dataset random maps keep their global positions, iterator ones are distinct."""
  n, w = rng.randint(8, 30), rng.randint(1, 3)
  seed = rng.getrandbits(32)
  base = grain.MapDataset.range(n).seed(seed).map(Start()).shuffle().random_map(Draw(0, 1))
  ctx.describe(mp=n, workers=w)
  want = list(base)
  ds = base.to_iter_dataset().random_map(Draw(1, 2))
  one = list(ds)
  got = list(ds.mp_prefetch(grain.MultiprocessingOptions(num_workers=w)))
  ctx.beat()
  eq(ctx, [(e[0], e[1][:1]) for e in got], want, "mp", "elements and draws of the map dataset")
  eq(ctx, [e[1][1][1] for e in got], [e[1][1][1] for e in one], "mp", "streams of the iterator's random map by position")
  unique(ctx, got, "worker processes")
  loaders(ctx, rng, workers=rng.randint(1, 3))
  ctx.count("mp_cases")


def mp_sequential(ctx, rng):
  """Sequentially sliced workers must not share streams."""
  ds = grain.MapDataset.range(12).map(Start()).random_map(Draw(0, 1), seed=rng.getrandbits(32)).to_iter_dataset()
  got = list(ds.mp_prefetch(grain.MultiprocessingOptions(num_workers=2), sequential_slice=True))
  ctx.check(sorted(e[0] for e in got) == list(range(12)), "mp", "elements")
  unique(ctx, got, "sequentially sliced workers", index=lambda p, e: e[0], key="sequential-slice-streams")
  ctx.count("mp_cases")


class Spawner(grain.transforms.RandomMap):
  def random_map(self, e, rng):
    return (e[0], ((0, int(rng.spawn(1)[0].integers(2**63)), ()),))


def spawned(ctx, rng):
  """Generators spawned from the element's generator."""
  seed = rng.getrandbits(32)
  ds = lambda: grain.MapDataset.range(6).map(Start()).random_map(Spawner(), seed=seed)
  want = [ds()[i] for i in range(6)]
  unique(ctx, want, "spawned generators")
  eq(ctx, list(ds()), want, "spawned", "spawned generators")


SCRIPT = """
import sys
sys.path.insert(0, {verif!r})
from gv.props import c19
print("DIGEST", c19.program({seed}))
"""


def program(seed):
  """A digest of what many random pipelines give; run in processes with different hash seeds."""
  h = hashlib.sha256()
  for k in range(25):
    rng = random.Random(f"{seed}:{k}")
    ds = build(items(rng))
    h.update(repr([ds[i] for i in range(len(ds))]).encode())
    n = rng.randint(5, 40)
    it = gexp.WindowShuffleIterDataset(ds.to_iter_dataset().seed(k).random_map(Draw(9, 1)), window_size=5, seed=k)
    h.update(repr(list(it)).encode())
    tok = grain.MapDataset.range(n).shuffle(seed=k).map(fns.Src(n, 0, "tok5").at).to_iter_dataset()
    for cls in (gexp.FirstFitPackIterDataset, gexp.BestFitPackIterDataset):
      ps = cls(tok, length_struct={"a": 9, "b": 9}, num_packing_bins=4, seed=k, shuffle_bins=True)
      h.update(repr([sorted((str(a), np.asarray(v).tolist()) for a, v in _flat(e)) for e in ps]).encode())
    mixed = grain.MapDataset.mix([grain.MapDataset.range(n), grain.MapDataset.range(9).shuffle(seed=1)], [0.3, 0.7])
    h.update(repr([int(x) for x in mixed]).encode())
    ld = grain.load(fns.Src(n), num_epochs=2, shuffle=True, seed=k, transformations=[Start(), Draw(0, 1)])
    h.update(repr(list(ld)).encode())
  return h.hexdigest()


def _flat(e, p=""):
  if isinstance(e, dict):
    return [x for k, v in e.items() for x in _flat(v, f"{p}.{k}")]
  if isinstance(e, (list, tuple)):
    return [x for k, v in enumerate(e) for x in _flat(v, f"{p}.{k}")]
  return [(p, e)]


def runs(ctx, rng):
  """The same program in two processes with different hash seeds and in this one."""
  seed = rng.getrandbits(20)
  verif = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
  out = []
  for hs in ("0", str(rng.randint(1, 10**6))):
    p = subprocess.run([sys.executable, "-c", SCRIPT.format(verif=verif, seed=seed)], capture_output=True, text=True,
                       env=dict(os.environ, PYTHONHASHSEED=hs), timeout=300)
    d = [l for l in p.stdout.splitlines() if l.startswith("DIGEST")]
    if not d:
      raise core.HarnessError(p.stderr[-1500:])
    out.append(d[0].split()[1])
    ctx.beat()
  ctx.check(len({*out, program(seed)}) == 1, "not-reproducible", "another process (hash seed) gave other values")
  ctx.count("processes", 2)


def case(ctx, i, rng):
  x = rng.random()
  if x < 0.5:
    return positional(ctx, rng)
  if x < 0.7:
    return iterators(ctx, rng)
  if x < 0.82:
    return default_seeds(ctx, rng)
  if x < 0.94:
    return orders(ctx, rng)
  return loaders(ctx, rng)


DIRECTED = [mp, mp, runs, runs, mp_sequential, spawned, mp, runs]
