"""C08: sharding partitions the data exactly."""
import grain
import numpy as np

from gv import fns, pipes
from gv.core import snap


def sizes_ok(ctx, sizes, n, c, drop):
  ctx.check(max(sizes) - min(sizes) <= 1, "uneven", f"shard sizes {sizes} of {n} records differ by more than one")
  if drop:
    ctx.check(set(sizes) == {n // c}, "drop-remainder", f"shards have sizes {sizes} instead of {n // c}")
  else:
    ctx.check(sum(sizes) == n, "coverage", f"shards of sizes {sizes} do not cover {n} records")


def partition(ctx, shards, n, drop, what):
  allv = [x for s in shards for x in s]
  ctx.check(len(set(allv)) == len(allv), "overlap", f"{what}: a record is in two shards", shards=shards)
  ctx.check(set(allv) <= set(range(n)), "foreign", f"{what}: records outside [0,{n})", shards=shards)
  if not drop:
    ctx.check(len(allv) == n, "coverage", f"{what}: records are missing", missing=sorted(set(range(n)) - set(allv))[:10])
  else:
    ctx.check(len(allv) == n - n % len(shards), "drop-remainder", f"{what}: not only the remainder is missing",
              n=n, got=len(allv))
  ctx.count("records", n)
  ctx.count("shards", len(shards))


def samplers(ctx, rng):
  """Every shard of the built-in samplers, over epochs, read position by position."""
  n = rng.choice([rng.randint(1, 12), rng.randint(1, 200), 64, 100])
  c = rng.choice([1, 2, 3, 4, 7, 8, rng.randint(1, 40)])
  drop = rng.random() < 0.5
  shuffle = rng.random() < 0.5
  seed = rng.randint(0, 10**6)
  kind = rng.choice(["index", "index", "sequential"])
  ctx.describe(sampler=kind, n=n, shards=c, drop=drop, shuffle=shuffle)
  q, r = divmod(n, c)
  sizes = [q + (0 if drop else (s < r)) for s in range(c)]
  if kind == "sequential":
    sh = []
    for s in range(c):
      sm = grain.samplers.SequentialSampler(n, grain.sharding.ShardOptions(s, c, drop))
      sh.append([int(sm[i].record_key) for i in range(s, len(sm), c)])
    partition(ctx, sh, n, drop, "SequentialSampler")
    sizes_ok(ctx, [len(x) for x in sh], n, c, drop)
  else:
    epochs = rng.choice([1, 1, None]) if min(sizes) else 1
    per_epoch = [[] for _ in range(1 if epochs else 3)]
    for s in range(c):
      sm = grain.samplers.IndexSampler(n, grain.sharding.ShardOptions(s, c, drop), shuffle=shuffle, num_epochs=epochs,
                                       seed=seed if shuffle else None)
      if epochs == 1:
        per_epoch[0].append([int(sm[i].record_key) for i in range(s, len(sm), c)])
      else:
        for e in range(len(per_epoch)):
          ks = [int(sm[(e * sizes[s] + k) * c + s].record_key) for k in range(sizes[s])]
          # the keys of later epochs are offset by whole epochs of the data
          per_epoch[e].append([k % n for k in ks])
    for e, sh in enumerate(per_epoch):
      partition(ctx, sh, n, drop, f"IndexSampler epoch {e}")
      sizes_ok(ctx, [len(x) for x in sh], n, c, drop)
    if not shuffle:
      for x in per_epoch[0]:
        ctx.check(x == sorted(x), "order", "an unshuffled shard is out of order", shard=x)
  ctx.count("sampler_cases")
  ctx.sig([kind, n, c, drop, shuffle])


def huge(ctx, rng):
  """Contiguous shards of very many records: boundaries meet exactly."""
  n = rng.choice([10**6, 10**9, 2**31, 2**31 - 1, 2**32 + 1, 2**53 + 1, 10**15, rng.randrange(10**6, 10**15)])
  c = rng.choice([2, 3, 7, 64, 1000, 4096, rng.randint(2, 10**5)])
  drop = rng.random() < 0.5
  ctx.describe(huge=n, shards=c, drop=drop)
  q, r = divmod(n, c)
  prev = None
  for s in sorted(set([0, 1, c - 2, c - 1, r, max(0, r - 1), rng.randrange(c)])):
    if not 0 <= s < c:
      continue
    sm = grain.samplers.IndexSampler(n, grain.sharding.ShardOptions(s, c, drop), num_epochs=1)
    size = q + (0 if drop else (s < r))
    first = int(sm[s].record_key)
    last = int(sm[(size - 1) * c + s].record_key)
    ctx.check(last - first == size - 1, "huge-size", f"shard {s} of {c} spans {last - first + 1} instead of {size} records")
    start = s * q + (0 if drop else min(s, r))
    ctx.check(first == start, "huge-boundary", f"shard {s} of {c} over {n} starts at {first}, the one before ends at {start - 1}")
    ctx.check(0 <= first <= last < n, "foreign", "outside the records")
    ctx.check(len(sm) == (n - r if drop else n), "huge-length", f"the sampler has {len(sm)} positions")
    prev = last
  ctx.count("boundaries", 7)
  ctx.sig(["huge", n, c, drop])


def strided(ctx, rng):
  """ds[i::n] of any map pipeline, nested for hosts and workers."""
  g = pipes.G(rng, max_n=30, deep=3)
  spec, a = g.mapds()
  ds = pipes.build(spec)
  n = len(ds)
  if n > 400:
    return
  h, w = rng.choice([1, 2, 3, 5, 8]), rng.choice([1, 2, 3, 4])
  ctx.describe(strided=spec, hosts=h, workers=w)
  want = [snap(ds[i]) for i in range(n)]
  seen = {}
  for i in range(h):
    host = ds[i::h] if rng.random() < 0.5 else ds.slice(slice(i, None, h))
    sz = len(range(i, n, h))
    ctx.check(len(host) == sz, "stride-size", f"shard {i} of {h} has {len(host)} of {n} elements instead of {sz}")
    for j in range(w):
      wk = host[j::w]
      for k in range(len(wk)):
        p = i + (j + k * w) * h
        ctx.check(p not in seen, "overlap", f"position {p} is in two shards")
        seen[p] = 1
        ctx.equal([snap(wk[k])], [want[p]] if p < n else [], "stride-element", f"shard ({i},{j}) element {k} is not element {p}")
  ctx.check(len(seen) == n, "coverage", f"the shards give {len(seen)} of {n} positions")
  ctx.count("records", n)
  ctx.count("shards", h * w)
  if n:
    ctx.sig(["strided", spec, h, w])


def loader(ctx, rng):
  """Whole DataLoaders (grain.load and explicit) per shard."""
  n, c = rng.randint(1, 40), rng.choice([1, 2, 3, 4])
  drop, shuffle = rng.random() < 0.5, rng.random() < 0.5
  if n < c:
    n += c
  ctx.describe(loader=n, shards=c, drop=drop, shuffle=shuffle)
  out = []
  for s in range(c):
    so = grain.sharding.ShardOptions(s, c, drop)
    dl = grain.load(fns.Src(n, 0, "int"), num_epochs=1, shuffle=shuffle, seed=7, shard_options=so,
                    read_options=grain.ReadOptions(num_threads=rng.choice([0, 2]), prefetch_buffer_size=0)
                    if rng.random() < 0.3 else None)
    out.append([int(x) for x in dl])
  partition(ctx, out, n, drop, "load")
  sizes_ok(ctx, [len(x) for x in out], n, c, drop)
  ctx.count("loaders", c)
  ctx.sig(["load", n, c, drop, shuffle])


def invalid(ctx, rng):
  for i, c in ((0, 0), (0, -1), (-1, 4), (4, 4), (5, 4), (-1, -1), (1, 1), (-4, 4), (2**40, 3), (0, -2**40)):
    ctx.describe(shard=(i, c))
    try:
      grain.sharding.ShardOptions(shard_index=i, shard_count=c)
    except ValueError:
      ctx.count("refused")
      continue
    ctx.fail("bad-shard-accepted", f"shard {i} of {c} is accepted")
  for bad in (0, -3):
    for cls in (grain.samplers.SequentialSampler, grain.samplers.IndexSampler):
      try:
        cls(bad)
      except ValueError:
        ctx.count("refused")
        continue
      ctx.fail("bad-sampler-accepted", f"{cls.__name__}({bad}) is accepted")
  for kw in (dict(num_epochs=0), dict(num_epochs=-1), dict(shuffle=True), dict(shuffle=True, seed=2**32), dict(shuffle=True, seed=-1)):
    try:
      grain.samplers.IndexSampler(10, **kw)
    except (ValueError, TypeError):
      ctx.count("refused")
      continue
    ctx.fail("bad-sampler-accepted", f"IndexSampler(10, {kw}) is accepted")
  n, c = rng.randint(2, 30), rng.randint(1, 5)
  for cls in (grain.samplers.SequentialSampler, grain.samplers.IndexSampler):
    for drop in (False, True):
      if n < c:
        continue
      kw = {} if cls is grain.samplers.SequentialSampler else dict(num_epochs=1)
      sm = cls(n, grain.sharding.ShardOptions(0, c, drop), **kw)
      for i in (-1, len(sm), len(sm) + 5):
        try:
          sm[i]
        except IndexError:
          ctx.count("refused")
          continue
        ctx.fail("out-of-range-read", f"{cls.__name__} position {i} of {len(sm)} is readable")
  o = grain.sharding.NoSharding()
  ctx.check((o.shard_index, o.shard_count) == (0, 1), "no-sharding", "NoSharding is not one whole shard")
  o = grain.sharding.ShardByJaxProcess(drop_remainder=True)
  ctx.check((o.shard_index, o.shard_count, o.drop_remainder) == (0, 1, True), "jax-sharding",
            "one JAX process is not one whole shard")


DIRECTED = [invalid] * 8
KINDS = [samplers] * 5 + [huge] * 2 + [strided] * 5 + [loader]


def case(ctx, i, rng):
  rng.choice(KINDS)(ctx, rng)
