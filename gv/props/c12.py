"""C12: a data loader delivers every sampled record exactly once, deterministically."""
import collections
import os

import grain

from gv import core, fns, loaders
from gv.core import snap, take


SEQ = [0]


def case(ctx, i, rng):
  if rng.random() < 0.25:
    return sampler_case(ctx, rng)
  run(ctx, rng, loaders.gen(rng))


def run(ctx, rng, s):
  ctx.describe(spec=s)
  inf = loaders.infinite(s)
  cap = 90 if inf else 10**6
  want, idx = loaders.reference(s, cap)
  if inf:
    # only a prefix of the reference is unaffected by the cut
    want = want[:max(0, min(len(want) - 6 * max(1, s["workers"]), 25))]
  SEQ[0] += 1
  log = os.path.join(ctx.tmp, f"reads{SEQ[0]}.log")
  it = iter(loaders.build(s, log))
  if rng.random() < 0.15 and hasattr(it, "start_prefetch"):
    it.start_prefetch()
  got, ended = take(it, len(want) + (0 if inf else 1), ctx)
  got = [snap(x) for x in got]
  ctx.equal(got, want, "loader-elements", "the loader's elements differ from the sampled records")
  if not inf:
    ctx.check(ended, "loader-end", "the loader gives more than the sampled records", got=core.jsonable(got[-2:]))
    for _ in range(2):
      ctx.check(take(it, 1)[1], "loader-end-stays", "an element after the end")
    reads = collections.Counter(int(x) for x in open(log).read().split()) if os.path.exists(log) else {}
    smp = loaders.sampler(s)
    expect = collections.Counter(smp[i].record_key for i in idx)
    ctx.check(reads == expect, "read-once", "records are not read exactly once per sampling",
              extra=core.jsonable(dict(reads - expect if reads else {})), missing=core.jsonable(dict(expect - collections.Counter(reads))))
    ctx.count("records_read", sum(expect.values()))
  if want:
    ctx.sig(s)
  ctx.sample(s)
  # the same configuration again, with other read threads and buffers
  if s["workers"] == 0 or rng.random() < 0.3:
    over = dict(threads=rng.choice([0, 1, 3, 16]), buf=rng.choice([1, 2, 30]), wbuf=rng.choice([1, 2, 4]))
    if over["threads"] == 0:
      over["buf"] = 0
    it2 = iter(loaders.build(dict(s, **over)))
    got2, _ = take(it2, len(want), ctx)
    ctx.equal([snap(x) for x in got2], want, "loader-rerun", "a second loader of the same configuration differs")
    ctx.count("reruns")
  ctx.count("loaders")


def sampler_case(ctx, rng):
  """Shards of the built-in samplers give the documented records in every epoch."""
  n, c, drop = rng.randint(1, 60), rng.randint(1, 8), rng.random() < 0.5
  epochs = rng.choice([1, 1, 2, 3, None])
  shuffle = rng.random() < 0.6
  seed = rng.randint(0, 2**32 - 1)
  kind = rng.choice(["index", "index", "seq"])
  if kind == "index" and epochs != 1:
    n = max(n, c)        # repeating an empty shard is refused
  ctx.describe(n=n, shards=c, drop=drop, epochs=epochs, shuffle=shuffle, seed=seed, kind=kind)
  tot = collections.Counter()
  orders = {}
  for j in range(c):
    sh = grain.sharding.ShardOptions(shard_index=j, shard_count=c, drop_remainder=drop)
    s = {"n": n, "base": 0, "kind": "int", "shard": [j, c, drop], "sampler": kind, "seed": seed, "shuffle": shuffle,
         "epochs": epochs, "workers": 0, "ops": [], "threads": 0, "buf": 0}
    a, b = loaders.shard_range(n, j, c, drop)
    k = 3 * (b - a) if epochs is None else 10**6
    it = iter(loaders.build(s))
    got = [int(x) for x in take(it, k, ctx)[0]]
    if kind == "seq":
      lim = n // c * c if drop else n
      want = list(range(j, lim, c))
      ctx.check(got == want, "sequential-shard", "sequential sampling gives other records", got=got, want=want)
      tot.update(got)
      continue
    m = b - a
    if epochs is not None and epochs > 1 and not drop and n % c:
      # see known_findings.json: shards of different sizes do not complete their last epochs
      want_len = len(loaders.local_indices(s, 10**6))
      if want_len != m * epochs:
        full = [got[e:e + m] for e in range(0, len(got) - m + 1, m)]
        ok = len(got) == want_len and all(sorted(f) == list(range(a, b)) for f in full)
        part = got[len(full) * m:]
        ok = ok and len(set(part)) == len(part) and set(part) <= set(range(a, b))
        ctx.check(ok, "uneven-epochs-other", "an uneven shard over several epochs gives other records than recorded", got=got)
        ctx.fail("uneven-multi-epoch", "an uneven shard does not read its records once per epoch", got=got)
    eps = [got[e:e + m] for e in range(0, len(got), m)] if m else []
    ctx.check(len(got) == (m * epochs if epochs is not None else 3 * m), "epoch-length", "the shard has a wrong size", got=got)
    for e in eps:
      ctx.check(sorted(e) == list(range(a, b)), "epoch-records", f"an epoch of shard {j} is not its records once", got=e)
      if not shuffle:
        ctx.check(e == list(range(a, b)), "epoch-order", "unshuffled records are out of order", got=e)
    if shuffle and m >= 8 and len(eps) > 1:
      ctx.check(eps[0] != eps[1], "epochs-equal", "two epochs are shuffled the same way")
    for e in eps[:1]:
      tot.update(e)
  want = n // c * c if drop else n
  ctx.check(all(v == 1 for v in tot.values()) and len(tot) == want, "shards-cover", "the shards do not cover the records once")
  ctx.count("sampler_cases")
  ctx.sig([n, c, drop, epochs, shuffle, seed, kind])


def mp_case(ctx, rng):
  s = loaders.gen(rng, workers=rng.choice([1, 2, 2, 3]))
  s["n"] = rng.randint(max(1, s["shard"][1]), 25)
  if rng.random() < 0.5:
    s["ops"] = [{"op": "delay", "ms": rng.choice([1, 20])}] + s["ops"]
  run(ctx, rng, s)
  ctx.count("multiprocess_cases")


DIRECTED = [mp_case] * 24
