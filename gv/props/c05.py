"""C05: random access on map datasets is exact, pure and thread-safe."""
import sys
import threading

import grain

from gv import core, pipes
from gv.core import snap


def case(ctx, i, rng):
  g = pipes.G(rng, max_n=20, model_only=rng.random() < 0.85, deep=6)
  spec, a = g.mapds()
  ctx.describe(spec=spec)
  ds = pipes.build(spec)
  randomized = "randmap" in pipes.ops_of(spec)
  if randomized:
    # random_map has no reference values: an independently built dataset, read in order, is the reference
    d2 = pipes.build(spec)
    n = len(d2)
    vals = {}

    def ref(k):
      if k not in vals:
        vals[k] = snap(d2[k])
      return vals[k]
  else:
    m = pipes.model(spec)
    n, ref = m.n, m.get
  ctx.check(len(ds) == n, "length", f"len() is {len(ds)}, the composition has {n}")
  if n:
    ctx.sig(spec)
  ctx.sample(spec)
  for o in set(pipes.ops_of(spec)):
    ctx.count("op:" + o)
  if n == 0:
    it = iter(ds)
    try:
      next(it)
      ctx.fail("empty-not-empty", "an empty dataset produced an element")
    except StopIteration:
      ctx.count("empty")
    return
  epochs = 3
  idx = list(range(min(n, 120))) + [n + k for k in range(min(n, 20))] + [2 * n + rng.randrange(n) for _ in range(5)]
  want = {k: ref(k) for k in idx}
  order = idx[:]
  rng.shuffle(order)

  def cmp(got, k, how):
    ctx.count("oracle_checks")
    ctx.count("reads")
    if not core.same(got, want[k]):
      ctx.fail("random-access-mismatch", f"element {k} of {n} read {how} is not what the composition defines",
               got=got, want=want[k], index=k, n=n)

  for k in order:
    cmp(snap(ds[k]), k, "in random order")
  for k in rng.sample(order, min(6, len(order))):
    cmp(snap(ds[k]), k, "again")
  ctx.beat()
  # slices and slices of slices
  for _ in range(2):
    v = lambda: rng.choice([None, rng.randint(-n - 3, n + 3)])
    s1 = slice(v(), v(), rng.choice([None, 1, 2, -1, -3]))
    r1 = range(n)[s1]
    d1 = ds[s1] if rng.random() < 0.5 else ds.slice(s1)
    ctx.check(len(d1) == len(r1), "slice-length", f"slice {s1} of {n} has length {len(d1)} instead of {len(r1)}")
    for j in range(min(len(r1), 6)):
      if r1[j] in want:
        cmp(snap(d1[j]), r1[j], f"through slice {s1}")
    if len(r1) > 1:
      s2 = slice(rng.randint(0, len(r1) - 1), None, rng.choice([1, 2]))
      r2 = r1[s2]
      d2_ = d1[s2]
      ctx.check(len(d2_) == len(r2), "slice-length", f"slice {s2} of slice {s1} has length {len(d2_)}")
      for j in range(min(len(r2), 4)):
        if r2[j] in want:
          cmp(snap(d2_[j]), r2[j], f"through slices {s1} {s2}")
  # iteration agrees with random access (None = filtered out)
  it = iter(ds)
  exp = [want[k] for k in idx[:min(n, 120)] if want[k] is not None]
  got, end = core.take(it, len(exp) + (1 if n <= 120 else 0), ctx)
  ctx.equal([snap(x) for x in got], exp, "iteration-mismatch", "iterating differs from random access")
  # concurrent readers of one dataset object
  if rng.random() < 0.5:
    nt = rng.choice([2, 4, 8])
    bad = []
    sys.setswitchinterval(1e-6)
    barrier = threading.Barrier(nt)
    orders = [rng.sample(order, len(order)) for _ in range(nt)]

    def work(o):
      barrier.wait()
      try:
        for k in o:
          e = ds[k]
          if not core.same(e, want[k]):
            bad.append((k, core.jsonable(e), core.jsonable(want[k])))
      except Exception as ex:  # pylint: disable=broad-except
        bad.append(("exception", f"{type(ex).__name__}: {ex}", core.tb_text(ex)[-800:]))
    ths = [threading.Thread(target=work, args=(o,), daemon=True) for o in orders]
    for t in ths:
      t.start()
    for t in ths:
      t.join()
    sys.setswitchinterval(0.005)
    ctx.count("concurrent_reads", sum(map(len, orders)))
    ctx.check(not bad, "concurrent-read-mismatch", "concurrent readers got another element", bad=bad[:3])
  # reading many positions at once: any list, with repetitions and from several epochs
  if hasattr(ds, "_getitems"):
    for _ in range(3):
      lo = rng.randrange(len(idx))
      some = rng.choice([[rng.choice(idx) for _ in range(rng.randint(1, 25))], sorted(idx)[lo:lo + rng.randint(1, 40)]])
      vals = list(ds._getitems(list(some)))
      ctx.check(len(vals) == len(some), "batched-read-mismatch", f"{len(vals)} elements for {len(some)} indices")
      for k, v in zip(some, vals):
        cmp(snap(v), k, f"among {some}")
      ctx.count("getitems", len(some))
  # batched reads go through the same positions: the batch of any index list equals single reads
  if a["n"] <= 60 and not a["sparse"] and rng.random() < 0.5:
    bs = rng.randint(1, 5)
    from gv import fns
    bd = ds.slice(rng.sample(range(n), min(n, 8))) if rng.random() < 0.5 else ds
    single = [snap(bd[k]) for k in range(len(bd))]
    if all(x is not None for x in single):
      b = bd.batch(bs, drop_remainder=False, batch_fn=fns.ListBatch())
      with core.patched("grain._src.python.dataset.transformations.batch", "_is_batch_map_pushdown_experiment_enabled",
                        rng.choice([lambda: True, lambda: False])):
        flat = [snap(x) for k in range(len(b)) for x in b[k]["items"]]
      ctx.equal(flat, single, "batched-read-mismatch", "reading items in batches differs from single reads")
      ctx.count("batched_reads", len(flat))
