"""C07: shuffles are seeded permutations; the native code is memory-safe and defined."""
import os
import selectors
import subprocess
import threading
import time

from gv import native

MOD = native.inject()

import grain  # noqa: E402  pylint: disable=wrong-import-position
from grain import experimental as gexp  # noqa: E402
from grain._src.python.experimental.index_shuffle.python import index_shuffle_module  # noqa: E402

from gv import core, fns  # noqa: E402
from gv.core import take  # noqa: E402

SEEDS = [0, 1, 2**31 - 1, 2**31, 2**32 - 1]


class Driver:
  """A sanitized native driver; its death or a hang is a violation."""

  def __init__(self, which):
    self.path = os.path.join(os.environ["GV_ROOT"], "native", which)
    self.err = os.path.join(os.environ.get("TMPDIR", "/tmp"), which + ".err")
    self.start()

  def start(self):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:abort_on_error=0", TSAN_OPTIONS="halt_on_error=1",
               UBSAN_OPTIONS="print_stacktrace=1")
    self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(self.err, "w"),
                              env=env, bufsize=0)
    self.sel = selectors.DefaultSelector()
    self.sel.register(self.p.stdout, selectors.EVENT_READ)

  def ask(self, ctx, line, timeout=60):
    try:
      self.p.stdin.write((line + "\n").encode())
    except BrokenPipeError:
      pass
    buf, t0, cpu = b"", time.monotonic(), None
    while not buf.endswith(b"\n"):
      if self.sel.select(1.0):
        d = os.read(self.p.stdout.fileno(), 65536)
        if not d:
          self.p.wait()
          txt = open(self.err).read()[-3000:]
          self.start()
          ctx.fail("native-sanitizer", f"the native shuffle died on '{line[:200]}': {txt[:1500]}", command=line[:400])
        buf += d
      else:
        ctx.beat()
        if time.monotonic() - t0 > timeout:
          # CPU time, so that a loaded machine does not count as a hang
          used = sum(int(x) for x in open(f"/proc/{self.p.pid}/stat").read().rsplit(")", 1)[1].split()[11:13]) / 100
          if used > timeout * 0.7:
            self.p.kill()
            self.start()
            ctx.fail("native-hang", f"the native shuffle does not return on '{line[:200]}' ({used} s of CPU)")
    return buf.decode().strip()


DRV = {}


def drv(which):
  if which not in DRV:
    DRV[which] = Driver(which)
  return DRV[which]


def teardown(ctx):
  for d in DRV.values():
    d.p.stdin.close()
    rc = d.p.wait(60)
    txt = open(d.err).read()[-2000:]
    ctx.check(rc == 0 and "ERROR" not in txt, "native-sanitizer", f"sanitizer report at exit: {txt}")


def rounds_of(rng):
  return rng.choice([4, 4, 4, 4, 6, 8, 10, 16, 32, 100, 512, 1022, 1024])


def seed_of(rng):
  return rng.choice(SEEDS + [rng.randrange(2**32)] * 5)


def native_full(ctx, rng):
  """Whole permutations, in the sanitized build and through the extension module."""
  k = rng.randint(0, 17)
  mx = rng.choice([rng.randint(0, 40), (1 << k) - 1, 1 << k, (1 << k) + 1, rng.randint(1, 70000)])
  seed, rounds = seed_of(rng), rounds_of(rng)
  if rounds > 32:
    mx = min(mx, 2000)
  ctx.describe(native="full", max=mx, seed=seed, rounds=rounds)
  r = drv("asan").ask(ctx, f"full {mx} {seed} {rounds}", timeout=120).split()
  ctx.check(r[0] == "ok", "native-bijection", f"not a bijection of [0,{mx}]: {r}")
  ctx.count("native_indices", mx + 1)
  ctx.count("full_permutations")
  ctx.sig(["full", mx, seed, rounds])
  m2 = min(mx, 3000)
  got = [index_shuffle_module.index_shuffle(i, mx, seed, rounds) for i in range(m2 + 1)]
  ctx.check(all(0 <= v <= mx for v in got) and len(set(got)) == len(got), "module-bijection",
            f"the module's values over [0,{m2}] of [0,{mx}] are not distinct values in range")
  i = rng.randint(0, m2)
  ctx.check(index_shuffle_module.index_shuffle(index=i, max_index=mx, seed=seed, rounds=rounds) == got[i],
            "module-determinism", "the same arguments give another value")


def native_big(ctx, rng):
  """Sampled indices of very large permutations: in range, distinct, repeatable, no UB."""
  b = rng.randint(17, 64)
  mx = min(2**64 - 1, max(1, (1 << b) + rng.choice([-2, -1, 0, 1, rng.randint(0, 1 << (b - 1))])))
  seed, rounds = seed_of(rng), rng.choice([4, 4, 6, 8, 30])
  idx = {0, 1, mx, mx - 1, mx // 2}
  while len(idx) < 400 and len(idx) <= mx:
    idx.add(rng.randint(0, mx) if rng.random() < 0.5 else min(mx, rng.randint(0, 1000)))
  idx = sorted(idx)
  ctx.describe(native="big", max=mx, seed=seed, rounds=rounds)
  vals = [int(x) for x in drv("asan").ask(ctx, f"vals {mx} {seed} {rounds} " + " ".join(map(str, idx)), timeout=120).split()]
  ctx.check(len(vals) == len(idx) and max(vals) <= mx, "native-range", f"values beyond max {mx}",
            bad=[(i, v) for i, v in zip(idx, vals) if v > mx][:3])
  ctx.check(len(set(vals)) == len(vals), "native-bijection", f"two indices of [0,{mx}] map to one value")
  ctx.count("native_indices", len(idx))
  ctx.sig(["big", mx, seed, rounds])
  if mx < 2**63:
    for i, v in list(zip(idx, vals))[:60]:
      w = index_shuffle_module.index_shuffle(i, mx, seed, rounds)
      ctx.check(w == v, "module-native", f"the module gives {w} where the native code gives {v} for index {i} of {mx}")
  if b > 24:
    other = [int(x) for x in drv("asan").ask(ctx, f"vals {mx} {(seed + 1) % 2**32} {rounds} " + " ".join(map(str, idx)),
                                             timeout=120).split()]
    ctx.check(other != vals, "seed-ignored", "two seeds give one permutation")


def native_race(ctx, rng):
  """Concurrent callers with different seeds and rounds: no data race, same values."""
  mx, seed = rng.randint(100, 3000), rng.randrange(2**31)
  ctx.describe(native="race", max=mx, seed=seed)
  r = drv("tsan").ask(ctx, f"race {mx} {seed} 4 {rng.choice([2, 4, 6])}", timeout=120)
  ctx.check(r == "ok", "native-race", f"concurrent calls give other values: {r}")
  ctx.count("race_runs")
  # and through the module, which releases the GIL
  want = {s: [index_shuffle_module.index_shuffle(i, mx, s, 4) for i in range(mx + 1)] for s in range(seed, seed + 4)}
  bad = []

  def work(s):
    for i in range(mx + 1):
      if index_shuffle_module.index_shuffle(i, mx, s, 4) != want[s][i]:
        bad.append((s, i))
        return
  ts = [threading.Thread(target=work, args=(s,)) for s in want]
  for t in ts:
    t.start()
  for t in ts:
    t.join()
  ctx.check(not bad, "module-race", "concurrent module calls give other values", bad=bad)


def module_args(ctx, rng):
  """Arguments outside the supported range are refused with an error."""
  ok = dict(index=rng.randint(0, 9), max_index=9, seed=rng.randrange(2**32), rounds=4)
  bad = [dict(ok, rounds=r) for r in (0, 1, 2, 3, 5, 7, 1025, 1026, 2**32, -4, rng.randrange(5, 1000) | 1)]
  bad += [dict(ok, index=x) for x in (-1, 10, 2**63 - 1, -2**63, 2**63)]
  bad += [dict(ok, max_index=x) for x in (-1, -2**63, 2**63, 2**70)]
  bad += [dict(ok, seed=x) for x in (-1, 2**32, 2**64)]
  bad += [dict(ok, index=0.5), dict(ok, max_index=None), dict(ok, rounds="4")]
  for kw in bad:
    ctx.describe(module_args={k: str(v) for k, v in kw.items()})
    try:
      v = index_shuffle_module.index_shuffle(**kw)
    except (ValueError, TypeError):
      ctx.count("refused_arguments")
      continue
    ctx.fail("bad-arguments-accepted", f"index_shuffle accepted {kw} and returned {v}")
  ctx.check(index_shuffle_module.index_shuffle(0, 0, 5, 4) == 0, "module-range", "max_index 0")


class Idx(fns._t.MapWithIndex):
  def map_with_index(self, i, e):
    return (int(i), int(e))


def is_perm(got, lo, hi):
  return len(got) == hi - lo and sorted(got) == list(range(lo, hi))


def dataset_shuffle(ctx, rng):
  n = rng.choice([0, 1, 2, 3, rng.randint(4, 30), rng.randint(30, 400), 256, 257, 255, rng.randint(400, 4000)])
  seed = rng.choice(SEEDS + [rng.randrange(2**32), rng.randrange(100)])
  ctx.describe(dataset="shuffle", n=n, seed=seed)
  parent = grain.MapDataset.source(fns.Src(n, 0, "int")).map_with_index(Idx())
  how = rng.choice(["arg", "seeded", "np"])
  if how == "arg":
    ds = parent.shuffle(seed=seed)
  elif how == "np":
    import numpy as np
    ds = parent.shuffle(seed=np.uint32(seed))
  else:
    ds = parent.seed(seed).shuffle()
  ctx.check(len(ds) == n, "length", f"shuffling changes the length {n} to {len(ds)}")
  if n == 0:
    ctx.check(take(iter(ds), 1)[1], "empty", "an element out of nothing")
    return
  epochs = [0, 1, 2, rng.choice([3, 7, 2**32 - 1 - seed, 2**32 - seed, 10**6])]
  orders = {}
  for e in epochs:
    got = [ds[e * n + i] for i in range(n)]
    ctx.check(is_perm([x[0] for x in got], e * n, (e + 1) * n), "not-a-permutation",
              f"epoch {e} of {n} elements does not visit each element of that epoch once", got=got[:60])
    ctx.check(is_perm([x[1] for x in got], 0, n), "not-a-permutation", f"epoch {e} repeats or loses elements")
    orders[e] = [x[1] for x in got]
    ctx.count("positions", n)
  ctx.count("epochs", len(epochs))
  ctx.sig(["ds", n, seed])
  ctx.sample(dict(n=n, seed=seed, order=orders[0][:10]))
  if n >= 12:
    es = [e for e in dict.fromkeys(epochs) if e < 2**32]      # the seed of an epoch wraps at 32 bits
    for a in es:
      for b in es:
        ctx.check(a == b or orders[a] != orders[b], "epochs-alike", f"epochs {a} and {b} have the same order", n=n, seed=seed)
    if how != "seeded":
      o = parent.shuffle(seed=(seed + rng.choice([1, 2, 17, 1 << 16, 1 << 31])) % 2**32)
      other = [o[i][1] for i in range(n)]
      ctx.check(other != orders[0], "seeds-alike", "two seeds give the same order", n=n, seed=seed)
    ctx.check(orders[0] != list(range(n)), "not-shuffled", "the order is the identity")
  # determined by seed and epoch only: rebuilt, batched, repeated, iterated, prefetched
  want = orders[0] + orders[1]
  again = (grain.MapDataset.source(fns.Src(n, 0, "int")).map_with_index(Idx()).shuffle(seed=seed) if how != "seeded"
           else grain.MapDataset.source(fns.Src(n, 0, "int")).map_with_index(Idx()).seed(seed).shuffle())
  rep = again.repeat(2)
  opt = grain.ReadOptions(num_threads=rng.choice([0, 1, 4]), prefetch_buffer_size=rng.choice([1, 5, 100]))
  if opt.num_threads == 0:
    opt = grain.ReadOptions(num_threads=0, prefetch_buffer_size=0)
  got = [x[1] for x in rep.to_iter_dataset(opt)]
  ctx.equal(got, want, "order-depends-on-reading", "iterating another instance gives another order", seed=seed, n=n)
  bs = rng.randint(1, 7)
  got = [x[1] for b in rep.batch(bs, batch_fn=fns.as_list) for x in b]
  ctx.equal(got, want, "order-depends-on-reading", "batched reads give another order", seed=seed, n=n)
  if how == "seeded" and n >= 12:
    # two shuffles of one pipeline do not get the same order from one pipeline seed
    two = grain.MapDataset.range(n).seed(seed).shuffle().shuffle()
    one = grain.MapDataset.range(n).seed(seed).shuffle()
    ctx.check([two[i] for i in range(n)] != [one[one[i]] for i in range(n)], "shuffles-alike",
              "two shuffles of a pipeline use the same permutation", n=n, seed=seed)


def map_windows(ctx, rng):
  w = rng.randint(1, 40)
  k = rng.randint(1, 6)
  seed = rng.choice(SEEDS + [rng.randrange(2**32)])
  n = w * k + rng.choice([0, rng.randint(0, w - 1)])
  ctx.describe(dataset="window map", n=n, w=w, seed=seed)
  ds = gexp.WindowShuffleMapDataset(grain.MapDataset.source(fns.Src(n, 0, "int")).map_with_index(Idx()), window_size=w, seed=seed)
  ctx.check(len(ds) == n, "length", "window shuffling changes the length")
  wins = []
  for j in list(range(k)) + [rng.randint(k, 50)]:
    got = [ds[j * w + i][0] for i in range(w)]
    ctx.check(is_perm(got, j * w, (j + 1) * w), "window-broken", f"window {j} of size {w} is not permuted within itself", got=got)
    wins.append([x - j * w for x in got])
    ctx.count("windows")
  ctx.sig(["mw", n, w, seed])
  if w >= 12:
    ctx.check(all(wins[a] != wins[b] for a in range(len(wins)) for b in range(a)), "windows-alike",
              "two windows have the same order", w=w, seed=seed)
    o = gexp.WindowShuffleMapDataset(grain.MapDataset.range(n), window_size=w, seed=(seed + 1000003) % 2**32)
    ctx.check([o[i] for i in range(w)] != wins[0], "seeds-alike", "two seeds give one window order")
  bs = rng.randint(1, 5)
  flat = [x[0] for b in ds.batch(bs, batch_fn=fns.as_list) for x in b]
  ctx.equal(flat, [ds[i][0] for i in range(n)], "order-depends-on-reading", "batched reads give another order")


def iter_windows(ctx, rng):
  w = rng.randint(1, 30)
  n = rng.choice([0, 1, w, 2 * w, rng.randint(0, 5 * w)])
  seed = rng.choice(SEEDS + [rng.randrange(2**32)])
  ctx.describe(dataset="window iter", n=n, w=w, seed=seed)
  ds = gexp.WindowShuffleIterDataset(grain.MapDataset.range(n).to_iter_dataset(), window_size=w, seed=seed)
  got = list(ds)
  ctx.check(len(got) == n, "window-broken", f"{len(got)} elements of {n}")
  wins = []
  for j in range(0, n, w):
    part = got[j:j + w]
    ctx.check(is_perm(part, j, min(n, j + w)), "window-broken", f"the window at {j} of size {w} is not permuted within itself",
              got=part)
    if len(part) == w:
      wins.append([x - j for x in part])
    ctx.count("windows")
  ctx.sig(["iw", n, w, seed])
  if w >= 12:
    ctx.check(all(wins[a] != wins[b] for a in range(len(wins)) for b in range(a)), "windows-alike",
              "two windows have the same order", w=w, seed=seed)
  ctx.equal(list(ds), got, "order-depends-on-reading", "a second pass gives another order")


def bad_seeds(ctx, rng):
  for s in (-1, 2**32, 2**40, -2**31):
    ctx.describe(bad_seed=s)
    try:
      ds = grain.MapDataset.range(10).shuffle(seed=s)
    except (ValueError, TypeError, OverflowError):
      ctx.count("refused_arguments")
      continue
    ctx.fail("bad-seed-accepted", f"shuffle(seed={s}) is accepted: {list(ds)}")
  try:
    grain.MapDataset.range(10).shuffle()
    ctx.fail("bad-seed-accepted", "shuffle() without any seed is accepted")
  except ValueError:
    ctx.count("refused_arguments")


KINDS = [native_full] * 3 + [native_big] * 3 + [native_race] + [dataset_shuffle] * 8 + [map_windows] * 4 + [iter_windows] * 4


def case(ctx, i, rng):
  rng.choice(KINDS)(ctx, rng)


DIRECTED = [module_args, bad_seeds] + [native_race] * 8 + [native_big] * 16 + [native_full] * 8
