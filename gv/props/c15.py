"""C15: closing or dropping iterators releases threads, processes and memory."""
import gc
import json
import multiprocessing as mp
import os
import subprocess
import sys
import textwrap
import threading
import time

import grain
from grain import experimental as gexp
import numpy as np

from gv import core, fns, loaders, pipes
from gv.core import snap, take

BOUND = 40.0          # seconds within which everything must be gone


class Tagged(grain.transforms.Map):
  """Identity; names the shared memory segments of the process it is unpickled in."""

  def __init__(self, prefix, kb=0, ms=0):
    self.prefix, self.kb, self.ms = prefix, kb, ms

  def __setstate__(self, d):
    self.__dict__.update(d)
    set_prefix(self.prefix)

  def map(self, e):
    if self.ms:
      time.sleep(self.ms / 1000.0)
    return {"e": e, "a": np.full((self.kb * 128 + 3,), fns.dig(e), np.int64), "b": b"x" * (self.kb * 50)}


def set_prefix(p):
  from multiprocessing import shared_memory
  shared_memory._SHM_NAME_PREFIX = p


def prefix():
  n, s = os.getpid(), ""
  while n:
    n, r = divmod(n, 36)
    s = "0123456789abcdefghijklmnopqrstuvwxyz"[r] + s
  return "/gv" + s


def segments():
  p = prefix()[1:]
  return sorted(f for f in os.listdir("/dev/shm") if f.startswith(p))


def workers():
  mp.active_children()     # reaps
  me, out = os.getpid(), []
  for p in os.listdir("/proc"):
    if not p.isdigit():
      continue
    try:
      with open(f"/proc/{p}/stat") as f:
        rest = f.read().rsplit(")", 1)[1].split()
      if int(rest[1]) != me or rest[0] == "Z":
        continue
      with open(f"/proc/{p}/cmdline") as f:
        if "spawn_main" in f.read():
          out.append(int(p))
    except (OSError, IndexError, ValueError):
      continue
  return out


def threads(base):
  return [t.name for t in threading.enumerate() if t.ident not in base and t.is_alive()]


def fds():
  return len(os.listdir("/proc/self/fd"))


def wait(ctx, f, key, what, t=BOUND):
  """Waits until f() is empty."""
  t0 = time.monotonic()
  while True:
    left = f()
    if not left:
      return
    if time.monotonic() - t0 > t:
      ctx.fail(key, f"{what} after {t:.0f} s: {left}")
    ctx.beat()
    time.sleep(0.01 if time.monotonic() - t0 < 0.5 else 0.2)
    if time.monotonic() - t0 > 0.5:
      left = None
      gc.collect()     # errors and frames that refer to each other


def setup(ctx):
  set_prefix(prefix())
  # one-time helpers (resource tracker, deletion pool) belong to the process
  ds = grain.MapDataset.range(3).map(Tagged(prefix())).to_iter_dataset()
  it = iter(ds.mp_prefetch(grain.MultiprocessingOptions(num_workers=1)))
  take(it, 2)
  it.close()
  del it
  gc.collect()
  ctx.fd_base = None


def baseline():
  gc.collect()
  return {t.ident for t in threading.enumerate()}


def gen(rng, boom=None):
  """An iterator pipeline with background threads."""
  g = pipes.G(rng, max_n=20, model_only=False, deep=3)
  n = rng.randint(1, 20)
  s, a = g.mapds(depth=rng.randint(0, 2), n=n)
  s, a = g.to_iter(s, a)
  for _ in range(rng.randint(0, 4)):
    s, a = g._step(g.iter_op, s, a, ["ifilter", "imap", "iwrap", "ibatch", "limit", "irepeat", "izip", "imix", "cache",
                                     "ifan", "inter", "inter", "tprefetch", "tprefetch", "iwshuffle"])
  return s


ACTS = ["close", "close2", "drop", "drop", "exhaust", "start-close", "start-drop", "set-close", "set-drop", "close-held"]


def use(ctx, rng, it, act, n):
  """Uses the iterator; returns elements still held."""
  held = []
  if act.startswith("start"):
    it.start_prefetch()
    time.sleep(rng.choice([0, 0.002, 0.02]))
    return held
  k = rng.randint(0, n)
  if act == "exhaust":
    k = 10**6
  saved = json.loads(json.dumps(it.get_state()))
  for _ in range(k):
    try:
      e = next(it)
    except StopIteration:
      break
    except Exception as e:  # pylint: disable=broad-except
      if not isinstance(e, fns.UserBoom):
        raise
      break
    if len(held) < 3:
      held.append((e, snap(e)))
    e = None
    ctx.beat()
  if act.startswith("set"):
    it.set_state(saved)
    if rng.random() < 0.5:
      it.set_state(saved)
  if act != "close-held":
    held = []
  return held


def check_closed(ctx, it, background):
  """A closed iterator with background workers raises; others may only hand out what they hold."""
  for _ in range(3):
    try:
      next(it)
    except (ValueError, StopIteration):
      ctx.count("next_after_close")
      return
    ctx.check(not background, "next-after-close", "a closed iterator still gives elements")


def case(ctx, i, rng):
  spec = gen(rng)
  act = rng.choice(ACTS)
  slow = rng.random() < 0.3
  ctx.describe(spec=spec, act=act, slow=slow)
  base = baseline()
  ds = pipes.build(spec)
  if slow:
    ds = gexp.ThreadPrefetchIterDataset(ds.map(fns.DelayRandom(rng.choice([2, 20]))), prefetch_buffer_size=rng.choice([1, 3]))
  it = iter(ds)
  held = use(ctx, rng, it, act, 12)
  if threads(base):
    ctx.count("cases_with_threads")
    ctx.sig([spec, act])
    ctx.sample([spec, act])
  if act.startswith("drop") or act.endswith("-drop"):
    del it
    gc.collect()
    wait(ctx, lambda: threads(base), "threads-leak", f"threads alive after the iterator was dropped ({act})")
  elif act == "exhaust":
    if rng.random() < 0.5:
      it.close()
    del it
    gc.collect()
    wait(ctx, lambda: threads(base), "threads-leak", "threads alive after the exhausted iterator was dropped")
  else:
    it.close()
    if act == "close2" or rng.random() < 0.3:
      it.close()
    wait(ctx, lambda: threads(base), "threads-leak", f"threads alive after close() ({act})")
    check_closed(ctx, it, slow or spec["op"] in ("iter", "inter") or spec["op"] == "tprefetch" and spec["buf"])
    wait(ctx, lambda: threads(base), "threads-leak", "threads started by using a closed iterator")
    it.close()
    for e, c in held:
      ctx.check(core.same(e, c), "held-element", "an element changed after close()")
  ctx.count("releases")
  ctx.count(f"act_{act}")


def mp_case(ctx, rng):
  """Worker processes and their shared memory."""
  n = rng.choice([1, 2, 3])
  buf = rng.choice([1, 2, 8])
  kb = rng.choice([0, 1, 40, 400])
  ms = rng.choice([0, 0, 3, 200])
  act = rng.choice(ACTS + ["error", "error-close", "close-held", "exhaust-hold"])
  wrap = rng.choice([None, None, "irepeat", "tprefetch", "imap", "ibatch", "two"])
  m = rng.choice([3, 12, 40]) if ms < 100 else 6
  bad = rng.randrange(m) if act.startswith("error") else None
  ctx.describe(act=act, workers=n, buffer=buf, kb=kb, ms=ms, wrap=wrap, n=m)
  base = baseline()
  fd0 = fds()
  ds = grain.MapDataset.range(m)
  if bad is not None:
    ds = ds.map(fns.Boom(fns.dig(bad)))
  ds = ds.map(Tagged(prefix(), kb, ms))
  if rng.random() < 0.5:
    ds = ds.batch(2)
  ds = ds.to_iter_dataset(grain.ReadOptions(num_threads=rng.choice([0, 2]), prefetch_buffer_size=rng.choice([1, 10])))
  if rng.random() < 0.3:
    ds = gexp.ThreadPrefetchIterDataset(ds, prefetch_buffer_size=2)
  ds = ds.mp_prefetch(grain.MultiprocessingOptions(num_workers=n, per_worker_buffer_size=buf))
  if wrap == "irepeat":
    ds = gexp.RepeatIterDataset(ds, 2)
  elif wrap == "tprefetch":
    ds = gexp.ThreadPrefetchIterDataset(ds, prefetch_buffer_size=2)
  elif wrap == "imap":
    ds = ds.map(lambda e: e)
  elif wrap == "ibatch":
    ds = ds.batch(2, batch_fn=fns.as_list)
  elif wrap == "two":
    ds = gexp.ZipIterDataset([ds, ds.map(lambda e: e)])
  it = iter(ds)
  held = use(ctx, rng, it, act, m)
  if workers():
    ctx.count("cases_with_workers")
  if segments():
    ctx.count("cases_with_segments")
  ctx.sig([act, n, buf, kb, ms, wrap])
  ctx.sample([act, n, buf, kb, ms, wrap])
  closed = act in ("close", "close2", "start-close", "set-close", "close-held", "error-close")
  t0 = time.monotonic()
  if closed:
    it.close()
    ctx.counts["slowest_close_ms"] = max(ctx.counts.get("slowest_close_ms", 0), int((time.monotonic() - t0) * 1000))
    if act == "close2":
      it.close()
    wait(ctx, workers, "workers-leak", f"worker processes alive after close() ({act})")
    wait(ctx, lambda: [t for t in threads(base) if "grain" in t], "threads-leak", f"threads alive after close() ({act})")
    if rng.random() < 0.5:
      check_closed(ctx, it, wrap in (None, "tprefetch", "imap", "irepeat", "two"))
      wait(ctx, workers, "workers-leak", "worker processes started by using a closed iterator", 5.0)
    it.close()
    for e, c in held:
      ctx.check(core.same(e, c), "held-element", "an element changed after close()")
      ctx.count("held_elements")
  it = None
  e = c = None
  held = None
  gc.collect()
  wait(ctx, workers, "workers-leak", f"worker processes alive after the iterator was dropped ({act})")
  wait(ctx, lambda: threads(base), "threads-leak", f"threads alive after the iterator was dropped ({act})")
  wait(ctx, segments, "segments-leak", f"shared memory segments left ({act})", 20.0)
  ds = None
  gc.collect()
  wait(ctx, lambda: fds() > fd0 and [fd0, fds()], "fds-leak", f"file descriptors left ({act})", 10.0)
  ctx.count("releases")
  ctx.count("mp_releases")
  ctx.count(f"act_{act}")


def mp_loader(ctx, rng):
  """DataLoader iterators."""
  base = baseline()
  n = rng.choice([0, 1, 2])
  act = rng.choice(["close", "drop", "exhaust", "drop"])
  ctx.describe(loader=True, workers=n, act=act)
  src = fns.Src(20, 0, "arr")
  dl = grain.DataLoader(
      data_source=src,
      sampler=grain.samplers.IndexSampler(num_records=20, shard_options=grain.sharding.NoSharding(), shuffle=True,
                                 num_epochs=rng.choice([1, None]) if act != "exhaust" else 1, seed=3),
      operations=[Tagged(prefix(), 40)] + ([grain.transforms.Batch(3)] if rng.random() < 0.5 else []),
      worker_count=n, worker_buffer_size=rng.choice([1, 4]))
  it = iter(dl)
  for _ in range(10**6 if act == "exhaust" else rng.randint(0, 9)):
    try:
      next(it)
    except StopIteration:
      break
    ctx.beat()
  if workers():
    ctx.count("cases_with_workers")
  if act == "close" and hasattr(it, "close"):
    it.close()
    wait(ctx, workers, "workers-leak", "worker processes alive after close() of a loader's iterator")
  del it, dl
  gc.collect()
  wait(ctx, workers, "workers-leak", f"worker processes alive after a loader's iterator was dropped ({act})")
  wait(ctx, lambda: threads(base), "threads-leak", f"threads alive after a loader's iterator was dropped ({act})")
  wait(ctx, segments, "segments-leak", f"shared memory segments left ({act})", 20.0)
  ctx.count("releases")
  ctx.count("loader_releases")


EXIT = """
import sys, threading, time
sys.path[:0] = {path!r}
from gv.props import c15
import grain
from grain import experimental as gexp
c15.set_prefix({prefix!r})
def main():
  ds = grain.MapDataset.range(40).map(c15.Tagged({prefix!r}, 20, {ms})).to_iter_dataset()
  {wrap}
  it = iter(ds)
  keep = [next(it) for _ in range({k})]
  print("READY", flush=True)
  {end}
if __name__ == "__main__":
  main()
"""


def exits(ctx, rng):
  """A program that ends while iterators are alive: it ends, leaving nothing behind."""
  how = rng.choice(["return", "exit", "raise", "global", "thread"])
  wrap = rng.choice(["ds = ds.mp_prefetch(grain.MultiprocessingOptions(num_workers=2, per_worker_buffer_size=3))",
                     "ds = ds.mp_prefetch(grain.MultiprocessingOptions(num_workers=2))",
                     "ds = gexp.ThreadPrefetchIterDataset(ds, prefetch_buffer_size=3)",
                     "ds = gexp.ThreadPrefetchIterDataset(ds.mp_prefetch(grain.MultiprocessingOptions(num_workers=1)), "
                     "prefetch_buffer_size=2)"])
  end = {"return": "return", "exit": "sys.exit(0)", "raise": "raise RuntimeError('stop')",
         "global": "globals().update(it=it, keep=keep)",
         "thread": "globals().update(it=it); t = threading.Thread(target=lambda: [next(it) for _ in range(5)]); t.start()"}[how]
  ms = rng.choice([0, 5, 100])
  tag = prefix() + "x"
  ctx.describe(exit=how, wrap=wrap, ms=ms)
  code = EXIT.format(path=[p for p in sys.path if p], prefix=tag, ms=ms, wrap=wrap, k=rng.randint(1, 5), end=end)
  f = os.path.join(ctx.tmp, "exit_prog.py")
  with open(f, "w") as o:
    o.write(code)
  p = subprocess.Popen([sys.executable, "-B", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       stdin=subprocess.DEVNULL)
  lines, t_ready = [], [None]

  def read():
    for l in p.stdout:
      lines.append(l)
      if "READY" in l:
        t_ready[0] = time.monotonic()

  th = threading.Thread(target=read, daemon=True)
  th.start()
  t0 = time.monotonic()
  while p.poll() is None:
    ctx.beat()
    time.sleep(0.05)
    now = time.monotonic()
    if t_ready[0] and now - t_ready[0] > 60 or now - t0 > 200:
      p.kill()
      if not t_ready[0]:
        raise core.Inconclusive("the program did not start")
      ctx.fail("exit-hang", f"a program ending by {how} did not exit within 60 s", wrap=wrap)
  th.join(10)
  out = "".join(lines)
  if not t_ready[0]:
    raise core.HarnessError(out[-1500:])
  ctx.check(p.returncode == (1 if how == "raise" else 0), "exit-code", f"exit code {p.returncode}", out=out[-1500:])
  ctx.check("Exception ignored" not in out and out.count("Traceback") == (1 if how == "raise" else 0), "exit-noise",
            "errors are printed at interpreter exit", out=out[-2500:], how=how, wrap=wrap)
  wait(ctx, lambda: [x for x in os.listdir("/dev/shm") if x.startswith(tag[1:])], "segments-leak",
       f"shared memory segments left by a program that ended by {how}", 15.0)
  ctx.count("program_exits")


def repeated(ctx, rng):
  """Many iterators of one dataset, closed, dropped or exhausted: nothing accumulates."""
  ds = grain.MapDataset.range(30).map(fns.DelayRandom(1)).to_iter_dataset(
      grain.ReadOptions(num_threads=4, prefetch_buffer_size=8))
  ds = gexp.InterleaveIterDataset([ds, ds, ds], cycle_length=2, iter_buffer_size=2)
  ds = gexp.ThreadPrefetchIterDataset(ds, prefetch_buffer_size=2)
  base = baseline()
  fd0 = fds()
  ctx.describe(repeated=True)
  for j in range(30):
    it = iter(ds)
    take(it, rng.choice([0, 1, 5, 100]))
    if j % 3 == 0:
      it.close()
    elif j % 3 == 1:
      it.set_state(it.get_state())
    del it
    ctx.beat()
  gc.collect()
  wait(ctx, lambda: threads(base), "threads-leak", "threads alive after 30 iterators")
  wait(ctx, lambda: fds() > fd0 and [fd0, fds()], "fds-leak", "file descriptors left", 10.0)
  ctx.count("releases", 30)


DIRECTED = [exits] * 8 + [mp_case] * 56 + [mp_loader] * 8 + [repeated] * 4
