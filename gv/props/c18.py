"""C18: queues and shared arrays lose nothing.

Queues: real threads (and processes) put, get and resize concurrently; every call is logged with its start and end time
and an offline checker decides exactly-once delivery, FIFO order of non-overlapping operations, the capacity in effect,
and whether refusals (Full / Empty) were justified. Sequential histories are compared with an exact model.
Shared arrays: arrays of every dtype and shape travel through segments, pickles and processes; every creation and unlink
of a segment is logged.
"""
import gc
import mmap
import multiprocessing as mp
from multiprocessing import shared_memory
import os
import pickle
import queue
import random
import sys
import threading
import time

import numpy as np
from grain._src.python.ipc import queue as ipcq
from grain._src.python.ipc import shared_memory_array as sma
from grain._src.python.ipc import variable_size_queue as vsq

from gv import core

now = time.perf_counter
LONG = 30.0


# ------------------------------------------------------------------------------------------ sequential histories


def sequential(ctx, rng, kind):
  size = rng.randint(1, 5) if kind == "mp" else rng.randint(0, 5)
  q = vsq.VariableSizeMultiprocessingQueue(size, mp.get_context("spawn")) if kind == "mp" else vsq.VariableSizeQueue(size)
  items, n, hist = [], 0, [size]
  ctx.describe(sequential=kind, history=hist)
  try:
    for _ in range(rng.randint(5, 60)):
      op = rng.choice(["put", "put", "put", "get", "get", "resize", "size", "tput", "tget"])
      hist.append(op)
      if op in ("put", "tput"):
        n += 1
        t = now()
        try:
          if op == "put":
            (q.put_nowait if rng.random() < 0.3 else lambda x: q.put(x, block=False))(n)
          else:
            q.put(n, timeout=0.003)
          ok = True
        except queue.Full:
          ok = False
          ctx.check(ok or op == "put" or now() - t >= 0.0015, "early-timeout", f"Full after {now() - t} s instead of 0.003 s")
        ctx.check(ok == (len(items) < size), "capacity" if ok else "spurious-full",
                  f"put {'succeeded' if ok else 'failed'} with {len(items)} items and max size {size}")
        if ok:
          items.append(n)
        ctx.count("full_raised", 0 if ok else 1)
      elif op in ("get", "tget"):
        if items:
          x = q.get(timeout=LONG) if kind == "mp" or op == "tget" else q.get(block=False)
          ctx.check(x == items[0], "fifo", f"got {x} instead of {items[0]}")
          items.pop(0)
        else:
          try:
            x = q.get(block=False) if op == "get" else q.get(timeout=0.002)
          except queue.Empty:
            ctx.count("empty_raised")
            continue
          ctx.fail("phantom", f"got {x} from an empty queue")
      elif op == "resize":
        size = rng.randint(1, 6) if kind == "mp" else rng.randint(0, 6)
        hist[-1] = ("resize", size)
        q.set_max_size(size)
        ctx.count("resizes")
      else:
        ctx.check(q.qsize() == len(items), "qsize", f"qsize() is {q.qsize()} with {len(items)} items")
        ctx.check(q.full() == (len(items) >= size), "full", f"full() is {q.full()} with {len(items)} of {size} items")
        if kind != "mp":
          ctx.check(q.empty() == (not items), "empty", f"empty() is {q.empty()} with {len(items)} items")
    while items:
      x = q.get(timeout=LONG)
      want = items.pop(0)
      ctx.check(x == want, "fifo", f"got {x} instead of {want} while draining")
  finally:
    if kind == "mp":
      q.close()
      q.cancel_join_thread()
  ctx.sig(["seq", kind, hist])
  ctx.count("sequential")


# ------------------------------------------------------------------------------------------ concurrent histories


class Log:
  def __init__(self):
    self.puts, self.gets, self.resizes, self.fulls, self.empties = [], [], [], [], []
    self.errors = []


def producer(q, p, n, mode, seed, log, pause):
  r = random.Random(seed)
  for k in range(n):
    item = (p, k)
    while True:
      m = mode if mode != "mix" else r.choice(["block", "nonblock", "timed"])
      s = now()
      try:
        if m == "block":
          q.put(item)
        elif m == "nonblock":
          q.put(item, block=False)
        else:
          q.put(item, timeout=r.choice([0.0005, 0.003, LONG]))
        log.puts.append((item, s, now()))
        break
      except queue.Full:
        log.fulls.append((s, now()))
        if m == "nonblock":
          time.sleep(0.0003)
    if pause and r.random() < 0.3:
      time.sleep(r.random() * pause)


def consumer(q, n_left, lock, mode, seed, log, pause):
  r = random.Random(seed)
  while True:
    with lock:
      if n_left[0] == 0:
        return
      n_left[0] -= 1
    while True:
      m = mode if mode != "mix" else r.choice(["block", "nonblock", "timed"])
      s = now()
      try:
        if m == "block":
          item = q.get()
        elif m == "nonblock":
          item = q.get(block=False)
        else:
          item = q.get(timeout=r.choice([0.0005, 0.003, LONG]))
        log.gets.append((item, s, now()))
        break
      except queue.Empty:
        log.empties.append((s, now()))
        if m == "nonblock":
          time.sleep(0.0003)
    if pause and r.random() < 0.3:
      time.sleep(r.random() * pause)


def guard(f, log, *a):
  try:
    f(*a)
  except BaseException as e:  # pylint: disable=broad-except
    log.errors.append(core.tb_text(e)[-600:])


def concurrent(ctx, rng, kind):
  size = rng.randint(1, 4)
  q = vsq.VariableSizeMultiprocessingQueue(size, mp.get_context("spawn")) if kind == "mp" else vsq.VariableSizeQueue(size)
  np_, nc = rng.randint(1, 4), rng.randint(1, 4)
  per = rng.randint(5, 60 if kind != "mp" else 40)
  modes = [rng.choice(["block", "block", "mix", "timed"]) for _ in range(np_ + nc)]
  resizer = rng.random() < 0.8
  pauses = rng.choice([(0, 0), (0.001, 0), (0, 0.001), (0.0005, 0.0005)])
  ctx.describe(concurrent=kind, size=size, producers=np_, consumers=nc, per=per, modes=modes, resizer=resizer)
  log = Log()
  total = per * np_
  left, lock = [total], threading.Lock()
  sw = sys.getswitchinterval()
  sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4, 5e-3]))
  ts = [threading.Thread(target=guard, args=(producer, log, q, p, per, modes[p], rng.random(), log, pauses[0]), daemon=True)
        for p in range(np_)]
  ts += [threading.Thread(target=guard, args=(consumer, log, q, left, lock, modes[np_ + c], rng.random(), log, pauses[1]),
                          daemon=True) for c in range(nc)]
  t0 = now()
  log.resizes.append((size, t0, t0))
  rng.shuffle(ts)
  try:
    for t in ts:
      t.start()
    sizes = [rng.randint(0 if kind != "mp" else 1, 5) for _ in range(rng.randint(1, 25))]
    if resizer:
      for sz in sizes + [rng.randint(1, 4)]:
        if not any(t.is_alive() for t in ts):
          break
        s = now()
        q.set_max_size(sz)
        log.resizes.append((sz, s, now()))
        if rng.random() < 0.7:
          time.sleep(rng.random() * 0.002)
      if not log.resizes[-1][0]:
        s = now()
        q.set_max_size(1)
        log.resizes.append((1, s, now()))
    deadline = now() + LONG
    for t in ts:
      while t.is_alive() and now() < deadline:
        t.join(0.5)
        ctx.beat()
    stuck = sum(t.is_alive() for t in ts)
  finally:
    sys.setswitchinterval(sw)
  if stuck:
    q.set_max_size(10**6 if kind != "mp" else 1000)
    ctx.fail("stuck", f"{stuck} of {len(ts)} threads are still blocked; {len(log.puts)} puts, {len(log.gets)} gets of {total}",
             errors=log.errors[:3])
  ctx.check(not log.errors, "error", f"queue operation failed: {log.errors[:1]}")
  check_log(ctx, log, total, kind)
  left_over = q.qsize()
  ctx.check(left_over == 0, "qsize", f"qsize() of the drained queue is {left_over}")
  final = log.resizes[-1][0]
  for k in range(final):  # the capacity is intact afterwards
    q.put(("end", k), timeout=LONG)
  try:
    q.put(("end", final), block=False)
  except queue.Full:
    pass
  else:
    ctx.fail("capacity-drift", f"the queue takes more than {final} items after the concurrent use")
  for k in range(final):
    x = q.get(timeout=LONG)
    ctx.check(x == ("end", k), "fifo", f"got {x} instead of {('end', k)} after the concurrent use")
  if kind == "mp":
    q.close()
    q.cancel_join_thread()
  ctx.sig([kind, size, np_, nc, per, modes, sizes, [g[0] for g in sorted(log.gets, key=lambda g: g[2])][:20]])
  ctx.sample([kind, size, np_, nc, per, modes, sizes[:5]])
  ctx.count("concurrent")
  ctx.count("resizes", len(log.resizes) - 1)
  ctx.count("full_raised", len(log.fulls))
  ctx.count("empty_raised", len(log.empties))


def check_log(ctx, log, total, kind):
  put_of = {i: (s, e) for i, s, e in log.puts}
  ctx.check(len(put_of) == len(log.puts) == total, "puts", f"{len(log.puts)} puts returned, {total} made")
  got = [g[0] for g in log.gets]
  ctx.check(len(got) == len(set(got)), "duplicate", f"items were got twice: {[x for x in got if got.count(x) > 1][:4]}")
  ctx.check(set(got) == set(put_of), "lost", f"lost {sorted(set(put_of) - set(got))[:5]}, invented "
            f"{sorted(set(got) - set(put_of))[:5]}")
  ctx.count("items", total)
  for i, s, e in log.gets:
    ctx.check(e >= put_of[i][0], "causality", f"{i} was got before it was put")
  # FIFO: a put before b (not overlapping) must not be got after b (not overlapping).
  evs = sorted((put_of[i][1], put_of[i][0], s, e, i) for i, s, e in log.gets)
  order = sorted(log.gets, key=lambda g: put_of[g[0]][1])  # by end of put
  # For every item b: among items whose put ended before put(b) started, the latest get start must not be after get(b) end.
  ends = [put_of[g[0]][1] for g in order]
  latest = []
  m = (-1.0, None)
  for g in order:
    m = max(m, (g[1], g[0]), key=lambda t: t[0])
    latest.append(m)
  import bisect
  for i, s, e in log.gets:
    k = bisect.bisect_left(ends, put_of[i][0])
    if k:
      t, other = latest[k - 1]
      ctx.check(t <= e, "fifo", f"{other} was put before {i} but got only after it")
      ctx.count("ordered_pairs", k)
  del evs
  # Capacity.
  ps = sorted(e for _, _, e in log.puts)
  pstart = sorted(s for _, s, _ in log.puts)
  gs = sorted(s for _, s, _ in log.gets)
  gend = sorted(e for _, _, e in log.gets)

  def sizes(s, e):
    """Maximum sizes that may be in effect at some time between s and e."""
    out = []
    for k, (z, a, _) in enumerate(log.resizes):
      until = log.resizes[k + 1][2] if k + 1 < len(log.resizes) else float("inf")
      if a <= e and until >= s:
        out.append(z)
    return out

  for i, s, e in log.puts:
    surely = bisect.bisect_left(ps, s) - bisect.bisect_right(gs, e)
    ctx.check(surely < max(sizes(s, e)), "capacity",
              f"put of {i} succeeded with at least {surely} items in the queue of max size {max(sizes(s, e))}")
    ctx.count("tight_puts", 1 if surely == max(sizes(s, e)) - 1 else 0)
  for s, e in log.fulls:
    at_most = bisect.bisect_right(pstart, e) - bisect.bisect_left(gend, s)
    ctx.check(at_most >= min(sizes(s, e)), "spurious-full",
              f"put failed with at most {at_most} items in the queue of max size {min(sizes(s, e))}")
  if kind != "mp":
    for s, e in log.empties:
      surely = bisect.bisect_left(ps, s) - bisect.bisect_right(gs, e)
      ctx.check(surely <= 0, "spurious-empty", f"get failed with at least {surely} items in the queue")


def wakeup(ctx, rng):
  """A blocked put is woken by a resize or a get, a blocked get by a put."""
  kind = rng.choice(["thread", "thread", "mp"])
  q = vsq.VariableSizeMultiprocessingQueue(1, mp.get_context("spawn")) if kind == "mp" else vsq.VariableSizeQueue(1)
  n = rng.randint(1, 4)
  how = rng.choice(["resize", "get", "put"])
  ctx.describe(wakeup=how, kind=kind, n=n)
  done = []
  if how == "put":
    ts = [threading.Thread(target=lambda: done.append(q.get()), daemon=True) for _ in range(n)]
  else:
    q.put("x")
    ts = [threading.Thread(target=lambda: done.append(q.put("y")), daemon=True) for _ in range(n)]
  for t in ts:
    t.start()
  time.sleep(rng.choice([0, 0.002, 0.02]))
  if how == "put":
    for k in range(n):
      q.put(k, timeout=LONG)
  elif how == "resize":
    q.set_max_size(1 + n)
  else:
    for k in range(n):
      q.get(timeout=LONG)
  deadline = now() + LONG
  for t in ts:
    t.join(max(0.01, deadline - now()))
  alive = sum(t.is_alive() for t in ts)
  if alive:
    ctx.fail("not-woken", f"{alive} of {n} blocked operations were not woken by {how}")
  if kind == "mp":
    q.close()
    q.cancel_join_thread()
  ctx.count("wakeups", n)


def helpers(ctx, rng):
  """add_element_to_queue / get_element_from_queue under stopping."""
  q = queue.Queue(maxsize=rng.randint(1, 3))
  stop = threading.Event()
  n = rng.randint(1, 30)
  added, got = [], []

  def add():
    for k in range(n):
      if ipcq.add_element_to_queue(k, q, stop.is_set):
        added.append(k)
      else:
        return

  def get():
    while True:
      x = ipcq.get_element_from_queue(q, stop.is_set)
      if x is ipcq.SYSTEM_TERMINATED:
        return
      got.append(x)
      if rng.random() < 0.1:
        time.sleep(0.0005)
  ctx.describe(helpers=n)
  ts = [threading.Thread(target=add, daemon=True), threading.Thread(target=get, daemon=True)]
  for t in ts:
    t.start()
  if rng.random() < 0.5:
    ts[0].join(LONG)
    end = now() + LONG
    while len(got) < n and now() < end:
      time.sleep(0.0005)
  else:
    time.sleep(rng.random() * 0.003)
  stop.set()
  for t in ts:
    t.join(LONG)
    ctx.check(not t.is_alive(), "stop", "a queue helper does not stop")
  rest = []
  while not q.empty():
    rest.append(q.get())
  ctx.equal(got + rest, added, "helper-order", "elements got and left in the queue")
  ctx.check(ipcq.add_element_to_queue(1, q, lambda: True) is False, "stop", "added although stopped")
  ctx.count("helpers")


# ------------------------------------------------------------------------------------------ shared arrays

DTYPES = ["u1", "i2", "i4", "i8", "f2", "f4", "f8", "c8", "c16", "?", "<U5", "S3", "M8[s]", "m8[ns]", ">i4", ">f8"]


def array(rng):
  dt = np.dtype(rng.choice(DTYPES))
  shape = tuple(rng.choice([0, 1, 2, 3, 5, 17]) if rng.random() < 0.9 else 700 for _ in range(rng.randint(0, 3)))
  while np.prod(shape, dtype=int) * dt.itemsize > 300000:
    shape = shape[:-1]
  n = int(np.prod(shape))
  r = np.random.default_rng(rng.getrandbits(32))
  if dt.kind == "U":
    a = np.array([chr(65 + int(x)) * (int(x) % 6) for x in r.integers(0, 26, n)], dtype=dt).reshape(shape)
  elif dt.kind == "S":
    a = np.array([bytes([65 + int(x)]) * (int(x) % 4) for x in r.integers(0, 26, n)], dtype=dt).reshape(shape)
  elif dt.kind == "b":
    a = r.integers(0, 2, n).astype(bool).reshape(shape)
  else:
    a = np.frombuffer(r.bytes(n * dt.itemsize), dtype=dt).reshape(shape).copy()
  if rng.random() < 0.2 and a.ndim > 1:
    a = a.T
  elif rng.random() < 0.15 and a.ndim and a.shape[0] > 1:
    a = a[::2]
  return a


def bits(a):
  """Type, shape and content; the byte order aside, which NumPy itself may change in pickles."""
  a = np.asarray(a)
  a = a.astype(a.dtype.newbyteorder("="))
  return (a.dtype.str, a.shape, np.ascontiguousarray(a).tobytes())


class Ledger:
  """Counts creations and unlinks of shared memory segments in this process."""

  def __enter__(self):
    self.unlinked, self.created, self.failed = {}, set(), []
    self.lock = threading.Lock()
    import _posixshmem
    from multiprocessing import shared_memory
    unlink, init = _posixshmem.shm_unlink, shared_memory.SharedMemory.__init__

    def shm_unlink(name):
      try:
        unlink(name)
      except FileNotFoundError:
        with self.lock:
          self.failed.append(name)
        raise
      with self.lock:
        self.unlinked[name] = self.unlinked.get(name, 0) + 1

    def __init__(s, name=None, create=False, size=0, **kw):
      init(s, name, create, size, **kw)
      if create:
        with self.lock:
          self.created.add(s._name)

    self.undo = (_posixshmem, unlink, shared_memory, init)
    _posixshmem.shm_unlink = shm_unlink
    shared_memory.SharedMemory.__init__ = __init__
    return self

  def __exit__(self, *a):
    m, unlink, s, init = self.undo
    m.shm_unlink = unlink
    s.SharedMemory.__init__ = init


def present(names):
  return [n for n in names if os.path.exists("/dev/shm" + n)]


def wait_gone(names, timeout=10):
  end = now() + timeout
  gc.collect()
  while (left := present(names)) and now() < end:
    time.sleep(0.002)
  return left


def struct(rng, depth=0):
  if depth < 2 and rng.random() < 0.5:
    k = rng.choice(["dict", "list", "tuple"])
    xs = [struct(rng, depth + 1) for _ in range(rng.randint(1, 3))]
    return {f"k{i}": x for i, x in enumerate(xs)} if k == "dict" else (xs if k == "list" else tuple(xs))
  x = rng.random()
  if x < 0.7:
    return array(rng)
  return rng.choice([1, 2.5, "text", b"bytes", np.float32(1.5), None, True, np.array([{"a": 1}, None], dtype=object)])


def check_struct(ctx, got, want, what):
  if isinstance(want, dict):
    ctx.check(type(got) is type(want) and list(got) == list(want), "structure", f"{what}: {type(got)}")
    for k in want:
      check_struct(ctx, got[k], want[k], f"{what}.{k}")
  elif isinstance(want, (list, tuple)):
    ctx.check(type(got) is type(want) and len(got) == len(want), "structure", f"{what}: {type(got)}")
    for i, w in enumerate(want):
      check_struct(ctx, got[i], w, f"{what}[{i}]")
  elif isinstance(want, np.ndarray) and not want.dtype.hasobject:
    ctx.check(isinstance(got, np.ndarray) and bits(got) == bits(want), "content",
              f"{what}: array {want.dtype} {want.shape} arrived as {type(got).__name__} "
              f"{getattr(got, 'dtype', None)} {getattr(got, 'shape', None)} with other content")
    ctx.count("arrays")
  elif isinstance(want, np.ndarray):
    ctx.check(got.tolist() == want.tolist(), "content", what)
  else:
    ctx.check(type(got) is type(want) and got == want, "content", f"{what}: {got!r} instead of {want!r}")


def arrays(ctx, rng):
  """Round trips through segments within the process, with threads and (a)synchronous deletion."""
  asynchronous = rng.random() < 0.4
  ss = [struct(rng) for _ in range(rng.randint(1, 4))]
  ctx.describe(arrays=len(ss), asynchronous=asynchronous)
  with Ledger() as led:
    if asynchronous:
      sma.SharedMemoryArray.enable_async_del(rng.choice([1, 2]), rng.choice([1, 50]))
    try:
      for s in ss:
        how = rng.choice(["trip", "trip", "unlink", "trip2", "owner", "stage"])
        min_size = rng.choice([0, 0, 0, 100])
        if how == "trip":
          m = sma.copy_to_shm(s, min_size=min_size)
          if rng.random() < 0.5:
            m = pickle.loads(pickle.dumps(m))
          got = sma.open_from_shm(m)
          check_struct(ctx, got, s, "round trip")
          views = [x[1:] for x in flat_arrays(got) if x.ndim and len(x) > 1]
          wants = [bits(v) for v in views]
          del m, got
          for v, w in zip(views, wants):  # views keep the memory alive
            ctx.check(bits(v) == w, "view", "the content of a view changed when its base was dropped")
            p = pickle.loads(pickle.dumps(v))
            ctx.check(bits(p) == w, "pickled-view", f"a view of {v.dtype} {v.shape} was pickled as something else")
          views = v = p = None  # noqa: F841
        elif how == "trip2":  # sent on from what was received
          got = sma.open_from_shm(sma.copy_to_shm(s))
          part = [x[::2] if rng.random() < 0.5 and x.ndim else np.asanyarray(x + x) if x.dtype.kind in "iu" else x.T
                  for x in flat_arrays(got)]
          want = [np.array(x) for x in part]
          got2 = sma.open_from_shm(sma.copy_to_shm([np.ascontiguousarray(x) if x.ndim and rng.random() < 0.3 else x for x in part]))
          shared = [id(x) for x in part if isinstance(x, sma.SharedMemoryArray) and x.shm is not None and
                    isinstance(x.base, mmap.mmap)]
          check_struct(ctx, got2, want, "sent on")
          if shared:  # the same block was announced again: it has two owners, one of them must not unlink
            for x in flat_arrays(got2):
              if isinstance(x, sma.SharedMemoryArray) and x.shm is not None:
                if any(x.shm.name == y.shm.name for y in part if isinstance(y, sma.SharedMemoryArray) and y.shm is not None):
                  x._unlink_on_del = False
          part = want = got = got2 = x = y = None  # noqa: F841
        elif how == "unlink":
          m = sma.copy_to_shm(s, min_size=min_size)
          names = ["/" + x.name for x in flat_leaves(m) if isinstance(x, sma.SharedMemoryArrayMetadata)]
          ctx.check(len(present(names)) == len(names), "segment", "an announced segment does not exist")
          sma.unlink_shm(m)
          ctx.check(not present(names), "unlink", "unlink_shm left segments")
          ctx.count("unlinked", len(names))
        elif how == "owner":
          a = np.array(array(rng), order="C")
          x = sma.SharedMemoryArray(a.shape, a.dtype)
          np.copyto(x, a, casting="no")
          y = pickle.loads(pickle.dumps(x))  # by name
          ctx.check(bits(y) == bits(a), "content", "pickled shared array")
          z = sma.SharedMemoryArray.from_metadata(x.metadata)
          ctx.check(bits(z) == bits(a), "content", "array from metadata")
          c = x.copy()
          ctx.check(bits(pickle.loads(pickle.dumps(c))) == bits(a), "content", "pickled copy of a shared array")
          rng.choice([x, y, z]).unlink_on_del()
          order = [0, 1, 2]
          rng.shuffle(order)
          box = [x, y, z]
          x = y = z = None
          if rng.random() < 0.3:
            box.append(box)  # a reference cycle
            box = None
            gc.collect()
          else:
            for o in order:
              box[o] = None
          ctx.check(bits(c) == bits(a), "content", "copy changed after its source was dropped")
          box = c = None
        else:  # many arrays dropped by several threads
          def work(seed):
            r = np.random.default_rng(seed)
            for _ in range(5):
              a = r.integers(0, 255, (int(r.integers(1, 2000)),), dtype=np.uint8)
              g = sma.open_from_shm(sma.copy_to_shm({"a": a}))
              if bits(g["a"]) != bits(a):
                errs.append("content differs")
              g = None
          errs = []
          ts = [threading.Thread(target=work, args=(rng.getrandbits(20),)) for _ in range(4)]
          for t in ts:
            t.start()
          for t in ts:
            t.join()
          ctx.check(not errs, "content", f"{errs[:1]}")
        ctx.beat()
      left = wait_gone(led.created)
      ctx.check(not left, "leak", f"{len(left)} of {len(led.created)} segments were not freed: {left[:3]}")
      ctx.check(not led.failed, "double-free", f"segments were unlinked twice: {led.failed[:3]}")
      end = now() + 5
      while set(led.unlinked) != led.created and now() < end:  # a deleting thread has yet to log the unlink
        time.sleep(0.001)
      more = [n for n, k in led.unlinked.items() if k > 1]
      ctx.check(not more and set(led.unlinked) == led.created, "unlinks",
                f"segments unlinked {more[:3]}; {len(led.unlinked)} unlinked, {len(led.created)} created")
      ctx.count("segments", len(led.created))
    finally:
      if asynchronous:
        finish = getattr(sma.SharedMemoryArray, "_finish_async_del", None)
        if finish:
          finish()
        sma.SharedMemoryArray._disable_async_del()
  ctx.sig(["arrays", asynchronous, [str(bits(x)[:2]) for s in ss for x in flat_arrays(s)]])


def flat_leaves(s):
  if isinstance(s, dict):
    return [x for v in s.values() for x in flat_leaves(v)]
  if isinstance(s, (list, tuple)):
    return [x for v in s for x in flat_leaves(v)]
  return [s]


def flat_arrays(s):
  return [x for x in flat_leaves(s) if isinstance(x, np.ndarray) and not x.dtype.hasobject]


# ------------------------------------------------------------------------------------------ processes


def echo(inq, outq, seed, prefix):
  """Child: opens the arrays it is sent and sends equal ones back."""
  shared_memory._SHM_NAME_PREFIX = prefix
  r = random.Random(seed)
  while True:
    m = inq.get()
    if m is None:
      return
    s = sma.open_from_shm(m)
    digests = [bits(x) for x in flat_arrays(s)]
    back = sma.copy_to_shm(s if r.random() < 0.5 else copy_struct(s))
    if any(a is b for a, b in zip(flat_arrays(s), flat_arrays(s))):
      for x in flat_arrays(s):  # announced again: the receiver unlinks
        if isinstance(x, sma.SharedMemoryArray) and any(
            isinstance(y, sma.SharedMemoryArrayMetadata) and x.shm is not None and y.name == x.shm.name
            for y in flat_leaves(back)):
          x._unlink_on_del = False
    outq.put((digests, back))
    del s, back, m
    if r.random() < 0.3:
      inq.set_max_size(r.randint(1, 5))


def copy_struct(s):
  if isinstance(s, dict):
    return {k: copy_struct(v) for k, v in s.items()}
  if isinstance(s, (list, tuple)):
    return type(s)(copy_struct(v) for v in s)
  return np.array(s) if isinstance(s, np.ndarray) else s


def processes(ctx, rng):
  c = mp.get_context("spawn")
  inq = vsq.VariableSizeMultiprocessingQueue(rng.randint(1, 3), c)
  outq = vsq.VariableSizeMultiprocessingQueue(rng.randint(1, 3), c)
  ctx.describe(processes=True)
  w = rng.choice([1, 1, 2])
  prefix = f"/g{os.getpid() % 4096:03x}{rng.getrandbits(12):03x}_"
  ps = [c.Process(target=echo, args=(inq, outq, rng.random(), prefix), daemon=True) for _ in range(w)]
  for p in ps:
    p.start()
  ctx.beat()
  n = 25
  ss = [{"id": np.array([i])} | {"s": struct(rng)} for i in range(n)]
  old = shared_memory._SHM_NAME_PREFIX
  err = []
  shared_memory._SHM_NAME_PREFIX = prefix

  def feed():
    try:
      for s in ss:
        inq.put(sma.copy_to_shm(s), timeout=120)
      for _ in ps:
        inq.put(None, timeout=120)
    except BaseException as e:  # pylint: disable=broad-except
      err.append(repr(e))

  t = threading.Thread(target=feed, daemon=True)
  t.start()
  ids = []
  for _ in range(n):
    d, back = outq.get(timeout=120)
    got = sma.open_from_shm(back)
    i = int(got["id"][0])
    ids.append(i)
    check_struct(ctx, got, ss[i], f"structure {i}")
    ctx.check(d == [bits(x) for x in flat_arrays(ss[i])], "content", f"the child saw other arrays in structure {i}")
    del got, back
    if rng.random() < 0.3:
      outq.set_max_size(rng.randint(1, 5))
    ctx.beat()
  ctx.check(sorted(ids) == list(range(n)), "exactly-once", f"structures {ids}")
  ctx.check(w > 1 or ids == list(range(n)), "fifo", f"structures arrived in order {ids}")
  t.join(60)
  ctx.check(not err, "error", f"{err}")
  for p in ps:
    p.join(60)
    ctx.check(p.exitcode == 0, "child", f"child ended with {p.exitcode}")
  shared_memory._SHM_NAME_PREFIX = old
  gc.collect()
  names = ["/" + x for x in os.listdir("/dev/shm") if ("/" + x).startswith(prefix)]
  left = wait_gone(names)
  ctx.check(not left, "leak", f"{len(left)} segments were not freed")
  for q in (inq, outq):
    q.close()
    q.cancel_join_thread()
  ctx.count("process_cases")


def case(ctx, i, rng):
  x = rng.random()
  if x < 0.25:
    return concurrent(ctx, rng, "thread")
  if x < 0.40:
    return concurrent(ctx, rng, "mp")
  if x < 0.55:
    return sequential(ctx, rng, "thread")
  if x < 0.65:
    return sequential(ctx, rng, "mp")
  if x < 0.70:
    return wakeup(ctx, rng)
  if x < 0.74:
    return helpers(ctx, rng)
  return arrays(ctx, rng)


DIRECTED = [processes] * 8
