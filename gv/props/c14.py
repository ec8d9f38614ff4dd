"""C14: failures surface promptly at the consumer and never turn into hangs."""
import copy
import json
import os
import signal
import time

import grain
from grain import experimental as gexp

from gv import core, fns, loaders, pipes
from gv.core import snap, take
from gv.props import c04

IT_OPS = ["ifilter", "imap", "iwrap", "imapidx", "ibatch", "ibatch", "limit", "irepeat", "izip", "imix", "cache", "ifan",
          "inter", "tprefetch", "rebatch"]
SOFT = ["UserBoom", "ValueError", "KeyError", "RuntimeError", "IndexError", "TypeError", "OSError", "AssertionError",
        "ZeroDivisionError", "AttributeError"]
ODD = ["TwoArg", "Locky", "Local", "Cause"]


def nodes(s, path=()):
  yield path
  for j, x in enumerate(s.get("in", [])):
    yield from nodes(x, path + (j,))


def at(s, path):
  for j in path:
    s = s["in"][j]
  return s


def put(s, path, f):
  if not path:
    return f(s)
  t = dict(s)
  t["in"] = list(s["in"])
  t["in"][path[0]] = put(s["in"][path[0]], path[1:], f)
  return t


def elems(s, cap=60):
  m = pipes.model(s)
  if isinstance(m, pipes.RM):
    return [m.get(i) for i in range(min(m.n, cap))]
  return take(m.gen(), cap)[0]


def resume(it, state, cap, ctx=None):
  """Restoring may already read, and so fail."""
  try:
    it.set_state(state)
  except BaseException as e:  # pylint: disable=broad-except
    return [], e, False
  return drain(it, cap, ctx)


def drain(it, cap, ctx=None):
  """(elements, error or None, ended)."""
  out = []
  for _ in range(cap):
    try:
      out.append(snap(next(it)))
    except StopIteration:
      return out, None, True
    except BaseException as e:  # pylint: disable=broad-except
      return out, e, False
    if ctx:
      ctx.beat()
  return out, None, False


def gen(rng, mp=False):
  """(spec with a failing stage, exception name)."""
  for _ in range(60):
    g = pipes.G(rng, max_n=20, model_only=True, deep=4)
    s, a = g.mapds(depth=rng.randint(0, 3), n=rng.randint(1, 20))
    s, a = g.to_iter(s, a)
    for _ in range(rng.randint(0, 4)):
      s, a = g._step(g.iter_op, s, a, IT_OPS)
    ops = pipes.ops_of(s)
    if "iwshuffle" in ops or a.get("inf"):
      continue
    ps = list(nodes(s))
    p = rng.choice(ps)
    es = [e for e in elems(at(s, p)) if e is not None]
    if not es:
      continue
    e = es[rng.choice([0, -1, rng.randrange(len(es)), rng.randrange(len(es))])]
    exc = rng.choice(SOFT) if rng.random() < 0.7 else rng.choice(ODD + ["SystemExit"])
    return put(s, p, lambda x: {"op": "boom", "bad": fns.dig(e), "exc": exc, "in": [x]}), exc
  return None, None


def right_error(ctx, err, exc, bad, hard_ok=False, **kw):
  msg = fns.boom_text(bad)
  ok = type(err).__name__ == exc or msg in str(err) or (hard_ok and isinstance(err, RuntimeError))
  ctx.check(ok, "error-lost", f"the consumer sees {type(err).__name__}({str(err)[:150]!r}) instead of {exc}({msg!r})", **kw)
  if exc in SOFT:
    ctx.check(type(err) is fns.EXC[exc] and msg in str(err), "error-changed",
              f"the consumer sees {type(err).__name__}({str(err)[:150]!r}) instead of {exc}({msg!r})", **kw)


def find_bad(s):
  if s["op"] == "boom":
    return s
  for x in s.get("in", []):
    b = find_bad(x)
    if b:
      return b


def case(ctx, i, rng):
  if i % 5 == 4:
    return loader_case(ctx, rng, 0)
  if rng.random() < 0.1:
    return transient(ctx, rng)
  spec, exc = gen(rng)
  if spec is None:
    return
  boom = find_bad(spec)
  ctx.describe(spec=spec, exc=exc)
  want, werr, _ = drain(pipes.model(spec).gen(), 400)
  if werr is None and "izip" in pipes.ops_of(spec):
    return     # a partial batch reads past the end of the shorter input
  ds = pipes.build(spec)
  it = iter(ds)
  states, got, err, ended = {}, [], None, False
  for _ in range(len(want) + 3):
    if rng.random() < 0.4:
      st = it.get_state()
      states[len(got)] = json.loads(json.dumps(st)) if rng.random() < 0.5 else st
    try:
      got.append(snap(next(it)))
    except StopIteration:
      ended = True
      break
    except BaseException as e:  # pylint: disable=broad-except
      err = e
      break
    ctx.beat()
  ctx.equal(got, want, "before-failure", "wrong elements before the failure", err=repr(err), ended=ended)
  ctx.check((err is None) == (werr is None), "silent-failure" if err is None else "spurious-failure",
            f"pipeline ended with {err!r} instead of {werr!r}", ended=ended)
  if werr is not None:
    right_error(ctx, err, exc, boom["bad"])
    ctx.count("failures")
    ctx.sig(spec)
    ctx.sample(spec)
  m = len(want)
  del err
  for p in rng.sample(sorted(states), min(len(states), 3)):
    it2 = it if rng.random() < 0.6 else iter(ds)
    g2, e2, _ = resume(it2, copy.deepcopy(states[p]), m + 3, ctx)
    ctx.equal(g2, want[p:], "resume-before-failure", f"the state at {p}/{m} resumes elsewhere after the failure")
    ctx.check((e2 is None) == (werr is None), "failure-after-resume", f"resumed pipeline ended with {e2!r}, not {werr!r}")
    if e2 is not None:
      right_error(ctx, e2, exc, boom["bad"])
    ctx.count("restores")
  # using the iterator after a failure must not hang
  for _ in range(3):
    try:
      next(it)
    except BaseException:  # pylint: disable=broad-except
      pass
  it.close()


class Flaky:
  """Fails the first k calls for a given element."""

  def __init__(self, bad, times):
    self.bad, self.left = bad, times

  def __call__(self, e):
    if e == self.bad and self.left:
      self.left -= 1
      raise fns.UserBoom(fns.boom_text(e))
    return e


def transient(ctx, rng):
  """After a failed read the iterator and its states stay consistent."""
  n = rng.randint(1, 15)
  bad = rng.randrange(n)
  t, b = rng.choice([(0, 0), (1, 1), (2, 3), (4, 16), (1, 500)])
  times = rng.choice([1, 1, 2])
  k = rng.choice([0, 0, 1, 2, 3])
  ctx.describe(transient=n, bad=bad, threads=t, buffer=b, times=times, fan=k)
  if k:
    return transient_fan(ctx, n, bad, t, b, times, k)
  ds = grain.MapDataset.range(n).map(Flaky(bad, times)).to_iter_dataset(
      grain.ReadOptions(num_threads=t, prefetch_buffer_size=b))
  clean = grain.MapDataset.range(n).to_iter_dataset()
  it = iter(ds)
  got, fails, stopped = [], 0, False
  while not stopped and len(got) < 2 * n and fails < 10:
    try:
      got.append(int(next(it)))
    except StopIteration:
      stopped = True
    except fns.UserBoom:
      fails += 1
      ctx.count("failures")
    st = it.get_state()
    ref = iter(clean)
    ref.set_state(json.loads(json.dumps(st)))
    rest = [int(x) for x in ref]
    done = got + rest
    ctx.check(done == list(range(n)) or (fails and done == [x for x in range(n) if x != bad]), "state-after-failure",
              "the state after a failed read continues elsewhere", produced=got, continues=rest, failures=fails)
    ctx.count("restores")
  ctx.check(stopped, "no-end-after-failure", "no end of data after a transient failure", got=got)
  ctx.check(got in (list(range(n)), [x for x in range(n) if x != bad]), "data-after-failure",
            "wrong data after a transient failure", got=got)


def transient_fan(ctx, n, bad, t, b, times, k):
  class Fan(fns._t.FlatMap):
    max_fan_out = 10
    fail = times

    def flat_map(self, e):
      if e == bad and self.fail:
        type(self).fail -= 1
        raise fns.UserBoom(fns.boom_text(e))
      return [10 * int(e) + j for j in range(k)]

  ds = grain.MapDataset.range(n).to_iter_dataset(grain.ReadOptions(num_threads=t, prefetch_buffer_size=b))
  ds = gexp.FlatMapIterDataset(ds, Fan())
  full = [10 * e + j for e in range(n) for j in range(k)]
  skip = [x for x in full if x // 10 != bad]
  it = iter(ds)
  got, fails, states, stopped = [], 0, [], False
  while not stopped and len(got) < 2 * n * k and fails < 10:
    try:
      got.append(int(next(it)))
    except StopIteration:
      stopped = True
    except fns.UserBoom:
      fails += 1
      ctx.count("failures")
    states.append((len(got), json.loads(json.dumps(it.get_state()))))
  ctx.check(got in (full, skip), "data-after-failure", "wrong data after a transient failure", got=got, stopped=stopped)
  Fan.fail = 0
  for p, st in states:
    it2 = iter(ds)
    it2.set_state(st)
    done = got[:p] + [int(x) for x in it2]
    ctx.check(done == full or (fails and done == skip), "state-after-failure",
              "the state after a failed read continues elsewhere", done=done, failures=fails)
    ctx.count("restores")


# ------------------------------------------------------------------ worker processes
def dealt(streams):
  out, pos, live = [], [0] * len(streams), list(range(len(streams)))
  while live:
    for k in list(live):
      es, err = streams[k]
      if pos[k] < len(es):
        out.append(es[pos[k]])
        pos[k] += 1
      elif err is not None:
        return out, err
      else:
        live.remove(k)
  return out, None


def mp_reference(spec, n):
  streams = []
  for k in range(n):
    sp = spec if n == 1 else c04.sliced(spec, k, n, False)
    try:
      es, err, _ = drain(iter(pipes.build(sp)), 300)
    except (ValueError, ZeroDivisionError):
      return None
    streams.append((es, err))
  return dealt(streams)


def mp_soft(ctx, rng):
  """An exception raised in a worker."""
  for _ in range(60):
    spec, exc = gen(rng)
    n = rng.choice([1, 2, 3])
    if spec is None or "tprefetch" in pipes.ops_of(spec) and exc == "SystemExit":
      continue
    ref = mp_reference(spec, n)
    if ref is not None and ref[1] is not None and (ref[0] or rng.random() < 0.3):
      break
  else:
    return
  want, _ = ref
  boom = find_bad(spec)
  buf = rng.choice([1, 2, 5])
  ctx.describe(spec=spec, exc=exc, workers=n, buffer=buf)
  ds = pipes.build(spec).mp_prefetch(grain.MultiprocessingOptions(num_workers=n, per_worker_buffer_size=buf))
  post = rng.choice([None, None, "irepeat", "tprefetch", "imap"])
  if post == "irepeat":
    ds = gexp.RepeatIterDataset(ds, 2)
  elif post == "tprefetch":
    ds = gexp.ThreadPrefetchIterDataset(ds, prefetch_buffer_size=2)
  elif post == "imap":
    ds = ds.map(fns.Wrap("tuple"))
    want = [fns.Wrap("tuple")(x) for x in want]
  it = iter(ds)
  states = {}
  got, err = [], None
  for _ in range(len(want) + 2):
    if rng.random() < 0.4:
      states[len(got)] = json.loads(json.dumps(it.get_state()))
    try:
      got.append(snap(next(it)))
    except StopIteration:
      break
    except BaseException as e:  # pylint: disable=broad-except
      err = e
      break
    ctx.beat()
  ctx.equal(got, want, "before-failure", "wrong elements before the failure", err=repr(err))
  ctx.check(err is not None, "silent-failure", "the failure of a worker looks like the end of data")
  right_error(ctx, err, exc, boom["bad"], hard_ok=exc == "SystemExit")
  ctx.count("failures")
  ctx.count("worker_failures")
  ctx.sig([spec, n])
  for p in rng.sample(sorted(states), min(len(states), 1)):
    it2 = it if rng.random() < 0.7 else iter(ds)
    g2, e2, _ = resume(it2, copy.deepcopy(states[p]), len(want) + 3, ctx)
    ctx.equal(g2, want[p:], "resume-before-failure", f"the state at {p}/{len(want)} resumes elsewhere after the failure")
    ctx.check(e2 is not None, "silent-failure", "the failure of a worker looks like the end of data after a restore")
    ctx.count("restores")
    if it2 is not it:
      it2.close()
  try:
    next(it)
  except BaseException:  # pylint: disable=broad-except
    pass
  it.close()


class Die:
  """Ends the worker process at a given element."""

  def __init__(self, bad, how, ms=0):
    self.bad, self.how, self.ms = bad, how, ms

  def __call__(self, e):
    if self.ms:
      time.sleep(self.ms / 1000.0)
    if e == self.bad:
      if self.how == "exit0":
        os._exit(0)
      if self.how == "exit7":
        os._exit(7)
      os.kill(os.getpid(), signal.SIGKILL)
    return e


class AddBlob:
  """Makes elements large enough not to fit in a pipe."""

  def __init__(self, size):
    self.size = size

  def __call__(self, e):
    return e, b"x" * self.size


def drop_blob(e):
  return e[0]


def mp_death(ctx, rng):
  """A worker process that dies by itself or is killed from outside."""
  n_el = rng.randint(1, 30)
  n = rng.choice([1, 2, 3])
  buf = rng.choice([1, 3])
  how = rng.choice(["exit0", "exit7", "kill", "external", "external", "external-idle"])
  bad = rng.randrange(n_el) if not how.startswith("ext") else -1
  ro = grain.ReadOptions(num_threads=rng.choice([0, 2]), prefetch_buffer_size=rng.choice([1, 4]))
  ctx.describe(death=how, n=n_el, workers=n, buffer=buf, bad=bad)
  ms = rng.choice([0, 5])
  ds = grain.MapDataset.range(n_el).map(Die(bad, how, ms)).map(fns.Wrap("dict")).to_iter_dataset(ro)
  blob = rng.choice([0, 3000, 100000])
  if blob:
    ds = ds.map(AddBlob(blob))
  ds = ds.mp_prefetch(grain.MultiprocessingOptions(num_workers=n, per_worker_buffer_size=buf))
  if blob:
    ds = ds.map(drop_blob)
  want = [fns.Wrap("dict")(x) for x in range(n_el)]
  # the round-robin of the slices of a range is the range itself
  it = iter(ds)
  state0 = json.loads(json.dumps(it.get_state()))
  got, err, ended = [], None, False
  stop_at = rng.randrange(n_el) if how.startswith("ext") else None
  states = {}
  for _ in range(n_el + 2):
    if stop_at is not None and len(got) == stop_at:
      kids = children()
      if kids:
        if how == "external-idle":
          time.sleep(0.3)
        try:
          os.kill(rng.choice(kids), signal.SIGKILL)
        except ProcessLookupError:
          pass
      stop_at = None
    if rng.random() < 0.3:
      states[len(got)] = json.loads(json.dumps(it.get_state()))
    try:
      got.append(snap(next(it)))
    except StopIteration:
      ended = True
      break
    except BaseException as e:  # pylint: disable=broad-except
      err = e
      break
    ctx.beat()
  ctx.equal(got, want[:len(got)], "before-death", "wrong elements before the death of a worker")
  if ended:
    ctx.check(len(got) == n_el and bad < 0, "silent-death", f"the death of a worker looks like the end of data "
              f"({len(got)} of {n_el} elements)", how=how)
  else:
    ctx.check(isinstance(err, Exception) and not isinstance(err, (AssertionError, AttributeError, EOFError)), "death-error",
              f"unclear error after the death of a worker: {err!r}")
    ctx.count("worker_deaths")
  if how.startswith("ext"):
    # nothing is wrong with the data: resuming gives everything
    p = rng.choice(sorted(states)) if states and rng.random() < 0.7 else 0
    it2 = it if rng.random() < 0.6 else iter(ds)
    it2.set_state(states.get(p, state0))
    p = p if p in states else 0
    g2, e2, _ = drain(it2, n_el + 2, ctx)
    ctx.check(e2 is None, "resume-after-death", f"resuming after the death of a worker raises {e2!r}")
    ctx.equal(g2, want[p:], "resume-after-death", f"the state at {p}/{n_el} resumes elsewhere after the death of a worker")
    ctx.count("restores")
    if it2 is not it:
      it2.close()
  it.close()


def children():
  """Worker processes (not the resource tracker) started by this process."""
  import multiprocessing as mp
  return [p.pid for p in mp.active_children() if p.is_alive()]


class Init:
  def __init__(self, how, who):
    self.how, self.who = how, who

  def __call__(self, i, n):
    if i == self.who:
      if self.how == "exit":
        raise SystemExit(5)
      if self.how == "os_exit":
        os._exit(0)
      fns.raise_boom(self.how, 5)


def mp_init(ctx, rng):
  """worker_init_fn fails in one worker."""
  n = rng.choice([1, 2, 3])
  who = rng.randrange(n)
  how = rng.choice(["UserBoom", "ValueError", "Locky", "TwoArg", "Local", "exit", "os_exit"])
  ctx.describe(init=how, workers=n, who=who)
  ds = grain.MapDataset.range(7).to_iter_dataset().mp_prefetch(
      grain.MultiprocessingOptions(num_workers=n), worker_init_fn=Init(how, who))
  it = iter(ds)
  st = json.loads(json.dumps(it.get_state()))
  if rng.random() < 0.4:
    it.set_state(st)
  got, err, _ = drain(it, 10, ctx)
  ctx.check([int(x) for x in got] == list(range(who)), "before-failure", "wrong elements before the failure of worker_init_fn",
            got=got)
  ctx.check(err is not None, "silent-failure", "failing worker_init_fn looks like the end of data")
  right_error(ctx, err, how, 5, hard_ok=how in ("exit", "os_exit"))
  ctx.count("init_failures")
  it.close()


class BadElement:
  def __init__(self, bad, how):
    self.bad, self.how = bad, how

  def __call__(self, e):
    if e != self.bad:
      return e
    if self.how == "lambda":
      return {"x": lambda: 1}
    if self.how == "gen":
      return (x for x in range(3))
    import threading
    return [threading.Lock()]


def mp_element(ctx, rng):
  """An element that cannot be sent between processes is an error, not a lost element."""
  n_el = rng.randint(1, 12)
  n = rng.choice([1, 2])
  bad = rng.randrange(n_el)
  how = rng.choice(["lambda", "gen", "lock"])
  ctx.describe(element=how, n=n_el, bad=bad, workers=n)
  ds = grain.MapDataset.range(n_el).to_iter_dataset().map(BadElement(bad, how)).mp_prefetch(
      grain.MultiprocessingOptions(num_workers=n, per_worker_buffer_size=rng.choice([1, 3])))
  it = iter(ds)
  got, err, ended = drain(it, n_el + 2, ctx)
  ctx.check([int(x) for x in got] == list(range(bad)), "element-lost",
            f"an element that cannot be pickled ({how}) is dropped" if ended else "wrong elements before the failure", got=got)
  ctx.check(err is not None, "silent-failure", "an element that cannot be pickled is dropped")
  ctx.count("unpicklable_elements")
  it.close()


def loader_case(ctx, rng, workers):
  for _ in range(60):
    s = loaders.gen(rng, workers=workers, legacy_ops=rng.random() < 0.5)
    if loaders.infinite(s):
      continue
    p = rng.randint(0, len(s["ops"]))
    w = max(1, workers)
    idx = loaders.local_indices(s, 400)
    before = [stream(s, idx[k::w], s["ops"][:p]) for k in range(w)]
    cand = [e for b in before for _, e in b]
    if cand:
      break
  else:
    return
  bad = fns.dig(rng.choice(cand))
  exc = rng.choice(SOFT + ODD)
  streams = []
  for b in before:
    f = next((j for j, (_, e) in enumerate(b) if fns.dig(e) == bad), None)
    rest = [dict(o, drop=True) if f is not None and "drop" in o else o for o in s["ops"][p:]]
    es = [e for _, e in loaders.run_recs(rest, b[:f] if f is not None else b)]
    streams.append((es, None if f is None else True))
  want, werr = dealt(streams)
  s2 = dict(s, ops=s["ops"][:p] + [{"op": "boom", "bad": bad, "exc": exc}] + s["ops"][p:])
  ctx.describe(loader=s2)
  dl = loaders.build(s2)
  it = iter(dl)
  states = {}
  got, err = [], None
  for _ in range(len(want) + 2):
    if rng.random() < 0.3:
      states[len(got)] = it.get_state()
    try:
      got.append(snap(next(it)))
    except StopIteration:
      break
    except BaseException as e:  # pylint: disable=broad-except
      err = e
      break
    ctx.beat()
  ctx.equal(got, want, "before-failure", "the loader gives wrong elements before the failure", err=repr(err))
  ctx.check((err is None) == (werr is None), "silent-failure" if err is None else "spurious-failure",
            f"the loader ended with {err!r}, a failure was {'not ' if werr is None else ''}due")
  if err is not None:
    right_error(ctx, err, exc, bad)
    ctx.count("failures")
    ctx.count("loader_failures")
    ctx.sig(s2)
  for p in rng.sample(sorted(states), min(len(states), 1)):
    it2 = iter(dl)
    g2, e2, _ = resume(it2, states[p], len(want) + 3, ctx)
    ctx.equal(g2, want[p:], "resume-before-failure", f"the state at {p}/{len(want)} of the loader resumes elsewhere")
    ctx.check((e2 is None) == (werr is None), "failure-after-resume", f"resumed loader ended with {e2!r}")
    ctx.count("restores")


def stream(s, idx, ops):
  smp = loaders.sampler(s)
  src = fns.Src(s["n"], s["base"], s["kind"])
  recs = []
  for i in idx:
    m = smp[i]
    recs.append((m.rng, src[m.record_key]))
  return loaders.run_recs(ops, recs)


def mp_loader(ctx, rng):
  loader_case(ctx, rng, rng.choice([1, 2, 3]))
  ctx.count("worker_loader_cases")


class BadSource:
  """A source whose own methods fail."""

  def __init__(self, n, bad, where):
    self.n, self.bad, self.where = n, bad, where

  def __len__(self):
    if self.where == "len":
      raise fns.UserBoom(fns.boom_text(self.bad))
    return self.n

  def __getitem__(self, i):
    if i == self.bad:
      raise fns.UserBoom(fns.boom_text(self.bad))
    return i


def sources(ctx, rng):
  """Sources and user functions of every kind of transformation."""
  n, bad = 10, rng.randrange(10)
  B = fns.EXC["UserBoom"]

  def boom(e, *a):
    if fns.leaves(e)[0] == bad:
      raise B(fns.boom_text(bad))
    return e

  def boom_idx(i, e):
    return boom(e)

  def boom_batch(es):
    return [boom(e) for e in es]

  class BF(grain.transforms.Filter):
    def filter(self, e):
      boom(e)
      return True

  class BFan(fns._t.FlatMap):
    max_fan_out = 2
    def flat_map(self, e):
      boom(e)
      return [e, e]

  class TooMany(fns._t.FlatMap):
    max_fan_out = 1
    def flat_map(self, e):
      return [e] * (2 if e == bad else 1)

  r = lambda: grain.MapDataset.range(n)
  kinds = {
      "source": (lambda: grain.MapDataset.source(BadSource(n, bad, "get")), 1),
      "map": (lambda: r().map(boom), 1), "filter": (lambda: r().filter(BF()), 1),
      "map_with_index": (lambda: r().map_with_index(boom_idx), 1),
      "random_map": (lambda: r().random_map(boom, seed=1), 1),
      "batch_fn": (lambda: r().batch(3, batch_fn=boom_batch), 3),
      "flat_map": (lambda: gexp.FlatMapMapDataset(r(), BFan()), 0.5),
      "imap": (lambda: r().to_iter_dataset().map(boom), 1),
      "ifilter": (lambda: r().to_iter_dataset().filter(BF()), 1),
      "imap_with_index": (lambda: r().to_iter_dataset().map_with_index(boom_idx), 1),
      "irandom_map": (lambda: r().to_iter_dataset().random_map(boom, seed=1), 1),
      "ibatch_fn": (lambda: r().to_iter_dataset().batch(3, batch_fn=boom_batch), 3),
      "iflat_map": (lambda: gexp.FlatMapIterDataset(r().to_iter_dataset(), BFan()), 0.5),
      "too_many": (lambda: gexp.FlatMapMapDataset(r(), TooMany()), 1),
  }
  name = rng.choice(sorted(kinds))
  mk, per = kinds[name]
  ds = mk()
  workers = rng.choice([0, 0, 0, 1, 2]) if ctx.counts.get("source_kinds", 0) % 6 == 0 else 0
  ctx.describe(kind=name, bad=bad, workers=workers)
  if isinstance(ds, grain.MapDataset):
    # random access fails exactly there
    for i in range(len(ds)):
      try:
        ds[i]
        failed = False
      except Exception:  # pylint: disable=broad-except
        failed = True
      due = int(i * per) <= bad < int(i * per) + max(1, per) if name != "too_many" else i == bad
      ctx.check(failed == due, "random-access-failure", f"{name}[{i}] {'fails' if failed else 'does not fail'}")
    ds = ds.to_iter_dataset(grain.ReadOptions(num_threads=rng.choice([0, 1, 3]), prefetch_buffer_size=rng.choice([1, 5])))
  k = bad // 3 if per == 3 else 2 * bad if per == 0.5 else bad
  if workers:
    ds = ds.mp_prefetch(grain.MultiprocessingOptions(num_workers=workers))
    if workers == 2 and name in ("ibatch_fn", "iflat_map", "flat_map"):
      return
  got, err, ended = drain(iter(ds), 50, ctx)
  ctx.check(len(got) == k and not ended and err is not None, "failure-position", f"{name} failing at {bad} gives {len(got)} elements, "
            f"not {k}, then {err!r}", got=got)
  if name != "too_many":
    ctx.check(type(err).__name__ == "UserBoom" and fns.boom_text(bad) in str(err), "error-changed", f"{name}: {err!r}")
  ctx.count("source_kinds")


def base_exceptions(ctx, rng):
  """SystemExit in a background thread reaches the consumer."""
  for mk in (lambda d: gexp.ThreadPrefetchIterDataset(d, prefetch_buffer_size=2),
             lambda d: gexp.InterleaveIterDataset([d], cycle_length=1),
             lambda d: gexp.multithread_prefetch(d, 2, 2)):
    ds = mk(grain.MapDataset.range(6).to_iter_dataset().map(fns.Boom(fns.dig(2), "SystemExit")))
    ctx.describe(base_exception=True)
    it = iter(ds)
    got, err, ended = drain(it, 8, ctx)
    ctx.check([int(x) for x in got] == [0, 1] and isinstance(err, SystemExit), "error-lost",
              f"SystemExit in a thread gives {got}, {err!r}, ended={ended}")
    ctx.count("failures")
    it.close()


DIRECTED = [base_exceptions] + [mp_soft] * 24 + [mp_death] * 20 + [mp_init] * 8 + [mp_element] * 6 + [mp_loader] * 8 + \
    [sources] * 120
