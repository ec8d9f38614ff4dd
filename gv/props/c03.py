"""C03: in-process prefetching and threading are transparent."""
import copy
import sys
import threading

from gv import core, fns, pipes
from gv.core import snap, take

SEEN = set()


def seqform(s):
  """The same pipeline, fully sequential."""
  if s["op"] == "tprefetch":
    return seqform(s["in"][0])
  t = dict(s)
  t["in"] = [seqform(x) for x in s.get("in", [])]
  if s["op"] == "iter":
    t.update(threads=0, buf=0)
  return t


def parform(s, rng, ms, top=True):
  """A random parallel variant: read threads, thread prefetch and delays anywhere."""
  t = dict(s)
  t["in"] = [parform(x, rng, ms, False) for x in s.get("in", [])]
  if s["op"] == "iter":
    t.update(threads=rng.choice([1, 2, 3, 4, 8, 16]), buf=rng.choice([1, 2, 3, 4, 8, 30]))
    if ms and rng.random() < 0.7:
      t["in"] = [{"op": "rdelay", "ms": ms, "in": t["in"]}]
  if s["op"] == "inter":
    t.update(mt=rng.choice([1, 2, 3]), mb=rng.choice([1, 2, 3]), ib=rng.choice([1, 2, 4]))
  if s["op"] in ITER and rng.random() < 0.3:
    if ms and rng.random() < 0.5:
      t = {"op": "rdelay", "ms": ms, "in": [t]}
    t = {"op": "tprefetch", "buf": rng.choice([1, 2, 3, 10]), "in": [t]}
  return t


ITER = {"iter", "ifilter", "imap", "iwrap", "imapidx", "irandmap", "ibatch", "limit", "irepeat", "izip", "imix",
        "iwshuffle", "cache", "rebatch", "ifan", "inter", "ffit", "bfit", "cts"}


def case(ctx, i, rng):
  g = pipes.G(rng, max_n=24, model_only=False, tp=False)
  spec = g.packds(max_n=24) if rng.random() < 0.1 else g.iterds()[0]
  base_spec = seqform(spec)
  ctx.describe(spec=base_spec)
  cap = 80
  it0 = iter(pipes.build(base_spec))
  base, states = [], [it0.get_state()]
  ended = False
  for _ in range(cap):
    try:
      base.append(snap(next(it0)))
    except StopIteration:
      ended = True
      break
    states.append(it0.get_state())
  n = len(base)
  if n > 1:
    ctx.sig(base_spec)
  ctx.sample(base_spec)
  for _ in range(2):
    ms = rng.choice([0, 0, 0.3, 1, 3])
    if n > 40 and ms:
      ms = 0.3
    var = parform(base_spec, rng, ms)
    ctx.describe(spec=base_spec, variant=var)
    sys.setswitchinterval(rng.choice([0.005, 1e-5, 1e-6]))
    fns.TRACE = [] if ms else None
    it = iter(pipes.build(var))
    if rng.random() < 0.4:
      it.start_prefetch()
    got, mid = [], []
    stop = rng.randint(0, n) if rng.random() < 0.3 else n + 1
    with_states = rng.random() < 0.6
    for k in range(min(stop, cap if not ended else n + 1)):
      if with_states:
        mid.append((k, it.get_state()))
      try:
        got.append(snap(next(it)))
      except StopIteration:
        break
      ctx.beat()
    want = base[:stop]
    ctx.equal(got, want, "parallel-mismatch", "reading ahead changed the elements")
    if ended and stop == n + 1:
      for _ in range(2):
        _, e = take(it, 1)
        ctx.check(e, "parallel-no-end", "more elements after the end with prefetching")
    ctx.count("variants")
    if fns.TRACE:
      tr, fns.TRACE = fns.TRACE, None
      h = core.digest([d for _, d in tr])
      SEEN.add((core.digest(base_spec), h))
      ctx.count("delayed_runs")
      ctx.count("delayed_runs_multi_thread", int(len({t for t, _ in tr}) > 1))
      ctx.counts["distinct_completion_orders"] = len(SEEN)
    ctx.count("parallel_elements", len(got))
    # states are interchangeable between the sequential and the parallel form
    if mid and n:
      k, st = rng.choice(mid)
      it2 = iter(pipes.build(base_spec if rng.random() < 0.6 else var))
      it2.set_state(st)
      g2, _ = take(it2, 6, ctx)
      ctx.equal([snap(x) for x in g2][:len(base[k:k + 6])], base[k:k + 6], "parallel-state",
                f"the state at {k} of the prefetching iterator resumes elsewhere", state=st)
      k = rng.randrange(len(states))
      (it if rng.random() < 0.5 else iter(pipes.build(var)))
      it3 = it if rng.random() < 0.5 else iter(pipes.build(var))
      if rng.random() < 0.5:
        it3.start_prefetch()
      it3.set_state(copy.deepcopy(states[k]))
      g3, _ = take(it3, 6, ctx)
      ctx.equal([snap(x) for x in g3][:len(base[k:k + 6])], base[k:k + 6], "sequential-state",
                f"the sequential state at {k} set on the prefetching iterator resumes elsewhere", state=states[k])
      ctx.count("state_crossings", 2)
    if rng.random() < 0.3:
      it.close()
  sys.setswitchinterval(0.005)
