"""C23: interleaving datasets is exact, ordered and resumable."""
import json
import sys

import grain
from grain import experimental as gexp

from gv import core, fns, pipes
from gv.core import snap, take



def gen(rng, g):
  k = rng.choice([0, 1, 1, 2, 3, 4, 5, 8, 12, 15]) if rng.random() < 0.6 else rng.randint(1, 15)
  kids = []
  for _ in range(k):
    n = rng.choice([0, 0, 1, 2, 3, 5, 8, 14])
    t = rng.random()
    if t < 0.35:
      kids.append(g.mapds(depth=rng.choice([0, 0, 1]), n=n, kind="int")[0])      # a MapDataset as a component
    elif t < 0.8:
      kids.append(g.iterds(depth=rng.choice([0, 0, 1]), n=n, mdepth=0, kind="int")[0])
    else:
      kids.append(g.iterds(depth=rng.choice([0, 1, 2]), n=n, mdepth=rng.choice([0, 1]))[0])
  return {"op": "inter", "cycle": rng.choice([1, 1, 2, 3, 4, 5, 8, 16]), "mt": rng.choice([1, 1, 2, 4]),
          "mb": rng.choice([1, 1, 2, 5]), "ib": rng.choice([1, 1, 2, 7]), "in": kids}


class Lazy:
  """A sequence of datasets that are only built when interleaving asks for them."""

  def __init__(self, specs):
    self.specs = specs

  def __len__(self):
    return len(self.specs)

  def __getitem__(self, i):
    return pipes.build(self.specs[i])


def build(spec, rng):
  if spec["op"] == "inter" and rng.random() < 0.4:
    dss = grain.MapDataset.source(spec["in"]).map(pipes.build) if rng.random() < 0.5 else Lazy(spec["in"])
    return gexp.InterleaveIterDataset(dss, cycle_length=spec["cycle"], num_make_iter_threads=spec["mt"],
                                      make_iter_buffer_size=spec["mb"], iter_buffer_size=spec["ib"])
  return pipes.build(spec)


def delayed(s, rng, ms):
  """The same interleaving with slow components."""
  t = dict(s)
  t["in"] = [{"op": "rdelay", "ms": ms, "in": [x]} if rng.random() < 0.5 else x for x in s["in"]]
  return t


def case(ctx, i, rng):
  g = pipes.G(rng, max_n=14, model_only=True, deep=3)
  g.inf = False
  spec = gen(rng, g)
  outer = rng.random()
  wrap = lambda s: s
  if outer < 0.15:
    wrap = lambda s: {"op": "tprefetch", "buf": 3, "in": [s]}
  elif outer < 0.3:
    wrap = lambda s: {"op": "irepeat", "k": 2, "in": [s]}
  elif outer < 0.4:
    c = rng.randint(1, 4)
    wrap = lambda s: {"op": "inter", "cycle": c, "mt": 1, "mb": 1, "ib": 2,
                      "in": [s, {"op": "iter", "in": [{"op": "range", "start": 5 * 10**6, "stop": 5 * 10**6 + 6, "step": 1}]}]}
  spec_w = wrap(spec)
  ctx.describe(spec=spec_w)
  want, ended = pipes.total(spec_w)
  if not ended:
    return
  if want:
    ctx.sig(spec_w)
  ctx.sample(spec_w)
  n = len(want)
  slow = n < 60 and rng.random() < 0.3
  run_spec = wrap(delayed(spec, rng, rng.choice([0.3, 2]))) if slow else spec_w
  if slow:
    ctx.count("slow_components")
  sys.setswitchinterval(rng.choice([0.005, 1e-5]))
  ds = build(run_spec, rng)
  it = iter(ds)
  if rng.random() < 0.2:
    it.start_prefetch()
  states = {}
  got = []
  for k in range(n + 2):
    if rng.random() < 0.35:
      st = it.get_state()
      states[len(got)] = json.loads(json.dumps(st)) if rng.random() < 0.5 else st
    try:
      got.append(snap(next(it)))
    except StopIteration:
      break
    ctx.beat()
  ctx.equal(got, want, "interleave-order", "interleaving differs from the documented cycle")
  ctx.count("datasets_interleaved", len(spec["in"]))
  try:
    next(it)
    ctx.fail("interleave-no-end", "an element after the end")
  except StopIteration:
    pass
  for k in rng.sample(sorted(states), min(3, len(states))):
    it2 = it if rng.random() < 0.5 else iter(build(run_spec, rng))
    if it2 is not it and rng.random() < 0.5:
      take(it2, rng.randint(0, n), ctx)
    it2.set_state(states[k])
    m = rng.choice([3, n + 1, n + 1])
    g2, _ = take(it2, m, ctx)
    ctx.equal([snap(x) for x in g2], want[k:k + m], "interleave-resume", f"the state at {k}/{n} resumes elsewhere",
              state=core.jsonable(states[k]))
    ctx.count("restores")
  it.close()
  sys.setswitchinterval(0.005)


def drawn(ctx, rng):
  """At most cycle-length datasets are drawn from at a time."""
  for _ in range(20):
    k, c = rng.randint(1, 10), rng.randint(1, 5)
    ns = [rng.randint(1, 6) for _ in range(k)]
    dss = [grain.MapDataset.range(100 * j, 100 * j + ns[j]).to_iter_dataset() for j in range(k)]
    ctx.describe(ns=ns, cycle=c)
    out = [int(x) for x in gexp.InterleaveIterDataset(dss, cycle_length=c)]
    started, left, peak = set(), list(ns), 0
    for x in out:
      started.add(x // 100)
      left[x // 100] -= 1
      # unfinished datasets among the started ones
      act = sum(1 for j in started if left[j] > 0)
      peak = max(peak, act)
      ctx.check(act <= c, "too-many-open", f"{act} datasets in progress with cycle_length {c}", out=out)
      ctx.check(started == set(range(len(started))), "open-order", "datasets are not opened in order", out=out)
    ctx.check(sorted(out) == sorted(100 * j + t for j in range(k) for t in range(ns[j])), "exactly-once", "lost or duplicated")
    ctx.count("cycle_windows", len(out))


DIRECTED = [drawn] * 8
