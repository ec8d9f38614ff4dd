"""C13: data loader checkpoints resume exactly; mismatches are rejected."""
import copy

from gv import core, fns, loaders
from gv.core import snap, take


def case(ctx, i, rng):
  run(ctx, rng, loaders.gen(rng))


def mp_case(ctx, rng):
  s = loaders.gen(rng, workers=rng.choice([1, 2, 3, 4]))
  if not loaders.infinite(s):
    s["n"] = rng.randint(max(1, s["shard"][1]), 30)
  run(ctx, rng, s, mp=True)
  ctx.count("multiprocess_cases")


DIRECTED = [mp_case] * 24

LEGACY = {"lmap", "lrand", "lfilter", "lbatch", "custom"}


def run(ctx, rng, s, mp=False):
  ctx.describe(spec=s)
  inf = loaders.infinite(s)
  cap = 90 if inf else 10**6
  want, _ = loaders.reference(s, cap)
  if inf:
    want = want[:max(0, min(len(want) - 6 * max(1, s["workers"]), 25))]
  n = len(want)
  if inf and not n:
    return             # an endless loader that never produces anything
  if n:
    ctx.sig(s)
  ctx.sample(s)
  generators = any(o["op"] in LEGACY for o in s["ops"] if o["op"] != "lbatch")
  dl = loaders.build(s)
  it = iter(dl)
  pos, states = 0, []
  hist = []
  base = {}
  for _ in range(rng.randint(2, 4) if mp else rng.randint(3, 9)):
    act = rng.choice(["next", "next", "state", "state", "restore", "restore", "json", "end"])
    hist.append(act)
    if act == "next":
      k = rng.randint(1, 4)
      if inf:
        k = min(k, n - pos)
      got, ended = take(it, k, ctx)
      ctx.equal([snap(x) for x in got], want[pos:pos + k], "loader-mismatch", f"wrong elements from {pos}/{n}", history=hist)
      pos += len(got)
    elif act == "end" and not inf:
      got, ended = take(it, n + 2, ctx)
      ctx.equal([snap(x) for x in got], want[pos:], "loader-mismatch", f"wrong elements from {pos}/{n} to the end", history=hist)
      pos = n
      ctx.check(ended, "loader-end", "no end", history=hist)
    elif act in ("state", "json"):
      st = it.get_state()
      ctx.check(isinstance(st, bytes), "state-bytes", "the loader state is not bytes")
      ctx.check(it.get_state() == st, "state-unstable", "two states without a step in between differ", history=hist)
      states.append((st, pos))
      ctx.count("states")
    elif states:
      st, p = rng.choice(states)
      used = rng.random() < 0.35 and not (generators and pos == n)
      if used and mp and rng.random() < 0.5:
        used = False
      hist[-1] = ["restore", p, "used" if used else "new"]
      if not used:
        if hasattr(it, "close"):
          it.close()
        it = iter(dl if rng.random() < 0.5 else loaders.build(s))
      it.set_state(st)
      pos = p
      ctx.check(True, "", "")
      if rng.random() < 0.3:
        st2 = it.get_state()
        states.append((st2, p))
      ctx.count("restores")
    ctx.beat()
  # final: everything that remains
  m = n - pos if inf else n + 1
  got, _ = take(it, m, ctx)
  ctx.equal([snap(x) for x in got], want[pos:], "loader-tail", f"the remaining elements from {pos}/{n} differ", history=hist)
  if states and not any(o["op"] == "fan" for o in s["ops"]):
    mismatches(ctx, rng, s, rng.choice(states))


def mismatches(ctx, rng, s, st_pos):
  st, p = st_pos
  alts = []
  alts.append(("source", dict(s, base=s["base"] + 1)))
  alts.append(("source-kind", dict(s, kind="np" if s["kind"] != "np" else "arr")))
  alts.append(("workers", dict(s, workers=s["workers"] + 1)))
  if s["workers"]:
    alts.append(("workers0", dict(s, workers=0)))
  if s["sampler"] == "index":
    alts.append(("seed", dict(s, seed=(s["seed"] + 1) % 2**32)))
    alts.append(("shuffle", dict(s, shuffle=not s["shuffle"])))
    alts.append(("epochs", dict(s, epochs=(s["epochs"] or 4) + 1)))
  if s["sampler"] == "plain":
    alts.append(("total", dict(s, total=s["total"] + 1)))
  else:
    alts.append(("shard", dict(s, shard=[s["shard"][0], s["shard"][1] + 1, s["shard"][2]], n=max(s["n"], 9), base=s["base"])))
  alts.append(("num_records", dict(s, n=s["n"] + 1)))
  kinds = {"seq": "index", "index": "seq", "plain": "seq"}
  alts.append(("sampler", dict(s, sampler=kinds[s["sampler"]], via_load=False)))
  for name, t in rng.sample(alts, 2):
    it = iter(loaders.build(t))
    try:
      it.set_state(st)
    except ValueError:
      ctx.count("mismatches_refused")
      # and the iterator still works from its own start
      if t["n"] < t["shard"][1]:
        continue
      want, _ = loaders.reference(t, 90) if loaders.infinite(t) else loaders.reference(t, 10**6)
      if t["workers"] == 0 and len(want) > 8:
        got, _ = take(it, 2, ctx)
        ctx.equal([snap(x) for x in got], want[:2], "refused-state-effect", "a refused state changed the iterator")
      continue
    ctx.fail("mismatch-accepted", f"a state of another {name} is accepted", other=core.jsonable(t))
