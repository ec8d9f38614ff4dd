"""C01: checkpoint/restore resumes exactly (in-process iterators)."""
import copy
import json

from gv import core, pipes
from gv.core import snap, take


def gen_spec(rng):
  g = pipes.G(rng, model_only=False, max_n=18)
  if rng.random() < 0.18:
    return g.packds(max_n=16)
  s, _ = g.iterds()
  return s


def full(ctx, spec, cap):
  it = iter(pipes.build(spec))
  states = [it.get_state()]
  elems = []
  ended = False
  for _ in range(cap):
    try:
      elems.append(snap(next(it)))
    except StopIteration:
      ended = True
      break
    states.append(it.get_state())
    ctx.beat()
  if ended:
    states.append(it.get_state())   # state after the end was reported
  return it, elems, states, ended


def restored_tail(ctx, it, state, n):
  it.set_state(state)
  out = []
  for _ in range(n + 2):
    try:
      out.append(snap(next(it)))
    except StopIteration:
      return out, True
    ctx.beat()
  return out, False


def case(ctx, i, rng):
  spec = gen_spec(rng)
  run(ctx, rng, spec)


def run(ctx, rng, spec, cap=120):
  ctx.describe(spec=spec)
  used, elems, states, ended = full(ctx, spec, cap)
  # A plain run without any get_state must agree (states have no side effects).
  plain = []
  it0 = iter(pipes.build(spec))
  for _ in range(len(elems) + 1):
    try:
      plain.append(snap(next(it0)))
    except StopIteration:
      break
  ctx.equal(plain[:len(elems)], elems, "get-state-side-effect", "output differs when states are taken")
  if ended:
    ctx.check(len(plain) == len(elems), "get-state-length", "length differs when states are taken")
  n = len(elems)
  positions = list(range(len(states)))
  if len(positions) > 14:
    keep = set(rng.sample(positions, 9)) | {0, 1, len(positions) - 1, len(positions) - 2, len(positions) - 3}
    positions = sorted(keep)
  for p in positions:
    want = elems[min(p, n):]
    how = rng.choice(["fresh", "used", "mid", "json-fresh", "json-used"])
    st = states[p]
    if how.startswith("json"):
      try:
        st = json.loads(json.dumps(st))
      except TypeError as e:
        raise core.Violation("state-not-json", f"state is not JSON serializable: {e}", pos=p)
    if how.endswith("used"):
      it = used
    else:
      it = iter(pipes.build(spec))
      if how == "mid":
        take(it, rng.randint(0, n + 1))
    got, end = restored_tail(ctx, it, st, len(want))
    data = dict(pos=p, how=how, of=n, state=st)
    # cap: the reference was cut, compare the common prefix only
    if ended:
      ctx.equal(got, want, "resume-mismatch", f"restored at {p}/{n} ({how}) differs", **data)
      ctx.check(end, "resume-no-end", "restored iterator did not end", **data)
    else:
      ctx.equal(got[:len(want)], want, "resume-mismatch", f"restored at {p}/{n} ({how}) differs", **data)
    ctx.count("restores")
  # chain: restore, advance, save, restore elsewhere ...
  it = used
  pos = 0
  st = states[0]
  for _ in range(4):
    it = iter(pipes.build(spec)) if rng.random() < 0.5 else it
    it.set_state(copy.deepcopy(st))
    k = rng.randint(0, 4)
    got, end = take(it, k)
    got = [snap(x) for x in got]
    want = elems[pos:pos + k]
    if len(want) < k and not ended:
      break
    ctx.equal(got, want, "chain-mismatch", "chain of restores differs", pos=pos, k=k)
    pos += len(got)
    st = it.get_state()
    if rng.random() < 0.3 and pos > 0:
      pos = rng.randint(0, min(len(states) - 1, n))
      st = states[pos]
    ctx.count("chain_steps")
  if n:
    ctx.sig(spec)
  ctx.count("elements", n)
  for o in set(pipes.ops_of(spec)):
    ctx.count("op:" + o)
  ctx.sample(spec)
