"""C02: states are inert, reusable, JSON-serializable snapshots."""
import copy
import json

from gv import core, pipes
from gv.core import snap, take


def frozen(st):
  return json.dumps(st, sort_keys=True, default=_bad)


def _bad(o):
  raise core.Violation("state-not-json", f"state holds a {type(o).__name__}, which JSON cannot represent")


def form(x):
  """Structure, leaf types and shapes of a state."""
  if isinstance(x, dict):
    # Interleaving keeps the states of whichever datasets are in use, and these may be of different kinds.
    return {str(k): "..." if k in ("iterators_in_use_states", "future_states") else form(v) for k, v in x.items()}
  if isinstance(x, (list, tuple)):
    return [type(x).__name__] + [form(v) for v in x]
  shape = getattr(x, "shape", None)
  return type(x).__name__ + (f"{x.dtype}{list(shape)}" if shape is not None else "")


def case(ctx, i, rng):
  g = pipes.G(rng, max_n=14, model_only=False)
  spec = g.packds(max_n=14) if rng.random() < 0.2 else g.iterds()[0]
  run(ctx, rng, spec)


def run(ctx, rng, spec, cap=60):
  ctx.describe(spec=spec)
  ds = pipes.build(spec)
  base, ended = take(iter(ds), cap, ctx)
  base = [snap(x) for x in base]
  n = len(base)
  if n:
    ctx.sig(spec)
  # Several iterators over ONE dataset object, advanced in random interleaving, with
  # states taken (often twice) and set between steps.
  its = [iter(ds) for _ in range(rng.choice([1, 2, 3]))]
  pos = [0] * len(its)
  held = []           # (state object, frozen text, position)
  hist = []
  forms = []

  def same_form(st):
    # All states of a pipeline have the same structure, types and shapes, at any point.
    forms.append(form(st))
    ctx.check(forms[-1] == forms[0], "state-form", "the structure or the types of the state changed on the way",
              history=hist, first=forms[0], now=forms[-1])
    ctx.count("forms_compared")

  for _ in range(rng.randint(4, 26)):
    k = rng.randrange(len(its))
    act = rng.choice(["next", "next", "next", "get", "get2", "set", "set", "setnew"])
    hist.append((k, act))
    if act == "next":
      got, _ = take(its[k], 1)
      want = base[pos[k]:pos[k] + 1]
      if not want and not ended:
        break
      ctx.equal([snap(x) for x in got], want, "history-mismatch",
                f"iterator {k} at {pos[k]} produced another element than plain iteration", history=hist)
      pos[k] += len(got)
    elif act in ("get", "get2"):
      st = its[k].get_state()
      held.append((st, frozen(st), pos[k]))
      same_form(st)
      if act == "get2":
        st2 = its[k].get_state()
        ctx.check(frozen(st2) == held[-1][1], "get-state-twice", "two get_state calls in a row differ",
                  history=hist, first=held[-1][1], second=frozen(st2))
        held.append((st2, frozen(st2), pos[k]))
      ctx.count("states_held")
    elif held:
      st, txt, p = rng.choice(held)
      if act == "setnew":
        its[k] = iter(ds)
      its[k].set_state(st)
      pos[k] = p
      if rng.random() < 0.5:
        st2 = its[k].get_state()    # re-saved without advancing
        held.append((st2, frozen(st2), p))
        same_form(st2)
      ctx.count("states_set")
    for st, txt, p in held:
      now = frozen(st)
      ctx.check(now == txt, "state-changed", "a held state object changed its content", history=hist, before=txt,
                after=now, pos=p)
    ctx.beat()
  # Every held state still means the same, on one shared iterator and on fresh ones.
  rng.shuffle(held)
  for st, txt, p in held[:5]:
    for it in (its[0], iter(ds)):
      it.set_state(st)
      got, _ = take(it, 4, ctx)
      want = base[p:p + 4]
      if not ended and len(want) < 4:
        got = got[:len(want)]
      ctx.equal([snap(x) for x in got], want, "state-reuse-mismatch", "a held state resumes elsewhere than taken",
                history=hist, pos=p, state=txt)
      ctx.check(frozen(st) == txt, "state-changed", "a state changed while being used", history=hist, before=txt,
                after=frozen(st))
      ctx.count("reuses")
  for it in its:
    it.close()
  ctx.sample({"spec": spec, "history": hist[:12]})
