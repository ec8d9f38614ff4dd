"""C17: the next-index interface agrees with iteration."""
import json

from grain import experimental as gexp

from gv import core, pipes
from gv.core import snap, take


def gen(rng, mp=False):
  g = pipes.G(rng, max_n=24, model_only=False)
  s, a = g.mapds(depth=rng.randint(0, 3), sparse_ok=False, n=rng.randint(1, 24))
  s, a = g.to_iter(s, a)
  for _ in range(rng.randint(0, 4)):
    s, a = g._step(g.iter_op, s, a, ["imap", "iwrap", "imapidx", "irandmap", "ibatch", "limit", "tprefetch"])
  if mp:
    s = {"op": "mp", "n": 1, "buf": rng.choice([1, 2, 4]), "in": [s]}
    if rng.random() < 0.3:
      s = {"op": "imap", "b": 2, "in": [s]}
  elif rng.random() < 0.15:
    s = {"op": "inter", "cycle": rng.choice([1, 2, 4]), "mt": 1, "mb": 1, "ib": rng.choice([1, 3]), "in": [s]}
  return s


def case(ctx, i, rng):
  run(ctx, rng, gen(rng), 24)


def mp_case(ctx, rng):
  run(ctx, rng, gen(rng, mp=True), 10)
  ctx.count("multiprocess_cases")


DIRECTED = [mp_case] * 16


def run(ctx, rng, spec, steps):
  ctx.describe(spec=spec)
  ds = pipes.build(spec)
  base, ended = take(iter(ds), 100, ctx)
  base = [snap(x) for x in base]
  n = len(base)
  if not ended:
    return
  if n:
    ctx.sig(spec)
  ctx.sample(spec)
  it = iter(ds)
  pos = 0
  ops = pipes.ops_of(spec)
  hist = []
  saved = []
  for _ in range(rng.randint(4, steps)):
    act = rng.choice(["next", "next", "next", "get", "set", "set", "fresh", "state", "restore"])
    hist.append(act)
    if act == "get" and pos == n and "mp" in ops and "ibatch" in ops:
      act = "fresh"
    if act == "next":
      k = rng.choice([1, 1, 2, 3, n + 1])
      got, end = take(it, k, ctx)
      want = base[pos:pos + k]
      ctx.equal([snap(x) for x in got], want, "next-index-mismatch", f"wrong elements from position {pos}",
                history=hist)
      pos += len(got)
    elif act == "get":
      j = gexp.get_next_index(it)
      ctx.count("index_reads")
      hist[-1] = ["get", j, "at", pos]
      it2 = iter(ds) if rng.random() < 0.7 else it
      try:
        gexp.set_next_index(it2, j)
      except IndexError:
        # past the end of a partial batch: refused, nothing was left to produce
        ctx.check(pos == n, "next-index-refused", f"the index {j} read at {pos}/{n} is refused", history=hist)
        ctx.count("refused_at_end")
        it, pos = iter(ds), 0
        continue
      got, _ = take(it2, 3, ctx)
      ctx.equal([snap(x) for x in got], base[pos:pos + 3], "get-next-index-mismatch",
                f"index {j} read at {pos} continues elsewhere", history=hist, index=j)
      if it2 is it:
        pos += len(got)
    elif act == "set":
      # a worker refuses the end position of a partial batch only later
      lim = n - 1 if n and "mp" in ops and "ibatch" in ops else n
      j = rng.randint(0, lim)
      hist[-1] = ["set", j]
      try:
        gexp.set_next_index(it, j)
      except IndexError:
        ctx.check(j == n, "next-index-refused", f"index {j} of {n} is refused", history=hist)
        ctx.count("refused_at_end")
        it, pos = iter(ds), 0
        continue
      pos = j
      ctx.count("index_sets")
      if rng.random() < 0.5:
        g = gexp.get_next_index(it)
        ctx.check(g == j, "get-after-set", f"next index reads {g} after setting {j}", history=hist)
    elif act == "fresh":
      it, pos = iter(ds), 0
    elif act == "state":
      try:
        saved.append((json.loads(json.dumps(it.get_state())), pos))
      except IndexError:
        ctx.check(pos == n, "next-index-refused", f"state after setting index {pos} of {n} is refused", history=hist)
        it, pos = iter(ds), 0
    elif saved:
      st, p = rng.choice(saved)
      it.set_state(st)
      pos = p
    ctx.beat()
  it.close()
