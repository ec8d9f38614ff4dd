"""C09: mixing honours proportions and keeps each component's order."""
import collections
import json

import grain
import numpy as np

from gv import core, fns, pipes
from gv.core import snap, take

BASE = 10**7


def weights(rng, k):
  t = rng.random()
  if t < 0.15:
    return None
  if t < 0.5:
    return [rng.choice([1, 2, 3, 5, 10, 100]) for _ in range(k)]
  if t < 0.9:
    return [rng.choice([0.5, 0.25, 0.1, 0.7, 1 / 3, 0.9, 0.05, rng.random() + 0.01]) for _ in range(k)]
  return [rng.choice([1e-3, 1, 1e3]) for _ in range(k)]


def check_mix(ctx, seq, w, lens, what):
  """seq: (component, position) pairs in production order."""
  k = len(lens)
  w = w or [1] * k
  tot = sum(w)
  cnt = [0] * k
  for t, (c, p) in enumerate(seq):
    ctx.check(p == cnt[c], "component-order", f"{what}: component {c} gives its element {p} as number {cnt[c]}", at=t)
    cnt[c] += 1
    for j in range(k):
      share = (t + 1) * w[j] / tot
      # weights are resolved to 1% of the smallest one
      ctx.check(abs(cnt[j] - share) <= k + 0.02 * share + 0.02, "proportion",
                f"{what}: after {t + 1} elements component {j} gave {cnt[j]}, its share is {share:.2f}", weights=w)
  for j in range(k):
    ctx.check(cnt[j] <= lens[j], "repeated", f"{what}: component {j} of {lens[j]} gave {cnt[j]} elements in one pass")
  ctx.count("mixed_elements", len(seq))
  return cnt


def comp(rng, c, n):
  """A component whose elements name it and their position in it."""
  return grain.MapDataset.source(fns.Src(n, c * BASE, "int"))


def split(x):
  return (int(x) // BASE, int(x) % BASE)


def map_mix(ctx, rng):
  k = rng.randint(1, 5)
  lens = [rng.choice([1, 2, rng.randint(1, 30), rng.randint(1, 300)]) for _ in range(k)]
  w = weights(rng, k)
  ctx.describe(map_mix=lens, weights=w)
  ds = grain.MapDataset.mix([comp(rng, c, n) for c, n in enumerate(lens)], w)
  L = len(ds)
  seq = [split(ds[i]) for i in range(L)]
  check_mix(ctx, seq, w, lens, "map mix")
  # the length is given by the first component to run out
  ww = w or [1] * k
  tot = sum(ww)
  exact = min(n * tot / x for n, x in zip(lens, ww))
  ctx.check(exact * 0.97 - 1 <= L <= exact * 1.03 + 1e-6, "mix-length", f"the mixture of {lens} by {w} has {L} instead of {exact:.2f}")
  if w is None or all(isinstance(x, int) and x % min(w) == 0 for x in w):
    want = min(n * tot // x for n, x in zip(lens, ww))
    ctx.check(L == want, "mix-length", f"the mixture of {lens} by {w} has {L} instead of {want} elements")
    ctx.count("exact_lengths")
  # second epoch: every component continues in its own order, none twice within the epoch
  for e in (1, 2):
    if L > 150:
      break
    part = [split(ds[e * L + i]) for i in range(L)]
    by = collections.defaultdict(list)
    for c, p in part:
      by[c].append(p)
    for c, ps in by.items():
      # ceil/floor at the epoch boundary: one more than a full pass at most
      ctx.check(len(ps) <= lens[c] + 1, "repeated", f"epoch {e} takes {len(ps)} elements of component {c} of {lens[c]}")
      ctx.check(all((a + 1) % lens[c] == b for a, b in zip(ps, ps[1:])), "component-order", f"epoch {e}: component {c} out of order",
                got=ps[:20])
  got = [split(x) for x in ds.to_iter_dataset()]
  ctx.check(got == seq, "iteration", "iterating the mixture differs from indexing it")
  bs = rng.randint(1, 6)
  got = [split(x) for b in ds.batch(bs, batch_fn=fns.as_list) for x in b]
  ctx.check(got == seq, "batched-reads", "batched reads of the mixture differ", got=got[:20], want=seq[:20])
  if L > 3:
    sl = slice(rng.randint(0, 2), None, rng.choice([1, 2, 3]))
    got = [split(x) for x in ds[sl].to_iter_dataset()]
    ctx.check(got == seq[sl], "sliced-mix", "slicing the mixture gives other elements")
  ctx.sig(["map", lens, w])
  ctx.sample(dict(lens=lens, weights=w, first=[c for c, _ in seq[:20]]))


def long_mix(ctx, rng):
  """Far positions of mixtures of (nearly) endless components."""
  k = rng.randint(2, 6)
  w = weights(rng, k) or [1] * k
  ctx.describe(long_mix=w)
  n = rng.choice([10**5, 10**6])
  ds = grain.MapDataset.mix([grain.MapDataset.range(c * 10**12, c * 10**12 + 10**11) for c in range(k)], w)
  tot = sum(w)
  start = rng.randrange(n)
  last = {}
  for i in range(start, start + 300):
    x = int(ds[i])
    c, p = divmod(x, 10**12)
    if c in last:
      ctx.check(p == last[c] + 1, "component-order", f"component {c}: {last[c]} is followed by {p} around position {i}")
    last[c] = p
    share = (i + 1) * w[c] / tot
    ctx.check(abs(p + 1 - share) <= k + 0.02 * share + 0.02, "proportion",
              f"at position {i} component {c} gave {p + 1}, its share is {share:.1f}", weights=w)
  inf = grain.MapDataset.mix([comp(rng, c, 3 + c).repeat() for c in range(k)], w)
  ctx.check(len(inf) > 2**60, "mix-length", f"a mixture of endless components has length {len(inf)}")
  for i in (0, 1, start):
    c, p = split(inf[i])
    ctx.check(p == int(ds[i]) % 10**12 % (3 + c) and c == int(ds[i]) // 10**12, "repeat-order",
              "a repeated component is mixed differently", at=i)
  ctx.count("far_positions", 300)
  ctx.sig(["long", w, start])


def iter_mix(ctx, rng):
  k = rng.randint(1, 5)
  lens = [rng.choice([0, 1, 2, rng.randint(1, 30), rng.randint(1, 120)]) for _ in range(k)]
  w = weights(rng, k)
  form = rng.choice(["list", "dict", "dict", "ordered"])
  names = [f"{rng.choice('abcxyz')}{c}" for c in range(k)]
  comps = [comp(rng, c, n).to_iter_dataset() for c, n in enumerate(lens)]
  if form == "list":
    parts, ws = comps, w
  else:
    mk = collections.OrderedDict if form == "ordered" else dict
    parts = mk((names[c], comps[c]) for c in range(k))
    if w is None:
      ws = None
    else:
      o = list(range(k))
      rng.shuffle(o)
      ws = {names[c]: w[c] for c in o}      # a mapping: its order has no meaning
  ctx.describe(iter_mix=lens, weights=w, form=form, names=names)
  ds = grain.IterDataset.mix(parts, ws)
  it = iter(ds)
  seq, states = [], {}
  cap = 600
  ended = False
  for _ in range(cap):
    if rng.random() < 0.05:
      states[len(seq)] = it.get_state()
    try:
      seq.append(split(next(it)))
    except StopIteration:
      ended = True
      break
  cnt = check_mix(ctx, seq, w, lens, "iter mix")
  if ended:
    ctx.check(any(cnt[j] == lens[j] for j in range(k)), "stopped-early",
              "the mixture stopped although every component has elements left", counts=cnt, lens=lens)
    ctx.check(take(it, 2)[1], "end-stays", "elements after the end")
  else:
    ctx.check(False, "endless", "the mixture does not end")
  for p, st in states.items():
    it2 = iter(ds)
    it2.set_state(st)
    got = [split(x) for x in take(it2, 10)[0]]
    ctx.check(got == seq[p:p + 10], "resume", f"the state at {p} resumes elsewhere", got=got, want=seq[p:p + 10])
  ctx.sig(["iter", lens, w, form])
  # other components: kept ones continue by name, new ones start from the beginning
  if form == "dict" and k > 1 and states and ended:
    p, st = rng.choice(sorted(states.items(), key=lambda t: t[0]))
    done = collections.Counter(c for c, _ in seq[:p])
    keep = [c for c in range(k) if rng.random() < 0.6 and lens[c] > done[c]]
    new = [10 + j for j in range(rng.randint(0, 2))]
    if len(keep) + len(new) >= 1:
      parts2 = {names[c]: comps[c] for c in keep}
      parts2.update({f"n{c}": comp(rng, c, 20).to_iter_dataset() for c in new})
      items = list(parts2.items())
      rng.shuffle(items)
      ws2 = None if rng.random() < 0.5 else {n: rng.choice([1, 2, 5]) for n, _ in items}
      it3 = iter(grain.IterDataset.mix(dict(items), ws2))
      it3.set_state(json.loads(json.dumps(st)))
      got = [split(x) for x in take(it3, 30)[0]]
      nxt = {c: done[c] if c < 10 else 0 for c in keep + new}
      for c, q in got:
        ctx.check(c in nxt and q == nxt[c], "changed-components", f"after changing components {c} continues at {q}, not {nxt.get(c)}",
                  kept=keep, new=new, position=p, got=got)
        nxt[c] += 1
      ctx.count("changed_components")


def rebuilt_weights(ctx, rng):
  """Mixtures of real pipelines keep each component's elements (not only ids)."""
  g = pipes.G(rng, max_n=15, deep=2)
  k = rng.randint(2, 4)
  specs = [g.iterds(depth=rng.randint(0, 2), n=rng.randint(1, 12))[0] for _ in range(k)]
  w = weights(rng, k)
  ctx.describe(pipelines=specs, weights=w)
  outs = [[snap(x) for x in take(iter(pipes.build(s)), 500)[0]] for s in specs]
  marker = [pipes.build(s).map(Mark(c)) for c, s in enumerate(specs)]
  got = [snap(x) for x in take(iter(grain.IterDataset.mix(marker, w)), 400)[0]]
  seq, pos = [], [0] * k
  for c, e in got:
    ctx.check(pos[c] < len(outs[c]) and core.same(e, outs[c][pos[c]]), "component-order",
              f"component {c} gives another element {pos[c]}", got=e)
    seq.append((c, pos[c]))
    pos[c] += 1
  check_mix(ctx, seq, w, [len(o) for o in outs], "pipeline mix")
  if len(got) < 400:
    ctx.check(any(pos[c] == len(outs[c]) for c in range(k)), "stopped-early", "stopped although every component has elements left")
  if got:
    ctx.sig(["pipes", specs, w])


class Mark(fns._t.Map):
  def __init__(self, c):
    self.c = c

  def map(self, e):
    return (self.c, e)


class Chosen:
  """A user-given selection of (dataset, index) pairs."""

  def __init__(self, sel):
    self.sel = sel

  def __len__(self):
    return len(self.sel)

  def __getitem__(self, i):
    return self.sel[i % len(self.sel)]


def concat_select(ctx, rng):
  k = rng.randint(1, 6)
  lens = [rng.choice([0, 0, 1, 2, rng.randint(0, 20)]) for _ in range(k)]
  ctx.describe(concat=lens)
  comps = [comp(rng, c, n) for c, n in enumerate(lens)]
  ds = grain.MapDataset.concatenate(comps)
  want = [(c, p) for c in range(k) for p in range(lens[c])]
  ctx.check(len(ds) == len(want), "concat-length", f"concatenating {lens} gives {len(ds)} elements")
  if want:
    ctx.check([split(ds[i]) for i in range(len(want))] == want, "concat", "concatenation loses or reorders elements")
    ctx.check([split(x) for b in ds.batch(3, batch_fn=fns.as_list) for x in b] == want, "concat", "batched reads differ")
    e2 = [split(ds[len(want) + i]) for i in range(len(want))]
    ctx.check(e2 == want, "concat", "the second epoch of a concatenation differs")
    # epochs of components advance together: shuffled components are permuted within their own part
    sh = grain.MapDataset.concatenate([c.shuffle(seed=3) if len(c) else c for c in comps])
    for e in (0, 1):
      got = [split(sh[e * len(want) + i]) for i in range(len(want))]
      ctx.check([c for c, _ in got] == [c for c, _ in want] and sorted(got) == want, "concat",
                f"epoch {e} of concatenated shuffled datasets is not every element once")
    nz = [c for c in range(k) if lens[c]]
    sel = [(c, rng.randrange(lens[c])) for c in rng.choices(nz, k=rng.randint(1, 20))]
    s = grain.MapDataset.select_from_datasets(comps, Chosen(sel))
    ctx.check(len(s) == len(sel) and [split(s[i]) for i in range(len(sel))] == sel, "select", "a selection gives other elements")
    ctx.check([split(x) for b in s.batch(4, batch_fn=fns.as_list) for x in b] == sel, "select", "batched reads of a selection differ")
    ctx.sig(["concat", lens])
  ctx.count("concatenations")


def refused(ctx, rng):
  two = [grain.MapDataset.range(5), grain.MapDataset.range(5)]
  bads = [lambda: grain.MapDataset.mix(two, [0, 1]), lambda: grain.MapDataset.mix(two, [1, 0.0]),
          lambda: grain.MapDataset.mix([two[0], grain.MapDataset.range(0)]),
          lambda: grain.IterDataset.mix([x.to_iter_dataset() for x in two], [0, 1]),
          lambda: grain.MapDataset.concatenate([two[0], two[1].repeat()]),
          lambda: grain.MapDataset.mix(two, [1]), lambda: grain.MapDataset.mix(two, [1, 2, 3])]
  for j, f in enumerate(bads):
    ctx.describe(refused=j)
    try:
      f()
    except (ValueError, AssertionError):
      ctx.count("refused")
      continue
    ctx.fail("bad-mix-accepted", f"invalid mixture {j} is accepted")


DIRECTED = [refused] + [iter_mix] * 7
KINDS = [map_mix] * 4 + [long_mix] * 2 + [iter_mix] * 4 + [rebuilt_weights] * 2 + [concat_select] * 2


def case(ctx, i, rng):
  rng.choice(KINDS)(ctx, rng)
