"""C04: multiprocess prefetching is exact, deterministic and resumable."""
import copy
import json
import time

import grain
from grain import experimental as gexp

from gv import core, fns, pipes
from gv.core import snap, take

MAP_SEQ = {"map", "wrap", "mapidx", "randmap", "shuffle", "wshuffle", "repeat", "batch", "filter", "fan", "zip"}


def sliced(s, k, n, seq, memo=None):
  """The pipeline over slice k of n (built independently from the spec)."""
  t = dict(s)
  if s["op"] == "iter" and not seq:
    t["in"] = [{"op": "index", "start": k, "stop": None, "step": n, "in": s["in"]}]
    return t
  if s["op"] in ("src", "range") and seq:
    a, b = _even(pipes_len(s), k, n)
    if s["op"] == "src":
      return dict(s, n=b - a, base=s["base"] + a)
    return dict(s, start=s["start"] + a * s["step"], stop=s["start"] + b * s["step"])
  if s["op"] == "inter":
    t["in"] = s["in"][k::n]
    return t
  t["in"] = [sliced(x, k, n, seq) for x in s.get("in", [])]
  return t


def _even(m, k, n):
  q, r = divmod(m, n)
  return q * k + min(k, r), q * (k + 1) + min(k + 1, r)


def pipes_len(s):
  return s["n"] if s["op"] == "src" else len(range(s["start"], s["stop"], s["step"]))


def reference(s, n, seq, cap=200):
  """Round-robin interleaving of the streams of the n slices."""
  if n == 1:
    streams = [take(iter(pipes.build(s)), cap)[0]]
  else:
    streams = []
    for k in range(n):
      sp = sliced(s, k, n, seq)
      try:
        streams.append(take(iter(pipes.build(sp)), cap)[0])
      except (ValueError, ZeroDivisionError):
        return None          # a slice of this pipeline does not exist (e.g. an empty mixture component)
  streams = [[snap(x) for x in st] for st in streams]
  out, pos, live = [], [0] * n, list(range(n))
  while live:
    for k in list(live):
      if pos[k] < len(streams[k]):
        out.append(streams[k][pos[k]])
        pos[k] += 1
      else:
        live.remove(k)
  return out


def gen(rng, seq):
  g = pipes.G(rng, max_n=24, model_only=True, deep=3)
  if seq:
    s, a = g.source(n=rng.randint(0, 24))
    for _ in range(rng.randint(0, 3)):
      for _ in range(20):
        t, b = g._step(g.map_op, s, a, True)
        if t is s or (t["op"] in MAP_SEQ and t["op"] != "wshuffle" and len(t["in"]) == 1):
          s, a = t, b
          break
  else:
    s, a = g.mapds(depth=rng.randint(0, 3), n=rng.randint(0, 24))
  s, a = g.to_iter(s, a)
  for _ in range(rng.randint(0, 3)):
    s, a = g._step(g.iter_op, s, a, ["imap", "iwrap", "ifilter", "ibatch", "limit", "iwshuffle", "ifan", "imapidx", "cache",
                                     "rebatch", "izip", "imix"] if not seq else
                   ["imap", "iwrap", "ifilter", "ibatch", "limit", "ifan", "imapidx"])
  if not seq and rng.random() < 0.1:
    kids = [g.iterds(depth=rng.choice([0, 1]), n=rng.randint(0, 6), mdepth=0)[0] for _ in range(rng.randint(1, 7))]
    s = {"op": "inter", "cycle": rng.randint(1, 4), "mt": 1, "mb": 1, "ib": 1, "in": kids}
  elif not seq and rng.random() < 0.1:
    s = g.packds(max_n=30, post=False)
  return s


def case(ctx, i, rng):
  """Slicing and round-robin with worker threads (same slicing code, no processes)."""
  seq = rng.random() < 0.3
  spec = gen(rng, seq)
  n = rng.choice([1, 2, 2, 3, 4, 6])
  run(ctx, rng, spec, n, seq, mp=False)


def mp_case(ctx, rng):
  for _ in range(30):
    seq = rng.random() < 0.3
    spec = gen(rng, seq)
    n = rng.choice([1, 2, 2, 3, 3, 4])
    want = reference(spec, n, seq)
    if want is not None and len(want) >= 3:
      break
  run(ctx, rng, spec, n, seq, mp=True)
  ctx.count("multiprocess_cases")


def onetoone(ctx, rng):
  """One-to-one pipelines give the unsliced sequence, random maps included, for every worker count."""
  n_el = rng.randint(1, 20)
  g = pipes.G(rng, max_n=20, model_only=False, deep=2)
  s, a = g.source(n=n_el)
  s = {"op": "src", "n": n_el, "base": 0, "kind": rng.choice(["int", "dict", "arr"])}
  if rng.random() < 0.5:
    s = {"op": "shuffle", "seed": 3, "in": [s]}
  if rng.random() < 0.5:
    s = {"op": "randmap", "seed": 5, "in": [s]}
  s = {"op": "iter", "in": [s]}
  for _ in range(rng.randint(1, 3)):
    s = rng.choice([{"op": "imap", "b": 2, "in": [s]}, {"op": "irandmap", "seed": rng.randint(0, 99), "in": [s]}])
  want = [snap(x) for x in pipes.build(s)]
  n = rng.choice([1, 2, 3, 4, 5])
  real = rng.random() < 0.3
  ctx.describe(spec=s, workers=n, processes=real)
  ds = wrapped(pipes.build(s), n, rng.choice([1, 3]), False, real)
  it = iter(ds)
  got = [snap(x) for x in it]
  ctx.equal(got, want, "one-to-one", f"{n} workers change a one-to-one pipeline")
  ctx.count("one_to_one")


def wrapped(ds, n, buf, seq, mp):
  if mp:
    return ds.mp_prefetch(grain.MultiprocessingOptions(num_workers=n, per_worker_buffer_size=buf), sequential_slice=seq)
  return gexp.multithread_prefetch(ds, n, buf, seq)


def run(ctx, rng, spec, n, seq, mp):
  buf = rng.choice([1, 1, 2, 5])
  ctx.describe(spec=spec, workers=n, buffer=buf, sequential=seq, processes=mp)
  want = reference(spec, n, seq)
  if want is None:
    return
  if len(want) > 1:
    ctx.sig([spec, n, seq])
  ctx.sample([spec, n, seq])
  m = len(want)
  run_spec = spec
  slow = mp and rng.random() < 0.5
  if slow:
    run_spec = {"op": "rdelay", "ms": rng.choice([1, 15]), "in": [spec]}
    ctx.count("delayed_runs")
  src_ds = pipes.build(run_spec)
  before = [snap(x) for x in take(iter(src_ds), 5)[0]] if not slow else None
  post = rng.choice([None, None, None, "imap", "ibatch", "irepeat", "tprefetch", "ifilter"])
  ds = wrapped(src_ds, n, buf, seq, mp)
  if post == "imap":
    ds = ds.map(fns.Wrap("tuple"))
    want = [fns.Wrap("tuple")(x) for x in want]
  elif post == "ibatch":
    ds = ds.batch(3, batch_fn=fns.ListBatch())
    want = [fns.ListBatch()(want[i:i + 3]) for i in range(0, m, 3)]
  elif post == "irepeat" and m < 60:
    ds = gexp.RepeatIterDataset(ds, 2)
    want = want + want
  elif post == "tprefetch":
    ds = gexp.ThreadPrefetchIterDataset(ds, prefetch_buffer_size=2)
  elif post == "ifilter":
    ds = ds.filter(fns.Keep(3, [0, 2]))
    want = [x for x in want if fns.Keep(3, [0, 2])(x)]
  m = len(want)
  it = iter(ds)
  if rng.random() < 0.3:
    it.start_prefetch()
  states = {}
  got = []
  slow_consumer = mp and rng.random() < 0.2
  for _ in range(m + 2):
    if rng.random() < 0.4:
      st = it.get_state()
      states[len(got)] = json.loads(json.dumps(st)) if rng.random() < 0.5 else st
    if slow_consumer:
      time.sleep(0.01)
    try:
      got.append(snap(next(it)))
    except StopIteration:
      break
    ctx.beat()
  ctx.equal(got, want, "worker-order", f"{n} workers give other elements than the round-robin of their slices")
  if rng.random() < 0.5:
    ctx.check(take(it, 1)[1], "end-stays", "an element after the end")
  ctx.count("elements", m)
  ctx.count("workers", n)
  for p in rng.sample(sorted(states), min(len(states), 1 if mp and rng.random() < 0.5 else 2)):
    how = rng.choice(["same", "fresh", "running"]) if not mp else rng.choice(["same", "same", "fresh", "running"])
    it2 = it
    if how != "same":
      it2 = iter(ds)
      if how == "running":
        take(it2, rng.randint(1, 4), ctx)
    for _ in range(rng.choice([1, 1, 1, 2, 7])):
      it2.set_state(copy.deepcopy(states[p]))
    if rng.random() < 0.3:
      st = json.loads(json.dumps(it2.get_state()))
      ctx.count("states_after_restore")
      k = rng.choice([2, m + 1])
      g2, _ = take(it2, k, ctx)
      ctx.equal([snap(x) for x in g2], want[p:p + k], "worker-resume", f"the state at {p}/{m} ({how}) resumes elsewhere")
      it2.set_state(st)
    k = rng.choice([3, m + 1, m + 1])
    g2, _ = take(it2, k, ctx)
    ctx.equal([snap(x) for x in g2], want[p:p + k], "worker-resume", f"the state at {p}/{m} ({how}) resumes elsewhere",
              state=core.jsonable(states[p]))
    ctx.count("restores")
    if it2 is not it:
      it2.close()
  if before is not None:
    again = [snap(x) for x in take(iter(src_ds), 5)[0]]
    ctx.equal(again, before, "dataset-altered", "prefetching altered the caller's own dataset")
  it.close()


def shared(ctx, rng):
  """A dataset used by several branches is sliced consistently."""
  n_el = rng.randint(2, 14)
  src = grain.MapDataset.range(n_el)
  a = src.to_iter_dataset()
  seq = rng.random() < 0.3
  how = rng.choice(["iter", "map", "mix"])
  if how == "iter":
    ds = gexp.ZipIterDataset([a.map(fns.Affine(0)), a.map(fns.Affine(100))])
  elif how == "map":
    ds = gexp.ZipIterDataset([src.map(fns.Affine(0)).to_iter_dataset(), src.map(fns.Affine(100)).to_iter_dataset()])
  else:
    ds = gexp.ZipMapDataset([src.map(fns.Affine(0)), src.map(fns.Affine(100))]).to_iter_dataset()
  n = rng.choice([2, 3])
  ctx.describe(shared=how, n=n_el, workers=n, seq=seq)
  for mp in (False, rng.random() < 0.3):
    got = [tuple(int(y) for y in x) for x in wrapped(ds, n, 1, seq, mp)]
    ctx.check(sorted(got) == [(j, j + 100) for j in range(n_el)], "shared-branches",
              "a dataset shared by two branches is sliced more than once", got=got)
  ctx.count("shared_branches")


def seq_positions(ctx, rng):
  """Sequential slicing below transformations that address absolute positions."""
  for name, mk in (("concatenate", lambda s: grain.MapDataset.concatenate([s, grain.MapDataset.range(100, 104)])),
                   ("mix", lambda s: grain.MapDataset.mix([s, grain.MapDataset.range(100, 110)])),
                   ("slice", lambda s: s.slice(slice(2, 8)))):
    ds = mk(grain.MapDataset.range(10))
    want = sorted(int(x) for x in ds.to_iter_dataset())
    ctx.describe(sequential_slice_with=name)
    got = sorted(int(x) for x in wrapped(ds.to_iter_dataset(), 2, 1, True, False))
    ctx.check(got == want, "sequential-slice-positions", f"sequential_slice with {name} does not give every element once",
              got=got, want=want)


DIRECTED = [seq_positions] + [mp_case] * 32 + [shared] * 8 + [onetoone] * 16
