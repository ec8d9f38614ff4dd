"""DataLoader specs: builder and independent reference (shared by C12, C13)."""
import os

import grain
from grain._src.python import operations as legacy
from grain._src.python import record as grain_record
import numpy as np

from gv import fns


class LogSrc(fns.Src):
  """A source that appends every index it reads to a file (works across processes)."""

  def __init__(self, n, base, kind, log=None):
    super().__init__(n, base, kind)
    self.log = log

  def __getitem__(self, i):
    if self.log:
      fd = os.open(self.log, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
      try:
        os.write(fd, f"{int(i)}\n".encode())
      finally:
        os.close(fd)
    return super().__getitem__(i)


class PlainSampler:
  """User-defined sampler: strided walk over the records, without a length."""

  def __init__(self, n, total, step, shard):
    self.n, self.total, self.step = n, total, step
    self._shard_options = shard

  def __getitem__(self, i):
    if not 0 <= i < self.total:
      raise IndexError(i)
    return grain_record.RecordMetadata(index=i, record_key=(i * self.step) % self.n,
                                       rng=np.random.Generator(np.random.Philox(key=77 + i)))

  def __repr__(self):
    return f"PlainSampler({self.n},{self.total},{self.step})"


class Doubler:
  """Custom 1:1 operation over records."""

  def __call__(self, it):
    for r in it:
      yield grain_record.Record(metadata=r.metadata, data=(r.data, "op"))


def shard_opts(s):
  j, c, drop = s["shard"]
  if c == 1 and not drop and s.get("nosharding"):
    return grain.sharding.NoSharding()
  return grain.sharding.ShardOptions(shard_index=j, shard_count=c, drop_remainder=drop)


def sampler(s):
  sh = shard_opts(s)
  k = s["sampler"]
  if k == "seq":
    return grain.samplers.SequentialSampler(num_records=s["n"], shard_options=sh, seed=s["seed"])
  if k == "index":
    return grain.samplers.IndexSampler(num_records=s["n"], shard_options=sh, shuffle=s["shuffle"], num_epochs=s["epochs"],
                              seed=s["seed"])
  return PlainSampler(s["n"], s["total"], s["step"], sh)


def op_of(o):
  k = o["op"]
  if k == "map":
    return fns.Affine(o["b"])
  if k == "wrap":
    return fns.Wrap(o["how"])
  if k == "filter":
    return fns.Keep(o["m"], o["allow"])
  if k == "rand":
    return fns.Rand()
  if k == "fan":
    return fns.Fan(o["k"], salt=o["salt"])
  if k == "batch":
    return grain.transforms.Batch(o["bs"], drop_remainder=o["drop"], **({"batch_fn": fns.ListBatch()} if o["list"] else {}))
  if k == "delay":
    return fns.DelayRandom(o["ms"])
  if k == "lmap":
    return legacy.MapOperation(fns.Affine(o["b"]))
  if k == "lrand":
    return legacy.RandomMapOperation(fns.Rand())
  if k == "lfilter":
    return legacy.FilterOperation(fns.Keep(o["m"], o["allow"]))
  if k == "lbatch":
    return legacy.BatchOperation(o["bs"], drop_remainder=o["drop"], **({"batch_fn": fns.ListBatch()} if o["list"] else {}))
  if k == "custom":
    return Doubler()
  if k == "boom":
    return fns.Boom(o["bad"], o["exc"])
  raise ValueError(k)


def build(s, log=None, **over):
  s = dict(s, **over)
  src = LogSrc(s["n"], s["base"], s["kind"], log)
  kw = {}
  if s.get("threads") is not None:
    kw["read_options"] = grain.ReadOptions(num_threads=s["threads"], prefetch_buffer_size=s["buf"])
  ops = [op_of(o) for o in s["ops"]]
  if s.get("via_load") and s["sampler"] == "index":
    return grain.load(src, num_epochs=s["epochs"], shuffle=s["shuffle"], seed=s["seed"], shard_options=shard_opts(s),
                      transformations=ops, worker_count=s["workers"], **kw)
  if s.get("shard_arg"):
    kw["shard_options"] = shard_opts(s)
  return grain.DataLoader(data_source=src, sampler=sampler(s), operations=ops, worker_count=s["workers"],
                          worker_buffer_size=s.get("wbuf", 1), **kw)


def shard_range(n, j, c, drop):
  """[start, end) of shard j of c over n records."""
  q, r = divmod(n, c)
  if drop:
    return q * j, q * (j + 1)
  return q * j + min(j, r), q * (j + 1) + min(j + 1, r)


def local_indices(s, cap):
  """Global sampler indices this shard visits, in order."""
  j, c, drop = s["shard"]
  k = s["sampler"]
  if k == "seq":
    tot = s["n"] // c * c if drop else s["n"]
  elif k == "index":
    if s["epochs"] is None:
      return [i * c + j for i in range(cap)]
    tot = s["epochs"] * s["n"]
    if drop:
      tot = min(tot, s["n"] // c * c * s["epochs"])
  else:
    tot = s["total"]
  cnt = tot // c if drop else len(range(j, tot, c))
  return [i * c + j for i in range(min(cnt, cap))]


def reference(s, cap):
  """Elements of the loader: per-worker streams, dealt round-robin."""
  smp = sampler(s)
  src = fns.Src(s["n"], s["base"], s["kind"])
  idx = local_indices(s, cap)
  w = max(1, s["workers"])
  streams = []
  for k in range(w):
    recs = []
    for i in idx[k::w]:
      m = smp[i]
      recs.append((m.rng, src[m.record_key]))
    streams.append(run_ops(s, recs))
  out = []
  pos = [0] * w
  live = list(range(w))
  while live:
    for k in list(live):
      if pos[k] < len(streams[k]):
        out.append(streams[k][pos[k]])
        pos[k] += 1
      else:
        live.remove(k)
  return out, idx


def run_ops(s, recs):
  return [e for _, e in run_recs(s["ops"], recs)]


def run_recs(ops, recs):
  for o in ops:
    k = o["op"]
    if k in ("map", "lmap"):
      recs = [(g, fns.Affine(o["b"])(e)) for g, e in recs]
    elif k == "wrap":
      recs = [(g, fns.Wrap(o["how"])(e)) for g, e in recs]
    elif k in ("filter", "lfilter"):
      f = fns.Keep(o["m"], o["allow"])
      recs = [(g, e) for g, e in recs if f(e)]
    elif k in ("rand", "lrand"):
      recs = [(g, fns.Rand()(e, g)) for g, e in recs]
    elif k == "fan":
      f = fns.Fan(o["k"], salt=o["salt"])
      recs = [(None, c) for _, e in recs for c in f.flat_map(e)]
    elif k in ("batch", "lbatch"):
      out = []
      for a in range(0, len(recs), o["bs"]):
        es = [e for _, e in recs[a:a + o["bs"]]]
        if len(es) < o["bs"] and o["drop"]:
          continue
        out.append((None, fns.ListBatch()(es) if o["list"] else fns.stack(es)))
      recs = out
    elif k == "custom":
      recs = [(g, (e, "op")) for g, e in recs]
  return recs


def gen(rng, workers=0, fan=True, legacy_ops=True):
  n = rng.choice([1, 2, 3, 5, 7, 12]) if rng.random() < 0.5 else rng.randint(1, 40)
  c = rng.choice([1, 1, 2, 3, 5])
  s = {"n": n, "base": 1000, "kind": rng.choice(["int", "np", "arr", "dict", "tuple"]),
       "shard": [rng.randrange(c), c, rng.random() < 0.4], "sampler": rng.choice(["seq", "index", "index", "index", "plain"]),
       "seed": rng.choice([0, 1, 7, rng.randint(0, 2**32 - 1)]), "workers": workers, "nosharding": rng.random() < 0.5,
       "shuffle": rng.random() < 0.5, "epochs": rng.choice([None, 1, 1, 2, 3]),
       "total": rng.randint(0, 50), "step": rng.randint(1, 9), "wbuf": rng.choice([1, 1, 2, 5]),
       "shard_arg": rng.random() < 0.4, "via_load": rng.random() < 0.2}
  if s["sampler"] == "index" and s["epochs"] != 1:
    s["n"] = max(n, c)     # repeating an empty shard is refused
  t = rng.random()
  if t < 0.4:
    s.update(threads=0, buf=0)
  elif t < 0.8:
    s.update(threads=rng.choice([1, 2, 8]), buf=rng.choice([1, 2, 9]))
  ops = []
  uni, batched = True, False
  rand_ok = True
  for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
    c = ["map", "wrap", "filter", "batch"]
    if rand_ok:
      c += ["rand", "rand"]
    if fan:
      c += ["fan"]
    if legacy_ops:
      c += ["lmap", "lfilter", "lbatch", "custom"] + (["lrand"] if rand_ok else [])
    k = rng.choice(c)
    o = {"op": k}
    if k in ("map", "lmap"):
      o["b"] = rng.randint(1, 5)
    elif k == "wrap":
      o["how"] = rng.choice(["dict", "tuple", "list"])
    elif k in ("filter", "lfilter"):
      m = rng.choice([2, 3, 5])
      o.update(m=m, allow=sorted(rng.sample(range(m), rng.randint(1, m))))
    elif k == "fan":
      o.update(k=rng.choice([1, 2, 3]), salt=rng.randint(0, 9))
      rand_ok = False
      # afterwards elements are (e, j) pairs
    elif k in ("batch", "lbatch"):
      o.update(bs=rng.randint(1, 5), drop=rng.random() < 0.5, list=rng.random() < 0.3)
      rand_ok = False
    elif k == "custom":
      uni = False          # adds a string leaf: only list batches afterwards
    if k in ("batch", "lbatch"):
      if not uni:
        o["list"] = True
      if o["list"] or not o["drop"]:
        uni = False
    ops.append(o)
  s["ops"] = ops
  return s


def infinite(s):
  return s["sampler"] == "index" and s["epochs"] is None
