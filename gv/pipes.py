"""Pipeline language: one JSON spec -> grain pipeline, and an independent reference model.

Map-dataset nodes (random access):  src range slice reindex filter map wrap mapidx randmap
  shuffle wshuffle repeat batch concat mix zip fan seed delay
Iterator nodes: iter(to_iter_dataset) ifilter imap iwrap imapidx irandmap ibatch limit irepeat
  izip imix iwshuffle cache rebatch ifan tprefetch inter mp idelay
"""
import functools
import math
import sys

import grain
from grain import experimental as gexp
import numpy as np

from gv import fns

INF = sys.maxsize
NONE = None


# ----------------------------------------------------------------- build (grain)
def build(s, top=True):
  op = s["op"]
  ins = [build(x, False) for x in s.get("in", [])]
  p = ins[0] if ins else None
  if op == "src":
    return grain.MapDataset.source((fns.SrcB if s.get("bat") else fns.Src)(s["n"], s["base"], s["kind"]))
  if op == "range":
    return grain.MapDataset.range(s["start"], s["stop"], s["step"])
  if op == "seed":
    return p.seed(s["seed"])
  if op == "slice":
    return p.slice(slice(s["start"], s["stop"], s["step"]))
  if op == "index":
    return p[slice(s["start"], s["stop"], s["step"])]
  if op == "reindex":
    return p.slice(list(s["idx"]))
  if op == "filter" or op == "ifilter":
    return p.filter(fns.Keep(s["m"], s["allow"]))
  if op in ("map", "imap"):
    return p.map(fns.Affine(s["b"]))
  if op in ("wrap", "iwrap"):
    return p.map(fns.Wrap(s["how"]))
  if op in ("mapidx", "imapidx"):
    return p.map_with_index(fns.WithIdx())
  if op in ("randmap", "irandmap"):
    return p.random_map(fns.Rand(), seed=s.get("seed"))
  if op in ("delay", "idelay"):
    return p.map(fns.Delay(s["salt"], s["ms"], s.get("every", 1)))
  if op in ("rdelay",):
    return p.map(fns.DelayRandom(s["ms"]))
  if op in ("boom",):
    return p.map(fns.Boom(s["bad"], s.get("exc", "UserBoom")))
  if op == "shuffle":
    return p.shuffle(seed=s.get("seed"))
  if op == "wshuffle":
    return gexp.WindowShuffleMapDataset(p, window_size=s["w"], seed=s["seed"])
  if op == "repeat":
    if s.get("reseed", True):
      return p.repeat(s["k"])
    return p.repeat(s["k"], reseed_each_epoch=False)
  if op in ("batch", "ibatch"):
    kw = {}
    if s.get("fn") == "list":
      kw["batch_fn"] = fns.ListBatch()
    elif s.get("fn") == "pad":
      kw["batch_fn"] = functools.partial(gexp.batch_and_pad, batch_size=s["bs"], pad_value=s.get("pad", 0))
    return p.batch(s["bs"], drop_remainder=s["drop"], **kw)
  if op == "concat":
    return grain.MapDataset.concatenate(ins)
  if op == "mix":
    return grain.MapDataset.mix(ins, s.get("w"))
  if op == "zip":
    return gexp.ZipMapDataset(ins)
  if op == "fan":
    return gexp.FlatMapMapDataset(p, fns.Fan(s["k"], s.get("full", False), s.get("salt", 0)))
  if op == "iter":
    kw = {}
    if s.get("threads") is not None:
      kw["read_options"] = grain.ReadOptions(num_threads=s["threads"], prefetch_buffer_size=s["buf"])
    if s.get("nones"):
      kw["allow_nones"] = True
    return p.to_iter_dataset(**kw)
  if op == "opts":
    kw = dict(s["opts"])
    if kw.pop("timing", False):
      kw["execution_tracking_mode"] = gexp.ExecutionTrackingMode.STAGE_TIMING
    return gexp.WithOptionsIterDataset(p, gexp.DatasetOptions(**kw))
  if op == "limit":
    return gexp.LimitIterDataset(p, s["k"])
  if op == "irepeat":
    return gexp.RepeatIterDataset(p, s["k"])
  if op == "izip":
    return gexp.ZipIterDataset(ins, strict=s["strict"])
  if op == "imix":
    return grain.IterDataset.mix(ins, s.get("w"))
  if op == "iwshuffle":
    return gexp.WindowShuffleIterDataset(p, window_size=s["w"], seed=s["seed"])
  if op == "cache":
    return gexp.CacheIterDataset(p)
  if op == "rebatch":
    return gexp.RebatchIterDataset(p, s["bs"], s["drop"])
  if op == "ifan":
    return gexp.FlatMapIterDataset(p, fns.Fan(s["k"], s.get("full", False), s.get("salt", 0)))
  if op == "tprefetch":
    return gexp.ThreadPrefetchIterDataset(p, prefetch_buffer_size=s["buf"])
  if op == "inter":
    return gexp.InterleaveIterDataset(
        ins, cycle_length=s["cycle"], num_make_iter_threads=s.get("mt", 1),
        make_iter_buffer_size=s.get("mb", 1), iter_buffer_size=s.get("ib", 1))
  if op == "mp":
    return p.mp_prefetch(grain.MultiprocessingOptions(num_workers=s["n"], per_worker_buffer_size=s.get("buf", 1)),
                         sequential_slice=s.get("seq", False))
  if op in ("ffit", "bfit"):
    cls = gexp.FirstFitPackIterDataset if op == "ffit" else gexp.BestFitPackIterDataset
    kw = {k: s[k] for k in ("seed", "shuffle_bins", "max_sequences_per_bin", "pack_alignment_struct", "padding_struct",
                            "meta_features", "shuffle_bins_group_by_feature") if s.get(k) is not None}
    return cls(p, length_struct=dict(s["len"]), num_packing_bins=s["bins"], **kw)
  if op == "cts":
    kw = {}
    if s.get("bos"):
      kw = dict(bos_handling=gexp.BOSHandling.REPLACE_FIRST_TOKEN_WITH_BOS, bos_features=tuple(s["bos"]), bos_token_id=7)
    return gexp.ConcatThenSplitIterDataset(p, length_struct=dict(s["len"]), split_full_length_features=s["split"],
                                           meta_features=tuple(s.get("meta", ())), **kw)
  raise ValueError(op)


# ----------------------------------------------------------------- reference model
class RM:
  """Random-access model: length and pure get(i)."""

  def __init__(self, n, get):
    self.n, self.get = n, get


class RI:
  """Iterator model: gen() makes a fresh Python iterator over the elements."""

  def __init__(self, gen):
    self.gen = gen


@functools.lru_cache(maxsize=4096)
def perm(seed, n, epoch):
  """The shuffle order as grain itself applies it to a range (bijectivity: C07)."""
  d = grain.MapDataset.range(n).shuffle(seed=seed)
  # Range wraps, so the epoch only selects the permutation.
  return tuple(int(d[epoch * n + i]) for i in range(n))


@functools.lru_cache(maxsize=4096)
def wperm(seed, w, window):
  """Window permutation as applied to one full window of a range."""
  big = grain.MapDataset.range((window + 1) * w)
  d = gexp.WindowShuffleMapDataset(big, window_size=w, seed=seed)
  return tuple(int(d[window * w + i]) - window * w for i in range(w))


@functools.lru_cache(maxsize=4096)
def iwperm(seed, w, total):
  d = gexp.WindowShuffleIterDataset(grain.MapDataset.range(total).to_iter_dataset(), window_size=w, seed=seed)
  return tuple(int(x) for x in d)


@functools.lru_cache(maxsize=4096)
def mixsel(lens, w):
  """Which (component, key) each index of a mixture selects, and its length."""
  class Tag:
    def __init__(self, c, n):
      self.c, self.n = c, n
    def __len__(self):
      return self.n
    def __getitem__(self, i):
      return (self.c, i)
  d = grain.MapDataset.mix([grain.MapDataset.source(Tag(c, n)) for c, n in enumerate(lens)],
                           list(w) if w is not None else None)
  return len(d)


def mix_choice(props, k):
  """(component, key) of position k, from the cumulative definition."""
  remaining = sum(props)
  a, b = k, k + 1
  for i, p in enumerate(props):
    na = (a * (remaining - p)) // remaining
    nb = (b * (remaining - p)) // remaining
    if (a - na) != (b - nb):
      return i, (b - nb) - 1
    remaining -= p
    a, b = na, nb
  raise AssertionError


@functools.lru_cache(maxsize=1024)
def mix_order(w, upto):
  """Component sequence of a mixture, observed on long component ranges."""
  n = upto + 1
  w = list(w)
  big = [grain.MapDataset.range(c * 10**9, c * 10**9 + 10**8) for c in range(len(w))]
  d = grain.MapDataset.mix(big, w)
  out = []
  for i in range(n):
    v = int(d[i])
    out.append((v // 10**9, v % 10**9))
  return tuple(out)


def windowed(f, n):
  return f


def model(s):
  op = s["op"]
  ins = [model(x) for x in s.get("in", [])]
  p = ins[0] if ins else None
  if op == "src":
    src = fns.Src(s["n"], s["base"], s["kind"])
    return RM(s["n"], lambda i: src.at(i % s["n"]))
  if op == "range":
    r = range(s["start"], s["stop"], s["step"])
    return RM(len(r), lambda i: r[i % len(r)])
  if op in ("seed", "delay", "idelay", "rdelay", "tprefetch", "cache"):
    return p
  if op in ("slice", "index"):
    a, b, st = slice(s["start"], s["stop"], s["step"]).indices(p.n)
    r = range(a, b, st)
    return RM(len(r), lambda i: p.get(r[i % len(r)] + (i // len(r)) * p.n))
  if op == "reindex":
    idx = list(s["idx"])
    return RM(len(idx), lambda i: p.get(idx[i % len(idx)] + (i // len(idx)) * p.n))
  if op == "filter":
    k = fns.Keep(s["m"], s["allow"])
    def get(i):
      e = p.get(i)
      return e if e is not None and k(e) else None
    return RM(p.n, get)
  if op == "boom":
    f = fns.Boom(s["bad"], s.get("exc", "UserBoom"))
    if isinstance(p, RM):
      return RM(p.n, lambda i: f(p.get(i)))
    return RI(lambda: (f(e) for e in p.gen()))
  if op in ("map", "wrap"):
    f = fns.Affine(s["b"]) if op == "map" else fns.Wrap(s["how"])
    def get(i):
      e = p.get(i)
      return None if e is None else f(e)
    return RM(p.n, get)
  if op == "mapidx":
    def get(i):
      e = p.get(i)
      return None if e is None else {"i": i, "e": e}
    return RM(p.n, get)
  if op == "shuffle":
    return RM(p.n, lambda i: p.get(perm(s["seed"], p.n, i // p.n)[i % p.n] + (i // p.n) * p.n))
  if op == "wshuffle":
    w = s["w"]
    return RM(p.n, lambda i: p.get(wperm(s["seed"], w, i // w)[i % w] + (i // w) * w))
  if op == "repeat":
    n = INF if s["k"] is None and p.n else (0 if s["k"] is None else p.n * s["k"])
    if s.get("reseed", True):
      return RM(n, p.get)
    return RM(n, lambda i: p.get(i % p.n))
  if op == "batch":
    bs = s["bs"]
    n = p.n // bs if s["drop"] else -(-p.n // bs)
    mk = _batcher(s)
    def get(i):
      ep, j = divmod(i, n)
      return mk([p.get(ep * p.n + t) for t in range(j * bs, min(p.n, (j + 1) * bs))])
    return RM(n, get)
  if op == "concat":
    ns = [x.n for x in ins]
    tot = sum(ns)
    def get(i):
      ep, j = divmod(i, tot)
      for x in ins:
        if j < x.n:
          return x.get(j + ep * x.n)
        j -= x.n
      raise AssertionError
    return RM(tot, get)
  if op == "mix":
    w = s.get("w") or [1] * len(ins)
    n = mixsel(tuple(x.n for x in ins), tuple(w))
    def get(i):
      c, k = mix_order(tuple(w), max(64, i))[i] if i < 200 else mix_order(tuple(w), 4000)[i]
      return ins[c].get(k)
    return RM(n, get)
  if op == "zip":
    return RM(p.n, lambda i: tuple(x.get(i) for x in ins))
  if op == "fan":
    f = fns.Fan(s["k"], s.get("full", False), s.get("salt", 0))
    def get(i):
      e = p.get(i // s["k"])
      if e is None:
        return None
      c = f.flat_map(e)
      return c[i % s["k"]] if i % s["k"] < len(c) else None
    return RM(p.n * s["k"] if p.n < INF // s["k"] else INF, get)
  # ---- iterators
  if op == "iter":
    nones = s.get("nones", False)
    def gen():
      i = 0
      while i < p.n:
        e = p.get(i)
        if e is not None or nones:
          yield e
        i += 1
    return RI(gen)
  if op == "ifilter":
    k = fns.Keep(s["m"], s["allow"])
    return RI(lambda: (e for e in p.gen() if k(e)))
  if op in ("imap", "iwrap"):
    f = fns.Affine(s["b"]) if op == "imap" else fns.Wrap(s["how"])
    return RI(lambda: (None if e is None else f(e) for e in p.gen()))
  if op == "imapidx":
    return RI(lambda: (None if e is None else {"i": i, "e": e} for i, e in enumerate(p.gen())))
  if op == "ibatch":
    mk, bs = _batcher(s), s["bs"]
    def gen():
      b = []
      for e in p.gen():
        b.append(e)
        if len(b) == bs:
          yield mk(b)
          b = []
      if b and not s["drop"]:
        yield mk(b)
    return RI(gen)
  if op == "limit":
    def gen():
      it = p.gen()
      for _ in range(s["k"]):
        try:
          yield next(it)
        except StopIteration:
          return
    return RI(gen)
  if op == "irepeat":
    def gen():
      k = 0
      while s["k"] is None or k < s["k"]:
        yield from p.gen()
        k += 1
    return RI(gen)
  if op == "izip":
    def gen():
      its = [x.gen() for x in ins]
      while True:
        out = []
        for it in its:
          try:
            out.append(next(it))
          except StopIteration:
            return
        yield tuple(out)
    return RI(gen)
  if op == "imix":
    w = tuple(s.get("w") or [1] * len(ins))
    def gen():
      its = [x.gen() for x in ins]
      k = 0
      while True:
        c = (mix_order(w, 200)[k] if k <= 200 else mix_order(w, 4000)[k])[0]
        try:
          yield next(its[c])
        except StopIteration:
          return
        k += 1
    return RI(gen)
  if op == "iwshuffle":
    def gen():
      es = list(p.gen())
      for j in iwperm(s["seed"], s["w"], len(es)) if es else ():
        yield es[j]
    return RI(gen)
  if op == "rebatch":
    def gen():
      buf = None
      for e in p.gen():
        buf = e if buf is None else _cat([buf, e])
        while _dim(buf) >= s["bs"]:
          yield _cut(buf, 0, s["bs"])
          buf = _cut(buf, s["bs"], None)
      if buf is not None and _dim(buf) and not s["drop"]:
        yield buf
    return RI(gen)
  if op == "ifan":
    f = fns.Fan(s["k"], s.get("full", False), s.get("salt", 0))
    return RI(lambda: (c for e in p.gen() for c in f.flat_map(e)))
  if op == "inter":
    def gen():
      kids = [x if isinstance(x, RI) else RI(functools.partial(_m_iter, x)) for x in ins]
      c = min(s["cycle"], len(kids))
      if not c:
        return
      slots, nxt, pos = [None] * c, 0, 0
      while True:
        if slots[pos] is not None:
          try:
            e = next(slots[pos])
          except StopIteration:
            slots[pos] = None
            pos = (pos + 1) % c
            continue
          yield e
          pos = (pos + 1) % c
        elif nxt < len(kids):
          slots[pos] = kids[nxt].gen()
          nxt += 1
        elif all(x is None for x in slots):
          return
        else:
          pos = (pos + 1) % c
    return RI(gen)
  raise ValueError(op)


def _m_iter(m):
  for i in range(m.n):
    e = m.get(i)
    if e is not None:
      yield e


def _batcher(s):
  if s.get("fn") == "list":
    return fns.ListBatch()
  if s.get("fn") == "pad":
    def pad(xs):
      b = fns.stack(xs)
      k = s["bs"] - len(xs)
      if not k:
        return b
      return fns.tmap(lambda l: np.concatenate([l, np.full((k,) + l.shape[1:], s.get("pad", 0), l.dtype)]), b)
    return pad
  return fns.stack


def _dim(b):
  return len(fns.leaves(b)[0])


def _cut(b, i, j):
  return fns.tmap(lambda l: l[i:j], b)


def _cat(bs):
  b0 = bs[0]
  if isinstance(b0, dict):
    return {k: _cat([b[k] for b in bs]) for k in b0}
  if isinstance(b0, (list, tuple)):
    vals = [_cat([b[j] for b in bs]) for j in range(len(b0))]
    return type(b0)(*vals) if hasattr(b0, "_fields") else type(b0)(vals)
  return np.concatenate(bs)


# ----------------------------------------------------------------- generator
class G:
  """Random spec generator.  Node attributes tracked outside the spec."""

  def __init__(self, rng, model_only=True, max_n=24, delays=0.0, mp=False, kinds=None, inf=True, tp=True,
               rand=None, deep=5):
    self.r = rng
    self.model_only = model_only   # no random_map (its values have no reference model)
    self.rand = (not model_only) if rand is None else rand
    self.max_n, self.delays, self.mp, self.inf, self.tp, self.deep = max_n, delays, mp, inf, tp, deep
    self.kinds = kinds or ["int", "np", "arr", "dict", "tuple", "var"]
    self.base = 0
    self.ops = set()

  def _base(self):
    self.base += 1000
    return self.base

  def source(self, kind=None, n=None):
    r = self.r
    kind = kind or r.choice(self.kinds)
    if n is None:
      n = r.choice([0, 1, 2, 3, 5, 7, 8, 12]) if r.random() < 0.4 else r.randint(1, self.max_n)
    if kind == "int" and r.random() < 0.3:
      st = r.choice([1, 2, 3, -1, -2])
      b = self._base() + (0 if st > 0 else 500)
      return {"op": "range", "start": b, "stop": b + n * st, "step": st}, dict(kind=kind, uni=True, sparse=False, n=n)
    return ({"op": "src", "n": n, "base": self._base(), "kind": kind, **({"bat": 1} if r.random() < 0.2 else {})},
            dict(kind=kind, uni=kind != "var", sparse=False, n=n))

  def mapds(self, depth=None, kind=None, n=None, sparse_ok=True):
    r = self.r
    depth = r.randint(0, self.deep) if depth is None else depth
    s, a = self.source(kind, n)
    for _ in range(depth):
      s, a = self._step(self.map_op, s, a, sparse_ok)
    return s, a

  _KEEPS_BATCH = frozenset("batch ibatch rebatch ifilter imap limit irepeat iwshuffle cache tprefetch slice index "
                           "shuffle repeat map filter reindex idelay delay iter".split())

  def _step(self, f, s, a, *args):
    t, b = f(s, a, *args)
    if t is not s and t["op"] not in self._KEEPS_BATCH:
      b = dict(b, batched=False)
    return t, b

  def map_op(self, s, a, sparse_ok=True):
    r = self.r
    c = ["slice", "index", "map", "shuffle", "repeat", "mapidx", "wrap", "concat", "reindex", "wshuffle", "zip"]
    if not a["sparse"]:
      c += ["batch", "batch"]
    if sparse_ok:
      c += ["filter", "filter", "fan"]
    if self.rand:
      c += ["randmap"]
    if a["n"] > 0:
      c += ["mix"]
    if self.delays and r.random() < self.delays:
      return {"op": "delay", "salt": r.randint(0, 99), "ms": r.choice([1, 3]), "every": r.choice([1, 2, 3]), "in": [s]}, a
    op = r.choice(c)
    a = dict(a)
    n = a["n"]
    self.ops.add(op)
    if n >= INF and op in ("slice", "index", "repeat", "batch", "concat", "reindex", "mix", "fan", "wshuffle", "zip", "shuffle"):
      return s, a
    if op in ("slice", "index"):
      v = lambda: r.choice([None, r.randint(-n - 2, n + 2)])
      st = r.choice([None, 1, 2, 3, -1, -2])
      node = {"op": op, "start": v(), "stop": v(), "step": st, "in": [s]}
      x = len(range(*slice(node["start"], node["stop"], st).indices(n)))
      a["n"] = x
      if x == 0 and r.random() < 0.8:   # keep some empties, not too many
        node["start"], node["stop"] = None, None
        a["n"] = len(range(*slice(None, None, st).indices(n)))
      return node, a
    if op == "reindex":
      if n == 0:
        return s, a
      idx = [r.randrange(n) for _ in range(r.randint(1, n + 2))]
      a["n"] = len(idx)
      return {"op": op, "idx": idx, "in": [s]}, a
    if op == "filter":
      m = r.choice([2, 3, 5])
      a["sparse"] = True
      return {"op": op, "m": m, "allow": sorted(r.sample(range(m), r.randint(1, m))), "in": [s]}, a
    if op == "map":
      return {"op": op, "b": r.randint(0, 5), "in": [s]}, a
    if op == "wrap":
      return {"op": op, "how": r.choice(["dict", "tuple", "list"]), "in": [s]}, a
    if op == "mapidx":
      return {"op": op, "in": [s]}, a
    if op == "randmap":
      return {"op": op, "seed": r.randint(0, 1000), "in": [s]}, a
    if op == "shuffle":
      return {"op": op, "seed": r.choice([0, 1, r.randint(0, 2**32 - 1), 2**32 - 1]), "in": [s]}, a
    if op == "wshuffle":
      # only windows dividing the length keep each epoch self-contained
      ws = [w for w in range(1, n + 1) if n % w == 0] or [1]
      return {"op": op, "w": r.choice(ws), "seed": r.randint(0, 1000), "in": [s]}, a
    if op == "repeat":
      if n > 60:
        return s, a
      k = r.choice([1, 2, 3])
      a["n"] = n * k
      return {"op": op, "k": k, "reseed": r.random() < 0.7, "in": [s]}, a
    if op == "batch":
      bs = r.randint(1, 5)
      drop = r.random() < 0.5
      fn = None
      if not a["uni"]:
        fn = "list"
      elif r.random() < 0.2:
        fn = "list"
      elif r.random() < 0.15 and not drop:
        fn = "pad"
      nn = n // bs if drop else -(-n // bs)
      if fn == "list" or (fn is None and not drop and n % bs):
        a["uni"] = False
      a["batched"] = fn is None
      a["n"] = nn
      return {"op": op, "bs": bs, "drop": drop, "fn": fn, "in": [s]}, a
    if op == "concat":
      # same spec type so uniformity is kept when both are int-likes
      ss, uni = [s], True
      for _ in range(r.randint(1, 2)):
        o, b = self.mapds(depth=r.randint(0, 1), kind=a["kind"], sparse_ok=False)
        ss.append(o)
        a["n"] += b["n"]
      r.shuffle(ss)
      a["uni"] = False
      return {"op": op, "in": ss}, a
    if op == "mix":
      ss = [s]
      ns = [n]
      for _ in range(r.randint(1, 2)):
        o, b = self.mapds(depth=r.randint(0, 1), kind=a["kind"], n=r.randint(1, 12), sparse_ok=False)
        if b["n"] > 0:
          ss.append(o)
          ns.append(b["n"])
      w = None if r.random() < 0.3 else [r.choice([1, 2, 3, 0.5, 0.25, 0.7, 0.1]) for _ in ss]
      a["uni"] = False
      a["n"] = mixsel(tuple(ns), tuple(w or [1] * len(ss)))
      return {"op": op, "w": w, "in": ss}, a
    if op == "zip":
      o, b = self.source(n=n)
      if b["n"] != n:
        return s, a
      a["uni"] = a["uni"] and b["uni"]
      # zip of a sparse parent yields tuples with None inside: keep out
      if a["sparse"]:
        return s, a
      return {"op": op, "in": [s, o]}, a
    if op == "fan":
      k = r.choice([1, 2, 3])
      if n > 80:
        return s, a
      a["n"] = n * k
      a["sparse"] = True
      return {"op": op, "k": k, "full": r.random() < 0.3, "salt": r.randint(0, 9), "in": [s]}, a
    raise AssertionError(op)

  def to_iter(self, s, a):
    r = self.r
    node = {"op": "iter", "in": [s]}
    t = r.random()
    if t < 0.35:
      node.update(threads=0, buf=0)
    elif t < 0.8:
      node.update(threads=r.choice([1, 2, 4, 16]), buf=r.choice([1, 2, 3, 5, 17]))
    return node, dict(a, inf=False)

  def iterds(self, depth=None, kind=None, n=None, mdepth=None, allowed=None):
    s, a = self.mapds(depth=self.r.randint(0, 3) if mdepth is None else mdepth, kind=kind, n=n)
    s, a = self.to_iter(s, a)
    depth = self.r.randint(0, self.deep) if depth is None else depth
    for _ in range(depth):
      s, a = self._step(self.iter_op, s, a, allowed)
    if a.get("inf"):
      s = {"op": "limit", "k": self.r.randint(1, 60), "in": [s]}
    return s, a

  def iter_op(self, s, a, allowed=None):
    r = self.r
    c = ["ifilter", "imap", "iwrap", "imapidx", "ibatch", "ibatch", "limit", "irepeat", "izip", "imix",
         "iwshuffle", "cache", "ifan", "inter"]
    if self.tp:
      c += ["tprefetch"]
    if a.get("batched"):
      c += ["rebatch"] * 3
    if self.rand:
      c += ["irandmap", "irandmap"]
    if allowed:
      c = [x for x in c if x in allowed]
    if self.delays and r.random() < self.delays:
      return {"op": "idelay", "salt": r.randint(0, 99), "ms": r.choice([1, 3]), "every": r.choice([1, 2, 3]), "in": [s]}, a
    op = r.choice(c)
    a = dict(a)
    self.ops.add(op)
    est = a["n"]
    if op == "ifilter":
      m = r.choice([2, 3, 5])
      if a.get("inf"):
        return s, a
      return {"op": op, "m": m, "allow": sorted(r.sample(range(m), r.randint(1, m))), "in": [s]}, a
    if op == "imap":
      return {"op": op, "b": r.randint(0, 5), "in": [s]}, a
    if op == "iwrap":
      return {"op": op, "how": r.choice(["dict", "tuple", "list"]), "in": [s]}, dict(a)
    if op == "imapidx":
      a["batched"] = False
      return {"op": op, "in": [s]}, a
    if op == "irandmap":
      a["batched"] = False
      return {"op": op, "seed": r.randint(0, 1000), "in": [s]}, a
    if op == "ibatch":
      bs = r.randint(1, 5)
      drop = r.random() < 0.5
      fn = None
      if not a["uni"]:
        fn = "list"
      elif r.random() < 0.15:
        fn = "list"
      elif r.random() < 0.15 and not drop:
        fn = "pad"
      a["uni"] = (fn is None and drop) or (a["uni"] and fn == "pad")
      a["batched"] = fn is None
      a["n"] = -(-est // bs)
      return {"op": op, "bs": bs, "drop": drop, "fn": fn, "in": [s]}, a
    if op == "rebatch":
      drop = r.random() < 0.5
      a["uni"] = drop
      a["n"] = est * 3
      return {"op": op, "bs": r.randint(1, 7), "drop": drop, "in": [s]}, a
    if op == "limit":
      k = r.randint(1, 40)
      a["inf"] = False
      a["n"] = k if a.get("inf") else min(est, k)
      return {"op": op, "k": k, "in": [s]}, a
    if op == "irepeat":
      if est > 60 or a.get("inf"):
        return s, a
      k = r.choice([1, 2, 3])
      a["n"] = est * k
      return {"op": op, "k": k, "in": [s]}, a
    if op == "izip":
      if a.get("inf"):
        return s, a
      o, b = self.iterds(depth=r.randint(0, 1), n=r.randint(0, 20))
      if b.get("inf"):
        return s, a
      a["uni"] = a["uni"] and b["uni"]
      a["batched"] = False
      ss = [s, o]
      r.shuffle(ss)
      return {"op": op, "strict": False, "in": ss}, a
    if op == "imix":
      if a.get("inf"):
        return s, a
      ss = [s]
      for _ in range(r.randint(1, 2)):
        o, b = self.iterds(depth=r.randint(0, 1), kind=a["kind"], n=r.randint(1, 15), mdepth=0)
        if not b.get("inf"):
          ss.append(o)
          a["n"] += b["n"]
      w = None if r.random() < 0.3 else [r.choice([1, 2, 3, 0.5, 0.25, 0.7, 0.1]) for _ in ss]
      a["uni"] = False
      a["batched"] = False
      return {"op": op, "w": w, "in": ss}, a
    if op == "iwshuffle":
      if a.get("inf"):
        return s, a
      return {"op": op, "w": r.randint(1, 9), "seed": r.randint(0, 1000), "in": [s]}, a
    if op == "cache":
      if a.get("inf"):
        return s, a
      return {"op": op, "in": [s]}, a
    if op == "ifan":
      k = r.choice([1, 2, 3])
      if est > 60:
        return s, a
      a["n"] = est * k
      a["batched"] = False
      return {"op": op, "k": k, "full": r.random() < 0.3, "salt": r.randint(0, 9), "in": [s]}, a
    if op == "tprefetch":
      return {"op": op, "buf": r.choice([1, 2, 5]), "in": [s]}, a
    if op == "inter":
      if a.get("inf") or est > 60:
        return s, a
      ss = [s]
      for _ in range(r.randint(1, 4)):
        o, b = self.iterds(depth=r.randint(0, 1), kind=a["kind"], n=r.randint(0, 8), mdepth=0)
        if not b.get("inf"):
          ss.append(o)
          a["n"] += b["n"]
      r.shuffle(ss)
      a["uni"] = False
      a["batched"] = False
      return {"op": op, "cycle": r.randint(1, 4), "mt": r.choice([1, 2]), "mb": r.choice([1, 2]), "ib": r.choice([0, 1, 3]) if False else r.choice([1, 2, 3]),
              "in": ss}, a
    raise AssertionError(op)


  # ---- packing
  def packnode(self, p, kind):
    """A packing node over tok-elements of the given kind."""
    r = self.r
    m = int(kind[3:].rstrip("sem"))
    feats = ["a", "b"] + (["c"] if "s" in kind[3:] else [])
    op = r.choice(["ffit", "bfit", "cts"])
    self.ops.add(op)
    if op == "cts":
      ln = {f: r.randint(max(2, m // 2), 2 * m) for f in feats}
      node = {"op": op, "len": ln, "split": r.random() < 0.5, "in": [p]}
      if "m" in kind[3:]:
        ln["m"] = r.randint(1, 6)
        node["meta"] = ["m"]
      if r.random() < 0.25:
        node["bos"] = r.choice([["a"], ["a", "b"]])
      return node
    ln = {f: r.randint(m, 3 * m) for f in feats}
    node = {"op": op, "len": ln, "bins": r.randint(1, 5), "seed": r.randint(0, 99), "in": [p]}
    if r.random() < 0.5:
      node["shuffle_bins"] = False
    elif r.random() < 0.3:
      node["shuffle_bins_group_by_feature"] = r.choice(["a", "b"])
    if r.random() < 0.4:
      node["max_sequences_per_bin"] = r.randint(1, 4)
    if r.random() < 0.3:
      node["pack_alignment_struct"] = {f: r.choice([1, 2, 4]) for f in ln}
    if r.random() < 0.3:
      node["padding_struct"] = {f: r.choice([0, -1, 9]) for f in ln}
    if "m" in kind[3:]:
      node["meta_features"] = ["m"]
    return node

  def packds(self, max_n=40, post=True):
    r = self.r
    kind = f"tok{r.choice([1, 3, 4, 8])}" + r.choice(["", "s", "e", "m", "sm", "em"])
    n = r.choice([0, 1, 2, 3]) if r.random() < 0.2 else r.randint(1, max_n)
    s = {"op": "src", "n": n, "base": self._base(), "kind": kind}
    if r.random() < 0.3:
      s = {"op": "shuffle", "seed": r.randint(0, 9), "in": [s]}
    if r.random() < 0.3:
      s = {"op": "repeat", "k": 2, "in": [s]}
    s, a = self.to_iter(s, dict(kind=kind, uni=False, sparse=False, n=n))
    if r.random() < 0.3:
      s = {"op": "ifilter", "m": 3, "allow": [0, 1], "in": [s]}
    if r.random() < 0.2:
      s = {"op": "tprefetch", "buf": r.choice([1, 3]), "in": [s]}
    s = self.packnode(s, kind)
    if post:
      t = r.random()
      if t < 0.2:
        s = {"op": "tprefetch", "buf": r.choice([1, 3]), "in": [s]}
      elif t < 0.35:
        s = {"op": "irepeat", "k": 2, "in": [s]}
      elif t < 0.45:
        s = {"op": "limit", "k": r.randint(1, 12), "in": [s]}
      elif t < 0.55:
        s = {"op": "ibatch", "bs": r.randint(1, 3), "drop": r.random() < 0.5, "fn": None if "m" not in kind[3:] else "list", "in": [s]}
      elif t < 0.65:
        s = {"op": "iwshuffle", "w": r.randint(1, 4), "seed": 3, "in": [s]}
      elif t < 0.75:
        s = {"op": "ifan", "k": 2, "full": True, "salt": 1, "in": [s]}
      elif t < 0.85:
        s = {"op": "cache", "in": [s]}
    return s


def ops_of(s, out=None):
  out = [] if out is None else out
  out.append(s["op"])
  for x in s.get("in", []):
    ops_of(x, out)
  return out


def total(spec, cap=400):
  """Reference element list of an iterator spec (capped)."""
  it = model(spec).gen()
  out = []
  for _ in range(cap):
    try:
      out.append(next(it))
    except StopIteration:
      return out, True
  return out, False
