"""C11: packing conserves every token within the capacity limits.

Every example has contents that identify it. An offline decoder reads the emitted rows (values, segment ids, positions),
rebuilds the parts of examples they claim to hold and accounts for every token of every example exactly once. The
documented placement rules (first bin that fits, tightest bin, a new batch only when nothing fits) are checked against
the decoded rows.
"""
import collections

import grain
import numpy as np
from grain import experimental as gexp
from grain._src.python import record

from gv import core, fns

DT = ["i8", "i8", "i4", "u1", "f4", "f8", "?", "U", "S", "c16", "M8[s]", "f2"]


class Examples:
  """Random-access source of examples; `dt` and `trail` give dtype and trailing shape per feature."""

  def __init__(self, lens, dt, trail, salt=0):
    self.lens, self.dt, self.trail, self.salt = lens, dt, trail, salt

  def __len__(self):
    return len(self.lens)

  def __getitem__(self, u):
    u = int(u)
    return {f: feature(u, f, n, self.dt[f], self.trail.get(f, ())) for f, n in self.lens[u].items()}

  def __repr__(self):
    return f"Examples({len(self.lens)},{self.salt})"


def feature(u, f, n, dt, trail):
  """Feature `f` of example `u`: n tokens; n is None for a scalar, 'id' features hold the example number."""
  if dt == "id":
    return u
  if dt == "str":
    return "x" * (u % 7) + str(u)
  if dt == "list":
    return np.arange(u, u + n)
  size = 1 if n is None else n
  fi = sum(map(ord, f)) % 5
  base = 1 + (u * 5 + fi) * 64 + np.arange(size).reshape((size,) + (1,) * len(trail))
  base = base + np.zeros(trail, int) if trail else base
  if trail:
    base = base * 10 + np.arange(int(np.prod(trail))).reshape(trail)
  if dt == "U":
    a = np.array([str(x) for x in base.ravel()], dtype=str if size else "U1").reshape(base.shape)
  elif dt == "S":
    a = np.array([str(x).encode() for x in base.ravel()], dtype=bytes if size else "S1").reshape(base.shape)
  elif dt == "?":
    a = base % 3 == 0
  elif dt == "c16":
    a = base.astype("c16") * (1 + 2j)
  elif dt == "py":
    return int(base.ravel()[0])
  else:
    a = (base % 200 if dt in ("u1", "f2") else base).astype(dt)
  return a[0] if n is None else a


def tokens(x):
  """The feature as the sequence of tokens it stands for."""
  return np.asarray(x)[None] if np.ndim(x) == 0 else np.asarray(x)


def key(a):
  return tuple(map(repr, np.asarray(a).tolist()))


def zero(dt):
  return np.zeros((), dt)[()]


def gen_lens(rng, n, feats, caps, scalar, over=0.0):
  out = []
  style = rng.choice(["any", "any", "small", "full", "zero"])
  for _ in range(n):
    e = {}
    for f in feats:
      c = caps[f]
      if f in scalar:
        e[f] = None
        continue
      x = rng.random()
      if style == "full" and x < 0.5 or x < 0.08:
        e[f] = c
      elif style == "zero" and x < 0.5 or x > 0.93:
        e[f] = 0
      elif style == "small":
        e[f] = rng.randint(0, max(1, c // 3))
      else:
        e[f] = rng.randint(0, c)
      if over and rng.random() < over:
        e[f] = c + rng.randint(1, 2 * c)
    out.append(e)
  return out


def config(rng, over=0.0, nmax=40):
  feats = ["a", "b", "cc"][:rng.choice([1, 2, 2, 3])]
  caps = {f: rng.randint(1, 12) for f in feats}
  scalar = {f for f in feats if rng.random() < 0.08}
  n = rng.choice([0, 1, 2, 3]) if rng.random() < 0.1 else rng.randint(1, nmax)
  dt = {f: rng.choice(DT) for f in feats}
  if rng.random() < 0.85:
    dt["a"] = "i8"
  for f in scalar:
    if rng.random() < 0.4:
      dt[f] = "py"
  trail = {f: rng.choice([(2,), (1, 3), (0,)]) for f in feats if rng.random() < 0.2 and f not in scalar and dt[f] in
           ("i8", "f8", "i4")}
  return feats, caps, scalar, gen_lens(rng, n, feats, caps, scalar, over), dt, trail


# ------------------------------------------------------------------------------------------ decoding of packed rows


def decode(ctx, row, feats, caps, align=None, pad=None, seg=None, pos=None, what="row"):
  """Parts of the examples in a packed row: list of {feature: tokens} for segments 1, 2, ..."""
  parts = collections.defaultdict(dict)
  for f in feats:
    v = np.asarray(row[f])
    s = row[f"{f}_segment_ids"] if seg is None else seg[f]
    p = row[f"{f}_positions"] if pos is None else pos[f]
    ctx.check(len(v) == len(s) == len(p) == caps[f], "capacity",
              f"{what}: feature {f} has {len(v)} values, {len(s)} segment ids, {len(p)} positions for capacity {caps[f]}")
    s, p = [int(x) for x in s], [int(x) for x in p]
    i = 0
    while i < len(s):
      if s[i] == 0:
        want = zero(v.dtype) if pad is None or pad.get(f) is None else pad[f]
        same = np.all(v[i] == np.asarray(want).astype(v.dtype)) if v.dtype.kind != "M" or pad is None else True
        ctx.check(bool(same) and p[i] == 0, "padding",
                  f"{what}: feature {f} is not padded at {i}: {v[i]!r} position {p[i]}")
        i += 1
        continue
      j = i
      while j < len(s) and s[j] == s[i]:
        j += 1
      ctx.check(s[i] > 0 and f not in parts[s[i]], "segments", f"{what}: segment {s[i]} of {f} appears twice: {s}")
      ctx.check(p[i:j] == list(range(j - i)), "positions", f"{what}: positions of {f} segment {s[i]} are {p[i:j]}")
      if align and align.get(f):
        ctx.check(i % align[f] == 0, "alignment", f"{what}: a part of {f} starts at {i}, alignment {align[f]}")
      parts[s[i]][f] = v[i:j]
      i = j
    ids = [x for k, x in enumerate(s) if x and (k == 0 or s[k - 1] != x)]
    ctx.check(ids == sorted(ids), "segments", f"{what}: segments of {f} are out of order: {s}")
  n = max(parts, default=0)
  ctx.count("parts_decoded", n)
  return [{f: parts[k].get(f, np.zeros((0,))) for f in feats} if k in parts else None for k in range(1, n + 1)]


def content(part, feats, extra=()):
  return tuple(key(part[f]) for f in feats) + tuple(extra)


def take_rows(ctx, ds, rng, feats):
  """All rows; some are produced by a restored iterator."""
  it = iter(ds)
  rows = []
  stop = rng.randint(0, 30) if rng.random() < 0.4 else -1
  while True:
    if len(rows) == stop:
      st = it.get_state()
      it = iter(ds)
      if rng.random() < 0.3:
        for _ in range(3):
          next(it, None)
      it.set_state(st)
      ctx.count("restored_midway")
    try:
      rows.append(next(it))
    except StopIteration:
      return rows
    ctx.beat()


# ------------------------------------------------------------------------------------------ first fit and best fit


def binpack(ctx, rng):
  best = rng.random() < 0.5
  feats, caps, scalar, lens, dt, trail = config(rng)
  bins = rng.choice([1, 2, 3, 4, 6, 10])
  kw = {}
  align = pad = None
  if rng.random() < 0.35:
    align = kw["pack_alignment_struct"] = {f: rng.choice([1, 2, 3, 4]) for f in feats}
  if rng.random() < 0.35 and all(dt[f] in ("i8", "i4", "f4", "f8", "py", "c16") for f in feats):
    pad = kw["padding_struct"] = {f: rng.choice([0, -1, 9]) for f in feats}
  most = None
  if rng.random() < 0.45:
    most = kw["max_sequences_per_bin"] = rng.randint(1, 4)
  shuffle = rng.random() < 0.5
  if not shuffle:
    kw["shuffle_bins"] = False
  else:
    kw["seed"] = rng.randint(0, 99)
    if rng.random() < 0.3 and dt["a"] in ("i8", "i4", "f4") and "a" not in trail:
      kw["shuffle_bins_group_by_feature"] = "a"
  metas, seqmeta, cap = [], [], dict(caps)
  fd = dict(dt)
  if rng.random() < 0.6:
    fd["m"] = rng.choice(["id", "id", "str", "list"])
    metas.append("m")
  if rng.random() < 0.3:
    fd["q"] = "i8"
    metas.append("q")
    seqmeta.append("q")
    cap["q"] = rng.randint(1, 8)
    if align:
      align["q"] = 1
    if pad is not None:
      pad["q"] = 0
  for u, e in enumerate(lens):
    if "m" in fd:
      e["m"] = u % 4
    if "q" in fd:
      e["q"] = rng.randint(0, cap["q"])
    if rng.random() < 0.3:
      e["unused"] = 2
      fd["unused"] = "i8"
  if any("unused" in e for e in lens):
    for e in lens:
      e.setdefault("unused", 1)
  if metas:
    kw["meta_features"] = tuple(metas)
  rng.shuffle(items := list(cap.items()))
  src = Examples(lens, fd, trail, rng.random())
  ctx.describe(best=best, lens=lens, dt=fd, trail=trail, bins=bins, cap=cap, kw={k: v for k, v in kw.items()})
  ctx.sig([best, [[e[f] for f in feats] for e in lens], bins, caps, sorted(kw)])
  ctx.sample(["bfit" if best else "ffit", [[e[f] for f in feats] for e in lens][:6], bins, caps, sorted(kw)])
  ds = grain.MapDataset.source(src).to_iter_dataset()
  how = rng.choice(["plain", "plain", "tprefetch", "mid"])
  if how == "tprefetch":
    ds = gexp.ThreadPrefetchIterDataset(ds, prefetch_buffer_size=2)
  cls = gexp.BestFitPackIterDataset if best else gexp.FirstFitPackIterDataset
  ds = cls(ds, length_struct=dict(items), num_packing_bins=bins, **kw)
  rows = [core.snap(r) for r in take_rows(ctx, ds, rng, feats)]
  ctx.count("rows", len(rows))
  nonseq = [m for m in metas if m not in seqmeta]
  es = [src[u] for u in range(len(lens))]
  full = [{f: tokens(e[f]) for f in list(feats) + seqmeta} | {m: e[m] for m in nonseq} for e in es]
  left = collections.defaultdict(list)
  for u, e in enumerate(full):
    if nonseq or any(len(e[f]) for f in feats):
      left[content(e, feats, [repr(np.asarray(e[m]).tolist()) for m in nonseq])].append(u)
  total = sum(map(len, left.values()))
  unique = all(len(us) == 1 for us in left.values())
  placed = []
  for r, row in enumerate(rows):
    wantkeys = {x for f in feats for x in (f, f"{f}_segment_ids", f"{f}_positions")} | set(metas)
    ctx.check(set(row) == wantkeys, "features", f"row has features {sorted(row)}, not {sorted(wantkeys)}")
    parts = decode(ctx, row, feats, caps, align, pad, what=f"row {r}")
    if nonseq:
      k = len(row[nonseq[0]])
      ctx.check(len(parts) <= k, "meta", f"row {r} has {len(parts)} segments for {k} meta values")
      parts += [None] * (k - len(parts))
      parts = [p or {f: np.zeros((0,)) for f in feats} for p in parts]
    ids = []
    for j, p in enumerate(parts):
      if p is None:
        continue  # an example without any token; only its number is used up
      c = content(p, feats, [repr(np.asarray(row[m][j]).tolist()) for m in nonseq])
      ctx.check(left.get(c), "token-conservation",
                f"row {r} segment {j + 1} holds {str(c)[:300]}, which is no whole example not yet emitted")
      ids.append(left[c].pop(0))
      for f in feats:
        ctx.check(not len(p[f]) or p[f].dtype == row[f].dtype, "dtype", "dtype changed")
    if most is not None:
      ctx.check(len(parts) <= most, "max-sequences", f"row {r} holds {len(parts)} sequences, limit {most}")
    ctx.check(len(parts) > 0 or any(not any(len(e[f]) for f in feats) for e in full), "empty-row", f"row {r} is empty")
    if unique and ids != sorted(set(ids)):
      ctx.fail("order-in-row", f"examples in row {r} are in order {ids}")
    if seqmeta and unique and (nonseq or all(p is not None for p in parts)) and all(
        any(len(e[f]) for f in feats) for e in full):
      want = np.concatenate([full[u]["q"] for u in ids] or [np.zeros(0, "i8")])
      want = np.concatenate([want, np.zeros(cap["q"] - len(want), "i8")])
      if not (align and align.get("q", 1) > 1):
        ctx.check(key(want) == key(row["q"]), "meta", f"row {r} has meta sequence {row['q']}, expected {want}")
    placed.append(ids)
  missing = [u for us in left.values() for u in us]
  ctx.check(not missing, "token-conservation", f"{len(missing)} of {total} examples are in no row: {missing[:10]}")
  ctx.count("examples", total)
  for f in feats:
    for row in rows:
      t = tokens(es[0][f])
      ctx.check(np.asarray(row[f]).shape[1:] == t.shape[1:], "shape", f"{f}: {np.asarray(row[f]).shape}")
      if dt[f] not in ("U", "S", "py"):
        ctx.check(np.asarray(row[f]).dtype == t.dtype, "dtype", f"{f}: {np.asarray(row[f]).dtype} instead of {t.dtype}")
  if unique and (nonseq or all(any(len(e[f]) for f in feats) for e in full)):
    placement(ctx, full, list(feats) + seqmeta, cap, align, bins, most, placed, best, shuffle)


def placement(ctx, full, feats, cap, align, bins, most, placed, best, shuffle):
  """Checks the documented packing rule against the decoded rows."""
  rowof = {u: r for r, ids in enumerate(placed) for u in ids}
  start = 0  # first row of the batch being packed
  u, n = 0, len(full)
  batch_of = []

  def fits(state, u):
    free, k = state
    if most is not None and k >= most:
      return False
    return all(free[f] + len(full[u][f]) <= cap[f] for f in feats)

  empty = lambda: ({f: 0 for f in feats}, 0)
  while u < n:
    states = [empty() for _ in range(bins)]  # bins in the order of their first use
    rows = []
    while u < n:
      ok = [b for b in range(bins) if fits(states[b], u)]
      if not ok:
        break
      r = rowof[u]
      if r not in rows:
        rows.append(r)
        ctx.check(len(rows) <= bins, "too-many-bins", f"example {u} is in a new row although the batch has {bins} bins")
      b = rows.index(r)
      ctx.check(b in ok, "placement", f"example {u} was put in a row it does not fit")
      if best:
        score = lambda x: sum(states[x][0].values())
        ctx.check(score(b) == max(map(score, ok)), "best-fit", f"example {u} was not put in the tightest bin")
      else:
        ctx.check(b == ok[0], "first-fit", f"example {u} was put in bin {b}; the first that fits is {ok[0]}")
      free, k = states[b]
      for f in feats:
        a = (align or {}).get(f, 1)
        free[f] = -(-(free[f] + len(full[u][f])) // a) * a
      states[b] = (free, k + 1)
      u += 1
    ctx.check(sorted(rows) == list(range(start, start + len(rows))), "batch-order",
              f"rows {rows} do not follow the {start} rows of earlier batches")
    if not shuffle:
      ctx.check(rows == sorted(rows), "bin-order", f"bins are emitted in order {rows} without shuffling")
    start += len(rows)
    ctx.count("batches_checked")
    if not rows:
      break
  ctx.check(start == len(placed), "extra-rows", f"{len(placed) - start} rows too many")


def too_long(ctx, rng):
  """Examples longer than the row are refused, elements before them are kept."""
  feats, caps, scalar, lens, dt, trail = config(rng, nmax=10)
  if not lens:
    return
  bad = rng.randrange(len(lens))
  f = rng.choice([x for x in feats])
  if f in scalar:
    return
  lens[bad][f] = caps[f] + rng.randint(1, 5)
  src = Examples(lens, dt, trail)
  ctx.describe(too_long=bad, lens=lens, caps=caps)
  cls = rng.choice([gexp.BestFitPackIterDataset, gexp.FirstFitPackIterDataset])
  it = iter(cls(grain.MapDataset.source(src).to_iter_dataset(), length_struct=caps, num_packing_bins=rng.randint(1, 3)))
  try:
    for _ in it:
      pass
  except ValueError:
    ctx.count("refused")
    return
  ctx.fail("too-long", f"example {bad} of lengths {lens[bad]} was packed into rows of {caps}")


# ------------------------------------------------------------------------------------------ concat then split


def cts(ctx, rng):
  feats, caps, scalar, lens, dt, trail = config(rng, over=rng.choice([0, 0.1, 0.5]))
  n = len(lens)
  kw, fd, cap = {}, dict(dt), dict(caps)
  meta = rng.random() < 0.5
  if meta:
    fd["m"] = "i8"
    cap["m"] = rng.choice([1, 2, 4, 30])
    mfix = rng.random() < 0.6
    for e in lens:
      e["m"] = 1 if mfix else rng.randint(1, min(2, cap["m"]))
    kw["meta_features"] = rng.choice([("m",), ["m"], {"m"}])
  keep = rng.random() < 0.4
  if keep:
    kw["split_full_length_features"] = False
  bos = None
  if rng.random() < 0.25:
    bf = [f for f in feats if dt[f] in ("i8", "i4", "f8") and f not in trail]
    if bf:
      bos = bf[:rng.randint(1, len(bf))]
      kw.update(bos_handling=gexp.BOSHandling.REPLACE_FIRST_TOKEN_WITH_BOS, bos_features=tuple(bos), bos_token_id=-7)
  src = Examples(lens, fd, trail, rng.random())
  ctx.describe(cts=True, lens=lens, dt=fd, trail=trail, cap=cap, kw=kw)
  ctx.sig(["cts", [[e[f] for f in feats] for e in lens], caps, sorted(kw)])
  ctx.sample(["cts", [[e[f] for f in feats] for e in lens][:6], caps, sorted(kw)])
  rng.shuffle(items := list(cap.items()))
  ds = grain.MapDataset.source(src).to_iter_dataset()
  if rng.random() < 0.2:
    ds = gexp.ThreadPrefetchIterDataset(ds, prefetch_buffer_size=2)
  ds = gexp.ConcatThenSplitIterDataset(ds, length_struct=dict(items), **kw)
  rows = [core.snap(r) for r in take_rows(ctx, ds, rng, feats)]
  ctx.count("rows", len(rows))
  ctx.count("cts_rows", len(rows))
  es = [src[u] for u in range(n)]
  full = [{f: tokens(e[f]) for f in cap} for e in es]
  visible = [any(len(e[f]) for f in feats) for e in full]
  metaid = {int(t): u for u, e in enumerate(full) for t in e["m"]} if meta else {}
  done = [{f: 0 for f in feats} for _ in range(n)]  # tokens of each example already emitted
  owner = {}  # (feature, token) -> example, for features whose tokens are unique
  for f in feats:
    if dt[f] in ("i8", "py", "U", "S") and f not in trail:
      for u, e in enumerate(full):
        for t in e[f].tolist():
          owner[f, t] = u
  last = -1
  order = []
  undecided = []
  for r, row in enumerate(rows):
    wantkeys = {x for f in feats for x in (f, f"{f}_segment_ids", f"{f}_positions")} | ({"m"} if meta else set())
    ctx.check(set(row) == wantkeys, "features", f"row has features {sorted(row)}, not {sorted(wantkeys)}")
    parts = decode(ctx, row, feats, caps, what=f"row {r}")
    who = [None] * len(parts)
    if meta:
      ms = [int(x) for x in row["m"]]
      while ms and ms[-1] == 0:
        ms.pop()
      ctx.check(all(x in metaid for x in ms) and len(row["m"]) == cap["m"], "meta", f"row {r}: meta values {ms}")
      seq, k = [], 0
      while k < len(ms):
        u = metaid[ms[k]]
        w = [int(x) for x in full[u]["m"]]
        ctx.check(ms[k:k + len(w)] == w, "meta", f"row {r}: meta values {ms} split those of an example")
        seq.append(u)
        k += len(w)
      ctx.check(len(seq) >= len(parts), "meta", f"row {r}: {len(parts)} parts but meta values of {len(seq)} examples")
      who = seq
      parts += [None] * (len(seq) - len(parts))
    ids = []
    for j, p in enumerate(parts):
      if p is None and not meta:
        continue
      p = p or {f: np.zeros((0,)) for f in feats}
      u = who[j]
      if u is None:
        for f in feats:
          ts = p[f].tolist()[1 if bos and f in bos else 0:]
          if ts and f not in trail and (f, ts[0]) in owner:
            u = owner[f, ts[0]]
            break
      if u is None:
        # Not identifiable by its contents: only the next unfinished example in stream order can be meant.
        undecided.append(r)
        u = next((x for x in range(n) if visible[x] and any(done[x][f] < len(full[x][f]) for f in feats)), None)
        if keep or u is None or bos:
          return ctx.count("undecided")
      for f in feats:
        have = p[f]
        want = full[u][f][done[u][f]:done[u][f] + len(have)]
        if bos and f in bos and len(have):
          ctx.check(have[0] == -7, "bos", f"row {r} segment {j + 1} of {f} starts with {have[0]!r}")
          have, want = have[1:], want[1:]
          ctx.check(len(want) == len(have), "token-conservation", f"row {r}: too many tokens of example {u}")
        ctx.check(key(have) == key(want), "token-conservation",
                  f"row {r} segment {j + 1}: {f} holds {key(have)}, the next of example {u} are {key(want)}")
        done[u][f] += len(p[f])
      ids.append(u)
    ctx.check(len(set(ids)) == len(ids), "segments", f"row {r} has several parts of one example: {ids}")
    if not keep:
      ctx.check(ids == sorted(ids) and (not ids or ids[0] >= last), "order", f"row {r} holds examples {ids} after {last}")
      last = ids[-1] if ids else last
    order.append(ids)
  miss = [(u, f) for u in range(n) for f in feats if done[u][f] != len(full[u][f])]
  ctx.check(not miss, "token-conservation", f"tokens of {miss[:5]} were not emitted")
  ctx.count("examples", n)
  ctx.count("tokens", sum(len(e[f]) for e in full for f in feats))
  if not keep and not meta:
    for r, row in enumerate(rows[:-1]):
      ctx.check(any(int(row[f"{f}_segment_ids"][-1]) > 0 for f in feats), "not-full",
                f"row {r} of {len(rows)} has no full feature")
    ctx.count("full_rows", max(0, len(rows) - 1))
  if len(feats) == 1 and not keep and not meta:
    f = feats[0]
    tot = sum(len(e[f]) for e in full)
    ctx.check(len([r for r in rows if int(np.max(r[f"{f}_segment_ids"], initial=0)) > 0]) == -(-tot // caps[f]), "row-count",
              f"{tot} tokens are in {len(rows)} rows of {caps[f]}")
  if keep and not bos:  # full-length examples are passed through whole
    for r, row in enumerate(rows):
      for u in order[r] if r < len(order) else []:
        e = full[u]
        if all(len(e[f]) <= caps[f] for f in cap if f != "m") and any(len(e[f]) == caps[f] for f in feats) and (
            not meta or len(e["m"]) <= cap["m"]):
          ctx.check(order[r] == [u] and all(len(e[f]) == np.count_nonzero(row[f"{f}_segment_ids"]) for f in feats),
                    "full-length", f"full-length example {u} was split or mixed: row {r} holds {order[r]}")
          ctx.count("passed_through")


def cts_bad(ctx, rng):
  """Structures that do not match are refused."""
  feats = ["a", "b"]
  lens = [{"a": 2, "b": 3} for _ in range(4)]
  src = Examples(lens, {"a": "i8", "b": "i8"}, {})
  ls = rng.choice([{"a": 4}, {"a": 4, "b": 4, "c": 4}])
  ctx.describe(cts_bad=ls)
  try:
    list(gexp.ConcatThenSplitIterDataset(grain.MapDataset.source(src).to_iter_dataset(), length_struct=ls))
  except ValueError:
    return ctx.count("refused")
  ctx.fail("structure", f"elements with features {feats} were packed with capacities for {sorted(ls)}")


# ------------------------------------------------------------------------------------------ the DataLoader operation


def legacy(ctx, rng):
  feats, caps, scalar, lens, dt, trail = config(rng)
  for e in lens:
    for f in scalar:
      e[f] = rng.randint(0, caps[f])
  dt = {f: "i8" if d in ("py", "U", "S") else d for f, d in dt.items()}
  bs = rng.choice([1, 2, 3, 5])
  most = rng.choice([None, None, 1, 2, 3])
  src = Examples(lens, dt, trail, rng.random())
  ctx.describe(legacy=True, lens=lens, dt=dt, trail=trail, caps=caps, bs=bs, most=most)
  ctx.sig(["legacy", [[e[f] for f in feats] for e in lens], bs, caps, most])
  op = grain.experimental.PackAndBatchOperation(length_struct=caps, batch_size=bs, max_sequences_per_bin=most) if hasattr(
      grain.experimental, "PackAndBatchOperation") else PACK(length_struct=caps, batch_size=bs, max_sequences_per_bin=most)
  loader = rng.random() < 0.5 and len(lens) > 0
  runs = []
  if loader:
    dl = grain.DataLoader(
        data_source=src, sampler=grain.samplers.SequentialSampler(len(lens), shard_options=grain.sharding.NoSharding()),
        operations=[op], worker_count=0)
    for _ in range(2):
      runs.append(list(dl))
  else:
    for _ in range(2):
      recs = [record.Record(record.RecordMetadata(index=u, record_key=u), src[u]) for u in range(len(lens))]
      runs.append([r.data for r in op(iter(recs))])
  full = [{f: tokens(src[u][f]) for f in feats} for u in range(len(lens))]
  for k, out in enumerate(runs):
    left = collections.defaultdict(list)
    for u, e in enumerate(full):
      if any(len(e[f]) for f in feats):
        left[content(e, feats)].append(u)
    unique = all(len(us) == 1 for us in left.values())
    rows = 0
    for vals, seg, pos in out:
      for r in range(bs):
        rows += 1
        sel = lambda t: {f: np.asarray(t[f])[r] for f in feats}
        parts = decode(ctx, sel(vals), feats, caps, seg=sel(seg), pos=sel(pos), what=f"run {k} batch row {rows}")
        ctx.check(most is None or len(parts) <= most, "max-sequences", f"{len(parts)} sequences in a row, limit {most}")
        ids = []
        for p in parts:
          if p is None:
            continue
          c = content(p, feats)
          ctx.check(left.get(c), "token-conservation", f"run {k}: a row holds {str(c)[:200]}, no example left to emit")
          ids.append(left[c].pop(0))
        ctx.check(not unique or ids == sorted(ids), "order-in-row", f"examples in a row are in order {ids}")
    miss = [u for us in left.values() for u in us]
    ctx.check(not miss, "token-conservation", f"run {k}: examples {miss[:10]} were not emitted")
    ctx.count("legacy_rows", rows)
    ctx.count("rows", rows)
    ctx.count("examples", len(full))


from grain._src.python.experimental.example_packing import packing as _packing  # noqa: E402  pylint: disable=wrong-import-position

PACK = _packing.PackAndBatchOperation


def case(ctx, i, rng):
  k = rng.random()
  if k < 0.45:
    return binpack(ctx, rng)
  if k < 0.80:
    return cts(ctx, rng)
  if k < 0.92:
    return legacy(ctx, rng)
  if k < 0.98:
    return too_long(ctx, rng)
  return cts_bad(ctx, rng)
