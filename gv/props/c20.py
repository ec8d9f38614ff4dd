"""C20: sources return exactly their records.

Random files are generated (the writers are pyarrow, array_record and an own TFRecord writer), so every record is known;
sources are read in many ways - random access, streaming, by threads, copies and worker processes, restored at random
positions - and every record read is compared with what was written.
"""
import dataclasses
import json
import os
import pathlib
import pickle
import random
import shutil
import struct
import subprocess
import sys
import tempfile
import threading

import cloudpickle
import grain
from grain import experimental as gexp
from grain import sources
import numpy as np

from gv import core
from gv.core import take


class Dir:
  def __enter__(self):
    self.d = tempfile.mkdtemp(prefix="gv_c20_")
    return self.d

  def __exit__(self, *a):
    shutil.rmtree(self.d, ignore_errors=True)


def compare(ctx, got, want, key, what):
  ctx.count("oracle_checks")
  ctx.count("records", len(want))
  if not core.same_seq(got, want):
    ctx.fail(key, f"{what}: {json.dumps(core.first_diff(got, want))[:300]}")


def random_access(ctx, rng, src, want, what, bounds=True):
  """src[i] for all keys in random order, by key types, again and by several threads."""
  n = len(want)
  ctx.check(len(src) == n, "length", f"{what}: len() is {len(src)}, {n} records")
  keys = [k for k in range(n) for _ in range(rng.choice([1, 2]))]
  rng.shuffle(keys)
  keys = keys[:80]
  t = rng.choice([int, np.int64, np.int32])
  compare(ctx, [src[t(k)] for k in keys], [want[k] for k in keys], "record", f"{what}: random access by {t.__name__}")
  if n and rng.random() < 0.4:
    bad = []

    def work(seed):
      r = random.Random(seed)
      for _ in range(15):
        k = r.randrange(n)
        try:
          x = src[k]
        except BaseException as e:  # pylint: disable=broad-except
          bad.append((k, repr(e)))
          return
        if not core.same(x, want[k]):
          bad.append((k, x))
    ts = [threading.Thread(target=work, args=(rng.random(),)) for _ in range(rng.choice([2, 6]))]
    for x in ts:
      x.start()
    for x in ts:
      x.join()
    ctx.check(not bad, "concurrent-record", f"{what}: concurrent reads gave {str(bad[:1])[:300]}")
    ctx.count("concurrent_reads", 15 * len(ts))
  if bounds:
    for k in (n, n + 1, n + rng.randint(2, 1000), -1 - n - rng.randint(1, 9)):
      try:
        x = src[k]
      except (IndexError, ValueError):
        ctx.count("refused")
      else:
        ctx.fail("out-of-range", f"{what}: key {k} of {n} records gave {str(x)[:100]}")


def pipelines(ctx, rng, src, want, what, mp=False):
  """The source in datasets and loaders."""
  n = len(want)
  ds = grain.MapDataset.source(src)
  compare(ctx, list(ds), want, "record", f"{what}: iterating a dataset")
  if not n:
    return
  idx = [rng.randrange(-n, 3 * n) for _ in range(12)]
  compare(ctx, [ds[i] for i in idx], [want[i % n] for i in idx], "record", f"{what}: dataset indices {idx}")
  compare(ctx, list(ds._getitems([i % n for i in idx])), [want[i % n] for i in idx], "record", f"{what}: batched read")
  a, b, c = rng.randint(0, n), rng.randint(0, n), rng.choice([1, 2, 3, -1, -2])
  compare(ctx, list(ds[a:b:c]), want[a:b:c], "record", f"{what}: slice {a}:{b}:{c}")
  it_ds = ds.to_iter_dataset(grain.ReadOptions(num_threads=rng.choice([0, 1, 5, 16]), prefetch_buffer_size=rng.choice([1, 5, 50])))
  resume(ctx, rng, lambda: it_ds, want, f"{what}: read threads")
  loader = grain.DataLoader(data_source=src, operations=[], worker_count=2 if mp else 0, worker_buffer_size=2,
                            sampler=grain.samplers.SequentialSampler(n, grain.sharding.NoSharding()))
  compare(ctx, list(loader), want, "record", f"{what}: loader{' with workers' if mp else ''}")
  if mp:
    ctx.beat()
    got = list(it_ds.mp_prefetch(grain.MultiprocessingOptions(num_workers=2)))
    compare(ctx, got, want, "record", f"{what}: worker processes")
    seq = list(it_ds.mp_prefetch(grain.MultiprocessingOptions(num_workers=2), sequential_slice=True))
    h = -(-n // 2)
    order = [x for k in range(h) for x in (k, h + k) if x < n]
    ctx.check(len(seq) == n, "record", f"{what}: sequentially sliced workers gave {len(seq)} of {n} records")
    del order
    left = list(range(n))
    for x in seq:
      k = next((k for k in left if core.same(x, want[k])), None)
      ctx.check(k is not None, "record", f"{what}: sequentially sliced workers gave {str(x)[:80]} again or never stored")
      left.remove(k)
    ctx.count("mp_cases")


def resume(ctx, rng, make, want, what):
  """Iterates, takes states, restores them into new, used and exhausted iterators; two iterators at a time."""
  it = iter(make())
  states, got = [json.loads(json.dumps(it.get_state()))], []
  for x in it:
    got.append(x)
    states.append(json.loads(json.dumps(it.get_state())))
    ctx.beat()
    if len(got) > len(want) + 2:
      break
  compare(ctx, got, want, "record", what)
  ctx.check(not take(it, 1)[0], "end", f"{what}: goes on after the end")
  for _ in range(4):
    p = rng.randrange(len(states))
    it2 = it if rng.random() < 0.4 else iter(make())
    if rng.random() < 0.3:
      take(it2, rng.randint(0, 3))
    it2.set_state(states[p])
    ctx.check(it2.get_state() == states[p], "state", f"{what}: state after set_state is {it2.get_state()} not {states[p]}")
    if rng.random() < 0.5:
      other = iter(make())  # shares nothing with the first
      k = rng.randint(0, 4)
      compare(ctx, take(other, k)[0], want[:k], "record", f"{what}: second iterator")
    compare(ctx, take(it2, len(want) + 1)[0], want[p:], "resume", f"{what}: restored at {p}")
    ctx.count("restores")


# ------------------------------------------------------------------------------------------ TFRecord


def tfrecord(path, records, rng):
  with open(path, "wb") as f:
    for r in records:
      f.write(struct.pack("<QI", len(r), rng.getrandbits(32)) + r + struct.pack("<I", rng.getrandbits(32)))


def blob(rng):
  n = rng.choice([0, 0, 1, 2, 7, 8, 11, 12, 13, 100, 4096, 8191, 8192, 8193]) if rng.random() < 0.6 else rng.randint(0, 300)
  return rng.choice([rng.randbytes(n), b"\0" * n, b"\xff" * n])


def blobs(rng, most=30):
  return [blob(rng) for _ in range(rng.choice([0, 1, 2, 3, rng.randint(0, most)]))]


def tfrecords(ctx, rng):
  with Dir() as d:
    files = [blobs(rng) for _ in range(rng.choice([1, 1, 2, 4]))]
    paths = [f"{d}/f{i}.tfrecord" for i in range(len(files))]
    for p, r in zip(paths, files):
      tfrecord(p, r, rng)
    ctx.describe(tfrecord=[len(f) for f in files])
    k = rng.randrange(len(files))
    resume(ctx, rng, lambda: gexp.TFRecordIterDataset(paths[k]), files[k], "TFRecord file")
    wrap = rng.choice(["none", "tprefetch", "inter", "chain"])
    if wrap == "tprefetch":
      resume(ctx, rng, lambda: gexp.ThreadPrefetchIterDataset(gexp.TFRecordIterDataset(paths[k]), prefetch_buffer_size=3),
             files[k], "prefetched TFRecord file")
    elif wrap == "inter":
      c = rng.randint(1, 4)
      resume(ctx, rng, lambda: gexp.InterleaveIterDataset([gexp.TFRecordIterDataset(p) for p in paths], cycle_length=c),
             interleaved(files, c), "interleaved TFRecord files")
    elif wrap == "chain":
      resume(ctx, rng, lambda: gexp.TFRecordIterDataset(paths[k]).map(len).batch(3, batch_fn=list),
             [[len(x) for x in files[k][j:j + 3]] for j in range(0, len(files[k]), 3)], "mapped TFRecord file")
    if files[k] and rng.random() < 0.5:  # cut off within the last record
      whole = open(paths[k], "rb").read()
      last = 16 + len(files[k][-1])
      cut = rng.randint(1, last - 1)
      with open(paths[k], "wb") as f:
        f.write(whole[:-cut])
      it = iter(gexp.TFRecordIterDataset(paths[k]))
      compare(ctx, take(it, len(files[k]) - 1)[0], files[k][:-1], "record", "cut off TFRecord file")
      try:
        x = next(it)
      except StopIteration:
        ctx.fail("truncated", f"a TFRecord file cut off {cut} bytes before its end ended without an error")
      except Exception:  # pylint: disable=broad-except
        ctx.count("truncated_refused")
      else:
        ctx.fail("truncated", f"a cut off TFRecord file gave {str(x)[:60]}")
    ctx.sig(["tf", [[len(x) for x in f] for f in files], wrap])
    ctx.sample(["tf", [[len(x) for x in f] for f in files], wrap])
    ctx.count("tfrecord_files", len(files))


def interleaved(files, cycle):
  slots, nxt, pos, out = [None] * min(cycle, len(files)), 0, 0, []
  while slots:
    if slots[pos] is not None:
      try:
        out.append(next(slots[pos]))
      except StopIteration:
        slots[pos] = None
        pos = (pos + 1) % len(slots)
        continue
    elif nxt < len(files):
      slots[pos] = iter(files[nxt])
      nxt += 1
      continue
    elif all(s is None for s in slots):
      break
    pos = (pos + 1) % len(slots)
  return out


# ------------------------------------------------------------------------------------------ Parquet


def column(rng, n):
  import pyarrow as pa
  k = rng.choice(["i8", "i32", "i64", "u64", "f32", "f64", "bool", "str", "bin", "list", "nulls", "ts", "dict"])
  if k in ("i8", "i32", "i64", "u64"):
    t = {"i8": pa.int8(), "i32": pa.int32(), "i64": pa.int64(), "u64": pa.uint64()}[k]
    w = {"i8": 8, "i32": 32, "i64": 64, "u64": 64}[k]
    return pa.array([rng.getrandbits(w) - (0 if k == "u64" else 1 << (w - 1)) for _ in range(n)], t)
  if k in ("f32", "f64"):
    return pa.array([rng.choice([rng.random(), 0.5, float("inf"), -1.5]) for _ in range(n)], pa.float32() if k == "f32" else pa.float64())
  if k == "bool":
    return pa.array([rng.random() < 0.5 for _ in range(n)], pa.bool_())
  if k == "str":
    return pa.array([rng.choice(["", "a", "äß", "x" * 50, "\0z"]) + str(rng.randint(0, 99)) for _ in range(n)], pa.string())
  if k == "nulls":
    return pa.array([rng.choice([None, "v", ""]) for _ in range(n)], pa.string())
  if k == "bin":
    return pa.array([rng.randbytes(rng.randint(0, 9)) for _ in range(n)], pa.binary())
  if k == "list":
    return pa.array([[rng.randint(0, 99) for _ in range(rng.randint(0, 4))] for _ in range(n)], pa.list_(pa.int64()))
  if k == "dict":
    return pa.array([rng.choice(["a", "b", "c"]) for _ in range(n)], pa.string())
  return pa.array([np.datetime64(rng.randint(0, 10**9), "s") for _ in range(n)], pa.timestamp("s"))


def plain(v):
  """Python value of a record's field."""
  if isinstance(v, np.datetime64):
    return ("ts", int(v.astype("datetime64[s]").astype(int)))
  if isinstance(v, np.ndarray):
    return [plain(x) for x in v.tolist()] if v.dtype != object else [plain(x) for x in v]
  if isinstance(v, np.generic):
    return plain(v.item())
  if isinstance(v, (list, tuple)):
    return [plain(x) for x in v]
  if hasattr(v, "timestamp"):
    import calendar
    return ("ts", calendar.timegm(v.timetuple()))
  return v


def parquet_file(rng, path):
  """Writes a file with random row groups; the records as written."""
  import pyarrow as pa
  import pyarrow.parquet as pq
  n = rng.choice([0, 1, 2, 5, 17, 40])
  cols = {f"c{j}": column(rng, n) for j in range(rng.randint(1, 4))}
  t = pa.table(cols)
  rows = [{k: plain(v) for k, v in r.items()} for r in t.to_pylist()]
  kw = {"compression": rng.choice(["snappy", "none", "gzip"]), "use_dictionary": rng.random() < 0.5}
  how = rng.choice(["writer", "writer", "size", "nogroups" if not n else "writer"])
  if how == "size":
    pq.write_table(t, path, row_group_size=rng.choice([1, 2, 3, 7, 100]), **kw)
  else:
    w = pq.ParquetWriter(path, t.schema, **kw)
    at = 0
    while at < n or (how != "nogroups" and rng.random() < 0.3):
      size = rng.choice([0, 0, 1, 2, 5, 20])
      part = t.slice(at, size)
      w.write_table(part)
      at += len(part)
      if rng.random() < 0.02:
        for _ in range(rng.choice([10, 1100])):
          w.write_table(t.slice(0, 0))
    w.close()
  return rows


def parquet(ctx, rng, mp=False):
  with Dir() as d:
    files = []
    paths = []
    for i in range(rng.choice([1, 1, 2, 3, 5, 18]) if not mp else rng.choice([1, 3])):
      paths.append(f"{d}/f{i}.parquet")
      files.append(parquet_file(rng, paths[-1]))
    kw = rng.choice([{}, {}, {"memory_map": True}, {"buffer_size": 100, "pre_buffer": False}])
    ctx.describe(parquet=[len(f) for f in files], kw=kw)
    k = rng.randrange(len(files))
    one = rng.choice([paths[k], [paths[k]]])
    clean = lambda e: {a: plain(b) for a, b in e.items()}
    resume(ctx, rng, lambda: gexp.ParquetIterDataset(one, **kw).map(clean), files[k], "Parquet file")
    if rng.random() < 0.5:
      resume(ctx, rng, lambda: gexp.ThreadPrefetchIterDataset(gexp.ParquetIterDataset(paths[k], **kw), prefetch_buffer_size=2)
             .map(clean), files[k], "prefetched Parquet file")
    if len(paths) > 1:
      ps = rng.choice([list, tuple])(paths)
      resume(ctx, rng, lambda: gexp.ParquetIterDataset(ps, **kw).map(clean), interleaved(files, 16), "Parquet files")
    if mp:
      w = rng.choice([2, 3])
      ds = gexp.ParquetIterDataset(paths, **kw).map(clean).mp_prefetch(grain.MultiprocessingOptions(num_workers=w))
      parts = [interleaved(files[j::w], 16) for j in range(w)]
      compare(ctx, list(ds), interleaved(parts, w), "record", f"Parquet files read by {w} workers")
      ctx.count("mp_cases")
    ctx.sig(["pq", files, sorted(kw)])
    ctx.count("parquet_files", len(files))


# ------------------------------------------------------------------------------------------ ArrayRecord


@dataclasses.dataclass
class Instruction:
  filename: str
  skip: int
  take: int
  examples_in_shard: int


def arrayrecord(ctx, rng, mp=False):
  from array_record.python import array_record_module
  with Dir() as d:
    files, paths = [], []
    for i in range(rng.choice([1, 1, 2, 3, 6])):
      p = f"{d}/data-{i:05d}"
      rs = blobs(rng, 20)
      w = array_record_module.ArrayRecordWriter(p, rng.choice(["group_size:1", "group_size:1", "group_size:3", ""]))
      for r in rs:
        w.write(r)
      w.close()
      files.append(rs)
      paths.append(p)
    arg, want = [], []
    for p, rs in zip(paths, files):
      x = rng.random()
      if x < 0.6:
        arg.append(p if x < 0.4 else pathlib.Path(p))
        want += rs
      else:
        a = rng.randint(0, len(rs))
        b = rng.randint(a, len(rs))
        arg.append(Instruction(p, a, b - a, len(rs)) if x < 0.8 else f"{p}[{a}:{b}]")
        want += rs[a:b]
    if len(arg) == 1 and rng.random() < 0.5:
      arg = arg[0]
    opts = rng.choice([None, None, {"index_storage_option": "in_memory"}, {"index_storage_option": "offloaded", "footer_prefetch_bytes": "0"}])
    src = sources.ArrayRecordDataSource(arg, **({"reader_options": opts} if opts else {}))
    ctx.describe(arrayrecord=[len(f) for f in files], records=len(want), options=opts)
    if rng.random() < 0.3:
      if want:
        src[0]
      src = pickle.loads(cloudpickle.dumps(src))
    random_access(ctx, rng, src, want, "ArrayRecord source")
    pipelines(ctx, rng, src, want, "ArrayRecord source", mp)
    ctx.sig(["ar", [[len(r) for r in f] for f in files], str(arg), str(opts)])
    ctx.count("arrayrecord_sources")


# ------------------------------------------------------------------------------------------ in memory


def ranges(ctx, rng):
  big = rng.random() < 0.4
  a = rng.randint(-10**18, 10**18) if big else rng.randint(-50, 50)
  step = rng.choice([1, 1, 2, 3, 7, -1, -2, -5])
  n = rng.choice([0, 1, 2, 30, 2**53 + 1, 2**53 - 1, 10**17 + 3, rng.getrandbits(60)]) if big else rng.randint(0, 40)
  b = a + n * step - (rng.randrange(abs(step)) * (1 if step > 0 else -1) if n else 0)
  want = range(a, b, step)
  ctx.describe(range=[a, b, step])
  src = sources.RangeDataSource(a, b, step)
  ds = grain.MapDataset.range(a, b, step)
  if rng.random() < 0.3:
    src = pickle.loads(pickle.dumps(src))
  ctx.check(len(src) == n, "length", f"range source {a, b, step}: len() is {len(src)} instead of {n}")
  ctx.check(len(ds) == n, "length", f"range dataset {a, b, step}: len() is {len(ds)} instead of {n}")
  for i in [0, n - 1, n // 2] + [rng.randrange(n) for _ in range(20)] if n else []:
    for x in (src[i], ds[i], ds[i + n]):
      ctx.check(int(x) == want[i], "record", f"range {a, b, step}: element {i} is {x} instead of {want[i]}")
    ctx.count("records", 3)
  for k in (n, n + 5, -1):
    try:
      src[k]
    except IndexError:
      ctx.count("refused")
    else:
      ctx.fail("out-of-range", f"range source with {n} elements: element {k} is {src[k]}")
  if n < 50:
    pipelines(ctx, rng, src, list(want), "range source")
    compare(ctx, [int(x) for x in ds], list(want), "record", "range dataset")
  ctx.sig(["range", a, b, step])
  ctx.count("ranges")


ATTACH = """
import sys
sys.path.insert(0, {repo!r})
from multiprocessing import resource_tracker
from grain import sources
s = sources.SharedMemoryDataSource(name={name!r})
print("GOT", repr(list(s)))
resource_tracker.unregister(s.shm._name, "shared_memory")
"""


def value(rng):
  return rng.choice([None, True, False, rng.randint(-2**63, 2**63 - 1), rng.random(), "", "text",
                     b"", b"\x01" + rng.randbytes(rng.randint(0, 30)) + b"\x01", "s" * rng.randint(0, 3000), 0, -1, float("inf")])


def shared(ctx, rng, attach=False, values=None, key="record"):
  want = values or [value(rng) for _ in range(rng.choice([0, 1, 5, 20]))]
  if rng.random() < 0.5 and not values:
    want = [x for x in want if x is not None]
  name = f"gv20_{os.getpid()}_{rng.getrandbits(30)}" if rng.random() < 0.5 else None
  ctx.describe(shared=len(want))
  src = sources.SharedMemoryDataSource(want, name=name)
  try:
    ctx.check(len(src) == len(want), "length", "shared memory source")
    compare(ctx, [src[i] for i in range(len(want))], want, key, "shared memory source")
    other = sources.SharedMemoryDataSource(name=src.shm.name) if rng.random() < 0.5 else pickle.loads(pickle.dumps(src))
    random_access(ctx, rng, other, want, "attached shared memory source", bounds=False)
    if None not in want:  # datasets take None for a filtered element
      pipelines(ctx, rng, src, want, "shared memory source", mp=attach)
    other.close()
    del other
    compare(ctx, list(src), want, "record", "shared memory source after an attached one was closed")
    if attach:
      p = subprocess.run([sys.executable, "-c", ATTACH.format(repo=core.REPO, name=src.shm.name)], capture_output=True,
                         text=True, timeout=200)
      got = [l for l in p.stdout.splitlines() if l.startswith("GOT")]
      if not got:
        raise core.HarnessError(p.stderr[-1000:])
      ctx.check(got[0][4:] == repr(want), "record", f"another process attached to the source read {got[0][:200]}")
      ctx.count("attached_processes")
  finally:
    src.unlink()
    src.close()
  ctx.sig(["shared", repr(want)])
  ctx.count("shared_sources")


def lists(ctx, rng):
  n = rng.choice([0, 1, 3, 20])
  k = rng.choice(["list", "tuple", "array", "array2", "str", "bytes", "dicts", "range"])
  src = {"list": list(range(n)), "tuple": tuple(str(i) for i in range(n)), "array": np.arange(n, dtype=np.int16),
         "array2": np.arange(3 * n, dtype=np.float32).reshape(n, 3), "str": "abcdefghijklmnopqrstuvwxyz"[:n],
         "bytes": bytes(range(n)), "dicts": [{"a": i, "b": np.full(i % 4, i)} for i in range(n)], "range": range(5, 5 + 3 * n, 3)}[k]
  ctx.describe(sequence=k, n=n)
  pipelines(ctx, rng, src, [src[i] for i in range(n)], f"sequence source {k}")
  ctx.sig([k, n])
  ctx.count("sequences")


def case(ctx, i, rng):
  x = rng.random()
  if x < 0.2:
    return tfrecords(ctx, rng)
  if x < 0.45:
    return parquet(ctx, rng)
  if x < 0.65:
    return arrayrecord(ctx, rng)
  if x < 0.8:
    return ranges(ctx, rng)
  if x < 0.9:
    return shared(ctx, rng)
  return lists(ctx, rng)


def nulls(ctx, rng):
  """Records that end with NUL characters."""
  shared(ctx, rng, values=[b"ab\0", "cd\0\0", 1], key="shareable-trailing-nulls")


def non_ascii(ctx, rng):
  """Text that takes more bytes than characters."""
  shared(ctx, rng, values=["äöüäöüäöüäöü", "x"], key="shareable-non-ascii")


DIRECTED = [lambda c, r: parquet(c, r, mp=True), lambda c, r: arrayrecord(c, r, mp=True),
            lambda c, r: shared(c, r, attach=True), nulls,
            lambda c, r: parquet(c, r, mp=True), lambda c, r: arrayrecord(c, r, mp=True),
            lambda c, r: shared(c, r, attach=True), non_ascii]
