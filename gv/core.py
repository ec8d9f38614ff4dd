"""Shared monitor plumbing: context, verdicts, comparison, digests."""
from __future__ import annotations

import contextlib
import hashlib
import json
import os
import random
import sys
import threading
import time
import traceback

REPO = os.environ.get("GV_REPO", "/repo")
GRAIN_DIR = os.path.join(os.path.realpath(REPO), "grain") + os.sep


class Violation(Exception):
  """The monitored property does not hold on this execution."""

  def __init__(self, key, msg, **data):
    super().__init__(f"[{key}] {msg}")
    self.key, self.msg, self.data = key, msg, data


class Inconclusive(Exception):
  """The monitor could not decide this case."""


class HarnessError(Exception):
  pass


def jsonable(o, depth=0):
  import numpy as np
  if depth > 6:
    return repr(o)[:200]
  if isinstance(o, (str, bool, type(None))):
    return o
  if isinstance(o, int):
    return o
  if isinstance(o, float):
    return o if o == o and abs(o) != float("inf") else repr(o)
  if isinstance(o, np.generic):
    return f"{o.dtype}({o})"
  if isinstance(o, np.ndarray):
    s = o.tolist() if o.size <= 40 else str(o)
    return {"dtype": str(o.dtype), "shape": list(o.shape), "v": jsonable(s, depth + 1)}
  if isinstance(o, dict):
    return {str(k): jsonable(v, depth + 1) for k, v in list(o.items())[:60]}
  if isinstance(o, (list, tuple)):
    return [jsonable(v, depth + 1) for v in list(o)[:120]]
  return repr(o)[:300]


def same(a, b):
  """Deep equality of elements: structure, type class, dtype, shape, values."""
  import numpy as np
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
      return False
    if a.dtype != b.dtype or a.shape != b.shape:
      return False
    if a.dtype == object:
      return all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
    if a.dtype.kind in "fc":
      return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))
  if isinstance(a, np.generic) or isinstance(b, np.generic):
    if type(a) is not type(b):
      return False
    return bool(a == b) or (a != a and b != b)
  if type(a) is not type(b):
    return False
  if isinstance(a, dict):
    return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
  if isinstance(a, (list, tuple)):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
  if isinstance(a, float):
    return a == b or (a != a and b != b)
  return a == b


def same_seq(a, b):
  return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def first_diff(a, b):
  for i in range(max(len(a), len(b))):
    x = a[i] if i < len(a) else "<missing>"
    y = b[i] if i < len(b) else "<missing>"
    if i >= len(a) or i >= len(b) or not same(x, y):
      return {"pos": i, "got": jsonable(x), "want": jsonable(y), "got_len": len(a), "want_len": len(b)}
  return None


def digest(o):
  return hashlib.blake2b(json.dumps(jsonable(o), sort_keys=True).encode(), digest_size=8).hexdigest()


class Ctx:
  """What a case sees; writes JSON lines to the shard's event log."""

  def __init__(self, prop, tier, seed, out, tmp, replay=False):
    self.prop, self.tier, self.seed, self.out, self.tmp = prop, tier, seed, out, tmp
    self.replay = replay
    self.counts = {}
    self.sigs = set()
    self.samples = []
    self._lock = threading.Lock()
    self._last_beat = 0.0
    self.info = None

  @property
  def quick(self):
    return self.tier == "quick"

  def emit(self, **kw):
    with self._lock:
      self.out.write(json.dumps(kw) + "\n")
      self.out.flush()

  def beat(self):
    """A logical step was made (used by the stall monitor)."""
    t = time.monotonic()
    if t - self._last_beat > 0.5:
      self._last_beat = t
      self.emit(t="beat")

  def count(self, name, n=1):
    with self._lock:
      self.counts[name] = self.counts.get(name, 0) + n

  def sig(self, o):
    self.sigs.add(digest(o))

  def sample(self, o):
    if len(self.samples) < 2:
      self.samples.append(jsonable(o))

  def describe(self, **kw):
    """Facts about the running case, recorded with a violation or a stall."""
    self.info = jsonable(kw)
    self.emit(t="info", info=self.info)

  def fail(self, key, msg, **data):
    raise Violation(key, msg, **data)

  def check(self, cond, key, msg, **data):
    self.count("oracle_checks")
    if not cond:
      raise Violation(key, msg, **data)

  def equal(self, got, want, key, msg, **data):
    self.count("oracle_checks")
    self.count("elements_compared", len(want))
    if not same_seq(got, want):
      raise Violation(key, msg, diff=first_diff(got, want), **data)


def rng_for(seed, prop, i):
  return random.Random(f"{seed}:{prop}:{i}")


def through_grain(exc):
  """True if the exception was raised in (or passed through) grain code."""
  seen = set()
  while exc is not None and id(exc) not in seen:
    seen.add(id(exc))
    tb = exc.__traceback__
    while tb is not None:
      f = os.path.realpath(tb.tb_frame.f_code.co_filename)
      if f.startswith(GRAIN_DIR):
        return True
      tb = tb.tb_next
    exc = exc.__cause__ or exc.__context__
  return False


def tb_text(exc):
  return "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-3000:]


def take(it, n, ctx=None):
  """next() n times or to the end; returns (elements, ended)."""
  out = []
  for _ in range(n):
    try:
      out.append(next(it))
    except StopIteration:
      return out, True
    if ctx is not None:
      ctx.beat()
  return out, False


def snap(o):
  """Private deep copy of an element (buffers may be reused)."""
  import copy
  return copy.deepcopy(o)


@contextlib.contextmanager
def patched(module, name, value):
  """Replaces a module attribute (an experiment switch) if it exists."""
  import importlib
  m = importlib.import_module(module)
  if not hasattr(m, name):
    yield False
    return
  old = getattr(m, name)
  setattr(m, name, value)
  try:
    yield True
  finally:
    setattr(m, name, old)
