"""Picklable user functions and sources for generated pipelines.

Everything is a pure function of the element (or of element + given rng/index), so the
reference model can call the very same objects.  Tree walking here is our own (no grain).
"""
import os
import threading
import time

import numpy as np

from grain._src.core import transforms as _t


def tmap(f, e):
  if isinstance(e, dict):
    return {k: tmap(f, v) for k, v in e.items()}
  if isinstance(e, tuple) and hasattr(e, "_fields"):
    return type(e)(*(tmap(f, v) for v in e))
  if isinstance(e, list):
    return [tmap(f, v) for v in e]
  if isinstance(e, tuple):
    return tuple(tmap(f, v) for v in e)
  return f(e)


def leaves(e, out=None):
  out = [] if out is None else out
  if isinstance(e, dict):
    for k in sorted(e):
      leaves(e[k], out)
  elif isinstance(e, (list, tuple)):
    for v in e:
      leaves(v, out)
  else:
    out.append(e)
  return out


def dig(e):
  """Small deterministic integer digest of an element."""
  t = 0
  for j, l in enumerate(leaves(e)):
    if isinstance(l, np.ndarray):
      if l.dtype.kind in "iub":
        t += (j + 1) * int(l.astype(np.int64).sum()) + l.size
      elif l.dtype.kind == "f":
        t += (j + 1) * int(np.nan_to_num(l.astype(np.float64)).sum() * 4) + l.size
      else:
        t += l.size
    elif isinstance(l, (bool, np.bool_)):
      t += int(l)
    elif isinstance(l, (int, np.integer)):
      t += (j + 1) * int(l)
    elif isinstance(l, (float, np.floating)):
      t += int(float(l) * 4) if np.isfinite(l) else 0
    elif isinstance(l, (str, bytes)):
      t += len(l)
  t &= 0xFFFFFFFF
  t = (t * 2654435761) & 0xFFFFFFFF
  return t ^ (t >> 15)


class Src:
  """Random access source with n uniquely identified elements."""

  def __init__(self, n, base=0, kind="int"):
    self.n, self.base, self.kind = n, base, kind

  def __len__(self):
    return self.n

  def at(self, i):
    u = self.base + i
    k = self.kind
    if k == "int":
      return u
    if k == "np":
      return np.int64(u)
    if k == "arr":
      return np.array([u, -u, 7], dtype=np.int32)
    if k == "dict":
      return {"id": np.int64(u), "f": np.float32(u / 4), "n": {"a": np.array([u, u + 1], np.int16)}}
    if k == "tuple":
      return (u, {"b": np.array([[u]], np.uint32)}, [float(u)])
    if k == "var":
      ln = (u * 7 + 3) % 5
      return {"id": np.int64(u), "tok": (np.arange(ln) + 10 * u).astype(np.int32)}
    if k[:3] == "tok":
      # "tok<max len>[s][e][m]": two aligned token features; s: scalar feature, e: empties allowed, m: meta
      m = int(k[3:].rstrip("sem"))
      lo = 0 if "e" in k[3:] else 1
      h = (u * 2654435761) & 0xFFFFFFFF
      h ^= h >> 13
      la = lo + h % (m - lo + 1)
      lb = lo + (h >> 8) % (m - lo + 1)
      e = {"a": (np.arange(la) + 100 * u + 1).astype(np.int32),
           "b": -(np.arange(lb) + 100 * u + 1).astype(np.int64)}
      if "s" in k[3:]:
        e["c"] = np.int32(u + 1)
      if "m" in k[3:]:
        e["m"] = np.int64(u + 1)
      return e
    raise ValueError(k)

  def __getitem__(self, i):
    if not 0 <= i < self.n:
      raise IndexError(i)
    return self.at(int(i))

  def __repr__(self):
    return f"Src({self.n},{self.base},{self.kind})"


class SrcB(Src):
  """Source that also supports batched reads."""

  def _getitems(self, indices):
    return [self[int(i)] for i in indices]



class Affine(_t.Map):
  def __init__(self, b):
    self.b = b

  def map(self, e):
    return tmap(self._one, e)

  def _one(self, l):
    if isinstance(l, np.ndarray) or isinstance(l, np.generic):
      if l.dtype.kind in "iuf":
        return (l + l.dtype.type(self.b)).astype(l.dtype) if isinstance(l, np.ndarray) else l.dtype.type(l + l.dtype.type(self.b))
      return l
    if isinstance(l, bool) or l is None or isinstance(l, (str, bytes)):
      return l
    return l + self.b

  def __call__(self, e):
    return self.map(e)


class Wrap(_t.Map):
  """Adds structure around the element."""

  def __init__(self, how):
    self.how = how

  def map(self, e):
    if self.how == "dict":
      return {"w": e, "z": dig(e) % 97}
    if self.how == "tuple":
      return (e, dig(e) % 97)
    return [e]

  __call__ = map


class Keep(_t.Filter):
  """Keeps elements whose digest modulo m is in the allowed set."""

  def __init__(self, m, allow):
    self.m, self.allow = m, tuple(allow)

  def filter(self, e):
    return dig(e) % self.m in self.allow

  __call__ = filter


class Fan(_t.FlatMap):
  """0..max_fan_out children per element (or exactly max when full)."""

  def __init__(self, fan, full=False, salt=0):
    self.max_fan_out = fan
    self._fan, self._full, self._salt = fan, full, salt

  def children(self, e):
    c = self._fan if self._full else (dig(e) + self._salt) % (self._fan + 1)
    return [(e, j) for j in range(c)]

  def flat_map(self, e):
    return self.children(e)


class WithIdx(_t.MapWithIndex):
  def map_with_index(self, i, e):
    return {"i": int(i), "e": e}

  def __call__(self, i, e):
    return self.map_with_index(i, e)


class Rand(_t.RandomMap):
  def random_map(self, e, rng):
    return {"e": e, "r": int(rng.integers(1 << 40))}

  def __call__(self, e, rng):
    return self.random_map(e, rng)


class Delay(_t.Map):
  """Identity with a pseudo-random per-element delay (schedule perturbation)."""

  def __init__(self, salt, max_ms, every=1):
    self.salt, self.max_ms, self.every = salt, max_ms, every

  def map(self, e):
    d = dig((e, self.salt))
    if d % self.every == 0:
      time.sleep(((d >> 5) % 1000) / 1000.0 * self.max_ms / 1000.0)
    return e

  __call__ = map


TRACE = None     # when a list: the order in which delayed elements were finished, by thread


class DelayRandom(_t.Map):
  """Identity with a truly random delay: each run gets another schedule."""

  def __init__(self, max_ms):
    self.max_ms = max_ms

  def map(self, e):
    r = int.from_bytes(os.urandom(2), "little") / 65535.0
    if r < 0.7:
      time.sleep(r * self.max_ms / 1000.0)
    if TRACE is not None:
      TRACE.append((threading.get_ident(), dig(e)))
    return e

  __call__ = map


class UserBoom(Exception):
  pass


class TwoArg(Exception):
  """Cannot be unpickled: its arguments are not those of the constructor."""

  def __init__(self, a, b):
    super().__init__(f"two: {a}")
    self.b = b


class Locky(Exception):
  """Cannot be pickled."""

  def __init__(self, m):
    super().__init__(m)
    self.lock = threading.Lock()


EXC = {"UserBoom": UserBoom, "ValueError": ValueError, "KeyError": KeyError, "RuntimeError": RuntimeError,
       "IndexError": IndexError, "TypeError": TypeError, "OSError": OSError,
       "AttributeError": AttributeError, "AssertionError": AssertionError, "ZeroDivisionError": ZeroDivisionError,
       "SystemExit": SystemExit}


def boom_text(bad):
  return f"boom at {bad}!"


def raise_boom(exc, bad):
  m = boom_text(bad)
  if exc == "TwoArg":
    raise TwoArg(m, 1)
  if exc == "Locky":
    raise Locky(m)
  if exc == "Local":
    class Local(Exception):
      pass
    raise Local(m)
  if exc == "Cause":
    try:
      raise OSError("inner")
    except OSError as e:
      raise UserBoom(m) from e
  raise EXC[exc](m)


class Boom(_t.Map):
  """Raises on the elements with the given digest."""

  def __init__(self, bad, exc="UserBoom"):
    self.bad, self.exc = bad, exc

  def map(self, e):
    if e is not None and dig(e) == self.bad:
      raise_boom(self.exc, self.bad)
    return e

  __call__ = map


def as_list(xs):
  return list(xs)


class ListBatch:
  """batch_fn that keeps raw elements (works for non-uniform elements)."""

  def __call__(self, xs):
    return {"items": list(xs), "len": len(xs)}


def stack(es):
  """Reference for the default batching: leaf-wise np.stack."""
  e0 = es[0]
  if isinstance(e0, dict):
    return {k: stack([e[k] for e in es]) for k in e0}
  if isinstance(e0, (list, tuple)):
    vals = [stack([e[j] for e in es]) for j in range(len(e0))]
    return type(e0)(*vals) if hasattr(e0, "_fields") else type(e0)(vals)
  return np.stack([np.asarray(e) for e in es])
