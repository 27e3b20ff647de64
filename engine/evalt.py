"""Numeric evaluation of terms: engine cross-check and plausibility filter."""
import hashlib
import itertools
import math
import random

import terms as T
from terms import Poly, Lam


class EvalError(Exception):
  pass


def _h(*k):
  s = hashlib.blake2b(repr(k).encode(), digest_size=8).digest()
  return int.from_bytes(s, 'big') / 2.0**64


class Env:
  """dims: name->int; arrays: name->numpy; apps: head->callable; else hashed."""

  def __init__(self, dims=None, arrays=None, apps=None, seed=0, default_dim=3):
    self.dims = dims or {}
    self.arrays = arrays or {}
    self.apps = apps or {}
    self.vars = {}
    self.seed = seed
    self.memo = {}
    self.default_dim = default_dim

  def bounded(self, at, key):
    """pseudo-random value respecting declared bounds."""
    u = _h(self.seed, key)
    if at.is01:
      return 1 if u < 0.5 else 0
    lo = self.ev(at.lo) if at.lo is not None else None
    hi = self.ev(at.hi) if at.hi is not None else None
    if at.isint:
      if lo is None and hi is None:
        lo, hi = 0, 3
      elif lo is None:
        lo = hi - 3
      elif hi is None:
        hi = lo + 3
      lo, hi = int(math.ceil(lo)), int(math.floor(hi))
      if hi < lo:
        return lo
      return lo + int(u * (hi - lo + 1)) if hi >= lo else lo
    if lo is not None and hi is not None:
      return lo + u * (hi - lo)
    if lo is not None or at.pos:
      return (lo or 0) + u * 2 + 0.05
    if hi is not None:
      return hi - u * 2
    return (u - 0.5) * 3

  def ev(self, p):
    r = 0
    for m, c in p.terms.items():
      t = c.numerator if c.denominator == 1 else float(c)
      for a, e in m:
        v = self.atom(T.atom(a))
        if e == 1:
          t = t * v
        elif v == 0 and e < 0:
          raise EvalError('div0')
        else:
          if v < 0 and e.denominator != 1:
            raise EvalError('neg pow')
          t = t * (v ** (int(e) if e.denominator == 1 else float(e)))
        if t == 0:
          t = 0
          break
      r = r + t
    return r

  def sumlam(self, lam, f):
    def rec(k):
      if k == len(lam.bnds):
        yield self.ev(lam.body)
        return
      n = int(round(self.ev(lam.sizes[k])))
      b = lam.bnds[k].id
      old = self.vars.get(b)
      for i in range(n):
        self.vars[b] = i
        yield from rec(k + 1)
      if old is None:
        self.vars.pop(b, None)
      else:
        self.vars[b] = old
    return f(rec(0))

  def atom(self, at):
    cl = not any(T.atom(a).kind == 'bnd' for a in at.fv)
    if cl and at.id in self.memo:
      return self.memo[at.id]
    v = self._atom(at)
    if cl:
      self.memo[at.id] = v
    return v

  def _atom(self, at):
    k, a = at.kind, at.args
    if k == 'var':
      if a[0] in self.vars:
        return self.vars[a[0]]
      if a[0] in self.dims:
        return self.dims[a[0]]
      if a[0] in T.DIMS:
        return max(T.DIMS[a[0]], self.default_dim)
      return self.bounded(at, ('v', a[0]))
    if k == 'bnd':
      return self.vars[at.id]
    if k == 'read':
      idx = tuple(int(round(self.ev(i))) for i in a[1:])
      arr = self.arrays.get(a[0])
      if arr is not None:
        if any(i < 0 or i >= n for i, n in zip(idx, arr.shape)):
          return 0.0 if not at.isint else 0
        v = arr[idx]
        return int(v) if at.isint or at.is01 else float(v)
      return self.bounded(at, ('r', a[0], idx))
    if k == 'eq':
      v = self.ev(a[0])
      return 1 if abs(v) < 1e-9 else 0
    if k == 'lt':
      return 1 if self.ev(a[0]) < 0 else 0
    if k == 'exp':
      v = self.ev(a[0])
      if v > 300:
        raise EvalError('exp overflow')
      return math.exp(v)
    if k == 'log':
      v = self.ev(a[0])
      if v <= 0:
        raise EvalError('log dom')
      return math.log(v)
    if k == 'pol':
      return self.ev(a[0])
    if k == 'sum':
      return self.sumlam(a[0], sum)
    if k == 'max':
      return self.sumlam(a[0], max)
    if k == 'argmax':
      vals = list(self.sumlam(a[0], list))
      return vals.index(max(vals))
    if k in ('perm', 'rank'):
      keys = list(self.sumlam(a[0], list))
      order = sorted(range(len(keys)), key=lambda i: (keys[i], i))
      i = int(round(self.ev(a[1])))
      if i < 0 or i >= len(order):
        return 0
      return order[i] if k == 'perm' else order.index(i)
    if k in ('idiv', 'imod'):
      x, d = int(round(self.ev(a[0]))), int(round(self.ev(a[1])))
      if d == 0:
        raise EvalError('div0')
      return x // d if k == 'idiv' else x % d
    if k == 'fn':
      v = self.ev(a[1])
      if a[0] == 'round':
        return int(round(v))
      if a[0] == 'trunc':
        return int(v)
      if a[0] == 'floor':
        return math.floor(v)
      if a[0] == 'ceil':
        return math.ceil(v)
      if a[0] == 'lgamma':
        return math.lgamma(v)
      if a[0] == 'tanh':
        return math.tanh(v)
      if a[0] == 'erf':
        return math.erf(v)
      return math.sin(v * 1.7 + len(a[0]))
    if k == 'app':
      args = []
      for x in a[1:]:
        if isinstance(x, Poly):
          args.append(self.ev(x))
        elif isinstance(x, Lam):
          args.append(tuple(_rnd(t) for t in self.sumlam(x, list)))
        else:
          args.append(x)
      f = self.apps.get(a[0])
      if f is not None:
        return f(*args)
      return self.bounded(at, ('a', a[0], tuple(
          _rnd(t) if isinstance(t, (int, float)) else t for t in args)))
    if k == 'neginf':
      return -1e18
    if k == 'inf':
      raise EvalError('inf')
    raise EvalError(k)


def _rnd(t):
  return round(float(t), 7)


def quick_zero(d, tries=3):
  """False when d is numerically non-zero at some pseudo-random point."""
  for s in range(tries):
    try:
      e = Env(seed=s, default_dim=2 + s % 2)
      v = e.ev(d)
      if abs(v) > 1e-6 * (1 + _mag(d, e)):
        return False
    except (EvalError, OverflowError, ValueError, ZeroDivisionError):
      continue
  return True


def _mag(d, e):
  m = 0.0
  for mo, c in d.terms.items():
    t = abs(float(c))
    for a, p in mo:
      try:
        t *= abs(e.atom(T.atom(a)))**float(p)
      except Exception:  # pylint: disable=broad-except
        pass
    m = max(m, t)
  return m
