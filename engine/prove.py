"""Discharging equalities: normal form, congruence, case split, z3 leaves."""
import sys
import time

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
  sys.path.append(_VT)
import z3  # pylint: disable=wrong-import-position

import terms as T
from terms import (Poly, Lam, ZERO, ONE, add, neg, mul, const, Unsupported)

STATS = {'normal_form': 0, 'z3_calls': 0, 'z3_time': 0.0, 'case_splits': 0,
         'congruence': 0, 'z3_leaf': 0}


RLIMIT_PER_MS = 6000


class Timeout(Exception):
  pass


# --------------------------------------------------------------------------
# z3 translation (opaque atoms become uninterpreted)
# --------------------------------------------------------------------------
class Z:

  def __init__(self):
    self.map = {}
    self.cons = []
    self.funcs = {}
    self.depth = 0

  def poly(self, p):
    out = None
    for m, c in p.terms.items():
      if c.denominator == 1 and all(T.atom(a).isint for a, _ in m):
        t = z3.IntVal(int(c))
      else:
        t = z3.RealVal(str(c))
      for a, e in m:
        v = self.atom(T.atom(a))
        if e.denominator == 1 and e > 0:
          for _ in range(int(e)):
            t = t * v
        else:
          t = t * self.opaque(('pow', a, e), False)
      out = t if out is None else out + t
    return out if out is not None else z3.IntVal(0)

  def opaque(self, k, isint):
    if k not in self.map:
      nm = 'o%d' % len(self.map)
      self.map[k] = z3.Int(nm) if isint else z3.Real(nm)
    return self.map[k]

  def atom(self, at):
    if at.id in self.map:
      return self.map[at.id]
    if at.kind in ('eq', 'lt'):
      p = self.poly(at.args[0])
      c = (p == 0) if at.kind == 'eq' else (p < 0)
      v = z3.If(c, z3.IntVal(1), z3.IntVal(0))
      self.map[at.id] = v
      return v
    if at.kind == 'read' and len(at.args) > 1:
      idx = [self.poly(i) for i in at.args[1:]]
      if all(z3.is_int(i) for i in idx):
        k = (at.args[0], len(idx), at.isint)
        f = self.funcs.get(k)
        if f is None:
          f = z3.Function('f%d' % len(self.funcs), *([z3.IntSort()] * len(idx)),
                          z3.IntSort() if at.isint else z3.RealSort())
          self.funcs[k] = f
        v = f(*idx)
      else:
        v = z3.Real('a%d' % at.id)
    else:
      v = z3.Int('a%d' % at.id) if at.isint else z3.Real('a%d' % at.id)
    self.map[at.id] = v
    if self.depth < 6:
      self.depth += 1
      if at.lo is not None:
        self.cons.append(v >= self.poly(at.lo))
      if at.hi is not None:
        self.cons.append(v <= self.poly(at.hi))
      if at.pos and at.kind in ('exp', 'sum', 'pol'):
        self.cons.append(v > 0)
      if at.kind in ('idiv', 'imod'):
        # r = D*q + m
        r, D = at.args
        q = T.from_atom(T._mk_atom('idiv', (r, D)))  # pylint: disable=protected-access
        m = T.from_atom(T._mk_atom('imod', (r, D)))  # pylint: disable=protected-access
        self.cons.append(self.poly(r) == self.poly(D) * self.poly(q) +
                         self.poly(m))
        self.cons.append(self.poly(m) >= 0)
        self.cons.append(self.poly(m) < self.poly(D))
      self.depth -= 1
    return v


def _solve(z, goals, timeout):
  s = z3.Solver()
  # deterministic resource limit (about `timeout` ms on this machine); the
  # wall-clock limit only guards against pathological queries
  s.set('rlimit', int(timeout * RLIMIT_PER_MS))
  s.set('timeout', 20 * timeout)
  for c in z.cons:
    s.add(c)
  for g in goals:
    s.add(g)
  t = time.time()
  r = s.check()
  STATS['z3_calls'] += 1
  STATS['z3_time'] += time.time() - t
  return r, s


def z3_nonneg(p):
  if T.MAXTERMS and len(p.terms) > 12:
    return False
  z = Z()
  g = z.poly(p) < 0
  r, _ = _solve(z, [g], 400)
  return r == z3.unsat


# --------------------------------------------------------------------------
class Ctx:
  """assumed literals: list of (atom, 0/1); plus raw polys assumed zero."""

  def __init__(self, lits=()):
    self.lits = tuple(lits)

  def extend(self, at, v):
    return Ctx(self.lits + ((at, v),))

  def feasible(self):
    z = Z()
    gs = []
    for at, v in self.lits:
      if at.kind in ('eq', 'lt'):
        p = z.poly(at.args[0])
        c = (p == 0) if at.kind == 'eq' else (p < 0)
        gs.append(c if v else z3.Not(c))
      else:
        gs.append(z.atom(at) == v)
    if not gs:
      return True
    r, _ = _solve(z, gs, 1000)
    return r != z3.unsat


def has_bnd(at):
  return any(T.atom(a).kind == 'bnd' for a in at.fv)


def _under_div(ctx):
  """atoms that stand alone as dividend of an integer division in ctx."""
  out = set()
  for i in T.all_atoms(ctx):
    at = T.atom(i)
    if at.kind in ('idiv', 'imod'):
      r = at.args[0]
      if len(r.terms) == 1:
        (m, _), = r.terms.items()
        if len(m) == 1:
          out.add(m[0][0])
  return out


def solve_eq(p, ctx=None):
  """choose atom to eliminate from p = 0 (linear, coefficient +-1)."""
  best = None
  for m, c in p.terms.items():
    if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
      at = T.atom(m[0][0])
      if at.kind == 'var' and at.args[0] in T.DIMS:
        continue
      if at.is01:
        continue
      # the rest must not contain the atom
      rest = T.mkpoly({k: v for k, v in p.terms.items() if k != m})
      if at.id in T.all_atoms(rest):
        continue
      rank = {'var': 3, 'read': 2}.get(at.kind, 1)
      if not at.isint:
        rank -= 3
      elif ctx is not None and rank < 3 and at.id in ctx:
        rank = 4
      k = (rank, T.skey(at), at.id)
      if best is None or k > best[0]:
        best = (k, at, T.scale(rest, -1 / c))
  if best is None:
    return None
  return best[1], best[2]


def apply_lit(p, at, v):
  p = T.subst(p, {at.id: const(v)})
  if at.kind == 'eq' and v == 1:
    s = solve_eq(at.args[0], _under_div(p))
    if s is not None:
      p = T.subst(p, {s[0].id: s[1]})
  return p


class Prover:

  def __init__(self, deadline=60.0, max_split=14):
    self.t_end = time.process_time() + deadline
    self.max_split = max_split
    self.why = []

  def tick(self):
    if time.process_time() > self.t_end:
      raise Timeout()

  univ = ()

  def merge_sums(self, d):
    """d = sum_k c_k * Sum_{v<B} f_k(v) with an assumption known for every
    v<B: it suffices that sum_k c_k f_k(v) = 0 under the assumption at v.
    -> list of (size, v, body) candidates."""
    sizes = []
    for m in d.terms:
      for a, e in m:
        at = T.atom(a)
        if at.kind == 'sum' and e == 1:
          for x in at.args[0].sizes:
            if not any(x is y for y in sizes) and not x.fv - _DIMV():
              sizes.append(x)
    for B in sizes:
      v = T.fresh(B, 'u')
      out = []
      hits = 0
      for m, c in d.terms.items():
        hit = None
        for a, e in m:
          at = T.atom(a)
          if at.kind == 'sum' and e == 1 and any(
              s is B for s in at.args[0].sizes):
            hit = at
            break
        if hit is None:
          out.append(mul(T.mkpoly({m: c}), T.inv(B)))
          continue
        hits += 1
        ov, sz, body = T.open_lam(hit.args[0])
        k = [i for i, x in enumerate(sz) if x is B][0]
        body = T.subst(body, {T.atom_of(ov[k]).id: v})
        for i in reversed(range(len(ov))):
          if i != k:
            body = T.rsum(ov[i], sz[i], body)
        rest = T.mkpoly({tuple(x for x in m if x[0] != hit.id): c})
        out.append(mul(rest, body))
      if hits:
        g = []
        for shape, inst in self.univ:
          if shape[0] is B:
            g += inst([v])
        yield v, g, add(*out)

  def prove_eq(self, a, b, assume=()):
    """assume: polys known to equal ONE (0/1-valued)."""
    d = add(a, neg(b))
    if d is not ZERO:
      try:
        for _, g, body in self.merge_sums(d):
          sub = Prover(0, self.max_split)
          sub.t_end = self.t_end
          if body is ZERO or sub.prove_eq(body, ZERO, list(assume) + g):
            return True
      except Timeout:
        return False
    if d is ZERO:
      STATS['normal_form'] += 1
      return True
    ctx = Ctx()
    try:
      for g in assume:
        for m_at, v in _literals(g):
          d = apply_lit(d, m_at, v)
          ctx = ctx.extend(m_at, v)
      if d is ZERO:
        STATS['normal_form'] += 1
        return True
      return self.zero(d, ctx, 0)
    except Timeout:
      return False
    except (Unsupported, RecursionError) as e:
      self.why.append(repr(e))
      return False

  def zero(self, d, ctx, depth):
    self.tick()
    if d is ZERO:
      return True
    if depth > self.max_split:
      return False
    d2 = self.congruence(d, ctx, depth)
    if d2 is ZERO:
      STATS['congruence'] += 1
      return True
    d = d2
    d = self.ties(d)
    if d is ZERO:
      return True
    cl = clear_denoms(d)
    if cl is ZERO:
      return True
    at = self.pick(d)
    if at is not None:
      STATS['case_splits'] += 1
      for v in (1, 0):
        c2 = ctx.extend(at, v)
        if not c2.feasible():
          continue
        dd = apply_lit(d, at, v)
        if not self.zero(dd, c2, depth + 1):
          return False
      return True
    if self.leaf(d, ctx):
      STATS['z3_leaf'] += 1
      return True
    return False

  def ties(self, d):
    """[-p<0] -> 1-[p<0] where its coefficient vanishes when p = 0."""
    for _ in range(8):
      lts = [T.atom(a) for m in d.terms for a, _ in m
             if T.atom(a).kind == 'lt']
      by = {at.args[0].pid: at for at in lts}
      done = False
      for at in {x.id: x for x in lts}.values():
        q = neg(at.args[0])
        other = by.get(q.pid)
        if other is None or other.id >= at.id:
          continue
        coef = T.mkpoly({tuple(x for x in m if x[0] != at.id): c
                         for m, c in d.terms.items()
                         if any(x[0] == at.id for x in m)})
        if _vanishes(coef, q):
          d = T.subst(d, {at.id: add(ONE, neg(T.from_atom(other)))})
          done = True
          break
      if not done or d is ZERO:
        return d
    return d

  def pick(self, d):
    """an indicator without bound variables; innermost (lowest id) last."""
    ats = T.all_atoms(d)
    top = {a for m in d.terms for a, _ in m}
    best = None
    for a, at in ats.items():
      if at.is01 and not has_bnd(at):
        # prefer equalities, then small ones, then top-level
        size = len(at.args[0].terms) if at.kind in ('eq', 'lt') else 1
        rank = (a in top, {'eq': 2, 'read': 1, 'lt': 0}.get(at.kind, 1),
                -size, a)
        if best is None or rank > best[0]:
          best = (rank, at)
    return best[1] if best else None

  def leaf(self, d, ctx):
    if len(d.terms) > 60:
      return False
    z = Z()
    try:
      g = z.poly(d)
    except Exception:  # pylint: disable=broad-except
      return False
    gs = [g != 0]
    for at, v in ctx.lits:
      if at.kind in ('eq', 'lt'):
        p = z.poly(at.args[0])
        c = (p == 0) if at.kind == 'eq' else (p < 0)
        gs.append(c if v else z3.Not(c))
      else:
        gs.append(z.atom(at) == v)
    r, _ = _solve(z, gs, 3000)
    return r == z3.unsat

  # congruence: unify same-head opaque atoms with provably equal arguments
  def congruence(self, d, ctx, depth):
    tried = set()
    for _ in range(30):
      ats = [at for at in T.all_atoms(d).values()
             if at.kind in ('app', 'sum', 'max', 'argmax', 'exp', 'log', 'pol',
                            'lt', 'eq', 'read', 'perm', 'rank', 'fn', 'idiv',
                            'imod') and not has_bnd(at)]
      ats.sort(key=lambda t: (t.height, t.id))
      groups = {}
      for at in ats:
        groups.setdefault(self._head(at), []).append(at)
      done = False
      for h, lst in groups.items():
        if len(lst) < 2 or h is None:
          continue
        for i in range(len(lst)):
          for j in range(i):
            k = (lst[i].id, lst[j].id)
            if k in tried:
              continue
            tried.add(k)
            self.tick()
            if self._args_equal(lst[j], lst[i], ctx, depth):
              d = T.subst(d, {lst[i].id: T.from_atom(lst[j])})
              done = True
              break
          if done:
            break
        if done:
          break
      if not done or d is ZERO:
        return d
    return d

  def _head(self, at):
    if at.kind == 'app':
      return ('app', at.args[0], len(at.args))
    if at.kind == 'read':
      return ('read', at.args[0]) if len(at.args) > 1 else None
    if at.kind in ('sum', 'max', 'argmax'):
      return (at.kind, tuple(s.pid for s in at.args[0].sizes))
    if at.kind == 'fn':
      return ('fn', at.args[0])
    if at.kind in ('perm', 'rank'):
      return None
    if at.kind in ('exp', 'log', 'pol', 'lt', 'eq', 'idiv', 'imod'):
      return (at.kind,)
    return None

  def _args_equal(self, a, b, ctx, depth):
    # cheap filters
    if a.kind in ('exp', 'log', 'pol', 'lt', 'eq', 'idiv', 'imod', 'read',
                  'fn'):
      if depth >= 3 and a.kind != 'read':
        return False
    if a.kind == 'read':
      pairs = list(zip(a.args[1:], b.args[1:]))
    elif a.kind == 'fn':
      pairs = [(a.args[1], b.args[1])]
    elif a.kind == 'app':
      pairs = list(zip(a.args[1:], b.args[1:]))
    else:
      pairs = list(zip(a.args, b.args))
    for x, y in pairs:
      if x is y:
        continue
      if isinstance(x, Lam):
        if not isinstance(y, Lam) or len(x.sizes) != len(y.sizes) or any(
            s is not t for s, t in zip(x.sizes, y.sizes)):
          return False
        vs, _, bx = T.open_lam(x)
        by = T.apply_lam(y, vs)
        diff = add(bx, neg(by))
      elif isinstance(x, Poly):
        diff = add(x, neg(y))
      else:
        if x != y:
          return False
        continue
      if diff is ZERO:
        continue
      if T.is_const(diff):
        return False
      if not self._plausible(diff):
        return False
      sub = Prover(0)
      sub.t_end = self.t_end
      sub.max_split = min(self.max_split, depth + 8)
      if not sub.zero(diff, ctx, depth + 1):
        return False
    return True

  def _plausible(self, d):
    """numeric filter: evaluate d under pseudo-random atom values."""
    from evalt import quick_zero  # pylint: disable=import-outside-toplevel
    return quick_zero(d)


def _DIMV():
  return frozenset(T.atom_of(T.dim(k, v)).id for k, v in T.DIMS.items())


def _vanishes(coef, p):
  """coef = 0 wherever p = 0 (sufficient test)."""
  if not coef.terms:
    return True
  groups = [coef]
  # common monomial factor / split by indicators
  inds = {a for m in coef.terms for a, _ in m if T.atom(a).is01}
  for a in inds:
    nxt = []
    for g in groups:
      w = T.mkpoly({tuple(x for x in m if x[0] != a): c
                    for m, c in g.terms.items() if any(x[0] == a for x in m)})
      wo = T.mkpoly({m: c for m, c in g.terms.items()
                     if not any(x[0] == a for x in m)})
      nxt += [add(w, wo), wo]
    groups = [g for g in nxt if g.terms]
    if len(groups) > 32:
      return False
  for g in groups:
    if T.ratio(g, p) is not None:
      continue
    ok = False
    if len(g.terms) == 2:
      (m1, c1), (m2, c2) = g.terms.items()
      com = dict(m1)
      m2d = dict(m2)
      fac = {}
      for a in com:
        if a in m2d and com[a] == m2d[a]:
          fac[a] = com[a]
      h = T.mkpoly({tuple(x for x in m1 if x[0] not in fac): c1,
                    tuple(x for x in m2 if x[0] not in fac): c2})
      lf = T.log_form(T.scale(h, 1 / abs(c1)) if c1 == -c2 else h)
      if lf is not None and T.ratio(lf, p) is not None:
        ok = True
    if not ok:
      return False
  return True


def _literals(g):
  """g (0/1 poly) assumed ONE -> list of literals, best effort."""
  if g is ONE:
    return []
  if len(g.terms) == 1:
    (m, c), = g.terms.items()
    if c == 1:
      return [(T.atom(a), 1) for a, _ in m]
  h = add(ONE, neg(g))
  if len(h.terms) == 1:
    (m, c), = h.terms.items()
    if c == 1 and len(m) == 1:
      return [(T.atom(m[0][0]), 0)]
  return []


def clear_denoms(d):
  """multiply by denominators (assumed non-zero) and expand."""
  for _ in range(12):
    worst = None
    for m in d.terms:
      for a, e in m:
        if e < 0:
          if worst is None or T.atom(a).height > T.atom(worst[0]).height:
            worst = (a, e)
    if worst is None:
      return d
    a = worst[0]
    e = min(x for m in d.terms for b, x in m if b == a)
    if e.denominator != 1:
      return d
    at = T.atom(a)
    base = at.args[0] if at.kind == 'pol' else T.from_atom(at)
    out = []
    for m, c in d.terms.items():
      p = dict(m).get(a, 0)
      rest = tuple(x for x in m if x[0] != a)
      q = mul(T.mkpoly({rest: c}), T.power(base, p - e))
      out.append(q)
    try:
      d = add(*out)
    except Unsupported:
      return d
    if d is ZERO:
      return d
    if len(d.terms) > 3000:
      return d
  return d
