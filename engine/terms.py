"""Canonical terms of the verification engine.

One numeric sort (mathematical reals/integers).  A term is a polynomial with
rational coefficients over *atoms*; predicates are 0/1-valued atoms, so
select(c,a,b) is c*a+(1-c)*b.  Terms are hash-consed: two terms that the
normaliser can prove equal are the same Python object.

Atoms: variables, array reads, comparison indicators, exp/log, powers of
polynomials, sums/maxima/argmax over (symbolically sized) index ranges,
integer div/mod, and applications of uninterpreted functions to rows.
"""
from fractions import Fraction
from functools import lru_cache
import itertools
import sys

sys.setrecursionlimit(100000)

ONE_F = Fraction(1)


class Unsupported(Exception):
  """The engine cannot represent something (never a verdict)."""


# --------------------------------------------------------------------------
# interning
# --------------------------------------------------------------------------
_atoms = []
_atom_tab = {}
_poly_tab = {}
_lam_tab = {}
_fresh = [0]
UNROLL = 6


class Atom:
  __slots__ = ('id', 'kind', 'args', 'fv', 'height', 'lo', 'hi', 'isint',
               'is01', 'pos', 'extra')

  def __repr__(self):
    return show_atom(self)


class Poly:
  __slots__ = ('terms', 'key', 'fv', 'height', '_isint', '_hash', 'pid', '_b')

  def __hash__(self):
    return self._hash

  def __eq__(self, o):
    return self is o

  def __repr__(self):
    return show(self)

  # arithmetic sugar
  def __add__(self, o):
    return add(self, lift(o))

  __radd__ = __add__

  def __sub__(self, o):
    return add(self, neg(lift(o)))

  def __rsub__(self, o):
    return add(lift(o), neg(self))

  def __mul__(self, o):
    return mul(self, lift(o))

  __rmul__ = __mul__

  def __neg__(self):
    return neg(self)


class Lam:
  __slots__ = ('sizes', 'body', 'fv', 'height', 'bnds', 'id')

  def __repr__(self):
    return 'λ%s.%s' % (','.join('%r<%s' % (b, s) for b, s in
                                 zip(self.bnds, self.sizes)), show(self.body))


def lift(x):
  if isinstance(x, Poly):
    return x
  if isinstance(x, Atom):
    return from_atom(x)
  if isinstance(x, bool):
    return const(int(x))
  if isinstance(x, (int, Fraction)):
    return const(x)
  raise TypeError('lift %r' % (x,))


def mkpoly(d):
  d = {m: c for m, c in d.items() if c != 0}
  key = tuple(sorted(d.items()))
  p = _poly_tab.get(key)
  if p is None:
    p = Poly()
    p.terms = d
    p.key = key
    fv = frozenset()
    h = 0
    for m in d:
      for a, _ in m:
        at = _atoms[a]
        fv |= at.fv
        h = max(h, at.height)
    p.fv = fv
    p.height = h
    p._isint = None
    p._b = None
    p._hash = hash(key)
    p.pid = len(_poly_tab)
    _poly_tab[key] = p
  return p


def const(c):
  c = Fraction(c)
  return mkpoly({(): c} if c else {})


def from_atom(a):
  return mkpoly({((a.id, ONE_F),): ONE_F})


def is_const(p):
  return not p.terms or (len(p.terms) == 1 and () in p.terms)


def const_val(p):
  return p.terms.get((), Fraction(0))


def _mk_atom(kind, args, lo=None, hi=None, isint=False, is01=False, pos=False,
             extra=None):
  k = (kind,) + tuple(a if not isinstance(a, (Poly, Lam)) else
                      ('P' if isinstance(a, Poly) else 'L',
                       a.pid if isinstance(a, Poly) else a.id) for a in args)
  at = _atom_tab.get(k)
  if at is None:
    at = Atom()
    at.id = len(_atoms)
    at.kind = kind
    at.args = tuple(args)
    fv = frozenset()
    h = 0
    for a in args:
      if isinstance(a, (Poly, Lam)):
        fv |= a.fv
        h = max(h, a.height)
    if kind in ('var', 'bnd'):
      fv = frozenset([at.id])
    at.fv = fv
    at.height = h
    at.lo = const(0) if is01 else lo
    at.hi = const(1) if is01 else hi
    at.isint = isint or is01
    at.is01 = is01
    at.pos = pos
    at.extra = extra
    _atoms.append(at)
    _atom_tab[k] = at
  return at


def atom(i):
  return _atoms[i]


ZERO = const(0)
ONE = const(1)


def var(name, lo=None, hi=None, isint=False, is01=False, pos=False):
  return from_atom(_mk_atom('var', (name,), lo, hi, isint, is01, pos))


def fresh(size, tag='i'):
  """fresh index variable ranging over [0,size)."""
  _fresh[0] += 1
  return var('%s$%d' % (tag, _fresh[0]), ZERO, lift(size) - 1, True)


def read(name, idx, lo=None, hi=None, isint=False, is01=False, pos=False):
  """lo/hi: polys (may use idx already substituted)."""
  return from_atom(_mk_atom('read', (name,) + tuple(idx), lo, hi, isint, is01,
                            pos))


# --------------------------------------------------------------------------
# arithmetic
# --------------------------------------------------------------------------
def add(*ps):
  d = {}
  for p in ps:
    for m, c in p.terms.items():
      s = d.get(m, 0) + c
      if s:
        d[m] = s
      else:
        d.pop(m, None)
  return cancel(mkpoly(d))


def neg(p):
  return mkpoly({m: -c for m, c in p.terms.items()})


def scale(p, c):
  c = Fraction(c)
  return mkpoly({m: v * c for m, v in p.terms.items()}) if c else ZERO


_mono_memo = {}


def mono_mul(m1, m2):
  """product of two monomials -> Poly (usually a single monomial)."""
  if not m1 and not m2:
    return ONE
  k = (m1, m2) if m1 <= m2 else (m2, m1)
  r = _mono_memo.get(k)
  if r is not None:
    return r
  d = {}
  exps = []
  for m in (m1, m2):
    for a, p in m:
      if _atoms[a].kind == 'exp':
        exps.append((a, p))
      else:
        d[a] = d.get(a, 0) + p
  out = []
  extra = []
  for a, p in d.items():
    if p == 0:
      continue
    at = _atoms[a]
    if at.is01 and p > 0:
      p = ONE_F
    if at.kind == 'pol' and p.denominator == 1 and p > 0:
      extra.append(ipow(at.args[0], int(p)))
      continue
    out.append((a, p))
  # contradictory equalities
  if len(exps) == 1 and exps[0][1] == 1:
    out.append(exps[0])
    exps = []
  base = mkpoly({tuple(sorted(out)): ONE_F})
  if exps:
    arg = add(*[scale(_atoms[a].args[0], p) for a, p in exps])
    e = exp(arg)
    if len(e.terms) == 1:
      (em, ec), = e.terms.items()
      # exp() may return atoms besides an exp; recombine
      if all(_atoms[a].kind == 'exp' and p == 1 for a, p in em):
        base = mkpoly({tuple(sorted(out + list(em))): ec})
      else:
        base = mul(base, e)
    else:
      base = mul(base, e)
  for q in extra:
    base = mul(base, q)
  # [v = e] * f(v)  ->  [v = e] * f(e)
  if len(base.terms) == 1:
    (bm, bc), = base.terms.items()
    for a, _ in bm:
      at = _atoms[a]
      if at.kind == 'eq':
        s = eq_var(at)
        if s is not None and any(s[0] in _atoms[x].fv for x, _ in bm
                                 if x != a):
          rest = mkpoly({tuple(x for x in bm if x[0] != a): bc})
          base = mul(from_atom(at), subst(rest, {s[0]: s[1]}))
          break
  _mono_memo[k] = base
  return base


_eqvar_memo = {}


def eq_var(at):
  """for [p=0]: (variable id, value) eliminating an index-like variable."""
  r = _eqvar_memo.get(at.id, 0)
  if r != 0:
    return r
  p = at.args[0]
  best = None
  for m, c in p.terms.items():
    if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
      v = _atoms[m[0][0]]
      if v.kind == 'bnd' or (v.kind == 'var' and v.args[0] not in DIMS):
        if not v.isint or v.is01:
          continue
        if best is None or v.id > best:
          s = linear_solve(p, v.id)
          if s is not None:
            best = v.id
  r = None if best is None else (best, linear_solve(p, best))
  _eqvar_memo[at.id] = r
  return r


_mul_memo = {}
MAXTERMS = [20000]


def mul(p, q):
  if not p.terms or not q.terms:
    return ZERO
  if is_const(p):
    return scale(q, const_val(p))
  if is_const(q):
    return scale(p, const_val(q))
  k = (p.pid, q.pid) if p.pid <= q.pid else (q.pid, p.pid)
  r = _mul_memo.get(k)
  if r is not None:
    return r
  if len(p.terms) * len(q.terms) > MAXTERMS[0]:
    raise Unsupported('term explosion in mul')
  d = {}
  for m1, c1 in p.terms.items():
    for m2, c2 in q.terms.items():
      r = mono_mul(m1, m2)
      c = c1 * c2
      for m, v in r.terms.items():
        s = d.get(m, 0) + v * c
        if s:
          d[m] = s
        else:
          d.pop(m, None)
  r = cancel(mkpoly(d))
  _mul_memo[k] = r
  return r


def ipow(p, k):
  r = ONE
  for _ in range(k):
    r = mul(r, p)
  return r


def prod(ps):
  r = ONE
  for p in ps:
    r = mul(r, p)
  return r


SIGMOID = False


# cancel P * P^-1 ----------------------------------------------------------
def cancel(p):
  """exact cancellation of negative powers of multi-term polynomials."""
  pols = set()
  for m in p.terms:
    for a, e in m:
      if e < 0 and _atoms[a].kind == 'pol':
        pols.add((a, e))
  if not pols:
    return p
  for a, e in sorted(pols):
    base = _atoms[a].args[0]
    num = {}
    rest = {}
    for m, c in p.terms.items():
      if (a, e) in m:
        num[tuple(x for x in m if x != (a, e))] = c
      else:
        rest[m] = c
    if SIGMOID and e == -1 and len(base.terms) == 2 and base.terms.get(
        ()) == 1:
      (em, ec), = [t for t in base.terms.items() if t[0]]
      if ec == 1 and len(em) == 1 and _atoms[em[0][0]].kind == 'exp':
        hit = [m for m in num if em[0] in m]
        if hit:
          # E * (1 + E)^-1 = 1 - (1 + E)^-1
          res = dict(rest)
          for m, c in num.items():
            if em[0] in m:
              m = tuple(x for x in m if x != em[0])
              res[m] = res.get(m, 0) + c
              c = -c
            k = tuple(sorted(m + ((a, e),)))
            res[k] = res.get(k, 0) + c
          return cancel(mkpoly(res))
    if len(num) < 2:
      continue
    q, r = pdivmod(num, base)
    if q:
      d = dict(rest)
      if e + 1 != 0:
        pw = ((a, e + 1),)
      else:
        pw = ()
      res = mkpoly(d)
      res = _add_raw(res, _mul_raw(mkpoly(q), mkpoly({pw: ONE_F})))
      res = _add_raw(res, _mul_raw(mkpoly(r), mkpoly({((a, e),): ONE_F})))
      return cancel(res)
  return p


def _add_raw(p, q):
  d = dict(p.terms)
  for m, c in q.terms.items():
    d[m] = d.get(m, 0) + c
  return mkpoly(d)


def _mul_raw(p, q):
  d = {}
  for m1, c1 in p.terms.items():
    for m2, c2 in q.terms.items():
      for m, v in mono_mul(m1, m2).terms.items():
        d[m] = d.get(m, 0) + v * c1 * c2
  return mkpoly(d)


def mono_div(m, n):
  """m / n as monomial (exp-aware); None when not a plain quotient."""
  d = dict(m)
  e_arg = None
  for a, p in n:
    if _atoms[a].kind == 'exp':
      e_arg = scale(_atoms[a].args[0], p)
      continue
    if d.get(a, 0) < p:
      return None
    d[a] -= p
    if d[a] == 0:
      del d[a]
  if e_arg is not None:
    me = ZERO
    for a in list(d):
      if _atoms[a].kind == 'exp':
        me = add(me, scale(_atoms[a].args[0], d.pop(a)))
    e = exp(add(me, neg(e_arg)))
    if len(e.terms) != 1:
      return None
    (em, ec), = e.terms.items()
    if ec != 1:
      return None
    for a, p in em:
      d[a] = d.get(a, 0) + p
  return tuple(sorted(d.items()))


def pdivmod(num, base):
  """greedy: extract multiples of base (all of whose terms are present)."""
  num = dict(num)
  q = {}
  bterms = list(base.terms.items())
  # a base term used as pivot: prefer the one with the most atoms, no exps
  piv_m, piv_c = max(bterms, key=lambda t: (len(t[0]), t[0]))
  changed = True
  rounds = 0
  while changed and rounds < 200:
    changed = False
    rounds += 1
    for m, c in list(num.items()):
      if m not in num:
        continue
      t = mono_div(m, piv_m)
      if t is None:
        continue
      k = num[m] / piv_c
      prodp = _mul_raw(mkpoly({t: k}), base)
      # all terms must be present with the same coefficient
      if all(num.get(mm) == cc for mm, cc in prodp.terms.items()):
        for mm in prodp.terms:
          del num[mm]
        q[t] = q.get(t, 0) + k
        changed = True
  return q, num


# --------------------------------------------------------------------------
# integrality, bounds
# --------------------------------------------------------------------------
def isint(p):
  if p._isint is None:
    ok = True
    for m, c in p.terms.items():
      if c.denominator != 1 or any(
          not _atoms[a].isint or e < 0 or e.denominator != 1 for a, e in m):
        ok = False
        break
    p._isint = ok
  return p._isint


def atom_bounds(at):
  return at.lo, at.hi


_z3ctx = {}


def quick_lo(p, depth=0):
  """cheap lower bound as Fraction or None."""
  return _qb(p, depth)[0]


def _qb(p, depth=0):
  """numeric interval (lo,hi) with None for unknown; dims are >=1."""
  if p._b is not None:
    return p._b
  lo = Fraction(0)
  hi = Fraction(0)
  for m, c in p.terms.items():
    l, h = Fraction(1), Fraction(1)
    for a, e in m:
      at = _atoms[a]
      al, ah = _ab(at, depth)
      if e != 1:
        if e > 0 and e.denominator == 1 and al is not None and al >= 0:
          al = al**int(e)
          ah = None if ah is None else ah**int(e)
        elif e.denominator == 1 and int(e) % 2 == 0:
          al, ah = Fraction(0), None
        elif al is not None and al >= 0:
          al, ah = Fraction(0), None
        else:
          al, ah = None, None
      l, h = _imul(l, h, al, ah)
    if c < 0:
      l, h = h, l
    l = None if l is None else l * c
    h = None if h is None else h * c
    lo = None if (lo is None or l is None) else lo + l
    hi = None if (hi is None or h is None) else hi + h
  if depth == 0:
    p._b = (lo, hi)
  return lo, hi


def _imul(al, ah, bl, bh):
  if al is not None and al >= 0 and bl is not None and bl >= 0:
    return al * bl, (None if ah is None or bh is None else ah * bh)
  if None not in (al, ah, bl, bh):
    c = [al * bl, al * bh, ah * bl, ah * bh]
    return min(c), max(c)
  return None, None


def _ab(at, depth):
  if at.is01:
    return Fraction(0), Fraction(1)
  if depth > 4:
    return (Fraction(0), None) if at.pos else (None, None)
  l = h = None
  if at.lo is not None:
    l = _qb(at.lo, depth + 1)[0]
  if at.hi is not None:
    h = _qb(at.hi, depth + 1)[1]
  if at.pos and (l is None or l < 0):
    l = Fraction(0)
  return l, h


# Bound substitution: eliminate index-like atoms by their symbolic bounds.
def sub_bounds(p, want_lo, fuel=24):
  """poly lower (upper) bound obtained by replacing linear atoms by their
  symbolic bounds, or None."""
  cur = p
  for _ in range(fuel):
    # pick atom with symbolic bounds that is not a plain dim
    cand = None
    for m in cur.terms:
      for a, e in m:
        at = _atoms[a]
        if at.kind == 'var' and at.extra is None and at.args[0] in DIMS:
          continue
        if e != 1:
          return None
        if cand is None or a > cand.id:
          cand = at
    if cand is None:
      return cur
    a = cand.id
    # cur = a*co + rest
    co, rest = {}, {}
    for m, c in cur.terms.items():
      if any(x == a for x, _ in m):
        co[tuple(x for x in m if x[0] != a)] = c
      else:
        rest[m] = c
    co = mkpoly(co)
    cl, ch = _qb(co)
    if cl is not None and cl >= 0:
      b = cand.lo if want_lo else cand.hi
    elif ch is not None and ch <= 0:
      b = cand.hi if want_lo else cand.lo
    else:
      return None
    if b is None:
      if want_lo and cand.pos and cl is not None and cl >= 0:
        b = ZERO
      elif (not want_lo) and cand.pos and ch is not None and ch <= 0:
        b = ZERO
      else:
        return None
    cur = add(mul(b, co), mkpoly(rest))
  return None


DIMS = {}  # name -> lower bound int
_nonneg_memo = {}


def dim(name, lo=1):
  DIMS[name] = max(lo, DIMS.get(name, 1)) if name in DIMS else lo
  return var(name, const(lo), None, True, pos=True)


def dim_shift(p):
  """substitute every dim d by d'+lo, then all-nonneg coefficients => >=0."""
  if not p.terms:
    return True
  names = {}
  for m in p.terms:
    for a, e in m:
      at = _atoms[a]
      if at.kind != 'var' or at.args[0] not in DIMS:
        return False
      names[a] = DIMS[at.args[0]]
  sub = {a: add(var('%s~' % _atoms[a].args[0], ZERO, None, True),
                const(lo)) for a, lo in names.items()}
  q = subst(p, sub)
  return all(c >= 0 for c in q.terms.values())


def nonneg(p):
  """proves p >= 0 for all values within declared bounds (sound, cheap)."""
  lo, hi = _qb(p)
  if lo is not None and lo >= 0:
    return True
  if hi is not None and hi < 0:
    return False
  k = p.pid
  r = _nonneg_memo.get(k)
  if r is not None:
    return r
  _nonneg_memo[k] = False
  r = False
  b = sub_bounds(p, True)
  if b is not None and dim_shift(b):
    r = True
  if not r and EXTRA_NONNEG is not None and isint(p) and len(p.terms) <= 12:
    r = EXTRA_NONNEG(p)
  _nonneg_memo[k] = r
  return r


EXTRA_NONNEG = None  # optional z3-backed prover


def is_pos(p):
  """proves p > 0."""
  if isint(p):
    return nonneg(p - 1)
  lo = _qb(p)[0]
  if lo is not None and lo > 0:
    return True
  # all terms positive atoms with positive coefs
  for m, c in p.terms.items():
    if c <= 0:
      return False
    for a, e in m:
      at = _atoms[a]
      if not (at.pos and at.kind in ('exp', 'sum', 'pol')) and not (
          at.pos) and not (at.lo is not None and (_ab(at, 0)[0] or 0) > 0):
        return False
  return bool(p.terms)


# --------------------------------------------------------------------------
# binders
# --------------------------------------------------------------------------
_open_cache = {}


def _bnd(h, size):
  return _mk_atom('bnd', (h, size), ZERO, add(size, const(-1)), True)


def close(vs, sizes, body):
  """Lam over fresh variables vs (polys that are single vars)."""
  h = body.height
  for s in sizes:
    h = max(h, s.height)
  sub = {}
  bnds = []
  for k, (v, s) in enumerate(zip(vs, sizes)):
    s = subst(s, sub) if sub else s
    bd = _bnd(h + 1 + k, s)
    bnds.append(bd)
    sub[atom_of(v).id] = from_atom(bd)
  b = _subst_novar(body, sub)
  sz = tuple(bd.args[1] for bd in bnds)
  key = (tuple(s.pid for s in sz), b.pid, h)
  lam = _lam_tab.get(key)
  if lam is None:
    lam = Lam()
    lam.sizes = sz
    lam.body = b
    lam.bnds = tuple(bnds)
    lam.fv = (b.fv | frozenset().union(*[s.fv for s in sz])) - frozenset(
        x.id for x in bnds)
    lam.height = h + len(vs)
    lam.id = len(_lam_tab)
    _lam_tab[key] = lam
  return lam


def _subst_novar(p, sub):
  """rename variables (var->bnd) without renormalising binders' meaning."""
  return subst(p, sub)


def atom_of(p):
  if len(p.terms) != 1:
    raise Unsupported('not an atom: %s' % show(p))
  (m, c), = p.terms.items()
  if c != 1 or len(m) != 1 or m[0][1] != 1:
    raise Unsupported('not an atom: %s' % show(p))
  return _atoms[m[0][0]]


def open_lam(lam, tag='o'):
  vs = []
  sub = {}
  for bd, s in zip(lam.bnds, lam.sizes):
    s2 = subst(s, sub)
    v = fresh(s2, tag)
    vs.append(v)
    sub[bd.id] = v
  sizes = [subst(s, sub) for s in lam.sizes]
  return vs, sizes, subst(lam.body, sub)


def apply_lam(lam, idx):
  sub = {bd.id: lift(i) for bd, i in zip(lam.bnds, idx)}
  return subst(lam.body, sub)


_subst_memo = {}
_rebuild = {}


def subst(p, sub, memo=None):
  """capture-avoiding simultaneous substitution of atoms by polys."""
  if not sub or p.fv.isdisjoint(sub) and not _has_nonvar(sub):
    return p
  k0 = tuple(sorted((a, q.pid) for a, q in sub.items()))
  return _subst(p, sub, k0)


def _has_nonvar(sub):
  return any(_atoms[a].kind not in ('var', 'bnd') for a in sub)


def _subst(p, sub, k0):
  nv = _has_nonvar(sub)
  if not nv and p.fv.isdisjoint(sub):
    return p
  k = (p.pid, k0)
  r = _subst_memo.get(k)
  if r is not None:
    return r
  acc = []
  changed = False
  for m, c in p.terms.items():
    out = None
    keep = []
    for a, e in m:
      at = _atoms[a]
      if a in sub:
        q = power(sub[a], e)
      elif nv or not at.fv.isdisjoint(sub):
        q = power(_subst_atom(at, sub, k0), e)
      else:
        keep.append((a, e))
        continue
      out = q if out is None else mul(out, q)
    if out is None:
      acc.append(mkpoly({m: c}))
    else:
      changed = True
      acc.append(mul(mkpoly({tuple(keep): c}), out))
  r = add(*acc) if changed else p
  _subst_memo[k] = r
  return r


_satom_memo = {}


def _subst_atom(at, sub, k0):
  if at.id in sub:
    return sub[at.id]
  k = (at.id, k0)
  r = _satom_memo.get(k)
  if r is not None:
    return r
  if at.kind in ('var', 'bnd'):
    return from_atom(at)
  args = []
  same = True
  for a in at.args:
    if isinstance(a, Poly):
      b = _subst(a, sub, k0)
    elif isinstance(a, Lam):
      b = _subst_lam(a, sub, k0)
    else:
      b = a
    same &= b is a
    args.append(b)
  r = from_atom(at) if same else _rebuild[at.kind](args, at)
  if same and at.kind == 'read' and False:
    pass
  _satom_memo[k] = r
  return r


def _subst_lam(lam, sub, k0):
  nv = _has_nonvar(sub)
  if not nv and lam.fv.isdisjoint(sub):
    return lam
  vs, sizes, body = open_lam(lam)
  sizes2 = [_subst(s, sub, k0) for s in sizes]
  body2 = _subst(body, sub, k0)
  if body2 is body and all(a is b for a, b in zip(sizes, sizes2)):
    return lam
  # variables carry their declared size; re-declare if the size changed
  vs2 = []
  ren = {}
  for v, s, s2 in zip(vs, sizes, sizes2):
    s2 = subst(s2, ren)
    if s is s2:
      vs2.append(v)
    else:
      w = fresh(s2, 'o')
      ren[atom_of(v).id] = w
      vs2.append(w)
  if ren:
    body2 = subst(body2, ren)
    sizes2 = [subst(s, ren) for s in sizes2]
  return close(vs2, sizes2, body2)


def _rebuild_read(args, at):
  arr = ARRAYS.get(args[0])
  if arr is None:
    return read(args[0], args[1:])
  return arr.read(args[1:])


ARRAYS = {}


class Array:
  """a symbolic input array: shape, value range as functions of the index."""

  def __init__(self, name, shape, lo=None, hi=None, isint=False, is01=False,
               pos=False, distinct=False):
    self.distinct = distinct  # values along the last axis pairwise different
    self.name, self.shape = name, tuple(lift(s) for s in shape)
    self.lo, self.hi, self.isint, self.is01 = lo, hi, isint, is01
    self.pos = pos
    ARRAYS[name] = self

  def read(self, idx):
    idx = [ZERO if s is ONE else lift(i) for i, s in zip(idx, self.shape)]
    p = read(self.name, idx, self.lo, self.hi, self.isint, self.is01,
             self.pos)
    if RULES:
      r = _read_rule(p)
      if r is not None:
        return r
    return p


_rebuild['read'] = _rebuild_read


# --------------------------------------------------------------------------
# indicators
# --------------------------------------------------------------------------
def indicators(p, only=None):
  """0/1 atoms occurring at top level of p."""
  out = []
  seen = set()
  for m in p.terms:
    for a, e in m:
      at = _atoms[a]
      if at.is01 and a not in seen:
        seen.add(a)
        out.append(at)
  return out


LIFT_MAX = 7


def shannon(p, f, limit=None):
  """f applied under every valuation of p's top-level indicators."""
  inds = indicators(p)
  if not inds:
    return f(p)
  if len(inds) > (limit or LIFT_MAX):
    return None
  a = max(inds, key=lambda t: (skey(t), t.id))
  p1 = assign(p, a, 1)
  p0 = assign(p, a, 0)
  if a.kind == 'eq':
    s = eq_var(a)
    if s is not None:
      p1 = subst(p1, {s[0]: s[1]})
  if p1 is p0:
    return shannon(p1, f, limit)
  f1 = shannon(p1, f, limit)
  f0 = shannon(p0, f, limit)
  if f1 is None or f0 is None:
    return None
  if f1 is f0:
    return f1
  return add(f0, mul(from_atom(a), add(f1, neg(f0))))


def assign(p, at, v):
  """top-level substitution of an indicator by 0/1 (not inside other atoms)."""
  d = {}
  a = at.id
  ch = False
  for m, c in p.terms.items():
    if any(x == a for x, _ in m):
      ch = True
      if v:
        m = tuple(x for x in m if x[0] != a)
      else:
        continue
    d[m] = d.get(m, 0) + c
  return cancel(mkpoly(d)) if ch else p


_sk_memo = {}
_skp_memo = {}


def skey(at):
  """structural name of an atom: orientation decisions must not depend on
  the order in which the terms happened to be built."""
  r = _sk_memo.get(at.id)
  if r is not None:
    return r
  if at.kind == 'var':
    r = 'v' + str(at.args[0]).split('$')[0]
  elif at.kind == 'bnd':
    r = 'B%d' % at.args[0]
  else:
    parts = []
    for a in at.args:
      if isinstance(a, Poly):
        parts.append(pkey(a))
      elif isinstance(a, Lam):
        parts.append('L' + pkey(a.body))
      else:
        parts.append(str(a))
    r = at.kind + '(' + ','.join(parts)
  r = r[:80]
  _sk_memo[at.id] = r
  return r


def pkey(p):
  r = _skp_memo.get(p.pid)
  if r is None:
    r = '+'.join(sorted(
        '%s%s' % ('*'.join(sorted(skey(_atoms[a]) + ('' if e == 1 else
                                                     '^%s' % e)
                                  for a, e in m)), '' if c == 1 else c)
        for m, c in p.terms.items()))[:80]
    _skp_memo[p.pid] = r
  return r


def lead_sign(p):
  """canonical sign by the largest non-constant monomial."""
  ms = [m for m in p.terms if m]
  if not ms:
    return 1
  if len(ms) == 1:
    return 1 if p.terms[ms[0]] > 0 else -1
  best = max(ms, key=lambda m: (sorted(skey(_atoms[a]) for a, _ in m), m))
  return 1 if p.terms[best] > 0 else -1


def content(p):
  """positive rational content."""
  from math import gcd
  num, den = 0, 1
  for c in p.terms.values():
    num = gcd(num, abs(c.numerator))
    den = den * c.denominator // gcd(den, c.denominator)
  return Fraction(num, den) if num else ONE_F


def content_nonconst(p):
  from math import gcd
  num, den = 0, 1
  for m, c in p.terms.items():
    if m:
      num = gcd(num, abs(c.numerator))
      den = den * c.denominator // gcd(den, c.denominator)
  return Fraction(num, den) if num else ONE_F


_eq_memo = {}


def recombine(p):
  """D*idiv(a,D) + imod(a,D) = a."""
  for m, c in p.terms.items():
    if len(m) == 1 and m[0][1] == 1:
      at = _atoms[m[0][0]]
      if at.kind == 'imod':
        a, D = at.args
        dv = _atom_tab.get(('idiv', ('P', a.pid), ('P', D.pid)))
        if dv is None:
          continue
        q = mul(D, from_atom(dv))
        if len(q.terms) != 1:
          continue
        (qm, qc), = q.terms.items()
        if p.terms.get(qm) == c * qc:
          return recombine(add(p, scale(add(a, neg(from_atom(at)), neg(q)), c)))
  return p


def eq0(p):
  """indicator [p == 0]."""
  p = recombine(p)
  if is_const(p):
    return ONE if const_val(p) == 0 else ZERO
  k = p.pid
  r = _eq_memo.get(k)
  if r is None:
    r = _eq0(p)
    _eq_memo[k] = r
  return r


def _eq0(p):
  if isint(p) or len(indicators(p)) <= 2:
    r = shannon(p, _eq0_core) if indicators(p) else _eq0_core(p)
    if r is not None:
      return r
  return _eq0_core(p)


def _eq0_core(p):
  if is_const(p):
    return ONE if const_val(p) == 0 else ZERO
  if isint(p):
    c = content_nonconst(p)
    cv = const_val(p)
    if (cv / c).denominator != 1:
      return ZERO
    p = scale(p, 1 / c)
    if lead_sign(p) < 0:
      p = neg(p)
    if nonneg(p - 1) or nonneg(neg(p) - 1):
      return ZERO
    # mixed radix split: p = D*q + r with |r| < D
    for D in _dim_factors(p):
      q, r = _split_factor(p, D)
      if q.terms and r.terms and isint(r) and isint(q):
        Dp = from_atom(D)
        if nonneg(Dp - 1 - r) and nonneg(r + Dp - 1):
          return mul(eq0(q), eq0(r))
    # D*q == 0 with D >= 1
    for D in _dim_factors(p):
      q, r = _split_factor(p, D)
      if not r.terms:
        return eq0(q)
  else:
    p = scale(p, 1 / content(p))
    if lead_sign(p) < 0:
      p = neg(p)
    if is_pos(p) or is_pos(neg(p)):
      return ZERO
    if _NEGINF_M in p.terms and all(_finite(m) for m in p.terms
                                    if m != _NEGINF_M):
      return ZERO
  r = _distinct_eq(p)
  if r is not None:
    return r
  if RULES:
    r = _rule('eq', p)
    if r is not None:
      return r
  return from_atom(_mk_atom('eq', (p,), is01=True))


def _finite(m, depth=0):
  """the monomial is a finite real number (inputs are)."""
  for a, e in m:
    at = _atoms[a]
    if at.kind in ('inf', 'neginf') or (e < 0 and not at.pos):
      return False
    if at.kind == 'log' and not is_pos(at.args[0]):
      return False
    if at.kind in ('read', 'var', 'eq', 'lt'):
      continue
    if depth > 6:
      return False
    for x in at.args:
      if isinstance(x, Lam):
        x = x.body
      if isinstance(x, Poly) and not all(
          _finite(t, depth + 1) for t in x.terms):
        return False
  return True


def _distinct_eq(p):
  if len(p.terms) != 2 or () in p.terms:
    return None
  ats = []
  for m, c in p.terms.items():
    if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
      return None
    ats.append((_atoms[m[0][0]], c))
  (a, ca), (b, cb) = ats
  if ca + cb != 0 or a.kind != 'read' or b.kind != 'read' or (
      a.args[0] != b.args[0] or len(a.args) != len(b.args)):
    return None
  arr = ARRAYS.get(a.args[0])
  if arr is None or not arr.distinct or any(
      x is not y for x, y in zip(a.args[1:-1], b.args[1:-1])):
    return None
  return eq0(add(a.args[-1], neg(b.args[-1])))


# universally quantified preconditions used as rewrite rules:
# (kind, array name, index position of the quantified variable, variable,
#  pattern polynomial, value)
RULES = []


_RULE_OFF = [0]


def _pat(pat, sub):
  _RULE_OFF[0] += 1
  try:
    return subst(pat, sub)
  finally:
    _RULE_OFF[0] -= 1


def _rule(kind, p):
  if _RULE_OFF[0]:
    return None
  for k, nm, pos, pat, val in RULES:
    if k != kind:
      continue
    for at in list(_top_reads(p)):
      if at.args[0] != nm:
        continue
      q = _pat(pat, {v: at.args[i] for v, i in pos})
      if q is p or (kind == 'eq' and neg(q) is p):
        return val
  return None


def _top_reads(p):
  for m in p.terms:
    for a, _ in m:
      at = _atoms[a]
      if at.kind == 'read':
        yield at


def add_rule(g, vs):
  """g(vs) (0/1 polynomial) holds for every value of the variables vs."""
  for lit, val in ((g, ONE), (add(ONE, neg(g)), ZERO)):
    if len(lit.terms) != 1:
      continue
    (m, c), = lit.terms.items()
    if c != 1 or len(m) != 1:
      continue
    at = _atoms[m[0][0]]
    if at.kind == 'eq':
      pat, kind = at.args[0], 'eq'
    elif at.kind == 'read':
      pat, kind = lit, 'read'
    else:
      continue

    def where(r):
      pos = []
      for v in vs:
        ks = [k + 1 for k, i in enumerate(r.args[1:]) if i is v]
        if not ks:
          return None
        pos.append((atom_of(v).id, ks[0]))
      return pos

    for r in _top_reads(pat):
      pos = where(r)
      if pos:
        RULES.append((kind, r.args[0], pos, pat, val))
        clear_memos()
        return True
    if kind == 'read':
      # e.g. mask[idx[v]]: quantified variable inside the index
      for k, i in enumerate(at.args[1:]):
        for r in _top_reads(i):
          pos = where(r)
          if pos:
            RULES.append(('read2', (at.args[0], k + 1, r.args[0]), pos, pat,
                          val))
            clear_memos()
            return True
  return False


def clear_memos():
  for d in (_eq_memo, _lt_memo, _exp_memo, _subst_memo):
    d.clear()


def _read_rule(at_poly):
  if _RULE_OFF[0]:
    return None
  r = _rule('read', at_poly)
  if r is not None:
    return r
  at = atom_of(at_poly)
  for k, nm, pos, pat, val in RULES:
    if k == 'read2' and at.args[0] == nm[0]:
      for rd in _top_reads(at.args[nm[1]]):
        if rd.args[0] == nm[2] and _pat(
            pat, {v: rd.args[i] for v, i in pos}) is at_poly:
          return val
  return None


def _dim_factors(p):
  out = []
  for m in p.terms:
    for a, e in m:
      at = _atoms[a]
      if at.kind == 'var' and at.args[0] in DIMS and at not in out:
        out.append(at)
  return out


def _split_factor(p, D):
  q, r = {}, {}
  for m, c in p.terms.items():
    dm = dict(m)
    if D.id in dm and dm[D.id] >= 1:
      e = dm[D.id] - 1
      if e:
        dm[D.id] = e
      else:
        del dm[D.id]
      q[tuple(sorted(dm.items()))] = c
    else:
      r[m] = c
  return mkpoly(q), mkpoly(r)


_lt_memo = {}


def lt0(p):
  """indicator [p < 0]."""
  p = recombine(p)
  if is_const(p):
    return ONE if const_val(p) < 0 else ZERO
  k = p.pid
  r = _lt_memo.get(k)
  if r is None:
    inds = indicators(p)
    r = None
    if inds and (isint(p) or len(inds) <= 2):
      r = shannon(p, _lt0_core)
    if r is None:
      r = _lt0_core(p)
    _lt_memo[k] = r
  return r


def _lt0_core(p):
  if is_const(p):
    return ONE if const_val(p) < 0 else ZERO
  ni = atom_of(NEGINF).id
  for m, c in p.terms.items():
    if m == ((ni, ONE_F),):
      return ONE if c > 0 else ZERO
  if isint(p):
    c = content_nonconst(p)
    cv = const_val(p)
    # sum + cv < 0  <=>  sum/c < -cv/c ; integers
    q = scale(add(p, const(-cv)), 1 / c)
    # q + cv/c < 0 <=> q <= ceil(-cv/c) - 1 <=> q - ceil(-cv/c) < 0
    t = -cv / c
    ceil = -((-t.numerator) // t.denominator)
    p = add(q, const(-ceil))
    if nonneg(p):
      return ZERO
    if nonneg(neg(p) - 1):
      return ONE
    z = _rank_order(p)
    if z is not None:
      return z
    if len(p.terms) <= 4:
      if nonneg(p + 1):
        return eq0(add(p, ONE))
      if nonneg(neg(p)):
        return add(ONE, neg(eq0(p)))
    z = _all_zero(add(p, ONE))
    if z is not None:
      return z
    z = _all_zero(neg(p))
    if z is not None:
      # p = -(sum of nonnegatives) < 0 iff not all are zero
      return add(ONE, neg(z))
    if lead_sign(p) < 0:
      # [p<0] = 1 - [-p-1 < 0]
      q = add(neg(p), const(-1))
      return add(ONE, neg(from_atom(_mk_atom('lt', (q,), is01=True))))
    return from_atom(_mk_atom('lt', (p,), is01=True))
  p = scale(p, 1 / content(p))
  if is_pos(p) or nonneg(p):
    return ZERO
  if is_pos(neg(p)):
    return ONE
  if p.terms.get((), 0) == 0 and len(p.terms) == 1:
    # sign of a monomial: drop positive factors
    (m, c), = p.terms.items()
    m2 = tuple((a, e) for a, e in m if not (_atoms[a].pos and
                                             _atoms[a].kind in ('exp',)))
    if m2 != m:
      return lt0(mkpoly({m2: c}))
  if lead_sign(p) < 0:
    e = _distinct_eq(p)
    if e is not None:
      return add(ONE, neg(e), neg(lt0(neg(p))))
  z = _key_vs_sorted(p)
  if z is not None:
    return z
  if _sum_dominates(p):
    return ZERO
  if _sum_dominates(neg(p)):
    return ONE
  q = log_form(p)
  if q is not None:
    return lt0(q)
  return from_atom(_mk_atom('lt', (p,), is01=True))


def _read_pair(p):
  """p = c*(A - B), A and B reads of one array with distinct entries, same
  leading index: (A, B) or None."""
  if len(p.terms) != 2 or () in p.terms:
    return None
  up = dn = None
  for m, c in p.terms.items():
    if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
      return None
    if c == 1:
      up = _atoms[m[0][0]]
    else:
      dn = _atoms[m[0][0]]
  if up is None or dn is None or up.kind != 'read' or dn.kind != 'read':
    return None
  if up.args[0] != dn.args[0] or any(
      x is not y for x, y in zip(up.args[1:-1], dn.args[1:-1])):
    return None
  arr = ARRAYS.get(up.args[0])
  if arr is None or not arr.distinct:
    return None
  return up, dn


def _row_lam(at):
  arr = ARRAYS[at.args[0]]
  v = fresh(arr.shape[-1], 'k')
  return close([v], [arr.shape[-1]], arr.read(tuple(at.args[1:-1]) + (v,)))


def _key_vs_sorted(p):
  """comparison of an entry with the k-th smallest of its row."""
  pr = _read_pair(p)
  if pr is None:
    return None
  up, dn = pr

  def kth(at):
    i = at.args[-1]
    if len(i.terms) == 1:
      (m, c), = i.terms.items()
      if c == 1 and len(m) == 1 and m[0][1] == 1:
        t = _atoms[m[0][0]]
        if t.kind == 'perm' and t.args[0] is _row_lam(at):
          return t.args
    return None

  ku, kd = kth(up), kth(dn)
  if kd is not None:
    lam, k = kd
    return lt0(add(perm_inv(lam, up.args[-1]), neg(k)))
  if ku is not None:
    lam, k = ku
    return lt0(add(k, neg(perm_inv(lam, dn.args[-1]))))
  return None


def _rank_order(p):
  """[rank(i) - rank(j) (- 1) < 0] in terms of the sorted keys (stable)."""
  k = const_val(p)
  if k not in (0, -1) or len(p.terms) != (2 if k == 0 else 3):
    return None
  up = dn = None
  for m, c in p.terms.items():
    if not m:
      continue
    if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
      return None
    at = _atoms[m[0][0]]
    if at.kind != 'rank':
      return None
    if c == 1:
      up = at
    else:
      dn = at
  if up is None or dn is None or up.args[0] is not dn.args[0]:
    return None

  def before(i, j):
    ki, kj = apply_lam(up.args[0], [i]), apply_lam(up.args[0], [j])
    dif = add(ki, neg(kj))
    return add(lt0(dif), mul(eq0(dif), lt0(add(i, neg(j)))))

  if k == 0:
    return before(up.args[1], dn.args[1])
  return add(ONE, neg(before(dn.args[1], up.args[1])))


def _all_zero(q):
  """integer q = sum of nonnegative terms (>= 1 of them composite, none
  constant): the indicator [q <= 0], as the product of [term = 0]."""
  if len(q.terms) < 2 or () in q.terms or len(q.terms) > 6:
    return None
  facs = []
  for m, c in q.terms.items():
    if c < 0:
      return None
    rest = []
    for a, e in m:
      at = _atoms[a]
      if at.kind == 'var' and at.args[0] in DIMS and DIMS[at.args[0]] > 0:
        continue
      if not at.is01 and not (at.lo is not None and nonneg(at.lo)):
        return None
      rest.append(at)
    if len(rest) != 1:
      return None
    facs.append(eq0(from_atom(rest[0])))
  return prod(facs)


def _sum_dominates(p):
  """p = Sum_v f(v) - f(e) (up to positive factors), f > 0, e in range:
  then p > 0 (at least two terms)."""
  if len(p.terms) != 2:
    return False
  (m1, c1), (m2, c2) = p.terms.items()
  if c1 < 0:
    (m1, c1), (m2, c2) = (m2, c2), (m1, c1)
  if not (c1 > 0 > c2 and c1 >= -c2):
    return False
  for a, e in m1:
    at = _atoms[a]
    if at.kind == 'sum' and e == 1 and at.pos and len(at.args[0].sizes) == 1:
      rest = tuple(x for x in m1 if x != (a, e))
      if not all(_atoms[b].pos for b, _ in rest):
        continue
      (v,), (size,), f = open_lam(at.args[0])
      if len(f.terms) != 1:
        continue
      vid = atom_of(v).id
      want = mkpoly({m2: ONE_F})
      pre = mkpoly({rest: ONE_F})
      for cand in _candidates(f, vid):
        if mul(pre, subst(f, {vid: cand})) is want:
          if nonneg(cand) and nonneg(size - 1 - cand) and nonneg(size - 2):
            return True
  return False


def _candidates(f, vid):
  """index terms standing where the bound variable stands elsewhere."""
  v = from_atom(_atoms[vid])
  heads, others, seen = [], [], set()

  def walk(p):
    for m in p.terms:
      for a, _ in m:
        if a in seen:
          continue
        seen.add(a)
        at = _atoms[a]
        for k, x in enumerate(at.args):
          if isinstance(x, Poly):
            if at.kind in ('read', 'app'):
              (heads if x is v else others).append((at.kind, at.args[0], k, x))
            walk(x)

  walk(f)
  hs = {h[:3] for h in heads}
  out = []
  for o in others:
    if o[:3] in hs and vid not in o[3].fv and o[3] not in out:
      out.append(o[3])
  return out


def log_form(p):
  """p = c1*m1 - c2*m2 between positive monomials with an exponential: a
  polynomial of the same sign, log(c1 m1) - log(c2 m2)."""
  if len(p.terms) != 2:
    return None
  (m1, c1), (m2, c2) = p.terms.items()
  ats = [_atoms[a] for a, _ in m1 + m2]
  if c1 * c2 < 0 and any(t.kind == 'exp' for t in ats) and all(
      t.pos for t in ats):
    if c1 < 0:
      (m1, c1), (m2, c2) = (m2, c2), (m1, c1)
    return add(log(mkpoly({m1: c1})), neg(log(mkpoly({m2: -c2}))))
  return None


def le0(p):
  if isint(p):
    return lt0(p - 1)
  return ONE - lt0(neg(p))


_rebuild['eq'] = lambda args, at: eq0(args[0])
_rebuild['lt'] = lambda args, at: lt0(args[0])


def select(c, a, b):
  """c in {0,1}."""
  if a is b:
    return a
  if c is ONE:
    return a
  if c is ZERO:
    return b
  d = add(a, neg(b))
  # where(z<0, b+k z, b): canonicalise through relu
  for cc, sgn in ((c, 1), (add(ONE, neg(c)), -1)):
    if len(cc.terms) == 1:
      (m, co), = cc.terms.items()
      if co == 1 and len(m) == 1 and _atoms[m[0][0]].kind == 'lt':
        z = _atoms[m[0][0]].args[0]
        k = ratio(d, z)
        if k is not None:
          # sgn=1: b + [z<0] k z = b - k relu(-z)
          # sgn=-1: c = 1-[z<0]: b + k z - [z<0] k z = b + k z + k relu(-z)
          if sgn == 1:
            return add(b, scale(relu(neg(z)), -k))
          return add(b, scale(z, k), scale(relu(neg(z)), k))
  return add(b, mul(c, d))


def ratio(p, q):
  """rational k with p = k q, or None."""
  if not q.terms or len(p.terms) != len(q.terms):
    return None
  m = next(iter(q.terms))
  if m not in p.terms:
    return None
  k = p.terms[m] / q.terms[m]
  return k if scale(q, k) is p else None


def relu(z):
  if is_const(z):
    return const(max(Fraction(0), const_val(z)))
  r = shannon(z, _relu_core) if indicators(z) and len(indicators(z)) <= 3 else None
  return r if r is not None else _relu_core(z)


def _relu_core(z):
  if is_const(z):
    return const(max(Fraction(0), const_val(z)))
  if nonneg(z):
    return z
  if nonneg(neg(z)):
    return ZERO
  if _sum_dominates(z):
    return z
  if _sum_dominates(neg(z)):
    return ZERO
  lf = log_form(z)
  if lead_sign(z if lf is None else lf) < 0:
    # relu(z) = relu(-z) + z ; -z canonical
    return add(mul(_pos_ind(neg(z)), neg(z)), z)
  return mul(_pos_ind(z), z)


def _pos_ind(z):
  return lt0(neg(z))


def vmax(a, b):
  return add(b, relu(add(a, neg(b))))


def vmin(a, b):
  return add(b, neg(relu(add(b, neg(a)))))


def vabs(a):
  return add(scale(relu(a), 2), neg(a))


# --------------------------------------------------------------------------
# exp / log / powers
# --------------------------------------------------------------------------
NEG_BIG = Fraction(-10**8)
_exp_memo = {}


def exp(p):
  if not p.terms:
    return ONE
  r = _exp_memo.get(p.pid)
  if r is None:
    r = shannon(p, _exp_core) if indicators(p) else _exp_core(p)
    if r is None:
      r = _exp_core(p)
    _exp_memo[p.pid] = r
  return r


def _exp_core(p):
  if not p.terms:
    return ONE
  big = [m for m, c in p.terms.items() if abs(c) >= -NEG_BIG]
  if big:
    if big != [()] or const_val(p) > 0:
      # an opaque value: vanishes when the case is contradictory, and blocks
      # the proof otherwise
      return from_atom(_mk_atom('fn', ('BIGEXP', p), pos=True))
    return ZERO
  out = ONE
  rest = {}
  for m, c in p.terms.items():
    if len(m) == 1 and m[0][1] == 1 and _atoms[m[0][0]].kind == 'log':
      if (c * 2).denominator == 1:
        out = mul(out, power(_atoms[m[0][0]].args[0], c))
        continue
    if len(m) == 1 and m[0][1] == 1 and _atoms[m[0][0]].kind == 'neginf':
      return ZERO if c > 0 else _inf()
    rest[m] = c
  if not rest:
    return out
  e = from_atom(_mk_atom('exp', (mkpoly(rest),), pos=True))
  if out is ONE:
    return e
  return mul(out, e)


def _inf():
  return from_atom(_mk_atom('inf', ()))


NEGINF = from_atom(_mk_atom('neginf', ()))
(_NEGINF_M,) = NEGINF.terms

_log_memo = {}


def log(p):
  if p is ONE:
    return ZERO
  r = _log_memo.get(p.pid)
  if r is None:
    r = shannon(p, _log_core) if indicators(p) else None
    if r is None:
      r = _log_core(p)
    _log_memo[p.pid] = r
  return r


def _log_core(p):
  if p is ONE:
    return ZERO
  if not p.terms:
    return NEGINF
  if is_const(p):
    return _log_const(const_val(p))
  if len(p.terms) == 1:
    (m, c), = p.terms.items()
    out = [_log_const(c)] if c > 0 and c != 1 else []
    bad = []
    for a, e in m:
      at = _atoms[a]
      if at.kind == 'exp':
        out.append(scale(at.args[0], e))
      elif at.kind == 'pol':
        out.append(scale(log(at.args[0]), e))
      elif at.is01:
        bad.append((a, e))
      else:
        out.append(scale(from_atom(_mk_atom('log', (from_atom(at),))), e))
    if c < 0:
      # -m : cannot split the sign unless exactly one factor
      q = mkpoly({m: c})
      return from_atom(_mk_atom('log', (q,)))
    if bad:
      out.append(from_atom(_mk_atom('log', (mkpoly({tuple(bad): ONE_F}),))))
    return add(*out) if out else ZERO
  fac, base = poly_factor(p)
  lg = from_atom(_mk_atom('log', (base,)))
  if fac is ONE:
    return lg
  return add(log(fac), lg)


def _log_const(c):
  if c == 1:
    return ZERO
  if c <= 0:
    if c == 0:
      return NEGINF
    return from_atom(_mk_atom('log', (const(c),)))
  # prime factorisation of small rationals
  out = ZERO
  for n, s in ((c.numerator, 1), (c.denominator, -1)):
    k = 2
    while k * k <= n and k < 1000:
      while n % k == 0:
        out = add(out, scale(from_atom(_mk_atom('log', (const(k),))), s))
        n //= k
      k += 1
    if n > 1:
      out = add(out, scale(from_atom(_mk_atom('log', (const(n),))), s))
  return out


_fac_memo = {}


def poly_factor(p):
  """p = fac * base with fac a monomial (positive coefficient), canonical base.

  The common monomial content is pulled out, and the exponentials are
  normalised up to a common factor, so that e.g. 1+e^t and e^-t+1 share base.
  """
  r = _fac_memo.get(p.pid)
  if r is not None:
    return r
  c = content(p)
  q = scale(p, 1 / c)
  # common non-exp atoms
  common = None
  for m in q.terms:
    d = {a: e for a, e in m if _atoms[a].kind != 'exp'}
    if common is None:
      common = dict(d)
    else:
      common = {a: min(e, d[a]) if (e > 0) == (d[a] > 0) else 0
                for a, e in common.items() if a in d}
      common = {a: e for a, e in common.items() if e}
  # also negative powers present in only some terms: bring to common denominators
  common = common or {}
  fac_m = tuple(sorted((a, Fraction(e)) for a, e in common.items()))
  if fac_m:
    inv_m = tuple((a, -e) for a, e in fac_m)
    q = mul(q, mkpoly({inv_m: ONE_F}))
  # exps
  args = []
  for m in q.terms:
    for a, e in m:
      if _atoms[a].kind == 'exp':
        args.append(scale(_atoms[a].args[0], e))
        break
    else:
      args.append(ZERO)
  best = None
  if any(a.terms for a in args) and len(args) <= 12:
    for a in sorted(set(args), key=lambda t: t.pid):
      cand = mul(q, exp(neg(a))) if a.terms else q
      if best is None or cand.key < best[0].key:
        best = (cand, a)
  else:
    best = (q, ZERO)
  base, a = best
  # constant content of the new base may differ (rare)
  fac = mkpoly({fac_m: c})
  if a.terms:
    fac = mul(fac, exp(a))
  r = (fac, base)
  _fac_memo[p.pid] = r
  return r


def power(p, e):
  e = Fraction(e)
  if e == 1:
    return p
  if e == 0:
    return ONE
  if e.denominator == 1 and e > 0:
    return ipow(p, int(e))
  inds = indicators(p)
  if inds:
    r = shannon(p, lambda q: _power_core(q, e))
    if r is not None:
      return r
  return _power_core(p, e)


def _power_core(p, e):
  if not p.terms:
    return ZERO if e > 0 else _inf()
  if is_const(p):
    c = const_val(p)
    if e.denominator == 1:
      return const(c**int(e))
    return exp(scale(_log_const(c), e))
  if len(p.terms) == 1:
    (m, c), = p.terms.items()
    out = ONE
    if c != 1:
      out = const(c**int(e)) if e.denominator == 1 else exp(
          scale(_log_const(c), e))
    d = []
    for a, k in m:
      at = _atoms[a]
      if at.kind == 'exp':
        out = mul(out, exp(scale(at.args[0], k * e)))
      elif at.kind == 'pol' and (k * e).denominator == 1 and k * e > 0:
        out = mul(out, ipow(at.args[0], int(k * e)))
      else:
        d.append((a, k * e))
    return mul(out, mkpoly({tuple(sorted(d)): ONE_F}))
  fac, base = poly_factor(p)
  at = _mk_atom('pol', (base,), pos=bool(is_pos(base)))
  r = mkpoly({((at.id, e),): ONE_F})
  if fac is ONE:
    return r
  return mul(_power_core(fac, e), r)


def inv(p):
  return power(p, -1)


_rebuild['exp'] = lambda args, at: exp(args[0])
_rebuild['log'] = lambda args, at: log(args[0])
_rebuild['pol'] = lambda args, at: args[0]
_rebuild['inf'] = lambda args, at: _inf()
_rebuild['neginf'] = lambda args, at: NEGINF


# --------------------------------------------------------------------------
# integer division
# --------------------------------------------------------------------------
def idivmod(a, D):
  """floor division and remainder for D >= 1."""
  if is_const(a) and is_const(D) and const_val(a).denominator == 1:
    q, r = divmod(int(const_val(a)), int(const_val(D)))
    return const(q), const(r)
  if D is ONE:
    return a, ZERO
  inds = indicators(a)
  if inds and len(inds) <= LIFT_MAX:
    q = shannon(a, lambda t: _idivmod(t, D)[0])
    r = shannon(a, lambda t: _idivmod(t, D)[1])
    return q, r
  return _idivmod(a, D)


def _idivmod(a, D):
  if is_const(a) and is_const(D):
    q, r = divmod(int(const_val(a)), int(const_val(D)))
    return const(q), const(r)
  # split a = D*q + r syntactically
  if is_const(D):
    d = int(const_val(D))
    q, r = {}, {}
    for m, c in a.terms.items():
      k, rem = divmod(c.numerator, d)
      if k:
        q[m] = Fraction(k)
      if rem:
        r[m] = Fraction(rem)
    q, r = mkpoly(q), mkpoly(r)
  elif len(D.terms) == 1 and list(D.terms.values())[0] == 1:
    (dm, _), = D.terms.items()
    q, r = {}, {}
    for m, c in a.terms.items():
      t = mono_div(m, dm) if all(_atoms[x].kind != 'exp' for x, _ in m) else None
      if t is not None:
        q[t] = c
      else:
        r[m] = c
    q, r = mkpoly(q), mkpoly(r)
  else:
    k = ratio(a, D)
    if k is not None and k.denominator == 1:
      return const(k), ZERO
    q, r = ZERO, a
  # nested mods with the same modulus: D*div(b)+mod(b)=b, so mod(b) = b - D*div(b)
  for m, c in list(r.terms.items()):
    if len(m) == 1 and m[0][1] == 1 and c.denominator == 1:
      at = _atoms[m[0][0]]
      if at.kind == 'imod' and at.args[1] is D:
        b = at.args[0]
        bq, br = _idivmod_atoms(b, D)
        # r has c*mod(b): replace by c*b - c*D*div(b)
        r2 = add(r, scale(from_atom(at), -c), scale(b, c))
        q2, rr = _idivmod(r2, D)
        return add(q, q2, scale(bq, -c)), rr
  if nonneg(r) and nonneg(D - 1 - r):
    return q, r
  for k in (1, -1, 2, -2):
    r2 = add(r, scale(D, k))
    if nonneg(r2) and nonneg(D - 1 - r2):
      return add(q, const(-k)), r2
  dq, dr = _idivmod_atoms(r, D)
  return add(q, dq), dr


def _idivmod_atoms(r, D):
  qlo = ZERO if nonneg(r) else None
  dr = from_atom(_mk_atom('imod', (r, D), ZERO, add(D, const(-1)), True))
  hi = None
  # r <= D*k - 1 -> div <= k-1
  ub = sub_bounds(r, False)
  if ub is not None:
    if is_const(D):
      try:
        if is_const(ub):
          hi = const(int(const_val(ub)) // int(const_val(D)))
      except Exception:  # pylint: disable=broad-except
        hi = None
    elif len(D.terms) == 1:
      (dm, dc), = D.terms.items()
      t = {}
      ok = True
      up1 = add(ub, ONE)
      for m, c in up1.terms.items():
        mm = mono_div(m, dm)
        if mm is None:
          ok = False
          break
        t[mm] = c
      if ok:
        hi = add(mkpoly(t), const(-1))
  dq = from_atom(_mk_atom('idiv', (r, D), qlo, hi, True))
  return dq, dr


_rebuild['idiv'] = lambda args, at: idivmod(args[0], args[1])[0]
_rebuild['imod'] = lambda args, at: idivmod(args[0], args[1])[1]


# --------------------------------------------------------------------------
# sums, maxima, argmax
# --------------------------------------------------------------------------
def linear_solve(p, vid):
  """p = c*v + r with c = +-1 and r free of v -> value of v at p=0, or None."""
  c = None
  rest = {}
  for m, k in p.terms.items():
    if any(a == vid for a, _ in m):
      if m != ((vid, ONE_F),) or c is not None or abs(k) != 1:
        return None
      c = k
    else:
      if any(vid in _atoms[a].fv for a, _ in m):
        return None
      rest[m] = k
  if c is None:
    return None
  return scale(mkpoly(rest), -1 / c)


def rsum(v, size, body):
  """Sum_{v<size} body; v a fresh variable poly."""
  vid = atom_of(v).id
  size = lift(size)
  if not body.terms or size is ZERO:
    return ZERO
  if vid not in body.fv:
    return mul(size, body)
  if is_const(size) and const_val(size) <= UNROLL:
    return add(*[subst(body, {vid: const(k)})
                 for k in range(int(const_val(size)))])
  s = _range_split(body, vid, size)
  if s is not None:
    w1, w2 = fresh(s, 'w'), fresh(size - s, 'w')
    return add(rsum(w1, s, subst(body, {vid: w1})),
               rsum(w2, size - s, subst(body, {vid: add(w2, s)})))
  out = []
  for m, c in body.terms.items():
    out.append(scale(_sum_mono(v, vid, size, m), c))
  return add(*out)


def _range_split(body, vid, size):
  """a size s such that the body distinguishes v < s from v >= s (the border
  of a concatenation), or None."""
  if is_const(size):
    return None
  seen = set()

  def walk(p):
    for m in p.terms:
      for a, _ in m:
        at = _atoms[a]
        if vid not in at.fv or a in seen:
          continue
        seen.add(a)
        if at.kind == 'lt':
          q = at.args[0]
          r = linear_solve(q, vid)
          if r is not None and isint(r) and not is_const(r) and all(
              _atoms[f].args[0] in DIMS for f in r.fv):
            s = r if q.terms[((vid, ONE_F),)] == 1 else r + 1
            if not is_const(s - size) and nonneg(s) and nonneg(size - s):
              return s
        for x in at.args:
          if isinstance(x, Lam):
            x = x.body
          if isinstance(x, Poly) and vid in x.fv:
            r = walk(x)
            if r is not None:
              return r
    return None

  return walk(body)


_summono_memo = {}


def split_exp(m, vid):
  """split a monomial into (free poly, dependent atom list)."""
  free = ONE
  dep = []
  for a, e in m:
    at = _atoms[a]
    if vid not in at.fv:
      free = mul(free, mkpoly({((a, e),): ONE_F}))
    elif at.kind == 'exp':
      fr, de = {}, {}
      for mm, c in at.args[0].terms.items():
        if any(vid in _atoms[x].fv for x, _ in mm):
          de[mm] = c
        else:
          fr[mm] = c
      if fr:
        free = mul(free, exp(scale(mkpoly(fr), e)))
      ex = exp(scale(mkpoly(de), e))
      (em, ec), = ex.terms.items()
      free = scale(free, ec)
      dep.extend(em)
    else:
      dep.append((a, e))
  return free, dep


def _sum_mono(v, vid, size, m):
  free, dep = split_exp(m, vid)
  if not dep:
    return mul(free, size)
  # Kronecker delta
  for a, e in dep:
    at = _atoms[a]
    if at.kind == 'eq':
      s = linear_solve(at.args[0], vid)
      if s is not None and isint(s):
        rest = mkpoly({tuple(sorted(x for x in dep if x[0] != a)): ONE_F})
        g = ONE
        if not nonneg(s):
          g = mul(g, ONE - lt0(s))
        if not nonneg(size - 1 - s):
          g = mul(g, lt0(s - size))
        return mul(mul(free, g), subst(rest, {vid: s}))
  # number of entries of a row (distinct) above / below one of them
  if len(dep) == 1 and _atoms[dep[0][0]].kind == 'lt':
    pr = _read_pair(_atoms[dep[0][0]].args[0])
    if pr is not None and ARRAYS[pr[0].args[0]].shape[-1] is size and all(
        vid not in x.fv for x in pr[0].args[1:-1]):
      up, dn = pr
      if up.args[-1] is v and vid not in dn.args[-1].fv:
        return mul(free, perm_inv(_row_lam(dn), dn.args[-1]))
      if dn.args[-1] is v and vid not in up.args[-1].fv:
        return mul(free, add(size, const(-1), neg(perm_inv(
            _row_lam(up), up.args[-1]))))
  # range restriction [v < a]
  for a, e in dep:
    at = _atoms[a]
    if at.kind == 'lt':
      s = linear_solve(at.args[0], vid)
      if s is not None and isint(s) and at.args[0].terms.get(
          ((vid, ONE_F),)) == 1:
        # [v - s < 0]
        if nonneg(s) and nonneg(size - s):
          rest = mkpoly({tuple(sorted(x for x in dep if x[0] != a)): ONE_F})
          w = fresh(s, 'w')
          return mul(free, rsum(w, s, subst(rest, {vid: w})))
  # mixed radix
  D = _find_radix(dep, vid)
  if D is not None:
    q, r = idivmod(size, D)
    if not r.terms:
      i = fresh(q, 'q')
      c = fresh(D, 'r')
      rest = mkpoly({tuple(sorted(dep)): ONE_F})
      b = subst(rest, {vid: add(mul(i, D), c)})
      return mul(free, rsum(i, q, rsum(c, D, b)))
  # permutation reindexing
  pr = _find_perm(dep, vid)
  if pr is not None:
    n = pr.sizes[0]
    rest = mkpoly({tuple(sorted(dep)): ONE_F})
    w = fresh(n, 'p')
    b = subst(rest, {vid: perm_inv(pr, w)})
    if size is not n:
      if not nonneg(n - size):
        raise Unsupported('permutation read beyond its range')
      b = mul(b, lt0(add(perm_inv(pr, w), neg(size))))
    return mul(free, rsum(w, n, b))
  # canonical range: no constant offset in the size, smallest read offset 0
  off = const_val(size)
  if off and not is_const(size) and abs(off) <= 4 and off.denominator == 1:
    base = add(size, const(-off))
    rest = mkpoly({tuple(sorted(dep)): ONE_F})
    w = fresh(base, 'w')
    r = rsum(w, base, subst(rest, {vid: w}))
    for k in range(int(abs(off))):
      if off < 0:
        r = add(r, neg(subst(rest, {vid: base - (k + 1)})))
      else:
        r = add(r, subst(rest, {vid: base + k}))
    return mul(free, r)
  k = _min_offset(dep, vid)
  if k and abs(k) <= 4:
    rest = mkpoly({tuple(sorted(dep)): ONE_F})
    w = fresh(size, 'w')
    h = subst(rest, {vid: w - k})
    wid = atom_of(w).id
    r = rsum(w, size, h)
    for j in range(abs(k)):
      if k > 0:
        r = add(r, subst(h, {wid: size + j}), neg(subst(h, {wid: const(j)})))
      else:
        r = add(r, subst(h, {wid: const(-1 - j)}),
                neg(subst(h, {wid: size - 1 - j})))
    return mul(free, r)
  # merge inner sums (power 1)
  vs, sizes = [v], [size]
  m2 = []
  body = ONE
  for a, e in dep:
    at = _atoms[a]
    if at.kind == 'sum' and e == 1:
      ovs, osz, ob = open_lam(at.args[0])
      if any(vid in s.fv for s in osz):
        m2.append((a, e))
        continue
      vs += ovs
      sizes += osz
      body = mul(body, ob)
    else:
      m2.append((a, e))
  body = mul(body, mkpoly({tuple(sorted(m2)): ONE_F}))
  if len(vs) > 1:
    # factors may have become free or deltas may have appeared
    if len(body.terms) != 1:
      r = body
      for vv, ss in reversed(list(zip(vs, sizes))):
        r = rsum(vv, ss, r)
      return mul(free, r)
  return mul(free, _mk_sum(vs, sizes, body))


def _min_offset(dep, vid):
  exact, loose = set(), set()
  seen = set()

  def walk(at):
    if vid not in at.fv or at.id in seen:
      return
    seen.add(at.id)
    for x in at.args:
      isl = isinstance(x, Lam)
      if isl:
        x = x.body
      if isinstance(x, Poly) and vid in x.fv:
        if not isl and at.kind in ('read', 'app') and x.terms.get(
            ((vid, ONE_F),)) == 1 and sum(
                1 for m in x.terms if any(vid in _atoms[a].fv
                                          for a, _ in m)) == 1:
          c = const_val(x)
          if c.denominator == 1:
            if len(x.terms) <= 2 and all(
                m in ((), ((vid, ONE_F),)) for m in x.terms):
              exact.add(int(c))
            else:
              loose.add(int(c))
        for m in x.terms:
          for a, _ in m:
            walk(_atoms[a])

  for a, _ in dep:
    walk(_atoms[a])
  if exact:
    return min(exact)
  return min(loose) if loose else 0


def _mk_sum(vs, sizes, body):
  best = None
  perms = itertools.permutations(range(len(vs))) if len(vs) <= 4 else [
      tuple(range(len(vs)))]
  for pm in perms:
    try:
      lam = close([vs[i] for i in pm], [sizes[i] for i in pm], body)
    except Unsupported:
      continue
    # dependent sizes restrict the order
    ok = True
    seen = set()
    for i in pm:
      for j in range(len(vs)):
        if j not in seen and atom_of(vs[j]).id in sizes[i].fv:
          ok = False
      seen.add(i)
    if not ok:
      continue
    k = (tuple(s.key for s in lam.sizes), lam.body.key)
    if best is None or k < best[0]:
      best = (k, lam)
  lam = best[1]
  isi = isint(body)
  pos = _mono_pos(body)
  lo = ZERO if (pos or _mono_nonneg(body)) else None
  at = _mk_atom('sum', (lam,), lo, None, isi, False, pos)
  return from_atom(at)


def _mono_pos(body):
  return is_pos(body)


def _mono_nonneg(body):
  lo = _qb(body)[0]
  return lo is not None and lo >= 0


def _find_radix(dep, vid):
  found = None
  for a, _ in dep:
    at = _atoms[a]
    r = _radix_in_atom(at, vid, set())
    if r is not None:
      found = r
      break
  return found


def _radix_in_atom(at, vid, seen):
  if vid not in at.fv or at.id in seen:
    return None
  seen.add(at.id)
  if at.kind in ('idiv', 'imod') and isinstance(at.args[0], Poly):
    if at.args[0].key == from_atom(_atoms[vid]).key and vid not in at.args[1].fv:
      return at.args[1]
  for x in at.args:
    if isinstance(x, Lam):
      x = x.body
    if isinstance(x, Poly):
      for m in x.terms:
        for a, _ in m:
          r = _radix_in_atom(_atoms[a], vid, seen)
          if r is not None:
            return r
  return None


def _rebuild_sum(args, at):
  vs, sizes, body = open_lam(args[0])
  r = body
  for v, s in reversed(list(zip(vs, sizes))):
    r = rsum(v, s, r)
  return r


_rebuild['sum'] = _rebuild_sum


def rmax(v, size, body):
  vid = atom_of(v).id
  size = lift(size)
  if vid not in body.fv:
    return body
  if is_const(size) and const_val(size) <= 3:
    n = int(const_val(size))
    r = subst(body, {vid: ZERO})
    for k in range(1, n):
      r = vmax(r, subst(body, {vid: const(k)}))
    return r
  big = any(abs(c) >= -NEG_BIG for c in body.terms.values())
  if big:
    free = [t for t in indicators(body) if vid not in t.fv]
    if free and len(free) <= 3:
      a = free[0]
      r1 = rmax(v, size, assign(body, a, 1))
      r0 = rmax(v, size, assign(body, a, 0))
      return add(r0, mul(from_atom(a), add(r1, neg(r0))))
  fr, de = {}, {}
  for m, c in body.terms.items():
    if any(vid in _atoms[a].fv for a, _ in m):
      de[m] = c
    elif not m and abs(c) >= -NEG_BIG:
      de[m] = c  # keep "minus infinity" constants inside the maximum
    else:
      fr[m] = c
  d = mkpoly(de)
  vs, sizes = [v], [size]
  if len(d.terms) == 1:
    (m, c), = d.terms.items()
    if c == 1 and len(m) == 1 and m[0][1] == 1 and _atoms[
        m[0][0]].kind == 'max':
      ovs, osz, ob = open_lam(_atoms[m[0][0]].args[0])
      if not any(vid in s.fv for s in osz):
        vs += ovs
        sizes += osz
        d = ob
  else:
    D = None
  D = None
  for m in d.terms:
    D = D or _find_radix(m, vid)
  if D is not None and len(vs) == 1:
    q, r = idivmod(size, D)
    if not r.terms:
      i = fresh(q, 'q')
      c = fresh(D, 'r')
      return add(mkpoly(fr), rmax(i, q, rmax(c, D, subst(
          d, {vid: add(mul(i, D), c)}))))
  best = None
  for pm in itertools.permutations(range(len(vs))):
    lam = close([vs[i] for i in pm], [sizes[i] for i in pm], d)
    k = (tuple(s.key for s in lam.sizes), lam.body.key)
    if best is None or k < best[0]:
      best = (k, lam)
  lam = best[1]
  lo = None
  l = _qb(d)[0]
  at = _mk_atom('max', (lam,), const(l) if l is not None else None, None,
                isint(d))
  return add(mkpoly(fr), from_atom(at))


def _rebuild_max(args, at):
  vs, sizes, body = open_lam(args[0])
  r = body
  for v, s in reversed(list(zip(vs, sizes))):
    r = rmax(v, s, r)
  return r


_rebuild['max'] = _rebuild_max


def argmax(v, size, body):
  """first index maximising body."""
  vid = atom_of(v).id
  size = lift(size)
  if vid not in body.fv:
    return ZERO
  # lift free indicators
  for ind in indicators(body):
    if vid not in ind.fv:
      a = argmax(v, size, assign(body, ind, 1))
      b = argmax(v, size, assign(body, ind, 0))
      return select(from_atom(ind), a, b)
  # drop additive free part
  de = {m: c for m, c in body.terms.items()
        if any(vid in _atoms[a].fv for a, _ in m)}
  d = mkpoly(de)
  if len(d.terms) == 1:
    (m, c), = d.terms.items()
    if c > 0 and len(m) == 1 and _atoms[m[0][0]].kind == 'eq':
      s = linear_solve(_atoms[m[0][0]].args[0], vid)
      if s is not None and nonneg(s) and nonneg(size - 1 - s):
        return s
  lam = close([v], [size], d)
  return from_atom(_mk_atom('argmax', (lam,), ZERO, size - 1, True))


def _rebuild_argmax(args, at):
  vs, sizes, body = open_lam(args[0])
  return argmax(vs[0], sizes[0], body)


_rebuild['argmax'] = _rebuild_argmax


# --------------------------------------------------------------------------
# permutations (argsort)
# --------------------------------------------------------------------------
# ('perm', lam) with one lam: key(i) over [0,n); perm(k) = index of the k-th
# smallest key.  ('pinv', lam, i): rank.
def perm(lam, k):
  n = lam.sizes[0]
  k = lift(k)
  # perm(rank(i)) = i
  if len(k.terms) == 1:
    (m, c), = k.terms.items()
    if c == 1 and len(m) == 1 and m[0][1] == 1:
      at = _atoms[m[0][0]]
      if at.kind == 'rank' and at.args[0] is lam:
        return at.args[1]
  return from_atom(_mk_atom('perm', (lam, k), ZERO, n - 1, True))


def perm_inv(lam, i):
  n = lam.sizes[0]
  i = lift(i)
  if len(i.terms) == 1:
    (m, c), = i.terms.items()
    if c == 1 and len(m) == 1 and m[0][1] == 1:
      at = _atoms[m[0][0]]
      if at.kind == 'perm' and at.args[0] is lam:
        return at.args[1]
  return from_atom(_mk_atom('rank', (lam, i), ZERO, n - 1, True))


_rebuild['perm'] = lambda args, at: perm(args[0], args[1])
_rebuild['rank'] = lambda args, at: perm_inv(args[0], args[1])


def _find_perm(dep, vid):
  target = from_atom(_atoms[vid])
  res = []

  def walk(at, seen):
    if vid not in at.fv or at.id in seen:
      return
    seen.add(at.id)
    if at.kind == 'perm' and at.args[1] is target and vid not in at.args[0].fv:
      res.append(at.args[0])
    for x in at.args:
      if isinstance(x, Lam):
        x = x.body
      if isinstance(x, Poly):
        for m in x.terms:
          for a, _ in m:
            walk(_atoms[a], seen)

  s = set()
  for a, _ in dep:
    walk(_atoms[a], s)
  return res[0] if res else None


# --------------------------------------------------------------------------
# uninterpreted applications
# --------------------------------------------------------------------------
APPS = {}  # head -> dict(lo,hi,isint,is01,pos)


def app(head, *args):
  meta = APPS.get(head, {})
  return from_atom(_mk_atom(
      'app', (head,) + tuple(args), meta.get('lo'), meta.get('hi'),
      meta.get('isint', False), meta.get('is01', False), meta.get('pos', False)))


_rebuild['app'] = lambda args, at: app(args[0], *args[1:])


def fn(head, arg):
  """uninterpreted real function of one argument (lifted over indicators)."""
  if head in ('round', 'floor', 'trunc', 'ceil') and isint(arg):
    return arg
  if indicators(arg) and len(indicators(arg)) <= LIFT_MAX:
    r = shannon(arg, lambda q: fn(head, q))
    if r is not None:
      return r
  if head in ('round', 'floor', 'trunc', 'ceil') and is_const(arg):
    c = const_val(arg)
    if head == 'round':
      return const(round(c))
    if head == 'floor':
      return const(c.numerator // c.denominator)
    if head == 'ceil':
      return const(-((-c.numerator) // c.denominator))
    return const(int(c))
  return from_atom(_mk_atom('fn', (head, arg), None, None,
                            head in ('round', 'floor', 'trunc', 'ceil')))


_rebuild['fn'] = lambda args, at: (exp(args[1]) if args[0] == 'BIGEXP' else
                                  fn(args[0], args[1]))


# --------------------------------------------------------------------------
# printing
# --------------------------------------------------------------------------
def show_atom(at):
  k, a = at.kind, at.args
  if k == 'var':
    return a[0]
  if k == 'bnd':
    return 'B%d' % a[0]
  if k == 'read':
    return '%s[%s]' % (a[0], ','.join(show(x) for x in a[1:]))
  if k == 'eq':
    return '[%s=0]' % show(a[0])
  if k == 'lt':
    return '[%s<0]' % show(a[0])
  if k in ('exp', 'log', 'pol'):
    return '%s(%s)' % (k, show(a[0]))
  if k == 'sum':
    return 'Σ(%r)' % a[0]
  if k in ('max', 'argmax'):
    return '%s(%r)' % (k, a[0])
  return '%s(%s)' % (k, ', '.join(
      show(x) if isinstance(x, Poly) else repr(x) for x in a))


def show(p, limit=4000):
  if not p.terms:
    return '0'
  out = []
  for m, c in sorted(p.terms.items()):
    s = '*'.join(show_atom(_atoms[a]) + ('' if e == 1 else '^%s' % e)
                 for a, e in m)
    if not m:
      s = str(c)
    elif c == -1:
      s = '-' + s
    elif c != 1:
      s = '%s*%s' % (c, s)
    out.append(s)
  r = ' + '.join(out)
  return r if len(r) < limit else r[:limit] + '...'


def all_atoms(p, acc=None, into_lams=True):
  """all atoms in p, innermost included."""
  acc = {} if acc is None else acc
  for m in p.terms:
    for a, _ in m:
      if a in acc:
        continue
      at = _atoms[a]
      acc[a] = at
      for x in at.args:
        if isinstance(x, Poly):
          all_atoms(x, acc)
        elif isinstance(x, Lam) and into_lams:
          all_atoms(x.body, acc)
          for s in x.sizes:
            all_atoms(s, acc)
  return acc
