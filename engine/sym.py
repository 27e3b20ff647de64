"""Symbolic interpreter: jaxpr -> terms.

Every jaxpr traced from the code under verification (with symbolic
dimensions) is interpreted over `terms`: a value is a Tensor (shape, index ->
term).  An unknown primitive raises Unsupported; it never yields a verdict.
"""
import ast
from fractions import Fraction
import itertools

import numpy as np
from jax import core

import terms as T
from terms import (Poly, ZERO, ONE, add, neg, mul, const, lift, Unsupported,
                   eq0, lt0, le0, select, rsum, fresh)

SIDE = []  # recorded definedness side conditions (strings)
KEYLOG = []


class Tensor:
  __slots__ = ('shape', 'fn', 'memo')

  def __init__(self, shape, fn):
    self.shape = tuple(lift(s) for s in shape)
    self.fn = fn
    self.memo = {}

  def get(self, idx):
    idx = tuple(ZERO if s is ONE else lift(i) for i, s in zip(idx, self.shape))
    if len(idx) != len(self.shape):
      raise Unsupported('rank mismatch')
    k = tuple(i.pid for i in idx)
    r = self.memo.get(k)
    if r is None:
      r = self.fn(idx)
      self.memo[k] = r
    return r

  @property
  def ndim(self):
    return len(self.shape)


def scalar(p):
  p = lift(p)
  return Tensor((), lambda idx: p)


_LOGS = {str(np.float32(np.log(k))): k for k in range(2, 65)}


def num(v):
  """float/int literal -> exact shortest-decimal rational (guard eps -> 0)."""
  if isinstance(v, (bool, np.bool_)):
    return const(int(v))
  if isinstance(v, (int, np.integer)):
    return const(int(v))
  f = float(v)
  if f != f:
    return T.var('NaN')
  if f == float('inf'):
    return neg(T.NEGINF)
  if f == float('-inf'):
    return T.NEGINF
  if np.asarray(v).dtype == np.float32:
    fr = Fraction(str(np.float32(v)))
  else:
    fr = Fraction(repr(f))
  if fr != 0 and abs(fr) < Fraction(1, 10**18):
    return ZERO
  k = _LOGS.get(str(np.float32(f)))
  if k is not None:  # a logarithm rounded to single precision
    return T.log(const(k))
  return const(fr)


_PI = {}


def from_numpy(a):
  a = np.asarray(a)
  if a.ndim == 0:
    return scalar(num(a[()]))

  def fn(idx):
    if all(T.is_const(i) for i in idx):
      return num(a[tuple(int(T.const_val(i)) for i in idx)])
    # affine iota-like rows
    flat = a.reshape(-1)
    if np.all(flat == flat[0]):
      return num(flat[0])
    if a.ndim == 1 and a.dtype.kind in 'iu' and len(a) > 1:
      d = np.diff(a)
      if np.all(d == d[0]):
        return add(const(int(a[0])), T.scale(idx[0], int(d[0])))
    if a.size > 4096:
      raise Unsupported('symbolic index into large constant')
    out = []
    for ii in np.ndindex(*a.shape):
      if a[ii] != 0:
        g = num(a[ii])
        for d, k in enumerate(ii):
          g = mul(g, eq0(add(idx[d], const(-k))))
        out.append(g)
    return add(*out) if out else ZERO

  return Tensor(a.shape, fn)


# --------------------------------------------------------------------------
# dims
# --------------------------------------------------------------------------
_dimcache = {}


def dim2poly(d):
  if isinstance(d, (int, np.integer)):
    return const(int(d))
  s = str(d)
  r = _dimcache.get(s)
  if r is None:
    r = _dim_ast(ast.parse(s, mode='eval').body)
    _dimcache[s] = r
  return r


def _dim_ast(e):
  if isinstance(e, ast.Constant):
    return const(e.value)
  if isinstance(e, ast.Name):
    if e.id not in T.DIMS:
      raise Unsupported('undeclared dim ' + e.id)
    return T.dim(e.id, T.DIMS[e.id])
  if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
    return neg(_dim_ast(e.operand))
  if isinstance(e, ast.BinOp):
    a, b = _dim_ast(e.left), _dim_ast(e.right)
    if isinstance(e.op, ast.Add):
      return add(a, b)
    if isinstance(e.op, ast.Sub):
      return add(a, neg(b))
    if isinstance(e.op, ast.Mult):
      return mul(a, b)
    if isinstance(e.op, ast.Pow):
      return T.ipow(a, int(T.const_val(b)))
  if isinstance(e, ast.Call):
    f = e.func.id
    a = [_dim_ast(x) for x in e.args]
    if f == 'floordiv':
      return T.idivmod(a[0], a[1])[0]
    if f == 'mod':
      return T.idivmod(a[0], a[1])[1]
    if f == 'max':
      return T.vmax(a[0], a[1])
    if f == 'min':
      return T.vmin(a[0], a[1])
    if f in ('non_negative',):
      return T.relu(a[0])
  raise Unsupported('dim expr ' + ast.dump(e))


def shp(shape):
  return tuple(dim2poly(d) for d in shape)


# --------------------------------------------------------------------------
# helpers
# --------------------------------------------------------------------------
def bcast_get(t, idx, outshape):
  return t.get(idx)


def elementwise(f):
  def rule(ins, params, avals_out):
    sh = shp(avals_out[0].shape)

    def fn(idx):
      args = []
      for t in ins:
        if t.ndim == 0:
          args.append(t.get(()))
        else:
          args.append(t.get(idx))
      return f(*args)

    return [Tensor(sh, fn)]

  return rule


def _int_out(avals_out):
  return np.issubdtype(np.dtype(avals_out[0].dtype), np.integer)


def flatten_index(idx, shape):
  p = ZERO
  for i, s in zip(idx, shape):
    p = add(mul(p, s), i)
  return p


def unflatten_index(p, shape):
  out = []
  for s in reversed(shape[1:]):
    q, r = T.idivmod(p, s)
    out.append(r)
    p = q
  out.append(p)
  return tuple(reversed(out))


def reshape(t, newshape):
  old, new = t.shape, tuple(lift(s) for s in newshape)
  if old == new:
    return t
  # match common prefix/suffix; group dims
  groups = []
  i = j = 0
  while i < len(old) or j < len(new):
    i0, j0 = i, j
    a = b = ONE
    if i < len(old):
      a = old[i]
      i += 1
    if j < len(new):
      b = new[j]
      j += 1
    guard = 0
    while a is not b:
      guard += 1
      if guard > 64:
        raise Unsupported('reshape %s -> %s' % (old, new))
      # extend the smaller side
      if T.nonneg(b - a - 1) or (i < len(old) and _divides(a, b)):
        if i < len(old):
          a = mul(a, old[i])
          i += 1
        elif j < len(new):
          b = mul(b, new[j])
          j += 1
        else:
          raise Unsupported('reshape %s -> %s' % (old, new))
      else:
        if j < len(new):
          b = mul(b, new[j])
          j += 1
        elif i < len(old):
          a = mul(a, old[i])
          i += 1
        else:
          raise Unsupported('reshape %s -> %s' % (old, new))
    groups.append((range(i0, i), range(j0, j)))

  def fn(idx):
    src = [None] * len(old)
    for gi, gj in groups:
      oshape = [old[k] for k in gi]
      nshape = [new[k] for k in gj]
      nidx = [idx[k] for k in gj]
      o1 = [k for k in gi if old[k] is not ONE]
      n1 = [k for k in gj if new[k] is not ONE]
      for k in gi:
        if old[k] is ONE:
          src[k] = ZERO
      if len(o1) == 1 and len(n1) == 1:
        src[o1[0]] = idx[n1[0]]
        continue
      if not o1:
        continue
      p = flatten_index([idx[k] for k in n1], [new[k] for k in n1])
      for k, v in zip(o1, unflatten_index(p, [old[k] for k in o1])):
        src[k] = v
    return t.get(src)

  return Tensor(new, fn)


def _divides(a, b):
  if is_same(a, b):
    return True
  try:
    q, r = T.idivmod(b, a)
    return not r.terms
  except Unsupported:
    return False


def is_same(a, b):
  return a is b


def clampi(i, hi):
  """clamp index into [0,hi]."""
  if not T.nonneg(i):
    i = T.vmax(i, ZERO)
  if not T.nonneg(hi - i):
    i = T.vmin(i, hi)
  return i


# --------------------------------------------------------------------------
# interpreter
# --------------------------------------------------------------------------
RULES = {}
HANDLERS = {}  # harness primitives


def rule(*names):
  def deco(f):
    for n in names:
      RULES[n] = f
    return f
  return deco


def interp(jaxpr, consts, args):
  env = {}

  def read(v):
    if isinstance(v, core.Literal):
      return from_numpy(v.val)
    return env[v]

  for v, c in zip(jaxpr.constvars, consts):
    env[v] = c if isinstance(c, Tensor) else from_numpy(c)
  for v, a in zip(jaxpr.invars, args):
    env[v] = a
  for eqn in jaxpr.eqns:
    ins = [read(v) for v in eqn.invars]
    name = eqn.primitive.name
    avals = [v.aval for v in eqn.outvars]
    if name in HANDLERS:
      outs = HANDLERS[name](ins, eqn.params, avals)
    elif name in RULES:
      p = dict(eqn.params)
      p['_in_avals'] = [v.aval for v in eqn.invars]
      outs = RULES[name](ins, p, avals)
    else:
      raise Unsupported('primitive ' + name)
    for v, o in zip(eqn.outvars, outs):
      env[v] = o
  return [read(v) for v in jaxpr.outvars]


def interp_closed(cj, args):
  return interp(cj.jaxpr, [from_numpy(np.asarray(c)) for c in cj.consts], args)


def _closed(j, args):
  if hasattr(j, 'consts'):
    return interp_closed(j, args)
  return interp(j, [], args)


@rule('pjit', 'xla_call', 'closed_call', 'core_call', 'remat', 'checkpoint',
      'remat2')
def _r_pjit(ins, p, av):
  return _closed(p.get('jaxpr') or p.get('call_jaxpr'), ins)


@rule('custom_jvp_call', 'custom_vjp_call')
def _r_cjvp(ins, p, av):
  return _closed(p['call_jaxpr'], ins)


@rule('custom_vjp_call_jaxpr')
def _r_cvjp(ins, p, av):
  return _closed(p['fun_jaxpr'], ins)


for nm, f in {
    'add': add, 'add_any': add,
    'sub': lambda a, b: add(a, neg(b)),
    'mul': mul,
    'neg': neg,
    'max': T.vmax, 'min': T.vmin, 'abs': T.vabs,
    'exp': T.exp, 'log': T.log,
    'log1p': lambda a: T.log(add(ONE, a)),
    'expm1': lambda a: add(T.exp(a), const(-1)),
    'eq': lambda a, b: eq0(add(a, neg(b))),
    'ne': lambda a, b: add(ONE, neg(eq0(add(a, neg(b))))),
    'lt': lambda a, b: lt0(add(a, neg(b))),
    'gt': lambda a, b: lt0(add(b, neg(a))),
    'le': lambda a, b: le0(add(a, neg(b))),
    'ge': lambda a, b: le0(add(b, neg(a))),
    'sqrt': lambda a: T.power(a, Fraction(1, 2)),
    'rsqrt': lambda a: T.power(a, Fraction(-1, 2)),
    'logistic': lambda a: T.inv(add(ONE, T.exp(neg(a)))),
    'square': lambda a: mul(a, a),
    'floor': lambda a: T.fn('floor', a),
    'ceil': lambda a: T.fn('ceil', a),
    'is_finite': lambda a: ONE,
    'sign': lambda a: add(lt0(neg(a)), neg(lt0(a))),
    'lgamma': lambda a: _lgamma(a),
    'tanh': lambda a: T.fn('tanh', a),
    'erf': lambda a: T.fn('erf', a),
    'erf_inv': lambda a: T.fn('erf_inv', a),
    'sin': lambda a: T.fn('sin', a),
    'cos': lambda a: T.fn('cos', a),
    'stop_gradient': lambda a: a,
    'copy': lambda a: a, 'copy_p': lambda a: a,
    'nextafter': lambda a, b: a,
    'reduce_precision': lambda a: a,
    'real': lambda a: a,
}.items():
  RULES[nm] = elementwise(f)


def _lgamma(a):
  inds = T.indicators(a)
  if inds:
    r = T.shannon(a, _lgamma)
    if r is not None:
      return r
  if T.is_const(a) and T.const_val(a) in (1, 2):
    return ZERO
  return T.fn('lgamma', a)


def _digamma(a):
  inds = T.indicators(a)
  if inds:
    r = T.shannon(a, _digamma)
    if r is not None:
      return r
  if T.is_const(a) and T.const_val(a) == 2:
    return add(T.fn('digamma', T.ONE), T.ONE)
  return T.fn('digamma', a)


RULES['digamma'] = elementwise(_digamma)


@rule('round')
def _r_round(ins, p, av):
  return elementwise(lambda a: T.fn('round', a))(ins, p, av)


@rule('integer_pow')
def _r_ipow(ins, p, av):
  y = p['y']
  return elementwise(lambda a: T.power(a, y))(ins, p, av)


@rule('pow')
def _r_pow(ins, p, av):
  def f(a, b):
    if T.is_const(b):
      c = T.const_val(b)
      if (2 * c).denominator == 1:
        return T.power(a, c)
    return T.exp(mul(b, T.log(a)))
  return elementwise(f)(ins, p, av)


@rule('div')
def _r_div(ins, p, av):
  if _int_out(av):
    def f(a, b):
      if T.is_pos(b):
        if T.nonneg(a):
          return T.idivmod(a, b)[0]
        if T.nonneg(neg(a)):
          return neg(T.idivmod(neg(a), b)[0])
        return select(lt0(a), neg(T.idivmod(neg(a), b)[0]), T.idivmod(a, b)[0])
      raise Unsupported('int div by %s' % T.show(b))
    return elementwise(f)(ins, p, av)
  return elementwise(lambda a, b: mul(a, T.inv(b)))(ins, p, av)


@rule('rem')
def _r_rem(ins, p, av):
  def f(a, b):
    if not T.isint(a) or not T.isint(b):
      raise Unsupported('float rem')
    if T.is_pos(b):
      if T.nonneg(a):
        return T.idivmod(a, b)[1]
      if T.nonneg(neg(a)):
        return neg(T.idivmod(neg(a), b)[1])
      # truncated remainder
      return select(lt0(a), neg(T.idivmod(neg(a), b)[1]), T.idivmod(a, b)[1])
    raise Unsupported('rem by %s' % T.show(b))
  return elementwise(f)(ins, p, av)


@rule('and')
def _r_and(ins, p, av):
  _need_bool(av)
  return elementwise(mul)(ins, p, av)


@rule('or')
def _r_or(ins, p, av):
  _need_bool(av)
  return elementwise(lambda a, b: add(a, b, neg(mul(a, b))))(ins, p, av)


@rule('xor')
def _r_xor(ins, p, av):
  _need_bool(av)
  return elementwise(lambda a, b: add(a, b, T.scale(mul(a, b), -2)))(ins, p, av)


@rule('not')
def _r_not(ins, p, av):
  _need_bool(av)
  return elementwise(lambda a: add(ONE, neg(a)))(ins, p, av)


def _need_bool(av):
  if np.dtype(av[0].dtype) != np.bool_:
    raise Unsupported('bitwise op on %s' % av[0].dtype)


@rule('convert_element_type')
def _r_convert(ins, p, av):
  new = np.dtype(p['new_dtype'])
  old = np.dtype(p['_in_avals'][0].dtype)
  if new == np.bool_ and old != np.bool_:
    return elementwise(lambda a: add(ONE, neg(eq0(a))))(ins, p, av)
  if new.kind in 'iu' and old.kind == 'f':
    return elementwise(lambda a: T.fn('trunc', a))(ins, p, av)
  return [ins[0]]


@rule('select_n')
def _r_select(ins, p, av):
  c = ins[0]
  sh = shp(av[0].shape)
  isbool = np.dtype(p['_in_avals'][0].dtype) == np.bool_
  if isbool and len(ins) == 3:
    def fn(idx):
      cc = c.get(()) if c.ndim == 0 else c.get(idx)
      if cc is ONE:
        return ins[2].get(idx)
      if cc is ZERO:
        return ins[1].get(idx)
      return select(cc, ins[2].get(idx), ins[1].get(idx))
  else:
    def fn(idx):
      cc = c.get(()) if c.ndim == 0 else c.get(idx)
      out = ZERO
      for k, t in enumerate(ins[1:]):
        out = add(out, mul(eq0(cc - k), t.get(idx)))
      return out
  return [Tensor(sh, fn)]


@rule('clamp')
def _r_clamp(ins, p, av):
  return elementwise(lambda lo, x, hi: T.vmin(T.vmax(x, lo), hi))(ins, p, av)


@rule('broadcast_in_dim')
def _r_bcast(ins, p, av):
  t = ins[0]
  bd = p['broadcast_dimensions']
  sh = shp(av[0].shape)
  return [Tensor(sh, lambda idx: t.get([idx[d] for d in bd]))]


@rule('reshape')
def _r_reshape(ins, p, av):
  return [reshape(ins[0], shp(av[0].shape))]


@rule('squeeze')
def _r_squeeze(ins, p, av):
  t = ins[0]
  dims = set(p['dimensions'])
  keep = [d for d in range(t.ndim) if d not in dims]

  def fn(idx):
    src = [ZERO] * t.ndim
    for d, i in zip(keep, idx):
      src[d] = i
    return t.get(src)

  return [Tensor([t.shape[d] for d in keep], fn)]


@rule('expand_dims')
def _r_expand(ins, p, av):
  return [reshape(ins[0], shp(av[0].shape))]


@rule('transpose')
def _r_transpose(ins, p, av):
  t = ins[0]
  pm = p['permutation']

  def fn(idx):
    src = [None] * t.ndim
    for o, d in enumerate(pm):
      src[d] = idx[o]
    return t.get(src)

  return [Tensor(shp(av[0].shape), fn)]


@rule('rev')
def _r_rev(ins, p, av):
  t = ins[0]
  dims = set(p['dimensions'])
  return [Tensor(t.shape, lambda idx: t.get(
      [t.shape[d] - 1 - i if d in dims else i for d, i in enumerate(idx)]))]


@rule('slice')
def _r_slice(ins, p, av):
  t = ins[0]
  st = shp(p['start_indices'])
  sr = p['strides'] or (1,) * t.ndim
  return [Tensor(shp(av[0].shape), lambda idx: t.get(
      [add(s, T.mul(dim2poly(k), i)) for s, k, i in zip(st, sr, idx)]))]


@rule('dynamic_slice')
def _r_dslice(ins, p, av):
  t = ins[0]
  n = t.ndim
  starts = ins[1:1 + n]
  sizes = shp(p['slice_sizes'])

  def fn(idx):
    src = []
    for d in range(n):
      s = clampi(starts[d].get(()), t.shape[d] - sizes[d])
      src.append(add(s, idx[d]))
    return t.get(src)

  return [Tensor(sizes, fn)]


@rule('dynamic_update_slice')
def _r_dus(ins, p, av):
  t, u = ins[:2]
  starts = ins[2:2 + t.ndim]

  def fn(idx):
    g = ONE
    src = []
    for d in range(t.ndim):
      s = clampi(starts[d].get(()), t.shape[d] - u.shape[d])
      i = add(idx[d], neg(s))
      src.append(i)
      if u.shape[d] is ONE:
        g = mul(g, eq0(i))
        src[-1] = ZERO
      elif not (u.shape[d] is t.shape[d]):
        g = mul(g, mul(le0(neg(i)), lt0(add(i, neg(u.shape[d])))))
    return select(g, u.get(src), t.get(idx))

  return [Tensor(t.shape, fn)]


@rule('concatenate')
def _r_concat(ins, p, av):
  d = p['dimension']
  sh = shp(av[0].shape)

  def fn(idx):
    i = idx[d]
    off = ZERO
    offs = []
    for t in ins:
      offs.append(off)
      off = add(off, t.shape[d])
    conds = [le0(add(o, neg(i))) for o in offs]  # i >= o
    first = 0
    for k, c in enumerate(conds):
      if c is ONE:
        first = k
    out = None
    for k in range(first, len(ins)):
      if conds[k] is ZERO:
        break
      j = list(idx)
      j[d] = add(i, neg(offs[k]))
      v = ins[k].get(j)
      out = v if out is None else select(conds[k], v, out)
    return out

  return [Tensor(sh, fn)]


@rule('pad')
def _r_pad(ins, p, av):
  t, v = ins
  cfg = p['padding_config']
  sh = shp(av[0].shape)

  def fn(idx):
    g = ONE
    src = []
    for d, (lo, hi, inner) in enumerate(cfg):
      if not (isinstance(inner, int) and inner == 0):
        raise Unsupported('interior padding')
      i = add(idx[d], neg(dim2poly(lo)))
      src.append(i)
      g = mul(g, mul(le0(neg(i)), lt0(add(i, neg(t.shape[d])))))
    if g is ZERO:
      return v.get(())
    return select(g, t.get(src), v.get(()))

  return [Tensor(sh, fn)]


@rule('iota')
def _r_iota(ins, p, av):
  d = p['dimension']
  return [Tensor(shp(av[0].shape), lambda idx: idx[d])]


@rule('dim_as_value')
def _r_dav(ins, p, av):
  return [scalar(dim2poly(p['dim']))]


def _reduce(fold):
  def r(ins, p, av):
    t = ins[0]
    axes = sorted(p['axes'])
    keep = [d for d in range(t.ndim) if d not in axes]

    def fn(idx):
      src = [None] * t.ndim
      for d, i in zip(keep, idx):
        src[d] = i
      vs = []
      for d in axes:
        if t.shape[d] is ONE:
          src[d] = ZERO
          continue
        v = fresh(t.shape[d], 'r')
        src[d] = v
        vs.append((v, t.shape[d]))
      body = t.get(src)
      for v, s in reversed(vs):
        body = fold(v, s, body)
      return body

    return [Tensor([t.shape[d] for d in keep], fn)]

  return r


RULES['reduce_sum'] = _reduce(rsum)


@rule('psum')
def _psum(ins, p, avals):
  """sum over a mapped axis: positional by the time it is traced."""
  if p.get('axis_index_groups') or any(not isinstance(a, int) for a in p['axes']):
    raise Unsupported('psum over a named axis')
  out = []
  for t, a in zip(ins, avals):
    out += RULES['reduce_sum']([t], dict(p, axes=tuple(p['axes'])), [a])
  return out

RULES['reduce_max'] = _reduce(T.rmax)
RULES['reduce_min'] = _reduce(lambda v, s, b: neg(T.rmax(v, s, neg(b))))


def _fold_prod(v, s, b):
  vid = T.atom_of(v).id
  if vid not in b.fv and T.is_const(s):
    return T.ipow(b, int(T.const_val(s)))
  if not T.is_const(s) or T.const_val(s) > 64:
    # log-sum-exp is not available for 0/1 products: use exists/forall via sum
    raise Unsupported('symbolic product')
  r = ONE
  for k in range(int(T.const_val(s))):
    r = mul(r, T.subst(b, {vid: const(k)}))
  return r


def _fold_and(v, s, b):
  if T.is_const(s) and T.const_val(s) <= 64:
    return _fold_prod(v, s, b)
  return eq0(rsum(v, s, add(ONE, neg(b))))


def _fold_or(v, s, b):
  return add(ONE, neg(_fold_and(v, s, add(ONE, neg(b)))))


RULES['reduce_prod'] = _reduce(_fold_prod)
RULES['reduce_and'] = _reduce(_fold_and)
RULES['reduce_or'] = _reduce(_fold_or)


@rule('argmax', 'argmin')
def _r_argmax(ins, p, av):
  raise Unsupported('argmin')


def _r_argm(sgn):
  def r(ins, p, av):
    t = ins[0]
    (ax,) = p['axes']
    keep = [d for d in range(t.ndim) if d != ax]

    def fn(idx):
      src = [None] * t.ndim
      for d, i in zip(keep, idx):
        src[d] = i
      if t.shape[ax] is ONE:
        return ZERO
      v = fresh(t.shape[ax], 'm')
      src[ax] = v
      return T.argmax(v, t.shape[ax], T.scale(t.get(src), sgn))

    return [Tensor([t.shape[d] for d in keep], fn)]
  return r


RULES['argmax'] = _r_argm(1)
RULES['argmin'] = _r_argm(-1)


@rule('cumsum')
def _r_cumsum(ins, p, av):
  t = ins[0]
  ax = p['axis']
  rv = p['reverse']

  def fn(idx):
    v = fresh(t.shape[ax], 'c')
    src = list(idx)
    src[ax] = v
    b = t.get(src)
    i = idx[ax]
    if rv:
      b = mul(b, add(ONE, neg(lt0(add(v, neg(i))))))
    else:
      b = mul(b, lt0(add(v, neg(i), const(-1))))
    return rsum(v, t.shape[ax], b)

  return [Tensor(t.shape, fn)]


@rule('dot_general')
def _r_dot(ins, p, av):
  a, b = ins
  (ca, cb), (ba, bb) = p['dimension_numbers']
  fa = [d for d in range(a.ndim) if d not in ca and d not in ba]
  fb = [d for d in range(b.ndim) if d not in cb and d not in bb]

  def fn(idx):
    ia = [None] * a.ndim
    ib = [None] * b.ndim
    k = 0
    for x, y in zip(ba, bb):
      ia[x] = ib[y] = idx[k]
      k += 1
    for x in fa:
      ia[x] = idx[k]
      k += 1
    for y in fb:
      ib[y] = idx[k]
      k += 1
    vs = []
    for x, y in zip(ca, cb):
      if a.shape[x] is ONE:
        ia[x] = ib[y] = ZERO
        continue
      v = fresh(a.shape[x], 'd')
      ia[x] = ib[y] = v
      vs.append((v, a.shape[x]))
    body = mul(a.get(ia), b.get(ib))
    for v, s in reversed(vs):
      body = rsum(v, s, body)
    return body

  return [Tensor(shp(av[0].shape), fn)]


def _mode(p):
  return str(p.get('mode', '')).split('.')[-1]


@rule('gather')
def _r_gather(ins, p, av):
  op, ind = ins
  dn = p['dimension_numbers']
  sizes = shp(p['slice_sizes'])
  od = dn.offset_dims
  coll = set(dn.collapsed_slice_dims)
  sim = dn.start_index_map
  sh = shp(av[0].shape)
  batch = [d for d in range(len(sh)) if d not in od]
  offd = [d for d in range(op.ndim) if d not in coll]
  mode = _mode(p)

  def fn(idx):
    bi = [idx[d] for d in batch]
    src = [ZERO] * op.ndim
    for o, d in zip(od, offd):
      src[d] = idx[o]
    guard = ONE
    for k, d in enumerate(sim):
      s = ind.get(bi + [const(k)])
      if mode in ('CLIP', 'PROMISE_IN_BOUNDS', 'ONE_HOT') or True:
        lim = add(op.shape[d], neg(sizes[d]))
        if mode == 'CLIP':
          s = clampi(s, lim)
        elif not (T.nonneg(s) and T.nonneg(lim - s)):
          if mode == 'FILL_OR_DROP':
            note_side('gather index in bounds', s, lim)
      src[d] = add(s, src[d])
    return op.get(src)

  return [Tensor(sh, fn)]


def note_side(what, s, lim):
  msg = '%s: 0 <= %s <= %s' % (what, T.show(s, 300), T.show(lim, 100))
  if msg not in SIDE:
    SIDE.append(msg)


def _scatter_common(ins, p):
  op, ind, upd = ins
  dn = p['dimension_numbers']
  uwd = dn.update_window_dims
  ins_d = set(dn.inserted_window_dims)
  sdo = dn.scatter_dims_to_operand_dims
  sdims = [d for d in range(upd.ndim) if d not in uwd]
  wdims = [d for d in range(op.ndim) if d not in ins_d]
  return op, ind, upd, uwd, ins_d, sdo, sdims, wdims


@rule('scatter-add', 'scatter_add')
def _r_scatter_add(ins, p, av):
  op, ind, upd, uwd, ins_d, sdo, sdims, wdims = _scatter_common(ins, p)
  mode = _mode(p)

  def fn(idx):
    sv, vs = [], []
    for d in sdims:
      if upd.shape[d] is ONE:
        sv.append(ZERO)
      else:
        v = fresh(upd.shape[d], 's')
        sv.append(v)
        vs.append((v, upd.shape[d]))
    g, ui = _match(op, ind, upd, uwd, ins_d, sdo, sdims, wdims, sv, idx, mode)
    body = mul(g, upd.get(ui))
    for v, s in reversed(vs):
      body = rsum(v, s, body)
    return add(op.get(idx), body)

  return [Tensor(op.shape, fn)]


def _match(op, ind, upd, uwd, ins_d, sdo, sdims, wdims, sv, idx, mode,
           skip=()):
  """indicator that update (sv,window) hits idx, and the update index."""
  start = {}
  for k, d in enumerate(sdo):
    start[d] = ind.get(list(sv) + [const(k)])
  ui = [None] * upd.ndim
  for d, v in zip(sdims, sv):
    ui[d] = v
  g = ONE
  for d in range(op.ndim):
    st = start.get(d, ZERO)
    if d in ins_d:
      if d not in skip:
        g = mul(g, eq0(add(st, neg(idx[d]))))
    else:
      u = uwd[wdims.index(d)]
      if mode == 'CLIP':
        st = clampi(st, add(op.shape[d], neg(upd.shape[u])))
      w = add(idx[d], neg(st))
      ui[u] = w
      if upd.shape[u] is ONE and not (op.shape[d] is ONE):
        g = mul(g, eq0(w))
        ui[u] = ZERO
      elif not (upd.shape[u] is op.shape[d] and st is ZERO):
        g = mul(g, mul(le0(neg(w)), lt0(add(w, neg(upd.shape[u])))))
  return g, ui


@rule('scatter')
def _r_scatter(ins, p, av):
  op, ind, upd, uwd, ins_d, sdo, sdims, wdims = _scatter_common(ins, p)
  mode = _mode(p)

  def fn(idx):
    # choose scatter coordinates: solved, or enumerated when of constant size
    vs = [None] * len(sdims)
    probe = []
    for k, d in enumerate(sdims):
      if upd.shape[d] is ONE:
        vs[k] = ZERO
      else:
        v = fresh(upd.shape[d], 's')
        vs[k] = v
        probe.append((k, v, upd.shape[d]))
    starts = {d: ind.get(list(vs) + [const(k)]) for k, d in enumerate(sdo)}
    sol = {}
    skip = set()
    progress = True
    while progress:
      progress = False
      for k, v, size in probe:
        if k in sol:
          continue
        vid = T.atom_of(v).id
        for d in ins_d:
          if d in skip or d not in starts:
            continue
          st = T.subst(starts[d], {T.atom_of(vs[kk]).id: e
                                   for kk, e in sol.items()})
          s = T.linear_solve(add(st, neg(idx[d])), vid)
          if s is None:
            s = _solve_perm(st, idx[d], vid)
          if s is not None and T.isint(s):
            sol[k] = (s)
            skip.add(d)
            progress = True
            break
    rest = [(k, v, s) for k, v, s in probe if k not in sol]
    for k, v, s in rest:
      if not T.is_const(s) or T.const_val(s) > 64:
        raise Unsupported('scatter: unsolved symbolic update dimension')
    out = op.get(idx)
    for combo in itertools.product(*[range(int(T.const_val(s)))
                                     for _, _, s in rest]):
      sub = {T.atom_of(v).id: const(c) for (k, v, s), c in zip(rest, combo)}
      cur = list(vs)
      for (k, v, s), c in zip(rest, combo):
        cur[k] = const(c)
      for k, e in sol.items():
        cur[k] = T.subst(e, sub)
      g = ONE
      for k, e in sol.items():
        size = upd.shape[sdims[k]]
        e2 = cur[k]
        if not T.nonneg(e2):
          g = mul(g, le0(neg(e2)))
        if not T.nonneg(size - 1 - e2):
          g = mul(g, lt0(e2 - size))
      m, ui = _match(op, ind, upd, uwd, ins_d, sdo, sdims, wdims, cur, idx,
                     mode)
      g = mul(g, m)
      if g is ZERO:
        continue
      out = select(g, upd.get(ui), out)
    return out

  return [Tensor(op.shape, fn)]


def _solve_perm(st, target, vid):
  """perm(v) = target  ->  v = rank(target)."""
  try:
    at = T.atom_of(st)
  except Unsupported:
    return None
  if at.kind == 'perm' and at.args[1] is T.from_atom(T.atom(vid)):
    return T.perm_inv(at.args[0], target)
  return None


@rule('sort')
def _r_sort(ins, p, av):
  ax = p['dimension']
  if p['num_keys'] != 1:
    raise Unsupported('multi-key sort')
  key = ins[0]
  n = key.shape[ax]

  def mk(t):
    def fn(idx):
      v = fresh(n, 'k')
      src = list(idx)
      src[ax] = v
      lam = T.close([v], [n], key.get(src))
      j = list(idx)
      j[ax] = T.perm(lam, idx[ax])
      return t.get(j)
    return Tensor(t.shape, fn)

  return [mk(t) for t in ins]


@rule('top_k')
def _r_topk(ins, p, av):
  t = ins[0]
  n = t.shape[-1]

  def pidx(idx):
    v = fresh(n, 'k')
    lam = T.close([v], [n], t.get(list(idx[:-1]) + [v]))
    return T.perm(lam, add(n, const(-1), neg(idx[-1])))

  sh = shp(av[0].shape)
  return [Tensor(sh, lambda idx: t.get(list(idx[:-1]) + [pidx(idx)])),
          Tensor(sh, pidx)]


@rule('split')
def _r_split(ins, p, av):
  raise Unsupported('split primitive')


@rule('scan')
def _r_scan(ins, p, av):
  nc, nk = p['num_consts'], p['num_carry']
  consts, carry, xs = ins[:nc], list(ins[nc:nc + nk]), ins[nc + nk:]
  length = dim2poly(p['length'])
  j = p['jaxpr']
  nys = len(av) - nk
  if T.is_const(length) and int(T.const_val(length)) <= 40:
    L = int(T.const_val(length))
    order = range(L - 1, -1, -1) if p['reverse'] else range(L)
    ys = [[None] * L for _ in range(nys)]
    for t in order:
      xt = [Tensor(x.shape[1:], (lambda x, t: lambda idx: x.get(
          [const(t)] + list(idx)))(x, t)) for x in xs]
      outs = _closed(j, consts + carry + xt)
      carry = outs[:nk]
      for k in range(nys):
        ys[k][t] = outs[nk + k]

    def stack(lst, sh):
      def fn(idx):
        i = idx[0]
        if T.is_const(i):
          return lst[int(T.const_val(i))].get(idx[1:])
        out = ZERO
        for t in range(L):
          out = add(out, mul(eq0(i - t), lst[t].get(idx[1:])))
        return out
      return Tensor(sh, fn)

    return list(carry) + [stack(ys[k], shp(av[nk + k].shape))
                          for k in range(nys)]
  # symbolic length: only carry-free bodies
  body = j.jaxpr
  for k in range(nk):
    if body.outvars[k] is not body.invars[nc + k]:
      raise Unsupported('scan with symbolic length and a changing carry')
  cache = {}

  def at(t):
    r = cache.get(t.pid)
    if r is None:
      xt = [Tensor(x.shape[1:], (lambda x: lambda idx: x.get(
          [t] + list(idx)))(x)) for x in xs]
      r = _closed(j, consts + carry + xt)
      cache[t.pid] = r
    return r

  def mk(k):
    return Tensor(shp(av[nk + k].shape),
                  lambda idx: at(idx[0])[nk + k].get(idx[1:]))

  return list(carry) + [mk(k) for k in range(nys)]


@rule('while')
def _r_while(ins, p, av):
  cn, bn = p['cond_nconsts'], p['body_nconsts']
  cc, bc, st = ins[:cn], ins[cn:cn + bn], list(ins[cn + bn:])
  for _ in range(200):
    c = _closed(p['cond_jaxpr'], cc + st)[0].get(())
    if c is ZERO:
      return st
    if c is not ONE:
      raise Unsupported('while loop with symbolic condition %s' % T.show(c, 200))
    st = _closed(p['body_jaxpr'], bc + st)
  raise Unsupported('while loop too long')


@rule('cond')
def _r_cond(ins, p, av):
  c = ins[0].get(())
  br = p['branches']
  if T.is_const(c):
    k = int(T.const_val(c))
    k = max(0, min(k, len(br) - 1))
    return _closed(br[k], ins[1:])
  outs = [_closed(b, ins[1:]) for b in br]
  if len(br) != 2:
    raise Unsupported('cond with %d branches' % len(br))
  cc = c

  def mk(k):
    return Tensor(shp(av[k].shape), lambda idx: select(
        eq0(cc), outs[0][k].get(idx), outs[1][k].get(idx)))

  return [mk(k) for k in range(len(av))]


@rule('random_bits', 'random_wrap', 'random_unwrap', 'random_seed',
      'threefry2x32', 'random_split', 'shift_right_logical')
def _r_rng(ins, p, av):
  raise Unsupported('raw RNG primitive (stub missing)')


@rule('device_put', 'sharding_constraint')
def _r_id(ins, p, av):
  return list(ins)
