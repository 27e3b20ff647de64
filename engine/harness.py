"""Contracts over the real code.

An obligation is a Python function that *calls the real functions of /repo*
and states what must hold of their results.  The same function is

  * traced once with symbolic dimensions, symbolic inputs, symbolic random
    draws and an uninterpreted model; the resulting jaxpr is translated to
    terms and every stated equation is proved for all inputs (`prove`);
  * executed eagerly on concrete inputs (`run_concrete`) to replay a failed
    obligation on the real code, and to cross-check the translation.
"""
import contextlib
import math as _pymath
import os
import sys
import time
import types

os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
  sys.path.insert(0, REPO)

import warnings  # pylint: disable=wrong-import-position
warnings.filterwarnings('ignore')
import logging  # pylint: disable=wrong-import-position
logging.getLogger('jax._src.xla_bridge').setLevel(logging.ERROR)

import jax  # pylint: disable=wrong-import-position
import jax.numpy as jnp  # pylint: disable=wrong-import-position
import numpy as np  # pylint: disable=wrong-import-position
from jax import core  # pylint: disable=wrong-import-position
from jax.interpreters import batching  # pylint: disable=wrong-import-position
from jax.experimental import export  # pylint: disable=wrong-import-position

import sym  # pylint: disable=wrong-import-position
import terms as T  # pylint: disable=wrong-import-position
import prove as P  # pylint: disable=wrong-import-position
import evalt  # pylint: disable=wrong-import-position

_REAL = {k: getattr(jax.random, k) for k in (
    'split', 'bernoulli', 'uniform', 'randint', 'categorical', 'choice',
    'normal', 'fold_in', 'gumbel', 'permutation', 'PRNGKey', 'shuffle')
    if hasattr(jax.random, k)}
_REAL_LOG = _pymath.log


class ContractMismatch(Exception):
  """The code asks for randomness the contract does not foresee."""


class Infeasible(Exception):
  """concrete sample violates an assumption."""


# --------------------------------------------------------------------------
# primitives used in symbolic mode
# --------------------------------------------------------------------------
split_p = core.Primitive('vp_split')
split_p.def_abstract_eval(
    lambda k, *, num: core.ShapedArray(tuple(num) + tuple(k.shape), k.dtype))
fold_p = core.Primitive('vp_fold')
fold_p.def_abstract_eval(lambda k, d: core.ShapedArray(k.shape, k.dtype))


def _b_split(args, dims, *, num):
  k = jnp.moveaxis(args[0], dims[0], 0)
  return split_p.bind(k, num=num), len(num)


def _b_fold(args, dims):
  k, d = args
  size = (k.shape[dims[0]] if dims[0] is not batching.not_mapped else
          d.shape[dims[1]])
  if dims[0] is batching.not_mapped:
    k = jnp.broadcast_to(k, (size,) + k.shape)
  else:
    k = jnp.moveaxis(k, dims[0], 0)
  if dims[1] is not batching.not_mapped:
    d = jnp.moveaxis(d, dims[1], 0)
  else:
    d = jnp.broadcast_to(d, (size,) + d.shape)
  return fold_p.bind(k, d), 0


batching.primitive_batchers[split_p] = _b_split
batching.primitive_batchers[fold_p] = _b_fold
opq_p = core.Primitive('vp_opaque')
opq_p.def_abstract_eval(
    lambda *a, head, shape, dtype, nb, **kw: core.ShapedArray(shape, dtype))


def _h_split(ins, p, av):
  k = ins[0]
  nd = len(p['num'])

  def fn(idx):
    return T.app('split', k.get(idx[nd:-1] + (T.ZERO,)) if k.ndim > 1 else
                 k.get((T.ZERO,)), *idx[:nd], idx[-1])

  return [sym.Tensor(sym.shp(av[0].shape), fn)]


def _h_fold(ins, p, av):
  k, d = ins
  return [sym.Tensor(k.shape, lambda idx: T.app(
      'fold', k.get(idx[:-1] + (T.ZERO,)), d.get(idx[:d.ndim]), idx[-1]))]


def row_args(t, lead):
  """row of tensor t at leading index `lead` as an App argument."""
  rest = t.shape[len(lead):]
  if not rest:
    return [t.get(lead)]
  n = 1
  for s in rest:
    n = n * int(T.const_val(s)) if T.is_const(s) and n is not None else None
  if n is not None and n <= 12:
    return [t.get(tuple(lead) + tuple(T.const(i) for i in ii))
            for ii in np.ndindex(*[int(T.const_val(s)) for s in rest])]
  vs = [T.fresh(s, 'l') for s in rest]
  return [T.close(vs, list(rest), t.get(tuple(lead) + tuple(vs)))]


def _h_opaque(ins, p, av):
  """row-wise uninterpreted function: out[b, j...] = F(row(b), j...)."""
  nb = p['nb']
  head = p['head']
  sh = sym.shp(av[0].shape)

  def fn(idx):
    lead = idx[:nb]
    args = []
    for t in ins:
      args += row_args(t, lead if t.ndim >= nb else ())
    return T.app(head, *args, *idx[nb:])

  return [sym.Tensor(sh, fn)]


# an uninterpreted function with explicit indexing: out[i...] = F(args...),
# lead[a]: which output axes index the leading axes of argument a (the rest of
# the argument is passed whole); own: output axes that are arguments of F.
fn_p = core.Primitive('vp_fn')
fn_p.def_abstract_eval(
    lambda *a, head, shape, dtype, lead, own: core.ShapedArray(shape, dtype))


def _h_fn(ins, p, av):
  sh = sym.shp(av[0].shape)

  def fn(idx):
    args = []
    for t, ld in zip(ins, p['lead']):
      args += row_args(t, tuple(idx[i] for i in ld))
    return T.app(p['head'], *args, *[idx[i] for i in p['own']])

  return [sym.Tensor(sh, fn)]


def _b_fn(args, dims, *, head, shape, dtype, lead, own):
  size = [a.shape[d] for a, d in zip(args, dims)
          if d is not batching.not_mapped][0]
  new, ld = [], []
  for a, d, l in zip(args, dims, lead):
    l = tuple(i + 1 for i in l)
    if d is batching.not_mapped:
      new.append(a)
      ld.append(l)
    else:
      new.append(jnp.moveaxis(a, d, 0))
      ld.append((0,) + l)
  return fn_p.bind(*new, head=head, shape=(size,) + tuple(shape), dtype=dtype,
                   lead=tuple(ld), own=tuple(i + 1 for i in own)), 0


batching.primitive_batchers[fn_p] = _b_fn
sym.HANDLERS['vp_fn'] = _h_fn


def anyfn(head, args, shape, dtype=jnp.float32, lead=None, own=None):
  """arbitrary function (symbolic mode)."""
  args = [jnp.asarray(a) for a in args]
  args = [a if a.dtype == jnp.uint32 else a.astype(jnp.float32) for a in args]
  lead = tuple(() for _ in args) if lead is None else tuple(lead)
  own = tuple(range(len(shape))) if own is None else tuple(own)
  return fn_p.bind(*args, head=head, shape=tuple(shape), dtype=jnp.dtype(
      dtype), lead=lead, own=own)


sym.HANDLERS['vp_split'] = _h_split
sym.HANDLERS['vp_fold'] = _h_fold
sym.HANDLERS['vp_opaque'] = _h_opaque


# --------------------------------------------------------------------------
# run mode
# --------------------------------------------------------------------------
class Mode:
  symbolic = True
  prop = None  # the property being decided: bodies may skip other goals

  def wants(self, *ps):
    return self.prop is None or self.prop in ps


MODE = Mode()


class DrawLog:

  def __init__(self):
    self.entries = []

  def of(self, kind):
    return [e for e in self.entries if e.kind == kind]


class Entry(types.SimpleNamespace):
  pass


_STACK = []


def _is_batch(x):
  return isinstance(x, batching.BatchTracer)


def _supply(kind, key, params, shape, dtype):
  """under vmap the draw has one more leading axis; with an unbatched key all
  mapped rows would share the same randomness."""
  parts = [key] + [v for v in params.values() if hasattr(v, 'dtype')]
  bt = [v for v in parts if _is_batch(v)]
  if bt:
    lvl = max(t._trace.level for t in bt)
    top = [t for t in bt if t._trace.level == lvl]
    tr = top[0]._trace
    size = top[0].val.shape[top[0].batch_dim]

    def out(v):
      if _is_batch(v) and v._trace.level == lvl:
        return jnp.moveaxis(v.val, v.batch_dim, 0)
      return v

    k2 = out(key)
    shared = not (_is_batch(key) and key._trace.level == lvl)
    params = {k: out(v) if hasattr(v, 'dtype') else v
              for k, v in params.items()}
    v = _supply(kind, k2, dict(params, _vmap=params.get('_vmap', 0) + 1),
                ((1,) if shared else (size,)) + tuple(shape), dtype)
    if shared:
      return v[0]
    return batching.BatchTracer(tr, v, 0)
  if not _STACK:
    raise ContractMismatch('random draw %s outside a contract run' % kind)
  log, provider = _STACK[-1]
  v = provider(kind, params, shape)
  if v is None:
    raise ContractMismatch('unexpected draw: %s shape %s' % (kind, shape))
  v = jnp.asarray(v)
  shared = False
  if tuple(str(s) for s in v.shape) != tuple(str(s) for s in shape):
    # fewer values than the contract has random variables: the same value is
    # used more than once
    w = v
    while w.ndim > len(shape):
      w = w[0]
    if w.ndim == len(shape):
      for ax, (have, want) in enumerate(zip(w.shape, shape)):
        if str(have) != str(want) and str(want) == '1':
          w = jax.lax.slice_in_dim(w, 0, 1, axis=ax)
    if tuple(str(s) for s in w.shape) != tuple(str(s) for s in shape):
      raise ContractMismatch('draw %s: shape %s, contract expects %s' %
                             (kind, shape, v.shape))
    shared = True
    v = w
  log.entries.append(Entry(kind=kind, key=key, params=params, shape=shape,
                           value=v, shared=shared))
  return v.astype(dtype)


def _canon(shape):
  if not isinstance(shape, (tuple, list)):
    if getattr(shape, 'ndim', 0) == 1:
      return tuple(int(v) for v in shape)
    shape = (shape,)
  return tuple(shape)


def s_split(key, num=2):
  num = _canon(num)
  if MODE.symbolic:
    return split_p.bind(key, num=num)
  return _REAL['split'](key, num if len(num) > 1 else int(num[0]))


def s_fold_in(key, data):
  if MODE.symbolic:
    return fold_p.bind(key, jnp.asarray(data, jnp.int32))
  return _REAL['fold_in'](key, data)


def _fallback(kind):
  """outside a contract's sampling scope (parameter initialisers evaluated
  for their shapes) the library's own function runs."""
  def deco(f):
    def g(*a, **k):
      # flax initialisers (jax.nn.initializers) pass a NamedShape
      if not _STACK or any(type(v).__name__ == 'NamedShape' for v in a):
        return _REAL[kind](*a, **k)
      return f(*a, **k)
    return g
  return deco


@_fallback('bernoulli')
def s_bernoulli(key, p=0.5, shape=None):
  p = jnp.asarray(p, jnp.float32)
  shape = p.shape if shape is None else _canon(shape)
  return _supply('bernoulli', key, {'p': jnp.broadcast_to(p, shape)}, shape,
                 jnp.bool_)


@_fallback('uniform')
def s_uniform(key, shape=(), dtype=float, minval=0.0, maxval=1.0):
  shape = _canon(shape)
  u = _supply('uniform', key, {'minval': minval, 'maxval': maxval}, shape,
              jnp.float32)
  if isinstance(minval, (int, float)) and isinstance(maxval, (int, float)):
    if (minval, maxval) == (0, 1):
      return u
  return u * (maxval - minval) + minval


@_fallback('randint')
def s_randint(key, shape, minval, maxval, dtype=int):
  shape = _canon(shape)
  return _supply('randint', key, {'minval': minval, 'maxval': maxval}, shape,
                 jnp.int32)


@_fallback('categorical')
def s_categorical(key, logits, axis=-1, shape=None):
  logits = jnp.moveaxis(jnp.asarray(logits), axis, -1)
  bs = logits.shape[:-1]
  shape = bs if shape is None else _canon(shape)
  pre = shape[:len(shape) - len(bs)]
  lg = jnp.broadcast_to(logits, tuple(pre) + logits.shape)
  return _supply('categorical', key, {'logits': lg}, shape, jnp.int32)


@_fallback('choice')
def s_choice(key, a, shape=(), replace=True, p=None, axis=0):
  shape = _canon(shape)
  a = jnp.arange(a) if not hasattr(a, 'shape') or a.shape == () else a
  return _supply('choice', key, {'a': a, 'replace': replace, 'p': p}, shape,
                 a.dtype)


@_fallback('normal')
def s_normal(key, shape=(), dtype=float):
  return _supply('normal', key, {}, _canon(shape), jnp.float32)


def s_shuffle(key, x, axis=0):
  return _supply('permutation', key, {'x': x}, x.shape, x.dtype)


def s_fori(lower, upper, body, init, **kw):
  """loop over chains with a symbolic trip count, by the loop rule

    invariant: rows >= i of every per-chain component are as initialised.

  The body is run at one arbitrary iteration i (an input of the obligation)
  from an arbitrary carry satisfying the invariant; checked: it changes row i
  only, and leaves everything else (but the key) alone.  Hence row i of the
  final value is row i after iteration i."""
  if isinstance(upper, (int, np.integer)) and isinstance(lower, (
      int, np.integer)):
    v = init
    for i in range(int(lower), int(upper)):
      v = body(i, v)
    return v
  if not MODE.symbolic or not LOOPS:
    return _REAL_FORI(lower, upper, body, init, **kw)
  G, i, others = LOOPS[-1]
  leaves, tree = jax.tree_util.tree_flatten(init)
  mixed = []
  for k, v in enumerate(leaves):
    v = jnp.asarray(v)
    if v.ndim and str(v.shape[0]) == str(upper):
      o = others.pop(0)
      if tuple(map(str, o.shape)) != tuple(map(str, v.shape)):
        raise ContractMismatch('loop carry shape %s' % (v.shape,))
      sel = jnp.reshape(jnp.arange(v.shape[0]) == i,
                        (-1,) + (1,) * (v.ndim - 1))
      mixed.append(jnp.where(sel, v, o.astype(v.dtype)))
    elif v.dtype == jnp.uint32 and v.shape == (2,):
      mixed.append(fold_p.bind(v, i))
    else:
      mixed.append(v)
  out = jax.tree_util.tree_leaves(body(i, jax.tree_util.tree_unflatten(
      tree, mixed)))
  if len(out) != len(mixed):
    raise ContractMismatch('loop carry structure')
  for k, (a, c) in enumerate(zip(out, mixed)):
    if c.ndim and str(c.shape[0]) == str(upper):
      sel = jnp.reshape(jnp.arange(c.shape[0]) == i,
                        (-1,) + (1,) * (c.ndim - 1))
      for p in LOOP_PROPS:
        G.true('%s.loop: iteration writes its own chain only (%d)' % (p, k),
               sel | (a == c))
    elif c.dtype == jnp.uint32 and c.shape == (2,):
      pass
    else:
      for p in LOOP_PROPS:
        G.eq('%s.loop: carry %d is invariant' % (p, k), a, c)
  return jax.tree_util.tree_unflatten(tree, out)


LOOPS = []
LOOP_PROPS = ('C02', 'C05')
_REAL_FORI = jax.lax.fori_loop


STUBS = dict(split=s_split, bernoulli=s_bernoulli, uniform=s_uniform,
             randint=s_randint, categorical=s_categorical, choice=s_choice,
             normal=s_normal, fold_in=s_fold_in, shuffle=s_shuffle,
             permutation=s_shuffle)


@contextlib.contextmanager
def stubs():
  """replace jax.random entry points by contract-supplied draws."""
  saved = {k: getattr(jax.random, k) for k in STUBS if hasattr(jax.random, k)}
  from discs.common import math_util  # pylint: disable=import-outside-toplevel
  saved_log = math_util.log
  for k, f in STUBS.items():
    setattr(jax.random, k, f)

  def log_any(x):
    if type(x).__name__ == '_DimExpr':
      return jnp.log(core.dimension_as_value(x).astype(jnp.float32))
    return saved_log(x)

  math_util.log = log_any
  jax.lax.fori_loop = s_fori
  real_indices = jnp.indices

  def indices(dimensions, dtype=jnp.int32, sparse=False):
    if sparse or all(isinstance(v, int) for v in dimensions):
      return real_indices(dimensions, dtype, sparse)
    return jnp.stack([jax.lax.broadcasted_iota(dtype, tuple(dimensions), i)
                      for i in range(len(dimensions))])

  jnp.indices = indices
  try:
    yield
  finally:
    jax.lax.fori_loop = _REAL_FORI
    jnp.indices = real_indices
    for k, f in saved.items():
      setattr(jax.random, k, f)
    math_util.log = saved_log


@contextlib.contextmanager
def draws(provider):
  log = DrawLog()
  _STACK.append((log, provider))
  try:
    yield log
  finally:
    _STACK.pop()


def supply_seq(**by_kind):
  """provider: per kind, values handed out in order; a callable is called
  with (params, shape)."""
  q = {k: list(v) if isinstance(v, (list, tuple)) else [v]
       for k, v in by_kind.items()}

  def f(kind, params, shape):
    lst = q.get(kind)
    if not lst:
      return None
    v = lst.pop(0) if len(lst) > 1 else lst[0]
    return v(params, shape) if callable(v) else v

  return f


def opaque(head, *xs, shape, nb=1, dtype=jnp.float32, concrete=None):
  if MODE.symbolic:
    return opq_p.bind(*[jnp.asarray(x).astype(jnp.float32) for x in xs],
                      head=head, shape=tuple(shape), dtype=jnp.dtype(dtype),
                      nb=nb)
  return concrete(*xs)


# --------------------------------------------------------------------------
# an arbitrary (uninterpreted) target distribution
# --------------------------------------------------------------------------
class AnyModel:
  """log-density and gradient are uninterpreted functions of the row."""

  def __init__(self, seed=0, scale=1.0, C=2, rank=None):
    """C > 2: integer states of rank `rank` and their one-hot encodings are
    the same argument (as every categorical model of the repository has it)."""
    self.seed, self.scale, self.C, self.rank = seed, scale, C, rank

  def _enc(self, x):
    if self.rank is None or (isinstance(self.C, int) and self.C == 2):
      return x
    if x.ndim == 1 + self.rank:
      return (x[..., None] == jnp.arange(self.C)).astype(jnp.float32)
    return x

  def _w(self, n, k):
    r = np.random.RandomState(1000 * self.seed + 17 * k + n)
    return jnp.asarray(r.randn(n) * self.scale, jnp.float32)

  def _ll(self, x):
    b = x.shape[0]
    z = jnp.reshape(x.astype(jnp.float32), (b, -1))
    n = z.shape[1]
    # numpy-free quadratic with a nonlinear coupling
    w1, w2, w3 = self._w(n, 1), self._w(n, 2), self._w(n, 3)
    return (z @ w1 + 0.3 * (z @ w2) ** 2 / (1 + n) ** 0.5 +
            jnp.sin(z @ w3) * self.scale)

  def _grad(self, x):
    b = x.shape[0]
    z = jnp.reshape(x.astype(jnp.float32), (b, -1))
    n = z.shape[1]
    w1, w2, w3 = self._w(n, 4), self._w(n, 5), self._w(n, 6)
    s = jnp.sin(z @ w3)[:, None]
    g = w1[None] * (1 + 0.5 * s) + 0.5 * jnp.cos((z @ w2)[:, None] * w2[None])
    return jnp.reshape(g * self.scale, x.shape)

  def forward(self, params, x):
    x = self._enc(x)
    return opaque('LL', x, shape=x.shape[:1], concrete=self._ll)

  def get_value_and_grad(self, params, x):
    x = x.astype(jnp.float32)
    return (opaque('LL', x, shape=x.shape[:1], concrete=self._ll),
            opaque('GRAD', x, shape=x.shape, concrete=self._grad))

  def logratio_in_neighborhood(self, params, x):
    x = x.astype(jnp.float32)
    return (opaque('LL', x, shape=x.shape[:1], concrete=self._ll),
            opaque('RATIO', x, shape=x.shape, concrete=self._grad), 1, None)


# --------------------------------------------------------------------------
# declarations
# --------------------------------------------------------------------------
class Decl:

  def __init__(self, shape, kind='real', lo=None, hi=None, gen=None, pos=False,
               distinct=False):
    self.shape, self.kind, self.lo, self.hi = tuple(shape), kind, lo, hi
    self.gen = gen
    self.pos = pos
    self.distinct = distinct


def real(*shape, **kw):
  return Decl(shape, 'real', **kw)


def integer(lo, hi, *shape, **kw):
  """lo <= v <= hi (python ints or dims)."""
  return Decl(shape, 'int', lo, hi, **kw)


def bit(*shape, **kw):
  return Decl(shape, 'bit', 0, 1, **kw)


def uniform01(*shape, **kw):
  return Decl(shape, 'unif', 0, 1, **kw)


def key(**kw):
  return Decl((2,), 'key', **kw)


class Goals:

  def __init__(self):
    self.items = []  # (name, kind, lhs, rhs)
    self.assumes = []
    self.meta = {}
    self.strict = False

  def eq(self, name, lhs, rhs):
    rhs = jnp.asarray(rhs)
    try:
      lhs = jnp.asarray(lhs)
    except TypeError:
      if self.strict and not MODE.symbolic:
        self.items.append((name, 'shape', type(lhs).__name__, rhs.shape))
        return
      raise
    if (self.strict and not MODE.symbolic and lhs.ndim and rhs.ndim
        and lhs.shape != rhs.shape):
      self.items.append((name, 'shape', lhs.shape, rhs.shape))
      return
    shape = jnp.broadcast_shapes(lhs.shape, rhs.shape)
    self.items.append((name, 'eq', jnp.broadcast_to(lhs, shape),
                       jnp.broadcast_to(rhs, shape)))

  def true(self, name, cond):
    cond = jnp.asarray(cond)
    self.items.append((name, 'true', cond, jnp.ones_like(cond)))

  def assume(self, name, cond):
    """cond (b, ...) boolean; instantiated at the goal's leading index."""
    self.assumes.append((name, jnp.asarray(cond)))

  def keys(self, name, ks):
    """pairwise distinct randomness keys."""
    self.items.append((name, 'keys', [jnp.asarray(k) for k in ks], None))

  def fresh(self, name, used, step, before=None, after=None):
    """the key `used` in iteration `step` is used in no other iteration: it
    is derived from the step number, or from a key that the loop carries and
    replaces by a derived one (before -> after)."""
    ks = [used, step] + ([] if before is None else [before, after])
    self.items.append((name, 'fresh', [jnp.asarray(k) for k in ks], None))


class Obligation:
  """dims: {'b':1,'n':2} lower bounds; inputs(d)->{name: Decl};
  body(G,d,I); under: functions under contract."""

  def __init__(self, name, dims, inputs, body, under=(), concrete_dims=(),
               trusted=(), deadline=60, samples=4, tol=2e-4, bounds_note=None,
               props=(), blackbox=None, tier='quick', bounded=None,
               bounded_dims=None, repair=None, sigmoid=False, strict=False,
               equal=True):
    self.name, self.dims, self.inputs, self.body = name, dims, inputs, body
    concrete_dims = list(concrete_dims)
    if equal and concrete_dims and len(dims) > 1 and set(concrete_dims[0]) == set(dims):
      # coinciding sizes: code that tells axes apart by their lengths
      m = max([3] + list(dims.values()))
      if {k: m for k in dims} not in concrete_dims:
        concrete_dims.append({k: m for k in dims})
    self.under, self.concrete_dims = tuple(under), tuple(concrete_dims)
    self.trusted, self.deadline = tuple(trusted), deadline
    self.samples, self.tol = samples, tol
    self.bounds_note = bounds_note
    self.props = tuple(props)
    # blackbox(prop, seed) -> list of (goal, detail): an implementation-
    # independent test, used when the code no longer fits the contract's view
    self.blackbox = blackbox
    self.tier = tier
    # a string: sizes the obligation is limited to (never counted as proved)
    self.bounded = bounded
    self.bounded_dims = bounded_dims
    # repair(inputs, rs): make random inputs satisfy the preconditions
    self.repair = repair
    self.sigmoid = sigmoid
    # strict: the code gets genuine inputs only (no stand-ins), so any
    # exception it raises is its own
    self.strict = strict


class D(types.SimpleNamespace):
  pass


def _np_dtype(k):
  return {'real': jnp.float32, 'int': jnp.int32, 'bit': jnp.int32,
          'unif': jnp.float32, 'key': jnp.uint32}[k]


def trace(ob, fixed=None):
  """-> (goal names/kinds, tensors, assumption tensors)."""
  MODE.symbolic = True
  names = list(ob.dims)
  if fixed is not None:
    d = D(**{k: int(fixed[k]) for k in names})
    names = []
  elif names:
    cons = tuple('%s >= %d' % (k, v) for k, v in ob.dims.items() if v > 1)
    syms = export.symbolic_shape(', '.join(names), constraints=cons)
    d = D(**dict(zip(names, syms)))
  else:
    d = D()
  if fixed is None:
    for k, v in ob.dims.items():
      T.DIMS[k] = v
      T.dim(k, v)
  ins = ob.inputs(d)
  specs = [jax.ShapeDtypeStruct(x.shape, _np_dtype(x.kind))
           for x in ins.values()]
  rec = {}

  def f(*args):
    G = Goals()
    ob.body(G, d, D(**dict(zip(ins, args))))
    outs = []
    desc = []
    for name, kind, lhs, rhs in G.items:
      if kind in ('keys', 'fresh'):
        desc.append((name, kind, len(lhs)))
        outs += lhs
      else:
        desc.append((name, kind, 2))
        outs += [lhs, rhs]
    adesc = []
    for name, c in G.assumes:
      adesc.append(name)
      outs.append(c)
    rec['desc'], rec['adesc'], rec['meta'] = desc, adesc, G.meta
    return outs

  with stubs():
    cj = jax.make_jaxpr(f)(*specs)
  arrs = []
  for name, x in ins.items():
    shape = sym.shp(x.shape)
    lo = hi = None
    if x.lo is not None and x.kind == 'int':
      lo, hi = sym.dim2poly(x.lo), sym.dim2poly(x.hi)
      is01 = lo is T.ZERO and hi is T.ONE
    else:
      is01 = x.kind == 'bit'
    if x.kind == 'unif':
      lo, hi = T.ZERO, T.ONE
    a = T.Array('in_' + name, shape, lo, hi, x.kind == 'int' or is01, is01,
                pos=(x.kind == 'unif' or x.pos), distinct=x.distinct)
    arrs.append(sym.Tensor(shape, (lambda a: lambda idx: a.read(idx))(a)))
  outs = sym.interp_closed(cj, arrs)
  return rec, outs, cj


def prove(ob, prop=None, fixed=None, stop_first=False, only=None):
  """-> list of (goal, status, detail); status in proved/failed.

  prop: only the goals of that property; fixed: concrete sizes instead of
  symbolic ones (a bounded proof)."""
  T.EXTRA_NONNEG = P.z3_nonneg
  T.SIGMOID = ob.sigmoid
  MODE.prop = prop
  rec, outs, cj = trace(ob, fixed)
  k = 0
  goals = []
  for name, kind, cnt in rec['desc']:
    goals.append((name, kind, outs[k:k + cnt]))
    k += cnt
  assumes = outs[k:]
  for a in assumes:
    if a.ndim >= 1:
      vs = [T.fresh(s, 'q') for s in a.shape]
      T.add_rule(a.get(tuple(vs)), vs)
  res = []
  for name, kind, ts in goals:
    if (prop is not None and not name.startswith(prop + '.')) or (
        only is not None and name not in only):
      # build the terms all the same: hash-consing order decides the
      # orientation of normal forms, keep it the same for every property
      if kind not in ('keys', 'fresh') and ts[0].ndim:
        idx = tuple(T.fresh(s, 'g') for s in ts[0].shape)
        for t in ts:
          t.get(idx)
      continue
    if stop_first and any(r[1] != 'proved' for r in res):
      break
    t0 = time.time()
    if kind == 'keys':
      ks = [tuple(t.get(tuple(T.ZERO for _ in t.shape[:-1]) + (T.const(j),))
                  for j in (0, 1)) for t in ts]
      ok = len(set(ks)) == len(ks) and len(ks) > 0
      res.append((name, 'proved' if ok else 'failed',
                  'key terms %s' % (ks,), time.time() - t0))
      continue
    if kind == 'fresh':
      at = [t.get(tuple(T.ZERO for _ in t.shape)) for t in ts]
      deps = [set(T.all_atoms(a)) for a in at]
      ok = bool(deps[1]) and deps[1] <= deps[0]
      if not ok and len(at) == 4:
        base = deps[2]
        ok = (base <= deps[0] and base <= deps[3] and at[0] is not at[2] and
              at[3] is not at[2])
      res.append((name, 'proved' if ok else 'failed', 'keys %s' % [
          T.show(a, 300) for a in at], time.time() - t0))
      continue
    l, r = ts
    idx = tuple(T.fresh(s, 'g') for s in l.shape)

    def instance(idx):
      ass = []
      for a in assumes:
        if a.ndim <= len(idx) and all(x is y for x, y in zip(
            a.shape, l.shape)):
          ass.append(a.get(idx[:a.ndim]))
        elif a.ndim == 0:
          ass.append(a.get(()))
      return l.get(idx), r.get(idx), ass

    lt, rt, ass = instance(idx)
    pr = P.Prover(ob.deadline)
    if not idx:
      by = {}
      for a in assumes:
        if a.ndim:
          by.setdefault(a.shape[0], []).append(a)
      pr.univ = [(al[0].shape[:1], lambda vs, al=al: [
          a.get(tuple(vs)) for a in al if a.ndim == 1]) for al in by.values()]
    ok = pr.prove_eq(lt, rt, ass)
    small = [i for i, n in enumerate(l.shape) if T.is_const(n) and
             1 < T.const_val(n) <= 4]
    if not ok and small:
      # once more, every position along the short axes on its own
      ok = True
      for v in np.ndindex(*[int(T.const_val(l.shape[i])) for i in small]):
        at = list(idx)
        for i, c in zip(small, v):
          at[i] = T.const(c)
        lt, rt, ass = instance(tuple(at))
        pr = P.Prover(ob.deadline)
        if not pr.prove_eq(lt, rt, ass):
          ok = False
          break
    res.append((name, 'proved' if ok else 'failed',
                '' if ok else 'lhs-rhs = %s %s' % (
                    T.show(T.add(lt, T.neg(rt)), 3000), pr.why),
                time.time() - t0))
  return res, rec, cj


# --------------------------------------------------------------------------
# concrete execution
# --------------------------------------------------------------------------
def gen_input(x, rs):
  shape = tuple(int(s) for s in x.shape)
  if x.gen is not None:
    return x.gen(rs, shape)
  if x.kind == 'real':
    v = np.asarray(rs.randn(*shape))
    return (np.abs(v) + 0.1 if x.pos else v).astype(np.float32)
  if x.kind == 'int':
    return rs.randint(int(x.lo), int(x.hi) + 1, size=shape).astype(np.int32)
  if x.kind == 'bit':
    return rs.randint(0, 2, size=shape).astype(np.int32)
  if x.kind == 'unif':
    return rs.uniform(1e-6, 1.0, size=shape).astype(np.float32)
  if x.kind == 'key':
    return rs.randint(0, 2**31 - 1, size=shape).astype(np.uint32)
  raise ValueError(x.kind)


def run_concrete(ob, dims, seed, inputs=None, prop=None):
  """execute the obligation on the real code; -> (violations, inputs)."""
  MODE.symbolic = False
  MODE.seed = seed
  MODE.prop = prop
  d = D(**dims)
  rs = np.random.RandomState(seed)
  decl = ob.inputs(d)
  if inputs is None:
    inputs = {k: gen_input(x, rs) for k, x in decl.items()}
    if ob.repair is not None:
      inputs = ob.repair(inputs, rs, d)
  G = Goals()
  G.strict = ob.strict
  with stubs(), jax.disable_jit():
    ob.body(G, d, D(**{k: jnp.asarray(v) for k, v in inputs.items()}))
  for name, c in G.assumes:
    if not bool(np.all(np.asarray(c))):
      raise Infeasible(name)
  bad = []
  for name, kind, lhs, rhs in G.items:
    if prop is not None and not name.startswith(prop + '.'):
      continue
    if kind == 'shape':
      bad.append((name, 'code gives shape %s, contract requires %s' % (
          lhs, rhs), None))
      continue
    if kind == 'keys':
      ks = [tuple(np.asarray(a).reshape(-1).tolist()) for a in lhs]
      if len(set(ks)) != len(ks):
        bad.append((name, 'repeated key', ks))
      continue
    l = np.asarray(lhs, np.float64)
    r = np.asarray(rhs, np.float64)
    with np.errstate(all='ignore'):
      okm = np.isclose(l, r, rtol=ob.tol, atol=ob.tol) | (l == r) | (
          np.isnan(l) & np.isnan(r))
    if not np.all(okm):
      pos = tuple(int(v) for v in np.argwhere(~okm)[0])
      bad.append((name, 'at %s: code gives %r, contract requires %r' % (
          pos, l[pos].item(), r[pos].item()), None))
  return bad, inputs, G
