"""Graph encoding, deductively (C19): utils.graph2edges and the loaders'
graph2edges run on a graph with an arbitrary number of nodes and edges.

The loop over the edges is summarised by running its body once for an
arbitrary edge k: if that iteration writes exactly entry k of an array (or the
entry of the k-th node) and reads none, then after the loop the array holds
the written value at every such index and its old value elsewhere.  Anything
else is outside this contract's view (bounded contracts of graphs.py take
over)."""
import builtins
import importlib

import jax
import jax.numpy as jnp
import numpy as np

import harness as H
import loops
from common import *  # pylint: disable=wildcard-import
from graphs import set_sizes

U = 'discs/common/utils.py:'
GL = 'discs/graph_loader/'


def _no(what):
  raise ContractMismatch(what)


class Len:
  """the length of a symbolic collection."""

  def __init__(self, d):
    self.d = d

  def __index__(self):
    _no('symbolic length used as an index')

  def __bool__(self):
    return not isinstance(self.d, int) or self.d != 0

  def __mul__(self, o):
    if isinstance(o, list):
      return Rep([(o, self.d)])
    return Len(self.d * un(o))

  __rmul__ = __mul__

  def __add__(self, o):
    return Len(self.d + un(o))

  __radd__ = __add__

  def __sub__(self, o):
    return Len(self.d - un(o))

  def __rsub__(self, o):
    return Len(un(o) - self.d)

  def __jax_array__(self):
    return dimval(self.d) if not isinstance(self.d, int) else jnp.asarray(
        self.d)


for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
  def _cmp(self, o, _n='__%s__' % _n):
    a, b = self.d, un(o)
    if isinstance(b, jax.core.Tracer):
      _no('symbolic length compared with data')
    if isinstance(a, (int, float)) and not isinstance(b, (int, float)):
      a, b = b, a
      _n = {'__lt__': '__gt__', '__le__': '__ge__', '__gt__': '__lt__',
            '__ge__': '__le__'}.get(_n, _n)
    try:
      r = getattr(a, _n)(b)
    except Exception as e:  # pylint: disable=broad-except
      raise ContractMismatch('undecided comparison of lengths: %s' % e)
    return r
  setattr(Len, '__%s__' % _n, _cmp)
Len.__hash__ = None


def un(x):
  return x.d if isinstance(x, Len) else x


class Rep:
  """concatenation of repeated lists."""

  def __init__(self, parts):
    self.parts = parts

  def __add__(self, o):
    return Rep(self.parts + (o.parts if isinstance(o, Rep) else [(o, 1)]))

  def __radd__(self, o):
    return Rep([(o, 1)] + self.parts)

  def value(self, dtype=None):
    out = []
    for v, k in self.parts:
      if len(v) != 1 and k != 1:
        _no('repetition of a longer list')
      out.append(jnp.full((k,), v[0]) if len(v) == 1 else jnp.asarray(v))
    r = jnp.concatenate(out)
    return r if dtype is None else r.astype(dtype)


class Arr:
  """a numpy array being filled; writes inside a loop are logged."""

  def __init__(self, v, loop):
    self.v, self.loop = v, loop

  @property
  def shape(self):
    return self.v.shape

  def get(self):
    if self.loop.open:
      _no('array read inside the loop')
    return self.v

  def __jax_array__(self):
    return self.get()

  def __setitem__(self, i, x):
    if not self.loop.open:
      if isinstance(i, (int, slice)):
        _no('direct array write')
      self.v = self.v.at[i].set(x)
      return
    self.loop.write(self, i, x)

  def __add__(self, o):
    return Arr(self.get() + (o.get() if isinstance(o, Arr) else o), self.loop)

  __radd__ = __add__

  def __mul__(self, o):
    return Arr(self.get() * (o.get() if isinstance(o, Arr) else o), self.loop)

  __rmul__ = __mul__

  def astype(self, t):
    return Arr(self.get().astype(t), self.loop)

  def __len__(self):
    _no('len of a symbolic array')

  def __getitem__(self, i):
    return self.get()[i]


class Loop:
  """state of the run: at most one loop at a time."""

  def __init__(self):
    self.open = False
    self.log = []

  def write(self, arr, i, x):
    if not any(i is k for k in self.keys):
      _no('array written at another index than the current one')
    if any(a is arr for a, _, _ in self.log):
      _no('array written twice in one iteration')
    self.log.append((arr, i, x))


class Each:
  """iteration over a symbolic collection: one arbitrary element.
  columns: [(per-element values, ...)] ; elem(k) -> what the loop variable
  gets; cols: {id of a handed-out value: whole column}."""

  def __init__(self, loop, count, make, counter=False):
    self.loop, self.count, self.make = loop, count, make
    self.counter = counter
    self.n = 0

  def __iter__(self):
    return self

  def __next__(self):
    L = self.loop
    if self.n == 0:
      self.n = 1
      if L.open:
        _no('nested loops')
      elem, keys, cols = self.make()
      L.open, L.log, L.keys, L.cols = True, [], keys, cols
      return elem
    L.open = False
    n = self.count
    for arr, _, x in L.log:
      if isinstance(x, (int, float)):
        col = jnp.full((n,), x)
      else:
        col = [c for v, c in L.cols if v is x]
        if not col:
          _no('a computed value is stored')
        col = col[0]
      size = arr.v.shape[0]
      idx = jnp.arange(size)
      safe = jnp.minimum(idx, n - 1)
      arr.v = jnp.where(idx < n, col[safe].astype(arr.v.dtype), arr.v)
    raise StopIteration


class EdgeView:

  def __init__(self, g, data=False):
    self.g, self.data = g, data

  def __call__(self, data=False):
    if data not in (False, True, 'weight'):
      _no('edge data')
    return EdgeView(self.g, data)

  def element(self):
    g = self.g
    a, b, w = g.ef[g.k], g.et[g.k], g.w[g.k]
    cols = [(a, g.ef), (b, g.et), (w, g.w)]
    if self.data is True:
      e = (a, b, {'weight': w})
    elif self.data:
      e = (a, b, w)
    else:
      e = (a, b)
    return e, cols

  def __iter__(self):
    def make():
      e, cols = self.element()
      return e, [], cols
    return Each(self.g.loop, self.g.E, make)

  def enumerate(self):
    def make():
      e, cols = self.element()
      return (self.g.k, e), [self.g.k], cols + [(self.g.k, jnp.arange(
          self.g.E))]
    return Each(self.g.loop, self.g.E, make)


class DegreeView:

  def __init__(self, g):
    self.g = g

  def __call__(self):
    return self

  def __iter__(self):
    def make():
      g = self.g
      d = g.deg[g.v]
      return (g.v, d), [g.v], [(d, g.deg), (g.v, jnp.arange(g.N))]
    return Each(self.g.loop, self.g.N, make)


class Graph:
  """arbitrary graph with nodes 0..N-1."""

  def __init__(self, N, E, I, loop):
    self.N, self.E, self.loop = N, E, loop
    self.ef, self.et, self.w, self.deg = I.ef, I.et, I.w, I.deg
    self.k, self.v = I.k, I.v
    self.edges = EdgeView(self)
    self.degree = DegreeView(self)

  def number_of_edges(self):
    return Len(self.E)

  def number_of_nodes(self):
    return Len(self.N)


class _Np:

  def __init__(self, loop, base):
    self.loop, self.base = loop, base

  def __getattr__(self, n):
    return getattr(self.base, n)

  def _dims(self, shape):
    return tuple(un(s) for s in shape) if isinstance(
        shape, (tuple, list)) else (un(shape),)

  def _make(self, v):
    return Arr(v, self.loop) if self.base is np else v

  def zeros(self, shape, dtype=np.float64):
    return self._make(jnp.zeros(self._dims(shape), jnp.dtype(dtype)))

  def ones(self, shape, dtype=np.float64):
    return self._make(jnp.ones(self._dims(shape), jnp.dtype(dtype)))

  def full(self, shape, x, dtype=None):
    return self._make(jnp.full(self._dims(shape), x, dtype))

  def arange(self, *a, **k):
    return jnp.arange(*[un(x) for x in a], **k)

  def array(self, v, dtype=None):
    if isinstance(v, Rep):
      r = v.value(dtype)
    elif isinstance(v, Arr):
      r = v.get()
    elif isinstance(v, (list, tuple)) and any(isinstance(x, Len) for x in v):
      r = jnp.stack([jnp.asarray(dimval(un(x))) for x in v])
    elif isinstance(v, Len):
      r = dimval(un(v))
    else:
      return self.base.array(v, dtype)
    return r if dtype is None else r.astype(dtype)

  asarray = array

  def concatenate(self, vs, *a, **k):
    return jnp.concatenate([self.array(v) for v in vs], *a, **k)


class run:
  """the real functions with symbolic lengths."""

  def __init__(self, loop, mods):
    self.loop, self.mods = loop, mods
    self.cm = []

  def __enter__(self):
    real_len, real_enum = builtins.len, builtins.enumerate

    def length(x):
      if isinstance(x, Graph):
        return Len(x.N)
      if isinstance(x, EdgeView):
        return Len(x.g.E)
      if isinstance(x, Arr):
        return Len(x.shape[0])
      return real_len(x)

    def enum(x, *a):
      if isinstance(x, EdgeView):
        return x.enumerate() if not a else _no('enumerate offset')
      return real_enum(x, *a)

    for m in self.mods:
      at = dict(len=length, enumerate=enum, max=_max, int=_int)
      for n, base in (('np', np), ('jnp', jnp)):
        if hasattr(m, n):
          at[n] = _Np(self.loop, base)
      c = loops.patched(m, **at)
      c.__enter__()
      self.cm.append(c)

  def __exit__(self, *a):
    for c in reversed(self.cm):
      c.__exit__(None, None, None)


def _max(*a, **k):
  if len(a) == 2 and not k:
    return a[0] if a[0] >= a[1] else a[1]
  return builtins.max(*a, **k)


def _int(x=0, *a):
  return x if isinstance(x, Len) else builtins.int(x, *a)


def inputs(d):
  return dict(ef=integer(0, d.N - 1, d.E), et=integer(0, d.N - 1, d.E),
              w=real(d.E), deg=integer(0, d.N - 1, d.N), pw=real(),
              k=integer(0, d.E - 1), v=integer(0, d.N - 1))


def goals(G, d, I, p, L, weights, bidir, pw):
  g = lambda n: 'C19.' + n
  j = jnp.arange(L)
  on = j < d.E
  s = jnp.minimum(j, d.E - 1)

  def col(c, dflt):
    return jnp.where(on, c[s], dflt)

  G.eq(g('number of edges'), jnp.reshape(jnp.asarray(p['num_edges']), (-1,))[
      0], dimval(d.E))
  G.eq(g('one entry per edge, in one order (source)'), p['edge_from'],
       col(I.ef, 0))
  G.eq(g('one entry per edge, in one order (target)'), p['edge_to'],
       col(I.et, 0))
  G.eq(g('the mask marks exactly the edges'), p['edge_mask'],
       on.astype(jnp.int32))
  if weights:
    G.eq(g('every edge carries its own weight, padding the padding weight'),
         p['edge_weight'], col(I.w, pw))
  if bidir:
    cat = lambda a, b: jnp.concatenate([a, b])
    G.eq(g('both directions of every edge (source)'), p['bidir_edge_from'],
         cat(col(I.ef, 0), col(I.et, 0)))
    G.eq(g('both directions of every edge (target)'), p['bidir_edge_to'],
         cat(col(I.et, 0), col(I.ef, 0)))
    if weights:
      G.eq(g('both directions carry the weight of the edge'), p[
          'bidir_edge_weight'], cat(col(I.w, pw), col(I.w, pw)))


def ob_utils(pad, weights, bidir):
  """pad: None (no padding asked for), 'more', 'less'."""

  def body(G, d, I):
    if not H.MODE.symbolic:
      raise H.Infeasible('see the enumerated graphs')
    from discs.common import utils  # pylint: disable=import-outside-toplevel
    loop = Loop()
    gr = Graph(d.N, d.E, I, loop)
    L = d.E + d.p if pad == 'more' else d.E
    kw = {}
    if pad == 'more':
      kw['padded_num_edges'] = Len(d.E + d.p)
    elif pad == 'less':
      kw['padded_num_edges'] = Len(d.E)
    if weights:
      kw['padded_weight'] = I.pw
    with run(loop, [utils]):
      p = utils.graph2edges(gr, build_bidir_edges=bidir,
                            has_edge_weights=weights, **kw)
    G.true('C19.no weights are made up', weights or not any(
        'weight' in q for q in p))
    goals(G, d, I, p, L, weights, bidir, I.pw)

  return Obligation('graph2edges/proof/%s%s%s' % (
      pad or 'exact', '/weights' if weights else '', '/bidir' if bidir else ''),
                    dict(N=1, E=1, p=1), inputs, body, under=[
                        U + 'graph2edges'], props=('C19',), concrete_dims=[])


def ob_loader(fam):
  cls = {'maxcut': ('maxcut_loader', 'MaxcutGen'),
         'mis': ('mis_loader', 'MISGen'),
         'maxclique': ('maxclique_loader', 'MaxCliqueGen'),
         'normcut': ('normcut_loader', 'NormCutGen')}[fam]

  def body(G, d, I):
    if not H.MODE.symbolic:
      raise H.Infeasible('see the enumerated graphs')
    from discs.common import utils  # pylint: disable=import-outside-toplevel
    mod = importlib.import_module('discs.graph_loader.' + cls[0])

    class Gen(getattr(mod, cls[1])):

      def sample_gen(self, phase, repeat=False):
        return iter(())

    o = Gen()
    loop = Loop()
    gr = Graph(d.N, d.E, I, loop)
    set_sizes(o, Len(d.N + d.q), Len(d.E + d.p))
    with run(loop, [utils, mod]):
      p = o.graph2edges(gr)
    goals(G, d, I, p, d.E + d.p, fam == 'maxcut', True, 0.0)
    node = jnp.arange(d.N + d.q)
    if fam != 'maxcut':
      nn = p['num_nodes']
      G.eq('C19.number of nodes', dimval(un(nn)), dimval(d.N))
      G.eq('C19.the mask marks exactly the nodes of the graph', jnp.asarray(
          p['mask']).astype(jnp.int32), (node < d.N).astype(jnp.int32))
    if fam == 'normcut':
      dg = p['node_degrees']
      G.eq('C19.node degrees are those of the graph', dg.get() if isinstance(
          dg, Arr) else dg, jnp.where(node < d.N, I.deg[jnp.minimum(
              node, d.N - 1)], 0).astype(jnp.float32))

  return Obligation('encode/proof/' + fam, dict(N=1, E=1, p=1, q=1), inputs,
                    body, under=[GL + '%s.py:%s.graph2edges' % cls,
                                 U + 'graph2edges'], props=('C19',),
                    concrete_dims=[])


def obligations(tier='quick'):
  out = [ob_utils(p, w, b) for p in (None, 'more', 'less')
         for w in (True, False) for b in (True, False)]
  return out + [ob_loader(f) for f in ('maxcut', 'mis', 'maxclique',
                                       'normcut')]
