"""Energies (C09), value and gradient (C10), combinatorial objectives (C11),
neighbourhood log-ratios (C12) of the models."""
import importlib

import jax
import jax.numpy as jnp
import numpy as np
from ml_collections import config_dict

import harness as H
from common import *  # pylint: disable=wildcard-import

MF = 'discs/models/'
MARK = (101, 103, 107, 109, 113)


def _swap(v, sub):
  if isinstance(v, bool):
    return v
  if isinstance(v, int) and v in sub:
    return sub[v]
  if isinstance(v, tuple) and any(isinstance(x, int) and x in sub for x in v):
    return tuple(_swap(x, sub) for x in v)
  return v


class _NoData:
  """stands in for the graph files of a combinatorial model."""

  def __init__(self, n, e):
    self.max_num_nodes, self.max_num_edges, self.num_instances = n, e, 0

  def get_iterator(self, *a, **k):
    return iter(())


def _swap_module(v, sub):
  new = {}
  for k in v.__dataclass_fields__:
    if k in ('parent', 'name'):
      continue
    a = getattr(v, k)
    w = _swap(a, sub)
    if w is not a:
      new[k] = w
  return v.clone(**new) if new else v


def build_model(name, sizes, make, derived=None, nodes=None):
  """the model as the repository builds it.  Symbolic sizes: it is built with
  marker sizes, and the stored sizes are replaced by the symbolic ones."""
  mod = importlib.import_module('discs.models.' + name)
  sub = {}
  conc = []
  for i, s in enumerate(sizes):
    if isinstance(s, (int, np.integer)):
      conc.append(int(s))
    else:
      conc.append(MARK[i])
      sub[MARK[i]] = s
  conf = config_dict.ConfigDict(dict(model=make(*conc)))
  if nodes is None:
    m = mod.build_model(conf)
  else:
    from discs.graph_loader import graph_gen  # pylint: disable=import-outside-toplevel
    old = graph_gen.get_graphs
    graph_gen.get_graphs = lambda c: _NoData(conc[nodes[0]], conc[nodes[1]])
    try:
      m = mod.build_model(conf)
    finally:
      graph_gen.get_graphs = old
  if sub:
    fl = {}
    if derived is not None:
      fl = dict(zip(derived(*conc), derived(*[
          s if isinstance(s, (int, np.integer)) else dimval(s)
          for s in sizes])))
    for k, v in list(vars(m).items()):
      if isinstance(v, float) and v in fl:
        setattr(m, k, fl[v])
        continue
      if hasattr(v, 'clone') and hasattr(v, '__dataclass_fields__'):
        w = _swap_module(v, sub)
      else:
        w = _swap(v, sub)
      if w is not v:
        setattr(m, k, w)
  return m


def onehot(x, C):
  return (x[..., None] == jnp.arange(C)).astype(jnp.float32)


class Energy:
  """one model family: `make(*sizes)` config, `params(d)` declarations,
  `spec(P, x)` log-density of a float (one-hot for categorical) state."""

  def __init__(self, name, module, dims, shape, C, make, params, spec, conc,
               consts=None, grad=True, deadline=60, pack=None, under=(),
               ints=True, gspec=None):
    self.__dict__.update(locals())

  def sizes(self, d):
    return [getattr(d, s) if isinstance(s, str) else s
            for s in self.shape] + ([] if self.C == 2 else [self.cat(d)])

  def cat(self, d):
    return getattr(d, self.C) if isinstance(self.C, str) else self.C

  def inputs(self, d):
    sh = tuple(self.sizes(d)[:len(self.shape)])
    C = self.cat(d)
    ins = dict(x=bit(d.b, *sh) if C == 2 else integer(0, C - 1, d.b, *sh))
    ins.update(self.params(d))
    ins['z'] = real(d.b, *sh) if self.C == 2 else real(d.b, *(sh + (C,)))
    return ins

  def model(self, d):
    m = build_model(self.module, self.sizes(d), self.make)
    return m

  def body(self, G, d, I):
    m = self.model(d)
    C = self.cat(d)
    P = {k: getattr(I, k) for k in self.params(d)}
    params = self.pack(P) if self.pack else P
    xf = I.x.astype(jnp.float32) if C == 2 else onehot(I.x, C)
    want = self.spec(P, xf, d)
    if H.MODE.wants('C09'):
      got = m.forward(params, I.x)
      G.eq('C09.energy of an integer state', got, want)
      G.eq('C09.energy of a float/one-hot state', m.forward(params, xf), want)
      G.eq('C09.shape', jnp.zeros(got.shape), jnp.zeros(I.x.shape[:1]))
    if self.grad and H.MODE.wants('C10'):
      v, g = m.get_value_and_grad(params, xf)
      G.eq('C10.value is the energy', v, want)
      ref = (lambda t: m.forward(params, t)) if self.grad == 'forward' else (
          lambda t: self.spec(P, t, d))
      gw = jax.grad(lambda t: jnp.sum(ref(t)))(xf)
      G.eq('C10.gradient of the energy, per chain', g, gw)
      if C == 2:
        vi, gi = m.get_value_and_grad(params, I.x)
        G.eq('C10.value for an integer state', vi, want)
        G.eq('C10.gradient for an integer state', gi, gw)
      if not H.MODE.symbolic:
        e = 1e-2
        ones = jnp.zeros_like(xf).reshape((xf.shape[0], -1))
        k = H.MODE.seed % ones.shape[1]
        step = ones.at[:, k].set(e).reshape(xf.shape)
        num_ = (m.forward(params, xf + step) - m.forward(params, xf - step)
                ) / (2 * e)
        G.true('C10.gradient matches finite differences', jnp.abs(
            g.reshape(ones.shape)[:, k] - num_) < 2e-2 * (1 + jnp.abs(num_)))

  def obligation(self):
    f = MF + self.module + '.py:'
    return Obligation('energy/' + self.name, self.dims, self.inputs, self.body,
                      under=[f + u for u in self.under], strict=True, props=('C09', 'C10')
                      if self.grad else ('C09',), concrete_dims=self.conc,
                      sigmoid=self.module == 'rbm',
                      deadline=self.deadline)


CD1 = [dict(b=3, n=4), dict(b=1, n=1), dict(b=2, n=5)]
CD2 = [dict(b=2, h=3, w_=4), dict(b=3, h=2, w_=2), dict(b=1, h=4, w_=3)]
FG = ('forward', 'get_value_and_grad')


def _lattice(P, s, w_of):
  """sum over horizontal and vertical neighbour pairs, each once."""
  return 0


def bernoulli(rank):
  sh = ('n',) if rank == 1 else ('h', 'w_')
  dims = dict(b=1, n=1) if rank == 1 else dict(b=1, h=1, w_=1)
  return Energy(
      'bernoulli/%dd' % rank, 'bernoulli', dims, sh, 2,
      lambda *s: dict(shape=tuple(s), init_sigma=1.0, num_categories=2),
      lambda d: dict(p=real(*[getattr(d, k) for k in sh])),
      lambda P, x, d: rowsum(x * P['p'][None]),
      CD1 if rank == 1 else CD2, pack=lambda P: {'params': P['p']},
      under=['Bernoulli.' + f for f in FG])


def categorical(rank):
  sh = ('n',) if rank == 1 else ('h', 'w_')
  dims = dict(b=1, n=1) if rank == 1 else dict(b=1, h=1, w_=1)
  dims['C'] = 3
  return Energy(
      'categorical/%dd' % rank, 'categorical', dims, sh, 'C',
      lambda *s: dict(shape=tuple(s[:-1]), init_sigma=1.0,
                      num_categories=s[-1]),
      lambda d: dict(p=real(*[getattr(d, k) for k in sh] + [d.C])),
      lambda P, x, d: rowsum(x * P['p'][None]),
      [dict(c, C=3 + i) for i, c in enumerate(CD1 if rank == 1 else CD2)],
      pack=lambda P: {'params': P['p']},
      under=['Categorical.' + f for f in FG])


def ising():
  def spec(P, x, d):
    p = P['p']
    s = 2 * x - 1
    e = rowsum(s * p[2][None])
    e = e + rowsum(s[:, :-1, :] * s[:, 1:, :] * p[1][None, :-1, :])
    e = e + rowsum(s[:, :, :-1] * s[:, :, 1:] * p[0][None, :, :-1])
    return -e

  return Energy(
      'ising', 'ising', dict(b=1, h=2, w_=2), ('h', 'w_'), 2,
      lambda *s: dict(shape=tuple(s), init_sigma=1.0, num_categories=2,
                      lambdaa=0.4, mu=0.3),
      lambda d: dict(p=real(3, d.h, d.w_)), spec, CD2,
      pack=lambda P: {'params': P['p']}, under=['Ising.' + f for f in FG])


def potts():
  def spec(P, x, d):
    p = P['p']
    e = rowsum(x * p[2][None])
    e = e + rowsum(x[:, :-1] * x[:, 1:] * p[1][None, :-1])
    e = e + rowsum(x[:, :, :-1] * x[:, :, 1:] * p[0][None, :, :-1])
    return -e

  return Energy(
      'potts', 'potts', dict(b=1, h=2, w_=2, C=3), ('h', 'w_'), 'C',
      lambda *s: dict(shape=tuple(s[:-1]), init_sigma=1.0,
                      num_categories=s[-1], lambdaa=0.4, mu=0.3),
      lambda d: dict(p=real(3, d.h, d.w_, d.C)), spec,
      [dict(c, C=3) for c in CD2],
      pack=lambda P: {'params': P['p']}, under=['Potts.' + f for f in FG])


class FHMM(Energy):
  """sigma, alpha, beta are arbitrary reals handed to the constructor."""

  def inputs(self, d):
    ins = super().inputs(d)
    pos = lambda rs, s: np.float32(0.3 + rs.rand())
    unit = lambda rs, s: np.float32(0.05 + 0.9 * rs.rand())
    ins.update(sigma=real(gen=pos, pos=True), alpha=real(gen=unit, pos=True),
               beta=real(gen=unit, pos=True))
    return ins

  def body(self, G, d, I):
    self.I = I
    G.assume('alpha < 1', I.alpha < 1)
    G.assume('beta < 1', I.beta < 1)
    super().body(G, d, I)

  def model(self, d):
    I = self.I
    return build_model('fhmm', self.sizes(d), lambda *s: dict(
        shape=tuple(s[:2]), num_categories=s[2] if len(s) > 2 else 2,
        sigma=I.sigma, alpha=I.alpha, beta=I.beta))


def fhmm_binary():
  def spec(P, x, d):
    I = ob.I
    mu = jnp.sum(x * P['w'][None, None, :, 0], -1) + P['b'][0, 0]
    e = -rowsum((P['y'][None, :, 0] - mu) ** 2) / (2 * I.sigma ** 2)
    x0 = x[:, 0, :]
    e = e + rowsum(x0 * jnp.log(I.alpha) + (1 - x0) * jnp.log(1 - I.alpha))
    a, c = x[:, :-1], x[:, 1:]
    sw = a * (1 - c) + (1 - a) * c  # 1 when the hidden state switches
    e = e + rowsum(sw * jnp.log(1 - I.beta) + (1 - sw) * jnp.log(I.beta))
    return e

  ob = FHMM('fhmm/binary', 'fhmm', dict(b=1, l=2, k=1), ('l', 'k'), 2, None,
            lambda d: dict(w=real(d.k, 1), b=real(1, 1), y=real(d.l, 1)), spec,
            [dict(b=3, l=3, k=2), dict(b=1, l=2, k=1), dict(b=2, l=4, k=3)],
            under=['BinaryFHMM.forward', 'FHMM.get_value_and_grad',
                   'BinaryFHMM.log_probab_of_px', 'FHMM.__init__'])
  return ob


def fhmm_categ(C):
  def spec(P, x, d):
    I = ob.I
    mu = jnp.sum(jnp.sum(x * P['w'][None, None], -1), -1) + P['b'][0, 0]
    e = -rowsum((P['y'] - mu) ** 2) / (2 * I.sigma ** 2)
    e = e + rowsum(x[:, 0] * P['alpha'])
    a, c = x[:, :-1], x[:, 1:]
    for i in range(C):
      for j in range(C):
        e = e + rowsum(a[..., i] * c[..., j]) * (
            jnp.log(I.beta) if i == j else jnp.log((1 - I.beta) / (C - 1)))
    return e

  ob = FHMM('fhmm/categorical/%d' % C, 'fhmm', dict(b=1, l=2, k=1), ('l', 'k'),
            C, None, lambda d: dict(
                w=real(d.k, C), b=real(1, 1), y=real(1, d.l), alpha=real(C)),
            spec, [dict(b=3, l=3, k=2), dict(b=1, l=2, k=1),
                   dict(b=2 * C, l=4, k=C)], grad='forward',
            under=['CategFHMM.forward', 'CategFHMM.log_probab_of_px_categ',
                   'CategFHMM.__init__', 'FHMM.__init__'])
  return ob


def rbm_binary():
  def spec(P, x, d):
    a = jnp.sum(x[:, :, None] * P['w'][None], 1) + P['b_h'][None]
    return rowsum(x * P['b_v'][None]) + rowsum(jnp.log(1 + jnp.exp(a)))

  e = Energy('rbm/binary', 'rbm', dict(b=1, n=1, m=1), ('n',), 2,
             lambda v, h: dict(num_visible=v, num_hidden=h, num_categories=2,
                               shape=(v,)),
             lambda d: dict(w=real(d.n, d.m), b_h=real(d.m), b_v=real(d.n)),
             spec, [dict(b=3, n=4, m=2), dict(b=1, n=1, m=3)],
             under=['RBM.forward', 'RBM.get_value_and_grad',
                    'NNBinary.__call__'])
  e.sizes = lambda d: [d.n, d.m]
  return e


def rbm_categ():
  def spec(P, x, d):
    a = jnp.sum(jnp.sum(x[:, None] * P['w'][None], -1), -1) + P['b_h'][None]
    return rowsum(x * P['b_v'][None]) + rowsum(jnp.log(1 + jnp.exp(a)))

  e = Energy('rbm/categorical', 'rbm', dict(b=1, n=1, m=1, C=3), ('n',), 'C',
             lambda v, h, c: dict(num_visible=v, num_hidden=h,
                                  num_categories=c, shape=(v,)),
             lambda d: dict(w=real(d.m, d.n, d.C), b_h=real(d.m),
                            b_v=real(d.n, d.C)),
             spec, [dict(b=3, n=4, m=2, C=3), dict(b=1, n=1, m=3, C=4)],
             under=['RBM.forward', 'RBM.get_value_and_grad',
                    'NNCategorical.__call__'])
  e.sizes = lambda d: [d.n, d.m, d.C]
  return e


# ------------------------------------------------- combinatorial (C11, C12)
def edges(d, weights=False):
  r = dict(ef=integer(0, d.n - 1, d.e), et=integer(0, d.n - 1, d.e),
           em=bit(d.e), mask=bit(d.n), T=real(pos=True, gen=lambda rs, s:
                                              np.float32(0.5 + rs.rand())))
  if weights:
    r['w'] = real(d.e)
  return r


def graph(I, n, weights=False):
  """parameters as the loaders produce them: padded edges are (0, 0), masked
  out, with weight 0."""
  ef, et = I.ef * I.em, I.et * I.em
  P = dict(edge_from=ef, edge_to=et, edge_mask=I.em, temperature=I.T,
           bidir_edge_from=jnp.concatenate((ef, et)),
           bidir_edge_to=jnp.concatenate((et, ef)),
           num_edges=jnp.sum(I.em, keepdims=True),
           num_nodes=jnp.sum(I.mask), mask=I.mask > 0)
  if weights:
    w = I.w * I.em
    P.update(edge_weight=w, bidir_edge_weight=jnp.concatenate((w, w)))
  return P


def _loaded(ins, rs, d):
  """concrete inputs are simple graphs, encoded as the loaders do it: real
  nodes and edges first, then padding."""
  n, e = int(d.n), int(d.e)
  nr = n if rs.rand() < .4 else rs.randint(2, n + 1)
  pairs = [(a, b) for a in range(nr) for b in range(a)]
  rs.shuffle(pairs)
  er = min(len(pairs), e if rs.rand() < .4 else rs.randint(0, e + 1))
  ef, et = np.zeros(e, np.int64), np.ones(e, np.int64)
  for k, (a, b) in enumerate(pairs[:er]):
    ef[k], et[k] = (a, b) if rs.rand() < .5 else (b, a)
  for k, v in (('ef', ef), ('et', et), ('em', np.arange(e) < er),
               ('mask', np.arange(n) < nr)):
    ins[k] = v.astype(np.asarray(ins[k]).dtype)
  if 'deg' in ins:
    deg = np.bincount(np.concatenate((ef[:er], et[:er])), minlength=n)
    ins['deg'] = deg.astype(np.asarray(ins['deg']).dtype)
  return ins


class CO:
  def __init__(self, name, module, pen, spec, weights=False, ratio=False,
               under=(), dims=None, conc=None, masked=True):
    self.__dict__.update(locals())
    self.dims = dims or dict(b=1, n=2, e=1)
    self.conc = conc or [dict(b=3, n=4, e=5), dict(b=2, n=2, e=1),
                         dict(b=1, n=5, e=9)]

  def inputs(self, d):
    ins = edges(d, self.weights)
    ins['x'] = bit(d.b, d.n)
    ins['i'] = integer(0, d.n - 1, d.b)
    if self.pen:
      ins['pen'] = real(pos=True)
    return ins

  def body(self, G, d, I):
    m = build_model(self.module, [d.n, d.e], lambda n, e: dict(
        name=self.module, max_num_nodes=n, max_num_edges=e, num_models=1,
        num_instances=1, graph_type='er', data_root='', num_categories=2,
        shape=(0,), **(dict(penalty=I.pen) if self.pen else {})),
                    nodes=(0, 1))
    if self.masked:
      # real edges join real nodes (any edge list of that kind arises)
      I.em = I.em * I.mask[I.ef] * I.mask[I.et]
    P = graph(I, d.n, self.weights)
    G.assume('no self loops', I.ef != I.et)
    x = I.x
    if self.masked:
      mk = I.mask[None]
    else:
      mk = 1
    want = self.spec(I, (x * mk).astype(jnp.float32))
    if H.MODE.wants('C11'):
      G.eq('C11.log-density = objective / temperature', m.forward(P, x),
           want / I.T)
      G.eq('C11.reported objective does not depend on the temperature',
           m.evaluate(P, x), want)
      if self.masked:
        y = jnp.where(I.mask[None] > 0, x, 1 - x)
        G.eq('C11.padded nodes do not count', m.evaluate(P, y),
             m.evaluate(P, x))
    if H.MODE.wants('C10'):
      xf = x.astype(jnp.float32)
      v, g = m.get_value_and_grad(P, x)
      G.eq('C10.value is the energy', v, want / I.T)
      gw = jax.grad(lambda t: jnp.sum(self.spec(I, t * mk) / I.T))(xf)
      G.eq('C10.gradient of the energy, per chain', g, gw)
    if self.ratio and H.MODE.wants('C12'):
      out = m.logratio_in_neighborhood(P, x)
      ll, lr, calls, nb = out
      hit = jnp.arange(x.shape[1])[None] == I.i[:, None]
      y = jnp.where(hit, 1 - x, x)
      G.eq('C12.value is the log-density', ll, want / I.T)
      if self.masked:
        on = take(jnp.broadcast_to(I.mask[None], x.shape), I.i)
        G.eq('C12.log-ratio of flipping a node', jnp.where(on > 0, take(
            lr, I.i), 0.), jnp.where(on > 0, (self.spec(I, (
                y * mk).astype(jnp.float32)) - want) / I.T, 0.))
        G.true('C12.padded nodes are never attractive', (on > 0) | (
            take(lr, I.i) < -1e8))
      else:
        G.eq('C12.log-ratio of flipping a node', take(lr, I.i),
             (self.spec(I, y.astype(jnp.float32)) - want) / I.T)
      G.eq('C12.neighbour is the state with that node flipped',
           nb(P, x, I.i), y)

  def obligation(self):
    f = MF + self.module + '.py:'
    ps = ('C10', 'C11') + (('C12',) if self.ratio else ())
    return Obligation('co/' + self.name, self.dims, self.inputs, self.body,
                      under=[f + u for u in self.under] + [
                          MF + 'comb_ebm.py:CombEBM.' + u for u in (
                              'forward', 'evaluate', 'get_value_and_grad')],
                      strict=True, props=ps, concrete_dims=self.conc, repair=_loaded,
                      deadline=120)


def gat(x, idx):
  return x[:, idx]


def maxcut():
  def spec(I, x):
    f, t = gat(x, I.ef * I.em), gat(x, I.et * I.em)
    cut = f * (1 - t) + (1 - f) * t  # 1 when the ends differ
    return jnp.sum((I.w * I.em)[None] * cut, -1)

  return CO('maxcut', 'maxcut', False, spec, weights=True, ratio=True,
            masked=False, under=['Maxcut.objective',
                                 'Maxcut.logratio_in_neighborhood'])


def mis():
  def spec(I, x):
    f, t = gat(x, I.ef * I.em), gat(x, I.et * I.em)
    return jnp.sum(x, -1) - I.pen * jnp.sum(f * t * I.em[None], -1)

  return CO('mis', 'mis', True, spec, ratio=True,
            under=['MIS.objective', 'MIS.penalty',
                   'MIS.logratio_in_neighborhood'])


def maxclique():
  def spec(I, x):
    f, t = gat(x, I.ef * I.em), gat(x, I.et * I.em)
    k = jnp.sum(x, -1)
    return k - I.pen * (k * (k - 1) / 2 - jnp.sum(f * t * I.em[None], -1))

  return CO('maxclique', 'maxclique', True, spec,
            under=['MaxClique.objective', 'MaxClique.penalty'])


EPS = 1e-8


class NormCut:
  """penalty == 0: normalized cut; penalty > 0: cut plus balance cost."""

  def __init__(self, name, penalty, stype='quad', tol=0.25):
    self.__dict__.update(locals())

  def inputs(self, d):
    ins = edges(d)
    ins.update(x=integer(0, d.C - 1, d.b, d.n), i=integer(0, d.n - 1, d.b),
               c=integer(0, d.C - 1, d.b), deg=real(d.n, pos=True))
    return ins

  def spec(self, I, d, x):
    """x one-hot (chains, nodes, categories)."""
    f, t = x[:, I.ef * I.em], x[:, I.et * I.em]
    cut = jnp.sum((f + t - 2 * f * t) * I.em[None, :, None], 1)
    if not self.penalty:
      vol = jnp.sum(x * I.deg[None, :, None], 1)
      return -jnp.sum((cut + EPS) / (vol + EPS ** 2), -1)
    k = jnp.sum(x, 1)
    avg = dimval(d.n) / dimval(d.C)
    if self.stype == 'quad':
      bal = jnp.sum((k - avg) ** 2, -1)
    else:
      w = dimval(d.n) * self.tol
      over = jnp.maximum(k - avg - w, 0.)
      under = jnp.maximum(avg - w - k, 0.)
      bal = jnp.sum(over * over + under * under, -1)
    return -(jnp.sum(cut, -1) + self.penalty * bal)

  def body(self, G, d, I):
    m = build_model('normcut', [d.n, d.e, d.C], lambda n, e, c: dict(
        name='normcut', graph_type='nets', data_root='', num_models=1,
        num_instances=1, penalty=self.penalty, tolerance=self.tol,
        stype=self.stype, max_num_nodes=n, max_num_edges=e, num_categories=c,
        shape=(n,)), nodes=(0, 1),
        derived=lambda n, e, c: [n / c, n * self.tol])
    I.em = I.em * I.mask[I.ef] * I.mask[I.et]
    P = graph(I, d.n)
    P['node_degrees'] = I.deg
    G.assume('no self loops', I.ef != I.et)
    xo = onehot(I.x, d.C)
    want = self.spec(I, d, xo)
    if H.MODE.wants('C11'):
      G.eq('C11.log-density = objective / temperature', m.forward(P, I.x),
           want / I.T)
      G.eq('C11.log-density of a one-hot state', m.forward(P, xo), want / I.T)
      G.eq('C11.reported objective does not depend on the temperature',
           m.evaluate(P, I.x), want)
    if H.MODE.wants('C10'):
      v, g = m.get_value_and_grad(P, xo)
      G.eq('C10.value is the energy', v, want / I.T)
      # the extension to non-binary values is the code's own (per edge
      # 2(f+t)-(f+t)^2), which agrees with the cut indicator on one-hot states
      ref = self.relaxed(I, d)
      gw = jax.grad(lambda t: jnp.sum(ref(t) / I.T))(xo)
      G.eq('C10.gradient of the energy, per chain', g, gw)
    if H.MODE.wants('C12'):
      ll, lr, calls, _ = m.logratio_in_neighborhood(P, I.x)
      hit = jnp.arange(I.x.shape[1])[None] == I.i[:, None]
      y = jnp.where(hit, I.c[:, None], I.x)
      G.eq('C12.value is the log-density', ll, want / I.T)
      b = jnp.arange(I.x.shape[0])
      G.eq('C12.log-ratio of moving a node', lr[b, I.i, I.c],
           (self.spec(I, d, onehot(y, d.C)) - want) / I.T)
      lo = m.logratio_in_neighborhood(P, xo)[1]
      G.eq('C12.log-ratio from a one-hot state', lo, lr)

  def relaxed(self, I, d):
    me = self

    def f(x):
      a, b = x[:, I.ef * I.em], x[:, I.et * I.em]
      cut = jnp.sum((2 * (a + b) - (a + b) ** 2) * I.em[None, :, None], 1)
      if not me.penalty:
        vol = jnp.sum(x * I.deg[None, :, None], 1)
        return -jnp.sum((cut + EPS) / (vol + EPS ** 2), -1)
      k = jnp.sum(x, 1)
      avg = dimval(d.n) / dimval(d.C)
      if me.stype == 'quad':
        bal = jnp.sum((k - avg) ** 2, -1)
      else:
        w = dimval(d.n) * me.tol
        bal = jnp.sum(jax.nn.relu(k - avg - w) ** 2 + jax.nn.relu(
            avg - w - k) ** 2, -1)
      return -(jnp.sum(cut, -1) + me.penalty * bal)

    return f

  def obligation(self):
    f = MF + 'normcut.py:NormCut.'
    return Obligation('co/normcut/' + self.name, dict(b=1, n=2, e=1, C=3),
                      self.inputs, self.body, under=[f + u for u in (
                          'forward', 'objective', 'get_cut_sizes',
                          'logratio_in_neighborhood', '__init__')] + [
                              MF + 'comb_ebm.py:CombEBM.' + u for u in (
                                  'evaluate', 'get_value_and_grad')],
                      strict=True, props=('C10', 'C11', 'C12'), repair=_loaded,
                      concrete_dims=[dict(b=2, n=4, e=5, C=3),
                                     dict(b=1, n=2, e=1, C=4),
                                     dict(b=3, n=5, e=7, C=2)], deadline=120)


class BernoulliRatio:

  def __init__(self, rank):
    self.rank = rank

  def obligation(self):
    two = self.rank == 2

    def shape(d):
      return (d.h, d.w_) if two else (d.n,)

    def inputs(d):
      sh = shape(d)
      ins = dict(x=bit(d.b, *sh), p=real(*sh))
      for k, s in zip('ij', sh):
        ins[k] = integer(0, s - 1, d.b)
      return ins

    def body(G, d, I):
      sh = shape(d)
      m = build_model('bernoulli', list(sh), lambda *s: dict(
          shape=tuple(s), init_sigma=1.0, num_categories=2))
      P = {'params': I.p}
      f = lambda x: rowsum(x.astype(jnp.float32) * I.p[None])
      b = I.x.shape[0]
      if two:
        here = (jnp.arange(sh[0])[None, :, None] == I.i[:, None, None]) & (
            jnp.arange(sh[1])[None, None, :] == I.j[:, None, None])
        at = I.i * dimval(sh[1]) + I.j if H.MODE.symbolic else (
            I.i * sh[1] + I.j)
      else:
        here, at = jnp.arange(sh[0])[None] == I.i[:, None], I.i
      y = jnp.where(here, 1 - I.x, I.x)
      ll, lr, _, nb = m.logratio_in_neighborhood(P, I.x)
      G.eq('C12.value is the log-density', ll, f(I.x))
      G.eq('C12.log-ratio of flipping a site',
           rowsum(jnp.where(here, jnp.reshape(lr, I.x.shape), 0.0)),
           f(y) - f(I.x))
      G.eq('C12.neighbour is the state with that site flipped',
           nb(P, I.x, at.astype(jnp.int32)), y)

    dims = dict(b=1, h=1, w_=1) if two else dict(b=1, n=1)
    return Obligation('ratio/bernoulli' + ('/2d' if two else ''), dims, inputs,
                      body, under=[
                          MF + 'bernoulli.py:Bernoulli.' + u for u in (
                              'logratio_in_neighborhood', 'get_neighbor_fn',
                              'forward')],
                      strict=True, props=('C12',),
                      concrete_dims=CD2 if two else CD1, deadline=60)


def obligations(tier='quick'):
  out = [NormCut('ncut', 0.0), NormCut('quad', 0.75), NormCut(
      'span', 0.75, 'span'), BernoulliRatio(1), BernoulliRatio(2),
         rbm_binary(), rbm_categ(), maxcut(), mis(), maxclique(), fhmm_binary(), fhmm_categ(3),
         bernoulli(1), bernoulli(2), categorical(1), categorical(2), ising(),
         potts()]
  return [e.obligation() for e in out]
