"""Initial samples and generated model parameters (C13)."""
import jax
import jax.numpy as jnp
import numpy as np

import harness as H
from common import *  # pylint: disable=wildcard-import
from models import MF, build_model, _NoData


def _c(v):
  return v if isinstance(v, (int, np.integer)) else dimval(v)


class Init:
  """get_init_samples: num states of the configured shape; every value of
  every site possible, none out of range."""

  def __init__(self, name, module, dims, shape, C, sizes, make, conc, cls,
               nodes=None, under=('get_init_samples',)):
    self.__dict__.update(locals())

  def v(self, d, s):
    return getattr(d, s) if isinstance(s, str) else s

  def inputs(self, d):
    sh = tuple(self.v(d, s) for s in self.shape)
    C = self.v(d, self.C)
    mk = (lambda: bit(d.b, *sh)) if self.C == 2 else (
        lambda: integer(0, C - 1, d.b, *sh))
    return dict(key=key(), w=mk(), u=mk())

  def body(self, G, d, I):
    C = self.v(d, self.C)
    m = build_model(self.module, [self.v(d, s) for s in self.sizes], self.make,
                    nodes=self.nodes)

    def run(w):
      def prov(kind, params, shape):
        if kind == 'randint':
          return w + params['minval']
        if kind in ('bernoulli', 'categorical'):
          return w
        return None

      with draws(prov) as log:
        x = m.get_init_samples(I.key, I.w.shape[0])
      return x, log

    x, log = run(I.w)
    y, _ = run(I.u)
    if len(log.entries) != 1:
      raise ContractMismatch('initial samples: one draw expected')
    e = log.entries[0]
    G.eq('C13.shape', jnp.zeros(x.shape), jnp.zeros(I.w.shape))
    G.true('C13.every site in range', (x >= 0) & (x <= _c(C) - 1))
    G.true('C13.whole numbers', jnp.asarray(jnp.issubdtype(
        x.dtype, jnp.integer)))
    G.true('C13.different draws give different values', (x != y) | (
        I.w == I.u))
    G.true('C13.every sample has its own draw', jnp.asarray(
        not getattr(e, 'shared', False)))
    if e.kind == 'randint':
      G.eq('C13.as many values as categories', jnp.asarray(
          e.params['maxval'] - e.params['minval'], jnp.float32), _c(C))
    elif e.kind == 'bernoulli':
      G.true('C13.every value possible', (e.params['p'] > 0) & (
          e.params['p'] < 1))
      G.eq('C13.as many values as categories', jnp.asarray(2.), _c(C))
    else:
      G.true('C13.every value possible', e.params['logits'] > -1e6)
      G.eq('C13.as many values as categories', jnp.asarray(_c(
          e.params['logits'].shape[-1]), jnp.float32), _c(C))

  def blackbox(self, seed):
    """the samples themselves, from real keys."""
    H.MODE.symbolic = False
    d = H.D(**self.conc[0])
    C = int(self.v(d, self.C))
    m = build_model(self.module, [self.v(d, s) for s in self.sizes], self.make,
                    nodes=self.nodes)
    N = 400 * C
    x = np.asarray(m.get_init_samples(jax.random.PRNGKey(seed), N))
    y = np.asarray(m.get_init_samples(jax.random.PRNGKey(seed + 1), N))
    sh = (N,) + tuple(int(self.v(d, s)) for s in self.shape)
    bad = []
    if x.shape != sh:
      return [('C13.shape', '%s, expected %s' % (x.shape, sh))]
    if x.min() < 0 or x.max() >= C or not (x == np.round(x)).all():
      bad.append(('C13.every site in range', 'values %s' % np.unique(x)))
    f = x.reshape(N, -1)
    for i in range(f.shape[1]):
      if len(np.unique(f[:, i])) != C:
        bad.append(('C13.every value possible', 'site %d only takes %s in %d '
                    'samples' % (i, np.unique(f[:, i]), N)))
        break
    if (x == y).all():
      bad.append(('C13.depends on the key', 'same samples for two keys'))
    for i in range(f.shape[1] - 1):
      if (f[:, i] == f[:, i + 1]).all():
        bad.append(('C13.every site has its own draw', 'sites %d, %d' % (
            i, i + 1)))
    return bad

  def obligation(self):
    return Obligation('init/' + self.name, self.dims, self.inputs, self.body,
                      blackbox=self.blackbox,
                      under=[MF + self.cls + '.' + u for u in self.under],
                      props=('C13',), concrete_dims=self.conc, deadline=30)


def _co(module):
  return lambda n, e: dict(
      name=module, max_num_nodes=n, max_num_edges=e, num_models=1,
      num_instances=1, graph_type='er', data_root='', num_categories=2,
      shape=(0,), penalty=1.0)


def normcut():
  def inputs(d):
    return dict(key=key(), more=integer(0, d.C - 1, d.b, d.r),
                sh=integer(0, d.C - 1, d.b, d.C + d.r), c=integer(0, d.C - 1, d.b))

  def body(G, d, I):
    m = build_model('normcut', [d.C + d.r, d.e, d.C], lambda n, e, c: dict(
        name='normcut', graph_type='nets', data_root='', num_models=1,
        num_instances=1, penalty=0.0, max_num_nodes=n, max_num_edges=e,
        num_categories=c, shape=(n,)), nodes=(0, 1))
    seen = []

    def prov(kind, params, shape):
      if kind == 'randint':
        return I.more + params['minval']
      if kind == 'permutation':
        seen.append(params['x'])
        return I.sh
      return None

    with draws(prov) as log:
      x = m.get_init_samples(I.key, I.more.shape[0])
    if len(log.entries) != 2 or len(seen) != 1:
      raise ContractMismatch('initial partition: draws')
    q = [e for e in log.entries if e.kind == 'randint'][0]
    G.eq('C13.shape', jnp.zeros(x.shape), jnp.zeros(I.sh.shape))
    G.eq('C13.the result is the shuffled vector', x, I.sh)
    G.true('C13.every site in range', (seen[0] >= 0) & (
        seen[0] <= _c(d.C) - 1))
    G.eq('C13.as many values as categories', jnp.asarray(
        q.params['maxval'] - q.params['minval'], jnp.float32), _c(d.C))
    G.true('C13.every part is non-empty', jnp.sum((
        seen[0] == I.c[:, None]).astype(jnp.float32), -1) >= 1)
    G.true('C13.every sample has its own draw', jnp.asarray(not any(
        getattr(e, 'shared', False) for e in log.entries)))
    if H.MODE.symbolic:
      G.keys('C13.draws use distinct keys', [e.key for e in log.entries])

  def blackbox(seed):
    H.MODE.symbolic = False
    bad = []
    for n, C in ((5, 3), (6, 4), (9, 2)):
      m = build_model('normcut', [n, 2, C], lambda n, e, c: dict(
          name='normcut', graph_type='nets', data_root='', num_models=1,
          num_instances=1, penalty=0.0, max_num_nodes=n, max_num_edges=e,
          num_categories=c, shape=(n,)), nodes=(0, 1))
      x = np.asarray(m.get_init_samples(jax.random.PRNGKey(seed), 400 * C))
      if x.shape != (400 * C, n):
        return [('C13.shape', str(x.shape))]
      if x.min() < 0 or x.max() >= C:
        bad.append(('C13.every site in range', str(np.unique(x))))
      if any(len(np.unique(r)) != C for r in x):
        bad.append(('C13.every part is non-empty', 'n=%d C=%d' % (n, C)))
      if any(len(np.unique(x[:, i])) != C for i in range(n)):
        bad.append(('C13.every value possible', 'n=%d C=%d' % (n, C)))
      if len(np.unique(x, axis=0)) < 2:
        bad.append(('C13.every sample has its own draw', 'n=%d C=%d' % (n, C)))
    return bad

  return Obligation('init/normcut', dict(b=1, r=1, e=1, C=2), inputs, body,
                    under=[MF + 'normcut.py:NormCut.get_init_samples'],
                    props=('C13',), concrete_dims=[
                        dict(b=3, r=3, e=2, C=3), dict(b=2, r=1, e=1, C=4)],
                    deadline=30, blackbox=blackbox)


# ---------------------------------------------------------------- parameters
def _drawn(m, seed):
  """the generated parameter array, or None when there is none."""
  P = m.make_init_params(jax.random.PRNGKey(seed))
  return np.asarray(P['params']) if hasattr(P, 'keys') and 'params' in P else None


def gauss(name, C, rank=1):
  """Bernoulli / categorical: independent Gaussian weights, scale
  init_sigma."""
  sites = lambda d: (d.n,) if rank == 1 else (d.n, d.w_)
  sh = lambda d: sites(d) + (() if C == 2 else (d.C,))

  def conf(sig):
    return lambda *s: dict(
        shape=tuple(s[:rank]), init_sigma=sig,
        num_categories=2 if C == 2 else s[-1])

  def inputs(d):
    return dict(key=key(), z=real(*sh(d)), sigma=real(pos=True))

  def body(G, d, I):
    m = build_model(name, list(sh(d)), conf(I.sigma))
    with draws(supply_seq(normal=I.z)) as log:
      P = m.make_init_params(I.key)
    G.eq('C13.parameters are the scaled draws', P['params'], I.z * I.sigma)
    G.true('C13.every parameter has its own draw', jnp.asarray(not any(
        getattr(e, 'shared', False) for e in log.entries)))

  def blackbox(seed):
    H.MODE.symbolic = False
    out = []
    for sig in (0.5, 3.0):
      s = ((3000,) if rank == 1 else (60, 50)) + (() if C == 2 else (4,))
      m = build_model(name, list(s), conf(sig))
      w = _drawn(m, seed)
      if w is None or w.shape != s:
        return [('C13.parameters are the scaled draws', 'expected an array of '
                 'shape %s, got %s' % (s, getattr(w, 'shape', None)))]
      q = np.quantile(w.reshape(-1) / sig, [.02, .16, .5, .84, .98])
      off = np.abs(q - np.array([-2.054, -.9945, 0, .9945, 2.054])).max()
      if off > 0.25 or len(np.unique(w)) < w.size * 0.9:
        out.append(('C13.parameters are the scaled draws', 'init_sigma %s: '
                    'quantiles %s sigmas' % (sig, q)))
    return out

  cls = name.capitalize()
  dims = dict(n=1) if rank == 1 else dict(n=1, w_=1)
  if C != 2:
    dims['C'] = 3
  return Obligation('params/' + name + ('/2d' if rank == 2 else ''), dims,
                    inputs, body, under=[MF + name + '.py:' + cls +
                                         '.make_init_params'],
                    props=('C13',), concrete_dims=[
                        {k: v[i] for k, v in dict(
                            n=(4, 1), w_=(2, 3), C=(3, 4)).items() if k in dims}
                        for i in (0, 1)],
                    deadline=30, blackbox=blackbox)


def lattice(name):
  """Ising / Potts: couplings -lambda everywhere, field +mu inside the disc
  of half the area, -mu outside, plus noise within +-init_sigma."""
  C = name == 'potts'
  sh = lambda d: (d.h, d.w_) + ((d.C,) if C else ())

  def inputs(d):
    return dict(key=key(), u=uniform01(*sh(d)), sigma=real(pos=True),
                mu=real(), lam=real())

  def body(G, d, I):
    m = build_model(name, list(sh(d)), lambda h, w, c=2: dict(
        shape=(h, w), init_sigma=I.sigma, num_categories=c, lambdaa=I.lam,
        mu=I.mu))
    with draws(supply_seq(uniform=I.u)) as log:
      P = m.make_init_params(I.key)['params']
    G.eq('C13.shape', jnp.zeros(P.shape), jnp.zeros((3,) + I.u.shape))
    G.eq('C13.horizontal couplings', P[0], -I.lam)
    G.eq('C13.vertical couplings', P[1], -I.lam)
    i = jnp.arange(d.h)[:, None]
    j = jnp.arange(d.w_)[None, :]
    r2 = (i / dimval(d.h) - 0.5) ** 2 + (j / dimval(d.w_) - 0.5) ** 2
    s = jnp.where(r2 < 0.5 / jnp.pi, 1., -1.)
    if C:
      s = s[:, :, None]
    noise = P[2] - I.mu * s
    G.eq('C13.field: +-mu by position plus scaled noise', noise,
         (2 * I.u - 1) * I.sigma)
    G.true('C13.every parameter has its own draw', jnp.asarray(not any(
        getattr(e, 'shared', False) for e in log.entries)))

  def blackbox(seed):
    H.MODE.symbolic = False
    out = []
    for h, w in ((5, 8), (30, 20)):
      m = build_model(name, [h, w] + ([3] if C else []), lambda h, w, c=2:
                      dict(shape=(h, w), init_sigma=.3, num_categories=c,
                           lambdaa=.7, mu=1.3))
      P = _drawn(m, seed)
      if P is None or P.shape != (3, h, w) + ((3,) if C else ()):
        return [('C13.shape', str(getattr(P, 'shape', None)))]
      if np.abs(P[:2] + .7).max() > 1e-5:
        out.append(('C13.horizontal couplings', str(P[:2].ravel()[:5])))
      r2 = (np.arange(h)[:, None] / h - .5) ** 2 + (
          np.arange(w)[None] / w - .5) ** 2
      s = np.where(r2 < .5 / np.pi, 1.3, -1.3)
      z = (P[2] - (s[..., None] if C else s)) / .3
      if np.abs(z).max() > 1.001 or z.min() > -.5 or z.max() < .5:
        out.append(('C13.field: +-mu by position plus scaled noise',
                    'noise in [%s, %s] sigmas' % (z.min(), z.max())))
    return out

  return Obligation('params/' + name, dict(h=2, w_=2, C=3) if C else dict(
      h=2, w_=2), inputs, body, under=[MF + name + '.py:' +
                                      name.capitalize() + '.make_init_params'],
                    props=('C13',), concrete_dims=[
                        dict(h=3, w_=4, C=3), dict(h=5, w_=2, C=4)],
                    deadline=30, blackbox=blackbox)


def _fhmm_law(seed, C):
  """the generated data themselves: one hidden chain with little noise can be
  read off the observations."""
  H.MODE.symbolic = False
  bad = []
  L, beta, alpha, sig = 400, .8, .3, 1e-3
  m = build_model('fhmm', [L, 1, C], lambda l, k, c: dict(
      shape=(l, k), num_categories=c, sigma=sig, alpha=alpha, beta=beta))
  starts, kept, moves, res, ws = [], [], [], [], []
  for s in range(4):
    P = {k: np.asarray(v, np.float64) for k, v in m.make_init_params(
        jax.random.PRNGKey(97 * seed + s)).items()}
    y, w = P['y'].reshape(-1), P['w'].reshape(-1)
    if y.shape != (L,) or P['b'].size != 1 or w.size != (1 if C == 2 else C):
      return [('C13.shape', str({k: v.shape for k, v in P.items()}))]
    lev = (np.array([0., w[0]]) if C == 2 else w) + P['b'].reshape(-1)[0]
    ws += [w[0], P['b'].reshape(-1)[0]]
    x = np.argmin(np.abs(y[:, None] - lev[None]), 1)
    r = (y - lev[x]) / sig
    gap = np.min(np.abs(lev[:, None] - lev[None]) + 9 * np.eye(len(lev)))
    if gap < 12 * sig:
      continue
    res.append(r)
    starts.append(x[0])
    kept.append(x[1:] == x[:-1])
    mv = x[1:] != x[:-1]
    moves.append((x[1:] - x[:-1])[mv] % C)
  if not res:
    return []
  r, k = np.concatenate(res), np.concatenate(kept)
  if np.abs(r).max() > 7 or abs(r.std() - 1) > .2 or abs(r.mean()) > .2:
    bad.append(('C13.observations: emission plus noise',
                'residuals mean %s std %s max %s' % (
                    r.mean(), r.std(), np.abs(r).max())))
  if abs(k.mean() - beta) > 7 * np.sqrt(beta * (1 - beta) / k.size):
    bad.append(('C13.transition keeps the state with probability beta',
                '%s instead of %s' % (k.mean(), beta)))
  mv = np.concatenate(moves)
  for c in range(1, C):
    p = 1 / (C - 1)
    if abs((mv == c).mean() - p) > 7 * np.sqrt(.25 / max(mv.size, 1)):
      bad.append(('C13.transition keeps the state with probability beta',
                  'jumps by %d: %s' % (c, (mv == c).mean())))
  if len(set(ws)) != len(ws):
    bad.append(('C13.every draw has its own randomness', str(ws)))
  m = build_model('fhmm', [1, 400, C], lambda l, k, c: dict(
      shape=(l, k), num_categories=c, sigma=sig, alpha=alpha, beta=beta))
  m.make_init_params(jax.random.PRNGKey(seed))
  x = np.asarray(m.sample_X(jax.random.PRNGKey(seed + 5)))[0]
  on = x.mean() if C == 2 else 1 - x[:, 0].mean()
  if abs(on - alpha) > 7 * np.sqrt(alpha * (1 - alpha) / 400):
    bad.append(('C13.initial hidden state ~ alpha', str(on)))
  return bad


def fhmm_binary(L):
  """hidden chains and observations drawn from the model's own law."""

  def inputs(d):
    unit = lambda rs, s: np.float32(0.05 + 0.9 * rs.rand())
    return dict(key=key(), x=bit(L, d.k), w=real(d.k, 1), b=real(1, 1),
                e=real(L, 1), alpha=real(gen=unit, pos=True), beta=real(
                    gen=unit, pos=True), sigma=real(pos=True))

  def body(G, d, I):
    m = build_model('fhmm', [L, d.k], lambda l, k: dict(
        shape=(l, k), num_categories=2, sigma=I.sigma, alpha=I.alpha,
        beta=I.beta))
    xs = [I.x[i] for i in range(L)]
    nz = {(str(d.k), '1'): I.w, ('1', '1'): I.b, (str(L), '1'): I.e}
    order = [I.w, I.b, I.e]

    def prov(kind, params, shape):
      if kind == 'bernoulli' and xs:
        return xs.pop(0)
      if kind == 'normal' and order:
        return order.pop(0)
      return None

    with draws(prov) as log:
      P = m.make_init_params(I.key)
    be = log.of('bernoulli')
    if len(be) != L:
      raise ContractMismatch('FHMM: %d hidden draws' % len(be))
    G.eq('C13.initial hidden state ~ alpha', be[0].params['p'], I.alpha)
    for l in range(1, L):
      prev = I.x[l - 1].astype(jnp.float32)
      G.eq('C13.transition %d keeps the state with probability beta' % l,
           be[l].params['p'], prev * I.beta + (1 - prev) * (1 - I.beta))
    G.eq('C13.observations: emission plus noise', P['y'], I.e * I.sigma + (
        jnp.sum(I.x * I.w[None, :, 0], -1) + I.b[0, 0])[:, None])
    G.eq('C13.weights', P['w'], I.w)
    G.eq('C13.bias', P['b'], I.b)
    G.true('C13.every parameter has its own draw', jnp.asarray(not any(
        getattr(e, 'shared', False) for e in log.entries)))
    G.keys('C13.every draw has its own randomness', [
        e.key for e in log.entries])

  f = MF + 'fhmm.py:BinaryFHMM.'
  return Obligation('params/fhmm/binary/%d' % L, dict(k=1), inputs, body,
                    under=[f + u for u in ('make_init_params', 'sample_X',
                                           'sample_Y')], props=('C13',),
                    concrete_dims=[dict(k=2), dict(k=1), dict(k=3)],
                    deadline=30, blackbox=lambda s: _fhmm_law(s, 2))


def fhmm_categ(L, C):
  def inputs(d):
    unit = lambda rs, s: np.float32(0.05 + 0.9 * rs.rand())
    return dict(key=key(), x=integer(0, C - 1, L, d.k), w=real(d.k, C),
                b=real(1, 1), e=real(L), u=uniform01(C), alpha=real(
                    gen=unit, pos=True), beta=real(gen=unit, pos=True),
                sigma=real(pos=True))

  def body(G, d, I):
    G.assume('alpha < 1', I.alpha < 1)
    G.assume('beta < 1', I.beta < 1)
    m = build_model('fhmm', [L, d.k, C], lambda l, k, c: dict(
        shape=(l, k), num_categories=c, sigma=I.sigma, alpha=I.alpha,
        beta=I.beta))
    xs = [I.x[i] for i in range(L)]
    order = [I.w, I.b, I.e]

    def prov(kind, params, shape):
      if kind == 'categorical' and xs:
        return xs.pop(0)
      if kind == 'normal' and order:
        return order.pop(0)
      if kind == 'uniform':
        return I.u
      return None

    with draws(prov) as log:
      P = m.make_init_params(I.key)
    ce = log.of('categorical')
    if len(ce) != L:
      raise ContractMismatch('FHMM: %d hidden draws' % len(ce))
    a = jnp.exp(P['alpha'])
    G.eq('C13.initial probabilities sum to one', jnp.sum(a), 1.)
    G.eq('C13.category 0 has initial probability 1 - alpha', a[0],
         1 - I.alpha)
    G.eq('C13.initial hidden state drawn with those probabilities',
         ce[0].params['logits'], jnp.broadcast_to(P['alpha'], ce[0].params[
             'logits'].shape))
    for l in range(1, L):
      oh = (I.x[l - 1][:, None] == jnp.arange(C)[None]).astype(jnp.float32)
      p = oh * I.beta + (1 - oh) * (1 - I.beta) / (C - 1)
      G.eq('C13.transition %d keeps the state with probability beta' % l,
           jnp.exp(ce[l].params['logits']), p)
    em = 0
    for c in range(C):
      em = em + (I.x == c).astype(jnp.float32) * I.w[None, :, c]
    G.eq('C13.observations: emission plus noise', jnp.reshape(P['y'], (-1,)),
         I.e * I.sigma + jnp.sum(em, -1) + I.b[0, 0])
    G.eq('C13.weights', P['w'], I.w)
    G.eq('C13.bias', P['b'], I.b)
    # (alpha shares the key of the first hidden state)
    G.keys('C13.every draw has its own randomness', [
        e.key for e in log.entries if e.kind != 'uniform'])

  f = MF + 'fhmm.py:CategFHMM.'
  return Obligation('params/fhmm/categorical/%d' % L, dict(k=1), inputs, body,
                    under=[f + u for u in ('make_init_params', 'sample_X',
                                           'sample_Y', '__init__')],
                    props=('C13',), concrete_dims=[dict(k=2), dict(k=1),
                                                   dict(k=3)], deadline=30,
                    blackbox=lambda s: _fhmm_law(s, C))


CD1 = [dict(b=3, n=4, m=2, C=3, e=2), dict(b=1, n=2, m=1, C=4, e=1)]
CD2 = [dict(b=2, h=3, w_=4, C=3), dict(b=3, h=2, w_=2, C=4)]


def obligations(tier='quick'):
  b1 = dict(b=1, n=1)
  S = [
      Init('bernoulli', 'bernoulli', b1, ('n',), 2, ['n'], lambda n: dict(
          shape=(n,), init_sigma=1.0, num_categories=2), CD1,
           'bernoulli.py:Bernoulli'),
      Init('categorical', 'categorical', dict(b=1, n=1, C=3), ('n',), 'C',
           ['n', 'C'], lambda n, c: dict(shape=(n,), init_sigma=1.0,
                                         num_categories=c), CD1,
           'categorical.py:Categorical'),
      Init('bernoulli/2d', 'bernoulli', dict(b=1, h=1, w_=1), ('h', 'w_'), 2,
           ['h', 'w_'], lambda *s: dict(shape=s, init_sigma=1.0,
                                        num_categories=2), CD2,
           'bernoulli.py:Bernoulli'),
      Init('categorical/2d', 'categorical', dict(b=1, h=1, w_=1, C=3),
           ('h', 'w_'), 'C', ['h', 'w_', 'C'], lambda *s: dict(
               shape=s[:-1], init_sigma=1.0, num_categories=s[-1]), CD2,
           'categorical.py:Categorical'),
      Init('ising', 'ising', dict(b=1, h=2, w_=2), ('h', 'w_'), 2, [
          'h', 'w_'], lambda h, w: dict(shape=(h, w), init_sigma=1.0,
                                        num_categories=2, lambdaa=.4, mu=.3),
           CD2, 'ising.py:Ising'),
      Init('potts', 'potts', dict(b=1, h=2, w_=2, C=3), ('h', 'w_'), 'C', [
          'h', 'w_', 'C'], lambda h, w, c: dict(
              shape=(h, w), init_sigma=1.0, num_categories=c, lambdaa=.4,
              mu=.3), CD2, 'potts.py:Potts'),
      Init('fhmm/binary', 'fhmm', dict(b=1, h=2, w_=2), ('h', 'w_'), 2, [
          'h', 'w_'], lambda h, w: dict(shape=(h, w), num_categories=2,
                                        sigma=.5, alpha=.1, beta=.8), CD2,
           'fhmm.py:BinaryFHMM'),
      Init('fhmm/categorical', 'fhmm', dict(b=1, h=2, w_=2), ('h', 'w_'), 4, [
          'h', 'w_', 4], lambda h, w, c: dict(
              shape=(h, w), num_categories=c, sigma=.5, alpha=.1, beta=.8),
           CD2, 'fhmm.py:CategFHMM'),
      Init('rbm/binary', 'rbm', dict(b=1, n=1, m=1), ('n',), 2, ['n', 'm'],
           lambda v, h: dict(num_visible=v, num_hidden=h, num_categories=2,
                             shape=(v,)), CD1, 'rbm.py:RBM'),
      Init('rbm/categorical', 'rbm', dict(b=1), (5,), 3, [5, 2, 3],
           lambda v, h, c: dict(num_visible=v, num_hidden=h, num_categories=c,
                                shape=(v,)), CD1, 'rbm.py:RBM'),
      Init('maxcut', 'maxcut', dict(b=1, n=1, e=1), ('n',), 2, ['n', 'e'],
           _co('maxcut'), CD1, 'maxcut.py:Maxcut', nodes=(0, 1)),
      Init('mis', 'mis', dict(b=1, n=1, e=1), ('n',), 2, ['n', 'e'],
           _co('mis'), CD1, 'comb_ebm.py:BinaryNodeCombEBM', nodes=(0, 1)),
      Init('maxclique', 'maxclique', dict(b=1, n=1, e=1), ('n',), 2, [
          'n', 'e'], _co('maxclique'), CD1, 'comb_ebm.py:BinaryNodeCombEBM',
           nodes=(0, 1)),
  ]
  return [s.obligation() for s in S] + [
      normcut(), gauss('bernoulli', 2), gauss('categorical', 3),
      gauss('bernoulli', 2, 2), gauss('categorical', 3, 2),
      lattice('ising'), lattice('potts'), fhmm_binary(3), fhmm_categ(3, 3)]
