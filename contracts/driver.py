"""Experiment drivers (discs/experiment/sampling.py).

Symbolic mode: the real get_results() runs from arbitrary parameters, initial
samples, sampler state and keys with an arbitrary transition kernel, energy
and objective (uninterpreted functions); its loops are verified by the loop
rule of engine/loops.py (one arbitrary iteration of an arbitrary long chain).
Concrete mode: the real get_results() runs a whole short chain with recording
stubs; the recorded history is compared with the specification.
"""
import contextlib
import functools
import sys
import time as _time
import types

import jax
import jax.numpy as jnp
import numpy as np
from jax.interpreters import batching
from ml_collections import config_dict

import genuine
import harness as H
import loops
from common import *  # pylint: disable=wildcard-import

F = 'discs/experiment/sampling.py:'


def _tracer(v):
  return isinstance(v, jax.core.Tracer)


def rows(v):
  """the whole batch behind a value seen inside (nested) vmap."""
  return _rows(v)[0]


def _rows(v):
  """-> value with the mapped axes in front (outermost first), their number."""
  if not isinstance(v, batching.BatchTracer):
    return v, 0
  r, n = _rows(v.val)
  if v.batch_dim is None:
    return r, n
  return jnp.moveaxis(r, n + v.batch_dim, n), n + 1


class Step:
  """an arbitrary iteration number; `% n == 0` is a path condition."""

  def __init__(self, v, hit):
    self.v, self.hit = v, hit

  def __jax_array__(self):
    return self.v

  def __mod__(self, o):
    return _Mod(self.hit)

  def __getattr__(self, n):
    return getattr(self.v, n)


for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'radd', 'rsub', 'rmul',
           'rtruediv', 'neg', 'pow', 'lt', 'le', 'gt', 'ge'):
  def _op(self, *a, _n='__%s__' % _n):
    a = [x.v if isinstance(x, Step) else x for x in a]
    return getattr(self.v, _n)(*a)
  setattr(Step, '__%s__' % _n, _op)


class _Mod:

  def __init__(self, hit):
    self.hit = hit

  def __eq__(self, o):
    if o != 0:
      raise ContractMismatch('step %% n compared with %r' % (o,))
    return self.hit

  def __ne__(self, o):
    return not self == o

  def __bool__(self):
    return not self.hit

  __hash__ = None


class GhostList(list):
  """a list with an arbitrary, untouchable past: only append is allowed."""

  def _no(self, *a, **k):
    raise ContractMismatch('history list modified other than by append')

  insert = extend = pop = remove = clear = sort = reverse = _no
  __setitem__ = __delitem__ = __iadd__ = __imul__ = _no


class Recorder:
  """stub model / sampler / evaluator / saver around one run."""

  def __init__(self, d, I, shape, models=None):
    self.d, self.I, self.shape, self.models = d, I, tuple(shape), models
    self.calls = []
    self.saved = {}
    self.inits = []
    self.count = None
    self.eval_args = []

  # ---- model
  def make_init_params(self, rng):
    self.param_key = rng
    return {'w': self.I.w}

  def get_init_samples(self, rng, num_samples):
    self.inits.append((rng, num_samples))
    return jnp.reshape(self.I.x0, (-1,) + self.shape)

  def forward(self, params, x):
    t, w = params['temperature'], params['w']
    if H.MODE.symbolic:
      return H.anyfn('ENERGY', [x, t, w], x.shape[:1], lead=[(0,), (), ()],
                     own=())
    return self.energy(x, t, w)

  @staticmethod
  def energy(x, t, w):
    z = jnp.reshape(x, (x.shape[0], -1)).astype(jnp.float32)
    return t * jnp.sum(z * w, -1) + 0.3 * jnp.sin(2. * t) * jnp.sum(z, -1)

  # ---- sampler
  def make_init_state(self, rng):
    self.state_key = rng
    return {'steps': self.I.s0, 'num_ll_calls': self.I.l0}

  def kernel(self, rng, x, t, w, mask, state):
    """-> new x, new state, acceptance (whole batch at once)."""
    s, l = state['steps'], state['num_ll_calls']
    args = [x, rng, t, w, s, l] + ([] if mask is None else [mask])
    if H.MODE.symbolic:
      return (H.anyfn('KERNEL', args, x.shape, dtype=jnp.int32),
              {'steps': H.anyfn('STEPS', args, (), jnp.int32),
               'num_ll_calls': H.anyfn('CALLS', args, (), jnp.int32)},
              H.anyfn('ACC', args, x.shape[:1]))
    u = H._REAL['uniform'](rng, x.shape)  # pylint: disable=protected-access
    p = jax.nn.sigmoid(0.5 * t * w + 0.3 * (2 * x - 1))
    nx = (u < p).astype(x.dtype)
    if mask is not None:
      nx = jnp.where(mask > 0, nx, x)
    return (nx, {'steps': s + 1, 'num_ll_calls': l + 2},
            jnp.mean(u.reshape(u.shape[0], -1), -1))

  def step(self, model, rng, x, model_param, state, x_mask=None):
    t = model_param.get('temperature', 1.0)
    nx, ns, acc = self.kernel(rng, x, t, model_param['w'], x_mask, state)
    if not H.MODE.symbolic:
      self.calls.append(dict(
          rng=rows(rng), x=rows(x), t=rows(t), w=rows(model_param['w']),
          mask=rows(x_mask), state={k: rows(v) for k, v in state.items()},
          nx=rows(nx), ns={k: rows(v) for k, v in ns.items()}, acc=rows(acc),
          model=model))
    else:
      self.calls.append(dict(model=model, rng=rows(rng)))
    return nx, ns, acc

  # ---- saver
  def __getattr__(self, n):
    if n.startswith('__') or not (n.startswith('save') or
                                  n.startswith('dump')):
      raise AttributeError(n)

    def f(*a, **k):
      self.saved.setdefault(n, []).append((a, k))
    return f


def config(exp, model):
  e = dict(name='', evaluator='ess_eval', num_models=1, ess_ratio=0.5,
           run_parallel=False, get_additional_metrics=False,
           log_every_steps=1, save_every_steps=1, save_samples=False,
           get_estimation_error=False, save_root='')
  e.update(exp)
  m = dict(name='stub')
  m.update(model)
  c = config_dict.ConfigDict(dict(model=m, experiment=e, sampler=dict(
      name='stub')))
  return c


class _Np:
  """numpy as the driver uses it, accepting symbolic values."""

  def __getattr__(self, n):
    return getattr(np, n)

  def array(self, v, *a, **k):
    if _tracer(v):
      return v
    return np.array(v, *a, **k)

  asarray = array

  def log(self, v):
    if not isinstance(v, (int, float, np.number, np.ndarray)):
      return jnp.log(dimval(v) if not _tracer(v) else v)
    return np.log(v)


class _Jnp:
  """jax.numpy, keeping concrete integers concrete (boolean masks)."""

  def __getattr__(self, n):
    return getattr(jnp, n)

  def array(self, v, *a, **k):
    if isinstance(v, GhostList):
      v = list(v)
    if isinstance(v, (list, tuple)) and v and all(
        isinstance(x, (int, np.integer)) for x in v) and not a and not k:
      return np.array(v)
    return jnp.array(v, *a, **k)

  asarray = array

  def stack(self, v, *a, **k):
    return jnp.stack(list(v) if isinstance(v, GhostList) else v, *a, **k)


class _Clock:
  """time.time() ticks once per call."""

  def __init__(self):
    self.t = 0

  def time(self):
    self.t += 1
    return float(self.t)

  perf_counter = time
  monotonic = time

  def __getattr__(self, k):
    return getattr(_time, k)


class _Tqdm:

  @staticmethod
  def tqdm(it, *a, **k):
    return it

  def __call__(self, it, *a, **k):
    return it

  def trange(self, *a, **k):
    sampling = sys.modules['discs.experiment.sampling']
    return getattr(sampling, 'range', range)(*a)


@contextlib.contextmanager
def environment(rule, keys, devices=1):
  """module globals of the driver: silent progress bars and prints, a ticking
  clock, and (symbolic mode) ranges cut by the loop rule.  With several
  devices, pmap is vmap over its leading axis and replication is stacking."""
  from discs.experiment import sampling  # pylint: disable=import-outside-toplevel
  with several(devices), _environment(sampling, rule, keys):
    yield sampling


@contextlib.contextmanager
def several(devices):
  if devices == 1:
    yield
    return

  def pmap(f, *a, **k):
    if a or set(k) - {'axis_name'}:
      raise ContractMismatch('pmap options')

    def g(*args, **kw):
      for v in jax.tree_util.tree_leaves((args, kw)):
        if not 1 <= v.shape[0] <= devices:
          raise ValueError('pmap over %s on %d devices' % (
              v.shape, devices))
      return jax.vmap(f)(*args, **kw)
    return g

  new = dict(
      local_device_count=lambda *a, **k: devices,
      device_count=lambda *a, **k: devices, pmap=pmap,
      local_devices=lambda *a, **k: [object() for _ in range(devices)],
      device_put_replicated=lambda v, devs: jax.tree_util.tree_map(
          lambda x: jnp.stack([jnp.asarray(x)] * len(devs)), v))
  with loops.patched(jax, **new):
    yield


@contextlib.contextmanager
def _environment(sampling, rule, keys):
  attrs = dict(tqdm=_Tqdm(), print=lambda *a, **k: None, time=_Clock())
  saved = jax.random.PRNGKey
  if H.MODE.symbolic:
    def rng(lo, hi=None, *a):
      if hi is None:
        lo, hi = 0, lo
      if a or (isinstance(lo, int) and isinstance(hi, int)):
        return range(lo, hi, *a)
      return loops.Cut(lo, hi, rule)

    def integer_(v):
      if _tracer(v):
        return v if jnp.issubdtype(v.dtype, jnp.integer) else jnp.floor(v)
      return int(v)

    attrs.update(range=rng, int=integer_, np=_Np(), jnp=_Jnp())
    jax.random.PRNGKey = lambda s: H.fold_p.bind(keys, jnp.asarray(
        s, jnp.int32))
  try:
    with loops.patched(sampling, **attrs), jax.disable_jit():
      yield sampling
  finally:
    jax.random.PRNGKey = saved


class Rule:
  """the loop rule with variables recognised by shape and type."""

  def __init__(self, G, prop, roles, step, hit=True, dicts=None):
    self.G, self.prop, self.roles = G, prop, roles
    self.step, self.hit = step, hit
    self.cuts = []
    self.entry = []   # role -> value at loop entry, per loop
    self.havoc = []
    self.exit = []
    self.lists = []
    self.dicts = dicts or {}

  def classify(self, v):
    if isinstance(v, dict):
      if 'num_ll_calls' in v:
        return 'state'
      return None
    if not hasattr(v, 'dtype') or isinstance(v, np.generic):
      return None
    if v.dtype == jnp.bool_:
      return None
    if v.dtype == jnp.uint32:
      return 'rng'
    for r, like in self.roles.items():
      if r in ('state', 'rng'):
        continue
      if tuple(map(str, v.shape)) == tuple(map(str, like.shape)):
        return r
    if v.ndim == 0:
      return None
    raise ContractMismatch('loop carries an array of shape %s' % (v.shape,))

  def find(self, loc, names):
    out = {}
    for n in sorted(names):
      if n not in loc:
        continue
      r = self.classify(loc[n])
      if r is None:
        continue
      if r in out:
        raise ContractMismatch('two loop variables look like %s' % r)
      out[r] = n
    return out

  def enter(self, cut, loc):
    i = len(self.cuts)
    self.cuts.append(cut)
    cut.names = self.find(loc, cut.live)
    self.entry.append({r: loc[n] for r, n in cut.names.items()})
    new = {}
    hv = {}
    for r, n in cut.names.items():
      v = self.value(r, i)
      hv[r] = v
      new[n] = dict(v) if isinstance(v, dict) else v.astype(loc[n].dtype)
    cut.lists = {}
    for n in cut.seen:
      if isinstance(loc.get(n), list):
        new[n] = cut.lists[n] = GhostList()
        cut.lists[n].before = loc[n]
    # parameters are mutated in place
    cut.params = [v for v in loc.values() if isinstance(v, dict) and
                  'w' in v]
    self.entry[-1]['temperature'] = (cut.params[0].get('temperature')
                                     if cut.params else None)
    for p in cut.params:
      t = self.temperature(i)
      if t is not None:
        p['temperature'] = t
    self.havoc.append(hv)
    return new, Step(self.step[i], self.hit)

  def value(self, role, i):
    v = self.roles[role]
    if role == 'rng':
      return H.fold_p.bind(v, jnp.asarray(900 + i, jnp.int32))
    if i == 0:
      return v
    # a different arbitrary value for every loop
    if isinstance(v, dict):
      return {k: H.anyfn('again%d%s' % (i, k), [x], x.shape, x.dtype)
              for k, x in v.items()}
    return H.anyfn('again%d%s' % (i, role), [v], v.shape, v.dtype)

  def temperature(self, i):
    return None

  def leave(self, cut, loc):
    for n, l in cut.lists.items():
      if loc[n] is not l:
        raise ContractMismatch('history list %s replaced in the loop' % n)
    ex = {r: loc[n] for r, n in cut.names.items()}
    ex['temperature'] = (cut.params[0].get('temperature') if cut.params
                         else None)
    self.exit.append(ex)
    self.lists.append({n: list(l) for n, l in cut.lists.items()})


# -------------------------------------------------------------------- AIS
def ais(D=1, P='C14'):
  par = D > 1
  on = (D,) if par else ()
  # per device -> all devices
  each = jax.vmap if par else (lambda f: f)
  spread = (lambda v: jnp.stack([jnp.asarray(v)] * D)) if par else (lambda v: v)

  class R(Rule):

    def temperature(self, i):
      return spread((self.step[i] - 1) / dimval(self.L))

  def inputs(d):
    return dict(key=key(), x0=bit(*on, d.b, d.n), x=bit(*on, d.b, d.n),
                W=real(*on, d.b), w=real(d.n), s=integer(0, 99, *on),
                l=integer(0, 99, *on), k=integer(1, d.L), rng=key())

  def body(G, d, I):
    I.s0, I.l0 = jnp.zeros((), jnp.int32), jnp.zeros((), jnp.int32)
    rec = Recorder(d, I, (d.n,))
    rule = R(G, P, dict(x=I.x, log_w=I.W, state={
        'steps': I.s, 'num_ll_calls': I.l}, rng=I.rng), [I.k])
    rule.L = d.L
    g = lambda n: '%s.%s' % (P, n)
    B = D * d.b
    with environment(rule, I.key, D) as mod:
      e = mod.EBM_Experiment(config(dict(
          chain_length=1, batch_size=1, run_parallel=par), dict(shape=(1,))))
      e.config = Conf(**dict(
          e.config.to_dict(), chain_length=d.L, batch_size=B))
      e.config_model = Conf(shape=(d.n,), name='stub')
      e.get_results(rec, rec, None, rec)
    if list(rec.saved) != ['save_logz'] or len(rec.saved['save_logz']) != 1:
      raise ContractMismatch('results saved: %s' % list(rec.saved))
    out = list(rec.saved['save_logz'][0][0][0])
    nb = [v for _, v in rec.inits]
    G.eq(g('as many chains as configured'), dimval(nb[0]), dimval(B))
    lb = jnp.log(dimval(B))
    if not H.MODE.symbolic:
      L = int(d.L)
      G.eq(g('one transition per temperature'), len(rec.calls), L)
      G.eq(g('one estimate per temperature'), len(out), L)
      if len(rec.calls) != L or len(out) != L:
        return
      x, W = I.x0, jnp.zeros(on + (d.b,))
      st = {k: spread(v) for k, v in rec.make_init_state(None).items()}
      E = lambda t: each(lambda y: rec.energy(y, t, I.w))(x)
      ks = []
      for k, c in enumerate(rec.calls, 1):
        W = W + E(k / L) - E((k - 1) / L)
        G.eq(g('transition starts from the current state'), c['x'], x)
        G.eq(g('transition at the current temperature'), c['t'],
             spread(k / L))
        G.eq(g('transition uses the model parameters'), c['w'],
             spread(I.w))
        for q in st:
          G.eq(g('sampler state is threaded'), c['state'][q], st[q])
        G.eq(g('estimate = log mean weight'), out[k - 1], lse(W.reshape(-1)) - lb)
        ks.extend(list(c['rng']) if par else [c['rng']])
        x, st = c['nx'], c['ns']
      G.keys(g('every step has its own key'), ks)
      return
    if len(rule.cuts) != 1:
      raise ContractMismatch('%d loops' % len(rule.cuts))
    en, ex, hv = rule.entry[0], rule.exit[0], rule.havoc[0]
    if set(hv) - {'rng'} != {'x', 'log_w', 'state'} or len(rec.calls) != 1:
      raise ContractMismatch('loop variables %s' % sorted(hv))
    c = rule.cuts[0]
    G.eq(g('loop runs from 1'), dimval(c.lo), 1.)
    G.eq(g('loop runs to the chain length'), dimval(c.hi), dimval(d.L) + 1)
    G.eq(g('entry: temperature 0'), en['temperature'], spread(0.))
    G.eq(g('entry: initial samples'), en['x'], I.x0)
    G.eq(g('entry: weights zero'), en['log_w'], jnp.zeros(I.W.shape))
    G.eq(g('entry: sampler state'), en['state']['steps'], spread(I.s0))
    # preservation
    b1, b0 = I.k / dimval(d.L), (I.k - 1) / dimval(d.L)
    E = lambda t: each(lambda y: rec.forward({'temperature': t, 'w': I.w}, y))(
        I.x)
    W = I.W + E(b1) - E(b0)
    G.eq(g('temperature k/L after step k'), ex['temperature'], spread(b1))
    G.eq(g('weight gains E(b_k, x) - E(b_k-1, x) before the move'),
         ex['log_w'], W)
    G.eq(g('estimate = log mean weight'), out[-1], lse(W.reshape(-1)) - lb)
    G.eq(g('one estimate per temperature'), len(out), 1)
    fr = rec.calls[0]['rng']
    nx, ns, _ = each(lambda r, y, st: rec.kernel(r, y, b1, I.w, None, st))(
        fr, I.x, rule.roles['state'])
    G.eq(g('x_k = kernel(x_k-1) at temperature k/L'), ex['x'], nx)
    for q in ns:
      G.eq(g('sampler state is threaded'), ex['state'][q], ns[q])
    for f in ([fr[i] for i in range(D)] if par else [fr]):
      G.fresh(g('every step has its own key'), f, I.k, hv.get('rng'), ex.get(
          'rng'))
    if par:
      G.keys(g('devices have their own keys'), [fr[i] for i in range(D)])

  return Obligation('ais/devices/%d' % D if par else 'ais',
                    dict(b=1, n=1, L=1), inputs, body,
                    blackbox=genuine.box(genuine.ais, D),
                    under=[F + 'EBM_Experiment.' + u for u in (
                        '_compute_chain', 'preprocess', '_compile_fns',
                        '_initialize_model_and_sampler')] + [
                            F + 'Experiment.get_results',
                            F + 'Experiment._get_chains_and_evaluations'],
                    props=(P,), concrete_dims=[
                        dict(b=3, n=4, L=3), dict(b=1, n=2, L=5),
                        dict(b=2, n=1, L=1)], deadline=60)


def obligations(tier='quick'):
  return [ais(), ais(2), ais(3), genuine.runs('C14', genuine.ais, [
      'EBM_Experiment.get_results'])]
