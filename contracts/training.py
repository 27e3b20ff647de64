"""Training of energy-based models (C21): discs/learning, discs/common/utils.

The model, the sampler and the optimizer are arbitrary functions; pmap runs as
vmap over the same axis name (its meaning on one process)."""
import contextlib
import importlib
import sys
import types

import jax
import jax.numpy as jnp
import numpy as np

import harness as H
from common import *  # pylint: disable=wildcard-import

LF = 'discs/learning/'
UF = 'discs/common/utils.py:'
EBM = 'binary_ebm.main_binary_training'
RBM = 'rbm.main_rbm_training'


@contextlib.contextmanager
def _patched(*items):
  old = [(o, n, getattr(o, n)) for o, n, _ in items]
  for o, n, v in items:
    setattr(o, n, v)
  try:
    yield
  finally:
    for o, n, v in old:
      setattr(o, n, v)


def _load(name):
  """import a training module; what it needs from outside (torch and tfds data
  sets, command-line flags, GPU set-up) is replaced during the import."""
  full = 'discs.learning.' + name
  if full in sys.modules:
    return sys.modules[full]
  put = {}
  for ext in ('torch', 'torchvision', 'tensorflow_datasets'):
    try:
      importlib.import_module(ext)
    except ImportError:
      put[ext] = types.ModuleType(ext)
  if 'torch' in put:
    put['discs.learning.raw_torch_dataset'] = types.ModuleType('raw')
    put['discs.learning.raw_torch_dataset'].load_raw_dataset = None
  import tensorflow as tf  # pylint: disable=import-outside-toplevel
  from absl import flags  # pylint: disable=import-outside-toplevel
  from ml_collections import config_flags  # pylint: disable=import-outside-toplevel
  import discs.learning as pkg  # pylint: disable=import-outside-toplevel
  no = lambda *a, **k: None
  sys.modules.update(put)
  if 'torch' in put:
    pkg.raw_torch_dataset = put['discs.learning.raw_torch_dataset']
  try:
    with _patched((flags, 'DEFINE_integer', no), (flags, 'DEFINE_string', no),
                  (config_flags, 'DEFINE_config_file', no),
                  (tf.config, 'list_physical_devices', lambda *a: [0, 1]),
                  (tf.config.experimental, 'set_memory_growth', no)):
      return importlib.import_module(full)
  finally:
    for k in put:
      sys.modules.pop(k, None)


# ---------------------------------------------------- arbitrary ingredients
@jax.custom_jvp
def _ll(th, x):
  return H.anyfn('LL', [x, th], x.shape[:1], lead=[(0,), ()], own=())


@_ll.defjvp
def _ll_jvp(p, t):
  th, x = p
  g = H.anyfn('DLL', [x, th], x.shape[:1] + th.shape, lead=[(0,), ()], own=(1,))
  return _ll(th, x), jnp.sum(g * t[0], axis=-1)


def ll(th, x):
  x = jnp.asarray(x).astype(jnp.float32)
  if H.MODE.symbolic:
    return _ll(th, x)
  r = np.random.RandomState(th.shape[0] * 10 + x.shape[-1])
  w = jnp.asarray(r.randn(x.shape[-1], th.shape[0]), jnp.float32)
  return jnp.sin(x @ w @ th) + jnp.sum(x, -1) * th[0] + jnp.sum(th ** 2)


def fn(head, args, shape, conc, dtype=jnp.float32):
  if H.MODE.symbolic:
    return H.anyfn(head, args, shape, dtype)
  return conc(*args).astype(dtype)


def _mix(k, *a):
  """some function of all its arguments."""
  def f(rng, x, th, s):
    z = jnp.sum(jnp.asarray(rng).astype(jnp.float32)) * 1e-9
    return jnp.sin(k + x + z * 7 + jnp.sum(th) + s)
  return f


class Model:

  def __init__(self, I=None):
    self.I, self.asked = I, []

  def forward(self, params, x):
    return ll(params['theta'], x)

  def make_init_params(self, rng):
    self.param_key = rng
    return {'theta': self.I.th}

  def get_init_samples(self, rng, num_samples):
    self.asked.append((rng, num_samples))
    return self.I.x


class Sampler:
  """arbitrary transition kernel; keeps the arguments of every call."""

  def __init__(self, three):
    self.three, self.keys, self.inits = three, [], []

  def step(self, model, rng, x, model_param, state):
    self.keys.append(rng)
    nx, ns = kernel(rng, x, model_param['theta'], state)
    return (nx, ns, jnp.float32(1)) if self.three else (nx, ns)

  def make_init_state(self, rng):
    self.inits.append(rng)
    return {'s': fn('INIT', [rng], (), lambda r: jnp.sum(
        jnp.asarray(r).astype(jnp.float32)) * 1e-9)}


def kernel(rng, x, th, s):
  a = [rng, x, th, s]
  return (fn('STEP', a, x.shape, _mix(1.)),
          fn('STATE', a, s.shape, lambda *v: jnp.mean(_mix(2.)(*v))))


class Optimizer:

  def __init__(self):
    self.seen = []

  def init(self, params):
    return {'o': jnp.zeros(())}

  def update(self, grads, opt_state, params=None):
    g, o, p = grads['theta'], opt_state['o'], params['theta']
    return ({'theta': fn('UPD', [g, o, p], g.shape, lambda g, o, p: (
        g * 1.7 + 0.1 * o + 0.3 * p))},
            {'o': fn('OPT', [g, o, p], (), lambda g, o, p: jnp.sum(
                g * 0.3) + 1.1 * o + jnp.sum(p))})


def _pmap(f, axis_name=None, **k):
  def run(*a, **kw):
    return jax.vmap(f, axis_name=axis_name)(*a, **kw)
  return run


@contextlib.contextmanager
def _world():
  from flax import jax_utils  # pylint: disable=import-outside-toplevel
  with _patched((jax, 'pmap', _pmap), (jax, 'device_get', lambda x: x),
                (jax, 'device_put', lambda x, *a, **k: x),
                (jax_utils, 'replicate', lambda t, *a: jax.tree_util.tree_map(
                    lambda v: jnp.asarray(v)[None], t)),
                (jax_utils, 'unreplicate', lambda t: jax.tree_util.tree_map(
                    lambda v: v[0], t))):
    yield


def _conf(**e):
  return Conf(experiment=Conf(**dict(dict(
      p_control=0., energy_l2=0., buffer_size=4, buffer_init='mean',
      reinit_freq=0., learning_rate=0.1, lr_schedule='constant', batch_size=2,
      optimizer='adam', grad_norm=0., ema_decay=0.5, pcd_steps=1), **e)),
              model=Conf(num_categories=2))


class Buffer:

  def __init__(self, x):
    self.x, self.asked, self.put = x, [], []

  def sample(self, n):
    self.asked.append(n)
    return self.x, 'where'

  def update(self, x, inds):
    self.put.append((x, inds))


def _trainer(kind, conf, model, sampler, buf=None):
  mod = _load(EBM if kind == 'ebm' else RBM)
  if kind == 'rbm':
    return mod.RBMTrainer(conf, model, sampler)
  old = mod.replay_buffer.ReplayBuffer
  mod.replay_buffer.ReplayBuffer = lambda c, x: buf
  try:
    return mod.EBMTrainer(conf, model, sampler, None)
  finally:
    mod.replay_buffer.ReplayBuffer = old


# ---------------------------------------------------- one parameter update
def update(kind, first, V):

  def inputs(d):
    return dict(th=real(d.k), ema=real(d.k), o=real(), decay=uniform01(),
                step=integer(0, 0) if first else integer(1, 1000),
                pos=bit(V, d.b, d.n), neg=bit(V, d.b, d.n), key=key())

  def body(G, d, I):
    train = _load('train')
    with _world():
      tr = _trainer(kind, _conf(ema_decay=I.decay), Model(), Sampler(True))
      opt = tr.optimizer = Optimizer()
      st = train.TrainState(step=I.step, params={'theta': I.th},
                            opt_state={'o': I.o}, ema_params={'theta': I.ema})
      f = jax.vmap(tr.global_update_fn, in_axes=(None, None, 0),
                   axis_name='shard')
      new, aux = f(st, I.key, (I.pos, I.neg))

    def loss(th):
      per = jax.vmap(lambda a, b: jnp.mean(ll(th, b)) - jnp.mean(ll(th, a)))
      return jnp.mean(per(I.pos, I.neg))

    g = jax.grad(loss)(I.th)
    up, o = opt.update({'theta': g}, {'o': I.o}, {'theta': I.th})
    th = I.th + up['theta']
    n = lambda s: 'C21.' + s
    # every device ends up with the same state
    G.eq(n('optimizer step on the contrastive gradient of all devices'),
         new.params['theta'], jnp.broadcast_to(th, (V,) + I.th.shape))
    G.eq(n('optimizer state'), new.opt_state['o'], jnp.broadcast_to(
        o['o'], (V,)))
    ema = th if first else I.decay * I.ema + (1 - I.decay) * th
    G.eq(n('running average of the parameters'), new.ema_params['theta'],
         jnp.broadcast_to(ema, (V,) + I.th.shape))
    G.eq(n('one step is counted'), new.step + jnp.zeros((V,)), I.step + 1)
    if 'loss' in aux:
      G.eq(n('reported loss'), aux['loss'], jnp.broadcast_to(
          loss(I.th), (V,)))

  m = EBM if kind == 'ebm' else RBM
  return Obligation(
      'train/update/%s%s/%d' % (kind, '/first' if first else '', V),
      dict(b=1, n=1, k=1), inputs, body, props=('C21',), tol=1e-3,
      under=[LF + 'train.py:Trainer.global_update_fn', UF + 'apply_ema',
             LF + m.replace('.', '/') + '.py:%sTrainer.build_loss_func' %
             kind.upper()],
      trusted=['model, optimizer: arbitrary functions; pmap means vmap'],
      bounds_note='%d devices' % V,
      concrete_dims=[dict(b=2, n=3, k=2), dict(b=2, n=2, k=4)])


# ---------------------------------------------------- persistent chains
def pcd(kind, steps):

  def inputs(d):
    return dict(th=real(d.k), x=bit(1, d.b, d.n), buf=bit(d.b, d.n),
                s=real(1), t=integer(0, 1000, 1), data=bit(1, d.b, d.n),
                key=key())

  def body(G, d, I):
    from discs.common import utils  # pylint: disable=import-outside-toplevel
    sm = Sampler(kind == 'ebm')
    buf = Buffer(I.buf)
    used = []
    with _world():
      tr = _trainer(kind, _conf(pcd_steps=steps), Model(), sm, buf)
      real_shard = utils.shard_prng_key
      shard = lambda k: used.append(k) or real_shard(k)
      with _patched((utils, 'shard_prng_key', shard)):
        loc = utils.SamplerState(step=I.t, samples=I.x, sampler_state=I.s)
        glob = types.SimpleNamespace(params={'theta': I.th[None]})
        batch, new = tr.batch_processing(loc, glob, I.key, I.data)
    n = lambda s: 'C21.' + s
    if len(used) != steps or len(sm.keys) != steps:
      G.eq(n('configured number of sampler steps'), len(sm.keys), steps)
      raise ContractMismatch('keys of the sampler steps not seen')
    x = I.buf[None] if kind == 'ebm' else I.x
    x = x.astype(jnp.float32)
    s = I.s
    for k in used:
      kk = jax.random.split(k, 1)[0]
      y, t = kernel(kk, x[0], I.th, s[0])
      x, s = y[None], t[None]
    G.eq(n('chains moved by the sampler, step after step'), new.samples, x)
    G.eq(n('sampler state carried along'), new.sampler_state, s)
    G.eq(n('steps counted'), new.step, I.t + steps)
    G.keys(n('every sampler step has its own key'), used)
    pos, neg = batch
    G.eq(n('data are the positive phase'), pos, I.data)
    G.eq(n('moved chains are the negative phase'), neg, x)
    if kind == 'ebm':
      G.eq(n('as many buffer entries as chains'), jnp.asarray(
          buf.asked[0], jnp.float32), dimval(d.b))
      G.true(n('moved chains go back where they came from'), jnp.asarray(
          len(buf.put) == 1 and buf.put[0][1] == 'where'))
      G.eq(n('moved chains are stored'), buf.put[0][0], x[0])

  m = EBM if kind == 'ebm' else RBM
  return Obligation(
      'train/pcd/%s/%d' % (kind, steps), dict(b=1, n=1, k=1), inputs, body,
      props=('C21',), tol=1e-3, bounds_note='%d sampler steps per update' %
      steps, under=[LF + m.replace('.', '/') + '.py:%sTrainer.batch_processing'
                    % kind.upper(), UF + 'shard_prng_key'],
      trusted=['model, sampler: arbitrary functions; pmap means vmap'],
      concrete_dims=[dict(b=2, n=3, k=2), dict(b=1, n=2, k=1)])


# ---------------------------------------------------- start of a run
def start():

  def inputs(d):
    return dict(th=real(d.k), x=bit(d.b, d.n), key=key())

  def body(G, d, I):
    m, sm = Model(I), Sampler(True)
    with _world():
      tr = _trainer('ebm', _conf(batch_size=I.x.shape[0] if not
                                 H.MODE.symbolic else 6), m, sm, Buffer(I.x))
      tr.optimizer = Optimizer()
      g, loc = tr.init_states(I.key)
    n = lambda s: 'C21.' + s
    G.eq(n('training starts at step 0'), jnp.asarray(g.step, jnp.float32), 0.)
    G.eq(n('parameters of the model'), g.params['theta'], I.th)
    G.eq(n('running average starts from them'), g.ema_params['theta'], I.th)
    G.eq(n('initial chains'), loc.samples, I.x[None])
    G.eq(n('chains start at step 0'), loc.step, jnp.zeros((1,)))
    ok = len(m.asked) == 1 and len(sm.inits) == 1
    G.true(n('one set of chains'), jnp.asarray(ok))
    if ok:
      G.eq(n('sampler state'), loc.sampler_state['s'], sm.make_init_state(
          sm.inits[0])['s'][None])
      G.keys(n('initial draws use distinct keys'), [
          m.param_key, m.asked[0][0], sm.inits[0]])

  return Obligation(
      'train/start', dict(b=1, n=1, k=1), inputs, body, props=('C21',),
      under=[LF + 'train.py:Trainer.init_states', LF +
             'train.py:init_host_train_state', UF +
             'create_sharded_sampler_state', UF + 'shard_to_local_devices',
             UF + 'tree_stack'],
      trusted=['model, sampler, optimizer: arbitrary functions'],
      concrete_dims=[dict(b=2, n=3, k=2), dict(b=4, n=2, k=1)])


# ---------------------------------------------------- the training loop
def loop(total, init, batches):
  """total_train_steps, first step, batches the loader delivers."""

  def inputs(d):
    return dict(th=real(d.k), x=bit(1, d.b, d.n), s=real(1), o=real(),
                t=integer(0, 1000, 1), data=bit(batches, 1, d.b, d.n),
                key=key())

  def body(G, d, I):
    train = _load('train')
    from discs.common import utils  # pylint: disable=import-outside-toplevel
    seen, saved, logged = [], [], []
    n = lambda s: 'C21.' + s

    class Run(train.Trainer):
      """arbitrary phases around the real loop."""

      def __init__(self):  # pylint: disable=super-init-not-called
        self.config = _conf(total_train_steps=total, save_root='/nowhere',
                            log_every_steps=2, plot_every_steps=1000,
                            save_every_steps=2, warmup_frac=.1)

      def build_loss_func(self, rng, batch):
        raise NotImplementedError

      def batch_processing(self, loc, glob, rng, batch):
        seen.append(('b', loc, glob.params['theta'], rng, batch))
        return (batch, loc[0] + 1), (loc[0] + 1, len(seen))

      def global_update_fn(self, state, rng, batch):
        seen.append(('u', state.params['theta'], rng, batch))
        g = fn('G', [state.params['theta'], batch[0]],
               state.params['theta'].shape, lambda t, b: jnp.sin(
                   t) + jnp.mean(b.astype(jnp.float32)))
        return state.replace(step=state.step + 1, params={'theta': g}), {
            'loss': jnp.sum(g)}

    ck = types.SimpleNamespace(save_checkpoint=lambda folder, st, step, **k:
                               saved.append((step, st.params['theta'])))
    mw = types.SimpleNamespace(ensure_flushes=lambda l: contextlib.nullcontext())
    lg = types.SimpleNamespace(write_scalars=lambda s, a: logged.append((s, a)))
    with _world(), _patched((train, 'checkpoints', ck), (
        train, 'metric_writers', mw)):
      st = train.TrainState(step=init, params={'theta': I.th},
                            opt_state={'o': I.o}, ema_params={'theta': I.th})
      out = Run().train_loop(lg, I.key, st, (I.x, 0), iter(I.data))
    N = min(max(total - init, 0), batches)
    B = [c for c in seen if c[0] == 'b']
    U = [c for c in seen if c[0] == 'u']
    G.eq(n('one sampling phase per step'), len(B), N)
    G.eq(n('one update per step'), len(U), N)
    if len(B) != N or len(U) != N:
      return
    th, x = I.th, I.x
    at = {}
    for i in range(N):
      G.eq(n('each batch of data once, in order'), B[i][4], I.data[i])
      G.eq(n('sampling uses the current parameters'), B[i][2], th[None])
      G.eq(n('chains persist'), B[i][1][0], x)
      x = x + 1
      th = fn('G', [th, I.data[i][0]], th.shape, lambda t, b: jnp.sin(
          t) + jnp.mean(b.astype(jnp.float32)))
      at[init + 1 + i] = th
    G.eq(n('trained parameters are returned'), out.params['theta'], th[None])
    if N:
      G.keys(n('every phase has its own key'), [c[3] for c in B])
    want = [s for s in range(init + 1, init + N + 1) if s % 2 == 0]
    G.true(n('checkpoints at the configured steps'), jnp.asarray(
        [s for s, _ in saved] == want))
    for s, v in saved:
      if s in at:
        G.eq(n('checkpoint holds the parameters of its step'), v, at[s])
    G.true(n('logged at the configured steps'), jnp.asarray(
        [s for s, _ in logged] == want))
    for s, a in logged:
      if s in at:
        G.eq(n('logged loss'), a['loss'], jnp.sum(at[s]))

  return Obligation(
      'train/loop/%d/%d/%d' % (total, init, batches), dict(b=1, n=1, k=1),
      inputs, body, props=('C21',), tol=1e-3,
      under=[LF + 'train.py:Trainer.train_loop'],
      bounds_note='%d steps from step %d, %d batches of data; all values' % (
          total, init, batches),
      trusted=['checkpoints, log writer (recorded)'],
      concrete_dims=[dict(b=2, n=3, k=2)])


# ---------------------------------------------------- learning rate
def rate(kind):
  cf = dict(constant=(0.3, .1, 100), updown=(0.25, .1, 200),
            up_exp_down=(0.25, .05, 4000))[kind]

  def inputs(d):
    return dict(t=integer(0, cf[2] + 50))

  def body(G, d, I):
    train = _load('train')
    f = train.build_lr_schedule(Conf(
        lr_schedule=kind, learning_rate=cf[0], warmup_frac=cf[1],
        total_train_steps=cf[2]))
    w = int(cf[1] * cf[2])
    t = I.t.astype(jnp.float32)
    up = cf[0] * t / w
    if kind == 'constant':
      want = cf[0] + 0 * t
    elif kind == 'updown':
      fr = jnp.clip((t - w) / (cf[2] - w), 0, 1)
      want = jnp.where(t < w, up, cf[0] + (cf[0] * 0.01 - cf[0]) * fr)
    else:
      want = jnp.where(t < w, up, jnp.where(t <= w, cf[0], jnp.maximum(
          cf[0] * jnp.power(0.9, (t - w) / 20000), 1e-6)))
    G.eq('C21.learning rate follows the schedule', f(I.t), want)

  return Obligation(
      'train/rate/' + kind, {}, inputs, body, props=('C21',), deadline=20,
      under=[LF + 'train.py:build_lr_schedule'], samples=20, tol=1e-4,
      bounds_note='one configuration, all steps', concrete_dims=[{}])


# ---------------------------------------------------- optimizer
def _opt_conf(opt, clip, decay, lr):
  return Conf(lr_schedule='constant', learning_rate=lr, warmup_frac=.1,
              total_train_steps=100, **dict(
                  {} if opt is None else dict(optimizer=opt),
                  **dict({} if clip is None else dict(grad_norm=clip),
                         **({} if decay is None else dict(
                             weight_decay=decay)))))


def optimizer(clip):
  """plain gradient descent: the step is the (clipped) gradient times the
  learning rate, for arbitrary gradients."""

  def inputs(d):
    return dict(g=real(d.n, gen=lambda rs, s: (rs.choice(
        [.1, 3.]) * rs.randn(*s)).astype(np.float32)), p=real(d.n))

  def body(G, d, I):
    opt = _load('train').build_optimizer(_opt_conf('sgd', clip, None, .5))
    up, _ = opt.update(I.g, opt.init(I.p), I.p)
    f = 1.
    if clip:
      norm = jnp.sqrt(jnp.sum(I.g * I.g))
      f = jnp.where(norm < clip, 1., clip / norm)
    G.eq('C21.step = - learning rate x clipped gradient', up, -.5 * f * I.g)

  return Obligation(
      'train/optimizer/%s' % ('clip' if clip else 'plain'), dict(n=1), inputs,
      body, props=('C21',), deadline=20, under=[
          LF + 'train.py:build_optimizer'], samples=10, tol=1e-4, strict=True,
      concrete_dims=[dict(n=3), dict(n=1)])


def optimizers():
  """every configuration against the optax transformations it names."""

  def body(G, d, I):
    import optax  # pylint: disable=import-outside-toplevel
    if H.MODE.symbolic:
      raise ContractMismatch('enumerated')
    train = _load('train')
    rs = np.random.RandomState(H.MODE.seed)
    for name in (None, 'adam', 'adamw', 'lamb', 'sgd'):
      for clip in (None, 0., .7):
        for decay in (None, .2):
          got = train.build_optimizer(_opt_conf(name, clip, decay, .3))
          kw = dict(weight_decay=decay or 0.) if name in (
              None, 'adamw', 'lamb') else {}
          ref = getattr(optax, name or 'adamw')(.3, **kw)
          p = dict(a=jnp.asarray(rs.randn(3), jnp.float32), b=jnp.asarray(
              rs.randn(2, 2), jnp.float32))
          q, sg, sr = p, got.init(p), ref.init(p)
          for _ in range(3):
            g = {k: jnp.asarray(rs.choice([.1, 2.]) * rs.randn(*v.shape),
                                jnp.float32) for k, v in p.items()}
            n = np.sqrt(sum(float(jnp.sum(v * v)) for v in g.values()))
            h = g if not clip or n < clip else {
                k: v * (clip / n) for k, v in g.items()}
            u, sg = got.update(g, sg, p)
            w, sr = ref.update(h, sr, q)
            p, q = optax.apply_updates(p, u), optax.apply_updates(q, w)
          for k in p:
            G.eq('C21.optimizer as configured', p[k], q[k])

  return Obligation(
      'train/optimizer/configured', {}, lambda d: dict(z=real()), body,
      props=('C21',), under=[LF + 'train.py:build_optimizer'], strict=True,
      tol=1e-3, samples=2, concrete_dims=[{}],
      bounded='30 configurations, 3 steps each',
      trusted=['optax transformations'])


# ---------------------------------------------------- replay buffer, data mean
def replay():

  def inputs(d):
    return dict(z=integer(0, 10 ** 6))

  def body(G, d, I):
    rb = _load('replay_buffer')
    n = lambda s: 'C21.' + s
    if H.MODE.symbolic:
      raise ContractMismatch('numpy random draws: bounded check only')
    st = np.random.get_state()
    try:
      np.random.seed(int(I.z) % (2 ** 31))
      for size, batch, shape in ((6, 3, (4,)), (5, 5, (2, 3)), (9, 1, (2,))):
        data = np.random.binomial(1, .4, size=(7,) + shape)
        for freq in (0., 1.):
          b = rb.ReplayBuffer(_conf(buffer_size=size, reinit_freq=freq), data)
          old = np.array(b.buffer)
          G.true(n('buffer of the configured size'), jnp.asarray(
              old.shape == (size,) + shape and np.isin(old, (0, 1)).all()))
          x, ix = b.sample(batch)
          ix = np.asarray(ix)
          G.true(n('distinct entries of the buffer'), jnp.asarray(
              len(set(ix.tolist())) == batch and ix.min() >= 0 and
              ix.max() < size))
          G.true(n('samples are valid states'), jnp.asarray(
              x.shape == (batch,) + shape and np.isin(x, (0, 1)).all()))
          if freq == 0.:
            G.true(n('without restarts the entries themselves'), jnp.asarray(
                (x == old[ix]).all()))
          G.true(n('sampling leaves the buffer alone'), jnp.asarray(
              (b.buffer == old).all()))
          new = 1 - np.asarray(x)
          b.update(new, list(ix))
          keep = np.setdiff1d(np.arange(size), ix)
          G.true(n('update writes exactly the sampled entries'), jnp.asarray(
              (b.buffer[ix] == new).all() and (
                  b.buffer[keep] == old[keep]).all()))
      # laws: entry frequencies, restart share
      data = np.stack([np.ones(300), np.zeros(300), np.arange(300) % 2], 1)
      b = rb.ReplayBuffer(_conf(buffer_size=4000, reinit_freq=.25), data)
      f = b.buffer.mean(0)
      G.true(n('entries follow the data mean'), jnp.asarray(
          abs(f[0] - .99) < .015 and abs(f[1] - .01) < .015 and
          abs(f[2] - .5) < .06))
      b.buffer[:] = np.array([0, 1, 0])
      x, _ = b.sample(4000)
      r = (x[:, 0] == 1).mean(), (x[:, 1] == 0).mean()
      G.true(n('configured share of restarts'), jnp.asarray(
          abs(r[0] - .2475) < .05 and abs(r[1] - .2475) < .05 and
          (x[:, 0] + x[:, 1] == 1).mean() > .95))
    finally:
      np.random.set_state(st)

  return Obligation(
      'train/replay', {}, inputs, body, props=('C21',), samples=6,
      under=[LF + 'replay_buffer.py:ReplayBuffer.' + f for f in (
          '__init__', 'sample', 'update')],
      bounded='buffers up to 9 entries, numpy draws from seeds; laws from 4000 '
      'draws (> 7 sigma)', concrete_dims=[{}])


def data_mean():

  def inputs(d):
    return dict(z=integer(0, 10 ** 6))

  def body(G, d, I):
    train = _load('train')
    if H.MODE.symbolic:
      raise ContractMismatch('numpy data: bounded check only')
    r = np.random.RandomState(int(I.z) % (2 ** 31))
    for m, sh in ((1, (2, 2, 1)), (5, (3, 2, 1)), (9, (4, 1, 1))):
      im = r.randint(0, 256, size=(m,) + sh)
      im[:, 0, 0] = 0
      im[:, 1, 0] = 255
      ds = [dict(image=types.SimpleNamespace(_numpy=lambda v=v: v))
            for v in im]
      got = np.asarray(train.get_data_mean(iter(ds)))
      want = np.clip(im.reshape(m, -1).mean(0) / 255, .01, .99)
      G.true('C21.data mean per pixel, within [0.01, 0.99]', jnp.asarray(
          got.shape == want.shape and np.abs(got - want).max() < 1e-4))

  return Obligation(
      'train/data mean', {}, inputs, body, props=('C21',), samples=4,
      under=[LF + 'train.py:get_data_mean'], concrete_dims=[{}],
      bounded='data sets of 1, 5 and 9 images')


def obligations(tier):
  obs = [update(k, f, v) for k in ('ebm', 'rbm') for f, v in (
      (False, 1), (True, 1), (False, 2))]
  obs += [pcd(k, s) for k in ('ebm', 'rbm') for s in (1, 2, 3)]
  obs += [start(), loop(3, 0, 4), loop(4, 1, 2), loop(2, 2, 1)]
  obs += [rate(k) for k in ('constant', 'updown', 'up_exp_down')]
  obs += [optimizer(0.), optimizer(.7), optimizers()]
  obs += [replay(), data_mean()]
  return obs
