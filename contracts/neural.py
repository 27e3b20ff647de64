"""Models around a neural network: image EBM (resnet) and text infilling.  The
network is an arbitrary function (with an arbitrary derivative); what the model
makes of it is under contract (C09, C10, C13, C17)."""
import contextlib
import functools
import importlib
import json
import os
import shutil
import sys
import tempfile
import types

import jax
import jax.numpy as jnp
import numpy as np

import harness as H
from common import *  # pylint: disable=wildcard-import
from models import MF


# ------------------------------------------------------------ image EBM
@jax.custom_jvp
def _net(x, th):
  return H.opaque('NET', x, th, shape=x.shape[:1])


@_net.defjvp
def _net_jvp(p, t):
  x, th = p
  g = H.opaque('DNET', x, th, shape=x.shape)
  return _net(x, th), jnp.sum(g * t[0], axis=-1)


def net(x, th):
  x = jnp.asarray(x).astype(jnp.float32)
  if H.MODE.symbolic:
    return _net(x, th)
  n = x.shape[-1]
  r = np.random.RandomState(n)
  w1, w2 = jnp.asarray(r.randn(n), jnp.float32), jnp.asarray(
      r.randn(n), jnp.float32)
  return x @ w1 * th + jnp.sin(x @ w2 + th)


class _Net:
  """an arbitrary network in the place of the flax module."""

  def __init__(self, *a, **k):
    pass

  def apply(self, variables, x):
    return net(x, variables['params']['theta'])


def _image(shape, mean, loaded, extra=None):
  mod = importlib.import_module('discs.models.resnet')
  c = Conf(num_categories=2, shape=shape, n_channels=4, image_shape=(28, 28, 1))
  if mean is not None and not loaded:
    c.data_mean = mean
  if loaded:
    c.params = dict(extra or {}, data_mean=mean)
  old = mod.ResnetBinary
  mod.ResnetBinary = _Net
  try:
    return mod.build_model(Conf(model=c))
  finally:
    mod.ResnetBinary = old


def image(kind):
  """kind: 'plain' (network only), 'mean' (base log-density added), 'anneal'
  (interpolated by the inverse temperature), 'loaded' (mean from the file)."""
  has = kind != 'plain'

  def inputs(d):
    return dict(x=bit(d.b, d.n), th=real(), mu=uniform01(d.n),
                beta=uniform01(), other=bit(d.b, d.n))

  def spec(I, x):
    e = net(x, I.th)
    if has:
      base = jnp.sum(x * jnp.log(I.mu) + (1 - x) * jnp.log(1 - I.mu), -1)
      e = base + (I.beta * e if kind == 'anneal' else e)
    return e

  def body(G, d, I):
    P = dict(theta=I.th)
    m = _image((d.n,), I.mu if has else None, kind == 'loaded', P)
    if kind == 'anneal':
      P['temperature'] = I.beta
    xf = I.x.astype(jnp.float32)
    want = spec(I, xf)
    if H.MODE.wants('C09'):
      got = m.forward(P, I.x)
      G.eq('C09.energy of an integer state', got, want)
      G.eq('C09.energy of a float/one-hot state', m.forward(P, xf), want)
      G.eq('C09.shape', jnp.zeros(got.shape), jnp.zeros(I.x.shape[:1]))
    if H.MODE.wants('C10'):
      v, g = m.get_value_and_grad(P, I.x)
      G.eq('C10.value is the energy', v, want)
      G.eq('C10.gradient of the energy, per chain', g, jax.grad(
          lambda t: jnp.sum(spec(I, t)))(xf))

  return Obligation(
      'energy/image/' + kind, dict(b=1, n=1), inputs, body,
      props=('C09', 'C10'), deadline=60, tol=1e-3,
      under=[MF + 'resnet.py:ImageEBM.' + f for f in (
          '__init__', 'forward', 'get_value_and_grad')],
      trusted=['the network (arbitrary function of the state and its '
               'parameters, with an arbitrary derivative)'],
      concrete_dims=[dict(b=3, n=4), dict(b=1, n=1), dict(b=2, n=5)])


def image_init(kind):
  has = kind != 'plain'

  def inputs(d):
    return dict(key=key(), w=bit(d.b, d.n), mu=uniform01(d.n))

  def body(G, d, I):
    m = _image((d.n,), I.mu if has else None, kind == 'loaded')
    with draws(supply_seq(bernoulli=I.w)) as log:
      x = m.get_init_samples(I.key, I.w.shape[0])
    if len(log.entries) != 1 or log.entries[0].kind != 'bernoulli':
      raise ContractMismatch('initial samples: one Bernoulli draw expected')
    e = log.entries[0]
    G.eq('C13.shape', jnp.zeros(x.shape), jnp.zeros(I.w.shape))
    G.eq('C13.the draw is the state', x, I.w)
    G.true('C13.whole numbers', jnp.asarray(jnp.issubdtype(
        x.dtype, jnp.integer)))
    G.true('C13.every sample has its own draw', jnp.asarray(
        not getattr(e, 'shared', False)))
    G.eq('C13.each pixel with the frequency of the data', jnp.asarray(
        e.params['p'], jnp.float32) + jnp.zeros(I.w.shape), I.mu[None] + jnp.zeros(
            I.w.shape) if has else 0.5)

  def blackbox(seed):
    H.MODE.symbolic = False
    mu = jnp.array([.1, .5, .9]) if has else None
    m = _image((3,), mu, kind == 'loaded')
    x = np.asarray(m.get_init_samples(jax.random.PRNGKey(seed), 4000))
    if x.shape != (4000, 3):
      return [('C13.shape', str(x.shape))]
    if not np.isin(x, (0, 1)).all():
      return [('C13.the draw is the state', 'values %s' % np.unique(x))]
    off = np.abs(x.mean(0) - (np.array([.1, .5, .9]) if has else .5)).max()
    if off > 0.06:
      return [('C13.each pixel with the frequency of the data', str(
          x.mean(0)))]
    c = np.corrcoef(x.T) - np.eye(3)
    if np.abs(c).max() > 0.12:
      return [('C13.every sample has its own draw', str(c))]
    return []

  return Obligation(
      'init/image/' + kind, dict(b=1, n=1), inputs, body, props=('C13',),
      under=[MF + 'resnet.py:ImageEBM.get_init_samples',
             MF + 'resnet.py:BinaryImageEBM.build_init_dist'],
      blackbox=blackbox, deadline=30,
      concrete_dims=[dict(b=3, n=4), dict(b=1, n=2)])


def rbm_init(C):
  """restricted Boltzmann machine with parameters from a file: first states
  follow the data frequencies, and the parameters are the given ones."""

  def inputs(d):
    if C == 2:
      return dict(key=key(), w=bit(d.b, d.n), mu=uniform01(d.n), wt=real(d.n))
    return dict(key=key(), w=integer(0, C - 1, d.b, d.n), mu=real(
        d.n, C, pos=True, gen=_freq), wt=real(d.n))

  def make(n, mu, wt):
    mod = importlib.import_module('discs.models.rbm')
    return mod.build_model(Conf(model=Conf(
        num_categories=C, shape=(n,), num_visible=n, num_hidden=2,
        params=dict(data_mean=mu, w=wt))))

  def body(G, d, I):
    m = make(d.n, I.mu, I.wt)
    with draws(supply_seq(bernoulli=I.w, categorical=I.w)) as log:
      x = m.get_init_samples(I.key, I.w.shape[0])
    if len(log.entries) != 1 or log.entries[0].kind != (
        'bernoulli' if C == 2 else 'categorical'):
      raise ContractMismatch('initial samples: one draw expected')
    e = log.entries[0]
    G.eq('C13.shape', jnp.zeros(x.shape), jnp.zeros(I.w.shape))
    G.eq('C13.the draw is the state', x, I.w)
    G.true('C13.every sample has its own draw', jnp.asarray(
        not getattr(e, 'shared', False)))
    if C == 2:
      G.eq('C13.each site with the frequency of the data', jnp.asarray(
          e.params['p'], jnp.float32) + jnp.zeros(I.w.shape),
           I.mu[None] + jnp.zeros(I.w.shape))
    else:
      z = jnp.exp(e.params['logits'])
      z = z / jnp.sum(z, -1, keepdims=True)
      want = I.mu / jnp.sum(I.mu, -1, keepdims=True)
      sh = I.w.shape + (C,)
      G.eq('C13.each value with the frequency of the data', z + jnp.zeros(sh),
           want + jnp.zeros(sh))
    P = m.make_init_params(I.key)
    G.eq('C13.the given parameters are used', P['w'], I.wt)

  def blackbox(seed):
    H.MODE.symbolic = False
    mu = jnp.array([.1, .5, .9]) if C == 2 else jnp.array(
        [[.1, .2, .7], [.5, .3, .2], [.05, .9, .05]])
    wt = jnp.arange(3.)
    m = make(3, mu, wt)
    x = np.asarray(m.get_init_samples(jax.random.PRNGKey(seed), 4000))
    if x.shape != (4000, 3):
      return [('C13.shape', str(x.shape))]
    if not np.isin(x, np.arange(C)).all():
      return [('C13.the draw is the state', 'values %s' % np.unique(x))]
    got = x.mean(0) if C == 2 else np.stack([(x == c).mean(0) for c in range(
        C)], -1)
    if np.abs(got - np.asarray(mu)).max() > 0.06:
      return [('C13.each site with the frequency of the data', str(got))]
    if np.abs(np.corrcoef(x.T) - np.eye(3)).max() > 0.12:
      return [('C13.every sample has its own draw', str(x[:5]))]
    if not np.array_equal(m.make_init_params(jax.random.PRNGKey(0))['w'], wt):
      return [('C13.the given parameters are used', '')]
    return []

  return Obligation(
      'init/rbm/data-mean/%d' % C, dict(b=1, n=1), inputs, body,
      props=('C13',), under=[MF + 'rbm.py:' + f for f in (
          'RBM.__init__', 'RBM.get_init_samples', 'RBM.make_init_params',
          'BinaryRBM.build_init_dist' if C == 2 else
          'CategoricalRBM.build_init_dist')],
      blackbox=blackbox, deadline=30,
      concrete_dims=[dict(b=3, n=4), dict(b=1, n=2)])


def _freq(rs, s):
  p = rs.rand(*s) + .05
  return (p / p.sum(-1, keepdims=True)).astype(np.float32)


# ------------------------------------------------------------ text infilling
MASK = 103      # id of [MASK] in the BERT vocabulary


@functools.partial(jax.custom_jvp, nondiff_argnums=(5,))
def _lm(oh, ids, am, tt, pos, T_):
  C = oh.shape[-1]
  return H.anyfn('LM', [oh, ids, am, tt, pos], (1, T_, C), own=(1, 2))


@_lm.defjvp
def _lm_jvp(T_, p, t):
  oh, ids, am, tt, pos = p
  L, C = oh.shape[1:]
  J = H.anyfn('DLM', list(p), (1, T_, C, L, C), own=(1, 2, 3, 4))
  return _lm(*p, T_), jnp.sum(J * t[0][:, None, None], axis=(-2, -1))


def lm(oh, ids, am, tt, pos):
  """logits [1, T, C] of a language model: arbitrary function of the sentence
  and the encodings put in at the infill positions."""
  f = lambda v: jnp.asarray(v).astype(jnp.float32)
  oh, ids, am, tt, pos = map(f, (oh, ids, am, tt, pos))
  T_ = ids.shape[1]
  if H.MODE.symbolic:
    return _lm(oh, ids, am, tt, pos, T_)
  C = oh.shape[-1]
  r = np.random.RandomState(C)
  w = jnp.asarray(r.randn(5, C), jnp.float32)
  s = jnp.sum(oh @ w.T * (1 + jnp.arange(oh.shape[1])[None, :, None]
                          + 0.1 * pos[None, :, None]), (0, 1))      # 5
  t = jnp.cos(0.1 * ids + am + 2. * tt + jnp.arange(T_)[None])       # 1,T
  k = jnp.arange(T_, dtype=jnp.float32)[None, :, None]
  return (w[0] * jnp.sin(s[0]) + w[1] * jnp.cos(s[1] + k) +
          w[2] * t[..., None] * s[2] * .3 + w[3] * jnp.sin(k * s[3]))


class _LM:

  @classmethod
  def from_pretrained(cls, *a, **k):
    return cls()

  def __call__(self, input_ids, attention_mask=None, infill_one_hots=None,
               infill_pos=None, token_type_ids=None, **k):
    if k:
      raise ContractMismatch('language model called with ' + str(list(k)))
    return types.SimpleNamespace(logits=lm(
        infill_one_hots, input_ids, attention_mask, token_type_ids,
        infill_pos))


class _Tok:
  """tokenizer: arbitrary token ids for a sentence."""

  def __init__(self, ids, am, tt):
    self.out = dict(input_ids=ids, attention_mask=am, token_type_ids=tt)
    self.asked, self.decoded = [], []

  def __call__(self, sentence, *a, **k):
    self.asked.append(sentence)
    return dict(self.out)

  def decode(self, ids, *a, **k):
    self.decoded.append(ids)
    return 'sentence'


DATA = [dict(sentence='a b c', infill_pos=[2, 4]),
        dict(sentence='d e f', infill_pos=[3, 1, 2])]


@contextlib.contextmanager
def _text(C, data, tok, random=False):
  name = 'discs.common.customized_huggingface_flax_bert'
  put = {}
  if name not in sys.modules:
    mod = types.ModuleType(name)
    mod.FlaxBertForMaskedLM_Infilling = _LM
    put[name] = mod
  if 'transformers' not in sys.modules:
    mod = types.ModuleType('transformers')
    mod.BertTokenizer = type('BertTokenizer', (), {})
    put['transformers'] = mod
  sys.modules.update(put)
  try:
    M = importlib.import_module('discs.models.text_infilling')
  finally:
    for k in put:
      sys.modules.pop(k, None)
  old = M.BertTokenizer, M.FlaxBertForMaskedLM_Infilling
  M.BertTokenizer = types.SimpleNamespace(from_pretrained=lambda *a, **k: tok)
  M.FlaxBertForMaskedLM_Infilling = _LM
  tmp = tempfile.mkdtemp(prefix='vp_text_')
  out = sys.stdout
  try:
    with open(os.path.join(tmp, 'infilling_task.json'), 'w') as f:
      json.dump(data, f)
    sys.stdout = open(os.devnull, 'w')
    yield M.build_model(Conf(model=Conf(
        bert_model='bert', data_root=tmp, num_categories=C,
        random_init_sample=random, shape=(4,))))
  finally:
    sys.stdout.close()
    sys.stdout = out
    shutil.rmtree(tmp, ignore_errors=True)
    M.BertTokenizer, M.FlaxBertForMaskedLM_Infilling = old


def _sent(d):
  return dict(ids=integer(0, d.C - 1, 1, d.t), am=bit(1, d.t), tt=bit(1, d.t))


def _ll(I, oh, pos):
  """sum over the infill positions of the log-probability of the token there,
  given the sentence with that position masked."""
  e = onehot(jnp.asarray(MASK), oh.shape[-1])
  tot = 0.
  for i, p in enumerate(pos):
    lg = lm(jnp.concatenate([oh[:i], e[None], oh[i + 1:]])[None], I.ids, I.am,
            I.tt, pos)[0, p]
    tot = tot + jnp.sum(jax.nn.log_softmax(lg) * oh[i])
  return tot


def onehot(x, C):
  return (x[..., None] == jnp.arange(C)).astype(jnp.float32)


TF = MF + 'text_infilling.py:TextInfilling.'
TRUST = ['the language model (arbitrary logits, arbitrary derivative)',
         'the tokenizer (arbitrary token ids)']


def text_energy(pos):
  L = len(pos)

  def inputs(d):
    return dict(x=integer(0, d.C - 1, d.b, L), **_sent(d), key=key())

  def body(G, d, I):
    tok = _Tok(I.ids, I.am, I.tt)
    with _text(d.C, [dict(sentence='s', infill_pos=pos)], tok) as m:
      P = m.make_init_params(I.key)
      xf = onehot(I.x, d.C)
      spec = jax.vmap(lambda z: _ll(I, z, pos))
      want = spec(xf)
      if H.MODE.wants('C09'):
        got = m.forward(P, I.x)
        G.eq('C09.energy of an integer state', got, want)
        G.eq('C09.energy of a float/one-hot state', m.forward(P, xf), want)
        G.eq('C09.shape', jnp.zeros(got.shape), jnp.zeros(I.x.shape[:1]))
      if H.MODE.wants('C10'):
        v, g = m.get_value_and_grad(P, xf)
        G.eq('C10.value is the energy', v, want)
        G.eq('C10.gradient of the energy, per chain', g, jax.grad(
            lambda z: jnp.sum(spec(z)))(xf))

  return Obligation(
      'energy/text/%d' % L, dict(b=1, t=7, C=104), inputs, body,
      props=('C09', 'C10'), deadline=60, tol=1e-3, trusted=TRUST,
      under=[TF + f for f in ('forward', 'get_value_and_grad', 'single_forward',
                              'single_get_value_and_grad', 'make_init_params',
                              'load_dataset')],
      bounds_note='%d infill positions' % L,
      concrete_dims=[dict(b=2, t=7, C=104), dict(b=1, t=8, C=110),
                     dict(b=8, t=8, C=104)], equal=False)


def text_init(random):
  pos = [2, 4, 1]

  def inputs(d):
    return dict(w=integer(0, d.C - 1, 1, 3), u=integer(0, d.C - 1, 1, 3),
                **_sent(d), key=key())

  def body(G, d, I):
    with _text(d.C, [dict(sentence='s', infill_pos=pos)], _Tok(
        I.ids, I.am, I.tt), random) as m:
      m.make_init_params(I.key)

      def run(w):
        def prov(kind, params, shape):
          if kind == 'randint':
            return w + params['minval']
          return w if kind == 'categorical' else None

        with draws(prov) as log:
          return m.get_init_samples(I.key, 1), log

      x, log = run(I.w)
      y, _ = run(I.u)
    if len(log.entries) != 1:
      raise ContractMismatch('initial samples: one draw expected')
    e = log.entries[0]
    G.eq('C13.shape', jnp.zeros(x.shape), jnp.zeros(I.w.shape))
    G.true('C13.every site in range', (x >= 0) & (x <= dimval(d.C) - 1))
    G.true('C13.different draws give different values', (x != y) | (
        I.w == I.u))
    if e.kind == 'randint':
      G.eq('C13.as many values as categories', jnp.asarray(
          e.params['maxval'] - e.params['minval'], jnp.float32), dimval(d.C))
    elif e.kind == 'categorical':
      G.eq('C13.as many values as categories', jnp.asarray(dimval(
          e.params['logits'].shape[-1]), jnp.float32), dimval(d.C))
    else:
      raise ContractMismatch('initial samples: ' + e.kind)
    if not random:
      if e.kind != 'categorical':
        raise ContractMismatch('initial samples: ' + e.kind)
      oh = jnp.broadcast_to(onehot(jnp.asarray(MASK), d.C), (1, 3, d.C))
      want = lm(oh, I.ids, I.am, I.tt, pos)[:, jnp.array(pos)]
      l = e.params['logits']
      G.eq('C13.drawn from the language model with all gaps masked',
           jax.nn.log_softmax(l), jax.nn.log_softmax(want))

  return Obligation(
      'init/text/' + ('uniform' if random else 'model'), dict(t=7, C=104),
      inputs, body, props=('C13',), deadline=60, trusted=TRUST,
      under=[TF + f for f in ('get_init_samples', 'make_init_params')],
      bounds_note='3 infill positions, one sentence (the code asserts it)',
      concrete_dims=[dict(t=7, C=104), dict(t=9, C=120)], equal=False)


def text_decode():
  """the sentence of a state, and the data points in order."""

  def inputs(d):
    return dict(x=integer(0, d.C - 1, d.b, 2), y=integer(0, d.C - 1, d.b, 3),
                **_sent(d), key=key())

  def body(G, d, I):
    tok = _Tok(I.ids, I.am, I.tt)
    with _text(d.C, DATA, tok) as m:
      for n, (dat, x) in enumerate(zip(DATA, (I.x, I.y))):
        P = m.make_init_params(I.key)
        G.true('C17.every data point in its turn', jnp.asarray(
            P is not None and tok.asked[-1:] == [dat['sentence']]
            and len(tok.asked) == n + 1))
        if P is None:
          return
        for k, v in (('input_ids', I.ids), ('attention_mask', I.am),
                     ('token_type_ids', I.tt)):
          G.eq('C17.the data point is the tokenised sentence', P[k], v)
        s = m.decode(x, P)
        G.true('C17.the decoded sentence is returned', jnp.asarray(
            s == 'sentence' and len(tok.decoded) == n + 1))
        got = jnp.asarray(tok.decoded[-1])
        want = I.ids[0]
        for i, p in enumerate(dat['infill_pos']):
          want = jnp.where(jnp.arange(d.t) == p, x[0, i], want)
        G.eq('C17.decoded: the sentence with the sampled words put in', got,
             want[1:-1])
      G.true('C17.every data point in its turn', jnp.asarray(
          m.make_init_params(I.key) is None))

  return Obligation(
      'text/decode', dict(b=1, t=7, C=104), inputs, body, props=('C17',),
      deadline=60, trusted=TRUST,
      under=[TF + f for f in ('decode', 'make_init_params', 'load_dataset')],
      bounds_note='two data points with 2 and 3 infill positions',
      concrete_dims=[dict(b=2, t=7, C=104), dict(b=1, t=8, C=110),
                     dict(b=8, t=8, C=104)], equal=False)


def obligations(tier):
  obs = [image(k) for k in ('plain', 'mean', 'anneal', 'loaded')]
  obs += [image_init(k) for k in ('plain', 'mean', 'loaded')]
  obs += [rbm_init(2), rbm_init(3)]
  obs += [text_energy(p) for p in ([3], [4, 2], [1, 5, 2])]
  obs += [text_init(r) for r in (False, True)]
  obs.append(text_decode())
  return obs
