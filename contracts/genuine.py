"""Whole runs of the experiment drivers with ordinary model, sampler, evaluator
and saver objects whose behaviour is known in advance (bounded, never counted
as proved).  Nothing of the driver's inner workings is assumed: only what
reaches the evaluator and the saver is compared with a simulation."""
import jax
import jax.numpy as jnp
import numpy as np

import harness as H
from graphs import quiet


def several(D):
  import driver  # pylint: disable=import-outside-toplevel
  return driver.several(D)


def w_of(i, n):
  return np.array([0.3 + 0.4 * i - 0.25 * j + 0.1 * j * j for j in range(n)],
                  np.float32)


def make(n, M=1, idx=None, ref=None, rounds=1, words=None, shape=None):
  from discs.models import abstractmodel  # pylint: disable=import-outside-toplevel
  from discs.samplers import abstractsampler  # pylint: disable=import-outside-toplevel

  class Bits(abstractmodel.AbstractModel):
    """independent bits with weights."""

    def __init__(self):
      self.shape = shape or (n,)
      self.asked = 0
      self.first = None

    def make_init_params(self, rnd):
      self.asked += 1
      if self.asked > rounds and (idx is not None or words):
        return None
      if idx is None:
        return {'params': jnp.asarray(w_of(0, n))}
      k = self.asked - 1
      return [(idx[k][i], {'params': jnp.asarray(w_of(i + k, n)),
                           'mask': jnp.asarray(mask_of(i, n))},
               float(ref[k][i])) for i in range(M)]

    def get_init_samples(self, rnd, num_samples):
      x = (np.arange(num_samples)[:, None] >> np.arange(n)[None]) % 2
      if num_samples == 1:
        x = (1 - x) if self.first is not None else x
      if self.first is None:
        self.first = x
      return jnp.asarray(x, jnp.int32).reshape((-1,) + self.shape)

    def forward(self, params, x):
      t = params.get('temperature', 1.0)
      z = x.astype(jnp.float32).reshape((-1, n))
      return t * jnp.sum(z * params['params'], -1) + jnp.sin(t) * jnp.sum(z, -1)

    def get_value_and_grad(self, params, x):
      z = x.astype(jnp.float32)
      return self.forward(params, z), jax.grad(lambda y: jnp.sum(self.forward(
          params, y)))(z)

    def evaluate(self, params, x):
      return jnp.sum(x.reshape((-1, n)) * params['params'], -1)

    def decode(self, x, params):
      return ' '.join(words[int(v)][i] for i, v in enumerate(
          np.asarray(x).reshape(-1, n)[0]))

  class Turn(abstractsampler.AbstractSampler):
    """turns one coordinate after the other; every second chain waits."""

    def __init__(self):  # pylint: disable=super-init-not-called
      pass

    def make_init_state(self, rng):
      return {'steps': jnp.ones((), jnp.int32),
              'num_ll_calls': jnp.zeros((), jnp.int32)}

    def step(self, model, rng, x, model_param, state, x_mask=None):
      s = state['steps']
      sh, x = x.shape, x.reshape((-1, n))
      move = (jnp.arange(n)[None] == s % n) & (
          (jnp.sum(x, -1, keepdims=True) + s) % 3 != 0)
      if x_mask is not None:
        move = move & (x_mask > 0)
      return (jnp.where(move, 1 - x, x).reshape(sh),
              {'steps': s + 1, 'num_ll_calls': state['num_ll_calls'] + 3},
              jnp.any(move, -1) * 1.0 + 0.25 * s + model_param.get(
                  'temperature', 0.))

  return Bits(), Turn()


def mask_of(i, n):
  m = np.ones(n, np.float32)
  if i % 2 and n > 1:
    m[-1] = 0.
  return m


def turn(x, s, mask=None):
  n = x.shape[-1]
  move = (np.arange(n) == s % n)[None] & (
      (x.sum(-1, keepdims=True) + s) % 3 != 0)
  if mask is not None:
    move = move & (mask > 0)[None]
  return np.where(move, 1 - x, x), move.any(-1) + 0.25 * s


class Saver:

  def __init__(self):
    self.got = {}

  def __getattr__(self, k):
    if not k.startswith(('save', 'dump', 'plot')):
      raise AttributeError(k)
    return lambda *a, **kw: self.got.setdefault(k, []).append((a, kw))

  def one(self, k, i=0):
    v = self.got.get(k, [])
    return v[i][0] if len(v) > i else None


def conf(name, n, **exp):
  from discs.common import configs  # pylint: disable=import-outside-toplevel
  c = configs.get_config()
  c.model.update(dict(name=name, shape=n if isinstance(n, tuple) else (n,),
                      num_categories=2,
                      data_root='root'))
  c.sampler.name = 'turn'
  c.experiment.update(exp)
  return c


def _sampling():
  from discs.experiment import sampling  # pylint: disable=import-outside-toplevel
  return sampling


class Bad(list):

  def __init__(self, P, where):
    super().__init__()
    self.P, self.where = P, where

  def saved(self, s, k, n=1):
    if len(s.got.get(k, ())) == n:
      return True
    self.append((self.P + '.results are saved once', '%s: %s called %d times, '
                 'expected %d' % (self.where, k, len(s.got.get(k, ())), n)))
    return False

  def eq(self, goal, got, want):
    got, want = np.asarray(got, np.float64), np.asarray(want, np.float64)
    if got.shape != want.shape or not np.allclose(got, want, atol=2e-3,
                                                  rtol=1e-3):
      self.append(('%s.%s' % (self.P, goal), '%s: got %s, expected %s' % (
          self.where, got.tolist(), want.tolist())))


def plane(rs, n):
  return None if rs.randint(2) else [(n, 1), (1, n), (2, n // 2)][rs.randint(
      2 + (n % 2 == 0))]


def ais(seed, D=1):
  rs = np.random.RandomState(seed)
  n, L, b = rs.randint(2, 5), rs.randint(2, 6), rs.randint(2, 4) * D
  bad = Bad('C14', '%d chains of %d bits, %d temperatures, %d devices' % (
      b, n, L, D))
  shape = plane(rs, n)
  m, t = make(n, shape=shape)
  s = Saver()
  with quiet(), several(D):
    _sampling().EBM_Experiment(conf(
        'rbm', shape or n, batch_size=b, chain_length=L)).get_results(m, t, None, s)
  x, w, W, want = m.first, w_of(0, n), np.zeros(b), []
  E = lambda v, T: T * (v @ w) + np.sin(T) * v.sum(-1)
  for k in range(1, L + 1):
    W = W + E(x, k / L) - E(x, (k - 1) / L)
    want.append(np.log(np.mean(np.exp(W))))
    x, _ = turn(x, k)
  if bad.saved(s, 'save_logz'):
    bad.eq('estimate = log mean weight', s.one('save_logz')[0], want)
  return bad


class Ess:

  def evaluate(self, samples, rnd):
    return jnp.stack([jnp.mean(samples), jnp.sum(samples * (
        1 + jnp.arange(samples.shape[-2])[:, None]) * jnp.cos(
            jnp.arange(samples.shape[-1])))])

  def get_eval_metrics(self, ess, running_time, num_ll_calls):
    return jnp.concatenate([jnp.reshape(ess, -1), jnp.stack(
        [jnp.asarray(num_ll_calls, jnp.float32)])])


def chains(seed, D=1):
  rs = np.random.RandomState(seed)
  n, L, b = rs.randint(2, 5), rs.randint(3, 8), rs.randint(1, 5) * D
  ratio = rs.choice([0.3, 0.5])
  every = rs.randint(1, 3)
  name = ['bernoulli', 'rbm', 'potts', 'resnet', 'ising', 'fhmm'][rs.randint(6)]
  bad = Bad('C16', '%s, %d chains of %d bits, %d steps, burn-in share %.1f, '
            '%d devices' % (name, b, n, L, ratio, D))
  shape = plane(rs, n)
  m, t = make(n, shape=shape)
  s = Saver()
  with quiet(), several(D):
    _sampling().Sampling_Experiment(conf(
        name, shape or n, batch_size=b, chain_length=L, ess_ratio=float(ratio),
        get_additional_metrics=True, save_samples=name in ('rbm', 'resnet'),
        get_estimation_error=name == 'bernoulli',
        save_every_steps=every)).get_results(m, t, Ess(), s)
  x, burn = m.first, int(L * ratio)
  ref = 1 - (np.arange(1)[:, None] >> np.arange(n)[None]) % 2
  acc, hop, ch, kept = [], [], [], []
  for k in range(1, L + 1):
    y, a = turn(x, k)
    acc.append(a.mean())
    hop.append(np.abs(x - y).sum() / b)
    if k > burn:
      ch.append(np.abs(y - ref).sum(-1))
    if k % every == 0:
      kept.append(y)
    x = y
  if not bad.saved(s, 'save_results'):
    return bad
  got = s.one('save_results')
  bad.eq('mean acceptance recorded', got[0], acc)
  bad.eq('mean hops recorded', got[1], hop)
  ch = np.array(ch)
  bad.eq('chain and energy calls reach the evaluator', got[2], [
      ch.mean(), (ch * (1 + np.arange(len(ch)))[:, None] * np.cos(np.arange(
          b))).sum(), 3 * L])
  if name in ('bernoulli', 'rbm', 'resnet') and bad.saved(s, 'dump_samples'):
    d = np.asarray(s.one('dump_samples')[0])
    kept = np.array(kept)
    bad.eq('shape of the dumped samples', d.shape, (len(kept), min(4, b), n))
    if d.shape == (len(kept), min(4, b), n):
      rows = {tuple(kept[:, i].reshape(-1)) for i in range(b)}
      bad.eq('dumped samples are the states of chains', [
          tuple(d[:, i].reshape(-1)) in rows for i in range(d.shape[1])],
             [True] * d.shape[1])
  if name == 'bernoulli' and bad.saved(s, 'dump_params'):
    bad.eq('parameters dumped', s.one('dump_params')[0], w_of(
        0, n).reshape(shape or (n,)))
  return bad


class CoEval:

  def evaluate(self, samples, model, params):
    return model.evaluate(params, samples)


def annealing(seed, D=1):
  rs = np.random.RandomState(seed)
  n, L = rs.randint(2, 5), rs.randint(3, 8)
  M = [1, 2, 4, 6][rs.randint(4)]
  if M > D and M % D:
    M = D
  b = rs.randint(1, 4) * (D if M < D else 1)
  every, keep = rs.randint(1, 3), bool(rs.randint(2))
  rounds = 2
  plan = ['constant', 'linear', 'exp_decay'][rs.randint(3)]
  T0, T1, rate = [float(v) for v in (1 + rs.rand(), .1 + .4 * rs.rand(),
                                     .05 + .5 * rs.rand())]
  temp = dict(constant=lambda k: T0, linear=lambda k: T0 + (T1 - T0) * k / L,
              exp_decay=lambda k: max(T1, T0 * rate ** (k / L)))[plan]
  idx = [[1 + r * M + i for i in range(M)] for r in range(rounds)]
  if M > 1:
    idx[-1][-1] = -1
  ref = 1 + rs.rand(rounds, M)
  bad = Bad('C15', '%d instances of %d bits, %d chains, %d steps, %s schedule, '
            '%d devices' % (M, n, b, L, plan, D))
  m, t = make(n, M, idx, ref, rounds)
  s = Saver()
  with quiet(), several(D):
    _sampling().CO_Experiment(conf(
        'maxcut', n, evaluator='co_eval', num_models=M, batch_size=b,
        chain_length=L, get_additional_metrics=True, log_every_steps=every,
        save_samples=keep, t_schedule=plan, init_temperature=T0,
        final_temperature=T1, decay_rate=rate)).get_results(m, t, CoEval(), s)
  if not (bad.saved(s, 'save_co_resuts', rounds) and bad.saved(
      s, 'save_results', rounds)):
    return bad
  x0 = (np.arange(M * b)[:, None] >> np.arange(n)[None]) % 2
  if 1 < D > M:  # chains of an instance: its share of every device's
    x0 = np.moveaxis(x0.reshape(D, M, b // D, n), 1, 0)
  x0 = x0.reshape(M, b, n)
  for r in range(rounds):
    if M * b == 1 and r:  # one sample asked for: see get_init_samples
      x0 = 1 - (np.arange(1)[:, None, None] >> np.arange(n)) % 2
    live = np.array(idx[r]) >= 0
    best, sols, tr, acc, hop = np.full(M, -1e9), {}, [], [], []
    x = x0
    for k in range(1, L + 1):
      ys, a = zip(*[turn(x[i], k, mask_of(i, n)) for i in range(M)])
      y = np.array(ys)
      acc.append(np.mean(a) + temp(k))
      hop.append(np.abs(x - y).sum() / b / M)
      if k % every == 0:
        for i in range(M):
          best[i] = max(best[i], (y[i] @ w_of(i + r, n)).max() / ref[r][i])
        tr.append(best[live].copy())
      x = y
    c = s.one('save_co_resuts', r)
    bad.eq('trajectory = best ratio so far', np.array([np.asarray(
        v) for v in c[0]]).reshape(len(c[0]), -1), np.array(tr).reshape(
            len(tr), -1))
    bad.eq('best ratio saved', c[1], best[live])
    if keep and tr:
      sol = np.asarray(c[3]).reshape(-1, n)
      bad.eq('number of solutions', len(sol), M)
      if len(sol) == M:
        bad.eq('saved solution attains the best ratio', [
            sol[i] @ w_of(i + r, n) / ref[r][i] for i in range(M)], best)
    elif not keep:
      bad.eq('no solution saved unless asked', len(c[3]), 0)
    q = s.one('save_results', r)
    bad.eq('mean acceptance recorded', q[0], acc)
    bad.eq('mean hops recorded', q[1], hop)
  return bad


WORDS = (('a', 'b 1', '10', 'c', 'd'), ('x', '2 y', '0', 'z', "v'"))


class Lm:

  def __init__(self):
    self.seen = []

  def evaluate(self, sents, root):
    self.seen.append((list(sents), root))
    return {'n': len(sents)}


def text(seed, D=1):
  rs = np.random.RandomState(seed)
  n, L = rs.randint(2, 5), rs.randint(1, 6)
  rep, rounds, topk = rs.choice([1, 3, 11]), rs.randint(1, 4), rs.randint(2)
  top = rs.randint(1, 5)
  bad = Bad('C17', '%d gaps, %d steps, %d resamples, %d sentences, top %d' % (
      n, L, rep, rounds, top * topk))
  m, t = make(n, rounds=rounds, words=WORDS)
  s, e = Saver(), Lm()
  with quiet():
    _sampling().Text_Infilling_Experiment(conf(
        'text_infilling', n, evaluator='lm_eval', batch_size=1,
        chain_length=L, num_same_resample=int(rep), use_topk=bool(topk),
        topk_num=int(top), run_parallel=False)).get_results(m, t, e, s)
  want = []
  for r in range(rounds):
    x = m.first if r == 0 else 1 - m.first
    for k in range(1, L + 1):
      x, _ = turn(x, k)
    want += [' '.join(WORDS[v][i] for i, v in enumerate(x[0]))] * rep
  if not e.seen:
    bad.eq('one evaluation per result', 0, 1 + topk)
    return bad
  bad.eq('all sampled sentences are evaluated as sampled', [
      e.seen[0][0] == want, e.seen[0][1] == 'root'], [True, True])
  bad.eq('one evaluation per result', len(e.seen), 1 + topk)
  if topk and len(e.seen) == 2:
    tk = []
    for r in range(rounds):
      tk += [want[r * rep]] * min(top, rep)
    bad.eq('the k most likely sentences are evaluated', e.seen[1][0] == tk,
           True)
  if bad.saved(s, 'save_lm_results'):
    r = s.one('save_lm_results')
    bad.eq('results saved', [r[0] == {'n': len(want)}, bool(r[1]) == bool(
        topk)], [True, True])
  return bad


def box(f, D):
  def run(seed):
    H.MODE.symbolic = False
    out = []
    for k in range(6):
      out += f(7 * seed + k, D)
      if out:
        break
    return out
  run.genuine = True  # nothing but genuine inputs: what it raises counts
  return run


def runs(P, f, under, devices=(1, 2, 3)):
  """bounded: the whole runs above as an obligation of their own."""
  from common import Obligation, real  # pylint: disable=import-outside-toplevel

  def body(G, d, I):
    del d, I
    bad = []
    if not H.MODE.symbolic:  # decided by the concrete runs
      for D in devices:
        bad += f(31 * getattr(H.MODE, 'seed', 0) + D, D)
    for g, detail in bad[:1]:
      G.true('%s (whole run; %s)' % (g, detail[:300]), jnp.asarray(False))
    G.true(P + '.whole runs save what a simulation predicts', jnp.asarray(
        not bad))

  return Obligation('%s/whole runs' % f.__name__, {},
                    lambda d: dict(z=real()), body,
                    under=['discs/experiment/sampling.py:' + u for u in under],
                    strict=True, props=(P,), concrete_dims=[{}], samples=4,
                    bounded='seeded short runs with a known kernel, one- and '
                            'two-dimensional states, %s device(s)' % ', '.join(
                                map(str, devices)))
