"""Sampling_Experiment and Text_Infilling_Experiment: chains (C16)."""
import types

import jax
import jax.numpy as jnp
import numpy as np

import genuine
import harness as H
import loops
from common import *  # pylint: disable=wildcard-import
from driver import F, Recorder, Rule, config, environment, rows

SAVED = 4


def saved(b):
  return min(SAVED, b) if isinstance(b, int) else SAVED


class ChainRecorder(Recorder):

  def make_init_params(self, rng):
    p = {'w': self.I.w}
    p['params'] = self.I.w
    return p

  def get_init_samples(self, rng, num_samples):
    self.inits.append((rng, num_samples))
    return jnp.reshape(self.I.x0 if len(self.inits) == 1 else self.I.ref,
                       (-1,) + self.shape)

  # ---- evaluator
  def evaluate(self, samples, rnd):
    self.evaluated = rows(samples)
    if H.MODE.symbolic:
      return H.anyfn('ESS', [samples], (2,))
    return jnp.array([1.5, 0.25]) * jnp.mean(samples)

  def get_eval_metrics(self, ess, running_time, num_ll_calls):
    self.metrics = (ess, running_time, num_ll_calls)
    return ('metrics', ess, running_time, num_ll_calls)


def burn_ratio(rs, s):
  return np.float32(rs.choice([0., 0.3, 0.5, 0.99, 1.]))


def sampling(name, hit, D=1, P='C16'):
  """name: model name; decides which samples are dumped; D: devices."""
  par = D > 1
  on = (D,) if par else ()
  each = jax.vmap if par else (lambda f: f)
  spread = (lambda v: jnp.stack([jnp.asarray(v)] * D)) if par else (lambda v: v)
  join = lambda v: jnp.reshape(v, (-1,) + tuple(v.shape[2:])) if par else v
  save = name in ('rbm', 'resnet')
  est = name == 'bernoulli'
  every = 1 if hit else 2

  def inputs(d):
    return dict(key=key(), rng=key(), x0=bit(*on, d.b, d.n),
                x=bit(*on, d.b, d.n), ref=bit(1, d.n), w=real(d.n),
                s=integer(0, 99, *on), l=integer(0, 99, *on), s0=integer(0, 99), l0=integer(0, 99),
                k=integer(1, d.L), k2=integer(1, d.L),
                sel=integer(0, D * d.b - 1, saved(D * d.b)), ratio=real(gen=burn_ratio))

  def body(G, d, I):
    rec = ChainRecorder(d, I, (d.n,))
    B = D * d.b
    rule = Rule(G, P, dict(x=I.x, state={
        'steps': I.s, 'num_ll_calls': I.l}, rng=I.rng), [I.k, I.k2], hit=hit)
    g = lambda n: '%s.%s' % (P, n)
    sym = H.MODE.symbolic
    picks = []

    def choice(key, a, shape=(), replace=True, p=None, axis=0):
      picks.append((a, shape, replace, p))
      return I.sel

    saved = jax.random.choice
    jax.random.choice = choice
    try:
      with environment(rule, I.key, D) as mod:
        e = mod.Sampling_Experiment(config(dict(
            chain_length=1, batch_size=1, num_models=1, run_parallel=par),
                                           dict(shape=(1,))))
        e.config = Conf(**dict(
            e.config.to_dict(), chain_length=d.L, batch_size=B,
            ess_ratio=I.ratio if sym else float(I.ratio), save_samples=save,
            get_estimation_error=est, get_additional_metrics=True,
            save_every_steps=every))
        e.config_model = Conf(shape=(d.n,), name=name)
        e.get_results(rec, rec, rec, rec)
    finally:
      jax.random.choice = saved
    if len(rec.inits) != 2:
      raise ContractMismatch('%d initial draws' % len(rec.inits))
    if len(rec.saved.get('save_results', ())) != 1:
      raise ContractMismatch('results saved: %s' % list(rec.saved))
    (accs, hops, metrics, rt), _ = rec.saved['save_results'][0]
    G.eq(g('as many chains as configured'), dimval(rec.inits[0][1]), dimval(
        B))
    G.eq(g('one reference sample'), dimval(rec.inits[1][1]), 1.)
    G.eq(g('metrics of the evaluator saved'), metrics[1], rec.metrics[0])
    G.eq(g('running time saved'), rt, rec.metrics[1])
    dumped = rec.saved.get('dump_samples', [])
    if len(dumped) != (1 if save or est else 0):
      G.eq(g('samples dumped when asked'), len(dumped), int(save or est))
      return
    dumped = list(dumped[0][0][0]) if dumped else []
    if est:
      G.eq(g('parameters dumped'), rec.saved['dump_params'][0][0][0], I.w)
    if picks:
      G.true(g('saved chains picked without replacement'), jnp.asarray(
          all(p[3] is None and not p[2] for p in picks)))
    nb = dimval(B)
    hop = lambda a, b: jnp.sum(jnp.abs(a - b).astype(jnp.float32)) / nb
    dist = lambda x: jnp.sum(jnp.abs(join(x) - I.ref).astype(jnp.float32), -1)
    chain = rec.evaluated[0] if par else rec.evaluated
    if not sym:
      L = int(d.L)
      burn = int(L * float(I.ratio))
      G.eq(g('one transition per step'), len(rec.calls), L)
      G.eq(g('running time is that of the mixing steps'), rt, L - burn)
      G.eq(g('chain holds the mixing steps only'), len(chain), L - burn)
      if len(rec.calls) != L or len(chain) != L - burn:
        return
      x, ks, nd = I.x0, [], 0
      st = {'steps': spread(I.s0), 'num_ll_calls': spread(I.l0)}
      for k, c in enumerate(rec.calls, 1):
        G.eq(g('transition starts from the current state'), c['x'], x)
        G.eq(g('transition uses the model parameters'), c['w'],
             spread(I.w))
        for q in st:
          G.eq(g('sampler state is threaded'), c['state'][q], st[q])
        nx = c['nx']
        if k > burn:
          G.eq(g('chain = distance to the reference sample'),
               chain[k - burn - 1], dist(nx))
        if k <= len(accs) and k <= len(hops):
          G.eq(g('mean acceptance recorded'), accs[k - 1], jnp.mean(c['acc']))
          G.eq(g('mean hops recorded'), hops[k - 1], hop(x, nx))
        if (save or est) and k % every == 0:
          if nd < len(dumped):
            G.eq(g('dumped samples are the states of the picked chains'),
                 dumped[nd], join(nx)[I.sel])
          nd += 1
        ks.extend(list(c['rng']) if par else [c['rng']])
        x, st = nx, c['ns']
      G.eq(g('metrics recorded at every step'), [len(accs), len(hops)], [L, L])
      G.eq(g('one dump per saving step'), len(dumped), nd)
      G.eq(g('energy evaluations of the whole run'), rec.metrics[2],
           st['num_ll_calls'][0] if par else st['num_ll_calls'])
      G.keys(g('every step has its own key'), ks)
      return
    if len(rule.cuts) != 2:
      raise ContractMismatch('%d loops' % len(rule.cuts))
    c0, c1 = rule.cuts
    burn = jnp.floor(dimval(d.L) * I.ratio) + 1
    val = lambda v: v if hasattr(v, 'aval') else dimval(v)
    G.eq(g('burn-in runs from 1'), val(c0.lo), 1.)
    G.eq(g('burn-in runs to its length'), val(c0.hi), burn)
    G.eq(g('mixing starts after burn-in'), val(c1.lo), burn)
    G.eq(g('mixing runs to the chain length'), val(c1.hi), dimval(d.L) + 1)
    for hv in rule.havoc:
      if set(hv) - {'rng'} != {'x', 'state'}:
        raise ContractMismatch('loop variables %s' % sorted(hv))
    if len(rec.calls) != 2:
      raise ContractMismatch('%d transitions' % len(rec.calls))
    en = rule.entry[0]
    G.eq(g('entry: initial samples'), en['x'], I.x0)
    for q, v in (('steps', I.s0), ('num_ll_calls', I.l0)):
      G.eq(g('entry: sampler state'), en['state'][q], spread(v))
    for i in range(2):
      hv, ex, k = rule.havoc[i], rule.exit[i], rule.step[i]
      n = lambda s, i=i: g('%s (%s)' % (s, ('burn-in', 'mixing')[i]))
      if i == 1:
        G.eq(n('carried over: x'), rule.entry[1]['x'], rule.exit[0]['x'])
        for q in ('steps', 'num_ll_calls'):
          G.eq(n('carried over: sampler state'), rule.entry[1]['state'][q],
               rule.exit[0]['state'][q])
      fr = rec.calls[i]['rng']
      nx, ns, acc = each(lambda r, y, st: rec.kernel(
          r, y, 1.0, I.w, None, st))(fr, hv['x'], hv['state'])
      G.eq(n('x_k = kernel(x_k-1)'), ex['x'], nx)
      for q in ns:
        G.eq(n('sampler state is threaded'), ex['state'][q], ns[q])
      for f in ([fr[j] for j in range(D)] if par else [fr]):
        G.fresh(n('every step has its own key'), f, k, hv.get('rng'),
                ex.get('rng'))
      if par:
        G.keys(n('devices have their own keys'), [fr[j] for j in range(D)])
      got = sorted(len(l) for l in rule.lists[i].values() if l)
      want = [1, 1] + [1] * i + [1] * int((save or est) and hit)
      G.eq(n('histories grow by one entry each'), sum(got), len(want))
      if got != want:
        raise ContractMismatch('lists %s' % got)
      if i == 1:
        G.eq(n('mean acceptance recorded'), accs[-1], jnp.mean(acc))
        G.eq(n('mean hops recorded'), hops[-1], hop(hv['x'], nx))
        G.eq(n('chain = distance to the reference sample'), chain[-1],
             dist(nx))
        G.eq(n('energy evaluations of the whole run'), rec.metrics[2],
             ns['num_ll_calls'][0] if par else ns['num_ll_calls'])
        if dumped:
          G.eq(n('dumped samples are the states of the picked chains'),
               dumped[-1], join(nx)[I.sel])
    G.eq(g('running time is that of the mixing steps'), rt, 1.)
    G.eq(g('chain holds the mixing steps only'), len(chain), 1)

  return Obligation('sampling/%s%s%s' % (name, '' if hit else '/no-save',
                                      '/devices/%d' % D if par else ''),
                    dict(b=4, n=1, L=1), inputs, body,
                    blackbox=genuine.box(genuine.chains, D),
                    under=[F + 'Sampling_Experiment.' + u for u in (
                        '_compute_chain', '_initialize_chain_vars',
                        '_compile_additional_fns', '_get_mapped_samples')] + [
                            F + 'Experiment.' + u for u in (
                                'get_results', '_get_chains_and_evaluations',
                                'preprocess', '_initialize_model_and_sampler',
                                '_prepare_data', '_compile_fns', '_get_hop')],
                    props=(P,), concrete_dims=[
                        dict(b=4, n=3, L=4), dict(b=5, n=2, L=7),
                        dict(b=4, n=1, L=1), dict(b=2, n=2, L=3),
                        dict(b=1, n=2, L=2)], deadline=60)


def obligations(tier='quick'):
  return [sampling('potts', True), sampling('rbm', True),
          sampling('bernoulli', True), sampling('resnet', False),
          sampling('potts', True, 2), sampling('rbm', True, 3),
          sampling('bernoulli', True, 2)]


# ------------------------------------------------------------ text infilling
WORDS = ('a', 'b', '0', '1 ', '10', 'c d', "x''", '7')


class TextRecorder(ChainRecorder):
  """a model whose decoded sentence is a fixed function of the final state."""

  rounds = 1

  def __init__(self, *a):
    super().__init__(*a)
    self.asked = 0
    self.param_keys = []
    self.decoded = []
    self.scored = []

  def make_init_params(self, rng):
    self.asked += 1
    self.param_keys.append(rng)
    if self.asked > self.rounds:
      return None
    return {'w': self.I.w}

  def get_init_samples(self, rng, num_samples):
    self.inits.append((rng, num_samples))
    return self.I.x0

  def forward(self, params, x):
    self.scored.append(x)
    if H.MODE.symbolic:
      return H.anyfn('LL', [x, params['w']], x.shape[:1], lead=[(0,), ()],
                     own=())
    return self.energy(x, 1.0, params['w'])

  def decode(self, x, params):
    self.decoded.append(x)
    if H.MODE.symbolic:
      return 'some sentence'
    return self.text(x)

  @staticmethod
  def text(x):
    return ' '.join(WORDS[(i * 3 + int(v)) % len(WORDS)]
                    for i, v in enumerate(np.asarray(x).reshape(-1)))

  def evaluate(self, sentences, data_root):
    self.eval_args.append((list(sentences), data_root))
    return {'n': len(sentences), 'sents': list(sentences)}


def text(topk, P='C17'):

  def inputs(d):
    return dict(key=key(), rng=key(), x0=bit(1, d.n), x=bit(1, d.n),
                w=real(d.n), s=integer(0, 99), l=integer(0, 99),
                s0=integer(0, 99), l0=integer(0, 99), k=integer(1, d.L),
                k2=integer(1, d.L), ratio=real(gen=burn_ratio),
                rep=integer(1, 14, gen=lambda rs, s: np.int32(
                    rs.choice([1, 2, 5, 11, 12, 14]))),
                top=integer(1, 14, gen=lambda rs, s: np.int32(
                    rs.choice([1, 2, 4, 9, 13]))), rounds=integer(1, 3))

  def body(G, d, I):
    rec = TextRecorder(d, I, (d.n,))
    rule = Rule(G, P, dict(x=I.x, state={
        'steps': I.s, 'num_ll_calls': I.l}, rng=I.rng), [I.k, I.k2])
    g = lambda n: '%s.%s' % (P, n)
    sym = H.MODE.symbolic
    rep = 1 if sym else int(I.rep)
    top = 1 if sym else int(I.top)
    rec.rounds = 1 if sym else int(I.rounds)
    with environment(rule, I.key) as mod:
      e = mod.Text_Infilling_Experiment(config(dict(
          chain_length=1, batch_size=1, num_models=1), dict(shape=(1,))))
      e.config = Conf(**dict(
          e.config.to_dict(), chain_length=d.L, batch_size=1,
          evaluator='lm_eval', ess_ratio=I.ratio if sym else float(I.ratio),
          get_additional_metrics=True, num_same_resample=rep, use_topk=topk,
          topk_num=top))
      e.config_model = Conf(shape=(d.n,), name='text',
                           data_root='root')
      e.get_results(rec, rec, rec, rec)
    res = rec.saved.get('save_lm_results', [])
    if len(res) != 1:
      raise ContractMismatch('results saved: %s' % list(rec.saved))
    (r, rk), _ = res[0]
    if not sym:
      L = int(d.L)
      n = rec.rounds * rep
      G.eq(g('one chain per resample'), len(rec.calls), L * n)
      G.eq(g('one sentence per chain'), len(rec.decoded), n)
      if len(rec.calls) != L * n or len(rec.decoded) != n:
        return
      sents, likes, ks = [], [], []
      for c in range(n):
        x = I.x0
        st = {'steps': I.s0, 'num_ll_calls': I.l0}
        for k in rec.calls[c * L:(c + 1) * L]:
          G.eq(g('transition starts from the current state'), k['x'], x)
          for q in st:
            G.eq(g('sampler state is threaded'), k['state'][q], st[q])
          ks.append(k['rng'])
          x, st = k['nx'], k['ns']
        G.eq(g('the final state is decoded'), rec.decoded[c], x)
        sents.append(rec.text(x))
        likes.append(float(rec.energy(x, 1.0, I.w)[0]))
      G.keys(g('every step of every resample has its own key'), ks)
      G.keys(g('every sentence is set up with its own key'), [
          jnp.asarray(k).reshape(-1)[:2] for k in rec.param_keys])
      G.true(g('all sampled sentences are evaluated as sampled'),
             jnp.asarray(rec.eval_args[0][0] == sents))
      G.true(g('results saved'), jnp.asarray(
          isinstance(r, dict) and r.get('sents') == sents))
      G.eq(g('one evaluation per result'), len(rec.eval_args), 1 + topk)
      if topk and len(rec.eval_args) == 2:
        ok = True
        got = list(rec.eval_args[1][0])
        for c in range(rec.rounds):
          part = list(zip(sents, likes))[c * rep:(c + 1) * rep]
          m = min(top, rep)
          mine, got = got[:m], got[m:]
          lo = sorted(v for _, v in part)[-m:]
          # every sentence returned has one of the m highest likelihoods
          have = sorted(max(v for s, v in part if s == q) if any(
              s == q for s, _ in part) else np.nan for q in mine)
          ok = ok and len(mine) == m and np.allclose(have, lo, atol=1e-5)
        G.true(g('the k most likely sentences are evaluated'), jnp.asarray(
            bool(ok and not got)))
      return
    if len(rule.cuts) != 2 or len(rec.calls) != 2:
      raise ContractMismatch('%d loops' % len(rule.cuts))
    c0, c1 = rule.cuts
    burn = jnp.floor(dimval(d.L) * I.ratio) + 1
    val = lambda v: v if hasattr(v, 'aval') else dimval(v)
    G.eq(g('burn-in runs from 1'), val(c0.lo), 1.)
    G.eq(g('mixing starts after burn-in'), val(c0.hi), burn)
    G.eq(g('mixing starts after burn-in'), val(c1.lo), burn)
    G.eq(g('mixing runs to the chain length'), val(c1.hi), dimval(d.L) + 1)
    for hv in rule.havoc:
      if set(hv) - {'rng'} != {'x', 'state'}:
        raise ContractMismatch('loop variables %s' % sorted(hv))
    G.eq(g('entry: initial samples'), rule.entry[0]['x'], I.x0)
    for q, v in (('steps', I.s0), ('num_ll_calls', I.l0)):
      G.eq(g('entry: sampler state'), rule.entry[0]['state'][q], v)
    for i in range(2):
      hv, ex, k = rule.havoc[i], rule.exit[i], rule.step[i]
      n = lambda s, i=i: g('%s (%s)' % (s, ('burn-in', 'mixing')[i]))
      if i == 1:
        G.eq(n('carried over: x'), rule.entry[1]['x'], rule.exit[0]['x'])
        for q in ('steps', 'num_ll_calls'):
          G.eq(n('carried over: sampler state'), rule.entry[1]['state'][q],
               rule.exit[0]['state'][q])
      fr = rec.calls[i]['rng']
      nx, ns, _ = rec.kernel(fr, hv['x'], 1.0, I.w, None, hv['state'])
      G.eq(n('x_k = kernel(x_k-1)'), ex['x'], nx)
      for q in ns:
        G.eq(n('sampler state is threaded'), ex['state'][q], ns[q])
      G.fresh(n('every step has its own key'), fr, k, hv.get('rng'),
              ex.get('rng'))
      if i == 1:
        G.eq(g('the final state is decoded'), rec.decoded[-1], nx)
        if topk:
          G.eq(g('the final state is scored'), rec.scored[-1], nx)
    G.true(g('the sentence is evaluated as sampled'), jnp.asarray(all(
        a[0] == ['some sentence'] for a in rec.eval_args) and len(
            rec.eval_args) == 1 + topk))

  return Obligation('text/%s' % ('topk' if topk else 'all'), dict(n=1, L=1),
                    inputs, body, blackbox=genuine.box(genuine.text, 1),
                    under=[F + 'Text_Infilling_Experiment.' + u for u in (
                        'get_results', '_get_chains_and_evaluations',
                        '_compute_chain')],
                    props=(P,), concrete_dims=[
                        dict(n=3, L=2), dict(n=4, L=3), dict(n=5, L=1),
                        dict(n=1, L=1), dict(n=1, L=2)],
                    deadline=60, samples=6)


_sampling_obligations = obligations


def obligations(tier='quick'):
  return _sampling_obligations(tier) + [
      text(True), text(False),
      genuine.runs('C16', genuine.chains, ['Sampling_Experiment.get_results']),
      genuine.runs('C17', genuine.text, [
          'Text_Infilling_Experiment.get_results'], (1,))]
