"""CO_Experiment: annealing schedule, best solution tracking (C15)."""
import types

import flax
import jax
import jax.numpy as jnp
import numpy as np

import genuine
import harness as H
from common import *  # pylint: disable=wildcard-import
from driver import F, Recorder, Rule, config, environment

class CoRecorder(Recorder):
  """M problem instances; objective of a state = uninterpreted function of
  the state and its own instance."""

  idx = (4, 7, 0, 2)
  rounds = 1

  def make_init_params(self, rng):
    self.asked = getattr(self, 'asked', 0) + 1
    if self.asked > self.rounds:
      return None
    return [(self.idx[i], flax.core.freeze({
        'w': self.I.w[i], 'mask': self.I.mask[i]}), self.I.ref[i])
            for i in range(self.models)]

  def get_init_samples(self, rng, num_samples):
    self.inits.append((rng, num_samples))
    return jnp.reshape(self.I.x0, (-1,) + self.shape)

  def evaluate(self, samples, model, params):
    del model
    return self.obj(samples, params['w'], params['mask'])

  def obj(self, x, w, mask):
    if H.MODE.symbolic:
      return H.anyfn('OBJ', [x, w, mask], x.shape[:1], lead=[(0,), (), ()],
                     own=())
    return jnp.sum(x * w * (1 + mask), -1) + 0.1 * jnp.sin(3. * jnp.sum(x, -1))


def between(lo, hi):
  return lambda rs, s: np.asarray(lo + (hi - lo) * rs.rand(*s), np.float32)


def temperature(kind, k, L, I):
  if kind == 'constant':
    return I.t0
  if kind == 'linear':
    return I.t0 + (I.t1 - I.t0) * (k / L)
  return jnp.maximum(I.t0 * jnp.power(RATE, k / L), I.t1)


RATE = 0.25


class CoRule(Rule):

  def temperature(self, i):
    return jnp.zeros(self.lay)  # whatever was left by the previous iteration


def annealing(kind, save, hit, dummy=False, name='maxcut', M=2, D=1, P='C15'):
  """M instances on D devices: a device has M / D instances, or (M < D) all
  instances and its share of their chains."""
  label = 'co/%s%s%s%s%s' % (kind, '/save' if save else '', '' if hit else
                             '/no-log', '/dummy' if dummy else '',
                             '' if name == 'maxcut' else '/' + name)
  if D > 1:
    label += '/%d instance%s on %d devices' % (M, 's'[:M - 1], D)
  split = 1 < D > M
  lay = (M,) if D == 1 else (D, M) if split else (D, M // D)
  each = lambda f: jax.vmap(jax.vmap(f)) if D > 1 else jax.vmap(f)

  def here(v):
    """per instance -> where the instance is."""
    v = jnp.asarray(v)
    return (jnp.stack([v] * D) if split else
            jnp.reshape(v, lay + tuple(v.shape[1:])))

  def by_model(v):
    """-> [instance, chain, ...]."""
    if split:
      v = jnp.swapaxes(v, 0, 1)
    if D == 1:
      return v
    return jnp.reshape(v, (M, -1) + tuple(v.shape[3:]))

  every = 1 if hit else 2

  def inputs(d):
    def ratio(rs, s):
      return np.float32(rs.choice([0., 0.3, 0.5, 0.99, 1.]))
    return dict(key=key(), rng=key(), x0=bit(*lay, d.b, d.n),
                x=bit(*lay, d.b, d.n),
                w=real(M, d.n), mask=bit(M, d.n), ref=real(M, pos=True, gen=between(0.5, 3.)),
                s=integer(0, 99, *lay), l=integer(0, 99, *lay),
                s0=integer(0, 99), l0=integer(0, 99),
                best=real(M), bs=real(M, d.n), k=integer(1, d.L),
                k2=integer(1, d.L), t0=real(pos=True, gen=between(0.1, 2.)),
                t1=real(pos=True, gen=between(0.01, 0.5)),
                ratio=real(gen=ratio))

  def body(G, d, I):
    rec = CoRecorder(d, I, (d.n,), M)
    B = D * d.b if split else d.b
    if dummy:
      rec.idx = (4, -1)
    rec.idx = rec.idx[:M]
    live = np.array(rec.idx) >= 0
    rule = CoRule(G, P, dict(x=I.x, best=I.best, bs=I.bs, state={
        'steps': I.s, 'num_ll_calls': I.l}, rng=I.rng), [I.k, I.k2], hit=hit)
    rule.lay = lay
    g = lambda n: '%s.%s' % (P, n)
    with environment(rule, I.key, D) as mod:
      e = mod.CO_Experiment(config(dict(
          chain_length=1, batch_size=1, evaluator='co_eval', num_models=M,
          run_parallel=D > 1), dict(shape=(1,))))
      sym = H.MODE.symbolic
      e.config = Conf(**dict(
          e.config.to_dict(), chain_length=d.L, batch_size=B,
          ess_ratio=I.ratio if sym else float(I.ratio), t_schedule=kind,
          init_temperature=I.t0 if sym else float(I.t0),
          final_temperature=I.t1 if sym else float(I.t1), decay_rate=RATE,
          save_samples=save, get_additional_metrics=True,
          log_every_steps=every))
      e.config_model = Conf(shape=(d.n,), name=name)
      if not sym:
        rec.rounds = 2
      e.get_results(rec, rec, rec, rec)
    ref = jnp.ones(M) if name == 'mis' else I.ref
    if sorted(rec.saved) != ['save_co_resuts', 'save_results']:
      raise ContractMismatch('results saved: %s' % list(rec.saved))
    (chain, best, rt, bs), _ = rec.saved['save_co_resuts'][-1]
    (accs, hops, _, _), _ = rec.saved['save_results'][-1]
    G.eq(g('as many chains as configured'), dimval(rec.inits[0][1]), dimval(
        M * B))
    keep = save or name == 'normcut'
    nb = dimval(B)
    hop = lambda a, b: jnp.sum(jnp.abs(a - b).astype(
        jnp.float32)) / nb / float(M)
    objs = jax.vmap(rec.obj)
    if not H.MODE.symbolic:
      L = int(d.L)
      burn = int(L * float(I.ratio))
      G.eq(g('every batch of instances is run'), len(
          rec.saved['save_co_resuts']), rec.rounds)
      G.eq(g('one transition per step'), len(rec.calls), L * rec.rounds)
      G.eq(g('running time is that of the mixing steps'), rt, L - burn)
      G.eq(g('no solution saved unless asked'), bool(len(bs)), bool(keep))
      if len(rec.calls) != L * rec.rounds or (len(bs) > 0) != keep:
        return
      x, ks, logged = I.x0, [], 0
      st = {'steps': jnp.full(lay, I.s0), 'num_ll_calls': jnp.full(lay, I.l0)}
      cur = np.full(M, -1e9)
      sols = np.zeros((M, d.n))
      for k, c in enumerate(rec.calls[-L:], 1):
        G.eq(g('transition starts from the current state'), c['x'], x)
        G.eq(g('temperature follows the schedule'), c['t'], jnp.full(
            lay, temperature(kind, k, L, I)))
        G.eq(g('transition uses its own instance'), c['w'], here(I.w))
        G.eq(g('transition gets the mask'), c['mask'], here(I.mask))
        for q in st:
          G.eq(g('sampler state is threaded'), c['state'][q], st[q])
        nx = c['nx']
        if k % every == 0:
          mx = by_model(nx)
          o = np.array(objs(mx, I.w, I.mask)) / np.array(ref)[:, None]
          for m in range(M):
            if o[m].max() > cur[m]:
              cur[m] = o[m].max()
              sols[m] = np.array(mx[m, o[m].argmax()])
          if logged < len(chain):
            G.eq(g('trajectory = best ratio so far'), chain[logged], cur[live])
          logged += 1
        if k <= len(accs):
          G.eq(g('mean acceptance recorded'), accs[k - 1], jnp.mean(c['acc']))
          G.eq(g('mean hops recorded'), hops[k - 1], hop(x, nx))
        ks.extend(list(jnp.reshape(c['rng'], (-1, 2))))
        x, st = nx, c['ns']
      G.eq(g('metrics recorded at every step'), [len(accs), len(hops)], [L, L])
      G.eq(g('one trajectory entry per logging step'), len(chain), logged)
      G.eq(g('best ratio saved'), best, cur[live])
      if keep and logged:
        G.eq(g('saved solution attains the best ratio'), objs(
            jnp.asarray(bs, jnp.int32)[:, None], I.w, I.mask)[:, 0] / ref, cur)
      G.keys(g('every step and instance has its own key'), ks)
      return
    if len(rule.cuts) != 2:
      raise ContractMismatch('%d loops' % len(rule.cuts))
    c0, c1 = rule.cuts
    burn = jnp.floor(dimval(d.L) * I.ratio) + 1
    val = lambda v: v if hasattr(v, 'aval') else dimval(v)
    G.eq(g('burn-in runs from 1'), val(c0.lo), 1.)
    G.eq(g('burn-in runs to its length'), val(c0.hi), burn)
    G.eq(g('mixing starts after burn-in'), val(c1.lo), burn)
    G.eq(g('mixing runs to the chain length'), val(c1.hi), dimval(d.L) + 1)
    en = rule.entry[0]
    want = {'x', 'best', 'state'} | ({'bs'} if keep else set())
    for hv in rule.havoc:
      if set(hv) - {'rng', 'bs'} != want - {'bs'} or (
          keep and hit and 'bs' not in hv and 'bs' in want):
        raise ContractMismatch('loop variables %s' % sorted(hv))
    if len(rec.calls) != 2:
      raise ContractMismatch('%d transitions' % len(rec.calls))
    G.eq(g('entry: initial samples'), en['x'], I.x0)
    G.eq(g('entry: no solution yet'), en['best'], jnp.full((M,), -1e9))
    G.eq(g('entry: sampler state'), en['state']['steps'], jnp.full(lay, I.s0))
    for i in range(2):
      hv, ex, k = rule.havoc[i], rule.exit[i], rule.step[i]
      n = lambda s, i=i: g('%s (%s)' % (s, ('burn-in', 'mixing')[i]))
      if i == 1:
        # the second loop starts where the first one ended
        for r in ('x', 'best', 'bs'):
          if r in hv and r in rule.entry[1] and r in rule.exit[0]:
            G.eq(n('carried over: ' + r), rule.entry[1][r], rule.exit[0][r])
        for q in ('steps', 'num_ll_calls'):
          G.eq(n('carried over: sampler state'), rule.entry[1]['state'][q],
               rule.exit[0]['state'][q])
      T = jnp.ones(lay) * temperature(kind, k, dimval(d.L), I)
      G.eq(n('temperature follows the schedule'), ex['temperature'], T)
      fr = rec.calls[i]['rng']
      nx, ns, acc = each(rec.kernel)(fr, hv['x'], T, here(I.w), here(I.mask),
                                     hv['state'])
      G.eq(n('x_k = kernel of the own instance'), ex['x'], nx)
      for q in ns:
        G.eq(n('sampler state is threaded'), ex['state'][q], ns[q])
      frs = [fr[j] for j in np.ndindex(*lay)]
      for f in frs:
        G.fresh(n('every step has its own key'), f, k, hv.get('rng'),
                ex.get('rng'))
      if len(frs) > 1:
        G.keys(n('instances have their own keys'), frs)
      ls = [l for l in rule.lists[i].values() if l]
      if hit:
        mx = by_model(nx)
        o = objs(mx, I.w, I.mask)
        r = jnp.max(o, -1) / ref
        nb_ = jnp.maximum(hv['best'], r)
        G.eq(n('best ratio = largest so far'), ex['best'], nb_)
        if keep:
          j = jnp.argmax(o, -1)
          sel = jnp.stack([mx[m][j[m]] for m in range(M)]).astype(jnp.float32)
          G.eq(n('solution of the best ratio kept'), ex['bs'], jnp.where(
              (r > hv['best'])[:, None], sel, hv['bs']))
      else:
        G.eq(n('best ratio unchanged'), ex['best'], hv['best'])
        if 'bs' in hv and 'bs' in ex:
          G.eq(n('solution unchanged'), ex['bs'], hv['bs'])
      if any(len(l) != 1 for l in ls) or len(ls) != (3 if hit else 2):
        raise ContractMismatch('lists %s' % [len(l) for l in ls])
      lists = [l[0] for l in ls]
      sc = [l for l in lists if l.ndim == 0]
      if len(sc) != 2:
        raise ContractMismatch('metrics')
      if i == 1:
        G.eq(n('mean acceptance recorded'), accs[-1], jnp.mean(acc))
        G.eq(n('mean hops recorded'), hops[-1], hop(hv['x'], nx))
        if hit:
          G.eq(n('trajectory = best ratio so far'), chain[-1], nb_[live])
          G.eq(n('best ratio saved'), best, nb_[live])
    G.eq(g('running time is that of the mixing steps'), rt, 1.)

  return Obligation(label, dict(b=1, n=1, L=1), inputs, body,
                    blackbox=genuine.box(genuine.annealing, D),
                    under=[F + 'CO_Experiment.' + u for u in (
                        '_compute_chain', 'get_results',
                        '_initialize_model_and_sampler', '_vmap_evaluator',
                        '_build_temperature_schedule',
                        '_initialize_chain_vars')] + [
                            F + 'Experiment.' + u for u in (
                                '_get_chains_and_evaluations', 'preprocess',
                                '_prepare_data', '_compile_fns', '_get_hop')] +
                    ['discs/common/utils.py:tree_stack'],
                    props=(P,), concrete_dims=[
                        dict(b=3, n=4, L=4), dict(b=1, n=2, L=5),
                        dict(b=2, n=1, L=1)], deadline=150 if D > 1 else 60)


def obligations(tier='quick'):
  return [annealing('constant', True, True), annealing('linear', False, True),
          annealing('exp_decay', False, True, name='mis'),
          annealing('linear', True, False),
          annealing('linear', True, True, dummy=True),
          annealing('constant', False, True, name='normcut'),
          annealing('linear', True, True, M=2, D=2),
          annealing('constant', False, True, M=4, D=2),
          annealing('exp_decay', True, True, M=1, D=2),
          annealing('linear', True, True, M=2, D=3),
          genuine.runs('C15', genuine.annealing, [
              'CO_Experiment.get_results'])]
