"""Metropolis-Hastings samplers under contract (involutive MCMC form).

For every target (uninterpreted log-density / gradient), every state, every
outcome r of the proposal's draws:

  y   = state reached when the proposal is accepted
  r'  = the reverse draws; running the real step at y with r' must return x
  L   = LL(y) - LL(x) + log q(r'|y) - log q(r|x)

where both proposal densities are read off the distributions that the real
code hands to the random generator in the two runs.  The contract: the step
returns y exactly when log u < L, otherwise x.
"""
import jax.numpy as jnp
import numpy as np

import blackbox
import harness as H
from common import *  # pylint: disable=wildcard-import

SF = 'discs/samplers/'


class Scenario:
  """one sampler configuration."""

  def __init__(self, name, sampler, C, shape=('n',), dims=None, kw=None,
               draws_in=None, provide=None, reverse=None, dens=None,
               assume=None, calls=4, state=(), mask=None, steps_inc=1,
               frame=None, irrelevant=None, indep=True, under=(),
               concrete=None, radius=None, extra=None, prep=None,
               repair=None, coupled=False):
    self.__dict__.update(locals())

  def shapes(self, d):
    return tuple(getattr(d, s) if isinstance(s, str) else s for s in self.shape)

  def cat(self, d):
    return getattr(d, self.C) if isinstance(self.C, str) else self.C

  def inputs(self, d):
    sh = self.shapes(d)
    C = self.cat(d)
    b = d.b if hasattr(d, 'b') else self.kw.get('_b', 1)
    ins = dict(key=key(), x=(bit(b, *sh) if C == 2 else
                             integer(0, C - 1, b, *sh)))
    ins['u'] = uniform01(b)
    ins['calls'] = integer(0, 10**6)
    ins['steps'] = integer(1, 10**6)
    if 'radius' in self.state:
      ins['radius'] = real(gen=lambda rs, s: np.float32(
          rs.choice([1.0, 1.4, 2.6, 2.4])))
    if 'log_tau' in self.state:
      ins['log_tau'] = real(gen=lambda rs, s: np.float32(-1 + 0.5 * rs.randn()))
      ins['log_z'] = real()
    if self.mask:
      n = size_of(sh)
      ins['mask'] = bit(*((b, n) if self.mask == 'bn' else (n,)),
                        gen=_mask_gen)
    ins.update(self.draws_in(d, b, sh, C))
    if H.MODE.wants('C05'):  # the other chains of a second, unrelated run
      for k in ['x', 'u'] + list(self.draws_in(d, b, sh, C)):
        v = ins[k]
        ins[k + '_o'] = H.Decl(v.shape, v.kind, v.lo, v.hi, v.gen, v.pos)
    return ins

  def body(self, G, d, I):
    sh, C = self.shapes(d), self.cat(d)
    b = I.x.shape[0]
    kw = {k: v for k, v in (self.kw or {}).items() if not k.startswith('_')}
    if kw.get('balancing_fn_type') == 'ANY':
      kw['balancing_fn_type'] = any_balance()
    smp = build_sampler(self.sampler, C, sh, **kw)
    M = AnyModel(seed=getattr(H.MODE, 'seed', 0), C=C, rank=len(sh))
    mask = I.mask if self.mask else None
    state = {'num_ll_calls': I.calls, 'steps': I.steps}
    for k in self.state:
      state[k] = getattr(I, k)
    names = [k for k in self.draws_in(d, b, sh, C)]
    r = {k: getattr(I, k) for k in names}
    if self.prep is not None:
      r = self.prep(I, r)

    def run(x, u, r):
      with callee_contracts(), draws(self.provide(r, u)) as log:
        nx, ns, acc = smp.step(M, I.key, x, {}, dict(state), x_mask=mask) \
            if mask is not None else smp.step(M, I.key, x, {}, dict(state))
      return nx, ns, acc, log

    if self.assume is not None:
      for nm, c in self.assume(I, r, d, C):
        G.assume(nm, c)
    zero = jnp.zeros_like(I.u)
    y, _, _, lf = run(I.x, zero, r)
    rr = self.reverse(I.x, y, r, C)
    xb, _, _, lb = run(y, zero, rr)
    G.eq('C01.reverse move returns to x', xb, I.x)
    L = (M.forward({}, y) - M.forward({}, I.x) + self.dens(lb, rr)
         - self.dens(lf, r))
    u = I.u
    if not H.MODE.symbolic:
      # replay: put u on either side of the threshold
      Lc = np.clip(np.asarray(L, np.float64), -60, 0)
      side = (np.arange(b) + H.MODE.seed) % 3
      uu = np.where(side == 0, np.exp(Lc - 0.05), np.where(
          side == 1, np.minimum(np.exp(Lc + 0.05), 1.0), np.asarray(I.u)))
      # stay clear of ties caused by rounding
      near = np.abs(np.log(uu + 1e-30) - np.asarray(L, np.float64)) < 0.01
      uu = np.where(near, np.exp(Lc - 0.05), uu)
      u = jnp.asarray(uu, jnp.float32)
    nx, ns, acc, lg = run(I.x, u, r)
    ex = tuple(range(1, 1 + len(sh)))
    take_y = jnp.expand_dims(jnp.log(u) < L, ex)
    G.eq('C01.accepts exactly when log u < L', nx, jnp.where(take_y, y, I.x))
    G.eq('C03.reported acceptance = mean min(1,e^L)', acc,
         jnp.mean(jnp.minimum(1.0, jnp.exp(L))))
    G.true('C03.result is the proposal or the current state',
           (nx == y) | (nx == I.x))
    # result in range: lemma from the next two (x is in range)
    G.true('C04.result is the proposal or the current state',
           (nx == y) | (nx == I.x))
    if not H.MODE.symbolic:
      G.true('C04.result in range', (nx >= 0) & (nx <= C - 1))
    G.true('C04.proposal in range', (y >= 0) & (y <= C - 1))
    G.eq('C04.shape', jnp.zeros(nx.shape), jnp.zeros(I.x.shape))
    if self.frame is not None:
      for nm, cond in self.frame(I, y, nx, r, d, C):
        G.true('C04.' + nm, cond)
    if H.MODE.wants('C05'):
      G.keys('C05.draws use distinct keys', [e.key for e in lg.entries])
      G.true('C05.every chain has its own random draws', jnp.asarray(
          not any(getattr(e, 'shared', False) for e in lg.entries)))
    if H.MODE.wants('C05') and not self.coupled:
      # chain 0 with all other chains replaced
      first = {k: jnp.arange(b) == 0 for k in ('x', 'u') + tuple(r)}

      def mix(k, v):
        w = getattr(I, k + '_o')
        if k in r and w.shape != v.shape:
          w = jnp.reshape(w, v.shape)
        return jnp.where(jnp.reshape(first[k], (b,) + (1,) * (v.ndim - 1)),
                         v, w)

      r2 = {k: mix(k, v) for k, v in r.items()}
      nx2, _, _, _ = run(mix('x', I.x), mix('u', u), r2)
      G.eq('C05.a chain does not depend on the other chains', nx2[0], nx[0])
    G.eq('C06.energy-call counter', ns['num_ll_calls'], I.calls + self.calls)
    G.eq('C06.step counter', ns['steps'], I.steps + self.steps_inc)
    if self.extra is not None:
      self.extra(G, d, I, L, ns, smp, sh, C, lg, acc)
    if self.irrelevant is not None:
      r2 = self.irrelevant(I, r)
      y2, _, _, _ = run(I.x, zero, r2)
      G.eq('C01.unused draws do not matter', y2, y)
    return L

  def obligation(self):
    dims = dict(self.dims)
    return Obligation(
        self.name, dims, self.inputs, self.body,
        under=[SF + u for u in self.under],
        concrete_dims=self.concrete or [dict(b=3, n=4, C=3), dict(b=1, n=3, C=4)],
        deadline=200, props=('C01', 'C03', 'C04', 'C05', 'C06'),
        blackbox=self.blackbox, repair=self.repair)

  def blackbox(self, seed):
    """one real step from the exact target, sizes fixed (bounded)."""
    C = 2 if self.C == 2 else 3
    n = 4 if self.C == 2 else 3
    sh = (n,) if len(self.shape) == 1 else ((2, 2) if n == 4 else (1, 3))
    kw = {k: v for k, v in (self.kw or {}).items() if not k.startswith('_')}
    if kw.get('balancing_fn_type') == 'ANY':
      kw['balancing_fn_type'] = BALANCE[seed % 4]
    st = {}
    if 'radius' in self.state:
      st['radius'] = 2.0
    if 'log_tau' in self.state:
      st = dict(log_tau=-1.0, log_z=0.5, steps=1)
    mask = None
    if self.mask:
      mask = np.ones((n,), np.int32)
    mk = lambda: build_sampler(self.sampler, C, sh, **kw)
    bad = blackbox.stationarity(mk, C, n, seed, mask=mask, state=st, shape=sh)
    if H.MODE.wants('C05') and not self.coupled:
      bad += blackbox.independence(mk, C, n, seed, mask=mask, state=st,
                                   shape=sh)
    return bad


def never_drawn(G, name, lp, out):
  """entries of a log-probability table (b, n) that must not be drawn: the
  masked ones (mask 0 there)."""
  if H.MODE.symbolic:
    G.eq(name, jnp.where(out, jnp.exp(lp), 0.), 0.)
  else:
    G.true(name, (lp < -1e4) | jnp.logical_not(out))


def masked(I, lp):
  m = jnp.reshape(I.mask, (1, -1)) if I.mask.ndim == 1 else I.mask
  return jnp.broadcast_to(m == 0, lp.shape)


def _mask_gen(rs, shape):
  m = (rs.rand(*shape) < 0.7).astype(np.int32)
  m[..., 0] = 1
  m[..., -1] = 1
  return m


# --------------------------------------------------------------------------
def clip_radius(G, d, I, L, ns, smp, sh, C, lg, acc):
  t = 0.574
  G.eq('C06.radius adapts toward the target rate within [1,dim]', ns['radius'],
       jnp.minimum(jnp.maximum(I.radius + acc - t, 1.0), dimval(size_of(sh))))


def keep_radius(G, d, I, L, ns, smp, sh, C, lg, acc):
  G.eq('C06.radius untouched', ns['radius'], I.radius)


def rw(name, C, shape, dims, adaptive, conc):
  def din(d, b, sh, CC):
    return dict(flip=bit(b, *sh), val=integer(1, CC - 1, b, *sh))

  def dens(log, r):
    e = log.of('bernoulli')[0]
    q = log.of('randint')[0].params
    lo, hi = q['minval'], q['maxval']
    w = dimval(hi - lo) if not hasattr(hi - lo, 'shape') else hi - lo
    return rowsum(bern_logdensity(e, r['flip'])) - rowsum(
        jnp.log(w) * jnp.ones(r['flip'].shape))

  def extra(G, d, I, L, ns, smp, sh, C, lg, acc):
    (clip_radius if adaptive else keep_radius)(G, d, I, L, ns, smp, sh, C, lg, acc)
    e = lg.of('bernoulli')[0]
    G.eq('C06.flip probability = radius/dim', e.params['p'],
         I.radius / dimval(size_of(sh)))
    q = lg.of('randint')[0].params
    G.eq('C04.every other category reachable (low)', q['minval'], 1)
    G.eq('C04.every other category reachable (high)', q['maxval'], C)
    if not adaptive:
      G.eq('C03.state acceptance rate', ns['acceptance_rate'], jnp.mean(
          (jnp.log(u_of(lg)) < L).astype(jnp.float32)))

  return Scenario(
      name, 'randomwalk', C, shape, dims, dict(adaptive=adaptive), din,
      lambda r, u: supply_seq(bernoulli=r['flip'], randint=r['val'], uniform=u),
      lambda x, y, r, CC: dict(flip=r['flip'], val=CC - r['val']),
      dens, calls=2, state=('radius',), steps_inc=0, concrete=conc, extra=extra,
      frame=lambda I, y, nx, r, d, CC: [
          ('coordinates not selected stay', (y == I.x) | (r['flip'] == 1))],
      under=['randomwalk.py:RandomWalkSampler.step',
             'randomwalk.py:RandomWalkSampler.sample_from_proposal',
             'randomwalk.py:%s.select_sample' %
             ('AdaptiveRWSampler' if adaptive else 'RWSampler'),
             '../common/math_util.py:mh_step',
             '../common/math_util.py:bernoulli_logp'])


def u_of(lg):
  return lg.of('uniform')[0].value


LBU = ['locallybalanced.py:LocallyBalancedSampler.select_sample',
       'locallybalanced.py:LocallyBalancedSampler.apply_weight_function_logscale',
       '../common/math_util.py:mh_step', '../common/math_util.py:bernoulli_logp']


def gwg_bin(name, shape, dims, nf, bal, mask, conc):
  def din(d, b, sh, C):
    return dict(idx=integer(0, size_of(sh) - 1, b, nf))

  def prov(r, u):
    return supply_seq(categorical=jnp.transpose(r['idx']), uniform=u)

  def dens(log, r):
    e = log.of('categorical')[0]
    return jnp.sum(cat_logdensity(e, jnp.transpose(r['idx'])), axis=0)

  def assume(I, r, d, C):
    if not mask:
      return []
    m = I.mask if mask == 'bn' else jnp.broadcast_to(
        I.mask, (I.x.shape[0],) + I.mask.shape)
    return [('masked-out entries have probability 0 (never drawn) %d' % k,
             take(m, r['idx'][:, k]) == 1) for k in range(nf)]

  def frame(I, y, nx, r, d, C):
    yf = jnp.reshape(y, (y.shape[0], -1))
    xf = jnp.reshape(I.x, (y.shape[0], -1))
    n = yf.shape[1]
    hit = (jnp.arange(n) == r['idx'][:, :1])
    for k in range(1, nf):
      hit = hit | (jnp.arange(n) == r['idx'][:, k:k + 1])
    return [('only drawn coordinates are flipped', (yf == xf) | hit)]

  def extra(G, d, I, L, ns, smp, sh, C, lg, acc):
    lp = lg.of('categorical')[0].params['logits']
    lp = lp[0] if lp.ndim == 3 else lp
    never_drawn(G, 'C04.masked-out coordinates are never drawn', lp,
                masked(I, lp))

  return Scenario(
      name, 'gwg', 2, shape, dims, dict(num_flips=nf, balancing_fn_type=bal),
      din, prov, lambda x, y, r, C: r, dens, assume, mask=mask, concrete=conc,
      frame=frame, repair=repair_idx(True) if mask else None,
      extra=extra if mask else None,
      under=['gwg.py:GibbsWithGradSampler.step',
             'gwg.py:GibbsWithGradSampler.select_sample',
             'gwg.py:BinaryGWGSampler.get_dist_at',
             'gwg.py:BinaryGWGSampler.sample_from_proposal',
             'gwg.py:BinaryGWGSampler.get_ll_onestep',
             '../common/math_util.py:multinomial'] + LBU)


def gwg_adapt(name, shape, dims, bal, conc):
  def din(d, b, sh, C):
    return dict(cnt=integer(0, 5, b, size_of(sh)))

  def prov(r, u):
    return supply_seq(mn_count=r['cnt'], uniform=u)

  def dens(log, r):
    e = log.of('mn_count')[0]
    return jnp.sum(e.params['log_prob'] * r['cnt'], -1)

  def extra(G, d, I, L, ns, smp, sh, C, lg, acc):
    clip_radius(G, d, I, L, ns, smp, sh, C, lg, acc)
    e = lg.of('mn_count')[0]
    G.eq('C06.number of draws = radius rounded into [1,dim]', e.params['num'],
         jnp.clip(jnp.round(I.radius).astype(jnp.int32), 1, size_of(sh)))
    lp = e.params['log_prob']
    G.eq('C01.multinomial receives normalised log-probabilities', lse(lp),
         jnp.zeros(lp.shape[:1]))

  def frame(I, y, nx, r, d, C):
    yf = jnp.reshape(y, (y.shape[0], -1))
    xf = jnp.reshape(I.x, (y.shape[0], -1))
    return [('only drawn coordinates are flipped', (yf == xf) | (r['cnt'] > 0))]

  return Scenario(
      name, 'gwg', 2, shape, dims, dict(adaptive=True, balancing_fn_type=bal),
      din, prov, lambda x, y, r, C: r, dens, concrete=conc, state=('radius',),
      extra=extra, frame=frame,
      under=['gwg.py:GibbsWithGradSampler.step',
             'gwg.py:AdaptiveGWGSampler.select_sample',
             'gwg.py:AdaptiveGWGSampler.sample_from_proposal',
             'gwg.py:AdaptiveGWGSampler.get_ll_onestep',
             'gwg.py:BinaryGWGSampler.get_dist_at'] + LBU)


def gwg_cat(name, C, shape, dims, bal, conc):
  def din(d, b, sh, CC):
    return dict(pos=integer(0, size_of(sh) - 1, b), val=integer(0, CC - 1, b))

  def flat(r, C):
    return r['pos'] * C + r['val']

  holder = {}

  def prov(r, u):
    return supply_seq(categorical=(r['pos'] * r['C'] + r['val'])[None],
                      uniform=u)

  def dens(log, r):
    e = log.of('categorical')[0]
    return cat_logdensity(e, (r['pos'] * r['C'] + r['val'])[None])[0]

  def xat(x, pos):
    return take(jnp.reshape(x, (x.shape[0], -1)), pos)

  def extra(G, d, I, L, ns, smp, sh, CC, lg, acc):
    lp = lg.of('categorical')[0].params['logits']
    lp = lp[0] if lp.ndim == 3 else lp
    xf = jnp.reshape(I.x, (I.x.shape[0], -1))
    lp = jnp.reshape(lp, xf.shape + (CC,))
    never_drawn(G, 'C01.the current value is never drawn', lp,
                xf[..., None] == jnp.arange(CC))

  sc = Scenario(
      name, 'gwg', C, shape, dims, dict(balancing_fn_type=bal), din,
      None, None, None, concrete=conc, extra=extra, repair=repair_idx(False, 'pos'),
      assume=lambda I, r, d, CC: [('current value has probability 0',
                                   xat(I.x, r['pos']) != r['val'])],
      frame=lambda I, y, nx, r, d, CC: [
          ('only the drawn coordinate changes',
           (jnp.reshape(y, (y.shape[0], -1)) == jnp.reshape(
               I.x, (y.shape[0], -1))) | (
                   jnp.arange(size_of(I.x.shape[1:])) == r['pos'][:, None]))],
      under=['gwg.py:GibbsWithGradSampler.step',
             'gwg.py:CategoricalGWGSampler.get_dist_at',
             'gwg.py:CategoricalGWGSampler.sample_from_proposal',
             'gwg.py:CategoricalGWGSampler.get_ll_onestep',
             'gwg.py:CategoricalGWGSampler.select_sample',
             '../common/math_util.py:multinomial'] + LBU)

  def CV():
    return sc._C

  sc.provide = lambda r, u: prov(dict(r, C=CV()), u)
  sc.dens = lambda log, r: dens(log, dict(r, C=CV()))

  def rev(x, y, r, CC):
    return dict(pos=r['pos'], val=xat(x, r['pos']).astype(jnp.int32))

  sc.reverse = rev
  ob_body = sc.body

  def body(G, d, I):
    sc._C = sc.cat(d)
    return ob_body(G, d, I)

  sc.body = body
  return sc


def rate_log_z(I, smp, C, sh):
  """log of the total locally balanced rate, averaged over the chains."""
  M = AnyModel(seed=getattr(H.MODE, 'seed', 0), C=C, rank=len(sh))
  x = I.x if C == 2 and isinstance(C, int) else (
      I.x[..., None] == jnp.arange(C)).astype(jnp.float32)
  _, g = M.get_value_and_grad({}, x)
  x = x.astype(jnp.float32)
  if isinstance(C, int) and C == 2:
    delta = (1 - 2 * x) * g
  else:
    delta = g - jnp.sum(g * x, -1, keepdims=True)
  with callee_contracts():
    w = smp.apply_weight_function_logscale(delta)
  z = jnp.log(jnp.sum(rowsum(jnp.exp(w))) / dimval(I.x.shape[0]))
  return z


class FirstStep:
  """the first step of DMALA / DLMC: the step size is set from the rates at
  the current states, whatever the state holds (C06)."""

  def __init__(self, sc, reset=3, schedule=10, n=3):
    self.sc, self.reset, self.schedule, self.n = sc, reset, schedule, n
    self.name = sc.name

  def body(self, G, d, I):
    sc = self.sc
    sh, C = sc.shapes(d), sc.cat(d)
    kw = {k: v for k, v in sc.kw.items()}
    if kw.get('balancing_fn_type') == 'ANY':
      kw['balancing_fn_type'] = any_balance()
    smp = build_sampler(sc.sampler, C, sh, **kw)
    M = AnyModel(seed=getattr(H.MODE, 'seed', 0), C=C, rank=len(sh))
    r = {k: getattr(I, k) for k in sc.draws_in(d, I.x.shape[0], sh, C)}

    def run(steps, tau):
      state = {'num_ll_calls': I.calls, 'steps': steps, 'log_tau': tau,
               'log_z': I.log_z}
      with callee_contracts(), draws(sc.provide(r, I.u)):
        return smp.step(M, I.key, I.x, {}, state)

    z = rate_log_z(I, smp, C, sh)
    tau = jnp.log(jnp.float32(self.n)) - z
    nx, ns, acc = run(jnp.zeros_like(I.steps), I.log_tau)
    wx, ws, wacc = run(I.steps, tau)
    G.eq('C06.first move uses the initial step size', nx, wx)
    G.eq('C06.first acceptance uses the initial step size', acc, wacc)
    G.eq('C06.first step is counted', ns['steps'], 1)
    G.eq('C06.first energy calls are counted', ns['num_ll_calls'], I.calls + 4)
    if kw['adaptive']:
      if self.schedule > 1:
        lz = z
      elif self.reset > 0:
        lz = z if self.reset == 1 else I.log_z
      else:
        lz = z
      G.eq('C06.first rate normaliser estimate', ns['log_z'], lz)
      n = jnp.exp(I.log_tau + lz) + 3 * (acc - 0.574)
      G.eq('C06.first log_tau update', ns['log_tau'],
           jnp.maximum(jnp.log(n) - lz, -lz))
    else:
      G.eq('C06.initial step size is kept', ns['log_tau'], tau)

  def obligation(self):
    o = self.sc.obligation()
    return Obligation(
        self.sc.name, dict(self.sc.dims), self.sc.inputs, self.body,
        under=o.under, concrete_dims=self.sc.concrete, deadline=200,
        props=('C06',))


def tau_extra(kind, adaptive, co_opt, reset=3):
  """adaptation of the step size (DMALA / DLMC)."""

  def extra(G, d, I, L, ns, smp, sh, C, lg, acc):
    G.eq('C06.log_tau finite type', jnp.zeros(ns['log_tau'].shape), jnp.zeros(()))
    if not adaptive or co_opt:
      G.eq('C06.log_tau unchanged when not adapting', ns['log_tau'], I.log_tau)
      G.eq('C06.log_z unchanged when not adapting', ns['log_z'], I.log_z)
      return
    z = rate_log_z(I, smp, C, sh)
    step = I.steps + 1
    renew = step % reset == 0 if reset > 0 else step == 1
    keep = jnp.where(renew, z, I.log_z)
    lz = jnp.where(step < 10, z, keep)
    n = jnp.exp(I.log_tau + lz) + 3 * (acc - 0.574)
    G.eq('C06.rate normaliser estimate', ns['log_z'], lz)
    G.eq('C06.log_tau update', ns['log_tau'],
         jnp.maximum(jnp.log(n) - lz, -lz))

  return extra


def langevin(name, sampler, C, shape, dims, bal, adaptive, co_opt, conc,
             **kw):
  binary = C == 2

  def din(d, b, sh, CC):
    return dict(flip=bit(b, *sh)) if binary else dict(
        v=integer(0, CC - 1, b, *sh))

  def prov(r, u):
    return supply_seq(bernoulli=r['flip'], uniform=u) if binary else supply_seq(
        categorical=r['v'], uniform=u)

  def dens(log, r):
    if binary:
      return rowsum(bern_logdensity(log.of('bernoulli')[0], r['flip']))
    return rowsum(cat_logdensity(log.of('categorical')[0], r['v']))

  def rev(x, y, r, CC):
    return r if binary else dict(v=x)

  def frame(I, y, nx, r, d, CC):
    if binary:
      return [('only drawn coordinates are flipped', (y != I.x) ==
               (r['flip'] == 1))]
    return [('proposal takes the drawn values', y == r['v'])]

  cls = ('BinaryDMALA' if binary else 'CategoricalDMALA') if (
      sampler == 'dmala') else ('BinaryDLMC' if binary else 'CategoricalDLMC')
  base = 'DMALASampler' if sampler == 'dmala' else 'DLMCSampler'
  f = sampler + '.py:'
  return Scenario(
      name, sampler, C, shape, dims,
      dict(adaptive=adaptive, balancing_fn_type=bal,
           experiment=dict(co_opt_prob=co_opt), **kw),
      din, prov, rev, dens, concrete=conc, state=('log_tau', 'log_z'),
      coupled=adaptive and co_opt,  # the step size is a batch statistic there
      frame=frame, extra=tau_extra(sampler, adaptive, co_opt, kw.get('reset_z_est', 3)),
      under=[f + base + '.step', f + base + '.get_value_and_rates',
             f + base + '.select_sample', f + base + '.update_sampler_state',
             f + base + '.reset_stats', f + cls + '.get_dist_at',
             f + cls + '.sample_from_proposal', f + cls + '.get_ll_onestep']
      + LBU)


def pafs_const(name, C, shape, dims, nf, bal, mask, approx, conc):
  binary = C == 2

  def din(d, b, sh, CC):
    r = dict(idx=integer(0, size_of(sh) - 1, b, nf, gen=_distinct))
    if not binary:
      r['val'] = integer(0, CC - 1, b, nf)
    return r

  def prov(r, u):
    return supply_seq(mn_idx=r['idx'], uniform=u, **(
        {} if binary else {'categorical': r['val']}))

  def dens(log, r):
    e = log.of('mn_idx')[0]
    lp = e.params['log_prob']
    ll = jnp.stack([take(lp, r['idx'][:, j]) for j in range(nf)], -1)
    g = jnp.sum(seq_ll(ll), -1)
    if not binary:
      g = g + jnp.sum(cat_logdensity(log.of('categorical')[0], r['val']), -1)
    return g

  def rev(x, y, r, CC):
    ri = jnp.stack([r['idx'][:, nf - 1 - j] for j in range(nf)], -1)
    if binary:
      return dict(idx=ri)
    xf = jnp.reshape(x, (x.shape[0], -1))
    return dict(idx=ri, val=jnp.stack(
        [take(xf, ri[:, j]) for j in range(nf)], -1).astype(jnp.int32))

  def assume(I, r, d, CC):
    out = []
    for i in range(nf):
      for j in range(i):
        out.append(('drawn without replacement',
                    r['idx'][:, i] != r['idx'][:, j]))
      if mask:
        m = I.mask if mask == 'bn' else jnp.broadcast_to(
            I.mask, (I.x.shape[0],) + I.mask.shape)
        out.append(('masked-out entries have probability 0',
                    take(m, r['idx'][:, i]) == 1))
      if not binary:
        xf = jnp.reshape(I.x, (I.x.shape[0], -1))
        out.append(('current value has probability 0',
                    take(xf, r['idx'][:, i]) != r['val'][:, i]))
    return out

  def frame(I, y, nx, r, d, CC):
    yf = jnp.reshape(y, (y.shape[0], -1))
    xf = jnp.reshape(I.x, (y.shape[0], -1))
    n = yf.shape[1]
    hit = (jnp.arange(n) == r['idx'][:, :1])
    for k in range(1, nf):
      hit = hit | (jnp.arange(n) == r['idx'][:, k:k + 1])
    return [('exactly the drawn coordinates change', (yf != xf) == hit)]

  def extra(G, d, I, L, ns, smp, sh, CC, lg, acc):
    keep_radius(G, d, I, L, ns, smp, sh, CC, lg, acc)
    e = lg.of('mn_idx')[0]
    lp = e.params['log_prob']
    G.eq('C01.multinomial receives normalised log-probabilities', lse(lp),
         jnp.zeros(lp.shape[:1]))
    G.eq('C06.path length', e.params['num'], nf)
    if not binary:
      lv = lg.of('categorical')[0].params['logits']
      xf = jnp.reshape(I.x, (I.x.shape[0], -1))
      for j in range(nf):
        never_drawn(G, 'C01.the current value is never drawn', lv[:, j],
                    take(xf, I.idx[:, j])[:, None] == jnp.arange(lv.shape[-1]))
    if mask:
      never_drawn(G, 'C04.masked-out coordinates are never drawn', lp,
                  masked(I, lp))

  return Scenario(
      name, 'path_auxiliary', C, shape, dims,
      dict(num_flips=nf, balancing_fn_type=bal, approx_with_grad=approx),
      din, prov, rev, dens, assume, mask=mask, concrete=conc,
      repair=repair_idx(binary),
      calls=4 if approx else 2, state=('radius',), frame=frame, extra=extra,
      under=['path_auxiliary.py:PathAuxiliarySampler.step',
             'path_auxiliary.py:PathAuxiliarySampler.select_sample',
             'path_auxiliary.py:PAFSNoReplacement.select_sample',
             'path_auxiliary.py:PAFSNoReplacement.get_local_dist',
             'path_auxiliary.py:PAFSNoReplacement.proposal',
             'path_auxiliary.py:PAFSNoReplacement.ll_y2x'] + LBU)


def repair_idx(binary, key='idx'):
  """drawn coordinates: distinct, unmasked, new value differs."""

  def f(ins, rs, d):
    x = ins['x'].reshape(len(ins['x']), -1)
    m = ins.get('mask')
    n = x.shape[1]
    C = int(getattr(d, 'C', 2))
    idx = ins[key].reshape(len(x), -1)
    out = np.zeros_like(idx)
    for i in range(len(x)):
      ok = np.ones(n) if m is None else (m if m.ndim == 1 else m[i])
      cand = np.flatnonzero(ok)
      if len(cand) < idx.shape[1]:
        return ins
      out[i] = rs.permutation(cand)[:idx.shape[1]]
    ins[key] = out.reshape(ins[key].shape)
    if not binary:
      cur = np.take_along_axis(x, out, 1)
      ins['val'] = ((cur + rs.randint(1, C, size=cur.shape)) % C).astype(
          np.int32).reshape(ins['val'].shape)
    return ins

  return f


def repair_val(ins, rs, d):
  C = int(d.C)
  for k in ('val', 'val2'):
    ins[k] = ((ins['x'] + rs.randint(1, C, size=ins['x'].shape)) % C).astype(
        np.int32)
  return ins


def _distinct(rs, shape):
  hi = max(shape[-1], 3)
  return np.stack([rs.permutation(hi)[:shape[-1]] for _ in range(shape[0])]
                  ).astype(np.int32)


def pafs_adapt(name, C, shape, dims, bal, mask, approx, conc):
  binary = C == 2

  def din(d, b, sh, CC):
    n = size_of(sh)
    r = dict(sel=bit(b, n), order=real(b, n, distinct=True))
    if not binary:
      r['val'] = integer(0, CC - 1, b, *sh, gen=None)
      r['val2'] = integer(0, CC - 1, b, *sh)
    return r

  def prov(r, u):
    return supply_seq(mn_mask=[lambda p, s: (r['sel'], r['order'])], uniform=u,
                      **({} if binary else {'categorical': r['val']}))

  def dens(log, r):
    e = log.of('mn_mask')[0]
    lp = e.params['log_prob']
    sel, order = r['sel'], r['order']
    g = jnp.sum(sel * (lp - jnp.log(1 - before(sel, order, lp))), -1)
    if not binary:
      g = g + jnp.sum(sel * cat_logdensity(log.of('categorical')[0], r['val']),
                      -1)
    return g

  def rev(x, y, r, CC):
    o = dict(sel=r['sel'], order=-r['order'])
    if not binary:
      xf = jnp.reshape(x, (x.shape[0], -1))
      o['val'] = jnp.where(r['sel'] == 1, xf, r['val'])
      o['val2'] = r['val2']
    return o

  def assume(I, r, d, CC):
    out = []
    if not binary:
      out.append(('current value has probability 0', I.x != I.val))
    return out

  def prep(I, r):
    r = dict(r)
    if mask:  # masked-out entries have probability 0: never selected
      r['sel'] = r['sel'] * I.mask
    if not binary:
      for k in ('val', 'val2'):
        r[k] = jnp.reshape(r[k], (I.x.shape[0], -1))
    return r

  def frame(I, y, nx, r, d, CC):
    yf = jnp.reshape(y, (y.shape[0], -1))
    xf = jnp.reshape(I.x, (y.shape[0], -1))
    return [('exactly the drawn coordinates change',
             (yf != xf) == (r['sel'] == 1))]

  def extra(G, d, I, L, ns, smp, sh, CC, lg, acc):
    clip_radius(G, d, I, L, ns, smp, sh, CC, lg, acc)
    e = lg.of('mn_mask')[0]
    lp = e.params['log_prob']
    G.eq('C01.multinomial receives normalised log-probabilities', lse(lp),
         jnp.zeros(lp.shape[:1]))
    G.eq('C06.path length = radius rounded into [1,dim]', e.params['num'],
         jnp.clip(jnp.round(I.radius).astype(jnp.int32), 1, size_of(sh)))
    if not binary:
      lv = lg.of('categorical')[0].params['logits']
      xf = jnp.reshape(I.x, (I.x.shape[0], -1))
      never_drawn(G, 'C01.the current value is never drawn', lv,
                  xf[..., None] == jnp.arange(lv.shape[-1]))
    if mask:
      never_drawn(G, 'C04.masked-out coordinates are never drawn', lp,
                  masked(I, lp))

  def irrelevant(I, r):
    if binary:
      return r
    return dict(r, val=jnp.where(r['sel'] == 1, r['val'], r['val2']))

  return Scenario(
      name, 'path_auxiliary', C, shape, dims,
      dict(adaptive=True, balancing_fn_type=bal, approx_with_grad=approx),
      din, prov, rev, dens, assume, mask=mask, concrete=conc, prep=prep,
      repair=None if binary else repair_val,
      calls=4 if approx else 2, state=('radius',), frame=frame, extra=extra,
      irrelevant=None if binary else irrelevant,
      under=['path_auxiliary.py:PathAuxiliarySampler.step',
             'path_auxiliary.py:PathAuxiliarySampler.select_sample',
             'path_auxiliary.py:PAFSNoReplacement.select_sample',
             'path_auxiliary.py:PAFSNoReplacement.get_local_dist',
             'path_auxiliary.py:PAFSNoReplacement.proposal',
             'path_auxiliary.py:PAFSNoReplacement.ll_y2x'] + LBU)


CD = [dict(b=3, n=4, C=3), dict(b=2, n=5, C=4), dict(b=1, n=3, C=3)]
CD2 = [dict(b=3, h=2, w=3, C=3), dict(b=1, h=3, w=2, C=4)]
BN = {'b': 2, 'n': 3}
BNC = {'b': 2, 'n': 3, 'C': 3}
BHW = {'b': 2, 'h': 2, 'w': 2}
BHWC = {'b': 2, 'h': 2, 'w': 2, 'C': 3}


def scenarios(tier='quick'):
  S = []
  A = 'ANY'
  for ad in (False, True):
    a = '/adaptive' if ad else ''
    S.append(rw('rw/binary' + a, 2, ('n',), BN, ad, CD))
    S.append(rw('rw/categorical' + a, 'C', ('n',), BNC, ad, CD))
  S.append(rw('rw/categorical/2d', 'C', ('h', 'w'), BHWC, True, CD2))
  S.append(gwg_bin('gwg/binary/1flip', ('n',), BN, 1, A, None, CD))
  S.append(gwg_bin('gwg/binary/2flips', ('n',), BN, 2, A, None, CD))
  S.append(gwg_bin('gwg/binary/mask', ('n',), BN, 1, A, 'n', CD))
  S.append(gwg_bin('gwg/binary/mask/chainwise', ('n',), BN, 2, A, 'bn', CD))
  S.append(gwg_bin('gwg/binary/2d', ('h', 'w'), BHW, 1, A, None, CD2))
  S.append(gwg_cat('gwg/categorical', 'C', ('n',), BNC, A, CD))
  S.append(gwg_cat('gwg/categorical/2d', 'C', ('h', 'w'), BHWC, A, CD2))
  S.append(gwg_adapt('gwg/adaptive', ('n',), BN, A, CD))
  S.append(gwg_adapt('gwg/adaptive/2d', ('h', 'w'), BHW, A, CD2))
  for smp in ('dmala', 'dlmc'):
    for C, dims, nm in ((2, BN, 'binary'), ('C', BNC, 'categorical')):
      for ad, co in ((False, False), (True, False), (True, True)):
        S.append(langevin('%s/%s%s%s' % (
            smp, nm, '/adaptive' if ad else '', '/co' if co else ''),
            smp, C, ('n',), dims, A, ad, co, CD))
    S.append(langevin('%s/binary/2d' % smp, smp, 2, ('h', 'w'), BHW, A,
                      True, False, CD2))
    S.append(langevin('%s/categorical/2d' % smp, smp, 'C', ('h', 'w'), BHWC,
                      A, True, False, CD2))
    for r in (-1, 1, 2):
      S.append(langevin('%s/binary/reset%d' % (smp, r), smp, 2, ('n',), BN, A,
                        True, False, CD, reset_z_est=r))
  S.append(langevin('dlmc/binary/euler', 'dlmc', 2, ('n',), BN, A, True,
                    False, CD, solver='euler_forward'))
  S.append(langevin('dlmc/categorical/euler', 'dlmc', 'C', ('n',), BNC, A,
                    True, False, CD, solver='euler_forward'))
  for nf in (1, 2, 3):
    S.append(pafs_const('pafs/binary/%dflips' % nf, 2, ('n',), BN, nf, A,
                        None, True, CD))
  for nf in (1, 2):
    S.append(pafs_const('pafs/categorical/%dflips' % nf, 'C', ('n',), BNC, nf,
                        A, None, True, CD))
  S.append(pafs_const('pafs/binary/mask', 2, ('n',), BN, 2, A, 'n', True, CD))
  S.append(pafs_const('pafs/categorical/mask', 'C', ('n',), BNC, 1, A,
                      'n', True, CD))
  S.append(pafs_const('pafs/binary/exact', 2, ('n',), BN, 2, A, None,
                      False, CD))
  S.append(pafs_const('pafs/binary/2d', 2, ('h', 'w'), BHW, 2, A, None,
                      True, CD2))
  S.append(pafs_adapt('pafs/binary/adaptive', 2, ('n',), BN, A, None,
                      True, CD))
  S.append(pafs_adapt('pafs/binary/adaptive/2d', 2, ('h', 'w'), BHW, A, None,
                      True, CD2))
  S.append(pafs_adapt('pafs/binary/adaptive/mask', 2, ('n',), BN, A, 'n',
                      True, CD))
  S.append(pafs_adapt('pafs/binary/adaptive/exact', 2, ('n',), BN, A,
                      None, False, CD))
  S.append(pafs_adapt('pafs/categorical/adaptive', 'C', ('n',), BNC, A,
                      None, True, CD))
  S.append(pafs_adapt('pafs/categorical/adaptive/2d', 'C', ('h', 'w'), BHWC,
                      A, None, True, CD2))
  return S


SLOW = {'gwg/categorical/2d': 150, 'pafs/categorical/2flips': 900,
        'pafs/categorical/adaptive/2d': 900, 'gwg/categorical': 37,
        'pafs/categorical/1flips': 34, 'pafs/categorical/mask': 32,
        'pafs/categorical/adaptive': 38}


def first_steps():
  S = []
  A = 'ANY'
  for smp in ('dmala', 'dlmc'):
    for C, dims, nm in ((2, BN, 'binary'), ('C', BNC, 'categorical')):
      n = 'first/%s/%s' % (smp, nm)
      S.append(FirstStep(langevin(n + '/adaptive', smp, C, ('n',), dims, A,
                                  True, False, CD)))
      if smp == 'dlmc':
        S.append(FirstStep(langevin(n, smp, C, ('n',), dims, A, False, False,
                                    CD, n=5), n=5))
    for r in (-1, 1, 2):
      S.append(FirstStep(langevin(
          'first/%s/binary/reset%d' % (smp, r), smp, 2, ('n',), BN, A, True,
          False, CD, reset_z_est=r, schedule_step=0), reset=r, schedule=0))
  return S


def obligations(tier='quick'):
  out = []
  for s in scenarios(tier) + first_steps():
    cost = SLOW.get(s.name, 20)
    if cost > 500 and tier == 'quick':
      continue
    o = s.obligation()
    o.cost = cost
    out.append(o)
  return out
