"""Gibbs-type kernels under contract.

Gibbs / block Gibbs: for every state x, position `index` and every two
outcomes v, w of the categorical draw, with y(.) the state the real step
returns: logit(v) - LL(y(v)) = logit(w) - LL(y(w)) (the draw is from the
conditional), y(v) != y(w) when v != w (every value exactly once), y(v) = x
outside the block.

Hamming ball: with the auxiliary draws read off the real code, every state u
of the ball around x has the same probability, and the result is drawn from
the target restricted to the ball around u.
"""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

import blackbox
import harness as H
from common import *  # pylint: disable=wildcard-import

SF = 'discs/samplers/'
PROPS = ('C02', 'C04', 'C05', 'C06')


def _x(C, b, sh):
  return bit(b, *sh) if isinstance(C, int) and C == 2 else integer(
      0, C - 1, b, *sh)


class Gibbs:

  def __init__(self, name, sampler, C, shape, dims, k, conc, aligned=True):
    self.__dict__.update(locals())

  def shapes(self, d):
    return tuple(getattr(d, s) if isinstance(s, str) else s for s in self.shape)

  def inputs(self, d):
    sh = self.shapes(d)
    C = getattr(d, self.C) if isinstance(self.C, str) else self.C
    n = size_of(sh)
    K = C if self.sampler == 'gibbs' else C ** self.k
    ins = dict(key=key(), x=_x(C, d.b, sh), calls=integer(0, 10**6),
               steps=integer(0, 10**6), index=integer(0, n - 1),
               v=integer(0, K - 1, d.b), w=integer(0, K - 1, d.b))
    if H.MODE.wants('C05'):
      ins['x_o'] = _x(C, d.b, sh)
      ins['v_o'] = integer(0, K - 1, d.b)
    return ins

  def body(self, G, d, I):
    sh = self.shapes(d)
    C = getattr(d, self.C) if isinstance(self.C, str) else self.C
    k = self.k
    n = size_of(sh)
    b = I.x.shape[0]
    smp = build_sampler(self.sampler, C, sh, block_size=k)
    M = AnyModel(seed=getattr(H.MODE, 'seed', 0), C=C, rank=len(sh))
    state = dict(num_ll_calls=I.calls, steps=I.steps, index=I.index)

    def run(x, v):
      with draws(supply_seq(categorical=v)) as log:
        nx, ns, acc = smp.step(M, I.key, x, {}, dict(state))
      return nx, ns, acc, log

    if self.aligned and k > 1:
      G.assume('the block lies inside', jnp.broadcast_to(
          I.index + k <= dimval(n), (b,)))
    y, ns, acc, lv = run(I.x, I.v)
    z = run(I.x, I.w)[0] if H.MODE.wants('C02') else None
    flat = lambda t: jnp.reshape(t, (t.shape[0], -1))
    lg = lv.entries[0].params['logits']
    if H.MODE.wants('C02'):
      y0 = run(I.x, jnp.zeros_like(I.v))[0]
      G.eq('C02.drawn from the conditional', take(lg, I.v) - M.forward({}, y),
           lg[:, 0] - M.forward({}, y0))
      if not self.aligned:
        # positions past the end are dropped: every outcome has equally many
        # preimages (checked by enumeration of the k-block's assignments)
        ys = [run(I.x, jnp.full_like(I.v, j))[0] for j in range(C ** k)]
        same = lambda p, q: (jnp.sum((flat(p) != flat(q)).astype(
            jnp.int32), -1) == 0).astype(jnp.int32)
        cnt = [sum(same(p, q) for q in ys) for p in ys]
        for j in range(1, C ** k):
          G.eq('C02.equal multiplicity %d' % j, cnt[j], cnt[0])
      elif k == 1:
        at = lambda t: take(flat(t), jnp.broadcast_to(I.index, (b,)))
        G.true('C02.distinct draws give distinct values',
               (at(y) != at(z)) | (I.v == I.w))
      else:
        at = lambda t, j: take(flat(t), jnp.broadcast_to(I.index + j, (b,)))
        eqs = jnp.ones((b,), bool)
        for j in range(k):
          eqs = eqs & (at(y, j) == at(z, j))
        G.true('C02.distinct draws give distinct values',
               (~eqs) | (I.v == I.w))
    pos = jnp.arange(n)
    inside = (pos >= I.index) & (pos < I.index + k)
    for p in ('C02', 'C04'):
      G.true(p + '.only the scheduled block changes', inside | (
          flat(y) == flat(I.x)))
    G.true('C04.result in range', (y >= 0) & (y <= C - 1))
    G.eq('C04.shape', jnp.zeros(y.shape), jnp.zeros(I.x.shape))
    if H.MODE.wants('C05'):
      G.keys('C05.draws use distinct keys', [e.key for e in lv.entries])
      G.true('C05.every chain has its own random draws', jnp.asarray(
          not any(getattr(e, 'shared', False) for e in lv.entries)))
      f = jnp.arange(b) == 0
      x2 = jnp.where(jnp.reshape(f, (b,) + (1,) * len(sh)), I.x, I.x_o)
      y2 = run(x2, jnp.where(f, I.v, I.v_o))[0]
      G.eq('C05.a chain does not depend on the other chains', y2[0], y[0])
    G.eq('C06.sweep position advances cyclically', ns['index'],
         (I.index + k) % n)
    G.eq('C06.step counter', ns['steps'], I.steps + 1)
    K = C if self.sampler == 'gibbs' else C ** k
    G.eq('C06.energy-call counter', ns['num_ll_calls'],
         I.calls + (dimval(K) if not isinstance(K, int) else K))
    G.eq('C06.every Gibbs move counts as accepted', jnp.asarray(acc), 1)

  def repair(self, ins, rs, d):
    if self.aligned and self.k > 1:
      n = int(size_of(self.shapes(d)))
      ins['index'] = np.int32(min(int(ins['index']), n - self.k))
    elif not self.aligned:
      n = int(size_of(self.shapes(d)))
      ins['index'] = np.int32(n - 1 if rs.rand() < 0.6 else ins['index'])
    return ins

  def blackbox(self, seed):
    C = 2 if self.C == 2 else 3
    n = 4 if self.C == 2 else 3
    sh = (n,) if len(self.shape) == 1 else ((2, 2) if n == 4 else (1, 3))
    mk = lambda: build_sampler(self.sampler, C, sh, block_size=self.k)
    st = dict(index=seed % n)
    bad = [(g.replace('C01', 'C02'), t) for g, t in blackbox.stationarity(
        mk, C, n, seed, state=st, shape=sh)]
    if H.MODE.wants('C05'):
      bad += blackbox.independence(mk, C, n, seed, state=st, shape=sh)
    return bad

  def obligation(self):
    f = self.sampler + '.py:'
    cls = 'GibbsSampler' if self.sampler == 'gibbs' else 'BlockGibbsSampler'
    return Obligation(
        self.name, self.dims, self.inputs, self.body, props=PROPS,
        under=[SF + f + cls + '.step', SF + f + cls + '.update_sampler_state',
               SF + 'abstractsampler.py:AbstractSampler.update_sampler_state'],
        concrete_dims=self.conc, deadline=200, repair=self.repair,
        blackbox=self.blackbox)


CD = [dict(b=3, n=4, C=3), dict(b=2, n=5, C=4), dict(b=1, n=3, C=3)]
CD2 = [dict(b=3, h=2, w_=3, C=3), dict(b=2, h=3, w_=2, C=4)]


def obligations(tier='quick'):
  S = [
      Gibbs('gibbs/binary', 'gibbs', 2, ('n',), dict(b=2, n=3), 1, CD),
      Gibbs('gibbs/categorical', 'gibbs', 'C', ('n',), dict(b=2, n=3, C=3), 1,
            CD),
      Gibbs('gibbs/categorical/2d', 'gibbs', 'C', ('h', 'w_'),
            dict(b=2, h=2, w_=2, C=3), 1, CD2),
      Gibbs('blockgibbs/binary/1', 'blockgibbs', 2, ('n',), dict(b=2, n=3), 1,
            CD),
      Gibbs('blockgibbs/binary/2', 'blockgibbs', 2, ('n',), dict(b=2, n=3), 2,
            CD),
      Gibbs('blockgibbs/categorical/1', 'blockgibbs', 3, ('n',),
            dict(b=2, n=3), 1, CD),
      Gibbs('blockgibbs/categorical/2', 'blockgibbs', 3, ('n',),
            dict(b=2, n=3), 2, CD),
      Gibbs('blockgibbs/binary/2d', 'blockgibbs', 2, ('h', 'w_'),
            dict(b=2, h=2, w_=2), 2, CD2),
      Gibbs('blockgibbs/binary/2/overhang', 'blockgibbs', 2, ('n',),
            dict(b=2, n=3), 2, CD, aligned=False),
  ]
  return [s.obligation() for s in S]


# --------------------------------------------------------------------------
class Hamming:
  """Hamming ball sampler; the loop over chains by the loop rule."""

  def __init__(self, name, C, shape, dims, k, conc):
    self.__dict__.update(locals())

  def shapes(self, d):
    return tuple(getattr(d, s) if isinstance(s, str) else s for s in self.shape)

  def inputs(self, d):
    sh = self.shapes(d)
    C, k, n = self.C, self.k, size_of(self.shapes(d))
    K = 1 + k * (C - 1)
    ins = dict(key=key(), x=_x(C, d.b, sh), calls=integer(0, 10**6),
               steps=integer(0, 10**6), index=integer(0, n - k), rad=bit(),
               fv=integer(1, C - 1, d.b), fi=integer(0, k - 1, d.b),
               sel=integer(0, K - 1, d.b), sel2=integer(0, K - 1, d.b),
               i=integer(0, d.b - 1), other=_x(C, d.b, sh))
    if H.MODE.wants('C05'):
      ins['x_o'] = _x(C, d.b, sh)
      ins['fv_o'] = integer(1, C - 1, d.b)
      ins['fi_o'] = integer(0, k - 1, d.b)
    return ins

  def body(self, G, d, I):
    sh, C, k = self.shapes(d), self.C, self.k
    n = size_of(sh)
    b = I.x.shape[0]
    K = 1 + k * (C - 1)
    smp = build_sampler('hammingball', C, sh, block_size=k)
    M = AnyModel(seed=getattr(H.MODE, 'seed', 0), C=C, rank=len(sh))
    state = dict(num_ll_calls=I.calls, steps=I.steps, index=I.index)
    row = lambda t: jnp.take(t, I.i, axis=0)
    state_goals = []

    def run(x, sel, fv=I.fv, fi=I.fi, g=None):
      cnt = [0]

      def prov(kind, params, shape):
        if kind == 'randint':
          return fv
        if kind == 'choice':
          return (I.index + fi)[:, None]
        if kind == 'categorical':
          if str(params['logits'].shape[-1]) == '2' and K != 2 or (
              K == 2 and cnt[0] == 0):
            cnt[0] += 1
            return I.rad
          cnt[0] += 1
          if shape != ():
            return sel
          return row(sel) if H.MODE.symbolic else sel[cnt[0] - 2]
        return None

      H.LOOPS.append((g if g is not None else H.Goals(), I.i, [I.other] * 4))
      try:
        with draws(prov) as log:
          nx, ns, acc = smp.step(M, I.key, x, {}, dict(state))
      finally:
        H.LOOPS.pop()
      return nx, ns, acc, log

    y, ns, acc, lg = run(I.x, I.sel, g=G)
    cats = lg.of('categorical')
    if len(cats) < 2:
      raise ContractMismatch('Hamming ball: draws')
    # the categorical of chain i
    e = cats[-1] if H.MODE.symbolic or cats[-1].shape != () else cats[
        1 + int(I.i)]
    lgt = e.params['logits']
    if lgt.ndim == 2:
      lgt = row(lgt)
    fl = lambda t: jnp.reshape(row(t), (-1,))
    if H.MODE.wants('C02'):
      z = run(I.x, I.sel2)[0]
      y0 = run(I.x, jnp.zeros_like(I.sel))[0]
      LL = lambda t: M.forward({}, row(t)[None])[0]
      G.eq('C02.ball size', dimval(lgt.shape[-1]), K)
      G.eq('C02.drawn from the target restricted to the ball',
           take(lgt, row(I.sel)) - LL(y), lgt[0] - LL(y0))
      fy, fz, fx = fl(y), fl(z), fl(I.x)
      at = lambda t, j: take(t, I.index + j)
      same = jnp.asarray(True)
      for j in range(k):
        same = same & (at(fy, j) == at(fz, j))
      G.true('C02.each state of the ball once',
             (~same) | (row(I.sel) == row(I.sel2)))
      # centre u, and the result differs from u in at most one block position
      dist = jnp.asarray(0)
      for j in range(k):
        cur = at(fx, j)
        u = jnp.where((row(I.fi) == j) & (I.rad == 1),
                      (cur + row(I.fv)) % C, cur)
        dist = dist + (at(fy, j) != u).astype(jnp.int32)
      G.true('C02.result within the ball around the auxiliary state', dist <= 1)
      lr = cats[0].params['logits']
      lp = lambda r: lr[r] - lse(lr)
      ch = lg.of('choice')[0]
      q = lg.of('randint')[0].params
      G.eq('C02.auxiliary state uniform over the ball',
           lp(1) - jnp.log(float(ch.params['a'].shape[-1])) -
           jnp.log(jnp.asarray(q['maxval'] - q['minval'], jnp.float32)), lp(0))
      G.eq('C02.auxiliary positions are the block', jnp.reshape(
          ch.params['a'], (-1, k))[0], I.index + jnp.arange(k))
      G.eq('C02.auxiliary values start at 1', q['minval'], 1)
    pos = jnp.arange(n)
    inside = (pos >= I.index) & (pos < I.index + k)
    for p in ('C02', 'C04'):
      G.true(p + '.only the scheduled block changes',
             inside | (fl(y) == fl(I.x)))
    G.true('C04.result in range', (row(y) >= 0) & (row(y) <= C - 1))
    G.eq('C04.shape', jnp.zeros(y.shape), jnp.zeros(I.x.shape))
    if H.MODE.wants('C05'):
      G.keys('C05.draws use distinct keys', [
          e.key for e in lg.entries if e.kind != 'choice'])
      G.true('C05.every chain has its own random draws', jnp.asarray(
          not any(getattr(e, 'shared', False) for e in lg.entries)))
      f = jnp.arange(b) == I.i
      mix = lambda a, o: jnp.where(jnp.reshape(
          f, (b,) + (1,) * (a.ndim - 1)), a, o)
      y2 = run(mix(I.x, I.x_o), I.sel, mix(I.fv, I.fv_o), mix(
          I.fi, I.fi_o))[0]
      G.eq('C05.a chain does not depend on the other chains', row(y2), row(y))
    G.eq('C06.sweep position advances cyclically', ns['index'],
         (I.index + k) % n)
    G.eq('C06.step counter', ns['steps'], I.steps + 1)
    G.eq('C06.energy-call counter', ns['num_ll_calls'], I.calls + K)
    G.eq('C06.every Gibbs move counts as accepted', jnp.asarray(acc), 1)

  def blackbox(self, seed):
    C = self.C
    n = 4 if C == 2 else 3
    sh = (n,) if len(self.shape) == 1 else ((2, 2) if n == 4 else (1, 3))
    mk = lambda: build_sampler('hammingball', C, sh, block_size=self.k)
    st = dict(index=seed % n)
    bad = [(g.replace('C01', 'C02'), t) for g, t in blackbox.stationarity(
        mk, C, n, seed, state=st, shape=sh, N=200000, own_keys=True)]
    if H.MODE.wants('C05'):
      bad += blackbox.independence(mk, C, n, seed, state=st, shape=sh,
                                   shared_by_design=True)
    return bad

  def obligation(self):
    f = SF + 'hammingball.py:HammingBallSampler.'
    return Obligation(
        self.name, self.dims, self.inputs, self.body, props=PROPS,
        under=[f + 'step', f + 'compute_u', f + 'choose_index',
               f + 'update_sampler_state', f + '__init__'],
        concrete_dims=self.conc, deadline=200, blackbox=self.blackbox)


_gibbs_obligations = obligations


def obligations(tier='quick'):  # pylint: disable=function-redefined
  out = _gibbs_obligations(tier)
  for s in [
      Hamming('hammingball/binary/2', 2, ('n',), dict(b=2, n=3), 2, CD),
      Hamming('hammingball/binary/3', 2, ('n',), dict(b=2, n=4), 3,
              CD[:2]),
      Hamming('hammingball/categorical/2', 3, ('n',), dict(b=2, n=3), 2, CD),
      Hamming('hammingball/binary/1', 2, ('n',), dict(b=2, n=3), 1, CD),
      Hamming('hammingball/binary/2d', 2, ('h', 'w_'),
              dict(b=2, h=2, w_=2), 2, CD2),
      RBMGibbs(),
  ]:
    out.append(s.obligation())
  return out


class RBMGibbs:
  """alternating draw of the hidden and the visible units of a binary RBM.

  With the joint p(v, h) ~ exp(v.b_v + h.b_h + v W h), whose marginal is the
  model's energy (C09), drawing h | v and then v | h preserves it."""

  def inputs(self, d):
    ins = dict(key=key(), x=bit(d.b, d.n), w=real(d.n, d.m), b_h=real(d.m),
               b_v=real(d.n), h=bit(d.b, d.m), v=bit(d.b, d.n))
    if H.MODE.wants('C05'):
      ins.update(x_o=bit(d.b, d.n), h_o=bit(d.b, d.m), v_o=bit(d.b, d.n))
    return ins

  def body(self, G, d, I):
    from discs.samplers import blockgibbs  # pylint: disable=import-outside-toplevel
    import models  # pylint: disable=import-outside-toplevel
    m = models.build_model('rbm', [d.n, d.m], lambda v, h: dict(
        num_visible=v, num_hidden=h, num_categories=2, shape=(v,)))
    P = dict(w=I.w, b_h=I.b_h, b_v=I.b_v)
    smp = blockgibbs.RBMBlockGibbsSampler(None)
    b = I.x.shape[0]

    def run(x, h, v):
      vals = [h, v]

      def prov(kind, params, shape):
        if kind != 'bernoulli' or not vals:
          return None
        return vals.pop(0)

      with draws(prov) as log:
        y, st = smp.step(m, I.key, x, P, smp.make_init_state(I.key))
      return y, log

    y, log = run(I.x, I.h, I.v)
    if len(log.entries) != 2:
      raise ContractMismatch('RBM block Gibbs: draws')
    eh, ev = log.entries
    if H.MODE.wants('C02'):
      a = jnp.sum(I.x[:, :, None] * I.w[None], 1) + I.b_h[None]
      c = jnp.sum(I.h[:, None, :] * I.w[None], 2) + I.b_v[None]
      G.eq('C02.hidden units drawn from their conditional given the visible',
           eh.params['p'], 1 / (1 + jnp.exp(-a)))
      G.eq('C02.visible units drawn from their conditional given the hidden',
           ev.params['p'], 1 / (1 + jnp.exp(-c)))
      G.eq('C02.the result is the drawn visible state', y, I.v)
    G.true('C04.result in range', (y >= 0) & (y <= 1))
    G.eq('C04.shape', jnp.zeros(y.shape), jnp.zeros(I.x.shape))
    if H.MODE.wants('C05'):
      G.keys('C05.draws use distinct keys', [e.key for e in log.entries])
      G.true('C05.every chain has its own random draws', jnp.asarray(
          not any(getattr(e, 'shared', False) for e in log.entries)))
      f = (jnp.arange(b) == 0)[:, None]
      y2, l2 = run(jnp.where(f, I.x, I.x_o), jnp.where(f, I.h, I.h_o),
                   jnp.where(f, I.v, I.v_o))
      G.eq('C05.a chain does not depend on the other chains', y2[0], y[0])
      for k in (0, 1):
        G.eq('C05.draw probabilities do not depend on the other chains %d' % k,
             l2.entries[k].params['p'][0], log.entries[k].params['p'][0])

  def obligation(self):
    return Obligation(
        'rbm/blockgibbs', dict(b=2, n=1, m=1), self.inputs, self.body,
        props=('C02', 'C04', 'C05'), sigmoid=True,
        under=[SF + 'blockgibbs.py:RBMBlockGibbsSampler.step',
               'discs/models/rbm.py:RBM.step_h', 'discs/models/rbm.py:RBM.step_v',
               'discs/models/rbm.py:NNBinary.step_h',
               'discs/models/rbm.py:NNBinary.step_v'],
        concrete_dims=[dict(b=3, n=4, m=2), dict(b=2, n=1, m=3)], deadline=60)
