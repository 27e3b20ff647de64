"""Balancing functions (C07) and shared sampling primitives (C08)."""
import jax
import jax.numpy as jnp
import numpy as np

import harness as H
from common import *  # pylint: disable=wildcard-import

MU = 'discs/common/math_util.py:'
LB = 'discs/samplers/locallybalanced.py:LocallyBalancedSampler.'


def _mu():
  from discs.common import math_util  # pylint: disable=import-outside-toplevel
  return math_util


# -------------------------------------------------------------------- C07
def weight(fn, cls):
  def inputs(d):
    return dict(t=real(d.b, d.n, gen=lambda rs, s: (3 * rs.randn(*s)).astype(
        np.float32)), o=real(d.b, d.n), far=real(
            d.b, d.n, gen=lambda rs, s: (rs.choice([-1, 1], size=s) * rs.choice(
                [1, 10, 60, 300, 3000], size=s) * (1 + rs.rand(*s))).astype(
                    np.float32)))

  def body(G, d, I):
    smp = build_sampler(*cls, balancing_fn_type=fn)
    t = I.t
    lw = smp.apply_weight_function_logscale(t)
    rev = smp.apply_weight_function_logscale(-t)
    G.eq('C07.balance log g(t) - log g(1/t) = log t', lw - rev, t)
    G.eq('C07.balance for extreme ratios', smp.apply_weight_function_logscale(
        I.far) - smp.apply_weight_function_logscale(-I.far), I.far)
    spec = {'SQRT': lambda t: t / 2,
            'RATIO': lambda t: t - jnp.log(1 + jnp.exp(t)),
            'MAX': lambda t: jnp.maximum(t, 0.0),
            'MIN': lambda t: jnp.minimum(t, 0.0)}[fn]
    G.eq('C07.log-scale weight is the configured function', lw, spec(t))
    pw = smp.apply_weight_function(jnp.exp(t))
    pspec = {'SQRT': lambda t: jnp.exp(t / 2),
             'RATIO': lambda t: jnp.exp(t) / (1 + jnp.exp(t)),
             'MAX': lambda t: jnp.maximum(jnp.exp(t), 1.0),
             'MIN': lambda t: jnp.minimum(jnp.exp(t), 1.0)}[fn]
    G.eq('C07.direct weight is the configured function', pw, pspec(t))
    if fn in ('SQRT', 'RATIO'):
      G.eq('C07.both scales agree', jnp.exp(lw), pw)
    elif not H.MODE.symbolic:  # lemma: exp is monotone
      G.eq('C07.both scales agree', jnp.exp(lw), pw)
    mix = jnp.where((jnp.arange(t.shape[0]) == 0)[:, None] & (
        jnp.arange(t.shape[1]) == 0), t, I.o)
    G.eq('C07.elementwise', smp.apply_weight_function_logscale(mix)[0, 0],
         lw[0, 0])
    G.eq('C07.shape', jnp.zeros(lw.shape), jnp.zeros(t.shape))

  return Obligation('weight/%s/%s' % (fn, cls[0]), dict(b=2, n=2), inputs, body,
                    under=[LB + 'apply_weight_function_logscale',
                           LB + 'apply_weight_function'], strict=True, props=('C07',),
                    concrete_dims=[dict(b=3, n=5), dict(b=2, n=2)])


# -------------------------------------------------------------------- C08
def simple(name, dims, inputs, body, under, conc, **kw):
  return Obligation(name, dims, inputs, body, under=[MU + u for u in under],
                    props=('C08',), concrete_dims=conc, **kw)


def ob_log1mexp():
  def body(G, d, I):
    G.eq('C08.log1mexp(x) = log(1 - exp(-|x|))', _mu().log1mexp(I.x),
         jnp.log(1 - jnp.exp(-jnp.abs(I.x))))

  return simple('log1mexp', dict(n=1), lambda d: dict(x=real(
      d.n, gen=lambda rs, s: (rs.choice([0.3, 1, 4], size=s) * (
          0.5 + rs.rand(*s)) * rs.choice([-1, 1], size=s)).astype(np.float32))),
                body, ['log1mexp'], [dict(n=9), dict(n=1)])


def ob_mh():
  def inputs(d):
    return dict(key=key(), lp=real(d.b), x=integer(0, 5, d.b, d.n, d.m),
                y=integer(0, 5, d.b, d.n, d.m), u=uniform01(d.b))

  def body(G, d, I):
    mu = _mu()
    with draws(supply_seq(uniform=I.u)) as log:
      z, acc = mu.mh_step(I.key, I.lp, I.x, I.y)
    take_y = jnp.log(I.u) < I.lp
    G.eq('C08.new state iff log u < log ratio', z, jnp.where(
        take_y[:, None, None], I.y, I.x))
    G.eq('C08.acceptance flag', acc, take_y)
    e = log.entries[0]
    G.eq('C08.acceptance noise uniform on [0,1)', jnp.stack([
        jnp.asarray(e.params['minval'], jnp.float32),
        jnp.asarray(e.params['maxval'], jnp.float32)]), jnp.asarray([0., 1.]))
    G.true('C08.one draw per chain', jnp.asarray(not e.shared))

  return simple('mh_step', dict(b=2, n=2, m=2), inputs, body,
                ['mh_step', 'bernoulli_logp'],
                [dict(b=4, n=2, m=3), dict(b=1, n=1, m=1)])


def ob_gumbel():
  def inputs(d):
    return dict(key=key(), loc=real(d.b, d.n), u=uniform01(d.b, d.n))

  def body(G, d, I):
    with draws(supply_seq(uniform=I.u)) as log:
      g = _mu().gumbel(I.key, I.loc)
    e = log.entries[0]
    G.eq('C08.gumbel noise = loc - log(-log u)', g,
         I.loc - jnp.log(-jnp.log(I.u)))
    G.eq('C08.gumbel noise uniform on [0,1)', jnp.stack([
        jnp.asarray(e.params['minval'], jnp.float32),
        jnp.asarray(e.params['maxval'], jnp.float32)]), jnp.asarray([0., 1.]))
    G.true('C08.one draw per entry', jnp.asarray(not e.shared))

  return simple('gumbel', dict(b=1, n=1), inputs, body, ['gumbel'],
                [dict(b=2, n=3)])


def _logp(rs, s):
  """log of a sub-probability vector (total < 0.97)."""
  p = rs.rand(*s) + 0.05
  p = 0.97 * p / p.sum(-1, keepdims=True)
  return np.log(p).astype(np.float32)


def _logp1(rs, s):
  p = rs.rand(*s) + 0.05
  return np.log(p / p.sum(-1, keepdims=True)).astype(np.float32)


def ob_renorm(k):
  """k ordered probabilities; precondition: positive, total < 1."""

  def inputs(d):
    return dict(ll=real(d.b, k, gen=_logp))

  def body(G, d, I):
    ll = I.ll
    tot = jnp.zeros(ll.shape[:1])
    for j in range(k):
      tot = tot + jnp.exp(ll[:, j])
      G.assume('partial sums below 1 (%d)' % j, jnp.log(tot) < 0)
    out = _mu().noreplacement_sampling_renormalize(ll)
    spec = seq_ll(ll)
    for j in range(k):
      # (the cap at 0 is inactive: lemma p_j < 1 - S_{j-1}, below)
      G.eq('C08.renormalised %d = ll - log(1 - mass drawn before)' % j,
           out[:, j], jnp.minimum(0.0, spec[:, j]))
      if not H.MODE.symbolic:
        G.eq('C08.renormalised %d, uncapped' % j, out[:, j], spec[:, j])

  return simple('renormalize/%d' % k, dict(b=1), inputs, body,
                ['noreplacement_sampling_renormalize', 'log1mexp'],
                [dict(b=4), dict(b=1)])


def mn_replace(k, batched):
  """draws with replacement, fixed number."""

  def inputs(d):
    return dict(key=key(), lp=real(d.b, d.n, gen=_logp1),
                idx=integer(0, d.n - 1, k, d.b))

  def body(G, d, I):
    with draws(supply_seq(categorical=I.idx)) as log:
      out, ll = _mu().multinomial(I.key, I.lp, num_samples=k, return_ll=True)
    with draws(supply_seq(categorical=I.idx)):
      out2 = _mu().multinomial(I.key, I.lp, num_samples=k)
    e = log.entries[0]
    G.eq('C08.indices are the draws', out, jnp.transpose(I.idx))
    G.eq('C08.same indices without likelihood', out2, out)
    G.eq('C08.drawn from log_prob', e.params['logits'],
         jnp.broadcast_to(I.lp, (k,) + I.lp.shape))
    G.eq('C08.likelihood of each draw', ll, jnp.stack(
        [take(I.lp, I.idx[j]) for j in range(k)], -1))
    G.true('C08.independent draws', jnp.asarray(not e.shared))

  return simple('multinomial/replacement/%d' % k, dict(b=1, n=2), inputs, body,
                ['multinomial'], [dict(b=3, n=4), dict(b=1, n=2)])


def mn_topk(k):
  """without replacement, fixed number: the k largest perturbed entries, in
  decreasing order (Gumbel top-k = sequential sampling, trusted theorem)."""

  def inputs(d):
    return dict(key=key(), lp=real(d.b, d.n, gen=_logp1),
                u=uniform01(d.b, d.n))

  def body(G, d, I):
    mu = _mu()
    with callee_contracts_renorm(), draws(supply_seq(uniform=I.u)):
      idx, ll = mu.multinomial(I.key, I.lp, num_samples=k, replacement=False,
                               return_ll=True)
    with draws(supply_seq(uniform=I.u)):
      idx2 = mu.multinomial(I.key, I.lp, num_samples=k, replacement=False)
    G.eq('C08.same indices without likelihood', idx2, idx)
    keys = I.lp - jnp.log(-jnp.log(I.u))
    G.true('C08.indices in range', (idx >= 0) & (idx < I.lp.shape[-1]))
    for j in range(k):
      # exactly j entries have a larger perturbed value
      cur = take(keys, idx[:, j])
      if not H.MODE.symbolic:
        G.eq('C08.draw %d is the %d-th largest' % (j, j), jnp.sum(
            (keys > cur[:, None]).astype(jnp.int32), -1), j)
    _, spec = jax.lax.top_k(keys, k)
    G.eq('C08.indices = top-k of the perturbed log-probabilities', idx, spec)
    lls = jnp.stack([take(I.lp, idx[:, j]) for j in range(k)], -1)
    G.eq('C08.sequential likelihood', ll, seq_ll(lls))

  return simple('multinomial/no-replacement/%d' % k, dict(b=1, n=k + 1), inputs,
                body, ['multinomial', 'gumbel'],
                [dict(b=3, n=k + 2), dict(b=1, n=k + 1)])


import contextlib


@contextlib.contextmanager
def callee_contracts_renorm():
  mu = _mu()
  old = mu.noreplacement_sampling_renormalize
  mu.noreplacement_sampling_renormalize = contract_renormalize(old)
  try:
    yield
  finally:
    mu.noreplacement_sampling_renormalize = old


@contextlib.contextmanager
def gumbel_keys(I):
  """gumbel by contract: distinct keys (almost surely), one per entry, made
  from the locations it was given."""
  mu = _mu()
  old = mu.gumbel

  def f(rng, loc):
    if loc.shape != I.lp.shape:
      raise ContractMismatch('gumbel shape')
    return I.g + 0.0 * (loc - I.lp) if loc is not I.lp else I.g

  if H.MODE.symbolic:
    mu.gumbel = f
  try:
    yield
  finally:
    mu.gumbel = old


def mn_mask():
  def inputs(d):
    return dict(key=key(), lp=real(d.b, d.n, gen=_logp1),
                u=uniform01(d.b, d.n), num=integer(1, d.n),
                g=real(d.b, d.n, distinct=True))

  def body(G, d, I):
    mu = _mu()
    with gumbel_keys(I), callee_contracts_renorm(), draws(
        supply_seq(uniform=I.u)):
      sel, ll = mu.multinomial(I.key, I.lp, num_samples=I.num,
                               replacement=False, is_nsample_const=False,
                               return_ll=True, need_ordering_info=True)
    with gumbel_keys(I), draws(supply_seq(uniform=I.u)):
      sel2 = mu.multinomial(I.key, I.lp, num_samples=I.num,
                            replacement=False, is_nsample_const=False)
    mask, keys = sel['selected_mask'], sel['perturbed_ll']
    G.eq('C08.ordering keys are the perturbed log-probabilities', keys, I.g
         if H.MODE.symbolic else I.lp - jnp.log(-jnp.log(I.u)))
    G.eq('C08.same mask without likelihood', sel2, mask)
    larger = (keys[:, None, :] > keys[:, :, None]).astype(jnp.int32)
    G.eq('C08.selected iff fewer than num entries are larger', mask,
         jnp.sum(larger, -1) < I.num)
    G.eq('C08.likelihood given the entries drawn before', ll, mask * (
        I.lp - jnp.log(1 - jnp.sum(larger * jnp.exp(I.lp)[:, None, :], -1))))

  return simple('multinomial/mask', dict(b=1, n=2), inputs, body,
                ['multinomial', 'gumbel'], [dict(b=3, n=4), dict(b=1, n=2),
                                           dict(b=2, n=7)])


def mn_count(batch):
  """with replacement, number of draws decided at run time: loop rule."""

  def inputs(d):
    return dict(key=key(), lp=real(d.b, d.n, gen=_logp1),
                num=integer(0, 50), cnt=integer(0, 50), key2=key(),
                key3=key(), total=integer(0, 50, d.b, d.n),
                idx=integer(0, d.n - 1, batch, d.b))

  def body(G, d, I):
    mu = _mu()
    cap = {}

    def fake_while(cond_fun, body_fun, init_val):
      cap.update(cond=cond_fun, body=body_fun, init=init_val)
      leaves, tree = jax.tree_util.tree_flatten(init_val)
      out = []
      for v in leaves:
        if v.ndim == 2:
          out.append(I.total)
        else:
          out.append(v)
      return jax.tree_util.tree_unflatten(tree, out)

    old = jax.lax.while_loop
    jax.lax.while_loop = fake_while
    try:
      def call(k):
        with draws(supply_seq(categorical=I.idx)):
          return mu.multinomial(k, I.lp, num_samples=I.num,
                                is_nsample_const=False, batch_size=batch,
                                return_ll=True)
      call(I.key3)
      other = dict(cap)
      sel, ll = call(I.key)
    finally:
      jax.lax.while_loop = old
    if not cap:
      raise ContractMismatch('no loop')
    leaves, tree = jax.tree_util.tree_flatten(cap['init'])
    role = []
    for v in leaves:
      role.append('total' if v.ndim == 2 else 'key' if v.dtype == jnp.uint32
                  else 'cnt')
    if sorted(role) != ['cnt', 'key', 'total']:
      raise ContractMismatch('loop carry %s' % role)
    pick = lambda t, r: jax.tree_util.tree_leaves(t)[role.index(r)]
    G.eq('C08.counting starts at zero', pick(cap['init'], 'total'), 0)
    G.eq('C08.draw counter starts at zero', pick(cap['init'], 'cnt'), 0)
    arb = {'total': I.total, 'key': I.key2, 'cnt': I.cnt}
    val = jax.tree_util.tree_unflatten(tree, [arb[r] for r in role])
    with draws(supply_seq(categorical=I.idx)) as log:
      nxt = cap['body'](val)
    e = log.entries[0]
    G.eq('C08.loop runs while draws are missing', cap['cond'](val),
         I.cnt < I.num)
    G.eq('C08.draw counter advances', pick(nxt, 'cnt'), I.cnt + batch)
    want = I.total
    for j in range(batch):
      hit = (jnp.arange(I.lp.shape[-1]) == I.idx[j][:, None]).astype(jnp.int32)
      want = want + jnp.where(I.cnt + j < I.num, hit, 0)
    G.eq('C08.each needed draw is counted once', pick(nxt, 'total'), want)
    G.eq('C08.drawn from log_prob', e.params['logits'],
         jnp.broadcast_to(I.lp, (batch,) + I.lp.shape))
    G.keys('C08.fresh key per iteration', [e.key, pick(nxt, 'key'), I.key2])
    # a different carried key gives a different draw key and successor, a
    # different argument a different first key
    arb['key'] = I.key3
    with draws(supply_seq(categorical=I.idx)) as log3:
      nxt3 = cap['body'](jax.tree_util.tree_unflatten(
          tree, [arb[r] for r in role]))
    G.keys('C08.draws use the carried key', [
        e.key, log3.entries[0].key, pick(nxt, 'key'), pick(nxt3, 'key')])
    G.keys('C08.first key comes from the caller', [
        pick(cap['init'], 'key'), pick(other['init'], 'key')])
    G.eq('C08.result is the final count', sel, I.total)
    G.eq('C08.likelihood = sum of log-probabilities', ll, I.lp * I.total)

  return simple('multinomial/count/%d' % batch, dict(b=1, n=2), inputs, body,
                ['multinomial'], [dict(b=3, n=4), dict(b=1, n=2)])


def ob_small():
  """Python-level arithmetic helpers, enumerated (bounded)."""

  def body(G, d, I):
    mu = _mu()
    if H.MODE.symbolic:
      raise ContractMismatch('python integers: enumerated')
    got = [mu.comb(x, y) for x in range(31) for y in range(x + 1)]
    row = [1]
    want = []
    for _ in range(31):
      want += row
      row = [1] + [a + c for a, c in zip(row, row[1:])] + [1]
    G.eq('C08.comb = Pascal triangle up to 30', np.asarray(got, np.float64),
         np.asarray(want, np.float64))
    rs = np.random.RandomState(H.MODE.seed)
    for t in range(20):
      v = rs.randint(1, 9, size=rs.randint(0, 5)).tolist()
      p = 1
      for q in v:
        p *= q
      G.eq('C08.prod', mu.prod(v), p)
      G.eq('C08.prod of a tuple', mu.prod(tuple(v)), p)

  return simple('comb-prod', {}, lambda d: dict(z=real()), body,
                ['comb', 'prod'], [{}], bounded='x <= 30, enumerated')


def obligations(tier='quick'):
  out = [weight(f, ('gwg', 2, (5,))) for f in BALANCE]
  out += [ob_log1mexp(), ob_mh(), ob_gumbel(), ob_small()]
  out += [ob_renorm(k) for k in (2, 3, 4)]
  out += [mn_replace(k, True) for k in (1, 2)]
  out += [mn_topk(k) for k in (1, 2, 3)]
  out += [mn_mask(), mn_count(1), mn_count(3)]
  return out
