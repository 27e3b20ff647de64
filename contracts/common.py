"""Shared pieces of the contracts."""
import contextlib
import importlib
import types

import jax
import jax.numpy as jnp
import numpy as np
from jax import core
from ml_collections import config_dict

import harness as H
from harness import (AnyModel, ContractMismatch, Obligation, bit, draws,
                     integer, key, real, supply_seq, uniform01)


class Conf(types.SimpleNamespace):
  """configuration whose values may be symbolic."""

  def get(self, k, default=None):
    return getattr(self, k, default)

  def __getitem__(self, k):
    return getattr(self, k)

  def __contains__(self, k):
    return k in vars(self)

  def keys(self):
    return vars(self).keys()

  def items(self):
    return vars(self).items()

  def to_dict(self):
    return dict(vars(self))


def cfg(C, shape, experiment=None, model=None, **k):
  s = dict(adaptive=False, target_acceptance_rate=0.574,
           balancing_fn_type='SQRT', num_flips=1, schedule_step=10,
           reset_z_est=3, solver='interpolate', n=3, use_fast_path=True,
           block_size=1, approx_with_grad=True)
  s.update(k)
  m = dict(shape=shape, num_categories=C)
  m.update(model or {})
  e = dict(co_opt_prob=False)
  e.update(experiment or {})
  return config_dict.ConfigDict(dict(model=m, sampler=s, experiment=e))


def build_sampler(name, C, shape, **k):
  """the sampler exactly as the repository builds it; symbolic sizes are
  written into the built object (its constructor only stores them)."""
  mod = importlib.import_module('discs.samplers.' + name)
  exp = k.pop('experiment', None)
  symb = [x for x in list(shape) + [C] if not isinstance(x, (int, np.integer))]
  if not symb:
    return mod.build_sampler(cfg(int(C), tuple(shape), experiment=exp, **k))
  c0 = C if isinstance(C, int) else 7
  smp = mod.build_sampler(cfg(c0, tuple(5 for _ in shape), experiment=exp, **k))
  if getattr(smp, 'sample_shape', None) is not None:
    smp.sample_shape = tuple(shape)
  if getattr(smp, 'num_categories', None) is not None:
    smp.num_categories = C
  return smp


def lse(l, axis=-1):
  """log-sum-exp without any shift (specification)."""
  m = jnp.max(l, axis=axis, keepdims=True)
  return jnp.squeeze(jnp.log(jnp.sum(jnp.exp(l - m), axis=axis, keepdims=True))
                     + m, axis=axis)


def rowsum(a):
  """sum over everything but the leading (chain) axis."""
  for _ in range(a.ndim - 1):
    a = jnp.sum(a, axis=-1)
  return a


def size_of(shape):
  r = 1
  for s in shape:
    r = r * s
  return r


def dimval(x):
  if isinstance(x, (int, np.integer)):
    return jnp.asarray(float(x))
  return core.dimension_as_value(x).astype(jnp.float32)


def take(l, idx):
  """l[..., idx[...]] along the last axis, one index per row."""
  n = l.shape[-1]
  oh = (idx[..., None] == jnp.arange(n)).astype(l.dtype)
  return jnp.sum(jnp.where(oh > 0, l, 0.0), axis=-1)


def cat_logdensity(entry, v):
  """log P(v) of a categorical draw with the recorded logits."""
  lg = entry.params['logits']
  return take(lg, v) - lse(lg)


def bern_logdensity(entry, v):
  p = entry.params['p']
  v = v.astype(jnp.float32)
  return v * jnp.log(p) + (1 - v) * jnp.log(1 - p)


# --------------------------------------------------------------------------
# contracts of the sampling primitives (callees), verified under C08
# --------------------------------------------------------------------------
def seq_ll(ll):
  """sequential (without replacement) log-likelihood of an ordered draw:
  out_j = ll_j - log(1 - sum_{l<j} exp(ll_l))."""
  k = ll.shape[-1]
  if isinstance(k, (int, np.integer)) and k <= 8:
    out = []
    tot = jnp.zeros(ll.shape[:-1])
    for j in range(k):
      out.append(ll[..., j] - jnp.log(1 - tot))
      tot = tot + jnp.exp(ll[..., j])
    return jnp.stack(out, axis=-1)
  p = jnp.exp(ll)
  return ll - jnp.log(1 - (jnp.cumsum(p, axis=-1) - p))


def contract_multinomial(real_fn):
  """callers are checked against this contract, not the body."""

  def f(rng, log_prob, num_samples, replacement=True, is_nsample_const=True,
        batch_size=1, return_ll=False, need_ordering_info=False):
    if replacement and is_nsample_const:
      return real_fn(rng, log_prob, num_samples, replacement=True,
                     is_nsample_const=True, batch_size=batch_size,
                     return_ll=return_ll,
                     need_ordering_info=need_ordering_info)
    log, provider = H._STACK[-1]
    n = log_prob.shape[-1]
    pb = tuple(log_prob.shape[:-1])
    if is_nsample_const:
      idx = provider('mn_idx', {}, pb + (num_samples,))
      if idx is None:
        raise ContractMismatch('multinomial (ordered indices)')
      if tuple(map(str, idx.shape)) != tuple(map(str, pb + (num_samples,))):
        raise ContractMismatch('multinomial shape')
      log.entries.append(H.Entry(kind='mn_idx', key=rng, params={
          'log_prob': log_prob, 'num': num_samples}, value=idx))
      if return_ll:
        ll = jnp.stack([take(log_prob, idx[..., j])
                        for j in range(num_samples)], -1)
        return idx, seq_ll(ll)
      return idx
    if replacement:
      cnt = provider('mn_count', {}, pb + (n,))
      if cnt is None:
        raise ContractMismatch('multinomial (counts)')
      log.entries.append(H.Entry(kind='mn_count', key=rng, params={
          'log_prob': log_prob, 'num': num_samples}, value=cnt))
      if return_ll:
        return cnt, log_prob * cnt
      return cnt
    mask, order = provider('mn_mask', {}, pb + (n,))
    log.entries.append(H.Entry(kind='mn_mask', key=rng, params={
        'log_prob': log_prob, 'num': num_samples}, value=(mask, order)))
    sel = {'selected_mask': mask, 'perturbed_ll': order} if (
        need_ordering_info) else mask
    if return_ll:
      return sel, mask * (log_prob - jnp.log(1 - before(mask, order, log_prob)))
    return sel

  return f


def before(mask, order, log_prob):
  """sum of exp(log_prob_j) over selected j ranked before i (larger key)."""
  pre = (order[..., None, :] > order[..., :, None]).astype(jnp.float32)
  return jnp.sum(pre * (mask * jnp.exp(log_prob))[..., None, :], axis=-1)


def contract_renormalize(real_fn):
  def f(ll_idx, axis=-1):
    if axis not in (-1, ll_idx.ndim - 1):
      raise ContractMismatch('renormalize axis')
    if not H.MODE.symbolic:
      return real_fn(ll_idx, axis)
    return seq_ll(ll_idx)

  return f


def contract_weight(real_fn):
  """the balancing function: callers may only rely on it being a fixed
  elementwise function of the log-ratio (C07 decides which one it is)."""

  def f(self, logt):
    if not H.MODE.symbolic:
      return real_fn(self, logt)
    return H.opaque('W', logt, shape=logt.shape, nb=logt.ndim)

  return f


BALANCE = ('SQRT', 'RATIO', 'MAX', 'MIN')


def any_balance():
  """symbolically irrelevant (see contract_weight); replays cycle."""
  return BALANCE[getattr(H.MODE, 'seed', 0) % 4]


@contextlib.contextmanager
def callee_contracts(weight=True):
  from discs.common import math_util  # pylint: disable=import-outside-toplevel
  from discs.samplers import locallybalanced as lb  # pylint: disable=import-outside-toplevel
  todo = [(math_util, 'multinomial', contract_multinomial),
          (math_util, 'noreplacement_sampling_renormalize',
           contract_renormalize)]
  if weight:
    todo.append((lb.LocallyBalancedSampler, 'apply_weight_function_logscale',
                 contract_weight))
  saved = []
  for o, n, c in todo:
    if hasattr(o, n):
      saved.append((o, n, getattr(o, n)))
      setattr(o, n, c(getattr(o, n)))
  try:
    yield
  finally:
    for o, n, f in saved:
      setattr(o, n, f)
