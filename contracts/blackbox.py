"""Implementation-independent stand-ins (bounded, never counted as proved).

Used (a) to look for a failing input when an obligation is not discharged and
(b) when the code under contract was restructured so far that the contract's
view of its random draws no longer applies.
"""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

import harness as H
from common import build_sampler


def states_of(C, n):
  return np.asarray(list(itertools.product(range(C), repeat=n)), np.int32)


def one_step(make, C, n, seed, N=300000, mask=None, state=None, scale=0.7,
             shape=None, own_keys=False):
  """start N chains from the exact target, run one real step."""
  H.MODE.symbolic = False
  H.MODE.seed = seed
  shape = shape or (n,)
  S = states_of(C, n)
  M = H.AnyModel(seed=seed, C=C, rank=len(shape), scale=scale)
  ll = np.asarray(M.forward({}, jnp.asarray(S.reshape((-1,) + shape))),
                  np.float64)
  pi = np.exp(ll - ll.max())
  pi /= pi.sum()
  rs = np.random.RandomState(seed)
  ids = rs.choice(len(S), p=pi, size=N)
  x = jnp.asarray(S[ids].reshape((N,) + shape))
  smp = make()
  st = smp.make_init_state(jax.random.PRNGKey(seed))
  st = dict(st)
  for k, v in (state or {}).items():
    st[k] = jnp.asarray(v)
  st0 = dict(st)
  kw = {} if mask is None else {'x_mask': jnp.asarray(mask)}
  if own_keys:  # chains of one call may share auxiliary randomness
    ks = jax.random.split(jax.random.PRNGKey(seed + 77), N)
    nx, ns, acc = jax.jit(jax.vmap(lambda k, z: smp.step(
        M, k, z[None], {}, dict(st), **kw)))(ks, x)
    nx = nx[:, 0]
  else:
    nx, ns, acc = smp.step(M, jax.random.PRNGKey(seed + 77), x, {}, st, **kw)
  return S, pi, np.asarray(x), np.asarray(nx), st0, ns, acc


def chi(S, pi, nx, C, n):
  code = np.zeros(len(nx), np.int64)
  f = nx.reshape(len(nx), -1)
  for i in range(n):
    code = code * C + f[:, i]
  cnt = np.bincount(code, minlength=len(S))
  e = pi * len(nx)
  z = (cnt - e) / np.sqrt(e * (1 - pi) + 1e-12)
  return z, cnt / len(nx)


def stationarity(make, C, n, seed, **kw):
  """-> list of (goal, detail) violated."""
  bad = []
  S, pi, x, nx, st0, ns, acc = one_step(make, C, n, seed, **kw)
  if nx.shape != x.shape or nx.min() < 0 or nx.max() >= C:
    bad.append(('C04.result in range', 'shape %s min %s max %s' % (
        nx.shape, nx.min(), nx.max())))
    return bad
  z, fr = chi(S, pi, nx, C, n)
  k = int(np.argmax(np.abs(z)))
  if abs(z[k]) > 7.5:
    bad.append(('C01.one step from the exact target stays at the target',
                'state %s: probability %.5f, after one step %.5f (z=%.1f, '
                '%d chains)' % (S[k].tolist(), pi[k], fr[k], z[k], len(nx))))
  return bad


def codes(x, C):
  f = np.asarray(x).reshape(len(x), -1)
  code = np.zeros(len(f), np.int64)
  for i in range(f.shape[1]):
    code = code * C + f[:, i]
  return code


def independence(make, C, n, seed, mask=None, state=None, shape=None, N=60000,
                 shared_by_design=False):
  """two chains of one call, over many keys: jointly independent, and chain 0
  unaffected by the state of chain 1."""
  H.MODE.symbolic = False
  shape = shape or (n,)
  M = H.AnyModel(seed=seed, C=C, rank=len(shape), scale=0.7)
  smp = make()
  st = dict(smp.make_init_state(jax.random.PRNGKey(seed)))
  for k, v in (state or {}).items():
    st[k] = jnp.asarray(v)
  kw = {} if mask is None else {'x_mask': jnp.asarray(mask)}
  rs = np.random.RandomState(seed)
  x = rs.randint(0, C, size=(1,) + shape)
  ks = jax.random.split(jax.random.PRNGKey(seed + 5), N)
  f = lambda z: np.asarray(jax.jit(jax.vmap(lambda k: smp.step(
      M, k, jnp.asarray(z, jnp.int32), {}, dict(st), **kw)[0]))(ks))
  y = f(np.concatenate([x, x]))
  bad = []
  if not shared_by_design:
    a, b = codes(y[:, 0], C), codes(y[:, 1], C)
    ua, ia = np.unique(a, return_inverse=True)
    ub, ib = np.unique(b, return_inverse=True)
    joint = np.zeros((len(ua), len(ub)))
    np.add.at(joint, (ia, ib), 1)
    e = joint.sum(1)[:, None] * joint.sum(0)[None] / N
    z = np.where(e > 25, (joint - e) / np.sqrt(np.maximum(e, 1)), 0)
    if np.abs(z).max() > 7.5:
      i, j = np.unravel_index(np.argmax(np.abs(z)), z.shape)
      bad.append(('C05.every chain has its own random draws',
                  'two chains from the same state: outcomes (%d, %d) jointly '
                  '%d times, independent chains: %.0f times (%d keys)' % (
                      ua[i], ub[j], joint[i, j], e[i, j], N)))
  o = (x + 1) % C
  y2 = f(np.concatenate([x, o]))
  m = int((y2[:, 0] != y[:, 0]).reshape(N, -1).any(1).sum())
  if m > N // 1000:
    bad.append(('C05.a chain does not depend on the other chains',
                'replacing chain 1 changes chain 0 for %d of %d keys' % (m, N)))
  return bad
