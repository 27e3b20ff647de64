"""Saved results (C20).

Deductive: the saver runs on arrays of symbolic sizes; opening a file, pickling
and CSV writing are recorded (trusted: they store what they are given), numpy
is replaced by jax.numpy.  Bounded: the saver writes real files in a scratch
directory on enumerated sequences of calls."""
import contextlib
import csv
import os
import pickle
import tempfile
from unittest import mock

import jax.numpy as jnp
import numpy as np
from ml_collections import config_dict

import harness as H
import loops
from common import *  # pylint: disable=wildcard-import
from encode import Len
from graphs import bounded

SV = 'discs/common/experiment_saver.py:Saver.'


def conf(root, **exp):
  e = dict(save_root=root, evaluator='co_eval', get_additional_metrics=False,
           batch_size=16, chain_length=100, ess_ratio=0.5)
  e.update(exp)
  return config_dict.ConfigDict(dict(
      experiment=e, sampler=dict(name='dmala'),
      model=dict(name='maxcut', num_categories=2, shape=(4,))))


def load(root, name):
  with open(os.path.join(root, name + '.pkl'), 'rb') as f:
    return pickle.load(f)


def _mod():
  from discs.common import experiment_saver  # pylint: disable=import-outside-toplevel
  return experiment_saver


def ob_co():
  def body(C, rs):
    for K in range(1, 5):
      for last in range(1, 4):
        for keep in (False, True):
          with tempfile.TemporaryDirectory() as tmp:
            root = os.path.join(tmp, 'a', 'b')
            s = _mod().build_saver(conf(root))
            T, n = rs.randint(1, 5), 4
            tr, br, bs, rt = [], [], [], 0.0
            if rs.rand() < .5:  # an earlier run in the same place
              o = _mod().build_saver(conf(root))
              o.save_co_resuts([np.ones(2, np.float32)] * T, np.ones(2), 9.0,
                               jnp.ones((2, n), jnp.int32) if keep else [])
            for b in range(K):
              M = last if b == K - 1 else 3
              t = rs.rand(T, M).astype(np.float32)
              x = rs.randint(0, 2, (M, n))
              w = float(rs.rand())
              s.save_co_resuts([jnp.asarray(v) for v in t], jnp.asarray(t[-1]),
                               w, jnp.asarray(x) if keep else [])
              tr.append(t)
              br.append(t[-1])
              bs.append(x)
              rt += w
            r = load(root, 'results')
            C.eq('the saved best values are those of every instance', r[
                'best_ratio'], np.concatenate(br))
            C.eq('the saved trajectory is that of every instance', r[
                'trajectory'], np.concatenate(tr, 1))
            C.eq('the saved mean is over every instance', r['best_ratio_mean'],
                 np.mean(np.concatenate(br)))
            C.eq('the saved time is that of the whole run', r['running_time'],
                 rt)
            if keep:
              C.eq('the saved solutions are those of every instance', r[
                  'best_samples'], np.concatenate(bs))
            else:
              C.true('no solutions are made up', 'best_samples' not in r)

  return bounded('save/co', body, [SV + 'save_co_resuts', SV + '_dump_dict',
                                   SV + '__init__'], 'C20',
                 'up to 4 batches of up to 3 instances')


def ob_dump():
  def body(C, rs):
    for i in range(6):
      with tempfile.TemporaryDirectory() as tmp:
        s = _mod().build_saver(conf(tmp))
        x = rs.randint(0, 5, (1 + i, 2, 9))
        s.dump_samples([jnp.asarray(v) for v in x], visualize=False)
        C.eq('saved samples', load(tmp, 'samples')['trajectory'], x)
        if i % 2:
          with loops.patched(_mod(), plt=mock.MagicMock()):
            s.dump_samples([jnp.asarray(v) for v in x], visualize=True)
          C.eq('saved samples (with pictures)', load(tmp, 'samples')[
              'trajectory'], x)
        p = rs.randn(3, 2).astype(np.float32)
        s.dump_params(jnp.asarray(p))
        C.eq('saved parameters', load(tmp, 'params')['params'], p)
        s.dump_params(dict(a=p, b=2 * p))
        C.eq('saved parameter dictionary', load(tmp, 'params')['b'], 2 * p)
        z = rs.randn(5)
        s.save_logz(z)
        C.eq('saved log partition estimates', load(tmp, 'logz')['logz'], z)
        r, k = dict(a=1.5, b=float(i)), dict(a=2.5)
        s.save_lm_results(r, k if i % 2 else [])
        C.same('saved text results', load(tmp, 'results'), r)
        if i % 2:
          C.same('saved top-k results', load(tmp, 'results_topk'), k)
        else:
          C.true('no top-k results are made up', not os.path.exists(
              os.path.join(tmp, 'results_topk.pkl')))

  return bounded('save/dump', body, [SV + u for u in (
      'dump_samples', 'dump_params', 'save_logz', 'save_lm_results',
      '_dump_dict')], 'C20', 'seeded values')


def ob_ess():
  def body(C, rs):
    for ad in (None, True, False):
      for bal, tag in ((None, ''), ('RATIO', '(ratio)'), ('MAX', '(max)'),
                       ('MIN', '(min)'), ('SQRT', '(sqrt)')):
        for solver in (None, 'euler_forward', 'interpolate'):
          with tempfile.TemporaryDirectory() as tmp:
            extra = bool(rs.randint(2))
            c = conf(tmp, evaluator='ess_eval', get_additional_metrics=extra)
            if ad is not None:
              c.sampler.adaptive = ad
            if bal:
              c.sampler.balancing_fn_type = bal
            if solver:
              c.sampler.solver = solver
            m = rs.rand(4)
            t = float(rs.rand())
            acc, hops = rs.rand(6), rs.rand(6)
            plt = mock.MagicMock()
            with loops.patched(_mod(), plt=plt):
              _mod().build_saver(c).save_results(acc, hops, m, t)
            with open(os.path.join(tmp, 'results.csv')) as f:
              rows = list(csv.DictReader(f))
            C.eq('one row of results', len(rows), 1)
            r = rows[0]
            C.eq('the row holds the metrics of the run', [
                float(r[k]) for k in ('ESS', 'ESS_M-H', 'ESS_T', 'ESS_EE',
                                      'Time')], list(m) + [t])
            C.same('the row names the experiment', [r[k] for k in (
                'model', 'num_categories', 'shape', 'batch_size',
                'chain_length', 'ess_ratio')], ['maxcut', '2', '(4,)', '16',
                                                '100', '0.5'])
            C.same('the row names the sampler variant', r['sampler'], (
                'a_' if ad else '') + 'dmala' + (
                    'f' if solver == 'euler_forward' else '') + tag)
            ys = [np.asarray(a[0][1]) for a in plt.plot.call_args_list]
            C.same('metrics through time are drawn when asked for', len(ys),
                   2 if extra else 0)
            if len(ys) == 2:
              C.eq('acceptance and hops are drawn', np.stack(ys), np.stack(
                  [acc, hops]))

  return bounded('save/ess', body, [SV + '_save_ess_results', SV + 'save_results',
                                    SV + '_plot_additional_metrics'], 'C20',
                 'all combinations of the sampler options',
                 trusted=['matplotlib', 'csv', 'pickle'])


# ---------------------------------------------------------------- deductive
class _Proxy:
  """a module with some attributes replaced."""

  def __init__(self, mod, **over):
    self.__dict__.update(over)
    self._mod = mod

  def __getattr__(self, k):
    return getattr(self._mod, k)


class _File:

  def __init__(self, disk, path, mode):
    self.disk, self.path = disk, path
    if mode not in ('w', 'wb'):
      raise ContractMismatch('file opened with mode %r' % mode)
    disk[path] = []

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False

  def close(self):
    pass


class _Rows:
  """csv.DictWriter."""

  def __init__(self, f, fieldnames, **k):
    self.f, self.names = f, list(fieldnames)

  def writeheader(self):
    self.f.disk[self.f.path].append('header')

  def writerow(self, row):
    if set(row) != set(self.names):
      raise ContractMismatch('row and header differ')
    self.f.disk[self.f.path].append(dict(row))


def _dump(obj, f, *a, **k):
  f.disk[f.path].append(dict(obj))


class Disk:
  """where the saver writes: recorded (symbolic) or a scratch directory."""

  def __init__(self, tmp):
    self.tmp, self.files = tmp, {}

  def load(self, name):
    if not H.MODE.symbolic:
      return load(self.tmp, name)
    got = self.files.get(os.path.join(self.tmp, name + '.pkl'), [])
    if len(got) != 1:
      raise ContractMismatch('%d objects in %s' % (len(got), name))
    return got[0]

  def rows(self):
    path = os.path.join(self.tmp, 'results.csv')
    if not H.MODE.symbolic:
      with open(path) as f:
        return list(csv.DictReader(f))
    r = self.files.get(path, [])
    if r[:1] != ['header']:
      raise ContractMismatch('no header')
    return r[1:]

  def has(self, name):
    if not H.MODE.symbolic:
      return os.path.exists(os.path.join(self.tmp, name + '.pkl'))
    return os.path.join(self.tmp, name + '.pkl') in self.files


@contextlib.contextmanager
def saver(**exp):
  with tempfile.TemporaryDirectory() as tmp:
    disk = Disk(tmp)
    mod = _mod()
    if not H.MODE.symbolic:
      yield mod.build_saver(conf(tmp, **exp)), disk
      return
    over = dict(
        np=_Proxy(jnp, ndarray=jax.Array),
        open=lambda p, mode='r', *a, **k: _File(disk.files, p, mode),
        pickle=_Proxy(pickle, dump=_dump),
        csv=_Proxy(csv, DictWriter=_Rows),
        len=lambda v: Len(v.shape[0]) if getattr(v, 'ndim', 0) else len(v))
    with loops.patched(mod, **over):
      yield mod.build_saver(conf(tmp, **exp)), disk


def proof_co(K, keep):
  dims = dict(T=1, n=1)
  dims.update({'m%d' % i: 1 for i in range(K)})

  def inputs(d):
    ins = {}
    for i in range(K):
      m = getattr(d, 'm%d' % i)
      ins.update({'t%d' % i: real(d.T, m), 'r%d' % i: real(m),
                  'x%d' % i: bit(m, d.n), 'w%d' % i: real()})
    return ins

  def body(G, d, I):
    g = lambda k: [getattr(I, k + str(i)) for i in range(K)]
    with saver() as (s, disk):
      for i in range(K):
        # the driver may reuse its buffers: only what was handed over counts
        s.save_co_resuts(g('t')[i], g('r')[i], g('w')[i],
                         g('x')[i] if keep else [])
      r = disk.load('results')
    c = lambda v, ax: jnp.concatenate([jnp.asarray(a) for a in v], ax)
    G.eq('C20.the saved best values are those of every instance',
         r['best_ratio'], c(g('r'), 0))
    G.eq('C20.the saved trajectory is that of every instance',
         r['trajectory'], c(g('t'), 1))
    tot = 0
    for v in g('r'):
      tot = tot + jnp.sum(v)
    num_ = 0
    for i in range(K):
      num_ = num_ + dimval(getattr(d, 'm%d' % i))
    G.eq('C20.the saved mean is over every instance', r['best_ratio_mean'],
         tot / num_)
    w = 0
    for v in g('w'):
      w = w + v
    G.eq('C20.the saved time is that of the whole run', r['running_time'], w)
    if keep:
      G.eq('C20.the saved solutions are those of every instance',
           r['best_samples'], c(g('x'), 0))
    else:
      G.true('C20.no solutions are made up', jnp.asarray(
          'best_samples' not in r))

  return Obligation(
      'save/proof/co/%d%s' % (K, '/samples' if keep else ''), dims, inputs,
      body, under=[SV + 'save_co_resuts', SV + '_dump_dict', SV + '__init__'],
      props=('C20',), concrete_dims=[{k: v[i] for k, v in dict(
          T=(3, 1), n=(4, 2), m0=(2, 3), m1=(2, 3), m2=(1, 3)).items()
                                      if k in dims} for i in (0, 1)],
      deadline=60, samples=2, trusted=[
          'open/pickle/csv store what they are given (recorded)',
          'numpy calls of the saver replaced by jax.numpy'])


def proof_dump():
  def inputs(d):
    return dict(x=real(d.T, d.b, d.n), p=real(d.n, d.b), z=real(d.T),
                q=real(d.n))

  def body(G, d, I):
    with saver() as (s, disk):
      s.dump_samples(I.x)
      G.eq('C20.saved samples', disk.load('samples')['trajectory'], I.x)
      s.dump_params(I.p)
      G.eq('C20.saved parameters', disk.load('params')['params'], I.p)
      s.dump_params(dict(w=I.p, b=I.q))
      r = disk.load('params')
      G.true('C20.saved parameter names', jnp.asarray(set(r) == {'w', 'b'}))
      G.eq('C20.saved parameter dictionary', r['w'], I.p)
      G.eq('C20.saved parameter dictionary (second entry)', r['b'], I.q)
      s.save_logz(I.z)
      G.eq('C20.saved log partition estimates', disk.load('logz')['logz'],
           I.z)
      s.save_lm_results(dict(a=I.q), [])
      G.eq('C20.saved text results', disk.load('results')['a'], I.q)
      G.true('C20.no top-k results are made up', jnp.asarray(not disk.has(
          'results_topk')))
      s.save_lm_results(dict(a=I.p), dict(a=I.z))
      G.eq('C20.saved text results (with top-k)', disk.load('results')['a'],
           I.p)
      G.eq('C20.saved top-k results', disk.load('results_topk')['a'], I.z)

  return Obligation(
      'save/proof/dump', dict(T=1, b=1, n=1), inputs, body, under=[
          SV + u for u in ('dump_samples', 'dump_params', 'save_logz',
                           'save_lm_results', '_dump_dict')],
      props=('C20',), concrete_dims=[dict(T=3, b=2, n=4), dict(T=1, b=1, n=1)],
      deadline=30, samples=2)


def proof_ess():
  def inputs(d):
    return dict(m=real(4), t=real())

  def body(G, d, I):
    with saver(evaluator='ess_eval') as (s, disk):
      s.save_results([], [], I.m if H.MODE.symbolic else np.asarray(I.m),
                     I.t if H.MODE.symbolic else float(I.t))
      rows = disk.rows()
    G.eq('C20.one row of results', jnp.asarray(len(rows)), 1)
    r = rows[-1]
    val = (lambda v: v) if H.MODE.symbolic else float
    for i, k in enumerate(('ESS', 'ESS_M-H', 'ESS_T', 'ESS_EE')):
      G.eq('C20.metric %s of the run' % k, val(r[k]), I.m[i])
    G.eq('C20.running time', val(r['Time']), I.t)

  return Obligation(
      'save/proof/ess', {}, inputs, body, under=[
          SV + u for u in ('_save_ess_results', 'save_results')],
      props=('C20',), concrete_dims=[{}], deadline=30, samples=3)


def obligations(tier='quick'):
  return [ob_co(), ob_dump(), ob_ess(), proof_dump(), proof_ess()] + [
      proof_co(K, keep) for K in (1, 2, 3) for keep in (False, True)]
