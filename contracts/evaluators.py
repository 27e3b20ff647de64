"""Evaluators: ESS metrics, Bernoulli moment errors, n-gram metrics (C18)."""
import contextlib
import itertools
import types
from collections import Counter
from unittest import mock

import jax
import jax.numpy as jnp
import numpy as np

import harness as H
import loops
from common import *  # pylint: disable=wildcard-import

V = 'discs/evaluators/'


@contextlib.contextmanager
def ess_callee(fn):
  """tfp's effective_sample_size replaced by an arbitrary per-chain value."""
  from discs.evaluators import ess_eval  # pylint: disable=import-outside-toplevel
  ns = types.SimpleNamespace
  tfp = ns(substrates=ns(jax=ns(mcmc=ns(effective_sample_size=fn))),
           mcmc=ns(effective_sample_size=fn))
  attrs = {k: v for k, v in dict(tfp=tfp, tf=mock.MagicMock()).items()
           if hasattr(ess_eval, k)}
  with loops.patched(ess_eval, **attrs):
    yield ess_eval


def ess(P='C18'):

  def inputs(d):
    return dict(x=integer(0, 50, d.T, d.b), val=real(2), t=real(pos=True),
                ll=integer(1, 999), ratio=real(gen=lambda rs, s: np.float32(
                    rs.choice([0.1, 0.5, 0.75]))), rng=key(),
                e=real(d.b))

  def body(G, d, I):
    g = lambda n: '%s.%s' % (P, n)
    sym = H.MODE.symbolic
    seen = []

    def callee(states, *a, **k):
      if a or k:
        raise ContractMismatch('options of effective_sample_size')
      seen.append(states)
      if sym:
        return H.anyfn('ESS', [jnp.swapaxes(states, 0, 1)], (d.b,),
                       lead=[(0,)], own=())
      # chain 0 never moves: undefined ESS counts as 1
      return I.e.at[0].set(jnp.nan)

    with ess_callee(callee) as mod:
      c = Conf(
          chain_length=d.T, ess_ratio=I.ratio if sym else float(I.ratio))
      ev = mod.ESSevaluator(c)
      out = ev.evaluate(samples=I.x, rnd=I.rng)
      m = ev.get_eval_metrics(I.val, I.t, I.ll)
    if len(seen) != 1:
      raise ContractMismatch('%d ESS computations' % len(seen))
    G.eq(g('ESS is computed from the whole chain'), seen[0], I.x)
    e = (H.anyfn('ESS', [jnp.swapaxes(I.x, 0, 1).astype(jnp.float32)], (d.b,),
                 lead=[(0,)], own=()) if sym else I.e.at[0].set(1.0))
    mean = jnp.sum(e) / dimval(d.b)
    var = jnp.sum((e - mean) ** 2) / dimval(d.b)
    G.eq(g('mean ESS over the chains'), out[0], mean)
    G.eq(g('standard deviation over the chains'), out[1], jnp.sqrt(var))
    kept = 1 - I.ratio
    G.eq(g('ESS itself'), m[0], I.val)
    G.eq(g('ESS per step of the mixing phase'), m[1], I.val / (
        dimval(d.T) * kept))
    G.eq(g('ESS per second'), m[2], I.val / I.t)
    G.eq(g('ESS per energy evaluation of the mixing phase'), m[3], I.val / (
        I.ll * kept))

  return Obligation('ess', dict(b=1, T=1), inputs, body,
                    under=[V + 'ess_eval.py:ESSevaluator.' + u for u in (
                        'evaluate', '_get_ess', 'get_eval_metrics',
                        '_eval_over_num_ll_calls', '_eval_over_mh_step',
                        '_eval_over_time')], strict=True, props=(P,),
                    trusted=['tfp effective_sample_size (uninterpreted)'],
                    concrete_dims=[dict(b=3, T=6), dict(b=1, T=9)],
                    deadline=60)


def moments(P='C18'):

  def inputs(d):
    return dict(x=bit(d.T, d.b, d.n), w=real(d.n))

  def body(G, d, I):
    from discs.evaluators import bernoulli_eval as be  # pylint: disable=import-outside-toplevel
    from discs.models import bernoulli  # pylint: disable=import-outside-toplevel
    g = lambda n: '%s.%s' % (P, n)
    m = bernoulli.Bernoulli(Conf(shape=(d.n,),
                                                  init_sigma=1.))
    ev = be.Bernoullievaluator(None)
    out = ev.evaluate(I.x, m, {'params': I.w})
    T, b, n = dimval(d.T), dimval(d.b), dimval(d.n)
    p = 1 / (1 + jnp.exp(-I.w))
    x = I.x.astype(jnp.float32)
    mean = jnp.sum(x, 0) / T
    var = jnp.sum((x - mean[None]) ** 2, 0) / (T - 1)
    me = (mean - p[None]) ** 2
    ve = (var - (p * (1 - p))[None]) ** 2
    G.eq(g('expected value = P(x=1)'), m.get_expected_val({'params': I.w}), p)
    G.eq(g('variance = p(1-p)'), m.get_var({'params': I.w}), p * (1 - p))
    G.eq(g('average squared error of the chain means'), out[0],
         jnp.sum(me) / b / n)
    G.eq(g('largest squared error of the chain means'), out[1], jnp.max(me))
    G.eq(g('average squared error of the chain variances'), out[2],
         jnp.sum(ve) / b / n)
    G.eq(g('largest squared error of the chain variances'), out[3],
         jnp.max(ve))
    last = x[-1]
    lm = jnp.sum(last, 0) / b
    lv = jnp.sum((last - lm[None]) ** 2, 0) / (b - 1)
    G.eq(g('error of the mean over the last samples'), out[4],
         jnp.sum((lm - p) ** 2) / n)
    G.eq(g('error of the variance over the last samples'), out[5],
         jnp.sum((lv - p * (1 - p)) ** 2) / n)

  return Obligation('moments', dict(T=2, b=2, n=1), inputs, body,
                    under=[V + 'bernoulli_eval.py:Bernoullievaluator.' + u
                           for u in ('evaluate', '_compute_error',
                                     '_compute_error_across_chain_and_batch',
                                     '_get_ubbiased_sample_variance',
                                     '_get_max_mse_error', '_get_mse',
                                     '_get_sample_mean')] + [
                                         'discs/models/bernoulli.py:' + u
                                         for u in ('get_expected_val',
                                                   'get_var')],
                    strict=True, props=(P,), concrete_dims=[
                        dict(T=3, b=2, n=4), dict(T=2, b=3, n=1),
                        dict(T=5, b=4, n=3)], deadline=60)


# ---------------------------------------------------------------- n-grams
def grams(sents, n):
  return Counter(tuple(s[i:i + n]) for s in sents
                 for i in range(len(s) - n + 1))


def ngrams(P='C18'):
  """bounded: seeded corpora over a small alphabet."""

  def body(G, d, I):
    from discs.evaluators import lm_eval  # pylint: disable=import-outside-toplevel
    import os  # pylint: disable=import-outside-toplevel
    import tempfile  # pylint: disable=import-outside-toplevel
    from nltk.translate import bleu_score  # pylint: disable=import-outside-toplevel
    g = lambda n: '%s.%s' % (P, n)
    rs = np.random.RandomState(getattr(H.MODE, 'seed', 0))
    ev = lm_eval.LMevaluator(Conf(max_n_grams=4))

    def corpus(k):
      return [[('a', 'b', 'c', 'D', '``')[i] for i in rs.randint(
          0, 5, rs.randint(4, 8))] for _ in range(k)]

    def write(path, c):
      with open(path, 'w') as f:
        f.write('\n'.join(' '.join(s) for s in c) + '\n')

    ok = {}
    for _ in range(4):
      sents, tbc, wiki = corpus(rs.randint(1, 5)), corpus(3), corpus(4)
      with tempfile.TemporaryDirectory() as tmp:
        write(os.path.join(tmp, 'tbc_remove_infill.5k.txt'), tbc)
        write(os.path.join(tmp, 'wiki103_remove_infill.5k.txt'), wiki)
        import builtins  # pylint: disable=import-outside-toplevel
        old, builtins.print = builtins.print, lambda *a, **k: None
        try:
          res = ev.evaluate([' '.join(s) for s in sents], tmp)
        finally:
          builtins.print = old
      low = lambda c: [[t.lower() for t in s] for s in c]
      wiki_, tbc_ = low(wiki), [[{'``': '"', "''": '"'}.get(t, t) for t in s]
                                for s in low(tbc)]
      want = {}
      for name, refs in (('wiki', wiki_), ('tbc', tbc_)):
        for n in range(1, 5):
          a, b = grams(sents, n), grams(refs, n)
          want['unique_%s_%d_grams' % (name, n)] = sum(
              1 for q in a if q not in b) / sum(a.values())
      for n in range(1, 5):
        a = grams(sents, n)
        want['unique_self_%d_grams' % n] = sum(
            1 for q in a if a[q] == 1) / sum(a.values())
      q4 = (0.25,) * 4
      for name, refs in (('tbc_bleu', tbc_), ('wiki_bleu', wiki_),
                         ('tbc_wiki_bleu', tbc_ + wiki_)):
        want[name] = bleu_score.corpus_bleu([refs] * len(sents), sents, q4)
      if len(sents) > 1:
        want['self_bleu'] = bleu_score.corpus_bleu(
            [sents[:i] + sents[i + 1:] for i in range(len(sents))], sents, q4)
      for q, v in want.items():
        good = q in res and abs(float(res[q]) - float(v)) < 1e-9
        kind = q if 'bleu' in q else 'unique ' + q.split('_')[1] + ' n-grams'
        ok[kind] = ok.get(kind, True) and good
      ok['sentences kept'] = ok.get('sentences kept', True) and (
          res['infill_sents'] == [' '.join(s) for s in sents])
    for q in sorted(ok):
      G.true(g('language metrics: ' + q), jnp.asarray(bool(ok[q])))

  return Obligation('ngrams', {}, lambda d: dict(z=real()), body,
                    under=[V + 'lm_eval.py:LMevaluator.' + u for u in (
                        'evaluate', 'corpus_bleu', 'self_bleu',
                        'get_ngram_counts', 'ref_unique_ngrams',
                        'self_unique_ngrams', 'prepare_data', 'prepare_wiki',
                        'prepare_tbc')],
                    strict=True, props=(P,), concrete_dims=[{}], samples=6,
                    trusted=['nltk corpus_bleu'],
                    bounded='seeded corpora of up to 5 sentences over a '
                            'five-word alphabet')


def obligations(tier='quick'):
  return [ess(), moments(), ngrams()]
