"""The configuration a run works with (C22).

The numbers in every configuration file are symbolic (the merge must not look
at them); names and flags are distinct words.  The command-line flags hold
ConfigDicts directly; the graph data set's own configuration and the four
components are stand-in modules, so the merge and the entry point are checked
against their contracts (`get_model_config(cfg_str)`, `build_*(config)`)."""
import contextlib
import glob
import importlib
import importlib.util
import os
import sys
import types

import jax.numpy as jnp
from ml_collections import config_dict

import harness as H
import loops
from common import *  # pylint: disable=wildcard-import
from graphs import bounded, quiet

MS = 'discs/experiment/main_sampling.py:'
CD = config_dict.ConfigDict
COMMON = ('num_models', 'batch_size', 'chain_length', 'ess_ratio',
          'shuffle_buffer_size', 'log_every_steps', 'plot_every_steps',
          'save_every_steps', 'window_size', 'window_stride')
WORDS = dict(name='Exp', evaluator='some_eval', save_root='some/where',
             fig_folder='figs', run_parallel=False, save_samples=True,
             get_additional_metrics=True, co_opt_prob=False)
NEW = ('decay_rate', 'init_temperature')  # not among the common settings
MODEL = ('lambdaa', 'penalty', 'num_categories')
GRAPH = ('penalty', 'max_num_nodes', 'num_models')
SAMPLER = ('proposal_temp', 'num_flips')


def _mod():
  with quiet():
    return importlib.import_module('discs.experiment.main_sampling')


@contextlib.contextmanager
def flags_set(**kw):
  from absl import flags  # pylint: disable=import-outside-toplevel
  F = flags.FLAGS
  F.mark_as_parsed()
  old = {k: F[k].value for k in kw}
  try:
    for k, v in kw.items():
      F[k].value = v
    yield
  finally:
    for k, v in old.items():
      F[k].value = v


@contextlib.contextmanager
def replaced(source, mod, **kw):
  """functions of module `source`, wherever `mod` got them from."""
  here = {n: new for k, new in kw.items() for n, v in vars(mod).items()
          if v is getattr(source, k)}
  with loops.patched(source, **kw), loops.patched(mod, **here):
    yield


@contextlib.contextmanager
def modules(**kw):
  """stand-in modules (keys: dotted names with __ for the dots)."""
  kw = {k.replace('__', '.'): v for k, v in kw.items()}
  old = {k: sys.modules.get(k) for k in kw}
  sys.modules.update(kw)
  try:
    yield
  finally:
    for k, v in old.items():
      if v is None:
        sys.modules.pop(k, None)
      else:
        sys.modules[k] = v


def pick(keys, how):
  ks = list(keys)
  return dict(all=ks, none=[], even=ks[::2], odd=ks[1::2])[how]


def names():
  return (['c_' + k for k in COMMON] + ['e_' + k for k in COMMON + NEW] +
          ['m_' + k for k in MODEL] + ['g_' + k for k in GRAPH] +
          ['s_' + k for k in SAMPLER])


class Case:
  """configuration files of one kind of model; `how`: which optional settings
  the experiment file gives."""

  def __init__(self, kind, how, I, local):
    self.kind, self.how, self.I, self.local = kind, how, I, local
    v = lambda k: getattr(I, k)
    self.exp = {k: v('e_' + k) for k in pick(COMMON + NEW, how)}
    self.exp.update({k: WORDS[k] for k in pick(WORDS, how)})
    self.model = {k: v('m_' + k) for k in MODEL}
    self.model.update(name='vpm', shape=(3, 2), data_root='data')
    if how in ('all', 'odd'):
      self.model['save_dir_name'] = 'vpdir'
    if kind == 'graph':
      self.model.update(graph_type='vpg', cfg_str='r-a-b,x-1')
    if kind == 'text':
      self.model['bert_model'] = 'bert'
    self.graph = {k: v('g_' + k) for k in GRAPH}
    self.graph['rand_type'] = 'a-b'
    self.sampler = {k: v('s_' + k) for k in SAMPLER}
    self.sampler.update(name='vps', balancing_fn_type='SQRT', adaptive=True)
    self.asked = []

  @contextlib.contextmanager
  def setting(self, extra=None):
    mod = _mod()
    from discs.common import configs  # pylint: disable=import-outside-toplevel
    real_ = configs.get_config
    self.common = real_()

    def get_config():
      c = real_().to_dict()
      for k in COMMON:
        c['experiment'][k] = getattr(self.I, 'c_' + k)
      return CD(c)

    def get_model_config(s):
      self.asked.append(s)
      return CD(dict(self.graph))

    g = types.ModuleType('vpg')
    g.get_model_config = get_model_config
    with replaced(configs, mod, get_config=get_config), modules(
        discs__models__configs__vpm__vpg=g, **(extra or {})), flags_set(
            model_config=CD(self.model), sampler_config=CD(self.sampler),
            config=CD(dict(experiment=self.exp)), run_local=self.local):
      yield mod

  def want(self):
    """documented precedence -> (experiment, model, sampler)."""
    e = self.common.experiment.to_dict()
    for k in COMMON:
      e[k] = getattr(self.I, 'c_' + k)
    m = dict(self.common.model.to_dict(), **self.model)
    s = dict(self.common.sampler.to_dict(), **self.sampler)
    if self.kind == 'graph':
      m.update(self.graph)
      e.update(evaluator='co_eval', name='CO_Experiment', co_opt_prob=True)
    e.update(self.exp)
    if self.kind == 'graph':
      e['num_models'] = m['num_models']
    return e, m, s


def check(G, P, got, want):
  G.true('C22.%s: the settings are those of the files' % P, jnp.asarray(
      set(got) == set(want)))
  for k, v in want.items():
    if isinstance(v, (str, bool, tuple)) or v is None:
      G.true('C22.%s.%s comes from the right file' % (P, k), jnp.asarray(
          k in got and type(got[k]) is type(v) and got[k] == v))
    else:
      G.eq('C22.%s.%s comes from the right file' % (P, k), got[k], v)


def merge(kind, how):

  def body(G, d, I):
    c = Case(kind, how, I, local=how in ('all', 'none'))
    with c.setting() as mod:
      got = mod.get_main_config()
      mod.update_save_dir(got)
    e, m, s = c.want()
    if c.local:
      e['save_root'] = './discs/results/' + c.model.get('save_dir_name', 'vpm')
    G.true('C22.the sections are the documented ones', jnp.asarray(
        set(got) == {'experiment', 'model', 'sampler'}))
    check(G, 'experiment', got.experiment, e)
    check(G, 'model', got.model, m)
    check(G, 'sampler', got.sampler, s)
    if kind == 'graph':
      G.true('C22.the graph data set is configured with its own string',
             jnp.asarray(bool(c.asked) and set(c.asked) == {'r-a-b,x-1'}))

  return Obligation(
      'settings/merge/%s/%s' % (kind, how), {},
      lambda d: {k: real() for k in names()}, body,
      under=[MS + 'get_main_config', MS + 'update_save_dir'], props=('C22',),
      concrete_dims=[{}], samples=2, deadline=30,
      trusted=['ml_collections (ConfigDict.update, run as is)',
               'command-line parsing (flags hold the files\' contents)'])


def entry(kind, how):

  def body(G, d, I):
    c = Case(kind, how, I, local=False)
    c.exp.update(name='VpExperiment', evaluator='vpe', save_root='/nowhere')
    log = []

    def build(what):
      def f(config):
        log.append((what, config, object()))
        return log[-1][2]
      return f

    def part(what):
      m = types.ModuleType(what)
      setattr(m, 'build_' + what, build(what))
      return m

    runs = []

    class Exp:

      def __init__(self, config):
        self.config = config

      def get_results(self, model, sampler, evaluator, saver):
        runs.append((self.config, model, sampler, evaluator, saver))

    with quiet():
      sampling = importlib.import_module('discs.experiment.sampling')
      saver_mod = importlib.import_module('discs.common.experiment_saver')
      utils = importlib.import_module('discs.common.utils')
    with c.setting(dict(
        discs__models__vpm=part('model'), discs__samplers__vps=part('sampler'),
        discs__evaluators__vpe=part('evaluator'))) as mod:
      saver = build('saver')
      sampling.VpExperiment = Exp
      try:
        with replaced(saver_mod, mod, build_saver=saver), replaced(
            utils, mod, setup_logging=lambda config: None):
          mod.main(['main'])
      finally:
        del sampling.VpExperiment
    G.true('C22.the run is started once', jnp.asarray(len(runs) == 1))
    if len(runs) != 1:
      return
    made = {w: o for w, _, o in log}
    for i, w in enumerate(('model', 'sampler', 'evaluator', 'saver'), 1):
      G.true('C22.the run works with the configured %s' % w, jnp.asarray(
          runs[0][i] is made.get(w)))
    e, m, s = c.want()
    for w, got in [('experiment', runs[0][0])] + [x[:2] for x in log]:
      for sec, want in (('experiment', e), ('model', m), ('sampler', s)):
        check(G, 'the %s sees %s' % (w, sec), got[sec], want)

  return Obligation(
      'settings/run/%s' % kind, {}, lambda d: {k: real() for k in names()},
      body, under=[MS + 'main', MS + 'get_main_config'], props=('C22',),
      concrete_dims=[{}], samples=2, deadline=40,
      trusted=['build_model/build_sampler/build_evaluator/build_saver '
               '(stand-ins)', 'setup_logging'])


# ------------------------------------------------------------------ shipped
def _file(path):
  s = importlib.util.spec_from_file_location('vp_cfg', path)
  m = importlib.util.module_from_spec(s)
  s.loader.exec_module(m)
  return m.get_config()


def leaves(c):
  return {k: v for k, v in c.items() if not isinstance(v, CD)}


def ob_shipped():
  def body(C, rs):
    root = os.path.join(H.REPO, 'discs')
    mod = _mod()
    models = sorted(glob.glob(root + '/models/configs/*_config.py'))
    samplers = sorted(glob.glob(root + '/samplers/configs/*_config.py'))
    C.true('there are model and sampler files', bool(models and samplers))
    for mf in models:
      name = _file(mf).name
      exps = [root + '/common/configs.py']
      if 'graph_type' in _file(mf):
        exps = [f for f in sorted(glob.glob(
            root + '/experiment/configs/%s/*.py' % name))
                if not f.endswith('__init__.py')]
      if 'bert_model' in _file(mf):
        exps = [root + '/experiment/configs/lm_experiment.py']
      for ef in exps:
        for sf in samplers:
          mc, sc, ec = _file(mf), _file(sf), _file(ef)
          if 'graph_type' in mc:
            mc.graph_type = os.path.basename(ef)[:-3]
          tag = '%s, %s, %s' % tuple(os.path.basename(f)[:-3]
                                     for f in (mf, ef, sf))
          with flags_set(model_config=mc, sampler_config=sc, config=ec,
                         run_local=False):
            got = mod.get_main_config()
          for k, v in sc.items():
            C.true('sampler setting %s of (%s)' % (k, tag),
                   got.sampler[k] == v)
          for k, v in leaves(ec.experiment).items():
            if k != 'num_models':
              C.true('experiment setting %s of (%s)' % (k, tag),
                     got.experiment[k] == v)
          over = {}
          if 'graph_type' in mc:
            g = importlib.import_module('discs.models.configs.%s.%s' % (
                name, mc.graph_type))
            over = g.get_model_config(mc.cfg_str).to_dict()
            C.true('number of models of (%s)' % tag, got.experiment.num_models
                   == got.model.num_models)
          for k, v in dict(mc.to_dict(), **over).items():
            C.true('model setting %s of (%s)' % (k, tag), got.model[k] == v)
          for sec, pkg in (('model', 'models'), ('sampler', 'samplers')):
            C.true('module of the %s of (%s)' % (sec, tag), os.path.exists(
                '%s/%s/%s.py' % (root, pkg, got[sec].name)))
          C.true('evaluator of (%s)' % tag, os.path.exists(
              '%s/evaluators/%s.py' % (root, got.experiment.evaluator)))

  return bounded('settings/shipped', body, [MS + 'get_main_config'], 'C22',
                 'every combination of the shipped files', samples=1)


def ob_cfg_str():
  def body(C, rs):
    from discs.common import utils  # pylint: disable=import-outside-toplevel
    word = lambda: ''.join(rs.choice(list('abcxyz019._'), rs.randint(1, 4)))
    for _ in range(200):
      want, parts = {}, []
      for _ in range(rs.randint(1, 4)):
        k = word()
        v = '-'.join(word() for _ in range(rs.randint(1, 4)))
        want[k] = v
        parts.append(k + '-' + v)
      C.same('settings in a configuration string', utils.parse_cfg_str(
          ','.join(parts)), want)

  return bounded('settings/string', body, ['discs/common/utils.py:parse_cfg_str'],
                 'C22', '200 seeded strings')


def obligations(tier='quick'):
  return [merge(k, h) for k in ('plain', 'graph', 'text')
          for h in ('all', 'none', 'even', 'odd')] + [
              entry(k, 'odd') for k in ('plain', 'graph', 'text')] + [
                  ob_shipped(), ob_cfg_str()]
