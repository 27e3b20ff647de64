"""Graph instances: encoding, delivery, loading (C19), saved results (C20).

Bounded contracts: the functions are Python over networkx objects, pickle
files and the file system, which is outside the verification condition
generator.  They are run on enumerated small graphs / instance counts, with
files in a scratch directory."""
import builtins
import contextlib
import itertools
import math
import os
import pickle
import tempfile

import jax
import jax.numpy as jnp
import networkx as nx
import numpy as np
from ml_collections import config_dict

import harness as H
import loops
from common import *  # pylint: disable=wildcard-import

U = 'discs/common/utils.py:'
GL = 'discs/graph_loader/'


class Check:
  """collects comparisons; one goal per name (the first mismatch of it)."""

  def __init__(self, G, P):
    self.G, self.P, self.seen = G, P, {}

  def eq(self, name, got, want):
    try:
      g, w = np.asarray(got, np.float64), np.asarray(want, np.float64)
      ok = g.shape == w.shape and bool(np.all(
          (np.abs(g - w) <= 1e-4 + 1e-4 * np.abs(w)) | (g == w) | (
              np.isnan(g) & np.isnan(w))))
    except (TypeError, ValueError):
      g, w, ok = 0, 1, False
    if ok:
      self.seen.setdefault(name, True)
    elif self.seen.get(name) is not False:
      self.seen[name] = False
      if np.shape(g) == np.shape(w):
        self.G.eq('%s.%s' % (self.P, name), g, w)
      else:
        self.G.eq('%s.%s (size)' % (self.P, name), np.float64(np.size(g)),
                  np.float64(np.size(w)) if np.size(w) != np.size(g) else -1.)

  def true(self, name, c):
    self.eq(name, 1.0 if c else 0.0, 1.0)

  def same(self, name, got, want):
    self.true(name, got == want)

  def done(self):
    for n, ok in self.seen.items():
      if ok:
        self.G.true('%s.%s' % (self.P, n), True)


@contextlib.contextmanager
def quiet():
  old, builtins.print = builtins.print, lambda *a, **k: None
  try:
    yield
  finally:
    builtins.print = old


def all_graphs(nmax, nmin=1):
  for n in range(nmin, nmax + 1):
    pairs = list(itertools.combinations(range(n), 2))
    for m in range(2 ** len(pairs)):
      g = nx.Graph()
      g.add_nodes_from(range(n))
      g.add_edges_from(p for i, p in enumerate(pairs) if m >> i & 1)
      yield g


def shuffled(g, rs, directed=False):
  """the same graph with another node and edge order, and random weights."""
  h = nx.DiGraph() if directed else nx.Graph()
  h.add_nodes_from(rs.permutation(list(g.nodes())).tolist())
  es = [e if rs.rand() < .5 else e[::-1] for e in g.edges()]
  for i in rs.permutation(len(es)):
    h.add_edge(*es[i], weight=float(np.float32(rs.randn())))
  return h


def und(es):
  return sorted(tuple(sorted((int(a), int(b)))) for a, b in es)


def bounded(name, body, under, P, what, samples=2, **kw):

  def run(G, d, I):
    if H.MODE.symbolic:
      raise ContractMismatch('networkx objects and files: enumerated')
    C = Check(G, P)
    rs = np.random.RandomState(getattr(H.MODE, 'seed', 0))
    with quiet():
      body(C, rs)
    C.done()

  return Obligation(name, {}, lambda d: dict(z=real()), run, under=under,
                    strict=True, props=(P,), concrete_dims=[{}], samples=samples,
                    bounded=what, **kw)


# ------------------------------------------------------------ graph2edges
def check_edges(C, g, p, weights, bidir=True, padded=0, padw=0.0):
  E = g.number_of_edges()
  L = max(E, padded)
  ef, et, em = (np.asarray(p[k]) for k in ('edge_from', 'edge_to',
                                           'edge_mask'))
  C.eq('number of edges', np.asarray(p['num_edges']).reshape(-1), [E])
  C.same('edge arrays padded to the common length',
         (ef.shape, et.shape, em.shape), ((L,),) * 3)
  C.true('edge mask is 0/1', set(em.tolist()) <= {0, 1})
  on = [i for i in range(len(em)) if em[i] == 1]
  C.same('the unmasked entries are exactly the edges, once each',
         und((ef[i], et[i]) for i in on), und(g.edges()))
  N = max(list(g.nodes()) + [0])
  C.true('every stored endpoint is a node', bool(np.all(
      (ef >= 0) & (ef <= N) & (et >= 0) & (et <= N))))
  if weights:
    w = np.asarray(p['edge_weight'])
    C.same('one weight per entry', w.shape, (L,))
    C.eq('every edge carries its own weight', [w[i] for i in on], [
        g.edges[int(ef[i]), int(et[i])]['weight'] for i in on])
    C.eq('padding carries the padding weight', [
        w[i] for i in range(L) if em[i] == 0], [padw] * (L - len(on)))
  if bidir:
    bf, bt = np.asarray(p['bidir_edge_from']), np.asarray(p['bidir_edge_to'])
    bm = np.concatenate([em, em])
    C.same('bidirectional arrays hold two entries per edge',
           (bf.shape, bt.shape), ((2 * L,),) * 2)
    both = sorted([(int(a), int(b)) for a, b in zip(ef[em == 1], et[em == 1])]
                  + [(int(b), int(a)) for a, b in zip(ef[em == 1],
                                                      et[em == 1])])
    C.same('bidirectional arrays hold every edge in both directions', sorted(
        (int(a), int(b)) for a, b, m in zip(bf, bt, bm) if m), both)
    if weights:
      bw = np.asarray(p['bidir_edge_weight'])
      C.same('one weight per direction', bw.shape, (2 * L,))
      C.eq('both directions carry the weight of the edge', [
          bw[i] for i in range(2 * L) if bm[i]], [
              g.edges[int(bf[i]), int(bt[i])]['weight'] if g.has_edge(
                  int(bf[i]), int(bt[i])) else np.nan for i in range(2 * L)
              if bm[i]])
      C.eq('padding of both directions carries the padding weight', [
          bw[i] for i in range(2 * L) if not bm[i]], [padw] * int(
              np.sum(bm == 0)))


def ob_encode():
  def body(C, rs):
    from discs.common import utils  # pylint: disable=import-outside-toplevel
    for g0 in all_graphs(4):
      g = shuffled(g0, rs)
      E = g.number_of_edges()
      for pad in {0, max(E - 1, 0), E, E + 1 + rs.randint(3)}:
        for weights in (True, False):
          kw = {} if rs.rand() < .5 else dict(padded_weight=0.25)
          p = utils.graph2edges(g, build_bidir_edges=bool(pad % 2 == 0),
                                padded_num_edges=pad,
                                has_edge_weights=weights, **kw)
          check_edges(C, g, p, weights, pad % 2 == 0, pad,
                      kw.get('padded_weight', 0.0))
          C.true('no weights are made up', weights or not any(
              'weight' in k for k in p))

  return bounded('graph2edges', body, [U + 'graph2edges'], 'C19',
                 'all labelled graphs with up to 4 nodes')


# ------------------------------------------- loaders' encoding + objectives
def families():
  from discs.graph_loader import maxclique_loader, maxcut_loader  # pylint: disable=import-outside-toplevel
  from discs.graph_loader import mis_loader, normcut_loader  # pylint: disable=import-outside-toplevel
  return dict(maxcut=maxcut_loader.MaxcutGen, mis=mis_loader.MISGen,
              maxclique=maxclique_loader.MaxCliqueGen,
              normcut=normcut_loader.NormCutGen)


def set_sizes(o, nodes, edges, count=None):
  for k in vars(o):
    if 'node' in k:
      setattr(o, k, nodes)
    elif 'edge' in k:
      setattr(o, k, edges)
    elif 'instance' in k and count is not None:
      setattr(o, k, count)


def make_gen(base, data, nodes, edges, count=None, cats=2):
  class Gen(base):

    def sample_gen(self, phase, repeat=False):
      assert phase == 'test'
      yield from data

  o = Gen()
  set_sizes(o, nodes, edges, len(data) if count is None else count)
  o.num_categories = cats
  return o


def check_params(C, fam, g, p, nodes, edges):
  check_edges(C, g, p, fam == 'maxcut', True, edges)
  if fam != 'maxcut':
    C.eq('number of nodes', np.asarray(p['num_nodes']).reshape(-1), [len(g)])
    C.eq('node mask marks exactly the nodes of the graph', p['mask'],
         [float(i < len(g)) for i in range(nodes)])
  if fam == 'normcut':
    C.eq('node degrees are those of the graph', p['node_degrees'], [
        g.degree[i] if i in g else 0 for i in range(nodes)])


def objective(fam, g, x, C):
  """(value, penalty) of the state by definition."""
  if fam == 'maxcut':
    return sum(w for a, b, w in g.edges(data='weight') if x[a] != x[b]), 0
  on = [v for v in g.nodes() if x[v]]
  if fam == 'mis':
    return len(on), sum(1 for a, b in g.edges() if x[a] and x[b])
  if fam == 'maxclique':
    return len(on), sum(1 for a, b in itertools.combinations(on, 2)
                        if not g.has_edge(a, b))
  val = 0.
  for c in range(C):
    cut = sum(1 for a, b in g.edges() if (x[a] == c) != (x[b] == c))
    vol = sum(g.degree[v] for v in g.nodes() if x[v] == c)
    if vol == 0:
      return None, 0
    val += cut / vol
  return -val, 0


def co_model(fam, n, e, cats):
  import importlib  # pylint: disable=import-outside-toplevel
  from discs.graph_loader import graph_gen  # pylint: disable=import-outside-toplevel
  mod = importlib.import_module('discs.models.' + fam)
  conf = config_dict.ConfigDict(dict(model=dict(
      name=fam, graph_type='nets', data_root='', num_models=1, num_instances=1,
      penalty=0.0 if fam == 'normcut' else 1.5, tolerance=0.0, stype='span',
      max_num_nodes=n, max_num_edges=e, num_categories=cats, shape=(n,))))

  class NoData:
    max_num_nodes, max_num_edges, num_instances = n, e, 1

    def get_iterator(self, *a, **k):
      return iter(())

  with loops.patched(graph_gen, get_graphs=lambda c: NoData()):
    return mod.build_model(conf)


def ob_family(fam):
  def body(C, rs):
    from discs.common import utils  # pylint: disable=import-outside-toplevel
    cats = 2
    nodes, edges = 5, 7
    gen = make_gen(families()[fam], [], nodes, edges, cats=cats)
    model = co_model(fam, nodes, edges, cats)
    X = np.array(list(itertools.product(range(2), repeat=nodes)), np.int32)
    graphs = [shuffled(g, rs) for g in all_graphs(4, 2)]
    enc = []
    for g in graphs:
      p = gen.graph2edges(g)
      check_params(C, fam, g, p, nodes, edges)
      enc.append(p)
    st = utils.tree_stack(enc)
    for k in enc[0]:
      if enc[0][k] is None:
        continue
      C.eq('stacking keeps every instance in its place', st[k], np.stack(
          [np.asarray(p[k]) for p in enc]))
    pick = rs.choice(len(graphs), size=min(24, len(graphs)), replace=False)
    for i in pick:
      g, p = graphs[i], dict(enc[i])
      p['temperature'] = 1.0
      got = np.asarray(model.objective(p, jnp.asarray(X)))
      pen = np.asarray(model.penalty(p, jnp.asarray(X))) if fam in (
          'mis', 'maxclique') else np.zeros(len(X))
      want = [objective(fam, g, x, cats) for x in X]
      ok = [j for j in range(len(X)) if want[j][0] is not None]
      C.eq('the objective of the encoded instance is that of the graph',
           got[ok], [want[j][0] for j in ok])
      C.eq('the penalty of the encoded instance counts the violations of the '
           'graph', pen[ok], [1.5 * want[j][1] for j in ok])
    d, sol = gen.get_dummy_sample()
    p = gen.graph2edges(d)
    check_params(C, fam, d, p, nodes, edges)
    C.same('a padding instance has the shapes of a real one', {
        k: np.shape(v) for k, v in p.items()}, {
            k: np.shape(v) for k, v in enc[0].items()})
    C.true('a padding instance has a reference value', np.isfinite(float(sol)))

  f = {'maxcut': 'maxcut_loader.py:MaxcutGen.', 'mis': 'mis_loader.py:MISGen.',
       'maxclique': 'maxclique_loader.py:MaxCliqueGen.',
       'normcut': 'normcut_loader.py:NormCutGen.'}[fam]
  return bounded('encode/' + fam, body, [
      GL + f + 'graph2edges', GL + f + 'get_dummy_sample', U + 'graph2edges',
      U + 'tree_stack'], 'C19',
                 'all labelled graphs with 2-4 nodes, padded; objective of a '
                 'sample of 24 of them on all states')


# ----------------------------------------------------------------- iterator
def ob_iterator(fam):
  def body(C, rs):
    from discs.graph_loader import common as gc  # pylint: disable=import-outside-toplevel
    base = families()[fam]
    pool = [shuffled(g, rs) for g in all_graphs(4, 2)]
    for N in range(1, 8):
      data = [(pool[rs.randint(len(pool))], float(10 + i)) for i in range(N)]
      for B, P in ((1, 1), (2, 1), (3, 1), (4, 1), (7, 1), (9, 1), (2, 2),
                   (4, 2), (6, 2), (6, 3)):
        got = {}
        for q in range(P):
          gen = make_gen(base, data, 5, 7)
          with loops.patched(gc.jax, process_index=lambda: q,  # pylint: disable=cell-var-from-loop
                             process_count=lambda: P):  # pylint: disable=cell-var-from-loop
            bs = list(gen.get_iterator('test', B, sharding=True) if P > 1
                      else gen.get_iterator('test', B))
          C.eq('one batch per started group of instances', len(bs),
               math.ceil(N / B))
          C.true('every batch is full', all(len(b) == B // P for b in bs))
          seq = []
          for b in bs:
            for idx, p, sol in b:
              seq.append(int(idx))
              if idx < 0:
                continue
              got.setdefault(int(idx), []).append(q)
              g, s = data[int(idx)]
              C.eq('an instance comes with its own reference value', sol, s)
              check_params(C, fam, g, p, 5, 7)
          real_ = [i for i in seq if i >= 0]
          C.same('instances come in order, padding last', seq,
                 sorted(real_) + [-1] * (len(seq) - len(real_)))
        C.same('every instance is delivered exactly once', {
            k: len(v) for k, v in got.items()}, {i: 1 for i in range(N)})

  return bounded('iterator/' + fam, body, [
      GL + 'common.py:GraphGenerator.get_iterator'], 'C19',
                 'up to 7 instances, batches of up to 9, up to 3 processes')


# ------------------------------------------------------------------ loaders
def _conf(**kw):
  base = dict(max_num_nodes=0, max_num_edges=0, num_instances=0,
              num_categories=2, graph_type='er', rand_type='x', data_root='')
  base.update(kw)
  return config_dict.ConfigDict(dict(model=base))


def same_graph(a, b, weights=False):
  if sorted(a.nodes()) != sorted(b.nodes()) or und(a.edges()) != und(b.edges()):
    return False
  return not weights or all(abs(a.edges[e]['weight'] - b.edges[e]['weight'])
                            < 1e-6 for e in a.edges())


def sizes(data):
  return (max(len(g) for g, _ in data),
          max(g.number_of_edges() for g, _ in data), len(data))


def check_loader(C, who, conf, data, weights, fix=True):
  from discs.graph_loader import graph_gen  # pylint: disable=import-outside-toplevel
  from discs.common import utils  # pylint: disable=import-outside-toplevel
  for given in (False, True):
    if given:
      if not fix:
        break
      n, e, k = sizes(data)
      conf = conf.copy_and_resolve_references()
      conf.model.update(max_num_nodes=n + 1, max_num_edges=e + 2,
                        num_instances=k)
    L = graph_gen.get_graphs(conf)
    n, e, k = sizes(data)
    if given:
      C.same('configured sizes are used', (
          L.max_num_nodes, L.max_num_edges, L.num_instances), (n + 1, e + 2,
                                                               k))
    else:
      C.same('sizes cover every instance of the data set', (
          L.max_num_nodes, L.max_num_edges, L.num_instances), (n, e, k))
    got = list(L.sample_gen('test'))
    C.eq('%s: as many instances as the data set holds' % who, len(got),
         len(data))
    C.true('%s: every graph of the data set, in file order' % who, all(
        same_graph(a[0], b[0], weights) for a, b in zip(got, data)))
    C.eq('%s: every graph with its own reference value' % who, [
        float(a[1]) for a in got], [float(b[1]) for b in data])
    rep = list(itertools.islice(L.sample_gen('test', repeat=True),
                                2 * len(data)))
    C.true('%s: repetition starts over' % who, all(
        same_graph(a[0], b[0], weights) for a, b in zip(rep, data + data)))
    it = list(L.get_iterator('test', 2))
    C.eq('every instance is delivered exactly once', [
        i for b in it for i, _, _ in b if i >= 0], list(range(len(data))))
    conf2 = conf.copy_and_resolve_references()
    conf2.model.num_models = 2
    it2 = list(utils.get_datagen(conf2))
    C.same('%s: the configuration gets the sizes of the data set' % who, (
        conf2.model.max_num_nodes, conf2.model.max_num_edges,
        tuple(conf2.model.shape)), (L.max_num_nodes, L.max_num_edges,
                                    (L.max_num_nodes,)))
    C.same('%s: the data generator delivers the batches of the iterator' % who,
           [[int(i) for i, _, _ in b] for b in it2],
           [[int(i) for i, _, _ in b] for b in it])


def dump(path, *objs):
  os.makedirs(os.path.dirname(path), exist_ok=True)
  with open(path, 'wb') as f:
    for o in objs:
      pickle.dump(o, f)


def cnf_graph(clauses):
  """conflict graph of a 3-CNF: a node per literal occurrence."""
  lits = [l for c in clauses for l in c]
  g = nx.Graph()
  for i, j in itertools.combinations(range(len(lits)), 2):
    if i // 3 == j // 3 or lits[i] == -lits[j]:
      g.add_edge(i, j)
  return g


def ob_loaders():
  def body(C, rs):
    pool = [shuffled(g, rs) for g in all_graphs(4, 2)
            if g.number_of_edges() > 0]

    def data(k):
      return [(pool[rs.randint(len(pool))], float(3 + i)) for i in range(k)]

    def files(k):  # names whose sorted order differs from creation order
      return ['%02d' % i for i in rs.permutation(90)[:k]]

    with tempfile.TemporaryDirectory() as tmp:
      # maxcut: several files, several (graph, [value]) records each
      ds = {f: data(2) for f in files(3)}
      for f, v in ds.items():
        dump(os.path.join(tmp, 'maxcut-er', 'maxcut-0.1', 'test-' + f + '.pkl'),
             *[(g, [s, -1.]) for g, s in v])
      dump(os.path.join(tmp, 'maxcut-er', 'maxcut-0.1', 'train-0.pkl'),
           (pool[0], [99.]))
      check_loader(C, 'maxcut', _conf(graph_type='er', rand_type='0.1',
                                      data_root=tmp),
                   [x for f in sorted(ds) for x in ds[f]], True)
      for f, v in ds.items():
        dump(os.path.join(tmp, 'maxcut-ba', 'maxcut-ba-4', 'test-' + f),
             *[(g, [s, -1.]) for g, s in v])
      check_loader(C, 'maxcut', _conf(graph_type='ba', rand_type='ba-4',
                                      data_root=tmp),
                   [x for f in sorted(ds) for x in ds[f]], True)
      # optsicom, stored instances
      v = data(3)
      dump(os.path.join(tmp, 'optsicom', 'b.pkl'), *[(g, [s]) for g, s in v])
      check_loader(C, 'optsicom', _conf(graph_type='optsicom', rand_type='b',
                                        data_root=tmp), v, True, fix=False)
      # independent set: labelled nodes give the reference value
      ds = {f: data(1)[0][0] for f in files(4)}
      want = []
      for j, f in enumerate(sorted(ds)):
        g = ds[f].copy()
        lab = {}
        if j != 1:
          lab = {u: int(rs.randint(2)) for u in g.nodes()}
          lab[0] = 1
          nx.set_node_attributes(g, lab, 'label')
        want.append((g, float(sum(lab.values()) or 1)))
        dump(os.path.join(tmp, 'er_700_test', 'ER' + f + '.pkl'), g)
      dump(os.path.join(tmp, 'er_700_test', 'readme'), 0)
      check_loader(C, 'er test', _conf(graph_type='ertest', rand_type='700',
                                       data_root=tmp), want, False)
      v = data(3)
      dump(os.path.join(tmp, 'er_700_800', 'ER-700-800-0.2.pkl'),
           [g for g, _ in v])
      check_loader(C, 'er density', _conf(graph_type='er_density',
                                          rand_type='0.2', data_root=tmp),
                   [(g, 1.) for g, _ in v], False, fix=False)
      # satlib
      want = []
      for f in sorted(files(3)):
        cl = []
        nv = rs.randint(3, 6)
        for _ in range(rs.randint(2, 5)):
          vs = rs.permutation(nv)[:3] + 1
          cl.append([int(x) * int(rs.choice([-1, 1])) for x in vs])
        path = os.path.join(tmp, 'satlib_test', f + '.cnf')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as h:
          h.write('c x\np cnf %d %d\n' % (nv, len(cl)))
          for c in cl:
            h.write(' '.join(map(str, c)) + ' 0\n')
        want.append((cnf_graph(cl), 1.))
      check_loader(C, 'satlib', _conf(graph_type='satlib', data_root=tmp), want,
                   False)
      # maxclique
      ds = {f: data(2) for f in files(2)}
      for f, v in ds.items():
        dump(os.path.join(tmp, 'RB_test', 'RB' + f), [(s, g) for g, s in v])
        dump(os.path.join(tmp, 'twitter', 'twitter' + f), (
            [g for g, _ in v], [s for _, s in v]))
      want = [x for f in sorted(ds) for x in ds[f]]
      check_loader(C, 'rb', _conf(graph_type='rb', data_root=tmp), want, False)
      check_loader(C, 'twitter', _conf(graph_type='twitter', data_root=tmp),
                   want, False)
      # normalised cut
      g = data(1)[0][0]
      dump(os.path.join(tmp, 'nets', 'VGG.pkl'), g)
      check_loader(C, 'nets', _conf(graph_type='nets', rand_type='VGG',
                                    data_root=tmp), [(g, 1.)], False, fix=False)
      ds = {f: data(1)[0][0] for f in files(3)}
      for f, g in ds.items():
        dump(os.path.join(tmp, 'gap_rand', 'r1', f + '.pkl'), g)
      v = [(ds[f], 1.) for f in sorted(ds)]
      n, e, k = sizes(v)
      L = _conf(graph_type='gap_rand', rand_type='r1', data_root=tmp,
                max_num_nodes=n, max_num_edges=e, num_instances=k)
      check_loader(C, 'gap', L, v, False)

  names = ['maxcut_loader.py:RandGraphGen', 'maxcut_loader.py:OptsicomStatic',
           'mis_loader.py:ErTestGraphGen', 'mis_loader.py:ErDensityGraphGen',
           'mis_loader.py:SatLibGraphGen', 'maxclique_loader.py:RBTestGraphGen',
           'maxclique_loader.py:TwitterGraphs',
           'normcut_loader.py:ComputationGraphs', 'normcut_loader.py:RandGraphs']
  return bounded('loaders', body, [GL + n for n in names] + [
      GL + 'mis_loader.py:SatLibGraphGen.cnf2graph',
      GL + 'graph_gen.py:get_graphs', U + 'get_datagen',
      U + 'update_graph_cfg'], 'C19',
                 'small synthetic data sets of every supported format',
                 trusted=['pickle5', 'pysat CNF parser', 'networkx'])


def ob_optsicom():
  names = ['sg3dl05%d000.mc' % i for i in range(1, 11)]

  def body(C, rs):
    from discs.graph_loader import maxcut_loader as ml  # pylint: disable=import-outside-toplevel
    pool = [shuffled(g, rs) for g in all_graphs(4, 3)
            if g.number_of_edges() and nx.number_of_isolates(g) == 0]
    with tempfile.TemporaryDirectory() as tmp:
      os.makedirs(os.path.join(tmp, 'optsicom'))
      want = []
      for f in names:
        g = pool[rs.randint(len(pool))].copy()
        for e in g.edges():
          g.edges[e]['weight'] = float(rs.choice([-2, -1, 1, 3]))
        want.append((g, 1.))
        with open(os.path.join(tmp, 'optsicom', f), 'w') as h:
          h.write('%d %d\n' % (len(g), g.number_of_edges()))
          for a, b, w in g.edges(data='weight'):
            h.write('%d %d %d\n' % (a + 1, b + 1, int(w)))
      with loops.patched(ml, __file__=os.path.join(tmp, 'maxcut_loader.py')):
        check_loader(C, 'optsicom', _conf(graph_type='optsicom',
                                          rand_type='0.5'), want, True,
                     fix=False)
        np.random.seed(0)
        for rt, bias, ok in (('0.5', 0, None), ('0.5b', 1, None)):
          o = ml.OptsicomGen(rt)
          zero = ml.OptsicomGen('0.0' + ('b' if bias else ''))
          for i, (g, _) in enumerate(want):
            h = zero.gen_graph(i, rand_weight=True)
            k = g.copy()
            for e in k.edges():
              k.edges[e]['weight'] += bias
            C.true('random weights are the stored ones plus noise and bias',
                   same_graph(h, k, True))
            h = o.gen_graph(i, rand_weight=True)
            C.true('random weights keep the graph', same_graph(h, g))

  return bounded('optsicom', body, [
      GL + 'maxcut_loader.py:OptsicomGen.' + u for u in (
          '__init__', 'gen_graph', 'sample_gen')], 'C19',
                 'ten synthetic instances')


def ob_random_graphs():
  def body(C, rs):
    from discs.graph_loader import common as gc  # pylint: disable=import-outside-toplevel
    np.random.seed(getattr(H.MODE, 'seed', 0))
    made = 0
    for i in range(60):
      lo = rs.randint(2, 6)
      hi = lo + rs.randint(0, 4)
      kw = [dict(), dict(w_type='int', w_min=2, w_max=5), dict(
          w_type='uniform', w_min=1.0, w_max=2.0), dict(
              w_type='normal', w_std=0.0, w_mean=7.0)][i % 4]
      if i % 3 == 0:
        g = gc.gen_connected('barabasi_albert', max(lo, 3), max(hi, 3), ba_m=2,
                             **kw)
        lo, hi = max(lo, 3), max(hi, 3)
      else:
        g = gc.gen_connected('erdos_renyi', lo, hi, er_p=0.5, **kw)
      if g is None:
        continue
      made += 1
      C.same('a random graph has nodes 0..n-1', sorted(g.nodes()), list(
          range(len(g))))
      C.true('a random graph has the requested size', lo <= len(g) <= hi)
      C.true('a random graph is connected', nx.is_connected(g))
      rng = {1: (2, 4), 2: (1., 2.), 3: (7., 7.)}.get(i % 4)
      if rng:
        C.true('every edge has a weight in the requested range', all(
            rng[0] <= w <= rng[1] for _, _, w in g.edges(data='weight')))
    C.true('random graphs are produced', made > 20)

  return bounded('random graphs', body, [GL + 'common.py:gen_connected'],
                 'C19', '60 seeded calls')


def obligations(tier='quick'):
  fams = ('maxcut', 'mis', 'maxclique', 'normcut')
  return [ob_encode()] + [ob_family(f) for f in fams] + [
      ob_iterator(f) for f in fams] + [ob_loaders(), ob_optsicom(),
                                       ob_random_graphs()]
