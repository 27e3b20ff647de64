"""check.py <ID>: decide one property on the current tree of /repo.

For every obligation carrying goals of the property (one forked process
each): run it on concrete inputs against the real code, then generate the
verification conditions from the current source and discharge them for all
inputs and sizes.
"""
import hashlib
import json
import os
import pickle
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'contracts')]
sys.setrecursionlimit(100000)
WALL = float(os.environ.get('VERIF_WALL', '780'))
T0 = time.time()


def log(*a):
  print(*a, flush=True)


def worker(ob, prop, seed, tier, out):
  """runs in its own process; the result is written to `out` (json)."""
  import harness as H  # pylint: disable=import-outside-toplevel
  import prove as P  # pylint: disable=import-outside-toplevel
  import sym  # pylint: disable=import-outside-toplevel
  R = dict(name=ob.name, status='error', goals=[], concrete=0, notes=[],
           violation=None, failed=[], level='proof', under=list(ob.under),
           trusted=list(ob.trusted), cpu=0.0)

  def done():
    R['stats'] = {k: (round(v, 3) if isinstance(v, float) else v)
                  for k, v in P.STATS.items()}
    R['cpu'] = round(time.process_time(), 2)
    with open(out, 'w') as f:
      json.dump(R, f, default=str)

  def violated(goal, detail, dims, s, inputs):
    R['status'] = 'violated'
    R['violation'] = dict(
        goal=goal, detail=str(detail)[:2000], dims=dims, seed=s,
        inputs={k: _np(v) for k, v in (inputs or {}).items()})
    done()

  mismatch = None

  def concrete(seeds, dims_list, t_max):
    """-> True when a violation was recorded."""
    nonlocal mismatch
    t = time.process_time()
    for s in seeds:
      for cd in dims_list:
        if time.process_time() - t > t_max:
          return False
        try:
          bad, ins, _ = H.run_concrete(ob, cd, s, prop=prop)
        except H.Infeasible:
          continue
        except (H.ContractMismatch, sym.Unsupported) as e:
          mismatch = 'concrete: %s' % e
          return False
        except Exception as e:  # pylint: disable=broad-except
          tb = traceback.format_exc()
          if _blames_repo(tb, ob.strict) and ob.blackbox is None:
            violated('raises on a valid input', tb[-1500:], cd, s, None)
            return True
          mismatch = 'concrete: %s: %s' % (type(e).__name__, tb[-600:])
          return False
        R['concrete'] += 1
        if bad:
          violated(bad[0][0], bad[0][1], cd, s, ins)
          return True
    return False

  def blackbox(seeds):
    if ob.blackbox is None:
      return False
    for s in seeds:
      try:
        bad = ob.blackbox(s)
      except Exception:  # pylint: disable=broad-except
        tb = traceback.format_exc()
        if _blames_repo(tb, getattr(ob.blackbox, 'genuine', False)):
          violated('raises on a valid input', tb[-1500:], 'black box', s, None)
          return True
        R['notes'].append('black-box stand-in failed to run: ' + tb[-400:])
        return False
      bad = [b for b in bad if b[0].startswith(prop + '.')]
      R['notes'].append('black-box stand-in run (seed %d)' % s)
      if bad:
        violated(bad[0][0], bad[0][1], 'black box', s, None)
        return True
    return False

  ns = ob.samples * (3 if tier == 'thorough' else 1)
  if concrete(range(seed - 1, seed - 1 + ns), ob.concrete_dims, 60):
    return
  if ob.bounded:
    R['level'] = 'bounded'
    R['notes'].append('bounded: ' + ob.bounded)
  # ---- deductive step
  fixed = None
  try:
    if mismatch:
      raise H.ContractMismatch(mismatch)
    try:
      res, _, _ = H.prove(ob, prop, stop_first=True, fixed=ob.bounded_dims)
    except (H.ContractMismatch, P.Timeout):
      raise
    except Exception as e:  # pylint: disable=broad-except
      # the verification condition generator cannot follow the code with
      # symbolic sizes; fall back to fixed sizes (all values)
      R['notes'].append('no symbolic-size VC: %s: %s' % (
          type(e).__name__, str(e)[-300:]))
      fixed = ob.concrete_dims[0]
      R['level'] = 'bounded'
      for x in list(sys.modules):
        pass
      res, _, _ = H.prove(ob, prop, stop_first=True, fixed=fixed)
      R['notes'].append('bounded proof: sizes %s, all values' % (fixed,))
  except Exception as e:  # pylint: disable=broad-except
    R['notes'].append('no VC: %s: %s' % (type(e).__name__, str(e)[-500:]))
    R['level'] = 'bounded'
    if concrete(range(seed + 100, seed + 112), ob.concrete_dims, 120):
      return
    if blackbox(range(seed, seed + 3)):
      return
    R['status'] = 'bounded'
    done()
    return
  R['goals'] = [(n, st, round(t, 2)) for n, st, _, t in res]
  R['failed'] = [(n, d[:3000]) for n, st, d, _ in res if st != 'proved']
  if not R['failed']:
    R['status'] = 'proved' if R['level'] == 'proof' else 'bounded'
    done()
    return
  if concrete(range(seed + 100, seed + 130), ob.concrete_dims, 60):
    return
  if blackbox(range(seed, seed + 2)):
    return
  R['status'] = 'failed' if fixed is None else 'bounded'
  done()


def _np(v):
  import numpy as np  # pylint: disable=import-outside-toplevel
  a = np.asarray(v)
  return a.tolist() if a.size <= 400 else 'array%s' % (a.shape,)


def _blames_repo(tb, strict=False):
  """was the exception raised by the code under contract?  Its innermost frame
  outside libraries is the code's; unless the contract hands it nothing but
  genuine inputs (strict), also not deep inside a library."""
  lines = [l for l in tb.splitlines() if l.strip().startswith('File "')]
  own = [i for i, l in enumerate(lines)
         if '/site-packages/' not in l and '/lib/python3' not in l
         and '<frozen' not in l and '<__array' not in l]
  if not own or '/repo/discs' not in lines[own[-1]]:
    return False
  return strict or len(lines) - own[-1] <= 4


def run_all(obs, prop, seed, tier, tmp):
  pending = sorted(range(len(obs)), key=lambda i: -getattr(obs[i], 'cost', 1))
  live = {}
  results = {}
  jobs = int(os.environ.get('VERIF_JOBS', '8'))
  stop = False
  while pending or live:
    while pending and len(live) < jobs and not stop:
      i = pending.pop(0)
      out = os.path.join(tmp, '%d.json' % i)
      sys.stdout.flush()
      pid = os.fork()
      if pid == 0:
        code = 0
        try:
          devnull = os.open(os.devnull, os.O_WRONLY)
          if not os.environ.get('VERIF_DEBUG'):
            os.dup2(devnull, 2)
          worker(obs[i], prop, seed, tier, out)
        except BaseException:  # pylint: disable=broad-except
          with open(out, 'w') as f:
            json.dump(dict(name=obs[i].name, status='error',
                           notes=[traceback.format_exc()[-2000:]]), f)
          code = 3
        finally:
          os._exit(code)  # pylint: disable=protected-access
      live[pid] = (i, time.time())
    if stop and not live:
      break
    left = WALL - (time.time() - T0)
    if left <= 0:
      for pid in live:
        os.kill(pid, signal.SIGKILL)
    pid, _ = os.waitpid(-1, os.WNOHANG)
    if pid == 0:
      time.sleep(0.05)
      continue
    i, t = live.pop(pid)
    out = os.path.join(tmp, '%d.json' % i)
    try:
      with open(out) as f:
        r = json.load(f)
    except Exception:  # pylint: disable=broad-except
      r = dict(name=obs[i].name, status='killed', notes=['no result'])
    r['wall'] = round(time.time() - t, 1)
    results[i] = r
    if os.environ.get('VERIF_VERBOSE'):
      log('  %-45s %-9s %6.1fs goals=%d conc=%d %s' % (
          r['name'], r['status'], r['wall'], len(r.get('goals', [])),
          r.get('concrete', 0), '; '.join(r.get('notes', []))[-300:]))
    if r['status'] == 'violated':
      # a concrete failing input decides the property; stop early
      for p in live:
        os.kill(p, signal.SIGKILL)
      stop = True
      pending = []
    if left <= 0:
      pending_left = pending
      for i2 in pending_left:
        results[i2] = dict(name=obs[i2].name, status='killed',
                           notes=['wall-clock budget exhausted'])
      pending = []
  return [results[i] for i in sorted(results)]


def main():
  prop = sys.argv[1]
  tier = 'thorough' if '--thorough' in sys.argv else os.environ.get(
      'VERIF_TIER', 'quick')
  tier = tier if tier in ('quick', 'thorough') else 'quick'
  if tier == 'thorough':
    global WALL
    WALL = float(os.environ.get('VERIF_WALL', '7000'))
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  only = [a for a in sys.argv[2:] if not a.startswith('--')]
  import shutil  # pylint: disable=import-outside-toplevel
  import tempfile  # pylint: disable=import-outside-toplevel
  tmp = tempfile.mkdtemp(prefix='vp_%s_' % prop)
  rep_dir = os.path.join(HERE, 'replay')
  os.makedirs(rep_dir, exist_ok=True)
  os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
  load_err = None
  obs = []
  try:
    import registry  # pylint: disable=import-outside-toplevel
    obs = registry.obligations(prop, tier)
    if only:
      obs = [o for o in obs if any(p in o.name for p in only)]
  except Exception:  # pylint: disable=broad-except
    load_err = traceback.format_exc()
  results = []
  viols = []
  if load_err:
    viols.append(dict(name='load', goal='the code under contract can be loaded',
                      detail=load_err[-3000:], nfi=False))
  else:
    try:
      results = run_all(obs, prop, seed, tier, tmp)
    finally:
      shutil.rmtree(tmp, ignore_errors=True)
  known = []
  try:
    with open(os.path.join(HERE, 'known_findings.json')) as f:
      known = [k for k in json.load(f)['findings'] if k['property'] == prop]
  except OSError:
    pass
  known_hit = []
  for r in results:
    v = r.get('violation')
    if v:
      k = [k for k in known if k['obligation'] == r['name'] and
           k['goal'] == v['goal']]
      if k:
        known_hit.append(k[0])
        continue
      viols.append(dict(name=r['name'], goal=v['goal'], detail=v['detail'],
                        dims=v['dims'], seed=v['seed'], inputs=v['inputs'],
                        nfi=False))
    elif r['status'] == 'failed':
      viols.append(dict(name=r['name'], goal=r['failed'][0][0],
                        detail=r['failed'][0][1], nfi=True))
    elif r['status'] in ('error', 'killed'):
      viols.append(dict(name=r['name'], goal='obligation decided',
                        detail='\n'.join(map(str, r.get('notes', []))),
                        nfi=True))
  if not load_err and not results:
    viols.append(dict(name=prop, goal='at least one obligation', detail='none',
                      nfi=True))
  ev = evidence(prop, tier, seed, results, viols, registry_info(prop))
  with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
    json.dump(ev, f, indent=1, default=str)
  for k in known_hit:
    log('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
  c = ev['coverage']
  log('%s: %d/%d proof obligations discharged, %d bounded, %d concrete runs, '
      '%.0f s' % (prop, c['discharged'], c['obligations'],
                  c['bounded_obligations'], c['concrete_runs'], ev['wall_s']))
  viols.sort(key=lambda v: v['nfi'])
  if viols:
    v = viols[0]
    h = hashlib.sha1(('%s%s' % (v['name'], v['goal'])).encode()).hexdigest()[:8]
    path = os.path.join(rep_dir, '%s_%s.json' % (prop, h))
    with open(path, 'w') as f:
      json.dump(dict(
          property=prop, violations=viols,
          how_to_replay='/verif/check.sh %s "%s"' % (prop, v['name'])),
                f, indent=1, default=str)
    log('failed obligation: %s: %s' % (v['name'], v['goal']))
    log('  ' + str(v['detail'])[:1200].replace('\n', '\n  '))
    log('VIOLATION property=%s replay=%s%s' % (
        prop, path, ' no-failing-input-found' if v['nfi'] else ''))
    return 1
  return 0


def registry_info(prop):
  try:
    import registry  # pylint: disable=import-outside-toplevel
    return registry.INFO.get(prop, {})
  except Exception:  # pylint: disable=broad-except
    return {}


def evidence(prop, tier, seed, results, viols, info):
  goals = [g for r in results for g in r.get('goals', [])
           if r.get('level') == 'proof']
  bgoals = [g for r in results for g in r.get('goals', [])
            if r.get('level') != 'proof']
  stats = {}
  for r in results:
    for k, v in r.get('stats', {}).items():
      stats[k] = round(stats.get(k, 0) + v, 3)
  under = sorted({u for r in results for u in r.get('under', [])})
  trusted = sorted({u for r in results for u in r.get('trusted', [])})
  level = 'proof' if goals else 'exploration'
  cov = dict(
      obligations=len(goals),
      discharged=sum(1 for g in goals if g[1] == 'proved'),
      checker_cmd='/verif/check.sh %s' % prop,
      trusted_base=[
          'engine/sym.py: translation of jaxpr primitives to terms',
          'engine/terms.py, engine/prove.py: normal form, rewriting, case '
          'split', 'z3 4.x (python bindings)', 'jax.make_jaxpr tracing',
      ] + trusted,
      functions_under_contract=under,
      backends=stats,
      bounded_obligations=len(bgoals) + sum(
          1 for r in results if r['status'] == 'bounded' and not r.get('goals')),
      bounded_discharged=sum(1 for g in bgoals if g[1] == 'proved'),
      concrete_runs=sum(r.get('concrete', 0) for r in results),
      per_obligation=[dict(name=r['name'], status=r['status'],
                           level=r.get('level'), wall_s=r.get('wall'),
                           cpu_s=r.get('cpu'),
                           goals=r.get('goals', []), notes=r.get('notes', []))
                      for r in results],
  )
  if level != 'proof':
    cov.update(evaluations=cov['concrete_runs'],
               distinct_nontrivial=cov['concrete_runs'],
               rule='seeded random inputs of the declared domains',
               samples=[r['name'] for r in results][:5])
  return dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=info.get('assumptions', []) + [
                  'real arithmetic in place of float32/int32 machine arithmetic',
                  'exp(-1e8 or below) is 0 (masking constants)'],
              wall_s=round(time.time() - T0, 2), violations=len(viols))


if __name__ == '__main__':
  sys.exit(main())
