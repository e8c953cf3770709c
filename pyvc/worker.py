"""Verifies one lemma or one contract symbolically.

usage: worker.py PROPERTY (lemma:NAME | contract:FID) OUT BUDGET [--disable FID,FID]
"""
import json
import os
import resource
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

import contracts  # noqa: E402
from pyvc import runtime, solve, terms as tm  # noqa: E402
from pyvc.engine import ENG, Unsupported, PathEnd, Truncation, Obligation, Enough  # noqa: E402
from pyvc.symctx import SymCtx, SpecCtx, Applied, verify_contract  # noqa: E402


def short_fid(interp, name):
  """'quaternion:Quaternion.x' -> full ids, including the setters."""
  mod, fn = name.split(':')
  full = '%s:%s' % (mod if '.' in mod else 'hand_eye_calibration.' + mod, fn)
  return [f for f in interp.functions if f == full or f.startswith(full + '#')]


def pure(ob):
  """Only real/integer input symbols: a counter-model is a genuine one."""
  ts = [ob.goal] + list(ob.facts or [])
  for s in tm.subterms(ts):
    if s.op in ('sin', 'cos', 'arccos', 'lsum', 'forall', 'exists'):
      return False
    if s.op == 'app':
      return False
    if s.op == 'var' and s not in ENG.input_terms and s is not tm.PI:
      return False
  return True


def model_inputs(model):
  out = {}
  for t, v in (model or {}).items():
    if t.op == 'var':
      out[t.args[0]] = v
    elif t.op == 'app' and all(tm.is_num(a) for a in t.args[1:]):
      out['%s(%s)' % (t.args[0], ','.join(str(int(tm.val(a))) for a in t.args[1:]))] = v
    elif t.op == 'app':
      # value at the index given by the model
      try:
        idx = [model.get(a, tm.val(a) if tm.is_num(a) else None) for a in t.args[1:]]
        if all(i is not None for i in idx):
          name, comp = t.args[0], ''
          out['%s(%s)' % (name, ','.join(str(int(i)) for i in idx))] = v
      except Exception:
        pass
  return out


def main():
  prop, task, out, budget = sys.argv[1], sys.argv[2], sys.argv[3], float(sys.argv[4])
  disabled = set()
  if '--disable' in sys.argv:
    disabled = set(x for x in sys.argv[sys.argv.index('--disable') + 1].split(',') if x)
  resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
  t0 = time.time()
  res = {'task': task, 'status': 'error', 'obligations': [], 'detail': ''}
  ENG.reset()
  ENG.deadline = time.time() + budget
  ENG.prove_timeout = float(os.environ.get('PYVC_PROVE_TIMEOUT', '8'))
  try:
    lems = contracts.load(prop)
    ld, it = runtime.build()
    ctx = SymCtx(ld)
    s = SpecCtx(ctx)
    for m in ('quaternion', 'dual_quaternion'):
      ctx.mod(m)
    kind, name = task.split(':', 1)
    if kind == 'lemma':
      lem = [l for l in lems if l.name == name][0]
      own = set()
      for f in lem.functions:
        m = f.split(':')[0]
        ctx.mod(m)
        ids = short_fid(it, f)
        own.update(ids)
        if not ids:
          ENG.notes.append('function %s does not exist' % f)
      run = lambda: lem.fn(ctx)
    else:
      own = {name}
      c = contracts.CONTRACTS[name]
      ctx.mod(name.split(':')[0])
      if name not in it.functions:
        raise Unsupported('function %s does not exist' % name)
      run = verify_contract(ctx, it, c)
    for fid, c in contracts.CONTRACTS.items():
      if fid not in own and fid not in disabled:
        it.contracts[fid] = Applied(c, s)

    done = [0]
    sat = {'sat': 0, 'unsat': 0, 'unknown': 0}

    def one():
      try:
        run()
      except (Unsupported, PathEnd, Enough):
        raise
      except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        last = [f for f in tb if '<' in f.filename and ':' in f.filename]
        where = last[-1].filename if last else '%s:%d' % (tb[-1].filename, tb[-1].lineno)
        if isinstance(e, (RecursionError, MemoryError)):
          raise Unsupported('resources: %r' % e)
        ENG.site.append(where)
        res.setdefault('errors', []).append('%s: %s (%s)' % (type(e).__name__, e, where))
        if os.environ.get('PYVC_TB'):
          traceback.print_exc()
        ob = Obligation('no unexpected error (%s: %s)' % (type(e).__name__, str(e)[:120]), where,
                        tm.FALSE, 'unknown', 'none', 0.0, None, list(ENG.facts))
        r, model = solve.z3_check(ENG.facts, [], 5.0)
        if r == 'unsat':
          ENG.site.pop()
          raise PathEnd()
        if r == 'sat':
          ob.status, ob.model, ob.how = 'refuted', model, 'z3'
        ENG.obligations.append(ob)
        ENG.site.pop()
        raise PathEnd()
      done[0] += 1
      # vacuity: the hypotheses of the paths must be satisfiable
      if sat['sat'] + sat['unknown'] < 3:
        sat[solve.z3_check(ENG.facts, [], 2.0)[0]] += 1
      return None

    try:
      paths = ENG.explore(one)
    except Enough:
      paths = []
    res['paths'] = len(paths)
    res['infeasible'] = ENG.infeasible
    bad = [o for o in ENG.obligations if o.status != 'proved']
    res['reachable'] = sat
    if not ENG.obligations or (done[0] and sat['unsat'] and not sat['sat'] + sat['unknown']) or \
        (not done[0] and not bad):
      res['status'] = 'vacuous'
    elif not bad:
      res['status'] = 'proved'
    elif any(o.status == 'refuted' for o in bad):
      res['status'] = 'refuted'
    else:
      res['status'] = 'unknown'
  except Unsupported as e:
    res['status'] = 'unsupported'
    res['detail'] = str(e)
    if os.environ.get('PYVC_TB'):
      traceback.print_exc()
  except Exception as e:
    res['status'] = 'error'
    res['detail'] = ''.join(traceback.format_exception(*sys.exc_info()))[-2000:]
  obs = []
  for o in ENG.obligations:
    d = {'label': o.label, 'site': str(o.site), 'status': o.status, 'how': o.how,
         'wall': round(o.wall, 4)}
    if o.status != 'proved':
      d['goal'] = tm.show(o.goal, 8)[:600]
      d['facts'] = [tm.show(f, 5)[:200] for f in (o.facts or [])][-12:]
      d['pure'] = pure(o)
      d['stated'] = o.stated
      if o.model:
        d['model'] = model_inputs(o.model)
    obs.append(d)
  res['obligations'] = obs
  res['used'] = sorted(ENG.used_contracts)
  res['interpreted'] = sorted(ENG.interpreted)
  res['assumed'] = sorted(ENG.assumed)
  res['notes'] = ENG.notes
  res['solver'] = {k: (round(v, 3) if isinstance(v, float) else v) for k, v in solve.STATS.items()}
  res['wall'] = round(time.time() - t0, 3)
  json.dump(res, open(out, 'w'))
  if '--show' in sys.argv:
    print(res['status'], res['detail'], 'paths', res.get('paths'), 'obl', len(obs), 'wall', res['wall'],
          res.get('errors', ''), 'used', [u.split(':')[1] for u in res['used']])
    for d in obs:
      if d['status'] != 'proved' or '-v' in sys.argv:
        print('  ', d)


if __name__ == '__main__':
  main()
