"""Decides one property: proves its lemmas on the source in /repo, verifies the
contracts they rely on, and evaluates the same lemmas on concrete inputs.

usage: run_check.py PROPERTY     (VERIF_SEED, VERIF_TIER from the environment)
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import contracts  # noqa: E402

REPO = os.environ.get('PYVC_REPO', '/repo')
VT = shutil.which('python3-vt') or sys.executable
PY = '/opt/venv/bin/python'
CORES = 8

ASSUMPTIONS = [
    'machine floats are treated as mathematical reals in all proofs (the concrete runs use floats)',
    'CPython executes expressions, classes, decorators and operators as the generator does; '
    'the generator interprets statements and loops itself',
    'the numpy operations used by the code behave as their shims in pyvc/npshim.py state',
    'z3, cvc5 and the polynomial normal form in pyvc/poly.py are correct',
]


class Run(object):

  def __init__(self, prop):
    self.prop = prop
    self.seed = int(os.environ.get('VERIF_SEED', '1'))
    self.tier = os.environ.get('VERIF_TIER', 'quick')
    if self.tier not in ('quick', 'thorough'):
      self.tier = 'quick'
    self.quick = self.tier == 'quick'
    self.factor = 1.0 if self.quick else 10.0
    self.t0 = time.time()
    self.soft = 520 if self.quick else 5400     # no new proof task is started after this
    self.hard = 760 if self.quick else 7000
    self.tmp = tempfile.mkdtemp(prefix='pyvc_')
    self.n = 0
    self.pool = cf.ThreadPoolExecutor(CORES + 2)
    self.lemmas = contracts.load(prop)
    self.env = dict(os.environ, PYTHONPATH='', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
                    PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                    PYVC_PROVE_TIMEOUT='8' if self.quick else '40',
                    MPLCONFIGDIR=os.path.join(self.tmp, 'mpl'), PYVC_REPO=REPO)

  def left(self, limit):
    return limit - (time.time() - self.t0)

  def out(self):
    self.n += 1
    return os.path.join(self.tmp, 'out%d.json' % self.n)

  def call(self, cmd, out, timeout):
    try:
      p = subprocess.run(cmd, cwd=HERE, env=self.env, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, timeout=max(5, timeout))
      if os.path.exists(out):
        return json.load(open(out)), ''
      return None, p.stdout.decode(errors='replace')[-1500:]
    except subprocess.TimeoutExpired:
      return None, 'timeout'
    except Exception as e:
      return None, repr(e)

  # ---- proofs ----------------------------------------------------------------
  def prove(self, task, budget, disabled):
    if self.left(self.soft) < 20:
      return {'task': task, 'status': 'skipped', 'detail': 'no time left', 'obligations': []}
    budget = min(budget * (1 if self.quick else 8), self.left(self.soft))
    o = self.out()
    cmd = [VT, os.path.join(HERE, 'pyvc', 'worker.py'), self.prop, task, o, str(budget)]
    if disabled:
      cmd += ['--disable', ','.join(sorted(disabled))]
    r, err = self.call(cmd, o, budget + 45)
    if r is None:
      r = {'task': task, 'status': 'error', 'detail': err, 'obligations': []}
    return r

  # ---- concrete runs -----------------------------------------------------------
  def concrete(self, names, factor, limit, fixed=None, case=None, seed=None):
    o = self.out()
    cmd = [PY, os.path.join(HERE, 'conc', 'worker.py'), self.prop,
           str(self.seed if seed is None else seed), str(factor), o,
           '--lemma', ','.join(names), '--limit', str(limit)]
    if fixed is not None:
      f = self.out()
      json.dump(fixed, open(f, 'w'))
      cmd += ['--fixed', f]
    if case is not None:
      cmd += ['--case', str(case)]
    r, err = self.call(cmd, o, limit + 75)
    return r, err

  def concrete_all(self, names, factor, limit):
    """Groups of lemmas in parallel processes."""
    lem = {l.name: l for l in self.lemmas}
    names = sorted(names, key=lambda n: -lem[n].weight)
    groups = [[] for _ in range(min(7 if not any(l.sym for l in self.lemmas) else 4, len(names)))]
    load = [0] * len(groups)
    for n in names:
      i = load.index(min(load))
      groups[i].append(n)
      load[i] += lem[n].weight
    return [self.pool.submit(self.concrete, g, factor, limit) for g in groups if g]

  def decide(self):
    sym = [l for l in self.lemmas if l.sym]
    conc_jobs = self.concrete_all([l.name for l in self.lemmas], self.factor,
                                  200 if self.quick else 2400)
    disabled = set()
    proofs = {}
    verified = {}

    def lemma_round(ls):
      jobs = {l.name: self.pool.submit(self.prove, 'lemma:' + l.name, l.budget, disabled) for l in ls}
      for n, j in jobs.items():
        proofs[n] = j.result()

    lemma_round(sorted(sym, key=lambda l: -l.budget))
    for _ in range(4):
      # verify every contract that was used, and those used in verifying them
      while True:
        need = set()
        for r in list(proofs.values()) + list(verified.values()):
          need.update(r.get('used', ()))
        need -= set(verified)
        need -= disabled
        if not need:
          break
        jobs = {f: self.pool.submit(self.prove, 'contract:' + f, 90, disabled) for f in sorted(need)}
        for f, j in jobs.items():
          verified[f] = j.result()
      bad = {f for f, r in verified.items() if r['status'] != 'proved'} - disabled
      if not bad:
        break
      # a contract that does not hold is not used: its callers see the body instead
      disabled |= bad
      for f in list(verified):
        if f not in disabled and set(verified[f].get('used', ())) & disabled:
          del verified[f]
      redo = [l for l in sym if self.closure(proofs[l.name], verified) & disabled]
      lemma_round(redo)
    conc, conc_errors = {}, []
    for j in conc_jobs:
      r, err = j.result()
      if r is None:
        conc_errors.append(err)
      for x in r or []:
        conc[x['lemma']] = x
    self.proofs, self.verified, self.disabled = proofs, verified, disabled
    self.conc, self.conc_errors = conc, conc_errors
    # lemmas without a complete proof: bounded stand-in with more cases
    weak = [l.name for l in sym if proofs[l.name]['status'] != 'proved' and
            not (conc.get(l.name) or {}).get('failure')]
    self.weak = weak
    if weak and self.left(self.hard) > 60 and any(proofs[n]['status'] != 'refuted' or True for n in weak):
      lim = min(self.left(self.hard) - 40, 120 if self.quick else 1500)
      self.seed += 7777
      for j in self.concrete_all(weak, self.factor * 4, lim):
        r, err = j.result()
        for x in r or []:
          if x['lemma'] in conc:
            x['cases'] += conc[x['lemma']]['cases']
            x['checks'] += conc[x['lemma']]['checks']
          conc[x['lemma']] = x
      self.seed -= 7777

  def closure(self, r, verified):
    seen, todo = set(), list(r.get('used', ()))
    while todo:
      f = todo.pop()
      if f not in seen:
        seen.add(f)
        todo += verified.get(f, {}).get('used', ())
    return seen

  # ---- verdict -------------------------------------------------------------------
  def confirm(self, lemma, failure):
    """A failing input has to fail again in a fresh process."""
    r, _ = self.concrete([lemma], 1, 60, case=failure['seed'])
    return bool(r and r[0]['failure'])

  def violations(self):
    out = []
    for n, x in sorted(self.conc.items()):
      f = x.get('failure')
      if f and self.confirm(n, f):
        out.append({'lemma': n, 'obligation': f['label'], 'detail': f['detail'], 'found': 'input',
                    'inputs': f['inputs'], 'case': f['seed']})
    have = {v['lemma'] for v in out}
    for n, r in sorted(self.proofs.items()):
      if n in have:
        continue
      best = None
      for o in r.get('obligations', []):
        if o['status'] != 'refuted':
          continue
        rep = None
        if o.get('model') and self.left(self.hard) > 20:
          rr, _ = self.concrete([n], 1, 30, fixed=o['model'])
          if rr and rr[0]['failure']:
            f = rr[0]['failure']
            rep = {'lemma': n, 'obligation': o['label'], 'detail': f['detail'], 'site': o['site'],
                   'found': 'input', 'inputs': f['inputs'], 'verifier': o}
            best = rep
            break
        # a counter-model over the inputs alone, with nothing abstracted, is a
        # genuine one even if rounding hides it from the concrete run
        if o.get('pure') and o.get('model') is not None and best is None and \
            not o['label'].startswith('no unexpected error') and r['status'] == 'refuted':
          best = {'lemma': n, 'obligation': o['label'], 'site': o['site'], 'found': '',
                  'detail': 'counterexample of the verifier, not reproduced in machine arithmetic',
                  'inputs': o.get('model'), 'verifier': o}
      if best is None and r['status'] == 'refuted':
        best = self.abstract(n, r)
      if best is not None:
        out.append(best)
    return out

  def abstract(self, n, r):
    """A statement with a counter-model over abstracted values (callee contracts,
    loops, elementary functions) that no concrete run reproduces.  It counts only
    if the proof fails on the same statement with the bodies of the callees."""
    bad = [o for o in r['obligations'] if o['status'] == 'refuted' and o.get('stated')]
    if not bad:
      return None
    used = self.closure(r, self.verified) - self.disabled
    if used and self.left(self.soft) > 30:
      lem = [l for l in self.lemmas if l.name == n][0]
      again = self.prove('lemma:' + n, lem.budget, self.disabled | used)
      if again['status'] == 'proved':
        self.proofs[n] = again
        return None
      if again['status'] == 'refuted':
        still = {o['label'] for o in again['obligations'] if o['status'] == 'refuted' and o.get('stated')}
        bad = [o for o in bad if o['label'] in still]
        if not bad:
          return None
    o = bad[0]
    return {'lemma': n, 'obligation': o['label'], 'site': o['site'], 'found': '',
            'detail': 'counterexample of the verifier over abstracted values, no failing input found',
            'inputs': o.get('model'), 'verifier': o}

  def replay_file(self, k, v):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, '%s_%s.json' % (self.prop, v['lemma']))
    v = dict(v, property=self.prop)
    if v.get('case') is not None:
      v['command'] = '%s conc/worker.py %s %d 1 /dev/stdout --lemma %s --case %d' % (
          PY, self.prop, self.seed, v['lemma'], v['case'])
    json.dump(v, open(f, 'w'), indent=1, default=str)
    return f

  # ---- evidence --------------------------------------------------------------------
  def evidence(self, viol, known):
    obs, by = 0, {}
    done = 0
    tasks = list(self.proofs.values()) + [r for f, r in self.verified.items() if f not in self.disabled]
    solver = 0.0
    for r in tasks:
      solver += r.get('solver', {}).get('time', 0.0)
      for o in r['obligations']:
        obs += 1
        if o['status'] == 'proved':
          done += 1
          k = o['how'].split(':')[0]
          by[k] = by.get(k, 0) + 1
    sym = [l for l in self.lemmas if l.sym]
    bounded = []
    for l in self.lemmas:
      c = self.conc.get(l.name, {})
      st = self.proofs[l.name]['status'] if l.sym else None
      if st != 'proved':
        bounded.append({
            'lemma': l.name, 'states': l.text,
            'why': l.bounded or ('proof status: %s %s' % (st, self.proofs[l.name].get('detail', '')[:200])
                                 if l.sym else 'not within reach of the generator'),
            'bound': '%d sampled inputs' % c.get('cases', 0), 'checks': c.get('checks', 0)})
    under = set()
    for r in tasks:
      under.update(r.get('interpreted', ()))
    assumed = set()
    for r in tasks:
      assumed.update(r.get('assumed', ()))
    proved_lemmas = [l for l in sym if self.proofs[l.name]['status'] == 'proved']
    level = 'proof' if proved_lemmas and obs else 'exploration'
    cases = sum(c.get('cases', 0) for c in self.conc.values())
    nontriv = sum(c.get('cases', 0) for c in self.conc.values() if c.get('checks', 0) > 0)
    samples = [{'lemma': n, 'inputs': c.get('sample')} for n, c in list(self.conc.items())[:3]]
    cov = {
        'obligations': obs, 'discharged': done,
        'discharged_by': by, 'solver_time_s': round(solver, 2),
        'checker_cmd': 'VERIF_SEED=%d VERIF_TIER=%s python3-vt run_check.py %s' % (
            self.seed, self.tier, self.prop),
        'trusted_base': ['pyvc (this generator)', 'z3', 'cvc5', 'CPython', 'the numpy shims'] + sorted(assumed),
        'lemmas_proved': [{'lemma': l.name, 'states': l.text, 'paths': self.proofs[l.name].get('paths'),
                           'obligations': len(self.proofs[l.name]['obligations'])}
                          for l in proved_lemmas],
        'contracts_verified': [{'function': f, 'states': contracts.CONTRACTS[f].text,
                                'obligations': len(r['obligations'])}
                               for f, r in sorted(self.verified.items()) if r['status'] == 'proved'],
        'contracts_not_used': [{'function': f, 'status': self.verified[f]['status'],
                                'detail': self.verified[f].get('detail', '')[:200]}
                               for f in sorted(self.disabled) if f in self.verified],
        'functions_under_contract': sorted(under),
        'bounded_not_proved': bounded,
        'evaluations': cases, 'distinct_nontrivial': nontriv,
        'rule': 'random inputs per lemma (seeded), with edge values mixed in; a case counts when its '
                'preconditions hold and at least one statement was evaluated on the real code',
        'samples': samples,
    }
    undone = [{'task': r['task'], 'obligation': o['label'], 'site': o['site'], 'status': o['status']}
              for r in tasks for o in r['obligations'] if o['status'] != 'proved'][:30]
    if undone:
      cov['undischarged'] = undone
    ev = {
        'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level,
        'coverage': cov,
        'assumptions': ASSUMPTIONS + sorted('trusted: ' + a for a in assumed) + [
            'bounded, not proved: %s (%s)' % (b['lemma'], b['why'][:120]) for b in bounded],
        'wall_s': round(time.time() - self.t0, 2), 'violations': len(viol),
    }
    if known:
      cov['known_findings'] = known
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', self.prop + '.json'), 'w'), indent=1)
    return cov


def known_findings(prop):
  """Listed, unrepaired findings: (lemma, obligation) -> text."""
  out = {}
  f = os.path.join(HERE, 'known_findings.jsonl')
  if os.path.exists(f):
    for l in open(f):
      l = l.strip()
      if l.startswith('{'):
        d = json.loads(l)
        if d.get('property') == prop and d.get('status') == 'known':
          out[(d['lemma'], d['obligation'])] = d['what']
  return out


def main():
  prop = sys.argv[1]
  run = Run(prop)
  try:
    run.decide()
    viol = run.violations()
    known = known_findings(prop)
    shown = []
    rest = []
    for v in viol:
      k = known.get((v['lemma'], v['obligation']))
      if k:
        shown.append(k)
      else:
        rest.append(v)
    cov = run.evidence(rest, shown)
    for k in shown:
      print('KNOWN-FINDING: property=%s %s' % (prop, k))
    for n, r in sorted(run.proofs.items()):
      c = run.conc.get(n, {})
      print('%-28s %-12s %3d obligations, %4d cases %s' % (
          n, r['status'], len(r['obligations']), c.get('cases', 0),
          (r.get('detail') or '').strip().splitlines()[-1][:150] if r.get('detail') else ''))
    for l in run.lemmas:
      if not l.sym:
        print('%-28s %-12s %s cases' % (l.name, 'bounded', run.conc.get(l.name, {}).get('cases')))
    for f in sorted(run.disabled):
      print('contract not established, not used: %s' % f)
    print('%s: %d obligations, %d discharged, %d concrete cases, %.0f s' % (
        prop, cov['obligations'], cov['discharged'], cov['evaluations'], time.time() - run.t0))
    if run.conc_errors:
      print('concrete run failed: %s' % run.conc_errors[0][-1500:])
    ran = sum(1 for c in run.conc.values() if c.get('cases', 0) > 0)
    for k, v in enumerate(rest):
      print('failed: %s / %s  %s' % (v['lemma'], v['obligation'], v['detail']))
    for k, v in enumerate(rest):
      f = run.replay_file(k, v)
      print('VIOLATION property=%s replay=%s%s' % (
          prop, f, '' if v['found'] else ' no-failing-input-found'))
    if rest:
      return 1
    if not ran or (run.conc_errors and not any(r['status'] == 'proved' for r in run.proofs.values())):
      # neither a proof nor a concrete run happened
      print('no answer')
      return 3
    return 0
  finally:
    run.pool.shutdown(wait=False)
    shutil.rmtree(run.tmp, ignore_errors=True)


if __name__ == '__main__':
  sys.exit(main())
