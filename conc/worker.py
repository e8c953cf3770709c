"""Runs lemmas on concrete inputs with CPython and the real code.

usage: worker.py PROPERTY SEED FACTOR OUT [--lemma NAME,...] [--fixed FILE] [--case SEED] [--limit S]
"""
import json
import os
import random
import sys
import time
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True

from conc.concctx import ConcCtx, Failed, Skip, quiet, setup_path  # noqa: E402
import contracts  # noqa: E402


class Timeout(BaseException):
  pass


def _alarm(*a):
  raise Timeout()


def run_case(lem, seed, fixed=None, alarm=25):
  """None if fine, 'skip', or a failure record."""
  import signal
  import numpy as np
  rng = random.Random(seed)
  random.seed(seed)
  np.random.seed(abs(hash(str(seed))) % (2 ** 31) if not isinstance(seed, int) else seed % (2 ** 31))
  c = ConcCtx(rng, fixed)
  signal.signal(signal.SIGALRM, _alarm)
  signal.alarm(alarm)
  try:
    with quiet(), warnings.catch_warnings():
      warnings.simplefilter('ignore')
      lem.fn(c)
  except Skip:
    return 'skip', c
  except Timeout:
    return {'label': 'terminates', 'detail': 'no result within %d s' % alarm}, c
  except Failed as e:
    return {'label': e.label, 'detail': e.detail}, c
  except Exception as e:
    tb = traceback.extract_tb(sys.exc_info()[2])
    in_repo = [f for f in tb if '/hand_eye_calibration' in f.filename]
    return {'label': 'no unexpected error', 'detail': '%s: %s (%s)' % (
        type(e).__name__, e, '%s:%d' % (in_repo[-1].filename, in_repo[-1].lineno) if in_repo else
        '%s:%d' % (tb[-1].filename, tb[-1].lineno)), 'error': True,
        'in_repo': bool(in_repo)}, c
  finally:
    signal.alarm(0)
  return None, c


def main():
  prop, seed, factor, out = sys.argv[1], int(sys.argv[2]), float(sys.argv[3]), sys.argv[4]
  only = sys.argv[sys.argv.index('--lemma') + 1] if '--lemma' in sys.argv else None
  fixed = json.load(open(sys.argv[sys.argv.index('--fixed') + 1])) if '--fixed' in sys.argv else None
  limit = float(sys.argv[sys.argv.index('--limit') + 1]) if '--limit' in sys.argv else 1e9
  case = int(sys.argv[sys.argv.index('--case') + 1]) if '--case' in sys.argv else None
  only = only and only.split(',')
  setup_path()
  t00 = time.time()
  res = []
  for lem in contracts.load(prop):
    if only and lem.name not in only:
      continue
    t0 = time.time()
    n, ok, skipped, checks, fail = 0, 0, 0, 0, None
    total = max(1, int(lem.cases * factor)) if fixed is None else 8
    base = int(__import__('zlib').crc32((prop + lem.name).encode())) % 100000
    k = 0
    more, span = (10, 2.5) if lem.sym else (40, 12.0)
    # at least the stated number of cases, more while they are cheap
    while (ok < total or (fixed is None and case is None and ok < total * more and
                          time.time() - t0 < span)) and n < total * 2 * more and time.time() - t0 < 150 * max(1.0, factor) \
        and time.time() - t00 < limit:
      s = seed * 1000003 + base * 7919 + k
      if case is not None:
        s, total = case, 1
      k += 1
      n += 1
      r, c = run_case(lem, s, fixed, 25 if case is None else 55)
      if r == 'skip':
        skipped += 1
        continue
      ok += 1
      checks += c.checks
      if r is not None:
        fail = dict(r, seed=s, inputs={a: b for a, b in c.inputs.items()
                                       if isinstance(b, (int, float, bool, str))})
        break
    res.append({'lemma': lem.name, 'cases': ok, 'skipped': skipped, 'checks': checks,
                'failure': fail, 'wall': round(time.time() - t0, 3),
                'sample': {a: b for a, b in list(c.inputs.items())[:12]
                           if isinstance(b, (int, float, bool, str))} if n else {}})
    if '--show' in sys.argv:
      print(res[-1]['lemma'], {a: b for a, b in res[-1].items() if a not in ('lemma', 'sample')})
  json.dump(res, open(out, 'w'))


if __name__ == '__main__':
  main()
