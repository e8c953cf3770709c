"""Creates and validates a planted bug in a scratch copy of /repo.

usage: seed.py SPEC.py   (SPEC defines ID, PROPERTY, EDITS, DEMO, NEEDS, BREAKS)
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SH = '''#!/bin/bash
# Exit 0 if the guarantee holds in the repository in the current directory.
export PYTHONPATH="$PWD/hand_eye_calibration/python:$PWD/hand_eye_calibration_experiments/python"
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
T="$(mktemp -d)"
export MPLCONFIGDIR="$T/mpl" DEMO_TMP="$T"
timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
r=$?
rm -rf "${T:?}"
exit $r
'''

PRE = '''import sys, types
if 'tf' not in sys.modules:
  sys.modules['tf'] = types.ModuleType('tf')  # ROS module, only needed for plotting
import numpy as np
'''


def sh(cmd, cwd, **k):
  return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def main():
  s = runpy.run_path(sys.argv[1])
  sid = s['ID']
  tmp = tempfile.mkdtemp(prefix='seed_')
  repo = os.path.join(tmp, 'repo')
  sh(['cp', '-a', '/repo', repo], '/')
  d = os.path.join(tmp, sid)
  os.makedirs(d)
  open(d + '/demo.sh', 'w').write(SH)
  os.chmod(d + '/demo.sh', 0o755)
  open(d + '/demo.py', 'w').write(PRE + s['DEMO'].lstrip('\n'))
  json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']},
            open(d + '/meta.json', 'w'), indent=1)
  try:
    r = sh([d + '/demo.sh'], repo)
    if r.returncode:
      print('demo fails on the unchanged tree:', r.stdout.decode()[-1500:])
      return 1
    for f, old, new in s['EDITS']:
      p = os.path.join(repo, f)
      t = open(p).read()
      if t.count(old) != 1:
        print('edit matches %d times: %s' % (t.count(old), old))
        return 1
      open(p, 'w').write(t.replace(old, new))
    diff = sh(['git', 'diff'], repo).stdout
    open(d + '/patch.diff', 'wb').write(diff)
    # lines removed or changed must stem from the original repository
    r = sh([d + '/demo.sh'], repo)
    if r.returncode == 0:
      print('demo does not fail with the change')
      return 1
    print('demo with the change: exit', r.returncode, r.stdout.decode().strip().splitlines()[-1:])
    env = dict(os.environ, PYTHONPATH='%s/hand_eye_calibration/python:%s/hand_eye_calibration_experiments/python' % (repo, repo),
               MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', MPLCONFIGDIR='/tmp/mplc')
    r = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider',
            'hand_eye_calibration/test/test_quaternion.py', 'hand_eye_calibration/test/test_dual_quaternion.py'],
           repo, env=env)
    if r.returncode:
      print('tests fail:', r.stdout.decode()[-800:])
      return 1
    print(r.stdout.decode().strip().splitlines()[-1])
    dst = os.path.join(HERE, 'seeded', sid)
    if os.path.exists(dst):
      shutil.rmtree(dst)
    shutil.copytree(d, dst)
    print('kept', dst)
    return 0
  finally:
    shutil.rmtree(tmp)


if __name__ == '__main__':
  sys.exit(main())
