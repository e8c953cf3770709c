"""C20: command and path helpers fail loudly and never silently."""
import errno
import os
import sys
import time

from contracts import lemma
from contracts.c16 import Scratch

U = 'bash_utils:'


def mod(c):
  return c.mod('bash_utils')


class InDir(object):

  def __init__(self, d):
    self.d = d

  def __enter__(self):
    self.old = os.getcwd()
    os.chdir(self.d)

  def __exit__(self, *a):
    os.chdir(self.old)
    return False


SIGNALS = [1, 2, 9, 13, 14, 15]


def command(k):
  """A command with exit status k (negative: ended by a signal)."""
  if k < 0:
    return "/bin/sh -c 'kill -%d $$'" % (-k if -k in SIGNALS else 9)
  return "/bin/sh -c 'exit %d'" % (k if k <= 255 else 255)


@lemma('C20', [U + 'run'], cases=30)
def exit_status(c):
  """An error is raised exactly when the status is not zero, after the command has ended."""
  m = mod(c)
  with c.files() as w:
    if c.symbolic:
      cmd = c.text('cmd')
      k = w.w.exit = c.integer('exit')
    else:
      k = c.integer('exit', -15, 260) if c.rng.random() < 0.7 else c.integer('exit', 0, 0)
      cmd = command(k)
    ok, r = c.attempt(lambda: m.run(cmd))
    if c.symbolic:
      c.check('the command is started once', len(w.w.commands) == 1)
      args, shell = w.w.commands[0]
      c.check('no shell', not shell)
      c.check('split by shell rules', getattr(args, 'cmd', None) is cmd)
    if c.is_true(k == 0):
      c.check('status zero: no error', ok)
      c.check('nothing is returned', r is None)
    else:
      c.check('another status: an error', not ok)


@lemma('C20', [U + 'run'], cases=5)
def not_startable(c):
  """A command that cannot be started is an error; in a dry run nothing is started."""
  m = mod(c)
  with c.files() as w:
    if c.symbolic:
      cmd = c.text('cmd')
      w.w.exit, w.w.missing = c.integer('exit'), True
    else:
      cmd = w.path('missing') + ' x'
    c.raises('cannot be started', lambda: m.run(cmd))
    if c.symbolic:
      w.w.commands = []
      m.run(cmd, True)
      m.run(cmd, dry_run=True)
      c.check('nothing is started', w.w.commands == [])


@lemma('C20', [U + 'run'], sym=False, cases=4, bounded='two signals and a missing program')
def abnormal(c):
  """Termination by a signal and a program that does not exist are errors."""
  m = mod(c)
  s = c.choose('s', ['TERM', 'KILL'])
  c.raises('signal', lambda: m.run("/bin/sh -c 'kill -%s $$'" % s))
  with Scratch() as d:
    c.raises('missing program', lambda: m.run(os.path.join(d, 'missing') + ' x'))


WORDS = ['a', 'two words', "it''s", 'x;y', '$HOME', '*', '&&', '> z', '', '\\', '#c', 'a=b', '--opt=1 2']


@lemma('C20', [U + 'run'], sym=False, cases=20, bounded='0..4 sampled arguments with shell characters')
def arguments(c):
  """The command is split by shell rules and nothing else is interpreted."""
  try:
    from shlex import quote
  except ImportError:
    from pipes import quote
  m = mod(c)
  with Scratch() as d:
    prog, out = os.path.join(d, 'p'), os.path.join(d, 'out')
    with open(prog, 'w') as f:
      f.write('#!/bin/sh\nfor x in "$@"; do printf "%s\\n" "$x"; done > ' + out + '\necho end >> ' + out + '\n')
    os.chmod(prog, 0o755)
    args = [c.rng.choice(WORDS) for _ in range(c.integer('n', 0, 4))]
    style = c.choose('style', [quote, lambda w: '"%s"' % w.replace('\\', '\\\\').replace('"', '\\"')])
    cmd = ' '.join([prog] + [style(a) for a in args])
    with InDir(d):
      m.run(cmd)
    c.check('finished before run returns', os.path.exists(out))
    c.check('arguments', open(out).read().split('\n') == args + ['end', ''])
    c.check('nothing else is created', sorted(os.listdir(d)) == ['out', 'p'])


@lemma('C20', [U + 'run'], sym=False, cases=3, bounded='a command that takes 0.2 s')
def waits(c):
  """run returns after the command has ended."""
  m = mod(c)
  with Scratch() as d:
    f = os.path.join(d, 'f')
    t = time.time()
    m.run("/bin/sh -c 'sleep 0.2; touch %s'" % f)
    c.check('waited', os.path.exists(f) and time.time() - t >= 0.2)
    c.raises('late failure', lambda: m.run("/bin/sh -c 'sleep 0.1; exit 4'"))


@lemma('C20', [U + 'run'], sym=False, cases=4, bounded='sampled commands in a dry run')
def dry_run(c):
  """A dry run starts nothing and raises nothing."""
  m = mod(c)
  with Scratch() as d:
    f = os.path.join(d, 'f')
    for cmd in ('/bin/sh -c "touch %s"' % f, "/bin/sh -c 'touch %s; exit 3'" % f, os.path.join(d, 'missing')):
      m.run(cmd, True)
      m.run(cmd, dry_run=True)
    time.sleep(0.05)
    c.check('nothing is started', os.listdir(d) == [])


class Mkdir(object):
  """Replaces os.mkdir while the helper runs."""

  def __init__(self, fn):
    self.fn = fn

  def __enter__(self):
    self.orig = os.mkdir
    os.mkdir = lambda path, *a, **k: self.fn(self.orig, path, *a, **k)

  def __exit__(self, *a):
    os.mkdir = self.orig
    return False


@lemma('C20', [U + 'create_path'], cases=40)
def parent(c):
  """Afterwards the parent directory exists, whatever happens meanwhile, or the failure is reported."""
  m = mod(c)
  with c.files() as w:
    if c.symbolic:
      path = c.text('path')
      ok, r = c.attempt(lambda: m.create_path(path))
      d = m.os.path.dirname(path)
      c.check('only the parent is made', all(x == str(d) for x in w.w.made))
      if ok:
        c.check('the parent exists', not bool(d) or bool(w.w.dirs.get(str(d))))
        c.check('no failure is dropped', not w.w.failures)
      else:
        c.check('only if there is a failure', bool(w.w.failures))
        c.check('not because it exists', w.w.failures[-1] != errno.EEXIST)
      return
    code = int(c.fixed.get('errno', c.rng.choice([0, errno.EEXIST, errno.EACCES, errno.EROFS, errno.ENOSPC])))
    d = w.path('d')

    def mkdir(orig, path, *a, **k):
      if code not in (0, errno.EEXIST):
        raise OSError(code, 'failed', path)
      if code:
        orig(path)
      return orig(path, *a, **k)
    if c.boolean('there'):
      os.mkdir(d)
    there = os.path.isdir(d)
    with Mkdir(mkdir):
      ok, r = c.attempt(lambda: m.create_path(os.path.join(d, 'file')))
    if there or code in (0, errno.EEXIST):
      c.check('the parent exists', ok and os.path.isdir(d))
    else:
      c.check('no failure is dropped', not ok)


def tree(d):
  return sorted(os.path.relpath(os.path.join(r, x), d) for r, ds, fs in os.walk(d) for x in ds + fs)


@lemma('C20', [U + 'create_path'], sym=False, cases=60, bounded='0..4 levels, 0..4 of them existing')
def creates(c):
  """All missing parents are made, and only these; existing ones are tolerated."""
  m = mod(c)
  with Scratch() as d:
    n, k = c.integer('n', 0, 4), c.integer('k', 0, 4)
    parts = ['d%d' % i for i in range(n)]
    if k and parts[:k]:
      os.makedirs(os.path.join(d, *parts[:k]))
      with open(os.path.join(d, *(parts[:k] + ['keep'])), 'w') as f:
        f.write('x')
    before = tree(d)
    name = os.path.join(*(parts + ['file.txt']))
    rel = c.boolean('relative')
    with InDir(d):
      m.create_path(name if rel else os.path.join(d, name))
      m.create_path(name if rel else os.path.join(d, name))
    want = set(before) | set(os.path.join(*parts[:i + 1]) for i in range(n))
    c.check('exactly the missing parents', tree(d) == sorted(want))
    c.check('directories', all(os.path.isdir(os.path.join(d, *parts[:i + 1])) for i in range(n)))


@lemma('C20', [U + 'create_path'], sym=False, cases=20, bounded='a directory that appears at any of 3 levels')
def concurrent(c):
  """A directory that appears while the path is created is tolerated."""
  m = mod(c)
  with Scratch() as d:
    level = c.choose('level', [0, 1, 2])
    parts = ['d0', 'd1', 'd2']
    rival = os.path.join(d, *parts[:level + 1])

    def mkdir(orig, path, *a, **k):
      if os.path.abspath(path) == rival and not os.path.isdir(rival):
        orig(path, 0o755)
      return orig(path, *a, **k)
    with Mkdir(mkdir):
      m.create_path(os.path.join(d, 'd0', 'd1', 'd2', 'file'))
    c.check('created', os.path.isdir(os.path.join(d, 'd0', 'd1', 'd2')))


@lemma('C20', [U + 'create_path'], sym=False, cases=30, bounded='sampled failures of the system call, 3 levels')
def reports(c):
  """Every other failure to create a directory is reported."""
  m = mod(c)
  code = c.choose('code', [errno.EACCES, errno.EPERM, errno.ENOSPC, errno.EROFS, errno.ENAMETOOLONG,
                           errno.EIO, errno.ENOTDIR, errno.EDQUOT, errno.EMLINK])
  level = c.choose('level', ['d0', 'd1', 'd2'])

  def mkdir(orig, path, *a, **k):
    if os.path.basename(path) == level:
      raise OSError(code, os.strerror(code), path)
    return orig(path, *a, **k)
  with Scratch() as d:
    with Mkdir(mkdir):
      c.raises('failure', lambda: m.create_path(os.path.join(d, 'd0', 'd1', 'd2', 'file')), OSError)
  with Scratch() as d:
    with open(os.path.join(d, 'd0'), 'w') as f:
      f.write('x')
    c.raises('a file in the way', lambda: m.create_path(os.path.join(d, 'd0', 'd1', 'file')), OSError)


@lemma('C20', [U + 'readArrayFromCsv'], cases=60)
def table(c):
  """Rows and columns in order, values as written."""
  m = mod(c)
  n = c.length('n', 1, 6)
  k = c.choose('k', [1, 2, 3, 8])
  rows = c.table('row', n, k, lambda e: e.reals('x', k))
  with c.files() as w:
    w.put_table('t.csv', rows, lambda x: c.rng.choice(['%r', ' %r', '%.17e']) % x)
    mark = w.mark('t.csv')
    got = m.readArrayFromCsv(w.path('t.csv'))
    c.check('the file is not changed', w.same('t.csv', mark))
    c.raises('missing file', lambda: m.readArrayFromCsv(w.path('no.csv')))
    if not c.symbolic:
      with open(w.path('t.csv'), 'a') as g:
        g.write(','.join(['x'] * k) + '\n')
      c.raises('text is not a number', lambda: m.readArrayFromCsv(w.path('t.csv')))
  c.eq('shape', list(got.shape), [n, k])
  for i in c.each('i', n):
    c.eq('values', list(got[i]), list(rows[i]), tol=0)
