"""Context with concrete inputs: the same lemma text evaluated on the real code."""
import bisect
import copy
import importlib
import io
import json
import math
import os
import random
import shutil
import sys
import tempfile
import types
from fractions import Fraction

import numpy as np

REPO = os.environ.get('PYVC_REPO', '/repo')


def setup_path():
  for p in (REPO + '/hand_eye_calibration/python', REPO + '/hand_eye_calibration_experiments/python'):
    if p not in sys.path:
      sys.path.insert(0, p)
  if 'tf' not in sys.modules:
    tf = types.ModuleType('tf')
    sys.modules['tf'] = tf
  import matplotlib
  matplotlib.use('Agg')


class Skip(Exception):
  """The drawn input does not satisfy the precondition."""


class Failed(Exception):

  def __init__(self, label, detail=''):
    Exception.__init__(self, label)
    self.label = label
    self.detail = detail


class ConcCtx(object):
  symbolic = False

  def __init__(self, rng, fixed=None, size='small'):
    self.rng = rng
    self.fixed = fixed or {}
    self.inputs = {}
    self.stamps = {}
    self.np = np
    self.checks = 0
    self.scale = 0.0

  def mod(self, name):
    setup_path()
    return importlib.import_module('hand_eye_calibration.' + name if '.' not in name else name)

  # ---- inputs ---------------------------------------------------------------
  def _rec(self, name, v):
    self.inputs[name] = v
    return v

  def real(self, name, lo=None, hi=None, nonzero=False, edge=(), **hint):
    if name in self.inputs:
      return self.inputs[name]
    if name in self.fixed:
      return self._rec(name, float(self.fixed[name]))
    r = self.rng
    for _ in range(200):
      u = r.random()
      if edge and u < 0.4:
        v = float(r.choice(list(edge)))
      elif lo is not None and hi is not None:
        v = r.uniform(lo, hi) if u < 0.8 else r.choice([lo, hi, (lo + hi) / 2.0])
      elif u < 0.15:
        v = float(r.choice([0, 1, -1, 2, -2, 0.5, -0.5, 3]))
      elif u < 0.3:
        v = r.gauss(0, 1) * 10 ** r.uniform(-4, 0)
      elif u < 0.45:
        v = r.gauss(0, 1) * 10 ** r.uniform(0, 3)
      else:
        v = r.gauss(0, 1)
      if lo is not None and v < lo:
        v = lo + abs(v - lo) if hi is None else lo
      if hi is not None and v > hi:
        v = hi - abs(v - hi) if lo is None else hi
      if nonzero and abs(v) < 1e-3:
        continue
      return self._rec(name, float(v))
    raise Skip()

  def reals(self, name, n, **hint):
    if name + '.0' in self.inputs:
      return [self.inputs['%s.%d' % (name, i)] for i in range(n)]
    if self.rng.random() < 0.1 and not any('%s.%d' % (name, i) in self.fixed for i in range(n)):
      # sparse vectors
      out = []
      for i in range(n):
        v = self.rng.choice([0.0, 0.0, 1.0, -1.0, self.rng.gauss(0, 1)])
        out.append(self._rec('%s.%d' % (name, i), float(v)))
      return out
    return [self.real('%s.%d' % (name, i), **hint) for i in range(n)]

  def unit(self, name, n, **hint):
    r = self.rng
    names = ['%s.%d' % (name, i) for i in range(n)]
    if names[0] in self.inputs:
      return [self.inputs[x] for x in names]
    if all(x in self.fixed for x in names):
      v = np.array([float(self.fixed[x]) for x in names])
    else:
      u = r.random()
      if n == 4 and u < 0.45:
        k = r.randrange(9)
        if k == 0:
          v = np.array([0., 0., 0., r.choice([1., -1.])])
        elif k in (1, 2):     # half turn
          a = np.array([r.gauss(0, 1) for _ in range(3)])
          if k == 2:
            a = np.zeros(3)
            a[r.randrange(3)] = r.choice([1., -1.])
          v = np.append(a / np.linalg.norm(a), 0.)
        elif k in (3, 4, 5):  # small rotation
          a = np.array([r.gauss(0, 1) for _ in range(3)])
          a = a / np.linalg.norm(a)
          h = 10 ** r.uniform(-7 if k == 3 else -4, -1)
          v = np.append(a * math.sin(h), math.cos(h)) * r.choice([1, -1])
        elif k == 6:          # near half turn
          a = np.array([r.gauss(0, 1) for _ in range(3)])
          a = a / np.linalg.norm(a)
          h = math.pi / 2 + r.choice([1, -1]) * 10 ** r.uniform(-7, -1)
          v = np.append(a * math.sin(h), math.cos(h)) * r.choice([1, -1])
        else:                 # axis aligned
          a = np.zeros(3)
          a[r.randrange(3)] = r.choice([1., -1.])
          h = r.uniform(0, math.pi)
          v = np.append(a * math.sin(h), math.cos(h))
      elif u < 0.2:
        v = np.zeros(n)
        v[r.randrange(n)] = r.choice([1., -1.])
      else:
        v = np.array([r.gauss(0, 1) for _ in range(n)])
    nv = np.linalg.norm(v)
    if not nv > 1e-6:
      raise Skip()
    v = v / nv
    for x, y in zip(names, v):
      self._rec(x, float(y))
    return [float(y) for y in v]

  def dq8(self, name, scale=1.0, **hint):
    r = self.unit(name + '.r', 4)
    names = ['%s.d.%d' % (name, i) for i in range(4)]
    if names[0] in self.inputs:
      return list(r) + [self.inputs[x] for x in names]
    if all(x in self.fixed for x in names):
      d = np.array([float(self.fixed[x]) for x in names])
      d = d - np.dot(d, r) * np.array(r)
    else:
      t = [self.real(name + '.t.%d' % i) * scale for i in range(3)]
      x, y, z, w = r
      tx, ty, tz = t
      d = 0.5 * np.array([tx * w + ty * z - tz * y, -tx * z + ty * w + tz * x,
                          tx * y - ty * x + tz * w, -tx * x - ty * y - tz * z])
    for x, y in zip(names, d):
      self._rec(x, float(y))
    return list(r) + [float(y) for y in d]

  def integer(self, name, lo=None, hi=None, **hint):
    if name in self.inputs:
      return self.inputs[name]
    if name in self.fixed:
      return self._rec(name, int(self.fixed[name]))
    lo = -5 if lo is None else int(lo)
    hi = lo + 10 if hi is None else int(hi)
    return self._rec(name, self.rng.randint(lo, hi))

  def boolean(self, name):
    if name in self.inputs:
      return self.inputs[name]
    if name in self.fixed:
      return self._rec(name, bool(self.fixed[name]))
    return self._rec(name, self.rng.random() < 0.5)

  def choose(self, name, options):
    keys = ['%s=%d' % (name, i) for i in range(len(options) - 1)]
    if any(k in self.fixed for k in keys):
      for i, k in enumerate(keys):
        if self.fixed.get(k):
          return options[i]
      return options[-1]
    i = self.rng.randrange(len(options))
    self._rec('%s=%d' % (name, i), True)
    return options[i]

  def array(self, xs):
    return np.array(xs)

  def floats(self, xs):
    return np.array(xs, dtype=float)

  def list(self, xs):
    return list(xs)

  # ---- sequences --------------------------------------------------------------
  def length(self, name, lo=0, hi=8):
    if name in self.inputs:
      return self.inputs[name]
    if name in self.fixed:
      return self._rec(name, max(lo, min(int(self.fixed[name]), max(hi, 12))))
    return self._rec(name, self.rng.choice([lo, lo, lo + 1, hi] + list(range(lo, hi + 1))))

  def seq(self, name, n, make):
    return [make(ElemCtx(self, name, i)) for i in range(n)]

  def table(self, name, n, cols, make):
    rows = [list(make(ElemCtx(self, name, i))) for i in range(n)]
    return np.array(rows, dtype=float).reshape(n, cols)

  def series(self, name, n, make):
    return np.array([make(ElemCtx(self, name, i)) for i in range(n)], dtype=float)

  def index(self, name, n, lo=0):
    if n <= lo:
      raise Skip()
    if name in self.fixed and lo <= int(self.fixed[name]) < n:
      return self._rec(name, int(self.fixed[name]))
    return self._rec(name, self.rng.randint(lo, n - 1))

  def watch(self, i):
    pass

  def each(self, name, n):
    return list(range(n))

  def len(self, x):
    return len(x)

  def pose_at(self, p, t):
    from contracts import paths
    return paths.position_at(self, p, t) + paths.orientation_at(self, p[:, 0], paths.turned(self, p), t)

  def bisect(self, xs, x):
    """Number of elements of the increasing sequence below x."""
    return bisect.bisect_left(list(xs), x)

  def sum(self, name, n, f):
    return math.fsum(f(i) for i in range(n))

  def at(self, x, i):
    return x[i]

  # ---- the outside world -----------------------------------------------------------
  def files(self):
    return Files(self)

  # ---- assumptions and statements -----------------------------------------------
  def assume(self, cond):
    if not cond:
      raise Skip()

  def check(self, label, cond):
    self.checks += 1
    if not bool(cond):
      raise Failed(label)

  def fail(self, label):
    raise Failed(label)

  def _tol(self, a, b, tol, scale):
    return tol * (1.0 + max(abs(a), abs(b), scale or 0.0, self.scale))

  def le(self, label, a, b, tol=1e-9, **k):
    self.checks += 1
    if not a <= b + self._tol(a, b, tol, 0):
      raise Failed(label, '%r <= %r is false' % (a, b))

  def lt(self, label, a, b, tol=1e-9, **k):
    self.checks += 1
    if not a < b + self._tol(a, b, tol, 0):
      raise Failed(label, '%r < %r is false' % (a, b))

  def close(self, a, b, tol=1e-9, scale=0.0, **k):
    if isinstance(a, (float, np.floating)) and (math.isinf(a) or math.isnan(a)):
      return a == b
    return abs(a - b) <= self._tol(a, b, tol, scale)

  def eq(self, label, a, b, tol=1e-9, scale=0.0, **k):
    self.checks += 1
    p = self._diff(a, b, tol, scale, '')
    if p is not None:
      raise Failed(label, p)

  def _diff(self, a, b, tol, scale, path):
    if a is b:
      if isinstance(a, float) and a != a:
        return 'nan at %s' % path
      if not isinstance(a, (np.ndarray, list, tuple)):
        return None
    num = (int, float, np.integer, np.floating, np.bool_, bool, Fraction)
    if isinstance(a, np.ndarray) and a.shape == ():
      a = a[()]
    if isinstance(b, np.ndarray) and b.shape == ():
      b = b[()]
    if isinstance(a, num) and isinstance(b, num):
      if isinstance(a, Fraction):
        a = float(a)
      if isinstance(b, Fraction):
        b = float(b)
      if self.close(a, b, tol, scale):
        return None
      return '%r != %r at %s' % (a, b, path or 'value')
    if a is None or b is None or isinstance(a, (str, type)) or isinstance(b, (str, type)):
      return None if a is b or (type(a) is type(b) and a == b) else '%r != %r' % (a, b)
    if isinstance(a, (np.ndarray, list, tuple)) and isinstance(b, (np.ndarray, list, tuple)):
      if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape != b.shape:
        return 'shape %r != %r at %s' % (a.shape, b.shape, path)
      if len(a) != len(b):
        return 'length %d != %d at %s' % (len(a), len(b), path)
      if isinstance(a, np.ndarray) and a.dtype.kind == 'f':
        scale = max(scale or 0.0, float(np.max(np.abs(a))) if a.size and np.all(np.isfinite(a)) else 0.0)
      for i, (x, y) in enumerate(zip(a, b)):
        p = self._diff(x, y, tol, scale, '%s[%d]' % (path, i))
        if p is not None:
          return p
      return None
    if isinstance(a, dict) and isinstance(b, dict):
      if a.keys() != b.keys():
        return 'keys differ at %s' % path
      for k in a:
        p = self._diff(a[k], b[k], tol, scale, '%s[%r]' % (path, k))
        if p is not None:
          return p
      return None
    if hasattr(a, '__dict__') and hasattr(b, '__dict__') and type(a) is type(b):
      return self._diff(a.__dict__, b.__dict__, tol, scale, path)
    return '%r != %r at %s' % (type(a), type(b), path)

  def implies(self, a, b):
    return (not a) or bool(b)

  def or_(self, *xs):
    return any(bool(x) for x in xs)

  def and_(self, *xs):
    return all(bool(x) for x in xs)

  def iff(self, a, b):
    return bool(a) == bool(b)

  def not_(self, a):
    return not a

  def snap(self, *vs):
    return copy.deepcopy(vs)

  def unchanged(self, label, snap, *vs, **k):
    for a, b in zip(snap, vs):
      self.eq(label, b, a, tol=k.get('tol', 0.0))

  def disjoint(self, label, a, b):
    self.check(label, not share_memory(a, b))

  def raises(self, label, fn, *exc):
    try:
      with quiet():
        fn()
    except (exc or (Exception,)):
      self.checks += 1
      return
    raise Failed(label, 'nothing was raised')

  def attempt(self, fn):
    try:
      return True, fn()
    except Exception as e:
      return False, e

  # ---- mathematics --------------------------------------------------------------
  pi = math.pi

  def sqrt(self, x):
    return math.sqrt(max(float(x), 0.0) if x > -1e-12 else x)

  def sin(self, x):
    return math.sin(x)

  def cos(self, x):
    return math.cos(x)

  def arccos(self, x):
    return math.acos(max(-1.0, min(1.0, float(x))))

  def div(self, a, b):
    return a / b

  def frac(self, a, b):
    return float(a) / float(b)

  def const(self, s):
    return float(s)

  def is_true(self, cond):
    return bool(cond)

  def is_finite(self, x):
    return bool(np.all(np.isfinite(x)))

  def lemma_fact(self, label, cond):
    pass

  def have(self, label, cond, using=(), opaque=()):
    pass

  def math(self, name, x):
    pass

  def skip(self):
    raise Skip()


class Files(object):
  """A scratch directory."""

  def __init__(self, ctx):
    self.ctx = ctx

  def __enter__(self):
    self.d = tempfile.mkdtemp(prefix='pyvc')
    return self

  def __exit__(self, *a):
    shutil.rmtree(self.d, ignore_errors=True)
    return False

  def path(self, name):
    return os.path.join(self.d, name)

  def put_table(self, name, rows, text=repr):
    with open(self.path(name), 'w') as f:
      for r in rows:
        f.write(','.join(text(float(v)) for v in r) + '\n')

  def put_junk(self, name):
    with open(self.path(name), 'w') as f:
      f.write('1,2,3,4,5,6,7,8\n' * 50)

  def mark(self, name):
    with open(self.path(name)) as f:
      return f.read()

  def same(self, name, mark):
    return self.mark(name) == mark

  def table(self, name):
    with open(self.path(name)) as f:
      return np.array([[float(x) for x in line.split(',')] for line in f])

  def json(self, name):
    with open(self.path(name)) as f:
      return json.load(f)


class ElemCtx(object):
  symbolic = False

  def __init__(self, ctx, name, i):
    self.ctx = ctx
    self.name = name
    self.idx = i

  def _n(self, n):
    return '%s.%s(%d)' % (self.name, n, self.idx)

  def real(self, n, **k):
    return self.ctx.real(self._n(n), **k)

  def reals(self, n, k, **h):
    return self.ctx.reals(self._n(n), k, **h)

  def unit(self, n, k, **h):
    return self.ctx.unit(self._n(n), k, **h)

  def dq8(self, n, **h):
    return self.ctx.dq8(self._n(n), **h)

  def stamp(self, n, start=0.0, grid=0.0, **h):
    """Strictly increasing with the index."""
    key = self._n(n)
    if key in self.ctx.inputs:
      return self.ctx.inputs[key]
    prev = self.ctx.stamps.get((self.name, n, self.idx - 1))
    if key in self.ctx.fixed:
      v = float(self.ctx.fixed[key])
      if prev is not None and v <= prev:
        raise Skip()
    elif prev is None:
      v = start
    elif grid:
      v = prev + self.ctx.rng.choice([1, 1, 1, 2, 3, 12]) * grid
    else:
      v = prev + self.ctx.rng.choice([0.03, 0.05, 0.1, 0.3]) * self.ctx.rng.uniform(0.5, 1.5)
    self.ctx.stamps[(self.name, n, self.idx)] = v
    return self.ctx._rec(key, v)

  def boolean(self, n):
    return self.ctx.boolean(self._n(n))

  def integer(self, n, lo=None, hi=None, **h):
    return self.ctx.integer(self._n(n), lo, hi, **h)

  def __getattr__(self, n):
    return getattr(self.ctx, n)


def arrays_in(v, out=None, seen=None):
  if out is None:
    out, seen = [], set()
  if v is None or isinstance(v, (bool, int, float, str, np.generic)) or id(v) in seen:
    return out
  seen.add(id(v))
  if isinstance(v, np.ndarray):
    out.append(v)
  elif isinstance(v, (list, tuple, set)):
    if isinstance(v, list):
      out.append(v)
    for e in v:
      arrays_in(e, out, seen)
  elif isinstance(v, dict):
    for e in v.values():
      arrays_in(e, out, seen)
  elif hasattr(v, '__dict__') and not isinstance(v, type) and not callable(v):
    for e in v.__dict__.values():
      arrays_in(e, out, seen)
  return out


def share_memory(a, b):
  for x in arrays_in(a):
    for y in arrays_in(b):
      if x is y:
        return True
      if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and np.shares_memory(x, y):
        return True
  return False


class quiet(object):
  """Suppresses the chatter of the code under test."""

  def __enter__(self):
    self.o = sys.stdout
    sys.stdout = io.StringIO()

  def __exit__(self, *a):
    sys.stdout = self.o
    return False
