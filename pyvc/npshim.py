"""numpy as seen by the verified code.

Arrays of known shape are real numpy object arrays holding Sym scalars, so
views, slicing, broadcasting and aliasing are numpy's own.  Functions whose
values depend on symbolic data are given by their defining contract here.
"""
import math as _math
import types
from fractions import Fraction

import numpy as np

from pyvc import terms as tm
from pyvc import solve
from pyvc.engine import (ENG, Sym, Unsupported, PathEnd, Truncation, as_bool_term, mkbool, term,
                         frac, is_number, num0, sym_sqrt, sym_arccos, safe_div)

str(np.zeros(1))     # numpy loads its formatting code here, before imports are redirected

PI = Sym(tm.PI)


def exact(x):
  """float -> exact rational Sym; other numbers unchanged."""
  if isinstance(x, (float, np.floating)):
    if _math.isinf(x) or _math.isnan(x):
      return float(x)
    return Sym(tm.num(frac(x)))
  return x


def has_sym(x):
  if isinstance(x, Sym):
    return True
  if isinstance(x, np.ndarray):
    return x.dtype == object
  if isinstance(x, (list, tuple)):
    return any(has_sym(e) for e in x)
  return False


class NP(types.ModuleType):
  """Module object; unknown attributes fall back to numpy for concrete data."""

  def __init__(self, rt):
    types.ModuleType.__init__(self, 'numpy')
    self.rt = rt
    self.ndarray = np.ndarray
    self.pi = PI
    self.inf = float('inf')
    self.Inf = float('inf')
    self.nan = float('nan')
    self.newaxis = None
    self.bool_ = np.bool_
    self.int64 = int
    self.float32 = self.float64
    self.double = self.float64
    self.linalg = Linalg(self)
    self.testing = Testing(self)
    self.random = Random(self)
    self.math = None
    self.abs = self.absolute
    self.round = self.around
    self.matmul = self.dot
    self.deg2rad = self.radians
    self.rad2deg = self.degrees

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    f = getattr(np, name, None)
    if f is None:
      raise AttributeError('module numpy has no attribute %s' % name)
    if not callable(f) or isinstance(f, type):
      return f

    def call(*a, **k):
      try:
        r = f(*a, **k)
      except (Unsupported, PathEnd):
        raise
      except Exception as e:
        if any(self.rt.symbolic(x) or has_sym(x) for x in a):
          raise Unsupported('numpy.%s on symbolic data (%s)' % (name, e))
        raise
      return self._fix(r)
    return call

  def _fix(self, r):
    if isinstance(r, np.ndarray) and r.dtype.kind == 'f':
      return self.array(r)
    return exact(r)

  # ---- construction ---------------------------------------------------------
  def float64(self, x=0):
    if isinstance(x, Sym):
      return Sym(tm.real(num0(x.t)))
    if isinstance(x, np.ndarray):
      return x
    if is_number(x):
      return exact(float(x)) if not isinstance(x, (int, np.integer)) else Sym(tm.num(int(x)))
    return exact(np.float64(x))

  def array(self, x=(), dtype=None, copy=True, ndmin=0, **kw):
    if self.rt.symbolic(x):
      r = self.rt.as_array(x)
      return r if dtype is None else r.astype(dtype)
    if isinstance(x, np.ndarray):
      r = x.copy() if copy else x
      if r.dtype.kind == 'f':
        r = self._objs(r)
    else:
      r = self._from_seq(x)
    if dtype is not None and self._is_float(dtype) and r.dtype.kind in 'iub':
      r = self._objs(r)
    elif dtype is not None and dtype in (int, 'int') and r.dtype == object:
      r = np.array([int(e) for e in r.ravel()]).reshape(r.shape)
    if isinstance(r, np.ndarray) and r.dtype.kind in 'US' and dtype is not None and self._is_float(dtype):
      r = self._objs(r.astype(float))
    while r.ndim < ndmin:
      r = r[None]
    return r

  def _is_float(self, d):
    return d in (float, np.float64, np.float32, 'float', 'f8', 'float64', np.double) or \
        getattr(d, '__self__', None) is self or getattr(d, '__name__', '') in ('float', 'float64')

  def _objs(self, a):
    r = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
      v = a[i]
      r[i] = exact(float(v)) if not isinstance(v, Sym) and not isinstance(v, (np.integer, int, np.bool_, bool)) \
          else (v if isinstance(v, Sym) else Sym(tm.num(int(v))))
    return r

  def _from_seq(self, x):
    def shape(v):
      if isinstance(v, np.ndarray):
        return v.shape
      if isinstance(v, (list, tuple, range)):
        v = list(v)
        if not v:
          return (0,)
        s = [shape(e) for e in v]
        if any(t != s[0] for t in s):
          raise ValueError('setting an array element with a sequence. The requested array has an '
                           'inhomogeneous shape')
        return (len(v),) + s[0]
      return ()

    flat = []

    def walk(v):
      if isinstance(v, np.ndarray):
        flat.extend(v.ravel().tolist() if v.dtype != object else list(v.ravel()))
      elif isinstance(v, (list, tuple, range)):
        for e in v:
          if self.rt.symbolic(e):
            raise Unsupported('array of sequences of unknown length')
          walk(e)
      else:
        flat.append(v)
    if not isinstance(x, (list, tuple, range, np.ndarray)) and hasattr(x, '__iter__') and not isinstance(x, (str, dict)):
      x = list(x)
    sh = shape(x)
    walk(x)
    if flat and all(isinstance(v, (bool, np.bool_)) for v in flat):
      return np.array(flat, dtype=bool).reshape(sh)
    if flat and all(isinstance(v, (int, np.integer, bool, np.bool_)) for v in flat):
      return np.array([int(v) for v in flat]).reshape(sh)
    if flat and all(isinstance(v, str) for v in flat):
      return np.array(flat).reshape(sh)
    r = np.empty(len(flat), dtype=object)
    for i, v in enumerate(flat):
      if isinstance(v, (int, np.integer, bool, np.bool_)):
        v = Sym(tm.num(int(v)))
      elif isinstance(v, Sym) and v.t.sort == 'I':
        v = Sym(tm.real(v.t))
      r[i] = exact(v)
    if not flat:
      return np.empty(sh, dtype=object)
    return r.reshape(sh)

  def asarray(self, x, dtype=None, **kw):
    if self.rt.symbolic(x):
      r = self.rt.as_array(x, copy=False)
      return r if dtype is None or isinstance(x, SymArr) else r.astype(dtype)
    if isinstance(x, np.ndarray):
      return x
    return self.array(x, dtype)

  asfarray = asarray
  ascontiguousarray = asarray

  def copy(self, x):
    return x.copy() if isinstance(x, np.ndarray) or self.rt.symbolic(x) else self.array(x)

  def _full(self, shape, v):
    if self.rt.is_dim(shape):
      shape = (shape,)
    shape = tuple(shape)
    if any(isinstance(s, Sym) and s.t.op != 'num' for s in shape):
      return self.rt.sym_full(shape, v)
    shape = tuple(int(s) for s in shape)
    r = np.empty(shape, dtype=object)
    r.fill(v)
    return r

  def zeros(self, shape, dtype=None, **kw):
    if dtype in (int, bool):
      return np.zeros(shape, dtype)
    return self._full(shape, Sym(tm.ZERO))

  def ones(self, shape, dtype=None, **kw):
    if dtype in (int, bool):
      return np.ones(shape, dtype)
    return self._full(shape, Sym(tm.ONE))

  def empty(self, shape, dtype=None, **kw):
    return self._full(shape, ENG.fresh('empty'))

  def full(self, shape, v, dtype=None, **kw):
    return self._full(shape, exact(v))

  def zeros_like(self, a, dtype=None, **kw):
    return self._full(a.shape, Sym(tm.ZERO))

  def ones_like(self, a, dtype=None, **kw):
    return self._full(a.shape, Sym(tm.ONE))

  def empty_like(self, a, dtype=None, **kw):
    return self._full(a.shape, ENG.fresh('empty'))

  def eye(self, n, m=None, **kw):
    r = self.zeros((n, n if m is None else m))
    for i in range(min(r.shape)):
      r[i, i] = Sym(tm.ONE)
    return r

  def identity(self, n, **kw):
    return self.eye(n)

  def arange(self, *a):
    if any(isinstance(x, Sym) and x.t.op != 'num' for x in a):
      return self.rt.arange(*a)
    if all(isinstance(x, (int, np.integer)) for x in a):
      return np.arange(*a)
    r = np.arange(*[float(x) for x in a])
    return self._objs(r)

  def linspace(self, start, stop, num=50, endpoint=True, **kw):
    return self.rt.linspace(start, stop, num)

  # ---- elementwise ------------------------------------------------------------
  def _map(self, f, x):
    if self.rt.symbolic(x):
      return self.rt.map1(f, x)
    if isinstance(x, (list, tuple)):
      x = self.array(x)
    if isinstance(x, np.ndarray):
      r = np.empty(x.shape, dtype=object)
      for i in np.ndindex(x.shape):
        r[i] = f(x[i])
      return r if x.shape else r[()]
    return f(x)

  def sqrt(self, x):
    return self._map(sym_sqrt, x)

  def sin(self, x):
    return self._map(lambda v: Sym(tm.sin(tm.real(num0(term(v))))), x)

  def cos(self, x):
    return self._map(lambda v: Sym(tm.cos(tm.real(num0(term(v))))), x)

  def arccos(self, x):
    return self._map(sym_arccos, x)

  def degrees(self, x):
    return self._map(lambda v: Sym(tm.div(tm.mul(tm.num(180), tm.real(num0(term(v)))), tm.PI)), x)

  def radians(self, x):
    return self._map(lambda v: Sym(tm.div(tm.mul(tm.PI, tm.real(num0(term(v)))), tm.num(180))), x)

  def square(self, x):
    return self._map(lambda v: v * v, x)

  def power(self, x, n):
    return self._map(lambda v: v ** n, x)

  def absolute(self, x):
    return self._map(abs, x)

  fabs = absolute

  def sign(self, x):
    return self._map(lambda v: Sym(tm.ONE) if v > 0 else (Sym(tm.num(-1)) if v < 0 else Sym(tm.ZERO)), x)

  def negative(self, x):
    return -x

  def floor(self, x):
    return self._map(lambda v: Sym(tm.real(tm.toint(term(v)))), x)

  def around(self, x, decimals=0):
    raise Unsupported('rounding')

  def mod(self, a, b):
    if isinstance(a, np.ndarray):
      return self._map(lambda v: v % b, a)
    return Sym(tm.real(term(a))) % exact(b)

  def add(self, a, b):
    return a + b

  def subtract(self, a, b):
    return a - b

  def multiply(self, a, b):
    return a * b

  def divide(self, a, b):
    return self.rt.div(a, b)

  true_divide = divide

  def isnan(self, x):
    return self._map(lambda v: (not isinstance(v, Sym)) and v != v, x)

  def isinf(self, x):
    return self._map(lambda v: (not isinstance(v, Sym)) and v in (float('inf'), float('-inf')), x)

  def isfinite(self, x):
    return self._map(lambda v: isinstance(v, Sym) or (v == v and v not in (float('inf'), float('-inf'))), x)

  def clip(self, x, lo, hi, **kw):
    lo, hi = exact(lo), exact(hi)
    if self.rt.symbolic(x):
      ENG.assumed.add('numpy.clip of a sequence: a value determined by the element and the bounds')
      return self._map(lambda v: Sym(tm.app('clip', tuple(tm.real(num0(term(y))) for y in (v, lo, hi)), 'R')), x)
    return self._map(lambda v: clip1(v, lo, hi), x)

  def maximum(self, a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
      a, b = np.broadcast_arrays(a, b)
      r = np.empty(a.shape, dtype=object)
      for i in np.ndindex(a.shape):
        r[i] = self.maximum(a[i], b[i])
      return r
    return a if a >= b else b

  def minimum(self, a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
      a, b = np.broadcast_arrays(a, b)
      r = np.empty(a.shape, dtype=object)
      for i in np.ndindex(a.shape):
        r[i] = self.minimum(a[i], b[i])
      return r
    return a if a <= b else b

  def where(self, c, *ab):
    if not ab:
      raise Unsupported('where with one argument')
    if isinstance(c, np.ndarray):
      a, b, c = np.broadcast_arrays(ab[0], ab[1], c)
      r = np.empty(c.shape, dtype=object)
      for i in np.ndindex(c.shape):
        r[i] = a[i] if c[i] else b[i]
      return r
    return ab[0] if c else ab[1]

  # ---- reductions / products ----------------------------------------------------
  def dot(self, a, b):
    if isinstance(a, (list, tuple)):
      a = self.array(a)
    if isinstance(b, (list, tuple)):
      b = self.array(b)
    if self.rt.symbolic(a) or self.rt.symbolic(b):
      return self.rt.symdot(a, b)
    r = np.dot(a, b)
    if isinstance(r, Sym) and isinstance(a, np.ndarray) and a.ndim == 1 and isinstance(b, np.ndarray) and b.ndim == 1:
      for t, v in ENG.reg.get('dots', ()):
        if t is r.t:
          return v
      cauchy_schwarz(a, b, r)
    return exact(r) if not isinstance(r, np.ndarray) else r

  def inner(self, a, b):
    a, b = self.asarray(a), self.asarray(b)
    if a.ndim == 1 and b.ndim == 1:
      if a.shape != b.shape:
        raise ValueError('shapes not aligned')
      return self.dot(a, b)
    return np.inner(a, b)

  vdot = inner

  def cross(self, a, b):
    a, b = self.asarray(a), self.asarray(b)
    if a.shape != (3,) or b.shape != (3,):
      raise Unsupported('cross product shape')
    return self.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
                       a[0] * b[1] - a[1] * b[0]])

  def outer(self, a, b):
    a, b = self.asarray(a).ravel(), self.asarray(b).ravel()
    return self.array([[x * y for y in b] for x in a])

  def sum(self, a, axis=None, **kw):
    if self.rt.symbolic(a):
      return self.rt.symsum(a)
    a = self.asarray(a)
    r = np.sum(a, axis=axis)
    return exact(r) if not isinstance(r, np.ndarray) else r

  def prod(self, a, axis=None):
    return exact(np.prod(self.asarray(a), axis=axis))

  def mean(self, a, axis=None):
    if self.rt.symbolic(a):
      return self.rt.mean(a)
    a = self.asarray(a)
    return self.sum(a) / a.size

  average = mean

  def median(self, a, axis=None):
    if self.rt.symbolic(a):
      return self.rt.median(a)
    raise Unsupported('median of a fixed array')

  def percentile(self, a, q, **kw):
    return self.rt.percentile(a, q)

  def diff(self, a):
    if self.rt.symbolic(a):
      return self.rt.diff(a)
    a = self.asarray(a)
    return a[1:] - a[:-1]

  def interp(self, x, xp, fp, **kw):
    return self.rt.interpolate(x, xp, fp)

  def max(self, a, axis=None):
    return self.rt.extremum(a, True)

  def min(self, a, axis=None):
    return self.rt.extremum(a, False)

  amax = max
  amin = min

  def argmax(self, a, axis=None):
    if self.rt.symbolic(a):
      return self.rt.argmax(a, True)
    a = list(self.asarray(a).ravel())
    b = 0
    for i in range(1, len(a)):
      if a[i] > a[b]:
        b = i
    return b

  def argmin(self, a, axis=None):
    if self.rt.symbolic(a):
      return self.rt.argmax(a, False)
    a = list(self.asarray(a).ravel())
    b = 0
    for i in range(1, len(a)):
      if a[i] < a[b]:
        b = i
    return b

  def trace(self, a):
    return exact(np.trace(a))

  def all(self, a, axis=None):
    if self.rt.symbolic(a):
      return self.rt.all_(a)
    a = self.asarray(a)
    return mkbool(tm.and_(*[as_bool_term(v) for v in a.ravel()]))

  def any(self, a, axis=None):
    if self.rt.symbolic(a):
      return self.rt.any_(a)
    a = self.asarray(a)
    return mkbool(tm.or_(*[as_bool_term(v) for v in a.ravel()]))

  def count_nonzero(self, a):
    if self.rt.symbolic(a):
      return self.rt.symsum(a)
    return sum((1 if v else 0) for v in self.asarray(a).ravel())

  # ---- comparison -----------------------------------------------------------------
  def isclose(self, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    rtol, atol = exact(rtol), exact(atol)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
      a, b = np.broadcast_arrays(self.asarray(a), self.asarray(b))
      r = np.empty(a.shape, dtype=object)
      for i in np.ndindex(a.shape):
        r[i] = isclose1(a[i], b[i], rtol, atol)
      return r
    return isclose1(a, b, rtol, atol)

  def allclose(self, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    rtol, atol = exact(rtol), exact(atol)
    if self.rt.symbolic(a) or self.rt.symbolic(b):
      return self.rt.allclose(a, b, rtol, atol)
    a, b = np.broadcast_arrays(self.asarray(a), self.asarray(b))
    cs = []
    for i in np.ndindex(a.shape):
      cs.append(as_bool_term(isclose1(a[i], b[i], rtol, atol)))
    return mkbool(tm.and_(*cs))

  def array_equal(self, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
      if len(a) != len(b):
        return False
      return mkbool(tm.and_(*[tm.eq(term(x), term(y)) for x, y in zip(a, b)]))
    if self.rt.symbolic(a) or self.rt.symbolic(b):
      return self.rt.allclose(a, b, 0, 0)
    a, b = self.asarray(a), self.asarray(b)
    if a.shape != b.shape:
      return False
    return mkbool(tm.and_(*[tm.eq(term(x), term(y)) for x, y in zip(a.ravel(), b.ravel())]))

  # ---- shape ------------------------------------------------------------------------
  def hstack(self, xs):
    return np.hstack([self.asarray(x) for x in xs])

  def vstack(self, xs):
    if any(self.rt.symbolic(x) for x in xs) or self.rt.symbolic(xs):
      return self.rt.vstack(xs)
    return np.vstack([self.asarray(x) for x in xs])

  def stack(self, xs, axis=0):
    return np.stack([self.asarray(x) for x in xs], axis)

  def concatenate(self, xs, axis=0):
    if any(self.rt.symbolic(x) for x in xs):
      return self.rt.vstack(xs)
    return np.concatenate([self.asarray(x) for x in xs], axis)

  def append(self, a, b, axis=None):
    if self.rt.symbolic(a) or self.rt.symbolic(b):
      return self.rt.vstack([a, b])
    a, b = self.asarray(a), self.asarray(b)
    if axis is None:
      return np.concatenate([a.ravel(), b.ravel()])
    return np.concatenate([a, b], axis)

  def transpose(self, a, axes=None):
    return a.T

  def ravel(self, a):
    return self.asarray(a).ravel()

  def reshape(self, a, s):
    return self.asarray(a).reshape(s)

  def squeeze(self, a):
    return np.squeeze(a)

  def shape(self, a):
    return a.shape

  def size(self, a):
    return a.size

  def diag(self, a, k=0):
    a = self.asarray(a)
    if a.ndim == 2:
      return np.diag(a, k).copy()
    r = self.zeros((len(a), len(a)))
    for i in range(len(a)):
      r[i, i] = a[i]
    return r

  def roll(self, a, n, axis=None):
    return np.roll(a, n, axis)

  def array_str(self, a, *x, **k):
    if hasattr(a, 'token'):
      return 'array_str(%s)' % a
    return 'array<%s>' % (a,)

  array2string = array_str

  def set_printoptions(self, *a, **k):
    pass

  def savetxt(self, f, a, fmt='%.18e', delimiter=' ', **kw):
    self.rt.savetxt(f, a, fmt, delimiter, kw)

  def loadtxt(self, f, **k):
    return self.rt.loadtxt(f, **k)

  genfromtxt = loadtxt


class Linalg(types.ModuleType):

  def __init__(self, npm):
    types.ModuleType.__init__(self, 'numpy.linalg')
    self.np = npm

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    raise Unsupported('numpy.linalg.%s' % name)

  def norm(self, v, ord=None, axis=None):
    v = self.np.asarray(v)
    if self.np.rt.symbolic(v):
      if v.ndim == 2 and axis in (1, -1) and ord in (None, 2):
        return self.np.rt.rows(self.norm, v)
      raise Unsupported('norm of an array of unknown length')
    if axis is not None:
      if v.ndim == 2 and axis in (1, -1):
        return self.np.array([self.norm(r) for r in v])
      raise Unsupported('norm along an axis')
    if v.ndim == 1 and ord not in (None, 2) or v.ndim > 1 and ord not in (None, 'fro'):
      raise Unsupported('matrix norm')
    s = sumsq(v.ravel())
    return sym_sqrt(s)

  def inv(self, m):
    raise Unsupported('matrix inverse')

  def det(self, m):
    if m.shape != (3, 3):
      raise Unsupported('determinant')
    return (m[0, 0] * (m[1, 1] * m[2, 2] - m[1, 2] * m[2, 1]) -
            m[0, 1] * (m[1, 0] * m[2, 2] - m[1, 2] * m[2, 0]) +
            m[0, 2] * (m[1, 0] * m[2, 1] - m[1, 1] * m[2, 0]))

  def matrix_rank(self, m, tol=None, **kw):
    """0 <= rank <= min(shape)."""
    ENG.assumed.add('numpy.linalg.matrix_rank: 0 <= rank <= min(rows, columns)')
    r = ENG.fresh('rank', 'I')
    ENG.assume(tm.le(tm.num(0, 'I'), r.t))
    for s in m.shape:
      ENG.assume(tm.le(r.t, term(s)))
    return r

  def svd(self, m, full_matrices=True, compute_uv=True, **kw):
    return self.np.rt.svd(m)


class Testing(types.ModuleType):

  def __init__(self, npm):
    types.ModuleType.__init__(self, 'numpy.testing')
    self.np = npm

  def assert_allclose(self, a, b, rtol=1e-7, atol=0, **kw):
    if not self.np.allclose(a, b, rtol=rtol, atol=atol):
      raise AssertionError('not close')

  def assert_almost_equal(self, a, b, decimal=7, **kw):
    if not self.np.allclose(a, b, rtol=0, atol=1.5 * 10 ** -decimal):
      raise AssertionError('not close')

  assert_array_almost_equal = assert_almost_equal


class Random(types.ModuleType):

  def __init__(self, npm):
    types.ModuleType.__init__(self, 'numpy.random')
    self.np = npm

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    raise Unsupported('numpy.random.%s' % name)

  def uniform(self, lo=0.0, hi=1.0, size=None):
    def one():
      r = ENG.fresh('uniform')
      ENG.assume(tm.le(term(exact(lo)), r.t))
      ENG.assume(tm.le(r.t, term(exact(hi))))
      return r
    if size is None:
      return one()
    return self.np.array([one() for _ in range(int(size))])

  def seed(self, *a):
    pass


def sumsq(v):
  s = tm.ZERO
  for x in v:
    t = tm.real(num0(term(x)))
    s = tm.add(s, tm.mul(t, t))
  return Sym(s)


def clip1(v, lo, hi):
  if not isinstance(v, Sym):
    v = exact(v) if isinstance(v, float) else v
  if v < lo:
    return lo
  if v > hi:
    return hi
  return v


def abs_term(t):
  if tm.is_num(t):
    return tm.num(abs(tm.val(t)), t.sort)
  return tm.ite(tm.le(tm.num(0, t.sort), t), t, tm.neg(t))


def isclose1(a, b, rtol, atol):
  if not isinstance(a, Sym) and not isinstance(b, Sym):
    try:
      fa, fb = float(a), float(b)
    except (TypeError, ValueError):
      raise
    if _math.isinf(fa) or _math.isinf(fb) or fa != fa or fb != fb:
      return fa == fb
  elif (not isinstance(a, Sym) and (a != a or a in (float('inf'), float('-inf')))) or \
      (not isinstance(b, Sym) and (b != b or b in (float('inf'), float('-inf')))):
    return False
  ta, tb = tm.real(num0(term(a))), tm.real(num0(term(b)))
  tol = tm.add(term(exact(atol)), tm.mul(term(exact(rtol)), abs_term(tb)))
  d = tm.sub(ta, tb)
  return mkbool(tm.and_(tm.le(d, tol), tm.le(tm.neg(d), tol)))


def poly_const(t):
  """The rational value of t under the current facts, if polynomially constant."""
  try:
    p = solve.poly_ctx(solve.relevant(ENG.facts, tm.eq(t, tm.var('__dummy'))), 3.0)
    n, d = p.conv(t)
    n = p.reduce(n)
    if d:
      return None
    if not n:
      return Fraction(0)
    if len(n) == 1 and () in n:
      return Fraction(n[()])
  except Exception:
    return None
  return None


def cauchy_schwarz(a, b, r):
  """Adds the instance (a.b)^2 <= (a.a)(b.b) when both norms are known numbers."""
  if tm.is_num(r.t):
    return
  na, nb = poly_const(sumsq(a).t), None
  if na is None:
    return
  nb = poly_const(sumsq(b).t)
  if nb is None:
    return
  k = tm._isqrt_frac(na * nb)
  if k is not None:
    ENG.assume(tm.le(r.t, tm.num(k)))
    ENG.assume(tm.le(tm.num(-k), r.t))
