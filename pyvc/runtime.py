"""The environment of the verified code: operators, builtins and libraries."""
import builtins as _bi
import copy as _copy
import errno as _errno
import fractions
import itertools as _it
import math as _math
import numbers
import os as _os
import sys as _sys
import types
from fractions import Fraction

import numpy as np

from pyvc import terms as tm
from pyvc import solve
from pyvc import world
from pyvc.engine import (ENG, Sym, Unsupported, PathEnd, Truncation, as_bool_term, mkbool, term,
                         frac, is_number, num0, safe_div, modulo, sym_sqrt, sym_arccos)
from pyvc.npshim import NP, exact, clip1, isclose1, has_sym
from pyvc.seq import (PList, SymArr, SymRange, SymIter, Store, FnSeq, ConstSeq, ListSeq, ConcatSeq,
                      StoreSeq, is_symseq, as_seq, seq_len, seq_get, linnorm, norm_index, deep_copy,
                      I0, I1, Poison)
from pyvc.world import SymText


def symconst(x):
  return not (isinstance(x, Sym) and x.t.op != 'num')


def plain(x):
  """Sym integer constants -> int."""
  if isinstance(x, Sym) and x.t.op == 'num' and x.t.sort == 'I':
    return int(tm.val(x.t))
  return x


# ---------------------------------------------------------------------------
# operators

def h_float(r):
  return exact(float(r)) if r in ('inf', '-inf', 'nan') else Sym(tm.num(frac(float(r))))


def h_list(x):
  return PList(x)


def _key(k):
  if isinstance(k, Sym):
    return k.__index__()
  if isinstance(k, slice):
    return slice(*[None if x is None else _key(x) for x in (k.start, k.stop, k.step)])
  if isinstance(k, tuple):
    return tuple(_key(x) for x in k)
  if isinstance(k, PList):
    if k.sym is not None:
      raise Unsupported('index list of unknown length')
    return [_key(x) for x in k]
  if isinstance(k, np.ndarray) and k.dtype == object:
    if all(isinstance(x, (bool, np.bool_)) for x in k.ravel()):
      return k.astype(bool)
    if all(isinstance(x, Sym) and x.t.sort == 'B' for x in k.ravel()):
      return np.array([bool(x) for x in k.ravel()]).reshape(k.shape)
    raise Unsupported('index array')
  return k


def _symkey(k):
  if isinstance(k, Sym):
    return k.t.op != 'num'
  if isinstance(k, slice):
    return any(_symkey(x) for x in (k.start, k.stop, k.step))
  if isinstance(k, tuple):
    return any(_symkey(x) for x in k)
  return False


def h_get(o, k):
  if isinstance(o, np.ndarray):
    if _symkey(k):
      if isinstance(k, (Sym, slice)):
        return SymArr(Store(ListSeq(list(o))), None if o.ndim == 1 else o.shape[1])[k] \
            if o.ndim <= 2 else _uns('symbolic index')
      if isinstance(k, tuple) and isinstance(k[0], (Sym, slice)) and o.ndim == 2:
        return h_get(h_get(o, k[0]), k[1:] if not isinstance(k[0], slice) else (slice(None),) + k[1:])
      raise Unsupported('symbolic index')
    return o[_key(k)]
  if isinstance(o, (tuple, str)) and isinstance(k, (Sym, slice)):
    if isinstance(k, Sym) and k.t.op != 'num' and isinstance(o, tuple):
      return PList(o)[k]
    return o[_key(k)]
  if isinstance(o, range) and isinstance(k, Sym):
    return PList(o)[k]
  return o[k]


def _uns(m):
  raise Unsupported(m)


def _elem(v):
  """Value as stored in a float array."""
  if isinstance(v, Sym):
    return Sym(tm.real(num0(v.t))) if v.t.sort != 'R' else v
  if isinstance(v, (bool, np.bool_, int, np.integer)):
    return Sym(tm.num(int(v)))
  if isinstance(v, (float, np.floating)):
    return exact(v)
  if isinstance(v, str):
    raise ValueError('could not convert string to float')
  if v is None:
    raise TypeError('float() argument must be a string or a real number')
  return v


def h_set(o, k, v):
  if isinstance(o, np.ndarray):
    if _symkey(k):
      if isinstance(k, Sym) and o.ndim == 1:
        t = norm_index(k, tm.num(len(o), 'I'))
        for j in range(len(o)):
          if ENG.decide(tm.eq(t, tm.num(j, 'I'))):
            return h_set(o, j, v)
        raise IndexError('index out of range')
      raise Unsupported('symbolic index')
    if o.dtype == object:
      if isinstance(v, np.ndarray):
        if v.dtype != object:
          w = np.empty(v.shape, dtype=object)
          for i in np.ndindex(v.shape):
            w[i] = _elem(v[i])
          v = w
      elif isinstance(v, (list, tuple)):
        if is_symseq(v):
          raise Unsupported('assigning a list of unknown length')
        v = RT.np.array(v, dtype=float)
      elif isinstance(v, SymArr):
        raise Unsupported('assigning an array of unknown length')
      elif isinstance(v, (Sym, bool, np.bool_, int, np.integer, float, np.floating, str)) or v is None:
        v = _elem(v)
      else:
        raise TypeError('float() argument must be a real number')
    else:
      if isinstance(v, Sym) and v.t.op == 'num':
        v = tm.val(v.t)
        v = int(v) if o.dtype.kind in 'iu' else (float(v) if o.dtype.kind == 'f' else bool(v))
      elif isinstance(v, np.ndarray) and v.dtype == object:
        raise Truncation('real values are stored into an integer array')
      elif isinstance(v, Sym):
        if o.dtype.kind == 'b':
          v = bool(v)
        else:
          raise Truncation('a real value is stored into an integer array')
    o[_key(k)] = v
    return
  o[k] = v


def h_div(a, b):
  if is_number(a) and is_number(b):
    if isinstance(a, (float, np.floating)) and not _math.isfinite(a) or \
        isinstance(b, (float, np.floating)) and not _math.isfinite(b):
      return float(a) / float(b)
    ta, tb = num0(term(a)), num0(term(b))
    if tm.is_num(tb) and tm.val(tb) == 0 and not isinstance(b, np.generic):
      if isinstance(b, int) and isinstance(a, int):
        raise ZeroDivisionError('division by zero')
    return Sym(safe_div(tm.real(ta), tm.real(tb)))
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    if is_symseq(a) or is_symseq(b):
      return a / b
    if isinstance(b, (list, PList)):
      b = RT.np.array(b)
    if isinstance(a, (list, PList)):
      a = RT.np.array(a)
    if not isinstance(a, np.ndarray) and not is_number(a) or not isinstance(b, np.ndarray) and not is_number(b):
      return a / b
    x, y = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    r = np.empty(x.shape, dtype=object)
    for i in np.ndindex(x.shape):
      r[i] = h_div(_elem(x[i]), _elem(y[i]))
    return r
  return a / b


def h_idiv(a, b):
  if isinstance(a, np.ndarray):
    if a.dtype != object:
      raise TypeError('ufunc divide output casting')
    a[...] = h_div(a, b)
    return a
  return h_div(a, b)


def h_mod(a, b):
  if isinstance(a, str):
    return a % _strargs(b)
  if is_number(a) and is_number(b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
      if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
        return a % b
      return exact(a) % exact(b)
    if not isinstance(a, Sym):
      a = Sym(term(a))
    return a % exact(b)
  return a % b


def _strargs(b):
  if isinstance(b, tuple):
    return tuple(_strargs(x) for x in b)
  if isinstance(b, Sym):
    return _Fmt(b)
  return b


class _Fmt(float):
  """A symbolic number inside a formatted message."""

  def __new__(cls, s):
    return float.__new__(cls, float(tm.val(s.t)) if s.t.op == 'num' else 0.0)


def h_mul(a, b):
  if isinstance(a, PList) or isinstance(b, PList):
    if isinstance(b, PList) and not isinstance(a, np.ndarray):
      a, b = b, a
    if isinstance(b, np.ndarray):
      return RT.np.array(a) * b
    if isinstance(b, (Sym, int, np.integer)):
      if isinstance(b, Sym) and b.t.sort != 'I':
        raise TypeError("can't multiply sequence by non-int of type 'float'")
      return a * plain(b)
    return list.__mul__(a, b)
  return a * b


def h_imul(a, b):
  if isinstance(a, np.ndarray):
    if a.dtype != object:
      if isinstance(b, (int, np.integer)) or isinstance(b, np.ndarray) and b.dtype.kind in 'iub':
        a *= b
        return a
      raise TypeError('Cannot cast ufunc multiply output from float64 to int64')
    a[...] = a * b
    return a
  if isinstance(a, SymArr):
    a *= b
    return a
  if hasattr(type(a), '__imul__') and not isinstance(a, (PList,)):
    a *= b
    return a
  return h_mul(a, b)


def h_in(x, c):
  if isinstance(c, SymSet):
    return c.contains(x)
  if isinstance(c, (list, tuple, set, frozenset)):
    for e in c:
      if e is x:
        return True
      r = e == x
      if isinstance(r, np.ndarray):
        raise ValueError('truth value of an array is ambiguous')
      if r:
        return True
    return False
  return x in c


# ---------------------------------------------------------------------------
# builtins

class SymSet(object):
  """Set of the integers 0..n-1 (or a copy of it)."""

  def __init__(self, n, lo=I0):
    self.n = n
    self.lo = lo

  def slen(self):
    return Sym(linnorm(tm.sub(self.n, self.lo)))

  def contains(self, x):
    t = term(x)
    return ENG.decide(tm.and_(tm.le(self.lo, t), tm.lt(t, self.n)))

  def __str__(self):
    return '<set>'


def b_len(x):
  if isinstance(x, (PList, SymArr, SymSet)):
    n = x.slen()
    return plain(n)
  if isinstance(x, SymRange):
    return plain(Sym(x.length))
  return len(x)


def b_range(*a):
  a = [plain(x) for x in a]
  if any(isinstance(x, Sym) for x in a):
    if len(a) == 3:
      if a[2] != 1:
        raise Unsupported('range with a step')
      a = a[:2]
    for x in a:
      if isinstance(x, Sym) and x.t.sort != 'I':
        raise TypeError("'float' object cannot be interpreted as an integer")
    lo, hi = (0, a[0]) if len(a) == 1 else a
    return SymRange(term(lo), term(hi))
  for x in a:
    if isinstance(x, Sym) or isinstance(x, float):
      raise TypeError("'float' object cannot be interpreted as an integer")
  return range(*a)


def b_isinstance(x, t):
  ts = t if isinstance(t, tuple) else (t,)
  flat = []
  for u in ts:
    flat.extend(u if isinstance(u, tuple) else (u,))
  if isinstance(x, Sym):
    s = x.t.sort
    for u in flat:
      if u is b_float_t or u is float or u is np.float64 or u is np.floating:
        if s == 'R':
          return True
      elif u is int or u is b_int_t:
        if s in ('I', 'B'):
          return True
      elif u is bool:
        if s == 'B':
          return True
      elif u in (numbers.Number, numbers.Real, object):
        return True
      elif u is numbers.Integral:
        if s in ('I', 'B'):
          return True
    return False
  for u in flat:
    if u is b_float_t:
      u = float
    elif u is b_int_t:
      u = int
    elif u is b_list:
      u = list
    elif u is np.ndarray and isinstance(x, SymArr):
      return True
    if isinstance(u, type) and isinstance(x, u):
      return True
  return False


class _FloatMeta(type):
  def __instancecheck__(cls, x):
    return isinstance(x, float) or isinstance(x, Sym) and x.t.sort == 'R'

  def __call__(cls, x=0.0):
    if isinstance(x, np.ndarray):
      if x.size != 1:
        raise TypeError('only length-1 arrays can be converted to Python scalars')
      x = x.reshape(-1)[0]
    if isinstance(x, Sym):
      return Sym(tm.real(num0(x.t)))
    if isinstance(x, SymText):
      return x.number()
    if isinstance(x, world.Opaque):
      raise Unsupported('number of an arbitrary value')
    if isinstance(x, (int, np.integer)):
      return Sym(tm.num(int(x)))
    return exact(float(x))


class b_float_t(metaclass=_FloatMeta):
  pass


class _IntMeta(type):
  def __instancecheck__(cls, x):
    return isinstance(x, int) or isinstance(x, Sym) and x.t.sort == 'I'

  def __call__(cls, x=0, *a):
    if isinstance(x, Sym):
      if x.t.op == 'num':
        return int(tm.val(x.t))
      if x.t.sort == 'I':
        return x
      if x.t.sort == 'B':
        return Sym(num0(x.t))
      if ENG.decide(tm.le(tm.ZERO, x.t)):
        return Sym(tm.toint(x.t))
      return Sym(tm.neg(tm.toint(tm.neg(x.t))))
    return int(x, *a)


class b_int_t(metaclass=_IntMeta):
  pass


b_float_t.__name__ = 'float'
b_int_t.__name__ = 'int'


def b_list(x=()):
  if is_symseq(x):
    if isinstance(x, PList):
      return x[:] if False else _shallow(x)
    return PList.of(as_seq(x))
  if isinstance(x, SymSet):
    return PList.of(FnSeq(x.slen().t, lambda i: Sym(linnorm(tm.add(x.lo, i)))))
  return PList(x)


def _shallow(x):
  """list(x) / x[:]: new list, same elements."""
  return PList.of(x.alias_seq())


def b_tuple(x=()):
  if is_symseq(x):
    raise Unsupported('tuple of unknown length')
  return tuple(x)


def b_set(x=()):
  if isinstance(x, SymRange):
    return SymSet(linnorm(tm.add(x.start, x.length)), x.start)
  if is_symseq(x):
    raise Unsupported('set of unknown size')
  return set(x)


def b_enumerate(x, start=0):
  if is_symseq(x):
    return SymIter(seq_len(x), lambda i: (Sym(linnorm(tm.add(i, term(start)))), seq_get(x, i)))
  return enumerate(x, plain(start))


def b_zip(*xs):
  if any(is_symseq(x) for x in xs):
    n = seq_len(xs[0]) if is_symseq(xs[0]) else None
    ls = [seq_len(x) if is_symseq(x) or hasattr(x, '__len__') else _uns('zip') for x in xs]
    n = ls[0]
    for l in ls[1:]:
      if ENG.decide(tm.lt(l, n)):
        n = l
    return SymIter(n, lambda i: tuple(seq_get(x, i) for x in xs))
  return zip(*xs)


def b_reversed(x):
  if is_symseq(x):
    n = seq_len(x)
    return SymIter(n, lambda i: seq_get(x, linnorm(tm.sub(tm.sub(n, I1), i))))
  return reversed(x)


def b_sum(x, start=0):
  if is_symseq(x):
    r = RT.symsum(x)
    return r if start == 0 else r + start
  s = start
  for v in x:
    s = s + (int(v) if isinstance(v, (bool, np.bool_)) else v)
  return s


def _ext(a, k, better):
  if k.get('key') is not None:
    raise Unsupported('max/min with a key')
  if len(a) == 1:
    if is_symseq(a[0]):
      return RT.extremum(a[0], better is _gt)
    a = list(a[0])
    if not a:
      if 'default' in k:
        return k['default']
      raise ValueError('max() arg is an empty sequence')
  m = a[0]
  for x in a[1:]:
    if isinstance(x, Sym) and isinstance(m, Sym) and x.t.sort == m.t.sort == 'R':
      # a named value instead of two paths
      t = tm.app('max' if better is _gt else 'min', (m.t, x.t), 'R')
      ENG.assume(tm.le(m.t, t) if better is _gt else tm.le(t, m.t))
      ENG.assume(tm.le(x.t, t) if better is _gt else tm.le(t, x.t))
      ENG.assume(tm.or_(tm.eq(t, m.t), tm.eq(t, x.t)))
      m = Sym(t)
    elif better(x, m):
      m = x
  return m


def _gt(x, m):
  return x > m


def _lt(x, m):
  return x < m


def b_max(*a, **k):
  return _ext(a, k, _gt)


def b_min(*a, **k):
  return _ext(a, k, _lt)


def b_sorted(x, key=None, reverse=False):
  if isinstance(x, SymSet):
    if key is not None or reverse:
      raise Unsupported('sorted with a key')
    return b_list(x)
  if is_symseq(x):
    raise Unsupported('sorting a sequence of unknown length')
  xs = list(x)
  if any(isinstance(v, Sym) and v.t.op != 'num' for v in xs):
    raise Unsupported('sorting symbolic values')
  return PList(sorted(xs, key=key, reverse=reverse))


def b_any(x):
  if is_symseq(x):
    return RT.any_(x)
  for v in x:
    if v:
      return True
  return False


def b_all(x):
  if is_symseq(x):
    return RT.all_(x)
  for v in x:
    if not v:
      return False
  return True


def b_abs(x):
  if isinstance(x, np.ndarray) or isinstance(x, SymArr):
    return RT.np.absolute(x)
  return abs(x)


def b_print(*a, **k):
  for x in a:
    if isinstance(x, (Sym, str, int, float)) or x is None:
      continue
    if hasattr(type(x), '__str__') and type(x).__module__.startswith('hand_eye'):
      str(x)


def b_map(f, *xs):
  if any(is_symseq(x) for x in xs):
    raise Unsupported('map over a sequence of unknown length')
  return [f(*t) for t in zip(*xs)]


def b_str(x=''):
  return str(x)


def b_round(x, n=None):
  if isinstance(x, Sym) and x.t.op != 'num':
    raise Unsupported('round')
  if isinstance(x, Sym):
    return exact(round(float(x), n)) if n is not None else round(float(x))
  return round(x, n) if n is not None else round(x)


def b_pow(a, b):
  return a ** b


def b_id(x):
  return id(x)


def b_hasattr(o, n):
  try:
    getattr(o, n)
  except AttributeError:
    return False
  return True




def b_open(name, mode='r', *a, **k):
  return RT.the_world().open(name, mode, *a, **k)


def make_builtins():
  b = dict(_bi.__dict__)
  b.update(len=b_len, range=b_range, isinstance=b_isinstance, float=b_float_t, int=b_int_t,
           list=b_list, tuple=b_tuple, set=b_set, enumerate=b_enumerate, zip=b_zip,
           reversed=b_reversed, sum=b_sum, max=b_max, min=b_min, sorted=b_sorted, any=b_any,
           all=b_all, abs=b_abs, print=b_print, map=b_map, round=b_round, open=b_open,
           pow=b_pow, xrange=b_range)
  for n in ('eval', 'exec', 'compile', 'input', 'breakpoint'):
    b.pop(n, None)
  return b


# ---------------------------------------------------------------------------
# library shims

def _dummy_attr(self, n):
  if n.startswith('__'):
    raise AttributeError(n)
  return Dummy(n)


class Dummy(types.ModuleType):
  """Plotting and middleware modules: calls have no effect on the results."""

  def __init__(self, name='dummy'):
    types.ModuleType.__init__(self, name)

  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)
    if n[:1].isupper() and n not in ('Pool',):
      c = type(n, (object,), {'__init__': lambda self, *a, **k: None,
                              '__getattr__': _dummy_attr})
      setattr(self, n, c)
      return c
    return Dummy(n)

  def __call__(self, *a, **k):
    return Dummy('r')

  def __iter__(self):
    raise Unsupported('value of a plotting call')

  def __bool__(self):
    raise Unsupported('value of a plotting call')

  def __getitem__(self, k):
    return Dummy('i')

  def __add__(self, o):
    raise Unsupported('value of a plotting call')


def math_shim():
  m = types.ModuleType('math')
  m.pi = Sym(tm.PI)
  m.inf = float('inf')
  m.nan = float('nan')
  m.sqrt = lambda x: sym_sqrt(x) if is_number(x) else _uns('sqrt')
  m.sin = lambda x: Sym(tm.sin(tm.real(num0(term(x)))))
  m.cos = lambda x: Sym(tm.cos(tm.real(num0(term(x)))))
  m.acos = lambda x: sym_arccos(x)
  m.fabs = lambda x: abs(exact(x))
  m.floor = lambda x: Sym(tm.toint(term(x))) if not symconst(x) else _math.floor(tm.val(term(x)))
  m.ceil = lambda x: Sym(tm.neg(tm.toint(tm.neg(term(x))))) if not symconst(x) else _math.ceil(tm.val(term(x)))
  m.degrees = lambda x: RT.np.degrees(x)
  m.radians = lambda x: RT.np.radians(x)
  m.pow = lambda x, y: x ** y
  m.isnan = lambda x: False if isinstance(x, Sym) else _math.isnan(x)
  m.isinf = lambda x: False if isinstance(x, Sym) else _math.isinf(x)

  def fsum(x):
    return b_sum(x)
  m.fsum = fsum

  def factorial(n):
    if symconst(n):
      return _math.factorial(int(n))
    return Sym(tm.app('factorial', (term(n),), 'I'))
  m.factorial = factorial

  def logs(x, *b):
    if b:
      raise Unsupported('logarithm to a given base')
    if symconst(x):
      return exact(_math.log(float(x)))
    x = tm.real(term(x))
    t = tm.app('log', (x,))
    ENG.assume(tm.and_(tm.implies(tm.lt(tm.ONE, x), tm.lt(tm.ZERO, t)), tm.implies(tm.lt(x, tm.ONE), tm.lt(t, tm.ZERO))))
    return Sym(t)
  m.log = logs
  return m


def copy_shim():
  m = types.ModuleType('copy')

  def shallow(x):
    if isinstance(x, PList):
      return x[:] if x.sym is None else _shallow(x)
    if isinstance(x, SymArr):
      return x.copy()
    if isinstance(x, SymSet):
      return SymSet(x.n, x.lo)
    return _copy.copy(x)
  m.copy = shallow

  def deep(x, memo=None):
    return deep_copy(x)
  m.deepcopy = deep
  return m


def itertools_shim():
  m = types.ModuleType('itertools')

  def compress(data, sel):
    if is_symseq(data) or is_symseq(sel):
      n, k = seq_len(data), seq_len(sel)
      return RT.loops.compress(data, sel)
    return [d for d, s in zip(data, sel) if s]
  m.compress = compress

  def combinations(it, r):
    if isinstance(it, SymSet):
      it = b_list(it)
    if is_symseq(it) or not symconst(r):
      return RT.combinations(it, r)
    return _it.combinations(list(it), int(r))
  m.combinations = combinations

  def product(*a, **k):
    return _it.product(*[list(x) for x in a], **k)
  m.product = product
  m.chain = _it.chain
  m.count = _it.count
  m.permutations = lambda x, r=None: _it.permutations(list(x), r)
  m.repeat = _it.repeat
  m.islice = lambda x, *a: _it.islice(list(x), *[plain(v) for v in a])
  m.cycle = lambda x: _uns('cycle')
  return m


def bisect_shim():
  m = types.ModuleType('bisect')

  def left(a, x, *r):
    """insertion point: everything before is < x, everything from it on is >= x
    (requires a sorted sequence)."""
    return RT.bisect(a, x, True)

  def right(a, x, *r):
    return RT.bisect(a, x, False)
  m.bisect_left = left
  m.bisect_right = right
  m.bisect = right
  return m


def random_shim():
  m = types.ModuleType('random')

  def uniform(a, b):
    r = ENG.fresh('uniform')
    a, b = term(exact(a)), term(exact(b))
    ENG.assume(tm.or_(tm.and_(tm.le(a, r.t), tm.le(r.t, b)), tm.and_(tm.le(b, r.t), tm.le(r.t, a))))
    return r
  m.uniform = uniform
  m.random = lambda: uniform(0.0, 1.0)

  def randint(a, b):
    r = ENG.fresh('randint', 'I')
    ENG.assume(tm.and_(tm.le(term(a), r.t), tm.le(r.t, term(b))))
    return r
  m.randint = randint

  def sample(pop, k):
    """k distinct members of the population"""
    ENG.assumed.add('random.sample: k distinct members of the population')
    return RT.sample(pop, k)
  m.sample = sample
  m.seed = lambda *a: None
  m.shuffle = lambda *a: _uns('shuffle')
  m.choice = lambda *a: _uns('choice')
  return m


def os_shim():
  m = types.ModuleType('os')
  m.path = types.ModuleType('os.path')
  for n in ('join', 'basename', 'splitext', 'dirname', 'isabs', 'normpath', 'split'):
    setattr(m.path, n, getattr(_os.path, n))
  m.sep = '/'
  m.environ = {}
  m.linesep = '\n'

  def nofile(*a, **k):
    raise Unsupported('operating system call')
  for n in ('makedirs', 'mkdir', 'remove', 'rename', 'listdir', 'system', 'unlink', 'getcwd', 'rmdir'):
    setattr(m, n, nofile)
  for n in ('exists', 'isdir', 'isfile', 'getmtime', 'abspath', 'realpath'):
    setattr(m.path, n, nofile)
  return m


def sys_shim():
  m = types.ModuleType('sys')
  m.argv = ['x']
  m.stdout = m.stderr = Dummy('stream')
  m.version_info = _sys.version_info
  m.maxsize = _sys.maxsize
  m.exc_info = _sys.exc_info

  def ex(c=None):
    raise SystemExit(c)
  m.exit = ex
  m.float_info = _sys.float_info
  m.path = []
  return m


def timer_shim(name):
  m = types.ModuleType(name)

  def now():
    r = ENG.fresh('clock')
    return r
  m.default_timer = now
  m.time = now
  m.sleep = lambda *a: None
  return m


# ---------------------------------------------------------------------------

class Runtime(object):

  def __init__(self):
    self.np = None
    self.loops = None
    self.world = None
    self.hooks = {}

  def the_world(self):
    if self.world is None:
      raise Unsupported('file access')
    return self.world

  # -- used by the numpy shim ---------------------------------------------------
  def symbolic(self, x):
    return is_symseq(x)

  def is_dim(self, s):
    return isinstance(s, (int, np.integer, Sym))

  def div(self, a, b):
    return h_div(a, b)

  def sym_full(self, shape, v):
    n = term(shape[0])
    if n.sort != 'I':
      raise TypeError("'float' object cannot be interpreted as an integer")
    if ENG.decide(tm.lt(n, I0)):
      raise ValueError('negative dimensions are not allowed')
    if len(shape) == 1:
      return SymArr.of(ConstSeq(n, v))
    if len(shape) == 2:
      c = plain(shape[1])
      if isinstance(c, Sym):
        raise Unsupported('array with two unknown dimensions')

      def row(i):
        r = np.empty(c, dtype=object)
        r.fill(v)
        return r
      s = FnSeq(n, row)
      s.closed = True
      return SymArr.of(s, c)
    raise Unsupported('array of rank three')

  def as_array(self, x, copy=True):
    if isinstance(x, SymArr):
      return x.copy() if copy else x
    if isinstance(x, PList):
      f = x.sym.freeze()
      # element kind from a generic element
      kind = self.elem_kind(f)
      if kind is None:
        return SymArr.of(FnSeq(f.length, lambda i: _elem(f.elem(i))))
      return SymArr.of(FnSeq(f.length, lambda i: self._row(f.elem(i), kind)), kind)
    raise Unsupported('array of this iterable')

  def _row(self, v, n):
    v = self.np.array(v)
    if v.shape != (n,):
      raise ValueError('inhomogeneous shape')
    return v

  def elem_kind(self, seq):
    """None for scalars, else the row length."""
    kinds = set()

    def go():
      j = ENG.fresh('e', 'I')
      ENG.assume(tm.le(I0, j.t))
      ENG.assume(tm.lt(j.t, seq.length))
      v = seq.elem(j.t)
      if is_symseq(v):
        raise Unsupported('array with two unknown dimensions')
      if isinstance(v, (list, tuple, np.ndarray)):
        a = np.ndim(v) if isinstance(v, np.ndarray) else 1
        if a != 1:
          raise Unsupported('array of rank three')
        kinds.add(len(v))
      elif isinstance(v, SymText):
        kinds.add(None)
      else:
        kinds.add(None)
    mode = ENG.mode
    ENG.mode = 'silent'
    store = getattr(seq, 'store', None)
    st = store and store.state()
    try:
      ENG.explore(go)
    finally:
      ENG.mode = mode
      if store:
        store.restore(st)
    if not kinds:
      return None        # provably empty
    if len(kinds) != 1:
      raise Unsupported('array of rows of different lengths')
    return kinds.pop()

  def arange(self, *a):
    if len(a) == 1:
      a = (0, a[0])
    if len(a) == 3:
      raise Unsupported('arange with a step')
    lo, hi = term(a[0]), term(a[1])
    if lo.sort != 'I' or hi.sort != 'I':
      raise Unsupported('arange of reals')
    n = linnorm(tm.sub(hi, lo))
    if ENG.decide(tm.lt(n, I0)):
      n = I0
    return SymArr.of(FnSeq(n, lambda i: Sym(linnorm(tm.add(lo, i)))))

  def linspace(self, start, stop, num):
    n = term(num)
    if n.sort != 'I':
      raise TypeError("'float' object cannot be interpreted as an integer")
    if ENG.decide(tm.lt(n, I0)):
      raise ValueError('Number of samples, %s, must be non-negative.')
    a, b = Sym(tm.real(term(exact(start)))), Sym(tm.real(term(exact(stop))))

    def fn(i):
      if ENG.decide(tm.eq(n, I1)):
        return a
      k = Sym(tm.real(i))
      d = Sym(tm.sub(tm.real(n), tm.ONE))
      return a + (b - a) * k / d
    if tm.is_num(n):
      return self.np.array([fn(tm.num(i, 'I')) for i in range(int(tm.val(n)))])
    return SymArr.of(FnSeq(n, fn))

  def map1(self, f, x):
    if isinstance(x, PList):
      x = self.as_array(x)
    s = x.seq()
    if x.ndim == 1:
      return SymArr.of(FnSeq(s.length, lambda i: f(s.elem(i))))
    return SymArr.of(FnSeq(s.length, lambda i: self.np._map(f, s.elem(i))), x.ncols)

  def rows(self, f, x):
    """One number for every row."""
    q = x.copy().seq()
    return SymArr.of(FnSeq(q.length, lambda i: f(q.elem(i))))

  def symdot(self, a, b):
    raise Unsupported('product of arrays of unknown length')

  def elem_term(self, x, i):
    v = seq_get(x, i)
    return num0(term(v)) if not isinstance(v, np.ndarray) else _uns('sum of rows')

  def symsum(self, x):
    return self.loops.sum_of(x)

  def mean(self, x):
    s = self.symsum(x)
    n = seq_len(x)
    return Sym(safe_div(tm.real(s.t if isinstance(s, Sym) else term(s)), tm.real(n)))

  def median(self, x):
    ENG.assumed.add('numpy.median: a value determined by the sequence, between its extremes')
    return self.opaque_stat('median', x)

  def percentile(self, x, q):
    ENG.assumed.add('numpy.percentile: a value determined by the sequence')
    if not is_symseq(x):
      return self.opaque_stat('percentile', x, (tm.real(term(exact(q))),))
    return Sym(tm.app('percentile#' + self.loops.content(x), (tm.real(term(exact(q))),), 'R'))

  def opaque_stat(self, name, x, extra=()):
    """Named statistic: one symbol per (sequence object identity)."""
    if isinstance(x, np.ndarray):
      return Sym(tm.app(name, tuple(tm.real(term(v)) for v in x.ravel()) + tuple(extra)))
    return self.loops.stat(name, x, extra)

  def diff(self, x):
    if x.ndim != 1:
      raise Unsupported('diff of rows')
    s = x.seq()
    n = linnorm(tm.sub(s.length, I1))
    if ENG.decide(tm.lt(n, I0)):
      n = I0
    q = FnSeq(n, lambda i: s.elem(linnorm(tm.add(i, I1))) - s.elem(i))
    q.total = lambda: s.elem(n) - s.elem(I0)
    return SymArr.of(q)

  def interpolate(self, x, xp, fp):
    ENG.assumed.add('numpy.interp: piecewise linear interpolation, constant outside (sorted abscissae)')
    return self.loops.interpolate(x, xp, fp)

  def extremum(self, x, mx):
    if not is_symseq(x):
      a = self.np.asarray(x).ravel()
      m = a[0]
      for v in a[1:]:
        if (v > m if mx else v < m):
          m = v
      return m
    return self.loops.extremum(x, mx)

  def argmax(self, x, mx):
    return self.loops.argmax(x, mx)

  def all_(self, x):
    return self.loops.quant(x, True)

  def any_(self, x):
    return self.loops.quant(x, False)

  def allclose(self, a, b, rtol, atol):
    if is_symseq(a) and isinstance(a, PList):
      a = self.as_array(a)
    if is_symseq(b) and isinstance(b, PList):
      b = self.as_array(b)
    return self.loops.allclose(a, b, rtol, atol)

  def vstack(self, xs):
    if is_symseq(xs):
      return self.as_array(xs)
    r = None
    for x in xs:
      r = x if r is None else self._vcat(r, x)
    return r

  def _arr(self, x):
    if isinstance(x, SymArr):
      return x
    if is_symseq(x):
      return self.as_array(x)
    x = self.np.asarray(x)
    return x

  def _vcat(self, a, b):
    a, b = self._arr(a), self._arr(b)
    if isinstance(a, SymArr) and isinstance(b, np.ndarray):
      rows = [r if isinstance(r, Sym) or np.ndim(r) == 0 else r.copy() for r in b]
      if a.ndim == 2 and b.ndim == 1:
        raise ValueError('all the input array dimensions must match')
      if a.sel is None and a.start is I0 and a._length is None:
        s = Store(a.store.base, a.store.tail)
        s.overlay = [list(o) for o in a.store.overlay]
        s.tail.extend(rows)
        return SymArr(s, a.cols)
    ca = a.ncols if isinstance(a, SymArr) else (None if a.ndim == 1 else a.shape[1])
    sa = a.seq() if isinstance(a, SymArr) else ListSeq([r for r in a])
    sb = b.seq() if isinstance(b, SymArr) else ListSeq([r for r in b])
    return SymArr.of(ConcatSeq(sa, sb), ca)

  def savetxt(self, f, a, fmt, delimiter, kw):
    world.savetxt(self.the_world(), f, a, fmt, delimiter, kw)

  def loadtxt(self, f, **kw):
    return world.loadtxt(self.the_world(), f, **kw)

  def svd(self, m):
    """Singular values in descending order, right singular vectors; the left ones are not described."""
    ENG.assumed.add('numpy.linalg.svd: exact decomposition, singular values in descending order')
    rows, cols = m.shape
    if not isinstance(cols, int):
      raise Unsupported('singular value decomposition')
    if isinstance(rows, int):
      k = min(rows, cols)
    elif ENG.decide(tm.le(tm.num(cols, 'I'), term(rows))):
      k = cols
    else:
      k = None
    name = self.loops.content(m) if is_symseq(m) and not ENG.loop_ctx else ENG.fresh_name('svd')
    known = ENG.reg.setdefault('svd', [])
    for k0, sv, v in known:
      if k0 == name:
        return Poison('left singular vectors'), sv.copy(), v.copy()
    if k is None:
      nm = ENG.fresh_name('s')
      sv = SymArr.of(FnSeq(term(rows), lambda i: Sym(tm.app(nm, (i,), 'R'))))
    else:
      sv = np.empty(k, dtype=object)
      prev = None
      for i in range(k):
        sv[i] = ENG.fresh('s')
        if prev is not None:
          ENG.assume(tm.le(sv[i].t, prev.t))
        prev = sv[i]
      ENG.assume(tm.le(tm.ZERO, prev.t))
    v = np.empty((cols, cols), dtype=object)
    for i in range(cols):
      for j in range(cols):
        v[i, j] = ENG.fresh('V')
    known.append((name, sv.copy(), v.copy()))
    return Poison('left singular vectors'), sv, v

  def bisect(self, a, x, left):
    ENG.assumed.add('bisect: insertion point in a sorted sequence')
    if not is_number(x):
      raise Unsupported('bisect')
    return plain(Sym(self.loops.bracket(a, x, left)))

  def sample(self, pop, k):
    h = self.hooks.get('sample')
    n, kk = seq_len(pop), term(plain(k))
    if ENG.decide(tm.or_(tm.lt(n, kk), tm.lt(kk, I0))):
      raise ValueError('Sample larger than population or is negative')
    if not tm.is_num(kk):
      nm = ENG.fresh_name('sample')
      ctx = tuple(ENG.loop_ctx)

      def el(i):
        t = tm.app(nm, ctx + (i,), 'I')
        ENG.assume(tm.and_(tm.le(I0, t), tm.lt(t, n)))
        return seq_get(pop, t)
      return PList.of(FnSeq(kk, el))
    idx = [ENG.fresh('sample', 'I').t for _ in range(int(tm.val(kk)))]
    for a, t in enumerate(idx):
      ENG.assume(tm.and_(tm.le(I0, t), tm.lt(t, n)))
      for u in idx[:a]:
        ENG.assume(tm.not_(tm.eq(t, u)))
    return PList([seq_get(pop, t) for t in idx])

  def combinations(self, it, r):
    ENG.assumed.add('itertools.combinations: every combination of positions once')
    n, k = seq_len(it), term(plain(r))
    nm = ENG.fresh_name('comb')
    m = tm.app(nm + '.n', (), 'I')
    ENG.assume(tm.le(I0, m))

    def choice(i):
      def el(j):
        t = tm.app(nm, (i, j), 'I')
        ENG.assume(tm.and_(tm.le(I0, t), tm.lt(t, n)))
        return seq_get(it, t)
      return PList.of(FnSeq(k, el))
    out = PList.of(FnSeq(m, choice))
    ENG.reg.setdefault('combinations', []).append(out)
    return out


RT = Runtime()


def build():
  """Creates the loader with all shims."""
  from pyvc.interp import Interp
  from pyvc.loader import Loader
  from pyvc import loops
  it = Interp()
  RT.np = NP(RT)
  ms = math_shim()
  RT.np.math = ms
  RT.loops = loops.Loops(it, RT)
  it.loops = RT.loops
  it.hooks = {
      '__pyvc_F__': h_float, '__pyvc_L__': h_list, '__pyvc_get__': h_get, '__pyvc_set__': h_set,
      '__pyvc_div__': h_div, '__pyvc_idiv__': h_idiv, '__pyvc_mod__': h_mod,
      '__pyvc_mul__': h_mul, '__pyvc_imul__': h_imul, '__pyvc_in__': h_in,
      '__pyvc_set_of__': b_set,
  }
  sig = types.ModuleType('scipy.signal')

  def correlate(a, b, mode='full', **k):
    return RT.loops.correlate(a, b, mode)
  sig.correlate = correlate
  sc = types.ModuleType('scipy')
  sc.signal = sig
  shims = {
      'numpy': RT.np, 'numpy.testing': RT.np.testing, 'numpy.linalg': RT.np.linalg,
      'math': ms, 'copy': copy_shim(), 'itertools': itertools_shim(), 'bisect': bisect_shim(),
      'random': random_shim(), 'os': os_shim(), 'sys': sys_shim(), 'timeit': timer_shim('timeit'),
      'time': timer_shim('time'), 'scipy': sc, 'scipy.signal': sig, 'numbers': numbers,
      'errno': _errno, '__future__': __import__('__future__'),
  }
  shims['os.path'] = shims['os'].path
  world.Dirs(RT.the_world).install(shims['os'], _os)
  shims['subprocess'] = world.subprocess_shim(RT.the_world)
  shims['shlex'], shims['json'], shims['csv'] = world.shlex_shim(), world.json_shim(), world.csv_shim()
  import functools
  import warnings
  shims['functools'] = functools
  shims['warnings'] = Dummy('warnings')
  shims['collections'] = __import__('collections')
  shims['operator'] = __import__('operator')
  for n in ('tf', 'matplotlib', 'matplotlib.pyplot', 'matplotlib.patches', 'matplotlib.font_manager',
            'mpl_toolkits', 'mpl_toolkits.mplot3d', 'mpl_toolkits.axes_grid1', 'rospy', 'rosbag',
            'yaml', 'logging', 'argparse', 'multiprocessing',
            'matplotlib.pylab', 'tf.transformations'):
    shims[n] = Dummy(n)
  ld = Loader(it, shims, make_builtins())
  return ld, it

ENG.is_list = lambda x: isinstance(x, (list, PList))
ENG.as_array = lambda x: RT.np.array(x)
