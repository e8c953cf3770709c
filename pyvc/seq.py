"""Sequences and arrays of unknown length, and loop summarisation (rule R1).

A loop over a sequence of unknown length is executed once for a generic index
K.  Everything the body changes is found by comparing the heap before and after
(discovery), replaced by unknown values of iteration K (havoc), and described by
a summary: closed forms for numeric variables, one element per iteration for
appended or indexed containers, a ghost selection function for conditional
appends.  The summary is inductive by construction: the value at K+1 is what the
body computes from the summary's value at K, for every path of the body.
Elements of a summarised container are obtained by instantiating the decision
tree of the generic iteration at the index asked for.
"""
import ast
import copy as _copy
from fractions import Fraction

import numpy as np

from pyvc import terms as tm
from pyvc import solve
from pyvc.engine import (ENG, Sym, Unsupported, PathEnd, as_bool_term, mkbool, term, num0,
                         is_number)

I0 = tm.num(0, 'I')
I1 = tm.num(1, 'I')


def iterm(x):
  t = term(x)
  if t.sort == 'R':
    if tm.is_num(t) and tm.val(t).denominator == 1:
      raise TypeError('indices must be integers')
    raise TypeError('indices must be integers')
  return t


def linnorm(t):
  """Normalises integer terms (linear combinations) so that equal indices are
  syntactically equal."""
  if t.op in ('num', 'var', 'app'):
    return t
  coeffs = {}
  const = [Fraction(0)]

  def go(t, k):
    if t.op == 'num':
      const[0] += k * tm.val(t)
    elif t.op == 'add':
      go(t.args[0], k)
      go(t.args[1], k)
    elif t.op == 'neg':
      go(t.args[0], -k)
    elif t.op == 'mul' and tm.is_num(t.args[0]):
      go(t.args[1], k * tm.val(t.args[0]))
    else:
      coeffs[t] = coeffs.get(t, Fraction(0)) + k
  go(t, Fraction(1))
  r = None
  for a in sorted(coeffs, key=lambda x: x.id):
    c = coeffs[a]
    if c == 0:
      continue
    x = tm.mul(tm.num(c, 'I'), a)
    r = x if r is None else tm.add(r, x)
  if r is None:
    return tm.num(const[0], 'I')
  return tm.add(r, tm.num(const[0], 'I')) if const[0] else r


def lin_parts(t):
  coeffs = {}
  const = [Fraction(0)]

  def go(t, k):
    if t.op == 'num':
      const[0] += k * tm.val(t)
    elif t.op == 'add':
      go(t.args[0], k)
      go(t.args[1], k)
    elif t.op == 'neg':
      go(t.args[0], -k)
    elif t.op == 'mul' and tm.is_num(t.args[0]):
      go(t.args[1], k * tm.val(t.args[0]))
    else:
      coeffs[t] = coeffs.get(t, Fraction(0)) + k
  go(t, Fraction(1))
  return coeffs, const[0]


class Poison(object):
  """A value the summary does not describe; any use is out of reach."""

  def __init__(self, name):
    object.__setattr__(self, '_n', name)

  def _no(self, *a, **k):
    raise Unsupported('value of %s after the loop is not described' % self._n)

  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)
    self._no()
  __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _no
  __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __iter__ = __len__ = __getitem__ = _no
  __neg__ = __abs__ = __float__ = __int__ = __index__ = __call__ = _no

  def __eq__(self, o):
    if o is self:
      return True
    self._no()

  def __hash__(self):
    return id(self)

  def __format__(self, spec):
    return '<unknown>'

  def __str__(self):
    return '<unknown>'


# ---------------------------------------------------------------------------
# value utilities

def is_obj(v):
  return hasattr(v, '__dict__') and not isinstance(v, (type, Poison)) and not callable(v) and \
      type(v).__module__.split('.')[0] in ('hand_eye_calibration', 'hand_eye_calibration_experiments', 'pyvc_obj')


def map_value(v, f, memo=None):
  """Structure-preserving copy applying f to every Sym."""
  if memo is None:
    memo = {}
  if isinstance(v, Sym):
    return f(v)
  if v is None or isinstance(v, (bool, int, float, str, bytes, np.bool_, np.integer, np.floating, Fraction, type)):
    return v
  k = id(v)
  if k in memo:
    return memo[k][0]
  if isinstance(v, np.ndarray):
    r = np.empty(v.shape, dtype=v.dtype)
    if v.dtype == object:
      for i in np.ndindex(v.shape):
        r[i] = map_value(v[i], f, memo)
    else:
      r[...] = v
  elif isinstance(v, PList):
    r = PList()
    if v.sym is not None:
      r.sym = v.sym.mapped(f, memo)
    else:
      for e in list.__iter__(v):
        list.append(r, map_value(e, f, memo))
  elif isinstance(v, SymArr):
    r = v.mapped(f, memo)
  elif isinstance(v, tuple):
    r = tuple(map_value(e, f, memo) for e in v)
  elif isinstance(v, list):
    r = [map_value(e, f, memo) for e in v]
  elif isinstance(v, dict):
    r = {kk: map_value(e, f, memo) for kk, e in v.items()}
  elif isinstance(v, set):
    r = set(v)
  elif is_obj(v):
    r = v.__class__.__new__(v.__class__)
    memo[k] = (r, v)
    for a, x in v.__dict__.items():
      r.__dict__[a] = map_value(x, f, memo)
    return r
  elif isinstance(v, Poison) or callable(v):
    r = v
  else:
    r = v
  memo[k] = (r, v)
  return r


def subst_value(v, m):
  memo = {}

  def f(s):
    return Sym(tm.subst(s.t, m, memo))
  f.submap = m
  return map_value(v, f)


def deep_copy(v, memo=None):
  f = lambda s: s
  f.submap = {}
  return map_value(v, f, memo)


def same_value(a, b):
  """Structural identity (syntactic)."""
  if a is b:
    return True
  if isinstance(a, Sym) and isinstance(b, Sym):
    return a.t is b.t
  if isinstance(a, Sym) or isinstance(b, Sym):
    x, y = (a, b) if isinstance(a, Sym) else (b, a)
    if is_number(y) and not isinstance(y, Sym):
      try:
        return x.t is term(y)
      except Unsupported:
        return False
    return False
  if type(a) is not type(b):
    return False
  if isinstance(a, np.ndarray):
    return a.shape == b.shape and a.dtype == b.dtype and all(
        same_value(x, y) for x, y in zip(a.ravel(), b.ravel()))
  if isinstance(a, PList):
    if a.sym is not None or b.sym is not None:
      return a.sym is not None and b.sym is not None and a.sym.same(b.sym)
    return list.__len__(a) == list.__len__(b) and all(
        same_value(x, y) for x, y in zip(list.__iter__(a), list.__iter__(b)))
  if isinstance(a, SymArr):
    return a.same(b)
  if isinstance(a, (list, tuple)):
    return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
  if isinstance(a, dict):
    return a.keys() == b.keys() and all(same_value(a[k], b[k]) for k in a)
  if is_obj(a):
    return a.__dict__.keys() == b.__dict__.keys() and all(
        same_value(a.__dict__[k], b.__dict__[k]) for k in a.__dict__)
  try:
    return bool(a == b)
  except Exception:
    return False


def arrays_in(v, out=None, seen=None):
  """numpy arrays and containers reachable from v."""
  if out is None:
    out, seen = [], set()
  if v is None or isinstance(v, (Sym, bool, int, float, str)) or id(v) in seen:
    return out
  seen.add(id(v))
  if isinstance(v, np.ndarray):
    out.append(v)
    if v.dtype == object:
      for e in v.ravel():
        if not isinstance(e, Sym):
          arrays_in(e, out, seen)
  elif isinstance(v, PList):
    out.append(v)
    if v.sym is None:
      for e in list.__iter__(v):
        arrays_in(e, out, seen)
    else:
      for x in v.sym.materialized():
        arrays_in(x, out, seen)
  elif isinstance(v, SymArr):
    out.append(v)
    for x in v.store.materialized():
      arrays_in(x, out, seen)
  elif isinstance(v, (list, tuple, set)):
    for e in v:
      arrays_in(e, out, seen)
  elif isinstance(v, dict):
    for e in v.values():
      arrays_in(e, out, seen)
  elif is_obj(v):
    for e in v.__dict__.values():
      arrays_in(e, out, seen)
  return out


def share_memory(a, b):
  xs, ys = arrays_in(a), arrays_in(b)
  for x in xs:
    for y in ys:
      if x is y:
        return True
      if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and np.may_share_memory(x, y) \
          and np.shares_memory(x, y):
        return True
      if isinstance(x, SymArr) and isinstance(y, SymArr) and x.store is y.store:
        return True
      if isinstance(x, PList) and isinstance(y, PList) and x.sym is not None and x.sym is y.sym:
        return True
  return False


# ---------------------------------------------------------------------------
# functional sequences

class Seq(object):
  """Immutable description: length term and element function."""

  def elem(self, i):
    raise NotImplementedError

  def mapped(self, f, memo):
    """The sequence with f applied to every element (f: copy or substitution)."""
    sub = getattr(f, 'submap', None)
    if sub is None:
      raise Unsupported('mapping a symbolic sequence')
    if not sub:
      return self
    return SubstSeq(self, sub)


class Node(object):
  """Decision tree of a generic execution."""
  __slots__ = ('items', 'dec', 'kids', 'leaf')


def build_trie(leaves, pos=0):
  """leaves: [(events, leaf)] of one exploration."""
  node = Node()
  node.items, node.dec, node.kids, node.leaf = [], None, {}, None
  ev = leaves[0][0]
  while pos < len(ev) and ev[pos][0] != 'dec':
    node.items.append(ev[pos])
    pos += 1
  if pos >= len(ev):
    if len(leaves) != 1:
      raise Unsupported('nondeterministic execution')
    node.leaf = leaves[0][1]
    return node
  node.dec = ev[pos][1]
  for choice in (True, False):
    sub = [l for l in leaves if len(l[0]) > pos and l[0][pos][0] == 'dec' and
           l[0][pos][1] is node.dec and l[0][pos][2] == choice]
    if sub:
      node.kids[choice] = build_trie(sub, pos + 1)
  return node


def walk(node, sub, memo=None):
  """Follows the decision tree at the instance sub; returns the leaf reached."""
  if memo is None:
    memo = {}
  while True:
    for it in node.items:
      t = tm.subst(it[1], sub, memo)
      if it[0] == 'fact' and not it[2]:
        t = tm.not_(t)
      ENG.assume(t)
    if node.dec is None:
      return node.leaf
    r = ENG.decide(tm.subst(node.dec, sub, memo))
    if r not in node.kids:
      raise PathEnd()
    node = node.kids[r]


def silently(fn):
  """Explores fn without reporting obligations."""
  mode = ENG.mode
  ENG.mode = 'silent'
  try:
    return ENG.explore(fn)
  finally:
    ENG.mode = mode


class SubstSeq(Seq):
  """A sequence of a generic iteration, at another iteration."""

  def __init__(self, base, sub):
    self.base = base
    self.sub = dict(sub)
    self.length = linnorm(tm.subst(base.length, self.sub))
    self.j = None

  def elem(self, i):
    if self.j is None:
      self.j = tm.var(ENG.fresh_name('j'), 'I')

      def go():
        ENG.assume(tm.and_(tm.le(I0, self.j), tm.lt(self.j, self.base.length)))
        try:
          return self.base.elem(self.j)
        except Exception:
          raise Unsupported('element of a sequence of an earlier iteration')
      self.trie = build_trie(silently(go))
    sub = _with(self.sub, self.j, i)
    return subst_value(walk(self.trie, sub), sub)

  def mapped(self, f, memo):
    sub = getattr(f, 'submap', None)
    if not sub:
      return self
    m = {k: tm.subst(v, sub) for k, v in self.sub.items()}
    for k, v in sub.items():
      m.setdefault(k, v)
    return SubstSeq(self.base, m)


def _with(m, k, v):
  r = dict(m)
  r[k] = v
  return r


class FnSeq(Seq):

  def __init__(self, length, fn):
    self.length = length
    self.fn = fn

  def elem(self, i):
    return self.fn(i)

  def mapped(self, f, memo):
    if getattr(self, 'closed', False):
      sub = getattr(f, 'submap', None) or {}
      n = tm.subst(self.length, sub)
      if n is self.length:
        return self
    return Seq.mapped(self, f, memo)


class AliasSeq(Seq):
  """The elements (the same objects) of a store that is never written to."""

  def __init__(self, store):
    self.store = store
    self.length = store.length

  def elem(self, i):
    return self.store.read(i)

  def mapped(self, f, memo):
    k = id(self.store)
    if k not in memo:
      memo[k] = (self.store.mapped(f, memo), self.store)
    return AliasSeq(memo[k][0])


class ConstSeq(Seq):

  def __init__(self, length, v):
    self.length = length
    self.v = v

  def elem(self, i):
    return self.v

  def mapped(self, f, memo):
    return ConstSeq(tm.subst(self.length, f.submap), map_value(self.v, f, memo))


class ListSeq(Seq):

  def __init__(self, items):
    self.items = list(items)
    self.length = tm.num(len(self.items), 'I')

  def elem(self, i):
    if tm.is_num(i):
      return self.items[int(tm.val(i))]
    for k in range(len(self.items) - 1):
      if ENG.decide(tm.eq(i, tm.num(k, 'I'))):
        return self.items[k]
    ENG.assume(tm.eq(i, tm.num(len(self.items) - 1, 'I')))
    return self.items[-1]

  def mapped(self, f, memo):
    return ListSeq([map_value(x, f, memo) for x in self.items])


class HavocSeq(Seq):

  def __init__(self, length, name):
    self.length = length
    self.name = name

  def elem(self, i):
    raise Unsupported('reading an element of %s inside the loop that builds it' % self.name)

  def mapped(self, f, memo):
    return HavocSeq(tm.subst(self.length, f.submap), self.name)


class ConcatSeq(Seq):

  def __init__(self, a, b):
    self.a, self.b = a, b
    self.length = linnorm(tm.add(a.length, b.length))

  def elem(self, i):
    if ENG.decide(tm.lt(i, self.a.length)):
      return self.a.elem(i)
    return self.b.elem(linnorm(tm.sub(i, self.a.length)))

  def mapped(self, f, memo):
    return ConcatSeq(self.a.mapped(f, memo), self.b.mapped(f, memo))


class SliceSeq(Seq):

  def __init__(self, a, start, length):
    self.a, self.start, self.length = a, start, length

  def elem(self, i):
    return self.a.elem(linnorm(tm.add(i, self.start)))

  def mapped(self, f, memo):
    return SliceSeq(self.a.mapped(f, memo), tm.subst(self.start, f.submap),
                    tm.subst(self.length, f.submap))


class DropSeq(Seq):

  def __init__(self, a, k):
    self.a, self.k = a, k
    self.length = linnorm(tm.sub(a.length, I1))

  def elem(self, i):
    if ENG.decide(tm.lt(i, self.k)):
      return self.a.elem(i)
    return self.a.elem(linnorm(tm.add(i, I1)))

  def mapped(self, f, memo):
    return DropSeq(self.a.mapped(f, memo), tm.subst(self.k, f.submap))


class StoreSeq(Seq):
  """Frozen state of a store."""

  def __init__(self, store):
    self.store = store
    self.length = store.length

  def elem(self, i):
    return deep_copy(self.store.read(i))

  def mapped(self, f, memo):
    if not f.submap:
      return self
    return StoreSeq(self.store.mapped(f, memo))


class Store(object):
  """Mutable container state: base sequence, appended tail, point updates."""

  def __init__(self, base, tail=()):
    self.base = base
    self.tail = list(tail)
    self.overlay = []     # [index term, value, pristine copy or None]

  @property
  def length(self):
    return linnorm(tm.add(self.base.length, tm.num(len(self.tail), 'I')))

  def materialized(self):
    return [o[1] for o in self.overlay] + list(self.tail)

  def find(self, i):
    for o in reversed(self.overlay):
      e = tm.eq(i, o[0])
      if e is tm.FALSE:
        continue
      d = linnorm(tm.sub(i, o[0]))
      if tm.is_num(d):
        if tm.val(d) == 0:
          return o
        continue
      if ENG.decide(e):
        return o
    return None

  def read(self, i):
    i = linnorm(i)
    o = self.find(i)
    if o is not None:
      return o[1]
    for j, v in enumerate(self.tail):
      if ENG.decide(tm.eq(i, linnorm(tm.add(self.base.length, tm.num(j, 'I'))))):
        return v
    v = self.base.elem(i)
    if isinstance(v, np.ndarray) or is_obj(v) or isinstance(v, (PList, SymArr)):
      self.overlay.append([i, v, deep_copy(v)])
    return v

  def peek(self, i):
    """Element i, to look at only: unchanged elements need no identity."""
    i = linnorm(i)
    for o in reversed(self.overlay):
      d = linnorm(tm.sub(i, o[0]))
      if tm.is_num(d):
        if tm.val(d) == 0:
          return o[1]
      elif (o[2] is None or not same_value(o[1], o[2])) and ENG.decide(tm.eq(i, o[0])):
        return o[1]
    for j, v in enumerate(self.tail):
      if ENG.decide(tm.eq(i, linnorm(tm.add(self.base.length, tm.num(j, 'I'))))):
        return v
    return self.base.elem(i)

  def write(self, i, v):
    self.overlay.append([linnorm(i), v, None])

  def freeze(self):
    """An independent functional copy of the current contents."""
    if not self.overlay and not self.tail:
      return self.base
    s = Store(self.base, [deep_copy(t) for t in self.tail])
    s.overlay = [[o[0], deep_copy(o[1]), o[2]] for o in self.overlay
                 if o[2] is None or not same_value(o[1], o[2])]
    if not s.overlay and not s.tail:
      return self.base
    return StoreSeq(s)

  def state(self):
    return (self.base, list(self.tail), [list(o) for o in self.overlay])

  def restore(self, st):
    self.base = st[0]
    self.tail = list(st[1])
    self.overlay = [list(o) for o in st[2]]

  def mapped(self, f, memo):
    sub = getattr(f, 'submap', None) or {}
    s = Store(self.base.mapped(f, memo), [map_value(t, f, memo) for t in self.tail])
    s.overlay = [[tm.subst(o[0], sub), map_value(o[1], f, memo),
                  None if o[2] is None else map_value(o[2], f, memo) if sub else o[2]]
                 for o in self.overlay]
    return s

  def share(self):
    """The current elements as a sequence of shared objects.  They move to a
    store of their own that nobody writes to; writes stay local."""
    if isinstance(self.base, AliasSeq) and not self.tail and \
        all(o[2] is not None for o in self.overlay):
      return self.base
    core = Store(self.base, self.tail)
    core.overlay = self.overlay
    self.base, self.tail, self.overlay = AliasSeq(core), [], []
    return self.base

  def flat(self):
    """Base, tail and changed entries, also if the elements are shared."""
    if isinstance(self.base, AliasSeq) and not self.tail:
      b, t, c = self.base.store.flat()
      return b, t, c + self.changed_entries()
    return self.base, self.tail, self.changed_entries()

  def same(self, o):
    a, b = self.flat(), o.flat()
    return a[0] is b[0] and len(a[1]) == len(b[1]) and all(
        same_value(x, y) for x, y in zip(a[1], b[1])) and a[2] == [] and b[2] == []

  def changed_entries(self):
    return [o for o in self.overlay if o[2] is None or not same_value(o[1], o[2])]


def _mutable(v):
  return isinstance(v, (np.ndarray, list, dict, SymArr)) or is_obj(v)


def norm_index(i, length):
  """Python index -> term, raising IndexError where Python would."""
  t = iterm(i)
  if ENG.decide(tm.lt(t, I0)):
    t = linnorm(tm.add(length, t))
    if ENG.decide(tm.lt(t, I0)):
      raise IndexError('index out of range')
  elif ENG.decide(tm.le(length, t)):
    raise IndexError('index out of range')
  return linnorm(t)


def norm_slice(k, length):
  """Python slice -> (start, length) terms; step 1 only."""
  if k.step is not None and not (is_number(k.step) and term(k.step) is tm.num(1, 'I')):
    raise Unsupported('slice step')

  def bound(x, default):
    if x is None:
      return default
    t = iterm(x)
    if ENG.decide(tm.lt(t, I0)):
      t = linnorm(tm.add(length, t))
      if ENG.decide(tm.lt(t, I0)):
        return I0
      return t
    if ENG.decide(tm.lt(length, t)):
      return length
    return t
  a = bound(k.start, I0)
  b = bound(k.stop, length)
  n = linnorm(tm.sub(b, a))
  if ENG.decide(tm.lt(n, I0)):
    n = I0
  return linnorm(a), n


class PList(list):
  """Python list of the verified program; may have unknown length."""
  __slots__ = ('sym',)

  def __init__(self, it=()):
    list.__init__(self, it)
    self.sym = None

  @classmethod
  def of(cls, seq):
    r = cls()
    r.sym = Store(seq)
    return r

  def to_sym(self):
    if self.sym is None:
      self.sym = Store(ListSeq(list.__iter__(self)))
      list.clear(self)

  def slen(self):
    return list.__len__(self) if self.sym is None else Sym(self.sym.length)

  def seq(self):
    """Functional copy of the contents."""
    if self.sym is None:
      return ListSeq(list(list.__iter__(self)))
    return self.sym.freeze()

  def __hash__(self):
    return id(self)

  def __iter__(self):
    if self.sym is not None:
      n = linnorm(self.sym.length)
      if tm.is_num(n):
        return iter([self.sym.read(tm.num(i, 'I')) for i in range(int(tm.val(n)))])
      raise Unsupported('iterating a list of unknown length here')
    return list.__iter__(self)

  def __len__(self):
    if self.sym is not None:
      n = self.sym.length
      if tm.is_num(n):
        return int(tm.val(n))
      raise Unsupported('length of a list of unknown length here')
    return list.__len__(self)

  def __bool__(self):
    if self.sym is not None:
      return ENG.decide(tm.lt(I0, self.sym.length))
    return list.__len__(self) > 0

  def __getitem__(self, k):
    if self.sym is None:
      if isinstance(k, Sym) and k.t.op != 'num':
        t = iterm(k)
        n = list.__len__(self)
        if ENG.decide(tm.lt(t, I0)):
          t = tm.add(t, tm.num(n, 'I'))
        for j in range(n):
          if ENG.decide(tm.eq(t, tm.num(j, 'I'))):
            return list.__getitem__(self, j)
        raise IndexError('list index out of range')
      if isinstance(k, slice):
        if any(isinstance(x, Sym) and x.t.op != 'num' for x in (k.start, k.stop)):
          a, n = norm_slice(k, tm.num(list.__len__(self), 'I'))
          return PList.of(SliceSeq(self.seq(), a, n))
        return PList(list.__getitem__(self, slice(*[x if x is None else x.__index__() for x in (k.start, k.stop, k.step)])))
      return list.__getitem__(self, k)
    if isinstance(k, slice):
      if k.start is None and k.stop is None and k.step is None:
        return PList.of(self.alias_seq())
      a, n = norm_slice(k, self.sym.length)
      return PList.of(SliceSeq(self.alias_seq(), a, n))
    return self.sym.read(norm_index(k, self.sym.length))

  def alias_seq(self):
    """Elements shared with this list (same objects)."""
    return self.sym.share()

  def __setitem__(self, k, v):
    if self.sym is None:
      if isinstance(k, Sym) and k.t.op != 'num':
        t = norm_index(k, tm.num(list.__len__(self), 'I'))
        for j in range(list.__len__(self)):
          if ENG.decide(tm.eq(t, tm.num(j, 'I'))):
            list.__setitem__(self, j, v)
            return
        raise IndexError('list assignment index out of range')
      if isinstance(k, Sym):
        k = k.__index__()
      list.__setitem__(self, k, v)
      return
    if isinstance(k, slice):
      raise Unsupported('slice assignment on a list of unknown length')
    self.sym.write(norm_index(k, self.sym.length), v)

  def __delitem__(self, k):
    if self.sym is None:
      return list.__delitem__(self, k)
    self.pop(k)

  def append(self, v):
    if self.sym is None:
      list.append(self, v)
    else:
      self.sym.tail.append(v)

  def extend(self, o):
    if self.sym is None and not is_symseq(o):
      list.extend(self, o)
      return
    self.to_sym()
    if is_symseq(o):
      self.sym = Store(ConcatSeq(self.sym.share(), as_seq(o)))
    else:
      self.sym.tail.extend(o)

  def __iadd__(self, o):
    self.extend(o)
    return self

  def __add__(self, o):
    if self.sym is None and not is_symseq(o):
      return PList(list.__add__(self, list(o)))
    if self.sym is not None and not is_symseq(o):
      if not self.sym.overlay and all(not _mutable(t) for t in self.sym.tail):
        r = PList.of(self.sym.base)
        r.sym.tail = list(self.sym.tail) + list(o)
      else:
        r = PList.of(self.alias_seq())
        r.sym.tail.extend(list(o))
      return r
    a = ListSeq(list.__iter__(self)) if self.sym is None else self.alias_seq()
    return PList.of(ConcatSeq(a, as_seq(o)))

  def __radd__(self, o):
    return PList(o) + self

  def __mul__(self, n):
    if isinstance(n, Sym) and n.t.op != 'num':
      if list.__len__(self) != 1 or self.sym is not None:
        raise Unsupported('list repetition')
      t = iterm(n)
      if ENG.decide(tm.lt(t, I0)):
        t = I0
      return PList.of(ConstSeq(t, list.__getitem__(self, 0)))
    return PList(list.__mul__(self, int(n)))

  __rmul__ = __mul__

  def copy(self):
    return self[:]

  def pop(self, k=-1):
    if self.sym is None:
      if isinstance(k, Sym):
        k = k.__index__()
      return list.pop(self, k)
    i = norm_index(k, self.sym.length)
    v = self.sym.read(i)
    self.sym = Store(DropSeq(self.alias_seq(), i))
    return v

  def insert(self, k, v):
    if self.sym is not None:
      raise Unsupported('insert into a list of unknown length')
    list.insert(self, k, v)

  def __contains__(self, v):
    if self.sym is not None:
      raise Unsupported('membership in a list of unknown length')
    for e in list.__iter__(self):
      if e is v or e == v:
        return True
    return False

  def __eq__(self, o):
    if not isinstance(o, list):
      return False
    if self.sym is not None or isinstance(o, PList) and o.sym is not None:
      raise Unsupported('comparing lists of unknown length')
    return len(self) == len(o) and all(a is b or bool(a == b) for a, b in zip(self, o))

  def __ne__(self, o):
    return not self.__eq__(o)

  def __reversed__(self):
    if self.sym is not None:
      raise Unsupported('reversed list of unknown length')
    return list.__reversed__(self)

  def index(self, *a):
    if self.sym is not None:
      raise Unsupported('index in a list of unknown length')
    return list.index(self, *a)

  def sort(self, *a, **k):
    if self.sym is not None:
      raise Unsupported('sorting a list of unknown length')
    list.sort(self, *a, **k)

  def reverse(self):
    if self.sym is not None:
      raise Unsupported('reversing a list of unknown length')
    list.reverse(self)

  def clear(self):
    self.sym = None
    list.clear(self)

  def __repr__(self):
    return '<list of unknown length>' if self.sym is not None else list.__repr__(self)

  def __str__(self):
    return '<list>'

  def __format__(self, spec):
    return '<list>'


class SymRange(object):

  def __init__(self, start, stop):
    self.start = start
    self.length = linnorm(tm.sub(stop, start))
    if ENG.decide(tm.lt(self.length, I0)):
      self.length = I0

  def get(self, i):
    return Sym(linnorm(tm.add(self.start, i)))

  def __getitem__(self, k):
    if isinstance(k, slice):
      raise Unsupported('slicing a range')
    return self.get(norm_index(k, self.length))


class SymIter(object):
  """Derived symbolic iterables (enumerate, zip, ...)."""

  def __init__(self, length, get):
    self.length = length
    self.get = get


class SymArr(object):
  """Array whose first dimension is unknown."""

  __array_priority__ = 1000
  __array_ufunc__ = None

  def __init__(self, store, cols=None, sel=None, start=I0, length=None):
    self.store = store
    self.cols = cols          # None: one-dimensional store of scalars
    self.sel = sel            # None, int or slice on the columns
    self.start = start
    self._length = length

  @classmethod
  def of(cls, seq, cols=None):
    return cls(Store(seq), cols)

  @property
  def length(self):
    return self.store.length if self._length is None else self._length

  @property
  def ndim(self):
    return 1 if self.cols is None or isinstance(self.sel, int) else 2

  @property
  def ncols(self):
    if self.ndim == 1:
      return None
    if self.sel is None:
      return self.cols
    return len(range(*self.sel.indices(self.cols)))

  @property
  def shape(self):
    n = Sym(self.length)
    return (n,) if self.ndim == 1 else (n, self.ncols)

  @property
  def size(self):
    return Sym(self.length) if self.ndim == 1 else Sym(self.length) * self.ncols

  @property
  def dtype(self):
    return np.dtype(float)

  @property
  def T(self):
    if self.ndim == 1:
      return self
    raise Unsupported('transpose of an array of unknown length')

  def slen(self):
    return Sym(self.length)

  def row(self, i):
    """Element i (a view for two-dimensional arrays)."""
    if isinstance(self.sel, int) and self.cols is not None:
      return self.store.peek(linnorm(tm.add(self.start, i)))[self.sel]
    v = self.store.read(linnorm(tm.add(self.start, i)))
    if self.cols is None or self.sel is None:
      return v
    return v[self.sel]

  def get(self, i):
    return self.row(i)

  def seq(self):
    f = self.store.freeze()
    start, sel, cols = self.start, self.sel, self.cols

    def fn(i):
      v = f.elem(linnorm(tm.add(start, i)))
      if cols is None or sel is None:
        return v
      r = v[sel]
      return r.copy() if isinstance(r, np.ndarray) else r
    return FnSeq(self.length, fn)

  def copy(self):
    return SymArr.of(self.seq(), self.ncols)

  def mapped(self, f, memo):
    return SymArr(self.store.mapped(f, memo), self.cols, self.sel,
                  tm.subst(self.start, getattr(f, 'submap', {})),
                  None if self._length is None else tm.subst(self._length, getattr(f, 'submap', {})))

  def same(self, o):
    return (self.store is o.store or self.store.same(o.store)) and self.cols == o.cols and \
        self.sel == o.sel and self.start is o.start and self.length is o.length

  def ravel(self):
    if self.ndim == 1:
      return self
    if self.ncols == 1:
      return SymArr(self.store, self.cols, 0 if self.sel is None else
                    range(*self.sel.indices(self.cols))[0], self.start, self._length)
    raise Unsupported('ravel')

  flatten = ravel

  def astype(self, dtype, *a, **k):
    if getattr(dtype, '__name__', dtype) not in ('float', 'float64', 'double', 'f8', 'd'):
      raise Unsupported('conversion of an array')
    f = self.seq()

    def row(i):
      v = f.elem(i)
      if isinstance(v, np.ndarray):
        r = np.empty(v.shape, dtype=object)
        for j in range(len(v)):
          r[j] = v[j].number() if hasattr(v[j], 'number') else v[j]
        return r
      return v.number() if hasattr(v, 'number') else v
    return SymArr.of(FnSeq(f.length, row), self.ncols)

  def tolist(self):
    return PList.of(self.seq())

  def _colsel(self, c):
    if isinstance(c, Sym):
      c = c.__index__()
    base = range(self.cols) if self.sel is None else range(*self.sel.indices(self.cols))
    if isinstance(c, slice):
      sub = base[slice(*[None if x is None else x.__index__() for x in (c.start, c.stop, c.step)])]
      if len(sub) == 0:
        return slice(0, 0)
      return slice(sub.start, sub.stop if sub.stop >= 0 else None, sub.step)
    return base[c]

  def __getitem__(self, k):
    if isinstance(k, tuple):
      if len(k) == 1:
        return self[k[0]]
      if len(k) != 2 or self.ndim != 2:
        raise Unsupported('array index')
      r, c = k
      if r is Ellipsis:
        r = slice(None)
      if isinstance(r, slice):
        v = self[r]
        return SymArr(v.store, v.cols, self._colsel(c), v.start, v._length)
      c = c if not isinstance(c, Sym) else c.__index__()
      i = norm_index(r, self.length)
      if isinstance(c, (int, np.integer)):
        return self.store.peek(linnorm(tm.add(self.start, i)))[self._colsel(c)]
      return self.row(i)[c]
    if isinstance(k, slice):
      if k.step is not None and not (k.step == 1):
        return self._strided(k)
      a, n = norm_slice(k, self.length)
      return SymArr(self.store, self.cols, self.sel, linnorm(tm.add(self.start, a)), n)
    if isinstance(k, (list, np.ndarray, SymArr)):
      raise Unsupported('index array on an array of unknown length')
    return self.row(norm_index(k, self.length))

  def _strided(self, k):
    raise Unsupported('strided slice')

  def __setitem__(self, k, v):
    if isinstance(k, tuple) and len(k) == 1:
      k = k[0]
    if isinstance(k, tuple):
      r, c = k
      if r is Ellipsis:
        r = slice(None)
      if isinstance(r, slice):
        a, n = norm_slice(r, self.length)
        sel = self._colsel(c)
        self._set_rows(a, n, sel, v)
        return
      row = self.row(norm_index(r, self.length))
      row[c if not isinstance(c, Sym) else c.__index__()] = v
      return
    if isinstance(k, slice):
      a, n = norm_slice(k, self.length)
      self._set_rows(a, n, self.sel, v)
      return
    i = norm_index(k, self.length)
    if self.cols is None:
      if isinstance(v, np.ndarray):
        v = v.reshape(-1)[0]
      self.store.write(linnorm(tm.add(self.start, i)), _num(v))
    elif isinstance(self.sel, int):
      self.store.read(linnorm(tm.add(self.start, i)))[self.sel] = _num(v)
    else:
      row = self.row(i)
      row[...] = v

  def _set_rows(self, a, n, sel, v):
    """rows a..a+n, columns sel := v"""
    if tm.is_num(n):
      cnt = int(tm.val(n))
      for j in range(cnt):
        if isinstance(v, np.ndarray):
          if v.ndim and v.shape[0] != cnt and v.ndim == (2 if self.ndim == 2 else 1):
            raise ValueError('could not broadcast')
          x = v[j] if v.ndim == self.ndim and v.ndim else v
        elif isinstance(v, SymArr):
          x = v.row(tm.num(j, 'I'))
        else:
          x = v
        i = linnorm(tm.add(a, tm.num(j, 'I')))
        if self.cols is None:
          self.store.write(linnorm(tm.add(self.start, i)), _num(x))
        else:
          row = self.store.read(linnorm(tm.add(self.start, i)))
          row[sel if sel is not None else slice(None)] = x
      return
    old = self.store.freeze()
    st, cols = self.start, self.cols
    a = linnorm(tm.add(st, a))
    if isinstance(v, SymArr):
      if not ENG.decide(tm.eq(v.length, n)):
        raise ValueError('could not broadcast input array')
      src = v.seq()
    elif isinstance(v, PList) and v.sym is not None:
      if not ENG.decide(tm.eq(v.sym.length, n)):
        raise ValueError('could not broadcast input array')
      src = v.seq()
    else:
      src = None

    def fn(i):
      inside = ENG.decide(tm.and_(tm.le(a, i), tm.lt(i, tm.add(a, n))))
      r = old.elem(i)
      if not inside:
        return r
      x = v if src is None else src.elem(linnorm(tm.sub(i, a)))
      if cols is None:
        return _num(x)
      r = r.copy()
      r[sel if sel is not None else slice(None)] = x
      return r
    self.store.base = FnSeq(self.store.length, fn)
    self.store.tail = []
    self.store.overlay = []

  def _bin(self, o, f):
    a = self.seq()
    if isinstance(o, SymArr):
      b = o.seq()
      if o.ndim == self.ndim:
        if not ENG.decide(tm.eq(self.length, o.length)):
          raise ValueError('operands could not be broadcast together')
        return SymArr.of(FnSeq(self.length, lambda i: f(a.elem(i), b.elem(i))), self.ncols)
      raise Unsupported('broadcasting arrays of unknown length')
    if isinstance(o, (PList, list)):
      raise Unsupported('array and list arithmetic')
    return SymArr.of(FnSeq(self.length, lambda i: f(a.elem(i), o)), self.ncols)

  def __add__(self, o):
    return self._bin(o, lambda a, b: a + b)
  __radd__ = __add__

  def __sub__(self, o):
    return self._bin(o, lambda a, b: a - b)

  def __rsub__(self, o):
    return self._bin(o, lambda a, b: b - a)

  def __mul__(self, o):
    return self._bin(o, lambda a, b: a * b)
  __rmul__ = __mul__

  def __truediv__(self, o):
    if is_number(o):
      d = Sym(tm.real(num0(term(o))))
      if not (d.t.op == 'num' and tm.val(d.t) != 0):
        ENG.oblige('divisor is not zero', tm.not_(tm.eq(d.t, tm.ZERO)))
      o = d
    else:
      raise Unsupported('division of arrays of unknown length')
    return self._bin(o, lambda a, b: a / b)

  def __neg__(self):
    return self._bin(0, lambda a, b: -a)

  def __pow__(self, n):
    return self._bin(n, lambda a, b: a ** b)

  def _ip(self, o, f):
    r = self._bin(o, f)
    self[:] = r
    return self

  def __iadd__(self, o):
    return self._ip(o, lambda a, b: a + b)

  def __isub__(self, o):
    return self._ip(o, lambda a, b: a - b)

  def __imul__(self, o):
    return self._ip(o, lambda a, b: a * b)

  def __itruediv__(self, o):
    r = self / o
    self[:] = r
    return self

  def _cmp(self, o, f):
    return self._bin(o, f)

  def __lt__(self, o):
    return self._bin(o, lambda a, b: a < b)

  def __le__(self, o):
    return self._bin(o, lambda a, b: a <= b)

  def __gt__(self, o):
    return self._bin(o, lambda a, b: a > b)

  def __ge__(self, o):
    return self._bin(o, lambda a, b: a >= b)

  def __iter__(self):
    if tm.is_num(self.length):
      return iter([self.row(tm.num(i, 'I')) for i in range(int(tm.val(self.length)))])
    raise Unsupported('iterating an array of unknown length here')

  def __len__(self):
    if tm.is_num(self.length):
      return int(tm.val(self.length))
    raise Unsupported('length of an array of unknown length here')

  def __bool__(self):
    raise Unsupported('truth value of an array')

  def sum(self, axis=None):
    from pyvc.runtime import RT
    return RT.symsum(self)

  def mean(self, axis=None):
    from pyvc.runtime import RT
    return RT.mean(self)

  def __repr__(self):
    return '<array of unknown length>'

  def __format__(self, s):
    return repr(self)


def _num(v):
  if isinstance(v, np.ndarray):
    if v.size != 1:
      raise ValueError('setting an array element with a sequence.')
    v = v.reshape(-1)[0]
  if isinstance(v, Sym):
    return Sym(tm.real(num0(v.t)))
  if is_number(v):
    from pyvc.npshim import exact
    return Sym(tm.real(num0(term(exact(v)))))
  raise TypeError('float() argument must be a string or a real number')


def is_symseq(v):
  """Unknown length?"""
  if isinstance(v, PList):
    return v.sym is not None
  return isinstance(v, (SymArr, SymRange, SymIter))


def as_seq(v):
  if isinstance(v, PList):
    if v.sym is not None:
      return v.alias_seq()
    return ListSeq(list.__iter__(v))
  if isinstance(v, SymArr):
    return FnSeq(v.length, v.row)
  if isinstance(v, (SymRange, SymIter)):
    return FnSeq(v.length, v.get)
  return ListSeq(list(v))


def seq_len(v):
  if isinstance(v, PList):
    return v.sym.length if v.sym is not None else tm.num(list.__len__(v), 'I')
  if isinstance(v, (SymArr, SymRange, SymIter)):
    return v.length
  return tm.num(len(v), 'I')


def seq_get(v, i):
  """Element i of any sequence (i is a term)."""
  if isinstance(v, PList):
    if v.sym is not None:
      return v.sym.read(i)
    return ListSeq(list.__iter__(v)).elem(i)
  if isinstance(v, SymArr):
    return v.row(i)
  if isinstance(v, (SymRange, SymIter)):
    return v.get(i)
  if isinstance(v, np.ndarray):
    return ListSeq(list(v)).elem(i)
  return ListSeq(list(v)).elem(i)
