"""Symbolic execution state: path condition, decisions, obligations, and the
symbolic numbers (Sym) the verified source computes with."""
import math
import numbers
import os
import time
from fractions import Fraction

import numpy as np

from pyvc import terms as tm
from pyvc import solve


class Unsupported(BaseException):
  """The source left the subset the generator can handle (not a violation)."""


class PathEnd(BaseException):
  """This path is infeasible or has served its purpose."""


class Enough(BaseException):
  """Enough obligations have failed; the rest would add nothing."""


class Truncation(Exception):
  """A real value was stored into an integer array."""


class Obligation(object):

  def __init__(self, label, site, goal, status, how, wall, model=None, facts=None, detail=''):
    self.label = label
    self.site = site
    self.goal = goal
    self.status = status
    self.how = how
    self.wall = wall
    self.model = model
    self.stated = False      # a statement of the lemma itself, not a step towards it
    self.facts = facts
    self.detail = detail


class Frame(object):

  def __init__(self, base):
    self.base = base
    self.prefix = []
    self.pos = 0
    self.trail = []
    self.pending = []
    self.events = []


class Engine(object):
  is_list = staticmethod(lambda x: False)
  as_array = None

  def __init__(self):
    self.reset()

  def reset(self):
    self.facts = []
    self.factset = set()
    self.frames = []
    self.counter = 0
    self.obligations = []
    self.ob_cache = {}
    self.paths = 0
    self.whole = 0
    self.infeasible = 0
    self.assumed = set()       # names of trusted contracts used
    self.used_contracts = set()
    self.inlined = set()
    self.interpreted = set()
    self.site = []
    self.deadline = time.time() + 600
    self.max_paths = 4000
    self.prove_timeout = 10.0
    self.loop_ctx = []         # index variables of enclosing summarised loops
    self.input_terms = {}      # variable term -> (kind, name)
    self.notes = []
    self.mode = 'prove'
    self.failed = 0
    self.max_failed = 4
    self.reg = {}              # per path: named sums, selections, ...

  # ---- facts ----------------------------------------------------------------
  def _push_fact(self, t):
    if t is tm.TRUE:
      return
    if t is tm.FALSE:
      raise PathEnd()
    if t.op == 'and':
      for x in t.args:
        self._push_fact(x)
      return
    if t.op == 'not' and t.args[0].op == 'or':
      for x in t.args[0].args:
        self._push_fact(tm.not_(x))
      return
    if t not in self.factset:
      self.facts.append(t)
      self.factset.add(t)

  def assume(self, t):
    t = as_bool_term(t)
    if self.frames:
      self.frames[-1].events.append(('assume', t))
    self._push_fact(t)

  def set_facts(self, facts):
    self.facts = list(facts)
    self.factset = set(self.facts)

  def fresh_name(self, hint):
    self.counter += 1
    return '%s!%d' % (hint, self.counter)

  def fresh(self, hint, sort='R'):
    """A fresh symbol; inside a summarised loop it depends on the loop index."""
    name = self.fresh_name(hint)
    if self.loop_ctx:
      return Sym(tm.app(name, tuple(self.loop_ctx), sort))
    return Sym(tm.var(name, sort))

  # ---- decisions --------------------------------------------------------------
  def known(self, t):
    if t is tm.TRUE or t in self.factset:
      return True
    if t is tm.FALSE or tm.not_(t) in self.factset:
      return False
    return None

  def decide(self, t):
    k = self.known(t)
    if k is not None:
      return k
    if time.time() > self.deadline:
      raise Unsupported('time budget of the symbolic execution exhausted')
    if not self.frames:
      raise Unsupported('decision outside of an exploration')
    fr = self.frames[-1]
    if fr.pos < len(fr.prefix):
      choice, forced = fr.prefix[fr.pos]
    else:
      if not solve.feasible(self.facts, t):
        choice, forced = False, True
      elif not solve.feasible(self.facts, tm.not_(t)):
        choice, forced = True, True
      else:
        choice, forced = True, False
        fr.pending.append(fr.trail + [(False, False)])
    fr.pos += 1
    fr.trail.append((choice, forced))
    f = t if choice else tm.not_(t)
    fr.events.append(('fact' if forced else 'dec', t, choice))
    self._push_fact(f)
    return choice

  def explore(self, fn):
    """Runs fn once per path; returns [(events, outcome)]."""
    base = list(self.facts)
    reg = {k: list(v) for k, v in self.reg.items()}
    c0 = self.counter
    fr = Frame(base)
    self.frames.append(fr)
    out = []
    fr.pending = [[]]
    cmax = c0
    try:
      while fr.pending:
        prefix = fr.pending.pop()
        fr.prefix = prefix
        fr.pos = 0
        fr.trail = []
        fr.events = []
        self.set_facts(base)
        self.reg = {k: list(v) for k, v in reg.items()}
        self.counter = c0
        self.paths += 1
        if len(self.frames) == 1:
          self.whole += 1
        if self.whole > self.max_paths or self.paths > 50 * self.max_paths:
          raise Unsupported('path budget exhausted')
        try:
          r = fn()
          out.append((fr.events, r))
        except PathEnd:
          self.infeasible += 1
        cmax = max(cmax, self.counter)
    finally:
      self.frames.pop()
      self.set_facts(base)
      self.reg = reg
      self.counter = cmax
    return out

  # ---- obligations ------------------------------------------------------------
  def where(self):
    return self.site[-1] if self.site else '?'

  def oblige(self, label, goal, assume_after=True, keep=False, stated=False):
    goal = as_bool_term(goal)
    if self.mode == 'silent':
      if assume_after:
        if goal is tm.FALSE:
          raise PathEnd()
        self._push_fact(goal)
      return True
    key = (label, goal.id, tuple(f.id for f in self.facts))
    ob = self.ob_cache.get(key)
    if ob is None:
      r = solve.prove(self.facts, goal, self.prove_timeout)
      ob = Obligation(label, self.where(), goal, r.status, r.how, r.wall, r.model,
                      list(self.facts) if r.status != 'proved' else None)
      ob.stated = stated
      self.ob_cache[key] = ob
      self.obligations.append(ob)
      if ob.status != 'proved':
        self.failed += 1
        if self.failed >= self.max_failed and not self.loop_ctx:
          raise Enough()
    if assume_after and ob.status != 'refuted':
      if goal is tm.FALSE:
        raise PathEnd()
      if ob.how != 'poly' or keep:   # a consequence of the known equations adds nothing
        self.assume(goal)
    return ob.status == 'proved'


  def have(self, label, goal, using=(), opaque=()):
    """Proves goal from the statements in using alone, with the opaque terms
    replaced by variables; using must hold already."""
    goal = as_bool_term(goal)
    using = [as_bool_term(u) for u in using]
    for u in using:
      self.oblige(label + ' (premise)', u)
    m = {}
    for k, t in enumerate(opaque):
      t = term(t)
      if t.op not in ('num', 'var'):
        m[t] = tm.var('opaque!%d' % k, t.sort)
    f = lambda t: tm.subst(t, m) if m else t
    r = solve.prove([f(u) for u in using if f(u) is not tm.TRUE], f(goal), self.prove_timeout)
    if r.status == 'proved':
      ob = Obligation(label, self.where(), goal, r.status, r.how, r.wall)
      self.obligations.append(ob)
      self.assume(goal)
      return True
    return self.oblige(label, goal, keep=True)


ENG = Engine()


# ---------------------------------------------------------------------------

def frac(x):
  if isinstance(x, Fraction):
    return x
  if isinstance(x, (bool, np.bool_)):
    return Fraction(int(x))
  if isinstance(x, (int, np.integer)):
    return Fraction(int(x))
  x = float(x)
  if math.isinf(x) or math.isnan(x):
    raise Unsupported('arithmetic with inf or nan')
  return Fraction(repr(x))


def is_symnum(x):
  return isinstance(x, Sym)


def is_number(x):
  return isinstance(x, (Sym, int, float, np.integer, np.floating, np.bool_, Fraction))


def term(x):
  """Python number -> term."""
  if isinstance(x, Sym):
    return x.t
  if isinstance(x, (bool, np.bool_)):
    return tm.num(int(x), 'I')
  if isinstance(x, (int, np.integer)):
    return tm.num(int(x), 'I')
  if isinstance(x, (float, np.floating, Fraction)):
    return tm.num(frac(x), 'R')
  if isinstance(x, tm.T):
    return x
  if isinstance(x, np.ndarray) and x.size == 1:
    return term(x.reshape(-1)[0])
  raise Unsupported('not a number: %r' % type(x))


def as_bool_term(x):
  if isinstance(x, tm.T):
    return x
  if isinstance(x, Sym):
    return x.t if x.t.sort == 'B' else tm.not_(tm.eq(x.t, tm.num(0, x.t.sort)))
  if isinstance(x, (bool, np.bool_)):
    return tm.TRUE if x else tm.FALSE
  raise Unsupported('not a condition: %r' % (x,))


def _isinf(o):
  return isinstance(o, (float, np.floating)) and (math.isinf(o) or math.isnan(o))


def mkbool(t):
  if t is tm.TRUE:
    return True
  if t is tm.FALSE:
    return False
  return Sym(t)


def num0(t):
  """Arithmetic view of a term (booleans count as 0/1)."""
  if t.sort == 'B':
    return tm.ite(t, tm.num(1, 'I'), tm.num(0, 'I'))
  return t


def power(b, x):
  t = tm.app('pow', (b, x))
  ENG.assume(tm.implies(tm.and_(tm.lt(tm.ZERO, b), tm.lt(b, tm.ONE), tm.lt(tm.ZERO, x)),
                        tm.and_(tm.lt(tm.ZERO, t), tm.lt(t, tm.ONE))))
  return Sym(t)


class Sym(object):
  __slots__ = ('t',)

  def __init__(self, t):
    self.t = t

  def __deepcopy__(self, memo):
    return self

  def __copy__(self):
    return self

  def __repr__(self):
    return '<%s>' % tm.show(self.t, 5)

  def __str__(self):
    return repr(self)

  def __format__(self, spec):
    return repr(self)

  def __hash__(self):
    if self.t.op == 'num':
      return hash(self.t.args[0])
    return hash(self.t.id)

  def _bin(self, o, f, swap=False):
    if isinstance(o, np.ndarray):
      return NotImplemented
    if _isinf(o):
      raise Unsupported('arithmetic with inf or nan')
    if not is_number(o):
      return NotImplemented
    a, b = num0(self.t), num0(term(o))
    if swap:
      a, b = b, a
    return Sym(f(a, b))

  def __add__(self, o):
    return self._bin(o, tm.add)

  def __radd__(self, o):
    return self._bin(o, tm.add, True)

  def __sub__(self, o):
    if ENG.is_list(o):
      return self - ENG.as_array(o)
    return self._bin(o, tm.sub)

  def __rsub__(self, o):
    if ENG.is_list(o):
      return ENG.as_array(o) - self      # numpy scalars turn lists into arrays
    return self._bin(o, tm.sub, True)

  def __mul__(self, o):
    return self._bin(o, tm.mul)

  def __rmul__(self, o):
    return self._bin(o, tm.mul, True)

  def __truediv__(self, o):
    return self._bin(o, safe_div)

  def __rtruediv__(self, o):
    return self._bin(o, safe_div, True)

  def __floordiv__(self, o):
    return self._bin(o, floor_div)

  def __rfloordiv__(self, o):
    return self._bin(o, floor_div, True)

  def __mod__(self, o):
    return self._bin(o, modulo)

  def __rmod__(self, o):
    return self._bin(o, modulo, True)

  def __pow__(self, n):
    if isinstance(n, Sym) and n.t.op == 'num':
      n = n.t.args[0]
    if isinstance(n, (int, np.integer, float, np.floating, Fraction)):
      f = frac(n)
      if f.denominator == 1 and 0 <= f <= 12:
        return Sym(tm.powi(num0(self.t), int(f)))
      if f.denominator == 1 and -12 <= f < 0:
        return 1 / Sym(tm.powi(num0(self.t), int(-f)))
      if f == Fraction(1, 2):
        return sym_sqrt(self)
    return power(tm.real(num0(self.t)), tm.real(term(n)))

  def __rpow__(self, b):
    return power(tm.real(term(b)), tm.real(num0(self.t)))

  def __neg__(self):
    return Sym(tm.neg(num0(self.t)))

  def __pos__(self):
    return self

  def __abs__(self):
    return -self if self < 0 else self

  def _cmp(self, o, f, inf):
    if isinstance(o, np.ndarray):
      return NotImplemented
    if _isinf(o):
      return inf(o)
    if not is_number(o):
      return NotImplemented
    return mkbool(f(num0(self.t), num0(term(o))))

  def __lt__(self, o):
    return self._cmp(o, tm.lt, lambda o: o > 0)

  def __le__(self, o):
    return self._cmp(o, tm.le, lambda o: o > 0)

  def __gt__(self, o):
    return self._cmp(o, lambda a, b: tm.lt(b, a), lambda o: o < 0)

  def __ge__(self, o):
    return self._cmp(o, lambda a, b: tm.le(b, a), lambda o: o < 0)

  def __eq__(self, o):
    if isinstance(o, np.ndarray):
      return NotImplemented
    if _isinf(o):
      return False
    if not is_number(o):
      return False
    b = term(o)
    if self.t.sort == 'B' and isinstance(o, (bool, np.bool_)):
      return mkbool(self.t if o else tm.not_(self.t))
    if self.t.sort == 'B' and b.sort == 'B':
      return mkbool(tm.iff(self.t, b))
    return mkbool(tm.eq(num0(self.t), num0(b)))

  def __ne__(self, o):
    r = self.__eq__(o)
    if r is NotImplemented:
      return r
    return (not r) if isinstance(r, bool) else mkbool(tm.not_(r.t))

  def __and__(self, o):
    return mkbool(tm.and_(as_bool_term(self), as_bool_term(o)))
  __rand__ = __and__

  def __or__(self, o):
    return mkbool(tm.or_(as_bool_term(self), as_bool_term(o)))
  __ror__ = __or__

  def __invert__(self):
    return mkbool(tm.not_(as_bool_term(self)))

  def __bool__(self):
    return ENG.decide(as_bool_term(self))

  def __float__(self):
    if self.t.op == 'num':
      return float(self.t.args[0])
    raise Unsupported('symbolic value where a machine float is required')

  def __int__(self):
    if self.t.op == 'num':
      return int(self.t.args[0])
    if self.t.sort == 'R':
      raise Truncation('a real value is stored into an integer array')
    raise Unsupported('symbolic value where a machine integer is required')

  def __index__(self):
    if self.t.op == 'num' and self.t.args[0].denominator == 1 and self.t.sort == 'I':
      return int(self.t.args[0])
    if self.t.op == 'num':
      raise TypeError("'float' object cannot be interpreted as an integer")
    raise Unsupported('symbolic index')

  # numpy ufuncs on object arrays call these methods
  def sqrt(self):
    return sym_sqrt(self)

  def sin(self):
    return Sym(tm.sin(self.t))

  def cos(self):
    return Sym(tm.cos(self.t))

  def arccos(self):
    return sym_arccos(self)

  def degrees(self):
    return self * Fraction(180) / Sym(tm.PI)

  def radians(self):
    return self * Sym(tm.PI) / Fraction(180)
  rad2deg = degrees
  deg2rad = radians

  def conjugate(self):
    return self

  def item(self):
    return self

  def copy(self):
    return self

  @property
  def T(self):
    return self

  @property
  def real(self):
    return self

  @property
  def shape(self):
    return ()

  @property
  def ndim(self):
    return 0

  @property
  def dtype(self):
    return np.dtype(float)

  def astype(self, *_):
    return self

  def floor(self):
    return Sym(tm.toint(self.t))

  def rint(self):
    return Sym(tm.toint(tm.add(self.t, tm.num(Fraction(1, 2)))))

  def is_integer(self):
    return mkbool(tm.eq(self.t, tm.real(tm.toint(self.t))))


numbers.Number.register(Sym)


def safe_div(a, b):
  if tm.is_num(b):
    if tm.val(b) == 0:
      ENG.oblige('divisor is not zero', tm.FALSE)
      raise PathEnd()
    return tm.div(a, b)
  ENG.oblige('divisor is not zero', tm.not_(tm.eq(b, tm.num(0, b.sort))))
  return tm.div(a, b)


def floor_div(a, b):
  if a.sort == 'I' and b.sort == 'I':
    if not (tm.is_num(b) and tm.val(b) > 0):
      ENG.oblige('divisor is positive', tm.lt(tm.num(0, 'I'), b))
    return tm.idiv(a, b)
  return tm.real(tm.toint(safe_div(a, b)))


def modulo(a, b):
  if a.sort == 'I' and b.sort == 'I':
    if not (tm.is_num(b) and tm.val(b) > 0):
      ENG.oblige('divisor is positive', tm.lt(tm.num(0, 'I'), b))
    return tm.imod(a, b)
  # real modulus by a positive constant: a - b*floor(a/b)
  if tm.is_num(b) and tm.val(b) > 0:
    # resolve the common case 0 <= a < b by a decision
    if ENG.decide(tm.and_(tm.le(tm.ZERO, a), tm.lt(a, b))):
      return a
    if ENG.decide(tm.eq(a, b)):
      return tm.ZERO
    return tm.sub(a, tm.mul(b, tm.real(tm.toint(tm.div(a, b)))))
  raise Unsupported('real modulus')


def sym_sqrt(x):
  if not isinstance(x, Sym):
    x = Sym(tm.real(term(x)))
  t = tm.real(num0(x.t))
  if tm.is_num(t):
    if tm.val(t) < 0:
      ENG.oblige('square root of a non-negative number', tm.FALSE)
      raise PathEnd()
    return Sym(tm.sqrt(t))
  if not obviously_nonneg(t):
    ENG.oblige('square root of a non-negative number', tm.le(tm.ZERO, t))
  r = tm.sqrt(t)
  return Sym(r)


def obviously_nonneg(t):
  if t.op == 'num':
    return tm.val(t) >= 0
  if t.op == 'add':
    return obviously_nonneg(t.args[0]) and obviously_nonneg(t.args[1])
  if t.op == 'mul':
    if t.args[0] is t.args[1]:
      return True
    return obviously_nonneg(t.args[0]) and obviously_nonneg(t.args[1])
  if t.op == 'sqrt':
    return True
  if t.op == 'div':
    return obviously_nonneg(t.args[0]) and obviously_nonneg(t.args[1])
  return False


def sym_arccos(x):
  if not isinstance(x, Sym):
    x = Sym(tm.real(term(x)))
  t = tm.real(num0(x.t))
  ENG.oblige('arccos argument within [-1, 1]',
             tm.and_(tm.le(tm.num(-1), t), tm.le(t, tm.ONE)))
  return Sym(tm.arccos(t))
