"""Context with symbolic inputs: statements become proof obligations."""
import contextlib
import numbers
import traceback
from fractions import Fraction

import numpy as np

from pyvc import terms as tm
from pyvc import solve
from pyvc.engine import (ENG, Sym, Unsupported, PathEnd, Enough, Truncation, as_bool_term, mkbool, term,
                         is_number, num0, sym_sqrt)
from pyvc.npshim import exact
from pyvc.runtime import RT, h_div, plain
from pyvc import world
from pyvc.seq import (as_seq, PList, SymArr, FnSeq, is_symseq, seq_len, seq_get, deep_copy, share_memory,
                      is_obj, same_value, I0, I1, linnorm, Store)


class SymCtx(object):
  symbolic = True

  def __init__(self, loader):
    self.loader = loader
    self.choices = []
    self.np = RT.np

  # ---- modules ----------------------------------------------------------------
  def mod(self, name):
    m = self.loader.module('hand_eye_calibration.' + name if '.' not in name else name)
    if m is None:
      raise Unsupported('module %s not found' % name)
    return m

  # ---- inputs -----------------------------------------------------------------
  def real(self, name, lo=None, hi=None, nonzero=False, **hint):
    v = Sym(tm.var(name, 'R'))
    ENG.input_terms[v.t] = name
    if lo is not None:
      ENG.assume(tm.le(term(exact(lo)), v.t))
    if hi is not None:
      ENG.assume(tm.le(v.t, term(exact(hi))))
    if nonzero:
      ENG.assume(tm.not_(tm.eq(v.t, tm.ZERO)))
    return v

  def reals(self, name, n, **hint):
    return [self.real('%s.%d' % (name, i)) for i in range(n)]

  def unit(self, name, n, **hint):
    v = self.reals(name, n)
    s = tm.ZERO
    for x in v:
      s = tm.add(s, tm.mul(x.t, x.t))
    ENG.assume(tm.eq(s, tm.ONE))
    return v

  def dq8(self, name, **hint):
    """Components of a unit dual quaternion: |r| = 1, r.d = 0."""
    r = self.unit(name + '.r', 4)
    d = self.reals(name + '.d', 4)
    self.assume(sum((a * b for a, b in zip(r, d)), 0) == 0)
    return list(r) + list(d)

  def integer(self, name, lo=None, hi=None, **hint):
    v = Sym(tm.var(name, 'I'))
    ENG.input_terms[v.t] = name
    if lo is not None:
      ENG.assume(tm.le(term(lo), v.t))
    if hi is not None:
      ENG.assume(tm.le(v.t, term(hi)))
    return v

  def natural(self, name, args):
    """An unnamed natural number that depends on args."""
    v = Sym(tm.app(name, tuple(term(x) for x in args), 'I'))
    ENG.assume(tm.le(I0, v.t))
    return v

  def boolean(self, name):
    """Both values are explored."""
    v = tm.var(name, 'B')
    ENG.input_terms[v] = name
    return ENG.decide(v)

  def choose(self, name, options):
    for i, o in enumerate(options[:-1]):
      if self.boolean('%s=%d' % (name, i)):
        return o
    return options[-1]

  def array(self, xs):
    return RT.np.array(xs)

  def floats(self, xs):
    return RT.np.array(xs, dtype=float)

  def list(self, xs):
    return PList(xs)

  # ---- sequences of unknown length ----------------------------------------------
  def length(self, name, lo=0, hi=8):
    return self.integer(name, lo)

  def seq(self, name, n, make):
    """List of n objects; make(element context) builds element i."""
    nt = term(n)

    def elem(i):
      return make(ElemCtx(self, name, i))
    s = FnSeq(nt, elem)
    s.closed = True
    return PList.of(s)

  def table(self, name, n, cols, make):
    nt = term(n)

    def elem(i):
      r = RT.np.array(make(ElemCtx(self, name, i)), dtype=float)
      if cols is not None:
        assert r.shape == (cols,)
        return r
      return r[()] if r.shape == () else r
    s = FnSeq(nt, elem)
    s.closed = True
    return SymArr.of(s, cols)

  def series(self, name, n, make):
    """One-dimensional array of n values."""
    nt = term(n)

    def elem(i):
      v = make(ElemCtx(self, name, i))
      return Sym(tm.real(num0(term(exact(v)))))
    s = FnSeq(nt, elem)
    s.closed = True
    return SymArr.of(s)

  def index(self, name, n, lo=0):
    """Arbitrary index: lo <= i < n."""
    v = self.integer(name, lo)
    ENG.assume(tm.lt(v.t, term(n)))
    return v

  def watch(self, i):
    """Loops that run to their end are known not to have left at iteration i."""
    ENG.reg.setdefault('watch', []).append(term(i))

  def each(self, name, n):
    """Generic index of a universally quantified statement; nothing if n = 0."""
    nt = term(n)
    if tm.is_num(nt):
      return list(range(int(tm.val(nt))))
    if not ENG.decide(tm.lt(I0, nt)):
      return []
    v = ENG.fresh(name, 'I')
    ENG.assume(tm.and_(tm.le(I0, v.t), tm.lt(v.t, nt)))
    return [v]

  def pose_at(self, p, t):
    """The pose of path p at time t.  Its definition (contracts/paths.py) is what the
    contract of interpolate_poses_from_samples is verified against; here it is a name."""
    t = Sym(tm.real(num0(term(exact(t)))))
    return [Sym(RT.loops.symbol('pose%d' % j, p, (t.t,), 'R')) for j in range(7)]

  def bisect(self, xs, x):
    """Number of elements of the increasing sequence below x."""
    return plain(Sym(RT.loops.bracket(xs, x)))

  @contextlib.contextmanager
  def stubs(self, m, optional=False, **fns):
    """Functions of a module replaced, while the block runs, by arbitrary functions of their
    arguments.  Nothing is concluded if the code under test does not call all of them."""
    g = m.__dict__
    old, calls = {}, set()

    def record(name, fn):
      def f(*a, **k):
        calls.add(name)
        return fn(*a, **k)
      return f
    for name, fn in fns.items():
      if name not in g:
        raise Unsupported('%s not found' % name)
      old[name] = g[name]
      g[name] = record(name, fn)
      ENG.assumed.add('%s.%s: depends only on its arguments and changes nothing' % (m.__name__, name))
    try:
      yield
      if len(calls) != len(fns) and not optional:
        raise Unsupported('not called: %s' % ', '.join(sorted(set(fns) - calls)))
    finally:
      g.update(old)

  @contextlib.contextmanager
  def loop_contract(self, fid, contract):
    """The outermost loop of a function that assigns all the names of the contract is
    replaced by its stated invariant."""
    cs = RT.loops.contracts
    contract.running, contract.used = False, False
    if not fid.startswith('hand_eye_calibration.'):
      fid = 'hand_eye_calibration.' + fid
    cs[fid] = contract
    try:
      yield
    finally:
      del cs[fid]

  def same(self, a, b):
    """Syntactically the same value."""
    return same_value(a, b)

  def fresh_seq(self, hint, n, make):
    """A sequence of arbitrary values."""
    return self.seq(ENG.fresh_name(hint), n, make)

  def fresh_real(self, hint, lo=None):
    v = ENG.fresh(hint)
    if lo is not None:
      ENG.assume(tm.le(term(exact(lo)), v.t))
    return v

  def fresh_integer(self, hint, lo=None):
    v = ENG.fresh(hint, 'I')
    if lo is not None:
      ENG.assume(tm.le(term(lo), v.t))
    return v

  def fresh_bool(self, hint):
    return Sym(tm.var(ENG.fresh_name(hint), 'B'))

  def fresh_motion(self, hint):
    """An arbitrary unit dual quaternion."""
    return self.dq8(ENG.fresh_name(hint))

  def either(self, hint):
    """Both cases are considered."""
    return ENG.decide(tm.var(ENG.fresh_name(hint), 'B'))

  def unsupported(self, what):
    raise Unsupported(what)

  def combinations(self):
    """The sequences of combinations made so far."""
    return ENG.reg.get('combinations', [])

  def copy(self, x):
    return deep_copy(x)

  def kept(self, flags):
    """How many flags hold."""
    return Sym(seq_len(RT.loops.compress(flags, flags)))

  def stop(self):
    """Nothing is claimed about this path."""
    raise PathEnd()

  def key(self, *xs):
    """A name for the arguments of an arbitrary function, and its numbers."""
    names = [RT.loops.content(x) for x in xs if is_symseq(x)]
    return '|'.join(names), tuple(tm.real(num0(term(exact(x)))) for x in xs if not is_symseq(x))

  def value(self, name, key, index=None):
    """A number that depends on the arguments."""
    i = () if index is None else (term(index),)
    return Sym(tm.app('%s#%s' % (name, key[0]), key[1] + i, 'R'))

  def count(self, name, key, lo):
    v = Sym(tm.app('%s#%s' % (name, key[0]), key[1], 'I'))
    ENG.assume(tm.le(term(lo), v.t))
    return v

  def null_space(self, v, first, rows):
    """The right singular vectors from the first one on are these combinations of null vectors."""
    ENG.assumed.add('numpy.linalg.svd: the right singular vectors of the zero singular values are '
                    'independent combinations of any basis of the null space')
    known = [k for k in ENG.reg['svd'] if np.array_equal(k[2], v)]
    for i, row in enumerate(rows):
      v[first + i] = known[-1][2][first + i] = row

  def orthonormal(self, rows):
    """Right singular vectors are orthonormal (trusted, like the decomposition itself)."""
    ENG.assumed.add('numpy.linalg.svd: the right singular vectors are orthonormal')
    for i, a in enumerate(rows):
      for j, b in enumerate(rows[:i + 1]):
        self.assume(sum((x * y for x, y in zip(a, b)), 0) == (1 if i == j else 0))

  def position(self, e):
    """The index of the element that is being built."""
    return Sym(e.i)

  def smooth(self, rows, k):
    """Mean of k rows around each row, as scipy.signal.correlate computes it."""
    return RT.loops.correlate(rows, RT.np.ones((k, 1)) / k, 'same')

  def consider(self, *indices):
    """Positions at which facts about all positions are wanted."""
    ENG.reg.setdefault('consider', []).extend(linnorm(term(i)) for i in indices)

  def cross(self, a, b, l):
    """Cross-correlation of a and b: the sum of a[i + l] b[i]."""
    return RT.loops.cross(a, b, term(l))

  def best_lag(self, a, b):
    """The one lag with the largest cross-correlation of a and b (assumed to exist)."""
    n, m = term(self.len(a)), term(self.len(b))
    best, l = ENG.fresh('lag', 'I'), tm.var(ENG.fresh_name('l'), 'I')
    ENG.assume(tm.and_(tm.lt(tm.neg(m), best.t), tm.lt(best.t, n)))
    at = l
    if RT.loops.cross(a, b, l).t.args[1] is not l:
      at = tm.neg(l)               # so that the pattern has no arithmetic
    x = RT.loops.cross(a, b, at).t
    ENG.assume(tm.forall((l,), tm.implies(tm.not_(tm.eq(at, best.t)),
                                          tm.lt(x, RT.loops.cross(a, b, best.t).t)), ((x,),)))
    return best

  def sum(self, name, n, f):
    return RT.loops.sum_fn(linnorm(term(n)), lambda i: f(Sym(i)))

  def len(self, x):
    if is_symseq(x):
      return plain(Sym(seq_len(x)))
    return len(x)

  def at(self, x, i):
    if is_symseq(x):
      return seq_get(x, term(i))
    if isinstance(i, Sym):
      return PList(list(x))[i]
    return x[i]

  def invariant(self, like, make, parts, start, step, facts=None):
    """Loop variables of the type of like are, after k iterations, make(x(k)), where
    the ghost sequence x is x(0) = start, x(k + 1) = step(k, x(k)).  facts(x) hold along."""
    v = Invariant(self, type(like), make, parts, start, step, facts or (lambda x: []))
    ENG.reg.setdefault('invariants', []).append(v)
    return v

  # ---- the outside world ------------------------------------------------------------
  def files(self):
    return Files()

  def opaque(self, name, *idx):
    """An arbitrary value whose text form is all that is used."""
    return world.Opaque('<%s%s>' % (name, ''.join('[%s]' % (i,) for i in idx)))

  def text(self, name):
    """An arbitrary text."""
    return world.OpaqueStr('<%s>' % name)

  # ---- assumptions and statements -------------------------------------------------
  def assume(self, cond):
    ENG.assume(as_bool_term(cond))

  def check(self, label, cond):
    ENG.oblige(label, as_bool_term(cond), stated=True)

  def fail(self, label):
    ENG.oblige(label, tm.FALSE, stated=True)

  def le(self, label, a, b, **k):
    self.check(label, mkbool(tm.le(term(exact(a)), term(exact(b)))))

  def lt(self, label, a, b, **k):
    self.check(label, mkbool(tm.lt(term(exact(a)), term(exact(b)))))

  def close(self, a, b, **k):
    return mkbool(tm.eq(num0(term(exact(a))), num0(term(exact(b)))))

  def eq(self, label, a, b, **k):
    for i, g in enumerate(eq_goals(a, b)):
      ENG.oblige(label if i == 0 else '%s [%d]' % (label, i), g, stated=True)

  def implies(self, a, b):
    return mkbool(tm.implies(as_bool_term(a), as_bool_term(b)))

  def or_(self, *xs):
    return mkbool(tm.or_(*[as_bool_term(x) for x in xs]))

  def and_(self, *xs):
    return mkbool(tm.and_(*[as_bool_term(x) for x in xs]))

  def iff(self, a, b):
    return mkbool(tm.iff(as_bool_term(a), as_bool_term(b)))

  def not_(self, a):
    return mkbool(tm.not_(as_bool_term(a)))

  def snap(self, *vs):
    return deep_copy(vs)

  def unchanged(self, label, snap, *vs, **k):
    for a, b in zip(snap, vs):
      self.eq(label, b, a)

  def disjoint(self, label, a, b):
    self.check(label, not share_memory(a, b))

  def raises(self, label, fn, *exc):
    """fn must be rejected (any exception of the given types, default Exception)."""
    try:
      fn()
    except (Unsupported, PathEnd, Enough):
      raise
    except (exc or (Exception,)):
      self.check(label, True)
      return
    self.check(label, False)

  def attempt(self, fn):
    """(True, value) or (False, exception)."""
    try:
      return True, fn()
    except (Unsupported, PathEnd, Enough):
      raise
    except Exception as e:
      return False, e

  # ---- mathematics ------------------------------------------------------------------
  @property
  def pi(self):
    return Sym(tm.PI)

  def sqrt(self, x):
    return sym_sqrt(x)

  def sin(self, x):
    return Sym(tm.sin(tm.real(num0(term(exact(x))))))

  def cos(self, x):
    return Sym(tm.cos(tm.real(num0(term(exact(x))))))

  def arccos(self, x):
    return Sym(tm.arccos(tm.real(num0(term(exact(x))))))

  def div(self, a, b):
    return h_div(a, b)

  def frac(self, a, b):
    return Sym(tm.num(Fraction(a, b)))

  def const(self, s):
    return Sym(tm.num(Fraction(s)))

  def is_true(self, cond):
    """Case split on a condition."""
    return ENG.decide(as_bool_term(cond))

  def is_finite(self, x):
    return True

  def lemma_fact(self, label, cond):
    """Proved, then available as a hypothesis."""
    ENG.oblige(label, as_bool_term(cond), keep=True)

  def have(self, label, cond, using=(), opaque=()):
    """Proved from the premises in using alone, then available as a hypothesis."""
    ENG.have(label, cond, using, opaque)

  def dot_is(self, label, a, b, value):
    """Proves that the product of two vectors has this value, and uses it from now on."""
    a, b = [np.array(list(x), dtype=object) for x in (a, b)]
    for x, y in ((a, b), (b, a)):
      t = term(np.dot(x, y))
      ENG.oblige(label, tm.eq(t, term(value)))
      ENG.reg.setdefault('dots', []).append((t, value))

  def known(self, cond):
    return solve.prove(ENG.facts, as_bool_term(cond), 1.0, want_model=False).status == 'proved'

  def name(self, hint, x):
    """A fresh symbol equal to x."""
    v = ENG.fresh(hint)
    ENG.assume(tm.eq(v.t, tm.real(num0(term(x)))))
    return v

  def sign(self, w):
    """-1 if w < 0, 1 otherwise."""
    return SpecCtx(self).sign(w)

  def math(self, name, x):
    """An instance of a fact about elementary functions (trusted, listed)."""
    if name == 'cos_lower':
      f = self.cos(x) >= 1 - x * x / 2
    elif name == 'arccos_small':       # for 0 <= x <= 1, by sin t >= 2 t / pi
      ENG.oblige('range of the arccos bound', self.and_(x >= 0, x <= 1))
      t = self.arccos(x)
      f = t * t <= (1 - x * x) * 24675 / 10000
    else:
      raise ValueError(name)
    ENG.assume(as_bool_term(f))
    ENG.assumed.add({'cos_lower': 'cos x >= 1 - x^2/2', 'arccos_small': 'arccos(x)^2 <= (pi^2/4)(1-x^2) on [0,1]'}[name])

  def skip(self):
    raise PathEnd()


class Invariant(object):
  """A ghost sequence of lists of numbers, defined by recursion."""

  def __init__(self, ctx, cls, make, parts, start, step, facts):
    self.ctx, self.cls = ctx, cls
    self.make, self.parts, self.start, self.step, self.facts = make, parts, list(start), step, facts
    self.name = ENG.fresh_name('ghost')
    for j, x in enumerate(self.start):
      tm.GIVEN['%s.%d' % (self.name, j), (I0,)] = tm.real(num0(term(exact(x))))

  def match(self, v):
    return type(v) is self.cls

  def __call__(self, k):
    """x(k)"""
    k = term(k)
    if tm.is_num(k) and tm.val(k) == 0:
      return list(self.start)
    x = [Sym(tm.app('%s.%d' % (self.name, j), (k,), 'R')) for j in range(len(self.start))]
    for f in self.facts(x):
      ENG.assume(as_bool_term(f))
    return x

  def next(self, k):
    """x(k + 1), unfolded"""
    return [Sym(tm.real(num0(term(exact(y))))) for y in self.step(Sym(term(k)), self(k))]

  def unfold(self, k):
    for a, b in zip(self(linnorm(tm.add(term(k), I1))), self.next(k)):
      ENG.assume(tm.eq(a.t, b.t))

  def at(self, k):
    return self.make(self(k))

  def check_start(self, name, v):
    self.ctx.eq('invariant of the loop at its start', self.parts(v), self.start)
    for f in self.facts(self.start):
      self.ctx.check('invariant of the loop at its start', f)

  def check_step(self, name, v, k):
    if not self.match(v):
      raise Unsupported('a loop variable changes its type')
    want = self.next(k)
    self.ctx.eq('invariant of the loop is preserved', self.parts(v), want)
    for f in self.facts(want):
      self.ctx.check('invariant of the loop is preserved', f)


class Files(object):
  """A ghost directory."""

  def __enter__(self):
    RT.world = self.w = world.World()
    return self

  def __exit__(self, *a):
    return False

  def path(self, name):
    return name

  def put_table(self, name, rows, text=None):
    self.w.files[name] = world.Table(rows.copy(), ',')

  def put_junk(self, name):
    self.w.files[name] = world.Junk()

  def mark(self, name):
    return self.w.files[name]

  def same(self, name, mark):
    return self.w.files[name] is mark

  def table(self, name):
    c = self.w.files[name]
    if not isinstance(c, world.Table):
      raise ValueError('not a table')
    return c.rows

  def json(self, name):
    c = self.w.files[name]
    if not isinstance(c, world.Json):
      raise ValueError('not a JSON document')
    return c.tree


class ElemCtx(object):
  """Draws the components of element i of a sequence: functions of the index."""
  symbolic = True

  def __init__(self, ctx, name, i):
    self.ctx = ctx
    self.name = name
    self.i = i

  def _app(self, n, sort='R'):
    t = tm.app('%s.%s' % (self.name, n), (self.i,), sort)
    return Sym(t)

  def real(self, n, lo=None, hi=None, nonzero=False, **hint):
    v = self._app(n)
    if lo is not None:
      ENG.assume(tm.le(term(exact(lo)), v.t))
    if hi is not None:
      ENG.assume(tm.le(v.t, term(exact(hi))))
    if nonzero:
      ENG.assume(tm.not_(tm.eq(v.t, tm.ZERO)))
    return v

  def reals(self, n, k, **hint):
    return [self._app('%s.%d' % (n, j)) for j in range(k)]

  def unit(self, n, k, **hint):
    v = self.reals(n, k)
    s = tm.ZERO
    for x in v:
      s = tm.add(s, tm.mul(x.t, x.t))
    ENG.assume(tm.eq(s, tm.ONE))
    return v

  def dq8(self, n, **hint):
    r = self.unit(n + '.r', 4)
    d = self.reals(n + '.d', 4)
    ENG.assume(as_bool_term(sum((a * b for a, b in zip(r, d)), 0) == 0))
    return list(r) + list(d)

  def boolean(self, n):
    return mkbool(tm.app('%s.%s' % (self.name, n), (self.i,), 'B'))

  def integer(self, n, lo=None, hi=None, **hint):
    v = self._app(n, 'I')
    if lo is not None:
      ENG.assume(tm.le(term(lo), v.t))
    if hi is not None:
      ENG.assume(tm.le(v.t, term(hi)))
    return v

  def stamp(self, n, lo=None, **hint):
    """Strictly increasing with the index."""
    v = self._app(n)
    RT.loops.increasing(v.t)
    return v

  @property
  def idx(self):
    return Sym(self.i)

  def assume(self, cond):
    ENG.assume(as_bool_term(cond))

  def __getattr__(self, n):
    return getattr(self.ctx, n)


def eq_goals(a, b):
  """Component-wise equality goals of two values; [FALSE] on a shape mismatch."""
  if isinstance(a, Sym) or isinstance(b, Sym):
    if not is_number(a) and not (isinstance(a, np.ndarray) and a.shape == ()):
      return [tm.FALSE]
    if not is_number(b) and not (isinstance(b, np.ndarray) and b.shape == ()):
      return [tm.FALSE]
    ta = term(a[()] if isinstance(a, np.ndarray) else exact(a))
    tb = term(b[()] if isinstance(b, np.ndarray) else exact(b))
    if ta.sort == 'B' or tb.sort == 'B':
      if ta.sort == 'B' and tb.sort == 'B':
        return [tm.iff(ta, tb)]
      return [tm.eq(num0(ta), num0(tb))]
    return [tm.eq(ta, tb)]
  if a is None or b is None or isinstance(a, (str, type)) or isinstance(b, (str, type)):
    return [tm.TRUE if a is b or a == b else tm.FALSE]
  if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
    if is_number(a) and is_number(b):
      return [tm.eq(num0(term(a)), num0(term(b)))]
    return [tm.FALSE]
  if is_number(a) and is_number(b):
    fa, fb = isinstance(a, float), isinstance(b, float)
    if (fa and (a != a or abs(a) == float('inf'))) or (fb and (b != b or abs(b) == float('inf'))):
      return [tm.TRUE if a == b else tm.FALSE]
    return [tm.eq(term(exact(a)), term(exact(b)))]
  if is_symseq(a) or is_symseq(b):
    return seq_goals(a, b)
  if isinstance(a, (np.ndarray, list, tuple)) and isinstance(b, (np.ndarray, list, tuple)):
    xa, xb = list(a), list(b)
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape != b.shape:
      return [tm.FALSE]
    if len(xa) != len(xb):
      return [tm.FALSE]
    out = []
    for x, y in zip(xa, xb):
      out += eq_goals(x, y)
    return out or [tm.TRUE]
  if isinstance(a, dict) and isinstance(b, dict):
    if a.keys() != b.keys():
      return [tm.FALSE]
    out = []
    for k in a:
      out += eq_goals(a[k], b[k])
    return out or [tm.TRUE]
  if is_obj(a) and is_obj(b):
    if a.__class__ is not b.__class__:
      return [tm.FALSE]
    return eq_goals(dict(a.__dict__), dict(b.__dict__))
  return [tm.TRUE if a is b else tm.FALSE]


def seq_goals(a, b):
  if not (is_symseq(a) or isinstance(a, (list, tuple, np.ndarray))) or \
      not (is_symseq(b) or isinstance(b, (list, tuple, np.ndarray))):
    return [tm.FALSE]
  if isinstance(a, PList) and isinstance(b, PList) and a.sym is not None and b.sym is not None and \
      a.sym.base is b.sym.base and not a.sym.tail and not b.sym.tail and \
      not a.sym.changed_entries() and not b.sym.changed_entries():
    return [tm.TRUE]
  if isinstance(a, SymArr) and isinstance(b, SymArr) and a.store.base is b.store.base and \
      not a.store.tail and not b.store.tail and a.sel == b.sel and a.start is b.start and \
      a.length is b.length and not a.store.changed_entries() and not b.store.changed_entries():
    return [tm.TRUE]
  na, nb = seq_len(a), seq_len(b)
  ENG.oblige('lengths agree', tm.eq(na, nb))
  if not ENG.decide(tm.lt(I0, na)):
    return [tm.TRUE]
  i = ENG.fresh('g', 'I').t
  ENG.assume(tm.and_(tm.le(I0, i), tm.lt(i, na)))
  return eq_goals(seq_get(a, i), seq_get(b, i))


# ---------------------------------------------------------------------------
# contracts at call sites

class SpecCtx(object):
  """What a contract's specification may use."""

  def __init__(self, ctx):
    self.ctx = ctx
    self.np = RT.np

  def mod(self, n):
    return self.ctx.mod(n)

  def quat(self, xs):
    Q = self.mod('quaternion').Quaternion
    o = Q.__new__(Q)
    o.q = RT.np.array(list(xs), dtype=float)
    return o

  def dq(self, xs):
    D = self.mod('dual_quaternion').DualQuaternion
    o = D.__new__(D)
    o.dq = RT.np.array(list(xs), dtype=float)
    return o

  def sqrt(self, x):
    return sym_sqrt(x)

  def root(self, x):
    """Square root; that of a square is found by going through the signs."""
    t = tm.real(num0(term(x)))
    try:
      pc = solve.poly_ctx(solve.relevant(ENG.facts, tm.eq(t, tm.ZERO)), 1.0)
      n, d = pc.conv(t)
    except (solve.TooBig, RecursionError):
      return sym_sqrt(x)
    if d or len(n) != 1:
      return sym_sqrt(x)
    (m, k), = n.items()
    k = tm._isqrt_frac(k) if k > 0 else None
    if k is None or any(e % 2 for _, e in m):
      return sym_sqrt(x)
    r = Sym(tm.num(k))
    for i, e in m:
      for _ in range(e // 2):
        r = r * Sym(pc.atom_term[i])
    return -r if m and ENG.decide(as_bool_term(r < 0)) else r

  def arccos(self, x):
    return self.ctx.arccos(x)

  def div(self, a, b):
    return h_div(a, b)

  def array(self, xs):
    return RT.np.array(xs, dtype=float)

  def is_quat(self, q):
    return type(q).__name__ == 'Quaternion' and isinstance(getattr(q, 'q', None), np.ndarray) and \
        q.q.dtype == object and q.q.shape == (4,)

  def is_dq(self, q):
    return type(q).__name__ == 'DualQuaternion' and isinstance(getattr(q, 'dq', None), np.ndarray) \
        and q.dq.dtype == object and q.dq.shape == (8,)

  def is_array(self, x, n):
    return isinstance(x, np.ndarray) and x.dtype == object and x.shape == (n,)

  def is_list(self, x):
    return isinstance(x, PList) and is_symseq(x)

  def len(self, x):
    return self.ctx.len(x)

  def at(self, x, i):
    return self.ctx.at(x, i)

  def copy(self, x):
    return deep_copy(x)

  def and_(self, *xs):
    return self.ctx.and_(*xs)

  def const(self, x):
    return self.ctx.const(x)

  def known(self, cond):
    """Does the condition follow from what is known?"""
    return solve.prove(ENG.facts, as_bool_term(cond), 1.0, want_model=False).status == 'proved'

  def is_zero(self, x):
    t = tm.real(num0(term(x)))
    return tm.is_num(t) and tm.val(t) == 0 or solve.entails_eq(ENG.facts, t, tm.ZERO)

  def is_num(self, x):
    return is_number(x) and not isinstance(x, (bool, np.bool_))

  def is_true(self, cond):
    return ENG.decide(as_bool_term(cond))

  def require(self, label, cond):
    ENG.oblige(label, as_bool_term(cond))

  def fact(self, cond):
    ENG.assume(as_bool_term(cond))

  def is_one(self, x):
    """Known to be 1 (a simplification; nothing is assumed)."""
    t = tm.real(num0(term(x)))
    if tm.is_num(t):
      return tm.val(t) == 1
    return solve.entails_eq(ENG.facts, t, tm.ONE)

  def fresh(self, hint, sort='R'):
    return ENG.fresh(hint, sort)

  def sign(self, w):
    """-1 if w < 0, 1 otherwise."""
    t = tm.real(num0(term(w)))
    if tm.is_num(t):
      return -1 if tm.val(t) < 0 else 1
    g = tm.app('sign', (t,), 'R')
    if not any(x is g for x in ENG.reg.setdefault('sign', [])):
      ENG.reg['sign'].append(g)
      ENG.assume(tm.eq(tm.mul(g, g), tm.ONE))
      ENG.assume(tm.le(tm.ZERO, tm.mul(g, t)))
      ENG.assume(tm.iff(tm.lt(t, tm.ZERO), tm.eq(g, tm.num(-1, 'R'))))
      ENG.assume(tm.iff(tm.le(tm.ZERO, t), tm.eq(g, tm.ONE)))
    return Sym(g)

  def forall(self, x, cond):
    """Is cond(element) known to hold for all elements?"""
    q = as_seq(x)
    return RT.loops.for_all(q.length, lambda i: cond(q.elem(i)), 1.0)

  def seq(self, n, fn):
    """List of n elements fn(0), fn(1), ..."""
    return PList.of(FnSeq(term(n), lambda i: fn(Sym(i))))

  def table(self, n, cols, fn):
    """Array of n rows of cols numbers."""
    return SymArr.of(FnSeq(term(n), lambda i: RT.np.array(fn(Sym(i)), dtype=float)), cols)

  def is_table(self, x, cols):
    return isinstance(x, SymArr) and x.ndim == 2 and x.ncols == cols

  def is_series(self, x):
    return isinstance(x, SymArr) and x.ndim == 1

  def bisect(self, xs, x):
    return self.ctx.bisect(xs, x)

  def pose_at(self, p, t):
    return self.ctx.pose_at(p, t)

  def or_(self, *xs):
    return self.ctx.or_(*xs)

  def require_all(self, label, x, cond):
    q = x.seq()
    RT.loops.require_all(label, linnorm(q.length), lambda i: cond(q.elem(i)))

  def require_sorted(self, label, x):
    q = x.seq()
    n = linnorm(tm.sub(q.length, I1))
    RT.loops.require_all(label, n, lambda i: q.elem(i) < q.elem(linnorm(tm.add(i, I1))))

  def value(self, hint, xs):
    """An unnamed function of the numbers xs."""
    return Sym(tm.app(hint, tuple(tm.real(num0(term(x))) for x in xs), 'R'))

  def name(self, hint, x):
    """A fresh symbol equal to x."""
    v = ENG.fresh(hint)
    ENG.assume(tm.eq(v.t, tm.real(num0(term(x)))))
    return v


NA = object()


class Applied(object):

  def __init__(self, c, sctx):
    self.c = c
    self.s = sctx

  def applicable(self, args):
    try:
      return bool(self.c.pre(self.s, *self.values(args)))
    except TypeError:
      return False

  def values(self, args):
    return [v for k, v in args.items() if not k.startswith('__')]

  def apply(self, args):
    return self.c.spec(self.s, *self.values(args))


def verify_contract(ctx, interp, c):
  """The body satisfies the contract: same result, same effect on the arguments,
  no shared storage beyond what the contract shows, same rejection."""
  s = SpecCtx(ctx)

  def go():
    args = c.domain(ctx)
    body_args = deep_copy(args)
    spec_args = deep_copy(args)
    fid = c.fid
    call_args = dict(zip(params(interp, fid), body_args))
    if not c.pre(s, *args):
      raise Unsupported('contract domain outside of its precondition')
    short = fid.split(':')[1]
    if c.verify is not None:
      def run(xs):
        return interp.run_body(fid, defaults(ctx, interp, fid, dict(zip(params(interp, fid), xs))))
      c.verify(ctx, run, body_args)
      ctx.eq('%s does not change its arguments' % short, list(body_args), list(args))
      return
    want = c.spec(s, *spec_args)
    got = interp.run_body(fid, defaults(ctx, interp, fid, call_args))
    ctx.eq('%s returns what its contract states' % short, got, want)
    ctx.eq('%s changes its arguments only as its contract states' % short,
           list(body_args), list(spec_args))
    if share_memory(want, spec_args) is False:
      ctx.check('%s: the result shares no storage with the arguments' % short,
                not share_memory(got, body_args))
  return go


def params(interp, fid):
  a = interp.functions[fid].node.args
  return [x.arg for x in a.posonlyargs + a.args]


def defaults(ctx, interp, fid, args):
  fn = interp.functions[fid]
  a = fn.node.args
  names = [x.arg for x in a.posonlyargs + a.args]
  g = interp.mod_globals[fn.modname]
  for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
    if n not in args:
      args[n] = eval(compile(__import__('ast').Expression(body=d), '<default>', 'eval'), g)
  return args
