"""Discharging obligations: polynomial normal forms, z3, cvc5."""
import os
import time
import math
from fractions import Fraction

import z3

from pyvc import poly
from pyvc import terms as tm
from pyvc.poly import PolyCtx, TooBig

STATS = {'poly': 0, 'z3': 0, 'cvc5': 0, 'trivial': 0, 'time': 0.0, 'queries': 0}


class Z3Ctx(object):

  def __init__(self, abstract=False):
    self.memo = {}
    self.axioms = []
    self.fresh = 0
    self.abstract = abstract
    self.bools = {}
    self.atoms_trig = {}
    self.arccos = {}
    self.plain = PolyCtx([])
    self.varmap = {}
    self.bound = []

  def _check_bound(self, t):
    # A definition or abstraction may not hide a bound variable.
    if self.bound and any(tm.free_in(t, v) for v in self.bound):
      raise ValueError('nonlinear term under a quantifier')

  def name(self, p):
    self.fresh += 1
    return '%s!%d' % (p, self.fresh)

  def conv(self, t):
    r = self.memo.get(t.id)
    if r is None:
      r = self._conv(t)
      self.memo[t.id] = r
    return r

  def _nonlinear(self, t):
    """Does an arithmetic atom contain anything beyond linear arithmetic?"""
    for s in tm.subterms([t]):
      if s.op == 'mul' and not any(tm.is_num(a) for a in s.args):
        return True
      if s.op in ('div', 'sqrt', 'sin', 'cos', 'arccos', 'lsum'):
        return True
    return False

  def _arccos_key(self, t):
    """Equal for arguments that are equal as polynomials up to sign."""
    try:
      n, d = self.plain.conv(t)
    except (TooBig, RecursionError):
      return t.id, False
    negated = bool(n) and n[min(n)] < 0
    return (poly.key(poly.pscale(n, -1) if negated else n), self.plain._denkey(d)), negated

  def _sort(self, s):
    return {'R': z3.RealSort(), 'I': z3.IntSort(), 'B': z3.BoolSort()}[s]

  def _conv(self, t):
    o = t.op
    a = t.args
    if o == 'true':
      return z3.BoolVal(True)
    if o == 'false':
      return z3.BoolVal(False)
    if o == 'num':
      if t.sort == 'I':
        return z3.IntVal(int(a[0]))
      return z3.RealVal(str(a[0]))
    if o == 'var':
      v = z3.Const(a[0], self._sort(t.sort))
      self.varmap[t] = v
      if t is tm.PI:
        self.axioms.append(z3.And(v > z3.RealVal('3.14159265'), v < z3.RealVal('3.14159266')))
      return v
    if o == 'app':
      xs = [self.conv(x) for x in a[1:]]
      f = z3.Function(a[0] if isinstance(a[0], str) else str(a[0]),
                      *([x.sort() for x in xs] + [self._sort(t.sort)]))
      r = f(*xs)
      self.varmap[t] = r
      return r
    if o in ('eq', 'le', 'lt') and self.abstract and self._nonlinear(t):
      self._check_bound(t)
      return z3.Bool('abs!%d' % t.id)
    if o in ('div', 'sqrt', 'sin', 'cos', 'arccos', 'lsum'):
      self._check_bound(t)
    if o == 'add':
      return self.conv(a[0]) + self.conv(a[1])
    if o == 'neg':
      return -self.conv(a[0])
    if o == 'mul':
      return self.conv(a[0]) * self.conv(a[1])
    if o == 'div':
      x, y = self.conv(a[0]), self.conv(a[1])
      r = z3.Real(self.name('q'))
      self.axioms.append(z3.Implies(y != 0, r * y == x))
      return r
    if o == 'idiv':
      return self.conv(a[0]) / self.conv(a[1])
    if o == 'imod':
      return self.conv(a[0]) % self.conv(a[1])
    if o == 'floor':
      return z3.ToInt(self.conv(a[0]))
    if o == 'toreal':
      return z3.ToReal(self.conv(a[0]))
    if o == 'sqrt':
      x = self.conv(a[0])
      r = z3.Real(self.name('sqrt'))
      self.axioms.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
      return r
    if o in ('sin', 'cos'):
      x = self.conv(a[0])
      k = a[0].id
      if k not in self.atoms_trig:
        s, c = z3.Real(self.name('sin')), z3.Real(self.name('cos'))
        self.atoms_trig[k] = (s, c)
        self.axioms += [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1,
                        z3.Implies(x >= 0, s <= x),
                        z3.Implies(z3.And(x > 0, x < z3.RealVal('3.14159265')), s > 0),
                        z3.Implies(z3.And(x > z3.RealVal('3.14159266'), x < z3.RealVal('6.2831853')), s < 0),
                        c >= 1 - x * x / 2,
                        z3.Implies(x == 0, z3.And(s == 0, c == 1)),
                        z3.Implies(z3.And(x >= 0, x < z3.RealVal('1.570796')), c > 0)]
      return self.atoms_trig[k][0 if o == 'sin' else 1]
    if o == 'arccos':
      pi = self.conv(tm.PI)
      k, negated = self._arccos_key(a[0])
      if k in self.arccos:
        return pi - self.arccos[k] if negated else self.arccos[k]
      x = self.conv(tm.neg(a[0]) if negated else a[0])
      r = z3.Real(self.name('acos'))
      self.arccos[k] = r
      self.axioms.append(z3.Implies(z3.And(x <= 1, x >= -1), z3.And(
          r >= 0, r <= pi, z3.Implies(x == 1, r == 0), z3.Implies(x < 1, r > 0),
          z3.Implies(r == 0, x == 1), z3.Implies(r == pi, x == -1), z3.Implies(x == -1, r == pi),
          z3.Implies(x >= 0, r <= pi / 2), z3.Implies(x <= 0, r >= pi / 2),
          # t <= pi/2 sin t on [0, pi/2], squared
          z3.Implies(x >= 0, r * r <= z3.RealVal('2.4675') * (1 - x * x)))))
      return pi - r if negated else r
    if o == 'eq':
      return self.conv(a[0]) == self.conv(a[1])
    if o == 'le':
      return self.conv(a[0]) <= self.conv(a[1])
    if o == 'lt':
      return self.conv(a[0]) < self.conv(a[1])
    if o == 'not':
      return z3.Not(self.conv(a[0]))
    if o == 'and':
      return z3.And([self.conv(x) for x in a])
    if o == 'or':
      return z3.Or([self.conv(x) for x in a])
    if o == 'iff':
      return self.conv(a[0]) == self.conv(a[1])
    if o == 'ite':
      return z3.If(self.conv(a[0]), self.conv(a[1]), self.conv(a[2]))
    if o == 'lsum':
      return z3.Const('lsum!%d' % t.id, self._sort(t.sort))
    if o == 'forall':
      bvs, body, pats = a
      vs = [self.conv(v) for v in bvs]
      self.bound.extend(bvs)
      b = self.conv(body)
      del self.bound[-len(bvs):]
      ps = [z3.MultiPattern(*[self.conv(p) for p in pp]) for pp in pats]
      return z3.ForAll(vs, b, patterns=ps) if ps else z3.ForAll(vs, b)
    raise ValueError('no z3 translation for ' + o)


def _has_int(ts):
  return any(s.sort == 'I' for s in tm.subterms(ts))


class Result(object):

  def __init__(self, status, how, model=None, detail='', wall=0.0):
    self.status = status      # 'proved' | 'refuted' | 'unknown'
    self.how = how
    self.model = model
    self.detail = detail
    self.wall = wall


_atoms = {}


def atoms(t):
  r = _atoms.get(t.id)
  if r is None:
    r = frozenset(s.id for s in tm.subterms([t]) if s.op in ('var', 'app') and s is not tm.PI)
    _atoms[t.id] = r
  return r


def relevant(facts, goal, depth=99):
  """Facts connected to the goal through shared variables."""
  pend = [(f, atoms(f)) for f in facts]
  seen = set(atoms(goal))
  out = []
  changed = True
  while changed and depth > 0:
    depth -= 1
    changed = False
    rest = []
    new = set()
    for f, a in pend:
      if not a or a & seen:
        out.append(f)
        new |= a
        changed = True
      else:
        rest.append((f, a))
    seen |= new
    pend = rest
  order = {f.id: i for i, f in enumerate(facts)}
  out.sort(key=lambda f: order[f.id])
  return out


def model_values(zc, m):
  out = {}
  for t, v in zc.varmap.items():
    try:
      x = m.eval(v, model_completion=True)
      if z3.is_int_value(x):
        out[t] = x.as_long()
      elif z3.is_rational_value(x):
        out[t] = float(x.as_fraction())
      elif z3.is_algebraic_value(x):
        out[t] = float(x.approx(20).as_fraction())
      elif z3.is_true(x):
        out[t] = True
      elif z3.is_false(x):
        out[t] = False
    except Exception:
      pass
  return out


def z3_check(facts, extra, timeout, abstract=False, nlsat=False):
  try:
    return _z3_check(facts, extra, timeout, abstract, nlsat)
  except ValueError:
    return 'unknown', None


def _z3_check(facts, extra, timeout, abstract=False, nlsat=False):
  """Satisfiability of facts and extra.  Returns (result string, model)."""
  zc = Z3Ctx(abstract)
  fs = [zc.conv(f) for f in facts]
  es = [zc.conv(e) for e in extra]
  if nlsat:
    s = z3.Tactic('qfnra-nlsat').solver()
  else:
    s = z3.Solver()
  s.set('timeout', int(timeout * 1000))
  for x in fs + es + zc.axioms:
    s.add(x)
  STATS['queries'] += 1
  t = time.time()
  try:
    r = s.check()
  except z3.Z3Exception:
    return 'unknown', None
  finally:
    STATS['time'] += time.time() - t
  if r == z3.sat:
    return 'sat', model_values(zc, s.model())
  if r == z3.unsat:
    return 'unsat', None
  return 'unknown', None


class MonoCtx(object):
  """Linear view of polynomial atoms: normal forms modulo the equalities among the
  hypotheses, every non-linear monomial a variable of its own.  Unsatisfiability
  of this view is a proof; satisfiability means nothing."""

  def __init__(self, pc):
    self.pc = pc
    self.vars = {}
    self.axioms = []
    self.bools = {}

  def mono(self, m):
    v = self.vars.get(m)
    if v is None:
      v = z3.Real('m!%d' % len(self.vars))
      self.vars[m] = v
      if all(e % 2 == 0 for _, e in m):
        self.axioms.append(v >= 0)
      if len(m) == 1:
        i, e = m[0]
        t = self.pc.atom_term[i]
        if t.op == 'sqrt':
          self.axioms.append(v >= 0)
          if e == 1:
            n, d = self.pc.sq[i]
            if not d:
              x = self.poly(n)
              self.axioms.append(z3.Implies(v == 0, x == 0))
              self.axioms.append(z3.Implies(x == 0, v == 0))
        elif t.op in ('sin', 'cos'):
          self.axioms += [v <= 1, v >= -1]
        elif t is tm.PI and e == 1:
          self.axioms += [v > z3.RealVal('3.14159265'), v < z3.RealVal('3.14159266')]
        elif t.op == 'arccos' and e == 1:
          self.axioms += [v >= 0, v < z3.RealVal('3.14159266')]
          x = self.pc.conv(t.args[0])
          if not x[1]:
            self.axioms += [z3.Implies(self.poly(x[0]) == 1, v == 0),
                            z3.Implies(self.poly(x[0]) < 1, v > 0)]
    return v

  def poly(self, p):
    r = z3.RealVal(0)
    for m, c in sorted(p.items()):
      k = z3.RealVal(str(c))
      r = r + (k if not m else k * self.mono(m))
    return r

  def atom(self, t):
    n, d = self.pc.conv(tm.sub(t.args[0], t.args[1]))
    n = self.pc.reduce(n)
    if t.op != 'eq':
      for k, (p, e) in d.items():
        if e % 2 and not self.positive(p):
          return z3.Bool('abs!%d' % t.id)
    x = self.poly(n)
    if t.op == 'eq':
      return x == 0
    return x <= 0 if t.op == 'le' else x < 0

  def positive(self, p):
    """A sum of squares (with non-negative constant) that is not zero as a divisor."""
    for m, c in p.items():
      if c < 0:
        return False
      for i, e in m:
        if e % 2 and self.pc.atom_term[i].op != 'sqrt':
          return False
    return True

  def conv(self, t):
    o = t.op
    if o == 'true':
      return z3.BoolVal(True)
    if o == 'false':
      return z3.BoolVal(False)
    if o in ('eq', 'le', 'lt') and t.args[0].sort in ('R', 'I'):
      return self.atom(t)
    if o == 'not':
      return z3.Not(self.conv(t.args[0]))
    if o == 'and':
      return z3.And([self.conv(x) for x in t.args])
    if o == 'or':
      return z3.Or([self.conv(x) for x in t.args])
    if o == 'iff':
      return self.conv(t.args[0]) == self.conv(t.args[1])
    return z3.Bool('abs!%d' % t.id)


def mono_check(facts, extra, timeout, budget=5.0):
  """'unsat' if the linear view is contradictory, else 'unknown'."""
  if any(s.op == 'ite' and s.sort != 'B' for s in tm.subterms(list(facts) + list(extra))):
    return 'unknown'
  t = time.time()
  try:
    pc = poly_ctx(facts, budget)
    mc = MonoCtx(pc)
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    for f in list(facts) + list(extra):
      if f.op == 'forall':
        continue
      s.add(mc.conv(f))
    for ax in mc.axioms:
      s.add(ax)
    STATS['queries'] += 1
    return 'unsat' if s.check() == z3.unsat else 'unknown'
  except (TooBig, RecursionError, ValueError, z3.Z3Exception):
    return 'unknown'
  finally:
    STATS['time'] += time.time() - t


_feas_cache = {}
_feas_all = {}


def feasible(facts, cond, timeout=0.4):
  """False only if facts and cond are contradictory."""
  if cond is tm.FALSE:
    return False
  if cond is tm.TRUE:
    return True
  k0 = (tuple(f.id for f in facts), cond.id)
  r = _feas_all.get(k0)
  if r is not None:
    return r
  fs = relevant(facts, cond)
  k = (tuple(sorted(f.id for f in fs)), cond.id)
  r = _feas_cache.get(k)
  if r is None:
    # cheap linear abstraction first
    res, _ = z3_check(fs, [cond], timeout, abstract=True)
    if res == 'unsat':
      r = False
    elif any(s.op in ('mul', 'sqrt', 'div') for s in tm.subterms(fs + [cond])) and \
        mono_check(fs, [cond], timeout) == 'unsat':
      r = False
    else:
      res, _ = z3_check(fs, [cond], timeout)
      r = res != 'unsat'
    _feas_cache[k] = r
  _feas_all[k0] = r
  return r


def cvc5_check(facts, extra, timeout):
  """Second opinion through SMT-LIB text."""
  import subprocess
  zc = Z3Ctx()
  s = z3.Solver()
  try:
    for f in list(facts) + list(extra):
      s.add(zc.conv(f))
  except ValueError:
    return 'unknown'
  for ax in zc.axioms:
    s.add(ax)
  txt = '(set-logic ALL)\n' + s.to_smt2()
  t = time.time()
  try:
    p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), '--nl-cov', '-'],
                       input=txt.encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, timeout=timeout + 5)
    out = p.stdout.decode().strip().splitlines()
    return out[0] if out else 'unknown'
  except Exception:
    return 'unknown'
  finally:
    STATS['time'] += time.time() - t


_poly_cache = {}


def poly_ctx(facts, budget):
  k = tuple(f.id for f in facts)
  c = _poly_cache.get(k)
  if c is None:
    if len(_poly_cache) > 64:
      _poly_cache.clear()
    c = PolyCtx(facts, budget)
    _poly_cache[k] = c
  c.deadline = time.time() + budget
  return c


def entails_eq(facts, a, b, budget=2.0):
  """Is a = b a consequence by polynomial normal forms alone?"""
  goal = tm.eq(a, b)
  if goal is tm.TRUE or goal in facts:
    return True
  if goal.op != 'eq':
    return False
  try:
    return poly_ctx(relevant(facts, goal), budget).is_zero(tm.sub(goal.args[0], goal.args[1]))
  except (TooBig, RecursionError):
    return False


_proved = {}


def prove(facts, goal, timeout=10.0, poly_budget=20.0, want_model=True):
  """Is goal a consequence of facts?"""
  k = (tuple(f.id for f in facts), goal.id, timeout)
  r = _proved.get(k)
  if r is None:
    r = _proved[k] = _prove(facts, goal, timeout, poly_budget, want_model)
  return r


def quotient(goal):
  """A sufficient condition of 0 <= k / d for a constant k >= 0."""
  if goal.op == 'le' and goal.args[0].op == 'num' and goal.args[0].args[0] <= 0 and goal.args[1].op == 'div':
    k, d = goal.args[1].args
    if k.op == 'num' and k.args[0] >= 0:
      return tm.lt(tm.ZERO, d)
  return None


def _prove(facts, goal, timeout, poly_budget, want_model):
  t0 = time.time()

  def done(status, how, model=None, detail=''):
    if status == 'proved':
      STATS[how.split(':')[0]] = STATS.get(how.split(':')[0], 0) + 1
    return Result(status, how, model, detail, time.time() - t0)

  if goal is tm.TRUE or goal in facts:
    return done('proved', 'trivial')
  if goal.op == 'and':
    r = None
    for g in goal.args:
      r = prove(facts, g, timeout, poly_budget, want_model)
      if r.status != 'proved':
        return r
    return r
  if goal.op == 'eq' and goal.args[0].sort in ('R', 'I'):
    t = time.time()
    rel = relevant(facts, goal)
    try:
      ok = poly_ctx(rel, poly_budget).is_zero(tm.sub(goal.args[0], goal.args[1]))
    except (TooBig, RecursionError):
      ok = False
    STATS['time'] += time.time() - t
    if ok:
      return done('proved', 'poly')
  rel = relevant(facts, goal)
  q = quotient(goal)
  if q is not None and q in facts:
    return done('proved', 'trivial')
  ng = tm.not_(goal)
  # propositional/linear abstraction, cheap and complete for many side goals
  res, _ = z3_check(rel, [ng], min(timeout, 2.0), abstract=True)
  if res == 'unsat':
    return done('proved', 'z3:abs')
  if mono_check(rel, [ng], min(timeout, 2.0)) == 'unsat':
    return done('proved', 'z3:mono')
  # near hypotheses only, then everything
  near = relevant(facts, goal, depth=1)
  if len(near) < len(rel):
    res, _ = z3_check(near, [ng], min(timeout, 3.0))
    if res == 'unsat':
      return done('proved', 'z3')
  res, model = z3_check(rel, [ng], timeout)
  if res == 'unsat':
    return done('proved', 'z3')
  if res == 'sat':
    return done('refuted', 'z3', model)
  if not any(s.op == 'forall' for s in tm.subterms(list(rel) + [ng])) and not _has_int(list(rel) + [ng]):
    res, model = z3_check(rel, [ng], timeout, nlsat=True)
    if res == 'unsat':
      return done('proved', 'z3')
    if res == 'sat':
      return done('refuted', 'z3', model)
  if timeout >= 5:
    res = cvc5_check(rel, [ng], timeout)
    if res == 'unsat':
      return done('proved', 'cvc5')
  return done('unknown', 'none')
