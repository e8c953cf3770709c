"""Decision by polynomial normal forms.

An equality goal  e1 == e2  is decided by writing e1 - e2 as a quotient of
polynomials over Q in its atoms (variables, applications, square roots, sines,
cosines, ...) and reducing the numerator modulo the ideal of the equalities
among the hypotheses and of the defining equations of the atoms
(sqrt(t)^2 = t, sin^2 + cos^2 = 1).  A zero remainder is a proof; anything else
proves nothing.  Quotients are meaningful because every divisor carries its own
non-zero obligation.
"""
from fractions import Fraction
import math
import time

from pyvc import terms as tm


class TooBig(Exception):
  pass


MAX_TERMS = 60000


def _mono_mul(a, b):
  # monomials: tuples of (atom, exp) with descending atom ids
  if not a:
    return b
  if not b:
    return a
  out = []
  i = j = 0
  la, lb = len(a), len(b)
  while i < la and j < lb:
    x, y = a[i], b[j]
    if x[0] == y[0]:
      out.append((x[0], x[1] + y[1]))
      i += 1
      j += 1
    elif x[0] > y[0]:
      out.append(x)
      i += 1
    else:
      out.append(y)
      j += 1
  out.extend(a[i:])
  out.extend(b[j:])
  return tuple(out)


def _mono_div(a, b):
  """a / b or None."""
  d = dict(a)
  for v, e in b:
    k = d.get(v, 0) - e
    if k < 0:
      return None
    d[v] = k
  return tuple((v, d[v]) for v, _ in a if d[v] > 0)


def _mono_lcm(a, b):
  d = dict(a)
  for v, e in b:
    d[v] = max(d.get(v, 0), e)
  return tuple(sorted(d.items(), reverse=True))


def _coprime(a, b):
  s = set(v for v, _ in a)
  return not any(v in s for v, _ in b)


def padd(a, b, k=1):
  if len(a) < len(b) and k == 1:
    a, b = b, a
  r = dict(a)
  for m, c in b.items():
    v = r.get(m, 0) + k * c
    if v == 0:
      r.pop(m, None)
    else:
      r[m] = v
  return r


def pmul(a, b):
  if len(a) > len(b):
    a, b = b, a
  r = {}
  for m1, c1 in a.items():
    for m2, c2 in b.items():
      m = _mono_mul(m1, m2)
      v = r.get(m, 0) + c1 * c2
      if v == 0:
        r.pop(m, None)
      else:
        r[m] = v
    if len(r) > MAX_TERMS:
      raise TooBig()
  return r


def pscale(a, k):
  return {} if k == 0 else {m: c * k for m, c in a.items()}


def pconst(c):
  return {} if c == 0 else {(): Fraction(c)}


PONE = {(): Fraction(1)}


def is_const(p):
  return not p or (len(p) == 1 and () in p)


def const_of(p):
  return p.get((), Fraction(0))


def lead(p):
  return max(p)


def key(p):
  return frozenset(p.items())


class PolyCtx(object):
  """Rewriting context for one set of hypotheses."""

  def __init__(self, facts, budget=20.0):
    self.deadline = time.time() + budget
    self.atoms = {}        # key -> atom id
    self.atom_term = {}
    self.sq = {}           # sqrt atom id -> (num, den) of its argument
    self.trig = {}
    self.rules = []        # list of (lead mono, poly) : poly == 0, monic
    self.memo = {}
    self.next = 0
    eqs = []
    for f in facts:
      self._collect_eq(f, eqs)
    # simple definitional equalities first
    eqs.sort(key=lambda t: (t.args[0].op not in ('var', 'app') and
                            t.args[1].op not in ('var', 'app')))
    # indices and constants first: they are arguments of other terms
    parts = [[], [], []]
    for e in eqs:
      ops = set(a.op for a in e.args)
      parts[0 if e.args[0].sort == 'I' else
            1 if 'num' in ops and ops & {'var', 'app'} else 2].append(e)
    for part in parts:
      for e in part:
        try:
          n, _ = self.conv(tm.sub(e.args[0], e.args[1]))
        except TooBig:
          continue
        self.add_rule(n)
      # Hypotheses may make earlier conversions reducible.
      self.memo = {}

  def _collect_eq(self, f, out):
    if f.op == 'eq' and f.args[0].sort in ('R', 'I'):
      out.append(f)
    elif f.op == 'and':
      for g in f.args:
        self._collect_eq(g, out)

  def atom(self, k, term):
    i = self.atoms.get(k)
    if i is None:
      i = self.next
      self.next += 1
      self.atoms[k] = i
      self.atom_term[i] = term
    return i

  # ---- reduction -----------------------------------------------------------
  def reduce(self, p):
    if not self.rules or not p:
      return p
    todo = dict(p)
    out = {}
    steps = 0
    rules = self.rules
    while todo:
      m, c = todo.popitem()
      hit = None
      mv = None
      for lm, lset, rp in rules:
        if len(lm) <= len(m):
          if mv is None:
            mv = dict(m)
          ok = True
          for v, e in lm:
            if mv.get(v, 0) < e:
              ok = False
              break
          if ok:
            hit = (lm, rp)
            break
      if hit is None:
        v = out.get(m, 0) + c
        if v == 0:
          out.pop(m, None)
        else:
          out[m] = v
        continue
      lm, rp = hit
      q = _mono_div(m, lm)
      for m2, c2 in rp.items():
        if m2 == lm:
          continue
        mm = _mono_mul(q, m2)
        v = todo.get(mm, 0) - c * c2
        if v == 0:
          todo.pop(mm, None)
        else:
          todo[mm] = v
      steps += 1
      if steps & 255 == 0:
        if time.time() > self.deadline or len(todo) + len(out) > MAX_TERMS:
          raise TooBig()
    return out

  def add_rule(self, p):
    """Adds p == 0, completing the rule set (Buchberger, bounded)."""
    work = [p]
    added = 0
    while work:
      p = self.reduce(work.pop())
      if not p:
        continue
      if is_const(p):
        continue  # contradictory hypotheses: left to the SMT back end
      lm = lead(p)
      p = pscale(p, 1 / Fraction(p[lm]))
      # S-polynomials with the existing rules
      keep = []
      for rl, rs, rp in self.rules:
        if _mono_div(rl, lm) is not None:
          work.append(rp)      # becomes reducible
          continue
        keep.append((rl, rs, rp))
        if not _coprime(rl, lm):
          l = _mono_lcm(rl, lm)
          a = {_mono_mul(_mono_div(l, lm), m): c for m, c in p.items()}
          b = {_mono_mul(_mono_div(l, rl), m): c for m, c in rp.items()}
          s = padd(a, b, -1)
          if s and len(s) < 400:
            work.append(s)
      self.rules = keep
      self.rules.append((lm, None, p))
      added += 1
      if added > 60 or time.time() > self.deadline:
        break

  # ---- conversion ----------------------------------------------------------
  def conv(self, t):
    """term -> (num, den) ; den is a dict {key: (poly, exp)}."""
    r = self.memo.get(t.id)
    if r is None:
      r = self._conv(t)
      self.memo[t.id] = r
    return r

  def _atom(self, k, t):
    i = self.atom(k, t)
    return self.reduce({((i, 1),): Fraction(1)}), {}

  def _conv(self, t):
    if time.time() > self.deadline:
      raise TooBig()
    o = t.op
    if o == 'num':
      return pconst(t.args[0]), {}
    if o == 'var':
      return self._atom(t.id, t)
    if o == 'toreal':
      return self.conv(t.args[0])
    if o == 'add':
      return self.radd(self.conv(t.args[0]), self.conv(t.args[1]))
    if o == 'neg':
      n, d = self.conv(t.args[0])
      return pscale(n, -1), d
    if o == 'mul':
      return self.rmul(self.conv(t.args[0]), self.conv(t.args[1]))
    if o == 'div':
      return self.rmul(self.conv(t.args[0]), self.rinv(self.conv(t.args[1])))
    if o == 'sqrt':
      n, d = self.conv(t.args[0])
      if is_const(n) and not d:
        c = const_of(n)
        if c >= 0:
          r = tm._isqrt_frac(Fraction(c))
          if r is not None:
            return pconst(r), {}
      k = ('sqrt', key(n), self._denkey(d))
      new = k not in self.atoms
      i = self.atom(k, t)
      if new:
        self.sq[i] = (n, d)
        if not d:
          self.add_rule(padd({((i, 2),): Fraction(1)}, n, -1))
      return self.reduce({((i, 1),): Fraction(1)}), {}
    if o in ('sin', 'cos'):
      n, d = self.conv(t.args[0])
      if not n:
        return (pconst(0), {}) if o == 'sin' else (pconst(1), {})
      r = None if d else self.half_turns(n)
      if r is not None:
        k, sign, x = r
        if x is None:
          x = tm.ONE if o == 'cos' else tm.ZERO
        elif o == 'sin':
          x = tm.sqrt(tm.sub(tm.ONE, tm.mul(x, x)))
          k += sign < 0
        return self.conv(tm.neg(x) if k % 2 else x)
      kk = (key(n), self._denkey(d))
      ci = self.atom(('cos',) + kk, tm.mk('cos', t.args, 'R'))
      si = self.atom(('sin',) + kk, tm.mk('sin', t.args, 'R'))
      if kk not in self.trig:
        self.trig[kk] = (si, ci)
        self.add_rule({((si, 2),): Fraction(1), ((ci, 2),): Fraction(1), (): Fraction(-1)})
      return self.reduce({((si if o == 'sin' else ci, 1),): Fraction(1)}), {}
    if o == 'arccos':
      n, d = self.conv(t.args[0])
      if n and n[min(n)] < 0:   # arccos(-x) = pi - arccos(x)
        a = tm.mk('arccos', (tm.neg(t.args[0]),), 'R')
        i = self.atom(('arccos', key(pscale(n, -1)), self._denkey(d)), a)
        return padd(self.conv(tm.PI)[0], {((i, 1),): Fraction(1)}, -1), {}
      return self._atom(('arccos', key(n), self._denkey(d)), t)
    if o == 'app':
      ks = []
      for a in t.args[1:]:
        if a.sort == 'B':
          ks.append(a.id)
        else:
          n, d = self.conv(a)
          ks.append((key(n), self._denkey(d)))
      return self._atom(('app', t.args[0], tuple(ks)), t)
    if o == 'lsum':
      n, d = self.conv(t.args[2])
      n2, d2 = self.conv(t.args[0])
      return self._atom(('lsum', t.args[1].id, key(n), self._denkey(d), key(n2),
                         self._denkey(d2)), t)
    return self._atom(t.id, t)

  def half_turns(self, n):
    """(k, sign, x) if n is k pi + sign arccos(x), (k, 1, None) if n is k pi."""
    k, sign, x = Fraction(0), 1, None
    for m, c in n.items():
      if len(m) != 1 or m[0][1] != 1:
        return None
      t = self.atom_term[m[0][0]]
      if t is tm.PI and c.denominator == 1:
        k = c
      elif t.op == 'arccos' and abs(c) == 1 and x is None:
        sign, x = c, t.args[0]
      else:
        return None
    return int(k), sign, x

  def _denkey(self, d):
    return frozenset((k, e) for k, (p, e) in d.items())

  def radd(self, a, b):
    (n1, d1), (n2, d2) = a, b
    if not n1:
      return b
    if not n2:
      return a
    if self._denkey(d1) == self._denkey(d2):
      return self.norm(padd(n1, n2), d1)
    l = dict(d1)
    for k, (p, e) in d2.items():
      if k not in l or l[k][1] < e:
        l[k] = (p, e)
    n1 = self._lift(n1, d1, l)
    n2 = self._lift(n2, d2, l)
    return self.norm(padd(n1, n2), l)

  def _lift(self, n, d, l):
    for k, (p, e) in l.items():
      have = d[k][1] if k in d else 0
      for _ in range(e - have):
        n = self.reduce(pmul(n, p))
    return n

  def rmul(self, a, b):
    (n1, d1), (n2, d2) = a, b
    n = self.reduce(pmul(n1, n2))
    d = dict(d1)
    for k, (p, e) in d2.items():
      d[k] = (p, e + (d[k][1] if k in d else 0))
    return self.norm(n, d)

  def rinv(self, a):
    n, d = a
    num = PONE
    for k, (p, e) in d.items():
      for _ in range(e):
        num = self.reduce(pmul(num, p))
    if not n:
      raise TooBig()  # division by zero: the divisor obligation reports it
    if is_const(n):
      return pscale(num, 1 / Fraction(const_of(n))), {}
    den = {}
    if len(n) == 1:
      (m, c), = n.items()
      num = pscale(num, 1 / Fraction(c))
      for v, e in m:
        p = {((v, 1),): Fraction(1)}
        den[key(p)] = (p, e)
    else:
      lc = n[lead(n)]
      num = pscale(num, 1 / Fraction(lc))
      p = pscale(n, 1 / Fraction(lc))
      den[key(p)] = (p, 1)
    return self.norm(num, den)

  def norm(self, n, d):
    """Removes square roots (single atoms) from denominators, s^2 with a
    fractional argument from numerators, and cancels equal factors."""
    if not n:
      return n, {}
    for k, (p, e) in list(d.items()):
      if len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1 and m[0][0] in self.sq:
          # 1/s^e = s^e / (s^2)^e
          i = m[0][0]
          an, ad = self.sq[i]
          d = dict(d)
          del d[k]
          r = (n, d)
          s = ({((i, 1),): Fraction(1)}, {})
          inv = self.rinv((an, ad))
          for _ in range(e % 2):
            r = self.rmul(r, s)
          for _ in range((e + 1) // 2):
            r = self.rmul(r, inv)
          return r
        # cancel a monomial factor
        if len(m) == 1:
          v = m[0][0]
          mn = min((dict(mm).get(v, 0) for mm in n), default=0)
          cn = min(mn, e)
          if cn:
            n = {_mono_div(mm, ((v, cn),)): cc for mm, cc in n.items()}
            d = dict(d)
            if e - cn:
              d[k] = (p, e - cn)
            else:
              del d[k]
      else:
        for _ in range(e):
          if key(n) == k:
            n = dict(PONE)
            d = dict(d)
            if d[k][1] > 1:
              d[k] = (p, d[k][1] - 1)
            else:
              del d[k]
    for i, (an, ad) in self.sq.items():
      if ad and any(dict(m).get(i, 0) >= 2 for m in n):
        parts = {}
        for m, c in n.items():
          e = dict(m).get(i, 0)
          rest = _mono_div(m, ((i, e),)) if e else m
          if e % 2:
            rest = _mono_mul(rest, ((i, 1),))
          parts.setdefault(e // 2, {})
          parts[e // 2] = padd(parts[e // 2], {rest: c})
        r = ({}, {})
        for h, p in parts.items():
          q = (p, {})
          for _ in range(h):
            q = self.rmul(q, (an, ad))
          r = self.radd(r, q)
        dd = dict(d)
        for k, (p, e) in r[1].items():
          dd[k] = (p, e + (dd[k][1] if k in dd else 0))
        return r[0], dd
    return n, d

  def is_zero(self, t):
    """True iff the term provably vanishes under the hypotheses."""
    try:
      n, d = self.conv(t)
      n = self.reduce(n)
      # rules may have been added during conversion
      for _ in range(3):
        if not n:
          return True
        n2 = self.reduce(n)
        if n2 == n:
          break
        n = n2
      return not n
    except TooBig:
      return False
    except RecursionError:
      return False
