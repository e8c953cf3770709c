"""Hash-consed first-order terms over reals, integers and booleans.

A term is the symbolic value of a Python expression of the verified source.
Floating point values are mathematical reals here; decimal literals are the
rationals they spell.
"""
from fractions import Fraction

_table = {}


class T(object):
  __slots__ = ('op', 'args', 'sort', 'id')

  def __hash__(self):
    # not the address: sets of terms have the same order in every run
    return self.id

  def __repr__(self):
    return show(self)

  def __reduce__(self):
    raise TypeError('terms are not picklable')

  def __deepcopy__(self, memo):
    return self

  def __copy__(self):
    return self


def mk(op, args, sort):
  key = (op, tuple(a.id if isinstance(a, T) else ('#', a) for a in args), sort)
  t = _table.get(key)
  if t is None:
    t = T()
    t.op = op
    t.args = tuple(args)
    t.sort = sort
    t.id = len(_table)
    _table[key] = t
  return t


def num(c, sort='R'):
  c = Fraction(c)
  if sort == 'I':
    assert c.denominator == 1
  return mk('num', (c,), sort)


def var(name, sort='R'):
  return mk('var', (name,), sort)


TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')
ZERO = num(0)
ONE = num(1)
PI = var('pi')


def is_num(t):
  return t.op == 'num'


def val(t):
  return t.args[0]


def _sort2(a, b):
  return 'I' if a.sort == 'I' and b.sort == 'I' else 'R'


def real(t):
  if t.sort == 'R':
    return t
  if t.op == 'num':
    return num(t.args[0], 'R')
  return mk('toreal', (t,), 'R')


def _coerce(a, b):
  s = _sort2(a, b)
  if s == 'R':
    return real(a), real(b), s
  return a, b, s


def add(a, b):
  a, b, s = _coerce(a, b)
  if is_num(a) and is_num(b):
    return num(val(a) + val(b), s)
  if is_num(a):
    if val(a) == 0:
      return b
    a, b = b, a
  if is_num(b):
    if val(b) == 0:
      return a
    # keep numeric offsets normalised: (x + c) + d -> x + (c + d)
    if a.op == 'add' and is_num(a.args[1]):
      return add(a.args[0], num(val(a.args[1]) + val(b), s))
  if a.op == 'neg' and a.args[0] is b or b.op == 'neg' and b.args[0] is a:
    return num(0, s)
  return mk('add', (a, b), s)


def neg(a):
  if is_num(a):
    return num(-val(a), a.sort)
  if a.op == 'neg':
    return a.args[0]
  return mk('neg', (a,), a.sort)


def sub(a, b):
  a, b, s = _coerce(a, b)
  if a is b:
    return num(0, s)
  if is_num(b):
    return add(a, num(-val(b), s))
  # (x + b) - b -> x, (b + x) - b -> x
  if a.op == 'add':
    if a.args[1] is b:
      return a.args[0]
    if a.args[0] is b:
      return a.args[1]
    # (b + x) + c - b
    if is_num(a.args[1]) and a.args[0].op == 'add':
      i = a.args[0]
      if i.args[0] is b:
        return add(i.args[1], a.args[1])
      if i.args[1] is b:
        return add(i.args[0], a.args[1])
  return add(a, neg(b))


def mul(a, b):
  a, b, s = _coerce(a, b)
  if is_num(a) and is_num(b):
    return num(val(a) * val(b), s)
  if is_num(b):
    a, b = b, a
  if is_num(a):
    if val(a) == 0:
      return num(0, s)
    if val(a) == 1:
      return b
    if val(a) == -1:
      return neg(b)
    if b.op == 'mul' and is_num(b.args[0]):
      return mul(num(val(a) * val(b.args[0]), s), b.args[1])
  if a.op == 'neg':
    return neg(mul(a.args[0], b))
  if b.op == 'neg':
    return neg(mul(a, b.args[0]))
  return mk('mul', (a, b), s)


def div(a, b):
  a, b = real(a), real(b)
  if is_num(b):
    assert val(b) != 0
    return mul(num(1 / val(b)), a)
  if is_num(a) and val(a) == 0:
    return ZERO
  if a.op == 'neg':
    return neg(div(a.args[0], b))
  return mk('div', (a, b), 'R')


def powi(a, n):
  assert n >= 0
  r = num(1, a.sort)
  for _ in range(n):
    r = mul(r, a)
  return r


def idiv(a, b):
  if is_num(a) and is_num(b):
    return num(val(a) // val(b), 'I')
  if is_num(b) and val(b) == 1:
    return a
  return mk('idiv', (a, b), 'I')


def imod(a, b):
  if is_num(a) and is_num(b):
    return num(val(a) % val(b), 'I')
  if is_num(b) and val(b) == 1:
    return num(0, 'I')
  return mk('imod', (a, b), 'I')


def toint(a):
  """floor of a real."""
  if a.sort == 'I':
    return a
  if is_num(a):
    return num(val(a).numerator // val(a).denominator, 'I')
  if a.op == 'toreal':
    return a.args[0]
  return mk('floor', (a,), 'I')


def _isqrt_frac(f):
  import math
  n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
  if n * n == f.numerator and d * d == f.denominator:
    return Fraction(n, d)
  return None


def sqrt(a):
  a = real(a)
  if is_num(a) and val(a) >= 0:
    r = _isqrt_frac(val(a))
    if r is not None:
      return num(r)
  return mk('sqrt', (a,), 'R')


def _strip_neg(a):
  if a.op == 'neg':
    return a.args[0], True
  if a.op == 'num' and val(a) < 0:
    return num(-val(a)), True
  if a.op == 'mul' and is_num(a.args[0]) and val(a.args[0]) < 0:
    return mul(num(-val(a.args[0])), a.args[1]), True
  return a, False


def _cancel_pi(t):
  """Removes factors pi / pi from products (sums term by term)."""
  if not any(x.op == 'div' for x in subterms([t])) or PI not in subterms([t]):
    return t
  if t.op in ('add',):
    return add(_cancel_pi(t.args[0]), _cancel_pi(t.args[1]))
  if t.op == 'neg':
    return neg(_cancel_pi(t.args[0]))
  c = [Fraction(1)]
  top, bot, k = [], [], [0]

  def go(t, up):
    if t.op == 'mul':
      go(t.args[0], up)
      go(t.args[1], up)
    elif t.op == 'div':
      go(t.args[0], up)
      go(t.args[1], not up)
    elif t.op == 'neg':
      c[0] = -c[0]
      go(t.args[0], up)
    elif t is PI:
      k[0] += 1 if up else -1
    elif is_num(t) and val(t) != 0:
      c[0] = c[0] * val(t) if up else c[0] / val(t)
    else:
      (top if up else bot).append(t)
  go(t, True)
  r = num(c[0])
  for x in top + [PI] * max(k[0], 0):
    r = mul(r, x)
  for x in bot + [PI] * max(-k[0], 0):
    r = div(r, x)
  return r


def cos(a):
  a = _cancel_pi(real(a))
  if is_num(a) and val(a) == 0:
    return ONE
  a, _ = _strip_neg(a)
  if a.op == 'arccos':
    return a.args[0]
  return mk('cos', (a,), 'R')


def sin(a):
  a = _cancel_pi(real(a))
  if is_num(a) and val(a) == 0:
    return ZERO
  a, n = _strip_neg(a)
  if a.op == 'arccos':
    r = sqrt(sub(ONE, mul(a.args[0], a.args[0])))
  else:
    r = mk('sin', (a,), 'R')
  return neg(r) if n else r


def arccos(a):
  a = real(a)
  if is_num(a):
    if val(a) == 1:
      return ZERO
    if val(a) == -1:
      return PI
    if val(a) == 0:
      return div(PI, num(2))
  return mk('arccos', (a,), 'R')


GIVEN = {}  # (name, args) -> stated value of an application


def app(name, args, sort='R'):
  if name == 'sign' and is_num(args[0]):
    return ONE if val(args[0]) >= 0 else num(-1)
  if GIVEN:
    v = GIVEN.get((name, tuple(args)))
    if v is not None:
      return v
  return mk('app', (name,) + tuple(args), sort)


def lsum(n, bv, body):
  """Sum of body for the bound integer variable bv in [0, n)."""
  return mk('lsum', (n, bv, body), body.sort)


def _root(t):
  """t = c * sqrt(p) + d  ->  (c, p, d), else None."""
  if t.op == 'sqrt':
    return Fraction(1), t.args[0], Fraction(0)
  if t.op == 'neg':
    r = _root(t.args[0])
    return r and (-r[0], r[1], -r[2])
  if t.op == 'mul':
    for x, y in (t.args, t.args[::-1]):
      if is_num(x):
        r = _root(y)
        return r and (r[0] * val(x), r[1], r[2] * val(x))
  if t.op == 'add':
    for x, y in (t.args, t.args[::-1]):
      if is_num(x):
        r = _root(y)
        return r and (r[0], r[1], r[2] + val(x))
  return None


def _root_cmp(a, b, strict):
  """Comparison of a square root with a constant as a polynomial one, or None."""
  for root, k, less in ((a, b, True), (b, a, False)):
    if not is_num(k):
      continue
    r = _root(root)
    if r is None or r[0] == 0:
      continue
    c, p, d = r
    q = (val(k) - d) / c
    if c < 0:
      less = not less
    if less:
      if q < 0 or (strict and q == 0):
        return FALSE
      return (lt if strict else le)(p, num(q * q))
    if q < 0 or (not strict and q == 0):
      return TRUE
    return (lt if strict else le)(num(q * q), p)
  return None


def eq(a, b):
  if a.sort == 'B':
    return iff(a, b)
  a, b, _ = _coerce(a, b)
  if a is b:
    return TRUE
  if is_num(a) and is_num(b):
    return TRUE if val(a) == val(b) else FALSE
  for root, k in ((a, b), (b, a)):
    if is_num(k):
      r = _root(root)
      if r is not None and r[0] != 0:
        q = (val(k) - r[2]) / r[0]
        return FALSE if q < 0 else eq(r[1], num(q * q))
  if a.id > b.id:
    a, b = b, a
  return mk('eq', (a, b), 'B')


def le(a, b):
  a, b, _ = _coerce(a, b)
  if a is b:
    return TRUE
  if is_num(a) and is_num(b):
    return TRUE if val(a) <= val(b) else FALSE
  r = _root_cmp(a, b, False)
  if r is not None:
    return r
  return mk('le', (a, b), 'B')


def lt(a, b):
  a, b, _ = _coerce(a, b)
  if a is b:
    return FALSE
  if is_num(a) and is_num(b):
    return TRUE if val(a) < val(b) else FALSE
  r = _root_cmp(a, b, True)
  if r is not None:
    return r
  return mk('lt', (a, b), 'B')


def not_(a):
  if a is TRUE:
    return FALSE
  if a is FALSE:
    return TRUE
  if a.op == 'not':
    return a.args[0]
  if a.op == 'le':
    return lt(a.args[1], a.args[0])
  if a.op == 'lt':
    return le(a.args[1], a.args[0])
  return mk('not', (a,), 'B')


def and_(*xs):
  out = []
  for x in xs:
    if x is FALSE:
      return FALSE
    if x is TRUE:
      continue
    if x.op == 'and':
      out.extend(y for y in x.args if y not in out)
    elif x not in out:
      out.append(x)
  if not out:
    return TRUE
  if len(out) == 1:
    return out[0]
  return mk('and', tuple(out), 'B')


def or_(*xs):
  out = []
  for x in xs:
    if x is TRUE:
      return TRUE
    if x is FALSE:
      continue
    if x.op == 'or':
      out.extend(y for y in x.args if y not in out)
    elif x not in out:
      out.append(x)
  if not out:
    return FALSE
  if len(out) == 1:
    return out[0]
  return mk('or', tuple(out), 'B')


def implies(a, b):
  return or_(not_(a), b)


def iff(a, b):
  if a is b:
    return TRUE
  if a is TRUE:
    return b
  if b is TRUE:
    return a
  if a is FALSE:
    return not_(b)
  if b is FALSE:
    return not_(a)
  return mk('iff', (a, b), 'B')


def ite(c, a, b):
  if c is TRUE:
    return a
  if c is FALSE:
    return b
  if a is b:
    return a
  if a.sort == 'B':
    return and_(implies(c, a), implies(not_(c), b))
  a, b, s = _coerce(a, b)
  return mk('ite', (c, a, b), s)


def forall(bvs, body, pats=()):
  if body is TRUE:
    return TRUE
  return mk('forall', (tuple(bvs), body, tuple(pats)), 'B')


def exists(bvs, body):
  return not_(forall(bvs, not_(body)))


_REBUILD = {
    'add': add, 'neg': neg, 'mul': mul, 'div': div, 'idiv': idiv, 'imod': imod,
    'floor': toint, 'toreal': real, 'sqrt': sqrt, 'cos': cos, 'sin': sin,
    'arccos': arccos, 'eq': eq, 'le': le, 'lt': lt, 'not': not_, 'and': and_,
    'or': or_, 'iff': iff, 'ite': ite,
}


def rebuild(t, args):
  f = _REBUILD.get(t.op)
  if f is not None:
    return f(*args)
  if t.op == 'app' and GIVEN:
    return app(args[0], args[1:], t.sort)
  return mk(t.op, args, t.sort)


def subst(t, m, memo=None):
  """Simultaneous substitution; m maps terms to terms."""
  if memo is None:
    memo = {}
  return _subst(t, m, memo)


def _subst(t, m, memo):
  r = memo.get(t.id)
  if r is not None:
    return r
  if t in m:
    r = m[t]
    if r.sort != t.sort:
      r = real(r)
  elif not t.args or t.op in ('num', 'var'):
    r = t
  elif t.op == 'forall':
    bvs, body, pats = t.args
    r = forall(bvs, _subst(body, m, memo), tuple(
        tuple(_subst(p, m, memo) for p in ps) for ps in pats))
  else:
    args = []
    changed = False
    for a in t.args:
      if isinstance(a, T):
        b = _subst(a, m, memo)
        changed = changed or b is not a
        args.append(b)
      else:
        args.append(a)
    r = rebuild(t, args) if changed else t
  memo[t.id] = r
  return r


def children(t):
  if t.op == 'forall':
    return (t.args[1],)
  return tuple(a for a in t.args if isinstance(a, T))


def free_in(t, v, memo=None):
  """Does the term t contain the variable term v?"""
  stack, seen = [t], set()
  while stack:
    x = stack.pop()
    if x is v:
      return True
    if x.id in seen:
      continue
    seen.add(x.id)
    stack.extend(children(x))
  return False


def subterms(ts):
  stack, seen, out = list(ts), set(), []
  while stack:
    x = stack.pop()
    if x.id in seen:
      continue
    seen.add(x.id)
    out.append(x)
    stack.extend(children(x))
  return out


def show(t, depth=12):
  if depth == 0:
    return '..'
  d = depth - 1
  if t.op == 'num':
    return str(t.args[0])
  if t.op == 'var':
    return t.args[0]
  if t.op in ('true', 'false'):
    return t.op
  if t.op == 'forall':
    return '(forall %s. %s)' % (','.join(map(str, t.args[0])), show(t.args[1], d))
  sym = {'add': '+', 'mul': '*', 'div': '/', 'eq': '==', 'le': '<=', 'lt': '<',
         'and': '&', 'or': '|', 'iff': '<=>', 'idiv': '//', 'imod': '%'}
  if t.op in sym:
    return '(' + (' ' + sym[t.op] + ' ').join(show(a, d) for a in t.args) + ')'
  if t.op == 'toreal':
    return show(t.args[0], d)
  if t.op == 'app':
    return '%s(%s)' % (t.args[0], ', '.join(show(a, d) for a in t.args[1:]))
  return '%s(%s)' % (t.op, ', '.join(
      show(a, d) if isinstance(a, T) else str(a) for a in t.args))


def evalf(t, env, memo=None):
  """Numeric evaluation; env maps variable names / app terms to floats."""
  import math
  if memo is None:
    memo = {}

  def ev(t):
    if t.id in memo:
      return memo[t.id]
    o = t.op
    a = t.args
    if o == 'num':
      r = float(a[0]) if t.sort == 'R' else int(a[0])
    elif o == 'var':
      r = math.pi if t is PI else env[t]
    elif o == 'app':
      r = env[t]
    elif o == 'add':
      r = ev(a[0]) + ev(a[1])
    elif o == 'neg':
      r = -ev(a[0])
    elif o == 'mul':
      r = ev(a[0]) * ev(a[1])
    elif o == 'div':
      r = ev(a[0]) / ev(a[1])
    elif o == 'idiv':
      r = ev(a[0]) // ev(a[1])
    elif o == 'imod':
      r = ev(a[0]) % ev(a[1])
    elif o == 'floor':
      r = math.floor(ev(a[0]))
    elif o == 'toreal':
      r = float(ev(a[0]))
    elif o == 'sqrt':
      r = math.sqrt(ev(a[0]))
    elif o == 'sin':
      r = math.sin(ev(a[0]))
    elif o == 'cos':
      r = math.cos(ev(a[0]))
    elif o == 'arccos':
      r = math.acos(ev(a[0]))
    elif o == 'eq':
      r = abs(ev(a[0]) - ev(a[1])) <= 1e-9 * (1 + abs(ev(a[0])))
    elif o == 'le':
      r = ev(a[0]) <= ev(a[1])
    elif o == 'lt':
      r = ev(a[0]) < ev(a[1])
    elif o == 'not':
      r = not ev(a[0])
    elif o == 'and':
      r = all(ev(x) for x in a)
    elif o == 'or':
      r = any(ev(x) for x in a)
    elif o == 'iff':
      r = ev(a[0]) == ev(a[1])
    elif o == 'ite':
      r = ev(a[1]) if ev(a[0]) else ev(a[2])
    elif o == 'true':
      r = True
    elif o == 'false':
      r = False
    else:
      raise ValueError('cannot evaluate ' + o)
    memo[t.id] = r
    return r
  return ev(t)
