"""C01: quaternion arithmetic is the Hamilton algebra and leaves operands alone."""
from contracts import lemma
from contracts import spec as S

QF = 'quaternion:Quaternion.'


def quat(c, name):
  return c.mod('quaternion').Quaternion(q=c.floats(c.reals(name, 4)))


def comps(q):
  return list(q.q)


def binary(c, op):
  a, b = quat(c, 'a'), quat(c, 'b')
  s = c.snap(a, b)
  r = op(a, b)
  c.unchanged('the operands are not changed', s, a, b)
  c.disjoint('the result shares no storage with the operands', r, (a, b))
  c.check('the result is a quaternion', type(r) is type(a))
  return comps(a), comps(b), comps(r)


def unary(c, op, a=None):
  a = quat(c, 'a') if a is None else a
  s = c.snap(a)
  r = op(a)
  c.unchanged('the operand is not changed', s, a)
  c.disjoint('the result shares no storage with the operand', r, a)
  return comps(a), r


@lemma('C01', [QF + '__mul__'])
def product(c):
  """The product is the Hamilton product and its norm is the product of norms."""
  a, b, r = binary(c, lambda a, b: a * b)
  c.eq('a * b is the Hamilton product', r, S.qmul(a, b))
  c.eq('|a b|^2 = |a|^2 |b|^2', S.qn2(r), S.qn2(a) * S.qn2(b))


@lemma('C01', [QF + '__mul__'])
def product_associative(c):
  """(a b) d = a (b d), and the product distributes over the sum."""
  a, b, d = quat(c, 'a'), quat(c, 'b'), quat(c, 'd')
  c.eq('associative', comps((a * b) * d), comps(a * (b * d)))
  c.eq('left distributive', comps(a * (b + d)), comps(a * b + a * d))
  c.eq('right distributive', comps((a + b) * d), comps(a * d + b * d))


@lemma('C01', [QF + '__mul__'])
def basis(c):
  """ij = k, jk = i, ki = j and i^2 = j^2 = k^2 = -1 (integer components)."""
  Q = c.mod('quaternion').Quaternion
  i, j, k = Q(1, 0, 0, 0), Q(0, 1, 0, 0), Q(0, 0, 1, 0)
  for x, y, z in ((i, j, k), (j, k, i), (k, i, j)):
    c.eq('ij = k', comps(x * y), comps(z))
    c.eq('ji = -k', comps(y * x), comps(-z))
    c.eq('ii = -1', comps(x * x), [0, 0, 0, -1])
  one = Q()
  c.eq('the default quaternion is the identity', comps(one), [0, 0, 0, 1])
  c.eq('1 i = i', comps(one * i), comps(i))


@lemma('C01', [QF + '__add__', QF + '__sub__', QF + '__neg__'])
def sums(c):
  """Sum, difference and negation act on the components."""
  a, b, r = binary(c, lambda a, b: a + b)
  c.eq('a + b', r, S.add(a, b))
  a, b, r = binary(c, lambda a, b: a - b)
  c.eq('a - b', r, S.sub(a, b))
  a, r = unary(c, lambda a: -a)
  c.eq('-a', comps(r), S.neg(a))


@lemma('C01', [QF + '__mul__', QF + '__rmul__', QF + '__truediv__'])
def scalars(c):
  """Scalar multiples and quotients act on the components."""
  s = c.real('s')
  a, r = unary(c, lambda a: a * s)
  c.eq('a * s', comps(r), S.scale(a, s))
  a, r = unary(c, lambda a: s * a)
  c.eq('s * a', comps(r), S.scale(a, s))
  a, r = unary(c, lambda a: 2 * a)
  c.eq('2 * a', comps(r), S.scale(a, 2))
  a, r = unary(c, lambda a: a * 3)
  c.eq('a * 3', comps(r), S.scale(a, 3))
  d = c.real('d', nonzero=True)
  a, r = unary(c, lambda a: a / d)
  c.eq('a / s times s is a', S.scale(comps(r), d), a)
  a, r = unary(c, lambda a: a / 4)
  c.eq('a / 4 times 4 is a', S.scale(comps(r), 4), a)


@lemma('C01', [QF + 'conjugate', QF + 'copy'])
def conjugate(c):
  """The conjugate negates the imaginary part, (a b)* = b* a*."""
  a, r = unary(c, lambda a: a.conjugate())
  c.eq('conjugate', comps(r), S.qconj(a))
  a, b = quat(c, 'a'), quat(c, 'b')
  c.eq('(a b)* = b* a*', comps((a * b).conjugate()), comps(b.conjugate() * a.conjugate()))
  a, r = unary(c, lambda a: a.copy())
  c.eq('copy', comps(r), a)
  x, y, z, w = a
  q = quat(c, 'a')
  c.eq('x, y, z, w are the components', [q.x, q.y, q.z, q.w], a)


@lemma('C01', [QF + 'norm', QF + 'squared_norm'])
def norms(c):
  """The norm is the non-negative root of the squared norm, the sum of squares."""
  a = quat(c, 'a')
  s = c.snap(a)
  n2, n = a.squared_norm(), a.norm()
  c.unchanged('the operand is not changed', s, a)
  c.eq('squared norm', n2, S.qn2(comps(a)))
  c.eq('norm^2', n * n, S.qn2(comps(a)))
  c.le('norm >= 0', 0, n)


@lemma('C01', [QF + 'inverse', QF + '__truediv__'])
def inverse(c):
  """A non-zero quaternion times its inverse is the identity, on both sides;
  a / b = a b^-1."""
  a = quat(c, 'a')
  c.assume(S.qn2(comps(a)) > 0.000001)
  _, r = unary(c, lambda a: a.inverse(), a)
  c.eq('a a^-1 = 1', comps(a * r), [0, 0, 0, 1])
  c.eq('a^-1 a = 1', comps(r * a), [0, 0, 0, 1])
  b = quat(c, 'b')
  s = c.snap(a, b)
  d = b / a
  c.unchanged('the operands are not changed', s, a, b)
  c.disjoint('the result shares no storage with the operands', d, (a, b))
  c.eq('(b / a) a = b', comps(d * a), comps(b), tol=1e-7)


@lemma('C01', [QF + 'inverse'])
def inverse_any(c):
  """The inverse exists for every non-zero quaternion, however small or large."""
  a = quat(c, 'a')
  c.assume(S.qn2(comps(a)) > 0)
  s = a.inverse()
  n = S.qn2(comps(a))
  c.eq('|a|^2 a^-1 = a*', S.scale(comps(s), n), S.qconj(comps(a)), scale=n)


@lemma('C01', [QF + '__init__', QF + '__mul__', QF + '__rmul__', QF + '__truediv__'], cases=8)
def rejects(c):
  """Operands of an unsupported type are rejected."""
  Q = c.mod('quaternion').Quaternion
  a = quat(c, 'a')
  for bad in ('x', None, [1.0, 2.0, 3.0, 4.0], {}):
    c.raises('a * bad is rejected', lambda: a * bad)
    c.raises('bad * a is rejected', lambda: bad * a)
    c.raises('a / bad is rejected', lambda: a / bad)
    c.raises('bad components are rejected', lambda: Q(bad, 0., 0., 1.))
  c.raises('an unsupported array type is rejected', lambda: Q(q='xyzw'))


@lemma('C01', [QF + '__init__'], cases=30)
def construction(c):
  """A quaternion stores its components in [x y z w] order in its own storage."""
  Q = c.mod('quaternion').Quaternion
  v = c.reals('v', 4)
  c.eq('from components', comps(Q(v[0], v[1], v[2], v[3])), v)
  arr = c.floats(v)
  s = c.snap(arr)
  q = Q(q=arr)
  c.eq('from an array', comps(q), v)
  c.disjoint('the array is copied', q, arr)
  c.unchanged('the array is not changed', s, arr)
  c.eq('keywords', comps(Q(w=v[0], z=v[1], y=v[2], x=v[3])), [v[3], v[2], v[1], v[0]])


@lemma('C01', [QF + '__mul__', QF + '__rmul__', QF + '__truediv__', QF + 'inverse'], sym=False,
       bounded='machine integers as components: sampled in [-9, 9]')
def integer_components(c):
  """Integer components behave like the same real components."""
  Q = c.mod('quaternion').Quaternion
  a = [c.integer('a%d' % i, -9, 9) for i in range(4)]
  b = [c.integer('b%d' % i, -9, 9) for i in range(4)]
  p, q = Q(*a), Q(*b)
  f = c.real('f')
  c.eq('product', comps(p * q), S.qmul(a, b))
  c.eq('mixed product', comps(p * (q * f)), S.scale(S.qmul(a, b), f))
  c.eq('sum', comps(p + q * 1.5), S.add(a, S.scale(b, 1.5)))
  c.eq('difference', comps(p - q * 1.5), S.sub(a, S.scale(b, 1.5)))
  c.eq('scalar', comps(0.3 * p), S.scale(a, 0.3))
  c.eq('scalar', comps(p * 0.3), S.scale(a, 0.3))
  c.eq('scalar division', comps(p / 4), S.scale(a, 0.25))
  c.eq('components', comps(p), a)
  if S.qn2(a):
    c.eq('inverse', comps(p * p.inverse()), [0, 0, 0, 1])
    c.eq('norm', p.norm() ** 2, S.qn2(a))
  for x, y in ((p, a), (q, b)):
    c.eq('unchanged', comps(x), y, tol=0.0)


@lemma('C01', [QF + '__str__', QF + '__repr__'], sym=False, cases=5,
       bounded='text output: sampled values')
def text(c):
  """A quaternion can be printed."""
  a = quat(c, 'a')
  s = c.snap(a)
  c.check('text', len(str(a)) > 0 and len(repr(a)) > 0)
  c.unchanged('printing does not change it', s, a)
