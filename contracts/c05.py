"""C05: dual quaternion algebra is composition of rigid motions."""
from contracts import lemma
from contracts import spec as S
from contracts.c02 import rows

DF = 'dual_quaternion:DualQuaternion.'


def dquat(c, name):
  """Arbitrary dual quaternion."""
  return c.mod('dual_quaternion').DualQuaternion.from_vector(c.floats(c.reals(name, 8)))


def udquat(c, name):
  """Arbitrary unit dual quaternion (rigid motion)."""
  return c.mod('dual_quaternion').DualQuaternion.from_vector(c.floats(c.dq8(name)))


def comps(d):
  return list(d.dq)


def binary(c, op):
  a, b = dquat(c, 'a'), dquat(c, 'b')
  s = c.snap(a, b)
  r = op(a, b)
  c.unchanged('the operands are not changed', s, a, b)
  c.disjoint('the result shares no storage with the operands', r, (a, b))
  c.check('the result is a dual quaternion', type(r) is type(a))
  return comps(a), comps(b), comps(r)


def unary(c, op, a=None):
  a = dquat(c, 'a') if a is None else a
  s = c.snap(a)
  r = op(a)
  c.unchanged('the operand is not changed', s, a)
  c.disjoint('the result shares no storage with the operand', r, a)
  c.check('the result is a dual quaternion', type(r) is type(a))
  return comps(a), comps(r)


def unit(c, label, d, **k):
  r, e = d[0:4], d[4:8]
  c.eq(label + ': |r| = 1', S.qn2(r), 1, **k)
  c.eq(label + ': r.d = 0', S.dot(r, e), 0, **k)


@lemma('C05', [DF + '__mul__'])
def product(c):
  """(a + eb)(c + ed) = ac + e(ad + bc)."""
  a, b, r = binary(c, lambda a, b: a * b)
  c.eq('product', r, S.dqmul(a, b))


@lemma('C05', [DF + '__mul__'])
def product_laws(c):
  """The product is associative, distributes over the sum and has the identity as neutral element."""
  D = c.mod('dual_quaternion').DualQuaternion
  a, b, d = dquat(c, 'a'), dquat(c, 'b'), dquat(c, 'd')
  c.eq('associative', comps((a * b) * d), comps(a * (b * d)))
  c.eq('left distributive', comps(a * (b + d)), comps(a * b + a * d))
  c.eq('right distributive', comps((a + b) * d), comps(a * d + b * d))
  one = D.identity()
  c.eq('identity', comps(one), S.IDENTITY)
  c.eq('1 a = a', comps(one * a), comps(a))
  c.eq('a 1 = a', comps(a * one), comps(a))
  c.disjoint('identities are separate objects', one, D.identity())


@lemma('C05', [DF + '__add__', DF + '__sub__'])
def sums(c):
  """Sum and difference act on the components."""
  a, b, r = binary(c, lambda a, b: a + b)
  c.eq('a + b', r, S.add(a, b))
  a, b, r = binary(c, lambda a, b: a - b)
  c.eq('a - b', r, S.sub(a, b))


@lemma('C05', [DF + '__mul__', DF + '__rmul__', DF + '__truediv__', DF + '__div__'])
def scalars(c):
  """Scalar multiples and quotients act on all components."""
  s = c.real('s')
  a, r = unary(c, lambda a: a * s)
  c.eq('a * s', r, S.scale(a, s))
  a, r = unary(c, lambda a: s * a)
  c.eq('s * a', r, S.scale(a, s))
  a, r = unary(c, lambda a: a * 3)
  c.eq('a * 3', r, S.scale(a, 3))
  a, r = unary(c, lambda a: -2 * a)
  c.eq('-2 * a', r, S.scale(a, -2))
  d = c.real('d', nonzero=True)
  a, r = unary(c, lambda a: a / d)
  c.eq('a / s times s is a', S.scale(r, d), a)
  a, r = unary(c, lambda a: a.__div__(d))
  c.eq('__div__', S.scale(r, d), a)
  a, r = unary(c, lambda a: a / 4)
  c.eq('a / 4 times 4 is a', S.scale(r, 4), a)


@lemma('C05', [DF + 'conjugate', DF + 'copy', DF + 'from_vector'])
def conjugate(c):
  """The conjugate conjugates both parts and reverses products."""
  a, r = unary(c, lambda a: a.conjugate())
  c.eq('conjugate', r, S.dqconj(a))
  x, y = dquat(c, 'a'), dquat(c, 'b')
  c.eq('(a b)* = b* a*', comps((x * y).conjugate()), comps(y.conjugate() * x.conjugate()))
  a, r = unary(c, lambda a: a.copy())
  c.eq('copy', r, a)
  c.eq('parts', list(x.q_rot.q) + list(x.q_dual.q), comps(x))
  c.eq('components', [x.r_x, x.r_y, x.r_z, x.r_w, x.t_x, x.t_y, x.t_z, x.t_w], comps(x))


@lemma('C05', [DF + '__init__', DF + 'from_vector', DF + 'copy'], cases=20)
def storage(c):
  """A dual quaternion has its own storage, also when it is built from arrays or parts."""
  m = c.mod('dual_quaternion')
  D, Q = m.DualQuaternion, c.mod('quaternion').Quaternion
  v = c.floats(c.reals('v', 8))
  d = D.from_vector(v)
  c.eq('from_vector', comps(d), list(v))
  c.disjoint('from an array', d, v)
  e = D.from_vector(c.list(list(v)))
  c.eq('from a list', comps(e), list(v))
  q, p = Q(q=v[0:4]), Q(q=v[4:8])
  f = D(q, p)
  c.eq('from two quaternions', comps(f), list(v))
  c.disjoint('from two quaternions', f, (q, p, v))
  r = d.q_rot
  r.q[0] = r.q[0] + 1
  c.eq('parts read from it are copies or views of its own storage', comps(e), list(v))
  c.raises('real part must be a quaternion', lambda: D(v[0:4], p))
  c.raises('dual part must be a quaternion', lambda: D(q, None))
  c.raises('only scalars and dual quaternions multiply', lambda: e * 'x')
  c.raises('only scalars multiply from the left', lambda: 'x' * e)
  c.raises('only scalars and dual quaternions divide', lambda: e / 'x')


def invertible(c, name):
  a = dquat(c, name)
  n2 = S.qn2(comps(a)[0:4])
  c.assume(n2 > c.const('1e-16') if c.symbolic else n2 > 1e-4)
  return a


@lemma('C05', [DF + 'inverse', DF + 'norm'])
def inverse(c):
  """An element with non-zero real part times its inverse is the identity on both sides."""
  x = invertible(c, 'a')
  a, r = unary(c, lambda a: a.inverse(), x)
  k = 0.0 if c.symbolic else S.qn2(a) * S.qn2(r)
  c.eq('a a^-1 = 1', S.dqmul(a, r), S.IDENTITY, scale=k)
  c.eq('a^-1 a = 1', S.dqmul(r, a), S.IDENTITY, scale=k)


@lemma('C05', [DF + '__truediv__'])
def division(c):
  """a / b = a b^-1."""
  a, b = dquat(c, 'a'), invertible(c, 'b')
  s = c.snap(a, b)
  r = a / b
  c.unchanged('the operands are not changed', s, a, b)
  c.disjoint('own storage', r, (a, b))
  k = 0.0 if c.symbolic else S.qn2(comps(r)) * S.qn2(comps(b))
  c.eq('(a / b) b = a', S.dqmul(comps(r), comps(b)), comps(a), scale=k)


@lemma('C05', [DF + 'inverse', DF + 'norm'], cases=20)
def inverse_rejects(c):
  """Elements with vanishing real part have no inverse."""
  D = c.mod('dual_quaternion').DualQuaternion
  d = c.reals('d', 4)
  c.raises('inverse of a pure dual element', lambda: D.from_vector(c.floats([0, 0, 0, 0] + d)).inverse())
  c.raises('norm of a pure dual element', lambda: D.from_vector(c.floats([0, 0, 0, 0] + d)).norm())


@lemma('C05', [DF + 'norm'])
def norm(c):
  """The norm is |r| + e (r.d)/|r|."""
  a = invertible(c, 'a')
  s = c.snap(a)
  n = a.norm()
  c.unchanged('the operand is not changed', s, a)
  a = comps(a)
  c.check('two numbers', len(n) == 2)
  c.le('not negative', 0, n[0])
  c.eq('real norm', n[0] * n[0], S.qn2(a[0:4]))
  c.eq('dual norm', n[0] * n[1], S.dot(a[0:4], a[4:8]))


@lemma('C05', [DF + '__mul__', DF + 'conjugate', DF + 'inverse'])
def units(c):
  """Products, conjugates and inverses of unit dual quaternions are unit; conjugate = inverse."""
  a, b = udquat(c, 'a'), udquat(c, 'b')
  k = {} if c.symbolic else {'scale': max(abs(x) for x in comps(a)) * max(1, max(abs(x) for x in comps(b)))}
  unit(c, 'product', comps(a * b), **k)
  unit(c, 'conjugate', comps(a.conjugate()), **k)
  unit(c, 'inverse', comps(a.inverse()), **k)
  c.eq('the inverse is the conjugate', comps(a.inverse()), comps(a.conjugate()))


@lemma('C05', [DF + '__mul__', DF + 'to_matrix'], budget=200)
def matrices_product(c):
  """The matrix of a product is the product of the matrices."""
  a, b = udquat(c, 'a'), udquat(c, 'b')
  ma, mb = S.matrix(comps(a)), S.matrix(comps(b))
  c.eq('M(a b) = M(a) M(b)', rows((a * b).to_matrix()), S.matmul(ma, mb))


@lemma('C05', [DF + 'inverse', DF + 'conjugate', DF + 'to_matrix'], budget=200)
def matrices_inverse(c):
  """The matrices of inverse and conjugate are the inverse matrix."""
  a = udquat(c, 'a')
  m = S.matrix(comps(a))
  one = [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]
  c.eq('M(a^-1) M(a) = 1', S.matmul(rows(a.inverse().to_matrix()), m), one)
  c.eq('M(a*) M(a) = 1', S.matmul(rows(a.conjugate().to_matrix()), m), one)


@lemma('C05', [DF + '__eq__'], cases=60)
def equality(c):
  """Equality compares all eight components to the usual tolerance, and nothing else."""
  a = dquat(c, 'a')
  c.check('equal to its copy', c.is_true(a == a.copy()))
  c.check('not equal to other things', not c.is_true(a == 1) and not c.is_true(a == None))  # noqa
  i = c.choose('i', list(range(8)))
  v = a.copy()
  v.dq[i] = v.dq[i] * 2 + 1
  w = a.dq[i]
  c.assume(c.or_(w > c.const('-0.5'), w < c.const('-1.5')))
  c.check('one component differs', not c.is_true(v == a))


@lemma('C05', [DF + 'enforce_positive_q_rot_w', DF + 'normalize'])
def in_place(c):
  """enforce_positive_q_rot_w keeps or negates all components; normalize divides them by |r|."""
  a = invertible(c, 'a')
  old = comps(a)
  a.enforce_positive_q_rot_w()
  c.le('non-negative real part', 0, comps(a)[3])
  c.eq('negated iff the real part was negative', comps(a), S.neg(old) if c.is_true(old[3] < 0) else old)
  b = dquat(c, 'a')
  b.normalize()
  n = c.sqrt(S.qn2(old[0:4]))
  c.eq('normalised', S.scale(comps(b), n), old, tol=1e-12)
