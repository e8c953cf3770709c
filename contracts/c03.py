"""C03: rotation conversions recover the rotation for every angle and axis."""
from contracts import lemma
from contracts import spec as S
from contracts.c01 import quat, comps, QF
from contracts.c02 import uquat, vec, rows


def same_up_to_sign(c, label, a, b, **k):
  """a = b or a = -b."""
  if c.symbolic:
    p = c.and_(*[x == y for x, y in zip(a, b)])
    m = c.and_(*[x == -y for x, y in zip(a, b)])
    c.check(label, c.or_(p, m))
  else:
    s = 1.0 if S.dot(a, b) >= 0 else -1.0
    c.eq(label, a, S.scale(b, s), **k)


@lemma('C03', [QF + 'from_rotation_matrix'], cases=300)
def matrix_roundtrip(c):
  """Matrix to quaternion recovers the quaternion up to sign, with w >= 0, at every angle."""
  Q = c.mod('quaternion').Quaternion
  u = c.unit('q', 4)
  m = c.floats(S.rotmat(u))
  s = c.snap(m)
  r = Q.from_rotation_matrix(m)
  c.unchanged('the matrix is not changed', s, m)
  c.disjoint('own storage', r, m)
  c.check('a quaternion', type(r) is Q)
  r = comps(r)
  c.le('non-negative real part', 0, r[3])
  # the outer product determines a quaternion up to sign
  c.eq('r r^T = q q^T', [[x * y for y in r] for x in r], [[x * y for y in u] for x in u], tol=1e-7)
  same_up_to_sign(c, 'equal up to sign', r, u, tol=1e-7)


@lemma('C03', [QF + 'from_rotation_matrix', QF + 'to_rotation_matrix'])
def code_roundtrip(c):
  """to_rotation_matrix followed by from_rotation_matrix is the identity up to sign."""
  Q = c.mod('quaternion').Quaternion
  q = uquat(c, 'q')
  u = comps(q)
  r = comps(Q.from_rotation_matrix(q.to_rotation_matrix()))
  c.le('non-negative real part', 0, r[3])
  c.eq('r r^T = q q^T', [[x * y for y in r] for x in r], [[x * y for y in u] for x in u], tol=1e-7)


@lemma('C03', [QF + 'from_rotation_matrix'], sym=False, cases=200,
       bounded='accuracy close to 180 degrees and for tiny rotations: sampled angles')
def matrix_accuracy(c):
  """The conversion is accurate to 1e-7 for tiny rotations and close to half turns."""
  Q = c.mod('quaternion').Quaternion
  axis = c.unit('n', 3)
  base = c.choose('base', [0.0, c.pi / 2, c.pi])
  h = base + c.choose('s', [1, -1]) * 10 ** c.real('e', -12, -1)
  u = S.scale(axis, c.sin(h)) + [c.cos(h)]
  r = comps(Q.from_rotation_matrix(c.floats(S.rotmat(u))))
  c.check('finite', c.is_finite(r))
  same_up_to_sign(c, 'equal up to sign', r, u, tol=1e-8)


@lemma('C03', [QF + 'from_angle_axis'])
def from_angle_axis(c):
  """Real part cos(angle/2), imaginary part sin(angle/2) along the normalised axis."""
  Q = c.mod('quaternion').Quaternion
  a, v = c.real('a'), vec(c, 'v')
  if not c.symbolic:
    v = v * c.choose('length', [1.0, 1.0, 1e-5, 1e-9, 1e-13, 1e6])
  n2 = S.dot(list(v), list(v))
  c.assume(n2 > c.const('1e-31'))
  s = c.snap(v)
  q = Q.from_angle_axis(a, v)
  c.unchanged('the axis is not changed', s, v)
  c.disjoint('own storage', q, v)
  c.check('a quaternion', type(q) is Q)
  n = c.sqrt(n2)
  q = comps(q)
  c.eq('real part', q[3], c.cos(a / 2))
  c.eq('imaginary part', S.scale(q[0:3], n), S.scale(list(v), c.sin(a / 2)), scale=n)
  c.eq('unit', S.qn2(q), 1)


@lemma('C03', [QF + 'from_angle_axis'], cases=20)
def from_angle_axis_sequences(c):
  """The axis may be any sequence, also of integers."""
  Q = c.mod('quaternion').Quaternion
  a = c.real('a')
  for ax in ([0, 0, 2], (0., 3., 4.)):
    n = c.sqrt(S.dot(ax, ax) * c.const('1'))
    q = comps(Q.from_angle_axis(a, c.list(ax) if isinstance(ax, list) else ax))
    c.eq('real part', q[3], c.cos(a / 2))
    c.eq('imaginary part', S.scale(q[0:3], n), S.scale(list(ax), c.sin(a / 2)))


@lemma('C03', [QF + 'angle_axis'], cases=300)
def angle_axis(c):
  """Unit axis and an angle in [0, 2 pi] that reproduce the quaternion; within 1e-12
  of real part +-1 it may be reported as no rotation."""
  q = uquat(c, 'q')
  s = c.snap(q)
  r = q.angle_axis()
  c.unchanged('the quaternion is not changed', s, q)
  c.disjoint('own storage', r, q)
  x, y, z, w = comps(q)
  r = list(r)
  c.check('axis and angle', len(r) == 4)
  ax, ang = r[0:3], r[3]
  tol = lost_digits(c, w)
  c.eq('unit axis', S.dot(ax, ax), 1, tol=tol)
  c.le('angle >= 0', 0, ang)
  c.le('angle <= 2 pi', ang, 2 * c.pi)
  d = c.const('1e-12')
  if c.is_true(c.or_(w >= 1 - d, w <= -1 + d)):
    # within the exempted range: no rotation, or the exact angle and axis
    tiny = c.or_(c.close(ang, 0, tol=1e-4), c.close(c.cos(ang / 2), w, tol=1e-4))
    c.check('no rotation or reproduced', tiny)
  else:
    c.eq('cos(angle/2) = w', c.cos(ang / 2), w)
    c.eq('sin(angle/2) axis = (x, y, z)', S.scale(ax, c.sin(ang / 2)), [x, y, z], tol=tol)


def lost_digits(c, w):
  """Rounding error of 1 - w^2 relative to its value (concrete runs only)."""
  return 1e-9 if c.symbolic else 1e-9 + 1e-14 / max(1e-13, 1 - abs(w))


@lemma('C03', [QF + 'angle_axis'], sym=False, cases=300,
       bounded='accuracy for small rotations: sampled angles 1e-5 .. 1 and both signs')
def angle_axis_small(c):
  """Small rotations are not dropped."""
  n = c.unit('n', 3)
  h = 10 ** c.real('e', -5, 0)
  s = c.choose('s', [1, -1])
  Q = c.mod('quaternion').Quaternion
  q = Q(q=c.floats(S.scale(S.scale(n, c.sin(h)) + [c.cos(h)], s)))
  r = list(q.angle_axis())
  want = 2 * h if s > 0 else 2 * c.pi - 2 * h
  c.check('finite', c.is_finite(r))
  c.eq('angle', r[3], want, tol=1e-6)
  c.eq('axis', r[0:3], S.scale(n, s), tol=1e-4)


@lemma('C03', [QF + 'from_angle_axis', QF + 'angle_axis'], sym=False, cases=200,
       bounded='inverse of two transcendental functions: sampled angles and axes')
def angle_axis_roundtrip(c):
  """from_angle_axis after angle_axis returns the same quaternion."""
  Q = c.mod('quaternion').Quaternion
  q = uquat(c, 'q')
  r = q.angle_axis()
  if 1 - abs(comps(q)[3]) > 1e-11:
    b = Q.from_angle_axis(r[3], r[0:3])
    c.eq('same quaternion', comps(b), comps(q), tol=1e-5)
  a = c.real('a', 0.001, 6.283)
  v = c.unit('v', 3)
  back = list(Q.from_angle_axis(a, c.floats(v)).angle_axis())
  c.eq('angle', back[3], a, tol=1e-6)
  c.eq('axis', back[0:3], v, tol=1e-5)


@lemma('C03', [QF + 'get_random'], sym=False, cases=30,
       bounded='random generator: sampled')
def random_unit(c):
  """Random orientations are unit quaternions with the requested angle range."""
  Q = c.mod('quaternion').Quaternion
  q = Q.get_random()
  c.eq('unit', S.qn2(comps(q)), 1)
  lo = c.real('lo', 0.1, 1.5)
  hi = lo + c.real('w', 0.01, 1.5)
  r = Q.get_random(min_angle=lo, max_angle=hi).angle_axis()
  c.le('lower', lo, r[3], tol=1e-9)
  c.le('upper', r[3], hi, tol=1e-9)
