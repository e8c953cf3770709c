"""C02: unit quaternions act as proper rotations in every representation."""
from contracts import lemma
from contracts import spec as S
from contracts.c01 import quat, comps, QF


def uquat(c, name):
  return c.mod('quaternion').Quaternion(q=c.floats(c.unit(name, 4)))


def vec(c, name):
  return c.floats(c.reals(name, 3))


def rows(m):
  return [list(r) for r in m]


@lemma('C02', [QF + 'to_rotation_matrix'])
def matrix(c):
  """The rotation matrix is q e_i q* column by column, orthonormal, with determinant +1."""
  q = uquat(c, 'q')
  s = c.snap(q)
  m = q.to_rotation_matrix()
  c.unchanged('the quaternion is not changed', s, q)
  c.disjoint('the matrix has its own storage', m, q)
  c.check('3x3', m.shape == (3, 3))
  m = rows(m)
  c.eq('columns are the rotated basis vectors', m, S.rotmat(comps(q)))
  t = [list(x) for x in zip(*m)]
  c.eq('orthonormal', S.matmul(t, m), [[1, 0, 0], [0, 1, 0], [0, 0, 1]])
  c.eq('determinant +1', S.dot(m[0], S.cross(m[1], m[2])), 1)


@lemma('C02', [QF + 'to_transformation_matrix'])
def matrix4(c):
  """The 4x4 matrix embeds the rotation matrix with zero translation."""
  q = uquat(c, 'q')
  s = c.snap(q)
  m = q.to_transformation_matrix()
  c.unchanged('the quaternion is not changed', s, q)
  c.check('4x4', m.shape == (4, 4))
  r = S.rotmat(comps(q))
  c.eq('rotation block and zero translation', rows(m),
       [r[0] + [0], r[1] + [0], r[2] + [0], [0, 0, 0, 1]])


@lemma('C02', [QF + 'rotate_vector'])
def rotate(c):
  """Direct rotation of a vector is q v q* and preserves lengths."""
  q, v = uquat(c, 'q'), vec(c, 'v')
  s = c.snap(q, v)
  r = q.rotate_vector(v)
  c.unchanged('the arguments are not changed', s, q, v)
  c.disjoint('the result has its own storage', r, (q, v))
  r = list(r)
  c.check('three components', len(r) == 3)
  c.eq('q v q*', r, S.rotate(comps(q), list(v)))
  c.eq('same as the matrix', r, S.matvec(rows(q.to_rotation_matrix()), list(v)))
  c.eq('length preserved', S.dot(r, r), S.dot(list(v), list(v)))


@lemma('C02', [QF + 'rotate_vector'], cases=30)
def rotate_sequence(c):
  """Any sequence of three numbers can be rotated."""
  q = uquat(c, 'q')
  v = c.reals('v', 3)
  c.eq('list', list(q.rotate_vector(c.list(v))), S.rotate(comps(q), v))
  c.eq('tuple', list(q.rotate_vector((v[0], v[1], v[2]))), S.rotate(comps(q), v))


@lemma('C02', [QF + '__mul__', QF + 'rotate_vector', QF + 'to_rotation_matrix'])
def composition(c):
  """Products compose rotations."""
  a, b, v = uquat(c, 'a'), uquat(c, 'b'), vec(c, 'v')
  p = a * b
  c.eq('(a b) v = a (b v)', list(p.rotate_vector(v)), list(a.rotate_vector(b.rotate_vector(v))))
  c.eq('R(a b) = R(a) R(b)', rows(p.to_rotation_matrix()),
       S.matmul(rows(a.to_rotation_matrix()), rows(b.to_rotation_matrix())))


@lemma('C02', [QF + 'conjugate', QF + 'inverse', QF + 'rotate_vector', QF + 'to_rotation_matrix'])
def inversion(c):
  """The conjugate (and inverse) inverts the rotation."""
  a, v = uquat(c, 'a'), vec(c, 'v')
  c.eq('q* (q v) = v', list(a.conjugate().rotate_vector(a.rotate_vector(v))), list(v))
  c.eq('q^-1 (q v) = v', list(a.inverse().rotate_vector(a.rotate_vector(v))), list(v))
  m = rows(a.to_rotation_matrix())
  c.eq('R(q*) = R(q)^T', rows(a.conjugate().to_rotation_matrix()), [list(x) for x in zip(*m)])


@lemma('C02', [QF + '__neg__', QF + 'rotate_vector', QF + 'to_rotation_matrix',
               QF + 'to_transformation_matrix'])
def sign(c):
  """q and -q give the same rotation."""
  a, v = uquat(c, 'a'), vec(c, 'v')
  c.eq('vectors', list((-a).rotate_vector(v)), list(a.rotate_vector(v)))
  c.eq('matrices', rows((-a).to_rotation_matrix()), rows(a.to_rotation_matrix()))
  c.eq('4x4 matrices', rows((-a).to_transformation_matrix()), rows(a.to_transformation_matrix()))


@lemma('C02', [QF + 'normalize'])
def normalize(c):
  """Normalising gives the unit quaternion with the same direction, above norm 1e-8."""
  a = quat(c, 'a')
  n2 = S.qn2(comps(a))
  c.assume(n2 > c.const('1e-16') * (1 if c.symbolic else 1.0001))
  old = comps(a)
  r = a.normalize()
  c.check('nothing is returned', r is None)
  c.eq('unit norm', S.qn2(comps(a)), 1)
  k = c.sqrt(n2)
  c.eq('same direction', S.scale(comps(a), k), old, tol=1e-12)


@lemma('C02', [QF + 'normalize'], cases=20)
def normalize_only_self(c):
  """Normalising a quaternion changes no other object."""
  Q = c.mod('quaternion').Quaternion
  v = c.floats(c.reals('v', 4))
  c.assume(S.qn2(list(v)) > c.const('0.0001'))
  s = c.snap(v)
  a = Q(q=v)
  b = a.copy()
  sb = c.snap(b)
  a.normalize()
  c.unchanged('the array it was made from', s, v)
  c.unchanged('its copy', sb, b)
  c.eq('the default quaternion', list(Q.q), [0, 0, 0, 1])


@lemma('C02', [QF + 'normalize'], cases=40, sym=False,
       bounded='norms over the whole machine range (1e-7 .. 1e7): sampled')
def normalize_scales(c):
  """Normalisation works at every magnitude above the threshold."""
  u = c.unit('u', 4)
  k = 10 ** c.real('k', -7.9, 7)
  a = c.mod('quaternion').Quaternion(q=c.floats(S.scale(u, k)))
  a.normalize()
  c.eq('direction', comps(a), u, tol=1e-12)
