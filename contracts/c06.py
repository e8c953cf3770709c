"""C06: poses, matrices and dual quaternions convert without loss."""
from contracts import lemma
from contracts import spec as S
from contracts.c02 import rows
from contracts.c03 import same_up_to_sign
from contracts.c05 import DF, comps, udquat, unit


def pose(c, name='p'):
  """Translation and a quaternion well above the numerical zero (1e-8)."""
  t, q = c.reals(name + '.t', 3), c.reals(name + '.q', 4)
  n2 = S.qn2(q)
  c.assume(n2 > c.const('1e-16') if c.symbolic else n2 > 1e-5)
  return t, q


@lemma('C06', [DF + 'from_pose', DF + 'to_pose', DF + 'from_pose_vector'])
def pose_roundtrip(c):
  """Pose -> dual quaternion -> pose: same translation, normalised quaternion with w >= 0."""
  D = c.mod('dual_quaternion').DualQuaternion
  t, q = pose(c)
  d = D.from_pose(t[0], t[1], t[2], q[0], q[1], q[2], q[3])
  unit(c, 'unit constraints', comps(d), scale=0.0 if c.symbolic else max(map(abs, t)))
  n = c.sqrt(S.qn2(q))
  c.eq('real part is the normalised quaternion', S.scale(comps(d)[0:4], n), q)
  r = d.to_pose()
  c.disjoint('own storage', r, d)
  c.check('seven numbers', r.shape == (7,))
  r = list(r)
  c.eq('translation', r[0:3], t)
  c.le('non-negative real part', 0, r[6])
  s = -1 if c.is_true(q[3] < 0) else 1
  c.eq('quaternion', S.scale(r[3:7], n * s), q)


@lemma('C06', [DF + 'from_pose_vector'])
def pose_vector(c):
  """The pose vector is [x, y, z, qx, qy, qz, qw] and is not changed."""
  D = c.mod('dual_quaternion').DualQuaternion
  t, q = pose(c)
  v = c.floats(t + q)
  s = c.snap(v)
  d = D.from_pose_vector(v)
  c.unchanged('the vector is not changed', s, v)
  c.disjoint('own storage', d, v)
  c.eq('as from_pose', comps(d), comps(D.from_pose(*(t + q))))


@lemma('C06', [DF + 'to_matrix', DF + 'from_pose'], budget=200)
def pose_matrix(c):
  """Pose -> dual quaternion -> matrix holds rotation and translation."""
  D = c.mod('dual_quaternion').DualQuaternion
  t = c.reals('t', 3)
  q = c.unit('q', 4)
  d = D.from_pose_vector(c.floats(t + q))
  m = d.to_matrix()
  c.disjoint('own storage', m, d)
  c.check('4x4', m.shape == (4, 4))
  r = S.rotmat(q)
  c.eq('rotation and translation', rows(m), [r[i] + [t[i]] for i in range(3)] + [[0, 0, 0, 1]])


@lemma('C06', [DF + 'from_transformation_matrix', DF + 'to_pose'], cases=300, budget=250)
def matrix_pose(c):
  """Matrix -> dual quaternion -> pose recovers translation and rotation at every angle."""
  D = c.mod('dual_quaternion').DualQuaternion
  t = c.reals('t', 3)
  q = c.unit('q', 4)
  r = S.rotmat(q)
  m = c.floats([r[i] + [t[i]] for i in range(3)] + [[0, 0, 0, 1]])
  s = c.snap(m)
  d = D.from_transformation_matrix(m)
  c.unchanged('the matrix is not changed', s, m)
  c.disjoint('own storage', d, m)
  same_up_to_sign(c, 'rotation', comps(d)[0:4], q, tol=1e-7)
  p = list(d.to_pose())
  c.eq('translation', p[0:3], t, tol=1e-7)
  c.le('non-negative real part', 0, p[6])
  same_up_to_sign(c, 'rotation of the pose', p[3:7], q, tol=1e-7)


@lemma('C06', [DF + 'to_matrix', DF + 'from_transformation_matrix'], cases=300, budget=250)
def matrix_matrix(c):
  """Matrix -> dual quaternion -> matrix is the identity at every rotation angle."""
  D = c.mod('dual_quaternion').DualQuaternion
  m = c.floats(S.matrix(c.dq8('a')))
  c.eq('same matrix', rows(D.from_transformation_matrix(m).to_matrix()), rows(m), tol=1e-7)


@lemma('C06', [DF + 'to_pose', DF + 'to_matrix', DF + 'normalize'], budget=200)
def scale_invariant(c):
  """Rescaling or negating a dual quaternion does not change its pose or matrix."""
  D = c.mod('dual_quaternion').DualQuaternion
  u = c.dq8('a')
  k = c.real('k')
  c.assume(c.or_(k > c.const('1e-3'), k < c.const('-1e-3')))
  d, e = D.from_vector(c.floats(u)), D.from_vector(c.floats(S.scale(u, k)))
  p, r = list(d.to_pose()), list(e.to_pose())
  c.eq('translation', r[0:3], p[0:3], tol=1e-8)
  c.eq('translation 2 d r*', p[0:3], S.translation(u), tol=1e-8)
  if c.is_true(c.or_(u[3] > 0, u[3] < 0)) and (c.symbolic or abs(u[3]) > 1e-12):
    c.eq('quaternion', r[3:7], p[3:7], tol=1e-8)
  same_up_to_sign(c, 'rotation', r[3:7], p[3:7], tol=1e-8)
  c.eq('quaternion of the pose', S.scale(p[3:7], -1 if c.is_true(u[3] < 0) else 1), u[0:4])
  c.eq('matrix', rows(D.from_vector(c.floats(S.scale(u, k))).to_matrix()), S.matrix(u), tol=1e-8)


@lemma('C06', [DF + 'passive_transform_point', DF + 'active_transform_point'], budget=200)
def points(c):
  """Applying the motion to a point gives R p + t; the active transformation inverts that map."""
  d = udquat(c, 'a')
  p = c.floats(c.reals('p', 3))
  s = c.snap(p)
  u = comps(d)
  r = d.passive_transform_point(p)
  c.check('three numbers', len(r) == 3)
  c.eq('R p + t', list(r), S.apply(u, list(p)), tol=1e-8)
  q = d.active_transform_point(r)
  c.eq('active inverts passive', list(q), list(p), tol=1e-8)
  q = list(d.active_transform_point(p))
  c.eq('passive inverts active', S.apply(u, q), list(p), tol=1e-8)
  c.unchanged('the point is not changed', s, p)
  c.eq('the motion is not changed', comps(d), u)


@lemma('C06', [DF + 'to_pose', DF + 'to_matrix'])
def conversions_repeat(c):
  """Converting a unit dual quaternion does not change it, so conversions can be repeated."""
  d = udquat(c, 'a')
  u = comps(d)
  p = d.to_pose()
  c.eq('not changed by to_pose', comps(d), u)
  m = d.to_matrix()
  c.eq('not changed by to_matrix', comps(d), u)
  p[0] = p[0] + 1
  m[0, 0] = m[0, 0] + 1
  c.eq('results are separate', comps(d), u)
