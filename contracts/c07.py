"""C07: screw parameters describe the motion and are frame independent."""
from contracts import lemma
from contracts import spec as S
from contracts.c05 import DF, comps, udquat, dquat


def screw(c, d):
  s = c.snap(d)
  axis, rot, trans = d.screw_axis()
  c.unchanged('reading the parameters does not change the motion', s, d)
  c.disjoint('own storage', axis, d)
  c.check('three components', len(axis) == 3)
  return list(axis), rot, trans


def half(c, rot):
  return rot / 2 * c.pi / 180


@lemma('C07', [DF + 'screw_axis'], cases=400, budget=200)
def parameters(c):
  """Axis, angle and translation reproduce the real part and the dual scalar."""
  d = udquat(c, 'a')
  u = comps(d)
  n2 = S.qn2(u[0:3])
  if not c.symbolic:
    c.assume(n2 > 1e-12)
  axis, rot, trans = screw(c, d)
  c.le('angle not negative', 0, rot)
  c.lt('angle below 360', rot, 360, tol=0)
  if c.is_true(rot > c.const('1e-12')):
    h = half(c, rot)
    e = 0.0 if c.symbolic else 1e-15 / n2       # rounding of the real part near +-1
    c.eq('real scalar', c.cos(h), u[3], tol=1e-9)
    c.eq('real vector', S.scale(axis, c.sin(h)), u[0:3], tol=1e-9)
    c.eq('dual scalar', -trans / 2 * c.sin(h), u[7], tol=1e-9)
    c.lt('0 < sin of half the angle', 0, c.sin(h))
    c.eq('unit axis', S.qn2(axis), 1, tol=1e-7 + 4 * e)


@lemma('C07', [DF + 'screw_axis'], cases=100)
def pure_translation(c):
  """A pure translation reports its length and direction, and the identity a zero axis."""
  D = c.mod('dual_quaternion').DualQuaternion
  t = c.reals('t', 3)
  sign = c.choose('sign', [1, -1])
  d = D.from_vector(c.floats([0, 0, 0, sign] + [x * sign / 2 for x in t] + [0]))
  axis, rot, trans = screw(c, d)
  c.eq('no rotation', rot, 0)
  c.le('length not negative', 0, trans)
  c.eq('length', trans * trans, S.qn2(t))
  if c.is_true(trans > c.const('1e-12')):
    c.eq('direction', S.scale(axis, trans * sign), t)
  z = D.from_vector(c.floats([0, 0, 0, sign, 0, 0, 0, 0]))
  axis, rot, trans = screw(c, z)
  c.eq('identity: zero axis', axis, [0, 0, 0])
  c.eq('identity: zero angle', rot, 0)
  c.eq('identity: zero translation', trans, 0)


@lemma('C07', [DF + 'scalar'])
def scalar(c):
  """The scalar part contains exactly the two scalar components."""
  d = dquat(c, 'a')
  s = c.snap(d)
  r = d.scalar()
  c.unchanged('the operand is not changed', s, d)
  c.disjoint('own storage', r, d)
  c.check('a dual quaternion', type(r) is type(d))
  u = comps(d)
  c.eq('scalar part', comps(r), [0, 0, 0, u[3], 0, 0, 0, u[7]])


@lemma('C07', [DF + 'scalar', DF + '__mul__', DF + 'inverse'])
def scalar_frame_independent(c):
  """The same motion seen from another rigidly attached frame has the same scalar part."""
  a, x = udquat(c, 'a'), udquat(c, 'x')
  b = x * a * x.inverse()
  k = 0.0 if c.symbolic else S.qn2(comps(x)) + S.qn2(comps(a))
  c.eq('scalar part', comps(b.scalar()), comps(a.scalar()), tol=1e-8, scale=k)
  b = x.inverse() * a * x
  c.eq('scalar part (inverse frame)', comps(b.scalar()), comps(a.scalar()), tol=1e-8, scale=k)


@lemma('C07', [DF + 'screw_axis', DF + '__mul__', DF + 'inverse'], cases=200, budget=200)
def screw_frame_independent(c):
  """Rotation angle and axial translation do not depend on the frame."""
  a, x = udquat(c, 'a'), udquat(c, 'x')
  b = x * a * x.inverse()
  u, v = comps(a), comps(b)
  if c.symbolic:
    c.eq('real scalar', v[3], u[3])
    c.eq('dual scalar', v[7], u[7])
    # from here on: any motion with the same scalar part
    w = c.reals('b', 6)
    v = w[0:3] + [u[3]] + w[3:6] + [u[7]]
    c.assume(S.qn2(v[0:4]) == 1)
    c.assume(S.dot(v[0:4], v[4:8]) == 0)
    b = c.mod('dual_quaternion').DualQuaternion.from_vector(c.floats(v))
  else:
    c.assume(S.qn2(u[0:3]) > 1e-4)
  _, rot, trans = screw(c, a)
  if not c.is_true(rot > c.const('1e-12')):
    return
  _, rot2, trans2 = screw(c, b)
  k = 0.0 if c.symbolic else 1 + S.qn2(u) + S.qn2(comps(x))
  c.have('same angle', rot2 == rot)
  c.eq('angle', rot2, rot, tol=1e-7)
  c.eq('axial translation', trans2, trans, tol=1e-7, scale=k)


@lemma('C07', [DF + 'is_normalized'], cases=100)
def is_normalized(c):
  """is_normalized holds for unit dual quaternions and fails when either constraint is violated by 1e-6."""
  D = c.mod('dual_quaternion').DualQuaternion
  d = udquat(c, 'a')
  u = comps(d)
  if c.symbolic or max(map(abs, u)) < 100:
    c.check('unit', c.is_true(d.is_normalized()))
  k = c.real('k', 1, 2)
  c.assume(k > c.const('1.000001'))
  c.check('norm too large', not c.is_true(D.from_vector(c.floats(S.scale(u, k))).is_normalized()))
  e = D.from_vector(c.floats(u[0:4] + S.add(u[4:8], S.scale(u[0:4], k))))
  c.check('dual constraint violated', not c.is_true(e.is_normalized()))
