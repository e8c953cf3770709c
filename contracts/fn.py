"""Contracts of the functions of /repo that other functions are verified against.

spec(s, args...) states the result and the effect on the arguments; pre(s, args...)
says to which arguments the contract applies (other calls are verified by going
through the body).  Each contract is itself verified: the body, on arbitrary
arguments within pre, must agree with spec.
"""
from contracts import contract
from contracts import spec as S
from contracts.paths import orientation_at, path, position_at, turned, within

Q = 'hand_eye_calibration.quaternion:Quaternion.'
D = 'hand_eye_calibration.dual_quaternion:DualQuaternion.'
T = 'hand_eye_calibration.time_alignment:'
H = 'hand_eye_calibration.dual_quaternion_hand_eye_calibration:'


def quat(c, name='q'):
  return c.mod('quaternion').Quaternion(q=c.floats(c.reals(name, 4)))


def nzquat(c, name='q'):
  q = quat(c, name)
  c.assume(S.qn2(list(q.q)) > 0)
  return q


def dquat(c, name='d'):
  D_ = c.mod('dual_quaternion').DualQuaternion
  o = D_.__new__(D_)
  o.dq = c.floats(c.reals(name, 8))
  return o


def two(c):
  return [quat(c, 'a'), quat(c, 'b')]


def qq(s, self, other):
  return s.is_quat(self) and s.is_quat(other)


def q1(s, self):
  return s.is_quat(self)


@contract(Q + '__mul__', two, qq)
def q_mul(s, self, other):
  """Hamilton product in a new object."""
  return s.quat(S.qmul(list(self.q), list(other.q)))


@contract(Q + '__add__', two, qq)
def q_add(s, self, other):
  """Component-wise sum in a new object."""
  return s.quat(S.add(self.q, other.q))


@contract(Q + '__sub__', two, qq)
def q_sub(s, self, other):
  """Component-wise difference in a new object."""
  return s.quat(S.sub(self.q, other.q))


@contract(Q + '__neg__', lambda c: [quat(c)], q1)
def q_neg(s, self):
  """Negated components in a new object."""
  return s.quat(S.neg(self.q))


@contract(Q + '__rmul__', lambda c: [quat(c), c.real('s')],
          lambda s, self, other: s.is_quat(self) and s.is_num(other))
def q_rmul(s, self, other):
  """Scalar multiple in a new object."""
  return s.quat(S.scale(self.q, other))


@contract(Q + 'conjugate', lambda c: [quat(c)], q1)
def q_conjugate(s, self):
  """Negated imaginary part in a new object."""
  return s.quat(S.qconj(list(self.q)))


@contract(Q + 'squared_norm', lambda c: [quat(c)], q1)
def q_squared_norm(s, self):
  """Sum of squares of the components."""
  return S.qn2(self.q)


@contract(Q + 'norm', lambda c: [quat(c)], q1)
def q_norm(s, self):
  """Non-negative root of the sum of squares of the components."""
  n2 = S.qn2(self.q)
  return s.array(1)[()] if s.is_one(n2) else s.sqrt(n2)


@contract(Q + 'inverse', lambda c: [nzquat(c)], q1)
def q_inverse(s, self):
  """conjugate / squared norm in a new object; requires a non-zero quaternion."""
  n = S.qn2(self.q)
  s.require('the inverted quaternion is not zero', n > 0)
  if s.is_one(n):
    return s.quat(S.qconj(list(self.q)))
  return s.quat([s.div(x, n) for x in S.qconj(list(self.q))])


@contract(Q + 'copy', lambda c: [quat(c)], q1)
def q_copy(s, self):
  """The same components in a new object."""
  return s.quat(self.q)


@contract(Q + 'normalize', lambda c: [quat(c)], q1)
def q_normalize(s, self):
  """Above norm 1e-8 the components are divided by the norm."""
  n2 = S.qn2(self.q)
  if s.is_one(n2):
    self.q = s.array(list(self.q))
    return
  n = s.root(n2)
  if s.is_true(n * 100000000 > 1):
    self.q = s.array([s.div(x, n) for x in self.q])


@contract(Q + 'to_rotation_matrix', lambda c: [quat(c)], q1)
def q_matrix(s, self):
  """The rotation matrix of a unit quaternion (2nd order form of the components)."""
  x, y, z, w = self.q
  return s.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                  [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                  [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


# ---- dual quaternions --------------------------------------------------------

def d1(s, self):
  return s.is_dq(self)


@contract(D + '__init__', lambda c: [dquat(c), quat(c, 'a'), quat(c, 'b')],
          lambda s, self, q_rot, q_dual: s.is_quat(q_rot) and s.is_quat(q_dual))
def d_init(s, self, q_rot, q_dual):
  """Stores copies of both parts."""
  self.dq = s.array(list(q_rot.q) + list(q_dual.q))


@contract(D + '__mul__', lambda c: [dquat(c, 'a'), dquat(c, 'b')],
          lambda s, self, other: s.is_dq(self) and s.is_dq(other))
def d_mul(s, self, other):
  """Dual quaternion product in a new object."""
  return s.dq(S.dqmul(list(self.dq), list(other.dq)))


@contract(D + 'conjugate', lambda c: [dquat(c)], d1)
def d_conjugate(s, self):
  """Both parts conjugated, in a new object."""
  return s.dq(S.dqconj(list(self.dq)))


@contract(D + 'copy', lambda c: [dquat(c)], d1)
def d_copy(s, self):
  """The same components in a new object."""
  return s.dq(self.dq)


def udquat(c, name='d'):
  d = dquat(c, name)
  c.assume(S.qn2(list(d.dq[0:4])) == 1)
  c.assume(S.dot(list(d.dq[0:4]), list(d.dq[4:8])) == 0)
  return d


def unit(s, d):
  return s.is_dq(d) and s.is_one(S.qn2(list(d.dq[0:4])))


def motion(s, d):
  return unit(s, d) and s.is_zero(S.dot(list(d.dq[0:4]), list(d.dq[4:8])))


@contract(D + 'inverse', lambda c: [udquat(c)], motion)
def d_inverse(s, self):
  """The inverse of a rigid motion is the conjugate, in a new object."""
  return s.dq(S.dqconj(list(self.dq)))


@contract(D + 'enforce_positive_q_rot_w', lambda c: [udquat(c)], unit)
def d_positive(s, self):
  """Both parts negated if the real part is negative."""
  self.dq = s.array(S.scale(list(self.dq), s.sign(self.dq[3])))


@contract(D + 'to_pose', lambda c: [udquat(c)], unit)
def d_to_pose(s, self):
  """Translation and quaternion with non-negative real part of a rigid motion."""
  d = list(self.dq)
  t = S.scale(S.qmul(d[4:8], S.qconj(d[0:4])), 2)
  return s.array(t[0:3] + S.scale(d[0:4], s.sign(d[3])))


def two_units(c):
  Q_ = c.mod('quaternion').Quaternion
  return [Q_(q=c.floats(c.unit('a', 4))), Q_(q=c.floats(c.unit('b', 4)))]


def units(s, q1, q2):
  return s.is_quat(q1) and s.is_quat(q2) and s.is_one(S.qn2(q1.q)) and s.is_one(S.qn2(q2.q))


def cosine(c, a, b):
  """a . b for unit vectors, shown to be within [-1, 1] (Lagrange's identity)."""
  m = [c.name('minor', a[i] * b[j] - a[j] * b[i]) for i in range(4) for j in range(i)]
  w = c.name('cosine', S.dot(a, b))
  c.have('Lagrange', w * w + S.qn2(m) == 1)
  c.have('Cauchy-Schwarz', w * w <= 1, [w * w + S.qn2(m) == 1])
  c.have('upper bound', w <= 1, [w * w <= 1])
  c.have('lower bound', w >= -1, [w * w <= 1])
  return w


def near(c, w):
  return w >= 1 - c.const('4e-10')


def verify_angle(c, run, args):
  a, b = [list(q.q) for q in args]
  w = cosine(c, a, b)
  r = run(args)
  if not c.known(r == 2 * c.arccos(S.dot(a, b))):
    c.eq('angle', r, 0)
    e = [c.name('e', x - y) for x, y in zip(a, b)]
    c.have('cosine of the difference', w == 1 - S.qn2(e) / 2)
    for x, y in zip(e, b):
      c.have('component at most one', y * y <= 1)
      c.have('component', c.and_(y <= 1, y >= -1), [y * y <= 1])
      bound = c.const('1.0001e-5')
      c.check('small difference', c.and_(x <= bound, x >= -bound))
      c.have('small square', x * x <= c.const('1.0003e-10'), [x <= bound, x >= -bound])
    c.have('only nearly equal orientations have no angle', near(c, w),
           [w == 1 - S.qn2(e) / 2] + [x * x <= c.const('1.0003e-10') for x in e],
           opaque=[w] + [x * x for x in e])
  c.eq('the angle depends only on the quaternions', run(args), r)


@contract('hand_eye_calibration.quaternion:angle_between_quaternions', two_units, units, verify_angle)
def angle_between(s, q1, q2):
  """Twice the angle between unit quaternions; may be zero if they are nearly equal."""
  a, b = list(q1.q), list(q2.q)
  w = S.dot(a, b)
  s.fact(w <= 1)
  s.fact(w >= -1)
  if s.is_true(s.value('no_angle', a + b) > 0):
    s.fact(near(s, w))
    return s.array([0])[0]
  t = s.arccos(w)
  s.fact(t >= 0)
  return 2 * t


def shorter(s, a, b):
  """a conj(b) with a real part that is not negative."""
  r = S.qmul(list(a), S.qconj(list(b)))
  return S.neg(r) if s.is_true(r[3] < 0) else r


def verify_rate(c, run, args):
  Q_ = c.mod('quaternion').Quaternion
  a, b = [list(q.q) for q in args[0:2]]
  cosine(c, a, b)
  v = run(args)
  c.disjoint('own storage', v, args)
  r = shorter(c, a, b)
  w = run([Q_(q=c.floats(r)), Q_(q=c.floats([0, 0, 0, 1])), args[2]])
  c.eq('the rate depends only on the turn and the time', list(v), list(w))


def rate_domain(c):
  t = c.real('t')
  c.assume(t > 0)
  return two_units(c) + [t]


@contract('hand_eye_calibration.quaternion:angular_velocity_between_quaternions', rate_domain,
          lambda s, q1, q2, t: units(s, q1, q2) and s.is_num(t), verify_rate)
def rate(s, q1, q2, t):
  """A vector that depends only on the shorter turn from one to the other and the time (C15)."""
  s.require('time is positive', t > 0)
  r = shorter(s, q1.q, q2.q)
  return s.array([s.value('rate%d' % j, r + [t]) for j in range(3)])


def is_pose(s, p):
  return s.is_array(p, 7)


def verify_pose_error(c, run, args):
  p, o = run(args)
  c.le('distance not negative', 0, p)
  c.eq('distance', p * p, S.qn2(S.sub(list(args[0][0:3]), list(args[1][0:3]))))
  c.le('angle not negative', 0, o)
  c.le('angle at most 180', o, 180)
  p2, o2 = run(args)
  c.eq('the error depends only on the poses', [p2, o2], [p, o])


def pose7(c, name):
  p = c.floats(c.reals(name, 7))
  c.assume(S.qn2(list(p[3:7])) > c.const('1e-12'))
  return p


@contract(H + 'compute_pose_error', lambda c: [pose7(c, 'a'), pose7(c, 'b')],
          lambda s, pose_A, pose_B: is_pose(s, pose_A) and is_pose(s, pose_B), verify_pose_error)
def pose_error(s, pose_A, pose_B):
  """Distance of the positions; the angle is some function of the orientations in [0, 180]."""
  a, b = list(pose_A), list(pose_B)
  for q in (a, b):
    s.require('orientations are not zero', S.qn2(q[3:7]) > s.const('1e-12'))
  o = s.value('orientation_error', a[3:7] + b[3:7])
  s.fact(o >= 0)
  s.fact(o <= 180)
  return s.sqrt(S.qn2(S.sub(a[0:3], b[0:3]))), o


def verify_slerp(c, run, args):
  q = run(args)
  c.check('a quaternion', type(q) is c.mod('quaternion').Quaternion)
  c.disjoint('own storage', q, args)
  c.eq('the result depends only on the arguments', list(run(args).q), list(q.q))


def slerp_domain(c):
  Q_ = c.mod('quaternion').Quaternion
  return [Q_(q=c.floats(c.unit('a', 4))), Q_(q=c.floats(c.unit('b', 4))), c.real('f', 0, 1)]


@contract('hand_eye_calibration.quaternion:quaternion_slerp', slerp_domain,
          lambda s, a, b, f: s.is_quat(a) and s.is_quat(b) and s.is_num(f), verify_slerp)
def slerp(s, q_1, q_2, fraction):
  """A quaternion that depends only on the two unit quaternions and the fraction (C04)."""
  a, b = list(q_1.q), list(q_2.q)
  s.require('first quaternion is unit', S.qn2(a) == 1)
  s.require('second quaternion is unit', S.qn2(b) == 1)
  s.require('fraction in [0, 1]', s.and_(fraction >= 0, fraction <= 1))
  r = [s.value('slerp%d' % j, a + b + [fraction]) for j in range(4)]
  return s.quat(r)


def upath(c):
  n = c.length('n', 1)
  return c.seq('v', n, lambda e: mk(c, e.dq8('p')))


def mk(c, xs):
  D_ = c.mod('dual_quaternion').DualQuaternion
  o = D_.__new__(D_)
  o.dq = c.floats(xs)
  return o


def verify_align(c, run, args):
  vec, k, positive = args
  n = c.len(vec)
  out = run(args)
  c.eq('same length', c.len(out), n)
  for i in c.each('i', n):
    j = k + i - n if c.is_true(k + i >= n) else k + i
    want = S.dqmul(S.dqconj(list(c.at(vec, k).dq)), list(c.at(vec, j).dq))
    if positive and c.is_true(want[3] < 0):
      want = S.scale(want, -1)
    o = c.at(out, i)
    c.check('a dual quaternion', type(o) is c.mod('dual_quaternion').DualQuaternion)
    c.eq('element', list(o.dq), want)
    c.disjoint('own storage', o, vec)
    l = c.index('l', n)
    c.assume(l < i)
    c.disjoint('separate elements', o, c.at(out, l))


def align_domain(c):
  v = upath(c)
  return [v, c.index('k', c.len(v)), c.boolean('positive')]


def align_pre(s, dq_vec, align_index, positive):
  if not s.is_list(dq_vec):
    return False
  n = s.len(dq_vec)
  return s.known(s.and_(align_index >= 0, align_index < n)) and \
      s.forall(dq_vec, lambda d: s.is_dq(d)) and \
      s.forall(dq_vec, lambda d: S.qn2(list(d.dq[0:4])) == 1) and \
      s.forall(dq_vec, lambda d: S.dot(list(d.dq[0:4]), list(d.dq[4:8])) == 0)


@contract(H + 'align_paths_at_index', align_domain, align_pre, verify_align)
def align(s, dq_vec, align_index, positive):
  """Element i is inverse(reference) times element (k + i) mod n, optionally with non-negative real part."""
  n = s.len(dq_vec)
  vec, k = s.copy(dq_vec), align_index
  ref = S.dqconj(list(s.at(vec, k).dq))

  def elem(i):
    j = k + i
    if not (isinstance(k, int) and k == 0) and s.is_true(j >= n):
      j = j - n
    w = S.dqmul(ref, list(s.at(vec, j).dq))
    if positive:
      w = S.scale(w, s.sign(w[3]))
    return s.dq(w)
  return s.seq(n, elem)


def interpolate_domain(c):
  n = c.length('n', 1)
  p = path(c, n)
  return [p, within(c, p[:, 0], n)[1]]


def verify_interpolate(c, run, args):
  p, samples = args
  k = c.len(samples)
  out = run(args)
  c.check('a table with eight columns', out.shape[1] == 8)
  c.eq('one row per time', c.len(out), k)
  c.disjoint('own storage', out, args)
  for i in c.each('i', k):
    t, row = c.at(samples, i), c.at(out, i)
    c.eq('stamp', row[0], t)
    c.eq('position', list(row[1:4]), position_at(c, p, t))
    c.eq('orientation', list(row[4:8]), orientation_at(c, p[:, 0], turned(c, p), t))


@contract(T + 'interpolate_poses_from_samples', interpolate_domain,
          lambda s, p, samples: s.is_table(p, 8) and s.is_series(samples), verify_interpolate)
def interpolate_poses(s, time_stamped_poses, samples):
  """Row i is the pose of the path at time i (positions on the line between the neighbours)."""
  p, ts = s.copy(time_stamped_poses), s.copy(samples)
  n, k = s.len(p), s.len(ts)
  s.require_all('orientations are unit', p, lambda row: S.qn2(list(row[4:8])) == 1)
  s.require_sorted('stamps increase', p[:, 0])
  s.require('at least one pose', s.or_(n >= 1, k == 0))
  s.require_all('times inside of the path', ts, lambda t: s.and_(s.at(p, 0)[0] <= t, t <= s.at(p, n - 1)[0]))

  def row(i):
    t = s.at(ts, i)
    return [t] + s.pose_at(p, t)
  return s.table(k, 8, row)
