"""C12: the alignment error is a true pose distance and RMSE."""
from contracts import lemma
from contracts import spec as S
from contracts.c05 import comps, udquat
from contracts.c08 import H, hec, path, big
from contracts.c14 import stamped


def pose(c, name):
  """Position and unit quaternion."""
  t = c.reals(name + '.t', 3)
  q = c.unit(name + '.q', 4)
  return t, q


def angle(c, q, r):
  """Angle of the relative rotation in degrees, in [0, 180]."""
  d = S.dot(q, r)
  a = -d if c.is_true(d < 0) else d
  return 2 * c.arccos(a) * 180 / c.pi


def close(c, q, r):
  """Closer than a few thousandths of a degree, where the code may report zero."""
  d = S.dot(q, r)
  return c.or_(d >= 1 - c.const('4e-10'), d <= c.const('4e-10') - 1)


@lemma('C12', [H + 'compute_pose_error'], cases=300)
def pose_error(c):
  """Distance of the positions, and angle between the orientations in degrees, in [0, 180]."""
  (t, q), (u, r) = pose(c, 'a'), pose(c, 'b')
  a, b = c.floats(t + q), c.floats(u + r)
  s = c.snap(a, b)
  p, o = hec(c).compute_pose_error(a, b)
  c.unchanged('the poses are not changed', s, a, b)
  d = S.sub(t, u)
  c.le('distance not negative', 0, p)
  c.eq('distance', p * p, S.qn2(d))
  c.le('angle not negative', 0, o)
  c.le('angle at most 180', o, 180)
  w = S.dot(q, r)
  h = c.cos(o * c.pi / 360)
  if c.symbolic:
    c.check('cos^2 of half the angle', c.or_(h * h == w * w, c.and_(o == 0, close(c, q, r))))
  elif not close(c, q, r):
    c.eq('cos^2 of half the angle', h * h, w * w, tol=1e-7)
    c.eq('angle', o, angle(c, q, r), tol=1e-5)
  else:
    c.le('small angle', o, 0.005)


@lemma('C12', [H + 'compute_pose_error'], cases=150)
def pose_error_equal(c):
  """The error of equal poses is zero, also if the quaternion is negated or rescaled."""
  t, q = pose(c, 'a')
  k = c.real('k')
  c.assume(c.or_(k > c.const('0.001'), k < c.const('-0.001')))
  a = c.floats(t + q)
  p, o = hec(c).compute_pose_error(a, c.floats(t + S.scale(q, k)))
  c.eq('position', p, 0)
  c.eq('orientation', o, 0, tol=1e-5)


@lemma('C12', [H + 'compute_pose_error'], cases=150)
def pose_error_symmetric(c):
  """Exchanging the poses, or rescaling or negating a quaternion, does not change the error."""
  (t, q), (u, r) = pose(c, 'a'), pose(c, 'b')
  f = hec(c).compute_pose_error
  e = f(c.floats(t + q), c.floats(u + r))
  c.assume(c.not_(close(c, q, r)))
  x = f(c.floats(u + r), c.floats(t + q))
  c.eq('symmetric: position', x[0], e[0])
  c.eq('symmetric: orientation', x[1], e[1], tol=1e-5)
  k = c.choose('k', [-1, 2, -3])
  x = f(c.floats(t + S.scale(q, k)), c.floats(u + r))
  c.eq('scale of the first: orientation', x[1], e[1], tol=1e-5)
  x = f(c.floats(t + q), c.floats(u + S.scale(r, k)))
  c.eq('scale of the second: orientation', x[1], e[1], tol=1e-5)


def thresholds(c, m):
  config = m.HandEyeConfig()
  tp, to = c.real('tp', 0, 3), c.real('to', 0, 180)
  config.ransac_position_error_threshold_m = tp
  config.ransac_orientation_error_threshold_deg = to
  return config, tp, to


def poses(c, name, n):
  return c.table(name, n, 7, lambda e: list(e.reals('t', 3)) + list(e.unit('q', 4)))


@lemma('C12', [H + 'evaluate_alignment'], cases=100, budget=200)
def evaluation(c):
  """RMSE over all poses, and exactly the poses with both errors below the thresholds are flagged."""
  m = hec(c)
  config, tp, to = thresholds(c, m)
  n = c.length('n', 1, 8)
  a, b = poses(c, 'a', n), poses(c, 'b', n)
  if not c.symbolic:
    for i in range(n):
      k = c.rng.random()
      if k < 0.5:
        b[i] = a[i]
        b[i, 0:3] += 0.3 * c.rng.random()
      if k < 0.2:
        b[i, 3:7] *= -1
    # errors exactly at a threshold are not below it
    j = c.rng.randrange(n)
    p, o = m.compute_pose_error(a[j], b[j])
    k = c.rng.random()
    if k < 0.3:
      config.ransac_position_error_threshold_m = tp = p
    elif k < 0.6:
      config.ransac_orientation_error_threshold_deg = to = o
  s = c.snap(a, b)
  rp, ro, flags = m.evaluate_alignment(a, b, config)
  c.unchanged('the poses are not changed', s, a, b)
  c.eq('one flag per pose', c.len(flags), n)
  err = lambda i: m.compute_pose_error(c.at(a, i), c.at(b, i))
  for i in c.each('i', n):
    p, o = err(i)
    c.check('flagged iff both errors are below', c.iff(c.at(flags, i), c.and_(p < tp, o < to)))
  c.le('position not negative', 0, rp)
  c.le('orientation not negative', 0, ro)
  c.eq('mean square position error', rp * rp * n, c.sum('k', n, lambda i: err(i)[0] * err(i)[0]))
  c.eq('mean square orientation error', ro * ro * n, c.sum('k', n, lambda i: err(i)[1] * err(i)[1]))


@lemma('C12', [H + 'evaluate_alignment'], cases=40)
def evaluation_rejects(c):
  """Lists of different length or width are rejected."""
  m = hec(c)
  config = m.HandEyeConfig()
  n = c.length('n', 1, 5)
  a = poses(c, 'a', n)
  b = poses(c, 'b', n + 1)
  c.raises('different lengths', lambda: m.evaluate_alignment(a, b, config))
  c.raises('different lengths (swapped)', lambda: m.evaluate_alignment(b, a, config))
  c.raises('not a configuration', lambda: m.evaluate_alignment(a, a, None))
  w = c.table('w', n, 8, lambda e: e.reals('x', 8))
  c.raises('not poses', lambda: m.evaluate_alignment(w, w, config))


def same_pose(c, label, got, d, scale=0.0):
  """got is the pose of the dual quaternion d."""
  c.eq(label + ': position', got[0:3], S.translation(d), tol=1e-7, scale=scale)
  q = d[0:4]
  c.eq(label + ': orientation', [[x * y for y in got[3:7]] for x in got[3:7]],
       [[x * y for y in q] for x in q], tol=1e-7)


@lemma('C12', [H + 'get_aligned_poses'], cases=100, budget=250)
def predicted(c):
  """The predicted hand poses are eye pose times inverse hand-eye transform, re-based at the first."""
  m = hec(c)
  n = c.length('n', 1, 6)
  hand, eye = path(c, 'h', n), path(c, 'e', n)
  x = udquat(c, 'x')
  s = c.snap(hand, eye, x)
  ph, pw = m.get_aligned_poses(hand, eye, x)
  c.unchanged('the poses are not changed', s, hand, eye, x, tol=1e-12)
  c.eq('one row per pose', ph.shape[0], n)
  c.eq('one predicted row per pose', pw.shape[0], n)
  c.check('seven columns', ph.shape[1] == 7 and pw.shape[1] == 7)
  first = S.dqmul(comps(c.at(eye, 0)), S.dqconj(comps(x)))
  for i in c.each('i', n):
    k = big(c, c.at(hand, i), c.at(eye, i), x, c.at(eye, 0))
    same_pose(c, 'hand', list(c.at(ph, i)), comps(c.at(hand, i)), k)
    d = S.dqmul(S.dqconj(first), S.dqmul(comps(c.at(eye, i)), S.dqconj(comps(x))))
    same_pose(c, 'predicted', list(c.at(pw, i)), d, k)


@lemma('C12', [H + 'get_aligned_poses', H + 'evaluate_alignment'], cases=80, sym=False,
       bounded='1..8 sampled poses')
def exact_on_truth(c):
  """For paths generated by the transform both errors are zero and all poses are inliers."""
  m = hec(c)
  n = c.length('n', 1, 8)
  x, b = udquat(c, 'x'), udquat(c, 'b')
  hand = m.align_paths_at_index(path(c, 'h', n))
  eye = m.align_paths_at_index(m.compute_dual_quaternions_with_offset(hand, x, b))
  config = m.HandEyeConfig()
  s = c.snap(hand, eye, x)
  pa, pb = m.get_aligned_poses(hand, eye, x)
  rp, ro, flags = m.evaluate_alignment(pa, pb, config)
  c.unchanged('the poses are not changed', s, hand, eye, x, tol=1e-12)
  k = max(big(c, *hand), big(c, *eye), big(c, x))
  c.eq('position', rp, 0, scale=k)
  c.eq('orientation', ro, 0, tol=1e-5)
  if k < 1e4:
    c.check('all flagged', all(flags))


@lemma('C12', ['calibration_verification:evaluate_calibration'], cases=100, sym=False,
       bounded='2..8 sampled stamped poses per path')
def calibration_error(c):
  """The calibration error is the alignment error of the time aligned paths, infinite if none match."""
  v, m = c.mod('calibration_verification'), hec(c)
  D = c.mod('dual_quaternion').DualQuaternion
  x = udquat(c, 'x')
  n = c.integer('n', 2, 8)
  a = stamped(c, 'a', n, 0.0625)
  b = stamped(c, 'b', n, 0.0625, c.choose('start', [0.0, 0.0, 0.125, 50.0]))
  if c.boolean('consistent'):
    for i in range(n):
      b[i, 0] = a[i, 0]
      b[i, 1:8] = (D.from_pose_vector(a[i, 1:8]) * x).to_pose()
  config, tp, to = thresholds(c, m)
  off = c.choose('offset', [0.0, 0.125])
  s = c.snap(a, b, x)
  (rp, ro), k = v.evaluate_calibration(a, b, x, off, config)
  c.unchanged('the inputs are not changed', s, a, b, x, tol=1e-12)
  pa, pb = c.mod('time_alignment').compute_aligned_poses(a, b, off)
  if len(pa) == 0:
    c.check('no matching poses', rp == float('inf') and ro == float('inf') and k == 0)
    return
  rebase = lambda p: m.align_paths_at_index([D.from_pose_vector(r) for r in p[:, 1:]], 0)
  ha, hb = m.get_aligned_poses(rebase(pa), rebase(pb), x)
  wp, wo, flags = m.evaluate_alignment(ha, hb, config)
  c.eq('position', rp, wp)
  c.eq('orientation', ro, wo, tol=1e-6)
  c.eq('inliers', k, sum(1 for f in flags if f), tol=0)
