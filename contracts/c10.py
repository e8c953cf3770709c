"""C10: the hand-eye solver returns a valid rigid motion and recovers the truth."""
from contracts import lemma
from contracts import spec as S
from contracts.c05 import comps, udquat, unit
from contracts.c08 import H, hec, path


def consistent(c, n, scale=1.0, noise=0.0):
  """Hand poses B (starting at the identity), transform X and eye poses X^-1 B X."""
  D = c.mod('dual_quaternion').DualQuaternion
  x = D.from_vector(c.floats(c.dq8('x', scale=scale)))
  hand = [D.identity()]
  for i in range(1, n):
    hand.append(D.from_vector(c.floats(c.dq8('b%d' % i, scale=scale))))
  eye = []
  for b in hand:
    e = x.inverse() * b * x
    e.normalize()
    eye.append(e)
  return hand, eye, x


def rank(c, hand, eye):
  np = c.np
  t = np.vstack([np.array(block(a, b)) for a, b in zip(hand, eye)])
  return np.linalg.svd(t)


def block(a, b):
  """The 6x8 equations of a x = x b for equal scalar parts, from the unit vectors."""
  a, b = [[x if k not in (3, 7) else 0.0 for k, x in enumerate(comps(d))] for d in (a, b)]
  cols = []
  for k in range(8):
    e = [0.0] * 8
    e[k] = 1.0
    d = S.sub(S.dqmul(a, e), S.dqmul(e, b))
    cols.append(d[0:3] + d[4:7])
  return [[cols[k][r] for k in range(8)] for r in range(6)]


def pairs(c, n, matching):
  """Hand and eye poses, and what the solver should see of the eye poses: flipped to equal signs."""
  D = c.mod('dual_quaternion').DualQuaternion
  hand = c.seq('h', n, lambda e: D.from_vector(c.floats(e.dq8('p'))))

  def pose(e):
    b = e.dq8('p')
    if matching:
      a = comps(c.at(hand, c.position(e)))
      e.assume(c.or_(c.and_(b[3] == a[3], b[7] == a[7]), c.and_(b[3] == -a[3], b[7] == -a[7], b[3] * a[3] < 0)))
    return D.from_vector(c.floats(b))
  eye, same = c.seq('e', n, pose), c.seq('e', n, pose)

  def flipped(e):
    i = c.position(e)
    a, b = comps(c.at(hand, i)), comps(c.at(same, i))
    return D.from_vector(c.floats(S.neg(b) if c.is_true(a[3] * b[3] < 0) else b))
  return hand, eye, c.seq('f', n, flipped)


def solve_any(c, extra, matching=False):
  """The solver on any number of pairs: (hand, returned value, V, singular values)."""
  m = hec(c)
  n = c.length('n', 2)
  hand, eye, flipped = pairs(c, n, matching)

  def t_matrix(a, b):
    key = c.key(a, b)
    return c.table('t', 6 * c.len(a), 8, lambda e: [c.value('t%d' % j, key, c.position(e)) for j in range(8)])
  s = c.snap(hand)
  _, values, v = c.np.linalg.svd(t_matrix(hand, flipped))
  extra(v)
  if matching:
    for p in (hand, eye):
      for k, x in enumerate(comps(c.at(p, 0))):
        c.assume(x == (1 if k == 3 else 0))
  with c.stubs(m, setup_t_matrix=t_matrix):
    ok, r = c.attempt(lambda: m.compute_hand_eye_calibration(hand, eye, c.real('tol', 0, 1)))
    if matching:
      c.check('a solution is found', ok)
    elif not ok:
      if not isinstance(r, AssertionError):
        raise r
      c.stop()
  c.unchanged('the hand poses are not changed', s, hand)
  for i in c.each('i', n):
    c.eq('pairs of opposite sign are flipped', comps(c.at(eye, i)), comps(c.at(flipped, i)))
  return r, values, list(v[6]), list(v[7])


def valid_any(c):
  (d, values, bad), sv, v7, v8 = solve_any(c, lambda v: c.orthonormal(v[6:8]))
  c.eq('singular values', list(values), list(sv))
  c.check('bad flag', c.iff(bad, c.or_(*([x < c.const('1/2') for x in sv[:6]] + [x > c.const('1/2') for x in sv[6:]]))))
  got = comps(d)
  c.eq('|r| = 1', S.qn2(got[0:4]), 1)
  c.le('non-negative real part', 0, got[3])
  p, q = S.dot(got, v7), S.dot(got, v8)
  c.eq('in the span of the last two singular vectors', S.add(S.scale(v7, p), S.scale(v8, q)), got)
  if c.is_true(discriminant(v7, v8) >= 0):
    c.eq('r.d = 0', S.dot(got[0:4], got[4:8]), 0)


def discriminant(v7, v8):
  """Of the condition r.d = 0 on the combinations s v7 + v8."""
  a, b, c = S.dot(v7[0:4], v7[4:8]), S.dot(v7[0:4], v8[4:8]) + S.dot(v8[0:4], v7[4:8]), S.dot(v8[0:4], v8[4:8])
  return b * b - 4 * a * c


def recovers_any(c):
  """If the last two singular vectors span the solutions x and (0, r) of consistent pairs, the result is x."""
  x = c.dq8('x')
  p1, p2, q1, q2 = [c.real(k) for k in ('p1', 'p2', 'q1', 'q2')]
  delta = p1 * q2 - q1 * p2
  y = [0] * 4 + x[0:4]

  def solutions(v):
    c.assume(c.or_(delta > 0, delta < 0))
    c.assume(c.or_(p1 * p2 > 0, p1 * p2 < 0))
    v7, v8 = S.add(S.scale(x, p1), S.scale(y, p2)), S.add(S.scale(x, q1), S.scale(y, q2))
    c.null_space(v, 6, [v7, v8])
    u1, w1, u2, w2 = v7[0:4], v7[4:8], v8[0:4], v8[4:8]
    for a, b, v in [(u1, w1, p1 * p2), (u1, w2, p1 * q2), (u2, w1, q1 * p2), (u2, w2, q1 * q2),
                    (u1, u1, p1 * p1), (u1, u2, p1 * q1), (u2, u2, q1 * q1)]:
      c.dot_is('products of the singular vectors', a, b, v)
    b = p1 * q2 + q1 * p2
    root = c.sqrt(b * b - 4.0 * (p1 * p2) * (q1 * q2))
    if c.is_true(delta > 0):
      c.have('root', root == delta)
    else:
      c.have('root', root == -delta)
    c.is_true(p2 > 0)
    c.is_true(p1 > 0)
  (d, values, bad), sv, v7, v8 = solve_any(c, solutions, matching=True)
  got = comps(d)
  sign = S.dot(got[0:4], x[0:4])
  c.eq('a sign', sign * sign, 1)
  c.eq('the true transform up to sign', got, S.scale(x, sign))
  c.le('non-negative real part', 0, got[3])


@lemma('C10', [H + 'compute_hand_eye_calibration'], cases=200, budget=300,
       bounded='recovery of the true transform for 3..8 sampled consistent pose pairs')
def recovers(c):
  """Consistent pairs that determine the transform give exactly that transform up to sign."""
  if c.symbolic:
    return recovers_any(c)
  n = c.integer('n', 3, 8)
  hand, eye, x = consistent(c, n)
  for i in range(1, n):
    if c.rng.random() < 0.3:
      eye[i].dq = -eye[i].dq
  _, sv, _ = rank(c, hand, [e if S.dot([e.dq[3]], [h.dq[3]]) >= 0 else -1 * e for e, h in zip(eye, hand)])
  c.assume(sv[5] > 0.05 and all(abs(h.dq[3]) > 1e-6 for h in hand))
  s = c.snap(hand)
  ok, r = c.attempt(lambda: hec(c).compute_hand_eye_calibration(hand, eye))
  if not ok and 'division by zero' in str(r):
    c.skip()
  c.check('a solution is found', ok)
  c.unchanged('the hand poses are not changed', s, hand)
  d, values, bad = r
  got, want = comps(d), comps(x)
  sign = 1 if S.dot(got[0:4], want[0:4]) >= 0 else -1
  c.eq('the true transform up to sign', got, S.scale(want, sign), tol=1e-6, scale=100 / sv[5])
  c.le('non-negative real part', 0, got[3])
  c.check('eight singular values', len(values) == 8)
  c.check('bad flag', bool(bad) == bool(any(v < 0.5 for v in values[:6]) or any(v > 0.5 for v in values[6:])))
  c.eq('singular values', list(values), list(sv), tol=1e-6, scale=sv[0])


@lemma('C10', [H + 'compute_hand_eye_calibration'], cases=200, budget=300,
       bounded='constraints on the result for 3..8 sampled noisy pose pairs')
def valid(c):
  """Whenever the solver returns, the result is a unit motion in the span of the last two singular vectors."""
  if c.symbolic:
    return valid_any(c)
  n = c.integer('n', 3, 8)
  np = c.np
  D = c.mod('dual_quaternion').DualQuaternion
  hand, eye, x = consistent(c, n)
  sigma = 10 ** c.real('sigma', -6, -2)
  inconsistent, spread = c.rng.random() < 0.4, 10 ** c.real('spread', -2, 0)
  for i in range(1, n):
    q = eye[i].to_pose() + sigma * np.array([c.rng.gauss(0, 1) for _ in range(7)])
    eye[i] = D.from_pose_vector(q)
    if inconsistent:
      # equal scalar parts, but another screw axis
      d = D.from_vector(c.floats(c.dq8('d%d' % i, scale=spread)))
      d = D.from_pose_vector(np.append(spread * d.to_pose()[0:3], [*(spread * d.dq[0:3]), 1.0]))
      eye[i] = d * eye[i] * d.inverse()
    if c.rng.random() < 0.3:
      eye[i].dq = -eye[i].dq
  tol = c.real('tol', 0.005, 0.05)
  flip = [(-1 if e.dq[3] * h.dq[3] < 0 else 1) * e for e, h in zip(eye, hand)]
  c.assume(all(abs(e.dq[3]) > 1e-6 for e in eye + hand))
  s = c.snap(hand)
  ok, r = c.attempt(lambda: hec(c).compute_hand_eye_calibration(hand, eye, tol))
  c.unchanged('the hand poses are not changed', s, hand)
  diff = [max(abs(h.dq[k] - e.dq[k]) - 1e-5 * abs(h.dq[k]) for k in (3, 7)) for h, e in zip(hand, flip)]
  if max(diff) > tol * 1.001 + 1e-9:
    c.check('differing scalar parts are rejected', not ok)
  c.assume(ok)
  for e, f in zip(eye, flip):
    c.eq('pairs of opposite sign are flipped', comps(e), comps(f))
  _, sv, v = rank(c, hand, eye)
  d, values, bad = r
  c.eq('singular values', list(values), list(sv), tol=1e-6, scale=sv[0])
  c.check('bad flag', bool(bad) == bool(any(x < 0.5 for x in values[:6]) or any(x > 0.5 for x in values[6:])))
  got = np.array(comps(d))
  c.eq('|r| = 1', S.qn2(list(got[0:4])), 1)
  c.le('non-negative real part', 0, got[3])
  if sv[5] - sv[6] > 1e-3:
    p = v[6] * np.dot(v[6], got) + v[7] * np.dot(v[7], got)
    c.eq('in the span of the last two singular vectors', list(p), list(got), tol=1e-6)
    q = lambda i, j: float(np.dot(v[i][0:4], v[j][4:8]))
    disc = (q(6, 7) + q(7, 6)) ** 2 - 4 * q(6, 6) * q(7, 7)
    if disc > 1e-9:
      c.eq('r.d = 0', S.dot(list(got[0:4]), list(got[4:8])), 0, tol=1e-5)


@lemma('C10', [H + 'compute_hand_eye_calibration'], cases=60, bounded='rejection on sampled pairs')
def rejects(c):
  """Pairs that do not start at the identity are rejected."""
  if c.symbolic:
    n = c.length('n', 1)
    hand, eye, _ = pairs(c, n, False)
    k = c.choose('which', [0, 1])
    i = c.choose('i', list(range(8)))
    x = comps(c.at((hand, eye)[k], 0))[i] - (1 if i == 3 else 0)
    c.assume(c.or_(x > c.const('2e-5'), x < -c.const('2e-5')))
    c.raises('does not start at the identity', lambda: hec(c).compute_hand_eye_calibration(hand, eye))
    return
  n = c.integer('n', 3, 5)
  hand, eye, x = consistent(c, n)
  k = c.choose('which', [0, 1])
  i = c.choose('i', list(range(8)))
  p = (hand, eye)[k][0]
  p.dq[i] = p.dq[i] + c.choose('sign', [1, -1]) * 10 ** c.real('e', -4.5, 0)
  c.raises('does not start at the identity', lambda: hec(c).compute_hand_eye_calibration(hand, eye))


@lemma('C10', [H + 'compute_hand_eye_calibration'], cases=1)
def rejects_scalars(c):
  """A pair whose scalar parts differ is rejected, wherever it is."""
  if not c.symbolic:
    return
  n = c.length('n', 1)
  hand, eye, flipped = pairs(c, n, False)
  tol = c.real('tol', 0, 1)
  i = c.index('i', n)
  c.watch(i)
  a, b = comps(c.at(hand, i)), comps(c.at(flipped, i))
  k = c.choose('which', [3, 7])
  x = a[k] - b[k]
  m = [tol + c.const('1e-4') * (1 + y) for y in (a[k], -a[k])]
  c.assume(c.or_(c.and_(x > m[0], x > m[1]), c.and_(-x > m[0], -x > m[1])))
  c.raises('differing scalar parts are rejected', lambda: hec(c).compute_hand_eye_calibration(hand, eye, tol))
