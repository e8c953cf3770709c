"""C18: loop closure uses the right pairs and vanishes for consistent results."""
from contracts import lemma
from contracts import spec as S
from contracts.c05 import comps, udquat
from contracts.c08 import big

L = 'calibration_verification:compute_loop_error'
E = 'hand_eye_calibration.dual_quaternion_hand_eye_calibration:compute_pose_error'


def unit_pose(c, d):
  """Pose of the unit dual quaternion d."""
  return list(S.translation(d)) + list(d[0:4])


def reported(c, label, got, end, scale):
  """got is distance and angle between the identity and the motion end."""
  t = S.translation(end)
  c.le(label + ': position not negative', 0, got[0])
  c.eq(label + ': position', got[0] * got[0], S.qn2(t), scale=scale * scale)
  c.le(label + ': orientation not negative', 0, got[1])
  c.le(label + ': orientation at most 180', got[1], 180)
  h = c.cos(got[1] * c.pi / 360)
  if c.symbolic:
    w, tiny = end[3], c.const('4e-10')
    near = c.or_(w >= 1 - tiny, w <= tiny - 1)
    if not c.known(h * h == w * w):
      s = c.sign(w)
      c.have(label + ': no angle', w * s >= 1 - tiny)
      c.have(label + ': no angle', near, [w * s >= 1 - tiny, s * s == 1], opaque=[w, s])
    c.check(label + ': orientation', c.or_(h * h == w * w, c.and_(got[1] == 0, near)))
  else:
    c.eq(label + ': orientation', h * h, end[3] * end[3], tol=1e-6)


def index(n, i, j):
  """Position of the pair (i, j) in the lexicographic list of all pairs."""
  pairs = [(a, b) for a in range(n) for b in range(a + 1, n)]
  return pairs.index((i, j))


def all_pairs(c, n):
  return [udquat(c, 'r%d_%d' % (a, b)) for a in range(n) for b in range(a + 1, n)]


def loop(c, n):
  m = c.mod('calibration_verification')
  r = all_pairs(c, n)
  s = c.snap(r)
  got = m.compute_loop_error(r, n)
  c.unchanged('the calibrations are not changed', s, r, tol=1e-12)
  end, k = S.IDENTITY, 1.0
  for i in range(n - 1):
    d = r[index(n, i, i + 1)]
    end = S.dqmul(end, comps(d))
    k *= 1 + (0.0 if c.symbolic else big(c, d))
  d = r[index(n, 0, n - 1)]
  end = S.dqmul(end, S.dqconj(comps(d)))
  reported(c, 'n = %d' % n, got, end, 0.0 if c.symbolic else k * (1 + big(c, d)))


def before(c, n, i):
  """Number of pairs (a, b), a < b < n, with a < i."""
  k = c.natural('before', [n, i])
  c.assume(2 * k == i * (2 * n - i - 1))
  return k


def pairs(c, name, n, make=None):
  """One motion for every pair of n sensors, in lexicographic order."""
  D = c.mod('dual_quaternion').DualQuaternion
  k = before(c, n, n - 1)
  return c.seq(name, k, lambda e: D.from_vector(c.floats(e.dq8('d'))))


def pair(c, r, n, i, j):
  """The motion of the pair (i, j)."""
  k = before(c, n, i)
  c.have('pair %s' % ((i, j),), c.and_(k + j - i - 1 >= 0, k + j - i <= c.len(r)))
  return comps(c.at(r, k + j - i - 1))


def unit(x):
  return [S.qn2(x[0:4]) == 1, S.dot(x[0:4], x[4:8]) == 0]


@lemma('C18', [L, E], cases=1)
def chain_any(c):
  """0-1, 1-2, ... in order, closed with the inverse of 0-(n-1), for any number of sensors."""
  if not c.symbolic:
    return
  m = c.mod('calibration_verification')
  D = c.mod('dual_quaternion').DualQuaternion
  n = c.integer('n', 2)
  r = pairs(c, 'r', n)

  def step(k, x):
    if c.is_true(k == 0):
      return x
    if c.is_true(k < n):
      return S.dqmul(x, pair(c, r, n, k - 1, k))
    return S.dqmul(x, S.dqconj(pair(c, r, n, 0, n - 1)))

  x = c.invariant(D.from_vector(c.floats(S.IDENTITY)), lambda v: D.from_vector(c.floats(v)),
                  lambda d: list(d.dq), S.IDENTITY, step, unit)
  s = c.snap(r)
  got = m.compute_loop_error(r, n)
  c.unchanged('the calibrations are not changed', s, r)
  reported(c, 'any n', got, x.next(n), 0.0)


def relative(a, b):
  return S.dqmul(S.dqconj(a), b)


def sign(c, name):
  s = c.real(name)
  c.assume(s * s == 1)
  return s


@lemma('C18', [L], cases=1)
def consistent_any(c):
  """If every r(i, j) is conj(f(i)) f(j), up to sign, then the motion that chain_any
  compares with the identity is the identity, up to sign (induction over the chain)."""
  if not c.symbolic:
    return
  first, here, there = [comps(udquat(c, 'f%d' % i)) for i in range(3)]
  c.eq('the chain starts at the first frame', S.dqmul(S.dqconj(first), first), S.IDENTITY)
  # after k steps: conj(f(0)) f(k), up to sign
  g, s, e = [sign(c, name) for name in 'gse']
  x = S.scale(relative(first, here), g)
  c.eq('one step', S.dqmul(x, S.scale(relative(here, there), s)),
       S.scale(relative(first, there), g * s))
  c.eq('sign', (g * s) * (g * s), 1)
  end = S.dqmul(x, S.dqconj(S.scale(relative(first, here), e)))
  c.eq('closed', S.translation(end), [0, 0, 0])
  c.eq('closed', end[3] * end[3], 1)


@lemma('C18', [L], sym=False, cases=200, bounded='2..7 sensors with sampled calibrations')
def chain(c):
  """0-1, 1-2, ... in order, closed with the inverse of 0-(n-1)."""
  loop(c, c.integer('n', 2, 7))


@lemma('C18', [L], sym=False, cases=150, bounded='2..7 sensors with sampled consistent calibrations')
def consistent(c):
  """The error is zero whenever the calibrations are consistent."""
  m = c.mod('calibration_verification')
  D = c.mod('dual_quaternion').DualQuaternion
  n = c.integer('n', 2, 7)
  frames = [udquat(c, 'f%d' % i) for i in range(n)]
  r, k = [], 1.0
  for i in range(n):
    k *= 1 + big(c, frames[i])
    for j in range(i + 1, n):
      d = S.dqmul(S.dqconj(comps(frames[i])), comps(frames[j]))
      r.append(D.from_vector(c.floats(S.scale(d, c.rng.choice([1, -1])))))
  p, o = m.compute_loop_error(r, n)
  c.assume(k < 1e8)
  c.eq('position', p, 0, tol=1e-12 * k)
  c.le('orientation', o, 1e-4)
