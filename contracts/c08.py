"""C08: re-basing a path keeps relative motion and order."""
from contracts import lemma
from contracts import spec as S
from contracts.c05 import comps, udquat

H = 'dual_quaternion_hand_eye_calibration:'


def hec(c):
  return c.mod('dual_quaternion_hand_eye_calibration')


def path(c, name, n):
  """List of n unit dual quaternions."""
  D = c.mod('dual_quaternion').DualQuaternion
  return c.seq(name, n, lambda e: D.from_vector(c.floats(e.dq8('p'))))


def big(c, *ds):
  """Magnitude of the components (tolerance of the concrete runs)."""
  return 0.0 if c.symbolic else max(S.qn2(comps(d)) for d in ds)


@lemma('C08', [H + 'align_paths_at_index'], cases=150, budget=200)
def rebase(c):
  """Element i of the result is inverse(reference) times element (k + i) mod n, up to sign."""
  m = hec(c)
  n = c.length('n', 1, 7)
  vec = path(c, 'v', n)
  k = c.index('k', n)
  positive = c.boolean('positive')
  s = c.snap(vec)
  ref = comps(c.at(vec, k))
  out = m.align_paths_at_index(vec, k, positive)
  c.unchanged('the path is not changed', s, vec)
  c.eq('same length', c.len(out), n)
  c.eq('starts at the identity', comps(c.at(out, 0)), S.IDENTITY, scale=big(c, c.at(vec, k)))
  for i in c.each('i', n):
    j = k + i - n if c.is_true(k + i >= n) else k + i
    want = S.dqmul(S.dqconj(ref), comps(c.at(vec, j)))
    o = c.at(out, i)
    c.check('a dual quaternion', type(o) is c.mod('dual_quaternion').DualQuaternion)
    got = comps(o)
    if positive:
      c.le('non-negative real part', 0, got[3])
      sign = -1 if c.is_true(want[3] < 0) else 1
      if not c.symbolic and abs(want[3]) < 1e-9:
        sign = 1 if S.dot(got, want) > 0 else -1
    else:
      sign = 1
    c.eq('inverse of the reference times the element', got, S.scale(want, sign),
         scale=big(c, c.at(vec, k), c.at(vec, j)))
    c.disjoint('own storage', o, vec)


@lemma('C08', [H + 'align_paths_at_index'], cases=60, budget=100)
def rebase_defaults(c):
  """By default the path is re-based at its first element with non-negative real parts."""
  m = hec(c)
  n = c.length('n', 1, 5)
  vec = path(c, 'v', n)
  out = m.align_paths_at_index(vec)
  c.eq('same length', c.len(out), n)
  for i in c.each('i', n):
    got = comps(c.at(out, i))
    want = S.dqmul(S.dqconj(comps(c.at(vec, 0))), comps(c.at(vec, i)))
    c.le('non-negative real part', 0, got[3])
    sign = -1 if c.is_true(want[3] < 0) else 1
    if not c.symbolic and abs(want[3]) < 1e-9:
      sign = 1 if S.dot(got, want) > 0 else -1
    c.eq('element', got, S.scale(want, sign), scale=big(c, c.at(vec, 0), c.at(vec, i)))


@lemma('C08', [H + 'align_paths_at_index'], cases=60, budget=100)
def rebase_separate(c):
  """Elements of the result are distinct objects that share nothing with each other."""
  m = hec(c)
  n = c.length('n', 2, 5)
  vec = path(c, 'v', n)
  k = c.index('k', n)
  out = m.align_paths_at_index(vec, k)
  i, j = c.index('i', n), c.index('j', n)
  c.assume(i < j)
  c.disjoint('separate elements', c.at(out, i), c.at(out, j))


@lemma('C08', [H + 'compute_dual_quaternions_with_offset'], cases=100, budget=200)
def second_path(c):
  """Pose i of the synthetic path is inverse(base offset) * hand pose i * hand-eye transform."""
  m = hec(c)
  n = c.length('n', 0, 6)
  vec = path(c, 'v', n)
  x, b = udquat(c, 'x'), udquat(c, 'b')
  s = c.snap(vec, x, b)
  out = m.compute_dual_quaternions_with_offset(vec, x, b)
  c.unchanged('the inputs are not changed', s, vec, x, b)
  c.eq('same length', c.len(out), n)
  for i in c.each('i', n):
    h = c.at(vec, i)
    want = S.dqmul(S.dqmul(S.dqconj(comps(b)), comps(h)), comps(x))
    c.eq('pose', comps(c.at(out, i)), want, scale=big(c, h, x, b))
    c.disjoint('own storage', c.at(out, i), (vec, x, b))


@lemma('C08', [H + 'compute_dual_quaternions_with_offset'], cases=100, sym=False,
       bounded='0..4 sampled poses')
def second_path_any_offset(c):
  """The base offset is inverted, not only conjugated, if it is not a unit dual quaternion."""
  m = hec(c)
  n = c.length('n', 0, 4)
  vec = path(c, 'v', n)
  x, u = udquat(c, 'x'), comps(udquat(c, 'b'))
  # every dual quaternion with non-zero real part is (k + e m) times a unit one
  k, l = c.real('k', lo=0.001, hi=100), c.real('m')
  D = c.mod('dual_quaternion').DualQuaternion
  b = D.from_vector(c.floats(S.scale(u[0:4], k) + S.add(S.scale(u[4:8], k), S.scale(u[0:4], l))))
  s = c.snap(vec, x, b)
  out = m.compute_dual_quaternions_with_offset(vec, x, b)
  c.unchanged('the inputs are not changed', s, vec, x, b)
  c.eq('same length', c.len(out), n)
  for i in c.each('i', n):
    h = c.at(vec, i)
    p = S.dqmul(S.dqmul(S.dqconj(u), comps(h)), comps(x))
    # k times the normalised product
    want = S.scale(p[0:4], k) + S.sub(S.scale(p[4:8], k), S.scale(p[0:4], l))
    c.eq('normalised product', S.scale(comps(c.at(out, i)), k), want,
         scale=big(c, h, x) * (1 + S.qn2(u)) * (k + abs(l)) * 10 if not c.symbolic else 0)
