"""C09: the hand-eye equations vanish exactly on solutions of A X = X B."""
from contracts import lemma
from contracts import spec as S
from contracts.c02 import rows
from contracts.c05 import comps, udquat
from contracts.c08 import H, hec


def with_scalars(c, name, w, t):
  """Arbitrary dual quaternion with the given scalar parts."""
  D = c.mod('dual_quaternion').DualQuaternion
  v = c.reals(name, 6)
  return D.from_vector(c.floats(v[0:3] + [w] + v[3:6] + [t]))


def vector_parts(d):
  return d[0:3] + d[4:7]


@lemma('C09', [H + 'skew_from_vector'])
def skew(c):
  """The skew matrix of v maps w to the cross product of v and w."""
  v, w = c.floats(c.reals('v', 3)), c.reals('w', 3)
  s = c.snap(v)
  m = hec(c).skew_from_vector(v)
  c.unchanged('the vector is not changed', s, v)
  c.disjoint('own storage', m, v)
  c.check('3x3', m.shape == (3, 3))
  c.eq('v x w', S.matvec(rows(m), w), S.cross(list(v), w))


@lemma('C09', [H + 'setup_s_matrix'])
def block(c):
  """The block of a pair with equal scalar parts maps x to the vector parts of a x - x b."""
  w, t = c.real('w'), c.real('t')
  a, b = with_scalars(c, 'a', w, t), with_scalars(c, 'b', w, t)
  s = c.snap(a, b)
  m = hec(c).setup_s_matrix(a, b)
  c.unchanged('the pair is not changed', s, a, b)
  c.disjoint('own storage', m, (a, b))
  c.check('6x8', m.shape == (6, 8))
  x = c.reals('x', 8)
  want = S.sub(S.dqmul(comps(a), x), S.dqmul(x, comps(b)))
  k = 0.0 if c.symbolic else S.qn2(comps(a)) + S.qn2(comps(b)) + S.qn2(x)
  c.eq('a x - x b', S.matvec(rows(m), x), vector_parts(want), scale=k)


@lemma('C09', [H + 'setup_s_matrix'])
def vanishes(c):
  """The block vanishes on every hand-eye transform consistent with the pair."""
  D = c.mod('dual_quaternion').DualQuaternion
  b, x = udquat(c, 'b'), udquat(c, 'x')
  a = x * b * x.inverse()
  k = 0.0 if c.symbolic else S.qn2(comps(b)) * S.qn2(comps(x)) + S.qn2(comps(x)) ** 2
  if c.symbolic:
    c.have('equal real scalars', comps(a)[3] == comps(b)[3])
    c.have('equal dual scalars', comps(a)[7] == comps(b)[7])
    a = D.from_vector(c.floats(comps(a)[0:3] + [comps(b)[3]] + comps(a)[4:7] + [comps(b)[7]]))
  m = hec(c).setup_s_matrix(a, b)
  c.eq('S x = 0', S.matvec(rows(m), comps(x)), [0] * 6, scale=k)


@lemma('C09', [H + 'setup_s_matrix'], cases=100)
def rejects(c):
  """Pairs whose scalar parts differ by more than the tolerance are rejected, close ones accepted."""
  w, t = c.real('w', -1, 1), c.real('t', -5, 5)
  d, e = c.real('d', -1, 1), c.real('e', -1, 1)
  a, b = with_scalars(c, 'a', w, t), with_scalars(c, 'b', w + d, t + e)
  f = hec(c).setup_s_matrix
  big = c.const('0.051')
  small = c.const('0.0499')
  if c.is_true(c.or_(d > big, d < -big, e > big, e < -big)):
    c.raises('too different', lambda: f(a, b))
  elif c.is_true(c.and_(d < small, d > -small, e < small, e > -small)):
    ok, m = c.attempt(lambda: f(a, b))
    c.check('accepted', ok)


@lemma('C09', [H + 'setup_t_matrix'], cases=60, budget=200)
def stack(c):
  """The matrix of n pairs consists of the n blocks in order."""
  m = hec(c)
  D = c.mod('dual_quaternion').DualQuaternion
  n = c.length('n', 1, 6)
  sc = lambda e: (e.real('w', lo=-1, hi=1), e.real('t', lo=-5, hi=5))

  def make(e, which):
    w, t = sc(e)
    v = e.reals(which, 6)
    return D.from_vector(c.floats(v[0:3] + [w] + v[3:6] + [t]))
  a = c.seq('p', n, lambda e: make(e, 'a'))
  b = c.seq('p', n, lambda e: make(e, 'b'))
  s = c.snap(a, b)
  t = m.setup_t_matrix(a, b)
  c.unchanged('the pairs are not changed', s, a, b)
  c.eq('6 n rows', t.shape[0], 6 * n)
  c.eq('8 columns', t.shape[1], 8)
  c.disjoint('own storage', t, (a, b))
  for i in c.each('i', n):
    blk = rows(m.setup_s_matrix(c.at(a, i), c.at(b, i)))
    for r in range(6):
      c.eq('row of block i', list(c.at(t, 6 * i + r)), blk[r])
