"""C04: orientation interpolation follows the shorter arc at constant rate."""
from contracts import lemma
from contracts import spec as S
from contracts.c01 import quat, comps
from contracts.c02 import uquat

M = 'quaternion:'


def pair(c):
  return uquat(c, 'a'), uquat(c, 'b')


def slerp(c, a, b, f):
  m = c.mod('quaternion')
  s = c.snap(a, b)
  r = m.quaternion_slerp(a, b, f)
  c.unchanged('the inputs are not changed', s, a, b)
  c.disjoint('own storage', r, (a, b))
  c.check('a quaternion', type(r) is m.Quaternion)
  return comps(r)


@lemma('C04', [M + 'quaternion_slerp'], cases=400)
def constant_rate(c):
  """For 0 < f < 1 the result is unit, in the plane of both inputs, at f times the
  total angle from the first on the shorter arc."""
  a, b = pair(c)
  f = c.real('f', 0, 1, edge=(0.5, 0.25, 1e-6, 1 - 1e-6))
  c.assume(f > 0)
  c.assume(f < 1)
  r = slerp(c, a, b, f)
  d = S.dot(comps(a), comps(b))
  s = -1 if c.is_true(d < 0) else 1
  D = s * d
  # Gram determinant: 0 < 1 - D^2 means that the inputs are not parallel
  if c.is_true(1 - D * D > c.const('1e-16')):
    total = c.arccos(D)
    ct, st = c.cos(f * total), c.sin(f * total)
    tol = 1e-7
    c.eq('angle from the first is f times the total', S.dot(S.scale(comps(a), s), r), ct, tol=tol)
    c.eq('on the arc to the second', S.dot(comps(b), r), ct * D + st * c.sqrt(1 - D * D), tol=tol)
    c.eq('unit', S.qn2(r), 1, tol=tol)
  else:
    n2 = S.qn2(r)
    p = S.dot(S.scale(comps(a), s), r)
    if c.symbolic:
      total = c.arccos(D)
      th = f * total
      ct, st = c.cos(th), c.sin(th)
      e, g = 1 - D * D, D >= 0
      c.have('D >= 0', g)
      c.have('Gram determinant', e >= 0)
      c.have('D <= 1', D <= 1)
      c.math('arccos_small', D)
      c.have('small total angle', total * total <= 3 * c.const('1e-16'),
             [total * total <= e * 24675 / 10000, e <= c.const('1e-16')], [total, e])
      c.math('cos_lower', th)
      c.have('small angle', th * th <= 3 * c.const('1e-16'),
             [total * total <= 3 * c.const('1e-16'), f > 0, f < 1], [total])
      c.have('cosine', ct >= 1 - 2 * c.const('1e-16'),
             [th * th <= 3 * c.const('1e-16'), ct >= 1 - th * th / 2], [th, ct])
      c.have('norm of the result', n2 == ct * ct + e * st * st)
      c.have('first component', p == ct)
      c.have('sine', st * st == 1 - ct * ct)
      prem = [ct >= 1 - 2 * c.const('1e-16'), ct <= 1, st * st == 1 - ct * ct, e >= 0,
              e <= c.const('1e-16'), n2 == ct * ct + e * st * st]
      c.have('norm from below', n2 >= 1 - c.const('1e-12'), prem, [n2, ct, st, e])
      c.have('norm from above', n2 <= 1 + c.const('1e-12'), prem, [n2, ct, st, e])
    c.le('unit (parallel inputs), from below', 1 - c.const('1e-12'), n2)
    c.le('unit (parallel inputs), from above', n2, 1 + c.const('1e-12'))
    c.le('close to the first', 1 - c.const('1e-12'), p)


@lemma('C04', [M + 'quaternion_slerp'], cases=60)
def ends(c):
  """f = 0 gives the first orientation, f = 1 the second."""
  a, b = pair(c)
  c.eq('f = 0', slerp(c, a, b, 0), comps(a))
  c.eq('f = 1', slerp(c, a, b, 1), comps(b))
  c.eq('f = 0.0', slerp(c, a, b, 0.0), comps(a))
  c.eq('f = 1.0', slerp(c, a, b, 1.0), comps(b))


@lemma('C04', [M + 'quaternion_slerp'], cases=200, budget=200)
def sign_independent(c):
  """Negating either input gives the same orientation (if both arcs differ in length)."""
  a, b = pair(c)
  f = c.real('f', 0, 1, edge=(0, 1, 0.5))
  d = S.dot(comps(a), comps(b))
  e = 0 if c.symbolic else 1e-6
  c.assume(c.or_(d > e, d < -e))
  r = comps(c.mod('quaternion').quaternion_slerp(a, b, f))
  for x, y in ((-a, b), (a, -b), (-a, -b)):
    q = comps(c.mod('quaternion').quaternion_slerp(x, y, f))
    c.eq('q q^T is the same', [[u * v for v in q[i:]] for i, u in enumerate(q)],
         [[u * v for v in r[i:]] for i, u in enumerate(r)], tol=1e-7)


@lemma('C04', [M + 'quaternion_slerp', M + 'quaternion_lerp', M + 'quaternion_nlerp'], cases=60)
def rejects(c):
  """Fractions outside [0, 1] and non-unit inputs are rejected."""
  m = c.mod('quaternion')
  a, b = pair(c)
  f = c.real('f')
  k = c.real('k', lo=0)
  c.assume(c.or_(k > c.const('1.0001'), k < c.const('0.9999')))
  g = c.real('g', 0, 1)
  big, small = a * k, b * k
  if c.is_true(c.or_(f < 0, f > 1)):
    for fn in (m.quaternion_slerp, m.quaternion_lerp, m.quaternion_nlerp):
      c.raises('fraction outside of [0, 1]', lambda: fn(a, b, f))
  for fn in (m.quaternion_slerp, m.quaternion_lerp, m.quaternion_nlerp):
    c.raises('first not unit', lambda: fn(big, b, g))
    c.raises('second not unit', lambda: fn(a, small, g))
    c.raises('first not a quaternion', lambda: fn(a.q, b, g))
    c.raises('second not a quaternion', lambda: fn(a, None, g))


@lemma('C04', [M + 'quaternion_lerp'], cases=100)
def lerp(c):
  """Linear interpolation is the weighted mean."""
  m = c.mod('quaternion')
  a, b = pair(c)
  f = c.real('f', 0, 1, edge=(0, 1, 0.5))
  s = c.snap(a, b)
  r = m.quaternion_lerp(a, b, f)
  c.unchanged('the inputs are not changed', s, a, b)
  c.disjoint('own storage', r, (a, b))
  c.eq('weighted mean', comps(r), S.add(S.scale(comps(a), 1 - f), S.scale(comps(b), f)))


@lemma('C04', [M + 'quaternion_nlerp'], cases=100)
def nlerp(c):
  """Normalised linear interpolation is the normalised weighted mean."""
  m = c.mod('quaternion')
  a, b = pair(c)
  f = c.real('f', 0, 1, edge=(0, 1, 0.5))
  s = c.snap(a, b)
  w = S.add(S.scale(comps(a), 1 - f), S.scale(comps(b), f))
  n2 = S.qn2(w)
  c.assume(n2 > c.const('1e-12'))
  r = m.quaternion_nlerp(a, b, f)
  c.unchanged('the inputs are not changed', s, a, b)
  c.disjoint('own storage', r, (a, b))
  c.eq('unit', S.qn2(comps(r)), 1)
  c.eq('direction of the weighted mean', S.scale(comps(r), c.sqrt(n2)), w)


@lemma('C04', [M + 'quaternion_slerp'], sym=False, cases=400,
       bounded='angles through the code: sampled pairs, including nearly parallel and opposite ones')
def slerp_angle(c):
  """The rotation from the first orientation to the result is f times the rotation to the second."""
  a = c.unit('a', 4)
  n = c.unit('n', 3)
  h = c.choose('h', [10 ** c.real('e', -7, -1), c.real('l', 0.05, 1.55)])
  rot = S.scale(n, c.sin(h)) + [c.cos(h)]
  b = S.qmul(a, rot)
  if c.boolean('flip'):
    b = S.neg(b)
  f = c.real('f', 0, 1)
  Q = c.mod('quaternion').Quaternion
  r = slerp(c, Q(q=c.floats(a)), Q(q=c.floats(b)), f)
  want = S.qmul(a, S.scale(n, c.sin(f * h)) + [c.cos(f * h)])
  s = 1 if S.dot(want, r) > 0 else -1
  c.eq('orientation', S.scale(r, s), want, tol=3e-8)


@lemma('C04', [M + 'quaternions_interpolate', M + 'quaternion_slerp'], cases=80)
def interpolate(c):
  """Each requested time is evaluated at the elapsed fraction of the interval."""
  m = c.mod('quaternion')
  a, b = pair(c)
  t0 = c.real('t0')
  dt = c.real('dt', lo=0.0001)
  n = c.length('n', 0, 6)
  times = c.series('times', n, lambda e: t0 + dt * e.real('f', lo=0, hi=1))
  s = c.snap(a, b, times)
  r = m.quaternions_interpolate(a, t0, b, t0 + dt, times)
  c.unchanged('the inputs are not changed', s, a, b, times)
  c.eq('one orientation per time', c.len(r), n)
  for i in c.each('i', n):
    f = c.div(c.at(times, i) - t0, t0 + dt - t0)
    if not c.symbolic:
      f = max(0.0, min(1.0, f))
      c.scale = 0.0
    c.eq('evaluated at the elapsed fraction', comps(c.at(r, i)), comps(m.quaternion_slerp(a, b, f)),
         tol=1e-6)


@lemma('C04', [M + 'quaternions_interpolate', M + 'quaternion_slerp'], cases=80)
def interpolate_rejects(c):
  """A time outside of the interval is rejected, wherever it stands in the list."""
  m = c.mod('quaternion')
  a, b = pair(c)
  t0 = c.real('t0')
  dt = c.real('dt', lo=0.0001)
  f = c.real('f', lo=-3, hi=4)
  c.assume(c.or_(f < -c.const('1e-9'), f > 1 + c.const('1e-9')))
  g = c.real('g', lo=0, hi=1)
  t = t0 + f * dt
  for times in ([t], [t0 + g * dt, t], [t, t0 + g * dt]):
    c.raises('outside of the interval',
             lambda: m.quaternions_interpolate(a, t0, b, t0 + dt, c.np.array(times)))
