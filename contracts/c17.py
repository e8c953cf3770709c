"""C17: extrinsic calibrations survive storage and compose as motions."""
from contracts import lemma
from contracts import spec as S
from contracts.c05 import comps, udquat
from contracts.c08 import big

E = 'extrinsic_calibration:ExtrinsicCalibration.'


def calib(c, name):
  m = c.mod('extrinsic_calibration')
  return m.ExtrinsicCalibration(c.real(name + '.delay'), udquat(c, name))


def same_motion(c, label, a, b, scale=0.0):
  """Dual quaternions of the same motion."""
  if c.symbolic:
    c.eq(label, [[x * y for y in a[0:4]] for x in a[0:4]], [[x * y for y in b[0:4]] for x in b[0:4]])
    c.eq(label, S.translation(a), S.translation(b))
  else:
    s = 1 if S.dot(a[0:4], b[0:4]) >= 0 else -1
    c.eq(label, a, S.scale(b, s), tol=1e-9, scale=scale)


@lemma('C17', [E + 'writeJson', E + 'fromJson'], cases=200)
def storage(c):
  """Reading with the same convention returns the same offset and motion."""
  m = c.mod('extrinsic_calibration')
  x = calib(c, 'x')
  if not c.symbolic:
    x.time_offset = c.choose('offset', [x.time_offset, 3, 0.1, -1e-7, 1.5e9 + 0.123, c.np.float64(0.25)])
    if c.boolean('scaled'):
      x.pose_dq.dq *= c.choose('k', [2.0, -1.0, 0.5])
  want, delay = comps(x.pose_dq), x.time_offset
  if not c.symbolic:
    norm = c.sqrt(S.qn2(want[0:4]))
    want = [v / norm for v in want]
  jpl = c.choose('switch', [False, True, None])
  arg = () if jpl is None else (jpl,)
  k = 0.0 if c.symbolic else big(c, x.pose_dq)
  with c.files() as w:
    f = w.path('calib.json')
    if c.boolean('existing'):
      w.put_junk('calib.json')
    x.writeJson(f, *arg)
    same_motion(c, 'the calibration is not changed', comps(x.pose_dq), want, k)
    c.eq('the offset is not changed', x.time_offset, delay, tol=0)
    data = w.json('calib.json')
    y = m.ExtrinsicCalibration.fromJson(f, *arg)
  c.check('a calibration', type(y) is m.ExtrinsicCalibration)
  c.eq('time offset', y.time_offset, delay, tol=0)
  same_motion(c, 'motion', comps(y.pose_dq), want, k)
  got = [data['rotation'][n] for n in 'ijkw']
  q = S.qconj(want[0:4]) if jpl else want[0:4]
  if c.symbolic:
    c.eq('rotation in the file', [[a * b for b in got] for a in got], [[a * b for b in q] for a in q])
  else:
    c.eq('rotation in the file', got, q if S.dot(got, q) >= 0 else S.neg(q))
  c.eq('translation in the file', [data['translation'][n] for n in 'xyz'], S.translation(want), scale=k)
  c.eq('delay in the file', data['delay'], delay, tol=0)


@lemma('C17', [E + '__mul__'], cases=100)
def composition(c):
  """Offsets are added and motions composed in order; operands are not changed."""
  m = c.mod('extrinsic_calibration')
  x, y = calib(c, 'x'), calib(c, 'y')
  s = c.snap(x, y)
  z = x * y
  c.unchanged('the operands are not changed', s, x, y)
  c.disjoint('own storage', z, (x, y))
  c.check('a calibration', type(z) is m.ExtrinsicCalibration)
  c.eq('offsets are added', z.time_offset, x.time_offset + y.time_offset)
  c.eq('motions are composed', comps(z.pose_dq), S.dqmul(comps(x.pose_dq), comps(y.pose_dq)),
       scale=big(c, x.pose_dq, y.pose_dq))


@lemma('C17', [E + '__mul__'], cases=60)
def monoid(c):
  """Composition is associative and the identity calibration is neutral."""
  m = c.mod('extrinsic_calibration')
  D = c.mod('dual_quaternion').DualQuaternion
  x, y, z = calib(c, 'x'), calib(c, 'y'), calib(c, 'z')
  a, b = (x * y) * z, x * (y * z)
  k = 0.0 if c.symbolic else big(c, x.pose_dq) * big(c, y.pose_dq) * big(c, z.pose_dq)
  c.eq('associative: offset', a.time_offset, b.time_offset,
       scale=0.0 if c.symbolic else abs(x.time_offset) + abs(y.time_offset) + abs(z.time_offset))
  c.eq('associative: motion', comps(a.pose_dq), comps(b.pose_dq), scale=k)
  e = m.ExtrinsicCalibration(0, D.identity())
  for label, p in (('left', e * x), ('right', x * e)):
    c.eq(label + ' neutral: offset', p.time_offset, x.time_offset)
    c.eq(label + ' neutral: motion', comps(p.pose_dq), comps(x.pose_dq))


@lemma('C17', [E + '__mul__'], cases=30)
def refuses(c):
  """Composition with anything else is refused."""
  x = calib(c, 'x')
  for label, v in (('number', 2.0), ('motion', x.pose_dq), ('nothing', None), ('text', 'x'), ('list', [1])):
    c.raises(label, lambda: x * v)


@lemma('C17', [E + '__mul__'], cases=60)
def circle(c):
  """Around a consistent circle of three sensors the motion closes to the identity."""
  m = c.mod('extrinsic_calibration')
  x, y = calib(c, 'x'), calib(c, 'y')
  d = c.real('d')
  back = m.ExtrinsicCalibration(d, (x.pose_dq * y.pose_dq).inverse())
  z = x * y * back
  c.eq('closes', comps(z.pose_dq), S.IDENTITY,
       scale=0.0 if c.symbolic else big(c, x.pose_dq) * big(c, y.pose_dq))
  c.eq('sum of the offsets', z.time_offset, x.time_offset + y.time_offset + d)
