"""C16: pose files are read and written faithfully."""
import shutil
import tempfile

from contracts import lemma
from contracts import spec as S

F = 'csv_io:'


class Scratch(object):

  def __enter__(self):
    self.d = tempfile.mkdtemp(prefix='pyvc')
    return self.d

  def __exit__(self, *a):
    shutil.rmtree(self.d, ignore_errors=True)
    return False


def rows(c, n):
  """n rows [t, x, y, z, qx, qy, qz, qw] with a non-zero quaternion of any norm."""
  def row(e):
    if c.symbolic:
      q = e.reals('q', 4)
      e.assume(S.qn2(q) > 0)
      return [e.real('t')] + e.reals('p', 3) + q
    q = S.scale(e.unit('q', 4), c.rng.choice([1.0, 1.0, 0.3, 7.0]))
    p = [v * 10 ** c.rng.choice([0, 0, 0, -6, 3]) for v in e.reals('p', 3)]
    return [e.stamp('t', start=c.rng.choice([0.0, 1.5e9, -12.25]))] + p + q
  return c.table('row', n, 8, row)


def writing(c):
  """A decimal notation of v that reads back as v."""
  return lambda v: c.rng.choice(['%r', '%.17g', '%.17e', ' %r', '%r ']) % v


@lemma('C16', [F + 'read_time_stamped_poses_from_csv_file'], cases=150)
def read(c):
  """n lines give n rows, times and orientations in order; JPL negates all imaginary parts."""
  m = c.mod('csv_io')
  n = c.length('n', 1, 8)
  r = rows(c, n)
  jpl = c.choose('jpl', [False, True, None])
  with c.files() as w:
    f = w.path('poses.csv')
    w.put_table('poses.csv', r, writing(c))
    before = w.mark('poses.csv')
    if jpl is None:
      poses, times, qs = m.read_time_stamped_poses_from_csv_file(f)
    else:
      poses, times, qs = m.read_time_stamped_poses_from_csv_file(f, jpl)
    c.check('the file is not changed', w.same('poses.csv', before))
  c.eq('n rows', list(poses.shape), [n, 8])
  c.eq('n times', c.len(times), n)
  c.eq('n orientations', c.len(qs), n)
  for i in c.each('i', n):
    c.eq('stamp', poses[i, 0], r[i, 0], tol=0)
    c.eq('time', times[i], r[i, 0], tol=0)
    c.eq('position', list(poses[i, 1:4]), list(r[i, 1:4]), tol=0)
    norm = c.sqrt(S.qn2(list(r[i, 4:8])))
    q = [x / norm for x in r[i, 4:8]]
    if jpl:
      q = S.qconj(q)
    c.eq('orientation in the row', list(poses[i, 4:8]), q, tol=1e-14)
    c.check('a quaternion', type(qs[i]) is c.mod('quaternion').Quaternion)
    c.eq('orientation', list(qs[i].q), q, tol=1e-14)
  c.disjoint('rows are separate', poses, (times, qs))
  c.disjoint('times are separate', times, (poses, qs))
  if not c.symbolic:
    s = c.snap(poses, times, qs[1:])
    qs[0].q += 1
    c.unchanged('orientations are separate', s, poses, times, qs[1:])


@lemma('C16', [F + 'write_time_stamped_poses_to_csv_file', F + 'write_double_numpy_array_to_csv_file',
               F + 'read_time_stamped_poses_from_csv_file'], cases=150)
def roundtrip(c):
  """Writing poses and reading them back returns the same poses in the same order."""
  m = c.mod('csv_io')
  n = c.length('n', 1, 8)
  if c.symbolic:
    r = c.table('row', n, 8, lambda e: [e.real('t')] + e.reals('p', 3) + e.unit('q', 4))
  else:
    r = rows(c, n)
    if c.boolean('unit'):
      r[:, 4:8] /= c.np.linalg.norm(r[:, 4:8], axis=1)[:, None]
  s = c.snap(r)
  with c.files() as w:
    f = w.path('poses.csv')
    if c.boolean('existing'):
      w.put_junk('poses.csv')
    m.write_time_stamped_poses_to_csv_file(r, f)
    c.unchanged('the poses are not changed', s, r)
    t = w.table('poses.csv')
    c.eq('n lines', list(t.shape), [n, 8])
    poses, times, qs = m.read_time_stamped_poses_from_csv_file(f)
  c.eq('n rows', list(poses.shape), [n, 8])
  c.eq('n times', c.len(times), n)
  c.eq('n orientations', c.len(qs), n)
  for i in c.each('i', n):
    c.eq('time', times[i], poses[i, 0], tol=0)
    c.eq('orientation object', list(qs[i].q), list(poses[i, 4:8]), tol=0)
    near(c, 'stamp and position', list(poses[i, 0:4]), list(r[i, 0:4]), c.frac(1, 10 ** 15))
    if not c.symbolic:
      norm = c.sqrt(S.qn2(list(r[i, 4:8])))
      near(c, 'orientation', list(poses[i, 4:8]), [x / norm for x in r[i, 4:8]], 3e-15)
      continue
    u, q = list(t[i, 4:8]), list(r[i, 4:8])
    e = c.frac(1, 3 * 10 ** 16)
    for x, y in zip(u, q):
      c.have('orientation in the file', within(c, x - y, e))
    norm = c.sqrt(S.qn2(u))
    c.eq('orientation is normalised', list(poses[i, 4:8]), [c.div(x, norm) for x in u])
    normalised(c, u, q, e, list(poses[i, 4:8]))


def within(c, x, e):
  return c.and_(x <= e, -x <= e)


def near(c, label, a, b, tol):
  for x, y in zip(a, b):
    c.check(label, within(c, x - y, tol))


def normalised(c, u, q, e, got):
  """If |q| = 1 and u is within e of q then got = u/|u| is within 30 e of q (ghost steps)."""
  norm = c.sqrt(S.qn2(u))
  s = c.name('s', norm)
  c.have('norm squared', c.and_(s * s == S.qn2(u), s >= 0))
  e = c.name('e', e)
  small = c.and_(e > 0, e <= c.frac(1, 1000))
  d = [x - y for x, y in zip(u, q)]
  o = list(u) + list(q) + [s]
  for x in q:
    c.have('component of a unit quaternion', within(c, x, 1), using=[S.qn2(q) == 1], opaque=o)
  for x, y, z in zip(u, q, d):
    c.have('cross term', within(c, y * z, e), using=[within(c, y, 1), within(c, z, e), small], opaque=o + [z])
    c.have('square term', within(c, z * z, e), using=[within(c, z, e), small], opaque=o + [z])
  c.have('squared norm', within(c, S.qn2(u) - 1, 12 * e),
         using=[S.qn2(q) == 1] + [within(c, y * z, e) for y, z in zip(q, d)] +
         [within(c, z * z, e) for z in d], opaque=o)
  c.have('norm', within(c, s - 1, 12 * e), using=[within(c, s * s - 1, 12 * e), s >= 0, small], opaque=o)
  c.have('not small', s >= c.frac(1, 2), using=[within(c, s - 1, 12 * e), small], opaque=o)
  for x, y, z, g in zip(u, q, d, got):
    c.have('change of norm', within(c, y * (s - 1), 12 * e), using=[within(c, y, 1), within(c, s - 1, 12 * e), small],
           opaque=o + [s - 1])
    c.have('rescaled', within(c, x - y * s, 13 * e), using=[within(c, y * (s - 1), 12 * e), within(c, z, e)],
           opaque=o)
    v = c.name('v', g - y)
    c.have('times the norm', g * norm == x)
    c.have('times s', g * s == x, using=[g * norm == x, s == norm], opaque=[norm, g, x])
    c.have('divided', v * s == x - y * s, using=[g * s == x, v == g - y], opaque=o + [g])
    c.have('scaled error', within(c, v * s, 13 * e), using=[v * s == x - y * s, within(c, x - y * s, 13 * e)],
           opaque=o)
    c.have('normalised', within(c, v, 30 * e), using=[within(c, v * s, 13 * e), s >= c.frac(1, 2), small], opaque=[v, s])
    c.have('orientation', within(c, g - y, 30 * e), using=[within(c, v, 30 * e), v == g - y], opaque=[g, y])
    tol = c.frac(1, 10 ** 15)
    c.have('orientation', within(c, g - y, tol), using=[within(c, g - y, 30 * e), 30 * e <= tol], opaque=[g, y])
    c.check('orientation', within(c, g - y, tol))
