"""C14: time alignment resamples both paths at common stamps without extrapolation."""
import bisect
import math

from contracts import lemma
from contracts import spec as S
from contracts.c03 import same_up_to_sign
from contracts.paths import orientation_at, path, position_at, turned, within

T = 'time_alignment:'


def mod(c):
  return c.mod('time_alignment')


def stamps(c, n, grid, start):
  """Strictly increasing time stamps, on a coarse dyadic grid or arbitrary."""
  out, t = [], start
  for _ in range(n):
    out.append(t)
    if grid:
      t += c.rng.choice([1, 1, 1, 2, 3, 12]) * grid
    else:
      t += c.rng.choice([0.03, 0.05, 0.1, 0.3]) * c.rng.uniform(0.5, 1.5)
  return out


def stamped(c, name, n, grid=0.0, start=0.0):
  """n time stamped poses [t, x, y, z, qx, qy, qz, qw]."""
  ts = stamps(c, n, grid, start)
  rows = [[t] + c.reals('%s.p%d' % (name, i), 3) + c.unit('%s.q%d' % (name, i), 4) for i, t in enumerate(ts)]
  return c.np.array(rows, dtype=float).reshape(n, 8)


def slerp(a, b, f):
  """Spherical interpolation on the shorter arc, None if both arcs are equally short."""
  d = S.dot(a, b)
  if d < 0:
    b, d = S.neg(b), -d
  if d < 1e-6:
    return None
  h = 2 * math.asin(min(1.0, math.sqrt(S.qn2(S.sub(a, b))) / 2))
  if h < 1e-6:
    return S.add(S.scale(a, 1 - f), S.scale(b, f))
  return S.add(S.scale(a, math.sin((1 - f) * h) / math.sin(h)), S.scale(b, math.sin(f * h) / math.sin(h)))


def pose_at(table, t):
  """The path at time t: [position, orientation (None if ambiguous)]."""
  ts = [float(r[0]) for r in table]
  k = bisect.bisect_left(ts, t)
  if k < len(ts) and ts[k] == t:
    return list(table[k][1:4]), list(table[k][4:8])
  a, b = table[k - 1], table[k]
  f = (t - a[0]) / (b[0] - a[0])
  return S.add(S.scale(list(a[1:4]), 1 - f), S.scale(list(b[1:4]), f)), slerp(list(a[4:8]), list(b[4:8]), f)


def is_path_at(c, label, got, table, t, exact_sign=True):
  p, q = pose_at(table, t)
  c.eq(label + ': position', list(got[1:4]), p, tol=1e-9, scale=float(c.np.max(c.np.abs(table[:, 1:4]))))
  if q is not None:
    same_up_to_sign(c, label + ': orientation', list(got[4:8]), q, tol=2e-7)


@lemma('C14', [T + 'resample_quaternions_from_samples'], sym=False, cases=150,
       bounded='1..8 sampled stamps, 0..8 requested times')
def orientations(c):
  """Each requested time gets the spherical interpolation of its neighbours, coinciding stamps the exact one."""
  Q = c.mod('quaternion').Quaternion
  n = c.integer('n', 1, 8)
  p = stamped(c, 'p', n, c.choose('grid', [0.0, 0.125]), c.choose('start', [0.0, -3.5, 1.5e9]))
  ts = p[:, 0].copy()
  qs = [Q(q=r[4:8].copy()) for r in p]
  k = c.integer('k', 0, 8)
  want = [float(c.rng.choice([c.rng.uniform(ts[0], ts[-1]), c.rng.choice(list(ts))])) for _ in range(k)]
  want = [min(max(w, ts[0]), ts[-1]) for w in want]
  if c.boolean('sorted'):
    want.sort()
  samples = c.np.array(want, dtype=float)
  s = c.snap(ts, qs, samples)
  r = mod(c).resample_quaternions_from_samples(ts, qs, samples)
  c.unchanged('the inputs are not changed', s, ts, qs, samples)
  c.check('one orientation per time', len(r) == k)
  for t, q in zip(want, r):
    w = pose_at(p, t)[1]
    if w is not None:
      same_up_to_sign(c, 'orientation', [float(x) for x in q.q], w, tol=2e-7)
    if t in list(ts):
      c.eq('exact at a stamp', [float(x) for x in q.q], w, tol=0)


@lemma('C14', [T + 'resample_quaternions_from_samples', T + 'interpolate_poses_from_samples'], sym=False,
       cases=60, bounded='one time outside of 1..6 sampled stamps')
def no_extrapolation(c):
  """Times outside of the path are rejected."""
  Q = c.mod('quaternion').Quaternion
  n = c.integer('n', 1, 6)
  p = stamped(c, 'p', n)
  e = 10 ** c.real('e', -9, 1)
  out = c.choose('side', [p[0, 0] - e, p[-1, 0] + e])
  samples = [float(c.rng.uniform(p[0, 0], p[-1, 0])) for _ in range(c.integer('k', 0, 3))]
  samples.insert(c.rng.randint(0, len(samples)), out)
  samples = c.np.array(samples)
  qs = [Q(q=r[4:8].copy()) for r in p]
  c.raises('orientation outside', lambda: mod(c).resample_quaternions_from_samples(p[:, 0].copy(), qs, samples))
  c.raises('pose outside', lambda: mod(c).interpolate_poses_from_samples(p, samples))


@lemma('C14', [T + 'interpolate_poses_from_samples'], sym=False, cases=150,
       bounded='1..8 sampled poses, 0..8 requested times')
def poses(c):
  """Linear interpolation of the position and spherical interpolation of the orientation."""
  n = c.integer('n', 1, 8)
  p = stamped(c, 'p', n, c.choose('grid', [0.0, 0.125]), c.choose('start', [0.0, -3.5, 1.5e9]))
  k = c.integer('k', 0, 8)
  want = [float(c.rng.choice([c.rng.uniform(p[0, 0], p[-1, 0]), c.rng.choice(list(p[:, 0]))])) for _ in range(k)]
  samples = c.np.array([min(max(w, p[0, 0]), p[-1, 0]) for w in want], dtype=float)
  s = c.snap(p, samples)
  r = mod(c).interpolate_poses_from_samples(p, samples)
  c.unchanged('the inputs are not changed', s, p, samples)
  c.disjoint('own storage', r, (p, samples))
  c.check('one row per time', r.shape == (k, 8))
  for i in range(k):
    c.eq('stamp', r[i, 0], samples[i], tol=0)
    is_path_at(c, 'pose', r[i], p, samples[i])


def regular_any(c):
  m = mod(c)
  Q = c.mod('quaternion').Quaternion
  n = c.length('n', 2)
  ts = c.series('p', n, lambda e: e.stamp('t'))
  qs = c.seq('p', n, lambda e: Q(q=c.floats(e.unit('q', 4))))
  first, last = c.at(ts, 0), c.at(ts, n - 1)
  dt, span = c.real('dt'), last - first
  c.assume(c.and_(dt > 0, span >= dt))

  def from_samples(times, quaternions, samples):
    key = c.key(times, quaternions, samples)
    return c.seq('r', c.len(samples),
                 lambda e: Q(q=c.floats([c.value('q%d' % j, key, c.position(e)) for j in range(4)])))
  s = c.snap(ts, qs)
  with c.stubs(m, resample_quaternions_from_samples=from_samples):
    r, samples = m.resample_quaternions(ts, qs, dt)
  c.unchanged('the inputs are not changed', s, ts, qs)
  k = c.len(samples)
  c.check('number of samples', c.and_((k - 1) * dt <= span, span < k * dt))
  for i in c.each('i', k):
    c.eq('equally spaced over the interval', c.at(samples, i), first + span * i / (k - 1))
  c.eq('orientations at these times', r, from_samples(ts, qs, samples))


@lemma('C14', [T + 'resample_quaternions'], cases=80)
def regular(c):
  """Regular resampling covers the whole interval with the requested step at most once more."""
  if c.symbolic:
    return regular_any(c)
  Q = c.mod('quaternion').Quaternion
  n = c.integer('n', 2, 8)
  p = stamped(c, 'p', n, c.choose('grid', [0.0, 0.125]))
  qs = [Q(q=r[4:8].copy()) for r in p]
  dt = c.real('dt', 0.03, 0.4)
  ts = p[:, 0].copy()
  span = ts[-1] - ts[0]
  c.assume(abs(span / dt - round(span / dt)) > 1e-6 and span / dt > 1)
  s = c.snap(ts, qs)
  r, samples = mod(c).resample_quaternions(ts, qs, dt)
  c.unchanged('the inputs are not changed', s, ts, qs)
  k = int(span / dt + 1)
  c.check('number of samples', len(samples) == k and len(r) == k)
  for i in range(k):
    c.eq('equally spaced over the interval', samples[i], ts[0] + span * i / (k - 1.0))
    w = pose_at(p, min(max(samples[i], ts[0]), ts[-1]))[1]
    if w is not None:
      same_up_to_sign(c, 'orientation', [float(x) for x in r[i].q], w, tol=2e-7)


@lemma('C14', [T + 'compute_aligned_poses'], sym=False, cases=400,
       bounded='2..10 sampled poses per path, gaps around 0.1 s, overlapping and separate intervals')
def aligned(c):
  """Common stamps, neighbours close in the other path, and every pose is the path at its stamp."""
  np = c.np
  grid = c.choose('grid', [0.0, 0.03125, 0.0625])
  # the same offset is exactly representable, so that coinciding stamps stay coinciding
  off = c.choose('offset', [0.0, 0.25, -0.125, 2.0])
  start = c.choose('start', [0.0, 0.0, 16.0, 1024.0])
  a = stamped(c, 'a', c.integer('n', 2, 10), grid, start)
  b = stamped(c, 'b', c.integer('m', 2, 10), c.choose('grid2', [grid, 2 * grid]),
              start + off + c.rng.choice([0.0, 0.0625, -0.0625, 0.25, -0.25, 0.5, -3.0]))
  s = c.snap(a, b)
  ra, rb = mod(c).compute_aligned_poses(a, b, off)
  c.unchanged('the inputs are not changed', s, a, b)
  c.disjoint('own storage', (ra, rb), (a, b))
  c.check('equal shape', ra.shape == rb.shape and ra.shape[1] == 8)
  c.eq('identical stamps', list(ra[:, 0]), list(rb[:, 0]), tol=0)
  shifted = a.copy()
  shifted[:, 0] = a[:, 0] + off
  step = lambda p: float(np.median(np.diff(p[:, 0])))
  low, high = (shifted, b) if step(shifted) >= step(b) else (b, shifted)
  if abs(step(shifted) - step(b)) < 1e-12 and step(shifted) != step(b):
    c.skip()
  ls, hs = list(low[:, 0]), list(high[:, 0])
  for i in range(len(ra)):
    t = ra[i, 0]
    c.check('a stamp of the slower path', t in ls)
    c.check('strictly increasing', i == 0 or t > ra[i - 1, 0])
    c.check('inside the common interval', max(ls[0], hs[0]) <= t <= min(ls[-1], hs[-1]))
    k = bisect.bisect_left(hs, t)
    c.check('neighbours in the other path within 0.1 s',
            hs[k] == t or (t - hs[k - 1] <= 0.1 and hs[k] - t <= 0.1))
    is_path_at(c, 'first', ra[i], shifted, t)
    is_path_at(c, 'second', rb[i], b, t)
  # not required by the statement for the last interval, but for everything before it
  got = set(ra[:, 0])
  for t in ls:
    k = bisect.bisect_left(hs, t)
    if t < max(ls[0], hs[0]) or k >= len(hs) - 1:
      continue
    if hs[k] == t or (t - hs[k - 1] < 0.1 and hs[k] - t < 0.1):
      c.check('no matching stamp is lost', t in got)


def clock(c, n, name='p', **hint):
  """Strictly increasing time stamps."""
  return c.series(name, n, lambda e: e.stamp('t', **hint))


def quats(c, n, name='p'):
  Q = c.mod('quaternion').Quaternion
  return c.seq(name, n, lambda e: Q(q=c.floats(e.unit('q', 4))))


@lemma('C14', [T + 'resample_quaternions_from_samples'], cases=80, budget=200)
def every_orientation(c):
  """Each requested time gets the orientation interpolated between the stamps around it."""
  n = c.length('n', 1, 6)
  ts, qs = clock(c, n), quats(c, n)
  k, samples = within(c, ts, n)
  s = c.snap(ts, qs, samples)
  out = mod(c).resample_quaternions_from_samples(ts, qs, samples)
  c.unchanged('the inputs are not changed', s, ts, qs, samples)
  c.eq('one orientation per time', c.len(out), k)
  for i in c.each('i', k):
    c.eq('orientation', list(c.at(out, i).q), orientation_at(c, s[0], lambda j: c.at(s[1], j), c.at(s[2], i)))


@lemma('C14', [T + 'resample_quaternions_from_samples'], cases=60, budget=200)
def never_outside(c):
  """A request with a time outside of the covered interval is rejected."""
  n = c.length('n', 1, 6)
  ts, qs = clock(c, n), quats(c, n)
  k = c.length('k', 1, 6)
  samples = c.series('s', k, lambda e: e.real('v'))
  i = c.index('i', k)
  c.watch(i)
  t = c.at(samples, i)
  c.assume(c.or_(t < c.at(ts, 0), t > c.at(ts, n - 1)))
  c.raises('rejected', lambda: mod(c).resample_quaternions_from_samples(ts, qs, samples))


@lemma('C14', [T + 'interpolate_poses_from_samples'], cases=80, budget=300)
def every_pose(c):
  """Each requested time gets the pose of the path at that time."""
  n = c.length('n', 1, 6)
  p = path(c, n)
  k, samples = within(c, p[:, 0], n)
  s = c.snap(p, samples)
  out = mod(c).interpolate_poses_from_samples(p, samples)
  c.unchanged('the inputs are not changed', s, p, samples)
  c.disjoint('own storage', out, (p, samples))
  c.eq('one row per time', c.len(out), k)
  c.eq('columns', out.shape[1], 8)
  qs = turned(c, s[0])
  for i in c.each('i', k):
    t, row = c.at(s[1], i), c.at(out, i)
    c.eq('stamp', row[0], t, tol=0)
    c.eq('position', list(row[1:4]), position_at(c, s[0], t))
    c.eq('orientation', list(row[4:8]), orientation_at(c, s[0][:, 0], qs, t))


@lemma('C14', [T + 'compute_aligned_poses'], cases=200, budget=300)
def every_aligned(c):
  """Identical stamps taken from the slower path, close neighbours, and every pose is its path at its stamp."""
  n, m = c.length('n', 2, 8), c.length('m', 2, 8)
  off = c.real('off', edge=(0.0, 0.25, -0.125))
  a = path(c, n, 'a', grid=0.0625)
  b = path(c, m, 'b', grid=0.0625)
  s = c.snap(a, b)
  ra, rb = mod(c).compute_aligned_poses(a, b, off)
  c.unchanged('the inputs are not changed', s, a, b)
  c.disjoint('own storage', (ra, rb), (a, b))
  c.eq('equal length', c.len(ra), c.len(rb))
  c.eq('columns', [ra.shape[1], rb.shape[1]], [8, 8])
  A, B = s
  A[:, 0] += off
  step = lambda p: c.np.median(c.np.diff(p[:, 0]))
  slow, fast, nf, ns = (A, B, m, n) if c.is_true(step(A) >= step(B)) else (B, A, n, m)
  low, high = slow[:, 0], fast[:, 0]
  for i in c.each('i', c.len(ra)):
    x, y = c.at(ra, i), c.at(rb, i)
    t = x[0]
    c.eq('identical stamps', y[0], t, tol=0)
    j = c.bisect(low, t)
    c.check('not behind the slower path', j < ns)
    c.eq('a stamp of the slower path', c.at(low, j), t, tol=0)
    c.check('inside the other path', c.and_(c.at(high, 0) <= t, t <= c.at(high, nf - 1)))
    k = c.bisect(high, t)
    if not c.is_true(c.at(high, k) == t):
      c.check('neighbours in the other path within 0.1 s',
              c.and_(t - c.at(high, k - 1) <= c.const('0.1'), c.at(high, k) - t <= c.const('0.1')))
    for got, p in ((x, A), (y, B)):
      c.eq('the pose of the path at that time', list(got[1:8]), c.pose_at(p, t))
