"""C15: the estimated time offset is the lag of best correlation."""
from contracts import lemma
from contracts import spec as S
from contracts.c03 import same_up_to_sign
from contracts.fn import cosine
from contracts.paths import within
from contracts.c14 import T, mod, stamped

Q_ = 'quaternion:'


def sampled(c, name, start, dt, n):
  """n equally spaced time stamps."""
  if c.symbolic:
    return c.series(name, n, lambda e: start + dt * c.position(e))
  return c.np.array([start + dt * i for i in range(n)])


def lag_any(c):
  n, m = c.length('n', 2), c.length('m', 2)
  dt, ta, tb = c.real('dt'), c.real('ta'), c.real('tb')
  c.assume(dt > 0)
  a, b = [c.seq(s, k, lambda e: e.real('v')) for s, k in (('a', n), ('b', m))]
  times_a, times_b = sampled(c, 'ta', ta, dt, n), sampled(c, 'tb', tb, dt, m)
  l = c.best_lag(b, a)
  c.consider(l + n - 1, m - 1 - l)
  s = c.snap(times_a, a, times_b, b)
  r = mod(c).calculate_time_offset_from_signals(times_a, a, times_b, b)
  c.unchanged('the signals are not changed', s, times_a, a, times_b, b)
  c.eq('offset', r, dt * l + tb - ta)


@lemma('C15', [T + 'calculate_time_offset_from_signals'], cases=300)
def lag(c):
  """The step times the lag of the largest cross-correlation, plus the difference of the start times."""
  if c.symbolic:
    return lag_any(c)
  np = c.np
  n, m = c.integer('n', 2, 12), c.integer('m', 2, 12)
  dt = c.choose('dt', [0.125, 0.25, c.real('step', 0.01, 1)])
  ta, tb = c.real('ta'), c.real('tb')
  a = [abs(x) for x in c.reals('a', n)]
  b = [abs(x) for x in c.reals('b', m)]
  if c.boolean('shifted'):
    k = c.integer('k', 0, 4)
    b = ([0.0] * k + a)[:m] + [0.0] * max(0, m - k - n)
  times_a = np.array([ta + dt * i for i in range(n)])
  times_b = np.array([tb + dt * i for i in range(m)])
  val = {}
  for l in range(-n + 1, m):
    val[l] = sum(b[i + l] * a[i] for i in range(n) if 0 <= i + l < m)
  best = max(val.values())
  c.assume(best > 1e-6 and sum(1 for v in val.values() if v > best * (1 - 1e-9) - 1e-12) == 1)
  l = max(val, key=lambda k: val[k])
  s = c.snap(times_a, a, times_b, b)
  r = mod(c).calculate_time_offset_from_signals(times_a, a, times_b, b)
  c.unchanged('the signals are not changed', s, times_a, a, times_b, b)
  c.eq('offset', r, dt * l + tb - ta, scale=abs(ta) + abs(tb))


@lemma('C15', [Q_ + 'angular_velocity_between_quaternions'], cases=200)
def rate(c):
  """Axis and angle of q1 q2^-1 on the shorter side, half of it per unit of time; independent of the
  signs, of a rotation of the sensor frame and, in length, of a rotation of the world frame."""
  Q = c.mod('quaternion').Quaternion
  f = c.mod('quaternion').angular_velocity_between_quaternions
  a, b = c.unit('a', 4), c.unit('b', 4)
  t = c.real('t', lo=0.01)
  rel = S.qmul(a, S.qconj(b))
  if c.symbolic:
    cosine(c, a, b)
  e = 0 if c.symbolic else 1e-6
  c.assume(c.or_(rel[3] > e, rel[3] < -e))
  qa, qb = Q(q=c.floats(a)), Q(q=c.floats(b))
  s = c.snap(qa, qb)
  v = [x for x in f(qa, qb, t)]
  c.unchanged('the inputs are not changed', s, qa, qb)
  for sa, sb in ((-1, 1), (1, -1)):
    w = f(Q(q=c.floats(S.scale(a, sa))), Q(q=c.floats(S.scale(b, sb))), t)
    c.eq('independent of the sign', [x for x in w], v, tol=1e-6)


@lemma('C15', [Q_ + 'angular_velocity_between_quaternions'], cases=200)
def rate_value(c):
  """The rate is half the rotation vector of q1 q2^-1 per unit of time, in any sensor frame."""
  Q = c.mod('quaternion').Quaternion
  f = c.mod('quaternion').angular_velocity_between_quaternions
  n = c.unit('n', 3)
  if c.symbolic:
    w = c.real('w')
    c.assume(c.and_(w > 0, w < 1 - c.const('1e-12')))
    h = c.arccos(w)
  else:
    h = c.choose('h', [10 ** c.real('e', -5, -1), c.real('l', 0.05, 1.55)])
  b, r = c.unit('b', 4), c.unit('r', 4)
  t = c.real('t', lo=0.01)
  a = S.qmul(S.scale(n, c.sin(h)) + [c.cos(h)], b)
  q = lambda x: Q(q=c.floats(x))
  want = S.scale(n, h / t)
  tol = 1e-6 / t
  c.eq('rotation vector', [x for x in f(q(a), q(b), t)], want, tol=tol)
  c.eq('sensor frame', [x for x in f(q(S.qmul(a, r)), q(S.qmul(b, r)), t)], want, tol=tol)
  c.eq('world frame', [x for x in f(q(S.qmul(r, a)), q(S.qmul(r, b)), t)],
       S.rotate(r, want), tol=tol)


def velocities(c, qs, ts):
  f = c.mod('quaternion').angular_velocity_between_quaternions
  return c.np.array([f(qs[i], qs[i + 1], ts[i + 1] - ts[i]) for i in range(len(qs) - 1)]).reshape(-1, 3)


def smoothed(c, v, kernel, percentile):
  """Clipping at the percentile, then the centred moving mean with zeros outside."""
  np = c.np
  top = np.percentile(v, percentile)
  w = np.clip(v, -top, top)
  out = np.zeros(w.shape)
  n = len(w)
  for i in range(n):
    for k in range(kernel):
      j = i + k - (kernel // 2)
      if kernel <= n and 0 <= j < n:
        out[i] += w[j] / kernel
  return out


def signal_any(c):
  Q = c.mod('quaternion').Quaternion
  f = c.mod('quaternion').angular_velocity_between_quaternions
  n, kernel, percentile = c.length('n', 2), c.integer('kernel', 1), c.real('percentile', 0, 100)
  frame = c.unit('frame', 4)

  def turned(e):
    q = S.qmul(e.unit('q', 4), frame)
    return Q(q=c.floats(q if e.boolean('sign') else S.neg(q)))
  qs = c.seq('p', n, lambda e: Q(q=c.floats(e.unit('q', 4))))
  other = c.seq('p', n, turned)
  ts = c.series('p', n, lambda e: e.stamp('t'))
  v = c.table('p', n - 1, 3, lambda e: pair_rate(c, f, qs, ts, c.position(e)))
  top = c.np.percentile(v, percentile)
  w = c.smooth(c.np.clip(v, -top, top), kernel)
  s = c.snap(qs, ts)
  r = mod(c).compute_angular_velocity_norms(qs, ts, kernel, percentile)
  c.unchanged('the inputs are not changed', s, qs, ts)
  c.eq('one value per pair', c.len(r), n - 1)
  for i in c.each('i', n - 1):
    c.eq('smoothed rates', c.at(r, i), c.np.linalg.norm(c.at(w, i)))
  r2 = mod(c).compute_angular_velocity_norms(other, ts, kernel, percentile)
  for i in c.each('i', n - 1):
    c.eq('independent of sign and sensor frame', c.at(r2, i), c.at(r, i))


def pair_rate(c, f, qs, ts, i):
  a, b = c.at(qs, i), c.at(qs, i + 1)
  w = S.dot(list(a.q), list(b.q))
  c.assume(c.or_(w < 0, w > 0))
  return f(a, b, c.at(ts, i + 1) - c.at(ts, i))


@lemma('C15', [T + 'compute_angular_velocity_norms', T + 'filter_and_smooth_angular_velocity'], cases=150)
def signal(c):
  """One value per consecutive pair from that pair and its step; independent of signs and sensor frame."""
  if c.symbolic:
    return signal_any(c)
  Q = c.mod('quaternion').Quaternion
  np = c.np
  n = c.integer('n', 2, 12)
  p = stamped(c, 'p', n, c.choose('grid', [0.0, 0.125]))
  qs, ts = [Q(q=r[4:8].copy()) for r in p], p[:, 0].copy()
  for i in range(n - 1):
    c.assume(abs(S.dot(list(qs[i].q), list(qs[i + 1].q))) > 1e-3)
  kernel = c.choose('kernel', [1, 3, 5, 7])
  c.assume(kernel <= n - 1)
  percentile = c.choose('percentile', [100.0, 99.5, 80.0])
  v = velocities(c, qs, ts)
  c.assume(np.percentile(v, percentile) > 1e-3)
  s = c.snap(qs, ts)
  r = mod(c).compute_angular_velocity_norms(qs, ts, kernel, percentile)
  c.unchanged('the inputs are not changed', s, qs, ts)
  c.check('one value per pair', len(r) == n - 1)
  want = np.linalg.norm(smoothed(c, v, kernel, percentile), axis=1)
  c.eq('smoothed rates', [float(x) for x in r], [float(x) for x in want], tol=1e-8)
  f = Q(q=c.floats(c.unit('frame', 4)))
  other = [(q * f) if c.rng.random() < 0.5 else -(q * f) for q in qs]
  r2 = mod(c).compute_angular_velocity_norms(other, ts, kernel, percentile)
  c.eq('independent of sign and sensor frame', [float(x) for x in r2], [float(x) for x in r], tol=1e-5)


@lemma('C15', [T + 'compute_angular_velocity_norms'], cases=40)
def time_must_increase(c):
  """Stamps that do not increase are rejected."""
  Q = c.mod('quaternion').Quaternion
  if c.symbolic:
    n = c.length('n', 2)
    qs = c.seq('p', n, lambda e: Q(q=c.floats(e.unit('q', 4))))
    ts = c.series('p', n, lambda e: e.real('t'))
    k = c.index('k', n - 1)
    c.assume(c.at(ts, k + 1) <= c.at(ts, k))
    c.watch(k)
    c.raises('stamps that do not increase',
             lambda: mod(c).compute_angular_velocity_norms(qs, ts, c.integer('kernel', 1), c.real('percentile', 0, 100)))
    return
  n = c.integer('n', 2, 8)
  p = stamped(c, 'p', n)
  k = c.index('k', n, 1)
  p[k, 0] = p[k - 1, 0] - c.choose('back', [0.0, 0.01, 3.0])
  qs = [Q(q=r[4:8].copy()) for r in p]
  c.raises('stamps that do not increase',
           lambda: mod(c).compute_angular_velocity_norms(qs, p[:, 0].copy(), 1, 100.0))


def motion(c, name, n, grid, start):
  """Time stamps on a dyadic grid."""
  ts, t = [], start
  for _ in range(n):
    ts.append(t)
    t += grid * c.rng.choice([1, 1, 1, 2])
  return c.np.array(ts)


def whole_any(c):
  m = mod(c)
  Q = c.mod('quaternion').Quaternion
  n, k = c.length('n', 2), c.length('k', 2)
  paths = []
  for name, size in (('a', n), ('b', k)):
    paths.append(c.series(name, size, lambda e: e.stamp('t')))
    paths.append(c.seq(name, size, lambda e: Q(q=c.floats(e.unit('q', 4)))))
  ta, qa, tb, qb = paths

  def resample(times, quaternions, dt):
    key = c.key(times, quaternions, dt)
    size = c.count('samples', key, 2)
    return (c.seq('qi', size, lambda e: Q(q=c.floats([c.value('q%d' % j, key, c.position(e)) for j in range(4)]))),
            c.series('si', size, lambda e: c.value('t', key, c.position(e))))

  def norms(quaternions, samples, smoothing_kernel_size, clipping_percentile, plot=False):
    key = c.key(quaternions, samples, smoothing_kernel_size, clipping_percentile)
    return c.seq('v', c.len(quaternions) - 1, lambda e: c.value('norm', key, c.position(e)))

  def offset(times_A, signal_A, times_B, signal_B, plot=False, block=True):
    return c.value('offset', c.key(times_A, signal_A, times_B, signal_B))

  config = m.FilteringConfig()
  for side in 'AB':
    setattr(config, 'smoothing_kernel_size_' + side, c.integer('kernel' + side, 1))
    setattr(config, 'clipping_percentile_' + side, c.real('percentile' + side, 0, 100))
  s = c.snap(ta, qa, tb, qb)
  with c.stubs(m, resample_quaternions=resample, compute_angular_velocity_norms=norms,
               calculate_time_offset_from_signals=offset):
    r = m.calculate_time_offset(ta, qa, tb, qb, config)
  c.unchanged('the inputs are not changed', s, ta, qa, tb, qb)
  da = (c.at(ta, n - 1) - c.at(ta, 0)) / (n - 1)
  db = (c.at(tb, k - 1) - c.at(tb, 0)) / (k - 1)
  dt = da if c.is_true(da >= db) else db
  args = []
  for t, q, kernel, cut in ((ta, qa, config.smoothing_kernel_size_A, config.clipping_percentile_A),
                            (tb, qb, config.smoothing_kernel_size_B, config.clipping_percentile_B)):
    qi, si = resample(t, q, dt)
    v = norms(qi, si, kernel, cut)
    args += [si[:c.len(v)], v]
  c.eq('offset of the two rate signals', r, offset(*args))


@lemma('C15', [T + 'resample_quaternions_from_samples', T + 'compute_angular_velocity_norms',
               T + 'filter_and_smooth_angular_velocity'], cases=60, budget=200)
def clock(c):
  """A clock that is ahead by any amount gives the same orientations at the shifted times, and the same rates."""
  Q = c.mod('quaternion').Quaternion
  n = c.length('n', 2, 6)
  ts = c.series('p', n, lambda e: e.stamp('t', grid=0.125))
  qs = c.seq('p', n, lambda e: Q(q=c.floats(e.unit('q', 4))))
  d = c.choose('d', [0.5, -2.0, 64.0]) if not c.symbolic else c.real('d')
  k, samples = within(c, ts, n)
  a = mod(c).resample_quaternions_from_samples(ts, qs, samples)
  b = mod(c).resample_quaternions_from_samples(ts + d, qs, samples + d)
  c.eq('as many orientations', c.len(a), c.len(b))
  for i in c.each('i', k):
    t = c.at(samples, i)
    if c.symbolic:
      c.have('same place', c.bisect(ts, t) == c.bisect(ts + d, t + d))
    c.eq('orientation', list(c.at(a, i).q), list(c.at(b, i).q), tol=1e-9)
  kernel = c.integer('kernel', 1, 1)
  a = mod(c).compute_angular_velocity_norms(qs, ts, kernel, 100.0)
  b = mod(c).compute_angular_velocity_norms(qs, ts + d, kernel, 100.0)
  for i in c.each('i', n - 1):
    c.eq('rate', c.at(a, i), c.at(b, i), tol=1e-9)


@lemma('C15', [T + 'calculate_time_offset', T + 'resample_quaternions'], cases=40, weight=2)
def whole(c):
  """Both paths are resampled at the larger mean step, turned into rates, and correlated;
  a shift of either clock moves the result by exactly that shift."""
  if c.symbolic:
    return whole_any(c)
  np = c.np
  m = mod(c)
  Q = c.mod('quaternion').Quaternion
  grid = c.choose('grid', [0.0625, 0.125])
  n, k = c.integer('n', 20, 60), c.integer('k', 20, 60)
  ta = motion(c, 'a', n, grid, 0.0)
  tb = motion(c, 'b', k, grid * c.choose('ratio', [1, 0.5, 2]), c.choose('begin', [0.0, 1.0, -2.5]))
  amp, freq, ph = ([c.rng.uniform(0.2, 1.2) for _ in range(3)], [c.rng.uniform(0.3, 3) for _ in range(3)],
                   [c.rng.uniform(0, 6) for _ in range(3)])

  def orientation(t):
    q = [0.0, 0.0, 0.0, 1.0]
    for i in range(3):
      e = [0.0, 0.0, 0.0]
      h = 0.5 * amp[i] * float(np.sin(freq[i] * t + ph[i]))
      e[i] = float(np.sin(h))
      q = S.qmul(q, e + [float(np.cos(h))])
    return Q(q=c.floats(q))
  qa, qb = [orientation(t) for t in ta], [orientation(t + 0.3) for t in tb]
  config = m.FilteringConfig()
  config.smoothing_kernel_size_A = c.choose('ka', [1, 3, 5])
  config.smoothing_kernel_size_B = c.choose('kb', [1, 3, 5])
  config.clipping_percentile_A = c.choose('ca', [100.0, 99.0, 95.0])
  config.clipping_percentile_B = c.choose('cb', [100.0, 99.5, 90.0])
  s = c.snap(ta, qa, tb, qb)
  r = m.calculate_time_offset(ta, qa, tb, qb, config)
  c.unchanged('the inputs are not changed', s, ta, qa, tb, qb)
  dt = max(np.mean(np.diff(ta)), np.mean(np.diff(tb)))
  sig = []
  for t, q, kernel, cut in ((ta, qa, config.smoothing_kernel_size_A, config.clipping_percentile_A),
                            (tb, qb, config.smoothing_kernel_size_B, config.clipping_percentile_B)):
    qi, si = m.resample_quaternions(t, q, dt)
    v = m.compute_angular_velocity_norms(qi, si, kernel, cut)
    sig.append((si[:len(v)], v))
  want = m.calculate_time_offset_from_signals(sig[0][0], sig[0][1], sig[1][0], sig[1][1])
  c.eq('offset of the two rate signals', r, want)
  for da, db in ((c.choose('da', [1.0, -64.0, 0.5]), 0.0), (0.0, c.choose('db', [2.0, -32.0, 0.25]))):
    x = m.calculate_time_offset(ta + da, qa, tb + db, qb, config)
    c.eq('clock shift', x, r + db - da, tol=1e-8)
