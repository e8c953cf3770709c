"""Time stamped paths: what the pose of a path at a time is."""


def orientation_at(c, ts, qs, t):
  """Orientation (qs(i) at stamp i) at time t: the exact one at a stamp, otherwise between the two neighbours."""
  r = c.bisect(ts, t)
  right = qs(r)
  if c.is_true(c.at(ts, r) - t <= c.const('1e-16')):
    return list(right.q)
  a, b = c.at(ts, r - 1), c.at(ts, r)
  return list(c.mod('quaternion').quaternion_slerp(qs(r - 1), right, (t - a) / (b - a)).q)


def position_at(c, p, t):
  """Position of a path at time t: on the line between the two neighbours."""
  r = c.bisect(p[:, 0], t)
  b = c.at(p, r)
  if c.is_true(b[0] == t):
    return list(b[1:4])
  a = c.at(p, r - 1)
  return [a[j] + (b[j] - a[j]) * (t - a[0]) / (b[0] - a[0]) for j in (1, 2, 3)]


def turned(c, p):
  """The orientation of row i of a path."""
  Q = c.mod('quaternion').Quaternion
  return lambda i: Q(q=c.at(p, i)[4:8].copy())


def path(c, n, name='p', **hint):
  """Time stamped poses with strictly increasing stamps."""
  return c.table(name, n, 8, lambda e: [e.stamp('t', **hint)] + e.reals('x', 3) + e.unit('q', 4))


def within(c, ts, n):
  """Requested times inside of the interval covered by the stamps."""
  k = c.length('k', 0, 6)
  a, b = c.at(ts, 0), c.at(ts, n - 1)
  edge = () if c.symbolic else list(ts)
  return k, c.series('s', k, lambda e: e.real('v', lo=a, hi=b, edge=edge))
