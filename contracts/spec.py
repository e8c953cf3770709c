"""Mathematical definitions the contracts refer to (independent of the code).

Quaternions are [x, y, z, w]; dual quaternions are [real, dual]."""


def qmul(a, b):
  ax, ay, az, aw = a
  bx, by, bz, bw = b
  # vector part: aw bv + bw av + av x bv ; scalar part: aw bw - av.bv
  return [aw * bx + bw * ax + (ay * bz - az * by),
          aw * by + bw * ay + (az * bx - ax * bz),
          aw * bz + bw * az + (ax * by - ay * bx),
          aw * bw - (ax * bx + ay * by + az * bz)]


def qconj(a):
  return [-a[0], -a[1], -a[2], a[3]]


def dot(a, b):
  s = 0
  for x, y in zip(a, b):
    s = s + x * y
  return s


def qn2(a):
  return dot(a, a)


def add(a, b):
  return [x + y for x, y in zip(a, b)]


def sub(a, b):
  return [x - y for x, y in zip(a, b)]


def scale(a, s):
  return [x * s for x in a]


def neg(a):
  return [-x for x in a]


def cross(a, b):
  return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def rotate(q, v):
  """Vector part of q v q* for a unit quaternion."""
  return qmul(qmul(q, [v[0], v[1], v[2], 0]), qconj(q))[0:3]


def rotmat(q):
  """Columns are the images of the basis vectors."""
  cols = [rotate(q, e) for e in ([1, 0, 0], [0, 1, 0], [0, 0, 1])]
  return [[cols[j][i] for j in range(3)] for i in range(3)]


def matvec(m, v):
  return [dot(r, v) for r in m]


def matmul(a, b):
  return [[dot(r, [row[j] for row in b]) for j in range(len(b[0]))] for r in a]


def dqmul(a, b):
  ar, ad, br, bd = a[0:4], a[4:8], b[0:4], b[4:8]
  return qmul(ar, br) + add(qmul(ar, bd), qmul(ad, br))


def dqconj(a):
  return qconj(a[0:4]) + qconj(a[4:8])


def translation(a):
  """t of a unit dual quaternion: 2 d r*."""
  return scale(qmul(a[4:8], qconj(a[0:4])), 2)[0:3]


def dq_of(q, t):
  """Unit dual quaternion of rotation q (unit) and translation t."""
  return list(q) + [x / 2 for x in qmul([t[0], t[1], t[2], 0], q)]


def apply(a, p):
  """R p + t"""
  return add(rotate(a[0:4], p), translation(a))


def matrix(a):
  """4x4 matrix of a unit dual quaternion."""
  r, t = rotmat(a[0:4]), translation(a)
  return [r[0] + [t[0]], r[1] + [t[1]], r[2] + [t[2]], [0, 0, 0, 1]]


IDENTITY = [0, 0, 0, 1, 0, 0, 0, 0]
