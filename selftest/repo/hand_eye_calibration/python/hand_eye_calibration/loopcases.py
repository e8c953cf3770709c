import copy
import numpy as np


class Box(object):

  def __init__(self, v):
    self.v = v
    self.a = np.array([v, v])


def build(xs):
  out = []
  for x in xs:
    out.append(x * 2)
  return out


def build_comp(xs):
  return [x + 1 for x in xs]


def select(xs):
  out = []
  for x in xs:
    if x > 0:
      out.append(x)
  return out


def select_two(xs):
  a, b = [], []
  for x in xs:
    if x > 0:
      a.append(x)
      b.append(-x)
  return a, b


def partition(xs):
  a, b = [], []
  for x in xs:
    if x > 0:
      a.append(x)
    else:
      b.append(x)
  return a, b


def fill(xs):
  n = len(xs)
  out = [None] * n
  for i in range(n):
    out[i] = xs[i] + i
  return out


def reverse(xs):
  n = len(xs)
  out = [0] * n
  for i in range(n):
    out[n - 1 - i] = xs[i]
  return out


def fill_some(xs):
  n = len(xs)
  out = [0.0] * n
  for i in range(n):
    if xs[i] > 1:
      out[i] = xs[i]
  return out


def shift_in_place(xs):
  for i in range(len(xs) - 1):
    xs[i] = xs[i + 1]
  return xs


def prefix(xs):
  for i in range(1, len(xs)):
    xs[i] = xs[i] + xs[i - 1]
  return xs


def count(xs):
  n = 0
  for x in xs:
    n += 1
  return n


def count_some(xs):
  n = 0
  for x in xs:
    if x > 0:
      n += 1
  return n


def total(xs):
  s = 0.0
  for x in xs:
    s += x
  return s


def total_np(xs):
  return np.sum(np.array(xs))


def last(xs):
  r = 0.0
  for x in xs:
    r = x
  return r


def find(xs, y):
  for i in range(len(xs)):
    if xs[i] == y:
      return i
  return -1


def all_positive(xs):
  for x in xs:
    assert x > 0
  return True


def early(xs):
  out = []
  for x in xs:
    if x < 0:
      break
    out.append(x)
  return out


def else_clause(xs):
  for x in xs:
    if x < 0:
      break
  else:
    return 1
  return 0


def boxes(xs):
  return [Box(x) for x in xs]


def mutate(bs):
  for b in bs:
    b.v = b.v + 1


def mutate_array(bs):
  for b in bs:
    b.a[0] = 5


def same_object(n):
  b = Box(0)
  out = []
  for i in range(n):
    out.append(b)
  return out


def shared_then_changed(bs):
  out = []
  for b in bs:
    out.append(b)
  for b in out:
    b.v = 7
  return out


def alias_copy(bs):
  out = bs[:]
  for b in out:
    b.v = 7
  return out


def deep(bs):
  out = copy.deepcopy(bs)
  for b in out:
    b.v = 7
  return out


def rotate(xs, k):
  return xs[k:] + xs[:k]


def rows(xs):
  m = np.zeros((2 * len(xs), 3))
  for i in range(len(xs)):
    m[2 * i:2 * i + 2, :] = np.array([[xs[i], 0.0, 1.0], [0.0, xs[i], 2.0]])
  return m


def append_rows(xs):
  m = np.array([[xs[0], 0.0]])
  for i in range(1, len(xs)):
    m = np.append(m, np.array([[xs[i], 1.0]]), axis=0)
  return m


def attr_counter(b, xs):
  for x in xs:
    b.v = b.v + 2
  return b


def cell_counter(xs):
  a = np.zeros(2)
  for x in xs:
    a[0] += 1
    a[1] += x
  return a


def fib(n):
  a, b = 0, 1
  for i in range(n):
    a, b = b, a + b
  return a


def clamp(xs):
  m = 0.0
  for x in xs:
    m = max(m, x)
  return m


def flip(bs):
  for i in range(len(bs)):
    if bs[i].v < 0:
      bs[i].v = -bs[i].v
  return bs


def two_passes(xs):
  out = []
  for x in xs:
    out.append(Box(x))
  for b in out:
    b.v = b.v * 3
  res = []
  for b in out:
    res.append(b.v)
  return res


def store_twice(xs):
  a, b = [], []
  for x in xs:
    o = Box(x)
    a.append(o)
    b.append(o)
  return a, b


def loop_variable_after(xs):
  i = -5
  for i in range(len(xs)):
    pass
  return i


def drop(xs):
  n = 0
  while xs[n] > 0:
    n = n + 1
  return n


def pops(xs):
  while len(xs) > 2:
    xs.pop()
  return xs


def read_back(xs):
  out = [0] * len(xs)
  for i in range(len(xs)):
    out[i] = xs[i]
    out[i] = out[i] + 1
  return out


def nested(xs, n):
  out = []
  for x in xs:
    row = []
    for j in range(n):
      row.append(x + j)
    out.append(row)
  return out


def two_writes(xs):
  out = [0] * (2 * len(xs))
  for i in range(len(xs)):
    out[2 * i] = xs[i]
    out[2 * i + 1] = -xs[i]
  return out


def overlapping(xs):
  out = [0] * (len(xs) + 1)
  for i in range(len(xs)):
    out[i] = xs[i]
    out[i + 1] = -xs[i]
  return out


def constant_slot(xs):
  out = [0, 0]
  for x in xs:
    out[0] = x
  return out


def zipped(xs, ys):
  return [x - y for x, y in zip(xs, ys)]


def enumerated(xs):
  out = []
  for i, x in enumerate(xs):
    out.append(x + i)
  return out


def carried_object(xs):
  b = Box(0)
  for x in xs:
    b = Box(b.v + x)
  return b


def carried_none(xs):
  best = None
  for x in xs:
    if best is None or x > 3:
      best = x
  return best


def view(rows_):
  for r in rows_:
    r[0] = 9
  return rows_


def grow_iterated(xs):
  for x in xs:
    xs.append(x)
  return xs


def late_change(xs):
  n, m = 0, 0
  for x in xs:
    if m > 3:
      n += 2
    else:
      n += 1
    m += 1
  return n


def late_flag(xs):
  flag = False
  out = []
  for x in xs:
    if flag:
      out.append(x)
    if x > 2:
      flag = True
  return out
