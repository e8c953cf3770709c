"""C11: pose prefiltering keeps matched pairs with pairwise distinct screw axes."""
from contracts import lemma
from contracts import spec as S
from contracts.c05 import comps
from contracts.c08 import H, hec


def motion(c, name, axes):
  """A motion about one of a few axes, a pure translation, or the identity."""
  D = c.mod('dual_quaternion').DualQuaternion
  np = c.np
  kind = c.rng.random()
  t = np.array(c.reals(name + '.t', 3))
  if kind < 0.1:
    v = np.array(S.IDENTITY, dtype=float)
  elif kind < 0.25:
    v = np.array([0, 0, 0, 1] + list(t / 2) + [0])
  else:
    k = c.rng.randrange(len(axes))
    n = np.array(axes[k]) + c.rng.choice([0.0, 0.05, 0.3]) * np.array([c.rng.gauss(0, 1) for _ in range(3)])
    n = n / np.linalg.norm(n) * c.rng.choice([1, -1])
    h = c.rng.uniform(0.05, 3.0)
    v = np.array(S.dq_of(list(n * np.sin(h)) + [float(np.cos(h))], list(t)))
  return D.from_vector(c.floats(v * c.rng.choice([1, 1, -1])))


def axis(c, d):
  """Normalised screw axis, None if it vanishes."""
  np = c.np
  w = min(1.0, max(-1.0, d.dq[3]))
  rot = np.mod(2 * np.degrees(np.arccos(w)), 360.0)
  if rot > 1e-12:
    a = d.dq[0:3] / np.sin(rot / 2 * np.pi / 180)
  else:
    a = d.dq[4:7] * 2
    if np.linalg.norm(a) <= 1e-12:
      return None
  if np.linalg.norm(a) <= 1e-12:
    return None
  return a / np.linalg.norm(a)


def kept_indices(c, a, b, threshold):
  """The specification: scan in order, drop zero axes and axes close to a kept one."""
  np = c.np
  ax = [(axis(c, x), axis(c, y)) for x, y in zip(a, b)]
  kept = []
  for i, (u, v) in enumerate(ax):
    if u is None or v is None:
      continue
    close = False
    for k in kept:
      for p, q in ((ax[k][0], u), (ax[k][1], v)):
        s = float(np.inner(p, q))
        c.assume(abs(s - threshold) > 1e-9)
        close = close or s > threshold
    if not close:
      kept.append(i)
  return kept


@lemma('C11', [H + 'prefilter_using_screw_axis'], sym=False, cases=300,
       bounded='0..12 sampled pose pairs with coinciding, opposite and vanishing screw axes')
def prefilter(c):
  """The kept pairs are exactly those with non-zero axes that are distinct from all earlier kept ones."""
  n = c.length('n', 0, 12)
  axes = [c.unit('ax%d' % i, 3) for i in range(c.integer('axes', 1, 5))]
  a = [motion(c, 'a%d' % i, axes) for i in range(n)]
  b = [motion(c, 'b%d' % i, axes) for i in range(n)]
  if c.boolean('same'):
    b = [x.copy() for x in a]
  threshold = c.real('threshold', 0.5, 0.999, edge=(0.95, 0.975, 0.0, -0.5))
  s = c.snap(a, b)
  ids = ([id(x) for x in a], [id(x) for x in b])
  want = kept_indices(c, a, b, threshold)
  f = hec(c).prefilter_using_screw_axis
  if len(want) < 2:
    c.raises('fewer than two remaining pairs', lambda: f(a, b, threshold))
    c.unchanged('the inputs are not changed', s, a, b)
    return
  ra, rb = f(a, b, threshold)
  c.unchanged('the inputs are not changed', s, a, b)
  c.check('same objects in the input lists', ids == ([id(x) for x in a], [id(x) for x in b]))
  c.eq('same length', len(ra), len(rb))
  c.eq('first output', [comps(x) for x in ra], [comps(a[i]) for i in want], tol=0)
  c.eq('second output', [comps(x) for x in rb], [comps(b[i]) for i in want], tol=0)
  c.disjoint('copies', (ra, rb), (a, b))


@lemma('C11', [H + 'prefilter_using_screw_axis'], sym=False, cases=40,
       bounded='default threshold on sampled pairs')
def default_threshold(c):
  """The default threshold is 0.95."""
  axes = [c.unit('ax%d' % i, 3) for i in range(4)]
  a = [motion(c, 'a%d' % i, axes) for i in range(6)]
  b = [x.copy() for x in a]
  want = kept_indices(c, a, b, 0.95)
  c.assume(len(want) >= 2)
  ra, rb = hec(c).prefilter_using_screw_axis(a, b)
  c.eq('kept', [comps(x) for x in ra], [comps(a[i]) for i in want], tol=0)
