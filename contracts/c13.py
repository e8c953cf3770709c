"""C13: calibration search reports a consistent and undominated best candidate."""
import itertools
import random

from contracts import lemma
from contracts import spec as S
from contracts.c05 import comps
from contracts.c08 import H, hec
from contracts.c10 import consistent, pairs

R = H + 'compute_hand_eye_calibration_RANSAC'
B = H + 'compute_hand_eye_calibration_BASELINE'


def noisy(c, n):
  """Consistent paths of n poses, with noise and a few outliers."""
  np = c.np
  D = c.mod('dual_quaternion').DualQuaternion
  hand, eye, x = consistent(c, n)
  sigma = c.choose('sigma', [1e-3, 1e-4, 3e-3])
  for i in range(1, n):
    q = eye[i].to_pose() + sigma * np.array([c.rng.gauss(0, 1) for _ in range(7)])
    eye[i] = D.from_pose_vector(q)
    if c.rng.random() < 0.15:
      eye[i] = D.from_vector(c.floats(c.dq8('o%d' % i)))
    if c.rng.random() < 0.2:
      eye[i].dq = -eye[i].dq
    if c.rng.random() < 0.2:
      hand[i].dq = -hand[i].dq
  return hand, eye, x


def settings(c, m, n):
  config = m.HandEyeConfig()
  config.min_num_inliers = c.choose('min', [2, 3, max(2, n - 2)])
  config.prefilter_poses_enabled = c.boolean('prefilter')
  config.prefilter_dot_product_threshold = c.choose('dot', [0.95, 0.975, 0.8])
  config.ransac_inlier_classification = c.choose('inliers', ['rmse_threshold', 'scalar_part_equality'])
  config.ransac_sample_size = c.choose('size', [2, 3]) \
      if config.ransac_inlier_classification == 'rmse_threshold' else c.choose('size', [1, 2])
  config.ransac_position_error_threshold_m = c.choose('tp', [0.02, 0.2])
  config.ransac_orientation_error_threshold_deg = c.choose('to', [1.0, 5.0])
  config.ransac_model_refinement = c.boolean('refine')
  config.ransac_evaluate_refined_model_on_inliers_only = c.boolean('on_inliers')
  config.ransac_enable_early_abort = c.boolean('abort')
  config.ransac_max_number_iterations = c.choose('iterations', [1, 3, 20])
  return config


def candidate(c, m, hand, eye, fh, fe, sample, config):
  """The candidate the search obtains from a sample of pose indices, or None if it is rejected."""
  np = c.np
  align, size = m.align_paths_at_index, config.ransac_sample_size
  tol = config.ransac_sample_rejection_scalar_part_equality_tolerance
  close = lambda p, q: bool(np.allclose(p.scalar().dq, q.scalar().dq, atol=tol))
  solve = lambda p, q: m.compute_hand_eye_calibration(
      p, q, config.hand_eye_calibration_scalar_part_equality_tolerance)
  ah = ae = None
  if size > 1:
    ah, ae = align([fh[i] for i in sample]), align([fe[i] for i in sample])
    if not all(close(q, p) for p, q in zip(ah, ae)):
      return None
  bh, be = align(hand, sample[0]), align(eye, sample[0])
  flags = [close(q, p) for p, q in zip(bh, be)]
  initial = None
  if config.ransac_inlier_classification == 'rmse_threshold':
    try:
      initial = solve(ah, ae)
    except Exception:
      return None
    initial[0].normalize()
    pa, pb = m.get_aligned_poses(bh, be, initial[0])
    inl = m.evaluate_alignment(pa, pb, config)[2]
    if any(f and not g for f, g in zip(inl, flags)):
      return None
    flags = inl
  ih = [p for p, f in zip(bh, flags) if f]
  ie = [p for p, f in zip(be, flags) if f]
  if len(ih) < config.min_num_inliers:
    return None
  model = initial
  if config.ransac_model_refinement or initial is None:
    try:
      model = solve(ih, ie)
    except Exception:
      return None
    model[0].normalize()
  if config.ransac_evaluate_refined_model_on_inliers_only:
    pa, pb = m.get_aligned_poses(ih, ie, model[0])
  else:
    pa, pb = m.get_aligned_poses(bh, be, model[0])
  rp, ro, _ = m.evaluate_alignment(pa, pb, config)
  return dict(dq=comps(model[0]), rp=rp, ro=ro, n=len(ih), sv=list(model[1]), bad=bool(model[2]))


def candidates(c, m, hand, eye, config, samples):
  cp = lambda v: [d.copy() for d in v]
  fh, fe = cp(hand), cp(eye)
  if config.prefilter_poses_enabled:
    fh, fe = m.prefilter_using_screw_axis(cp(hand), cp(eye), config.prefilter_dot_product_threshold)
  out = []
  for s in samples(len(fh)):
    r = candidate(c, m, cp(hand), cp(eye), cp(fh), cp(fe), list(s), config)
    if r is not None:
      out.append(r)
  return out, len(fh)


def same(c, r, e):
  return (c._diff(comps(r[1]), e['dq'], 1e-7, 1.0, '') is None and c.close(r[2][0], e['rp'], 1e-7)
          and c.close(r[2][1], e['ro'], 1e-6) and r[3] == e['n']
          and c._diff(list(r[6]), e['sv'], 1e-7, 1.0, '') is None and bool(r[7]) == e['bad'])


def judge(c, r, cands, kept, config):
  c.eq('number of poses after filtering', r[4], kept)
  if not r[0]:
    c.check('no transform is returned with a failure', r[1] is None)
    return
  c.check('a transform is returned', r[1] is not None)
  c.check('not below the minimum number of inliers', r[3] >= config.min_num_inliers)
  c.check('the report is one of the candidates of the input', any(same(c, r, e) for e in cands))


def searched(c, m, hand, eye, config):
  """Runs the search on copies; the inputs must stay as they are."""
  s = c.snap(hand, eye)
  ok, r = c.attempt(lambda: m.compute_hand_eye_calibration_RANSAC(hand, eye, config))
  c.unchanged('the input poses are not changed', s, hand, eye)
  return ok, r


def enough(c, m, hand, eye, config):
  if config.prefilter_poses_enabled:
    ok, f = c.attempt(lambda: m.prefilter_using_screw_axis(
        hand, eye, config.prefilter_dot_product_threshold))
    c.assume(ok and len(f[0]) >= config.ransac_sample_size)


@lemma('C13', [R], cases=25, weight=3, budget=300,
       bounded='exhaustive search over 4..6 sampled pose pairs, all settings')
def exhaustive(c):
  """The exhaustive search reports an undominated candidate among all combinations."""
  if c.symbolic:
    return search_any(c, True)
  m = hec(c)
  n = c.integer('n', 4, 6)
  hand, eye, x = noisy(c, n)
  config = settings(c, m, n)
  config.enable_exhaustive_search = True
  enough(c, m, hand, eye, config)
  cands, kept = candidates(c, m, hand, eye, config,
                           lambda k: itertools.combinations(range(k), config.ransac_sample_size))
  ok, r = searched(c, m, hand, eye, config)
  c.check('the search returns', ok)
  c.check('success exactly if there is a candidate', bool(r[0]) == bool(cands))
  judge(c, r, cands, kept, config)
  for e in cands:
    c.check('no candidate is better in both errors',
            not (e['rp'] < r[2][0] - 1e-9 and e['ro'] < r[2][1] - 1e-9))


class Recorder(object):
  """Records the samples drawn by random.sample."""

  def __init__(self):
    self.log = []
    self.orig = random.sample

  def __enter__(self):
    def sample(population, k, **kw):
      r = self.orig(population, k, **kw)
      self.log.append(list(r))
      return r
    random.sample = sample
    return self.log

  def __exit__(self, *a):
    random.sample = self.orig
    return False


@lemma('C13', [R], cases=25, weight=3, budget=300,
       bounded='random search over 4..6 sampled pose pairs, all settings')
def random_search(c):
  """The random search reports a candidate of the input; none that it examined is better."""
  if c.symbolic:
    return search_any(c, False)
  m = hec(c)
  n = c.integer('n', 4, 6)
  hand, eye, x = noisy(c, n)
  config = settings(c, m, n)
  config.enable_exhaustive_search = False
  enough(c, m, hand, eye, config)
  ordered = lambda k: itertools.permutations(range(k), config.ransac_sample_size)
  cands, kept = candidates(c, m, hand, eye, config, ordered)
  c.assume(cands)           # otherwise the search does not terminate (see DESIGN.md)
  random.seed(c.integer('seed', 0, 10 ** 6))
  with Recorder() as log:
    ok, r = searched(c, m, hand, eye, config)
  c.check('the search returns', ok)
  c.check('success', bool(r[0]))
  judge(c, r, cands, kept, config)
  if log:
    seen, _ = candidates(c, m, hand, eye, config, lambda k: log)
    c.check('at most the configured number of full iterations',
            len(seen) <= config.ransac_max_number_iterations)
    for e in seen:
      c.check('no examined candidate is better in both errors',
              not (e['rp'] < r[2][0] - 1e-9 and e['ro'] < r[2][1] - 1e-9))


@lemma('C13', [B], cases=60, weight=2, budget=300,
       bounded='baseline over 4..7 sampled pose pairs, all settings')
def baseline(c):
  """The baseline reports the solution of its inlier set together with its own errors and counts."""
  if c.symbolic:
    return baseline_any(c)
  m = hec(c)
  np = c.np
  n = c.integer('n', 4, 7)
  hand, eye, x = noisy(c, n)
  config = settings(c, m, n)
  config.use_baseline_approach = True
  config.enable_exhaustive_search = c.boolean('exhaustive')
  cp = lambda v: [d.copy() for d in v]
  want_eye = [(-1 if e.dq[3] * h.dq[3] < 0 else 1) * e for e, h in zip(eye, hand)]
  c.assume(all(abs(d.dq[3]) > 1e-9 for d in hand + eye))
  s = c.snap(hand)
  fh, fe = cp(hand), cp(want_eye)
  if config.prefilter_poses_enabled:
    ok, f = c.attempt(lambda: m.prefilter_using_screw_axis(cp(hand), cp(want_eye),
                                                           config.prefilter_dot_product_threshold))
    if not ok:
      c.raises('prefilter fails', lambda: m.compute_hand_eye_calibration_BASELINE(hand, eye, config))
      return
    fh, fe = f
  sets = []
  for j in range(len(fh)):
    ah, ae = m.align_paths_at_index(fh, j), m.align_paths_at_index(fe, j)
    sets.append([i for i in range(len(fh)) if np.allclose(ae[i].scalar().dq, ah[i].scalar().dq, atol=1e-2)])
  sizes = [len(k) for k in sets]
  if config.enable_exhaustive_search:
    start = sizes.index(max(sizes)) if max(sizes) >= config.min_num_inliers else None
  else:
    good = [j for j, k in enumerate(sizes) if k > config.min_num_inliers]
    start = good[0] if good else None
  ok, r = c.attempt(lambda: m.compute_hand_eye_calibration_BASELINE(hand, eye, config))
  c.unchanged('the hand poses are not changed', s, hand)
  c.eq('the eye poses change only their sign', [comps(e) for e in eye], [comps(e) for e in want_eye])
  if start is None:
    c.check('without enough inliers no success is reported', not ok or not r[0])
    return
  c.check('the search returns', ok)
  c.eq('number of poses after filtering', r[4], len(fh))
  ah, ae = m.align_paths_at_index(fh, start), m.align_paths_at_index(fe, start)
  ih, ie = [ah[i] for i in sets[start]], [ae[i] for i in sets[start]]
  ok, sol = c.attempt(lambda: m.compute_hand_eye_calibration(
      ih, ie, config.hand_eye_calibration_scalar_part_equality_tolerance))
  c.check('success exactly if the solver succeeds', bool(r[0]) == ok)
  if not ok:
    c.check('no transform is returned with a failure', r[1] is None)
    return
  sol[0].normalize()
  if config.ransac_evaluate_refined_model_on_inliers_only:
    pa, pb = m.get_aligned_poses(ih, ie, sol[0])
  else:
    pa, pb = m.get_aligned_poses(m.align_paths_at_index(cp(hand), start),
                                 m.align_paths_at_index(cp(want_eye), start), sol[0])
  rp, ro, _ = m.evaluate_alignment(pa, pb, config)
  c.check('transform, errors, inliers and singular values belong together',
          same(c, r, dict(dq=comps(sol[0]), rp=rp, ro=ro, n=len(ih), sv=list(sol[1]), bad=bool(sol[2]))))


class Best(object):
  """Invariant of the search loop: there is no candidate yet, or the best variables hold one
  candidate that an iteration found; no candidate found so far is better in both errors.

  An iteration that finds the candidate e keeps the best variables, and e is then not better in
  both errors, or replaces all of them by e, and both errors do not grow.  So a candidate that is
  not better than the best one in both errors stays so."""
  names = ('best_estimated_dq_H_E', 'best_rmse_position', 'best_rmse_orientation', 'best_num_inliers',
           'best_singular_values', 'best_singular_value_status')
  counts = ('sample_number', 'full_iterations', 'prerejected_samples')

  def __init__(self, c, config, log):
    self.c, self.config, self.log = c, config, log
    self.found = None

  def start(self, env):
    c = self.c
    c.check('no candidate before the search', env[self.names[0]] is None)
    c.check('no errors before the search', env[self.names[1]] == c.np.inf and env[self.names[2]] == c.np.inf)
    c.eq('no sample before the search', env['sample_number'], 0)
    c.eq('no iteration before the search', env['full_iterations'], 0)

  def arbitrary(self, old):
    c = self.c
    state = dict(old)
    for k in old:
      if k in self.counts:
        state[k] = c.fresh_integer(k, 0)
      elif k == 'best_inlier_idx_set':
        state[k] = [c.fresh_integer('best', 0)]
      elif k not in self.names:
        c.unsupported('a variable of the search loop without an invariant: %s' % k)
    if self.config.enable_exhaustive_search:
      c.assume(state['sample_number'] <= c.len(c.combinations()[0]))
    else:
      c.assume(state['full_iterations'] <= self.config.ransac_max_number_iterations)
    if c.either('found'):
      D = c.mod('dual_quaternion').DualQuaternion
      self.found = dict(zip(self.names, [
          D.from_vector(c.floats(c.fresh_motion('best'))), c.fresh_real('rp', 0), c.fresh_real('ro', 0),
          c.fresh_integer('n', 0), c.floats([c.fresh_real('s', 0) for _ in range(8)]), c.fresh_bool('bad')]))
      c.assume(self.found['best_num_inliers'] >= self.config.min_num_inliers)
      state.update(self.found)
    del self.log[:]
    return state

  def step(self, before, env, leaves):
    c, config = self.c, self.config
    old, new = [[d[k] for k in self.names] for d in (before, env)]
    if config.enable_exhaustive_search:
      c.eq('the next combination', env['sample_number'], before['sample_number'] + 1)
    done = env['full_iterations'] - before['full_iterations']
    e = self.evaluation()
    c.eq('an iteration with a candidate is a full one', done, 0 if e is None else 1)
    if all(x is y or c.same(x, y) for x, y in zip(old, new)):
      if e is not None:
        c.check('a better candidate is not ignored', not_better(c, e['rp'], e['ro'], old[1], old[2]))
      return
    c.check('only a candidate replaces the best one', e is not None)
    dq, rp, ro, n, sv, bad = new
    c.eq('position error of the candidate', rp, e['rp'])
    c.eq('orientation error of the candidate', ro, e['ro'])
    c.check('position error does not grow', old[1] == c.np.inf or rp <= old[1])
    c.check('orientation error does not grow', old[2] == c.np.inf or ro <= old[2])
    c.check('the errors are evaluated for the candidate', e['aligned'] is not None)
    c.eq('the errors are evaluated for this transform', e['aligned']['dq'], comps(dq))
    s = [x for x in self.log if x['what'] == 'solve' and c.same(list(x['sv']), list(sv))]
    c.check('the singular values belong to a solution', len(s) == 1)
    c.eq('the transform is that solution', comps(dq), s[0]['dq'])
    c.check('the flag belongs to that solution', c.iff(bad, s[0]['bad']))
    c.le('not below the minimum number of inliers', config.min_num_inliers, n)
    c.eq('the number of inliers', n, c.kept(self.flags()))
    if config.ransac_evaluate_refined_model_on_inliers_only:
      c.eq('the errors are evaluated on the inliers', c.len(e['aligned']['hand']), n)
    self.found = dict(zip(self.names, new))

  def evaluation(self):
    """The evaluation of the candidate of this iteration, if it got that far."""
    es = [x for x in self.log if x['what'] == 'evaluate']
    if self.config.ransac_inlier_classification == 'rmse_threshold':
      es = es[1:]
    return es[-1] if es else None

  def flags(self):
    """The inlier test of this iteration."""
    c, config = self.c, self.config
    a, b = [x for x in self.log if x['what'] == 'align'][-2:]
    first = [x for x in self.log if x['what'] == 'evaluate'][0]['inliers']
    tol = config.ransac_sample_rejection_scalar_part_equality_tolerance

    def flag(e):
      p, q = [comps(c.at(x['out'], c.position(e))) for x in (a, b)]
      near = lambda x, y: c.and_(x - y <= tol + c.const('1e-5') * abs(y), y - x <= tol + c.const('1e-5') * abs(y))
      close = c.and_(near(q[3], p[3]), near(q[7], p[7]))
      if config.ransac_inlier_classification == 'rmse_threshold':
        return c.and_(c.at(first, c.position(e)), close)
      return close
    return c.seq('flag', c.len(a['out']), flag)


def not_better(c, rp, ro, best_rp, best_ro):
  if best_rp == c.np.inf:
    return False
  return c.or_(rp >= best_rp, ro >= best_ro)


def any_settings(c, m, n):
  config = m.HandEyeConfig()
  config.min_num_inliers = c.integer('min', 1)
  config.prefilter_poses_enabled = c.boolean('prefilter')
  config.ransac_sample_size = c.integer('size', 1)
  config.ransac_evaluate_refined_model_on_inliers_only = c.boolean('on_inliers')
  return config


class Parts(object):
  """The functions the searches are made of, as arbitrary functions, and a log of their calls."""

  def __init__(self, c, config):
    self.c, self.config, self.log = c, config, []
    self.D = c.mod('dual_quaternion').DualQuaternion
    self.left = None

  def motions(self, k, size):
    return self.c.fresh_seq(k, size, lambda e: self.D.from_vector(self.c.floats(e.dq8('p'))))

  def calls(self, what):
    return [x for x in self.log if x['what'] == what]

  def prefilter(self, a, b, threshold=0.95):
    c = self.c
    if c.either('few'):
      raise AssertionError()
    self.left = k = c.fresh_integer('left', 2)
    c.assume(c.and_(k <= c.len(a), k >= self.config.ransac_sample_size))
    return self.motions('fh', k), self.motions('fe', k)

  def align(self, path, align_index=0):
    out = self.motions('aligned', self.c.len(path))
    self.log.append(dict(what='align', path=path, out=out))
    return out

  def solve(self, a, b, *tol, **kw):
    c = self.c
    if c.either('fails'):
      raise AssertionError()
    dq, sv, bad = c.fresh_motion('dq'), c.floats([c.fresh_real('s', 0) for _ in range(8)]), c.fresh_bool('bad')
    self.log.append(dict(what='solve', hand=a, eye=b, dq=dq, sv=sv.copy(), bad=bad))
    return self.D.from_vector(c.floats(dq)), sv, bad

  def aligned_poses(self, a, b, dq):
    c = self.c
    out = [c.fresh_seq('poses', c.len(a), lambda e: c.floats(e.reals('p', 7))) for _ in range(2)]
    self.log.append(dict(what='aligned', dq=list(comps(dq)), hand=a, eye=b, out=out))
    return tuple(out)

  def evaluate(self, a, b, config, visualize=False):
    c = self.c
    src = [x for x in self.calls('aligned') if x['out'][0] is a and x['out'][1] is b]
    inliers = c.fresh_seq('inlier', c.len(a), lambda e: e.boolean('f'))
    rp, ro = c.fresh_real('rp', 0), c.fresh_real('ro', 0)
    self.log.append(dict(what='evaluate', rp=rp, ro=ro, aligned=src[0] if src else None, inliers=c.copy(inliers)))
    return rp, ro, inliers

  def run(self, m, fid, contract, fn):
    """The result, or the end of this path if the search is rejected by an assertion."""
    c = self.c
    with c.stubs(m, optional=True, prefilter_using_screw_axis=self.prefilter, align_paths_at_index=self.align,
                 compute_hand_eye_calibration=self.solve, get_aligned_poses=self.aligned_poses,
                 evaluate_alignment=self.evaluate), c.loop_contract(fid, contract):
      ok, r = c.attempt(fn)
    if not ok:
      if not isinstance(r, AssertionError):
        raise r
      c.stop()
    return r


def search_any(c, exhaustive):
  m = hec(c)
  D = c.mod('dual_quaternion').DualQuaternion
  n = c.length('poses', 2)
  hand, eye = [c.seq(k, n, lambda e: D.from_vector(c.floats(e.dq8('p')))) for k in ('hand', 'eye')]
  config = any_settings(c, m, n)
  config.ransac_inlier_classification = c.choose('inliers', ['rmse_threshold', 'scalar_part_equality'])
  config.ransac_model_refinement = c.boolean('refine')
  config.ransac_enable_early_abort = c.boolean('abort')
  config.ransac_max_number_iterations = c.integer('iterations', 0)
  config.enable_exhaustive_search = exhaustive
  if config.ransac_inlier_classification == 'rmse_threshold':
    c.assume(config.ransac_sample_size >= 2)
  parts = Parts(c, config)
  best = Best(c, config, parts.log)
  s = c.snap(hand, eye)
  r = parts.run(m, R, best, lambda: m.compute_hand_eye_calibration_RANSAC(hand, eye, config))
  c.unchanged('the input poses are not changed', s, hand, eye)
  success, dq, errors, inliers, left, _, sv, bad = r
  c.eq('number of poses after filtering', left, n if parts.left is None else parts.left)
  if best.found is None:
    c.check('no success without a candidate', not success)
    c.check('no transform is returned with a failure', dq is None)
    return
  c.check('success with a candidate', success)
  f = [best.found[k] for k in Best.names]
  c.eq('the transform of the best candidate', comps(dq), comps(f[0]))
  c.eq('the errors of the best candidate', list(errors), [f[1], f[2]])
  c.eq('the inliers of the best candidate', inliers, f[3])
  c.eq('the singular values of the best candidate', list(sv), list(f[4]))
  c.check('the flag of the best candidate', c.iff(bad, f[5]))


class Inliers(object):
  """Invariant of the baseline loop: no start index yet, or the best variables hold the inliers
  of one start index, at least the minimum number of them.  The search for the first set goes on
  only if there is another start index."""
  names = ('best_idx', 'best_num_inliers')
  lists = ('best_dq_W_E_vec_inlier', 'best_dq_B_H_vec_inlier')

  def __init__(self, c, config, parts):
    self.c, self.config, self.parts = c, config, parts

  def start(self, env):
    self.c.eq('no start index before the search', env['best_idx'], -1)

  def arbitrary(self, old):
    c = self.c
    if not set(old) <= set(self.names + self.lists):
      c.unsupported('a variable of the baseline loop without an invariant')
    state = dict(old)
    if self.config.enable_exhaustive_search and c.either('found'):
      k = c.fresh_integer('inliers', self.config.min_num_inliers)
      state['best_num_inliers'] = k
      state['best_idx'] = self.idx = c.fresh_integer('best', 0)
      for x in self.lists:
        state[x] = self.parts.motions('best', k)
    return state

  def counter(self, k, n):
    self.k, self.n = k, n
    if not self.config.enable_exhaustive_search:
      self.c.assume(self.c.or_(k == 0, k < n))
    elif hasattr(self, 'idx'):
      self.c.assume(self.idx < k)

  def step(self, before, env, leaves):
    c = self.c
    if not self.config.enable_exhaustive_search:
      if not leaves:
        c.check('another start index', self.k + 1 < self.n)
        c.check('no start index is chosen', c.same(env['best_idx'], before['best_idx']))
      return
    c.check('every start index is examined', not leaves)
    if all(c.same(before[x], env[x]) for x in self.names):
      for x in self.lists:
        c.check('the inliers belong to the start index', env[x] is before[x])
      return
    c.eq('the start index', env['best_idx'], self.k)
    for x in self.lists:
      c.eq('the number of inliers', c.len(env[x]), env['best_num_inliers'])
    c.le('not below the minimum number of inliers', self.config.min_num_inliers, env['best_num_inliers'])


def baseline_any(c):
  m = hec(c)
  n = c.length('n', 2)
  hand, eye, flipped = pairs(c, n, False)
  config = any_settings(c, m, n)
  config.enable_exhaustive_search = c.boolean('exhaustive')
  config.use_baseline_approach = True
  parts = Parts(c, config)
  s = c.snap(hand)
  r = parts.run(m, B, Inliers(c, config, parts), lambda: m.compute_hand_eye_calibration_BASELINE(hand, eye, config))
  c.unchanged('the hand poses are not changed', s, hand)
  for i in c.each('i', n):
    c.eq('the eye poses change only their sign', comps(c.at(eye, i)), comps(c.at(flipped, i)))
  success, dq, errors, inliers, left, _, sv, bad = r
  c.eq('number of poses after filtering', left, n if parts.left is None else parts.left)
  solved = parts.calls('solve')
  if not solved:
    c.check('no success without a solution', not success)
    c.check('no transform is returned with a failure', dq is None)
    return
  c.check('success with a solution', success)
  c.check('one solution', len(solved) == 1)
  x, e = solved[0], parts.calls('evaluate')[-1]
  c.eq('the transform is the solution', comps(dq), x['dq'])
  c.eq('the singular values belong to the solution', list(sv), list(x['sv']))
  c.check('the flag belongs to the solution', c.iff(bad, x['bad']))
  c.eq('the number of inliers', inliers, c.len(x['hand']))
  c.eq('the number of inliers', inliers, c.len(x['eye']))
  c.le('not below the minimum number of inliers', config.min_num_inliers, inliers)
  c.eq('errors', list(errors), [e['rp'], e['ro']])
  c.check('the errors are evaluated for the solution', e['aligned'] is not None)
  c.eq('the errors are evaluated for this transform', e['aligned']['dq'], comps(dq))
