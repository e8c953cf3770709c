"""C19: named algorithm configurations and result records mean what they say."""
from contracts import lemma

A = 'hand_eye_calibration_experiments.all_algorithm_configs'
R = 'hand_eye_calibration_experiments.experiment_results'

EXPECTED = []
for f in (True, False):
  for o in (True, False):
    for fam in ('baseline', 'RC', 'RS'):
      EXPECTED.append('%s_%s_%s' % (fam, 'filter' if f else 'no_filter', 'opt' if o else 'no_opt'))
for o in (True, False):
  for fam in ('EC', 'ES'):
    EXPECTED.append('%s_%s' % (fam, 'opt' if o else 'no_opt'))


def says(c, name, tc, hc, oc):
  """The parts of the name agree with the settings."""
  parts = name.split('_')
  fam = parts[0]
  opt = 'no' not in parts[-2:-1]
  c.check('optimisation', bool(oc.enable_optimization) == opt and parts[-1] == 'opt')
  c.check('not optimisation only', not oc.optimization_only)
  mid = parts[1:-1] if opt else parts[1:-2]
  if fam in ('EC', 'ES'):
    c.check('exhaustive search is filtered', mid == [] and hc.prefilter_poses_enabled is True)
  else:
    c.check('prefiltering', (mid == ['filter']) == bool(hc.prefilter_poses_enabled) and
            mid in (['filter'], ['no', 'filter']))
  c.check('family: baseline', bool(hc.use_baseline_approach) == (fam == 'baseline'))
  c.check('search mode', bool(hc.enable_exhaustive_search) == (fam in ('EC', 'ES')))
  if fam in ('RC', 'EC'):
    c.check('sample size 3 for pose inliers', hc.ransac_sample_size == 3)
    c.check('pose inlier test', hc.ransac_inlier_classification == 'rmse_threshold')
  if fam in ('RS', 'ES'):
    c.check('sample size 1 for scalar parts', hc.ransac_sample_size == 1)
    c.check('scalar part test', hc.ransac_inlier_classification == 'scalar_part_equality')
  c.check('the family name is part of the configuration',
          name == hc.algorithm_name + ('_opt' if opt else '_no_opt'))
  c.check('types', type(hc).__name__ == 'HandEyeConfig' and type(tc).__name__ == 'FilteringConfig' and
          type(oc).__name__ == 'OptimizationConfig')


@lemma('C19', [A + ':get_all_configs'], cases=1)
def names(c):
  """The sixteen configurations have the sixteen names, and each name says what the settings are."""
  configs = c.mod(A).get_all_configs()
  c.check('sixteen', len(configs) == 16)
  c.check('unique names', sorted(x[0] for x in configs) == sorted(EXPECTED))
  for name, tc, hc, oc in configs:
    says(c, name, tc, hc, oc)


@lemma('C19', [A + ':get_baseline_and_optimization_config', A + ':get_RC_and_optimization_config',
               A + ':get_RS_and_optimization_config', A + ':get_EC_and_optimization_config',
               A + ':get_ES_and_optimization_config'], cases=20)
def factories(c):
  """Each factory gives the settings it is asked for."""
  m = c.mod(A)
  f, o = c.boolean('f'), c.boolean('o')
  for fam, fn in (('baseline', m.get_baseline_and_optimization_config),
                  ('RC', m.get_RC_and_optimization_config), ('RS', m.get_RS_and_optimization_config)):
    name, tc, hc, oc = fn(f, o)
    c.check('name', name == '%s_%s_%s' % (fam, 'filter' if f else 'no_filter', 'opt' if o else 'no_opt'))
    says(c, name, tc, hc, oc)
  for fam, fn in (('EC', m.get_EC_and_optimization_config), ('ES', m.get_ES_and_optimization_config)):
    name, tc, hc, oc = fn(o)
    c.check('name', name == '%s_%s' % (fam, 'opt' if o else 'no_opt'))
    says(c, name, tc, hc, oc)
  name, tc, hc, oc = m.get_optimization_with_spoiled_initial_calibration_config()
  c.check('optimisation only', oc.enable_optimization is True and oc.optimization_only is True)


@lemma('C19', [A + ':get_all_configs'], cases=1)
def separate(c):
  """Configurations share no mutable state, neither in one list nor between calls."""
  m = c.mod(A)
  configs = m.get_all_configs() + m.get_all_configs()
  parts = [p for x in configs for p in x[1:]]
  for i, p in enumerate(parts):
    for q in parts[i + 1:]:
      c.check('separate objects', p is not q)
  values = [dict(p.__dict__) for p in parts]
  hc = parts[1]
  for key in sorted(hc.__dict__):
    setattr(hc, key, 'changed')
  for k, (p, v) in enumerate(zip(parts, values)):
    if k != 1:
      c.check('not affected by a change of another', dict(p.__dict__) == v)
  again = m.get_all_configs()
  for x, y in zip(again, configs[16:]):
    c.check('not affected by a change of an earlier result', x[2].__dict__ == y[2].__dict__)


LISTS = ['dataset_names', 'success', 'rmse', 'num_inliers', 'num_initial_poses', 'num_poses_kept', 'runtimes',
         'singular_values', 'bad_singular_value', 'optimization_success', 'optimization_runtime',
         'spoiled_initial_guess_angle_offset', 'spoiled_initial_guess_translation_offset',
         'spoiled_initial_guess_time_offset']


@lemma('C19', [R + ':ResultEntry.check_length'], cases=60)
def lengths(c):
  """The length check accepts exactly the records whose per-pair lists all have the given length."""
  m = c.mod(R)
  n = c.choose('n', [0, 1, 2, 3])
  e = m.ResultEntry()
  for l in LISTS:
    setattr(e, l, [None] * n)
  e.check_length(n)
  k = c.choose('list', list(range(len(LISTS))))
  d = c.choose('d', [1, -1, 2])
  c.assume(n + d >= 0)
  setattr(e, LISTS[k], [None] * (n + d))
  c.raises('a list of another length', lambda: e.check_length(n))
  for l in LISTS:
    setattr(e, l, [None] * n)
  c.raises('another length', lambda: e.check_length(n + d))


@lemma('C19', [R + ':ResultEntry.__init__', R + ':ResultEntry.init_from_configs'], cases=30)
def from_configs(c):
  """Name, iteration and flags are taken from the configurations; records share no lists."""
  m = c.mod(R)
  a = c.mod(A)
  f, o = c.boolean('f'), c.boolean('o')
  name, tc, hc, oc = a.get_RC_and_optimization_config(f, o)
  e, other = m.ResultEntry(), m.ResultEntry()
  it = c.choose('iteration', [0, 1, 7])
  e.init_from_configs('some name', it, tc, hc, oc)
  c.check('name', e.algorithm_name == 'some name')
  c.check('iteration', e.iteration_num == it)
  c.check('prefiltering', e.prefiltering_enabled == f)
  c.check('optimisation', e.optimization_enabled == o)
  for l in LISTS:
    c.check('starts empty', list(getattr(e, l)) == [])
    getattr(e, l).append(1)
    c.check('own list', list(getattr(other, l)) == [])
    for k in LISTS:
      if k > l:
        c.check('separate lists', getattr(e, k) is not getattr(e, l))


COLUMNS = ['algorithm_name', 'num_pose_pairs', 'iteration_num', 'prefiltering', 'poses_B_H_csv_file',
           'poses_W_E_csv_file', 'success', 'position_rmse', 'orientation_rmse', 'num_inliers',
           'num_input_poses', 'num_posesafter_filtering', 'runtime_s', 'loop_error_position_m',
           'loop_error_orientation_deg', 'singular_values', 'bad_singular_values', 'optimization_enabled',
           'optimization_success', 'optimization_runtime_s', 'spoiled_initial_guess_angle_offset',
           'spoiled_initial_guess_translation_offset', 'spoiled_initial_guess_time_offset']


def record(c, m, n):
  """A record of n pairs; symbolically the values are arbitrary and known by their text only."""
  e = m.ResultEntry()
  singles = ['algorithm_name', 'iteration_num', 'prefiltering_enabled', 'optimization_enabled',
             'loop_error_position', 'loop_error_orientation']
  if c.symbolic:
    for k in singles:
      setattr(e, k, c.opaque(k))
    pairs = {'dataset_names': 2, 'rmse': 2}
    for l in LISTS:
      if l in pairs:
        make = lambda x, l=l: (c.opaque(l + '0', x.idx), c.opaque(l + '1', x.idx))
      elif l in ('singular_values', 'spoiled_initial_guess_translation_offset'):
        make = lambda x, l=l: None if c.is_true(x.boolean('none')) else c.opaque(l, x.idx)
      else:
        make = lambda x, l=l: c.opaque(l, x.idx)
      setattr(e, l, c.seq(l, n, make))
    return e
  np = c.np
  num = lambda: c.rng.randint(0, 10 ** 6)
  e.algorithm_name, e.iteration_num = 'name%d' % num(), num()
  e.prefiltering_enabled, e.optimization_enabled = c.boolean('f'), c.boolean('o')
  e.loop_error_position, e.loop_error_orientation = c.rng.random(), c.rng.random()
  for l in LISTS:
    setattr(e, l, [num() for _ in range(n)])
  e.success = [c.rng.random() < 0.5 for _ in range(n)]
  e.bad_singular_value = [c.rng.choice([True, False, None]) for _ in range(n)]
  e.dataset_names = [('a%d.csv' % num(), 'b%d.csv' % num()) for _ in range(n)]
  e.rmse = [(c.rng.random(), c.rng.random()) for _ in range(n)]
  e.singular_values = [None if c.rng.random() < 0.2 else np.array([float(c.rng.random()) for _ in range(8)])
                       for _ in range(n)]
  e.spoiled_initial_guess_translation_offset = [
      None if c.rng.random() < 0.2 else np.array([float(c.rng.random()) for _ in range(3)]) for _ in range(n)]
  return e


@lemma('C19', [R + ':ResultEntry.write_pose_pair_to_csv_line', R + ':ResultEntry.get_header'], cases=80)
def line(c):
  """Each value of the pair appears in the column its header names."""
  m = c.mod(R)
  n = c.length('n', 1, 5)
  e = record(c, m, n)
  s = c.snap(e)
  for i in c.each('i', n):
    head, text = e.get_header(), e.write_pose_pair_to_csv_line(i)
    c.unchanged('the record is not changed', s, e)
    c.check('one line', text.endswith('\n') and text.count('\n') == 1 and head.endswith('\n'))
    cols = head[:-1].split(',')
    vals = text[:-1].split(',')
    c.check('one value per column', len(cols) == len(vals))
    row = dict(zip(cols, vals))
    filt = [k for k in cols if k.startswith('num_poses') and k.endswith('after_filtering')]
    c.check('distinct columns', len(row) == len(cols) and len(filt) == 1)
    sv, tr = e.singular_values[i], e.spoiled_initial_guess_translation_offset[i]
    want = {'algorithm_name': e.algorithm_name, 'iteration_num': e.iteration_num,
            'prefiltering': e.prefiltering_enabled, 'poses_B_H_csv_file': e.dataset_names[i][0],
            'poses_W_E_csv_file': e.dataset_names[i][1], 'success': e.success[i],
            'position_rmse': e.rmse[i][0], 'orientation_rmse': e.rmse[i][1], 'num_inliers': e.num_inliers[i],
            'num_input_poses': e.num_initial_poses[i], filt[0]: e.num_poses_kept[i],
            'runtime_s': e.runtimes[i], 'loop_error_position_m': e.loop_error_position,
            'loop_error_orientation_deg': e.loop_error_orientation,
            'bad_singular_values': e.bad_singular_value[i], 'optimization_enabled': e.optimization_enabled,
            'optimization_success': e.optimization_success[i],
            'optimization_runtime_s': e.optimization_runtime[i],
            'spoiled_initial_guess_angle_offset': e.spoiled_initial_guess_angle_offset[i],
            'spoiled_initial_guess_time_offset': e.spoiled_initial_guess_time_offset[i]}
    for k in sorted(want):
      c.check('column %s' % k, k in row and row[k] == str(want[k]))
    for k, v in (('singular_values', sv), ('spoiled_initial_guess_translation_offset', tr)):
      if v is None:
        c.check('column %s' % k, row[k] in ('', 'None'))
      elif c.symbolic:
        c.check('column %s' % k, row[k] == 'array_str(%s)' % v)
      else:
        got = [float(x) for x in row[k].strip('[]').split()]
        c.check('column %s' % k, len(got) == len(v) and c.np.allclose(got, v, rtol=1e-6, atol=1e-7))
