"""C25: collection of result tables (spec/Aggregate.tla)."""
import os
import random
import tempfile
import warnings

import numpy as np

from checks.util import tla_set
from harness.common import MachineryError, pmap

# What the plots call the algorithms.
SHORT = {'baseline_filter_opt': 'PF_B_O', 'baseline_no_filter_opt': 'B_O', 'baseline_filter_no_opt': 'PF_B', 'baseline_no_filter_no_opt': 'B',
         'EC_no_opt': 'PF_EC', 'EC_opt': 'PF_EC_O', 'ES_no_opt': 'PF_ES', 'ES_opt': 'PF_ES_O', 'RC_filter_no_opt': 'PF_RC', 'RC_no_filter_no_opt': 'RC',
         'RC_filter_opt': 'PF_RC_O', 'RC_no_filter_opt': 'RC_O', 'RS_filter_no_opt': 'PF_RS', 'RS_no_filter_no_opt': 'RS', 'RS_filter_opt': 'PF_RS_O',
         'RS_no_filter_opt': 'RS_O', 'optimization_w_spoiled_init_calibration': 'S_PF_ES_O'}
NAMES = sorted(SHORT)


def entry(row, i, algorithm, rng):
  """The measurements of row i: all different, also between columns."""
  from hand_eye_calibration_experiments.experiment_results import ResultEntry
  e = ResultEntry()
  e.algorithm_name = algorithm
  e.iteration_num = i % 3
  e.prefiltering_enabled = bool(i % 2)
  e.dataset_names = [('hand_%d.csv' % i, 'eye_%d.csv' % i)]
  failed = row['outcome'] == 'failed'
  e.success = [not failed]
  e.num_initial_poses = [100 + i]
  e.num_poses_kept = [50 + i]
  e.optimization_enabled = not algorithm.endswith('no_opt')
  m = dict(position=0.001 * i + rng.uniform(0., 1e-4), orientation=0.3 * i + rng.uniform(0., 1e-2), runtime=7. * i + rng.uniform(0., 1.),
           optimization=0.11 * i if e.optimization_enabled else 0., loop_position=0. if i == 4 else 1.7 * i, loop_orientation=0. if i == 5 else 13. * i)
  if row['outcome'] in ('failed', 'lost'):
    m.update(position=-1, orientation=-1, optimization=0.)
  if not row['loop']:
    m.update(loop_position=-1, loop_orientation=-1)
  e.rmse = [(m['position'], m['orientation'])]
  e.num_inliers = [i]
  e.runtimes = [m['runtime']]
  e.loop_error_position, e.loop_error_orientation = m['loop_position'], m['loop_orientation']
  e.singular_values = [None if failed and i % 2 else np.array([rng.uniform(0., 3.) for _ in range(8)] if i % 3 else [1e-8, 2., 3e5, 1., 1., 1., 0., 0.])]
  e.bad_singular_value = [row['outcome'] == 'bad']
  # Without optimization it counts as successful, whatever became of the calibration.
  e.optimization_success = [not e.optimization_enabled or row['outcome'] not in ('failed', 'lost')]
  e.optimization_runtime = [m['optimization']]
  if row['spoiled']:
    v = np.array([rng.choice((1., -1.)) * rng.choice((1e-5, 0.01, 1., 0., 12.)) * rng.uniform(0.1, 1.) for _ in range(3)])
    m.update(angle=0.01 * i, length=np.linalg.norm(v), time=-0.02 * i)
    e.spoiled_initial_guess_angle_offset, e.spoiled_initial_guess_translation_offset, e.spoiled_initial_guess_time_offset = [m['angle']], [v], [m['time']]
  else:
    e.spoiled_initial_guess_angle_offset, e.spoiled_initial_guess_translation_offset, e.spoiled_initial_guess_time_offset = [None], [None], [None]
  return e, m


def near(got, want, tol=1e-9):
  return len(got) == len(want) and all(abs(float(g) - w) <= tol + 1e-6 * abs(w) for g, w in zip(got, want))


def replay(check, item):
  from hand_eye_calibration_experiments.experiment_plotting_tools import collect_data_from_csv
  from hand_eye_calibration_experiments.experiment_results import ResultEntry
  seed, rec = item
  rng = random.Random(seed)
  optimized = {row['m'] for table in rec['tables'] for row in table if row['outcome'] == 'lost'}
  algorithms = {}
  for a in ('a1', 'a2', 'a3'):
    algorithms[a] = rng.choice([n for n in NAMES if n not in algorithms.values() and not (a in optimized and n.endswith('no_opt'))])
  called = rng.choice(({}, {'d1': 'd', 'd2': 'dd', 'd3': 'D'}, {d: 'robot_arm_and_motion_capture_2016-11-11_' + d for d in ('d1', 'd2', 'd3')},
                       {d: d + '/simulation with noise' for d in ('d1', 'd2', 'd3')}, {'d1': '1', 'd2': '1.0', 'd3': 'nan'}))
  rec = dict(rec, sets=[called.get(s, s) for s in rec['sets']],
             tables=[[dict(row, ds=called.get(row['ds'], row['ds'])) for row in table] for table in rec['tables']])
  work = tempfile.mkdtemp(prefix='c25_', dir=check.scratch)
  names, ms = [], {}
  for k, table in enumerate(rec['tables']):
    names.append(os.path.join(work, 'results_%d.csv' % k))
    with open(names[-1], 'w') as f:
      f.write(ResultEntry().get_header().rstrip('\n') + ',dataset\n')
      for row in table:
        i = len(ms) + 1
        e, ms[i] = entry(row, i, algorithms[row['m']], rng)
        f.write(e.write_pose_pair_to_csv_line(0).rstrip('\n') + ',' + row['ds'] + '\n')
  case = dict(seed=seed, rec=rec, algorithms=algorithms)
  with check.guard('collect', case):
    with warnings.catch_warnings():
      warnings.simplefilter('ignore')
      methods, sets, position, orientation, positions, orientations, runtimes, runtime, spoiled = collect_data_from_csv(names)
    want = [SHORT[algorithms[m]] for m in rec['methods']]
    if [str(m) for m in methods] != want or [str(s) for s in sets] != rec['sets']:
      return check.fail('order of first appearance', dict(case, methods=[str(m) for m in methods], sets=[str(s) for s in sets]))
    total = {i: m['runtime'] + m['optimization'] for i, m in ms.items()}
    pos, ori = {i: m['position'] for i, m in ms.items()}, {i: m['orientation'] for i, m in ms.items()}
    for got, flat, source, what in ((position, positions, pos, 'position errors'), (orientation, orientations, ori, 'orientation errors'),
                                    (runtime, runtimes, total, 'run times')):
      if len(flat) != len(want) or not all(near(f, [source[i] for i in ids]) for f, ids in zip(flat, rec['perMethod'])):
        return check.fail(what + ' per algorithm', dict(case, got=repr(flat)))
      if set(got) != set(rec['sets']):
        return check.fail(what + ' per data set', dict(case, got=repr(got)))
      for s, groups in zip(rec['sets'], rec['perSet']):
        full = dict((m, [source[i] for i in ids]) for m, ids in zip(want, groups))
        if not set(got[s]) <= set(want) or not all(near(got[s].get(m, []), v) for m, v in full.items()):
          return check.fail(what + ' per data set and algorithm', dict(case, got=repr(got)))
    if not near(spoiled[0], [ms[i]['loop_position'] for i in rec['looped']]) or not near(spoiled[1], [ms[i]['loop_orientation'] for i in rec['looped']]):
      return check.fail('loop errors', dict(case, got=repr(spoiled[:2])))
    if any(len(s) != len(rec['looped']) for s in spoiled):
      return check.fail('perturbations of other rows', dict(case, got=repr(spoiled)))
    for k, i in enumerate(rec['looped']):
      if 'angle' in ms[i] and not near([s[k] for s in spoiled[2:]], [ms[i]['angle'], ms[i]['length'], ms[i]['time']], 1e-7):
        return check.fail('perturbations', dict(case, got=repr(spoiled), want=ms[i]))
  for name in names:
    os.unlink(name)
  os.rmdir(work)


def run(check):
  laws = ['OnlyGood', 'Partition', 'FirstAppearance']
  small = check.tlc('Aggregate', dict(Datasets='{"d1", "d2"}', Algorithms='{"a1", "a2"}', MaxRows='2', MaxTables='2'), invariants=laws)
  check.exhaustive = True
  long = check.tlc('Aggregate', dict(Datasets='{"d1", "d2", "d3"}', Algorithms='{"a1", "a2", "a3"}', MaxRows='14', MaxTables='3'),
                   invariants=laws, simulate=4000 if check.thorough else 250, depth=24, workers=4)
  longer = check.tlc('Aggregate', dict(Datasets='{"d1", "d2", "d3"}', Algorithms='{"a1", "a2", "a3"}', MaxRows='130', MaxTables='12'),
                     invariants=laws[:1], simulate=40 if check.thorough else 8, depth=160, workers=4)
  check.log('up to %d rows in %d tables' % (max(sum(map(len, r['tables'])) for r in longer.records), max(len(r['tables']) for r in longer.records)))
  if max(sum(map(len, r['tables'])) for r in longer.records) < 100:
    raise MachineryError('no long tables')
  records = small.records + long.records + longer.records
  if len(long.records) < 50 or not any(len(r['kept']) > len(r['looped']) >= 3 for r in records) or not any(r['tables'] == [[]] for r in records):
    raise MachineryError('too few collections')
  pmap(check, replay, list(enumerate(records, check.seed * 10**6)))
  # Every algorithm of the experiments can be collected.
  from hand_eye_calibration_experiments.all_algorithm_configs import get_all_configs
  for k, config in enumerate(get_all_configs()):
    if config[0] not in SHORT:
      check.fail('an algorithm of the experiments cannot be collected', dict(algorithm=config[0]))
  check.traces += len(records)
  check.sample(records[-1])
  check.assumptions = ['tables are written by ResultEntry with the data set appended as a last column', 'perturbations are compared with the eight digits written']
