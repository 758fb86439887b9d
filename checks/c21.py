"""C21: experiments over sets of poses (spec/Experiment.tla)."""
import contextlib
import gc
import inspect
import io
import itertools
import json
import math
import os
import random
import runpy
import shutil
import sys
import tempfile

import numpy as np

from checks.data import compose, invert, pose_vector, qconj, qmul, random_pose
from checks.util import tla, tla_set
from harness import common
from harness.common import Timeout, pmap

EXPERIMENT = os.path.join(common.REPO, 'hand_eye_calibration_experiments', 'bin', 'compute_set_of_hand_eye_calibrations.py')
SPOILED = os.path.join(common.REPO, 'hand_eye_calibration_experiments', 'bin', 'optimization_experiments.py')
STEP = 0.01
COLUMNS = ('algorithm pair iteration prefiltering hand eye success position orientation inliers initial kept runtime loop_position '
           'loop_orientation singular bad enabled refined refinement_runtime spoiled_angle spoiled_translation spoiled_time').split()

# Stand-in for rosrun: which calibration to refine is told by the initial guess.
ROSRUN = r'''#!/usr/bin/python3 -IS
import json, os, signal, sys
opts, rest = {}, sys.argv[3:]
while rest:
  a = rest.pop(0).lstrip('-')
  k, v = a.split('=', 1) if '=' in a else (a, rest.pop(0))
  opts[k] = v
here = os.path.dirname(os.path.abspath(sys.argv[0]))
guess = json.load(open(opts['init_guess_file']))
with open(os.path.join(here, 'log'), 'a') as f:
  f.write(json.dumps(dict(opts=opts, guess=guess, program=sys.argv[1:3])) + '\n')
plan = json.load(open(os.path.join(here, 'plan')))
p = plan[int(round(guess['translation']['x'])) - 1]
if p['fails']:
  if p['fails'] == 'signal':
    os.kill(os.getpid(), signal.SIGKILL)
  os._exit(int(p['fails']))
json.dump(p['result'], open(opts['output_file'], 'w'))
'''


def as_json(pose, delay):
  v = pose_vector(pose)
  return dict(delay=delay, translation=dict(zip('xyz', v[:3])), rotation=dict(zip('ijkw', v[3:])))


@contextlib.contextmanager
def patched(*changes):
  saved = [(m, n, getattr(m, n)) for m, n, _ in changes]
  try:
    for m, n, v in changes:
      setattr(m, n, v)
    yield
  finally:
    for m, n, v in saved:
      setattr(m, n, v)


def bound(function, handler):
  """A stand-in that is called with the arguments by name."""
  signature = inspect.signature(function)

  def replacement(*args, **kw):
    b = signature.bind(*args, **kw)
    b.apply_defaults()
    return handler(*b.arguments.values())
  return replacement


def execute(program, args, work, bin_dir):
  here, argv, path = os.getcwd(), sys.argv, os.environ['PATH']
  sys.argv = [program] + args
  os.environ['PATH'] = bin_dir + os.pathsep + path
  os.chdir(work)
  try:
    with contextlib.redirect_stdout(io.StringIO()):
      names = runpy.run_path(program, run_name='__main__')
  except SystemExit as e:
    if e.code not in (None, 0):
      raise
  finally:
    sys.argv = argv
    os.environ['PATH'] = path
    os.chdir(here)
    # As at the end of a process. The names are kept until here, as collecting
    # a file may lose what it has not written yet.
    for f in gc.get_objects():
      if isinstance(f, io.TextIOWrapper) and not f.closed and str(f.name).startswith(work):
        f.close()


def chain(poses, sets):
  """Loop through first to second, ..., to last and back to the first."""
  index, k = {}, 0
  for i in range(sets):
    for j in range(i + 1, sets):
      index[(i, j)] = k
      k += 1
  total = (np.zeros(3), np.array([0., 0., 0., 1.]))
  for i in range(sets - 1):
    total = compose(total, poses[index[(i, i + 1)]])
  total = compose(total, invert(poses[index[(0, sets - 1)]]))
  return float(np.linalg.norm(total[0])), math.degrees(2. * math.atan2(np.linalg.norm(total[1][:3]), abs(total[1][3])))


def read_table(path):
  with open(path) as f:
    return [line.rstrip('\n').split(',') for line in f]


def as_named(config):
  """Whether a configuration does what the name of the algorithm says."""
  name = config.algorithm_name
  kind, _, rest = name.partition('_')
  return (bool(config.use_baseline_approach) == (kind == 'baseline') and
          (kind == 'baseline' or bool(config.enable_exhaustive_search) == (kind in ('EC', 'ES'))) and
          (kind == 'baseline' or config.ransac_inlier_classification == ('rmse_threshold' if kind[1] == 'C' else 'scalar_part_equality')) and
          bool(config.prefilter_poses_enabled) == (rest != 'no_filter'))


def replay(check, item):
  seed, algorithms, iterations, runs, r, subset = item
  from hand_eye_calibration import bash_utils, calibration_verification, dual_quaternion_hand_eye_calibration as dq, time_alignment
  from hand_eye_calibration.dual_quaternion import DualQuaternion
  from hand_eye_calibration_experiments import all_algorithm_configs
  from hand_eye_calibration_experiments.experiment_results import ResultEntry
  rng = random.Random(seed)
  sets, outcomes = r['sets'], r['outcomes']
  case = dict(seed=seed, sets=sets, runs=runs, iterations=iterations, outcomes=outcomes,
              algorithms=[a['name'] for a in algorithms])
  work = tempfile.mkdtemp(prefix='c21_', dir=check.scratch)
  try:
    bin_dir = os.path.join(work, 'bin')
    os.mkdir(bin_dir)
    with open(os.path.join(bin_dir, 'rosrun'), 'w') as f:
      f.write(ROSRUN)
    os.chmod(os.path.join(bin_dir, 'rosrun'), 0o755)
    open(os.path.join(bin_dir, 'log'), 'w').close()
    files, sizes = [], []
    for i in range(sets):
      files.append(os.path.join(work, 'set_%d.csv' % i))
      sizes.append(rng.randint(7, 13))
      with open(files[-1], 'w') as f:
        for k in range(sizes[-1]):
          f.write('%.18f, %.18f, 0, 0, 0, 0, 0, 1\n' % (0.125 * k, STEP * (i + 1) * k))
    initial, refined, plan = [], [], []
    for k, o in enumerate(outcomes):
      t, q = random_pose(rng)
      initial.append((np.array([k + 1., t[1], t[2]]), q))
      t, q = random_pose(rng)
      refined.append((np.array([1000. + k + 1, t[1], t[2]]), q))
      plan.append(dict(fails=rng.choice(('1', '255', 'signal')) if o == 'optfail' else '', result=as_json(refined[-1], k + 0.5)))
    with open(os.path.join(bin_dir, 'plan'), 'w') as f:
      json.dump(plan, f)
    singular = [np.array([round(rng.uniform(0.1, 9.), 3) for _ in range(8)]) for _ in outcomes]
    calls, problems = [], []

    def which(vec):
      return int(round((DualQuaternion.to_pose(vec[1])[0] - DualQuaternion.to_pose(vec[0])[0]) / STEP)) - 1

    def calibrate(kind):
      def handler(dq_B_H_vec, dq_W_E_vec, config):
        k = len(calls)
        calls.append(dict(kind=kind, algorithm=config.algorithm_name, prefilter=bool(config.prefilter_poses_enabled), n=len(dq_B_H_vec),
                          hand=which(dq_B_H_vec), eye=which(dq_W_E_vec)))
        if not as_named(config):
          problems.append('calibrates with a configuration that is not what its name says: %s' % config.algorithm_name)
        if k >= len(outcomes):
          raise RuntimeError('more calibrations than specified')
        if outcomes[k] == 'nocal':
          if kind == 'baseline':
            return (False, None, (None, None), None, 200 + k, 0.25 * k, None, None)
          return (False, None, (-1, -1), 0, 200 + k, 0.25 * k, None, None)
        v = pose_vector(initial[k])
        return (True, DualQuaternion.from_pose_vector(v), (100. + k, 101.5 + k), 300 + k, 200 + k, 0.25 * k, singular[k], bool(k % 2))
      return handler

    def evaluate(poses_B_H, poses_W_E, dq_H_E, time_offset, config):
      k = int(round(dq_H_E.to_pose()[0])) - 1001
      if not 0 <= k < len(outcomes) or not abs(time_offset - (k + 0.5)) <= 1e-9 or k != len(calls) - 1:
        problems.append('evaluates %s with offset %s after calibration %d' % (dq_H_E.to_pose(), time_offset, len(calls) - 1))
        return ((-7., -7.), 7)
      if outcomes[k] == 'nomatch':
        return ((float('inf'), float('inf')), 0)
      steps = [int(round((p[1][1] - p[0][1]) / STEP)) - 1 for p in (poses_B_H, poses_W_E)]
      if steps != [calls[k]['hand'], calls[k]['eye']]:
        problems.append('evaluates on sets %s' % steps)
      return ((500. + k, 501.5 + k), 400 + k)

    flags = None if seed % 3 == 0 else [rng.randint(0, 1) for _ in range(sets)]
    configs = all_algorithm_configs.get_all_configs
    args = ['--aligned_poses_B_H_csv_files'] + files + ['--result_directory', os.path.join(work, 'results'), '--num_iterations', str(iterations)]
    if flags is not None:
      args += ['--is_absolute_pose_sensor'] + [str(f) for f in flags]
    changes = [(dq, 'compute_hand_eye_calibration_RANSAC', bound(dq.compute_hand_eye_calibration_RANSAC, calibrate('search'))),
               (dq, 'compute_hand_eye_calibration_BASELINE', bound(dq.compute_hand_eye_calibration_BASELINE, calibrate('baseline'))),
               (time_alignment, 'calculate_time_offset', lambda *a, **k: 0.),
               (calibration_verification, 'evaluate_calibration', bound(calibration_verification.evaluate_calibration, evaluate))]
    if subset:
      changes.append((all_algorithm_configs, 'get_all_configs', lambda: [c for n in (a['name'] for a in algorithms) for c in configs() if c[0] == n]))
    before = check.num_failures
    with check.guard('experiment', case, 300):
      with patched(*changes):
        for _ in range(runs):
          execute(EXPERIMENT, args, work, bin_dir)
    if check.num_failures > before:
      return
    if problems:
      return check.fail('evaluation of a refined calibration', dict(case, problem=problems[0]))
    judge(check, case, r, algorithms, work, files, outcomes, calls, singular, initial, refined, flags, ResultEntry().get_header())
  finally:
    shutil.rmtree(work)


def judge(check, case, r, algorithms, work, files, outcomes, calls, singular, initial, refined, flags, header):
  sets = r['sets']
  rows = read_table(os.path.join(work, 'results', 'results.csv'))
  heads = [i for i, row in enumerate(rows) if row[0] == 'algorithm_name']
  if heads != [0] or ','.join(rows[0]) + '\n' != header:
    return check.fail('header', dict(case, at=heads))
  rows = rows[1:]
  if len(rows) != len(r['table']) or len(calls) != len(outcomes):
    return check.fail('number of rows', dict(case, rows=len(rows), want=len(r['table']), calibrations=len(calls)))
  with open(os.path.join(work, 'bin', 'log')) as f:
    commands = [json.loads(line) for line in f]
  at = 0
  # Rows and calibrations are in the same order.
  for k, (row, want) in enumerate(zip(rows, r['table'])):
    a = algorithms[want['alg'] - 1]
    o = outcomes[k]
    hand, eye = want['hand'] - 1, want['eye'] - 1
    call = calls[k]
    if (call['kind'] == 'baseline') != a['baseline'] or call['prefilter'] != a['prefilter'] or not a['name'].startswith(call['algorithm']):
      return check.fail('algorithm of a calibration', dict(case, index=k, call=call, want=a))
    if (call['hand'], call['eye']) != (hand, eye):
      return check.fail('poses of a calibration', dict(case, index=k, call=call, want=[hand, eye]))
    if len(row) != len(COLUMNS) or len(row) != header.count(',') + 1:
      return check.fail('number of columns', dict(case, row=row))
    opt = a['refine']
    expect = dict(algorithm=a['name'], pair=str(want['pair'] - 1), iteration=str(want['it']), prefiltering=str(a['prefilter']),
                  hand=files[hand], eye=files[eye], success=str(want['success']), initial=str(call['n']), kept=str(200 + k), runtime=0.25 * k,
                  enabled=str(opt), refined=str(want['refined']), spoiled_angle='None', spoiled_translation='None', spoiled_time='None')
    if o == 'ok' or o == 'nomatch' or not opt and o != 'nocal':
      expect.update(position=500. + k if opt else 100. + k, orientation=501.5 + k if opt else 101.5 + k, inliers=str(400 + k if opt else 300 + k))
    if o == 'nomatch':
      expect.update(position=float('inf'), orientation=float('inf'), inliers='0')
    if opt and o in ('optfail', 'nocal'):
      expect.update(position=-1., orientation=-1., inliers='0')
    if o != 'nocal':
      expect.update(bad=str(bool(k % 2)))
      if [float(x) for x in row[COLUMNS.index('singular')].strip('[] ').split()] != list(singular[k]):
        return check.fail('singular values of a row', dict(case, index=k, row=row))
    if not opt:
      expect.update(refinement_runtime=0.)
    elif o in ('ok', 'nomatch') and not 0. < float(row[COLUMNS.index('refinement_runtime')]) < 300.:
      return check.fail('runtime of the refinement', dict(case, index=k, row=row))
    first = k - (want['pair'] - 1)
    pairs = sets * (sets - 1) // 2
    loop = chain([(refined if opt else initial)[first + i] for i in range(pairs)], sets) if want['loop'] else (-1., -1.)
    expect.update(loop_position=loop[0], loop_orientation=loop[1])
    for name, value in expect.items():
      got = row[COLUMNS.index(name)]
      if isinstance(value, float):
        same = float(got) == value or abs(float(got) - value) < 1e-4 * max(1., 1e-3 * abs(value))
      else:
        same = got == value
      if not same:
        return check.fail('column %s of a row' % name, dict(case, index=k, got=got, want=value, row=row))
  # Refinements.
  if len(commands) != len(r['refined']):
    return check.fail('number of refinements', dict(case, got=len(commands), want=len(r['refined'])))
  kept = {}
  for c, want in zip(commands, r['refined']):
    for n in ('init_guess_file', 'output_file'):
      # A run writes over what an earlier run left, but not over its own files.
      name = (want['run'], os.path.realpath(os.path.join(work, c['opts'][n])))
      if kept.setdefault(name, want) is not want:
        return check.fail('file of a refinement is written over by another', dict(case, command=c, want=want, other=kept[name]))
    k = [i for i, row in enumerate(r['table']) if all(row[n] == want[n] for n in ('run', 'alg', 'it', 'pair'))][0]
    row = r['table'][k]
    hand, eye = row['hand'] - 1, row['eye'] - 1
    g = c['guess']
    pose = [g['translation'][n] for n in 'xyz'] + [g['rotation'][n] for n in 'ijkw']
    v = pose_vector(initial[k])
    if c['opts'].get('pose1_csv') != files[hand] or c['opts'].get('pose2_csv') != files[eye]:
      return check.fail('poses of a refinement', dict(case, index=k, command=c))
    if not (abs(g['delay']) <= 1e-9 and min(np.max(np.abs(pose - v)), np.max(np.abs(pose - np.append(v[:3], -v[3:])))) <= 1e-6):
      return check.fail('initial guess of a refinement', dict(case, index=k, command=c, want=v.tolist()))
    absolute = flags or [0] * sets
    config = dict(x.split('=') for x in c['opts'].get('model_config', '').split(',') if x)
    if config != {'pose1/absoluteMeasurements': str(bool(absolute[hand])).lower(), 'pose2/absoluteMeasurements': str(bool(absolute[eye])).lower()}:
      return check.fail('kind of sensors of a refinement', dict(case, index=k, command=c, flags=flags))
  # Stored transforms.
  stored = {}
  for s in r['stored']:
    stored.setdefault((s['alg'], s['pair']), []).append(s)
  for i, a in enumerate(algorithms):
    for pair in range(sets * (sets - 1) // 2):
      want = []
      for s in stored.get((i + 1, pair + 1), []):
        k = [j for j, row in enumerate(r['table']) if all(row[n] == s[n] for n in ('run', 'alg', 'it', 'pair'))][0]
        want.append((refined if a['refine'] else initial)[k])
      for kind in ('pose', 'dq'):
        path = os.path.join(work, 'results', 'poses_H_E' if kind == 'pose' else 'dq_H_E', '%s_pose_pair_%d_%s_H_E.txt' % (a['name'], pair, kind))
        with open(path) as f:
          got = [[float(x) for x in line.strip().strip('[]').split()] for line in f]
        if len(got) != len(want):
          return check.fail('number of stored transforms', dict(case, algorithm=a['name'], pair=pair, got=len(got), want=len(want)))
        for g, w in zip(got, want):
          t, q = w
          if kind == 'pose':
            v = pose_vector(w)
            other = np.append(v[:3], -v[3:])
          else:
            v = np.append(q, 0.5 * qmul(np.append(t, 0.), q))
            other = -v
          if not min(np.max(np.abs(g - v)), np.max(np.abs(g - other))) <= 1e-4:
            return check.fail('stored transform', dict(case, algorithm=a['name'], pair=pair, got=g, want=v.tolist()))


def turned(guess, pose):
  turn = qmul(np.array([guess['rotation'][x] for x in 'ijkw']), qconj(pose[1]))
  return 2. * math.atan2(np.linalg.norm(turn[:3]), abs(turn[3]))


def spoiled(check, item):
  """The experiment with perturbed initial guesses: every result in the row of its own run."""
  seed, sets, iterations = item
  from hand_eye_calibration import calibration_verification, dual_quaternion_hand_eye_calibration as dq, time_alignment
  from hand_eye_calibration.dual_quaternion import DualQuaternion
  rng = random.Random(seed)
  np.random.seed(seed)
  random.seed(seed)
  case = dict(spoiled=seed, sets=sets, iterations=iterations)
  work = tempfile.mkdtemp(prefix='c21_', dir=check.scratch)
  try:
    bin_dir = os.path.join(work, 'bin')
    os.mkdir(bin_dir)
    with open(os.path.join(bin_dir, 'rosrun'), 'w') as f:
      f.write(ROSRUN.split('plan = ')[0].replace("json.dumps(dict(", "json.dumps(dict(fails=int(abs(guess['translation']['y']) * 1e6) % 7 == 0, ") +
              "if int(abs(guess['translation']['y']) * 1e6) % 7 == 0: os._exit(3)\njson.dump(guess, open(opts['output_file'], 'w'))\n")
    os.chmod(os.path.join(bin_dir, 'rosrun'), 0o755)
    open(os.path.join(bin_dir, 'log'), 'w').close()
    files = [os.path.join(work, 'set_%d.csv' % i) for i in range(sets)]
    for i, name in enumerate(files):
      with open(name, 'w') as f:
        for k in range(9):
          f.write('%.18f, %.18f, 0, 0, 0, 0, 0, 1\n' % (0.125 * k, STEP * (i + 1) * k))
    pairs = [(i, j) for i in range(sets) for j in range(i + 1, sets)]
    initial, offsets = [random_pose(rng) for _ in pairs], [round(rng.uniform(-3., 3.), 3) for _ in pairs]
    calls = []

    def calibrate(dq_B_H_vec, dq_W_E_vec, config):
      k = len(calls)
      calls.append(len(dq_B_H_vec))
      return (True, DualQuaternion.from_pose_vector(pose_vector(initial[k])), (1., 2.), 33 + k, 44 + k, 0.5 * k, np.arange(8.) + k, bool(k % 2))

    def evaluate(poses_B_H, poses_W_E, dq_H_E, time_offset, config):
      steps = [int(round((p[1][1] - p[0][1]) / STEP)) for p in (poses_B_H, poses_W_E)]
      return ((100. + float(dq_H_E.to_pose()[0]), 200. + float(time_offset)), 10 * steps[0] + steps[1])

    changes = [(dq, 'compute_hand_eye_calibration_RANSAC', bound(dq.compute_hand_eye_calibration_RANSAC, calibrate)),
               (dq, 'compute_hand_eye_calibration_BASELINE', bound(dq.compute_hand_eye_calibration_BASELINE, calibrate)),
               (time_alignment, 'calculate_time_offset', lambda *a, **k: offsets[len(calls)]),
               (time_alignment, 'compute_aligned_poses', lambda a, b, *x, **k: (a, b)),
               (calibration_verification, 'evaluate_calibration', bound(calibration_verification.evaluate_calibration, evaluate))]
    before = check.num_failures
    runs = 2 if sets == 2 else 1
    with check.guard('experiment with perturbed guesses', case, 400):
      with patched(*changes):
        for _ in range(runs):
          del calls[:]
          execute(SPOILED, ['--aligned_poses_B_H_csv_files'] + files + ['--result_directory', os.path.join(work, 'results'), '--num_iterations', str(iterations),
                            '--is_absolute_pose_sensor'] + ['1'] + ['0'] * (sets - 1), work, bin_dir)
    if check.num_failures > before:
      return
    rows = read_table(os.path.join(work, 'results', 'results_optimization.csv'))
    if [i for i, row in enumerate(rows) if row[0] == 'algorithm_name'] != [0]:
      return check.fail('header', case)
    rows = [dict(zip(COLUMNS, row)) for row in rows[1:] if len(row) == len(COLUMNS)]
    with open(os.path.join(bin_dir, 'log')) as f:
      commands = [json.loads(line) for line in f]
    if len(rows) != runs * 120 * iterations * len(pairs) or len(commands) != len(rows):
      return check.fail('number of rows', dict(case, rows=len(rows), refinements=len(commands)))
    for i in range(runs):
      own = commands[len(commands) // runs * i:len(commands) // runs * (i + 1)]
      for name in ('init_guess_file', 'output_file'):
        if len(set(os.path.realpath(os.path.join(work, c['opts'][name])) for c in own)) != len(own):
          return check.fail('file of a refinement is written over by another', dict(case, which=name))
    # What was refined, by what is recorded of it.
    known = {}
    for c in commands:
      k = [i for i, (a, b) in enumerate(pairs) if (c['opts'].get('pose1_csv'), c['opts'].get('pose2_csv')) == (files[a], files[b])]
      if not k:
        return check.fail('poses of a refinement', dict(case, command=c))
      if c['opts'].get('model_config') != 'pose1/absoluteMeasurements=%s,pose2/absoluteMeasurements=false' % ('true' if pairs[k[0]][0] == 0 else 'false'):
        return check.fail('kind of sensors of a refinement', dict(case, command=c))
      g = c['guess']
      d = np.array([g['translation'][n] for n in 'xyz']) - initial[k[0]][0]
      known.setdefault((k[0],) + tuple(int(round(x * 1e5)) for x in d), []).append((d, c))
    used = 0
    for n, row in enumerate(rows):
      index = n // len(pairs)
      k = n % len(pairs)
      it = index % iterations
      cell = (index // iterations) % 120
      angle, translation = divmod(cell, 10)
      if (row['pair'], row['iteration'], row['hand'], row['eye']) != (str(k), str(it), files[pairs[k][0]], files[pairs[k][1]]):
        return check.fail('order of the rows', dict(case, index=n, row=row))
      spoil = np.array([float(x) for x in row['spoiled_translation'].strip('[] ').split()])
      near = [(d, c) for o in itertools.product((-1, 0, 1), repeat=3)
              for d, c in known.get((k,) + tuple(int(round(x * 1e5)) + y for x, y in zip(spoil, o)), []) if np.max(np.abs(d - spoil)) < 1e-6]
      if not near:
        return check.fail('recorded perturbation was not the one refined', dict(case, index=n, row=row))
      # Processes that were forked alike may perturb alike, in the translation.
      by, c = min(((turned(c['guess'], initial[k]), c) for _, c in near), key=lambda x: abs(x[0] - float(row['spoiled_angle'])))
      g = c['guess']
      checks = [('angle', by, float(row['spoiled_angle']), 1e-5), ('time', g['delay'] - offsets[k], float(row['spoiled_time']), 1e-6)]
      if not all(abs(a - b) <= tol for _, a, b, tol in checks):
        return check.fail('recorded perturbation', dict(case, index=n, row=row, got=checks))
      low, high = math.radians(15. * angle), math.radians(15. * (angle + 1))
      if not low - 1e-5 <= by <= high + 1e-5 or not 0.1 * translation - 1e-5 <= np.linalg.norm(spoil) <= 0.1 * (translation + 1) + 1e-5:
        return check.fail('perturbation outside of the range of its run', dict(case, index=n, row=row))
      x, y = float(row['position']), float(row['orientation'])
      if c['fails']:
        good = row['refined'] == 'False' and (x, y) == (-1., -1.) and row['inliers'] == '0'
      else:
        good = (row['refined'] == 'True' and abs(x - 100. - g['translation']['x']) < 1e-6 and abs(y - 200. - g['delay']) < 1e-6 and
                row['inliers'] == str(10 * (pairs[k][0] + 1) + pairs[k][1] + 1))
      if not good or row['success'] != 'True' or row['initial'] != '9' or row['kept'] != str(44 + k) or row['bad'] != str(bool(k % 2)) or row['enabled'] != 'True':
        return check.fail('results of a row', dict(case, index=n, row=row, refinement=c))
      if abs(float(row['runtime']) - 0.5 * k) > 1e-6 or [float(v) for v in row['singular'].strip('[] ').split()] != list(np.arange(8.) + k) or \
          row['algorithm'] != rows[0]['algorithm'] or not c['fails'] and not 0. < float(row['refinement_runtime']) < 300.:
        return check.fail('figures of the initial calibration of a row', dict(case, index=n, row=row))
      row['c'] = c
      used += 1
      if k == len(pairs) - 1:
        group = rows[n + 1 - len(pairs):n + 1]
        loop = (-1., -1.)
        if not any(r['c']['fails'] for r in group):
          loop = chain([(np.array([r['c']['guess']['translation'][m] for m in 'xyz']), np.array([r['c']['guess']['rotation'][m] for m in 'ijkw'])) for r in group], sets)
        if not all(abs(float(r['loop_position']) - loop[0]) <= 1e-4 and abs(float(r['loop_orientation']) - loop[1]) <= 1e-3 for r in group):
          return check.fail('loop error', dict(case, index=n, rows=[[r['loop_position'], r['loop_orientation']] for r in group], want=loop))
    check.count('rows of perturbed experiments', used)
  finally:
    shutil.rmtree(work)


def run(check):
  common.import_repo()
  from hand_eye_calibration_experiments.all_algorithm_configs import get_all_configs
  every = ['%s_%s_%s' % (a, b, c) for a in ('baseline', 'RC', 'RS') for b in ('filter', 'no_filter') for c in ('opt', 'no_opt')]
  every += ['%s_%s' % (a, c) for a in ('EC', 'ES') for c in ('opt', 'no_opt')]
  with check.guard('algorithms', {}):
    names = [c[0] for c in get_all_configs()]
    if sorted(names) != sorted(every):
      check.fail('algorithms', dict(got=names))
  if check.failures:
    return

  def algorithm(name):
    return dict(name=name, baseline=name.startswith('baseline'), prefilter='no_filter' not in name, refine='no_opt' not in name,
                deterministic=name.startswith(('baseline', 'E')))
  laws = ['HeaderOnce', 'Complete', 'Ordered', 'LoopIff']
  items = []

  def add(algorithms, sets, iterations, runs, faults, simulate=None, subset=True):
    algs = [algorithm(n) for n in algorithms]
    seq = '<<' + ', '.join('[deterministic |-> %s, refine |-> %s]' % (tla(a['deterministic']), tla(a['refine'])) for a in algs) + '>>'
    kw = dict(simulate=simulate, depth=2000, workers=1) if simulate else {}
    res = check.tlc('Experiment', dict(Sets=str(sets), Algorithms=seq, Iterations=str(iterations), MaxRuns=str(runs), MaxFaults=str(faults), Told='TRUE'),
                    invariants=laws if not simulate else ['HeaderOnce'], **kw)
    seen = set()
    for r in res.records:
      key = json.dumps(r['outcomes'])
      if key not in seen:
        seen.add(key)
        items.append((check.seed * 1000000 + len(items), algs, iterations, runs, r, subset))
    return res

  T = check.thorough
  res = check.tlc('Experiment', dict(Sets='3', Algorithms='<<[deterministic |-> FALSE, refine |-> TRUE]>>', Iterations='2', MaxRuns='2', MaxFaults='2', Told='FALSE'),
                  invariants=laws, spec='Spec', properties=['Appended', 'Ends'])
  add(['RC_filter_opt', 'baseline_no_filter_no_opt'], 2, 2, 1, 9)
  add(['RS_no_filter_opt', 'EC_no_opt'], 3, 2, 1, 3 if T else 1)
  add(['ES_opt', 'RC_no_filter_no_opt'], 3, 1, 1, 9 if T else 2)
  add(['baseline_filter_opt'], 3, 3, 1, 6)
  add(['RS_filter_opt'], 2, 2, 2, 4)
  add(['RC_filter_opt', 'RS_filter_no_opt'], 2, 1, 3, 2)
  add(['EC_opt'], 4, 1, 1, 3 if T else 1)
  add(['RS_filter_no_opt', 'RC_no_filter_opt'], 3, 2, 2, 40, simulate=400 if T else 25)
  add(names, 2, 2, 2, 40, simulate=40 if T else 6, subset=False)
  add(names, 3, 2, 1, 30, simulate=40 if T else 6, subset=False)
  add(names, 4, 1, 1, 6, simulate=20 if T else 2, subset=False)
  kinds = set(o for i in items for o in i[4]['outcomes'])
  check.require_ops(kinds, ('ok', 'nocal', 'optfail', 'nomatch'))
  check.rng.shuffle(items)
  pmap(check, replay, items, chunks=64)
  check.traces += len(items)
  check.count('experiments replayed', len(items))
  check.log('%d experiments replayed' % len(items))
  for i, (sets, iterations) in enumerate([(2, 1), (3, 1)] + ([(2, 3), (4, 1), (3, 2)] if T else [])):
    spoiled(check, (check.seed * 100 + i, sets, iterations))
    check.traces += 1
  check.sample(dict(outcomes=items[0][4]['outcomes'], table=items[0][4]['table'][:3]))
  check.assumptions += ['Calibration, time offset and evaluation are stand-ins that return numbers telling where they belong; they have checks of their own.',
                        'The refinement (C++) is a stand-in that succeeds, fails or is killed as the specification chooses.']
