"""C20: the calibration pipeline over changes, deletions and crashes (spec/Pipeline.tla)."""
import contextlib
import io
import itertools
import json
import os
import random
import re
import runpy
import shutil
import signal
import subprocess
import sys
import tempfile
import time

import numpy as np

from checks.data import compose, invert, pose_vector, random_pose
from checks.util import tla_set
from harness import common
from harness.common import MachineryError, Timeout, pmap

SCRIPTS = os.path.join(common.REPO, 'hand_eye_calibration', 'scripts')
CIRCLE = os.path.join(SCRIPTS, 'close_the_circle_test.py')
COMPLETE = os.path.join(SCRIPTS, 'compute_complete_handeye_calibration.sh')
FINDING = ('close_the_circle_test.py: a rerun does not make up for an alignment stage that left some but not all '
           'of its outputs')

# Stand-in for rosrun.  Numbers written into the files tell which versions they were derived from.
ROSRUN = r'''#!%s -IS
import json, os, signal, sys
sys.excepthook = lambda *a: None
args, opts = sys.argv[1:], {}
rest = args[2:]
while rest:
  a = rest.pop(0)
  a = a.lstrip('-')
  if '=' in a:
    k, v = a.split('=', 1)
  else:
    k, v = a, rest.pop(0)
  opts[k] = v
stage = {'compute_aligned_poses.py': 'align', 'compute_hand_eye_calibration.py': 'calibrate', 'batch_estimator': 'estimate'}[args[1]]
with open(os.environ['PIPE_LOG'], 'a') as f:
  f.write(stage + '\n')
crash = os.environ['PIPE_CRASH'].split(':')
written = 0
def die():
  if crash[0] == stage and int(crash[1]) == written:
    if crash[2] == 'signal':
      os.kill(os.getpid(), signal.SIGKILL)
    if crash[2] == 'abort':
      os.kill(os.getpid(), signal.SIGABRT)
    os._exit(int(crash[2]))
def write(path, text):
  global written
  die()
  with open(path, 'w') as f:
    f.write(text)
  written += 1
def number(path):
  with open(path) as f:
    return f.read().strip()
if stage == 'align':
  a, b = number(opts['poses_B_H_csv_file']), number(opts['poses_W_E_csv_file'])
  write(opts['aligned_poses_B_H_csv_file'], 'hand %%s %%s' %% (a, b))
  write(opts['aligned_poses_W_E_csv_file'], 'eye %%s %%s' %% (a, b))
  if 'time_offset_output_csv_file' in opts:
    write(opts['time_offset_output_csv_file'], '%%d' %% (int(a) * 1000 + int(b)))
elif stage == 'calibrate':
  x = []
  for f, kind in (('aligned_poses_B_H_csv_file', 'hand'), ('aligned_poses_W_E_csv_file', 'eye')):
    words = number(opts[f]).split()
    x += [int(n) for n in words[1:]] if words[0] == kind else [999, 999]
  pose = [x[0] * 1000 + x[1], x[2] * 1000 + x[3], 0, 0, 0, 0, 1]
  if 'extrinsics_output_csv_file' in opts:
    write(opts['extrinsics_output_csv_file'], '\n'.join('%%d' %% c for c in pose) + '\n')
  if 'calibration_output_json_file' in opts:
    delay = float(number(opts['time_offset_input_csv_file']))
    write(opts['calibration_output_json_file'], json.dumps(dict(delay=delay, translation=dict(zip('xyz', pose[:3])), rotation=dict(zip('ijkw', pose[3:])))))
else:
  a, b = int(number(opts['pose1_csv'])), int(number(opts['pose2_csv']))
  with open(opts['init_guess_file']) as f:
    g = json.load(f)
  g['translation']['z'] = a * 1000 + b
  write(opts['output_file'], json.dumps(g))
die()
'''


def pair(code):
  code = int(round(code))
  return [[code // 1000], [code % 1000]]


def contents(group, names, work):
  """What the files of a group were derived from, as in the specification; [] for a missing file."""
  def text(name):
    path = os.path.join(work, name)
    if not os.path.exists(path):
      return None
    with open(path) as f:
      return f.read()
  out = {}
  for f, name in (('A', '%s/%s_aligned.csv' % (group, names[0])), ('B', '%s/%s_aligned.csv' % (group, names[1]))):
    t = text(name)
    out[f] = [] if t is None else [[int(n)] for n in t.split()[1:]] if t.startswith('hand' if f == 'A' else 'eye') else [[0]]
  t = text('%s/time_offset.csv' % group)
  out['O'] = [] if t is None else pair(float(t))
  t = text('%s/pose.csv' % group)
  out['P'] = [] if t is None else [pair(float(c)) for c in t.split()[:2]]
  for f, name in (('G', group + '_init_guess.json'), ('C', group + '.json')):
    t = text(name)
    if t is None:
      out[f] = []
      continue
    d = json.loads(t)
    guess = [pair(d['delay']), [pair(d['translation']['x']), pair(d['translation']['y'])]]
    out[f] = guess if f == 'G' else pair(d['translation']['z']) + [guess]
  return out


class Bench(object):
  """A scratch directory in which the pipeline runs with stand-ins for the stages."""

  def __init__(self, check):
    self.work = tempfile.mkdtemp(prefix='c20_', dir=check.scratch)
    self.bin = os.path.join(self.work, 'bin')
    os.mkdir(self.bin)
    rosrun = os.path.join(self.bin, 'rosrun')
    with open(rosrun, 'w') as f:
      f.write(ROSRUN % '/usr/bin/python3')
    os.chmod(rosrun, 0o755)
    self.log = os.path.join(self.work, 'log')
    self.paths = dict(a=os.path.join(self.work, 'hand.csv'), b=os.path.join(self.work, 'eye.csv'))
    self.env = dict(common.repo_env(), PATH=self.bin + os.pathsep + os.environ.get('PATH', '/usr/bin:/bin'), PIPE_LOG=self.log)

  def put(self, path, version):
    with open(path, 'w') as f:
      f.write('%d' % version)

  def run(self, program, args, crash, real=True):
    """Returns whether the run completed and which stages were executed."""
    open(self.log, 'w').close()
    env = dict(self.env, PIPE_CRASH=crash)
    if real:
      p = subprocess.run(program + args, cwd=self.work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
      status, text = p.returncode, p.stdout.decode()
    else:
      status, text = inside(program[-1], args, self.work, env)
    with open(self.log) as f:
      return status == 0, f.read().split(), text

  def remove(self):
    shutil.rmtree(self.work)


def inside(program, args, work, env):
  """Runs a Python program in this process."""
  here, argv, old, text = os.getcwd(), sys.argv, dict(os.environ), io.StringIO()
  sys.argv = [program] + args
  os.chdir(work)
  os.environ.update(env)
  status = 0
  try:
    with contextlib.redirect_stdout(text):
      runpy.run_path(program, run_name='__main__')
  except SystemExit as e:
    status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
  except Timeout:
    raise
  except Exception as e:
    status = 1
    text.write(repr(e))
  finally:
    sys.argv = argv
    os.chdir(here)
    os.environ.clear()
    os.environ.update(old)
  return status, text.getvalue()


HOW = ('1', '1', '255', '127', 'signal', 'abort', '2')


def circle(check, item):
  """A history with driver "make"; expectations by rule."""
  seed, ideal, found, real = item
  rng = random.Random(seed)
  bench = Bench(check)
  names = ('hand', 'eye')
  case = dict(seed=seed, history=[{k: v for k, v in h.items() if k != 'files'} for h in ideal['hist']])
  program, args = [common.PYTHON, CIRCLE], [bench.paths['a'], bench.paths['b']]
  files = dict(A='test/hand_aligned.csv', B='test/eye_aligned.csv', O='test/time_offset.csv', P='test/pose.csv', G='test_init_guess.json', C='test.json')
  try:
    with check.guard('pipeline', case, 120):
      bench.put(bench.paths['a'], 1)
      bench.put(bench.paths['b'], 2)
      time.sleep(0.012)
      if ideal['fresh']:
        ok, ran, text = bench.run(program, args, ':0:1', real)
        if not ok or ran != ['align', 'calibrate', 'estimate']:
          return check.fail('first run', dict(case, ran=ran, output=text[-600:]))
      rules = dict(ideal=True, found=True)
      ends = dict((n, [h for h in s['hist'] if h['op'] == 'end']) for n, s in (('ideal', ideal), ('found', found)))
      # The specification uses its clock as version.
      maps = dict(ideal={1: 1, 2: 2}, found={1: 1, 2: 2})
      clocks = dict((n, [h['version'] for h in s['hist'] if h['op'] == 'change']) for n, s in (('ideal', ideal), ('found', found)))
      c, k, number = 0, 0, 2
      for h in ideal['hist']:
        if h['op'] == 'change':
          time.sleep(0.012)
          number += 1
          bench.put(bench.paths[h['f']], number)
          for n in maps:
            maps[n][clocks[n][c]] = number
          c += 1
        elif h['op'] == 'delete':
          path = os.path.join(bench.work, files[h['f']])
          if os.path.exists(path):
            os.unlink(path)
        elif h['op'] == 'run':
          time.sleep(0.012)
          ok, ran, text = bench.run(program, args, '%s:%d:%s' % (h['stage'], h['after'], rng.choice(HOW)), real)
          got = contents('test', names, bench.work)
          for n in list(rules):
            e = ends[n][k]
            want = dict((f, renumber(v, maps[n])) for f, v in e['files'].items())
            same = (ok == (e['status'] == 'completed') and ran == [s for s in e['ran'] if s != 'guess'] and got == want)
            rules[n] = rules[n] and same
            if not same and n == 'ideal':
              case['run'] = dict(number=k, completed=ok, ran=ran, files=got, expected=dict(status=e['status'], ran=e['ran'], files=want), output=text[-400:])
          k += 1
          if not rules['ideal'] and not rules['found']:
            return check.fail('results after a run', case)
      if not rules['ideal']:
        check.known(FINDING, 'results after a run', case)
  finally:
    bench.remove()


def renumber(tree, numbers):
  if isinstance(tree, list):
    return [renumber(t, numbers) for t in tree]
  return numbers[tree]


def always(check, item):
  """A history with driver "always": the shell script."""
  seed, spec = item
  rng = random.Random(seed)
  bench = Bench(check)
  case = dict(seed=seed, script=[{k: v for k, v in h.items() if k != 'files'} for h in spec['hist']])
  try:
    with check.guard('complete calibration', case, 120):
      # In one folder or in several, there with the same or with different names.
      places = [(s, n) for s in (('data', 'data'), ('.', '.'), ('one', 'two'), ('.', 'two'), ('data/one', 'data')) for n in (('hand.csv', 'eye.csv'), ('poses.csv', 'poses.csv'))]
      folders, names = rng.choice([p for p in places if p[0][0] != p[0][1] or p[1][0] != p[1][1]])
      for s in folders:
        os.makedirs(os.path.join(bench.work, s), exist_ok=True)
      paths = dict((k, os.path.join(bench.work, s, n)) for k, s, n in zip('ab', folders, names))
      bench.put(paths['a'], 1)
      bench.put(paths['b'], 2)
      number, c, k = 2, 0, 0
      numbers, clocks = {1: 1, 2: 2}, [h['version'] for h in spec['hist'] if h['op'] == 'change']
      args = [os.path.relpath(paths[n], bench.work) if seed % 2 else paths[n] for n in 'ab']
      ends = [h for h in spec['hist'] if h['op'] == 'end']
      for h in spec['hist']:
        if h['op'] == 'change':
          number += 1
          bench.put(paths[h['f']], number)
          numbers[clocks[c]] = number
          c += 1
        elif h['op'] == 'run':
          result = os.path.join(bench.work, 'calibration_optimized.json')
          before = open(result).read() if os.path.exists(result) else None
          ok, ran, text = bench.run(['/bin/bash', COMPLETE], args, '%s:%d:%s' % (h['stage'], h['after'], rng.choice(HOW)))
          e = ends[k]
          k += 1
          # Joining offset and pose is part of the calibration there.
          want = [s for s in e['ran'] if s != 'guess']
          if ok != (e['status'] == 'completed') or ran != want:
            return check.fail('stages executed by the script', dict(case, run=k, completed=ok, ran=ran, want=want, output=text[-400:]))
          after = open(result).read() if os.path.exists(result) else None
          if ok:
            d = json.loads(after)
            got = pair(d['translation']['z']) + [[pair(d['delay']), [pair(d['translation']['x']), pair(d['translation']['y'])]]]
            if got != renumber(e['files']['C'], numbers):
              return check.fail('result of the script', dict(case, run=k, got=got, want=renumber(e['files']['C'], numbers)))
          elif 'estimate' not in ran and before != after:
            return check.fail('a failed run writes a result', dict(case, run=k))
  finally:
    bench.remove()


def commands(check):
  """Commands that fail, in whichever way, are noticed."""
  from hand_eye_calibration.bash_utils import run
  work = tempfile.mkdtemp(prefix='c20_', dir=check.scratch)
  for code in ('exit 0', 'exit 1', 'exit 2', 'exit 127', 'exit 255', 'kill -9 $$', 'kill -15 $$', 'kill -6 $$'):
    mark = os.path.join(work, 'mark')
    with contextlib.redirect_stdout(io.StringIO()):
      raised = False
      with check.guard('running a command', dict(code=code)):
        try:
          run("/bin/sh -c 'echo > \"%s\"; %s'" % (mark, code))
        except Exception:
          raised = True
    if raised != (code != 'exit 0'):
      check.fail('a command that ends with "%s" %s' % (code, 'is an error' if raised else 'is not noticed'), dict(code=code))
    if not os.path.exists(mark):
      check.fail('a command is not executed', dict(code=code))
    else:
      os.unlink(mark)
  with contextlib.redirect_stdout(io.StringIO()):
    with check.guard('dry run', {}):
      run('/bin/sh -c \'echo > "%s"\'' % mark, True)
    if os.path.exists(mark):
      check.fail('a dry run executes the command', {})
    missing = False
    try:
      run(os.path.join(work, 'no such program').replace(' ', '_'))
    except Exception:
      missing = True
    if not missing:
      check.fail('a missing program is not noticed', {})


def closes(check, item):
  """Three recordings: the pairwise results compose to the printed circle."""
  seed, = item
  rng = random.Random(seed)
  bench = Bench(check)
  case = dict(circle=seed)
  x = [random_pose(rng) for _ in range(2)]
  x.append(invert(compose(x[0], x[1])))
  times = [rng.uniform(-5., 5.) for _ in range(2)]
  times.append(-sum(times))
  bad = seed % 2          # every other circle does not close
  if bad:
    x[2] = compose(x[2], random_pose(rng))
    times[2] += 1.
  results = {}
  for i, (p, t) in enumerate(zip(x, times)):
    v = pose_vector(p)
    results['%d_%d' % (i, (i + 1) % 3)] = dict(delay=t, translation=dict(zip('xyz', v[:3])), rotation=dict(zip('ijkw', v[3:])))
  total = compose(compose(x[0], x[1]), x[2])
  try:
    with open(os.path.join(bench.work, 'results'), 'w') as f:
      json.dump(results, f)
    with open(os.path.join(bench.bin, 'rosrun'), 'w') as f:
      f.write(r'''#!/usr/bin/python3 -IS
import json, os, sys
opts, rest = {}, sys.argv[3:]
while rest:
  a = rest.pop(0).lstrip('-')
  k, v = a.split('=', 1) if '=' in a else (a, rest.pop(0))
  opts[k] = v
results = json.load(open(os.path.join(os.path.dirname(os.environ['PIPE_LOG']), 'results')))
for k, v in opts.items():
  if 'aligned_poses' in k and sys.argv[2] == 'compute_aligned_poses.py':
    open(v, 'w').write('poses')
  if k == 'time_offset_output_csv_file':
    r = results[v.split('/')[0]]
    open(v, 'w').write('%.17g' % r['delay'])
  if k == 'extrinsics_output_csv_file':
    r = results[v.split('/')[0]]
    open(v, 'w').write('\n'.join('%.17g' % c for c in [r['translation'][n] for n in 'xyz'] + [r['rotation'][n] for n in 'ijkw']))
  if k == 'output_file':
    json.dump(results[v.split('.')[0]], open(v, 'w'))
''')
    names = [os.path.join(bench.work, n + '.csv') for n in ('one', 'two', 'three')]
    for n in names:
      bench.put(n, 1)
    with check.guard('circle', case, 120):
      ok, _, text = bench.run([common.PYTHON, CIRCLE], names, ':0:1', False)
      if not ok:
        return check.fail('circle of three recordings', dict(case, output=text[-600:]))
      text = ' '.join(text.split())
      found = re.findall(r'Circle[^:]*: *\[delta_time: *(\S+), delta_pose: *\[([^\]]*)\]\]', text)
      if len(found) != 2:
        return check.fail('circle is not reported', dict(case, output=text[-600:]))
      for t, pose in found:
        pose = np.array([float(c) for c in pose.split()])
        want = pose_vector(total)
        if not (abs(float(t) - sum(times)) <= 1e-5 and min(np.max(np.abs(pose - want)), np.max(np.abs(pose - np.append(want[:3], -want[3:])))) <= 1e-5):
          return check.fail('circle', dict(case, got=[t, pose.tolist()], want=[sum(times), want.tolist()]))
  finally:
    bench.remove()


def end_to_end(check, item):
  """The script with the real alignment and calibration; only the refinement is a stand-in."""
  from checks import c19
  seed, = item
  bench = Bench(check)
  case = dict(end_to_end=seed)
  try:
    rec = c19.Recording(seed, 0.)
    paths = [os.path.join(bench.work, n) for n in ('hand.csv', 'eye.csv')]
    c19.save(paths[0], rec.hand)
    c19.save(paths[1], rec.eye)
    with open(os.path.join(bench.bin, 'rosrun'), 'w') as f:
      f.write('#!/bin/bash\nif [ "$2" = batch_estimator ]; then shift 2; printf "%%s\\n" "$@" | tr = "\\n" > "$PIPE_LOG"; cp calibration.json calibration_optimized.json; '
              'else exec %s "%s/$2" "${@:3}"; fi\n' % (common.PYTHON, c19.BIN))
    with check.guard('complete calibration', case, 300):
      ok, said, text = bench.run(['/bin/bash', COMPLETE], paths, ':0:1')
      if not ok:
        return check.fail('complete calibration', dict(case, output=text[-800:]))
      for name, want in (('--pose1_csv', paths[0]), ('--pose2_csv', paths[1]), ('--init_guess_file', 'calibration.json'), ('--output_file', 'calibration_optimized.json')):
        if name not in said or said[said.index(name) + 1] != want:
          return check.fail('arguments of the refinement', dict(case, said=said))
      c19.judge_output(check, case, 'json', os.path.join(bench.work, 'calibration_optimized.json'), rec, rec.x)
  finally:
    bench.remove()


def run(check):
  common.import_repo()
  crashes = [dict(stage='align', after=k) for k in range(4)] + [dict(stage=s, after=k) for s in ('calibrate', 'estimate') for k in range(2)]
  every = '{"A", "B", "O", "P", "G", "C"}'
  laws = ['Fresh', 'NothingToDo', 'Recovers', 'StopsAtFailure']
  base = dict(Driver='"make"', Rule='"ideal"', Crashes=tla_set(crashes), Deletable=every, Fresh0='TRUE', MaxOps='2', Deep='FALSE')
  # The design, deeper than it is replayed.
  for fresh in ('TRUE', 'FALSE'):
    check.tlc('Pipeline', dict(base, Fresh0=fresh, MaxOps='4' if check.thorough else '3', Deep='TRUE'), invariants=laws)
  check.tlc('Pipeline', dict(base, Deep='TRUE'), invariants=laws, spec='Spec', properties=['Reruns'])
  # The rule of the program as it is: the known finding, in the model.
  res = check.tlc('Pipeline', dict(base, Rule='"found"', Deep='TRUE'), invariants=['Recovers'], expect_violation=True)
  if 'Recovers is violated' not in res.output:
    raise MachineryError('the specification does not show the known finding')
  histories = {}
  for rule, ops, fresh in itertools.product(('ideal', 'found'), ('1', '2', '3'), ('TRUE', 'FALSE')):
    res = check.tlc('Pipeline', dict(base, Rule='"%s"' % rule, Fresh0=fresh, MaxOps=ops))
    for r in res.records:
      key = json.dumps([r['fresh'], [[h['op'], h.get('f'), h.get('stage'), h.get('after')] for h in r['hist'] if h['op'] != 'end']])
      histories.setdefault(key, {})[rule] = r
  both = [h for _, h in sorted(histories.items()) if len(h) == 2]
  short = [h for h in both if sum(x['op'] != 'end' for x in h['ideal']['hist']) <= 3]
  long = [h for h in both if sum(x['op'] != 'end' for x in h['ideal']['hist']) > 3]
  check.rng.shuffle(long)
  long = long[:len(long) if check.thorough else 600]
  items = [(check.seed * 100000 + i, h['ideal'], h['found'], i % 40 == 0) for i, h in enumerate(short + long)]
  check.require_ops((x['op'] for h in short + long for x in h['ideal']['hist']), ('change', 'delete', 'run', 'end'))
  pmap(check, circle, items, chunks=64)
  check.traces += len(items)
  check.count('histories of the circle program', len(items))
  check.log('%d histories replayed' % len(items))
  scripts = []
  for ops in ('1', '2'):
    res = check.tlc('Pipeline', dict(base, Driver='"always"', Deletable='{}', Fresh0='FALSE', MaxOps=ops), invariants=['Fresh', 'Recovers', 'StopsAtFailure'])
    scripts += [(check.seed * 100000 + 7 * i, r) for i, r in enumerate(res.records)]
  pmap(check, always, scripts, chunks=64)
  check.traces += len(scripts)
  check.count('histories of the shell script', len(scripts))
  commands(check)
  circles = [(check.seed * 1000 + i,) for i in range(200 if check.thorough else 24)]
  pmap(check, closes, circles)
  check.traces += len(circles)
  ends = [(check.seed * 1000 + i,) for i in range(40 if check.thorough else 8)]
  pmap(check, end_to_end, ends)
  check.traces += len(ends)
  check.sample(dict(history=both[0]['ideal']))
  check.exhaustive = False
  check.assumptions += [
      'The stages are stand-ins that write which versions of their inputs they read; crashes happen before or after a whole write.',
      'Modification times of files written more than ten milliseconds apart differ.']
