"""C19: the command line tools (spec/CommandLine.tla)."""
import contextlib
import io
import json
import math
import os
import random
import runpy
import shutil
import subprocess
import sys
import tempfile
import warnings

import numpy as np

from checks.data import axis_angle, compose, invert, pose_vector, qconj, qmul, random_axis, random_pose
from checks.util import off, tla_set
from harness import common
from harness.common import MachineryError, Timeout, pmap

BIN = os.path.join(common.REPO, 'hand_eye_calibration', 'bin')
ALIGN, CALIBRATE = [os.path.join(BIN, n) for n in ('compute_aligned_poses.py', 'compute_hand_eye_calibration.py')]


def execute(program, args, real=False):
  """Runs a program, as a process or (faster) in this one.  Returns status and output."""
  if real:
    p = subprocess.run([common.PYTHON, program] + args, env=common.repo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return p.returncode, p.stdout.decode()[-800:]
  argv, text = sys.argv, io.StringIO()
  sys.argv = [program] + args
  status = 0
  try:
    with contextlib.redirect_stdout(text), contextlib.redirect_stderr(text), warnings.catch_warnings():
      warnings.simplefilter('ignore')
      runpy.run_path(program, run_name='__main__')
  except SystemExit as e:
    status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
  except Timeout:
    raise
  except Exception as e:
    status = 1
    text.write(repr(e))
  finally:
    sys.argv = argv
  return status, text.getvalue()[-800:]


class Recording(object):
  """Poses of hand and eye over one motion.  Stamps are multiples of a power of two, so that the offset is exact."""

  def __init__(self, seed, noise=0., times=1):
    rng = random.Random(seed)
    self.dt = rng.choice((1. / 16., 1. / 8.))
    self.offset = rng.choice((0., 12.5, -3., 0.125, -7654321.0625 if self.dt < 0.1 else 9876543.125, 123456789.125))
    self.base = rng.choice((0., 100., 1478863584.))
    self.duration = 6. * times
    parts = rng.randint(3, 5) * times
    cuts = [i * self.duration / parts for i in range(parts + 1)]
    self.segments = [(cuts[i], cuts[i + 1], random_axis(rng), rng.choice((-1., 1.)) * rng.uniform(0.8, 2.2), np.array([rng.uniform(-0.5, 0.5) for _ in range(3)]))
                     for i in range(parts)]
    self.start, self.x, self.world = random_pose(rng), random_pose(rng, max_t=0.3), random_pose(rng)
    # Also rotations by next to half a turn, next to nothing, and in one direction.
    if seed % 4 < 2:
      self.x = (self.x[0], axis_angle(random_axis(rng), math.pi - rng.uniform(1e-3, 0.1) if seed % 4 else rng.choice((1e-4, 0.02))))
    n = int(self.duration / self.dt)
    self.spans = [(-rng.randint(10, 30), n + rng.randint(10, 30)) for _ in range(2)]
    shake = lambda p: (p[0] + np.array([rng.gauss(0., noise) for _ in range(3)]), qmul(p[1], axis_angle(random_axis(rng), rng.gauss(0., noise)))) if noise else p
    self.hand = [[self.base + k * self.dt] + list(pose_vector(shake(self.at(k)))) for k in range(*self.spans[0])]
    self.eye = [[self.base + self.offset + k * self.dt] + list(pose_vector(shake(self.eye_at(k)))) for k in range(*self.spans[1])]
    for rows in (self.hand, self.eye):
      if rng.random() < 0.5:
        for r in rows:
          s = rng.choice((1., -1.))
          r[4:] = [s * c for c in r[4:]]

  def at(self, k):
    p, q = self.start
    t = k * self.dt
    for a, b, axis, amount, v in self.segments:
      u = min(1., max(0., (t - a) / (b - a)))
      f = u - math.sin(2. * math.pi * u) / (2. * math.pi)
      p = p + v * f
      q = qmul(q, axis_angle(axis, amount * f)) if f > 0. else q
    return (p, q)

  def eye_at(self, k):
    return compose(compose(self.world, self.at(k)), self.x)

  def common(self):
    return range(max(s[0] for s in self.spans), min(s[1] for s in self.spans))


def save(path, rows):
  with open(path, 'w') as f:
    for r in rows:
      f.write(', '.join('%.18f' % c for c in r) + '\n')


def load(path):
  with open(path) as f:
    return [[float(c) for c in line.split(',')] for line in f if line.strip()]


def jpl(rows):
  return [r[:4] + [-c for c in r[4:7]] + r[7:] for r in rows]


def inverted(rows):
  return [r[:1] + list(pose_vector(invert((np.array(r[1:4]), np.array(r[4:]))))) for r in rows]


def differ(got, pose):
  got = np.array(got, dtype=float)
  dq = qmul(got[3:7] / np.linalg.norm(got[3:7]), qconj(pose[1]))
  return float(np.max(np.abs(np.concatenate([got[:3] - pose[0], dq[:3]]))))


def damage(path, kind):
  if kind == 'absent':
    os.unlink(path)
    return
  rows = load(path)
  if kind == 'short':
    rows = rows[:-1]
  elif kind == 'empty':
    rows = []
  elif kind == 'still':
    rows = [r[:1] + rows[0][1:] for r in rows]
  elif kind == 'unrelated':
    rng = random.Random(len(rows))
    rows = [r[:1] + list(pose_vector(random_pose(rng, 2.5, 5.))) for r in rows]
  save(path, rows)
  if kind == 'text':
    with open(path, 'a') as f:
      f.write('0.0, 1.0, none, 2.0, 0.0, 0.0, 0.0, 1.0\n')
  elif kind == 'ragged':
    with open(path, 'a') as f:
      f.write('0.0, 1.0, 2.0\n')


def judge_aligned(check, case, rec, paths):
  hand, eye = load(paths['B_H']), load(paths['W_E'])
  offset = load(paths['offset'])
  if len(offset) != 1 or off(offset[0][0], rec.offset, 1e-6):
    check.fail('time offset', dict(case, got=offset, want=rec.offset))
    return False
  if len(hand) != len(eye) or len(hand) < 0.9 * len(rec.common()):
    check.fail('number of aligned poses', dict(case, got=[len(hand), len(eye)], want=len(rec.common())))
    return False
  # Both files use one clock, that of the hand or that of the eye.
  for clock in (rec.base, rec.base + rec.offset):
    wrong = None
    for h, e in zip(hand, eye):
      k = int(round((h[0] - clock) / rec.dt))
      if not (abs(e[0] - h[0]) <= 1e-6 and differ(h[1:], rec.at(k)) <= 1e-6 and differ(e[1:], rec.eye_at(k)) <= 1e-6):
        wrong = dict(case, hand=h, eye=e)
        break
    if wrong is None:
      return True
  check.fail('aligned poses', wrong)
  return False


def judge_output(check, case, name, path, rec, x):
  if name == 'extrinsics':
    got = [c for r in load(path) for c in r]
    delay = None
  else:
    with open(path) as f:
      d = json.load(f)
    got = [d['translation'][c] for c in 'xyz'] + [d['rotation'][c] for c in 'ijkw']
    delay = d['delay']
  if len(got) != 7 or differ(got, x) > 1e-6:
    check.fail('calibration in the %s output' % name, dict(case, got=got, want=list(pose_vector(x))))
  elif delay is not None and off(delay, rec.offset, 1e-6):
    check.fail('time offset in the json output', dict(case, got=delay, want=rec.offset))


OLD = 'an earlier result\n'


def replay(check, item):
  seed, spec, real = item
  # Few recordings, many requests.
  rec = Recording(check.seed * 100 + seed % 12)
  work = tempfile.mkdtemp(prefix='c19_', dir=check.scratch)
  p = lambda n: os.path.join(work, n)
  paths = dict((n, p(n + '.csv')) for n in ('B_H', 'H_B', 'W_E', 'E_W', 'offset'))
  outs = dict(extrinsics=p('extrinsics.csv'), json=p('calibration.json'))
  convert = jpl if spec['raw'] == 'JPL' else lambda rows: rows
  save(p('hand.csv'), convert(rec.hand))
  save(p('eye.csv'), convert(rec.eye))
  case = dict(seed=seed, spec=spec)
  written = {}
  old = set(o for o, s in spec['out'].items() if s == 'old')
  # An output that ends up written may or may not have existed before.
  old |= set(o for o in outs if spec['out'][o] == 'X' and (seed + len(o)) % 2)
  for o in old:
    with open(outs[o], 'w') as f:
      f.write(OLD)
  with check.guard('command line', case, 300):
    for step in spec['hist']:
      if step['op'] == 'align':
        args = ['--poses_B_H_csv_file', p('hand.csv'), '--poses_W_E_csv_file', p('eye.csv'), '--aligned_poses_B_H_csv_file', paths['B_H'],
                '--aligned_poses_W_E_csv_file', paths['W_E'], '--time_offset_output_csv_file', paths['offset']]
        if step['told'] != 'Hamilton' or seed % 2:
          args += ['--quaternion_format', {'unknown': 'quaternion'}.get(step['told'], step['told'])]
        status, text = execute(ALIGN, args, real)
        if step['ok'] and status != 0:
          check.fail('aligning fails', dict(case, output=text))
          break
        if not step['ok']:
          if status == 0 or any(os.path.exists(paths[n]) for n in paths):
            check.fail('an unknown convention is accepted', dict(case, output=text))
            break
        elif not judge_aligned(check, case, rec, paths):
          break
      elif step['op'] == 'invert':
        save(paths['H_B'], inverted(load(paths['B_H'])))
        save(paths['E_W'], inverted(load(paths['W_E'])))
      elif step['op'] == 'damage':
        damage(paths[step['file']], step['kind'])
      elif step['op'] == 'calibrate':
        args = []
        for n in step['in']:
          args += ['--time_offset_input_csv_file' if n == 'offset' else '--aligned_poses_%s_csv_file' % n, paths[n]]
        for o in step['out']:
          args += ['--extrinsics_output_csv_file' if o == 'extrinsics' else '--calibration_output_json_file', outs[o]]
        before = dict((o, open(f).read()) for o, f in outs.items() if os.path.exists(f))
        status, text = execute(CALIBRATE, args, real)
        after = dict((o, open(f).read()) for o, f in outs.items() if os.path.exists(f))
        if step['ok']:
          if status != 0:
            check.fail('calibrating fails', dict(case, step=step, output=text))
            break
          for o in step['out']:
            if o not in after or after[o] == OLD:
              check.fail('no %s output' % o, dict(case, step=step, output=text))
              break
            judge_output(check, case, o, outs[o], rec, rec.x)
            before[o] = after[o]
        elif status == 0:
          check.fail('unusable input is accepted', dict(case, step=step, output=text))
          break
        if before != after:
          check.fail('a new calibration file of a run that failed or was not asked for it', dict(case, step=step, output=text))
          break
  shutil.rmtree(work)


def equivalent(check, item):
  """With noise all ways to supply the poses still give one answer."""
  seed, = item
  rec = Recording(seed, noise=2e-4)
  work = tempfile.mkdtemp(prefix='c19_', dir=check.scratch)
  p = lambda n: os.path.join(work, n)
  ks = list(rec.common())
  hand = dict((int(round((r[0] - rec.base) / rec.dt)), r) for r in rec.hand)
  eye = dict((int(round((r[0] - rec.base - rec.offset) / rec.dt)), r) for r in rec.eye)
  save(p('B_H'), [hand[k] for k in ks])
  save(p('W_E'), [eye[k] for k in ks])
  save(p('H_B'), inverted([hand[k] for k in ks]))
  save(p('E_W'), inverted([eye[k] for k in ks]))
  case = dict(noisy=seed)
  with check.guard('noisy poses', case, 300):
    first = None
    for h in ('B_H', 'H_B'):
      for e in ('W_E', 'E_W'):
        out = p(h + e)
        status, text = execute(CALIBRATE, ['--aligned_poses_%s_csv_file' % h, p(h), '--aligned_poses_%s_csv_file' % e, p(e), '--extrinsics_output_csv_file', out])
        if status != 0:
          check.fail('calibrating noisy poses fails', dict(case, hand=h, eye=e, output=text))
          break
        got = [c for r in load(out) for c in r]
        first = first or got
        if not (differ(got, (np.array(first[:3]), np.array(first[3:]))) <= 1e-6 and differ(got, rec.x) <= 0.02):
          check.fail('calibrations of equivalent noisy poses', dict(case, hand=h, eye=e, got=got, first=first, true=list(pose_vector(rec.x))))
          break
  shutil.rmtree(work)


def lengthy(check, item):
  """Long recordings are aligned, and calibrated, as a whole."""
  seed, times, calibrated = item
  rec = Recording(seed, times=times)
  work = tempfile.mkdtemp(prefix='c19_', dir=check.scratch)
  p = lambda n: os.path.join(work, n)
  paths = dict((n, p(n + '.csv')) for n in ('B_H', 'W_E', 'offset'))
  save(p('hand.csv'), rec.hand)
  save(p('eye.csv'), rec.eye)
  case = dict(lengthy=seed, times=times, poses=len(rec.common()))
  with check.guard('long recording', case, 600):
    status, text = execute(ALIGN, ['--poses_B_H_csv_file', p('hand.csv'), '--poses_W_E_csv_file', p('eye.csv'), '--aligned_poses_B_H_csv_file', paths['B_H'],
                                   '--aligned_poses_W_E_csv_file', paths['W_E'], '--time_offset_output_csv_file', paths['offset']])
    if status != 0:
      check.fail('aligning fails', dict(case, output=text))
    elif judge_aligned(check, case, rec, paths) and calibrated:
      status, text = execute(CALIBRATE, ['--aligned_poses_B_H_csv_file', paths['B_H'], '--aligned_poses_W_E_csv_file', paths['W_E'], '--time_offset_input_csv_file', paths['offset'],
                                         '--extrinsics_output_csv_file', p('extrinsics'), '--calibration_output_json_file', p('json')])
      if status != 0:
        check.fail('calibrating fails', dict(case, output=text))
      else:
        for o in ('extrinsics', 'json'):
          judge_output(check, case, o, p(o), rec, rec.x)
  shutil.rmtree(work)


def run(check):
  poses = ['B_H', 'H_B', 'W_E', 'E_W']
  every = [set(p for i, p in enumerate(poses) if m >> i & 1) for m in range(16)]
  requests = [dict([('in', i | o), ('out', w)]) for i in every for o in (set(), {'offset'}) for w in (set(), {'extrinsics'}, {'json'}, {'extrinsics', 'json'})]
  # Nothing is asked for, or the time offset is not needed: few of these.
  requests = [r for r in requests if r['out'] or len(r['in']) == 2]
  good = [dict([('in', {h, e, 'offset'}), ('out', w)]) for h in ('B_H', 'H_B') for e in ('W_E', 'E_W') for w in ({'json'}, {'extrinsics'})]
  damages = [dict(file=f, kind=k) for f in poses for k in ('absent', 'text', 'ragged', 'short', 'empty', 'still', 'unrelated')] + \
      [dict(file='offset', kind=k) for k in ('absent', 'text', 'empty')]
  laws = ['OneAnswer', 'OnlyAsked', 'Served']
  consts = dict(Conventions='{"Hamilton", "JPL"}', Damages='{}', MaxRuns='1')
  plain = check.tlc('CommandLine', dict(consts, Requests=tla_set(requests)), invariants=laws)
  # The offset is only read for the json output, and last.
  hurt = check.tlc('CommandLine', dict(consts, Conventions='{"Hamilton"}', Damages=tla_set(damages), Requests=tla_set([r for r in good if 'json' in r['out']])), invariants=laws)
  again = check.tlc('CommandLine', dict(consts, Conventions='{"JPL"}', MaxRuns='3', Requests=tla_set(good[:6] + [r for r in requests if not r['in']] +
                    [dict([('in', {'B_H', 'H_B', 'W_E', 'offset'}), ('out', {'json'})])])), invariants=laws, simulate=200 if check.thorough else 20, depth=8, workers=2)
  # Outputs that existed or not before are no reason to repeat everything.
  seen, items = {}, []
  rng = random.Random(check.seed)
  for r in plain.records + hurt.records:
    key = json.dumps([r['raw'], r['hist']], sort_keys=True)
    seen.setdefault(key, []).append(r)
  failing = 0
  for rs in seen.values():
    failed = any(not h.get('ok', True) for h in rs[0]['hist'])
    items.append(rng.choice(rs))
    failing += failed
  if failing < 50 or len(items) - failing < 10:
    raise MachineryError('%d failing of %d' % (failing, len(items)))
  items += again.records
  todo = [(i, r, False) for i, r in enumerate(items)]
  ok = [r for r in items if all(h.get('ok', True) for h in r['hist'])]
  bad = [r for r in items if r not in ok]
  todo += [(1000 + i, r, True) for i, r in enumerate(rng.sample(ok, 6) + rng.sample(bad, 6))]
  if check.thorough:
    todo += [(2000 + 12 * k + i, r, False) for k in range(10) for i, r in enumerate(rng.sample(ok, min(12, len(ok))))]
  pmap(check, replay, todo, chunks=8)
  pmap(check, lengthy, [(check.seed * 1000 + i, t, c) for i, (t, c) in enumerate(((2, True), (3, True), (4, True), (3, True), (10, False), (20, False), (40, False), (30, False)))])
  pmap(check, equivalent, [(check.seed * 1000 + i,) for i in range(60 if check.thorough else 8)])
  check.traces += len(todo)
  check.exhaustive = True
  check.sample(ok[0])
  check.assumptions = ['recordings have stamps at multiples of a power of two, for which the estimated time offset is exact',
                       'most runs execute the programs inside the checking process, twelve as processes of their own']
