"""C23: export of transforms (spec/Export.tla)."""
import contextlib
import io
import json
import os
import random
import runpy
import subprocess
import sys
import tempfile

from checks.util import tla_set
from harness import common
from harness.common import MachineryError, pmap

PARENT = dict(base='world', cam='base', tip='cam', tool='base')
PROGRAM = os.path.join(common.REPO, 'hand_eye_calibration', 'bin', 'tf_to_csv.py')


def inside(args):
  """Runs the program in this process."""
  argv, sys.argv = sys.argv, [PROGRAM] + args
  try:
    with contextlib.redirect_stdout(io.StringIO()):
      names = runpy.run_path(PROGRAM, run_name='__main__')
  except SystemExit as e:
    if e.code not in (None, 0):
      raise Exception('exit status %s' % e.code)
    names = {}
  finally:
    sys.argv = argv
  for f in names.values():
    if isinstance(f, io.IOBase) and f not in (sys.stdin, sys.stdout, sys.stderr):
      f.close()


def names(rng):
  return rng.choice((dict(), dict(cam='/sr300_optical', base='falcon', world='map'), dict(base='cam2', cam='cam', tool='camera'),
                     dict(base='left_cam', cam='cam', tool='webcam', tip='cam_tip')))


def write_bag(path, rec, rng):
  """Groups the transforms into messages, with other messages between them.  Returns nanoseconds per stamp."""
  start, tick = rng.choice(((10**9, 10**7), (1478863584123456789, 33333333), (1478863584000000000, 500 * 10**9), (5 * 10**9, 10**6)))
  if max(m['at'] for m in rec['msgs'] or [dict(at=0)]) * tick > 3500 * 10**9:
    tick = 5 * 10**9
  rename = names(rng)
  lines, group, t = [], [], start
  for i, m in enumerate(rec['msgs']):
    values = [rng.uniform(-1., 1.) for _ in range(3)] + [0., 0., 0.6, 0.8]
    group.append(dict(parent=rename.get(PARENT[m['child']], PARENT[m['child']]), child=rename.get(m['child'], m['child']), ns=start + m['at'] * tick, values=values))
    if i + 1 == len(rec['msgs']) or rng.random() < 0.6:
      lines.append(dict(topic='/tf', t=t, transforms=group))
      group = []
      for _ in range(rng.randrange(3)):
        lines.append(rng.choice((dict(topic='/tf', t=t, transforms=[]), dict(topic='/camera/image_raw', t=t, transforms=None), dict(topic='/clock', t=t, transforms=None))))
    t += rng.randrange(1, 10**6)
  with open(path, 'w') as f:
    for line in lines:
      f.write(json.dumps(line) + '\n')
  return start, tick, rename


def judge(check, case, path, rec, start, tick, target, source):
  import rospy
  import tf
  with open(path) as f:
    got = [[float(c) for c in line.split(',')] for line in f]
  want = []
  for at in rec['rows']:
    stamp = rospy.Time(0, start + at * tick)
    t, q = tf.code(target, source, stamp.to_nsec())
    want.append([stamp.to_sec()] + list(t) + list(q))
  if [r[:1] for r in got] != [r[:1] for r in want]:
    return check.fail('exported stamps', dict(case, got=got, want=want))
  for g, w in zip(got, want):
    if len(g) != 8 or not all(abs(a - b) <= 1e-12 * max(1., abs(b)) for a, b in zip(g, w)):
      return check.fail('exported transform', dict(case, got=g, want=w))


def replay(check, item):
  seed, rec, in_process = item
  rng = random.Random(seed)
  work = tempfile.mkdtemp(prefix='c23_', dir=check.scratch)
  bag, out = os.path.join(work, 'a.bag'), os.path.join(work, 'out.csv')
  start, tick, rename = write_bag(bag, rec, rng)
  target, source = [rename.get(rec['query'][k], rec['query'][k]) for k in ('target', 'source')]
  case = dict(seed=seed, rec=rec, start=start, tick=tick)
  if seed % 4 == 1:
    # A file left by an earlier export.
    with open(out, 'w') as f:
      f.write('1.5,2.0,0.0,0.0,0.0,0.0,0.0,1.0\n' * rng.choice((1, 30, 2000)))
  with check.guard('export', case):
    args = ['--bag', bag, '--tf_source_frame', source, '--tf_target_frame', target, '--csv_output_file', out]
    if in_process:
      inside(args)
    else:
      p = subprocess.run([common.PYTHON, PROGRAM] + args, env=common.repo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
      if p.returncode != 0:
        return check.fail('exit status %d' % p.returncode, dict(case, output=p.stdout.decode()[-600:]))
    judge(check, case, out, rec, start, tick, target, source)
  for f in (bag, out):
    if os.path.exists(f):
      os.unlink(f)
  os.rmdir(work)


def long_recording(rng, n):
  """Frames at different rates, some stamps late or repeated."""
  out, at = [], 1
  for i in range(n):
    out.append(dict(child='cam' if rng.random() < 0.6 else rng.choice(('base', 'tool')), at=max(1, at - rng.choice((0,) * 8 + (1, 3)))))
    at += rng.choice((0, 1, 1, 1, 2))
  return out


def run(check):
  laws = ['Increasing', 'Complete', 'OwnTime']
  pairs = [dict(target=t, source='cam') for t in ('base', 'world', 'tool', 'nowhere')] + [dict(target='cam', source='base')]
  small = check.tlc('Export', dict(Children='{"cam", "base"}', Stamps='1..3', MaxTransforms='4', Queries=tla_set(pairs[:2]), Recordings='{}'), invariants=laws)
  check.exhaustive = True
  other = check.tlc('Export', dict(Children='{"cam", "base", "tool", "tip"}', Stamps='1..2', MaxTransforms='3', Queries=tla_set(pairs), Recordings='{}'), invariants=laws)
  long = check.tlc('Export', dict(Children='{"cam", "base", "tool"}', Stamps='1..5', MaxTransforms='14', Queries=tla_set(pairs), Recordings='{}'), invariants=laws,
                   simulate=3000 if check.thorough else 300, depth=34, workers=4)
  longer = check.tlc('Export', dict(Children='{}', Stamps='{}', MaxTransforms='0', Queries=tla_set(pairs[:3]),
                                    Recordings=tla_set([long_recording(check.rng, n) for n in (60, 150, 400)])), invariants=laws, init='GInit')
  if max(len(r['rows']) for r in longer.records) < 120:
    raise MachineryError('no long exports')
  records = small.records + other.records + long.records + longer.records
  seen = set(o for r in records for o in r['outcome'])
  if seen != {'written', 'missing', 'repeated'}:
    raise MachineryError('outcomes %r' % seen)
  late = [r for r in records if 'missing' in r['outcome'] and 'written' in r['outcome']]
  items = [(check.seed * 10**6 + i, r, True) for i, r in enumerate(records)]
  items += [(check.seed * 10**6 + 500000 + i, r, False) for i, r in enumerate(late[:4] + small.records[-4:] + long.records[-8:] + late[-8:])]
  pmap(check, replay, items)
  check.traces += len(items)
  check.sample(max(records, key=lambda r: len(r['rows'])))
  check.assumptions = ['rosbag, rospy and tf are stand-ins; the stand-in transformer finds a transform if every frame on the way has data before and after the stamp',
                       'stamps differ by at least a millisecond or not at all, recordings are shorter than an hour']
