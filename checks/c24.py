"""C24: batch export (spec/Batch.tla, commands issued by the real programs)."""
import json
import os
import random
import shutil
import subprocess
import tempfile

import yaml

from checks.util import tla_set
from harness import common
from harness.common import MachineryError, pmap

BIN = os.path.join(common.REPO, 'hand_eye_calibration', 'bin')
ROSRUN = '''#!/bin/sh
n=$(cat "$ROSRUN_LOG" | grep -c "^BEGIN$")
n=$((n + 1))
{ echo BEGIN; for a in "$@"; do printf '%%s\\n' "$a"; done; echo END; } >> "$ROSRUN_LOG"
for f in $ROSRUN_FAIL; do if [ "$f" = "$n" ]; then exit 3; fi; done
if [ -n "$ROSRUN_REAL" ] && [ "$1" = hand_eye_calibration ]; then
  p=$2; shift; shift
  exec %s "$ROSRUN_REAL/$p" "$@"
fi
exit 0
'''


def commands(log):
  out, current = [], None
  with open(log) as f:
    for line in f.read().split('\n'):
      if line == 'BEGIN':
        current = []
      elif line == 'END':
        out.append(current)
        current = None
      elif current is not None:
        current.append(line)
  return out


def options(command):
  """(package, program, options); both '--a b' and '--a=b' are understood."""
  opts, rest = {}, command[2:]
  while rest:
    a = rest.pop(0)
    if not a.startswith('--'):
      opts.setdefault('', []).append(a)
    elif '=' in a:
      k, v = a[2:].split('=', 1)
      opts[k] = v
    elif rest and not rest[0].startswith('--'):
      opts[a[2:]] = rest.pop(0)
    else:
      opts[a[2:]] = 'true'
  return command[0], command[1], opts


def configuration(rec, rng):
  bags = []
  for b, spec in enumerate(rec['cfg']):
    bag = {b + 1: None, 'name': rng.choice(('run_%d.bag', 'h_e-2017-%d.bag', '%d_falcon merged.bag', '%d')) % b,
           'bag_path': rng.choice(('/data/', '/data/Google Drive/', '')), 'intrinsics_path': '/calib%d/' % b, 'target_config_path': '/targets%d/' % b,
           'target': 'target_%d.yaml' % rng.randrange(100, 1000)}
    f, c = spec['frames'], spec['cameras']
    bag['tf_frames'] = None if f['k'] < 0 else dict(source=['cam%d%d' % (b, i) for i in range(f['k'])], target=['world%d%d' % (b, i) for i in range(f['l'])])
    bag['cameras'] = None if c['k'] < 0 else dict(cam_topics=['/falcon%d/color%d/image' % (b, i) for i in range(c['k'])],
                                                  cam_intrinsics=['intr_%d%d.yaml' % (b, i) for i in range(c['l'])])
    if bag['tf_frames'] and rng.random() < 0.3 and f['k'] == f['l'] > 1:
      bag['tf_frames']['target'] = [bag['tf_frames']['target'][0]] * f['l']
    bags.append(bag)
  return bags


def expected(bags, cmd):
  bag = bags[cmd['bag'] - 1]
  i = cmd['item'] - 1
  stem = bag['name'].split('.')[0]
  if cmd['section'] == 'frames':
    s, t = bag['tf_frames']['source'][i], bag['tf_frames']['target'][i]
    return 'hand_eye_calibration', 'tf_to_csv.py', dict(bag=bag['bag_path'] + bag['name'], tf_source_frame=s, tf_target_frame=t,
                                                        csv_output_file='%s_%s_%s.csv' % (stem, t, s))
  topic, intr = bag['cameras']['cam_topics'][i], bag['cameras']['cam_intrinsics'][i]
  return 'hand_eye_calibration', 'target_extractor_interface.py', dict(
      bag=bag['bag_path'] + bag['name'], image_topic=topic, calib_file_camera=bag['intrinsics_path'] + intr,
      calib_file_target=bag['target_config_path'] + bag['target'], output_file='%s_W_%s.csv' % (stem, topic[1:].replace('/', '_')))


def setup(check, prefix):
  work = tempfile.mkdtemp(prefix=prefix, dir=check.scratch)
  os.mkdir(os.path.join(work, 'path'))
  script = os.path.join(work, 'path', 'rosrun')
  with open(script, 'w') as f:
    f.write(ROSRUN % common.PYTHON)
  os.chmod(script, 0o755)
  log = os.path.join(work, 'log')
  open(log, 'w').close()
  env = common.repo_env()
  env.update(PATH=os.path.join(work, 'path') + os.pathsep + os.environ.get('PATH', '/usr/bin:/bin'), ROSRUN_LOG=log, ROSRUN_FAIL='', ROSRUN_REAL='')
  return work, log, env


def replay(check, item):
  seed, rec = item
  rng = random.Random(seed)
  bags = configuration(rec, rng)
  work, log, env = setup(check, 'c24_')
  config = os.path.join(work, 'config.yaml')
  with open(config, 'w') as f:
    yaml.safe_dump(dict(bags=bags), f)
  env['ROSRUN_FAIL'] = ' '.join(str(i) for i in rec['fails'])
  case = dict(seed=seed, rec=rec)
  with check.guard('batch', case):
    p = subprocess.run([common.PYTHON, os.path.join(BIN, 'bag_to_csv_with_config.py'), '--yaml_config_file', config], env=env, cwd=work,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    got = [options(c) for c in commands(log)]
    want = [expected(bags, c) for c in rec['issued']]
    if rec['status'] == 'done':
      if p.returncode != 0:
        check.fail('a valid configuration ends with status %d' % p.returncode, dict(case, output=p.stdout.decode()[-600:]))
      elif got != want:
        check.fail('commands', dict(case, got=got, want=want))
    else:
      if p.returncode == 0:
        check.fail('unequal lists are accepted', dict(case, got=got))
      elif got != want[:len(got)]:
        check.fail('commands before the refusal', dict(case, got=got, want=want))
  shutil.rmtree(work)


def target(check, item):
  """The target extraction command."""
  seed, = item
  rng = random.Random(seed)
  work, log, env = setup(check, 'c24_')
  board = dict(april_tag_number_vertical=rng.choice((0, 1, 4, 5, 9, 12, 200)), april_tag_number_horizontal=rng.choice((2, 6, 7, 11, 128)), april_tag_number_pixel_boarder=rng.choice((0, 1, 2)),
               april_tag_size_m=rng.choice((0.055, 0.083, 1, 0.03175, 0.2, 12.5)), april_tag_gap_size_m=(0.0165, 0, 0.0249, 0.0001, 0., 2)[seed % 6])
  calib = os.path.join(work, 'target.yaml')
  with open(calib, 'w') as f:
    keys = list(board)
    rng.shuffle(keys)
    for k in keys:
      f.write('%s: %r\n' % (k, board[k]))
  bag, cam, topic, out = '/data/a b/run_%d.bag' % seed, '/calib/cam%d.yaml' % seed, '/falcon/image_%d' % seed, 'run_%d_W_image.csv' % seed
  case = dict(seed=seed, board=board)
  with check.guard('target extraction', case):
    p = subprocess.run([common.PYTHON, os.path.join(BIN, 'target_extractor_interface.py'), '--bag', bag, '--calib_file_camera', cam, '--calib_file_target', calib,
                        '--image_topic', topic, '--output_file', out], env=env, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    got = [options(c) for c in commands(log)]
    if p.returncode != 0 or len(got) != 1:
      return check.fail('one target extraction', dict(case, got=got, status=p.returncode, output=p.stdout.decode()[-600:]))
    package, program, opts = got[0]
    if (package, program) != ('hand_eye_calibration_target_extractor', 'target_extractor'):
      return check.fail('target extraction program', dict(case, got=got))
    want = dict(bag=bag, topic=topic, eval_camera_yaml=cam, camera_pose_T_C_G_output_file_timestamped=out)
    numbers = dict(april_tag_number_vertical=board['april_tag_number_vertical'], april_tag_number_horizontal=board['april_tag_number_horizontal'],
                   april_tag_size_m=board['april_tag_size_m'], april_tag_pixel_boarder=board['april_tag_number_pixel_boarder'],
                   april_tag_gap_size_m=board['april_tag_gap_size_m'])
    if any(opts.get(k) != v for k, v in want.items()) or any(k not in opts or float(opts[k]) != v for k, v in numbers.items()):
      return check.fail('target extraction arguments', dict(case, got=got))
    if opts.get('camera_pose_T_C_G_output_file') in (None, out):
      return check.fail('the two outputs of the extraction share a file', dict(case, got=got))
  shutil.rmtree(work)


def through(check, item):
  """The commands of the batch are accepted by the programs they start."""
  from checks import c23
  seed, rec = item
  rng = random.Random(seed)
  work, log, env = setup(check, 'c24_')
  env['ROSRUN_REAL'] = BIN
  bag = os.path.join(work, 'run.bag')
  msgs = [dict(child=c, at=t) for t in (1, 2, 3) for c in ('base', 'cam')]
  start, tick, rename = c23.write_bag(bag, dict(msgs=msgs), rng)
  name = lambda n: rename.get(n, n)
  with open(os.path.join(work, 'target.yaml'), 'w') as f:
    f.write('april_tag_number_vertical: 6\napril_tag_number_horizontal: 7\napril_tag_number_pixel_boarder: 2\napril_tag_size_m: 0.055\napril_tag_gap_size_m: 0.0165\n')
  config = os.path.join(work, 'config.yaml')
  frames = [('cam', 'base'), ('base', 'world'), ('cam', 'world')]
  with open(config, 'w') as f:
    yaml.safe_dump(dict(bags=[dict(name='run.bag', bag_path=work + '/', intrinsics_path='/calib/', target_config_path=work + '/', target='target.yaml',
                                   tf_frames=dict(source=[name(s) for s, _ in frames], target=[name(t) for _, t in frames]),
                                   cameras=dict(cam_topics=['/a/b', '/c'], cam_intrinsics=['i.yaml', 'j.yaml']))]), f)
  case = dict(seed=seed)
  with check.guard('batch with programs', case):
    p = subprocess.run([common.PYTHON, os.path.join(BIN, 'bag_to_csv_with_config.py'), '--yaml_config_file', config], env=env, cwd=work,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    if p.returncode != 0:
      return check.fail('a valid configuration ends with status %d' % p.returncode, dict(case, output=p.stdout.decode()[-600:]))
    for s, t in frames:
      out = os.path.join(work, ('run_%s_%s.csv' % (name(t), name(s))))
      if '/' in name(s) + name(t):
        continue
      if not os.path.exists(out):
        return check.fail('no export of %s in %s' % (s, t), dict(case, output=p.stdout.decode()[-600:]))
      c23.judge(check, case, out, dict(rows=[1, 2, 3]), start, tick, name(t), name(s))
    got = [options(c) for c in commands(log)]
    extractions = [o for package, program, o in got if package == 'hand_eye_calibration_target_extractor']
    if [(o.get('topic'), o.get('eval_camera_yaml'), o.get('april_tag_number_horizontal')) for o in extractions] != [('/a/b', '/calib/i.yaml', '7'), ('/c', '/calib/j.yaml', '7')]:
      return check.fail('target extractions of the batch', dict(case, got=got))
  shutil.rmtree(work)


def run(check):
  sections = [dict(k=-1, l=-1)] + [dict(k=k, l=l) for k in range(3) for l in range(3)]
  single = [[dict(frames=f, cameras=c)] for f in sections for c in sections]
  equal = [s for s in sections if s['k'] == s['l']]
  rng = random.Random(check.seed)
  pool = [dict(frames=f, cameras=c) for f in equal + [dict(k=3, l=3)] for c in equal + [dict(k=3, l=3)]]
  several = [[rng.choice(pool) for _ in range(n)] for n in (2, 3) for _ in range(400 if check.thorough else 50)]
  big = [dict(k=k, l=k) for k in (0, 5, 9, 12, 26)]
  several += [[dict(frames=rng.choice(big), cameras=rng.choice(big)) for _ in range(n)] for n in (1, 2, 5, 9, 14) for _ in range(8 if check.thorough else 2)]
  broken = [[rng.choice(pool), rng.choice(pool)] for _ in range(200 if check.thorough else 30)]
  for b in broken:
    b[rng.randrange(2)] = dict(frames=rng.choice(sections), cameras=rng.choice(sections))
  laws = ['Once', 'Complete', 'Refused', 'InOrder']
  res = check.tlc('Batch', dict(Configurations=tla_set(single + several + broken + [[]]), Failing='{{}}'), invariants=laws, spec='Spec', properties=['Ends'])
  fail = check.tlc('Batch', dict(Configurations=tla_set(several[:12]), Failing='{{1}, {2, 3}, {1, 2, 3, 4, 5}}'), invariants=laws, spec='Spec', properties=['Ends'])
  check.exhaustive = True
  # Deciding fairness evaluates actions more than once.
  records = list({json.dumps(r, sort_keys=True): r for r in res.records + fail.records}.values())
  if set(r['status'] for r in records) != {'done', 'refused'}:
    raise MachineryError('outcomes')
  pmap(check, replay, list(enumerate(records, check.seed * 10**6)))
  pmap(check, target, [(check.seed * 1000 + i,) for i in range(100 if check.thorough else 20)])
  pmap(check, through, [(check.seed * 1000 + i, None) for i in range(20 if check.thorough else 6)])
  check.traces += len(records)
  check.sample(records[-1])
  check.assumptions = ['rosrun is a stand-in that records the command', 'bag names have at most one dot; output names are those documented by the code (bag, frames or topic)']
