"""Confirms a planted bug in a scratch copy of /repo: applies, builds, passes the
stable tests, and its demonstration passes without and fails with it.

  seed.py check <id>...      seed.py new <id> <property> <file with edits>
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')


def sh(cmd, cwd, timeout=300):
  try:
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=timeout)
    return p.returncode, p.stdout
  except subprocess.TimeoutExpired:
    return 124, 'timeout'


def tests_pass(copy):
  """The two stable test files of BASELINE.json."""
  code, out = sh('PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s/hand_eye_calibration/python /opt/venv/bin/python -m pytest -q -p no:cacheprovider '
                 'hand_eye_calibration/test/test_quaternion.py hand_eye_calibration/test/test_dual_quaternion.py' % copy, copy)
  return code == 0, out


def check(sid, quiet=False):
  d = os.path.join(SEEDED, sid)
  work = tempfile.mkdtemp(prefix='seed_')
  try:
    copy = os.path.join(work, 'repo')
    shutil.copytree('/repo', copy, symlinks=True)
    demo = os.path.join(work, 'demo')
    shutil.copytree(d, demo)
    for f in ('patch.diff', 'meta.json'):
      os.remove(os.path.join(demo, f))
    code, out = sh('bash %s/demo.sh' % demo, copy)
    if code != 0:
      return 'demo fails on the unchanged tree (%s): %s' % (code, out[-1500:])
    code, out = sh('git apply %s/patch.diff' % d, copy)
    if code != 0:
      return 'patch does not apply: ' + out
    code, out = sh('/opt/venv/bin/python -m compileall -q hand_eye_calibration hand_eye_calibration_experiments', copy)
    if code != 0:
      return 'does not compile: ' + out
    ok, out = tests_pass(copy)
    if not ok:
      return 'tests fail: ' + out[-1500:]
    code, out = sh('bash %s/demo.sh' % demo, copy)
    if code == 0:
      return 'demo passes with the patch'
    if not quiet:
      print(sid, 'demo with patch: exit', code, '|', ' / '.join(out.strip().splitlines()[-2:])[:300])
    return None
  finally:
    shutil.rmtree(work)


if __name__ == '__main__':
  bad = 0
  for sid in sys.argv[1:] or sorted(os.listdir(SEEDED)):
    why = check(sid)
    print(sid, 'OK' if why is None else 'BAD: ' + why)
    bad += why is not None
  sys.exit(bad > 0)
