"""C18: calibration files and composition (spec/Calibration.tla)."""
import json
import os
import random
import tempfile

import numpy as np

from checks.util import close, dq_of, motion, motion_pose, off, same_rotation, tla, unit
from harness.common import pmap

TICKS = [1. / 64., 0.1, 1.2345e-10, 1048576.5]


def is_motion(dq, m, tol=1e-9):
  """The dual quaternion, of any scale, stands for the motion."""
  v = np.array(dq.dq, dtype=float)
  v = v / np.linalg.norm(v[:4])
  want = motion_pose(m)
  t = 2. * np.array(_mul(v[4:], _conj(v[:4])))[:3]
  return close(t, want[:3], tol) and same_rotation(v[:4], want[3:], tol)


def _conj(q):
  return [-q[0], -q[1], -q[2], q[3]]


def _mul(a, b):
  v = a[3] * np.array(b[:3]) + b[3] * np.array(a[:3]) + np.cross(a[:3], b[:3])
  return list(v) + [a[3] * b[3] - np.dot(a[:3], b[:3])]


def rewrite(path):
  """The same contents as another program may write them."""
  def other(v):
    if isinstance(v, dict):
      return dict((k, other(v[k])) for k in sorted(v, reverse=True))
    return int(v) if v == int(v) else v
  with open(path) as f:
    data = json.load(f)
  with open(path, 'w') as f:
    json.dump(other(data), f)


def replay(check, item):
  from hand_eye_calibration.dual_quaternion import DualQuaternion
  from hand_eye_calibration.extrinsic_calibration import ExtrinsicCalibration
  from hand_eye_calibration.quaternion import Quaternion
  seed, hist = item
  tick = TICKS[seed % len(TICKS)]
  # Representations: the JSON writer has to cope with sign and scale.
  k = ((1., 1.), (-1., 1.), (1., -1.), (-1., -1.), (2.5, 1.), (0.4, -1.7))[seed // 4 % 6]
  path = os.path.join(check.scratch, 'c18_%d_%d.json' % (os.getpid(), seed))
  case = dict(seed=seed, hist=hist, tick=tick, k=k)
  first = hist[0]
  regs = dict((n, ExtrinsicCalibration(first[n]['d'] * tick, dq_of(first[n]['m'], DualQuaternion, Quaternion, k[i]))) for i, n in enumerate('xy'))
  try:
    for e in hist[1:]:
      with check.guard(e['op'], case):
        if e['op'].startswith('store'):
          r = regs[e['op'][-1].lower()]
          if e['switch']:
            r.writeJson(path, switchConvention=True)
          else:
            r.writeJson(path)
          if seed % 5 == 3:
            rewrite(path)
        elif e['op'].startswith('load'):
          regs[e['op'][-1].lower()] = ExtrinsicCalibration.fromJson(path, e['switch']) if e['switch'] or seed % 2 else ExtrinsicCalibration.fromJson(path)
        elif e['op'] == 'square':
          regs['x'] = regs['x'] * regs['x']
        elif e['op'].startswith('mul'):
          regs[e['op'][-1].lower()] = regs['x'] * regs['y']
        else:
          if not isinstance(str(regs['x']) + str(regs['y']), str):
            check.fail('show', case)
        for n in 'xy':
          d = e[n]['d'] * tick
          if off(float(regs[n].time_offset), d, 1e-12 * max(1., abs(d))):
            check.fail('time offset of %s after %s' % (n, e['op']), dict(case, got=regs[n].time_offset, want=d))
          if not is_motion(regs[n].pose_dq, e[n]['m']):
            check.fail('transform of %s after %s' % (n, e['op']), dict(case, got=list(regs[n].pose_dq.dq), want=e[n]))
        if e['file']['there']:
          with open(path) as f:
            data = json.load(f)
          want = motion_pose(e['file']['m'])
          q = [data['rotation'][c] for c in 'ijkw']
          if off(data['delay'], e['file']['d'] * tick, 1e-12 * max(1., abs(e['file']['d'] * tick))):
            check.fail('delay in the file', dict(case, got=data))
          if not close([data['translation'][c] for c in 'xyz'], want[:3], 1e-9):
            check.fail('translation in the file', dict(case, got=data))
          if not same_rotation(q, want[3:], 1e-9):
            check.fail('rotation in the file', dict(case, got=data))
      if check.enough():
        break
  finally:
    if os.path.exists(path):
      os.remove(path)
  check.traces += 1


def run(check):
  cal = lambda d, *m: dict(d=d, m=motion(*m))
  pool = [cal(0, (0, 0, 0, 1)), cal(3, (0, 0, 0, 1), (1, -2, 3), 2), cal(-5, (1, 0, 0, 1), (0, 1, 0)), cal(7, (1, 2, -2, 4), (3, 1, -1), 4),
          cal(-1, (0, 1, 0, 0), (2, 2, -1)), cal(2, (1, -1, 1, -3), (-1, 0, 5), 3), cal(11, (3, 4, 0, 0), (1, 1, 1)), cal(-2, (-1, -1, 1, 1), (-7, 2, 4), 5)]
  pairs = [(pool[i], pool[j]) for i in range(len(pool)) for j in range(len(pool)) if (i + 3 * j) % (1 if check.thorough else 3) == 0]
  hists = check.tlc('Calibration', dict(Pairs='{%s}' % ', '.join(tla(p) for p in pairs), MaxOps='3', Limit='40'),
                    invariants=['RoundTrip', 'OneSided', 'Group']).records
  hists += check.tlc('Calibration', dict(Pairs='{%s}' % ', '.join(tla(p) for p in pairs[::8]), MaxOps='4', Limit='40'),
                     invariants=['RoundTrip', 'OneSided', 'Group']).records
  if check.thorough:
    hists += check.tlc('Calibration', dict(Pairs='{%s}' % ', '.join(tla(p) for p in pairs[::16]), MaxOps='5', Limit='40'),
                       invariants=['RoundTrip', 'OneSided', 'Group']).records
  check.require_ops([e['op'] for h in hists for e in h], ['storeX', 'storeY', 'loadX', 'loadY', 'mulX', 'mulY', 'square', 'show'])
  hists.sort(key=str)
  check.log('%d histories' % len(hists))
  pmap(check, replay, list(enumerate(hists)))
  check.exhaustive = True
  check.sample(hists[0])
