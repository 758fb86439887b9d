"""C09: prefiltering by screw axes (spec/Prefilter.tla)."""
import math

import numpy as np

from checks.util import tla, tla_set
from harness.common import pmap


def pose_with_axis(v, i, variant, DualQuaternion, Quaternion):
  """A motion with screw axis v. Its angle and translation vary."""
  v = np.array(v, dtype=float)
  n = np.linalg.norm(v)
  if n == 0.:
    q, t = np.array([0., 0., 0., 1. if (i + variant) % 2 else -1.]), np.zeros(3)
  elif (i + variant) % 3 == 1:
    q, t = np.array([0., 0., 0., 1. if variant < 2 else -1.]), v * (0.1, 1e-3, 30.)[i % 3]
  else:
    angle = math.radians((20. + 50. * i + 35. * variant) % 350. + 2.)
    if (i + variant) % 4 == 2:
      angle = math.radians(0.5)
    q = np.append(v / n * math.sin(angle / 2.), math.cos(angle / 2.))
    t = np.array([0.3, -0.1 * i, 0.2]) * variant
  dual = (Quaternion(t[0], t[1], t[2], 0.) * Quaternion(q=q)) * 0.5
  return DualQuaternion(Quaternion(q=q), dual)


def replay(check, e):
  from hand_eye_calibration.dual_quaternion import DualQuaternion
  from hand_eye_calibration.dual_quaternion_hand_eye_calibration import prefilter_using_screw_axis
  from hand_eye_calibration.quaternion import Quaternion
  if e['tie']:
    check.count('equal to the threshold')
    return
  check.traces += 1
  thr = e['thr'][0] / float(e['thr'][1])
  kept = [i - 1 for i in e['kept']]
  for variant in range(3):
    a = [pose_with_axis(p[0], i, variant, DualQuaternion, Quaternion) for i, p in enumerate(e['seen'])]
    b = [pose_with_axis(p[1], i, (variant + 1) % 3, DualQuaternion, Quaternion) for i, p in enumerate(e['seen'])]
    saved = [x.dq.copy() for x in a], [x.dq.copy() for x in b]
    case = dict(threshold=thr, poses=e['seen'], kept=kept, variant=variant)
    refused = False
    result = None
    try:
      if thr == 0.95 and variant == 1:
        result = prefilter_using_screw_axis(a, b)
      else:
        result = prefilter_using_screw_axis(a, b, thr)
    except Exception as ex:
      refused = True
      error = ex
    if len(kept) < 2:
      check.count('refused')
      if not refused:
        check.fail('fewer than two pairs are not refused', dict(case, got=[[list(x.dq) for x in r] for r in result]))
      continue
    if refused:
      check.fail('refused: %s %s' % (type(error).__name__, str(error)[:200]), case)
      continue
    check.count('filtered')
    out_a, out_b = result
    if len(out_a) != len(kept) or len(out_b) != len(kept):
      check.fail('number of kept pairs', dict(case, got=[len(out_a), len(out_b)]))
      continue
    for n, i in enumerate(kept):
      if not (np.array_equal(out_a[n].dq, saved[0][i]) and np.array_equal(out_b[n].dq, saved[1][i])):
        check.fail('kept pair', dict(case, position=n, got=[list(out_a[n].dq), list(out_b[n].dq)],
                                     want=[list(saved[0][i]), list(saved[1][i])]))
        break
    if len(a) != len(saved[0]) or len(b) != len(saved[1]) or not all(
            np.array_equal(x.dq, y) for x, y in zip(a + b, saved[0] + saved[1])):
      check.fail('input changed', case)


def extended(e, total, stretch):
  """The same with every pair many times, in a row or all over again: the repetitions are dropped."""
  m = max(1, total // max(1, len(e['seen'])))
  if not stretch:
    return dict(e, seen=e['seen'] * m)
  return dict(e, seen=[p for p in e['seen'] for _ in range(m)], kept=[(i - 1) * m + 1 for i in e['kept']])


def run(check):
  x, y, z, o = (1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, 0)
  near = (1, 0, 10)        # 0.995 with z
  mid = (0, 3, 4)          # 0.8 with z
  back = (0, 0, -1)
  far = (-1, 0, 4)
  items = [(x, x), (z, z), (near, z), (z, near), (mid, y), (back, z), (z, o), (o, z), (y, mid), (far, near)]
  if check.thorough:
    items += [(near, near), (o, o), (x, back), ((1, 1, 1), far), ((2, 1, 1), (1, 1, 2))]
  thresholds = [(19, 20), (39, 40), (1, 2), (0, 1), (49, 50)]
  res = check.tlc('Prefilter', dict(Items=tla_set(items), Thresholds=tla_set(thresholds[:4 if not check.thorough else 5]),
                                    MaxLen='4'),
                  invariants=['Subsequence', 'Distinct', 'Maximal'])
  records = res.records
  check.exhaustive = True
  # Longer sequences.
  res = check.tlc('Prefilter', dict(Items=tla_set(items), Thresholds=tla_set(thresholds), MaxLen='12'),
                  simulate=4000 if check.thorough else 800, depth=16, workers=1)
  records += res.records
  check.sample(records[-1])
  pmap(check, replay, records)
  some = check.rng.sample([e for e in records if len(e['kept']) > 1], 400 if check.thorough else 120)
  longer = [extended(e, (20, 45, 90, 160)[i % 4], i % 2) for i, e in enumerate(some)]
  check.count('long trajectories', len(longer))
  pmap(check, replay, longer)
  for name in ('refused', 'filtered'):
    if not check.details.get(name) and not check.failures:
      raise Exception('never seen: ' + name)
  check.assumptions = ['dot products equal to the threshold up to rounding are not judged']
