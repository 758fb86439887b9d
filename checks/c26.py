"""C26: perturbed initial guesses (spec/Spoil.tla, recorded perturbations)."""
import math
import os
import random

import numpy as np

from checks.data import pose_vector, qconj, qmul, random_pose
from checks.util import tla, tla_set
from harness import common
from harness.common import MachineryError


def micro(x):
  return int(round(float(x) * 1e6))


def run(check):
  from hand_eye_calibration.dual_quaternion import DualQuaternion
  ranges = [dict(t=[0, 1], p=[0, 2], a=[0, 1]), dict(t=[1, 2], p=[1, 1], a=[1, 2])]
  vectors = [(0, 0, 0), (1, 0, 0), (0, -1, 0), (1, 1, 1), (0, 0, 2)]
  consts = dict(Ranges=tla_set(ranges), Offsets='-2..2', Vectors=tla_set(vectors), Angles='0..2', MaxSteps='3', Recorded='<<>>', Eps='0')
  check.tlc('Spoil', consts, invariants=['ExactReport'])

  program = common.load_program(os.path.join(common.REPO, 'hand_eye_calibration_experiments', 'bin', 'optimization_experiments.py'), 'optimization_experiments')
  rad = math.radians
  grid = []
  for t in ([0., 0.], [0., 0.03], [0.21, 0.24], [1., 5.]):
    for a in ([0., rad(15.)], [rad(15.), rad(30.)], [rad(60.), rad(75.)], [rad(150.), rad(165.)], [rad(165.), rad(180.)], [0., rad(1.)]):
      for p in ([0., 0.], [0., 0.1], [0.1, 0.2], [0.9, 1.], [0., 5.]):
        grid.append((t, a, p))
  recorded, cases = [], []
  for k in range(60 if check.thorough else 12):
    for i, (t, a, p) in enumerate(grid):
      seed = check.seed * 10**6 + k * 1000 + i
      rng = random.Random(seed)
      random.seed(seed)
      np.random.seed(seed % 2**31)
      pose = random_pose(rng, max_t=2.)
      if i % 7 == 0:
        pose = (pose[0], np.array([0., 0., 0., 1.]))
      sign = rng.choice((1., -1.))
      v = pose_vector(pose)
      dq = DualQuaternion.from_pose_vector(v)
      if sign < 0.:
        dq.dq = -dq.dq
      offset = rng.choice((0., 1.5, -20., 0.003))
      keep = dq.dq.copy()
      case = dict(seed=seed, t=t, a=a, p=p)
      ta, aa, pa = list(t), list(a), list(p)
      with check.guard('perturbation', case):
        time_offset, spoiled, (dv, da, dt) = program.spoil_initial_guess(offset, dq, aa, pa, ta)
        # The calibrations as poses, computed here.
        new = np.array(spoiled.dq, dtype=float) / np.linalg.norm(spoiled.dq[:4])
        translation = 2. * qmul(new[4:], qconj(new[:4]))[:3]
        turn = qmul(new[:4], qconj(pose[1]))
        same = np.allclose(dq.dq, keep, rtol=0., atol=1e-12) or np.allclose(-dq.dq, keep, rtol=0., atol=1e-12)
        angle = 2. * math.atan2(np.linalg.norm(turn[:3]), abs(turn[3]))
        recorded.append(dict(before=dict(t=micro(offset), p=[micro(c) for c in pose[0]]), now=dict(t=micro(time_offset), p=[micro(c) for c in translation]),
                             report=dict(dt=micro(dt), v=[micro(c) for c in dv], a=micro(da)), turn=micro(angle),
                             len=micro(np.linalg.norm(translation - pose[0])), kept=bool(same) and [ta, aa, pa] == [t, a, p],
                             range=dict(t=[micro(c) for c in t], p=[micro(c) for c in p], a=[micro(c) for c in a])))
        cases.append(case)
  if check.failures:
    return
  # Corrupted records have to be rejected.
  bad = []
  for r in recorded[5:8]:
    bad.append(dict(r, kept=False))
    bad.append(dict(r, turn=r['turn'] + 50))
    bad.append(dict(r, now=dict(r['now'], t=r['now']['t'] + 50)))
    bad.append(dict(r, report=dict(r['report'], v=[r['report']['v'][0] + 50] + r['report']['v'][1:])))
    bad.append(dict(r, range=dict(r['range'], p=[3000000, 3000001])))
  res = check.tlc('Spoil', dict(consts, Recorded=tla(recorded + bad), Eps='3'), init='RInit', next_='RNext')
  verdicts = dict((v['r'], v['verdict']) for v in res.records)
  if len(verdicts) != len(recorded) + len(bad):
    raise MachineryError('%d verdicts' % len(verdicts))
  if all(verdicts[i + 1] == 'ok' for i in range(len(recorded))) and any(verdicts[len(recorded) + i + 1] == 'ok' for i in range(len(bad))):
    raise MachineryError('a corrupted record was accepted')
  for i, case in enumerate(cases):
    if verdicts[i + 1] != 'ok':
      check.fail(verdicts[i + 1], dict(case, record=recorded[i]))
  check.traces += len(recorded)
  # The perturbation is random in direction: both signs of time and all axes occur.
  signs = set((r['report']['dt'] > 0) for r in recorded if abs(r['report']['dt']) > 5)
  if len(signs) < 2:
    check.fail('time offsets are perturbed in one direction only', {})
  check.sample(recorded[0])
  check.assumptions = ['amounts are compared in millionths', 'ranges are not degenerate, apart from zero for time and translation']
