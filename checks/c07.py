"""C07: the solver recovers the transform (spec/HandEye.tla)."""
import itertools

import numpy as np

from checks.util import close, compose, dq_of, inverted, motion, motion_pose, nudged, off, pose_is, tla_set
from harness.common import MachineryError, pmap

# Relative motions with rotations below a half turn.
MOTIONS = [motion((1, 0, 0, 1), (1, 0, 2)), motion((0, 1, 0, 1), (0, 1, -1)), motion((0, 0, 1, 1), (3, 0, 0)), motion((0, -1, 0, 1), (0, 0, 0)),
           motion((1, 1, 1, 1), (0, -2, 1)), motion((-1, 1, 1, 1), (1, 1, 0)), motion((1, 0, 0, 2), (0, 2, 0)), motion((0, 0, 1, -3), (1, 2, 3)),
           motion((1, 2, 0, 2), (-1, 0, 1)), motion((0, 0, 0, 1), (1, -1, 2)), motion((0, 0, 0, 1), (0, 0, 0))]
XS = [(0, 0, 0, 1), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (1, 0, 0, 1), (0, -1, 0, 1), (0, 0, 1, 1), (1, 1, 0, 0), (0, 1, -1, 0),
      (1, 1, 1, 1), (-1, 1, -1, 1), (1, -1, 1, 1), (1, 2, 3, 4), (3, -1, 2, 1), (2, 0, 0, 1), (1, 1, 0, 3)]
XT = [(0, 0, 0), (1, -2, 3), (0, 0, -5)]


def vectors(e, signs_h, signs_e, k):
  from hand_eye_calibration.dual_quaternion import DualQuaternion
  from hand_eye_calibration.quaternion import Quaternion

  def scaled(m, s):
    dq = dq_of(m, DualQuaternion, Quaternion, s)
    dq.dq[4:] *= k
    return dq
  return ([scaled(m, s) for m, s in zip(e['hand'], signs_h)], [scaled(m, s) for m, s in zip(e['eye'], signs_e)])


def check_result(check, dq, x, k, case, tol=1e-6):
  want = motion_pose(x)
  want[:3] *= k
  if not close(np.linalg.norm(dq.dq[:4]), 1., 1e-9):
    check.fail('result is not normalized', dict(case, got=list(dq.dq)))
    return
  if not dq.dq[3] >= -1e-12:
    check.fail('negative scalar part', dict(case, got=list(dq.dq)))
    return
  if off(np.dot(dq.dq[:4], dq.dq[4:]), 0., 1e-6 * max(1., k)):
    check.fail('result is not a rigid motion', dict(case, got=list(dq.dq)))
    return
  pose = dq.copy().to_pose()
  err_t = np.linalg.norm(pose[:3] - want[:3])
  err_r = min(np.linalg.norm(pose[3:] - want[3:]), np.linalg.norm(pose[3:] + want[3:]))
  if not (err_t <= tol * max(1., k) and err_r <= tol):
    check.fail('recovered transform', dict(case, got=list(pose), want=list(want)))


def replay(check, item):
  i, e = item
  from hand_eye_calibration.dual_quaternion_hand_eye_calibration import compute_hand_eye_calibration
  check.traces += 1
  n = len(e['hand'])
  ones = [1.] * n
  alt = [1.] + [(-1.) ** i for i in range(1, n)]
  neg = [1.] + [-1.] * (n - 1)
  variants = ((ones, alt, 0.0625), (alt, neg, 1.), (neg, neg, 0.25), (neg, ones, 16.), (alt, ones, 1024.), (ones, neg, 1.))
  if not check.thorough and n < 4:
    variants = [variants[(i + j) % 6] for j in (0, 1, 3)]
  for (sh, se, k) in ((ones, ones, 1.),) + tuple(variants):
    case = dict(x=e['x'], hand=e['hand'], signs=[sh, se], scale=k)
    with check.guard('calibration', case):
      hand, eye = vectors(e, sh, se, k)
      dq, s, bad = compute_hand_eye_calibration(hand, eye)
      check_result(check, dq, e['x'], k, case)
    with check.guard('calibration with tolerance', case):
      if k == 1.:
        hand, eye = vectors(e, sh, se, k)
        # Order of the poses (the reference stays first) does not matter.
        order = [0] + list(range(n - 1, 0, -1))
        dq, s, bad = compute_hand_eye_calibration([hand[i] for i in order], [eye[i] for i in order], 4e-2)
        check_result(check, dq, e['x'], k, dict(case, order=order))
    if check.enough():
      return


def next_to_half_turn(check, e):
  """Transforms turned a little out of a half turn."""
  from hand_eye_calibration.dual_quaternion import DualQuaternion
  from hand_eye_calibration.dual_quaternion_hand_eye_calibration import compute_hand_eye_calibration
  from hand_eye_calibration.quaternion import Quaternion
  check.traces += 1
  for angle in (1e-2, -1e-2, 1e-3, -1e-3, 1e-5, -1e-5, 1e-7, -1e-7, 1e-10, -1e-10):
    x = nudged(e['x'], angle)
    case = dict(x=e['x'], hand=e['hand'], angle=angle)
    with check.guard('half turn', case):
      eye = [compose(compose(inverted(x), m), x) for m in e['hand']]
      dq, s, bad = compute_hand_eye_calibration([dq_of(m, DualQuaternion, Quaternion) for m in e['hand']],
                                                [dq_of(m, DualQuaternion, Quaternion, (-1.) ** i) for i, m in enumerate(eye)])
      check_result(check, dq, x, 1., case)


def longer(check, num, lengths):
  """Recordings of several motions."""
  out = []
  rot = [m['q'] for m in MOTIONS] + [(0, 1, 2, 3), (1, -1, 0, 2), (2, 0, 1, 4), (0, 3, 0, 4), (-1, 0, 1, 5)]
  for _ in range(num):
    n = check.rng.choice(lengths)
    out.append([motion(check.rng.choice(rot), [check.rng.randint(-3, 3) for _ in range(3)]) for _ in range(n)])
  return out


def late(check, num):
  """Long recordings whose only second axis comes late."""
  out = []
  for i in range(num):
    n = check.rng.choice((21, 25, 34, 50))
    axis = [(1, 0, 0), (0, -1, 0), (0, 0, 1), (1, 1, 0)][i % 4]
    turn = lambda a: motion(tuple(a) + (check.rng.choice((1, 2, 3)),), [check.rng.randint(-2, 2) for _ in range(3)])
    out.append([turn(axis) for _ in range(n)] + [turn((axis[1], axis[2], -axis[0]))] + [turn(axis) for _ in range(i % 3)])
  return out


def run(check):
  xs = [motion(q, XT[i % 3]) for i, q in enumerate(XS)] + [motion(q, XT[(i + 1) % 3]) for i, q in enumerate(XS)]
  motions = MOTIONS if check.thorough else MOTIONS[:10]
  if check.thorough:
    xs += [motion(q, (2, 1, 0)) for q in itertools.product((-1, 0, 1), repeat=4) if any(q)]
  others = [motion(q, t) for q in XS[:12] for t in XT]
  fixed = longer(check, 60 if check.thorough else 12, (3, 4, 5, 6, 8, 10)) + late(check, 12 if check.thorough else 4)
  res = check.tlc('HandEye', dict(Xs=tla_set(xs), Motions=tla_set(motions), MaxLen='2', Fixed=tla_set(fixed), Others=tla_set(others),
                                  Bound='4000', EmitAll='FALSE'),
                  invariants=['XExplains', 'Identifies', 'Ambiguous', 'Congruent'])
  records = res.records
  if not any(len(e['hand']) > 21 for e in records):
    raise Exception('no long recording')
  check.exhaustive = True
  check.sample(records[0])
  pmap(check, replay, list(enumerate(records)))
  halves = [e for e in records if e['x']['q'][3] == 0]
  if len(halves) < 100:
    raise MachineryError('no half turns')
  pmap(check, next_to_half_turn, halves[::max(1, len(halves) // 150)])
  check.assumptions = ['noise-free motions with exact integer or rational coordinates',
                       'rotations of exactly 180 degrees between poses are excluded (their sign is not defined)']
