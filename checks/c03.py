"""C03: conversions between the forms of a motion (spec/RigidMachine.tla)."""
import numpy as np

from checks import c02
from checks.util import (GENERIC, OCTAHEDRAL, close, dq_of, in_units, motion, motion_matrix, motion_pose, pose_is, rotmat,
                         same_rotation, tla, tla_set, unit)
from harness.common import MachineryError, pmap

TRANSLATIONS = [(0, 0, 0), (1, 2, 3), (-4, 0, 1), (0, 0, 5), (-1000, 7, 30000)]
# Rotations close to none and to a half turn, around axes and generic directions.
NEAR = [(1, 0, 0, 3000), (0, 1, 0, 20000), (0, 0, 1, 20000), (2, -1, 3, 9000), (-1, 1, 1, 30000),
        (3000, 0, 0, 1), (0, 20000, 0, 1), (0, 0, -20000, 1), (9000, 9001, 9000, -1), (5000, -3, 1, 2), (-1, 20000, 20000, 3),
        (1, 1, 1, 3), (2, 1, 1, 3), (100, 1, 1, 99), (-1, 100, 1, 100), (1, -1, 100, 101), (3, 1, 2, 1), (1, 3, 2, 1), (2, 1, 3, 1)]


def check_form(check, x, form, m, case, after_rescale, DualQuaternion, tol=1e-9):
  if form == 'pose':
    x = np.asarray(x, dtype=float)
    if after_rescale:
      x = x.copy()
      x[3:] /= np.linalg.norm(x[3:])
      x[3:] *= -1. if x[6] < 0. else 1.
    if not (x.shape == (7,) and close(np.linalg.norm(x[3:]), 1., tol) and x[6] >= 0. and pose_is(x, m, tol)):
      check.fail('pose', dict(case, got=list(x), want=list(motion_pose(m))))
      return False
    return True
  if form == 'matrix':
    if not close(x, motion_matrix(m), tol):
      check.fail('matrix', dict(case, got=np.asarray(x).tolist(), want=motion_matrix(m).tolist()))
      return False
    return True
  before = x.dq.copy()
  n = np.linalg.norm(before[:4])
  if not after_rescale and not close(n, 1., tol):
    check.fail('dual quaternion is not normalized', dict(case, got=list(before)))
    return False
  want = dq_of(m, DualQuaternion, type(x.q_rot)).dq
  if not same_rotation(before / n, want, tol):
    check.fail('dual quaternion', dict(case, got=list(before), want=list(want)))
    return False
  # Looking at it, in any order, leaves the motion it stands for.
  for first, second in (('to_pose', 'to_matrix'), ('to_matrix', 'to_pose')):
    c = x.copy()
    getattr(c, first)()
    getattr(c, second)()
    if not same_rotation(c.dq / np.linalg.norm(c.dq[:4]), want, tol):
      check.fail('conversion changes the motion', dict(case, order=[first, second], got=list(c.dq)))
      return False
    if not pose_is(c.to_pose(), m, tol) or not close(c.to_matrix(), motion_matrix(m), tol):
      check.fail('second conversion differs', dict(case, order=[first, second]))
      return False
  return True


# From a tenth to a hundred-thousandth of a radian, and as far from a half turn and a full turn.
LADDER = [tuple(f(a, n)) for n in (20, 200, 2000, 20000, 200000) for a in ((1, 0, 0), (0, -1, 0), (0, 0, 1), (1, -2, 2), (-3, 0, 4))
          for f in (lambda a, n: a + (n,), lambda a, n: tuple(n * i for i in a) + (1,), lambda a, n: tuple(n * i for i in a) + (n + 1,))]


def rescaled(x, form, u):
  """The value with its translation divided by u."""
  if u == 1.:
    return x
  x = x.copy()
  if form == 'pose':
    x[:3] /= u
  elif form == 'matrix':
    x[:3, 3] /= u
  else:
    x.dq[4:] /= u
  return x


def replay(check, item):
  from hand_eye_calibration.dual_quaternion import DualQuaternion
  from hand_eye_calibration.quaternion import Quaternion
  check.traces += 1
  number, behaviour = item
  e = behaviour[0]
  for variant in range(6):
    if variant > 1 and (variant + number) % 3:
      continue
    u = (1., 1., 1., 1., 2.**-16, 2.**16)[variant]
    x = c02.start_value(dict(e, before=in_units(e['before'], u)), DualQuaternion, Quaternion)
    scaled = False
    if variant and e['from'] == 'dq':
      x = dq_of(e['before'], DualQuaternion, Quaternion, (1., -1., 3., 1.0004, 1., 2.)[variant])
      x.dq[4:] *= u
      scaled = True
    elif variant == 1 and e['from'] == 'pose':
      x[3:] *= -1.
      scaled = True
    elif variant in (2, 3) and e['from'] == 'pose':
      x[3:] *= (0.125, -1.0004)[variant - 2]
      scaled = True
    for i, e in enumerate(behaviour):
      case = dict(step=i, variant=variant, behaviour=[(b['op'], b['from'], b['to'], b['k']) for b in behaviour[:i + 1]],
                  motion=e['before'])
      bad = check.num_failures
      with check.guard('conversion', case):
        if e['from'] == 'pose' and e['op'] == 'convert' and variant == 1:
          y = DualQuaternion.from_pose(*[float(v) for v in x])
        else:
          arg = x.copy()
          y, _ = c02.apply(e, x, DualQuaternion, Quaternion)
          if e['op'] == 'convert' and e['from'] in ('pose', 'matrix') and not np.array_equal(arg, x):
            check.fail('conversion changes its input', case)
        if e['op'] in ('rescale',):
          scaled = True
        elif e['op'] in ('convert', 'normalize'):
          scaled = False
        if not check_form(check, rescaled(y, e['to'], u), e['to'], e['after'], case, scaled, DualQuaternion, 1e-9):
          return
        x = y
      if check.num_failures > bad:
        return
      e = behaviour[0]


def quaternion_forms(check, m):
  """Rotation matrix and angle-axis conversions of single rotations."""
  from hand_eye_calibration.quaternion import Quaternion
  check.traces += 1
  want = unit(m['q'])
  case = dict(rotation=m['q'])
  with check.guard('rotation matrix', case):
    mat = rotmat(m['q'])
    arg = mat.copy()
    q = Quaternion.from_rotation_matrix(arg)
    if not (same_rotation(q.q, want) and q.w >= 0. and close(q.norm(), 1.)):
      check.fail('from_rotation_matrix', dict(case, got=list(q.q), want=list(want)))
    if not np.array_equal(arg, mat):
      check.fail('from_rotation_matrix changes its argument', case)
    back = q.to_rotation_matrix()
    if not close(back, mat):
      check.fail('rotation matrix round trip', dict(case, got=back.tolist()))
    whole = np.identity(4)
    whole[:3, :3] = mat
    got = np.asarray(q.to_transformation_matrix(), dtype=float)
    if not close(got, whole):
      check.fail('transformation matrix of a rotation', dict(case, got=got.tolist()))
  angle = 2. * np.arctan2(np.linalg.norm(want[:3]), want[3])
  for sign in (1., -1.):
    with check.guard('angle axis', case):
      q = Quaternion(q=sign * want)
      aa = q.angle_axis()
      if not (aa.shape == (4,) and np.all(np.isfinite(aa)) and close(np.linalg.norm(aa[:3]), 1., max(1e-6, 1e-14 / np.sin(angle / 2.)**2))):
        check.fail('angle_axis', dict(case, sign=sign, got=list(aa)))
        continue
      if not same_rotation(Quaternion.from_angle_axis(aa[3], aa[:3]).q, want, 1e-9):
        check.fail('angle axis round trip', dict(case, sign=sign, got=list(aa)))
      if not close(q.q, sign * want):
        check.fail('angle_axis changes the quaternion', dict(case, sign=sign))
  for k in (1., 0.01, 250., -3.):
    with check.guard('from_angle_axis', case):
      axis = want[:3] * k
      saved = axis.copy()
      got = Quaternion.from_angle_axis(angle if k > 0 else -angle, axis)
      if not close(got.q, want, 1e-9):
        check.fail('from_angle_axis', dict(case, axis=list(axis), got=list(got.q), want=list(want)))
      if not np.array_equal(axis, saved):
        check.fail('from_angle_axis changes its argument', case)
      ints = [int(round(k)) * i for i in m['q'][:3]]
      if any(ints):
        got = Quaternion.from_angle_axis(angle if k > 0 else -angle, ints)
        if not close(got.q, want, 1e-9):
          check.fail('from_angle_axis with an integer axis', dict(case, axis=ints, got=list(got.q)))


def half_turn_forms(check, m):
  """The pose of a motion next to a half turn, on either side of it, has no negative scalar part."""
  from hand_eye_calibration.dual_quaternion import DualQuaternion
  from hand_eye_calibration.quaternion import Quaternion
  check.traces += 1
  for w in (1e-7, -1e-7, 2e-9, -2e-9, 3e-11, -3e-11, 1e-14, -1e-14, 1e-30, -1e-30):
    case = dict(motion=m, scalar_part=w)
    with check.guard('half turn', case):
      x = dq_of(m, DualQuaternion, Quaternion)
      x.dq[3] = w
      pose = np.asarray(x.to_pose(), dtype=float)
      want = motion_pose(m)
      if not (pose[6] >= 0. and close(pose[:3], want[:3], 1e-6 * (1. + max(abs(want[:3])))) and same_rotation(pose[3:], want[3:], 1e-6)):
        check.fail('pose next to a half turn', dict(case, got=list(pose), want=list(want)))


def run(check):
  rotations = OCTAHEDRAL + GENERIC + NEAR
  motions = [motion(q, TRANSLATIONS[i % 5]) for i, q in enumerate(rotations)]
  motions += [motion(q, TRANSLATIONS[(i + 2) % 5]) for i, q in enumerate(rotations)]
  if check.thorough:
    import itertools
    motions += [motion(q, TRANSLATIONS[i % 5]) for i, q in enumerate(itertools.product((-1, 0, 1, 3), repeat=4)) if any(q)]
  consts = dict(Motions=tla_set(motions), Operands='{}', Scales='{-1, 7}', Points='<<>>', LawBound='0',
                Forms='{"dq", "pose", "matrix"}', Algebra='FALSE', Steps='4' if check.thorough else '3', Bound='100000',
                Record='TRUE')
  res = check.tlc('RigidMachine', consts)
  behaviours = res.records
  check.require_ops((e['op'] for b in behaviours for e in b), ['convert', 'rescale', 'normalize', 'positive', 'copy'])
  check.sample([(e['op'], e['from'], e['to']) for e in behaviours[0]])
  pmap(check, replay, list(enumerate(behaviours)))
  check.exhaustive = True
  res = check.tlc('RigidMachine', dict(consts, Steps='0', Record='TRUE', Forms='{"dq"}'))
  pmap(check, quaternion_forms, motions + [motion(q) for q in LADDER])
  half_turns = [m for m in motions if m['q'][3] == 0]
  if len(half_turns) < 6:
    raise MachineryError('no half turns among the motions')
  pmap(check, half_turn_forms, half_turns)
  check.assumptions = ['rotations below 3e-6 rad are reported as no rotation in angle-axis form']
