"""C02: dual quaternions as rigid motions (spec/RigidMachine.tla)."""
import numpy as np

from checks.util import EDGE, GENERIC, OCTAHEDRAL, close, dq_of, images, in_units, motion, motion_matrix, pose_is, tla, tla_set
from harness.common import MachineryError, pmap

INVARIANTS = ['InverseLaw', 'QuotientLaw', 'Associative', 'Composition', 'Rigid']
# Scale of the representation and unit of length of the translations.
VARIANTS = [(1., 1.), (-1., 1.), (2.5, 0.0009765625), (-0.25, 1024.), (1.0003, 1.), (-0.99995, 1.), (0.001, 1.), (4000., 0.125),
            (1., 2.**-20), (-1., 2.**-13), (1., 2.**20), (1.5, 2.**13)]
POINTS = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (2, -3, 5)]


def observe(check, dq, m, points, case, tol=1e-8, u=1.):
  """All ways to look at a dual quaternion have to show motion m."""
  before = dq.dq.copy()
  for p, want in zip(POINTS, points):
    arg = np.array(p, dtype=float) * u
    p, want = list(arg), np.asarray(want) * u
    got = dq.passive_transform_point(arg)
    if not close(got / u, want / u, tol):
      check.fail('transformed point', dict(case, point=p, got=list(got), want=list(want)))
      return False
    back = dq.active_transform_point(got)
    if not close(back / u, arg / u, tol * 10):
      check.fail('active transformation is not the inverse', dict(case, point=p, got=list(back)))
      return False
    if list(arg) != list(p):
      check.fail('transforming changes the point', dict(case, point=p))
      return False
  if not close(dq.dq, before, 1e-12):
    check.fail('transforming a point changes the dual quaternion', dict(case, got=list(dq.dq), want=list(before)))
    return False
  n = dq.norm()
  if not (close(n[0], np.linalg.norm(before[:4])) and abs(n[1]) < 1e-7 * max(1., np.max(np.abs(before)))):
    check.fail('norm', dict(case, got=list(n)))
    return False
  c = dq.copy()
  pose = c.to_pose()
  if not pose_is(np.append(pose[:3] / u, pose[3:]), in_units(m, 1. / u), tol):
    check.fail('pose', dict(case, got=list(pose), want=m))
    return False
  c = dq.copy()
  mat = c.to_matrix()
  want = motion_matrix(m)
  if not (close(mat[:, :3], want[:, :3], tol) and close(mat[:, 3] / [u, u, u, 1.], want[:, 3] / [u, u, u, 1.], tol)):
    check.fail('matrix', dict(case, got=mat.tolist(), want=m))
    return False
  if not close(dq.dq, before, 1e-12):
    check.fail('converting a copy changes the dual quaternion', dict(case, got=list(dq.dq), want=list(before)))
    return False
  c.normalize()
  if not (c.is_normalized() and close(np.linalg.norm(c.dq[:4]), 1.)):
    check.fail('normalization', dict(case, got=list(c.dq)))
    return False
  return True


def convert(x, frm, to, DualQuaternion):
  if frm == 'pose' and to == 'dq':
    return DualQuaternion.from_pose_vector(x)
  if frm == 'matrix' and to == 'dq':
    return DualQuaternion.from_transformation_matrix(x)
  if to == 'pose':
    return x.to_pose()
  return x.to_matrix()


def apply(e, reg, DualQuaternion, Quaternion, u=1.):
  """Performs one call on the real objects. Returns result and operand."""
  op, k = e['op'], e['k']
  b = dq_of(in_units(e['arg'], u), DualQuaternion, Quaternion, float(k))
  if op == 'mul':
    return reg * b, b
  if op == 'premul':
    return b * reg, b
  if op == 'div':
    return reg / b, b
  if op == 'prediv':
    return b / reg, b
  if op == 'inverse':
    return reg.inverse(), None
  if op == 'square':
    return reg * reg, None
  if op == 'ratio':
    return reg / reg, None
  if op == 'conjugate':
    reg = reg.copy()
    reg.normalize()
    return reg.conjugate(), None
  if op == 'normalize':
    reg.normalize()
    return reg, None
  if op == 'positive':
    reg.enforce_positive_q_rot_w()
    return reg, None
  if op == 'copy':
    return reg.copy(), None
  if op == 'rescale':
    if e['from'] == 'dq':
      return [reg * k, k * reg, reg / (1. / k)][abs(k) % 3], None
    if e['from'] == 'pose':
      reg = reg.copy()
      reg[3:] *= k
      return reg, None
    return reg, None
  if op == 'convert':
    return convert(reg, e['from'], e['to'], DualQuaternion), None
  raise KeyError(op)


def replay_edges(check, edges):
  from hand_eye_calibration.dual_quaternion import DualQuaternion
  from hand_eye_calibration.quaternion import Quaternion
  for e in edges:
    check.traces += 1
    for k, u in VARIANTS:
      case = dict(event=e, scale=k, unit=u)
      with check.guard('operation ' + e['op'], case):
        reg = dq_of(in_units(e['before'], u), DualQuaternion, Quaternion, k)
        before = reg.dq.copy()
        res, b = apply(e, reg, DualQuaternion, Quaternion, u)
        if e['op'] not in ('normalize', 'positive') and not np.array_equal(reg.dq, before):
          check.fail('operand changed by ' + e['op'], case)
        if b is not None and not np.array_equal(b.dq, dq_of(in_units(e['arg'], u), DualQuaternion, Quaternion, float(e['k'])).dq):
          check.fail('second operand changed by ' + e['op'], case)
        if e['op'] == 'positive' and not res.dq[3] >= 0:
          check.fail('scalar part stays negative', case)
        saved = reg.dq.copy()
        if not observe(check, res, in_units(e['after'], u), images(e['images']), case, 1e-8, u):
          return
        res.dq[0] += 1.
        if e['op'] not in ('normalize', 'positive') and not np.array_equal(reg.dq, saved):
          check.fail('result of %s aliases its operand' % e['op'], case)
    if check.enough():
      return


def start_value(e, DualQuaternion, Quaternion):
  if e['from'] == 'dq':
    return dq_of(e['before'], DualQuaternion, Quaternion)
  if e['from'] == 'pose':
    from checks.util import motion_pose
    return motion_pose(e['before'])
  return motion_matrix(e['before'])


def replay_behaviour(check, behaviour):
  from hand_eye_calibration.dual_quaternion import DualQuaternion
  from hand_eye_calibration.quaternion import Quaternion
  check.traces += 1
  reg = start_value(behaviour[0], DualQuaternion, Quaternion)
  for i, e in enumerate(behaviour):
    case = dict(step=i, op=e['op'], behaviour=behaviour[:i + 1])
    bad = check.num_failures
    with check.guard('behaviour', case):
      reg, b = apply(e, reg, DualQuaternion, Quaternion)
      if e['to'] == 'dq':
        if not observe(check, reg, e['after'], images(e['images']), case, 1e-6):
          return
      elif e['to'] == 'pose':
        x = np.concatenate([reg[:3], reg[3:] / np.linalg.norm(reg[3:])])
        if e['op'] == 'rescale' and x[6] < 0:
          x[3:] *= -1
        if not pose_is(x, e['after'], 1e-6):
          check.fail('pose after a sequence', dict(case, got=list(reg)))
          return
      elif not close(reg, motion_matrix(e['after']), 1e-6):
        check.fail('matrix after a sequence', dict(case, got=reg.tolist()))
        return
    if check.num_failures > bad:
      return


def pools():
  trans = [(0, 0, 0), (1, 2, 3), (-4, 0, 1), (0, 0, 5)]
  motions = []
  for i, q in enumerate(OCTAHEDRAL + GENERIC):
    motions.append(motion(q, trans[1 + i % 3]))
    motions.append(motion(q, trans[0 if i % 2 else 2]))
  return motions


def run(check):
  motions = pools()
  operands = [motion((0, 0, 0, 1), (1, -2, 3)), motion((1, 0, 0, 1), (0, 1, 0)), motion((0, 0, 1, 0), (2, 0, -1)),
              motion((1, 2, 3, 4), (1, 1, 2)), motion((-1, 1, 1, 1), (0, 0, 0))]
  if check.thorough:
    operands = motions[::3] + operands
  consts = dict(Motions=tla_set(motions), Operands=tla_set(operands), Scales='{1, -2}', Points=tla(POINTS),
                Forms='{"dq"}', Algebra='TRUE', Steps='2' if check.thorough else '1', Bound='300', Record='FALSE', LawBound='6')
  res = check.tlc('RigidMachine', consts, invariants=INVARIANTS)
  check.require_ops((e['op'] for e in res.records),
                    ['mul', 'premul', 'div', 'prediv', 'inverse', 'conjugate', 'normalize', 'positive', 'copy', 'rescale', 'square', 'ratio'])
  edges = res.records
  if len(edges) > 100000:
    edges = check.rng.sample(edges, 100000)
  check.sample(edges[0])
  # Rotations close to none and to a half turn.
  for edge, args, algebra in (([motion(q) for q in EDGE], [motion(o['q']) for o in operands[:3]], 'TRUE'),
                              ([motion(q, ((1, -2, 3), (0, 5, 1))[i % 2]) for i, q in enumerate(EDGE)], [], 'FALSE'),
                              ([motion(q, (2, 1, -1)) for q in ((1, 0, 0, 30), (0, -1, 1, 25), (30, 0, 0, 1), (0, 25, 20, -1), (0, 0, 29, 30))], operands[:2], 'TRUE')):
    res = check.tlc('RigidMachine', dict(consts, Motions=tla_set(edge), Operands=tla_set(args), Algebra=algebra, Steps='1', Bound='60000000'), invariants=['Rigid'])
    edges = edges + res.records
  if not any(e['op'] == 'mul' and max(map(abs, e['before']['q'])) > 2000 for e in edges):
    raise MachineryError('no rotation close to a half turn')
  pmap(check, replay_edges, [edges[i:i + 50] for i in range(0, len(edges), 50)])
  consts.update(Operands=tla_set(operands[-5:]), Forms='{"dq", "pose", "matrix"}', Steps='12', Bound='2000', Record='TRUE',
                Scales='{1, -1, 3}')
  res = check.tlc('RigidMachine', consts, simulate=3000 if check.thorough else 400, depth=16, workers=1)
  check.sample([(e['op'], e['after']) for e in res.records[0]])
  pmap(check, replay_behaviour, res.records)
  check.assumptions = ['motions with integer quaternions and rational translations of bounded size stand for all motions']
