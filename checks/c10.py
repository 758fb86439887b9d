"""C10: pose errors and the evaluation of an alignment (spec/PoseError.tla, spec/Alignment.tla)."""
import math

import numpy as np

from checks.util import close, dq_of, motion, motion_pose, pose_is, quat_mul, tla_set, unit
from harness.common import pmap


def angle_deg(q):
  """Angle in [0, 180] of an integer quaternion."""
  return math.degrees(2. * math.atan2(math.sqrt(q[0] ** 2 + q[1] ** 2 + q[2] ** 2), abs(q[3])))


def make_config(pos, rot):
  from hand_eye_calibration.dual_quaternion_hand_eye_calibration import HandEyeConfig
  config = HandEyeConfig()
  config.ransac_position_error_threshold_m = pos
  config.ransac_orientation_error_threshold_deg = rot
  return config


def replay_errors(check, e):
  from hand_eye_calibration.dual_quaternion_hand_eye_calibration import compute_pose_error, evaluate_alignment
  check.traces += 1
  rel = [angle_deg(q) for q in e['rel']]
  dist = [math.sqrt(sum((u / float(a['d']) - v / float(b['d'])) ** 2 for u, v in zip(a['t'], b['t']))) for a, b in e['pairs']]
  thr_p = e['pthr'][0] / float(e['pthr'][1])
  thr_r = angle_deg(e['rthr'])
  for sa, sb in ((1., 1.), (1., -1.), (-1., 1.), (-1., -1.)):
    case = dict(pairs=e['pairs'], signs=[sa, sb], thresholds=[thr_p, thr_r])
    with check.guard('evaluation', case):
      a = np.array([motion_pose(p[0]) for p in e['pairs']])
      b = np.array([motion_pose(p[1]) for p in e['pairs']])
      a[:, 3:] *= sa
      b[:, 3:] *= sb
      saved = a.copy(), b.copy()
      for i in range(len(rel)):
        for u, v in ((a[i, :], b[i, :]), (b[i, :], a[i, :])):
          ep, er = compute_pose_error(u, v)
          if not (close(ep, dist[i], 1e-9) and abs(er - rel[i]) < 1e-4 and er >= 0. and er <= 180.):
            check.fail('pose error', dict(case, index=i, got=[ep, er], want=[dist[i], rel[i]]))
      if not (np.array_equal(a, saved[0]) and np.array_equal(b, saved[1])):
        check.fail('computing an error changes the poses', case)
      rp, rr, flags = evaluate_alignment(a, b, make_config(thr_p, thr_r))
      want_p = math.sqrt(e['sum'][0] / float(e['sum'][1]) / len(rel))
      want_r = math.sqrt(sum(x * x for x in rel) / len(rel))
      if not (close(rp, want_p, 1e-9) and abs(rr - want_r) < 1e-4):
        check.fail('root mean square errors', dict(case, got=[rp, rr], want=[want_p, want_r]))
      if len(flags) != len(rel):
        check.fail('number of inlier flags', dict(case, got=list(flags)))
      for i, f in enumerate(e['flags']):
        if f == 'open' or (f == 'atpos' and e['pthr'][1] != 1):
          continue
        if bool(flags[i]) != (f == 'in'):
          check.fail('inlier classification', dict(case, index=i, got=bool(flags[i]), want=f, errors=[dist[i], rel[i]]))
      if not (np.array_equal(a, saved[0]) and np.array_equal(b, saved[1])):
        check.fail('evaluation changes the poses', case)
    if check.enough():
      return


def extended(e, total):
  """Every pair many times: the root mean square errors stay."""
  m = total // len(e['pairs'])
  return dict(e, pairs=e['pairs'] * m, rel=e['rel'] * m, flags=e['flags'] * m, sum=[e['sum'][0] * m, e['sum'][1]])


def magnitudes(check, item):
  """Errors of every size, by themselves and among others."""
  from hand_eye_calibration.dual_quaternion_hand_eye_calibration import compute_pose_error, evaluate_alignment
  base, axis, shift = item
  check.traces += 1
  # Rotations by less than 1e-5 count as none unless one of the poses does not turn.
  angles = [10. ** -k for k in ((1, 2, 3, 4, 5, 6) if base['q'][3] == 1 and not any(base['q'][:3]) else (1, 2, 3, 4))]
  angles += [math.pi - 10. ** -k for k in (1, 2, 3, 4, 5, 6)]
  for angle in angles:
    for dist in (0., 1e-9, 1e-6, 1e-3, 0.3, 40., 1e4):
      case = dict(base=base, axis=axis, angle=angle, distance=dist)
      with check.guard('magnitudes', case):
        turn = dict(q=np.concatenate([math.sin(angle / 2.) * unit(axis), [math.cos(angle / 2.)]]), t=(0, 0, 0), d=1)
        a = motion_pose(base)
        b = np.concatenate([a[:3] + dist * unit(shift), quat_mul(turn['q'], a[3:])])
        for sb in (1., -1.):
          b[3:] *= sb
          ep, er = compute_pose_error(a, b)
          want = math.degrees(angle)
          if not (abs(ep - dist) <= 1e-12 * (1. + dist) + 1e-9 * dist and 0. <= er <= 180. and abs(er - want) <= 1e-9 + 1e-13 / min(angle, math.pi - angle)):
            check.fail('pose error', dict(case, sign=sb, got=[ep, er], want=[dist, want]))
            return
          for fp, fr in ((0.999, 1.001), (1.001, 0.999), (1.001, 1.001)):
            rp, rr, flags = evaluate_alignment(np.array([a, b]), np.array([b, b]), make_config(dist * fp, want * fr))
            inside = dist * fp > dist * 1.0005 and fr > 1. and want * fr <= 180.
            if dist > 0. and want * fr <= 180. and [bool(f) for f in flags] != [inside, True]:
              check.fail('inlier classification', dict(case, thresholds=[fp, fr], got=[bool(f) for f in flags]))
              return
            if not (abs(rp - dist / math.sqrt(2.)) <= 1e-12 + 1e-9 * dist and abs(rr - want / math.sqrt(2.)) <= 1e-9 + 1e-13 / min(angle, math.pi - angle)):
              check.fail('root mean square errors', dict(case, got=[rp, rr]))
              return


def replay_alignment(check, e):
  from hand_eye_calibration.dual_quaternion import DualQuaternion
  from hand_eye_calibration.dual_quaternion_hand_eye_calibration import evaluate_alignment, get_aligned_poses
  from hand_eye_calibration.quaternion import Quaternion
  check.traces += 1
  n = len(e['hand'])
  for variant in range(4):
    case = dict(x=e['x'], candidate=e['y'], world=e['w'], hand=e['hand'], variant=variant)
    with check.guard('alignment', case):
      sh = [(-1.) ** (i * (variant % 2)) for i in range(n)]
      se = [(-1.) ** ((i + 1) * (variant // 2)) for i in range(n)]
      hand = [dq_of(m, DualQuaternion, Quaternion, s) for m, s in zip(e['hand'], sh)]
      eye = [dq_of(m, DualQuaternion, Quaternion, s) for m, s in zip(e['eye'], se)]
      cand = dq_of(e['y'], DualQuaternion, Quaternion, -1. if variant == 2 else 1.)
      poses_h, poses_p = get_aligned_poses(hand, eye, cand)
      if poses_h.shape != (n, 7) or poses_p.shape != (n, 7):
        check.fail('number of aligned poses', dict(case, got=[poses_h.shape, poses_p.shape]))
        continue
      for i in range(n):
        if not pose_is(poses_h[i], e['hand'][i], 1e-8):
          check.fail('hand pose', dict(case, index=i, got=list(poses_h[i])))
        if not pose_is(poses_p[i], e['predicted'][i], 1e-8):
          check.fail('predicted hand pose', dict(case, index=i, got=list(poses_p[i]), want=list(motion_pose(e['predicted'][i]))))
      if e['exact']:
        rp, rr, flags = evaluate_alignment(poses_h, poses_p, make_config(1e-6, 1e-3))
        if not (rp < 1e-8 and rr < 1e-4 and list(flags) == [True] * n):
          check.fail('error of the true transform', dict(case, got=[rp, rr, list(flags)]))
      for dqs, ms, ss in ((hand, e['hand'], sh), (eye, e['eye'], se)):
        for dq, m, s in zip(dqs, ms, ss):
          if not close(dq.dq, dq_of(m, DualQuaternion, Quaternion, s).dq, 1e-12):
            check.fail('aligning changes the trajectories', case)
    if check.enough():
      return


def run(check):
  base = [motion((0, 0, 0, 1)), motion((1, 2, 3, 4), (1, 2, 3)), motion((0, 0, 1, 0), (-1, 0, 4))]
  deltas = [motion((0, 0, 0, 1)), motion((0, 0, 0, 1), (3, 4, 0)), motion((0, 0, 0, 1), (0, 0, 1), 50), motion((0, 0, 1, 57)),
            motion((0, 1, 0, 114)), motion((1, 0, 0, 115), (0, 1, 0), 60), motion((0, 0, 0, 1), (6, 8, 24), 1), motion((1, 1, 0, 0), (1, 0, 0), 1000),
            motion((0, -1, 0, 1), (0, 0, 1), 49), motion((1, 1, 1, 1)), motion((0, 0, 1, 140)), motion((140, 1, 0, 1), (0, 2, 0))]
  tiny = [motion((0, 0, 1, 9000)), motion((9000, 1, 0, 1), (0, 2, 0)), motion((1, -1, 0, 20000), (0, 0, 1), 100)]
  pairs = []
  for i, d in enumerate(deltas):
    for b in (base if check.thorough else [base[i % 3], base[(i + 1) % 3]]):
      # The second pose is the first one moved in place by d.
      t = [x * d['d'] + y * b['d'] for x, y in zip(b['t'], d['t'])]
      bx, by, bz, bw = b['q']
      dx, dy, dz, dw = d['q']
      q = (dw * bx + dx * bw + dy * bz - dz * by, dw * by - dx * bz + dy * bw + dz * bx, dw * bz + dx * by - dy * bx + dz * bw,
           dw * bw - dx * bx - dy * by - dz * bz)
      pairs.append((b, motion(q, t, b['d'] * d['d'])))
  pos = [(1, 50), (5, 1), (26, 1), (1, 1000)]
  rot = [(0, 0, 1, 114), (0, 0, 1, 1), (0, 0, 0, 1), (1, 0, 0, 0)]
  # All pairs one by one under all thresholds, and all sequences of a smaller set.
  res = check.tlc('PoseError', dict(PairSet=tla_set(pairs), PosThr=tla_set(pos), RotThr=tla_set(rot), MaxLen='1'),
                  invariants=['Symmetric', 'ZeroIff'])
  records = res.records
  res = check.tlc('PoseError', dict(PairSet=tla_set([(base[0], d) for d in tiny] + [(d, base[0]) for d in tiny] + [(d, d) for d in tiny]),
                                    PosThr=tla_set(pos), RotThr=tla_set(rot[2:]), MaxLen='1'))
  records += res.records
  small = [p for i, p in enumerate(pairs) if i % (2 if not check.thorough else 3) == 0 and i // (2 if not check.thorough else 3) < 8]
  res = check.tlc('PoseError', dict(PairSet=tla_set(small[:6 if not check.thorough else 8]), PosThr=tla_set(pos[:2]), RotThr=tla_set(rot[:2]), MaxLen='3'))
  records += res.records
  kinds = set(f for e in records for f in e['flags'])
  check.require_ops(kinds, ['in', 'out', 'atpos'])
  check.sample(records[-1])
  pmap(check, replay_errors, records)
  some = [e for e in check.rng.sample(records, 200 if check.thorough else 40) if len(e['pairs']) > 1][:100 if check.thorough else 20]
  pmap(check, replay_errors, [extended(e, (20, 60, 130, 300, 1100)[i % 5]) for i, e in enumerate(some)])
  pmap(check, magnitudes, [(b, a, s) for b in base[:2] + [motion((0, 0, 0, 1), (7, 0, -1)), motion((-3, 1, 0, 1), (0, 2, 0))]
                           for a in ((1, 0, 0), (0, -1, 0), (1, 1, 1), (-2, 1, 3)) for s in ((0, 0, 1), (1, -2, 2))])
  motions = [motion((1, 0, 0, 1), (1, 0, 2)), motion((0, 1, 0, 1), (0, 1, -1)), motion((1, 1, 1, 1), (0, -2, 1)), motion((0, 0, 0, 1), (1, -1, 2)),
             motion((0, 0, 1, 0), (0, 3, 0)), motion((1, 0, 0, 2), (0, 2, 0))]
  xs = [motion((0, 0, 0, 1)), motion((1, 0, 0, 0), (1, -2, 3)), motion((0, -1, 0, 1), (0, 0, -5)), motion((1, 1, 1, 1), (1, 0, 0)),
        motion((1, 2, 3, 4), (0, 1, 0))]
  worlds = [motion((0, 0, 0, 1)), motion((0, 1, 0, 1), (5, 0, -3))]
  res = check.tlc('Alignment', dict(Xs=tla_set(xs), Motions=tla_set(motions), MaxLen='2', Fixed='{}', Others='{}', Bound='30000', EmitAll='FALSE',
                                    Candidates=tla_set(xs if check.thorough else xs[:4]), Worlds=tla_set(worlds)),
                  invariants=['TrueIsExact', 'ExplainsIsExact'], next_='ANext')
  if not any(e['exact'] for e in res.records) or all(e['exact'] for e in res.records):
    raise Exception('candidates')
  check.sample(res.records[-1])
  pmap(check, replay_alignment, res.records)
  # The same motions again and again.
  repeat = lambda e, m: dict(e, hand=e['hand'] * m, eye=e['eye'] * m, predicted=e['predicted'] * m)
  pmap(check, replay_alignment, [repeat(e, (8, 25, 60, 120, 300)[i % 5]) for i, e in enumerate(check.rng.sample(res.records, 60 if check.thorough else 20))])
  check.exhaustive = True
  check.assumptions = ['errors equal to a threshold up to rounding are not judged', 'angles are compared to 1e-4 degrees']
