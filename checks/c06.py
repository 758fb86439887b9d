"""C06: re-basing trajectories (spec/Rebase.tla)."""
import numpy as np

from checks.util import GENERIC, OCTAHEDRAL, close, compose, dq_of, motion, motion_pose, nudged, pose_is, same_rotation, tla, tla_set
from harness.common import MachineryError, pmap


def make(traj, signs, scale=1.):
  from hand_eye_calibration.dual_quaternion import DualQuaternion
  from hand_eye_calibration.quaternion import Quaternion
  return [dq_of(m, DualQuaternion, Quaternion, s * scale) for m, s in zip(traj, signs)]


def replay(check, e):
  from hand_eye_calibration.dual_quaternion import DualQuaternion
  from hand_eye_calibration.dual_quaternion_hand_eye_calibration import (
      align_paths_at_index, compute_dual_quaternions_with_offset)
  from hand_eye_calibration.quaternion import Quaternion
  check.traces += 1
  n = len(e['traj'])
  patterns = [[1.] * n, [-1.] * n, [1. if i % 2 else -1. for i in range(n)], [(-1.) ** (i // 2) for i in range(n)]]
  for signs in patterns:
    vec = make(e['traj'], signs)
    before = [v.dq.copy() for v in vec]
    kept = list(vec)
    case = dict(e, signs=signs)
    with check.guard(e['op'], case):
      if e['op'] == 'rebase':
        k = e['k'] - 1
        for mode in (None, True, False):
          if mode is None:
            res = align_paths_at_index(vec, k) if k or signs[0] > 0 else align_paths_at_index(vec)
          else:
            res = align_paths_at_index(vec, k, mode)
          check_traj(check, res, e['res'], dict(case, enforce=mode), positive=mode is not False)
          if mode is False:
            # Signs are kept: those of inverse(pose k) * pose i.
            for i, r in enumerate(res):
              w = (vec[k].inverse() * vec[(k + i) % n]).dq
              if not close(r.dq, w, 1e-8):
                check.fail('sign not kept', dict(case, index=i, got=list(r.dq), want=list(w)))
          if any(r is v for r in res for v in vec):
            check.fail('re-based trajectory shares poses with its input', case)
          # Changing the result must not change the input.
          for r in res:
            r.dq[:] = 0.5
          if len(vec) != n or any(a is not b for a, b in zip(vec, kept)) or not all(np.array_equal(v.dq, b) for v, b in zip(vec, before)):
            check.fail('input trajectory changed', dict(case, enforce=mode))
            return
      else:
        for sx in (1., -1.):
          x = dq_of(e['x'], DualQuaternion, Quaternion, sx)
          w = dq_of(e['w'], DualQuaternion, Quaternion, -sx if signs[0] < 0 else 1.)
          sx_before, sw_before = x.dq.copy(), w.dq.copy()
          res = compute_dual_quaternions_with_offset(vec, x, w)
          check_traj(check, res, e['res'], case, positive=False)
          if not all(np.array_equal(v.dq, b) for v, b in zip(vec, before)):
            check.fail('input trajectory changed', case)
            return
          if not (np.array_equal(x.dq, sx_before) and np.array_equal(w.dq, sw_before)):
            check.fail('fixed transforms changed', case)
            return


def check_traj(check, res, want, case, positive):
  if len(res) != len(want):
    check.fail('number of poses', dict(case, got=len(res)))
    return
  for i, (r, m) in enumerate(zip(res, want)):
    if not close(np.linalg.norm(r.dq[:4]), 1., 1e-8):
      check.fail('pose not normalized', dict(case, index=i, got=list(r.dq)))
      return
    if positive and not r.dq[3] >= -1e-12:
      check.fail('negative scalar part', dict(case, index=i, got=list(r.dq)))
      return
    c = r.copy()
    if not pose_is(c.to_pose(), m, 1e-7):
      check.fail('pose', dict(case, index=i, got=list(r.copy().to_pose()), want=m))
      return


def extended(e, total):
  """The trajectory run through again and again; re-based, it is the re-based one run through again and again."""
  m = total // len(e['traj'])
  out = dict(e, traj=e['traj'] * m, res=e['res'] * m)
  if e['op'] == 'rebase':
    out['k'] = e['k'] + len(e['traj']) * (m // 2)
  return out


def next_to_half_turns(check, e):
  """Relative motions turned a little out of a half turn have no negative scalar part either."""
  from hand_eye_calibration.dual_quaternion_hand_eye_calibration import align_paths_at_index
  check.traces += 1
  n, k = len(e['traj']), e['k'] - 1
  halves = [i for i, m in enumerate(e['res']) if m['q'][3] == 0]
  for angle in (1e-3, -1e-3, 1e-5, -1e-5, 1e-6, -1e-6, 1e-7, -1e-7, 1e-9, -1e-9, 1e-11, -1e-11):
    traj, want = list(e['traj']), list(e['res'])
    for i in halves:
      want[i] = nudged(e['res'][i], angle)
      traj[(k + i) % n] = compose(traj[k], want[i])
    case = dict(traj=e['traj'], k=e['k'], angle=angle)
    with check.guard('half turn', case):
      res = align_paths_at_index(make(traj, [(-1.) ** i for i in range(n)]), k)
      for i, (r, w) in enumerate(zip(res, want)):
        p, w = r.copy().to_pose(), motion_pose(w)
        if not r.dq[3] >= 0. and not (i not in halves and r.dq[3] >= -1e-12):
          check.fail('negative scalar part next to a half turn', dict(case, index=i, got=list(r.dq)))
          return
        if not (close(p[:3], w[:3], 1e-7) and same_rotation(p[3:], w[3:], 1e-7)):
          check.fail('pose next to a half turn', dict(case, index=i, got=list(p), want=list(w)))
          return


def repeated(check, traj):
  """Re-basing again and again on the real objects, back to the first pose."""
  from hand_eye_calibration.dual_quaternion_hand_eye_calibration import align_paths_at_index
  check.traces += 1
  n = len(traj)
  vec = make(traj, [(-1.) ** i for i in range(n)])
  case = dict(traj=traj)
  with check.guard('repeated re-basing', case):
    first = [p.copy().to_pose() for p in align_paths_at_index(vec, 0)]
    cur, pos = vec, 0
    for step in range(2 * n):
      k = (step * 2 + 1) % n
      cur = align_paths_at_index(cur, k)
      pos = (pos + k) % n
      want = [p.copy().to_pose() for p in align_paths_at_index(vec, pos)]
      for i in range(n):
        g = cur[i].copy().to_pose()
        if not (close(g[:3], want[i][:3], 1e-6) and same_rotation(g[3:], want[i][3:], 1e-6)):
          check.fail('repeated re-basing differs', dict(case, step=step, index=i, got=list(g), want=list(want[i])))
          return
    back = align_paths_at_index(cur, (n - pos) % n)
    for i in range(n):
      g = back[i].copy().to_pose()
      if not (close(g[:3], first[i][:3], 1e-6) and same_rotation(g[3:], first[i][3:], 1e-6)):
        check.fail('repeated re-basing does not return', dict(case, index=i))
        return


def run(check):
  pool = [motion((0, 0, 0, 1), (1, 0, 0)), motion((1, 0, 0, 1), (0, 1, 0)), motion((0, 0, 1, 0), (0, 2, 1)),
          motion((1, 1, 1, 1), (0, 0, -1))]
  rotations = OCTAHEDRAL + [q for q in GENERIC if max(map(abs, q)) <= 4]
  extra = []
  for n in (4, 5, 6, 8, 5, 6, 7):
    extra.append([motion(check.rng.choice(rotations), [check.rng.randint(-3, 3) for _ in range(3)]) for _ in range(n)])
  # Relative rotations just below and above a half turn, and tiny ones.
  edge = [motion((0, 0, 0, 1), (1, 0, 2)), motion((0, 300, 0, 1)), motion((0, 0, 0, 1), (0, 1, 0)), motion((200, 0, 0, -1)), motion((0, 0, 1, 400)), motion((0, 0, 17, 1), (1, 0, 0)), motion((0, 0, -17, 1))]
  handeye = [motion((0, 1, 0, 1), (1, 2, -1)), motion((1, 0, 0, 0), (0, 0, 1)), motion((1, 2, 3, 4), (0, 1, 0))]
  worlds = [motion((0, 0, 0, 1)), motion((0, 0, 1, 1), (3, 0, -2))]
  if check.thorough:
    pool += [motion((1, 2, 0, 2), (1, 1, 1)), motion((0, 0, 0, 1))]
    handeye += [motion(q, (1, 0, 2)) for q in OCTAHEDRAL[:6]]
    for n in range(3, 12):
      for _ in range(4):
        extra.append([motion(check.rng.choice(rotations), [check.rng.randint(-3, 3) for _ in range(3)]) for _ in range(n)])
  res = check.tlc('Rebase', dict(Pool=tla_set(pool), MaxLen='3', Extra=tla_set(extra), HandEye=tla_set(handeye), Worlds=tla_set(worlds),
                                 Depth='2' if check.thorough else '1', Bound='700'), invariants=['RebaseLaws', 'EyeLaw'])
  check.require_ops((e['op'] for e in res.records), ['rebase', 'eye'])
  check.exhaustive = True
  records = res.records
  if len(records) > 60000:
    records = check.rng.sample(records, 60000)
    check.exhaustive = False
  check.sample(records[0])
  near = [[a, b] for a in edge for b in edge] + [[edge[(i * j + k) % 7] for k in (0, 1, 3, 4)] for i in range(7) for j in (1, 2)]
  res = check.tlc('Rebase', dict(Pool='{}', MaxLen='1', Extra=tla_set(near), HandEye=tla_set(handeye[:2]), Worlds=tla_set(worlds),
                                 Depth='1', Bound='2000000'))
  if not any(0 < m['q'][3] * 100 < max(map(abs, m['q'])) for r in res.records for m in r['res']):
    raise MachineryError('no relative rotation close to a half turn')
  pmap(check, replay, records + res.records)
  some = check.rng.sample(records, min(len(records), 400 if check.thorough else 60)) + check.rng.sample(res.records, 20)
  pmap(check, replay, [extended(e, (15, 40, 60, 130, 300)[i % 5]) for i, e in enumerate(some)] +
       [extended(e, 1500) for e in some if e['op'] == 'rebase'][:3] + [extended(e, 1500) for e in some if e['op'] == 'eye'][:2])
  pmap(check, repeated, extra)
  halves = [e for e in records if e['op'] == 'rebase' and any(m['q'][3] == 0 for m in e['res'])]
  if len(halves) < 20:
    raise MachineryError('no relative half turns')
  pmap(check, next_to_half_turns, halves[:400])
