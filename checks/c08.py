"""C08: uninformative motion and refused input (spec/Informative.tla)."""
import numpy as np

from checks.c07 import vectors
from checks.util import close, motion, motion_pose, rotmat, tla, tla_set
from harness.common import pmap

TOLERANCES = [2, 10, 30, 40]   # thousandths


def stacked(hand, eye):
  """The stacked constraint system of the referenced paper."""
  rows = []
  for a, b in zip(hand, eye):
    a, b = a.dq, b.dq
    if (a[3] < 0.) != (b[3] < 0.):
      b = -b

    def block(u, v):
      s = u + v
      return np.array([[0., -s[2], s[1], u[0] - v[0]], [s[2], 0., -s[0], u[1] - v[1]], [-s[1], s[0], 0., u[2] - v[2]]])
    r, d = block(a[:3], b[:3]), block(a[4:7], b[4:7])
    rows.append(np.hstack([r, np.zeros((3, 4))]))
    rows.append(np.hstack([d, r]))
  return np.vstack(rows)


def check_quality(check, hand, eye, s, bad, case):
  want = np.linalg.svd(stacked(hand, eye), compute_uv=False)
  if not close(s, want, 1e-7):
    check.fail('singular values', dict(case, got=list(s), want=list(want)))
    return
  if min(abs(v - 0.5) for v in want) < 1e-6:
    return
  lowered = all(v >= 0.5 for v in want[:6]) and all(v <= 0.5 for v in want[6:])
  check.count('quality flag lowered' if lowered else 'quality flag raised')
  if bool(bad) == lowered:
    check.fail('quality flag', dict(case, got=bool(bad), singular_values=list(want)))


def replay(check, e):
  from hand_eye_calibration.dual_quaternion_hand_eye_calibration import compute_hand_eye_calibration
  check.traces += 1
  n = len(e['hand'])
  kind = e['event']['kind']
  ones = [1.] * n
  neg = [1.] + [(-1.) ** i for i in range(1, n)]
  check.count(kind)
  for se, k in ((ones, 1.), (neg, 1.), (ones, 0.125), (neg, 8.), (ones, 0.015625)):
    case = dict(x=e['x'], hand=e['hand'], eye=e['eye'], event=e['event'], signs=se, scale=k)
    if kind == 'outlier':
      if k != 1.:
        continue
      loosest = None
      for tol, verdict in reversed(list(zip(TOLERANCES + [49], e['event']['verdicts'] + ['open']))):
        hand, eye = vectors(e, ones, se, k)
        try:
          res = compute_hand_eye_calibration(hand, eye, tol / 1000.)
        except Exception:
          res = None
        if tol == 49:
          loosest = res
        check.count(verdict)
        if verdict == 'refuse' and res is not None:
          check.fail('inconsistent pair calibrated', dict(case, tolerance=tol / 1000.))
        # The solver may give up for other reasons, with any tolerance.
        if verdict == 'accept' and res is None and loosest is not None:
          check.fail('pair within the tolerance refused', dict(case, tolerance=tol / 1000.))
        if res is not None:
          check_quality(check, hand, eye, res[1], res[2], case)
      continue
    hand, eye = vectors(e, ones, se, k)
    if kind == 'start':
      try:
        compute_hand_eye_calibration(hand, eye)
      except Exception:
        continue
      check.fail('trajectory calibrated that does not start at the identity', case)
      continue
    try:
      dq, s, bad = compute_hand_eye_calibration(hand, eye)
    except Exception as ex:
      # The solver may give up if there is no (unique) common transform.
      if kind == 'none' and e['two'] and not e['opposed']:
        check.fail('consistent pairs refused: %s' % ex, case)
      continue
    check_quality(check, hand, eye, s, bad, case)
    if kind == 'none' and not e['two'] and not bad:
      check.fail('uninformative motion is not flagged', dict(case, singular_values=list(s)))


def extended(e, times):
  """The motions many times, before the outlier if there is one."""
  last = [e['event']['at']] if e['event']['kind'] == 'outlier' else []
  order = [0] + [i for i in range(1, len(e['hand'])) if i not in last] * times + last
  return dict(e, hand=[e['hand'][i] for i in order], eye=[e['eye'][i] for i in order])


def run(check):
  # Rotations with rational half-angle cosine, several about the same axis, in
  # both directions, and translations.
  motions = [motion((0, 0, 3, 4), (0, 0, 1)), motion((0, 0, -3, 4), (2, 0, 0)), motion((0, 0, 5, 12), (1, 1, 0)),
             motion((0, 0, 1, 1), (1, 2, 3)), motion((4, 0, 0, 3), (0, 2, 0)), motion((1, 1, 1, 1), (1, 0, 0)),
             motion((0, 7, 0, 24), (0, 1, 0)), motion((0, 0, 0, 1), (1, 0, 2)), motion((0, 0, 0, 1)),
             motion((0, 0, 3, 4), (0, 0, 40))]
  seen = [motion(q, t, d) for q, t, d in [
      ((0, 0, 3, 4), (0, 0, 103), 100), ((0, 0, 3, 4), (0, 0, 11), 10), ((0, 0, 3, 4), (0, 0, 6), 5), ((0, 0, 3, 4), (0, 0, -1), 1),
      ((0, 0, 3, 4), (1, 0, 1), 1), ((0, 0, 4, 3), (0, 0, 1), 1), ((4, 0, 0, 3), (0, 2, 0), 1), ((4, 0, 0, 3), (1, 20, 0), 10),
      ((0, 0, 33, 56), (0, 0, 1), 1), ((0, 7, 0, 24), (0, 1, 0), 1), ((0, 5, 0, 12), (0, 1, 0), 1), ((0, 7, 0, 24), (0, 6, 0), 5),
      ((0, 7, 0, 24), (0, 3, 0), 1), ((0, 0, 0, 1), (0, 0, 0), 1), ((0, 0, 0, 1), (1, 0, 2), 1), ((0, 0, 7, 24), (0, 0, 0), 1),
      ((0, 0, 5, 12), (0, 0, 1), 20), ((0, 0, 8, 15), (0, 0, 0), 1), ((0, 0, -8, 15), (0, 0, 0), 1), ((1, 1, 1, 1), (1, 0, 0), 1), ((0, 0, 3, 4), (0, 0, 42), 1), ((0, 0, 3, 4), (0, 0, 401), 10),
      ((0, 0, 3, 4), (0, 0, -40), 1)]]
  xs = [motion((0, 0, 0, 1)), motion((1, 0, 0, 1), (1, 0, -2)), motion((0, 0, 1, 0), (0, 3, 0)), motion((1, 2, 3, 4), (1, 1, 0))]
  slips = [motion((0, 0, 0, 1), (3, 0, 0)), motion((1, 0, 0, 2)), motion((0, 1, 0, 1), (0, 0, 1)), motion((0, 0, 1, 3), (1, 1, 1))]
  starts = [motion((0, 0, 0, 1), (1, 0, 0)), motion((0, 0, 0, 1), (0, 0, 1), 1000), motion((0, 1, 0, 1000)), motion((1, 0, 0, 1), (0, 1, 0)),
            motion((0, 0, 1, 0))]
  if check.thorough:
    xs += [motion(q, (1, -1, 2)) for q in [(0, 1, 0, 0), (1, 1, 1, 1), (0, -1, 0, 1), (1, 1, 0, 3), (2, 0, 1, 2), (0, 1, 1, 0)]]
    motions += [motion((0, 0, 1, 5), (0, 1, 1)), motion((0, 8, 0, 15), (2, 1, 0))]
  invariants = ['IXExplains', 'IIdentifies', 'IAmbiguous', 'ICongruent', 'OutlierSeen']
  consts = dict(Xs=tla_set(xs), Motions=tla_set(motions), MaxLen='2', Fixed='{}', Others=tla_set(xs[:4]), Bound='20000', EmitAll='TRUE',
                Seen=tla_set(seen), Slips=tla_set(slips), Starts=tla_set(starts), Tolerances=tla(TOLERANCES))
  res = check.tlc('Informative', consts, invariants=invariants, init='IInit', next_='INext')
  records = res.records
  # Three motions: more parallel axes, slips between informative motions.
  consts.update(MaxLen='3', Motions=tla_set(motions[:4] + motions[7:8] if not check.thorough else motions[:6] + motions[7:8]), Starts='{}',
                Xs=tla_set(xs[1:4]), Seen='{}' if not check.thorough else tla_set(seen[:6]))
  records += check.tlc('Informative', consts, invariants=invariants, init='IInit', next_='INext').records
  check.require_ops((e['event']['kind'] for e in records), ['none', 'outlier', 'slip', 'start'])
  check.require_ops((v for e in records if e['event']['kind'] == 'outlier' for v in e['event']['verdicts']), ['refuse', 'accept'])
  if not any(not e['two'] for e in records):
    raise Exception('no uninformative motion')
  check.exhaustive = True
  check.sample(records[0])
  pmap(check, replay, records)
  some = []
  for kind in ('none', 'outlier', 'slip'):
    some += check.rng.sample([e for e in records if e['event']['kind'] == kind], 100 if check.thorough else 40)
  pmap(check, replay, [extended(e, (4, 12, 30, 60, 120)[i % 5]) for i, e in enumerate(some)])
  for name in ('quality flag lowered', 'quality flag raised'):
    if not check.details.get(name) and not check.failures:
      raise Exception('never seen: ' + name)
