"""C13: the baseline's choice of pairs (spec/Baseline.tla)."""
import copy
import random

import numpy as np

from checks.data import clear_recording, compose, dual_quaternions, invariants, perturb, pose_vector, random_pose, relative
from checks.util import same_rotation
from harness.common import MachineryError, Timeout, pmap, time_limit

TOLERANCE = 1e-2


def judge(check, case, hand, eye, index, rec, only, prefilter, threshold, exact=None):
  """Runs the baseline and compares it with the choice of the specification."""
  from hand_eye_calibration import dual_quaternion_hand_eye_calibration as he
  c = he.HandEyeConfig()
  c.use_baseline_approach = True
  c.min_num_inliers = rec['min']
  c.enable_exhaustive_search = rec['exhaustive']
  c.prefilter_poses_enabled = prefilter
  c.prefilter_dot_product_threshold = threshold
  c.ransac_evaluate_refined_model_on_inliers_only = only
  given = dict(vars(c))
  result = None
  try:
    with time_limit(60.):
      result = he.compute_hand_eye_calibration_BASELINE([d.copy() for d in hand], [d.copy() for d in eye], c)
  except Timeout:
    return check.fail('did not return', case)
  except AssertionError as e:
    if rec['status'] != 'failure':
      return check.fail('raised: ' + str(e)[:200], case)
  except Exception as e:
    return check.fail('raised %s: %s' % (type(e).__name__, str(e)[:200]), case)
  check.traces += 1
  check.count(rec['status'])
  if vars(c) != given:
    return check.fail('the baseline changes the settings it was given', case)
  if result is not None and result[4] != len(index):
    return check.fail('number of prefiltered pairs', dict(case, got=result[4], want=len(index)))
  if rec['status'] == 'failure':
    if result is not None and result[0]:
      check.fail('success without enough agreeing pairs', dict(case, got=result[3]))
    return
  ref = index[rec['ref'] - 1]
  chosen = [index[i - 1] for i in rec['inliers']]
  ah, ae = he.align_paths_at_index([d.copy() for d in hand], ref), he.align_paths_at_index([d.copy() for d in eye], ref)
  # Re-based paths start with their reference.
  chosen = sorted((i - ref) % len(hand) for i in chosen)
  try:
    dq, sv, bad = he.compute_hand_eye_calibration([ah[i].copy() for i in chosen], [ae[i].copy() for i in chosen],
                                                  c.hand_eye_calibration_scalar_part_equality_tolerance)
  except Exception:
    if result[0]:
      check.fail('calibrated on other pairs', case)
    return
  if not result[0]:
    return check.fail('failed', case)
  dq.normalize()
  got = result[1].dq
  if not (np.allclose(got, dq.dq, rtol=0., atol=1e-7) or np.allclose(-got, dq.dq, rtol=0., atol=1e-7)):
    return check.fail('not the calibration of the agreeing pairs', dict(case, ref=ref, chosen=chosen))
  if result[3] != len(chosen):
    return check.fail('number of inliers', dict(case, got=result[3], want=len(chosen)))
  if not np.allclose(result[6], sv, rtol=1e-6, atol=1e-9) or bool(result[7]) != bool(bad):
    return check.fail('singular values', case)
  which = chosen if only else range(len(hand))
  if only:
    ph, pe = he.get_aligned_poses([ah[i].copy() for i in which], [ae[i].copy() for i in which], dq)
  else:
    ph, pe = he.get_aligned_poses(ah, ae, dq)
  rp, ro, _ = he.evaluate_alignment(ph, pe, c)
  if not np.allclose(result[2], [rp, ro], rtol=1e-6, atol=1e-9):
    return check.fail('errors', dict(case, got=[float(i) for i in result[2]], want=[rp, ro]))
  if exact is not None:
    pose, want = result[1].to_pose(), pose_vector(exact)
    if not np.allclose(pose[:3], want[:3], rtol=0., atol=1e-5) or not same_rotation(pose[3:], want[3:], 1e-5):
      return check.fail('another transform', case)
    if only and not (result[2][0] <= 1e-5 and result[2][1] <= 1e-3):
      return check.fail('errors on the inliers', case)


def replay(check, item):
  seed, rec, only, prefilter = item
  rng = random.Random(seed)
  # The agreement relation of these records has clusters.
  names = []
  for s in rec['agree']:
    names.append(min(s))
  x, hand, eye = clear_recording(rng, names)
  hand = dual_quaternions(hand, [rng.choice((1., -1.)) for _ in hand])
  eye = dual_quaternions(eye, [rng.choice((1., -1.)) for _ in eye])
  case = dict(seed=seed, rec=rec, only=only, prefilter=prefilter)
  exact = x[names[rec['ref'] - 1]] if rec['ref'] else None
  judge(check, case, hand, eye, list(range(len(hand))), rec, only, prefilter, 1.1, exact)


def noisy(rng):
  """A recording with partial agreement, and that agreement; None if unclear."""
  from hand_eye_calibration import dual_quaternion_hand_eye_calibration as he
  n = rng.choice((7, 8, 9, 10, 10, 14))
  x, world = random_pose(rng, max_t=0.3), random_pose(rng)
  hand = [random_pose(rng, 2.2, 0.5) for _ in range(n)]
  eye = []
  sigma = rng.choice((0.004, 0.008, 0.015))
  for h in hand:
    e = compose(compose(world, h), x)
    eye.append(random_pose(rng) if rng.random() < 0.15 else perturb(e, rng, sigma, sigma * 1.5))
  prefilter = rng.random() < 0.5
  threshold = rng.choice((0.975, 0.9))
  # Prefiltering depends on signs, which the baseline chooses itself.
  hq = dual_quaternions(hand, [1. if h[1][3] >= 0. else -1. for h in hand])
  eq = dual_quaternions(eye, [1. if e[1][3] >= 0. else -1. for e in eye])
  index = list(range(n))
  if prefilter:
    try:
      fh, _ = he.prefilter_using_screw_axis(copy.deepcopy(hq), copy.deepcopy(eq), threshold)
    except AssertionError:
      return None
    index = [next(i for i in range(n) if np.array_equal(hq[i].dq, f.dq)) for f in fh]
  if len(index) < 5:
    return None
  agree = []
  for a in index:
    row = []
    for k, b in enumerate(index):
      p, q = invariants(relative(hand[a], hand[b])), invariants(relative(eye[a], eye[b]))
      if a != b and (abs(p[0]) < 0.05 or abs(q[0]) < 0.05):
        return None
      d = max(abs(p[0] - q[0]), abs(p[1] - q[1]))
      if abs(d - TOLERANCE) < 1e-4:
        return None
      if d < TOLERANCE:
        row.append(k + 1)
    agree.append(set(row))
  for e in eq:
    if rng.random() < 0.5:
      e.dq = -e.dq
  return hq, eq, index, agree, prefilter, threshold


def long_one(rng):
  """A long recording in which the first pairs are often outliers."""
  n = rng.choice((12, 15, 24, 40))
  x, world = random_pose(rng, max_t=0.3), random_pose(rng)
  late = rng.choice((0, 3, 9, 11))
  hand, eye = [], []
  for i in range(n):
    h = random_pose(rng, 1.2, 0.5)
    hand.append(h)
    if i < late or rng.random() < 0.3:
      h = random_pose(rng, 1.2, 0.5)
    eye.append(compose(compose(world, h), x))
  agree = []
  for a in range(n):
    row = set()
    for b in range(n):
      p, q = invariants(relative(hand[a], hand[b])), invariants(relative(eye[a], eye[b]))
      d = max(abs(p[0] - q[0]), abs(p[1] - q[1]))
      if abs(d - TOLERANCE) < 1e-5:
        return None
      if d < TOLERANCE:
        row.add(b + 1)
    agree.append(row)
  signs = lambda: [rng.choice((1., -1.)) for _ in range(n)]
  return dual_quaternions(hand, signs()), dual_quaternions(eye, signs()), list(range(n)), agree, False, 1.


def run(check):
  consts = dict(Cases='<<>>', MaxN='4', Mins='{1, 2, 3}', ClusterN='{}')
  invs = ['Failure', 'Largest', 'First']
  check.tlc('Baseline', consts, invariants=invs)
  n = '{6, 7, 8}' if check.thorough else '{6, 7}'
  res = check.tlc('Baseline', dict(consts, Mins='{3, 4}', ClusterN=n), invariants=invs, init='GInit', next_='ENext')
  items = []
  for i, r in enumerate(sorted(res.records, key=lambda r: str(sorted(r.items())))):
    r.pop('case')
    items.append((check.seed * 100000 + i, r, bool(i % 2), bool(i // 2 % 2)))
  if not check.thorough:
    # All successes, some failures.
    items = [i for k, i in enumerate(items) if i[1]['status'] == 'success' or k % 5 == 0]
  check.log('%d runs' % len(items))
  pmap(check, replay, items)
  check.require_ops([r['status'] for r in res.records], ['success', 'failure'])

  # Noisy recordings, where agreement is no equivalence.
  made = []
  while len(made) < (1500 if check.thorough else 300):
    seed = check.rng.randrange(10**9)
    m = noisy(random.Random(seed))
    if m is not None:
      made.append((seed, m))
  target = len(made) + (200 if check.thorough else 40)
  while len(made) < target:
    seed = check.rng.randrange(10**9)
    m = long_one(random.Random(seed))
    if m is not None:
      made.append((seed, m))
  cases = []
  for i, (seed, m) in enumerate(made):
    cases.append('[agree |-> <<%s>>, min |-> %d, exhaustive |-> %s]' % (
        ', '.join('{%s}' % ', '.join(map(str, sorted(s))) for s in m[3]), (3, 4, 5)[i % 3], 'TRUE' if i % 2 else 'FALSE'))
  res = check.tlc('Baseline', dict(consts, Cases='<<%s>>' % ', '.join(cases)), invariants=invs, init='CInit', next_='ENext')
  if len(res.records) != len(made):
    raise MachineryError('%d of %d' % (len(res.records), len(made)))
  partial = sum(1 for r in res.records if any(sorted(r['agree'][b - 1]) != sorted(s) for s in r['agree'] for b in s))
  check.count('agreement that is no equivalence', partial)

  def one(check, item):
    rec = item
    seed, m = made[rec['case'] - 1]
    only = bool(seed % 2)
    case = dict(noisy_seed=seed, rec=rec, only=only)
    judge(check, case, m[0], m[1], m[2], rec, only, m[4], m[5])
  pmap(check, one, res.records)
  check.exhaustive = True
  check.sample(items[0])
  check.assumptions = ['the calibration of a given set of pairs is judged by C07, the evaluation of errors by C10',
                       'agreement within 1e-4 of the tolerance is left out']
