"""C12: outlier pairs do not affect the calibration (spec/Outliers.tla)."""
import json
import random
import timeit

import numpy as np

from checks.data import clear_recording, dual_quaternions, pose_vector
from checks.util import same_rotation, tla_set
from harness.common import MachineryError, Timeout, pmap, time_limit


def variants(check):
  out = []
  for cls, size in (('scalar_part_equality', 1), ('scalar_part_equality', 2), ('scalar_part_equality', 3), ('rmse_threshold', 3)):
    for exhaustive in (False, True):
      out.append(dict(alg='search', cls=cls, size=size, exhaustive=exhaustive, min=4))
  for exhaustive in (False, True):
    out.append(dict(alg='baseline', cls='', size=1, exhaustive=exhaustive, min=4))
    out.append(dict(alg='baseline', cls='', size=1, exhaustive=exhaustive, min=5))
  return out


def as_before(vec, before):
  if len(vec) != len(before):
    return False
  return all(np.allclose(v.dq, b, rtol=0., atol=1e-12) or np.allclose(-v.dq, b, rtol=0., atol=1e-12) for v, b in zip(vec, before))


def replay(check, item):
  from hand_eye_calibration import dual_quaternion_hand_eye_calibration as he
  seed, rec, refine, only, prefilter = item
  v = rec['variant']
  rng = random.Random(seed)
  n = len(rec['pattern'])
  outliers = [i for i, c in enumerate(rec['pattern']) if not c]
  # Just more than the tolerance of 0.01, or clearly, or in the position only.
  x, hand, eye = clear_recording(rng, [1 if c else 0 for c in rec['pattern']], slightly=0.012 if seed % 3 == 0 and n <= 8 else None,
                                 shifted=seed % 3 == 1 and n <= 8)
  x = x[1]
  hand = dual_quaternions(hand, [rng.choice((1., -1.)) for _ in hand])
  eye = dual_quaternions(eye, [rng.choice((1., -1.)) for _ in eye])
  c = he.HandEyeConfig()
  c.min_num_inliers = v['min']
  c.enable_exhaustive_search = v['exhaustive']
  c.ransac_sample_size = v['size']
  c.ransac_max_number_samples = 100
  c.prefilter_poses_enabled = prefilter
  # High enough to keep all poses.
  c.prefilter_dot_product_threshold = 1.1
  c.ransac_model_refinement = refine
  c.ransac_evaluate_refined_model_on_inliers_only = only
  case = dict(seed=seed, rec=rec, refine=refine, only=only, prefilter=prefilter)
  if v['alg'] == 'baseline':
    c.use_baseline_approach = True
    fn = he.compute_hand_eye_calibration_BASELINE
  else:
    c.ransac_inlier_classification = v['cls']
    fn = he.compute_hand_eye_calibration_RANSAC
  before = [d.dq.copy() for d in hand], [d.dq.copy() for d in eye]
  random.seed(seed)
  check.count(v['alg'] + ' ' + rec['outcome'])
  for again in range(2 if seed % 9 == 0 else 1):
    result = None
    try:
      began = timeit.default_timer()
      with time_limit(60.):
        result = fn(hand, eye, c)
      took = timeit.default_timer() - began
    except Timeout:
      check.fail('did not return', case)
      return
    except AssertionError as e:
      # The baseline reports too few inliers in this way.
      if not (v['alg'] == 'baseline' and rec['outcome'] == 'never'):
        check.fail('raised: ' + str(e)[:200], case)
    except Exception as e:
      check.fail('raised %s: %s' % (type(e).__name__, str(e)[:200]), case)
    if not as_before(hand, before[0]) or not as_before(eye, before[1]):
      check.fail('poses of the caller were changed', case)
    if result is None:
      continue
    if not -0.01 <= result[5] <= took + 0.05:
      check.fail('runtime', dict(case, got=result[5], took=took))
    success = bool(result[0])
    if success and rec['outcome'] == 'never':
      check.fail('success without enough consistent pairs', case)
    elif not success and rec['outcome'] == 'must':
      check.fail('no success although enough pairs are consistent', case)
    elif success:
      pose = result[1].to_pose()
      want = pose_vector(x)
      if not np.allclose(pose[:3], want[:3], rtol=0., atol=1e-5) or not same_rotation(pose[3:], want[3:], 1e-5):
        check.fail('another transform', dict(case, got=pose.tolist(), want=want.tolist()))
      elif result[3] != rec['inliers']:
        check.fail('number of inliers', dict(case, got=result[3]))
      elif only and not (abs(result[2][0]) < 1e-5 and abs(result[2][1]) < 1e-3):
        check.fail('errors on the inliers', dict(case, got=result[2]))
      check.count('successes')
  check.traces += 1


def run(check):
  consts = dict(MinN='6', MaxN='8' if check.thorough else '7', MinConsistent='3', Variants=tla_set(variants(check)))
  res = check.tlc('Outliers', consts, invariants=['OnlyConsistent', 'AlwaysFound'])
  check.require_ops([r['outcome'] for r in res.records], ['must', 'may', 'never'])
  recs = sorted(res.records, key=lambda r: json.dumps(r, sort_keys=True))
  items = []
  seed = check.seed * 1000000
  for i, r in enumerate(recs):
    for j in range(4 if check.thorough else 1):
      seed += 1
      k = (i + j) % 8
      items.append((seed, r, bool(k & 1), bool(k & 2), bool(k & 4)))
  check.rng.shuffle(items)
  check.log('%d runs' % len(items))
  pmap(check, replay, items)
  # Longer recordings, beyond what is enumerated.
  longer = []
  for i in range(160 if check.thorough else 32):
    n = check.rng.choice((10, 12, 14, 30)) if i % 4 else 30
    pattern = [True] * n
    for o in check.rng.sample(range(n), check.rng.randint(1, n - 6)):
      pattern[o] = False
    if i % 3 == 0:
      pattern[0] = pattern[1] = False
    v = check.rng.choice([v for v in variants(check) if not (v['exhaustive'] and v['size'] > (2 if n < 20 else 1))])
    good = sum(pattern)
    need = v['min'] + (1 if v['alg'] == 'baseline' and not v['exhaustive'] else 0)
    outcome = 'never' if good < need else ('must' if v['exhaustive'] or v['alg'] == 'baseline' else 'may')
    k = check.rng.randrange(8)
    longer.append((seed + 1 + i, dict(pattern=pattern, variant=v, outcome=outcome, inliers=good), bool(k & 1), bool(k & 2), bool(k & 4)))
  pmap(check, replay, longer)
  check.exhaustive = True
  check.sample(items[0])
  check.assumptions = ['consistent pairs agree exactly, outliers disagree with every other pair by more than 0.05 in their screw invariants or by more than 0.012 in the half angle cosine or in the pitch only',
                       'relative rotations of hand poses stay clear of half turns']
