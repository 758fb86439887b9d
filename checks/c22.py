"""C22: loop and calibration errors (spec/Loop.tla, spec/Align.tla)."""
import math
import random

import numpy as np

from checks.data import compose, invert, perturb, pose_vector, random_pose, axis_angle, qmul, relative
from checks.util import dq_of, motion, off, rotmat, tla, tla_set, unit
from harness.common import MachineryError, pmap

TICK = 1. / 64.


def loop(check, item):
  from hand_eye_calibration.calibration_verification import compute_loop_error
  from hand_eye_calibration.dual_quaternion import DualQuaternion
  from hand_eye_calibration.quaternion import Quaternion
  seed, r = item
  rng = random.Random(seed)
  dqs = [dq_of(m, DualQuaternion, Quaternion, rng.choice((1., -1.))) for m in r['calibrations']]
  before = [d.dq.copy() for d in dqs]
  case = dict(seed=seed, rec=r)
  q = unit(r['loop']['q'])
  position = float(np.linalg.norm(np.array(r['loop']['t'], dtype=float) / r['loop']['d']))
  orientation = math.degrees(2. * math.atan2(np.linalg.norm(q[:3]), abs(q[3])))
  with check.guard('loop error', case):
    got = compute_loop_error(dqs, r['n'])
    if off(got[0], position, 1e-6 * max(1., position)):
      check.fail('position error of the loop', dict(case, got=[float(g) for g in got], want=[position, orientation]))
    if off(got[1], orientation, 1e-5):
      check.fail('orientation error of the loop', dict(case, got=[float(g) for g in got], want=[position, orientation]))
    if not all(np.allclose(d.dq, b, rtol=0., atol=1e-12) or np.allclose(-d.dq, b, rtol=0., atol=1e-12) for d, b in zip(dqs, before)):
      check.fail('calibrations were changed', case)
  check.traces += 1


def angle(q):
  return 2. * math.atan2(np.linalg.norm(q[:3]), abs(q[3]))


def evaluate(check, item):
  from hand_eye_calibration.calibration_verification import evaluate_calibration
  from hand_eye_calibration.dual_quaternion import DualQuaternion
  from hand_eye_calibration.dual_quaternion_hand_eye_calibration import HandEyeConfig
  seed, r = item
  rng = random.Random(seed)
  x, world = random_pose(rng, max_t=0.4), random_pose(rng)
  base = rng.choice((0., 1.5e9))
  stamps = sorted(set([t + r['offset'] for t in r['a']] + r['b']))
  track = {}
  for t in stamps:
    track[t] = random_pose(rng, 2., 1.)
  sign = lambda p: np.concatenate([p[0], p[1] * rng.choice((1., -1.))])
  a = np.array([np.concatenate([[base + t * TICK], sign(track[t + r['offset']])]) for t in r['a']])
  b = np.array([np.concatenate([[base + t * TICK], sign(compose(compose(world, track[t]), x))]) for t in r['b']])
  config = HandEyeConfig()
  config.visualize = False
  dq = lambda p: DualQuaternion.from_pose_vector(np.array(sign(p)))
  case = dict(seed=seed, rec=r)
  keep = a.copy(), b.copy()
  with check.guard('evaluation', case):
    (rp, ro), inliers = evaluate_calibration(a, b, dq(x), r['offset'] * TICK, config)
    if not r['out']:
      if not (rp == float('inf') and ro == float('inf') and inliers == 0):
        check.fail('no common time', dict(case, got=[rp, ro, inliers]))
    elif not (rp < 1e-5 and ro < 1e-3 and inliers == len(r['out'])):
      check.fail('error of the true calibration', dict(case, got=[float(rp), float(ro), int(inliers)]))
    if r['out']:
      other = perturb(x, rng, 0.05, 0.1) if seed % 2 else compose(x, random_pose(rng))
      # Motion of the hand since the first pair against that of the eye, seen through the transform.
      first = track[r['out'][0]]
      ep, eo, good = [], [], 0
      clear = True
      for t in r['out']:
        h = relative(first, track[t])
        e = relative(compose(compose(world, first), x), compose(compose(world, track[t]), x))
        e = compose(compose(other, e), invert(other))
        d = np.linalg.norm(h[0] - e[0]), math.degrees(angle(relative(h, e)[1]))
        ep.append(d[0])
        eo.append(d[1])
        good += d[0] < config.ransac_position_error_threshold_m and d[1] < config.ransac_orientation_error_threshold_deg
        clear = clear and abs(d[0] - config.ransac_position_error_threshold_m) > 1e-6 and abs(d[1] - config.ransac_orientation_error_threshold_deg) > 1e-6
      want = math.sqrt(np.mean(np.square(ep))), math.sqrt(np.mean(np.square(eo)))
      (rp, ro), inliers = evaluate_calibration(a, b, dq(other), r['offset'] * TICK, config)
      if off(rp, want[0], 1e-6) or off(ro, want[1], 1e-4):
        check.fail('errors of another calibration', dict(case, got=[float(rp), float(ro)], want=want))
      elif clear and inliers != good:
        check.fail('inliers of another calibration', dict(case, got=int(inliers), want=good))
    if not (np.array_equal(a, keep[0]) and np.array_equal(b, keep[1])):
      check.fail('recordings were changed', case)
  check.count('evaluations without common time' if not r['out'] else 'evaluations')
  check.traces += 1


def run(check):
  pool = [motion((0, 0, 0, 1)), motion((1, 0, 0, 1), (1, 2, 3)), motion((0, 1, 1, 0), (-2, 0, 1)), motion((1, -1, 1, 1), (0, 5, -1))]
  generic = [motion((1, 2, -2, 4), (1, 0, 3), 2), motion((0, 1, 0, 3), (-1, 2, 2)), motion((2, -1, 0, 1), (3, 1, 1))]
  more = [motion((0, 0, 1, 1), (4, 0, 0)), motion((-1, 0, 0, 1), (0, 0, 2)), motion((1, 0, 0, 0), (1, 1, 1)), motion((0, 1, 0, 1), (-3, 2, 0))]
  dev = [motion((0, 0, 0, 1), (1, 0, 0), 10), motion((0, 0, 1, 20)), motion((0, 1, 0, 1), (1, 1, 0))]
  invs = ['Closes', 'Reveals']
  consts = dict(Pool=tla_set(pool), MaxN='3', Deviations=tla_set(dev), Given='{}', Limit='2000')
  recs = check.tlc('Loop', consts, invariants=invs).records
  recs += check.tlc('Loop', dict(consts, Pool=tla_set(generic), MaxN='2', Deviations=tla_set(dev[:1])), invariants=invs).records
  given = []
  everything = pool + more
  for n in range(4, 9):
    for _ in range(12 if check.thorough else 3):
      given.append([everything[check.rng.randrange(len(everything))] for _ in range(n)])
  recs += check.tlc('Loop', dict(consts, Pool='{}', MaxN='8', Deviations=tla_set(dev[:2] if not check.thorough else dev),
                                 Given=tla_set(given)), invariants=invs, init='GInit').records
  recs.sort(key=str)
  check.require_ops([str(r['n']) for r in recs], [str(n) for n in range(2, 9)])
  check.log('%d loops' % len(recs))
  pmap(check, loop, list(enumerate(recs)))

  align = check.tlc('Align', dict(Gaps='{2, 6}', MaxLen='4', Offsets='{-40, -6, -4, -2, 0, 2, 4, 6, 30}', Near='6', Cases='<<>>'),
                    invariants=['RightOnes', 'Increasing', 'Common']).records
  recs = []
  for r in align:
    shifted = set(t + r['offset'] for t in r['a'])
    if all(t in shifted and t in r['b'] for t in r['out']):
      recs.append(r)
  recs.sort(key=str)
  # Long recordings.
  cases = []
  for n in (40, 150, 700):
    for shift in (-6, 0):
      a = [2 * i for i in range(n)]
      drop = set(check.rng.sample(range(1, n - 1), n // 20))
      cases.append(dict(a=a, b=[t + shift for t in range(2 * n + 5) if t % 2 or t // 2 not in drop], offset=shift))
      cases.append(dict(a=cases[-1]['b'], b=a, offset=-shift))
  for c in cases:
    # Only instants that both have.
    gone = set(t + c['offset'] for t in c['a']) ^ set(c['b'])
    c['a'] = [t for t in c['a'] if len(c['a']) > len(c['b']) or t + c['offset'] not in gone]
    c['b'] = [t for t in c['b'] if len(c['b']) > len(c['a']) or t not in gone]
  res = check.tlc('Align', dict(Gaps='{}', MaxLen='0', Offsets='{}', Near='6', Cases=tla(cases)), invariants=['RightOnes', 'Increasing', 'Common'], init='CInit')
  longer = [r for r in res.records if all(t - r['offset'] in r['a'] and t in r['b'] for t in r['out'])]
  check.log('%d long recordings, up to %d pairs' % (len(longer), max([len(r['out']) for r in longer] or [0])))
  if max([len(r['out']) for r in longer] or [0]) < 600:
    raise MachineryError('no long recordings')
  items = [(check.seed * 10**6 + i, r) for i, r in enumerate(recs + longer)]
  if not check.thorough:
    items = [i for k, i in enumerate(items) if i[1]['out'] or k % 6 == 0]
  check.log('%d evaluations' % len(items))
  pmap(check, evaluate, items)
  check.exhaustive = True
  check.sample(recs[0])
  check.assumptions = ['recordings to evaluate share the instants at which they are paired, so that nothing is interpolated (C15 and C16 judge that)']
