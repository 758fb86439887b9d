"""C11: random and exhaustive search (spec/Search.tla, recorded runs validated by spec/SearchTrace.tla)."""
import copy
import itertools
import math
import random

import numpy as np

from checks.data import dual_quaternions, recording
from checks.util import tla, tla_set
from harness.common import MachineryError, Timeout, pmap, time_limit

INVARIANTS = ['BestEvaluated', 'BestNotDominated', 'EnoughInliers', 'Honest', 'Complete', 'Bounded']


class Instance(object):
  """One search problem: poses and configuration, with the outcome of every sample."""

  def __init__(self, hand, eye, settings):
    from hand_eye_calibration import dual_quaternion_hand_eye_calibration as he
    self.he = he
    self.hand = hand
    self.eye = eye
    self.config = he.HandEyeConfig()
    for k, v in settings.items():
      if not hasattr(self.config, k):
        raise MachineryError('no such setting: ' + k)
      setattr(self.config, k, v)
    if self.config.prefilter_poses_enabled:
      fh, fe = he.prefilter_using_screw_axis(copy.deepcopy(hand), copy.deepcopy(eye), self.config.prefilter_dot_product_threshold)
      self.index = []
      for a, b in zip(fh, fe):
        self.index.append(next(i for i in range(len(hand)) if np.array_equal(hand[i].dq, a.dq) and np.array_equal(eye[i].dq, b.dq)))
    else:
      self.index = list(range(len(hand)))
    self.cache = {}

  def outcome(self, sample):
    """Evaluates the sample (positions among the prefiltered pairs)."""
    key = (sample[0],) + tuple(sample[1:])
    if key not in self.cache:
      self.cache[key] = self._outcome(sample)
    return self.cache[key]

  def _scalar_equal(self, a, b):
    return np.allclose(a.scalar().dq, b.scalar().dq, atol=self.config.ransac_sample_rejection_scalar_part_equality_tolerance)

  def _outcome(self, sample):
    he, c = self.he, self.config
    idx = [self.index[i] for i in sample]
    sh = he.align_paths_at_index([self.hand[i].copy() for i in idx], 0)
    se = he.align_paths_at_index([self.eye[i].copy() for i in idx], 0)
    if len(idx) > 1 and not all(self._scalar_equal(a, b) for a, b in zip(sh, se)):
      return None
    hand = he.align_paths_at_index(self.hand, idx[0])
    eye = he.align_paths_at_index(self.eye, idx[0])
    initial = None
    if c.ransac_inlier_classification == 'rmse_threshold':
      try:
        initial, sv, bad = he.compute_hand_eye_calibration(sh, se, c.hand_eye_calibration_scalar_part_equality_tolerance)
      except Exception:
        return None
      ph, pe = he.get_aligned_poses(hand, eye, initial)
      flags = he.evaluate_alignment(ph, pe, c)[2]
      if not all(self._scalar_equal(a, b) for a, b, f in zip(hand, eye, flags) if f):
        return None
    else:
      flags = [self._scalar_equal(a, b) for a, b in zip(hand, eye)]
    ih = [a for a, f in zip(hand, flags) if f]
    ie = [a for a, f in zip(eye, flags) if f]
    if len(ih) < c.min_num_inliers:
      return None
    final = initial
    if c.ransac_model_refinement or initial is None:
      try:
        final, sv, bad = he.compute_hand_eye_calibration(ih, ie, c.hand_eye_calibration_scalar_part_equality_tolerance)
      except Exception:
        return None
    if c.ransac_evaluate_refined_model_on_inliers_only:
      ph, pe = he.get_aligned_poses(ih, ie, final)
    else:
      ph, pe = he.get_aligned_poses(hand, eye, final)
    rp, ro, _ = he.evaluate_alignment(ph, pe, c)
    return dict(dq=np.array(final.dq), p=rp, o=ro, k=len(ih), s=np.array(sv), bad=bool(bad))


def run_search(inst, seed):
  """Runs the real search, recording what it draws."""
  drawn = []
  original = random.sample

  def sample(population, k, **kw):
    result = original(population, k, **kw)
    drawn.append(list(result))
    return result
  random.seed(seed)
  np.random.seed(seed)
  random.sample = sample
  try:
    hand, eye = [d.copy() for d in inst.hand], [d.copy() for d in inst.eye]
    config = copy.deepcopy(inst.config)
    result = inst.he.compute_hand_eye_calibration_RANSAC(hand, eye, config)
  finally:
    random.sample = original
  return result, drawn, vars(config) == vars(inst.config)


def same_candidate(result, o):
  dq = result[1].dq
  near = np.allclose(dq, o['dq'], rtol=0., atol=1e-7) or np.allclose(-dq, o['dq'], rtol=0., atol=1e-7)
  return (near and np.allclose(result[2][0], o['p'], rtol=1e-6, atol=1e-9) and np.allclose(result[2][1], o['o'], rtol=1e-6, atol=2e-8) and result[3] == o['k'] and
          result[6] is not None and np.allclose(result[6], o['s'], rtol=1e-6, atol=1e-9) and bool(result[7]) == o['bad'])


def ranks(values):
  """Integers in the same order, equal up to rounding being equal."""
  out = {}
  rank, last = 0, None
  for v in sorted(values):
    if last is not None and v > last * (1. + 1e-9) + 1e-12:
      rank += 1
    last = v
    out[v] = rank
  return out


def make_run(check, item):
  """One recorded run in the form of SearchTrace, or None."""
  seed, settings, data = item
  rng = random.Random(seed)
  try:
    _, hand, eye = recording(rng, **data)
  except ValueError:
    raise MachineryError('recording')
  signs = [rng.choice((1., -1.)) for _ in hand], [rng.choice((1., -1.)) for _ in hand]
  hand, eye = dual_quaternions(hand, signs[0]), dual_quaternions(eye, signs[1])
  if data.get('n', 0) > 5 and seed % 5 == 0:
    hand[3], eye[3] = hand[1].copy(), eye[1].copy()     # a repeated measurement
  if data.get('n', 0) > 5 and seed % 5 in (1, 2):
    # The hand stands still, the eye sees something else.
    for i in data.get('outliers', ()):
      hand[i] = hand[(i + 2) % len(hand)].copy()
  case = dict(seed=seed, settings=settings, data=data)
  try:
    inst = Instance(hand, eye, settings)
  except AssertionError:
    return None   # fewer than two distinct pairs
  c = inst.config
  n, size = len(inst.index), c.ransac_sample_size
  try:
    with time_limit(120.):
      result, drawn, unchanged = run_search(inst, seed)
  except Timeout:
    check.fail('search does not terminate', case)
    return None
  except Exception as e:
    if not c.enable_exhaustive_search and size > n:
      return None
    check.fail('search raised %s: %s' % (type(e).__name__, str(e)[:200]), case)
    return None
  if not unchanged:
    check.fail('the search changes the settings it was given', case)
  if result[4] != n:
    check.fail('number of prefiltered pairs', dict(case, got=result[4], want=n))
  observed = True
  if c.enable_exhaustive_search:
    draws = [list(s) for s in itertools.combinations(range(n), size)]
  elif drawn and all(len(s) == size and all(isinstance(i, (int, np.integer)) and 0 <= i < n for i in s) and len(set(s)) == size for s in drawn):
    draws = [[int(i) for i in s] for s in drawn]
  else:
    # Draws are made in another way: only the result can be judged.
    observed = False
    draws = [list(s) for s in itertools.permutations(range(n), size)]
  samples = []
  positions = {}
  for s in draws:
    if tuple(s) not in positions:
      positions[tuple(s)] = len(samples) + 1
      samples.append(s)
  outcomes = [inst.outcome(s) for s in samples]
  rp = ranks([o['p'] for o in outcomes if o])
  ro = ranks([o['o'] for o in outcomes if o])
  confident = 0
  if c.ransac_enable_early_abort and not c.enable_exhaustive_search:
    need = math.log(1. - c.ransac_success_probability_threshold) / math.log(1. - (1. - c.ransac_outlier_probability) ** size)
    confident = int(math.floor(need)) + 1
  success = bool(result[0])
  claims = []
  if success:
    claims = [i + 1 for i, o in enumerate(outcomes) if o and same_candidate(result, o)]
    if not observed and not claims:
      check.fail('result is not a candidate with its own figures', case)
  elif not observed and all(outcomes):
    check.fail('every sample has a candidate and none is found', case)
  if not observed:
    return None
  run = dict(cfg=dict(mode='exhaustive' if c.enable_exhaustive_search else 'random', maxFull=c.ransac_max_number_iterations, confident=confident,
                      maxDraws=c.ransac_max_number_samples, minInliers=c.min_num_inliers),
             table=[dict(ok=bool(o), p=rp[o['p']] if o else 0, o=ro[o['o']] if o else 0, k=o['k'] if o else 0) for o in outcomes],
             draws=[positions[tuple(s)] for s in draws], claims=claims, success=success)
  return run, case


_RUNS = []


def worker(check, item):
  out = make_run(check, item)
  if out is not None:
    check.samples.append(out)   # handed back to the parent


def plan(check):
  items = []
  base = dict(min_num_inliers=4, ransac_sample_size=3)
  variants = []
  for cls in ('scalar_part_equality', 'rmse_threshold'):
    for exhaustive in (False, True):
      for refine in (True, False):
        for only in (False, True):
          variants.append(dict(base, ransac_inlier_classification=cls, enable_exhaustive_search=exhaustive, ransac_model_refinement=refine,
                               ransac_evaluate_refined_model_on_inliers_only=only))
  noise = dict(sigma_t=0.004, sigma_r=0.006)
  strong = dict(sigma_t=0.008, sigma_r=0.015)
  slight = dict(sigma_t=2e-5, sigma_r=1e-5)
  rounds = 12 if check.thorough else 3
  seed = check.seed * 100000
  rng = random.Random(check.seed)
  for r in range(rounds):
    for i, v in enumerate(variants):
      seed += 1
      v = dict(v, prefilter_poses_enabled=bool((r + i) % 2), ransac_position_error_threshold_m=0.1, ransac_orientation_error_threshold_deg=5.)
      k = (r * 5 + i) % 7
      data = [dict(n=7, outliers=(2,), **noise), dict(n=7, outliers=(0, 5), **noise), dict(n=6, **strong), dict(n=8, outliers=(1, 4, 6), **noise),
              dict(n=6, outliers=(0, 1, 2, 3, 4, 5)), dict(n=7, outliers=(6,), **strong), dict(n=7, outliers=(3,))][k]
      if not v['enable_exhaustive_search']:
        v.update([dict(ransac_max_number_iterations=3, ransac_enable_early_abort=False), dict(ransac_max_number_iterations=20),
                  dict(ransac_max_number_iterations=6, ransac_max_number_samples=10), dict(ransac_success_probability_threshold=0.8, ransac_outlier_probability=0.4),
                  dict(ransac_max_number_iterations=1), dict(ransac_max_number_iterations=12, ransac_enable_early_abort=False,
                                                             ransac_max_number_samples=60)][(r + i) % 6])
        if 'ransac_max_number_samples' not in v:
          v['ransac_max_number_samples'] = 300
      if (r + i) % 5 == 4:
        v['ransac_sample_size'] = 2
      if (r + i) % 7 == 3:
        v['min_num_inliers'] = 6
      if v['ransac_inlier_classification'] == 'scalar_part_equality' and (r + i) % 6 == 5:
        v['ransac_sample_size'] = 1
      # Loose enough that samples with noise are accepted, tight enough that some are not.
      v['ransac_sample_rejection_scalar_part_equality_tolerance'] = (0.01, 0.02, 0.03)[i % 3]
      items.append((seed, v, data))
      items.append((seed + 50000, v, data))
  # Short random searches whose candidates win by one error only.
  for i in range(400 if check.thorough else 120):
    seed += 1
    v = dict(variants[i * 5 % 16], ransac_position_error_threshold_m=0.1, ransac_orientation_error_threshold_deg=5., prefilter_poses_enabled=bool(i % 2),
             ransac_enable_early_abort=False, ransac_max_number_iterations=rng.choice((2, 3, 4, 6, 8)), ransac_max_number_samples=rng.choice((20, 40, 60)),
             ransac_sample_rejection_scalar_part_equality_tolerance=rng.choice((0.02, 0.04)), min_num_inliers=rng.choice((2, 3, 4)),
             ransac_sample_size=rng.choice((2, 3)))
    items.append((seed, v, dict(n=rng.choice((5, 6, 7)), outliers=rng.choice(((), (1,), (0, 3))), **(slight if i % 4 == 3 else rng.choice((noise, strong))))))
  # More pairs: hundreds of samples, or more than a thousand of which only late ones are of use.
  for i in range(16 if check.thorough else 6):
    seed += 1
    v = dict(variants[4 + i % 4 + 8 * (i % 3 == 2)], ransac_position_error_threshold_m=0.1, ransac_orientation_error_threshold_deg=5., prefilter_poses_enabled=bool(i % 2),
             prefilter_dot_product_threshold=1.1, ransac_sample_rejection_scalar_part_equality_tolerance=0.02)
    items.append((seed, v, dict(n=11, outliers=(0, 1, 2, 3, 5, 7) if i % 2 else (1, 2, 4, 6, 8), **noise)))
    if i < 2:
      items.append((seed + 50000, dict(v, prefilter_poses_enabled=False), dict(n=20, outliers=tuple(range(12)), **noise)))
    items.append((seed + 60000, dict(v, ransac_sample_size=1, ransac_inlier_classification='scalar_part_equality', prefilter_poses_enabled=False),
                  dict(n=40, outliers=tuple(range(25)) if i % 2 else (), max_angle=1.3, **noise)))
  return items


def other_winners(run):
  """Orders of the candidates that would have another one win."""
  rules = dict(both=lambda a, b: a['p'] < b['p'] and a['o'] < b['o'], either=lambda a, b: a['p'] < b['p'] or a['o'] < b['o'],
               position=lambda a, b: a['p'] < b['p'], orientation=lambda a, b: a['o'] < b['o'], inliers=lambda a, b: a['k'] > b['k'])
  best = {}
  for i in run['draws']:
    c = run['table'][i - 1]
    for name, better in rules.items():
      if c['ok'] and (name not in best or better(c, run['table'][best[name] - 1])):
        best[name] = i
  return [name for name in best if run['table'][best[name] - 1] != run['table'][best['both'] - 1]]


def run(check):
  outcomes = [dict(ok=False, p=0, o=0, k=0), dict(ok=True, p=1, o=1, k=1)]
  outcomes += [dict(ok=True, p=p, o=o, k=2) for p in range(3) for o in range(3)]
  settings = [dict(mode='exhaustive', maxFull=9, confident=0, maxDraws=9, minInliers=2), dict(mode='random', maxFull=2, confident=0, maxDraws=4, minInliers=2),
              dict(mode='random', maxFull=4, confident=2, maxDraws=4, minInliers=1), dict(mode='random', maxFull=4, confident=0, maxDraws=3, minInliers=2)]
  consts = dict(Settings=tla_set(settings), Outcomes=tla_set(outcomes), NumSamples='3')
  check.tlc('Search', consts, invariants=INVARIANTS)
  check.tlc('Search', dict(consts, Outcomes=tla_set(outcomes[:2] + outcomes[-3:]), NumSamples='2'), spec='Spec', properties=['Terminates'], workers=1)
  items = plan(check)
  # Runs come back as samples of the workers.
  keep, check.samples = check.samples, []
  limit = check.sample
  check.sample = lambda case: check.samples.append(case)
  pmap(check, worker, items, chunks=len(items))
  check.sample = limit
  out, check.samples = check.samples, keep
  runs = [o[0] for o in out]
  cases = [o[1] for o in out]
  if check.failures:
    return
  if not runs:
    check.traces += len(items)
    return
  kinds = set((r['cfg']['mode'], r['success']) for r in runs)
  if len(kinds) < 4:
    check.log('kinds of runs: %s' % sorted(kinds))
  # Corrupted runs have to be rejected.
  bad = []
  for r in runs:
    if r['cfg']['mode'] == 'random' and len(r['draws']) > 1 and len(bad) < 6:
      bad.append(dict(r, draws=r['draws'][:-1]))
      bad.append(dict(r, draws=r['draws'] + r['draws'][:1]))
    if r['success'] and len(bad) < 8:
      bad.append(dict(r, success=False))
    if r['success'] and len(bad) < 10:
      bad.append(dict(r, claims=[]))
  res = check.tlc('SearchTrace', dict(consts, Runs=tla(runs + bad)), invariants=INVARIANTS, init='TInit', next_='TNext')
  verdicts = dict((v['run'], v['verdict']) for v in res.records)
  if len(verdicts) != len(runs) + len(bad):
    raise MachineryError('%d verdicts for %d runs' % (len(verdicts), len(runs) + len(bad)))
  # (Corrupting a run that is wrong already may make it right.)
  if all(verdicts[i + 1] == 'ok' for i in range(len(runs))) and any(verdicts[len(runs) + i + 1] == 'ok' for i in range(len(bad))):
    raise MachineryError('a corrupted run was accepted')
  check.traces += len(runs)
  for i, r in enumerate(runs):
    check.count('%s, %s' % (r['cfg']['mode'], 'success' if r['success'] else 'failure'))
    for name in other_winners(r):
      check.count('another one wins by ' + name)
    check.count('candidates', sum(1 for t in r['table'] if t['ok']))
    if verdicts[i + 1] != 'ok':
      check.fail(verdicts[i + 1], dict(cases[i], run=r))
  check.sample(dict(cases[0], draws=runs[0]['draws']))
  check.assumptions = ['the outcome of a single sample is computed with the functions that C06 to C10 judge',
                       'draws of the random search are observed at random.sample']
