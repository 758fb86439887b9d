"""C16: interpolation of poses in time (spec/Interpolate.tla)."""
import random

import numpy as np

from checks.util import off, same_rotation, tla_set, unit
from harness.common import pmap

# Ticks are powers of two so that stamps are exact at any magnitude.
SCALES = [(0., 1.), (-3.5, 0.25), (1000., 1. / 64.), (1478863584., 1. / 16.), (1478863584., 1. / 4096.), (0., 1. / 1048576.), (-1.5e9, 2.), (0., 16.), (1478863584., 1024.),
          (-100., 131072.)]


def rejects(fn):
  try:
    fn()
  except Exception:
    return True
  return False


def replay(check, item):
  from hand_eye_calibration.quaternion import Quaternion
  from hand_eye_calibration.time_alignment import interpolate_poses_from_samples, resample_quaternions, resample_quaternions_from_samples
  seed, r = item
  rng = random.Random(seed)
  base, tick = SCALES[seed % len(SCALES)]
  poses = [(np.array(p['p'], dtype=float), unit(p['q'])) for p in r['poses']]
  knots = r['stamps']
  stream = np.array([[base + t * tick] + list(poses[t][0]) + list(poses[t][1] * rng.choice((1., -1.))) for t in knots])
  keep = stream.copy()
  ticks = list(range(knots[-1] + 1))
  if seed % 3 == 1:
    ticks = ticks[::-1]
  elif seed % 3 == 2:
    ticks = [t for t in ticks if t not in knots] or ticks
  samples = np.array([base + t * tick for t in ticks])
  case = dict(seed=seed, rec=r, base=base, tick=tick)
  with check.guard('interpolation', case):
    got = interpolate_poses_from_samples(stream, samples)
    if got.shape != (len(ticks), 8) or not np.array_equal(got[:, 0], samples):
      check.fail('time stamps', dict(case, got=got[:, 0].tolist()))
    else:
      for i, t in enumerate(ticks):
        exact = t in knots
        if not np.allclose(got[i, 1:4], poses[t][0], rtol=0., atol=1e-12 if exact else 1e-8):
          check.fail('position', dict(case, t=t, got=got[i].tolist()))
        if not same_rotation(got[i, 4:8], poses[t][1], 1e-12 if exact else 1e-7) or off(np.linalg.norm(got[i, 4:8]), 1., 1e-9):
          check.fail('orientation', dict(case, t=t, got=got[i].tolist(), want=poses[t][1].tolist()))
    if not np.array_equal(stream, keep):
      check.fail('input was changed', case)
  times, qs = stream[:, 0].copy(), [Quaternion(q=q) for q in stream[:, 4:8]]
  with check.guard('resampling', case):
    got = resample_quaternions_from_samples(times, qs, samples)
    if len(got) != len(ticks) or not all(same_rotation(g.q, poses[t][1], 1e-7) for g, t in zip(got, ticks)):
      check.fail('orientations at given instants', case)
    got, at = resample_quaternions(times, qs, tick)
    want = [base + t * tick for t in range(knots[-1] + 1)]
    if len(at) != len(want) or not np.allclose(at, want, rtol=0., atol=1e-7 * tick):
      check.fail('resampled instants', dict(case, got=list(at)))
    elif len(got) != len(want) or not all(same_rotation(g.q, p[1], 1e-6) for g, p in zip(got, poses)):
      check.fail('resampled orientations', case)
    if not np.array_equal(times, keep[:, 0]):
      check.fail('input was changed', case)
  for outside in (base - tick, base + (knots[-1] + 1) * tick, base + (knots[-1] + 0.5) * tick, base - 0.5 * tick):
    if not rejects(lambda: interpolate_poses_from_samples(stream, np.array([outside]))):
      check.fail('instant outside the span', dict(case, at=outside))
    if not rejects(lambda: resample_quaternions_from_samples(times, qs, np.array([outside]))):
      check.fail('instant outside the span', dict(case, at=outside))
  check.traces += 1


def chained(records):
  """One record after the other, a tick between them."""
  stamps, poses = [], []
  for r in records:
    stamps += [len(poses) + t for t in r['stamps']]
    poses += r['poses']
  return dict(stamps=stamps, poses=poses)


def run(check):
  starts = [(0, 0, 0, 1), (1, -2, 3, 1), (1, 0, 0, 0), (2, 1, 0, -1)]
  rates = [(0, 0, 0, 1), (1, 0, 0, 3), (0, 1, -1, 4), (1, 2, 2, 9)]
  moves = [(0, 0, 0), (3, -2, 1)]
  consts = dict(Starts=tla_set(starts), Rates=tla_set(rates), Moves=tla_set(moves), Gaps='{1, 2, 3}', MaxSegments='2', Bound='30000')
  recs = check.tlc('Interpolate', consts, invariants=['Complete', 'Uniform']).records
  recs += check.tlc('Interpolate', dict(consts, Starts=tla_set(starts[:2]), Rates=tla_set([(1, 0, 0, 3), (-1, 1, 0, 7)]), Moves=tla_set([(1, 0, -2)]),
                                        Gaps='{1, 2, 4}', MaxSegments='4' if check.thorough else '3', Bound='30000'), invariants=['Complete', 'Uniform']).records
  recs.sort(key=lambda r: str(r))
  n = len(SCALES) if check.thorough else 3
  items = [(check.seed * 10**6 + i * n + k, r) for i, r in enumerate(recs) for k in range(n)]
  check.log('%d trajectories' % len(items))
  pmap(check, replay, items)
  longer = [chained([check.rng.choice(recs) for _ in range(k)]) for k in (5, 12, 25, 60, 150, 700) for _ in range(12 if check.thorough else 4)]
  pmap(check, replay, [(check.seed * 10**6 + i, r) for i, r in enumerate(longer)])
  check.exhaustive = True
  check.sample(recs[0])
  check.assumptions = ['instants are multiples of a power of two']
