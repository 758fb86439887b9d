"""C14: recovery of the time offset (spec/TimeOffset.tla)."""
import json
import math
import random

import numpy as np

from checks.data import axis_angle, qmul, random_axis, random_pose
from checks.util import tla_set
from harness.common import MachineryError, pmap

INVS = ['DelayFound', 'Antisymmetric', 'Shape']
PROFILES = [[3], [1, 2], [2, 0, 3], [1, 3, 2], [-1, -3, -2], [-2, 3, 1], [1, 2, 3, 1], [3, 0, 0, 2], [2, -2, 1, 3]]
BASES = [0., 100., 1.5e9]


def signals(check, r):
  from hand_eye_calibration.time_alignment import calculate_time_offset_from_signals
  i = len(r['a']) * 7 + len(r['b']) * 3 + sum(r['a']) + sum(r['b'])
  base, diff, dt = BASES[i % 3], (0., 2.5, -1.75)[i // 3 % 3], (1., 0.25)[i % 2]
  ta = base + dt * np.arange(len(r['a']))
  tb = base + diff + dt * np.arange(len(r['b']))
  case = dict(rec=r, base=base, diff=diff, dt=dt)
  with check.guard('offset between signals', case):
    a, b = np.array(r['a'], dtype=float), np.array(r['b'], dtype=float)
    if i % 2:
      a, b = list(a), list(b)
    got = calculate_time_offset_from_signals(ta, a, tb, b)
    want = [dt * lag + diff for lag in r['lags']]
    if not any(abs(got - w) < 1e-6 for w in want):
      check.fail('offset between signals', dict(case, got=float(got), want=want))
  check.traces += 1


def angle(profile, t):
  """Angle of the piecewise constant rate at time t in ticks."""
  out = 0.
  for i, v in enumerate(profile):
    out += v * min(1., max(0., t - i))
  return out


def recordings(check, item):
  seed, r = item
  from hand_eye_calibration.quaternion import Quaternion
  from hand_eye_calibration.time_alignment import FilteringConfig, calculate_time_offset
  rng = random.Random(seed)
  rec = r['rec']
  config = FilteringConfig()
  config.smoothing_kernel_size_A, config.smoothing_kernel_size_B = rec['a']['kernel'], rec['b']['kernel']
  # The limit applies to the components of the rates: three of each.
  percentiles = [100. * (1. - float(s['clip']) / (3 * span // r['big'] - 1)) for s, span in ((rec['a'], r['spanA']), (rec['b'], r['spanB']))]
  config.clipping_percentile_A, config.clipping_percentile_B = percentiles
  plain = any(s['clip'] or s['glitch'] for s in (rec['a'], rec['b']))
  axis, start = random_axis(rng), random_pose(rng)[1]
  if plain:
    # One component is the rate.
    axis, start = np.roll([1., 0., 0.], rng.randrange(3)), np.array([0., 0., 0., 1.])
  base = rng.choice(BASES)
  clocks = rng.choice((0., 0., 1e6, -1e6))
  # From a millisecond to minutes.
  TICK = rng.choice((1. / 16., 1. / 1024., 1. / 128., 1. / 2., 64.))
  if seed % 4 == 0:
    clocks += 3.0009765625
  streams = []
  for sensor, span, clock in ((rec['a'], r['spanA'], 0.), (rec['b'], r['spanB'], rec['clock'] * TICK + clocks)):
    n = span // sensor['period']
    ticks = [k * sensor['period'] - sensor['pre'] for k in range(n + 1)]
    left, right = random_pose(rng)[1], random_pose(rng)[1]
    if plain:
      left = right = start
    qs = []
    for t in ticks:
      wrong = sensor['glitch'] if t + sensor['pre'] == r['big'] else 0
      q = qmul(axis_angle(axis, 0.2 * (angle(rec['profile'], t) + wrong)), start)
      q = qmul(qmul(left, q), right) * rng.choice((1., -1.))
      qs.append(Quaternion(q=q))
    streams.append((base + clock + np.array(ticks) * TICK, qs))
  case = dict(seed=seed, rec=r)
  check.count('periods %d and %d' % (rec['a']['period'], rec['b']['period']))
  with check.guard('time offset', case):
    got = calculate_time_offset(streams[0][0], streams[0][1], streams[1][0], streams[1][1], config)
    want = [clocks + o * TICK for o in r['offsets']]
    if not any(abs(got - w) < 1e-4 * min(1., 16. * TICK) for w in want):
      check.fail('time offset', dict(case, got=float(got), want=want))
  check.traces += 1


def long_recording(seed, duration=4.):
  """Two recordings of a smooth motion with rests, as sensors deliver them."""
  from hand_eye_calibration.quaternion import Quaternion
  rng = random.Random(seed)
  parts = rng.randint(2, 4) * int(duration / 4.)
  # No part is so short that a sensor sees only a few samples of it.
  weights = [rng.uniform(1., 4.) for _ in range(parts)]
  cuts = [duration * sum(weights[:i]) / sum(weights) for i in range(parts + 1)]
  one_way = rng.random() < 0.4      # all rotations in one direction
  sense = rng.choice((-1., 1.))
  fixed = random_axis(rng)
  segments = [(cuts[i], cuts[i + 1], fixed if one_way else random_axis(rng),
               (sense if one_way else rng.choice((-1., 1.))) * rng.uniform(0.8, 2.5)) for i in range(parts)]
  q0 = random_pose(rng)[1]

  def at(t):
    q = q0
    for a, b, axis, amount in segments:
      u = min(1., max(0., (t - a) / (b - a))) if b > a else 1.
      f = u - math.sin(2. * math.pi * u) / (2. * math.pi)
      if f > 0.:
        q = qmul(q, axis_angle(axis, amount * f))
    return q
  periods = [rng.choice((0.02, 0.025, 0.04, 0.05) if seed % 3 else (0.004, 0.005, 0.01)) for _ in range(2)]
  offset = rng.choice((0., 0.37, -1.3, 12.5, -40., 1e8, -123456.789, 7654321.1))
  base = rng.choice(BASES)
  streams = []
  for i in range(2):
    ts = np.arange(-rng.uniform(1., 3.), duration + rng.uniform(1., 3.), periods[i])
    left, right = random_pose(rng)[1], random_pose(rng)[1]
    qs = [Quaternion(q=qmul(qmul(left, at(t)), right) * rng.choice((1., -1.))) for t in ts]
    streams.append((ts + base + i * offset, qs))
  return streams, offset, max(periods)


def realistic(check, item):
  from hand_eye_calibration.algorithm_config import get_basic_config
  from hand_eye_calibration.time_alignment import calculate_time_offset
  seed, duration = item
  streams, offset, dt = long_recording(seed, duration)
  case = dict(long_recording=seed, duration=duration, samples=[len(s[0]) for s in streams])
  if min(case['samples']) > 2500:
    check.count('recordings of more than 2500 samples')
  with check.guard('time offset of a long recording', case):
    got = calculate_time_offset(streams[0][0], streams[0][1], streams[1][0], streams[1][1], get_basic_config()[0])
    check.count('long recordings off by %s the interval' % ('at most' if abs(got - offset) <= dt * 1.001 else 'more than'))
    if not abs(got - offset) <= 2. * dt:
      check.fail('time offset of a long recording', dict(case, got=float(got), want=offset, dt=dt))
  check.traces += 1


def exact(check, seed):
  """Stamps at multiples of a power of two: the offset is a whole number of intervals and has to be exact."""
  from checks.c19 import Recording
  from hand_eye_calibration.quaternion import Quaternion
  from hand_eye_calibration.time_alignment import FilteringConfig, calculate_time_offset
  rec = Recording(seed)
  streams = [(np.array([r[0] for r in rows]), [Quaternion(q=np.array(r[4:])) for r in rows]) for rows in (rec.hand, rec.eye)]
  case = dict(exact=seed)
  with check.guard('time offset of a regular recording', case):
    got = calculate_time_offset(streams[0][0], streams[0][1], streams[1][0], streams[1][1], FilteringConfig())
    if not abs(got - rec.offset) <= 1e-6:
      check.fail('time offset of a regular recording', dict(case, got=float(got), want=rec.offset, dt=rec.dt))
  check.traces += 1


def run(check):
  none = dict(Values='{}', MaxLen='0', Profiles='{}', Rests='{}', Periods='{}', Clocks='{}', Kernels='{}', Clips='{}', Glitches='{}')
  recs = []
  for values, n in ((('{0, 1, 2, 3}', 4), ('{-1, 0, 2}', 5)) if check.thorough else (('{0, 1, 3}', 4), ('{-1, 2}', 4))):
    recs += check.tlc('TimeOffset', dict(none, Values=values, MaxLen=str(n)), invariants=INVS).records
  pmap(check, signals, recs)
  consts = dict(none, Profiles=tla_set(PROFILES), Rests='2..4' if check.thorough else '{2, 3}', Periods='{1, 2}',
                Clocks='{-7, -3, 0, 5, 8}' if check.thorough else '{-3, 0, 5}', Kernels='{1, 3}', Clips='{0}', Glitches='{0}')
  res = check.tlc('TimeOffset', consts, invariants=['Recovered', 'Exact'], init='RInit', next_='RNext')
  # Wrong orientations and limits: every combination for few profiles.
  wrong = check.tlc('TimeOffset', dict(consts, Profiles=tla_set([[1, 3, 0, 2, 3, 3], [3, 3, 1, 0, 3, 2, 3]]), Rests='{4, 5}' if check.thorough else '{4}', Clocks='{-3, 5}', Kernels='{1, 3}',
                                       Clips='{0, 2}', Glitches='{0, -9, 11}'), invariants=['Recovered', 'Exact'], init='RInit', next_='RNext')
  more = sorted(res.records + wrong.records, key=lambda r: str(r['rec']))
  # Some offsets are lost to wrong orientations, and the limit keeps some from that.
  lost = dict((json.dumps(r['rec'], sort_keys=True), all(abs(o - r['rec']['clock']) > r['big'] for o in r['offsets'])) for r in wrong.records)
  saved = sum(v and r['rec'][s]['glitch'] != 0 and r['rec'][s]['clip'] == 0 and
              not lost[json.dumps(dict(r['rec'], **{s: dict(r['rec'][s], clip=2)}), sort_keys=True)]
              for r in wrong.records for v in [lost[json.dumps(r['rec'], sort_keys=True)]] for s in 'ab')
  check.count('offsets a limit keeps from being lost', saved)
  if saved < 50:
    raise MachineryError('only %d offsets are kept by a limit' % saved)
  pmap(check, recordings, [(check.seed * 1000000 + i, r) for i, r in enumerate(more)])
  check.require_ops([r['op'] for r in recs + more], ['signals', 'recordings'])
  pmap(check, realistic, [(check.seed * 1000 + i, 4.) for i in range(1000 if check.thorough else 160)] +
       # Thousands of samples.
       [(check.seed * 3000 + 3 * i, 30.) for i in range(40 if check.thorough else 8)])
  pmap(check, exact, [check.seed * 1000 + i for i in range(600 if check.thorough else 80)])
  check.exhaustive = True
  check.sample(more[0])
  check.assumptions = ['exact comparison uses recordings with a piecewise constant rate about one axis and no clipping',
                       'longer recordings with clipping and smoothing are required to be within two intervals of the slower stream']
