"""C15: pairing of poses at common instants (spec/Align.tla)."""
import math
import random

import numpy as np

from checks.data import axis_angle, qmul, random_axis, random_pose
from checks.util import same_rotation, tla
from harness.common import MachineryError, pmap

COARSE = 1. / 64.
FINE = 1. / 8192.


def slerp(a, b, f):
  d = float(np.dot(a, b))
  if d < 0.:
    b, d = -b, -d
  angle = math.acos(min(1., d))
  if angle < 1e-9:
    return a
  return (math.sin((1. - f) * angle) * a + math.sin(f * angle) * b) / math.sin(angle)


def pose_at(stream, t):
  """Position and orientation of a stream at time t, by definition."""
  times = stream[:, 0]
  for i in range(len(times)):
    if times[i] == t:
      return stream[i, 1:4], stream[i, 4:8]
  for i in range(len(times) - 1):
    if times[i] < t < times[i + 1]:
      f = (t - times[i]) / (times[i + 1] - times[i])
      return (1. - f) * stream[i, 1:4] + f * stream[i + 1, 1:4], slerp(stream[i, 4:8], stream[i + 1, 4:8], f)
  return None


def make_stream(rng, ticks, base, tick):
  out = []
  q = random_pose(rng)[1]
  for t in ticks:
    q = qmul(q, axis_angle(random_axis(rng), rng.uniform(0., 1.5)))
    out.append([base + t * tick] + [rng.uniform(-2., 2.) for _ in range(3)] + list(q * rng.choice((1., -1.))))
  return np.array(out)


def compare(check, case, got, streams, want):
  if len(got) != 2:
    return check.fail('two aligned streams', case)
  for name, g, s in zip('AB', got, streams):
    if g.shape != (len(want), 8):
      return check.fail('number of pairs', dict(case, got=g[:, 0].tolist(), want=want))
    if not all(abs(g[i, 0] - want[i]) < 1e-9 for i in range(len(want))):
      return check.fail('time stamps', dict(case, got=g[:, 0].tolist(), want=want))
    for i, t in enumerate(want):
      p, q = pose_at(s, t)
      if not np.allclose(g[i, 1:4], p, rtol=0., atol=1e-9):
        return check.fail('position of stream ' + name, dict(case, t=t, got=g[i].tolist(), want=list(p)))
      if not same_rotation(g[i, 4:8], q, 1e-7):
        return check.fail('orientation of stream ' + name, dict(case, t=t, got=g[i].tolist(), want=list(q)))


def replay(check, item):
  from hand_eye_calibration.time_alignment import compute_aligned_poses
  seed, r, tick = item
  rng = random.Random(seed)
  base = rng.choice((0., 1000., 1.5e9))
  far = rng.choice((0., 0., 4096., -1048576.))
  a, b = make_stream(rng, r['a'], base, tick), make_stream(rng, r['b'], base + far, tick)
  offset = r['offset'] * tick + far
  want = [base + far + t * tick for t in r['out']]
  case = dict(seed=seed, rec=r, base=base, far=far)
  keep = a.copy(), b.copy()
  check.count('empty' if not want else 'pairs', max(1, len(want)))
  with check.guard('alignment', case):
    got = compute_aligned_poses(a, b, offset)
    shifted = keep[0].copy()
    shifted[:, 0] += offset
    compare(check, case, got, (shifted, keep[1]), want)
    if not (np.array_equal(a, keep[0]) and np.array_equal(b, keep[1])):
      check.fail('inputs were changed', case)
  check.traces += 1


def long_streams(rng, length=None):
  """Two streams with jitter, drop-outs and unequal rates, in ticks."""
  out = []
  for _ in range(2):
    n = rng.randint(15, 30) if length is None else length + length // 5 * len(out)
    step = rng.choice((1, 2, 3, 4, 5, 6)) if length is None else 6 - len(out)
    t = rng.randint(-20, 20)
    ticks = []
    for _ in range(n):
      ticks.append(t)
      t += step + rng.choice((0, 0, 0, 1, -1 if step > 1 else 0))
      if rng.random() < (0.1 if length is None else 0.01):
        t += rng.choice((5, 6, 7, 12, 13, 14, 30))
    out.append(ticks)
  return dict(a=out[0], b=out[1], offset=rng.randint(-15, 15))


def refined(rng, case):
  """The same streams in finer ticks, with a jitter of less than a millisecond."""
  jitter = lambda ts: [t * 128 + rng.choice((0, 0, 0, 1, -1, 2, -3, 7)) for t in ts]
  return dict(a=jitter(case['a']), b=jitter(case['b']), offset=case['offset'] * 128 + rng.choice((0, 0, 1, -2, 6)))


def run(check):
  invs = ['RightOnes', 'Increasing', 'Common']
  consts = dict(Near='6', Cases='<<>>')
  if check.thorough:
    runs = [dict(Gaps='{2, 5, 6, 7}', MaxLen='4', Offsets='-14..14'), dict(Gaps='{1, 6, 13}', MaxLen='5', Offsets='{-12, -7, -1, 0, 5, 6, 7}')]
  else:
    runs = [dict(Gaps='{2, 6, 7}', MaxLen='4', Offsets='{-8, -6, -5, -2, 0, 1, 6, 7, 9}'), dict(Gaps='{1, 13}', MaxLen='4', Offsets='{-7, -1, 0, 5, 6, 12}')]
  recs = []
  for r in runs:
    recs += check.tlc('Align', dict(consts, **r), invariants=invs).records
  recs.sort(key=lambda r: str(sorted(r.items())))
  check.require_ops([r['low'] + str(min(1, len(r['out']))) for r in recs], ['a0', 'a1', 'b0', 'b1'])
  items = [(check.seed * 10**6 + i, r, COARSE) for i, r in enumerate(recs)]
  if not check.thorough:
    items = [i for k, i in enumerate(items) if i[1]['out'] or k % 4 == 0]
  check.log('%d alignments' % len(items))
  pmap(check, replay, items)
  cases = [long_streams(check.rng) for _ in range(600 if check.thorough else 70)]
  cases += [long_streams(check.rng, n) for n in (100, 250, 600, 2300)]
  res = check.tlc('Align', dict(consts, Gaps='{}', MaxLen='0', Offsets='{}', Cases=tla(cases)), invariants=invs, init='CInit')
  if len(res.records) != len(cases):
    raise MachineryError('%d of %d' % (len(res.records), len(cases)))
  pmap(check, replay, [(check.seed * 10**7 + i, r, COARSE) for i, r in enumerate(res.records)])
  cases = [refined(check.rng, c) for c in cases[:-1]]
  res = check.tlc('Align', dict(consts, Near='819', Gaps='{}', MaxLen='0', Offsets='{}', Cases=tla(cases)), invariants=invs, init='CInit')
  if len(res.records) != len(cases):
    raise MachineryError('%d of %d' % (len(res.records), len(cases)))
  pmap(check, replay, [(check.seed * 10**8 + i, r, FINE) for i, r in enumerate(res.records)])
  check.exhaustive = True
  check.sample(recs[len(recs) // 2])
  check.assumptions = ['stamps are multiples of 1/64 s, so that no distance is exactly 0.1 s', 'streams have at least two poses']
