"""C05: interpolation, angles and rates of orientations (spec/Slerp.tla)."""
import itertools

import numpy as np

from checks.util import GENERIC, OCTAHEDRAL, close, quat_mul, same_rotation, tla_set, unit
from harness.common import pmap


FINE = (1e-9, 1e-6, 3e-5, 1e-3, 0.07, 0.31, 0.83, 0.97, 1. - 1e-3, 1. - 3e-5, 1. - 1e-6, 1. - 1e-9)


def rate_constant():
  """The code's own factor between relative rotation and angular velocity."""
  from hand_eye_calibration.quaternion import Quaternion, angular_velocity_between_quaternions
  s = np.sqrt(0.5)
  v = angular_velocity_between_quaternions(Quaternion(0., 0., s, s), Quaternion(0., 0., 0., 1.), 1.)
  return v[2] / (np.pi / 2.)


def replay(check, e):
  from hand_eye_calibration.quaternion import (
      Quaternion, angle_between_quaternions, angular_velocity_between_quaternions, quaternion_lerp, quaternion_nlerp,
      quaternion_slerp, quaternions_interpolate)
  check.traces += 1
  n = e['n']
  arc = [unit(q) for q in e['arc']]
  r = unit(e['r'])
  step_angle = 2. * np.arctan2(np.linalg.norm(r[:3]), r[3])
  with check.guard('interpolation', e):
    factor = rate_constant()
    if not abs(factor) > 1e-3:
      check.fail('angular velocity vanishes', e)
    for sa, sb in itertools.product((1., -1.), repeat=2):
      a, b = Quaternion(q=sa * arc[0]), Quaternion(q=sb * arc[n])
      case = dict(e, signs=[sa, sb])
      for k in range(n + 1):
        f = k / float(n)
        got = quaternion_slerp(a, b, f)
        if not (close(got.norm(), 1., 1e-7) and same_rotation(got.q, arc[k], 1e-8)):
          check.fail('slerp', dict(case, fraction=[k, n], got=list(got.q), want=list(arc[k])))
        if k == 0 and not close(got.q, a.q, 1e-12) or k == n and not close(got.q, b.q, 1e-12):
          check.fail('slerp at an end point', dict(case, fraction=[k, n], got=list(got.q)))
        got = quaternion_lerp(a, b, f)
        want = (1. - f) * a.q + f * b.q
        if not close(got.q, want, 1e-12):
          check.fail('lerp', dict(case, fraction=[k, n], got=list(got.q), want=list(want)))
        got = quaternion_nlerp(a, b, f)
        if np.linalg.norm(want) > 1e-6 and not close(got.q, want / np.linalg.norm(want), 1e-9):
          check.fail('nlerp', dict(case, fraction=[k, n], got=list(got.q)))
      # Between the fractions of the specification: the same arc at the same rate.
      total = n * step_angle
      if total > 1e-3:
        axis = r[:3] / np.linalg.norm(r[:3])
        for f in FINE:
          half = 0.5 * f * total
          part = np.concatenate([np.sin(half) * axis, [np.cos(half)]])
          want = quat_mul(part, arc[0]) if e['side'] == 'left' else quat_mul(arc[0], part)
          got = quaternion_slerp(a, b, f)
          # acos() costs half of the digits of a small angle.
          if not same_rotation(got.q, want, 1e-10 + 4e-16 / total):
            check.fail('slerp between the fractions', dict(case, fraction=f, got=list(got.q), want=list(want)))
      if not (close(a.q, sa * arc[0], 0) and close(b.q, sb * arc[n], 0)):
        check.fail('interpolation changes its arguments', case)
      # The time dependent variant, small and epoch sized time stamps.
      for t0, dt in ((0., 1.), (-3.5, 0.25), (1478863584., 0.5)):
        times = np.array([t0 + dt * k for k in range(n + 1)])
        got = quaternions_interpolate(a, times[0], b, times[-1], times)
        if len(got) != n + 1 or not all(same_rotation(g.q, w, 1e-7) for g, w in zip(got, arc)):
          check.fail('quaternions_interpolate', dict(case, t0=t0, dt=dt))
      # Angles and rates.
      for k in range(n + 1):
        c = Quaternion(q=sb * arc[k])
        ang = angle_between_quaternions(a, c)
        want = k * step_angle
        fold = min(ang, 2. * np.pi - ang)
        if not (np.isfinite(ang) and ang >= 0. and abs(fold - want) < 1e-7):
          check.fail('angle', dict(case, k=k, got=float(ang), want=want))
        back = angle_between_quaternions(c, a)
        if not (np.isfinite(back) and abs(min(back, 2. * np.pi - back) - fold) < 1e-7):
          check.fail('angle is not symmetric', dict(case, k=k, got=float(back), want=float(ang)))
        for dt in (1., 0.5, 0.0078125, 40., 1e-4, 1e-6, 3000.):
          v = angular_velocity_between_quaternions(a, c, dt)
          rel = quat_mul(arc[0], np.concatenate([-arc[k][:3], arc[k][3:]]))
          axis = rel[:3] / np.linalg.norm(rel[:3]) if want > 1e-5 else np.zeros(3)
          if rel[3] < 0:
            axis = -axis
          expected = factor * want / dt * axis
          if not (v.shape == (3,) and np.all(np.isfinite(v)) and
                  np.linalg.norm(v - expected) <= 1e-6 * max(1., abs(factor) * want / dt)):
            check.fail('angular velocity', dict(case, k=k, dt=dt, got=list(v), want=list(expected)))


def rejections(check):
  from hand_eye_calibration.quaternion import Quaternion, quaternion_lerp, quaternion_nlerp, quaternion_slerp, quaternions_interpolate
  u, v = Quaternion(q=unit((1, 2, 3, 4))), Quaternion(q=unit((0, 1, 0, 7)))
  bad = [('fraction', u, v, f) for f in (-1e-3, 1.001, -5., 17., float('nan'))]
  bad += [('norm', Quaternion(q=u.q * k), v, 0.5) for k in (2., 0.5, 1.01, 0.99, 0.)]
  bad += [('norm', u, Quaternion(q=v.q * k), 0.5) for k in (2., 0.5, 1.01, 0.99, 0.)]
  bad += [('norm', u, Quaternion(q=v.q * 3.), f) for f in (0., 1.)]
  for name, fn in (('slerp', quaternion_slerp), ('lerp', quaternion_lerp), ('nlerp', quaternion_nlerp)):
    for why, a, b, f in bad:
      if name != 'slerp' and why == 'norm':
        continue
      check.traces += 1
      try:
        fn(a, b, f)
      except Exception:
        continue
      if name == 'slerp':
        check.fail('%s accepts a bad %s' % (name, why), dict(a=list(a.q), b=list(b.q), fraction=f))
  for t0, t1 in ((0., 1.), (-4., 6.), (1478863584., 1478863585.)):
    for times in ([t0 - 0.1], [t1 + 0.1], [t0, t1 + 50.], [t0 - 1e-3, t0, t1]):
      check.traces += 1
      try:
        quaternions_interpolate(u, t0, v, t1, np.array(times))
      except Exception:
        continue
      check.fail('quaternions_interpolate extrapolates', dict(t_left=t0, t_right=t1, times=times))


def no_nan(check):
  """Unit quaternions whose dot product exceeds one by rounding."""
  from hand_eye_calibration.quaternion import (
      Quaternion, angle_between_quaternions, angular_velocity_between_quaternions, quaternion_slerp)
  rng = np.random.RandomState(check.seed)
  n = 20000 if check.thorough else 2000
  for _ in range(n):
    check.traces += 1
    q = unit(rng.randint(-50, 51, 4) + 0.)
    if not np.all(np.isfinite(q)):
      continue
    eps = rng.choice([0., 1e-16, 1e-12, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5])
    p = unit(q + eps * rng.randn(4))
    for s in (1., -1.):
      a, b = Quaternion(q=q), Quaternion(q=s * p)
      values = [angle_between_quaternions(a, b)] + list(angular_velocity_between_quaternions(a, b, 0.01))
      values += list(quaternion_slerp(a, b, 0.3).q)
      if not np.all(np.isfinite(values)):
        check.fail('not a number', dict(a=list(a.q), b=list(b.q), got=[float(v) for v in values]))
      if not same_rotation(quaternion_slerp(a, b, 0.3).q, q, 1e-4):
        check.fail('slerp of neighbours', dict(a=list(a.q), b=list(b.q)))


def run(check):
  starts = [(0, 0, 0, 1), (1, 0, 0, 0), (0, 1, 0, 1), (1, 2, 3, 4), (-2, 1, 3, -5), (-1, 1, 1, 1)]
  rates = [(0, 0, 0, 1), (1, 0, 0, 1), (0, 1, 0, 2), (0, 0, -1, 3), (1, 1, 1, 4), (-1, 2, 1, 3), (1, 1, 1, 1), (1, -1, 2, 5),
           (0, 1, 0, 12), (2, 0, 1, 1), (5, 0, 0, 2), (3, -4, 1, 1), (1, 0, 1, 40), (0, 1, 0, 200), (1, 0, 0, 1000),
           # Arcs just below a half turn, and tiny ones.
           (100, 0, 0, 1), (0, 1000, 0, 1), (300, -200, 10, 1), (0, 0, 20, 1), (0, 0, 30000, 1), (29, 0, 0, 30), (0, 99, 0, 100), (0, -199, 0, 200), (15, 0, 0, 26), (0, 0, 11, 20), (2, 2, 1, 6), (2, 1, -1, 30000)]
  if check.thorough:
    starts = OCTAHEDRAL + GENERIC
    rates += [q for q in itertools.product((-1, 0, 1, 2), (-1, 0, 2), (-2, 0, 1), (1, 3, 6))]
  res = check.tlc('Slerp', dict(Starts=tla_set(starts), Rates=tla_set(rates), MaxSteps='8' if check.thorough else '6', Bound='100000'),
                  invariants=['OnArc', 'Shortest'])
  if {e['n'] for e in res.records} < {1, 2, 3, 4, 5}:
    raise Exception('arcs are missing')
  check.sample(res.records[0])
  check.exhaustive = True
  pmap(check, replay, res.records)
  with check.guard('rejections', {}):
    rejections(check)
  with check.guard('neighbours', {}):
    no_nan(check)
  check.assumptions = ['orientations a half turn apart have no unique shortest arc and are not judged',
                       'the constant factor of the angular velocity is not judged']
