"""C04: screw parameters and the scalar part (spec/Screw.tla)."""
import numpy as np

from checks.util import EDGE, GENERIC, OCTAHEDRAL, close, dq_of, motion, rotmat, tla_set, unit
from harness.common import pmap


def expected(m, sign):
  """Axis, angle in degrees and translation of the representative `sign`."""
  q = unit(m['q']) * sign
  t = np.array(m['t'], dtype=float) / m['d']
  s = np.linalg.norm(q[:3])
  if s == 0.:
    d = np.linalg.norm(t)
    return (t / d if d > 0 else np.zeros(3)), 0., d
  axis = q[:3] / s
  return axis, np.degrees(2. * np.arctan2(s, q[3])), float(np.dot(t, axis))


def check_screw(check, m, case):
  from hand_eye_calibration.dual_quaternion import DualQuaternion
  from hand_eye_calibration.quaternion import Quaternion
  for sign in (1., -1.):
    dq = dq_of(m, DualQuaternion, Quaternion, sign)
    before = dq.dq.copy()
    axis, angle, translation = dq.screw_axis()
    want = expected(m, sign)
    # The same screw may be described by the opposite axis: axis -> -axis,
    # angle -> 360 - angle, translation -> -translation.
    alt = (-want[0], (360. - want[1]) % 360., -want[2])
    ok = False
    # Rounding of the scalar part shows in the angle by the square of the sine.
    tol = 1e-7
    if want[1] > 0:
      tol = max(tol, 1e-14 / np.dot(unit(m['q'])[:3], unit(m['q'])[:3]))
    u = np.max(np.abs(m['t'])) / m['d'] or 1.
    for w in (want, alt) if want[1] > 0 else (want,):
      small = min(w[1], 360. - w[1]) or 1.
      if close(axis, w[0], tol) and abs(angle - w[1]) <= tol * min(1., small) + 1e-12 and close(translation / u, w[2] / u, tol):
        ok = True
    if not ok:
      check.fail('screw parameters', dict(case, motion=m, sign=sign, got=[list(axis), angle, translation],
                                          want=[list(want[0]), want[1], want[2]]))
    if not np.array_equal(dq.dq, before):
      check.fail('screw_axis changes the dual quaternion', dict(case, motion=m))
    s = dq.scalar()
    q = unit(m['q']) * sign
    t = np.array(m['t'], dtype=float) / m['d']
    want_s = [0., 0., 0., q[3], 0., 0., 0., -0.5 * float(np.dot(t, q[:3]))]
    if not (close(s.dq, want_s) and close(s.dq[4:] / u, np.array(want_s[4:]) / u)):
      check.fail('scalar part', dict(case, motion=m, sign=sign, got=list(s.dq), want=want_s))
    if not np.array_equal(dq.dq, before):
      check.fail('scalar changes the dual quaternion', dict(case, motion=m))


def replay(check, e):
  from hand_eye_calibration.dual_quaternion import DualQuaternion
  from hand_eye_calibration.quaternion import Quaternion
  check.traces += 1
  with check.guard('screw', e):
    check_screw(check, e['a'], e)
    check_screw(check, e['b'], e)
    # The change of frame done by the code itself.
    for sa, sx in ((1., 1.), (-1., 1.), (1., -1.)):
      a = dq_of(e['a'], DualQuaternion, Quaternion, sa)
      x = dq_of(e['x'], DualQuaternion, Quaternion, sx)
      b = x * a * x.inverse()
      if not close(a.scalar().dq, b.scalar().dq, 1e-8):
        check.fail('scalar part depends on the frame', dict(e, got=list(b.scalar().dq), want=list(a.scalar().dq)))
      ax, an, tr = a.screw_axis()
      bx, bn, bt = b.screw_axis()
      # Folded to [0, 180] degrees with the matching axis.
      if an > 180.:
        ax, an, tr = -ax, 360. - an, -tr
      if bn > 180.:
        bx, bn, bt = -bx, 360. - bn, -bt
      r = rotmat(e['x']['q'])
      half = abs(an - 180.) < 1e-5
      noise = an < 1e-5
      if noise:
        # Rotation (almost) vanishes: only then the axis is that of the translation.
        continue
      same = close(bx, r.dot(ax), 1e-6) and close(bt, tr, 1e-6)
      flipped = close(bx, -r.dot(ax), 1e-6) and close(bt, -tr, 1e-6)
      if not (close(bn, an, 1e-6) and (same or (half and flipped))):
        check.fail('screw depends on the frame', dict(e, got=[list(bx), bn, bt], want=[list(r.dot(ax)), an, tr]))


def run(check):
  translations = [(0, 0, 0), (1, 2, 3), (-4, 0, 1), (0, 0, 5), (2, -1, 0)]
  motions = [motion(q, t) for q in OCTAHEDRAL + GENERIC[:8] for t in translations]
  frames = [motion((0, 0, 0, 1), (1, -2, 1)), motion((1, 0, 0, 1), (0, 1, 0)), motion((0, 0, 1, 0), (1, 0, -1)),
            motion((1, 1, 1, 1), (0, 2, 0)), motion((1, 0, 0, 3), (0, 0, 1)), motion((0, 0, 0, 1), (0, 0, 0))]
  if check.thorough:
    frames += [motion(q, (1, 0, 2)) for q in OCTAHEDRAL[1:]]
  invariants = ['OneStep', 'AngleInvariant', 'PitchInvariant', 'AxisTurns']
  res = check.tlc('Screw', dict(Motions=tla_set(motions), Frames=tla_set(frames), Depth='2' if check.thorough else '1',
                                Bound='90'), invariants=invariants)
  check.exhaustive = True
  edges = res.records
  check.sample(edges[0])
  # Small rotations and large translations, in their own frame.
  extra = [motion(q, t) for q in [(0, 0, 1, 3000), (1, -1, 2, 9000), (3000, 0, 1, 1), (1, 2, 3, -1)]
           for t in [(5, 7, -11), (0, 0, 0), (1000, -2000, 3)]]
  # From a tenth to a hundred-thousandth of a radian, and as far from a half turn.
  for n in (20, 200, 2000, 20000, 200000):
    for a in ((1, 0, 0), (0, -1, 0), (0, 0, 1), (1, -2, 2), (-3, 0, 4)):
      extra += [motion(a + (n,), t) for t in ((0, 0, 0), (1, 2, -3), (4000, -7, 1))]
      extra += [motion(tuple(n * i for i in a) + (1,), t) for t in ((0, 0, 0), (1, 2, -3))]
  # Tiny and huge translations.
  extra += [motion(q, (3, -1, 2), d) for q in OCTAHEDRAL + GENERIC + EDGE for d in (1000, 10**6, 10**9)]
  extra += [motion(q, (3 * 10**6, -10**6, 20)) for q in OCTAHEDRAL + GENERIC]
  extra += [motion((0, 0, 0, 1), t, 10**8) for t in ((1, 0, 0), (0, -3, 0), (0, 0, 100), (20000, 1, 7))]
  identity = motion((0, 0, 0, 1))
  edges = edges + [dict(a=m, b=m, x=identity) for m in extra]
  pmap(check, replay, edges)
  check.assumptions = ['screw parameters are defined for unit dual quaternions']
