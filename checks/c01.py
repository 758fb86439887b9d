"""C01: quaternion arithmetic and rotation (spec/QuatMachine.tla)."""
import itertools

import numpy as np

from checks.util import EDGE, GENERIC, OCTAHEDRAL, close, rat, rotmat, tla_set, unit
from harness.common import MachineryError, pmap

INVARIANTS = ['NormMultiplicative', 'InverseIsInverse', 'ConjReverses', 'Associative', 'Distributive',
              'MatrixIsRotation', 'RotationComposes']
VECTORS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, -2, 3), (-3, 5, 2), (0, 0, 0)]
SCALARS = [dict(n=n, d=d) for n, d in [(1, 1), (-1, 1), (2, 1), (-3, 2), (1, 4), (7, 3)]]


# Powers of two, down to norms of 1e-8 and up.
SCALES = ((2.**-12, 1.), (2.**9, 2.**-11), (2.**20, 2.**20), (2.**-16, 2.**-3), (2.**-20, 2.**-20), (2.**-24, 2.**24), (2.**5, 2.**-24), (2.**30, 2.**-8))


def make(Quaternion, value, how):
  v = np.array(value, dtype=float)
  if how == 1 and np.all(v == np.round(v)):
    return Quaternion(*[int(i) for i in v])
  if how == 2:
    return Quaternion(q=v)
  return Quaternion(float(v[0]), float(v[1]), float(v[2]), float(v[3]))


def apply(op, reg, b, s):
  if op == 'add':
    return reg + b
  if op == 'sub':
    return reg - b
  if op == 'rsub':
    return b - reg
  if op == 'neg':
    return -reg
  if op == 'mul':
    return reg * b
  if op == 'premul':
    return b * reg
  if op == 'div':
    return reg / b
  if op == 'prediv':
    return b / reg
  if op == 'scale':
    return reg * s
  if op == 'prescale':
    return s * reg
  if op == 'unscale':
    return reg / s
  if op == 'conj':
    return reg.conjugate()
  if op == 'inv':
    return reg.inverse()
  if op == 'copy':
    return reg.copy()
  if op == 'twice':
    return reg + reg
  if op == 'minus':
    return reg - reg
  if op == 'square':
    return reg * reg
  if op == 'ratio':
    return reg / reg
  raise KeyError(op)


# Degree of the result in (register, operand): scaling both by powers of two is exact.
DEGREE = dict(mul=(1, 1), premul=(1, 1), div=(1, -1), prediv=(-1, 1), inv=(-1, 0), conj=(1, 0), neg=(1, 0), copy=(1, 0),
              twice=(1, 0), minus=(1, 0), square=(2, 0), ratio=(0, 0))


def observe(check, q, want, case):
  """Observers of a quaternion with exact value `want`."""
  n2 = float(np.dot(want, want))
  if not close(q.q, want):
    check.fail('value of %s' % case['op'], dict(case, got=list(q.q), want=list(want)))
    return
  if not (close(q.squared_norm(), n2) and close(q.norm(), np.sqrt(n2))):
    check.fail('norm', dict(case, got=[q.squared_norm(), q.norm()], want=n2))
  if n2 == 0:
    return
  for a in (2.**-24, 2.**-13, 2.**12, 2.**30) if n2 >= 1. else (2.**12, 2.**30):
    u = q.copy()
    u.q *= a
    if not (close(u.norm() / a, np.sqrt(n2)) and close(u.squared_norm() / a**2, n2)):
      check.fail('norm at scale', dict(case, a=a, got=[u.squared_norm(), u.norm()]))
    u.normalize()
    if not close(u.q, want / np.sqrt(n2)):
      check.fail('normalize at scale', dict(case, a=a, got=list(u.q)))
  for k in (1.002, 0.9991, 1. - 3e-5, 1. + 4e-7, 1. - 2e-8):
    u = q.copy()
    u.q *= k / np.sqrt(n2)
    u.normalize()
    if not close(u.q, want / np.sqrt(n2)):
      check.fail('normalize an almost normalized quaternion', dict(case, k=k, got=list(u.q)))
  u = q.copy()
  u.normalize()
  if not close(u.q, want / np.sqrt(n2)):
    check.fail('normalize', dict(case, got=list(u.q)))
  if not close(q.q, want):
    check.fail('normalizing a copy changes the original', case)
  m = u.to_rotation_matrix()
  want_m = rotmat(want)
  if not close(m, want_m):
    check.fail('rotation matrix', dict(case, got=m.tolist()))
  t = u.to_transformation_matrix()
  if not (close(t[:3, :3], want_m) and close(t[3], [0, 0, 0, 1]) and close(t[:3, 3], [0, 0, 0])):
    check.fail('transformation matrix', dict(case, got=t.tolist()))
  for v in VECTORS:
    arg = np.array(v, dtype=float)
    got = u.rotate_vector(arg)
    if not close(got, want_m.dot(v)):
      check.fail('rotate_vector', dict(case, vector=v, got=list(got), want=list(want_m.dot(v))))
    if list(arg) != list(v):
      check.fail('rotate_vector changes its argument', dict(case, vector=v))
    if not close((-u).rotate_vector(v), want_m.dot(v)):
      check.fail('-q rotates differently', dict(case, vector=v))
  if not close(u.q, want / np.sqrt(n2)):
    check.fail('observing changes the quaternion', case)


def replay_edges(check, edges):
  from hand_eye_calibration.quaternion import Quaternion
  for e in edges:
    check.traces += 1
    op = e['op']
    before, after = rat(e['before']), rat(e['after'])
    scalar = op in ('scale', 'prescale', 'unscale')
    arg = e['arg']['n'] / e['arg']['d'] if scalar else rat(e['arg'])
    case = dict(op=op, before=e['before'], arg=e['arg'], after=e['after'])
    with check.guard('operation ' + op, case):
      for how in (0, 1, 2):
        reg = make(Quaternion, before, how)
        b = None if scalar else make(Quaternion, arg, how)
        res = apply(op, reg, b, arg)
        if not isinstance(res, Quaternion) or not close(res.q, after):
          check.fail('value of ' + op, dict(case, how=how, got=getattr(res, 'q', res)))
        if not close(reg.q, before, 0) or (b is not None and not close(b.q, arg, 0)):
          check.fail('operand changed by ' + op, dict(case, how=how))
        # The result must not share storage with the operands.
        res.q[0] += 1.
        if not close(reg.q, before, 0) or (b is not None and not close(b.q, arg, 0)):
          check.fail('result of %s aliases an operand' % op, dict(case, how=how))
      if scalar and arg == int(arg):
        if not close(apply(op, make(Quaternion, before, 0), None, int(arg)).q, after):
          check.fail('value of %s with an integer' % op, case)
        if not close(apply(op, make(Quaternion, before, 0), None, np.float64(arg)).q, after):
          check.fail('value of %s with a numpy scalar' % op, case)
      if op in DEGREE:
        # Also close to the unit norm, where a shortcut would be tempting.
        na, nb = np.linalg.norm(before), np.linalg.norm(arg)
        for a, b in SCALES + tuple((e / (na or 1.), e / (nb or 1.)) for e in (1., 1.002, 1. - 3e-5, 1. + 4e-7)):
          da, db = DEGREE[op]
          res = apply(op, make(Quaternion, before * a, 0), None if scalar else make(Quaternion, arg * b, 0), arg)
          if not close(res.q / (a**da * b**db), after):
            check.fail('value of %s at scale' % op, dict(case, a=a, b=b, got=list(res.q)))
      if op in ('add', 'sub', 'rsub'):
        for a in (2.**-24, 2.**-12, 2.**30):
          res = apply(op, make(Quaternion, before * a, 0), make(Quaternion, arg * a, 2), arg)
          if not close(res.q / a, after):
            check.fail('value of %s at scale' % op, dict(case, a=a, got=list(res.q)))
      if scalar:
        for a in (2.**-24, 2.**-10, 2.**24):
          res = apply(op, make(Quaternion, before, 0), None, arg * a)
          if not close(res.q * (a if op == 'unscale' else 1. / a), after):
            check.fail('value of %s at scale' % op, dict(case, a=a, got=list(res.q)))
      observe(check, apply(op, make(Quaternion, before, 0), None if scalar else make(Quaternion, arg, 0), arg), after, case)
    if check.enough():
      return


def replay_behaviour(check, behaviour):
  """One long behaviour on the same objects."""
  from hand_eye_calibration.quaternion import Quaternion
  check.traces += 1
  reg = make(Quaternion, rat(behaviour[0]['before']), 0)
  kept = [(reg, rat(behaviour[0]['before']))]
  for i, e in enumerate(behaviour):
    op = e['op']
    scalar = op in ('scale', 'prescale', 'unscale')
    arg = e['arg']['n'] / e['arg']['d'] if scalar else rat(e['arg'])
    case = dict(op=op, step=i, behaviour=behaviour[:i + 1])
    with check.guard('behaviour', case):
      b = None if scalar else make(Quaternion, arg, 2)
      reg = apply(op, reg, b, arg)
      want = rat(e['after'])
      if not close(reg.q, want, 1e-7):
        check.fail('value after a sequence ending in ' + op, dict(case, got=list(reg.q), want=list(want)))
        return
      kept.append((reg, want))
      if b is not None:
        kept.append((b, arg))
  for q, want in kept:
    if not close(q.q, want, 1e-7):
      check.fail('an earlier operand or result changed', dict(behaviour=behaviour, got=list(q.q), want=list(want)))
      return


def run(check):
  pool = [q for q in itertools.product((-1, 0, 1), repeat=4)]
  start = pool + [q for q in GENERIC]
  operands = [(0, 0, 0, 1), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (1, 2, 3, 4), (-2, 1, 3, -5), (3, -1, 0, 2), (0, 0, 0, -2)]
  if check.thorough:
    operands = operands + OCTAHEDRAL[4:] + GENERIC
  res = check.tlc('QuatMachine', dict(Start=tla_set(start), Operands=tla_set(operands), Scalars=tla_set(SCALARS),
                                      Vectors=tla_set(VECTORS), Steps='2' if check.thorough else '1', Bound='400',
                                      Record='FALSE'), invariants=INVARIANTS)
  check.require_ops((e['op'] for e in res.records), [
      'add', 'sub', 'rsub', 'neg', 'mul', 'premul', 'div', 'prediv', 'scale', 'prescale', 'unscale', 'conj', 'inv', 'copy', 'twice', 'minus',
      'square', 'ratio'])
  edges = res.records
  # Rotations close to none and to a half turn.
  res = check.tlc('QuatMachine', dict(Start=tla_set(EDGE), Operands=tla_set(operands[:6]), Scalars=tla_set(SCALARS[:2]),
                                      Vectors=tla_set(VECTORS), Steps='1', Bound='30000000', Record='FALSE'), invariants=['MatrixIsRotation'])
  if not any(e['op'] == 'inv' and max(map(abs, e['before']['n'])) > 2000 for e in res.records):
    raise MachineryError('no rotation close to a half turn')
  edges += res.records
  if len(edges) > 400000:
    edges = check.rng.sample(edges, 400000)
  check.sample(edges[0])
  chunk = 500
  pmap(check, replay_edges, [edges[i:i + chunk] for i in range(0, len(edges), chunk)])
  n = 4000 if check.thorough else 600
  res = check.tlc('QuatMachine', dict(Start=tla_set(start), Operands=tla_set(operands[:8]), Scalars=tla_set(SCALARS),
                                      Vectors=tla_set(VECTORS[:1]), Steps='10', Bound='3000', Record='TRUE'),
                  simulate=n, depth=14, workers=1)
  check.sample(res.records[0])
  pmap(check, replay_behaviour, res.records)
  check.assumptions = ['components are integers or rationals of bounded size, scaled by powers of two',
                       'quaternions of norm below 1e-8 are outside the claim (normalization leaves them alone)']
