"""C28: dual quaternions in general: algebra, norm, comparison (spec/DualMachine.tla)."""
import contextlib
import io

import numpy as np

from checks.util import close, rat, tla_set
from harness.common import MachineryError, pmap

INVARIANTS = ['InverseIsInverse', 'ConjReverses', 'Associative', 'Distributive', 'SquaredNorm', 'UnitsCompose']
SCALARS = [dict(n=n, d=d) for n, d in [(1, 1), (-1, 1), (2, 1), (-3, 2), (1, 4), (7, 3)]]
SCALAR_OPS = ('scale', 'prescale', 'unscale')
# Amounts that have to be noticed, relative to 1, and amounts that rounding may cause.
EQ_VISIBLE, EQ_NEGLIGIBLE = (1e-4, -1e-3, 0.02, -0.5, 1., -3.), (1e-12, -1e-11)
NORM_VISIBLE, NORM_NEGLIGIBLE = (2e-7, -1e-6, 1e-5, -1e-3, 0.01, -0.3, 0.7, 3.), (1e-12, -1e-11, 3e-11)
# Powers of two: (scale of the rotational part, of the dual part) for register and operand.
SCALES = ((2.**-12, 1.), (1., 2.**14), (2.**9, 2.**-11), (2.**20, 2.**20), (2.**-16, 2.**-3), (2.**-20, 2.**-20), (2.**5, 2.**-24))


def vec(x):
  return np.concatenate([rat(x['r']), rat(x['e'])])


def make(D, Q, v, how):
  v = np.array(v, dtype=float)
  if how == 1 and np.all(v == np.round(v)):
    return D.from_vector([int(i) for i in v])
  if how == 2:
    return D(Q(q=v[:4]), Q(*[float(i) for i in v[4:]]))
  if how == 3:
    return D.from_vector([float(i) for i in v])
  return D.from_vector(v)


def apply(op, reg, b, s):
  if op == 'add':
    return reg + b
  if op == 'sub':
    return reg - b
  if op == 'rsub':
    return b - reg
  if op == 'mul':
    return reg * b
  if op == 'premul':
    return b * reg
  if op == 'div':
    return reg / b
  if op == 'prediv':
    return b / reg
  if op == 'scale':
    return reg * s
  if op == 'prescale':
    return s * reg
  if op == 'unscale':
    return reg / s
  if op == 'conj':
    return reg.conjugate()
  if op == 'inv':
    return reg.inverse()
  if op == 'scalar':
    return reg.scalar()
  if op == 'copy':
    return reg.copy()
  if op == 'positive':
    res = reg.copy()
    res.enforce_positive_q_rot_w()
    return res
  if op == 'twice':
    return reg + reg
  if op == 'minus':
    return reg - reg
  if op == 'square':
    return reg * reg
  if op == 'ratio':
    return reg / reg
  raise KeyError(op)


# Degree of the result in (register, operand), for scaling rotational and dual part alike.
DEGREE = dict(mul=(1, 1), premul=(1, 1), div=(1, -1), prediv=(-1, 1), inv=(-1, 0), conj=(1, 0), copy=(1, 0), twice=(1, 0), minus=(1, 0),
              square=(2, 0), ratio=(0, 0), positive=(1, 0))


def refused(f):
  try:
    f()
  except Exception:
    return True
  return False


def observe(check, D, Q, x, want, case):
  """Everything that can be asked of a dual quaternion whose exact value is known."""
  v = vec(want['value'])
  parts = [x.r_x, x.r_y, x.r_z, x.r_w, x.t_x, x.t_y, x.t_z, x.t_w]
  if not (close(x.dq, v) and close(parts, v)):
    check.fail('components', dict(case, got=[list(x.dq), parts], want=list(v)))
    return
  r, e = x.q_rot, x.q_dual
  if not (isinstance(r, Q) and isinstance(e, Q) and close(r.q, v[:4]) and close(e.q, v[4:])):
    check.fail('rotational and dual part', dict(case, got=[str(r), str(e)], want=list(v)))
    return
  r.q[1] += 1.
  e.q[2] += 1.
  if not close(x.dq, v):
    check.fail('a part shares storage with the dual quaternion', case)
    return
  n2, dot = want['norm2'][0] / want['norm2'][1], want['dot'][0] / want['dot'][1]
  if n2 == 0:
    if not refused(x.norm) or not refused(x.inverse):
      check.fail('norm or inverse without a rotational part', case)
    return
  n = np.sqrt(n2)
  if not close(x.norm(), [n, dot / n]):
    check.fail('norm', dict(case, got=list(x.norm()), want=[n, dot / n]))
  if bool(x.is_normalized()) != want['unit']:
    check.fail('is_normalized', dict(case, got=bool(x.is_normalized()), want=want['unit']))
  for a, b in SCALES:
    y = D.from_vector(np.concatenate([v[:4] * a, v[4:] * b]))
    if a * n > 1e-6 and not close([y.norm()[0] / a, y.norm()[1] / b], [n, dot / n]):
      check.fail('norm at scale', dict(case, a=a, b=b, got=list(y.norm())))
  for k in (1., 1.002, 1. - 3e-5, 1. + 4e-7, 2.**-10, 2.**20):
    y = D.from_vector(v * k / (n if k not in (2.**-10, 2.**20) else 1.))
    y.normalize()
    if not close(y.dq, v / n):
      check.fail('normalize', dict(case, k=k, got=list(y.dq), want=list(v / n)))
  y = x.copy()
  y.normalize()
  y.dq[5] += 1.
  if not close(x.dq, v):
    check.fail('changing a copy changes the original', case)


def replay_edges(check, edges):
  from hand_eye_calibration.dual_quaternion import DualQuaternion as D
  from hand_eye_calibration.quaternion import Quaternion as Q
  for e in edges:
    check.traces += 1
    with check.guard('operation ' + e['op'], e), contextlib.redirect_stdout(io.StringIO()):
      if 'answer' in e:
        query(check, D, Q, e)
      else:
        call(check, D, Q, e)
    if check.enough():
      return


def call(check, D, Q, e):
  op = e['op']
  before, after = vec(e['before']), vec(e['after']['value'])
  scalar = op in SCALAR_OPS
  arg = e['arg']['n'] / e['arg']['d'] if scalar else vec(e['arg'])
  case = dict(e)
  for how in (0, 1, 2, 3):
    reg = make(D, Q, before, how)
    b = None if scalar else make(D, Q, arg, how)
    res = apply(op, reg, b, arg)
    if not isinstance(res, D) or not close(res.dq, after):
      check.fail('value of ' + op, dict(case, how=how, got=list(getattr(res, 'dq', [str(res)])), want=list(after)))
      return
    if not close(reg.dq, before, 0) or (b is not None and not close(b.dq, arg, 0)):
      check.fail('operand changed by ' + op, dict(case, how=how))
    # The result must not share storage with the operands.
    res.dq[0] += 1.
    res.dq[6] += 1.
    if not close(reg.dq, before, 0) or (b is not None and not close(b.dq, arg, 0)):
      check.fail('result of %s aliases an operand' % op, dict(case, how=how))
  if scalar:
    kinds = [np.float64(arg)] + ([int(arg), np.int64(arg)] if arg == int(arg) else [])
    for s in kinds:
      # A numpy scalar on the left takes over the product.
      if op == 'prescale' and isinstance(s, np.generic):
        continue
      if not close(apply(op, make(D, Q, before, 0), None, s).dq, after):
        check.fail('value of %s with %s' % (op, type(s).__name__), case)
    for a in (2.**-24, 2.**-10, 2.**24):
      res = apply(op, make(D, Q, before, 0), None, arg * a)
      if not close(res.dq * (a if op == 'unscale' else 1. / a), after):
        check.fail('value of %s at scale' % op, dict(case, a=a, got=list(res.dq)))
  if op in DEGREE:
    da, db = DEGREE[op]
    na, nb = np.linalg.norm(before[:4]) or 1., np.linalg.norm(arg[:4]) or 1.
    for a, b in ((2.**-12, 1.), (2.**9, 2.**-11), (2.**18, 2.**18), (2.**-16, 2.**-3), (2.**-20, 2.**-20)) + tuple(
        (k / na, k / nb) for k in (1., 1.002, 1. - 3e-5, 1. + 4e-7)):
      res = apply(op, make(D, Q, before * a, 0), make(D, Q, arg * b, 0), arg)
      if not close(res.dq / (a**da * b**db), after):
        check.fail('value of %s at scale' % op, dict(case, a=a, b=b, got=list(res.dq)))
    # Dual parts much larger or smaller than the rotational ones (eps may be rescaled).
    for k in (2.**-18, 2.**15):
      eps = np.array([1.] * 4 + [k] * 4)
      res = apply(op, make(D, Q, before * eps, 0), make(D, Q, arg * eps, 3), arg)
      if not close(res.dq / eps, after):
        check.fail('value of %s with other units' % op, dict(case, k=k, got=list(res.dq)))
  if op in ('add', 'sub', 'rsub'):
    for a in (2.**-24, 2.**-12, 2.**30):
      res = apply(op, make(D, Q, before * a, 0), make(D, Q, arg * a, 2), arg)
      if not close(res.dq / a, after):
        check.fail('value of %s at scale' % op, dict(case, a=a, got=list(res.dq)))
  if op == 'copy':
    misuse(check, D, Q, before, case)
  observe(check, D, Q, apply(op, make(D, Q, before, 0), None if scalar else make(D, Q, arg, 0), arg), e['after'], case)


def misuse(check, D, Q, v, case):
  """What is no dual quaternion is never equal to one and refused as an operand."""
  x = make(D, Q, v, 0)
  for other in (None, 1., 0, 'a', list(v), tuple(v), x.q_rot):
    if (x == other) is not False and bool(x == other):
      check.fail('equal to what is no dual quaternion', dict(case, other=str(other)))
    if not bool(x != other):
      check.fail('not unequal to what is no dual quaternion', dict(case, other=str(other)))
  for other in (None, 'a', [1.], x.q_rot):
    if not (refused(lambda: x * other) and refused(lambda: x / other) and refused(lambda: other * x)):
      check.fail('product with what is neither scalar nor dual quaternion', dict(case, other=str(other)))
  if not (refused(lambda: D(v[:4], v[4:])) and refused(lambda: D(Q(q=v[:4]), v[4:])) and refused(lambda: D(v[:4], Q(q=v[4:])))):
    check.fail('built from what are no quaternions', case)
  fine = v / 3. + np.array([1e-9, 0.1, -1e-12, 0.7, 1e-7, 1234.56789, -0.3, 1e-10])
  for how in (0, 2, 3):
    if not close(make(D, Q, fine, how).dq, fine, 1e-15):
      check.fail('does not hold the numbers it was made from', dict(case, how=how, value=list(fine)))
  if not close(D.from_vector(tuple(fine)).dq, fine, 1e-15):
    check.fail('does not hold the numbers it was made from', dict(case, how='tuple', value=list(fine)))
  one = D.identity()
  if not close(one.dq, [0, 0, 0, 1, 0, 0, 0, 0], 0):
    check.fail('identity', dict(case, got=list(one.dq)))
  if not (close((one * x).dq, v) and close((x * one).dq, v)):
    check.fail('product with the identity', case)
  one.dq[:] = 3.
  if not close(D.identity().dq, [0, 0, 0, 1, 0, 0, 0, 0], 0):
    check.fail('changing an identity changes the others', case)
  source = np.array(v)
  y = D.from_vector(source)
  source[:] = 77.
  if not close(y.dq, v, 0):
    check.fail('shares storage with the vector it was made from', case)
  r, t = Q(q=np.array(v[:4])), Q(q=np.array(v[4:]))
  y = D(r, t)
  r.q[:] = 5.
  t.q[:] = 6.
  if not close(y.dq, v, 0):
    check.fail('shares storage with the quaternions it was made from', case)


def equal(check, x, y, want, case):
  got = [bool(x == y), bool(y == x), not bool(x != y), not bool(y != x)]
  if got != [want] * 4:
    check.fail('comparison', dict(case, x=list(x.dq), y=list(y.dq), got=got, want=want))


def query(check, D, Q, e):
  before = vec(e['before'])
  if e['op'] == 'compare':
    for how in (0, 1, 2):
      equal(check, make(D, Q, before, how), make(D, Q, vec(e['arg']), 0), e['answer'], e)
    x = make(D, Q, before, 0)
    equal(check, x, x, True, e)
    equal(check, x, x.copy(), True, e)
    equal(check, x, make(D, Q, -before, 0), not np.any(before), e)
  elif e['op'] == 'nudged':
    i = e['arg']['component'] - 1
    for k in dict(none=(0.,), negligible=EQ_NEGLIGIBLE, visible=EQ_VISIBLE)[e['arg']['by']]:
      other = before.copy()
      other[i] += k * max(1., abs(other[i]))
      equal(check, make(D, Q, before, 0), make(D, Q, other, 0), e['answer'], dict(e, by=k))
      if before[i] == 0. and e['arg']['by'] == 'visible':
        other[i] = k * 1e-2
        equal(check, make(D, Q, before, 0), make(D, Q, other, 0), e['answer'], dict(e, by=k * 1e-2))
    if e['arg']['by'] == 'visible' and before[i] != 0.:
      other = before.copy()
      other[i] = -other[i]
      equal(check, make(D, Q, before, 0), make(D, Q, other, 0), False, dict(e, by='sign'))
  elif e['op'] == 'gauge':
    amounts = dict(none=(0.,), negligible=NORM_NEGLIGIBLE, visible=NORM_VISIBLE)
    r = before[:4] / np.linalg.norm(before[:4])
    d = before[4:] - r * np.dot(r, before[4:])
    for k in amounts[e['arg']['real']]:
      for l in amounts[e['arg']['dual']]:
        v = np.concatenate([r * (1. + k), d + r * l])
        x = make(D, Q, v, 0)
        if bool(x.is_normalized()) != e['answer']:
          check.fail('is_normalized', dict(e, by=[k, l], value=list(v), got=bool(x.is_normalized()), want=e['answer']))
        if not close(x.dq, v, 0):
          check.fail('is_normalized changes the dual quaternion', dict(e, by=[k, l]))
  else:
    raise KeyError(e['op'])


def replay_behaviour(check, behaviour):
  """One long behaviour on the same objects."""
  from hand_eye_calibration.dual_quaternion import DualQuaternion as D
  from hand_eye_calibration.quaternion import Quaternion as Q
  check.traces += 1
  reg = make(D, Q, vec(behaviour[0]['before']), 0)
  kept = [(reg, vec(behaviour[0]['before']))]
  for i, e in enumerate(behaviour):
    case = dict(step=i, behaviour=behaviour[:i + 1])
    with check.guard('behaviour', case), contextlib.redirect_stdout(io.StringIO()):
      if 'answer' in e:
        if e['op'] == 'compare' and bool(reg == make(D, Q, vec(e['arg']), 0)) != e['answer']:
          check.fail('comparison after a sequence', case)
        continue
      scalar = e['op'] in SCALAR_OPS
      arg = e['arg']['n'] / e['arg']['d'] if scalar else vec(e['arg'])
      b = None if scalar else make(D, Q, arg, 2)
      reg = apply(e['op'], reg, b, arg)
      want = vec(e['after']['value'])
      if not close(reg.dq, want, 1e-7):
        check.fail('value after a sequence ending in ' + e['op'], dict(case, got=list(reg.dq), want=list(want)))
        return
      kept.append((reg, want))
      if b is not None:
        kept.append((b, arg))
  for x, want in kept:
    if not close(x.dq, want, 1e-7):
      check.fail('an earlier operand or result changed', dict(behaviour=behaviour, got=list(x.dq), want=list(want)))
      return


ROT = [(0, 0, 0, 1), (0, 0, 0, -1), (1, 0, 0, 0), (0, -1, 0, 0), (1, 1, 1, 1), (1, -1, 1, -1), (1, 2, 3, 4), (-2, 1, 3, -5), (3, -1, 0, 2),
       (0, 2, 1, 0), (0, 0, 0, 0), (2, 0, 0, 0), (-1, 0, 0, 3)]
DUAL = [(0, 0, 0, 0), (0, 0, 0, 1), (1, 0, 0, 0), (0, -1, 0, 0), (0, 0, 2, 0), (1, -2, 3, 0), (-1, 3, 2, -4), (2, 1, -1, 1), (-3, 0, 0, 1)]


def run(check):
  start = [dict(r=r, e=e) for r in ROT for e in DUAL]
  operands = [dict(r=r, e=e) for r, e in [
      ((0, 0, 0, 1), (0, 0, 0, 0)), ((0, 0, 0, 1), (1, -2, 3, 0)), ((1, 0, 0, 0), (0, 0, 2, 0)), ((1, 2, 3, 4), (-1, 3, 2, -4)),
      ((-2, 1, 3, -5), (2, 1, -1, 1)), ((3, -1, 0, 2), (0, 0, 0, 0)), ((0, 0, 0, 0), (2, -1, 0, 3)), ((0, 0, 0, -2), (0, 0, 0, 1))]]
  if check.thorough:
    operands += [dict(r=r, e=e) for r in ROT[2:10:2] for e in DUAL[1::3]]
  nudges = ['none', 'negligible', 'visible']
  base = dict(Operands=tla_set(operands), Scalars=tla_set(SCALARS), Nudges=tla_set(nudges))
  res = check.tlc('DualMachine', dict(base, Start=tla_set(start), Steps='1', Bound='3000', Record='FALSE'), invariants=INVARIANTS)
  edges = res.records
  calls = list(DEGREE) + ['add', 'sub', 'rsub', 'scalar'] + list(SCALAR_OPS)
  check.require_ops((e['op'] for e in edges), calls + ['compare', 'nudged', 'gauge'])
  if check.thorough:
    # From everything one call away: rational components.
    res = check.tlc('DualMachine', dict(base, Start=tla_set(start[::5]), Operands=tla_set(operands[:6]), Nudges='{}', Steps='2', Bound='300',
                                        Record='FALSE'), invariants=INVARIANTS)
    edges += res.records
    if len(edges) > 300000:
      edges = check.rng.sample(edges, 300000)
  if not all(any(e['op'] == op and e['answer'] is a for e in edges if 'answer' in e) for op in ('compare', 'nudged', 'gauge') for a in (True, False)):
    raise MachineryError('a question with only one answer')
  if not all(any(e['after']['unit'] is a for e in edges if 'after' in e) for a in (True, False)):
    raise MachineryError('all or no results normalized')
  check.sample(edges[0])
  chunk = 200
  pmap(check, replay_edges, [edges[i:i + chunk] for i in range(0, len(edges), chunk)])
  n = 3000 if check.thorough else 500
  res = check.tlc('DualMachine', dict(base, Start=tla_set(start), Nudges='{}', Steps='10', Bound='1000', Record='TRUE'), simulate=n, depth=14, workers=1)
  check.sample(res.records[0])
  pmap(check, replay_behaviour, res.records)
  check.assumptions = ['components are integers or rationals of bounded size, scaled by powers of two',
                       'equality is claimed for differences below 1e-11 and above 1e-4 (1e-6 where a component is zero), normalization for '
                       'deviations below 3e-11 and above 2e-7',
                       'rotational parts of norm below 1e-8 have no norm and no inverse']
