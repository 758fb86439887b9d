"""Conversions between the exact values of the specification and floats."""
import json
import math

import numpy as np


def tla(x):
  """Renders a Python value as a TLA+ expression."""
  if isinstance(x, bool):
    return 'TRUE' if x else 'FALSE'
  if isinstance(x, int):
    return str(x)
  if isinstance(x, str):
    return json.dumps(x)
  if isinstance(x, (set, frozenset)):
    return '{' + ', '.join(sorted(tla(i) for i in x)) + '}'
  if isinstance(x, (list, tuple)):
    return '<<' + ', '.join(tla(i) for i in x) + '>>'
  if isinstance(x, dict):
    return '[' + ', '.join('%s |-> %s' % (k, tla(v)) for k, v in x.items()) + ']'
  raise ValueError(x)


def tla_set(xs):
  seen = []
  for x in xs:
    t = tla(x)
    if t not in seen:
      seen.append(t)
  return '{' + ', '.join(seen) + '}'


def rat(r):
  return np.array(r['n'], dtype=float) / r['d']


def unit(q):
  q = np.array(q, dtype=float)
  return q / np.sqrt(np.dot(q, q))


def rotmat(q):
  x, y, z, w = [float(i) for i in q]
  n = x * x + y * y + z * z + w * w
  return np.array([[w * w + x * x - y * y - z * z, 2 * (x * y - z * w), 2 * (x * z + y * w)],
                   [2 * (x * y + z * w), w * w - x * x + y * y - z * z, 2 * (y * z - x * w)],
                   [2 * (x * z - y * w), 2 * (y * z + x * w), w * w - x * x - y * y + z * z]]) / n


def motion_pose(m):
  """Canonical pose vector (w >= 0) of a motion of the specification."""
  q = unit(m['q'])
  return np.concatenate([np.array(m['t'], dtype=float) / m['d'], q])


def motion_matrix(m):
  out = np.identity(4)
  out[0:3, 0:3] = rotmat(m['q'])
  out[0:3, 3] = np.array(m['t'], dtype=float) / m['d']
  return out


def close(a, b, tol=1e-9):
  a = np.asarray(a, dtype=float)
  b = np.asarray(b, dtype=float)
  if a.shape != b.shape:
    return False
  scale = max(1., float(np.max(np.abs(b))) if b.size else 1.)
  return bool(np.all(np.abs(a - b) <= tol * scale))


def off(a, b, tol):
  """a is not within tol of b (as anything that is not a number)."""
  return not abs(a - b) <= tol


def same_rotation(qa, qb, tol=1e-9):
  return close(qa, qb, tol) or close(-np.asarray(qa), qb, tol)


def pose_is(pose, m, tol=1e-9):
  """pose has to be the canonical pose of motion m."""
  pose = np.asarray(pose, dtype=float)
  want = motion_pose(m)
  if pose.shape != (7,) or not close(pose[:3], want[:3], tol):
    return False
  if m['q'][3] == 0:
    return same_rotation(pose[3:], want[3:], tol)
  return close(pose[3:], want[3:], tol)


# Rotations of the pools: integer quaternions [x y z w] of any norm.
OCTAHEDRAL = [(0, 0, 0, 1), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0),
              (1, 0, 0, 1), (0, 1, 0, 1), (0, 0, 1, 1), (-1, 0, 0, 1), (0, -1, 0, 1), (0, 0, -1, 1),
              (1, 1, 0, 0), (1, -1, 0, 0), (1, 0, 1, 0), (1, 0, -1, 0), (0, 1, 1, 0), (0, 1, -1, 0),
              (1, 1, 1, 1), (-1, 1, 1, 1), (1, -1, 1, 1), (1, 1, -1, 1),
              (-1, -1, 1, 1), (-1, 1, -1, 1), (1, -1, -1, 1), (-1, -1, -1, 1)]
GENERIC = [(1, 2, 3, 4), (-2, 1, 3, 5), (3, -1, 2, 1), (2, 3, -5, 1), (1, 0, 0, 3), (0, 2, 1, 0), (1, 2, -2, 0),
           (0, 1, 0, 7), (5, 1, 1, 1), (0, 0, 1, -4), (2, -1, 3, -1), (1, 1, 0, -3), (-1, 4, 2, 2)]


# Rotations close to none, to a half turn and to right angles.
EDGE = [(1, 0, 0, 3000), (0, 0, -1, 700), (2, -1, 3, 900), (-1, 1, 1, 40), (3000, 0, 0, 1), (0, -700, 0, 1), (0, 0, 150, -1), (900, 901, 900, -1),
        (500, -3, 1, 2), (-1, 200, 200, 3), (100, 1, 1, 99), (-1, 100, 1, 100), (30, 0, 0, 29), (0, 29, 0, 30), (0, 0, 99, 100)]


def motion(q, t=(0, 0, 0), d=1):
  """A motion in the canonical form of the specification."""
  g = 0
  for i in q:
    g = math.gcd(g, i)
  q = [i // g for i in q]
  first = next(i for i in [q[3], q[0], q[1], q[2]] if i != 0)
  if first < 0:
    q = [-i for i in q]
  g = d
  for i in t:
    g = math.gcd(g, i)
  return dict(q=tuple(q), t=tuple(i // g for i in t), d=d // g)


def dq_of(m, DualQuaternion, Quaternion, k=1.):
  """Dual quaternion of a motion, computed here, times k."""
  q = unit(m['q'])
  t = np.array(m['t'], dtype=float) / m['d']
  v, w = q[:3], q[3]
  # 0.5 * (t, 0) * (v, w)
  dual = 0.5 * np.concatenate([w * t + np.cross(t, v), [-np.dot(t, v)]])
  return DualQuaternion(Quaternion(q=k * q), Quaternion(q=k * dual))


def quat_mul(a, b):
  v = a[3] * b[:3] + b[3] * a[:3] + np.cross(a[:3], b[:3])
  return np.concatenate([v, [a[3] * b[3] - np.dot(a[:3], b[:3])]])


def compose(a, b):
  """Composition of two motions given by floats."""
  qa, ta = unit(a['q']), np.array(a['t'], dtype=float) / a['d']
  qb, tb = unit(b['q']), np.array(b['t'], dtype=float) / b['d']
  return dict(q=quat_mul(qa, qb), t=ta + rotmat(qa).dot(tb), d=1)


def inverted(a):
  q = unit(a['q'])
  return dict(q=np.concatenate([-q[:3], q[3:]]), t=-rotmat(q).T.dot(np.array(a['t'], dtype=float) / a['d']), d=1)


def nudged(m, angle):
  """The motion, turned a little further about its own axis."""
  q = unit(m['q'])
  n = np.linalg.norm(q[:3])
  half = np.arctan2(n, q[3]) + 0.5 * angle
  return dict(q=np.concatenate([q[:3] / n * np.sin(half), [np.cos(half)]]), t=m['t'], d=m['d'])


def images(rec):
  return [np.array(v, dtype=float) / d for v, d in rec]


def in_units(m, u):
  """The motion with its translation in another unit of length."""
  return dict(m, t=tuple(i * u for i in m['t']))
