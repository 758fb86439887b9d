"""Recordings of hand and eye poses, generated without the code under test."""
import math

import numpy as np


def qmul(a, b):
  x1, y1, z1, w1 = a
  x2, y2, z2, w2 = b
  return np.array([w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2, w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2,
                   w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2, w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2])


def qconj(q):
  return np.array([-q[0], -q[1], -q[2], q[3]])


def rotate(q, v):
  return qmul(qmul(q, np.append(v, 0.)), qconj(q))[:3]


def compose(a, b):
  """Poses are (t, q)."""
  return (a[0] + rotate(a[1], b[0]), qmul(a[1], b[1]))


def invert(a):
  q = qconj(a[1])
  return (-rotate(q, a[0]), q)


def axis_angle(axis, angle):
  axis = np.asarray(axis, dtype=float)
  axis = axis / np.linalg.norm(axis)
  return np.append(axis * math.sin(angle / 2.), math.cos(angle / 2.))


def random_axis(rng):
  while True:
    v = np.array([rng.uniform(-1., 1.) for _ in range(3)])
    n = np.linalg.norm(v)
    if 0.1 < n < 1.:
      return v / n


def random_pose(rng, max_angle=math.pi, max_t=1., min_angle=0.):
  q = axis_angle(random_axis(rng), rng.uniform(min_angle, max_angle))
  return (np.array([rng.uniform(-max_t, max_t) for _ in range(3)]), q)


def pose_vector(p):
  return np.concatenate([p[0], p[1]])


def perturb(p, rng, sigma_t, sigma_r):
  """Moves a pose by a random small motion."""
  if sigma_t == 0. and sigma_r == 0.:
    return p
  dt = np.array([rng.gauss(0., sigma_t) for _ in range(3)])
  dq = axis_angle(random_axis(rng), rng.gauss(0., sigma_r) if sigma_r else 0.)
  return (p[0] + dt, qmul(p[1], dq))


def invariants(a):
  """Scalar part of the dual quaternion of a pose, with w >= 0."""
  w, p = a[1][3], -0.5 * float(np.dot(a[0], a[1][:3]))
  return (w, p) if w >= 0. else (-w, -p)


def relative(a, b):
  return compose(invert(a), b)


def disagreement(hand, eye, i, j):
  a = invariants(relative(hand[i], hand[j]))
  b = invariants(relative(eye[i], eye[j]))
  d = max(abs(a[0] - b[0]), abs(a[1] - b[1]))
  if abs(a[0]) < 1e-3:
    d = min(d, max(abs(a[0] + b[0]), abs(a[1] + b[1])))
  return d


def recording(rng, n, outliers=(), sigma_t=0., sigma_r=0., max_angle=2.5, x=None, world=None, max_t=0.5, clear=None):
  """n pose pairs (hand in base, eye in world) sharing one transform x.

  Pairs listed in outliers have an unrelated eye pose. With clear=(low, high)
  the screw invariants of any two consistent pairs agree within low, those of
  an outlier with any other pair disagree by more than high."""
  x = x or random_pose(rng, max_t=0.3)
  world = world or random_pose(rng)
  for _ in range(1000):
    hand = []
    while len(hand) < n:
      h = random_pose(rng, max_angle, max_t)
      # Half turns between poses leave the sign open.
      if all(abs(invariants(relative(g, h))[0]) > 0.12 for g in hand):
        hand.append(h)
    eye = [perturb(compose(compose(world, h), x), rng, sigma_t, sigma_r) for h in hand]
    for i in outliers:
      eye[i] = random_pose(rng)
    if clear is None:
      return x, hand, eye
    ok = True
    for i in range(n):
      for j in range(n):
        if i != j:
          d = disagreement(hand, eye, i, j)
          if (i in outliers or j in outliers) and d < clear[1]:
            ok = False
          elif i not in outliers and j not in outliers and d > clear[0]:
            ok = False
      if not ok:
        break
    if ok:
      return x, hand, eye
  raise ValueError('no such recording')


def dual_quaternions(poses, signs=None):
  """As the tools do: from pose vectors, but with a choice of signs."""
  from hand_eye_calibration.dual_quaternion import DualQuaternion
  out = []
  for i, p in enumerate(poses):
    v = pose_vector(p)
    if signs is not None:
      v[3:] *= signs[i]
    out.append(DualQuaternion.from_pose_vector(v))
  return out


def _invariant_distance(hand, eye, i, j):
  """Disagreement of two pairs, whichever signs are chosen."""
  a = invariants(relative(hand[i], hand[j]))
  b = invariants(relative(eye[i], eye[j]))
  return min(max(abs(a[0] - b[0]), abs(a[1] - b[1])), max(abs(a[0] + b[0]), abs(a[1] + b[1])))


def clear_recording(rng, clusters, gap=0.05, transforms=None, max_t=0.5, slightly=None, shifted=False):
  """Pairs of one cluster (1, 2, ...) share a transform; 0 is an outlier.

  Pairs of different clusters, and outliers and any pair, disagree clearly, or
  outliers, deviating from the pairs of cluster 1, by at least `slightly` in the
  angle, or, if shifted, in their position only.  Returns the transforms by cluster, hand and eye poses."""
  for _ in range(200):
    x = dict((c, random_pose(rng, max_t=0.3)) for c in set(clusters) if c)
    x.update(transforms or {})
    world = dict((c, random_pose(rng)) for c in x)
    hand, eye = [], []
    ok = True
    for c in clusters:
      for _ in range(300):
        h = random_pose(rng, 2.5, max_t)
        if c:
          e = compose(compose(world[c], h), x[c])
        elif slightly:
          e = compose(compose(compose(world[1], h), x[1]), (np.zeros(3), axis_angle(random_axis(rng), rng.uniform(0.08, 0.25))))
        elif shifted:
          e = compose(compose(world[1], h), x[1])
          e = (e[0] + rng.uniform(0.3, 3.) * random_axis(rng), e[1])
        else:
          e = random_pose(rng, 2.5, 2. * max_t)
        hand.append(h)
        eye.append(e)
        i = len(hand) - 1
        good = all(abs(invariants(relative(g, h))[0]) > 0.12 for g in hand[:-1])
        if slightly:
          good = good and all((c and clusters[j] == c) or
                              abs(abs(invariants(relative(hand[j], h))[0]) - abs(invariants(relative(eye[j], e))[0])) > slightly for j in range(i))
        else:
          good = good and all((c and clusters[j] == c) or _invariant_distance(hand, eye, i, j) > (0.012 if shifted else gap) for j in range(i))
        if good:
          break
        hand.pop()
        eye.pop()
      else:
        ok = False
        break
    if ok:
      return x, hand, eye
  raise ValueError('no such recording')
