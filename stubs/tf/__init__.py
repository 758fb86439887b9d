"""Stand-in for the ROS package tf, which cannot be installed here.

The transformer decides like the real one whether a transform can be looked up: every frame on the way between the two
frames needs data before and after the time asked for, within the time the transformer keeps.  What it returns is not
a composition but a code for (target, source, time), so that a wrong look-up shows.
"""


class Exception(Exception):
  pass


class LookupException(Exception):
  pass


class ConnectivityException(Exception):
  pass


class ExtrapolationException(Exception):
  pass


class InvalidArgument(Exception):
  pass


def code(target, source, ns):
  """Translation and quaternion standing for a look-up."""
  k = sum((i + 1) * ord(c) for i, c in enumerate(target + '/' + source)) % 9973
  s = float(ns // 1000) * 1e-3
  return (k + 0.125, -s / 7.0 - 1. / 3., 1e-4 * k * s + 1e-9), (0.5 + 1e-3 * (k % 97), -0.25, 1e-6 * s - 0.1, 0.7 + 1e-5 * (k % 89))


class Transformer(object):

  def __init__(self, interpolating=True, cache_time=None):
    self._cache = 10 * 10**9 if cache_time is None else cache_time.to_nsec()
    self._parent = {}
    self._data = {}

  def setTransform(self, msg, authority=''):
    child, parent, ns = msg.child_frame_id, msg.header.frame_id, msg.header.stamp.to_nsec()
    if child == parent:
      raise InvalidArgument(child)
    stamps = self._data.setdefault(child, set())
    if stamps and ns < max(stamps) - self._cache:
      return
    self._parent[child] = parent
    stamps.add(ns)
    latest = max(stamps)
    self._data[child] = set(s for s in stamps if s >= latest - self._cache)

  def _chain(self, frame):
    chain = [frame]
    while chain[-1] in self._parent:
      chain.append(self._parent[chain[-1]])
    return chain

  def frameExists(self, frame):
    return frame in self._parent or frame in self._parent.values()

  def getFrameStrings(self):
    return sorted(set(self._parent) | set(self._parent.values()))

  def lookupTransform(self, target_frame, source_frame, time):
    for frame in (target_frame, source_frame):
      if not self.frameExists(frame):
        raise LookupException(frame)
    up, down = self._chain(source_frame), self._chain(target_frame)
    common = [f for f in up if f in down]
    if not common:
      raise ConnectivityException(source_frame)
    frames = up[:up.index(common[0])] + down[:down.index(common[0])]
    ns = time.to_nsec()
    if ns == 0:
      ns = min(max(self._data[f]) for f in frames)
    for f in frames:
      if not (min(self._data[f]) <= ns <= max(self._data[f])):
        raise ExtrapolationException(f)
    return code(target_frame, source_frame, ns)

  def canTransform(self, target_frame, source_frame, time):
    try:
      self.lookupTransform(target_frame, source_frame, time)
    except (LookupException, ConnectivityException, ExtrapolationException):
      return False
    return True
