"""Stand-in for the ROS package rospy: times in nanoseconds."""
import functools


@functools.total_ordering
class _Value(object):

  def __init__(self, secs=0, nsecs=0):
    if isinstance(secs, float) or isinstance(nsecs, float):
      self._ns = int(round(secs * 1e9)) + int(nsecs)
    else:
      self._ns = int(secs) * 10**9 + int(nsecs)

  @classmethod
  def _of(cls, ns):
    out = cls()
    out._ns = ns
    return out

  @classmethod
  def from_sec(cls, secs):
    return cls._of(int(round(secs * 1e9)))

  @property
  def secs(self):
    return self._ns // 10**9

  @property
  def nsecs(self):
    return self._ns % 10**9

  def to_sec(self):
    return float(self.secs) + float(self.nsecs) / 1e9

  def to_nsec(self):
    return self._ns

  def is_zero(self):
    return self._ns == 0

  def __bool__(self):
    return self._ns != 0

  def __eq__(self, other):
    return isinstance(other, _Value) and self._ns == other._ns

  def __lt__(self, other):
    return self._ns < other._ns

  def __hash__(self):
    return hash(self._ns)


class Duration(_Value):

  def __add__(self, other):
    return type(other)._of(self._ns + other._ns)

  def __sub__(self, other):
    return Duration._of(self._ns - other._ns)

  def __neg__(self):
    return Duration._of(-self._ns)

  def __abs__(self):
    return Duration._of(abs(self._ns))


class Time(_Value):

  def __add__(self, other):
    return Time._of(self._ns + other._ns)

  def __sub__(self, other):
    if isinstance(other, Time):
      return Duration._of(self._ns - other._ns)
    return Time._of(self._ns - other._ns)


class ROSException(Exception):
  pass


def _log(*args):
  pass


loginfo = logwarn = logerr = logdebug = logfatal = _log
