"""Stand-in for the ROS package rosbag: a bag is a file of JSON lines.

Each line is {"topic": ..., "t": ns, "transforms": [{"parent", "child", "ns", "values"}] or null}.
"""
import json

import rospy


class _Fields(object):

  def __init__(self, **fields):
    self.__dict__.update(fields)


def transform_message(d):
  v = d['values']
  return _Fields(header=_Fields(seq=0, stamp=rospy.Time(0, d['ns']), frame_id=d['parent']), child_frame_id=d['child'],
                 transform=_Fields(translation=_Fields(x=v[0], y=v[1], z=v[2]), rotation=_Fields(x=v[3], y=v[4], z=v[5], w=v[6])))


class ROSBagException(Exception):
  pass


class Bag(object):

  def __init__(self, f, mode='r', *args, **kwargs):
    if mode != 'r':
      raise ValueError('bags are only read')
    self.filename = f
    with open(f) as stream:
      self._lines = [json.loads(line) for line in stream]
    self._open = True

  def read_messages(self, topics=None, start_time=None, end_time=None, connection_filter=None, raw=False):
    if not self._open:
      raise ValueError('I/O operation on closed bag')
    if isinstance(topics, str):
      topics = [topics]
    for line in self._lines:
      if topics is not None and line['topic'] not in topics:
        continue
      t = rospy.Time(0, line['t'])
      if start_time is not None and t < start_time or end_time is not None and t > end_time:
        continue
      if line['transforms'] is None:
        yield line['topic'], _Fields(data='other'), t
      else:
        yield line['topic'], _Fields(transforms=[transform_message(d) for d in line['transforms']]), t

  def get_message_count(self, topic_filters=None):
    return len(list(self.read_messages(topics=topic_filters)))

  def __iter__(self):
    return self.read_messages()

  def __enter__(self):
    return self

  def __exit__(self, *args):
    self.close()

  def close(self):
    self._open = False
