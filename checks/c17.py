"""C17: pose files (spec/PoseFile.tla)."""
import os
import random
import tempfile

import numpy as np

from checks.util import tla_set, unit
from harness.common import pmap

STAMPS = [0., 0.1, 1.25, 1478863584.123456789, 1478863584.123457, 1478863585.999999762, 1e-7, -2.000000001, 86400.333333333, 3.0000000000001]
POSITIONS = [(0., 0., 0.), (1., -2.5, 3.), (0.1, 0.2, 0.3), (1e-9, -1e-6, 123456.789012345), (-1. / 3., 2. / 7., 1e4 / 3.), (5e-324, 1e15, -0.),
             (1e-17, 1e-12, -1e-13)]


def rows(table, scale, rng=None):
  out = []
  for r in table:
    q = np.array(r['q'], dtype=float)
    if abs(scale - 1.) < 1e-4:
      q = unit(q)
    out.append([STAMPS[r['t']]] + list(POSITIONS[r['p']]) + list(q * scale))
  return np.array(out)


def same(a, b):
  """Equal up to what eighteen decimals can carry."""
  return bool(np.all(np.abs(np.asarray(a) - np.asarray(b)) <= 1e-15 * np.maximum(1e-3, np.abs(np.asarray(b)))))


def replay(check, item):
  from hand_eye_calibration import csv_io
  from hand_eye_calibration.bash_utils import readArrayFromCsv
  seed, hist, times_over = item
  scale = (0.3, 1. + 4e-6, 2.5, 1., 1e-3, 1. - 5e-7)[seed % 6]
  work = tempfile.mkdtemp(prefix='c17_', dir=check.scratch)
  mem = None
  case = dict(seed=seed, hist=hist, scale=scale, times_over=times_over)
  want = None
  for e in hist:
    table = e['mem'] * times_over
    if e['op'] == 'begin':
      mem = rows(table, scale)
      if seed % 3 == 0:
        mem = np.asfortranarray(mem)
      continue
    if e['op'] == 'cut':
      mem = mem[1:]
      continue
    path = os.path.join(work, e['name'])
    before = mem.copy()
    with check.guard(e['op'], case):
      if e['op'] == 'write':
        csv_io.write_time_stamped_poses_to_csv_file(mem, path)
        if not np.array_equal(mem, before):
          check.fail('writing changes the poses', case)
        raw = readArrayFromCsv(path)
        if raw.shape != before.shape or not same(raw, before):
          check.fail('contents of the file', dict(case, got=raw[:9].tolist(), want=before[:9].tolist(), shape=list(raw.shape)))
      else:
        with open(path, 'rb') as f:
          content = f.read()
        poses, times, qs = csv_io.read_time_stamped_poses_from_csv_file(path, e['jpl']) if e['jpl'] or seed % 2 else \
            csv_io.read_time_stamped_poses_from_csv_file(path)
        with open(path, 'rb') as f:
          if f.read() != content:
            check.fail('reading changes the file', case)
        n = len(table)
        if poses.shape != (n, 8) or len(times) != n or len(qs) != n:
          check.fail('number of poses', dict(case, got=[list(poses.shape), len(times), len(qs)]))
          break
        for i, r in enumerate(table):
          q = unit(r['q'])
          if not same(times[i], STAMPS[r['t']]) or not same(poses[i, 0], STAMPS[r['t']]):
            check.fail('time stamp', dict(case, i=i, got=[repr(times[i]), repr(poses[i, 0])], want=repr(STAMPS[r['t']])))
          if not same(poses[i, 1:4], POSITIONS[r['p']]):
            check.fail('position', dict(case, i=i, got=poses[i].tolist()))
          if not np.allclose(poses[i, 4:8], q, rtol=0., atol=1e-12):
            check.fail('orientation in the table', dict(case, i=i, got=poses[i].tolist(), want=q.tolist(), jpl=e['jpl']))
          if not np.allclose(qs[i].q, q, rtol=0., atol=1e-12):
            check.fail('orientation', dict(case, i=i, got=list(qs[i].q), want=q.tolist(), jpl=e['jpl']))
        mem = poses
    if check.enough():
      break
  check.traces += 1
  for name in os.listdir(work):
    os.remove(os.path.join(work, name))
  os.rmdir(work)


def run(check):
  q = [(0, 0, 0, 1), (1, 2, -2, 4), (-1, 0, 0, -3), (0, 1, 0, 0), (3, -1, 2, -5)]
  row = lambda t, p, o: dict(t=t, p=p, q=q[o])
  tables = [[row(0, 0, 0)], [row(3, 3, 1)], [row(0, 1, 1), row(1, 2, 2)], [row(3, 4, 3), row(4, 1, 1), row(5, 3, 2)], [row(7, 5, 4), row(6, 6, 0), row(2, 4, 3)],
            [row(8, 2, 2), row(3, 1, 4)], [row(6, 3, 4), row(9, 4, 1), row(8, 0, 0), row(3, 1, 3)],
            # Stamps that go back or repeat.
            [row(5, 1, 1), row(2, 2, 2), row(8, 4, 3), row(0, 1, 4)], [row(4, 1, 1), row(4, 3, 2), row(3, 2, 3), row(4, 1, 1)], [row(1, 1, 3), row(7, 4, 1)]]
  runs = [dict(MaxOps='4', Names='{"a.csv", "b.csv"}')]
  if check.thorough:
    runs = [dict(MaxOps='5', Names='{"a.csv", "b.csv"}')]
  hists = []
  for r in runs:
    hists += check.tlc('PoseFile', dict(r, Tables=tla_set(tables)), invariants=['RoundTrip']).records
  check.require_ops([e['op'] for h in hists for e in h], ['write', 'read', 'cut'])
  hists = sorted((h for h in hists if any(e['op'] == 'read' for e in h)), key=str)
  check.log('%d histories' % len(hists))
  pmap(check, replay, [(i, h, 1) for i, h in enumerate(hists)])
  # Long tables: the rows again and again.
  some = [h for h in hists if not any(e['op'] == 'cut' for e in h) and len(h[0]['mem']) > 1]
  some = check.rng.sample(some, 120 if check.thorough else 40)
  pmap(check, replay, [(i, h, 20000 if i == 0 else (10, 40, 90, 300, 2500)[i % 5]) for i, h in enumerate(some)])
  check.exhaustive = True
  check.sample(hists[0])
  check.assumptions = ['a table has at least one pose', 'numbers survive up to eighteen decimals']
