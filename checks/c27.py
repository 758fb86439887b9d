"""C27: box plots and error maps of the experiments (spec/ErrorMap.tla, Aggregate.tla)."""
import contextlib
import io
import logging
import os
import random
import re
import runpy
import sys
import tempfile
import warnings

import numpy as np

from checks.c25 import SHORT
from checks.util import tla_set
from harness import common
from harness.common import MachineryError, pmap

PROGRAM = os.path.join(common.REPO, 'hand_eye_calibration_experiments', 'bin', 'generate_plots.py')
ORDERS = ('translation_time_angle', 'angle_time_translation', 'time_translation_angle')


_program = []


def program_():
  if not _program:
    _program.append(common.load_program(PROGRAM, 'generate_plots'))
  return _program[0]


class Drawn(object):
  """Everything drawn within the block, without showing it."""

  def __enter__(self):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.axes
    from matplotlib import pyplot
    self.pyplot, self.axes, self.boxes = pyplot, matplotlib.axes.Axes, []
    pyplot.close('all')
    original = self.original = matplotlib.axes.Axes.boxplot

    def boxplot(ax, x, *args, **kwargs):
      out = original(ax, x, *args, **kwargs)
      positions = kwargs.get('positions')
      self.boxes.append((ax, [[float(v) for v in np.ravel(g)] for g in x], list(range(1, len(x) + 1)) if positions is None else [float(p) for p in positions], out))
      return out

    matplotlib.axes.Axes.boxplot = boxplot
    self.quiet = contextlib.ExitStack()
    self.quiet.enter_context(warnings.catch_warnings())
    self.quiet.enter_context(contextlib.redirect_stdout(io.StringIO()))
    warnings.simplefilter('ignore')
    return self

  def figures(self):
    return [self.pyplot.figure(n) for n in self.pyplot.get_fignums()]

  def __exit__(self, *_):
    self.axes.boxplot = self.original
    self.quiet.close()
    self.pyplot.close('all')


def numbers(text):
  return [float(x) for x in re.findall(r'[-+]?\d+\.?\d*(?:e[-+]?\d+)?', text)]


def boxes(drawn, figure):
  """(axes label, colour, tick label) -> measurements of the boxes in a figure."""
  out = {}
  for ax, groups, positions, artists in drawn.boxes:
    if ax.figure is not figure:
      continue
    ticks, labels = list(ax.get_xticks()), [t.get_text() for t in ax.get_xticklabels()]
    for group, position, artist in zip(groups, positions, artists['boxes']):
      nearest = min(range(len(ticks)), key=lambda i: abs(ticks[i] - position))
      out.setdefault((ax.get_ylabel().lower(), artist.get_color(), labels[nearest]), []).append(group)
  return out


def same(got, want):
  return len(got) == len(want) and np.allclose(got, want, rtol=1e-6, atol=1e-9)


def box_figure(check, drawn, figure, methods, position, orientation, case):
  seen = {}
  for (label, _, method), groups in boxes(drawn, figure).items():
    kind = 'position' if 'position' in label else 'orientation' if 'orientation' in label else None
    seen[(kind, method)] = groups
  want = {}
  for k, m in enumerate(methods):
    want[('position', m)], want[('orientation', m)] = [position[k]], [orientation[k]]
  if set(seen) != set(want) or not all(len(seen[k]) == 1 and same(seen[k][0], want[k][0]) for k in want):
    check.fail('box plot of the errors', dict(case, got=repr(seen), want=repr(want)))


def time_figure(check, drawn, figure, methods, sets, runtimes, case):
  legend = figure.axes[0].get_legend()
  if legend is None:
    return check.fail('legend of the run times', case)
  from matplotlib.colors import to_rgba
  names = {}
  for handle, text in zip(legend.get_patches(), legend.get_texts()):
    names[to_rgba(handle.get_facecolor())] = text.get_text()
  seen = {}
  for (label, color, method), groups in boxes(drawn, figure).items():
    seen[(names.get(to_rgba(color)), method)] = groups
  want = dict(((s, m), [runtimes[s][k]]) for s in sets for k, m in enumerate(methods))
  if set(seen) != set(want) or not all(len(seen[k]) == 1 and same(seen[k][0], want[k][0]) for k in want):
    check.fail('box plot of the run times', dict(case, got=repr(seen), want=repr(want)))


def map_figures(check, figures, rec, lines, mean, case):
  """Compares the maps with those of the specification; lines are the borders
  of the intervals per dimension as a user knows them."""
  axes = rec['axes']
  if len(figures) != len(rec['maps']):
    return check.fail('one figure per interval', dict(case, got=len(figures)))
  for k, figure in enumerate(figures):
    seen = {}
    for ax in figure.axes:
      kind = [n for n, word in (('position', 'translational'), ('orientation', 'angular')) if word in ax.get_title().lower()]
      if kind and ax.images:
        seen[kind[0]] = ax
    if set(seen) != {'position', 'orientation'}:
      return check.fail('a map for either error', dict(case, figure=k))
    for kind, ax in seen.items():
      got = np.array(ax.images[0].get_array(), dtype=float)
      want = np.array([[mean(kind, ids) for ids in row] for row in rec['maps'][k]])
      if got.shape != want.shape or not np.allclose(got, want, rtol=1e-6, atol=1e-9):
        return check.fail('means of the %s errors' % kind, dict(case, figure=k, got=got.tolist(), want=want.tolist()))
      frame = numbers(ax.get_title().split('in')[-1])
      if not np.allclose(frame[:2], lines[axes['plot']][k:k + 2], rtol=1e-6, atol=1e-9):
        return check.fail('interval in the title', dict(case, figure=k, title=ax.get_title()))
      for which, ticks, labels in (('x', ax.get_xticks(), ax.get_xticklabels()), ('y', ax.get_yticks(), ax.get_yticklabels())):
        if which == 'y' and kind == 'orientation':
          continue
        border = lines[axes[which]]
        tolerance = 0.501 if axes[which] == 'a' else 1e-6
        if len(ticks) != len(border) - 1 or not np.allclose(ticks, range(len(ticks))) or not all(
            np.allclose(numbers(t.get_text()), border[i:i + 2], rtol=0., atol=tolerance) for i, t in enumerate(labels)):
          return check.fail('intervals of the axes', dict(case, figure=k, axis=which, labels=[t.get_text() for t in labels]))
      words = dict(a='angle', t='translation', s='time')
      if words[axes['x']] not in ax.get_xlabel().lower() or (kind == 'position' and words[axes['y']] not in ax.get_ylabel().lower()):
        return check.fail('names of the axes', dict(case, figure=k, x=ax.get_xlabel(), y=ax.get_ylabel()))


def replay_map(check, item):
  seed, rec = item
  rng = random.Random(seed)
  program = program_()
  grid, n = rec['grid'], len(rec['runs'])
  tick = dict(a=rng.choice((1. / 64., 1. / 16.)), t=rng.choice((1. / 32., 1. / 4.)), s=rng.choice((1. / 128., 1. / 8.)))
  order = list(range(n))
  rng.shuffle(order)
  position, orientation = [rng.uniform(0., 2.) for _ in order], [rng.uniform(0., 90.) for _ in order]
  data = [[position[i] for i in order], [orientation[i] for i in order]] + [[rec['runs'][i][d] * tick[d] for i in order] for d in ('a', 't', 's')]
  spans = dict((d, dict(start=grid['start'] * tick[d], end=(grid['start'] + grid[d] * grid['step']) * tick[d] - 0.5 * grid['step'] * tick[d], step=grid['step'] * tick[d]))
               for d in tick)
  lines = dict((d, [(grid['start'] + i * grid['step']) * tick[d] for i in range(grid[d] + 1)]) for d in tick)
  lines['a'] = [np.degrees(x) for x in lines['a']]
  case = dict(seed=seed, rec=rec, tick=tick)
  with check.guard('error maps', case):
    with Drawn() as drawn:
      try:
        program.generate_optimization_circle_error_plot(spans['s'], spans['t'], spans['a'], data, rec['order'], rec['per'])
      except Exception as e:
        if rec['ok']:
          check.fail('error maps', dict(case, error=repr(e)))
        return
      if not rec['ok']:
        return check.fail('incomplete or foreign runs are refused', case)
      values = dict(position=position, orientation=orientation)
      map_figures(check, drawn.figures(), rec, lines, lambda kind, ids: np.mean([values[kind][i - 1] for i in ids]), case)


def replay_boxes(check, item):
  seed, rec = item
  rng = random.Random(seed)
  program = program_()
  value = {}

  def measured(what, ids):
    return [value.setdefault((what, i), rng.uniform(0.1, 20.)) for i in ids]

  methods = ['M%d' % i for i in range(len(rec['methods']))]
  case = dict(seed=seed, rec=rec)
  with check.guard('box plots', case):
    for s, groups in zip(rec['sets'], rec['perSet']):
      p, o = [measured('p', ids) for ids in groups], [measured('o', ids) for ids in groups]
      with Drawn() as drawn:
        program.generate_box_plot(s, list(methods), [list(x) for x in p], [list(x) for x in o])
        figures = drawn.figures()
        if len(figures) != 1:
          return check.fail('one figure per data set', case)
        box_figure(check, drawn, figures[0], methods, p, o, dict(case, set=s))
    runtimes = dict((s, [measured('r', ids) for ids in groups]) for s, groups in zip(rec['sets'], rec['perSet']))
    with Drawn() as drawn:
      program.generate_time_plot(list(methods), list(rec['sets']), dict((s, dict(zip(methods, r))) for s, r in runtimes.items()), ['b', 'g', 'c', 'm'])
      time_figure(check, drawn, drawn.figures()[0], methods, rec['sets'], runtimes, case)


def replay_program(check, item):
  """The whole program on a table whose runs fill the maps it draws."""
  from hand_eye_calibration_experiments.experiment_results import ResultEntry
  seed, rec = item
  rng = random.Random(seed)
  work = tempfile.mkdtemp(prefix='c27_', dir=check.scratch)
  size = dict(a=np.radians(15.) / 2., t=0.05, s=0.015)
  sets = ['d1', 'd2', 'd3'][:1 + seed % 3]
  algorithms = rng.sample(sorted(SHORT), 3)
  absent = (algorithms[-1], sets[-1]) if len(sets) > 1 else None
  rows = []
  for i, run in enumerate(rec['runs']):
    for j in range(60):
      rows.append((i, True))
  rows += [(rng.randrange(len(rec['runs'])), False) for _ in range(40)]
  rng.shuffle(rows)
  values = dict(position={}, orientation={})
  expected, methods, seen_sets = {}, [], []
  names = [os.path.join(work, 'r%d.csv' % k) for k in range(2)]
  tables = [open(name, 'w') for name in names]
  for k, table in enumerate(tables):
    table.write(ResultEntry().get_header().rstrip('\n') + ',dataset\n')
  for n, (i, good) in enumerate(rows):
    algorithm, dataset = rng.choice(algorithms), rng.choice(sets)
    if n < 2 and absent:
      algorithm, dataset = algorithms[-n], sets[0]
    if (algorithm, dataset) == absent:
      dataset = sets[0]
    run, e = rec['runs'][i], ResultEntry()
    failed = not good and rng.random() < 0.5
    e.algorithm_name, e.iteration_num, e.prefiltering_enabled, e.dataset_names = algorithm, 0, True, [('h', 'e')]
    e.success, e.num_initial_poses, e.num_poses_kept, e.optimization_enabled = [not failed], [10], [5], True
    rmse, runtime, refinement = (rng.uniform(0., 1.), rng.uniform(0., 10.)), rng.uniform(0., 100.), rng.uniform(0., 10.)
    e.rmse, e.num_inliers, e.runtimes, e.optimization_runtime = [rmse], [3], [runtime], [refinement]
    e.loop_error_position, e.loop_error_orientation = rng.uniform(0., 2.), rng.uniform(0., 90.)
    e.singular_values, e.bad_singular_value, e.optimization_success = [np.ones(8)], [not good and not failed], [True]
    v = np.array([rng.gauss(0., 1.) for _ in range(3)])
    v *= (run['t'] + rng.uniform(0.1, 0.9)) * size['t'] / np.linalg.norm(v)
    e.spoiled_initial_guess_angle_offset = [(run['a'] + rng.uniform(0.1, 0.9)) * size['a']]
    e.spoiled_initial_guess_translation_offset = [v]
    e.spoiled_initial_guess_time_offset = [(run['s'] + (0.9 if run['s'] >= 0 else -0.9) * rng.random()) * size['s']]
    tables[n * 2 // len(rows)].write(e.write_pose_pair_to_csv_line(0).rstrip('\n') + ',' + dataset + '\n')
    if good:
      values['position'].setdefault(i + 1, []).append(e.loop_error_position)
      values['orientation'].setdefault(i + 1, []).append(e.loop_error_orientation)
      name = SHORT[algorithm]
      if name not in methods:
        methods.append(name)
      if dataset not in seen_sets:
        seen_sets.append(dataset)
      for what, x in (('p', rmse[0]), ('o', rmse[1]), ('r', runtime + refinement)):
        expected.setdefault((what, dataset, name), []).append(x)
  for table in tables:
    table.close()
  case = dict(seed=seed, rec=rec, algorithms=algorithms, sets=sets)
  argv = sys.argv
  with check.guard('program', case, 300):
    with Drawn() as drawn:
      sys.argv = [PROGRAM, '--csv_file_names'] + names
      try:
        runpy.run_path(PROGRAM, run_name='__main__')
      except SystemExit as e:
        if e.code not in (None, 0):
          raise
      finally:
        sys.argv = argv
      figures = drawn.figures()
      titles = [f._suptitle.get_text() if f._suptitle is not None else '' for f in figures]
      maps = [f for f in figures if any(ax.images for ax in f.axes)]
      map_figures(check, maps, rec, dict(a=[15. * i for i in range(9)], t=[0., 0.1], s=[0.03 * i for i in range(9)]),
                  lambda kind, ids: np.mean([x for i in ids for x in values[kind][i]]), case)
      for s in seen_sets:
        figure = [f for f, t in zip(figures, titles) if t.split()[-1:] == [s]]
        if len(figure) != 1:
          return check.fail('one figure per data set', dict(case, titles=titles))
        box_figure(check, drawn, figure[0], methods, *([expected.get((w, s, m), []) for m in methods] for w in 'po'), dict(case, set=s))
      figure = [f for f in figures if f.axes and 'time' in f.axes[0].get_ylabel().lower() and f not in maps]
      if len(figure) != 1:
        return check.fail('one figure of the run times', case)
      time_figure(check, drawn, figure[0], methods, seen_sets, dict((s, [expected.get(('r', s, m), []) for m in methods]) for s in seen_sets), case)


def run(check):
  import matplotlib
  matplotlib.use('Agg')
  logging.getLogger('matplotlib').setLevel(logging.ERROR)
  program_()
  laws = ['EveryRunOnce', 'HalfOpen', 'Filled']
  orders = tla_set(ORDERS)
  g = lambda a, t, s, start=0, step=2: dict(a=a, t=t, s=s, start=start, step=step)
  small = check.tlc('ErrorMap', dict(Grids=tla_set([g(2, 1, 1, 0, 1), g(1, 2, 1, 0, 1), g(1, 1, 2, 0, 1), g(1, 1, 1, 1, 1)]), Per='{1}', Modes='{"free"}', MaxRuns='2', Orders=orders),
                    invariants=laws)
  check.exhaustive = True
  free = random.Random(check.seed).sample(small.records, min(len(small.records), 20000 if check.thorough else 3000))
  free += [r for r in small.records if r['ok']]
  big = check.tlc('ErrorMap', dict(Grids=tla_set([g(2, 2, 2), g(3, 1, 2), g(1, 3, 2), g(2, 3, 1), g(2, 1, 3, 1, 2), g(3, 2, 1, 2, 3), g(3, 2, 2)]), Per='{1, 2}', Modes='{"full", "free"}',
                                   MaxRuns='9', Orders=orders),
                  invariants=['HalfOpen', 'Filled'], simulate=3000 if check.thorough else 200, depth=28, workers=4)
  whole = check.tlc('ErrorMap', dict(Grids=tla_set([g(8, 1, 8)]), Per='{1}', Modes='{"full"}', MaxRuns='1', Orders='{"translation_time_angle"}'),
                    invariants=['Filled'], simulate=8 if check.thorough else 1, depth=66, workers=4)
  full = [r for r in big.records if r['ok']]
  if len(full) < 50 or set(r['order'] for r in full) != set(ORDERS) or len(whole.records) < 3:
    raise MachineryError('too few maps')
  pmap(check, replay_map, list(enumerate(free + big.records, check.seed * 10**6)))
  sets = check.tlc('Aggregate', dict(Datasets='{"d1", "d2", "d3"}', Algorithms='{"a1", "a2", "a3", "a4"}', MaxRows='20', MaxTables='1'), invariants=['Partition'],
                   simulate=1000 if check.thorough else 60, depth=24, workers=4)
  many = check.tlc('Aggregate', dict(Datasets='{"d1", "d2", "d3"}', Algorithms='{"a1", "a2", "a3", "a4"}', MaxRows='150', MaxTables='1'), invariants=['OnlyGood'],
                   simulate=40 if check.thorough else 6, depth=154, workers=4)
  if max(len(r['kept']) for r in many.records) < 40:
    raise MachineryError('no large groups')
  groups = [r for r in sets.records + many.records if r['sets']]
  pmap(check, replay_boxes, list(enumerate(groups, check.seed * 10**6)))
  pmap(check, replay_program, list(enumerate(whole.records[:40 if check.thorough else 6], check.seed)))
  check.traces += len(free) + len(big.records) + len(groups) + len(whole.records)
  check.sample(full[0])
  check.assumptions = ['grids have dyadic borders, or are those of the program with no run on a border', 'what is drawn is read from the figures of matplotlib']
