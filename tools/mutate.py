"""Mutation test of the checks: changes one place of the code after another in a
copy of /repo and reports the changes no check notices.

  mutate.py <scratch directory> [file substring[:function substring]]

Needs copies: <scratch>/repo (of /repo) and <scratch>/verif (of /verif).
"""
import ast
import json
import os
import random
import subprocess
import sys
import time

LIB = 'hand_eye_calibration/python/hand_eye_calibration/'
BIN = 'hand_eye_calibration/bin/'
EXP = 'hand_eye_calibration_experiments/'
EXPL = EXP + 'python/hand_eye_calibration_experiments/'
# File, function prefix (first match counts), checks.
TARGETS = [
    (LIB + 'quaternion.py', '', 'C01 C05 C03 C10 C26'),
    (LIB + 'dual_quaternion.py', '', 'C02 C03 C04 C28 C06'),
    (LIB + 'dual_quaternion_hand_eye_calibration.py', 'compute_dual', 'C06'),
    (LIB + 'dual_quaternion_hand_eye_calibration.py', 'align_paths', 'C06'),
    (LIB + 'dual_quaternion_hand_eye_calibration.py', 'compute_hand_eye_calibration_BASELINE', 'C13 C12'),
    (LIB + 'dual_quaternion_hand_eye_calibration.py', 'compute_hand_eye_calibration_RANSAC', 'C11 C12'),
    (LIB + 'dual_quaternion_hand_eye_calibration.py', 'prefilter', 'C09'),
    (LIB + 'dual_quaternion_hand_eye_calibration.py', 'find_pose', 'C11 C13'),
    (LIB + 'dual_quaternion_hand_eye_calibration.py', 'compute_pose', 'C10'),
    (LIB + 'dual_quaternion_hand_eye_calibration.py', 'evaluate', 'C10'),
    (LIB + 'dual_quaternion_hand_eye_calibration.py', 'get_aligned', 'C10 C22'),
    (LIB + 'dual_quaternion_hand_eye_calibration.py', 'HandEyeConfig', 'C11 C12 C13 C19'),
    (LIB + 'dual_quaternion_hand_eye_calibration.py', '', 'C07 C08'),
    (LIB + 'time_alignment.py', 'compute_aligned', 'C15 C22'),
    (LIB + 'time_alignment.py', 'interpolate', 'C16 C15'),
    (LIB + 'time_alignment.py', 'resample', 'C16 C14'),
    (LIB + 'time_alignment.py', '', 'C14'),
    (LIB + 'csv_io.py', '', 'C17 C19'),
    (LIB + 'extrinsic_calibration.py', '', 'C18'),
    (LIB + 'calibration_verification.py', '', 'C22'),
    (LIB + 'bash_utils.py', '', 'C20 C17 C21 C19'),
    (LIB + 'algorithm_config.py', '', 'C21 C19'),
    (BIN + 'compute_aligned_poses.py', '', 'C19'),
    (BIN + 'compute_hand_eye_calibration.py', '', 'C19'),
    (BIN + 'tf_to_csv.py', '', 'C23'),
    (BIN + 'bag_to_csv_with_config.py', '', 'C24'),
    (BIN + 'target_extractor_interface.py', '', 'C24'),
    (EXPL + 'experiment_results.py', '', 'C21'),
    (EXPL + 'experiment_plotting_tools.py', '', 'C25'),
    (EXPL + 'all_algorithm_configs.py', '', 'C21'),
    (EXP + 'bin/generate_plots.py', '', 'C27'),
    (EXP + 'bin/compute_set_of_hand_eye_calibrations.py', '', 'C21'),
    (EXP + 'bin/optimization_experiments.py', 'spoil', 'C26'),
    (EXP + 'bin/optimization_experiments.py', '', 'C21 C26'),
]
COMPARE = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='],
           ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BINARY = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.FloorDiv: '*', ast.Mod: '*'}


def mutations(source):
  """(function, line, description, new source) for every single change."""
  tree = ast.parse(source)
  lines = source.split('\n')
  starts = [0]
  for line in lines:
    starts.append(starts[-1] + len(line.encode()) + 1)
  raw = source.encode()

  def at(lineno, col):
    return starts[lineno - 1] + col

  def span(node):
    return at(node.lineno, node.col_offset), at(node.end_lineno, node.end_col_offset)

  def text(node):
    a, b = span(node)
    return raw[a:b].decode()

  out = []

  def change(function, node, a, b, new, what):
    out.append((function, node.lineno, what, (raw[:a] + new.encode() + raw[b:]).decode()))

  def between(left, right, new, function, node, what):
    change(function, node, span(left)[1], span(right)[0], new, what)

  def visit(node, function):
    if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
      function = node.name if not function or function[0].islower() else function + '.' + node.name
    if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
      return
    if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call) and text(node.value.func) in ('print', 'parser.add_argument') or (
        isinstance(node, ast.Call) and text(node.func).startswith('plot')):
      return
    if isinstance(node, ast.If) and 'visualize' in text(node.test) or isinstance(node, ast.If) and text(node.test) == 'plot':
      return
    if isinstance(node, ast.If) and '__main__' in text(node.test):
      for child in node.body:
        visit(child, function)
      return
    a, b = span(node) if hasattr(node, 'lineno') else (0, 0)
    if isinstance(node, ast.Assert):
      change(function, node, a, b, 'pass', 'remove assert')
      return visit(node.test, function)
    if isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Delete)):
      change(function, node, a, b, 'pass', 'remove: ' + text(node).split('\n')[0][:60])
    if isinstance(node, ast.Continue):
      change(function, node, a, b, 'break', 'continue -> break')
      change(function, node, a, b, 'pass', 'continue -> pass')
    if isinstance(node, ast.Break):
      change(function, node, a, b, 'pass', 'break -> pass')
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
      for new in COMPARE[type(node.ops[0])]:
        between(node.left, node.comparators[0], ' %s ' % new, function, node, '%s -> %s' % (text(node)[:50], new))
    if isinstance(node, ast.BinOp) and type(node.op) in BINARY and not isinstance(node.left, ast.Constant):
      if not (isinstance(node.op, ast.Mod) or isinstance(node.op, ast.Add) and any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(node))):
        gap = raw[span(node.left)[1]:span(node.right)[0]].decode()
        symbol = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.FloorDiv: '//'}[type(node.op)]
        between(node.left, node.right, gap.replace(symbol, BINARY[type(node.op)], 1), function, node, '%s: %s -> %s' % (text(node)[:50], symbol, BINARY[type(node.op)]))
    if isinstance(node, ast.BoolOp):
      gap = raw[span(node.values[0])[1]:span(node.values[1])[0]].decode()
      old, new = ('and', 'or') if isinstance(node.op, ast.And) else ('or', 'and')
      if len(node.values) == 2:
        between(node.values[0], node.values[1], gap.replace(old, new, 1), function, node, '%s -> %s' % (old, new))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
      change(function, node, a, b, '(%s)' % text(node.operand), 'drop %s' % type(node.op).__name__)
    if isinstance(node, (ast.If, ast.IfExp)):
      for v in ('True', 'False'):
        x, y = span(node.test)
        change(function, node, x, y, v, 'if %s -> %s' % (text(node.test)[:40].replace('\n', ' '), v))
    if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
      v = node.value
      new = v + 1 if isinstance(v, int) else (1. if v == 0. else v * 1.5)
      change(function, node, a, b, repr(new), '%r -> %r' % (v, new))
    if isinstance(node, ast.Constant) and isinstance(node.value, bool):
      change(function, node, a, b, repr(not node.value), '%r -> %r' % (node.value, not node.value))
    if isinstance(node, ast.Call) and len(node.args) >= 2 and not any(isinstance(x, ast.Starred) for x in node.args):
      x, y = node.args[:2]
      if text(x) != text(y) and not text(node.func).endswith(('format', 'isinstance')):
        (p, q), (r, s) = span(x), span(y)
        out.append((function, node.lineno, 'swap arguments of ' + text(node)[:50].replace('\n', ' '),
                    (raw[:p] + raw[r:s] + raw[q:r] + raw[p:q] + raw[s:]).decode()))
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ('copy', 'inverse', 'conjugate', 'normalize') and not node.args:
      change(function, node, a, b, text(node.func.value), 'drop .%s()' % node.func.attr)
    for child in ast.iter_child_nodes(node):
      visit(child, function)

  visit(tree, '')
  return out


def main():
  scratch = sys.argv[1]
  only = sys.argv[2] if len(sys.argv) > 2 else ''
  name, _, func = only.partition(':')
  repo, verif = os.path.join(scratch, 'repo'), os.path.join(scratch, 'verif')
  env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick', PYTHONDONTWRITEBYTECODE='1')
  report = open(os.path.join(scratch, 'report.txt'), 'a')
  rng = random.Random(int(os.environ.get('MUTATE_SEED', '1')))
  limit = int(os.environ.get('MUTATE_LIMIT', '100000'))
  files = []
  for f, _, _ in TARGETS:
    if name in f and f not in files:
      files.append(f)
  todo = []
  for f in files:
    with open(os.path.join(repo, f)) as s:
      source = s.read()
    for m in mutations(source):
      try:
        compile(m[3], f, 'exec')
      except SyntaxError:
        continue
      checks = next((c for g, p, c in TARGETS if g == f and m[0].startswith(p)), None)
      if checks and func in m[0] and m[3] != source:
        todo.append((f, source, m, checks.split()))
  rng.shuffle(todo)
  print(len(todo), 'mutants', flush=True)
  done = dict(killed=0, survived=0, tests=0, error=0)
  for f, source, (function, line, what, new), checks in todo[:limit]:
    path = os.path.join(repo, f)
    with open(path, 'w') as s:
      s.write(new)
    start = time.time()
    outcome = 'survived'
    try:
      if f.startswith(LIB):
        p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'hand_eye_calibration/test/test_quaternion.py',
                            'hand_eye_calibration/test/test_dual_quaternion.py'], cwd=repo, timeout=120, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                           env=dict(env, PYTHONPATH=os.path.join(repo, 'hand_eye_calibration/python')))
        if p.returncode != 0:
          outcome = 'tests'
      if outcome == 'survived':
        for c in checks:
          p = subprocess.run([os.path.join(verif, 'run.py'), c], cwd=verif, env=env, timeout=900, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
          if p.returncode == 1:
            outcome = 'killed'
            break
          if p.returncode != 0:
            outcome = 'error'
            what += ' | ' + c + ' ' + p.stdout.decode()[-300:].replace('\n', ' / ')
            break
    except subprocess.TimeoutExpired:
      outcome = 'tests' if outcome == 'tests' else 'error'
      what += ' | timeout'
    finally:
      with open(path, 'w') as s:
        s.write(source)
    done[outcome] += 1
    if outcome in ('survived', 'error'):
      report.write('%s %s %s:%d %s\n' % (outcome, os.path.basename(f), function, line, what.replace('\n', ' ')))
      report.flush()
    print('%s %s:%d %s (%.0f s) %s' % (outcome, os.path.basename(f), line, what[:80].replace('\n', ' '), time.time() - start, json.dumps(done)), flush=True)


if __name__ == '__main__':
  main()
