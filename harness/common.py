"""Common machinery of all checks: runs TLC, collects what it emits, replays it
into the code under /repo, writes evidence and reports violations."""
import contextlib
import io
import json
import multiprocessing
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
PYTHON = '/opt/venv/bin/python'

LIB = os.path.join(REPO, 'hand_eye_calibration', 'python')
LIB_EXP = os.path.join(REPO, 'hand_eye_calibration_experiments', 'python')
STUBS = os.path.join(VERIF, 'stubs')


def repo_env(scratch=None):
  """Environment for programs of /repo that a check starts."""
  env = dict(os.environ)
  env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
             MPLCONFIGDIR=os.environ.get('MPLCONFIGDIR', '/opt/mplconfig'),
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             PYTHONPATH=os.pathsep.join([STUBS, LIB, LIB_EXP]))
  return env


def _die_with_parent():
  import ctypes
  ctypes.CDLL(None).prctl(1, signal.SIGKILL)


class MachineryError(Exception):
  """The check itself failed, nothing was decided."""


class Timeout(BaseException):
  """The code under test did not return in time."""


def _alarm(signum, frame):
  raise Timeout()


@contextlib.contextmanager
def time_limit(seconds):
  """Raises Timeout in the code under test, repeatedly, in case it catches it."""
  old = signal.signal(signal.SIGALRM, _alarm)
  signal.setitimer(signal.ITIMER_REAL, seconds, 0.5)
  try:
    yield
  finally:
    signal.setitimer(signal.ITIMER_REAL, 0)
    signal.signal(signal.SIGALRM, old)


class TlcResult(object):

  def __init__(self):
    self.records = []
    self.distinct = 0
    self.generated = 0
    self.depth = 0
    self.output = ''
    self.actions = {}


class Check(object):

  def __init__(self, pid, tier, seed):
    self.pid = pid
    self.tier = tier
    self.seed = seed
    self.rng = random.Random(seed * 7919 + sum(map(ord, pid)))
    self.thorough = tier == 'thorough'
    self.scratch = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    self.start = time.time()
    self.failures = []
    self.num_failures = 0
    self.states = 0
    self.transitions = 0
    self.traces = 0
    self.samples = []
    self.assumptions = []
    self.exhaustive = None
    self.details = {}
    self.log_lines = []

  # ---- reporting -----------------------------------------------------------

  def log(self, text):
    self.log_lines.append(text)
    sys.stderr.write('[%s %6.1fs] %s\n' % (self.pid, time.time() - self.start, text))
    sys.stderr.flush()

  def sample(self, case, limit=4):
    if len(self.samples) < limit:
      self.samples.append(case)

  def count(self, name, n=1):
    self.details[name] = self.details.get(name, 0) + n

  def fail(self, clause, case):
    """Records that the real code broke the property."""
    self.num_failures += 1
    if len(self.failures) < 20:
      self.failures.append(dict(clause=clause, case=case))
      if len(self.failures) <= 3:
        self.log('FAILED %s: %s' % (clause, json.dumps(case, default=str)[:600]))

  def known(self, text, clause, case):
    """A failure that the known-findings file may list; any other one is a violation."""
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
      listed = any(line.startswith('finding: property=%s %s' % (self.pid, text)) for line in f)
    if listed:
      self.count('known: ' + text)
    else:
      self.fail(clause, case)

  def enough(self):
    return self.num_failures >= 50

  @contextlib.contextmanager
  def guard(self, clause, case, seconds=60.):
    """Runs code under test: an exception or a hang breaks the property."""
    try:
      with time_limit(seconds):
        yield
    except MachineryError:
      raise
    except Timeout:
      self.fail(clause + ': did not return', case)
    except (Exception, SystemExit) as e:
      tb = traceback.format_exc().splitlines()[-8:]
      self.fail('%s: raised %s: %s' % (clause, type(e).__name__, str(e)[:300]),
                dict(case=case, traceback=tb))

  # ---- TLC -----------------------------------------------------------------

  def tlc(self, module, constants=None, invariants=(), properties=(), init='Init', next_='Next', spec=None,
          emit=None, constraint=None, view=None, simulate=None, depth=None, workers=8, files=None,
          postcondition=None, heap='8g', timeout=1500, expect_violation=False, symmetry=None, coverage=False):
    """Runs TLC on spec/<module>.tla and returns counts and emitted records.

    Constants are TLA+ expressions (text). A counterexample to a property of
    the specification itself is an error of the machinery, as the
    specification does not depend on the code, unless expect_violation."""
    work = tempfile.mkdtemp(prefix='tlc_', dir=self.scratch)
    for name in os.listdir(SPEC):
      if name.endswith('.tla'):
        shutil.copy(os.path.join(SPEC, name), work)
    for name, content in (files or {}).items():
      with open(os.path.join(work, name), 'w') as f:
        f.write(content)
    mc = ['---- MODULE MC ----', 'EXTENDS ' + module]
    cfg = []
    if spec:
      cfg.append('SPECIFICATION ' + spec)
    else:
      cfg.append('INIT ' + init)
      cfg.append('NEXT ' + next_)
    for name, value in (constants or {}).items():
      mc.append('const_%s == %s' % (name, value))
      cfg.append('CONSTANT %s <- const_%s' % (name, name))
    for inv in invariants:
      cfg.append('INVARIANT ' + inv)
    for prop in properties:
      cfg.append('PROPERTY ' + prop)
    if emit:
      cfg.append('ACTION_CONSTRAINT ' + emit)
    if constraint:
      cfg.append('CONSTRAINT ' + constraint)
    if view:
      cfg.append('VIEW ' + view)
    if symmetry:
      cfg.append('SYMMETRY ' + symmetry)
    if postcondition:
      cfg.append('POSTCONDITION ' + postcondition)
    cfg.append('CHECK_DEADLOCK FALSE')
    mc.append('====')
    with open(os.path.join(work, 'MC.tla'), 'w') as f:
      f.write('\n'.join(mc) + '\n')
    with open(os.path.join(work, 'MC.cfg'), 'w') as f:
      f.write('\n'.join(cfg) + '\n')
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + work, '-cp', TLA_CP,
           'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(work, 'states'), '-fp', '0']
    if coverage:
      cmd += ['-coverage', '1']
    if simulate:
      cmd += ['-simulate', 'num=%d' % simulate, '-seed', str(self.seed)]
      if depth:
        cmd += ['-depth', str(depth)]
    cmd.append('MC.tla')
    res = TlcResult()
    t0 = time.time()
    proc = subprocess.Popen(cmd, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True,
                            encoding='utf-8', errors='replace', preexec_fn=_die_with_parent)
    timer_hit = []

    def kill(*_):
      timer_hit.append(1)
      proc.kill()
    import threading
    timer = threading.Timer(timeout, kill)
    timer.start()
    other = []
    prefix = '<<"@@", "'
    for line in proc.stdout:
      if line.startswith(prefix):
        # TLA+ string escapes of TLC are those of JSON strings.
        res.records.append(json.loads(json.loads(line[len(prefix) - 1:].rstrip()[:-2])))
      else:
        other.append(line)
    proc.wait()
    timer.cancel()
    res.output = ''.join(other)
    shutil.rmtree(work, ignore_errors=True)
    if timer_hit:
      raise MachineryError('TLC timed out on %s' % module)
    m = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found', res.output)
    if m:
      res.generated = int(m[-1][0].replace(',', ''))
      res.distinct = int(m[-1][1].replace(',', ''))
    m = re.findall(r'The number of states generated: ([\d,]+)', res.output)
    if m:
      res.generated = int(m[-1].replace(',', ''))
    m = re.findall(r'depth of the complete state graph search is (\d+)', res.output)
    if m:
      res.depth = int(m[-1])
    for name, dist, gen in re.findall(r'^<(\w+) line [^>]*>: (\d+):(\d+)', res.output, re.M):
      res.actions[name] = max(res.actions.get(name, 0), int(gen))
    res.returncode = proc.returncode
    if proc.returncode != 0 and not expect_violation:
      raise MachineryError('TLC failed on %s (exit %s):\n%s' % (module, proc.returncode, res.output[-6000:]))
    self.states += res.distinct
    self.transitions += res.generated
    self.log('TLC %s: %d distinct states, %d transitions, %d records, %.1fs' % (
        module, res.distinct, res.generated, len(res.records), time.time() - t0))
    return res

  def require_ops(self, ops, names):
    """Guards against vacuity: every named action must have been emitted."""
    ops = set(ops)
    for name in names:
      if name not in ops:
        raise MachineryError('action %s was never taken: %s' % (name, sorted(ops)))

  # ---- finish --------------------------------------------------------------

  def finish(self, out):
    evidence = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking',
                    coverage=dict(states=self.states, transitions=self.transitions,
                                  traces_validated_against_impl=self.traces,
                                  samples=self.samples, details=self.details),
                    assumptions=self.assumptions, wall_s=round(time.time() - self.start, 3),
                    violations=self.num_failures)
    if self.exhaustive is not None:
      evidence['coverage']['exhaustive'] = self.exhaustive
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
      json.dump(evidence, f, indent=1, default=str)
      f.write('\n')
    for name in sorted(self.details):
      if name.startswith('known: '):
        out.write('KNOWN-FINDING: property=%s %s (%d cases)\n' % (self.pid, name[7:], self.details[name]))
    if self.failures:
      os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
      path = os.path.join(VERIF, 'replay', self.pid + '.json')
      with open(path, 'w') as f:
        json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, failures=self.failures), f, indent=1, default=str)
        f.write('\n')
      out.write('property %s broken: %d failures, first: %s\n' % (
          self.pid, self.num_failures, self.failures[0]['clause']))
      out.write('VIOLATION property=%s replay=%s\n' % (self.pid, path))
      return 1
    if self.traces == 0:
      raise MachineryError('nothing was validated against the implementation')
    out.write('property %s held: %d states, %d transitions, %d traces validated, %.1fs\n' % (
        self.pid, self.states, self.transitions, self.traces, time.time() - self.start))
    return 0


# ---- parallel replay ---------------------------------------------------------

_PMAP = {}


def _pmap_worker(args):
  import logging
  key, lo, hi = args
  fn, items, check = _PMAP[key]
  check.failures, check.num_failures, check.samples, check.details, check.traces = [], 0, [], {}, 0
  for item in items[lo:hi]:
    fn(check, item)
    if check.enough():
      break
  return check.failures, check.num_failures, check.samples, check.details, check.traces


def pmap(check, fn, items, procs=8, chunks=None):
  """Applies fn(check, item) to all items in forked processes, merging results."""
  items = list(items)
  if not items:
    return
  n = chunks or procs * 4
  size = max(1, (len(items) + n - 1) // n)
  jobs = [(id(items), lo, min(lo + size, len(items))) for lo in range(0, len(items), size)]
  _PMAP[id(items)] = (fn, items, check)
  saved = check.failures, check.num_failures, check.samples, check.details, check.traces
  try:
    with multiprocessing.get_context('fork').Pool(procs) as pool:
      results = pool.map(_pmap_worker, jobs, chunksize=1)
  finally:
    del _PMAP[id(items)]
    check.failures, check.num_failures, check.samples, check.details, check.traces = saved
  for failures, num, samples, details, traces in results:
    check.num_failures += num
    check.failures = (check.failures + failures)[:20]
    for s in samples:
      check.sample(s)
    for k, v in details.items():
      check.count(k, v)
    check.traces += traces


def import_repo():
  """Makes the code of /repo importable, with stand-ins for ROS packages."""
  os.environ.setdefault('MPLBACKEND', 'Agg')
  for path in (LIB_EXP, LIB, STUBS):
    if path not in sys.path:
      sys.path.insert(0, path)


def load_program(path, name):
  """Loads a program of /repo (which has no importable name) as a module."""
  import importlib.util
  spec = importlib.util.spec_from_file_location(name, path)
  module = importlib.util.module_from_spec(spec)
  spec.loader.exec_module(module)
  return module
