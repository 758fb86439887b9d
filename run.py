#!/opt/venv/bin/python
"""Runs the check of one property: run.py <property> [--tier quick|thorough].

Exit 0: the property held on everything explored. Exit 1: it is broken, see
the VIOLATION line. Exit 2: the check itself failed."""
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ['MPLBACKEND'] = 'Agg'
os.environ.setdefault('MPLCONFIGDIR', '/opt/mplconfig')
if os.environ.get('PYTHONHASHSEED') != '0':
  os.environ['PYTHONHASHSEED'] = '0'
  os.execv(sys.executable, [sys.executable] + sys.argv)

import argparse
import importlib
import shutil
import traceback
import warnings

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)

from harness import common


def main():
  parser = argparse.ArgumentParser()
  parser.add_argument('property')
  parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
  parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
  args = parser.parse_args()
  out = sys.stdout
  # The code under test reports its progress on stdout.
  sys.stdout = open(os.devnull, 'w')
  warnings.simplefilter('ignore')
  check = common.Check(args.property, args.tier, args.seed)
  try:
    try:
      common.import_repo()
      import numpy as np
      np.seterr(all='ignore')
      np.random.seed(args.seed)
      import random
      random.seed(args.seed)
      module = importlib.import_module('checks.' + args.property.lower())
      module.run(check)
    except common.MachineryError:
      if not check.failures:
        raise
    except Exception:
      # An exception that comes out of the code under test is a broken
      # property, anything else is an error of the machinery.
      tb = sys.exc_info()[2]
      frames = traceback.extract_tb(tb)
      if frames and any(f.filename.startswith(common.REPO + os.sep) for f in frames[-6:]):
        check.fail('raised: ' + traceback.format_exception_only(*sys.exc_info()[:2])[-1].strip(),
                   dict(traceback=traceback.format_exc().splitlines()[-12:]))
      else:
        raise
    code = check.finish(out)
  except Exception:
    traceback.print_exc()
    code = 2
  finally:
    shutil.rmtree(check.scratch, ignore_errors=True)
  out.flush()
  sys.stderr.flush()
  os._exit(code)


if __name__ == '__main__':
  main()
