"""Checks that everything the checks need is there: TLC parses every module."""
import os
import shutil
import subprocess
import sys
import tempfile

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
sys.dont_write_bytecode = True
from harness import common

work = tempfile.mkdtemp(prefix='verif_setup_')
try:
  names = sorted(n for n in os.listdir(common.SPEC) if n.endswith('.tla'))
  for n in names:
    shutil.copy(os.path.join(common.SPEC, n), work)
  out = subprocess.run(['java', '-Djava.io.tmpdir=' + work, '-cp', common.TLA_CP, 'tla2sany.SANY'] + names, cwd=work,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
  if out.returncode or 'Could not parse' in out.stdout or '*** Errors' in out.stdout:
    print(out.stdout)
    sys.exit(1)
  print('%d modules parsed' % len(names))
finally:
  shutil.rmtree(work, ignore_errors=True)
