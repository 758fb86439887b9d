"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present."""
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = dict(
    C01='QuatMachine.tla', C02='RigidMachine.tla', C03='RigidMachine.tla', C04='Screw.tla', C05='Slerp.tla', C06='Rebase.tla',
    C07='HandEye.tla', C08='Informative.tla', C09='Prefilter.tla', C10='PoseError.tla', C11='Search.tla', C12='Outliers.tla',
    C13='Baseline.tla', C14='TimeOffset.tla', C15='Align.tla', C16='Interpolate.tla', C17='PoseFile.tla', C18='Calibration.tla',
    C19='CommandLine.tla', C20='Pipeline.tla', C21='Experiment.tla', C22='Loop.tla', C23='Export.tla', C24='Batch.tla',
    C25='Aggregate.tla', C26='Spoil.tla', C27='ErrorMap.tla', C28='DualMachine.tla')
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
checks, missing = [], []
for p in props:
  pid = p['id']
  if os.path.exists(os.path.join(root, 'checks', pid.lower() + '.py')):
    notes = dict(
        technique='TLA+ specification spec/%s model checked with TLC; its behaviours replayed into the code of /repo and compared' % SPECS[pid])
    checks.append(dict(
        property=pid,
        quick_cmd='/opt/venv/bin/python /verif/run.py %s --tier quick' % pid,
        thorough_cmd='/opt/venv/bin/python /verif/run.py %s --tier thorough' % pid,
        evidence_file='/verif/evidence/%s.json' % pid,
        technique=notes['technique'], level='model_checking',
        level_note='Exhaustive for the specification within the bounds in DESIGN.md; the code is bound by replaying every '
                   'emitted transition or behaviour (and by validating recorded ones where DESIGN.md says so), not by proof.'))
  else:
    missing.append(dict(property=pid, reason='check not built yet'))
manifest = dict(version=1, setup_cmd='/opt/venv/bin/python /verif/tools/setup.py',
                hooks=dict(guard='none', enable='no hooks: the checks use public functions, files, exit codes and stand-ins for ROS', source_commits=[]),
                checks=checks, not_applicable=missing,
                notes='TLA+ with TLC. See DESIGN.md. Known findings and repaired defects: known_findings.txt.')
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
  json.dump(manifest, f, indent=1)
  f.write('\n')
print(len(checks), 'checks,', len(missing), 'missing')
