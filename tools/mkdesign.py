"""Writes the table of planted bugs at the end of DESIGN.md."""
import glob
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '\n## Planted bugs\n'
MISSED = {  # Missed by the check as it was when the bug was planted; the check was strengthened.
    'limit_shared': 'limits and smoothing of each stream and wrong orientations specified',
    'single_list': 'numbers of all precisions in all ways of construction',
    'single_offset': 'large offsets with a fraction added',
    'raised_minimum': 'searches get their own copy of the settings, compared afterwards',
    'wide_board': 'boards with more rows than columns added',
    'equal_tail': 'C28 added',
    'half_normalized': 'C28 added',
    'sign_window': 'trajectories of up to 1500 poses added',
    'prefilter_window': 'trajectories of up to 160 poses added',
    'evaluated_first': 'alignments of up to 1100 poses added',
    'csv_window': 'tables of thousands of rows added',
    'json_order': 'rewritten files added',
    'correlation_cut': 'recordings of thousands of samples added',
    'cli_quiet_failure': 'recordings with unrelated poses added',
    'square_sign': 'operands that are one object added',
    'slerp_almost_one': 'fractions next to the ends added',
    'interpolate_clipped': 'times outside of the interval added',
    'rate_limit': 'time steps down to a microsecond added',
    'result_sign': 'transforms next to a half turn added',
    'pitch_clipped': 'long motions along the axis added',
    'error_floor': 'errors down to 1e-6 rad added',
    'inverse_unit': 'operands almost of unit norm added',
    'loose_inliers': 'deviations just outside the tolerance added',
    'inverse_small': 'norms down to 1e-8 added',
    'screw_small': 'rotations down to 1e-5 rad added',
    'slerp_half_turn': 'arcs just below a half turn added',
    'rebase_sign': 'relative rotations just below a half turn added',
    'first_pairs': 'long recordings that turn about a second axis late added',
    'gap_hold': 'gaps of minutes and hours added',
    'read_sorted': 'stamps that go back or repeat added',
    'aligned_dir': 'recordings of one name in two folders added; the stand-in tells hand from eye',
    'zero_gap': 'targets without gaps added',
}


def main():
  path = os.path.join(VERIF, 'DESIGN.md')
  with open(path) as f:
    text = f.read().split(MARK)[0].rstrip('\n')
  rows = []
  for meta in sorted(glob.glob(os.path.join(VERIF, 'seeded', '*', 'meta.json'))):
    name = os.path.basename(os.path.dirname(meta))
    with open(meta) as f:
      m = json.load(f)
    rows.append((m['property'], name, m['what_it_breaks'], MISSED.get(name)))
  lines = [MARK, 'Each is confirmed by `tools/seed.py` in a scratch copy (builds, passes the stable tests, its demonstration tells them apart)',
           'and caught by the check of its property (`tools/catch.sh`). The last column says what was added where a check had missed it.', '',
           '| check | bug | what it breaks | missed at first |', '|---|---|---|---|']
  for prop, name, what, missed in sorted(rows):
    lines.append('| %s | %s | %s | %s |' % (prop, name, what, missed or ''))
  with open(path, 'w') as f:
    f.write(text + '\n' + '\n'.join(lines) + '\n')


if __name__ == '__main__':
  main()
