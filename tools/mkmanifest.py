#!/usr/bin/env python3
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for ln in open(os.path.join(H, 'properties.jsonl')):
    i = json.loads(ln)['id']
    checks.append({'property': i, 'quick_cmd': 'python3 tools/check.py %s --tier quick' % i,
                   'thorough_cmd': 'python3 tools/check.py %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': 'TLA+ specification; TLC model checking and TLC validation of traces recorded from the real code',
                   'level': 'model_checking',
                   'level_note': 'Every recorded call of the real classes is checked by TLC against the specification operator of that call '
                                 '(double arithmetic with a relative tolerance); holds for the histories explored, no claim beyond them. '
                                 'Trusts TLC, the Java arithmetic accelerators, g++ and the driver.'})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks: the public API exposes the state the specification talks about. See DESIGN.md.'},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
