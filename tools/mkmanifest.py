#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
TECH = json.load(open(os.path.join(HERE, 'tools', 'techniques.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
        (tech, note) = TECH[i]
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i,
                       'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'property-based testing (Hypothesis, seeded, 8 processes): ' + tech,
                       'level': 'exploration', 'level_note': note})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3-vt tools/selftest.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks import pygcode from /repo/src and run /repo/scripts in-process. VERIF_REPO overrides the tree.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
