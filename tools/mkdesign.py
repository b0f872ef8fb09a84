#!/usr/bin/env python3-vt
"""Writes /verif/DESIGN.md from tools/design_head.md, properties.jsonl, the checks and tools/caught.json."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src')]
sys.path.append('/opt/venv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
TECH = json.load(open(os.path.join(HERE, 'tools', 'techniques.json')))
caught = os.path.join(HERE, 'tools', 'caught.json')
caught = json.load(open(caught)) if os.path.exists(caught) else {}
out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read().rstrip(), '', '## Each property', '']
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    P = importlib.import_module('checks.' + p['id'].lower()).PROPERTY
    out.append('### %s: %s' % (p['id'], p['title']))
    out.append('* Over: %s.' % p['quantifier']['text'])
    out.append('* Oracle: %s. %s' % tuple(TECH[p['id']]))
    out.append('* Generated: %s' % P.rule)
    out.append('* Cases (quick / thorough): %s.' % '; '.join('%s %d / %d' % (t.name, t.n['quick'], t.n['thorough']) for t in P.tests))
    if P.assumptions:
        out.append('* Bounds: %s.' % '; '.join(P.assumptions))
    out.append('* Why tests cannot: %s' % p['why_tests_cant'])
    mine = sorted(b for (b, r) in caught.items() if p['id'] in r)
    if mine:
        out.append('* Catches: %s.' % ', '.join(mine))
    out.append('')
if caught:
    out += ['## Planted bugs and the checks that catch them', '', 'The check of the property the bug was written for, and any of C30 to C36 (run on all).', '']
    for (b, r) in sorted(caught.items()):
        out.append('* %s: %s' % (b, ', '.join(r) or 'not caught'))
    out.append('')
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))
