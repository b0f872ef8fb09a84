#!/usr/bin/env python3
"""setup_cmd: nothing to build (pure Python); checks that what the checks need is there."""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src')]
sys.path.append('/opt/venv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
import hypothesis, euclid3, six          # noqa
from vlib import ref, gens
b = gens.build([[['l', 1, 3, [1000, 2000, 0]], [], 0, []], [['a', 1, 100, 0, 3, 0, 0, 0, 0], [], 0, []]])
assert b.lines[0].code == 'G1 X1 Y2', b.lines[0].code
print('ok: hypothesis', hypothesis.__version__)
