#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--test NAME]

Decides one property of /repo's pygcode by generated-input search.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: harness error.
"""
import os
import sys

ENV = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': '/nonexistent/pyc'}
if any(os.environ.get(k) != v for (k, v) in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'src'))
sys.path.append('/opt/venv/lib/python3.12/site-packages')  # euclid3, six (pygcode's dependencies)

from vlib import runner  # noqa: E402

if __name__ == '__main__':
    sys.exit(runner.main(sys.argv[1:], HERE, REPO))
