#!/usr/bin/env python3-vt
"""check.py PXX [--replay FILE]: decides one property by generated-input search.

Exit 0: no violation in anything explored. Exit 1 with a line
'VIOLATION property=PXX replay=FILE': broken. Exit 2: the check itself failed.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')

_ENV = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': '/nonexistent/pycache'}
if __name__ == '__main__' and os.environ.get('VERIF_REEXEC') != '1':
    env = dict(os.environ, VERIF_REEXEC='1', **_ENV)
    env.pop('PYTHONPATH', None)
    env.pop('PYTHONOPTIMIZE', None)
    env.pop('PYTHONWARNINGS', None)
    os.execve(sys.executable, [sys.executable, '-B'] + sys.argv, env)

sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

from lib import driver  # noqa: E402

if __name__ == '__main__':
    sys.exit(driver.main(sys.argv[1:], HERE, REPO))
