#!/usr/bin/env python3
"""Entry point of every check:  python3 run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]

Re-executes itself with the interpreter satisfy is installed in, with bytecode caches off (a stale .pyc can then
not hide a change) and the working tree of /repo first on the path.
"""
import os, sys

VENV = '/opt/venv/bin/python'
REPO = os.environ.get('VMON_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))

if os.environ.get('VMON_STAGE') != '1':
    env = dict(os.environ)
    env.update(VMON_STAGE='1', PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent',
               PYTHONNOUSERSITE='1', PYTHONHASHSEED='0', VMON_REPO=REPO)
    env.pop('PYTHONPATH', None)
    py = VENV if os.path.exists(VENV) else sys.executable
    os.execve(py, [py, '-B', os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(REPO, 'src'))
from vmon.runner import main  # noqa: E402

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
