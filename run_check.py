#!/opt/venv/bin/python
"""Entry point: run_check.py PROPERTY [--tier quick|thorough] [--replay F]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
want = {'PYTHONHASHSEED': os.environ.get('VERIF_HASHSEED', '0'),
        'PYTHONDONTWRITEBYTECODE': '1',
        # never trust cached bytecode: always compile the working tree
        'PYTHONPYCACHEPREFIX': '/nonexistent/pycache',
        'TZ': 'UTC', 'LC_ALL': 'C.UTF-8'}
if any(os.environ.get(k) != v for k, v in want.items()):
    os.environ.update(want)
    os.execv(sys.executable, [sys.executable, '-W', 'ignore'] + sys.argv)
sys.path.insert(0, HERE)
from sim import runner   # noqa
sys.exit(runner.main())
