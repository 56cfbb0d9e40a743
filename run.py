#!/opt/venv/bin/python
"""run.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE] [--sub NAME]"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0' or not sys.flags.dont_write_bytecode:
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    if sys.argv[1:2] == ['C05']:
        sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
        from vp import faults

        faults.preload()
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-B', os.path.abspath(__file__), *sys.argv[1:]])

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
# Compiled files that lie beside the sources may be stale; never use them.
sys.pycache_prefix = '/nonexistent-pycache'

from vp import core  # noqa: E402

if sys.argv[1:2] == ['C05']:
    from vp import faults

    faults.loaded()

sys.exit(core.main(sys.argv[1:]))
