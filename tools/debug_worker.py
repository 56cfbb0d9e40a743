#!/opt/venv/bin/python
"""debug_worker.py <property id> <sub> <worker index> <seed> [count]: runs one worker and dumps the log of the first violation."""
import io
import os
import sys
import tempfile

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-B', os.path.abspath(__file__), *sys.argv[1:]])
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import importlib  # noqa: E402
import logging  # noqa: E402

from vp import boot, core  # noqa: E402

boot.setup()
logging.disable(0)
stream = io.StringIO()
logging.basicConfig(level=logging.DEBUG, stream=stream, force=True)
name, sub, index, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
module = importlib.import_module('checks.' + name)
original = core.run_case
dumped = []


def run_case(*args, **kwargs):
    stream.truncate(0)
    stream.seek(0)
    try:
        return original(*args, **kwargs)
    except core.Violation as violation:
        if not dumped:
            dumped.append(1); import threading; print('FDS', len(os.listdir('/proc/self/fd')), 'threads', threading.active_count(), len(os.listdir('/proc/self/task')))
            print(str(violation)[:3000])
            print(stream.getvalue()[-int(os.environ.get('TAIL', '6000')):])
            sys.stdout.flush()
            os._exit(1)
        raise


core.run_case = run_case
with tempfile.TemporaryDirectory(dir=boot.scratch_parent()) as scratch:
    result = core.Worker(module, index, 8, 'quick', seed, scratch, [sub]).run()
print({k: v for k, v in result.items() if k in ('evaluations', 'errors')})
