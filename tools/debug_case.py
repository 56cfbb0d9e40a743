"""Runs one stored case with logging and a full traceback: debug_case.py FILE"""
import importlib
import json
import logging
import os
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import boot, core, faults  # noqa: E402

if 'VP_STAGE' not in os.environ:
    os.environ['VP_STAGE'] = '2'
    faults.preload()
    os.execv(boot.PYTHON, [boot.PYTHON, '-B', *sys.argv])
faults.loaded()
boot.setup()
logging.disable(logging.NOTSET)
logging.basicConfig(level=logging.DEBUG)
with open(sys.argv[1]) as file:
    document = json.load(file)
module = importlib.import_module('checks.' + document.get('property', sys.argv[2] if len(sys.argv) > 2 else ''))
with tempfile.TemporaryDirectory() as scratch:
    core.run_case(core.find_sub(module, document['sub']), core.from_json(document['case']), scratch, 'quick')
print('held')
