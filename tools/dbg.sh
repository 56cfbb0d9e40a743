#!/bin/bash
# Shows a replay file and the log of running it.
for f in "$@"; do echo "==== $f"; python3 - <<P
import json;d=json.load(open('$f'));print(d['case']); print(d['message'][-400:])
P
VP_DEBUG=1 timeout 200 python3 /verif/tools/debug_case.py $f 2>&1 | grep -v "^  File\|^    \|Skipping" | tail -${TAIL:-25}; done
