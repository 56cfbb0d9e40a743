#!/usr/bin/env python3
"""plant.py ID PROPERTY "needs" "breaks" < edits.py  -- records a planted bug.

Standard input is Python code working on `sub(path, old, new)` and, after a line '---', the demonstration as a shell script.
"""
import json, os, shutil, subprocess, sys
name, prop, needs, breaks = sys.argv[1:5]
edits, demo = sys.stdin.read().split('\n---\n', 1)
work = f'/tmp/plant-{name}'
shutil.rmtree(work, ignore_errors=True)
subprocess.run(['cp', '-a', os.environ.get('R', '/repo'), work], check=True)
def sub(path, old, new, count=1):
    full = f'{work}/{path}'
    text = open(full).read()
    assert text.count(old) == count, f'{path}: {text.count(old)} matches of {old!r}'
    open(full, 'w').write(text.replace(old, new))
exec(edits)
target = f'/verif/seeded/{name}'
os.makedirs(target, exist_ok=True)
diff = subprocess.run(['git', 'diff'], cwd=work, capture_output=True, text=True, check=True).stdout
open(f'{target}/patch.diff', 'w').write(diff)
open(f'{target}/demo.sh', 'w').write(demo)
os.chmod(f'{target}/demo.sh', 0o755)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{target}/meta.json', 'w'), indent=1)
shutil.rmtree(work)
print(diff)
