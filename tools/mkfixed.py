#!/usr/bin/env python3
"""mkfixed.py MAP: writes the "fixed" list of known_findings.json from 'hash,hash PROPERTY; ...' and the commits in /repo."""
import json, subprocess, sys
owner = {}
for group in open(sys.argv[1]).read().replace('\n', ' ').split(';'):
    if group.strip():
        hashes, prop = group.split()
        owner.update({h: prop for h in hashes.split(',')})
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h|%s', 'f47de33..HEAD'], capture_output=True, text=True).stdout
fixed = []
for line in log.splitlines():
    h, subject = line.split('|', 1)
    if h not in owner:
        print('no property for', line)
        continue
    fixed.append(f'fixed: property={owner.pop(h)} {h} ' + subject.removeprefix('fix: '))
print('left over', owner)
path = '/verif/known_findings.json'
data = json.load(open(path)); data['fixed'] = fixed
json.dump(data, open(path, 'w'), indent=1, ensure_ascii=False); open(path, 'a').write('\n')
