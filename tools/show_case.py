"""Prints the members of a stored case compactly."""
import json
import sys


def show(members, indent=0):
    for m in members:
        rest = {k: v for k, v in m.items() if k not in ('t', 'name', 'nested', 'mode', 'uid', 'gid', 'mtime', 'fmt')}
        print(' ' * indent, m['t'], m['name'][-40:], m.get('fmt'), json.dumps(rest)[:150])
        show(m.get('nested', []), indent + 2)


for name in sys.argv[1:]:
    with open(name) as file:
        document = json.load(file)
    case = document['case']
    show(case.get('members', []))
    print({k: v for k, v in case.items() if k != 'members'})
    print(document.get('message', '')[:500])
