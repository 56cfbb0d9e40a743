#!/opt/venv/bin/python
"""Writes MANIFEST.json: claims every property that has checks/<id>.py."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, missing = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl'), encoding='utf-8'):
    prop = json.loads(line)
    path = os.path.join(ROOT, 'checks', prop['id'] + '.py')
    if not os.path.exists(path):
        missing.append({'property': prop['id'], 'reason': 'No check has been built for it yet.'})
        continue
    values = {}
    for node in ast.parse(open(path, encoding='utf-8').read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            if node.targets[0].id in ('TECHNIQUE', 'ASSUMES', 'NOTE'):
                values[node.targets[0].id] = ast.literal_eval(node.value)
    note = values.get('NOTE', 'Exploration: no counterexample among the generated cases; not a proof.')
    checks.append({
        'property': prop['id'],
        'quick_cmd': f"./run.py {prop['id']} --tier quick",
        'thorough_cmd': f"./run.py {prop['id']} --tier thorough",
        'evidence_file': f"evidence/{prop['id']}.json",
        'technique': values['TECHNIQUE'],
        'level': 'exploration',
        'level_note': ' '.join([note, *values.get('ASSUMES', [])]),
    })
manifest = {
    'version': 1,
    'setup_cmd': 'true',
    'checks': checks,
    'not_applicable': missing,
    'notes': 'All checks import the code from /repo (VP_REPO overrides the tree for experiments) and need no hooks.',
}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf-8') as file:
    json.dump(manifest, file, indent=1, ensure_ascii=False)
    file.write('\n')
print(len(checks), 'claimed,', len(missing), 'not')
