"""Compares a test result of /opt/vp/test.sh with the baseline: baseline_diff.py OUT.json"""
import json
import sys

with open(sys.argv[1]) as file:
    out = json.load(file)
with open('/opt/vp/BASELINE.json') as file:
    base = json.load(file)
stable = next(v for k, v in base.items() if isinstance(v, list) and len(v) > 100)
lost = sorted(set(stable) - set(out['passed']))
print(f"{len(set(stable) & set(out['passed']))}/{len(stable)} stable tests passed; missing: {lost[:20]}")
