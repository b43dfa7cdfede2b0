#!/usr/bin/env python3
"""Update the "fixed" entries of known_findings.json from fixed.txt (not used by the checks)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(V, 'known_findings.json')
data = json.load(open(path, encoding='utf-8'))
data['fixed'] = []
for line in open(os.path.join(V, 'tools', 'fixed.txt'), encoding='utf-8'):
    commit, pid, what = line.strip().split(' ', 2)
    data['fixed'].append(f'fixed: property={pid} {commit} {what}')
with open(path, 'w', encoding='utf-8') as f:
    json.dump(data, f, indent=1)
    f.write('\n')
