#!/usr/bin/env python3
"""Write DESIGN.md from design.in.md, the known findings, and the planted bugs (not used by the checks)."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
known = json.load(open(os.path.join(V, 'known_findings.json'), encoding='utf-8'))
caught = {}
path = os.path.join(V, 'tools', 'caught.json')
if os.path.exists(path):
    caught = json.load(open(path))
rows = ['| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for name in sorted(os.listdir(os.path.join(V, 'seeded'))):
    meta = json.load(open(os.path.join(V, 'seeded', name, 'meta.json'), encoding='utf-8'))
    by = caught.get(name, [])
    by = [p for p in by if p == meta['property']] + [p for p in by if p != meta['property']]
    cells = [name, meta['property'], meta['what_it_breaks'], meta['needs'], ', '.join(by) or '?']
    rows.append('| ' + ' | '.join(c.replace('|', '\\|').replace('\n', ' ') for c in cells) + ' |')
text = open(os.path.join(V, 'tools', 'design.in.md'), encoding='utf-8').read()
text = text.replace('@@FINDINGS@@', '\n'.join(f"- **{f['property']} {f['key']}**: {f['what']}" for f in known['findings']))
text = text.replace('@@FIXED@@', '\n'.join('- ' + f.replace('fixed: property=', '') for f in known['fixed']))
text = text.replace('@@SEEDED@@', '\n'.join(rows))
with open(os.path.join(V, 'DESIGN.md'), 'w', encoding='utf-8') as f:
    f.write(text)
print(len(text.splitlines()), 'lines')
