#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from one table (run from anywhere; not used by the checks)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, state=(), level='exploration', tech='', note='', observe=()):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[(f if f.startswith('src/') else 'src/pywriter/' + f) for f in files],
                               mechanism=[dict(name=n, where=w if w.startswith('src/') else 'src/pywriter/' + w) for n, w in mechanism],
                               **({'state': [dict(name=n, meaning=m, where='src/pywriter/' + w) for n, m, w in state]} if state else {}),
                               **({'observe_at': list(observe)} if observe else {})),
                  _level=level, _tech=tech, _note=note))


exec(open(os.path.join(V, 'tools', 'property_table.py'), encoding='utf-8').read())

have = {n[:-3].upper() for n in os.listdir(os.path.join(V, 'harness', 'props')) if n.startswith('c')}
with open(os.path.join(V, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}, ensure_ascii=False) + '\n')
manifest = dict(
    version=1,
    setup_cmd='./run.sh setup',
    checks=[dict(property=p['id'], quick_cmd=f"./run.sh {p['id']}",
                 thorough_cmd=f"VERIF_TIER=thorough ./run.sh {p['id']}",
                 technique=p['_tech'], level=p['_level'], level_note=p['_note']) for p in P if p['id'] in have],
    not_applicable=[dict(property=p['id'], reason='not claimed: no check has been built for it yet')
                    for p in P if p['id'] not in have],
    notes='No hooks in /repo: all monitors attach from outside (audit hooks, recording user interface, independent parsers).')
with open(os.path.join(V, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print(len(P), 'properties;', len(manifest['checks']), 'checks')
