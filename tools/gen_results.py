#!/usr/bin/env python3
"""Rewrites the table between the RESULTS markers of DESIGN.md from the evidence files of the last runs."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | level | obligations discharged | functions under contract | bounded evaluations |',
        '|---|---|---|---|---|']
for p in open(ROOT + '/properties.jsonl'):
    i = json.loads(p)['id']
    f = f'{ROOT}/evidence/{i}.json'
    if not os.path.exists(f):
        continue
    e = json.load(open(f))
    c = e['coverage']
    n = sum((b.get('result') or {}).get('evaluations', 0) for b in c.get('bounded_checks', [])) or '–'
    o = f"{c['discharged']}/{c['obligations']}" if c.get('obligations') else '–'
    rows.append(f"| {i} | {e['level']} | {o} | {len(c.get('functions_under_contract', [])) or '–'} | {n} |")
d = open(ROOT + '/DESIGN.md').read()
a, z = '<!-- RESULTS -->\n', '<!-- /RESULTS -->\n'
d = d[:d.index(a) + len(a)] + '\n'.join(rows) + '\n' + d[d.index(z):]
open(ROOT + '/DESIGN.md', 'w').write(d)
