#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from vlib/props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'vlib'))
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        lvl = p.get('level', 'proof')
        checks.append({'property': i, 'quick_cmd': 'python3 run.py %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3 run.py %s' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': p.get('technique', 'function contracts discharged by Verus on mechanically extracted source; bounded contract replay for what is left'),
                       'level': lvl, 'level_note': p['note']})
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3 tools/selfcheck.py', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check is run.py <id>; see DESIGN.md. known-findings.txt lists genuine defects repaired or left.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
