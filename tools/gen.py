#!/usr/bin/env python3
# writes /verif/properties.jsonl and /verif/MANIFEST.json from the table in spec.py
import json, os
from spec import PROPS, SETUP, NOTES
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(q['title']) <= 80, q['id']
        f.write(json.dumps(q) + '\n')
checks, na = [], []
for p in PROPS:
    if 'na' in p:
        na.append({'property': p['id'], 'reason': p['na']})
    else:
        checks.append({'property': p['id'], 'quick_cmd': './check.sh ' + p['id'],
                       'thorough_cmd': './check.sh ' + p['id'],
                       'technique': p['technique'], 'level': p.get('level', 'proof'), 'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': SETUP, 'checks': checks, 'not_applicable': na, 'notes': NOTES},
          open(here + '/MANIFEST.json', 'w'), indent=1)
