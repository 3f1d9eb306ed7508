#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
from checks import CHECKS
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py %s --thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=c.get('technique', 'stateless bounded-exhaustive model checking of the real library against an executable reference model'),
                           level=c.get('level', 'model_checking'), level_note=c.get('note', '') or 'Bounds: ' + c['bounds']))
    else:
        na.append(dict(property=i, reason='harness not built yet'))
m = dict(version=1, setup_cmd='python3 check.py --list', checks=checks)
if na:
    m['not_applicable'] = na
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
