#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf import props
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                           technique=p.get('technique', 'TLA+ specification checked with TLC; traces of the real code under a deterministic simulator validated against it'),
                           level=p.get('level', 'model_checking'), level_note=p['note'] if 'note' in p else 'Every recorded run is judged completely; the runs explored are a seeded sample of environments, schedules and faults.'))
    else:
        na.append(dict(property=i, reason=props.NOT_APPLICABLE.get(i, 'check under construction')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
