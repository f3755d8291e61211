#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/config.py and properties.jsonl."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(H, 'checks'))
from config import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=c['technique'], level=c['level'], level_note=c['note']))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='bash setup.sh', hooks=dict(guard='none', enable='no hooks are needed: the harnesses interpose at link level', source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not claimed')
