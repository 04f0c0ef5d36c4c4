#!/usr/bin/env python3
"""Write MANIFEST.json from checks.py and properties.jsonl."""
import json, os
from checks import CHECKS, NOT_APPLICABLE
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i,
                       'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'technique': 'deterministic simulation with fault injection: ' + c['technique'],
                       'level': c.get('level', 'exploration'),
                       'level_note': c['note']})
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'the check is not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 build.py',
     'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: the seams are the library\'s virtual interfaces, '
               'operator new, interposed libc calls and a separately loaded copy of runtimepath.cpp', 'source_commits': []},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
