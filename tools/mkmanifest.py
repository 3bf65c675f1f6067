#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/checks.py and properties.jsonl"""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'harness'))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='VERIF_TIER=quick python3 run.py check ' + i,
                           thorough_cmd='VERIF_TIER=thorough python3 run.py check %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=c.get('technique', 'bounded exhaustive exploration of the real code against an independent executable reference model'),
                           level=c['level'], level_note=c.get('note', 'Complete within the stated bounds: every enumerated case runs the real code and is compared with the reference model. ' + c['rule'])))
    else:
        na.append(dict(property=i, reason='no check registered yet'))
m = dict(version=1, setup_cmd='python3 run.py setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo are needed: the library is header-only and the checks compile it from /repo/include.')
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
