#!/usr/bin/env python3
"""Writes MANIFEST.json from the rule table and the notes below."""
import json
from obs.main import RULES
from obs.notes import NOTES, NOT_APPLICABLE
checks = []
for p in sorted(RULES):
    tech, note = NOTES[p]
    checks.append({'property': p, 'quick_cmd': 'python3 check.py %s' % p, 'thorough_cmd': 'python3 check.py %s --thorough' % p,
                   'technique': tech, 'level': 'other', 'level_note': note})
na = dict(NOT_APPLICABLE)
for l in open('properties.jsonl'):
    p = json.loads(l)['id']
    if p not in RULES and p not in na:
        na[p] = 'no check built yet'
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(na.items()) if p not in RULES],
     'notes': 'All checks read MIR facts of /repo\'s current tree (driver/) and never run it. No hooks in /repo.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
