#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open('properties.jsonl')]
m = {'version': 1, 'setup_cmd': './check --build', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append({
            'property': i, 'quick_cmd': './check ' + i, 'thorough_cmd': './check %s --thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': c.get('technique', 'property-based testing: generated cases against an executable oracle'),
            'level': c.get('level', 'exploration'), 'level_note': c['note']})
    else:
        m['not_applicable'].append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'not claimed yet: machinery under construction')})
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
