#!/usr/bin/env python3
"""Generate MANIFEST.json from the rules present and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = json.load(open(os.path.join(V, 'tools', 'techniques.json')))
NA = TECH.get('not_applicable', {})
checks, na = [], []
for p in props:
    i = p['id']
    t = TECH['checks'].get(i)
    if t and os.path.exists(os.path.join(V, 'rules', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': t['technique'], 'level': 'other', 'level_note': t['note']})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3 engine/dump.py full', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are static: a rustc driver (driver/) dumps optimised-off MIR of fuel-tx and its helper crates from /repo on every run, and engine/ decides rules/ over it.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
