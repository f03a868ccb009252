#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import props
pids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in pids:
    if p not in props.CHECKS:
        continue
    m = props.META[p]
    checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                   'technique': m[0], 'level': 'model_checking', 'level_note': m[1]})
man = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks,
       'not_applicable': [{'property': p, 'reason': props.NA.get(p, 'the check is still being built')} for p in pids if p not in props.CHECKS],
       'notes': 'TLA+ specifications in spec/, checked with TLC; see DESIGN.md. No hooks in /repo: everything is observed through public interfaces.'}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
