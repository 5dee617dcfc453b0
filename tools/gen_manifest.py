#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist (checks/rNN.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, 'tools', 'level_notes.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    n = NOTES.get(p)
    if n and 'na' not in n and os.path.exists(os.path.join(V, 'checks', p.lower() + '.py')):
        checks.append({'property': p, 'quick_cmd': f'python3-vt run_check.py {p}',
                       'thorough_cmd': f'python3-vt run_check.py {p} --tier thorough',
                       'technique': n['technique'], 'level': 'model_checking', 'level_note': n['note']})
    else:
        na.append({'property': p, 'reason': (n or {}).get('na', 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks execute the repository sources as they are, with stand-ins only for mpi4py, numba, torch and the CPython/NumPy C API.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
