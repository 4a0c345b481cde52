#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and harness_plan.PLAN."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from harness_plan import PLAN, NOTES
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PLAN and PLAN[i]['quick']:
        checks.append({
            'property': i,
            'quick_cmd': f'python3-vt check.py {i} --tier quick',
            'thorough_cmd': f'python3-vt check.py {i} --tier thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'symbolic execution of the real Python source with Z3 (bounded), counterexamples replayed on the untouched code',
            'level': 'model_checking',
            'level_note': NOTES.get('*', '') + (' ' + NOTES[i] if i in NOTES else ''),
        })
    else:
        na.append({'property': i, 'reason': NOTES.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3-vt tools/selftest.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the source is instrumented in memory on every run. See DESIGN.md.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
