#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: fixed text (design_head.md, design_tail.md), properties with bounds, table of planted bugs."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from harness_plan import PLAN
from harness_bounds import BOUNDS
from tools.design_how import HOW
T = os.path.join(V, 'tools')
out = open(f'{T}/design_head.md').read()
for l in open(f'{V}/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    fns = sorted({c['fn'] for c in PLAN[i]['quick'] + PLAN[i]['thorough']})
    out += f"### {i} {p['title']}\n\n*Decided by:* {HOW[i]}\n\n*Bounds:* {BOUNDS[i]}\n\n*Harness:* " + ', '.join(
        f"`{c}`" for c in fns) + f" ({len(PLAN[i]['quick'])} quick, {len(PLAN[i]['thorough'])} more thorough cases). *Why tests cannot:* {p['why_tests_cant']}\n\n"
import re
rows = [m.groups() for m in (re.match(r'fixed: property=(\S+) (\S+) (.*)', l) for l in open(f'{V}/KNOWN_FINDINGS')) if m]
out += open(f'{T}/design_tail.md').read().replace('FIXED_TABLE', '\n'.join('| %s | %s | %s |' % r for r in rows))
out += '\n## 7. Planted bugs and which check catches them\n\nAll confirmed by `tools/mkseed.py` (build, stable tests, demo) and by `tools/run_seeds.py` (quick check).\n\n| id | property, caught by | what it breaks | needs |\n|---|---|---|---|\n'
R = {}
if os.path.exists(f'{T}/seed_results.json'):
    R = json.load(open(f'{T}/seed_results.json'))
for s in sorted(os.listdir(f'{V}/seeded')) if os.path.isdir(f'{V}/seeded') else []:
    m = json.load(open(f'{V}/seeded/{s}/meta.json'))
    out += f"| {s} | {m['property']} {R.get(s, '')} | {m['what_it_breaks']} | {m['needs']} |\n"
open(f'{V}/DESIGN.md', 'w').write(out)
