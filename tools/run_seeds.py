#!/usr/bin/env python3
"""Runs the quick check of each planted change's property with the change applied to /repo (undone afterwards):
run_seeds.py [id ...] [--tier thorough] [--all-props]"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tier = 'thorough' if '--thorough' in sys.argv else 'quick'
ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(f'{V}/seeded'))
assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain', '-uno'], capture_output=True, text=True).stdout.strip()
for i in ids:
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    t = time.time()
    try:
        subprocess.run(['git', '-C', '/repo', 'apply', f'{V}/seeded/{i}/patch.diff'], check=True)
        p = subprocess.run(['python3-vt', f'{V}/check.py', m['property'], '--tier', tier], cwd=V, capture_output=True, text=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
    out = p.stdout.strip().splitlines()
    first = next((l for l in out if l.startswith(m['property'] + ':')), '')
    print(f"{'CAUGHT' if p.returncode == 1 else 'missed' if p.returncode == 0 else 'INCONCLUSIVE'} {i} {m['property']} rc={p.returncode} {time.time() - t:.0f}s {first[:200]}", flush=True)
    if p.returncode not in (0, 1):
        print(p.stderr[-1500:])
