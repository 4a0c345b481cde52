"""Compares the symbolic executor with the interpreter on the idioms of harness/idioms.py (a development aid: the checks
validate their own traces against the real code on every run)."""
import sys, os, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from symex import explore
import re
names = re.findall(r'@idiom\s+def (\w+)', open(V + '/harness/idioms.py').read())
for a in sys.argv[1:] and [n for n in names if any(re.fullmatch(x, n) for x in sys.argv[1:])] or names:
    t = time.time()
    R = explore.explore([{'mod': 'idioms', 'fn': 'run', 'args': {'name': a}, 'id': 'x'}], 8, 20, validate=150)
    bad = R['mismatch'] or R['errors'] or R['unsupported'] or R['violations'] or R['spurious'] or R['cnt'].get('unsupported')
    print('BAD' if bad else 'ok ', a, {i: (v['paths'], v['open']) for i, v in R['per_case'].items()}, 'abort', R['cnt'].get('abort'), 'uns', R['cnt'].get('unsupported'), 'val', R['validated'], '%.1fs' % (time.time() - t), flush=True)
    for v in R['mismatch'][:1]: print('  MIS', str(v)[:600])
    for v in R['errors'][:1]: print('  ERR', str(v)[-700:])
    for v in R['unsupported'][:1]: print('  UNS', str(v)[:500])
    for v in R['violations'][:1]: print('  VIO', str(v)[:500])
    for v in R['spurious'][:1]: print('  SPUR', str(v)[:500])
