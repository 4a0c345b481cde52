#!/usr/bin/env python3
"""Builds and confirms a planted change:  mkseed.py <definitions.py> [id ...]
A definition file sets SEEDS = {id: dict(prop, edits=[(file, old, new)], demo=python source, needs, breaks)}.
Works in a scratch copy of /repo under /tmp, which is removed afterwards."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/sh
# exit 0: behaves as documented; non-zero: it does not
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
D=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" LC_ALL=C.UTF-8 exec "$PY" "$D/demo.py"
'''
PRE = '''import io, os, re, subprocess, sys, tempfile
sys.path.insert(0, os.getcwd())


def run(data, *args, env=None, width=None):
    """runs the program on the data (bytes from stdin): (exit code, stdout, stderr)"""
    e = dict(os.environ, PYTHONIOENCODING='utf-8', **(env or {}))
    if width:
        e['COLUMNS'] = str(width)
    p = subprocess.run([sys.executable, '-m', 'kolombos', *args], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env=e, timeout=100)
    return p.returncode, p.stdout.decode('utf-8'), p.stderr.decode('utf-8')


def plain(s):
    return re.sub('\\x1b\\\\[[0-9;]*m', '', s)


def expect(cond, text):
    if not cond:
        print('FAILED:', text)
        sys.exit(1)


'''


def main():
    ns = {}
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), ns)
    ids = sys.argv[2:] or list(ns['SEEDS'])
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    for i in ids:
        s = ns['SEEDS'][i]
        out = os.path.join(V, 'seeded', i)
        tmp = tempfile.mkdtemp(prefix='seed_')
        repo = os.path.join(tmp, 'repo')
        try:
            subprocess.run(['cp', '-a', '/repo', repo], check=True)
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            with open(os.path.join(out, 'demo.sh'), 'w') as f:
                f.write(DEMO_SH)
            os.chmod(os.path.join(out, 'demo.sh'), 0o755)
            with open(os.path.join(out, 'demo.py'), 'w') as f:
                f.write(PRE + s['demo'].strip('\n') + '\n')
            r0 = subprocess.run(['sh', os.path.join(out, 'demo.sh')], cwd=repo, capture_output=True, text=True)
            for fn, old, new in s['edits']:
                p = os.path.join(repo, fn)
                t = open(p, encoding='utf-8').read()
                assert t.count(old) == 1, (i, fn, t.count(old), old)
                open(p, 'w', encoding='utf-8').write(t.replace(old, new))
            d = subprocess.run(['git', '-C', repo, 'diff'], capture_output=True).stdout
            open(os.path.join(out, 'patch.diff'), 'wb').write(d)
            r1 = subprocess.run(['sh', os.path.join(out, 'demo.sh')], cwd=repo, capture_output=True, text=True)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LC_ALL='C.UTF-8', TERM='xterm',
                       PYTHONPYCACHEPREFIX=tmp + '/pyc')
            res = []
            for a in (['tests'], ['--doctest-modules', 'kolombos', 'pytermor']):
                x = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', *a], cwd=repo, env=env,
                                   capture_output=True, text=True)
                res += [l for l in x.stdout.splitlines() if l.startswith(('FAILED', 'ERROR'))] 
            bad = [l for l in res if 'find_closest' not in l]
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                      open(os.path.join(out, 'meta.json'), 'w'), indent=1, ensure_ascii=False)
            # lines of my own commits must not be touched
            mine = set(l[1:] for l in subprocess.run(['git', '-C', '/repo', 'diff', '09353c2', 'HEAD'], capture_output=True, text=True).stdout.splitlines()
                       if l.startswith('+') and l[1:].strip())
            rem = [l[1:] for l in d.decode().splitlines() if l.startswith('-') and not l.startswith('---')]
            own = [l for l in rem if l in mine]
            ok = r0.returncode == 0 and r1.returncode != 0 and not bad and not own
            print('OK ' if ok else 'BAD', i, 'clean', r0.returncode, 'patched', r1.returncode, bad, ('own lines', own) if own else '',
                  '' if ok else (r0.stdout + r0.stderr)[-600:] + (r1.stdout + r1.stderr)[-300:], flush=True)
            print('     ', (r1.stdout + r1.stderr).strip()[-160:])
        finally:
            shutil.rmtree(tmp)


main()
