#!/usr/bin/env python3
"""Mutation run over the sources: mutate.py <out.jsonl> [--files re] [--seed n] [--minutes m] [--props P,..]
Works on copies of /repo and /verif under /tmp/mut; a mutant that passes the tests is given to the quick checks mapped to its file.
Only a tool to find blind spots; no check uses it."""
import argparse, ast, json, os, random, re, shutil, subprocess, sys, time
MAP = {
    'kolombos/byteio/reader.py': 'K22 K08 K07 K17 K05 K18', 'kolombos/byteio/formatter/binary.py': 'K02 K16 K01 K07 K18 K11',
    'kolombos/byteio/formatter/text.py': 'K06 K05 K07 K18 K11', 'kolombos/byteio/formatter/factory.py': 'K05 K19',
    'kolombos/byteio/formatter/_abstract.py': 'K01 K05 K10 K18', 'kolombos/byteio/parser/parser.py': 'K04 K05 K07 K01 K09 K14 K18',
    'kolombos/byteio/parser/buffer.py': 'K07 K01 K09', 'kolombos/byteio/segment/buffer.py': 'K15 K11 K05 K01 K21 K18',
    'kolombos/byteio/segment/segment.py': 'K15 K01 K02', 'kolombos/byteio/segment/printer.py': 'K01 K15 K18', 'kolombos/byteio/segment/chainable.py': 'K01 K15',
    'kolombos/byteio/segment/sequence_ref.py': 'K01 K15 K11', 'kolombos/byteio/partial_override.py': 'K05 K12 K21 K13',
    'kolombos/byteio/template/.*': 'K05 K14 K21 K12 K13 K11 K02 K01 K09 K10', 'kolombos/byteio/const.py': 'K05 K12 K10 K13 K21', 'kolombos/console.py': 'K03 K02 K06 K17 K18 K16',
    'kolombos/settings.py': 'K05 K14 K12 K21 K13 K19 K20 K18 K02', 'kolombos/app.py': 'K17 K19', 'kolombos/arghelp.py': 'K19 K20 K17', 'kolombos/runner/.*': 'K20 K07 K19 K17',
    'kolombos/common.py': 'K16 K17', 'pytermor/ansi.py': 'P01 P02 P15 P09', 'pytermor/color.py': 'P04 P05 P15 P09', 'pytermor/render.py': 'P10 P09 P12 P15 P17',
    'pytermor/common.py': 'P15', 'pytermor/util/auto_float.py': 'P06 P07 P16', 'pytermor/util/prefixed_unit.py': 'P16 P07', 'pytermor/util/stdlib_ext.py': 'P03',
    'pytermor/util/string_filter.py': 'P14 P03', 'pytermor/util/time_delta.py': 'P13 P08', 'pytermor/util/__init__.py': 'P11',
}
SKIPF = {'debug_settings', '_debug_print_match_segments', 'preview', '_preview_collect', 'printd', '__repr__', 'get_separator_line', 'wait_key', '_seg_origin_noop',
         'add_examples', '_format_action_invocation', '_fill_text', '_format_text', 'add_usage', 'start_section', 'format_header', 'format_help'}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'],
       ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '//', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '+', ast.BitOr: '&', ast.BitAnd: '|', ast.LShift: '>>', ast.RShift: '<<', ast.Pow: '*'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    raw = [l.encode() for l in lines]
    for l in raw:
        offs.append(offs[-1] + len(l))
    data = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    out = []

    def seg(n):
        a, b = span(n)
        return data[a:b].decode()

    def add(n, new, what):
        a, b = span(n)
        out.append((a, b, new, what, n.lineno))

    def is_debug(n):
        return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'write' and '_debug_buffer' in ast.unparse(n.func)

    def walk(n, infunc, inann=False):
        if isinstance(n, (ast.FunctionDef,)):
            if n.name in SKIPF or n.name.startswith('debug_'):
                return
            for d in n.args.defaults + n.args.kw_defaults:
                if d is not None:
                    walk(d, n.name)
            for i, s in enumerate(n.body):
                if i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
                    continue
                walk(s, n.name)
            return
        if isinstance(n, ast.ClassDef):
            for s in n.body:
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue
                walk(s, infunc)
            return
        if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or is_debug(n.value)):
            return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise, ast.Assert)):
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                walk(n.value, infunc)
            return
        if isinstance(n, (ast.Expr, ast.AugAssign)) and infunc or isinstance(n, ast.Assign) and infunc and isinstance(n.targets[0], ast.Attribute):
            add(n, 'pass', 'delete')
        if isinstance(n, (ast.Break, ast.Continue)):
            add(n, 'pass', 'delete')
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, f'(not ({seg(n.test)}))', 'negate')
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            add(n.value, 'None', 'return none')
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, f'({seg(n.left)} {o} {seg(n.comparators[0])})', 'compare ' + o)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, f'({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})', 'op ' + BIN[type(n.op)])
        if isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + o.join('(' + seg(v) + ')' for v in n.values) + ')', 'bool' + o)
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                o2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                add(n, '(' + o2.join('(' + seg(v) + ')' for v in rest) + ')', f'drop operand {i}')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, '(' + seg(n.operand) + ')', 'drop unary')
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, str(not v), 'bool const')
            elif type(v) is int:
                add(n, str(v + 1), 'const+1')
                if v > 0:
                    add(n, str(v - 1), 'const-1')
            elif type(v) is float:
                add(n, str(v * 2 or 1.0), 'const*2')
            elif type(v) is str and v and not seg(n).startswith(('f', "'''", '"""')):
                add(n, "''", 'empty string')
            return
        if isinstance(n, ast.JoinedStr):
            for v in n.values:
                if isinstance(v, ast.FormattedValue):
                    walk(v.value, infunc)
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add_argument':
            for k in n.keywords:
                if k.arg != 'help':
                    walk(k.value, infunc)
            return
        for c in ast.iter_child_nodes(n):
            walk(c, infunc)
    for s in tree.body:
        walk(s, None)
    res, seen = [], set()
    for a, b, new, what, ln in out:
        if data[a:b].decode() == new or (a, b, new) in seen:
            continue
        seen.add((a, b, new))
        res.append((data[:a] + new.encode() + data[b:], ln, what, data[a:b].decode()[:100], new[:100]))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--files', default='.')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--minutes', type=float, default=60)
    ap.add_argument('--per-file', type=int, default=0)
    ap.add_argument('--lines', default='')
    ap.add_argument('--count', action='store_true')
    ap.add_argument('--budget', default='100')
    ap.add_argument('--dir', default='/tmp/mut')
    a = ap.parse_args()
    rnd = random.Random(a.seed)
    todo = []
    for f in subprocess.run(['git', '-C', '/repo', 'ls-files', '*.py'], capture_output=True, text=True).stdout.split():
        k = next((v for p, v in MAP.items() if re.fullmatch(p, f)), None)
        if k is None or not re.search(a.files, f):
            continue
        ms = mutants(open('/repo/' + f).read())
        if f == 'pytermor/color.py' or f == 'pytermor/ansi.py' or f == 'pytermor/render.py':
            gen = [i + 1 for i, l in enumerate(open('/repo/' + f).read().split('\n')) if re.match(r'    [A-Z_0-9]+ = ', l)]
            g = [m for m in ms if m[1] in gen]
            ms = [m for m in ms if m[1] not in gen] + rnd.sample(g, min(len(g), 25))
        if a.lines:
            lo, hi = map(int, a.lines.split('-'))
            ms = [m for m in ms if lo <= m[1] <= hi]
        rnd.shuffle(ms)
        if a.per_file:
            ms = ms[:a.per_file]
        print(f, len(ms), k)
        todo += [(f, k.split(), m) for m in ms]
    rnd.shuffle(todo)
    if a.count:
        return
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['what'], d['old'], d['new']))
    D = a.dir
    shutil.rmtree(D, ignore_errors=True)
    os.makedirs(D)
    subprocess.run(['cp', '-a', '/repo', D + '/repo'], check=True)
    subprocess.run(['git', 'clone', '-q', '/verif', D + '/verif'], check=True)
    t0 = time.time()
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LC_ALL='C.UTF-8', TERM='xterm', PYTHONPYCACHEPREFIX=D + '/pyc')
    for f, props, (new, ln, what, old, nw) in todo:
        if time.time() - t0 > a.minutes * 60:
            break
        if (f, ln, what, old, nw) in done:
            continue
        p = f'{D}/repo/{f}'
        with open(p, 'wb') as fh:
            fh.write(new)
        r = {'file': f, 'line': ln, 'what': what, 'old': old, 'new': nw, 'src': new.decode().split('\n')[ln - 1].strip()[:160]}
        try:
            ok = True
            for x in (['tests'], ['--doctest-modules', 'kolombos', 'pytermor']):
                try:
                    y = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', *x], cwd=D + '/repo', env=env, capture_output=True, text=True, timeout=60)
                except subprocess.TimeoutExpired:
                    ok = False
                    break
                bad = [l for l in y.stdout.splitlines() if l.startswith(('FAILED', 'ERROR')) and 'find_closest' not in l]
                if bad or 'passed' not in y.stdout:
                    ok = False
                    break
            if not ok:
                r['result'] = 'tests'
                continue
            r['result'] = 'SURVIVED'
            r['checks'] = {}
            for c in props:
                t = time.time()
                y = subprocess.run(['python3-vt', 'check.py', c, '--budget', a.budget], cwd=D + '/verif', env=dict(os.environ, VP_REPO=D + '/repo'), capture_output=True, text=True)
                r['checks'][c] = [y.returncode, round(time.time() - t)]
                if y.returncode == 1:
                    r['result'] = 'killed ' + c
                    break
                if y.returncode == 2:
                    r['result'] = 'INCONCLUSIVE'
        finally:
            subprocess.run(['git', '-C', D + '/repo', 'checkout', '--', '.'], check=True)
            if 'result' in r:
                with open(a.out, 'a') as fh:
                    fh.write(json.dumps(r) + '\n')
    shutil.rmtree(D, ignore_errors=True)


main()
