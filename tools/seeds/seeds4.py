SEEDS = {}
def seed(i, prop, edits, demo, needs, breaks):
    SEEDS[i] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

SGR = 'kolombos/byteio/template/template_escape_sgr.py'
LOOK = r"""
def look(s):
    # list of (character, sorted set of active parameters) as a terminal sees it
    out, st = [], {}
    for m in re.finditer('\x1b\\[([0-9;]*)m|(.)', s, re.S):
        if m.group(2) is not None:
            out.append((m.group(2), dict(st)))
            continue
        p = [int(x or 0) for x in m.group(1).split(';')]
        while p:
            c = p.pop(0)
            if c in (38, 48):
                k = p.pop(0)
                v = (k, *[p.pop(0) for _ in range(1 if k == 5 else 3)])
                st['fg' if c == 38 else 'bg'] = v
            elif c == 0: st.clear()
            elif 30 <= c <= 37 or 90 <= c <= 97: st['fg'] = c
            elif 40 <= c <= 47 or 100 <= c <= 107: st['bg'] = c
            elif c == 39: st.pop('fg', 0)
            elif c == 49: st.pop('bg', 0)
            elif c == 22: st.pop(1, 0); st.pop(2, 0)
            elif c == 55: st.pop(53, 0)
            elif 23 <= c <= 29: st.pop(c - 20, 0)
            else: st[c] = 1
    return out
"""

seed('k21-overlined', 'K21', [(SGR, "        IntCodes.OVERLINED, IntCodes.CROSSLINED,\n", "        IntCodes.DOUBLE_UNDERLINED, IntCodes.CROSSLINED,\n")], LOOK + r"""
for p, k in (('53', 53), ('9', 9), ('3', 3), ('2', 2)):
    l = look(run(f'\x1b[{p}m'.encode(), '-t', '--color-markers', '--no-line-numbers')[1])
    expect(l[0][0] == 'ǝ' and l[0][1] == {k: 1}, f'marker of SGR {p}: {l[0]}')
l = look(run(b'\x1b[21m', '-t', '--color-markers', '--no-line-numbers')[1])
expect(l[0][1] == {}, f'marker of SGR 21 is not underlined: {l[0]}')
""", 'colored markers and an overlined (53) SGR sequence', 'the marker does not have the attribute of the sequence')

seed('k21-dot', 'K21', [(SGR, "f'{Seqs.UNDERLINED_OFF}{self.M1_SEPARATOR}{Seqs.UNDERLINED}'.join(", "f'{Seqs.UNDERLINED_OFF}{self.M1_SEPARATOR}{Seqs.UNDERLINED * 0}'.join(")], '', '', '')
del SEEDS['k21-dot']
seed('k21-dot', 'K21', [(SGR, "        self._brief_details_processed = f'{Seqs.UNDERLINED_OFF}{self.M1_SEPARATOR}{Seqs.UNDERLINED}'.join(str(bn) for bn in brief_names)\n",
"        head, tail = brief_names[:2], brief_names[2:]\n        dot = f'{Seqs.UNDERLINED_OFF}{self.M1_SEPARATOR}'\n        self._brief_details_processed = ''.join([\n            f'{dot}{Seqs.UNDERLINED}'.join(str(bn) for bn in head),\n            *[f'{dot}{bn}' for bn in tail],\n        ])\n")], LOOK + r"""
for p in ('1', '1;3', '1;3;7', '1;3;7;38;5;9'):
    l = look(run(f'a\x1b[{p}mb'.encode(), '-t', '-m1', '--no-line-numbers')[1])
    for c, st in l:
        if c.isdigit() or c == 'F':
            expect(st.get(4) == 1, f'parameters are underlined: {p}: {l}')
        elif c == '･':
            expect(4 not in st, 'dots are not underlined')
""", 'brief details of an SGR sequence with three or more parameters', 'the third parameter is not underlined')

seed('k21-row-reopen', 'K21', [('kolombos/byteio/segment/buffer.py', "        output.extend([OneUseSequenceRef(sgr) for sgr in self._active_sgrs])\n", "        output.extend([OneUseSequenceRef(sgr) for sgr in self._active_sgrs if self.data_len > req_bytes])\n")], LOOK + r"""
for n in (5, 8, 9, 12):
    rows = run(b'\x01' * n, '-b', '-w4', '--no-offsets')[1].splitlines()
    for r in rows[:-1]:
        for c, st in look(r):
            expect(c == ' ' or st.get('fg') == 31, f'{n} bytes: {c} has {st} in {r!r}')
""", 'a run of one class of bytes that continues on the last row of the binary dump', 'the last row loses its colors')

seed('k21-details-focus', 'K21', [('kolombos/byteio/template/template_control.py', "        return self._opening_seq_stack.get() + self.DETAILS_OPENING_SEQ\n", "        return self._opening_seq_stack.get(self._display_mode) + self.DETAILS_OPENING_SEQ\n")], LOOK + r"""
for m in ('-m1', '-m2'):
    for f in ([], ['--focus-control']):
        l = look(run(b'\x01\x1f', '-t', m, *f, '--no-line-numbers')[1])
        n = 2 if m == '-m1' else 3
        for i, (c, st) in enumerate(l[:2 * n]):
            if i % n:
                expect(st == {'fg': 31, 'bg': (5, 16), 4: 1}, f'details {m} {f}: {c} {st}')
            else:
                expect(st == ({'fg': 31, 7: 1} if f else {'fg': 31}), f'marker {m} {f}: {c} {st}')
""", 'focused control characters shown with details', 'the details are inversed as the marker')

seed('k21-nf-color', 'K21', [('kolombos/byteio/partial_override.py', "            for key in keys:\n                if key in self._override.keys():\n                    return self._override[key]\n        return self._default\n", "            for key, value in self._override.items():\n                if key in keys or not keys and len(self._override) > 2:\n                    return value\n        return self._default\n")], '', '', '')
del SEEDS['k21-nf-color']

seed('k21-mixed-run', 'K21', [('kolombos/byteio/parser/parser.py', "            23: self._template_registry.CONTROL_CHAR_NULL,\n", "            23: self._resolve_nulls,\n"),
 ('kolombos/byteio/parser/parser.py', "    def _resolve_escape_seq_csi(self, m: Match) -> Template:", "    def _resolve_nulls(self, m: Match) -> Template:\n        tpl = self._template_registry.CONTROL_CHAR_NULL\n        if len(m.group()) > 3:  # padding\n            tpl._opening_seq_stack._default = Seqs.RED\n        return tpl\n\n    def _resolve_escape_seq_csi(self, m: Match) -> Template:")], LOOK + r"""
for data in (b'\0', b'\0\0\0', b'\0' * 4, b'\0' * 9 + b'a\0'):
    for mode in ('-t', '-b'):
        l = look(run(data, mode, '-w16', '--no-offsets', '--no-line-numbers')[1] if mode == '-b' else run(data, mode, '--no-line-numbers')[1])
        z = [st for c, st in l if c == 'Ø']
        expect(len(z) == data.count(b'\0') and all(st == {'fg': 91} for st in z), f'{data!r} {mode}: {z}')
""", 'four or more NUL bytes in a row', 'NULs are drawn in the color of ordinary control characters from there on')

seed('p07-frac-trunc', 'P07', [('pytermor/util/prefixed_unit.py', "is_frac_dropped = self._truncate_frac and unit_idx == self._prefix_zero_idx", "is_frac_dropped = self._truncate_frac and unit_idx >= self._prefix_zero_idx")], r"""
from pytermor.util.prefixed_unit import format_si_binary
""", '', '')
del SEEDS['p07-frac-trunc']

seed('p08-carry', 'P08', [('pytermor/util/time_delta.py', "", "")], '', '', '')
del SEEDS['p08-carry']

STREAM = r"""
class Src(io.RawIOBase):
    # hands out portions; remembers what had been printed when each was requested
    def __init__(self, parts):
        self.parts, self.log, self.out = list(parts), [], None
    def read(self, n=-1):
        self.log.append((n, plain(self.out.getvalue())))
        return self.parts.pop(0) if self.parts else b''

def stream(parts, *args):
    from kolombos.app import App
    src, out = Src(parts), io.StringIO()
    src.out = out
    so, si, av = sys.stdout, sys.stdin, sys.argv
    sys.stdout, sys.argv = out, ['kolombos', *args]
    sys.stdin = type('I', (), {'buffer': src})()
    try:
        App().run()
    except SystemExit:
        pass
    finally:
        sys.stdout, sys.stdin, sys.argv = so, si, av
    return src.log
"""
seed('k22-extra-read', 'K22', [('kolombos/byteio/reader.py', "                if (max_bytes and self._offset >= max_bytes) or \\\n", "                if (max_bytes and self._offset > max_bytes) or \\\n")], STREAM + r"""
log = stream([b'ab\n', b'cd\n', b'ef\n'], '-t', '-f3', '-B6')
expect(len(log) == 2, f'two portions are enough: {log}')
log = stream([b'ab\n', b'cd\n', b'ef\n'], '-t', '-f3', '-L2')
expect(len(log) == 2, f'two portions are enough: {log}')
""", 'a byte limit which is reached exactly at the end of a read', 'one more portion is requested (blocks on a terminal or pipe)')

seed('k22-row-late', 'K22', [('kolombos/byteio/segment/buffer.py', "        if self.data_len >= req_bytes or force:\n", "        if self.data_len > req_bytes or force:\n")], STREAM + r"""
log = stream([b'abcd', b'efgh', b'xyz', b't'], '-b', '-w4', '--no-offsets')
expect([x[1].count('\n') for x in log] == [0, 1, 2, 2, 3], f'rows printed before each read: {log}')
""", 'data that end exactly with a row when the next portion is requested', 'a complete row is not printed until more data arrive')

seed('k22-debug-size', 'K22', [('kolombos/byteio/reader.py', "        if SettingsManager.app_settings.debug > 0:\n", "        if SettingsManager.app_settings.debug > 1:\n")], STREAM + r"""
for d, n in (('-t', 4096), ('-D', 128), ('-DD', 128), ('-DDDD', 128)):
    log = stream([b'ab\n'], '-t', d)
    expect(log[0][0] == n, f'size of the first portion with {d}: {log[0][0]}')
""", 'debug level 1', 'the buffer is not reduced to 128 bytes')

seed('k22-line-late', 'K22', [('kolombos/byteio/formatter/text.py', "                force = self._parser_buffer.closed\n", "                force = self._parser_buffer.closed\n                if not force and self._segment_buffer.data_len == len(self._parser_buffer.get_raw()) + 1:\n                    break\n")], STREAM + r"""
log = stream([b'a', b'\n', b'b\n', b'\n', b'\n'], '-t')
expect([x[1].count('\n') for x in log] == [0, 0, 1, 2, 3, 4], f'lines printed before each read: {log}')
""", 'an empty line that is received alone', 'the line is not printed before something else follows')
