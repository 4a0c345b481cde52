SEEDS = {}
def seed(i, prop, edits, demo, needs, breaks):
    SEEDS[i] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

seed('k08-boundary-dup', 'K08', [('kolombos/byteio/reader.py', "                self._offset += len(raw_input)\n                raw_input = b''\n", "                self._offset += len(raw_input)\n")], r"""
out = plain(run(b'abcdefghijkl', '-f4', '-B8', '--no-line-numbers')[1])
expect(out.strip() == 'abcdefgh', 'first eight bytes: ' + out)
out = plain(run(b'abcdefghijkl', '-f4', '-B7', '--no-line-numbers')[1])
expect(out.strip() == 'abcdefg', 'first seven bytes: ' + out)
""", 'a byte limit which is reached exactly at the end of a read', 'the last chunk is shown twice')

seed('k02-decode-pad', 'K02', [('kolombos/byteio/template/template_utf8.py', """                if len(decoded) < len(raw):
                    decoded = decoded.rjust(len(raw), self.DECODED_LEFT_FILL_CHAR)
                elif len(decoded) > len(raw):
                    decoded = decoded[:len(raw)]
""", """                if len(decoded) < len(raw):
                    decoded = self.DECODED_LEFT_FILL_CHAR * (len(raw) - 1) + decoded
                elif len(decoded) > len(raw):
                    decoded = decoded[:len(raw)]
                decoded = decoded.lstrip()
""")], r"""
for data in ('a\u3000bc\u00a0', '\u00a0\u2003x'):
    raw = data.encode()
    code, out, err = run(raw, '-bd', '-w16')
    expect(code == 0, f'exit code {code}: {err}')
    row = plain(out).splitlines()[0].split('│')
    expect(len(row[2]) == len(raw), f'character column: {row}')
expect(plain(run('\u3000'.encode(), '-bd', '-w16')[1]).splitlines()[0].endswith('│__\u3000'), 'ideographic space')
""", 'nothing but an ordinary multibyte character: replaced below', 'never used')
del SEEDS['k02-decode-pad']

seed('k02-decode-wide', 'K02', [('kolombos/byteio/template/template_utf8.py', """            decoded = raw.decode('utf8', errors='replace')
            if self._read_mode.is_binary:
""", """            decoded = raw.decode('utf8', errors='replace')
            if not decoded.isprintable():
                return decoded if self._read_mode.is_text else '▯'.rjust(len(decoded) + 1, self.DECODED_LEFT_FILL_CHAR)
            if self._read_mode.is_binary:
""")], r"""
for data in ('a\u00a0b', 'a\u2028bc', '\u3000', 'x\ue000y', '\U000e0001'):
    raw = data.encode()
    code, out, err = run(raw, '-bd', '-w16')
    expect(code == 0, f'exit code {code}: {err}')
    row = plain(out).split('\n')[0].split('│')
    expect(len(row[-1]) == len(raw), f'character column of {data!r}: {row}')
""", 'decoding in binary mode of a non-printable character that takes three or four bytes', 'the character column is shorter than the number of bytes')

seed('k05-bom', 'K05', [('kolombos/byteio/template/template_utf8.py', "raw.decode('utf8', errors='replace')", "raw.decode('utf-8-sig', errors='replace')")], r"""
out = plain(run(b'\xef\xbb\xbfab', '--no-line-numbers')[1])
expect(out.strip('\n') == '\ufeffab', 'byte order mark is a character: ' + repr(out))
out = plain(run('a\u20acb'.encode(), '--no-line-numbers')[1])
expect(out.strip('\n') == 'a€b', 'text: ' + repr(out))
""", 'a byte order mark (ef bb bf)', 'the character disappears from the output')

seed('k10-debug-del', 'K10', [('kolombos/byteio/const.py', "PRINTABLE_CHARCODES = list(range(0x21, 0x7f))", "PRINTABLE_CHARCODES = list(range(0x21, 0x80))")], r"""
for lvl in ('-D', '-DD', '-DDD'):
    for mode in ('-t', '-b'):
        out = run(b'a\x7fb\x80\n', mode, lvl)[1]
        bad = [c for c in plain(out) if ord(c) < 32 and c != '\n' or 0x7f <= ord(c) < 0xa0]
        expect(not bad, f'control characters in the output {mode} {lvl}: {bad}')
""", 'debug mode and DEL in the input', 'the DEL character reaches the terminal in debug output')

seed('k18-preview-rotate', 'K18', [('kolombos/byteio/segment/buffer.py', """        for idx, el in enumerate(self._segment_chain):
            if idx >= max_input_len:
                max_input_exceeded = True

            if isinstance(el, Segment):
""", """        for idx in range(len(self._segment_chain)):
            el = self._segment_chain[0]
            if idx >= max_input_len:
                max_input_exceeded = True
                if SettingsManager.app_settings.debug_buffer_contents:
                    break
            self._segment_chain.rotate(-1)

            if isinstance(el, Segment):
""")], r"""
data = b'a b\tc d e f\n' + b'x\x01y\x02z\n'
ref = plain(run(data, '-b', '-w16')[1]).splitlines()
def rows(out):
    return [l for l in plain(out).splitlines() if l.startswith('  0x') and '\u2502' in l]
for lvl in ('-D', '-DD', '-DDD', '-DDDD'):
    code, out, err = run(data, '-b', '-w16', lvl)
    expect(code == 0, err)
    for r in ref:
        expect(r in plain(out).splitlines(), f'{lvl}: row is missing: {r}')
""", 'debug level 3 and more than five elements in the queue', 'the order of the bytes changes')

seed('k19-int-base', 'K19', [('kolombos/arghelp.py', "generic_group.add_argument('-L', '--max-lines', metavar='<num>', action='store', type=int, default=0", "generic_group.add_argument('-L', '--max-lines', metavar='<num>', action='store', type=lambda s: int(s, 0), default=0")], r"""
data = b'a\nb\nc\n' * 5
ref = run(data, '-L3')
for a in (['-L', '3'], ['--max-lines=3'], ['--max-lines', '03'], ['-L003']):
    expect(run(data, *a)[:2] == ref[:2], f'{a} is not the same as -L3')
expect(run(data, '-L0x3')[0] == 2, '-L0x3 is not a number')
""", 'a number written with leading zeros', 'the program refuses it')

seed('k19-file-prefix', 'K19', [('kolombos/arghelp.py', "            add_help=False,\n", "            add_help=False,\n            fromfile_prefix_chars='@',\n")], r"""
import tempfile
cwd = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    os.environ['PYTHONPATH'] = cwd
    for n in ('x.bin', '@x.bin', '+x', 'a@b'):
        with open(n, 'wb') as f:
            f.write(b'abc\n')
        code, out, err = run(b'', n)
        expect(code == 0 and 'abc' in out, f'file {n} is not read: {err}')
    os.chdir(cwd)
""", 'a file whose name starts with "@"', 'the file is taken for a list of arguments')

seed('k20-text-override', 'K20', [('kolombos/runner/demo.py', "            aps.set_default_read_mode(ReadMode.BINARY)\n", "            aps.binary = True\n")], r"""
demo = open('kolombos/demo.bin', 'rb').read()
hint = "Run the app with"
for opts in (['-t'], ['-t', '-w8'], ['-b', '-w8'], ['-w8'], ['-t', '-d'], ['-b', '-dw0']):
    code, out, err = run(b'', '--demo', *opts)
    o = list(opts) if opts[0] in ('-t', '-b') else ['-b'] + opts
    if '-b' in o:
        o.append('-d')
    ref = run(b'', *o, 'kolombos/demo.bin')[1]
    out = plain(out)
    expect(code == 0 and out[:out.index(hint)].rstrip('\n') == plain(ref).rstrip('\n'), f'--demo {opts}')
""", 'demo mode together with the text mode', 'the text mode is overridden')

seed('k20-columns-zero', 'K20', [('kolombos/runner/demo.py', "            if aps.columns is None:\n", "            if not aps.columns:\n")], r"""
hint = "Run the app with"
for w in ('0', '5', '16'):
    code, out, err = run(b'', '--demo', '-w', w, width=150)
    ref = run(b'', '-bd', '-w', w, 'kolombos/demo.bin', width=150)[1]
    out = plain(out)
    expect(code == 0 and out[:out.index(hint)].rstrip('\n') == plain(ref).rstrip('\n'), f'--demo -w{w}')
""", 'demo mode with automatic columns requested by -w0 on a terminal that fits another amount than 16', 'the requested amount of columns is ignored')

seed('p04-grey-eps', 'P04', [('pytermor/color.py', "        if c == 0:\n            h = 0\n", "        if c < 0.005:\n            h = 0\n")], r"""
from pytermor.color import Color
import colorsys
for v in (0x808180, 0x808081, 0x010000, 0xfefffe, 0xfffeff, 0x123456, 0x777777):
    r, g, b = (v >> 16) / 255, (v >> 8 & 255) / 255, (v & 255) / 255
    h, s, x = Color.hex_value_to_hsv_channels(v)
    H, S, X = colorsys.rgb_to_hsv(r, g, b)
    expect(abs(h / 360 - H) < 1e-6 and abs(s - S) < 1e-6 and abs(x - X) < 1e-6, f'{v:06x}: {h} {s} {x}')
""", 'a color whose channels differ by one level', 'its hue is zero')

seed('p14-sgr-greedy', 'P14', [('pytermor/util/string_filter.py', "SGR_REGEXP = re.compile(r'(\\x1b)(\\[)(([0-9;])*)(m)')", "SGR_REGEXP = re.compile(r'(\\x1b)(\\[)(([0-9;])*?)(m)', re.IGNORECASE)")], r"""
from pytermor.util import ReplaceSGR, apply_filters
expect(ReplaceSGR().apply('a\x1b[1;31mb\x1b[0mc') == 'abc', 'SGRs are removed')
expect(ReplaceSGR().apply('a\x1b[2Mb\x1b[M') == 'a\x1b[2Mb\x1b[M', 'other CSI sequences are kept')
""", 'a CSI M (delete lines) sequence', 'it is taken for an SGR')

seed('p14-filter-order', 'P14', [('pytermor/util/string_filter.py', "    filters = map(lambda t: t() if isinstance(t, type) else t, args)\n    return reduce(lambda s_, f: f.apply(s_), filters, s)", "    filters = [t for t in args if not isinstance(t, type)]\n    filters += [t() for t in args if isinstance(t, type)]\n    return reduce(lambda s_, f: f.apply(s_), filters, s)")], r"""
from pytermor.util import apply_filters, StringFilter, ReplaceSGR, VisualuzeWhitespace
expect(apply_filters('a b', VisualuzeWhitespace, StringFilter('·', '.')) == 'a.b', 'class first')
expect(apply_filters('a b', StringFilter('a', ' '), VisualuzeWhitespace) == '··b', 'instance first')
expect(apply_filters('a b', ReplaceSGR, VisualuzeWhitespace()) == 'a·b', 'independent')
""", 'a filter class followed by a filter instance that acts on its result', 'filters are applied in another order')

seed('p15-autopick-grey', 'P15', [('pytermor/render.py', "OLD", "NEW")], r"""
""", '', '')
del SEEDS['p15-autopick-grey']

seed('p15-casefold', 'P15', [('pytermor/common.py', "        name_norm = name.upper()\n", "        name_norm = name.upper().strip('_')\n")], r"""
from pytermor import IntCodes, Seqs, Colors
for reg in (IntCodes, Seqs, Colors):
    for n in ('red', 'Hi_Red', 'BG_white' if reg is not Colors else 'white'):
        expect(reg.resolve(n) is getattr(reg, n.upper()), n)
for reg in (IntCodes, Seqs, Colors):
    for n in ('_red', 'red_', '__red'):
        try:
            v = reg.resolve(n)
        except KeyError:
            continue
        expect(False, f'{n} resolved in {reg.__name__} to {v!r}')
""", 'an unknown name that differs from a known one by underscores at its ends', 'another preset is returned instead of KeyError')

seed('p16-mcoef-threshold', 'P16', [('pytermor/util/prefixed_unit.py', "            elif abs(value) >= self._mcoef:\n", "            elif abs(value) >= self._mcoef and (abs(value) > self._mcoef or unit_idx != self._prefix_zero_idx):\n")], r"""
from pytermor.util import PrefixedUnitFormatter
f = PrefixedUnitFormatter(5, unit='B', prefixes=[None, 'K', 'M'], prefix_zero_idx=0, mcoef=1024.0)
expect(f.format(1024).endswith('KB') and f.format(1024)[0] == '1', f.format(1024))
expect(f.format(1025).endswith('KB'), f.format(1025))
expect(f.format(1023).endswith('3B'), f.format(1023))
expect(f.format(1024 * 1024).endswith('MB'), f.format(1024 * 1024))
""", 'a value equal to the coefficient', 'the prefix does not change')

seed('p13-plural-zero', 'P13', [('pytermor/util/time_delta.py', "            elif unit.collapsible_after is not None and num < unit.collapsible_after:\n", "            elif unit.collapsible_after is not None and num <= unit.collapsible_after:\n")], r"""
from pytermor.util.time_delta import TimeDeltaFormatter, TimeUnit
f = TimeDeltaFormatter([TimeUnit('sec', 60), TimeUnit('min', 60), TimeUnit('hour', 24, collapsible_after=10), TimeUnit('day', overflow_afer=99)], False, unit_separator=' ')
for h in range(1, 24):
    for m in (0, 7, 59):
        r = f.format(h * 3600 + m * 60 + 30)
        expect(len(r) <= f.max_len, f'{r!r} is longer than {f.max_len}')
        expect(r == (f'{h}h {m}m' if h < 10 else f'{h} hour'), r)
""", 'a value of exactly the amount after which two units should not be combined', 'two units are shown, the result is longer than declared')

seed('k01-split-binary', 'K01', [('kolombos/byteio/segment/segment.py', """        left = Segment(self._opening_seq, self._type_label, self._raw[:num_bytes], self._processed[:num_bytes])
""", """        left = Segment(self._opening_seq, self._type_label, self._raw[:num_bytes], self._processed[:num_bytes])
        if self._type_label == TYPE_LABEL_MAP[CharClass.UTF_8_SEQ]:
            num_bytes = max(num_bytes, 1)
            self._raw, self._processed = self._raw[num_bytes:], self._processed[num_bytes:]
            self._raw = self._raw or left._raw[-1:]
            return left
""")], '', '', '')
del SEEDS['k01-split-binary']

seed('k02-limit-rows', 'K01', [('kolombos/byteio/formatter/binary.py', "            req_bytes = min(self._segment_buffer.data_len, cur_cols)\n", "            req_bytes = min(self._segment_buffer.data_len % cur_cols or cur_cols, cur_cols)\n")], r"""
for n in (1, 5, 16, 17, 33, 40):
    out = plain(run(bytes(97 + i % 26 for i in range(n + 5)), '-b', '-w16', '--no-offsets', f'-B{n}')[1])
    rows = [l for l in out.splitlines() if l]
    expect([len(r.split()[-1]) for r in rows] == [16] * (n // 16) + ([n % 16] if n % 16 else []), f'{n} bytes: {rows}')
""", '', '')
SEEDS['k02-limit-rows'].update(prop='K02', needs='a byte limit inside the last read, with more than one row before it', breaks='rows are shorter than the requested amount of columns')

seed('k01-swap-detach', 'K01', [('kolombos/byteio/formatter/binary.py', """            except WaitRequest:
                break
            except EOFError:
                break

            data_len""", """            except WaitRequest:
                break
            except EOFError:
                break
            if not self._parser_buffer.closed and self._segment_buffer.data_len == 0 and self._offset % 0x10000 == 0 and self._offset:
                continue

            data_len""")], r"""
data = bytes(97 + i % 26 for i in range(65536 + 4096))
out = plain(run(data, '-b', '-w4096', '--no-offsets')[1])
expect(''.join(l.split()[-1] for l in out.splitlines() if l).encode() == data, 'characters are lost')
""", 'a row that starts at 64 KiB and ends together with the data read so far', 'the row is not shown')
del SEEDS['k01-swap-detach']

seed('k01-squeeze', 'K01', [('kolombos/byteio/parser/buffer.py', """        if len(new_buffer) == 0:
            self._raw_buffer = b''
""", """        if len(new_buffer) == 0 or new_buffer == self._raw_buffer[:1]:
            self._raw_buffer = b''
""")], r"""
data = b'abcd\x1b[1mef' * 3
ref = run(data, '-b', '-w16')[1]
for f in range(1, 12):
    expect(plain(run(data, '-b', '-w16', f'-f{f}')[1]) == plain(ref), f'buffer of {f} bytes')
for data in (b'\xc3\xa9' * 10, b'\x1b' * 9, b'ab\x1b\x1b[1m'):
    for f in (1, 2, 3, 4):
        out = plain(run(data, '-b', '-w32', '--no-offsets', f'-f{f}')[1]).splitlines()[0]
        expect(bytes.fromhex(''.join(re.findall(r'(?<= )[0-9a-f]{2}(?= )', out))) == data, f'{data} with buffer of {f}: {out}')
""", 'a read that consists of ESC (or UTF-8 lead) bytes only', 'bytes are lost')
