SEEDS = {}
def seed(i, prop, edits, demo, needs, breaks):
    SEEDS[i] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

seed('k08-lines-per-chunk', 'K08', [('kolombos/byteio/reader.py', """                    for line_break in re.finditer(b'\\x0a', raw_input):
                        lines += 1
                        if lines >= max_lines:
                            raw_input = raw_input[:line_break.end()-1]
""", """                    line_breaks = [lb.end() for lb in re.finditer(b'\\x0a', raw_input)]
                    lines += len(line_breaks)
                    if lines >= max_lines:
                        for line_break in line_breaks[max_lines-1:max_lines]:
                            raw_input = raw_input[:line_break-1]
""")], r"""
data = b'ab\ncd\nef\ngh\nij\n'
ref = run(data, '-L3', '-f64')
expect(ref[0] == 0, 'exit code')
for f in (1, 2, 4, 5, 7):
    expect(plain(run(data, '-L3', f'-f{f}')[1]) == plain(ref[1]), f'line limit with read buffer of {f} bytes')
""", 'a line limit, with the newlines counted spread over several reads', 'the limit is applied to the lines of the last chunk instead of all lines read so far')

seed('k06-linenum-wrap', 'K06', [('kolombos/console.py', "fmt_(f'{line_num:2d}')", "fmt_(f'{line_num:2d}'[-2:])")], r"""
out = plain(run(b'x\n' * 130)[1]).splitlines()
expect([int(l.split('│')[0]) for l in out if l] == list(range(1, 131)), 'line numbers')
""", 'an input of 100 lines or more', 'line numbers over 99 lose their first digit')

seed('k16-chunk-width', 'K16', [('kolombos/byteio/formatter/binary.py', """                    (self.BYTE_CHUNK_LEN - 1) + \\
                    len(self.PADDING_HEX_CHUNK)
""", """                    (self.BYTE_CHUNK_LEN - 1)
""")], r"""
for w in range(28, 160):
    for l in plain(run(bytes(range(65, 91)) * 4, '-b', width=w)[1]).splitlines() if w % 3 else []:
        expect(len(l) <= w, f'row of {len(l)} characters on a terminal {w} characters wide')
""", 'automatic columns on particular terminal widths', 'rows are longer than the terminal line')

seed('k04-nf-final-digit', 'K04', [('kolombos/byteio/parser/parser.py', "([\\x20-\\x2f]*)([\\x30-\\x7e]))|'          # [ 8| 9-12] nF", "([\\x20-\\x2f]*)([\\x40-\\x7e]))|'          # [ 8| 9-12] nF")], r"""
out = plain(run(b'a\x1b(0b', '-m2', '--no-line-numbers')[1])
expect(out.strip() == 'a⢸ꟻ(0⡇b', 'nF sequence with a private final byte: ' + out)
""", 'an nF escape sequence whose final byte is 30-3f, e.g. ESC ( 0', 'the sequence is not recognised')

seed('k04-surrogates', 'K04', [('kolombos/byteio/parser/parser.py', "b'[\\xe1-\\xec\\xee\\xef][\\x80-\\xbf]{2}|'  # - straight 3-byte\n                b'\\xed[\\x80-\\x9f][\\x80-\\xbf]|'         # - excluding surrogates\n", "b'[\\xe1-\\xef][\\x80-\\xbf]{2}|'          # - straight 3-byte\n")], r"""
out = plain(run(b'\xed\xa0\x80', '--no-line-numbers')[1])
expect(out.strip() == 'Ḇ' * 3, 'an encoded surrogate is binary data: ' + out)
out = plain(run('\ud7ff\ue000'.encode(), '--no-line-numbers')[1])
expect(out.strip() == '\ud7ff\ue000', 'characters next to surrogates')
""", 'an encoded UTF-16 surrogate (ed a0-bf xx)', 'three binary bytes are taken for a UTF-8 sequence')

seed('k12-label-priority', 'K12', [('kolombos/byteio/template/template.py', "return self._label_stack.get(self._display_mode, self._read_mode)", "return self._label_stack.get(self._read_mode, self._display_mode)")], r"""
out = plain(run(b'a\tb c', '-S', '--no-line-numbers')[1])
expect(out.strip() == 'a×b×c', 'ignored tab: ' + out)
out = plain(run(b'a\xff\xc3\xa9b', '-b', '-w4', '-UI', '--no-offsets')[1])
expect(out.splitlines()[0].endswith('a×××'), 'ignored binary data: ' + out)
""", 'an ignored class with a character that has a marker of its own for the current mode (tab in text mode, UTF-8 or binary data in binary mode)', 'ignored characters are shown by their regular marker')

seed('k13-focused-tab', 'K13', [('kolombos/byteio/template/registry.py', "LabelPOV('⇥', {ReadMode.TEXT: '⇥\\t'})", "LabelPOV('⇥', {ReadMode.TEXT: '⇥\\t', DisplayMode.FOCUSED: '⇥'})")], r"""
data = b'a\tb\n'
expect(plain(run(data, '-s')[1]) == plain(run(data)[1]), 'focusing changes the text')
expect('⇥\t' in plain(run(data)[1]), 'tab marker')
""", 'text mode with focused whitespace and a tab', 'the tab after the marker disappears')

seed('k14-rgb-hex-pad', 'K14', [('kolombos/byteio/template/template_escape_sgr.py', "+ pcodes_allowed[-1]:06X}'", "+ pcodes_allowed[-1]:>6X}'")], r"""
out = plain(run(b'\x1b[38;2;1;2;3mx', '-m1', '--no-line-numbers')[1])
expect(out.strip() == '⢸ǝF010203⡇x', 'RGB details: ' + out)
""", 'marker details 1 and an RGB color with red below 16', 'hex color loses its leading zeros')

seed('k11-reserved-only', 'K11', [('kolombos/byteio/template/template_escape_sgr.py', "            elif pcode in self.ALLOWED_SGRS_FOR_MARKER_FORMAT:\n", "            elif pcode not in (IntCodes.BOLD, IntCodes.UNDERLINED, IntCodes.INVERSED):\n")], r"""
import itertools
rc, out, err = run(b'\x1b[3;20ma\n', '--color-markers', '-m1')
body = out
on = set()
for m in re.finditer('\x1b\\[([0-9;]*)m|\n', body):
    if m.group() == '\n':
        expect(not on & {20}, 'style left on at the end of the line')
        continue
    for p in (m.group(1) or '0').split(';'):
        if p in ('', '0'):
            on.clear()
        elif p == '20':
            on.add(20)
        elif p == '23':
            on.discard(20)
rc, out, err = run(b'\x1b[51mab', '-b', '-w4', '--color-markers')
expect(not re.search('\x1b\\[51', out), 'attribute that is never switched off is switched on')
""", '--color-markers and a sequence with an attribute the program does not know how to switch off (e.g. 51)', 'the attribute stays on after the marker')

seed('k09-caret-map', 'K09', [('kolombos/byteio/template/template_control.py', """            0x01: 'A', 0x02: 'B', 0x03: 'C',  0x04: 'D', 0x05: 'E', 0x06: 'F',
            0x07: 'G', 0x0e: 'N', 0x0f: 'O',  0x10: 'P', 0x11: 'Q', 0x12: 'R',
            0x13: 'S', 0x14: 'T', 0x15: 'U',  0x16: 'V', 0x17: 'W', 0x18: 'X',
            0x19: 'Y', 0x1a: 'Z', 0x1c: '\\\\', 0x1d: ']', 0x1e: '^', 0x1f: '_',
        }
""", """            b: chr(b + 0x40) for b in [*range(0x01, 0x08), *range(0x0e, 0x1b), *range(0x1d, 0x20)]
        }
""")], r"""
rc, out, err = run(b'a\x1cb', '-m1', '--no-line-numbers')
expect(rc == 0 and plain(out).strip() == 'aⱯ\\b', f'FS character with details: {rc} {out} {err}')
""", 'byte 1c (FS) in text mode with marker details 1', 'the program fails with KeyError')

seed('k03-odd-digits', 'K03', [('kolombos/console.py', "offset_str = f'0x{offset:0{max(4,ceil(len(str(offset))/2)*2)}x}'", "digits = len(f'{offset:x}')\n            offset_str = f'0x{offset:0{max(4, round(digits / 2) * 2)}x}'")], r"""
out = plain(run(b'x' * 70000, '-b', '-w', '4096')[1]).splitlines()
tot = [l for l in out if l][-1].split('│')[0].strip()
expect(tot == '0x011170', 'total size ' + tot)
""", 'an offset with five hex digits (64 KB and more)', 'an odd number of hex digits is printed')

seed('k17-ioerror-swallowed', 'K17', [('kolombos/byteio/reader.py', "        except KeyboardInterrupt:\n", "        except (KeyboardInterrupt, IOError):\n")], r"""
import kolombos
from kolombos.app import App


class Broken(io.RawIOBase):
    def __init__(self):
        super().__init__()
        self.n = 0
    def read(self, n=-1):
        self.n += 1
        if self.n > 2:
            raise OSError(5, 'Input/output error')
        return b'abcd\n'
    def tell(self):
        return 0


class In:
    buffer = Broken()


sys.argv = ['kolombos', '-t']
sys.stdin, out, err = In(), sys.stdout, sys.stderr
sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
try:
    App().run()
except SystemExit as e:
    rc = e.code
o, e = sys.stdout.getvalue(), sys.stderr.getvalue()
sys.stdout, sys.stderr = out, err
expect(rc == 1 and 'Input/output error' in e, f'read error is reported: {rc} {e!r}')
""", 'an I/O error while reading the input', 'the error is swallowed and the program exits with 0')

seed('k17-dash-tell', 'K17', [('kolombos/byteio/reader.py', 'self._io.tell() if not self.reading_stdin else "n/a"', 'self._io.tell() if self._filename else "n/a"')], r"""
rc, out, err = run(b'abc\n', '-')
expect(rc == 0 and 'abc' in plain(out), f'reading standard input with "-": {rc} {err}')
""", 'the file name "-" with standard input that is a pipe', 'the program fails on tell() of a pipe')

seed('k15-merge-styles', 'K15', [('kolombos/byteio/segment/buffer.py', """            self._segment_chain.extend([
                StartSequenceRef(f.opening_seq),
""", """            if len(self._segment_chain) > 1 and self._segment_chain[-2] == StopSequenceRef(f.opening_seq):
                # same style as the previous one has, no need to close and open it again
                tail = [self._segment_chain.pop(), self._segment_chain.pop()]
                self._segment_chain.extend([segment, *reversed(tail)])
                continue

            self._segment_chain.extend([
                StartSequenceRef(f.opening_seq),
""")], r"""
from kolombos.byteio.segment import Segment, SegmentPrinter
from kolombos.byteio.segment.buffer import SegmentBuffer
from kolombos.settings import SettingsManager
from pytermor import Seqs
SettingsManager.init()
b = SegmentBuffer()
b.attach(Segment(Seqs.RED, '', b'ab', 'ab'))
b.attach(Segment(Seqs.BG_BLUE, '', b'cd', 'cd'))
r = b.detach_bytes(4, True, [SegmentPrinter(True, False, lambda s: s.processed)])[0]
expect(r == '\x1b[31mab\x1b[39m\x1b[44mcd\x1b[49m', repr(r))
""", 'two styled segments attached one after another (references of different sequences compare equal)', 'the second segment is output in the style of the first one')

seed('k07-long-lines', 'K07', [('kolombos/byteio/segment/buffer.py', """            if el.is_newline:
                has_newline = True
                break
""", """            if el.is_newline or avail_bytes >= self.MAX_LINE_LEN:
                has_newline = True
                break
"""), ('kolombos/byteio/segment/buffer.py', """class SegmentBuffer:
""", """class SegmentBuffer:
    MAX_LINE_LEN = 256

""")], r"""
data = b'abc ' * 120 + b'\nx\n'
a, b = run(data, '-f600'), run(data, '-f50')
expect(plain(a[1]) == plain(b[1]), 'output depends on the buffer size')
expect(plain(a[1]).count('│') == 2, 'long lines are split')
""", 'a line of 256 bytes or more made of several segments', 'long lines are split into several numbered lines')
