SEEDS = {}
def seed(i, prop, edits, demo, needs, breaks):
    SEEDS[i] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

P = 'kolombos/byteio/parser/parser.py'
seed('k04-csi-intermediates', 'K04', [(P, r"b'((\x1b)(\\x5b)([\x30-\x3f]*)([\x20-\x2f]*)([\x40-\x7e]))|'", r"b'((\x1b)(\\x5b)([\x30-\x3f]*)([\x20-\x2f]{0,2})([\x40-\x7e]))|'")], r"""
for n in range(6):
    out = plain(run(b'a\x1b[1' + b'!' * n + b'pz\n', '--no-line-numbers', '-E')[1])
    expect(out.splitlines()[0] == 'a' + '×' * (n + 4) + 'z↵', f'a CSI sequence with {n} intermediate bytes: {out!r}')
""", 'a CSI sequence with three or more intermediate bytes', 'it is not recognised as an escape sequence')

seed('k05-nf-intermediates', 'K05', [(P, r"b'((\x1b)([\x20-\x2f])([\x20-\x2f]*)([\x30-\x7e]))|'", r"b'((\x1b)([\x20-\x2f])([\x20-\x2f]{0,2})([\x30-\x7e]))|'")], r"""
for n in range(1, 8):
    out = plain(run(b'a\x1b' + b'$' * n + b'Bz\n', '--no-line-numbers')[1])
    expect(out.splitlines()[0] == 'aꟻz↵', f'nF sequence with {n} intermediate bytes: {out!r}')
""", 'an nF escape sequence with four or more intermediate bytes', 'it is shown as a lone ESC and characters')

B = 'kolombos/byteio/formatter/binary.py'
seed('k02-many-columns', 'K02', [(B, "        req_bytes = cur_cols\n", "        req_bytes = cur_cols = min(cur_cols, 200)\n")], r"""
for w in (16, 100, 199, 200, 201, 256):
    out = plain(run(b'x' * 700, '-b', f'-w{w}')[1]).splitlines()
    expect(out[0].split('│')[1].split() == ['78'] * w, f'{w} columns: {len(out[0].split("│")[1].split())}')
""", 'more than 200 columns', 'rows are cut at 200 bytes')

seed('k03-line-five-digits', 'K03', [('kolombos/console.py', "fmt_(f'{line_num:2d}')", "fmt_(f'{line_num:2d}'[-4:])")], r"""
from kolombos.console import Console, ConsoleOutputBuffer
from kolombos.settings import SettingsManager
SettingsManager.init()
got = []
Console.print = staticmethod(lambda s='', end='\n', **kw: got.append(s + end))
b = ConsoleOutputBuffer()
for n in (1, 10, 999, 1000, 9999, 10000, 12345, 1000000):
    got.clear()
    b.write_with_line_num('x', line_num=n)
    expect(plain(''.join(got)) == f'{n:2d}│x', f'line number {n}: {plain("".join(got))!r}')
""", 'an input with 10000 lines or more', 'line numbers lose their first digits')

R = 'kolombos/byteio/reader.py'
seed('k22-buffer-cap', 'K22', [(R, "return int(SettingsManager.app_settings.buffer)", "return min(int(SettingsManager.app_settings.buffer), 16384)")], r"""
import io
from kolombos.app import App
asked = []
class In(io.RawIOBase):
    def read(self, n=-1):
        asked.append(n)
        return b'ab\n' if len(asked) < 3 else b''
class Std:
    buffer = In()
so, si, av = sys.stdout, sys.stdin, sys.argv
for f in (100, 16384, 20000, 1000000):
    asked.clear()
    sys.stdout, sys.stdin, sys.argv = io.StringIO(), Std(), ['kolombos', f'-f{f}', '-t']
    Std.buffer = In()
    try:
        App().run()
    except SystemExit:
        pass
    finally:
        sys.stdout, sys.stdin, sys.argv = so, si, av
    expect(asked and set(asked) == {f}, f'buffer of {f} bytes: reads ask for {set(asked)}')
""", 'a read buffer of more than 16 KB', 'reads ask for 16 KB at most')
