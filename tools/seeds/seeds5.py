SEEDS = {}
def seed(i, prop, edits, demo, needs, breaks):
    SEEDS[i] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

STREAM = r"""
class Src:
    closed = False
    def __init__(self, parts):
        self.parts, self.n = list(parts), 0
    def read(self, n=-1):
        self.n += 1
        p = self.parts.pop(0) if self.parts else b''
        if isinstance(p, BaseException):
            raise p
        return p
    def close(self):
        self.closed = True

class Out(io.StringIO):
    left = None
    def write(self, s):
        if self.left is not None:
            if self.left <= 0:
                raise BrokenPipeError(32, 'Broken pipe')
            self.left -= s.count('\n')
        return super().write(s)

def stream(parts, *args, left=None):
    from kolombos.app import App
    src, out, err = Src(parts), Out(), io.StringIO()
    out.left = left
    so, se, si, av = sys.stdout, sys.stderr, sys.stdin, sys.argv
    sys.stdout, sys.stderr, sys.argv = out, err, ['kolombos', *args]
    sys.stdin = type('I', (), {'buffer': src})()
    code = 'raised'
    try:
        App().run()
    except SystemExit as e:
        code = e.code
    except BrokenPipeError:
        pass
    finally:
        sys.stdout, sys.stderr, sys.stdin, sys.argv = so, se, si, av
    return code, plain(out.getvalue()), err.getvalue(), src
"""
R = 'kolombos/byteio/reader.py'
seed('k17-interrupt-close', 'K17', [(R, "        except KeyboardInterrupt:\n            pass\n        finally:\n            self.close()\n", "        except KeyboardInterrupt:\n            return\n        except Exception:\n            self.close()\n            raise\n        self.close()\n")], STREAM + r"""
for parts in ([KeyboardInterrupt()], [b'ab\ncd', KeyboardInterrupt()], [b'a\n', b'b', KeyboardInterrupt()]):
    code, out, err, src = stream(parts, '-t')
    expect(src.closed and not err and code == 0, f'closed after an interruption: {src.closed} {err!r} {code}')
""", 'an interruption (Ctrl+C) while the program waits for input', 'the input is not closed')

seed('k17-interrupt-flush', 'K17', [(R, "        except KeyboardInterrupt:\n            pass\n", "        except KeyboardInterrupt:\n            self._read_callback(b'', self._offset, True)\n")], STREAM + r"""
code, out, err, src = stream([b'ab\xe2', b'\x82', KeyboardInterrupt()], '-b', '-w4')
expect('ff' not in out and out.count('\n') == 1, f'no unfinished rows: {out!r}')
code, out, err, src = stream([b'ab\ncd', KeyboardInterrupt()], '-t')
expect(out.splitlines() == [' 1│ab↵', ''], f'no unfinished lines: {out!r}')
""", 'an interruption in the middle of a line or a row', 'an unfinished line is printed as if the input had ended there')

seed('k17-pipe-ignored', 'K17', [(R, "                self._read_callback(raw_input, self._offset, False)\n", "                try:\n                    self._read_callback(raw_input, self._offset, False)\n                except BrokenPipeError:\n                    self._debug_buffer.write(2, 'Output is closed', offset=self._offset)\n")], STREAM + r"""
code, out, err, src = stream([b'ab\n'] * 50, '-t', left=2)
expect(src.n <= 4 and src.closed and code != 0, f'stops after the output is closed: {src.n} reads, {code}')
""", 'the receiver of the output goes away (head) while there is more input', 'the program goes on reading all the input')

seed('p04-eq-16', 'P04', [('pytermor/color.py', "                and self._code_bg == other._code_bg\n                and self._code_fg == other._code_fg)", "                and self._code_bg == other._code_bg)")], r"""
from pytermor.color import ColorIndexed16
expect(ColorIndexed16(0x123456, 31, 41) != ColorIndexed16(0x123456, 91, 41), 'colors with other codes differ')
expect(ColorIndexed16(0x123456, 31, 41) == ColorIndexed16(0x123456, 31, 41), 'equal colors')
""", 'two 16-colors that differ in the foreground code only', 'they compare equal')

seed('p02-span-eq', 'P02', [('pytermor/ansi.py', "        return self._opening_seq == other._opening_seq and self._closing_seq == other._closing_seq", "        return self._opening_seq == other._opening_seq and bool(self._closing_seq.params) == bool(other._closing_seq.params)")], r"""
from pytermor import Span, SequenceSGR as S
expect(Span.init_explicit(S(1), S(22)) != Span.init_explicit(S(1), S(0)), 'spans with other closing sequences differ')
expect(Span.init_explicit(S(1), S(22)) == Span.init_explicit(S(1), S(22)), 'equal spans')
""", 'two spans with the same opening and different closing sequences', 'they compare equal')
