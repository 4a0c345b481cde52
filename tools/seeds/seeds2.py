exec(open('/tmp/seeds1.py').read().split("seed('k08-lines")[0])

seed('k16-wide-terminal', 'K16', [('kolombos/byteio/formatter/binary.py', """        chunk_len = (3 * self.BYTE_CHUNK_LEN) + \\
                    (self.BYTE_CHUNK_LEN - 1) + \\
                    len(self.PADDING_HEX_CHUNK)
""", """        chunk_len = (3 * self.BYTE_CHUNK_LEN) + \\
                    len(self.PADDING_HEX_CHUNK)
""")], r"""
for w in (80, 120, 200, 240):
    for l in plain(run(bytes(range(65, 91)) * 12, '-b', width=w)[1]).splitlines():
        expect(len(l) <= w, f'row of {len(l)} characters on a terminal {w} characters wide')
""", 'automatic columns on a terminal of 185 columns and more', 'rows are longer than the terminal line')

seed('k15-zero-param', 'K15', [('kolombos/byteio/segment/buffer.py', "if len(f.opening_seq.params) == 0 or set(f.opening_seq.params) == {0}:", "if len(f.opening_seq.params) == 0 or 0 in f.opening_seq.params:")], r"""
from kolombos.byteio.segment import Segment, SegmentPrinter
from kolombos.byteio.segment.buffer import SegmentBuffer
from kolombos.settings import SettingsManager
from pytermor import SequenceSGR
SettingsManager.init()
b = SegmentBuffer()
b.attach(Segment(SequenceSGR.init_color_indexed(0), '', b'ab', 'ab'))
r = b.detach_bytes(2, True, [SegmentPrinter(True, False, lambda s: s.processed)])[0]
expect(r == '\x1b[38;5;0mab\x1b[39m', repr(r))
""", 'a style with a zero among several parameters (color 0 of the palette, an RGB color with a zero channel)', 'the segment is output without its style')

seed('p01-overlined', 'P01', [('pytermor/ansi.py', "                     (IntCodes.CROSSLINED, IntCodes.CROSSLINED_OFF),\n                     (IntCodes.OVERLINED, IntCodes.OVERLINED_OFF), ]", "                     (IntCodes.CROSSLINED, IntCodes.CROSSLINED_OFF), ]")], r"""
from pytermor import Span
expect(Span(53)('x') == '\x1b[53mx\x1b[55m', 'overline is closed')
""", 'a span with the overlined attribute', 'the attribute is not closed')

seed('p01-rgb-bg-operands', 'P01', [('pytermor/ansi.py', "cls.bind_complex((IntCodes.BG_COLOR_EXTENDED, 2), 3, IntCodes.BG_COLOR_OFF)", "cls.bind_complex((IntCodes.BG_COLOR_EXTENDED, 2), 2, IntCodes.BG_COLOR_OFF)")], r"""
from pytermor import SequenceSGR, Span
expect(Span(SequenceSGR.init_color_rgb(255, 200, 31, True)).closing_seq.params == [49], 'RGB background is one unit')
expect(Span(SequenceSGR.init_color_rgb(255, 200, 31, True), 1).closing_seq.params == [49, 22], 'next attributes are closed')
""", 'an RGB background whose blue channel equals an SGR code (1, 31 and so on)', 'the operand is taken for an attribute')

seed('p02-trailing-zeros', 'P02', [('pytermor/ansi.py', "        if params == [0]:  # \\x1b[0m <=> \\x1b[m, saving 1 byte\n            params = []\n", "        while params and params[-1] == 0:  # \\x1b[0m <=> \\x1b[m, saving 1 byte\n            params = params[:-1]\n")], r"""
from pytermor import SequenceSGR
expect(SequenceSGR(0).assemble() in ('\x1b[m', '\x1b[0m'), 'reset')
expect(SequenceSGR(38, 5, 0).assemble() == '\x1b[38;5;0m', 'color 0')
""", 'several parameters, the last one being zero', 'the last parameter is dropped')

seed('p02-eq-hash', 'P02', [('pytermor/ansi.py', "        return self._params == other._params\n\n    @property\n    def is_color_extended", "        return hash(self) == hash(other)\n\n    @property\n    def is_color_extended")], r"""
from pytermor import SequenceSGR
import itertools
mods = 2 ** 61 - 1
a, b = SequenceSGR(*[1] * 40), None
s = a.assemble().encode()
# two sequences of the same length with equal hashes: 2**61 == 1 (mod 2**61-1), so byte weights repeat with period 61
def seq(d):
    return SequenceSGR(*d)
n = 64
x, y = [1] * n, [1] * n
# positions p and p+61 bytes apart modulo the period have weights differing by 2**(8*61) == 1
x[0], x[61 // 1 * 0 + 1] = 1, 1
base = seq([1] * 80)
found = False
for i in range(0, 30):
    d1, d2 = [1] * 80, [1] * 80
    j = i + 61  # two bytes per parameter: 122 bytes = 2 * 61
    if j < 80:
        d1[i], d2[j] = 2, 2
        if hash(seq(d1)) == hash(seq(d2)):
            found = True
            expect(seq(d1) != seq(d2), 'different parameters')
expect(SequenceSGR(0) != SequenceSGR(0, 0) and SequenceSGR(1, 2) != SequenceSGR(2, 1), 'different parameters')
expect(found, 'collision is constructed')
""", 'two different sequences with equal hashes (long ones)', 'different sequences are equal')

seed('p03-empty-params', 'P03', [('pytermor/util/string_filter.py', "SGR_REGEXP = re.compile(r'(\\x1b)(\\[)(([0-9;])*)(m)')", "SGR_REGEXP = re.compile(r'(\\x1b)(\\[)(([0-9]+;?)*)(m)')")], r"""
from pytermor.util import ReplaceSGR, ljust_sgr
expect(ReplaceSGR().apply('a\x1b[;1mb\x1b[1;;2mc') == 'abc', 'sequences with omitted parameters')
expect(ljust_sgr('a\x1b[;mb', 4) == 'a\x1b[;mb  ', 'justification')
""", 'a sequence with an omitted parameter before another one (ESC[;1m, ESC[1;;2m)', 'the sequence is counted as text')

seed('p03-center-odd', 'P03', [('pytermor/util/stdlib_ext.py', "    left_fill_len = fill_len - right_fill_len\n", "    left_fill_len = (width - len(s)) // 2 + fill_len % 2\n")], r"""
from pytermor.util import center_sgr
expect(len(center_sgr('abc', 10)) == 10, 'text without sequences')
r = center_sgr('\x1b[1mabc\x1b[22m', 20)
expect(len(r) == 20 + 9, f'text with sequences: {r!r}')
""", 'a text with SGR sequences', 'the length of sequences is subtracted from the padding')

seed('p04-black', 'P04', [('pytermor/color.py', """        if self._hex_value is None:
            return NOOP_SEQ
        return SequenceSGR.init_color_rgb(""", """        if not self._hex_value:
            return NOOP_SEQ
        return SequenceSGR.init_color_rgb(""")], r"""
from pytermor.color import ColorRGB
expect(ColorRGB(0).to_sgr(True).params == [48, 2, 0, 0, 0], 'black background')
""", 'the RGB color 000000', 'black is rendered into nothing')

seed('p04-format-small', 'P04', [('pytermor/color.py', "{self._hex_value:06x}'", "{self._hex_value:02x}'.zfill(6)")], r"""
from pytermor.color import ColorRGB
expect(ColorRGB(0x12345).format_value() == '0x012345', 'format: ' + ColorRGB(0x12345).format_value())
expect(ColorRGB(0x12345).format_value('#') == '#012345', 'format')
""", 'a color below 0x10000 formatted with a prefix', 'less than six hex digits are printed')

seed('p05-manhattan', 'P05', [('pytermor/color.py', """            distance_sq = (pow(map_r - input_r, 2) +
                           pow(map_g - input_g, 2) +
                           pow(map_b - input_b, 2))
""", """            distance_sq = (abs(map_r - input_r) +
                           abs(map_g - input_g) +
                           abs(map_b - input_b))
""")], r"""
from pytermor.color import Approximator, ColorRGB
a = Approximator()
for c in (0x0a0a0a, 0x140000):
    a.add_to_map(ColorRGB(c))
expect(a.find_closest(0).hex_value == 0x0a0a0a, 'distance 300 against 400')
""", 'a value for which the metrics order two palette colors differently', 'a farther color is returned')

seed('p05-stale-cache', 'P05', [('pytermor/color.py', """            self._approximation_cache.clear()
            self._lookup_table[color.hex_value] = color
""", """            self._lookup_table[color.hex_value] = color
            self._approximation_cache.pop(color.hex_value, None)
""")], r"""
from pytermor.color import Approximator, ColorRGB
a = Approximator()
a.add_to_map(ColorRGB(0xff0000))
a.find_closest(0x101010)
a.add_to_map(ColorRGB(0x111111))
expect(a.find_closest(0x101010).hex_value == 0x111111, 'a color registered after the first search')
""", 'a color registered after a search for a value it is nearest to', 'the cached answer is returned')

seed('p06-trunc-9', 'P06', [('pytermor/util/auto_float.py', """        if len(integer_str) > integer_len:
            # e.g. req_len = 1, abs_value = 9.9
            #      => should be displayed as 9, not 10
            integer_str = f'{trunc(abs_value):{req_len}d}'
""", """        if len(integer_str) > integer_len and not sign:
            # e.g. req_len = 1, abs_value = 9.9
            #      => should be displayed as 9, not 10
            integer_str = f'{trunc(abs_value):{req_len}d}'
""")], r"""
from pytermor.util import format_auto_float as f
for v, n in ((9.9, 1), (99.7, 2), (-9.9, 2), (-99.7, 3), (-999.5, 4)):
    expect(len(f(v, n)) == n, f'{v} in {n}: {f(v, n)!r}')
""", 'a negative value that fills the length and rounds up to the next power of ten', 'the result is one character longer')

seed('p07-thousand', 'P07', [('pytermor/util/prefixed_unit.py', "            elif abs(value) >= self._mcoef:\n", "            elif abs(value) > self._mcoef:\n")], r"""
from pytermor.util import format_si_metric as m, format_si_binary as b
expect(m(1000, 'm') == '1.00 km', m(1000, 'm'))
expect(b(1024) == '1.00 kb' or b(1024) == '1.000 kb', b(1024))
expect(m(-1000000, 'm') == '-1.0 Mm', 'negative')
""", 'a value equal to a power of the base', 'the prefix is one step too small')

seed('p08-collapse', 'P08', [('pytermor/util/time_delta.py', "unit.collapsible_after is not None and num < unit.collapsible_after:", "unit.collapsible_after is not None and num <= unit.collapsible_after:")], r"""
from pytermor.util import format_time_delta as f
for s in range(0, 40 * 3600 * 24, 599):
    expect(len(f(s, 6)) <= 6, f'{s}: {f(s, 6)!r}')
""", 'exactly 10 hours and 10 or more minutes (10 days and 10 or more hours) within six characters', 'the result is longer than the limit')

seed('p08-month-frac', 'P08', [('pytermor/util/time_delta.py', "floor(num - (next_num * next_unit_ratio))", "round(num - (next_num * next_unit_ratio))")], r"""
from pytermor.util import TimeDeltaFormatter, TimeUnit
f = TimeDeltaFormatter([TimeUnit('s', 60), TimeUnit('m', 60, collapsible_after=60), TimeUnit('h', overflow_afer=99)], False)
expect(f.format(119.9) == '1m59s', f.format(119.9))
""", 'a formatter that shows minutes with seconds and a fractional amount of seconds', 'seconds are rounded up (to 60)')

seed('p09-splitlines-join', 'P09', [('pytermor/render.py', """        rendered_text = ''
        for line in str(text).splitlines(keepends=True):
            rendered_text += Span(opening_seq).wrap(line)
        return rendered_text
""", """        span = Span(opening_seq)
        return '\\n'.join(span.wrap(line) for line in str(text).split('\\n'))
""")], r"""
from pytermor import Style, SgrRenderer
SgrRenderer.set_up(force_styles=True)
r = SgrRenderer.render('a\rb', Style(bold=True))
expect(plain(r) == 'a\rb', 'text')
expect(r in ('\x1b[1ma\r\x1b[22m\x1b[1mb\x1b[22m', '\x1b[1ma\x1b[22m\r\x1b[1mb\x1b[22m'), f'every line is styled separately: {r!r}')
""", 'a text with line separators other than LF', 'the style is not closed at the end of such a line')

seed('p09-tmux-table', 'P09', [('pytermor/render.py', "        Seqs.BG_HI_MAGENTA: 'bg=brightmagenta',", "        Seqs.BG_HI_MAGENTA: 'fg=brightmagenta',")], r"""
from pytermor import Style, Colors
from pytermor.render import TmuxRenderer
TmuxRenderer.set_up(force_styles=True)
r = TmuxRenderer.render('x', Style(bg=Colors.HI_MAGENTA))
expect(r == '#[bg=brightmagenta]x#[bg=default]', r)
""", 'bright magenta background in tmux format', 'foreground is changed instead')

seed('p10-explicit-false', 'P10', [('pytermor/render.py', "            if getattr(self, attr) is None and inherit_val is not None:", "            if not getattr(self, attr) and inherit_val is not None:")], r"""
from pytermor import Style
s = Style(Style(bold=True, dim=True), bold=False)
expect(s.bold is False and s.dim is True, repr(s))
""", 'a child style with an explicit False', 'the attribute is taken from the parent')

seed('p11-gap-first', 'P11', [('pytermor/render.py', """        gape_len = spaces_amount // (gapes_amount or 1)  # for last value
        result += value + ' ' * gape_len
        gapes_amount -= 1
        spaces_amount -= gape_len

    return result""", """        gape_len = spaces_amount // (gapes_amount or 1) if value_idx == 0 else gape_len
        if value_idx == values_amount - 1:
            gape_len = 0
        elif value_idx == values_amount - 2:
            gape_len = spaces_amount
        result += value + ' ' * gape_len
        spaces_amount -= gape_len

    return result""")], r"""
from pytermor.render import distribute_padded as d
r = d(['a', 'b', 'c', 'd'], 12)
expect(len(r) == 12, repr(r))
gaps = [len(g) for g in re.findall(' +', r)]
expect(max(gaps) - min(gaps) <= 1, f'gaps: {gaps}')
""", 'spaces that cannot be divided between the gaps with a remainder of 2 and more', 'the last gap gets the whole remainder')

seed('p12-alias-runs', 'P12', [('pytermor/render.py', "            self._runs = text._runs + self._runs\n", "            text._runs.extend(self._runs)\n            self._runs = text._runs\n")], r"""
from pytermor import Text
a, b = Text('a'), Text('b')
a.prepend(b)
expect(a.raw() == 'ba', a.raw())
a.append('c')
expect(b.raw() == 'b', 'the argument is not changed: ' + b.raw())
""", 'a text that is used again after being prepended to another one', 'the prepended text changes too')

seed('p12-dedup-empty', 'P12', [('pytermor/render.py', """    def append(self, text: str|Text):
        if isinstance(text, str):
            self._runs.append(self._TextRun(text))
""", """    def append(self, text: str|Text):
        if isinstance(text, str):
            if self._runs and not self._runs[-1]._style:
                self._runs[-1]._string += text
                return
            self._runs.append(self._TextRun(text))
""")], r"""
from pytermor import Text
a = Text('a')
b = Text('b')
b.append(a)
b.append('c')
expect(a.raw() == 'a' and b.raw() == 'bac', f'{a.raw()} {b.raw()}')
""", 'a string appended after a text that is still used elsewhere', 'the shared run of another text is changed')
