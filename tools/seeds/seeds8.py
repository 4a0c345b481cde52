SEEDS = {}
def seed(i, prop, edits, demo, needs, breaks):
    SEEDS[i] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

seed('p14-flags-as-count', 'P14', [('pytermor/util/string_filter.py', "return self._regex.sub(self._repl, s)", "return self._regex.sub(self._repl, s, re.UNICODE)")], r"""
from pytermor.util.string_filter import *
for k in (1, 20, 33, 70):
    expect(ReplaceSGR('').apply('\x1b[1mx' * k) == 'x' * k, f'{k} sequences are removed')
""", 'more than 32 replacements in one string', 'sequences after the 32nd are left in place')
seed('p03-blank-pool', 'P03', [('pytermor/util/stdlib_ext.py', "    return s + fillchar * max(0, width - len(sanitized))",
 "    gap = width - len(sanitized)\n    return s if gap <= 0 else s + (fillchar * 128)[:gap]")], r"""
from pytermor.util.stdlib_ext import *
from pytermor.util.string_filter import ReplaceSGR
for w in (0, 3, 80, 127, 160, 300):
    expect(len(ReplaceSGR('').apply(ljust_sgr('\x1b[1mab\x1b[22m', w))) == max(2, w), f'width {w}')
""", 'a field wider by more than 128 characters', 'padding is too short')
seed('p06-cap-point', 'P06', [('pytermor/util/auto_float.py', "decimals_len = decimals_with_point_len - 1", "decimals_len = min(8, decimals_with_point_len - 1)")], r"""
from pytermor.util.auto_float import format_auto_float
for n in range(3, 15):
    for v in (1.5, -2.25, 0.015625):
        r = format_auto_float(v, n, False)
        if len(r) != n:
            expect(False, f'{v} in {n}: {r!r}')
        if n >= 12:
            expect('.' in r and float(r) == v and len(r.split('.')[1]) >= n - 4, f'{v} in {n}: {r!r}')
""", 'results of 12 characters and more', 'digits are dropped')
