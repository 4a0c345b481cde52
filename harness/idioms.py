"""Programming idioms a maintainer may use in the code under test, executed symbolically and compared with the
interpreter on the models of the paths (tools/engine_test.py).  Not part of any check."""
import io, re, math, itertools, functools, operator, collections, string, struct, textwrap, dataclasses, enum, codecs, contextlib, unicodedata, bisect, heapq, typing, copy, types
from collections import deque, Counter, defaultdict, OrderedDict, namedtuple

DOM = ((0x61, 0x63), (0x20, 0x20), (0x31, 0x32), (0xa, 0xa), (0x1b, 0x1b), (0x5b, 0x5b), (0xe9, 0xe9))
BDOM = ((0, 2), (0x1b, 0x1b), (0x20, 0x20), (0x61, 0x62), (0x7f, 0x80), (0xff, 0xff), (0xa, 0xa))


class Kind(enum.Enum):
    A = 'a'
    B = 'b'


class Lvl(enum.IntEnum):
    ONE = 1
    TWO = 2


class Fl(enum.IntFlag):
    X = 1
    Y = 2
    Z = 4


@dataclasses.dataclass
class Pt:
    x: int
    y: object = None

    def shifted(self, d):
        return dataclasses.replace(self, x=self.x + d)


@dataclasses.dataclass(frozen=True)
class FPt:
    x: int
    y: int = 0


NT = namedtuple('NT', 'a b')


class Slots:
    __slots__ = ('v',)

    def __init__(self, v): self.v = v
    def __eq__(self, o): return isinstance(o, Slots) and self.v == o.v
    def __lt__(self, o): return self.v < o.v
    def __bool__(self): return self.v > 3
    def __len__(self): return 2
    def __getitem__(self, i): return (self.v, 7)[i]


TR = str.maketrans({'a': 'X', ' ': '·', '\n': '↵\n'})
TR2 = str.maketrans('ab', 'xy', 'c')
BTR = bytes(255 - i for i in range(256))
F = {}


def idiom(f):
    F[f.__name__] = f
    return f


# strings
@idiom
def s_translate(s, b, n, m): return s.translate(TR)
@idiom
def s_translate2(s, b, n, m): return s.translate(TR2)
@idiom
def s_translate_dict(s, b, n, m): return s.translate({97: None, 98: 'bb'})
@idiom
def s_split(s, b, n, m): return s.split(), s.split(' '), s.split('a', 1), s.rsplit('a', 1)
@idiom
def s_partition(s, b, n, m): return s.partition('a'), s.rpartition(' ')
@idiom
def s_lines(s, b, n, m): return s.splitlines(), s.splitlines(True), s.count('\n')
@idiom
def s_case(s, b, n, m): return s.upper(), s.title(), s.capitalize(), s.swapcase(), s.casefold()
@idiom
def s_pred(s, b, n, m): return s.isalpha(), s.isdigit(), s.isspace(), s.isalnum(), s.isprintable(), s.isascii(), s.isupper(), s.islower(), s.isnumeric(), s.isdecimal(), s.isidentifier()
@idiom
def s_strip(s, b, n, m): return s.strip(), s.lstrip('a '), s.rstrip('\n'), s.removeprefix('a'), s.removesuffix(' ')
@idiom
def s_just(s, b, n, m): return s.ljust(5, '.'), s.rjust(n), s.center(6), s.zfill(4), s.expandtabs(4)
@idiom
def s_find(s, b, n, m): return s.find('a'), s.rfind('a'), s.find('b', 1), s.startswith(('a', ' ')), s.endswith('1')
@idiom
def s_index(s, b, n, m): return s.index('a')
@idiom
def s_replace(s, b, n, m): return s.replace('a', 'xx').replace(' ', ''), s.replace('b', 'c', 1)
@idiom
def s_join(s, b, n, m): return '-'.join(s), ''.join(reversed(s)), ','.join(c * 2 for c in s if c != 'a')
@idiom
def s_slice(s, b, n, m): return s[1:], s[:-1], s[::-1], s[n:], s[:n], s[-2:]
@idiom
def s_format(s, b, n, m): return '{:>6}|{!r}|{:<4}|{:^5}|{:x}|{:#04x}|{:,}'.format(s, s, n, s, m, n, m)
@idiom
def s_format_map(s, b, n, m): return '{s}:{n:03d}'.format_map({'s': s, 'n': n}), '{0}{1}{0}'.format(s, n), '{p.x}{l[0]}'.format(p=Pt(n), l=[m])
@idiom
def s_percent(s, b, n, m): return '%s %5s %-5s %d %03d %x %r %c %%' % (s, s, s, n, m, n, s, n + 65)
@idiom
def s_fstr(s, b, n, m): return f'{s!r:>9}|{s:.2}|{n:>{m % 4 + 1}}|{n=}|{m:b}|{n:+d}|{m:o}|{n:5.1f}|{n / 4:.2%}'
@idiom
def s_ord(s, b, n, m): return [ord(c) for c in s], ''.join(chr(ord(c) + 1) for c in s), [hex(ord(c)) for c in s]
@idiom
def s_enumerate(s, b, n, m): return [(i, c) for i, c in enumerate(s, 1)], dict(enumerate(s)), list(zip(s, s[1:]))
@idiom
def s_groupby(s, b, n, m): return [(k, len(list(g))) for k, g in itertools.groupby(s)]
@idiom
def s_groupby2(s, b, n, m): return [(k, ''.join(g)) for k, g in itertools.groupby(s, key=str.isalpha)]
@idiom
def s_takewhile(s, b, n, m): return ''.join(itertools.takewhile(lambda c: c != ' ', s)), ''.join(itertools.dropwhile(str.isspace, s))
@idiom
def s_chain(s, b, n, m): return ''.join(itertools.chain(s, 'x', s)), list(itertools.chain.from_iterable([s, s]))[:3]
@idiom
def s_islice(s, b, n, m): return ''.join(itertools.islice(s, 1, None)), ''.join(itertools.islice(itertools.cycle('ab'), n % 5)), list(itertools.islice(itertools.count(n), 3))
@idiom
def s_accum(s, b, n, m): return list(itertools.accumulate(ord(c) for c in s)), list(itertools.accumulate(s, initial='>'))
@idiom
def s_ziplongest(s, b, n, m): return list(itertools.zip_longest(s, b, fillvalue='?'))
@idiom
def s_product(s, b, n, m): return [a + c for a, c in itertools.product(s, 'xy')], list(itertools.pairwise(s)), list(itertools.repeat(s, 2)), list(itertools.starmap(operator.add, [(s, 'q'), (n, m)])), list(itertools.combinations(s, 2)), list(itertools.compress(s, [1, 0, 1]))
@idiom
def s_reduce(s, b, n, m): return functools.reduce(lambda a, c: a + c.upper(), s, ''), functools.reduce(operator.xor, b, 0), functools.reduce(operator.or_, b, 0)
@idiom
def s_counter(s, b, n, m):
    c = Counter(s)
    return c['a'], sorted(c.values())
@idiom
def s_counter2(s, b, n, m): return Counter(s).most_common(1)
@idiom
def s_sorted(s, b, n, m): return sorted(s), sorted(s, key=lambda c: -ord(c)), max(s, default='-'), min(b, default=0)
@idiom
def s_set(s, b, n, m): return len(set(s)), 'a' in set(s), set(s) & {'a', 'b'} == {'a'}, frozenset(s) <= set('abc')
@idiom
def s_dictcomp(s, b, n, m):
    d = {c: i for i, c in enumerate(s)}
    return d.get('a', -1), len(d), sorted(d.items(), key=lambda x: x[1])
@idiom
def s_defaultdict(s, b, n, m):
    d = defaultdict(list)
    for i, c in enumerate(s):
        d[c].append(i)
    return d['a'], list(d.values())
@idiom
def s_setdefault(s, b, n, m):
    d = {}
    for i, c in enumerate(s):
        d.setdefault(c, []).append(i)
    return list(d.values()), d.pop('a', None), len(d)
@idiom
def s_dispatch(s, b, n, m):
    t = {'a': lambda: 1, ' ': lambda: 2, '1': lambda: n}
    return [t.get(c, lambda: -1)() for c in s]
@idiom
def s_inlit(s, b, n, m): return [c in 'ab' for c in s], [c in ('1', ' ') for c in s], 'a' in s, s in ('a', 'ab'), s not in {'', 'b'}
@idiom
def s_walrus(s, b, n, m):
    r = []
    it = iter(s)
    while (c := next(it, None)) is not None:
        r.append(c + '.')
    return r
@idiom
def s_anyall(s, b, n, m): return any(c == 'a' for c in s), all(c.isalpha() for c in s), sum(c == ' ' for c in s), sum(map(ord, s))
@idiom
def s_encode(s, b, n, m): return s.encode(), s.encode('utf-8').hex(' '), len(s.encode('utf8')), s.encode('ascii', 'replace'), s.encode('latin-1')
@idiom
def s_encode_err(s, b, n, m): return s.encode('ascii')
@idiom
def s_ascii(s, b, n, m): return ascii(s), repr(s), s.encode('unicode_escape')
@idiom
def s_cmp(s, b, n, m): return s < 'b', s >= 'a ', s == 'a', s != 'ab', (s, n) < ('b', 3)
@idiom
def s_textwrap(s, b, n, m): return textwrap.indent(s, '> '), textwrap.shorten(s, 10)
@idiom
def s_template(s, b, n, m): return string.Template('$x-$y').substitute(x=s, y=n)
@idiom
def s_stringio(s, b, n, m):
    o = io.StringIO()
    o.write(s)
    print(n, s, sep='/', end='!', file=o)
    return o.getvalue()
@idiom
def s_stringio2(s, b, n, m): return list(io.StringIO(s)), io.StringIO(s).readline()
@idiom
def s_aug(s, b, n, m):
    r = 'x'
    r += s
    r *= 2
    f = '%s'
    f %= s
    return r, f
@idiom
def s_mul(s, b, n, m): return s * 2, 'ab' * n, (n - 3) * '-', [0] * n
@idiom
def s_star(s, b, n, m):
    a, *r = s + 'z'
    *q, z = [*s, n]
    return a, r, q, z, [*s, *s], {**{'k': s}}, (lambda *x, **k: (x, k))(*s, y=s)
@idiom
def s_char_ranges(s, b, n, m): return ['a' <= c <= 'b' for c in s], [c.isupper() or c.isdigit() for c in s], [string.ascii_letters.find(c) for c in s]
@idiom
def s_udata(s, b, n, m): return [unicodedata.category(c) for c in s], [unicodedata.east_asian_width(c) for c in s]
@idiom
def s_bool(s, b, n, m): return bool(s), not s, s or 'default', s and 'x', len(s) and 1, [c for c in s if c.strip()]
@idiom
def s_int(s, b, n, m): return int(s)
@idiom
def s_int2(s, b, n, m): return int(s or '0', 16), float('1' + str(n))
@idiom
def s_str(s, b, n, m): return str(n), str(m).zfill(4), len(str(m)), str(None), str(True), hex(n)[2:], bin(m), oct(n), repr(m), format(n, '02x'), f'{m:08b}'
# regular expressions
@idiom
def r_sub(s, b, n, m): return re.sub('a+', '<\\g<0>>', s), re.sub(r'[ab]', lambda x: x.group().upper(), s), re.subn('a|b', 'z', s, count=1)
@idiom
def r_find(s, b, n, m): return re.findall('[ab]', s), re.findall('(a)(b)?', s), [x.span() for x in re.finditer('a*', s)]
@idiom
def r_split(s, b, n, m): return re.split('[ a]', s), re.split('(a)', s), re.split(r'\s+', s, maxsplit=1)
@idiom
def r_match(s, b, n, m):
    x = re.match(r'(?P<k>[ab]+)(\d)?', s)
    return (x.group('k'), x.groups(), x[2], x.end(), x.groupdict(), x.lastgroup) if x else None
@idiom
def r_full(s, b, n, m): return bool(re.fullmatch('[a-c]*1?', s)), re.search(r'\s', s) is not None, re.compile('^b', re.M).search(s) is None
@idiom
def r_bytes(s, b, n, m): return re.sub(rb'[\x00-\x02]+', b'.', b), re.findall(rb'\x1b(.)?', b, re.S), re.split(rb'(?<=\n)', b)
@idiom
def r_bytes2(s, b, n, m): return re.sub(rb'(?P<a>[\x80-\xff]+)|(?P<b>[\x20-\x7e]+)|(?P<c>.)', lambda x: x.lastgroup.encode() + b'%d' % (x.end() - x.start()), b, flags=re.S)
@idiom
def r_scanner(s, b, n, m): return [(x.lastgroup, x.group()) for x in re.compile(r'(?P<w>[a-c]+)|(?P<d>\d)|(?P<o>.)', re.S).finditer(s)]
@idiom
def r_pos(s, b, n, m):
    p = re.compile('a')
    return p.match(s, 1) is not None, p.search(s, 1, 3) is not None, [x.start() for x in p.finditer(s)]
@idiom
def r_loop(s, b, n, m):
    out, pos = [], 0
    p = re.compile('[ab]+')
    while pos < len(s):
        x = p.match(s, pos)
        if x is None:
            out.append('?')
            pos += 1
        else:
            out.append(x.group())
            pos = x.end()
    return out
@idiom
def r_esc(s, b, n, m): return re.sub(re.escape('['), '(', s), re.search(r'\x1b\[', s) is None, re.sub(r'(?<!a)b', 'N', s), re.sub(r'a(?=b)', 'L', s), re.sub('(?i:A)', 'i', s)
# bytes
@idiom
def b_hex(s, b, n, m): return b.hex(), b.hex(' '), [f'{x:02x}' for x in b], ' '.join(map('{:02x}'.format, b)), ['%02x' % x for x in b], [hex(x) for x in b], b.hex(':', 2)
@idiom
def b_decode(s, b, n, m): return b.decode('latin-1'), b.decode('utf-8', 'replace'), b.decode('ascii', 'ignore'), b.decode('utf8', errors='backslashreplace')
@idiom
def b_decode_err(s, b, n, m): return b.decode()
@idiom
def b_decode_try(s, b, n, m):
    try:
        return str(b, 'utf-8')
    except UnicodeDecodeError as e:
        return e.start, e.end, type(e).__name__
@idiom
def b_translate(s, b, n, m): return b.translate(BTR), b.translate(None, b'\x00'), b.replace(b'\x1b', b'ESC')
@idiom
def b_split(s, b, n, m): return b.split(b'\n'), b.splitlines(True), b.partition(b'\n'), b.count(10), b.find(b'\x1b'), b.index(10) if 10 in b else -1
@idiom
def b_slices(s, b, n, m): return b[:2], b[2:], b[n:], b[:-1], b[0:1], b[0], b[-1], list(b), bytes(b), bytes(reversed(b)), b[::2]
@idiom
def b_array(s, b, n, m):
    a = bytearray(b)
    a += b'z'
    a.append(n)
    a.extend(b)
    a[0] = 7
    del a[1]
    return bytes(a), len(a), a[:2] == b[:2]
@idiom
def b_bytearray2(s, b, n, m):
    a = bytearray()
    for x in b:
        a.append(x ^ 1)
    a.insert(0, 5)
    x = a.pop(0)
    a.reverse()
    a[1:2] = b'yy'
    return bytes(a), x, a.startswith(b'a')
@idiom
def b_memview(s, b, n, m):
    v = memoryview(b)
    return bytes(v[1:]), v[0], len(v), v.tobytes()
@idiom
def b_io(s, b, n, m):
    f = io.BytesIO(b)
    return f.read(2), f.tell(), f.read(), f.read(1), f.seek(0), f.readline(), list(iter(lambda: f.read(1), b''))
@idiom
def b_join(s, b, n, m): return b''.join([b, b'-', b]), b'%b|%d|%s' % (b, n, b), b + b'x', b * 2, b.join([b'1', b'2'])
@idiom
def b_chunks(s, b, n, m): return [b[i:i + 2] for i in range(0, len(b), 2)], list(zip(*[iter(b)] * 2))
@idiom
def b_int(s, b, n, m): return int.from_bytes(b, 'big'), int.from_bytes(b[:2], 'little'), n.to_bytes(2, 'big'), (m % 256).to_bytes(1, 'little'), bytes([n]), bytes((n, n + 1)), n.bit_length()
@idiom
def b_struct(s, b, n, m): return struct.pack('>H', n), struct.unpack('B', b[:1]), struct.unpack('>3B', b)
@idiom
def b_bits(s, b, n, m): return [x & 0x80 for x in b], [x >> 4 for x in b], [x | 1 for x in b], [x ^ 0xff for x in b], [~x for x in b], [x << 2 for x in b], [(x & 0xe0) == 0xc0 for x in b]
@idiom
def b_cmp(s, b, n, m): return b < b'a', b == b'aaa', b.startswith((b'\x1b', b'\n')), b.endswith(b'\xff'), b'\x1b' in b, 27 in b, b.isalpha(), b.isspace(), b.upper(), b.strip(), b.isascii()
@idiom
def b_classify(s, b, n, m):
    def k(x):
        if x == 0: return 'nul'
        if x < 0x20: return 'ctl'
        if x in range(0x20, 0x7f): return 'prn'
        return 'hi' if x >= 0x80 else 'del'
    return list(map(k, b)), [*filter(lambda x: x > 30, b)], {k(x): i for i, x in enumerate(b)}
@idiom
def b_table(s, b, n, m):
    t = ['c'] * 32 + ['p'] * 95 + ['d'] + ['h'] * 128
    return [t[x] for x in b], ''.join(map(t.__getitem__, b))
@idiom
def b_dict(s, b, n, m):
    t = {0: 'Ø', 27: '∌', 10: '↵'}
    return [t.get(x, '?') for x in b], [t[x] if x in t else x for x in b]
@idiom
def b_bisect(s, b, n, m): return [bisect.bisect_right([10, 27, 100], x) for x in b]
@idiom
def b_codec(s, b, n, m): return codecs.decode(b, 'latin-1'), codecs.encode(b, 'hex'), codecs.getincrementaldecoder('utf-8')('replace').decode(b)
@idiom
def b_rfind(s, b, n, m): return b.rfind(b'\n'), b.rstrip(b'\n'), b.rpartition(b'\n'), b.removesuffix(b'\n'), b.ljust(5, b'.'), b.lower()
# numbers
@idiom
def n_arith(s, b, n, m): return n + m, n - m, n * 3, m // 7, m % 7, -m, abs(m), divmod(m, 16), n ** 2, m / 4, -m // 3, -m % 5
@idiom
def n_math(s, b, n, m): return math.floor(m / 16), math.ceil(m / 16), round(m / 8), int(m / 7), math.trunc(-m / 3), math.gcd(n, 12), math.prod([n, 2]), math.isclose(n, 2.0), math.fabs(m)
@idiom
def n_log(s, b, n, m): return math.floor(math.log10(n + 1)), len(str(abs(m)))
@idiom
def n_minmax(s, b, n, m): return max(n, 5), min(n, m, 7), max([n, m]), sorted([n, m, 4]), sorted([n, m, 4], reverse=True), max(0, m), min((n, 'a'), (m, 'b')), sum([n, m, 1]), max([n, m], key=lambda x: -x)
@idiom
def n_cmp(s, b, n, m): return n < m, 3 <= n < 8, n == m, (n > 3) + 1, not n, bool(n), n or 5, n and m, n if n > 3 else m, (n > 3) is True, n is None
@idiom
def n_range(s, b, n, m): return list(range(n % 5)), [i for i in range(0, n, 7)], n in range(3, 9), len(range(n)), sum(1 for _ in range(n % 4)), list(reversed(range(n % 4)))
@idiom
def n_bits(s, b, n, m): return n & 3, m >> 2, n | 8, n ^ m, 1 << (n % 5), bool(n & 1), [i for i in range(5) if n >> i & 1], bin(n).count('1')
@idiom
def n_str(s, b, n, m): return f'{n}', f'{m:>5d}', f'{n:<4}|', f'{m:^7}|', f'{m:,}', f'{m:_}', f'{n:04X}', str(m).rjust(6, '0'), '{:+}'.format(m), '%+d' % m, f'{m:e}', f'{n:.1f}', f'{m:g}', '%.3s' % m
@idiom
def n_index(s, b, n, m): return 'abcdefghijklmnopqrstuvwxyz'[n], [1, 2, 3][n % 3], (4, 5)[n > 5], {True: 'y', False: 'n'}[n > m], ['a', 'b'][bool(n)], list(range(30))[-n]
@idiom
def n_index_err(s, b, n, m): return 'abc'[n]
@idiom
def n_while(s, b, n, m):
    r = 0
    while n > 0:
        n -= 3
        r += 1
    else:
        r += 100
    return r
@idiom
def n_for_else(s, b, n, m):
    for lim in (3, 7, 12):
        if n < lim:
            break
    else:
        lim = -1
    return lim
@idiom
def n_next(s, b, n, m): return next((x for x in (3, 7, 12) if x > n), None), next(filter(lambda x: x > m, [1, 100, 400]), 0), [x for x in (1, 5, 9) if x <= n][-1:] , any(x == n for x in (1, 2)), all([n, m])
@idiom
def n_enum(s, b, n, m): return [k for k in Lvl if k == n], n == Lvl.ONE, n >= Lvl.TWO, Kind(s[:1]).name if s[:1] in ('a', 'b') else None
@idiom
def n_enum2(s, b, n, m): return Lvl(n).name
@idiom
def n_flags(s, b, n, m):
    f = Fl.X
    if n > 3:
        f |= Fl.Y
    if m > 9:
        f &= ~Fl.X
    return int(f), Fl.Y in f, bool(f & Fl.X), f == Fl.X | Fl.Y
@idiom
def n_try(s, b, n, m):
    try:
        return 10 // n
    except ZeroDivisionError:
        return 'zero'
    finally:
        n = 5
@idiom
def n_float(s, b, n, m): return n * 0.5, n / 2 == 1.5, float(n), int(n * 0.5), m * 1.0 > 3, (n / 8).is_integer(), round(n / 8, 1), n / 3 < 1
@idiom
def n_is(s, b, n, m): return isinstance(n, int), isinstance(s, str), isinstance(b, (bytes, str)), type(n) is int, type(s) == str, type(s).__name__, callable(n), hasattr(s, 'upper'), isinstance(n, bool), issubclass(type(n), int)
@idiom
def n_match(s, b, n, m):
    match n:
        case 0: return 'z'
        case 1 | 2: return 'few'
        case x if x > 7: return 'many', x
        case int(x): return x
@idiom
def n_match2(s, b, n, m):
    match (n > 3, s):
        case (True, ''): return 1
        case (True, str(x)): return x
        case (False, 'a' | 'b'): return 2
        case _: return 3
@idiom
def n_match3(s, b, n, m):
    match list(b):
        case [27, x, *r]: return 'esc', x, r
        case [0 | 1 as z, *_, 10]: return z
        case []: return 'no'
        case [*a, q]: return a, q
@idiom
def n_match4(s, b, n, m):
    match {'k': n, 's': s}:
        case {'k': 1, **r}: return r
        case {'k': x, 's': 'a'}: return x
    match Pt(n, s):
        case Pt(x=1): return 'one'
        case Pt(2, y): return y
        case Pt(x, 'b') | Pt(x, ' '): return x
    return None
# classes, closures, generators
@idiom
def c_data(s, b, n, m): return Pt(n, s) == Pt(3, 'a'), Pt(n).shifted(2).x, dataclasses.asdict(Pt(n, s)), FPt(n) == FPt(3), dataclasses.astuple(Pt(n)), repr(Pt(n))
@idiom
def c_nt(s, b, n, m): return NT(n, s).a, NT(n, s) == (3, 'a'), NT(n, m)._replace(a=1), [*NT(n, s)], NT(n, m) < NT(3, 4)
@idiom
def c_slots(s, b, n, m): return Slots(n) == Slots(3), bool(Slots(n)), Slots(n)[0], sorted([Slots(n), Slots(m)])[0].v, [*Slots(n)][:1] if False else 0, max(Slots(n), Slots(m), key=lambda z: z.v).v
@idiom
def c_gen(s, b, n, m):
    def g():
        for c in s:
            if c == ' ':
                return
            x = yield c
            if x:
                yield x
    r = list(g())
    it = g()
    y = next(it, 'E')
    return r, y
@idiom
def c_yieldfrom(s, b, n, m):
    def g(k):
        if k > 0:
            yield k
            yield from g(k - 4)
    return [*g(n)]
@idiom
def c_closure(s, b, n, m):
    tot = 0
    def add(c):
        nonlocal tot
        tot += ord(c)
        return tot
    return [add(c) for c in s], functools.partial(operator.add, n)(m), (lambda x, y=n: x + y)(1)
@idiom
def c_cache(s, b, n, m):
    @functools.lru_cache(None)
    def f(x): return x * 2
    return f(n), f(m), f(n)
@idiom
def c_op(s, b, n, m): return operator.itemgetter(0, 1)([n, m, s]), operator.attrgetter('x')(Pt(n)), operator.methodcaller('upper')(s), operator.contains('abc', s), operator.lt(n, m), operator.not_(n), operator.mul(s, 2), operator.getitem([n, m], 1), operator.eq(s, 'a'), operator.concat(s, s)
@idiom
def c_attr(s, b, n, m):
    o = types.SimpleNamespace(a=n, **{'b': m})
    setattr(o, 'c', s)
    return o.a, getattr(o, 'b'), getattr(o, 'zz', 7), vars(o)['c'], o.__dict__['a']
@idiom
def c_deque(s, b, n, m):
    d = deque(s, maxlen=2)
    d.appendleft('x')
    d.rotate(1)
    e = deque([n, m])
    e.extend(b)
    return list(d), e.popleft(), len(e), e[0], n in e, deque(b).pop()
@idiom
def c_list(s, b, n, m):
    l = [n, m, 5]
    l.insert(1, 9)
    l.append(s)
    l.extend(b)
    l.remove(9)
    x = l.pop()
    l2 = l[:]
    l2.reverse()
    del l2[:2]
    return l, x, l2, [n, m, 5].index(5), [n, 5, 5].count(5), l.copy() == l, [[n]] * 2, sorted([[m, 1], [n, 2]]), n in [1, 2], [n] + [m], [n, m] < [3]
@idiom
def c_listkey(s, b, n, m):
    l = [(ord(c), i) for i, c in enumerate(s)]
    l.sort(key=lambda x: (-x[0], x[1]))
    return l, [x for _, x in l]
@idiom
def c_dict(s, b, n, m):
    d = {'a': 1, 'b': n}
    d.update(c=m)
    d |= {'q': s}
    k = s[:1]
    return d.get(k), k in d, list(d.items()), {v: q for q, v in d.items() if v != s and v != n and v != m}, d | {'z': 1}, d.pop(k, 'none'), sorted(d, reverse=True), dict(zip('ab', b)), dict(a=n), {**d, 'a': m}.get('a'), len(d)
@idiom
def c_dict2(s, b, n, m):
    d = {}
    d[n] = 'n'
    d[m] = 'm'
    d[3] = 'c'
    return len(d), d[3], d.get(n), [*d.values()], 3 in d
@idiom
def c_dict3(s, b, n, m):
    d = dict.fromkeys(b, 0)
    for x in b:
        d[x] += 1
    return [d[x] for x in b], max(d.values()), {k: v for k, v in d.items() if v > 1} != {}
@idiom
def c_keyerr(s, b, n, m):
    try:
        return {1: 'x', 2: 'y'}[n]
    except KeyError as e:
        return 'KE', e.args[0]
@idiom
def c_ctx(s, b, n, m):
    @contextlib.contextmanager
    def cm():
        r.append('in')
        try:
            yield n
        finally:
            r.append('out')
    r = []
    with cm() as x, contextlib.suppress(ValueError):
        if x > 3:
            raise ValueError(s)
        r.append(x)
    return r
@idiom
def c_exc(s, b, n, m):
    try:
        if n > 5: raise ValueError(f'bad {n}')
        if n > 3: raise KeyError(s)
        assert n != 1, 'one'
    except ValueError as e:
        return str(e), e.args
    except (KeyError, AssertionError) as e:
        return type(e).__name__
    else:
        return 'ok'
    finally:
        m += 1
@idiom
def c_copy(s, b, n, m): return copy.copy([n, s]), copy.deepcopy({'a': [n]}), copy.copy(Pt(n)).x
@idiom
def c_heap(s, b, n, m):
    h = [n, m, 4]
    heapq.heapify(h)
    return heapq.heappop(h), heapq.nsmallest(2, [n, m, 4])
@idiom
def c_chainmap(s, b, n, m): return collections.ChainMap({'a': n}, {'a': m, 'b': s})['b'], OrderedDict(a=n, b=m).popitem(last=False)
@idiom
def c_super(s, b, n, m):
    class A:
        k = 2
        def f(self, x): return x + self.k
    class B(A):
        k = 3
        def f(self, x): return super().f(x) * 2
        @property
        def p(self): return n
        @staticmethod
        def st(x): return x - 1
        @classmethod
        def cl(cls, x): return cls.k + x
    return B().f(n), B().p, B.st(m), B.cl(m), A.f(B(), n)
@idiom
def c_ternchain(s, b, n, m):
    return ('a' if n < 2 else 'b' if n < 5 else 'c'), ['x', 'y'][n > m], (n > m and 'gt') or (n == m and 'eq') or 'lt', bool(n) ^ bool(m), (n > 3) & (m > 3), (n > 3) | (m < 2), not (n > 3)
@idiom
def c_cmpchain(s, b, n, m): return 1 < n <= 5 < m, n != m != 3, 'a' <= s < 'c', (n, m) == (1, 2), (n, s) >= (2, 'a'), n in (1, 5) or m not in [3]
@idiom
def c_nested(s, b, n, m):
    return [[x + y for y in b] for x in (n, m)], {(i, j) for i in range(2) for j in range(2) if i != j} == {(0, 1), (1, 0)}, [c for c in s for _ in range(2)], [*map(lambda a, c: a + c, b, b[1:])], {i: [j for j in range(i)] for i in range(n % 3)}
@idiom
def c_sumlen(s, b, n, m): return sum(len(x) for x in (s, b, 'abc')), sum(x == 0 for x in b), sum([[n], [m]], []), len([c for c in s if c == 'a']), max(map(len, [s, 'ab'])), math.fsum([n, 1]) if False else 0
@idiom
def c_bool_is(s, b, n, m):
    f = n > 3
    g = f is True
    h2 = f is not False
    return g, h2, f == True, f is False, bool(f), int(f), f'{f}', str(f), [f].count(True), {True: 1, False: 0}[f], f + 1, -f


@idiom
def c_sortlocal(s, b, n, m):
    l = [n, m, 7]
    q = l
    l.sort()
    k = [n, 9, m]
    k.sort(key=lambda x: -x, reverse=True)
    z = [(x, i) for i, x in enumerate(b)]
    z.sort(key=lambda x: x[0])
    z[0] = (0, 0)
    return q, l is q, k[:1], k, z, len(z)


def run(h, name, k=3, kb=3):
    n = h.int('n', 0, 20)
    m = h.int('m', 0, 300)
    ls = h.concrete(h.int('len', 0, k)) if name[0] in 'srcn' else 1
    if name[0] in 'nb':
        ls = min(ls, 1)
    s = h.str('s', ls, DOM)
    b = h.bytes('b', kb, BDOM)
    try:
        r = F[name](s, b, n, m)
        h.observe('r', list(r) if isinstance(r, tuple) else r)
    except (ValueError, LookupError, TypeError, ArithmeticError, AttributeError) as e:
        h.observe('e', type(e).__name__)
    h.check(True, 'x')
