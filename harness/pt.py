"""Harness cases of the pytermor properties (P01 - P12): the functions of the bundled library over symbolic values."""
from spec import model as M


def preload():
    import pytermor
    import pytermor.color
    import pytermor.render
    import pytermor.util
    import kolombos.app
    import logging
    logging.disable(logging.CRITICAL)


# constant surroundings of symbolic text
CTX = {'seqs': ('\x1b[1;31ma ' * 12 + '\x1b[' + '38;2;100;200;250;' * 4 + '1mz', '\x1b[2J\n' * 3 + '\x1b[' + '1:2;' * 12 + 'q' + 'b\x1b[m' * 12),
       'inseq': ('a\x1b[1m \x1b[' + '1;' * 20, '5m' + 'b\x1b[2mc' * 3), 'text': ('ab c\n' * 9, '\r\nde' * 9), 'wide': ('x ' * 200, 'y' * 200)}


def ctx(s, c):
    return CTX[c][0] + s + CTX[c][1] if c else s


def one(h, name, items):
    return items[h.concrete(h.int(name, 0, len(items) - 1))]


def flag(h, name):
    return h.concrete(h.int(name, 0, 1)) == 1


# ------------------------------------------------------------------------------------------------ P01
GROUP_ON = {1: 'intensity', 2: 'intensity', 3: 'italic', 4: 'underline', 21: 'underline', 5: 'blink', 6: 'blink',
            7: 'inverse', 8: 'hidden', 9: 'cross', 53: 'overline'}
GROUP_OFF = {22: 'intensity', 23: 'italic', 24: 'underline', 25: 'blink', 27: 'inverse', 28: 'hidden', 29: 'cross',
             55: 'overline', 39: 'fg', 49: 'bg'}
for _c in list(range(30, 38)) + list(range(90, 98)):
    GROUP_ON[_c] = 'fg'
for _c in list(range(40, 48)) + list(range(100, 108)):
    GROUP_ON[_c] = 'bg'
GROUPS = ['intensity', 'italic', 'underline', 'blink', 'inverse', 'hidden', 'cross', 'overline', 'fg', 'bg']
GSIG = sorted(set(GROUP_ON) | set(GROUP_OFF) | {0, 38, 48})


def gmeaning(h, p):
    """concrete parameter with the same meaning (None: none)"""
    if type(p) is int:
        return p
    for v in GSIG:
        if h.force(p == v):
            return v
    return None


def gapply(h, st, params):
    """(state, groups set); st: group -> anything, absent: default.  None if an extended color is incomplete"""
    st, was_set = dict(st), set()
    i = 0
    params = params or [0]
    while i < len(params):
        p = gmeaning(h, params[i])
        i += 1
        if p == 0:
            st = {}
        elif p in (38, 48):
            g = 'fg' if p == 38 else 'bg'
            if i >= len(params):
                return None
            m = params[i]
            n = 1 if h.force(m == 5) else 3 if h.force(m == 2) else 0
            if n == 0 or i + n >= len(params):
                return None
            st[g] = 'ext'
            was_set.add(g)
            i += 1 + n
        elif p in GROUP_ON:
            st[GROUP_ON[p]] = p
            was_set.add(GROUP_ON[p])
        elif p in GROUP_OFF:
            st.pop(GROUP_OFF[p], None)
    return st, was_set


def _span_check(h, span, params, msg):
    """params: the parameters the opening has to have"""
    o = list(span.opening_seq.params)
    h.check(h.all([len(o) == len(params)] + [x == y for x, y in zip(o, params)]), msg + ': the opening sequence has other parameters')
    before = {g: 'before' for g in GROUPS}
    r = gapply(h, before, params) if params else (before, set())
    if r is None:
        h.drop()
    opened, was_set = r
    c = list(span.closing_seq.params)
    r2 = gapply(h, opened, c) if c else (opened, set())
    h.check(r2 is not None and not r2[1], msg + ': the closing sequence sets something')
    if r2 is None:
        return
    after = r2[0]
    for g in GROUPS:
        if g in was_set:
            h.check(g not in after, msg + f': {g} is not restored')
        else:
            h.check(after.get(g) == opened.get(g), msg + f': {g} is changed by closing')
    # printed form
    out = span.wrap('x')
    codes = h.codes(out)
    exp = h.codes(span.opening_seq.assemble()) + [120] + h.codes(span.closing_seq.assemble())
    h.check(h.eq(codes, exp), msg + ': printed text is not opening + text + closing')
    h.check(h.eq(h.codes(span('x')), exp), msg + ': call and wrap() differ')
    h.observe('out', out)


def p01(h, items):
    """items: 'free' (any of 0..110), 'byte' (0..255) or a menu list (of numbers or 'free')"""
    from pytermor import Span
    params = []
    for i, it in enumerate(items):
        if type(it) is list:
            it = one(h, f'm{i}', it)
        if it == 'free':
            it = h.int(f'p{i}', 0, 110)
        elif it == 'byte':
            it = h.int(f'p{i}', 0, 255)
        if it is None:
            continue
        params.append(it)
    span = Span(*params)
    _span_check(h, span, params, 'P01')


def p01names(h, n):
    """openings built from names, sequences, and numbers mixed"""
    from pytermor import Span, Seqs, IntCodes, SequenceSGR
    names = [x for x in dir(IntCodes) if x.isupper() and type(getattr(IntCodes, x)) is int]
    args, params = [], []
    for i in range(n):
        k = one(h, f'k{i}', ['name', 'lower', 'seq', 'two', 'idx', 'rgb'])
        if k in ('name', 'lower'):
            x = one(h, f'n{i}', names if i == 0 else names[::9])
            args.append(x if k == 'name' else x.lower())
            params.append(getattr(IntCodes, x))
        elif k == 'seq':
            v = h.int(f's{i}', 0, 110)
            args.append(SequenceSGR(v))
            params.append(v)
        elif k == 'two':
            args.append(Seqs.BOLD + Seqs.BG_RED)
            params += [1, 41]
        elif k == 'idx':
            c = h.int(f'c{i}', 0, 255)
            bg = flag(h, f'b{i}')
            args.append(SequenceSGR.init_color_indexed(c, bg))
            params += [48 if bg else 38, 5, c]
        else:
            r, g, b = [h.int(f'{x}{i}', 0, 255) for x in 'rgB']
            bg = flag(h, f'b{i}')
            args.append(SequenceSGR.init_color_rgb(r, g, b, bg=bg))
            params += [48 if bg else 38, 2, r, g, b]
    _span_check(h, Span(*args), params, 'P01')


def p01presets(h):
    from pytermor import Spans, Seqs, IntCodes
    names = [x for x in dir(Spans) if x.isupper()]
    x = one(h, 'name', names)
    s = getattr(Spans, x)
    _span_check(h, s, [getattr(IntCodes, x)], 'P01 preset')
    h.check(getattr(Seqs, x).params == [getattr(IntCodes, x)], 'P01: sequence preset has another code')


def p01explicit(h):
    from pytermor import Span, SequenceSGR
    a = None if flag(h, 'na') else SequenceSGR(h.int('a', 0, 110))
    b = None if flag(h, 'nb') else SequenceSGR(h.int('b', 0, 110), h.int('b2', 0, 110))
    hard = flag(h, 'hard')
    s = Span.init_explicit(a, b, hard)
    h.check(h.all([len(s.opening_seq.params) == (0 if a is None else 1)] + ([] if a is None else [s.opening_seq == a])),
            'P01: explicit opening is not kept')
    if hard:
        h.check(s.closing_seq.params == [0], 'P01: hard reset is not there')
    else:
        h.check(h.all([len(s.closing_seq.params) == (0 if b is None else 2)] + ([] if b is None else [s.closing_seq == b])),
                'P01: explicit closing is not kept')
    e = Span()
    h.check(e.wrap('t') == 't' and e.wrap() == '', 'P01: an empty span changes the text')


# ------------------------------------------------------------------------------------------------ P02
def _params(h, name, n, hi):
    return [h.int(f'{name}{i}', 0, hi) for i in range(n)]


def _parse_sgr(h, codes):
    """parameters of an assembled sequence or None"""
    if len(codes) < 3 or not h.force(h.all([codes[0] == 27, codes[1] == 91, codes[-1] == 109])):
        return None
    out, cur, some = [], 0, False
    for c in codes[2:-1]:
        if h.force(c == 59):
            if not some:
                return None
            out.append(cur)
            cur, some = 0, False
        elif h.in_ranges(c, ((48, 57),)):
            cur = cur * 10 + (c - 48)
            some = True
        else:
            return None
    if some:
        out.append(cur)
    elif len(codes) > 3:
        return None
    return out


def same(h, a, b):
    return h.all([len(a) == len(b)] + [x == y for x, y in zip(a, b)])


def p02(h, n, hi=999):
    """assembling and parsing back"""
    from pytermor import SequenceSGR
    ps = _params(h, 'p', n, hi)
    s = SequenceSGR(*ps)
    h.check(same(h, s.params, ps), 'P02: parameters are not kept')
    a = s.assemble()
    h.observe('a', a)
    codes = h.codes(a)
    h.check(h.eq(h.codes(str(s)), codes), 'P02: str() differs from assemble()')
    if n == 0:
        h.check(len(codes) == 0, 'P02: empty sequence is not empty')
        return
    got = _parse_sgr(h, codes)
    if got is None:
        h.check(False, 'P02: not an SGR sequence')
        return
    if got == [] and n == 1:
        h.check(ps[0] == 0, 'P02: omitted a parameter that is not zero')
        return
    h.check(same(h, got, ps), 'P02: parsed parameters differ')
    h.check(same(h, s.params, ps), 'P02: assembling changes the parameters')


def p02neg(h):
    from pytermor import SequenceSGR
    v = h.int('v', -50, 50)
    s = SequenceSGR(v)
    h.check(h.any([h.all([v >= 0, s.params[0] == v]), h.all([v < 0, s.params[0] == 0])]), 'P02: negative parameter')


def p02add(h, n, m, hi=200):
    from pytermor import SequenceSGR
    pa, pb = _params(h, 'a', n, hi), _params(h, 'b', m, hi)
    a, b = SequenceSGR(*pa), SequenceSGR(*pb)
    c = a + b
    h.check(same(h, c.params, pa + pb), 'P02: sum has other parameters')
    h.check(same(h, a.params, pa) and same(h, b.params, pb), 'P02: operands of + are changed')
    d = a
    d += b
    h.check(same(h, d.params, pa + pb), 'P02: += has other parameters')
    h.check(same(h, a.params, pa) and same(h, b.params, pb), 'P02: operands of += are changed')
    h.check(same(h, SequenceSGR(a, b).params, pa + pb), 'P02: sequence made of sequences has other parameters')
    e = a.__radd__(b)
    h.check(same(h, e.params, pb + pa), 'P02: reflected sum has other parameters')
    # results are independent of the operands
    c.params.append(7)
    h.check(same(h, a.params, pa) and same(h, b.params, pb), 'P02: the sum shares its parameters with an operand')


def p02mix(h, n):
    """sequences made of numbers, names and sequences in any order; anything else is refused"""
    from pytermor import SequenceSGR, Span, IntCodes
    args, ps, bad, subs = [], [], False, []
    for i in range(n):
        k = one(h, f'k{i}', ['int', 'name', 'seq', 'bad'])
        if k == 'int':
            v = h.int(f'v{i}', 0, 300)
            args.append(v)
            ps.append(v)
        elif k == 'name':
            x = one(h, f'n{i}', ['bold', 'HI_CYAN', 'Bg_Red', 'reset'])
            args.append(x)
            ps.append(getattr(IntCodes, x.upper()))
        elif k == 'seq':
            q = _params(h, f's{i}_', h.concrete(h.int(f'l{i}', 0, 2)), 200)
            a = SequenceSGR(*q)
            subs.append((a, q))
            args.append(a)
            ps += q
        else:
            args.append(one(h, f'b{i}', [None, 1.5, [1], Span(1)]))
            bad = True
    try:
        s = SequenceSGR(*args)
    except TypeError:
        h.check(bad, 'P02: refused arguments which are all numbers, names or sequences')
        return
    h.check(not bad, 'P02: a sequence is made of something else')
    if bad:
        return
    h.check(same(h, s.params, ps), 'P02: sequence made of parts has other parameters')
    for a, q in subs:
        h.check(same(h, a.params, q), 'P02: a part is changed')
    other = one(h, 'o', [None, 1, '1', 'bold', [1], Span(1)])
    for how in range(2):
        try:
            s + other if how == 0 else s.__iadd__(other)
            ok = True
        except TypeError:
            ok = False
        h.check(not ok, 'P02: something else than a sequence is added')
    h.check(same(h, s.params, ps), 'P02: a refused addition changes the sequence')


def p02eq(h, n, m, hi=200):
    from pytermor import SequenceSGR
    pa, pb = _params(h, 'a', n, hi), _params(h, 'b', m, hi)
    a, b = SequenceSGR(*pa), SequenceSGR(*pb)
    e = h.force(a == b)
    h.observe('e', e)
    if e:
        h.check(same(h, pa, pb), 'P02: sequences with different parameters are equal')
        h.check(h.hash(a) == h.hash(b), 'P02: equal sequences have different hashes')
        h.check(h.eq(h.codes(a.assemble()), h.codes(b.assemble())), 'P02: equal sequences are printed differently')
    else:
        h.check(n != m or h.any([x != y for x, y in zip(pa, pb)]), 'P02: sequences with equal parameters differ')
    h.check(not h.force(a != b) if e else h.force(a != b), 'P02: == and != agree')


def p02span(h, n, m, hi=99):
    """equality of spans made of explicit sequences; comparison with other kinds of values"""
    from pytermor import Span, SequenceSGR
    pa, qa, pb, qb = _params(h, 'a', n, hi), _params(h, 'c', m, hi), _params(h, 'b', n, hi), _params(h, 'd', m, hi)
    a = Span.init_explicit(SequenceSGR(*pa), SequenceSGR(*qa))
    b = Span.init_explicit(SequenceSGR(*pb), SequenceSGR(*qb))
    e = h.force(a == b)
    h.observe('e', e)
    if e:
        h.check(same(h, pa, pb) and same(h, qa, qb), 'P02: spans with different sequences are equal')
        h.check(h.eq(h.codes(a('x')), h.codes(b('x'))), 'P02: equal spans are printed differently')
    else:
        h.check(h.any([x != y for x, y in zip(pa + qa, pb + qb)]), 'P02: spans with equal sequences differ')
    h.check(h.force(a != b) == (not e), 'P02: == and != agree')
    s = SequenceSGR(*pa)
    for x, y in ((a, s), (s, a), (s, a.opening_str), (s, list(pa)), (s, None), (a, None), (a, 1), (s, 1)):
        h.check(not h.force(x == y) and h.force(x != y), 'P02: values of different kinds are equal')
    h.check(h.force(a.opening_seq == s) and h.force(a.opening_seq == SequenceSGR(*pa)), 'P02: opening sequence differs from the given one')


# ------------------------------------------------------------------------------------------------ P03
SCH = ((0x1b, 0x1b), (0x5b, 0x5b), (0x30, 0x39), (0x3b, 0x3b), (0x6d, 0x6d), (0x41, 0x41), (0x0a, 0x0a), (0x3a, 0x3a))
SCH_FEW = ((0x1b, 0x1b), (0x5b, 0x5b), (0x31, 0x31), (0x6d, 0x6d), (0x3b, 0x3b), (0x41, 0x41))


def strip_ref(h, codes):
    out, i = [], 0
    while i < len(codes):
        if M.is_esc(h, codes[i]):
            j = M.sgr_end(h, codes, i)
            if j:
                i = j
                continue
        out.append(codes[i])
        i += 1
    return out


def _sstr(h, n, few, words):
    if words:
        W = ['a', '\x1b', '\x1b[', 'm', ';', '\x1b[m', '\x1b[0m', '\x1b[1;31m', '\x1b[;m', '\x1b[2J', '\x1b[1:2m', '9', '\n', 'é']
        s = ''
        for i in range(n):
            s = s + one(h, f'w{i}', W)
        return s
    k = h.concrete(h.int('len', 0, n))
    return h.str('s', k, SCH_FEW if few else SCH)


def p03strip(h, n, few=False, words=False, around=None):
    from pytermor.util import ReplaceSGR, apply_filters
    s = ctx(_sstr(h, n, few, words), around)
    codes = h.codes(s)
    exp = strip_ref(h, codes)
    r = ReplaceSGR().apply(s)
    h.observe('r', r)
    h.check(h.eq(h.codes(r), exp), 'P03: stripped string differs')
    h.check(h.eq(h.codes(apply_filters(s, ReplaceSGR)), exp), 'P03: apply_filters() differs')
    h.check(h.eq(h.codes(ReplaceSGR()(s)), exp), 'P03: call differs')


def p03just(h, n, width, few=False, words=False, fill=None, around=None):
    from pytermor.util import ljust_sgr, rjust_sgr, center_sgr
    s = ctx(_sstr(h, n, few, words), around)
    w = h.int('w', *width)
    f = fill or ' '
    codes = h.codes(s)
    vis = len(strip_ref(h, codes))
    fn = one(h, 'fn', [ljust_sgr, rjust_sgr, center_sgr])
    r = fn(s, w, f) if fill else fn(s, w)
    h.observe('r', r)
    out = h.codes(r)
    extra = len(out) - len(codes)
    h.check(h.any([h.all([w > vis, w - vis == extra]), h.all([w <= vis, extra == 0])]), 'P03: wrong visible length')
    if extra < 0:
        return
    if fn is ljust_sgr:
        left, right = 0, extra
    elif fn is rjust_sgr:
        left, right = extra, 0
    else:
        # odd filling: either side may get one more
        left = right = extra // 2
        if extra % 2:
            fc = ord(f)
            if h.force(h.eq(out[:left + 1 + len(codes)], [fc] * (left + 1) + codes)):
                left += 1
            else:
                right += 1
    fc = ord(f)
    h.check(h.eq(out, [fc] * left + codes + [fc] * right), 'P03: the string is not kept or filled on a wrong side')


# ------------------------------------------------------------------------------------------------ P04
def p04rgb(h):
    from pytermor.color import Color, ColorRGB
    v = h.int('v', 0, 0xffffff)
    r, g, b = Color.hex_value_to_rgb_channels(v)
    h.check(h.all([r == v // 65536, g == v // 256 % 256, b == v % 256]), 'P04: wrong channels')
    h.check(Color.rgb_channels_to_hex_value(r, g, b) == v, 'P04: channels do not join back')
    c = ColorRGB(v)
    h.check(c.hex_value == v, 'P04: value is not kept')
    for bg in (False, True):
        h.check(same(h, c.to_sgr(bg=bg).params, [48 if bg else 38, 2, r, g, b]), 'P04: wrong sequence of an RGB color')
    h.check(same(h, c.to_sgr().params, [38, 2, r, g, b]), 'P04: wrong default sequence of an RGB color')
    h.observe('r', [r, g, b])


def p04join(h):
    from pytermor.color import Color
    r, g, b = [h.int(x, 0, 255) for x in 'rgb']
    v = Color.rgb_channels_to_hex_value(r, g, b)
    h.check(v == r * 65536 + g * 256 + b, 'P04: channels are joined wrong')
    h.check(same(h, Color.hex_value_to_rgb_channels(v), [r, g, b]), 'P04: joined value does not split back')


def p04fmt(h):
    from pytermor.color import ColorRGB, ColorIndexed16, ColorIndexed256
    r, g, b = [h.int(x, 0, 255) for x in 'rgb']
    v = r * 65536 + g * 256 + b
    cls = one(h, 'cls', [ColorRGB, ColorIndexed16, ColorIndexed256])
    c = cls(v)
    pfx, lbl = one(h, 'pfx', [('0x', None), ('', ''), ('#', '#'), ('', 'none')])
    s = c.format_value() if lbl is None else c.format_value(None if lbl == 'none' else lbl)
    h.observe('s', s)
    h.check(h.eq(h.codes(s), [ord(x) for x in pfx] + h.hex2(r) + h.hex2(g) + h.hex2(b)), 'P04: wrong hex digits')
    n = cls(None) if cls is ColorRGB else cls()
    h.check(n.format_value() == '~', 'P04: label of an empty color')
    h.check(n.to_sgr(False).params == [] and n.to_sgr(True).params == [], 'P04: sequence of an empty color')


def p04idx(h):
    from pytermor.color import ColorIndexed16, ColorIndexed256, Colors
    k = one(h, 'k', ['new256', 'reg256', 'reg16', 'new16'])
    bg = flag(h, 'bg')
    if k == 'new256':
        code = h.int('code', 0, 255)
        c = ColorIndexed256(one(h, 'v', [0, 0x123456, 0xff0000, 0xffffff]), code)
        h.check(same(h, c.to_sgr(bg=bg).params, [48 if bg else 38, 5, code]), 'P04: wrong sequence of a 256-color')
    elif k == 'reg256':
        code = h.concrete(h.int('code', 0, 255))
        c = ColorIndexed256._code_map.get(code)
        if c is None:
            h.drop()
        h.check(same(h, c.to_sgr(bg=bg).params, [48 if bg else 38, 5, code]), 'P04: wrong sequence of a registered 256-color')
        if code >= 232:
            x = 8 + (code - 232) * 10
            h.check(c.hex_value == x * 65793, 'P04: wrong value of a gray color')
        elif code >= 16:
            n = code - 16
            ch = [0 if q == 0 else 55 + 40 * q for q in (n // 36, n // 6 % 6, n % 6)]
            h.check(c.hex_value == ch[0] * 65536 + ch[1] * 256 + ch[2], 'P04: wrong value of a 256-color')
    elif k == 'new16':
        f, b = h.int('f', 30, 97), h.int('b', 40, 107)
        c = ColorIndexed16(one(h, 'v', [0, 0x123456, 0xff0000, 0xffffff]), f, b)
        h.check(same(h, c.to_sgr(bg=bg).params, [b if bg else f]), 'P04: wrong sequence of a 16-color')
    else:
        names = 'BLACK RED GREEN YELLOW BLUE MAGENTA CYAN WHITE GREY HI_RED HI_GREEN HI_YELLOW HI_BLUE HI_MAGENTA HI_CYAN HI_WHITE'.split()
        i = h.concrete(h.int('i', 0, 15))
        c = getattr(Colors, names[i])
        code = (30 + i if i < 8 else 82 + i) + (10 if bg else 0)
        h.check(isinstance(c, ColorIndexed16) and c.to_sgr(bg=bg).params == [code], 'P04: wrong sequence of a registered 16-color')


def p04ext(h, rgb):
    """palette indexes and channels are 0-255, anything else is refused"""
    from pytermor import SequenceSGR
    vs = [h.int(x, -300, 100000) for x in ('rgb' if rgb else 'i')]
    bg = flag(h, 'bg')
    style = h.concrete(h.int('how', 0, 1))
    fn = SequenceSGR.init_color_rgb if rgb else SequenceSGR.init_color_indexed
    valid = h.all([h.all([v >= 0, v <= 255]) for v in vs])
    try:
        s = fn(*vs, bg) if style else fn(*vs, bg=bg) if bg else fn(*vs)
    except ValueError:
        h.check(h.force(valid) is False, 'P04: a valid color is refused')
        return
    h.check(valid, 'P04: a value out of 0-255 is accepted')
    h.check(same(h, s.params, [48 if bg else 38, 2 if rgb else 5] + vs), 'P04: the sequence has other parameters')


def p04eq(h):
    """two colors are equal exactly if they are of the same kind, value and code(s)"""
    from pytermor.color import ColorIndexed16, ColorIndexed256, ColorRGB
    cs, ks = [], []
    for i in 'ab':
        k = one(h, 'k' + i, ['16', '256', 'rgb'])
        v = h.int('v' + i, 0x4000, 0x4003)
        if k == '16':
            x = [v, h.int('f' + i, 30, 32), h.int('g' + i, 40, 42)]
            cs.append(ColorIndexed16(*x))
        elif k == '256':
            x = [v, h.int('c' + i, 16, 18)]
            cs.append(ColorIndexed256(*x))
        else:
            x = [v]
            cs.append(ColorRGB(v))
        ks.append((k, x))
    e = h.force(cs[0] == cs[1])
    h.observe('e', e)
    if e:
        h.check(ks[0][0] == ks[1][0] and same(h, ks[0][1], ks[1][1]), 'P04: different colors are equal')
        for bg in (False, True):
            h.check(same(h, cs[0].to_sgr(bg=bg).params, cs[1].to_sgr(bg=bg).params), 'P04: equal colors have different sequences')
    else:
        h.check(ks[0][0] != ks[1][0] or h.any([p != q for p, q in zip(ks[0][1], ks[1][1])]), 'P04: equal colors differ')
    h.check(h.force(cs[0] != cs[1]) == (not e), 'P04: == and != agree')
    for c in cs:
        h.check(c == c and not c == None and not c == 'x' and not c == 0x4000, 'P04: a color equals a value of another kind')


def p04hsv(h):
    from pytermor.color import Color
    r, g, b = [h.int(x, 0, 255) for x in 'rgb']
    hue, s, v = Color.hex_value_to_hsv_channels(r * 65536 + g * 256 + b)
    mx = r if h.force(h.all([r >= g, r >= b])) else g if h.force(g >= b) else b
    mn = r if h.force(h.all([r <= g, r <= b])) else g if h.force(g <= b) else b
    c = mx - mn
    if h.force(c == 0):
        eh, es = 0, 0
    else:
        if mx is r:
            eh = h.div(60 * (g - b), c)
            if h.force(g < b):
                eh = eh + 360
        elif mx is g:
            eh = 120 + h.div(60 * (b - r), c)
        else:
            eh = 240 + h.div(60 * (r - g), c)
        es = h.div(c, mx)
    h.check(h.close(hue, eh), 'P04: wrong hue')
    h.check(h.close(s, es), 'P04: wrong saturation')
    h.check(h.close(v, h.div(mx, 255)), 'P04: wrong value channel')
    h.check(h.all([hue >= 0, hue < 360]), 'P04: hue is out of range')
    h.check(h.all([s >= 0, s <= 1, v >= 0, v <= 1]), 'P04: saturation or value is out of range')


# ------------------------------------------------------------------------------------------------ P05
def _chan(v):
    return v // 65536, v // 256 % 256, v % 256


def dist(h, a, b):
    (x, y, z), (u, v, w) = a, b
    return (x - u) * (x - u) + (y - v) * (y - v) + (z - w) * (z - w)


def rgbsym(h, name):
    """symbolic color as (value, channels): small channel terms make the distance polynomial"""
    ch = [h.int(f'{name}{x}', 0, 255) for x in 'rgb']
    return ch[0] * 65536 + ch[1] * 256 + ch[2], tuple(ch)


def _closest_check(h, found, palette, q, qc, msg):
    """palette: list of (value, channels) registered"""
    fv = found.hex_value
    if fv is None:
        h.check(False, msg + ': not a palette color')
        return
    h.check(h.any([fv == v for v, _ in palette]), msg + ': not a palette color')
    fc = None
    for v, c in palette:
        if v is fv or (type(v) is int and type(fv) is int and v == fv):
            fc = c
    if fc is None:
        fc = _chan(fv)
    h.check(h.nearest(fc, [c for _, c in palette], qc), msg + ': a closer color is registered')


def p05real(h, cls, hist=0):
    """real palettes; hist: concrete earlier searches"""
    from pytermor import color as C
    k = getattr(C, cls)
    pal = [(v, _chan(v)) for v in dict(k._approximator._lookup_table)]
    for i in range(hist):
        q, qc = rgbsym(h, f'e{i}')
        k.find_closest(q)
    q, qc = rgbsym(h, 'q')
    f = k.find_closest(q)
    h.observe('f', f.hex_value)
    _closest_check(h, f, pal, q, qc, 'P05')
    h.check(isinstance(f, k), 'P05: color of another type')


MENU = [0x404040, 0xff0000, 0xc08020, 0xfefefe, 0x0000fe]
PAL = [0x000000, 0xff0000, 0x00ff80, 0x808080, 0xffffff, 0x0000ff, 0x404040, 0xc0c0c0, 0x808000, 0x008080, 0x202020]


def p05hist(h, steps, npal, dup=False, pre=0):
    """fresh palette, symbolic history: 'f' search of any color, 'a' registration of any color, '?' either"""
    from pytermor.color import _ColorIndexed, ColorIndexed16, Approximator

    class Fresh(ColorIndexed16):
        _approximator = None
    pal = []
    for v in PAL[:npal]:
        Fresh(v, 31, 41)
        pal.append((v, _chan(v)))
    for i in range(pre):   # a long history of searches of given colors
        v = (i * 0x35c7b + 0x1001) & 0xffffff
        g, q = Fresh.find_closest(v).hex_value, _chan(v)
        d = {x: sum((a - b) ** 2 for a, b in zip(c, q)) for x, c in pal}
        if d.get(g, -1) != min(d.values()) or v in d and g != v:
            h.check(False, 'P05 (earlier search): not the closest color')
    for i, st in enumerate(steps):
        if st == '?':
            st = 'fA'[h.concrete(h.int(f's{i}', 0, 1))]
        if st in 'FA':
            v = one(h, f'm{i}', MENU)
            c = _chan(v)
            st = st.lower()
        else:
            v, c = rgbsym(h, f'c{i}')
        if st == 'a':
            Fresh(v, 32, 42)
            pal.append((v, c))
        elif st == 'n':
            Fresh()
        else:
            if not pal and Fresh._approximator is None:
                h.drop()
            f = Fresh.find_closest(v)
            h.observe(f'f{i}', f.hex_value)
            if not pal:
                h.check(f.hex_value is None, 'P05: a color out of an empty palette')
                continue
            _closest_check(h, f, pal, v, c, f'P05 (search {i})')


def p05approx(h, npal, k, grey=False):
    """approximate() returns the k closest in order of distance"""
    from pytermor.color import Approximator, ColorRGB
    a = Approximator()
    pal = PAL[:npal]
    for v in pal:
        a.add_to_map(ColorRGB(v))
    if grey:
        v = h.int('q', 0, 255)
        q, qc = v * 0x10101, (v, v, v)
    else:
        q, qc = rgbsym(h, 'q')
    r = a.approximate(q, k)
    h.check(len(r) == min(k, npal), 'P05: wrong amount of results')
    got = [x.hex_value for x in r]
    h.observe('got', got)
    rest = list(pal)
    for g in got:
        h.check(g in rest, 'P05: result is not a palette color or is repeated')
        h.check(h.nearest(_chan(g), [_chan(x) for x in rest], qc), 'P05: results are not sorted by distance')
        if g in rest:
            rest.remove(g)


# ------------------------------------------------------------------------------------------------ P06
def fixed_ref(h, num, den, decs):
    """digits of |num/den| (num >= 0) with the given number of decimals, rounded half to even: list of codes"""
    n = num * 10 ** decs
    q = n // den
    r2 = (n - q * den) * 2
    up = h.force(r2 > den) or (h.force(r2 == den) and h.force(q % 2 == 1))
    if up:
        q = q + 1
    ip, fp = q // 10 ** decs, q % 10 ** decs
    s = h.dec(ip)
    if decs:
        f = h.fmt(fp, f'0{decs}d')
        s = s + [46] + f
    return s


def number(h, name, den, lo, hi):
    return h.int(name, lo, hi)


def p06(h, L, den, lo, hi, exp=None, via=None):
    """value n/den, lo <= n <= hi"""
    from pytermor.util import format_auto_float
    n = h.int('n', lo, hi)
    allow = exp if exp is not None else flag(h, 'exp')
    x = h.rat(n, den) if den > 1 else n
    neg = h.force(n < 0)
    raised = False
    try:
        r = format_auto_float(x, L) if allow and flag(h, 'dflt') else format_auto_float(x, L, allow)
    except ValueError:
        raised = True
        r = ''
    a = -n if neg else n
    W = L - (1 if neg else 0)
    big = h.force(a >= den * 10 ** W) if W >= 0 else True
    if raised:
        h.observe('raised', True)
        # rounding cannot help: the integer part is too long
        h.check(not allow and big, 'P06: ValueError for a number that fits')
        return
    codes = h.codes(r)
    h.check(len(codes) == L, 'P06: wrong length')
    if len(codes) != L:
        h.observe('r', r)
        return
    h.observe('len', len(r))
    i = 0
    while i < len(codes) and h.force(codes[i] == 32):
        i += 1
    got = codes[i:]
    if W == 0:
        h.check(h.eq(codes, [33]), 'P06: there is no place for anything but an overflow mark')
        return
    if not allow:
        h.check(not big, 'P06: a number that does not fit is shown')
    if big or (allow and h.force(a * 100 < den) and W > 1 and h.force(a > 0)):
        p06_exp(h, got, a, den, W, neg)
        return
    h.observe('r', r)
    h.check(h.eq(got, p06_ref(h, a, den, W, neg)), 'P06: wrong value')


def p06_exp(h, got, a, den, W, neg):
    """scientific notation: [-]D[.D]eN, [-]eN or overflow marks"""
    e = 0
    while h.force(a >= den * 10 ** (e + 1)):
        e += 1
    while e <= 0 and h.force(a * 10 ** -e < den):
        e -= 1
    ev = [ord(c) for c in 'e%d' % e]
    if len(ev) > W:
        h.check(h.eq(got, [33] * (W + (1 if neg else 0))), 'P06: no overflow marks where the exponent does not fit')
        return
    if neg:
        h.check(got[:1] == [45], 'P06: sign is lost')
        got = got[1:]
    h.check(h.eq(got[-len(ev):], ev), 'P06: wrong exponent')
    num = got[:-len(ev)]
    room = W - len(ev)
    if room == 0:
        h.check(not num, 'P06: exponent only')
        return
    q = parse_num(h, num)
    if q is None or q[0]:
        h.check(False, 'P06: malformed significand')
        return
    _, d, nd, dec = q
    # 9.96 may become 10
    carry = h.force(d == 10 ** (dec + 1))
    h.check(nd - dec == (2 if carry else 1), 'P06: significand is not a single digit with decimals')
    h.check(carry or dec == (0 if room < 3 else room - 2) , 'P06: less digits than could be shown')
    # |d/10^dec * 10^e - a/den| < 10^(e - dec)
    k = e - dec
    A, B, ulp = d * den, a, den
    if k >= 0:
        A, ulp = A * 10 ** k, ulp * 10 ** k
    else:
        B = B * 10 ** -k
    h.check(h.all([A - B < ulp, B - A < ulp]), 'P06: wrong significand')


def p06_ref(h, a, den, W, neg):
    sign = [45] if neg else []
    if h.force(a == 0):
        return sign + [48]
    if W == 1 and h.force(a < den):
        return sign + [48]
    for d in range(max(W - 2, 0), -1, -1):
        s = fixed_ref(h, a, den, d)
        if len(s) <= W:
            return sign + s
    return sign + h.dec(a // den)


# ------------------------------------------------------------------------------------------------ P07
PREFIX = {'y': -8, 'z': -7, 'a': -6, 'f': -5, 'p': -4, 'n': -3, 'μ': -2, 'm': -1, '': 0, 'k': 1, 'M': 2, 'G': 3, 'T': 4,
          'P': 5, 'E': 6, 'Z': 7, 'Y': 8}
PREFIX_B = {'': 0, 'k': 1, 'M': 2, 'G': 3, 'T': 4, 'P': 5, 'E': 6, 'Z': 7, 'Y': 8}


def parse_num(h, codes):
    """(negative, integer of all digits, digits, decimals) or None"""
    neg = False
    if codes and h.force(codes[0] == 45):
        neg, codes = True, codes[1:]
    v, nd, dec, point = 0, 0, 0, False
    for c in codes:
        if h.force(c == 46):
            if point:
                return None
            point = True
        elif h.in_ranges(c, ((48, 57),)):
            v = v * 10 + (c - 48)
            nd += 1
            if point:
                dec += 1
        else:
            return None
    if nd == 0:
        return None
    return neg, v, nd, dec


def p07(h, kind, den, mul, lo, hi, unit='m'):
    """value n * mul / den"""
    from pytermor.util import format_si_metric, format_si_binary
    n = h.int('n', lo, hi)
    metric = kind == 'metric'
    fn = format_si_metric if metric else format_si_binary
    base, maxlen = (1000, 4) if metric else (1024, 5)
    pref = PREFIX if metric else PREFIX_B
    v = n * mul
    x = h.rat(v, den) if den > 1 else v
    r = fn(x, unit) if unit is not None else fn(x)
    u = unit if unit is not None else ('m' if metric else 'b')
    codes = h.codes(r)
    h.observe('len', len(codes))
    # number, space, prefix + unit
    sp = None
    for i, c in enumerate(codes):
        if h.force(c == 32):
            sp = i
            break
    if sp is None:
        h.check(False, 'P07: no separator')
        return
    num = codes[:sp]
    tail = h.mkstr(codes[sp + 1:])
    p = None
    for k in pref:
        if h.force(tail == k + u):
            p = pref[k]
            break
    if p is None:
        h.check(False, 'P07: unknown prefix or unit')
        return
    h.check(1 <= len(num) <= maxlen, 'P07: number is too long')
    q = parse_num(h, num)
    if q is None:
        h.check(False, 'P07: not a number')
        return
    neg, d, nd, dec = q
    sg = -d if neg else d
    h.check(h.implies(n < 0, h.any([neg, d == 0])) if not neg else n < 0, 'P07: wrong sign')
    # |sg / 10^dec * base^p - v/den| <= half of the last digit (truncation of bytes: less than one)
    A = sg * den
    B = v * 10 ** dec
    if p >= 0:
        A = A * base ** p
        ulp = den * base ** p
    else:
        B = B * base ** -p
        ulp = den
    diff = A - B
    if not metric and p == 0:
        ok = h.all([diff < ulp, -diff < ulp, h.any([h.all([n >= 0, diff <= 0]), h.all([n <= 0, diff >= 0])])])
    else:
        # the division by the base is done in floating point: allow for a relative error of 1e-9 at ties
        ok = h.all([2 * 10 ** 9 * diff <= (10 ** 9 + 1) * ulp, -2 * 10 ** 9 * diff <= (10 ** 9 + 1) * ulp])
        if not dec and nd == maxlen - (1 if neg else 0):
            # rounding which would need one more digit is replaced by truncation
            sd = -diff if not neg else diff
            ok = h.any([ok, h.all([sd >= 0, sd < ulp, d == 10 ** nd - 1])])
    h.check(ok, 'P07: shown amount differs from the value')
    a = -v if h.force(v < 0) else v
    if h.force(a >= den):
        h.check(p >= 0, 'P07: fractional prefix for a value of 1 and more')
        # the number is within [1; base] in the shown unit
        h.check(h.any([p == 0, d >= 10 ** dec]), 'P07: number below 1 is shown')
    elif metric and h.force(a > 0):
        h.check(p < 0, 'P07: no fractional prefix for a value below 1')
    h.check(d <= base * 10 ** dec, 'P07: number exceeds the base')
    if metric and h.force(a > 0):
        # digits: as many as fit
        ints = nd - dec
        h.check(nd >= (1 if neg else 2) or (ints == 1 and dec == 0 and neg), 'P07: too few digits')
        room = maxlen - (1 if neg else 0)
        if dec == 0:
            h.check(ints + 2 > room, 'P07: less digits than could be shown')
        else:
            h.check(ints + 1 + dec == room, 'P07: less digits than could be shown')
    elif not metric and p > 0:
        room = maxlen - (1 if neg else 0)
        ints = nd - dec
        h.check(ints + 1 + dec == room if dec else ints + 2 > room, 'P07: less digits than could be shown')


# ------------------------------------------------------------------------------------------------ P08
UNITS = {
    3: [('s', 1), ('m', 60), ('h', 3600), ('d', 86400)],
    4: [('s', 1), ('m', 60), ('h', 3600), ('d', 86400), ('M', 2592000), ('y', 31104000)],
    6: [('sec', 1), ('min', 60), ('hr', 3600), ('day', 86400), ('mon', 2592000), ('yr', 31104000)],
    10: [('sec', 1), ('min', 60), ('hour', 3600), ('day', 86400), ('month', 2592000), ('year', 31104000)],
}
LIMIT = {3: 100 * 86400, 4: 100 * 31104000, 6: 100 * 31104000, 10: 1000 * 31104000}
OVER = {3: 'ERR', 4: 'ERRO', 6: 'OVERFL', 10: 'OVERFLOW'}


def p08(h, maxlen, lo, hi, den=1):
    from pytermor.util import format_time_delta
    L = maxlen if maxlen is not None else 10
    key = max(k for k in UNITS if k <= L)
    n = h.int('n', lo, hi)
    x = h.rat(n, den) if den > 1 else n
    r = format_time_delta(x, maxlen) if maxlen is not None else format_time_delta(x)
    h.observe('r', r)
    codes = h.codes(r)
    h.check(len(codes) <= L, 'P08: result is too long')
    neg = h.force(n < 0)
    a = -n if neg else n
    if h.force(a >= LIMIT[key] * den):
        # the next whole unit is not shown any more
        h.check(r == OVER[key], 'P08: no overflow mark')
        return
    if h.force(r == OVER[key]):
        h.check(False, 'P08: overflow mark for a value that fits')
        return
    units = UNITS[key]
    if h.force(a < den):
        # less than a second
        exp = None
        if neg and key == 10:
            exp = ['~0 secs']
        elif h.force(a * 1000 <= den):
            exp = {3: ['0s'], 4: ['0 s'], 6: ['0 sec'], 10: ['0 secs']}[key]
        else:
            exp = {3: ['<1s'], 4: ['<1 s'], 6: ['<1 sec'], 10: ['<1 sec']}[key]
        h.check(h.any([h.eq(codes, [ord(c) for c in e]) for e in exp]), 'P08: wrong text for less than a second')
        return
    # [-]N unit | [-]N u M v
    i = 0
    if h.force(codes[0] == 45):
        h.check(neg and key == 10, 'P08: unexpected minus sign')
        i = 1
    else:
        h.check(not (neg and key == 10), 'P08: minus sign is lost')
    parts = []
    while i < len(codes):
        v, nd = 0, 0
        while i < len(codes) and h.in_ranges(codes[i], ((48, 57),)):
            v = v * 10 + (codes[i] - 48)
            i += 1
            nd += 1
        if nd == 0:
            h.check(False, 'P08: number expected')
            return
        if i < len(codes) and h.force(codes[i] == 32):
            i += 1
        name = ''
        while i < len(codes) and h.in_ranges(codes[i], ((65, 90), (97, 122))):
            name += chr(h.concrete(codes[i]))
            i += 1
        if i < len(codes) and h.force(codes[i] == 32):
            i += 1
        parts.append((v, nd, name))
    if not 1 <= len(parts) <= 2:
        h.check(False, 'P08: one or two units expected')
        return
    idx = []
    for v, nd, name in parts:
        k = None
        for j, (u, _) in enumerate(units):
            if name in (u, u + 's' if key == 10 else u) or (len(parts) == 2 and name and u.startswith(name) and
                                                           (len(name) == 1 or name == 'min')):
                k = j
                # 'm' stands for minutes next to hours, for months next to years
                if len(parts) == 2 and name == 'm' and idx and idx[0] == 5:
                    k = 4
                break
        if k is None:
            h.check(False, 'P08: unknown unit')
            return
        idx.append(k)
    if len(parts) == 1:
        (v, nd, name), k = parts[0], idx[0]
        u = units[k][1]
        h.check(h.all([v * u * den <= a, a < (v + 1) * u * den]), 'P08: wrong amount')
        if key == 10 and name.endswith('s'):
            h.check(v != 1, 'P08: plural for one')
        elif key == 10:
            h.check(v == 1, 'P08: singular for many')
        # the biggest unit that has at least one whole
        h.check(v >= 1, 'P08: zero amount')
        if key >= 6 and k in (2, 3):
            h.check(v >= (24 if key == 10 and k == 2 else 10), 'P08: two units are not combined')
        if k + 1 < len(units):
            h.check(v * u < units[k + 1][1], 'P08: amount exceeds the next unit')
    else:
        (v, _, _), (w, _, _) = parts
        h.check(idx[0] == idx[1] + 1, 'P08: units are not adjacent')
        if idx[0] != idx[1] + 1:
            return
        u, s = units[idx[0]][1], units[idx[1]][1]
        h.check(h.all([(v * u + w * s) * den <= a, a < (v * u + (w + 1) * s) * den]), 'P08: wrong amounts')
        h.check(w * s < u, 'P08: second amount exceeds the first unit')
        if idx[0] + 1 < len(units):
            h.check(v * u < units[idx[0] + 1][1], 'P08: amount exceeds the next unit')


# ------------------------------------------------------------------------------------------------ P09
ATTRS = ['blink', 'bold', 'crosslined', 'dim', 'double_underlined', 'inversed', 'italic', 'overlined', 'underlined']
ATTR_KEY = {'blink': ('blink', 1), 'bold': ('bold', 1), 'crosslined': ('crossed', 1), 'dim': ('dim', 1),
            'double_underlined': ('underlined', 21), 'inversed': ('inversed', 1), 'italic': ('italic', 1),
            'overlined': ('overlined', 1), 'underlined': ('underlined', 1)}
TXT = ((0x61, 0x61), (0x0a, 0x0a), (0x0d, 0x0d), (0x0b, 0x0c), (0x20, 0x20), (0x1c, 0x1c), (0x85, 0x85), (0xe9, 0xe9))
TXT2 = ((0x61, 0x61), (0x0d, 0x0d), (0x2028, 0x2029))
TXT1 = ((0x61, 0x62), (0x0a, 0x0a), (0x0d, 0x0d), (0x7b, 0x7b), (0x25, 0x25), (0x5c, 0x5c), (0x20, 0x20))


def mk_color(h, name, kinds):
    """(color argument, expected fg state or None)"""
    from pytermor.color import Colors, ColorIndexed256
    k = one(h, name + 'k', kinds)
    if k == 'none':
        return None, None
    if k == 'rgb':
        v, c = rgbsym(h, name)
        return v, ('rgb',) + c
    if k == 'rgbm':
        v = one(h, name + 'v', [0x0a64ff, 0xc80032])
        return v, ('rgb',) + _chan(v)
    if k == 'i256':
        code = h.concrete(h.int(name + 'c', 16, 20))
        return ColorIndexed256._code_map[code], ('i', code)
    if k == 'i16':
        n, code = one(h, name + 'n', [('RED', 31), ('HI_WHITE', 97), ('BLACK', 30)])
        return getattr(Colors, n), ('c', code)
    if k == 'i16all':
        n = one(h, name + 'a', ['BLACK', 'RED', 'GREEN', 'YELLOW', 'BLUE', 'MAGENTA', 'CYAN', 'WHITE'])
        hi = h.concrete(h.int(name + 'h', 0, 1))
        c = ['BLACK', 'RED', 'GREEN', 'YELLOW', 'BLUE', 'MAGENTA', 'CYAN', 'WHITE'].index(n)
        n = 'GRAY' if n == 'BLACK' and hi and hasattr(Colors, 'GRAY') else 'GREY' if n == 'BLACK' and hi else 'HI_' + n if hi else n
        return getattr(Colors, n), ('c', c + (90 if hi else 30))
    if k == 'i256all':
        code = h.concrete(h.int(name + 'c', 16, 255))
        return ColorIndexed256._code_map[code], ('i', code)
    if k == 'name':
        return 'hi_cyan', ('c', 96)
    if k == 'zero':
        return 0, ('rgb', 0, 0, 0)
    raise AssertionError(k)


def mk_style(h, attrs, fgk, bgk):
    from pytermor.render import Style
    on = {}
    for a in attrs:
        on[a] = flag(h, 'a_' + a)
    fg, efg = mk_color(h, 'fg', fgk)
    bg, ebg = mk_color(h, 'bg', bgk)
    return Style(fg=fg, bg=bg, **on), [a for a in attrs if on[a]], efg, ebg


def exp_state(on, efg, ebg):
    st = {}
    for a in on:
        k, v = ATTR_KEY[a]
        st[k] = v
    if efg is not None:
        st['fg'] = efg
    if ebg is not None:
        st['bg'] = ebg
    return st


def state_eq(h, st, exp, on):
    if set(st) != set(exp):
        return False
    cs = []
    for k in st:
        a, b = st[k], exp[k]
        if k == 'underlined' and 'underlined' in on and 'double_underlined' in on:
            continue
        if type(a) is tuple:
            if type(b) is not tuple or len(a) != len(b) or a[0] != b[0]:
                return False
            cs += [x == y for x, y in zip(a[1:], b[1:])]
        else:
            cs.append(a == b)
    return h.all(cs)


def snapshot(style):
    return dict(style.__dict__)


def unchanged(h, style, snap):
    d = style.__dict__
    return set(d) == set(snap) and all(d[k] is snap[k] for k in d)


def p09sgr(h, n, attrs, fgk, bgk, compat=0, force=True, txt=None, around=None):
    from pytermor.render import SgrRenderer, Style
    from pytermor.color import ColorIndexed16, ColorIndexed256
    s = ctx(h.str('t', h.concrete(h.int('len', 0, n)), TXT2 if txt else TXT), around)
    style, on, efg, ebg = mk_style(h, attrs, fgk, bgk)
    snap = snapshot(style)
    SgrRenderer.set_up(force_styles=True if force else None, compatibility_256_colors=compat == 256,
                       compatibility_16_colors=compat == 16)
    r = SgrRenderer.render(s, style)
    h.observe('r', r)
    codes, tc = h.codes(r), h.codes(s)
    h.check(unchanged(h, style, snap), 'P09: rendering changes the style')
    if not force:
        h.check(h.eq(codes, tc), 'P09: text is changed while styling is disabled')
        return
    h.check(h.eq(strip_ref(h, codes), tc), 'P09: text is changed')
    exp = exp_state(on, efg, ebg)
    for key, bg in (('fg', False), ('bg', True)):
        if key in exp and compat and exp[key][0] != 'c' and not (compat == 256 and exp[key][0] == 'i'):
            c = (style.bg if bg else style.fg)
            f = (ColorIndexed16 if compat == 16 else ColorIndexed256).find_closest(c.hex_value)
            p = f.to_sgr(bg=False).params
            exp[key] = ('c', p[0]) if compat == 16 else ('i', p[2])
    out, st = M.term(h, codes)
    h.check(st == {}, 'P09: something remains on after the text')
    for c, x in out:
        h.check(state_eq(h, x, exp, on), 'P09: the style differs from the requested')
    # closed at line ends: the style is off before the first character of the next line
    if exp:
        prev_break, i, cur = False, 0, {}
        closed = False
        while i < len(codes):
            if M.is_esc(h, codes[i]):
                j = M.sgr_end(h, codes, i)
                if j:
                    cur = M.term_apply(h, cur, M.parse_params(h, codes, i, j))
                    if cur == {}:
                        closed = True
                    i = j
                    continue
            if prev_break:
                h.check(closed, 'P09: the style is not closed at a line end')
            # CR LF is one break
            nxt = codes[i + 1] if i + 1 < len(codes) else None
            isbrk = h.in_ranges(codes[i], ((10, 13), (0x1c, 0x1e), (0x85, 0x85), (0x2028, 0x2029)))
            crlf = nxt is not None and h.force(h.all([codes[i] == 13, nxt == 10]))
            prev_break = bool(isbrk) and not crlf
            closed = False
            i += 1


TMUX_NAME = {'blink': 'blink', 'bold': 'bold', 'crosslined': 'strikethrough', 'dim': 'dim', 'double_underlined': 'double-underscore',
             'inversed': 'reverse', 'italic': 'italics', 'overlined': 'overline', 'underlined': 'underscore'}
TMUX_COLOR = ['black', 'red', 'green', 'yellow', 'blue', 'magenta', 'cyan', 'white']


def tmux_parse(h, codes):
    """[(char, state)], final state; None if malformed"""
    st, out, i = {}, [], 0
    while i < len(codes):
        if h.force(codes[i] == 35) and i + 1 < len(codes) and h.force(codes[i + 1] == 91):
            j = i + 2
            while j < len(codes) and not h.force(codes[j] == 93):
                j += 1
            if j >= len(codes):
                return None
            words, w = [], []
            for c in codes[i + 2:j]:
                if type(c) is int and c in (32, 44):
                    words.append(w)
                    w = []
                else:
                    w.append(c)
            words.append(w)
            st = dict(st)
            for w in words:
                head = ''.join(chr(c) for c in w[:3] if type(c) is int)
                if head in ('fg=', 'bg='):
                    val = w[3:]
                    if all(type(c) is int for c in val) and ''.join(map(chr, val)) == 'default':
                        st.pop(head[:2], None)
                    else:
                        st[head[:2]] = tuple(val)
                    continue
                name = ''.join(map(chr, w))
                if name in ('none', 'default'):
                    st = {}
                elif name.startswith('no'):
                    st.pop(name[2:], None)
                    if name == 'nounderscore':
                        st.pop('double-underscore', None)
                else:
                    st[name] = True
            i = j + 1
            continue
        out.append((codes[i], st))
        i += 1
    return out, st


def p09tmux(h, n, attrs, fgk, bgk, txt=None, around=None):
    from pytermor.render import TmuxRenderer, SgrRenderer
    s = ctx(h.str('t', h.concrete(h.int('len', 0, n)), TXT2 if txt else TXT), around)
    style, on, efg, ebg = mk_style(h, attrs, fgk, bgk)
    snap = snapshot(style)
    SgrRenderer.set_up(force_styles=True)
    TmuxRenderer.set_up(force_styles=True)
    r = TmuxRenderer.render(s, style)
    h.observe('r', r)
    h.check(unchanged(h, style, snap), 'P09: rendering changes the style')
    p = tmux_parse(h, h.codes(r))
    if p is None:
        h.check(False, 'P09: malformed tmux markup')
        return
    out, st = p
    h.check(h.eq([c for c, _ in out], h.codes(s)), 'P09: text is changed (tmux)')
    h.check(st == {}, 'P09: something remains on after the text (tmux)')
    exp = {TMUX_NAME[a]: True for a in on}
    for k, e in (('fg', efg), ('bg', ebg)):
        if e is None:
            continue
        if e[0] == 'c':
            nm = TMUX_COLOR[e[1] - 30] if e[1] < 40 else 'bright' + TMUX_COLOR[e[1] - 90]
            exp[k] = tuple(map(ord, nm))
        elif e[0] == 'i':
            exp[k] = tuple(map(ord, f'color{e[1]}'))
        else:
            exp[k] = tuple([35] + h.hex2(e[1]) + h.hex2(e[2]) + h.hex2(e[3]))
    for c, x in out:
        same_ = set(x) == set(exp)
        h.check(same_ and h.all([h.eq(list(x[k]), list(exp[k])) if k in ('fg', 'bg') else True for k in x]),
                'P09: the style differs from the requested (tmux)')


CSS = {'blink': [('border', {'1px', 'dotted'})], 'bold': [('font-weight', {'700'})], 'crosslined': [('text-decoration', {'line-through'})],
       'dim': [('filter', {'saturate(0.5)', 'brightness(0.75)'})], 'double_underlined': [('text-decoration', {'underline', 'double'})],
       'italic': [('font-style', {'italic'})], 'overlined': [('text-decoration', {'overline'})],
       'underlined': [('text-decoration', {'underline'})], 'inversed': []}


def p09html(h, n, attrs, fgk, bgk, txt=None, around=None):
    from pytermor.render import HtmlRenderer
    s = ctx(h.str('t', h.concrete(h.int('len', 0, n)), TXT1), around)
    style, on, efg, ebg = mk_style(h, attrs, fgk, bgk)
    cn = one(h, 'cn', [None, 'c1'])
    style.class_name = cn
    snap = snapshot(style)
    r = HtmlRenderer.render(s, style)
    h.check(unchanged(h, style, snap), 'P09: rendering changes the style')
    codes, tc = h.codes(r), h.codes(s)
    i = 0
    while i < len(codes) and not (type(codes[i]) is int and codes[i] == 62):
        i += 1
    end = [ord(c) for c in '</span>']
    h.check(h.eq(codes[i + 1:], tc + end), 'P09: text is changed (html)')
    tag = codes[:i]
    want = '<span' + (f' class="{cn}"' if cn else '') + ' style="'
    h.check(h.eq(tag[:len(want)], [ord(c) for c in want]) and h.eq(tag[-1:], [34]), 'P09: malformed tag')
    body = tag[len(want):-1]
    exp = {}
    fgc, bgc = (style.fg.hex_value, style.bg.hex_value)
    if 'inversed' in on:
        fgc, bgc = bgc, fgc
    for key, v in (('color', fgc), ('background-color', bgc)):
        if v is not None:
            r_, g_, b_ = _chan(v)
            exp[key] = [[35] + h.hex2(r_) + h.hex2(g_) + h.hex2(b_)]
    for a in on:
        for k, vals in CSS[a]:
            exp.setdefault(k, [])
            for x in sorted(vals):
                if [ord(c) for c in x] not in exp[k]:
                    exp[k].append([ord(c) for c in x])
    got = {}
    for decl in _split(body, 59):
        kv = _split(decl, 58)
        if len(kv) != 2:
            if decl:
                h.check(False, 'P09: malformed style attribute')
            continue
        k = ''.join(map(chr, kv[0])).strip()
        got[k] = [w for w in _split(kv[1], 32) if w]
    h.check(set(got) == set(exp), 'P09: other css properties than requested')
    for k in got:
        if k in exp:
            h.check(len(got[k]) == len(exp[k]) and h.all([h.any([h.eq(a, b) for b in exp[k]]) for a in got[k]]),
                    'P09: the style differs from the requested (html)')


def _split(codes, sep):
    out, cur = [], []
    for c in codes:
        if type(c) is int and c == sep:
            out.append(cur)
            cur = []
        else:
            cur.append(c)
    out.append(cur)
    return out


def p09other(h, n, attrs, fgk, bgk, around=None):
    """no-op and debug renderers"""
    from pytermor.render import NoOpRenderer, DebugRenderer, SgrRenderer, RendererManager, Text
    s = ctx(h.str('t', h.concrete(h.int('len', 0, n)), TXT), around)
    style, on, efg, ebg = mk_style(h, attrs, fgk, bgk)
    h.check(h.eq(h.codes(NoOpRenderer.render(s, style)), h.codes(s)), 'P09: text is changed (no-op)')
    v = one(h, 'v', [-20, 0, 7.5])
    h.check(h.eq(h.codes(NoOpRenderer.render(v, style)), [ord(c) for c in str(v)]), 'P09: value is not shown (no-op)')
    SgrRenderer.set_up(force_styles=one(h, 'force', [False, None, True]))
    d = h.codes(DebugRenderer.render(s, style))
    SgrRenderer.set_up(force_styles=True)
    r = h.codes(SgrRenderer.render(s, style))
    # |ǝPARAMS| instead of every sequence
    exp, i = [], 0
    while i < len(r):
        if M.is_esc(h, r[i]):
            j = M.sgr_end(h, r, i)
            if j:
                exp += [124, 0x1dd] + r[i + 2:j - 1] + [124]
                i = j
                continue
        exp.append(r[i])
        i += 1
    h.check(h.eq(d, exp), 'P09: debug renderer differs')
    RendererManager.set_up(NoOpRenderer)
    h.check(h.eq(h.codes(str(Text(s, style))), h.codes(s)), 'P09: default renderer is not used')
    RendererManager.set_up(DebugRenderer)
    h.check(h.eq(h.codes(Text(s, style).render()), exp), 'P09: default renderer is not used')
    RendererManager.set_up()
    h.check(h.eq(h.codes(Text(s, style).render()), r), 'P09: default renderer is not restored')


# ------------------------------------------------------------------------------------------------ P10
def p10(h, pair, colors=True, depth=1):
    """two attributes vary freely (unset or any boolean) in the child and in the parent(s); the others are set by turns"""
    from pytermor.render import Style
    from pytermor.color import NOOP_COLOR, ColorRGB, Colors
    levels = depth + 1
    vals = []
    for lv in range(levels):
        d = {}
        for a in pair:
            if flag(h, f'set{lv}_{a}'):
                d[a] = h.bool(f'v{lv}_{a}') if a != 'class_name' else f'cls{lv}'
        if colors:
            for c in ('fg', 'bg'):
                k = one(h, f'{c}{lv}', ['unset', 'rgb', 'named'])
                if k == 'rgb':
                    d[c] = ColorRGB(h.int(f'{c}v{lv}', 0, 0xffffff))
                elif k == 'named':
                    d[c] = Colors.HI_CYAN
        vals.append(d)
    # all other attributes: a fixed pattern which is different for parent and child
    rest = [a for a in ATTRS if a not in pair]
    for i, a in enumerate(rest):
        for lv in range(levels):
            if (i >> lv) & 1:
                vals[lv][a] = bool((i + lv) % 2)
    styles, snaps = [], []
    cur = None
    for lv in range(levels):
        cur = Style(cur, **vals[lv]) if cur is not None else Style(**vals[lv])
        styles.append(cur)
        snaps.append(snapshot(cur))
    for lv in range(levels):
        h.check(unchanged(h, styles[lv], snaps[lv]), 'P10: the parent is modified')
        for a in ATTRS + ['class_name']:
            e = None
            for k in range(lv, -1, -1):
                if a in vals[k]:
                    e = vals[k][a]
                    break
            g = getattr(styles[lv], a)
            if e is None:
                h.check(g is None, f'P10: an attribute that is set nowhere has a value')
            else:
                h.check(g is not None and h.force(g == e) if type(e) is str else g is not None and g == e,
                        'P10: an attribute has a wrong value')
        for c in ('fg', 'bg'):
            # an unset color becomes an empty one, so it is inherited as unset
            e = None
            for k in range(lv, -1, -1):
                if c in vals[k]:
                    e = vals[k][c]
                    break
            g = getattr(styles[lv], c)
            if e is None:
                h.check(g is not None and g.hex_value is None, 'P10: a color that is set nowhere has a value')
            else:
                h.check(g is e or g == e, 'P10: wrong color')
    s = styles[-1]
    before = snapshot(s)
    fg, bg = s.fg, s.bg
    r = s.flip()
    h.check(r is s and s.fg is bg and s.bg is fg, 'P10: flip does not swap the colors')
    after = snapshot(s)
    h.check(all(after[k] is before[k] for k in before if k not in ('_fg', '_bg')) and set(after) == set(before),
            'P10: flip changes something else')
    s.flip()
    h.check(unchanged(h, s, before), 'P10: flipping twice does not restore the style')
    if depth:
        h.check(unchanged(h, styles[0], snaps[0]), 'P10: flipping modifies the parent')


def p10render(h, attrs):
    from pytermor.render import Style, SgrRenderer, TmuxRenderer, HtmlRenderer, DebugRenderer, NoOpRenderer, Text
    style, on, efg, ebg = mk_style(h, attrs, ['none', 'rgbm', 'i16'], ['none', 'i256'])
    snap = snapshot(style)
    SgrRenderer.set_up(force_styles=True, compatibility_16_colors=flag(h, 'c16'))
    R = one(h, 'R', [SgrRenderer, TmuxRenderer, HtmlRenderer, DebugRenderer, NoOpRenderer])
    if R is TmuxRenderer:
        R.set_up(force_styles=True)
    a = R.render('ab\nc', style)
    b = R.render('ab\nc', style)
    h.check(unchanged(h, style, snap), 'P10: rendering modifies the style')
    if R is not HtmlRenderer:
        h.check(h.eq(h.codes(a), h.codes(b)), 'P10: rendering twice gives different results')
    style.render('x')
    style.text('x').render()
    repr(style)
    h.check(unchanged(h, style, snap), 'P10: rendering modifies the style')


# ------------------------------------------------------------------------------------------------ P11
def p11dist(h, n, maxv, maxlen, lens=None):
    from pytermor.render import distribute_padded
    if lens:
        n = len(lens)
    vals = [chr(97 + i) * (lens[i] if lens else h.concrete(h.int(f'l{i}', 0, maxv))) for i in range(n)]
    L = h.int('L', 0, maxlen)
    pb, pa = flag(h, 'pb'), flag(h, 'pa')
    h.assume(n > 0 or pb or pa)   # nothing to distribute otherwise
    vs = ([''] if pb else []) + vals + ([''] if pa else [])
    gaps = len(vs) - 1
    total = sum(len(v) for v in vs)
    given = list(vals)
    try:
        r = distribute_padded(given, L, pb, pa)
    except ValueError:
        h.observe('r', 'error')
        h.check(given == vals, 'P11: the given list is changed')
        h.check(L < total + gaps, 'P11: error though there is enough space')
        return
    h.observe('r', r)
    h.check(given == vals, 'P11: the given list is changed')
    h.check(L >= total + gaps, 'P11: no error though there is not enough space')
    h.check(len(r) == L, 'P11: wrong length')
    codes = h.codes(r)
    if not all(type(c) is int for c in codes):
        codes = [h.concrete(c) for c in codes]
    s = ''.join(map(chr, codes))
    # values in order, only blanks between
    h.check(s.replace(' ', '') == ''.join(vs), 'P11: values are changed')
    pos, sizes, ok = 0, [], True
    for i, v in enumerate(vs):
        if v == '':
            continue
        j = s.find(v, pos)
        if j < 0 or s[pos:j].strip(' '):
            ok = False
            break
        sizes.append((i, j - pos))
        pos = j + len(v)
    h.check(ok, 'P11: a value is split or lost')
    if ok and gaps > 0:
        # gaps around empty values are seen as one: every gap has floor or ceil of the average
        sp = len(s) - total
        q, m = sp // gaps, sp % gaps
        prev = 0 if True else None
        first = 0
        for i, size in sizes:
            k = i - first
            h.check(k * q <= size <= k * (q + (1 if m else 0)), 'P11: gaps are not equal')
            first = i
        size = len(s) - pos
        k = gaps - first
        h.check(k * q <= size <= k * (q + (1 if m else 0)), 'P11: gaps are not equal')


def p11thou(h, digits, sep=None):
    from pytermor.util import format_thousand_sep
    a = v = h.bignum('d', digits, 10)
    if flag(h, 'neg'):
        v = -v
    r = format_thousand_sep(v, sep) if sep is not None else format_thousand_sep(v)
    sp = [ord(c) for c in (sep if sep is not None else ' ')]
    codes = h.codes(r)
    h.observe('r', r)
    plain, grp, first = [], [], True
    i = 0
    cur = 0
    neg = False
    if h.force(codes[0] == 45):
        neg = True
        i = 1
    while i < len(codes):
        if sp and h.force(h.eq(codes[i:i + len(sp)], sp)):
            grp.append(cur)
            cur = 0
            i += len(sp)
            continue
        plain.append(codes[i])
        cur += 1
        i += 1
    grp.append(cur)
    if sp:
        h.check(all(g == 3 for g in grp[1:]) and 1 <= grp[0] <= 3, 'P11: groups of wrong size')
    h.check(h.eq(plain, h.dec(a)), 'P11: number is changed')
    h.check(neg == h.force(v < 0), 'P11: sign is changed')


# ------------------------------------------------------------------------------------------------ P12
def p12(h, ops, n=2, start=0):
    """history of operations on a text"""
    from pytermor.render import Text, Style, SgrRenderer, RendererManager, NOOP_STYLE
    SgrRenderer.set_up(force_styles=True)
    RendererManager.set_up()
    styles = [None, Style(fg='red', bold=True), Style(bg=0x102030)]
    T = ((0x61, 0x62), (0x0a, 0x0a))

    def part(i):
        """(operand, raw codes, rendered codes)"""
        s = h.str(f't{i}_', h.concrete(h.int(f'l{i}', 0, n)), T)
        k = one(h, f'k{i}', ['str', 0, 1, 2])
        if k == 'str':
            return s, h.codes(s), h.codes(s)
        st = styles[k]
        t = Text(s, st)
        rend = h.codes(SgrRenderer.render(s, st)) if st is not None else h.codes(s)
        return t, h.codes(s), rend
    x, raw, ren = part(0)
    if type(x) is not Text:
        x = Text(x)
    for i in range(start):
        st = styles[i % 3]
        x.append(Text('c%d' % i, st))
        c = [ord(y) for y in 'c%d' % i]
        raw, ren = raw + c, ren + (h.codes(SgrRenderer.render('c%d' % i, st)) if st is not None else c)
    others = []
    for i, op in enumerate(ops):
        if op == '?':
            op = one(h, f'op{i}', ['append', 'prepend', 'add', 'iadd', 'radd'])
        o, oraw, oren = part(i + 1)
        if op == 'append':
            x.append(o)
        elif op == 'prepend':
            x.prepend(o)
        elif op == 'add':
            x = x + o
        elif op == 'iadd':
            x += o
        elif op == 'radd':
            if isinstance(o, Text):
                x = x.__radd__(o)
            else:
                x = o + x
        if op in ('prepend', 'radd'):
            raw, ren = oraw + raw, oren + ren
        else:
            raw, ren = raw + oraw, ren + oren
        others.append((o, oraw, oren))
    for k in range(2):
        r = x.raw()
        h.check(h.eq(h.codes(r), raw), 'P12: raw content differs')
        h.check(len(x) == len(raw), 'P12: length differs')
        h.check(h.eq(h.codes(x.render()), ren), 'P12: rendered text differs')
        h.check(h.eq(h.codes(str(x)), ren), 'P12: str() differs')
    h.observe('raw', x.raw())
    for o, oraw, oren in others:
        if isinstance(o, Text):
            h.check(h.eq(h.codes(o.raw()), oraw), 'P12: an added text is changed')
            h.check(len(o) == len(oraw), 'P12: an added text is changed')
            h.check(h.eq(h.codes(o.render()), oren), 'P12: an added text is changed')


def p12one(h):
    """values, formatting and repeated measuring of a single text"""
    from pytermor.render import Text, Style, SgrRenderer, RendererManager
    SgrRenderer.set_up(force_styles=True)
    RendererManager.set_up()
    k = one(h, 'k', ['none', 'int', 'bool', 'str', 'float'])
    if k == 'none':
        v, e = None, []
    elif k == 'int':
        v = h.int('v', -20, 200)
        e = h.dec(v)
    elif k == 'bool':
        v = flag(h, 'v')
        e = [ord(c) for c in str(v)]
    elif k == 'float':
        v = one(h, 'v', [0.0, 1.5, -2.25])
        e = [ord(c) for c in str(v)]
    else:
        v = h.str('s', h.concrete(h.int('l', 0, 3)), ((0x61, 0x62), (0x30, 0x30)))
        e = h.codes(v)
    st = one(h, 'st', [None, 'red', Style(bold=True)])
    t = Text(v, st)
    op, cl = {0: ('', ''), 1: ('\x1b[31m', '\x1b[39m'), 2: ('\x1b[1m', '\x1b[22m')}[0 if st is None else 1 if st == 'red' else 2]

    def ren(codes):
        if not codes:
            return []
        return [ord(c) for c in op] + codes + [ord(c) for c in cl]
    spec = one(h, 'spec', ['', '5', '>4', '<6', '^5', '.2', '*>5.1'])
    for i in range(3):
        h.check(h.eq(h.codes(t.raw()), e), 'P12: value is not kept')
        h.check(len(t) == len(e), 'P12: wrong length')
        h.check(h.eq(h.codes(t.render()), ren(e)), 'P12: wrong rendering')
        f = format(t, spec)
        h.check(h.eq(h.codes(f), ren(fmt_ref(e, spec))), 'P12: wrong formatting')
        if k in ('int', 'str'):
            h.check(h.eq(h.codes(f'{t:{spec}}'), ren(fmt_ref(e, spec))), 'P12: wrong formatting')
    h.observe('raw', t.raw())


def fmt_ref(e, spec):
    fill, align, width, prec = 32, '<', 0, None
    s = spec
    if len(s) > 1 and s[1] in '<>^':
        fill, align, s = ord(s[0]), s[1], s[2:]
    elif s and s[0] in '<>^':
        align, s = s[0], s[1:]
    if '.' in s:
        s, p = s.split('.')
        prec = int(p)
    width = int(s) if s else 0
    if prec is not None:
        e = e[:prec]
    n = max(0, width - len(e))
    left = {'<': 0, '>': n, '^': n // 2}[align]
    return [fill] * left + e + [fill] * (n - left)


# ------------------------------------------------------------------------------------------------ P13
P13_NAMES = ['sec', 'min', 'hour', 'day', 'week', 'year', 'age']


def p13(h, nu, coll, neg, sep=None, plural=None, hi=400, den=1, rmax=12, short=None, ovmax=11, rs=None, cs=None, ovs=None, msg='E'):
    """custom time delta formatters: ratios, thresholds and the number of seconds are symbolic"""
    from pytermor.util import TimeDeltaFormatter, TimeUnit
    names = P13_NAMES[:nu]
    ratios = [one(h, f'r{i}', rs[i]) for i in range(nu - 1)] if rs else [h.int(f'r{i}', 2, rmax) for i in range(nu - 1)]
    colls = [None] * nu
    for i in coll:
        colls[i] = one(h, f'c{i}', cs) if cs else h.int(f'c{i}', 1, rmax)
        if i < nu - 1:
            h.assume(colls[i] <= ratios[i])
    ov = one(h, 'ov', ovs) if ovs else h.int('ov', 1, ovmax)
    shorts = [short if i == 1 else None for i in range(nu)]
    units = [TimeUnit(nm, in_next=ratios[i] if i < nu - 1 else None, custom_short=shorts[i], collapsible_after=colls[i],
                      overflow_afer=ov if i == nu - 1 else None) for i, nm in enumerate(names)]
    f = TimeDeltaFormatter(units, neg, unit_separator=sep, plural_suffix=plural, overflow_msg=msg)
    mx = f.max_len
    h.observe('max', mx)
    n = h.int('n', -hi if neg else 0, hi)
    x = h.rat(n, den) if den > 1 else n
    r = f.format(x)
    h.observe('r', r)
    rc = h.codes(r)
    h.check(len(rc) <= mx, 'P13: result is longer than the declared maximum')
    p = h.codes(f.format(x, always_max_len=True))
    h.check(len(p) == mx and h.eq(p, [32] * (mx - len(rc)) + rc), 'P13: padded result has another length')
    isneg = h.force(n < 0)
    a = -n if isneg else n
    S = sep or ''
    if h.force(a < den):
        pl = plural or ''
        if neg and isneg:
            e = '~0' + S + names[0] + pl
        elif h.force(a * 1000 <= den):
            e = '0' + S + names[0] + pl
        else:
            e = '<1' + S + names[0]
        h.check(h.eq(rc, [ord(c) for c in e]), 'P13: wrong text for less than a second')
        return
    t = [a // den]
    for i in range(nu - 1):
        t.append(t[-1] // ratios[i])
    k = 0
    while k < nu - 1 and not h.force(t[k] < ratios[k]):
        k += 1
    if k == nu - 1:
        over = h.force(t[k] > ov) if nu > 1 or den == 1 else h.force(a > ov * den)
        if over:
            h.check(h.eq(rc, [ord(c) for c in msg[:mx]]), 'P13: no overflow mark')
            return
    # the biggest whole unit, preceded by its remainder while under the threshold
    e = [45] if neg and isneg else []

    def num(v):
        return h.codes(str(h.concrete(v)))

    def sh(i):
        return [ord(c) for c in (shorts[i] or names[i][0])]
    if colls[k] is not None and h.force(t[k] < colls[k]):
        e += num(t[k]) + sh(k) + [ord(c) for c in S]
        if k:
            e += num(t[k - 1] - t[k] * ratios[k - 1]) + sh(k - 1)
    else:
        pl = plural if plural and h.force(t[k] != 1) else ''
        e += num(t[k]) + [ord(c) for c in S + names[k] + pl]
    h.check(h.eq(rc, e), 'P13: wrong amount or unit')


def p13pick(h, lens, q):
    """the registry picks the longest formatter that fits"""
    from pytermor.util.time_delta import _TimeDeltaFormatterRegistry, TimeDeltaFormatter, TimeUnit
    reg = _TimeDeltaFormatterRegistry()
    fs = []
    for L in lens:
        f = TimeDeltaFormatter([TimeUnit('x' * (L - 2), overflow_afer=99)], False)
        h.check(f.max_len == L, 'P13: wrong maximum length')
        fs.append(f)
        reg.register(f)
    m = h.int('m', 1, q)
    r = reg.find_matching(m)
    fit = [(f.max_len, f) for f in fs if h.force(f.max_len <= m)]
    if not fit:
        h.check(r is None, 'P13: a formatter that does not fit is chosen')
    else:
        h.check(r is max(fit, key=lambda y: y[0])[1], 'P13: not the longest fitting formatter is chosen')
    h.check(reg.get_longest().max_len == max(lens) and reg.get_shortest().max_len == min(lens), 'P13: longest/shortest')
