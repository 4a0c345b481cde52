"""Harness cases of further pytermor properties (P14 - P17)."""
from spec import model as M
from harness.pt import ctx, one, flag, parse_num, preload  # noqa: F401


# ------------------------------------------------------------------------------------------------ P14
# blanks by Unicode plus the four ASCII separators, and characters close to them
BLANKS = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0, 0x1680, 0x2000, 0x200a, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000]
WS = ((9, 13), (28, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f),
      (0x205f, 0x205f), (0x3000, 0x3000))
WSDOM = [((0, 0x23), (0x5b, 0x61), (0x7e, 0x88), (0x9f, 0xa1)), ((0x1ff8, 0x2030),), ((0x2050, 0x2068),), ((0x167e, 0x1682),), ((0x2ff8, 0x3004),),
         ((9, 13), (32, 33)), ((0xff, 0x3ff),)]


def ws_ref(h, codes, repl):
    out = []
    for c in codes:
        if h.in_ranges(c, WS) if not type(c) is int else any(a <= c <= b for a, b in WS):
            out += repl
            if h.force(c == 10):
                out.append(10)
        else:
            out.append(c)
    return out


def p14ws(h, n, dom=0, repl=None, around=None):
    """blanks are made visible, line breaks stay"""
    from pytermor.util import VisualuzeWhitespace, apply_filters
    k = h.concrete(h.int('len', 0, n))
    s = ctx(h.str('s', k, WSDOM[dom]), around)
    f = VisualuzeWhitespace(repl) if repl is not None else VisualuzeWhitespace()
    r = f.apply(s)
    h.observe('r', r)
    exp = ws_ref(h, h.codes(s), [ord(c) for c in (repl if repl is not None else '·')])
    h.check(h.eq(h.codes(r), exp), 'P14: blanks are replaced in a wrong way')
    h.check(h.eq(h.codes(f(s)), exp), 'P14: call and apply() differ')
    if repl is None:
        h.check(h.eq(h.codes(apply_filters(s, VisualuzeWhitespace)), exp), 'P14: apply_filters() differs')


CSIDOM = ((0x1b, 0x1b), (0x20, 0x20), (0x2f, 0x41), (0x5a, 0x5c), (0x60, 0x61), (0x6c, 0x6d), (0x4c, 0x4d), (0x7a, 0x7b), (0xa, 0xa))


def csi_ref(h, codes, repl, params=((0x30, 0x3f),), final=((0x40, 0x5a), (0x61, 0x7a))):
    """repl: function (parameters, final) -> codes"""
    out, i, n = [], 0, len(codes)

    def is_in(c, *r):
        return any(a <= c <= b for a, b in r) if type(c) is int else h.in_ranges(c, r)
    while i < n:
        if i + 2 < n and is_in(codes[i], (27, 27)) and is_in(codes[i + 1], (91, 91)):
            j = i + 2
            while j < n and is_in(codes[j], *params):
                j += 1
            if j < n and is_in(codes[j], *final):
                out += repl(codes[i + 2:j], codes[j])
                i = j + 1
                continue
        out.append(codes[i])
        i += 1
    return out


def p14csi(h, n, words=False, tpl=None, around=None):
    """control sequences are replaced as a whole"""
    from pytermor.util import ReplaceCSI, ReplaceSGR, apply_filters
    if words:
        s = ''
        W = ['a', '\x1b', '\x1b[', 'm', '\x1b[m', '\x1b[1;31m', '\x1b[?25l', '\x1b[2J', '\x1b[1:2m', '9', '\n', 'é', '\x1b[>4;1m', '\x1b[1 q', '\x1b]', '\x1b[@', '\x1b[=']
        for i in range(n):
            s = s + one(h, f'w{i}', W)
    else:
        k = h.concrete(h.int('len', 0, n))
        s = h.str('s', k, CSIDOM)
    s = ctx(s, around)
    codes = h.codes(s)
    if tpl == 'groups':
        f = ReplaceCSI(r'E\2\3\5')
        exp = csi_ref(h, codes, lambda p, e: [69, 91] + list(p) + [e])
    elif tpl:
        f = ReplaceCSI(tpl)
        exp = csi_ref(h, codes, lambda p, e: [ord(c) for c in tpl])
    else:
        f = ReplaceCSI()
        exp = csi_ref(h, codes, lambda p, e: [])
    r = f.apply(s)
    h.observe('r', r)
    h.check(h.eq(h.codes(r), exp), 'P14: control sequences are replaced in a wrong way')
    h.check(h.eq(h.codes(apply_filters(s, f)), exp), 'P14: apply_filters() differs')
    if not tpl:
        # what is left has no SGR sequences either
        h.check(h.eq(h.codes(apply_filters(s, ReplaceCSI, ReplaceSGR)), h.codes(ReplaceSGR().apply(h.mkstr(exp)))), 'P14: filters are not applied in turn')


def p14sgr(h, n, words=False, tpl=None, around=None):
    """SGR sequences are replaced as a whole, other control sequences stay"""
    from pytermor.util import ReplaceSGR, apply_filters
    if words:
        s = ''
        W = ['a', '\x1b', '\x1b[', 'm', '\x1b[m', '\x1b[1;31m', '\x1b[?25l', '\x1b[2M', '\x1b[1:2m', '9', ';', '\n', '\x1b[>4;1m', '\x1b[1 m', '\x1b[;;m', '\x1b[38;5;']
        for i in range(n):
            s = s + one(h, f'w{i}', W)
    else:
        k = h.concrete(h.int('len', 0, n))
        s = h.str('s', k, CSIDOM)
    s = ctx(s, around)
    codes = h.codes(s)

    def rep(p, e):
        if tpl == 'groups':
            return [69, 91] + list(p) + [e]
        return [ord(c) for c in tpl or '']
    exp = csi_ref(h, codes, rep, ((0x30, 0x39), (0x3b, 0x3b)), ((0x6d, 0x6d),))
    f = ReplaceSGR(r'E\2\3\5' if tpl == 'groups' else tpl) if tpl else ReplaceSGR()
    r = f.apply(s)
    h.observe('r', r)
    if tpl == 'groups':
        # \\3 are all the parameters
        h.check(h.eq(h.codes(r), exp), 'P14: parts of a sequence are referred to in a wrong way')
    else:
        h.check(h.eq(h.codes(r), exp), 'P14: SGR sequences are replaced in a wrong way')
    h.check(h.eq(h.codes(apply_filters(s, f)), exp), 'P14: apply_filters() differs')


def p14bytes(h, n, repl=None, around=0):
    """bytes 80-ff are replaced one by one, others stay"""
    from pytermor.util import ReplaceNonAsciiBytes, apply_filters
    k = h.concrete(h.int('len', 0, n))
    b = b'a\xff\n' * around + h.bytes('b', k) + b'\x80' * around
    f = ReplaceNonAsciiBytes(repl.encode('latin-1')) if repl is not None else ReplaceNonAsciiBytes()
    rp = [ord(c) for c in (repl if repl is not None else '?')]
    exp = []
    for c in h.codes(b):
        exp += rp if h.force(c >= 128) else [c]
    r = f.apply(b)
    h.observe('r', r)
    h.check(h.eq(h.codes(r), exp), 'P14: bytes are replaced in a wrong way')
    if repl is None:
        h.check(h.eq(h.codes(apply_filters(b, ReplaceNonAsciiBytes)), exp), 'P14: apply_filters() differs')


def p14chain(h, n, k):
    """several filters: each one works on the result of the previous"""
    from pytermor.util import StringFilter, VisualuzeWhitespace, ReplaceSGR, ReplaceCSI, apply_filters
    ln = h.concrete(h.int('len', 0, n))
    s = h.str('s', ln, ((0x61, 0x63), (0x20, 0x20), (0xa, 0xa), (0x1b, 0x1b), (0x5b, 0x5b), (0x6d, 0x6d)))

    def sub(a, b):
        return lambda codes: [y for x in codes for y in (b if h.force(x == a) else [x])]
    F = [(StringFilter('a', 'bb'), sub(97, [98, 98])), (StringFilter('b', ''), sub(98, [])), (StringFilter('c', 'a c'), sub(99, [97, 32, 99])),
         (VisualuzeWhitespace, lambda c: ws_ref(h, c, [0xb7])), (VisualuzeWhitespace('a'), lambda c: ws_ref(h, c, [97])),
         (ReplaceCSI, lambda c: csi_ref(h, c, lambda p, e: [])), (ReplaceCSI('b'), lambda c: csi_ref(h, c, lambda p, e: [98])),
         (StringFilter('m', lambda m: '[' + m.group(0)), sub(109, [91, 109]))]
    fs, cur = [], h.codes(s)
    for i in range(h.concrete(h.int('k', 0, k))):
        f, ref = F[h.concrete(h.int(f'f{i}', 0, len(F) - 1))]
        fs.append(f)
        cur = ref(cur)
    r = apply_filters(s, *fs)
    h.observe('r', r)
    h.check(h.eq(h.codes(r), cur), 'P14: filters are not applied one after another')


# ------------------------------------------------------------------------------------------------ P15
def _cased(h, name, maxsym, tag=''):
    """the name with the first letters in a symbolic case, the rest lower or upper"""
    out, k = [], 0
    rest = h.concrete(h.int('rest' + tag, 0, 1))
    for i, c in enumerate(name):
        if c.isalpha() and k < maxsym:
            v = h.int(f'c{tag}{k}', 0, 1)
            out.append(ord(c.upper()) + 32 * v)
            k += 1
        else:
            out.append(ord(c.lower() if rest else c.upper()))
    return h.mkstr(out)


def _regs():
    from pytermor.ansi import Seqs, Spans, IntCodes
    from pytermor.color import Colors
    from pytermor.render import Styles
    return {'Seqs': Seqs, 'Spans': Spans, 'IntCodes': IntCodes, 'Colors': Colors, 'Styles': Styles}


def p15resolve(h, reg, step=1, start=0, maxsym=4):
    cls = _regs()[reg]
    names = [n for n in sorted(vars(cls)) if n.isupper() and not n.startswith('_')][start::step]
    name = one(h, 'name', names)
    s = _cased(h, name, maxsym)
    r = cls.resolve(s)
    h.check(r is getattr(cls, name) or (type(r) is int and r == getattr(cls, name)), 'P15: another item is found')
    h.observe('name', s)


def p15unknown(h, reg, n):
    """free names: found if and only if there is such an item"""
    cls = _regs()[reg]
    k = h.concrete(h.int('len', 1, n))
    s = h.str('s', k, ((0x41, 0x45), (0x61, 0x65), (0x52, 0x53), (0x72, 0x73), (0x5f, 0x5f), (0x31, 0x32)))
    codes = h.codes(s)
    up = [c - 32 if h.force(c >= 97) else c for c in codes]
    names = [x for x in sorted(vars(cls)) if x.isupper() and len(x) == k]
    exp = None
    for x in names:
        if h.force(h.eq(up, [ord(c) for c in x])):
            exp = x
            break
    try:
        r = cls.resolve(s)
    except KeyError:
        h.check(exp is None, 'P15: an item is not found by its name')
        return
    h.check(exp is not None and r is getattr(cls, exp), 'P15: something is found by a wrong name')


def p15near(h, reg, step=5):
    """a known name with one character added, replaced or removed: found if and only if that is a name, too"""
    cls = _regs()[reg]
    names = [n for n in sorted(vars(cls)) if n.isupper() and not n.startswith('_')]
    name = one(h, 'name', names[::step])
    kind = h.concrete(h.int('kind', 0, 2))
    pos = sorted({0, len(name) // 2, len(name) - 1} | ({len(name)} if kind == 0 else set()))
    i = pos[h.concrete(h.int('pos', 0, len(pos) - 1))]
    if kind == 2:
        codes = [ord(c) for c in name[:i] + name[i + 1:]]
    else:
        x = h.int('x', 0x20, 0x7a)
        codes = [ord(c) for c in name[:i]] + [x] + [ord(c) for c in name[i + kind:]]
    if not codes:
        return
    s = h.mkstr(codes)
    up = [c - 32 if h.force(h.in_ranges(c, ((97, 122),)) if not type(c) is int else 97 <= c <= 122) else c for c in codes]
    exp = None
    for n in names:
        if len(n) == len(up) and h.force(h.eq(up, [ord(c) for c in n])):
            exp = n
            break
    try:
        r = cls.resolve(s)
    except KeyError:
        h.check(exp is None, 'P15: an item is not found by its name')
        return
    h.check(exp is not None and r is getattr(cls, exp), 'P15: something is found by a wrong name')


def p15style(h, how):
    """colors of a style are those given"""
    from pytermor.color import Colors, ColorRGB, ColorIndexed16, ColorIndexed256, Color, NOOP_COLOR
    from pytermor.render import Style
    names = [n for n in sorted(vars(Colors)) if n.isupper()]

    def pick(tag):
        k = one(h, 'k' + tag, how)
        if k == 'int':
            v = h.int('v' + tag, 0, 0xffffff)
            return v, lambda c: h.all([type(c) is ColorRGB, c.hex_value == v])
        if k == 'name':
            n = one(h, 'n' + tag, names[::29])
            return _cased(h, n, 2, tag), lambda c: c is getattr(Colors, n)
        if k == 'inst':
            c = [Colors.RED, Colors.GREY_50, ColorRGB(0x123456), NOOP_COLOR][h.concrete(h.int('i' + tag, 0, 3))]
            return c, lambda x: x is c
        return None, lambda c: c.hex_value is None

    fg, fok = pick('f')
    bg, bok = pick('b')
    ctor = flag(h, 'ctor')
    if ctor:
        st = Style(fg=fg, bg=bg)
    else:
        st = Style(fg='red', bg=0x777777)
        st.fg = fg
        st.bg = bg
    h.check(isinstance(st.fg, Color) and isinstance(st.bg, Color), 'P15: not a color')
    h.check(fok(st.fg), 'P15: another foreground')
    h.check(bok(st.bg), 'P15: another background')
    if flag(h, 'flip'):
        r = st.flip()
        h.check(r is st and fok(st.bg) and bok(st.fg), 'P15: colors are not swapped')


def p15autopick(h, kind):
    """foreground by the brightness of the background"""
    from pytermor.color import Colors, ColorRGB
    from pytermor.render import Style
    fg = one(h, 'fg', [None, 0x112233])
    v = None
    if kind == 'rgb':
        r, g, b = [h.int(x, 0, 255) for x in 'rgb']
        v = r * 65536 + g * 256 + b
        st = Style(fg=fg, bg=v, bold=True)
    elif kind == 'preset':
        names = [n for n in sorted(vars(Colors)) if n.isupper() and getattr(getattr(Colors, n), 'hex_value', None) is not None]
        bg = getattr(Colors, one(h, 'bg', names))
        st = Style(fg=fg, bg=bg, bold=True)
        x = bg.hex_value
        r, g, b = x >> 16, x >> 8 & 255, x & 255
    else:
        st = Style(fg=fg, bold=True)
    old_bg, old_fg = st.bg, st.fg
    res = st.autopick_fg()
    h.check(res is st and st.bg is old_bg and st.bold is True, 'P15: something else is changed')
    if kind == 'none':
        h.check(st.fg is old_fg, 'P15: foreground is changed without background')
        return
    m = r if h.force(h.all([r >= g, r >= b])) else g if h.force(g >= b) else b
    if h.force(m * 100 >= 45 * 255):
        h.check(st.fg is Colors.RGB_GREY_4, 'P15: bright text on a bright background')
    else:
        h.check(st.fg is Colors.RGB_GREY_80, 'P15: dark text on a dark background')


# ------------------------------------------------------------------------------------------------ P16
def p16(h, prefixes, zero, lo, hi, den=1, mul=1, mcoef=1000, maxv=4, trunc=False, unit=None, sep=None, over=None, negok=True):
    from pytermor.util import PrefixedUnitFormatter
    f = PrefixedUnitFormatter(maxv, truncate_frac=trunc, unit=unit, unit_separator=sep, mcoef=float(mcoef), prefixes=list(prefixes), prefix_zero_idx=zero)
    n = h.int('n', lo, hi)
    v = n * mul
    x = h.rat(v, den) if den > 1 else v
    u = (over or unit) or ''
    S = sep or ''
    lens = [len(p or '') for p in prefixes]
    h.check(f.max_len == maxv + len(S) + len(unit or '') + max(lens), 'P16: wrong max_len')
    a = -v if h.force(v < 0) else v
    k = 0
    if h.force(a >= den):
        while h.force(a >= den * mcoef ** (k + 1)):
            k += 1
    elif not trunc and h.force(a > 0):
        k = -1
        while h.force(a * mcoef ** -k < den):
            k -= 1
    idx = zero + k
    try:
        r = f.format(x, over) if over else f.format(x)
    except ValueError:
        h.check(not 0 <= idx < len(prefixes), 'P16: a number within the range is not formatted')
        return
    codes = h.codes(r)
    if idx >= len(prefixes):
        p, name = len(prefixes) - zero, '?' * max(lens)
    elif idx < 0:
        p, name = -1 - zero, '?' * max(lens)
    else:
        p, name = k, prefixes[idx] or ''
    tail = [ord(c) for c in S + name + u]
    h.check(len(codes) >= len(tail) and h.eq(codes[len(codes) - len(tail):], tail), 'P16: wrong prefix, unit or separator')
    num = codes[:len(codes) - len(tail)]
    h.check(1 <= len(num) <= maxv, 'P16: number is too long')
    q = parse_num(h, num)
    if q is None:
        h.check(False, 'P16: not a number')
        return
    neg, d, nd, dec = q
    h.check(h.implies(n < 0, h.any([neg, d == 0])) if not neg else n < 0, 'P16: wrong sign')
    sg = -d if neg else d
    A, B = sg * den, v * 10 ** dec
    if p >= 0:
        A, ulp = A * mcoef ** p, den * mcoef ** p
    else:
        B, ulp = B * mcoef ** -p, den
    diff = A - B
    if trunc and p == 0:
        ok = h.all([diff < ulp, -diff < ulp, h.any([h.all([n >= 0, diff <= 0]), h.all([n <= 0, diff >= 0])])])
    else:
        ok = h.all([2 * 10 ** 9 * diff <= (10 ** 9 + 1) * ulp, -2 * 10 ** 9 * diff <= (10 ** 9 + 1) * ulp])
        if not dec and nd == maxv - (1 if neg else 0):
            sd = -diff if not neg else diff
            ok = h.any([ok, h.all([sd >= 0, sd < ulp, d == 10 ** nd - 1])])
        if nd == 1 and maxv - (1 if neg else 0) == 1:
            ok = h.any([ok, d == 0])
    h.observe('tail', tail)
    h.check(ok, 'P16: shown amount differs from the value')


# ------------------------------------------------------------------------------------------------ P17
class _Out:
    """stands for standard output: a terminal or not"""
    def __init__(self, tty):
        self.tty = tty

    def isatty(self):
        return self.tty

    def write(self, s):
        return len(s)

    def flush(self):
        pass


def p17(h, ops, n=1, via=('sgr', 'tmux', 'debug', 'text', 'str', 'format', 'style'), colors=('rgb', 'i256', 'i16', 'none')):
    """history of settings: renderers obey those in force at the moment of rendering"""
    import sys
    from pytermor.render import (SgrRenderer, TmuxRenderer, DebugRenderer, NoOpRenderer, HtmlRenderer, RendererManager, Text, Style)
    from pytermor.color import ColorIndexed16, ColorIndexed256, Colors
    from harness import pt
    s = h.str('t', h.concrete(h.int('len', 0, n)), pt.TXT1)
    tc = h.codes(s)
    bold = pt.flag(h, 'bold')
    kind = pt.one(h, 'fg', list(colors))
    fg = {'rgb': 0x0a64ff, 'i256': ColorIndexed256._code_map[17], 'i16': Colors.HI_RED, 'none': None}[kind]
    style = Style(fg=fg, bold=bold)
    kept = Text(s, style)
    force, c256, c16, tty, man = False, False, False, True, 'sgr'
    mans = {'sgr': SgrRenderer, 'tmux': TmuxRenderer, 'debug': DebugRenderer, 'noop': NoOpRenderer, 'html': HtmlRenderer, 'none': None}
    SgrRenderer.set_up()
    RendererManager.set_up()
    out = _Out(tty)
    so = sys.stdout
    sys.stdout = out
    try:
        for i, op in enumerate(ops):
            if op == '?':
                op = pt.one(h, f'op{i}', ['f', 'p', 't', 'm', 'z'])
            if op == 'f':           # all three settings
                force = pt.one(h, f'f{i}', [True, False, None])
                c256, c16 = pt.flag(h, f'c{i}a'), pt.flag(h, f'c{i}b')
                SgrRenderer.set_up(force_styles=force, compatibility_256_colors=c256, compatibility_16_colors=c16)
            elif op == 'p':         # one setting, the others return to their defaults
                force, c256, c16 = False, False, False
                k = pt.one(h, f'p{i}', ['f', '2', '1'])
                if k == 'f':
                    force = pt.one(h, f'f{i}', [True, None])
                    SgrRenderer.set_up(force)
                elif k == '2':
                    c256 = True
                    SgrRenderer.set_up(compatibility_256_colors=True)
                else:
                    c16 = True
                    SgrRenderer.set_up(compatibility_16_colors=True)
            elif op == 't':
                tty = not tty
                out.tty = tty
            elif op == 'T':         # another stream
                tty = not tty
                out = _Out(tty)
                sys.stdout = out
            elif op == 'm':
                man = pt.one(h, f'm{i}', list(mans))
                RendererManager.set_up(mans[man])
            elif op == 'z':
                force, c256, c16, man = False, False, False, 'sgr'
                SgrRenderer.set_up()
                RendererManager.set_up()
            allowed = force is True or force is False and tty
            v = pt.one(h, f'v{i}', list(via))
            if v == 'sgr':
                r, kd = SgrRenderer.render(s, style), 'sgr'
            elif v == 'tmux':
                r, kd = TmuxRenderer.render(s, style), 'tmux'
            elif v == 'debug':
                r, kd = DebugRenderer.render(s, style), 'debug'
            else:
                t = Text(s, style)
                h.check(h.eq(h.codes(kept.render()), h.codes(t.render())), 'P17: a text created earlier is rendered differently')
                r = t.render() if v == 'text' else str(t) if v == 'str' else f'{t}' if v == 'format' else style.render(s)
                kd = 'sgr' if man == 'none' else man
            codes = h.codes(r)
            h.observe(f'r{i}', r)
            if kd == 'noop' or kd in ('sgr', 'tmux') and not allowed:
                h.check(h.eq(codes, tc), 'P17: text is changed while formatting is off')
                continue
            if kd == 'html':
                h.check(h.eq(codes[:5], [ord(c) for c in '<span']), 'P17: not the renderer that was set up')
                continue
            exp = {'bold': 1} if bold else {}
            if kind != 'none':
                full = {'rgb': ('rgb', 0x0a, 0x64, 0xff), 'i256': ('i', 17), 'i16': ('c', 91)}[kind]
                if c16 and kind != 'i16':
                    full = ('c', ColorIndexed16.find_closest(style.fg.hex_value).to_sgr(bg=False).params[0])
                elif c256 and kind == 'rgb':
                    full = ('i', ColorIndexed256.find_closest(style.fg.hex_value).to_sgr(bg=False).params[2])
                exp['fg'] = full
            if kd == 'tmux':
                p = pt.tmux_parse(h, codes)
                if p is None:
                    h.check(False, 'P17: malformed tmux markup')
                    continue
                e = {'bold': True} if bold else {}
                if kind != 'none':
                    e['fg'] = tuple(ord(c) for c in ('#%02x%02x%02x' % full[1:] if full[0] == 'rgb' else f'color{full[1]}' if full[0] == 'i' else
                                                     pt.TMUX_COLOR[full[1] - 30] if full[1] < 40 else 'bright' + pt.TMUX_COLOR[full[1] - 90]))
                h.check(h.eq([c for c, _ in p[0]], tc), 'P17: text is changed')
                for c, x in p[0]:
                    h.check(x == e, 'P17: the style does not follow the settings (tmux)')
                continue
            if kd == 'debug':       # |ǝPARAMS| stands for a sequence
                back, j = [], 0
                while j < len(codes):
                    if type(codes[j]) is int and codes[j] == 124 and j + 1 < len(codes) and type(codes[j + 1]) is int and codes[j + 1] == 0x1dd:
                        e_ = j + 2
                        while e_ < len(codes) and not (type(codes[e_]) is int and codes[e_] == 124):
                            e_ += 1
                        back += [27, 91] + codes[j + 2:e_] + [0x6d]
                        j = e_ + 1
                        continue
                    back.append(codes[j])
                    j += 1
                codes = back
            h.check(h.eq(pt.strip_ref(h, codes), tc), 'P17: text is changed')
            cells, st = M.term(h, codes)
            h.check(st == {}, 'P17: something remains on after the text')
            for c, x in cells:
                h.check(pt.state_eq(h, x, exp, []), 'P17: the style does not follow the settings')
    finally:
        sys.stdout = so
