"""Reference model of the documented behaviour, written against ECMA-48 / RFC 3629 / README, not derived from the code.

It works on lists of character codes (plain or symbolic integers); this module itself is never instrumented: symbolic
conditions are decided through `h` (see symex.api), `if` on a symbolic condition forks the path.
"""

ESC = 0x1b


class Tok:
    __slots__ = ('cls', 'kind', 's', 'e', 'p')

    def __init__(self, cls, kind, s, e, p=None):
        self.cls, self.kind, self.s, self.e, self.p = cls, kind, s, e, p

    def __repr__(self):
        return f'{self.cls}.{self.kind}[{self.s}:{self.e}]'


CLASSES = ('ws', 'ctrl', 'print', 'esc', 'utf8', 'bin')
IGN = {'ws': '--ignore-space', 'ctrl': '--ignore-control', 'print': '--ignore-printable', 'esc': '--ignore-esc',
       'utf8': '--ignore-utf8', 'bin': '--ignore-binary'}
FOC = {k: v.replace('ignore', 'focus') for k, v in IGN.items()}


def is_in(h, c, *ranges):
    if type(c) is int:
        for a, b in ranges:
            if a <= c <= b:
                return True
        return False
    return bool(h.in_ranges(c, ranges))


UTF8 = (
    # lead range, ranges of continuation bytes (RFC 3629, section 4)
    ((0xc2, 0xdf), ((0x80, 0xbf),)),
    ((0xe0, 0xe0), ((0xa0, 0xbf), (0x80, 0xbf))),
    ((0xe1, 0xec), ((0x80, 0xbf), (0x80, 0xbf))),
    ((0xed, 0xed), ((0x80, 0x9f), (0x80, 0xbf))),
    ((0xee, 0xef), ((0x80, 0xbf), (0x80, 0xbf))),
    ((0xf0, 0xf0), ((0x90, 0xbf), (0x80, 0xbf), (0x80, 0xbf))),
    ((0xf1, 0xf3), ((0x80, 0xbf), (0x80, 0xbf), (0x80, 0xbf))),
    ((0xf4, 0xf4), ((0x80, 0x8f), (0x80, 0xbf), (0x80, 0xbf))),
)


def utf8_len(h, b, i):
    """length of the valid sequence starting at i or 0"""
    c = b[i]
    for lead, tail in UTF8:
        if is_in(h, c, lead):
            if i + len(tail) >= len(b):
                return 0
            for k, r in enumerate(tail):
                if not is_in(h, b[i + 1 + k], r):
                    return 0
            return 1 + len(tail)
    return 0


def codepoint(b, i, n):
    if n == 2:
        return (b[i] - 0xc0) * 64 + (b[i + 1] - 0x80)
    if n == 3:
        return (b[i] - 0xe0) * 4096 + (b[i + 1] - 0x80) * 64 + (b[i + 2] - 0x80)
    return (b[i] - 0xf0) * 262144 + (b[i + 1] - 0x80) * 4096 + (b[i + 2] - 0x80) * 64 + (b[i + 3] - 0x80)


def escape(h, b, i):
    """token for the ESC at i"""
    n = len(b)
    if i + 1 >= n:
        return Tok('ctrl', 'esc', i, i + 1)
    c = b[i + 1]
    if is_in(h, c, (0x5b, 0x5b)):
        j = i + 2
        while j < n and is_in(h, b[j], (0x30, 0x3f)):
            j += 1
        k = j
        while k < n and is_in(h, b[k], (0x20, 0x2f)):
            k += 1
        if k < n and is_in(h, b[k], (0x40, 0x7e)):
            kind = 'csi'
            if is_in(h, b[k], (0x6d, 0x6d)):
                if j == i + 2 or (j == i + 3 and is_in(h, b[i + 2], (0x30, 0x30))):
                    kind = 'sgr0'
                else:
                    kind = 'sgr'
            return Tok('esc', kind, i, k + 1, (i + 2, j))
        return Tok('esc', 'fe', i, i + 2)
    if is_in(h, c, (0x20, 0x2f)):
        j = i + 2
        while j < n and is_in(h, b[j], (0x20, 0x2f)):
            j += 1
        if j < n and is_in(h, b[j], (0x30, 0x7e)):
            return Tok('esc', 'nf', i, j + 1)
        return Tok('ctrl', 'esc', i, i + 1)
    if is_in(h, c, (0x30, 0x3f)):
        return Tok('esc', 'fp', i, i + 2)
    if is_in(h, c, (0x40, 0x5f)):
        return Tok('esc', 'fe', i, i + 2)
    if is_in(h, c, (0x60, 0x7e)):
        return Tok('esc', 'fs', i, i + 2)
    return Tok('ctrl', 'esc', i, i + 1)


def tokens(h, b):
    """b: list of codes -> list of tokens covering it"""
    out = []
    i = 0
    n = len(b)
    while i < n:
        c = b[i]
        if is_in(h, c, (0x21, 0x7e)):
            t = Tok('print', 'p', i, i + 1)
        elif is_in(h, c, (ESC, ESC)):
            t = escape(h, b, i)
        elif is_in(h, c, (0x20, 0x20)):
            t = Tok('ws', 'sp', i, i + 1)
        elif is_in(h, c, (0x0a, 0x0a)):
            t = Tok('ws', 'nl', i, i + 1)
        elif is_in(h, c, (0x09, 0x09)):
            t = Tok('ws', 'tab', i, i + 1)
        elif is_in(h, c, (0x0b, 0x0b)):
            t = Tok('ws', 'vt', i, i + 1)
        elif is_in(h, c, (0x0c, 0x0c)):
            t = Tok('ws', 'ff', i, i + 1)
        elif is_in(h, c, (0x0d, 0x0d)):
            t = Tok('ws', 'cr', i, i + 1)
        elif is_in(h, c, (0x80, 0xff)):
            k = utf8_len(h, b, i)
            t = Tok('utf8', 'u', i, i + k) if k else Tok('bin', 'b', i, i + 1)
        elif is_in(h, c, (0, 0)):
            t = Tok('ctrl', 'nul', i, i + 1)
        elif is_in(h, c, (8, 8)):
            t = Tok('ctrl', 'bs', i, i + 1)
        elif is_in(h, c, (0x7f, 0x7f)):
            t = Tok('ctrl', 'del', i, i + 1)
        else:
            t = Tok('ctrl', 'gen', i, i + 1)
        out.append(t)
        i = t.e
    return out


MARK = {'sp': '␣', 'vt': '⤓', 'ff': '↡', 'cr': '⇤', 'nul': 'Ø', 'bs': '←', 'del': '→', 'esc': '∌', 'gen': 'Ɐ',
        'sgr0': 'θ', 'sgr': 'ǝ', 'csi': 'Ͻ', 'nf': 'ꟻ', 'fp': 'ꟼ', 'fe': 'Ǝ', 'fs': 'Ꙅ', 'tab': '⇥', 'nl': '↵', 'b': 'Ḇ'}
BOX = 0x25af
CROSS = ord('×')
SEP_L, SEP_R = ord('⢸'), ord('⡇')
DOT = ord('･')
HEXD = [ord(c) for c in '0123456789abcdef']


class Cfg:
    """options of one run of the program"""

    def __init__(self, mode='t', m=0, sep=True, ln=True, ignore=(), focus=(), w=None, decode=False, offsets=True,
                 decimal=False, f=None, B=None, L=None, color=False, D=0, via='stdin', width=80, plan=(), extra=()):
        self.__dict__.update(locals())
        del self.__dict__['self']

    def but(self, **k):
        d = dict(self.__dict__)
        d.update(k)
        return Cfg(**d)

    def argv(self):
        a = ['-t' if self.mode == 't' else '-b']
        if self.mode == 't':
            if self.m is not None and self.m != 0:
                a.append(f'-m{self.m}')
            if not self.sep:
                a.append('--no-separators')
            if not self.ln:
                a.append('--no-line-numbers')
        else:
            if self.w is not None:
                a.append(('-w', self.w))
            if self.decode:
                a.append('-d')
            if not self.offsets:
                a.append('--no-offsets')
            if self.decimal:
                a.append('--decimal-offsets')
        for c in self.ignore:
            a.append(IGN[c])
        for c in self.focus:
            a.append(FOC[c])
        if self.f is not None:
            a.append(('-f', self.f))
        if self.B is not None:
            a.append(('-B', self.B))
        if self.L is not None:
            a.append(('-L', self.L))
        if self.color:
            a.append('--color-markers')
        if self.D:
            a.append('-' + 'D' * self.D)
        a.extend(self.extra)
        return a


def hex2(h, c):
    """two lowercase hex digits of a byte as codes"""
    if type(c) is int:
        return [HEXD[c >> 4], HEXD[c & 15]]
    return h.hex2(c)


def dec_codes(n):
    return [ord(c) for c in str(n)]


def sgr_details(h, b, t):
    """codes shown after the SGR marker at marker details level 1"""
    s, e = t.p
    params, cur = [], []
    for i in range(s, e):
        if is_in(h, b[i], (0x3b, 0x3b)):
            params.append(cur)
            cur = []
        else:
            cur.append(b[i])
    params.append(cur)
    vals = []
    for p in params:
        if not p:
            continue
        q = []
        for c in p:       # subparameters are dropped
            if is_in(h, c, (0x3a, 0x3a)):
                break
            q.append(c)
        if q and all(is_in(h, c, (0x30, 0x39)) for c in q):
            v = 0
            for c in q:
                v = v * 10 + (c - 0x30)
            vals.append(('n', v))
        else:
            vals.append(('s', p))
    names = []
    i = 0
    while i < len(vals):
        k, v = vals[i]
        if k == 'n':
            ext = 0
            if h.force(v == 38):
                ext = 'F'
            elif h.force(v == 48):
                ext = 'B'
            if ext:
                rest = vals[i + 1:]
                if len(rest) >= 2 and rest[0][0] == 'n' and rest[1][0] == 'n' and h.force(rest[0][1] == 5):
                    names.append([ord(ext)] + h.dec(rest[1][1]))
                    i += 3
                    continue
                if len(rest) >= 4 and all(r[0] == 'n' for r in rest[:4]) and h.force(rest[0][1] == 2):
                    c = rest[1][1] * 65536 + rest[2][1] * 256 + rest[3][1]
                    names.append([ord(ext)] + h.hex6(c))
                    i += 5
                    continue
            names.append(h.dec(v))
        else:
            names.append(list(v))
        i += 1
    out = []
    for k, n in enumerate(names):
        if k:
            out.append(DOT)
        out += n
    return out


def represent_text(h, b, toks, cfg):
    """list (one entry per token) of codes of the visible text"""
    out = []
    for t in toks:
        n = t.e - t.s
        if t.cls in cfg.ignore:
            r = [CROSS] * n
            if t.kind == 'nl':
                r.append(10)
        elif t.cls == 'print':
            r = [b[t.s]]
        elif t.cls == 'utf8':
            r = [codepoint(b, t.s, n)]
        elif t.kind == 'tab':
            r = [ord('⇥'), 9]
        elif t.kind == 'nl':
            r = [ord('↵'), 10]
        elif t.kind == 'sp':
            r = [ord('·') if 'ws' in cfg.focus else ord('␣')]
        elif t.cls == 'esc':
            r = [ord(MARK[t.kind])]
            if cfg.m == 1 and t.kind == 'sgr':
                r += sgr_details(h, b, t)
            elif cfg.m == 2:
                r += list(b[t.s + 1:t.e])
            if cfg.m and cfg.sep:
                r = [SEP_L] + r + [SEP_R]
        elif t.kind == 'gen':
            r = [ord('Ɐ')]
            if cfg.m == 1:
                r.append(b[t.s] + 0x40)
            elif cfg.m == 2:
                r += hex2(h, b[t.s])
        else:
            r = [ord(MARK[t.kind])]
        out.append(r)
    return out


def represent_bin(h, b, toks, cfg):
    """one code per byte of the input: the character column"""
    out = []
    for t in toks:
        n = t.e - t.s
        if t.cls in cfg.ignore:
            r = [CROSS] * n
        elif t.cls == 'print':
            r = [b[t.s]]
        elif t.cls == 'utf8':
            r = [ord('_')] * (n - 1) + [codepoint(b, t.s, n)] if cfg.decode else [BOX] * n
        elif t.cls == 'bin':
            r = [BOX]
        elif t.kind == 'sp':
            r = [ord('·') if 'ws' in cfg.focus else ord('␣')]
        elif t.cls == 'esc':
            r = [ord(MARK[t.kind])] + list(b[t.s + 1:t.e])
        else:
            r = [ord(MARK[t.kind])]
        out += r
    return out


def offset_label(n, cfg):
    if cfg.decimal:
        s = str(n)
    else:
        d = '%x' % n
        dd = str(n)
        w = max(4, (len(dd) + 1) // 2 * 2)
        s = '0x' + d.rjust(w, '0')
    return s.rjust(8)


def limited(h, b, cfg):
    """the part of the input that has to be processed"""
    n = len(b)
    if cfg.B is not None and cfg.B > 0 and cfg.B < n:
        b = b[:h.concrete(cfg.B)]
    if cfg.L is not None and cfg.L > 0:
        k = 0
        for i, c in enumerate(b):
            if is_in(h, c, (10, 10)):
                k += 1
                if k >= cfg.L:
                    return b[:i]
    return b


def expected_lines(h, b, cfg):
    """text mode: list of visible output lines (codes without the final line break)"""
    toks = tokens(h, b)
    reps = represent_text(h, b, toks, cfg)
    lines, cur, open_ = [], [], False
    for t, r in zip(toks, reps):
        if t.kind == 'nl':
            cur += r[:-1]
            lines.append(cur)
            cur, open_ = [], False
        else:
            cur += r
            open_ = True
    if open_:
        lines.append(cur)
    if cfg.ln:
        lines = [[ord(c) for c in '%2d│' % (i + 1)] + l for i, l in enumerate(lines)]
    return lines


def expected_rows(h, b, cfg, cols):
    chars = represent_bin(h, b, tokens(h, b), cfg)
    rows = []
    for s in range(0, len(b), cols):
        part = b[s:s + cols]
        r = []
        if cfg.offsets:
            r += [ord(c) for c in offset_label(s, cfg) + '│']
        for c in part:
            r.append(32)
            r += hex2(h, c)
        r += [32] * (3 * (cols - len(part)))
        r += [32, ord('│') if cfg.offsets else 32]
        r += chars[s:s + cols]
        rows.append(r)
    return rows


def total_line(n, cfg):
    return offset_label(n, cfg)


# ------------------------------------------------------------------------------------------------ output side
def sgr_end(h, c, i):
    """index after the SGR sequence starting at i, or 0"""
    n = len(c)
    if i + 2 >= n or not (c[i + 1] == 0x5b if type(c[i + 1]) is int else is_in(h, c[i + 1], (0x5b, 0x5b))):
        return 0
    j = i + 2
    while j < n and is_in(h, c[j], (0x30, 0x39), (0x3b, 0x3b)):
        j += 1
    if j < n and is_in(h, c[j], (0x6d, 0x6d)):
        return j + 1
    return 0


def is_esc(h, c):
    return c == ESC if type(c) is int else is_in(h, c, (ESC, ESC))


def visible(h, codes):
    out = []
    i, n = 0, len(codes)
    while i < n:
        c = codes[i]
        if is_esc(h, c):
            j = sgr_end(h, codes, i)
            if j:
                i = j
                continue
        out.append(c)
        i += 1
    return out


def split_lines(h, codes):
    """visible codes -> list of lines; `tail` is what follows the last line break"""
    lines, cur = [], []
    for c in codes:
        if c == 10 if type(c) is int else is_in(h, c, (10, 10)):
            lines.append(cur)
            cur = []
        else:
            cur.append(c)
    return lines, cur


# ------------------------------------------------------------------------------------------------ terminal
ATTR_ON = {1: 'bold', 2: 'dim', 3: 'italic', 4: 'underlined', 5: 'blink', 6: 'blink', 7: 'inversed', 8: 'hidden', 9: 'crossed',
           21: 'underlined', 53: 'overlined'}
ATTR_OFF = {22: ('bold', 'dim'), 23: ('italic',), 24: ('underlined',), 25: ('blink',), 27: ('inversed',), 28: ('hidden',),
            29: ('crossed',), 55: ('overlined',)}


# rarely supported ones (fonts, Fraktur, proportional, framed, encircled, ideogram marks, underline color, super/subscript)
EXT_ON = dict([(n, 'font') for n in range(11, 20)] + [(20, 'fraktur'), (26, 'proportional'), (51, 'framed'), (52, 'framed'), (73, 'script'), (74, 'script')] +
              [(n, 'ideogram') for n in range(60, 65)])
EXT_OFF = {10: 'font', 23: 'fraktur', 50: 'proportional', 54: 'framed', 65: 'ideogram', 75: 'script'}


def term_apply(h, st, params, ext=False):
    """state (dict attr -> value, absent = default) after the SGR sequence with the given parameters"""
    st = dict(st)
    i = 0
    if not params:
        params = [0]
    while i < len(params):
        p = params[i]
        if type(p) is not int:
            p = pick(h, p, ext)
        if p == 0:
            st = {}
        elif p in (38, 48):
            key = 'fg' if p == 38 else 'bg'
            mode = params[i + 1] if i + 1 < len(params) else None
            if mode is not None and h.force(mode == 5) and i + 2 < len(params):
                st[key] = ('i', params[i + 2])
                i += 2
            elif mode is not None and h.force(mode == 2) and i + 4 < len(params):
                st[key] = ('rgb', params[i + 2], params[i + 3], params[i + 4])
                i += 4
            else:
                return st      # malformed: the rest is discarded
        elif p in ATTR_ON:
            st[ATTR_ON[p]] = p if p in (21,) else 1
        elif p in ATTR_OFF:
            for a in ATTR_OFF[p]:
                st.pop(a, None)
            if ext and p == 23:
                st.pop('fraktur', None)
        elif 30 <= p <= 37 or 90 <= p <= 97:
            st['fg'] = ('c', p)
        elif 40 <= p <= 47 or 100 <= p <= 107:
            st['bg'] = ('c', p - 10)
        elif p == 39:
            st.pop('fg', None)
        elif p == 49:
            st.pop('bg', None)
        elif ext and p in EXT_ON:
            st[EXT_ON[p]] = p
        elif ext and p in EXT_OFF:
            st.pop(EXT_OFF[p], None)
        i += 1
    return st


SIGNIFICANT = sorted({0, 38, 48, 39, 49} | set(ATTR_ON) | set(ATTR_OFF) | set(range(30, 38)) | set(range(40, 48)) |
                     set(range(90, 98)) | set(range(100, 108)))
SIGNIFICANT_EXT = sorted(set(SIGNIFICANT) | set(EXT_ON) | set(EXT_OFF))


def pick(h, p, ext=False):
    """symbolic parameter: one representative of its meaning (colors are merged when possible)"""
    memo = h.__dict__.setdefault('_pick', {})
    k = (h.key(p), ext)
    if k not in memo:
        memo[k] = _pick_tree(h, p, SIGNIFICANT_EXT) if ext else _pick_list(h, p)
    return memo[k]


def _pick_list(h, p):
    for v in SIGNIFICANT:
        if h.force(p == v):
            return v
    return 1000


def _pick_tree(h, p, vals):
    while len(vals) > 1:
        m = len(vals) // 2
        vals = vals[m:] if h.force(p >= vals[m]) else vals[:m]
    return vals[0] if h.force(p == vals[0]) else 1000


def parse_params(h, c, i, j):
    out, cur, any_ = [], 0, False
    for k in range(i + 2, j - 1):
        if is_in(h, c[k], (0x3b, 0x3b)):
            out.append(cur)
            cur, any_ = 0, True
        else:
            cur = cur * 10 + (c[k] - 0x30)
            any_ = True
    if any_:
        out.append(cur)
    return out


def term(h, codes, st=None, ext=False):
    """list of (code, state) for the visible characters (line breaks included) and the final state"""
    st = dict(st or {})
    out = []
    i, n = 0, len(codes)
    cache = {}
    while i < n:
        c = codes[i]
        if is_esc(h, c):
            j = sgr_end(h, codes, i)
            if j:
                key = tuple(codes[i:j])
                if all(type(x) is int for x in key):
                    pr = cache.get(key)
                    if pr is None:
                        pr = cache[key] = parse_params(h, codes, i, j)
                else:
                    pr = parse_params(h, codes, i, j)
                st = term_apply(h, st, pr, ext)
                i = j
                continue
        out.append((c, st))
        i += 1
    return out, st
