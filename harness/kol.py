"""Harness cases of the kolombos properties (K01 - K18): the real application is run on symbolic data and options."""
from harness import app as A
from spec import model as M


def preload():
    A.preload()


# ------------------------------------------------------------------------------------------------ symbolic inputs
MENU = [
    ['a'], [' '], ['\n'], ['\t'], [['r', 0x0b, 0x0d]], [['r', 1, 7]], ['\x00'], ['\x08'], ['\x7f'], ['\x1b'],
    ['\x1b[m'], ['\x1b[0m'], ['\x1b[', ['r', 0x31, 0x34], 'm'], ['\x1b[4;', ['r', 0x30, 0x39], 'm'],
    ['\x1b[2', ['r', 0x41, 0x5a]], ['\x1b(', ['r', 0x41, 0x5a]], ['\x1b', ['r', 0x30, 0x3f]], ['\x1b', ['r', 0x40, 0x5a]],
    ['\x1b', ['r', 0x60, 0x7e]], ['\xc3', ['r', 0x80, 0xbf]], ['\xe2\x82', ['r', 0x80, 0xbf]], ['\xf0\x9f\x98', ['r', 0x80, 0xbf]],
    [['r', 0x80, 0xbf]], [['r', 0xf5, 0xff]], ['\xe2\x82'], [['r', 0x21, 0x7e]],
]
# the most different ones (for long words)
SMALL = [0, 1, 2, 3, 5, 6, 9, 10, 12, 14, 15, 17, 20, 22]


def build(h, shape, pfx='b', ctr=None):
    """shape -> list of codes.  Items: 'text' (latin-1 constant), '*' (any byte), ['r', lo, hi, lo, hi..] (byte within
    ranges), ['n', item, lo, hi] (item repeated lo..hi times, every copy independent), ['rep', item, lo, hi] (the same
    byte repeated), ['repk', item, k1, k2..] (repeated one of the given numbers of times), ['t'] (word from the menu), ['ts'] (from the short menu), ['alt', shape, shape..],
    ['x', text, n] (constant text n times)"""
    ctr = ctr if ctr is not None else [0]
    out = []
    for it in shape:
        ctr[0] += 1
        nm = f'{pfx}{ctr[0]}'
        if type(it) is str and it == '*':
            out.append(h.byte(nm))
        elif type(it) is str:
            out += [ord(c) for c in it]
        elif it[0] == 'r':
            out.append(h.byte(nm, tuple((it[i], it[i + 1]) for i in range(1, len(it), 2))))
        elif it[0] == 'x':
            out += [ord(c) for c in it[1]] * it[2]
        elif it[0] == 'n':
            k = h.concrete(h.int(nm + 'k', it[2], it[3]))
            for _ in range(k):
                out += build(h, [it[1]], pfx, ctr)
        elif it[0] == 'rep':
            k = h.concrete(h.int(nm + 'k', it[2], it[3]))
            x = build(h, [it[1]], pfx, ctr)
            out += x * k
        elif it[0] == 'repk':       # the same byte repeated one of the listed numbers of times
            k = it[2 + h.concrete(h.int(nm + 'k', 0, len(it) - 3))]
            x = build(h, [it[1]], pfx, ctr)
            out += x * k
        elif it[0] == 't':
            k = h.concrete(h.int(nm + 'w', 0, len(MENU) - 1))
            out += build(h, MENU[k], pfx, ctr)
        elif it[0] == 'ts':
            k = h.concrete(h.int(nm + 'w', 0, len(SMALL) - 1))
            out += build(h, MENU[SMALL[k]], pfx, ctr)
        elif it[0] == 'alt':
            k = h.concrete(h.int(nm + 'a', 0, len(it) - 2))
            out += build(h, it[1 + k], pfx, ctr)
        else:
            raise AssertionError(it)
    return out


def sym_cfg(h, c):
    """options given as {'int': [lo, hi]} become symbolic; 'flag' a symbolic boolean, {'sub': [..]} a symbolic subset,
    {'one': [..]} a symbolic choice"""
    d = {}
    for k, v in c.items():
        if v == 'flag':
            v = h.concrete(h.int('o_' + k, 0, 1)) == 1
        elif type(v) is dict and 'int' in v:
            v = h.int('o_' + k, *v['int'])
        elif type(v) is dict and 'one' in v:
            v = v['one'][h.concrete(h.int('o_' + k, 0, len(v['one']) - 1))]
        elif type(v) is dict and 'sub' in v:
            v = [x for i, x in enumerate(v['sub']) if h.concrete(h.int(f'o_{k}{i}', 0, 1)) == 1]
        elif type(v) is dict and 'plan' in v:
            v = [h.int(f'o_{k}{i}', *r) for i, r in enumerate(v['plan'])]
        d[k] = v
    return M.Cfg(**d)


def run(h, cfg, codes, **kw):
    return A.run_app(h, cfg.argv(), h.mkbytes(codes), via=cfg.via, width=cfg.width, plan=cfg.plan, **kw)


def vis(h, r):
    return M.visible(h, h.codes(r.out))


def vlines(h, r, msg):
    """visible lines without the final empty line printed at exit"""
    lines, tail = M.split_lines(h, vis(h, r))
    h.check(not tail and len(lines) > 0 and lines[-1] == [], msg + ': output does not end with an empty line')
    return lines[:-1]


def show(h, r):
    h.observe('out', r.out)
    h.observe('code', r.code)
    h.observe('err', r.err)


def plain(h, cfg):
    """cfg with concrete numbers"""
    return cfg


# ------------------------------------------------------------------------------------------------ K01
PIPE = ord('│')


def hexval(h, c):
    """value of a lowercase hex digit or None"""
    return h.digit(c, 16)


def hex_column(h, lines, cfg):
    got = []
    if cfg.offsets and lines:
        lines = lines[:-1]          # total size
    for ln in lines:
        i = 0
        if cfg.offsets:
            while i < len(ln) and not (type(ln[i]) is int and ln[i] == PIPE):
                i += 1
            i += 1
        while i + 2 < len(ln) and M.is_in(h, ln[i], (32, 32)):
            a = hexval(h, ln[i + 1])
            if a is None:
                break
            b = hexval(h, ln[i + 2])
            if b is None:
                break
            got.append(a * 16 + b)
            i += 3
    return got


def k01(h, shape, cfg):
    cfg = sym_cfg(h, dict(mode='b', **cfg))
    b = build(h, shape)
    r = run(h, cfg, b)
    show(h, r)
    got = hex_column(h, vlines(h, r, 'K01'), cfg)
    h.check(len(got) == len(b), 'hex column has another number of bytes than the input')
    h.check(h.eq(got, b), 'hex column differs from the input')


# ------------------------------------------------------------------------------------------------ K02
def k02(h, shape, cfg):
    cfg = sym_cfg(h, dict(mode='b', **cfg))
    b = build(h, shape)
    r = run(h, cfg, b)
    show(h, r)
    lines = vlines(h, r, 'K02')
    cols = h.concrete(cfg.w)
    n = len(b)
    nrows = (n + cols - 1) // cols
    h.check(len(lines) == nrows + (1 if cfg.offsets else 0), 'wrong number of rows')
    if len(lines) < nrows:
        return
    for i in range(nrows):
        ln = lines[i]
        k = min(cols, n - i * cols)
        pre = [ord(c) for c in M.offset_label(i * cols, cfg) + '│'] if cfg.offsets else []
        h.check(h.eq(ln[:len(pre)], pre), 'wrong offset of a row')
        ln = ln[len(pre):]
        h.check(len(ln) == 3 * cols + 2 + k, 'wrong length of a row')
        if len(ln) != 3 * cols + 2 + k:
            return
        for j in range(cols):
            h.check(h.eq(ln[3 * j:3 * j + 1], [32]), 'hex cell is not separated with a space')
            if j >= k:
                h.check(h.eq(ln[3 * j:3 * j + 3], [32, 32, 32]), 'no padding in the last row')
            else:
                h.check(h.eq(ln[3 * j + 1:3 * j + 3], M.hex2(h, b[i * cols + j])), 'wrong byte in the row')
        h.check(h.eq(ln[3 * cols:3 * cols + 2], [32, PIPE if cfg.offsets else 32]), 'wrong separator of char column')
    if cfg.offsets and len(lines) == nrows + 1:
        tot = [ord(c) for c in M.offset_label(n, cfg) + '│']
        h.check(h.eq(lines[-1], tot), 'wrong total size')


# ------------------------------------------------------------------------------------------------ K03
def k03(h, digits, decimal):
    """all positions below 10 ** digits (--decimal-offsets) or 16 ** digits"""
    from kolombos.console import Console
    from kolombos.settings import SettingsManager
    SettingsManager.init()
    SettingsManager.app_settings.decimal_offsets = decimal
    n = h.bignum('n', digits, 10 if decimal else 16)
    for fn in (Console.format_prefix_with_offset, Console.format_total_size):
        s = fn(n)
        h.observe(fn.__name__, s)
        v = M.visible(h, h.codes(s))
        h.check(len(v) >= 9 and v[-1] == PIPE, 'no separator after the offset')
        v = v[:-1]
        i = 0
        while i < len(v) and M.is_in(h, v[i], (32, 32)):
            i += 1
        h.check(i == 0 or len(v) == 8, 'offset is not aligned to 8 characters')
        v = v[i:]
        if not decimal:
            h.check(h.eq(v[:2], [0x30, 0x78]), 'no 0x prefix')
            v = v[2:]
            h.check(len(v) >= 4 and len(v) % 2 == 0, 'number of hex digits is less than 4 or odd')
            val = 0
            for c in v:
                d = hexval(h, c)
                h.check(d is not None, 'not a hex digit')
                if d is None:
                    return
                val = val * 16 + d
        else:
            h.check(len(v) >= 1, 'no digits')
            val = 0
            for c in v:
                d = h.digit(c, 10)
                h.check(d is not None, 'not a decimal digit')
                if d is None:
                    return
                val = val * 10 + d
        h.check(val == n, 'printed offset differs from the real one')


def k03line(h, hi):
    """every line number up to `hi`: it is printed whole, padded to 2 characters, or to 8 at a debug level"""
    from kolombos.console import Console, ConsoleOutputBuffer
    from kolombos.settings import SettingsManager
    SettingsManager.init()
    d = h.concrete(h.int('d', 0, 4))
    SettingsManager.app_settings.debug = d
    n = h.int('n', 1, hi)
    out = []
    Console.print = staticmethod(lambda s='', end='\n', **kw: out.append(s + end))
    b = ConsoleOutputBuffer()
    b.write_with_line_num('x', line_num=n)
    b.flush()
    v = M.visible(h, h.codes(''.join(out)))
    h.observe('line', ''.join(out))
    h.check(len(v) >= 4 and h.eq(v[-2:], [PIPE, 0x78]), 'no separator after the line number')
    if len(v) < 4:
        return
    v = v[:-2]
    i = 0
    while i < len(v) and M.is_in(h, v[i], (32, 32)):
        i += 1
    h.check(i == 0 or len(v) == (8 if d else 2), 'line number is not aligned')
    h.check(len(v) >= (8 if d else 2), 'line number is not padded')
    val = 0
    for c in v[i:]:
        k = h.digit(c, 10)
        h.check(k is not None, 'not a decimal digit')
        if k is None:
            return
        val = val * 10 + k
    h.check(val == n, 'printed line number differs from the real one')


# ------------------------------------------------------------------------------------------------ K04
def k04(h, shape, cfg):
    """every byte is the placeholder iff its class is ignored"""
    cfg = sym_cfg(h, cfg)
    b = build(h, shape)
    r = run(h, cfg, b)
    show(h, r)
    toks = M.tokens(h, b)
    if cfg.mode == 'b':
        # one row, one char per byte
        lines = vlines(h, r, 'K04')
        n = len(b)
        chars = lines[0][len(lines[0]) - n:] if lines and len(lines[0]) >= n else []
        h.check(len(chars) == n, 'char column is missing')
        if len(chars) != n:
            return
        for t in toks:
            for i in range(t.s, t.e):
                x = chars[i] == M.CROSS
                if t.cls in cfg.ignore:
                    h.check(x, f'byte of ignored class {t.cls} is shown')
                elif not (t.cls == 'utf8' and cfg.decode):
                    h.check(chars[i] != M.CROSS, f'byte of class {t.cls} is ignored')
                else:
                    h.check(h.implies(M.codepoint(b, t.s, t.e - t.s) != M.CROSS, chars[i] != M.CROSS), 'UTF-8 is ignored')
    else:
        v = vis(h, r)
        i = 0
        for t in toks:
            n = t.e - t.s
            if t.cls in cfg.ignore:
                h.check(h.eq(v[i:i + n], [M.CROSS] * n), f'bytes of ignored class {t.cls} are shown')
                i += n
            else:
                k = 2 if t.kind in ('tab',) else 1
                if t.cls == 'utf8':
                    h.check(i < len(v) and h.implies(M.codepoint(b, t.s, n) != M.CROSS, v[i] != M.CROSS), 'UTF-8 is ignored')
                else:
                    h.check(i < len(v) and v[i] != M.CROSS, f'byte of class {t.cls} is ignored')
                i += k
            if t.kind == 'nl':
                h.check(h.eq(v[i:i + 1], [10]), 'no line break after a newline')
                i += 1
        rest = v[i:]
        h.check(h.eq(rest, [10] if not toks or toks[-1].kind == 'nl' else [10, 10]), 'unexpected rest of the output')


# ------------------------------------------------------------------------------------------------ K05, K06, K14
def k05(h, shape, cfg):
    cfg = sym_cfg(h, cfg)
    b = build(h, shape)
    r = run(h, cfg, b)
    show(h, r)
    toks = M.tokens(h, b)
    if cfg.mode == 't':
        exp = []
        for x in M.represent_text(h, b, toks, cfg):
            exp += x
        if toks and toks[-1].kind != 'nl':
            exp.append(10)
        exp.append(10)
        h.check(h.eq(vis(h, r), exp), 'visible text differs from the representation of the input')
    else:
        exp = M.represent_bin(h, b, toks, cfg)
        cols = h.concrete(cfg.w)
        lines = vlines(h, r, 'K05')
        got = []
        for ln in lines:
            k = min(cols, len(b) - len(got))
            if k > 0:
                got += ln[len(ln) - k:]
        h.check(h.eq(got, exp), 'char column differs from the representation of the input')


def k06(h, shape, cfg):
    cfg = sym_cfg(h, dict(mode='t', **cfg))
    b = build(h, shape)
    r = run(h, cfg, b)
    show(h, r)
    lines = vlines(h, r, 'K06')
    exp = M.expected_lines(h, b, cfg)
    h.check(len(lines) == len(exp), 'wrong number of lines')
    for x, y in zip(lines, exp):
        h.check(h.eq(x, y), 'a line differs')


k14 = k05


# ------------------------------------------------------------------------------------------------ K07
def k07(h, shape, cfg, ref=None):
    cfg = sym_cfg(h, cfg)
    b = build(h, shape)
    r = run(h, cfg, b)
    show(h, r)
    r0 = run(h, cfg.but(f=ref, plan=()), b)
    h.check(h.eq(vis(h, r), vis(h, r0)), 'output depends on the read buffer size')


# ------------------------------------------------------------------------------------------------ K08
def k08(h, shape, cfg):
    cfg = sym_cfg(h, cfg)
    b = build(h, shape)
    r = run(h, cfg, b)
    show(h, r)
    r0 = run(h, cfg.but(B=None, L=None, f=None), M.limited(h, b, cfg))
    h.check(h.eq(vis(h, r), vis(h, r0)), 'output with limits differs from the output for the limited input')
    h.check(r.code == 0, 'exit code')


# ------------------------------------------------------------------------------------------------ K09
def k09(h, shape, cfg):
    cfg = sym_cfg(h, cfg)
    b = build(h, shape)
    r = run(h, cfg, b)
    show(h, r)
    h.check(r.raised is None, f'unhandled exception {r.raised}')
    h.check(r.code == 0, 'exit code is not zero')
    h.check(len(r.err) == 0, 'error message')
    h.check(r.src.pos == len(b), 'not all bytes were read')
    v = vis(h, r)
    if cfg.mode == 'b':
        if cfg.offsets and not cfg.D:
            tot = [ord(c) for c in M.offset_label(len(b), cfg) + '│\n\n']
            h.check(h.eq(v[len(v) - len(tot):], tot), 'not all bytes were processed')
    elif not cfg.D:
        # whatever follows, a final mark is shown
        toks = M.tokens(h, b)
        if toks:
            last = M.represent_text(h, b, toks, cfg)[-1]
            if toks[-1].kind != 'nl':
                last = last + [10]
            last = last + [10]
            h.check(h.eq(v[len(v) - len(last):], last), 'the last bytes are not shown')


# ------------------------------------------------------------------------------------------------ K10
def k10(h, shape, cfg):
    cfg = sym_cfg(h, cfg)
    b = build(h, shape)
    r = run(h, cfg, b)
    show(h, r)
    v = vis(h, r)
    for i, c in enumerate(v):
        if type(c) is int:
            if c == 9:
                h.check(cfg.mode == 't' and i > 0 and v[i - 1] == ord('⇥'), 'stray tab in the output')
            elif c < 32 or c == 127:
                h.check(c == 10, 'control character in the output')
        else:
            h.check(h.all([c >= 32, c != 127]), 'control character in the output')
    nl = sum(1 for c in v if type(c) is int and c == 10)
    h.check(cfg.D > 0 or nl <= len(b) + 3, 'too many line breaks')


# ------------------------------------------------------------------------------------------------ K11
def k11(h, shape, cfg):
    cfg = sym_cfg(h, cfg)
    b = build(h, shape)
    r = run(h, cfg, b)
    show(h, r)
    vs, st = M.term(h, h.codes(r.out), ext=True)
    h.check(not st, f'styles left on at the end: {sorted(st)}')
    for c, s in vs:
        if (c == 10 if type(c) is int else M.is_in(h, c, (10, 10))):
            h.check(not s, f'styles left on at the end of a line: {sorted(s)}')


# ------------------------------------------------------------------------------------------------ K12
def k12(h, shape, cfg, ignore):
    cfg = sym_cfg(h, cfg)
    ign = [x for i, x in enumerate(ignore) if h.concrete(h.int(f'ig{i}', 0, 1)) == 1]
    if not ign:
        h.drop()
    b = build(h, shape)
    r = run(h, cfg.but(ignore=ign), b)
    show(h, r)
    r0 = run(h, cfg, b)
    toks = M.tokens(h, b)
    la, lb = vlines(h, r, 'K12'), vlines(h, r0, 'K12')
    h.check(len(la) == len(lb), 'number of lines differs')
    if len(la) != len(lb):
        return
    if cfg.mode == 'b':
        cols = h.concrete(cfg.w)
        ig = []
        for t in toks:
            ig += [t.cls in ign] * (t.e - t.s)
        p = 0
        for x, y in zip(la, lb):
            k = min(cols, len(b) - p)
            exp = list(y)
            for j in range(k):
                if ig[p + j] and len(y) >= k:
                    exp[len(y) - k + j] = M.CROSS
            h.check(h.eq(x, exp), 'output of not ignored bytes differs')
            p += k
    else:
        reps = M.represent_text(h, b, toks, cfg)
        rows = [[]]
        for t, q in zip(toks, reps):
            rows[-1].append((t, len(q) - (1 if t.kind == 'nl' else 0)))
            if t.kind == 'nl':
                rows.append([])
        if not rows[-1]:
            rows.pop()
        h.check(len(rows) == len(lb), 'number of lines differs from the number of input lines')
        for x, y, ts in zip(la, lb, rows):
            tot = sum(q for _, q in ts)
            p = len(y) - tot
            h.check(p >= 0, 'line is too short')
            exp = list(y[:p])
            for t, q in ts:
                if t.cls in ign:
                    exp += [M.CROSS] * (t.e - t.s)
                else:
                    exp += y[p:p + q]
                p += q
            h.check(h.eq(x, exp), 'output of not ignored bytes differs')


# ------------------------------------------------------------------------------------------------ K13
def k13(h, shape, cfg, focus, color=False):
    cfg = sym_cfg(h, cfg)
    foc = [x for i, x in enumerate(focus) if h.concrete(h.int(f'fc{i}', 0, 1)) == 1]
    if not foc and not color:
        h.drop()
    b = build(h, shape)
    r = run(h, cfg.but(focus=foc, color=color), b)
    show(h, r)
    r0 = run(h, cfg, b)
    ta, _ = M.term(h, h.codes(r.out))
    tb, _ = M.term(h, h.codes(r0.out))
    toks = M.tokens(h, b)
    h.check(len(ta) == len(tb), 'visible length differs')
    if len(ta) != len(tb):
        return
    sp, md = ord('␣'), ord('·')
    for (c, _), (d, _) in zip(ta, tb):
        if c is d or (type(c) is int and type(d) is int and c == d):
            continue
        if type(d) is int and d == sp and 'ws' in foc:
            h.check(c == md, 'visible text differs')
        else:
            h.check(c == d, 'visible text differs')
    if color:
        return
    # styles: which token does every visible character belong to
    assert cfg.mode == 'b' or not cfg.ln
    if cfg.mode == 'b':
        n = len(b)
        cols = h.concrete(cfg.w)
        lines = (n + cols - 1) // cols
        own = {}
        pos = 0
        for i in range(lines):
            k = min(cols, n - i * cols)
            rowlen = (9 if cfg.offsets else 0) + 3 * cols + 2 + k
            for j in range(k):
                own[pos + rowlen - k + j] = i * cols + j
            pos += rowlen + 1
        first = {t.s: t for t in toks}
        cl = {}
        for t in toks:
            for i in range(t.s, t.e):
                cl[i] = t
    else:
        own, cl, first = {}, {}, {}
        pos = 0
        for k, (t, q) in enumerate(zip(toks, M.represent_text(h, b, toks, cfg))):
            sepl = 1 if (q[0] is M.SEP_L or (type(q[0]) is int and q[0] == M.SEP_L and t.cls == 'esc')) else 0
            cl[k] = t
            first_pos = pos + sepl
            for j in range(len(q)):
                own[pos + j] = (k, pos + j == first_pos)
            pos += len(q)
    for p, ((c, s), (d, s0)) in enumerate(zip(ta, tb)):
        o = own.get(p)
        if o is None:
            if cfg.mode == 't' or p not in own:
                continue
        if cfg.mode == 'b':
            t, head = cl[o], o == cl[o].s
        else:
            t, head = cl[o[0]], o[1]
        if t.cls in foc:
            if head and not (type(c) is int and c == 10):
                h.check(not same_state(h, s, s0), f'focus does not change the style of class {t.cls}')
        else:
            h.check(same_state(h, s, s0), f'focus changes the style of another class {t.cls}')


def same_state(h, a, b):
    if a is b or a == b:
        return True
    return False


# ------------------------------------------------------------------------------------------------ K21
I102, I255, I210, I16 = ('i', 102), ('i', 255), ('i', 210), ('i', 16)
C = lambda n: ('c', n)
# the legend: colors of the markers (regular ones; focused ones are inversed where not listed)
LOOK = {'print': {'fg': I102}, 'ws': {'fg': C(96)}, 'nul': {'fg': C(91)}, 'esc': {'fg': C(93)}, 'gen': {'fg': C(31)}, 'bs': {'fg': C(31)},
        'del': {'fg': C(31)}, 'bin': {'fg': C(35)}, 'utf8': {'fg': C(94)}, 'csi': {'fg': C(92)}, 'nf': {'fg': C(32)}, 'fp': {'fg': C(33)},
        'fe': {'fg': C(33)}, 'fs': {'fg': C(33)}, 'sgr0': {'fg': I255, 'bg': I16}, 'sgr': {'fg': I210, 'bg': I16}}
LOOKF = {'print': {'fg': C(30), 'bg': C(37)}, 'ws': {'fg': C(30), 'bg': C(36)}}
OFFC = [0, 22, 23, 24, 25, 26, 27, 28, 29, 39, 49, 50, 54, 55, 59, 65, 75]


def sgr_colors(h, b, t):
    """colors and allowed attributes set by an SGR sequence; None: not decided (resets, malformed or private parameters)"""
    s, e = t.p
    vals, cur = [], None
    for i in range(s, e):
        if M.is_in(h, b[i], (0x3b, 0x3b)):
            if cur is not None:
                vals.append(cur)
            cur = None
        elif M.is_in(h, b[i], (0x30, 0x39)):
            cur = (cur or 0) * 10 + (b[i] - 0x30)
        else:
            return None
    if cur is not None:
        vals.append(cur)
    if e < t.e - 1:
        return None
    st, i = {}, 0
    while i < len(vals):
        v = vals[i] if type(vals[i]) is int else M.pick(h, vals[i], True)
        if v in OFFC:
            return None
        if v in (38, 48):
            if i + 2 < len(vals) and h.force(vals[i + 1] == 5):
                i += 2
            elif i + 4 < len(vals) and h.force(vals[i + 1] == 2):
                i += 4
            else:
                return None
        i += 1
    full = M.term_apply(h, {}, vals, True) if vals else {}
    return {k: v for k, v in full.items() if k in ('fg', 'bg', 'dim', 'italic', 'crossed', 'overlined')}


def same_look(h, a, b):
    if set(a) != set(b):
        return False
    return h.all([h.all([x == y for x, y in zip(a[k], b[k])]) if type(a[k]) is tuple and len(a[k]) == len(b[k]) else a[k] == b[k] for k in a])


def k21(h, shape, cfg):
    """every character of a marker and every hex digit has the colors that the legend gives to its class"""
    cfg = sym_cfg(h, cfg)
    b = build(h, shape)
    r = run(h, cfg, b)
    show(h, r)
    toks = M.tokens(h, b)
    tv, _ = M.term(h, h.codes(r.out), ext=True)

    def looks(t):
        """(look of the marker, look of the rest of the sequence)"""
        if t.cls in cfg.ignore:
            x = {'fg': C(90), 'dim': 1}
            return x, x
        kk = t.kind if t.cls in ('ctrl', 'esc') else t.cls
        base = LOOK[kk]
        col = sgr_colors(h, b, t) if kk == 'sgr' and cfg.color else None
        if kk == 'sgr' and cfg.color:
            return col, (None if col is None else dict({'bg': I16, 'underlined': 1}, **col))
        look = base if t.cls not in cfg.focus else LOOKF.get(kk, dict(base, inversed=1))
        return look, dict(base if kk != 'sgr' else {}, bg=I16, underlined=1)

    def expect(st, look, what):
        if look is not None:
            h.check(same_look(h, st, look), f'{what} has other colors than in the legend')

    if cfg.mode == 't':
        lines, cur = [], []
        for c, st in tv:
            if c == 10 if type(c) is int else M.is_in(h, c, (10, 10)):
                lines.append(cur)
                cur = []
            else:
                cur.append((c, st))
        reps = M.represent_text(h, b, toks, cfg)
        row, p = 0, 0
        pre = 3 if cfg.ln else 0
        for t, q in zip(toks, reps):
            if p == 0 and pre:
                p = pre
            mk, rest = looks(t)
            n = len(q) - (1 if t.kind == 'nl' else 0)
            cells = lines[row][p:p + n] if row < len(lines) else []
            h.check(len(cells) == n, 'a marker is missing')
            if len(cells) != n:
                return
            p += n
            if t.cls in cfg.ignore or t.kind == 'tab':
                for _, st in cells:
                    expect(st, mk, t.cls)
            else:
                if t.cls == 'esc' and cfg.m and cfg.sep:
                    expect(cells[0][1], {'fg': I255}, 'separator')
                    expect(cells[-1][1], {'fg': I255}, 'separator')
                    cells, q = cells[1:-1], q[1:-1]
                expect(cells[0][1], mk, t.cls)
                for (c, st), d in zip(cells[1:], q[1:]):
                    if type(d) is int and d == M.DOT and rest is not None:
                        expect(st, {k: v for k, v in rest.items() if k != 'underlined'}, 'dot')
                    else:
                        expect(st, rest, t.cls + ' details')
            if t.kind == 'nl':
                row, p = row + 1, 0
        return
    # binary mode: one row
    n = len(b)
    cols = h.concrete(cfg.w)
    rows, cur = [], []
    for c, st in tv:
        if type(c) is int and c == 10:
            rows.append(cur)
            cur = []
        else:
            cur.append((c, st))
    pre = 9 if cfg.offsets else 0
    for t in toks:
        mk, rest = looks(t)
        for i in range(t.s, t.e):
            ri, ci = divmod(i, cols)
            k = min(cols, n - ri * cols)
            row = rows[ri] if ri < len(rows) else []
            h.check(len(row) == pre + 3 * cols + 2 + k, 'wrong length of a row')
            if len(row) != pre + 3 * cols + 2 + k:
                return
            look = mk if i == t.s or t.cls != 'esc' or t.cls in cfg.ignore else rest
            for c, st in (row[pre + 3 * ci + 1], row[pre + 3 * ci + 2], row[len(row) - k + ci]):
                expect(st, look, t.cls)


# ------------------------------------------------------------------------------------------------ K22
def unfinished(h, b):
    """number of bytes at the end of b that may be a beginning of a sequence"""
    for i in range(len(b) - 1, -1, -1):
        c, rest = b[i], b[i + 1:]
        if M.is_in(h, c, (0x1b, 0x1b)):
            if rest and M.is_in(h, rest[0], (0x5b, 0x5b)):
                rest = rest[1:]
                while rest and M.is_in(h, rest[0], (0x30, 0x3f)):
                    rest = rest[1:]
            return 0 if any(not M.is_in(h, x, (0x20, 0x2f)) for x in rest) else len(b) - i
        if M.is_in(h, c, (0xc2, 0xf4)):
            need = 2 if M.is_in(h, c, (0xc2, 0xdf)) else 3 if M.is_in(h, c, (0xe0, 0xef)) else 4
            return len(b) - i if len(rest) < need - 1 and all(M.is_in(h, x, (0x80, 0xbf)) for x in rest) else 0
        if not M.is_in(h, c, (0x20, 0x3f), (0x5b, 0x5b), (0x80, 0xbf)):
            return 0
    return 0


def k22(h, shape, cfg):
    """output keeps up with the input; nothing is asked for beyond a limit"""
    cfg = sym_cfg(h, cfg)
    b = build(h, shape)
    r = run(h, cfg, b)
    show(h, r)
    size = h.concrete(cfg.f) if cfg.f is not None else None
    size = size or (128 if cfg.D else 4096)
    maxb = h.concrete(cfg.B) if cfg.B is not None else 0
    maxl = h.concrete(cfg.L) if cfg.L is not None else 0
    h.observe('reads', [(n, p) for n, p, _ in r.src.hist])
    h.check(len(r.src.hist) > 0, 'nothing is read')
    for n, pos, k in r.src.hist:
        h.check(type(n) is int and (n == size or maxb > 0 and 0 < n < size), f'a read asks for {n} bytes, not {size}')
        got = b[:pos]
        nl = sum(1 for c in got if M.is_in(h, c, (10, 10)))
        h.check(not maxb or pos < maxb, 'more is read than the limit of bytes needs')
        h.check(not maxl or nl < maxl, 'more is read than the limit of lines needs')
        if cfg.D:
            continue
        out = ''
        for tag, s in r.log[:k]:
            if tag == 'o':
                out = out + s
        lines, tail = M.split_lines(h, M.visible(h, h.codes(out)))
        if cfg.mode == 't':
            h.check(len(lines) >= nl, 'a complete line is not shown before the next read')
        else:
            cols = h.concrete(cfg.w)
            h.check(len(lines) >= (pos - unfinished(h, got)) // cols, 'a complete row is not shown before the next read')


# ------------------------------------------------------------------------------------------------ K16
def k16(h, shape, cfg):
    cfg = sym_cfg(h, dict(mode='b', **cfg))
    b = build(h, shape)
    r = run(h, cfg, b)
    show(h, r)
    lines = vlines(h, r, 'K16')
    got = hex_column(h, lines, cfg)
    h.check(h.eq(got, b), 'data is not shown completely')
    if cfg.offsets:
        lines = lines[:-1]
    n = len(b)
    pre = 9 if cfg.offsets else 0
    if not n:
        return
    h.check(len(lines) > 0, 'no rows')
    if not lines:
        return
    W = cfg.width
    # all rows but the last one hold the same number of bytes: full row = pre + 3c + 2 + c
    full = len(lines[0]) if len(lines) > 1 else None
    if full is not None:
        c, rem = divmod(full - pre - 2, 4)
        h.check(rem == 0 and c > 0 and c % 4 == 0, 'number of columns is not a positive multiple of four')
        for x in lines[1:-1]:
            h.check(len(x) == full, 'rows are different')
        h.check(h.implies(W < pre + 2 + 16, c == 4), 'more than four columns on a narrow terminal')
    for x in lines:
        h.check(h.any([len(x) <= W, W < pre + 2 + 16]), 'row is wider than the terminal')


# ------------------------------------------------------------------------------------------------ K17
EXC = {'BrokenPipeError': lambda: BrokenPipeError(32, 'Broken pipe'), 'OSError': lambda: OSError(5, 'Input/output error'), 'ValueError': lambda: ValueError('bad'),
       'RuntimeError': lambda: RuntimeError('fail'), 'FileNotFoundError': lambda: FileNotFoundError(2, 'No such file', A.PATH),
       'PermissionError': lambda: PermissionError(13, 'Permission denied', A.PATH),
       'IsADirectoryError': lambda: IsADirectoryError(21, 'Is a directory', A.PATH)}


TRACEBACK = [ord(c) for c in 'Traceback (most recent call last):']


def k17(h, shape, cfg, exc, open_=False, maxread=6):
    cfg = sym_cfg(h, cfg)
    b = build(h, shape)
    r0 = run(h, cfg, b)
    if open_:
        r = run(h, cfg, b, open_fault=EXC[exc]())
        failed = True
    else:
        k = h.concrete(h.int('fault', 0, maxread))
        if k >= r0.src.reads:
            h.drop()
        r = run(h, cfg, b, fault=(k, EXC[exc]()))
    h.observe('code', r.code)
    h.observe('err', r.err)
    h.check(r.raised is None, f'unhandled exception {r.raised}')
    h.check(r.code == 1, 'exit code after a failure is not 1')
    h.check(len(r.err) > 0, 'no error message')
    if not open_:
        h.check(r.src.closed, 'input is not closed after a failure')
    before, j = [], 0
    for tag, s in r.log:
        if tag == 'e':
            break
        j = len(before)
        before += h.codes(s)
        c = M.visible(h, before[j:])
        if cfg.D and len(c) >= len(TRACEBACK) and h.force(h.eq(c[:len(TRACEBACK)], TRACEBACK)):
            before = before[:j]
            break
    h.observe('out', before)
    reg = h.codes(r0.out)
    h.check(len(before) <= len(reg) and h.eq(before, reg[:len(before)]), 'output before the failure is not a prefix of the regular one')
    v = M.visible(h, before)
    h.check(not v or h.eq(v[-1:], [10]), 'output before the failure is not cut at a line boundary')
    h.check(r0.code == 0 and len(r0.err) == 0 and r0.src.closed, 'regular run: exit code or input is not closed')


def k17int(h, shape, cfg, maxread=6):
    """the user interrupts the program (Ctrl+C) while it waits for input"""
    cfg = sym_cfg(h, cfg)
    b = build(h, shape)
    r0 = run(h, cfg, b)
    k = h.concrete(h.int('fault', 0, maxread))
    if k >= r0.src.reads:
        h.drop()
    r = run(h, cfg, b, fault=(k, KeyboardInterrupt()))
    show(h, r)
    h.check(r.raised is None, f'unhandled exception {r.raised}')
    h.check(r.code == 0, 'exit code after an interruption is not 0')
    h.check(len(r.err) == 0, 'a message is printed after an interruption')
    h.check(r.src.closed, 'input is not closed after an interruption')
    reg, out = vis(h, r0), vis(h, r)
    h.check(out[-1:] == [10], 'output after an interruption does not end with a newline')
    out = out[:-1]
    h.check(len(out) <= len(reg) and h.eq(out, reg[:len(out)]), 'output before the interruption is not a prefix of the regular one')
    h.check(not out or h.eq(out[-1:], [10]), 'output before the interruption is not cut at a line boundary')
    h.check(r0.code == 0 and len(r0.err) == 0 and r0.src.closed, 'regular run: exit code or input is not closed')


def k17out(h, shape, cfg, exc='BrokenPipeError', maxwrite=12):
    """the output goes away (closed pipe, full disk) at a symbolic write"""
    cfg = sym_cfg(h, cfg)
    b = build(h, shape)
    r0 = run(h, cfg, b)
    k = h.concrete(h.int('wfault', 0, maxwrite))
    r = run(h, cfg, b, out_fault=(k, EXC[exc]()))
    n = next((i for i, (t, _) in enumerate(r.log) if t == 'f'), None)
    if n is None:
        h.drop()
    out, reg = h.codes(r.out), h.codes(r0.out)
    h.observe('out', out)
    h.check(r.raised is not None or r.code == 1, 'exit code after a failed write is not 1')
    h.check(r.src.closed, 'input is not closed after a failed write')
    h.check(len(out) <= len(reg) and h.eq(out, reg[:len(out)]), 'output before the failed write is not a prefix of the regular one')
    h.check(all(at <= n for _, _, at in r.src.hist), 'input is read after a write has failed')


def k17ok(h, shape, cfg):
    """without failures: closed after everything is read, exit code 0; nothing is read after closing"""
    cfg = sym_cfg(h, cfg)
    b = build(h, shape)
    r = run(h, cfg, b)
    show(h, r)
    h.check(r.code == 0 and r.raised is None, 'exit code')
    h.check(r.src.closed, 'input is not closed')
    h.check(len(r.err) == 0, 'error message')


# ------------------------------------------------------------------------------------------------ K18
def k18(h, shape, cfg, D):
    cfg = sym_cfg(h, cfg)
    b = build(h, shape)
    lvl = h.concrete(h.int('lvl', D[0], D[1]))
    r = run(h, cfg.but(D=lvl), b)
    show(h, r)
    if cfg.mode == 't':
        r0 = run(h, cfg.but(ln=False), b)
        base = vlines(h, r0, 'K18')
        base = [[ord(c) for c in '%8d│' % (i + 1)] + x for i, x in enumerate(base)]
    else:
        r0 = run(h, cfg.but(offsets=True), b)
        base = vlines(h, r0, 'K18')
    h.check(r.code == r0.code, 'exit code differs')
    dl, tail = M.split_lines(h, vis(h, r))
    p = 0
    for x in base:
        while p < len(dl) and not h.force(h.eq(dl[p], x)):
            p += 1
        h.check(p < len(dl), 'a regular line is missing in debug mode')
        if p >= len(dl):
            return
        p += 1


# ------------------------------------------------------------------------------------------------ K19
OPT = {'text': '-t', 'binary': '-b', 'legend': '-l', 'version': '-v', 'focus-space': '-s', 'focus-control': '-c',
       'focus-printable': '-p', 'focus-esc': '-e', 'focus-utf8': '-u', 'focus-binary': '-i', 'ignore-space': '-S',
       'ignore-control': '-C', 'ignore-printable': '-P', 'ignore-esc': '-E', 'ignore-utf8': '-U', 'ignore-binary': '-I',
       'buffer': '-f', 'max-lines': '-L', 'max-bytes': '-B', 'debug': '-D', 'color-markers': None, 'marker': '-m',
       'no-separators': None, 'no-line-numbers': None, 'columns': '-w', 'decode': '-d', 'decimal-offsets': None,
       'no-offsets': None, 'demo': '-M'}
VALUED = {'buffer': (2, 3), 'max-lines': (0, 1), 'max-bytes': (8, 9), 'marker': (1, 2), 'columns': (2, 3)}
EXCL = [{'text', 'binary', 'legend'}, {'decimal-offsets', 'no-offsets'}] + [
    {'focus-' + c, 'ignore-' + c} for c in ('space', 'control', 'printable', 'esc', 'utf8', 'binary')]
ALLK = 'a \x01\n\x1b[1;31m\xc3\xa9\xff\t\x1b(B'


def k19(h, names, n=2, base=(), shape=(ALLK,), filepos=True, forms=(0, 1, 2, 3, 4)):
    """n different options out of `names` (None: any) in any order and spelling, with a file name at any place; the same
    options spelled `--name=value` in front of the file name are the reference"""
    pool = list(names or OPT)
    b = build(h, list(shape))
    base = list(base)
    chosen = []
    for i in range(n):
        k = h.concrete(h.int(f'opt{i}', 0, len(pool) - 1))
        chosen.append(pool.pop(k))
    vals = {o: h.int('v_' + o, *VALUED[o]) for o in chosen + base if o in VALUED}
    if 'marker' in vals:
        vals['marker'] = h.concrete(vals['marker'])
    argv, spell = [], []
    for o in chosen:
        v = vals.get(o)
        if o in VALUED:
            f = forms[h.concrete(h.int('f_' + o, 0, len(forms) - 1))]
            s = OPT[o]
            argv += [[(s, v)], [s, ('', v)], [(s + '=', v)], [f'--{o}', ('', v)], [(f'--{o}=', v)]][f]
            spell.append('short attached' if f == 0 else 'other')
        else:
            f = h.concrete(h.int('f_' + o, 0, 1)) if OPT[o] else 1
            if f == 0 and spell and spell[-1] == 'flag' and h.concrete(h.int('cl_' + o, 0, 1)):
                argv[-1] += OPT[o][1]
            else:
                argv.append(f'--{o}' if f else OPT[o])
            spell.append('other' if f else 'flag')
    # a cluster of flags may end with an option that takes a value
    if n > 1 and spell[-1] == 'short attached' and spell[-2] == 'flag' and h.concrete(h.int('clv', 0, 1)):
        last = argv.pop()
        argv[-1] = (argv[-1] + last[0][1], last[1])
    ref = [(f'--{o}=', vals[o]) if o in VALUED else f'--{o}' for o in sorted(chosen + base)]
    bs = [(f'--{o}=', vals[o]) if o in VALUED else f'--{o}' for o in base]
    has_file = 'demo' not in chosen + base
    full = bs + argv
    if has_file and filepos:
        # the file name: in front, between, at the end (never between an option and its separate value)
        cuts = [i for i in range(len(full) + 1) if i == 0 or i == len(full) or not (
            type(full[i]) is tuple and full[i][0] == '')]
        c = cuts[h.concrete(h.int('file', 0, len(cuts) - 1))]
        full = full[:c] + [A.PATH] + full[c:]
        r = A.run_app(h, full, h.mkbytes(b), via='argv')
    elif has_file:
        r = A.run_app(h, full, h.mkbytes(b), via='stdin')
    else:
        r = A.run_app(h, full, h.mkbytes(b), demo=True)
    show(h, r)
    sel = set(chosen + base)
    if any(len(sel & e) > 1 for e in EXCL):
        h.check(r.code == 2 and r.raised is None, 'contradictory options are not refused with exit code 2')
        h.check(r.src.reads == 0 and len(r.out) == 0 and len(r.err) > 0, 'contradictory options: something is processed')
        return
    if has_file and filepos:
        r0 = A.run_app(h, ref + [A.PATH], h.mkbytes(b), via='argv')
    elif has_file:
        r0 = A.run_app(h, ref, h.mkbytes(b), via='stdin')
    else:
        r0 = A.run_app(h, ref, h.mkbytes(b), demo=True)
    h.check(r.raised is None and r.code == 0 and r0.code == 0, f'exit code is not 0 ({r.raised})')
    h.check(len(r.err) == 0, 'error message')
    h.check(h.eq(h.codes(r.out), h.codes(r0.out)), 'spelling, order or place of options changes the output')


def k19def(h, shape, cfg):
    """no mode option: text mode; no options at all: the documented defaults; zero limits and details are no options"""
    cfg = sym_cfg(h, cfg)
    b = build(h, shape)
    args = list(cfg.argv())
    r0 = A.run_app(h, args, h.mkbytes(b), via=cfg.via, width=cfg.width)
    t = [x for x in args if x not in ('-t',)]
    for i, z in enumerate([('-f', 4096), '-m0', ('-L', 0), ('--max-bytes=', 0)]):
        if cfg.f is None and (i != 1 or not cfg.m) and h.concrete(h.int(f'z{i}', 0, 1)):
            t.append(z)
    r = A.run_app(h, t, h.mkbytes(b), via=cfg.via, width=cfg.width)
    show(h, r)
    h.check(r.code == 0 and r.raised is None, 'exit code')
    h.check(h.eq(h.codes(r.out), h.codes(r0.out)), 'defaults differ from the documented ones')


NAMES = ['@x', '+x', 'a b', 'x=y', '%d', 'é.bin', '.', 'a@b', './-b', '~', '*', '--help.txt', '-b', '-1', '-', '--', '-5x', '-w3']


def k19file(h, shape):
    """any file name can be given (those that look like options after "--"), numbers are decimal"""
    b = build(h, list(shape))
    name = NAMES[h.concrete(h.int('name', 0, len(NAMES) - 1))]
    args = [['-b', ('-w', 3)], ['--no-line-numbers']][h.concrete(h.int('opts', 0, 1))]
    if name.startswith('-'):
        r = A.run_app(h, args + ['--', name], h.mkbytes(b), via='argv' if name != '-' else 'stdin', path=name)
    elif h.concrete(h.int('dashes', 0, 1)):
        r = A.run_app(h, args + ['--', name], h.mkbytes(b), via='argv', path=name)
    else:
        r = A.run_app(h, ([name] + args) if h.concrete(h.int('first', 0, 1)) else args + [name], h.mkbytes(b), via='argv', path=name)
    show(h, r)
    r0 = A.run_app(h, args, h.mkbytes(b), via='stdin')
    h.check(r.code == 0 and r.raised is None and len(r.err) == 0, 'exit code is not 0 or there is an error message')
    h.check(h.eq(h.codes(r.out), h.codes(r0.out)), 'the name of the file changes the output')


def k19num(h, shape):
    """numbers are decimal, with or without leading zeros"""
    b = build(h, list(shape))
    o = ['columns', 'buffer', 'max-lines', 'max-bytes', 'marker'][h.concrete(h.int('opt', 0, 4))]
    v = h.int('v', 1, 2 if o == 'marker' else 12)
    if o == 'marker':
        v = h.concrete(v)
    z = '0' * h.concrete(h.int('zeros', 1, 3))
    f = h.concrete(h.int('form', 0, 2))
    sp = [[(OPT[o] + z, v)], [OPT[o], (z, v)], [(f'--{o}={z}', v)]][f]
    base = ['-b'] if o == 'columns' else []
    r = A.run_app(h, base + sp, h.mkbytes(b), via='stdin')
    r0 = A.run_app(h, base + [(f'--{o}=', v)], h.mkbytes(b), via='stdin')
    show(h, r)
    h.check(r.code == 0 and r.raised is None and len(r.err) == 0, 'exit code is not 0 or there is an error message')
    h.check(h.eq(h.codes(r.out), h.codes(r0.out)), 'leading zeros change the meaning of a number')


BAD = [['--frobnicate'], ['-x'], ['-w'], ['-w', 'x'], ['-f', '1.5'], ['--columns=ten'], ['-L', ''], ['--max-bytes'], ['-m', 'a'],
       ['-B', '1k'], ['a.bin', 'b.bin'], ['--demo', 'a.bin'], ['-tb'], ['-bl'], ['-sS'], ['-cC'], ['-pP'], ['-eE'], ['-uU'], ['-iI'],
       ['--no-offsets', '--decimal-offsets'], ['--text=1'], ['-Dx'], ['--decode=no'], ['-L0x3'], ['-w', '0b1'], ['--buffer=1e2']]


def k19bad(h, shape=(ALLK,)):
    """wrong usage is refused before anything is read"""
    b = build(h, list(shape))
    i = h.concrete(h.int('bad', 0, len(BAD) - 1))
    extra = [[], ['-b'], ['-s'], ['-D'], ['--no-separators']][h.concrete(h.int('extra', 0, 4))]
    first = h.concrete(h.int('first', 0, 1))
    r = A.run_app(h, (extra + BAD[i]) if first else BAD[i] + extra, h.mkbytes(b), via='stdin')
    show(h, r)
    h.check(r.code == 2 and r.raised is None, 'wrong usage is not refused with exit code 2')
    h.check(r.src.reads == 0 and len(r.out) == 0 and len(r.err) > 0, 'wrong usage: something is processed')


def k19info(h, names, shape=(ALLK,)):
    """--help, --legend and --version print their text whatever the other options are and read nothing"""
    b = build(h, list(shape))
    what = h.concrete(h.int('what', 0, 5))
    main = ['-h', '--help', '-l', '--legend', '-v', '--version'][what]
    args = [o for o in names if h.concrete(h.int('o_' + o, 0, 1))]
    r = A.run_app(h, [main] + args if h.concrete(h.int('first', 0, 1)) else args + [main], h.mkbytes(b), via='stdin')
    r0 = A.run_app(h, [main], h.mkbytes(b), via='stdin')
    h.observe('code', r.code)
    h.check(r.code == 0 and r.raised is None, 'exit code is not 0')
    h.check(r.src.reads == 0 and len(r.err) == 0, 'input is read or an error is printed')
    o, o0 = h.codes(r.out), h.codes(r0.out)
    h.check(len(o0) > 20 and len(o) >= len(o0) and h.eq(o[len(o) - len(o0):], o0), 'the text depends on other options')
    t = ''.join(chr(c) for c in M.visible(h, o0))
    if what < 2:
        h.check(all(f'--{n}' in t and (OPT[n] is None or OPT[n] + ', --' + n in t) for n in OPT), 'an option is missing in the help')
    elif what < 4:
        h.check(not any(l.startswith('#') for l in t.split('\n')), 'comments of the legend file are shown')
    else:
        h.check('kolombos' in t and 'pytermor' in t, 'version')


# ------------------------------------------------------------------------------------------------ K20
def k20(h, shape, cfg, w=(0, 5), few=False):
    """--demo processes the demo file as -b -d -w16 (unless overridden) and adds a hint"""
    cfg = sym_cfg(h, cfg)
    b = build(h, shape)
    mode = h.concrete(h.int('mode', 0, 2))          # none, -b, -t
    args = [x for x in cfg.but(mode='b', decode=False, w=None).argv() if x != '-b'] + [[], ['-b'], ['-t']][mode]
    ref = cfg.but(mode='t' if mode == 2 else 'b', decode=True, w=None)
    rargs = list(ref.argv())
    if not few and h.concrete(h.int('d', 0, 1)):
        args.append('-d')
    if w and h.concrete(h.int('haswidth', 0, 1)):
        w = h.int('w', *w)
        args.append(('-w', w))
        rargs.append(('-w', w))
    elif mode != 2:
        rargs.append('-w16')
    m = 2 if few else 2 * h.concrete(h.int('m', 0, 1))
    args.append(f'-m{m}')
    rargs.append(f'-m{m}')
    r = A.run_app(h, args + ['--demo'] if few or h.concrete(h.int('last', 0, 1)) else ['-M'] + args, h.mkbytes(b), demo=True, width=cfg.width)
    r0 = A.run_app(h, rargs, h.mkbytes(b), via='file', width=cfg.width)
    show(h, r)
    h.check(r.code == 0 and r.raised is None and len(r.err) == 0, 'exit code or error message')
    h.check(r.src.closed, 'demo file is not closed')
    o, o0 = h.codes(r.out), h.codes(r0.out)[:-1]
    h.check(len(o) > len(o0) and h.eq(o[:len(o0)], o0), 'demo output differs from that of the explicit options')
    tail = ''.join(chr(c) for c in M.visible(h, o[len(o0):]))
    h.check('--legend' in tail and tail.startswith('\n') and tail.endswith('\n\n') and tail.count('\n') == 3, 'no hint at the end')
