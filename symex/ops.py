"""Runtime operations called by instrumented code (see instr.py): models of builtins and C-implemented methods over
symbolic values.  Whatever is not modelled gets concrete arguments (forking over all their feasible values: sound)."""
from __future__ import annotations
import bisect, builtins, collections, functools, heapq, io, itertools, math, operator, re, string, sys, types
from . import core
from .core import (Engine, SymInt, SymBool, SymRat, Table, sym_and, sym_or, sym_not, mk_bool, intern_table, to_rat,
                   round_half_even, Unsupported)
from .seq import (SymSeq, SymStr, SymBytes, make, elems_of, conc, is_sym, eq_elems, in_ranges)

from .sdict import SymDict, KeyList, symkey, keq

FORMAT_HOOKS = {}
DICTS = (dict, SymDict)


def has_sym(x, depth=2):
    if isinstance(x, (SymInt, SymBool, SymRat, SymSeq)):
        return True
    if depth and type(x) in (list, tuple):
        return any(has_sym(i, depth - 1) for i in x)
    if depth and type(x) in DICTS:
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    return False


# ------------------------------------------------------------------------------------------------ lifting
_lift_cache = {}
_EXC = object()


def lift(fn, term, key=None):
    """apply a Python function of one argument to a unary term: exact, by evaluation over the (finite) domain.
    Forks only if results differ in type/length."""
    if not isinstance(term, SymInt):
        return fn(term)
    if term.var is None:
        return fn(term.concrete())
    eng = Engine.cur
    dom = eng.dom[term.var]
    ck = (key, term.tab, dom) if key is not None else None
    groups = _lift_cache.get(ck) if ck is not None else None
    if groups is None:
        groups = {}
        m = dom
        memo = {}
        while m:
            low = m & -m
            i = low.bit_length() - 1
            m ^= low
            v = term.tab[i]
            if v not in memo:
                try:
                    memo[v] = fn(v)
                except Exception as ex:   # noqa
                    memo[v] = (_EXC, ex)
            r = memo[v]
            t = type(r)
            if t is bool or t is int:
                k = ('i', t is bool)
            elif t is str or t is bytes:
                k = (t, len(r))
            elif t is tuple and len(r) == 2 and r[0] is _EXC:
                k = ('x', type(r[1]), str(r[1]))
            else:
                try:
                    hash(r)
                    k = ('v', t, r)
                except TypeError:
                    k = ('id', id(r))
            g = groups.setdefault(k, [0, {}, r])
            g[0] |= low
            g[1][i] = r
        if ck is not None:
            if len(_lift_cache) > 20000:
                _lift_cache.clear()
            _lift_cache[ck] = groups
    keys = list(groups)
    c = 0
    if len(keys) > 1:
        c = eng._decide_n(len(keys))
        eng.dom[term.var] = groups[keys[c]][0]
    mask, res, sample = groups[keys[c]]
    k = keys[c]
    n = term.var.n
    if k[0] == 'i':
        if k[1]:
            mm = 0
            for i, r in res.items():
                if r:
                    mm |= 1 << i
            if mm == mask:
                return True
            if mm == 0:
                return False
            return SymBool(term.var, mm)
        vals = set(res.values())
        if len(vals) == 1:
            return sample
        d = next(iter(res.values()))
        return SymInt(term.var, intern_table(tuple(res.get(i, d) for i in range(n))))
    if k[0] is str or k[0] is bytes:
        L = k[1]
        el = []
        cols = {i: (tuple(map(ord, r)) if k[0] is str else tuple(r)) for i, r in res.items()}
        for p in range(L):
            vals = {c[p] for c in cols.values()}
            if len(vals) == 1:
                el.append(next(iter(vals)))
            else:
                d = next(iter(vals))
                el.append(SymInt(term.var, intern_table(tuple(cols[i][p] if i in cols else d for i in range(n)))))
        return make(k[0], tuple(el))
    if k[0] == 'x':
        raise type(sample[1])(*sample[1].args)
    return sample


# ------------------------------------------------------------------------------------------------ formatting
_SPEC = re.compile(r'(?:(.)?([<>=^]))?([-+ ])?(z)?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([a-zA-Z%])?\Z', re.S)


def parse_spec(spec):
    m = _SPEC.match(spec)
    if not m:
        return None
    fill, align, sign, _, alt, zero, width, grp, prec, typ = m.groups()
    return fill, align, sign, alt, zero, int(width) if width else 0, grp, int(prec) if prec is not None else None, typ


def pad(body, width, fill, align):
    n = width - len(body)
    if n <= 0:
        return body
    f = fill or ' '
    if align == '<':
        return body + f * n
    if align == '^':
        return f * (n // 2) + body + f * (n - n // 2)
    return f * n + body


def dec_digits(v, base=10, upper=False, maxd=80):
    """digits (as element codes) of a non-negative general SymInt; forks on the number of digits"""
    if v.dec is not None and base == 10:
        d = list(v.dec)
        while len(d) > 1:
            if d[0] == 48:      # leading zero
                d.pop(0)
            else:
                break
        return tuple(d)
    if v.digs is not None and v.digs[0] == base:
        d = list(v.digs[1])
        while len(d) > 1 and d[0] == 0:
            d.pop(0)
        return tuple(x.__class__(x.var, core.tbl_op1(x.tab, ('dig', upper), lambda t: ord(('0123456789ABCDEF' if upper else
                     '0123456789abcdef')[t]))) for x in d)
    n = 1
    lim = base
    while v >= lim:
        n += 1
        lim *= base
        if n > maxd:
            raise Unsupported('too many digits')
    out = []
    for k in range(n - 1, -1, -1):
        q = v if k == 0 else v // base ** k
        d = q if k == n - 1 else q % base
        if isinstance(d, SymInt) and d.var is None:
            d.lo, d.hi = (0, base - 1)
            if base > 10:
                d = digit_char(d, upper)
            else:
                d = d + 48
        elif isinstance(d, SymInt):
            d = d.__class__(d.var, core.tbl_op1(d.tab, ('dig', upper), lambda x: ord(('0123456789ABCDEF' if upper else '0123456789abcdef')[x % 16])))
        else:
            d = ord(('0123456789ABCDEF' if upper else '0123456789abcdef')[d])
        out.append(d)
    return tuple(out)


def digit_char(d, upper):
    import z3
    off = 55 if upper else 87
    z = d.z()
    return SymInt(None, None, z3.If(z < 10, z + 48, z + off), 48, off + 15)


def fmt_int(v, spec=''):
    """format(int, spec)"""
    if isinstance(v, SymBool):
        v = bool(v)
    if not isinstance(v, SymInt):
        return format(v, spec)
    if v.var is not None and v.dec is None:
        return lift(lambda x: format(x, spec), v, ('fmt', spec))
    p = parse_spec(spec)
    if p is None:
        return format(v.concrete(), spec)
    fill, align, sign, alt, zero, width, grp, prec, typ = p
    typ = typ or 'd'
    if typ == 'n':
        typ = 'd'
    if typ in 'feEgGF%':
        return fmt_rat(to_rat(v), spec)
    if typ == 'c':
        return pad(make(str, (v,)), width, fill, align or '<')
    if typ not in 'dxXob' or prec is not None:
        return format(v.concrete(), spec)
    neg = bool(v < 0)
    a = -v if neg else v
    base = {'d': 10, 'x': 16, 'X': 16, 'o': 8, 'b': 2}[typ]
    digs = dec_digits(a, base, typ == 'X') if isinstance(a, SymInt) else tuple(map(ord, format(a, typ)))
    sgn = '-' if neg else (sign if sign in ('+', ' ') else '')
    pre = sgn + ('0' + typ if alt and typ != 'd' else '')
    if grp:
        g = 3 if base == 10 else 4
        out = []
        for i, c in enumerate(digs):
            if i and (len(digs) - i) % g == 0:
                out.append(ord(grp))
            out.append(c)
        digs = tuple(out)
        if zero and width > len(digs) + len(pre):
            return format(v.concrete(), spec)
    return _num_finish(pre, make(str, digs), width, fill, align, zero)


def _num_finish(pre, body, width, fill, align, zero):
    if zero and not align:
        align, fill = '=', '0'
    if align == '=':
        return pre + pad(body, width - len(pre), fill, '>')
    return pad(pre + body, width, fill, align or '>')


def fmt_rat(v, spec=''):
    """format(float, spec) of an exact rational: fixed point only, others are concretised"""
    p = parse_spec(spec)
    if p is None or p[8] not in ('f', 'F'):
        return format(v.concrete(), spec)
    fill, align, sign, alt, zero, width, grp, prec, typ = p
    if prec is None:
        prec = 6
    if v.num == 0:
        neg = False
    else:
        neg = bool(v.num < 0)
    num = -v.num if neg else v.num
    sc = 10 ** prec
    n, d = num * sc, v.den
    g = math.gcd(sc, v.den)
    if g > 1:
        n, d = num * (sc // g), v.den // g
    q = round_half_even(n, d)
    if isinstance(q, int):
        digs = tuple(map(ord, str(q)))
    else:
        digs = tuple(map(ord, str(q))) if not isinstance(q, SymInt) else elems_of(fmt_int(q, 'd'))
    if len(digs) <= prec:
        digs = (48,) * (prec + 1 - len(digs)) + digs
    ip, fp = (digs[:-prec], digs[-prec:]) if prec else (digs, ())
    if grp:
        out = []
        for i, c in enumerate(ip):
            if i and (len(ip) - i) % 3 == 0:
                out.append(ord(grp))
            out.append(c)
        ip = tuple(out)
    body = make(str, tuple(ip) + ((46,) + tuple(fp) if prec or alt else ()))
    sgn = '-' if neg else (sign if sign in ('+', ' ') else '')
    return _num_finish(sgn, body, width, fill, align, zero)


def fmt_str(s, spec):
    p = parse_spec(spec)
    if p is None:
        return format(s.concrete(), spec)
    fill, align, sign, alt, zero, width, grp, prec, typ = p
    if sign or alt or grp or (typ not in (None, 's')):
        return format(s.concrete(), spec)
    if zero and fill is None:
        fill = '0'
    if prec is not None:
        s = s[:prec]
    return pad(s, width, fill, align or '<')


def to_str(o):
    """str(o)"""
    t = type(o)
    if t is str:
        return o
    if t is SymStr:
        return o
    if t is SymInt:
        return fmt_int(o, '')
    if t is SymBool:
        return 'True' if o else 'False'
    if t is SymRat:
        return str(o.concrete())
    if t is SymBytes:
        return str(o.concrete())
    f = t.__str__
    if isinstance(f, types.FunctionType):
        return f(o)
    if f is object.__str__:
        return to_repr(o)
    if isinstance(o, BaseException) and f is BaseException.__str__ and len(o.args) == 1 and is_sym(o.args[0]):
        return to_str(o.args[0])
    if t in (list, tuple, dict, SymDict, set, frozenset, collections.deque) and has_sym(o, 3):
        return to_repr(o)
    return str(o)


def to_repr(o):
    t = type(o)
    if t is SymInt:
        return fmt_int(o, '')
    if t is SymBool:
        return 'True' if o else 'False'
    if t in (SymStr, SymBytes, SymRat):
        return repr(o.concrete())
    f = t.__repr__
    if isinstance(f, types.FunctionType):
        if hasattr(f, '__wrapped__') and hasattr(t, '__dataclass_fields__') and f.__name__ == '__repr__':
            return t.__qualname__ + '(' + join(', ', [x.name + '=' + to_repr(getattr(o, x.name)) for x in t.__dataclass_fields__.values()
                                                      if x.repr]) + ')'
        return f(o)
    if t is list or t is collections.deque:
        r = '[' + join(', ', [to_repr(x) for x in o]) + ']'
        return r if t is list else 'deque(' + r + ')'
    if t is tuple:
        if len(o) == 1:
            return '(' + to_repr(o[0]) + ',)'
        return '(' + join(', ', [to_repr(x) for x in o]) + ')'
    return repr(o)


def join(sep, parts):
    parts = list(parts)
    for p in parts:
        if isinstance(p, SymSeq):
            break
    else:
        if not isinstance(sep, SymSeq):
            return sep.join(parts)
    k = str if isinstance(sep, (str, SymStr)) else bytes
    return (SymStr if k is str else SymBytes)(elems_of(sep)).join(parts)


def fmt(v, spec=''):
    """format(v, spec)"""
    if isinstance(spec, SymStr):
        spec = spec.concrete()
    t = type(v)
    if t is str or t is int or t is float:
        return format(v, spec)
    if t is SymStr:
        return v if not spec else fmt_str(v, spec)
    if t is SymInt:
        return fmt_int(v, spec)
    if t is SymBool:
        return format(bool(v), spec)
    if t is SymRat:
        return fmt_rat(v, spec)
    if t is SymBytes:
        return format(v.concrete(), spec)
    f = t.__format__
    if isinstance(f, types.FunctionType):
        return f(v, spec)
    if f is object.__format__:
        if spec:
            return format(v, spec)
        return to_str(v)
    return format(v, spec)


def fstr(*parts):
    """f-string: parts are str or (value, conversion, spec)"""
    out = []
    sym = False
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, cv, spec = p
        if cv == 115:
            v = to_str(v)
        elif cv == 114:
            v = to_repr(v)
        elif cv == 97:
            v = ascii(conc(to_repr(v)))
        r = fmt(v, spec)
        if type(r) is not str:
            sym = True
        out.append(r)
    if not sym:
        return ''.join(out)
    el = []
    for r in out:
        el.extend(elems_of(r))
    return make(str, tuple(el))


def str_format(f, args, kwargs):
    """str.format"""
    out = []
    auto = [0]

    def field(name):
        first, rest = string._string.formatter_field_name_split(name)
        if first == '':
            first = auto[0]
            auto[0] += 1
        o = args[first] if isinstance(first, int) else kwargs[first]
        for is_attr, i in rest:
            o = getattr(o, i) if is_attr else o[i]
        return o

    def run(f, depth=2):
        res = []
        for lit, name, spec, cv in string._string.formatter_parser(f):
            if lit:
                res.append(lit)
            if name is not None:
                o = field(name)
                if cv == 's':
                    o = to_str(o)
                elif cv == 'r':
                    o = to_repr(o)
                elif cv == 'a':
                    o = ascii(conc(o))
                sp = run(spec, depth - 1) if spec else ''
                res.append(fmt(o, sp))
        return join('', res)
    return run(f)


_PCT = re.compile(r'%(?:\((\w*)\))?([-#0 +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])')


def percent(f, args):
    """str % args (only used when something symbolic is around)"""
    if isinstance(f, (bytes, bytearray)):
        return f % conc(args)
    seq = args if isinstance(args, tuple) else (args,)
    it = iter(seq)
    out, pos = [], 0
    for m in _PCT.finditer(f):
        out.append(f[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, typ = m.groups()
        if typ == '%':
            out.append('%')
            continue
        if width == '*':
            width = conc(next(it))
        if prec == '*':
            prec = conc(next(it))
        v = args[key] if key is not None else next(it)
        if typ in 'sra':
            s = to_str(v) if typ == 's' else to_repr(v)
            if prec is not None:
                s = s[:int(prec)]
            out.append(pad(s, int(width or 0), ' ', '<' if '-' in flags else '>'))
        elif typ in 'diu' or typ in 'xXo':
            v = call(int, v) if typ in 'diu' else v
            if '#' in flags and typ != 'd' and typ not in 'iu' or prec is not None:
                out.append(('%' + flags + str(width or '') + ('.' + str(prec) if prec is not None else '') + typ) % conc(v))
            else:
                sp = ''
                if '-' in flags:
                    sp += '<'
                if '+' in flags:
                    sp += '+'
                elif ' ' in flags:
                    sp += ' '
                if '0' in flags and '-' not in flags:
                    sp += '0'
                out.append(fmt(v, sp + str(width or '') + ('d' if typ in 'diu' else typ)))
        elif typ in 'fF' and '#' not in flags:
            sp = ('<' if '-' in flags else '') + ('+' if '+' in flags else ' ' if ' ' in flags else '')
            if '0' in flags and '-' not in flags:
                sp += '0'
            out.append(fmt(to_rat(v) if is_sym(v) else v, sp + str(width or '') + ('.%s' % prec if prec is not None else '') + 'f'))
        elif typ == 'c' and isinstance(v, (SymInt,)):
            out.append(pad(make(str, (v,)), int(width or 0), ' ', '<' if '-' in flags else '>'))
        else:
            out.append(('%' + flags + str(width or '') + ('.' + str(prec) if prec is not None else '') + typ) % conc(v))
    out.append(f[pos:])
    return join('', out)


# ------------------------------------------------------------------------------------------------ operators
def mod(a, b):
    if type(a) in (str, bytes):
        if has_sym(b) or not isinstance(b, (int, float, str, bytes, tuple, dict)):
            if type(a) is str:
                return percent(a, b)
            return a % conc(b)
        if type(b) is tuple and type(a) is str and any(type(x) not in (int, str, float, bytes, bool, type(None)) for x in b):
            return percent(a, b)
    return a % b


def contains(x, c):
    """x in c"""
    t = type(c)
    if isinstance(c, SymSeq):
        return c.contains(x)
    if t is SymDict:
        return c.has(x)
    if t is KeyList:
        return sym_or([keq(x, y) for y in c])
    if not is_sym(x):
        if type(x) is tuple and symkey(x) and t in (list, tuple, set, frozenset, type({}.keys()), dict):
            return sym_or([keq(x, y) for y in c])
        if t in (list, tuple, collections.deque) and has_sym(c, 1):
            return sym_or([eq(x, y) for y in c])
        f = t.__contains__ if hasattr(t, '__contains__') else None
        if isinstance(f, types.FunctionType):
            return f(c, x)
        return x in c
    if t in (list, tuple, collections.deque, set, frozenset, range) or t in (type({}.keys()), dict, collections.OrderedDict,
                                                                             collections.defaultdict):
        if t is range and isinstance(x, SymInt) and c.step == 1:
            return sym_and([x >= c.start, x < c.stop])
        return sym_or([eq(x, y) for y in c])
    if t is str and isinstance(x, SymStr):
        return SymStr(elems_of(c)).contains(x)
    if t in (bytes, bytearray) and isinstance(x, (SymBytes, SymInt)):
        return SymBytes(elems_of(c)).contains(x)
    f = getattr(t, '__contains__', None)
    if isinstance(f, types.FunctionType):
        return f(c, x)
    if f is None:
        return sym_or([eq(x, y) for y in c])
    return conc(x) in c


def notcontains(x, c):
    return sym_not(contains(x, c))


def eq(a, b):
    if type(a) in (int, str, bytes, bool) and isinstance(b, (SymInt, SymSeq, SymBool, SymRat)):
        return b == a
    r = a == b
    return False if r is NotImplemented else r


def getitem(o, i):
    ti = type(i)
    if ti is SymInt:
        if i.var is not None:
            t = type(o)
            if t in (list, tuple) and not has_sym(o, 1):
                if all(type(x) in (int, str, bytes, bool) for x in o):
                    return lift(lambda v: o[v], i)
            elif t in (str, bytes):
                return lift(lambda v: o[v], i)
            elif t is dict or t is collections.OrderedDict or (t is SymDict and o._l is None and not o._p):
                return _dict_lookup(o, i, None, True)
    elif ti is SymStr and type(o) in DICTS and len(i) <= 1:
        return _dict_lookup(o, i, None, True)
    return o[i]


def _dict_lookup(d, k, default, strict):
    if isinstance(k, SymInt) and k.var is not None and type(d) is not collections.defaultdict:
        if all(type(x) in (int, str, bytes, bool, type(None)) for x in d.values()) and all(type(x) is int for x in d):
            if strict:
                return lift(lambda v: d[v], k)
            return lift(lambda v: d.get(v, default), k)
    for kk, v in d.items():
        if eq(kk, k):
            return v
    if strict:
        if type(d) is collections.defaultdict:
            return d[conc(k)]
        raise KeyError(conc(k))
    return default


# ------------------------------------------------------------------------------------------------ builtins
SAMPLES = {SymInt: 0, SymBool: True, SymRat: 0.5, SymStr: 'a', SymBytes: b'a'}
CTYPES = {SymInt: int, SymBool: bool, SymRat: float, SymStr: str, SymBytes: bytes, SymDict: dict}


def m_isinstance(o, t):
    s = SAMPLES.get(type(o))
    if s is not None:
        return isinstance(s, t)
    return isinstance(o, t)


def m_type(*a):
    if len(a) == 1:
        t = type(a[0])
        return CTYPES.get(t, t)
    return type(*a)


def m_str(*a, **k):
    if not a:
        return str(*a, **k)
    if len(a) > 1 or k:
        if isinstance(a[0], SymBytes):
            return a[0].decode(*a[1:], **k)
        return str(*a, **k)
    return to_str(a[0])


def m_repr(o): return to_repr(o)


def m_bool(*a):
    if a and isinstance(a[0], SymBool):
        return a[0]
    if a and isinstance(a[0], (SymInt, SymRat)):
        return a[0] != 0
    return bool(*a)


def _parse_int(s, base):
    b = conc(base) if base is not None else 10
    kind = s.kind
    e = s.e
    i, j = 0, len(e)
    while i < j and s._isws(e[i]):
        i += 1
    while j > i and s._isws(e[j - 1]):
        j -= 1
    neg = False
    if i < j:
        if e[i] == 45:
            neg = True
            i += 1
        elif e[i] == 43:
            i += 1
    err = ValueError('invalid literal for int() with base %d' % b)
    if b != 10:
        if b == 16:
            okr = ((48, 57), (65, 70), (97, 102))
        else:
            return int(s.concrete(), b)
    else:
        okr = ((48, 57),)
    if i >= j:
        raise err
    v = 0
    digs = []
    prev_us = True
    for k in range(i, j):
        c = e[k]
        if in_ranges(c, okr):
            d = c - 48 if b == 10 else (lift(lambda x: int(chr(x), 16), c) if not (isinstance(c, SymInt) and c.var is None)
                                        else int(chr(c.concrete()), 16))
            v = v * b + d
            digs.append(c)
            prev_us = False
        elif sym_and([c == 95]) and not prev_us and k + 1 < j:
            prev_us = True
        else:
            if kind is str and in_ranges(c, ((128, 0x10ffff),)):
                return int(s.concrete(), b)
            if b == 16:
                return int(s.concrete(), b)
            raise err
    if prev_us:
        raise err
    if neg:
        v = -v
    elif b == 10 and isinstance(v, SymInt) and v.var is None:
        v.dec = tuple(digs)
    return v


def m_int(*a, **k):
    if not a:
        return int(*a, **k)
    x = a[0]
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return SymInt.of(x)
    if isinstance(x, SymRat):
        return x.__trunc__()
    if isinstance(x, SymSeq):
        return _parse_int(x, a[1] if len(a) > 1 else k.get('base'))
    if type(x) not in (int, float, str, bytes):
        f = getattr(type(x), '__int__', None)
        if isinstance(f, types.FunctionType):
            return f(x)
    return int(*conc(a), **k)


def m_float(*a):
    if a and isinstance(a[0], (SymInt, SymRat)):
        return to_rat(a[0])
    return float(*conc(a))


def m_bytes(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, SymBytes):
            return x
        if isinstance(x, (SymInt,)):
            return bytes(x.concrete())
        if type(x) in (bytes, bytearray, int, memoryview):
            return bytes(x)
        if hasattr(x, '__iter__') and not hasattr(type(x), '__bytes__'):
            el = list(x)
            if any(is_sym(c) for c in el):
                for c in el:
                    if isinstance(c, SymInt) and not in_ranges(c, ((0, 255),)):
                        raise ValueError('bytes must be in range(0, 256)')
                return make(bytes, tuple(el))
            return bytes(el)
    if a and isinstance(a[0], SymStr):
        return a[0].encode(*a[1:], **k)
    return bytes(*conc(a), **k)


def m_bytearray(*a, **k):
    r = m_bytes(*a, **k) if a else b''
    if isinstance(r, SymBytes):
        return SymByteArray(r.e)
    return bytearray(r)


class SymByteArray(list):
    """minimal symbolic bytearray"""
    def __init__(self, e=()):
        super().__init__(e)


def m_chr(c):
    if isinstance(c, SymInt):
        if not in_ranges(c, ((0, 0x10ffff),)):
            raise ValueError('chr() arg not in range(0x110000)')
        return make(str, (c,))
    return chr(c)


def m_ord(c):
    if isinstance(c, SymSeq):
        if len(c) != 1:
            raise TypeError('ord() expected a character')
        return c.e[0]
    return ord(c)


def m_hex(v):
    if isinstance(v, SymInt):
        return fmt_int(v, '#x')
    return hex(v)


def m_oct(v): return fmt_int(v, '#o') if isinstance(v, SymInt) else oct(v)
def m_bin(v): return fmt_int(v, '#b') if isinstance(v, SymInt) else bin(v)


def m_print(*args, sep=' ', end='\n', file=None, flush=False):
    if sep is None:
        sep = ' '
    if end is None:
        end = '\n'
    f = file if file is not None else sys.stdout
    if f is None:
        return
    f.write(join(sep, [to_str(a) for a in args]) + end)
    if flush:
        f.flush()


def m_map(f, *its):
    return (call(f, *xs) for xs in zip(*its))


def m_filter(f, it):
    return (x for x in it if (call(f, x) if f is not None else x))


class LazySorted:
    """result of sorting by general symbolic keys: the order is decided element by element as it is looked at"""
    def __init__(self, items, keys, reverse):
        self.rest = list(zip(items, keys))
        self.done = []
        self.rev = reverse

    def _pick(self):
        if not self.rest:
            return False
        i = argmin([k for _, k in self.rest], self.rev)
        self.done.append(self.rest.pop(i)[0])
        return True

    def _need(self, n):
        while (n is None or len(self.done) < n) and self._pick():
            pass

    def __len__(self):
        return len(self.done) + len(self.rest)

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b, c = i.indices(len(self))
            self._need(max(a, b) if c > 0 else None)
            return self.done[a:b:c] if c > 0 else self.done[i]
        i = conc(i)
        self._need(i + 1 if i >= 0 else None)
        return self.done[i]

    def __iter__(self):
        i = 0
        while i < len(self):
            self._need(i + 1)
            yield self.done[i]
            i += 1

    def _list(self):
        self._need(None)
        return self.done

    def __setitem__(self, i, v): self._list()[i] = v
    def __delitem__(self, i): del self._list()[i]
    def __contains__(self, x): return bool(contains(x, self._list()))
    def __add__(self, o): return self._list() + list(o)
    def __radd__(self, o): return list(o) + self._list()

    def __iadd__(self, o):
        self._list().extend(o)
        return self

    def __reversed__(self): return reversed(self._list())

    def __eq__(self, o):
        return self._list() == (o._list() if isinstance(o, LazySorted) else o)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self._list(), n)
    __hash__ = None


def argmin(keys, maximum=False):
    """index of the first minimal key (n-ary decision)"""
    if len(keys) > 8 and all(type(k) is SymInt for k in keys) and any(k.lin for k in keys):
        # relative to the first key: what is common to all of them cancels
        rel = [0] + [k - keys[0] for k in keys[1:]]
        if all(type(k) is int or k.var is not None or k.lin for k in rel):
            import z3
            zs = [z3.IntVal(k) if type(k) is int else k.z() for k in rel]

            def cond(i):
                if maximum:
                    return SymBool(z=z3.And([zs[i] > x if j < i else zs[i] >= x for j, x in enumerate(zs) if j != i]))
                return SymBool(z=z3.And([zs[i] < x if j < i else zs[i] <= x for j, x in enumerate(zs) if j != i]))
            return Engine.cur.branch_many([(lambda i=i: cond(i)) for i in range(len(keys))])

    def cond(i):
        k = keys[i]
        return sym_and([keylt(k, x, maximum) if j < i else sym_not(keylt(x, k, maximum)) for j, x in enumerate(keys) if j != i])
    return Engine.cur.branch_many([(lambda i=i: cond(i)) for i in range(len(keys))])


def keylt(a, b, maximum=False):
    if maximum:
        a, b = b, a
    if type(a) is tuple and type(b) is tuple:
        if not a or not b:
            return len(a) < len(b)
        return sym_or([keylt(a[0], b[0]), sym_and([eq(a[0], b[0]), keylt(a[1:], b[1:])])])
    if isinstance(a, SymInt) and isinstance(b, SymInt) and (a.var is None or b.var is None):
        import z3
        r = a < b
        if isinstance(r, bool) or (a.lin is not None or b.lin is not None):
            return r
        d = z3.simplify(a.z() - b.z() < 0, som=True)
        return SymBool(z=d)
    return a < b


def _lazy(keys):
    return len(keys) > 2 and any((isinstance(k, SymInt) and k.var is None) or
                                 (type(k) is tuple and k and isinstance(k[0], SymInt) and k[0].var is None) for k in keys)


def m_sorted(it, *, key=None, reverse=False):
    items = list(it)
    keys = [call(key, x) for x in items] if key is not None else items
    if _lazy(keys):
        return LazySorted(items, keys, reverse)
    if key is None:
        return sorted(items, reverse=reverse)
    order = sorted(range(len(items)), key=keys.__getitem__, reverse=reverse)
    return [items[i] for i in order]


def _wrap(f):
    if f is None or isinstance(f, types.FunctionType):
        return f
    return lambda *a: call(f, *a)


def m_minmax(fn):
    def m(*a, **k):
        if 'key' in k:
            items = list(a[0]) if len(a) == 1 else list(a)
            if items and k['key'] is not None:
                keys = [call(k['key'], x) for x in items]
                if _lazy(keys):
                    return items[argmin(keys, fn is max)]
            k['key'] = _wrap(k['key'])
            return fn(*a, **k) if len(a) > 1 else fn(items, **k)
        items = list(a[0]) if len(a) == 1 else list(a)
        if len(items) > 1 and not k and any(isinstance(x, SymInt) for x in items) and \
                all(isinstance(x, (int, SymInt)) for x in items):
            import z3
            # no fork: ITE
            r = items[0]
            for x in items[1:]:
                r = _ite_min(r, x, fn is min)
            return r
        if len(a) == 1:
            return fn(items, **k)
        return fn(*items, **k)
    return m


def _ite_min(a, b, mn):
    c = (b < a) if mn else (b > a)
    if c is True:
        return b
    if c is False:
        return a
    if isinstance(a, SymInt) and a.var is not None and (isinstance(b, int) or (isinstance(b, SymInt) and b.var is a.var)):
        f = min if mn else max
        tb = (b,) * len(a.tab) if isinstance(b, int) else b.tab
        return SymInt(a.var, intern_table(tuple(f(x, y) for x, y in zip(a.tab, tb))))
    if isinstance(b, SymInt) and b.var is not None and isinstance(a, int):
        f = min if mn else max
        return SymInt(b.var, intern_table(tuple(f(a, y) for y in b.tab)))
    import z3
    az = a.z() if isinstance(a, SymInt) else z3.IntVal(a)
    bz = b.z() if isinstance(b, SymInt) else z3.IntVal(b)
    ab = a.bounds() if isinstance(a, SymInt) else (a, a)
    bb = b.bounds() if isinstance(b, SymInt) else (b, b)
    f = min if mn else max

    def bnd(x, y, keep):
        if x is None or y is None:
            return (x if y is None else y) if keep else None
        return f(x, y)
    lo = bnd(ab[0], bb[0], not mn)
    hi = bnd(ab[1], bb[1], mn)
    return SymInt(None, None, z3.If(c.z(), bz, az), lo, hi)


def m_reduce(f, it, *init):
    it = iter(it)
    if init:
        r = init[0]
    else:
        r = next(it)
    for x in it:
        r = call(f, r, x)
    return r


def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


class SymSet:
    """set of scalars with at least one symbolic member: only membership, equality and iteration"""
    def __init__(self, items):
        self.items = list(items)

    def __iter__(self):
        out = []
        for x in self.items:
            if not contains(x, out):
                out.append(x)
        return iter(out)

    def __len__(self):
        return len(list(iter(self)))

    def __contains__(self, x):
        return bool(contains(x, self.items))

    def __eq__(self, o):
        its = o.items if isinstance(o, SymSet) else list(o) if isinstance(o, (set, frozenset)) else None
        if its is None:
            return False
        return sym_and([contains(x, its) for x in self.items] + [contains(x, self.items) for x in its])

    def __ne__(self, o):
        return sym_not(self == o)

    def _conc(self):
        return set(conc(self.items))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self._conc(), n)

    def __sub__(self, o): return self._conc() - conc(o)
    def __and__(self, o): return self._conc() & conc(o)
    def __or__(self, o): return self._conc() | conc(o)
    __hash__ = None


SAMPLES[SymSet] = set()
SAMPLES[LazySorted] = []
CTYPES[SymSet] = set
CTYPES[LazySorted] = list


class XSet(set):
    """set of the instrumented code; _x: symbolic members (each differs from the rest on this path)"""
    __slots__ = ('_x',)

    def __init__(self, it=()):
        set.__init__(self)
        self._x = []
        self.update(it)

    def has(self, x):
        if not self._x and not is_sym(x):
            return set.__contains__(self, x)
        cs = [eq(y, x) for y in self._x]
        if is_sym(x):
            cs += [eq(y, x) for y in set.__iter__(self) if _comparable(y, x)]
        else:
            cs.append(set.__contains__(self, x))
        return sym_or(cs)

    def __contains__(self, x):
        return bool(self.has(x))

    def add(self, x):
        if is_sym(x):
            if not bool(self.has(x)):
                self._x.append(x)
        elif not self._x or not bool(self.has(x)):
            set.add(self, x)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def discard(self, x):
        if is_sym(x) or self._x:
            self._norm()
            x = conc(x)
        set.discard(self, x)

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def clear(self):
        self._x = []
        set.clear(self)

    def copy(self):
        r = XSet()
        set.update(r, set.__iter__(self))
        r._x = list(self._x)
        return r

    def _norm(self):
        for x in self._x:
            set.add(self, conc(x))
        self._x = []

    def __iter__(self):
        yield from set.__iter__(self)
        yield from self._x

    def __len__(self):
        return set.__len__(self) + len(self._x)

    def __bool__(self):
        return len(self) > 0

    def __eq__(self, o):
        if not self._x and not (isinstance(o, (XSet, SymSet)) and getattr(o, '_x', 1)):
            return set.__eq__(self, o)
        return SymSet(self) == (o if isinstance(o, SymSet) else SymSet(o) if isinstance(o, (set, frozenset)) else o)

    def __ne__(self, o):
        return sym_not(self == o)
    __hash__ = None


def _comparable(a, b):
    return isinstance(a, str) == (type(b) is SymStr) and isinstance(a, bytes) == (type(b) is SymBytes)


def _xop(name):
    base = getattr(set, name)

    def op(self, *a):
        self._norm()
        for x in a:
            if isinstance(x, XSet):
                x._norm()
        r = base(self, *[conc(x) for x in a])
        return XSet(r) if type(r) is set else r
    return op


for _n in ('__or__', '__and__', '__sub__', '__xor__', '__ror__', '__rand__', '__rsub__', '__rxor__', '__ior__', '__iand__', '__isub__',
           '__le__', '__lt__', '__ge__', '__gt__', 'union', 'intersection', 'difference', 'symmetric_difference', 'issubset',
           'issuperset', 'isdisjoint', 'intersection_update', 'difference_update', 'pop'):
    setattr(XSet, _n, _xop(_n))
SAMPLES[XSet] = set()
CTYPES[XSet] = set


def m_set(*a):
    if a:
        items = list(a[0])
        if any(is_sym(x) for x in items):
            return SymSet(items)
        return set(items)
    return XSet()


def m_range(*a):
    return range(*[conc(x) for x in a])


def m_callable_any(o): return callable(o)


def hashfn(fn):
    # C code needs a true int from __hash__; hash() called by instrumented code sees the symbolic value
    def __hash__(self):
        return conc(fn(self))
    __hash__.raw = fn
    return __hash__


def m_hash(o):
    f = type(o).__hash__
    if isinstance(f, types.FunctionType):
        r = getattr(f, 'raw', f)(o)
        if isinstance(r, SymInt) and r >= 0:
            r = r % ((1 << 61) - 1)     # what hash() makes of a big __hash__ result
        return r
    return hash(o)


def m_len(o):
    f = getattr(type(o), '__len__', None)
    if isinstance(f, types.FunctionType) and not isinstance(o, (SymSeq, SymSet)):
        r = f(o)
        if isinstance(r, (int, SymInt)):
            return r
    return len(o)


def m_int_from_bytes(b, byteorder='big', *, signed=False):
    if isinstance(b, SymBytes) and not signed:
        e = b.e if byteorder == 'big' else b.e[::-1]
        v = 0
        for c in e:
            v = v * 256 + c
        return v
    return int.from_bytes(conc(b), byteorder, signed=signed)


class SymLog10:
    """log10 of an exact positive rational: only floor/ceil/trunc and integer comparisons (exact)"""
    def __init__(self, r):
        self.r = r

    def _floor(self):
        r = self.r
        n = 0
        if r >= 1:
            while r >= 10 ** (n + 1):
                n += 1
                if n > 400:
                    raise Unsupported('log10')
            return n
        while True:
            n -= 1
            if r * (10 ** -n) >= 1:
                return n
            if n < -400:
                raise Unsupported('log10')

    def __floor__(self): return self._floor()
    def __trunc__(self):
        f = self._floor()
        if f >= 0:
            return f
        return -(-self).__floor__() if False else (f if self._exact(f) else f + 1)

    def _exact(self, f):
        return bool(self.r == to_rat(10 ** f) if f >= 0 else self.r * 10 ** -f == 1)

    def __ceil__(self):
        f = self._floor()
        return f if self._exact(f) else f + 1

    def __int__(self):
        raise Unsupported('int(log)')


def m_log10(x):
    if isinstance(x, (SymInt, SymRat)):
        x = to_rat(x)
        if x <= 0:
            raise ValueError('math domain error')
        return SymLog10(x)
    return math.log10(x)


def m_isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if is_sym(a) or is_sym(b):
        if a == b:
            return True
        d = abs(to_rat(a) - b)
        from fractions import Fraction
        m1, m2 = abs(to_rat(a)), abs(to_rat(b))
        rel = max_rat(m1, m2) * _exact(rel_tol)
        return sym_or([d <= rel, d <= abs_tol])
    return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


def _exact(f):
    return to_rat(f)


def max_rat(a, b):
    return a if a >= b else b


def m_int_like(name):
    fn = getattr(math, name)

    def m(x):
        if isinstance(x, SymLog10):
            return {'floor': x.__floor__, 'ceil': x.__ceil__, 'trunc': x.__trunc__}[name]()
        return fn(x)
    return m


def m_fabs(x):
    return abs(to_rat(x)) if is_sym(x) else math.fabs(x)


def m_finite(r):
    def m(fn):
        return lambda x: r if is_sym(x) else fn(x)
    return m


def m_pow(a, b, *m):
    if m or is_sym(b):
        return pow(*conc((a, b) + m))
    return a ** b


def m_vars(*a):
    return vars(*a)


def _attr_name(o, name):
    """existing attribute a symbolic name is equal to, None if there is no such"""
    if not is_sym(name):
        return conc(name)
    t = type(o)
    if hasattr(t, '__getattr__') or t.__getattribute__ not in (object.__getattribute__, type.__getattribute__, types.ModuleType.__getattribute__):
        return conc(name)
    n = len(name)
    for c in sorted(set(dir(o)) | (set(dir(t)) if isinstance(o, type) else set())):
        if len(c) == n and name == c:
            return c
    return None


def m_getattr(*a):
    n = _attr_name(a[0], a[1])
    if n is None:
        if len(a) > 2:
            return a[2]
        raise AttributeError('no attribute with this name')
    return getattr(a[0], n, *a[2:])


def m_hasattr(o, name):
    n = _attr_name(o, name)
    return n is not None and hasattr(o, n)


def m_maketrans(*a):
    return str.maketrans(*[dict((conc(k), v) for k, v in x.items()) if type(x) is SymDict else conc(x) for x in a])


def boolfn(fn):
    # C code needs a true bool from __bool__
    def __bool__(self):
        return bool(fn(self))
    return __bool__


def is_const(x, v):
    """x is True / x is False"""
    if isinstance(x, SymBool):
        return x if v else sym_not(x)
    return x is v


def _heap(name):
    import importlib.util
    global _PYHEAP
    try:
        mod_ = _PYHEAP
    except NameError:
        saved = sys.modules.get('_heapq')
        sys.modules['_heapq'] = None
        try:
            spec = importlib.util.find_spec('heapq')
            mod_ = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(mod_)
        finally:
            if saved is None:
                del sys.modules['_heapq']
            else:
                sys.modules['_heapq'] = saved
        _PYHEAP = mod_
    return getattr(mod_, name)


def m_heap(name):
    return lambda *a, **k: _heap(name)(*a, **k)


def m_bisect(f):
    def g(a, x, *r, **k):
        if isinstance(x, SymInt) and x.var is not None and not has_sym(a, 1) and not has_sym(r) and not k:
            a = list(a)
            return lift(lambda v: f(a, v, *r), x)
        if has_sym((x,)) or has_sym(r) or has_sym(k) or has_sym(a, 1):
            return f(conc(list(a)), conc(x), *conc(r), **conc(k))
        return f(a, x, *r, **k)
    return g


def m_accumulate(it, func=None, *, initial=None):
    func = _wrap(func) if func is not None else operator.add
    return itertools.accumulate(it, func, initial=initial)


def m_starmap(f, it):
    return (call(f, *x) for x in it)


def m_filterfalse(f, it):
    return (x for x in it if not (call(f, x) if f is not None else x))


class SymIO:
    """io.StringIO / io.BytesIO over symbolic text"""
    kind = str

    def __init__(self, initial='', newline='\n'):
        self.buf = initial if initial is not None else self.kind()
        self.pos = 0
        self.closed = False
        self.nl = '\n' if self.kind is str else b'\n'

    def _check(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def write(self, s):
        self._check()
        if not m_isinstance(s, self.kind if self.kind is str else (bytes, bytearray, memoryview)):
            raise TypeError('string argument expected')
        if self.pos == m_len(self.buf):
            self.buf = self.buf + s
        else:
            self.buf = self.buf[:self.pos] + s + self.buf[self.pos + m_len(s):]
        self.pos += m_len(s)
        return m_len(s)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def getvalue(self):
        self._check()
        return self.buf

    def getbuffer(self):
        return self.buf

    def read(self, n=-1):
        self._check()
        n = conc(n)
        r = self.buf[self.pos:] if n is None or n < 0 else self.buf[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    read1 = read

    def readline(self, n=-1):
        self._check()
        r = self.buf[self.pos:]
        i = call(r.find, self.nl)
        r = r if i < 0 else r[:conc(i) + 1]
        if n is not None and n >= 0:
            r = r[:n]
        self.pos += len(r)
        return r

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        while True:
            l = self.readline()
            if len(l) == 0:
                return
            yield l

    def __next__(self):
        l = self.readline()
        if len(l) == 0:
            raise StopIteration
        return l

    def seek(self, p, whence=0):
        p = conc(p)
        self.pos = p if whence == 0 else self.pos + p if whence == 1 else len(self.buf) + p
        return self.pos

    def tell(self): return self.pos

    def truncate(self, n=None):
        self.buf = self.buf[:self.pos if n is None else n]
        return len(self.buf)

    def readable(self): return True
    writable = seekable = readable
    def isatty(self): return False
    def flush(self): pass
    def close(self): self.closed = True
    def __enter__(self): return self
    def __exit__(self, *a): self.close()


class SymStringIO(SymIO):
    pass


class SymBytesIO(SymIO):
    kind = bytes

    def __init__(self, initial=b''):
        super().__init__(initial)

    def readinto(self, b):
        r = self.read(len(b))
        b[:len(r)] = r
        return len(r)


def sort_local(x, ref, a, k):
    """x.sort(...) of a local name that is the only reference to the list: the order may be decided lazily"""
    if type(x) is not list or a or set(k) - {'key', 'reverse'} or ref > 3:
        call(x.sort, *a, **k)
        return x
    return m_sorted(x, **k)


MODELS = {
    str.maketrans: m_maketrans,
    isinstance: m_isinstance, type: m_type, str: m_str, repr: m_repr, bool: m_bool, int: m_int, float: m_float,
    bytes: m_bytes, bytearray: m_bytearray, chr: m_chr, ord: m_ord, hex: m_hex, oct: m_oct, bin: m_bin, print: m_print,
    map: m_map, filter: m_filter, sorted: m_sorted, min: m_minmax(min), max: m_minmax(max), functools.reduce: m_reduce,
    sum: m_sum, set: m_set, range: m_range, hash: m_hash, len: m_len, format: fmt, int.from_bytes: m_int_from_bytes,
    math.log10: m_log10, math.isclose: m_isclose, math.floor: m_int_like('floor'), math.ceil: m_int_like('ceil'),
    math.trunc: m_int_like('trunc'), math.fabs: m_fabs, math.isnan: m_finite(False)(math.isnan),
    math.isinf: m_finite(False)(math.isinf), math.isfinite: m_finite(True)(math.isfinite), pow: m_pow,
    math.pow: m_pow, getattr: m_getattr, hasattr: m_hasattr, dict: SymDict,
    io.StringIO: SymStringIO, io.BytesIO: SymBytesIO, itertools.accumulate: m_accumulate, itertools.starmap: m_starmap,
    itertools.filterfalse: m_filterfalse, bisect.bisect: m_bisect(bisect.bisect), bisect.bisect_left: m_bisect(bisect.bisect_left),
    bisect.bisect_right: m_bisect(bisect.bisect_right), operator.contains: lambda c, x: contains(x, c), operator.mod: mod,
    operator.getitem: getitem,
}
MODELS.update({getattr(heapq, n): m_heap(n) for n in ('heapify', 'heappush', 'heappop', 'heappushpop', 'heapreplace')})
DIRECT = {list, tuple, enumerate, zip, reversed, iter, next, setattr, callable, id, super, property,
          classmethod, staticmethod, object, slice, any, all, abs, round, divmod, itertools.chain, itertools.islice,
          itertools.repeat, itertools.zip_longest, itertools.tee, itertools.chain.from_iterable, itertools.product,
          collections.deque, collections.OrderedDict, collections.defaultdict, collections.namedtuple, functools.partial,
          functools.wraps, iter, issubclass, vars, dir, globals, operator.itemgetter, operator.attrgetter, object.__new__,
          itertools.combinations, itertools.permutations, itertools.compress, itertools.cycle,
          operator.add, operator.sub, operator.mul, operator.floordiv, operator.truediv, operator.neg, operator.lt, operator.le,
          operator.gt, operator.ge, operator.eq, operator.ne, operator.and_, operator.or_, operator.xor, operator.lshift,
          operator.rshift, operator.invert, operator.concat, operator.not_, operator.truth, operator.is_, operator.is_not,
          itertools.count, itertools.pairwise, itertools.takewhile, itertools.dropwhile, itertools.groupby}
CONTAINERS = (list, tuple, dict, set, frozenset, collections.deque, types.GeneratorType, type(iter([])), SymSet, XSet)
_B = types.BuiltinMethodType
_BM = type(re.compile('').search)      # METH_METHOD builtins have a type of their own
_F = types.FunctionType
_M = types.MethodType
STR_TYPES = (str, bytes)
PATTERN = re.Pattern
_UNHASH = object()
repo_prefixes = ('kolombos', 'pytermor', 'harness')


def _is_repo_fn(f):
    return '__sx__' in f.__globals__


def call(f, /, *a, **k):
    t = type(f)
    if t is _F:
        if '__sx__' in f.__globals__:
            return f(*a, **k)
        return _stdlib(f, a, k)
    if t is _M:
        fn = f.__func__
        if type(fn) is _F:
            if '__sx__' in fn.__globals__:
                return f(*a, **k)
            return _stdlib(f, a, k)
        return f(*a, **k) if not callable(fn) else call(fn, f.__self__, *a, **k)
    if t is type or isinstance(f, type):
        m = MODELS.get(f)
        if m is not None:
            return m(*a, **k)
        if f in DIRECT:
            return f(*a, **k)
        mod_ = f.__module__
        if mod_ in ('builtins',) and not issubclass(f, BaseException):
            if has_sym(a) or has_sym(k):
                return f(*conc(a), **conc(k))
        return f(*a, **k)
    if t is _B or t is _BM:
        s = f.__self__
        if s is None or isinstance(s, types.ModuleType):
            m = MODELS.get(f)
            if m is not None:
                return m(*a, **k)
            if f in DIRECT:
                return f(*a, **k)
            from . import regex
            if has_sym(a) or has_sym(k):
                return f(*conc(a), **conc(k))
            return f(*a, **k)
        ts = type(s)
        if ts in STR_TYPES:
            return _strmethod(s, f.__name__, f, a, k)
        if isinstance(s, CONTAINERS):
            return _contmethod(s, f.__name__, f, a, k)
        if ts is PATTERN:
            from . import regex
            return regex.pattern_method(s, f.__name__, f, a, k)
        if isinstance(s, type):      # classmethods of C types (int.from_bytes, dict.fromkeys ...)
            m = MODELS.get(f)
            if m is not None:
                return m(*a, **k)
            if f.__name__ == 'fromkeys' and issubclass(s, dict):
                d = SymDict()
                for x in a[0]:
                    d[x] = a[1] if len(a) > 1 else None
                return d
        if isinstance(s, re.Match):
            return f(*conc(a), **k)
        if f.__name__ in ('__init__', '__new__', '__setattr__', '__init_subclass__', 'send', 'throw', 'close'):
            return f(*a, **k)
        if has_sym(a) or has_sym(k):
            return f(*conc(a), **conc(k))
        return f(*a, **k)
    if t is types.MethodWrapperType:
        return f(*a, **k)
    if t is types.MethodDescriptorType or t is types.WrapperDescriptorType:
        if a and f.__objclass__ in (str, bytes) and t is types.MethodDescriptorType:
            s = a[0]
            if isinstance(s, SymSeq):
                return getattr(s, f.__name__)(*a[1:], **k)
            return _strmethod(s, f.__name__, f.__get__(s), a[1:], k)
        if t is types.MethodDescriptorType and a and isinstance(a[0], f.__objclass__):
            return call(f.__get__(a[0]), *a[1:], **k)
        if a and is_sym(a[0]):
            return f(*conc(a), **k)
        return f(*a, **k)
    if t is functools.partial:
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    if t is functools._lru_cache_wrapper:
        if has_sym(a, 3) or has_sym(k, 3):
            # caching is keyed by concrete values: keep the real semantics
            return f(*conc(a), **conc(k))
        return f(*a, **k)
    cm = getattr(t, '__call__', None)
    if isinstance(cm, _F):
        if '__sx__' in cm.__globals__:
            return f(*a, **k)
        return f(*conc(a), **conc(k)) if has_sym(a) or has_sym(k) else f(*a, **k)
    if isinstance(f, (operator.itemgetter, operator.attrgetter, operator.methodcaller)):
        return f(*a, **k)
    if has_sym(a) or has_sym(k):
        return f(*conc(a), **conc(k))
    return f(*a, **k)


def _strmethod(s, name, f, a, k):
    if name == 'join':
        return join(s, a[0])
    if name == 'format':
        if has_sym(a) or has_sym(k) or any(type(x) not in (str, int, float) for x in a) or k:
            return str_format(s, a, k)
        return f(*a, **k)
    if has_sym(a) or has_sym(k):
        w = SymStr(elems_of(s)) if type(s) is str else SymBytes(elems_of(s))
        r = getattr(w, name)(*a, **k)
        return r
    return f(*a, **k)


def _contmethod(s, name, f, a, k):
    if type(s) in (SymDict, XSet):
        return getattr(s, name)(*a, **k)
    if isinstance(s, dict) and a and is_sym(a[0]):
        if name == 'get':
            return _dict_lookup(s, a[0], a[1] if len(a) > 1 else None, False)
        if name == '__contains__':
            return contains(a[0], s)
        if name == '__getitem__':
            return getitem(s, a[0])
    if name == '__getitem__' and type(s) in (list, tuple) and a and is_sym(a[0]):
        return getitem(s, a[0])
    if name == 'sort' and k.get('key') is not None:
        k['key'] = _wrap(k['key'])
    if isinstance(s, (set, frozenset)) and name in ('__contains__',) and a and is_sym(a[0]):
        return contains(a[0], s)
    return f(*a, **k)


STDLIB_MODELS = {}


def _stdlib(f, a, k):
    """Python function that is not instrumented (standard library)"""
    fn = f.__func__ if type(f) is _M else f
    m = STDLIB_MODELS.get(fn)
    if m is not None:
        return m(f, a, k)
    md = getattr(fn, '__module__', None)
    if md == 're':
        from . import regex
        r = regex.module_function(f, a, k)
        if r is not NotImplemented:
            return r
    if md is not None and (md.startswith('symex') or md.startswith('spec.')):
        return f(*a, **k)
    if fn.__name__ in ('__init__', '__new__', '__init_subclass__', '__set_name__', '__setattr__'):
        return f(*a, **k)
    if has_sym(a) or has_sym(k):
        if md in ('copy',):
            if is_sym(a[0]):
                return a[0]
            return f(*a, **k)
        if md == 'typing' and fn.__name__ == 'cast':
            return a[1]
        return f(*conc(a), **conc(k))
    return f(*a, **k)
