"""Symbolic strings and byte strings: concrete length, elements are ints (code points / bytes) or SymInt."""
from __future__ import annotations
import codecs
from .core import (Engine, SymInt, SymBool, SymRat, sym_and, sym_or, sym_not, mk_bool, pred_mask, z_mask)
import z3


def codec_name(enc):
    try:
        return codecs.lookup(enc).name
    except LookupError:
        return enc


def is_sym(x):
    return isinstance(x, (SymInt, SymBool, SymRat, SymSeq))


def cidx(i):
    """concrete index"""
    if isinstance(i, (SymInt, SymBool)):
        return i.__index__()
    return i


def conc(x):
    """concretise (forking) a value, shallow containers included"""
    if isinstance(x, SymSeq):
        return x.concrete()
    if isinstance(x, (SymInt, SymRat)):
        return x.concrete()
    if isinstance(x, SymBool):
        return bool(x)
    if type(x) is list:
        return [conc(i) for i in x]
    if type(x) is tuple:
        return tuple(conc(i) for i in x)
    if type(x) is dict or type(x).__name__ == 'SymDict':
        return {conc(k): conc(v) for k, v in x.items()}
    return x


def in_ranges(c, ranges):
    """is code c (int or SymInt) in one of the inclusive ranges -> bool or SymBool (no fork)"""
    if isinstance(c, int):
        for a, b in ranges:
            if a <= c <= b:
                return True
        return False
    if c.var is not None:
        m = pred_mask(c.tab, ('rng', ranges), lambda v: any(a <= v <= b for a, b in ranges))
        return mk_bool(c.var, m)
    lo, hi = c.lo, c.hi
    rs = []
    for a, b in ranges:
        if lo is not None and b < lo or hi is not None and a > hi:
            continue
        if lo is not None and hi is not None and a <= lo and hi <= b:
            return True
        rs.append((a, b))
    if not rs:
        return False
    z = c.z()
    return SymBool(z=z3.Or([z == a if a == b else z3.And(z >= a, z <= b) for a, b in rs]))


def elems_of(x):
    if isinstance(x, SymSeq):
        return x.e
    if isinstance(x, str):
        return tuple(map(ord, x))
    return tuple(x)


def make(kind, elems):
    for c in elems:
        if type(c) is not int:
            if isinstance(c, SymInt):
                return (SymStr if kind is str else SymBytes)(tuple(elems))
            if isinstance(c, SymBool):
                elems = tuple(SymInt.of(x) if isinstance(x, SymBool) else x for x in elems)
                return (SymStr if kind is str else SymBytes)(elems)
    if kind is str:
        return ''.join(map(chr, elems))
    return bytes(elems)


def eq_elems(a, b):
    if len(a) != len(b):
        return False
    conds = []
    for x, y in zip(a, b):
        if x is y:
            continue
        c = (x == y)
        if c is False:
            return False
        if c is not True:
            conds.append(c)
    if not conds:
        return True
    return sym_and(conds)


class SymSeq:
    __slots__ = ('e',)
    kind = None

    def __init__(self, e):
        self.e = e

    # ---- basics
    def _compat(self, o):
        return type(o) is type(self) or isinstance(o, self.kind) or \
            (self.kind is bytes and isinstance(o, (bytearray, memoryview)))

    def _need(self, o):
        if not self._compat(o):
            raise TypeError('%s expected, got %s' % (self.kind.__name__, type(o).__name__))
        return elems_of(o)

    def mk(self, elems):
        return make(self.kind, tuple(elems))

    def __len__(self):
        return len(self.e)

    def __bool__(self):
        return len(self.e) > 0

    def concrete(self):
        el = tuple(c if type(c) is int else c.concrete() for c in self.e)
        return ''.join(map(chr, el)) if self.kind is str else bytes(el)

    def __hash__(self):
        return hash(self.concrete())

    def __str__(self):
        return str(self.concrete())

    def __repr__(self):
        return repr(self.concrete())

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __add__(self, o):
        if not self._compat(o):
            return NotImplemented
        if len(o) == 0:
            return self
        return self.mk(self.e + elems_of(o))

    def __radd__(self, o):
        if not self._compat(o):
            return NotImplemented
        if len(o) == 0:
            return self
        return self.mk(elems_of(o) + self.e)

    def __mul__(self, n):
        n = cidx(n)
        return self.mk(self.e * max(0, n))
    __rmul__ = __mul__

    def __eq__(self, o):
        if not self._compat(o):
            return False
        return eq_elems(self.e, elems_of(o))

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    def _lex(self, o):
        b = self._need(o)
        for x, y in zip(self.e, b):
            if x == y:
                continue
            return -1 if x < y else 1
        return (len(self.e) > len(b)) - (len(self.e) < len(b))

    def __lt__(self, o): return self._lex(o) < 0
    def __le__(self, o): return self._lex(o) <= 0
    def __gt__(self, o): return self._lex(o) > 0
    def __ge__(self, o): return self._lex(o) >= 0

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*(cidx(x) if x is not None else None for x in (i.start, i.stop, i.step)))
            return self.mk(self.e[i])
        return self._item(self.e[cidx(i)])

    def __iter__(self):
        return iter([self._item(c) for c in self.e])

    def __reversed__(self):
        return iter([self._item(c) for c in reversed(self.e)])

    def __contains__(self, o):
        return bool(self.contains(o))

    def contains(self, o):
        if self.kind is bytes and isinstance(o, (int, SymInt)):
            return sym_or([c == o for c in self.e])
        b = self._need(o)
        n, m = len(self.e), len(b)
        return sym_or([eq_elems(self.e[i:i + m], b) for i in range(n - m + 1)])

    # ---- searching
    def _rng(self, start, end):
        return range(len(self.e))[slice(cidx(start), cidx(end))]

    def _sub(self, o):
        if self.kind is bytes and isinstance(o, (int, SymInt)):
            return (o,)
        return self._need(o)

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return sym_or([self.startswith(x, start, end) for x in p])
        e = self.e[cidx(start):cidx(end)]
        p = self._need(p)
        return eq_elems(e[:len(p)], p) if len(e) >= len(p) else False

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return sym_or([self.endswith(x, start, end) for x in p])
        e = self.e[cidx(start):cidx(end)]
        p = self._need(p)
        if len(p) == 0:
            return True
        return eq_elems(e[-len(p):], p) if len(e) >= len(p) else False

    def find(self, o, start=None, end=None):
        b = self._sub(o)
        m = len(b)
        s, t, _ = slice(cidx(start), cidx(end)).indices(len(self.e))
        for i in range(s, t - m + 1):
            if eq_elems(self.e[i:i + m], b):
                return i
        return -1

    def rfind(self, o, start=None, end=None):
        b = self._sub(o)
        m = len(b)
        s, t, _ = slice(cidx(start), cidx(end)).indices(len(self.e))
        for i in range(t - m, s - 1, -1):
            if eq_elems(self.e[i:i + m], b):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, o, start=None, end=None):
        b = self._sub(o)
        m = len(b)
        s, t, _ = slice(cidx(start), cidx(end)).indices(len(self.e))
        if m == 0:
            return max(0, t - s + 1)
        n, i = 0, s
        while i + m <= t:
            if eq_elems(self.e[i:i + m], b):
                n += 1
                i += m
            else:
                i += 1
        return n

    # ---- splitting / replacing
    def replace(self, old, new, count=-1):
        a, b = self._need(old), self._need(new)
        count = cidx(count)
        out, i, n, m = [], 0, 0, len(a)
        if m == 0:
            res = []
            for k, c in enumerate(self.e):
                if count < 0 or k < count:
                    res.extend(b)
                res.append(c)
            if count < 0 or len(self.e) < count:
                res.extend(b)
            return self.mk(res)
        while i < len(self.e):
            if (count < 0 or n < count) and i + m <= len(self.e) and eq_elems(self.e[i:i + m], a):
                out.extend(b)
                i += m
                n += 1
            else:
                out.append(self.e[i])
                i += 1
        return self.mk(out)

    WS = ((9, 13), (28, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029),
          (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000))
    WSB = ((9, 13), (32, 32))

    def _isws(self, c):
        return in_ranges(c, self.WS if self.kind is str else self.WSB)

    def split(self, sep=None, maxsplit=-1):
        maxsplit = cidx(maxsplit)
        if sep is None:
            out, cur = [], None
            i = 0
            e = self.e
            while i < len(e):
                while i < len(e) and self._isws(e[i]):
                    i += 1
                if i == len(e):
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = len(e)
                    while self._isws(e[j - 1]):
                        j -= 1
                    out.append(self.mk(e[i:j]))
                    break
                j = i
                while j < len(e) and not self._isws(e[j]):
                    j += 1
                out.append(self.mk(e[i:j]))
                i = j
            return out
        b = self._need(sep)
        m = len(b)
        if m == 0:
            raise ValueError('empty separator')
        out, st, i = [], 0, 0
        while i + m <= len(self.e):
            if (maxsplit < 0 or len(out) < maxsplit) and eq_elems(self.e[i:i + m], b):
                out.append(self.mk(self.e[st:i]))
                i += m
                st = i
            else:
                i += 1
        out.append(self.mk(self.e[st:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if cidx(maxsplit) < 0:
            return self.split(sep)
        if sep is None:
            return self._fallback('rsplit', sep, maxsplit)
        b = self._need(sep)
        m = len(b)
        out, en, i = [], len(self.e), len(self.e)
        while i - m >= 0:
            if len(out) < maxsplit and eq_elems(self.e[i - m:i], b):
                out.append(self.mk(self.e[i:en]))
                i -= m
                en = i
            else:
                i -= 1
        out.append(self.mk(self.e[:en]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        e = self.kind()
        if i < 0:
            return (self, e, e)
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        e = self.kind()
        if i < 0:
            return (e, e, self)
        return (self[:i], sep, self[i + len(sep):])

    LB = ((10, 13), (28, 30), (0x85, 0x85), (0x2028, 0x2029))

    def splitlines(self, keepends=False):
        out, st, i = [], 0, 0
        e = self.e
        lb = self.LB if self.kind is str else ((10, 10), (13, 13))
        while i < len(e):
            if in_ranges(e[i], lb):
                j = i + 1
                if j < len(e) and sym_and([e[i] == 13, e[j] == 10]):
                    j += 1
                out.append(self.mk(e[st:j if keepends else i]))
                st = i = j
            else:
                i += 1
        if st < len(e):
            out.append(self.mk(e[st:]))
        return out

    def _strip(self, chars, l, r):
        if chars is None:
            test = self._isws
        else:
            cs = self._need(chars)
            test = lambda c: sym_or([c == x for x in cs])
        a, b = 0, len(self.e)
        if l:
            while a < b and test(self.e[a]):
                a += 1
        if r:
            while b > a and test(self.e[b - 1]):
                b -= 1
        return self.mk(self.e[a:b])

    def strip(self, c=None): return self._strip(c, True, True)
    def lstrip(self, c=None): return self._strip(c, True, False)
    def rstrip(self, c=None): return self._strip(c, False, True)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and self.endswith(p) else self

    # ---- justification
    def _fill(self, f):
        if f is None:
            return (32,)
        f = elems_of(f)
        if len(f) != 1:
            raise TypeError('The fill character must be exactly one character long')
        return f

    def ljust(self, w, fill=None):
        return self.mk(self.e + self._fill(fill) * max(0, cidx(w) - len(self.e)))

    def rjust(self, w, fill=None):
        return self.mk(self._fill(fill) * max(0, cidx(w) - len(self.e)) + self.e)

    def center(self, w, fill=None):
        w = cidx(w)
        pad = max(0, w - len(self.e))
        left = pad // 2 + (pad & w & 1)
        f = self._fill(fill)
        return self.mk(f * left + self.e + f * (pad - left))

    def zfill(self, w):
        n = max(0, cidx(w) - len(self.e))
        if self.e and sym_or([self.e[0] == 43, self.e[0] == 45]):
            return self.mk(self.e[:1] + (48,) * n + self.e[1:])
        return self.mk((48,) * n + self.e)

    # ---- misc
    def join(self, parts):
        out = []
        first = True
        for p in parts:
            if not first:
                out.extend(self.e)
            first = False
            out.extend(self._need(p))
        return self.mk(out)

    def _fallback(self, name, *a, **k):
        return getattr(self.concrete(), name)(*[conc(x) for x in a], **{n: conc(x) for n, x in k.items()})

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(self.kind, name):
            raise AttributeError("'%s' object has no attribute '%s'" % (self.kind.__name__, name))
        return lambda *a, **k: self._fallback(name, *a, **k)

    def _map(self, name):
        """per element method giving a string (upper, lower...)"""
        from . import ops
        out = []
        for c in self.e:
            one = (lambda v: getattr(chr(v), name)()) if self.kind is str else (lambda v: getattr(bytes([v]), name)())
            out.extend(elems_of(one(c) if type(c) is int else ops.lift(one, c, (self.kind, name))))
        return self.mk(out)

    def upper(self): return self._map('upper')
    def lower(self): return self._map('lower')
    def casefold(self): return self._map('casefold')
    def swapcase(self): return self._map('swapcase')

    def _all(self, name):
        if not self.e:
            return False
        res = []
        for c in self.e:
            one = (lambda v: getattr(chr(v), name)()) if self.kind is str else (lambda v: getattr(bytes([v]), name)())
            if type(c) is int:
                if not one(c):
                    return False
            elif c.var is not None:
                res.append(mk_bool(c.var, pred_mask(c.tab, (self.kind, name), one)))
            else:
                return getattr(self.concrete(), name)()
        return sym_and(res)

    def isdigit(self): return self._all('isdigit')
    def isdecimal(self): return self._all('isdecimal')
    def isnumeric(self): return self._all('isnumeric')
    def isalpha(self): return self._all('isalpha')
    def isalnum(self): return self._all('isalnum')
    def isspace(self): return self._all('isspace')

    def isprintable(self):
        return self._all('isprintable') if self.e else True

    def isascii(self):
        return sym_and([in_ranges(c, ((0, 127),)) for c in self.e])

    def translate(self, table, *rest):
        from . import ops
        if self.kind is bytes:
            table, rest = conc(table), conc(rest)
            dele = rest[0] if rest else b''
            out = []
            for c in self.e:
                if dele and (c in dele if type(c) is int else ops.contains(c, dele)):
                    continue
                out.append(c if table is None else table[c] if type(c) is int else ops.lift(lambda v: table[v], c))
            return self.mk(out)
        if rest:
            return self._fallback('translate', table, *rest)
        out = []
        for c in self.e:
            out.extend(elems_of(chr(c).translate(table) if type(c) is int else
                                ops.lift(lambda v: chr(v).translate(table), c)))
        return self.mk(out)

    def __mod__(self, args):
        from . import ops
        return ops.percent(self.concrete(), args)


class SymStr(SymSeq):
    __slots__ = ()
    kind = str

    def _item(self, c):
        return chr(c) if type(c) is int else SymStr((c,))

    def encode(self, encoding='utf-8', errors='strict'):
        enc = codec_name(encoding)
        out = []
        for c in self.e:
            if type(c) is int:
                out.extend(chr(c).encode(encoding, errors))
                continue
            lim = {'ascii': 127, 'iso8859-1': 255}.get(enc)
            if lim is not None:
                if in_ranges(c, ((0, lim),)):
                    out.append(c)
                elif errors == 'replace':
                    out.append(63)
                elif errors == 'ignore':
                    pass
                else:
                    out.extend(chr(c.concrete()).encode(encoding, errors))
            elif enc == 'utf-8':
                if in_ranges(c, ((0, 0x7f),)):
                    out.append(c)
                elif in_ranges(c, ((0x80, 0x7ff),)):
                    out += [c // 64 + 0xc0, c % 64 + 0x80]
                elif in_ranges(c, ((0xd800, 0xdfff),)):
                    out.extend(chr(c.concrete()).encode(encoding, errors))
                elif in_ranges(c, ((0x800, 0xffff),)):
                    out += [c // 4096 + 0xe0, c // 64 % 64 + 0x80, c % 64 + 0x80]
                else:
                    out += [c // 262144 + 0xf0, c // 4096 % 64 + 0x80, c // 64 % 64 + 0x80, c % 64 + 0x80]
            else:
                out.extend(chr(c.concrete()).encode(encoding, errors))
        return make(bytes, tuple(out))

    def format(self, *a, **k):
        from . import ops
        return ops.str_format(self.concrete(), a, k)


class SymBytes(SymSeq):
    __slots__ = ()
    kind = bytes

    def _item(self, c):
        return c

    def hex(self, sep=None, bytes_per_sep=1):
        from . import ops
        out = []
        if sep is not None and bytes_per_sep != 1:
            return self._fallback('hex', sep, bytes_per_sep)
        for i, c in enumerate(self.e):
            if i and sep is not None:
                out.extend(elems_of(sep if isinstance(sep, str) else sep.decode()))
            out.extend(elems_of('%02x' % c if type(c) is int else ops.fmt_int(c, '02x')))
        return make(str, tuple(out))

    def tobytes(self):
        return self

    def decode(self, encoding='utf-8', errors='strict'):
        enc = codec_name(encoding)
        if enc == 'iso8859-1':
            return make(str, self.e)
        if enc == 'ascii':
            return self._decode_ascii(errors)
        if enc == 'utf-8':
            return self._decode_utf8(errors)
        if enc == 'utf-8-sig':
            return (self[3:] if self.startswith(b'\xef\xbb\xbf') else self).decode('utf-8', errors)
        return self.concrete().decode(encoding, errors)

    def _bad(self, out, errors, seq, i, j, enc):
        if errors == 'replace':
            out.append(0xfffd)
        elif errors == 'ignore':
            pass
        elif errors == 'backslashreplace':
            from . import ops
            for c in self.e[i:j]:
                out.extend((92, 120))
                out.extend(elems_of(ops.fmt_int(c, '02x')))
        elif errors == 'surrogateescape':
            out.extend(c + 0xdc00 for c in self.e[i:j])
        elif errors == 'strict':
            raise UnicodeDecodeError(enc, b'?' * len(self.e), i, j, 'invalid data')
        else:
            out.extend(map(ord, self.concrete().decode(enc, errors)))

    def _decode_ascii(self, errors):
        out = []
        for i, c in enumerate(self.e):
            if in_ranges(c, ((0, 127),)):
                out.append(c)
            else:
                self._bad(out, errors, None, i, i + 1, 'ascii')
        return make(str, tuple(out))

    # second byte ranges by lead byte (RFC 3629)
    LEADS = (
        (((0xc2, 0xdf),), ((0x80, 0xbf),), 2),
        (((0xe0, 0xe0),), ((0xa0, 0xbf),), 3),
        (((0xe1, 0xec), (0xee, 0xef)), ((0x80, 0xbf),), 3),
        (((0xed, 0xed),), ((0x80, 0x9f),), 3),
        (((0xf0, 0xf0),), ((0x90, 0xbf),), 4),
        (((0xf1, 0xf3),), ((0x80, 0xbf),), 4),
        (((0xf4, 0xf4),), ((0x80, 0x8f),), 4),
    )

    def _decode_utf8(self, errors):
        out, i, e, n = [], 0, self.e, len(self.e)
        while i < n:
            c = e[i]
            if in_ranges(c, ((0, 127),)):
                out.append(c)
                i += 1
                continue
            for lead, second, ln in self.LEADS:
                if in_ranges(c, lead):
                    break
            else:
                self._bad(out, errors, None, i, i + 1, 'utf-8')
                i += 1
                continue
            j = i + 1
            if j < n and in_ranges(e[j], second):
                j += 1
                while j < n and j - i < ln and in_ranges(e[j], ((0x80, 0xbf),)):
                    j += 1
            if j - i < ln:
                self._bad(out, errors, None, i, j, 'utf-8')     # maximal subpart
                i = j
                continue
            off = {2: 0xc0, 3: 0xe0, 4: 0xf0}[ln]
            lo = {2: 0x80, 3: 0x800, 4: 0x10000}[ln]
            hi = {2: 0x7ff, 3: 0xffff, 4: 0x10ffff}[ln]
            v = e[i] - off
            for k in range(i + 1, j):
                v = v * 64 + (e[k] - 0x80)
            if isinstance(v, SymInt) and v.var is None:
                v.lo = lo if v.lo is None else max(lo, v.lo)
                v.hi = hi if v.hi is None else min(hi, v.hi)
            out.append(v)
            i = j
        return make(str, tuple(out))
