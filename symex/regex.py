"""Backtracking regular expression matcher over symbolic subjects (same semantics as CPython's sre for the supported
operators); character tests fork.  Compiled from the parse tree of the very pattern the code uses."""
from __future__ import annotations
import re, sys, types
from re import _parser, _constants as C
from .core import Engine, SymInt, SymBool, sym_and, sym_or, sym_not, mk_bool, pred_mask, Unsupported
from .seq import SymSeq, SymStr, SymBytes, make, elems_of, conc, in_ranges, eq_elems
import functools

MAXR = C.MAXREPEAT


class Unsupp(Exception):
    pass


@functools.lru_cache(None)
def _cat_ranges(cat, isstr, ascii_):
    """inclusive ranges of a category (below 0x300; above handled for str by concretising predicate)"""
    if isstr and not ascii_:
        fn = {C.CATEGORY_DIGIT: lambda c: chr(c).isdecimal(), C.CATEGORY_SPACE: lambda c: chr(c).isspace(),
              C.CATEGORY_WORD: lambda c: chr(c).isalnum() or c == 95}
        neg = {C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT, C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE,
               C.CATEGORY_NOT_WORD: C.CATEGORY_WORD}
        lim = 0x110000
    else:
        fn = {C.CATEGORY_DIGIT: lambda c: 48 <= c <= 57, C.CATEGORY_SPACE: lambda c: c in (32, 9, 10, 11, 12, 13),
              C.CATEGORY_WORD: lambda c: c < 128 and (chr(c).isalnum() or c == 95)}
        neg = {C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT, C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE,
               C.CATEGORY_NOT_WORD: C.CATEGORY_WORD}
        lim = 0x110000 if isstr else 256
    inv = cat in neg
    f = fn.get(neg.get(cat, cat))
    if f is None:
        raise Unsupp(str(cat))
    out, st = [], None
    for c in range(lim + 1):
        v = c < lim and (bool(f(c)) != inv)
        if v and st is None:
            st = c
        elif not v and st is not None:
            out.append((st, c - 1))
            st = None
    return tuple(out)


def _norm(ranges):
    rs = sorted(ranges)
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)


def _complement(ranges, top):
    out, p = [], 0
    for a, b in _norm(ranges):
        if a > p:
            out.append((p, a - 1))
        p = b + 1
    if p <= top:
        out.append((p, top))
    return tuple(out)


class Prog:
    def __init__(self, pattern):
        self.pattern = pattern
        self.isstr = isinstance(pattern.pattern, str)
        self.top = 0x10ffff if self.isstr else 255
        flags = pattern.flags
        self.flags = flags
        tree = _parser.parse(pattern.pattern, flags & ~re.UNICODE if not self.isstr else flags & ~re.UNICODE)
        self.groups = tree.state.groups
        self.ascii = bool(flags & re.ASCII)
        self.body = self.seq(list(tree), flags)

    # ---- compile to closures m(e, i, regs, k) -> end or None ; regs is an immutable tuple
    def charset(self, op, av, flags):
        ic = flags & re.IGNORECASE
        if op is C.LITERAL:
            rs = ((av, av),)
            neg = False
        elif op is C.NOT_LITERAL:
            rs, neg = ((av, av),), True
        elif op is C.ANY:
            return ((0, self.top),) if flags & re.DOTALL else _complement(((10, 10),), self.top)
        elif op is C.IN:
            neg, out = False, []
            for o, v in av:
                if o is C.NEGATE:
                    neg = True
                elif o is C.LITERAL:
                    out.append((v, v))
                elif o is C.RANGE:
                    out.append(v)
                elif o is C.CATEGORY:
                    out.extend(_cat_ranges(v, self.isstr, self.ascii))
                else:
                    raise Unsupp(str(o))
            rs = tuple(out)
        elif op is C.CATEGORY:
            rs, neg = _cat_ranges(av, self.isstr, self.ascii), False
        else:
            raise Unsupp(str(op))
        if ic:
            ex = []
            for a, b in rs:
                if b - a > 2000:
                    continue
                for c in range(a, b + 1):
                    if self.isstr:
                        for x in (chr(c).lower(), chr(c).upper()):
                            if len(x) == 1:
                                ex.append((ord(x), ord(x)))
                    elif c < 128:
                        ex += [(ord(chr(c).lower()),) * 2, (ord(chr(c).upper()),) * 2]
            rs = rs + tuple(ex)
        rs = _norm(rs)
        return _complement(rs, self.top) if neg else rs

    def seq(self, items, flags):
        raw = [self.node(op, av, flags) for op, av in items]
        ms, i = [], 0
        while i < len(raw):       # runs of single characters are decided at once
            j = i
            while j < len(raw) and getattr(raw[j], 'single', None) is not None:
                j += 1
            if j - i > 1:
                ms.append(self.word(tuple(m.single for m in raw[i:j])))
                i = j
            else:
                ms.append(raw[i])
                i += 1
        if not ms:
            return lambda e, i, r, k: k(i, r)
        if len(ms) == 1:
            return ms[0]

        def run(e, i, r, k, ms=tuple(ms)):
            def at(n):
                if n == len(ms):
                    return k
                m = ms[n]
                return lambda i, r: m(e, i, r, at(n + 1))
            return at(0)(i, r)
        return run

    @staticmethod
    def word(sets):
        n = len(sets)

        def wd(e, i, r, k):
            if i + n > len(e):
                return None
            cs = []
            for j in range(n - 1, -1, -1):
                c = in_ranges(e[i + j], sets[j])
                if c is False:
                    return None
                if c is not True:
                    if not isinstance(c, bool) and c.var is not None:
                        t = Engine.cur.dom[c.var]
                        m = t & c.mask
                        if not m:
                            return None
                        if m == t:
                            continue
                    cs.append(c)
            for c in reversed(cs):
                if not c:
                    return None
            return k(i + n, r)
        return wd

    def node(self, op, av, flags):
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN, C.CATEGORY):
            rs = self.charset(op, av, flags)

            def ch(e, i, r, k):
                if i < len(e) and in_ranges(e[i], rs):
                    return k(i + 1, r)
                return None
            ch.single = rs
            return ch
        if op is C.BRANCH:
            alts = [self.seq(list(a), flags) for a in av[1]]

            def br(e, i, r, k):
                for a in alts:
                    x = a(e, i, r, k)
                    if x is not None:
                        return x
                return None
            return br
        if op is C.SUBPATTERN:
            g, add, dele, sub = av
            m = self.seq(list(sub), (flags | add) & ~dele)
            if g is None:
                return m

            def sp(e, i, r, k):
                def k2(j, r2):
                    r2 = r2[:g] + ((i, j),) + r2[g + 1:]
                    # lastindex bookkeeping in slot 0
                    r2 = (g,) + r2[1:]
                    return k(j, r2)
                return m(e, i, r, k2)
            return sp
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            m = self.seq(list(sub), flags)
            single = getattr(m, 'single', None)
            if op is C.MAX_REPEAT and single is not None:
                def rep1(e, i, r, k):
                    n = 0
                    j = i
                    while (hi is MAXR or n < hi) and j < len(e) and in_ranges(e[j], single):
                        j += 1
                        n += 1
                    while n >= lo:
                        x = k(j, r)
                        if x is not None:
                            return x
                        n -= 1
                        j -= 1
                    return None
                return rep1
            if op is C.MAX_REPEAT:
                def rep(e, i, r, k):
                    def go(n, i0, r0):
                        def more(j, r2):
                            if j == i0 and n >= lo:
                                return None          # empty iteration: stop here
                            return go(n + 1, j, r2)
                        if hi is MAXR or n < hi:
                            x = m(e, i0, r0, more)
                            if x is not None:
                                return x
                        if n >= lo:
                            return k(i0, r0)
                        return None
                    return go(0, i, r)
                return rep
            if op is C.MIN_REPEAT:
                def lazy(e, i, r, k):
                    def go(n, i0, r0):
                        if n >= lo:
                            x = k(i0, r0)
                            if x is not None:
                                return x
                        if hi is MAXR or n < hi:
                            def more(j, r2):
                                if j == i0 and n >= lo:
                                    return None
                                return go(n + 1, j, r2)
                            return m(e, i0, r0, more)
                        return None
                    return go(0, i, r)
                return lazy

            def poss(e, i, r, k):
                n = 0
                while hi is MAXR or n < hi:
                    x = m(e, i, r, lambda j, r2: (j, r2))
                    if x is None or (x[0] == i and n >= lo):
                        break
                    i, r = x
                    n += 1
                return k(i, r) if n >= lo else None
            return poss
        if op is C.ATOMIC_GROUP:
            m = self.seq(list(av), flags)

            def atom(e, i, r, k):
                x = m(e, i, r, lambda j, r2: (j, r2))
                return None if x is None else k(*x)
            return atom
        if op is C.AT:
            return self.at(av, flags)
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, sub = av
            m = self.seq(list(sub), flags)
            neg = op is C.ASSERT_NOT
            if d < 0:
                lo, hi = sub.getwidth()
                if lo != hi:
                    raise Unsupp('lookbehind')

            def look(e, i, r, k):
                st = i
                if d < 0:
                    st = i - lo
                    if st < 0:
                        return k(i, r) if neg else None
                x = m(e, st, r, lambda j, r2: (j, r2) if d > 0 or j == i else None)
                if neg:
                    return k(i, r) if x is None else None
                return None if x is None else k(i, x[1])
            return look
        if op is C.GROUPREF:
            def ref(e, i, r, k):
                s = r[av] if av < len(r) else None
                if s is None:
                    return None
                n = s[1] - s[0]
                if i + n <= len(e) and eq_elems(e[i:i + n], e[s[0]:s[1]]):
                    return k(i + n, r)
                return None
            return ref
        if op is C.GROUPREF_EXISTS:
            g, yes, no = av
            y = self.seq(list(yes), flags)
            n = self.seq(list(no), flags) if no is not None else (lambda e, i, r, k: k(i, r))
            return lambda e, i, r, k: (y if r[g] is not None else n)(e, i, r, k)
        if op is C.FAILURE:
            return lambda e, i, r, k: None
        raise Unsupp(str(op))

    def at(self, av, flags):
        ml = flags & re.MULTILINE

        def isword(c):
            return in_ranges(c, _cat_ranges(C.CATEGORY_WORD, self.isstr, self.ascii))

        def f(e, i, r, k):
            n = len(e)
            if av is C.AT_BEGINNING and not ml or av is C.AT_BEGINNING_STRING:
                ok = i == 0
            elif av is C.AT_BEGINNING:
                ok = i == 0 or e[i - 1] == 10
            elif av is C.AT_END_STRING:
                ok = i == n
            elif av is C.AT_END:
                ok = i == n or (i == n - 1 or ml) and e[i] == 10
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                a = bool(isword(e[i - 1])) if i > 0 else False
                b = bool(isword(e[i])) if i < n else False
                ok = (a != b) == (av is C.AT_BOUNDARY)
            else:
                raise Unsupp(str(av))
            return k(i, r) if ok else None
        return f

    # ---- entry points
    def match_at(self, e, i, must_advance=False, full=False):
        regs = (None,) * max(self.groups, 1)
        n = len(e)

        def k(j, r):
            if must_advance and j == i:
                return None
            if full and j != n:
                return None
            return (j, r)
        return self.body(e, i, regs, k)

    def search(self, e, start, must_advance=False):
        i = start
        while i <= len(e):
            x = self.match_at(e, i, must_advance and i == start)
            if x is not None:
                return i, x[0], x[1]
            i += 1
        return None


@functools.lru_cache(None)
def prog(pattern):
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 20000))
    return Prog(pattern)


class SymMatch:
    def __init__(self, p, subject, start, end, regs, pos=0, endpos=None):
        self.re = p.pattern
        self._p = p
        self.string = subject
        self.pos = pos
        self.endpos = len(subject) if endpos is None else endpos
        self._spans = ((start, end),) + tuple(regs[1:])
        self.lastindex = regs[0] if regs and isinstance(regs[0], int) else None
        self.lastgroup = {v: k for k, v in self.re.groupindex.items()}.get(self.lastindex)

    @property
    def regs(self):
        return tuple(s if s is not None else (-1, -1) for s in self._spans)

    def _gi(self, g):
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError('no such group')
            return self.re.groupindex[g]
        g = conc(g)
        if not 0 <= g < len(self._spans):
            raise IndexError('no such group')
        return g

    def _get(self, g, default=None):
        s = self._spans[self._gi(g)]
        return default if s is None else self.string[s[0]:s[1]]

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    __getitem__ = _get

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, len(self._spans)))

    def groupdict(self, default=None):
        return {n: self._get(n, default) for n in self.re.groupindex}

    def start(self, g=0):
        s = self._spans[self._gi(g)]
        return -1 if s is None else s[0]

    def end(self, g=0):
        s = self._spans[self._gi(g)]
        return -1 if s is None else s[1]

    def span(self, g=0):
        return self.start(g), self.end(g)

    def expand(self, tpl):
        return expand(self, tpl)

    def __bool__(self):
        return True


def expand(m, tpl):
    t = _parser.parse_template(tpl, m.re)
    empty = tpl[:0]
    out = []
    for x in t:
        if isinstance(x, int):
            g = m._get(x) if isinstance(m, SymMatch) else m.group(x)
            out.extend(elems_of(g if g is not None else empty))
        elif x:
            out.extend(elems_of(x))
    return make(type(tpl), tuple(out))


def _subject(s, p):
    if isinstance(s, SymSeq):
        if p.isstr != (s.kind is str):
            raise TypeError('cannot use a %s pattern on a %s-like object' % (('string', 'bytes') if p.isstr else ('bytes', 'string')))
        return s
    return s


def iter_matches(p, s, pos=0, endpos=None):
    e = elems_of(s)
    if endpos is not None:
        e = e[:endpos]
    i, must = pos, False
    while i <= len(e):
        x = p.search(e, i, must)
        if x is None:
            return
        st, en, regs = x
        yield SymMatch(p, s, st, en, regs, pos)
        must = en == st
        i = en


def sub(p, repl, s, count=0):
    from . import ops
    if isinstance(repl, SymSeq):
        repl = repl.concrete()
    ms = iter_matches(p, s) if isinstance(s, SymSeq) else p.pattern.finditer(s) if not isinstance(p, re.Pattern) else p.finditer(s)
    out, last, n = [], 0, 0
    e = elems_of(s)
    kind = s.kind if isinstance(s, SymSeq) else type(s)
    for m in ms:
        out.extend(e[last:m.start()])
        r = ops.call(repl, m) if callable(repl) else expand(m, repl)
        if r is not None and len(r):
            out.extend(elems_of(r))
        last = m.end()
        n += 1
        if count and n >= count:
            break
    out.extend(e[last:])
    return make(kind, tuple(out)), n


def pattern_method(pat, name, f, a, k):
    """call of a method of a compiled pattern"""
    from . import ops
    if name in ('sub', 'subn'):
        a = list(a)
        repl = a[0] if a else k.get('repl')
        s = a[1] if len(a) > 1 else k.get('string')
        count = conc(a[2] if len(a) > 2 else k.get('count', 0))
        if not isinstance(s, SymSeq) and not callable(repl) and not isinstance(repl, SymSeq):
            return f(*a, **k)
        try:
            p = prog(pat) if isinstance(s, SymSeq) else pat
        except Unsupp:
            p, s = pat, conc(s)
        r = sub(p, repl, s, count)
        return r if name == 'subn' else r[0]
    names = {'match': ('string', 'pos', 'endpos'), 'search': ('string', 'pos', 'endpos'), 'fullmatch': ('string', 'pos', 'endpos'),
             'finditer': ('string', 'pos', 'endpos'), 'findall': ('string', 'pos', 'endpos'), 'split': ('string', 'maxsplit')}
    if name not in names:
        return f(*conc(a), **conc(k))
    args = list(a) + [None] * (3 - len(a))
    for i, n in enumerate(names[name]):
        if n in k:
            args[i] = k[n]
    s = args[0]
    if not isinstance(s, SymSeq):
        return f(*conc(a), **conc(k))
    try:
        p = prog(pat)
    except Unsupp:
        return f(*conc(a), **conc(k))
    s = _subject(s, p)
    if name == 'split':
        mx = conc(args[1] or 0)
        out, last, n = [], 0, 0
        for m in iter_matches(p, s):
            out.append(s[last:m.start()])
            out.extend(m.groups())
            last = m.end()
            n += 1
            if mx and n >= mx:
                break
        out.append(s[last:])
        return out
    pos = max(0, conc(args[1] or 0))
    endpos = conc(args[2]) if args[2] is not None else None
    e = s.e if endpos is None else s.e[:endpos]
    if name == 'search':
        x = p.search(e, pos)
        return None if x is None else SymMatch(p, s, x[0], x[1], x[2], pos, endpos)
    if name in ('match', 'fullmatch'):
        x = p.match_at(e, pos, full=name == 'fullmatch') if pos <= len(e) else None
        return None if x is None else SymMatch(p, s, pos, x[0], x[1], pos, endpos)
    it = iter_matches(p, s, pos, endpos)
    if name == 'finditer':
        return it
    out = []
    for m in it:
        if pat.groups == 0:
            out.append(m.group())
        elif pat.groups == 1:
            g = m.group(1)
            out.append(g if g is not None else s.kind())
        else:
            out.append(m.groups(s.kind()))
    return out


def module_function(f, a, k):
    n = f.__name__
    from . import ops
    if n == 'escape':
        return f(*conc(a), **k)
    if n not in ('sub', 'subn', 'match', 'search', 'fullmatch', 'finditer', 'findall', 'split'):
        return NotImplemented
    a = list(a)
    pat = a.pop(0) if a else k.pop('pattern')
    flags = k.pop('flags', 0)
    npos = {'sub': 3, 'subn': 3, 'split': 2}.get(n, 1)
    if len(a) > npos:
        flags = a.pop()
    c = re.compile(conc(pat), flags)
    return ops.call(getattr(c, n), *a, **k)
