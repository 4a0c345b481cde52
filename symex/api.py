"""Harness interface.  The same harness function runs symbolically (instrumented code of /repo, SymH) and concretely
(untouched code of /repo, ConcH: replays and trace validation)."""
from __future__ import annotations
import z3
from .core import Engine, SymInt, SymBool, PathAbort, sym_and, sym_or, sym_not, to_rat, SymRat
from .seq import SymSeq, SymStr, SymBytes, make, elems_of, in_ranges as _in_ranges


class SymH:
    symbolic = True

    def __init__(self, eng):
        self._keep = []
        self.eng = eng
        self.checks = 0

    def int(self, name, lo=None, hi=None):
        return self.eng.int(name, lo, hi)

    def bignum(self, name, ndigits, base):
        """non-negative number of at most ndigits digits"""
        ds = [self.eng.int(f'{name}{i}', 0, base - 1) for i in range(ndigits)]
        z = z3.IntVal(0)
        for d in ds:
            z = z * base + d.z()
        r = SymInt(None, None, z3.simplify(z), 0, base ** ndigits - 1)
        r.digs = (base, tuple(ds))
        return r

    def byte(self, name, ranges=((0, 255),)):
        v = self.eng.int(name, 0, 255)
        if ranges != ((0, 255),):
            self.eng.assume(_in_ranges(v, tuple(tuple(r) for r in ranges)))
        return v

    def bytes(self, name, n, ranges=((0, 255),)):
        return make(bytes, tuple(self.byte('%s%d' % (name, i), ranges) for i in range(n)))

    def str(self, name, n, ranges):
        el = []
        lo, hi = min(r[0] for r in ranges), max(r[1] for r in ranges)
        for i in range(n):
            v = self.eng.int('%s%d' % (name, i), lo, hi)
            self.eng.assume(_in_ranges(v, tuple(tuple(r) for r in ranges)))
            el.append(v)
        return make(str, tuple(el))

    def rat(self, num, den):
        """num/den as a float value (den a power of two, so that it is exactly representable)"""
        return SymRat(num, den)

    def check(self, cond, msg):
        self.checks += 1
        self.eng.check(cond, msg)

    def assume(self, cond):
        self.eng.assume(cond)

    def drop(self):
        raise PathAbort('dropped')

    def observe(self, key, value):
        self.eng.observed[key] = value

    def note(self, s):
        self.eng.notes.append(s)

    def all(self, conds):
        return sym_and(list(conds))

    def any(self, conds):
        return sym_or(list(conds))

    def implies(self, a, b):
        return sym_or([sym_not(a), b])

    def in_ranges(self, c, ranges):
        return _in_ranges(c, tuple(tuple(r) for r in ranges))

    def force(self, cond):
        """decide now (fork)"""
        return bool(cond)

    def key(self, v):
        """hashable identity of a term"""
        if isinstance(v, SymInt):
            if v.var is not None:
                return v.var, v.tab
            z = v.z()
            self._keep.append(z)
            return 'z', z.get_id()
        return v

    def concrete(self, v):
        from .seq import conc
        return conc(v)

    def codes(self, s):
        return list(elems_of(s))

    def mkstr(self, codes):
        return make(str, tuple(codes))

    def mkbytes(self, codes):
        return make(bytes, tuple(codes))

    def is_const(self, c):
        return type(c) is int

    def fmt(self, v, spec):
        from . import ops
        return list(elems_of(ops.fmt(v, spec)))

    def close(self, a, b):
        """equality of float results up to 1e-9"""
        a, b = to_rat(a), to_rat(b)
        n, m, d = a._al(b)
        x = n - m
        if isinstance(x, SymInt):

            y = z3.simplify(x.z(), som=True)
            if z3.is_int_value(y):
                x = y.as_long()
        if type(x) is int and x == 0:
            return True
        x = x * 10 ** 9
        return sym_and([x <= d, -x <= d])

    def div(self, a, b):
        return to_rat(a) / b

    def bool(self, name):
        """symbolic truth value"""
        return self.eng.int(name, 0, 1) == 1

    def nearest(self, c, others, q):
        """no color of `others` is closer to q than c (squared distance, expanded so that the condition is linear)"""
        def d(a):
            return sum(((x - y) * (x - y) for x, y in zip(a, q)), 0)
        dc = d(c)
        out = []
        for o in others:
            if o is c:
                continue
            out.append(dc <= d(o))
        return sym_and(out)

    def hash(self, o):
        from . import ops
        return ops.m_hash(o)

    def hex2(self, c):
        return self.fmt(c, '02x')

    def hex6(self, c):
        return self.fmt(c, '06X')

    def dec(self, c):
        return self.fmt(c, 'd')

    def digit(self, c, base):
        """value of a digit (lowercase) or None if c is not always a digit"""
        if type(c) is int:
            v = c - 48 if 48 <= c <= 57 else c - 87 if 97 <= c <= 122 else 99
            return v if v < base else None
        if base <= 10:
            return c - 48 if bool(_in_ranges(c, ((48, 47 + base),))) else None
        if not bool(_in_ranges(c, ((48, 57), (97, 86 + base)))):
            return None
        if c.var is not None:
            return SymInt(c.var, tuple(x - 48 if x <= 57 else x - 87 for x in c.tab))
        return SymInt(None, None, z3.If(c.z() <= 57, c.z() - 48, c.z() - 87), 0, base - 1)

    def eq(self, a, b):
        """equality of two code lists as a condition"""
        if len(a) != len(b):
            return False
        cs = []
        for x, y in zip(a, b):
            if x is y:
                continue
            if type(x) is int and type(y) is int:
                if x != y:
                    return False
            else:
                cs.append(x == y)
        return sym_and(cs)


def to_z(x):
    return x.z() if isinstance(x, SymInt) else z3.IntVal(x)


class MissingValue(BaseException):
    pass


class Values(dict):
    def __missing__(self, k):
        raise MissingValue(k)


class ConcH:
    symbolic = False

    def __init__(self, values):
        self.values = Values(values)
        self.failed = []
        self.observed = {}
        self.checks = 0
        self.dropped = False

    def int(self, name, lo=None, hi=None):
        v = self.values[name]
        return v

    def bignum(self, name, ndigits, base):
        v = 0
        for i in range(ndigits):
            v = v * base + self.values[f'{name}{i}']
        return v

    def byte(self, name, ranges=((0, 255),)):
        return self.values[name]

    def bytes(self, name, n, ranges=((0, 255),)):
        return bytes(self.values['%s%d' % (name, i)] for i in range(n))

    def str(self, name, n, ranges):
        return ''.join(chr(self.values['%s%d' % (name, i)]) for i in range(n))

    def rat(self, num, den):
        return num / den

    def check(self, cond, msg):
        self.checks += 1
        if not cond:
            self.failed.append(msg)

    def assume(self, cond):
        if not cond:
            raise PathAbort('assume')

    def drop(self):
        raise PathAbort('dropped')

    def observe(self, key, value):
        self.observed[key] = value

    def note(self, s):
        pass

    def all(self, conds):
        return all(list(conds))

    def any(self, conds):
        return any(list(conds))

    def implies(self, a, b):
        return (not a) or b

    def in_ranges(self, c, ranges):
        return any(a <= c <= b for a, b in ranges)

    def force(self, cond):
        return bool(cond)

    def key(self, v):
        return v

    def concrete(self, v):
        return v

    def codes(self, s):
        return list(map(ord, s)) if isinstance(s, str) else list(s)

    def mkstr(self, codes):
        return ''.join(map(chr, codes))

    def mkbytes(self, codes):
        return bytes(codes)

    def is_const(self, c):
        return True

    def fmt(self, v, spec):
        return [ord(x) for x in format(v, spec)]

    def close(self, a, b):
        return abs(a - b) <= 1e-9

    def div(self, a, b):
        return a / b

    def bool(self, name):
        return self.values[name] == 1

    def nearest(self, c, others, q):
        def d(a):
            return sum((x - y) * (x - y) for x, y in zip(a, q))
        return all(d(c) <= d(o) for o in others)

    def hash(self, o):
        return hash(o)

    def hex2(self, c):
        return self.fmt(c, '02x')

    def hex6(self, c):
        return self.fmt(c, '06X')

    def dec(self, c):
        return self.fmt(c, 'd')

    def digit(self, c, base):
        v = c - 48 if 48 <= c <= 57 else c - 87 if 97 <= c <= 122 else 99
        return v if v < base else None

    def eq(self, a, b):
        return list(a) == list(b)


def evaluate(x, values, zvals=None):
    """value of a symbolic object under a model (name -> int)"""
    import z3
    if isinstance(x, SymInt):
        if x.var is not None:
            return x.tab[values[x.var.name] - x.var.lo]
        e = z3.substitute(x.z(), *[(z3.Int(n), z3.IntVal(v)) for n, v in values.items()])
        return z3.simplify(e).as_long()
    if isinstance(x, SymBool):
        e = z3.substitute(x.z(), *[(z3.Int(n), z3.IntVal(v)) for n, v in values.items()])
        return z3.is_true(z3.simplify(e))
    if isinstance(x, SymRat):
        return evaluate(x.num, values) / evaluate(x.den, values)
    if isinstance(x, SymSeq):
        el = [evaluate(c, values) if isinstance(c, SymInt) else c for c in x.e]
        return ''.join(map(chr, el)) if x.kind is str else bytes(el)
    if isinstance(x, (list, tuple)):
        return [evaluate(i, values) for i in x]
    if isinstance(x, dict):
        return {k: evaluate(v, values) for k, v in x.items()}
    return x
