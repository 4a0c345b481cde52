"""Symbolic values and path state.

A path of the real (instrumented) code is executed with proxy values; every time the code needs a truth value that
depends on symbolic inputs the engine decides it (possibly forking).  Terms are either

  * unary: a function of ONE finite-domain input variable, kept as an exact table over the domain of the variable
    (finite function encoding; turned into an ITE term when handed to z3), or
  * general: a z3 integer expression.

`Engine` keeps, for the current path, an exact domain mask per finite variable plus z3 constraints.
"""
from __future__ import annotations
import functools
import math, sys, time
import z3


class PathAbort(BaseException):
    """path is infeasible or must be dropped"""


class Unsupported(BaseException):
    pass


class Var:
    __slots__ = ('idx', 'name', 'lo', 'hi', 'n', 'full', 'z', 'ident', 'big')

    def __init__(self, idx, name, lo, hi):
        self.idx, self.name, self.lo, self.hi = idx, name, lo, hi
        self.big = (lo is None or hi is None or hi - lo >= 1024)
        self.z = z3.Int(name)
        if self.big:
            self.n = self.full = self.ident = None
        else:
            self.n = hi - lo + 1
            self.full = (1 << self.n) - 1
            self.ident = ident_table(lo, hi)


@functools.lru_cache(None)
def ident_table(lo, hi):
    return tuple(range(lo, hi + 1))


_mask_cache = {}


def pred_mask(table, key, pred):
    """mask of indices whose table value satisfies pred; cached by (table identity, key)"""
    k = (table, key)
    m = _mask_cache.get(k)
    if m is None:
        m = 0
        for i, v in enumerate(table):
            if pred(v):
                m |= 1 << i
        if len(_mask_cache) > 200000:
            _mask_cache.clear()
        _mask_cache[k] = m
    return m


_tbl_intern = {}


def intern_table(t):
    r = _tbl_intern.get(t)
    if r is None:
        if len(_tbl_intern) > 100000:
            _tbl_intern.clear()
        _tbl_intern[t] = r = Table(t)
    return r


class Table(tuple):
    """interned tuple with a cached hash (256 element tuples are hashed often)"""
    __slots__ = ()
    _h = {}

    def __hash__(self):
        return id(self)

    def __eq__(self, other):
        return self is other or tuple.__eq__(self, other)


def mask_ranges(mask, lo):
    out, i, start = [], 0, None
    n = mask.bit_length()
    while i <= n:
        b = (mask >> i) & 1
        if b and start is None:
            start = i
        elif not b and start is not None:
            out.append((start + lo, i - 1 + lo))
            start = None
        i += 1
    return out


def z_mask(var, mask):
    if mask == var.full:
        return z3.And(var.z >= var.lo, var.z <= var.hi)
    rs = mask_ranges(mask, var.lo)
    if not rs:
        return z3.BoolVal(False)
    return z3.Or([var.z == a if a == b else z3.And(var.z >= a, var.z <= b) for a, b in rs])


_zt_cache = {}


def z_table(var, table, mask=None):
    """table as a piecewise affine ITE over var.z"""
    if table is var.ident or tuple.__eq__(table, var.ident):
        return var.z
    runs = []   # (start, end, slope, base)
    n = len(table)
    i = 0
    while i < n:
        j = i + 1
        if j < n:
            s = table[j] - table[i]
            while j < n and table[j] - table[j - 1] == s:
                j += 1
            if j - i == 2 and s not in (0, 1) and n > 2:
                j, s = i + 1, 0
        else:
            s = 0
        runs.append((i, j - 1, s, table[i]))
        i = j
    e = None
    for a, b, s, base in reversed(runs):
        v = z3.IntVal(base) if s == 0 else (var.z if s == 1 else var.z * s) + (base - s * (a + var.lo))
        e = v if e is None else z3.If(var.z <= b + var.lo, v, e)
    return e


class Engine:
    cur: 'Engine' = None

    def __init__(self, prefix=(), stats=None):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.alts = []            # alternative prefixes discovered
        self.vars = {}
        self.dom = {}             # Var -> mask
        self.zpc = []             # z3 constraints (general)
        self.obligations = []
        self.observed = {}
        self.stats = stats if stats is not None else {}
        self.unary_only = True
        self._solver = None
        self._solver_n = 0
        self.concretized = 0
        self.notes = []
        self.inputs = []          # (name, kind, vars) in creation order
        self.deadline = None
        self.steps = 0

    # ---------------------------------------------------------------- variables
    def var(self, name, lo, hi):
        assert name not in self.vars, name
        v = Var(len(self.vars), name, lo, hi)
        self.vars[name] = v
        if v.big:
            if lo is not None:
                self.zpc.append(v.z >= lo)
            if hi is not None:
                self.zpc.append(v.z <= hi)
        else:
            self.dom[v] = v.full
        return v

    def int(self, name, lo, hi):
        v = self.var(name, lo, hi)
        if v.big:
            return SymInt(None, None, v.z, lo, hi)
        return SymInt(v, v.ident)

    # ---------------------------------------------------------------- decisions
    def _decide_n(self, n_feasible):
        """n-ary decision among n_feasible alternatives; returns index; registers alternatives"""
        self.steps += 1
        if self.deadline is not None and (self.steps & 255) == 0 and time.monotonic() > self.deadline:
            raise PathAbort('deadline')
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            self.pos += 1
        else:
            c = 0
            base = tuple(self.decisions)
            for i in range(n_feasible - 1, 0, -1):
                self.alts.append(base + (i,))
            self.pos += 1
        self.decisions.append(c)
        return c

    def branch_mask(self, var, mask):
        cur = self.dom[var]
        t = cur & mask
        if t == cur:
            return True
        if not t:
            return False
        c = self._decide_n(2)
        if c == 0:
            self.dom[var] = t
            return True
        self.dom[var] = cur & ~mask
        return False

    def branch_z(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        # every solver-decided branch is recorded (one-sided ones too): a replayed prefix needs no solver calls
        if self.pos < len(self.prefix):
            r = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(r)
            self.zpc.append(c if r == 0 else z3.Not(c))
            return r == 0
        self._tick()
        sat_t = self.sat(c)
        sat_f = self.sat(z3.Not(c)) if sat_t else True
        self.pos += 1
        if sat_t and sat_f:
            self.alts.append(tuple(self.decisions) + (1,))
        r = 0 if sat_t else 1
        self.decisions.append(r)
        self.zpc.append(c if r == 0 else z3.Not(c))
        return r == 0

    def branch_many(self, conds):
        """n-ary decision: conds are exhaustive and exclusive; returns the index of the one taken"""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            c = conds[d]()
        else:
            self._tick()
            self.pos += 1
            cs = [c() for c in conds]
            feas = [i for i, c in enumerate(cs) if not isinstance(c, SymBool) and c][:1]
            if not feas:
                feas = [i for i, c in enumerate(cs) if isinstance(c, SymBool) and self.sat(c.z())]
            if not feas:
                raise PathAbort('infeasible')
            base = tuple(self.decisions)
            for i in reversed(feas[1:]):
                self.alts.append(base + (i,))
            d = feas[0]
            self.decisions.append(d)
            c = cs[d]
        if isinstance(c, SymBool):
            self.zpc.append(c.z())
        return d

    def _tick(self):
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise PathAbort('deadline')

    def pc(self):
        cs = list(self.zpc)
        for v, m in self.dom.items():
            cs.append(z_mask(v, m))
        return cs

    def sat(self, *extra, timeout=20000, model=False):
        s = z3.SolverFor('QF_LIA') if False else z3.Solver()
        s.set('timeout', timeout)
        t0 = time.monotonic()
        s.add(*self.pc())
        s.add(*extra)
        r = s.check()
        dt = time.monotonic() - t0
        st = self.stats
        st['queries'] = st.get('queries', 0) + 1
        st['solver_s'] = st.get('solver_s', 0.0) + dt
        if r == z3.unknown:
            st['unknown'] = st.get('unknown', 0) + 1
            raise Unsupported('solver returned unknown')
        if r == z3.sat:
            st['sat'] = st.get('sat', 0) + 1
            return s.model() if model else True
        st['unsat'] = st.get('unsat', 0) + 1
        return None if model else False

    # ---------------------------------------------------------------- concretisation
    def pick_unary(self, var, table):
        """fork over the values of a unary term; returns a concrete value"""
        groups = {}
        cur = self.dom[var]
        m = cur
        i = 0
        while m:
            low = m & -m
            i = low.bit_length() - 1
            groups[table[i]] = groups.get(table[i], 0) | low
            m ^= low
        keys = list(groups)
        if len(keys) == 1:
            return keys[0]
        c = self._decide_n(len(keys))
        self.dom[var] = groups[keys[c]]
        return keys[c]

    def pick_z(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        while True:
            # deterministic re-execution: the candidate has to be the same on replay, so it is
            # stored inside the decision itself (as ('v', value))
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                self.pos += 1
                self.decisions.append(d)
                kind, val = d
                if kind == 'eq':
                    self.zpc.append(e == val)
                    return val
                self.zpc.append(e != val)
                continue
            mdl = self.sat(model=True)
            if mdl is None:
                raise PathAbort('infeasible')
            val = mdl.eval(e, model_completion=True).as_long()
            if self.sat(e != val):
                self.alts.append(tuple(self.decisions) + (('ne', val),))
            self.decisions.append(('eq', val))
            self.pos += 1
            self.zpc.append(e == val)
            return val

    def assume(self, cond):
        if isinstance(cond, SymBool):
            if cond.var is not None:
                t = self.dom[cond.var] & cond.mask
                if not t:
                    raise PathAbort('assume')
                self.dom[cond.var] = t
                return
            self.zpc.append(cond.z())
            if not self.sat():
                raise PathAbort('assume')
            return
        if not cond:
            raise PathAbort('assume')

    # ---------------------------------------------------------------- obligations
    def check(self, cond, msg):
        """cond has to hold on this path for every value of the inputs"""
        self.obligations.append((cond, msg))

    def model_values(self, mdl):
        vals = {}
        for name, v in self.vars.items():
            if v.big:
                vals[name] = mdl.eval(v.z, model_completion=True).as_long()
            else:
                x = mdl.eval(v.z, model_completion=True).as_long()
                vals[name] = x
        return vals


_unary_cache = {}


def discharge(eng):
    """Ask the solver for a violation of any obligation of the path. Returns None or (msg, values)."""
    st = eng.stats
    st['obligations'] = st.get('obligations', 0) + len(eng.obligations)
    general = []
    conc_fail = None
    for cond, msg in eng.obligations:
        if isinstance(cond, (bool, int)) or cond is None:
            if not cond:
                conc_fail = msg
                break
            st['trivial'] = st.get('trivial', 0) + 1
            continue
        if not isinstance(cond, SymBool):
            cond = bool(cond)
            if not cond:
                conc_fail = msg
                break
            continue
        parts = cond.parts if cond.parts is not None else [cond]
        for p in parts:
            if p.var is not None:
                v = p.var
                d = eng.dom[v]
                key = (v.lo, v.hi, d, p.mask & v.full)
                r = _unary_cache.get(key)
                if r is None:
                    # exists x in domain with not cond(x)?  decided by the solver
                    s = z3.Solver()
                    t0 = time.monotonic()
                    s.add(z_mask(v, d), z3.Not(z_mask(v, p.mask & v.full)))
                    r = s.check() == z3.unsat
                    st['queries'] = st.get('queries', 0) + 1
                    st['unsat' if r else 'sat'] = st.get('unsat' if r else 'sat', 0) + 1
                    st['solver_s'] = st.get('solver_s', 0.0) + time.monotonic() - t0
                    _unary_cache[key] = r
                else:
                    st['cached'] = st.get('cached', 0) + 1
                if not r:
                    general.append((p, msg))
            else:
                general.append((p, msg))
    if conc_fail is not None:
        mdl = eng.sat(model=True)
        if mdl is None:
            return None
        return conc_fail, eng.model_values(mdl)
    if not general:
        return None
    neg = z3.Or([z3.Not(p.z()) for p, _ in general]) if len(general) > 1 else z3.Not(general[0][0].z())
    mdl = eng.sat(neg, model=True)
    if mdl is None:
        return None
    for p, msg in general:
        if not z3.is_true(mdl.eval(p.z(), model_completion=True)):
            return msg, eng.model_values(mdl)
    return general[0][1], eng.model_values(mdl)


# ======================================================================================== booleans
class SymBool:
    __slots__ = ('var', 'mask', '_z', 'parts')

    def __init__(self, var=None, mask=None, z=None, parts=None):
        self.var, self.mask, self._z, self.parts = var, mask, z, parts

    def z(self):
        if self._z is None:
            if self.parts is not None:
                self._z = z3.And([p.z() for p in self.parts])
            else:
                self._z = z_mask(self.var, self.mask & self.var.full)
        return self._z

    def __bool__(self):
        e = Engine.cur
        if self.parts is not None:
            for p in self.parts:
                if not p:
                    return False
            return True
        if self.var is not None:
            return e.branch_mask(self.var, self.mask)
        return e.branch_z(self._z)

    def __invert__(self):
        return sym_not(self)

    def __and__(self, o):
        if isinstance(o, (SymBool, bool)):
            return sym_and([self, o])
        return SymInt.of(self) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SymBool, bool)):
            return sym_or([self, o])
        return SymInt.of(self) | o
    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ bool(o)
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return sym_iff(self, o)
        if isinstance(o, (int, SymInt)):
            return self._int() == o
        return False

    def __ne__(self, o):
        return sym_not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return 'SymBool(%s)' % (self.var.name if self.var else self._z)

    def _int(self):
        return 1 if self else 0

    def __index__(self):
        return self._int()
    __int__ = __index__

    def __add__(self, o): return self._int() + o
    __radd__ = __add__
    def __neg__(self): return -self._int()
    def __pos__(self): return self._int()
    def __abs__(self): return self._int()
    def __floordiv__(self, o): return self._int() // o
    def __mod__(self, o): return self._int() % o
    def __truediv__(self, o): return self._int() / o
    def __lshift__(self, o): return self._int() << o
    def __sub__(self, o): return self._int() - o
    def __rsub__(self, o): return o - self._int()
    def __mul__(self, o): return self._int() * o
    __rmul__ = __mul__
    def __lt__(self, o): return self._int() < o
    def __le__(self, o): return self._int() <= o
    def __gt__(self, o): return self._int() > o
    def __ge__(self, o): return self._int() >= o
    def __str__(self): return str(bool(self))
    def __format__(self, s): return format(bool(self), s)


def sym_not(b):
    if isinstance(b, SymBool):
        if b.var is not None:
            return SymBool(b.var, b.var.full & ~b.mask)
        return SymBool(z=z3.Not(b.z()))
    return not b


def sym_and(items):
    """conjunction without forking"""
    un, rest = {}, []
    for b in items:
        if isinstance(b, SymBool):
            for p in (b.parts if b.parts is not None else (b,)):
                if p.var is not None:
                    un[p.var] = un.get(p.var, p.var.full) & p.mask
                else:
                    rest.append(p)
        elif not b:
            return False
    parts = []
    for v, m in un.items():
        if m == v.full:
            continue
        if not m:
            return False
        parts.append(SymBool(v, m))
    parts += rest
    if not parts:
        return True
    if len(parts) == 1:
        return parts[0]
    return SymBool(parts=parts)


def sym_or(items):
    un, rest = {}, []
    for b in items:
        if isinstance(b, SymBool):
            if b.var is not None:
                un[b.var] = un.get(b.var, 0) | b.mask
            else:
                rest.append(b)
        elif b:
            return True
    parts = []
    for v, m in un.items():
        if m == v.full:
            return True
        if m:
            parts.append(SymBool(v, m))
    parts += rest
    if not parts:
        return False
    if len(parts) == 1:
        return parts[0]
    return SymBool(z=z3.Or([p.z() for p in parts]))


def sym_iff(a, b):
    if not isinstance(a, SymBool) and not isinstance(b, SymBool):
        return bool(a) == bool(b)
    if not isinstance(a, SymBool):
        a, b = b, a
    if not isinstance(b, SymBool):
        return a if b else sym_not(a)
    if a.var is not None and a.var is b.var:
        return SymBool(a.var, a.var.full & ~(a.mask ^ b.mask))
    return SymBool(z=a.z() == b.z())


# ======================================================================================== integers
_op_cache = {}


def tbl_op1(table, name, fn):
    k = (table, name)
    r = _op_cache.get(k)
    if r is None:
        if len(_op_cache) > 100000:
            _op_cache.clear()
        _op_cache[k] = r = intern_table(tuple(fn(v) for v in table))
    return r


class SymInt:
    __slots__ = ('var', 'tab', '_z', 'lo', 'hi', 'dec', 'digs', 'lin', 'negof')

    def __init__(self, var, tab, z=None, lo=None, hi=None, dec=None):
        self.var, self._z, self.dec = var, z, dec
        self.digs = None       # (base, digit terms) of a number built from its digits
        self.lin = None        # sum of tables of several variables and of other terms: see lin_of()
        self.negof = None
        self.tab = tab
        if var is not None:
            if type(tab) is not Table:
                self.tab = intern_table(tab)
            self.lo = self.hi = None
        else:
            self.lo, self.hi = lo, hi

    @staticmethod
    def of(x):
        if isinstance(x, SymBool):
            return SymInt(None, None, z3.If(x.z(), z3.IntVal(1), z3.IntVal(0)), 0, 1)
        return x

    def z(self):
        if self._z is None:
            self._z = z_table(self.var, self.tab) if self.var is not None else lin_z(self.lin)
        return self._z

    @property
    def unary(self):
        return self.var is not None

    def bounds(self):
        if self.var is not None:
            t = self.tab
            d = Engine.cur.dom[self.var]
            vals = [t[i] for i in range(len(t)) if d >> i & 1]
            return min(vals), max(vals)
        return self.lo, self.hi

    def concrete(self):
        """fork until the value is concrete"""
        e = Engine.cur
        if self.var is not None:
            return e.pick_unary(self.var, self.tab)
        e.stats['concretised'] = e.stats.get('concretised', 0) + 1
        return e.pick_z(self.z())

    def _bin(self, o, name, fn, zfn, rng=None):
        if isinstance(o, SymBool):
            o = o._int()
        if isinstance(o, SymInt):
            if self.var is not None and o.var is self.var:
                return SymInt(self.var, intern_table(tuple(fn(a, b) for a, b in zip(self.tab, o.tab))))
            ob = o.bounds()
        elif isinstance(o, int):
            o = int(o)
            if self.var is not None:
                return SymInt(self.var, tbl_op1(self.tab, (name, o), lambda v: fn(v, o)))
            ob = (o, o)
        else:
            return NotImplemented
        lo = hi = None
        sb = self.bounds()
        if rng is not None and None not in sb and None not in ob:
            lo, hi = rng(sb, ob)
        l = None
        if name in ('add', 'sub', 'rsub', 'mul'):
            l = lin_bin(name, self, o)
            if l is not None and (l[1] or not l[2]):
                return lin_term(l)
        oz = o.z() if isinstance(o, SymInt) else z3.IntVal(o)
        res = SymInt(None, None, zfn(self.z(), oz), lo, hi)
        res.lin = l
        return res

    def __add__(self, o):
        return self._bin(o, 'add', lambda a, b: a + b, lambda a, b: a + b, lambda s, t: (s[0] + t[0], s[1] + t[1]))

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        return self._bin(o, 'sub', lambda a, b: a - b, lambda a, b: a - b, lambda s, t: (s[0] - t[1], s[1] - t[0]))

    def __rsub__(self, o):
        return self._bin(o, 'rsub', lambda a, b: b - a, lambda a, b: b - a, lambda s, t: (t[0] - s[1], t[1] - s[0]))

    @staticmethod
    def _mulr(s, t):
        p = [a * b for a in s for b in t]
        return min(p), max(p)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)) or is_symseq(o):
            return o * self.concrete()
        if isinstance(o, float):
            return to_rat(self) * o
        return self._bin(o, 'mul', lambda a, b: a * b, lambda a, b: a * b, self._mulr)

    __rmul__ = __mul__

    def _divconst(self, o):
        if isinstance(o, SymInt):
            o = o.concrete()
        if not isinstance(o, int):
            return None
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        return o

    def __floordiv__(self, o):
        if isinstance(o, SymRat) or isinstance(o, float):
            return to_rat(self) // o
        d = self._divconst(o)
        if d is None:
            return NotImplemented
        if self.var is not None:
            return SymInt(self.var, tbl_op1(self.tab, ('fdiv', d), lambda v: v // d))
        if d < 0:
            return (-self) // (-d)
        s = lin_split(self, d)
        if s is not None:
            return s[0]
        lo, hi = self.lo, self.hi
        return SymInt(None, None, self.z() / d, None if lo is None else lo // d, None if hi is None else hi // d)

    def __rfloordiv__(self, o):
        return o // self.concrete()

    def __mod__(self, o):
        d = self._divconst(o)
        if d is None:
            return NotImplemented
        if self.var is not None:
            return SymInt(self.var, tbl_op1(self.tab, ('mod', d), lambda v: v % d))
        if d < 0:
            return -((-self) % (-d))
        if self.lo is not None and self.hi is not None and 0 <= self.lo and self.hi < d:
            return self
        s = lin_split(self, d)
        if s is not None:
            return s[1]
        return SymInt(None, None, self.z() % d, 0, d - 1)

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return NotImplemented
        return o % self.concrete()

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return divmod(o, self.concrete())

    def __truediv__(self, o):
        return to_rat(self) / o

    def __rtruediv__(self, o):
        return to_rat(o) / self

    def __pow__(self, o, m=None):
        if isinstance(o, int) and 0 <= o <= 4 and m is None:
            r = 1
            for _ in range(o):
                r = self * r if isinstance(r, int) else r * self
            if self.var is None and self.lo is not None and o == 2 and isinstance(r, SymInt):
                r.lo = max(r.lo, 0) if r.lo is not None else 0
            return r
        return pow(self.concrete(), o, m)

    def __rpow__(self, o):
        return o ** self.concrete()

    def __neg__(self):
        if self.negof is not None:
            return self.negof
        r = self._bin(-1, 'mul', lambda a, b: a * b, lambda a, b: -a, self._mulr)
        if self.var is None and isinstance(r, SymInt):
            r.negof = self
        return r

    def __pos__(self):
        return self

    def __abs__(self):
        if self.var is not None:
            return SymInt(self.var, tbl_op1(self.tab, 'abs', abs))
        return self if self >= 0 else -self

    def __invert__(self):
        return -self - 1

    # bit operations: exact for unary terms; for general terms with constants on non-negative values
    def __lshift__(self, o):
        if isinstance(o, SymInt):
            o = o.concrete()
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << self.concrete()

    def __rshift__(self, o):
        if isinstance(o, SymInt):
            o = o.concrete()
        return self // (1 << o)

    def __rrshift__(self, o):
        return o >> self.concrete()

    def __and__(self, o):
        if isinstance(o, SymInt):
            if o.var is not None and o.var is self.var:
                return self._bin(o, 'and', lambda a, b: a & b, None)
            if o.var is not None and self.var is None:
                return o.__rand_general(self)
            return self & o.concrete()
        if not isinstance(o, int):
            return NotImplemented
        if self.var is not None:
            return self._bin(o, 'and', lambda a, b: a & b, None)
        if o >= 0:
            # exact on Python's two's complement semantics: decompose the mask into runs of ones
            res = None
            i = 0
            m = o
            while m:
                low = (m & -m).bit_length() - 1
                m2 = m >> low
                ln = 0
                while m2 & 1:
                    ln += 1
                    m2 >>= 1
                part = ((self // (1 << low)) % (1 << ln)) * (1 << low)
                res = part if res is None else res + part
                m = m2 << (low + ln)
            return 0 if res is None else res
        return self - (self & ~o)

    def __rand_general(self, o):
        return o & self.concrete()

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SymInt, int)):
            if self.var is not None and (isinstance(o, int) or o.var is self.var):
                return self._bin(o, 'or', lambda a, b: a | b, None)
            if isinstance(o, int):
                return self + o - (self & o)
            # disjoint bits are recognised by bounds: low part < 2^k, high part multiple of 2^k
            for a, b in ((self, o), (o, self)):
                bl, bh = b.bounds()
                if bl is not None and bl >= 0:
                    k = 1 << bh.bit_length()
                    m = a % k
                    if isinstance(m, SymInt) and not Engine.cur.sat(m.z() != 0):
                        return a + b
            return self.concrete() | o
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if self.var is not None and (isinstance(o, int) or (isinstance(o, SymInt) and o.var is self.var)):
            return self._bin(o, 'xor', lambda a, b: a ^ b, None)
        return self.concrete() ^ o

    __rxor__ = __xor__

    @staticmethod
    def _bounds_cmp(name, a, b):
        """decide a comparison by value bounds alone (None: undecided)"""
        (al, ah), (bl, bh) = a, b
        if name in ('gt', 'ge'):
            (al, ah), (bl, bh) = b, a
            name = 'lt' if name == 'gt' else 'le'
        lt = ah is not None and bl is not None and ah < bl      # a < b for sure
        gt = al is not None and bh is not None and al > bh
        if name == 'eq':
            return False if lt or gt else None
        if name == 'lt':
            if lt:
                return True
            if al is not None and bh is not None and al >= bh:
                return False
        if name == 'le':
            if gt:
                return False
            if ah is not None and bl is not None and ah <= bl:
                return True
        return None

    # comparisons
    def _cmp(self, o, name, fn, zfn):
        if isinstance(o, SymBool):
            o = o._int()
        if isinstance(o, SymInt):
            if self.var is not None and o.var is self.var:
                m = 0
                for i, (a, b) in enumerate(zip(self.tab, o.tab)):
                    if fn(a, b):
                        m |= 1 << i
                return mk_bool(self.var, m)
            sb, ob = self.bounds(), o.bounds()
            r = self._bounds_cmp(name, sb, ob)
            if r is not None:
                return r
            if self.lin is not None or o.lin is not None:
                if name == 'eq':
                    r = lin_eq(self, o)
                    if r is not None:
                        return r
                l = lin_bin('sub', self, o)
                if l is not None:
                    t = lin_term(l)
                    return t._cmp(0, name, fn, zfn) if isinstance(t, SymInt) else fn(t, 0)
            return SymBool(z=zfn(self.z(), o.z()))
        if isinstance(o, bool) or isinstance(o, int):
            o = int(o)
            if self.var is not None:
                return mk_bool(self.var, pred_mask(self.tab, (name, o), lambda v: fn(v, o)))
            r = self._bounds_cmp(name, (self.lo, self.hi), (o, o))
            if r is not None:
                return r
            if name == 'eq' and self.lin is not None:
                r = lin_eq(self, o)
                if r is not None:
                    return r
            return SymBool(z=zfn(self.z(), z3.IntVal(o)))
        if isinstance(o, (float, SymRat)):
            return None
        return NotImplemented

    def __eq__(self, o):
        r = self._cmp(o, 'eq', lambda a, b: a == b, lambda a, b: a == b)
        return (to_rat(self) == o) if r is None else (False if r is NotImplemented else r)

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    def __lt__(self, o):
        r = self._cmp(o, 'lt', lambda a, b: a < b, lambda a, b: a < b)
        return (to_rat(self) < o) if r is None else r

    def __le__(self, o):
        r = self._cmp(o, 'le', lambda a, b: a <= b, lambda a, b: a <= b)
        return (to_rat(self) <= o) if r is None else r

    def __gt__(self, o):
        r = self._cmp(o, 'gt', lambda a, b: a > b, lambda a, b: a > b)
        return (to_rat(self) > o) if r is None else r

    def __ge__(self, o):
        r = self._cmp(o, 'ge', lambda a, b: a >= b, lambda a, b: a >= b)
        return (to_rat(self) >= o) if r is None else r

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash(self.concrete())

    def __index__(self):
        return self.concrete()

    __int__ = __index__

    def __float__(self):
        return float(self.concrete())

    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self

    def __round__(self, n=None):
        return self if n is None or n >= 0 else round(self.concrete(), n)

    def __str__(self):
        return str(self.concrete())

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __repr__(self):
        return 'SymInt(%s)' % (self.var.name if self.var else self._z)

    def bit_length(self):
        if self.var is not None:
            return SymInt(self.var, tbl_op1(self.tab, 'bl', lambda v: v.bit_length()))
        return self.concrete().bit_length()

    def to_bytes(self, *a, **k):
        from . import ops
        return ops.lift(lambda v: v.to_bytes(*a, **k), self)

    @property
    def real(self): return self
    @property
    def numerator(self): return self
    @property
    def denominator(self): return 1

    def is_integer(self): return True

    def conjugate(self): return self


def lin_of(x):
    """(constant, {Var: table}, {id: (term, factor)}): the value is the sum; None: not kept"""
    if isinstance(x, int):
        return int(x), {}, {}
    if x.var is not None:
        return 0, {x.var: x.tab}, {}
    if x.lin is not None:
        return x.lin
    return 0, {}, {id(x): (x, 1)}


def lin_bin(name, a, o):
    if name == 'mul':
        if not isinstance(o, int):
            return None
        c, t, g = lin_of(a)
        if o == 0:
            return 0, {}, {}
        return (c * o, {v: tbl_op1(tb, ('mul', o), lambda x: x * o) for v, tb in t.items()},
                {k: (x, f * o) for k, (x, f) in g.items()})
    ka, ko = {'add': (1, 1), 'sub': (1, -1), 'rsub': (-1, 1)}[name]
    A, B = lin_of(a), lin_of(o)
    if len(A[1]) + len(B[1]) + len(A[2]) + len(B[2]) > 10:
        return None
    if ka != 1:
        A = lin_bin('mul', a, -1)
    if ko != 1:
        B = (-B[0], {v: tbl_op1(tb, ('mul', -1), lambda x: -x) for v, tb in B[1].items()},
             {k: (x, -f) for k, (x, f) in B[2].items()})
    c, t, g = A[0] + B[0], dict(A[1]), dict(A[2])
    for v, tb in B[1].items():
        t[v] = intern_table(tuple(x + y for x, y in zip(t[v], tb))) if v in t else tb
    for k, (x, f) in B[2].items():
        f += g[k][1] if k in g else 0
        if f:
            g[k] = (x, f)
        else:
            del g[k]
    return c, {v: tb for v, tb in t.items() if any(tb)}, g


def lin_term(l):
    """a term of the sum: an int, a unary term or a general one"""
    c, t, g = l
    if not t and not g:
        return c
    if not g and len(t) == 1:
        (v, tb), = t.items()
        return SymInt(v, tbl_op1(tb, ('add', c), lambda x: x + c))
    if not t and c == 0 and len(g) == 1:
        (x, f), = g.values()
        if f == 1:
            return x
    lo, hi = c, c
    for v, tb in t.items():
        b = SymInt(v, tb).bounds()
        lo, hi = lo + b[0], hi + b[1]
    for x, f in g.values():
        b = x.bounds()
        if None in b or lo is None:
            lo = hi = None
        else:
            lo, hi = lo + min(b[0] * f, b[1] * f), hi + max(b[0] * f, b[1] * f)
    res = SymInt(None, None, None, lo, hi)
    res.lin = l
    return res


def lin_z(l):
    c, t, g = l
    z = [z_table(v, tb) for v, tb in t.items()] + [x.z() * f if f != 1 else x.z() for x, f in g.values()]
    if c:
        z.append(z3.IntVal(c))
    r = z[0]
    for y in z[1:]:
        r = r + y
    return r


@functools.lru_cache(100000)
def table_gcd(t):
    g = 0
    for x in t:
        g = math.gcd(g, x - t[0])
    return g


def lin_eq(a, b):
    """equality of two sums digit by digit (positional numbers); None: the sums do not split"""
    ds = set()
    for x in (a, b):
        if isinstance(x, SymInt) and x.var is None and x.lin is not None:
            ds |= {table_gcd(t) for t in x.lin[1].values()} | {abs(f) for _, f in x.lin[2].values()}
    for d in sorted(ds):
        if d < 2:
            continue
        p, q = [divmod(x, d) if isinstance(x, int) else (x // d, x % d) if x.var is not None else lin_split(x, d) for x in (a, b)]
        if p is not None and q is not None:
            r = [p[1] == q[1], p[0] == q[0]]
            return sym_and(r)
    return None


def lin_split(x, d):
    """(quotient, remainder) of a division by d > 0 if the sum splits exactly; None if it does not"""
    if x.lin is None:
        return None
    c, t, g = x.lin
    qt, rt, qg, rg = {}, {}, {}, {}
    for v, tb in t.items():
        q = tbl_op1(tb, ('fdiv', d), lambda a: a // d)
        r = tbl_op1(tb, ('mod', d), lambda a: a % d)
        if any(q):
            qt[v] = q
        if any(r):
            rt[v] = r
    for k, (y, f) in g.items():
        if f // d:
            qg[k] = (y, f // d)
        if f % d:
            rg[k] = (y, f % d)
    R = lin_term((c % d, rt, rg))
    b = (R, R) if isinstance(R, int) else R.bounds()
    if None in b or b[0] // d != b[1] // d:
        return None
    k = b[0] // d
    if k:
        R = lin_term((c % d - k * d, rt, rg))
    return lin_term((c // d + k, qt, qg)), R


def mk_bool(var, m):
    m &= var.full
    if m == var.full:
        return True
    if m == 0:
        return False
    return SymBool(var, m)


def is_symseq(o):
    from . import seq
    return isinstance(o, seq.SymSeq)


# ======================================================================================== rationals (floats)
class SymRat:
    """Exact rational num/den (den > 0, nearly always constant), standing for a float value.

    Arithmetic is exact; where the real code rounds to a double the harness states the lemma under which the result of
    the decisions (floor, comparisons, fixed-point formatting) is the same (see DESIGN.md, "floats")."""
    __slots__ = ('num', 'den')

    def __init__(self, num, den):
        self.num, self.den = num, den

    def _lift(self, o):
        if isinstance(o, SymRat):
            return o
        return to_rat(o)

    def _al(self, o):
        o = self._lift(o)
        if o is None:
            return None
        if not isinstance(o.den, int) or not isinstance(self.den, int):
            if o.den is self.den:
                return self.num, o.num, self.den
            return self.num * o.den, o.num * self.den, self.den * o.den
        if o.den == self.den:
            return self.num, o.num, self.den
        from math import gcd
        g = gcd(self.den, o.den)
        return self.num * (o.den // g), o.num * (self.den // g), self.den // g * o.den

    def __add__(self, o):
        r = self._al(o)
        return NotImplemented if r is None else SymRat(r[0] + r[1], r[2])
    __radd__ = __add__

    def __sub__(self, o):
        r = self._al(o)
        return NotImplemented if r is None else SymRat(r[0] - r[1], r[2])

    def __rsub__(self, o):
        r = self._al(o)
        return NotImplemented if r is None else SymRat(r[1] - r[0], r[2])

    def __mul__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        n, d = self.num * o.num, self.den * o.den
        if isinstance(o.num, int) and isinstance(self.den, int):
            from math import gcd
            g = gcd(abs(o.num), self.den)
            if g > 1:
                return SymRat(self.num * (o.num // g), (self.den // g) * o.den)
        return SymRat(n, d)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        n = o.num
        if n == 0:
            raise ZeroDivisionError('float division by zero')
        if isinstance(n, SymInt):
            neg = bool(n < 0)
            if o.den is self.den:
                return SymRat(-self.num, -n) if neg else SymRat(self.num, n)
            if isinstance(self.den, int) and isinstance(o.den, int):
                from math import gcd
                g = gcd(self.den, o.den)
                sn, sd = self.num * (o.den // g), (self.den // g)
            else:
                sn, sd = self.num * o.den, self.den
            return SymRat(-sn, -n * sd) if neg else SymRat(sn, n * sd)
        if n < 0:
            return SymRat(-self.num * o.den, self.den * -n)
        return self * SymRat(o.den, n)

    def __rtruediv__(self, o):
        o = self._lift(o)
        return NotImplemented if o is None else o / self

    def __floordiv__(self, o):
        return to_rat((self / o).__floor__())

    def __neg__(self):
        return SymRat(-self.num, self.den)

    def __pos__(self): return self

    def __abs__(self):
        return self if self.num >= 0 else -self

    def __floor__(self):
        return self.num // self.den

    def __trunc__(self):
        return self.num // self.den if self.num >= 0 else -((-self.num) // self.den)

    def __ceil__(self):
        return -((-self.num) // self.den)

    __int__ = None

    def __round__(self, n=None):
        if n is None:
            return round_half_even(self.num, self.den)
        p = 10 ** n
        return SymRat(round_half_even(self.num * p, self.den), p)

    def _cmp(self, o, fn):
        r = self._al(o)
        if r is None:
            return NotImplemented
        return fn(r[0], r[1])

    def __eq__(self, o):
        r = self._al(o)
        return False if r is None else r[0] == r[1]

    def __ne__(self, o):
        return sym_not(self == o)

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return bool(self.num != 0)

    def __float__(self):
        return self.concrete()

    def concrete(self):
        n = self.num.concrete() if isinstance(self.num, SymInt) else self.num
        return n / (self.den.concrete() if isinstance(self.den, SymInt) else self.den)

    def __hash__(self):
        return hash(self.concrete())

    def __str__(self): return str(self.concrete())
    def __format__(self, s): return format(self.concrete(), s)
    def __repr__(self): return 'SymRat(%r/%r)' % (self.num, self.den)

    def __mod__(self, o):
        q = (self / o).__floor__()
        return self - q * o

    def __pow__(self, o):
        if isinstance(o, int) and o == 2:
            return self * self
        return self.concrete() ** o

    def is_integer(self):
        return self.num % self.den == 0


def to_rat(x):
    if isinstance(x, SymRat):
        return x
    if isinstance(x, (SymInt, int)):
        return SymRat(int(x) if isinstance(x, bool) else x, 1)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return None
        n, d = x.as_integer_ratio()
        return SymRat(n, d)
    return None


def round_half_even(n, d):
    """round n/d to the nearest integer, ties to even (exact; the result is an int or SymInt)"""
    if d == 1:
        return n
    if isinstance(n, int):
        from fractions import Fraction
        return round(Fraction(n, d))
    fl = n // d
    r2 = (n - fl * d) * 2
    if r2 < d:
        return fl
    if r2 > d:
        return fl + 1
    return fl if fl % 2 == 0 else fl + 1


SYM_SCALARS = (SymInt, SymBool, SymRat)
