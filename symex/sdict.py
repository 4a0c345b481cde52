"""dict of the instrumented code: keys may be symbolic (equality of keys is decided by forking, no hashing)."""
from __future__ import annotations
from .core import SymInt, SymBool, SymRat, sym_and, sym_or
from .seq import SymSeq, conc

_MISSING = object()


def symkey(k):
    t = type(k)
    if t in (SymInt, SymBool, SymRat) or isinstance(k, SymSeq):
        return True
    if t is tuple:
        return any(symkey(i) for i in k)
    return False


def keq(a, b):
    ta, tb = type(a), type(b)
    if ta is tuple or tb is tuple:
        if ta is not tb or len(a) != len(b):
            return False
        return sym_and([keq(x, y) for x, y in zip(a, b)])
    if symkey(b) and not symkey(a):
        a, b = b, a
    r = a == b
    return False if r is NotImplemented else r


def _clsval(v):
    return type(v) in (int, str, bytes, bool, type(None))


class SymDict(dict):
    """_l: None, or the list of [key, value] in insertion order once a symbolic key has been stored
    _p: assignments with symbolic keys whose place is not decided yet (made only when something depends on it)"""
    __slots__ = ('_l', '_p')

    def __init__(self, *a, **k):
        self._l = None
        self._p = []
        if a and isinstance(a[0], SymDict):
            a[0]._flush()
        if a and (isinstance(a[0], SymDict) and a[0]._l is not None):
            self._l = [list(x) for x in a[0]._l]
            for kk, v in k.items():
                self[kk] = v
            return
        if a and not hasattr(a[0], 'keys'):
            for kk, v in a[0]:
                self[kk] = v
            for kk, v in k.items():
                self[kk] = v
            return
        super().__init__(*a, **k)

    # ---- lookup
    def _find(self, k):
        """index in _l or None (forks)"""
        l = self._l
        if symkey(k):
            conds = [keq(e[0], k) for e in l]
            if not sym_or(conds):
                return None
            for i, c in enumerate(conds[:-1]):
                if c:
                    return i
            return len(conds) - 1
        for i, e in enumerate(l):
            if symkey(e[0]):
                if keq(e[0], k):
                    return i
            elif e[0] is k or e[0] == k:
                return i
        return None

    def _flush(self):
        p, self._p = self._p, []
        for k, v in p:
            if self._l is None:
                self._l = [[a, b] for a, b in dict.items(self)]
                dict.clear(self)
            i = self._find(k)
            if i is None:
                self._l.append([k, v])
            else:
                self._l[i][1] = v

    def _lookup(self, k):
        for pk, v in reversed(self._p):
            if keq(pk, k):
                return v
        if self._l is None:
            if not symkey(k):
                return dict.get(self, k, _MISSING)
            ks = [x for x in dict.keys(self) if type(x) in (int, str, bytes, tuple, bool) or type(x) is type(k)]
            conds = [keq(x, k) for x in ks]
            if not sym_or(conds):
                return _MISSING
            for x, c in zip(ks[:-1], conds):
                if c:
                    return dict.__getitem__(self, x)
            return dict.__getitem__(self, ks[-1])
        i = self._find(k)
        return _MISSING if i is None else self._l[i][1]

    def _tolist(self):
        self._flush()
        if self._l is None:
            self._l = [[k, v] for k, v in dict.items(self)]
            dict.clear(self)

    def __getitem__(self, k):
        r = self._lookup(k)
        if r is _MISSING:
            raise KeyError(k)
        return r

    def get(self, k, d=None):
        r = self._lookup(k)
        return d if r is _MISSING else r

    def __contains__(self, k):
        return bool(self.has(k))

    def has(self, k):
        if self._p:
            r = [keq(pk, k) for pk, _ in self._p]
            p, self._p = self._p, []
            try:
                r.append(self.has(k))
            finally:
                self._p = p
            return sym_or(r)
        if self._l is None:
            if not symkey(k):
                return dict.__contains__(self, k)
            return sym_or([keq(x, k) for x in dict.keys(self)])
        return sym_or([keq(e[0], k) for e in self._l])

    def __setitem__(self, k, v):
        if self._p or symkey(k):
            self._p.append((k, v))
            return
        if self._l is None:
            dict.__setitem__(self, k, v)
            return
        i = self._find(k)
        if i is None:
            self._l.append([k, v])
        else:
            self._l[i][1] = v

    def __delitem__(self, k):
        self._flush()
        if self._l is None:
            if not symkey(k):
                dict.__delitem__(self, k)
                return
            self._tolist()
        i = self._find(k)
        if i is None:
            raise KeyError(k)
        del self._l[i]

    def pop(self, k, *d):
        r = self._lookup(k)
        if r is _MISSING:
            if d:
                return d[0]
            raise KeyError(k)
        del self[k]
        return r

    def popitem(self):
        self._flush()
        if self._l is None:
            return dict.popitem(self)
        if not self._l:
            raise KeyError('dictionary is empty')
        return tuple(self._l.pop())

    def setdefault(self, k, d=None):
        r = self._lookup(k)
        if r is _MISSING:
            self[k] = d
            return d
        return r

    def update(self, *a, **k):
        if a:
            o = a[0]
            if isinstance(o, dict):
                for kk, v in o.items():
                    self[kk] = v
            elif hasattr(o, 'keys'):
                for kk in o.keys():
                    self[kk] = o[kk]
            else:
                for kk, v in o:
                    self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def clear(self):
        self._l = None
        self._p = []
        dict.clear(self)

    def copy(self):
        r = SymDict()
        r._p = list(self._p)
        if self._l is None:
            dict.update(r, self)
        else:
            r._l = [list(x) for x in self._l]
        return r

    __copy__ = copy

    def keys(self):
        self._flush()
        return dict.keys(self) if self._l is None else KeyList([e[0] for e in self._l])

    def values(self):
        self._flush()
        return dict.values(self) if self._l is None else [e[1] for e in self._l]

    def items(self):
        self._flush()
        return dict.items(self) if self._l is None else [(e[0], e[1]) for e in self._l]

    def __iter__(self):
        self._flush()
        return dict.__iter__(self) if self._l is None else iter([e[0] for e in self._l])

    def __reversed__(self):
        return reversed(list(self))

    def __len__(self):
        self._flush()
        return dict.__len__(self) if self._l is None else len(self._l)

    def __bool__(self):
        return bool(self._p) or len(self) > 0

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        self._flush()
        if isinstance(o, SymDict):
            o._flush()
        if self._l is None and not (isinstance(o, SymDict) and o._l is not None):
            return dict.__eq__(self, o)
        if len(self) != len(o):
            return False
        m = o if isinstance(o, SymDict) else SymDict(o)
        for k, v in self.items():
            r = m._lookup(k)
            if r is _MISSING or not (r == v):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    __hash__ = None

    def __repr__(self):
        return '{' + ', '.join('%r: %r' % (conc(k), v) for k, v in self.items()) + '}'


class KeyList(list):
    pass


def mkdict(*kv):
    d = SymDict()
    for k, v in kv:
        if k is _SPREAD:
            d.update(v)
        else:
            d[k] = v
    return d


_SPREAD = object()


def mkspread(v):
    return (_SPREAD, v)
