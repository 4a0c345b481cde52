"""Loads kolombos/pytermor (and the harnesses) from source with every call, f-string, `%`, `in` and subscript load routed
through symex.ops, so that the very code of /repo runs over symbolic values.  Nothing is cached: the encoding is
regenerated from the current source on every run."""
from __future__ import annotations
import ast, importlib.abc, importlib.machinery, importlib.util, os, sys, types, warnings
from . import ops, sdict

SKIP_NAMES = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir', '__import__', 'TypeVar', 'NewType', 'breakpoint'}


class Tr(ast.NodeTransformer):
    def __init__(self):
        self.functions = []
        self._stack = []

    # -- no instrumentation of annotations, decorators' own expression, bases, defaults stay instrumented
    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        n.target = self.visit(n.target) if not isinstance(n.target, ast.Name) else n.target
        return n

    def _fn(self, n):
        self._stack.append(n.name)
        self.functions.append('.'.join(self._stack))
        for a in ast.walk(n.args):
            if isinstance(a, ast.arg):
                a.annotation = None
        n.returns = None
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        outer, self._locals = getattr(self, '_locals', None), self._local_names(n)
        n.body = self._body(n.body)
        self._locals = outer
        self._stack.pop()
        return n

    @staticmethod
    def _local_names(n):
        """names bound by this very function and used by no inner one"""
        own, other = set(), set()

        def walk(node, inner):
            for c in ast.iter_child_nodes(node):
                if isinstance(c, ast.Name):
                    (other if inner else own).add(c.id) if inner or isinstance(c.ctx, ast.Store) else None
                elif isinstance(c, (ast.Global, ast.Nonlocal)):
                    other.update(c.names)
                walk(c, inner or isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)))
        walk(n, False)
        return own - other

    def visit_Expr(self, n):
        v = n.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'sort' and \
                isinstance(v.func.value, ast.Name) and v.func.value.id in (getattr(self, '_locals', None) or ()) and \
                not any(isinstance(a, ast.Starred) for a in v.args) and not any(k.arg is None for k in v.keywords):
            x = v.func.value.id
            name = lambda: ast.Name(x, ast.Load())
            kw = ast.Dict([ast.Constant(k.arg) for k in v.keywords], [self.visit(k.value) for k in v.keywords])
            call = ast.Call(self._rt('sort_local'), [name(), ast.Call(self._rt('refs'), [name()], []),
                                                     ast.Tuple([self.visit(a) for a in v.args], ast.Load()), kw], [])
            return ast.copy_location(ast.Assign([ast.Name(x, ast.Store())], call), n)
        self.generic_visit(n)
        return n

    def _body(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r] if r is not None else [])
        return out

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_ClassDef(self, n):
        self._stack.append(n.name)
        n.body = self._body(n.body)
        for s in n.body:
            if isinstance(s, ast.FunctionDef) and s.name == '__hash__':
                s.decorator_list.append(self._rt('hashfn'))
            if isinstance(s, ast.FunctionDef) and s.name == '__bool__':
                s.decorator_list.append(self._rt('boolfn'))
        self._stack.pop()
        return n

    @staticmethod
    def _rt(name, ctx=ast.Load()):
        return ast.Attribute(ast.Name('__sx__', ast.Load()), name, ast.Load())

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in SKIP_NAMES:
            n.args = [self.visit(a) for a in n.args]
            n.keywords = [self.visit(k) for k in n.keywords]
            return n
        self.generic_visit(n)
        return ast.copy_location(ast.Call(self._rt('call'), [n.func] + n.args, n.keywords), n)

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                spec = self.visit(spec) if spec is not None else ast.Constant('')
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(ast.Call(self._rt('fstr'), parts, []), n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(self._rt('mod'), [n.left, n.right], []), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            f = 'contains' if isinstance(n.ops[0], ast.In) else 'notcontains'
            return ast.copy_location(ast.Call(self._rt(f), [n.left, n.comparators[0]], []), n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            c = n.comparators[0]
            if isinstance(c, ast.Constant) and type(c.value) is bool:
                r = ast.Call(self._rt('is_const'), [n.left, c], [])
                if isinstance(n.ops[0], ast.IsNot):
                    r = ast.Call(self._rt('not_'), [r], [])
                return ast.copy_location(r, n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Slice):
            return ast.copy_location(ast.Call(self._rt('getitem'), [n.value, n.slice], []), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        items = [ast.Tuple([k, v], ast.Load()) if k is not None else ast.Call(self._rt('mkspread'), [v], [])
                 for k, v in zip(n.keys, n.values)]
        return ast.copy_location(ast.Call(self._rt('mkdict'), items, []), n)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        g = ast.GeneratorExp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)
        return ast.copy_location(ast.Call(self._rt('dict'), [g], []), n)

    def visit_AugAssign(self, n):
        if isinstance(n.op, ast.Mod) and isinstance(n.target, ast.Name):
            v = ast.Call(self._rt('mod'), [ast.Name(n.target.id, ast.Load()), self.visit(n.value)], [])
            return ast.copy_location(ast.Assign([n.target], v), n)
        self.generic_visit(n)
        return n

    # -- match statements become chains of conditions, so that class, sequence and mapping patterns work on symbolic subjects
    def visit_Match(self, n):
        self._tmp = getattr(self, '_tmp', 0) + 1
        m = f'__match{self._tmp}'
        root = tail = None
        first = ast.Assign([ast.Name(m, ast.Store())], self.visit(n.subject))
        for c in n.cases:
            cond = self._pattern(c.pattern, m)
            if c.guard is not None:
                cond = ast.BoolOp(ast.And(), [cond, self.visit(c.guard)])
            node = ast.If(cond, self._body(c.body), [])
            if tail is None:
                root = node
            else:
                tail.orelse = [node]
            tail = node
        return [ast.copy_location(first, n), ast.copy_location(root, n)]

    def _sub(self, expr, pattern):
        """condition: the value of `expr` matches `pattern` (the value is bound to a new name)"""
        self._tmp += 1
        t = f'__match{self._tmp}'
        bind = ast.List([ast.NamedExpr(ast.Name(t, ast.Store()), expr)], ast.Load())
        return ast.BoolOp(ast.And(), [bind, self._pattern(pattern, t)])

    def _pattern(self, p, m):
        name = lambda: ast.Name(m, ast.Load())
        const = lambda v: ast.Constant(v)
        conj = lambda cs: cs[0] if len(cs) == 1 else ast.BoolOp(ast.And(), cs)
        capture = lambda x: ast.List([ast.NamedExpr(ast.Name(x, ast.Store()), name())], ast.Load())
        if isinstance(p, ast.MatchValue):
            return ast.Compare(name(), [ast.Eq()], [self.visit(p.value)])
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(name(), [ast.Is()], [const(p.value)])
        if isinstance(p, ast.MatchOr):
            return ast.BoolOp(ast.Or(), [self._pattern(x, m) for x in p.patterns])
        if isinstance(p, ast.MatchAs):
            cs = []
            if p.pattern is not None:
                cs.append(self._pattern(p.pattern, m))
            if p.name is not None:
                cs.append(capture(p.name))
            return conj(cs or [const(True)])
        if isinstance(p, ast.MatchClass):
            cs = [ast.Call(self._rt('m_class'), [name(), self.visit(p.cls)], [])]
            for i, x in enumerate(p.patterns):
                cs.append(self._sub(ast.Call(self._rt('m_pos'), [name(), self.visit(p.cls), const(i)], []), x))
            for k, x in zip(p.kwd_attrs, p.kwd_patterns):
                cs.append(ast.Call(self._rt('call'), [ast.Attribute(self._rt('ops'), 'm_hasattr', ast.Load()), name(), const(k)], []))
                cs.append(self._sub(ast.Attribute(name(), k, ast.Load()), x))
            return conj(cs)
        if isinstance(p, ast.MatchSequence):
            star = next((i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)), -1)
            k = len(p.patterns)
            cs = [ast.Call(self._rt('m_seq'), [name(), const(k), const(star)], [])]
            for i, x in enumerate(p.patterns):
                if isinstance(x, ast.MatchStar):
                    if x.name is not None:
                        e = ast.Call(self._rt('m_star'), [name(), const(i), const(k - i - 1)], [])
                        cs.append(ast.List([ast.NamedExpr(ast.Name(x.name, ast.Store()), e)], ast.Load()))
                else:
                    at = i if star < 0 or i < star else i - k
                    cs.append(self._sub(ast.Call(self._rt('getitem'), [name(), const(at)], []), x))
            return conj(cs)
        if isinstance(p, ast.MatchMapping):
            cs = [ast.Call(self._rt('m_map'), [name()], [])]
            for k, x in zip(p.keys, p.patterns):
                k = self.visit(k)
                cs.append(ast.Call(self._rt('contains'), [k, name()], []))
                cs.append(self._sub(ast.Call(self._rt('getitem'), [name(), k], []), x))
            if p.rest is not None:
                e = ast.Call(self._rt('m_rest'), [name()] + [self.visit(k) for k in p.keys], [])
                cs.append(ast.List([ast.NamedExpr(ast.Name(p.rest, ast.Store()), e)], ast.Load()))
            return conj(cs)
        raise SyntaxError(f'pattern {type(p).__name__}')


def m_class(o, cls):
    return ops.m_isinstance(o, cls)


def m_pos(o, cls, i):
    ma = getattr(cls, '__match_args__', None)
    if ma is None and i == 0:      # bool, int, str, bytes, list...: the subject itself
        return o
    return getattr(o, ma[i])


def m_seq(o, k, star):
    if not ops.m_isinstance(o, (list, tuple)) and not ops.m_isinstance(o, __import__('collections').deque):
        return False
    return ops.m_len(o) == k if star < 0 else ops.m_len(o) >= k - 1


def m_star(o, i, after):
    return list(o)[i:len(o) - after]


def m_map(o):
    return ops.m_isinstance(o, dict)


def m_rest(o, *keys):
    return {k: v for k, v in o.items() if k not in keys}


class RT:
    call = staticmethod(ops.call)
    fstr = staticmethod(ops.fstr)
    mod = staticmethod(ops.mod)
    contains = staticmethod(ops.contains)
    notcontains = staticmethod(ops.notcontains)
    getitem = staticmethod(ops.getitem)
    conc = staticmethod(ops.conc)
    mkdict = staticmethod(sdict.mkdict)
    mkspread = staticmethod(sdict.mkspread)
    dict = sdict.SymDict
    hashfn = staticmethod(ops.hashfn)
    ops = ops
    boolfn = staticmethod(ops.boolfn)
    is_const = staticmethod(ops.is_const)
    not_ = staticmethod(ops.sym_not)
    sort_local = staticmethod(ops.sort_local)
    refs = staticmethod(sys.getrefcount)
    m_class = staticmethod(m_class)
    m_pos = staticmethod(m_pos)
    m_seq = staticmethod(m_seq)
    m_star = staticmethod(m_star)
    m_map = staticmethod(m_map)
    m_rest = staticmethod(m_rest)


ENCODED = {}      # module -> list of functions
SOURCES = {}


def transform(src, path, name):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(src, path)
        tr = Tr()
        tree = tr.visit(tree)
        ast.fix_missing_locations(tree)
        ENCODED[name] = tr.functions
        return compile(tree, path, 'exec', dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return transform(self.get_data(path), path, fullname)

    def exec_module(self, module):
        module.__dict__['__sx__'] = RT
        super().exec_module(module)


class PlainLoader(importlib.machinery.SourceFileLoader):
    """uninstrumented, never touching .pyc files"""
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return compile(self.get_data(path), path, 'exec', dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots, loader):
        self.roots, self.loader = roots, loader

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        if top not in self.roots:
            return None
        base = path or [self.roots[top]]
        tail = fullname.rsplit('.', 1)[-1]
        for b in base:
            pk = os.path.join(b, tail, '__init__.py')
            md = os.path.join(b, tail + '.py')
            if os.path.isfile(pk):
                return importlib.util.spec_from_file_location(fullname, pk, loader=self.loader(fullname, pk),
                                                              submodule_search_locations=[os.path.join(b, tail)])
            if os.path.isfile(md):
                return importlib.util.spec_from_file_location(fullname, md, loader=self.loader(fullname, md))
        return None


def install(repo, verif, instrumented):
    sys.dont_write_bytecode = True
    roots = {'kolombos': repo, 'pytermor': repo, 'harness': verif}
    for m in list(sys.modules):
        if m.split('.')[0] in roots:
            del sys.modules[m]
    sys.meta_path.insert(0, Finder(roots, Loader if instrumented else PlainLoader))


# ------------------------------------------------------------------------------------------------ global state
class Snapshot:
    """state of the modules of the code under test (globals, class attributes, reachable instances and containers),
    restored before every path, so that each path starts like a fresh process"""

    def __init__(self, tops=('kolombos', 'pytermor')):
        self.objs = []       # (kind, obj, saved)
        self.caches = []
        seen = set()
        stack = []
        for name, m in list(sys.modules.items()):
            if name.split('.')[0] in tops:
                stack.append(m)
        import collections
        repo_mod = lambda mm: isinstance(mm, str) and mm.split('.')[0] in tops
        while stack:
            o = stack.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            t = type(o)
            if t is types.ModuleType:
                if not repo_mod(o.__name__):
                    continue
                d = o.__dict__
                self.objs.append(('mod', o, dict(d)))
                stack.extend(v for k, v in d.items() if k != '__builtins__')
            elif isinstance(o, type):
                if not repo_mod(o.__module__):
                    continue
                d = {k: v for k, v in o.__dict__.items()}
                self.objs.append(('cls', o, d))
                stack.extend(d.values())
                stack.extend(o.__mro__)
            elif t in (list, collections.deque):
                self.objs.append(('list', o, list(o)))
                stack.extend(o)
            elif t in (dict, sdict.SymDict, collections.OrderedDict, collections.defaultdict):
                self.objs.append(('dict', o, dict(o)))
                stack.extend(o.values())
                stack.extend(o.keys())
            elif t is set or t is ops.XSet:
                self.objs.append(('set', o, set(o)))
            elif t is tuple:
                stack.extend(o)
            elif t is types.FunctionType:
                if o.__defaults__:
                    stack.extend(o.__defaults__)
                if o.__kwdefaults__:
                    stack.extend(o.__kwdefaults__.values())
                if repo_mod(o.__module__) and o.__dict__:
                    self.objs.append(('inst', o, dict(o.__dict__)))
                    stack.extend(o.__dict__.values())
                if repo_mod(o.__module__):
                    for c in o.__closure__ or ():
                        try:
                            stack.append(c.cell_contents)
                        except ValueError:
                            pass
            elif isinstance(o, (staticmethod, classmethod)):
                stack.append(o.__func__)
            elif hasattr(o, 'cache_clear'):
                self.caches.append(o)
            elif repo_mod(getattr(t, '__module__', None)):
                d = getattr(o, '__dict__', None)
                if d is not None:
                    self.objs.append(('inst', o, dict(d)))
                    stack.extend(d.values())
                sl = [s for c in t.__mro__ for s in ([c.__dict__['__slots__']] if isinstance(c.__dict__.get('__slots__'), str)
                                                     else c.__dict__.get('__slots__', ()))]
                if sl:
                    vals = {s: getattr(o, s) for s in sl if hasattr(o, s)}
                    self.objs.append(('slots', o, vals))
                    stack.extend(vals.values())
                stack.append(t)
        # frozen enums and the like have nothing to restore
        self.objs2 = [(k, o, s, tuple(map(id, s if k == 'list' else s.values() if k != 'set' else ()))) for k, o, s in self.objs]

    def restore(self):
        for kind, o, saved, ids in self.objs2:
            if kind == 'list':
                if tuple(map(id, o)) != ids:
                    o.clear()
                    o.extend(saved)
            elif kind == 'dict':
                if type(o) is sdict.SymDict and (o._p or o._l is not None) or \
                        tuple(map(id, o.values())) != ids or tuple(o) != tuple(saved):
                    o.clear()
                    o.update(saved)
            elif kind in ('mod', 'inst'):
                d = o.__dict__
                if tuple(map(id, d.values())) != ids:
                    d.clear()
                    d.update(saved)
            elif kind == 'set':
                if getattr(o, '_x', None):
                    o._x = []
                if set.__ne__(o, saved):
                    set.clear(o)
                    set.update(o, saved)
            elif kind == 'cls':
                d = o.__dict__
                if tuple(map(id, d.values())) != ids:
                    for k in list(d):
                        if k not in saved and k not in ('__abstractmethods__', '_abc_impl', '__doc__'):
                            try:
                                delattr(o, k)
                            except (AttributeError, TypeError):
                                pass
                    for k, v in saved.items():
                        if d.get(k, self) is not v:
                            try:
                                setattr(o, k, v)
                            except (AttributeError, TypeError):
                                pass
            elif kind == 'slots':
                for k, v in saved.items():
                    try:
                        if getattr(o, k, self) is not v:
                            setattr(o, k, v)
                    except AttributeError:
                        pass
        for c in self.caches:
            c.cache_clear()
