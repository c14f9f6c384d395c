"""Runtime of the rewritten functions: builtins on symbolic values, loop cutting, inlining."""
import ast, builtins, functools, inspect, itertools, re, sys, types
import z3
from . import engine as eng
from .engine import E, Unsupported, PathEnd, Misfit
from .rewrite import Rewriter, find, _strip
from .values import *
from .values import _z

REPO_PKG = 'ombott'
_src_cache = {}
DISPATCH = {}


def on(*fs):
    def d(g):
        for f in fs:
            DISPATCH[f] = g
        return g
    return d


# ---------------------------------------------------------------- loading

def source_tree(fname):
    if fname not in _src_cache:
        with open(fname, encoding='utf8') as f:
            src = f.read()
        _src_cache[fname] = ast.parse(src)
    return _src_cache[fname]


class Inlined:
    """a /repo function in symbolic form"""

    def __init__(self, fn, real, qual):
        self.fn, self.real, self.qual = fn, real, qual
        self.__name__ = qual.split('.')[-1]
        self.__wrapped__ = real

    def __call__(self, *a, **k):
        return self.fn(*a, **k)


class Star:
    """symbolic *args or **kwargs: call(f, Star(args), _star=Star(kwargs))"""

    def __init__(self, o):
        self.o = o


def _star(args):
    return args[0].o if len(args) == 1 and isinstance(args[0], Star) else args


def _starstar(kw):
    return kw['_star'].o if len(kw) == 1 and isinstance(kw.get('_star'), Star) else kw


def compile_fn(fname, qual, globs, loops, lineno=None):
    code_key = (fname, qual, tuple(sorted((str(k), tuple(getattr(x, 'rebind', ()))) for k, x in loops.items())))
    hit = _code_cache.get(code_key)
    if hit is not None:
        return _run(hit, globs)
    tree = source_tree(fname)
    node, cls = find(tree, qual)
    if node is None or not isinstance(node, ast.FunctionDef):
        raise Misfit(f'{qual} not found in {fname}')
    import copy
    node = _strip(copy.deepcopy(node))
    counted = sum(isinstance(x, (ast.For, ast.While)) for x in ast.walk(node))
    for k in loops:
        if isinstance(k, int) and k >= counted:
            raise Misfit(f'{qual} has {counted} loops, the contract talks about loop {k}')
    rw = Rewriter(loops)
    if cls and node.args.args:
        rw.first = node.args.args[0].arg
    try:
        node.body = [y for s in node.body for y in _l(rw.visit(s))]
        node.args.defaults = [rw.visit(d) for d in node.args.defaults]
        for a, f in ((node.args.vararg, '_star'), (node.args.kwarg, '_starstar')):
            if a is not None:
                node.body.insert(0, ast.Assign(targets=[ast.Name(id=a.arg, ctx=ast.Store())], value=ast.Call(func=ast.Name(id=f, ctx=ast.Load()), args=[ast.Name(id=a.arg, ctx=ast.Load())], keywords=[])))
    except SyntaxError as e:
        raise Unsupported(f'{qual}: {e}')
    tree2 = ast.Module(body=[node], type_ignores=[])
    if cls and '.'.join(qual.split('.')[:-1]).endswith(cls):
        tree2 = ast.Module(body=[ast.ClassDef(name=cls, bases=[], keywords=[], body=[node], decorator_list=[], type_params=[])], type_ignores=[])
    ast.fix_missing_locations(tree2)
    hit = _code_cache[code_key] = (compile(tree2, fname, 'exec'), cls, node.name)
    return _run(hit, globs)


_code_cache = {}


def _run(hit, globs):
    code, cls, name = hit
    ns = {}
    exec(code, globs, ns)
    v = ns[cls] if cls and cls in ns else None
    return v.__dict__[name] if v is not None else ns[name]


def _l(x):
    return x if isinstance(x, list) else [x]


class Env:
    """globals of rewritten functions: the real module's, with the contract's stubs on top"""

    def __init__(self, stubs, contracts=None, no_inline=()):
        self.stubs = stubs              # dotted or plain name -> stub
        self.contracts = contracts or {}   # (real function qualname) -> stub
        self.mods = {}
        self.loopspecs = {}             # qualname -> {ordinal: Loop}

    def globs(self, module):
        if module.__name__ in self.mods:
            return self.mods[module.__name__]
        g = dict(module.__dict__)
        g['__builtins__'] = builtins
        g.update(RT)
        for k, v in self.stubs.items():
            if ':' in k:
                m, k = k.split(':')
                if not module.__name__.endswith(m):
                    continue
            g[k] = v
        g['_loop'] = lambda k, names, it: None
        self.mods[module.__name__] = g
        return g

    def load(self, real, qual, module, loops=None):
        loops = loops or self.loopspecs.get(qual, {})
        g = dict(self.globs(module))
        g['_loop'] = lambda k, names, it: LoopRun(f'{qual}#{k}', loops.get(k) or loops.get('all'), names, it)
        owner = module
        for part in qual.split('.')[:-1]:
            owner = getattr(owner, part, None)
        g['_vf_class'] = owner
        g['_local'] = lambda n, f: self.contracts.get(f'{qual}.<locals>.{n}', f)
        f = compile_fn(inspect.getsourcefile(module), qual, g, loops)
        E().functions[f'{module.__name__}.{qual}'] = True
        return Inlined(f, real, qual)


def inline(f):
    """a real /repo function object -> symbolic form (memoised per path)"""
    e = E()
    key = ('inl', f)
    if key in e.memo:
        return e.memo[key]
    env = e.env
    name = f.__qualname__
    c = env.contracts.get(f'{f.__module__}.{name}') or env.contracts.get(name)
    if c is not None:
        e.memo[key] = c
        return c
    if name.endswith('<lambda>'):
        r = inline_lambda(f)
    elif f.__closure__:
        r = inline_closure(f)
    elif '<locals>' in name or '<lambda>' in name:
        raise Unsupported(f'inlining {name}')
    else:
        r = env.load(f, name, sys.modules[f.__module__])
        # defaults of the real function object
        r.fn.__defaults__ = f.__defaults__
        r.fn.__kwdefaults__ = f.__kwdefaults__
    e.memo[key] = r
    return r


def inline_closure(f):
    """closures: rewritten from source with the real cells' contents as globals"""
    e = E()
    env = e.env
    module = sys.modules[f.__module__]
    tree = source_tree(inspect.getsourcefile(f))
    hit = None
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.name == f.__name__ and n.lineno <= f.__code__.co_firstlineno <= n.lineno + len(n.decorator_list) + 1:
            hit = n
    if hit is None:
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef) and n.name == f.__name__ and f.__code__.co_firstlineno == n.lineno:
                hit = n
    if hit is None:
        raise Unsupported(f'closure {f.__qualname__}')
    import copy
    node = _strip(copy.deepcopy(hit))
    rw = Rewriter({})
    node.body = [y for s in node.body for y in _l(rw.visit(s))]
    mod = ast.Module(body=[node], type_ignores=[])
    ast.fix_missing_locations(mod)
    g = dict(env.globs(module))
    for n, c in zip(f.__code__.co_freevars, f.__closure__):
        try:
            g[n] = c.cell_contents
        except ValueError:
            pass
    ns = {}
    exec(compile(mod, 'closure', 'exec'), g, ns)
    r = ns[node.name]
    r.__defaults__, r.__kwdefaults__ = f.__defaults__, f.__kwdefaults__
    E().functions[f'{f.__module__}.{f.__qualname__}'] = True
    return Inlined(r, f, f.__qualname__)


def inline_lambda(f):
    module = sys.modules[f.__module__]
    tree = source_tree(inspect.getsourcefile(f))
    line, params = f.__code__.co_firstlineno, f.__code__.co_varnames[:f.__code__.co_argcount]
    hit = [n for n in ast.walk(tree) if isinstance(n, ast.Lambda) and n.lineno == line and tuple(a.arg for a in n.args.args) == params]
    spans = {(p[0], p[2]) for p in f.__code__.co_positions() if None not in p and (p[2] or p[3])}
    hit = [n for n in hit if (n.body.lineno, n.body.col_offset) in spans and all((n.body.lineno, n.body.col_offset) <= s for s in spans)]
    if len(hit) != 1 or f.__kwdefaults__ or f.__code__.co_kwonlyargcount:
        raise Unsupported('lambda')
    import copy
    node = copy.deepcopy(hit[0])
    node.body = Rewriter({}).visit(node.body)
    g = dict(E().env.globs(module))
    for n, c in zip(f.__code__.co_freevars, f.__closure__ or ()):
        try:
            g[n] = c.cell_contents
        except ValueError:
            pass
    r = eval(compile(ast.fix_missing_locations(ast.Expression(body=node)), 'closure', 'eval'), g)
    r.__defaults__ = f.__defaults__
    E().functions[f'{f.__module__}.{f.__qualname__}'] = True
    return Inlined(r, f, f.__qualname__)


def class_attr(obj, cls, n):
    try:
        a = inspect.getattr_static(cls, n)
    except AttributeError:
        g = inspect.getattr_static(cls, '__getattr__', None)
        if isinstance(g, types.FunctionType) and in_repo(g) and not n.startswith('__'):
            return call(g, obj, n)
        raise AttributeError(n)
    if isinstance(a, types.FunctionType):
        if in_repo(a):
            return types.MethodType(_boundable(inline(a)), obj)
        raise Unsupported(f'{cls.__name__}.{n} (not in the repository)')
    if isinstance(a, property):
        return call(a.fget, obj)
    if isinstance(a, staticmethod):
        return a.__func__
    if isinstance(a, classmethod):
        return types.MethodType(_boundable(inline(a.__func__)), cls)
    if hasattr(type(a), '__get__') and not isinstance(a, (type, types.FunctionType, types.BuiltinFunctionType)):
        t = type(a)
        if t.__module__.split('.')[0] == REPO_PKG:
            return call(t.__get__, a, obj, cls)
        if isinstance(a, types.MemberDescriptorType):
            raise AttributeError(n)
        raise Unsupported(f'descriptor {cls.__name__}.{n}')
    return a


class Super:
    """super() of a symbolic object: the rest of the method resolution order"""

    def __init__(self, cls, o):
        object.__setattr__(self, '_c', cls)
        object.__setattr__(self, '_o', o)

    def __getattribute__(self, n):
        o = object.__getattribute__(self, '_o')
        mro = (o if isinstance(o, type) else o.cls).__mro__
        for c in mro[mro.index(object.__getattribute__(self, '_c')) + 1:]:
            if n in c.__dict__:
                a = c.__dict__[n]
                if c is object and n == '__new__' and 'new' in E().hooks:
                    f = E().hooks['new']
                    f._vf = True
                    return f
                if isinstance(a, (types.FunctionType, property)) and in_repo(getattr(a, 'fget', a)):
                    if isinstance(a, property):
                        return call(a.fget, o)
                    return types.MethodType(_boundable(inline(a)), o)
                if isinstance(a, staticmethod) and isinstance(a.__func__, types.FunctionType) and in_repo(a.__func__):
                    return _boundable(inline(a.__func__))
                raise Unsupported(f'super().{n}')
        raise AttributeError(n)


def _super(cls, o):
    if not isinstance(cls, type):
        raise Unsupported('super()')
    if isinstance(o, SObj) or isinstance(o, type):
        if isinstance(o, SObj) and (o.cls is None or cls not in o.cls.__mro__) or isinstance(o, type) and cls not in o.__mro__:
            raise Unsupported('super()')
        return Super(cls, o)
    return super(cls, o)


def _boundable(x):
    """one function per symbolic function: bound methods of one object compare equal"""
    memo, key = E().memo, ('bound', id(x))
    hit = memo.get(key)
    if hit is not None:
        return hit[0]
    f = _boundable1(x)
    memo[key] = (f, x)
    return f


def _boundable1(x):
    def f(*a, **k):
        return x(*a, **k)
    f._vf = True
    return f


def in_repo(f):
    return (getattr(f, '__module__', None) or '').split('.')[0] == REPO_PKG


# ---------------------------------------------------------------- calls

def has_sym(a, k=()):
    for x in a:
        if is_sym(x) or isinstance(x, (list, tuple)) and any(is_sym(y) for y in x):
            return True
    return any(is_sym(x) for x in (k.values() if k else ()))


def call(f, *a, **k):
    try:
        d = DISPATCH.get(f)
    except TypeError:
        d = None
    if d is not None:
        r = d(*a, **k)
        if r is not NotImplemented:
            return r
    if isinstance(f, types.FunctionType):
        if f in (re.match, re.search, re.fullmatch, re.finditer) and has_sym(a, k):
            if len(a) != 2 or k or not isinstance(a[0], (str, bytes, re.Pattern)):
                raise Unsupported(f're.{f.__name__}')
            from . import rx
            return rx.method(re.compile(a[0]), f.__name__, a[1:], k)
        if getattr(f, '_vf', False) or f.__module__ is None or not in_repo(f) or f.__code__.co_filename == 'closure':
            return f(*a, **k)
        if f.__globals__.get('_vf_rt'):
            return f(*a, **k)          # already symbolic (nested function, lambda)
        return inline(f)(*a, **k)
    if isinstance(f, types.MethodType):
        fn = f.__func__
        if isinstance(fn, types.FunctionType) and in_repo(fn) and not fn.__globals__.get('_vf_rt') and not getattr(fn, '_vf', False):
            return inline(fn)(f.__self__, *a, **k)
        return f(*a, **k)
    if isinstance(f, (Inlined, SObj)) or getattr(f, '_vf', False):
        return f(*a, **k)
    if isinstance(f, types.BuiltinMethodType) and getattr(f, '__self__', None) is not None and not isinstance(f.__self__, types.ModuleType):
        s = f.__self__
        if isinstance(s, (str, bytes)) and (has_sym(a, k) or a and isinstance(a[0], SComp)):
            return str_method(s, f.__name__, a, k)
        if isinstance(s, re.Pattern) and has_sym(a, k):
            from . import rx
            return rx.method(s, f.__name__, a, k)
        if isinstance(s, (dict,)) and a and is_sym(a[0]) and isinstance(a[0], Sym):
            return dict_method(s, f.__name__, a, k)
        if isinstance(s, (set, frozenset)) and any(isinstance(x, Sym) for x in a):
            raise Unsupported(f'set.{f.__name__} on a symbolic value')
        return f(*a, **k)
    if isinstance(f, type):
        if issubclass(f, BaseException):
            if in_repo(f):
                return exc_new(f, a, k)
            return f(*[x if not isinstance(x, Sym) else '<symbolic>' for x in a])
        if has_sym(a, k) and not (issubclass(f, types.SimpleNamespace) and f.__init__ is types.SimpleNamespace.__init__ and f.__new__ is types.SimpleNamespace.__new__ and not a):
            raise Unsupported(f'construct {f.__name__} from symbolic values')
        return f(*a, **k)
    if has_sym(a, k) and isinstance(f, (types.BuiltinFunctionType, types.MethodDescriptorType)):
        raise Unsupported(f'builtin {getattr(f, "__name__", f)} on symbolic values')
    return f(*a, **k)


def exc_new(cls, a, k):
    from ombott.response import HTTPResponse
    if issubclass(cls, HTTPResponse):
        raise Unsupported(f'{cls.__name__} needs a stub')
    return cls(*[x if not isinstance(x, Sym) else '<symbolic>' for x in a], **k)


def str_method(s, name, a, k):
    if name == 'join':
        h = E().hooks.get('join')
        if isinstance(a[0], SComp):
            r = h(s, a[0]) if h is not None else NotImplemented
            if r is NotImplemented:
                raise Unsupported('join of a symbolic comprehension')
            return r
        if isinstance(a[0], SObj) and h is not None:
            r = h(s, a[0])
            if r is not NotImplemented:
                return r
        items = list(a[0])
        out = None
        if h is not None:
            r = h(s, items)
            if r is not NotImplemented:
                return r
        ks = 'str' if isinstance(s, str) else 'bytes'
        if not items:
            return s
        if not s and items and all(isinstance(x, (SBuf,)) for x in items):
            out = items[0]
            for x in items[1:]:
                out = out + x
            return out
        for i, x in enumerate(items):
            if kind_of(x) not in ('str', 'bytes'):
                raise Unsupported(f'join of {type(x).__name__}')
            if kind_of(x) != ks:
                throw(TypeError('join: wrong item type'))
            out = lift(x) if i == 0 else (out + s + x if s else out + x)
        return out
    if name == 'format':
        return fmt_format(s, a, k)
    if name == 'startswith' and isinstance(a[0], SBuf):
        o = a[0]
        return SBool(z3.And([o.n <= len(s)] + [z3.Implies(o.n > i, o.at(i) == c) for i, c in enumerate(s)]))
    return getattr(lift(s), name)(*a, **k)


def dict_method(d, name, a, k):
    key = a[0]
    if name == 'get':
        for kk in d:
            if truth(key == kk):
                return d[kk]
        return a[1] if len(a) > 1 else None
    raise Unsupported(f'dict.{name} with a symbolic key')


def truth(x):
    return bool(x)


def fmt_format(s, a, k):
    import string
    out = None
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out = _cat(out, lit)
        if field is None:
            continue
        if spec:
            raise Unsupported('format spec')
        first, rest = _split_field(field)
        if first == '':
            first, auto = auto, auto + 1
        v = a[int(first)] if isinstance(first, int) or first.isdigit() else k[first]
        for is_attr, n in rest:
            v = getattr(v, n) if is_attr else _getitem(v, n)
        if conv == 'r':
            v = call(repr, v)
        out = _cat(out, str_of(v))
    return out if out is not None else ''


def _split_field(field):
    import _string
    first, rest = _string.formatter_field_name_split(field)
    return (first if isinstance(first, int) else first), list(rest)


def _cat(a, b):
    if a is None:
        return b
    return _add(a, b)


def _add(a, b):
    if isinstance(a, (str, bytes)) and isinstance(b, SStr):
        return b.__radd__(a)
    return a + b


def _iadd(a, b):
    if isinstance(a, list):
        a += b
        return a
    return _add(a, b)


def _in(x, c):
    if isinstance(c, (Sym, SObj)):
        r = c.contains(x)
        return r
    if isinstance(x, SChar) and isinstance(c, (str, tuple, list, set, frozenset)):
        return x.inside([y for y in c if isinstance(y, str) and len(y) == 1])
    if isinstance(c, (str, bytes)) and isinstance(x, Sym):
        return lift(c).contains(x)
    if isinstance(x, Sym) and isinstance(c, (list, tuple, set, frozenset, dict, types.MappingProxyType)):
        r = False
        for y in c:
            q = (x == y)
            if isinstance(q, SBool):
                r = q if r is False else (r | q)
            elif q:
                return True
        return r
    if isinstance(c, (list, tuple)) and any(isinstance(y, Sym) for y in c):
        r = False
        for y in c:
            q = (y == x) if isinstance(y, Sym) else (y is x or y == x)
            if isinstance(q, SBool):
                r = q if r is False else (r | q)
            elif q:
                return True
        return r
    return x in c


def _among(x, n):
    """the value of a small index, by cases"""
    if isinstance(x, SInt):
        for i in range(n + 1):
            if E().fork(x.z == i):
                return i
    return x


def _getitem(o, k):
    if isinstance(o, (Sym, SObj)):
        return o[k]
    if isinstance(k, Sym):
        if isinstance(o, dict):
            for kk in o:
                if truth(k == kk):
                    return o[kk]
            throw(KeyError('<symbolic>'))
        if isinstance(o, (str, bytes)):
            return lift(o)[k]
        if isinstance(o, (list, tuple)):
            for i in range(len(o)):
                if truth(k == i):
                    return o[i]
            raise Unsupported('symbolic index')
    if isinstance(k, slice) and any(isinstance(x, Sym) for x in (k.start, k.stop)):
        if isinstance(o, (str, bytes)):
            if len(o) <= 8:
                a, b = (_among(x, len(o)) for x in (k.start, k.stop))
                if not isinstance(a, Sym) and not isinstance(b, Sym):
                    return o[a:b:k.step]
            return lift(o)[k]
        raise Unsupported('symbolic slice')
    return o[k]


def _mod(a, b):
    if isinstance(a, (str, SStr)):
        if isinstance(a, SStr):
            raise Unsupported('symbolic format string')
        args = b if isinstance(b, tuple) else (b,)
        if not has_sym(args):
            return a % b
        import re
        parts = re.split(r'(%(?:%|s|d|r))', a)
        out, i = '', 0
        for p in parts:
            if p == '%%':
                out = _add(out, '%')
            elif p in ('%s', '%d'):
                out = _add(out, str_of(args[i]))
                i += 1
            elif p == '%r':
                out = _add(out, call(repr, args[i]))
                i += 1
            elif '%' in p:
                raise Unsupported(f'format {p!r}')
            elif p:
                out = _add(out, p)
        return out
    return a % b


def _fstr(*parts):
    out = ''
    for p in parts:
        if isinstance(p, str):
            out = _add(out, p)
        else:
            v, conv, spec = p
            if not is_sym(v) and not (isinstance(v, tuple) and has_sym(v)):
                s = format(repr(v) if conv == 114 else str(v) if conv == 115 else v, spec or '')
            else:
                if spec:
                    raise Unsupported('format spec')
                s = call(repr, v) if conv == 114 else str_of(v)
            out = _add(out, s)
    return out


def _attr(o, n):
    if isinstance(o, SObj):
        if n in o.attrs:
            return o.attrs[n]
        if n == '__class__' and o.cls is not None:
            return o.cls
        if o.cls is not None and o.inline:
            return class_attr(o, o.cls, n)
        raise Unsupported(f'attribute {n} of {o!r}')
    if isinstance(o, (Sym, Poison)):
        raise Unsupported(f'attribute {n}')
    return getattr(o, n)


def _raising(x):
    E().raised.append(x)
    return x


NATURAL = (KeyError, IndexError, ValueError, StopIteration)


def _caught():
    e = sys.exc_info()[1]
    if isinstance(e, (PathEnd, Unsupported, Misfit, eng.Budget, GeneratorExit)):
        raise e
    if any(e is r for r in E().raised) or isinstance(e, NATURAL):
        return
    if isinstance(e, type) or isinstance(e, BaseException):
        raise Unsupported(f'unmodelled exception {e!r} reached a handler')


def _finally():
    e = sys.exc_info()[1]
    if isinstance(e, (PathEnd, Unsupported, Misfit, eng.Budget)):
        raise e


class SComp:
    """lazy image of a symbolic collection: for every element x with cond(x): f(x)"""

    def __init__(self, src, cond, f, flat, kind):
        self.src, self.cond, self.f, self.flat, self.kind = src, cond, f, flat, kind

    def probe(self, x):
        """outputs for one arbitrary element of the source (None: dropped)"""
        if isinstance(self.src, SComp):
            xs = self.src.probe(x)
        else:
            xs = [x]
        out = []
        for y in xs:
            if truth(self.cond(y)):
                r = self.f(y)
                out += (r if isinstance(r, list) else [r]) if self.flat else [r]
        return out

    def __iter__(self):
        raise Unsupported('iteration over a symbolic comprehension')

    # a list built from a symbolic collection may grow at its end
    def append(self, x):
        self.tail = getattr(self, 'tail', []) + [x]

    def __bool__(self):
        raise Unsupported('truth of a symbolic comprehension')


class SColl(SObj):
    """a symbolic finite collection; element() gives an arbitrary element"""


def _comp(kind, it, native, cond, f, flat):
    if isinstance(it, (SComp, SColl)):
        r = SComp(it, cond, f, flat, kind)
        E().memo.setdefault('comps', []).append(r)
        return r
    if isinstance(it, (Sym, SObj)) and not (isinstance(it, SObj) and '__iter__' in it.attrs):
        raise Unsupported(f'comprehension over {it!r}')
    if kind == 'gen':
        return native(it)
    if kind == 'set':
        return native(it)
    return native(it)


def _native_iter(it):
    if isinstance(it, (SComp,)) or isinstance(it, Sym):
        raise Unsupported('loop over a symbolic collection without a contract')
    return it


class SymSet(set):
    """{x}: one symbolic element"""

    def __init__(self, x):
        set.__init__(self)
        self.x = x

    def __iter__(self):
        return iter([self.x])

    def __len__(self):
        return 1

    def __bool__(self):
        return True

    def __contains__(self, y):
        return truth(self.x == y)

    def _no(self, *a):
        raise Unsupported('operation on a set of a symbolic element')
    add = update = discard = remove = pop = clear = __and__ = __or__ = __sub__ = __xor__ = __eq__ = __le__ = __ge__ = __lt__ = __gt__ = union = intersection = difference = copy = isdisjoint = issubset = issuperset = _no
    __rand__ = __ror__ = __rsub__ = __iand__ = __ior__ = __isub__ = _no
    __hash__ = None


def _setof(*xs):
    if len(xs) == 1 and isinstance(xs[0], Sym):
        return SymSet(xs[0])
    return set(xs)


class SymIter(Heap):
    """iterator with contract: more() forks, next() yields"""

    def __init__(self, more, nxt, havoc=None, ghost=None):
        super().__init__()
        self._more, self._next, self._havoc, self.g = more, nxt, havoc, ghost

    def more(self):
        return truth(self._more())

    def next(self):
        self.wrote()
        return self._next()


class TextIter(SymIter):
    """for c in text / for i, c in enumerate(text); k characters are consumed"""

    def __init__(self, text, start=None):
        SymIter.__init__(self, lambda: SBool(self.k < text.n), self._take, self._forget)
        self.text, self.start, self.k = text, start, z3.IntVal(0)

    def _take(self):
        c = SChar(self.text.at(self.k)) if isinstance(self.text, STxt) else SInt(self.text.at(self.k))
        i = SInt(z3.simplify(self.k + (self.start or 0)))
        self.k = z3.simplify(self.k + 1)
        return c if self.start is None else (i, c)

    def _forget(self):
        self.k = z3.Int(E().fresh('k'))
        E().add(z3.And(0 <= self.k, self.k <= self.text.n))


class ListIter(Heap):
    def __init__(self, seq):
        super().__init__()
        self.seq, self.i = list(seq), 0

    def more(self):
        return self.i < len(self.seq)

    def next(self):
        self.i += 1
        return self.seq[self.i - 1]


def _iter(x):
    if isinstance(x, SymIter):
        return x
    if isinstance(x, SObj) and '_symiter' in x.attrs:
        return x.attrs['_symiter']()
    if isinstance(x, SBuf):
        return TextIter(x)
    if isinstance(x, Sym):
        raise Unsupported(f'loop contract over {x!r}')
    return ListIter(x)


# ---------------------------------------------------------------- loops

class NS:
    def __init__(self, d, it=None):
        self.__dict__.update(d)
        self._it = it

    def __getattr__(self, n):
        raise Misfit(f'the loop contract uses variable {n!r}, which the code no longer has')


class Loop:
    """inv(L) -> [(label, cond)], havoc(L) -> {var: value}, variant(L) -> int value or None,
    modifies(L) -> heap objects the loop may change (each is havocked)"""

    def __init__(self, inv, havoc, variant=None, modifies=None, containers=(), step=None, given=None, rebind=()):
        self.rebind = rebind    # further variables the havoc gives a symbolic value
        self.inv, self.havoc, self.variant, self.modifies, self.containers = inv, havoc, variant, modifies, containers
        self.given = given      # definitional facts about the arbitrary iteration
        self.step = step        # ghost update at the end of every iteration


class LoopRun:
    def __init__(self, name, spec, names, it):
        self.name, self.spec, self.names, self.it = name, spec, names, it
        self.count = 0
        self.frame_on = False
        self.modifies = []

    def vals(self, loc):
        return tuple(loc[n] if n in loc else Poison(n) for n in self.names)

    def top(self, loc):
        e = E()
        self.count += 1
        if e.unroll is not None:
            if self.count > e.unroll:
                raise PathEnd()
            if self.count > 1 and self.spec is not None and self.spec.step:
                self.spec.step(NS(loc, self.it))
            return self.vals(loc)
        sp = self.spec
        L = NS(loc, self.it)
        if self.count == 1:
            for label, c in sp.inv(L):
                e.check(f'{self.name} invariant on entry: {label}', zb(c), inductive=True)
            self.modifies = list(sp.modifies(L)) if sp.modifies else []
            if self.it is not None:
                self.modifies.append(self.it)
            self.snap = {n: _shallow(v) for n, v in loc.items() if isinstance(v, (list, dict, set, bytearray)) and n not in sp.containers}
            e.inductive += 1
            self.serial = e.new_serial()     # objects made from here on belong to the iteration
            new = sp.havoc(L)
            for o in self.modifies:
                h = o.attrs.get('havoc') if isinstance(o, SObj) else getattr(o, 'havoc', None)
                if h is not None:
                    h()
                elif isinstance(o, SymIter) and o._havoc is not None:
                    o._havoc()
            d = dict(loc)
            for n in self.names:
                d[n] = new[n] if n in new else Poison(n)
            L2 = NS(d, self.it)
            if sp.given:
                sp.given(L2)
            for label, c in sp.inv(L2):
                e.assume(zb(c))
            self.frame_on = True
            e.frames.append(self)
            self.v0 = sp.variant(L2) if sp.variant else None
            return tuple(d[n] for n in self.names)
        # back edge
        if sp.step:
            sp.step(L)
        for label, c in sp.inv(L):
            e.check(f'{self.name} invariant kept: {label}', zb(c), inductive=True)
        if sp.variant:
            v1 = sp.variant(L)
            e.check(f'{self.name} variant decreases', z3.And(as_int(self.v0) >= 0, as_int(v1) < as_int(self.v0)))
        for n, v in self.snap.items():
            if n in loc and loc[n] is self.snap_obj(n, loc) and not _same(v, loc[n]):
                raise Unsupported(f'{self.name}: container {n} changed in the loop but is not in its contract')
        e.cover(f'{self.name} back edge')
        raise PathEnd()

    def snap_obj(self, n, loc):
        return loc[n]

    def exit(self):
        if self.frame_on:
            fr = E().frames
            if self in fr:
                fr.remove(self)
            self.frame_on = False


def _shallow(v):
    return (list(v) if not isinstance(v, (dict, set)) else (dict(v) if isinstance(v, dict) else set(v)))


def _same(a, b):
    if isinstance(a, list):
        return len(a) == len(b) and all(x is y for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(a[k] is b[k] for k in a)
    return a == b


def zb(c):
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if isinstance(c, SBool):
        return c.z
    return c


# ---------------------------------------------------------------- builtins

@on(len)
def _len(x):
    if isinstance(x, (SStr, SBuf, SChar)):
        return x.slen()
    if isinstance(x, SObj):
        return x.attrs['__len__']() if '__len__' in x.attrs else x._dunder('__len__')
    if isinstance(x, Sym):
        throw(TypeError('len'))
    return len(x)


@on(isinstance)
def _isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, Sym):
        return any(issubclass(p, q) for p in x.pytypes for q in ts)
    if isinstance(x, SObj):
        c = x.attrs.get('_isinstance')
        if c is not None:
            r = c(ts)
            if r is not NotImplemented:
                return r
        if x.cls is None:
            raise Unsupported(f'isinstance of {x!r}')
        return issubclass(x.cls, ts)
    return isinstance(x, t)


@on(str)
def _str(*a, **k):
    if len(a) == 1 and not k and is_sym(a[0]):
        return str_of(a[0])
    if has_sym(a, k):
        raise Unsupported('str(...)')
    return str(*a, **k)


@on(repr)
def _repr(x):
    if isinstance(x, SObj) and '__repr__' in x.attrs:
        return x.attrs['__repr__']()
    if isinstance(x, SInt):
        return str_of(x)
    if isinstance(x, SStr):
        r = REPR(x.z)
        for c in '<>&':
            E().add(z3.Contains(r, sval(c)) == z3.Contains(x.z, sval(c)))
        E().add(ENCABLE8(r))
        return SStr(r)
    if is_sym(x):
        raise Unsupported('repr of a symbolic value')
    return repr(x)


@on(id)
def _id(x):
    if isinstance(x, Sym):
        raise Unsupported('id of a symbolic value')
    return id(x)


@on(bool)
def _bool(x=False):
    return bool(x)


@on(bytes)
def _bytes(*a):
    if len(a) == 1 and isinstance(a[0], SStr) and a[0].kind == 'bytes' or len(a) == 1 and isinstance(a[0], SBuf):
        return a[0]
    if has_sym(a):
        raise Unsupported('bytes(...)')
    return bytes(*a)


@on(int)
def _int(x=0, base=10):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return SInt(as_int(x))
    if isinstance(x, SStr):
        e = E()
        h = e.hooks.get('int')
        if h is not None:
            return h(x, base)
        b = z3.IntVal(base)
        e.add(z3.Implies(z3.InRe(x.z, DIGITS), INTOF(x.z, b) >= 0))
        e.add(z3.Not(ISINT(sval(''), b)))
        if not e.fork(ISINT(x.z, b)):
            throw(ValueError('invalid literal for int()'))
        return SInt(INTOF(x.z, b))
    if isinstance(x, SObj) and '__int__' in x.attrs:
        return x.attrs['__int__'](base)
    if is_sym(x):
        raise Unsupported('int(...)')
    return int(x) if base == 10 and not isinstance(x, (str, bytes)) else int(x, base)


def _mm(name, op, real):
    def f(*a, **k):
        if k:
            if has_sym(a, k):
                raise Unsupported(name)
            return real(*a, **k)
        xs = a if len(a) > 1 else list(a[0])
        if not any(isinstance(x, Sym) for x in xs):
            return real(*a)
        r = as_int(xs[0])
        for x in xs[1:]:
            r = op(r, as_int(x))
        return SInt(r)
    return f


DISPATCH[min] = _mm('min', lambda a, b: z3.If(b < a, b, a), min)
DISPATCH[max] = _mm('max', lambda a, b: z3.If(b > a, b, a), max)


@on(abs)
def _abs(x):
    return SInt(z3.If(x.z >= 0, x.z, -x.z)) if isinstance(x, SInt) else abs(x)


@on(getattr)
def _getattr(o, n, *d):
    if isinstance(o, SStr) and not hasattr(str if o.kind == 'str' else bytes, n):
        if d:
            return d[0]
        throw(AttributeError(n))
    if d and isinstance(o, SObj) and n not in o.attrs and '_hasattr' in o.attrs and o.attrs['_hasattr'](n) is False:
        return d[0]
    try:
        return getattr(o, n)
    except AttributeError as ex:
        if d:
            return d[0]
        if isinstance(o, SObj):
            throw(ex)
        raise
    except Unsupported:
        if isinstance(o, Sym):
            if d and not hasattr(type(o), n):
                # a str has no `decode`, bytes no `encode`
                return d[0]
        raise


@on(setattr)
def _setattr(o, n, x):
    if isinstance(o, Sym) or isinstance(n, Sym):
        raise Unsupported('setattr')
    setattr(o, n, x)


@on(delattr)
def _delattr(o, n):
    if isinstance(o, Sym) or isinstance(n, Sym):
        raise Unsupported('delattr')
    delattr(o, n)


@on(hasattr)
def _hasattr(o, n):
    if isinstance(o, SObj) and '_hasattr' in o.attrs:
        r = o.attrs['_hasattr'](n)
        if r is not NotImplemented:
            return r
    if isinstance(o, SStr):
        if n == 'encode':
            return o.kind == 'str'
        if n == 'decode':
            return o.kind == 'bytes'
        return hasattr('' if o.kind == 'str' else b'', n)
    if isinstance(o, (SInt, SBool)):
        return hasattr(1, n)
    if isinstance(o, SObj) and n.startswith('__'):
        if n in o.attrs:
            return True
        raise Unsupported(f'hasattr {n} of {o!r}')
    try:
        getattr(o, n)
        return True
    except AttributeError:
        return False


@on(type)
def _type(*a):
    if len(a) == 1 and isinstance(a[0], Sym):
        return a[0].pytypes[0]
    if len(a) == 1 and isinstance(a[0], SObj):
        if a[0].cls is None:
            raise Unsupported('type()')
        return a[0].cls
    return type(*a)


@on(list)
def _list(*a):
    h = E().hooks.get('list')
    if h is not None and a and isinstance(a[0], SObj):
        return h(a[0])
    if a and isinstance(a[0], (SComp, SColl)):
        return a[0]
    if a and isinstance(a[0], Sym):
        raise Unsupported('list()')
    return list(*a)


@on(reversed)
def _reversed(x):
    h = E().hooks.get('reversed')
    if h is not None and isinstance(x, SObj):
        return h(x)
    if has_sym((x,)):
        raise Unsupported('reversed()')
    return reversed(x)


@on(iter)
def _iterf(*a):
    if len(a) == 1 and isinstance(a[0], SObj):
        return a[0].__iter__()
    if has_sym(a):
        raise Unsupported('iter()')
    return iter(*a)


@on(next)
def _nextf(it, *d):
    if isinstance(it, SObj):
        f = it.attrs.get('__next__')
        if f is None:
            raise Unsupported('next()')
        return f(*d)
    if isinstance(it, Sym):
        raise Unsupported('next()')
    return next(it, *d)


@on(callable)
def _callable(x):
    if isinstance(x, SObj):
        return '__call__' in x.attrs
    return callable(x)


@on(zip)
def _zip(*a):
    if any(isinstance(x, (Sym, SColl)) for x in a):
        return SColl('zip', attrs=dict(parts=a))
    return zip(*a)


@on(sum)
def _sum(x, *start):
    if isinstance(x, SComp):
        h = E().hooks.get('sum')
        if h is None:
            raise Unsupported('sum over a symbolic comprehension')
        return h(x, *start)
    return sum(x, *start)


@on(any)
def _any(x):
    if isinstance(x, SComp):
        h = E().hooks.get('any')
        if h is None:
            raise Unsupported('any over a symbolic comprehension')
        return h(x)
    for y in x:
        if y:
            return True
    return False


@on(all)
def _all(x):
    if isinstance(x, SComp):
        h = E().hooks.get('all')
        if h is None:
            raise Unsupported('all over a symbolic comprehension')
        return h(x)
    for y in x:
        if not y:
            return False
    return True


@on(range)
def _range(*a):
    if has_sym(a):
        raise Unsupported('symbolic range without contract')
    return range(*a)


@on(enumerate)
def _enum(x, *a, **k):
    if isinstance(x, SBuf) and not set(k) - {'start'} and all(isinstance(y, int) for y in [*a, *k.values()]):
        return TextIter(x, ([*a, *k.values()] or [0])[0])
    if is_sym(x):
        raise Unsupported('enumerate of a symbolic value')
    return enumerate(x, *a, **k)


@on(set)
def _set(*a):
    h = E().hooks.get('set')
    if h is not None and a and (is_sym(a[0]) or isinstance(a[0], SComp)):
        return h(a[0])
    if a and (is_sym(a[0]) or isinstance(a[0], (list, tuple)) and any(isinstance(y, Sym) for y in a[0])):
        raise Unsupported('set of symbolic values')
    return set(*a)


@on(functools.partial)
def _partial(g, *a, **k):
    def p(*b, **kk):
        return call(g, *a, *b, **{**k, **kk})
    p._vf = True
    return p


@on(sorted)
def _sorted(x, **k):
    if isinstance(x, (SColl, SComp)) and not k:
        return SComp(x, lambda y: True, lambda y: y, False, 'sorted')
    if is_sym(x) or k and has_sym((), k) or isinstance(x, (list, tuple)) and any(isinstance(y, Sym) for y in x):
        raise Unsupported('sorted')
    return sorted(x, **k)


@on(dict)
def _dict(*a, **k):
    if a and isinstance(a[0], (Sym, SObj)):
        raise Unsupported('dict of a symbolic value')
    if a and not isinstance(a[0], dict) and any(isinstance(kk, Sym) for kk, _ in a[0]):
        raise Unsupported('dict with symbolic keys')
    return dict(*a, **k)


@on(tuple)
def _tuple(*a):
    if a and isinstance(a[0], (Sym, SColl, SComp)):
        raise Unsupported('tuple of a symbolic value')
    return tuple(*a)


RT = dict(_aslist=_list, _setof=_setof, _super=_super, _local=lambda n, f: f, _call=call, _in=_in, _getitem=_getitem, _mod=_mod, _fstr=_fstr, _raising=_raising, _caught=_caught, _finally=_finally,
          _comp=_comp, _iter=_iter, _native_iter=_native_iter, _add=_add, _iadd=_iadd, _attr=_attr, _star=_star, _starstar=_starstar, _vf_rt=True)
