"""What a contract (vf/contracts/*.py) is written with."""
import importlib, sys
import z3
from . import engine as eng, rt
from .engine import Engine, Unsupported, Misfit, PathEnd
from .values import *
from .values import _z
from .rt import Env, Loop, Star, SymIter, SColl, SComp, zb, NATURAL

And, Or, Not, Implies, If, ForAll, Exists, Int = z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.ForAll, z3.Exists, z3.Int


class Outcome:
    """how a call under contract ended"""

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *classes):
        return self.exc is not None and isinstance(self.exc, classes)

    def __repr__(self):
        return f'Raised({self.exc!r})' if self.exc is not None else f'Ok({self.value!r})'


def real(path):
    """'pkg.mod:qual' -> the real object (Misfit when it is gone)"""
    m, _, q = path.partition(':')
    try:
        o = importlib.import_module(m)
    except ImportError as e:
        raise Misfit(f'{m}: {e}')
    for p in q.split('.'):
        if not p:
            continue
        try:
            o = getattr(o, p) if not isinstance(o, type) else o.__dict__[p] if p in o.__dict__ else getattr(o, p)
        except AttributeError:
            raise Misfit(f'{path} is gone')
    return o


ABSENT = object()


class Environ(dict):
    """a WSGI environ; what every server supplies and the contract does not mention is unknown, not absent"""

    def __missing__(self, k):
        if isinstance(k, str) and (k.isupper() or k.startswith('wsgi.')):
            raise Unsupported(f'environ key {k}')
        raise KeyError(k)


class LazyDict(dict):
    """a dict some of whose entries are decided when first looked at"""

    def __init__(self, lazy, **fixed):
        super().__init__(fixed)
        self._lazy = dict(lazy)

    def _see(self, k):
        if k in self._lazy:
            x = self._lazy.pop(k)()
            if x is not ABSENT:
                dict.__setitem__(self, k, x)

    def get(self, k, d=None):
        self._see(k)
        return dict.get(self, k, d)

    def __getitem__(self, k):
        self._see(k)
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        self._see(k)
        return dict.__contains__(self, k)

    def __setitem__(self, k, x):
        self._lazy.pop(k, None)
        dict.__setitem__(self, k, x)

    def setdefault(self, k, d=None):
        self._see(k)
        return dict.setdefault(self, k, d)

    def pop(self, k, *d):
        self._see(k)
        return dict.pop(self, k, *d)

    def _all(self, *a, **k):
        raise Unsupported('the whole of a lazy dict')
    __iter__ = keys = values = items = update = copy = __len__ = _all

    def __deepcopy__(self, memo):
        return self


class V:
    """one path of one proof"""

    def __init__(self, e):
        self.e = e
        e.env = Env({})
        e.hooks = {}

    # inputs -------------------------------------------------------------
    def _in(self, name, x):
        self.e.inputs[name] = x
        return x

    def int(self, name, lo=None, hi=None):
        x = SInt(z3.Int(self.e.fresh(name)))
        if lo is not None:
            self.e.add(x.z >= lo)
        if hi is not None:
            self.e.add(x.z <= hi)
        return self._in(name, x)

    def bool(self, name):
        return self._in(name, SBool(z3.Bool(self.e.fresh(name))))

    def str(self, name):
        return self._in(name, SStr(z3.String(self.e.fresh(name)), 'str'))

    def char(self, name):
        """a text of one character"""
        return self._in(name, SStr(z3.Unit(z3.Const(self.e.fresh(name), z3.CharSort())), 'str'))

    def bytes(self, name):
        s = SStr(z3.String(self.e.fresh(name)), 'bytes')
        self.e.add(z3.InRe(s.z, BYTES_RE))
        return self._in(name, s)

    def array(self, name):
        a = z3.Array(self.e.fresh(name), I, I)
        j = z3.Int('j')
        self.e.add(z3.ForAll([j], z3.And(0 <= z3.Select(a, j), z3.Select(a, j) <= 255), patterns=[z3.Select(a, j)]))
        return a

    def buf(self, name):
        n = z3.Int(self.e.fresh(name + '_len'))
        self.e.add(n >= 0)
        return self._in(name, SBuf(self.array(name), z3.IntVal(0), n))

    def text(self, name):
        """a str as an array of code points"""
        n = z3.Int(self.e.fresh(name + '_len'))
        self.e.add(n >= 0)
        a = z3.Array(self.e.fresh(name), I, I)
        j = z3.Int('j')
        self.e.add(z3.ForAll([j], z3.And(0 <= z3.Select(a, j), z3.Select(a, j) < 0x110000), patterns=[z3.Select(a, j)]))
        return self._in(name, STxt(a, z3.IntVal(0), n))

    def case(self, name, *alts):
        """one of finitely many alternatives, all explored"""
        k = self.e.choose(len(alts), name)
        self.e.inputs[name] = _Const(alts[k])
        return alts[k]

    def either(self, name, *thunks):
        """like case, the alternatives are built on demand"""
        k = self.e.choose(len(thunks), name)
        return thunks[k]()

    def obj(self, _what, cls=None, on_set=None, inline=True, **attrs):
        return SObj(_what, cls, attrs, on_set, inline)

    def closed(self, _what, cls=None, lazy=None, **attrs):
        """an object with exactly these attributes; lazy ones are decided when first asked for"""
        lazy, absent = dict(lazy or {}), set()

        def has(n):
            if n in lazy:
                x = lazy.pop(n)()
                if x is not ABSENT:
                    o.attrs[n] = x
                else:
                    absent.add(n)
            return n in o.attrs

        def missing(n):
            if has(n):
                return o.attrs[n]
            if n in absent:
                throw(AttributeError(n))
            # the contract does not say what this attribute is
            raise Unsupported(f'attribute {n} of {_what}')
        o = SObj(_what, cls, dict(attrs), None, False)
        o.attrs.setdefault('_missing', missing)
        o.attrs.setdefault('_hasattr', has)
        o.attrs.setdefault('_isinstance', lambda ts: False if cls is None else NotImplemented)
        return o

    def ghost(self, v, mk=None):
        return Cell(v, mk)

    def fresh_int(self, name, lo=None):
        x = z3.Int(self.e.fresh(name))
        if lo is not None:
            self.e.add(x >= lo)
        return x

    def fresh_str(self, name, kind='str'):
        x = SStr(z3.String(self.e.fresh(name)), kind)
        if kind == 'bytes':
            self.e.add(z3.InRe(x.z, BYTES_RE))
        return x

    # code ---------------------------------------------------------------
    def stub(self, name, f):
        """global name (optionally 'module_suffix:name') -> contract stub"""
        if callable(f) and not isinstance(f, (SObj, type)):
            try:
                f._vf = True
            except AttributeError:
                pass
        self.e.env.stubs[name] = f

    def contract(self, qual, f):
        """calls of this /repo function meet f instead of its body"""
        try:
            f._vf = True
        except AttributeError:
            pass
        self.e.env.contracts[qual] = f

    def loops(self, qual, **k):
        raise NotImplementedError

    def loop(self, qual, n, spec):
        self.e.env.loopspecs.setdefault(qual, {})[n] = spec

    def fn(self, path):
        m, _, q = path.partition(':')
        r = real(path)
        if isinstance(r, (staticmethod, classmethod)):
            r = r.__func__
        if isinstance(r, property):
            r = r.fget
        r = getattr(r, 'fn', r)
        f = self.e.env.load(r, q, sys.modules[m])
        f.fn.__defaults__ = self._defaults(r, f)
        return f

    def nested(self, path, **free):
        """a function defined inside another one; its free variables are given"""
        m, _, q = path.partition(':')
        mod = importlib.import_module(m)
        real(f'{m}:{q.split(".<locals>")[0]}')
        old = dict(self.e.env.stubs)
        self.e.env.stubs.update(free)
        self.e.env.mods.pop(mod.__name__, None)
        try:
            return self.e.env.load(None, q, mod)
        finally:
            self.e.env.stubs.clear()
            self.e.env.stubs.update(old)
            self.e.env.mods.pop(mod.__name__, None)

    def _defaults(self, r, f):
        d = getattr(r, '__defaults__', None)
        if getattr(r, '__kwdefaults__', None):
            f.fn.__kwdefaults__ = r.__kwdefaults__
        return d if d is not None else f.fn.__defaults__

    def closure(self, f):
        return rt.inline_closure(f)

    def call(self, f, *a, **k):
        try:
            return Outcome(rt.call(f, *a, **k))
        except (PathEnd, Unsupported, Misfit, eng.Budget):
            raise
        except BaseException as ex:
            self.known(ex)
            return Outcome(exc=ex)

    def consume(self, gen, each):
        """run a generator under contract; each(part) sees every yield"""
        try:
            for part in gen:
                each(part)
            return Outcome()
        except (PathEnd, Unsupported, Misfit, eng.Budget):
            raise
        except BaseException as ex:
            self.known(ex)
            return Outcome(exc=ex)

    def known(self, ex):
        if any(ex is r for r in self.e.raised) or isinstance(ex, NATURAL):
            return
        import traceback
        raise Unsupported(f'unmodelled exception {ex!r} at ' + ' < '.join(f'{f.name}:{f.lineno}' for f in reversed(traceback.extract_tb(ex.__traceback__)[-4:])))

    # logic --------------------------------------------------------------
    def check(self, name, cond):
        return self.e.check(name, zb(cond) if not isinstance(cond, bool) else cond)

    def assume(self, cond):
        self.e.assume(zb(cond))

    def add(self, cond):
        self.e.add(zb(cond))

    def split(self, cond):
        """case split; -> bool"""
        return self.e.fork(zb(cond))

    def end(self):
        raise PathEnd()

    def cover(self, name):
        self.e.cover(name)

    def trust(self, what):
        self.e.trusted[what] = True

    def assumption(self, what):
        self.e.assumptions.add(what)

    def throw(self, ex):
        throw(ex)


class _Const:
    def __init__(self, v):
        self.v = v

    def concrete(self, m):
        return self.v


class Proof:
    """fn(v): one contract; covers: names that must be reached;
    to_case(model) -> (bounded contract name, case) replays a counterexample on the real code;
    cross: [(path, args...)] CPython cross-check of the rewritten functions"""

    def __init__(self, id, fn, covers=(), to_case=None, cross=(), budget=60.0, solver_ms=6000, axioms=(), unroll=3, max_paths=4000, thorough=False, exact=False):
        self.exact = exact        # to_case is faithful: an input the bounded contract accepts is no counterexample
        self.id, self.fn, self.covers, self.to_case, self.cross = id, fn, covers, to_case, cross
        self.budget, self.solver_ms, self.axioms, self.unroll, self.max_paths, self.thorough = budget, solver_ms, list(axioms), unroll, max_paths, thorough
