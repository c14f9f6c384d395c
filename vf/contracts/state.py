"""Contracts of what is kept between requests, threads and applications (C08, C09, C10)."""
import ast, inspect
from ..pyvc.facade import *
from ..pyvc.rt import SColl, SComp, SymIter

A = 'ombott.ombott'
H = 'ombott.common_helpers'
R = 'ombott.response'
Q = 'ombott.request_pkg.request'


class Local:
    """threading.local: one set of attributes per thread (the documented behaviour, trusted)"""
    thread = 0

    def __init__(self, v):
        object.__setattr__(self, '_v', v)
        object.__setattr__(self, '_d', {})

    def _mine(self):
        return self._d.setdefault(Local.thread, {})

    def __getattr__(self, n):
        d = self._mine()
        if n not in d:
            self._v.throw(AttributeError(n))
        return d[n]

    def __setattr__(self, n, x):
        self._mine()[n] = x

    def __delattr__(self, n):
        d = self._mine()
        if n not in d:
            self._v.throw(AttributeError(n))
        del d[n]


def threads(v):
    """threading with only local(); -> the stores made"""
    made = []

    def local():
        made.append(Local(v))
        return made[-1]
    local._vf = True
    v.stub('threading', v.closed('threading', local=local))
    v.stub('local', local)
    v.trust('threading.local: attributes are per thread')
    Local.thread = 0
    return made


def snap(store):
    return {t: dict(d) for t, d in store._d.items()}


def same(a, b):
    return a.keys() == b.keys() and all(a[t].keys() == b[t].keys() and all(a[t][k] is b[t][k] for k in a[t]) for t in a)


# ------------------------------------------------------------------ ts_props

PROPS = ('p', 'q', 'r')


def ts(v):
    made = threads(v)
    log = []

    def first_init(self, *a, **k):
        s = self.attrs.get('_s')
        log.append((self, a, k, dict(s._mine()) if isinstance(s, Local) else None))
    first_init._vf = True
    cls = v.closed('class', __init__=first_init)
    w = v.call(v.fn(H + ':ts_props'), *PROPS, store_name='_s')
    v.check('a decorator', w.ok)
    c = v.call(w.value, cls)
    v.check('the class itself comes back', c.ok and c.value is cls)
    ps = [cls.attrs.get(p) for p in PROPS]
    v.check('every name becomes a property', all(isinstance(p, property) and p.fget and p.fset and p.fdel for p in ps))
    init = cls.attrs['__init__']
    v.check('construction is wrapped', init is not first_init)
    # two objects, built by thread 0
    objs = [v.closed('object'), v.closed('other object')]
    for o in objs:
        x, y = v.obj('argument'), v.obj('keyword')
        b = v.call(init, o, x, key=y)
        v.check('construction', b.ok)
        if not made:
            raise Misfit('what per-thread state is kept in')
        v.check('an object gets one store of its own', isinstance(o.attrs.get('_s'), Local))
        v.check('the constructor proper runs once, with the arguments', len(log) == 1 and log[0][0] is o and log[0][1] == (x,) and log[0][2] == {'key': y})
        del log[:]
    st = [o.attrs['_s'] for o in objs]
    v.check('no store is shared', st[0] is not st[1])
    # any state of both objects in three threads
    init_1 = v.case('this thread was here before', True, False)
    for s in st:
        for t in (0, 1, 2):
            for p in PROPS:
                if t == 1 and not init_1:
                    s._d.pop(1, None)
                else:
                    s._d.setdefault(t, {})[p] = v.obj(f'{p} of thread {t}')
    who = v.case('object', 0, 1)
    o, s, other = objs[who], st[who], st[1 - who]
    before, obefore = snap(s), snap(other)
    oattrs = [dict(x.attrs) for x in objs]
    Local.thread = 1
    op = v.case('operation', 'init', 'get', 'set', 'del')
    k = v.case('name', 0, 1, 2)
    new = v.obj('new value')
    if op == 'init':
        r = v.call(init, o)
        v.check('a second construction succeeds', r.ok and len(log) == 1)
        now, was = s._d.get(1, {}), before.get(1, {})
        v.check('state is blank or what this thread left', all(x is None or x is was.get(p) for p, x in now.items()))
    elif op == 'get':
        r = v.call(ps[k].fget, o)
        have = before.get(1, {}).get(PROPS[k])
        v.check('a read gives what this thread wrote to this object', r.value is have if have is not None else r.raised(AttributeError))
        v.check('a read changes nothing', same({t: d for t, d in snap(s).items() if d}, before))
    elif op == 'set':
        r = v.call(ps[k].fset, o, new)
        want = dict(before.get(1, {}))
        want[PROPS[k]] = new
        v.check('a write sets exactly this attribute of this thread', r.ok and s._d.get(1, {}).keys() == want.keys() and all(s._d[1][p] is want[p] for p in want))
    else:
        r = v.call(ps[k].fdel, o)
        want = dict(before.get(1, {}))
        want.pop(PROPS[k], None)
        v.check('a deletion drops exactly this attribute of this thread', s._d.get(1, {}) == want)
    v.check('other threads keep their state', all(same({t: before[t]}, {t: s._d.get(t)}) for t in (0, 2)))
    v.check('other objects keep their state', same(obefore, {t: d for t, d in snap(other).items() if d}))
    v.check('the store stays', all(x.attrs.keys() == y.keys() and all(x.attrs[n] is y[n] for n in y) for x, y in zip(objs, oattrs)))
    v.check('no further store', len(made) == 2)
    v.cover(op)
    Local.thread = 0


TS_PROPS = Proof('ts_props', ts, covers=('init', 'get', 'set', 'del'))


# ------------------------------------------------------------------ HeaderDict: whose dict

def header_threads(v):
    """the dict every header operation works on is the one this thread bound to this object"""
    made = threads(v)
    cls = real(H + ':HeaderDict')
    me, other = v.obj('headers', cls), v.obj('other headers', cls)
    f = v.fn(H + ':HeaderDict.__init__')
    for o in (me, other):
        b = v.call(f, o)
        v.check('an empty dict', b.ok and isinstance(o.attrs.get('_ts'), Local) and o.attrs['_ts']._d[0]['dict'] == {})
    v.check('no store is shared', len(made) == 2 and me.attrs['_ts'] is not other.attrs['_ts'] and made[0]._d[0]['dict'] is not made[1]._d[0]['dict'])
    p = cls.__dict__['dict']
    if not isinstance(p, property):
        raise Misfit('HeaderDict.dict')
    d = v.obj('dict of this thread')
    keep = v.obj('dict of another thread')
    made[0]._d[2] = {'dict': keep}
    b0, b1 = snap(made[0]), snap(made[1])
    Local.thread = 1
    r = v.call(v.e.env and rt_lambda(p.fset), me, d)
    v.check('binding sets the dict of this thread only', r.ok and made[0]._d.get(1) == {'dict': d} and all(same({t: b0[t]}, {t: made[0]._d.get(t)}) for t in (0, 2)) and same(b1, {t: x for t, x in snap(made[1]).items() if x}))
    r = v.call(rt_lambda(p.fget), me)
    v.check('reading gives the dict of this thread', r.value is d)
    d2 = v.obj('later dict of this thread')
    r = v.call(rt_lambda(p.fset), me, d2)
    v.check('binding again shows the new dict', r.ok and v.call(rt_lambda(p.fget), me).value is d2)
    Local.thread = 2
    r = v.call(rt_lambda(p.fget), me)
    v.check('reading gives the dict of the other thread there', r.value is keep)
    Local.thread = 0
    v.cover('bound')


def rt_lambda(f):
    """the property of HeaderDict is written with lambdas over _ts: they run as they are"""
    f = getattr(f, '__wrapped__', f)

    def g(*a):
        return f(*a)
    g._vf = True
    return g


HEADER_THREADS = Proof('HeaderDict.dict', header_threads, covers=('bound',))


# ------------------------------------------------------------------ which state is per thread

def assigned(cls):
    """names that methods of cls (and its bases in the repository) assign on self"""
    out = {}
    for c in cls.__mro__:
        if not (c.__module__ or '').startswith('ombott'):
            continue
        tree = rt.source_tree(inspect.getsourcefile(c))
        for n in ast.walk(tree):
            if isinstance(n, ast.ClassDef) and n.name == c.__name__:
                for m in n.body:
                    if isinstance(m, ast.FunctionDef) and m.args.args:
                        me = m.args.args[0].arg
                        for x in ast.walk(m):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id == me:
                                out.setdefault(x.attr, set()).add(m.name)
    return out


def per_thread(v):
    which = v.case('class', 'Response', 'Request')
    cls = real(R + ':Response') if which == 'Response' else real(Q + ':Request')
    names = assigned(cls)
    v.check('the scan sees the state', {'Response': {'_status_code', '_status_line', '_headers', '_cookies', 'body'}, 'Request': {'environ'}}[which] <= names.keys())
    for n, ms in sorted(names.items()):
        a = inspect.getattr_static(cls, n, None)
        if isinstance(a, property):
            q = getattr(a.fset or a.fget, '__qualname__', '')
            if q.startswith('ts_props.'):
                k = dict(zip(a.fset.__code__.co_freevars, (c.cell_contents for c in a.fset.__closure__)))
                v.check(f'{n} is held per thread under its own name', k.get('k') == n)
                v.check(f'{n}: in a store of the object', isinstance(k.get('store_name'), str) and k['store_name'] not in names or k['store_name'] == '_ts_props')
                v.cover(which)
            # other properties delegate to these
            continue
        if ms <= {'__new__', '__init_subclass__'} or n.startswith('__'):
            continue
        if n == 'config' and ms <= {'setup', '__new__'}:
            continue
        v.check(f'{n} is not kept on the shared object', False)


PER_THREAD = Proof('Request and Response: per-thread state', per_thread, covers=('Response', 'Request'))


# ------------------------------------------------------------------ reset of the response

def reset(v):
    cls = real(R + ':BaseResponse')
    old = {n: v.obj('left over') for n in ('_status_line', '_status_code', '_cookies', '_headers', 'body')}
    olddict = v.obj('left over headers')
    hd = v.closed('headers', dict=olddict)
    me = v.obj('response', cls, headers=hd, **old)
    o = v.call(v.fn(R + ':BaseResponse.__init__'), me)
    a = me.attrs
    v.check('no failure', o.ok)
    v.check('status 200 OK', a['_status_code'] == 200 and a['_status_line'] == '200 OK' if not isinstance(a['_status_code'], SObj) and not isinstance(a['_status_line'], SObj) else False)
    v.check('no cookies', a['_cookies'] is None)
    v.check('no headers', isinstance(a['_headers'], dict) and not a['_headers'])
    v.check('the header interface shows the same empty dict', hd.attrs['dict'] is a['_headers'])
    v.check('an empty body', isinstance(a['body'], str) and a['body'] == '')
    v.check('nothing else changes', a.keys() == {'headers', *old} and a['headers'] is hd)
    o2 = v.call(v.fn(R + ':BaseResponse.__init__'), v.obj('other', cls, headers=v.closed('headers', dict=None)))
    v.check('the dict is new every time', o2.ok and hd.attrs['dict'] is a['_headers'])
    v.cover('reset')


RESET = Proof('BaseResponse.__init__ (reset)', reset, covers=('reset',))


# ------------------------------------------------------------------ applying a raised response

def copies(v, what):
    """headers and cookies of a response, seen at one arbitrary entry each"""
    items = SColl('items', inline=False)
    hd = v.closed(f'headers of {what}', items=lambda: items)
    jar_made = []

    class Jar(dict):
        pass

    def simple_cookie(*a):
        j = v.closed('new jar', __setitem__=lambda k, m: sets.append((j, k, m)), __bool__=lambda: True)
        jar_made.append(j)
        return j
    sets, copied, cur = [], [], []
    v.stub('SimpleCookie', simple_cookie)

    def nxt():
        m, m2 = v.closed('morsel', copy=lambda: (copied.append(m), m2)[1]), v.obj('copy of the morsel')
        k = v.obj('cookie name')
        cur.append((k, m, m2))
        return (k, m)
    citems = v.obj('cookie items', _symiter=lambda: SymIter(lambda: SBool(z3.Bool(v.e.fresh('more'))), nxt))
    has = v.case(f'cookies of {what}', False, True)
    jar = v.closed('jar', items=lambda: citems, __bool__=lambda: True) if has else None

    def inv(L):
        return [('every cookie so far was copied', [(k, m) for _, k, m in sets] == [(k, m2) for k, m, m2 in cur])]
    v.loop('_copy_cookies', 0, Loop(inv, lambda L: {'name': None, 'morsel': None}, modifies=lambda L: jar_made))
    return hd, items, jar, jar_made


def copied_headers(v, name, x, hd, items):
    if x is hd:
        v.check(f'{name}: the header dict is not shared', False)
        return
    if not isinstance(x, SComp) or x.src is not items:
        raise Misfit('how headers are copied')
    k, t = v.obj('name'), v.str('text')
    lst_copy = v.obj('copy of the list')
    sl = v.obj('list', _isinstance=lambda ts: list in ts, inline=False, copy=lambda: lst_copy, __getitem__=lambda s: lst_copy if s == slice(None, None, None) else v.throw(IndexError()))
    got = x.probe((k, t))
    v.check(f'{name}: every header is copied', len(got) == 1 and got[0][0] is k and got[0][1] is t)
    got = x.probe((k, sl))
    v.check(f'{name}: lists of values are copied, not shared', len(got) == 1 and got[0][0] is k and got[0][1] is lst_copy)


def apply(v):
    cls = real(R + ':HTTPResponse')
    hd, items, jar, made = copies(v, 'the raised response')
    code, line, body = v.obj('code'), v.obj('line'), v.obj('body')
    me = v.obj('raised', cls, _status_code=code, _status_line=line, _headers=hd, _cookies=jar, body=body)
    mine = dict(me.attrs)
    log = []
    ohd = v.closed('headers of the response', clear=lambda: log.append('clear'), update=lambda x: log.append(x))
    ojar = v.obj('cookies set by the handler')
    rs = v.closed('response', _headers=ohd, _cookies=ojar, _status_code=v.obj('old'), _status_line=v.obj('old'), body=v.obj('old'))
    o = v.call(v.fn(R + ':HTTPResponse.apply'), me, rs)
    v.check('no failure', o.ok)
    a = rs.attrs
    v.check('status and body of the raised response', a['_status_code'] is code and a['_status_line'] is line and a['body'] is body)
    if a['_headers'] is not ohd:
        raise Misfit('how headers are replaced')
    v.check('earlier headers are dropped first', len(log) == 2 and isinstance(log[0], str))
    if len(log) == 2:
        copied_headers(v, 'headers', log[1], hd, items)
    if jar is None:
        v.check('cookies stay when it has none', a['_cookies'] is ojar)
    else:
        v.check('its cookies replace them', a['_cookies'] is not ojar)
        v.check('the jar is not shared', a['_cookies'] is not jar and any(a['_cookies'] is j for j in made))
    v.check('the raised response stays as it is', me.attrs.keys() == mine.keys() and all(me.attrs[n] is mine[n] for n in mine))
    v.cover('cookies' if jar is not None else 'no cookies')


def copy(v):
    """BaseResponse.copy: an equal response that shares neither headers nor cookies"""
    base = real(R + ':BaseResponse')
    hd, items, jar, made = copies(v, 'the response')
    log, new = [], []
    nhd = v.closed('headers of the copy', update=lambda x: log.append(x), __setitem__=lambda k, x: log.append((k, x)))

    class Made(base):
        def __new__(cls, *a, **k):
            o = object.__new__(cls)
            new.append((o, a, k))
            return o

        def __init__(self, *a, **k):
            self._headers, self._cookies = nhd, None
    me = v.obj('response', base, status='299 of its own', _status_line='299 of its own', _status_code=299, _headers=hd, _cookies=jar, body=v.obj('body'))
    was = dict(me.attrs)
    o = v.call(v.fn(R + ':BaseResponse.copy'), me, Made)
    v.check('no failure', o.ok)
    v.check('one new object of the class asked for', len(new) == 1 and o.value is new[0][0])
    if len(new) != 1:
        return
    r, a, k = new[0]
    v.check('with the same status', k.get('status', a[1] if len(a) > 1 else None) == '299 of its own' and not (set(k) - {'status'}) and not [x for x in a[:1] if x])
    if r._headers is not nhd or len(log) != 1:
        raise Misfit('how headers are copied')
    copied_headers(v, 'headers', log[0], hd, items)
    if jar is None:
        v.check('no cookies when there are none', not r._cookies)
    else:
        v.check('the jar is copied, not shared', r._cookies is not jar and any(r._cookies is j for j in made))
    v.check('the response stays as it is', me.attrs.keys() == was.keys() and all(me.attrs[n] is was[n] for n in was))
    v.cover('cookies' if jar is not None else 'no cookies')


COPY = Proof('BaseResponse.copy', copy, covers=('cookies', 'no cookies'))
APPLY = Proof('HTTPResponse.apply', apply, covers=('cookies', 'no cookies'))


def raise_(v):
    cls = real(Q + ':BaseRequest')
    resp = real(R + ':HTTPResponse')

    class Err(Exception):
        pass

    class Wide(Exception):
        pass
    err = Err('x')
    clones = []

    class Configured(resp):
        __slots__ = ()

        def __init__(self):
            pass

        def clone(self):
            c = Configured()
            clones.append((self, c))
            return c
        clone._vf = True
    cfgs = {k: v.either(f'configured for the {k} class', lambda: None, Configured, lambda: KeyError('other')) for k in ('own', 'wide')}
    emap = LazyDict({}, )
    keys = {Err: cfgs['own'], Wide: cfgs['wide']}

    class Map:
        _vf = True

        def get(self, k, d=None):
            return keys.get(k, d)
    Map.get._vf = True
    wide = v.case('a wider class is given', True, False)
    me = v.obj('request', cls, config=v.closed('config', errors_map=Map()))
    o = v.call(v.fn(Q + ':BaseRequest._raise'), me, err, *([Wide] if wide else []))
    want = cfgs['own'] if cfgs['own'] is not None else cfgs['wide'] if wide else None
    v.check('always raises', not o.ok)
    if isinstance(want, resp):
        v.check('a configured response is never raised itself', o.exc is not want)
        v.check('an equal response made for this request is raised', len(clones) == 1 and clones[0][0] is want and o.exc is clones[0][1])
        v.cover('clone')
    elif want is not None:
        v.check('another configured exception is raised', o.exc is want)
        v.cover('other')
    else:
        v.check('an unmapped error is raised as it is', o.exc is err)
        v.cover('unmapped')


RAISE = Proof('BaseRequest._raise', raise_, covers=('clone', 'other', 'unmapped'))


def clone(v):
    which = v.case('class', 'HTTPResponse', 'HTTPError')
    cls = real(f'{R}:{which}')
    base = real(R + ':HTTPResponse')
    new = v.obj('new', cls)
    log = []
    init = v.case('x', 0)

    def made(c):
        v.check('of the same class', c is cls)
        log.append('new')
        return new
    v.contract('BaseResponse.__new__', made)

    def init0(s, *a, **k):
        v.check('initialised without contents', s is new and not a and not k)
        log.append('init')
    v.contract('HTTPResponse.__init__', init0)

    def apply0(s, r):
        v.check('its contents are applied to the new one', s is me and r is new and log == ['new', 'init'])
        log.append('apply')
    v.contract('HTTPResponse.apply', apply0)
    me = v.obj('original', cls, exception=v.obj('exception'), traceback=v.obj('traceback'))
    was = dict(me.attrs)
    o = v.call(v.fn(f'{R}:{which}.clone'), me)
    v.check('a new object with the same contents', o.ok and o.value is new and log == ['new', 'init', 'apply'])
    if which == 'HTTPError':
        v.check('and the same exception', new.attrs.get('exception') is was['exception'] and new.attrs.get('traceback') is was['traceback'])
    v.check('the original stays', me.attrs.keys() == was.keys() and all(me.attrs[n] is was[n] for n in was))
    v.cover(which)


CLONE = Proof('HTTPResponse.clone', clone, covers=('HTTPResponse', 'HTTPError'))


# ------------------------------------------------------------------ request objects

def slots(cls):
    return {n for c in cls.__mro__ for n in (c.__dict__.get('__slots__') or ())}


def request_init(v):
    cls = real(Q + ':BaseRequest')
    env = {'k': v.obj('a value')} if v.case('environ', True, False) else None
    old = v.obj('environ of an earlier request')
    sets = []
    me = v.obj('request', cls, environ=old, _env_get=v.obj('old'), on_set=lambda s, n, x: sets.append((n, x)))

    def on_set(s, n, x):
        sets.append((n, x))
        return False
    object.__setattr__(me, 'on_set', on_set)
    want = dict(env) if env else {}
    o = v.call(v.fn(Q + ':BaseRequest.__init__'), me, *([env] if env is not None else []))
    v.check('no failure', o.ok)
    e = me.attrs['environ']
    v.check('the request shows this environ', e is env if env is not None else isinstance(e, dict) and e is not old)
    v.check('the environ shows this request, nothing else changes', isinstance(e, dict) and e.get('ombott.request') is me and {k: x for k, x in e.items() if k != 'ombott.request'} == want)
    v.check('only the environ is bound', all(n == 'environ' for n, x in sets))
    v.cover('environ' if env is not None else 'blank')


REQUEST_INIT = Proof('BaseRequest.__init__', request_init, covers=('environ', 'blank'))


def request_attrs(v):
    """attributes of a request live in its slots or in its own environ"""
    cls = real(Q + ':BaseRequest')
    raw = []

    def obj_set(s, n, x):
        raw.append((s, n, x))
    v.stub('object', v.closed('object', __setattr__=obj_set))
    env = {}
    kind = v.case('name', 'environ', 'config', 'user')
    me = v.obj('request', cls, environ=env)
    get = v.obj('get')
    x = v.closed('value', get=get)
    op = v.case('operation', 'set', 'get') if kind == 'user' else 'set'
    if op == 'set':
        o = v.call(v.fn(Q + ':BaseRequest.__setattr__'), me, kind, x)
        v.check('no failure', o.ok)
        if kind == 'user':
            v.check('a user attribute goes to the environ of this request, alone', not raw and list(env.values()) == [x] and all(k.startswith('ombott.request.ext.') and k.endswith('user') for k in env))
            back = v.call(v.fn(Q + ':BaseRequest.__getattr__'), me, kind)
            v.check('and is read back from there', back.ok and back.value is x)
            v.cover('user')
        else:
            v.check('a slot is set on this object', raw[:1] == [(me, kind, x)] and all(s is me for s, n, y in raw) and not env)
            v.check('the reader of the environ follows it', [(n, y) for s, n, y in raw[1:]] == ([('_env_get', get)] if kind == 'environ' else []))
            v.cover('slot')
    else:
        o = v.call(v.fn(Q + ':BaseRequest.__getattr__'), me, kind)
        v.check('an attribute never set is absent', o.raised(AttributeError) and not env)
        v.cover('absent')


REQUEST_ATTRS = Proof('BaseRequest.__setattr__, __getattr__', request_attrs, covers=('user', 'slot', 'absent'))


def request_copy(v):
    cls = real(Q + ':BaseRequest')
    made = []
    new = v.obj('copy')

    def make(*a, **k):
        made.append((a, k))
        return new
    ecopy = v.obj('copy of the environ')
    copied = []
    env = v.closed('environ', copy=lambda: (copied.append(1), ecopy)[1])
    cfg = v.obj('config')
    me = v.obj('request', cls, environ=env, config=cfg, _env_get=v.obj('get'), **{'__class__': make, '__listeners__': v.obj('listeners')})
    was = dict(me.attrs)
    o = v.call(v.fn(Q + ':BaseRequest.copy'), me)
    v.check('a new object of the same class', o.ok and o.value is new and len(made) == 1)
    v.check('with a copy of the environ and the same configuration', copied == [1] and made[0][0][:1] == (ecopy,) and made[0][1].get('config') is cfg if made else False)
    v.check('the original stays as it is', me.attrs.keys() == was.keys() and all(me.attrs[n] is was[n] for n in was))
    v.cover('copied')


REQUEST_COPY = Proof('BaseRequest.copy', request_copy, covers=('copied',))


def request_new(v):
    cls = real(Q + ':BaseRequest')
    made = []

    def new(c):
        made.append(v.obj('request', c))
        return made[-1]
    v.e.hooks['new'] = new
    cfgs = []

    def get_from(c=None, **k):
        cfgs.append((c, v.obj('config')))
        return cfgs[-1][1]
    v.stub('RequestConfig', v.closed('RequestConfig', get_from=get_from))
    c1 = v.obj('config of the application')
    f = v.fn(Q + ':BaseRequest.__new__')
    a = v.call(f, cls, None, config=c1)
    b = v.call(f, cls, None, config=c1)
    v.check('two objects', a.ok and b.ok and len(made) == 2 and a.value is made[0] and b.value is made[1])
    x, y = made[0].attrs, made[1].attrs
    v.check('each with a configuration taken from the given one', len(cfgs) == 2 and all(c is c1 for c, _ in cfgs) and x.get('config') is cfgs[0][1] and y.get('config') is cfgs[1][1])
    v.check('each with listeners of its own', isinstance(x.get('__listeners__'), dict) and isinstance(y.get('__listeners__'), dict) and x['__listeners__'] is not y['__listeners__'])
    if isinstance(x.get('__listeners__'), dict) and isinstance(y.get('__listeners__'), dict):
        v.check('not even the lists are shared', all(x['__listeners__'][k] is not y['__listeners__'].get(k) for k in x['__listeners__']))
    v.cover('made')


REQUEST_NEW = Proof('BaseRequest.__new__', request_new, covers=('made',))


def config_from(v):
    cls = real(A + ':DefaultConfig') if v.case('class', 'application', 'request') == 'application' else real(Q + ':RequestConfig')
    made = []

    def ns(**k):
        made.append((v.obj('namespace'), k))
        return made[-1][0]
    v.stub('NameSpace', ns)
    keys = [k for k in cls.__dict__ if not k.startswith('__')]
    given = v.case('given', None, 'some')
    vals = {}

    def get(k, d=None):
        if k not in vals:
            vals[k] = v.either('value', lambda: ABSENT, lambda: v.obj(k))
        return d if vals[k] is ABSENT else vals[k]
    src = None if given is None else v.closed('source', get=get)
    # one arbitrary key is looked at; the others are as the defaults say
    probe = v.case('key', *keys)
    if src is not None:
        src.attrs['get'] = lambda k, d=None: get(k, d) if k == probe else d
    o = v.call(v.fn(H + ':SimpleConfig.get_from'), cls, src)
    v.check('a new namespace', o.ok and len(made) == 1 and o.value is made[0][0])
    k = made[0][1] if made else {}
    x = vals.get(probe, ABSENT)
    v.check('with exactly the known keys', set(k) == set(keys))
    v.check('a given value, else the default', k.get(probe) is (getattr(cls, probe) if x is ABSENT else x))
    v.cover(probe)


CONFIG_FROM = Proof('SimpleConfig.get_from', config_from, covers=())


# ------------------------------------------------------------------ cached views of the environ

def cached(v):
    calls = []
    stage = {'n': 0}
    fail = v.case('the getter', 'gives a value', 'fails with AttributeError', 'fails')
    val = v.obj('value')

    class Odd(Exception):
        pass

    def getter(self):
        calls.append(self)
        if fail == 'fails':
            v.throw(Odd('x'))
        if fail != 'gives a value':
            v.throw(AttributeError('x'))
        return val
    getter._vf = True
    v.trust('re.match of the constant storage description')
    w = v.call(v.fn('ombott.request_pkg.helpers:cache_in'), 'environ[ the.key ]', read_only=v.case('read only', True, False))
    p = v.call(w.value, getter)
    v.check('a property', p.ok and isinstance(p.value, property))
    p = p.value
    env, oenv = {'other': 1}, {'the.key': v.obj("another request's value")}
    owas = dict(oenv)
    me, other = v.obj('request', environ=env), v.obj('other request', environ=oenv)
    o = v.call(p.fget, me)
    if fail == 'gives a value':
        v.check('the value for this request', o.ok and o.value is val and calls == [me])
        v.check('is kept in its own environ, alone', {k: x for k, x in env.items() if k != 'other'} == {'the.key': val} and env['other'] == 1)
        o = v.call(p.fget, me)
        v.check('and computed once', o.ok and o.value is val and len(calls) == 1)
        v.cover('kept')
    else:
        v.check('a failure is reported and nothing is kept', not o.ok and env == {'other': 1})
        v.check('a failing getter does not look like a missing attribute', fail != 'fails with AttributeError' or not o.raised(AttributeError))
        v.cover('failed')
    n = len(calls)
    o = v.call(p.fget, other)
    v.check('another request shows its own', o.ok and o.value is owas['the.key'] and len(calls) == n and oenv == owas)


CACHED = Proof('cache_in', cached, covers=('kept', 'failed'))


# ------------------------------------------------------------------ applications

def serving(v):
    outer, me = v.obj('application around'), v.obj('app', real(A + ':Ombott'))
    s = v.closed('serving', app=v.either('around', lambda: outer, lambda: None))
    was = s.attrs['app']
    v.stub('_serving', s)
    env, sr, res = v.obj('environ'), v.obj('start_response'), v.obj('answer')
    how = v.case('ends with', 'answer', 'exception', 'KeyboardInterrupt')
    seen = []

    def inner(app, e, r):
        seen.append((app, e, r, s.attrs['app']))
        if how != 'answer':
            v.throw(KeyboardInterrupt() if how == 'KeyboardInterrupt' else ValueError('x'))
        return res
    v.contract('Ombott._wsgi', inner)
    o = v.call(v.fn(A + ':Ombott.wsgi'), me, env, sr)
    v.check('the request is served once, by this application', len(seen) == 1 and seen[0][0] is me and seen[0][1] is env and seen[0][2] is sr)
    v.check('which is current meanwhile', len(seen) == 1 and seen[0][3] is me)
    v.check('and the one around is current again, whatever happened', s.attrs['app'] is was)
    v.check('the outcome is passed on', o.value is res if how == 'answer' else not o.ok)
    v.cover(how)


SERVING = Proof('Ombott.wsgi', serving, covers=('answer', 'exception', 'KeyboardInterrupt'))


def app_init(v):
    made = []

    def maker(n):
        def f(*a, **k):
            made.append((n, a, k, v.obj(n)))
            return made[-1][3]
        return f
    for n in ('DefaultConfig', 'RadiRouter', 'Request', 'Response'):
        v.stub(n, maker(n))
    f = v.fn(A + ':Ombott.__init__')
    cfg = v.obj('given configuration')
    apps = [v.obj('app', real(A + ':Ombott'), inline=False), v.obj('later app', real(A + ':Ombott'), inline=False)]
    for i, me in enumerate(apps):
        o = v.call(f, me, cfg)
        v.check('constructed', o.ok)
        new = made[4 * i:]
        v.check('one configuration, router, request and response each', sorted(m[0] for m in new) == ['DefaultConfig', 'RadiRouter', 'Request', 'Response'])
        d = {m[0]: m for m in new}
        a = me.attrs
        v.check('bound to this application', a.get('config') is d['DefaultConfig'][3] and a.get('router') is d['RadiRouter'][3] and a.get('request') is d['Request'][3] and a.get('response') is d['Response'][3])
        v.check('its configuration is made from the given one and given to its request', d['DefaultConfig'][1] == (cfg,) and d['Request'][2].get('config') is d['DefaultConfig'][3])
    x, y = apps[0].attrs, apps[1].attrs
    v.check('nothing mutable is shared between applications', all(x[n] is not y[n] for n in x.keys() & y.keys() if n not in ('_missing', '_hasattr', '_isinstance')))
    v.check('error handlers are not shared', all(p is not q for p, q in zip(x['error_handlers'].values(), y['error_handlers'].values())) if isinstance(x.get('error_handlers'), dict) else False)
    v.cover('constructed')


APP_INIT = Proof('Ombott.__init__', app_init, covers=('constructed',))


def app_hooks(v):
    """the hook lists: made once per application, never shared"""
    cp = real(H + ':cached_property')
    d = real(A + ':Ombott').__dict__.get('_hooks')
    if not isinstance(d, cp):
        raise Misfit('Ombott._hooks')
    apps = [v.obj('app', real(A + ':Ombott')), v.obj('other app', real(A + ':Ombott'))]
    got = []
    desc = v.obj('descriptor', cp, func=d.func)
    for a in apps:
        o = v.call(v.fn(H + ':cached_property.__get__'), desc, a, None)
        v.check('the hooks of an application', o.ok and isinstance(o.value, dict) and set(o.value) >= {'before_request', 'after_request'} and all(x == [] for x in o.value.values()))
        v.check('are kept on that application', a.attrs.get('_hooks') is o.value)
        got.append(o.value)
    if isinstance(got[0], dict) and isinstance(got[1], dict):
        v.check('and not shared', got[0] is not got[1] and len({id(x) for g in got for x in g.values()}) == sum(len(g) for g in got))
    v.cover('made')


APP_HOOKS = Proof('Ombott._hooks, cached_property', app_hooks, covers=('made',))

def redirecting(v):
    """redirect(): raises a copy of the response of the application serving in this thread, nobody else's"""
    class Copy(Exception):
        pass
    copies, joins = [], []

    def app(what):
        url = v.obj(f'{what} url')

        def copy(cls=None):
            r, hs = Copy(), []
            r.headers = v.obj('headers', __setitem__=lambda k, x: hs.append((k, x)))
            copies.append((what, cls, r, hs))
            return r
        return v.obj(what, __bool__=lambda: True, request=v.obj('request', url=url, get=lambda k, d=None: proto if k == 'SERVER_PROTOCOL' else d), response=v.obj('response', copy=copy))
    proto = v.case('protocol', 'HTTP/1.1', 'HTTP/1.0')
    inner, default = app('serving'), app('default')
    served = v.case('a request is being served', True, False)
    v.stub('_serving', v.closed('serving', app=inner if served else None))
    v.stub('Globals', default)
    target = v.obj('joined url')

    def join(a, b):
        joins.append((a, b))
        return target
    v.stub('urljoin', join)
    raised = []
    loc = v.obj('location')
    code = v.case('code', None, 307)
    real_cls = real('ombott.response:HTTPResponse')
    o = v.call(v.fn(A + ':redirect'), loc, code)
    v.check('one copy of one response is made', len(copies) == 1)
    if len(copies) != 1:
        return
    what, cls, r, hs = copies[0]
    v.check('of the application that serves here', what == ('serving' if served else 'default'))
    v.check('as something that can be raised', cls is real_cls)
    v.check('the copy is raised', not o.ok and o.exc is r)
    v.check('with the status asked for', getattr(r, 'status', None) == (code or (303 if proto == 'HTTP/1.1' else 302)))
    v.check('without a body', getattr(r, 'body', 0) in ('', b'', None))
    v.check('the target is the location as seen from this request', len(joins) == 1 and joins[0][0] is (inner if served else default).attrs['request'].attrs['url'] and joins[0][1] is loc and hs == [('Location', target)])
    v.cover('served' if served else 'outside')


def current(v):
    inner, default = v.obj('app', __bool__=lambda: True), v.obj('default')
    s = v.closed('serving', app=v.either('serving', lambda: None, lambda: inner))
    v.stub('_serving', s)
    v.stub('Globals', default)
    o = v.call(v.fn(A + ':serving_app'))
    v.check('the application that serves in this thread', o.ok and o.value is (default if s.attrs['app'] is None else inner))
    v.cover('serving')


REDIRECT = Proof('redirect', redirecting, covers=('served', 'outside'))
CURRENT = Proof('serving_app', current, covers=('serving',))


RESPONSE = [RESET, APPLY, CLONE]
REQUEST = [REQUEST_INIT, REQUEST_ATTRS, CACHED]
C08 = [TS_PROPS, HEADER_THREADS, PER_THREAD, RESET, *REQUEST, SERVING]
C09 = [TS_PROPS, RESET, APPLY, CLONE, COPY, RAISE, *REQUEST]
C10 = [TS_PROPS, HEADER_THREADS, PER_THREAD, REQUEST_NEW, REQUEST_COPY, *REQUEST, CONFIG_FROM, APP_INIT, APP_HOOKS, SERVING, REDIRECT, CURRENT, COPY]
