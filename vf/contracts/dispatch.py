"""Contracts of method dispatch (C02) and of route hooks on a matched route (C11)."""
import inspect
from ..pyvc.facade import *
from ..pyvc.rt import SColl, SComp, SymIter

A = 'ombott.ombott'
R = 'ombott.router.radirouter'
REG = z3.Function('registered', z3.StringSort(), z3.BoolSort())


class Methods:
    """the methods registered on one route: any map from names to handlers"""

    def __init__(self, v):
        self.v = v
        self.set, self.dropped = [], []
        self.base = []
        self.o = SColl('methods', inline=False, attrs=dict(get=self.get, __contains__=lambda k: SBool(self.has(k)), __getitem__=self.getitem, __setitem__=self.put, pop=self.pop,
                                                          __bool__=lambda: v.split(z3.Bool(v.e.fresh('any')))))

    def has(self, k):
        z = lift(k).z
        r = REG(z)
        for n in self.set:
            r = Or(r, lift(n[0]).z == z)
        return r

    def at(self, k):
        return self.v.obj('RouteMethod', name=lift(k), __bool__=lambda: True)

    def get(self, k, d=None):
        return self.at(k) if self.v.split(self.has(k)) else d

    def getitem(self, k):
        if not self.v.split(self.has(k)):
            self.v.throw(KeyError('k'))
        return self.at(k)

    def put(self, k, x):
        self.set.append((k, x))

    def pop(self, k, *d):
        self.dropped.append(k)
        return None


def getitem(v, n):
    ms = Methods(v)
    cls = real(R + ':Route')
    me = v.obj('route', cls, _methods=ms.o)
    names = [v.str(f'name {i}') for i in range(n)]
    ask = names[0] if v.case('asked by', 'list', 'name') == 'name' else list(names)
    if not isinstance(ask, list):
        names = names[:1]
    err = real('ombott.router.errors:RouteMethodError')
    o = v.call(v.fn(R + ':Route.__getitem__'), me, ask)
    up = [UPPER(x.z) for x in names]
    if not o.ok:
        v.check('refused only as "no such method"', o.raised(err))
        v.check('refused only when none of the names is registered', And([Not(REG(u)) for u in up]))
        v.cover('none')
        return
    v.check('a registered handler', isinstance(o.value, SObj) and 'name' in o.value.attrs)
    got = o.value.attrs['name'].z
    v.check('of the first name that is registered, case aside', Or([And([Not(REG(w)) for w in up[:i]] + [REG(u), got == u]) for i, u in enumerate(up)]))
    v.cover('found')


def set_methods(v):
    """registration: every given name, upper-cased, leads to the handler"""
    ms = Methods(v)
    cls = real(R + ':Route')
    op = v.case('operation', 'set', 'add', 'remove')
    me = v.obj('route', cls, _methods=ms.o, rule=v.obj('rule'), params=v.obj('params'))
    h, meta, params = v.obj('handler'), v.obj('meta'), v.obj('params of this rule')
    made = []

    def rm(*a, **k):
        made.append((a, k, v.obj('RouteMethod')))
        return made[-1][2]
    rm.get_func_fullname = lambda f: 'handler'
    rm.get_func_fullname._vf = True
    v.stub('RouteMethod', rm)
    x = v.str('one name')
    kind = v.case('given', 'name', 'two names')
    y = v.str('another name')
    names = [x] if kind == 'name' else [x, y]
    clash = z3.Bool(v.e.fresh('some name is registered already'))

    def refuse(s, m, candidate):
        v.check('the names to register are looked at', And(candidate is h, *[Or([lift(q).z == UPPER(n.z) for q in m]) for n in names]))
        if v.split(clash):
            v.throw(real('ombott.router.errors:RouteMethodError')('x'))
    v.contract('Route._raise_if_registered', refuse)
    given = x if kind == 'name' else [x, y]
    if op == 'remove':
        o = v.call(v.fn(R + ':Route.remove_method'), me, given)
        v.check('no failure', o.ok)
        v.check('exactly these names are dropped', And(len(ms.dropped) == len(names), not ms.set, *[lift(d).z == UPPER(n.z) for d, n in zip(ms.dropped, names)]))
        v.cover('remove')
        return
    o = v.call(v.fn(f'{R}:Route.{op}_method'), me, given, h, meta, params)
    if not o.ok:
        v.check('add refuses what is registered, set never', clash if op == 'add' else False)
        v.check('a refused registration changes nothing', not ms.set and not ms.dropped)
        v.cover('refused')
        return
    v.check('add overwrites nothing', Not(clash) if op == 'add' else True)
    v.check('exactly these names are registered, upper-cased', And(len(ms.set) == len(names), not ms.dropped, *[lift(k).z == UPPER(n.z) for (k, _), n in zip(ms.set, names)]))
    v.check('with this handler', len(made) == len(names) and all(r is m[2] for (k, r), m in zip(ms.set, made)))
    for (k, _), (a, kw, _) in zip(ms.set, made):
        a = list(a) + [kw.get(n) for n in ('route', 'name', 'handler', 'meta', 'params')[len(a):]]
        v.check('bound to this route, name, handler and parameter names', a[0] is me and a[1] is k and a[2] is h and a[3] is meta and a[4] is params)
    v.cover(op)


def raise_registered(v):
    """_raise_if_registered refuses iff the two sets of names meet"""
    ms = Methods(v)
    meet = z3.Bool(v.e.fresh('the sets meet'))
    names = SColl('names', inline=False, attrs=dict(__str__=lambda: v.fresh_str('the names')))
    both = SColl('both', inline=False, attrs=dict(__str__=lambda: v.fresh_str('both'), __bool__=lambda: v.split(meet)))

    class S:
        def __init__(self, src):
            self.src = src

        def __and__(self, o):
            v.check('the registered names meet the given ones', {id(self.src), id(o.src)} == {id(ms.o), id(names)})
            return both
        intersection = __and__
    v.e.hooks['set'] = S

    def rm():
        pass
    rm.get_func_fullname = lambda f: 'name'
    rm.get_func_fullname._vf = True
    v.stub('RouteMethod', rm)
    me = v.obj('route', real(R + ':Route'), _methods=ms.o, rule='/rule')
    o = v.call(v.fn(R + ':Route._raise_if_registered'), me, names, v.obj('handler'))
    if o.ok:
        v.check('accepted only when no name is registered', Not(meet))
        v.cover('accepted')
    else:
        v.check('refused only when a name is registered', And(meet, o.raised(real('ombott.router.errors:RouteMethodError'))))
        v.cover('refused')


def route_method(v):
    """a registered handler is called with the arguments it is given"""
    h = v.closed('handler', __call__=lambda *a, **k: (calls.append((a, k)), res)[1])
    calls, res = [], v.obj('result')
    rt_ = v.obj('route', params=v.obj('params of the route'))
    cls = real(R + ':RouteMethod')
    me = v.obj('RouteMethod', cls)
    own = v.either('own parameter names', lambda: None, lambda: v.obj('params of the rule'))
    o = v.call(v.fn(R + ':RouteMethod.__init__'), me, rt_, 'GET', h, None, own)
    v.check('made', o.ok and me.attrs['handler'] is h and me.attrs['name'] == 'GET')
    v.check('it keeps the parameter names of the rule it was registered under', me.attrs['params'] is (rt_.attrs['params'] if own is None else own))
    x, y = v.obj('positional'), v.obj('keyword')
    o = v.call(v.fn(R + ':RouteMethod.__call__'), me, x, key=y)
    v.check('the handler is called once, with the arguments', o.ok and o.value is res and calls == [((x,), {'key': y})])
    v.cover('called')


def to_route(v):
    verb, path = v.str('verb'), v.obj('path')
    res = [v.obj('end point'), v.obj('error')]
    asked = []

    def resolve(p, ms=None):
        asked.append((p, ms))
        return tuple(res)
    me = v.obj('app', real(A + ':Ombott'), router=v.closed('router', resolve=resolve))
    o = v.call(v.fn(A + ':Ombott.to_route'), me, path, verb)
    v.check('one lookup by this path', o.ok and len(asked) == 1 and asked[0][0] is path)
    ms = [lift(m).z for m in asked[0][1]] if asked and isinstance(asked[0][1], (list, tuple)) else []
    head = verb.z == sval('HEAD')
    if len(ms) == 3:
        v.check('HEAD falls back to GET, then ANY', And(head, ms[0] == verb.z, ms[1] == sval('GET'), ms[2] == sval('ANY')))
        v.cover('HEAD')
    else:
        v.check('any other verb falls back to ANY', And(Not(head), len(ms) == 2, *([ms[0] == verb.z, ms[1] == sval('ANY')] if len(ms) == 2 else [])))
        v.cover('other')
    v.check('the outcome is passed on', isinstance(o.value, (tuple, list)) and list(map(id, o.value)) == list(map(id, res)))


def resolve(v):
    cls = real(R + ':RadiRouter')
    err = real('ombott.router.errors:RouteMethodError')
    path = v.str('path')
    writes = []
    extra = dict(param_values=v.obj('values'), hooks=v.obj('hooks'), param_keys=v.obj('keys'), partial=v.obj('partial'))
    methods = SColl('methods of the route', inline=False)
    mparams = v.obj('parameter names')
    meth = v.obj('RouteMethod', params=mparams)
    kw = v.obj('arguments')
    ms = [v.str('verb'), 'ANY']

    def item(m):
        v.check('asked for these methods', m is ms)
        if not v.split(REG(sval('?'))):
            v.throw(err())
        return meth

    def make(names, values):
        v.check('the arguments are made of the names of the handler and the values of this match', names is mparams and values is extra['param_values'])
        return kw
    found = v.case('path', 'matches a route', 'matches none')
    route = v.closed('route', __getitem__=item, __bool__=lambda: True, make_params_dict=make, methods=methods) if found == 'matches a route' else None
    asked = []

    def get(p, allow_partial=False):
        asked.append(p)
        if found == 'matches none' and not allow_partial:
            return None
        return (route, extra)
    allow = v.str('allow')

    def join(s, xs):
        if isinstance(xs, SComp) and xs.kind == 'sorted':
            v.check('Allow lists the methods of the route', s.strip() == ',' and xs.src is methods)
            return allow
        return NotImplemented
    v.e.hooks['join'] = join
    me = v.obj('router', cls, radidict=v.closed('radidict', get=get), on_set=lambda *a: writes.append(a))
    o = v.call(v.fn(R + ':RadiRouter.resolve'), me, path, ms)
    v.check('no failure', o.ok)
    v.check('looked up once, by the path without outer slashes', len(asked) == 1)
    if not isinstance(o.value, tuple) or len(o.value) != 2:
        raise Misfit('the outcome of resolve')
    end, bad = o.value
    v.check('either an end point or an error', (end is None) != (bad is None))
    v.check('a lookup changes nothing', not writes)
    if end is not None:
        v.check('only a registered method of a matching route', found == 'matches a route' and REG(sval('?')))
        v.check('the handler, its arguments, the hooks of this match', list(map(id, end)) == list(map(id, [meth, kw, extra['hooks']])))
        v.cover('found')
    elif bad[0] == 404:
        v.check('404 only when no route matches', found == 'matches none')
        v.check('with the partial match', bad[2] is extra)
        v.cover('404')
    else:
        v.check('405 only when a route matches but not by method', found == 'matches a route' and Not(REG(sval('?'))))
        v.check('405 with Allow', bad[0] == 405 and isinstance(bad[2], SStr) and bad[2].z.eq(allow.z))
        v.cover('405')
    v.check('the reason is a fixed text', bad is None or isinstance(bad[1], str))


def handler(v):
    """Ombott.handler: the error responses, the hooks of a matched route, the call"""
    made = []

    def error(*a, **k):
        made.append((a, k, real('ombott.response:HTTPResponse')('x')))
        return made[-1][2]
    v.stub('HTTPError', error)
    HT = real('ombott.router:HookTypes')
    path = v.str('path')
    calls = []
    app = v.obj('app', real(A + ':Ombott'), request=v.obj('request', path=path))
    kind = v.case('outcome', '404', '405', 'found')
    f = v.fn(A + ':Ombott.handler')
    if kind == '405':
        allow = v.str('allow')
        o = v.call(f, app, None, None, None, [405, 'Method not allowed.', allow])
        v.check('405 is raised with the Allow header', not o.ok and len(made) == 1 and o.exc is made[0][2] and made[0][0][:1] == (405,) and set(made[0][1]) == {'Allow'} and made[0][1]['Allow'] is allow)
        v.check('with a fixed text', all(isinstance(x, (int, str)) for x in made[0][0]) if made else False)
        v.cover('405')
        return
    if kind == '404':
        pos = v.int('matched so far', 0)
        vals, res = v.obj('values'), v.obj('result')

        def partial(p, x):
            calls.append((p, x))
            return res
        last = v.case('hooks on the way', 'none', 'a partial one last', 'none partial last')
        h = {'none': [], 'a partial one last': [[SInt(v.fresh_int('outer', 0)), {HT.PARTIAL: v.closed('outer', __bool__=lambda: True), HT.SIMPLE: None}], [pos, {HT.PARTIAL: partial, HT.SIMPLE: v.obj('simple')}]],
             'none partial last': [[pos, {HT.PARTIAL: None, HT.SIMPLE: v.obj('simple')}]]}[last]
        o = v.call(f, app, None, None, None, [404, 'Not Found', {'hooks': h, 'param_values': vals}])
        if last == 'a partial one last':
            v.check('the innermost 404 handler answers', o.ok and o.value is res and len(calls) == 1 and calls[0][1] is vals)
            v.check('with the path up to its rule', lift(calls[0][0]).z == z3.SubString(path.z, 0, 1 + pos.z) if calls else False)
            v.cover('404 handler')
        else:
            v.check('404 is raised', not o.ok and len(made) == 1 and o.exc is made[0][2] and made[0][0][:1] == (404,) and not made[0][1])
            v.check('with a fixed text', all(isinstance(x, (int, str)) for x in made[0][0]) if made else False)
            v.cover('404')
        return
    x = v.obj('argument')
    res = v.obj('result')
    order = []

    def route(*a, **k):
        order.append('route')
        calls.append((a, k))
        return res
    cur = []

    def nxt():
        p = v.fresh_int('position', 0)

        def simple(px):
            order.append('hook')
            cur[-1]['got'].append(px)
        rec = dict(pos=p, got=[], hook=v.either('hook', lambda: None, lambda: simple))
        cur.append(rec)
        return [SInt(p), {HT.SIMPLE: rec['hook'], HT.PARTIAL: v.obj('partial')}]
    hooks = v.either('hooks', lambda: [], lambda: v.obj('hooks', __bool__=lambda: True, _symiter=lambda: SymIter(lambda: SBool(z3.Bool(v.e.fresh('more'))), nxt)))

    def inv(L):
        out = [('the handler waits for the hooks', 'route' not in order)]
        for r in cur:
            out.append(('a hook fires once iff it is there', len(r['got']) == (r['hook'] is not None)))
            out.append(('with the path up to its rule', And([lift(g).z == z3.SubString(path.z, 0, 1 + r['pos']) for g in r['got']]) if r['got'] else True))
        return out
    v.loop('Ombott.handler', 0, Loop(inv, lambda L: {'route_pos': None, 'hooks': None, 'hook': None}))
    f = v.fn(A + ':Ombott.handler')
    o = v.call(f, app, route, {'name': x}, hooks, None)
    v.check('the handler is called once, with exactly its arguments', o.ok and o.value is res and calls == [((), {'name': x})])
    v.cover('found')


def request_method(v):
    env = v.either('REQUEST_METHOD', lambda: {}, lambda: {'REQUEST_METHOD': v.str('verb')})
    me = v.obj('request', _env_get=lambda k, d=None: env.get(k, d))
    o = v.call(v.fn('ombott.request_pkg.props_mixin:PropsMixin.method'), me)
    x = env.get('REQUEST_METHOD')
    if x is None:
        v.check('GET by default', isinstance(o.value, str) and o.value == 'GET')
    else:
        v.check('the verb, upper-cased', And(o.ok, lift(o.value).z == UPPER(x.z)) if o.ok else False)
    v.cover('default' if x is None else 'given')


def registration(v):
    """route(), its decorator form and the shortcuts of the verbs register the very handler, under this rule and verb, once"""
    import functools
    add = real(R + ':RadiRouter.add')
    calls = []

    def record(*a, **k):
        try:
            b = inspect.signature(add).bind(None, *a, **k)
        except TypeError:
            raise Misfit('arguments of RadiRouter.add')
        b.apply_defaults()
        if not {'rule', 'methods', 'handler', 'name', 'overwrite'} <= set(b.arguments):
            raise Misfit('parameters of RadiRouter.add')
        calls.append(b.arguments)
    me = v.obj('app', real(A + ':Ombott'), router=v.obj('router', add=record))
    rule, name, cb = v.obj('rule'), v.either('name', lambda: None, lambda: v.obj('name', __bool__=lambda: True)), v.obj('handler', __bool__=lambda: True)
    over = v.case('overwrite', False, True)
    how = v.case('registered by', 'add_route', 'route', 'shortcut')
    opts = dict(name=name, overwrite=over)
    if how == 'add_route':
        verb = v.obj('methods')
        o = v.call(v.fn(A + ':Ombott.add_route'), me, rule, verb, cb, name, overwrite=over)
        deco = False
    else:
        deco = v.case('as a decorator', False, True)
        f = v.fn(A + ':Ombott.route')
        verb = v.obj('methods')
        kw = dict(opts, method=verb)
        if how == 'shortcut':
            verb = v.case('verb', 'DELETE', 'GET', 'HEAD', 'OPTIONS', 'PATCH', 'POST', 'PUT')
            pm = real(A + ':Ombott').__dict__.get(verb.lower())
            if not isinstance(pm, functools.partialmethod) or pm.func is not real(A + ':Ombott').__dict__['route'] or pm.args or set(pm.keywords) != {'method'}:
                raise Misfit(f'Ombott.{verb.lower()}')
            kw = dict(opts, **pm.keywords)
        elif v.case('method given', True, False) is False:
            verb = 'GET'
            del kw['method']
        o = v.call(f, me, rule, **kw, **({} if deco else dict(callback=cb)))
        if deco:
            v.check('a decorator registers nothing by itself', o.ok and not calls)
            o = v.call(o.value, cb)
        v.check('the handler is handed back', o.ok and o.value is cb)
    v.check('registered once', o.ok and len(calls) == 1)
    if len(calls) == 1:
        x = calls[0]
        v.check('under its rule', x['rule'] is rule)
        v.check('for its verb', x['methods'] is verb or isinstance(verb, str) and x['methods'] in (verb, [verb], (verb,)))
        v.check('this handler', x['handler'] is cb)
        v.check('with its name and overwrite', x['name'] is name and bool(x['overwrite']) == over)
    v.cover(how)


GETITEM = [Proof('Route.__getitem__', lambda v: getitem(v, 3), covers=('none', 'found')), Proof('Route.__getitem__/2', lambda v: getitem(v, 2), covers=('none', 'found'))]
SET_METHODS = Proof('Route.set_method, add_method, remove_method', set_methods, covers=('set', 'add', 'remove', 'refused'))
RAISE = Proof('Route._raise_if_registered', raise_registered, covers=('accepted', 'refused'))
ROUTE_METHOD = Proof('RouteMethod', route_method, covers=('called',))
TO_ROUTE = Proof('Ombott.to_route', to_route, covers=('HEAD', 'other'))
RESOLVE = Proof('RadiRouter.resolve', resolve, covers=('found', '404', '405'))
HANDLER = Proof('Ombott.handler', handler, covers=('404', '404 handler', '405', 'found'))
METHOD = Proof('request.method', request_method, covers=('default', 'given'))
REGISTER = Proof('Ombott.route, add_route, shortcuts', registration, covers=('add_route', 'route', 'shortcut'))
C02 = [METHOD, REGISTER, TO_ROUTE, RESOLVE, *GETITEM, SET_METHODS, RAISE, ROUTE_METHOD, HANDLER]
