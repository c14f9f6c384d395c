"""Contracts of the router's operations: the indexes by pattern and by name agree with the tree (C11)."""
from ..pyvc.facade import *
from ..pyvc.rt import SColl, SComp, SymIter, SymSet

M = 'ombott.router.radirouter'
D = 'ombott.router.radidict'


def raise_(x):
    raise x


class Index:
    """a dict of the router: what is in it before, what is done to it"""

    def __init__(self, v, what, found=lambda k: ABSENT):
        self.v, self.what, self.found, self.log = v, what, found, []

        def look(k):
            for op, x, *y in reversed(self.log):
                if same(x, k):
                    return y[0] if op == 'set' else ABSENT
            return self.found(k)

        def get(k, d=None):
            x = look(k)
            return d if x is ABSENT else x

        def item(k):
            x = look(k)
            if x is ABSENT:
                v.throw(KeyError(k))
            return x

        def pop(k, *d):
            x = look(k)
            self.log.append(('pop', k))
            if x is ABSENT and not d:
                v.throw(KeyError(k))
            return d[0] if x is ABSENT else x

        def delete(k):
            item(k)
            self.log.append(('pop', k))

        def contains(k):
            return look(k) is not ABSENT
        self.o = SColl(what, inline=False, attrs=dict(
            get=get, __getitem__=item, pop=pop, __delitem__=delete, __contains__=contains, __setitem__=lambda k, x: self.log.append(('set', k, x)),
            clear=lambda: raise_(Misfit(f'{what} cleared')), havoc=lambda: None, __bool__=lambda: v.split(z3.Bool(v.e.fresh(f'{what} non-empty'))),
            keys=lambda: self.o, copy=lambda: self.o))

    def popped(self):
        return [x[1] for x in self.log if x[0] == 'pop']

    def sets(self):
        return [x[1:] for x in self.log if x[0] == 'set']


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return lift(a).z.eq(lift(b).z)
    return False


def text(x):
    x = lift(x) if isinstance(x, str) else x
    return x.z if isinstance(x, SStr) else raise_(Misfit(f'{x!r} is no text'))


def router(v, **k):
    ix = {n: Index(v, n) for n in ('routes', 'hooks', 'named_routes')}
    tree = v.closed('radidict')
    parsed = []
    pat = v.str('pattern')
    params, filters = SColl('params', inline=False), SColl('filters', inline=False)

    def parse_rule(rule):
        parsed.append(rule)
        return (pat, params, filters, v.obj('pattern_out'), v.obj('filters_out'))
    me = v.obj('router', real(M + ':RadiRouter'), radidict=tree, parse_rule=parse_rule, **{n: x.o for n, x in ix.items()}, **k)
    me.attrs['to_pattern'] = lambda rule: parse_rule(rule)[0]
    return me, tree, ix, parsed, pat, params, filters


def signature(v, x, params, filters):
    """{name: [not exclusive, filter]} for the parameters in order"""
    if not isinstance(x, SComp) or x.kind != 'dict' or not isinstance(x.src, SColl) or 'parts' not in x.src.attrs:
        raise Misfit('the parameters')
    v.check('names and filters in step', len(x.src.parts) == 2 and x.src.parts[0] is params and x.src.parts[1] is filters)
    n, f = v.str('name'), v.either('filter', lambda: None, lambda: v.obj('filter'))
    got = x.probe((n, f))
    v.check('every parameter, by its name', len(got) == 1 and isinstance(got[0], tuple) and zb(lift(got[0][0]).z == n.z))
    v.check('not exclusive, with its filter', isinstance(got[0][1], (list, tuple)) and len(got[0][1]) == 2 and got[0][1][0] is False and got[0][1][1] is f)


def params_signature(v):
    """Route.params_signature"""
    params, filters = SColl('params', inline=False), SColl('filters', inline=False)
    o = v.call(v.fn(M + ':Route.params_signature'), v.obj('route', None, params=params, filters=filters))
    v.check('no failure', o.ok)
    signature(v, o.value, params, filters)
    v.cover('signature')


def add(v):
    """_add: a new rule gets a route in tree and index; a known one keeps its route; what is refused changes no index"""
    me, tree, ix, parsed, pat, _, _ = router(v)
    rerr, berr, kerr = real('ombott.router.errors:RouteMethodError'), real('ombott.router.errors:RouteBuildError'), real(f'{D}:RadiDictKeyError')
    log = []

    def mk(what, refuses):
        r = v.obj(what, None, pattern=pat, params=v.obj(f'params of {what}'), filters=v.obj(f'filters of {what}'), __bool__=lambda: True)
        sig = v.obj(f'signature of {what}')
        r.attrs['params_signature'] = lambda: sig
        r.attrs['_sig'] = sig

        def op(kind):
            def f(*a, **k):
                a = list(a) + [k.get(n) for n in ('method', 'handler', 'meta', 'params')[len(a):]]
                if kind == 'add' and refuses and v.split(z3.Bool(v.e.fresh('a method is registered already'))):
                    log.append(('refused',))
                    v.throw(rerr('registered'))
                log.append((kind, r, *a))
            return f
        r.attrs['add_method'], r.attrs['set_method'] = op('add'), op('set')
        return r
    rule = v.obj('rule')
    new = mk('new route', False)
    made = []

    def Route(r):
        v.check('a route is made of the rule', r is rule)
        made.append(r)
        return new
    v.stub('Route', Route)
    v.trust('Route(rule) by its contracts (C19, C01); methods of a new route: none, so add_method does not refuse it')
    old = v.either('route of this pattern and these filters', lambda: None, lambda: mk('old route', True))
    # in the tree: a route of the same pattern with other filters makes radidict.add refuse
    asked = []

    def match_(*a, **k):
        a = list(a)
        p = a[0] if a else k.get('rule')
        if k.get('route_pattern') is not None:
            p = k['route_pattern']
        f = a[1] if len(a) > 1 else k.get('filters')
        v.check('the route of this pattern and these filters is looked up', p is pat and f is new.filters and not k.get('get_hooks'))
        asked.append(1)
        return old

    def tadd(p, data, params=None, overwrite=False):
        if v.split(z3.Bool(v.e.fresh('the tree refuses'))):
            log.append(('refused',))
            v.throw(kerr('refused'))
        log.append(('tree', p, data, params))
    me.attrs['_match'] = match_
    tree.attrs['add'] = tadd
    name = v.either('name', lambda: None, lambda: '', lambda: v.str('name'))
    if isinstance(name, SStr):
        v.add(z3.Length(name.z) >= 1)
    holder = v.either('holder of the name', lambda: ABSENT, lambda: v.obj('another route', __bool__=lambda: True), lambda: old if old is not None else ABSENT)
    ix['named_routes'].found = holder if False else None
    ix['named_routes'].o.attrs['get'] = lambda k, d=None: (v.check('the name is looked up', same(k, name)), d if holder is ABSENT else holder)[1]
    ix['named_routes'].o.attrs['__contains__'] = lambda k: holder is not ABSENT
    ix['named_routes'].o.attrs['__getitem__'] = lambda k: holder if holder is not ABSENT else v.throw(KeyError(k))
    ow = v.case('overwrite', False, True)
    ms, h, meta = v.obj('methods'), v.obj('handler'), v.obj('meta')
    o = v.call(v.fn(M + ':RadiRouter._add'), me, rule, ms, h, name, meta=meta, overwrite=ow)
    taken = isinstance(name, SStr) and holder is not ABSENT and holder is not old
    trees = [x for x in log if x[0] == 'tree']
    meths = [x for x in log if x[0] in ('add', 'set')]
    r = old if old is not None else new
    if not o.ok:
        if ('refused',) not in log:
            v.check('refused by the router: only a name that belongs to another route', taken and not ow and o.raised(berr))
        v.check('what is refused changes nothing', not trees and not meths and not any(x.log for x in ix.values()))
        v.cover('refused')
        return
    v.check('a name that belongs to another route is refused', Or(not taken, ow))
    v.check('what the tree or the route refuses is refused', ('refused',) not in log)
    v.check('the route is returned', o.value is r)
    if old is None:
        v.check('the new route is put into the tree', len(trees) == 1 and trees[0][1] is pat and trees[0][2] is new and trees[0][3] is new._sig)
        v.check('and into the index, by its pattern', len(ix['routes'].sets()) == 1 and ix['routes'].sets()[0][0] is pat and ix['routes'].sets()[0][1] is new)
    else:
        v.check('a known rule changes neither tree nor index', not trees and all(k is pat and x is old for k, x in ix['routes'].sets()))
    v.check('nothing leaves the index', not ix['routes'].popped() and not ix['hooks'].log and not ix['named_routes'].popped())
    v.check('the methods are registered once, with the parameter names of this rule', len(meths) == 1 and all(x is y for x, y in zip(meths[0][1:], (r, ms, h, meta, new.params))))
    v.check('overwriting only when asked for', meths[0][0] == ('set' if ow else 'add'))
    n = ix['named_routes'].sets()
    v.check('the name leads to the route', (len(n) == 1 and same(n[0][0], name) and n[0][1] is r) if isinstance(name, SStr) else not n)
    v.cover('new' if old is None else 'known')


def add_public(v):
    """add: normalised methods, everything else handed on"""
    got = []
    me = v.obj('router', None, _add=lambda *a, **k: (got.append((a, k)), 'route')[1])
    norm = v.obj('normalised')
    ms = v.obj('methods')
    v.stub('Route', v.closed('Route', _norm_methods=lambda m: (v.check('the methods given', m is ms), norm)[1]))
    rule, h, name, meta, ow = (v.obj(n) for n in ('rule', 'handler', 'name', 'meta', 'overwrite'))
    o = v.call(v.fn(M + ':RadiRouter.add'), me, rule, ms, h, name, meta=meta, overwrite=ow)
    v.check('the registration is done once', o.ok and o.value == 'route' and len(got) == 1)
    a, k = got[0]
    a = dict(zip(('rule', 'methods', 'handler', 'name'), a), **k)
    v.check('with what was given', all(a.get(n) is x for n, x in dict(rule=rule, handler=h, name=name, meta=meta, overwrite=ow).items()) and a.get('methods') in (norm, ms))
    v.cover('handed on')


def remove(v):
    """remove: tree, index by pattern and index by name lose the same routes"""
    how = v.case('by', 'rule', 'prefix rule', 'route', 'name', 'pattern', 'prefix pattern')
    me, tree, ix, parsed, pat, _, _ = router(v)
    star = how.startswith('prefix')
    front = v.str('prefix')
    v.add(Not(z3.SuffixOf(sval('*'), pat.z)))
    if star:
        pat = SStr(z3.Concat(front.z, sval('*')))
        me.attrs['to_pattern'] = lambda rule: (parsed.append(rule), pat)[1]
    removed, dropped = [], []
    tree.attrs['remove'] = lambda p, hooks_only=False: (v.check('routes are removed, not hooks', hooks_only is False), removed.append(p))[0]
    me.attrs['_remove_named_routers'] = dropped.append
    route = v.obj('route', real(M + ':Route'), inline=False, pattern=pat, __bool__=lambda: True)
    held = v.either('in the index', lambda: route, lambda: ABSENT) if how in ('rule', 'pattern', 'name', 'route') else ABSENT
    sets = []
    v.e.hooks['set'] = lambda x: (sets.append(x), v.obj('set', _of=x))[1]
    v.e.hooks['list'] = lambda x: x
    log = ix['routes'].log

    def there(k):
        return held if same(k, pat) else ABSENT
    R = ix['routes'] = Index(v, 'routes', there)
    me.attrs['routes'] = R.o
    name = v.str('name')
    known = True
    if how == 'name':
        known = v.case('the name is known', True, False)
        N = ix['named_routes'] = Index(v, 'named_routes', lambda k: route if known and same(k, name) else ABSENT)
        me.attrs['named_routes'] = N.o
    rule = v.str('rule')
    args = {'rule': ((rule,), {}), 'prefix rule': ((rule,), {}), 'route': ((route,), {}), 'name': ((), {'name': name}),
            'pattern': ((), {'route_pattern': pat}), 'prefix pattern': ((), {'route_pattern': pat})}[how]
    o = v.call(v.fn(M + ':RadiRouter.remove'), me, *args[0], **args[1])
    if not known:
        v.check('an unknown name changes nothing', not removed and not dropped and not any(x.log for x in ix.values()))
        v.cover('unknown name')
        return
    if not o.ok:
        # a route that is not registered (any more)
        v.check('only a route that is not registered fails', how in ('route', 'name') and held is ABSENT and o.raised(KeyError))
        v.check('then no index changes', not dropped and not R.sets() and all(same(k, pat) for k in R.popped()) and not ix['named_routes'].log)
        v.cover('not registered')
        return
    v.check('the tree loses what is asked for, once', len(removed) == 1 and zb(text(removed[0]) == pat.z) if len(removed) == 1 else False)
    v.check('no hook leaves its index', not ix['hooks'].log and not R.sets() and not ix['named_routes'].log)
    v.check('the names are dropped once', len(dropped) == 1)
    d = dropped[0]
    if not star:
        v.check('the index by pattern loses exactly this pattern', And(*[text(k) == pat.z for k in R.popped()]) if held is ABSENT or R.popped() else False)
        if isinstance(d, SObj):
            d = d.attrs['_of']
        if not isinstance(d, (set, list, tuple, frozenset)):
            raise Misfit('the set of patterns')
        v.check('and so do the names', And(len(d) == 1, *[text(k) == pat.z for k in d]))
        v.cover(how)
        return
    # every pattern that begins with the prefix, and no other
    p = v.str('any pattern of the index')
    inside = z3.PrefixOf(front.z, p.z)
    x = d.attrs['_of'] if isinstance(d, SObj) and '_of' in d.attrs else d
    if not isinstance(x, SComp):
        raise Misfit('the set of patterns')
    src = x
    while isinstance(src, SComp):
        src = src.src
    v.check('the patterns are those of the index', src is R.o)
    R.found = None
    pops = []
    R.o.attrs['pop'] = lambda k, *dflt: pops.append(k)
    got = x.probe(p)
    v.check('a name is dropped exactly with a pattern that begins with the prefix', And(inside, len(got) == 1, text(got[0]) == p.z) if got else Not(inside))
    for c in v.e.memo.get('comps', []):
        if c is not x and c.kind == 'list':
            c.probe(p)
    if R.popped():
        raise Misfit('how patterns leave the index')
    v.check('and the pattern leaves the index', And(len(pops) == 1, inside, *[text(k) == p.z for k in pops]) if pops else Not(inside))
    v.cover('prefix: ' + ('removed' if got else 'kept'))


def remove_named(v):
    """_remove_named_routers: a name is dropped iff its route has one of the patterns"""
    ix = Index(v, 'named_routes')
    cur = []

    def inset(k):
        return any(k is r.attrs['pattern'] for _, r, b in cur if b)
    pats = v.obj('patterns', __contains__=lambda p: next(b for _, r, b in cur if r.attrs['pattern'] is p))

    def nxt():
        k = v.str('name')
        r = v.obj('route', None, pattern=v.obj('pattern'), __bool__=lambda: True)
        check_last()
        cur[:] = [(k, r, v.split(z3.Bool(v.e.fresh('of one of the patterns'))))]
        ix.found = lambda q: r if same(q, k) else ABSENT
        return (k, r)
    checked = []

    def check_last():
        if cur:
            k, r, b = cur[0]
            got = [x for x in ix.log]
            v.check('a name is dropped exactly when its route has one of the patterns', (len(got) == 1 and got[0][0] == 'pop' and same(got[0][1], k)) if b else not got)
            v.cover('dropped' if b else 'kept')
            ix.log.clear()
            cur.clear()
    it = SymIter(lambda: SBool(z3.Bool(v.e.fresh('more'))), nxt, lambda: None)
    items = v.obj('items', _symiter=lambda: it)
    snap = v.obj('items (snapshot)', _symiter=lambda: it)
    live = []
    v.e.hooks['list'] = lambda x: snap if x is items else raise_(Misfit('list of something'))
    ix.o.attrs['items'] = lambda: items
    items.attrs['_symiter'] = lambda: raise_(Misfit('the index is walked while it changes'))
    v.loop('RadiRouter._remove_named_routers', 0, Loop(lambda L: [('nothing else is dropped', not ix.log)], lambda L: {}, step=lambda L: check_last(), modifies=lambda L: [ix.o]))
    o = v.call(v.fn(M + ':RadiRouter._remove_named_routers'), v.obj('router', None, named_routes=ix.o), pats)
    v.check('no failure', o.ok)
    check_last()
    v.cover('done')


def installer(v):
    """hook_installer: the slot of the type gets the hook, the other slot stays"""
    HT = real(M + ':HookTypes')
    v.stub('HookTypes', HT)
    t = v.case('type', HT.SIMPLE, HT.PARTIAL)
    h, a, b = v.obj('hook'), v.obj('first'), v.obj('second')
    was = v.either('hooks', lambda: None, lambda: [a, b])
    o = v.call(v.fn(M + ':RadiRouter.hook_installer'), was, h, t)
    r = o.value if o.ok else None
    if not isinstance(r, list) or len(r) != 2:
        v.check('two slots', o.ok and isinstance(r, (list, tuple)) and len(r) == 2)
        return
    v.check('the slot of the type gets the hook', r[t] is h)
    v.check('the other slot stays', r[1 - t] is (None if was is None else [a, b][1 - t]))
    v.check('hooks that are there are changed in place', was is None or r is was)
    v.cover('new' if was is None else 'added')


def add_hook(v):
    """add_hook: the hooks of the pattern stand in tree and index as one object; what is refused changes neither"""
    me, tree, ix, parsed, pat, params, filters = router(v)
    kerr = real(f'{D}:RadiDictKeyError')
    was = v.either('hooks of this pattern and these filters', lambda: None, lambda: v.obj('old hooks', __bool__=lambda: True))
    fresh = v.obj('new hooks', __bool__=lambda: True)
    log = []

    def match_(*a, **k):
        p = k.get('route_pattern', a[0] if a else k.get('rule'))
        f = k.get('filters', a[1] if len(a) > 1 else None)
        v.check('the hooks of this pattern and these filters are looked up', p is pat and f is filters and k.get('get_hooks') is True)
        return was
    hook, typ = v.obj('hook'), v.obj('type')

    def install(h, *a, **k):
        v.check('the hook is installed with what was given', h is was and a == (hook,) and k == {'hook_type': typ})
        if v.split(z3.Bool(v.e.fresh('the type is refused'))):
            log.append('refused')
            v.throw(ValueError('type'))
        log.append('installed')
        return was if was is not None else fresh

    def thooks(p, h, params_=None, *, overwrite=False, params=None):
        if v.split(z3.Bool(v.e.fresh('the tree refuses'))):
            log.append('refused')
            v.throw(kerr('refused'))
        log.append(('tree', p, h, params_ if params_ is not None else params))
    me.attrs.update(_match=match_, hook_installer=install)
    tree.attrs['add_hooks'] = thooks
    rule = v.obj('rule')
    o = v.call(v.fn(M + ':RadiRouter.add_hook'), me, rule, hook, hook_type=typ)
    v.check('only the rule is parsed', bool(parsed) and all(x is rule for x in parsed))
    H = ix['hooks']
    v.check('no route is touched', not ix['routes'].log and not ix['named_routes'].log)
    if not o.ok:
        v.check('refused only by the installer or the tree', 'refused' in log)
        v.check('what is refused changes neither tree nor index', not H.log and not any(isinstance(x, tuple) for x in log))
        v.cover('refused')
        return
    v.check('what is refused is an error', 'refused' not in log)
    v.check('the pattern is returned', o.value is pat)
    trees = [x for x in log if isinstance(x, tuple)]
    if was is None:
        v.check('the hooks are put into the tree', len(trees) == 1 and trees[0][1] is pat and trees[0][2] is fresh)
        signature(v, trees[0][3], params, filters)
        v.check('and into the index, the same object', [(k is pat, x is fresh) for k, x in H.sets()] == [(True, True)] and not H.popped())
        v.cover('new')
    else:
        v.check('hooks changed in place stay where they are', all(x[1] is pat and x[2] is was for x in trees) and all(k is pat and x is was for k, x in H.sets()) and not H.popped())
        v.cover('added')


def remove_hook(v):
    """remove_hook: tree and index lose the hooks of the pattern, no route is touched"""
    me, tree, ix, parsed, pat, _, _ = router(v)
    got = []
    tree.attrs['remove'] = lambda p, hooks_only=False: got.append((p, hooks_only))
    H = ix['hooks'] = Index(v, 'hooks', lambda k: held)
    me.attrs['hooks'] = H.o
    held = v.either('hooks of the pattern', lambda: ABSENT, lambda: v.obj('hooks', __bool__=lambda: True))
    rule = v.obj('rule')
    o = v.call(v.fn(M + ':RadiRouter.remove_hook'), me, rule)
    v.check('no failure', o.ok)
    v.check('of this rule', bool(parsed) and all(x is rule for x in parsed))
    v.check('the tree loses the hooks only', len(got) <= 1 and all(p is pat and ho is True for p, ho in got) and (bool(got) or held is ABSENT))
    v.check('the index loses the hooks', not H.sets() and all(k is pat for k in H.popped()) and (bool(H.popped()) or held is ABSENT))
    v.check('no route is touched', not ix['routes'].log and not ix['named_routes'].log)
    v.cover('removed')


def lookup(v):
    """_match, [..], get_hook: by rule, by pattern and by name, what tree and indexes hold; nothing changes"""
    me, tree, ix, parsed, pat, params, filters = router(v)
    dat, hks = v.obj('data', __bool__=lambda: True), v.obj('hooks', __bool__=lambda: True)
    c = {n: real(f'{D}:{n}') for n in ('DATA', 'HOOKS')}
    MT = real(f'{D}:MismatchType')
    mis = v.either('mismatch', lambda: None, lambda: MT.WHOLE, lambda: MT.FILTER)
    walked = []

    def match_(p, param_exclusions=None, param_filters=None, pnode=None):
        v.check('from the root, by pattern and filters alone', param_exclusions is None and pnode is None)
        walked.append((p, param_filters))
        return v.obj('node', __getitem__=lambda k: {c['DATA']: dat, c['HOOKS']: hks}[k]), mis, 0, 0, []
    tree.attrs['_match'] = match_
    v.add(Not(z3.PrefixOf(sval('/'), pat.z)))
    key = v.str('key')
    v.add(z3.Length(key.z) >= 1)
    name = v.str('name')
    named = v.either('route of the name', lambda: ABSENT, lambda: v.obj('route', __bool__=lambda: True))
    ix['named_routes'] = Index(v, 'named_routes', lambda k: named if same(k, name) else raise_(Misfit('another name')))
    ix['hooks'] = Index(v, 'hooks', lambda k: hks if k is pat else raise_(Misfit('another pattern')))
    me.attrs.update(named_routes=ix['named_routes'].o, hooks=ix['hooks'].o)
    how = v.case('lookup', 'rule', 'rule, filters', 'pattern', 'pattern, filters', 'hooks', '[name]', '[{rule}]', '[{rule: ..}]', '[{pattern: ..}]', 'get_hook')
    fs = v.obj('given filters')
    f = v.fn(M + ':RadiRouter._match')
    g = v.fn(M + ':RadiRouter.__getitem__')
    want = None
    if how == 'get_hook':
        o = v.call(v.fn(M + ':RadiRouter.get_hook'), me, key)
        v.check('the hooks of the rule', o.ok and o.value is hks and all(x is key for x in parsed))
        v.cover(how)
        return
    if how == '[name]':
        o = v.call(g, me, name)
        v.check('the route of the name', o.ok and o.value is (None if named is ABSENT else named) and not walked)
        v.cover(how)
        return
    if how == 'rule':
        o, want = v.call(f, me, key), (pat, filters)
    elif how == 'rule, filters':
        o, want = v.call(f, me, pat, fs), (pat, fs)
    elif how == 'pattern':
        o, want = v.call(f, me, route_pattern=pat), (pat, None)
    elif how == 'pattern, filters':
        o, want = v.call(f, me, filters=fs, route_pattern=pat), (pat, fs)
    elif how == 'hooks':
        o, want = v.call(f, me, filters=fs, route_pattern=pat, get_hooks=True), (pat, fs)
    elif how == '[{rule}]':
        o, want = v.call(g, me, SymSet(key)), (pat, filters)
    elif how == '[{rule: ..}]':
        o, want = v.call(g, me, {'rule': key}), (pat, filters)
    else:
        o, want = v.call(g, me, {'pattern': pat}), (pat, None)
    v.check('no failure', o.ok)
    v.check('the tree is asked for this pattern, with these filters', len(walked) == 1 and walked[0][0] is want[0] and walked[0][1] is want[1])
    if want[0] is pat and want[1] is filters:
        v.check('those of the rule', all(x is key for x in parsed) and bool(parsed))
    v.check('what the tree holds there', o.value is (None if mis is not None else hks if how == 'hooks' else dat))
    v.check('nothing changes', not any(x.log for x in ix.values()))
    v.cover(how)


SIGN = Proof('Route.params_signature', params_signature, covers=('signature',))
ADD = Proof('RadiRouter._add', add, covers=('refused', 'new', 'known'))
PUBLIC = Proof('RadiRouter.add', add_public, covers=('handed on',))
REMOVE = Proof('RadiRouter.remove', remove, covers=('unknown name', 'not registered', 'rule', 'route', 'name', 'pattern', 'prefix: removed', 'prefix: kept'))
NAMED = Proof('RadiRouter._remove_named_routers', remove_named, covers=('dropped', 'kept', 'done'))
INSTALL = Proof('RadiRouter.hook_installer', installer, covers=('new', 'added'))
HOOK = Proof('RadiRouter.add_hook', add_hook, covers=('refused', 'new', 'added'))
UNHOOK = Proof('RadiRouter.remove_hook', remove_hook, covers=('removed',))
LOOKUP = Proof('RadiRouter._match', lookup, covers=('rule', 'rule, filters', 'pattern', 'pattern, filters', 'hooks', '[name]', '[{rule}]', '[{rule: ..}]', '[{pattern: ..}]', 'get_hook'))
PROOFS = [SIGN, ADD, PUBLIC, REMOVE, NAMED, INSTALL, HOOK, UNHOOK, LOOKUP]
