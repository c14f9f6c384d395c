"""C11 the router after any edit history equals a freshly built one."""
import itertools
from ..core import B
from .. import rules as R, wsgi
from ..rules import L, W

LEVEL = 'other'

RULES = [
    (L('foo'),), (L('foo/bar'),), (L('foo/baz'),), (L('fob'),), (L('foo/'), W('x')), (W('w'),),
    (L('foo/'), W('x'), L('/end')), (L('foo/'), W('n', 'int')), (), (L('q/'), W('p', 'path'), L('/e')),
    (L('q/'), W('k'),), (L('foo/ba'),),
    # patterns of above under other names
    (L('foo/'), W('y')), (W('v'),), (L('foo/'), W('z'), L('/end')), (L('q/'), W(None)),
]
PREFIX = ['/foo*', '/foo/*', '/fo*', '/foo/ba*', '/*', '/zzz*', '/q/*', '/foo/bar*']
PROBES = ['/', '/foo', '/fo', '/fob', '/foo/bar', '/foo/baz', '/foo/ba', '/foo/1', '/foo/x', '/foo/x/end', '/foo/1/end', '/foo/bar/end',
          '/x', '/q', '/q/a', '/q/a/e', '/q/a/b/e', '/foo/bax', '/foo/x/en', '/foob', '/foo/', '/zzz', '/foo/bar/zz', '/q/a/b']


class Model:
    def __init__(self):
        self.routes = {}   # shape -> dict(elems, methods {M: (hid, names)})
        self.names = {}    # name -> shape
        self.hooks = {}    # shape -> [elems, simple, partial]
        self.dead_hooks = False

    def all_elems(self):
        return [r['elems'] for r in self.routes.values()] + [h[0] for h in self.hooks.values()]

    def conflicts(self, e):
        return {R.conflict(e, a) for a in self.all_elems()} & {'yes', 'maybe'}


class H:
    """handlers / hooks with identity"""
    def __init__(self):
        self.h = {}

    def __call__(self, hid):
        if hid not in self.h:
            def f(*a, _hid=hid, **kw):
                return _hid
            f.hid = hid
            self.h[hid] = f
        return self.h[hid]


def apply(router, m, op, hs):
    """-> error message or None; keeps the model in step"""
    kind = op[0]
    if kind == 'add':
        _, k, meths, name, ow, hid = op
        e = RULES[k] if isinstance(k, int) else k
        sh = R.shape(e)
        reasons = m.conflicts(e)
        rt = m.routes.get(sh)
        if rt and not ow and set(meths) & set(rt['methods']):
            reasons.add('method')
        if name and not ow and m.names.get(name) not in (None, sh):
            reasons.add('name')
        try:
            router.add(R.render(e), list(meths), hs(hid), name, overwrite=ow)
        except Exception as ex:
            if not reasons:
                return f'{op!r} rejected without reason: {ex!r}'
            return None
        if reasons - {'maybe'}:
            return f'{op!r} accepted although {reasons!r}'
        rt = m.routes.setdefault(sh, dict(elems=e, methods={}))
        for x in meths:
            rt['methods'][x] = (hid, R.names(e))
        if name:
            m.names[name] = sh
    elif kind == 'rm':
        e = RULES[op[1]] if isinstance(op[1], int) else op[1]
        sh = R.shape(e)
        rt = m.routes.get(sh)
        if rt and R.conflict(rt['elems'], e) != 'no':
            return None     # same pattern, other filters: removal by such a rule is not specified
        router.remove(R.render(e))
        drop(m, [sh])
    elif kind == 'rmname':
        if op[1] not in m.names:
            try:
                router.remove(name=op[1])
            except Exception:
                pass
            return None
        router.remove(name=op[1])
        drop(m, [m.names[op[1]]])
    elif kind == 'rmroute':
        sh = R.shape(RULES[op[1]])
        rt = m.routes.get(sh)
        if not rt:
            return None
        r = router[{R.render(rt['elems'])}]
        if r is None:
            return f'router[{{rule}}] does not find {R.render(rt["elems"])!r}'
        router.remove(r)
        drop(m, [sh])
    elif kind == 'rmpref':
        pref = op[1][1:-1]
        router.remove(op[1])
        if any(''.join(h).startswith(pref) for h in m.hooks):
            m.dead_hooks = True
        drop(m, [s for s in m.routes if ''.join(s).startswith(pref)])
    elif kind in ('hook', 'hook404'):
        e = RULES[op[1]] if isinstance(op[1], int) else op[1]
        sh = R.shape(e)
        c = m.conflicts(e)
        try:
            router.add_hook(R.render(e), hs(op[2]), hook_type=1 if kind == 'hook404' else 0)
        except Exception as ex:
            return None if c else f'{op!r} rejected without reason: {ex!r}'
        if 'yes' in c:
            return f'{op!r}: hook accepted although a wildcard of its rule has another filter'
        h = m.hooks.setdefault(sh, [e, None, None])
        h[2 if kind == 'hook404' else 1] = op[2]
    elif kind == 'rmhook':
        e = RULES[op[1]]
        sh = R.shape(e)
        if sh in m.hooks and R.conflict(m.hooks[sh][0], e) != 'no':
            return None
        try:
            router.remove_hook(R.render(e))
        except Exception as ex:
            return f'{op!r}: {ex!r}'
        m.hooks.pop(sh, None)
    return None


def drop(m, shapes):
    for s in shapes:
        m.routes.pop(s, None)
    for n in [n for n, s in m.names.items() if s in shapes]:
        del m.names[n]


def fresh(m, hs):
    from ombott.router.radirouter import RadiRouter
    r = RadiRouter()
    for sh, rt in m.routes.items():
        for meth, (hid, nm) in rt['methods'].items():
            it = iter(nm)
            e = tuple(('w', next(it), x[2], x[3]) if x[0] == 'w' else x for x in rt['elems'])
            r.add(R.render(e), meth, hs(hid))
    for n, s in m.names.items():
        r.named_routes[n] = r[{R.render(m.routes[s]['elems'])}] if m.routes[s]['methods'] else None
    for sh, (e, s, p) in m.hooks.items():
        if s is not None:
            r.add_hook(R.render(e), hs(s))
        if p is not None:
            r.add_hook(R.render(e), hs(p), hook_type=1)
    return r


def norm_hooks(hooks):
    return [(p, [getattr(x, 'hid', x) for x in h]) for p, h in hooks]


def compare(router, m, hs, probes):
    fr = fresh(m, hs)
    elems = [rt['elems'] for rt in m.routes.values()]
    shapes = list(m.routes)
    for p in probes:
        sp = p.strip('/')
        sel = R.select(elems, sp)
        got = router.resolve(p)
        if sel is None:
            if got is not None:
                return f'{p!r}: no surviving rule matches, router resolves to {got!r}'
            ep, err = router.resolve(p, ['GET', 'ANY'])
            if ep is not None or err[0] != 404:
                return f'{p!r}: expected 404, got {ep!r} {err!r}'
            if not m.dead_hooks:
                _, ferr = fr.resolve(p, ['GET', 'ANY'])
                a = (norm_hooks(err[2]['hooks']), err[2]['param_values'])
                b = (norm_hooks(ferr[2]['hooks']), ferr[2]['param_values'])
                if a != b:
                    return f'{p!r}: partial match {a!r}, fresh router gives {b!r}'
            continue
        sh = shapes[sel[0][0]]
        rt = m.routes[sh]
        if got is None:
            return f'{p!r}: surviving rule {R.render(rt["elems"])!r} is lost'
        if got is not router.routes.get(''.join(sh)):
            return f'{p!r}: resolved route is not routes[{"".join(sh)!r}]'
        pos = R.match_pos(rt['elems'], sp)
        want_hooks = sorted((pos[len(hsh)], [s, pp]) for hsh, (e, s, pp) in m.hooks.items()
                            if sh[:len(hsh)] == hsh) if not m.dead_hooks else None
        if want_hooks is not None:
            want_hooks = [(pos[len(hsh)], [s, pp]) for hsh, (e, s, pp) in
                          sorted(m.hooks.items(), key=lambda x: len(x[0])) if sh[:len(hsh)] == hsh]
        for meth in ('GET', 'POST', 'ANY'):
            ep, err = router.resolve(p, [meth])
            if meth in rt['methods']:
                hid, nm = rt['methods'][meth]
                if ep is None or getattr(ep[0].handler, 'hid', None) != hid:
                    return f'{p!r} {meth}: expected handler {hid}, got {ep!r} {err!r}'
                want = {n: v for n, v in zip(nm, sel[1]) if n}
                if ep[1] != want:
                    return f'{p!r} {meth}: params {ep[1]!r}, expected {want!r}'
                if want_hooks is not None and norm_hooks(ep[2]) != want_hooks:
                    return f'{p!r} {meth}: hooks {norm_hooks(ep[2])!r}, expected {want_hooks!r}'
            else:
                if ep is not None or err[0] != 405 or err[2] != ','.join(sorted(rt['methods'])):
                    return f'{p!r} {meth}: expected 405 {sorted(rt["methods"])}, got {ep!r} {err!r}'
    # lookups
    if set(router.routes) != {''.join(s) for s in m.routes}:
        return f'routes = {sorted(router.routes)!r}, survivors {sorted("".join(s) for s in m.routes)!r}'
    for n in ('n1', 'n2', 'n3'):
        r = router[n]
        s = m.names.get(n)
        if (r is None) != (s is None) or (r is not None and r is not router.routes.get(''.join(s))):
            return f'router[{n!r}] = {r!r}, expected {None if s is None else "".join(s)!r}'
    for e in RULES:
        r = router[{R.render(e)}]
        rt = m.routes.get(R.shape(e))
        want = rt is not None and R.conflict(rt['elems'], e) == 'no'
        if want != (r is not None) or (want and r is not router.routes.get(''.join(R.shape(e)))):
            return f'router[{{{R.render(e)!r}}}] = {r!r}, expected {"a route" if want else None}'
        if rt is not None:
            r2 = router[{'pattern': ''.join(R.shape(e))}]
            if r2 is not router.routes.get(''.join(R.shape(e))):
                return f'lookup by pattern {R.shape(e)!r} = {r2!r}'
    return None


def ev_history(case):
    from ombott.router.radirouter import RadiRouter
    ops, every = case
    router, m, hs = RadiRouter(), Model(), H()
    for k, op in enumerate(ops):
        err = apply(router, m, op, hs)
        if err:
            return f'step {k}: {err}'
        if every or k == len(ops) - 1 or m.dead_hooks:
            err = compare(router, m, hs, PROBES)
            if err:
                return f'after step {k} {op!r}: {err}'
        else:
            for p in PROBES[::2]:       # lookups between edits must leave nothing behind
                router.resolve(p, ['GET'])
        if m.dead_hooks:
            return None
    return None


def base_ops(small):
    ops = []
    rs = [1, 2, 3, 4, 6, 7, 10] if small else range(len(RULES))
    for k in rs:
        ops.append(('add', k, ('GET',), None, False, f'h{k}'))
        ops.append(('rm', k))
    for k in ([1, 4, 11, 0] if small else range(len(RULES))):
        ops.append(('hook', k, f's{k}'))
        ops.append(('rmhook', k))
    ops += [('add', 1, ('POST',), 'n1', False, 'p1'), ('add', 2, ('GET',), 'n1', False, 'p2'),
            ('add', 2, ('POST',), 'n1', True, 'p3'), ('add', 1, ('GET', 'POST'), 'n2', True, 'p4'),
            ('add', 12, ('GET',), None, True, 'h4'), ('add', 12, ('POST',), None, False, 'h4'),
            ('rmname', 'n1'), ('rmname', 'n2'), ('rmroute', 1), ('hook404', 1, 'e1'), ('hook404', 0, 'e0')]
    ops += [('rmpref', p) for p in (PREFIX[:5] if small else PREFIX)]
    return ops


def gen_exh(tier, rng):
    ops = base_ops(True)
    for n in (1, 2, 3):
        for t in itertools.product(ops, repeat=n):
            yield t, False
    if tier != 'quick':
        for _ in range(200000):
            yield tuple(rng.choice(ops) for _ in range(4)), False


def gen_rand(tier, rng):
    for _ in range(6000 if tier == 'quick' else 80000):
        n = rng.randint(4, 14)
        ops = []
        for _ in range(n):
            k = rng.random()
            r = rng.randrange(len(RULES))
            if k < .42:
                ops.append(('add', r, rng.choice([('GET',), ('POST',), ('GET', 'ANY')]),
                            rng.choice([None, None, 'n1', 'n2', 'n3']), rng.random() < .3, f'h{rng.randrange(9)}'))
            elif k < .57:
                ops.append(('rm', r))
            elif k < .63:
                ops.append(('rmname', rng.choice(['n1', 'n2', 'n3'])))
            elif k < .67:
                ops.append(('rmroute', r))
            elif k < .72:
                ops.append(('rmpref', rng.choice(PREFIX)))
            elif k < .84:
                ops.append(('hook', r, f's{rng.randrange(5)}'))
            elif k < .90:
                ops.append(('hook404', r, f'e{rng.randrange(3)}'))
            else:
                ops.append(('rmhook', r))
        yield tuple(ops), True


def ev_wsgi_hooks(case):
    """route hooks as invoked through Ombott.__call__, after edits through the app API"""
    import ombott
    ops, probes = case
    app = ombott.Ombott()
    m, hs = Model(), H()
    log = []
    for op in ops:
        if op[0] == 'hook':
            e = RULES[op[1]]
            if m.conflicts(e):
                continue
            app.on_route(R.render(e), lambda pref, _s=op[2]: log.append((_s, pref)))
            m.hooks.setdefault(R.shape(e), [e, None, None])[1] = op[2]
        elif op[0] == 'rmhook':
            app.remove_route_hook(R.render(RULES[op[1]]))
            m.hooks.pop(R.shape(RULES[op[1]]), None)
        elif op[0] == 'add':
            e = RULES[op[1]]
            if m.conflicts(e) or R.shape(e) in m.routes:
                continue
            app.route(R.render(e), 'GET', lambda _h=op[1], **kw: f'H{_h}')
            m.routes[R.shape(e)] = dict(elems=e, methods={'GET': (op[1], R.names(e))})
        elif op[0] == 'rm':
            e = RULES[op[1]]
            rt = m.routes.get(R.shape(e))
            if rt and R.conflict(rt['elems'], e) != 'no':
                continue
            app.remove_route(R.render(e))
            drop(m, [R.shape(e)])
    elems = [rt['elems'] for rt in m.routes.values()]
    for p in probes:
        del log[:]
        r = wsgi.call(app, wsgi.environ(p))
        sp = p.strip('/')
        sel = R.select(elems, sp)
        if sel is None:
            if r.code != 404 or log:
                return f'{p!r}: expected 404 and no hook, got {r.status!r} {log!r}'
            continue
        e = elems[sel[0][0]]
        sh = R.shape(e)
        pos = R.match_pos(e, sp)
        want = [(h[1], '/' + sp[:pos[len(hsh)]]) for hsh, h in sorted(m.hooks.items(), key=lambda x: len(x[0]))
                if sh[:len(hsh)] == hsh and h[1] is not None]
        if r.code != 200 or log != want:
            return f'{p!r}: hooks {log!r}, expected {want!r} ({r.status})'


def gen_wsgi(tier, rng):
    for _ in range(700 if tier == 'quick' else 8000):
        ops = []
        for _ in range(rng.randint(3, 12)):
            r = rng.randrange(len(RULES))
            ops.append(rng.choice([('add', r), ('add', r), ('rm', r), ('hook', r, f's{rng.randrange(6)}'),
                                   ('hook', r, f's{rng.randrange(6)}'), ('rmhook', r)]))
        yield tuple(ops), tuple(rng.sample(PROBES, 10))


BOUNDED = [
    B('history-exhaustive', gen_exh, ev_history, target='RadiRouter.add/remove/add_hook/remove_hook, RadiDict._set/remove/_try_merge/get',
      bound='all histories of up to 3 edits over 36 edit operations (thorough: 200000 more of 4), all probe paths', exhaustive=True),
    B('history-random', gen_rand, ev_history, target='the same, checked after every edit', bound='seeded histories of 4..14 edits'),
    B('hooks-through-wsgi', gen_wsgi, ev_wsgi_hooks, target='Ombott.on_route/remove_route_hook/handler', bound='seeded histories of 3..12 edits x 10 paths'),
]

from ..contracts import dispatch as _c  # noqa: E402
from ..contracts import radix as _r  # noqa: E402
from ..contracts import tree as _t
from ..contracts import router as _o
PROOFS = [_c.HANDLER, _r.GET] + _t.PROOFS + _o.PROOFS
