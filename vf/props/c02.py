"""C02 method dispatch, 404/405 split, exact Allow."""
import itertools
from ..core import B
from .. import rules as R, wsgi
from ..rules import L, W

LEVEL = 'proof'
VERBS = ['GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'PATCH', 'OPTIONS', 'ANY', 'TRACE', 'PURGE']


def expected(table, verb):
    v = verb.upper()
    for c in ([v, 'GET', 'ANY'] if v == 'HEAD' else [v, 'ANY']):
        if c in table:
            return c
    return None


def probe(app, rules, tables, got, probes):
    for verb, path in probes:
        del got[:]
        r = wsgi.call(app, wsgi.environ(path, verb))
        what = f'{verb} {path!r}, routes {[(R.render(x), t) for x, t in zip(rules, tables)]!r}'
        if r.escaped is not None or r.code is None:
            return f'{what}: {r.escaped!r}'
        sel = R.select(rules, path.strip('/'))
        if sel is None:
            if r.code != 404 or got:
                return f'{what}: no rule matches, answered {r.status!r} calls {got!r} {r.errors[-400:]}'
            continue
        t = tables[sel[0][0]]
        c = expected(t, verb)
        if c is None:
            allow = r.h('Allow')
            if r.code != 405 or got:
                return f'{what}: expected 405, answered {r.status!r} calls {got!r} {r.errors[-400:]}'
            if len(allow) != 1 or sorted(x.strip() for x in allow[0].split(',') if x.strip()) != sorted(t):
                return f'{what}: Allow {allow!r}, registered {sorted(t)!r}'
        elif r.code != 200 or got != [t[c]]:
            return f'{what}: expected handler {t[c]} ({c}), called {got!r}, answered {r.status!r} {r.errors[-400:]}'
        # the router's own answer agrees
        if c is not None and verb.upper() != 'ANY':
            route = app.router.resolve(path)
            for q in (verb, verb.lower()):
                try:
                    m = route[[q] if q.upper() != 'HEAD' else [q, 'GET']]
                    if expected({k: 1 for k in t if k != 'ANY'}, verb) is None:
                        return f'{what}: route[{q!r}] found {m!r}'
                except Exception as ex:
                    if expected({k: 1 for k in t if k != 'ANY'}, verb) is not None:
                        return f'{what}: route[{q!r}] raises {ex!r}'


def ev_dispatch(case):
    """edits: (op, rule, methods, overwrite); probes: (verb, path)"""
    import ombott
    edits, probes, style = case
    app = ombott.Ombott()
    got = []
    rules, tables = [], []

    def mk(tag):
        def h(**kw):
            got.append(tag)
            return 'ok'
        return h
    n = 0
    for op, e, meths, ow in edits:
        # what was answered before an edit must not decide what is answered after it
        if n:
            bad = probe(app, rules, tables, got, probes)
            if bad:
                return f'after edit {n}: {bad}'
        e = tuple(e)
        n += 1
        k = next((i for i, x in enumerate(rules) if R.shape(x) == R.shape(e)), None)
        if op == 'add':
            if any(R.conflict(e, x) != 'no' for x in rules):
                continue
            tag = n
            clash = k is not None and not ow and {m.upper() for m in meths} & set(tables[k])
            try:
                if style == 1 and k is not None:
                    route = app.router[{R.render(e)}]
                    (route.set_method if ow else route.add_method)(list(meths), mk(tag))
                elif style == 2 and len(meths) == 1:
                    app.route(R.render(e), meths[0], mk(tag), overwrite=ow)
                elif style == 3 and len(meths) == 1 and hasattr(app, meths[0].lower()):
                    getattr(app, meths[0].lower())(R.render(e), callback=mk(tag), overwrite=ow)
                else:
                    app.add_route(R.render(e), list(meths) if len(meths) != 1 else meths[0], mk(tag), overwrite=ow)
            except Exception as ex:
                if not clash:
                    return f'registration {R.render(e)!r} {meths!r} overwrite={ow} rejected: {ex!r}'
                continue
            if clash:
                return f'registration {R.render(e)!r} {meths!r} accepted over {sorted(tables[k])!r} without overwrite'
            if k is None:
                rules.append(e); tables.append({}); k = len(rules) - 1
            for m in meths:
                tables[k][m.upper()] = tag
        elif op == 'rmmeth' and k is not None:
            route = app.router[{R.render(rules[k])}]
            if style == 1 and len(meths) == 1 and meths[0].upper() in route.methods:
                route.methods[meths[0].upper()].remove()
            else:
                route.remove_method(list(meths) if len(meths) != 1 else meths[0])
            for m in meths:
                tables[k].pop(m.upper(), None)
    return probe(app, rules, tables, got, probes)

FIXED = [((L('a'),),), ((L('a'),), (W('x'),)), ((L('a/'), W('x')), (L('a/b'),))]


def gen_exh(tier, rng):
    """every method subset of a 5-method set on one route, and on a literal route beside a wildcard one"""
    M = ['GET', 'HEAD', 'POST', 'ANY', 'put']
    subs = [s for r in range(1, 6) for s in itertools.combinations(M, r)]
    pr = tuple((v, p) for v in ('GET', 'get', 'HEAD', 'head', 'POST', 'Put', 'DELETE', 'ANY') for p in ('/a', '/zz', '/a/q', '/'))
    for s in subs:
        for rm in (None, 'get', 'POST', 'any'):
            ed = [('add', (L('a'),), s, False)]
            if rm:
                ed.append(('rmmeth', (L('a'),), (rm,), False))
            yield tuple(ed), pr, 0
            yield tuple(ed), pr, 1
    for s in subs:
        for t in subs[::3]:
            yield (('add', (L('a'),), s, False), ('add', (W('x'),), t, False)), pr, 0
            yield (('add', (L('a'),), s, False), ('add', (L('a'),), t, True)), pr, 1
            yield (('add', (L('a'),), s, False), ('add', (L('a'),), t, False)), pr, 0


NASTY = ['/http://[', '/a//[x', '/http://[::1', '//[', '/\r', '/é', '/{0}', '/<b>', '/%', '/x\udc80' if False else '/x', '/:', '/?a=b', '/a b', '/a/http://[/x',
         '/ftp:[', '/' + 'a' * 3000, '/\x00', '/[', '/]', '/a:b', '/\n', '/;', '/http:']


def gen_nasty(tier, rng):
    for p in NASTY:
        yield (('add', (L('only/'), W('x')), ('POST',), False),), tuple((v, p) for v in ('GET', 'HEAD', 'POST')), 0
        yield (('add', (W('x'), L('/'), W('y')), ('POST',), False), ('add', (W('x'),), ('POST',), False), ('add', (W('p', 'path'), L('/e')), ('PUT',), False)), tuple((v, p) for v in ('GET', 'POST', 'HEAD')), 0


def gen_rand(tier, rng):
    for _ in range(2500 if tier == 'quick' else 30000):
        base = [R.rand_rule(rng) for _ in range(rng.randint(1, 4))]
        edits = []
        for _ in range(rng.randint(1, 8)):
            e = rng.choice(base)
            ms = tuple({rng.choice(['GET', 'get', 'HEAD', 'head', 'POST', 'Post', 'PUT', 'ANY', 'any', 'DELETE', 'PURGE', 'm-search', 'M-SEARCH', 'Version-Control', 'x_y1', 'X_Y1']): 1
                        for _ in range(rng.choice([1, 1, 2, 3]))})
            edits.append((rng.choice(['add', 'add', 'add', 'rmmeth']), e, ms, rng.random() < .4))
        probes = tuple((rng.choice(VERBS + ['get', 'Head', 'M-SEARCH', 'm-search', 'VERSION-CONTROL', 'X_Y1']), R.rand_path(rng, base)) for _ in range(12))
        yield tuple(edits), probes, rng.randrange(4)


BOUNDED = [
    B('dispatch-exhaustive', gen_exh, ev_dispatch, target='Ombott.to_route/handler, Route.__getitem__/add_method/set_method/remove_method, RadiRouter.resolve',
      bound='all subsets of {GET,HEAD,POST,ANY,put} (+overwrite, +one removal) x 8 verbs x 4 paths', exhaustive=True),
    B('dispatch-unusual-paths', gen_nasty, ev_dispatch, target='404/405 answer for paths that urljoin/str.format may trip over', bound='24 paths x 3 verbs', exhaustive=True),
    B('dispatch-random', gen_rand, ev_dispatch, target='the same over random rule sets and edit sequences', bound='seeded, up to 8 edits, 12 probes'),
]

from ..contracts import dispatch as _c  # noqa: E402
PROOFS = _c.C02
