"""C01 route resolution == rule-by-rule semantics."""
import itertools
from ..core import B
from .. import rules as R, wsgi

LEVEL = 'other'


def build(rules, flavours):
    """real router with the accepted rules; -> (router, accepted elems list, handlers)"""
    from ombott.router.radirouter import RadiRouter
    router = RadiRouter()
    acc, hs, errs = [], [], []
    for k, (e, fl) in enumerate(zip(rules, flavours)):
        dup = sum(R.shape(e) == R.shape(a) for a in acc)
        meth = ['GET', 'POST', 'PUT', 'PATCH', 'DELETE', 'M5', 'M6', 'M7', 'M8'][dup]
        verdicts = {R.conflict(e, a) for a in acc}
        def h(_k=k, **kw):
            return _k, kw
        try:
            router.add(R.render(e, fl), meth, h)
        except Exception as ex:
            if 'yes' not in verdicts and 'maybe' not in verdicts:
                errs.append(f'rule {R.render(e, fl)!r} rejected ({ex!r}) although nothing registered conflicts with it')
            continue
        acc.append(e); hs.append((meth, h))
    return router, acc, hs, errs


def check_paths(router, acc, hs, paths):
    for p in paths:
        sel = R.select(acc, p.strip('/'))
        if sel is None:
            ep, err = router.resolve(p, ['GET', 'ANY'])
            if ep is not None or not err or err[0] != 404:
                return f'path {p!r}: no rule matches, router answered {ep!r} {err!r}'
            if router.resolve(p) is not None:
                return f'path {p!r}: resolve() found a route, no rule matches'
            continue
        idx, vals = sel
        for k in idx:
            meth, h = hs[k]
            ep, err = router.resolve(p, [meth])
            if ep is None:
                return f'path {p!r}: rule {R.render(acc[k])!r} matches, router answered {err!r}'
            m, params, _ = ep
            if m.handler is not h:
                return f'path {p!r}: expected handler of {R.render(acc[k])!r}, got {m!r}'
            want = R.named(acc[k], vals)
            if params != want or {n: type(v) for n, v in params.items()} != {n: type(v) for n, v in want.items()}:
                return f'path {p!r}: rule {R.render(acc[k])!r} params {params!r}, expected {want!r}'
    return None


def ev_resolve(case):
    rules, flav, paths = case
    router, acc, hs, errs = build(rules, flav)
    if errs:
        return errs[0]
    return check_paths(router, acc, hs, paths)


PATHS = ['/', '', '/a', '/ab', '/abc', '/a/b', '/a/b/', '/a/bb', '/a//b', '/a/1', '/a/-12', '/a/1x', '/a/x/b', '/a/1/b',
         '/b', '/b/b', '/b/ab', '/b/ab/c', '/b/abb', '/b/1.5x', '/b/1x', '/b/x', '/b/1.5', '/ab/q', '/ab/q/r/s', '/ab/',
         '/\r', '/a\r', '/a/\r', '/a/\r/b', '/\r/b', '/x/\r', '/b/\r', '/b/\r/c', '/x/y', '/x//', '//', '/é', '/a/é/b',
         '/a/x/c', '/a//c', '/x/y/z', '/x/e', '/x/y/e', '/a/b/e', '/ab\r/q', '/x/e/e', '/b/b/e', '/a\n', '/1/e\n']


def gen_exh(tier, rng):
    U = R.UNIVERSE
    n = 2 if tier == 'quick' else 3
    for r in range(1, n + 1):
        for t in itertools.permutations(U, r):
            yield t, (0,) * r, tuple(PATHS)
    if tier == 'quick':
        allt = list(itertools.permutations(U, 3))
        rng.shuffle(allt)
        for t in allt[:5000]:
            yield t, (0, 0, 0), tuple(PATHS)


def gen_rand(tier, rng):
    for _ in range(12000 if tier == 'quick' else 40000):
        rules = [R.rand_rule(rng) for _ in range(rng.randint(1, 7))]
        # the same pattern under other names
        if rng.random() < .5:
            e = rng.choice(rules)
            rules.append(tuple(('w', f'other{k}' if x[1] else rng.choice([None, f'o{k}']), x[2], x[3])
                               if x[0] == 'w' else x for k, x in enumerate(e)))
        paths = tuple(R.rand_path(rng, rules) for _ in range(25))
        yield tuple(rules), tuple(rng.randrange(64) for _ in rules), paths


def ev_wsgi(case):
    """kwargs the handler receives through Ombott.__call__"""
    import ombott
    rules, flav, paths = case
    app = ombott.Ombott()
    got = []
    acc = []
    for k, (e, f) in enumerate(zip(rules, flav)):
        if any(R.shape(e) == R.shape(a) or R.conflict(e, a) != 'no' for a in acc):
            continue
        def h(_k=len(acc), **kw):
            got.append((_k, kw))
            return 'ok'
        app.route(R.render(e, f), 'GET', h)
        acc.append(e)
    for p in paths:
        del got[:]
        r = wsgi.call(app, wsgi.environ(p))
        sel = R.select(acc, p.strip('/'))
        if sel is None:
            if r.code != 404 or got:
                return f'path {p!r}: expected 404, got {r.status!r} handler calls {got!r}'
        else:
            idx, vals = sel
            want = [(idx[0], R.named(acc[idx[0]], vals))]
            if r.code != 200 or got != want:
                return f'path {p!r}: expected call {want!r}, got {got!r} status {r.status!r} {r.errors[-300:]}'
    return None


def gen_text(tier, rng):
    """characters that have other spellings reach the handler as they were sent"""
    odd = ['e\u0301', 'é', '\uff21', 'ß', 'İ', '\u212b', '\ufb01', 'ſ', '\u1e9b\u0323', '가', '\u1100\u1161', '²', '\u00a0', '\u3000', '\u200b', '\ufeff', '\U0001f468\u200d\U0001f469', 'Ａ', '\u0130', 'ı', 'Σ', 'ς', '\x7f', '\x85', '\u2028']
    for o in odd:
        for x in (o, 'a' + o, o + 'b', o + o):
            yield ((('l', 'p/'), ('w', 'v', None, None)), (('l', 'q/'), ('w', 'v', 'path', None))), (0, 0), ('/p/' + x, '/q/' + x + '/' + x, '/p/' + x + '/' + x)
            yield ((('l', 'p/' + x),), (('l', 'p/'), ('w', 'v', None, None))), (0, 0), tuple('/p/' + y for y in odd + [x, x.upper(), x.lower()])


def gen_wsgi(tier, rng):
    yield from gen_text(tier, rng)
    for _ in range(2500 if tier == 'quick' else 4000):
        rules = tuple(R.rand_rule(rng) for _ in range(rng.randint(1, 5)))
        yield rules, tuple(rng.randrange(64) for _ in rules), tuple(R.rand_path(rng, rules) for _ in range(12))


def ev_digits(case):
    import ombott
    flt, text = case
    app = ombott.Ombott()
    got = []
    app.route(f'/n/<v:{flt}>', 'GET', lambda v: got.append(v) or 'ok')
    r = wsgi.call(app, wsgi.environ('/n/' + text))
    a = R.accept(('w', 'v', flt, None), '', text)
    ok = a is not None and a[1] == len(text)
    if ok != (r.code == 200) or (ok and got != [a[0]]) or (not ok and (got or r.code != 404)):
        return f'{flt} {text[:30]!r}… ({len(text)} chars): status {r.status!r} got {len(got)} values, expected {"match" if ok else "404"}'


def gen_digits(tier, rng):
    for n in (1, 5, 300, 310, 400, 4299, 4300, 4301, 6000):
        for f in ('int', 'float'):
            yield f, '9' * n
            yield f, '-' + '7' * n
            yield f, '1' * n + ('.5' if f == 'float' else '')


def ev_dup(case):
    """a rule naming two wildcards alike is either rejected whole or bound consistently"""
    from ombott.router.radirouter import RadiRouter
    rule, probe = case
    r = RadiRouter()
    h1 = lambda **k: 1
    r.add('/keep/:x', 'GET', h1)
    try:
        r.add(rule, 'GET', lambda **k: 2)
    except Exception as e:
        if r.resolve(probe) is not None:
            return f'{rule!r} was rejected ({e!r}) but {probe!r} resolves'
        if len(r.routes) != 1:
            return f'{rule!r} was rejected but routes = {list(r.routes)!r}'
    # whatever was rejected blocks nothing: these rules conflict with no registered rule
    r.add('/d/<q:path>', 'GET', lambda **k: 3) if not any('d/' in p for p in r.routes) else None
    ep, err = r.resolve('/keep/5', ['GET'])
    if not ep or ep[0].handler is not h1 or ep[1] != {'x': '5'}:
        return f'surviving route broken after {rule!r}: {ep!r} {err!r}'


def gen_dup(tier, rng):
    yield '/d/:x/:x', '/d/1/2'
    yield '/d/<x:int>-<x>', '/d/1-2'
    yield '/:x/e/:x', '/1/e/2'
    yield '/keep/:x/:x', '/keep/1/2'
    yield '/d/:x/:y/:x/z', '/d/1/2/3/z'


def ev_pair(case):
    rs = R.pair_rules(*case)
    router, acc, hs, errs = build(rs, [2, 2])
    return errs[0] if errs else check_paths(router, acc, hs, ['/a/' + t for t in R.PAIR_TEXTS] + ['/b/' + t for t in R.PAIR_TEXTS])


def ev_one_handler(case):
    """one handler under several rules of one pattern, also replacing itself: called with the names of its last rule"""
    import ombott
    regs, path = case
    app = ombott.Ombott()
    got, last = [], {}

    def shared(**kw):
        got.append(kw)
        return 'ok'
    for e, meth, ow in regs:
        if meth in last and not ow:
            continue
        app.route(R.render(e, 2), meth, shared, overwrite=ow)
        last[meth] = e
        for m, x in last.items():
            del got[:]
            r = wsgi.call(app, wsgi.environ(path, m))
            sel = R.select([x], path.strip('/'))
            want = [R.named(x, sel[1])]
            if r.code != 200 or got != want:
                return f'{m} {path!r} after {[(R.render(a), b, c) for a, b, c in regs]!r}: called with {got!r}, expected {want!r} ({r.status!r})'


def gen_one_handler(tier, rng):
    from ..rules import L, W
    fams = [([(L('a/'), W(n)) for n in ('x', 'y', None)], '/a/1'), ([(L('a/'), W(n, 'int'), L('/'), W(k)) for n, k in (('x', 'y'), ('y', 'x'), ('u', 'y'), (None, 'x'))], '/a/1/b'),
            ([(W(n, 'path'), L('/e')) for n in ('p', 'q')], '/a/b/e')]
    for rs, path in fams:
        for n in (2, 3):
            for t in itertools.product(rs, repeat=n):
                for ms in (('GET',) * n, ('GET', 'POST', 'GET')[:n], ('POST', 'GET', 'POST')[:n]):
                    yield tuple((e, m, True) for e, m in zip(t, ms)), path
                    yield tuple((e, m, k > 1) for k, (e, m) in enumerate(zip(t, ms))), path


RX = ['a', '((a)b)c', '(a(b(c)))d?', r'a\)b', r'\(a', '(?:a|(?:b|c))d', r'(a)(b)', r'(((a)))', r'\(\)', r'(\(a\)|b)', r' a', 'a ', r'\\a', r'(a\\)b', '[ab]+', 'a.c', 'a:b', '(a:(b))', '[^{/]+d']
RX_TEXTS = ['', 'a', 'b', 'c', 'ab', 'abc', 'abcd', 'a)b', '(a', '(a)', 'ad', 'bd', 'cd', '()', ' a', 'a ', '\\a', 'a\\b', 'a\\', 'abab', 'axc', 'a:b', 'ab)', 'acd', 'bcd', 'xd']
NAMES = ['x', '_', 'x1', '_a_b', 'nимя', 'e_é9', 'u²ï_cödé', 'X', 'kw']


def ev_regex(case):
    """a regular expression in a rule reaches the filter as it is written, in every spelling of the wildcard"""
    import ombott, re
    rx, name, spell = case
    rule = '/r/' + {0: '{%s:re(%s)}', 1: '<%s:re(%s)>', 2: '{%s.re(%s)}', 3: '<%s.re(%s)>', 4: '{%s:re:%s}', 5: '<%s:re:%s>', 6: '{%s:re(%s)}/tail'}[spell] % (name, rx)
    app = ombott.Ombott()
    got = []
    app.route(rule, 'GET', lambda **kw: got.append(kw) or 'ok')
    for t in RX_TEXTS:
        del got[:]
        r = wsgi.call(app, wsgi.environ('/r/' + t + ('/tail' if spell == 6 else '')))
        m = re.match(rx, t)
        want = [{name: t}] if m and m.end() == len(t) else []
        if spell == 6 and m is None:
            m = re.match(rx, t + '/tail')
        if spell == 6 and re.match(rx, t + '/tail') and re.match(rx, t + '/tail').end() != len(t):
            want = []
        if got != want or r.code != (200 if want else 404):
            return f'rule {rule!r}, path {"/r/" + t!r}: called with {got!r}, expected {want!r} ({r.status!r})'


def gen_regex(tier, rng):
    for rx in RX:
        for k, n in enumerate(NAMES):
            for spell in range(7):
                if spell in (4, 5) and set(rx) & set('{}<>'):
                    continue
                yield rx, n, spell


BOUNDED = [
    B('resolve-exhaustive', gen_exh, ev_resolve, target='RadiRouter.add/resolve, RadiDict.get, FilterFactory, Parser',
      bound='all ordered pairs (thorough: triples) of an 18-rule universe, 5000 seeded triples, x 50 paths', exhaustive=True),
    B('resolve-random', gen_rand, ev_resolve, target='RadiRouter.add/resolve over generated rules in all syntax flavours',
      bound='seeded random rule sets of up to 8 rules x 25 paths'),
    B('wsgi-kwargs', gen_wsgi, ev_wsgi, target='Ombott.__call__ -> handler kwargs', bound='seeded random rule sets of up to 5 rules x 12 paths'),
    B('filter-pairs', lambda tier, rng: R.filter_pairs(), ev_pair, target='FilterFactory.make_filter', bound='380 ordered pairs of filters x 38 paths', exhaustive=True),
    B('one-handler-many-rules', gen_one_handler, ev_one_handler, target='RadiRouter._add, Route.set_method/add_method', bound='up to 3 registrations of one handler under rules of one pattern', exhaustive=True),
    B('filter-conversion-limits', gen_digits, ev_digits, target='FilterFactory int/float handlers', bound='digit strings up to 6000 digits'),
    B('regex-arguments', gen_regex, ev_regex, target='Parser, SymStream, find_pos_after_close_paren', bound='19 regular expressions x 9 names x 7 spellings x 26 paths', exhaustive=True),
    B('rejected-rule-leaves-no-trace', gen_dup, ev_dup, target='Route.parse_rule / RadiRouter._add', bound='5 rules with duplicate names'),
]

from ..contracts import radix as _c  # noqa: E402
from ..contracts import urls as _u, dispatch as _d  # noqa: E402
from ..contracts import tree as _t, parser as _p
PROOFS = [_c.GET, _t.SPLIT, _t.MERGE, _t.MOUNT, _t.SHAPE, _t.MATCH, _t.MAKE, _t.SET, _t.UNPACK, _d.RESOLVE, _u.GENERIC, _u.EACH, _u.NOFILTER, _u.REFUSED, _u.PARSE, _u.PARAMS, _u.INIT, *_p.PROOFS]
