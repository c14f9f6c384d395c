"""C19 building a URL from matched parameters leads back to the same match."""
import itertools, math
from ..core import B
from .. import rules as R
from ..rules import L, W

LEVEL = 'other'


def ev(case):
    from ombott.router.radirouter import RadiRouter
    elems, flav, paths = case
    router = RadiRouter()
    def h(**kw):
        pass
    router.add(R.render(elems, flav), 'GET', h)
    route = router[{R.render(elems, flav)}]
    for p in paths:
        sp = p.strip('/')
        vals = R.match(elems, sp)
        if vals is None:
            continue
        nm = R.names(elems)
        args = [v for n, v in zip(nm, vals) if n is None]
        kw = {n: v for n, v in zip(nm, vals) if n is not None}
        try:
            url = route.url(*args, **kw)
        except Exception as ex:
            return f'rule {R.render(elems, flav)!r}: path {sp!r} gives {vals!r}, url() raises {ex!r}'
        if not isinstance(url, str):
            return f'url() returned {url!r}'
        # the built path, read by the rule itself (not normalised) and by the router
        back = R.match(elems, url.lstrip('/') if sp and not sp.startswith('/') and url.startswith('/') else url)
        if back != vals:
            return f'rule {R.render(elems, flav)!r}: path {sp!r} -> {vals!r} -> url {url!r} -> {back!r}'
        ep, err = router.resolve('/' + url, ['GET'])
        if url == url.strip('/'):
            if ep is None:
                return f'rule {R.render(elems, flav)!r}: url {url!r} is not matched by the router'
            if ep[1] != kw:
                return f'rule {R.render(elems, flav)!r}: path {sp!r} -> {kw!r} -> url {url!r} -> {ep[1]!r}'
        # literal parts verbatim and in order
        i = 0
        rest = url
        for e in elems:
            if e[0] == 'l':
                j = rest.find(e[1])
                if j < 0:
                    return f'literal {e[1]!r} missing in {url!r} (rule {R.render(elems, flav)!r})'
                rest = rest[j + len(e[1]):]
        if elems and elems[0][0] == 'l' and not url.startswith(elems[0][1]):
            return f'url {url!r} does not start with {elems[0][1]!r}'
        if elems and elems[-1][0] == 'l' and not url.endswith(elems[-1][1]):
            return f'url {url!r} does not end with {elems[-1][1]!r}'


SEGW = [W('x'), W('n', 'int'), W('f', 'float'), W('r', 're', '[^/]+'), W('d', 're', r'\d{2}'), W('e', 're', 'a*'), W('p', 'path'), W(None, 'int'),
        W('la', 're', 'a(?=-)'), W('s', 're', '^[ab]+'), W('o', 're', '(x|y)?'), W('eol', 're', '[ab]+$'), W('wb', 're', r'\w+\b')]
LITS = ['a', 'a/b', 'ab-', 'é']


def paths_for(elems, rng, n):
    out = set()
    FILL = {'int': ['1', '4294967296', '-1' + '0' * 20, '007', '-12', '٣'], 'float': ['1.5', '2', '-0.25', '1' + '0' * 16, '0.00001', '1e5', '123456789012345678', '0.1', '-0', '1' + '0' * 22 + '.5'],
            'path': ['a', 'a/b', 'x//y', 'a-b/c', 'b', 'a#b', 'q?x=1&y/%2F'], 're': ['a', 'aa', '12', '', 'ab', 'x', 'y', 'b', 'é'],
            None: ['v', '', 'a b', 'é', '1', '%41', '#', 'a?b', 'x&y=z', 'p+q', '%', '~;,@:!$\'()*', '<b>', '\\', '"', '|', '\x01', '..', '.']}
    for _ in range(n):
        out.add('/' + ''.join(e[1] if e[0] == 'l' else rng.choice(FILL[e[2]]) for e in elems))
    return tuple(sorted(out))


def ok(elems):
    ns = [n for n in R.names(elems) if n]
    if len(ns) != len(set(ns)):
        return False
    try:
        R.render(elems)
    except R.Bad:
        return False
    return not known(elems)


def known(elems):
    """the known finding: a path wildcard looks ahead for a literal that the new text of a number behind it may contain"""
    return any(e[0] == 'w' and e[2] == 'path' and any(c in '-.0123456789' for c in R.tail_literal(elems, k)) and
               any(x[0] == 'w' and x[2] in ('int', 'float') for x in elems[k + 1:]) for k, e in enumerate(elems))


KNOWN = [((W('p', 'path'), L('.'), W('f', 'float')), 0, ('/a.7',)),
         ((W('p', 'path'), L('.'), W('x', 're', '[^/]+'), L('/'), W('f', 'float')), 0, ('/b.x/2',)),
         ((W('p', 'path'), L('11'), W('n', 'int')), 0, ('/a1101',)),
         ((W('a', 're', 'x/7|x'), L('/'), W('n', 'int')), 0, ('/x/07',))]


def key(case, msg):
    return 'C19 look-ahead ' + R.render(case[0]) + ' ' + case[2][0] if len(case[2]) == 1 else None


NEAR = ['.', '-', '.5', '.0', '0', '-0', 'a', '/', '1', '.-', '-.', 'x', '..', '.a', '/.', '5/']
KINDS = [lambda n: W(n), lambda n: W(n, 'int'), lambda n: W(n, 'float'), lambda n: W(n, 're', '[^/]+'), lambda n: W(n, 'path'),
         lambda n: W(n, 're', '[a-z]+'), lambda n: W(n, 're', '[^./]+'), lambda n: W(n, 're', r'\w+')]
NUMS = {'int': ['1234567890', '-98765432109876543210', '1' + '0' * 40, '1', '007', '-12', '-0', '0', '00', '10', '-01'],
        'float': ['1.5', '2', '-0.25', '1' + '0' * 16, '0.00001', '-0', '1' + '0' * 22 + '.5', '07', '7.0', '0.50', '00.5', '5'],
        'path': ['a', 'a/b', 'x.y', 'a-b', 'a.5', 'a0', '.', '-', '0', 'a1'], 're': ['a', 'x', '0', '5', '.', '-'], None: ['v', 'a b', '1', '.5', '-']}


def gen_near(tier, rng):
    """literals a number could be confused with, right before and behind numbers"""
    for _ in range(6000 if tier == 'quick' else 60000):
        e = []
        for i in range(rng.randint(1, 3)):
            if rng.random() < .7 or e and e[-1][0] == 'w':
                e.append(L(rng.choice(NEAR)))
            e.append(rng.choice(KINDS)('abc'[i]))
        if rng.random() < .5:
            e.append(L(rng.choice(NEAR)))
        if e[0][0] == 'l' and e[0][1].startswith('/') or e[-1][0] == 'l' and e[-1][1].endswith('/') or not ok(e):
            continue
        yield tuple(e), 0, tuple('/' + ''.join(x[1] if x[0] == 'l' else rng.choice(NUMS[x[2]]) for x in e) for _ in range(8))


def gen_exh(tier, rng):
    for a in SEGW:
        for pre, mid in itertools.product([None] + LITS, LITS + [None, '/', '/x/', '-']):
            for b in [None] + SEGW:
                for post in (None, '/end', '-z'):
                    e = []
                    if pre is not None:
                        e.append(L(pre + '/'))
                    e.append(a)
                    if mid is not None:
                        e.append(L(mid))
                    elif b is not None and b[2] is None:
                        pass
                    if b is not None:
                        e.append(b)
                    if post is not None:
                        if e[-1][0] == 'l':
                            e[-1] = L(e[-1][1] + post)
                        else:
                            e.append(L(post))
                    if e[-1][0] == 'l' and e[-1][1].endswith('/') or (e[0][0] == 'l' and e[0][1].startswith('/')):
                        continue
                    e = tuple(e)
                    if ok(e):
                        yield e, 0, paths_for(e, rng, 12)


def gen_rand(tier, rng):
    for _ in range(8000 if tier == 'quick' else 80000):
        e = R.rand_rule(rng)
        if ok(e):
            yield e, rng.randrange(64), paths_for(e, rng, 10) + tuple(R.rand_path(rng, [e]) for _ in range(10))


def ev_float(case):
    """every float a float wildcard can produce survives url() -> match"""
    from ombott.router.radirouter import RadiRouter
    text, = case
    r = RadiRouter()
    r.add('/f/<v:float>', 'GET', lambda v: None)
    ep, err = r.resolve('/f/' + text, ['GET'])
    if ep is None:
        return None
    v = ep[1]['v']
    route = r[{'/f/<v:float>'}]
    try:
        url = route.url(v=v)
    except Exception as ex:
        return f'float {text[:40]!r} -> {v!r}, url() raises {ex!r}'
    ep2, err = r.resolve('/' + url, ['GET'])
    if ep2 is None or ep2[1]['v'] != v:
        return f'float {text[:40]!r} -> {v!r} -> url {url[:60]!r} -> {ep2!r}'


def gen_float(tier, rng):
    for s in ['0', '-0', '1.0', '10' * 10, '1' + '0' * 300, '9' * 400, '0.' + '0' * 30 + '1', '0.' + '0' * 330 + '1', '1.7976931348623157' + '0' * 5]:
        yield s,
        yield '-' + s,
    for _ in range(3000 if tier == 'quick' else 50000):
        a = ''.join(rng.choice('0123456789') for _ in range(rng.choice([1, 2, 5, 17, 25, 60])))
        b = ''.join(rng.choice('0123456789') for _ in range(rng.choice([1, 2, 5, 17, 25, 60])))
        z = '0' * rng.choice([0, 0, 4, 10, 40])
        yield rng.choice(['', '-']) + a + rng.choice(['', '.' + z + b]),


def ev_int(case):
    """every integer an int wildcard can produce survives url() -> match"""
    from ombott.router.radirouter import RadiRouter
    text, = case
    r = RadiRouter()
    r.add('/f/<v:int>', 'GET', lambda v: None)
    ep, err = r.resolve('/f/' + text, ['GET'])
    if ep is None:
        return None
    v = ep[1]['v']
    try:
        url = r[{'/f/<v:int>'}].url(v=v)
    except Exception as ex:
        return f'int {text[:40]!r} -> {v!r}, url() raises {ex!r}'
    ep2, err = r.resolve('/' + url, ['GET'])
    if ep2 is None or ep2[1]['v'] != v:
        return f'int {text[:40]!r} -> {v!r} -> url {url[:60]!r} -> {ep2!r}'


def gen_int(tier, rng):
    for n in list(range(-300, 301)) + [s * (b ** k + d) for s in (1, -1) for b in (2, 10) for k in range(1, 70) for d in (-1, 0, 1)]:
        yield str(n),
    for n in (0, 5, 10 ** 9, 10 ** 20):
        for z in (1, 3, 50):
            yield '0' * z + str(n),
            yield '-' + '0' * z + str(n),
    for k in (300, 4299, 4300, 4301, 9000):
        yield '9' * k,
        yield '-' + '1' * k,
    for _ in range(500):
        yield rng.choice(['', '-']) + ''.join(rng.choice('0123456789') for _ in range(rng.choice([3, 9, 10, 16, 17, 20, 60]))),
    yield '\u0661\u0662',
    yield '-\u0663',


def ev_pair(case):
    """two rules whose filters differ little, registered one after the other in one process"""
    from ombott.router.radirouter import RadiRouter
    router = RadiRouter()
    rs = R.pair_rules(*case)
    for e in rs:
        router.add(R.render(e, 2), 'GET', lambda **kw: kw)
    for e in rs:
        for t in R.PAIR_TEXTS:
            vals = R.match(e, e[0][1] + t)
            if vals is None:
                continue
            try:
                url = router[{R.render(e, 2)}].url(x=vals[0])
            except Exception as ex:
                return f'rules {[R.render(r, 2) for r in rs]!r}: {R.render(e, 2)!r} gives {vals!r} for {t!r}, url() raises {ex!r}'
            if R.match(e, url) != vals:
                return f'rules {[R.render(r, 2) for r in rs]!r}: {vals!r} -> url {url!r}'
            ep, _ = router.resolve('/' + url, ['GET'])
            if not t.endswith((' ', '/')) and (ep is None or ep[1] != {'x': vals[0]}):
                return f'rules {[R.render(r, 2) for r in rs]!r}: {vals!r} -> url {url!r} -> {ep!r}'


BOUNDED = [
    B('url-roundtrip-exhaustive', gen_exh, ev, target='Route.url + RadiRouter.resolve', bound='prefix? wildcard literal? wildcard? suffix? over 13 wildcard kinds x 12 paths', exhaustive=False),
    B('url-roundtrip-random', gen_rand, ev, target='the same', bound='seeded random rules x 20 paths'),
    B('url-roundtrip-near-numbers', gen_near, ev, target='the same', bound='seeded rules of up to 3 wildcards with literals a number could be confused with x 8 paths'),
    B('filter-pairs', lambda tier, rng: R.filter_pairs(), ev_pair, target='FilterFactory.make_filter', bound='380 ordered pairs of filters x 19 values', exhaustive=True),
    B('look-ahead', lambda tier, rng: KNOWN, ev, target='the same', bound='the inputs of the known finding', key=key),
    B('int-values', gen_int, ev_int, target='int filter formatter', bound='-300..300, around powers of 2 and 10 up to 10^69, up to 9000 digits, leading zeros, other decimal digits'),
    B('float-values', gen_float, ev_float, target='float filter formatter', bound='seeded digit strings up to 400 digits'),
]

from ..contracts import urls as _c, parser as _p  # noqa: E402
PROOFS = [*_c.PROOFS, *_p.PROOFS]
