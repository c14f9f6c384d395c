"""C18 query strings and urlencoded forms decode to what was sent."""
import itertools
from urllib.parse import quote, quote_plus, unquote
from ..core import B
from .. import wsgi

LEVEL = 'proof'


def spec_pairs(qs):
    """reference reading of a urlencoded string (only segments with a non-empty key)"""
    out = []
    for seg in qs.split('&'):
        k, _, v = seg.partition('=')
        if k:
            out.append((unquote(k.replace('+', ' ')), unquote(v.replace('+', ' '))))
    return out


def group(pairs):
    d = {}
    for k, v in pairs:
        d.setdefault(k, []).append(v)
    return {k: (v[0] if len(v) == 1 else v) for k, v in d.items()}


def parse_all(qs):
    from ombott.request_pkg.helpers import parse_qsl
    d = {}
    parse_qsl(qs, setitem=d.__setitem__)
    lst = []
    parse_qsl(qs, append=lst.append)
    ret = parse_qsl(qs)
    return d, lst, ret


def ev_raw(case):
    """every string terminates without raising; segments with a key are decoded exactly"""
    qs, = case
    d, lst, ret = parse_all(qs)
    if any(seg.startswith('=') for seg in qs.split('&')):
        return None        # empty keys are outside the property (totality only)
    want = spec_pairs(qs)
    if lst != want or ret != want:
        return f'parse_qsl({qs!r}) = {lst!r} / {ret!r}, expected {want!r}'
    if d != group(want):
        return f'parse_qsl({qs!r}, setitem) = {d!r}, expected {group(want)!r}'


def gen_raw(tier, rng):
    al = 'a=&+%4'
    for n in range(0, 7 if tier == 'quick' else 9):
        for t in itertools.product(al, repeat=n):
            yield ''.join(t),
    for _ in range(5000 if tier == 'quick' else 100000):
        yield ''.join(rng.choice('ab=&+%4E9;é \x00\r\n\ud800=&&=%%2') for _ in range(rng.randint(1, 30))),


ENC = [lambda s: quote_plus(s), lambda s: quote(s, safe=''), lambda s: quote(s, safe='').replace('%20', '+'),
       lambda s: quote_plus(s).lower() if '%' in s else quote_plus(s), lambda s: ''.join('%%%02x' % b for b in s.encode('utf8'))]


def encode(pairs, enc, blank):
    f = ENC[enc]
    return '&'.join(f(k) + ('' if (v == '' and blank) else '=' + f(v)) for k, v in pairs)


def ev_pairs(case):
    """encode -> Request.query / forms / params"""
    import ombott
    from ombott.request_pkg import Request
    pairs, enc, blank, pairs2 = case
    if enc == 3 and any(c.isupper() for p in pairs for s in p for c in s):
        enc = 0
    qs = encode(pairs, enc, blank)
    body = encode(pairs2, enc if enc != 3 else 0, blank)
    r = Request(wsgi.environ('/', 'POST', body=body.encode('latin1'), qs=qs, CONTENT_TYPE='application/x-www-form-urlencoded',
                             CONTENT_LENGTH=str(len(body))))
    q = r.query
    if dict(q) != group(pairs):
        return f'query of {qs!r} is {dict(q)!r}, sent {pairs!r}'
    f = r.forms
    if dict(f) != group(pairs2):
        return f'forms of {body!r} is {dict(f)!r}, sent {pairs2!r}'
    if dict(r.POST) != group(pairs2):
        return f'POST of {body!r} is {dict(r.POST)!r}, sent {pairs2!r}'
    p = dict(r.params)
    want = {**group(pairs), **group(pairs2)}
    if p != want:
        return f'params is {p!r}, expected {want!r}'
    if r.files:
        return f'files {r.files!r}'
    d, lst, ret = parse_all(qs)
    if lst != list(pairs) or ret != list(pairs):
        return f'parse_qsl({qs!r}) = {lst!r}, sent {pairs!r}'


def ev_changed(case):
    """an application that puts another query string or body into the request reads that one"""
    import io
    from ombott.request_pkg import Request
    first, second, what, reads = case
    qs = [encode(p, 0, False) for p in (first, second)]
    if qs[0] == qs[1]:
        return None
    kw = dict(CONTENT_TYPE='application/x-www-form-urlencoded')
    if what == 'query':
        r = Request(wsgi.environ('/', 'GET', qs=qs[0]))
    else:
        n = max(map(len, qs))
        r = Request(wsgi.environ('/', 'POST', body=qs[0].encode('latin1'), **{**kw, 'CONTENT_LENGTH': str(n)}))
    for x in reads:
        getattr(r, x)
    if what == 'query':
        r['QUERY_STRING'] = qs[1]
        want = dict(query=group(second), params=group(second), GET=group(second), forms={})
    else:
        r['wsgi.input'] = io.BytesIO(qs[1].encode('latin1'))
        want = dict(forms=group(second), POST=group(second), params=group(second), query={})
    for x in want:
        if dict(getattr(r, x)) != want[x]:
            return f'{what} {qs[0]!r} replaced by {qs[1]!r} after reading {reads!r}: {x} is {dict(getattr(r, x))!r}'


def gen_changed(tier, rng):
    lists = [(), (('a', '1'),), (('a', '2'), ('a', '3')), (('b', 'é+'), ('a', ''))]
    for a, b in itertools.permutations(lists, 2):
        for what, props in (('query', ('query', 'params', 'GET')), ('body', ('forms', 'POST', 'params', 'body'))):
            for n in range(0, 3):
                for reads in itertools.permutations(props, n):
                    yield a, b, what, reads


KEYS = ['a', 'b', 'é', 'k=1', '&', '+', '%', ' ', '日本', 'a&b=c', '\x00', 'self', 'a.b', '%41', 'copy', '\U0001f600', 'k\r\n']
VALS = ['', 'v', '=', '&', '+', '%', ' ', 'é', 'a=b&c', '%2B', '日本語', '\U0001f600', '\r\n', '\x00', '0', 'a;b']


def gen_pairs(tier, rng):
    for n in (0, 1, 2):
        for ks in itertools.product(KEYS[:9], repeat=n):
            for vs in itertools.product(VALS[:6], repeat=n):
                yield tuple(zip(ks, vs)), 0, bool(len(ks) % 2), ()
    for k in KEYS:
        for v in VALS:
            for e in range(len(ENC)):
                yield ((k, v), ('z', '')), e, True, ((k, v), (k, 'w'))
    for _ in range(4000 if tier == 'quick' else 60000):
        def mk():
            ks = rng.sample(KEYS, rng.randint(1, 4))
            return tuple((rng.choice(ks), rng.choice(VALS) + rng.choice(['', rng.choice(VALS)])) for _ in range(rng.randint(0, 8)))
        yield mk(), rng.randrange(len(ENC)), rng.random() < .5, mk()


BOUNDED = [
    B('raw-strings', gen_raw, ev_raw, target='parse_qsl', bound="all strings over 'a=&+%4' up to length 6 (thorough 8), plus random up to 30", exhaustive=True),
    B('replaced', gen_changed, ev_changed, target='BaseRequest.__setitem__/_on_env_changed, Request.query/forms/params', bound='4 pair lists replaced by one another after every order of up to 2 reads', exhaustive=True),
    B('pairs-roundtrip', gen_pairs, ev_pairs, target='parse_qsl, Request.query/forms/POST/params', bound='pair lists up to length 8 over 17 keys and 16 values, 5 encoders'),
]

from ..contracts import query as _c  # noqa: E402
PROOFS = _c.C18
