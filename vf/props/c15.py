"""C15 cookies round-trip; forged signed cookies are never deserialised."""
import pickle, sys
from ..core import B
from .. import wsgi

LEVEL = 'proof'
HITS = []


def canary(*a):
    HITS.append('object built')
    return 'canary'


class Canary:
    def __reduce__(self):
        return canary, ()


_real = dict(loads=pickle.loads, load=pickle.load, Unpickler=pickle.Unpickler)


def _rec(name):
    def f(*a, **k):
        HITS.append(name)
        return _real[name](*a, **k)
    return f


class watch:
    """records every use of the unpickler by /repo code"""

    def __enter__(self):
        del HITS[:]
        self.undo = []
        for m in [pickle] + [m for n, m in sys.modules.items() if n.split('.')[0] == 'ombott']:
            for k, v in list(vars(m).items()):
                for n, r in _real.items():
                    if v is r:
                        self.undo.append((m, k, v))
                        setattr(m, k, _rec(n))
        return self

    def __exit__(self, *a):
        for m, k, v in self.undo:
            setattr(m, k, v)


LEGAL = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-.^_`|~:")


def quote(v):
    """a Cookie header value that SimpleCookie-style parsers read back as v (latin-1 text)"""
    if v and all(c in LEGAL for c in v):
        return v
    return '"' + ''.join('\\' + c if c in '"\\' else c if c in LEGAL or c in ' ()/<=>?@[]{}' else '\\%03o' % ord(c) for c in v) + '"'


def emitted(rs_headers):
    """what an RFC 6265 client stores: text before the first ';', split at the first '='"""
    jar = {}
    for n, v in rs_headers:
        if n == 'Set-Cookie':
            pair = v.split(';', 1)[0]
            k, _, val = pair.partition('=')
            jar[k.strip()] = val.strip()
    return jar


def read(om, header, name, secret, default='@absent'):
    app = om.Ombott()
    out = []

    def h():
        out.append(app.request.get_cookie(name, default, secret=secret))
        return 'x'
    app.route('/', 'GET', h)
    r = wsgi.call(app, wsgi.environ('/', HTTP_COOKIE=header))
    if r.escaped is not None or r.code != 200:
        raise AssertionError(f'{r.escaped!r} {r.status} {r.errors[-800:]}')
    return out[0]


def send(om, cookies):
    """[(name, value, secret, opts)] -> jar of the client"""
    app = om.Ombott()
    refused = []

    def h():
        for n, v, s, o in cookies:
            try:
                app.response.set_cookie(n, v, secret=s, **o)
            except Exception:
                if s is None and any(ord(c) < 32 or ord(c) == 127 for c in v) or len(repr(v)) > 1500:    # too long a value may be refused, never cut
                    refused.append(n)     # never set: http.cookies may refuse control characters
                else:
                    raise
        return 'x'
    app.route('/', 'GET', h)
    r = wsgi.call(app, wsgi.environ('/'))
    if r.escaped is not None or r.code != 200:
        raise AssertionError(f'set_cookie failed: {r.escaped!r} {r.status} {r.errors[-800:]}')
    return None if refused else emitted(r.headers)


def ev_round(case):
    import ombott
    cookies = case
    try:
        jar = send(ombott, cookies)
        if jar is None:
            return None
        want = {n: (v, s) for n, v, s, o in cookies}
        if set(jar) != set(want):
            return f'{cookies!r}: client got cookies {sorted(jar)}'
        for order in (list(jar), list(jar)[::-1]):
            header = '; '.join(f'{k}={jar[k]}' for k in order)
            for n, (v, s) in want.items():
                got = read(ombott, header, n, s)
                if repr(got) != repr(v):
                    return f'{cookies!r}: {n} read back as {got!r} (secret {s!r}) from {header!r}'
            if read(ombott, header, 'not-there', None) != '@absent':
                return f'{cookies!r}: an unset cookie is there'
    except AssertionError as e:
        return f'{cookies!r}: {e}'


NAMES = ['a', 'A', 'sid', 'x-y', 'a.b', "a!#$%&'*+-.^_`|~9", 'c:d', '0', 'n' * 50]
TEXTS = ['', 'a', ' ', 'a b', 'a;b', 'a=b', 'a,b', '"', '""', '"a"', "'", '\\', '\\073', '\\"', 'é', '日本', '\U0001f600', '\r\n', '\t', '\0', '\x7f', '\x80', '\xff', 'Ã©', ' a', 'a ', '%20', '+', '?', '!', '!a?b', '!?', '/', '=', '==', ':', '&amp;', '{}', 'a' * 4000,
         '\\303\\251', 'expires=1; path=/', '$Version', 'a"b;c', '[1]', '<b>', '1/2', '\x1b', '\u2028', '|', '@absent2', '0', 'None']
OBJS = ['', 'text', 'é;"', 0, 1, -1, 1.5, True, False, None, [], [1, [2, {'a': (3, 'é')}]], {}, {'k': b'\x00\xff', 'd': {'e': frozenset([1])}}, b'', b'!\r\n;', (1,), {1, 2}, 'x' * 1000, range(3), 10**50, complex(1, 2)]
SECRETS = ['k', 'secret', 'é日', ' ', 'a;b', 'x' * 100, '?', '!', '0']


def gen_round(tier, rng):
    for n in NAMES:
        for t in TEXTS:
            yield [(n, t, None, {})]
    for s in SECRETS:
        for n in ('a', 'x-y', 'c:d'):
            for o in OBJS:
                yield [(n, o, s, {})]
    for t in TEXTS:
        yield [('a', t, 'k', {}), ('b', t, None, {})] if len(t) < 2000 else [('a', 'z', 'k', {})]
        yield [('a', t, None, dict(path='/', max_age=5, httponly=True, secure=True, expires=0))]
        yield [('a', 'first', None, {}), ('a', t, None, {})]
        yield [('a', '1', None, {}), ('b', t, None, {}), ('c', '3', None, {})]
    for n in (4094, 4095, 4096, 4097, 4098, 5000, 20000):
        for t in ('a' * n, 'é' * (n // 2), ' b' * (n // 2), 'a' * (n - 1) + '"', 'a' * (n - 1) + ';'):
            yield [('a', t, None, {})]
            yield [('a', t[:n // 2], 'k', {}), ('b', 'x', None, {})]
            yield [('a', t, 'k', {})]
    for c in range(0x100):
        yield [('a', 'x' + chr(c) + 'y', None, {})]
        yield [('a', chr(c), None, {})]
    al = ['a', '"', '\\', ';', ',', '=', ' ', 'é', '0', '7', '3', '\U0001f600', '!', '?', '\n', '\xff']
    for _ in range(1500 if tier == 'quick' else 40000):
        yield [(rng.choice(NAMES), ''.join(rng.choice(al) for _ in range(rng.randint(0, 8))), None, {}),
               ('other', rng.choice(OBJS), rng.choice(SECRETS), {})]


def ev_foreign(case):
    """cookies of others in the same header do not hide the ones that were set"""
    import ombott
    junk, pos = case
    try:
        jar = send(ombott, [('sid', 'a b;c', None, {}), ('tok', ['x', 1], 'k', {})])
        parts = [f'{k}={v}' for k, v in jar.items()]
        parts.insert(pos, junk)
        header = '; '.join(parts)
        for n, v, s in (('sid', 'a b;c', None), ('tok', ['x', 1], 'k')):
            got = read(ombott, header, n, s)
            if got != v:
                return f'{n} read back as {got!r} from {header!r}'
    except AssertionError as e:
        return f'{junk!r}: {e}'


def gen_foreign(tier, rng):
    for j in ('g=', 'a@b=1', 'a/b=1', '{x}=1', 'a(b)=2', 'a?b=1', 'a<b>=1', 'a=b=c', 'g=1,2', 'g="x y"'):
        for pos in (0, 1, 2):
            yield j, pos


def forge(om, value, header_name, secret, orig, what):
    """the altered cookie reads as absent and nothing is deserialised"""
    if value == orig:
        return None
    with watch():
        try:
            got = read(om, f'{header_name}={quote(value)}', header_name, secret)
        except AssertionError as e:
            return f'{what}: reading {value!r}: {e}'
        if got != '@absent':
            return f'{what}: {value!r} reads as {got!r}'
        if HITS:
            return f'{what}: {value!r} was deserialised ({HITS})'


def signed(om, name, obj, secret):
    from http.cookies import SimpleCookie
    jar = send(om, [(name, obj, secret, {})])
    v = SimpleCookie(f'{name}={jar[name]}')[name].value
    with watch():
        got = read(om, f'{name}={quote(v)}', name, secret)
        if got == '@absent' or not HITS:
            raise AssertionError(f'genuine cookie {v!r} not read: {got!r}')
    return v


SUBS = "Aa0+/=!?\x80\xff\x00 ;\"\\B"


def ev_forge(case):
    import ombott
    kind, obj, secret, pos = case
    obj = Canary() if obj == '@canary' else obj
    v = signed(ombott, 'c', obj, secret)
    what = f'signed {obj!r} with {secret!r}'
    i = pos % len(v) if pos is not None else 0
    if kind == 'sub':
        for ch in SUBS + chr((ord(v[i]) + 1) % 256) + chr(ord(v[i]) ^ 0x20) + chr(ord(v[i]) ^ 1):
            e = forge(ombott, v[:i] + ch + v[i + 1:], 'c', secret, v, what)
            if e:
                return e
    elif kind == 'sub256':
        for ch in range(256):
            e = forge(ombott, v[:i] + chr(ch) + v[i + 1:], 'c', secret, v, what)
            if e:
                return e
    elif kind == 'del':
        return forge(ombott, v[:i] + v[i + 1:], 'c', secret, v, what)
    elif kind == 'ins':
        for ch in 'A=!?\n ':
            e = forge(ombott, v[:i] + ch + v[i:], 'c', secret, v, what)
            if e:
                return e
    elif kind == 'trunc':
        return forge(ombott, v[:i], 'c', secret, v, what) or forge(ombott, v[i:] if i else '', 'c', secret, v, what)
    elif kind == 'swap2':
        return forge(ombott, v[:i] + v[i + 1:i + 2] + v[i] + v[i + 2:], 'c', secret, v, what)
    elif kind == 'mix':
        w = signed(ombott, 'c', ['other', Canary()], secret)
        u = signed(ombott, 'c', obj, secret + 'x')
        s1, m1 = v.split('?', 1)
        s2, m2 = w.split('?', 1)
        s3, m3 = u.split('?', 1)
        for f in (s1 + '?' + m2, s2 + '?' + m1, s3 + '?' + m1, s3 + '?' + m3, '!?' + m1, '?' + m1, m1, s1, s1 + '?', '!' + m1 + '?' + s1[1:], s1 + '??' + m1, s1 + '?' + m1 + '?' + m1, '!' + s1 + '?' + m1, s1[:-2] + '?' + m1, s1 + s1[1:] + '?' + m1,
                  s1 + '?' + m1 * 2, s1.lower() + '?' + m1, s1 + '?' + m1.lower(), v + v, v + '=', v + '\0', '!' * 5, '', '!', '?', '!?', s1[:5] + '?' + m1, s1[:1 + 2] + '?' + m1, s1 + '=' + '?' + m1, s1[:len(s1) // 2] + '?' + m1):
            e = forge(ombott, f, 'c', secret, v, what)
            if e:
                return e
        for name in ('C', 'cc', 'b', 'c.', 'cookie'):
            app_jar = f'{name}={quote(v)}'
            got = read(ombott, app_jar, name, secret)
            if got != '@absent':
                return f'{what}: the value of cookie c sent as {name!r} reads as {got!r}'
        for other in (secret + ' ', secret[:-1] + '\x01', secret.upper() if secret.upper() != secret else secret.lower(), secret * 2, 'x' + secret, secret[:-1], 'c', '!'):
            if other and other != secret and len(other) <= 60:
                e = forge(ombott, v, 'c', other, None, what + f' read with {other!r}')
                if e:
                    return e
    elif kind == 'md5':
        # signatures an attacker can compute without the secret
        import base64, hashlib, hmac
        s, m = v.split('?', 1)
        for d in (hashlib.md5(m.encode()).digest(), hmac.new(b'', m.encode(), hashlib.md5).digest(), hmac.new(b'c', m.encode(), hashlib.md5).digest(), b'', b'\0' * 16, hashlib.sha256(m.encode()).digest()):
            e = forge(ombott, '!' + base64.b64encode(d).decode() + '?' + m, 'c', secret, v, what)
            if e:
                return e


def gen_forge(tier, rng):
    objs = ['@canary', 'x', ['a', {'b': 1}]]
    for o in objs:
        for s in ('k', 'sécret'):
            for pos in range(0, 130):
                yield 'sub', o, s, pos
            for k in ('del', 'ins', 'trunc', 'swap2'):
                for pos in range(0, 130):
                    yield k, o, s, pos
            yield 'mix', o, s, None
            yield 'md5', o, s, None
    for s in SECRETS:
        yield 'mix', '@canary', s, None
    if tier == 'thorough':
        for pos in range(0, 130):
            yield 'sub256', '@canary', 'k', pos


def ev_unsigned(case):
    """text that nobody signed never reads as a signed cookie"""
    import ombott
    return forge(ombott, case, 'c', 'k', None, 'unsigned text')


def gen_unsigned(tier, rng):
    yield from [t for t in TEXTS if all(ord(c) < 256 for c in t)]
    for _ in range(600 if tier == 'quick' else 20000):
        yield ''.join(rng.choice('!?=A/+a0\xff\n gASV') for _ in range(rng.randint(0, 40)))
    import base64
    m = base64.b64encode(pickle.dumps(('c', Canary()))).decode()
    for p in ('!', '!?', '!A?', '!' + 'A' * 22 + '==?', '?', '', '!=?'):
        yield p + m


BOUNDED = [
    B('round-trip', gen_round, ev_round, target='BaseResponse.set_cookie/headerlist, PropsMixin.cookies/get_cookie, cookie_encode/cookie_decode', bound='9 names x 52 texts, 22 objects x 9 secrets x 3 names, every character below U+0100, multi-cookie responses, seeded random texts over 16 special characters'),
    B('among-others', gen_foreign, ev_foreign, target='PropsMixin.cookies/get_cookie', bound='10 foreign cookies, some with names that are not tokens, at 3 places of the Cookie header', exhaustive=True),
    B('forgery', gen_forge, ev_forge, target='cookie_decode, get_cookie (unpickler instrumented)', bound='3 payloads x 2 secrets: every position x 19 substitutions, deletion, 6 insertions, truncation at either end, transposition; signature/payload recombinations', exhaustive=True),
    B('unsigned-text', gen_unsigned, ev_unsigned, target='cookie_decode, get_cookie (unpickler instrumented)', bound='plain texts and seeded random texts'),
]

from ..contracts import cookies as _c, query as _q  # noqa: E402
PROOFS = _c.PROOFS + [_q.CHANGED]
