"""Contracts of cookie signing, verification and access (C15)."""
from ..pyvc.facade import *

H = 'ombott.common_helpers'
B64 = z3.Function('b64encode', St, St)
UNB64 = z3.Function('b64decode', St, St)
B64OK = z3.Function('b64_decodable', St, Bo)
MAC = z3.Function('hmac', St, St, St)
ASCII = z3.Star(z3.Range(z3.StringVal('\\u{0}'), z3.StringVal('\\u{7f}')))


def byts(x, what):
    if not (isinstance(x, (SStr, bytes)) and kind_of(x) == 'bytes'):
        throw(TypeError(what))
    return lift(x).z


def crypto(v):
    """base64, hmac and pickle seen through uninterpreted functions; every unpickling is recorded"""
    loads = []

    def enc(x, *a):
        r = B64(byts(x, 'b64encode'))
        v.add(UNB64(r) == lift(x).z)
        v.add(B64OK(r))
        v.add(z3.InRe(r, ASCII))
        v.add(z3.InRe(r, BYTES_RE))
        for c in '?!;,"\\ \r\n\0':
            v.add(Not(z3.Contains(r, sval(c))))
        return SStr(r, 'bytes')

    def dec(x, *a, **k):
        z = lift(x).z
        if not v.split(B64OK(z)):
            v.throw(ValueError('base64'))
        r = UNB64(z)
        v.add(z3.InRe(r, BYTES_RE))
        return SStr(r, 'bytes')

    def mac(key, msg=None, digestmod=''):
        st = dict(m=byts(msg, 'hmac') if msg is not None else sval(''))
        k = byts(key, 'hmac key')
        v.check('a keyed hash of the standard library', callable(digestmod) or isinstance(digestmod, str) and bool(digestmod))

        def digest():
            r = MAC(k, st['m'])
            v.add(z3.InRe(r, BYTES_RE))
            return SStr(r, 'bytes')

        def update(x):
            st['m'] = z3.Concat(st['m'], byts(x, 'hmac'))
        return v.obj('hmac', digest=digest, update=update, inline=False)

    def same(a, b):
        return a == b

    def load(x, *a, **k):
        loads.append(byts(x, 'loads'))
        r = v.obj('unpickled')
        got[id(r)] = r
        return r
    got = {}
    pickled = []

    def dump(o, *a, **k):
        s = v.fresh_str('pickle', 'bytes')
        pickled.append((o, s))
        return s

    def no(*a, **k):
        raise Unsupported('another pickle entry point')
    mods = dict(base64=v.obj('base64', b64encode=enc, b64decode=dec, inline=False),
                hmac=v.obj('hmac module', new=mac, compare_digest=same, inline=False),
                pickle=v.obj('pickle', loads=load, dumps=dump, load=no, Unpickler=no, inline=False))
    for n, m in mods.items():
        v.stub(n, m)

    def total(comp):
        """sum over zip(a, b) of a comparison, by its element"""
        z = comp.src
        if not (isinstance(z, SColl) and len(z.attrs.get('parts', ())) == 2):
            raise Unsupported('sum')
        a, b = z.attrs['parts']
        x, y = (SInt(v.fresh_int(n, 0)) for n in 'xy')
        r = comp.probe((x, y))
        s = v.fresh_int('sum', 0)
        if len(r) == 1:
            if v.e.check('the comparison counts differing bytes', And(as_int(r[0]) >= 0, (as_int(r[0]) == 0) == (x.z == y.z)), inductive=True):
                m = v.fresh_int('shorter', 0)
                la, lb = z3.Length(a.z), z3.Length(b.z)
                v.add(m == If(la < lb, la, lb))
                v.add((s == 0) == (z3.SubString(a.z, 0, m) == z3.SubString(b.z, 0, m)))
        return SInt(s)
    v.e.hooks['sum'] = total
    v.trust('base64, hmac and pickle of the standard library (uninterpreted: b64decode(b64encode(x)) = x, base64 text is ASCII without ?)')
    v.assumption('a MAC is unforgeable: without the key nobody finds msg, sig with sig = HMAC(key, msg)')
    return loads, pickled


def decode(v):
    loads, _ = crypto(v)
    d = v.either('data', lambda: v.str('data'), lambda: v.bytes('data'))
    if d.kind == 'str':
        v.assume(ENCABLE8(d.z))
    key = v.str('secret')
    v.assume(ENCABLE8(key.z))
    v.assume(key.z != sval(''))
    o = v.call(v.fn(H + ':cookie_decode'), d, key)
    D = ENC8(d.z) if d.kind == 'str' else d.z
    K = ENC8(key.z)
    v.check('unpickled at most once', len(loads) <= 1)
    if loads:
        i = z3.IndexOf(D, sval('?'), 0)
        sig, msg = z3.SubString(D, 1, i - 1), z3.SubString(D, i + 1, z3.Length(D))
        v.check('deserialised only in the form !signature?payload', And(z3.PrefixOf(sval('!'), D), i >= 1))
        v.check('deserialised only with the right signature', sig == B64(MAC(K, msg)))
        v.check('deserialised is exactly the signed payload', loads[0] == UNB64(msg))
        v.cover('verified')
    else:
        v.check('otherwise absent', not o.ok or o.value is None)
        v.cover('absent')
    if not o.ok:
        # only a payload that was signed can be undecodable
        i = z3.IndexOf(D, sval('?'), 0)
        sig, msg = z3.SubString(D, 1, i - 1), z3.SubString(D, i + 1, z3.Length(D))
        v.check('a forged cookie never raises', And(z3.PrefixOf(sval('!'), D), i >= 1, sig == B64(MAC(K, msg))))


def encode_decode(v):
    loads, pickled = crypto(v)
    key = v.str('secret')
    v.assume(ENCABLE8(key.z))
    v.assume(key.z != sval(''))
    K = ENC8(key.z)
    data = v.obj('data')
    o = v.call(v.fn(H + ':cookie_encode'), data, key)
    v.check('encoding does not fail', o.ok)
    v.check('the value itself is pickled', len(pickled) == 1 and pickled[0][0] is data)
    P = pickled[0][1]
    r = lift(o.value)
    v.check('the form is !signature?payload', r.z == z3.Concat(sval('!'), B64(MAC(K, B64(P.z))), sval('?'), B64(P.z)))
    v.cover('encoded')
    back = v.either('as', lambda: r, lambda: SStr(r.z, 'str'))
    if back.kind == 'str':
        # ASCII text is its own UTF-8
        v.add(And(ENCABLE8(r.z), ENC8(r.z) == r.z))
    v.add(Not(z3.Contains(B64(MAC(K, B64(P.z))), sval('?'))))
    d = v.call(v.fn(H + ':cookie_decode'), back, key)
    v.check('what was signed is accepted with the same secret', d.ok and len(loads) == 1)
    if loads:
        v.check('and unpickled from the very bytes', loads[0] == P.z)
        v.cover('round trip')


def get_cookie(v):
    name, default = v.str('name'), v.obj('default', __bool__=lambda: False)
    present = v.case('present', True, False)
    raw = v.str('value')
    v.assume(z3.InRe(raw.z, BYTES_RE))
    secret = v.either('secret', lambda: None, lambda: v.str('secret'))
    if secret is not None:
        v.assume(secret.z != sval(''))
    calls = []
    ans = {}

    def dec(d, k):
        calls.append((d, k))
        ans['r'] = v.either('decoded', lambda: None, lambda: (v.str('signed name'), v.obj('signed value')))
        return ans['r']
    v.stub('cookie_decode', dec)
    v.contract('cookie_decode', dec)
    asked = []

    def get(k, d=None):
        asked.append(k)
        return raw if present else d
    jar = v.obj('cookies', inline=False, get=get)
    me = v.obj('request', cookies=jar)
    o = v.call(v.fn('ombott.request_pkg.props_mixin:PropsMixin.get_cookie'), me, name, default, secret)
    v.check('never raises', o.ok)
    v.check('the cookie of that name is read', len(asked) >= 1 and all(isinstance(k, SStr) and k.z.eq(name.z) for k in asked))
    if not present:
        v.check('an absent cookie gives the default', o.value is default)
        v.cover('absent')
    elif secret is None:
        v.check('a plain cookie is not decoded as a signed one', not calls)
        r = lift(o.value)
        v.check('UTF-8 carried as Latin-1 is read back as text', If(DECABLE8(raw.z), r.z == DEC8(raw.z), r.z == raw.z) if isinstance(r, SStr) else False)
        v.cover('plain')
    else:
        v.check('verified with the secret', len(calls) == 1 and calls[0][0].z.eq(raw.z) and calls[0][1] is secret)
        r = ans.get('r')
        if r is None:
            v.check('a cookie that does not verify reads as absent', o.value is default)
            v.cover('forged')
        else:
            v.check('a value signed for another name reads as absent', True if o.value is r[1] else o.value is default)
            v.check('the signed value is returned exactly for its own name', (r[0].z == name.z) if o.value is r[1] else r[0].z != name.z)
            v.cover('signed')


def set_cookie(v):
    jar = {}
    enc = []

    class Jar:
        pass
    puts = []
    morsels = []

    def put(k, x):
        puts.append((k, x))

    def get(k):
        v.check('attributes go to the cookie just set', any(p[0] is k for p in puts))
        m = v.obj('morsel', inline=False, __setitem__=lambda a, x: morsels.append((a, x)))
        return m
    j = v.obj('jar', inline=False, __setitem__=put, __getitem__=get, __bool__=lambda: False)
    v.stub('SimpleCookie', lambda *a: j)
    signed = v.fresh_str('signed', 'bytes')
    v.add(And(DECABLE8(signed.z), z3.InRe(signed.z, ASCII)))
    v.add(And(DEC8(signed.z) == signed.z, ENC8(signed.z) == signed.z))

    def encode(data, key):
        enc.append((data, key))
        return signed
    v.stub('cookie_encode', encode)
    v.contract('cookie_encode', encode)
    name = v.str('name')
    secret = v.either('secret', lambda: None, lambda: v.str('secret'))
    if secret is not None:
        v.assume(secret.z != sval(''))
    value = v.either('value', lambda: v.str('value'), lambda: v.int('value'), lambda: v.obj('an object', inline=False, _isinstance=lambda ts: object in ts))
    if isinstance(value, SStr):
        v.assume(ENCABLE8(value.z))
    fresh = v.case('first cookie', True, False)
    me = v.obj('response', _cookies=None if fresh else j)
    o = v.call(v.fn('ombott.response:BaseResponse.set_cookie'), me, name, value, secret)
    text = signed if secret is not None else value
    if not o.ok:
        v.check('nothing is emitted for a refused cookie', not puts)
        if isinstance(text, SStr):
            v.check('only an oversized value is refused', z3.Length(text.z) > 4096)
        else:
            v.check('a value that is no text needs a secret', secret is None)
        v.cover('refused')
        return
    v.check('text only, without a secret', isinstance(text, SStr))
    if secret is not None:
        v.check('name and value are signed together with the secret', len(enc) == 1 and isinstance(enc[0][0], tuple) and len(enc[0][0]) == 2 and enc[0][0][0] is name and enc[0][0][1] is value and enc[0][1] is secret)
    else:
        v.check('not signed without a secret', not enc)
    v.check('one cookie under its name', len(puts) == 1 and puts[0][0] is name and me.attrs['_cookies'] is j)
    if len(puts) == 1:
        x = lift(puts[0][1])
        v.check('stored as the UTF-8 bytes of the text, in Latin-1', And(z3.InRe(x.z, BYTES_RE), DECABLE8(x.z), DEC8(x.z) == text.z))
    v.cover('signed' if secret is not None else 'plain')



def cookies(v):
    """request.cookies: every cookie of the header under its name; what the cookie parser refuses is left out, never raised"""
    from .query import getter
    from http.cookies import CookieError
    P = 'ombott.request_pkg.props_mixin'
    whole = v.case('the header', 'absent', 'parsed', 'refused by the parser')
    bad = () if whole != 'refused by the parser' else v.case('refused pieces', (0,), (1,), (2,), (0, 2), (0, 1, 2))
    pieces = ['a=1', ' b="2,3"', ' c=']
    header = v.str('header') if whole == 'parsed' else ';'.join(pieces)
    env = Environ() if whole == 'absent' else Environ({'HTTP_COOKIE': header})
    loaded = []

    def load(x):
        if whole == 'refused by the parser' and isinstance(x, str):
            if any(pieces[i].strip() in x for i in bad):
                v.throw(CookieError('x'))
        loaded.append(x)
    key, val = v.str('key'), v.str('value')
    jar = v.obj('jar', load=load, values=lambda: [v.obj('morsel', key=key, value=val)], items=lambda: [(key, v.obj('morsel', key=key, value=val))])
    jars = []

    def mk(x=None):
        jars.append(jar)
        if x is not None:
            load(x)
        return jar
    v.stub('SimpleCookie', mk)
    made, res = [], v.obj('cookies')

    def factory(items=()):
        made.append(list(items.items()) if isinstance(items, dict) else list(items))
        return res
    me = v.obj('request', real('ombott.request_pkg.request:Request'), environ=env, _env_get=env.get, _cookie_factory=factory)
    o = v.call(getter(v, P + ':PropsMixin.cookies'), me)
    v.check('never raises', o.ok)
    if len(jars) != 1 or len(made) != 1 or o.value is not res:
        raise Misfit('cookies are not collected in one jar')
    v.check('every cookie of the jar, by its name', len(made[0]) == 1 and len(made[0][0]) == 2 and made[0][0][0] is key and made[0][0][1] is val)
    if whole == 'parsed':
        v.check('the header is parsed', len(loaded) == 1 and loaded[0] is header)
    elif whole == 'refused by the parser':
        for i in range(3):
            v.check('what is not refused stays', i in bad or any(pieces[i].strip() in x for x in loaded))
    v.cover(whole)


COOKIES = Proof('request.cookies', cookies, covers=('absent', 'parsed', 'refused by the parser'))
COOKIE_DECODE = Proof('cookie_decode', decode, covers=('verified', 'absent'))
ROUND_TRIP = Proof('cookie_encode/cookie_decode', encode_decode, covers=('encoded', 'round trip'))
GET_COOKIE = Proof('get_cookie', get_cookie, covers=('absent', 'plain', 'forged', 'signed'))
SET_COOKIE = Proof('set_cookie', set_cookie, covers=('refused', 'plain', 'signed'))
PROOFS = [COOKIE_DECODE, ROUND_TRIP, GET_COOKIE, SET_COOKIE, COOKIES]
