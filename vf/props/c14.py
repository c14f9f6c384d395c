"""C14 header values cannot split the response and are wire-safe."""
import itertools
from datetime import date, datetime, timedelta, timezone
from ..core import B
from .. import wsgi

LEVEL = 'proof'
CTRL = '\r\n\0'
WITHHELD = {204: {'content-type'},
            304: {'allow', 'content-encoding', 'content-language', 'content-length', 'content-range', 'content-type', 'content-md5', 'last-modified'}}
GREY = {204: {'content-length', 'allow', 'content-encoding', 'content-language', 'content-range', 'content-md5', 'last-modified'}, 304: {'expires'}}


class IntS(int):
    def __str__(self):
        return '7\r\nX-Evil: 1'
    __repr__ = __str__


class StrS(str):
    def __str__(self):
        return 'a\nX-Evil: 1'


class Obj:
    def __str__(self):
        return 'o\r\nX-Evil: 1'


SPECIAL = {'@ints': IntS(7), '@strs': StrS('ok'), '@obj': Obj(), '@bytes': b'a\r\nb', '@bytes2': b'ok', '@list': ['a\nb'], '@tuple': ('a\r',), '@dict': {'a': 'b\n'},
           '@date': date(2020, 2, 29), '@dt': datetime(2021, 3, 4, 5, 6, 7), '@aware': datetime(2021, 3, 4, 5, 6, 7, tzinfo=timezone(timedelta(hours=5, minutes=30)))}
DATES = {'@date': 'Sat, 29 Feb 2020 00:00:00 GMT', '@dt': 'Thu, 04 Mar 2021 05:06:07 GMT', '@aware': 'Wed, 03 Mar 2021 23:36:07 GMT'}
SETTERS = ('item', 'append', 'setdefault', 'attr-ct', 'attr-cl', 'attr-exp', 'kw', 'dict', 'pairs', 'err-kw', 'err-dict', 'prop')
ATTR = {'attr-ct': ('content_type', 'Content-Type'), 'attr-cl': ('content_length', 'Content-Length'), 'attr-exp': ('expires', 'Expires')}


def val(v):
    return SPECIAL.get(v, v) if isinstance(v, str) else v


def build(om, status, ops, target):
    """perform ops on a response; -> (response, accepted [(name, value, setter)], problem)"""
    from ombott.response import HTTPResponse, HTTPError, BaseResponse
    ops = list(ops)
    rs = None
    acc = []
    if ops and ops[0][0] in ('kw', 'dict', 'pairs', 'err-kw', 'err-dict'):
        s, name, v0 = ops.pop(0)
        v = val(v0)
        cls = HTTPError if s.startswith('err') else HTTPResponse
        try:
            if s.endswith('kw'):
                rs = cls(status=status, **{name: v})
            elif s.endswith('dict'):
                rs = cls(status=status, headers={name: v})
            else:
                rs = cls(status=status, headers=[(name, v), (name, 'second')])
            if isinstance(v, (list, tuple)) and not s.endswith('pairs'):
                pass
            acc.append((name, v0, s))
            if s == 'pairs':
                acc.append((name, 'second', 'append'))
        except Exception as e:
            r = refused(v, e, s)
            if r:
                return None, None, r
    if rs is None:
        rs = om.response if target == 'app' else HTTPResponse(status=status)
        if target == 'app':
            rs.__init__()
            rs.status = status
    for s, name, v0 in ops:
        v = val(v0)
        had = name in rs.headers
        try:
            if s == 'append':
                rs.headers.append(name, v)
            elif s == 'setdefault':
                rs.headers.setdefault(name, v)
            elif s in ATTR:
                name = ATTR[s][1]
                setattr(rs, ATTR[s][0], v)
                s = 'item' if s != 'attr-exp' else 'exp'
            else:
                s = 'item'
                rs.headers[name] = v
        except Exception as e:
            r = refused(v, e, s)
            if r:
                return None, None, r
            continue
        if s == 'setdefault' and had:
            continue
        acc.append((name, v0, s))
    return rs, acc, None


def text(v):
    return v if isinstance(v, str) and type(v) is str else str(v)


def refused(v, e, s):
    """None when the refusal is legitimate"""
    if isinstance(v, (str, int, float, bool, type(None))) and not any(c in str(v) for c in CTRL) and not s.startswith('attr-exp'):
        return f'{s}: legitimate value {v!r} refused: {e!r}'


def expect(acc, status):
    out = {}
    for name, v, s in acc:
        if s == 'exp':
            v = DATES.get(v, v)
            if isinstance(v, int):
                import email.utils
                v = email.utils.formatdate(v, usegmt=True)
        t = text(val(v))
        if s in ('append', 'kw', 'dict', 'pairs', 'err-kw', 'err-dict', 'pair') and name in out:
            out[name].append(t)
        elif s in ('item', 'exp') or name not in out:
            out[name] = [t]
    return out


def judge(hl, acc, status, cookies=()):
    for n, v in hl:
        if type(n) is not str or type(v) is not str:
            return f'emitted {n!r}: {v!r} is not a native string'
        if any(c in v for c in CTRL):
            return f'emitted {n!r}: {v!r} carries a control character'
        try:
            v.encode('latin1').decode('utf8')
        except UnicodeError as e:
            return f'emitted {n!r}: {v!r} is not UTF-8 over Latin-1: {e!r}'
        if n.lower() in WITHHELD.get(status, ()):
            return f'{n} emitted with status {status}'
    want = expect(acc, status)
    got = {}
    for n, v in hl:
        if n != 'Set-Cookie' or n in want:
            got.setdefault(n, []).append(v.encode('latin1').decode('utf8'))
    for n, vs in want.items():
        if n.lower() in WITHHELD.get(status, ()) or n.lower() in GREY.get(status, ()):
            continue
        if got.get(n) != vs:
            return f'{n} emitted as {got.get(n)!r}, set as {vs!r}'
    extra = [n for n in got if n not in want and n.lower() != 'content-type']
    if extra:
        return f'{extra} emitted, never set'


def ev(case):
    import ombott
    status, ops, target = case
    app = ombott.Ombott()
    what = f'{status} {target} {ops!r}'
    if target == 'wsgi':
        res = {}

        def h():
            rs, acc, e = build(app, status, ops, 'new')
            res['acc'], res['e'] = acc, e
            if rs is None:
                return 'x'
            raise rs
        app.route('/', 'GET', h)
        r = wsgi.call(app, wsgi.environ('/'))
        if res['e']:
            return what + ': ' + res['e']
        if r.escaped is not None or r.code != status:
            return f'{what}: {r.escaped!r} {r.status!r} {r.errors[-500:]}'
        hl = [h for h in r.headers if not (h == ('Content-Length', '0') and not any(a[0] == 'Content-Length' for a in res['acc']))]
        if ops and ops[0][0].startswith('err'):
            hl = [h for h in hl if h[0] != 'Content-Length']
            res['acc'] = [a for a in res['acc'] if a[0] != 'Content-Length']
        e = judge(hl, res['acc'], status)
        return e and f'{what}: {e}; emitted {r.headers!r}'
    rs, acc, e = build(app, status, ops, target)
    if e:
        return what + ': ' + e
    try:
        hl = rs.headerlist
    except UnicodeEncodeError:
        if any('\ud800' in text(val(a[1])) for a in acc):
            return None        # not Unicode text
        raise
    if type(hl) is not list:
        return f'{what}: headerlist is {type(hl)}'
    e = judge(hl, acc, status)
    return e and f'{what}: {e}; emitted {hl!r}'


NAMES = ['X-A', 'x-a', 'Content-Type', 'content-type', 'Allow', 'ALLOW', 'Content-Length', 'Content-Encoding', 'Content-Language', 'Content-Range', 'Content-MD5', 'Content-Md5', 'Last-Modified', 'last-modified',
         'Location', 'X_B', 'ETag', 'Vary', 'Set-Cookie', 'Link']
VALUES = ['', 'a', 'a b', ' lead', 'é', '日本', '\U0001f600', '\x80\xff', 'a\rb', 'a\nb', 'a\0b', '\r', '\n', '\0', 'x\r\nSet-Cookie: a=b', '\n\n', 'tail\r', 'tail\n', 'tail\0', '\rhead', '\x0b', '\x0c', '\x1f', '\x7f', '\x85', '\u2028', '\u2029',
          'é\r\n', '日\0', '%0d%0a', '\\r\\n', 0, 1, -5, 10**30, 1.5, float('inf'), True, False, None, '@ints', '@strs', '@obj', '@bytes', '@bytes2', '@list', '@tuple', '@dict', 'a, b', 'a' * 5000]


def gen_single(tier, rng):
    for s in SETTERS[:-1]:
        for v in VALUES + (['@date', '@dt', '@aware', 0, 1600000000] if s == 'attr-exp' else []):
            if s == 'attr-exp' and (not isinstance(v, (str, int)) or v in ('@ints', True)) or s == 'attr-exp' and isinstance(v, int) and abs(v) > 10**11:
                continue
            for t in ('new', 'app'):
                yield 200, ((s, 'X-A', v),), t
            if not (isinstance(v, str) and v in SPECIAL) and not (s == 'attr-cl' or s == 'attr-ct' and not isinstance(v, str)):
                yield 200, ((s, 'X-A', v),), 'wsgi'
            if s in ('item', 'append', 'setdefault'):
                for pre in ('item', 'append'):
                    yield 200, ((pre, 'X-A', 'p'), (s, 'X-A', v)), 'new'
                    yield 200, (('append', 'X-A', 'p'), (pre, 'X-A', 'q'), (s, 'X-A', v), ('append', 'X-A', 'é')), 'app'


def gen_positions(tier, rng):
    base = 'abé日'
    for s in ('item', 'append', 'setdefault', 'attr-ct', 'kw', 'dict', 'pairs', 'err-kw'):
        for c in CTRL:
            for i in range(len(base) + 1):
                yield 200, ((s, 'X-A', base[:i] + c + base[i:]),), 'new'
        for o in range(0, 0x180):
            yield 200, ((s, 'X-A', 'x' + chr(o) + 'y'),), 'new'


def gen_status(tier, rng):
    for st in [200, 201, 204, 205, 206, 301, 302, 303, 304, 305, 400, 404, 500, 203, 299, 999]:
        for n in NAMES:
            for s in ('item', 'append', 'kw', 'dict', 'pairs'):
                for t in ('new', 'app', 'wsgi'):
                    if t == 'wsgi' and n.lower() in ('content-length', 'content-type'):
                        continue
                    yield st, ((s, n, '5'),), t
                    yield st, ((s, n, '5'), ('append', n, '7é'), ('item', 'X-Z', '1'), ('append', 'X-Z', '2')), t
        for k in range(3):
            ops = [('append', n, str(i)) for i in range(k + 1) for n in NAMES]
            yield st, tuple(ops), 'new'
            yield st, tuple(ops), 'app'


def gen_random(tier, rng):
    al = ['a', 'é', '\r', '\n', '\0', ' ', '日', ':', '\x80', '"', '\x0b', 'Z', '\U0001f600']
    for _ in range(3000 if tier == 'quick' else 100000):
        st = rng.choice([200, 204, 304, 206, 404, rng.randint(100, 999)])
        ops = []
        for i in range(rng.randint(1, 6)):
            v = rng.choice(VALUES) if rng.random() < .4 else ''.join(rng.choice(al) for _ in range(rng.randint(0, 5))) if rng.random() < .5 else 'v%d' % rng.randint(0, 3)
            s = rng.choice(SETTERS if i == 0 else ('item', 'append', 'append', 'setdefault', 'attr-ct', 'attr-cl'))
            if s in ('prop', 'attr-exp'):
                s = 'item'
            ops.append((s, rng.choice(NAMES[:4] + NAMES), v))
        yield st, tuple(ops), rng.choice(('new', 'app'))


def ev_cookie(case):
    """cookie headers are header values too: attributes cannot split the response"""
    from ombott.response import HTTPResponse
    name, value, opts = case
    rs = HTTPResponse()
    try:
        rs.set_cookie(name, value, **opts)
    except Exception:
        pass
    for n, v in rs.headerlist:
        if any(c in v for c in CTRL) or type(v) is not str:
            return f'set_cookie({name!r}, {value!r}, {opts!r}) emitted {n}: {v!r}'
        v.encode('latin1').decode('utf8')


def gen_cookie(tier, rng):
    vs = ['a', 'a\r\nX: y', '\n', '\0', 'é', '"; x', 'a;b', '日']
    for n in ('c', 'c\n', 'c\r\nX'):
        for v in vs:
            yield n, v, {}
            for o in ('path', 'domain', 'expires', 'comment', 'samesite', 'max_age', 'version'):
                for w in vs:
                    yield n, v, {o: w}


BOUNDED = [
    B('each-setter', gen_single, ev, target='HeaderDict setters, HeaderProperty, response constructors, headerlist', bound='11 setters x 53 values of every kind x fresh/existing name x detached, application and WSGI observation', exhaustive=True),
    B('control-positions', gen_positions, ev, target='_hval', bound='CR/LF/NUL at every position of a 4-character text, every character below U+0180, x 8 setters', exhaustive=True),
    B('status-table', gen_status, ev, target='BaseResponse.headerlist', bound='16 statuses x 20 header names (mixed case) x single/multi values', exhaustive=True),
    B('random-histories', gen_random, ev, target='the same', bound='seeded random setter histories of length <=6, statuses 100-999'),
    B('cookie-attributes', gen_cookie, ev_cookie, target='BaseResponse.set_cookie, headerlist', bound='3 names x 8 values x 7 attributes x 8 attribute values', exhaustive=True),
]

from ..contracts import headers as _c
PROOFS = _c.PROOFS
