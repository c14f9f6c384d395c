"""C03 every request gets exactly one well-formed WSGI response."""
import io, itertools
from ..core import B
from .. import wsgi

LEVEL = 'proof'
BIG = b'\x00\xff' * 40


class It:
    """closable iterable over a script; an Exception instance is raised when reached"""

    def __init__(self, script, log, gen=False):
        self.script, self.log = script, log

    def __iter__(self):
        return self

    i = 0

    def __next__(self):
        if self.i >= len(self.script):
            raise StopIteration
        x = self.script[self.i]
        self.i += 1
        if isinstance(x, BaseException):
            raise x
        if x:
            self.log['produced'] = self.log.get('produced', 0) + 1
        return x

    def close(self):
        self.log['closed'] = self.log.get('closed', 0) + 1


class Once:
    """iterable object (fresh iterator) with close"""

    def __init__(self, script, log):
        self.script, self.log = script, log

    def __iter__(self):
        it = It(self.script, self.log)
        it.close = lambda: None
        del it.close
        return iter(_gen(self.script, self.log))

    def close(self):
        self.log['closed'] = self.log.get('closed', 0) + 1


def _gen(script, log):
    for x in script:
        if isinstance(x, BaseException):
            raise x
        if x:
            log['produced'] = log.get('produced', 0) + 1
        yield x


class File:
    def __init__(self, data, log, close=True, it=False):
        self.f, self.log = io.BytesIO(data), log
        if close:
            self.close = self._close
        if data:
            log['produced'] = 1

    def read(self, n=-1):
        return self.f.read(n)

    def _close(self):
        self.log['closed'] = self.log.get('closed', 0) + 1


class Wrapper:
    """a server file wrapper that forwards close"""

    def __init__(self, f, n=8192):
        self.f = f
        if hasattr(f, 'close'):
            self.close = f.close

    def __iter__(self):
        while True:
            d = self.f.read(7)
            if not d:
                return
            yield d


def gen_close(script, log):
    try:
        for x in script:
            if isinstance(x, BaseException):
                raise x
            log['produced'] = 1
            yield x
    finally:
        log['closed'] = log.get('closed', 0) + 1


class BadStr(Exception):
    def __str__(self):
        raise ValueError('unprintable')
    __repr__ = __str__


class StrSub(str):
    pass


class BytesSub(bytes):
    pass


def _nest(om, inner, depth):
    for i in range(depth):
        inner = om.HTTPResponse(inner, 210 + i)
    return inner


def _with_length(app, value, n):
    app.response.headers['Content-Length'] = str(n)
    return value


# name -> (maker(app, om, log) -> value returned or raised, expected code or None, expected body or None)
def outcomes():
    def R(code, body, mk):
        return (code, body, mk)
    o = {}
    o['none'] = R(200, b'', lambda a, om, l: None)
    o['false'] = R(200, b'', lambda a, om, l: False)
    o['empty-str'] = R(200, b'', lambda a, om, l: '')
    o['str'] = R(200, 'é<b>'.encode(), lambda a, om, l: 'é<b>')
    o['bytes'] = R(200, BIG, lambda a, om, l: BIG)
    o['list-b'] = R(200, b'ab', lambda a, om, l: [b'a', b'b'])
    o['list-s'] = R(200, 'aé'.encode(), lambda a, om, l: ['', 'a', 'é'])
    o['empty-list'] = R(200, b'', lambda a, om, l: [])
    o['list-empty'] = R(200, b'', lambda a, om, l: ['', b''])
    o['tuple'] = R(200, b'ab', lambda a, om, l: (b'a', b'b'))
    o['dict'] = R(200, b'k', lambda a, om, l: {'k': 1})
    o['it-b'] = R(200, b'ab', lambda a, om, l: It([b'', b'a', b'b'], l))
    o['it-s'] = R(200, 'é日'.encode(), lambda a, om, l: It(['é', '日'], l))
    o['once-s'] = R(200, 'é日'.encode(), lambda a, om, l: Once(['', 'é', '日'], l))
    o['once-b'] = R(200, b'xy', lambda a, om, l: Once([b'x', b'y'], l))
    o['gen-s'] = R(200, 'é日'.encode(), lambda a, om, l: gen_close(['é', '日'], l))
    o['gen-b'] = R(200, b'xy', lambda a, om, l: gen_close([b'x', b'y'], l))
    o['it-empty'] = R(200, b'', lambda a, om, l: It([], l))
    o['it-raise'] = R(500, None, lambda a, om, l: It([KeyError('x')], l))
    o['it-raise-empty'] = R(500, None, lambda a, om, l: It([b'', ValueError('x')], l))
    o['it-int'] = R(500, None, lambda a, om, l: It([5], l))
    o['it-resp'] = R(202, b'inner', lambda a, om, l: It([om.HTTPResponse('inner', 202)], l))
    o['it-raise-resp'] = R(202, b'inner', lambda a, om, l: It([om.HTTPResponse('inner', 202)], l))
    o['it-err'] = R(418, None, lambda a, om, l: It([om.HTTPError(418, 'tea')], l))
    o['it-surrogate'] = R(500, None, lambda a, om, l: It(['\ud800'], l))
    o['str-surrogate'] = R(500, None, lambda a, om, l: '\ud800')
    o['int'] = R(500, None, lambda a, om, l: 5)
    o['object'] = R(500, None, lambda a, om, l: object())
    o['file'] = R(200, BIG, lambda a, om, l: File(BIG, l))
    o['file-empty'] = R(200, b'', lambda a, om, l: File(b'', l))
    o['file-noclose'] = R(200, BIG, lambda a, om, l: File(BIG, {}, close=False))
    o['resp'] = R(201, b'made', lambda a, om, l: om.HTTPResponse('made', 201, {'X-A': '1'}))
    o['resp-list'] = R(201, b'made', lambda a, om, l: om.HTTPResponse(It(['ma', 'de'], l), 201))
    o['resp-file'] = R(206, BIG, lambda a, om, l: om.HTTPResponse(File(BIG, l), 206))
    o['resp-resp'] = R(203, b'in', lambda a, om, l: om.HTTPResponse(om.HTTPResponse('in', 203), 201))
    o['resp-int'] = R(500, None, lambda a, om, l: om.HTTPResponse(5, 201))
    o['error'] = R(404, None, lambda a, om, l: om.HTTPError(404, 'gone'))
    o['error-odd'] = R(799, None, lambda a, om, l: om.HTTPError('799 Odd thing', 'x'))
    for st in (100, 102, 199, 204, 304, 205):
        o['resp%d' % st] = R(st, b'no', lambda a, om, l, st=st: om.HTTPResponse('no', st))
        o['resp%d-it' % st] = R(st, b'no', lambda a, om, l, st=st: om.HTTPResponse(It([b'no'], l), st))
    o['raise-resp'] = R(299, b'r', lambda a, om, l: om.HTTPResponse('r', 299))
    o['raise-304'] = R(304, b'r', lambda a, om, l: om.HTTPResponse('r', 304))
    o['raise-error'] = R(403, None, lambda a, om, l: om.HTTPError(403, 'no'))
    for nm, e in (('key', KeyError('a')), ('stop', StopIteration()), ('rec', RecursionError()), ('os', OSError(5, 'x')), ('gen', RuntimeError()), ('assert', AssertionError('<b>')),
                  ('bad', BadStr()), ('uni', UnicodeDecodeError('utf8', b'\xff', 0, 1, 'x')), ('attr', AttributeError('environ')), ('val', ValueError())):
        o['raise-' + nm] = R(500, None, lambda a, om, l, e=e: e)
    o['badstatus-crlf'] = R(500, None, lambda a, om, l: om.HTTPResponse('x', '200 OK\r\nX: y'))
    o['badstatus-noreason'] = R(500, None, lambda a, om, l: om.HTTPResponse('x', '200 '))
    o['badstatus-plus'] = R(500, None, lambda a, om, l: om.HTTPResponse('x', '+200 OK'))
    o['badstatus-under'] = R(500, None, lambda a, om, l: om.HTTPResponse('x', '2_0_0 OK'))
    o['badstatus-uni'] = R(500, None, lambda a, om, l: om.HTTPResponse('x', '200 日本'))
    o['badstatus-range'] = R(500, None, lambda a, om, l: om.HTTPResponse('x', 1000))
    o['charset'] = R(200, 'é'.encode('latin1'), lambda a, om, l: om.HTTPResponse('é', 200, {'Content-Type': 'text/plain; charset=latin1'}))
    o['charset-it'] = R(200, 'é€'.encode('cp1252'), lambda a, om, l: om.HTTPResponse(It(['é', '€'], l), 200, {'Content-Type': 'text/plain; charset=cp1252'}))
    o['charset-bad'] = R(500, None, lambda a, om, l: om.HTTPResponse('é', 200, {'Content-Type': 'text/plain; charset=nope'}))
    o['charset-bad-it'] = R(500, None, lambda a, om, l: om.HTTPResponse(It(['é'], l), 200, {'Content-Type': 'text/plain; charset=nope'}))
    o['charset-ascii-it'] = R(500, None, lambda a, om, l: om.HTTPResponse(It(['é'], l), 200, {'Content-Type': 'text/plain; charset=ascii'}))
    # sizes and depths
    long_b = b'0123456789' * 25000
    o['str-long'] = R(200, long_b, lambda a, om, l: long_b.decode())
    o['bytes-long'] = R(200, long_b, lambda a, om, l: long_b)
    o['list-long'] = R(200, b'ab' * 3000, lambda a, om, l: [b'ab'] * 3000)
    o['it-long'] = R(200, 'é'.encode() * 3000, lambda a, om, l: It(['é'] * 3000, l))
    o['it-late'] = R(200, b'x', lambda a, om, l: It([b''] * 1500 + [b'x'], l))
    o['it-late-s'] = R(200, 'é'.encode(), lambda a, om, l: It([''] * 1500 + ['é'], l))
    o['it-all-empty'] = R(200, b'', lambda a, om, l: It([b''] * 1500, l))
    o['file-long'] = R(200, long_b, lambda a, om, l: File(long_b, l))
    o['resp-deep'] = R(203, b'in', lambda a, om, l: _nest(om, om.HTTPResponse('in', 203), 20))
    o['resp-deep-it'] = R(203, b'in', lambda a, om, l: _nest(om, om.HTTPResponse(It([b'in'], l), 203), 20))
    o['resp-deep-err'] = R(418, None, lambda a, om, l: _nest(om, om.HTTPError(418, 'tea'), 20))
    o['resp-deep-304'] = R(304, b'in', lambda a, om, l: _nest(om, om.HTTPResponse('in', 304), 5))
    o['it-it-resp'] = R(202, b'inner', lambda a, om, l: It([om.HTTPResponse(It([om.HTTPResponse('inner', 202)], {}), 201)], l))
    o['raise-deep'] = R(203, b'in', lambda a, om, l: _nest(om, om.HTTPResponse('in', 203), 5))
    # several header values, one name several times, a stated length
    o['hdr-many'] = R(201, b'made', lambda a, om, l: om.HTTPResponse('made', 201, {'X-A': '1', 'X-B': 'é', 'X-C': '', 'Set-Cookie': 'a=b'}))
    o['hdr-length'] = R(201, b'made', lambda a, om, l: om.HTTPResponse(It([b'ma', b'de'], l), 201, {'Content-Length': '4'}))
    o['hdr-length-it'] = R(200, b'made', lambda a, om, l: _with_length(a, It([b'made'], l), 4))
    # values that are none of the kinds named: subclasses, other sequences and mappings
    o['bytearray'] = R(None, None, lambda a, om, l: bytearray(b'abc'))
    o['str-sub'] = R(200, b'abc', lambda a, om, l: StrSub('abc'))
    o['bytes-sub'] = R(200, b'abc', lambda a, om, l: BytesSub(b'abc'))
    o['list-bsub'] = R(200, b'abc', lambda a, om, l: [BytesSub(b'a'), BytesSub(b'bc')])
    o['it-ssub'] = R(200, 'aé'.encode(), lambda a, om, l: It([StrSub('a'), StrSub('é')], l))
    o['true'] = R(500, None, lambda a, om, l: True)
    o['zero'] = R(200, b'', lambda a, om, l: 0)
    o['float'] = R(500, None, lambda a, om, l: 1.5)
    o['it-none'] = R(200, b'x', lambda a, om, l: It([None, b'x'], l))
    o['it-float'] = R(500, None, lambda a, om, l: It([1.5], l))
    o['it-dict'] = R(500, None, lambda a, om, l: It([{'a': 1}], l))
    o['it-list'] = R(500, None, lambda a, om, l: It([[b'a']], l))
    o['resp-none'] = R(201, b'', lambda a, om, l: om.HTTPResponse(None, 201))
    o['resp-empty-it'] = R(201, b'', lambda a, om, l: om.HTTPResponse(It([], l), 201))
    o['resp-it-raise'] = R(500, None, lambda a, om, l: om.HTTPResponse(It([KeyError('x')], l), 201))
    o['hdr-surrogate'] = R(500, None, lambda a, om, l: om.HTTPResponse(It([b'x', b'y'], l), 200, {'X-A': '\udc80'}))
    return o


OUT = outcomes()
RAISED = {'raise-deep', 'raise-resp', 'raise-304', 'raise-error'} | {k for k in OUT if k.startswith('raise-')}


def build_app(case, log, hooks):
    import ombott as om
    oname, method, status, hk, eh, where, fw = case
    app = om.Ombott()
    code, body, mk = OUT[oname]

    def act():
        v = mk(app, om, log)
        if oname in RAISED:
            raise v
        return v

    def h(**kw):
        log['handled'] = log.get('handled', 0) + 1
        if status is not None:
            app.response.status = status
        return act()
    app.route('/p', 'ANY', h)
    app.route('/g', 'GET', h)
    elog = log['e'] = {}
    nb, na, fail, faila = hk
    for i in range(nb):
        def b(i=i):
            hooks.append(('b', i))
            if fail == i:
                raise KeyError('hook')
            if fail == ('resp', i):
                raise om.HTTPResponse('stopped', 203)
        app.on('before_request', b)
    for i in range(na):
        def a(i=i):
            hooks.append(('a', i))
        app.on('after_request', a)
    if eh:
        for c in (404, 405, 500, 403, 418):
            def e(err, c=c):
                if eh == 'raise':
                    raise ZeroDivisionError('handler of %d' % c)
                if eh == 'same':
                    return err
                if eh == 'it':
                    return It(['E%d' % c], {})
                if eh == 'bytes':
                    return b'E%d' % c
                if eh == 'closing':
                    return It(['', 'E%d' % c], elog)
                if eh == 'file':
                    return File(b'E%d' % c, elog)
                if eh == 'resp':
                    return om.HTTPResponse('E%d' % c, 207)
                if eh == 'resp304':
                    return om.HTTPResponse('E%d' % c, 304)
                if eh == 'rresp':
                    raise om.HTTPResponse('E%d' % c, 207)
                if eh == 'none':
                    return None
                if eh == 'int':
                    return 7
                if eh == 'itraise':
                    return It([KeyError('x')], elog)
                if eh == 'nest':
                    return om.HTTPError(418 if c != 418 else 403, 'other')
                return 'E%d' % c
            app.error(c)(e)
    return app


def ev(case):
    oname, method, status, hk, eh, where, fw = case
    log, hooks = {}, []
    app = build_app(case, log, hooks)
    path = {'p': '/p', 'missing': '/missing', 'g': '/g', 'badhead': '/p'}[where]
    env = wsgi.environ(path, method)
    if fw:
        env['wsgi.file_wrapper'] = Wrapper
    if where == 'nopath':
        del env['PATH_INFO']
    r = wsgi.call(app, env)
    what = f'{case!r}: {r.status!r} {r.headers!r} {r.body[:60]!r}'
    p = wsgi.validate(r, method)
    if r.iter_error is not None:
        p.append(f'body iteration raised {r.iter_error!r}')
    if p:
        return f'{what}: {p!r} {r.errors[-300:]}'
    code = r.code
    nobody = method.upper() == 'HEAD' or 100 <= code < 200 or code in (204, 304)
    cl = r.h('Content-Length')
    if cl and not nobody and cl != [str(len(r.body))]:
        return f'{what}: Content-Length {cl!r}, {len(r.body)} bytes returned'
    # hooks
    nb, na, fail, _ = hk
    stop = fail if isinstance(fail, int) else (fail[1] if fail else None)
    want = [('b', i) for i in range(nb) if stop is None or i <= stop] + [('a', i) for i in reversed(range(na))]
    if hooks != want:
        return f'{what}: hooks ran {hooks!r}, expected {want!r}'
    failing = stop is not None and stop < nb
    # status
    if failing:
        exp = 500 if isinstance(fail, int) else 203
    elif where == 'missing':
        exp = 404
    elif where == 'g' and method.upper() not in ('GET', 'HEAD'):
        exp = 405
    else:
        exp = OUT[oname][0]
        if exp == 200 and status is not None and not oname.startswith('charset'):
            exp = status if isinstance(status, int) else int(status[:3])
        if log.get('handled') != 1:
            return f'{what}: handler ran {log.get("handled")} times'
    if (failing or where == 'missing' or where == 'g' and method.upper() not in ('GET', 'HEAD')) and log.get('handled'):
        return f'{what}: handler ran'
    was = exp
    handled = exp in (404, 405, 500, 403, 418)
    plain = not failing and (where == 'missing' or oname in ('error', 'raise-error', 'raise-key', 'raise-os', 'int', 'object', 'it-raise', 'it-int', 'it-err'))
    if handled and eh and not plain and eh not in ('raise', 'same'):
        exp = None
    elif handled and eh:
        exp = {'raise': 500, 'same': 500, 'resp': 207, 'resp304': 304, 'rresp': None, 'int': 500, 'itraise': None, 'nest': None}.get(eh, exp)
    if exp is not None and code != exp:
        return f'{what}: status {exp} expected; {r.errors[-300:]}'
    if not nobody and not failing and where == 'p' and OUT[oname][1] is not None and exp == OUT[oname][0] or (exp == status and not nobody and where == 'p' and OUT[oname][1] is not None):
        if r.body != OUT[oname][1]:
            return f'{what}: body {OUT[oname][1]!r} expected'
    text = {'str': 1, 'it': 1, 'bytes': 1, 'closing': 1, 'file': 1, 'none': 0, 'resp': 1}
    if handled and eh in text and not nobody and plain:
        want = b'E%d' % (exp if exp != 207 else was) if text[eh] else b''
        if r.body != want:
            return f'{what}: body {want!r} expected'
    e = log['e']
    if eh != 'itraise' and (e.get('produced') and e.get('closed') != 1 or e.get('closed', 0) > 1):
        return f'{what}: the iterable an error handler returned was closed {e.get("closed", 0)} times'
    # close
    if log.get('produced') and log.get('closed') != 1:
        return f'{what}: iterable that produced output was closed {log.get("closed", 0)} times'
    if log.get('closed', 0) > 1:
        return f'{what}: closed {log["closed"]} times'


METHODS = ('GET', 'HEAD', 'head', 'POST')
STATUSES = (None, 100, 101, 103, 199, 204, 304, 206, 404, 999, '299 Odd one')
NOHOOK = (0, 0, None, None)


def gen_outcomes(tier, rng):
    for o in OUT:
        for m in METHODS:
            for st in STATUSES:
                for fw in (0, 1):
                    yield o, m, st, NOHOOK, None, 'p', fw


def gen_hooks(tier, rng):
    fails = [None, 0, 1, 2, ('resp', 0), ('resp', 1)]
    for o in ('str', 'raise-key', 'raise-resp', 'error', 'it-b', 'resp204', 'it-raise', 'none', 'file'):
        for m in METHODS:
            for where in ('p', 'missing', 'g'):
                for nb, na in itertools.product(range(4), range(4)):
                    for f in fails:
                        n = f if isinstance(f, int) else (f[1] if f else -1)
                        if n >= nb:
                            continue
                        yield o, m, None, (nb, na, f, None), None, where, 0


def gen_errors(tier, rng):
    for o in OUT:
        for m in METHODS[:2]:
            for where in ('p', 'missing', 'g'):
                for eh in ('str', 'it', 'same', 'raise', 'bytes', 'closing', 'file', 'resp', 'resp304', 'rresp', 'none', 'int', 'itraise', 'nest'):
                    yield o, m, None, (1, 1, None, None), eh, where, 0


def ev_server(case):
    """a server that rejects the response (start_response raises once) still ends with the iterable closed and one response"""
    import ombott as om
    kind, = case
    log = {}
    app = om.Ombott()
    app.route('/p', 'ANY', lambda: It([b'a', b'b'], log) if kind == 'it' else File(BIG, log))
    calls = []

    def sr(status, headers, exc_info=None):
        calls.append((status, exc_info is not None))
        if len(calls) == 1:
            raise AssertionError('rejected')
    out = app(wsgi.environ('/p'), sr)
    body = b''.join(out)
    getattr(out, 'close', lambda: None)()
    if len(calls) != 2 or not calls[1][1] or not calls[1][0].startswith('500'):
        return f'start_response calls {calls!r}'
    if log.get('closed') != 1:
        return f'iterable closed {log.get("closed", 0)} times after start_response failed'


def gen_server(tier, rng):
    yield ('it',)
    yield ('file',)


def ev_moving(case):
    """hooks that add or remove hooks while they run: the hooks of this emission each run once, in order"""
    import ombott as om
    kind, n, at, what = case
    app = om.Ombott()
    ran = []

    def mk(i):
        def hook():
            ran.append(i)
            if i == at:
                if what == 'self':
                    app.remove_hook(kind, hooks[i])
                elif what == 'next' and i + 1 < n:
                    app.add_hook(kind, lambda: None)
                elif what == 'prev' and i > 0:
                    app.remove_hook(kind, hooks[i - 1])
        return hook
    hooks = [mk(i) for i in range(n)]
    for h in hooks:
        app.add_hook(kind, h)
    app.route('/p', 'GET', lambda: 'x')
    if what == 'prev' and kind == 'after_request':
        return None     # runs before its predecessor in registration order
    r = wsgi.call(app, wsgi.environ('/p'))
    want = list(range(n)) if kind == 'before_request' else list(range(n))[::-1]
    if r.code != 200 or ran != want:
        return f'{case!r}: {r.status}, hooks ran {ran!r}, expected {want!r}'


def gen_moving(tier, rng):
    for kind in ('before_request', 'after_request'):
        for n in range(1, 5):
            for at in range(n):
                for what in ('self', 'next', 'prev'):
                    yield kind, n, at, what


BOUNDED = [
    B('outcomes', gen_outcomes, ev, target='Ombott.wsgi/_handle/_cast/_closeiter, BaseResponse.status/headerlist', bound=f'{len(OUT)} handler outcomes x {len(METHODS)} methods x {len(STATUSES)} statuses x file wrapper', exhaustive=True),
    B('hooks', gen_hooks, ev, target='Ombott._handle/emit/add_hook', bound='0..3 before and after hooks, every failing position, 9 outcomes, 3 paths, 4 methods', exhaustive=True),
    B('error-handlers', gen_errors, ev, target='Ombott._cast error branch', bound='every outcome x 14 error handler kinds x 3 paths', exhaustive=True),
    B('moving-hooks', gen_moving, ev_moving, target='Ombott.emit/add_hook/remove_hook', bound='1..4 hooks, each adding or removing a hook while it runs', exhaustive=True),
    B('server-rejects', gen_server, ev_server, target='Ombott.wsgi', bound='2 cases'),
]

from ..contracts import app as _c  # noqa: E402
PROOFS = _c.C03
