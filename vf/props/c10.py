"""C10 application objects in one process are independent of each other."""
import itertools, threading
from ..core import B
from .. import wsgi, scen

LEVEL = 'other'


def solo(kind, i, tag):
    return scen.alone(kind, i, tag)


def ev_nested(case):
    """A's handler does something with another application in the middle; A's own answer and data must not change"""
    import ombott as om
    what, kind_a, kind_b = case
    want_a, want_b = solo(kind_a, 1, 'A'), solo(kind_b, 2, 'B')
    want_c = solo('plain', 3, 'C')
    scen.SHARED.clear()
    seen, inner_got = [], []
    apps = {}

    def inner():
        if what == 'construct':
            om.Ombott(), om.Request({'PATH_INFO': '/zz'}), om.Response().__init__('zz', 299)
        elif what == 'copy':
            c = apps['A'].request.copy()
            c['PATH_INFO'] = '/copied'
            c.environ['QUERY_STRING'] = 'copied=1'
        elif what == 'copyb':
            apps['B'].request.copy()
        elif what == 'serve':
            inner_got.append(scen.result(wsgi.call(apps['B'], scen.request(om, kind_b, 2))))
        elif what == 'serve2':
            inner_got.append(scen.result(wsgi.call(apps['B'], scen.request(om, kind_b, 2))))
            g = scen.result(wsgi.call(apps['C'], scen.request(om, 'plain', 3)))
            if g != want_c:
                seen.append(('C', g, want_c))
        elif what == 'default':
            wsgi.call(om.default_app(), scen.request(om, kind_b, 2))
        elif what == 'thread':
            t = threading.Thread(target=lambda: inner_got.append(scen.result(wsgi.call(apps['B'], scen.request(om, kind_b, 2)))))
            t.start()
            t.join()
        elif what == 'respcopy':
            apps['A'].response.copy(cls=om.HTTPResponse)
            apps['B'].response.copy(cls=om.HTTPResponse)
            om.HTTPResponse('x', 299, {'X-Other': '1'}), om.HTTPError(404, 'x')
        elif what == 'setup':
            apps['B'].setup({'max_body_size': 1})
            apps['B'].request.__init__({'PATH_INFO': '/other'})
            apps['B'].response.__init__('other', 299)
    apps['A'] = scen.app(om, 'A', seen=seen, inner=inner)
    apps['B'] = scen.app(om, 'B', seen=seen)
    apps['C'] = scen.app(om, 'C', seen=seen)
    got = scen.result(wsgi.call(apps['A'], scen.request(om, kind_a, 1)))
    if seen:
        return f'{case!r}: {seen[0]!r}'
    if got != want_a:
        return f'{case!r}: A answers {got!r}, alone {want_a!r}'
    for g in inner_got:
        if g != want_b:
            return f'{case!r}: B answers {g!r}, alone {want_b!r}'


WHAT = ('construct', 'copy', 'copyb', 'serve', 'serve2', 'default', 'thread', 'respcopy', 'setup')


def gen_nested(tier, rng):
    for w in WHAT:
        for a in ('plain', 'plain2', 'body', 'form', 'multi', 'json', 'boom', 'gen', 'abort', 'redir', 'static', 'range', 'chunkbad', 'big'):
            for b in (scen.KINDS if w in ('serve', 'serve2', 'thread', 'default') else ('plain',)):
                yield w, a, b


def ev_turns(case):
    """requests to several applications one after another in one thread, constructing others in between"""
    import ombott as om
    scen.SHARED.clear()
    seen = []
    apps = [scen.app(om, t, seen=seen) for t in 'ABC']
    for i, (a, k, extra) in enumerate(case):
        want = solo(k, i, 'ABC'[a])
        scen.SHARED.clear()
        if extra == 1:
            om.Ombott()
        elif extra == 2:
            apps[(a + 1) % 3].request.copy()
        got = scen.result(wsgi.call(apps[a], scen.request(om, k, i)))
        if got != want or seen:
            return f'{case!r} step {i}: {got!r}, alone {want!r} {seen[:1]!r}'
        # what the applications' objects show outside a request stays what their own last request left
        for b in range(3):
            last = [(j, s) for j, s in enumerate(case[:i + 1]) if s[0] == b]
            if last:
                j = last[-1][0]
                if apps[b].request.environ.get('t.id') != 'id%d' % j:
                    return f'{case!r} step {i}: application {b} shows {apps[b].request.environ.get("t.id")!r}, its last request was id{j}'


def gen_turns(tier, rng):
    for _ in range(400 if tier == 'quick' else 8000):
        yield tuple((rng.randrange(3), rng.choice(scen.KINDS), rng.randrange(3)) for _ in range(rng.randint(2, 6)))


def ev_threads(case):
    """one application per thread, lock-step handlers"""
    import ombott as om
    ks = case
    wants = [solo(k, i, 'T%d' % i) for i, k in enumerate(ks)]
    scen.SHARED.clear()
    bar = threading.Barrier(len(ks))
    seen, got = [], [None] * len(ks)

    def inner():
        try:
            bar.wait(0.2)
        except threading.BrokenBarrierError:
            pass
    apps = [scen.app(om, 'T%d' % i, seen=seen, inner=inner) for i in range(len(ks))]

    def run(i):
        got[i] = scen.result(wsgi.call(apps[i], scen.request(om, ks[i], i)))
    ts = [threading.Thread(target=run, args=(i,)) for i in range(len(ks))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for i, k in enumerate(ks):
        if got[i] != wants[i] or seen:
            return f'{case!r}: application {i} answers {got[i]!r}, alone {wants[i]!r} {seen[:1]!r}'


def ev_forward(case):
    """A's handler passes a copy of its environ (or of its request) on to B: each shows its own application, route and arguments"""
    import ombott as om
    how, rule_b, path, before = case
    a, b = om.Ombott(), om.Ombott()
    bad = []

    def look(app, h, kw, when):
        rq = app.request
        if rq.app is not app:
            bad.append(f'{when}: request.app is not the application that serves it')
        if rq.route.handler is not h:
            bad.append(f'{when}: request.route is {rq.route!r}')
        if rq.url_args != kw:
            bad.append(f'{when}: request.url_args is {rq.url_args!r}, the handler got {kw!r}')

    def inner(**kw):
        look(b, inner, kw, 'B')
        if b.request.query != {'q': '1'} or b.request.path != path:
            bad.append(f'B: {b.request.path!r} {b.request.query!r}')
        b.response.headers['X-B'] = '1'
        return 'b'

    def outer(**kw):
        if before:
            a.request.query, a.request.headers, a.request.cookies, a.request.url
        env = a.request.environ.copy() if how == 'environ' else a.request.copy().environ
        st = []
        out = b''.join(b(env, lambda s, h, e=None: st.append(s)))
        if out != b'b' or not st[0].startswith('200'):
            bad.append(f'B answers {st!r} {out!r}')
        look(a, outer, kw, 'A after the call')
        if a.request.path != path or a.request.query != {'q': '1'}:
            bad.append(f'A after the call: {a.request.path!r} {a.request.query!r}')
        return 'a'
    a.route('/x/{n}', 'GET', outer)
    b.route(rule_b, 'GET', inner)
    r = wsgi.call(a, wsgi.environ(path, qs='q=1'))
    if r.code != 200 or r.body != b'a' or r.h('X-B'):
        bad.append(f'A answers {r.status} {r.body!r} {r.errors[-300:]}')
    if bad:
        return f'{case!r}: {bad[0]}'


def gen_forward(tier, rng):
    for how in ('environ', 'request'):
        for rb in ('/x/{n}', '/x/{m:int}', '/{p:path}', '/x/7'):
            for before in (0, 1):
                yield how, rb, '/x/7', before


ATTRS = ('user', 'x', 'body_x', 'session', 'Name', '_private', 'a_b1')
VALUES = (None, 0, '', 'v', ['l'], {'k': 1}, object())


def ev_attributes(case):
    """what a handler or a before-hook stores on the request under a name of its own is read back as that very object, by this request only"""
    import ombott as om
    where, who, name, val, other_name = case
    a, b = om.Ombott(), om.Ombott()
    bad, gone = [], object()

    def expect(rq, what, n, want):
        got = getattr(rq, n, gone)
        if got is not want:
            bad.append(f'{what}: request.{n} is {"not defined" if got is gone else repr(got)}, expected {"an AttributeError" if want is gone else repr(want)}')
    mine, others = [val, 'm'], ['others']

    def set_(rq):
        setattr(rq, name, val)
        setattr(rq, other_name, mine)

    def second():
        app = b if who == 'other-app' else a
        expect(app.request, 'the other request, before it stores anything', name, gone)
        expect(app.request, 'the other request, before it stores anything', other_name, gone)
        setattr(app.request, name, others)
        expect(app.request, 'the other request', name, others)
        return '2'

    def go_second():
        app = b if who == 'other-app' else a
        if who == 'other-thread':
            t = threading.Thread(target=wsgi.call, args=(app, wsgi.environ('/second')))
            t.start()
            t.join()
        else:
            wsgi.call(app, wsgi.environ('/second'))

    def first():
        if where == 'handler':
            expect(a.request, 'before it is stored', name, gone)
            set_(a.request)
        expect(a.request, 'in the handler', name, val)
        if who != 'next':
            go_second()
        expect(a.request, 'afterwards', name, val)
        expect(a.request, 'afterwards', other_name, mine)
        return '1'
    if where == 'hook':
        a.add_hook('before_request', lambda *_, **k: set_(a.request) if a.request.path == '/first' else None)
    a.add_hook('after_request', lambda *_, **k: expect(a.request, 'in the after hook', name, val) if a.request.path == '/first' else None)
    a.route('/first', 'GET', first)
    a.route('/second', 'GET', second)
    b.route('/second', 'GET', second)
    r = wsgi.call(a, wsgi.environ('/first'))
    if r.code != 200 or r.body != b'1':
        bad.append(f'the application answers {r.status} {r.errors[-300:]}')
    if who == 'next':
        go_second()
    if bad:
        return f'{case!r}: {bad[0]}'


def gen_attributes(tier, rng):
    for where in ('handler', 'hook'):
        for who in ('other-app', 'other-thread', 'next'):
            for n in ATTRS:
                for v in VALUES:
                    yield where, who, n, v, 'spare'


def gen_threads(tier, rng):
    ks = ('plain', 'plain2', 'body', 'form', 'redir', 'abort', 'boom')
    for a, b in itertools.product(ks, repeat=2):
        yield a, b


ATTRIBUTES = B('attributes', gen_attributes, ev_attributes, target='BaseRequest.__setattr__/__getattr__, ts_props, Ombott._handle',
               bound=f'{len(ATTRS)} names x {len(VALUES)} values stored by a handler or a before-hook; the other request is of another application, in another thread, or the next one', exhaustive=True)
BOUNDED = [
    ATTRIBUTES,
    B('forwarded-environ', gen_forward, ev_forward, target='Ombott._handle, BaseRequest.copy', bound='a copy of the environ or of the request passed to another application', exhaustive=True),
    B('nested', gen_nested, ev_nested, target='ts_props, Request, Response, BaseRequest.copy, BaseResponse.copy, static_file, redirect', bound=f'{len(WHAT)} kinds of interference at every pause point of 14 handlers', exhaustive=True),
    B('turns', gen_turns, ev_turns, target='the same', bound='seeded random histories over 3 applications'),
    B('threads', gen_threads, ev_threads, target='the same', bound='pairs of handlers, one application per thread, meeting at each pause point'),
]

from ..contracts import state as _s  # noqa: E402
PROOFS = _s.C10
