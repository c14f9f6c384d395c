"""A feature-rich application and request kinds used by C08, C09, C10."""
import contextlib, io, json, os, sys, tempfile
from . import wsgi, mp

STATIC = None


def static_root():
    """a scratch folder with one file, made once per process"""
    global STATIC
    if STATIC is None or STATIC[0] != os.getpid():
        d = tempfile.mkdtemp(prefix='vf-scen-')
        with open(os.path.join(d, 'f.txt'), 'wb') as f:
            f.write(bytes(range(65, 91)) * 4)
        os.utime(os.path.join(d, 'f.txt'), (1600000000, 1600000000))
        STATIC = (os.getpid(), d)
        import atexit, shutil
        atexit.register(shutil.rmtree, d, True)
    return STATIC[1]


def cleanup():
    global STATIC
    if STATIC and STATIC[0] == os.getpid():
        import shutil
        shutil.rmtree(STATIC[1], True)
    STATIC = None


class Stream:
    """wsgi.input that can be weakly referenced"""

    def __init__(self, data):
        self.f = io.BytesIO(data)

    def read(self, n=-1):
        return self.f.read(n)


class Env(dict):
    """an environ that can be weakly referenced"""


SHARED = {}


def app(om, tag='', bodymax=60, memmax=100000, seen=None, inner=None, hooks=True):
    """-> application; every handler reads its request before and after a pause point and reports both"""
    a = om.Ombott({'max_body_size': bodymax, 'max_memfile_size': memmax})
    rq, rs = a.request, a.response

    def snap():
        return [rq.path, rq.method, dict(rq.query), rq.headers.get('X-Id'), dict(rq.cookies), rq.query_string, rq.environ.get('t.id'), getattr(rq, 'mark', None), rq.get('t.id'),
                rq.url, rq.fullpath, rq.content_length, rq.get_cookie('c'), rq.get_cookie('s', secret='k')]

    def note(tagx, *x):
        if seen is not None:
            seen.append((tagx,) + x)

    def work(n=0):
        if inner is not None:
            inner()
        return sum(range(3))

    def plain(x='', y=None):
        rq.mark = rq.get('t.id')
        s1 = snap()
        rs.status = 200 + len(rq.query_string) % 7
        rs.headers['X-Out'] = str(rq.get('t.id'))
        rs.headers.append('X-Multi', 'a' + str(rq.get('t.id')))
        work()
        rs.headers.append('X-Multi', 'b' + x)
        rs.set_cookie('c', 'v' + str(rq.get('t.id')))
        rs.set_cookie('s', [x, y], secret='k')
        s2 = snap()
        if s1 != s2:
            note('changed', s1, s2)
        out = [rs.status_line, rs.status_code, dict(rs.headers.items()), sorted(m.OutputString() for m in rs._cookies.values())]
        work()
        out2 = [rs.status_line, rs.status_code, dict(rs.headers.items()), sorted(m.OutputString() for m in rs._cookies.values())]
        if out != out2:
            note('response changed', out, out2)
        return json.dumps([tag, x, y, s1, s2, out], default=str)

    a.route('/p/<x>', 'GET', plain)
    a.route('/p/<x>/<y:int>', 'GET', plain)

    def body():
        work()
        b1 = rq.body.read()
        work()
        b2 = rq.body.read()
        rs.headers['X-Len'] = len(b1)
        return json.dumps([tag, b1.decode('latin1'), b2.decode('latin1'), rq.get('t.id')])
    a.route('/body', 'POST', body)

    def form():
        f = dict(rq.forms)
        work()
        fs = {k: [v.raw_filename, v.file.read().decode('latin1'), v.content_type, sorted(v.headers.keys())] for k, v in rq.files.items()}
        work()
        return json.dumps([tag, f, fs, dict(rq.params), rq.get('t.id'), rq.json])
    a.route('/form', 'POST', form)

    def boom():
        rs.set_cookie('boom', 'x')
        rs.headers['X-Boom'] = '1'
        rs.status = 201
        work()
        raise KeyError(rq.get('t.id'))
    a.route('/boom', 'GET', boom)

    def gen():
        rs.headers['X-Gen'] = str(rq.get('t.id'))
        t = rq.get('t.id')
        yield ''
        work()
        yield 'g%s' % rq.get('t.id')
        yield 'é%s' % t
    a.route('/gen', 'GET', gen)

    def abort():
        rs.set_cookie('ab', str(rq.get('t.id')))
        work()
        om.abort(403, 'no %s' % tag)
    a.route('/abort', 'GET', abort)

    def abortmsg():
        om.abort(403, 'msg %s <%s>' % (rq.headers.get('X-Id'), tag))
    a.route('/abortmsg', 'GET', abortmsg)

    def redir():
        rs.set_cookie('rd', str(rq.get('t.id')))
        rs.headers['X-Rd'] = str(rq.get('t.id'))
        work()
        om.redirect('/to/%s' % rq.get('t.id'))
    a.route('/redir', 'GET', redir)

    def static():
        work()
        return om.static_file('f.txt', static_root())
    a.route('/static', 'GET', static)

    def shared():
        r = SHARED.get('resp')
        if r is None:
            r = om.HTTPResponse('shared', 202, {'X-S': 's'})
            r.set_cookie('sh', '1')
            r.headers.append('X-L', 'a')
            r.headers.append('X-L', 'b')
            SHARED['resp'] = r
        raise r
    a.route('/shared', 'GET', shared)

    def sharederr():
        r = SHARED.get('err')
        if r is None:
            r = om.HTTPError(409, 'conflict')
            r.set_cookie('se', '1')
            r.headers.append('X-L', 'a')
            r.headers.append('X-L', 'b')
            SHARED['err'] = r
        raise r
    a.route('/sharederr', 'GET', sharederr)
    a.route('/only', 'PUT', lambda: 'put')
    a.route('/nothing', 'GET', lambda: None)
    a.route('/nocontent', 'GET', lambda: om.HTTPResponse('x', 204))

    def mutate(x=''):
        """takes its data apart after reporting it: the next request must find its own intact"""
        rep = [x, dict(rq.url_args), {k: (list(v) if isinstance(v, list) else v) for k, v in rq.query.items()}, dict(rq.cookies), {k: (list(v) if isinstance(v, list) else v) for k, v in rq.forms.items()},
               sorted(rq.params), [str(h) for h in rq.environ['route.hooks']], rq.remote_route[:], rq.headers.get('X-Id'), rq.json, list(rq.ctype)]
        work()
        for c in (rq.url_args, rq.query, rq.cookies, rq.forms, rq.params, rq.files, rq.POST):
            for v in c.values():
                if isinstance(v, list):
                    v.append('mutated')
            c['mutated'] = 'by %s' % rq.get('t.id')
            c.pop('a', None)
        for c in (rq.environ['route.hooks'], rq.remote_route, rq.ctype):
            c.append('mutated')
        if isinstance(rq.json, dict):
            rq.json.clear()
        rs.headers['Content-Type'] = 'text/x-mutated'
        rs.headers.append('X-M', '1')
        rs.headers.append('X-M', '2')
        rs.headers['X-M'].append('3')
        rs.set_cookie('m', '1', path='/m')
        return json.dumps(rep, default=str)
    a.route('/m/<x:re(.*)>', ['GET', 'POST'], mutate)

    def urls():
        n = int(rq.query['n'])
        got = [a.router['u'].url(x='x%d' % n, y=n, z='z/%d/' % n), a.router['u'].url(x='y' * n, y=-n, z='t')]
        work()
        return json.dumps(got + [a.router['v'].url(v='an%d' % n)])
    a.route('/urls', 'GET', urls)
    a.route('/u/<x>/k/<y:int>/m/<z:path>', 'GET', plain, name='u')
    a.route('/v/w.<v>', 'GET', plain, name='v')

    def gensharederr():
        yield ''
        r = SHARED.get('generr')
        if r is None:
            r = om.HTTPError(410, 'gone')
            r.headers.append('X-L', 'a')
            SHARED['generr'] = r
        raise r
    a.route('/gensharederr', 'GET', gensharederr)

    def itcharset():
        rs.headers['Content-Type'] = 'text/plain; charset=' + ('latin1' if int(rq.query['n']) % 2 else 'utf8')
        return iter(['', 'é%s' % rq.get('t.id'), 'ü', 'end'])
    a.route('/itcharset', 'GET', itcharset)

    def yieldresp():
        rs.set_cookie('y', str(rq.get('t.id')))
        yield ''
        r = om.HTTPResponse('yielded %s' % rq.get('t.id'), 203, {'X-Y': str(rq.get('t.id'))})
        r.set_cookie('yy', str(rq.get('t.id')))
        yield r
    a.route('/yieldresp', 'GET', yieldresp)

    def mutresp():
        """what the framework made for this request is changed by its handler"""
        try:
            om.abort(405, 'mine')
        except om.HTTPError as e:
            e.headers['X-Mut'] = str(rq.get('t.id'))
            e.headers['Allow'] = 'NONE'
            e.body = 'changed'
            raise
    a.route('/mutresp', 'GET', mutresp)
    a.error(404, '/h404')(lambda route, args: json.dumps([tag, route, args, rq.get('t.id'), args.append('x') if isinstance(args, list) else None]))

    def retry():
        try:
            rq.body
        except om.HTTPResponse as e:
            e.headers['X-Caught'] = str(rq.get('t.id'))
            e.body = 'caught %s' % rq.get('t.id')
            e.set_cookie('caught', str(rq.get('t.id')))
            e.status = 422
            raise
        return 'fine'
    a.route('/retry', 'POST', retry)

    @a.error(418)
    def e418(err):
        return 'tea'

    @a.error(413)
    def e413(err):
        err.headers.append('X-Big', str(rq.get('t.id'))) if False else None
        rs.headers.append('X-Big', str(rq.get('t.id')))
        rs.set_cookie('big', str(rq.get('t.id')))
        err.body = (err.body or '') + '!'
        return '413 %s %s' % (rq.get('t.id'), err.body)

    @a.error(409)
    def e409(err):
        rs.set_cookie('c409', str(rq.get('t.id')))
        rs.set_cookie('c409_%s' % rq.get('t.id'), '1')
        rs.headers.append('X-L', str(rq.get('t.id')))
        rs.headers['X-409-%s' % rq.get('t.id')] = '1'
        return '409 %s' % rq.get('t.id')
    if hooks:
        a.on('before_request', lambda: setattr(rq, 'hooked', rq.get('t.id')))

        def deny():
            if rq.headers.get('X-Deny'):
                r = SHARED.get('deny')
                if r is None:
                    r = om.HTTPError(401, 'denied')
                    r.set_cookie('deny', '1')
                    SHARED['deny'] = r
                raise r
        a.on('before_request', deny)

        def after():
            rs.headers['X-After'] = '%s-%s' % (rq.get('t.id'), getattr(rq, 'hooked', None))
        a.on('after_request', after)
    return a


def cookie(om, i):
    r = om.HTTPResponse()
    r.set_cookie('c', 'C%d' % i)
    r.set_cookie('s', ['S', i], secret='k')
    return '; '.join(m.OutputString() for m in r._cookies.values())


def chunk(data, n=5):
    return b''.join(b'%x\r\n' % len(data[i:i + n]) + data[i:i + n] + b'\r\n' for i in range(0, len(data), n)) + b'0\r\n\r\n'


KINDS = ('plain', 'plain2', 'body', 'chunked', 'chunkbad', 'big', 'bigchunk', 'form', 'multi', 'json', 'jsonbad', 'boom', 'gen', 'abort', 'redir', 'static', 'range', 'shared', 'sharederr', 'missing', 'notallowed', 'badpath',
         'jsonerr', 'nothing', 'head', 'nocontent', 'retry', 'multibad', 'head404', 'mutate', 'mutform', 'mutjson', 'yieldresp', 'mutresp', 'h404', 'deny', 'upload', 'itcharset', 'urls', 'gensharederr', 'abortmsg')


def request(om, kind, i):
    """environ of request kind, number i (different data in every one)"""
    path, method, qs, kw, data = '/p/x%d' % i, 'GET', '', {}, b''
    kw['t.id'] = 'id%d' % i
    kw['HTTP_X_ID'] = 'hdr%d' % i
    kw['HTTP_COOKIE'] = cookie(om, i)
    kw['HTTP_HOST'] = 'host%d' % i
    raw = False
    if kind == 'plain':
        qs = 'a=%d&b=%s' % (i, 'z' * i)
    elif kind == 'plain2':
        path, qs = '/p/é%d/%d' % (i, i), 'q=%d' % i
        kw.pop('HTTP_COOKIE')
    elif kind in ('body', 'big', 'retry'):
        path, method, data = '/body' if kind != 'retry' else '/retry', 'POST', (b'body%d' % i) * (1 if kind == 'body' else 30)
        kw['CONTENT_LENGTH'] = str(len(data))
    elif kind in ('chunked', 'chunkbad', 'bigchunk'):
        path, method, data = '/body', 'POST', chunk(b'chunk%d' % i * (1 if kind != 'bigchunk' else 30))
        if kind == 'chunkbad':
            data = data[:-7]
        kw['HTTP_TRANSFER_ENCODING'] = 'chunked'
    elif kind == 'form':
        path, method, data = '/form', 'POST', b'a=%d&b=x&b=y%d' % (i, i)
        kw.update(CONTENT_LENGTH=str(len(data)), CONTENT_TYPE='application/x-www-form-urlencoded')
    elif kind in ('multi', 'multibad'):
        data, _ = mp.build(b'b', ((b'Content-Disposition: form-data; name=a', b'%d' % i),)) if kind == 'multi' else (b'--b\r\nX', None)
        path, method = '/form', 'POST'
        kw.update(CONTENT_LENGTH=str(len(data)), CONTENT_TYPE='multipart/form-data; boundary=b')
    elif kind in ('json', 'jsonbad'):
        path, method, data = '/form', 'POST', b'{"a": %d}' % i if kind == 'json' else b'{"a": %d' % i
        kw.update(CONTENT_LENGTH=str(len(data)), CONTENT_TYPE='application/json')
    elif kind in ('boom', 'gen', 'abort', 'redir', 'static', 'shared', 'sharederr', 'nothing', 'nocontent'):
        path = '/' + kind
    elif kind == 'mutate':
        path, qs = '/m/a/b', 'a=1&a=2&b=x'
        kw['HTTP_X_FORWARDED_FOR'] = '1.1.1.1, 2.2.2.2'
    elif kind == 'mutform':
        path, method, qs, data = '/m/f', 'POST', 'a=1&a=2', b'a=3&a=4&c=5'
        kw.update(CONTENT_LENGTH=str(len(data)), CONTENT_TYPE='application/x-www-form-urlencoded')
    elif kind == 'mutjson':
        path, method, data = '/m/j', 'POST', b'{"a": 1, "l": [1]}'
        kw.update(CONTENT_LENGTH=str(len(data)), CONTENT_TYPE='application/json')
    elif kind == 'upload':
        ct = (None, 'a/b', 'text/x')[i % 3]
        data, _ = mp.build(b'b', ((mp.hdr('f', 'n%d' % i, ct), b'up%d' % i), (mp.hdr('g', 'm'), b'')))
        path, method = '/form', 'POST'
        kw.update(CONTENT_LENGTH=str(len(data)), CONTENT_TYPE='multipart/form-data; boundary=b')
    elif kind in ('itcharset', 'urls'):
        path, qs = '/' + kind, 'n=%d' % i
    elif kind in ('yieldresp', 'mutresp', 'gensharederr'):
        path = '/' + kind
    elif kind == 'abortmsg':      # one address, one status, another text
        path, kw['HTTP_HOST'] = '/abortmsg', 'same'
    elif kind == 'h404':
        path = '/h404/deep/%d' % i
    elif kind == 'deny':
        kw['HTTP_X_DENY'] = '1'
    elif kind == 'range':
        path = '/static'
        kw['HTTP_RANGE'] = 'bytes=%d-%d' % (i, i + 4)
    elif kind in ('missing', 'jsonerr', 'head404'):
        path, qs = '/missing/<%d>' % i, 'x=<%d>' % i
        if kind == 'jsonerr':
            kw['HTTP_ACCEPT'] = 'application/json'
        if kind == 'head404':
            method = 'HEAD'
    elif kind == 'notallowed':
        path = '/only'
    elif kind == 'badpath':
        path, raw, qs = '/\xff%d' % i, True, 'bad=%d' % i
    elif kind == 'head':
        method, qs = 'HEAD', 'h=%d' % i
    env = Env(wsgi.environ(path, method, qs=qs, raw=raw, **kw))
    env['wsgi.input'] = Stream(data)
    return env


def result(r):
    import re
    hs = sorted((k, re.sub(r'Date|GMT.*', '', v) if k == 'Date' else v) for k, v in r.headers)
    return r.status, hs, r.body, repr(r.escaped), repr(r.iter_error), [c[0] for c in r.calls]


@contextlib.contextmanager
def fresh():
    """a second copy of the library, as a new process would have it (caches of modules and classes empty)"""
    mine = lambda n: n == 'ombott' or n.startswith('ombott.')
    old = {n: sys.modules.pop(n) for n in list(sys.modules) if mine(n)}
    try:
        import ombott
        yield ombott
    finally:
        for n in [n for n in sys.modules if mine(n)]:
            del sys.modules[n]
        sys.modules.update(old)


_alone = {}


def alone(kind, i, tag=''):
    """the answer to a request that is the first and only one of its process"""
    if (kind, i, tag) not in _alone:
        SHARED.clear()
        with fresh() as om:
            _alone[kind, i, tag] = result(wsgi.call(app(om, tag), request(om, kind, i)))
        SHARED.clear()
    return _alone[kind, i, tag]
