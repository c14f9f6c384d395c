"""Independent WSGI driver and PEP 3333 validator (no repository code)."""
import io, re, sys

CTRL = re.compile(r'[\x00-\x1f\x7f]')
TOKEN = re.compile(r"^[!#$%&'*+\-.^_`|~0-9A-Za-z]+$")


def environ(path='/', method='GET', *, body=b'', qs='', headers=None, raw=False, **extra):
    if not raw:
        path = path.encode('utf8', 'surrogateescape').decode('latin1')
    e = {
        'REQUEST_METHOD': method, 'SCRIPT_NAME': '', 'PATH_INFO': path, 'QUERY_STRING': qs,
        'SERVER_NAME': '127.0.0.1', 'SERVER_PORT': '80', 'SERVER_PROTOCOL': 'HTTP/1.1',
        'HTTP_HOST': '127.0.0.1',
        'wsgi.version': (1, 0), 'wsgi.url_scheme': 'http', 'wsgi.errors': io.StringIO(),
        'wsgi.input': io.BytesIO(body), 'wsgi.multithread': True, 'wsgi.multiprocess': False,
        'wsgi.run_once': False,
    }
    if body:
        e['CONTENT_LENGTH'] = str(len(body))
    for k, v in (headers or {}).items():
        e['HTTP_' + k.upper().replace('-', '_')] = v
    e.update(extra)
    return e


class Result:
    __slots__ = ('calls', 'status', 'headers', 'body', 'chunks', 'escaped', 'errors', 'iter_error',
                 'environ', 'problems', 'closed')

    @property
    def code(self):
        return int(self.status[:3]) if self.status else None

    def h(self, name):
        return [v for k, v in self.headers if k.lower() == name.lower()]

    def key(self):
        return (self.status, self.headers, self.body, repr(self.escaped), repr(self.iter_error))


def call(app, env, *, do_close=True):
    """Drive one request the way a PEP 3333 server does."""
    return start(app, env, do_close)()


def start(app, env, do_close=True):
    """Call the application; the result reads the body and gives the response."""
    r = Result()
    r.calls, r.status, r.headers, r.body, r.chunks = [], None, [], b'', []
    r.escaped = r.iter_error = None
    r.environ, r.problems, r.closed = env, [], False

    def start_response(status, headers, exc_info=None):
        r.calls.append((status, headers, exc_info is not None))
        r.status, r.headers = status, headers
        return lambda data: None
    try:
        it = app(env, start_response)
    except Exception as e:
        r.escaped = e
        r.errors = _errors(env)
        return lambda: r
    return lambda: finish(r, it, env, do_close)


def finish(r, it, env, do_close):
    try:
        if not r.calls and isinstance(it, (list, tuple)):
            r.problems.append('start_response not called before return')
        for ch in it:
            if not r.calls:
                r.problems.append('chunk before start_response')
            if not isinstance(ch, bytes):
                r.problems.append(f'body item is {type(ch).__name__}, not bytes')
                continue
            r.chunks.append(ch)
    except Exception as e:
        r.iter_error = e
    finally:
        if do_close:
            c = getattr(it, 'close', None)
            if c:
                c()
    r.body = b''.join(r.chunks)
    r.errors = _errors(env)
    return r


def _errors(env):
    e = env.get('wsgi.errors')
    return e.getvalue() if hasattr(e, 'getvalue') else ''


def validate(r, method):
    """PEP 3333 / RFC 9110 problems of a response, as a list of strings."""
    p = list(r.problems)
    if r.escaped is not None:
        p.append(f'exception escaped to the server: {r.escaped!r}')
        return p
    if len(r.calls) != 1:
        p.append(f'start_response called {len(r.calls)} times')
        if not r.calls:
            return p
    st, hs = r.status, r.headers
    if type(st) is not str:
        p.append(f'status is {type(st)}')
        return p
    if not re.match(r'^[1-9][0-9][0-9] [^\x00-\x1f\x7f]*\Z', st):
        p.append(f'malformed status line {st!r}')
        return p
    try:
        st.encode('latin1')
    except UnicodeError:
        p.append('status not latin-1')
    if type(hs) is not list:
        p.append('header list is not a list')
    for h in hs:
        if type(h) is not tuple or len(h) != 2 or type(h[0]) is not str or type(h[1]) is not str:
            p.append(f'bad header tuple {h!r}')
            continue
        if not TOKEN.match(h[0]):
            p.append(f'bad header name {h[0]!r}')
        if re.search('[\r\n\0]', h[1]):
            p.append(f'control character in header {h!r}')
        try:
            h[1].encode('latin1')
        except UnicodeError:
            p.append(f'header value not latin-1 {h!r}')
    code = int(st[:3])
    nobody = method.upper() == 'HEAD' or 100 <= code < 200 or code in (204, 304)
    if nobody and r.body:
        p.append(f'{method} {code} carries a body {r.body[:40]!r}')
    return p
