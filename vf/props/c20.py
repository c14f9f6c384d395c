"""C20 framework error pages never reflect request data unescaped."""
import itertools, json, re
from html.parser import HTMLParser
from ..core import B
from .. import wsgi, mp

LEVEL = 'proof'
M = 'qZ7vK'


class Tags(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.t = []

    def handle_starttag(self, tag, attrs):
        self.t.append(('<', tag, tuple(k for k, v in attrs)))

    def handle_endtag(self, tag):
        self.t.append(('>', tag))

    def handle_comment(self, d):
        self.t.append(('c',))

    def handle_decl(self, d):
        self.t.append(('d', d))

    def handle_pi(self, d):
        self.t.append(('p',))

    def unknown_decl(self, d):
        self.t.append(('u',))


def tags(body):
    p = Tags()
    p.feed(body)
    p.close()
    return p.t


KINDS = ['404', '405', '400-path', '400-body', '413', '500', '500-type', 'critical-header', 'critical-status', 'critical-handler', 'critical-hook', 'static-404', 'static-403', '404-hook', '400-multipart', '400-json', '400-chunked', '500-iter', '416', 'abort', 'critical-charset', 'catch-start', '404-partial', '404-filter', '405-partial', '400-multipart-whole', '400-multipart-start']


def app_for(kind, om):
    app = om.Ombott()
    app.route('/ok', 'GET', lambda: 'ok')
    if kind == '405':
        app.route('/<p:path>', 'PUT', lambda p: 'x')
    elif kind == '404-hook':
        app.route('/ok/<x:path>', 'GET', lambda x: 'x')
        app.on_route('/h', lambda *a: None)
    elif kind == '404-partial':
        app.route('/ok/<x>/end', 'GET', lambda x: 'x')
        app.on_route('/ok/<x>', lambda *a: None)
    elif kind == '404-filter':
        app.route('/ok/<x:int>', 'GET', lambda x: 'x')
        app.route('/ok/<x:int>/<y:re(zzz)>/q', 'GET', lambda x, y: 'x')
    elif kind == '405-partial':
        app.route('/ok/<x:path>', ['PUT', 'OPTIONS'], lambda x: 'x')
        app.on_route('/ok', lambda *a: None)
    elif kind == '404':
        pass
    else:
        def h(p=''):
            rq, rs = app.request, app.response
            if kind in ('400-body', '400-chunked', '413'):
                rq.body.read()
            elif kind.startswith('400-multipart'):
                rq.forms, rq.files
            elif kind == '400-json':
                rq.json
            elif kind == '500':
                raise ValueError(f'boom {rq.path} {rq.query_string}')
            elif kind == '500-type':
                return 5
            elif kind == '500-iter':
                def g():
                    raise ValueError(rq.url)
                    yield b''
                return g()
            elif kind == 'critical-header':
                rs._headers['X'] = 5
            elif kind == 'critical-charset':
                rs.headers['Content-Type'] = 'text/html; charset=nosuch'
                return 'text'
            elif kind == 'critical-status':
                rs._status_code = 'x'
            elif kind == 'critical-handler':
                raise ValueError('to the error handler')
            elif kind == 'static-404':
                return om.static_file(rq.path + 'nosuch', root='/nonexistent-vf')
            elif kind == 'static-403':
                return om.static_file('../' + rq.path, root='/nonexistent-vf')
            elif kind == '416':
                import os
                return om.static_file('error.html', root=os.path.dirname(om.__file__))
            elif kind == 'abort':
                om.abort(409, 'static text')
            return 'ok'
        app.route('/', ['GET', 'POST'], h)
        app.route('/<p:path>', ['GET', 'POST'], h)
        if kind == 'critical-handler':
            def bad(err):
                raise ValueError(app.request.url)
            app.error(500)(bad) if callable(getattr(app, 'error', None)) else None
        if kind == 'critical-hook':
            def hook():
                raise ValueError(app.request.path)
            app.on('before_request', hook) if hasattr(app, 'on') else app.add_hook('before_request', hook)
        if kind == '413':
            app.setup({'max_body_size': 3}) if False else app.config.__setattr__('max_body_size', 3)
    return app


def request(kind, om, path, qs, host, accept, method, extra):
    app = app_for(kind, om)
    env = wsgi.environ('/' + {'404-partial': 'ok/', '405-partial': 'ok/', '404-filter': 'ok/7/'}.get(kind, '') + path, method, qs=qs)
    if kind == '400-path':
        env['PATH_INFO'] += '\xff'
    env['HTTP_HOST'] = host
    if accept:
        env['HTTP_ACCEPT'] = accept
    body = b''
    if kind == '413':
        body = b'xxxxxxx'
    elif kind == '400-multipart':
        body = b'--b\r\n' + path.encode() + b'\r\n\r\nx\r\n'
        env['CONTENT_TYPE'] = 'multipart/form-data; boundary=b'
    elif kind == '400-multipart-whole':
        body = b'--b\r\n' + path.encode() + b'\r\n\r\nx\r\n--b--\r\n'
        env['CONTENT_TYPE'] = 'multipart/form-data; boundary=b'
    elif kind == '400-multipart-start':
        body = path.encode() + b'--b--\r\n'
        env['CONTENT_TYPE'] = 'multipart/form-data; boundary=b'
    elif kind == '400-json':
        body = b'{' + path.encode()
        env['CONTENT_TYPE'] = 'application/json'
    elif kind in ('400-chunked', '400-body'):
        env['HTTP_TRANSFER_ENCODING'] = 'chunked'
        body = b'zz' + path.encode() + b'\r\n'
    elif kind == '416':
        env['HTTP_RANGE'] = 'bytes=' + qs
    if body:
        if method == 'GET':
            env['REQUEST_METHOD'] = 'POST'
        env['CONTENT_LENGTH'] = str(len(body))
        import io
        env['wsgi.input'] = io.BytesIO(body)
    env.update(extra)
    if kind == 'catch-start':
        n = []

        def go(e, sr):
            def sr2(s, h, x=None):
                n.append(1)
                if len(n) == 1:
                    raise ValueError(e['PATH_INFO'])
                return sr(s, h, x)
            return app(e, sr2)
        return wsgi.call(go, env)
    return wsgi.call(app, env)


BENIGN = {}


def fr(text):
    """a region between two markers is inert in HTML"""
    for m in re.finditer(f'{M}(.*?){M}', text, re.S):
        reg = m.group(1)
        if re.search('[<>"\']', reg):
            return reg
        for a in re.finditer('&', reg):
            if not re.match(r'&(#[0-9]+|#x[0-9a-fA-F]+|[a-zA-Z][a-zA-Z0-9]*);', reg[a.start():]):
                return reg


def ev(case):
    import ombott
    kind, payload, where, accept, method, repeat = case
    w = M + payload + M
    lat = w.encode('utf8', 'surrogatepass').decode('latin1')
    path, qs, host, extra = 'p', 'a=b', 'example.org', {}
    if 'path' in where:
        path = w
    if 'qs' in where:
        qs = lat
    if 'host' in where:
        host = lat
    if 'xhost' in where:
        extra['HTTP_X_FORWARDED_HOST'] = lat
    if 'proto' in where:
        extra['HTTP_X_FORWARDED_PROTO'] = lat
    if 'script' in where:
        extra['SCRIPT_NAME'] = '/' + lat
    if 'method' in where:
        method = w
    what = f'{kind} with {payload!r} in {where} Accept {accept!r} method {method!r}'
    isjson = bool(accept) and accept.startswith('application/json')
    key = (kind, isjson)
    for k in range(repeat):
        r = request(kind, ombott, path, qs, host, accept, method, extra)
        if r.escaped is not None:
            return f'{what}: {r.escaped!r}'
        if r.iter_error is not None:
            return f'{what}: {r.iter_error!r}'
        ct = ''.join(r.h('Content-Type'))
        if method.upper() == 'HEAD':
            if r.body:
                return f'{what}: HEAD with a body'
            continue
        text = r.body.decode('utf8')
        if r.code < 400:
            if M in text:
                return f'{what}: {r.status} {text!r}'
            continue
        if isjson:
            if not ct.startswith('application/json'):
                return f'{what}: {r.status} Content-Type {ct!r} though JSON was requested'
            try:
                v = json.loads(text, parse_constant=lambda c: 1 / 0)
            except Exception as e:
                return f'{what}: {r.status} body is not JSON ({e!r}): {text[:400]!r}'
        else:
            if not ct.startswith('text/html'):
                if fr(text):
                    return f'{what}: {r.status} {ct!r} {text!r}'
            e = fr(text)
            if e is not None:
                return f'{what}: {r.status} reflects {e!r} unescaped: {text[:600]!r}'
            if key not in BENIGN:
                b = request(kind, ombott, 'p', 'a=b', 'example.org', accept, 'GET', {})
                BENIGN[key] = (b.code, tags(b.body.decode('utf8')))
            if BENIGN[key][0] == r.code and tags(text) != BENIGN[key][1]:
                return f'{what}: {r.status} has other markup than a plain request: {text[:600]!r}'
            bad = [t for t in tags(text) if t[0] == '<' and t[1] in ('script', 'img', 'svg', 'b', 'i', 'zz', 'iframe')]
            if bad:
                return f'{what}: {bad}'


PAY = ['<script>alert(1)</script>', '<zz>', '"', "'", '&', '&amp;', '<', '>', '{', '}', '{}', '{0}', '{e}', '{e.status}', '{url}', '{e.__class__}', '{e.__init__.__globals__}', '%s', '%(x)s', '%', '%3Cscript%3E', '%00', '${x}', '{{', '}}', '{{x}}', '{!r}', '{traceback}', '\\', '\\x3cscript\\x3e', '\\u003cb\\u003e',
       '"><img src=x onerror=alert(1)>', "'><svg/onload=1>", '</pre><script>', '</tt><b>', '<!--', '-->', '<![CDATA[', '</title><script>', '</style>', '<style>', '<style', '`', ' ', '\t', '\x1f', '\x7f', '\r\n', '\n', '\r\n\r\n<b>', '\0', 'é', '日<b>', '\u2028', '\x80<b>\x9f', '\uff1cscript\uff1e', '&lt;', '&#60;', '&lt;b', '//', '/../', '?', '#', '#<b>',
       ';', ':80', '@', '[', ']', '[::1', 'a]b<b>', '\ufeff<b>', '+ADw-script+AD4-', '\x00<b>', 'x' * 3000 + '<b>', '<B>', '<\n b>', '{e.body}<b>', "\\'<b>", '\\"<b>', "'\"<b>"]
WHERES = [('path',), ('qs',), ('host',), ('path', 'qs', 'host'), ('xhost',), ('proto',), ('script',), ('method',)]


def gen_all(tier, rng):
    for kind in KINDS:
        for p in PAY:
            for w in WHERES:
                yield kind, p, w, '', 'GET', 1
            for acc in ('application/json', 'application/json;q=1, text/html'):
                yield kind, p, ('path', 'qs', 'host'), acc, 'GET', 1
        for p in PAY[:3]:
            for acc in ('text/html', '*/*', 'text/html, application/json', 'APPLICATION/JSON', 'application/jsonp', 'application/json, text/plain, */*', 'application/json,text/html;q=0.9', 'application/json; charset=utf-8'):
                yield kind, p, ('path', 'qs', 'host'), acc if acc != 'application/jsonp' else 'text/json', 'GET', 1
            yield kind, p, ('path', 'qs', 'host'), '', 'HEAD', 2
            yield kind, p, ('path', 'qs', 'host'), '', 'GET', 3
            yield kind, p, ('path', 'qs', 'host'), 'application/json', 'GET', 2


def gen_random(tier, rng):
    al = PAY[:20] + ['<', '>', '"', "'", '&', '{', '}', '%', 'b', '/', 'é', ';', '\\', '#']
    for _ in range(2500 if tier == 'quick' else 60000):
        yield (rng.choice(KINDS), ''.join(rng.choice(al) for _ in range(rng.randint(1, 6))), rng.choice(WHERES), rng.choice(['', '', '', 'text/html', 'application/json']), rng.choice(['GET', 'GET', 'POST', 'DELETE', 'HEAD']), rng.choice([1, 1, 2]))


def ev_char(case):
    """html_escape / render on every single character"""
    from ..core import Inapplicable
    from ombott import common_helpers
    f = getattr(common_helpers, 'html_escape', None)
    if f is None:
        raise Inapplicable('html_escape')
    import html
    s = case
    try:
        o = f(s)
    except TypeError as e:
        raise Inapplicable(str(e))
    if any(c in o for c in '<>"\'') or html.unescape(o) != html.unescape(html.escape(s)):
        return f'html_escape({s!r}) -> {o!r}'


def gen_char(tier, rng):
    al = '<>&"\';alt#0'
    for n in range(0, 4):
        for t in itertools.product(al, repeat=n):
            yield ''.join(t)
    for c in range(0x250):
        yield chr(c)


BOUNDED = [
    B('kinds-x-payloads', gen_all, ev, target='Ombott.default_error_handler, error_render.render, Ombott._wsgi critical page', bound='27 error kinds x 79 payloads x 8 places x HTML/JSON', exhaustive=True),
    B('random', gen_random, ev, target='the same', bound='seeded random'),
    B('escape', gen_char, ev_char, target='html_escape', bound='all strings of length <=3 over 11 characters, every character below U+0250', exhaustive=True),
]

from ..contracts import errors as _c  # noqa: E402
from ..contracts import app as _a  # noqa: E402
PROOFS = _c.PROOFS + _a.CRITICAL
