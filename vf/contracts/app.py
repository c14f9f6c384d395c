"""Contracts of the application object (C02, C03, C09, C20)."""
import json as _json
from ..pyvc.facade import *
from .errors import escaper, parts_of

A = 'ombott.ombott'


class Boom(Exception):
    """an arbitrary exception of application code"""


def boom(v, what='exception', every=False):
    """an arbitrary failure: ordinary, an HTTP response, or one that must pass through"""
    k = v.case(what, *(('Exception', 'KeyboardInterrupt', 'SystemExit', 'MemoryError') if every else ('Exception', 'KeyboardInterrupt')))
    return dict(Exception=Boom, KeyboardInterrupt=KeyboardInterrupt, SystemExit=SystemExit, MemoryError=MemoryError)[k]('x')


def closing(v, what, **attrs):
    """an iterable with or without close(); -> (object, list of close calls)"""
    closed = []

    def has():
        if not v.case(f'{what} has close', True, False):
            return ABSENT
        fails = v.case(f'{what}: close fails', False, True)

        def close():
            closed.append(1)
            if fails:
                v.throw(Boom('close'))
        return close
    return v.closed(what, lazy=dict(close=has), **attrs), closed


def closable(o):
    return o.attrs['_hasattr']('close')


def wsgi(v, stages, page=False):
    """_wsgi over the contracts of _handle and _cast"""
    # page: only what the last-resort page shows (C20)
    chk = (lambda *a: None) if page else v.check
    path = v.str('path')
    v.assume(ENCABLE8(path.z))
    esc, seen = escaper(v)
    v.stub('html_escape', esc)
    v.contract('html_escape', esc)
    seenin = {}

    def maybe(k, what):
        def f():
            seenin[k] = v.either(what, lambda: ABSENT, lambda: v.str(what))
            return seenin[k]
        return f
    written = []
    env = LazyDict({'REQUEST_METHOD': maybe('m', 'method'), 'HTTP_ACCEPT': maybe('a', 'accept')},
                   **{'PATH_INFO': path, 'wsgi.errors': v.closed('wsgi.errors', write=lambda s: written.append(s))})
    mapped = v.case('domain map', False, True)
    app_name = v.fresh_str('application name')
    v.add(ENCABLE8(app_name.z))
    if mapped:
        env['HTTP_HOST'] = v.str('host')
    catchall = v.case('catchall', True, False)
    dbg = []

    def debugging():
        dbg.append(v.case('debug', False, True))
        return dbg[0]
    cfg = v.closed('config', lazy=dict(debug=debugging), catchall=catchall, domain_map=(lambda h: app_name if v.case('mapped', True, False) else None) if mapped else {}, app_name_header='')
    code = v.int('status', 100, 999)
    line, hdrs = v.obj('status line'), v.obj('header list')
    state = dict(cast=0, headers=0)
    out, closed = closing(v, 'body')
    stage = v.case('failing', *stages)
    failure = []

    def fail():
        e = boom(v, every=stage == '_handle')
        failure.append(e)
        v.throw(e)

    def missing(n):
        if n != 'headerlist':
            throw(AttributeError(n))
        chk('headers are taken after the response is complete', state['cast'] == 1)
        state['headers'] += 1
        if stage == 'headerlist':
            fail()
        return hdrs
    rs = v.closed('response', _missing=missing, _status_code=v.int('status of an earlier request', 100, 999), _status_line=v.obj('line of an earlier request'))
    handled = v.obj('what the handler gave')

    def handle(s, environ):
        chk('the environ of this request', environ is env)
        if stage == '_handle':
            fail()
        return handled

    def cast(s, x):
        chk('what the handler gave is rendered', x is handled)
        if stage == '_cast':
            fail()
        state['cast'] += 1
        rs.attrs['_status_code'], rs.attrs['_status_line'] = code, line
        return out
    v.contract('Ombott._handle', handle)
    v.contract('Ombott._cast', cast)
    started = []

    def start_response(*a, **k):
        started.append(a)
    me = v.obj('app', real(A + ':Ombott'), config=cfg, response=rs)
    o = v.call(v.fn(A + ':Ombott._wsgi'), me, env, start_response)
    env.get('REQUEST_METHOD')
    method = seenin['m'] if isinstance(seenin['m'], SStr) else None
    is_head = UPPER(method.z) == sval('HEAD') if method is not None else z3.BoolVal(False)
    nobody = Or(code.z < 200, code.z == 204, code.z == 304, is_head)
    if not o.ok:
        chk('nothing escapes to the server', any(o.exc is f for f in failure) and (not isinstance(o.exc, Boom) or not catchall) or not catchall)
        chk('a request that escapes never started a response', not started)
        v.cover('passed through')
        return
    chk('exactly one start_response', len(started) == 1)
    if len(started) != 1:
        return
    st = started[0]
    if not failure and len(st) == 2:
        chk('with the status line and headers of the response', st[0] is line and st[1] is hdrs)
        if o.value is out:
            chk('no body for HEAD, 1xx, 204, 304', Not(nobody))
            chk('a body that is returned is not closed', not closed)
            v.cover('body')
        else:
            chk('a body is withheld only for HEAD, 1xx, 204, 304', nobody)
            chk('nothing is sent instead', isinstance(o.value, list) and not o.value)
            chk('an unsent body is closed exactly once', len(closed) == (1 if closable(out) else 0))
            v.cover('no body')
        return
    # the last-resort page
    env.get('HTTP_ACCEPT')
    accept = seenin['a'] if isinstance(seenin['a'], SStr) else None
    chk('a failure is what leads to the last-resort page', bool(failure) or bool(closed))
    chk('never for exceptions that must pass', not failure or isinstance(failure[0], Boom))
    chk('only with catchall', catchall)
    chk('it is a 500', isinstance(st[0], str) and st[0].startswith('500 ') and st[0].isascii())
    hs = st[1]
    chk('with a plain header list', isinstance(hs, list) and all(isinstance(h, tuple) and len(h) == 2 and all(isinstance(x, str) for x in h) for h in hs))
    chk('replacing a started response', len(st) == 3)
    if stage == 'headerlist':
        chk('the body that is not sent is closed', len(closed) == (1 if closable(out) else 0))
    chk('closed at most once', len(closed) <= 1)
    if isinstance(o.value, list) and not o.value:
        chk('only HEAD has no page', is_head)
        v.cover('last resort, HEAD')
        return
    chk('no page for HEAD', Not(is_head))
    chk('the page is one byte string', isinstance(o.value, list) and len(o.value) == 1 and kind_of(o.value[0]) == 'bytes')
    b = o.value[0]
    ctype = [x for k, x in hs if k == 'Content-Type']
    if isinstance(b, bytes):
        v.check('JSON is valid', ctype == ['application/json'])
        try:
            d = _json.loads(b)
        except ValueError:
            d = None
        v.check('JSON is valid (2)', isinstance(d, dict))
        if not (dbg and dbg[0]) and isinstance(d, dict):
            v.check('no exception without debug', d.get('exception') is None and d.get('traceback') is None)
        chk('JSON when it was asked for', accept is not None)
        chk('JSON when it was asked for (2)', z3.PrefixOf(sval('application/json'), accept.z) if accept is not None else False)
        v.cover('last resort, JSON')
        return
    v.check('a page is announced as HTML', len(ctype) == 1 and ctype[0].startswith('text/html'))
    if accept is not None:
        chk('a page only when JSON was not asked for', Not(z3.PrefixOf(sval('application/json'), accept.z)))
    src = page_text(v, b)
    if src is None:
        raise Unsupported('the page')
    for p in parts_of(src):
        for c in '<>"':
            v.check(f'request text carries no {c!r}', Not(z3.Contains(p, sval(c))))
    v.cover('last resort, HTML')


def page_text(v, b):
    """the text b is the UTF-8 encoding of"""
    z = b.z
    if z3.is_app(z) and z.decl().name() == 'enc_utf8':
        return SStr(z.arg(0))
    return SStr(z)


PAGES = ('last resort, HEAD', 'last resort, JSON', 'last resort, HTML')
WSGI = [Proof('Ombott._wsgi', lambda v: wsgi(v, [None]), covers=('body', 'no body'), max_paths=20000),
        Proof('Ombott._wsgi/_handle fails', lambda v: wsgi(v, ['_handle']), covers=('passed through',) + PAGES, max_paths=20000),
        Proof('Ombott._wsgi/_cast fails', lambda v: wsgi(v, ['_cast']), covers=('passed through',) + PAGES, max_paths=20000),
        Proof('Ombott._wsgi/headerlist fails', lambda v: wsgi(v, ['headerlist']), covers=('passed through',) + PAGES, max_paths=20000)]


CRITICAL = [Proof('Ombott._wsgi: last-resort page', lambda v: wsgi(v, ['_handle', '_cast', 'headerlist'], True), covers=('last resort, JSON', 'last resort, HTML'), max_paths=20000)]


# ------------------------------------------------------------------ _handle

def handle(v, fails, c09=False):
    # c09: only what keeps a request apart from earlier ones
    chk = (lambda *a: None) if c09 else v.check
    log = []
    fail = v.case('failing', *fails)
    resp_exc = real('ombott.response:HTTPResponse')
    httperror = real('ombott.response:HTTPError')
    failure = []

    def failing(where):
        if fail != where:
            return
        kind = v.case('with', 'HTTPResponse', 'Exception', 'KeyboardInterrupt', 'SystemExit', 'MemoryError')
        e = resp_exc('x') if kind == 'HTTPResponse' else dict(Exception=Boom, KeyboardInterrupt=KeyboardInterrupt, SystemExit=SystemExit, MemoryError=MemoryError)[kind]('x')
        failure.append((where, e))
        v.throw(e)
    made = []

    def error(*a, **k):
        o = v.obj('error', httperror, args=a, kw=k)
        made.append((a, k, o))
        return o
    v.stub('HTTPError', error)
    path = v.str('path')
    v.assume(z3.InRe(path.z, BYTES_RE))
    have_path = v.case('PATH_INFO', True, False)
    env = {'wsgi.errors': v.closed('wsgi.errors', write=lambda s: log.append('logged')), 'ombott.route': 'of an earlier owner'}
    if have_path:
        env['PATH_INFO'] = path
    rpath, verb = v.obj('request path'), v.obj('request method')
    me = v.obj('app', real(A + ':Ombott'))

    def init_request(e=None, *a, **k):
        v.check('the request is bound to this environ', e is env and not a and not k)
        log.append('request')

    def missing(n):
        if n in ('path', 'method'):
            v.check('the request is bound before it is read', 'request' in log)
            chk('routed by the decoded path', 'decoded' in log or n == 'method' or isinstance(env.get('PATH_INFO'), SStr) and env['PATH_INFO'].z.eq(DEC8(path.z)) or not have_path)
            return rpath if n == 'path' else verb
        throw(AttributeError(n))
    rq = v.closed('request', __init__=init_request, _missing=missing)

    def init_response(*a, **k):
        v.check('the response starts empty', not a and not k)
        log.append('response')
    rs = v.closed('response', __init__=init_response)
    me.attrs.update(request=rq, response=rs)

    def emit(s, name, *a, **k):
        v.check('the request is bound and the response reset before any hook', log[:2] in (['request', 'response'], ['response', 'request']))
        chk('the owning application is known to hooks', env.get('ombott.app') is me)
        log.append(name)
        failing(name)
    v.contract('Ombott.emit', emit)
    found = v.case('route', 'found', 'none')
    route, kwargs, hooks, err = v.obj('route handler'), v.obj('kwargs'), v.obj('hooks'), v.obj('404 or 405')
    routed = []

    def to_route(s, p, m):
        chk('routed by path and method of the request', p is rpath and m is verb)
        log.append('routed')
        failing('to_route')
        return ((route, kwargs, hooks), None) if found == 'found' else (None, err)
    v.contract('Ombott.to_route', to_route)
    result = v.obj('result')

    def handler(*a):
        if a and a[0] is me and len(a) == 6:
            a = a[1:]
        want = (route, kwargs, hooks, None) if found == 'found' else (None, None, None, err)
        chk('the handler gets the route, its parameters, its hooks or the error', a[0] is me and all(x is y for x, y in zip(a[1:], want)) and len(a) == 5)
        if found == 'found':
            v.check('the environ shows the matched route', env.get('ombott.route') is route and env.get('route.url_args') is kwargs)
        log.append('handled')
        failing('handler')
        return result
    v.contract('Ombott.handler', handler)
    v.trust('traceback.format_exc, sys.exc_info')
    o = v.call(v.fn(A + ':Ombott._handle'), me, env)
    v.check('the request is bound and the response reset first', sorted(log[:2]) == ['request', 'response'])
    tail = [x for x in log[2:] if x != 'logged']
    chk('the raw path is kept', isinstance(env.get('ombott.raw_path'), SStr) and env['ombott.raw_path'].z.eq(path.z) if have_path else env.get('ombott.raw_path') in ('', None))
    if have_path and not tail:
        chk('only an undecodable path is refused before routing', Not(DECABLE8(path.z)))
        chk('as a client error', o.ok and len(made) == 1 and o.value is made[0][2] and made[0][0][:1] == (400,))
        chk('with a fixed text', all(isinstance(x, (str, int, type(None))) for x in made[0][0]) if made else False)
        v.cover('undecodable')
        return
    if have_path:
        chk('a decodable path is served', DECABLE8(path.z))
    chk('after-hooks run exactly once, last', tail.count('after_request') == 1 and tail[-1] == 'after_request')
    chk('before-hooks run exactly once, first', tail.count('before_request') == 1 and tail[0] == 'before_request')
    chk('routing and handling in order, at most once', [x for x in tail if x in ('routed', 'handled')] in (['routed', 'handled'], ['routed'], []))
    if not failure:
        chk('the outcome of the handler is what is rendered', o.ok and o.value is result and 'handled' in tail)
        v.cover('handled')
        return
    where, e = failure[-1]
    if isinstance(e, resp_exc):
        chk('a raised response is what is rendered', o.ok and o.value is e)
        if c09:
            v.check('it keeps no traceback', o.ok and getattr(o.value, '__traceback__', None) is None)
        v.cover('raised response')
    elif isinstance(e, Boom):
        chk('a failure becomes a 500 response', o.ok and len(made) == 1 and o.value is made[0][2] and made[0][0][:1] == (500,))
        chk('its body is a fixed text', isinstance(made[0][0][1], str) if made and len(made[0][0]) > 1 else False)
        v.cover('failure')
    else:
        chk('exceptions that stop the process pass through', not o.ok and o.exc is e)
        v.cover('stop')


HANDLE = [Proof('Ombott._handle', lambda v: handle(v, [None, 'handler']), covers=('undecodable', 'handled', 'raised response', 'failure', 'stop')),
          Proof('Ombott._handle/routing and hooks fail', lambda v: handle(v, ['to_route', 'before_request', 'after_request']), covers=('raised response', 'failure', 'stop'))]


HANDLE_C09 = [Proof('Ombott._handle', lambda v: handle(v, [None, 'handler', 'to_route', 'before_request', 'after_request'], True), covers=('handled', 'raised response', 'failure'))]


# ------------------------------------------------------------------ _cast

def cast(v, kinds):
    """any value a handler may give, any number of nested responses"""
    resp, err = real('ombott.response:HTTPResponse'), real('ombott.response:HTTPError')
    hdr = []
    hdrs = v.closed('headers', setdefault=lambda k, x: hdr.append((k, x)))
    charset = v.obj('charset')
    rs = v.closed('response', headers=hdrs, charset=charset)
    wrapper = v.closed('wrapped')

    def file_wrapper(f, *a):
        wraps.append(f)
        return wrapper
    wraps = []
    renv = LazyDict({'wsgi.file_wrapper': lambda: v.either('file_wrapper', lambda: ABSENT, lambda: file_wrapper)})
    rq = v.closed('request', environ=renv)
    applied = []
    texts = []

    def text(what):
        b = v.fresh_str(what, 'bytes')
        v.add(b.z != sval(''))

        def encode(cs=None, *a):
            v.check('text is encoded with the charset of the response', cs is charset)
            if not v.split(z3.Bool(v.e.fresh('encodable'))):
                v.throw(UnicodeEncodeError('x', '\\ud800', 0, 1, 'x'))
            return b
        chars = v.fresh_int('characters', 1)
        v.add(chars <= z3.Length(b.z))
        o = v.closed(what, str, encode=encode, __bool__=lambda: True, __len__=lambda: SInt(chars))
        texts.append((o, b))
        return o

    def response(cls, what):
        def apply(r):
            v.check('applied to this response', r is rs)
            applied.append(o)

        o = v.closed(what, cls, apply=apply, __bool__=lambda: True, status_code=v.fresh_int('code', 100), with_traceback=lambda tb: o,
                     lazy=dict(body=lambda: any_out('body')))
        return o
    outs = []

    def any_out(what, kinds=('nothing', 'text', 'bytes', 'HTTPError', 'HTTPResponse', 'file', 'iterable', 'other')):
        k = v.case(what, *kinds)
        if k == 'nothing':
            o = v.closed('empty', __bool__=lambda: False)
        elif k == 'text':
            o = text(what)
        elif k == 'bytes':
            o = v.fresh_str(what, 'bytes')
            v.add(o.z != sval(''))
        elif k in ('HTTPError', 'HTTPResponse'):
            o = response(err if k == 'HTTPError' else resp, what)
        else:
            o = source(what, k)
        outs.append((o, k))
        return o

    def source(what, k):
        closed = []
        st = dict(closed=closed, iters=0, given=None, kind=k)
        lazy = dict(close=lambda: v.either(f'{what} has close', lambda: ABSENT, lambda: (lambda: closed.append(1))))
        o = v.closed(what, lazy=lazy, __bool__=lambda: True)
        has = o.attrs['_hasattr']

        def hasattr_(n):
            if n == '__iter__':
                return v.case(f'{what} iterable', True, False) if k == 'file' else k == 'iterable'
            return has(n)
        o.attrs['_hasattr'] = hasattr_
        if k == 'file':
            o.attrs['read'] = v.obj('read')

        def it():
            if k == 'other' or k == 'file' and v.case(f'{what} iter fails', False, True):
                v.throw(TypeError('not iterable'))
            st['iters'] += 1
            st['it'] = iterator(what, st)
            return st['it']
        o.attrs['__iter__'] = it
        st['o'] = o
        sources.append(st)
        return o
    sources = []

    def iterator(what, st):
        items = ('falsy', 'text', 'bytes', 'HTTPError', 'HTTPResponse', 'other')

        def nxt(*d):
            return item(v.case(f'next of {what}', 'stop', *items, 'raises', 'raises response', 'raises stop'))

        def item(k):
            if k == 'stop':
                v.throw(StopIteration())
            if k == 'raises':
                v.throw(Boom('next'))
            if k == 'raises response':
                e = st['raised'] = raised_response(resp, lambda r: applied.append(e), lambda: any_out('body'))
                v.throw(e)
            if k == 'raises stop':
                v.throw(KeyboardInterrupt())
            if k == 'falsy':
                x = v.closed('empty', __bool__=lambda: False)
            elif k == 'text':
                x = text('item')
            elif k == 'bytes':
                x = v.fresh_str('item', 'bytes')
                v.add(x.z != sval(''))
            elif k in ('HTTPError', 'HTTPResponse'):
                x = response(err if k == 'HTTPError' else resp, 'item')
            else:
                x = v.closed('item', Boom, __bool__=lambda: True)
            st['given'] = (k, x) if k != 'falsy' else None
            return x
        return SColl('iterator', inline=False, attrs=dict(__next__=nxt, some_item=lambda: item(v.case(f'item of {what}', *items))))

    chains = []

    def chain(*parts):
        o = v.closed('chain')
        chains.append((o, parts))
        return o
    v.stub('itertools', v.closed('itertools', chain=chain))
    wrapped = []

    def closeiter(it, close=None):
        o = v.closed('closeiter')
        wrapped.append((o, it, close))
        return o
    v.stub('_closeiter', closeiter)
    v.contract('_closeiter', closeiter)
    files = []

    def fwrap(f, *a):
        o = v.closed('WSGIFileWrapper')
        files.append((o, f))
        return o
    v.stub('WSGIFileWrapper', fwrap)
    errors = []

    def error(*a, **k):
        o = response(err, 'error')
        errors.append((o, a))
        return o
    v.stub('HTTPError', Errors(err, error))
    handled = []

    def default(s, o=None):
        o = s if o is None else o
        handled.append(o)
        return text('page')
    v.contract('Ombott.default_error_handler', default)

    def custom(o):
        handled.append(o)
        return any_out('what the error handler gives')

    def pick(code, d=None):
        return v.either('error handler', lambda: d, lambda: custom)
    me = v.obj('app', real(A + ':Ombott'), response=rs, request=rq, error_handlers=v.closed('error_handlers', get=pick))
    count = v.ghost(z3.IntVal(0), lambda: v.fresh_int('count', 0))

    def done(st):
        n = len(st['closed'])
        return n == 1 or n == 0 and not (st['given'] and closable(st['o']))

    def settled(L):
        """every source taken apart so far was given up properly: closed once iff it was begun"""
        out = []
        for st in sources:
            if st['o'] is L.out:
                continue
            out.append(('an iterable that is not returned is closed, once, if it gave anything', done(st)))
        return out

    def inv(L):
        # a response that was rendered was applied
        c = getattr(L, 'loops_cnt')
        now = []
        if len(cur) > 1:
            cur.pop()       # the arbitrary start of an iteration
        elif cur:
            was, k = cur[0]
            if k in ('HTTPError', 'HTTPResponse'):
                now.append(('a response is applied, once', applied == [was]))
                now.append(('and its body (or what the error handler makes of it) is rendered next', handled == [was] and L.out is not was if k == 'HTTPError' else not handled and L.out is was.attrs.get('body')))
            elif k in ('iterable', 'file', 'other'):
                g = [s for s in sources if s['o'] is was][0]
                item = g['given'] if g['given'] and 'raised' not in g else None
                if 'raised' in g:
                    now.append(('a response raised while iterating is rendered', L.out is g['raised']))
                elif item and item[0] in ('HTTPError', 'HTTPResponse'):
                    now.append(('a response yielded first is rendered', L.out is item[1]))
                else:
                    now.append(('otherwise nothing, or a 500', lift(L.out).z == sval('') if isinstance(L.out, (str, SStr)) else any(L.out is e and a[:1] == (500,) for e, a in errors)))
        return now + settled(L) + [('bounded', as_int(c) >= 0), ('bounded (2)', as_int(c) <= 1000)]

    cur = []

    def hav(L):
        del sources[:], outs[:], applied[:], handled[:], errors[:], texts[:], hdr[:]
        cur[:] = [(any_out('out', kinds), None)]
        cur[:] = outs[:1] + ['start']
        return {'out': cur[0][0], 'loops_cnt': SInt(v.fresh_int('loops', 0))}
    v.loop('Ombott._cast', 0, Loop(inv, hav, variant=lambda L: 1001 - L.loops_cnt))
    v.loop('Ombott._cast', 1, Loop(lambda L: [('an empty item is skipped', True)], lambda L: {'first': nextitem(L)}))

    def nextitem(L):
        st = [s for s in sources if s.get('it') is L.iout]
        if len(st) != 1:
            raise Unsupported('the iterator')
        # some later item
        return st[0]['it'].attrs['some_item']()
    first = any_out('out', kinds)
    o = v.call(v.fn(A + ':Ombott._cast'), me, first)
    if not o.ok:
        if isinstance(o.exc, UnicodeEncodeError):
            # charset of the response does not fit: the caller makes the last-resort page
            v.cover('unencodable')
            return
        v.check('only exceptions that stop the process pass', isinstance(o.exc, KeyboardInterrupt))
        return
    r = o.value
    if not errors:
        v.check('every response on the way was applied', all(sum(a is x for a in applied) == 1 for x, k in outs if k in ('HTTPError', 'HTTPResponse')))
    cl = [x for k, x in hdr if k == 'Content-Length']
    v.check('no other header is touched', len(cl) == len(hdr) and len(hdr) <= 1)
    begun = [s for s in sources if s['iters']]
    if isinstance(r, list):
        v.check('at most one byte string', len(r) <= 1 and all(kind_of(x) == 'bytes' for x in r))
        n = lift(r[0]).slen().z if r else z3.IntVal(0)
        v.check('Content-Length, when set here, is the number of bytes', And([as_int(x) == n for x in cl]) if cl else True)
        for s in begun:
            v.check('a consumed iterable is closed exactly once', done(s))
        v.cover('bytes' if r else 'empty')
        return
    v.check('no Content-Length is invented for a stream', not cl)
    if r is wrapper or any(r is w[0] for w in files):
        src = wraps[-1] if r is wrapper else [w[1] for w in files if w[0] is r][0]
        v.check('the file itself is handed over, unread', any(s['o'] is src and not s['iters'] and not s['closed'] for s in sources) and src.attrs['_hasattr']('read'))
        v.cover('file')
        return
    ci = [w for w in wrapped if w[0] is r]
    ch = [c for c in chains if c[0] is (ci[0][1] if ci else r)]
    lost = ci[0][1] if ci else r
    if not ch and any(lost is s.get('it') or isinstance(lost, SComp) and lost.src is s.get('it') for s in begun):
        v.check('an iterable is passed on with nothing lost', False)
        return
    if len(ch) != 1 or len(ch[0][1]) != 2:
        raise Misfit('how an iterable is passed on')
    head, rest = ch[0][1]
    s = [s for s in begun if s.get('it') is rest or isinstance(rest, SComp) and rest.src is s.get('it')]
    v.check('from the iterator that was begun', len(s) == 1)
    if len(s) != 1:
        return
    s = s[0]
    v.check('with exactly the item already taken', isinstance(head, list) and len(head) == 1)
    v.check('an open iterable is not closed yet', not s['closed'])
    if closable(s['o']):
        v.check('closing the answer closes the iterable', len(ci) == 1 and ci[0][2] is s['o'].attrs['close'])
    k, x = s['given']
    if isinstance(rest, SComp):
        v.check('items are passed on as bytes', k == 'text')
        v.check('the first item is encoded', any(o2 is x and head[0] is b for o2, b in texts))
        y = text('later item')
        got = v.call(lambda: rest.probe(y))
        v.check('every later item is passed on, encoded', not got.ok or len(got.value) == 1 and any(got.value[0] is b for o2, b in texts if o2 is y))
        v.cover('text items')
    else:
        v.check('byte items are passed on untouched', k == 'bytes' and head[0] is x)
        v.cover('byte items')


def raised_response(cls, apply, body):
    class Raised(cls):
        def __init__(self):
            pass

        def __bool__(self):
            return True

        def apply(self, r):
            apply(r)

        def with_traceback(self, tb):
            return self

        @property
        def body(self):
            return body()

        status_code = 418
    return Raised()


class Errors(type):
    """stands for HTTPError: isinstance works, the constructor is a contract"""
    def __new__(m, cls, make):
        r = type.__new__(m, 'HTTPError', (), {'_cls': cls, '_make': staticmethod(make), '_vf': True})
        return r

    def __init__(s, cls, make):
        pass

    def __call__(s, *a, **k):
        return s._make(*a, **k)

    def __instancecheck__(s, x):
        return isinstance(x, s._cls)

    def __subclasscheck__(s, x):
        return issubclass(x, s._cls) if isinstance(x, type) and x is not s else True


SOURCES = ('file', 'iterable', 'other')
CAST = [Proof('Ombott._cast', lambda v: cast(v, ('nothing', 'text', 'bytes', 'HTTPError', 'HTTPResponse')), covers=('unencodable', 'bytes', 'empty'), max_paths=20000),
        Proof('Ombott._cast/iterables', lambda v: cast(v, ('iterable',)), covers=('byte items', 'text items'), max_paths=20000),
        Proof('Ombott._cast/files', lambda v: cast(v, ('file', 'other')), covers=('file',), max_paths=20000)]


# ------------------------------------------------------------------ hooks, helpers, status

def emit(v):
    name = v.case('name', 'before_request', 'after_request')
    hooks = {n: SColl(n, inline=False) for n in ('before_request', 'after_request')}
    snaps = []

    def snap(n):
        def f(k):
            if not (isinstance(k, slice) and k == slice(None, None, None)):
                raise Unsupported('part of the hooks')
            s = SColl('snapshot', inline=False)
            snaps.append((n, s))
            return s
        return f
    for n, h in hooks.items():
        h.attrs['__getitem__'] = snap(n)
        h.attrs['copy'] = lambda n=n: snap(n)(slice(None))
    me = v.obj('app', real(A + ':Ombott'), _hooks=hooks)
    x, y = v.obj('argument'), v.obj('keyword')
    o = v.call(v.fn(A + ':Ombott.emit'), me, name, x, key=y)
    v.check('no failure of its own', o.ok)
    comps = v.e.memo.get('comps', [])
    if len(comps) != 1 or comps[0].kind not in ('list', 'set'):
        raise Misfit('how hooks are called')
    c = comps[0]
    v.check('over the hooks of that name, as they are when it starts', any(c.src is s and n == name for n, s in snaps))
    calls = []

    def hook(*a, **k):
        calls.append((a, k))
    hook._vf = True
    c.probe(hook)
    v.check('each is called once, with the arguments', calls == [((x,), {'key': y})])
    v.cover('emitted')


def add_hook(v):
    name = v.case('name', 'before_request', 'after_request')
    log = []

    def lst(n):
        return v.closed(n, append=lambda f: log.append((n, 'end', f)), insert=lambda i, f: log.append((n, i, f)))
    hooks = {n: lst(n) for n in ('before_request', 'after_request')}
    me = v.obj('app', real(A + ':Ombott'), _hooks=hooks)
    f = v.obj('hook')
    o = v.call(v.fn(A + ':Ombott.add_hook'), me, name, f)
    v.check('added once under its name', o.ok and len(log) == 1 and log[0][0] == name and log[0][2] is f)
    v.check('before-hooks run in registration order, after-hooks in reverse', log[0][1] == (0 if name == 'after_request' else 'end') if log else False)
    v.cover(name)


def closeiter(v):
    cls = real(A + ':_closeiter')
    n = v.ghost(0)
    calls = []

    def cb():
        calls.append(1)
    cb._vf = True
    it = iter(())
    inner = v.closed('iterator', __iter__=lambda: it)
    me = v.obj('closeiter', cls)
    a = v.call(v.fn(A + ':_closeiter.__init__'), me, inner, cb)
    v.check('constructed', a.ok and not calls)
    b = v.call(v.fn(A + ':_closeiter.__iter__'), me)
    v.check('iterates the answer', b.ok and b.value is it and not calls)
    c = v.call(v.fn(A + ':_closeiter.close'), me)
    v.check('close() closes exactly once', c.ok and calls == [1])
    v.cover('closed')
    o = v.closed('answer', lazy=dict(close=lambda: v.either('close', lambda: ABSENT, lambda: cb)))
    del calls[:]
    d = v.call(v.fn(A + ':_close'), o)
    v.check('_close closes what can be closed, once', d.ok and len(calls) == ('close' in o.attrs))


def status(v):
    cls = real('ombott.response:BaseResponse')
    import re as _re
    me = v.obj('response', cls, _status_code=None, _status_line=None)
    x = v.either('status', lambda: v.int('status'), lambda: v.str('status'), lambda: v.closed('neither', strip=lambda: v.throw(AttributeError('x'))))
    p = cls.__dict__['status'].fset

    def int_(s, base):
        # what int() says of three decimal digits
        d = [z3.StrToCode(z3.SubString(s.z, i, 1)) - 48 for i in range(3)]
        v.add(Implies(z3.InRe(s.z, THREE), rt.INTOF(s.z, z3.IntVal(base)) == 100 * d[0] + 10 * d[1] + d[2]))
        v.add(Implies(z3.InRe(s.z, THREE), rt.ISINT(s.z, z3.IntVal(base))))
        if not v.split(rt.ISINT(s.z, z3.IntVal(base))):
            v.throw(ValueError('invalid literal for int()'))
        return SInt(rt.INTOF(s.z, z3.IntVal(base)))
    v.e.hooks['int'] = int_
    o = v.call(p, me, x)
    code, line = me.attrs['_status_code'], me.attrs['_status_line']
    if not o.ok:
        v.check('a refused status changes nothing', code is None and line is None)
        if isinstance(x, SInt):
            v.check('only a code out of range is refused', Or(x.z < 100, x.z > 999))
        v.cover('refused')
        return
    c = as_int(code)
    v.check('the code has three digits', And(c >= 100, c <= 999))
    z = lift(line)
    v.check('the line is text', isinstance(z, SStr) and z.kind == 'str')
    if isinstance(x, SInt) or not isinstance(x, SStr):
        v.check('the line starts with the code and a blank', z3.PrefixOf(z3.Concat(z3.IntToStr(c), sval(' ')), z.z))
    else:
        d = [z3.StrToCode(z3.SubString(z.z, i, 1)) - 48 for i in range(3)]
        v.check('the line starts with three digits', And(*[And(0 <= a, a <= 9) for a in d]))
        v.check('the digits are the code', c == 100 * d[0] + 10 * d[1] + d[2])
        v.check('the line starts with the code and a blank', z3.SubString(z.z, 3, 1) == sval(' '))
    v.check('a reason phrase follows', z3.Length(z.z) > 4)
    v.check('the line has no control characters and fits Latin-1', z3.InRe(z.z, z3.Star(Or_re((0x20, 0x7e), (0x80, 0xff)))))
    if isinstance(x, SInt):
        v.check('the code is the given one', c == x.z)
    else:
        v.check('the line is the given one', z3.Contains(x.z, z.z))
    v.cover('code' if isinstance(x, SInt) else 'line')


THREE = z3.Loop(z3.Range('0', '9'), 3, 3)


def Or_re(*rs):
    from ..pyvc.rx import rng, union
    return union([rng(a, b) for a, b in rs])


EMIT = Proof('Ombott.emit', emit, covers=('emitted',))
ADD_HOOK = Proof('Ombott.add_hook', add_hook, covers=('before_request', 'after_request'))
CLOSEITER = Proof('_closeiter, _close', closeiter, covers=('closed',))
STATUS = Proof('BaseResponse.status', status, covers=('refused', 'code', 'line'))
C03 = WSGI + HANDLE + CAST + [EMIT, ADD_HOOK, CLOSEITER, STATUS]
