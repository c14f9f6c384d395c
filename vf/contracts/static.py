"""Contracts of static_stream (C16, C17)."""
from ..pyvc.facade import *
from .body import Stream, zb_int

M = 'ombott.static_stream'

ABS = z3.Function('abspath', St, St)
JOIN = z3.Function('path_join', St, St, St)
NORM = z3.Function('is_normalised_absolute', St, Bo)
EXISTS, ISFILE, READABLE = [z3.Function('file_' + n, St, Bo) for n in ('exists', 'isfile', 'readable')]


def static_env(v, method, headers):
    """the operating system seen by static_file: paths are uninterpreted, every access is recorded"""
    log = []
    root = v.str('root')

    def path(x):
        if isinstance(x, str):
            return sval(x)
        if not isinstance(x, SStr):
            raise Unsupported(f'path {x!r}')
        return x.z

    def abspath(p):
        r = ABS(path(p))
        v.add(NORM(r))
        return SStr(r)
    # a normalised location ends in a separator only if it is the root of the file system
    base = If(z3.SuffixOf(sval('/'), ABS(root.z)), ABS(root.z), z3.Concat(ABS(root.z), sval('/')))
    inside = lambda p: And(NORM(p), z3.PrefixOf(base, p))

    def state(pred, what):
        def f(p, *a):
            p = path(p)
            v.add(z3.Implies(Or(ISFILE(p), READABLE(p)), EXISTS(p)))
            v.e.inputs[what] = SBool(pred(p))
            return SBool(pred(p))
        return f

    def join(a, b):
        a, b = path(a), path(b)
        if b.eq(sval('')):
            return SStr(If(z3.SuffixOf(sval('/'), a), a, z3.Concat(a, sval('/'))))
        return SStr(JOIN(a, b))

    def served(p):
        """p is a regular file that may be read"""
        return And(EXISTS(p), ISFILE(p), READABLE(p))
    clen = v.int('file_size', 0)
    mtime = v.int('mtime', 0)

    def touch(what):
        def f(p, *a, **k):
            p = path(p)
            v.check(f'{what} only below the root', inside(p))
            log.append((what, p))
            return {'stat': lambda: v.obj('stat', st_size=clen, st_mtime=v.obj('st_mtime', __int__=lambda b: mtime)),
                    'open': lambda: v.obj('file', _path=p, __bool__=lambda: True)}[what]()
        return f

    def os_open(p, mode='r', *a, **k):
        v.check('opened for reading only', mode == 'rb')
        return touch('open')(p)

    def basename(p):
        return v.fresh_str('basename')
    ospath = v.obj('os.path', abspath=abspath, exists=state(EXISTS, 'exists'), isfile=state(ISFILE, 'isfile'), join=join, sep='/', basename=basename)
    v.stub('static_stream:os', v.obj('os', path=ospath, sep='/', stat=touch('stat'), access=state(READABLE, 'readable'), R_OK=4))
    v.stub('static_stream:open', os_open)
    v.stub('static_stream:mimetypes', v.obj('mimetypes', guess_type=lambda p: v.either('type', lambda: (None, None), lambda: (v.fresh_str('type'), 'gzip'))))
    v.stub('static_stream:time', v.obj('time', time=lambda: 0))
    v.stub('static_stream:email', v.obj('email', utils=v.obj('utils', formatdate=lambda *a, **k: 'a date')))
    v.trust('os.path.abspath returns a normalised absolute path; os.path, os.stat, open, mimetypes, email.utils, time behave as documented')
    v.assumption('symbolic links inside the root are followed (the property speaks of the normalised location)')

    def environ_get(k, d=None):
        if k not in headers:
            raise Unsupported(f'environ key {k!r}')
        return headers[k]
    request = v.obj('request', method=method, environ=v.obj('environ', get=environ_get))
    v.stub('static_stream:serving_app', lambda: v.obj('app', request=request))

    def resp(kind):
        def f(*a, **k):
            names = ('body', 'status') if kind == 'response' else ('status', 'body')
            d = dict(k)
            for n, x in zip(names, a):
                d[n] = x
            st = d.pop('status', None)
            body = d.pop('body', '')
            hd = d.pop('headers', None)
            if hd:
                d.update(hd)
            return v.obj('result', _status=st, _body=body, _headers=d, _error=kind == 'error')
        return f
    v.stub('static_stream:HTTPResponse', resp('response'))
    v.stub('static_stream:HTTPError', resp('error'))
    return root, log, inside, served, clen, mtime


def contained(v):
    """C16: for every name, root and request nothing outside the root is touched"""
    hdr = lambda n: v.either(n, lambda: None, lambda: v.str(n))
    method = v.case('method', 'GET', 'HEAD')
    root, log, inside, served, clen, mtime = static_env(v, method, dict(HTTP_IF_MODIFIED_SINCE=hdr('ims'), HTTP_RANGE=hdr('range')))
    v.stub('static_stream:parse_date', lambda s: v.either('date', lambda: None, lambda: v.int('ims_time')))
    v.stub('static_stream:get_first_range', lambda h, n=0: v.either('first range', lambda: None, lambda: (v.int('start'), v.int('end'))))
    v.stub('static_stream:_file_iter_range', lambda fp, *a, **k: v.obj('parts', _fp=fp))
    f = v.fn(M + ':static_file')
    name = v.str('filename')
    download = v.either('download', lambda: False, lambda: v.str('download_name'))
    mt = v.either('mimetype', lambda: 'auto', lambda: v.str('mimetype'))
    o = v.call(f, name, root, mt, download)
    v.check('no exception', o.ok)
    st = o.value._status
    if o.value._error and st in (403, 404):
        v.check('nothing is opened for 403 and 404', not [x for x in log if x[0] == 'open'])
        v.cover('refused')
        return
    v.check('only a regular, readable file below the root is answered otherwise', And(len(log) > 0, *[served(p) for what, p in log]))
    for what, p in log:
        v.check('the file described is below the root', inside(p))
    v.cover('served')


STATIC_ROOT = Proof('static_file, containment', contained, covers=('refused', 'served'))


# ------------------------------------------------------------------ C17: the answer

def answer(v):
    method = v.case('method', 'GET', 'HEAD', 'POST')
    ims = v.either('ims', lambda: None, lambda: v.str('ims'))
    rng = v.either('range', lambda: None, lambda: v.str('range'))
    root, log, inside, served, clen, mtime = static_env(v, method, dict(HTTP_IF_MODIFIED_SINCE=ims, HTTP_RANGE=rng))
    T = v.either('date', lambda: None, lambda: v.int('ims_time'))
    R = v.either('first range', lambda: None, lambda: (v.int('start', 0), v.int('end', 0)))
    if R is not None:
        v.add(And(R[0].z < R[1].z, R[1].z <= clen.z))
    dates = []

    def pd(s):
        dates.append(s)
        return T

    def gfr(h, n=0):
        v.check("the Range header is parsed against the file length", And(h.z == rng.z, n.z == clen.z))
        return R

    def fir(fp, offset, n, *a):
        v.check('the slice is cut from the opened file with the standard buffer', '_path' in fp.attrs and not a)
        return v.obj('parts', _slice=(offset, n), __bool__=lambda: True)
    v.stub('static_stream:parse_date', pd)
    v.stub('static_stream:get_first_range', gfr)
    v.stub('static_stream:_file_iter_range', fir)
    f = v.fn(M + ':static_file')
    name = v.str('filename')
    o = v.call(f, name, root, v.case('mimetype', 'auto', 'text/plain'), v.case('download', False, True))
    v.check('no exception', o.ok)
    r = o.value
    st, body, h = r._status, r._body, r._headers
    if r._error and st in (403, 404):
        # containment decides which (C16)
        v.check('a readable file below the root is not refused', Not(log_inside(v, root, name, inside, served)))
        v.end()
    bad = {k for k in h if k.lower() in ('content-length', 'content-range')} - {'Content-Length', 'Content-Range'}
    v.check('no second spelling of a length header', not bad)
    # what the headers say
    given = zb(False) if ims is None else ims.z != sval('')
    notmod = And(given, len(dates) > 0, T is not None, (T.z if T is not None else 0) >= mtime.z)
    opened = [x for x in log if x[0] == 'open']
    if st == 304:
        v.check('304 only for a date not older than the file', notmod)
        v.check('304 has no body', body == '' and not opened)
        v.cover('304')
        return
    v.check('a date not older than the file yields 304', Not(notmod))
    has_range = zb(False) if rng is None else rng.z != sval('')
    if r._error or st == 416:
        v.check('416 only for a Range header without a satisfiable first range', And(st == 416, R is None, has_range))
        v.check('416 opens nothing', not opened)
        v.cover('416')
        return
    v.check('accepts ranges', h.get('Accept-Ranges') == 'bytes')
    cl = str_of(h['Content-Length']) if 'Content-Length' in h else None
    cl = cl if cl is None else lift(cl)
    v.check('HEAD opens nothing and has no body', method != 'HEAD' or (body == '' and not opened))
    v.check('a body comes from the one file described', method == 'HEAD' or len(opened) == 1)
    if st == 206:
        v.check('206 only for the first satisfiable range', And(has_range, R is not None))
        s, e = R[0].z, R[1].z
        cr = h.get('Content-Range')
        v.check('Content-Length is the length of the range', False if cl is None else cl.z == str_of(SInt(e - s)).z)
        v.check('Content-Range is the range', False if cr is None else lift(cr).z == z3.Concat(sval('bytes '), str_of(SInt(s)).z, sval('-'), str_of(SInt(e - 1)).z, sval('/'), str_of(SInt(clen.z)).z))
        if method != 'HEAD':
            sl = body.attrs.get('_slice')
            v.check('the body is the range', False if sl is None else And(zb_int(sl[0]) == s, zb_int(sl[1]) == e - s))
        v.cover('206')
    else:
        v.check('200 only without a Range header', And(st in (None, 200), Not(has_range)))
        v.check('Content-Length is the file length', False if cl is None else cl.z == str_of(SInt(clen.z)).z)
        v.check('no Content-Range', 'Content-Range' not in h)
        if method != 'HEAD':
            v.check('the body is the whole file', '_path' in body.attrs)
        v.cover('200')


def log_inside(v, root, name, inside, served):
    # the location the request names: abspath(join(root/, name stripped of separators))
    s = name.strip('/\\')
    p = ABS(JOIN(z3.Concat(ABS(root.z), sval('/')), s.z))
    # the root of the file system as the root of the files is not supported (everything is refused)
    return And(inside(p), served(p), Not(z3.SuffixOf(sval('/'), ABS(root.z))))


STATIC_ANSWER = Proof('static_file, 200/206/304/416', answer, covers=('200', '206', '304', '416'))


# ------------------------------------------------------------------ get_first_range

def range_any(v):
    """every header: None, or a non-empty slice of the file; never an exception"""
    f = v.fn(M + ':get_first_range')
    h, n = v.str('header'), v.int('maxlen', 0)

    def any_int(text, base=10):
        # whatever int() makes of the text
        if v.split(z3.Bool(v.e.fresh('is_number'))):
            return SInt(v.fresh_int('number'))
        v.throw(ValueError('invalid literal for int()'))
    v.e.hooks['int'] = any_int
    o = v.call(f, h, n)
    v.check('no exception', o.ok)
    if o.value is None:
        v.cover('none')
        return
    a, b = o.value
    v.check('a non-empty slice of the file', And(zb_int(a) >= 0, zb_int(a) < zb_int(b), zb_int(b) <= n.z))
    v.cover('range')


def range_rfc(v):
    """bytes=a-b: clipped as RFC 7233 says"""
    f = v.fn(M + ':get_first_range')
    n = v.int('maxlen', 0)
    D = z3.Star(z3.Range('0', '9'))
    a, b = v.str('first'), v.str('last')
    v.assume(z3.InRe(a.z, D))
    v.assume(z3.InRe(b.z, D))
    shape = v.case('shape', 'a-b', 'a-', '-n')
    v.assume((a.z == sval('')) == (shape == '-n'))
    v.assume((b.z == sval('')) == (shape == 'a-'))
    tail = v.either('more ranges', lambda: None, lambda: v.str('others'))
    h = 'bytes=' + a + '-' + b
    if tail is not None:
        h = h + ',' + tail
    I10 = lambda s: INTOF(s.z, z3.IntVal(10))
    for s in (a, b):
        v.add(Implies(z3.InRe(s.z, DIGITS), And(ISINT(s.z, z3.IntVal(10)), I10(s) >= 0)))
    v.trust('int(text) reads a decimal number')
    o = v.call(f, h, n)
    v.check('no exception', o.ok)
    if shape == 'a-b':
        s, e = I10(a), If(I10(b) + 1 < n.z, I10(b) + 1, n.z)
    elif shape == 'a-':
        s, e = I10(a), n.z
    else:
        s, e = If(n.z > I10(b), n.z - I10(b), 0), n.z
    if o.value is None:
        v.check('refused only when unsatisfiable', Not(And(s < e, e <= n.z)))
        v.cover('unsatisfiable')
    else:
        v.check('the range is the requested one, clipped', And(zb_int(o.value[0]) == s, zb_int(o.value[1]) == e))
        v.cover('range')


RANGE_ANY = Proof('get_first_range, any header', range_any, covers=('none', 'range'))
RANGE_RFC = Proof('get_first_range, RFC 7233 ranges', range_rfc, covers=('unsatisfiable', 'range'), solver_ms=15000)


# ------------------------------------------------------------------ _file_iter_range

def iter_range(v):
    st = Stream(v)
    off, n, mx = v.int('offset', 0), v.int('bytes_len', 0), v.int('maxread', 1)
    v.assume(off.z <= st.N)
    total = If(n.z < st.N - off.z, n.z, st.N - off.z)
    out = v.ghost(z3.IntVal(0), lambda: v.fresh_int('out', 0))

    def seek(p, *a):
        v.check('positioned at the offset', not a)
        st.pos.v = zb_int(p)

    def read(k):
        p, z = st.pos.v, zb_int(k)
        v.check('bounded reads', And(z >= 0, z <= mx.z))
        g = v.fresh_int('got', 0)
        v.add(And(g <= z, p + g <= st.N, Implies(And(g == 0, z > 0), p == st.N)))
        st.pos.v = p + g
        return SBuf(st.S, p, g)
    fp = v.obj('file', seek=seek, read=read)

    def inv(L):
        part = L.part
        return [('the part pending is the next one', And(part.z == st.S, part.off == off.z + out.v, st.pos.v == off.z + out.v + part.n, part.n <= mx.z, part.n >= 0, st.pos.v <= st.N)),
                ('what is left', And(zb_int(L.bytes_len) == n.z - out.v, out.v >= 0, part.n <= n.z - out.v)),
                ('an empty part is the end', Implies(part.n == 0, Or(out.v == n.z, st.pos.v == st.N)))]
    v.loop('_file_iter_range', 0, Loop(inv, lambda L: dict(bytes_len=SInt(v.fresh_int('left')), part=SBuf(st.S, v.fresh_int('o'), v.fresh_int('k', 0))),
                                       variant=lambda L: SInt(n.z - out.v), modifies=lambda L: [st.pos, out]))
    f = v.fn(M + ':_file_iter_range')

    def each(part):
        v.check('a part is the next bytes of the slice', And(part.z == st.S, part.off == off.z + out.v))
        v.check('a part is not empty and not larger than the buffer', And(part.n >= 1, part.n <= mx.z))
        out.v = out.v + part.n
        v.cover('part')
    o = v.consume(f(fp, off, n, mx), each)
    v.check('no exception', o.ok)
    v.check('exactly the slice', out.v == total)
    v.cover('end')


ITER_RANGE = Proof('_file_iter_range', iter_range, covers=('part', 'end'))
