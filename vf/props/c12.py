"""C12 malformed request bodies yield client errors, never server faults."""
import itertools, json
from ..core import B
from .. import wsgi, mp
from ..streams import Stream

LEVEL = 'other'
READS = ('forms', 'files', 'POST', 'json', 'body', 'params')
CTYPES = ['multipart/form-data; boundary=b', 'application/x-www-form-urlencoded', 'application/json', '', 'application/json; charset=utf-8', 'text/plain', 'multipart/form-data',
          'multipart/mixed; boundary="b"', 'application/jsonp', 'multipart/', 'Multipart/Form-Data; Boundary=b', 'multipart/form-data; boundary=', 'multipart/form-data; boundary="',
          'multipart/form-data; boundary=\xe9', 'multipart/x;boundary=;', 'APPLICATION/JSON', 'multipart/form-data; boundary=b; charset=utf-8', ';', 'multipart/form-data; boundary= ']


def frame(body, framing):
    if framing == 'chunked':
        return (b'%x\r\n' % len(body) + body + b'\r\n' if body else b'') + b'0\r\n\r\n', {'HTTP_TRANSFER_ENCODING': 'chunked'}
    if framing == 'chunked1':
        return b''.join(b'1\r\n%c\r\n' % c for c in body) + b'0\r\n\r\n', {'HTTP_TRANSFER_ENCODING': 'chunked'}
    if framing == 'chunkedcl':
        return (b'%x\r\n' % len(body) + body + b'\r\n' if body else b'') + b'0\r\n\r\n', {'HTTP_TRANSFER_ENCODING': 'chunked', 'CONTENT_LENGTH': '3'}
    if framing == 'raw':      # the bytes themselves as a chunked stream
        return body, {'HTTP_TRANSFER_ENCODING': 'chunked'}
    if framing == 'short':    # the client stops before Content-Length
        return body, {'CONTENT_LENGTH': str(len(body) + 7)}
    if framing == 'none':
        return body, {}
    return body, {'CONTENT_LENGTH': str(len(body))}


def ev(case, sets=[(x,) for x in READS] + [('json', 'forms', 'files'), ('body', 'forms')]):
    import ombott
    body, ctype, framing, mem, maxb, sched = case
    raw, env = frame(body, framing)
    for reads in sets:
        app = ombott.Ombott({'max_memfile_size': mem, 'max_body_size': maxb})
        got = {}

        def h():
            for x in reads:
                v = getattr(app.request, x)
                if x == 'body':
                    v = v.read()
                    got[x] = v
                elif isinstance(v, dict) and x != 'json':
                    got[x] = {k: [y if not hasattr(y, 'file') else ('FILE', y.file.read()) for y in (w if isinstance(w, list) else [w])] for k, w in v.items()}
                else:
                    got[x] = v
            return 'ok'
        app.route('/u', 'POST', h)
        r = wsgi.call(app, wsgi.environ('/u', 'POST', CONTENT_TYPE=ctype, **{'wsgi.input': Stream(raw, sched)}, **env))
        what = f'{reads} of {raw[:300]!r} as {ctype!r} {env!r} (buffer {mem}, limit {maxb})'
        if r.escaped is not None:
            return f'{what}: {r.escaped!r} escaped'
        if not (r.code == 200 or 400 <= r.code < 500):
            return f'{what}: {r.status!r} {r.errors[-600:]}'
        if r.errors:
            return f'{what}: wsgi.errors {r.errors[-600:]}'
        if r.code == 200 and ctype.startswith('multipart/') and framing != 'raw':
            e = complete(body, ctype, {k: v for k, v in got.items() if k in ('forms', 'files', 'POST')})
            if e:
                return f'{what}: {e}'
        if r.code == 200 and 'json' in reads and ctype.startswith('application/json') and ctype[16:17] in ('', ';') and framing in ('cl', 'chunked'):
            try:
                want = json.loads(body) if body else None
            except (ValueError, RecursionError):
                return f'{what}: accepted as JSON {got["json"]!r}'
            if repr(got['json']) != repr(want):
                return f'{what}: JSON {got["json"]!r}, sent {want!r}'


def complete(body, ctype, got):
    """every delivered value is a run of whole bytes between a header end and a delimiter"""
    b = ctype.split('oundary=')[-1].split(';')[0].strip().strip('"').encode('latin1') if 'oundary=' in ctype else None
    if b is None:
        return None
    tok = b'\r\n--' + b
    full = b'\r\n' + body
    for kind, d in got.items():
        for k, vs in d.items():
            for v in vs:
                if kind == 'params':
                    continue
                data = v[1] if isinstance(v, tuple) else (v.encode('utf8') if isinstance(v, str) else None)
                if data is None:
                    return f'{kind}[{k!r}] is {v!r}'
                if tok in data:
                    return f'{kind}[{k!r}] = {v!r} contains a delimiter'
                if b'\r\n\r\n' + data + tok not in full:
                    return f'{kind}[{k!r}] = {v!r} is not a complete delimited part'


def base_bodies():
    b = b'b'
    two, _ = mp.build(b, ((mp.hdr('a'), b'v1'), (mp.hdr('f', 'n.txt', 't/p'), b'data\r\nx')), b'', b'\r\n')
    one, _ = mp.build(b, ((mp.hdr('é'), 'é'.encode()),))
    yield two
    yield one


HEADERS = [b'', b'X', b'X: y', b'Content-Disposition: form-data', b'Content-Disposition: form-data; name', b'Content-Disposition: form-data; name=', b'Content-Disposition: form-data; name=a',
           b'Content-Disposition', b'Content-Disposition:', b': x', b'Content-Disposition: form-data; name="a"\r\nfoo', b'Content-Disposition: form-data; name="a', b'content-disposition: form-data; NAME="a"',
           b'Content-Disposition: form-data; name="a"; filename', b'Content-Disposition: form-data; name="a"; filename=', b'Content-Disposition: ;;;;', b'Content-Disposition: form-data; ;name="a"',
           b'\xff\xfe: x', b'Content-Disposition: form-data; name="\xff"', b'Content-Disposition: form-data; name="a"\r\nContent-Length: zz', b'Content-Type: x', b'Content-Disposition: form-data; name="a"\r\n',
           b'Content-Disposition: form-data; name="a"\n', b'\r', b'\n', b'Content-Disposition: form-data; name="a"\r\n b: c', b'Content-Disposition: form-data; name=""', b'Content-Disposition: form-data; =x']


def gen_structured(tier, rng):
    for h in HEADERS:
        for d in (b'', b'v', b'\xff', b'\r\n'):
            body, _ = mp.build(b'b', ((h, d),))
            for fr in ('cl', 'chunked'):
                yield body, CTYPES[0], fr, 100000, None, ()
            body, _ = mp.build(b'b', ((mp.hdr('x'), b'1'), (h, d), (mp.hdr('y'), b'2')))
            yield body, CTYPES[0], 'cl', 100000, None, (9,)
    frags = [b'', b'--b', b'--b--', b'--b\r\n', b'\r\n--b', b'\r\n--b\r\n', b'--b\r\n\r\n', b'--b\r\n\r\n\r\n--b--', b'--', b'-', b'\r', b'x', b'preamble\r\n--b\r\n', b'--bX', b'--b-', b'--b-X', b'--b\rX', b'--b \r\n',
             b'--b\r\nA: b', b'--b\r\nA: b\r\n', b'--b\r\nA: b\r\n\r', b'--b\r\nA: b\r\n\r\n', b'--b\r\nA: b\r\n\rX', b'\r\r\n--b--', b'\n--b--', b'--b\r\n--b--', b'--b\r\n\r\n--b\r\n\r\n--b--', b'--b--\r\n--b\r\nA: b\r\n\r\nq\r\n--b--']
    for f in frags:
        for fr in ('cl', 'chunked', 'chunked1', 'short', 'none', 'raw', 'chunkedcl'):
            for ct in CTYPES if fr == 'cl' else CTYPES[:4]:
                yield f, ct, fr, 100000, None, ()
    for t in base_bodies():
        for k in range(len(t) + 1):
            yield t[:k], CTYPES[0], 'cl', 100000, None, ()
            yield t[:k] + t[k + 1:], CTYPES[0], 'chunked', 100000, None, (3,)
            yield t[:k] + b'\r' + t[k:], CTYPES[0], 'cl', 64, None, ()
            yield t[:k], CTYPES[0], 'short', 30, None, ()


def gen_json(tier, rng):
    js = [b'', b'{}', b'[]', b'null', b'1', b'"a"', b'[["a",1]]', b'["ab"]', b'{"a":1}', b'{"a":[1,2]}', b'{', b'nul', b'{"a":', b'\xff', b'\xef\xbb\xbf{}', b'\xff\xfe{\x00}\x00', b'"\\ud800"', b'[' * 200000,
          b'{"a":' * 100000, b'1' * 5000, b'1e999', b'NaN', b' ', b'\x00', b'true', b'[1,2]', b'{"a":null}', b'{"a":1}x', b'"' + b'x' * 2000 + b'"', b'{"a":{"b":[{}]}}']
    for j in js:
        for ct in CTYPES:
            if ct.lower().startswith('application/json'):
                for fr in ('cl', 'chunked', 'short', 'none', 'chunkedcl'):
                    yield j, ct, fr, 1000000, None, ()
                yield j, ct, 'cl', 10, None, ()
                yield j, ct, 'cl', 1000000, 5, ()


def gen_random(tier, rng):
    bits = [b'--b', b'\r\n', b'\r', b'\n', b'-', b'--', b':', b';', b'=', b'"', b'Content-Disposition: form-data; name="a"', b'; filename="f"', b'\xff', b'\x00', b'A: b', b'\r\n\r\n', b'\r\n--b', b'x', b'{', b'[', b'%', b'&', b'a=b',
            b'5\r\nabcde\r\n', b'0\r\n\r\n', b'ff', b'name=']
    for _ in range(2500 if tier == 'quick' else 60000):
        body = b''.join(rng.choice(bits) for _ in range(rng.randint(0, 14)))
        if rng.random() < .2:
            body = bytes(rng.randrange(256) for _ in range(rng.randint(0, 30)))
        yield body, rng.choice(CTYPES[:1] * 8 + CTYPES), rng.choice(['cl', 'chunked', 'chunked1', 'short', 'none', 'raw', 'chunkedcl']), rng.choice([5, 20, 100, 100000]), rng.choice([None, None, 10]), rng.choice([(), (1,), (3, 7)])


def gen_tiny(tier, rng):
    al = b'-b\r\n:;x"'
    pre = b'--b\r\nContent-Disposition: form-data; name="a"'
    for n in range(0, 4 if tier == 'quick' else 5):
        for t in itertools.product(al, repeat=n):
            yield pre + bytes(t) + b'\r\n\r\nv\r\n--b--', CTYPES[0], 'cl', 100000, None, ()


def gen_long(tier, rng):
    """header lines whose length must not blow up the time to read them"""
    pre = b'Content-Disposition: form-data; name='
    for n in (30, 60) + ((40000,) if tier == 'quick' else (40000, 90000)):
        for run in (b'a', b' ', b'"', b';', b'=', b'\\', b'\\"', b'; ', b'="', b';=', b'a ', b'a="', b';a="b"', b'""', b'\t', b':', b'\xff', b'%41', b"*=''"):
            r = run * (n // len(run))
            for h in (pre + b'"' + r, pre + b'"' + r + b'"', pre + r, pre + b'"a"' + r + b'x"y"', pre + b'"a"; ' + r, pre + b'"a"; filename="' + r, r + b': x', b'X: ' + r + b';', b'Content-Type: ' + r + b'!'):
                body, _ = mp.build(b'b', ((h, b'v'),))
                yield body, CTYPES[0], 'cl', 1000000, None, ()


def ev_long(case):
    return ev(case, ((('forms', 'files'),)))


BOUNDED = [
    B('structured', gen_structured, ev, target='BodyMixin.POST/json/_body/_get_body_string, FieldStorage, MultipartMarkup, _iter_chunked through WSGI', bound='28 part headers, 28 delimiter fragments x 7 framings x content types, every truncation / deletion / insertion of 2 bodies', exhaustive=True),
    B('json', gen_json, ev, target='BodyMixin.json/POST', bound='29 JSON texts incl. deep nesting x framings x content types', exhaustive=True, timeout=30),
    B('header-bytes', gen_tiny, ev, target='FieldStorage.parse_header', bound='all strings of length <=3 (thorough 4) over 8 bytes appended to a part header', exhaustive=True),
    B('long-headers', gen_long, ev_long, target='FieldStorage.parse_header, MultipartMarkup', bound='19 runs of 30, 60 and 40000 characters at 9 places of a part header; 20 s each', exhaustive=True, timeout=20),
    B('random', gen_random, ev, target='the same', bound='seeded random'),
]


from ..contracts import upload as _c, state as _s, body as _b, query as _q  # noqa: E402
PROOFS = [_c.ERRORS, _c.STRING, _c.JSON, _c.POST_JSON, _c.POST_MULTI, *_c.BODY, _c.ANY_HEADER, _c.ANY_PART, _c.ITEMS,
          _s.RAISE, _s.CLONE, _b.ITER_BODY, _b.CHUNKED_SOUND, _b.BODY_READ_CL, _b.BODY_READ_CH, *_q.SCAN]
