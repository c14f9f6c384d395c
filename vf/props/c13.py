"""C13 body size limits and disk spooling bound what a request can consume."""
import io, tracemalloc
from ..core import B
from .. import wsgi, mp
from ..streams import Stream

LEVEL = 'proof'


def payload(n):
    return bytes((i * 7 + i // 251) % 251 for i in range(n))


class Gen:
    """stream producing a payload lazily (nothing of it is held by the harness); counts what is asked for"""

    def __init__(self, n, sched=()):
        self.n, self.pos, self.sched, self.k, self.asked, self.got = n, 0, sched, 0, 0, 0

    def read(self, n=-1):
        if n is None or n < 0:
            raise AssertionError(f'unbounded read({n})')
        self.asked = max(self.asked, self.pos + n)
        m = min(n, self.n - self.pos)
        if self.sched and m:
            m = max(1, min(m, self.sched[self.k % len(self.sched)]))
            self.k += 1
        out = bytes((i * 7 + i // 251) % 251 for i in range(self.pos, self.pos + m))
        self.pos += m
        return out


class Chunked:
    """the same payload, chunked; counts payload bytes taken"""

    def __init__(self, n, sizes, sched=()):
        self.buf, self.sizes, self.rest, self.i, self.n, self.made = b'', sizes, n, 0, n, 0
        self.sched, self.k = sched, 0
        self.end = False
        self.payload_left_in_buf = 0

    def _fill(self):
        if self.rest > 0:
            m = min(self.rest, self.sizes[self.i % len(self.sizes)])
            self.i += 1
            self.buf += b'%x\r\n' % m + bytes((i * 7 + i // 251) % 251 for i in range(self.made, self.made + m)) + b'\r\n'
            self.spans.append((self.total, self.total + len(b'%x\r\n' % m), m))
            self.total += len(b'%x\r\n' % m) + m + 2
            self.made += m
            self.rest -= m
        elif not self.end:
            self.end = True
            self.buf += b'0\r\n\r\n'
    spans, total, pos = None, 0, 0

    def read(self, n=-1):
        if n is None or n < 0:
            raise AssertionError(f'unbounded read({n})')
        if self.spans is None:
            self.spans = []
        while len(self.buf) < n and not self.end:
            self._fill()
        m = min(n, len(self.buf))
        if self.sched and m:
            m = max(1, min(m, self.sched[self.k % len(self.sched)]))
            self.k += 1
        out, self.buf = self.buf[:m], self.buf[m:]
        self.pos += m
        return out

    def payload_taken(self):
        return sum(max(0, min(self.pos - data, m)) for _, data, m in self.spans or [])


def on_disk(f):
    """the content is in a file of the file system, without moving it there by asking"""
    if getattr(f, '_rolled', True) is False or isinstance(f, io.BytesIO):
        return False
    try:
        return f.fileno() >= 0
    except (AttributeError, OSError):
        return False


def ev_limit(case):
    import ombott
    n, limit, mem, framing, sched = case
    app = ombott.Ombott({'max_memfile_size': mem, 'max_body_size': limit})
    got = {}

    def h():
        b = app.request.body
        got['disk'] = on_disk(b)
        got['data'] = b.read()
        return 'ok'
    app.route('/u', 'POST', h)
    if framing[0] == 'cl':
        st = Gen(n, sched)
        env = {'CONTENT_LENGTH': str(n)}
    else:
        st = Chunked(n, framing[1], sched)
        env = {'HTTP_TRANSFER_ENCODING': 'chunked'}
        if len(framing) > 2:
            env['CONTENT_LENGTH'] = framing[2]
    r = wsgi.call(app, wsgi.environ('/u', 'POST', **{'wsgi.input': st}, **env))
    taken = st.pos if framing[0] == 'cl' else st.payload_taken()
    what = f'body of {n}, limit {limit}, threshold {mem}, {framing}, reads {sched}'
    if limit is not None and n > limit:
        if r.code != 413:
            return f'{what}: {r.status!r} {r.errors[-300:]}'
        if taken > limit + mem:
            return f'{what}: {taken} bytes were read'
        if framing[0] == 'cl' and st.asked > limit + mem:
            return f'{what}: bytes up to {st.asked} were asked for'
        return None
    if r.code != 200:
        return f'{what}: {r.status!r} {r.errors[-300:]}'
    if got['data'] != payload(n):
        return f'{what}: content differs'
    if n > mem and not got['disk']:
        return f'{what}: kept in memory'


def gen_limit(tier, rng):
    big = tier != 'quick'
    for mem in (5, 8, 16) + ((64, 100) if big else ()):
        for limit in (None, 0, 1, mem - 1, mem, mem + 1, 2 * mem, 3 * mem + 1):
            for n in sorted({0, 1, mem - 1, mem, mem + 1, 2 * mem, 5 * mem + 3} | ({limit - 1, limit, limit + 1, limit + mem, limit + mem + 1, limit + 2 * mem} if limit is not None else set())):
                if n < 0:
                    continue
                for fr in (('cl',), ('ch', (1,)), ('ch', (3, 7)), ('ch', (10 ** 6,)), ('ch', (mem,)), ('ch', (2,), '1'), ('ch', (4,), '100000')):
                    for sched in ((), (1,), (3, 2)):
                        yield n, limit, mem, fr, sched


def ev_memory(case):
    """a big body never sits in memory"""
    import ombott
    n, mem, framing = case
    app = ombott.Ombott({'max_memfile_size': mem})
    res = {}

    def h():
        b = app.request.body
        res['peak'] = tracemalloc.get_traced_memory()[1]
        b.seek(0, 2)
        res['size'] = b.tell()
        return 'ok'
    app.route('/u', 'POST', h)
    st = Gen(n) if framing == 'cl' else Chunked(n, (mem // 2,))
    env = {'CONTENT_LENGTH': str(n)} if framing == 'cl' else {'HTTP_TRANSFER_ENCODING': 'chunked'}
    e = wsgi.environ('/u', 'POST', **{'wsgi.input': st}, **env)
    tracemalloc.start()
    base = tracemalloc.get_traced_memory()[0]
    try:
        r = wsgi.call(app, e)
    finally:
        tracemalloc.stop()
    if r.code != 200 or res['size'] != n:
        return f'{case!r}: {r.status!r} {res!r}'
    if res['peak'] - base > n // 2:
        return f'a {n} byte body with threshold {mem} ({framing}) peaks at {res["peak"] - base} bytes of memory'


def gen_memory(tier, rng):
    for n in (300000, 600000):
        for mem in (2000, 20000):
            for fr in ('cl', 'ch'):
                yield n, mem, fr


def ev_form(case):
    """form text above the threshold is refused, below it is accepted"""
    import ombott
    kind, mem, n, framing = case
    app = ombott.Ombott({'max_memfile_size': mem})
    got = []

    def h():
        v = app.request.json if kind == 'json' else app.request.forms
        got.append(v)
        return 'ok'
    app.route('/u', 'POST', h)
    if kind == 'url':
        body, ct = b'a=' + b'x' * (n - 2), 'application/x-www-form-urlencoded'
        text = n
    elif kind == 'json':
        body, ct = b'"' + b'x' * (n - 2) + b'"', 'application/json'
        text = n
    elif kind == 'text':
        body, ct = b'x' * n, 'text/plain'
        text = n
    else:
        pieces = {'mp1': [n], 'mp3': [n // 3, n // 3, n - 2 * (n // 3)], 'mpf': [n]}[kind]
        parts = tuple((mp.hdr('a%d' % i), b'x' * k) for i, k in enumerate(pieces))
        if kind == 'mpf':
            parts += ((mp.hdr('f', 'f', 'a/b'), b'y' * (4 * mem)),)
        body, _ = mp.build(b'bnd', parts)
        ct = 'multipart/form-data; boundary=bnd'
        text = n
    if framing == 'cl':
        env = {'CONTENT_LENGTH': str(len(body))}
        raw = body
    else:
        step = {'ch': 17, 'ch1': 1, 'chcl': 50}[framing]
        raw = b''.join(b'%x\r\n' % len(body[i:i + step]) + body[i:i + step] + b'\r\n' for i in range(0, len(body), step)) + b'0\r\n\r\n'
        env = {'HTTP_TRANSFER_ENCODING': 'chunked'}
        if framing == 'chcl':
            env['CONTENT_LENGTH'] = '4'
    r = wsgi.call(app, wsgi.environ('/u', 'POST', CONTENT_TYPE=ct, **{'wsgi.input': Stream(raw)}, **env))
    what = f'{kind} with {n} bytes of text, threshold {mem}, {framing}'
    hdrs = sum(len(h) for h, _ in parts) if kind.startswith('mp') else 0
    if text > mem:
        if r.code != 413:
            return f'{what}: {r.status!r} {repr(got)[:100]} {r.errors[-300:]}'
    elif text + hdrs <= mem:
        if r.code != 200:
            return f'{what}: {r.status!r} {r.errors[-300:]}'
        if kind != 'json':
            v = ''.join(got[0].values()) if kind != 'text' else ''.join(got[0].keys())
            if kind == 'url':
                ok = dict(got[0]) == {'a': 'x' * (n - 2)}
            else:
                ok = v == 'x' * n
            if not ok:
                return f'{what}: delivered {v[:60]!r}…'
        elif got[0] != 'x' * (n - 2):
            return f'{what}: delivered {got[0]!r}'


def gen_form(tier, rng):
    for mem in (200, 400, 1000):
        for kind in ('url', 'json', 'text', 'mp1', 'mp3', 'mpf'):
            for n in (10, mem // 3, mem - 130, mem - 50, mem - 1, mem, mem + 1, mem + 40, 2 * mem, 10 * mem):
                if n > 5:
                    for fr in ('cl', 'ch', 'ch1', 'chcl'):
                        yield kind, mem, n, fr


BOUNDED = [
    B('limits', gen_limit, ev_limit, target='_body_read, _iter_body, _iter_chunked, BodyMixin._body through WSGI', bound='thresholds 5..16 (thorough 100) x limits and sizes around each boundary x 7 framings x 3 fragmentations', exhaustive=True),
    B('memory', gen_memory, ev_memory, target='_body_read', bound='bodies of 300/600 kB, thresholds 2/20 kB, tracemalloc peak', timeout=60),
    B('form-text', gen_form, ev_form, target='_get_body_string, FieldStorage.read/iter_items, BodyMixin.POST/json', bound='3 thresholds x 6 kinds x 10 sizes x 4 framings', exhaustive=True),
]

from ..contracts import body as _c, upload as _u
PROOFS = [_c.ITER_BODY, _c.BODY_READ_CL, _c.BODY_READ_CH, _c.FRAMING, *_u.BODY, _u.STRING, _u.ANY_PART, _u.ITEMS]
