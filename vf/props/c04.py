"""C04 Content-Length bodies arrive byte-exact under any fragmentation."""
import io, itertools, random
from ..core import B
from .. import wsgi
from ..streams import Stream, problems

LEVEL = 'proof'
PAT = bytes((i * 37 + 11) % 256 for i in range(70000))


def content(kind, n):
    if not kind:
        return PAT[:n]
    if kind == 'lines':
        return (b'\r\n' * n)[:n]
    if isinstance(kind, str):
        return bytes([int(kind, 16)]) * n
    r = random.Random(kind)      # runs of special bytes
    out = b''
    while len(out) < n:
        out += r.choice([b'\0', b'\r', b'\n', b'\r\n', b' ', b'-', b'\xff', b'a', b'\x1a', b'\xef\xbb\xbf']) * r.randint(1, 6)
    return out[:n]


def ev_body(case):
    from ombott.request_pkg import Request
    n, cl, mem, sched, pad, *kind = case
    data = content(kind[0] if kind else 0, n)
    st = Stream(data, sched, PAT[:pad])
    env = wsgi.environ('/', 'POST', CONTENT_LENGTH=str(cl), **{'wsgi.input': st})
    r = Request(env, config={'max_memfile_size': mem})
    want = (data + PAT[:pad])[:max(cl, 0)]
    if len(want) > mem and not n:
        pass
    got = r.body.read()
    if got != want:
        return f'stream of {n}+{pad} bytes, CL {cl}, buffer {mem}, reads {sched!r}: body has {len(got)} bytes, expected {len(want)}; first difference at {next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))}'
    p = problems(st, max(cl, 0))
    if p:
        return f'CL {cl}, buffer {mem}, reads {sched!r}: {p}'
    if r.body.read() != want:
        return 'second access of Request.body is not rewound / differs'
    if env['wsgi.input'].read() != b'' and False:
        return None
    i = env['wsgi.input']
    i.seek(0)
    if i.read() != want:
        return 'wsgi.input left behind is not the buffered body'
    return None


def gen_small(tier, rng):
    """every fragmentation of every short body"""
    top = 6 if tier == 'quick' else 8
    for n in range(0, top + 1):
        for cl in range(-1, n + 3):
            for mem in (1, 2, 3, 4, 100):
                for parts in range(0, 4):
                    for sched in itertools.product((1, 2, 3), repeat=parts):
                        for pad in (0, 3):
                            yield n, cl, mem, sched, pad


def gen_big(tier, rng):
    for n in (1000, 65536, 65537):
        for mem in (1, 7, 999, 1000, 1001, 4096, 102400):
            if n // mem > 20000:
                continue
            for sched in ((), (1000,), (1, 500, 3), (mem,), (max(1, mem - 1), 1)):
                if sched and n / (sum(sched) / len(sched)) > 20000:
                    continue
                for cl in (n - 1, n, n + 1, n // 2):
                    yield n, cl, mem, sched, 10
    for _ in range(1500 if tier == 'quick' else 20000):
        n = rng.choice([rng.randint(0, 50), rng.randint(0, 3000)])
        yield n, rng.randint(-1, n + 20), rng.randint(1, 60 if n < 60 else 4000), tuple(rng.randint(1, 40) for _ in range(rng.randint(0, 6))), rng.choice([0, 7])


def gen_content(tier, rng):
    for kind in ('lines', '00', '0a', '0d', '20', '2d', 'ff', '1a', 'ef'):
        for n in (1, 2, 3, 5, 9, 20, 64):
            for mem in (1, 2, 4, 7, 10, 19, 63, 64, 100):
                for sched in ((), (1,), (3,), (2, 5)):
                    yield n, n, mem, sched, 4, kind
    for k in range(1500 if tier == 'quick' else 20000):
        n = rng.randint(1, 90)
        yield n, n - rng.choice([0, 0, 1]), rng.randint(1, 100), tuple(rng.randint(1, 9) for _ in range(rng.randint(0, 3))), 4, rng.randint(1, 10 ** 6)


def ev_wsgi(case):
    """the same through an application handler"""
    import ombott
    n, cl, mem, sched, pad = case
    app = ombott.Ombott({'max_memfile_size': mem})
    out = []
    app.route('/b', 'POST', lambda: (out.append(app.request.body.read()), out.append(app.request.body.read()), 'ok')[2])
    st = Stream(PAT[:n], sched, PAT[:pad])
    r = wsgi.call(app, wsgi.environ('/b', 'POST', CONTENT_LENGTH=str(cl), **{'wsgi.input': st}))
    want = (PAT[:n] + PAT[:pad])[:max(0, cl)]
    if r.code != 200 or out != [want, want]:
        return f'status {r.status!r}, body lengths {[len(x) for x in out]}, expected {len(want)}'
    p = problems(st, max(0, cl))
    if p:
        return p


def gen_wsgi(tier, rng):
    for _ in range(400 if tier == 'quick' else 4000):
        n = rng.randint(0, 60)
        yield n, rng.randint(0, n + 5), rng.choice([1, 3, 8, 40, 1000]), tuple(rng.randint(1, 9) for _ in range(rng.randint(0, 4))), rng.choice([0, 5])


BOUNDED = [
    B('fragmentation-exhaustive', gen_small, ev_body, target='Request.body -> _body_read/_iter_body',
      bound='bodies up to 6 (thorough 8) bytes, CL -1..n+2, buffers 1,2,3,4,100, cyclic read schedules of up to 3 sizes in 1..3', exhaustive=True),
    B('fragmentation-large', gen_big, ev_body, target='the same', bound='bodies up to 65537 bytes, buffers around the thresholds, random schedules'),
    B('every-byte-value', gen_content, ev_body, target='the same', bound='bodies made of runs of one byte or of special bytes (NUL, CR, LF, blank, dash, 0xff, BOM), up to 90 bytes, around the spill threshold'),
    B('body-in-handler', gen_wsgi, ev_wsgi, target='Ombott.__call__ -> Request.body', bound='seeded random'),
]

from ..contracts import body as _c, upload as _u
PROOFS = [_c.ITER_BODY, _c.BODY_READ_CL, _c.FRAMING, *_u.BODY]
