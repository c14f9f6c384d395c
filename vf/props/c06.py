"""C06 multipart parsing does not depend on how the body is split into reads."""
import itertools
from ..core import B, Inapplicable
from .. import wsgi, mp
from ..streams import Stream

LEVEL = 'proof'


def parse(boundary, chunks):
    try:
        from ombott.request_pkg.multipart import MultipartMarkup
    except ImportError as e:
        raise Inapplicable(str(e))
    m = MultipartMarkup(boundary)
    for c in chunks:
        m.parse(c)
    return [[n, tuple(se)] for n, se in m.markups], (type(m.error).__name__, str(m.error)) if m.error is not None else None


def cut(body, cuts):
    cs = [0] + sorted(cuts) + [len(body)]
    return [body[a:b] for a, b in zip(cs, cs[1:]) if b > a]


def ev_cuts(case):
    boundary, parts, lead, epi, mode, arg = case
    body, marks = mp.build(boundary, parts, lead, epi)
    want = parse(boundary, [body])
    if want != (marks, None):
        return f'{body!r} in one piece: {want!r}, built with {marks!r}'
    n = len(body)

    def test(b, cuts, ref):
        got = parse(boundary, cut(b, cuts))
        if got != ref:
            return f'{b!r} cut at {cuts!r}: {got!r}, in one piece {ref!r}'
    if mode == 'single':
        for k in range(1, n):
            e = test(body, [k], want)
            if e:
                return e
        for size in list(range(1, 12)) + [arg]:
            e = test(body, list(range(size, n, size)), want)
            if e:
                return e
    elif mode == 'double':
        for k in range(1, n):
            if k % arg[1] == arg[0]:
                for j in range(k + 1, n):
                    e = test(body, [k, j], want)
                    if e:
                        return e
    elif mode == 'prefix':
        for p in range(0, n):
            b = body[:p]
            ref = parse(boundary, [b])
            if ref[1] is not None:
                return f'prefix {b!r} in one piece reports {ref[1]!r}'
            # a reported section is one whose terminator is inside the prefix
            tok = 4 + len(boundary)
            exp = [m for m in marks if (m[1][1] + (4 if m[0] == 'headers' else tok) if m is not marks[0] else len(lead) + tok - 2) <= p]
            if ref[0] != exp:
                return f'prefix {b!r} in one piece: {ref[0]!r}, complete sections are {exp!r}'
            for k in range(1, p):
                e = test(b, [k], ref)
                if e:
                    return e
            e = test(b, list(range(1, p)), ref)
            if e:
                return e
    elif mode == 'random':
        for cuts in arg:
            e = test(body, sorted({c % n for c in cuts} - {0}), want)
            if e:
                return e
    return None


def fixed_bodies():
    for b in mp.BOUNDARIES:
        tok = b'\r\n--' + b
        datas = [b'', b'x', b'\r', b'\n', b'\r\n', b'-', b'--', b'\r\n-', tok[:-1], tok[:-1] + b'\r', tok[1:], b'\r' + tok[:-1], b'\r\n\r\n', b'\r\r\n', tok[:-1] * 2,
                 b'\r\n--\r\n--', b'a\r\nb']
        for d in datas:
            for epi in (b'', b'\r\n', b'\r\nepilogue --' + b):
                parts = ((mp.hdr('a'), d),)
                if mp.legal(b, parts):
                    yield b, parts, b'', epi
        yield b, (), b'', b''
        yield b, (), b'\r\n', b'\r\n'
        for d1, d2 in itertools.product(datas[::3], datas[1::3]):
            parts = ((mp.hdr('a'), d1), (mp.hdr('f', 'n', 't/x'), d2))
            if mp.legal(b, parts):
                yield b, parts, b'\r\n' if len(d1) % 2 else b'', b'\r\n'
        yield b, ((b'X: y', b'q'), (b'K: \rv', b'')), b'', b''


def gen_single(tier, rng):
    for x in fixed_bodies():
        yield x + ('single', 16)


def gen_double(tier, rng):
    xs = list(fixed_bodies())
    if tier == 'quick':
        xs = [x for x in xs if len(x[0]) < 12 and len(x[1]) <= 1][::6]
    for x in xs:
        for s in range(4):
            yield x + ('double', (s, 4))


def gen_prefix(tier, rng):
    xs = list(fixed_bodies())
    for x in (xs[::5] if tier == 'quick' else xs):
        yield x + ('prefix', None)


def gen_random(tier, rng):
    for _ in range(1500 if tier == 'quick' else 20000):
        b = rng.choice(mp.BOUNDARIES + [bytes(rng.choice(b'-ab') for _ in range(rng.randint(1, 6)))])
        parts = tuple((rng.choice([mp.hdr('a'), mp.hdr('é', 'x\\y', 'a/b'), b'A: b', b'A: b\r\nC: d;' + b'-' * rng.randint(0, 9), b'Q: \r']), mp.nasty(b, rng))
                      for _ in range(rng.randint(0, 4)))
        if not mp.legal(b, parts):
            continue
        yield b, parts, rng.choice([b'', b'\r\n']), rng.choice([b'', b'\r\n', b'\r\n' + mp.nasty(b, rng), b'x', b'--', b'\r\n--' + b + b'\r\n']), 'random', \
            tuple(tuple(rng.randrange(1, 1000) for _ in range(rng.randint(1, 12))) for _ in range(12)) + (tuple(range(1, 1000)),)


def ev_malformed(case):
    """the error reported for a body that is no multipart body is the same however it is read"""
    boundary, body = case
    want = parse(boundary, [body])
    n = len(body)
    for cuts in [[k] for k in range(1, n)] + [list(range(s, n, s)) for s in (1, 2, 3)]:
        got = parse(boundary, cut(body, cuts))
        if got[0] != want[0] or (got[1] and got[1][0]) != (want[1] and want[1][0]):
            return f'{body!r} cut at {cuts!r}: {got!r}, in one piece {want!r}'


def gen_malformed(tier, rng):
    b = b'bn'
    base = [mp.build(b, ((mp.hdr('a'), b'v'),), lead, epi)[0] for lead in (b'', b'\r\n') for epi in (b'', b'\r\n')]
    base += [mp.build(b, ((b'A: b', b'q'), (b'C: d', b'')), b'', b'')[0], b'--bn\r\n\r\n\r\n--bn--', b'--bn--', b'']
    for t in base:
        for k in range(len(t) + 1):
            if 8 < k < len(t) - 20 and k % 9 and tier == 'quick':
                continue
            yield b, t[:k] + t[k + 1:]
            for c in (b'\r', b'\n', b'-', b'x', b'\r\n', b'--'):
                yield b, t[:k] + c + t[k:]
                yield b, t[:k] + c + t[k + 1:]
    bits = [b'--bn', b'\r\n', b'\r', b'\n', b'-', b'--', b'A: b', b'\r\n\r\n', b'\r\n--bn', b'x', b'\r\n--bn--', b'\r\n--bn\r\n']
    for _ in range(3000 if tier == 'quick' else 40000):
        yield b, (b'--bn' if rng.random() < .7 else b'') + b''.join(rng.choice(bits) for _ in range(rng.randint(0, 9)))


def ev_wsgi(case):
    """Request.forms/files through WSGI are the same for every read buffer and fragmentation"""
    import ombott
    b, parts, lead, epi, mems, sched = case
    body, _ = mp.build(b, parts, lead, epi)
    results = []
    for mem, sc in [(100000, ())] + [(m, s) for m in mems for s in ((), sched)]:
        app = ombott.Ombott({'max_memfile_size': mem})
        out = []

        def h():
            post = app.request.POST
            fs = {k: [(x.raw_filename, x.file.read()) for x in (v if isinstance(v, list) else [v])] for k, v in app.request.files.items()}
            out.append((dict(app.request.forms), fs, list(post)))
            return 'ok'
        app.route('/u', 'POST', h)
        r = wsgi.call(app, wsgi.environ('/u', 'POST', CONTENT_TYPE='multipart/form-data; boundary=' + b.decode(), CONTENT_LENGTH=str(len(body)),
                                        **{'wsgi.input': Stream(body, sc)}))
        results.append((mem, sc, r.code, out))
        if r.code != 200 and mem == 100000:
            return f'{body!r}: {r.status!r} {r.errors[-300:]}'
        if (r.code, out) != (results[0][2], results[0][3]) and r.code != 413:
            return f'{body!r} buffer {mem} reads {sc!r}: {r.code} {out!r}; whole: {results[0][2:]!r}'
        text = sum(len(h) + (0 if b'filename' in h else len(d)) for h, d in parts)
        if r.code == 413 and mem >= text:
            return f'{body!r} buffer {mem}: refused, text and headers are {text} bytes'


def gen_wsgi(tier, rng):
    for _ in range(500 if tier == 'quick' else 6000):
        b = rng.choice([x for x in mp.BOUNDARIES if x.isalnum() or x.startswith(b'---')])
        parts = tuple((mp.hdr(rng.choice(['a', 'b', 'c']), rng.choice(['f.bin', 'g', 'h']), 'application/x-y'), mp.nasty(b, rng) * rng.randint(1, 3))
                      if rng.random() < .6 else (mp.hdr(rng.choice(['t', 'u'])), rng.choice([b'', b'v', b'a\r\nb', b'-', b'\r\n--'])) for _ in range(rng.randint(1, 4)))
        if not mp.legal(b, parts):
            continue
        text = sum(len(h) + (0 if b'filename' in h else len(d)) for h, d in parts)
        yield b, parts, rng.choice([b'', b'\r\n']), rng.choice([b'', b'\r\n', b'\r\nepi']), tuple(range(text, text + 40, 3)), tuple(rng.randint(1, 20) for _ in range(3))


BOUNDED = [
    B('every-single-cut', gen_single, ev_cuts, target='MultipartMarkup.parse -> BodyMarkuper/HeadersEaeter/MatchTail', bound='fixed bodies over 10 boundaries x 17 data shapes; every single cut, every regular cut size 1..11', exhaustive=True),
    B('every-double-cut', gen_double, ev_cuts, target='the same', bound='every pair of cuts of a sample of those bodies (thorough: all)', exhaustive=True),
    B('every-prefix', gen_prefix, ev_cuts, target='the same', bound='every prefix of those bodies (quick: a fifth) x every single cut and byte-at-a-time', exhaustive=True),
    B('random-bodies', gen_random, ev_cuts, target='the same', bound='seeded random bodies and cuts'),
    B('malformed', gen_malformed, ev_malformed, target='the same', bound='every deletion, insertion and replacement by one of 6 strings at every position of 8 bodies (quick: every ninth position of the header text), random token soups; every single cut, pieces of 1, 2, 3 bytes'),
    B('through-wsgi', gen_wsgi, ev_wsgi, target='Request.forms/files with varied max_memfile_size', bound='seeded random'),
]

from ..contracts import markup as _c, body as _b      # noqa: E402
PROOFS = [*_c.C06, _b.BODY_READ_CL, _b.BODY_READ_CH]
