"""C07 multipart forms and uploads round-trip exactly."""
import itertools
from ..core import B, Inapplicable
from .. import wsgi, mp
from ..streams import Stream

LEVEL = 'other'

NAMES = ['a', 'b', 'name', 'filename', 'a;b', 'a=b', 'x; filename=y', ' a ', 'é', '日本', "it's", 'a\\', '\\n', 'a:b', 'a\tb', ';', '=', '--b', 'x;name=z', '%22',
         'a,b', 'A', '\x85n', '\u2028', 'a\x0bb', 'name=', '; name=', '*', 'a&b', 'a+b', '0', 'form-data', "'q'", '\\\\', 'content-type: x']
TEXTS = ['', 'v', 'x=y;z', '\r\n', '\r', '\n', 'a\r\nb', 'é日\U0001f600', '--', '-', '\r\n--', ' lead', 'trail ', '\x00', 'a' * 300, '"', '\u2028\x85', '0']
FILES = [b'', b'x', b'\r\n', b'\r', b'\n', b'\xff\xfe\x00', b'--', b'\r\n--', b'-' * 70, bytes(range(256)), b'\r\n\r\n', b'Content-Disposition: form-data; name="zz"\r\n\r\n']
CTYPES = [None, 'text/plain', 'application/octet-stream', 'text/html; charset=utf-8', 'image/png', 'a/b; x="q;r"']
QB = [(b, b.decode()) for b in mp.BOUNDARIES if not any(c in b for c in b':;,=/?() ')] + [(b, '"%s"' % b.decode()) for b in mp.BOUNDARIES] + [(b'a b', '"a b"')]


def expected(fields):
    forms, files, post = {}, {}, {}
    for f in fields:
        if f[0] == 't':
            it, d = f[2], forms
        else:
            it, d = ('FILE', f[2], f[3], f[4]), files
        d.setdefault(f[1], []).append(it)
        post.setdefault(f[1], []).append(it)
    return forms, files, post


def norm(d):
    def one(x):
        if hasattr(x, 'raw_filename'):
            x.file.seek(0)
            data = x.file.read()
            ct = x.content_type
            return ('FILE', x.raw_filename, ct if ct else None, data)
        return x
    return {k: [one(x) for x in (v if isinstance(v, list) else [v])] for k, v in d.items()}


def shape(d):
    """a name used once is no list"""
    return [k for k, v in d.items() if isinstance(v, list) and len(v) < 2]


def ev(case):
    import ombott
    (b, bparam), fields, mem, sched, lead, epi, order = case
    parts = tuple((spell(f, order), f[2].encode('utf8') if f[0] == 't' else f[4]) if isinstance(order, str) else
                  (mp.hdr(f[1]), f[2].encode('utf8')) if f[0] == 't' else (mp.hdr(f[1], f[2], f[3], order), f[4]) for f in fields)
    if not mp.legal(b, parts):
        return None
    body, _ = mp.build(b, parts, lead, epi)
    app = ombott.Ombott({'max_memfile_size': mem})
    out = {}

    def h():
        r = app.request
        out['forms'], out['files'], out['post'] = norm(r.forms), norm(r.files), norm(r.POST)
        bad = shape(r.forms) + shape(r.files) + shape(r.POST)
        if bad:
            out['shape'] = bad
        # interleaved reads of two uploads never mix
        ups = [x for v in r.files.values() for x in (v if isinstance(v, list) else [v])]
        for x in ups:
            x.file.seek(0)
        acc = [b''] * len(ups)
        done = [False] * len(ups)
        guard = 0
        while not all(done) and guard < 100000:
            guard += 1
            for i, x in enumerate(ups):
                piece = x.file.read(3 + i)
                if len(piece) > 3 + i:
                    out['mix'] = f'read({3 + i}) returned {len(piece)} bytes'
                acc[i] += piece
                done[i] = not piece
        flat = [x.file.seek(0) or x.file.read() for x in ups]
        if acc != flat:
            out['mix'] = f'{acc!r} read piecewise, {flat!r} at once'
        return 'ok'
    app.route('/u', 'POST', h)
    r = wsgi.call(app, wsgi.environ('/u', 'POST', CONTENT_TYPE='multipart/form-data; boundary=' + bparam, CONTENT_LENGTH=str(len(body)),
                                    **{'wsgi.input': Stream(body, sched)}))
    if r.code != 200:
        return f'{body!r}: {r.status!r} {r.errors[-400:]}'
    want = dict(zip(('forms', 'files', 'post'), expected([(f[0], f[1], f[2]) + tuple(f[3:]) for f in fields])))
    if out != want:
        return f'{body!r} parsed as {out!r}, sent {want!r}'


def gen_single(tier, rng):
    mem = 100000
    for b in QB:
        for n in NAMES:
            for t in (TEXTS if n == 'a' else TEXTS[:2]):
                yield b, (('t', n, t),), mem, (), b'', b'\r\n', 0
    b = QB[1]
    for fn in NAMES + ['', 'C:\\dir\\f.txt', '/etc/passwd', 'a b.txt']:
        for ct in CTYPES:
            for d in (FILES if fn == 'a' else FILES[:2]):
                for o in (0, 1):
                    yield b, (('f', 'up', fn, ct, d),), mem, (), b'', b'\r\n', o
        for n in NAMES:
            yield b, (('f', n, fn, 'a/b', b'\r\n'),), mem, (7,), b'\r\n', b'', 1
    for d in FILES:
        for b in QB:
            yield b, (('f', 'a', 'f', 'a/b', d), ('f', 'b', 'g', None, d)), mem, (5,), b'', b'', 0


def gen_repeat(tier, rng):
    pool = [('t', 'a', '1'), ('t', 'b', ''), ('f', 'a', 'f1', 'a/b', b'1'), ('f', 'b', '', None, b'\r\n'), ('t', 'a', '')]
    for n in range(0, 5 if tier == 'quick' else 6):
        for fs in itertools.product(pool, repeat=n):
            yield QB[2], fs, 100000, (), b'', b'\r\n', 0


def gen_random(tier, rng):
    for _ in range(1500 if tier == 'quick' else 30000):
        b = rng.choice(QB)
        fs = []
        for _ in range(rng.randint(0, 6)):
            n = rng.choice(NAMES) if rng.random() < .7 else ''.join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(160, 0x2fff)])) for _ in range(rng.randint(1, 8))).replace('"', '')
            if not n:
                continue
            if rng.random() < .5:
                t = rng.choice(TEXTS) if rng.random() < .5 else mp.nasty(b[0], rng).decode('latin1')
                fs.append(('t', n, t))
            else:
                fs.append(('f', n, rng.choice(NAMES + ['']), rng.choice(CTYPES), mp.nasty(b[0], rng) * rng.randint(1, 40)))
        yield b, tuple(fs), rng.choice([5000, 20000, 100000]), tuple(rng.randint(1, 60) for _ in range(rng.randint(0, 3))), rng.choice([b'', b'\r\n']), rng.choice([b'', b'\r\n', b'\r\nx']), rng.randint(0, 1)


def spell(f, how):
    """the header block of a field as different clients write it"""
    disp = b'form-data; name="' + f[1].encode('utf8') + b'"'
    ct = None
    if f[0] == 'f':
        disp += b'; filename="' + f[2].encode('utf8') + b'"'
        ct = f[3]
    sep = b': '
    names = (b'Content-Disposition', b'Content-Type')
    if how == 'lower':
        names = (b'content-disposition', b'content-type')
    elif how == 'upper':
        names = (b'CONTENT-DISPOSITION', b'CONTENT-TYPE')
    elif how == 'tight':
        sep, disp = b':', disp.replace(b'form-data; name=', b'form-data;name=', 1).replace(b'"; filename=', b'";filename=')
    elif how == 'wide':
        sep, disp = b':  ', disp.replace(b'form-data; name=', b'form-data  ;  name=', 1).replace(b'"; filename=', b'"  ;  filename=')
    elif how == 'reversed' and f[0] == 'f':
        disp = b'form-data; filename="' + f[2].encode('utf8') + b'"; name="' + f[1].encode('utf8') + b'"'
    elif how == 'caps':
        disp = disp.replace(b'form-data; name=', b'Form-Data; Name=', 1).replace(b'"; filename=', b'"; FileName=')
    hs = [names[0] + sep + disp]
    if ct:
        hs.append(names[1] + sep + ct.encode())
    if how == 'extra':
        hs = [b'X-First: name="zz"; filename="zz"'] + hs + [b'Content-Transfer-Encoding: binary', b'X-Last: a=b; c']
    if how == 'length':
        hs.append(b'Content-Length: %d' % len(f[-1].encode('utf8') if f[0] == 't' else f[4]))
    if how == 'ctfirst':
        hs.reverse()
    return b'\r\n'.join(hs)


SPELL = ('plain', 'lower', 'upper', 'tight', 'wide', 'reversed', 'caps', 'extra', 'length', 'ctfirst')


def gen_spellings(tier, rng):
    mem = 100000
    for how in SPELL:
        for n in ('a', 'a;b', 'x; filename=y', 'é', 'a=b', ' a '):
            yield QB[1], (('t', n, 'v\r\n'), ('t', 'z', '')), mem, (), b'', b'\r\n', how
            for fn in ('f.bin', 'a; name=b', 'é=;', ''):
                yield QB[1], (('f', n, fn, 'a/b', b'\r\n-'), ('t', 'z', '1'), ('f', n, fn, None, b'')), mem, (9,), b'', b'', how


def gen_sizes(tier, rng):
    """many fields, long boundaries, values around the read buffer, big files"""
    long_b = (b'-' * 30 + b'AbC9' * 10, '-' * 30 + 'AbC9' * 10)
    for n in (2, 50, 300):
        yield long_b, tuple(('t', f'k{i % 40}', f'v{i}') for i in range(n)), 100000, (), b'', b'\r\n', 'plain'
        yield long_b, tuple(('f', f'k{i % 7}', f'f{i}', 'a/b', b'%d\r\n' % i) for i in range(n)), 100000, (777,), b'', b'\r\n', 'plain'
    for mem in (600, 4096, 102400):
        for d in (-3, -2, -1, 0, 1, 2, 3):
            for pat in (b'\r', b'-', b'\r\n--', b'x', bytes(range(256))):
                size = mem + d
                data = (pat * (size // len(pat) + 1))[:size]
                for extra in (0, mem // 2, 2 * mem + 5):
                    fs = (('t', 'a', 'before'), ('f', 'u', 'f', 'a/b', data), ('f', 'u', 'g', 'a/b', data[:extra] if extra <= size else data * 2), ('t', 'z', 'after'))
                    yield long_b, fs, mem, () if d % 2 else (max(1, mem - 1),), b'', b'\r\n', 'plain'
    for n in (0, 1, 60, 70):
        b = (b'b' * n or b'b')
        yield (b, b.decode()), (('t', 'a', 'é' * 2000), ('t', 'b' * 500, 'x'), ('f', 'c', 'n' * 500, 'a/b', b'\xff' * 2000)), 10000, (), b'\r\n', b'\r\n', 'plain'


def ev_window(case):
    """BytesIOProxy behaves as a file holding exactly its window"""
    import io
    try:
        from ombott.request_pkg.multipart import BytesIOProxy
    except ImportError as e:
        raise Inapplicable(str(e))
    data, s, e, ops = case
    src = io.BytesIO(data)
    a, ref = BytesIOProxy(src, s, e), io.BytesIO(data[s:e])
    other = BytesIOProxy(src, 0, len(data))
    for op, *args in ops:
        if op == 'other':
            other.read(2)
            continue
        if op == 'seek' and args[0] < 0 and (len(args) < 2 or args[1] == 0):
            continue
        x, y = getattr(a, op)(*args), None
        y = getattr(ref, op)(*args)
        if op == 'seek':
            # positions are clamped to the window
            y = min(y, e - s)
            ref.seek(y)
        if x != y:
            return f'window [{s}:{e}] of {data!r}: {op}{tuple(args)!r} gave {x!r}, a file with that content gives {y!r} (history {ops!r})'


def gen_window(tier, rng):
    ops1 = [('read',), ('read', 0), ('read', 1), ('read', 3), ('read', -1), ('read', None), ('read', 99), ('tell',), ('seek', 0), ('seek', 2), ('seek', 99), ('seek', 0, 2), ('seek', -1, 2), ('seek', 1, 1), ('other',)]
    data = b'0123456789'
    for s, e in [(0, 10), (0, 0), (3, 3), (2, 7), (9, 10), (0, 4), (10, 10)]:
        for ops in itertools.product(ops1, repeat=2 if tier == 'quick' else 3):
            yield data, s, e, tuple(ops) + (('read',),)
    for _ in range(1500):
        s = rng.randint(0, 10)
        yield data, s, rng.randint(s, 10), tuple(rng.choice(ops1) for _ in range(8))


def ev_save(case):
    """an upload is saved from where it was read to, and reads on from there afterwards"""
    import io, os, tempfile
    try:
        from ombott.request_pkg.multipart import BytesIOProxy
        from ombott.request_pkg.helpers import FileUpload
    except ImportError as e:
        raise Inapplicable(str(e))
    size, pre, chunk, how = case
    data = bytes(i * 7 % 251 for i in range(size))
    up = FileUpload(BytesIOProxy(io.BytesIO(b'head' + data + b'tail'), 4, 4 + size), 'f', 'a.txt')
    up.file.read(pre)
    d = tempfile.mkdtemp(prefix='vf-c07-')
    try:
        for k in range(2):
            p = os.path.join(d, f's{k}')
            dest = io.BytesIO() if how == 'file' else p
            up.save(dest, chunk_size=chunk)
            if how == 'file':
                got = dest.getvalue()
            else:
                with open(p, 'rb') as fp:
                    got = fp.read()
            if got != data[pre:]:
                return f'{case!r}: save number {k + 1} wrote {len(got)} bytes, expected {len(data[pre:])}'
            if up.file.tell() != min(pre, size):
                return f'{case!r}: after save the upload stands at {up.file.tell()}'
        if up.file.read() != data[pre:]:
            return f'{case!r}: the upload reads on at another place after save'
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


def gen_save(tier, rng):
    for size in (0, 1, 5, 64, 1000):
        for pre in (0, 1, 3, 64):
            for chunk in (1, 7, 64, 2 ** 16):
                for how in ('file', 'path'):
                    yield size, min(pre, size), chunk, how


BOUNDED = [
    B('single-fields', gen_single, ev, target='FieldStorage.read/parse_header/iter_items, BodyMixin.POST, FileUpload, MULTIPART_BOUNDARY_PATT', bound=f'{len(NAMES)} names x {len(TEXTS)} texts / {len(FILES)} contents x {len(CTYPES)} content types, {len(QB)} boundary spellings', exhaustive=True),
    B('repeated-names', gen_repeat, ev, target='BodyMixin.POST collection', bound='all field lists of length <=4 (thorough 5) over 5 fields', exhaustive=True),
    B('random-forms', gen_random, ev, target='the same, varied buffers and fragmentation', bound='seeded random'),
    B('header-spellings', gen_spellings, ev, target='FieldStorage.parse_header/read', bound='10 ways clients write the part headers x 6 names x 4 file names', exhaustive=True),
    B('sizes', gen_sizes, ev, target='the whole pipeline', bound='up to 300 fields, contents within 3 bytes of the read buffer (600, 4096, 102400), names of 500 characters, boundaries up to 70', exhaustive=True, timeout=60),
    B('upload-window', gen_window, ev_window, target='BytesIOProxy', bound='all operation triples over 15 operations x 7 windows (quick: pairs), random histories', exhaustive=True),
    B('upload-save', gen_save, ev_save, target='FileUpload.save/_copy_file', bound='5 sizes x 4 positions x 4 chunk sizes x file/path', exhaustive=True),
]


from ..contracts import upload as _c  # noqa: E402
PROOFS = _c.C07_FIELDS + [_c.ITEMS, _c.POST_MULTI, _c.COLLECT, _c.UPLOAD, _c.COPY, _c.SAVE, *_c.WINDOW, *_c.BODY]
