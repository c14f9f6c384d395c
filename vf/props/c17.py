"""C17 range and conditional requests describe exactly the bytes delivered."""
import calendar, email.utils, itertools, os, re, tempfile, time
from ..core import B
from .. import wsgi

LEVEL = 'proof'
DIR = None
BUF = 1024 * 1024


def fdir():
    global DIR
    if DIR is None or DIR[0] != os.getpid():
        DIR = (os.getpid(), tempfile.mkdtemp(prefix='vf-c17-'))
    return DIR[1]


CONTENT = {}


def content(n):
    if n not in CONTENT:
        pat = bytes(range(251))
        CONTENT[n] = (pat * (n // 251 + 1))[:n]
    return CONTENT[n]


def put(n, mtime=1600000000):
    p = os.path.join(fdir(), f'f{n}.bin')
    if not os.path.exists(p):
        with open(p, 'wb') as f:
            f.write(content(n))
    os.utime(p, (mtime, mtime))
    return os.path.basename(p)


def first_range(header, n):
    """RFC 7233: (start, end) of the first range clipped, None unsatisfiable, '?' not of the grammar"""
    m = re.match(r'bytes=(.*)\Z', header, re.S)
    if not m:
        return '?'
    specs = m.group(1).split(',')
    for s in specs:
        if not re.match(r'[ \t]*([0-9]+-[0-9]*|-[0-9]+)[ \t]*\Z', s):
            return '?'
    a, b = specs[0].strip(' \t').split('-')
    if len(a) > 4000 or len(b) > 4000:
        return '?'
    if specs[0] != specs[0].strip(' \t'):
        return '?'
    if not a:
        k = min(int(b), n)
        return (n - k, n) if k else None
    a = int(a)
    if b and int(b) < a:
        return '?'
    e = min(int(b) + 1, n) if b else n
    return (a, e) if a < n else None


def serve(app, name, method, headers, wrapper=False):
    import ombott
    chunks = []

    def h():
        return ombott.static_file(name, root=fdir(), mimetype='application/octet-stream')
    app.route('/f', ['GET', 'HEAD'], h)
    env = wsgi.environ('/f', method, headers=headers)
    if wrapper:
        class W:
            def __init__(self, f, size=8192):
                self.f, self.size = f, size
                self.close = f.close

            def __iter__(self):
                return iter(lambda: self.f.read(self.size), b'')
        env['wsgi.file_wrapper'] = W
    return wsgi.call(app, env)


def ent(r):
    return {k: r.h(k) for k in ('Content-Range', 'Content-Length', 'Content-Type', 'Last-Modified', 'Accept-Ranges', 'Content-Encoding', 'Content-Disposition')}


def ev(case):
    import ombott
    n, rng_h, wrapper = case
    data = content(n)
    name = put(n)
    hs = {} if rng_h is None else {'Range': rng_h}
    app = ombott.Ombott()
    r = serve(app, name, 'GET', hs, wrapper)
    what = f'file of {n} bytes, Range {rng_h!r}'
    if r.escaped is not None or r.iter_error is not None:
        return f'{what}: {r.escaped!r} {r.iter_error!r}'
    if any(len(c) > BUF for c in r.chunks):
        return f'{what}: chunk of {max(map(len, r.chunks))} bytes'
    if rng_h is None or rng_h == '':
        if r.code != 200 or r.body != data or r.h('Content-Length') != [str(n)] or r.h('Content-Range'):
            return f'{what}: {r.status} {r.headers} {len(r.body)} bytes'
    else:
        want = first_range(rng_h, n)
        if r.code == 416:
            if want not in ('?', None):
                return f'{what}: 416 though {want} is satisfiable'
        elif r.code == 206:
            cr = r.h('Content-Range')
            m = len(cr) == 1 and re.match(r'bytes ([0-9]+)-([0-9]+)/([0-9]+)\Z', cr[0])
            if not m:
                return f'{what}: Content-Range {cr!r}'
            a, b, t = map(int, m.groups())
            if not (0 <= a <= b < n) or t != n:
                return f'{what}: Content-Range {cr!r}'
            if r.h('Content-Length') != [str(b - a + 1)]:
                return f'{what}: Content-Range {cr!r} with Content-Length {r.h("Content-Length")!r}'
            if r.body != data[a:b + 1]:
                return f'{what}: Content-Range {cr!r} with {len(r.body)} bytes {r.body[:40]!r}'
            if want is None:
                return f'{what}: 206 {cr!r} though unsatisfiable'
            if want != '?' and want != (a, b + 1):
                return f'{what}: 206 {cr!r}, requested {want}'
        else:
            return f'{what}: {r.status} {r.errors[-400:]}'
    q = serve(ombott.Ombott(), name, 'HEAD', hs, wrapper)
    if q.escaped is not None or q.body:
        return f'{what}: HEAD {q.escaped!r} {q.body[:40]!r}'
    if q.code != r.code or r.code in (200, 206) and ent(q) != ent(r):
        return f'{what}: HEAD {q.status} {q.headers}, GET {r.status} {r.headers}'


JUNK = ['bytes', 'bytes=', 'bytes=-', 'bytes=--', 'bytes=a-b', 'bytes=1-2-3', 'bytes=-1-', 'bytes=1', 'bytes=,', 'bytes=,0-1', 'bytes=0-1,', 'bytes=0-0,-1', 'bytes=5-2', 'bytes=1-0', 'items=0-1', 'Bytes=0-1', 'BYTES=0-1', 'bytes =0-1', ' bytes=0-1', 'bytes= 0-1', 'bytes=0 - 1', 'bytes=0-1 ',
        'bytes=0-1;x', 'bytes=+0-+1', 'bytes=-+1', 'bytes=0_0-0_1', 'bytes=0x0-0x1', 'bytes=1.0-2', 'bytes=1e0-2', 'bytes=٣-٤', 'bytes=--1', 'bytes=-1-5', 'bytes=-0', 'bytes=-00', 'bytes=00-01', 'bytes=0-', 'bytes=000-', 'xbytes=0-1', 'bytes=bytes=0-1', 'bytes=0-1, 2-3', 'bytes=0-1,2-3,-1', 'bytes=999-,0-1', 'bytes=0-1,999-',
        'bytes=0-99999999999999999999999', 'bytes=99999999999999999999999-', 'bytes=-99999999999999999999999', 'bytes=99999999999999999999-99999999999999999999', 'bytes=' + '1' * 5000 + '-', 'bytes=0-' + '9' * 5000, 'bytes=-' + '9' * 5000, 'bytes=\x00', 'bytes=0\n-1', '0-1', '=0-1', '-', 'bytes:0-1', 'bytes=é', 'bytes=*', 'none', 'bytes=-1,-2', 'bytes=-2,-1',
        'bytes= -1', 'bytes=\t0-1', 'bytes=0-1\t', 'bytes=0--1', 'bytes=1--0', 'bytes=²-', 'bytes=0-None', 'bytes=None-', 'bytes=-True']


def gen_grammar(tier, rng):
    N = 8 if tier == 'quick' else 16
    for n in range(0, N):
        yield n, None, False
        yield n, '', False
        for a in range(0, n + 4):
            yield n, f'bytes={a}-', False
            yield n, f'bytes=-{a}', a % 2 == 0
            for b in range(0, n + 4):
                yield n, f'bytes={a}-{b}', False
                if a == b:
                    yield n, f'bytes={a}-{b},0-0', True
                    yield n, f'bytes=0-0,{a}-{b}', True
        for j in JUNK:
            yield n, j, False


def gen_random(tier, rng):
    al = list('0123456789-,= bytes') + ['-', '-', '-', ',', '1', '9', 'bytes=', '\t', '+', '_']
    for _ in range(2500 if tier == 'quick' else 60000):
        n = rng.choice([0, 1, 2, 9, 10, 11, 99, 100, 101, 255])
        if rng.random() < .5:
            h = 'bytes=' + ''.join(rng.choice(al) for _ in range(rng.randint(0, 6)))
        else:
            h = 'bytes=' + ','.join(rng.choice([f'{rng.randint(0, n + 2)}-{rng.randint(0, n + 2)}', f'-{rng.randint(0, n + 2)}', f'{rng.randint(0, n + 2)}-']) for _ in range(rng.randint(1, 3)))
        yield n, h, rng.random() < .5


def gen_large(tier, rng):
    for n in (BUF - 1, BUF, BUF + 1, 2 * BUF - 1, 2 * BUF, 2 * BUF + 1, 3 * BUF + 17, 65535, 65536, 65537):
        yield n, None, False
        yield n, None, True
        for a in (0, 1, BUF - 1, BUF, BUF + 1, n - BUF - 1, n - BUF, n - 1, n, n - 2 * BUF):
            if a >= 0:
                yield n, f'bytes={a}-', False
                if a:
                    yield n, f'bytes=-{a}', False
                for ln in (1, BUF - 1, BUF, BUF + 1, 2 * BUF, 2 * BUF + 1):
                    yield n, f'bytes={a}-{a + ln - 1}', False


def ev_iter(case):
    """_file_iter_range: chunks concatenate to the slice, none larger than maxread"""
    from ..core import Inapplicable
    import io
    from ombott import static_stream as ss
    f = getattr(ss, '_file_iter_range', None)
    if f is None:
        raise Inapplicable('_file_iter_range')
    n, a, ln, mx = case
    data = content(n)
    try:
        ch = list(f(io.BytesIO(data), a, ln, mx))
    except TypeError as e:
        raise Inapplicable(str(e))
    if b''.join(ch) != data[a:a + ln] or any(not c or len(c) > mx for c in ch):
        return f'_file_iter_range({n} bytes, {a}, {ln}, {mx}) -> {ch!r}'


def gen_iter(tier, rng):
    N = 7 if tier == 'quick' else 11
    for n in range(N):
        for a in range(n + 1):
            for ln in range(0, n + 3 - a):
                for mx in range(1, n + 3):
                    yield n, a, ln, mx


# ---- conditional requests

TZS = ['UTC', 'EST5EDT', 'IST-1GMT0,M10.5.0,M3.5.0/1', 'Asia/Kolkata', 'Europe/Dublin', 'Pacific/Apia', 'Europe/Moscow', 'America/Sao_Paulo']
MTIMES = [0, 1, 59, 1000000000, 1593561600, 1604214000, 1616893200, 1635638400, 1600000000, 1583020800, 1709164800, 951782400, 2000000000, 4102444800, 1293840000]
DELTAS = [-10**9, -86400, -7200, -3601, -3600, -1800, -60, -2, -1, 0, 1, 2, 60, 1800, 3600, 3601, 86400, 10**8]


def fmt(t, style):
    g = time.gmtime(t)
    D = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun'][g.tm_wday]
    M = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec'][g.tm_mon - 1]
    hms = '%02d:%02d:%02d' % g[3:6]
    if style == 'rfc1123':
        return f'{D}, {g.tm_mday:02d} {M} {g.tm_year:04d} {hms} GMT'
    if style == 'rfc850':
        return f'{D}day, {g.tm_mday:02d}-{M}-{g.tm_year % 100:02d} {hms} GMT'
    if style == 'asctime':
        return f'{D} {M} {g.tm_mday:2d} {hms} {g.tm_year}'
    if style == 'len':
        return f'{D}, {g.tm_mday:02d} {M} {g.tm_year:04d} {hms} GMT; length=5'
    if style == '+0000':
        return f'{D}, {g.tm_mday:02d} {M} {g.tm_year:04d} {hms} +0000'
    g = time.gmtime(t + 5400)
    D = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun'][g.tm_wday]
    M = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec'][g.tm_mon - 1]
    return f'{D}, {g.tm_mday:02d} {M} {g.tm_year:04d} {"%02d:%02d:%02d" % g[3:6]} +0130'


def ev_ims(case):
    import ombott
    tz, mtime, delta, style, rng_h = case
    t = mtime + delta
    old = os.environ.get('TZ')
    os.environ['TZ'] = tz
    time.tzset()
    try:
        name = put(20, int(mtime)) if isinstance(mtime, int) else put(20)
        if not isinstance(mtime, int):
            os.utime(os.path.join(fdir(), name), (mtime, mtime))
        date = fmt(t, style) if style != 'junk' else delta
        hs = {'If-Modified-Since': date}
        if rng_h:
            hs['Range'] = rng_h
        g = serve(ombott.Ombott(), name, 'GET', hs)
        h = serve(ombott.Ombott(), name, 'HEAD', hs)
        if os.stat(os.path.join(fdir(), name)).st_mtime != mtime:
            return None
    finally:
        if old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = old
        time.tzset()
    what = f'TZ={tz} mtime {mtime} If-Modified-Since {date!r} Range {rng_h!r}'
    if g.escaped is not None or h.escaped is not None:
        return f'{what}: {g.escaped!r} {h.escaped!r}'
    if h.code != g.code or h.body:
        return f'{what}: GET {g.status}, HEAD {h.status} {h.body!r}'
    full = 206 if rng_h else 200
    want = 304 if int(t) >= int(mtime) else full
    if g.code != want:
        return f'{what}: {g.status}, expected {want}'
    if g.code == 304 and (g.body or g.h('Content-Length') not in ([], ['0']) or g.h('Content-Range')):
        return f'{what}: 304 with {g.body!r} {g.headers}'
    if g.code == 200 and g.body != content(20) or g.code == 206 and g.body != content(20)[2:5]:
        return f'{what}: {g.body!r}'
    lm = h.h('Last-Modified')
    if g.code != 304 and lm != [fmt(int(mtime), 'rfc1123')]:
        return f'{what}: Last-Modified {lm!r}'


def gen_ims(tier, rng):
    for tz in TZS:
        for m in MTIMES:
            for d in DELTAS:
                if m + d >= 0:
                    for st in ('rfc1123', 'asctime', 'len', '+0000', '+0130') if d in (-3600, -1, 0, 1, 3600) else ('rfc1123',):
                        yield tz, m, d, st, None
                    if 0 <= m + d < 2**31 and d in (-1, 0, 1) and 3 * 10**7 < m + d:
                        yield tz, m, d, 'rfc850', None
                    if d in (-1, 0, 1):
                        yield tz, m, d, 'rfc1123', 'bytes=2-4'
    for m in (1600000000.5, 1600000000.999):
        for d in (0, -1, 1):
            yield 'UTC', int(m) + (m - int(m)), d, 'rfc1123', None


def ev_junkdate(case):
    import ombott
    name = put(20)
    g = serve(ombott.Ombott(), name, 'GET', {'If-Modified-Since': case})
    if g.escaped is not None or g.code not in (200, 304):
        return f'If-Modified-Since {case!r}: {g.escaped!r} {g.status} {g.errors[-300:]}'
    if g.code == 200 and (g.body != content(20) or g.h('Content-Length') != ['20']):
        return f'If-Modified-Since {case!r}: {g.headers} {g.body!r}'
    if g.code == 304 and g.body:
        return f'If-Modified-Since {case!r}: 304 with a body'


def gen_junkdate(tier, rng):
    yield from ['', ' ', ';', 'x', 'Sun', 'Sun, 13 Sep 2020', '0', '-1', 'Sun, 99 Sep 2020 12:26:40 GMT', 'Sun, 13 Foo 2020 12:26:40 GMT', 'Sun, 13 Sep 99999999999 12:26:40 GMT', 'Sun, 13 Sep -1 12:26:40 GMT', 'Sun, 13 Sep 2020 99:99:99 GMT', 'Sun, 13 Sep 2020 12:26:40 XYZ', 'é', '\0', 'Sun, 31 Feb 2020 12:26:40 GMT', '1' * 5000,
                'Sun, 13 Sep 2020 12:26:40 +99999999999', 'Sun, 0 Sep 2020 12:26:40 GMT', 'Sun, 13 Sep 0 12:26:40 GMT', 'Sun, 13 Sep 2020 :: GMT', '13 13 13 13 13 13', 'Sun, 13 Sep 2020 1e400:0:0 GMT', 'Sun, 13 Sep 2020 12.26.40 GMT']
    bits = ['Sun', ',', ' ', '13', 'Sep', '2020', '12:26:40', 'GMT', '-', '+', '99', ':', ';', '0', '-0700', 'é', '.', '(', ')']
    for _ in range(600 if tier == 'quick' else 20000):
        yield ''.join(rng.choice(bits) for _ in range(rng.randint(1, 12)))


def ev_changes(case):
    """the file is rewritten between the requests: every answer describes the file as it is"""
    import ombott
    versions, rng_h, keep = case
    path = os.path.join(fdir(), 'changing.bin')
    for k, (n, mtime) in enumerate(versions):
        data = bytes((k * 37 + i) % 251 for i in range(n))
        if keep and k:
            with open(path, 'r+b') as f:
                f.truncate(0)
                f.write(data)
        else:
            with open(path + '.new', 'wb') as f:
                f.write(data)
            os.replace(path + '.new', path)
        os.utime(path, (mtime, mtime))
        hs = {'Range': rng_h} if rng_h else {}
        what = f'version {k} of {versions!r}, Range {rng_h!r}'
        g = serve(ombott.Ombott(), 'changing.bin', 'GET', hs)
        h = serve(ombott.Ombott(), 'changing.bin', 'HEAD', hs)
        if g.escaped is not None or h.escaped is not None:
            return f'{what}: {g.escaped!r} {h.escaped!r}'
        r = first_range(rng_h, n) if rng_h else None
        want = (416, b'') if rng_h and r is None else (206, data[r[0]:r[1]]) if rng_h else (200, data)
        if g.code != want[0] or h.code != g.code or h.body:
            return f'{what}: GET {g.status}, HEAD {h.status}'
        if g.code == 416:
            continue
        if g.body != want[1]:
            return f'{what}: {g.body!r} instead of {want[1]!r}'
        for x in (g, h):
            if x.h('Content-Length') != [str(len(want[1]))] or x.h('Last-Modified') != [fmt(mtime, 'rfc1123')]:
                return f'{what}: {x.headers}'
            if rng_h and x.h('Content-Range') != [f'bytes {r[0]}-{r[1] - 1}/{n}']:
                return f'{what}: {x.headers}'
        for d, code in ((0, 304), (-1, want[0])):
            c = serve(ombott.Ombott(), 'changing.bin', 'GET', {'If-Modified-Since': fmt(mtime + d, 'rfc1123'), **hs})
            if c.code != code:
                return f'{what}: If-Modified-Since at mtime{d:+d}: {c.status}'


def gen_changes(tier, rng):
    sizes, times = (0, 1, 3, 10, 20), (1600000000, 1600000001, 1500000000)
    for keep in (False, True):
        for r in (None, 'bytes=0-', 'bytes=2-4', 'bytes=-2', 'bytes=5-'):
            for a in sizes:
                for b in sizes:
                    yield ((a, 1600000000), (b, 1600000000)), r, keep
                    yield ((a, 1600000000), (b, 1600000001)), r, keep
            for _ in range(10 if tier == 'quick' else 200):
                yield tuple((rng.choice(sizes), rng.choice(times)) for _ in range(5)), r, keep


BOUNDED = [
    B('changing-file', gen_changes, ev_changes, target='static_file', bound='every pair of 5 lengths with equal and newer time, seeded histories of 5 versions x 5 ranges', exhaustive=True),
    B('grammar', gen_grammar, ev, target='static_file, get_first_range', bound='lengths 0-7 (thorough 0-15) x every a-b, a-, -a around the length, 75 near misses; GET and HEAD', exhaustive=True),
    B('random-ranges', gen_random, ev, target='static_file, get_first_range', bound='seeded random Range headers over 10 file lengths'),
    B('buffer-edges', gen_large, ev, target='static_file, _file_iter_range, WSGIFileWrapper', bound='10 lengths around the 64 KiB / 1 MiB buffers x edge ranges', exhaustive=True),
    B('slice-loop', gen_iter, ev_iter, target='_file_iter_range', bound='lengths 0-6 (thorough 10), every offset, length and buffer size', exhaustive=True),
    B('conditional', gen_ims, ev_ims, target='static_file, parse_date', bound='8 server time zones x 15 modification times x 18 offsets x 6 date formats', exhaustive=True),
    B('odd-dates', gen_junkdate, ev_junkdate, target='parse_date, static_file', bound='23 malformed dates, seeded random dates'),
]

from ..contracts import static as _c
PROOFS = [_c.STATIC_ANSWER, _c.RANGE_ANY, _c.RANGE_RFC, _c.ITER_RANGE]
