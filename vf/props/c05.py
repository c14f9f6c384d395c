"""C05 chunked decoding is exact and rejects every truncation."""
import itertools, re
from ..core import B
from .. import wsgi
from ..streams import Stream

LEVEL = 'proof'


def reference(enc, buff):
    """('ok', payload) | ('reject',) | ('either',)   -- RFC 9112 chunked coding"""
    pos, out = 0, b''
    while True:
        j = enc.find(b'\r\n', pos)
        if j < 0:
            return 'reject', None           # cut before a complete size line
        line = enc[pos:j]
        if j + 2 - pos > buff:
            return 'either', None           # size line longer than the configured buffer
        m = re.match(rb'([0-9A-Fa-f]+)(?:;[^\r\n]*)?\Z', line)
        if not m:
            return 'either', None           # size-line garbage: acceptance or client error
        size = int(m.group(1), 16)
        pos = j + 2
        if size == 0:
            return 'ok', out
        data = enc[pos:pos + size]
        if len(data) < size:
            return 'reject', None
        pos += size
        if enc[pos:pos + 2] != b'\r\n':
            return 'reject', None
        out += data
        pos += 2


def serve(enc, mem, sched, **extra):
    import ombott
    app = ombott.Ombott({'max_memfile_size': mem})
    out = []
    app.route('/b', 'POST', lambda: (out.append(app.request.body.read()), 'ok')[1])
    env = wsgi.environ('/b', 'POST', **{'HTTP_TRANSFER_ENCODING': 'chunked', 'wsgi.input': Stream(enc, sched), **extra})
    env.pop('CONTENT_LENGTH', None)
    env.update(extra)
    return wsgi.call(app, env), out


def again(enc, mem, sched):
    """the handler asks four times: a rejected encoding is never presented later, an accepted one always the same"""
    import ombott
    app = ombott.Ombott({'max_memfile_size': mem})
    got = []

    def h():
        for _ in range(4):
            try:
                got.append(app.request.body.read())
            except ombott.HTTPResponse as e:
                got.append(e.status_code)
        return 'ok'
    app.route('/b', 'POST', h)
    env = wsgi.environ('/b', 'POST', **{'HTTP_TRANSFER_ENCODING': 'chunked', 'wsgi.input': Stream(enc, sched)})
    env.pop('CONTENT_LENGTH', None)
    wsgi.call(app, env)
    return got


def ev_again(case):
    enc, mem, sched = case
    kind, payload = reference(enc, mem)
    got = again(enc, mem, sched)
    what = f'chunked {enc[:80]!r} buffer {mem} reads {sched!r}, body read four times'
    if kind == 'ok' and got != [payload] * 4:
        return f'{what}: legal encoding of {payload!r}, got {got!r}'
    if kind == 'reject' and (len(got) != 4 or any(isinstance(g, bytes) for g in got)):
        return f'{what}: cut short / data not followed by CRLF, got {got!r}'


def gen_again(tier, rng):
    for bad in (b'5\r\nabcdeX\r\n', b'5\r\nabcde\n', b'5\r\nabcde\rX', b'3\r\nabc3\r\n', b'1\r\n1\n\r'):
        for k in range(4):
            for tail in (b'', b'X', b'\r\n', b'\n'):
                for rest in (b'0\r\n\r\n', b'2\r\nzz\r\n0\r\n\r\n', b'1\r\nz\r\n'):
                    for mem in (8, 100):
                        yield bad * k + bad + tail + rest, mem, ()
                        yield bad + tail * k + rest * k + rest, mem, (1, 3)
    for n in range(0, 4):
        for sizes in compositions(n):
            e = encode(PAY, sizes)
            for k in range(len(e) + 1):
                yield e[:k], 100, ()
                yield e[:k] + b'0\r\n\r\n', 100, (2,)
                yield e[:k] + b'\r\n2\r\nzz\r\n0\r\n\r\n', 100, ()


def judge(enc, mem, sched, want=None, **extra):
    r, out = serve(enc, mem, sched, **extra)
    kind, payload = reference(enc, mem)
    what = f'chunked {enc[:80]!r} buffer {mem} reads {sched!r}'
    if r.escaped is not None or r.code is None:
        return f'{what}: escaped {r.escaped!r}'
    if want is not None and kind == 'ok' and payload != want:
        return f'harness: reference decoder disagrees'
    if kind == 'ok' and (r.code != 200 or out != [payload]):
        return f'{what}: legal encoding of {payload!r}, got {r.status!r} body {out!r}'
    if kind == 'reject' and not 400 <= r.code < 500:
        return f'{what}: cut short / data not followed by CRLF, got {r.status!r} body {out!r} {r.errors[-200:]}'
    if kind == 'either' and not (r.code == 200 or 400 <= r.code < 500):
        return f'{what}: framing garbage, got {r.status!r} {r.errors[-300:]}'


def compositions(n):
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for r in compositions(n - k):
            yield (k,) + r


PAY = b'ab\r\n0;\n\rZ9-x' * 3


def encode(payload, sizes, style=0, ext=b'', trailer=b''):
    out, i = b'', 0
    fmt = [b'%x', b'%X', b'00%x', b'0%X'][style % 4]
    for s in sizes:
        out += fmt % s + ext + b'\r\n' + payload[i:i + s] + b'\r\n'
        i += s
    return out + [b'0', b'000'][style // 4 % 2] + ext + b'\r\n' + trailer + b'\r\n'


def ev_enc(case):
    """a legal encoding is decoded exactly; every strict prefix and single-byte change judged by the reference"""
    n, sizes, style, ext, trailer, mem, sched, mode = case
    enc = encode(PAY, sizes, style, ext, trailer)
    if mode == 'legal':
        return judge(enc, mem, sched, PAY[:n])
    if mode == 'prefix':
        for k in range(len(enc)):
            e = judge(enc[:k], mem, sched)
            if e:
                return e
    if mode == 'corrupt':
        for k in range(len(enc)):
            for c in b'\r\n0a;X- ':
                if enc[k] != c:
                    e = judge(enc[:k] + bytes([c]) + enc[k + 1:], mem, sched)
                    if e:
                        return e
            e = judge(enc[:k] + enc[k + 1:], mem, sched)
            if e:
                return e


def gen_legal(tier, rng):
    for n in range(0, 6 if tier == 'quick' else 8):
        for sizes in compositions(n):
            for style in (0, 5):
                for mem in (4, 6, 100):
                    for sched in ((), (1,), (2, 1), (3,), (1, 2)):
                        for ext, tr in ((b'', b''), (b';a=1', b'X: y\r\n')):
                            if mem == 100 or not ext:
                                yield n, sizes, style, ext, tr, mem, sched, 'legal'
    for n in (16, 17, 31, 36):
        for sizes in ((n,), (n - 10, 10), (1, n - 1), (15, n - 15)):
            for style in range(8):
                for mem in (5, 8, 16, 64):
                    for sched in ((), (1,), (7,), (5, 3)):
                        yield n, sizes, style, rng.choice([b'', b';x']), rng.choice([b'', b'T: 1\r\n']), mem, sched, 'legal'


def gen_cut(tier, rng):
    for n in range(0, 5):
        for sizes in compositions(n):
            for ext in (b'', b';e'):
                for sched in ((), (1,), (2, 1)):
                    for mem in (6, 100):
                        yield n, sizes, 0, ext, b'', mem, sched, 'prefix'
    for sizes in ((16,), (20, 3), (10, 10)):
        yield sum(sizes), sizes, 1, b';q', b'A: b\r\n', 9, (3,), 'prefix'
        yield sum(sizes), sizes, 2, b'', b'', 9, (), 'prefix'


def gen_corrupt(tier, rng):
    for n in range(1, 4):
        for sizes in compositions(n):
            for ext in (b'', b';e'):
                yield n, sizes, 0, ext, b'', 100, (), 'corrupt'
    for sizes in ((17,), (4, 16)):
        for st in (0, 3):
            yield sum(sizes), sizes, st, b'', b'X: y\r\n', 50, rng.choice([(), (2,)]), 'corrupt'


def ev_raw(case):
    enc, mem, sched = case
    return judge(enc, mem, sched)


def gen_raw(tier, rng):
    al = [b'0', b'1', b'a', b'\r', b'\n', b';', b'-', b'x']
    for n in range(0, 5 if tier == 'quick' else 6):
        for t in itertools.product(al, repeat=n):
            yield b''.join(t), 20, ()
    for _ in range(3000 if tier == 'quick' else 40000):
        n = rng.randint(0, 6)
        sizes, m = [], rng.randint(0, 30)
        while m:
            s = rng.randint(1, m); sizes.append(s); m -= s
        e = bytearray(encode(PAY, sizes, rng.randrange(8), rng.choice([b'', b';z=1', b' ;q']), rng.choice([b'', b'T: v\r\n'])))
        for _ in range(rng.randint(0, 2)):
            if e:
                k = rng.randrange(len(e))
                e[k:k + rng.randint(0, 2)] = rng.choice([b'', b'\r', b'\n', b'0', b';', b'\r\n', b'-1', b'+', b'_', b'\xff', b'0x'])
        yield bytes(e), rng.choice([3, 8, 200]), tuple(rng.randint(1, 5) for _ in range(rng.randint(0, 3)))
    for z in (b'1', b'f', b'A', b'10', b'ffffffff'):
        for w in (2, 3, 4, 7, 8, 15, 16, 31, 32):
            for mem in (60, 200):
                yield z + b'%0*x' % (w, 5) + b'\r\nabcde\r\n0\r\n\r\n', mem, ()
                yield z + b'0' * w + b'\r\n\r\n', mem, (3,)
    for s in (b'-5\r\n\r\n0\r\n\r\n', b'0x5\r\nabcde\r\n0\r\n\r\n', b'\r\n', b'', b'f' * 40 + b'\r\n', b'\xff\r\n', b'5\r\nabcde0\r\n\r\n',
              b'5\r\nabcde\r\r0\r\n\r\n', b'5\r\nabcde\n\r0\r\n\r\n', b'5\r\nabcde\r', b'5\r\nabcde\r\n', b'5\r\nabcde\r\n0', b'5\r\nabcde\r\n0\r', b'5\r\nabcde\n\n0\r\n\r\n'):
        for mem in (20, 100):
            for sched in ((), (1,), (2,), (6, 1)):
                yield s, mem, sched


_EXTS = (b'', b';x', b';x=1', b';name=token', b';q="a b"', b';q="a;b=c"', b';q="\\"x\\\\"', b';a;b=2;c="3"', b';q=""', b";t=!#$%&'*+-.^_`|~", b';q="\xc3\xa9\xff"',
         b' ; q = "1"', b';q="0"', b';0', b';ff=0', b';q="\t \x80"')
_TRAIL = (b'', b'X: y\r\n', b'A: 1\r\nB: 2\r\n', b'Checksum: "0"\r\n', b'X:\r\n')


def ev_wide(case):
    """any legal encoding (every chunk with its own size spelling and extension), any spelling of the header"""
    payload, chunks, last, trailer, mem, sched, te = case
    enc, i = b'', 0
    for n, zeros, upper, ext in chunks:
        enc += b'0' * zeros + (b'%X' if upper else b'%x') % n + ext + b'\r\n' + payload[i:i + n] + b'\r\n'
        i += n
    enc += b'0' * last[0] + last[1] + b'\r\n' + trailer + b'\r\n'
    longest = max([len(x) for x in enc.split(b'\r\n')])
    if max([z + 8 + len(e) for _, z, _, e in chunks] + [last[0] + len(last[1])]) + 2 > mem:
        mem = longest + 60
    r, out = serve(enc, mem, sched, HTTP_TRANSFER_ENCODING=te)
    if r.escaped is not None or r.code != 200 or out != [payload]:
        return f'chunked {enc[:120]!r} buffer {mem} reads {sched!r} ({te}): legal encoding of {len(payload)} bytes {payload[:60]!r}, got {r.status!r} {r.escaped!r} body {str(out)[:100]} {r.errors[-200:]}'


def gen_wide(tier, rng):
    for ext in _EXTS:
        for zeros in (0, 1, 7, 8, 15, 16, 31, 40):
            yield b'abcde', [(5, zeros, False, ext)], (1 + zeros, ext), b'', 120, (), 'chunked'
            yield b'abcdefghijklmnop' * 2, [(10, zeros, True, ext), (12, 0, True, b''), (10, zeros, False, ext)], (1, b''), b'T: 1\r\n', 120, (3,), 'Chunked'
    for n in (255, 256, 257, 4095, 4096, 65535, 65536, 70000, 1 << 20, (1 << 20) + 17):
        for mem in (64, 4096, 102400):
            yield bytes(range(256)) * (n // 256) + b'z' * (n % 256), [(n, 0, mem == 64, b'')], (1, b''), b'', mem, () if n > 70000 else (1000, 1), 'chunked'
    al = b'\r\n0;\0\xffaZ9-" '
    for _ in range(1500 if tier == 'quick' else 30000):
        n = rng.choice([0, 1, 2, 5, 16, 40, 300])
        payload = bytes(rng.choice(al) for _ in range(n))
        chunks, m = [], n
        while m:
            k = rng.randint(1, m)
            chunks.append((k, rng.choice([0, 0, 0, 1, 2, 8, 20]), rng.random() < .5, rng.choice(_EXTS)))
            m -= k
        yield (payload, chunks, (rng.choice([1, 1, 2, 9, 20]), rng.choice(_EXTS)), rng.choice(_TRAIL), rng.choice([60, 100, 1000]),
               tuple(rng.randint(1, 9) for _ in range(rng.randint(0, 4))), rng.choice(['chunked', 'Chunked', 'CHUNKED', 'gzip, chunked']))


BOUNDED = [
    B('legal-grammar', gen_wide, ev_wide, target='_iter_chunked/_body_read through WSGI', bound='size spellings with up to 40 leading zeros, extensions of every RFC 9112 form, trailers, chunks up to 1 MiB; seeded random encodings'),
    B('legal-encodings', gen_legal, ev_enc, target='_iter_chunked/_body_read through WSGI', bound='all chunkings of payloads up to 5 (thorough 7) bytes plus larger ones, size spellings, extensions, trailers, buffers, read schedules', exhaustive=True),
    B('read-again', gen_again, ev_again, target='BodyMixin.body/_body', bound='four reads of the body of each rejected, damaged and legal encoding', exhaustive=True),
    B('every-prefix', gen_cut, ev_enc, target='the same', bound='every strict prefix of every chunking of payloads up to 4 bytes', exhaustive=True),
    B('single-byte-corruption', gen_corrupt, ev_enc, target='the same', bound='every 1-byte substitution (8 bytes) and deletion in encodings of payloads up to 3 bytes', exhaustive=True),
    B('raw-framing', gen_raw, ev_raw, target='the same', bound='all byte strings up to length 4 (thorough 5) over 8 framing bytes; seeded mutations'),
]

from ..contracts import body as _c, upload as _u
PROOFS = [_c.CHUNKED_SOUND, _c.CHUNKED_LEGAL, _c.BODY_READ_CH, _c.FRAMING, *_u.BODY]
