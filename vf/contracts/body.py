"""Contracts of the body readers (C04, C05, C13)."""
from ..pyvc.facade import *

M = 'ombott.request_pkg.body_mixin'


class Stream:
    """ghost server stream: bytes S[0..N), a read position, any legal fragmentation"""

    def __init__(self, v, limit=None, S=None, N=None):
        self.v, self.limit = v, limit
        self.S = v.array('S') if S is None else S
        self.N = v.fresh_int('N', 0) if N is None else N
        self.pos = v.ghost(z3.IntVal(0), lambda: v.fresh_int('pos', 0))
        v.trust('server stream: read(n) returns 1..n bytes, the next ones, and b"" only at the end of the stream')

    def read(self, size=None):
        v, p = self.v, self.pos.v
        if size is None:
            raise Unsupported('read() without a size')
        n = zb_int(size)
        v.check('the stream is asked for a positive number of bytes', n > 0)
        if self.limit is not None:
            v.check('never asks the stream for bytes beyond Content-Length', p + n <= self.limit)
        k = v.fresh_int('got', 0)
        v.add(And(k <= n, p + k <= self.N, Implies(k == 0, p == self.N)))
        self.pos.v = p + k
        return SBuf(self.S, p, k)


def zb_int(x):
    return x.z if isinstance(x, SInt) else z3.IntVal(x)


# ------------------------------------------------------------------ C04: _iter_body

def iter_body(v):
    CL = v.int('content_length')
    B = v.int('buffer', 1)
    total = If(CL.z > 0, CL.z, 0)
    st = Stream(v, limit=total)
    out = v.ghost(z3.IntVal(0), lambda: v.fresh_int('out', 0))
    v.loop('_iter_body', 0, Loop(
        inv=lambda L: [('what is left is what was not delivered', zb_int(L.rest_len) == CL.z - out.v),
                       ('everything read was delivered', st.pos.v == out.v),
                       ('never more than Content-Length', And(out.v >= 0, out.v <= total, out.v <= st.N))],
        havoc=lambda L: dict(rest_len=SInt(v.fresh_int('rest_len'))),
        variant=lambda L: SInt(If(zb_int(L.rest_len) > 0, zb_int(L.rest_len), 0)),
        modifies=lambda L: [st.pos, out]))
    f = v.fn(M + ':_iter_body')

    def each(part):
        v.check('a part is the next bytes of the stream, in order', And(part.off == out.v, part.z == st.S))
        v.check('a part is not empty and not larger than the buffer', And(part.n >= 1, part.n <= B.z))
        out.v = out.v + part.n
        v.cover('part')
    o = v.consume(f(st.read, B, content_length=CL), each)
    v.check('no exception', o.ok)
    v.check('exactly min(Content-Length, available) bytes', out.v == If(total < st.N, total, st.N))
    v.cover('end')


# ------------------------------------------------------------------ C04, C13: _body_read

class Sink:
    """ghost file: the bytes src[0..n) written so far"""

    def __init__(self, v, kind, S, n=None):
        self.v, self.kind, self.S = v, kind, S
        self.n = v.ghost(z3.IntVal(0) if n is None else n, lambda: v.fresh_int('size', 0))
        self.obj = v.obj(kind, write=self.write, getvalue=self.getvalue, seek=lambda *a: None, _sink=self)
        for m in ('write', 'getvalue'):
            pass

    def write(self, data):
        if not isinstance(data, SBuf):
            raise Unsupported('write of something else')
        self.v.check('bytes are written in stream order, none skipped or repeated', Or(data.n == 0, And(data.z == self.S, data.off == self.n.v)))
        self.n.v = self.n.v + data.n
        return SInt(data.n)

    def getvalue(self):
        if self.kind != 'memory':
            self.v.throw(AttributeError('getvalue'))
        return SBuf(self.S, z3.IntVal(0), self.n.v)


def body_read(v, chunked):
    S = v.array('S')
    T = v.fresh_int('T', 0)             # what the iterator will deliver in all
    B = v.int('buffer', 1)
    v.inputs = v.e.inputs
    fail = v.bool('malformed') if chunked else None
    mx = v.either('max_body_size', lambda: None, lambda: v.int('max', 0))
    has_markup = v.case('markup', False, True)
    pos = v.ghost(z3.IntVal(0), lambda: v.fresh_int('pos', 0))
    seen = v.ghost(z3.IntVal(0), lambda: v.fresh_int('seen', 0))

    def more():
        if fail is not None and v.split(And(fail.z, pos.v == T)):
            v.throw(real('ombott.request_pkg.errors:BodyParsingError')())
        return SBool(pos.v < T)

    def nxt():
        k = v.fresh_int('k', 1)
        v.add(And(k <= B.z, pos.v + k <= T))
        p = SBuf(S, pos.v, k)
        pos.v = pos.v + k
        return p

    def iterator(which):
        def it(read, buff, content_length=None):
            v.check('the right decoder reads the right stream with the configured buffer', (which == chunked) and read is READ and buff is B and (chunked or content_length is CL))
            return v.obj('parts', _symiter=lambda: SymIter(more, nxt))
        return it
    READ, CL = v.obj('read'), v.obj('content_length')
    v.contract('_iter_body', iterator(False))
    v.contract('_iter_chunked', iterator(True))
    v.stub('_iter_body', iterator(False))
    v.stub('_iter_chunked', iterator(True))
    v.stub('BytesIO', lambda *a: Sink(v, 'memory', S).obj)
    v.stub('TemporaryFile', lambda *a, **k: Sink(v, 'disk', S).obj)
    v.trust('io.BytesIO and tempfile.TemporaryFile: sequential writes append, getvalue() is everything written')

    def parse(part):
        v.check('the multipart parser sees every byte once, in order', And(part.z == S, part.off == seen.v))
        seen.v = seen.v + part.n
    markup = v.obj('markup', parse=parse) if has_markup else None

    def size(L):
        s = L.body.attrs.get('_sink')
        return s

    def inv(L):
        s = L.body._sink
        n = s.n.v
        return [('the body holds exactly what was read', n == pos.v),
                ('the size is counted right', zb_int(L.body_size) == n),
                ('the parser has seen everything', seen.v == (n if has_markup else 0)),
                ('in memory only up to the threshold', True if s.kind == 'disk' else n <= B.z),
                ('the flag tells where the body is', zb(L.is_temp_file) == (s.kind == 'disk')),
                ('never above the limit', True if mx is None else n <= mx.z),
                ('nothing beyond the end', And(n >= 0, n <= T))]

    def havoc(L):
        kind = v.case('kind', 'memory', 'disk')
        n = v.fresh_int('size', 0)
        v.e.inputs.pop('kind', None)
        return dict(body=Sink(v, kind, S, n).obj, body_size=SInt(v.fresh_int('body_size')), is_temp_file=kind == 'disk', part=None)
    v.loop('_body_read', 0, Loop(inv, havoc, modifies=lambda L: [pos, seen, L.body._sink.n], variant=lambda L: SInt(T - pos.v)))
    f = v.fn(M + ':_body_read')
    o = v.call(f, READ, B, content_length=CL, chunked=chunked, max_body_size=mx, markup=markup)
    BSE = real('ombott.request_pkg.errors:BodySizeError')
    BPE = real('ombott.request_pkg.errors:BodyParsingError')
    if o.ok:
        s = o.value._sink
        v.check('the body is exactly the bytes delivered', s.n.v == T)
        v.check('accepted only within the limit', True if mx is None else T <= mx.z)
        v.check('above the threshold it is on disk', True if s.kind == 'disk' else (T <= B.z))
        v.check('the parser saw the whole body', seen.v == T if has_markup else True)
        if fail is not None:
            v.check('a malformed body is never accepted', Not(fail.z))
        v.cover('accepted ' + s.kind)
    elif o.raised(BSE):
        v.check('413 only above the limit', mx is not None and T > mx.z)
        v.check('reads at most the limit plus one buffer', mx is not None and pos.v <= mx.z + B.z)
        v.cover('too large')
    else:
        v.check('nothing but a client error', o.raised(BPE) and fail is not None)
        v.check('a well-formed body is not refused', fail.z if fail is not None else False)
        v.cover('malformed')


def to_case_c04(m):
    cl, b = m.get('content_length'), m.get('buffer')
    if not isinstance(cl, int) or abs(cl) > 100000:
        return None
    return 'fragmentation-large', (max(cl, 0), cl, b, (), 3)


ITER_BODY = Proof('_iter_body', iter_body, covers=('part', 'end'), to_case=to_case_c04,
                  cross=[])
BODY_READ_CL = Proof('_body_read, Content-Length', lambda v: body_read(v, False), covers=('accepted memory', 'accepted disk', 'too large'))
BODY_READ_CH = Proof('_body_read, chunked', lambda v: body_read(v, True), covers=('accepted memory', 'accepted disk', 'too large', 'malformed'))


# ------------------------------------------------------------------ C05: _iter_chunked

HEX = z3.Function('hex_of', z3.ArraySort(I, I), I, I, I)      # int(S[a:a+n], 16)
ISHEX = z3.Function('is_hex', z3.ArraySort(I, I), I, I, Bo)
CR, LF, SEM = 13, 10, 59


def chunked(v, legal):
    """legal=False: arbitrary stream; whatever is accepted is a complete chunked encoding and
    the payload delivered is exactly its chunks' data.
    legal=True: an encoding that is legal up to its end is accepted"""
    B = v.int('buffer', 1)
    st = Stream(v)
    S, N = st.S, st.N
    at = lambda i: z3.Select(S, i)
    BPE = real('ombott.request_pkg.errors:BodyParsingError')
    v.trust('int(bytes, 16): what number a chunk size text stands for')
    c0 = v.ghost(z3.IntVal(0), lambda: v.fresh_int('c0', 0))      # start of the current size line
    n0 = v.ghost(z3.IntVal(0), lambda: v.fresh_int('n0', 0))      # number of complete chunks before it
    d0 = v.ghost(z3.IntVal(0), lambda: v.fresh_int('d0', 0))      # end of the current size line
    sz = v.ghost(z3.IntVal(-1), lambda: v.fresh_int('sz'))        # its number
    out = v.ghost(z3.IntVal(0), lambda: v.fresh_int('out', 0))    # bytes of the current chunk delivered
    lines = v.ghost(z3.IntVal(0), lambda: v.fresh_int('lines', 0))

    def to_int(w):
        def f(base):
            if base != 16:
                raise Unsupported('size read in base %r' % (base,))
            p = st.pos.v
            v.check('the number is read after the whole size line', And(p >= c0.v + 2, at(p - 2) == CR, at(p - 1) == LF))
            if legal:
                ok, n = ISHEX(S, w.off, w.n), HEX(S, w.off, w.n)
            else:
                ok, n = z3.Bool(v.e.fresh('is_number')), v.fresh_int('number')
            if not v.split(ok):
                v.throw(ValueError('invalid literal for int()'))
            d0.v, sz.v, out.v, lines.v = p, n, z3.IntVal(0), lines.v + 1
            return SInt(n)
        return f

    def join(sep, items):
        if sep != b'' or not all(isinstance(x, SBuf) for x in items):
            raise Unsupported('join')
        w = SBuf(S, c0.v, z3.IntVal(0))
        if legal:
            for x in items:
                w = x if w is None else w + x
        me = v.obj('size text', __int__=to_int(w))
        me.attrs['strip'] = lambda *a: me
        return me
    v.e.hooks['join'] = join

    if legal:
        # ghost encoding: C non-empty chunks and the terminating one
        C = v.fresh_int('chunks', 0)
        start, klen, hend, size = (z3.Function(v.e.fresh(x), I, I) for x in ('start', 'klen', 'hend', 'size'))
        v.add(start(0) == 0)

        def encoding(i):
            """what a legal encoding says about chunk i (i == C: the terminating one)"""
            j = z3.Int('j')
            a, k, h = start(i), klen(i), hend(i)
            v.add(And(
                k >= 1, h >= a + k + 2, h - a <= B.z, h <= N,
                ISHEX(S, a, k), HEX(S, a, k) == size(i), at(h - 2) == CR, at(h - 1) == LF,
                ForAll([j], Implies(And(a <= j, j < a + k), And(at(j) != CR, at(j) != SEM)), patterns=[at(j)]),
                Or(h == a + k + 2, at(a + k) == SEM),
                ForAll([j], Implies(And(a <= j, j + 1 < h - 1), Not(And(at(j) == CR, at(j + 1) == LF))), patterns=[at(j)])))
            v.add(Implies(i < C, And(size(i) > 0, h + size(i) + 2 <= N, at(h + size(i)) == CR, at(h + size(i) + 1) == LF, start(i + 1) == h + size(i) + 2)))
            v.add(Implies(i == C, size(i) == 0))
        encoding(n0.v)

    # -- outer loop: a size line starts here, everything before it was a complete chunk
    def inv0(L):
        r = [('no size line read yet', lines.v == 0), ('a size line starts right after the previous chunk', And(st.pos.v == c0.v, c0.v >= 0, c0.v <= N))]
        if legal:
            r.append(('it is the next chunk of the encoding', And(n0.v >= 0, n0.v <= C, c0.v == start(n0.v))))
        return r

    def havoc0(L):
        if getattr(L, 'header_size_buff', None) is not None:
            L.header_size_buff[:] = [v.obj('stale size text')]
        return {}

    def step0(L):
        p = st.pos.v
        v.check('a chunk is delivered completely', out.v == If(sz.v > 0, sz.v, 0))
        v.check('a chunk is followed by CRLF before the next one', And(at(p - 2) == CR, at(p - 1) == LF, p == d0.v + out.v + 2))
        v.check('one size line per chunk', lines.v == 1)
        lines.v = z3.IntVal(0)
        c0.v, n0.v = p, n0.v + 1
        if legal and v.e.unroll is not None:
            encoding(n0.v)

    # -- size line
    def inv1(L):
        p, r, s = st.pos.v, zb(L.seen_r), zb(L.seen_sem)
        facts = [('the position is counted', And(zb_int(L.read_len) == p - c0.v, p >= c0.v, p <= N, p - c0.v <= B.z)),
                 ('a pending CR is the last byte', r == And(p > c0.v, at(p - 1) == CR))]
        if legal:
            k = klen(n0.v)
            w = SBuf(S, c0.v, z3.IntVal(0))
            for x in L.header_size_buff:
                w = w + x
            facts += [('inside the size line', p < hend(n0.v)),
                      ('the size text is collected exactly', w.n == If(p - c0.v < k, p - c0.v, k)),
                      ('behind the semicolon', s == And(p > c0.v + k, at(c0.v + k) == SEM))]
        return facts

    def havoc1(L):
        n = v.fresh_int('text', 0)
        L.header_size_buff[:] = [SBuf(S, c0.v, n)]
        return dict(c=None, read_len=SInt(v.fresh_int('read_len')), seen_r=SBool(z3.Bool(v.e.fresh('seen_r'))), seen_sem=SBool(z3.Bool(v.e.fresh('seen_sem'))))

    # -- data
    def inv2(L):
        facts = [('what is left of the chunk', And(zb_int(L.rest_len) == sz.v - out.v, out.v >= 0, out.v <= If(sz.v > 0, sz.v, 0))),
                 ('everything read was delivered', And(st.pos.v == d0.v + out.v, st.pos.v <= N))]
        return facts

    Q = '_iter_chunked'
    v.loop(Q, 0, Loop(inv0, havoc0, step=step0, given=lambda L: encoding(n0.v) if legal else None, modifies=lambda L: [st.pos, c0, n0, d0, sz, out, lines],
                      variant=lambda L: SInt(N - st.pos.v), containers=('header_size_buff',)))
    v.loop(Q, 1, Loop(inv1, havoc1, modifies=lambda L: [st.pos], variant=lambda L: SInt(N - st.pos.v), containers=('header_size_buff',)))
    v.loop(Q, 2, Loop(inv2, lambda L: dict(part=None, part_size=None, rest_len=SInt(v.fresh_int('rest_len'))), modifies=lambda L: [st.pos, out],
                      variant=lambda L: SInt(N - st.pos.v), containers=('header_size_buff',)))

    def each(part):
        v.check('a part is the next bytes of the chunk data', And(part.z == S, part.off == d0.v + out.v))
        v.check('a part is not empty, not larger than the buffer, inside the chunk', And(part.n >= 1, part.n <= B.z, out.v + part.n <= sz.v))
        out.v = out.v + part.n
        v.cover('part')
    f = v.fn(M + ':_iter_chunked')
    o = v.consume(f(st.read, B), each)
    if o.ok:
        v.check('accepted only at the end of a zero-size line', And(lines.v == 1, sz.v == 0, st.pos.v == d0.v))
        if legal:
            v.check('the whole encoding was decoded', n0.v == C)
        v.cover('accepted')
    else:
        v.check('nothing but a parsing error', o.raised(BPE))
        v.check('a legal encoding is never refused', not legal)
        v.cover('refused')


CHUNKED_SOUND = Proof('_iter_chunked, any stream', lambda v: chunked(v, False), covers=('part', 'accepted', 'refused'))
CHUNKED_LEGAL = Proof('_iter_chunked, legal encodings', lambda v: chunked(v, True), covers=('part', 'accepted'))


def framing(v):
    """which framing a request has: the declared length, and whether it is chunked"""
    from .query import getter
    kind = v.case('CONTENT_LENGTH', 'absent', 'empty', 'number')
    te = v.case('HTTP_TRANSFER_ENCODING', None, '', 'identity', 'chunked', 'Chunked', 'gzip, CHUNKED')
    env = Environ()
    if kind == 'empty':
        env['CONTENT_LENGTH'] = ''
    elif kind == 'number':
        t = v.str('length')
        v.add(z3.InRe(t.z, z3.Plus(z3.Range('0', '9'))))
        v.add(ISINT(t.z, z3.IntVal(10)))
        env['CONTENT_LENGTH'] = t
    if te is not None:
        env['HTTP_TRANSFER_ENCODING'] = te
    me = v.obj('request', real('ombott.request_pkg.request:Request'), environ=env)
    o = v.call(getter(v, M + ':BodyMixin.content_length'), me)
    v.check('no exception', o.ok)
    if kind == 'number':
        v.check('the declared length', zb_int(o.value) == INTOF(t.z, z3.IntVal(10)))
    else:
        v.check('nothing declared: no body', zb_int(o.value) <= 0)
    v.cover(kind)
    o = v.call(v.fn(M + ':BodyMixin.chunked'), me)
    v.check('chunked iff the transfer coding says so, in any case', o.ok and bool(o.value) == bool(te and 'chunked' in te.lower()))
    v.cover('chunked' if te and 'chunked' in te.lower() else 'plain')


FRAMING = Proof('content_length, chunked', framing, covers=('absent', 'empty', 'number', 'chunked', 'plain'))
