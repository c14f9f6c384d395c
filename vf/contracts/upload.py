"""Contracts of form fields and uploads (C07, C12, C13)."""
from ..pyvc.facade import *
from ..pyvc.rx import negate, rng, union
from .query import getter, raise_

B = 'ombott.request_pkg.body_mixin'
MP = 'ombott.request_pkg.multipart'
ERR = 'ombott.request_pkg.errors'
UTF8 = ('utf8', 'utf-8', 'UTF-8', 'UTF8', 'utf_8')


def zi(x):
    return x.z if isinstance(x, SInt) else z3.IntVal(x)


class Source:
    """ghost body file: N bytes and a read position; read(n) gives the window [position, position + n)"""

    def __init__(self, v, what=lambda s, p, n: None):
        self.v, self.N = v, v.fresh_int('size', 0)
        self.pos = v.ghost(v.fresh_int('pos', 0), lambda: v.fresh_int('pos', 0))
        self.what = what
        self.obj = v.obj('body file', seek=self.seek, read=self.read, tell=lambda: SInt(self.pos.v))
        v.trust('io.BytesIO and files: seek(p) goes to p, read(n) returns the next n bytes (all that is left when n is negative or absent)')

    def seek(self, p, whence=0):
        if not (isinstance(whence, int) and whence == 0):
            raise Unsupported('seek')
        self.v.check('seek to a position that exists', zi(p) >= 0)
        self.pos.v = zi(p)
        return p

    def read(self, n=None):
        p, left = self.pos.v, If(self.N > self.pos.v, self.N - self.pos.v, 0)
        k = left if n is None else z3.simplify(If(Or(zi(n) < 0, zi(n) > left), left, zi(n)))
        self.pos.v = z3.simplify(p + k)
        return self.what(self, p, k)


# ------------------------------------------------------------------ windows of the body (uploads)

def window(v, op):
    got = []

    def piece(s, p, k):
        got.append((p, k))
        return v.obj('bytes', _p=p, _n=k, __len__=lambda: SInt(k), __bool__=lambda: v.split(k > 0))
    src = Source(v, piece)
    st, en = v.int('start', 0), v.int('end', 0)
    v.add(And(st.z <= en.z, en.z <= src.N))
    cls = real(MP + ':BytesIOProxy')
    me = v.obj('upload', cls)
    o = v.call(v.fn(MP + ':BytesIOProxy.__init__'), me, src.obj, st, en)
    v.check('made without an exception', o.ok)
    tell, seek, read = (v.fn(f'{MP}:BytesIOProxy.{n}') for n in ('tell', 'seek', 'read'))
    o = v.call(tell, me)
    v.check('a new one stands at its first byte', o.ok and zi(o.value) == 0)
    size = en.z - st.z
    # any position inside
    at = v.fresh_int('at', 0)
    v.add(at <= size)
    o = v.call(seek, me, SInt(at))
    v.check('seek inside', o.ok and zi(o.value) == at)
    v.add(src.pos.v >= 0)
    src.pos.v = v.fresh_int('elsewhere', 0)       # the body file is shared
    where = lambda: v.call(tell, me)
    if op == 'seek':
        to = v.int('to')
        w = v.case('whence', None, 0, 1, 2)
        o = v.call(seek, me, to, *([] if w is None else [w]))
        want = to.z + (at if w == 1 else size if w == 2 else 0)
        want = If(want < 0, 0, If(want > size, size, want))
        v.check('no exception', o.ok)
        v.check('the position that was asked for, inside the upload', zi(o.value) == want)
        t = where()
        v.check('tell agrees', t.ok and zi(t.value) == want)
    elif op == 'read':
        n = v.either('size', lambda: ABSENT, lambda: None, lambda: v.int('n'))
        o = v.call(read, me, *([] if n is ABSENT else [n]))
        left = size - at
        want = left if not isinstance(n, SInt) else If(Or(n.z < 0, n.z > left), left, n.z)
        v.check('no exception', o.ok)
        r = o.value
        if isinstance(r, bytes):
            v.check('nothing is returned only where there is nothing', And(z3.BoolVal(not r), want == 0))
            v.e.cover('empty')
        else:
            v.check('exactly the bytes at the position, none of another part', And(r._p == st.z + at, r._n == want))
            v.e.cover('bytes')
        t = where()
        v.check('the position moves by what was returned', t.ok and zi(t.value) == at + want)
    v.cover('done')


def unknown_whence(v):
    src = Source(v)
    cls = real(MP + ':BytesIOProxy')
    me = v.obj('upload', cls)
    v.call(v.fn(MP + ':BytesIOProxy.__init__'), me, src.obj, 0, 5)
    o = v.call(v.fn(MP + ':BytesIOProxy.seek'), me, 0, 7)
    v.check('an unknown whence is refused', o.raised(ValueError))
    v.cover('refused')


def copy(v):
    """saving an upload: everything from the position to the end, in order; the position is kept"""
    N, p0 = v.fresh_int('size', 0), v.fresh_int('at', 0)
    v.add(p0 <= N)
    pos = v.ghost(p0, lambda: v.fresh_int('pos', 0))
    out = v.ghost(z3.IntVal(0), lambda: v.fresh_int('out', 0))
    chunk = v.int('chunk', 1)

    def read(n=None):
        left = N - pos.v
        k = left if n is None else If(Or(zi(n) < 0, zi(n) > left), left, zi(n))
        p = pos.v
        pos.v = p + k
        return v.obj('bytes', _p=p, _n=k, __bool__=lambda: v.split(k > 0), __len__=lambda: SInt(k))

    def write(x):
        v.check('written in order', And(x._p == p0 + out.v, x._n > 0))
        out.v = out.v + x._n

    def seek(p, *a):
        if a:
            raise Unsupported('seek')
        pos.v = zi(p)
    me = v.obj('upload', real('ombott.request_pkg.helpers:FileUpload'), file=v.obj('file', read=read, tell=lambda: SInt(pos.v), seek=seek))
    v.loop('FileUpload._copy_file', 0, Loop(lambda L: [('all that was read is written', And(pos.v == p0 + out.v, out.v >= 0, pos.v <= N))], lambda L: {}, variant=lambda L: SInt(N - pos.v), modifies=lambda L: [pos, out]))
    o = v.call(v.fn('ombott.request_pkg.helpers:FileUpload._copy_file'), me, v.obj('destination', write=write), chunk)
    v.check('no exception', o.ok)
    v.check('everything is written', out.v == N - p0)
    v.check('the position is as before', pos.v == p0)
    v.cover('copied')


def save(v):
    """FileUpload.save: everything goes to the given file or file-like; an existing file only when asked for"""
    cls = real('ombott.request_pkg.helpers:FileUpload')
    kind = v.case('destination', 'file-like', 'path', 'directory')
    over = v.case('overwrite', False, True)
    there = v.case('a file of that name is there', False, True)
    dst = v.obj('file-like', _isinstance=lambda t: False) if kind == 'file-like' else v.str('destination')
    fname = v.str('filename')
    joined = v.fresh_str('path of the file')
    opened, copied, closed = [], [], []

    def path(x, what):
        if not isinstance(x, SStr):
            raise Misfit(what)
        return x.z

    def isdir(x):
        v.check('what is asked about is the destination', path(x, 'isdir').eq(dst.z))
        return kind == 'directory'

    def exists(x):
        want = joined if kind == 'directory' else dst
        v.check('the file to be written is looked for', path(x, 'exists').eq(want.z))
        return there

    def join(a, *b):
        if not isinstance(a, SStr) or not a.z.eq(dst.z) or len(b) != 1 or b[0] is not fname:
            raise Misfit('join')
        return joined

    def open_(x, mode='r', *a, **k):
        opened.append((path(x, 'open'), mode))
        fp = v.obj('file', __enter__=lambda: fp, __exit__=lambda *a: closed.append(fp) or False, close=lambda: closed.append(fp))
        return fp
    v.stub('request_pkg.helpers:os', v.obj('os', path=v.obj('os.path', isdir=isdir, exists=exists, join=join)))
    v.stub('request_pkg.helpers:open', open_)
    v.contract('FileUpload._copy_file', lambda me, fp, *a, **k: copied.append(fp))
    me = v.obj('upload', cls, filename=fname)
    o = v.call(v.fn('ombott.request_pkg.helpers:FileUpload.save'), me, dst, over)
    if kind == 'file-like':
        v.check('copied to the file-like', o.ok and len(copied) == 1 and copied[0] is dst and not opened)
    elif there and not over:
        v.check('an existing file is kept', o.raised(OSError) and not opened and not copied)
    else:
        want = joined if kind == 'directory' else dst
        v.check('written to the file asked for', o.ok and len(opened) == 1 and opened[0][0].eq(want.z))
        v.check('as bytes, from its start', len(opened) == 1 and opened[0][1] in ('wb', 'wb+', 'w+b', 'bw'))
        v.check('everything, and closed', len(copied) == 1 and len(closed) == 1 and copied[0] is closed[0])
    v.cover(kind)


def upload(v):
    cls = real('ombott.request_pkg.helpers:FileUpload')
    f, name, fn = v.obj('file'), v.obj('name'), v.obj('filename')
    made = []
    hs = v.either('headers', lambda: None, lambda: {}, lambda: {'Content-Type': v.obj('type')})

    def hdict(*a):
        d = v.obj('HeaderDict', _a=a, get=lambda k, d=None: dict(a[0]).get(k, d) if a else d)
        made.append(d)
        return d
    v.stub('HeaderDict', hdict)
    me = v.obj('upload', cls)
    o = v.call(v.fn('ombott.request_pkg.helpers:FileUpload.__init__'), me, f, name, fn, hs)
    v.check('no exception', o.ok)
    v.check('file, field name and file name are kept', me.attrs.get('file') is f and me.attrs.get('name') is name and me.attrs.get('raw_filename') is fn)
    h = me.attrs.get('headers')
    v.check('the headers are kept', any(h is d for d in made) and (h.attrs['_a'][:1] == (hs,) if hs else not h.attrs['_a'] or not h.attrs['_a'][0]))
    o = v.call(lambda: me.content_type)
    v.check('the content type is the header of that name', o.ok and (o.value is hs['Content-Type'] if hs else o.value == ''))
    v.cover('with' if hs else 'without')


# ------------------------------------------------------------------ header lines

def quotable(v, name):
    """text without double quotes and line breaks"""
    return without(v, v.str(name), '"\r\n')


def without(v, x, chars):
    rs = negate([(ord(c), ord(c)) for c in chars])
    v.add(z3.InRe(x.z, z3.Star(union([rng(*r) for r in rs]))))
    for c in chars:
        v.add(Not(z3.Contains(x.z, sval(c))))
    return x


def rope(*parts):
    return SStr(concat([sval(p) if isinstance(p, str) else p.z for p in parts]))


def plain(v, name, also=';"'):
    """non-empty text without line breaks and outer white space"""
    x = without(v, v.str(name), '\r\n' + also)
    v.add(Not(x.z == sval('')))
    v.add(Not(starts_in(x.z, SPACES)))
    v.add(Not(ends_in(x.z, SPACES)))
    return x


def header_disposition(v):
    """the header that names a part"""
    name = quotable(v, 'name')
    file = v.either('kind', lambda: None, lambda: quotable(v, 'filename'))
    hname = v.case('header', 'Content-Disposition', 'content-disposition')
    sep = v.case('separator', '; ', ';')
    line = [hname, ': form-data', sep, 'name="', name, '"']
    if file is not None:
        line += [sep, 'filename="', file, '"']
    f = v.fn(MP + ':FieldStorage.parse_header')
    o = v.call(f, real(MP + ':FieldStorage'), rope(*line))
    v.check('no exception', o.ok)
    h = o.value
    v.check('the header name', h.name == hname)
    v.check('its value', h.value == 'form-data')
    opts = h.options
    if not isinstance(opts, dict):
        raise Misfit('options')
    v.check('exactly the parameters that were sent', set(opts) == ({'name'} if file is None else {'name', 'filename'}))
    v.check('the name, whatever characters it has', same(opts.get('name'), name))
    if file is not None:
        v.check('the file name, whatever characters it has', same(opts.get('filename'), file))
    v.cover('field' if file is None else 'file')


def same(x, y):
    if isinstance(x, SStr):
        return x.z == y.z
    if isinstance(x, str):
        return y.z == sval(x)
    return False


def header_type(v):
    """the content type of a part"""
    t = plain(v, 'type')
    cs = v.either('parameter', lambda: None, lambda: plain(v, 'charset', ';"=' + SPACES.replace('\r', '').replace('\n', '')))
    hname = v.case('header', 'Content-Type', 'content-type')
    line = [hname, ': ', t] + ([] if cs is None else ['; charset=', cs])
    o = v.call(v.fn(MP + ':FieldStorage.parse_header'), real(MP + ':FieldStorage'), rope(*line))
    v.check('no exception', o.ok)
    h = o.value
    v.check('the header name', h.name == hname)
    v.check('the raw value is what was sent', same(h.raw, rope(*line[2:])))
    v.check('the value is the type', same(h.value, t))
    v.check('the parameter', not h.options if cs is None else list(h.options) == ['charset'] and same(h.options['charset'], cs))
    v.cover('type' if cs is None else 'parameter')


def header_any(v):
    """any line: a header or a RequestError"""
    colon = v.bool('a colon')
    parsed = v.obj('rest', split=lambda *a: [v.obj('value', strip=lambda: v.obj('value'))], strip=lambda: v.obj('raw'))
    sep = v.obj('separator', __bool__=lambda: v.split(colon.z))
    line = v.obj('line', partition=lambda s: (v.obj('name', strip=lambda: v.obj('name')), sep, parsed), __str__=lambda: v.fresh_str('line'))
    left = v.ghost(v.fresh_int('left', 0), lambda: v.fresh_int('left', 0))

    def text(what):
        return v.obj(what, lower=lambda: text('key'), strip=lambda c=None: text(what))

    def groups():
        kind = v.case('parameter', 'bare', 'quoted', 'token')
        return (text('key'), text('quoted') if kind == 'quoted' else None, text('token') if kind == 'token' else None)

    def nxt():
        left.v = left.v - 1
        return v.obj('match', groups=groups)
    it = lambda r: v.obj('matches', _symiter=lambda: SymIter(lambda: SBool(left.v > 0), nxt))
    cls = v.obj('FieldStorage', _patt=v.obj('pattern', finditer=it))
    v.loop('FieldStorage.parse_header', 0, Loop(lambda L: [('left', left.v >= 0)], lambda L: dict(dct=v.obj('options', __setitem__=lambda k, x: None)), variant=lambda L: SInt(left.v), modifies=lambda L: [left], containers=('dct',), rebind=('dct',)))
    v.stub('Header', lambda **k: v.obj('header', **k))
    o = v.call(v.fn(MP + ':FieldStorage.parse_header'), cls, line)
    if o.ok:
        v.check('a line with a colon', colon.z)
        v.cover('header')
    else:
        v.check('anything else is refused as a malformed body', o.raised(real(ERR + ':RequestError')))
        v.check('only a line without a colon is refused', Not(colon.z))
        v.cover('refused')


# ------------------------------------------------------------------ one part

class Part:
    """a body file whose header section is `headers` and whose data section is text or a file"""

    def __init__(self, v, headers):
        self.v = v
        self.hs, self.he, self.ds, self.de = (v.int(n, 0) for n in ('headers_start', 'headers_end', 'data_start', 'data_end'))
        v.add(And(self.hs.z <= self.he.z, self.he.z < self.ds.z, self.ds.z <= self.de.z))
        self.src = Source(v, self.bytes)
        v.add(self.de.z <= self.src.N)
        v.trust('the data of a part starts behind the end of its headers (postcondition of MultipartMarkup.parse, C06)')
        self.headers = headers
        self.value = v.obj('text of the part')
        self.max = v.int('max_read')
        self.bad = []
        self.files = []
        v.stub('BytesIOProxy', self.proxy)

    def proxy(self, src, a, b):
        self.v.check('an upload is a window of the body', src is self.src.obj)
        p = self.v.obj('upload', _a=a, _b=b)
        self.files.append(p)
        return p

    def bytes(self, s, p, k):
        v = self.v

        def decode(enc='utf-8', errors='strict'):
            if enc not in UTF8 or errors != 'strict':
                raise Misfit('decoding')
            if v.split(And(p == self.hs.z, k == self.he.z - self.hs.z)):
                what = 'headers'
            elif v.split(And(p == self.ds.z, k == self.de.z - self.ds.z)):
                what = 'data'
            else:
                v.check('a section is read as a whole', False)
                v.end()
            if self.undecodable and v.split(z3.Bool(v.e.fresh(what + ' are not UTF-8'))):
                self.bad.append(what)
                v.throw(UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid start byte'))
            return self.headers if what == 'headers' else self.value
        return v.obj('bytes', decode=decode, _p=p, _n=k, __len__=lambda: SInt(k), __bool__=lambda: v.split(k > 0))

    undecodable = True

    def field(self):
        me = self.v.obj('field', real(MP + ':FieldStorage'))
        o = self.v.call(self.v.fn(MP + ':FieldStorage.__init__'), me)
        self.v.check('a new field is empty', o.ok and all(me.attrs.get(n, 0) is None for n in ('name', 'value', 'filename', 'file')) and me.attrs.get('headers') == {})
        return me

    def read(self, me):
        return self.v.call(self.v.fn(MP + ':FieldStorage.read'), me, self.src.obj, (self.hs, self.he), (self.ds, self.de), max_read=self.max)

    def outcome(self, me, o, is_file):
        """postcondition for a delivered part"""
        v = self.v
        h, d = self.he.z - self.hs.z, self.de.z - self.ds.z
        if is_file:
            f = me.attrs.get('file')
            v.check('a file part is a window of exactly its data', len(self.files) == 1 and f is self.files[0])
            v.check('from the first to the last byte', And(zi(f._a) == self.ds.z, zi(f._b) == self.de.z) if f is not None else False)
            v.check('and has no text', me.attrs.get('value') is None)
            v.check('what was read is counted', zi(o.value) == h)
            v.check('the headers are within the limit', h <= self.max.z)
        else:
            v.check('a text part is no file', me.attrs.get('file') is None and not self.files)
            x = me.attrs.get('value')
            v.check('its text is exactly the decoded data', x is self.value or isinstance(x, str) and x == '')
            if x is not self.value:
                v.check('an empty text only for an empty part', d == 0)
                v.e.cover('empty text')
            else:
                v.e.cover('text')
            v.check('what was read is counted', zi(o.value) == h + d)
            v.check('text beyond the limit is refused', h + d <= self.max.z)


def part_known(v):
    """a part as an encoder writes it"""
    name = quotable(v, 'name')
    kind = v.case('part', 'text', 'file', 'file with type', 'type first')
    cased = v.case('header names', str, str.lower, str.upper)
    lines = [[cased('Content-Disposition') + ': form-data; name="', name, '"']]
    file = t = None
    if kind != 'text':
        file = quotable(v, 'filename')
        lines[0] += ['; filename="', file, '"']
    if kind in ('file with type', 'type first'):
        t = plain(v, 'type')
        lines.insert(0 if kind == 'type first' else 1, [cased('Content-Type') + ': ', t])
    text = []
    for i, x in enumerate(lines):
        text += (['\r\n'] if i else []) + x
    p = Part(v, rope(*text))
    p.undecodable = False
    me = p.field()
    o = p.read(me)
    h, d = p.he.z - p.hs.z, p.de.z - p.ds.z
    if not o.ok:
        v.check('only a size can be refused', o.raised(real(ERR + ':BodySizeError')))
        v.check('and only beyond the limit', h + (d if file is None else 0) > p.max.z)
        v.cover('refused')
        return
    v.check('the field name', same(me.attrs.get('name'), name))
    v.check('the file name', same(me.attrs.get('filename'), file) if file is not None else me.attrs.get('filename') is None)
    p.outcome(me, o, file is not None)
    hd = me.attrs['headers']
    if t is not None:
        v.check('the content type, as it was sent', 'Content-Type' in hd and same(hd['Content-Type'].raw, t))
        v.check('ctype', same(me.attrs.get('ctype'), t))
    v.cover(kind)


def part_any(v):
    """a part with any headers"""
    RE = real(ERR + ':RequestError')
    k, name, file = v.ghost(z3.IntVal(0), lambda: k.v), v.ghost(None, lambda: name.v), v.ghost(None, lambda: file.v)
    malformed = []

    def line():
        return v.obj('line', __str__=lambda: v.fresh_str('line'))

    def nxt():
        k.v = k.v + 1
        return line()
    more = z3.Function(v.e.fresh('another line'), I, z3.BoolSort())
    lines = v.obj('lines', _symiter=lambda: SymIter(lambda: SBool(Or(k.v == 0, more(k.v))), nxt))
    p = Part(v, v.obj('header text', split=lambda s, *a: lines if s == '\r\n' and not a else raise_(Misfit('header lines'))))

    def parse(cls, s):
        if v.split(z3.Bool(v.e.fresh('malformed'))):
            malformed.append(1)
            v.throw(real(ERR + ':BodyParsingError')('x'))
        kind = v.case('header', 'Content-Disposition', 'Content-Type', 'other')
        opts = {n: v.either('no ' + n, lambda: v.obj(n), lambda: None) for n in ('name', 'filename')} if kind == 'Content-Disposition' else {}
        if kind == 'other':
            t = v.fresh_str('header name')
            v.add(And(t.z != sval('Content-Disposition'), t.z != sval('Content-Type')))
        else:
            t = kind
        if kind == 'Content-Disposition':
            name.v, file.v = opts['name'], opts['filename']
        return v.obj('header', name=v.obj('header name', title=lambda: t), value=v.obj('value'), raw=v.obj('raw'), options=opts)
    v.contract('FieldStorage.parse_header', parse)
    me = p.field()
    me.attrs['headers'] = v.obj('headers', __setitem__=lambda a, b: None, havoc=lambda: None)

    def havoc(L):
        k._v = v.fresh_int('k', 0)
        name._v, file._v = (v.either(f'no {n} so far', lambda: v.obj(n), lambda: None) for n in ('name', 'filename'))
        me.attrs['name'], me.attrs['filename'], me.attrs['ctype'] = name.v, file.v, v.obj('type')
        me.attrs['value'] = me.attrs['file'] = None
        return dict(header_raw=line()) if v.split(k.v > 0) else {}
    v.loop('FieldStorage.read', 0, Loop(
        lambda L: [('lines', k.v >= 0), ('the name is that of the last disposition', me.attrs['name'] is name.v), ('and so is the file name', me.attrs['filename'] is file.v),
                   ('no data yet', me.attrs['value'] is None and me.attrs['file'] is None)],
        havoc, modifies=lambda L: [me, me.attrs['headers'], k, name, file]))
    o = p.read(me)
    h, d = p.he.z - p.hs.z, p.de.z - p.ds.z
    if o.ok:
        v.check('nothing malformed is delivered', not malformed and not p.bad)
        v.check('a delivered part has its name', me.attrs['name'] is name.v and name.v is not None)
        v.check('and its file name', me.attrs['filename'] is file.v)
        p.outcome(me, o, file.v is not None)
        v.cover('file' if file.v is not None else 'field')
        return
    v.check('anything else is a RequestError', o.raised(RE))
    if o.raised(real(ERR + ':BodySizeError')):
        v.check('refused as too large only beyond the limit', h + (If(z3.BoolVal(file.v is None), d, 0)) > p.max.z)
        v.cover('too large')
    else:
        v.check('refused as malformed only when it is', bool(malformed) or bool(p.bad) or name.v is None)
        v.cover('malformed')


# ------------------------------------------------------------------ all parts

def items(v):
    RE = real(ERR + ':RequestError')
    n = v.int('sections', 0)
    ST, EN = z3.Function(v.e.fresh('start'), I, I), z3.Function(v.e.fresh('end'), I, I)
    USED = z3.Function(v.e.fresh('used'), I, I)      # bytes counted against the limit by the fields so far
    pos, f, out = v.ghost(z3.IntVal(0), lambda: pos.v), v.ghost(z3.IntVal(0), lambda: f.v), v.ghost(z3.IntVal(0), lambda: out.v)
    mx = v.int('max_read')
    v.add(USED(0) == 0)
    v.trust('the sections alternate: data, headers, data, ... (postcondition of MultipartMarkup.parse, C06)')

    def section(i, name):
        return (name, (SInt(ST(i)), SInt(EN(i))))

    def nxt(*d):
        i = pos.v
        if not v.split(i < n.z):
            if d:
                return d[0]
            v.throw(StopIteration())
        pos.v = z3.simplify(i + 1)
        if v.split(i == 0):
            return section(i, 'data')
        return section(i, 'headers' if v.split(i % 2 == 1) else 'data')
    it = v.obj('sections', __next__=nxt)
    it.attrs['__iter__'] = lambda: it
    markup = v.obj('markup', __iter__=lambda: it)
    src = v.obj('body')
    refused = []
    made = []

    def field(*a):
        if a:
            raise Misfit('FieldStorage with arguments')
        x = v.obj('field', read=lambda s, hsec, dsec, max_read: read(x, s, hsec, dsec, max_read))
        made.append(x)
        return x

    def read(x, s, hsec, dsec, max_read):
        v.check('read from the body', s is src)
        v.check('every field is read once', len(made) == 1 and made[0] is x and '_read' not in x.attrs)
        i = f.v
        v.check('with its own headers', And(zi(hsec[0]) == ST(2 * i + 1), zi(hsec[1]) == EN(2 * i + 1)))
        v.check('and the data behind them', And(zi(dsec[0]) == ST(2 * i + 2), zi(dsec[1]) == EN(2 * i + 2), 2 * i + 2 < n.z))
        v.check('within what is left of the limit', zi(max_read) == mx.z - USED(i))
        if v.split(z3.Bool(v.e.fresh('refused'))):
            refused.append(1)
            v.throw(real(ERR + ':RequestError')('x'))
        u = v.fresh_int('used', 0)
        v.add(USED(i + 1) == USED(i) + u)
        x.attrs['_read'] = True
        f.v = f.v + 1
        return SInt(u)

    def inv(L):
        h, d = L.headers, L.data
        i = f.v
        r = [('all fields so far are delivered', out.v == i), ('count', And(i >= 0, 2 * i + 1 <= n.z)),
             ('what is left of the limit', zi(L.max_read) == mx.z - USED(i)),
             ('position', pos.v == If(n.z < 2 * i + 3, n.z, 2 * i + 3))]
        for x, k, name in ((h, 2 * i + 1, 'headers'), (d, 2 * i + 2, 'data')):
            if x is None:
                r.append((f'no {name} behind the last field', k >= n.z))
            else:
                r.append((f'the next {name}', And(z3.BoolVal(x[0] == name), k < n.z, zi(x[1][0]) == ST(k), zi(x[1][1]) == EN(k))))
        return r

    def havoc(L):
        del made[:]
        f._v, pos._v, out._v = v.fresh_int('fields', 0), v.fresh_int('pos', 0), v.fresh_int('delivered', 0)
        i = f.v
        h = section(2 * i + 1, 'headers') if v.split(2 * i + 1 < n.z) else None
        d = section(2 * i + 2, 'data') if v.split(2 * i + 2 < n.z) else None
        return dict(headers=h, data=d, max_read=SInt(v.fresh_int('max_read')))
    v.loop('FieldStorage.iter_items', 0, Loop(inv, havoc, variant=lambda L: SInt(If(n.z > 2 * f.v, n.z - 2 * f.v, 0)), modifies=lambda L: [pos, f, out]))

    def each(x):
        v.check('a field is delivered when it has been read', len(made) == 1 and x is made[0] and '_read' in x.attrs)
        v.check('in order, each once', out.v == f.v - 1)
        out.v = out.v + 1
        v.e.cover('field')
    o = v.consume(v.fn(MP + ':FieldStorage.iter_items')(v.obj('FieldStorage', __call__=field), src, markup, mx), each)
    if o.ok:
        v.check('all fields are delivered', Or(n.z == 0, And(n.z == 2 * out.v + 1, EN(0) <= 0)))
        v.cover('end')
    else:
        v.check('anything else is a RequestError', o.raised(RE))
        v.check('only for a refused field, headers without data or data before the first delimiter', Or(z3.BoolVal(bool(refused)), n.z % 2 == 0, EN(0) > 0))
        v.cover('refused')


# ------------------------------------------------------------------ request level

class Refused(Exception):
    """what _raise raises in the end"""


def refusing(v):
    """contract of BaseRequest._raise (proved in state.RAISE): it always raises; what is mapped to a
    client error by the default configuration is recorded"""
    log = []

    def _raise(err, base=None, **k):
        base = k.pop('except_class', base)
        log.append((err, base))
        if isinstance(err, SObj):
            raise Misfit('an error made of something else')
        v.check('every refusal is a client error', client_error(err, base))
        v.throw(Refused())
    return _raise, log


def client_error(err, base):
    m = real('ombott.ombott:DefaultConfig').errors_map
    http = real('ombott.response:HTTPResponse')
    for c in (err.__class__, base):
        r = m.get(c)
        if r:
            return isinstance(r, http) and 400 <= r.status_code < 500
    return False


def errors_map(v):
    """the default configuration answers every request error with a 4xx"""
    RE = real(ERR + ':RequestError')

    def subs(c):
        return [c] + [y for x in c.__subclasses__() if x.__module__.startswith('ombott.') for y in subs(x)]
    real(MP + ':MultipartMarkup')
    for c in subs(RE):
        v.check('every request error is a client error', client_error(c(), RE))
    m = real('ombott.ombott:DefaultConfig').errors_map
    v.check('a body that is too large is a 413', m[real(ERR + ':BodySizeError')].status_code == 413)
    v.check('a malformed chunked body is a 400', client_error(real(ERR + ':BodyParsingError')(), None))
    v.cover('mapped')


def body_string(v):
    N, mx = v.int('body size', 0), v.int('max', 0)
    chunked, cl = v.bool('chunked'), v.int('content length')
    pos = v.ghost(v.fresh_int('pos', 0))
    v.add(Implies(Not(chunked.z), N.z <= If(cl.z > 0, cl.z, 0)))
    v.trust('a body with Content-Length is no longer than that (C04)')

    def seek(p, *a):
        if a and a != (0,):
            raise Misfit('seek')
        pos.v = zi(p)

    def read(n=None):
        left = If(N.z > pos.v, N.z - pos.v, 0)
        k = left if n is None else If(Or(zi(n) < 0, zi(n) > left), left, zi(n))
        v.check('never more than the limit and one byte is loaded', k <= mx.z + 1)
        p = pos.v
        pos.v = p + k
        return v.obj('bytes', _p=p, _n=k, __len__=lambda: SInt(k), __bool__=lambda: v.split(k > 0))
    body = v.obj('body', seek=seek, read=read)
    _raise, log = refusing(v)
    me = v.obj('request', real('ombott.request_pkg.request:Request'), _body=body, chunked=chunked, content_length=cl, config=v.closed('config', max_memfile_size=mx), _raise=_raise)
    o = v.call(v.fn(B + ':BodyMixin._get_body_string'), me)
    if o.ok:
        v.check('the whole body', And(o.value._p == 0, o.value._n == N.z) if isinstance(o.value, SObj) else And(z3.BoolVal(o.value == b''), N.z == 0))
        v.check('only up to the limit', N.z <= mx.z)
        v.cover('loaded')
    else:
        v.check('a refusal', o.raised(Refused) and len(log) == 1)
        v.check('as too large', isinstance(log[0][0], real(ERR + ':BodySizeError')))
        v.check('only what is (announced) larger than the limit', Or(N.z > mx.z, And(Not(chunked.z), cl.z > mx.z)))
        v.cover('refused')


def json_(v):
    ctype = v.case('content type', ['application/json'], ['application/json', 'charset=utf-8'], ['text/plain'], [''])
    text = v.obj('body text', __bool__=lambda: v.split(z3.Bool('body')))
    calls, bad = [], []
    value = v.either('JSON value', lambda: v.obj('value'), lambda: None)

    def loads(b, **k):
        if k:
            raise Misfit('json options')
        v.check('the body is parsed', b is text)
        calls.append(1)
        e = v.either('JSON', lambda: None, lambda: ValueError('x'), lambda: UnicodeDecodeError('utf-8', b'', 0, 1, 'x'), lambda: RecursionError())
        if e is not None:
            bad.append(e)
            v.throw(e)
        return value
    v.stub('json_mod', v.obj('json', loads=loads, JSONDecodeError=ValueError))
    v.trust('json.loads returns a value or raises ValueError or RecursionError')
    _raise, log = refusing(v)
    me = v.obj('request', real('ombott.request_pkg.request:Request'), ctype=ctype, _get_body_string=lambda: text, _raise=_raise)
    o = v.call(getter(v, B + ':BodyMixin.json'), me)
    if bad:
        v.check('malformed JSON is refused', o.raised(Refused))
        v.check('once', len(log) == 1)
        v.cover('refused')
    elif calls:
        v.check('the value', o.ok and o.value is value)
        v.cover('value')
    else:
        v.check('no JSON', o.ok and o.value is None)
        v.check('a body of that type is parsed unless empty', Or(z3.BoolVal(ctype[0] != 'application/json'), Not(z3.Bool('body'))))
        v.cover('none')


def factory(v, made):
    def f(*a):
        if a:
            raise Misfit('forms factory with arguments')
        d = v.obj('forms', update=lambda x: d.attrs['_up'].append(x), _up=[])
        made.append(d)
        return d
    return f


def post_json(v):
    kind = v.case('JSON', 'object', 'nothing', 'list', 'text', 'number', 'false')
    data = {'object': {'a': v.obj('value')}, 'nothing': None, 'list': [1], 'text': 'x', 'number': 0, 'false': False}[kind]
    ctype = v.case('content type', 'application/json', 'application/json;charset=utf-8', 'application/json-patch')
    env, made = Environ(), []
    _raise, log = refusing(v)
    me = v.obj('request', real('ombott.request_pkg.request:Request'), environ=env, content_type=ctype, _forms_factory=factory(v, made), json=data, _raise=_raise)
    o = v.call(getter(v, B + ':BodyMixin.POST'), me)
    if kind in ('object', 'nothing'):
        v.check('accepted', o.ok)
        v.check('the values are the object', any(o.value is m for m in made) and o.value._up == ([data] if data else []))
        v.check('which are the forms', env.get('ombott.request.forms') is o.value)
        v.check('no files', any(env.get('ombott.request.files') is m for m in made) and env['ombott.request.files'] is not o.value and not env['ombott.request.files']._up)
    else:
        v.check('anything but an object is refused', o.raised(Refused))
    v.cover(kind)


def post_multipart(v):
    RE = real(ERR + ':RequestError')
    env, made = Environ(), []
    _raise, log = refusing(v)
    error = v.either('markup', lambda: None, lambda: real(MP + ':UnexpectedBodyEndError')('x'), lambda: real(MP + ':MalformedHeadersError')('x'), lambda: 'no markup')
    sections = v.obj('sections')
    markup = v.obj('markup', error=error, markups=sections) if error != 'no markup' else None
    body = v.obj('body', ombott_markup=markup)
    mx = v.int('max')
    left = v.ghost(v.fresh_int('fields', 0), lambda: v.fresh_int('left', 0))
    calls, got, ups = [], [], []

    def iter_items(cls, src, ms, max_read):
        v.check('the fields of this body, within the limit', src is body and ms is sections and max_read is mx)
        v.check('nothing is delivered from a body that is malformed', markup is not None and error is None)
        return v.obj('fields', _symiter=lambda: SymIter(more, nxt))

    def more():
        if v.split(z3.Bool(v.e.fresh('malformed'))):
            v.throw(v.either('error', lambda: real(ERR + ':BodyParsingError'), lambda: real(ERR + ':BodySizeError'), lambda: RE)('x'))
        return SBool(left.v > 0)

    def nxt():
        left.v = left.v - 1
        hs = {n: v.obj('header', raw=v.obj('raw'), value=v.obj('value'), name=n, options={}) for n in ('Content-Type', 'X')}
        file = v.either('part', lambda: None, lambda: v.obj('file'))
        it = v.obj('item', name=v.obj('name'), filename=v.either('file name', lambda: v.obj('filename'), lambda: '') if file is not None else None, file=file, value=v.obj('value') if file is None else None, headers=hs)
        got[:] = [it]
        return it

    def upload(f, name, filename, headers=None):
        it = got[0]
        v.check('an upload is made of its own part', f is it.file and name is it.name and filename is it.filename)
        v.check('with the headers of the part', isinstance(headers, dict) and headers == {k: h.raw for k, h in it.headers.items()})
        ups.append(v.obj('upload'))
        return ups[-1]
    v.contract('FieldStorage.iter_items', iter_items)
    v.stub('FileUpload', upload)
    v.contract('BodyMixin.POST.<locals>.collect', lambda d, k, x: calls.append((d, k, x)))

    def step(L):
        it = got[0]
        want = ups[0] if it.file is not None else it.value
        v.check('one upload for a file part, none for a text part', len(ups) == (it.file is not None))
        v.check('every part is collected twice', len(calls) == 2)
        (a, k, x), (b, l, y) = calls[:2]
        v.check('under its own name', k is it.name and l is it.name)
        v.check('the upload or the text', x is want and y is want)
        v.check('with the files or the forms, and with all', {id(a), id(b)} == {id(L.files if it.file is not None else L.forms), id(L.post)})
        v.e.cover('file' if it.file is not None else 'text')
        del calls[:], ups[:]
    v.loop('BodyMixin.POST', 0, Loop(lambda L: [('nothing pending', z3.BoolVal(not calls)), ('left', left.v >= 0)], lambda L: {}, variant=lambda L: SInt(left.v), modifies=lambda L: [left], step=step, containers=('listified',)))
    me = v.obj('request', real('ombott.request_pkg.request:Request'), environ=env, content_type='multipart/form-data; boundary=x', _forms_factory=factory(v, made), body=body, _body=body, _raise=_raise, config=v.closed('config', max_memfile_size=mx))
    o = v.call(getter(v, B + ':BodyMixin.POST'), me)
    if not o.ok:
        v.check('a malformed body is refused', o.raised(Refused))
        v.check('nothing is kept', not env)
        v.cover('refused')
        return
    v.check('all fields were taken', left.v <= 0)
    v.check('and nothing malformed', error is None)
    fs = [env.get('ombott.request.' + n) for n in ('files', 'forms')] + [o.value]
    v.check('three separate mappings', all(any(x is m for m in made) for x in fs) and len({id(x) for x in fs}) == 3)
    v.cover('delivered')


def collect(v):
    """the n-th value of a name in one of the mappings"""
    key, other = v.obj('name'), v.obj('another name')
    val, first, second = v.obj('value'), v.obj('first value'), v.obj('second value')
    n = v.case('values of this name so far', 0, 1, 'more')
    fresh = v.case('first field of this mapping', True, False) if n == 0 else False
    dct, mate = {}, {key: [1, 2]}
    if not fresh:
        dct[other] = [first, second]
    lst = [first, second]
    if n == 1:
        dct[key] = first
    elif n == 'more':
        dct[key] = lst
    listified = {id(mate): {key}}
    if not fresh:
        listified[id(dct)] = {other} | ({key} if n == 'more' else set())
    f = v.nested(B + ':BodyMixin.POST.<locals>.collect', listified=listified)
    o = v.call(f, dct, key, val)
    v.check('no exception', o.ok)
    got = dct.get(key)
    if n == 0:
        v.check('a single value is stored as it is', got is val)
        v.check('and is no list', key not in listified.get(id(dct), ()))
    elif n == 1:
        v.check('the second value makes a list, in order', isinstance(got, list) and [id(x) for x in got] == [id(first), id(val)])
        v.check('known as a list', key in listified[id(dct)])
    else:
        v.check('a further value is appended', got is lst and [id(x) for x in lst] == [id(first), id(second), id(val)])
        v.check('known as a list', key in listified[id(dct)])
    v.check('other names are left alone', fresh or [id(x) for x in dct[other]] == [id(first), id(second)])
    v.check('other mappings are left alone', mate == {key: [1, 2]} and listified[id(mate)] == {key})
    v.cover(str(n))


def boundary(v, space):
    """any non-empty latin-1 text without ; " and line breaks, no outer white space (none at all when it is not quoted)"""
    x = plain(v, 'boundary', ';"' + ('' if space else ' '))
    v.add(z3.InRe(x.z, z3.Star(rng(0, 255))))
    return x


def body_(v):
    RE = real(ERR + ':RequestError')
    _raise, log = refusing(v)
    kind = v.case('content type', 'multipart', 'multipart, quoted', 'form', 'none', 'no boundary')
    b = None
    if kind in ('multipart', 'multipart, quoted'):
        q = '"' if 'quoted' in kind else ''
        b = boundary(v, bool(q))
        pre = v.case('type', 'multipart/form-data; boundary=', 'Multipart/Form-Data;Boundary=', 'multipart/form-data; charset=utf-8; boundary=')
        post = v.case('more parameters', '', '; charset=utf-8')
        ctype = rope(pre + q, b, q + post)
    else:
        ctype = {'form': 'application/x-www-form-urlencoded', 'none': None, 'no boundary': 'multipart/form-data'}[kind]
    flag = v.either('an earlier failure', lambda: None, lambda: real(ERR + ':BodySizeError'), lambda: real(MP + ':InvalidBoundaryError'))
    read = v.obj('read')
    stream = v.obj('stream', read=read)
    env = Environ({'wsgi.input': stream})
    if ctype is not None:
        env['CONTENT_TYPE'] = ctype
    if flag is not None:
        env['ombott.request.body_error'] = flag
    log2, made, failed = [], [], []

    def seek(p, *a):
        log2.append(('seek', p))
    new = v.obj('body', seek=seek)

    def mk(x):
        made.append((x, v.obj('markup')))
        if v.split(z3.Bool(v.e.fresh('invalid boundary'))):
            failed.append(real(MP + ':InvalidBoundaryError'))
            v.throw(failed[-1]('x'))
        return made[-1][1]
    v.stub('MultipartMarkup', mk)
    cfg = v.closed('config', max_memfile_size=v.obj('threshold'), max_body_size=v.obj('limit'))
    cl, ch = v.obj('content length'), v.obj('chunked')

    def rd(r, size, *, content_length=None, chunked=None, max_body_size=None, markup=None):
        v.check('the body is read from the stream, within the configured limits', r is read and size is cfg.max_memfile_size and max_body_size is cfg.max_body_size)
        v.check('with the framing of the request', content_length is cl and chunked is ch)
        v.check('and parsed as it is read when it is multipart', markup is (made[0][1] if made else None))
        log2.append('read')
        if v.split(z3.Bool(v.e.fresh('refused'))):
            failed.append(v.either('error', lambda: real(ERR + ':BodyParsingError'), lambda: real(ERR + ':BodySizeError'), lambda: real(MP + ':MalformedHeadersError')))
            v.throw(failed[-1]('x'))
        return new
    v.contract('_body_read', rd)
    v.stub('_body_read', rd)
    me = v.obj('request', real('ombott.request_pkg.request:Request'), environ=env, config=cfg, content_length=cl, chunked=ch, _raise=_raise)
    o = v.call(getter(v, B + ':BodyMixin._body'), me)
    if flag is not None:
        v.check('a body that failed once is refused again', o.raised(Refused) and len(log) == 1)
        v.check('with the same error', isinstance(log[0][0], flag))
        v.check('and is not read again', not log2)
        v.cover('failed before')
        return
    if failed:
        v.check('a malformed body is refused', o.raised(Refused) and len(log) == 1 and isinstance(log[0][0], failed[0]))
        v.check('for good', env.get('ombott.request.body_error') is failed[0])
        v.cover('refused')
        return
    v.check('no exception', o.ok)
    v.check('read once', log2.count('read') == 1 and log2[0] == 'read')
    v.check('the body, from its start', o.value is new and log2[-1] == ('seek', 0))
    v.check('which replaces the stream', env['wsgi.input'] is new)
    v.check('no failure is recorded', 'ombott.request.body_error' not in env)
    if b is not None:
        v.check('a multipart body is parsed with its boundary', len(made) == 1 and isinstance(made[0][0], SStr) and made[0][0].kind == 'bytes')
        v.check('exactly', made[0][0].z == b.z)
        v.check('the sections stay with the body', new.attrs.get('ombott_markup') is made[0][1])
    else:
        v.check('no boundary, no parts', not made and new.attrs.get('ombott_markup', 0) is None)
    v.cover(kind)


def body_prop(v):
    log = []
    b = v.obj('body', seek=lambda *a: log.append(a))
    me = v.obj('request', real('ombott.request_pkg.request:Request'), _body=b)
    o = v.call(v.fn(B + ':BodyMixin.body'), me)
    v.check('the body, from its start', o.ok and o.value is b and log == [(0,)])
    v.cover('body')


ERRORS = Proof('DefaultConfig.errors_map', errors_map, covers=('mapped',))
STRING = Proof('BodyMixin._get_body_string', body_string, covers=('loaded', 'refused'))
JSON = Proof('BodyMixin.json', json_, covers=('refused', 'value', 'none'))
POST_JSON = Proof('BodyMixin.POST, JSON', post_json, covers=('object', 'nothing', 'list', 'text', 'number', 'false'))
POST_MULTI = Proof('BodyMixin.POST, multipart', post_multipart, covers=('refused', 'delivered', 'file', 'text'))
COLLECT = Proof('BodyMixin.POST.collect', collect, covers=('0', '1', 'more'))
BODY = [Proof('BodyMixin._body', body_, covers=('multipart', 'multipart, quoted', 'form', 'none', 'no boundary', 'failed before', 'refused')),
        Proof('BodyMixin.body', body_prop, covers=('body',))]

C07_FIELDS = [Proof('FieldStorage.parse_header, disposition', header_disposition, covers=('field', 'file')),
              Proof('FieldStorage.parse_header, type', header_type, covers=('type', 'parameter')),
              Proof('FieldStorage.read, an encoded part', part_known, covers=('text', 'file', 'file with type', 'type first', 'empty text', 'refused'))]
ANY_HEADER = Proof('FieldStorage.parse_header, any line', header_any, covers=('header', 'refused'))
ANY_PART = Proof('FieldStorage.read, any part', part_any, covers=('field', 'file', 'too large', 'malformed', 'text', 'empty text'))
ITEMS = Proof('FieldStorage.iter_items', items, covers=('field', 'end', 'refused'))
WINDOW = [Proof('BytesIOProxy.seek', lambda v: window(v, 'seek'), covers=('done',)),
          Proof('BytesIOProxy.read', lambda v: window(v, 'read'), covers=('done', 'bytes', 'empty')),
          Proof('BytesIOProxy.seek, whence', unknown_whence, covers=('refused',))]
COPY = Proof('FileUpload._copy_file', copy, covers=('copied',))
SAVE = Proof('FileUpload.save', save, covers=('file-like', 'path', 'directory'))
UPLOAD = Proof('FileUpload.__init__', upload, covers=('with', 'without'))
