"""Symbolic values (proxies) the rewritten functions run on."""
import z3
from .engine import E, Unsupported, PathEnd

I, Bo, St = z3.IntSort(), z3.BoolSort(), z3.StringSort()


def sval(s):
    if isinstance(s, (bytes, bytearray)):
        s = s.decode('latin1')
    return z3.StringVal(''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in s))


def from_z3_string(m):
    import re
    s = m.as_string() if not isinstance(m, str) else m
    s = re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda x: chr(int(x.group(1), 16)), s)
    return re.sub(r'\\x([0-9a-fA-F]{2})', lambda x: chr(int(x.group(1), 16)), s)


class Sym:
    pytypes = ()
    __slots__ = ('z',)

    def __hash__(self):
        raise Unsupported(f'hash of symbolic {type(self).__name__}')

    def __repr__(self):
        return f'<{type(self).__name__} {str(self.z)[:60]}>'

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'attribute {n} of {type(self).__name__}')

    def __iter__(self):
        raise Unsupported(f'iteration over {type(self).__name__}')

    def __index__(self):
        raise Unsupported(f'index use of {type(self).__name__}')

    def __format__(self, spec):
        raise Unsupported('format of a symbolic value')

    def __str__(self):
        raise Unsupported('native str() of a symbolic value')


def _z(x):
    """python/Sym -> z3 expression or None"""
    if isinstance(x, Sym):
        return x.z
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(int(x))
    if isinstance(x, (str, bytes)):
        return sval(x)
    return None


def kind_of(x):
    if isinstance(x, SStr):
        return x.kind
    if isinstance(x, str):
        return 'str'
    if isinstance(x, bytes):
        return 'bytes'
    if isinstance(x, SBuf):
        return 'buf'
    if isinstance(x, (SBool, bool)):
        return 'bool'
    if isinstance(x, (SInt, int)):
        return 'int'
    return None


class SBool(Sym):
    pytypes = (bool, int)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return E().fork(self.z)

    def __and__(self, o):
        return SBool(z3.And(self.z, _z(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.z, _z(o)))

    __ror__ = __or__

    def __invert__(self):
        return SBool(z3.Not(self.z))

    def implies(self, o):
        return SBool(z3.Implies(self.z, _z(o)))

    def __eq__(self, o):
        if kind_of(o) == 'bool':
            return SBool(self.z == _z(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else not r

    __hash__ = Sym.__hash__

    def concrete(self, m):
        return z3.is_true(m.eval(self.z, model_completion=True))


def as_int(x):
    if isinstance(x, SInt):
        return x.z
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(int(x))
    if isinstance(x, SBool):
        return z3.If(x.z, 1, 0)
    raise Unsupported(f'int operation with {type(x).__name__}')


class SInt(Sym):
    pytypes = (int,)

    def __init__(self, z):
        self.z = z if not isinstance(z, int) else z3.IntVal(z)

    def __bool__(self):
        return E().fork(self.z != 0)

    def _b(op):
        def f(self, o):
            if kind_of(o) not in ('int', 'bool'):
                raise Unsupported(f'int op with {type(o).__name__}')
            return SInt(op(self.z, as_int(o)))
        return f

    def _rb(op):
        def f(self, o):
            if kind_of(o) not in ('int', 'bool'):
                raise Unsupported(f'int op with {type(o).__name__}')
            return SInt(op(as_int(o), self.z))
        return f

    def _c(op):
        def f(self, o):
            if kind_of(o) not in ('int', 'bool'):
                raise Unsupported(f'int comparison with {type(o).__name__}')
            return SBool(op(self.z, as_int(o)))
        return f

    __add__ = _b(lambda a, b: a + b)
    __radd__ = _rb(lambda a, b: a + b)
    __sub__ = _b(lambda a, b: a - b)
    __rsub__ = _rb(lambda a, b: a - b)
    __mul__ = _b(lambda a, b: a * b)
    __rmul__ = _rb(lambda a, b: a * b)
    __lt__ = _c(lambda a, b: a < b)
    __le__ = _c(lambda a, b: a <= b)
    __gt__ = _c(lambda a, b: a > b)
    __ge__ = _c(lambda a, b: a >= b)

    def __neg__(self):
        return SInt(-self.z)

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return SInt(self.z / o)
        raise Unsupported('//')

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return SInt(self.z % o)
        raise Unsupported('%')

    def __eq__(self, o):
        if kind_of(o) in ('int', 'bool'):
            return SBool(self.z == as_int(o))
        if isinstance(o, (Sym, SObj)) and not isinstance(o, (SStr, SBuf)):
            raise Unsupported(f'int == {type(o).__name__}')
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else not r

    __hash__ = Sym.__hash__

    def concrete(self, m):
        return m.eval(self.z, model_completion=True).as_long()


ENC8 = z3.Function('enc_utf8', St, St)
ENCABLE8 = z3.Function('encodable_utf8', St, Bo)
DEC8 = z3.Function('dec_utf8', St, St)
DECABLE8 = z3.Function('decodable_utf8', St, Bo)
LOWER = z3.Function('lower', St, St)
UPPER = z3.Function('upper', St, St)
REPR = z3.Function('repr', St, St)
TITLE = z3.Function('title', St, St)
ISINT = z3.Function('is_int_literal', St, I, Bo)     # text, base
INTOF = z3.Function('int_of', St, I, I)
BYTES_RE = z3.Star(z3.Range(z3.StringVal('\\u{0}'), z3.StringVal('\\u{ff}')))
ASCII_RE = z3.Star(z3.Range(z3.StringVal('\\u{0}'), z3.StringVal('\\u{7f}')))
DIGITS = z3.Plus(z3.Range('0', '9'))


SPACES = ''.join(chr(c) for c in range(0x3001) if chr(c).isspace())


def throw(exc):
    """an exception the modelled operation really raises"""
    E().raised.append(exc)
    raise exc


def zcontains(a, lit):
    return z3.Contains(a, sval(lit))


def one_of(chars):
    return z3.Union(*[z3.Re(sval(c)) for c in chars]) if len(chars) > 1 else z3.Re(sval(chars))


def starts_in(z, chars):
    """the first character of z is among these"""
    return z3.InRe(z, z3.Concat(one_of(chars), z3.Full(z3.ReSort(z3.StringSort()))))


def ends_in(z, chars):
    return z3.InRe(z, z3.Concat(z3.Full(z3.ReSort(z3.StringSort())), one_of(chars)))


def clean(z, chars, left):
    """z does not start (end) with one of these characters"""
    e = E()
    if len(chars) <= 8 and all(e._sat_pc(z3.Contains(z, sval(c)), 300) == z3.unsat for c in chars):
        return True
    return e._sat_pc((starts_in if left else ends_in)(z, chars), 500) == z3.unsat


class SStr(Sym):
    """str or bytes over z3 strings (a bytes value uses characters 0..255)"""
    __slots__ = ('kind',)

    def __init__(self, z, kind='str'):
        self.z, self.kind = z, kind

    @property
    def pytypes(self):
        return (str,) if self.kind == 'str' else (bytes,)

    def concrete(self, m):
        s = from_z3_string(m.eval(self.z, model_completion=True))
        return s if self.kind == 'str' else s.encode('latin1', 'replace')

    def _mk(self, z):
        return SStr(z, self.kind)

    def _arg(self, o, what='operation'):
        k = kind_of(o)
        if k != self.kind:
            if k is None or k == 'buf':
                raise Unsupported(f'{self.kind} {what} with {type(o).__name__}')
            throw(TypeError(f'{self.kind} {what} with {k}'))
        return _z(o)

    def __bool__(self):
        return E().fork(self.z != sval(''))

    def slen(self):
        return SInt(z3.Length(self.z))

    def __eq__(self, o):
        k = kind_of(o)
        if k == self.kind:
            oz = _z(o)
            for x, y in ((self.z, oz), (oz, self.z)):
                h = E().memo.get('heads', {}).get(x.get_id())
                if h is not None and h[0].eq(x) and h[2].eq(z3.simplify(z3.Length(y))):
                    return SBool(z3.PrefixOf(y, h[1]))    # s[:len(y)] == y
            return SBool(self.z == oz)
        if k == 'buf':
            raise Unsupported('str/bytes == buffer')
        if k is None and o is not None and not isinstance(o, (list, tuple, dict, float, type)):
            raise Unsupported(f'str == {type(o).__name__}')
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else not r

    __hash__ = Sym.__hash__

    def __lt__(self, o):
        return SBool(self.z < self._arg(o, 'comparison'))

    def __le__(self, o):
        return SBool(self.z <= self._arg(o, 'comparison'))

    def __gt__(self, o):
        return SBool(self._arg(o, 'comparison') < self.z)

    def __ge__(self, o):
        return SBool(self._arg(o, 'comparison') <= self.z)

    def __add__(self, o):
        return self._mk(z3.Concat(self.z, self._arg(o, '+')))

    def __radd__(self, o):
        return self._mk(z3.Concat(self._arg(o, '+'), self.z))

    def contains(self, o):
        return SBool(z3.Contains(self.z, self._arg(o, 'in')))

    def startswith(self, o, *a):
        if a:
            raise Unsupported('startswith with position')
        if isinstance(o, tuple):
            return SBool(z3.Or([z3.PrefixOf(self._arg(x), self.z) for x in o]))
        return SBool(z3.PrefixOf(self._arg(o, 'startswith'), self.z))

    def endswith(self, o, *a):
        if a:
            raise Unsupported('endswith with position')
        if isinstance(o, tuple):
            return SBool(z3.Or([z3.SuffixOf(self._arg(x), self.z) for x in o]))
        return SBool(z3.SuffixOf(self._arg(o, 'endswith'), self.z))

    def find(self, o, start=0):
        if isinstance(o, (str, bytes)) and o and isinstance(start, int) and start == 0 and len(_flat(self.z)) > 1:
            sep = o if isinstance(o, str) else o.decode('latin1')
            self._arg(o, 'find')
            at = locate(self.z, sep)
            if at is not None:
                return SInt(total(_flat(at[0])))
            if free_of(_flat(z3.simplify(self.z)), '', sep):
                return SInt(z3.IntVal(-1))
        elif isinstance(o, SStr) and isinstance(start, int) and start == 0 and (r := by_char(self.z, self._arg(o, 'find'))) is not None:
            k = next((k for k, (_, hit) in enumerate(r) if hit), None)
            return SInt(z3.IntVal(-1) if k is None else total([p for p, _ in r[:k]]))
        return SInt(z3.IndexOf(self.z, self._arg(o, 'find'), as_int(start)))

    def index(self, o, start=0):
        r = self.find(o, start)
        if E().fork(r.z < 0):
            throw(ValueError('substring not found'))
        return r

    def count(self, *a):
        raise Unsupported('count')

    def __getitem__(self, k):
        L = z3.Length(self.z)
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported('slice step')
            if isinstance(k.start, int) and k.start > 0 and k.stop is None:
                # drop leading literal characters syntactically
                parts = _flat(self.z)
                t = from_z3_string(parts[0]) if z3.is_string_value(parts[0]) else ''
                if len(t) >= k.start:
                    return self._mk(concat([sval(t[k.start:])] + parts[1:]))
                for c in E().pc:
                    # what is known to start with a literal is that literal and a rest
                    if z3.is_app_of(c, z3.Z3_OP_SEQ_PREFIX) and z3.is_string_value(c.arg(0)) and c.arg(1).eq(z3.simplify(self.z)):
                        t = from_z3_string(c.arg(0))
                        if len(t) >= k.start:
                            m = E().memo.setdefault('rests', {})
                            key = (self.z.get_id(), t)
                            if key not in m:
                                rest = z3.String(E().fresh('rest'))
                                E().add(self.z == z3.Concat(c.arg(0), rest))
                                m[key] = (self.z, rest)
                            return self._mk(concat([sval(t[k.start:])] * (len(t) > k.start) + [m[key][1]]))
            r = pieces(self.z, k.start, k.stop)
            if r is not None:
                return self._mk(concat(r))
            a, b = norm_slice(k, L)
            r = self._mk(z3.SubString(self.z, a, z3.If(b > a, b - a, z3.IntVal(0))))
            if k.start in (None, 0) and not isinstance(k.start, Sym) and isinstance(k.stop, (int, SInt)):
                E().memo.setdefault('heads', {})[r.z.get_id()] = (r.z, self.z, z3.simplify(as_int(k.stop)))
            return r
        i = as_int(k)
        if E().fork(z3.Or(i >= L, i < -L)):
            throw(IndexError('string index out of range'))
        i = z3.simplify(z3.If(i < 0, i + L, i))
        r = pieces(self.z, SInt(i), None)
        if r and (z3.is_string_value(r[0]) or E().memo.get('lengths', {}).get(r[0].get_id()) or E()._sat_pc(z3.Length(r[0]) == 0) == z3.unsat):
            if z3.is_string_value(r[0]):
                c = from_z3_string(r[0])[0]
                return c if self.kind == 'str' else ord(c)
            if self.kind == 'str' and E().memo.get('lengths', {}).get(r[0].get_id()) == 1:
                return self._mk(r[0])
            i = z3.IntVal(0)
            return SInt(z3.StrToCode(z3.SubString(r[0], i, 1))) if self.kind == 'bytes' else self._mk(z3.SubString(r[0], i, 1))
        if self.kind == 'bytes':
            return SInt(z3.StrToCode(z3.SubString(self.z, i, 1)))
        return self._mk(z3.SubString(self.z, i, 1))

    def split(self, sep=None, maxsplit=-1):
        if sep is None or not isinstance(sep, (str, bytes)) or not sep:
            raise Unsupported('split()')
        return LazySplit(self, sep, self._arg(sep), maxsplit)

    def partition(self, sep):
        s = self._arg(sep)
        at = locate(self.z, sep if isinstance(sep, str) else sep.decode('latin1')) if isinstance(sep, (str, bytes)) and sep else None
        if at is not None:
            return fold(self._mk(at[0])), sep, fold(self._mk(at[1]))
        if E().fork(z3.Contains(self.z, s)):
            i = z3.IndexOf(self.z, s, 0)
            return (self._mk(z3.SubString(self.z, 0, i)), sep,
                    self._mk(z3.SubString(self.z, i + z3.Length(s), z3.Length(self.z))))
        e = self._mk(sval(''))
        return (self, e, e)

    def rsplit(self, *a, **k):
        raise Unsupported('rsplit')

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def _strip(self, chars, left, right):
        if chars is None:
            chars = '\t\n\x0b\x0c\r ' if self.kind == 'bytes' else SPACES
        if isinstance(chars, bytes):
            chars = chars.decode('latin1')
        if not isinstance(chars, str):
            raise Unsupported('strip of symbolic characters')
        parts = _flat(z3.simplify(self.z))
        if len(parts) > 1:
            # literal ends are stripped here
            was = left, right, len(parts)
            if left and z3.is_string_value(parts[0]):
                t = from_z3_string(parts[0]).lstrip(chars)
                parts[0] = sval(t)
                left = not t
                parts = parts[not t:]
            if right and z3.is_string_value(parts[-1]):
                t = from_z3_string(parts[-1]).rstrip(chars)
                parts[-1] = sval(t)
                right = not t
                parts = parts[:-1] if not t else parts
            if left and parts and not z3.is_string_value(parts[0]) and E()._sat_pc(parts[0] == sval('')) == z3.unsat and clean(parts[0], chars, True):
                left = False
            if right and parts and not z3.is_string_value(parts[-1]) and E()._sat_pc(parts[-1] == sval('')) == z3.unsat and clean(parts[-1], chars, False):
                right = False
            r = self._mk(concat(parts))
            if not (left or right) or not parts:
                return fold(r)
            if (left, right, len(parts)) != was:
                return r._strip(chars, left, right)
        elif z3.is_string_value(parts[0]):
            t = from_z3_string(parts[0])
            t = t.lstrip(chars) if left else t
            return fold(self._mk(sval(t.rstrip(chars) if right else t)))
        e = E()
        key = ('strip', self.z.get_id(), chars, left, right)
        if key in e.memo:
            return e.memo[key][0]
        r, a, b = (z3.String(e.fresh(n)) for n in ('strip', 'sl', 'sr'))
        cls = [z3.Re(sval(c)) for c in chars]
        cls = z3.Union(*cls) if len(cls) > 1 else cls[0]
        if left and len(parts) == 1 and clean(self.z, chars, True):
            left = False
        if right and len(parts) == 1 and clean(self.z, chars, False):
            right = False
        if not left and not right:
            return self
        e.add(self.z == z3.Concat(a, r, b))
        e.add(z3.InRe(a, z3.Star(cls)) if left else a == sval(''))
        e.add(z3.InRe(b, z3.Star(cls)) if right else b == sval(''))
        if len(chars) > 12:
            other = z3.AllChar(z3.ReSort(z3.StringSort()))
            no = z3.Intersect(other, z3.Complement(cls))
            e.add(z3.InRe(r, z3.Option(z3.Concat(no, z3.Star(other))) if left else z3.Full(z3.ReSort(z3.StringSort()))))
            e.add(z3.InRe(r, z3.Option(z3.Concat(z3.Star(other), no)) if right else z3.Full(z3.ReSort(z3.StringSort()))))
        for c in chars if len(chars) <= 12 else '':
            if left:
                e.add(z3.Not(z3.PrefixOf(sval(c), r)))
            if right:
                e.add(z3.Not(z3.SuffixOf(sval(c), r)))
        e.memo[key] = (self._mk(r), self.z)
        return e.memo[key][0]

    def replace(self, old, new, count=-1):
        o, n = self._arg(old), self._arg(new)
        e = E()
        if isinstance(count, int) and (r := by_char(self.z, o)) is not None:
            out = []
            for p, hit in r:
                out.append(n if hit and count else p)
                count -= bool(hit and count)
            return self._mk(concat(out))
        if count != -1:
            raise Unsupported('replace with count')
        # only the sound facts: nothing to replace => unchanged
        r = z3.String(e.fresh('replace'))
        e.add(z3.Implies(z3.Not(z3.Contains(self.z, o)), r == self.z))
        return self._mk(r)

    def _uf(self, f):
        return self._mk(f(self.z))

    def lower(self):
        return self._uf(LOWER)

    def upper(self):
        return self._uf(UPPER)

    def title(self):
        return self._uf(TITLE)

    def isdigit(self):
        raise Unsupported('isdigit')

    def encode(self, enc='utf8', err='strict'):
        if self.kind != 'str':
            throw(AttributeError('encode'))
        enc = norm_enc(enc)
        e = E()
        if err != 'strict':
            raise Unsupported('encode errors=' + repr(err))
        if enc == 'latin1':
            if not e.fork(z3.InRe(self.z, BYTES_RE)):
                throw(UnicodeEncodeError('latin-1', 'x', 0, 1, 'ordinal not in range(256)'))
            return SStr(self.z, 'bytes')
        if enc == 'utf8':
            if len(_flat(self.z)) > 1 and e._sat_pc(z3.Not(z3.InRe(self.z, ASCII_RE)), 500) == z3.unsat:
                return SStr(self.z, 'bytes')
            encable(self.z)
            if not e.fork(ENCABLE8(self.z)):
                throw(UnicodeEncodeError('utf-8', '\ud800', 0, 1, 'surrogates not allowed'))
            r = ENC8(self.z)
            e.add(z3.InRe(r, BYTES_RE))
            e.add(DEC8(r) == self.z)
            e.add(DECABLE8(r))
            e.add((z3.Length(r) == 0) == (z3.Length(self.z) == 0))
            for c in '\r\n\0':
                e.add(z3.Contains(r, sval(c)) == z3.Contains(self.z, sval(c)))
            return SStr(r, 'bytes')
        raise Unsupported('encoding ' + repr(enc))

    def decode(self, enc='utf8', err='strict'):
        if self.kind != 'bytes':
            throw(AttributeError('decode'))
        enc = norm_enc(enc)
        e = E()
        if enc == 'latin1':
            return SStr(self.z, 'str')
        if err != 'strict':
            raise Unsupported('decode errors=' + repr(err))
        if enc == 'utf8':
            if not e.fork(DECABLE8(self.z)):
                throw(UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid start byte'))
            r = DEC8(self.z)
            e.add(ENC8(r) == self.z)
            e.add(ENCABLE8(r))
            return SStr(r, 'str')
        raise Unsupported('encoding ' + repr(enc))

    def join(self, it):
        raise Unsupported('join on symbolic separator')

    def isalpha(self, *a):
        raise Unsupported('isalpha')


def encable(z):
    """a text can be encoded when its pieces can (a literal: decided here)"""
    parts = _flat(z)
    if len(parts) > 1 or z3.is_string_value(z):
        E().add(ENCABLE8(z) == z3.And([z3.BoolVal(not any(0xd800 <= ord(c) < 0xe000 for c in from_z3_string(p))) if z3.is_string_value(p) else ENCABLE8(p) for p in parts]))
    return ENCABLE8(z)


def norm_enc(e):
    if not isinstance(e, str):
        raise Unsupported('symbolic encoding')
    return {'utf-8': 'utf8', 'utf8': 'utf8', 'latin1': 'latin1', 'latin-1': 'latin1', 'iso-8859-1': 'latin1'}.get(e.lower(), e)


def norm_slice(k, L):
    def n(x, d):
        if x is None:
            return d
        x = as_int(x)
        return z3.simplify(z3.If(x < 0, z3.If(x + L < 0, z3.IntVal(0), x + L), z3.If(x > L, L, x)))
    return n(k.start, z3.IntVal(0)), n(k.stop, L)


def _flat(z):
    if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [y for x in z.children() for y in _flat(x)]
    return [z]


def concat(parts):
    parts = [p for p in parts if not (z3.is_string_value(p) and p.as_string() == '')]
    if not parts:
        return sval('')
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def by_char(z, o):
    """the pieces of a concatenation, marked where a piece is the one character o; None unless o is nowhere else"""
    o = z3.simplify(o)
    if not (z3.is_app(o) and o.decl().kind() == z3.Z3_OP_SEQ_UNIT):
        return None
    out, e = [], E()
    for p in _flat(z3.simplify(z)):
        hit = p.eq(o)
        if not hit and e._sat_pc(z3.Contains(p, o)) != z3.unsat:
            return None
        out.append((p, hit))
    return out


def total(parts):
    n = z3.IntVal(0)
    for p in parts:
        n = n + (z3.IntVal(len(from_z3_string(p))) if z3.is_string_value(p) else z3.simplify(z3.Length(p)))
    return z3.simplify(n)


def pieces(z, start, stop):
    """the pieces of a concatenation between two bounds that fall between pieces; else None"""
    parts = _flat(z)
    if len(parts) < 2 or not (isinstance(start, SInt) or isinstance(stop, SInt)):
        return None

    def at(k, d):
        if k is None:
            return d
        k = as_int(k)
        for i in range(len(parts) + 1):
            if z3.is_int_value(x := z3.simplify(k - total(parts[:i]))) and x.as_long() == 0:
                return i
        return None
    def cut(k):
        """a bound inside a literal: the literal is cut there"""
        if k is None:
            return
        k = as_int(k)
        for i, p in enumerate(parts):
            if z3.is_string_value(p):
                t, x = from_z3_string(p), z3.simplify(k - total(parts[:i]))
                if z3.is_int_value(x) and 0 < x.as_long() < len(t):
                    parts[i:i + 1] = [sval(t[:x.as_long()]), sval(t[x.as_long():])]
                    return
    cut(start), cut(stop)
    a, b = at(start, 0), at(stop, len(parts))
    return None if a is None or b is None else parts[a:max(a, b)]


def free_of(parts, t, sep):
    """sep does not occur in parts + [t + sep] before its end: no character of it is in a
    symbolic part, and the literals, pushed together, do not contain it earlier"""
    lits = ''.join(from_z3_string(p) for p in parts if z3.is_string_value(p)) + t
    if (lits + sep).find(sep) != len(lits):
        return False
    e = E()
    return all(e._sat_pc(z3.Contains(p, sval(c))) == z3.unsat for p in parts if not z3.is_string_value(p) for c in set(sep))


def locate(z, sep):
    """(before, after) of the first occurrence of a literal, when it stands in a
    literal part of a concatenation and provably not earlier; else None"""
    acc, sym = [], False
    parts = _flat(z3.simplify(z))
    for i, p in enumerate(parts):
        if z3.is_string_value(p):
            t = from_z3_string(p)
            k = t.find(sep)
            if k >= 0:
                pre = concat(acc + [sval(t[:k])])
                if sym and free_of(acc, t[:k], sep):
                    pass
                elif sym:
                    r = E()._sat_pc(z3.Contains(concat(acc + [sval(t[:k] + sep[:-1])]), sval(sep)))
                    if r != z3.unsat:
                        return None
                return pre, concat([sval(t[k + len(sep):])] + parts[i + 1:])
        else:
            sym = True
        acc.append(p)
    return None


def fold(x):
    """a symbolic text that is a literal -> the literal"""
    if isinstance(x, SStr):
        z = z3.simplify(x.z)
        if z3.is_string_value(z):
            t = from_z3_string(z)
            return t if x.kind == 'str' else t.encode('latin1')
    return x


class LazySplit:
    """str.split(sep[, maxsplit]): case splits only as far as the parts are used"""

    def __init__(self, s, sep, zsep, maxsplit):
        self.sep, self.zsep, self.limit = len(sep), zsep, maxsplit
        self.text = sep if isinstance(sep, str) else sep.decode('latin1')
        self.parts, self.rest, self.done = [], s, False

    def _grow(self, k):
        """at least k parts known to be complete, if there are so many"""
        while len(self.parts) < k and not self.done:
            if self.limit >= 0 and len(self.parts) >= self.limit or not E().fork(z3.Contains(self.rest.z, self.zsep)):
                self.parts.append(self.rest)
                self.done = True
                return
            r = self.rest
            at = locate(r.z, self.text)
            if at is not None:
                self.parts.append(r._mk(at[0]))
                self.rest = r._mk(at[1])
                continue
            i = z3.IndexOf(r.z, self.zsep, 0)
            self.parts.append(r._mk(z3.SubString(r.z, 0, i)))
            self.rest = r._mk(z3.SubString(r.z, i + self.sep, z3.Length(r.z)))

    def __getitem__(self, k):
        if not isinstance(k, int) or k < 0 or k > 8:
            raise Unsupported('index into a split')
        if k == 0 and not self.parts and self.limit != 0:
            r = self.rest
            at = locate(r.z, self.text)
            if at is not None:
                return fold(r._mk(at[0]))
            if E()._sat_pc(z3.Contains(r.z, self.zsep)) == z3.unsat:
                return r
            return r._mk(z3.If(z3.Contains(r.z, self.zsep), z3.SubString(r.z, 0, z3.IndexOf(r.z, self.zsep, 0)), r.z))
        self._grow(k + 1)
        if k >= len(self.parts):
            throw(IndexError('list index out of range'))
        return fold(self.parts[k])

    def __iter__(self):
        k = 0
        while True:
            self._grow(k + 1)
            if k >= len(self.parts):
                return
            if k >= 4 and self.limit < 0:
                raise Unsupported('iteration over an unbounded split')
            yield fold(self.parts[k])
            k += 1

    def __len__(self):
        raise Unsupported('length of a split')

    def __bool__(self):
        return True


def lift(x):
    """concrete str/bytes -> SStr"""
    if isinstance(x, (str, bytes)):
        return SStr(sval(x), 'str' if isinstance(x, str) else 'bytes')
    return x


def str_of(x):
    """str(x) for any value the contracts use"""
    if isinstance(x, SStr):
        if x.kind == 'str':
            return x
        raise Unsupported('str(bytes)')
    if isinstance(x, SInt):
        return SStr(z3.If(x.z >= 0, z3.IntToStr(x.z), z3.Concat(sval('-'), z3.IntToStr(-x.z))))
    if isinstance(x, SBool):
        return SStr(z3.If(x.z, sval('True'), sval('False')))
    if isinstance(x, SBuf) and not isinstance(x, STxt):
        return SStr(z3.String(E().fresh('str_of_bytes')))      # only used in messages: nothing is known of it
    if isinstance(x, Sym):
        raise Unsupported(f'str of {type(x).__name__}')
    if isinstance(x, SObj):
        f = x.attrs.get('__str__')
        if f is None:
            raise Unsupported(f'str of {x!r}')
        return f()
    return str(x)


# ---------------------------------------------------------------- buffers

class SBuf(Sym):
    """bytes as a window (array, offset, length) - the array is never changed"""
    pytypes = (bytes,)
    __slots__ = ('off', 'n')

    def __init__(self, arr, off, n):
        self.z, self.off, self.n = arr, off, n

    def at(self, i):
        return z3.Select(self.z, self.off + i)

    def __bool__(self):
        return E().fork(self.n > 0)

    def slen(self):
        return SInt(self.n)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported('slice step')
            a, b = norm_slice(k, self.n)
            return type(self)(self.z, z3.simplify(self.off + a), z3.simplify(z3.If(b > a, b - a, z3.IntVal(0))))
        i = as_int(k)
        if E().fork(z3.Or(i >= self.n, i < -self.n)):
            throw(IndexError('index out of range'))
        return SInt(self.at(z3.If(i < 0, i + self.n, i)))

    def _same(self, o, n):
        """the first n bytes agree (stated over the positions of either array)"""
        q = z3.Int(E().fresh('j'))

        def one(a, b):
            return z3.ForAll([q], z3.Implies(z3.And(a.off <= q, q < a.off + n), z3.Select(a.z, q) == z3.Select(b.z, q - a.off + b.off)), patterns=[z3.Select(a.z, q)])
        if self.z.eq(o.z):
            return one(self, o)
        return z3.And(one(self, o), one(o, self))

    def eq(self, o):
        if isinstance(o, SBuf):
            return z3.And(self.n == o.n, self._same(o, self.n))
        if isinstance(o, bytes):
            return z3.And([self.n == len(o)] + [self.at(i) == c for i, c in enumerate(o)])
        return None

    def __eq__(self, o):
        c = self.eq(o)
        if c is None:
            if isinstance(o, Sym):
                raise Unsupported('buffer ==')
            return False
        return SBool(c)

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else not r

    __hash__ = Sym.__hash__

    def startswith(self, o):
        if isinstance(o, SBuf):
            return SBool(z3.And(o.n <= self.n, self._same(o, o.n)))
        if isinstance(o, bytes):
            return SBool(z3.And([self.n >= len(o)] + [self.at(i) == c for i, c in enumerate(o)]))
        raise Unsupported('startswith')

    def contains(self, o):
        if isinstance(o, bytes) and len(o) == 1:
            q = z3.Int(E().fresh('j'))
            return SBool(z3.Exists([q], z3.And(self.off <= q, q < self.off + self.n, z3.Select(self.z, q) == o[0])))
        raise Unsupported('in buffer')

    def __add__(self, o):
        if isinstance(o, SBuf) and o.z.eq(self.z) and E().fork(o.off == self.off + self.n):
            return type(self)(self.z, self.off, z3.simplify(self.n + o.n))
        raise Unsupported('buffer +')

    def __radd__(self, o):
        if isinstance(o, bytes) and not o:
            return self
        if isinstance(o, bytes):
            e, q, k = E(), z3.Int('j'), len(o)
            a = z3.Array(e.fresh('cat'), I, I)
            e.add(z3.And([z3.Select(a, i) == c for i, c in enumerate(o)]))
            e.add(z3.ForAll([q], z3.Implies(z3.And(k <= q, q < k + self.n), z3.Select(a, q) == self.at(q - k)), patterns=[z3.Select(a, q)]))
            return type(self)(a, z3.IntVal(0), z3.simplify(self.n + k))
        raise Unsupported('buffer +')

    def concrete(self, m):
        n = m.eval(self.n, model_completion=True).as_long()
        return bytes(m.eval(self.at(z3.IntVal(i)), model_completion=True).as_long() % 256 for i in range(min(n, 5000)))


class SChar(Sym):
    """one character of a text window"""
    pytypes = (str,)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return True

    def slen(self):
        return SInt(z3.IntVal(1))

    def __eq__(self, o):
        if isinstance(o, str):
            return SBool(self.z == ord(o)) if len(o) == 1 else False
        if isinstance(o, SChar):
            return SBool(self.z == o.z)
        if isinstance(o, Sym):
            raise Unsupported('character ==')
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else not r

    __hash__ = Sym.__hash__

    def inside(self, s):
        return SBool(z3.Or([z3.BoolVal(False)] + [self.z == ord(c) for c in s]))


class STxt(SBuf):
    """text as a window over an array of code points"""
    pytypes = (str,)
    __slots__ = ()

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SBuf.__getitem__(self, k)
        return SChar(SBuf.__getitem__(self, k).z)

    def _lit(self, o):
        return o if not isinstance(o, str) else [ord(c) for c in o]

    def eq(self, o):
        if isinstance(o, STxt):
            return SBuf.eq(self, o)
        if isinstance(o, str):
            return z3.And([self.n == len(o)] + [self.at(i) == ord(c) for i, c in enumerate(o)])
        if isinstance(o, SChar):
            return z3.And(self.n == 1, self.at(0) == o.z)
        return None

    __hash__ = Sym.__hash__

    def startswith(self, o):
        if isinstance(o, SChar):
            return SBool(z3.And(self.n >= 1, self.at(0) == o.z))
        if isinstance(o, str):
            return SBool(z3.And([self.n >= len(o)] + [self.at(i) == ord(c) for i, c in enumerate(o)]))
        if isinstance(o, STxt):
            return SBuf.startswith(self, o)
        raise Unsupported('startswith')

    def find(self, o, start=0):
        """position of the first such character"""
        if not (isinstance(o, str) and len(o) == 1):
            raise Unsupported('find of more than one character')
        e = E()
        j, st = z3.Int(e.fresh('j')), as_int(start)
        r = z3.Int(e.fresh('find'))
        if not (isinstance(start, int) and start >= 0):
            raise Unsupported('find from a symbolic start')
        none = z3.ForAll([j], z3.Implies(z3.And(st <= j, j < self.n), self.at(j) != ord(o)))
        if e.fork(none):
            return SInt(z3.IntVal(-1))
        e.add(z3.And(st <= r, r < self.n, self.at(r) == ord(o), z3.ForAll([j], z3.Implies(z3.And(st <= j, j < r), self.at(j) != ord(o)))))
        return SInt(r)

    def __add__(self, o):
        if isinstance(o, STxt):
            return SBuf.__add__(self, o)
        raise Unsupported('text +')

    def __radd__(self, o):
        if isinstance(o, str) and not o:
            return self
        raise Unsupported('text +')

    def __getattr__(self, n):
        h = E().hooks.get('text.' + n)
        if h is not None:
            return lambda *a, **k: h(self, *a, **k)
        return Sym.__getattr__(self, n)

    def concrete(self, m):
        n = m.eval(self.n, model_completion=True).as_long()
        return ''.join(chr(m.eval(self.at(z3.IntVal(i)), model_completion=True).as_long() % 0xd800) for i in range(min(n, 5000)))


def same_bytes(a, b, what='j'):
    """z3: buffers a and b are equal as byte strings"""
    return a.eq(b)


# ---------------------------------------------------------------- objects

class Heap:
    """a mutable object the engine tracks"""

    def __init__(self):
        self.serial = E().new_serial()

    def wrote(self):
        E().note_write(self)


class Cell(Heap):
    """ghost variable"""

    def __init__(self, v, mk=None):
        super().__init__()
        self._v, self.mk = v, mk

    @property
    def v(self):
        return self._v

    @v.setter
    def v(self, x):
        self.wrote()
        self._v = x

    def havoc(self):
        self.wrote()
        self._v = self.mk()
        return self._v


class SObj:
    """an object with symbolic attributes; methods come from a real class (inlined)
    unless the contract gives a stub"""

    def __init__(self, name, cls=None, attrs=None, on_set=None, inline=True):
        d = object.__setattr__
        d(self, '_name', name)
        d(self, 'cls', cls)
        d(self, 'attrs', dict(attrs or {}))
        d(self, 'on_set', on_set)
        d(self, 'serial', E().new_serial())
        d(self, 'inline', inline)

    def __repr__(self):
        return f'<{self._name}>'

    def __getattr__(self, n):
        if n in self.attrs:
            v = self.attrs[n]
            return v
        if self.cls is not None and self.inline:
            from . import rt
            return rt.class_attr(self, self.cls, n)
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        if '_missing' in self.attrs:
            return self.attrs['_missing'](n)
        raise Unsupported(f'attribute {n} of {self._name}')

    def __setattr__(self, n, v):
        E().note_write(self)
        if self.on_set is not None and self.on_set(self, n, v):
            return
        if self.cls is not None and self.inline:
            import inspect
            p = inspect.getattr_static(self.cls, n, None)
            if isinstance(p, property) and p.fset is not None:
                from . import rt
                rt.call(p.fset, self, v)
                return
        self.attrs[n] = v

    def __delattr__(self, n):
        E().note_write(self)
        if n not in self.attrs:
            throw(AttributeError(n))
        del self.attrs[n]

    def __bool__(self):
        f = self.attrs.get('__bool__')
        if f is not None:
            return bool(f())
        raise Unsupported(f'truth of {self._name}')

    def __eq__(self, o):
        if self is o:
            return True
        f = self.attrs.get('__eq__')
        if f is not None:
            return f(o)
        if o is None:
            return False
        raise Unsupported(f'{self._name} ==')

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else not r

    def __hash__(self):
        return id(self) >> 4

    def __iter__(self):
        f = self.attrs.get('__iter__')
        if f is not None:
            return f()
        raise Unsupported(f'iteration over {self._name}')

    def __enter__(self):
        f = self.attrs.get('__enter__')
        if f is None:
            raise Unsupported(f'with {self._name}')
        return f()

    def __exit__(self, *a):
        return self.attrs['__exit__'](*a)

    def __call__(self, *a, **k):
        f = self.attrs.get('__call__')
        if f is None:
            raise Unsupported(f'call of {self._name}')
        return f(*a, **k)

    def __getitem__(self, k):
        f = self.attrs.get('__getitem__')
        if f is not None:
            return f(k)
        return self._dunder('__getitem__', k)

    def __setitem__(self, k, v):
        E().note_write(self)
        f = self.attrs.get('__setitem__')
        if f is not None:
            return f(k, v)
        return self._dunder('__setitem__', k, v)

    def __delitem__(self, k):
        E().note_write(self)
        f = self.attrs.get('__delitem__')
        if f is not None:
            return f(k)
        return self._dunder('__delitem__', k)

    def contains(self, k):
        f = self.attrs.get('__contains__')
        if f is not None:
            return f(k)
        return self._dunder('__contains__', k)

    def _dunder(self, name, *a):
        if self.cls is not None and self.inline:
            from . import rt
            return rt.call(rt.class_attr(self, self.cls, name), *a)
        raise Unsupported(f'{name} of {self._name}')


class Poison:
    """a variable whose value the loop contract does not describe"""

    def __init__(self, name):
        object.__setattr__(self, '_n', name)

    def _no(self, *a, **k):
        raise Unsupported(f'use of variable {object.__getattribute__(self, "_n")!r} the loop contract does not describe')

    __getattribute__ = lambda self, n: object.__getattribute__(self, '_no')() if n not in ('_n', '_no', '__class__') else object.__getattribute__(self, n)
    __bool__ = __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __add__ = __radd__ = __sub__ = __rsub__ = __call__ = __iter__ = __getitem__ = __setitem__ = __len__ = __contains__ = __index__ = __str__ = __repr__ = __hash__ = __mod__ = __mul__ = __format__ = _no


def is_sym(x):
    return isinstance(x, (Sym, SObj, Poison))
