"""Regular expressions of the re module as z3 regular languages (truth of a match only)."""
import re
import z3
try:
    from re import _parser as sre
except ImportError:                                   # pragma: no cover
    import sre_parse as sre
from .engine import E, Unsupported

ANY = None


def allchar():
    return z3.AllChar(z3.ReSort(z3.StringSort()))


def ch(c):
    return z3.StringVal('\\u{%x}' % c)


def rng(a, b):
    return z3.Range(ch(a), ch(b)) if a != b else z3.Re(ch(a))


def union(rs):
    return z3.Union(*rs) if len(rs) > 1 else rs[0]


def cat(rs):
    rs = [r for r in rs if r is not None]
    if not rs:
        return z3.Re(z3.StringVal(''))
    return z3.Concat(*rs) if len(rs) > 1 else rs[0]


TOP = 0x2ffff


def ranges(items, ascii_only):
    """character class -> sorted list of ranges"""
    out = []
    for op, a in items:
        n = str(op)
        if n == 'LITERAL':
            out.append((a, a))
        elif n == 'RANGE':
            out.append(a)
        elif n == 'CATEGORY':
            c = str(a)
            if not ascii_only:
                raise Unsupported('unicode character class in a pattern')
            t = {'CATEGORY_DIGIT': [(48, 57)], 'CATEGORY_SPACE': [(9, 13), (32, 32)], 'CATEGORY_WORD': [(48, 57), (65, 90), (95, 95), (97, 122)]}.get(c)
            if t is None:
                raise Unsupported(c)
            out += t
        else:
            raise Unsupported(f'pattern class {n}')
    return out


def negate(rs):
    out, p = [], 0
    for a, b in sorted(rs):
        if a > p:
            out.append((p, a - 1))
        p = max(p, b + 1)
    if p <= TOP:
        out.append((p, TOP))
    return out


def apart(a, b):
    return all(x1 < y0 or y1 < x0 for x0, x1 in a for y0, y1 in b)


def alphabet(x, every=None, first=None, n=None):
    """assume: every character (the first character) of the piece x is in the class, and there is one (n of them)"""
    e = E()
    cls = lambda p: Class(*list(sre.parse(p, 0))[0], 0, False)._ranges()
    every, first = every and cls(every), first and cls(first)
    if n is not None:
        e.add(z3.Length(x) == n)
        e.memo.setdefault('lengths', {})[x.get_id()] = n
    if every is not None and len(every) <= 200:           # a large class (\\w) is known to the matcher only
        e.add(z3.InRe(x, z3.Plus(union([rng(*r) for r in every]))))
    if first is not None:
        e.add(z3.InRe(x, z3.Concat(union([rng(*r) for r in first]), z3.Full(z3.ReSort(z3.StringSort())))))
    e.add(z3.Length(x) >= 1)
    e.memo.setdefault('alphabet', {})[x.get_id()] = (x, every, first)


def node(seq, flags, isb):
    ascii_only = isb or flags & re.A
    out = []
    for op, a in seq:
        n = str(op)
        if n == 'LITERAL':
            if flags & re.I:
                raise Unsupported('case-insensitive pattern')
            out.append(z3.Re(ch(a)))
        elif n == 'NOT_LITERAL':
            out.append(union([rng(*r) for r in negate([(a, a)])]))
        elif n == 'ANY':
            out.append(allchar() if flags & re.S else union([rng(*r) for r in negate([(10, 10)])]))
        elif n == 'IN':
            if flags & re.I:
                raise Unsupported('case-insensitive pattern')
            neg = a and str(a[0][0]) == 'NEGATE'
            rs = ranges(a[1:] if neg else a, ascii_only)
            out.append(union([rng(*r) for r in (negate(rs) if neg else rs)]))
        elif n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
            if n == 'POSSESSIVE_REPEAT':
                raise Unsupported('possessive repeat')
            lo, hi, sub = a
            r = node(sub, flags, isb)
            if hi == sre.MAXREPEAT:
                out.append(z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r)))
            else:
                out.append(z3.Option(r) if (lo, hi) == (0, 1) else z3.Loop(r, lo, hi))
        elif n == 'SUBPATTERN':
            if a[1] or a[2]:
                raise Unsupported('inline flags')
            out.append(node(a[3], flags, isb))
        elif n == 'BRANCH':
            out.append(union([node(x, flags, isb) for x in a[1]]))
        else:
            raise Unsupported(f'pattern element {n}')
    return cat(out)


def language(pat, how):
    """the texts for which pat.<how> succeeds"""
    isb = isinstance(pat.pattern, bytes)
    seq = list(sre.parse(pat.pattern, pat.flags & ~re.U if isb else pat.flags))
    start, end = how in ('match', 'fullmatch'), how == 'fullmatch'
    nl = False
    if seq and str(seq[0][0]) == 'AT':
        if str(seq[0][1]) not in ('AT_BEGINNING', 'AT_BEGINNING_STRING') or pat.flags & re.M:
            raise Unsupported('pattern anchor')
        start, seq = True, seq[1:]
    if seq and str(seq[-1][0]) == 'AT':
        k = str(seq[-1][1])
        if k not in ('AT_END', 'AT_END_STRING') or pat.flags & re.M:
            raise Unsupported('pattern anchor')
        nl = k == 'AT_END' and how != 'fullmatch'
        end, seq = True, seq[:-1]
    r = node(seq, pat.flags, isb)
    parts = [] if start else [z3.Star(allchar())]
    parts.append(r)
    if nl:
        parts.append(z3.Option(z3.Re(ch(10))))
    if not end:
        parts.append(z3.Star(allchar()))
    return cat(parts)


def finite(seq, flags):
    """a pattern with finitely many texts -> [(bytes, ends at the end of the subject, {group: text})], in order of preference"""
    out = [((), False, {})]
    for op, a in seq:
        n = str(op)
        if n == 'LITERAL' and not flags & re.I:
            alts = [((a,), False, {})]
        elif n == 'BRANCH':
            alts = [y for x in a[1] for y in finite(x, flags)]
        elif n == 'SUBPATTERN' and not (a[1] or a[2]):
            alts = [(t, e, {**g, **({a[0]: (0, len(t))} if a[0] is not None else {})}) for t, e, g in finite(a[3], flags)]
        elif n in ('MAX_REPEAT', 'MIN_REPEAT') and a[1] <= 4:
            one, alts = finite(a[2], flags), []
            for m in (range(a[1], a[0] - 1, -1) if n == 'MAX_REPEAT' else range(a[0], a[1] + 1)):
                xs = [((), False, {})]
                for _ in range(m):
                    xs = [_then(x, y) for x in xs for y in one]
                alts += [x for x in xs if x]
        elif n == 'AT' and str(a) == 'AT_END_STRING':
            alts = [((), True, {})]
        else:
            raise Unsupported(f'pattern element {n}')
        out = [z for x in out for y in alts for z in [_then(x, y)] if z]
    return out


def _then(x, y):
    if x[1] and y[0]:
        return None
    return x[0] + y[0], x[1] or y[1], {**x[2], **{g: (len(x[0]) + s, len(x[0]) + e) for g, (s, e) in y[2].items()}}


def search_buf(pat, s, start):
    """search of a finite pattern in a buffer: the first position, there the preferred alternative"""
    from .values import SBuf, SInt, SObj, as_int, throw
    e = E()
    if not isinstance(pat.pattern, bytes):
        throw(TypeError('pattern type'))
    alts = finite(sre.parse(pat.pattern, pat.flags), pat.flags)
    j = z3.Int('j')
    end = s.off + s.n

    def here(p, alt):          # p: absolute position
        t, z, _ = alt
        return z3.And([p + len(t) <= end] + [z3.Select(s.z, p + i) == c for i, c in enumerate(t)] + ([p + len(t) == end] if z else []))
    lo = as_int(start)
    lo = s.off + z3.If(lo < 0, 0, z3.If(lo > s.n, s.n, lo))
    none = lambda a, b: z3.ForAll([j], z3.Implies(z3.And(a <= j, j < b), z3.And([z3.Not(here(j, x)) for x in alts])), patterns=[z3.Select(s.z, j)])
    if any(not t for t, _, _ in alts):
        raise Unsupported('a pattern that matches the empty text')
    if e.fork(none(lo, end)):
        return None
    p = z3.Int(e.fresh('found'))
    e.add(z3.And(lo <= p, p < end, z3.Or([here(p, x) for x in alts]), none(lo, p)))
    pick = None
    for k, x in enumerate(alts):
        if k == len(alts) - 1 or e.fork(here(p, x)):
            pick = x
            break
    rel = z3.simplify(p - s.off)

    def span(g):
        if g == 0:
            return 0, len(pick[0])
        return pick[2].get(g)

    def startf(g=0):
        r = span(g)
        return -1 if r is None else SInt(rel + r[0])

    def endf(g=0):
        r = span(g)
        return -1 if r is None else SInt(rel + r[1])

    def group(g=0):
        r = span(g)
        return None if r is None else bytes(pick[0][r[0]:r[1]])

    def missing(n):
        raise Unsupported(f'match.{n}')
    for f in (startf, endf, group):
        f._vf = True
    return SObj('match', None, {'__bool__': lambda: True, '_missing': missing, 'start': startf, 'end': endf, 'group': group}, None, False)


# ---------------------------------------------------------------- ropes
#
# A text that is a concatenation of literals and symbolic pieces ("rope"): the pattern's
# own parse tree is interpreted in the order the re module tries its alternatives.
# A symbolic piece is crossed as a whole: the path condition must decide whether all or
# none of its characters belong to the class that meets it; otherwise: Unsupported.

_SPACES = [c for c in range(0x3001) if chr(c).isspace()]


_ci_cache = {}


def _decimals():
    return _such('d', str.isdecimal)


def _words():
    return _such('w', lambda c: c.isalnum() or c == '_')


def _such(key, test, caches={}):
    cache = caches.setdefault(key, [])
    if not cache:
        for c in range(TOP + 1):
            if test(chr(c)):
                if cache and cache[-1][1] == c - 1:
                    cache[-1] = (cache[-1][0], c)
                else:
                    cache.append((c, c))
    return list(cache)


def _ci(a):
    if a not in _ci_cache:
        p = re.compile(re.escape(chr(a)), re.I)
        _ci_cache[a] = [(x, x) for x in range(0x3000) if p.fullmatch(chr(x))] or [(a, a)]
    return _ci_cache[a]


class Class:
    """a set of characters: test(c) and the z3 regular expression of one character"""

    def __init__(self, op, a, flags, isb):
        self.op, self.a, self.flags, self.isb = str(op), a, flags, isb
        self._z = None

    def has(self, c):
        one = self._one
        if self.op == 'ANY':
            return bool(self.flags & re.S) or c != '\n'
        if self.op == 'LITERAL':
            return one(self.a, c)
        if self.op == 'NOT_LITERAL':
            return not one(self.a, c)
        neg = self.a and str(self.a[0][0]) == 'NEGATE'
        r = False
        for op, a in self.a[1:] if neg else self.a:
            n = str(op)
            if n == 'LITERAL':
                r = r or one(a, c)
            elif n == 'RANGE':
                if self.flags & re.I and any(chr(x).lower() != chr(x).upper() for x in range(a[0], min(a[1], a[0] + 300) + 1)):
                    raise Unsupported('case-insensitive range')
                r = r or a[0] <= ord(c) <= a[1]
            elif n == 'CATEGORY' and str(a) == 'CATEGORY_SPACE':
                r = r or (c in ' \t\n\r\f\v' if self.isb or self.flags & re.A else c.isspace())
            elif n == 'CATEGORY' and str(a) == 'CATEGORY_DIGIT':
                r = r or (c in '0123456789' if self.isb or self.flags & re.A else c.isdecimal())
            elif n == 'CATEGORY' and str(a) == 'CATEGORY_WORD':
                r = r or ((c.isascii() if self.isb or self.flags & re.A else True) and (c.isalnum() or c == '_'))
            else:
                raise Unsupported(f'pattern class {a}')
        return r != neg

    def _one(self, a, c):
        if self.flags & re.I:
            return re.fullmatch(re.escape(chr(a)), c, re.I) is not None
        return ord(c) == a

    def _ranges(self):
        if self.op == 'ANY':
            return [(0, TOP)] if self.flags & re.S else negate([(10, 10)])
        if self.op in ('LITERAL', 'NOT_LITERAL'):
            items, neg = [('LITERAL', self.a)], self.op == 'NOT_LITERAL'
        else:
            neg = bool(self.a) and str(self.a[0][0]) == 'NEGATE'
            items = self.a[1:] if neg else self.a
        rs = []
        for op, a in items:
            n = str(op)
            if n == 'LITERAL' and self.flags & re.I:
                rs += _ci(a)
            elif n == 'CATEGORY' and str(a) == 'CATEGORY_SPACE' and not (self.isb or self.flags & re.A):
                rs += [(x, x) for x in _SPACES]
            elif n == 'CATEGORY' and str(a) == 'CATEGORY_DIGIT' and not (self.isb or self.flags & re.A):
                rs += _decimals()
            elif n == 'CATEGORY' and str(a) == 'CATEGORY_WORD' and not (self.isb or self.flags & re.A):
                rs += _words()
            elif n == 'RANGE' and self.flags & re.I:
                raise Unsupported('case-insensitive range')
            else:
                rs += ranges([(op, a)], self.isb or self.flags & re.A)
        return negate(rs) if neg else rs

    def over(self, x):
        """'all', 'none' of the characters of the piece x are in the class, 'first': its first one is not (None: cannot tell)"""
        e = E()
        rs = sorted(self._ranges())
        no = negate(rs)
        known = e.memo.get('alphabet', {}).get(x.get_id())
        if known is not None:
            every, first = known[1:]
            if every is not None and apart(every, no):
                return 'all'
            if every is not None and apart(every, rs):
                return 'none'
            if first is not None and apart(first, rs):
                return 'first'
        full = z3.Full(z3.ReSort(z3.StringSort()))

        def free(cs):
            """no character of x is among these"""
            if sum(b - a + 1 for a, b in cs) <= 8:
                if all(e._sat_pc(z3.Contains(x, ch(c))) == z3.unsat for a, b in cs for c in range(a, b + 1)):
                    return True
            rest = negate(sorted(cs))
            return e._sat_pc(z3.Not(z3.InRe(x, z3.Star(union([rng(*r) for r in rest])) if rest else z3.Re(z3.StringVal(''))))) == z3.unsat
        if not no or free(no):
            return 'all'
        if not rs or free(rs):
            return 'none'
        if e._sat_pc(z3.InRe(x, z3.Concat(union([rng(*r) for r in rs]), full))) == z3.unsat:
            return 'first'
        return None


SINGLE = ('LITERAL', 'NOT_LITERAL', 'IN', 'ANY')


class Rope:
    def __init__(self, parts, pat):
        self.parts, self.pat = parts, pat
        self.isb = isinstance(pat.pattern, bytes)
        self.fuel = 20000
        self.empty = {}

    def norm(self, p):
        """position -> the piece it stands before; empty pieces are skipped (by cases)"""
        i, k = p
        while i < len(self.parts):
            x = self.parts[i]
            if isinstance(x, str):
                if k < len(x):
                    return i, k
            elif k == 0:
                if i not in self.empty:
                    self.empty[i] = E().fork(x == z3.StringVal(''))
                if not self.empty[i]:
                    return i, 0
            i, k = i + 1, 0
        return i, 0

    def step(self, cls, p):
        """one character -> the position behind it, or None; over a piece: ('all', behind) or None"""
        i, k = p = self.norm(p)
        if i >= len(self.parts):
            return None
        x = self.parts[i]
        if isinstance(x, str):
            return ('one', (i, k + 1)) if cls.has(x[k]) else None
        r = cls.over(x)
        if r is None:
            raise Unsupported('a symbolic piece of text meets a pattern that may stop inside it')
        one = E().memo.get('lengths', {}).get(x.get_id()) == 1
        return ('one' if one else 'all', (i + 1, 0)) if r == 'all' else None

    def match(self, seq, p, g, cont, flags):
        """seq from position p; cont(position, groups) is what follows"""
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported('pattern too deep')
        if not seq:
            return cont(p, g)
        (op, a), rest = seq[0], seq[1:]
        n = str(op)
        go = lambda q, h: self.match(rest, q, h, cont, flags)
        if n in SINGLE:
            s = self.step(Class(op, a, flags, self.isb), p)
            if s is None:
                return None
            if s[0] != 'one':
                raise Unsupported('a pattern stops inside a symbolic piece of text')
            return go(s[1], g)
        if n == 'AT':
            at = str(a)
            i, k = self.norm(p)
            if at in ('AT_BEGINNING', 'AT_BEGINNING_STRING') and not flags & re.M:
                return go(p, g) if p == (0, 0) or (i, k) == self.norm((0, 0)) else None
            if at == 'AT_END_STRING':
                return go(p, g) if i >= len(self.parts) else None
            if at == 'AT_END' and not flags & re.M:
                if i >= len(self.parts):
                    return go(p, g)
                x = self.parts[i]
                if isinstance(x, str):
                    if x[k:] != '\n':
                        return None
                    if i + 1 == len(self.parts):
                        return go(p, g)
                elif Class('LITERAL', 10, 0, self.isb).over(x) in ('none', 'first'):
                    return None
            raise Unsupported('pattern anchor')
        if n == 'SUBPATTERN':
            num, on, off, sub = a
            if on or off:
                raise Unsupported('inline flags')
            return self.match(list(sub), p, g, lambda q, h: go(q, h if num is None else {**h, num: (p, q)}), flags)
        if n == 'BRANCH':
            for sub in a[1]:
                r = self.match(list(sub), p, g, go, flags)
                if r is not None:
                    return r
            return None
        if n in ('ASSERT', 'ASSERT_NOT'):
            d, sub = a
            if d != 1:
                raise Unsupported('lookbehind')
            r = self.match(list(sub), p, g, lambda q, h: (q, h), flags)
            if n == 'ASSERT_NOT':
                return go(p, g) if r is None else None
            return None if r is None else go(p, r[1])
        if n in ('MAX_REPEAT', 'MIN_REPEAT'):
            lo, hi, sub = a
            sub = list(sub)
            lazy = n == 'MIN_REPEAT'
            if len(sub) == 1 and str(sub[0][0]) in SINGLE and lo <= 1 and hi in (1, sre.MAXREPEAT):
                return self.run(Class(*sub[0], flags, self.isb), p, lo, hi, lazy, lambda q: go(q, g))
            if (lo, hi) == (0, 1):
                yes = lambda: self.match(sub, p, g, go, flags)
                no = lambda: go(p, g)
                for f in (no, yes) if lazy else (yes, no):
                    r = f()
                    if r is not None:
                        return r
                return None
        raise Unsupported(f'pattern element {n}')

    def run(self, cls, p, lo, hi, lazy, cont):
        at = [(p, 0)]             # (position, kind of the step that led there)
        if lazy:
            count = 0
            while True:
                if count >= lo:
                    r = cont(at[-1][0])
                    if r is not None:
                        return r
                if hi != sre.MAXREPEAT and count >= hi:
                    return None
                s = self.step(cls, at[-1][0])
                if s is None:
                    return None
                if s[0] != 'one':
                    if hi != sre.MAXREPEAT:
                        raise Unsupported('a pattern may stop inside a symbolic piece of text')
                    self.not_inside(at[-1][0], cont)
                at.append((s[1], s[0]))
                count += 1
        while hi == sre.MAXREPEAT or len(at) <= hi:
            s = self.step(cls, at[-1][0])
            if s is None:
                break
            if s[0] != 'one' and hi != sre.MAXREPEAT:
                raise Unsupported('a pattern stops inside a symbolic piece of text')
            at.append((s[1], s[0]))
        while len(at) > lo:
            q, how = at.pop()
            r = cont(q)
            if r is not None:
                return r
            if how == 'all':
                self.not_inside(at[-1][0], cont)
        return None

    def not_inside(self, p, cont):
        """what follows fails at every position inside the piece at p (shown for an arbitrary one)"""
        e = E()
        i, k = self.norm(p)
        x = self.parts[i]
        if not e.fork(z3.Length(x) >= 2):
            return
        a, b = z3.String(e.fresh('head')), z3.String(e.fresh('tail'))
        e.add(z3.And(x == z3.Concat(a, b), z3.Length(a) >= 1, z3.Length(b) >= 1))
        parts, empty = self.parts, self.empty
        self.parts = parts[:i] + [a, b] + parts[i + 1:]
        self.empty = {(j if j <= i else j + 1): y for j, y in empty.items() if j != i}
        self.empty[i] = self.empty[i + 1] = False
        try:
            if cont((i + 1, 0)) is not None:
                raise Unsupported('a pattern may stop inside a symbolic piece of text')
        finally:
            self.parts, self.empty = parts, empty

    def text(self, a, b):
        """the rope between two positions -> SStr or a plain str/bytes"""
        from .values import SStr, sval, concat
        (i, k), (j, m) = a, b
        out = []
        while (i, k) < (j, m) and i < len(self.parts):
            x = self.parts[i]
            if isinstance(x, str):
                out.append(x[k:m] if i == j else x[k:])
            else:
                out.append(x)
            i, k = i + 1, 0
        if all(isinstance(x, str) for x in out):
            t = ''.join(out)
            return t.encode('latin1') if self.isb else t
        return SStr(concat([sval(x) if isinstance(x, str) else x for x in out]), 'bytes' if self.isb else 'str')


def rope_of(s):
    from .values import _flat, from_z3_string, concat
    parts = [from_z3_string(x) if z3.is_string_value(x) else x for x in _flat(z3.simplify(s.z))]
    return parts


def rope_search(pat, s, start, anchored=False, full=False):
    """-> (match object or None, position behind it)"""
    from .values import SObj
    parts = s if isinstance(s, list) else rope_of(s)
    r = Rope(parts, pat)
    seq = list(sre.parse(pat.pattern, pat.flags & ~re.U if r.isb else pat.flags))
    flags = pat.flags
    done = (lambda q, h: (q, h) if r.norm(q)[0] >= len(parts) else None) if full else (lambda q, h: (q, h))
    p = start
    first = Class(*seq[0], flags, r.isb) if seq and str(seq[0][0]) in SINGLE else None
    while True:
        hit = r.match(seq, p, {}, done, flags) if first is None or r.step(first, p) is not None else None
        if hit is not None:
            break
        i, k = r.norm(p)
        if anchored or i >= len(parts):
            return None, None
        if isinstance(parts[i], str):
            p = (i, k + 1)
        elif first is not None and first.over(parts[i]) == 'none':
            p = (i + 1, 0)
        else:
            raise Unsupported('a match may start inside a symbolic piece of text')
    q, g = hit
    g = {0: (p, q), **g}
    n = re.compile(pat).groups

    def one(x):
        if isinstance(x, str):
            x = pat.groupindex[x]
        if not 0 <= x <= n:
            raise Unsupported('no such group')
        return r.text(*g[x]) if x in g else None

    def group(*xs):
        xs = xs or (0,)
        return one(xs[0]) if len(xs) == 1 else tuple(one(x) for x in xs)

    def groups(default=None):
        return tuple(r.text(*g[x]) if x in g else default for x in range(1, n + 1))

    def groupdict(default=None):
        return {k: (r.text(*g[x]) if x in g else default) for k, x in pat.groupindex.items()}

    def missing(x):
        raise Unsupported(f'match.{x}')

    def offset(pos):
        from .values import SInt
        i, k = pos
        k += sum(len(x) for x in parts[:i] if isinstance(x, str))
        ls = [z3.Length(x) for x in parts[:i] if not isinstance(x, str)]
        return SInt(z3.simplify(z3.Sum([z3.IntVal(k)] + ls))) if ls else k

    def start(x=0):
        x = pat.groupindex[x] if isinstance(x, str) else x
        return offset(g[x][0]) if x in g else -1

    def end(x=0):
        x = pat.groupindex[x] if isinstance(x, str) else x
        return offset(g[x][1]) if x in g else -1

    def span(x=0):
        return start(x), end(x)
    for f in (group, groups, groupdict, start, end, span):
        f._vf = True
    m = SObj('match', None, {'__bool__': lambda: True, '_missing': missing, 'group': group, 'groups': groups, 'groupdict': groupdict, 'start': start, 'end': end, 'span': span, '__getitem__': one}, None, False)
    return m, (p, q)


def rope_iter(pat, s):
    parts = rope_of(s)
    r = Rope(parts, pat)
    out, p = [], (0, 0)
    while True:
        m, where = rope_search(pat, parts, p)
        if m is None:
            return out
        if r.norm(where[0]) == r.norm(where[1]):
            raise Unsupported('a pattern that matches the empty text')
        out.append(m)
        p = where[1]


def method(pat, name, a, k):
    from .values import SStr, SObj, SBuf, throw
    if not k and len(a) == 1 and isinstance(a[0], SStr) and (a[0].kind == 'bytes') == isinstance(pat.pattern, bytes):
        if name == 'finditer':
            return iter(rope_iter(pat, a[0]))
        if name in ('match', 'search', 'fullmatch') and len(rope_of(a[0])) > 1:
            try:
                return rope_search(pat, a[0], (0, 0), name != 'search', name == 'fullmatch')[0]
            except Unsupported as ex:
                if pat.flags & re.I:
                    raise
    if name == 'search' and not k and a and isinstance(a[0], SBuf) and len(a) <= 2:
        return search_buf(pat, a[0], a[1] if len(a) > 1 else 0)
    if name not in ('match', 'search', 'fullmatch') or len(a) != 1 or k or not isinstance(a[0], SStr):
        raise Unsupported(f'pattern.{name}')
    s = a[0]
    if (s.kind == 'bytes') != isinstance(pat.pattern, bytes):
        throw(TypeError('pattern type'))
    rope = lambda: rope_search(pat, s, (0, 0), name != 'search', name == 'fullmatch')[0]
    try:
        lang = language(pat, name)
    except Unsupported:
        return rope()
    if not E().fork(z3.InRe(s.z, lang)):
        return None

    def missing(n):
        m = rope()
        if m is None:
            raise Unsupported(f'match.{n}')
        return m.attrs[n] if n in m.attrs else m.attrs['_missing'](n)
    return SObj('match', None, {'__bool__': lambda: True, '_missing': missing}, None, False)
