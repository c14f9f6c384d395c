"""Contracts of the multipart parser (C06): every parsing step is a function of the
bytes seen so far, however they were divided.

S   the body as an array over absolute positions, with the CRLF that stands for
    the line before the body at -2 and -1
T   the delimiter: CRLF, two dashes, boundary"""
from ..pyvc.facade import *
from ..pyvc.rt import SymIter, class_attr

M = 'ombott.request_pkg.multipart'
ARR = z3.ArraySort(I, I)
S = z3.Const('body', ARR)
T = z3.Const('delimiter', ARR)
TL = z3.Const('delimiter_length', I)
# MATCH(e, i): the i bytes before e are the first i bytes of the delimiter
MATCH = z3.Function('head_ends', I, I, Bo)
WM = z3.Function('mismatch', I, I, I)
# OCC(p): the delimiter stands at p
OCC = z3.Function('delimiter_at', I, Bo)
WO = z3.Function('mismatch_at', I, I)
sel = z3.Select
CRLFx2 = (13, 10, 13, 10)
e_, i_, q_, p_, m_, d_ = (z3.Int(n) for n in ('e_', 'i_', 'q_', 'p_', 'm_', 'd_'))


def definitions():
    """MATCH and OCC, by definition"""
    return [
        ForAll([e_, i_, q_], Implies(And(MATCH(e_, i_), e_ - i_ <= q_, q_ < e_), sel(S, q_) == sel(T, q_ - e_ + i_)), patterns=[z3.MultiPattern(MATCH(e_, i_), sel(S, q_))]),
        ForAll([e_, i_], Implies(MATCH(e_, i_), And(0 <= i_, i_ <= TL)), patterns=[MATCH(e_, i_)]),
        ForAll([e_, i_], Implies(And(Not(MATCH(e_, i_)), 0 <= i_, i_ <= TL), And(e_ - i_ <= WM(e_, i_), WM(e_, i_) < e_, sel(S, WM(e_, i_)) != sel(T, WM(e_, i_) - e_ + i_))), patterns=[MATCH(e_, i_)]),
        ForAll([p_, q_], Implies(And(OCC(p_), p_ <= q_, q_ < p_ + TL), sel(S, q_) == sel(T, q_ - p_)), patterns=[z3.MultiPattern(OCC(p_), sel(S, q_))]),
        ForAll([p_], Implies(Not(OCC(p_)), And(p_ <= WO(p_), WO(p_) < p_ + TL, sel(S, WO(p_)) != sel(T, WO(p_) - p_))), patterns=[OCC(p_)]),
    ]


def shape():
    """the delimiter: CR LF - - boundary, the boundary has no CR"""
    return [TL >= 4, sel(T, 0) == 13, sel(T, 1) == 10, sel(T, 2) == 45, sel(T, 3) == 45,
            ForAll([q_], Implies(And(1 <= q_, q_ < TL), sel(T, q_) != 13), patterns=[sel(T, q_)]),
            sel(S, -2) == 13, sel(S, -1) == 10]


def lemma_unique():
    """two heads of the delimiter cannot end at the same place"""
    return ForAll([e_, i_, m_], Implies(And(MATCH(e_, i_), MATCH(e_, m_), 1 <= i_, 1 <= m_), i_ == m_), patterns=[z3.MultiPattern(MATCH(e_, i_), MATCH(e_, m_))])


def lemma_crossing(a):
    """a delimiter that crosses a is a head that ends at a"""
    return ForAll([p_], Implies(And(OCC(p_), p_ < a, a < p_ + TL), MATCH(a, a - p_)), patterns=[OCC(p_)])


def lemma_tail(e, a):
    """a head that crosses a is a shorter head that ends at a"""
    return ForAll([m_], Implies(And(MATCH(e, m_), a < e, m_ > e - a), MATCH(a, m_ - (e - a))), patterns=[MATCH(e, m_)])


def lemma_whole(a):
    return MATCH(a + TL, TL) == OCC(a)


def lemmas(v):
    for x in definitions() + shape():
        v.add(x)
    e, i, m, p = (v.fresh_int(n) for n in 'eimp')
    two = And(MATCH(e, i), MATCH(e, m), 1 <= i, i < m)
    v.check('the shorter of two heads starts with CR', Implies(two, sel(S, e - i) == sel(T, 0)))
    v.check('inside the longer one', Implies(two, sel(S, e - i) == sel(T, m - i)))
    v.check('two heads of the delimiter never end at the same place', Not(two))
    v.check('a delimiter crossing a position is a head ending there', Implies(And(OCC(p), p < e, e < p + TL), MATCH(e, e - p)))
    v.check('a head crossing a position is a shorter head ending there', Implies(And(MATCH(e, m), i < e, m > e - i), MATCH(i, m - (e - i))))
    v.check('the whole delimiter ending at a position stands before it', MATCH(p + TL, TL) == OCC(p))
    v.check('no delimiter stands at -1', Not(OCC(z3.IntVal(-1))))
    # every step of the specification is a function of the body
    a, b, d = (v.fresh_int(n) for n in 'abd')
    v.check('the first delimiter is unique', Implies(And(first(d, a), first(d, b)), a == b))
    v.check('the first empty line is unique', Implies(And(firsth(d, a), firsth(d, b)), a == b))
    x = v.fresh_int('x')
    v.check('a delimiter found in a longer prefix is the one found in a shorter one', Implies(And(first(d, a), none(d, x), a + TL <= x), False))
    v.cover('lemmas')


def none(d, to):
    """no delimiter from d on within the first `to` bytes"""
    return ForAll([p_], Implies(And(d <= p_, p_ + TL <= to), Not(OCC(p_))), patterns=[OCC(p_)])


def first(d, p):
    return And(d <= p, OCC(p), ForAll([p_], Implies(And(d <= p_, p_ < p), Not(OCC(p_))), patterns=[OCC(p_)]))


def empty_line(p, n=4):
    return And([sel(S, p + k) == c for k, c in enumerate(CRLFx2[:n])])


def noneh(d, to):
    """no empty line from d on within the first `to` bytes"""
    return ForAll([p_], Implies(And(d <= p_, p_ + 4 <= to), Not(empty_line(p_))), patterns=[sel(S, p_)])


def firsth(d, p):
    return And(d <= p, empty_line(p), ForAll([p_], Implies(And(d <= p_, p_ < p), Not(empty_line(p_))), patterns=[sel(S, p_)]))


def pending(d, a, m):
    """m bytes before a are the head of a delimiter that may end behind a"""
    return And(1 <= m, m < TL, a - m >= d, MATCH(a, m))


def quiet(d, a):
    return ForAll([m_], Implies(And(1 <= m_, m_ < TL, a - m_ >= d), Not(MATCH(a, m_))), patterns=[MATCH(a, m_)])


def zi(x):
    return x.z if isinstance(x, SInt) else z3.IntVal(x)


def base(v):
    for x in definitions() + shape():
        v.add(x)
    v.add(lemma_unique())
    v.e.feas_ms = 300
    q = z3.Int('q')
    v.add(ForAll([q], And(0 <= sel(S, q), sel(S, q) <= 255), patterns=[sel(S, q)]))


# ---------------------------------------------------------------- the index of the delimiter

def build(v):
    """MatchTail.__init__: the index lists, for every byte, all the heads of the token that end with it, shortest first"""
    tok = SBuf(v.array('token'), z3.IntVal(0), v.fresh_int('n', 1))
    grown = []

    def entry(c):
        return v.obj('entry', append=lambda x: grown.append((c, x)))
    idx = v.obj('index', __getitem__=entry)

    def mk(f=None):
        if f is not list:
            raise Misfit('how the index is kept')
        return idx
    v.stub('defaultdict', mk)
    done = v.ghost(z3.IntVal(0), lambda: v.fresh_int('done', 0))

    def step(L):
        k = L._it.k
        v.check('one entry for every head', len(grown) == 1)
        c, x = grown[0]
        if not (isinstance(x, (list, tuple)) and len(x) == 2 and isinstance(x[1], SBuf)):
            raise Misfit('an entry of the index')
        v.check('under the last byte of the head', zi(c) == sel(tok.z, k - 1))
        v.check('the head and its length', And(zi(x[0]) == k, x[1].n == k, x[1].z == tok.z, x[1].off == 0))
        del grown[:]
        done.v = k
    v.loop('MatchTail.__init__', 0, Loop(lambda L: [('heads so far', done.v == L._it.k)], lambda L: dict(i=Poisoned('i'), c=Poisoned('c')), variant=lambda L: SInt(tok.n - L._it.k), step=step, modifies=lambda L: [done]))
    me = v.obj('matcher', real(M + ':MatchTail'))
    f = v.fn(M + ':MatchTail.__init__')
    o = v.call(f, me, tok)
    v.check('no exception', o.ok)
    v.check('all heads are in the index', done.v == tok.n)
    v.check('the index, the token and its length', me.attrs.get('idx') is idx and me.attrs.get('token') is tok and zi(me.attrs.get('len')) == tok.n)
    v.cover('built')


def Poisoned(n):
    from ..pyvc.values import Poison
    return Poison(n)


def tail(v):
    """MatchTail.match_tail: the head of the delimiter the text ends with, if any"""
    base(v)
    tok = SBuf(T, z3.IntVal(0), TL)
    off, n = v.fresh_int('off'), v.fresh_int('n', 0)
    s = SBuf(S, off, n)
    a, b = v.int('start', 0), v.int('end')
    v.add(And(a.z < b.z, b.z <= n, b.z - a.z <= TL))
    end = off + b.z
    its = []

    def get(c, *d):
        c = zi(c)
        none = ForAll([q_], Implies(And(0 <= q_, q_ < TL), sel(T, q_) != c), patterns=[sel(T, q_)])
        if v.split(none):
            return d[0] if d else None
        st = v.ghost(z3.IntVal(0), lambda: v.fresh_int('k', 0))

        def rest(k):
            return ForAll([q_], Implies(And(k <= q_, q_ < TL), sel(T, q_) != c), patterns=[sel(T, q_)])

        def nxt():
            i, k = v.fresh_int('i'), st.v
            v.add(And(k < i, i <= TL, sel(T, i - 1) == c, ForAll([q_], Implies(And(k <= q_, q_ < i - 1), sel(T, q_) != c), patterns=[sel(T, q_)])))
            st.v = i
            return [SInt(i), SBuf(T, z3.IntVal(0), i)]
        it = SymIter(lambda: SBool(Not(rest(st.v))), nxt, st.havoc)
        it.c, it.st = c, st
        its.append(it)
        return v.obj('heads', _symiter=lambda: it, __bool__=lambda: True)
    me = v.obj('matcher', real(M + ':MatchTail'), token=tok, len=SInt(TL), idx=v.obj('index', get=get))

    def inv(L):
        k = L._it.st.v
        return [('the heads so far do not match', ForAll([m_], Implies(And(1 <= m_, m_ <= k, m_ <= b.z - a.z), Not(MATCH(end, m_))), patterns=[MATCH(end, m_)])),
                ('inside the delimiter', And(0 <= k, k <= TL))]
    v.loop('MatchTail.match_tail', 0, Loop(inv, lambda L: {}, variant=lambda L: SInt(TL - L._it.st.v), modifies=lambda L: [L._it.st]))
    f = v.fn(M + ':MatchTail.match_tail')
    o = v.call(f, me, s, a, b)
    v.check('no exception', o.ok)
    if o.value is None:
        v.check('no head of the delimiter is at the end', ForAll([m_], Implies(And(1 <= m_, m_ <= b.z - a.z), Not(MATCH(end, m_))), patterns=[MATCH(end, m_)]))
        v.cover('no match')
    else:
        r = zi(o.value)
        v.check('the head at the end', And(1 <= r, r <= b.z - a.z, MATCH(end, r)))
        v.cover('match')


# ---------------------------------------------------------------- data sections

def matcher(v):
    """MatchTail.match_tail by contract, with the instances of the lemmas about the place"""
    def match_tail(s, start, end):
        if not (isinstance(s, SBuf) and s.z.eq(S)):
            raise Misfit('match_tail on something else')
        a, b = zi(start), zi(end)
        v.check('match_tail: inside the text, no longer than the delimiter', And(0 <= a, a < b, b <= s.n, b - a <= TL))
        e = v.fresh_int('end')
        v.add(e == s.off + b)
        v.add(lemma_crossing(e))
        v.add(lemma_tail(e, s.off + a))
        if v.split(z3.Bool(v.e.fresh('head at the end'))):
            r = v.fresh_int('head')
            v.add(And(1 <= r, r <= b - a, MATCH(e, r)))
            return SInt(r)
        v.add(ForAll([m_], Implies(And(1 <= m_, m_ <= b - a), Not(MATCH(e, m_))), patterns=[MATCH(e, m_)]))
        return None
    return v.obj('matcher', match_tail=match_tail)


def parser(v, **state):
    tok = SBuf(T, z3.IntVal(0), TL)
    return v.obj('markuper', real(M + ':BodyMarkuper'), token=tok, tlen=SInt(TL), boundary=SBuf(T, z3.IntVal(2), TL - 2), mt=matcher(v), **state)


def rest_of(v, t, tn, d, a):
    """trest, trest_len: what is still expected of a delimiter whose head ends at a"""
    if t is None:
        return [('nothing expected: no head of the delimiter ends here', quiet(d, a))]
    if not isinstance(t, SBuf) or not isinstance(tn, (int, SInt)):
        raise Misfit('trest')
    m = TL - zi(tn)
    return [('expected: the rest of a head that ends here', And(t.z == T, t.off == m, t.n == zi(tn), pending(d, a, m)))]


def some_rest(v):
    if v.split(z3.Bool(v.e.fresh('expecting'))):
        m = v.fresh_int('m')
        return SBuf(T, m, TL - m), SInt(TL - m)
    return None, None


def data(v, unique=True):
    """BodyMarkuper._eat_data: the first delimiter from where the section starts"""
    base(v)
    P, n = v.fresh_int('abspos', 0), v.fresh_int('chunk_len', 0)
    E = v.fresh_int('seen')
    v.add(E == P + n)
    D = v.fresh_int('section')            # where the section starts (-2 before the body)
    chunk = SBuf(S, P, n)
    b = v.int('base', 0)
    v.add(And(b.z <= n, D >= -2))
    A0 = P + b.z
    t, tn = some_rest(v)
    # where the last call stopped, or the start of the section
    for _, c in rest_of(v, t, tn, D, A0):
        v.add(c)
    v.add(And(none(D, A0), D <= A0))
    v.add(lemma_crossing(A0)), v.add(lemma_whole(A0))
    me = parser(v, trest=t, trest_len=tn, abspos=SInt(P))

    was = dict(me.attrs)

    def inv(L):
        s = zi(L.start)
        A = P + s
        return [('inside the chunk', And(b.z <= s, s <= n)), ('no delimiter so far', none(D, A))] + rest_of(v, L.trest, L.trest_len, D, A) + [('no tail yet', L.__dict__.get('part') is None), ('the matcher', L.mt is me.attrs['mt']), ('the parser is left alone', all(me.attrs.get(k) is x for k, x in was.items()))]

    def havoc(L):
        t, tn = some_rest(v)
        return dict(start=SInt(v.fresh_int('start')), trest=t, trest_len=tn, part=None, matched_len=Poisoned('matched_len'), end=Poisoned('end'), data_end=Poisoned('data_end'))

    def given(L):
        A = P + zi(L.start)
        for x in (lemma_crossing(A), lemma_whole(A), lemma_crossing(A + TL)):
            v.add(x)
    v.loop('BodyMarkuper._eat_data', 0, Loop(inv, havoc, variant=lambda L: SInt(n - zi(L.start)), given=given, modifies=lambda L: [me]))
    v.contract('BodyMarkuper._eat_data', lambda *a: raise_(Misfit('recursion')))
    f = v.fn(M + ':BodyMarkuper._eat_data')
    o = v.call(f, me, chunk, b)
    v.check('no exception', o.ok)
    t2, tn2 = me.attrs.get('trest'), me.attrs.get('trest_len')
    if o.value is None:
        v.check('no delimiter in what has been seen', none(D, E))
        for name, c in rest_of(v, t2, tn2, D, E):
            v.check(name, c)
        v.cover('not found, ' + ('part of a delimiter seen' if t2 is not None else 'nothing pending'))
    else:
        r = P + zi(o.value)
        v.check('the first delimiter from the start of the section', first(D, r))
        v.check('complete in what has been seen, and not before', And(A0 < r + TL, r + TL <= E))
        v.check('nothing is expected any more', t2 is None)
        v.cover('found')


# ---------------------------------------------------------------- the start of the body

def eat_data(v, where):
    """BodyMarkuper._eat_data by contract; where(me) -> the section it works on"""
    def f(me, chunk, b):
        P, D, b = chunk.off, where(me), zi(b)
        A0, E = P + b, v.fresh_int('seen')
        v.add(E == P + chunk.n)
        if not chunk.z.eq(S):
            raise Misfit('_eat_data on something else')
        v.check('_eat_data: inside the chunk, behind what has been searched', And(0 <= b, b <= chunk.n, D <= A0, none(D, A0)))
        for name, c in rest_of(v, me.attrs.get('trest'), me.attrs.get('trest_len'), D, A0):
            v.check('_eat_data: ' + name, c)
        if v.split(z3.Bool(v.e.fresh('found'))):
            p = v.fresh_int('p')
            v.add(And(first(D, p), A0 < p + TL, p + TL <= E))
            me.trest = me.trest_len = None
            return SInt(z3.simplify(p - P))
        v.add(none(D, E))
        t, tn = some_rest(v)
        for _, c in rest_of(v, t, tn, D, E):
            v.add(c)
        me.trest, me.trest_len = t, tn
        return None
    return f


def opening(v):
    """BodyMarkuper._eat_start_boundary: the first delimiter; its CRLF may be the one before the body"""
    base(v)
    P, n = v.fresh_int('abspos', 0), v.fresh_int('chunk_len', 0)
    E = v.fresh_int('seen')
    v.add(E == P + n)
    chunk = SBuf(S, P, n)
    D = -2
    if v.split(P == 0):
        t = tn = None
    else:
        t, tn = some_rest(v)
        for _, c in rest_of(v, t, tn, D, P):
            v.add(c)
        v.add(Or(sel(S, 0) == 13, sel(S, 0) == 45))
        v.add(none(D, P))
    me = parser(v, trest=t, trest_len=tn, abspos=SInt(P))
    v.contract('BodyMarkuper._eat_data', eat_data(v, lambda me: z3.IntVal(D if me.attrs.get('trest') is not None or not v.split(P == 0) else 0)))
    f = v.fn(M + ':BodyMarkuper._eat_start_boundary')
    v.add(lemma_crossing(z3.IntVal(0)))
    bad = And(E > 0, sel(S, 0) != 13, sel(S, 0) != 45)
    o = v.call(f, me, chunk, 0)
    if not o.ok:
        v.check('an error only when the body starts with neither a line break nor a dash', And(o.raised(real(M + ':InvalidBoundaryError')), bad))
        v.cover('error')
        return
    v.check('a body that starts otherwise is an error', Not(bad))
    t2, tn2 = me.attrs.get('trest'), me.attrs.get('trest_len')
    if o.value is None:
        v.check('no delimiter in what has been seen', none(D, E))
        if v.split(E > 0):
            for name, c in rest_of(v, t2, tn2, D, E):
                v.check(name, c)
        else:
            v.check('nothing has happened', t2 is None)
        v.cover('not found')
    else:
        r = P + zi(o.value)
        v.check('the first delimiter of the body', first(D, r))
        v.check('complete in what has been seen, and not before', And(P < r + TL, r + TL <= E))
        v.check('nothing is expected any more', t2 is None)
        v.cover('found')


# ---------------------------------------------------------------- behind a delimiter

HX = {b'\n\r\n': 1, b'\r\n': 2, b'\n': 3}


def ends(e, m):
    return And([sel(S, e - m + k) == c for k, c in enumerate(CRLFx2[:m])])


def hrest(v, x, q2, a):
    """headers_end_expected: what is missing of the longest head of an empty line that ends at a"""
    if x is None:
        m = 0
    elif isinstance(x, bytes) and x in HX:
        m = HX[x]
    else:
        raise Misfit('headers_end_expected')
    r = [('the head of an empty line ends here', And(a - m >= q2, ends(a, m)))] if m else []
    return r + [('no longer one does', And([Not(And(a - k >= q2, ends(a, k))) for k in range(m + 1, 4)]))]


def eater(v, state, **k):
    me = v.obj('eater', real(M + ':HeadersEaeter'), **k)
    v.call(v.fn(M + ':HeadersEaeter.__init__'), me)
    names = {'first': '_eat_first_crlf_or_last_hyphens', 'lf': '_eat_lf', 'hyphen': '_eat_last_hyphen', 'headers': '_eat_headers'}
    try:
        meths = {s: class_attr(me, me.cls, n) for s, n in names.items()}
    except AttributeError as ex:
        raise Misfit(f'states of the header eater: {ex}')
    v.check('a new eater starts behind a delimiter', me.attrs['eat_meth'] == meths['first'] and me.attrs['headers_end_expected'] is None and me.attrs['stopped'] is False)
    me.attrs['eat_meth'] = meths[state]
    return me, meths


def section(v):
    """HeadersEaeter.eat: what stands behind a delimiter that ends at Q"""
    q = z3.Int('q')
    v.e.feas_ms = 300
    v.add(ForAll([q], And(0 <= sel(S, q), sel(S, q) <= 255), patterns=[sel(S, q)]))
    P, n, Q = v.fresh_int('abspos', 0), v.fresh_int('chunk_len', 0), v.fresh_int('Q', 0)
    chunk = SBuf(S, P, n)
    b = v.int('base', 0)
    v.add(b.z <= n)
    A, E, Q2 = v.fresh_int('A'), v.fresh_int('seen'), v.fresh_int('Q2')
    v.add(And(A == P + b.z, E == P + n, Q2 == Q + 2))
    state = v.case('state', 'first', 'lf', 'hyphen', 'headers')
    me, meths = eater(v, state)
    crlf = And(sel(S, Q) == 13, sel(S, Q + 1) == 10)
    if state == 'first':
        v.add(A == Q)
    elif state == 'lf':
        v.add(And(A == Q + 1, sel(S, Q) == 13))
    elif state == 'hyphen':
        v.add(And(A == Q + 1, sel(S, Q) == 45))
    else:
        x = v.case('expected', None, *HX)
        me.attrs['headers_end_expected'] = x
        v.add(And(A >= Q2, crlf, noneh(Q2, A)))
        for _, c in hrest(v, x, Q2, A):
            v.add(c)
    f = v.fn(M + ':HeadersEaeter.eat')
    o = v.call(f, me, chunk, b)
    bad1 = And(Q < E, sel(S, Q) != 13, sel(S, Q) != 45)
    bad2 = And(Q + 1 < E, sel(S, Q) == 13, sel(S, Q + 1) != 10)
    badh = And(Q + 1 < E, sel(S, Q) == 45, sel(S, Q + 1) != 45)
    last = And(Q + 1 < E, sel(S, Q) == 45, sel(S, Q + 1) == 45)
    if not o.ok:
        if o.raised(real(M + ':StopMarkupException')):
            v.check('the end only behind a delimiter with two dashes', last)
            v.cover('stop')
        elif o.raised(real(M + ':MalformedHeadersError')):
            v.check('malformed only where no line break follows', Or(bad1, bad2))
            v.cover('malformed')
        elif o.raised(real(M + ':UnexpectedBodyEndError')):
            v.check('an unexpected end only where one dash follows', badh)
            v.cover('unexpected end')
        else:
            v.check(f'no other exception', False)
        return
    v.check('what must end the parsing does', And(Not(bad1), Not(bad2), Not(badh), Not(last)))
    if o.value is None:
        m = me.attrs['eat_meth']
        st = [k for k, y in meths.items() if y == m]
        v.check('one of the four states', len(st) == 1)
        v.cover('not yet, ' + st[0])
        if st[0] == 'first':
            v.check('nothing seen behind the delimiter', E == Q)
        elif st[0] == 'lf':
            v.check('CR seen', And(E == Q + 1, sel(S, Q) == 13))
        elif st[0] == 'hyphen':
            v.check('a dash seen', And(E == Q + 1, sel(S, Q) == 45))
        else:
            v.check('CRLF seen', And(E >= Q2, crlf))
            v.check('no empty line yet', noneh(Q2, E))
            for name, c in hrest(v, me.attrs['headers_end_expected'], Q2, E):
                v.check(name, c)
        if st[0] != 'headers':
            v.check('nothing expected', me.attrs['headers_end_expected'] is None)
        v.check('not stopped', me.attrs['stopped'] is False)
        return
    r = v.fresh_int('r')
    v.add(r == P + zi(o.value))
    v.check('the headers follow a line break', crlf)
    v.check('the first empty line from there', firsth(Q2, r))
    v.check('complete in what has been seen, and not before', And(A < r + 4, r + 4 <= E))
    v.check('ready for the next delimiter', me.attrs['eat_meth'] == meths['first'] and me.attrs['headers_end_expected'] is None and me.attrs['stopped'] is False)
    v.cover('headers')


# ---------------------------------------------------------------- the sections

def markup(v):
    """BodyMarkuper.iter_markup: one chunk moves the parser along the specification

    start    : the first delimiter from -2 on, at e     -> data 0..max(e,0), then headers behind it
    headers Q: what follows the delimiter ending at Q   -> headers Q+2..h (h: the first empty line), then data at h+4; or the end, or an error
    data    Q: the first delimiter from Q on, at e      -> data Q..e, then headers behind it
    """
    base(v)
    P, n = v.fresh_int('abspos', 0), v.fresh_int('chunk_len', 0)
    E = v.fresh_int('seen')
    v.add(E == P + n)
    chunk = SBuf(S, P, n)
    stop, bad = real(M + ':StopMarkupException'), real(M + ':MalformedHeadersError')
    # ghost: the section being read, where it starts, up to where it has been searched
    phase = v.case('section', 'start', 'headers', 'data')
    g = dict(phase=phase, Q=v.fresh_int('Q'), cur=z3.simplify(P + 0), got=None)
    v.add(And(g['Q'] <= P, g['Q'] == -2 if phase == 'start' else g['Q'] >= 0))
    was = {}

    def enter(what, b):
        """an eater is called: in the right state, at the right place"""
        b = zi(b)
        v.check('the eater of the section is called', g['phase'] == what)
        v.check('where the section is read on', And(0 <= b, b <= n, P + b == g['cur']))
        v.check('the section before has been reported', g['got'] is None)

    def through(to):
        g['got'] = to
        return SInt(z3.simplify(to - P))

    def delimiter(what):
        def f(me, c, b):
            if c is not chunk:
                raise Misfit('another chunk')
            enter(what, b)
            if what == 'start':
                v.check('the start of the body is searched from the start of the chunk', zi(b) == 0)
                if v.split(z3.Bool(v.e.fresh('bad start'))):
                    v.throw(real(M + ':InvalidBoundaryError')('bad start'))
            if v.split(z3.Bool(v.e.fresh('delimiter'))):
                p = v.fresh_int('p')
                v.add(And(g['Q'] <= p, p != -1, g['cur'] < p + TL, p + TL <= E))
                return through(p)
            g['cur'] = E
            return None
        return f
    def headers(c, b):
        if c is not chunk:
            raise Misfit('another chunk')
        enter('headers', b)
        k = v.either('behind the delimiter', lambda: 'more', lambda: 'headers', lambda: 'stop', lambda: 'error')
        if k == 'stop':
            g['phase'] = 'stopped'
            v.throw(stop())
        if k == 'error':
            g['phase'] = 'error'
            v.throw(bad('error'))
        if k == 'headers':
            h = v.fresh_int('h')
            v.add(And(g['Q'] + 2 <= h, g['cur'] < h + 4, h + 4 <= E))
            return through(h)
        g['cur'] = E
        return None
    headers._vf = True
    v.contract('BodyMarkuper._eat_data', delimiter('data'))
    v.contract('BodyMarkuper._eat_start_boundary', delimiter('start'))
    me = parser(v, abspos=SInt(P), stopped=v.case('stopped', False, True), _eat_headers=headers, headers_eater=v.obj('eater', eat=headers))
    meths = {'start': class_attr(me, me.cls, '_eat_start_boundary'), 'data': class_attr(me, me.cls, '_eat_data'), 'headers': headers}
    me.attrs['cur_meth'] = meths[phase]

    def sec(ph, Q):
        return {'start': z3.IntVal(0), 'headers': Q + 2, 'data': Q}[ph]
    me.attrs['abs_start_section'] = SInt(z3.simplify(sec(phase, g['Q'])))
    attrs0 = dict(me.attrs)
    start0 = dict(g)

    def each(x):
        ph, Q, to = g['phase'], g['Q'], g['got']
        v.check('a section is reported only when its end has been found', to is not None)
        if not (isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and isinstance(x[1], tuple) and len(x[1]) == 2):
            raise Misfit('a reported section')
        a, b = zi(x[1][0]), zi(x[1][1])
        v.check('the name of the section', x[0] == ('headers' if ph == 'headers' else 'data'))
        v.check('where the section starts', a == sec(ph, Q))
        v.check('where the section ends', b == (If(to < 0, 0, to) if ph == 'start' else to))
        v.cover('section, ' + ph)
        if ph == 'headers':
            g.update(phase='data', Q=z3.simplify(to + 4), cur=z3.simplify(to + 4), got=None)
        else:
            g.update(phase='headers', Q=z3.simplify(to + TL), cur=z3.simplify(to + TL), got=None)

    def inv(L):
        ph = g['phase']
        st = [k for k, m in meths.items() if m == L.cur_meth]
        if len(st) != 1:
            raise Misfit('cur_meth')
        return [('the eater belongs to the section', st[0] == ph),
                ('the section before has been reported', g['got'] is None),
                ('where the chunk is read on', And(0 <= zi(L.start_next_sec), zi(L.start_next_sec) <= n, P + zi(L.start_next_sec) == g['cur'])),
                ('where the section starts', zi(L.abs_start_section) == sec(ph, g['Q']) if ph != 'start' else zi(L.abs_start_section) == 0),
                ('the section starts no later', And(g['Q'] <= g['cur'], (g['Q'] == -2) if ph == 'start' else g['Q'] >= 0)),
                ('the start only once', And(ph != 'start' or (zi(L.start_next_sec) == 0), True)),
                ('the parser is left alone', all(me.attrs.get(k) is x for k, x in attrs0.items()))]

    def havoc(L):
        ph = v.case('section in the loop', 'start', 'headers', 'data')
        g.update(phase=ph, Q=v.fresh_int('Q'), cur=v.fresh_int('cur'), got=None)
        return dict(cur_meth=meths[ph], start_next_sec=SInt(v.fresh_int('start_next_sec')), abs_start_section=SInt(v.fresh_int('abs_start_section')), skip_start=Poisoned('skip_start'))
    v.loop('BodyMarkuper.iter_markup', 0, Loop(inv, havoc, variant=lambda L: SInt(n - zi(L.start_next_sec)), modifies=lambda L: [me]))
    f = v.fn(M + ':BodyMarkuper.iter_markup')
    o = v.call(f, me, chunk)
    if not o.ok:
        raise Misfit('iter_markup is no generator')
    o = v.consume(o.value, each)
    if attrs0['stopped']:
        v.check('behind the end nothing is read', o.ok and g == start0 and me.attrs['stopped'] is True)
        v.cover('stopped before')
        return
    if not o.ok:
        v.check('an error only where the specification has one', g['phase'] in ('error', 'start'))
        v.cover('error')
        return
    if g['phase'] == 'stopped':
        v.check('the end is remembered', me.attrs['stopped'] is True)
        v.cover('stop')
        return
    v.check('the whole chunk has been read', And(g['cur'] == E, g['got'] is None))
    v.check('the parser is at the end of the chunk', zi(me.attrs['abspos']) == E)
    v.check('in the section it reads', me.attrs['cur_meth'] == meths[g['phase']])
    v.check('which starts where it starts', zi(me.attrs['abs_start_section']) == sec(g['phase'], g['Q']))
    v.check('not stopped', me.attrs['stopped'] is False)
    v.cover('on, ' + g['phase'])


def starts(v):
    """BodyMarkuper.__init__"""
    bd = v.buf('boundary')
    me = v.obj('markuper', real(M + ':BodyMarkuper'))
    made = []

    def matcher(t):
        made.append(t)
        return v.obj('matcher')
    eat = v.obj('eat')
    v.stub('MatchTail', matcher)
    v.stub('HeadersEaeter', lambda: v.obj('eater', eat=eat))
    f = v.fn(M + ':BodyMarkuper.__init__')
    o = v.call(f, me, bd)
    cr = bd.contains(b'\r').z
    if not o.ok:
        v.check('only a boundary with CR is refused', And(o.raised(real(M + ':InvalidBoundaryError')), cr))
        v.cover('refused')
        return
    v.check('a boundary with CR is refused', Not(cr))
    t, w = me.attrs['token'], me.attrs['boundary']
    if not isinstance(t, SBuf) or not isinstance(w, SBuf):
        raise Misfit('token')
    q = z3.Int('q')
    v.check('the delimiter: CRLF, two dashes, boundary', And(t.n == bd.n + 4, t.at(0) == 13, t.at(1) == 10, t.at(2) == 45, t.at(3) == 45,
            ForAll([q], Implies(And(0 <= q, q < bd.n), t.at(q + 4) == bd.at(q)))))
    v.check('the delimiter without its CRLF', And(w.n == bd.n + 2, ForAll([q], Implies(And(0 <= q, q < w.n), w.at(q) == t.at(q + 2)))))
    v.check('its length', zi(me.attrs['tlen']) == t.n)
    v.check('the index is of the delimiter', len(made) == 1 and made[0] is t)
    v.check('nothing expected, nothing read', me.attrs['trest'] is None and me.attrs['trest_len'] is None and zi(me.attrs['abspos']) == 0 and me.attrs['stopped'] is False)
    v.check('the first section starts at 0', zi(me.attrs['abs_start_section']) == 0)
    v.check('it begins with the start of the body', me.attrs['cur_meth'] == class_attr(me, me.cls, '_eat_start_boundary'))
    v.check('the eater of headers', me.attrs['_eat_headers'] is eat)
    v.cover('made')


def feed(v):
    """MultipartMarkup.parse: the sections are noted in the order of their report, the first error ends it all"""
    R = real(M + ':MultipartMarkup')
    old = v.either('error so far', lambda: None, lambda: v.obj('error'))
    marks, calls, chunk = [v.obj('section so far')], [], v.obj('chunk')
    before = list(marks)
    secs = []
    boom = v.case('outcome', None, 'MalformedHeadersError', 'InvalidBoundaryError', 'UnexpectedBodyEndError', 'AssertionError')
    exc = None if boom is None else AssertionError('x') if boom == 'AssertionError' else real(f'{M}:{boom}')('x')
    k = v.case('sections of the chunk', 0, 1, 2)

    def sections(c):
        calls.append(c)
        for i in range(k):
            x = (v.obj('name'), v.obj('range'))
            secs.append(x)
            yield x
        if exc is not None:
            v.throw(exc)
    sections._vf = True
    me = v.obj('multipart', R, _markuper=v.obj('markuper', iter_markup=sections), markups=marks, error=old)
    o = v.call(v.fn(M + ':MultipartMarkup.parse'), me, chunk)
    v.check('no exception gets out', o.ok)
    if me.attrs['markups'] is not marks:
        raise Misfit('markups')
    if old is not None:
        v.check('behind an error nothing is parsed', not calls and me.attrs['error'] is old and marks == before)
        v.cover('after an error')
        return
    v.check('the chunk is parsed once', len(calls) == 1 and calls[0] is chunk)
    v.check('the sections are noted, in order', len(marks) == 1 + k and marks[0] is before[0] and all(len(m) == 2 and m[0] is x[0] and m[1] is x[1] for m, x in zip(marks[1:], secs)))
    v.check('the error is kept', me.attrs['error'] is exc)
    v.cover('error' if exc is not None else 'parsed')


def fresh_markup(v):
    """MultipartMarkup.__init__"""
    R, made = real(M + ':MultipartMarkup'), []
    bd = v.either('boundary', lambda: v.bytes('boundary'), lambda: v.str('boundary'))

    def mk(b):
        made.append(b)
        return v.obj('markuper')
    v.stub('BodyMarkuper', mk)
    me = v.obj('multipart', R)
    o = v.call(v.fn(M + ':MultipartMarkup.__init__'), me, bd)
    if not o.ok:
        v.check('only a text that cannot be encoded fails', bd.kind == 'str' and o.raised(UnicodeEncodeError))
        return
    v.check('nothing parsed yet, no error', me.attrs['markups'] == [] and me.attrs['error'] is None)
    v.check('the parser of the boundary', len(made) == 1 and isinstance(made[0], SStr) and made[0].kind == 'bytes' and (bd.kind == 'str' or made[0] is bd))
    v.cover('made')


def raise_(x):
    raise x


DEF = dict(budget=150.0, solver_ms=8000)
LEMMAS = Proof('lemmas about the delimiter', lemmas, covers=('lemmas',), unroll=0)
BUILD = Proof('MatchTail.__init__', build, covers=('built',), unroll=0)
TAIL = Proof('MatchTail.match_tail', tail, covers=('match', 'no match'), unroll=0, **DEF)
DATA = Proof('BodyMarkuper._eat_data', data, covers=('found', 'not found, part of a delimiter seen', 'not found, nothing pending'), unroll=0, **DEF)
OPENING = Proof('BodyMarkuper._eat_start_boundary', opening, covers=('found', 'not found', 'error'), unroll=0, **DEF)
SECTION = Proof('HeadersEaeter.eat', section, covers=('stop', 'malformed', 'unexpected end', 'headers', 'not yet, first', 'not yet, lf', 'not yet, hyphen', 'not yet, headers'), unroll=0, **DEF)
MARKUP = Proof('BodyMarkuper.iter_markup', markup, covers=('section, start', 'section, headers', 'section, data', 'stopped before', 'error', 'stop', 'on, start', 'on, headers', 'on, data'), unroll=0, **DEF)
STARTS = Proof('BodyMarkuper.__init__', starts, covers=('made', 'refused'), unroll=0)
FEED = Proof('MultipartMarkup.parse', feed, covers=('after an error', 'error', 'parsed'))
NEW = Proof('MultipartMarkup.__init__', fresh_markup, covers=('made',))
C06 = [LEMMAS, BUILD, TAIL, STARTS, OPENING, DATA, SECTION, MARKUP, NEW, FEED]
