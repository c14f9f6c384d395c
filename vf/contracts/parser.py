"""Contracts of the rule parser (C01, C19): the text of a rule is read token by token, whatever stands before and behind a token."""
from ..pyvc.facade import *
from ..pyvc import rx

P = 'ombott.router.parser'
Y = 'ombott.router.sym_stream'


def nothing():
    return None


def piece(v, name, every=None, first=None, n=None):
    x = v.fresh_str(name)
    rx.alphabet(x.z, every, first, n)
    return x.z


def rope(xs):
    xs = [sval(x) if isinstance(x, str) else x for x in xs if x is not None and not (isinstance(x, str) and x == '')]
    return SStr(z3.Concat(*xs) if len(xs) > 1 else xs[0]) if xs else ''


def name(v, what):
    """an identifier: a letter or _ and any word characters"""
    h = piece(v, what, every='[a-zA-Z_]', n=1)
    return [h, piece(v, what + "'s tail", every=r'\w')] if not v.e.memo.get('one letter') else [h]


def same(x, want):
    """x is the text the parts make (None: nothing)"""
    if want is None:
        return x is None
    if x is None:
        return False
    w = rope(want)
    x, w = (lift(y) if isinstance(y, str) else y for y in (x, w))
    if not isinstance(x, SStr):
        raise Misfit('a token that is no text')
    return x.z == w.z


def token(v, kinds):
    """(its text, what it means, what stands behind it)"""
    v.e.memo['one letter'] = v.case('names are', 'long', 'one letter') != 'long'
    any_ = lambda: [v.fresh_str('behind').z]
    start = lambda: v.either('next', lambda: [], lambda: [v.case('next token', ':', '{', '<')] + any_())
    if len(kinds) == 1:
        kind, style = 'in brackets', kinds[0]
    else:
        kind = v.case('token', *kinds)
    if kind == 'end':
        return [], None, []
    if kind == 'literal':
        t = [piece(v, 'literal', every='[^:{<]')]
        return t, (t, None, None, None, None), start()
    if kind == ':name':
        n = name(v, 'name')
        return [':', *n], (None, n, None, None, None), v.either('next', lambda: [], lambda: ['/'] + any_())
    if kind == ':':
        return [':'], (None, None, None, None, None), []
    op, cl = v.either('brackets', lambda: ('{', '}'), lambda: ('<', '>'))
    n = name(v, 'name') if style.startswith('name') else None
    f = None
    if style != 'name':
        f = ['path'] if v.case('filter', 'path', 'another') == 'path' else name(v, 'filter')
        if f != ['path']:
            v.assume(rope(f).z != sval('path'))
    out = [op] + {'name': [], 'name.filter': ['.'], 'name:filter': [':'], 'filter()': [], ':filter': [':']}[style]
    if n:
        out[1:1] = n
    out += f or []
    args = sel = None
    if f:
        how = v.case('arguments', '(..)', '(..)[..]') if style == 'filter()' else v.case('arguments', 'none', ':..', '(..)', '(..)[..]')
        if how == ':..':
            args = [piece(v, 'arguments', every='[^%s]' % cl)]
            out += [':'] + args
        elif how != 'none':
            args = v.either('the arguments', lambda: [], lambda: [v.fresh_str('arguments').z])
            out += ['('] + args + [')']
            if how == '(..)[..]':
                sel = [piece(v, 'selector', every=r'[^\]\n]')]
                out += ['['] + sel + [']']
    out.append(cl)
    behind = any_()
    if f == ['path']:
        lit = [piece(v, 'literal', every='[^:{<]')]
        behind, args = v.either('behind a path', lambda: ([], []), lambda: (lit, lit), lambda: (lit + [v.case('next token', ':', '{', '<')] + any_(), lit))
    return out, (None, n, f, args, sel), behind


def one_token(v, *kinds):
    """_iter_parse from any place of any rule where a token stands: it yields what the token means and goes on behind it"""
    v.trust('re: the pattern is read by the re module of this Python and matched here over the known pieces of the text')
    tok, want, behind = token(v, kinds)
    before = [v.fresh_str('before').z] if v.e.unroll is None else []
    rule = rope(before + tok + behind)
    if isinstance(rule, str):
        rule = lift(rule)
    pos0, pos1 = z3.simplify(z3.Length(lift(rope(before)).z)), z3.simplify(z3.Length(lift(rope(before + tok)).z))
    place = lambda S, p: [('the stream stands where the last token ended', as_int(S.attrs['pos']) == p),
                          ('it shows the character that stands there, or nothing at the end', shows(S, p))]

    def shows(S, p):
        c = S.attrs['current']
        if c is None:
            return p == z3.Length(rule.z)
        c = lift(c) if isinstance(c, str) else c
        if not isinstance(c, SStr):
            raise Misfit('the current character')
        return And(p < z3.Length(rule.z), Or(c.z == z3.SubString(rule.z, p, 1), c.z == z3.simplify(z3.SubString(rule.z, p, 1))))
    at = v.ghost(z3.IntVal(0), lambda: pos0)
    stream = []
    yielded = []

    def balanced(s, start=0, length=None):
        v.check('the bracket is looked for in the rule', isinstance(s, SStr) and s.z.eq(rule.z))
        st, i = z3.simplify(as_int(start)), [j for j, x in enumerate(tok) if x == '(']
        if not i:
            raise Misfit('no bracket here')
        v.check('the bracket is looked for where it stands', st == z3.Length(lift(rope(before + tok[:i[0]])).z))
        v.check('up to the end of the rule', as_int(length) == z3.Length(rule.z) if length is not None else pos0 == 0)
        j = tok.index(')')
        return SInt(z3.simplify(z3.Length(lift(rope(before + tok[:j + 1])).z)))
    v.contract('find_pos_after_close_paren', balanced)

    def S_of(me):
        S = me.attrs.get('_stream')
        if not isinstance(S, SObj) or not {'s', 'L', 'pos', 'current'} <= set(S.attrs):
            raise Misfit('the stream')
        return S

    def inv(L):
        return place(S_of(me), at.v)

    def havoc(L):
        S = S_of(me)
        S.attrs['havoc'] = lambda: None
        S.attrs['pos'] = SInt(pos0)
        at.v = pos0
        c = tok[0] if tok else None
        S.attrs['current'] = None if c is None else c[0] if isinstance(c, str) else SStr(z3.SubString(c, 0, 1))
        return {}

    def step(L):
        v.check('one token is read', len(yielded) == 1)
        got = yielded[0] if yielded else None
        for label, g, w in zip(('literal', 'name', 'filter', 'arguments', 'selector'), got, want):
            v.check(f'the {label} of the token', same(g, w))
        for label, c in place(S_of(me), pos1):
            v.check('behind the token ' + label, c)
        at.v = pos1
        v.cover('token')
    v.loop('Parser._iter_parse', 0, Loop(inv, havoc, modifies=lambda L: [at, S_of(me), me], step=step))
    def new(text):
        S = v.obj('stream', real(f'{Y}:SymStream'), havoc=lambda: None)
        if not v.call(v.fn(f'{Y}:SymStream.__init__'), S, text).ok:
            raise Misfit('the stream')
        return S
    v.stub('SymStream', new)
    it = v.fn(f'{P}:Parser.iter_parse')
    for f in ('_iter_parse', '_parse_param'):
        v.fn(f'{P}:Parser.{f}')
    for f in ('_set_pos', 'next', 'eat', 'expect', 'expect_parenthesized', 'rest'):
        v.fn(f'{Y}:SymStream.{f}')
    me = v.obj('parser', real(f'{P}:Parser'), _stream=None, _rule=None, havoc=lambda: None)
    o = v.call(it, me, rule)
    if not o.ok:
        raise Misfit('iter_parse')

    def each(x):
        if not isinstance(x, tuple) or len(x) != 5:
            raise Misfit('what a token is')
        yielded.append(x)
    r = v.consume(o.value, each)
    v.check('every rule made of such tokens is read', r.ok)
    v.check('to its end', pos0 == z3.Length(rule.z))
    v.cover('read')


def bracket(v):
    """find_pos_after_close_paren: from an opening bracket, the place behind the one that closes it: brackets in between
    are paired, what a backslash stands before does not count; None if there is none before the end"""
    T = v.array('rule')
    at = lambda i: z3.Select(T, i)
    st, n = v.fresh_int('start', 0), v.fresh_int('length', 0)
    v.add(st < n)
    op, cl = v.either('bracket', lambda: ('(', ')'), lambda: ('{', '}'), lambda: ('<', '>'))
    v.add(at(st) == ord(op))
    # the characters that count: each is the next of one that counts (behind the escaped one, if that is a backslash)
    COUNTS, DEPTH = z3.Function('counts', I, Bo), z3.Function('depth', I, I)
    nxt = lambda i: If(at(i) == 92, i + 2, i + 1)
    closes = lambda i: And(COUNTS(i), at(i) == ord(cl), DEPTH(i) == 0)
    i = z3.Int('i')
    v.add(And(COUNTS(st + 1), DEPTH(st + 1) == 0))
    there = v.case('a closing bracket', 'there', 'missing')
    c = v.fresh_int('c', 0)
    if there == 'there':
        v.add(And(st < c, c < n, closes(c)))
        # the characters that count form one chain: none of them is skipped
        chain = lambda k: Implies(And(COUNTS(k), k < c), And(nxt(k) <= c, Not(closes(k))))
    else:
        chain = lambda k: Implies(And(COUNTS(k), k < n), Not(closes(k)))

    def define(k):
        v.add(Implies(And(COUNTS(k), st < k, k < n), And(COUNTS(nxt(k)), DEPTH(nxt(k)) == DEPTH(k) + If(at(k) == ord(op), 1, If(at(k) == ord(cl), -1, 0)))))
        v.add(chain(k))
    if v.e.unroll is not None:
        for k in range(v.e.unroll + 2):
            define(z3.simplify(st + 1 + k)), define(z3.simplify(st + 2 + k))

    def item(k):
        if isinstance(k, slice):
            raise Misfit('a piece of the rule')
        k = z3.simplify(as_int(k))
        if k.eq(z3.simplify(st)):
            return op
        v.check('only characters of the rule are looked at', And(0 <= k, k < n))
        return SChar(at(k))
    s = v.obj('rule', __getitem__=item, __len__=lambda: SInt(n))

    def inv(L):
        k, d = as_int(L.i), as_int(L.nested_level)
        return [('only characters that count', COUNTS(k)), ('the depth', And(DEPTH(k) == d, d >= 0)), ('not past it', And(st < k, k <= c) if there == 'there' else st < k)]

    def havoc(L):
        k = v.fresh_int('k', 0)
        define(k)
        return dict(i=SInt(k), nested_level=SInt(v.fresh_int('d', 0)), done=False)
    v.loop('find_pos_after_close_paren', 0, Loop(inv, havoc, variant=lambda L: SInt(n + 1 - as_int(L.i))))
    o = v.call(v.fn(f'{Y}:find_pos_after_close_paren'), s, SInt(st), SInt(n))
    v.check('it does not fail', o.ok)
    if there == 'there':
        v.check('behind the bracket that closes', o.value is not None and as_int(o.value) == c + 1)
        v.cover('found')
    else:
        v.check('a missing bracket is noticed', o.value is None)
        v.cover('missing')


FIRST = Proof('Parser._iter_parse', lambda v: one_token(v, 'literal', ':name', ':', 'end'), covers=('token', 'read'))
STYLES = [Proof(f'Parser._iter_parse {{{x}}}', lambda v, x=x: one_token(v, x), covers=('token',), budget=300) for x in ('name', 'name.filter', 'name:filter', 'filter()', ':filter')]
BRACKET = Proof('find_pos_after_close_paren', bracket, covers=('found', 'missing'))
PROOFS = [FIRST, *STYLES, BRACKET]
