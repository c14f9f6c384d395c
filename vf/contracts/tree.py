"""Contracts of the edits of the routing tree (C11, C01): split, mount, merge, descend, insert, remove."""
from ..pyvc.facade import *
from ..pyvc.rt import SColl, SComp, SymIter
from ..pyvc.engine import PathEnd
from . import radix
from .radix import Tree, Node, CHILD, IDXA, IDXN, KEYA, KEYN, HASDATA, HASHOOK, HASF, POS, MATCHES, FIRST, FT, NONE, P0, H0, FOK

D = 'ombott.router.radidict'
TOKEN = '\r'


def consts():
    return {n: real(f'{D}:{n}') for n in ('KEY', 'IDX', 'WEIGHT', 'PARAMS', 'FILTER', 'IS_EXCLUSIVE', 'HOOKS', 'DATA', 'OFFSET')}


def zi(x):
    if isinstance(x, SInt):
        return x.z
    if isinstance(x, int):
        return z3.IntVal(x)
    raise Misfit(f'{x!r} is no number')


def tree(v, **k):
    return v.obj('tree', real(f'{D}:RadiDict'), param_token=TOKEN, path_sep='/', is_exclusive=False, **k)


def single(v, name):
    """a non-empty key without wildcard"""
    k = v.str(name)
    v.add(And(z3.Length(k.z) >= 1, Not(z3.Contains(k.z, sval(TOKEN)))))
    return k


def node(v, name, **fields):
    """a node that is there already: its fields, its children (whole sequence: one value), what is written to it"""
    c = consts()
    f = {c['KEY']: None, c['IDX']: None, c['WEIGHT']: 0, c['PARAMS']: v.obj(f'{name}: names'), c['FILTER']: v.obj(f'{name}: filter'),
         c['IS_EXCLUSIVE']: False, c['HOOKS']: v.obj(f'{name}: hooks', __bool__=lambda: True), c['DATA']: v.obj(f'{name}: data', __bool__=lambda: True)}
    for k, x in fields.items():
        f[c[k]] = x
    kids = v.obj(f'children of {name}')
    o = v.obj(name, _f=f, _kids=kids, _edits=[], _now=None, _writes=0, _first=None, _last=None)
    up = o.attrs

    def get(k):
        if isinstance(k, slice):
            if k != slice(None) or up['_now'] is not None or up['_edits']:
                raise Misfit('a slice of a node')
            return copy(v, o)
        if up['_now'] is not None:
            return up['_now'][k]
        if not isinstance(k, int):
            raise Misfit('a field of a node')
        if k == c['OFFSET'] and up['_first'] is not None:
            return up['_first']()
        if k == -1 and up['_last'] is not None:
            return up['_last']()
        if k not in f:
            raise Misfit(f'field {k} of a node')
        return f[k]

    def put(k, x):
        up['_writes'] += 1
        if isinstance(k, slice):
            if k != slice(None):
                raise Misfit('a slice of a node')
            up['_now'] = list(x) if isinstance(x, list) else copy(v, x) if isinstance(x, SObj) and '_f' in x.attrs else raise_(Misfit('the new contents of a node'))
            return
        if up['_now'] is not None:
            up['_now'][k] = x
            return
        if not isinstance(k, int) or k not in f:
            raise Misfit(f'field {k!r} of a node')
        f[k] = x

    def insert(k, x):
        up['_writes'] += 1
        if up['_now'] is not None or not isinstance(k, int):
            raise Misfit('insert')
        up['_edits'].append(('insert', k, x))

    def append(x):
        up['_writes'] += 1
        if up['_now'] is not None:
            raise Misfit('append')
        up['_edits'].append(('append', None, x))

    def delete(k):
        up['_writes'] += 1
        if up['_now'] is not None:
            raise Misfit('del')
        up['_edits'].append(('del', k, None))
    up.update(__getitem__=get, __setitem__=put, __delitem__=delete, insert=insert, append=append, __bool__=lambda: True, pop=lambda *k: delete(k[0] if k else -1),
              clear=lambda: raise_(Misfit('clear')), copy=lambda: get(slice(None)))
    return o


def raise_(x):
    raise x


def copy(v, o):
    n = node(v, o._name + ' (contents)')
    n.attrs['_f'].clear()
    n.attrs['_f'].update(o.attrs['_f'])
    n.attrs['_kids'] = o.attrs['_kids']
    n.attrs['_first'], n.attrs['_last'] = o.attrs['_first'], o.attrs['_last']
    return n


def text(x):
    x = lift(x) if isinstance(x, str) else x
    if not isinstance(x, SStr):
        raise Misfit('a key that is no text')
    return x.z


def falsy(x):
    return x is None or isinstance(x, (str, list, bool, int)) and not x


def split(v):
    """_split: the node is cut inside its key; what stood below it stands below the rest of the key"""
    c = consts()
    C, K2, B2 = v.str('common part'), v.str('rest of the key'), v.str('rest of by_key')
    c2, k2 = v.str('first character of the rest'), v.str('and what follows it')
    v.add(And(z3.Length(C.z) >= 1, z3.Length(c2.z) == 1, K2.z == z3.Concat(c2.z, k2.z)))
    v.add(Or(B2.z == sval(''), z3.SubString(B2.z, 0, 1) != c2.z))
    K, B = SStr(z3.Concat(C.z, c2.z, k2.z)), SStr(z3.Concat(C.z, B2.z))
    p = SInt(z3.Length(C.z))

    def common(xs):
        if not isinstance(xs, (list, tuple)) or len(xs) != 2 or not all(isinstance(x, SStr) for x in xs):
            raise Misfit('commonprefix')
        v.check('the key and the new key are compared', Or(And(xs[0].z == K.z, xs[1].z == B.z), And(xs[0].z == B.z, xs[1].z == K.z)))
        return C
    v.stub('common_pref', common)
    v.trust('os.path.commonprefix of two texts: their longest common prefix')
    idx = v.str('idx')
    n = node(v, 'node', KEY=K, IDX=idx)
    v.e.hooks['list'] = lambda x: x[:]
    old = dict(n.attrs['_f'])
    f = v.fn(f'{D}:RadiDict._split')
    by = v.case('cut', 'by key', 'at')
    o = v.call(f, tree(v), n, by_key=B) if by == 'by key' else v.call(f, tree(v), n, p)
    v.check('no failure', o.ok)
    now = n.attrs['_now']
    if not isinstance(now, list) or len(now) <= c['OFFSET']:
        raise Misfit('what becomes of the node')
    kid = now[c['OFFSET']]
    if not isinstance(kid, SObj) or '_f' not in kid.attrs:
        raise Misfit('the child')
    if by == 'by key':
        r = o.value
        v.check('the node and the length of the common part', isinstance(r, tuple) and len(r) == 2 and r[0] is n and zb(zi(r[1]) == p.z) if isinstance(r, tuple) and len(r) == 2 else False)
    else:
        v.check('the node is returned', o.value is n)
    v.check('one child', len(now) == c['OFFSET'] + 1)
    v.check('the node keeps the front of its key', text(now[c['KEY']]) == C.z)
    v.check('its index is the first character of the rest', text(now[c['IDX']]) == c2.z)
    v.check('it holds nothing of its own', falsy(now[c['DATA']]) and falsy(now[c['HOOKS']]) and falsy(now[c['FILTER']]) and falsy(now[c['PARAMS']]) and now[c['IS_EXCLUSIVE']] is False)
    kf = kid.attrs['_f']
    v.check('the child has the rest of the key', And(kid.attrs['_now'] is None, text(kf[c['KEY']]) == K2.z))
    v.check('and all that the node had', all(kf[k] is old[k] for k in old if k not in (c['KEY'], c['WEIGHT'])) and kid.attrs['_kids'] is n.attrs['_kids'] and not kid.attrs['_edits'])
    v.cover(by)


def merge(v):
    """_try_merge: only a node with nothing of its own and one literal child is folded into it"""
    c = consts()
    K, CK = single(v, 'key'), v.str('child key')
    v.add(z3.Length(CK.z) >= 1)
    tok = v.case('node', 'literal', 'wildcard') == 'wildcard'
    data = v.either('data', lambda: None, lambda: v.obj('data', __bool__=lambda: True))
    hooks = v.either('hooks', lambda: None, lambda: v.obj('hooks', __bool__=lambda: True))
    idx = v.either('idx', lambda: None, lambda: '', lambda: v.str('idx'))
    if isinstance(idx, SStr):
        v.add(z3.Length(idx.z) >= 1)
        # the index holds the first character of every child; a wildcard's key is the token itself, and the wildcard comes last
        v.add(Implies(z3.Length(idx.z) == 1, idx.z == z3.SubString(CK.z, 0, 1)))
        v.add((z3.SubString(CK.z, 0, 1) == sval(TOKEN)) == (CK.z == sval(TOKEN)))
        v.add(Implies(z3.Length(idx.z) > 1, z3.SubString(idx.z, 0, 1) != sval(TOKEN)))
    kid = node(v, 'child', KEY=CK, IDX=v.either('idx of the child', lambda: None, lambda: v.str('child idx')))
    n = node(v, 'node', KEY=TOKEN if tok else K, IDX=idx, DATA=data, HOOKS=hooks)
    n.attrs['_first'] = n.attrs['_last'] = lambda: kid if isinstance(idx, SStr) else raise_(Misfit('a child of a leaf'))
    kf = dict(kid.attrs['_f'])
    isroot = v.case('root', False, True)
    me = tree(v, root=n if isroot else v.obj('root'))
    o = v.call(v.fn(f'{D}:RadiDict._try_merge'), me, n)
    v.check('no failure', o.ok)
    if not n.attrs['_writes']:
        v.cover('kept')
        return
    now = n.attrs['_now']
    if not isinstance(now, SObj):
        raise Misfit('what becomes of the node')
    v.check('only a node with nothing of its own', data is None and hooks is None and not isroot and not tok)
    v.check('only a node with one child', And(z3.Length(idx.z) == 1) if isinstance(idx, SStr) else False)
    v.check('a wildcard is never folded', CK.z != sval(TOKEN))
    v.check('the key of the node, then the key of the child', text(now.attrs['_f'][c['KEY']]) == z3.Concat(K.z, CK.z))
    v.check('all that the child had', all(now.attrs['_f'][k] is kf[k] for k in kf if k != c['KEY']) and now.attrs['_kids'] is kid.attrs['_kids'] and not now.attrs['_edits'])
    v.cover('folded')


def mount(v):
    """_mount: the child is added under its first character, the wildcard stays last, nothing else changes"""
    c = consts()
    err = real(f'{D}:RadiDictKeyError')
    tok = v.case('child', 'literal', 'wildcard') == 'wildcard'
    k1, k2 = v.str('first character'), v.str('and what follows it')
    v.add(And(z3.Length(k1.z) == 1, k1.z != sval(TOKEN)))
    key = TOKEN if tok else SStr(z3.Concat(k1.z, k2.z))
    # a well-formed index: first characters without the token, then the token if there is a wildcard child
    lits = v.either('literal children', lambda: '', lambda: v.str('idx'))
    if isinstance(lits, SStr):
        v.add(And(z3.Length(lits.z) >= 1, z3.SubString(lits.z, z3.Length(lits.z) - 1, 1) != sval(TOKEN)))
        if not tok:
            v.add(Not(z3.Contains(lits.z, k1.z)))
    hastok = v.case('wildcard child', False, True)
    was = sval(lits) if isinstance(lits, str) else lits.z
    if hastok:
        was = z3.Concat(was, sval(TOKEN)) if isinstance(lits, SStr) else sval(TOKEN)
    idx = v.case('empty', None, '') if isinstance(lits, str) and not hastok else SStr(was)
    n = node(v, 'node', KEY=v.str('node key'), IDX=idx)
    n.attrs['_first'] = n.attrs['_last'] = lambda: node(v, 'some child', KEY=v.str('child key'), IS_EXCLUSIVE=False)
    old = dict(n.attrs['_f'])
    new = node(v, 'child', KEY=key, IDX=None)
    o = v.call(v.fn(f'{D}:RadiDict._mount'), tree(v), n, new)
    if not o.ok:
        v.check('refused only when there is a wildcard already', o.raised(err) and tok and hastok)
        v.check('then nothing changes', n.attrs['_writes'] == 0)
        v.cover('refused')
        return
    v.check('a second wildcard is refused', not (tok and hastok))
    v.check('the child is returned', o.value is new)
    e = n.attrs['_edits']
    if n.attrs['_now'] is not None:
        raise Misfit('the node is rewritten')
    v.check('one child is added', len(e) == 1 and e[0][2] is new)
    if len(e) == 1:
        # its place among the children is its place in the index
        is_ = text(n.attrs['_f'][c['IDX']])
        first = sval(TOKEN) if tok else k1.z
        if e[0][0] == 'append':
            v.check('the index agrees with the children', is_ == z3.Concat(was, first))
            v.check('a wildcard comes last', not hastok)
        else:
            if e[0][0] != 'insert' or e[0][1] != c['OFFSET']:
                raise Misfit('where the child is put')
            v.check('the index agrees with the children', is_ == z3.Concat(first, was))
            v.check('a wildcard comes last', was == sval('') if tok else True)
    v.check('nothing else changes', all(n.attrs['_f'][k] is old[k] for k in old if k not in (c['IDX'], c['WEIGHT'])))
    v.cover('wildcard' if tok else 'literal')


def shape_lemma(v):
    """cutting a key in two (_split) and folding it again (_try_merge) change no lookup, whatever the path"""
    R = v.text('path')
    t = Tree(v, R)
    N = R.n
    par, whole, up, low = (z3.Const(v.e.fresh(x), Node) for x in ('parent', 'whole', 'upper', 'lower'))
    i = v.fresh_int('i', 0)
    v.add(i < N)
    P, H = z3.Const(v.e.fresh('P'), radix.Par), z3.Const(v.e.fresh('H'), radix.Hk)
    j = z3.Int('j')
    a, b = v.fresh_int('len a', 1), v.fresh_int('len b', 1)
    KA = v.array('key')
    # whole: key of length a+b; upper: its first a characters, one child: lower with the rest; lower is whole but for its key
    v.add(And(KEYN(whole) == a + b, KEYA(whole) == KA, KEYN(up) == a, KEYN(low) == b))
    v.add(ForAll([j], Implies(And(0 <= j, j < a), z3.Select(KEYA(up), j) == z3.Select(KA, j)), patterns=[z3.Select(KEYA(up), j)]))
    v.add(ForAll([j], Implies(And(0 <= j, j < a), z3.Select(KEYA(up), j) == z3.Select(KA, j)), patterns=[z3.Select(KA, j)]))
    v.add(ForAll([j], Implies(And(0 <= j, j < b), z3.Select(KEYA(low), j) == z3.Select(KA, a + j)), patterns=[z3.Select(KEYA(low), j)]))
    v.add(ForAll([j], Implies(And(a <= j, j < a + b), z3.Select(KEYA(low), j - a) == z3.Select(KA, j)), patterns=[z3.Select(KA, j)]))
    v.add(ForAll([j], Implies(And(0 <= j, j < a + b), z3.Select(KA, j) != t.token), patterns=[z3.Select(KA, j)]))
    v.add(And(IDXN(up) == 1, z3.Select(IDXA(up), 0) == z3.Select(KA, a), CHILD(up, 0) == low, Not(HASDATA(up)), Not(HASHOOK(up)), Not(HASF(up))))
    v.add(HASHOOK(low) == HASHOOK(whole))
    k1, k = i + a, i + a + b
    m1 = And(k1 <= N, ForAll([j], Implies(And(0 <= j, j < a), z3.Select(KA, j) == t.at(i + j))))
    m2 = And(k <= N, ForAll([j], Implies(And(a <= j, j < a + b), z3.Select(KA, j) == t.at(i + j))))
    v.add(MATCHES(up, i) == m1)
    v.add(MATCHES(whole, i) == And(m1, m2))
    t.unfold(up, k1, P, H)
    v.add(Implies(k1 <= N, MATCHES(low, k1) == m2))          # the definition of MATCHES with the key of lower put in
    # what follows lower follows whole: the same children, data and hooks
    HL = t.hooked(H, k, low)
    v.add(radix.HSNOC(H, k, low) == radix.HSNOC(H, k, whole))
    v.add(FIRST(low, k, P, HL) == FIRST(whole, k, P, t.hooked(H, k, whole)))
    before = If(MATCHES(whole, i), FIRST(whole, k, P, t.hooked(H, k, whole)), NONE)
    after = If(MATCHES(up, i), FIRST(up, k1, P, t.hooked(H, k1, up)), NONE)
    v.split(m1)
    v.split(m2)
    v.split(k1 == N)
    v.check('a lookup that comes by finds the same', before == after)
    v.cover('lemma')


SPLIT = Proof('RadiDict._split', split, covers=('by key', 'at'))
MERGE = Proof('RadiDict._try_merge', merge, covers=('kept', 'folded'))
MOUNT = Proof('RadiDict._mount', mount, covers=('refused', 'wildcard', 'literal'))
SHAPE = Proof('cut and folded keys', shape_lemma, covers=('lemma',))
PROOFS = [SPLIT, MERGE, MOUNT, SHAPE]


# ---------------------------------------------------------------- the walk of a pattern
EX = z3.Function('exact', Node, I, Node)                 # the node the rest of the pattern leads to exactly, or NOWHERE
NOWHERE = z3.Const('nowhere', Node)
REACHED = z3.Function('reached', Node, I, Bo)            # the nodes down to here spell the pattern up to here, wildcard for wildcard
CNT = z3.Function('wildcards_before', I, I)
EXC = z3.Function('exclusive', Node, Bo)
FLT = z3.Function('filter_of', Node, radix.Val)
XARG = z3.Function('exclusive_given', I, Bo)
FARG = z3.Function('filter_given', I, radix.Val)


class Pattern(Tree):
    def __init__(self, v, R, exclusions, filters):
        Tree.__init__(self, v, R)
        self.xs, self.fs = exclusions, filters           # are they given
        self.start = z3.IntVal(0)

    def fits(self, n, i):
        return And(Implies(self.xs, EXC(n) == XARG(CNT(i))), Implies(self.fs, FLT(n) == FARG(CNT(i))))

    def unfold(self, n, i):
        """the definitions at one node and position"""
        v, N, j = self.v, self.N, z3.Int('j')
        c0, p = self.at(i), POS(n, self.at(i))
        self.shape(n)
        v.add(And(-1 <= p, p < IDXN(n)))
        v.add(Implies(p >= 0, z3.Select(IDXA(n), p) == c0))
        v.add(ForAll([j], Implies(And(0 <= j, j < IDXN(n), z3.Select(IDXA(n), j) == c0), j == p), patterns=[z3.Select(IDXA(n), j)]))
        x = CHILD(n, p)
        self.shape(x)
        k = i + KEYN(x)
        v.add(Implies(p >= 0, And(x != NOWHERE, z3.Select(KEYA(x), 0) == c0)))
        v.add(Implies(And(p >= 0, c0 == self.token), KEYN(x) == 1))                          # a wildcard's key is the token
        v.add(Implies(And(p >= 0, c0 != self.token), ForAll([j], Implies(And(0 <= j, j < KEYN(x)), z3.Select(KEYA(x), j) != self.token), patterns=[z3.Select(KEYA(x), j)])))
        same = And(k <= N, ForAll([j], Implies(And(0 <= j, j < KEYN(x)), z3.Select(KEYA(x), j) == self.at(i + j))))
        v.add(MATCHES(x, i) == same)
        ok = And(p >= 0, MATCHES(x, i), Implies(c0 == self.token, self.fits(x, i)))
        v.add(EX(n, i) == If(i >= N, n, If(ok, EX(x, k), NOWHERE)))
        v.add(Implies(And(REACHED(n, i), i < N, ok), REACHED(x, k)))
        # how many wildcards come before: one more after a wildcard, none in a literal key
        v.add(And(0 <= CNT(i), CNT(i) <= CNT(N)))
        v.add(Implies(And(i < N, c0 == self.token), And(CNT(i) + 1 <= CNT(N), CNT(i + 1) == CNT(i) + 1)))
        v.add(Implies(And(p >= 0, c0 != self.token, MATCHES(x, i)), CNT(k) == CNT(i)))

    def node(self, n):
        o = Tree.node(self, n)
        get, c = o.attrs['__getitem__'], consts()

        def get2(k):
            if isinstance(k, int) and k == c['IS_EXCLUSIVE']:
                return SBool(EXC(n))
            if isinstance(k, int) and k == c['FILTER']:
                return given_filter(self.v, FLT(n))
            return get(k)
        o.attrs['__getitem__'] = get2
        return o


def given_filter(v, t):
    def eq(o):
        if not (isinstance(o, SObj) and '_flt' in o.attrs):
            raise Misfit('a filter compared with something else')
        return SBool(t == o.attrs['_flt'])
    return v.obj('filter', _flt=t, __eq__=eq)


class Trail:
    """the nodes passed so far: each a child of the one before; only the last is known"""

    def __init__(self, t, first):
        self.t, self.last = t, first
        self.obj = t.v.obj('stack', append=self.push)

    def push(self, x):
        v = self.t.v
        if not (isinstance(x, SObj) and '_n' in x.attrs):
            raise Misfit('what is put on the stack')
        p = z3.Int('p')
        v.check('each node of the trail is a child of the one before', z3.Exists([p], And(0 <= p, p < IDXN(self.last), x.attrs['_n'] == CHILD(self.last, p), z3.Select(IDXA(self.last), p) == z3.Select(KEYA(x.attrs['_n']), 0))))
        self.last = x.attrs['_n']


def match(v):
    """RadiDict._match: the node the pattern leads to, or where and why it leads nowhere"""
    MT = real(f'{D}:MismatchType')
    R = v.text('pattern')
    N = R.n
    xs, fs = v.bool('exclusions given'), v.bool('filters given')
    t = Pattern(v, R, xs.z, fs.z)
    v.assumption('the tree is well-formed: one child per first character, the wildcard child last and its key the token alone, no token in another key (every edit of the tree keeps it: the C11 contracts of _mount, _split, _try_merge, remove)')

    def lst(what, given, item):
        def at(k):
            v.check(f'the {what} asked for are there', And(0 <= zi(k), zi(k) < CNT(N)))
            return item(zi(k))
        return v.obj(what, __bool__=lambda: v.split(given.z), __getitem__=at)
    excl = lst('exclusions', xs, lambda k: SBool(XARG(k)))
    filt = lst('filters', fs, lambda k: given_filter(v, FARG(k)))
    root = z3.Const(v.e.fresh('root'), Node)
    v.add(root != NOWHERE)
    v.add(REACHED(root, z3.IntVal(0)))
    v.add(CNT(z3.IntVal(0)) == 0)
    t.unfold(root, z3.IntVal(0))
    how = v.case('start', 'root', 'given')
    rootn = t.node(root)
    me = tree(v, root=rootn if how == 'root' else v.obj('another node'))
    trail = Trail(t, root)

    def state(L):
        if not (isinstance(L.pnode, SObj) and '_n' in L.pnode.attrs):
            raise Misfit('pnode')
        return L.pnode.attrs['_n'], zi(L.i)

    def last(L):
        if isinstance(L.stack, list):
            if not L.stack or not isinstance(L.stack[-1], SObj):
                raise Misfit('stack')
            return L.stack[-1].attrs['_n']
        if L.stack is not trail.obj:
            raise Misfit('stack')
        return trail.last

    def inv(L):
        n, i = state(L)
        return [('inside the pattern', And(L.route is R, 0 <= i, i <= N, zi(L.L) == N)),
                ('what is left leads where the pattern leads', EX(root, 0) == EX(n, i)),
                ('the nodes down to here spell the pattern up to here', And(REACHED(n, i), n != NOWHERE)),
                ('the wildcards are counted', zi(L.param_idx) == CNT(i)),
                ('no mismatch yet', And(L.mismatch is None or L.mismatch is False, L.is_exact is False)),
                ('the trail ends here', last(L) == n)]

    def havoc(L):
        n, i = z3.Const(v.e.fresh('n'), Node), v.fresh_int('i')
        trail.last = n
        return dict(pnode=t.node(n), i=SInt(i), param_idx=SInt(v.fresh_int('param_idx')), mismatch=None, stack=trail.obj, is_exact=False, kidx=None, key_end=None, route=R, L=SInt(N))

    def given(L):
        n, i = state(L)
        t.unfold(n, i)

    def inv_idx(L):
        it, j = L._it, z3.Int('j')
        if not isinstance(it, SymIter):
            return []                                    # no children
        k, x = it.k, it.text
        c0 = L.c0.z
        return [('no child for the character so far', ForAll([j], Implies(And(0 <= j, j < k), x.at(j) != c0), patterns=[x.at(j)]))]

    def havoc_idx(L):
        it = L._it
        if isinstance(it, SymIter):
            it._forget()
            it._havoc = lambda: None
        return {}
    Q = 'RadiDict._match'
    v.loop(Q, 0, Loop(inv, havoc, variant=lambda L: SInt(N - zi(L.i)), given=given, containers=('stack',), rebind=('stack',)))
    v.loop(Q, 1, Loop(inv_idx, havoc_idx, variant=lambda L: SInt(L._it.text.n - L._it.k) if isinstance(L._it, SymIter) else SInt(0)))
    o = v.call(v.fn(f'{D}:{Q}'), me, R, excl, filt, *([rootn] if how == 'given' else []))
    v.check('no exception', o.ok)
    r = o.value
    if not (isinstance(r, tuple) and len(r) == 5 and isinstance(r[0], SObj) and '_n' in r[0].attrs):
        raise Misfit('what _match returns')
    n, m, i, pi, st = r
    n, i = n.attrs['_n'], zi(i)
    if not isinstance(st, list) and st is not trail.obj:
        raise Misfit('the stack')
    v.check('the trail ends at the node', (st[-1].attrs['_n'] if isinstance(st, list) else trail.last) == n)
    v.check('the wildcards passed are counted', zi(pi) == CNT(i))
    if not m:
        v.check('a match: the whole pattern leads to this node', And(EX(root, 0) == n, i == N, REACHED(n, i)))
        v.cover('match')
        return
    v.check('a mismatch: the pattern leads nowhere', And(EX(root, 0) == NOWHERE, 0 <= i, i < N))
    if m is MT.WHOLE:
        v.check('the node is spelled by the pattern up to here, and has no child for what follows', And(REACHED(n, i), POS(n, t.at(i)) < 0))
    elif m is MT.PARTIAL:
        v.check('the node begins like what follows, but is another key', And(z3.Select(KEYA(n), 0) == t.at(i), t.at(i) != t.token, Not(MATCHES(n, i))))
    elif m is MT.FILTER:
        v.check('the wildcard there has another filter', And(t.at(i) == t.token, fs.z, FLT(n) != FARG(CNT(i))))
    elif m is MT.EXCLUSIVITY:
        v.check('the wildcard there differs in exclusivity', And(t.at(i) == t.token, xs.z, EXC(n) != XARG(CNT(i))))
    else:
        raise Misfit(f'mismatch {m!r}')
    v.cover(m.name)


MATCH = Proof('RadiDict._match', match, covers=('match', 'WHOLE', 'PARTIAL', 'FILTER', 'EXCLUSIVITY'), unroll=0, budget=60.0)
PROOFS += [MATCH]


# ---------------------------------------------------------------- a new branch
def make_route(v):
    """_make_route: the new nodes, each mounted below the one before, spell the pattern; the last one gets data, hooks and names"""
    c = consts()
    err = real(f'{D}:RadiDictKeyError')
    R = v.text('pattern')
    N = R.n
    v.add(N >= 1)
    tok = ord(TOKEN)
    top = v.obj('node to start from', __setitem__=lambda k, x: v.check('the node to start from is only mounted to', False))
    cur, pos, toks = top, z3.IntVal(0), z3.IntVal(0)
    written = []

    def symbolic():
        return v.obj('last node', __setitem__=lambda k, x: written.append((k, x)))

    def mount(p, n):
        nonlocal cur, pos, toks
        v.check('a node is mounted below the one before', p is cur)
        if not isinstance(n, list) or len(n) != c['OFFSET']:
            raise Misfit('the new node')
        k = n[c['KEY']]
        if isinstance(k, str):
            v.check('the key is what comes next in the pattern', And(k == TOKEN, pos < N, z3.Select(R.z, pos) == tok))
            w = z3.IntVal(1)
        else:
            if not isinstance(k, STxt):
                raise Misfit('the key of the new node')
            w = k.n
            j = z3.Int('j')
            v.check('the key is what comes next in the pattern', And(w >= 1, pos + w <= N, ForAll([j], Implies(And(0 <= j, j < w), k.at(j) == z3.Select(R.z, pos + j)))))
            if v.split(And(w == 1, k.at(0) == tok)):
                k = TOKEN
            else:
                v.check('a wildcard has a node of its own', ForAll([j], Implies(And(0 <= j, j < w), k.at(j) != tok)))
        if isinstance(k, str):
            x, f = n[c['IS_EXCLUSIVE']], n[c['FILTER']]
            v.check('a wildcard gets the filter and exclusivity given for it', And(zb(x) == XARG(toks), f.attrs['_flt'] == FARG(toks)) if isinstance(f, SObj) and '_flt' in f.attrs else False)
            toks = toks + 1
        else:
            v.check('literal text has neither filter nor exclusivity', n[c['FILTER']] is None and n[c['IS_EXCLUSIVE']] is False)
        v.check('a new node holds nothing yet', falsy(n[c['IDX']]) and n[c['DATA']] is None and n[c['HOOKS']] is None)
        if cur is top and isinstance(k, str) and v.split(z3.Bool(v.e.fresh('a wildcard is there already'))):
            v.throw(err('refused'))
        cur, pos = n, pos + w
        return n
    v.trust('RadiDict._mount by its contract: it refuses only a second wildcard below the same node, so never below a new node')

    def inv(L):
        return [('the branch so far spells the pattern so far', And(L.pnode is cur, L.route is R, zi(L.i) == pos, 0 <= pos, pos <= N)),
                ('the wildcards are counted', zi(L.param_idx) == toks),
                ('the first node is mounted', (cur is not top) if not (isinstance(L.i, int) and L.i == 0) else True)]

    def havoc(L):
        nonlocal cur, pos, toks
        pos, toks = v.fresh_int('i', 0), v.fresh_int('wildcards', 0)
        if v.split(pos == 0):
            pos, toks, cur = z3.IntVal(0), z3.IntVal(0), top
            return dict(pnode=top, i=0, param_idx=0)
        cur = symbolic()
        return dict(pnode=cur, i=SInt(pos), param_idx=SInt(toks))
    v.loop('RadiDict._make_route', 0, Loop(inv, havoc, variant=lambda L: SInt(N - zi(L.i))))
    f = v.fn(f'{D}:RadiDict._make_route')
    me = tree(v, _mount=mount)
    excl = v.obj('exclusions', __getitem__=lambda k: SBool(XARG(zi(k))))
    filt = v.obj('filters', __getitem__=lambda k: given_filter(v, FARG(zi(k))))
    data, names = v.either('data', lambda: None, lambda: v.obj('data', __bool__=lambda: True)), v.obj('names')
    hooks = v.either('hooks', lambda: None, lambda: v.obj('hooks', __bool__=lambda: True))
    o = v.call(f, me, top, R, data, hooks, excl, filt, names)
    if not o.ok:
        v.check('only a second wildcard is refused', o.raised(err))
        v.check('before anything is mounted', cur is top and not written)
        v.check('and the error says which', o.exc.__err_args__.get('param_idx') == 0)
        v.cover('refused')
        return
    v.check('the branch spells the whole pattern', pos == N)
    if cur is top:
        raise Misfit('an empty branch')
    got = dict(written) if isinstance(cur, SObj) else {k: cur[k] for k in (c['DATA'], c['HOOKS'], c['PARAMS'])}
    v.check('the last node gets data, hooks and names', got.get(c['DATA']) is data and got.get(c['HOOKS']) is hooks and got.get(c['PARAMS']) is names and len(got) == 3)
    v.cover('made')


MAKE = Proof('RadiDict._make_route', make_route, covers=('refused', 'made'), budget=60.0)
PROOFS += [MAKE]


# ---------------------------------------------------------------- insertion
def given_list(v, what, off=0):
    def get(k):
        if isinstance(k, slice):
            if k.stop is not None or k.step is not None:
                raise Misfit(f'part of {what}')
            return given_list(v, what, off + zi(k.start or 0))
        return v.obj(f'one of {what}', __str__=lambda: 'name')
    return v.obj(what, _of=what, _off=z3.IntVal(0) + off, __getitem__=get, __bool__=lambda: v.split(z3.Bool(v.e.fresh('given'))))


def insert(v):
    """_set: data or hooks are put on the node the pattern leads to, made where there is none; what is refused changes nothing"""
    c = consts()
    MT, err = real(f'{D}:MismatchType'), real(f'{D}:RadiDictKeyError')
    F, tail = v.str('what was matched'), v.str('the rest')
    m = v.either('match', lambda: None, lambda: MT.WHOLE, lambda: MT.PARTIAL, lambda: MT.FILTER, lambda: MT.EXCLUSIVITY)
    prm = v.fresh_int('prm_idx', 0)
    ex, fi, names = (given_list(v, x) for x in ('exclusions', 'filters', 'names'))
    parts = [F.z]
    rest = []
    key = None
    if m is MT.PARTIAL:
        C, B2 = v.str('common'), v.either('own literal text', lambda: '', lambda: v.str('own text'))
        K2 = v.str('rest of the key of the node')
        v.add(And(z3.Length(C.z) >= 1, z3.Length(K2.z) >= 1, Not(z3.Contains(C.z, sval(TOKEN)))))
        lit = [C.z]
        if isinstance(B2, SStr):
            v.add(And(z3.Length(B2.z) >= 1, Not(z3.Contains(B2.z, sval(TOKEN)))))
            lit.append(B2.z)
        after = v.either('after the literal text', lambda: [], lambda: [sval(TOKEN), tail.z])
        rest = lit + after
        key = SStr(z3.Concat(C.z, K2.z))
    elif m is not None:
        v.add(z3.Length(tail.z) >= 1)
        rest = [tail.z]
    route = SStr(z3.Concat(*([sval('/')] + parts + rest)))
    ptr = SInt(1 + z3.Length(F.z))
    overwrite = v.bool('overwrite')
    what = v.case('given', 'data', 'hooks')
    given = v.obj(what, __bool__=lambda: True)
    params = v.obj('params')
    hasd = v.either('data of the node', lambda: None, lambda: v.obj('old data', __bool__=lambda: True))
    hash_ = v.either('hooks of the node', lambda: None, lambda: v.obj('old hooks', __bool__=lambda: True))
    n = node(v, 'node', KEY=key if key is not None else v.str('key'), IDX=v.obj('index'), DATA=hasd, HOOKS=hash_)
    old = dict(n.attrs['_f'])
    root = v.obj('root')
    asked, cut, made = [], [], []
    SLOT = {'data': c['DATA'], 'hooks': c['HOOKS']}[what]

    def match_(r, e=None, f=None, p=None):
        v.check('the pattern is walked from the node given, with its filters', And(zb(r == route), p is root, e is ex, f is fi))
        asked.append(1)
        return n, m, (SInt(total_len(route)) if m is None else ptr), SInt(prm), v.obj('stack')

    def total_len(s):
        return z3.Length(s.z)

    def split_(p, at=None, *, by_key=None):
        v.check('a node is cut only where the pattern leaves its key', m is MT.PARTIAL and p is n and not cut)
        if m is not MT.PARTIAL:
            raise PathEnd()
        w = z3.Length(C.z)
        if by_key is not None:
            v.check('it is cut by the literal text that comes next', zb(by_key == SStr(z3.Concat(*lit) if len(lit) > 1 else lit[0])))
        else:
            v.check('it is cut where the pattern leaves it', zi(at) == w)
        cut.append(1)
        for k, x in (('KEY', C), ('DATA', None), ('HOOKS', None), ('FILTER', None), ('PARAMS', [])):
            n.attrs['_f'][c[k]] = x
        old.update(n.attrs['_f'])
        return (n, SInt(w)) if by_key is not None else n

    def make_(p, r, data, hooks, e, f, nm):
        v.check('the branch starts at the node, with what is left of the pattern', p is n and not made)
        left = tail if m is not MT.PARTIAL else None
        if m is MT.PARTIAL:
            k = rest[1:]
            v.check('a node is cut before the branch is made', bool(cut))
            if not k:
                v.check('a branch is made only for a rest', False)
                raise PathEnd()
            left = SStr(z3.Concat(*k) if len(k) > 1 else k[0])
        v.check('the branch is the rest of the pattern', zb(r == left))
        v.check('with data and hooks as given', (data is given and hooks is None) if what == 'data' else (hooks is given and data is None))
        for x, nme in ((e, 'exclusions'), (f, 'filters')):
            if not (isinstance(x, SObj) and x.attrs.get('_of') == nme):
                raise Misfit('what the branch is made with')
            v.check(f'with the {nme} of its own wildcards', x.attrs['_off'] == prm)
        v.check('with all names', nm is names)
        if not cut and v.split(z3.Bool(v.e.fresh('a wildcard is there already'))):
            made.append('refused')
            x = err('{ckey}')
            x.__err_args__['param_idx'] = 0
            v.throw(x)
        made.append(1)
    v.trust('RadiDict._match, _split, _make_route, params_unpack by their contracts')
    me = tree(v, root=root, _match=match_, _split=split_, _make_route=make_, params_unpack=lambda p: (v.check('the parameters are unpacked', p is params), (ex, fi, names))[1],
              _render_route=lambda *a: 'rendered')
    kw = {'overwrite': overwrite, 'params': params, what: given}
    o = v.call(v.fn(f'{D}:RadiDict._set'), me, root, route, **kw)
    wrote = n.attrs['_writes']
    if not o.ok:
        v.check('only a key error refuses', o.raised(err))
        v.check('what is refused changes nothing', wrote == 0 and not cut and made in ([], ['refused']))
        v.check('refused: another filter or exclusivity, a second wildcard, or something is there already',
                Or(m in (MT.FILTER, MT.EXCLUSIVITY), made == ['refused'], And(m is None, old[SLOT] is not None, Not(overwrite.z))))
        v.cover('refused' if m is None else 'refused ' + m.name)
        return
    v.check('another filter or exclusivity is refused', m not in (MT.FILTER, MT.EXCLUSIVITY))
    v.check('a refused branch is an error', made != ['refused'])
    if made:
        v.check('nothing else is written', wrote == 0)
        v.cover('branch below the node' if m is MT.WHOLE else 'branch below the cut node')
        return
    f = n.attrs['_f']
    here = m is None or m is MT.PARTIAL and len(rest) == 1
    v.check('the node the pattern leads to', here)
    v.check('something there already is replaced only when allowed', Or(old[SLOT] is None, overwrite.z))
    v.check('it gets what is given', f[SLOT] is given)
    v.check('the names go with the data', f[c['PARAMS']] is (names if what == 'data' else old[c['PARAMS']]))
    v.check('nothing else changes', all(f[k] is old[k] for k in f if k not in (SLOT, c['PARAMS'])) and not n.attrs['_edits'] and n.attrs['_now'] is None)
    v.cover('on the node' if m is None else 'on the cut node')


SET = Proof('RadiDict._set', insert, covers=('refused', 'refused WHOLE', 'refused FILTER', 'refused EXCLUSIVITY', 'branch below the node', 'branch below the cut node', 'on the node', 'on the cut node'))
PROOFS += [SET]


# ---------------------------------------------------------------- removal
def unpack(v):
    """params_unpack: exclusivity, filter and name of every wildcard, in the order of the pattern"""
    n = v.fresh_int('wildcards', 0)

    def grown(what, term):
        o = v.obj(what, _n=z3.IntVal(0))

        def append(x):
            v.check(f'the {what} keep the order of the pattern', zb(x.z == XARG(o.attrs['_n'])) if isinstance(x, SBool) else x.attrs['_flt'] == FARG(o.attrs['_n']))
            o.attrs['_n'] = o.attrs['_n'] + 1
        o.attrs['append'] = append
        return o
    ge, gf = grown('exclusions', XARG), grown('filters', FARG)
    k = v.ghost(z3.IntVal(0))
    its = []

    def item(i):
        return (SBool(XARG(i)), given_filter(v, FARG(i)))

    def values():
        def nxt():
            it.g = it.g + 1
            return item(z3.simplify(it.g - 1))

        def fresh():
            it.g = v.fresh_int('k', 0)
            v.add(it.g <= n)
        it = SymIter(lambda: SBool(it.g < n), nxt, fresh, z3.IntVal(0))
        its.append(it)
        return v.obj('values', _symiter=lambda: it)
    allnames = v.obj('all names')
    keys = v.obj('keys', _all=True)
    params = v.obj('params', values=values, keys=lambda: keys, __bool__=lambda: v.split(n > 0), __iter__=lambda: raise_(Misfit('iteration over the parameters')))
    v.e.hooks['list'] = lambda x: allnames if x is keys or x is params else raise_(Misfit('list of something'))

    def count(x):
        if isinstance(x, list):
            if x:
                raise Misfit('a list made otherwise')
            return z3.IntVal(0)
        if x is not ge and x is not gf:
            raise Misfit('a list made otherwise')
        return x.attrs['_n']

    def inv(L):
        g = L._it.g
        return [('one exclusion and one filter for each', And(count(L.exclusions) == g, count(L.filters) == g, 0 <= g, g <= n))]

    def havoc(L):
        g = L._it.g = v.fresh_int('k', 0)
        L._it._havoc = lambda: None
        v.add(g <= n)
        ge.attrs['_n'] = gf.attrs['_n'] = g
        return dict(exclusions=ge, filters=gf)
    v.loop('RadiDict.params_unpack', 0, Loop(inv, havoc, variant=lambda L: SInt(n - L._it.g), containers=('exclusions', 'filters'), rebind=('exclusions', 'filters')))
    none = v.case('parameters', 'given', 'none') == 'none'
    if none:
        v.add(n == 0)
    o = v.call(v.fn(f'{D}:RadiDict.params_unpack'), None if none else params)
    v.check('no failure', o.ok)
    r = o.value
    if not (isinstance(r, tuple) and len(r) == 3):
        raise Misfit('what params_unpack returns')
    v.check('one exclusion and one filter for each', And(count(r[0]) == n, count(r[1]) == n))
    v.check('and the names in the same order', r[2] is allnames or isinstance(r[2], list) and not r[2] and zb(n == 0))
    v.cover('some' if r[2] is allnames else 'none')


def remove(v):
    """RadiDict.remove: exactly the node of the pattern (with *: all below it) is emptied; exactly the emptied nodes are cut off"""
    c = consts()
    MT = real(f'{D}:MismatchType')
    star = v.case('pattern', 'exact', 'prefix') == 'prefix'
    front, rest = v.str('matched'), v.str('the rest')
    m = v.either('match', lambda: None, lambda: MT.WHOLE, lambda: MT.PARTIAL)
    hooks_only = v.case('what', 'all', 'hooks') == 'hooks'
    pat = front.z if m is None else z3.Concat(front.z, rest.z)
    if m is not None:
        v.add(z3.Length(rest.z) >= 1)
    # the pattern itself does not end with the star
    last = rest if m is not None else front
    v.add(Not(z3.SuffixOf(sval('*'), last.z)))
    given = SStr(z3.Concat(pat, sval('*'))) if star else SStr(pat)
    covered = v.split(z3.Bool(v.e.fresh('the node begins with the rest'))) if m is MT.PARTIAL else False
    more = v.str('more of the key')

    def mk(name):
        """a node of the trail with the child it was passed for"""
        k, kr, A, B = v.char('first of key'), v.str('key'), v.str('index before'), v.str('index after')
        idx = v.either('index', lambda: None, lambda: '', lambda: v.str('index')) if name == 'target' else None
        if isinstance(idx, SStr):
            v.add(z3.Length(idx.z) >= 1)
        ky = SStr(z3.Concat(k.z, kr.z))
        n = node(v, name, KEY=ky, IDX=idx, DATA=v.either('data', lambda: None, lambda: v.obj('data', __bool__=lambda: True)),
                 HOOKS=v.either('hooks', lambda: None, lambda: v.obj('hooks', __bool__=lambda: True)))
        n.attrs.update(_c=k, _merged=False)
        return n, A, B
    target, _, _ = mk('target')
    if m is MT.PARTIAL:
        # its key against the rest of the pattern
        tk = SStr(z3.Concat(rest.z, more.z)) if covered else v.str('another key')
        if not covered:
            v.add(And(z3.Length(tk.z) >= 1, Not(z3.PrefixOf(rest.z, tk.z))))
        target.attrs['_f'][c['KEY']] = tk
        # how it begins
        k0 = v.char('first of key')
        v.add(z3.SubString(tk.z, 0, 1) == k0.z)
    depth = v.fresh_int('depth', 0)
    before = dict(target.attrs['_f'])
    asked, merges = [], []
    root = v.obj('root')
    cur = None             # the node the loop is at, with where the emptied child stands: (node, A, child's character, B)
    prev = target          # the node before

    def empty(n):
        f = n.attrs['_f']
        x = f[c['IDX']]
        return And(falsy_z(f[c['DATA']]), falsy_z(f[c['HOOKS']]), falsy_z(x))

    def falsy_z(x):
        return x.z == sval('') if isinstance(x, SStr) else x is None or isinstance(x, (str, list)) and not x

    def visit(k):
        nonlocal cur
        if isinstance(k, z3.ExprRef) and not z3.is_int_value(k) and not v.split(k == 0) or z3.is_int_value(k) and k.as_long() > 0:
            n, A, B = mk('node above')
            ch = prev.attrs['_c']
            v.add(And(Not(z3.Contains(A.z, ch.z)), Not(z3.Contains(B.z, ch.z))))
            n.attrs['_f'][c['IDX']] = SStr(z3.Concat(A.z, ch.z, B.z))
            n.attrs['_base'] = dict(n.attrs['_f'])
            cur = (n, A, ch, B)
            return n
        cur = (target, None, None, None)
        return target

    class Stack:
        rev = False
    it = SymIter(lambda: SBool(it.g <= depth), lambda: nxt(), lambda: None, z3.IntVal(0))

    def nxt():
        it.g = z3.simplify(it.g + 1)
        return visit(z3.simplify(it.g - 1))

    def reverse():
        Stack.rev = not Stack.rev

    def symiter():
        if not Stack.rev:
            raise Misfit('the trail in another order')
        return it
    def at(k):
        if isinstance(k, slice):
            if k != slice(None, None, -1) or Stack.rev:
                raise Misfit('a part of the trail')
            return v.obj('reversed trail', _symiter=lambda: it, __getitem__=lambda k: target if k == 0 else raise_(Misfit('a node of the trail')))
        return target if k == (0 if Stack.rev else -1) else raise_(Misfit('a node of the trail'))
    stack = v.obj('trail', reverse=reverse, _symiter=symiter, __getitem__=at,
                  __bool__=lambda: True, __reversed__=lambda: v.obj('reversed trail', _symiter=lambda: it))
    v.e.hooks['reversed'] = lambda x: v.obj('reversed trail', _symiter=lambda: it) if x is stack and not Stack.rev else raise_(Misfit('reversed'))

    def match_(r, *a, pnode=None, **k):
        v.check('the pattern is walked from the root, without filters', And(zb(r == SStr(pat)), pnode is None or pnode is root, not a and not k))
        asked.append(1)
        return target, m, SInt(z3.Length(front.z)), SInt(v.fresh_int('prm', 0)), stack

    def merge_(n):
        if cur is None or n is not cur[0] or len(n.attrs['_edits']) != 1:
            raise Misfit('a node folded elsewhere')
        merges.append(n)
        f = n.attrs['_f']
        if falsy(f[c['DATA']]) and falsy(f[c['HOOKS']]) and v.split(z3.Bool(v.e.fresh('folded into its only child'))):
            # the child holds something: it was not cut off
            n.attrs['_merged'] = True
            v.add(z3.Length(f[c['IDX']].z) == 1)
            f[c['DATA']], f[c['HOOKS']], f[c['IDX']] = v.either('of the child', lambda: (v.obj('its data', __bool__=lambda: True), None, None), lambda: (None, v.obj('its hooks', __bool__=lambda: True), None), lambda: (None, None, 'x'))
    v.trust('RadiDict._match, _try_merge by their contracts; a node that is neither the root nor emptied holds data, hooks or children (it was made so, and cut off when emptied)')

    def cut_ok(n, A, ch, B):
        """node n lost exactly its emptied child"""
        e, f, base = n.attrs['_edits'], n.attrs['_f'], n.attrs['_base']
        v.check('exactly the emptied child is cut off', And(len(e) == 1 and e[0][0] == 'del' and not isinstance(e[0][1], slice), n.attrs['_now'] is None))
        if len(e) == 1 and e[0][0] == 'del' and not isinstance(e[0][1], slice):
            v.check('where it stands', zi(e[0][1]) == c['OFFSET'] + z3.Length(A.z))
        if n not in merges:
            raise Misfit('a node that lost a child is not folded')
        if not n.attrs['_merged']:
            v.check('its character leaves the index', text(f[c['IDX']]) == z3.Concat(A.z, B.z))
            v.check('data and hooks of the nodes above stay', all(f[k] is base[k] for k in f if k not in (c['IDX'], c['WEIGHT'])))

    def inv(L):
        g = L._it.g
        k0 = L.key0_to_del
        return [('the first node has no emptied child', (g == 0) if k0 is None else z3.BoolVal(True)),
                ('the emptied node is the one to cut off', text(k0) == prev.attrs['_c'].z if k0 is not None else z3.BoolVal(True)),
                ('only an emptied node is cut off', empty(prev) if k0 is not None else z3.BoolVal(True)),
                ('within the trail', And(0 <= g, g <= depth + 1))]

    def step(L):
        nonlocal prev
        n, A, ch, B = cur
        if A is not None:
            cut_ok(n, A, ch, B)
        prev = n

    walked = []

    def havoc(L):
        nonlocal prev
        walked.append(1)
        L._it._havoc = lambda: None
        if v.split(z3.Bool(v.e.fresh('at the first node'))):
            L._it.g, prev = z3.IntVal(0), target
            return dict(node=target, key0_to_del=None, kidx=None)
        L._it.g = v.fresh_int('k', 1)
        k = v.char('first of key')
        prev = v.obj('the node before', _c=k, _f={c['DATA']: None, c['HOOKS']: None, c['IDX']: None})
        return dict(node=prev, key0_to_del=k, kidx=None)
    v.loop('RadiDict.remove', 0, Loop(inv, havoc, variant=lambda L: SInt(depth + 1 - L._it.g), step=step))
    if m is MT.PARTIAL:
        target.attrs['_c'] = k0
    me = tree(v, root=root, _match=match_, _try_merge=merge_)
    o = v.call(v.fn(f'{D}:RadiDict.remove'), me, given, hooks_only=hooks_only)
    f = target.attrs['_f']
    e = target.attrs['_edits']
    if not o.ok:
        v.check('only hooks by prefix are refused', And(star, hooks_only, o.raised(real(f'{D}:RadiDictError'))))
        v.check('then nothing changes', target.attrs['_writes'] == 0)
        v.cover('refused')
        return
    found = m is None or star and covered
    if not found:
        v.check('nothing is removed for a pattern that is not there', target.attrs['_writes'] == 0 and cur is None)
        v.cover('not there')
        return
    if star:
        v.check('all below the prefix is cut off', falsy(f[c['IDX']]) and [x[:2] for x in e] == [('del', slice(c['OFFSET'], None, None))])
    else:
        v.check('what is below stays', f[c['IDX']] is before[c['IDX']] and not e)
    if hooks_only:
        v.check('the hooks are gone, data and names stay', f[c['HOOKS']] is None and f[c['DATA']] is before[c['DATA']] and f[c['PARAMS']] is before[c['PARAMS']])
    else:
        v.check('the data are gone, the hooks stay', f[c['DATA']] is None and f[c['HOOKS']] is before[c['HOOKS']])
    v.check('nothing else changes', all(f[k] is before[k] for k in f if k not in (c['IDX'], c['HOOKS'], c['DATA'], c['PARAMS'], c['WEIGHT'])) and target.attrs['_now'] is None)
    if cur is None and not walked:
        v.check('nothing is cut off only when the node still holds something', Not(empty(target)))
        v.cover('emptied, kept')
        return
    if cur is None:
        v.check('the nodes above are looked at until one still holds something', it.g > depth)
        v.cover('cut off up to the root')
        return
    n, A, ch, B = cur
    if A is not None and n is not prev:
        cut_ok(n, A, ch, B)
    v.check('the nodes above are looked at until one still holds something', Or(Not(empty(n)), it.g > depth))
    v.cover('cut off' if A is not None else 'emptied')


UNPACK = Proof('RadiDict.params_unpack', unpack, covers=('some', 'none'))
REMOVE = Proof('RadiDict.remove', remove, covers=('refused', 'not there', 'emptied', 'emptied, kept', 'cut off', 'cut off up to the root'))
PROOFS += [UNPACK, REMOVE]
