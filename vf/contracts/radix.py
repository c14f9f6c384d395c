"""Contracts of the routing tree: the walk of a path (C01, C11)."""
from ..pyvc.facade import *
from ..pyvc.rt import SymIter

D = 'ombott.router.radidict'
Node, Res, Par, Hk, Val = (z3.DeclareSort(n) for n in ('Node', 'Res', 'Par', 'Hk', 'Val'))
NONE = z3.Const('NONE', Res)
LEAF = z3.Function('leaf', Node, Par, Hk, Res)
P0 = z3.Const('no_params', Par)
H0 = z3.Const('no_hooks', Hk)
SNOC = z3.Function('param', Par, Val, Par)
HSNOC = z3.Function('hooked', Hk, I, Node, Hk)
WIN = z3.Function('text', I, I, Val)
# the tree
IDXA = z3.Function('idx', Node, z3.ArraySort(I, I))
IDXN = z3.Function('idx_len', Node, I)
KEYA = z3.Function('key', Node, z3.ArraySort(I, I))
KEYN = z3.Function('key_len', Node, I)
CHILD = z3.Function('child', Node, I, Node)
HASDATA = z3.Function('has_data', Node, Bo)
HASHOOK = z3.Function('has_hook', Node, Bo)
HASF = z3.Function('has_filter', Node, Bo)
# a filter on the rest of the path
FOK = z3.Function('filter_accepts', Node, I, Bo)
FVAL = z3.Function('filter_value', Node, I, Val)
FLEN = z3.Function('filter_consumes', Node, I, I)
# the specification
FIRST = z3.Function('first', Node, I, Par, Hk, Res)      # first match from here: literal children before the wildcard
FT = z3.Function('first_wild', Node, I, Par, Hk, Res)    # the same through the wildcard only
WORK = z3.Function('work', Node, I, I)                   # nodes visited at most (the tree is finite)
WORKT = z3.Function('work_wild', Node, I, I)
POS = z3.Function('index_of_child', Node, I, I)
NEXTSEP = z3.Function('end_of_segment', I, I)
MATCHES = z3.Function('key_matches', Node, I, Bo)


def orelse(a, b):
    return If(a == NONE, b, a)


class Tree:
    def __init__(self, v, R, token='\r', sep='/'):
        self.v, self.R, self.N, self.token, self.sep = v, R, R.n, ord(token), ord(sep)
        self.c = {n: real(f'{D}:{n}') for n in ('KEY', 'IDX', 'PARAMS', 'FILTER', 'HOOKS', 'DATA', 'OFFSET')}
        self.nodes = []

    def at(self, i):
        return z3.Select(self.R.z, i)

    # ---- specification, unfolded at one node and position
    def hooked(self, H, i, n):
        return If(HASHOOK(n), HSNOC(H, i, n), H)

    def unfold(self, n, i, P, H):
        v, N, j = self.v, self.N, z3.Int('j')
        c0 = self.at(i)
        p = POS(n, c0)
        self.shape(n)
        v.add(And(-1 <= p, p < IDXN(n)))
        v.add(Implies(p >= 0, z3.Select(IDXA(n), p) == c0))
        v.add(ForAll([j], Implies(And(0 <= j, j < IDXN(n), z3.Select(IDXA(n), j) == c0), j == p), patterns=[z3.Select(IDXA(n), j)]))
        lit, tok = CHILD(n, p), CHILD(n, IDXN(n) - 1)
        self.shape(lit), self.shape(tok)
        k = i + KEYN(lit)
        v.add(MATCHES(lit, i) == And(k <= N, ForAll([j], Implies(And(0 <= j, j < KEYN(lit)), z3.Select(KEYA(lit), j) == self.at(i + j)))))
        haslit = And(p >= 0, c0 != self.token, MATCHES(lit, i))
        L = If(haslit, FIRST(lit, k, P, self.hooked(H, k, lit)), NONE)
        hastok = And(IDXN(n) > 0, z3.Select(IDXA(n), IDXN(n) - 1) == self.token)
        e = NEXTSEP(i)
        v.add(Implies(And(0 <= i, i <= N), And(i <= e, e <= N, Or(e == N, self.at(e) == self.sep),
                                              ForAll([j], Implies(And(i <= j, j < e), self.at(j) != self.sep), patterns=[self.at(j)]))))
        v.add(And(0 <= FLEN(tok, i), FLEN(tok, i) <= N - i))
        to = If(HASF(tok), i + FLEN(tok, i), e)
        val = If(HASF(tok), FVAL(tok, i), WIN(i, e - i))
        T = If(And(hastok, Or(Not(HASF(tok)), FOK(tok, i))), FIRST(tok, to, SNOC(P, val), self.hooked(H, to, tok)), NONE)
        v.add(FT(n, i, P, H) == T)
        v.add(FIRST(n, i, P, H) == If(i == N, If(HASDATA(n), LEAF(n, P, H), NONE), orelse(L, FT(n, i, P, H))))
        v.add(LEAF(n, P, H) != NONE)
        # the tree is finite: a measure of what is left to visit
        v.add(And(WORK(n, i) >= 1, WORKT(n, i) >= 1))
        for x, y in ((lit, k), (tok, to)):
            v.add(And(WORK(x, y) >= 1, WORKT(x, y) >= 1))
        v.add(WORKT(n, i) >= 1 + If(And(hastok, Or(Not(HASF(tok)), FOK(tok, i))), WORK(tok, to), 0))
        v.add(WORK(n, i) >= 2 + If(haslit, WORK(lit, k), 0) + WORKT(n, i))

    def shape(self, n):
        v, j = self.v, z3.Int('j')
        v.add(And(IDXN(n) >= 0, KEYN(n) >= 1))
        # the wildcard child comes last and its key is the token
        v.add(ForAll([j], Implies(And(0 <= j, j < IDXN(n), z3.Select(IDXA(n), j) == self.token), j == IDXN(n) - 1), patterns=[z3.Select(IDXA(n), j)]))

    # ---- the nodes the code sees
    def node(self, n):
        v, c = self.v, self.c

        def get(k):
            if isinstance(k, int):
                if k == c['KEY']:
                    return STxt(KEYA(n), z3.IntVal(0), KEYN(n))
                if k == c['IDX']:
                    if v.split(IDXN(n) == 0):
                        return v.case('no children', None, '')
                    return STxt(IDXA(n), z3.IntVal(0), IDXN(n))
                if k == c['HOOKS']:
                    return v.obj('hooks of a node', _n=n, __bool__=lambda: v.split(HASHOOK(n))) if v.split(HASHOOK(n)) else None
                if k == c['DATA']:
                    return v.obj('data of a node', _n=n, __bool__=lambda: True) if v.split(HASDATA(n)) else None
                if k == c['PARAMS']:
                    return v.obj('parameter names of a node', _n=n)
                if k == c['FILTER']:
                    return v.obj('filter of a node', __bool__=lambda: True, __call__=lambda s: self.filter(n, s)) if v.split(HASF(n)) else None
                if k == -1:
                    v.check('a last child is asked for only where there is one', IDXN(n) > 0)
                    return self.node(CHILD(n, IDXN(n) - 1))
                raise Misfit(f'field {k} of a node')
            if isinstance(k, SInt):
                p = z3.simplify(k.z - c['OFFSET'])
                v.check('a child is asked for only where there is one', And(p >= 0, p < IDXN(n)))
                return self.node(CHILD(n, p))
            raise Misfit('a slice of a node')
        return v.obj('node', _n=n, __getitem__=get, __bool__=lambda: True)

    def filter(self, n, s):
        v = self.v
        if not isinstance(s, STxt):
            raise Misfit('the argument of a filter')
        i = s.off
        v.check('a filter gets the rest of the path', And(s.z == self.R.z, s.n == self.N - i))
        if v.split(FOK(n, i)):
            return (v.obj('value', _val=FVAL(n, i)), SInt(FLEN(n, i)), None)
        return (None, 0, None)

    def val(self, x):
        if isinstance(x, SObj) and '_val' in x.attrs:
            return x.attrs['_val']
        if isinstance(x, STxt) and x.z.eq(self.R.z):
            return WIN(x.off, x.n)
        raise Misfit('a parameter value made of something else')

    # ---- lists the code grows
    def plist(self, term):
        v = self.v
        o = v.obj('params', _t=term)

        def append(x):
            self.fresh(o)
            o.attrs['_t'] = SNOC(o.attrs['_t'], self.val(x))
        o.attrs.update(append=append, __getitem__=lambda k: self.copy(o, k, self.plist), copy=lambda: self.plist(o.attrs['_t']))
        return o

    def hlist(self, term):
        o = self.v.obj('hooks', _t=term)

        def append(x):
            self.fresh(o)
            o.attrs['_t'] = HSNOC(o.attrs['_t'], zi(x[0]), x[1].attrs['_n'])
        o.attrs.update(append=append, __getitem__=lambda k: self.copy(o, k, self.hlist), copy=lambda: self.hlist(o.attrs['_t']))
        return o

    def copy(self, o, k, mk):
        if k != slice(None):
            raise Misfit('part of a list')
        return mk(o.attrs['_t'])

    def fresh(self, o):
        self.v.check('a saved state is not changed', '_saved' not in o.attrs)

    def pterm(self, x):
        if isinstance(x, list):
            t = P0
            for y in x:
                t = SNOC(t, self.val(y))
            return t
        return x.attrs['_t']

    def hterm(self, x):
        if isinstance(x, list):
            t = H0
            for y in x:
                t = HSNOC(t, zi(y[0]), y[1].attrs['_n'])
            return t
        return x.attrs['_t']


def zi(x):
    return x.z if isinstance(x, SInt) else z3.IntVal(x)


class Stack:
    """the states to come back to; G: the first match any of them leads to"""

    def __init__(self, t):
        v = self.v = t.v
        self.t = t
        self.d = v.ghost(z3.IntVal(0))
        self.obj = v.obj('look_back', append=self.push, pop=self.pop, __bool__=lambda: v.split(self.depth > 0), __len__=lambda: SInt(self.depth))
        self.empty()

    def empty(self):
        self.depth, self.G, self.W = z3.IntVal(0), NONE, z3.IntVal(0)

    def fresh(self):
        v = self.v
        self.depth, self.W = v.fresh_int('depth', 0), v.fresh_int('work', 0)
        self.G = z3.Const(v.e.fresh('G'), Res)
        v.add(Implies(self.depth == 0, And(self.G == NONE, self.W == 0)))

    def push(self, x):
        v, t = self.v, self.t
        if not (isinstance(x, (list, tuple)) and len(x) == 7 and isinstance(x[1], SObj) and isinstance(x[4], SObj) and isinstance(x[5], SObj)):
            raise Misfit('a saved state')
        r, n, i, L, ps, hs, wild = x
        v.check('the state is saved with the path it belongs to', And(r is t.R, zi(L) == t.N))
        if wild is not True:
            raise Misfit('a saved state of another kind')
        v.check('only states with something left of the path are saved', And(0 <= zi(i), zi(i) < t.N))
        n = n.attrs['_n']
        P, H = t.pterm(ps), t.hterm(hs)
        self.G = orelse(FT(n, zi(i), P, H), self.G)
        self.depth, self.W = self.depth + 1, self.W + WORKT(n, zi(i)) + 1
        ps.attrs['_saved'] = hs.attrs['_saved'] = True

    def pop(self):
        v, t = self.v, self.t
        v.check('something is left to come back to', self.depth > 0)
        n, i = z3.Const(v.e.fresh('n'), Node), v.fresh_int('i', 0)
        P, H = z3.Const(v.e.fresh('P'), Par), z3.Const(v.e.fresh('H'), Hk)
        d, G, W = self.depth, self.G, self.W
        self.fresh()
        v.add(And(self.depth == d - 1, G == orelse(FT(n, i, P, H), self.G), W == self.W + WORKT(n, i) + 1, i < t.N, WORKT(n, i) >= 1))
        v.add(And(IDXN(n) > 0, z3.Select(IDXA(n), IDXN(n) - 1) == t.token))
        return [t.R, t.node(n), SInt(i), SInt(t.N), t.plist(P), t.hlist(H), True]


def walk(v):
    """RadiDict.get: what it finds is the first match, literal text before wildcards"""
    R = v.text('path')
    t = Tree(v, R)
    N = R.n
    root = z3.Const(v.e.fresh('root'), Node)
    st = Stack(t)
    partial = v.bool('allow_partial')
    H1 = t.hooked(H0, z3.IntVal(0), root)
    ANS = FIRST(root, z3.IntVal(0), P0, H1)
    v.trust('route filters: a function of the rest of the path, consuming a prefix of it (rex selectors excluded)')
    v.assumption('the tree is well-formed: one child per first character, the wildcard child last (every edit of the tree keeps it: the C11 contracts of _mount, _split, _try_merge, remove)')

    def state(L):
        n, i = L.pnode.attrs['_n'], zi(L.i)
        return n, i, t.pterm(L.params), t.hterm(L.hooks)

    def stack(L):
        if isinstance(L.look_back, list):
            if L.look_back:
                raise Misfit('saved states before the walk')
            return NONE, z3.IntVal(0)
        if L.look_back is not st.obj:
            raise Misfit('look_back')
        return st.G, st.W

    def inv(L):
        n, i, P, H = state(L)
        G, W = stack(L)
        b = zb(L.do_look_back) if not isinstance(L.do_look_back, bool) else z3.BoolVal(L.do_look_back)
        return [('the path is the one asked for', And(L.route is R, zi(L.L) == N)),
                ('inside the path', And(0 <= i, i <= N)),
                ('the first match of what is left is the first match', ANS == orelse(If(b, FT(n, i, P, H), FIRST(n, i, P, H)), G)),
                ('a saved state has a wildcard to try', Implies(b, And(i < N, IDXN(n) > 0, z3.Select(IDXA(n), IDXN(n) - 1) == t.token))),
                ('no selector', L.selector is None),
                ('the lists belong to this state alone', all(isinstance(x, list) or '_saved' not in x.attrs for x in (L.params, L.hooks)))]

    def work(L):
        n, i, P, H = state(L)
        return SInt(If(zb(L.do_look_back), WORKT(n, i), WORK(n, i)) + stack(L)[1])

    def havoc(L):
        n, i = z3.Const(v.e.fresh('n'), Node), v.fresh_int('i')
        st.fresh()
        return dict(route=R, L=SInt(N), pnode=t.node(n), i=SInt(i), selector=None, look_back=st.obj, do_look_back=v.split(z3.Bool(v.e.fresh('back'))),
                    params=t.plist(z3.Const(v.e.fresh('P'), Par)), hooks=t.hlist(z3.Const(v.e.fresh('H'), Hk)), look_type=True, kidx=None)

    def given(L):
        n, i, P, H = state(L)
        t.unfold(n, i, P, H)

    w0 = []

    def given0(L):
        given(L)
        w0[:] = [work(L).z]

    def inv1(L):
        return inv(L) + [('no more left than at the last return', work(L).z <= w0[0] if w0 else True)]

    def inv_idx(L):
        it, j = L._it, z3.Int('j')
        k, x = it.k, it.text
        c0 = L.c0.z
        return [('no child chosen yet', L.kidx is None),
                ('no child for the character so far', ForAll([j], Implies(And(0 <= j, j < k), Or(x.at(j) != c0, x.at(j) == t.token)), patterns=[x.at(j)])),
                ('the last character looked at', (L.c == SChar(x.at(k - 1))).z if isinstance(getattr(L, 'c', None), SChar) else k == 0)]

    def havoc_idx(L):
        it = L._it
        it._forget()
        it._havoc = lambda: None
        if v.split(it.k > 0):
            return dict(ic=SInt(z3.simplify(it.k - 1)), c=SChar(it.text.at(it.k - 1)), kidx=None)
        return dict(ic=None, c=None, kidx=None)

    def inv_seg(L):
        j, i = zi(L.j), zi(L.i)
        q = z3.Int('j')
        return [('inside the segment', And(i <= j, j <= N)), ('no separator so far', ForAll([q], Implies(And(i <= q, q < j), t.at(q) != t.sep), patterns=[t.at(q)]))]
    Q = 'RadiDict.get'
    opts = dict(containers=('params', 'hooks', 'look_back'), rebind=('look_back',))
    v.loop(Q, 0, Loop(inv, havoc, variant=work, given=given0, **opts))
    v.loop(Q, 1, Loop(inv1, havoc, variant=work, given=given, **opts))
    v.loop(Q, 2, Loop(inv_idx, havoc_idx, variant=lambda L: SInt(L._it.text.n - L._it.k)))
    v.loop(Q, 3, Loop(inv_seg, lambda L: dict(j=SInt(v.fresh_int('j'))), variant=lambda L: SInt(N - zi(L.j))))
    f = v.fn(D + ':RadiDict.get')
    t.unfold(root, z3.IntVal(0), P0, H1)
    me = v.obj('tree', real(D + ':RadiDict'), root=t.node(root), param_token='\r', path_sep='/')
    o = v.call(f, me, R, allow_partial=partial)
    v.check('no exception', o.ok)
    r = o.value
    if isinstance(r, tuple) and len(r) == 2 and r[0] is not None:
        if not isinstance(r[0], SObj) or '_n' not in r[0].attrs or not isinstance(r[1], dict):
            raise Misfit('what get returns')
        n = r[0].attrs['_n']
        v.check('the data of the first match, with the values and hooks collected on its way', ANS == LEAF(n, t.pterm(r[1].get('param_values')), t.hterm(r[1].get('hooks'))))
        v.check('which is a match', And(ANS != NONE, HASDATA(n)))
        pk = r[1].get('param_keys')
        v.check('the parameter names are those of the match', isinstance(pk, SObj) and pk.attrs.get('_n') is n)
        v.cover('found')
    else:
        v.check('nothing is found only when nothing matches', ANS == NONE)
        v.check('the outcome for no match', Not(partial.z) if r is None else And(partial.z, isinstance(r, tuple) and r[0] is None and {'param_values', 'hooks'} <= set(r[1])))
        v.cover('not found' + (', partial' if r is not None else ''))


GET = Proof('RadiDict.get', walk, covers=('found', 'not found', 'not found, partial'), budget=120.0, unroll=0)    # the axioms are unfolded at cut points only
