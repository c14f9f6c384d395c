"""Contracts of reverse URL building (C19): Route.url renders the pattern token by token, the built-in filters read their own text back."""
from ..pyvc.facade import *
from ..pyvc import rx

M = 'ombott.router.radirouter'
F = 'ombott.router.filter_factory'
CR = 13
CNT = z3.Function('wildcards_before', I, I)
ANON = z3.Function('is_anonymous', I, Bo)
ANONS = z3.Function('anonymous_before', I, I)
HASOUT = z3.Function('has_output_filter', I, Bo)
HASIN = z3.Function('has_input_filter', I, Bo)
LENRAW = z3.Function('value_length', I, I)
LENOUT = z3.Function('rendered_length', I, I)
OWNER = z3.Function('owner_of_anonymous', I, I)
START = z3.Function('place_of_param', I, I)


def zi(x):
    if isinstance(x, SInt):
        return x.z
    if isinstance(x, int):
        return z3.IntVal(x)
    raise Misfit(f"{x!r} is no number")


def raise_(x):
    raise x


def rendering(v):
    """Route.url for any rule: any literals, any number of parameters, any filters"""
    P = v.text('pattern_out')
    N, at = P.n, (lambda i: z3.Select(P.z, i))
    done, rl = v.ghost(z3.IntVal(0), lambda: v.fresh_int('done', 0)), v.ghost(z3.IntVal(0), lambda: v.fresh_int('rl', 0))
    nparams = CNT(N)

    def count(k):
        """the definition of CNT around position k (a fact about counting)"""
        v.add(And(CNT(z3.IntVal(0)) == 0, Implies(And(0 <= k, k < N), CNT(k + 1) == CNT(k) + If(at(k) == CR, 1, 0))))
        v.add(Implies(And(0 <= k, k <= N), And(0 <= CNT(k), CNT(k) <= CNT(N))))
        v.add(Implies(And(0 <= k, k < N), CNT(k + 1) <= CNT(N)))

    def param(j):
        v.add(And(ANONS(z3.IntVal(0)) == 0, ANONS(j + 1) == ANONS(j) + If(ANON(j), 1, 0)))
        v.add(And(LENRAW(j) >= 0, LENOUT(j) >= 0))
        v.add(Implies(ANON(j), OWNER(ANONS(j)) == j))
        v.add(Implies(And(0 <= j, j < nparams), And(ANONS(j) >= 0, ANONS(j + 1) <= ANONS(nparams))))
    count(z3.IntVal(0))
    count(N)
    if v.e.unroll is not None:
        for k in range(v.e.unroll + 2):
            count(z3.IntVal(k))
    v.add(ANONS(z3.IntVal(0)) == 0)

    if v.e.unroll is not None:
        for k in range(v.e.unroll + 2):
            param(z3.IntVal(k))

    def index(k, what, n):
        k = zi(k)
        if what == 'parameters':
            param(k)
        v.check(f'only {what} that exist are asked for', And(0 <= k, k < n))
        return z3.simplify(k)

    def name(k):
        j = index(k, 'parameters', nparams)

        def starts(p, *a):
            if p != 'anon-' or a:
                raise Misfit('what marks an anonymous parameter')
            return SBool(ANON(j))
        return v.obj('name of a parameter', _j=j, startswith=starts, __bool__=lambda: True)

    def value(src, i):
        # a value is a str: it has one length however often it is asked for
        j = i if src == 'kw' else OWNER(i)
        v.add(LENRAW(j) >= 0)
        return v.obj('value', _src=src, _i=i, _len=LENRAW(j), __len__=lambda: SInt(LENRAW(j)), __bool__=lambda: v.case('the value is', True, False))

    def arg(k):
        return value('arg', index(k, 'anonymous values', ANONS(nparams)))

    def kwarg(k, *d):
        if not (isinstance(k, SObj) and '_j' in k.attrs):
            raise Misfit('the key of a value')
        v.check('a value asked for by its name has one', Not(ANON(k._j)))
        return value('kw', k._j)

    def fout(k):
        j = index(k, 'output filters', nparams)

        def run(x):
            if not (isinstance(x, SObj) and '_src' in x.attrs):
                raise Misfit('the argument of an output filter')
            return v.obj('rendered value', _of=x, _f=j, __len__=lambda: SInt(LENOUT(j)))
        return v.obj('output filter', __bool__=lambda: v.split(HASOUT(j)), __call__=run)

    def fin(k):
        j = index(k, 'filters', nparams)
        return v.obj('filter', _j=j, __bool__=lambda: v.split(HASIN(j)), __call__=lambda s: asked(j, s))

    def accepted(j, s):
        if not isinstance(s, SObj) or '_tail' not in s.attrs:
            raise Misfit('what a filter is asked about')
        v.check('a filter reads the url from its own place on', s._tail == START(j))
        v.cover('the url is checked')
        return [v.obj('read back', __bool__=lambda: v.case('it is', True, False)), SInt(LENOUT(j)), None]

    def asked(j, s):
        return accepted(j, s)
    lst = lambda what, get: v.obj(what, __getitem__=get, __len__=lambda: SInt(nparams), __bool__=lambda: v.split(nparams > 0))
    got, checks = [], []

    def piece(x):
        if isinstance(x, STxt):
            v.check('a literal piece is the next of the rule', And(x.z == P.z, x.off == done.v, x.n >= 0, x.off + x.n <= N))
            count(done.v + x.n)
            v.check('a literal piece holds no wildcard', CNT(done.v) == CNT(done.v + x.n))
            done.v, rl.v = z3.simplify(done.v + x.n), z3.simplify(rl.v + x.n)
            v.cover('literal')
            return
        if isinstance(x, SObj) and ('_src' in x.attrs or '_of' in x.attrs):
            j = CNT(done.v)
            count(done.v)
            param(j)
            v.check('a value stands where its wildcard stands', And(done.v < N, at(done.v) == CR))
            raw = x.attrs.get('_of', x)
            if '_of' in x.attrs:
                v.check('the output filter of the same parameter', x._f == j)
                ln = LENOUT(j)
            else:
                v.check('a parameter with an output filter is rendered by it', Not(HASOUT(j)))
                ln = raw._len
            if raw._src == 'kw':
                v.check('the value of the same parameter', raw._i == j)
            else:
                v.check('the anonymous value of the same parameter', And(ANON(j), raw._i == ANONS(j)))
            got.append((j, rl.v))
            v.add(START(j) == rl.v)
            rl.v = z3.simplify(rl.v + ln)
            done.v = z3.simplify(done.v + 1)
            v.cover('value')
            return
        raise Misfit('a piece made of something else')

    def note(t):
        if not isinstance(t, tuple) or len(t) != 2:
            raise Misfit('what is noted for the check')
        checks.append(t)
    ret = v.obj('pieces', append=piece, _pieces=True)
    todo = v.obj('to check', append=note, _symiter=lambda: places(), __bool__=lambda: v.case('something to check', True, False))

    def places():
        k = v.ghost(z3.IntVal(0))

        def take():
            j = v.fresh_int('j', 0)
            v.add(And(j < nparams, HASIN(j)))
            return (SInt(START(j)), v.obj('filter', _j=j, __bool__=lambda: True, __call__=lambda s: asked(j, s)))
        return SymIter(lambda: SBool(z3.Bool(v.e.fresh('more'))), take)

    def joined(sep, parts):
        if isinstance(parts, list) and sep == '' and v.e.unroll is not None:
            # from the entry: the list is the real one
            for x in parts:
                piece(x)
        elif parts is not ret or sep != '':
            raise Misfit('join of something else')
        v.check('all of the rule is rendered', done.v == N)
        v.check('the length adds up', rl.v >= 0)

        def cut(s):
            if not isinstance(s, slice) or s.stop is not None or s.step is not None:
                raise Misfit('a piece of the url')
            return v.obj('rest of the url', _tail=zi(s.start) if s.start is not None else z3.IntVal(0))
        return v.obj('url', _url=True, __getitem__=cut, __bool__=lambda: True)
    v.e.hooks['join'] = joined

    def inv(L):
        k = L._it.k
        count(k)
        cidx, clen = zi(L.cidx), zi(L.clen)
        count(cidx)
        return [('the index counts the characters', And(clen >= 0, cidx >= 0, cidx + clen == k)),
                ('no wildcard in the piece at hand', CNT(cidx) == CNT(k)),
                ('as many parameters as wildcards', zi(L.pidx) == CNT(k)),
                ('as many anonymous values', zi(L.args_idx) == ANONS(CNT(k))),
                ('everything up to the piece is rendered', done.v == cidx),
                ('the length of what is rendered', And(zi(L.ret_len) == rl.v, rl.v >= 0))]

    def havoc(L):
        n = lambda x: SInt(v.fresh_int(x, 0))

        L._it._forget()
        L._it._havoc = lambda: None
        c = SChar(v.fresh_int('c', 0))
        k = L._it.k
        param(CNT(k))
        return dict(cidx=n('cidx'), clen=n('clen'), pidx=n('pidx'), args_idx=n('args_idx'), ret_len=n('ret_len'), end=n('end'), c=c, ret=ret, to_check=todo,
                    pname=None, f_out=None, f_in=None, prt=None)

    def step(L):
        for pos, f in checks:
            if not (isinstance(f, SObj) and '_j' in f.attrs):
                raise Misfit('what is noted for the check')
            v.check('a check is noted for the parameter just rendered', And(len(got) == 1, zb(f._j == got[0][0]) if got else False))
            v.check('a check is noted with its place in the url', zi(pos) == (got[0][1] if got else -1))
        del got[:], checks[:]
    v.loop('Route.url', 0, Loop(inv, havoc, modifies=lambda L: [done, rl], step=step, rebind=('ret', 'to_check'), containers=('ret', 'to_check')))
    v.loop('Route.url', 1, Loop(lambda L: [], lambda L: dict(pos=None, f_in=None)))
    fn = v.fn(f'{M}:Route.url')
    me = v.closed('route', params=lst('params', name), filters=lst('filters', fin), filters_out=lst('filters_out', fout), anon_prefix='anon-', pattern_out=P)
    out = v.call(fn, me, Star(v.obj('args', __getitem__=arg)), _star=Star(v.obj('kw', __getitem__=kwarg)))
    v.check('values that are there and accepted build a url', out.ok)
    if isinstance(out.value, STxt):
        x = out.value
        v.check('a rule without wildcards is its own url', And(x.z == P.z, x.off == 0, x.n == N, nparams == 0))
        v.cover('no parameters')
    else:
        if not (isinstance(out.value, SObj) and '_url' in out.value.attrs):
            raise Misfit('what url() returns')
        v.cover('url')


def factory(v, cache=None):
    cls = real(f'{F}:FilterFactory')
    fs = cls.__dict__.get('filters')
    if not isinstance(fs, dict):
        raise Misfit('FilterFactory.filters')
    return v.closed('FilterFactory', filters=fs, _filter_cache={} if cache is None else cache), v.fn(f'{F}:FilterFactory.make_filter')


def made(v, name, args):
    cls, f = factory(v)
    o = v.call(f, cls, name, args)
    v.check('a filter is made', o.ok)
    if not isinstance(o.value, (tuple, list)) or len(o.value) != 2 or o.value[0] is None:
        raise Misfit('what make_filter returns')
    return o.value


DIG = z3.Plus(z3.Range('0', '9'))


def piece(v, name, every=None, first=None):
    """a text all of whose characters (the first one) are in a class"""
    x = v.fresh_str(name)
    rx.alphabet(x.z, every, first)
    return x.z


def digits(v, name):
    return piece(v, name, '[0-9]')


def behind(v):
    """what stands behind the text of a number: nothing, or any text that does not go on with a digit"""
    return v.either('behind', lambda: None, lambda: piece(v, 'behind', first=r'[^\d]'))


def rope(*xs):
    xs = [sval(x) if isinstance(x, str) else x for x in xs if x is not None]
    return SStr(z3.Concat(*xs) if len(xs) > 1 else xs[0])


def same_text(v, what, x, *parts):
    if isinstance(x, str):
        x = lift(x)
    if not isinstance(x, SStr):
        raise Misfit(what)
    v.check(what, x.z == rope(*parts).z)


def read_back(v, what, o, val, *parts):
    """a filter called on its own text and what stands behind: (the value, the length of the text, no selector)"""
    v.check(f'{what}: no failure', o.ok)
    if not isinstance(o.value, (tuple, list)) or len(o.value) != 3:
        raise Misfit('what a filter returns')
    x, n, sel = o.value
    v.check(f'{what}: accepted', x is not None)
    v.check(f'{what}: the same value', val(x))
    v.check(f'{what}: exactly its own text is read', lift(n).z == z3.Length(rope(*parts).z))
    v.check(f'{what}: no selector', sel is None)


def int_filter(v):
    """{n:int}: url() writes an int so that the filter reads the same int and nothing more"""
    v.trust('int(str(n)) == n for every int that came from matched text (at most 4300 digits)')
    sign = v.case('sign', '', '-')
    handler, f_out = made(v, 'int', v.case('args', None, ''))
    if v.case('half', 'written', 'read back') == 'written':
        m = v.int('m', 0 if sign == '' else 1)
        n = SInt(m.z if sign == '' else z3.simplify(-m.z))
        if f_out is None:
            raise Misfit('no output filter')
        o = v.call(f_out, n)
        v.check('an int can be written', o.ok)
        same_text(v, 'an int is written as its decimal digits', o.value, sign, z3.IntToStr(m.z))
        v.cover('written')
        return
    n = v.int('n')
    D = digits(v, 'digits of n')

    def to_int(x, base):
        v.check('the filter converts exactly what url() wrote', x.z == rope(sign, D).z)
        v.check('in decimal', base == 10)
        return n
    v.e.hooks['int'] = to_int
    rest = behind(v)
    r = v.call(handler, rope(sign, D, rest))
    read_back(v, 'int', r, lambda x: lift(x).z == n.z if isinstance(x, (SInt, int)) else False, sign, D)
    v.cover('read back')


def float_filter(v):
    """{f:float}: a finite float is written so that the filter reads exactly that text, and float() of it is the same float"""
    v.trust("format(Decimal(repr(x)), 'f') is [-]digits or [-]digits.digits for a finite float x, and float() of it is x, also with '.0' behind when it has no fraction")
    x = v.obj('number', __bool__=lambda: v.case('the number is', True, False))
    sign = v.case('sign', '', '-')
    D1 = digits(v, 'digits')
    frac = v.case('fraction', False, True)
    D2 = digits(v, 'fraction digits') if frac else None
    plain = [sign, D1] + (['.', D2] if frac else [])
    texts = []

    def to_float(y=0.0):
        if y is x:
            return x
        if isinstance(y, SStr):
            v.check('the filter converts exactly what url() wrote', Or([y.z == t.z for t in texts]))
            return x
        raise Misfit('float of something else')
    rep = v.obj('repr of the number')

    def decimal(y):
        if y is not rep and y is not x:
            raise Misfit('Decimal of something else')
        return v.obj('decimal', _dec=True)

    def fmt(y, spec=''):
        if not isinstance(y, SObj) or '_dec' not in y.attrs or spec != 'f':
            raise Misfit('format')
        return rope(*plain)
    x.attrs['__repr__'] = x.attrs['__str__'] = lambda: rep
    v.stub('float', to_float)
    v.stub('Decimal', decimal)
    v.stub('format', fmt)
    v.stub('isfinite', lambda y: True if y is x else raise_(Misfit('isfinite')))
    handler, f_out = made(v, 'float', v.case('args', None, ''))
    if f_out is None:
        raise Misfit('no output filter')
    o = v.call(f_out, x)
    v.check('a float can be written', o.ok)
    t = o.value
    if not isinstance(t, SStr):
        raise Misfit('what the output filter returns')
    # any fraction of zeros that url() adds keeps the number
    k = plain if frac else plain + ['.', '0'] if v.e._sat_pc(t.z != rope(*plain, '.0').z) == z3.unsat else plain
    v.check('the digits of the number are written', Or(t.z == rope(*plain).z, And(not frac, t.z == rope(*plain, '.0').z)))
    texts.append(rope(*k))
    rest = v.either('behind', lambda: [], lambda: [piece(v, 'behind', first=r'[^\d.]')], lambda: ['.'], lambda: ['.', piece(v, 'behind', first=r'[^\d]')], lambda: ['.', digits(v, 'behind')])
    r = v.call(handler, rope(*k, *rest))
    read_back(v, 'float', r, lambda y: y is x, *k)
    v.cover('fraction' if frac else 'whole')


def path_filter(v):
    """{p:path}: the text up to the last place where the literal behind it stands; then the literal"""
    conf = v.case('literal behind', '.', '', '/end', '-x/', '+', 'ab', 'aa', '.(')
    handler, f_out = made(v, 'path', conf)
    v.check('a path is written as it is', f_out is None)
    quote = lambda cs: ''.join('\\' + c if not c.isalnum() else c for c in cs)
    if conf and v.case('value', 'with the literal inside', 'any') != 'any':
        T = [piece(v, 'value', r'[^\n%s]' % quote(conf)), conf, piece(v, 'value', r'[^\n%s]' % quote(conf))]
    else:
        T = [piece(v, 'value', r'[^\n]')]
    if not conf:
        text = T
    else:
        # behind the literal its first character does not occur again before a line end (which a path never crosses)
        text = [*T, conf]
        if v.case('behind', False, True):
            text.append(piece(v, 'behind', r'[^\n%s]' % quote(conf[0])))
        if v.case('line end', False, True):
            text += ['\n', v.fresh_str('lines').z]
    r = v.call(handler, rope(*text))
    read_back(v, 'path', r, lambda y: y.z == rope(*T).z if isinstance(y, SStr) else False, *T)
    v.cover('with a literal' if conf else 'to the end')


def generic_filter(v):
    """any other pattern: the text the pattern matches is the value, and is written as it is"""
    hit = v.bool('matches')
    text, val = v.fresh_str('text'), v.fresh_str('value')
    end = v.int('end', 0)
    conf = v.str('pattern')
    seen = []

    def match(t, *a):
        if a:
            raise Misfit('match from elsewhere')
        v.check('the filter is asked about the whole rest', t.z == text.z if isinstance(t, SStr) else False)
        if not v.split(hit.z):
            return None
        g = lambda *n: val if n in ((), (0,)) else raise_(Misfit('group'))
        e = lambda *n: end if n in ((), (0,)) else raise_(Misfit('end'))
        return v.closed('match', group=g, end=e, span=lambda: (0, end), start=lambda: 0, __getitem__=g, __bool__=lambda: True)

    def compile_(p, *flags):
        v.check('the pattern of the rule is compiled, without flags', And(p.z == conf.z, not flags) if isinstance(p, SStr) else False)
        return v.closed('pattern', match=match)
    real_re = v.closed('re', compile=compile_, escape=lambda s: raise_(Misfit('escape')))
    v.stub('re', real_re)
    got = {}
    cache = v.closed('cache', get=lambda k, d=None: d, __setitem__=lambda k, x: got.setdefault('x', x), __contains__=lambda k: False)
    cls, f = factory(v, cache)
    o = v.call(f, cls, 're', conf)
    v.check('a filter is made', o.ok)
    if not isinstance(o.value, (tuple, list)) or len(o.value) != 2 or o.value[0] is None:
        raise Misfit('what make_filter returns')
    handler, f_out = o.value
    v.check('the text is written as it is', f_out is None)
    r = v.call(handler, text)
    v.check('no failure', r.ok)
    if not isinstance(r.value, (tuple, list)) or len(r.value) != 3:
        raise Misfit('what a filter returns')
    if v.split(hit.z):
        v.check('the matched text is the value', isinstance(r.value[0], SStr) and r.value[0].z.eq(val.z))
        v.check('it is consumed', lift(r.value[1]).z == end.z)
        v.check('without selector', r.value[2] is None)
        v.cover('matched')
    else:
        v.check('otherwise the wildcard does not match', r.value[0] is None)
        v.cover('not matched')


def one_filter_each(v):
    """make_filter: rules with different filters never share one (through the cache), equal ones may"""
    items = []

    def same(k, q):
        if isinstance(k, tuple) and isinstance(q, tuple):
            return len(k) == len(q) and all(same(x, y) for x, y in zip(k, q))
        if k is None or q is None:
            return k is q
        return v.split(lift(k).z == lift(q).z)

    def get(k, d=None):
        for q, x in items:
            if same(k, q):
                return x
        return d

    def getitem(k):
        x = get(k, ABSENT)
        if x is ABSENT:
            v.throw(KeyError('filter'))
        return x
    cache = v.closed('cache', get=get, __getitem__=getitem, __contains__=lambda k: get(k, ABSENT) is not ABSENT, __setitem__=lambda k, x: items.append((k, x)), __len__=lambda: len(items), __bool__=lambda: bool(items))
    a, b = v.str('pattern a'), v.str('pattern b')
    first = v.case('first filter', 're', 'int', 'path')
    second = v.case('second filter', 're', 'int', 'path')

    masks = []

    def compile_(p, *flags):
        masks.append(p)
        return v.closed('pattern', _p=p)
    v.stub('re', v.closed('re', compile=compile_, escape=lambda s: v.obj('escaped', _esc=s, __str__=lambda: SStr(z3.Function('escaped', z3.StringSort(), z3.StringSort())(lift(s).z)))))
    cls, f = factory(v, cache)
    conf = dict(re=(a, b), int=(None, None), path=(a, b))
    o1 = v.call(f, cls, first, conf[first][0])
    n1 = len(masks)
    o2 = v.call(f, cls, second, conf[second][1])
    v.check('filters are made', o1.ok and o2.ok)
    h1, h2 = o1.value[0], o2.value[0]
    v.check('a first filter is compiled', n1 == 1)
    if len(masks) == 1:
        v.check('a filter is shared only by wildcards with the same filter and pattern', And(first == second, True if first == 'int' else a.z == b.z))
        v.check('a shared filter is the same', h1 is h2 and o1.value[1] is o2.value[1])
        v.cover('shared')
    else:
        v.check('one filter, one pattern', h1 is not h2)
        v.cover('two filters')


def no_filter(v):
    """a plain wildcard has no filter"""
    cls, f = factory(v)
    o = v.call(f, cls, v.case('name', None, ''), None)
    v.check('no filter', o.ok and isinstance(o.value, (tuple, list)) and list(o.value) == [None, None])
    v.cover('none')


def refused_number(v):
    """a text the pattern matches but that is no number (too many digits, out of range) does not match"""
    kind = v.case('filter', 'int', 'float')
    v.e.hooks['int'] = lambda x, base: v.throw(ValueError('too many digits'))
    v.stub('float', lambda y=0.0: v.throw(ValueError('no float')))
    handler, f_out = made(v, kind, None)
    r = v.call(handler, rope(digits(v, 'digits')))
    v.check('a number out of range does not match and does not fail', r.ok and isinstance(r.value, (tuple, list)) and r.value[0] is None)
    v.cover(kind)


def parse(v):
    """Route.parse_rule for any sequence of tokens: pattern, url pattern, names and filters stay in step"""
    err = real('ombott.router.errors:RouteBuildError')
    names = ('pattern', 'pattern_out', 'params', 'filters', 'filters_out')
    new = {n: [] for n in names}
    tok = {}
    DUP = lambda z: z3.Function('name_seen', z3.StringSort(), Bo)(z)

    def lst(n):
        return v.obj(n, _list=n, append=lambda x: new[n].append(x), __contains__=(lambda x: SBool(DUP(lift(x).z))) if n == 'params' else lambda x: raise_(Misfit('in')), __bool__=lambda: v.case(f'{n} so far', True, False))
    gl = {n: lst(n) for n in names}

    def token():
        tok.clear()
        if v.case('token', 'literal', 'wildcard') == 'literal':
            tok.update(part=v.fresh_str('literal'))
            v.add(z3.Length(tok['part'].z) >= 1)
            return (tok['part'], None, None, None, None)
        tok['name'] = v.either('name', lambda: v.case('no name', None, ''), lambda: v.fresh_str('name'))
        if isinstance(tok['name'], SStr):
            v.add(And(z3.Length(tok['name'].z) >= 1, Not(z3.PrefixOf(sval('anon-'), tok['name'].z))))
        tok['filter'] = v.either('filter', lambda: None, lambda: v.obj('filter name', __bool__=lambda: True))
        tok['args'] = v.obj('filter arguments')
        tok['sel'] = v.either('selector', lambda: None, lambda: v.fresh_str('selector'))
        return (v.case('no literal', None, ''), tok['name'], tok['filter'], tok['args'], tok['sel'])
    rule = v.str('rule')
    v.add(z3.Length(rule.z) >= 1)

    def iter_parse(r):
        v.check('the rule is parsed without its first slash', And(z3.PrefixOf(sval('/'), rule.z), lift(r).z == z3.SubString(rule.z, 1, z3.Length(rule.z) - 1)))
        return v.obj('tokens', _symiter=lambda: SymIter(lambda: SBool(z3.Bool(v.e.fresh('more'))), token))

    def make(f, a=None):
        v.check('the filter of this wildcard is made', f is tok.get('filter') and a is tok.get('args'))
        tok['made'] = tuple(v.obj(n, __bool__=lambda: v.case('there is one', True, False)) for n in ('input filter', 'output filter'))
        return tok['made']

    seen = {n: 0 for n in names}

    def step(L):
        if not tok:
            return
        if v.e.unroll is not None:
            # from the entry: the lists are the real ones
            for n in names:
                xs = getattr(L, n)
                if not isinstance(xs, list):
                    raise Misfit(n)
                new[n], seen[n] = xs[seen[n]:], len(xs)
            if isinstance(tok.get('name'), SStr) and new['params']:
                v.add(DUP(tok['name'].z) == Or([lift(x).z == tok['name'].z for x in L.params[:seen['params'] - len(new['params'])]]))
        if 'part' in tok:
            v.check('a literal stands in both patterns', And(len(new['pattern']) == 1, len(new['pattern_out']) == 1, *[lift(x).z == tok['part'].z for x in new['pattern'] + new['pattern_out']]))
            v.check('a literal is no parameter', not (new['params'] or new['filters'] or new['filters_out']))
            v.cover('literal')
        else:
            sel = tok['sel'].z if tok['sel'] is not None else sval('')
            v.check('a wildcard stands in both patterns', And(len(new['pattern']) == 1, len(new['pattern_out']) == 1, *[lift(x).z == z3.Concat(sval('\r'), sel) for x in new['pattern']], *[lift(x).z == sval('\r') for x in new['pattern_out']]))
            v.check('one name, one filter, one output filter', [len(new[n]) for n in names[2:]] == [1, 1, 1])
            if [len(new[n]) for n in names[2:]] == [1, 1, 1]:
                nm = lift(new['params'][0])
                v.check('the name of the wildcard', nm.z == tok['name'].z if isinstance(tok['name'], SStr) else z3.PrefixOf(sval('anon-'), nm.z))
                v.check('no name stands twice', Not(DUP(nm.z)) if isinstance(tok['name'], SStr) else True)
                v.check('its filters', new['filters'] == [tok.get('made', (0, 0))[0]] and new['filters_out'] == [tok.get('made', (0, 0))[1]])
            v.cover('wildcard')
        for n in names:
            del new[n][:]
        tok.clear()

    def havoc(L):
        return dict(anon_counter=SInt(v.fresh_int('anonymous', 0)), **gl)
    v.loop('Route.parse_rule', 0, Loop(lambda L: [], havoc, step=step, rebind=names, containers=names))
    joined = {}

    def join(sep, xs):
        if sep != '' or not isinstance(xs, SObj) or '_list' not in xs.attrs:
            return NotImplemented
        return joined.setdefault(xs._list, v.obj('joined ' + xs._list))
    v.e.hooks['join'] = join
    cls = v.closed('Route', parser=v.closed('parser', iter_parse=iter_parse), anon_prefix='anon-', make_filter=make)
    o = v.call(v.fn(f'{M}:Route.parse_rule'), cls, rule)
    if o.ok:
        r = o.value
        if not isinstance(r, tuple) or len(r) != 5:
            raise Misfit('what parse_rule returns')
        v.check('a rule starts with a slash', z3.PrefixOf(sval('/'), rule.z))
        if v.e.unroll is not None:
            v.end()
        v.check('pattern, names, filters, url pattern, output filters', r[0] is joined.get('pattern') and r[3] is joined.get('pattern_out') and r[1] is gl['params'] and r[2] is gl['filters'] and r[4] is gl['filters_out'])
        v.cover('parsed')
    elif o.raised(err):
        if v.e.unroll is not None:
            v.end()
        v.check('refused only for a name that stands twice', DUP(tok['name'].z) if tok and isinstance(tok.get('name'), SStr) else False)
        v.cover('refused')
    else:
        v.check('otherwise a rule is refused only for a missing slash', And(o.raised(AssertionError), Not(z3.PrefixOf(sval('/'), rule.z))))
        v.cover('no slash')


def params_dict(v):
    """Route.make_params_dict: the arguments are exactly the named parameters with the values at their places"""
    ns, vs = SColl('names', inline=False), SColl('values', inline=False)
    cls = v.closed('Route', anon_prefix='anon-')
    o = v.call(v.fn(f'{M}:Route.make_params_dict'), cls, ns, vs)
    v.check('no failure', o.ok)
    c = o.value
    if not isinstance(c, SComp) or c.kind != 'dict' or not isinstance(c.src, SColl) or 'parts' not in c.src.attrs:
        raise Misfit('what make_params_dict returns')
    v.check('names and values in step', len(c.src.parts) == 2 and c.src.parts[0] is ns and c.src.parts[1] is vs)
    n, x = v.str('name'), v.obj('value', __bool__=lambda: v.case('the value is', True, False))
    got = c.probe((n, x))
    anon = z3.PrefixOf(sval('anon-'), n.z)
    if got:
        v.check('a named parameter gets its value', len(got) == 1 and isinstance(got[0], tuple) and len(got[0]) == 2 and got[0][1] is x)
        v.check('by its name', And(Not(anon), lift(got[0][0]).z == n.z) if isinstance(got[0], tuple) else False)
        v.cover('named')
    else:
        v.check('only anonymous ones are left out', anon)
        v.cover('anonymous')


def route_init(v):
    """Route(rule): the pieces of the parsed rule stand where url() and the router look for them"""
    parts = tuple(v.obj(n) for n in ('pattern', 'params', 'filters', 'pattern_out', 'filters_out'))
    rule = v.str('rule')
    asked = []

    def parse_rule(r):
        asked.append(r)
        return parts
    me = v.obj('route', None, inline=False)
    me.attrs['__class__'] = v.closed('Route', parse_rule=parse_rule)
    me.attrs['parse_rule'] = parse_rule
    o = v.call(v.fn(f'{M}:Route.__init__'), me, rule)
    v.check('no failure', o.ok)
    v.check('the rule is parsed', bool(asked) and all(a is rule for a in asked))
    v.check('every piece in its place', all(me.attrs.get(n) is x for n, x in zip(('pattern', 'params', 'filters', 'pattern_out', 'filters_out'), parts)))
    v.check('no methods yet', me.attrs.get('_methods') == {})
    v.cover('made')


def same_reading(v):
    """lemma over the contracts of RadiDict.get (C01), make_filter and Route.url: token by token, the url is read as the path was

    path: tokens begin at A(t), url: at B(t); token t of the path was read with value VAL(t). Claim for an arbitrary token:
    if the url agrees so far (token t begins at B(t)), it is read the same way and the next token begins where url() put it."""
    U, W = v.array('url'), v.array('path')
    NU, NW = v.fresh_int('url length', 0), v.fresh_int('path length', 0)
    b, a, ln, k, j = v.fresh_int('b', 0), v.fresh_int('a', 0), v.fresh_int('len', 0), v.fresh_int('litlen', 1), z3.Int('j')
    u, w = (lambda i: z3.Select(U, i)), (lambda i: z3.Select(W, i))
    # filters: contracts of the int, float, path and re filter below
    v.assumption('a regex filter of a rule decides by the text it consumes and by what directly follows it; where it looks further ahead into a number written differently: known finding')
    kind = v.case('token', 'literal', 'plain wildcard')
    if kind == 'literal':
        # url(): the literal verbatim (contract of Route.url); get(): a literal child is taken iff its key stands there
        L = v.array('literal')
        v.add(And(b + k <= NU, ForAll([j], Implies(And(0 <= j, j < k), u(b + j) == z3.Select(L, j)))))
        v.check('a literal is found again', And(b + k <= NU, ForAll([j], Implies(And(0 <= j, j < k), z3.Select(L, j) == u(b + j)))))
        v.cover('literal')
    else:
        # read in the path: up to the next '/' or the end; written verbatim; behind it stands what stood there in the path (a literal or the end)
        v.add(And(a + ln <= NW, ForAll([j], Implies(And(a <= j, j < a + ln), w(j) != ord('/')), patterns=[w(j)]), Or(a + ln == NW, w(a + ln) == ord('/'))))
        v.add(And(b + ln <= NU, ForAll([j], Implies(And(b <= j, j < b + ln), u(j) == w(j - b + a)), patterns=[u(j)])))
        v.add((a + ln == NW) == (b + ln == NU))
        v.add(Implies(a + ln < NW, u(b + ln) == w(a + ln)))
        e = v.fresh_int('end of segment', 0)
        v.add(And(b <= e, e <= NU, Or(e == NU, u(e) == ord('/')), ForAll([j], Implies(And(b <= j, j < e), u(j) != ord('/')), patterns=[u(j)])))
        v.check('a plain wildcard reads its own text again', e == b + ln)
        v.cover('plain')


INT = Proof('the int filter', int_filter, covers=('written', 'read back'))
FLOAT = Proof('the float filter', float_filter, covers=('fraction', 'whole'))
PATH = Proof('the path filter', path_filter, covers=('with a literal', 'to the end'))
GENERIC = Proof('the re filter', generic_filter, covers=('matched', 'not matched'))
EACH = Proof('FilterFactory.make_filter', one_filter_each, covers=('shared', 'two filters'))
NOFILTER = Proof('FilterFactory.make_filter (plain)', no_filter, covers=('none',))
REFUSED = Proof('numbers out of range', refused_number, covers=('int', 'float'))
PARSE = Proof('Route.parse_rule', parse, covers=('literal', 'wildcard', 'parsed', 'refused', 'no slash'))
PARAMS = Proof('Route.make_params_dict', params_dict, covers=('named', 'anonymous'))
INIT = Proof('Route.__init__', route_init, covers=('made',))
SAME = Proof('url read as the path was', same_reading, covers=('literal', 'plain'))
URL = Proof('Route.url', rendering, covers=('literal', 'value', 'url', 'no parameters', 'the url is checked'), budget=120)
PROOFS = [URL, INT, FLOAT, PATH, GENERIC, EACH, NOFILTER, REFUSED, PARSE, PARAMS, INIT, SAME]
