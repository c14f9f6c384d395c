"""Contracts of query strings and urlencoded forms (C18)."""
from ..pyvc.facade import *

H = 'ombott.request_pkg.helpers'
B = 'ombott.request_pkg.body_mixin'
P = 'ombott.request_pkg.props_mixin'
EQ, AMP = ord('='), ord('&')


def scanner(v, mode):
    """parse_qsl on any string: which pairs it reports, in which order, and that it ends"""
    qs = v.text('qs')
    at, N = (lambda i: z3.Select(qs.z, i)), qs.n
    j = z3.Int('j')
    stop = lambda i: Or(at(i) == EQ, at(i) == AMP)
    sent = v.case('input', 'urlencoded with non-empty keys', 'any')
    if sent != 'any':
        # no segment (from the start, or behind an '&') starts with '=' or '&'
        v.add(ForAll([j], Implies(And(0 <= j, j < N, Or(j == 0, at(j - 1) == AMP)), Not(stop(j))), patterns=[at(j)]))
    begin = v.ghost(z3.IntVal(0), lambda: v.fresh_int('begin', 0))
    calls = []

    # text helpers: which piece of the string is decoded
    def replace(w, old, new):
        if (old, new) != ('+', ' '):
            raise Unsupported('replace')
        return v.obj('piece with spaces', _w=w, __bool__=lambda: v.split(w.n > 0))

    def unquote(x, *a, **k):
        if a or k:
            raise Misfit('unquote with options')
        if isinstance(x, SObj) and '_w' in x.attrs:
            return v.obj('decoded', _d=x.attrs['_w'], __bool__=lambda: v.split(x.attrs['_w'].n > 0))
        if isinstance(x, STxt):
            v.check("'+' is decoded as a space", False)
        raise Misfit('unquote')

    def unquote_plus(x, *a, **k):
        if a or k or not isinstance(x, STxt):
            raise Misfit('unquote_plus')
        return v.obj('decoded', _d=x)
    v.e.hooks['text.replace'] = replace
    v.stub('urlunquote', unquote)
    v.stub('unquote_plus', unquote_plus)
    v.trust('urllib.parse.unquote decodes percent-escapes as UTF-8, accepts any text, and undoes quote_plus once + is a space')
    v.trust('quote_plus and urlencode never emit & or = inside a key or value')

    def note(k, x):
        calls.append((k, x))
    if mode == 'setitem':
        v.contract('parse_qsl.<locals>.add', note)
        kw = dict(setitem=lambda k, x: raise_(Misfit('setitem outside of add')))
    elif mode == 'append':
        kw = dict(append=lambda t: note(*t))
    else:
        kw = {}

    def window(x):
        """the piece of the string an argument of add() is made of"""
        if isinstance(x, SObj) and '_d' in x.attrs:
            return x.attrs['_d']
        if isinstance(x, str) and x == '':
            return STxt(qs.z, z3.IntVal(0), z3.IntVal(0))
        if isinstance(x, STxt) or isinstance(x, SObj) and '_w' in x.attrs:
            v.check('keys and values are decoded', False)
        raise Misfit('a pair made of something else')

    def segment(s, e, got):
        """one turn of the scanner: started at s, went on at e, reported got"""
        if not got:
            v.check('a pair is dropped only when its key is empty', stop(s))
            v.check('an empty key takes one character', e == s + 1)
            return
        v.check('one pair at a time', len(got) == 1)
        k, x = got[0]
        k, x = window(k), window(x)
        n = k.n
        v.check('the key starts where the segment starts', And(k.off == s, k.z == qs.z, n >= 1))
        v.check('the key has no separator in it', ForAll([j], Implies(And(s <= j, j < s + n), Not(stop(j))), patterns=[at(j)]))
        v.check('the key ends at a separator or at the end', And(s + n <= N, Or(s + n == N, stop(s + n))))
        has = And(s + n < N, at(s + n) == EQ)
        v.check("the value is all that follows '='", Implies(has, And(Or(x.n == 0, x.off == s + n + 1), s + n + 1 + x.n <= N)))
        v.check("no '&' inside the value", Implies(has, ForAll([j], Implies(And(s + n + 1 <= j, j < s + n + 1 + x.n), at(j) != AMP), patterns=[at(j)])))
        v.check("the value ends at '&' or at the end", Implies(has, Or(s + n + 1 + x.n == N, at(s + n + 1 + x.n) == AMP)))
        v.check("without '=' the value is empty", Implies(Not(has), x.n == 0))
        last = s + n + If(has, 1 + x.n, 0)
        v.check('the scanner goes on behind the segment', Or(e == last + 1, And(e >= N, last >= N)))
        v.cover('pair')
        v.e.cover('value' if v.split(And(has, x.n > 0)) else 'empty value')

    def head(L):
        i = zi(L.i)
        r = [('inside the string', i >= 0), ('ghost', begin.v == i)]
        if sent != 'any':
            r.append(('at the start of a segment', Or(i == 0, i >= N, at(i - 1) == AMP)))
        return r

    def havoc(L):
        del calls[:]
        if mode == 'container':
            L.container[:] = []
        return dict(i=SInt(v.fresh_int('i', 0)))

    def step(L):
        got = list(L.container) if mode == 'container' else list(calls)
        segment(begin.v, zi(L.i), got)
        v.check('an urlencoded string has no empty key', bool(got) if sent != 'any' else True)
        begin.v = zi(L.i)
        del calls[:]
        if mode == 'container':
            L.container[:] = []

    def scan(stops):
        def inv(L):
            k, t = L._it.k, L._it.text
            return [('the index counts the characters', zi(L.idx) == If(k > 0, k - 1, 0)),
                    ('no separator so far', ForAll([j], Implies(And(t.off <= j, j < t.off + k), And([at(j) != s for s in stops])), patterns=[at(j)])),
                    ('the last character is at hand', (L.c == SChar(t.at(k - 1))).z if isinstance(L.c, SChar) else k == 0)]
        return inv

    def scanloop(stops):
        inv = scan(stops)

        def havoc(L):
            it = L._it
            it._forget()
            it._havoc = lambda: None
            if v.split(it.k > 0):
                return dict(idx=SInt(z3.simplify(it.k - 1)), c=SChar(it.text.at(it.k - 1)))
            return dict(idx=0, c=None)
        return Loop(inv, havoc, variant=lambda L: SInt(L._it.text.n - L._it.k), containers=('container',))
    Q = 'parse_qsl'
    v.loop(Q, 0, Loop(head, havoc, variant=lambda L: SInt(If(zi(L.i) < N, N - zi(L.i), 0)), step=step, modifies=lambda L: [begin], containers=('container',)))
    v.loop(Q, 1, scanloop([EQ, AMP]))
    v.loop(Q, 2, scanloop([AMP]))
    f = v.fn(H + ':parse_qsl')
    o = v.call(f, qs, **kw)
    v.check('no exception, whatever the string', o.ok)
    if mode == 'container':
        v.check('the pairs are returned', isinstance(o.value, list))
    v.check('it stops only at the end of the string', begin.v >= N)
    v.cover('end')


def raise_(x):
    raise x


def zi(x):
    return x.z if isinstance(x, SInt) else z3.IntVal(x)


def promote(v):
    """add(): the n-th value of a key"""
    key, val = v.obj('key'), v.obj('value', __bool__=lambda: v.split(z3.Bool(v.e.fresh('value'))))
    other = v.obj('another key')
    first = v.obj('first value', __bool__=lambda: v.split(z3.Bool(v.e.fresh('first'))))
    seen = v.case('values of this key so far', 0, 1, 'more')
    lst = v.obj('list of values so far', __bool__=lambda: True, append=lambda x: grown.append(x))
    grown, out = [], []
    _seen, _lists = {other: v.obj('other value')}, {}
    if seen != 0:
        _seen[key] = first
    if seen == 'more':
        _lists[key] = lst
    s0, l0 = dict(_seen), dict(_lists)

    def setitem(k, x):
        out.append((k, x))
    f = v.nested(H + ':parse_qsl.<locals>.add', _seen=_seen, _lists=_lists, setitem=setitem)
    o = v.call(f, key, val)
    v.check('no exception', o.ok)
    v.check('only this key is written', all(k is key for k, _ in out) and all(_seen.get(k) is x for k, x in s0.items() if k is not key))
    if seen == 0:
        v.check('a single value is stored as it is', len(out) == 1 and out[0][1] is val)
        v.check('and remembered', _seen.get(key) is val and key not in _lists)
    elif seen == 1:
        v.check('the second value makes a list, in order', len(out) == 1 and isinstance(out[0][1], list) and list(map(id, out[0][1])) == [id(first), id(val)])
        v.check('the stored list is the one that grows', _lists.get(key) is out[0][1] if out else False)
    else:
        v.check('a further value is appended to the stored list', not out and len(grown) == 1 and grown[0] is val)
        v.check('which stays', _lists.get(key) is lst)
    v.cover(str(seen))


def query(v):
    text = v.either('QUERY_STRING', lambda: None, lambda: v.str('query string'))
    env = Environ({} if text is None else {'QUERY_STRING': text})
    store = v.obj('__setitem__')
    ret = v.obj('forms', __setitem__=lambda k, x: None)
    ret.attrs['__setitem__'] = store
    calls = []

    def parse(qs, **k):
        calls.append((qs, k))
    v.contract('parse_qsl', parse)
    v.stub('parse_qsl', parse)
    made = []

    def factory(*a):
        if a:
            raise Misfit('forms factory with arguments')
        made.append(1)
        return ret if len(made) == 1 else v.obj('another')
    me = v.obj('request', real('ombott.request_pkg.request:Request'), environ=env, _forms_factory=factory, _env_get=lambda k, d=None: env.get(k, d))
    o = v.call(getter(v, B + ':BodyMixin.query'), me)
    v.check('no exception', o.ok)
    v.check('the mapping is returned', o.value is ret)
    if text is None:
        v.check('nothing to parse', all(isinstance(c[0], str) and c[0] == '' for c in calls))
        v.cover('absent')
    elif not calls:
        v.check('only an empty query string is not parsed', text.z == sval(''))
        v.cover('empty')
    else:
        if v.split(text.z == sval('')):
            v.cover('empty')
        v.check('the query string as it is, into the mapping', len(calls) == 1 and calls[0][0] is text and set(calls[0][1]) == {'setitem'} and calls[0][1]['setitem'] is store)
        v.cover('parsed')


def getter(v, path):
    """the getter behind a cache_in property"""
    m, _, q = path.partition(':')
    p = real(path)
    f = p.fget if isinstance(p, property) else p
    g = None
    for n, c in zip(f.__code__.co_freevars, f.__closure__ or ()):
        if n == 'getter':
            g = c.cell_contents
    if g is None:
        raise Misfit(f'{path} is no cached property')
    return v.e.env.load(g, q, sys.modules[m])


def urlencoded(v):
    """POST of an urlencoded body"""
    body = v.bytes('body')
    ctype = v.case('content type', '', 'application/x-www-form-urlencoded', 'text/plain', 'application/x-www-form-urlencoded;charset=utf-8')
    env, made, calls = Environ(), [], []

    def factory(*a):
        made.append(v.obj('forms', __setitem__=lambda k, x: None))
        return made[-1]

    def parse(qs, **k):
        calls.append((qs, k))
    v.contract('parse_qsl', parse)
    v.stub('parse_qsl', parse)
    text = v.str('body as latin1')

    def touni(x, *a, **k):
        v.check('one character per byte of the body', x is body and (a + tuple(k.values()))[:1] in (('latin1',), ('latin-1',), ('iso-8859-1',)))
        return text
    v.stub('touni', touni)
    me = v.obj('request', real('ombott.request_pkg.request:Request'), environ=env, content_type=ctype, _forms_factory=factory, _get_body_string=lambda: body)
    o = v.call(getter(v, B + ':BodyMixin.POST'), me)
    v.check('no exception', o.ok)
    post = o.value
    v.check('the body is parsed once, into the mapping', len(calls) == 1 and calls[0][0] is text and set(calls[0][1]) == {'setitem'} and any(post is m for m in made) and calls[0][1]['setitem'] is post.attrs['__setitem__'])
    v.check('which is the forms', env.get('ombott.request.forms') is post)
    v.check('no files', any(env.get('ombott.request.files') is m for m in made) and env['ombott.request.files'] is not post)
    v.cover('parsed')


def forms(v):
    which = v.case('property', 'forms', 'files')
    want = v.obj(which)
    env = Environ()

    def post():
        env['ombott.request.' + which] = want
        return v.obj('post')
    me = v.closed('request', environ=env, lazy={'POST': post})
    o = v.call(getter(v, f'{B}:BodyMixin.{which}'), me)
    v.check('what POST has put there', o.ok and o.value is want)
    v.cover(which)


def params(v):
    q, a, b = v.obj('query'), v.obj('a'), v.obj('b')
    made = []

    def factory(*x, **k):
        made.append((x, k, v.obj('combined')))
        return made[-1][2]
    me = v.obj('request', query=q, forms={'a': a, 'b': b}, _forms_factory=factory)
    o = v.call(getter(v, P + ':PropsMixin.params'), me)
    if not (o.ok and len(made) == 1 and len(made[0][0]) == 1 and made[0][0][0] is q):
        raise Misfit('how params is put together')
    v.check('the query with every form value on top', o.value is made[0][2] and made[0][1] == {'a': a, 'b': b})
    v.cover('params')



def changed(v):
    """request[key] = value: what was derived from the old value is derived anew"""
    Q = 'ombott.request_pkg.request'
    key, deps = v.case('key', ('wsgi.input', ('forms', 'files', 'params', 'post', 'json', 'body', 'body_error')), ('QUERY_STRING', ('query', 'params')),
                       ('HTTP_COOKIE', ('cookies', 'headers')), ('HTTP_X', ('headers',)))
    was = v.case('before', 'absent', 'other')
    old, new = v.str('old value'), v.str('new value')
    v.assume(old.z != new.z)
    env = Environ({key: old} if was == 'other' else {})
    filled = v.case('derived values', 'present', 'absent')
    names = ('forms', 'files', 'params', 'post', 'json', 'body', 'body_error', 'query', 'headers', 'cookies')
    if filled == 'present':
        for n in names:
            env['ombott.request.' + n] = v.obj(n)
    env.setdefault('ombott.request.readonly', None)
    cls = real(Q + ':BaseRequest')
    me = v.obj('request', cls, environ=env, _env_get=env.get)
    me.attrs['__listeners__'] = {'env_changed': [v.fn(Q + ':BaseRequest._on_env_changed')]}
    o = v.call(v.fn(Q + ':BaseRequest.__setitem__'), me, key, new)
    v.check('no failure', o.ok)
    v.check('the new value is stored', env.get(key) is new)
    for n in deps:
        v.check(f'{key}: nothing derived from the old value stays', 'ombott.request.' + n not in env)
    v.cover(key)


def to_case(m):
    q = m.get('qs')
    return ('raw-strings', (q,)) if isinstance(q, str) and len(q) < 2000 else None


SCAN = [Proof(f'parse_qsl, {m}', lambda v, m=m: scanner(v, m), covers=('pair', 'value', 'empty value', 'end'), to_case=to_case, exact=True) for m in ('setitem', 'append', 'container')]
PROMOTE = Proof('parse_qsl.add', promote, covers=('0', '1', 'more'))
QUERY = Proof('request.query', query, covers=('absent', 'empty', 'parsed'))
POST = Proof('request.POST, urlencoded', urlencoded, covers=('parsed',))
FORMS = Proof('request.forms, request.files', forms, covers=('forms', 'files'))
PARAMS = Proof('request.params', params, covers=('params',))
CHANGED = Proof('request[key] = value', changed, covers=('wsgi.input', 'QUERY_STRING', 'HTTP_COOKIE', 'HTTP_X'))
C18 = [CHANGED, *SCAN, PROMOTE, QUERY, POST, FORMS, PARAMS]
