"""Contracts of the header store and the emitted header list (C14)."""
from ..pyvc.facade import *

H = 'ombott.common_helpers'
R = 'ombott.response'
CTL = '\r\n\0'


def clean(z):
    return And([Not(z3.Contains(z, sval(c))) for c in CTL])


class Other:
    """a value of a type headers do not take"""


def any_value(v):
    """a header value of any type; -> (value, its text or None when the type is refused)"""
    def lying(n, t):
        def f():
            s = v.str('text')
            o = v.obj(n, Other, __str__=lambda: s, _isinstance=lambda ts: any(issubclass(t, q) for q in ts), inline=False)
            return o, s
        return f
    return v.either('value',
                    lambda: (lambda s: (s, s))(v.str('value')),
                    lambda: (lambda i: (i, str_of(i)))(v.int('value')),
                    lambda: (None, lift('None')),
                    lambda: (True, lift('True')),
                    lying('an int with its own __str__', int), lying('a str with its own __str__', str), lying('a float', float),
                    lambda: (v.bytes('value'), None),
                    lambda: (v.obj('an object', Other, inline=False, _isinstance=lambda ts: object in ts), None))


def hval(v):
    val, text = any_value(v)
    o = v.call(v.fn(H + ':_hval'), val)
    if not o.ok:
        v.check('only a bad value is refused', True if text is None else Not(clean(text.z)))
        v.cover('refused')
        return
    v.check('the result is a str', isinstance(o.value, (SStr, str)) and kind_of(o.value) == 'str')
    r = lift(o.value)
    v.check('the result has no CR, LF or NUL', clean(r.z))
    v.check('the result is the text of the value', True if text is None else r.z == text.z)
    v.cover('accepted')


HVAL = Proof('_hval', hval, covers=('refused', 'accepted'))


def hval_contract(v):
    """callers see only this: the checked text, or an exception"""
    def f(value):
        if kind_of(value) is None and not isinstance(value, SObj):
            v.throw(TypeError('header value'))
        ok = v.split(z3.Bool(v.e.fresh('accepted')))
        if not ok:
            v.throw(ValueError('header value'))
        s = v.fresh_str('checked')
        s_id = s.z
        v.add(clean(s_id))
        CHECKED.append((s, value))
        return s
    CHECKED = []
    v.stub('_hval', f)
    v.contract('_hval', f)
    return CHECKED


class Store:
    """ghost header store, seen at one arbitrary key: absent, a text, or a list of texts"""

    def __init__(self, v, key):
        self.v, self.key = v, key
        self.kind = v.case('before', 'absent', 'text', 'list')
        self.old = v.fresh_str('old') if self.kind == 'text' else v.obj('old list', _isinstance=lambda ts: list in ts, append=self.appended, inline=False) if self.kind == 'list' else None
        self.new = None
        self.grown = []
        self.d = v.obj('store', get=self.get, __getitem__=self.getitem, __setitem__=self.set, __contains__=lambda k: self.kind != 'absent', setdefault=self.setdefault,
                       update=self.update, pop=lambda *a: self.update(), inline=False)

    def update(self, *a, **k):
        raise Unsupported('bulk change of the store')

    def same(self, k):
        if k is not self.key:
            raise Unsupported('another key')

    def get(self, k, d=None):
        self.same(k)
        return d if self.kind == 'absent' else self.old

    def getitem(self, k):
        self.same(k)
        if self.kind == 'absent':
            self.v.throw(KeyError('k'))
        return self.old

    def good(self, x):
        self.v.check('only checked text reaches the store', isinstance(x, (SStr, str)) and kind_of(x) == 'str' and clean(lift(x).z))

    def set(self, k, x):
        self.same(k)
        if isinstance(x, list):
            for y in x:
                if y is not self.old:
                    self.good(y)
        else:
            self.good(x)
        self.new = x

    def appended(self, x):
        self.good(x)
        self.grown.append(x)

    def setdefault(self, k, x):
        self.same(k)
        for y in (x if isinstance(x, list) else [x]):
            self.good(y)
        if self.kind != 'absent':
            return self.old
        self.new = x
        return x


def setter(which):
    def f(v):
        key = v.obj('name')
        st = Store(v, key)
        checked = hval_contract(v)
        cls = real(H + ':HeaderDict')
        me = v.obj('headers', cls, _ts=v.obj('_ts', dict=st.d))
        val = v.obj('value', inline=False, _isinstance=lambda ts: False)
        many = which == 'setdefault' and v.case('a list', False, True)
        if many:
            n = v.case('how many', 0, 1, 2)
            val = [v.obj(f'value {i}', inline=False, _isinstance=lambda ts: False) for i in range(n)]
        o = v.call(v.fn(f'{H}:HeaderDict.{which}'), me, key, val)
        ck = [c[0] for c in checked]
        if not o.ok:
            v.check('a refused value changes nothing', st.new is None and not st.grown)
            v.cover('refused')
            return
        v.check('every value is checked', [c[1] for c in checked] == (val if many else [val]))
        v.cover('accepted')
        same = lambda a, b: And(lift(a).z == b.z)
        if which == '__setitem__':
            v.check('replaced by the checked value', same(st.new, ck[0]) if isinstance(st.new, (str, SStr)) else False)
        elif which == 'append':
            if st.kind == 'absent':
                v.check('the first value', same(st.new, ck[0]) if isinstance(st.new, (str, SStr)) else (isinstance(st.new, list) and len(st.new) == 1 and same(st.new[0], ck[0])))
            elif st.kind == 'text':
                v.check('a second value, in order', isinstance(st.new, list) and len(st.new) == 2 and st.new[0] is st.old and same(st.new[1], ck[0]))
            else:
                v.check('one more value at the end', st.new is None and len(st.grown) == 1 and same(st.grown[0], ck[0]))
        else:
            if st.kind != 'absent':
                v.check('an existing value stays', st.new is None and o.value is st.old)
            elif many:
                v.check('the checked values, in order', isinstance(st.new, list) and len(st.new) == len(ck) and all(a is b for a, b in zip(st.new, ck)))
            else:
                v.check('the checked value', same(st.new, ck[0]) if isinstance(st.new, (str, SStr)) else False)
    return f


SETITEM = Proof('HeaderDict.__setitem__', setter('__setitem__'), covers=('accepted', 'refused'))
APPEND = Proof('HeaderDict.append', setter('append'), covers=('accepted', 'refused'))
SETDEFAULT = Proof('HeaderDict.setdefault', setter('setdefault'), covers=('accepted', 'refused'))


# ------------------------------------------------------------------ header attributes, constructor

def guarded_headers(v):
    """a response's header dict seen through its setters' contract"""
    log = []

    def put(how):
        def f(k, x):
            log.append((how, k, x))
            if not v.split(z3.Bool(v.e.fresh('accepted'))):
                v.throw(ValueError('header value'))
        return f

    def bulk(*a, **k):
        v.check('no unchecked bulk change of the headers', False)
    return v.obj('headers', inline=False, append=put('append'), setdefault=put('setdefault'), __setitem__=put('set'), update=bulk, get=lambda k, d=None: d), log


def attribute(v):
    h, log = guarded_headers(v)
    name, val, w = v.obj('name'), v.obj('value'), v.obj('written')
    writer = v.case('writer', False, True)
    seen = []

    def write(x):
        seen.append(x)
        return w
    write._vf = True
    me = v.obj('attribute', real(H + ':HeaderProperty'), name=name, writer=write if writer else None)
    rs = v.obj('response', headers=h)
    o = v.call(v.fn(H + ':HeaderProperty.__set__'), me, rs, val)
    v.check('the value goes through the guarded item assignment of its header', len(log) == 1 and log[0][0] == 'set' and log[0][1] is name and log[0][2] is (w if writer else val))
    v.cover('set' if o.ok else 'refused')


ATTRIBUTE = Proof('HeaderProperty.__set__', attribute, covers=('set', 'refused'))


def constructor(v):
    h, log = guarded_headers(v)
    cls = real(R + ':BaseResponse')
    kind = v.case('headers', None, 'dict', 'pairs')
    more = v.case('keywords', False, True)

    def pairs(what):
        # an arbitrary collection of pairs, looked at one arbitrary element at a time
        def nxt():
            p = (v.obj('name'), v.obj('value'))
            cur.append(p)
            return p
        it = lambda: SymIter(lambda: SBool(z3.Bool(v.e.fresh('more'))), nxt)
        o = v.obj(what, inline=False, _isinstance=lambda ts: (dict in ts) if kind == 'dict' or what == 'kw' else False, __bool__=lambda: True)
        its = v.obj('items', _symiter=it)
        o.attrs['items'] = lambda: its
        if kind == 'pairs' and what == 'headers':
            o.attrs['_symiter'] = it
        return o
    cur = []
    me = v.obj('response', cls, headers=h, default_status=200)
    states = []
    # the status setter has its own contract
    v.contract('BaseResponse.status', lambda s, x: states.append(x))
    def spec():
        def inv(L):
            mine = [t for t in log if not (isinstance(t[1], str) and t[1] == 'x_any')]
            return [('every pair so far was appended, checked', len(mine) == len(cur) and all(a == 'append' and k is p[0] and x is p[1] for (a, k, x), p in zip(mine, cur)))]
        return Loop(inv, lambda L: {'name': None, 'value': None})
    v.loop('BaseResponse.__init__', 0, spec())
    f = v.fn(R + ':BaseResponse.__init__')
    kw = {}
    if more:
        # **more_headers arrives as a dict: one arbitrary entry stands for all
        kw = {'x_any': v.obj('value')}
    o = v.call(f, me, v.obj('body'), v.obj('status', __bool__=lambda: True), None if kind is None else pairs('headers'), **kw)
    v.cover('built' if o.ok else 'refused')
    st = me.attrs.get('_headers')
    v.check('nothing is stored behind the guarded setters', isinstance(st, dict) and not st)
    if o.ok and more:
        v.check('a keyword header is appended, checked', any(a == 'append' and isinstance(k, str) and k == 'x_any' and x is kw['x_any'] for a, k, x in log))


# ------------------------------------------------------------------ headerlist

WITHHELD = {204: {'content-type'},
            304: {'allow', 'content-encoding', 'content-language', 'content-length', 'content-range', 'content-type', 'content-md5', 'last-modified'}}
MAY = {204: {'content-length', 'allow', 'content-encoding', 'content-language', 'content-range', 'content-md5', 'last-modified'}, 304: {'expires'}}


def wire(v, what, r, text):
    """r is the wire form of text: Latin-1 characters that are its UTF-8 bytes"""
    if not isinstance(r, SStr) or r.kind != 'str':
        v.check(f'{what} is a native string', False)
        return
    v.check(f'{what} is encodable as Latin-1', z3.InRe(r.z, BYTES_RE))
    v.check(f'{what} decodes back as UTF-8', And(DECABLE8(r.z), DEC8(r.z) == text.z))


def headerlist(v):
    cls = real(R + ':BaseResponse')
    code = v.int('status', 100, 999)
    items = SColl('items', inline=False)
    cookies = v.case('cookies', None, 'some')
    has_ct = v.bool('a Content-Type header is set')
    alls = []

    def every(comp):
        alls.append(comp)
        return SBool(Not(has_ct.z))
    v.e.hooks['all'] = every
    appended = []
    cur = []

    def nxt():
        s = v.fresh_str('cookie')
        v.add(ENCABLE8(s.z))
        c = v.obj('morsel', OutputString=lambda *a: s)
        cur.append(s)
        return c
    cv = v.obj('morsels', _symiter=lambda: SymIter(lambda: SBool(z3.Bool(v.e.fresh('more'))), nxt))
    jar = None if cookies is None else v.obj('cookies', inline=False, values=lambda: cv, __bool__=lambda: True)
    d = SColl('headers', inline=False, attrs=dict(items=lambda: items))
    me = v.obj('response', cls, _headers=d, _status_code=code, _cookies=jar)
    base = []

    def inv(L):
        out = L.out
        tail = list(getattr(out, 'tail', [])) if isinstance(out, SComp) else None
        if tail is None:
            raise Unsupported('the list under construction')
        if not base:
            base.append(len(tail))
        new = tail[base[0]:]
        if cur and len(new) == 1:
            name, val = new[0]
            v.check('a cookie is emitted as Set-Cookie', name == 'Set-Cookie')
            wire(v, 'a cookie', val, cur[-1])
        return [('one Set-Cookie per cookie', len(new) == len(cur))]
    v.loop('BaseResponse.headerlist', 0, Loop(inv, lambda L: {'c': None}))
    f = v.fn(R + ':BaseResponse.headerlist')
    o = v.call(f, me)
    v.check('no exception', o.ok)
    out = o.value
    if not isinstance(out, SComp):
        raise Unsupported('the header list')
    # one arbitrary stored header
    name = v.str('name')
    low = LOWER(name.z)
    multi = v.case('value', 'text', 'list')
    text = v.str('text')
    v.add(ENCABLE8(text.z))
    vals = SColl('values', inline=False, attrs=dict(_isinstance=lambda ts: list in ts)) if multi == 'list' else text
    got = out.probe((name, vals))
    if multi == 'list':
        v.check('a list of values is emitted value by value', len(got) <= 1 and all(isinstance(g, SComp) and g.src is vals for g in got))
        got = got[0].probe(text) if got else []
    must_hide = Or([And(code.z == c, low == sval(n)) for c, ns in WITHHELD.items() for n in ns])
    may_hide = Or([And(code.z == c, low == sval(n)) for c, ns in MAY.items() for n in ns])
    if got:
        v.check('entity headers forbidden for 204 and 304 are withheld', Not(must_hide))
        v.check('exactly once', len(got) == 1)
        v.check('under its name', And(lift(got[0][0]).z == name.z))
        wire(v, 'a value', got[0][1], text)
        v.cover('emitted')
    else:
        v.check('nothing else is withheld', Or(must_hide, may_hide))
        v.cover('withheld')
    tail = [t for t in getattr(out, 'tail', []) if t[0] != 'Set-Cookie']
    v.check('only a default Content-Type is added', len(tail) <= 1 and all(t[0] == 'Content-Type' and t[1] == cls.default_content_type for t in tail))
    if tail:
        v.check('no second Content-Type', Not(has_ct.z))
        v.check('no Content-Type for 204 and 304', And(code.z != 204, code.z != 304))
        # the test really looks at every name, case-insensitively
        v.check('any spelling of Content-Type counts', len(alls) == 1 and alls[0].src is d)
        x = v.str('other name')
        r = alls[0].f(x) if len(alls) == 1 else True
        v.check('any spelling of Content-Type counts (2)', zb(r) == (LOWER(x.z) != sval('content-type')))
    else:
        v.check('a response that may carry a body has a Content-Type', Or(has_ct.z, code.z == 204, code.z == 304))


CONSTRUCTOR = Proof('BaseResponse.__init__', constructor, covers=('built', 'refused'))
HEADERLIST = Proof('BaseResponse.headerlist', headerlist, covers=('emitted', 'withheld'))
PROOFS = [HVAL, SETITEM, APPEND, SETDEFAULT, ATTRIBUTE, CONSTRUCTOR, HEADERLIST]
