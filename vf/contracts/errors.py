"""Contracts of the error pages (C20)."""
import html as _html
from ..pyvc.facade import *

MARKUP = '<>"'


class Hom:
    """the image of an arbitrary text under a character-wise substitution: str.replace of one
    character is one, and so is every composition of them"""

    def __init__(self, v, m):
        self.v, self.m = v, m
        self.o = v.closed('text', str, replace=self.replace, translate=self.translate, _hom=self)

    def replace(self, old, new, count=-1):
        if not (isinstance(old, str) and len(old) == 1 and isinstance(new, str) and count == -1):
            raise Unsupported('replace')
        m = {c: t.replace(old, new) for c, t in self.m.items()}
        m.setdefault(old, new)
        return Hom(self.v, m).o

    def translate(self, table):
        if self.m or not isinstance(table, dict):
            raise Unsupported('translate')
        return Hom(self.v, {chr(k) if isinstance(k, int) else k: x if isinstance(x, str) else chr(x) for k, x in table.items()}).o


def escape(v):
    o = v.call(v.fn('ombott.common_helpers:html_escape'), Hom(v, {}).o)
    v.check('no exception', o.ok)
    if isinstance(o.value, SObj) and '_hom' in o.value.attrs:
        m = o.value.attrs['_hom'].m
        v.check('every markup character is replaced', all(c in m for c in '&<>"\''))
        v.check('each by an entity that reads back as the character', all(t.startswith('&') and t.endswith(';') and t.count('&') == 1 and t.count(';') == 1 and _html.unescape(t) == c for c, t in m.items() if c in '&<>"\''))
        v.check('other characters stay', all(c in '&<>"\'' or t == c for c, t in m.items()))
        v.cover('escaped')
    else:
        raise Unsupported('html_escape')


def escaper(v):
    """contract of html.escape / html_escape for callers"""
    seen = {}

    def f(s, quote=True):
        if isinstance(s, (str,)):
            return _html.escape(s, quote)
        if not (isinstance(s, SStr) and s.kind == 'str'):
            raise Unsupported('escape')
        k = s.z.get_id()
        if k not in seen:
            r = v.fresh_str('escaped')
            for c in '<>"\'' if quote else '<>':
                v.add(Not(z3.Contains(r.z, sval(c))))
            v.add(z3.Implies(encable(s.z), ENCABLE8(r.z)))
            seen[k] = (r, s)
        return seen[k][0]
    return f, seen


def parts_of(x):
    """the non-literal parts of a concatenation"""
    if isinstance(x, str):
        return []
    from ..pyvc.values import _flat
    return [p for p in _flat(x.z) if not z3.is_string_value(p)]


def page(v):
    ez, seen = escaper(v)
    v.stub('sanitize_html', v.closed('html', escape=ez))
    v.stub('html_escape', ez)
    v.contract('html_escape', ez)
    url = v.str('url')
    status, body = v.fresh_str('status'), v.fresh_str('body')
    mine = v.obj('never shown', inline=False)

    def missing(n):
        if n in ('exception', 'traceback'):
            v.check('exception and traceback are withheld', False)
        throw(AttributeError(n))
    e = v.closed('error', status=status, status_line=status, body=body, _missing=missing)

    o = v.call(v.fn('ombott.error_render:render'), e, url, False)
    v.check('no exception', o.ok)
    r = lift(o.value)
    for p in parts_of(r):
        if p.eq(status.z) or p.eq(body.z):
            continue
        for c in '<>':
            v.check(f'request text carries no {c!r}', Not(z3.Contains(p, sval(c))))
        # repr of a text has the very characters <, > the text has
    v.check('the page is text', r.kind == 'str')
    v.cover('rendered')


def rendering(v):
    """default_error_handler: JSON when asked for, else the page; nothing internal without debug"""
    import json as _json
    dumped = []
    text = v.fresh_str('json')

    def dumps(o, default=None, **k):
        dumped.append((o, default, k))
        return text

    v.stub('json', v.closed('json', dumps=dumps))
    calls = []
    pg = v.fresh_str('page')

    def render(*a, **k):
        calls.append(a)
        return pg
    v.stub('error_render', v.closed('error_render', render=render))
    v.contract('render', render)
    asked = v.case('json requested', True, False, None)
    sets = []
    hd = v.closed('headers', __setitem__=lambda k, x: sets.append((k, x)))
    rs = v.obj('response', headers=hd, on_set=None)
    url = v.str('url')
    rq = v.closed('request', is_json_requested=asked, url=url)
    debug = v.case('debug', False, True)
    body = v.obj('body')
    exc, tb = v.closed('exception', __repr__=lambda: v.fresh_str('repr')), v.fresh_str('traceback')
    res = v.closed('error', body=body, exception=exc, traceback=tb)
    me = v.obj('app', real('ombott.ombott:Ombott'), request=rq, response=rs, config=v.closed('config', debug=debug))
    o = v.call(v.fn('ombott.ombott:Ombott.default_error_handler'), me, res)
    v.check('no exception', o.ok)
    if asked:
        v.check('the body is what json.dumps made', o.value is text and len(dumped) == 1 and not calls)
        v.check('announced as JSON', any(k == 'Content-Type' and x == 'application/json' for k, x in sets))
        d, df, k = dumped[0] if dumped else ({}, None, {})
        v.check('the object is a plain dict of body, exception, traceback', isinstance(d, dict) and all(isinstance(x, str) for x in d) and d.get('body') is body)
        if not debug:
            v.check('exception and traceback are withheld', all(x is body or x is None or isinstance(x, (bool, int, str)) for x in d.values()))
        # a value json cannot take becomes text
        if df is not None:
            for val in (b'\xff\xfe', b'abc', object()):
                t = v.call(df, val)
                v.check('whatever json cannot take becomes text', t.ok and isinstance(t.value, str))
        else:
            v.check('whatever json cannot take becomes text', False)
        v.cover('json')
    else:
        v.check('the body is the page', o.value is pg and len(calls) == 1 and not dumped)
        v.check('rendered from this error, this URL and the debug flag', len(calls) == 1 and len(calls[0]) == 3 and calls[0][0] is res and calls[0][1] is url and calls[0][2] is debug)
        v.check('not announced as JSON', not sets)
        v.cover('page')


class SharedLines:
    """a process-wide list that other threads may fill between any two accesses; guarantee of
    every writer: the list is seen empty or complete, never in between"""

    def __init__(self, v, full=None):
        self.v, self.cur, self.full, self.n, self.faster = v, [], full, 0, False
        self.o = v.closed('the shared template lines', list,
                          __bool__=lambda: bool(self.look()), __len__=lambda: len(self.look()),
                          __iter__=lambda: iter(self.read()), __getitem__=lambda k: self.read()[k],
                          __setitem__=self.setitem, append=lambda x: self.put(self.look() + [x]),
                          extend=lambda xs: self.grow(xs), __iadd__=lambda xs: self.grow(xs),
                          clear=lambda: self.put([]), copy=lambda: list(self.read()))

    def look(self):
        if self.full is not None and not self.cur:
            self.n += 1
            if self.n > 6:
                raise Unsupported('many accesses')
            if self.v.case(f'another thread fills the list before access {self.n}', False, True):
                self.cur, self.faster = list(self.full), True
        return self.cur

    def read(self):
        c = self.look()
        if self.full is not None:
            self.v.check('the lines are read only when complete', c == self.full)
        return list(c)

    def put(self, xs):
        self.cur = xs
        if self.full is not None:
            self.v.check('what other threads can see is empty or complete', xs == [] or xs == self.full)

    def grow(self, xs):
        if not isinstance(xs, (list, tuple)):
            # list.extend draws from the iterable piecewise
            for x in xs:
                self.put(self.look() + [x])
            return
        self.put(self.look() + list(xs))

    def setitem(self, k, xs):
        if not (isinstance(k, slice) and isinstance(xs, (list, tuple))):
            raise Unsupported('item of the shared lines')
        new = list(self.look())
        new[k] = xs
        self.put(new)


def shared_page(v):
    """the page template is loaded once per process: two threads that need it first at the same
    time still see it whole, and both pages are the page"""
    ns = real('ombott.error_render:render').__globals__
    lists = [n for n, x in ns.items() if type(x) is list]
    if len(lists) != 1:
        raise Misfit('one module-level list')
    mk = dict(status='S', status_line='S', body='B', exception='E', traceback='T')
    sh = SharedLines(v)
    v.stub(lists[0], sh.o)
    f = v.fn('ombott.error_render:render')
    o = v.call(f, v.closed('error', **mk), 'http://h/u', False)
    v.check('no exception', o.ok)
    if not sh.cur:
        raise Misfit('lines kept in the module')
    again = v.call(f, v.closed('error', **mk), 'http://h/u', False)
    v.check('the second page equals the first', again.ok and again.value == o.value)
    sh.full, sh.cur = list(sh.cur), []
    w = v.call(f, v.closed('error', **mk), 'http://h/u', False)
    v.check('no exception', w.ok)
    v.check('the page is the same however the threads interleave', w.value == o.value)
    v.cover('another thread was faster' if sh.faster else 'this thread was first')


SHARED_PAGE = Proof('error_render.render (template shared by threads)', shared_page, covers=('another thread was faster', 'this thread was first'))
ESCAPE = Proof('html_escape', escape, covers=('escaped',))
PAGE = Proof('error_render.render', page, covers=('rendered',))
RENDERING = Proof('default_error_handler', rendering, covers=('json', 'page'))
PROOFS = [ESCAPE, PAGE, RENDERING]
