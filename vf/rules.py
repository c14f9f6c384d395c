"""Rules as structured values, their rendering in every syntax flavour, and the
plain rule-by-rule matcher (written from the property text, no repository code).

element: ('l', text) | ('w', name|None, filter|None, args|None)
"""
import re

PYNAME = re.compile(r'[a-zA-Z_]\w*\Z')


class Bad(Exception):
    pass


def render(elems, flavour=0):
    """rule text; flavour picks among equivalent spellings"""
    out = ['/']
    n = len(elems)
    for k, e in enumerate(elems):
        if e[0] == 'l':
            out.append(e[1])
            continue
        _, name, flt, args = e
        f = (flavour >> (2 * (k % 3))) & 3
        nxt = elems[k + 1] if k + 1 < n else None
        o, c = ('<', '>') if f % 2 == 0 else ('{', '}')
        if not flt:
            colon_ok = nxt is None or (nxt[0] == 'l' and nxt[1].startswith('/'))
            if name is None:
                if nxt is not None:     # `:` directly before `/` is a syntax error of this parser
                    raise Bad('anonymous plain wildcard must end the rule')
                out.append(':')
            elif colon_ok and f in (0, 3):
                out.append(':' + name)
            else:
                out.append(f'{o}{name}{c}')
        elif args is None:
            if name is None:
                out.append(f'{o}:{flt}{c}')
            else:
                out.append(f'{o}{name}:{flt}{c}' if f < 2 else f'{o}{name}.{flt}{c}')
        else:
            bottle = f < 2 and args and not re.search(r'[<>{}]', args)
            if name is None:
                out.append(f'{o}:{flt}:{args}{c}' if bottle else f'{o}{flt}({args}){c}')
            else:
                out.append(f'{o}{name}:{flt}:{args}{c}' if bottle else f'{o}{name}.{flt}({args}){c}')
    return ''.join(out)


def tail_literal(elems, k):
    """literal text directly after wildcard k (what a path filter must stop before)"""
    t = ''
    for e in elems[k + 1:]:
        if e[0] != 'l':
            break
        t += e[1]
    return t


def accept(e, tail, text):
    """(value, consumed) or None: what the wildcard accepts at the start of text"""
    _, name, flt, args = e
    if not text:
        return None
    if not flt:
        j = text.find('/')
        j = len(text) if j < 0 else j
        return text[:j], j
    if flt == 'int':
        m = re.match(r'-?\d+', text)
    elif flt == 'float':
        m = re.match(r'-?\d+(\.\d+)?', text)
    elif flt == 're':
        m = re.match(args, text)
    elif flt == 'path':
        m = re.match(f'.+(?={re.escape(tail)})' if tail else '.+$', text)
    else:
        raise Bad(flt)
    if not m:
        return None
    v = m.group()
    try:
        if flt == 'int':
            v = int(v)
        elif flt == 'float':
            v = float(v)
            if v in (float('inf'), float('-inf')):
                return None
    except ValueError:      # more digits than int() converts
        return None
    return v, m.end()


def match(elems, path):
    """values of the wildcards, or None"""
    i, vals = 0, []
    for k, e in enumerate(elems):
        if e[0] == 'l':
            if not path.startswith(e[1], i):
                return None
            i += len(e[1])
        else:
            r = accept(e, tail_literal(elems, k), path[i:])
            if r is None:
                return None
            vals.append(r[0])
            i += r[1]
    return vals if i == len(path) else None


def symbols(elems):
    """pattern as a sequence of literal characters and wildcards"""
    out = []
    for k, e in enumerate(elems):
        if e[0] == 'l':
            out += list(e[1])
        else:
            f = e[2]
            out.append(('w', f, tail_literal(elems, k) if f == 'path' else (e[3] if f else None)))
    return out


def shape(elems):
    return tuple(s if isinstance(s, str) else '\r' for s in symbols(elems))


def names(elems):
    return [e[1] for e in elems if e[0] == 'w']


def conflict(a, b):
    """'no' | 'yes' | 'maybe': same position, same prefix, different filter"""
    for x, y in zip(symbols(a), symbols(b)):
        xw, yw = isinstance(x, tuple), isinstance(y, tuple)
        if xw and yw:
            if x != y:
                if x[1] == y[1] and (x[2] or '') == (y[2] or ''):
                    return 'maybe'
                return 'yes'
        elif x != y:
            return 'no'
    return 'no'


def better(a, b):
    """does a win over b (both match the whole path)"""
    for x, y in zip(symbols(a), symbols(b)):
        xw, yw = isinstance(x, tuple), isinstance(y, tuple)
        if xw != yw:
            return not xw
        if x != y:
            return None
    return None


def select(rules, path):
    """index list of the rules (same pattern) selected for the stripped path + values"""
    cand = [(k, match(e, path)) for k, e in enumerate(rules)]
    cand = [(k, v) for k, v in cand if v is not None]
    if not cand:
        return None
    best = cand[0]
    for c in cand[1:]:
        if better(rules[c[0]], rules[best[0]]):
            best = c
    return [k for k, e in enumerate(rules) if shape(e) == shape(rules[best[0]])], best[1]


def named(elems, vals):
    return {n: v for n, v in zip(names(elems), vals) if n is not None}


# ------------------------------------------------------------------ generators
L, W = (lambda t: ('l', t)), (lambda n=None, f=None, a=None: ('w', n, f, a))

UNIVERSE = [
    (),
    (L('a'),),
    (L('ab'),),
    (L('a/b'),),
    (L('a/'), W('x')),
    (W('x'),),
    (W('y'), L('/b')),
    (L('a'), W('z')),
    (L('a/'), W('p'), L('/b')),
    (L('a/'), W('n', 'int')),
    (L('ab/'), W('q', 'path')),
    (L('a/'), W('m'), L('/c')),
    (L('c/'), W(None)),
    (L('b/'), W('r', 're', '[^/]+b')),
    (L('b/'), W('r', 're', '[^/]+b'), L('/c')),
    (W('x'), L('/'), W('y')),
    (L('b/'), W('f', 'float'), L('x')),
    (L('b/x'),),
    (W('p', 'path'), L('/e')),
]

SEGS = ['a', 'ab', 'abc', 'b', 'bc', 'x', 'é', '1', 'a-b', 'foo', 'fo']


def rand_rule(rng):
    elems, used = [], set()
    def nm():
        n = rng.choice(['x', 'y', 'z', 'id', 'name', None, None])
        if n in used:
            return None
        if n:
            used.add(n)
        return n
    nseg = rng.randint(0, 4)
    for s in range(nseg):
        if s:
            elems.append(L('/'))
        k = rng.random()
        if k < .45:
            elems.append(L(rng.choice(SEGS)))
        elif k < .65:
            elems.append(W(nm()))
        else:
            if rng.random() < .35:
                elems.append(L(rng.choice(SEGS)))
            f = rng.choice(['int', 'float', 're', 're', 'path', None])
            if f is None:
                n = nm() or 'w%d' % s
                if n in used and n.startswith('w') is False:
                    pass
                elems.append(W(n)); used.add(n)
            elif f == 're':
                elems.append(W(nm(), 're', rng.choice(['[^/]+', 'a*', r'\d{1,2}', '[a-z]+b', '(a|b)c?', '.*'])))
            else:
                elems.append(W(nm(), f))
            if rng.random() < .4:
                elems.append(L(rng.choice(['x', '-', '.z', 'b', 'ab'])))
                if rng.random() < .3:
                    n = 'v%d' % s
                    elems.append(W(n)); used.add(n)
    # merge adjacent literals
    out = []
    for e in elems:
        if e[0] == 'l' and out and out[-1][0] == 'l':
            out[-1] = L(out[-1][1] + e[1])
        else:
            out.append(e)
    ns = [n for n in names(out) if n]
    if len(ns) != len(set(ns)):
        return rand_rule(rng)
    if out and out[-1][0] == 'l' and out[-1][1].endswith('/'):
        return rand_rule(rng)
    if out and out[0][0] == 'l' and out[0][1].startswith('/'):
        return rand_rule(rng)
    try:
        render(out)
    except Bad:
        return rand_rule(rng)
    return tuple(out)


FILL = ['', 'a', 'b', 'ab', '1', '42', '-7', '1.5', '1.', 'é', 'a/b', '\r', 'a\rb', '\n', 'x', '٣', '-', 'foo', ' ', '%']


def rand_path(rng, rules):
    k = rng.random()
    if k < .75 and rules:
        e = rng.choice(rules)
        p = ''.join(x[1] if x[0] == 'l' else rng.choice(
            {'int': ['1', '42', '-7', 'x', '٣', '007'], 'float': ['1.5', '2', '-1.25', '1.'],
             'path': ['a', 'a/b', 'a/e/b', 'ab/b/b']}.get(x[2], FILL)) for x in e)
        if rng.random() < .3 and p:
            j = rng.randrange(len(p) + 1)
            p = p[:j] + rng.choice(['', '/', 'a', '\r', 'b', '1', 'é', '//']) + p[j + rng.randint(0, 1):]
    else:
        p = ''.join(rng.choice(['a', 'b', '/', '/', 'ab', '1', '\r', 'é', 'x', 'c', '', '\n', '-']) for _ in range(rng.randint(0, 7)))
    return '/' + p + rng.choice(['', '', '', '/', '//'])


def match_pos(elems, path):
    """cursor positions after each symbol of the rule (index 0 = before the first)"""
    i, pos = 0, [0]
    for k, e in enumerate(elems):
        if e[0] == 'l':
            if not path.startswith(e[1], i):
                return None
            for _ in e[1]:
                i += 1
                pos.append(i)
        else:
            r = accept(e, tail_literal(elems, k), path[i:])
            if r is None:
                return None
            i += r[1]
            pos.append(i)
    return pos if i == len(path) else None


# arguments of filters that a careless cache could take for each other
PAIR_CONFS = [('re', c) for c in (r'\d+', r'\D+', r'\w+', r'\W+', '[a-c]+', '[A-C]+', '[a-c]+ ', ' [a-c]+', 'a|b', 'A|B', 'ab?', 'ab*', 'ab', 'a.b', r'a\.b', 'int', 'float')] \
    + [('int', None), ('float', None), ('path', None)]
PAIR_TEXTS = ['7', '-7', '1.5', 'a', 'A', 'ab', 'abc', 'ABC', 'aBc', 'abb', 'a.b', 'axb', 'abc ', ' abc', '--', 'int', 'float', 'b', 'B', '+7', '+1.5', '1e5', '.5', '5.', '7_0', '\u0663', 'inf', 'nan', '0x1f', '1,5', '-', '--7', '-0', '007', '1.5.2', '\u00b2']


def filter_pairs():
    for p in PAIR_CONFS:
        for q in PAIR_CONFS:
            if p != q:
                yield p, q


def pair_rules(p, q):
    return [[L('a/'), W('x', *p)], [L('b/'), W('x', *q)]]
