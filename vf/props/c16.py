"""C16 static_file never serves a file outside its root."""
import itertools, os, shutil, sys, tempfile
from ..core import B
from .. import wsgi

LEVEL = 'proof'
OPENED = None


def _audit(event, args):
    if OPENED is not None and event in ('open', 'os.listdir', 'os.scandir', 'shutil.copyfile'):
        OPENED.append(args[0])


_installed = False
TREE = None
FILES = {}


def tree():
    """base/{root/..., decoys}; every file has unique content"""
    global TREE, _installed
    if not _installed:
        sys.addaudithook(_audit)
        _installed = True
    if TREE and TREE[0] == os.getpid():
        return TREE[1]
    d = os.path.realpath(tempfile.mkdtemp(prefix='vf-c16-'))
    FILES.clear()
    for p in ['root/a.txt', 'root/sub/b.txt', 'root/sub/deep/c.html', 'root/...', 'root/..a', 'root/a..', 'root/sub/.hid', 'root/x\\y.txt', 'root/~', 'root/%2e%2e', 'root/sp ace.txt', 'root/é.txt', 'root/root/a.txt',
              'root/base/root2/a.txt', 'a.txt', 'b.txt', 'secret', 'root2/a.txt', 'root2/sub/b.txt', 'rootx', 'roo/a.txt', 'root.txt', 'root a/a.txt', 'Root/a.txt', 'root-old/a.txt', 'sub/b.txt', 'root\\a.txt', 'x\\y.txt', '.hid', '..a']:
        f = os.path.join(d, 'base', p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, 'wb') as fp:
            fp.write(f'content of {p}\n'.encode())
        FILES[f] = f'content of {p}\n'.encode()
    with open(os.path.join(d, 'top.txt'), 'wb') as fp:
        fp.write(b'content of top\n')
    FILES[os.path.join(d, 'top.txt')] = b'content of top\n'
    os.makedirs(os.path.join(d, 'base', 'root', 'emptydir'))
    TREE = (os.getpid(), d)
    return d


def place(d, s):
    return s.replace('@T', d)


def norm(p):
    """lexical normalisation of an absolute path, written here"""
    out = []
    for seg in p.split('/'):
        if seg == '..':
            out[-1:] = []
        elif seg not in ('', '.'):
            out.append(seg)
    return '/' + '/'.join(out)


def ev(case):
    global OPENED
    import ombott
    from ombott.response import HTTPResponse
    root, name, how, headers = case
    d = tree()
    rootp, namep = place(d, root), place(d, name)
    cwd = os.path.join(d, 'base', 'sub') if not rootp.startswith('/') else None
    rabs = norm(rootp if rootp.startswith('/') else os.path.join(d, 'base', 'sub', rootp))
    app = ombott.Ombott()
    got = []
    old = os.getcwd()
    if cwd:
        os.chdir(cwd)

    def h(path=None):
        global OPENED
        OPENED = []
        try:
            r = ombott.static_file(namep if path is None else path, root=rootp, **({'mimetype': 'text/plain'} if how != 'download' else {'mimetype': 'text/plain', 'download': True}))
        finally:
            got.append(OPENED)
            OPENED = None
        return r
    try:
        if how == 'url':
            app.route('/s/<path:path>', 'GET', h)
            r = wsgi.call(app, wsgi.environ('/s/' + namep, headers=dict(headers)))
            if not got:
                return None
        else:
            app.route('/x', 'GET', h)
            r = wsgi.call(app, wsgi.environ('/x', headers=dict(headers)))
    finally:
        OPENED = None
        os.chdir(old)
    what = f'static_file({name!r}, root={root!r}) via {how} {headers!r}'
    for p in got[0]:
        if isinstance(p, int):
            continue
        p = os.fsdecode(p)
        q = norm(p if p.startswith('/') else os.path.join(cwd or old, p))
        if not q.startswith(rabs + '/'):
            if q.endswith(('.types', '.pyc', '.py')) or '/mime' in q:
                continue
            return f'{what}: opened {p!r}, outside {rabs!r}'
    if r.escaped is not None:
        return f'{what}: {r.escaped!r}'
    inside = {c for f, c in FILES.items() if f.startswith(rabs + '/')}
    allf = set(FILES.values())
    if r.code == 200:
        if r.body not in inside:
            return f'{what}: served {r.body[:100]!r}'
        want = norm(rabs + '/' + namep.strip('/\\')) if how != 'url' else None
        if want and (want not in FILES or not want.startswith(rabs + '/')) and r.body not in inside:
            return f'{what}: served {r.body!r}, the name denotes {want!r}'
    elif r.code in (206, 304):
        if how != 'url' and norm(rabs + '/' + namep.strip('/\\')) not in FILES:
            return f'{what}: {r.status}'
        if r.code == 206 and not any(r.body in c for c in inside):
            return f'{what}: {r.body!r}'
    elif r.code not in (403, 404):
        if r.code == 416 and 'Range' in dict(headers) or r.code == 500 and (how == 'download'):
            pass
        else:
            return f'{what}: {r.status} {r.errors[-400:]}'
    if r.code in (403, 404, 500) and any(c.strip() in r.body for c in allf):
        return f'{what}: {r.status} carries file contents'
    # vacuity: a plain name of an existing file inside is served
    plain = rabs + '/' + name
    if r.code != 200 and not headers and how == 'call' and plain in FILES and plain.startswith(rabs + '/') and all(s not in ('', '.', '..') for s in name.split('/')) and '\\' not in name:
        return f'{what}: {r.status}, an ordinary file inside the root'


ROOTS = ['@T/base/root', '@T/base/root/', '@T/base/root//', '../root', '../root/', '@T/base/./root', '@T/base/sub/../root', '@T/base/root/sub', '@T/base/nosuch', '@T/base/root/../root/', '../../base/root', './../root/./', '@T/base/root/sub/..', '//@T/base/root', '@T/base/root ', '@T/base/root\t', ' ../root', '@T/base/ROOT', '@T/base/root\\', '~/root', '@T/base/root*']
SEGS = ['a.txt', 'sub', '..', '.', '', 'root', 'root2', 'b.txt', '...', 'rootx']


def gen_seg(tier, rng):
    for n in range(1, 4 if tier == 'quick' else 5):
        for segs in itertools.product(SEGS, repeat=n):
            for sep in ('/', '\\'):
                if n == 1 and sep == '\\':
                    continue
                yield ROOTS[0], sep.join(segs), 'call', ()
    for n in range(1, 4):
        for segs in itertools.product(['a.txt', 'sub', '..', 'root2', ''], repeat=n):
            for r in ROOTS[1:]:
                yield r, '/'.join(segs), 'call', ()


SPECIAL = ['', '/', '//', '\\', '.', '..', '../', '/..', '../..', '..\\', '\\..', '..\\..\\a.txt', '..\\root2\\a.txt', '../root2/a.txt', '../rootx', '../root.txt', '../roo/a.txt', '../root a/a.txt', '../Root/a.txt', '../root-old/a.txt', '../root/a.txt',
           '../root', '../root/', '@T/base/secret', '/@T/base/secret', '//@T/base/secret', '@T/base/root2/a.txt', '@T/base/root/a.txt', '@T/top.txt', '/etc/passwd', 'etc/passwd', '//etc/passwd', '../../../../../../../../etc/passwd', '/../../../../../../../../etc/passwd',
           'sub/../../root2/a.txt', 'sub/../../../top.txt', 'sub/deep/../../../secret', 'sub//b.txt', 'sub/./b.txt', './a.txt', 'a.txt/', 'a.txt/.', 'a.txt/..', 'a.txt/../../secret', '/a.txt', '//a.txt', '\\a.txt', 'a.txt\\', '/sub/b.txt', 'a.txt\0', '../secret\0.txt', 'a.txt\0../secret', '\0', '\ud800',
           '..\0', '..%2fsecret', '%2e%2e/secret', '%2e%2e', '..;/secret', '....//secret', '..../secret', '.../...//secret', '..a', 'a..', '...', '.. /secret', ' ../secret', '../ secret', '~', '~/secret', '~root', 'x\\y.txt', '../x\\y.txt', '../root\\a.txt', 'C:\\a.txt', 'file:///etc/passwd',
           'emptydir', 'emptydir/', 'sub', 'sub/', 'nosuch', 'nosuch/../a.txt', 'nosuch/../../secret', '../nosuch/../secret', 'a' * 300, '../' * 40 + 'etc/passwd', '../' * 2000 + 'etc/passwd', '/./../secret', '/.//..//secret', '\\/../secret', '/\\/..\\/secret', '\\\\..\\secret', '/\\../secret', '..//secret', './/..//secret', '.\\..\\secret',
           '../base/secret', '../../base/secret', '../../base/root/a.txt', '../../top.txt', 'root/a.txt', 'base/root2/a.txt', 'é.txt', 'sp ace.txt', '/dev/null', 'dev/null', '../root2', '../root2/', '-', '*', '..\r\n', '../secret\n', '\n', '@T/base/root/../secret', '@T/base/root2', '/@T/base/root/../root2/a.txt', '../root/../root2/a.txt', '../root/../secret']


def gen_special(tier, rng):
    for n in SPECIAL:
        for r in ROOTS:
            yield r, n, 'call', ()
        if '\ud800' not in n:
            yield ROOTS[0], n, 'url', ()
        yield ROOTS[0], n, 'download', ()
        yield ROOTS[0], n, 'call', (('Range', 'bytes=0-3'),)
        yield ROOTS[0], n, 'call', (('If-Modified-Since', 'Thu, 01 Jan 2099 00:00:00 GMT'),)


def gen_random(tier, rng):
    bits = SEGS + ['/', '/', '/', '\\', '//', '..', '..', '../', '@T/base/', 'root', '2', 'secret', '.txt', '\0', ' ', '%2f', 'a.txt', '@T']
    for _ in range(4000 if tier == 'quick' else 100000):
        yield rng.choice(ROOTS), ''.join(rng.choice(bits) for _ in range(rng.randint(1, 8))), rng.choice(['call', 'call', 'url']), ()


BOUNDED = [
    B('segments', gen_seg, ev, target='static_file', bound='all names of <=3 (thorough 4) segments over 10, both separators; 5-segment subset under 20 spellings of the root', exhaustive=True),
    B('special-names', gen_special, ev, target='static_file', bound='110 hand-picked names x 21 roots, also through a URL, as download, with Range and If-Modified-Since', exhaustive=True),
    B('random-names', gen_random, ev, target='static_file', bound='seeded random'),
]

from ..contracts import static as _c
PROOFS = [_c.STATIC_ROOT]
