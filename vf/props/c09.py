"""C09 each response depends on its own request only; retained state is bounded."""
import gc, itertools, weakref
from ..core import B
from .. import wsgi, scen

LEVEL = 'other'


def serve(app, om, kind, i):
    return scen.result(wsgi.call(app, scen.request(om, kind, i)))


def reference(kind, i):
    return scen.alone(kind, i)


def ev_history(case):
    import ombott as om
    case = [(k, i) if isinstance(k, str) else tuple(k) for i, k in enumerate(case)]
    refs = [reference(k, i) for k, i in case]
    scen.SHARED.clear()
    seen = []
    app = scen.app(om, seen=seen)
    for n, (k, i) in enumerate(case):
        got = serve(app, om, k, i)
        if got != refs[n]:
            return f'after {case[:n]!r} the request {k!r} (number {i}) answers {got!r}, alone {refs[n]!r}'
    if seen:
        return f'{case!r}: {seen[0]!r}'


def gen_pairs(tier, rng):
    for a, b in itertools.product(scen.KINDS, repeat=2):
        yield a, b
        yield a, a, b
        # the same data again: nothing may be remembered by content
        yield (a, 1), (b, 1), (a, 1)
    for a in scen.KINDS:
        yield (a,) * 5
        yield ((a, 1),) * 4


def gen_histories(tier, rng):
    for _ in range(4000 if tier == 'quick' else 15000):
        yield tuple((rng.choice(scen.KINDS), rng.randrange(3)) for _ in range(rng.randint(3, 8)))


def ev_late(case):
    """the body of a response is read after the thread has served other requests"""
    import ombott as om
    first, others = case
    refs = [reference(*c) for c in (first,) + others]
    scen.SHARED.clear()
    app = scen.app(om)
    finish = wsgi.start(app, scen.request(om, *first))
    got = [serve(app, om, *c) for c in others]
    got.insert(0, scen.result(finish()))
    for c, g, r in zip((first,) + others, got, refs):
        if g != r:
            return f'{first!r} answered while its body is read after {others!r}: {c!r} gives {g!r}, alone {r!r}'


def gen_late(tier, rng):
    lazy = [k for k in scen.KINDS if k not in ('gen', 'yieldresp')]       # their bodies use the current request by themselves
    for a, b in itertools.product(lazy, scen.KINDS):
        yield (a, 1), ((b, 2),)
    for _ in range(500 if tier == 'quick' else 5000):
        yield (rng.choice(lazy), rng.randrange(3)), tuple((rng.choice(scen.KINDS), rng.randrange(3)) for _ in range(rng.randint(1, 4)))


def ev_retain(case):
    import ombott as om
    kinds, n = case
    scen.SHARED.clear()
    app = scen.app(om)
    alive = {}
    for count in (n, 3 * n):
        refs = []
        for i in range(count):
            env = scen.request(om, kinds[i % len(kinds)], i % 9)
            refs += [weakref.ref(env), weakref.ref(env['wsgi.input'])]
            r = wsgi.call(app, env)
            del env, r
        gc.collect()
        alive[count] = sum(r() is not None for r in refs)
    if max(alive.values()) > 6 or alive[3 * n] > alive[n] + 1 + len(kinds):
        return f'after serving requests {kinds!r}: {alive!r} per-request objects are still alive'


def gen_retain(tier, rng):
    for k in scen.KINDS:
        yield (k,), 12
    for _ in range(30 if tier == 'quick' else 300):
        yield tuple(rng.choice(scen.KINDS) for _ in range(3)), 12


from .c10 import ATTRIBUTES  # noqa: E402
BOUNDED = [
    ATTRIBUTES,
    B('pairs', gen_pairs, ev_history, target='Ombott._handle/_cast/wsgi, HTTPResponse.apply, BaseRequest._raise, Request/Response.__init__', bound=f'all ordered pairs of {len(scen.KINDS)} request kinds on one application and thread', exhaustive=True),
    B('histories', gen_histories, ev_history, target='the same', bound='seeded random histories of 3..8 requests'),
    B('late-body', gen_late, ev_late, target='Ombott._cast (what a body that is read later depends on)', bound='all ordered pairs of request kinds, seeded longer ones: the first body is read last', exhaustive=True),
    B('retention', gen_retain, ev_retain, target='the same', bound='12 and 36 requests of each kind; objects alive after a collection'),
]

from ..contracts import state as _s  # noqa: E402
from ..contracts import app as _a  # noqa: E402
PROOFS = _s.C09 + _a.HANDLE_C09
