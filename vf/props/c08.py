"""C08 concurrent requests on one application never see each other (controlled scheduler)."""
import itertools, os, sys, threading
from ..core import B, REPO, VERIF
from .. import wsgi, scen

LEVEL = 'other'
_ref = {}
PRE = (os.path.join(os.path.abspath(REPO), 'ombott') + os.sep, os.path.join(VERIF, 'vf', 'scen.py'))


class Sched:
    """runs n threads one at a time; a segment (thread, steps) executes that many
    line events of repository or handler code in the thread, then switches"""

    def __init__(self, jobs):
        self.jobs = jobs
        self.sems = [threading.Semaphore(0) for _ in jobs]
        self.main = threading.Semaphore(0)
        self.left = [0] * len(jobs)
        self.done = [False] * len(jobs)
        self.steps = [0] * len(jobs)
        self.errors = []
        self.free = False

    def _trace(self, tid):
        def local(frame, event, arg):
            if event == 'line' and not self.free:
                self.steps[tid] += 1
                self.left[tid] -= 1
                if self.left[tid] <= 0:
                    self.main.release()
                    self.sems[tid].acquire()
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(PRE) else None
        return glob

    def _run(self, tid):
        self.sems[tid].acquire()
        sys.settrace(self._trace(tid))
        try:
            self.jobs[tid]()
        except BaseException as e:
            self.errors.append((tid, repr(e)))
        finally:
            sys.settrace(None)
            self.done[tid] = True
            self.main.release()

    def go(self, schedule):
        ts = [threading.Thread(target=self._run, args=(i,), daemon=True) for i in range(len(self.jobs))]
        [t.start() for t in ts]
        for tid, n in list(schedule) + [(i, 10 ** 9) for i in range(len(self.jobs))]:
            if self.done[tid] or n <= 0:
                continue
            self.left[tid] = n
            self.sems[tid].release()
            if not self.main.acquire(timeout=10):
                # a preempted thread holds a lock this one needs: let everything run
                self.free = True
                [s.release() for s in self.sems]
                [t.join(5) for t in ts]
                return 'stuck'
        [t.join(5) for t in ts]
        return None


def solo(kinds):
    """each request served alone; also the number of its steps"""
    import ombott as om
    out = []
    for i, k in enumerate(kinds):
        if (k, i) not in _ref:
            scen.SHARED.clear()
            app = scen.app(om)
            got = []
            s = Sched([lambda: got.append(scen.result(wsgi.call(app, scen.request(om, k, i))))])
            s.go([])
            _ref[k, i] = (scen.alone(k, i) if got else s.errors, s.steps[0])
        out.append(_ref[k, i])
    return out


def ev_first(case):
    scen.static_root()
    solo(case[0])
    with scen.fresh() as om:
        return ev(case, om)


def ev(case, om=None):
    if om is None:
        import ombott as om
    kinds, segs, warm = case
    scen.static_root()
    refs = solo(kinds)
    scen.SHARED.clear()
    seen = []
    app = scen.app(om, seen=seen)
    if warm:      # the lazily filled caches already hold something
        wsgi.call(app, scen.request(om, 'missing', 7))
        wsgi.call(app, scen.request(om, 'shared', 7))
        wsgi.call(app, scen.request(om, 'big', 7))
    got = [None] * len(kinds)

    def job(i):
        def f():
            got[i] = scen.result(wsgi.call(app, scen.request(om, kinds[i], i)))
        return f
    s = Sched([job(i) for i in range(len(kinds))])
    # a segment length is a fraction (per mille) of the thread's solo length or an absolute step count
    sched = [(t, n if n >= 0 else max(1, -n * refs[t][1] // 1000)) for t, n in segs]
    st = s.go(sched)
    if st == 'stuck':
        return None
    for i, k in enumerate(kinds):
        if got[i] != refs[i][0]:
            return f'requests {kinds!r} under schedule {sched!r}: request {i} ({k}) answers {got[i]!r}, alone {refs[i][0]!r} {s.errors!r}'
    if seen:
        return f'requests {kinds!r} under schedule {sched!r}: {seen[0]!r}'


def gen_one(tier, rng):
    """thread 0 is stopped after k steps, thread 1 runs to the end, thread 0 goes on"""
    ks = ('plain', 'plain2', 'form', 'multi', 'body', 'chunked', 'redir', 'abort', 'boom', 'gen', 'static', 'range', 'big', 'shared', 'sharederr', 'missing', 'jsonerr', 'retry', 'badpath', 'mutate', 'mutform', 'yieldresp', 'mutresp', 'h404', 'deny', 'urls', 'itcharset', 'upload', 'gensharederr')
    step = 8 if tier == 'quick' else 1
    for a in ks:
        for b in ((a, 'plain', 'big', 'retry') if tier == 'quick' else (a, 'plain', 'plain2', 'form', 'redir', 'big', 'retry', 'sharederr', 'static', 'badpath')):
            for pm in range(10 + (hash_(a + b) % step), 1000, step):
                yield (a, b), ((0, -pm), (1, 10 ** 9)), (pm // step) % 2


def hash_(s):
    return sum(ord(c) * 31 ** i for i, c in enumerate(s)) % 10007


def gen_multi(tier, rng):
    for _ in range(2000 if tier == 'quick' else 20000):
        n = rng.randint(2, 3)
        kinds = tuple(rng.choice(scen.KINDS) for _ in range(n))
        if rng.random() < .3:
            kinds = (kinds[0],) * n
        yield kinds, tuple((rng.randrange(n), rng.choice([1, 2, 3, 5, 8, 13, 40, 100, 250])) for _ in range(rng.randint(3, 40))), rng.randrange(2)


def gen_first(tier, rng):
    """first use of an application by several threads at once (lazy caches, first error page)"""
    for k in ('missing', 'shared', 'sharederr', 'big', 'plain', 'static', 'redir', 'boom'):
        for a in range(20, 1000, 40 if tier == 'quick' else 4):
            yield (k, k), ((0, -a), (1, -a), (0, 3), (1, 10 ** 9)), 0
            yield (k, k), ((0, -a), (1, 10 ** 9)), 0
    for k in ('missing', 'boom'):
        for n in range(1, 400, 3 if tier == 'quick' else 1):
            yield (k, k), ((0, n), (1, 10 ** 9)), 0


from .c10 import ATTRIBUTES  # noqa: E402
BOUNDED = [
    ATTRIBUTES,
    B('one-preemption', gen_one, ev, target='ts_props, HeaderDict, Request/Response, Ombott._handle/_cast/wsgi, _raise, apply, static_file, redirect',
      bound='two requests; the first is preempted at a source line (quick: every 1.6% of its lines, thorough: every 0.1%) and the other runs to its end'),
    B('many-preemptions', gen_multi, ev, target='the same', bound='seeded random schedules of 2..3 requests, up to 40 switches'),
    B('first-use', gen_first, ev_first, target='the same; error_render, filter and parser caches', bound='requests on a fresh application of a freshly imported library: both threads preempted at the same progress, or one of them at any source line (quick: every third)'),
]

from ..contracts import state as _s  # noqa: E402
from ..contracts import errors as _e  # noqa: E402
PROOFS = [*_s.C08, _e.SHARED_PAGE]
