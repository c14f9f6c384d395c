"""PyVC engine: path exploration by re-execution, proof obligations, solvers."""
import subprocess, sys, tempfile, time, os
import z3


class PathEnd(BaseException):
    """this path ends here (loop back edge reached, infeasible, contract says stop)"""


class Unsupported(BaseException):
    """a construct outside the supported subset: the proof is not done (never a violation)"""


class Misfit(BaseException):
    """the contract no longer fits the source (loop, variable or function gone)"""


class Budget(BaseException):
    pass


CUR = None       # engine of the running proof


def E():
    if CUR is None:
        raise Unsupported('symbolic value used outside a proof')
    return CUR


class Engine:
    def __init__(self, name, budget=60.0, solver_ms=6000, unroll=None, max_paths=4000):
        self.name, self.deadline = name, time.time() + budget
        self.solver_ms, self.unroll, self.max_paths = solver_ms, unroll, max_paths
        self.obls = {}              # name -> dict(status, instances, ...)
        self.covers = {}            # name -> bool
        self.trusted, self.functions, self.assumptions = {}, {}, set()
        self.paths = self.ended = 0
        self.solver_s = 0.0
        self.backend = {'z3': 0, 'cvc5': 0}
        self.axioms = []            # background axioms (z3 formulas)
        self.models = []
        self._work = [[]]
        self.fresh_n = 0
        self.qcache = {}
        self.feas_ms = 1500         # an undecided branch is explored

    # -- path exploration
    def explore(self, body):
        global CUR
        CUR = self
        try:
            while self._work:
                if time.time() > self.deadline:
                    raise Budget('time budget')
                if self.paths >= self.max_paths:
                    raise Budget(f'more than {self.max_paths} paths')
                self.prefix = self._work.pop()
                self.pos = 0
                self.pc = []
                self.comp = {}
                for a in self.axioms:
                    self._link(a)
                self.inputs = {}
                self.fresh_n = 0
                self.serial = 0
                self.frames = []
                self.raised = []
                self.inductive = 0
                self.memo = {}
                self.paths += 1
                try:
                    body()
                except PathEnd:
                    self.ended += 1
        finally:
            CUR = None

    def fork(self, cond):
        """-> bool; both outcomes are explored when feasible"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self._push(cond if d else z3.Not(cond))
            return d
        if time.time() > self.deadline:
            raise Budget('time budget')
        t = self._feasible(cond)
        f = self._feasible(z3.Not(cond))
        if t and f:
            self._work.append(self.prefix[:self.pos] + [False])
        elif not t and not f:
            raise PathEnd()          # the path condition itself is unsatisfiable
        d = t
        self.prefix = self.prefix[:self.pos] + [d]
        self.pos += 1
        self._push(cond if d else z3.Not(cond))
        return d

    def choose(self, n, what=''):
        """an unconstrained choice among n alternatives, all explored"""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            return d
        for k in range(n - 1, 0, -1):
            self._work.append(self.prefix[:self.pos] + [k])
        self.prefix = self.prefix[:self.pos] + [0]
        self.pos += 1
        return 0

    def _push(self, c):
        self.pc.append(c)
        self._link(c)

    # -- queries: only the assertions connected to the question through shared symbols
    def _link(self, c):
        sy = symbols(c)
        home = None
        for n in sy:
            k = self.comp.get(n)
            if k is None or k is home:
                continue
            if home is None:
                home = k
                continue
            if len(k[0]) > len(home[0]):
                home, k = k, home
            home[0].extend(k[0])
            home[1].update(k[1])
            for m in k[1]:
                self.comp[m] = home
        if home is None:
            home = ([], set())
        home[0].append(c)
        for n in sy:
            if n not in home[1]:
                home[1].add(n)
            self.comp[n] = home

    def slice(self, c):
        out, seen = [], []
        for n in symbols(c):
            k = self.comp.get(n)
            if k is not None and not any(k is x for x in seen):
                seen.append(k)
                out += k[0]
        return out

    def _sat_pc(self, c, ms=1500):
        return self._sat(self.slice(c) + [c], ms)[0]

    def components(self):
        seen = {}
        for k in self.comp.values():
            seen[id(k)] = k[0]
        return list(seen.values())

    def _sat(self, cs, ms, seed=None):
        """z3 result for a conjunction, cached"""
        key = (frozenset(x.get_id() for x in cs), seed)
        hit = self.qcache.get(key)
        if hit is not None and (hit[0] != z3.unknown or hit[3] >= ms):
            return hit[0], hit[1]
        if cs and self._contradicts(cs[-1], {x.get_id() for x in cs[:-1]}):
            self.qcache[key] = (z3.unsat, None, list(cs), ms)
            return z3.unsat, None
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', int(ms))
        if seed is not None:
            s.set('random_seed', seed)
        s.add(*cs)
        r = s.check()
        m = None
        if r == z3.sat:
            try:
                m = s.model()
            except z3.Z3Exception:
                pass
        self.solver_s += time.time() - t0
        self.qcache[key] = (r, m, list(cs), ms)      # the list keeps the ast ids alive
        return r, m

    def _contradicts(self, c, known):
        """the negation of c is literally one of the known formulas"""
        if z3.is_not(c) and c.arg(0).get_id() in known:
            return True
        if z3.is_or(c):
            return all(self._contradicts(x, known) for x in c.children())
        if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_SEQ_CONTAINS and z3.is_string_value(c.arg(1)):
            from .values import from_z3_string, sval
            if any(z3.Not(z3.Contains(c.arg(0), sval(x))).get_id() in known for x in set(from_z3_string(c.arg(1)))):
                return True
        return z3.Not(c).get_id() in known

    def _feasible(self, c):
        if z3.is_true(c):
            return True
        return self._sat(self.slice(c) + [c], self.feas_ms)[0] != z3.unsat

    def assume(self, c):
        c = z3.simplify(c) if not isinstance(c, bool) else z3.BoolVal(c)
        if z3.is_true(c):
            return
        bad = z3.is_false(c) or not self._feasible(c)
        self._push(c)
        if bad:
            raise PathEnd()

    def add(self, c):
        """a definitional fact about a fresh symbol (no feasibility query)"""
        self._push(c)

    # -- fresh symbols
    def fresh(self, name):
        self.fresh_n += 1
        return f'{name}!{self.fresh_n}'

    # -- obligations
    def check(self, name, goal, inductive=None):
        ind = bool(self.inductive) if inductive is None else inductive
        o = self.obls.setdefault(name, dict(name=name, instances=0, discharged=0, status='discharged', detail='', inductive=False, backend={}))
        o['instances'] += 1
        o['inductive'] |= ind
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if o['status'] == 'refuted':
            self._push(goal)
            if not self._feasible(z3.simplify(goal)):
                raise PathEnd()
            return False
        st, by, model, detail = self._prove(goal)
        if st == 'discharged':
            o['discharged'] += 1
            o['backend'][by] = o['backend'].get(by, 0) + 1
            self.backend[by] = self.backend.get(by, 0) + 1
        else:
            if o['status'] != 'refuted':
                o['status'] = st
                o['detail'] = detail
                o['model'] = model
        dead = st != 'discharged' and not self._feasible(z3.simplify(goal))
        self._push(goal)
        if dead:
            raise PathEnd()
        return st == 'discharged'

    def _prove(self, goal):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return 'discharged', 'z3', None, ''
        ng = z3.Not(g)
        part = self.slice(ng) + [ng]
        r, m = self._sat(part, self.solver_ms)
        if r == z3.unsat:
            return 'discharged', 'z3', None, ''
        if r == z3.sat and len(part) < len(self.pc) + 1:
            # is the rest of the path condition feasible at all?
            have = {x.get_id() for x in part}
            for grp in self.components():
                if grp[0].get_id() in have:
                    continue
                r2, _ = self._sat(grp, self.solver_ms)
                if r2 == z3.unknown:
                    r2, _ = self._sat([c for c in grp if not has_quant(c)], self.solver_ms) if any(map(has_quant, grp)) else (r2, None)
                if r2 == z3.unknown:
                    s = z3.Solver()
                    s.add(*grp)
                    c = cvc5_unsat(s.to_smt2(), max(2.0, min(20.0, self.deadline - time.time())))
                    if c == 'unsat':
                        return 'discharged', 'cvc5', None, ''
                    if c != 'sat':
                        return 'unknown', None, None, 'feasibility of the path is unknown'
                if r2 == z3.unsat:
                    return 'discharged', 'z3', None, ''
            # a full model for the counterexample
            r2, m2 = self._sat(self.axioms + self.pc + [ng], self.solver_ms)
            if r2 == z3.unsat:
                return 'discharged', 'z3', None, ''
            if m2 is not None:
                m = m2
        smt, reason = None, ''
        if r == z3.unknown:
            r, m = self._sat(part, self.solver_ms, 7)
            if r == z3.unsat:
                return 'discharged', 'z3', None, ''
        if r == z3.unknown:
            s = z3.Solver()
            s.add(*part)
            smt = s.to_smt2()
        if r == z3.unknown:
            c = cvc5_unsat(smt, max(2.0, min(20.0, self.deadline - time.time())))
            if c == 'unsat':
                return 'discharged', 'cvc5', None, ''
            return 'unknown', None, None, f'z3: {reason}; cvc5: {c}'
        vals = {}
        for n, sym in self.inputs.items():
            try:
                vals[n] = sym.concrete(m)
            except Exception as e:
                vals[n] = f'<{e!r}>'
        return 'refuted', None, vals, 'counterexample: ' + repr(vals)[:800]

    def cover(self, name):
        if self.covers.get(name):
            return
        for grp in self.components():
            r, _ = self._sat(grp, 1500)
            if r == z3.unknown:
                # unknown counts as reached only when the quantifier-free part is satisfiable
                r, _ = self._sat([c for c in grp if not has_quant(c)], 3000)
            if r != z3.sat:
                self.covers.setdefault(name, False)
                return
        self.covers[name] = True

    # -- heap bookkeeping
    def new_serial(self):
        self.serial += 1
        return self.serial

    def note_write(self, obj):
        for fr in self.frames:
            if obj.serial < fr.serial and not any(obj is m for m in fr.modifies):
                raise Unsupported(f'loop {fr.name}: {obj!r} is modified but not in the loop frame')


_sym_cache = {}


def symbols(e):
    """uninterpreted constants and functions of a formula"""
    k = e.get_id()
    hit = _sym_cache.get(k)
    if hit is not None:
        return hit[0]
    out = set()
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        h = _sym_cache.get(i)
        if h is not None:
            out |= h[0]
            continue
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            todo += x.children()
    out = frozenset(out)
    _sym_cache[k] = (out, e)
    return out


def has_quant(e):
    todo = [e]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo += x.children()
    return False


def cvc5_unsat(smt, limit):
    smt = '(set-logic ALL)\n' + '\n'.join(l for l in smt.split('\n') if not l.startswith('(set-info') and not l.startswith('(set-logic'))
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(smt)
    try:
        r = subprocess.run(['cvc5', '--strings-exp', f'--tlimit={int(limit * 1000)}', f.name], capture_output=True, text=True, timeout=limit + 5)
        out = r.stdout.strip().split('\n')[0]
        return out if out in ('sat', 'unsat', 'unknown') else ('error ' + (r.stdout + r.stderr)[:100])
    except (subprocess.TimeoutExpired, OSError) as e:
        return repr(e)[:60]
    finally:
        os.unlink(f.name)
