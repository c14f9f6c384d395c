"""Runs the proofs of one property, each in its own process."""
import importlib, multiprocessing as mp, os, sys, time, traceback


def _one(proof, scale, unroll):
    from .pyvc import engine as eng
    from .pyvc.facade import V
    e = eng.Engine(proof.id, proof.budget * scale, proof.solver_ms, unroll, proof.max_paths)
    e.axioms = proof.axioms
    err = None
    try:
        e.explore(lambda: proof.fn(V(e)))
    except eng.Unsupported as x:
        err = ('unsupported', str(x))
    except eng.Misfit as x:
        err = ('misfit', str(x))
    except eng.Budget as x:
        err = ('budget', str(x))
    except Exception as x:
        err = ('internal', ''.join(traceback.format_exception(x))[-1500:])
    obls = []
    for o in e.obls.values():
        o = dict(o)
        o['model'] = {k: repr(v) for k, v in (o.get('model') or {}).items()}
        o['raw'] = e.obls[o['name']].get('model') or {}
        obls.append(o)
    return dict(id=proof.id, obls=obls, covers=dict(e.covers), trusted=list(e.trusted), functions=list(e.functions), assumptions=list(e.assumptions),
                paths=e.paths, solver_s=e.solver_s, backend=e.backend, err=err)


def _cross(proof):
    """rewritten code against CPython on concrete arguments (lifted to symbolic constants)"""
    from .pyvc import engine as eng
    from .pyvc.facade import V, real
    from .pyvc.values import SStr, SInt, sval, Sym
    import copy, z3
    n, bad = 0, []
    for path, *args in proof.cross:
        f = real(path)
        f = getattr(f, '__func__', f)

        def run(f, a):
            try:
                r = f(*copy.deepcopy(a))
                if hasattr(r, '__next__'):
                    r = list(r)
                return ('ok', r)
            except Exception as x:
                return ('exc', type(x).__name__)
        want = run(f, args)
        got = []
        e = eng.Engine('cross', 20.0, 3000, unroll=64)

        def body():
            v = V(e)
            g = v.fn(path)
            la = []
            for i, a in enumerate(args):
                if isinstance(a, (str, bytes)):
                    x = SStr(z3.String(f'a{i}'), 'str' if isinstance(a, str) else 'bytes')
                    e.add(x.z == sval(a))
                    la.append(x)
                elif isinstance(a, int) and not isinstance(a, bool):
                    x = SInt(z3.Int(f'a{i}'))
                    e.add(x.z == a)
                    la.append(x)
                else:
                    la.append(copy.deepcopy(a))
            o = v.call(g, *la)
            if o.ok and hasattr(o.value, '__next__'):
                vals = []
                o2 = v.consume(o.value, vals.append)
                o = o2
                o.value = vals
            if not o.ok:
                got.append(('exc', type(o.exc).__name__))
                return
            sv = z3.Solver()
            sv.add(*e.pc)
            sv.check()
            m = sv.model()
            got.append(('ok', _conc(o.value, m)))
        try:
            e.explore(body)
        except (eng.Unsupported, eng.Misfit, eng.Budget) as x:
            bad.append(f'{path}{tuple(args)!r}: {x}')
            continue
        n += 1
        if any(g != want for g in got) or not got:
            bad.append(f'{path}{tuple(args)!r}: rewritten {got!r}, CPython {want!r}')
    return n, bad


def _conc(x, m):
    from .pyvc.values import Sym
    if isinstance(x, Sym):
        return x.concrete(m)
    if isinstance(x, list):
        return [_conc(y, m) for y in x]
    if isinstance(x, tuple):
        return tuple(_conc(y, m) for y in x)
    if isinstance(x, dict):
        return {k: _conc(y, m) for k, y in x.items()}
    return x


def _child(prop, pid, scale, conn):
    sys.stdout.flush()
    try:
        mod = importlib.import_module(f'vf.props.{prop.lower()}')
        proof = next(p for p in mod.PROOFS if p.id == pid)
        r = _one(proof, scale, None)
        ref = [o for o in r['obls'] if o['status'] == 'refuted']
        r['unrolled'] = None
        if proof.unroll and ((ref and all(o['inductive'] for o in ref)) or (r['err'] and r['err'][0] == 'misfit')):
            # look for a counterexample from the entry (bounded unrolling)
            u = _one(proof, 0.5, proof.unroll)
            r['unrolled'] = [o for o in u['obls'] if o['status'] == 'refuted' and not o['inductive']]
            for o in r['unrolled']:
                o['raw_case'] = None
        r['replayed'], r['spurious'] = None, []
        cand = [o for o in ref if not o['inductive']] + (r['unrolled'] or [])
        if proof.to_case:
            for o in cand:
                try:
                    c = proof.to_case(o['raw'])
                except Exception:
                    continue
                if c is None:
                    continue
                from .core import run_case
                b = {b.name: b for b in mod.BOUNDED}[c[0]]
                st, msg = run_case(b, c[1])
                if st == 'fail':
                    r['replayed'] = (c[0], repr(c[1]), msg, o['name'])
                    r['spurious'] = []
                    break
                if proof.exact:
                    # the bounded contract decides this obligation for this input, on the real code
                    r['spurious'].append(o['name'])
        r['cross'] = _cross(proof) if proof.cross else (0, [])
        for o in r['obls'] + (r['unrolled'] or []):
            o.pop('raw', None)
        conn.send(r)
    except BaseException as x:
        try:
            conn.send(dict(id=pid, fatal=''.join(traceback.format_exception(x))[-2000:]))
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


def run(prop, proofs, tier, budget, nproc=8):
    ctx = mp.get_context('fork')
    import z3  # noqa: imported before forking
    from .pyvc import facade  # noqa
    scale = 1.0 if tier == 'quick' else 4.0
    todo = [p for p in proofs if tier != 'quick' or not p.thorough]
    todo.sort(key=lambda p: -p.budget)
    running, results = [], []
    end = time.time() + budget
    while todo or running:
        while todo and len(running) < nproc:
            p = todo.pop(0)
            pr, pw = ctx.Pipe(duplex=False)
            q = ctx.Process(target=_child, args=(prop, p.id, scale, pw))
            q.start()
            pw.close()
            running.append((p, q, pr, time.time()))
        mp.connection.wait([x[2] for x in running], timeout=0.5)
        for x in running[:]:
            p, q, pr, t0 = x
            if pr.poll():
                try:
                    results.append(pr.recv())
                except EOFError:
                    results.append(dict(id=p.id, fatal='process died'))
            elif time.time() > end or time.time() - t0 > p.budget * scale * 2.5 + 60:
                results.append(dict(id=p.id, fatal='time budget'))
                q.kill()
            else:
                continue
            running.remove(x)
            q.join(5)
            if q.is_alive():
                q.kill()
            results[-1]['wall'] = round(time.time() - t0, 1)
    return merge(proofs, results)


def merge(proofs, results):
    byid = {p.id: p for p in proofs}
    out = dict(obligations=0, discharged=0, refuted=[], undischarged=[], functions=[], trusted=[], assumptions=[], backends={'z3': 0, 'cvc5': 0},
               solver_s=0.0, paths=0, covers={}, crosscheck=dict(runs=0, disagreements=[]), proofs=[], replayed=[])
    fns, tr, asm = set(), set(), set()
    for r in sorted(results, key=lambda r: r['id']):
        pid = r['id']
        if 'fatal' in r:
            out['undischarged'].append(dict(name=pid, detail=r['fatal']))
            out['obligations'] += 1
            out['proofs'].append(dict(proof=pid, status='not done', detail=r['fatal'][:300]))
            continue
        p = byid[pid]
        fns |= set(r['functions'])
        tr |= set(r['trusted'])
        asm |= set(r['assumptions'])
        out['paths'] += r['paths']
        out['solver_s'] += r['solver_s']
        for k, n in r['backend'].items():
            out['backends'][k] += n
        bad = False
        if r['err']:
            out['undischarged'].append(dict(name=pid, detail=f'{r["err"][0]}: {r["err"][1]}'))
            out['obligations'] += 1
            bad = True
        n = d = 0
        for o in r['obls']:
            n += 1
            full = f'{pid}: {o["name"]}'
            if o['status'] == 'discharged':
                if r['err']:
                    out['undischarged'].append(dict(name=full, detail='the exploration is incomplete'))
                else:
                    d += 1
            elif o['status'] == 'refuted' and (not o['inductive']) and o['name'] not in r.get('spurious', ()):
                out['refuted'].append(dict(name=full, detail=o['detail'], model=o.get('model')))
                bad = True
            else:
                out['undischarged'].append(dict(name=full, detail=o['status'] + ' ' + ('(inductive step) ' if o['inductive'] else '') + o['detail']))
                bad = True
        for o in r.get('unrolled') or []:
            if o['name'] in r.get('spurious', ()):
                out['undischarged'].append(dict(name=f'{pid}: {o["name"]}', detail='refuted, but the real code handles the counterexample correctly: ' + o['detail']))
                out['obligations'] += 1
                continue
            out['refuted'].append(dict(name=f'{pid}: {o["name"]}', detail='from the entry, unrolled: ' + o['detail'], model=o.get('model')))
        if r.get('replayed'):
            out['replayed'].append(r['replayed'])
        out['obligations'] += n
        out['discharged'] += d
        for c in p.covers:
            out['covers'][f'{pid}: {c}'] = bool(r['covers'].get(c))
            if not r['covers'].get(c) and not r['err']:
                out['undischarged'].append(dict(name=f'{pid}: cover {c}', detail='not reached: the contract may be vacuous'))
                out['obligations'] += 1
        if not n and not r['err']:
            out['undischarged'].append(dict(name=pid, detail='zero obligations'))
            out['obligations'] += 1
        cn, cb = r.get('cross') or (0, [])
        out['crosscheck']['runs'] += cn
        out['crosscheck']['disagreements'] += cb
        out['proofs'].append(dict(proof=pid, obligations=n, discharged=d, paths=r['paths'], seconds=r.get('wall'), solver_s=round(r['solver_s'], 2), functions=r['functions'], status='proved' if n and not bad else 'not proved'))
    for x in out['crosscheck']['disagreements']:
        out['undischarged'].append(dict(name='cpython cross-check', detail=x))
        out['obligations'] += 1
    out['functions'], out['trusted'], out['assumptions'] = sorted(fns), sorted(tr), sorted(asm)
    out['solver_s'] = round(out['solver_s'], 2)
    return out
