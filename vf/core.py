"""Runner: bounded contracts, proof obligations, evidence, verdict."""
import ast, importlib, json, multiprocessing as mp, os, random, signal, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent-vf-pycache'   # never load a stale .pyc of /repo
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class Hang(BaseException):
    """The real code did not come back within the per-case limit."""


class Inapplicable(Exception):
    """An internal name this contract talks about no longer exists."""


def _alarm(*_):
    raise Hang()


class B:
    """A bounded contract: gen(tier, rng) -> cases (python literals),
    ev(case) -> None (holds) or a message."""

    def __init__(self, name, gen, ev, *, target, bound, exhaustive=False,
                 nontrivial=None, timeout=20.0, mode='check', shards=None, key=None):
        self.name, self.gen, self.ev = name, gen, ev
        self.target, self.bound, self.exhaustive = target, bound, exhaustive
        self.nontrivial = nontrivial
        self.timeout = timeout
        self.key = key      # finding key of a case (known findings are matched on it)


def from_repo(tb):
    """True when the innermost frame of a traceback that is neither ours nor the
    standard library belongs to /repo (the real code raised, not the harness)."""
    frames = traceback.extract_tb(tb)
    for fr in reversed(frames):
        fn = os.path.abspath(fr.filename)
        if fn.startswith(VERIF + os.sep):
            return False
        if fn.startswith(os.path.abspath(REPO) + os.sep):
            return True
    return False


def run_case(b, case):
    """-> ('ok'|'fail'|'harness'|'na', msg)"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, b.timeout)
    try:
        try:
            msg = b.ev(case)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return ('fail', msg) if msg else ('ok', None)
    except Inapplicable as e:
        return 'na', str(e)
    except Hang:
        return 'fail', f'no result within {b.timeout} s (hang)'
    except RecursionError:
        return 'fail', 'RecursionError'
    except Exception as e:
        txt = ''.join(traceback.format_exception(e))
        if from_repo(e.__traceback__):
            return 'fail', f'unexpected {type(e).__name__}: {e}\n{txt[-1500:]}'
        return 'harness', txt[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _worker(prop, bnames, tier, seed, shard, nshards, deadline, conn, stop):
    try:
        mod = importlib.import_module(f'vf.props.{prop.lower()}')
        res = {}
        bs = {b.name: b for b in mod.BOUNDED}
        for n in bnames:
            b = bs[n]
            r = res[n] = dict(evals=0, nontrivial=0, fails=[], harness=[], na=None,
                              truncated=False, samples=[], t=0.0)
            t0 = time.time()
            rng = random.Random(f'{seed}:{prop}:{n}')
            seen = set()
            for i, case in enumerate(b.gen(tier, rng)):
                if i % nshards != shard:
                    continue
                if time.time() > deadline:
                    r['truncated'] = True
                    break
                st, msg = run_case(b, case)
                r['evals'] += 1
                if st == 'na':
                    r['na'] = msg
                    break
                if b.nontrivial is None or b.nontrivial(case):
                    h = hash(repr(case))
                    if h not in seen:
                        seen.add(h)
                        r['nontrivial'] += 1
                if len(r['samples']) < 1 and i >= nshards * 5:
                    r['samples'].append(repr(case)[:300])
                if st == 'fail':
                    r['fails'].append((repr(case), msg, b.key(case, msg) if b.key else None))
                    if len(r['fails']) >= 40:
                        break
                elif st == 'harness':
                    r['harness'].append((repr(case)[:300], msg))
                    if len(r['harness']) >= 3:
                        break
            r['t'] = time.time() - t0
        conn.send(('ok', res))
    except BaseException as e:
        try:
            conn.send(('err', ''.join(traceback.format_exception(e))))
        except Exception:
            pass
    finally:
        conn.close()
        sys.stdout.flush()
        os._exit(0)


def run_bounded(prop, tier, seed, budget, nproc=8, only=None):
    mod = importlib.import_module(f'vf.props.{prop.lower()}')
    names = [b.name for b in mod.BOUNDED if not only or b.name in only]
    ctx = mp.get_context('fork')
    deadline = time.time() + budget
    procs = []
    for k in range(nproc):
        pr, pw = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_worker, args=(prop, names, tier, seed, k, nproc, deadline, pw, None))
        p.start()
        pw.close()
        procs.append((p, pr))
    total, errors = {}, []
    for p, pr in procs:
        try:
            if pr.poll(max(1, deadline + 120 - time.time())):
                st, res = pr.recv()
            else:
                st, res = 'err', 'worker did not answer'
                p.kill()
        except EOFError:
            st, res = 'err', 'worker died'
        p.join(5)
        if p.is_alive():
            p.kill()
        if st != 'ok':
            errors.append(res)
            continue
        for n, r in res.items():
            t = total.setdefault(n, dict(evals=0, nontrivial=0, fails=[], harness=[], na=None,
                                         truncated=False, samples=[], t=0.0))
            for k2 in ('evals', 'nontrivial'):
                t[k2] += r[k2]
            t['fails'] += r['fails']; t['harness'] += r['harness']
            t['samples'] = (t['samples'] + r['samples'])[:2]
            t['na'] = t['na'] or r['na']; t['truncated'] |= r['truncated']
            t['t'] = max(t['t'], r['t'])
    return total, errors


def replay_file(path):
    d = json.load(open(path))
    if 'case' not in d:
        print(json.dumps(d, indent=1)); return 0
    mod = importlib.import_module(f"vf.props.{d['property'].lower()}")
    b = {b.name: b for b in mod.BOUNDED}[d['contract']]
    st, msg = run_case(b, ast.literal_eval(d['case']))
    print(st, msg)
    return 1 if st == 'fail' else 0


def write_replay(prop, name, data):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f'{prop}-{name}.json')
    json.dump(data, open(p, 'w'), indent=1)
    return p


def confirm(path):
    """Re-run the failing case in a fresh process."""
    try:
        r = subprocess.run([sys.executable, '-m', 'vf.run', '--replay', path], cwd=VERIF,
                           capture_output=True, text=True, timeout=120)
        return r.returncode == 1
    except subprocess.TimeoutExpired:
        return True


def known_findings():
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


def main(argv):
    import shutil, tempfile
    d = tempfile.mkdtemp(prefix='vf-')
    tempfile.tempdir = d            # every scratch file of this run lives here
    try:
        if argv[:1] == ['--replay']:
            return replay_file(argv[1])
        return main_(argv)
    finally:
        shutil.rmtree(d, True)


def main_(argv):
    prop = argv[0].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    do_proof = do_bounded = True
    it = iter(argv[1:])
    for a in it:
        if a == '--tier': tier = next(it)
        elif a == '--seed': seed = int(next(it))
        elif a == '--only': only = set(next(it).split(','))
        elif a == '--no-proof': do_proof = False
        elif a == '--no-bounded': do_bounded = False
    t0 = time.time()
    mod = importlib.import_module(f'vf.props.{prop.lower()}')
    viol = []           # (name, path, suffix)
    findings_hit = {}
    notes = []
    if tier == 'quick':
        bbudget, pbudget = 60.0, 240.0
    else:
        bbudget, pbudget = 420.0, 300.0

    proof = None
    if do_proof and getattr(mod, 'PROOFS', None):
        from . import prove
        proof = prove.run(prop, mod.PROOFS, tier, pbudget)

    bres, berr = ({}, [])
    if do_bounded:
        bres, berr = run_bounded(prop, tier, seed, bbudget, only=only)
    known = [k for k in known_findings() if k.get('property') == prop and k.get('status') == 'known']

    failed = [dict(obligation=o['name'], verifier=o.get('detail', '')[:1500]) for o in (proof['refuted'] + proof['undischarged'] if proof else [])]

    def report_fail(name, case, msg, key):
        for k in known:
            if key is not None and k.get('key') == key:
                findings_hit.setdefault(k['key'], k)
                return False
        path = write_replay(prop, name, dict(property=prop, contract=name, case=case, message=msg,
                                             repo=REPO, seed=seed, tier=tier,
                                             failed_obligations=failed,
                                             replay_cmd=f'cd {VERIF} && ./check --replay <this file>'))
        if not confirm(path):
            notes.append(f'{name}: failing case did not reproduce in a fresh process: {case[:200]}: {msg[:300]}')
            return False
        viol.append((name, path, '', msg))
        return True

    for n, r in bres.items():
        for case, msg, key in sorted(r['fails'], key=lambda x: len(x[0])):
            if report_fail(n, case, msg, key):
                break
        if r['harness']:
            notes.append(f'{n}: harness error, contract not evaluated there: {r["harness"][0][1][-400:]}')
        if r['na']:
            notes.append(f'{n}: not applicable to this source: {r["na"]}')
    for e in berr:
        notes.append('worker: ' + e[-600:])

    if proof:
        refuted = proof['refuted']
        for name, case, msg, obl in proof['replayed']:
            report_fail(name, case, f'obligation {obl!r} refuted; its counterexample on the real code: {msg}', None)
        suspicious = refuted or proof['undischarged']
        if suspicious and not viol and do_bounded and tier == 'quick':
            # an obligation fails: extended counterexample search
            b2, e2 = run_bounded(prop, 'thorough', seed + 1, 150.0 if refuted or any(u.get('detail', '').startswith(('refuted', 'unknown')) for u in proof['undischarged']) else 60.0, only=only)
            for n, r in b2.items():
                for case, msg, key in sorted(r['fails'], key=lambda x: len(x[0])):
                    if report_fail(n, case, msg, key):
                        break
        if refuted and not viol:
            o = refuted[0]
            path = write_replay(prop, 'obligation', dict(
                property=prop, failed_obligations=[x['name'] for x in refuted], verifier=refuted))
            viol.append((o['name'], path, ' no-failing-input-found', o.get('detail', '')))

    # ---- evidence
    lvl = getattr(mod, 'LEVEL', 'other')
    if lvl == 'proof' and not (proof and proof['obligations'] == proof['discharged'] > 0):
        lvl = 'other'        # not every obligation was discharged on this source
    evals = sum(r['evals'] for r in bres.values())
    cov = dict(
        bounded=[dict(contract=n, label='bounded (not a proof)',
                      target=next(b.target for b in mod.BOUNDED if b.name == n),
                      bound=next(b.bound for b in mod.BOUNDED if b.name == n),
                      exhaustive_within_bound=next(b.exhaustive for b in mod.BOUNDED if b.name == n) and not r['truncated'],
                      evaluations=r['evals'], distinct_nontrivial=r['nontrivial'], truncated=r['truncated'],
                      failures=len(r['fails']), harness_errors=len(r['harness']), not_applicable=r['na'],
                      samples=r['samples'], seconds=round(r['t'], 2)) for n, r in bres.items()],
        evaluations=evals,
        distinct_nontrivial=sum(r['nontrivial'] for r in bres.values()),
        rule='cases are generated by each bounded contract (exhaustive enumeration where stated, else seeded random); distinct by value; non-trivial as each contract defines it',
        samples=[s for r in bres.values() for s in r['samples']][:6],
        notes=notes,
    )
    if proof:
        cov.update(obligations=proof['obligations'], discharged=proof['discharged'],
                   checker_cmd=f'cd {VERIF} && ./check {prop} --no-bounded',
                   trusted_base=proof['trusted'], functions_under_contract=proof['functions'],
                   by_backend=proof['backends'], solver_seconds=proof['solver_s'],
                   undischarged=proof['undischarged'], refuted=proof['refuted'],
                   proofs=proof['proofs'], paths=proof['paths'], covers=proof['covers'], cpython_crosscheck=proof['crosscheck'])
    from .notes import note
    cov['explanation'] = note(prop) + (
        f" This run: {proof['discharged']}/{proof['obligations']} obligations discharged;" if proof else '') + \
        f' {evals} bounded evaluations (bounded evaluations are never counted as proved).'
    cov['known_findings'] = sorted(findings_hit)
    ev = dict(property=prop, tier=tier, seed=seed, level=lvl, coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + (proof['assumptions'] if proof else []),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w'), indent=1, default=str)

    for k in findings_hit.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for n in notes:
        print('note:', n.replace('\n', ' | ')[:700])
    for n, r in bres.items():
        print(f"bounded {n}: {r['evals']} evaluations, {len(r['fails'])} failing, {r['t']:.1f}s" + (' (truncated)' if r['truncated'] else ''))
    if proof:
        print(f"proof: {proof['discharged']}/{proof['obligations']} obligations discharged "
              f"in {len(proof['functions'])} functions, {proof['solver_s']:.1f}s solver")
        for u in proof['undischarged']:
            print('undischarged:', u['name'], '--', u.get('detail', '')[:200])
        for u in proof['refuted']:
            print('refuted:', u['name'], '--', u.get('detail', '')[:600])
    print(f'wall {time.time()-t0:.1f}s')
    if viol and failed:
        print('obligations that fail on this source: ' + '; '.join(o['obligation'] for o in failed[:20]))
    for name, path, suf, msg in viol:
        print(f'failed {name}: {msg[:1500]}')
    for name, path, suf, msg in viol[:1]:
        print(f'VIOLATION property={prop} replay={path}{suf}')
    return 1 if viol else 0
