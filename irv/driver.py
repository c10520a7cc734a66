"""Check driver: one property -> extraction, obligations, evidence, verdict."""
import os, sys, json, time, importlib, tempfile, shutil, traceback, random, signal, select, pickle, resource
from fractions import Fraction
from . import build, verify, solve
from .ir import Module
from .native import Native, Judge
from .expr import show

VERIF = build.VERIF
G = {}


def jsonable(v):
    if isinstance(v, dict): return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)): return [jsonable(x) for x in v]
    if isinstance(v, Fraction): return float(v)
    if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))): return repr(v)
    return v


def work(i, native_only=False):
    t = G['targets'][i]
    try:
        r = verify.verify_target(G['mods'][getattr(t, 'modkey', 'm')], t, G['nats'][getattr(t, 'modkey', 'm')], G['seed'], G['tier'], native_only=native_only)
        d = dict(name=t.name, about=t.about, obligations=r.obligations, discharged=r.discharged, backends=r.backends, paths=r.paths,
                 returns=r.returns, wall=round(r.wall, 2), solver=round(r.solver, 2), unsupported=r.unsupported, cover=r.cover,
                 samples=r.samples, agree=r.agree, notes=r.notes, functions=r.functions, loops=r.loops, postnames=r.postnames, variants=r.variants,
                 failing=r.failing, native_fail=r.native_fail, bounded=t.bounded,
                 refuted=[dict(kind=o.kind, where=o.where, goal=show(o.goal)[:2000], backend=b, model=str(m)[:4000]) for o, m, b in r.refuted],
                 unknown=[dict(kind=o.kind, where=o.where, goal=show(o.goal)[:600], why=w) for o, m, w in r.unknown])
        return d
    except Exception as e:
        return dict(name=t.name, error=traceback.format_exc())


def child(i, w, native_only):
    t = G['targets'][i]
    if native_only: t.bounded = t.bounded or 'the proof attempt exceeded its time limit'
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        d = work(i, native_only)
        with os.fdopen(w, 'wb') as f: pickle.dump(d, f)
    except BaseException:
        traceback.print_exc()
        os._exit(9)
    os._exit(0)


def schedule(order, procs, tier):
    """each target in its own process with a hard deadline; a target whose proof attempt overruns or dies is judged by the bounded search"""
    todo = [(i, False) for i in order][::-1]
    run = {}
    while todo or run:
        while todo and len(run) < procs:
            i, no = todo.pop()
            r, w = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                os.close(r)
                child(i, w, no)
            try: os.setpgid(pid, pid)
            except OSError: pass
            os.close(w)
            b = G['targets'][i].budget * (4 if tier == 'thorough' else 1)
            run[r] = [pid, i, no, time.time() + b * 1.5 + 45, b'']
        rd, _, _ = select.select(list(run), [], [], 0.3)
        for r in rd:
            ch = os.read(r, 1 << 16)
            if ch: run[r][4] += ch; continue
            pid, i, no, dl, buf = run.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try: yield pickle.loads(buf)
            except Exception:
                if no: yield dict(name=G['targets'][i].name, error='worker died')
                else: todo.append((i, True))
        now = time.time()
        for r in [r for r in run if run[r][3] < now]:
            pid, i, no, dl, buf = run.pop(r)
            try: os.killpg(pid, signal.SIGKILL)
            except OSError: pass
            os.close(r); os.waitpid(pid, 0)
            if no: yield dict(name=G['targets'][i].name, error='no answer in time')
            else: todo.append((i, True))


def show_result(d):
    if 'error' in d: print(d['name'], 'ERROR', d['error'])
    else:
        print('%-34s %3d/%3d obl  %6.1fs paths %d ret %d %s%s%s cover %d/%d agree %d' % (
            d['name'], d['discharged'], d['obligations'], d['wall'], d['paths'], d['returns'], d['backends'],
            ' UNSUPPORTED ' + d['unsupported'] if d['unsupported'] else '', '', d['cover'], d['samples'], d['agree']))
        for r in d['refuted'][:4]: print('     REFUTED', r['kind'], '|', r['where'][:80], '|', r['goal'][:300], '|', r['model'][:300])
        for r in d['unknown'][:4]: print('     UNKNOWN', r['kind'], r['where'][:80], r['goal'][:300], r['why'])
        for l in d['loops']: print('     LOOP', l)
        if d['failing']: print('     FAILING', d['failing']['clause'], str(d['failing'])[:600])
        if d['native_fail']: print('     NATIVE-DISAGREES', str(d['native_fail'])[:600])
    sys.stdout.flush()


def load(pid):
    sys.path.insert(0, VERIF)
    return importlib.import_module('contracts.' + pid)


def run_check(pid, tier='quick', seed=1, only=None, procs=None, verbose=False):
    t0 = time.time()
    m = load(pid)
    wd = tempfile.mkdtemp(prefix='irv-%s-' % pid)
    try:
        return _run(pid, m, wd, tier, seed, only, procs, verbose, t0)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def prepare(m, wd, native=True):
    units = getattr(m, 'UNITS', None) or {'m': dict(harness=m.HARNESS, noinline=getattr(m, 'NOINLINE', []), config=getattr(m, 'CONFIG', None), opt=getattr(m, 'OPT', []),
                                                    extra=getattr(m, 'NATIVE_EXTRA', []), srcs=getattr(m, 'NATIVE_SRCS', []))}
    mods, nats = {}, {}
    from concurrent.futures import ThreadPoolExecutor
    jobs = []
    with ThreadPoolExecutor(8) as tp:
        for k, u in units.items():
            h = os.path.join(VERIF, 'harness', u['harness'])
            w1 = os.path.join(wd, k + '.ir'); w2 = os.path.join(wd, k + '.nat')
            os.makedirs(w1); os.makedirs(w2)
            a = tp.submit(build.extract, h, w1, tuple(u.get('noinline', ())) + ('failedAssert',), u.get('config'), (), tuple(u.get('opt', ())))
            b = tp.submit(build.native, h, w2, u.get('config'), (), u.get('extra', ()), u.get('srcs', ()))
            jobs.append((k, a, b))
        for k, a, b in jobs:
            try:
                m_, n_ = Module(a.result()), Native(b.result())
            except build.BuildError as e:
                # a unit that reaches for an internal helper: without that helper there is nothing to say about it
                if not units[k].get('optional'): raise
                print('NOTE unit %s not built: %s' % (k, str(e).strip().split('\n')[-1][:200]))
                continue
            mods[k] = m_; nats[k] = n_
    return mods, nats


def _run(pid, m, wd, tier, seed, only, procs, verbose, t0):
    try:
        mods, nats = prepare(m, wd)
    except build.BuildError as e:
        print('ERROR property=%s extraction failed\n%s' % (pid, e))
        return 2
    ts = [t for t in m.TARGETS if only is None or t.name in only or any(t.name.startswith(o.rstrip('*')) for o in only if o.endswith('*'))]
    ts = [t for t in ts if getattr(t, 'modkey', 'm') in mods]
    missing = []
    for t in ts:
        if t.fn not in mods[getattr(t, 'modkey', 'm')].funcs: missing.append(t.fn)
    if missing:
        print('ERROR property=%s harness functions missing: %s' % (pid, missing)); return 2
    G.update(targets=ts, mods=mods, nats=nats, seed=seed, tier=tier)
    results = []
    order = sorted(range(len(ts)), key=lambda i: -ts[i].budget)
    for d in schedule(order, procs or min(8, max(1, len(ts))), tier):
        results.append(d)
        if verbose: show_result(d)
    errs = [d for d in results if 'error' in d]
    if errs:
        for d in errs: print('ERROR property=%s target=%s\n%s' % (pid, d['name'], d['error']))
        return 2
    return report(pid, m, results, tier, seed, t0, only)


def report(pid, m, results, tier, seed, t0, only):
    results.sort(key=lambda d: d['name'])
    findings = []
    kf = os.path.join(VERIF, 'known-findings.json')
    if os.path.exists(kf): findings = [f for f in json.load(open(kf)) if f['property'] == pid and f.get('status') == 'open']
    viol = []
    known = []
    bounded = []
    for d in results:
        bad = bool(d['refuted']) or bool(d['failing'])
        if d['bounded'] or d['unsupported'] or d['unknown']:
            bounded.append(dict(function=d['name'], reason=d['bounded'] or d['unsupported'] or '%d obligations undecided' % len(d['unknown']),
                                bound='%d concrete runs of the compiled code against the contract, sizes <= ~10' % d['samples']))
        if d['failing']:
            f = next((f for f in findings if f['target'] == d['name'] and (f.get('clause') is None or f['clause'] in d['failing']['clause'])), None)
            if f: known.append(f); continue
            viol.append((d, True))
        elif d['refuted'] and not d['bounded']:
            f = next((f for f in findings if f['target'] == d['name'] and all(f.get('clause') is None or f['clause'] in r['kind'] for r in d['refuted'])), None)
            if f: known.append(f); continue
            viol.append((d, False))
    # vacuity
    vac = [d['name'] for d in results if d['obligations'] == 0 and not d['bounded'] and not d['unsupported']]
    vac += [d['name'] + ' (no concrete run satisfied the precondition and returned)' for d in results
            if d['cover'] == 0 and not d['failing'] and not any(t.name == d['name'] and not (t.cover and t.native) for t in m.TARGETS)]
    backends = {}
    notes = {}
    fns = set()
    for d in results:
        for k, v in d['backends'].items(): backends[k] = backends.get(k, 0) + v
        for k, v in d['notes'].items(): notes[k] = notes.get(k, 0) + v
        fns |= set(d['functions'])
    solver = sum(d['solver'] for d in results)
    tot = sum(d['obligations'] for d in results); dis = sum(d['discharged'] for d in results)
    full = [d['name'] for d in results if d['obligations'] and d['obligations'] == d['discharged'] and not d['unsupported'] and not d['bounded']]
    assumptions = [
        'floating-point arithmetic is treated as exact real arithmetic (IEEE rounding, overflow, nan and signed zero are not modelled)',
        'distinct reference parameters denote distinct objects unless a contract says otherwise; container sizes at most 2^24',
        'clang front end and LLVM inlining/SROA preserve the meaning of the sources compiled by g++ for users',
        'heap allocation succeeds; new blocks are disjoint from all others',
    ] + sorted('%s (%d sites)' % (k, v) for k, v in notes.items()) + list(getattr(m, 'ASSUMPTIONS', []))
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(m, 'LEVEL', 'proof'),
              coverage=dict(obligations=tot, discharged=dis, checker_cmd='python3-vt /verif/check.py %s --tier %s --verbose' % (pid, tier),
                            trusted_base=['clang++-18 front end and opt-18 inlining/SROA', 'irv verification-condition generator (/verif/irv)',
                                          'z3 5.3.2 / cvc5 1.4.2 / polynomial normaliser', 'g++ replay build (only for failing inputs and reachability)'],
                            functions_under_contract=[d['name'] for d in results], fully_proved=full,
                            repo_functions_executed=len(fns), backends=backends, solver_seconds=round(solver, 2),
                            bounded_standins=bounded, vacuous=vac,
                            reachability={d['name']: d['cover'] for d in results},
                            native_disagreements=[d['name'] for d in results if d['native_fail']],
                            per_function={d['name']: dict(obligations=d['obligations'], discharged=d['discharged'], clauses=d['postnames'], paths=d['paths'],
                                                          loops=d['loops'], wall_s=d['wall'], solver_s=d['solver']) for d in results}),
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if only is None or viol:
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f: json.dump(jsonable(ev), f, indent=1)
    for f in known: print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    rc = 0
    for d, rep in viol:
        rp = os.path.join(VERIF, 'evidence', '%s-%s.replay.json' % (pid, d['name']))
        with open(rp, 'w') as f:
            json.dump(jsonable(dict(property=pid, target=d['name'], about=d['about'], failing=d['failing'], failed_obligations=d['refuted'],
                                    undecided=d['unknown'], replay_cmd='python3-vt /verif/check.py %s --replay %s' % (pid, rp))), f, indent=1)
        what = d['refuted'][0]['kind'] if d['refuted'] else d['failing']['clause']
        print('# %s: obligation not met: %s%s' % (d['name'], what, '' if not rep else '; failing input ' + json.dumps(jsonable(d['failing']['inputs']))[:400]))
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if rep else ' no-failing-input-found'))
        rc = 1
    if rc == 0 and vac:
        print('ERROR property=%s vacuous targets: %s' % (pid, vac)); return 2
    print('property=%s functions=%d obligations=%d discharged=%d proved-functions=%d bounded=%d wall=%.1fs' % (
        pid, len(results), tot, dis, len(full), len(bounded), time.time() - t0))
    return rc


def replay(pid, path):
    """re-run the recorded failing input against /repo's current code"""
    r = json.load(open(path))
    m = load(pid)
    if not r.get('failing'):
        print('no failing input recorded; failed obligations:', [x['kind'] for x in r['failed_obligations']]); return 0
    wd = tempfile.mkdtemp(prefix='irv-replay-')
    try:
        mods, nats = prepare(m, wd)
        t = next(t for t in m.TARGETS if t.name == r['target'])
        nat = nats[getattr(t, 'modkey', 'm')]
        o = nat.batch(t, [r['failing']['inputs']])[0]
        j = Judge(t)
        print('outcome:', o)
        if o[0] == 'ok': print('contract:', j.check(r['failing']['inputs'], o[1]))
        return 0
    finally:
        shutil.rmtree(wd, ignore_errors=True)
