"""Generating and discharging the obligations of one target; counterexample replay."""
import re, time, random, traceback, os
from fractions import Fraction
from .expr import *
from . import expr as X, solve
from .exec import *
from .exec import OS
from .contract import *
from .native import Judge


class TResult:
    def __init__(s, name):
        s.name = name; s.obligations = 0; s.discharged = 0; s.backends = {}; s.refuted = []; s.unknown = []
        s.notes = {}; s.functions = []; s.loops = []; s.paths = 0; s.wall = 0.0; s.solver = 0.0
        s.unsupported = None; s.cover = 0; s.replayed = 0; s.failing = None; s.samples = 0; s.postnames = []
        s.variants = 0; s.agree = 0; s.native_fail = None; s.returns = 0


PUN = re.compile(r"type punning (?:store|load) in (heap\d+):? \((\d+), (4|8), '([ip])'\) (?:vs|of) \[\(0, 8, 'f'\)\]")


def run_target(mod, t, budget=None, quiet=False):
    """symbolic execution; zero-filled blocks whose element type was guessed wrongly are run again with the type the code uses"""
    for _ in range(5):
        r = _run_target(mod, t, budget, quiet)
        m = PUN.match(r[0].unsupported or '') if isinstance(r, tuple) else None
        if not m: return r
        nb = int(m.group(3))
        t.opts = dict(t.opts, strides={**t.opts.get('strides', {}), m.group(1): nb}, kinds={**t.opts.get('kinds', {}), m.group(1): [(0, nb, m.group(4))]})
    return r


def _run_target(mod, t, budget=None, quiet=False):
    """symbolic execution of all variants -> list of (Obl, exec)"""
    res = TResult(t.name)
    t0 = time.time()
    deadline = t0 + (budget or t.budget)
    obls = []
    for variant in t.variants():
        ex = Exec(mod, t.opts)
        ex.deadline = deadline
        ex.hooks = list(t.hooks)
        ex.inv_templates = t.inv
        ex.target = t
        st = State()
        st.extra['view'] = t.sym_scal()
        old = t.sym_view('')
        args = []
        try:
            for p in t.params: args.append(p.make(ex, st, variant))
            prec = t.pre(Ctx(old, None, None))
            for e in prec: st.assume(e[1] if isinstance(e, tuple) else e)
            if t.defs:
                for name, e in t.defs(Ctx(old, None, None)):
                    solve.DEFINED.update(x.args[0] for x in subterms(e) if x.op == 'app' and x.args[0].endswith('!'))
                    st.assume(e); ex.note('definition of a ghost function by recursion: ' + name)
            if t.opts.get('setup'): t.opts['setup'](ex, st, args, old)
            mem0 = dict(st.mem)
            ex.mem0 = mem0
            ex.old = old
            outs = ex.run(st, t.fn, args)
            res.returns += len(outs)
            for s2, rv in outs:
                ex.cur = s2
                new = View()
                for p, a in zip(t.params, args):
                    if isinstance(p, Scalar): setattr(new, p.name, p.sym())
                    elif isinstance(p, Arr): setattr(new, p.name, p.readv(ex, s2, a.obj, t.sym_scal()))
                    else: setattr(new, p.name, p.read(ex, s2, a.obj, 0))
                r = rv
                if t.ret == 'b' and isinstance(r, E) and r.sort == 'I': r = ne(r, I(0))
                c = Ctx(old, new, r)
                c.ex = ex; c.st = s2
                n0 = len(ex.obls)
                for name, e in t.post(c):
                    ex.obls.append(Obl('post: ' + name, list(s2.pc), e, '', tuple(t.hints(c)) if t.hints else ()))
                storage_obls(ex, t, s2, new)
                if t.frame: frame_obls(ex, t, args, mem0, s2, old, new)
            if not outs and not ex.obls: pass
        except Unsupported as u:
            res.unsupported = str(u) or 'unsupported'
            if os.environ.get('IRV_TB'): traceback.print_exc()
        except RecursionError:
            res.unsupported = 'recursion limit'
        except (ValueError, TypeError, KeyError, IndexError, AttributeError, NotImplementedError, AssertionError) as u:
            # code outside the supported subset met an internal limit: no verdict from the proof, bounded stand-in instead
            res.unsupported = 'internal: %s %s' % (type(u).__name__, u)
            if os.environ.get('IRV_TB'): traceback.print_exc()
        for o in ex.obls: obls.append(o)
        for k, v in ex.notes.items(): res.notes[k] = res.notes.get(k, 0) + v
        res.functions = sorted(set(res.functions) | set(ex.functions))
        res.loops += ex.loopinfo
        res.paths += ex.npaths + 1
        res.variants += 1
        if res.unsupported: break
    res.wall = time.time() - t0
    return res, obls


def vec_leaves(p):
    if isinstance(p, Struct):
        for f in p.fs:
            for q, path in vec_leaves(f): yield q, (f.short,) + path
    elif isinstance(p, Vec): yield p, ()


def storage_obls(ex, t, s2, new):
    """every Vector parameter ends up owning one live block of its capacity, no block has two owners, and nothing else stays allocated"""
    if not t.opts.get('heap', True): return
    owners = []
    seen = False
    for p in t.params:
        if isinstance(p, Scalar): continue
        for q, path in vec_leaves(p):
            seen = True
            v = getattr(new, p.name)
            for f in path: v = getattr(v, f)
            o = v.__dict__.get('obj')
            if o is None: continue
            nm = 'storage: '
            bad = lambda what: ex.obls.append(Obl(nm + what, list(s2.pc), FALSE, q.name))
            if o in owners: bad('each block has one owner')
            owners.append(o)
            os_ = s2.mem[o]
            if not os_.alive: bad('owned block is live')
            if not o.heap: bad('owned block is heap memory'); continue
            b = v.begin
            ex.obls.append(Obl(nm + 'length within capacity', list(s2.pc), and_(le(I(0), v.len), le(v.len, v.cap)), q.name))
            ex.obls.append(Obl(nm + 'capacity is the size of the block', list(s2.pc), and_(eq(b.off, I(0)), eq(os_.size, mul(v.cap, I(q.el.size)))), q.name))
    if seen:
        for o in s2.extra.get('live', ()):
            if o not in owners: ex.obls.append(Obl('storage: nothing is leaked (%s)' % o.name, list(s2.pc), FALSE, ''))


def frame_obls(ex, t, args, mem0, s2, old, new):
    """in-mode parameters are unchanged; nothing outside the parameters is reachable by construction"""
    for p, a in zip(t.params, args):
        if isinstance(p, Scalar) or p.mode != 'in': continue
        frame_param(ex, p, getattr(old, p.name), getattr(new, p.name), s2)


def frame_param(ex, p, o, n, s2):
    nm = 'post: frame: %s is not modified' % p.name
    if isinstance(p, Struct):
        for f in p.fs: frame_param(ex, f, getattr(o, f.short), getattr(n, f.short), s2)
        return
    if isinstance(p, (Pad, Rows)): return
    if isinstance(p, Scalar):
        g = eq(o, n) if n.sort != 'B' else iff(ne(o, I(0)), n)
        if g is not TRUE: ex.obls.append(Obl(nm, list(s2.pc), g, ''))
        return
    if isinstance(p, Buf):
        g = and_(*[eq(x, y) if y.sort != 'B' else iff(ne(x, I(0)), y) for x, y in zip(o, n)])
        if g is not TRUE: ex.obls.append(Obl(nm, list(s2.pc), g, ''))
        return
    if isinstance(p, Seq):
        g = eq(o.len, n.len)
        if g is not TRUE: ex.obls.append(Obl(nm, list(s2.pc), g, ''))
        if isinstance(p, Vec) and n.__dict__.get('obj', 1) is None: return
        for f, _, q in p.el.fields:
            i = var('fr?%s' % p.name, 'I')
            a, b = o.raw(i, f), n.raw(i, f)
            if a is b: continue
            g = forall(0, mul(o.len, I(p.el.n)), lambda i: eq(o.raw(i, f), n.raw(i, f)))
            if g is not TRUE: ex.obls.append(Obl(nm, list(s2.pc), g, ''))


def discharge(t, res, obls, deadline, stop_refuted=6):
    seen = {}
    for o in obls:
        key = (o.kind, o.goal.id, tuple(sorted(p.id for p in o.pc)))
        if key in seen: continue
        seen[key] = 1
        res.obligations += 1
        if o.kind.startswith('post: '):
            if o.kind[6:] not in res.postnames: res.postnames.append(o.kind[6:])
        if len(res.refuted) >= stop_refuted:
            res.unknown.append((o, None, 'skipped after earlier refutations')); continue
        if time.time() > deadline:
            res.unknown.append((o, None, 'time budget')); continue
        s0 = sum(solve.STAT[k] for k in ('z3', 'cvc5', 'poly'))
        try:
            r = solve.prove(o.pc, o.goal, timeout=t.timeout, hints=o.hints)
        except (X.TooBig, NotImplementedError, RecursionError, MemoryError) as e:
            r = solve.Result('unknown', None, None, repr(e))
        res.solver += sum(solve.STAT[k] for k in ('z3', 'cvc5', 'poly')) - s0
        if r.status == 'proved':
            res.discharged += 1
            res.backends[r.backend] = res.backends.get(r.backend, 0) + 1
        elif r.status == 'refuted': res.refuted.append((o, r.model, r.backend))
        else: res.unknown.append((o, r.model, r.why))


def exact_query(o):
    for f in list(o.pc) + [o.goal]:
        for x in subterms(f):
            if x.op in ('forall', 'sum'): return False
            if x.op in ('v', 'app') and '!' in x.args[0] and not x.args[0].startswith('undef'): return False
            if x.op == 'app' and x.args[0] in ('sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'exp', 'log', 'pow', 'cbrt'): return False
    return True


def model_inputs(t, model):
    """concrete inputs from a solver model (vars, apps)"""
    if model is None: return None
    vs, apps = model
    d = {}
    rng = random.Random(7)
    base = t.generate(rng, 0)
    if base is None:
        return None

    def getv(n, dv):
        v = vs.get(n)
        return dv if v is None else v

    def num(k, v):
        if isinstance(v, bool): v = int(v)
        if k[0] == 'f': return float(v)
        return int(v)

    def param(p):
        if isinstance(p, Struct):
            for f in p.fs: param(f)
        elif isinstance(p, Scalar): d[p.name] = num(p.k, getv(p.name, 0))
        elif isinstance(p, Buf):
            if p.mode != 'out':
                for i, q in enumerate(p.ks): d['%s[%d]' % (p.name, i)] = num(q, getv('%s[%d]' % (p.name, i), 0))
        elif isinstance(p, Rows):
            n = getv(p.name + '.len', 0)
            if n > 256: raise OverflowError
            L = []
            for i in range(n):
                w = apps.get(p.name + '.n', {}).get((i,)) or 0
                if w > 256: raise OverflowError
                L.append([num(p.k, apps.get(p.name, {}).get((i, j)) or 0) for j in range(w)])
            d[p.name] = L; d[p.name + '.len'] = n; d[p.name + '.n'] = [len(r) for r in L]
        elif isinstance(p, Seq):
            if isinstance(p, Vec):
                n = getv(p.name + '.len', 0); c = n if p.exactcap else max(getv(p.name + '.cap', n), n)
                d[p.name + '.len'] = n; d[p.name + '.cap'] = c
            else: n = t.arr_len(p, d)
            if n > 4096: raise OverflowError
            for f, _, q in p.el.fields:
                a = apps.get(p.fname(f), {})
                dv = 0
                if p.lo is not None: dv = p.lo
                d[p.fname(f)] = [num(q, a.get((i,), dv) if a.get((i,), dv) is not None else dv) for i in range(n * p.el.n)]
    try:
        for p in t.params: param(p)
    except (OverflowError, ValueError, KeyError): return None
    for k in base:
        if k not in d: d[k] = base[k]
    return d


def search(t, nat, judge, cands, seed, nsamples, deadline):
    """try candidate inputs then random ones; returns (failing dict | None, tried, covered)"""
    rng = random.Random(seed)
    tried = covered = agree = 0
    queue = [c for c in cands if c is not None]
    first = True
    while time.time() < deadline:
        batch = []
        if first and queue:
            batch = [c for c in queue if judge.pre_ok(c)]
            first = False
        else:
            first = False
            k = 0
            while len(batch) < 100 and k < 3000 and time.time() < deadline:
                k += 1
                c = t.generate(rng, rng.choice([0, 0, 1, 1, 2, 3, 4]))
                if c is not None and judge.pre_ok(c): batch.append(c)
            if not batch: break
        if not batch: continue
        outs = nat.batch(t, batch)
        for c, o in zip(batch, outs):
            tried += 1
            if o is None: continue
            if o[0] == 'ok':
                covered += 1
                ok, clause = judge.check(c, o[1])
                if ok is False:
                    return dict(inputs=c, outcome=o[1], clause=clause), tried, covered, agree
                if ok is True: agree += 1
            elif o[0] == 'error':
                continue
            else:
                return dict(inputs=c, outcome=o[0] + ': ' + o[1], clause='terminates normally without assertion failure or memory error'), tried, covered, agree
        if tried >= nsamples: break
    return None, tried, covered, agree


def verify_target(mod, t, nat, seed=1, tier='quick', budget=None, native_only=False):
    b = budget or t.budget
    if tier == 'thorough': b *= 4
    t0 = time.time()
    s0 = dict(solve.STAT)
    res, obls = run_target(mod, t, b * 0.5) if not native_only and not t.bounded else (TResult(t.name), [])
    if not t.bounded: discharge(t, res, obls, t0 + b)
    else: res.unsupported = res.unsupported or t.bounded
    judge = Judge(t)
    ns = t.samples or (200 if tier == 'quick' else 2000)
    need = bool(res.refuted or res.unknown or res.unsupported)
    cands = []
    for o, m, _ in res.refuted + res.unknown:
        if m:
            try: cands.append(model_inputs(t, m))
            except Exception: pass
    fail = None
    if nat is not None and t.native:
        n = ns if not need else max(ns, 6000 if res.refuted else 3000)
        if t.samples: n = t.samples * (1 if tier == 'quick' else 5)
        elif t.bounded: n = max(n, 3000)
        lim = time.time() + (8 if not need else 40)
        fail, tried, cov, agree = search(t, nat, judge, cands, seed, n, lim)
        res.samples = tried; res.cover = cov; res.agree = agree
        if fail:
            if need: res.failing = fail
            else: res.native_fail = fail
    if res.failing is None:
        # a model that involves abstracted loop state, quantifiers or sums may be spurious: undecided, not refuted
        keep = []
        for r in res.refuted:
            if exact_query(r[0]): keep.append(r)
            else: res.unknown.append((r[0], None, 'not proved (counterexample to the abstraction only)'))
        res.refuted = keep
    res.wall = time.time() - t0
    return res
