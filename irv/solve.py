"""Discharging obligations: simplifier, polynomial normaliser, z3, cvc5.

Quantified facts are handled by proxies and own instantiation, so every query that
reaches a solver is ground; a `sat` answer therefore carries a model."""
import time, random, os, math
from fractions import Fraction
import z3
from .expr import *
from . import expr as X

STAT = {'z3': 0.0, 'cvc5': 0.0, 'poly': 0.0, 'queries': 0}
SQRT2 = None


class Timeout(Exception):
    pass


# ---------------------------------------------------------------- ackermann + z3 terms
class Tr:
    """translate ground E to z3 with applications replaced by constants"""

    def __init__(self):
        self.memo = {}
        self.apps = {}; self.funs = {}        # name -> list of (args, zterm, E)
        self.side = []
        self.vars = {}
        self.keep = []

    def z(self, e):
        r = self.memo.get(e.id)
        if r is not None: return r
        st = [(e, False)]
        while st:
            x, done = st.pop()
            if x.id in self.memo: continue
            ch = children(x)
            if not done:
                st.append((x, True))
                for c in ch:
                    if c.id not in self.memo: st.append((c, False))
                continue
            self.memo[x.id] = self.mk(x)
        return self.memo[e.id]

    def mk(self, e):
        op = e.op; a = e.args
        g = lambda x: self.memo[x.id]
        if op == 'c':
            if e.sort == 'I': return z3.IntVal(a[0])
            if e.sort == 'R': return z3.RealVal(str(a[0]))
            if e.sort == 'B': return z3.BoolVal(a[0])
            return z3.BitVecVal(a[0], int(e.sort[1:]))
        if op == 'v':
            n = a[0]
            if e.sort == 'I': v = z3.Int(n)
            elif e.sort == 'R': v = z3.Real(n)
            elif e.sort == 'B': v = z3.Bool(n)
            else: v = z3.BitVec(n, int(e.sort[1:]))
            self.vars[n] = (e, v)
            if e.sort == 'I':
                if e.lo is not None: self.side.append(v >= e.lo)
                if e.hi is not None: self.side.append(v <= e.hi)
            return v
        if op == 'lin':
            ts = [g(t) * (z3.IntVal(k) if e.sort == 'I' else z3.RealVal(str(k))) if k != 1 else g(t) for t, k in a[1]]
            if a[0] != 0: ts.append(z3.IntVal(a[0]) if e.sort == 'I' else z3.RealVal(str(a[0])))
            return z3.Sum(ts) if len(ts) > 1 else ts[0]
        if op == 'mul':
            r = g(a[0])
            for x in a[1:]: r = r * g(x)
            return r
        if op == 'div':
            n = '!div%d' % e.id
            v = z3.Real(n)
            self.side.append(z3.Implies(g(a[1]) != 0, v * g(a[1]) == g(a[0])))
            return v
        if op == 'idiv': return g(a[0]) / g(a[1])
        if op == 'imod': return g(a[0]) % g(a[1])
        if op == 'uns':
            x = g(a[1])
            return z3.If(x < 0, x + (1 << a[0]), x)
        if op == 'wrap':
            h = 1 << (a[0] - 1)
            # quotient as a bounded fresh integer (avoids mod)
            q = z3.Int('!wq%d' % e.id)
            r = g(a[1]) - q * (2 * h)
            self.side.append(r >= -h); self.side.append(r < h)
            return r
        if op == 'i2r': return z3.ToReal(g(a[0]))
        if op == 'floor':
            n = z3.Int('!fl%d' % e.id)
            x = g(a[0])
            self.side.append(z3.ToReal(n) <= x); self.side.append(x < z3.ToReal(n) + 1)
            return n
        if op == 'sqrt':
            v = z3.Real('!sq%d' % e.id)
            x = g(a[0])
            self.side.append(z3.Implies(x >= 0, z3.And(v >= 0, v * v == x)))
            return v
        if op == 'le0': return g(a[0]) <= 0
        if op == 'lt0': return g(a[0]) < 0
        if op == 'eq0': return g(a[0]) == 0
        if op == 'not': return z3.Not(g(a[0]))
        if op == 'and': return z3.And([g(x) for x in a])
        if op == 'or': return z3.Or([g(x) for x in a])
        if op == 'ite': return z3.If(g(a[0]), g(a[1]), g(a[2]))
        if op == 'app':
            nm = a[0]
            zs = '!app%d' % e.id
            v = z3.Int(zs) if e.sort == 'I' else z3.Real(zs) if e.sort == 'R' else z3.Bool(zs) if e.sort == 'B' else z3.BitVec(zs, int(e.sort[1:]))
            if e.sort == 'I':
                if e.lo is not None: self.side.append(v >= e.lo)
                if e.hi is not None: self.side.append(v <= e.hi)
            if nm in ('sin', 'cos'):
                pass
            L = self.apps.setdefault((nm, len(a)), [])
            if len(L) >= 24 and all(x.sort in ('I', 'R') for x in a[1:]) and e.sort in ('I', 'R'):
                # many applications: congruence by the solver instead of pairwise equations
                zsort = lambda q: z3.IntSort() if q == 'I' else z3.RealSort()
                F = self.funs.get((nm, len(a)))
                if F is None:
                    F = self.funs[(nm, len(a))] = z3.Function('!f' + nm, *[zsort(x.sort) for x in a[1:]], zsort(e.sort))
                    for args2, v2, e2 in L: self.side.append(v2 == F(*[g(x) for x in args2]))
                self.side.append(v == F(*[g(x) for x in a[1:]]))
                L.append((a[1:], v, e))
                return v
            for args2, v2, e2 in L:
                cs = []
                dead = False
                for p, q in zip(a[1:], args2):
                    c = eq(p, q)
                    if c.op == 'c':
                        if not c.args[0]: dead = True; break
                        continue
                    cs.append(g(p) == g(q))
                if dead: continue
                self.side.append(z3.Implies(z3.And(cs) if len(cs) != 1 else cs[0], v == v2))
            L.append((a[1:], v, e))
            return v
        if op == 'sum':
            v = (z3.Int if e.sort == 'I' else z3.Real)('!sum%d' % e.id)
            return v
        if op == 'forall':
            return z3.Bool('!fa%d' % e.id)
        if op == 'bveq': return g(a[0]) == g(a[1])
        if op == 'bvadd': return g(a[0]) + g(a[1])
        if op == 'bvsub': return g(a[0]) - g(a[1])
        if op == 'bvmul': return g(a[0]) * g(a[1])
        if op == 'bvand': return g(a[0]) & g(a[1])
        if op == 'bvor': return g(a[0]) | g(a[1])
        if op == 'bvxor': return g(a[0]) ^ g(a[1])
        if op == 'bvshl': return g(a[0]) << g(a[1])
        if op == 'bvlshr': return z3.LShR(g(a[0]), g(a[1]))
        if op == 'bvashr': return g(a[0]) >> g(a[1])
        if op == 'bvult': return z3.ULT(g(a[0]), g(a[1]))
        if op == 'bvule': return z3.ULE(g(a[0]), g(a[1]))
        if op == 'bvslt': return g(a[0]) < g(a[1])
        if op == 'bvsle': return g(a[0]) <= g(a[1])
        if op == 'bvzext': return z3.ZeroExt(int(e.sort[1:]) - bvw(a[0]), g(a[0]))
        if op == 'bvsext': return z3.SignExt(int(e.sort[1:]) - bvw(a[0]), g(a[0]))
        if op == 'bvextract': return z3.Extract(a[1] + int(e.sort[1:]) - 1, a[1], g(a[0]))
        if op == 'bvconcat': return z3.Concat(g(a[0]), g(a[1]))
        if op == 'bvudiv': return z3.UDiv(g(a[0]), g(a[1]))
        if op == 'bvurem': return z3.URem(g(a[0]), g(a[1]))
        raise NotImplementedError(op)


class TrLin(Tr):
    """linear abstraction: real terms are expanded to polynomials and every non-linear monomial becomes one
    unknown (squares non-negative); only an `unsat` answer is meaningful"""

    def __init__(self):
        super().__init__()
        self.P = {}
        self.atom = {}
        self.mons = {}
        self.sq = {}

    def poly_of(self, e):
        r = self.P.get(e.id)
        if r is None:
            r = self.P[e.id] = {(e.id,): Fraction(1)}
            self.atom[e.id] = self.memo[e.id]
        return r

    def pm(self, a, b):
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                for k, f in self.norm(tuple(sorted(m + n, key=str))).items():
                    v = r.get(k, 0) + c * d * f
                    if v == 0: r.pop(k, None)
                    else: r[k] = v
        if len(r) > 400: raise X.TooBig()
        return r

    def norm(self, m):
        for i in range(len(m) - 1):
            if m[i] == m[i + 1] and m[i] in self.sq:
                return self.pm({m[:i] + m[i + 2:]: Fraction(1)}, self.sq[m[i]])
        return {m: Fraction(1)}

    def lin(self, p):
        ts = []
        for m, c in p.items():
            if not m: ts.append(z3.RealVal(str(c))); continue
            if len(m) == 1: t = self.atom[m[0]]
            else:
                t = self.mons.get(m)
                if t is None:
                    t = self.mons[m] = z3.Real('!mon' + '_'.join(str(x) for x in m))
                    if len(m) % 2 == 0 and all(m[i] == m[i + 1] for i in range(0, len(m), 2)): self.side.append(t >= 0)
            ts.append(t * z3.RealVal(str(c)) if c != 1 else t)
        if not ts: return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def mk(self, e):
        if e.sort == 'R' and e.op in ('c', 'lin', 'mul', 'div'):
            a = e.args
            if e.op == 'c': p = {(): Fraction(a[0])} if a[0] != 0 else {}
            elif e.op == 'lin':
                p = {(): Fraction(a[0])} if a[0] != 0 else {}
                for t, k in a[1]: p = X.padd(p, self.poly_of(t), k)
            elif e.op == 'mul':
                p = {(): Fraction(1)}
                for t in a: p = self.pm(p, self.poly_of(t))
            else:
                d = self.poly_of(a[1])
                if not d: d = {(('z',),): Fraction(1)}
                lead = min(d, key=str); k = d[lead]
                key = 'inv' + str(sorted(((m, str(c / k)) for m, c in d.items()), key=str))
                if key not in self.atom: self.atom[key] = z3.Real('!' + str(abs(hash(key))))
                p = self.pm(self.poly_of(a[0]), {(key,): 1 / k})
            self.P[e.id] = p
            return self.lin(p)
        r = super().mk(e)
        if e.op == 'sqrt':
            self.side.pop()
            self.side.append(r >= 0)
            self.atom[e.id] = r
            self.sq[e.id] = self.poly_of(e.args[0])
            self.P[e.id] = {(e.id,): Fraction(1)}
        return r


def lincheck(ground, timeout_ms):
    t0 = time.time()
    try:
        tr = TrLin()
        s = z3.Solver()
        s.set('timeout', int(timeout_ms))
        zs = [tr.z(f) for f in ground]
        for x in tr.side: s.add(x)
        for x in zs: s.add(x)
        r = s.check()
        return 'unsat' if r == z3.unsat else 'unknown'
    except (X.TooBig, z3.Z3Exception, NotImplementedError): return 'unknown'
    finally:
        STAT['z3'] += time.time() - t0
        STAT['queries'] += 1


# ---------------------------------------------------------------- instantiation
def _is_ground(e, bound):
    return not (freevars(e) & bound)


_pat = {}
DEFINED = set()


def patterns(fa):
    """candidate trigger apps of a forall node: list of (app, set of bound vars)"""
    r = _pat.get(fa.id)
    if r is not None: return r
    vs, body = fa.args
    bs = frozenset(vs)
    out = []
    for t in subterms(body):
        if t.op == 'app' and len(t.args) > 1:
            fv = freevars(t) & bs
            if not fv: continue
            # nested bound variables of inner quantifiers / sums make it unusable
            if any('?' in v.args[0] and v not in bs for v in freevars(t)): continue
            # avoid nested app patterns inside args depending on bound vars
            inner = False
            for x in t.args[1:]:
                for y in subterms(x):
                    if y.op in ('app', 'ite', 'sum', 'idiv', 'imod', 'uns', 'wrap') and freevars(y) & bs: inner = True
            if inner: continue
            out.append((t, fv))
    # the step equation of a function defined by recursion unfolds from f(i + 1, ..) only
    step = [(t, fv) for t, fv in out if t.args[0] in DEFINED and any(x.op == 'lin' and freevars(x) <= bs for x in t.args[1:])]
    if step: out = step
    _pat[fa.id] = out
    return out


def match_args(pargs, gargs, bs):
    """solve pattern args == ground args for bound vars (linear); returns dict or None"""
    sol = {}
    todo = list(zip(pargs, gargs))
    for _ in range(3):
        rest = []
        for p, g in todo:
            if sol: p = subst(p, sol)
            fv = freevars(p) & bs
            if not fv:
                if eq(p, g) is FALSE: return None
                continue
            c, d = ld(p)
            lin = [(t, k) for t, k in d.items() if t in bs]
            prod = [(t, k) for t, k in d.items() if t not in bs and freevars(t) & bs]
            if len(fv) == 1 and len(lin) == 1 and not prod:
                v, k = lin[0]
                dd = {t: q for t, q in d.items() if t is not v}
                r = sub(g, mklin(c, dd, 'I'))
                if k == -1: r = scale(r, -1)
                elif k != 1:
                    cc, it = ldview(r)
                    if cc % k or any(q % k for _, q in it): return None
                    r = mklin(cc // k, {t: q // k for t, q in it}, 'I')
                sol[v] = r
            elif prod:
                # patterns like R*c + r : peel factor
                t, k = prod[0]
                if t.op != 'mul': rest.append((p, g)); continue
                bv = [f for f in t.args if f in bs]
                gf = [f for f in t.args if f not in bs]
                if len(bv) != 1 or any(freevars(f) & bs for f in gf): rest.append((p, g)); continue
                fac = gf[0]
                for f in gf[1:]: fac = mul(fac, f)
                gc, gd = ld(g)
                q = I(0)
                for u, m in gd.items():
                    if u is fac: q = add(q, I(m))
                    elif u.op == 'mul' and fac.op != 'mul' and fac in u.args:
                        fs = list(u.args); fs.remove(fac)
                        pr = fs[0]
                        for f in fs[1:]: pr = mul(pr, f)
                        q = add(q, scale(pr, m))
                if k != 1:
                    cc, it = ldview(q)
                    if cc % k or any(z % k for _, z in it): return None
                    q = mklin(cc // k, {t: z // k for t, z in it}, 'I')
                sol[bv[0]] = q
                rest.append((p, g))
            else:
                rest.append((p, g))
        todo = rest
        if not todo: break
    return sol


class Ctx:
    pass


MAXINST = 3000


def unshift(x):
    """sum of f(c+i): (prefix sum of f as a function of its bound, c), or None when c is 0"""
    v = sum_var(x)
    c = None
    for t in subterms(x.args[0]):
        if t.op == 'app' and v in freevars(t):
            for a in t.args[1:]:
                if ld(a)[1].get(v, 0) == 1:
                    r = sub(a, v)
                    if v in freevars(r): return None
                    if c is None: c = r
    if c is None or (c.op == 'c' and c.args[0] == 0): return None
    b = subst(x.args[0], {v: sub(SUMV, c)})
    return (lambda n: mksum(b, n)), c


def sum_cases(x):
    """equation splitting a sum at the first index comparison (v <= e or v == e) in its terms, or None"""
    v = sum_var(x)
    b, n = x.args
    for t in subterms(b):
        if t.op not in ('le0', 'eq0') or t.args[0].sort != 'I': continue
        q = ld(t.args[0])[1].get(v, 0)
        if q not in (1, -1): continue
        r = sub(t.args[0], scale(v, q))
        if v in freevars(r) or any('?' in y.args[0] for y in freevars(r)): continue
        yes = replace_term(b, t, TRUE); no = replace_term(b, t, FALSE)
        if t.op == 'eq0':
            e = scale(r, -q)
            return [implies(le(I(0), n), eq(x, add(mksum(no, n, v), ite(and_(le(I(0), e), lt(e, n)), sub(subst(yes, {v: e}), subst(no, {v: e})), I(0) if x.sort == 'I' else R(0)))))]
        # q = 1: v <= -r, q = -1: v >= r
        if q == 1: e = add(scale(r, -1), I(1)); lo, hi = yes, no
        else: e = r; lo, hi = no, yes
        m = var('sm!%d' % x.id, 'I')
        return [implies(le(e, I(0)), eq(m, I(0))), implies(and_(le(I(0), e), le(e, n)), eq(m, e)), implies(and_(le(n, e), le(I(0), n)), eq(m, n)),
                implies(le(I(0), n), eq(x, add(mksum(lo, m, v), sub(mksum(hi, n, v), mksum(hi, m, v)))))]
    return None


def replace_term(e, t, w):
    memo = {}

    def go(x):
        if x is t: return w
        if x.id in memo: return memo[x.id]
        cs = children(x)
        if x.op in ('forall', 'sum') or not cs: r = x
        else:
            ns = [go(c) for c in cs]
            r = x if all(p is q for p, q in zip(cs, ns)) else X.rebuild(x, ns)
        memo[x.id] = r
        return r
    return go(e)


class Query:
    """facts |- goal with quantifier instantiation"""

    def __init__(self, facts, goal, hints=()):
        self.facts = facts
        self.goal = goal
        self.hints = hints

    def build(self, rounds=3, cap=600):
        base = list(self.facts) + [not_(self.goal)]
        self.ground = []        # E formulas (forall nodes are proxies)
        seen = set()            # formula ids
        fas = {}
        apps = {}
        applist = []
        scanned = set()
        newf = []

        def scan(e):
            st = [e]
            while st:
                x = st.pop()
                if x.id in scanned: continue
                scanned.add(x.id)
                if x.op == 'forall':
                    if x.id not in fas:
                        fas[x.id] = x; newf.append(x)
                    continue
                if x.op == 'app' and len(x.args) > 1 and not any('?' in v.args[0] for v in freevars(x)):
                    apps.setdefault((x.args[0], len(x.args)), []).append(x)
                if x.op == 'sum':
                    sums.append(x)
                    st.append(x.args[1])
                    continue
                st.extend(children(x))

        def addf(e):
            if e.op == 'c' and e.args[0]: return
            if e.id in seen: return
            seen.add(e.id)
            self.ground.append(e)
            for x in (e.args if e.op == 'and' else (e,)):
                if x.op == 'forall': asserted.add(x.id)
            scan(e)
        asserted = set()        # foralls that are facts: no counterexample to them needs a name
        sums = []
        self.sums = sums
        for f in base: addf(f)
        done = set()
        self.ninst = 0
        extra = list(self.hints)
        skolems = []
        sdone = {}

        nbase = [None]
        split_ids = set()

        def sumax():
            L = list({x.id: x for x in sums}.values())[:40]
            orig = {x.id for x in L} - split_ids
            for x in L:
                b, n = x.args
                zero = I(0) if x.sort == 'I' else R(0)
                if x.id not in sdone:
                    sdone[x.id] = x
                    addf(implies(le(n, I(0)), eq(x, zero)))
                    k0 = len(sums)
                    r = unshift(x)
                    if r is not None:
                        base, c = r
                        addf(implies(and_(le(I(0), c), le(I(0), n)), eq(x, sub(base(add(c, n)), base(c)))))
                        if c.op == 'c' and c.args[0] == -1: addf(implies(le(I(1), n), eq(x, add(sum_at(x, I(0)), base(sub(n, I(1)))))))
                    for f in sum_cases(x) or (): addf(f)
                    split_ids.update(y.id for y in sums[k0:] if y.id not in orig)
                    sk = var('sn!%d' % x.id, 'I')
                    if x.id not in split_ids: addf(or_(and_(le(I(0), sk), lt(sk, n), lt(sum_at(x, sk), zero)), le(zero, x)))
                for t in L:
                    if t is x or (x.id, t.id) in sdone: continue
                    sdone[(x.id, t.id)] = 1
                    if t.args[0] is b:
                        d = sub(t.args[1], n)
                        if d.op == 'c' and d.args[0] == 1:
                            addf(implies(le(I(0), n), eq(t, add(x, sum_at(x, n)))))
                        elif d.op == 'c' and d.args[0] > 1 and d.args[0] <= 4:
                            r = x
                            for j in range(d.args[0]): r = add(r, sum_at(x, add(n, I(j))))
                            addf(implies(le(I(0), n), eq(t, r)))
                        elif d.op != 'c':
                            addf(implies(eq(d, I(0)), eq(t, x)))
                            addf(implies(and_(eq(d, I(1)), le(I(0), n)), eq(t, add(x, sum_at(x, n)))))
                    elif x.id < t.id and t.sort == x.sort and x.id not in split_ids and t.id not in split_ids:
                        # pointwise equal terms give equal sums (the skolem index is where they would differ)
                        sk = var('sd!%d!%d' % (x.id, t.id), 'I')
                        addf(or_(ne(t.args[1], n), and_(le(I(0), sk), lt(sk, n), ne(sum_at(x, sk), sum_at(t, sk))), eq(x, t)))
        for rnd in range(rounds):
            sumax()
            # skolemise new foralls
            while newf:
                fa = newf.pop()
                if fa.id in asserted: continue
                vs, body = fa.args
                m = {v: var('sk!%d!%d' % (fa.id, i), 'I') for i, v in enumerate(vs)}
                skolems.extend(m.values())
                addf(or_(fa, not_(subst(body, m))))
            added = False
            for fa in list(fas.values()):
                vs, body = fa.args
                bs = frozenset(vs)
                sols = []
                pats = patterns(fa)
                full = [t for t, fv in pats if len(fv) == len(vs)]
                if full:
                    for t in full:
                        for g in list(apps.get((t.args[0], len(t.args)), ())):
                            s = match_args(t.args[1:], g.args[1:], bs)
                            if s is not None and len(s) == len(vs): sols.append(s)
                elif pats:
                    # combine patterns
                    per = {}
                    for t, fv in pats:
                        for g in list(apps.get((t.args[0], len(t.args)), ())):
                            s = match_args(t.args[1:], g.args[1:], bs)
                            if s:
                                for v, x in s.items(): per.setdefault(v, {})[x] = 1
                    for v in vs:
                        if v not in per: per[v] = {s: 1 for s in skolems[:6]}
                    combos = [{}]
                    for v in vs:
                        combos = [dict(c, **{}) | {v: x} for c in combos for x in list(per[v])[:12]][:150]
                    sols = combos
                else:
                    cands = list(extra) + skolems[:8]
                    if len(vs) == 1: sols = [{vs[0]: x} for x in cands]
                    elif len(vs) == 2 and len(cands) <= 10: sols = [{vs[0]: x, vs[1]: y} for x in cands for y in cands]
                if len(vs) == 1:
                    for h in extra: sols.append({vs[0]: h})
                for s in sols:
                    key = (fa.id,) + tuple(s[v].id for v in vs)
                    if key in done: continue
                    done.add(key)
                    if self.ninst >= cap: break
                    self.ninst += 1
                    addf(subst(body, s) if fa.id in asserted else or_(not_(fa), subst(body, s)))
                    added = True
            if not added and not newf: break
        for _ in range(6):
            n0 = len(sums)
            sumax()
            if len(sums) == n0: break
        # product lemmas for non-linear index arithmetic
        return self.ground


def ints_products(ground):
    """non-negativity lemmas for integer products x*y appearing in the query"""
    prods = {}
    for f in ground:
        for t in subterms(f):
            if t.op == 'mul' and t.sort == 'I' and len(t.args) == 2: prods[t.id] = t
    out = []
    ps = list(prods.values())[:40]
    for p in ps:
        x, y = p.args
        out.append(implies(and_(le(I(0), x), le(I(0), y)), le(I(0), p)))
        out.append(implies(and_(le(I(1), x), le(I(0), y)), le(y, p)))
        out.append(implies(and_(le(I(1), y), le(I(0), x)), le(x, p)))
    for i in range(len(ps)):
        for j in range(len(ps)):
            if i == j: continue
            for (x, y) in (ps[i].args, ps[i].args[::-1]):
                for (u, v) in (ps[j].args, ps[j].args[::-1]):
                    if y is v and x is not u:
                        # x < u & y >= 0 -> x*y + y <= u*y
                        out.append(implies(and_(lt(x, u), le(I(0), y)), le(add(ps[i], y), ps[j])))
                        out.append(implies(and_(le(x, u), le(I(0), y)), le(ps[i], ps[j])))
    return out[:400] + row_lemmas(ground, ps)


def row_lemmas(ground, ps):
    """for comparisons of the form y*A + B with a row number difference A of several terms: A >= 1 gives y*A >= y, A <= -1 gives y*A <= -y, A = 0 gives y*A = 0 (y >= 0)"""
    seen = set(); out = []
    for f in ground:
        for t in subterms(f):
            if t.op not in ('le0', 'lt0', 'eq0') or len(out) >= 60: continue
            if t.args[0].sort != 'I': continue
            try: _, d = ld(sub(t.args[0], t.args[1]) if len(t.args) == 2 else t.args[0])
            except Exception: continue
            by = {}
            for m, k in d.items():
                if m.op == 'mul' and len(m.args) == 2:
                    for y, x in (m.args, m.args[::-1]): by.setdefault(y, {})[x] = k
            for y, A in by.items():
                if len(A) < 2 or y.op != 'var': continue
                c0 = d.get(y, 0)
                g = 0
                for k in A.values(): g = math.gcd(g, int(k))
                g = g or 1
                if c0 % g: c0 = 0
                a = mklin(int(c0) // g, {x: int(k) // g for x, k in A.items()}, 'I')
                if (y.id, a.id) in seen: continue
                seen.add((y.id, a.id)); seen.add((y.id, scale(a, -1).id))
                ya = add(scale(y, int(c0) // g), mklin(0, {mul(y, x): int(k) // g for x, k in A.items()}, 'I'))
                out.append(implies(le(I(0), y), and_(implies(le(I(1), a), le(y, ya)), implies(le(a, I(-1)), le(ya, scale(y, -1))), implies(eq(a, I(0)), eq(ya, I(0))))))
    return out


def linear_ints(ground):
    """every integer product as one unknown, together with the product lemmas (only `unsat` is meaningful); None when there is none"""
    ms = {t for f in ground for t in subterms(f) if t.op == 'mul' and t.sort == 'I'}
    if not ms: return None
    gr = list(ground) + ints_products(ground)
    m = {}
    for f in gr:
        for t in subterms(f):
            if t.op == 'mul' and t.sort == 'I' and t not in m and not any('?' in v.args[0] for v in freevars(t)): m[t] = var('prod!%d' % t.id, 'I', t.lo, t.hi)
    return [subst(f, m) for f in gr]


class Result:
    def __init__(self, status, backend=None, model=None, why='', q=None):
        self.status = status; self.backend = backend; self.model = model; self.why = why; self.q = q


def _hasnl(ground):
    for f in ground:
        for t in subterms(f):
            if t.op in ('mul', 'div', 'sqrt'): return True
    return False


def z3check(ground, timeout_ms, tactic=None, seed=0, effort=None):
    t0 = time.time()
    tr = Tr()
    if tactic: s = z3.Tactic(tactic).solver() if isinstance(tactic, str) else tactic.solver()
    else: s = z3.Solver()
    try: s.set('timeout', int(timeout_ms))
    except z3.Z3Exception: pass
    if seed and not tactic: s.set('random_seed', seed)
    if effort: s.set('rlimit', effort)
    zs = [tr.z(f) for f in ground]
    for x in tr.side: s.add(x)
    for x in zs: s.add(x)
    try: r = s.check()
    except z3.Z3Exception: r = z3.unknown
    STAT['z3'] += time.time() - t0
    STAT['queries'] += 1
    if r == z3.unsat: return 'unsat', None
    if r == z3.sat:
        try: return 'sat', model_of(s.model(), tr)
        except z3.Z3Exception: return 'unknown', None
    return 'unknown', None


def zval(v):
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    if z3.is_bv_value(v): return v.as_long()
    return None


def model_of(m, tr):
    vs = {}
    for n, (e, v) in tr.vars.items(): vs[n] = zval(m.eval(v, True))
    apps = {}
    for (nm, k), L in tr.apps.items():
        for args, v, e in L:
            key = tuple(zval(m.eval(tr.memo[a.id], True)) for a in args)
            apps.setdefault(nm, {})[key] = zval(m.eval(v, True))
    return vs, apps


def cvc5check(ground, timeout_ms):
    """via SMT-LIB text of the z3 translation, in-process cvc5"""
    import cvc5
    t0 = time.time()
    tr = Tr()
    s = z3.Solver()
    zs = [tr.z(f) for f in ground]
    for x in tr.side: s.add(x)
    for x in zs: s.add(x)
    txt = s.to_smt2()
    try:
        slv = cvc5.Solver()
        slv.setOption('tlimit-per', str(int(timeout_ms)))
        slv.setLogic('ALL')
        slv.setOption('nl-cov', 'true')
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt.replace('(check-sat)', ''), 'q')
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull(): break
            c.invoke(slv, sm)
        r = slv.checkSat()
        res = 'unsat' if r.isUnsat() else 'sat' if r.isSat() else 'unknown'
    except Exception as ex:
        res = 'unknown'
    STAT['cvc5'] += time.time() - t0
    STAT['queries'] += 1
    return res


def relevant(facts, goal, depth=2):
    """facts sharing symbols with the goal, transitively to the given depth"""
    def syms(e):
        s = set(v.args[0] for v in freevars(e))
        for t in subterms(e):
            if t.op == 'app' and len(t.args) > 1: s.add(t.args[0] + '[]')
        return s
    fs = [(f, syms(f)) for f in facts]
    cur = syms(goal)
    out = []
    used = set()
    for _ in range(depth):
        add_ = set()
        for i, (f, s) in enumerate(fs):
            if i in used: continue
            if s & cur:
                used.add(i); out.append(f); add_ |= s
        cur |= add_
    return out


def split_goal(goal, facts):
    """strip foralls / implications / conjunctions: yields (extra facts, atomic goal)"""
    if goal.op == 'and':
        for g in goal.args: yield from split_goal(g, facts)
    elif goal.op == 'forall':
        vs, body = goal.args
        m = {v: var('gs!%d!%d' % (goal.id, i), 'I') for i, v in enumerate(vs)}
        yield from split_goal(subst(body, m), facts)
    elif goal.op == 'or' and any(x.op in ('forall', 'and') for x in goal.args):
        # pick one structured disjunct to split on
        k = next(x for x in sorted(goal.args, key=lambda x: x.op != 'forall') if x.op in ('forall', 'and'))
        rest = [x for x in goal.args if x is not k]
        f2 = facts + [not_(x) for x in rest]
        yield from split_goal(k, f2)
    elif goal.op == 'or':
        k = next((x for x in goal.args if x.op == 'eq0' and x.args[0].sort == 'R'), goal.args[0])
        yield facts + [not_(x) for x in goal.args if x is not k], k, goal
    else:
        yield facts, goal, goal


PROVED = {}
_SY = {}


def symbols(e):
    """names of the free symbols of a formula"""
    r = _SY.get(e.id)
    if r is None:
        r = _SY[e.id] = frozenset(t.args[0] for t in subterms(e) if t.op in ('v', 'app'))
    return r


def component(facts, goal):
    """the facts connected to the goal through shared symbols; the others cannot contribute unless they are contradictory by themselves"""
    S = set(symbols(goal))
    left = [(f, symbols(f)) for f in facts]
    keep = [f for f, s in left if not s]
    left = [(f, s) for f, s in left if s]
    while True:
        nxt = []
        n = len(S)
        for f, s in left:
            if s & S:
                S |= s
                keep.append(f)
            else: nxt.append((f, s))
        if len(S) == n and len(nxt) == len(left): break
        if len(nxt) == len(left): break
        left = nxt
    ids = {f.id for f in keep}
    return [f for f in facts if f.id in ids]


_alpha = {}


def alpha(f):
    r = _alpha.get(f.id)
    if r is None:
        vs, body = f.args
        m = {v: var('alpha?%d' % i, v.sort) for i, v in enumerate(vs)}
        r = _alpha[f.id] = (len(vs), subst(body, m).id)
    return r


def prove(facts, goal, timeout=4.0, hints=(), rounds=3, heavy=True, want_model=True):
    """facts: list of E; returns Result(proved|refuted|unknown)"""
    if goal.op == 'c' and goal.args[0]: return Result('proved', 'simplifier')
    facts = [f for f in facts if not (f.op == 'c' and f.args[0])]
    if any(f.op == 'c' for f in facts): return Result('proved', 'simplifier')
    fs = set(facts)
    if goal in fs: return Result('proved', 'simplifier')
    gs = goal.args if goal.op == 'and' else (goal,)
    if any(g.op == 'forall' for g in gs):
        # a conjunct that is a known fact up to the names of its bound variables
        kn = {alpha(f) for f in facts if f.op == 'forall'}
        gs = [g for g in gs if g not in fs and not (g.op == 'forall' and alpha(g) in kn)]
        if not gs: return Result('proved', 'simplifier')
        goal = and_(*gs)
    backs = []
    for f2, g, whole in split_goal(goal, list(facts)):
        if g.op == 'c' and g.args[0]: continue
        sl = component(f2, g)
        key = (g.id, frozenset(f.id for f in sl))
        if key in PROVED:
            backs.append(PROVED[key])
            continue
        r = prove1(sl, g, timeout, hints, rounds, heavy)
        if r.status == 'proved': PROVED[key] = r.backend
        elif len(sl) < len(f2) and (r.status == 'refuted' or lincheck([f for f in f2 if f.op != 'forall'], 300) == 'unsat'):
            r = prove1(f2, g, timeout, hints, rounds, heavy)
        if r.status != 'proved':
            r.subgoal = whole
            return r
        backs.append(r.backend)
    for b in ('cvc5', 'z3', 'poly'):
        for x in backs:
            if x and x.startswith(b): return Result('proved', x)
    return Result('proved', backs[0] if backs else 'simplifier')


def _sum_unfold(e, facts):
    """sum(b, n+c) -> sum(b, n) + terms, relative to the shortest sum of the same body"""
    for _ in range(4):
        L = {}
        for t in subterms(e):
            if t.op == 'sum': L.setdefault(t.args[0].id, []).append(t)
        m = {}
        for g in L.values():
            for x in g:
                for y in g:
                    d = sub(x.args[1], y.args[1])
                    if x is not y and d.op == 'c' and 0 < d.args[0] <= 4:
                        n = y.args[1]
                        if not ((n.lo is not None and n.lo >= 0) or le(I(0), n) in facts): continue
                        r = y
                        for j in range(d.args[0]): r = add(r, sum_at(y, add(n, I(j))))
                        m[x] = r
        if not m: return e
        e = subst(e, m)
    return e


def poly_rewrite(facts, e):
    """e == 0 modulo linear-solvable equations among the facts"""
    fs = set(facts)
    eqs = [f.args[0] for f in facts if f.op == 'eq0' and f.args[0].sort == 'R']
    if not eqs: 
        e2 = _sum_unfold(e, fs)
        return e2 is not e and is_zero(e2)
    t0 = time.time()
    try:
        e = _sum_unfold(add(e, R(0)), fs)
        big = eqs[:30]
        # every sum in the facts that is adjacent to one in the goal takes part as well
        for rnd in range(12):
            m = None
            pol = topoly_atoms(e)
            for i, q in enumerate(big):
                if q is None: continue
                c, d = ld(q)
                best = None
                for a, k in d.items():
                    if a.op in ('sum', 'v', 'app') and a in pol:
                        rest = sub(q, scale(a, k))
                        if a in subterms(rest): continue
                        rank = 0 if a.op == 'sum' else 1
                        if best is None or rank < best[0]: best = (rank, a, scale(rest, -1 / Fraction(k)))
                if best:
                    m = {best[1]: best[2]}
                    big[i] = None
                    break
            if m is None: break
            e = subst(e, m)
            big = [None if q is None else subst(q, m) for q in big]
        return is_zero(e)
    except (TooBig, RecursionError, ZeroDivisionError): return False
    finally: STAT['poly'] += time.time() - t0


def topoly_atoms(e):
    return set(t for t in subterms(e) if t.op in ('sum', 'v', 'app'))


def subst_ite(e, c, val):
    """replace every if-then-else on condition c by the branch for its value"""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            if x.op in ('c', 'v', 'sum', 'forall', 'exists'): r = x
            elif x.op == 'ite' and x.args[0] is c: r = go(x.args[1] if val is TRUE else x.args[2])
            else: r = X.rebuild(x, [go(y) for y in X.children(x)])
            memo[x.id] = r
        return r
    return go(e)


def ite_cond(facts, goal):
    """an if-then-else condition free of other conditionals occurring in real terms of the query"""
    for f in [goal] + list(facts):
        for t in subterms(f):
            if t.op == 'ite' and t.sort == 'R' and not any(u.op == 'ite' for u in subterms(t.args[0])): return t.args[0]
    return None


_hasmemo = {}


def _has(e, op):
    r = _hasmemo.get((e.id, op))
    if r is None: r = _hasmemo[(e.id, op)] = any(t.op == op for t in subterms(e))
    return r


def prove1(facts, goal, timeout, hints, rounds, heavy, splits=6):
    fs = set(facts)
    if goal in fs: return Result('proved', 'simplifier')
    if not_(goal) in fs and False: pass
    if goal.op == 'eq0' and goal.args[0].sort == 'I' and any(t.op == 'mul' for t in subterms(goal.args[0])):
        try:
            if is_zero(goal.args[0]): return Result('proved', 'poly')
        except TooBig: pass
    if goal.op == 'eq0' and goal.args[0].sort == 'R':
        t0 = time.time()
        z = is_zero(goal.args[0])
        STAT['poly'] += time.time() - t0
        if z: return Result('proved', 'poly')
        z = poly_rewrite(facts, goal.args[0])
        if z: return Result('proved', 'poly')
    if splits == 6:
        # first without the facts about sums and quantifiers that the goal does not mention
        hs = _has(goal, 'sum')
        ops = [(f, _has(f, 'sum'), _has(f, 'forall')) for f in facts]
        if any(q for _, _, q in ops) and not _has(goal, 'forall'):
            gr = [f for f, u, q in ops if not q and (hs or not u)]
            if not hs and not any(t.sort == 'R' and t.op in ('mul', 'div', 'sqrt') for f in gr + [goal] for t in subterms(f)):
                r, m = z3check(gr + [not_(goal)], min(timeout, 1.0) * 1000)
                if r == 'unsat': return Result('proved', 'z3')
        if not hs and any(u for _, u, _ in ops):
            r = prove1([f for f, u, q in ops if not u], goal, timeout, hints, rounds, False, 5)
            if r.status == 'proved': return r
    q = Query(facts, goal, hints)
    ground = q.build(rounds)
    nlint = any(t.op == 'mul' and t.sort == 'I' for f in ground for t in subterms(f))
    if nlint:
        if not any(t.op in ('mul', 'div', 'sqrt') and t.sort == 'R' for f in ground for t in subterms(f)):
            r, m = z3check(linear_ints(ground), min(timeout, 2.0) * 1000)
            if r == 'unsat': return Result('proved', 'z3')
        ground = ground + ints_products(ground)
    # quick attempt with relevant facts only when the query is non-linear
    nl = _hasnl(ground)
    t1 = min(timeout, 1.0) if nl else timeout
    if nl and any(t.op in ('mul', 'div', 'sqrt') and t.sort == 'R' for f in ground for t in subterms(f)):
        if lincheck(ground, min(timeout, 2.0 if splits == 0 or ite_cond(facts, goal) is None else 0.4) * 1000) == 'unsat': return Result('proved', 'z3')
    if nl and heavy and splits > 0:
        c = ite_cond(facts, goal)
        if c is not None:
            for cc, val in ((c, TRUE), (not_(c), FALSE)):
                f2, g2 = list(facts), goal
                f2 = [subst_ite(f, c, val) for f in f2]
                g2 = subst_ite(g2, c, val)
                if g2.op == 'c' and g2.args[0]: continue
                f2 = [f for f in f2 + [cc] if not (f.op == 'c' and f.args[0])]
                if any(f.op == 'c' for f in f2): continue
                r = prove1(f2, g2, timeout, hints, rounds, heavy, splits - 1)
                if r.status != 'proved': return r
            return Result('proved', 'z3')
    r, m = z3check(ground, t1 * 1000)
    if r == 'unsat': return Result('proved', 'z3')
    if r == 'sat':
        # once more with every quantified fact also taken at the indices the goal is about
        more = [v for v in freevars(goal) if v.sort == 'I' and '!' in v.args[0] and v not in hints][:4]
        if more and any(_has(f, 'forall') for f in facts):
            g2 = Query(facts, goal, list(hints) + more).build(rounds + 1)
            if nlint: g2 = g2 + ints_products(g2)
            r2, m2 = z3check(g2, t1 * 1000)
            if r2 == 'unsat': return Result('proved', 'z3')
        return Result('refuted', 'z3', m, q=ground)
    if nl and heavy:
        rel = relevant(facts, goal, 1)
        if len(rel) < len(facts):
            g2 = Query(rel, goal, hints).build(rounds)
            r, m = z3check(g2, min(timeout, 2.0) * 1000)
            if r == 'unsat': return Result('proved', 'z3')
        pure = all(t.sort in ('R', 'B') or t.op == 'c' for f in ground for t in subterms(f))
        if pure:
            for tac in ('qfnra-nlsat',):
                r, m = z3check(ground, timeout * 1000, z3.Then('simplify', 'elim-term-ite', 'solve-eqs', 'purify-arith', 'elim-term-ite', 'simplify', 'tseitin-cnf', 'nlsat'))
                if r == 'unsat': return Result('proved', 'z3-nlsat')
                if r == 'sat': return Result('refuted', 'z3-nlsat', m, q=ground)
        r = cvc5check(ground, timeout * 1000)
        if r == 'unsat': return Result('proved', 'cvc5')
        r, m = z3check(ground, timeout * 1000 * 3, seed=7)
        if r == 'unsat': return Result('proved', 'z3')
        if r == 'sat': return Result('refuted', 'z3', m, q=ground)
    elif heavy:
        r = cvc5check(ground, timeout * 1000)
        if r == 'unsat': return Result('proved', 'cvc5')
    return Result('unknown', None, None, 'solver gave up', q=ground)


def feasible(facts, timeout_ms=150):
    """False only if certainly infeasible"""
    for f in facts:
        if f.op == 'c' and not f.args[0]: return False
    gr = [f for f in facts if f.op != 'forall']
    if any(t.sort == 'R' and t.op in ('mul', 'div', 'sqrt') for f in gr for t in subterms(f)):
        if lincheck(gr, timeout_ms) == 'unsat': return False
    lin = linear_ints(gr)
    # a fixed amount of work rather than of time: the paths explored do not depend on how busy the machine is
    r, _ = z3check(gr if lin is None else lin, timeout_ms * 6, effort=4000 * timeout_ms)
    return r != 'unsat'
