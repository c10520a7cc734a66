from fractions import Fraction
"""Shared specification vocabulary."""
from irv.expr import *
from irv.contract import *
from irv.exec import Unsupported, Ptr, ARange, AStore, ABase, aread, ldview, mklin
import re
import irv.expr as X
from irv import solve

EPSC = R(Fraction(1, 10 ** 7)) if False else None
PI = R(3.141592653589793)
EPS_DIST = R(1e-7)


def cl(x): return lift(x, 'R')


def pts(buf, n, d=2):
    """list of points from a flat buffer"""
    return [[buf[d * i + k] for k in range(d)] for i in range(n)]


def vsub(a, b): return [x - y for x, y in zip(a, b)]
def vadd(a, b): return [x + y for x, y in zip(a, b)]
def vscale(s, a): return [cl(s) * x for x in a] if not isinstance(s, E) else [s * x for x in a]
def dot(a, b):
    r = a[0] * b[0]
    for x, y in zip(a[1:], b[1:]): r = r + x * y
    return r
def cross2(a, b): return a[0] * b[1] - a[1] * b[0]
def sq(x): return x * x
def orient(a, b, c):
    """twice the signed area of (a, b, c)"""
    return cross2(vsub(b, a), vsub(c, a))
def sqdist(a, b): return dot(vsub(a, b), vsub(a, b))
def dist(a, b): return sqrt(sqdist(a, b))
def veq(a, b): return and_(*[eq(x, y) for x, y in zip(a, b)])
def shoelace2(P):
    s = R(0)
    n = len(P)
    for i in range(n): s = s + cross2(P[i], P[(i + 1) % n])
    return s
def vmin(xs):
    r = xs[0]
    for x in xs[1:]: r = ite(lt(x, r), x, r)
    return r
def is_min(m, xs): return and_(*[le(m, x) for x in xs], or_(*[eq(m, x) for x in xs]))
def is_max(m, xs): return and_(*[le(x, m) for x in xs], or_(*[eq(m, x) for x in xs]))
def b2i(b): return ite(b, I(1), I(0))
def perms_ok(*a): pass


def unitdir(rng):
    import math
    if rng.random() < 0.15: return rng.choice([(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)])
    t = rng.uniform(0, 2 * math.pi)
    # exact pythagorean directions
    if rng.random() < 0.5:
        m, n = rng.choice([(3, 4, 5), (5, 12, 13), (8, 15, 17), (7, 24, 25), (0, 1, 1), (1, 0, 1)]), 0
        a, b = m[0] / m[2], m[1] / m[2]
        if rng.random() < 0.5: a, b = b, a
        return a * rng.choice([1, -1]), b * rng.choice([1, -1])
    return math.cos(t), math.sin(t)


# ------------------------------------------------------------------ callee contracts
def ldf(ex, st, p, i, k='f8'):
    """i-th scalar behind a pointer argument"""
    return ex.load(st, Ptr(p.obj, p.off + I(i * KS[k])), ktype(k), 'argument of a callee under contract')


def stf(ex, st, p, i, v, k='f8'):
    ex.store(st, Ptr(p.obj, p.off + I(i * KS[k])), v, ktype(k), 'result of a callee under contract')


def call_args(ex, st, a, counts):
    """values a callee sees: scalars and vectors by value, or the first n doubles behind a pointer"""
    if len(a) != len(counts): return None
    vals = []
    for v, n in zip(a, counts):
        if isinstance(v, (list, tuple)): vals += list(v)
        elif isinstance(v, E): vals.append(v)
        elif isinstance(v, Ptr) and n: vals += [ldf(ex, st, v, i) for i in range(n)]
        else: return None
    return None if any(not isinstance(v, E) for v in vals) else vals


def pure_uf(tag, *counts, ret='R', pos=False, needs=None):
    """callee treated as an unknown but fixed function of the values behind its pointer arguments (None: a scalar)"""
    def h(ex, st, a, x, name):
        vals = call_args(ex, st, a, counts)
        if vals is None: return NotImplemented
        if needs: ex.oblige(st, 'what %s requires' % tag, needs(vals), name)
        r = eq(app(tag + '!', vals, 'I'), I(1)) if ret == 'B' else app(tag + '!', vals, ret)
        if pos:
            st.assume(lt(R(0), r))
            ex.note('%s of a valid element is positive (its own contract decides the value)' % tag)
        return [(st, r)]
    return h


def vec_uf(tag, nres, *counts):
    """callee returning a vector of doubles by value"""
    def h(ex, st, a, x, name):
        if x.ty.k != 'vec': return NotImplemented
        vals = call_args(ex, st, a, counts)
        if vals is None: return NotImplemented
        return [(st, [app('%s%d!' % (tag, i), vals, 'R') for i in range(nres)])]
    return h


def struct_uf(tag, nres, *counts):
    """callee returning a structure of doubles through its first argument"""
    def h(ex, st, a, x, name):
        if not a or not isinstance(a[0], Ptr) or x.ty.k != 'void': return NotImplemented
        vals = call_args(ex, st, a[1:], counts)
        if vals is None: return NotImplemented
        for i in range(nres): stf(ex, st, a[0], i, app('%s%d!' % (tag, i), vals, 'R'))
        return [(st, None)]
    return h


def hits_uf(tag, most, *counts):
    """callee writing up to `most` values into its last (pointer) argument and returning how many"""
    def h(ex, st, a, x, name):
        vals = call_args(ex, st, a[:-1], counts)
        if vals is None or not isinstance(a[-1], Ptr): return NotImplemented
        n = app(tag + 'n!', vals, 'I')
        out = []
        known = [k for k in range(most + 1) if eq(n, I(k)) in st.pcset]
        for k in known or range(most + 1):
            s2 = st.copy()
            s2.assume(eq(n, I(k)))
            for i in range(k): stf(ex, s2, a[-1], i, app('%s%d!' % (tag, i), vals, 'R'))
            out.append((s2, I(k)))
        return out
    return h


# ------------------------------------------------------------------ std::sort (trusted contract)
SORT_NOINLINE = [r'^_ZSt4sortI', r'^_ZN9__gnu_cxx5__ops1\d_Iter_(comp|less)_iter.*cl']


def callees(mod, name, rx, seen=None):
    """functions matching rx reachable from name"""
    seen = set() if seen is None else seen
    if name in seen: return []
    seen.add(name)
    out = [name] if rx.search(name) else []
    if out: return out
    f = mod.func(name) if name in mod.funcs else None
    if f is None: return []
    for bl in (f.blocks.values() if isinstance(f.blocks, dict) else f.blocks):
        for x in bl.ins if hasattr(bl, 'ins') else bl:
            if x.op == 'call' and hasattr(x.x[0], 'v'): out += callees(mod, x.x[0].v, rx, seen)
    return out


def predicate(ex, st, fn, args):
    """value of a side-effect free boolean function as one formula"""
    base = len(st.pc)
    outs = ex.run(st.copy(), fn, args)
    cases = []
    for s2, r in outs:
        if s2.dead(): continue
        if not isinstance(r, E): raise Unsupported('comparator result')
        cases.append(and_(*s2.pc[base:], r if r.sort == 'B' else ne(r, I(0))))
    return or_(*cases)


def std_sort(ex, st, a, x, name):
    """std::sort: the range afterwards is a rearrangement of the range before (sigma, with inverse tau), no element
    comparing less than its predecessor; valid range and strict weak order of the comparator are obligations"""
    first, last = a[0], a[1]
    if not (isinstance(first, Ptr) and isinstance(last, Ptr)) or first.obj is not last.obj: return NotImplemented
    if first.obj is None: return [(st, None)]
    cmp = sorted(set(callees(ex.mod, name, re.compile(r'^_ZN9__gnu_cxx5__ops1\d_Iter_(comp|less)_iter.*cl'))))
    if len(cmp) != 1: return NotImplemented
    os_ = st.mem[first.obj]
    S = os_.stride
    if S is None: return NotImplemented
    def index(p):
        c, it = ldview(p.off)
        if c % S or any(k % S for t, k in it): raise Unsupported('std::sort range')
        return mklin(c // S, {t: k // S for t, k in it}, 'I')
    lo, hi = index(first), index(last)
    n = hi - lo
    ex.oblige(st, 'std::sort gets a valid range', and_(le(I(0), lo), le(lo, hi), le(hi * S, os_.size)), name)
    sg, ta = freshname('sort!to'), freshname('sort!from')
    sig = lambda q: app(sg, (q,), 'I', 0, None)
    tau = lambda q: app(ta, (q,), 'I', 0, None)
    w = st.w(first.obj)
    for key, arr in list(w.arrs.items()):
        w.arrs[key] = ARange(arr, first.keys, lo, hi, lambda i, arr=arr: aread(arr, first.keys + (lo + sig(i - lo),)))
    st.assume(forall(I(0), n, lambda q: and_(le(I(0), sig(q)), lt(sig(q), n), eq(tau(sig(q)), q))))
    st.assume(forall(I(0), n, lambda q: and_(le(I(0), tau(q)), lt(tau(q), n), eq(sig(tau(q)), q))))
    # the comparator as a predicate on positions of the sorted range
    s2 = st.copy()
    i, j, k = [fresh('sort!' + v, 'I', 0, None) for v in 'ijk']
    for v in (i, j, k): s2.assume(and_(le(I(0), v), lt(v, n)))
    th = ex.new_obj(s2, 'sort!cmp', 'stack', I(64))
    this = Ptr(th, I(0))
    if len(a) > 2:
        f = ex.mod.func(name)
        if isinstance(a[2], Ptr) and 'byval' in f.params[2][2]: this = a[2]
        else:
            for q in range(2, len(a)): ex.store(s2, Ptr(th, I(8 * (q - 2))), a[q], f.params[q][0])
    at = lambda q: Ptr(first.obj, add(first.off, scale(q, S)), first.keys)
    P = predicate(ex, s2, cmp[0], [this, at(i), at(j)])
    less = lambda p, q: subst(P, {i: p, j: q})
    ex.oblige(s2, 'comparator: nothing is less than itself', not_(less(i, i)), name)
    ex.oblige(s2, 'comparator: less is transitive', implies(and_(less(i, j), less(j, k)), less(i, k)), name)
    ex.oblige(s2, 'comparator: equivalence is transitive', implies(and_(*[not_(less(p, q)) for p, q in ((i, j), (j, i), (j, k), (k, j))]), not_(less(i, k))), name)
    st.assume(forall(I(0), n - 1, lambda q: not_(less(q + 1, q))))
    ex.note('std::sort (libstdc++) rearranges its range so that no element compares less than its predecessor')
    return [(st, None)]


SORT_HOOK = (r'^_ZSt4sortI', std_sort)


# ------------------------------------------------------------------ loop templates
def enclosing(L):
    """iteration numbers of the loops around a loop, outermost first"""
    seen = {}
    for v in L.s0.env.values():
        if isinstance(v, E) and v.sort == 'I':
            for t in freevars(v):
                if re.match(r'k!\d+$', t.args[0]): seen[t.args[0]] = t
    act = {t.args[0] for t in L.outer}
    return [seen[n] for n in sorted(seen, key=lambda n: int(n[2:])) if n in act]


def written(L, n=None):
    """arrays a loop may write: [(object, key, reader fn(loop view, index), reader at function entry or None)]"""
    out = []
    for (o, key) in L.arrs:
        m0 = getattr(L.ex, 'mem0', {})
        ini = (lambda ix, o=o, key=key: aread(m0[o].arrs[key], (ix,))) if o in m0 and key in m0[o].arrs else None
        out.append((o, key, lambda lv, ix, o=o, key=key: aread(lv.st.mem[o].arrs[key], (ix,)), ini))
    return out


# ------------------------------------------------------------------ the logger as seen by its callers
LOG_NOINLINE = ['logger']


def _log(ex, st, args, ins, name):
    """reporting a message changes nothing a caller relies on (the formatting itself is P31's subject)"""
    ex.note('the logger only reports: its functions have no effect on the caller (exit on error switched off in the harness)')
    return [(st, None)]


LOG_HOOK = [(r'logger\d+(?:error|warn|info|debug|trace)', _log)]


def fill2(nc, f):
    """loop invariants of a table written row by row, entry (i, j) at i * columns + j; nc(old), f(old, i, j)"""
    def inv(L):
        old = L.ex.old
        n = nc(old); ks = enclosing(L); out = []
        for o, key, rd, _ in written(L):
            rows = lambda lv, m, rd=rd: forall(0, m, lambda i: forall(0, n, lambda j: eq(rd(lv, i * n + j), f(old, i, j))))
            if not ks: out.append(('rows done', lambda lv, rows=rows: rows(lv, lv.k)))
            elif len(ks) == 1:
                out.append(('earlier rows', lambda lv, rows=rows: rows(lv, ks[0])))
                out.append(('this row so far', lambda lv, rd=rd: forall(0, lv.k, lambda j: eq(rd(lv, ks[0] * n + j), f(old, ks[0], j)))))
        return out
    return inv


GROW_NOINLINE = [r'VectorIiE\d+emplaceBackSlowPath', r'VectorIiE\d+pushBackSlowPath', r'VectorIdE\d+emplaceBackSlowPath', r'VectorIdE\d+pushBackSlowPath']


def _grow(ex, st, a, x, name):
    """appending to a full vector of plain numbers (P02): the storage is taken to grow in place, to some larger capacity"""
    if len(a) != 2 or not all(isinstance(p, Ptr) for p in a): return NotImplemented
    m = re.search(r'VectorI([id])E', name)
    k = {'i': 'i4', 'd': 'f8'}[m.group(1)]; S = KS[k]
    at = lambda i: ex.load(st, Ptr(a[0].obj, a[0].off + I(8 * i)), PTR, name)
    b, e, c = at(0), at(1), at(2)
    if not all(isinstance(p, Ptr) and p.obj is b.obj and p.obj is not None for p in (b, e, c)) or b.off is not I(0): return NotImplemented
    v = ex.load(st, a[1], ktype(k), name)
    cap = fresh('cap', 'I', 1, SIZE_LIM)
    st.assume(lt(e.off, cap * S))
    st.w(b.obj).size = cap * S
    ex.store(st, e, v, ktype(k), name)
    ex.store(st, Ptr(a[0].obj, a[0].off + I(16)), Ptr(b.obj, cap * S), PTR, name)
    end = Ptr(b.obj, e.off + S)
    ex.store(st, Ptr(a[0].obj, a[0].off + I(8)), end, PTR, name)
    ex.note('appending to a full vector behaves as proved for P02; its new storage is modelled as the old one enlarged')
    return [(st, end)]


GROW_HOOK = [(r'Vector.*(?:emplace|push)BackSlowPath', _grow)]
