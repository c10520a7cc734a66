"""P25: crossings of a ray with a mesh."""
from .meshlib import *
from irv.exec import ARange, aread, freshname
from irv.expr import ldview, mklin
from irv.loops import forall_u
HARNESS = 'P25.cpp'
NATIVE_EXTRA = LIBS
NATIVE_SRCS = SRCS
NOINLINE = LOG_NOINLINE + SORT_NOINLINE + [r'Polytope.*9intersect']
TARGETS = []


def T(*a, **k):
    k['hooks'] = LOG_HOOK + k.get('hooks', [])
    TARGETS.append(Target(*a, **k))


# number of crossings of face i, the t-th of them; totals over the faces before face i, and how many of those are hit
def face_n(c, N, i): return app('hitn!', fpts(c, i, N) + [c.r[k] for k in range(4)], 'I', 0, 2 * N)
def face_t(c, N, i, t): return app('hit!', [t] + fpts(c, i, N) + [c.r[k] for k in range(4)], 'R')
def cross_n(c, N, i): return app('number!', (i,), 'I', 0, 2 * N)
def cross_t(c, N, i, t): return app('cross!', (i, t), 'R')
def before(i): return app('before!', (i,), 'I', 0, None)
def hit(i): return app('faces!', (i,), 'I', 0, None)


def crossings(N):
    """a face's own intersect (P14 - P17): writes as many parameters as it returns, a function of its vertices and the ray"""
    def h(ex, st, a, x, name):
        vals = call_args(ex, st, a[:-1], (2 * N, 4))
        if vals is None and len(a) == 4: vals = call_args(ex, st, a[:-1], (2 * N, None, None))
        p = a[-1]
        if vals is None or not isinstance(p, Ptr): return NotImplemented
        n = app('hitn!', vals, 'I', 0, 2 * N)
        st.assume(and_(le(I(0), n), le(n, I(2 * N))))
        w = st.w(p.obj)
        ks = list(w.arrs)
        if w.stride != 8 or len(ks) != 1: return NotImplemented
        c, it = ldview(p.off)
        if c % 8 or any(k % 8 for t, k in it): return NotImplemented
        lo = mklin(c // 8, {t: k // 8 for t, k in it}, 'I')
        ex.oblige(st, 'room for the crossings of a face', and_(le(I(0), lo), le((lo + 2 * N) * 8, w.size)), name)
        scr = freshname('scratch')
        w.arrs[ks[0]] = ARange(w.arrs[ks[0]], p.keys, lo, lo + 2 * N, lambda i: ite(lt(i, lo + n), app('hit!', [i - lo] + vals, 'R'), app(scr, [i], 'R')))
        ex.note('a face writes the crossings it counts, and uses no more than two places per edge (contracts of the face kinds, P14 to P17)')
        return [(st, n)]
    return h


def defs(N):
    def f(c):
        n = lambda i: cross_n(c, N, i)
        return [('crossings of a face', and_(forall(0, c.c.len, lambda i: eq(n(i), face_n(c, N, i))), forall(0, c.c.len, lambda i: forall_u(lambda t: eq(cross_t(c, N, i, t), face_t(c, N, i, t)))))),
                ('crossings before a face', and_(eq(before(I(0)), I(0)), forall(0, c.c.len, lambda i: eq(before(i + 1), before(i) + n(i))))),
                ('faces hit before a face', and_(eq(hit(I(0)), I(0)), forall(0, c.c.len, lambda i: eq(hit(i + 1), hit(i) + b2i(lt(I(0), n(i)))))))]
    return f


def inv(N, tab):
    def g(L):
        c = L.ex.old
        if enclosing(L): return []
        n = lambda i: cross_n(c, N, i)
        out = [('crossings so far', lambda lv: and_(le(I(0), before(lv.k)), le(before(lv.k), lv.k * 2 * N))), ('faces so far', lambda lv: and_(le(I(0), hit(lv.k)), le(hit(lv.k), lv.k))),
               ('earlier crossings', lambda lv: forall(0, lv.k, lambda i: and_(le(I(0), before(i)), le(before(i) + n(i), before(lv.k))))),
               ('earlier faces', lambda lv: forall(0, lv.k, lambda i: and_(le(I(0), hit(i)), le(hit(i) + b2i(lt(I(0), n(i))), hit(lv.k)))))]
        for x in L.ints():
            for nm, t in (('crossings', lambda k: before(k)), ('crossings in bytes', lambda k: before(k) * 8), ('faces', lambda k: hit(k)), ('faces in bytes', lambda k: hit(k) * 4), ('offsets in bytes', lambda k: hit(k) * 4 + 4), ('offsets', lambda k: hit(k) + 1)):
                out.append(('counts ' + nm, lambda lv, x=x, t=t: eq(x(lv), t(lv.k))))
        for o, key, rd, ini in written(L):
            if o.name == 'co':
                out.append(('crossings stored', lambda lv, rd=rd: forall(0, lv.k, lambda i: forall(0, n(i), lambda t: eq(rd(lv, before(i) + t), cross_t(c, N, i, t))))))
            if o.name == 'fa':
                out.append(('faces stored', lambda lv, rd=rd: forall(0, lv.k, lambda i: implies(lt(I(0), n(i)), eq(rd(lv, hit(i)), i)))))
                if ini: out.append(('beyond them unchanged', lambda lv, rd=rd, ini=ini: forall(hit(lv.k), c.n, lambda q: eq(rd(lv, q), ini(q)))))
            if o.name == 'of':
                out.append(('offsets stored', lambda lv, rd=rd: forall(0, lv.k, lambda i: implies(lt(I(0), n(i)), and_(eq(rd(lv, hit(i)), before(i)), eq(rd(lv, hit(i) + 1), before(i) + n(i)))))))
                out.append(('first offset', lambda lv, rd=rd: eq(rd(lv, I(0)), I(0))))
                out.append(('last offset', lambda lv, rd=rd: eq(rd(lv, hit(lv.k)), before(lv.k))))
                if ini: out.append(('beyond them unchanged', lambda lv, rd=rd, ini=ini: forall(hit(lv.k) + 1, c.n + 1, lambda q: eq(rd(lv, q), ini(q)))))
        return out
    return g


def stored(c, N):
    n = lambda i: cross_n(c, N, i)
    return [('crossings of every face, in order', forall(0, c.c.len, lambda i: forall(0, n(i), lambda t: eq(c.new.co.at(before(i) + t), cross_t(c, N, i, t)))))]


def all_post(N): return lambda c: [('number of crossings', eq(c.ret, before(c.c.len)))] + stored(c, N)


def tab_post(N):
    def f(c):
        n = lambda i: cross_n(c, N, i)
        nf = c.c.len
        return [('number of crossings and of faces hit', and_(eq(c.new.o[0], before(nf)), eq(c.new.o[1], hit(nf))))] + stored(c, N) + [
            ('faces hit are listed in order', forall(0, nf, lambda i: implies(lt(I(0), n(i)), eq(c.new.fa.at(hit(i)), i)))), ('offsets start at zero', eq(c.new.of.at(0), I(0))),
            ('offsets bound the crossings of each face', forall(0, nf, lambda i: implies(lt(I(0), n(i)), and_(eq(c.new.of.at(hit(i)), before(i)), eq(c.new.of.at(hit(i) + 1), before(i) + n(i)))))),
            ('no more offsets or faces written', and_(forall(hit(nf), c.n, lambda q: eq(c.new.fa.at(q), c.fa.at(q))), forall(hit(nf) + 1, c.n + 1, lambda q: eq(c.new.of.at(q), c.of.at(q)))))]
    return f


def n_stored(c, N, tab):
    """the same against the crossings of each face taken one by one"""
    nf = c.c.len
    n = lambda i: c.new.rn.at(i)
    S = lambda i: Sum(0, i, lambda q: n(q))
    H = lambda i: Sum(0, i, lambda q: b2i(lt(I(0), n(q))))
    r = [('number of crossings', eq(c.new.o[0] if tab else c.ret, S(nf))), ('crossings of every face, in order', forall(0, nf, lambda i: forall(0, n(i), lambda t: eq(c.new.co.at(S(i) + t), c.new.rc.at(i * 2 * N + t)))))]
    if tab:
        r += [('number of faces hit', eq(c.new.o[1], H(nf))), ('faces hit are listed in order', forall(0, nf, lambda i: implies(lt(I(0), n(i)), eq(c.new.fa.at(H(i)), i)))), ('offsets start at zero', eq(c.new.of.at(0), I(0))),
              ('offsets bound the crossings of each face', forall(0, nf, lambda i: implies(lt(I(0), n(i)), and_(eq(c.new.of.at(H(i)), S(i)), eq(c.new.of.at(H(i) + 1), S(i + 1)))))),
              ('no more offsets or faces written', and_(forall(H(nf), c.n, lambda q: eq(c.new.fa.at(q), c.fa.at(q))), forall(H(nf) + 1, c.n + 1, lambda q: eq(c.new.of.at(q), c.of.at(q)))))]
    return r


def through(P, N):
    G = genmesh(P, N)

    def f(d, rng):
        G(d, rng)
        nf = d['c.len']
        xs, ys = d['v'][0::2], d['v'][1::2]
        px, py = rng.uniform(min(xs) - .3, max(xs) + .3), rng.uniform(min(ys) - .3, max(ys) + .3)
        dx, dy = unitdir(rng)
        t = rng.choice([0, 2, 5])
        for q, x in enumerate((px - t * dx, py - t * dy, dx, dy)): d['r[%d]' % q] = x
        d['m'] = 2 * N * nf + rng.choice([0, 3]); d['co'] = [rng.uniform(-1, 1) for _ in range(d['m'])]
        d['n'] = nf + rng.choice([0, 2]); d['rn'] = [0] * d['n']; d['rc'] = [0.] * d['m']
        if 'of' in d:
            d['of'] = [rng.randrange(100) for _ in range(d['n'] + 1)]; d['fa'] = [rng.randrange(100) for _ in range(d['n'])]
    return f


def ready(N):
    def f(c):
        q = c.r[2] * c.r[2] + c.r[3] * c.r[3]
        return inrange(N)(c) + [('unit direction', and_(le(R(Fraction(999999, 10 ** 6)), q), le(q, R(Fraction(1000001, 10 ** 6))))), ('room', and_(le(c.c.len * 2 * N, c.m), le(c.c.len, c.n)))]
    return f


for k, P, N in KINDS:
    ray = [Buf('r', n=4)]
    H = [(r'Polytope.*9intersect', crossings(N))]
    co = [Arr('co', 'f8', 'm', mode='inout'), Int('m', 0, 2 ** 28, ghi=12)]
    ref = [Arr('rn', 'i4', 'n', mode='inout'), Arr('rc', 'f8', 'm', mode='inout')]
    O = dict(pre=ready(N), fix=through(P, N), defs=defs(N), hooks=H, samples=1000, budget=200, opts=dict(loop_timeout=12, nosum=True))
    T(k + '_all', mesh(N) + ray + co + [Int('n', 0, LIM, ghi=12)] + ref, 'i4', inv=inv(N, False), post=all_post(N), npost=lambda c, N=N: n_stored(c, N, False), **O)
    T(k + '_tab', mesh(N) + ray + co + [Arr('of', 'i4', lambda v: v.n + 1, mode='inout'), Arr('fa', 'i4', 'n', mode='inout'), Int('n', 0, LIM, ghi=12), Out('o', 'i4', n=2)] + ref, inv=inv(N, True), post=tab_post(N),
      npost=lambda c, N=N: n_stored(c, N, True), **O)


def genhits(d, rng):
    n = rng.randint(1, 6)
    of = [0]; co = []
    for _ in range(n):
        w = rng.choice([1, 2, 2, 2, 3, 4, 6])
        b = rng.uniform(0, 9)
        cs = [b + rng.choice([0, .25, .5, 1, rng.random()]) for _ in range(w)]
        if rng.random() < .5: cs.sort(reverse=rng.random() < .5)
        co += cs; of.append(len(co))
    if rng.random() < .3:
        x = rng.choice(co)
        co[rng.randrange(len(co))] = x
    d['n'] = n; d['h'] = len(co); d['co'] = co; d['of'] = of; d['fa'] = rng.sample(range(50), n)
    d['sc'] = [0.] * len(co); d['so'] = [7] * (n + 1); d['sf'] = [7] * n; d['pm'] = [7] * n; d['key'] = [0.] * n


def table(c): return [('offsets bound non-empty blocks', and_(eq(c.of.at(0), I(0)), eq(c.of.at(c.n), c.h), forall(0, c.n, lambda i: lt(c.of.at(i), c.of.at(i + 1)))))]


def ordered(c):
    p = lambda i: c.new.pm.at(i)
    cnt = lambda A, lo, hi, x: Sum(lo, hi, lambda q: b2i(eq(A.at(q), x)))
    return [('every face once', and_(forall(0, c.n, lambda i: and_(le(I(0), p(i)), lt(p(i), c.n))), forall(0, c.n, lambda i: forall(i + 1, c.n, lambda j: ne(p(i), p(j)))))),
            ('faces by the average of their two smallest crossings', forall(0, c.n - 1, lambda i: le(c.new.key.at(p(i)), c.new.key.at(p(i + 1))))),
            ('each face keeps its crossings', and_(eq(c.new.so.at(0), I(0)), forall(0, c.n, lambda i: and_(eq(c.new.sf.at(i), c.fa.at(p(i))), eq(c.new.so.at(i + 1) - c.new.so.at(i), c.of.at(p(i) + 1) - c.of.at(p(i))))))),
            ('crossings of a face ascending', forall(0, c.n, lambda i: forall(c.new.so.at(i), c.new.so.at(i + 1) - 1, lambda q: le(c.new.sc.at(q), c.new.sc.at(q + 1))))),
            ('no crossing lost', forall(0, c.n, lambda i: forall(c.of.at(p(i)), c.of.at(p(i) + 1), lambda q: eq(cnt(c.new.sc, c.new.so.at(i), c.new.so.at(i + 1), c.co.at(q)), cnt(c.co, c.of.at(p(i)), c.of.at(p(i) + 1), c.co.at(q))))))]


T('rays', [Arr('co', 'f8', 'h'), Arr('of', 'i4', lambda v: v.n + 1), Arr('fa', 'i4', 'n'), Arr('sc', 'f8', 'h', mode='inout'), Arr('so', 'i4', lambda v: v.n + 1, mode='inout'), Arr('sf', 'i4', 'n', mode='inout'), Arr('pm', 'i4', 'n', mode='inout'),
           Int('h', 1, LIM, ghi=12), Int('n', 1, LIM, ghi=9), Arr('key', 'f8', 'n', mode='inout')], pre=table, fix=genhits, post=ordered, hooks=[SORT_HOOK], samples=3000, bounded='up to 6 faces of up to 6 crossings each')
