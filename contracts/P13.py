"""P13: axis-aligned boxes."""
from .lib import *
import math
HARNESS = 'P13.cpp'
TARGETS = []
INF = R(10 ** 8)


def T(*a, **k): TARGETS.append(Target(*a, **k))


def genbox(d, rng, D, names=('b',)):
    for n in names:
        for k in range(D):
            a, b = d['%s[%d]' % (n, k)], d['%s[%d]' % (n, k + D)]
            d['%s[%d]' % (n, k)], d['%s[%d]' % (n, k + D)] = min(a, b), max(a, b)


for D in (1, 2, 3):
    p = 'b%d_' % D
    rng_ = range(D)
    P = lambda n, m='in', D=D: Buf(n, n=D, mode=m)
    B = lambda n='b', m='in', D=D: Buf(n, n=2 * D, mode=m)
    ok = lambda x, D=D: [le(x[k], x[k + D]) for k in range(D)]
    okb = lambda c, ok=ok: ok(c.b)
    okbc = lambda c, ok=ok: ok(c.b) + ok(c.old.c)
    fb = lambda d, rng, D=D: genbox(d, rng, D)
    fbc = lambda d, rng, D=D: genbox(d, rng, D, ('b', 'c'))
    ii = Int('i', 0, D - 1)
    T(p + 'make', [P('a'), P('b'), P('lo', 'out'), P('hi', 'out')], pre=lambda c, D=D: [le(c.a[k], c.b[k]) for k in range(D)],
      post=lambda c: [('corners', and_(veq(c.new.lo, c.a), veq(c.new.hi, c.b)))])
    T(p + 'mini', [B(), ii], 'f8', post=lambda c, D=D: [('minimum of axis i', and_(*[implies(eq(c.i, I(k)), eq(c.ret, c.b[k])) for k in range(D)]))])
    T(p + 'maxi', [B(), ii], 'f8', post=lambda c, D=D: [('maximum of axis i', and_(*[implies(eq(c.i, I(k)), eq(c.ret, c.b[k + D])) for k in range(D)]))])
    hull = lambda o, los, his, D=D: and_(*[and_(is_min(o[k], [x[k] for x in los]), is_max(o[k + D], [x[k] for x in his])) for k in range(D)])
    T(p + 'addp', [B(m='inout'), P('p')], pre=okb, fix=fb, post=lambda c, D=D, h=hull: [('smallest box containing both', h(c.new.b, [c.b[:D], c.p], [c.b[D:], c.p]))])
    T(p + 'plusp', [B(), P('p'), B('o', 'out')], pre=okb, fix=fb, post=lambda c, D=D, h=hull: [('smallest box containing both', h(c.new.o, [c.b[:D], c.p], [c.b[D:], c.p]))])
    T(p + 'addb', [B(m='inout'), B('c')], pre=okbc, fix=fbc, post=lambda c, D=D, h=hull: [('smallest box containing both', h(c.new.b, [c.b[:D], c.old.c[:D]], [c.b[D:], c.old.c[D:]]))])
    T(p + 'plusb', [B(), B('c'), B('o', 'out')], pre=okbc, fix=fbc, post=lambda c, D=D, h=hull: [('smallest box containing both', h(c.new.o, [c.b[:D], c.old.c[:D]], [c.b[D:], c.old.c[D:]]))])
    inr = lambda c, D=D: [and_(le(R(0) - INF, c.p[k]), le(c.p[k], INF)) for k in range(D)]
    T(p + 'emptyp', [P('p'), B('o', 'out')], pre=inr, post=lambda c, h=hull: [('empty box extended by a point is that point', h(c.new.o, [c.p], [c.p]))])
    T(p + 'emptyc', [P('p')], 'b', pre=lambda c, D=D: [and_(lt(R(0) - INF, c.p[k]), lt(c.p[k], INF)) for k in range(D)], post=lambda c: [('nothing is in the empty box', not_(c.ret))])
    T(p + 'ext', [B(), P('o', 'out')], post=lambda c, D=D: [('extents', and_(*[eq(c.new.o[k], c.b[k + D] - c.b[k]) for k in range(D)]))])
    T(p + 'exti', [B(), ii], 'f8', post=lambda c, D=D: [('extent of axis i', and_(*[implies(eq(c.i, I(k)), eq(c.ret, c.b[k + D] - c.b[k])) for k in range(D)]))])
    T(p + 'cent', [B(), P('o', 'out')], post=lambda c, D=D: [('centre', and_(*[eq(c.new.o[k] * 2, c.b[k + D] + c.b[k]) for k in range(D)]))])
    T(p + 'cont', [B(), P('p')], 'b', pre=okb, fix=fb, post=lambda c, D=D: [('contains iff within all bounds', iff(c.ret, and_(*[and_(le(c.b[k], c.p[k]), le(c.p[k], c.b[k + D])) for k in range(D)])))])
    e2 = R(X.flit(1e-7 * 1e-7))

    def near(d, rng, D=D):
        genbox(d, rng, D)
        for i in range(2 * D): d['c[%d]' % i] = d['b[%d]' % i] + (rng.uniform(-1, 1) * rng.choice([0, 1e-8, 1e-7, 3e-7]) if rng.random() < .9 else 1)
        genbox(d, rng, D, ('b', 'c'))
    T(p + 'approx', [B(), B('c')], 'b', pre=okbc, fix=near, post=lambda c, D=D, e2=e2: [
        ('both corners within the distance threshold', iff(c.ret, and_(lt(sqdist(c.b[:D], c.old.c[:D]), e2), lt(sqdist(c.b[D:], c.old.c[D:]), e2))))])

    def scaled(c, D=D):
        o = c.new.b
        return [('each extent scaled by the factor', and_(*[eq(o[k + D] - o[k], c.s * (c.b[k + D] - c.b[k])) for k in range(D)])),
                ('centre kept', and_(*[eq(o[k + D] + o[k], c.b[k + D] + c.b[k]) for k in range(D)]))]
    T(p + 'scale', [B(m='inout'), Scalar('s', glo=0)], pre=lambda c, okb=okb: okb(c) + [le(R(0), c.s)], fix=fb, post=scaled)
    T(p + 'meets', [B(), B('c')], 'b', pre=okbc, fix=fbc, post=lambda c, D=D: [
        ('boxes share a point', iff(c.ret, and_(*[and_(le(c.b[k], c.old.c[k + D]), le(c.old.c[k], c.b[k + D])) for k in range(D)])))])

    def bbof(c, D=D):
        q = c.p
        out = []
        for k in range(D):
            out += [('no point below the box', forall(0, c.n, lambda i, k=k: le(c.new.o[k], q.at(i, k)))),
                    ('no point above the box', forall(0, c.n, lambda i, k=k: le(q.at(i, k), c.new.o[k + D]))),
                    ('lower bound attained', exists(0, c.n, lambda i, k=k: eq(c.new.o[k], q.at(i, k)))),
                    ('upper bound attained', exists(0, c.n, lambda i, k=k: eq(c.new.o[k + D], q.at(i, k))))]
        return out
    for f in ('of', 'of2'):
        T(p + f, [Arr('p', 'f8', 'n', n=D), Int('n', 1, SIZE_LIM, ghi=6), B('o', 'out')], post=bbof, budget=120)


def raygen(par):
    def f(d, rng, D):
        genbox(d, rng, D)
        while True:
            v = [rng.gauss(0, 1) for _ in range(D)]
            if par:
                z = rng.randrange(D)
                v[z] = rng.choice([0.0, -0.0])
                if D == 3 and rng.random() < 0.4: v[(z + 1) % 3] = 0.0
            n = math.sqrt(sum(x * x for x in v))
            if n > 1e-3 and (par or min(abs(x) for x in v) > 1e-3 * n): break
        for k in range(D): d['d[%d]' % k] = v[k] / n
        if rng.random() < 0.6:     # aim at the box
            t = rng.uniform(-2, 5)
            for k in range(D): d['o[%d]' % k] = rng.uniform(d['b[%d]' % k], d['b[%d]' % (k + D)]) - t * d['d[%d]' % k]
    return f


for D in (2, 3):
    B = lambda n='b', m='in', D=D: Buf(n, n=2 * D, mode=m)
    P = lambda n, m='in', D=D: Buf(n, n=D, mode=m)
    mx = lambda xs: (lambda r: [r := ite(lt(r, x), x, r) for x in xs[1:]][-1] if len(xs) > 1 else r)(xs[0])
    mn = lambda xs: (lambda r: [r := ite(lt(x, r), x, r) for x in xs[1:]][-1] if len(xs) > 1 else r)(xs[0])

    def unit(c, D=D):
        n2 = dot(c.d, c.d)
        e = R(1e-5)
        return [lt(n2 - 1, e), lt(1 - n2, e)] + [le(c.b[k], c.b[k + D]) for k in range(D)]

    def inside(c, t, D=D): return and_(*[and_(le(c.b[k], c.o[k] + t * c.d[k]), le(c.o[k] + t * c.d[k], c.b[k + D])) for k in range(D)])

    def ent(c, D=D):
        """slab parameters (direction components non-zero)"""
        t = [((c.b[k] - c.o[k]) / c.d[k], (c.b[k + D] - c.o[k]) / c.d[k]) for k in range(D)]
        lo = [min_(*x) for x in t]; hi = [max_(*x) for x in t]
        return lo, hi

    def ray(c, ent=ent):
        a, b = c.new.r[0], c.new.r[1]
        lo, hi = ent(c)
        los = [R(0)] + lo; his = [INF] + hi
        meets = and_(*[le(x, y) for x in los for y in his])
        return [('hit reported exactly when the ray meets the box', iff(ne(a, R(-1)), meets)),
                ('miss is (-1, -1)', implies(eq(a, R(-1)), eq(b, R(-1)))),
                ('entry parameter', implies(ne(a, R(-1)), is_max(a, los))),
                ('exit parameter', implies(ne(a, R(-1)), is_min(b, his)))]
    for f in ('ray', 'rayi'):
        T('b%d_%s' % (D, f), [B(), P('o'), P('d'), P('r', 'out', 2)], pre=lambda c, unit=unit, D=D: unit(c) + [ne(c.d[k], R(0)) for k in range(D)], post=ray,
          fix=lambda d, rng, D=D: raygen(False)(d, rng, D), budget=200, tol=1e-7)

    def rayx(c, D=D):
        a, b = c.new.r[0], c.new.r[1]
        lo, hi = [R(0)], [INF]
        ok = TRUE
        for k in range(D):
            z = eq(c.d[k], R(0))
            lo.append(ite(z, R(0), ite(lt(R(0), c.d[k]), (c.b[k] - c.o[k]) / c.d[k], (c.b[k + D] - c.o[k]) / c.d[k])))
            hi.append(ite(z, INF, ite(lt(R(0), c.d[k]), (c.b[k + D] - c.o[k]) / c.d[k], (c.b[k] - c.o[k]) / c.d[k])))
            ok = and_(ok, implies(z, and_(le(c.b[k], c.o[k]), le(c.o[k], c.b[k + D]))))
        meets = and_(ok, *[le(x, y) for x in lo for y in hi])
        return [('hit reported exactly when the ray meets the box', iff(ne(a, R(-1)), meets)),
                ('miss is (-1, -1)', implies(eq(a, R(-1)), eq(b, R(-1)))),
                ('entry parameter', implies(ne(a, R(-1)), is_max(a, lo))),
                ('exit parameter', implies(ne(a, R(-1)), is_min(b, hi)))]
    for f in ('rayx', 'rayix'):
        T('b%d_%s' % (D, f), [B(), P('o'), P('d'), P('r', 'out', 2)],
          pre=lambda c, unit=unit, D=D: unit(c) + [or_(*[eq(c.d[k], R(0)) for k in range(D)])] +
          [implies(eq(c.d[k], R(0)), and_(ne(c.o[k], c.b[k]), ne(c.o[k], c.b[k + D]))) for k in range(D)], post=rayx,
          fix=lambda d, rng, D=D: raygen(True)(d, rng, D), tol=1e-7,
          bounded='directions parallel to a face rely on IEEE infinities, outside exact real arithmetic')
