"""P08: fixed-size vectors, with and without vector registers."""
from .lib import *
UNITS = {'simd': dict(harness='P08.cpp'), 'nosimd': dict(harness='P08.cpp', config=dict(SIMD_VEC=0))}
TARGETS = []
LIM = 2**12


def targets(unit):
    def add_(fn, params, ret=None, post=None, **kw):
        t = Target(fn, params, ret, post=post, **kw)
        t.modkey = unit
        t.name = fn if unit == 'simd' else fn + '@' + unit
        TARGETS.append(t)

    for P, D, k in [('f', 1, 'f8'), ('f', 2, 'f8'), ('f', 3, 'f8'), ('f', 4, 'f8'), ('i', 2, 'i4'), ('i', 3, 'i4')]:
        p = '%s%d_' % (P, D)
        isf = P == 'f'
        kw = {} if isf else dict(lo=-LIM, hi=LIM)
        B = lambda n, m='in', D=D, k=k, kw=kw: Buf(n, k, D, mode=m, **(kw if m != 'out' else {}))
        O = lambda B=B: B('o', 'out')
        S = lambda k=k, kw=kw: Scalar('s', k, **kw)
        rng = range(D)
        small = not isf

        def each(nm, f, which='o', rng=rng):
            return lambda c: [('component-wise ' + nm, and_(*[eq(getattr(c.new, which)[i], f(c, i)) for i in rng]))]
        ops2 = dict(add=lambda a, b: a + b, sub=lambda a, b: a - b, mul=lambda a, b: a * b)
        for n, f in ops2.items():
            add_(p + n + 'v', [B('u'), B('v'), O()], post=each(n, lambda c, i, f=f: f(c.u[i], c.v[i])))
            add_(p + 'i' + n + 'v', [B('u', 'inout'), B('v')], post=each(n, lambda c, i, f=f: f(c.u[i], c.v[i]), 'u'))
            add_(p + 'i' + n + 's', [B('u', 'inout'), S()], post=each(n, lambda c, i, f=f: f(c.u[i], c.s), 'u'))
            add_(p + n + 's', [B('u'), S(), O()], post=each(n, lambda c, i, f=f: f(c.u[i], c.s)))
            add_(p + 's' + n, [B('u'), S(), O()], post=each(n, lambda c, i, f=f: f(c.s, c.u[i])))
        add_(p + 'sets', [B('u', 'inout'), S()], post=each('assignment', lambda c, i: c.s, 'u'))
        add_(p + 'neg', [B('u'), O()], post=each('negation', lambda c, i: 0 - c.u[i]))
        add_(p + 'zero', [O()], post=each('zero', lambda c, i, isf=isf: R(0) if isf else I(0)))
        for n, f in dict(min=min_, max=max_).items():
            add_(p + 'i' + n, [B('u', 'inout'), B('v')], post=each(n, lambda c, i, f=f: f(c.u[i], c.v[i]), 'u'))
            add_(p + n, [B('u'), B('v'), O()], post=each(n, lambda c, i, f=f: f(c.u[i], c.v[i])))
        for n in ('dot', 'fdot'):
            add_(p + n, [B('u'), B('v')], k, post=lambda c: [('sum of products', eq(c.ret, dot(c.u, c.v)))])
        for n in ('sqn', 'fsqn'):
            add_(p + n, [B('u')], k, post=lambda c: [('sum of squares', eq(c.ret, dot(c.u, c.u)))])
        add_(p + 'sqd', [B('u'), B('v')], k, post=lambda c: [('sum of squared differences', eq(c.ret, sqdist(c.u, c.v)))])

        def lex(c, D=D):
            e = FALSE
            for i in reversed(range(D)): e = or_(lt(c.u[i], c.v[i]), and_(eq(c.u[i], c.v[i]), e))
            return e
        alleq = lambda c, D=D: and_(*[eq(c.u[i], c.v[i]) for i in range(D)])
        cmp = dict(eq=alleq, ne=lambda c, q=alleq: not_(q(c)), lt=lex, le=lambda c, q=alleq, l=lex: or_(q(c), l(c)),
                   gt=lambda c, q=alleq, l=lex: and_(not_(q(c)), not_(l(c))), ge=lambda c, l=lex: not_(l(c)))

        def tie(d, rng, D=D, k=k):
            if rng.random() < 0.7:
                j = rng.randint(0, D)
                for i in range(j): d['v[%d]' % i] = d['u[%d]' % i]
        for n, f in cmp.items():
            add_(p + n, [B('u'), B('v')], 'b', post=lambda c, f=f: [('lexicographic comparison', iff(c.ret, f(c)))], fix=tie)
        add_(p + 'at', [B('u'), Int('i', 0, D - 1)], k, post=lambda c, D=D: [('component i', implies(eq(c.i, I(j)), eq(c.ret, c.u[j]))) for j in range(D)])
        add_(p + 'put', [B('u', 'inout'), Int('i', 0, D - 1), S()], post=lambda c, D=D: [
            ('writes component i and no other', eq(c.new.u[j], ite(eq(c.i, I(j)), c.s, c.u[j]))) for j in range(D)])
        add_(p + 'beg', [B('u'), Buf('o', k, D, mode='out')], post=each('iteration visits the components in order', lambda c, i: c.u[i]))
        if not isf: continue
        nz = lambda c, D=D: [ne(c.v[i], R(0)) for i in range(D)]
        pos = lambda c: [lt(R(0), dot(c.u, c.u))]
        add_(p + 'divv', [B('u'), B('v'), O()], pre=nz, post=each('quotient', lambda c, i: c.u[i] / c.v[i]))
        add_(p + 'idivv', [B('u', 'inout'), B('v')], pre=nz, post=each('quotient', lambda c, i: c.u[i] / c.v[i], 'u'))
        sn = lambda c: [ne(c.s, R(0))]
        add_(p + 'idivs', [B('u', 'inout'), S()], pre=sn, post=each('quotient', lambda c, i: c.u[i] / c.s, 'u'))
        add_(p + 'divs', [B('u'), S(), O()], pre=sn, post=each('quotient', lambda c, i: c.u[i] / c.s))
        add_(p + 'sdiv', [B('u'), S(), O()], pre=lambda c, D=D: [ne(c.u[i], R(0)) for i in range(D)], post=each('quotient', lambda c, i: c.s / c.u[i]))
        for n in ('norm', 'fnorm'):
            add_(p + n, [B('u')], 'f8', post=lambda c: [('square is the squared norm', eq(c.ret * c.ret, dot(c.u, c.u))), ('non-negative', le(R(0), c.ret))])
        add_(p + 'dist', [B('u'), B('v')], 'f8', post=lambda c: [('square is the squared distance', eq(c.ret * c.ret, sqdist(c.u, c.v))), ('non-negative', le(R(0), c.ret))])

        def unit_(which, D=D):
            def post(c):
                o = getattr(c.new, which)
                n = sqrt(dot(c.u, c.u))
                return [('direction kept and length one', and_(*[eq(o[i] * n, c.u[i]) for i in range(D)]))]
            return post
        add_(p + 'inormalize', [B('u', 'inout')], pre=pos, post=unit_('u'))
        add_(p + 'normalized', [B('u'), O()], pre=pos, post=unit_('o'))
        add_(p + 'fnormalized', [B('u'), O()], pre=pos, post=unit_('o'))

        def near(d, rng, D=D):
            for i in range(D):
                if rng.random() < 0.8: d['v[%d]' % i] = d['u[%d]' % i] + rng.uniform(-1, 1) * rng.choice([0, 1e-8, 1e-7, 3e-7])
        e2 = X.flit(1e-7 * 1e-7)
        add_(p + 'approx', [B('u'), B('v')], 'b', post=lambda c: [('distance below the default threshold', iff(c.ret, lt(sqdist(c.u, c.v), R(e2))))], fix=near)
        add_(p + 'approxe', [B('u'), B('v'), Scalar('e')], 'b', post=lambda c: [('distance below the given threshold', iff(c.ret, lt(sqdist(c.u, c.v), c.e)))])
    V2 = lambda n, m='in': Buf(n, n=2, mode=m)
    V3 = lambda n, m='in': Buf(n, n=3, mode=m)
    for n in ('cross', 'fcross'):
        add_('f2_' + n, [V2('u'), V2('v')], 'f8', post=lambda c: [('2-d cross product', eq(c.ret, cross2(c.u, c.v)))])

        def c3(c):
            u, v = c.u, c.v
            w = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
            return [('3-d cross product', veq(c.new.o, w))]
        add_('f3_' + n, [V3('u'), V3('v'), V3('o', 'out')], post=c3)
    add_('f2_make', [Scalar('a'), Scalar('b'), V2('o', 'out')], post=lambda c: [('components in order', veq(c.new.o, [c.a, c.b]))])
    add_('f3_make', [Scalar('a'), Scalar('b'), Scalar('c'), V3('o', 'out')], post=lambda c: [('components in order', veq(c.new.o, [c.a, c.b, c._old.c if hasattr(c, "_old") else c.c]))])
    add_('f2_makei', [Int('a'), Int('b'), V2('o', 'out')], post=lambda c: [('components in order', veq(c.new.o, [toreal(c.a), toreal(c.b)]))])


targets('simd')
targets('nosimd')
