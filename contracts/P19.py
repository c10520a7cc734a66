"""P19: regular grids."""
from .lib import *
HARNESS = 'P19.cpp'
TARGETS = []
Z = R(0)


def T(*a, **k): TARGETS.append(Target(*a, **k))


MAXI = 2 ** 31 - 1


def prod(xs):
    r = xs[0]
    for x in xs[1:]: r = r * x
    return r


for D in (1, 2, 3):
    p = 'g%d_' % D
    A = range(D)
    grid = lambda D=D: [Buf('m', n=D), Buf('s', n=D), Buf('n', 'i4', n=D, lo=1, hi=MAXI)]

    def valid(c, A=A): return [('positive spacing', and_(*[lt(Z, c.s[k]) for k in A])), ('at least one cell per direction', and_(*[lt(I(0), c.n[k]) for k in A]))]

    def gen(d, rng, A=A):
        for k in A:
            d['s[%d]' % k] = rng.choice([.5, 1., .25, 2., rng.uniform(.1, 3)])
            d['n[%d]' % k] = rng.randrange(1, 6)
            d['m[%d]' % k] = rng.choice([0., -1., 2.5, rng.uniform(-4, 4)])
            if 'ix[%d]' % k in d: d['ix[%d]' % k] = rng.randrange(d['n[%d]' % k])
            if 'jx[%d]' % k in d: d['jx[%d]' % k] = rng.randrange(d['n[%d]' % k])
            w = lambda: d['m[%d]' % k] + d['s[%d]' % k] * d['n[%d]' % k] * rng.choice([rng.uniform(-.3, 1.3), rng.random(), 0, 1, rng.randrange(4) / max(1, d['n[%d]' % k])])
            if 'p[%d]' % k in d: d['p[%d]' % k] = w()
            if 'lo[%d]' % k in d:
                x, y = sorted((w(), w()))
                if x == y: y += .5
                d['lo[%d]' % k], d['hi[%d]' % k] = x, y
        if 'q' in d: d['q'] = rng.randrange(6)

    def whole(c, m, s, n, D=D, A=A):
        o, q = c.new.o, c.new.k
        r = lambda j, v: and_(*[eq(o[j * D + k], v(k)) for k in A])
        ext = lambda k: s[k] * toreal(n[k])
        return [('lower corner', and_(r(0, lambda k: m[k]), r(1, lambda k: m[k]))), ('spacing', and_(r(2, lambda k: s[k]), r(3, lambda k: s[k]))),
                ('cell counts', and_(*[and_(eq(q[k], n[k]), eq(q[D + k], n[k])) for k in A])), ('extent is spacing times count', and_(r(4, ext), r(5, ext))),
                ('upper corner is lower corner plus extent', and_(r(6, lambda k: m[k] + ext(k)), r(7, lambda k: m[k] + ext(k)))),
                ('bounding box', and_(r(8, lambda k: m[k]), r(9, lambda k: m[k] + ext(k))))]
    outs = [Out('o', n=10 * D), Out('k', 'i4', n=2 * D)]
    T(p + 'make', grid() + outs, pre=valid, fix=gen, post=lambda c, w=whole: w(c, c.m, c.s, c.n))
    T(p + 'frombox', [Buf('lo', n=D), Buf('hi', n=D)] + [Out('o', n=10 * D), Out('k', 'i4', n=2 * D)], pre=lambda c, A=A: [and_(*[lt(c.lo[k], c.hi[k]) for k in A])],
      fix=lambda d, rng, A=A: d.update({'hi[%d]' % k: d['lo[%d]' % k] + rng.uniform(.1, 3) for k in A}),
      post=lambda c, w=whole, A=A: w(c, c.lo, [c.hi[k] - c.lo[k] for k in A], [I(1)] * len(A)))
    T(p + 'total', grid(), 'i4', pre=lambda c, v=valid: v(c) + [('count fits', and_(*[le(prod(c.n[:j + 1]), I(MAXI)) for j in range(len(c.n))]))], fix=gen, post=lambda c: [('product of the counts', eq(c.ret, prod(c.n)))])

    def inside(c, nm, A=A): return [('index %s names a cell' % nm, and_(*[and_(le(I(0), getattr(c, nm)[k]), lt(getattr(c, nm)[k], c.n[k])) for k in A]))]

    def flat(c, A=A, D=D):
        ix, jx, n, o = c.ix, c.jx, c.n, c.new.o
        f = ix[D - 1]
        for k in range(D - 2, -1, -1): f = ix[k] + n[k] * f
        same = and_(*[eq(ix[k], jx[k]) for k in A])
        return [('first direction runs fastest', and_(eq(o[0], f), eq(o[2], f))), ('within the number of cells', and_(le(I(0), o[0]), lt(o[0], prod(n)))),
                ('distinct cells have distinct numbers', implies(eq(o[0], o[1]), same))]
    fits = lambda c: [('count fits', and_(*[le(prod(c.n[:j + 1]), I(MAXI)) for j in range(len(c.n))])), ('count fits', and_(*[le(prod(c.n[j:]), I(MAXI)) for j in range(len(c.n))]))]
    T(p + 'flat', grid() + [Buf('ix', 'i4', n=D), Buf('jx', 'i4', n=D), Out('o', 'i4', n=3)], pre=lambda c, v=valid, i=inside, f=fits: v(c) + i(c, 'ix') + i(c, 'jx') + f(c), fix=gen, post=flat)

    def cell(c, A=A, D=D):
        o = c.new.o
        lo = lambda k: c.m[k] + c.s[k] * toreal(c.ix[k])
        return [('box of the cell', and_(*[and_(eq(o[k], lo(k)), eq(o[D + k], lo(k) + c.s[k])) for k in A])),
                ('centroid is the middle of the box', and_(*[eq(2 * o[2 * D + k], o[k] + o[D + k]) for k in A]))]
    T(p + 'cell', grid() + [Buf('ix', 'i4', n=D), Out('o', n=3 * D)], pre=lambda c, v=valid, i=inside: v(c) + i(c, 'ix'), fix=gen, post=cell)

    def fitsp(c, xs, A=A): return [('point offset representable as an index', and_(*[le(abs_(x[k] - c.m[k]), R(2 ** 31 - 2) * c.s[k]) for x in xs for k in A]))]

    def find(c, A=A):
        o = c.new.o
        out = []
        for k in A:
            lo = c.m[k]
            hi = c.m[k] + c.s[k] * toreal(c.n[k])
            out += [('outside: reported as such (axis %d)' % k, implies(or_(lt(c.p[k], lo), le(hi, c.p[k])), eq(o[k], I(-1)))),
                    ('inside: the cell whose box holds the point (axis %d)' % k, implies(and_(le(lo, c.p[k]), lt(c.p[k], hi)), and_(le(I(0), o[k]), lt(o[k], c.n[k]),
                     le(lo + c.s[k] * toreal(o[k]), c.p[k]), lt(c.p[k], lo + c.s[k] * (toreal(o[k]) + 1)))))]
        return out
    T(p + 'find', grid() + [Buf('p', n=D), Out('o', 'i4', n=D)], pre=lambda c, v=valid, f=fitsp: v(c) + f(c, [c.p]), fix=gen, post=find, tol=1e-12)

    def rangep(c, A=A, D=D):
        o, q = c.new.o, c.q
        out = []
        for k in A:
            cl_ = c.m[k] + c.s[k] * toreal(q)
            meets = and_(le(I(0), q), lt(q, c.n[k]), lt(c.lo[k], cl_ + c.s[k]), lt(cl_, c.hi[k]))
            out += [('every cell meeting the box lies in the range (axis %d)' % k, implies(meets, and_(le(o[k], q), le(q, o[D + k])))),
                    ('range within the grid or absent (axis %d)' % k, or_(and_(le(I(0), o[k]), le(o[k], o[D + k]), lt(o[D + k], c.n[k])), and_(eq(o[k], I(-1)), eq(o[D + k], I(-1))))),
                    ('no cell of the range lies beyond the box (axis %d)' % k, implies(and_(le(I(0), q), le(o[k], q), le(q, o[D + k])), and_(le(cl_, c.hi[k]), le(c.lo[k], cl_ + c.s[k]))))]
        return out
    T(p + 'range', grid() + [Buf('lo', n=D), Buf('hi', n=D), Int('q', None, None), Out('o', 'i4', n=2 * D)],
      pre=lambda c, v=valid, f=fitsp, A=A: v(c) + f(c, [c.lo, c.hi]) + [('box', and_(*[lt(c.lo[k], c.hi[k]) for k in A]))], fix=gen, post=rangep, tol=1e-12)
