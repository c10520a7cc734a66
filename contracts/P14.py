"""P14: straight line segments."""
from .lib import *
HARNESS = 'P14.cpp'
TARGETS = []


def T(*a, **k): TARGETS.append(Target(*a, **k))


def unit3(rng, D):
    if D == 1: return [rng.choice([1.0, -1.0])]
    if D == 2: return list(unitdir(rng))
    t = rng.choice([(1, 2, 2, 3), (2, 3, 6, 7), (1, 4, 8, 9), (0, 3, 4, 5), (1, 0, 0, 1), (2, 6, 9, 11)])
    v = [x / t[3] * rng.choice([1, -1]) for x in t[:3]]
    rng.shuffle(v)
    return v


for D in (1, 2, 3):
    p = 'l%d_' % D
    L = Buf('v', n=2 * D)
    P = lambda n, m='in', D=D: Buf(n, n=D, mode=m)
    seg = lambda c, D=D: (c.v[:D], c.v[D:])
    nz = lambda c, D=D: [('distinct end points', lt(R(0), sqdist(c.v[:D], c.v[D:])))]
    T(p + 'make', [P('a'), P('b'), Out('o', n=2 * D)], post=lambda c: [('vertices in order', veq(c.new.o, list(c.a) + list(c.b)))])
    T(p + 'vert', [L, Int('i', 0, 1), P('o', 'out')], post=lambda c, seg=seg: [('vertex i', and_(*[implies(eq(c.i, I(k)), veq(c.new.o, seg(c)[k])) for k in range(2)]))])
    T(p + 'at', [L, Scalar('r'), P('o', 'out')], post=lambda c, D=D: [
        ('point at r', and_(*[eq(c.new.o[k], c.v[k] * (1 - c.r) + c.v[k + D] * c.r) for k in range(D)])),
        ('starts at the first vertex', implies(eq(c.r, R(0)), veq(c.new.o, c.v[:D]))),
        ('ends at the last vertex', implies(eq(c.r, R(1)), veq(c.new.o, c.v[D:])))])
    T(p + 'jac', [L, Scalar('r'), P('o', 'out')], post=lambda c, D=D: [('derivative is v1 - v0', and_(*[eq(c.new.o[k], c.v[k + D] - c.v[k]) for k in range(D)]))])
    T(p + 'len', [L], 'f8', post=lambda c, D=D: [('Euclidean length', and_(le(R(0), c.ret), eq(c.ret * c.ret, sqdist(c.v[:D], c.v[D:]))))])
    T(p + 'box', [L, P('lo', 'out'), P('hi', 'out')], post=lambda c, D=D: [
        ('tight box', and_(*[and_(is_min(c.new.lo[k], [c.v[k], c.v[k + D]]), is_max(c.new.hi[k], [c.v[k], c.v[k + D]])) for k in range(D)]))])

    def clampproj(c, D=D):
        a, b = c.v[:D], c.v[D:]
        ab = vsub(b, a)
        A, B = dot(ab, ab), dot(vsub(c.p, a), ab)
        return a, ab, A, B

    def near(c, cp=clampproj):
        a, ab, A, B = cp(c)
        r = c.ret
        return [('parameter in [0, 1]', and_(le(R(0), r), le(r, R(1)))),
                ('foot of the perpendicular when it falls on the segment', implies(and_(le(R(0), B), le(B, A)), eq(r * A, B))),
                ('first vertex when the foot is before it', implies(lt(B, R(0)), eq(r, R(0)))),
                ('last vertex when the foot is beyond it', implies(lt(A, B), eq(r, R(1))))]
    T(p + 'near', [L, P('p')], 'f8', pre=nz, post=near)

    def sd(c, cp=clampproj):
        a, ab, A, B = cp(c)
        C = dot(vsub(c.p, a), vsub(c.p, a))
        return [('nearest on the line', implies(and_(le(R(0), B), le(B, A)), eq(c.ret * A, C * A - B * B))),
                ('distance to the first vertex', implies(lt(B, R(0)), eq(c.ret, C))),
                ('distance to the last vertex', implies(lt(A, B), eq(c.ret, A - 2 * B + C))),
                ('no point of the segment is nearer', le(c.ret, A * c.t * c.t - 2 * B * c.t + C))]
    T(p + 'sd', [L, P('p'), Scalar('t', lo=0, hi=1)], 'f8', pre=nz, post=sd)

    def di(c, cp=clampproj):
        a, ab, A, B = cp(c)
        C = dot(vsub(c.p, a), vsub(c.p, a))
        q = c.ret * c.ret
        return [('non-negative', le(R(0), c.ret)),
                ('nearest on the line', implies(and_(le(R(0), B), le(B, A)), eq(q * A, C * A - B * B))),
                ('distance to the first vertex', implies(lt(B, R(0)), eq(q, C))),
                ('distance to the last vertex', implies(lt(A, B), eq(q, A - 2 * B + C)))]
    T(p + 'd', [L, P('p')], 'f8', pre=nz, post=di)
    ud = lambda c: [('unit direction', le(abs_(dot(c.d, c.d) - R(1)), R(Fraction(1, 10 ** 6))))]
    udn = lambda d, rng, D=D: d.update({'d[%d]' % k: x for k, x in enumerate(unit3(rng, D))})
    T(p + 'ray', [P('o'), P('d'), Scalar('r'), P('x', 'out')], pre=ud, fix=udn, tol=1e-6, post=lambda c, D=D: [('o + r d', and_(*[eq(c.new.x[k], c.o[k] + c.r * c.d[k]) for k in range(D)]))])
    T(p + 'rayinv', [P('o'), P('d'), P('x', 'out')], pre=lambda c, D=D, ud=ud: ud(c) + [ne(c.d[k], R(0)) for k in range(D)], fix=udn,
      post=lambda c, D=D: [('reciprocal components', and_(*[eq(c.new.x[k] * c.d[k], R(1)) for k in range(D)]))])

nz2 = lambda c: [('distinct end points', lt(R(0), sqdist(c.v[:2], c.v[2:])))]
T('l2_rot', floor=1.0, params=[Buf('v', n=4), Out('o', n=2)], pre=nz2, post=lambda c: [
    ('last vertex on the positive axis at the length', and_(lt(R(0), c.new.o[0]), eq(sq(c.new.o[0]), sqdist(c.v[:2], c.v[2:])), eq(c.new.o[1], R(0))))])


def rotp(c):
    a = vsub(c.v[2:], c.v[:2])
    n = sqrt(dot(a, a))
    return [('component along the segment', eq(c.new.o[0] * n, dot(a, c.p))), ('component to its left', eq(c.new.o[1] * n, cross2(a, c.p)))]


T('l2_rotp', [Buf('v', n=4), Buf('p', n=2), Out('o', n=2)], pre=nz2, post=rotp)
T('l2_left', [Buf('v', n=4), Buf('p', n=2)], 'b', post=lambda c: [('left of or on the line', iff(c.ret, le(R(0), orient(c.v[:2], c.v[2:], c.p))))])
T('p2_ccw', [Buf('a', n=2), Buf('b', n=2), Buf('c', n=2)], 'b', post=lambda c: [('counter-clockwise or collinear', iff(c.ret, le(R(0), orient(c.a, c.b, c.old.c))))])
T('p2_mid', [Buf('a', n=2), Buf('b', n=2), Out('o', n=2)], post=lambda c: [('midpoint', and_(*[eq(2 * c.new.o[k], c.a[k] + c.b[k]) for k in range(2)]))])


def hit(c):
    a, b, o, d = c.v[:2], c.v[2:], c.o, c.d
    v, u = vsub(b, a), vsub(o, a)
    z = cross2(v, d)
    r = cross2(u, v) / z
    s = cross2(u, d) / z
    on = and_(le(R(0), s), le(s, R(1)), le(R(0), r))
    x = [o[k] + c.new.buf[0] * d[k] for k in range(2)]
    cr = lambda t: and_(*[eq(o[k] + t * d[k], a[k] + s * v[k]) for k in range(2)])
    return [('one hit iff the ray crosses the segment', iff(eq(c.ret, I(1)), on)), ('zero or one hits', or_(eq(c.ret, I(0)), eq(c.ret, I(1)))),
            ('parameter of the crossing', implies(eq(c.ret, I(1)), eq(c.new.buf[0], r))),
            ('the reported point lies on the segment', implies(eq(c.ret, I(1)), and_(*[eq(x[k], a[k] + s * v[k]) for k in range(2)]))),
            ('no other ray parameter meets the segment line', implies(cr(c.t), eq(c.t, r)))]


T('l2_hit', [Buf('v', n=4), Buf('o', n=2), Buf('d', n=2), Scalar('t'), Out('buf', n=1)], 'i4',
  pre=lambda c: [('unit direction', le(abs_(dot(c.d, c.d) - R(1)), R(Fraction(1, 10 ** 6)))), ('not parallel', ne(cross2(vsub(c.v[2:], c.v[:2]), c.d), R(0)))],
  fix=lambda d, rng: d.update({'d[%d]' % k: x for k, x in enumerate(unitdir(rng))}), post=hit)
