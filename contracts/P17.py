"""P17: quadratic segments."""
from .lib import *
HARNESS = 'P17.cpp'
NOINLINE = ['solveCubic', 'pointClosestTo']
TARGETS = []
import re
Z = R(0)
E2 = R(1e-14)


def T(*a, **k): TARGETS.append(Target(*a, **k))


def any_roots(ex, st, a, x, name):
    """the nearest-point search must not depend on the accuracy of the cubic solver: arbitrary roots"""
    if not a or not isinstance(a[0], Ptr) or x.ty.k != 'void': return NotImplemented
    for k in range(3): stf(ex, st, a[0], k, fresh('root', 'R'))
    return [(st, None)]


def gen_q(D):
    """nodes of an arc whose middle node lies between the ends"""
    def g(d, rng):
        if rng.random() < .7:
            for k in range(D):
                a, b = d['q[%d]' % k], d['q[%d]' % (k + D)]
                d['q[%d]' % (k + 2 * D)] = (a + b) / 2 + rng.choice([0, 0, .25, -.25, .5, rng.uniform(-1, 1)])
            if rng.random() < .3:
                for k in range(D): d['q[%d]' % (k + 2 * D)] = (d['q[%d]' % k] + d['q[%d]' % (k + D)]) / 2
    return g


def N(c, D): return c.q[:D], c.q[D:2 * D], c.q[2 * D:]


def at(q, r):
    a, b, m = q
    w = ((2 * r - 1) * (r - 1), (2 * r - 1) * r, 4 * r * (1 - r))
    return [w[0] * a[k] + w[1] * b[k] + w[2] * m[k] for k in range(len(a))]


def coeffs(q):
    a, b, m = q
    return a, [4 * m[k] - 3 * a[k] - b[k] for k in range(len(a))], [2 * a[k] + 2 * b[k] - 4 * m[k] for k in range(len(a))]


def cross(u, v):
    if len(u) == 2: return [cross2(u, v)]
    return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]


def straight(q):
    a, b, m = q
    u, v = vsub(b, a), vsub(m, a)
    x = cross(u, v)
    return and_(lt(dot(v, v), dot(u, u)), lt(dot(x, x) / dot(u, u), E2))


for D in (1, 2, 3):
    p = 'q%d_' % D
    Q = Buf('q', n=3 * D)
    P = lambda n, m='in', D=D: Buf(n, n=D, mode=m)
    r = Scalar('r')
    n = lambda c, D=D: N(c, D)
    T(p + 'make', [P('a'), P('b'), P('m'), Out('o', n=3 * D)], post=lambda c: [('nodes in order', veq(c.new.o, list(c.a) + list(c.b) + list(c.m)))])
    T(p + 'at', [Q, r, P('o', 'out')], post=lambda c, n=n: [
        ('starts at the first node', implies(eq(c.r, Z), veq(c.new.o, n(c)[0]))), ('ends at the second node', implies(eq(c.r, R(1)), veq(c.new.o, n(c)[1]))),
        ('passes the middle node half way', implies(eq(c.r, R(Fraction(1, 2))), veq(c.new.o, n(c)[2]))), ('quadratic interpolation', veq(c.new.o, at(n(c), c.r)))])
    T(p + 'jac', [Q, r, P('o', 'out')], post=lambda c, n=n: [('derivative of the interpolation', and_(*[eq(2 * o, x - y) for o, x, y in zip(c.new.o, at(n(c), c.r + 1), at(n(c), c.r - 1))]))])
    T(p + 'poly', [Q, Out('o', n=3 * D)], post=lambda c, n=n: [('polynomial form', veq(c.new.o, [x for v in coeffs(n(c)) for x in v]))])

    def box(c, n=n, D=D):
        q = n(c)
        a, b, m = q
        x = at(q, c.r)
        B, A = coeffs(q)[1:]
        out = [('every point of the arc is inside', implies(and_(le(Z, c.r), le(c.r, R(1))), and_(*[and_(le(c.new.lo[k], x[k]), le(x[k], c.new.hi[k])) for k in range(D)])))]
        for k in range(D):
            inner = and_(ne(A[k], Z), lt(Z, -B[k] / (2 * A[k])), lt(-B[k] / (2 * A[k]), R(1)))
            top = a[k] - B[k] * B[k] / (4 * A[k])
            for nm, w in (('lower', c.new.lo[k]), ('upper', c.new.hi[k])):
                out.append(('%s bound of axis %d is reached by the arc' % (nm, k), or_(eq(w, a[k]), eq(w, b[k]), and_(inner, eq(w, top)))))
        return out
    T(p + 'box', [Q, r, P('lo', 'out'), P('hi', 'out')], post=box, fix=gen_q(D))
    if D > 1:
        T(p + 'straight', [Q], 'b', post=lambda c, n=n: [('middle node within the threshold of the chord and between the ends', iff(c.ret, straight(n(c))))], fix=gen_q(D),
          pre=lambda c, n=n: [lt(Z, sqdist(n(c)[0], n(c)[1]))])

        def gauss_len(c, n=n):
            import math
            q = n(c)
            _, B, A = coeffs(q)
            m = 40
            s = R(0)
            for i in range(m):
                for x, w in ((-math.sqrt(3 / 5), 5 / 9), (0, 8 / 9), (math.sqrt(3 / 5), 5 / 9)):
                    t = R(Fraction((i + .5 + x / 2) / m))
                    v = [B[k] + 2 * t * A[k] for k in range(len(B))]
                    s = s + R(Fraction(w / 2 / m)) * sqrt(dot(v, v))
            return [('arc length', eq(c.ret, s))]
        T(p + 'lenstr', [Q], 'f8', pre=lambda c, n=n: [straight(n(c))], post=lambda c, n=n: [('straight: chord length', and_(le(Z, c.ret), eq(c.ret * c.ret, sqdist(n(c)[0], n(c)[1]))))],
          fix=lambda d, rng, D=D: d.update({'q[%d]' % (k + 2 * D): (d['q[%d]' % k] + d['q[%d]' % (k + D)]) / 2 for k in range(D)}))

        def curved(c, n=n):
            a, b, m = n(c)
            u, v = vsub(b, a), vsub(m, a)
            x = cross(u, v)
            return [lt(Z, dot(u, u)), lt(R(Fraction(1, 100)) * dot(u, u), dot(x, x)), lt(dot(v, v), dot(u, u))]
        T(p + 'len', [Q], 'f8', pre=curved, post=gauss_len, fix=gen_q(D), tol=1e-4, samples=200,
          bounded='arc length involves a logarithm: compared with 120-point quadrature on sampled arcs')
    near = lambda c, n=n: [('parameter in [0, 1]', and_(le(Z, c.ret), le(c.ret, R(1)))),
                           ('not farther than either end', and_(*[le(sqdist(at(n(c), c.ret), c.p), sqdist(e, c.p)) for e in n(c)[:2]]))]
    if D > 1:
        pre = lambda c, n=n: [('distinct ends', lt(Z, sqdist(n(c)[0], n(c)[1])))]
        T(p + 'near', [Q, P('p')], 'f8', pre=lambda c, n=n, pre=pre: pre(c) + [not_(straight(n(c)))], post=near, fix=gen_q(D), hooks=[(re.compile('.*solveCubic.*'), any_roots)])

        def nearx(c, n=n):
            return [('no sampled point of the arc is nearer', le(sqdist(at(n(c), c.ret), c.p), sqdist(at(n(c), c.t), c.p)))]
        T(p + 'nearx', [Q, P('p'), Scalar('t', lo=0, hi=1)], 'f8', pre=curved, post=nearx, fix=gen_q(D), tol=1e-6, samples=3000,
          bounded='minimality depends on the iterative cubic solver: decided on sampled points')
        hk = [(re.compile('.*Polytope.*pointClosestTo.*'), pure_uf('nearest', 3 * D, D))]
        T(p + 'sd', [Q, P('p'), Out('o', n=2)], pre=curved, fix=gen_q(D), hooks=hk, post=lambda c, n=n: [('squared distance to the nearest point', eq(c.new.o[0], sqdist(at(n(c), c.new.o[1]), c.p)))])
        T(p + 'd', [Q, P('p'), Out('o', n=2)], pre=curved, fix=gen_q(D), hooks=hk, post=lambda c, n=n: [('distance to the nearest point', and_(le(Z, c.new.o[0]), eq(sq(c.new.o[0]), sqdist(at(n(c), c.new.o[1]), c.p))))])

Q = Buf('q', n=6)
n2 = lambda c: N(c, 2)
dist2 = lambda c: [('distinct ends', lt(Z, sqdist(*n2(c)[:2])))]


def poly_mul(a, b):
    r = [R(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b): r[i + j] = r[i + j] + x * y
    return r


def integ(a):
    s = R(0)
    for i, x in enumerate(a): s = s + x * R(Fraction(1, i + 1))
    return s


def deriv(a): return [i * x for i, x in enumerate(a)][1:]


def edge_area(q):
    """boundary integral of (x dy - y dx) / 2 along the arc"""
    C, B, A = coeffs(q)
    x, y = [C[0], B[0], A[0]], [C[1], B[1], A[1]]
    return (integ(poly_mul(x, deriv(y))) - integ(poly_mul(y, deriv(x)))) * R(Fraction(1, 2))


def edge_moment(q, k):
    """boundary integral giving the first moment of coordinate k"""
    C, B, A = coeffs(q)
    x, y = [C[0], B[0], A[0]], [C[1], B[1], A[1]]
    if k == 0: return integ(poly_mul(poly_mul(x, x), deriv(y))) * R(Fraction(1, 2))
    return integ(poly_mul(poly_mul(y, y), deriv(x))) * R(Fraction(-1, 2))


def lin_area(a, b): return cross2(a, b) * R(Fraction(1, 2))


def lin_moment(a, b, k):
    x, y = [a[0], b[0] - a[0]], [a[1], b[1] - a[1]]
    if k == 0: return integ(poly_mul(poly_mul(x, x), deriv(y))) * R(Fraction(1, 2))
    return integ(poly_mul(poly_mul(y, y), deriv(x))) * R(Fraction(-1, 2))


TWOTHIRDS = R(Fraction(2, 3))


def area(c):
    a, b, m = n2(c)
    return [('area between arc and chord', eq(c.ret, edge_area(n2(c)) - lin_area(a, b)))]


def cent(c):
    a, b, m = n2(c)
    A = edge_area(n2(c)) - lin_area(a, b)
    return [('centroid times area is the first moment of the enclosed region (axis %d)' % k, eq(c.new.o[k] * A, edge_moment(n2(c), k) - lin_moment(a, b, k))) for k in range(2)]


T('q2_area', [Q], 'f8', post=area, fix=gen_q(2))
T('q2_cent', [Q, Out('o', n=2)], pre=dist2, post=cent, fix=gen_q(2))
T('q2_curves', [Q], 'b', post=lambda c: [('middle node on the right of or on the chord', iff(c.ret, le(Z, orient(n2(c)[0], n2(c)[2], n2(c)[1]))))], fix=gen_q(2))


def rotp(c):
    a = vsub(n2(c)[1], n2(c)[0])
    n = sqrt(dot(a, a))
    return [('component along the chord', eq(c.new.o[0] * n, dot(a, c.p))), ('component to its left', eq(c.new.o[1] * n, cross2(a, c.p)))]


T('q2_rot', [Q, Buf('p', n=2), Out('o', n=2)], pre=dist2, post=rotp)


def bary(c):
    """twice the areas of p against the control triangle (v0, v1, control point)"""
    a, b, m = n2(c)
    ctl = [2 * m[k] - (a[k] + b[k]) * R(Fraction(1, 2)) for k in range(2)]
    p = c.p
    s = orient(a, b, ctl)
    return s, orient(b, ctl, p), orient(ctl, a, p), orient(a, b, p), ctl


def left(c):
    s, u, w, v, ctl = bary(c)
    # inside the control triangle the arc is v^2 = 4 u w in barycentric coordinates
    inside = or_(and_(lt(Z, s), lt(Z, u), lt(Z, w), lt(Z, v)), and_(lt(s, Z), lt(u, Z), lt(w, Z), lt(v, Z)))
    under = lt(v * v, 4 * u * w)
    over = lt(4 * u * w, v * v)
    return [('between arc and chord: on the chord side', implies(and_(inside, under), iff(c.ret, lt(s, Z)))),
            ('beyond the arc: on the outer side', implies(and_(inside, over), iff(c.ret, lt(Z, s)))),
            ('outside the control triangle: side of the chord', implies(or_(and_(lt(Z, s), or_(lt(u, Z), lt(w, Z), lt(v, Z))), and_(lt(s, Z), or_(lt(Z, u), lt(Z, w), lt(Z, v)))), iff(c.ret, le(Z, v))))]


def notstr(c): return [not_(straight(n2(c)))]


def gen_left(d, rng):
    gen_q(2)(d, rng)
    q = [d['q[%d]' % i] for i in range(6)]
    ctl = [2 * q[4] - (q[0] + q[2]) / 2, 2 * q[5] - (q[1] + q[3]) / 2]
    if rng.random() < .8:
        w = [rng.random() ** rng.choice([1, 2]) for _ in range(3)]
        if rng.random() < .2: w[rng.randrange(3)] *= -1
        s = sum(w) or 1
        for k in range(2): d['p[%d]' % k] = (w[0] * q[k] + w[1] * q[2 + k] + w[2] * ctl[k]) / s


def bent(c):
    a, b, m = n2(c)
    x = cross2(vsub(b, a), vsub(m, a))
    return [('well bent', lt(R(Fraction(1, 100)) * sq(sqdist(a, b)), x * x)), ('distinct ends', lt(R(Fraction(1, 100)), sqdist(a, b)))]


T('q2_leftstr', [Q, Buf('p', n=2)], 'b', pre=lambda c: dist2(c) + [straight(n2(c))], post=lambda c: [('straight: side of the chord', iff(c.ret, le(Z, orient(n2(c)[0], n2(c)[1], c.p))))],
  fix=lambda d, rng: d.update({'q[%d]' % (k + 4): (d['q[%d]' % k] + d['q[%d]' % (k + 2)]) / 2 for k in range(2)}))


def outside(c):
    s, u, w, v, ctl = bary(c)
    return or_(and_(lt(Z, s), or_(lt(u, Z), lt(w, Z), lt(v, Z))), and_(lt(s, Z), or_(lt(Z, u), lt(Z, w), lt(Z, v))))


T('q2_leftout', [Q, Buf('p', n=2)], 'b', pre=lambda c: dist2(c) + notstr(c) + [outside(c)], post=lambda c: [('outside the control triangle: side of the chord', iff(c.ret, le(Z, orient(n2(c)[0], n2(c)[1], c.p))))], fix=gen_left, samples=3000, bounded='general bend position: decided on sampled points')
T('q2_left', [Q, Buf('p', n=2)], 'b', pre=bent, post=left, fix=gen_left, samples=3000, bounded='point inside the control triangle: decided on sampled points')


def ray_abc(c):
    q = n2(c)
    C, B, A = coeffs(q)
    oc = vsub(C, c.o)
    return cross2(A, c.d), cross2(B, c.d), cross2(oc, c.d), q


def hit(c):
    a, b, k, q = ray_abc(c)
    disc = b * b - 4 * a * k
    rt = sqrt(disc)
    cand = [(and_(ne(a, Z), le(Z, disc)), (-b - rt) / (2 * a)), (and_(ne(a, Z), le(Z, disc)), (-b + rt) / (2 * a)), (and_(eq(a, Z), ne(b, Z)), -k / b)]
    out = [('at most two hits', and_(le(I(0), c.ret), le(c.ret, I(2))))]
    for i in range(2):
        r = c.new.buf[i]
        on = or_(*[and_(g, le(Z, s), le(s, R(1)), eq(r, dot(vsub(at(q, s), c.o), c.d))) for g, s in cand])
        out.append(('hit %d is in front of the origin and on the arc' % i, implies(lt(I(i), c.ret), and_(le(Z, r), on))))
    return out


def unit(c): return [('unit direction', le(abs_(dot(c.d, c.d) - R(1)), R(Fraction(1, 10 ** 6))))]


def gen_hit(d, rng):
    gen_q(2)(d, rng)
    x, y = unitdir(rng)
    d['d[0]'], d['d[1]'] = x, y
    if rng.random() < .8:
        s = rng.random()
        q = [d['q[%d]' % i] for i in range(6)]
        w = ((2 * s - 1) * (s - 1), (2 * s - 1) * s, 4 * s * (1 - s))
        t = rng.choice([0, 1, 2, rng.uniform(-1, 5)])
        for k in range(2): d['o[%d]' % k] = w[0] * q[k] + w[1] * q[2 + k] + w[2] * q[4 + k] - t * (x, y)[k]
        if 's' in d: d['s'] = s; d['t'] = t


def hitall(c):
    a, b, k, q = ray_abc(c)
    x = at(q, c.s)
    cross_ = and_(eq(a * c.s * c.s + b * c.s + k, Z), le(Z, c.s), le(c.s, R(1)))
    tt = dot(vsub(x, c.o), c.d)
    return [('every crossing is reported', implies(and_(cross_, le(Z, tt)), or_(and_(le(I(1), c.ret), eq(c.new.buf[0], tt)), and_(le(I(2), c.ret), eq(c.new.buf[1], tt)))))]


rp = [Q, Buf('o', n=2), Buf('d', n=2)]
nondeg = lambda c: [('ray does not run along the arc', or_(ne(ray_abc(c)[0], Z), ne(ray_abc(c)[1], Z)))]
T('q2_hit', rp + [Out('buf', n=2)], 'i4', pre=lambda c: unit(c) + nondeg(c), post=hit, fix=gen_hit, samples=3000, bounded='roots with square roots: decided on sampled rays')
T('q2_hitall', rp + [Scalar('s', lo=0, hi=1), Scalar('t'), Out('buf', n=2)], 'i4', pre=lambda c: unit(c) + nondeg(c), post=hitall, fix=gen_hit, samples=3000, bounded='roots with square roots: decided on sampled rays')
