"""P15: linear polygons (triangle, quadrilateral)."""
from .lib import *
HARNESS = 'P15.cpp'


def T(*a, **k): return Target(*a, **k)


tri = lambda: Buf('v', n=6)
quad = lambda: Buf('v', n=8)


def ccw_tri(c): return [('counter-clockwise', lt(R(0), orient(*pts(c.v, 3))))]


def convex_ccw(c):
    P = pts(c.v, 4)
    return [('convex', lt(R(0), orient(P[i], P[(i + 1) % 4], P[(i + 2) % 4]))) for i in range(4)]


def interp_tri(d):
    def post(c):
        P = pts(c.v, 3, d)
        w = [R(1) - c.r - c.s, c.r, c.s]
        return [('point is the barycentric combination', and_(*[eq(c.new.o[k], w[0] * P[0][k] + w[1] * P[1][k] + w[2] * P[2][k]) for k in range(d)]))]
    return post


def interp_quad(c):
    P = pts(c.v, 4)
    r, s = c.r, c.s
    w = [(1 - r) * (1 - s), r * (1 - s), r * s, (1 - r) * s]
    return [('point is the bilinear combination', and_(*[eq(c.new.o[k], w[0] * P[0][k] + w[1] * P[1][k] + w[2] * P[2][k] + w[3] * P[3][k]) for k in range(2)]))]


def edge(n):
    def post(c):
        P = pts(c.v, n)
        out = []
        for i in range(n):
            out.append(('edge joins vertex i to its successor', implies(eq(c.i, I(i)), veq(list(c.new.o), P[i] + P[(i + 1) % n]))))
        return out
    return post


def perimeter(n):
    def post(c):
        P = pts(c.v, n)
        s = R(0)
        for i in range(n): s = s + dist(P[i], P[(i + 1) % n])
        return [('perimeter is the sum of edge lengths', eq(c.ret, s))]
    return post


def bb(n):
    def post(c):
        P = pts(c.v, n)
        return [('box is the tight hull of the vertices', and_(*[and_(is_min(c.new.lo[k], [p[k] for p in P]), is_max(c.new.hi[k], [p[k] for p in P])) for k in range(2)]))]
    return post


def hits(n):
    """intersect: number of crossed edges, each with its ray parameter, in edge order"""
    def post(c):
        P = pts(c.v, n)
        o, d = list(c.o), list(c.d)
        pos = I(0)
        out = []
        for i in range(n):
            a, b = P[i], P[(i + 1) % n]
            v, u = vsub(b, a), vsub(o, a)
            z = cross2(v, d)
            s = cross2(u, d) / z
            r = cross2(u, v) / z
            hit = and_(le(R(0), s), le(s, R(1)), le(R(0), r))
            for k in range(i + 1):
                out.append(('hit on edge %d is reported in order with its ray parameter' % i,
                            implies(and_(hit, eq(pos, I(k))), eq(c.new.buf[k], r))))
            pos = pos + b2i(hit)
        out.append(('one hit per crossed edge', eq(c.ret, pos)))
        return out
    return post


def ray_pre(n):
    def pre(c):
        P = pts(c.v, n)
        d = list(c.d)
        out = [('unit direction', eq(dot(d, d), R(1)))]
        for i in range(n): out.append(('ray not parallel to an edge', ne(cross2(vsub(P[(i + 1) % n], P[i]), d), R(0))))
        return out
    return pre


def gen_ray(n, nm='v'):
    def g(rng, mode):
        x, y = unitdir(rng)
        return {'d[0]': x, 'd[1]': y}
    return g


def ray_pre_num(n):
    def pre(c):
        d = list(c.d)
        P = pts(c.v, n)
        out = [('unit direction', le(abs_(dot(d, d) - R(1)), R(Fraction(1, 10 ** 6))))]
        for i in range(n): out.append(('ray not parallel to an edge', ne(cross2(vsub(P[(i + 1) % n], P[i]), d), R(0))))
        return out
    return pre


def gen_ccw_tri(rng, mode):
    for _ in range(20):
        v = [rnd_real(rng, mode) for _ in range(6)]
        o = (v[2] - v[0]) * (v[5] - v[1]) - (v[3] - v[1]) * (v[4] - v[0])
        if o > 0: return {'v[%d]' % i: x for i, x in enumerate(v)}
    return None


def gen_convex(rng, mode):
    import math
    for _ in range(20):
        k = rng.random()
        if k < 0.4:
            a, b = rng.randint(-3, 3), rng.randint(-3, 3); w, h = rng.randint(1, 4), rng.randint(1, 4)
            P = [(a, b), (a + w, b + rng.choice([0, 0.5])), (a + w + rng.choice([0, 0.5]), b + h), (a, b + h + rng.choice([0, -0.25]))]
        else:
            th = sorted(rng.uniform(0, 2 * math.pi) for _ in range(4))
            P = [(round(3 * math.cos(t) * 64) / 64 + 1, round(2 * math.sin(t) * 64) / 64 - 1) for t in th]
        ok = all((P[(i + 1) % 4][0] - P[i][0]) * (P[(i + 2) % 4][1] - P[i][1]) - (P[(i + 1) % 4][1] - P[i][1]) * (P[(i + 2) % 4][0] - P[i][0]) > 0 for i in range(4))
        s = rng.randint(0, 3)
        P = P[s:] + P[:s]
        if ok: return {'v[%d]' % i: float(x) for i, x in enumerate([c for p in P for c in p])}
    return None


def with_pt(g):
    def f(rng, mode):
        d = g(rng, mode)
        if d is None: return None
        n = len(d) // 2
        k = rng.random()
        w = [rng.random() for _ in range(n)]
        s = sum(w)
        if k < 0.5:
            d['p[0]'] = sum(w[i] * d['v[%d]' % (2 * i)] for i in range(n)) / s
            d['p[1]'] = sum(w[i] * d['v[%d]' % (2 * i + 1)] for i in range(n)) / s
        elif k < 0.7:
            i = rng.randrange(n); j = (i + 1) % n
            d['p[0]'] = (d['v[%d]' % (2 * i)] + d['v[%d]' % (2 * j)]) / 2; d['p[1]'] = (d['v[%d]' % (2 * i + 1)] + d['v[%d]' % (2 * j + 1)]) / 2
        else: d['p[0]'] = rnd_real(rng, mode); d['p[1]'] = rnd_real(rng, mode)
        return d
    return f


def area_tri(c): return [('area is half the shoelace sum', eq(c.ret * 2, shoelace2(pts(c.v, 3))))]


def contains(n):
    def post(c):
        P = pts(c.v, n)
        return [('true iff the point is on the left of (or on) every edge', iff(c.ret, and_(*[le(R(0), orient(P[i], P[(i + 1) % n], list(c.p))) for i in range(n)])))]
    return post


def mcl(n):
    def post(c):
        P = pts(c.v, n)
        s = R(0)
        for i in range(n): s = s + dist(P[i], P[(i + 1) % n])
        return [('mean chord length is pi * area / perimeter', eq(c.ret * s * 2, PI * shoelace2(P)))]
    return post


def centroid_quad(c):
    P = pts(c.v, 4)
    A2 = shoelace2(P)
    out = []
    for k in range(2):
        m = R(0)
        for i in range(4):
            j = (i + 1) % 4
            m = m + cross2(P[i], P[j]) * (P[i][k] + P[j][k])
        out.append(('centroid is the first moment over the area', eq(c.new.o[k] * 3 * A2, m)))
    return out


TOLQ = R(1e-7)


def approx_ccw(a, b, c):
    # areApproxCCW: cross product of the edges above -epsilon
    return le(-EPS_DIST, orient(a, b, c))


TARGETS = [
    T('tri2_at', [tri(), D('r'), D('s'), Out('o', n=2)], post=interp_tri(2)),
    T('tri3_at', [Buf('v', n=9), D('r'), D('s'), Out('o', n=3)], post=interp_tri(3)),
    T('tri2_jac', [tri(), D('r'), D('s'), Out('o', n=4)],
      post=lambda c: [('columns are dF/dr and dF/ds', and_(*[and_(eq(c.new.o[k], c.v[2 + k] - c.v[k]), eq(c.new.o[2 + k], c.v[4 + k] - c.v[k])) for k in range(2)]))]),
    T('tri2_edge', [tri(), Int('i', 0, 2), Out('o', n=4)], post=edge(3)),
    T('tri2_perimeter', [tri()], ret='f8', pre=ccw_tri, post=perimeter(3), gen=gen_ccw_tri),
    T('tri2_bb', [tri(), Out('lo', n=2), Out('hi', n=2)], post=bb(3)),
    T('tri2_area', [tri()], ret='f8', pre=ccw_tri, post=area_tri, gen=gen_ccw_tri),
    T('tri3_area', [Buf('v', n=9)], ret='f8',
      post=lambda c: (lambda P: [('area is half the norm of the cross product', and_(le(R(0), c.ret), eq(sq(c.ret) * 4,
           dot(vsub(P[1], P[0]), vsub(P[1], P[0])) * dot(vsub(P[2], P[0]), vsub(P[2], P[0])) - sq(dot(vsub(P[1], P[0]), vsub(P[2], P[0]))))))])(pts(c.v, 3, 3))),
    T('tri2_centroid', [tri(), Out('o', n=2)], post=lambda c: [('centroid is the mean of the vertices', and_(*[eq(c.new.o[k] * 3, c.v[k] + c.v[2 + k] + c.v[4 + k]) for k in range(2)]))]),
    T('tri3_centroid', [Buf('v', n=9), Out('o', n=3)], post=lambda c: [('centroid is the mean of the vertices', and_(*[eq(c.new.o[k] * 3, c.v[k] + c.v[3 + k] + c.v[6 + k]) for k in range(3)]))]),
    T('tri2_isccw', [tri()], ret='b', post=lambda c: [('true iff the signed area is non-negative', iff(c.ret, le(R(0), orient(*pts(c.v, 3)))))]),
    T('tri2_flip', [Buf('v', n=6, mode='inout')],
      post=lambda c: [('first vertex kept, other two exchanged', veq(list(c.new.v), [c.v[0], c.v[1], c.v[4], c.v[5], c.v[2], c.v[3]])),
                      ('signed area changes sign', eq(shoelace2(pts(c.new.v, 3)), -shoelace2(pts(c.v, 3))))]),
    T('tri2_contains', [tri(), Buf('p', n=2)], ret='b', pre=ccw_tri, post=contains(3), gen=with_pt(gen_ccw_tri)),
    T('tri2_mcl', [tri()], ret='f8', pre=ccw_tri, post=mcl(3), gen=gen_ccw_tri),
    T('tri2_intersect', [tri(), Buf('o', n=2), Buf('d', n=2), Out('buf', n=3)], ret='i4', pre=ray_pre_num(3), post=hits(3), gen=gen_ray(3)),

    T('quad_at', [quad(), D('r'), D('s'), Out('o', n=2)], post=interp_quad),
    T('quad_jac', [quad(), D('r'), D('s'), Out('o', n=4)],
      post=lambda c: [('columns are dF/dr and dF/ds', and_(*[and_(
          eq(c.new.o[k], (1 - c.s) * (c.v[2 + k] - c.v[k]) + c.s * (c.v[4 + k] - c.v[6 + k])),
          eq(c.new.o[2 + k], (1 - c.r) * (c.v[6 + k] - c.v[k]) + c.r * (c.v[4 + k] - c.v[2 + k]))) for k in range(2)]))]),
    T('quad_edge', [quad(), Int('i', 0, 3), Out('o', n=4)], post=edge(4)),
    T('quad_perimeter', [quad()], ret='f8', pre=convex_ccw, post=perimeter(4), gen=gen_convex),
    T('quad_bb', [quad(), Out('lo', n=2), Out('hi', n=2)], post=bb(4)),
    T('quad_isconvex', [quad()], ret='b', post=lambda c: (lambda P: [('true iff every corner turns left (or is straight)', iff(c.ret, and_(*[le(R(0), orient(P[i], P[(i + 1) % 4], P[(i + 2) % 4])) for i in range(4)])))])(pts(c.v, 4)), gen=lambda rng, mode: gen_convex(rng, mode) if rng.random() < 0.5 else {}),
    T('quad_isapproxconvex', [quad()], ret='b', post=lambda c: (lambda P: [('true iff every corner turns left up to the tolerance', iff(c.ret, and_(*[approx_ccw(P[i], P[(i + 1) % 4], P[(i + 2) % 4]) for i in range(4)])))])(pts(c.v, 4)), gen=lambda rng, mode: gen_convex(rng, mode) if rng.random() < 0.5 else {}),
    T('quad_area', [quad()], ret='f8', pre=convex_ccw, post=lambda c: [('area is half the shoelace sum', eq(c.ret * 2, shoelace2(pts(c.v, 4))))], gen=gen_convex),
    T('quad_centroid', [quad(), Out('o', n=2)], pre=convex_ccw, post=centroid_quad, gen=gen_convex),
    T('quad_isccw', [quad()], ret='b', post=lambda c: (lambda P: [('true iff both halves are counter-clockwise up to the tolerance', iff(c.ret, and_(approx_ccw(P[0], P[1], P[2]), approx_ccw(P[0], P[2], P[3]))))])(pts(c.v, 4))),
    T('quad_flip', [Buf('v', n=8, mode='inout')],
      post=lambda c: [('vertices 1 and 3 exchanged', veq(list(c.new.v), [c.v[i] for i in (0, 1, 6, 7, 4, 5, 2, 3)])),
                      ('signed area changes sign', eq(shoelace2(pts(c.new.v, 4)), -shoelace2(pts(c.v, 4))))]),
    T('quad_contains', [quad(), Buf('p', n=2)], ret='b', pre=convex_ccw, post=contains(4), gen=with_pt(gen_convex)),
    T('quad_mcl', [quad()], ret='f8', pre=convex_ccw, post=mcl(4), gen=gen_convex),
    T('quad_intersect', [quad(), Buf('o', n=2), Buf('d', n=2), Out('buf', n=4)], ret='i4', pre=ray_pre_num(4), post=hits(4), gen=gen_ray(4)),
]
