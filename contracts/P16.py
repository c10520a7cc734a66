"""P16: six-node triangles and eight-node quadrilaterals."""
import re
from .lib import *
from .P17 import edge_area, lin_area, lin_moment
HARNESS = 'P16.cpp'
SEG = 'PolytopeILi1ELi2ELi3E.*'
POLY = 'PolytopeILi2ELi2ELi[68]E.*'
NOINLINE = [SEG + '6length', SEG + '6isLeft', SEG + '11boundingBox', SEG + '9intersect', POLY + '4areaEv', POLY + '9perimeterEv', 'enclosedCentroid']
TARGETS = []
Z = R(0)


def T(*a, **k): TARGETS.append(Target(*a, **k))


def tri_w(r, s):
    t = 1 - r - s
    return [t * (2 * t - 1), r * (2 * r - 1), s * (2 * s - 1), 4 * r * t, 4 * r * s, 4 * s * t]


def quad_w(r, s):
    x, y = 2 * r - 1, 2 * s - 1
    c = [((1 - x) * (1 - y) * (-x - y - 1)), ((1 + x) * (1 - y) * (x - y - 1)), ((1 + x) * (1 + y) * (x + y - 1)), ((1 - x) * (1 + y) * (-x + y - 1))]
    m = [(1 - x * x) * (1 - y), (1 - y * y) * (1 + x), (1 - x * x) * (1 + y), (1 - y * y) * (1 - x)]
    return [R(Fraction(1, 4)) * w for w in c] + [R(Fraction(1, 2)) * w for w in m]


H = Fraction(1, 2)
NODES = {'t6_': [(0, 0), (1, 0), (0, 1), (H, 0), (H, H), (0, H)],
         'q8_': [(0, 0), (1, 0), (1, 1), (0, 1), (H, 0), (1, H), (H, 1), (0, H)]}


def gen_poly(M, D, ccw=True):
    """a convex polygon with bulging edges"""
    import math

    def g(d, rng):
        if 'v[0]' not in d or rng.random() < .15: return
        base = rng.uniform(0, 6.28)
        R0 = rng.uniform(.5, 2)
        P = []
        for i in range(M):
            t = base + 2 * math.pi * (i + rng.uniform(-.2, .2)) / M
            P.append([R0 * math.cos(t), R0 * math.sin(t)] + [rng.uniform(-1, 1)] * (D - 2))
        o = [rng.uniform(-3, 3) for _ in range(D)]
        b = rng.uniform(.05, .25)
        for i in range(M):
            a, e = P[i], P[(i + 1) % M]
            k = rng.choice([0, b, b, -b * .3])
            m = [(a[j] + e[j]) / 2 for j in range(D)]
            m[0] += k * (e[1] - a[1]) + rng.choice([0, .03])
            m[1] -= k * (e[0] - a[0])
            P.append(m)
        if not ccw and rng.random() < .5: P = [P[0]] + P[1:M][::-1] + P[M:][::-1]
        for i, p in enumerate(P):
            for j in range(D): d['v[%d]' % (i * D + j)] = p[j] + o[j]
        if 'p[0]' in d:
            q = P[rng.randrange(len(P))]
            f = rng.uniform(0, 1.3)
            for j in range(D): d['p[%d]' % j] = o[j] + f * q[j]
        if 'd[0]' in d:
            d['d[0]'], d['d[1]'] = unitdir(rng)
            for j in range(2): d['o[%d]' % j] = o[j] + rng.uniform(-1, 1) - 2 * d['d[%d]' % j]
    return g


for K, NV, M, W in (('t6_', 6, 3, tri_w), ('q8_', 8, 4, quad_w)):
    for D in (2, 3):
        p = '%s%d_' % (K, D)
        V = lambda mode='in', n=NV * D: Buf('v', n=n, mode=mode)
        O = lambda n, nm='o': Out(nm, n=n)
        nodes = lambda c, NV=NV, D=D: pts(c.v, NV, D)

        def at(c, r, s, W=W, nodes=nodes, D=D):
            w = W(r, s)
            P = nodes(c)
            out = []
            for k in range(D):
                x = w[0] * P[0][k]
                for i in range(1, len(w)): x = x + w[i] * P[i][k]
                out.append(x)
            return out

        def interp(c, at=at, nodes=nodes, K=K):
            P = nodes(c)
            out = [('passes through node %d' % i, implies(and_(eq(c.r, R(r)), eq(c.s, R(s))), veq(c.new.o, P[i]))) for i, (r, s) in enumerate(NODES[K])]
            return out + [('quadratic interpolation', veq(c.new.o, at(c, c.r, c.s)))]

        def jac(c, at=at, D=D):
            h = R(H)
            # central differences are exact for the quadratics; second order in each variable
            dr = [(x - y) * h for x, y in zip(at(c, c.r + 1, c.s), at(c, c.r - 1, c.s))]
            ds = [(x - y) * h for x, y in zip(at(c, c.r, c.s + 1), at(c, c.r, c.s - 1))]
            return [('first column is the derivative in r', veq(c.new.o[:D], dr)), ('second column is the derivative in s', veq(c.new.o[D:], ds))]

        def edge(c, nodes=nodes, M=M, D=D):
            P = nodes(c)
            return [('edge %d: its corners in order and its own middle node' % i, implies(eq(c.i, I(i)), veq(list(c.new.o), P[i] + P[(i + 1) % M] + P[M + i]))) for i in range(M)]

        def flip(c, nodes=nodes, M=M, NV=NV, D=D):
            P = nodes(c)
            Q = pts(c.new.v, NV, D)
            return [('first corner stays, the others are reversed', and_(veq(Q[0], P[0]), *[veq(Q[i], P[M - i]) for i in range(1, M)])),
                    ('each middle node stays with its edge', and_(*[veq(Q[M + i], P[M + (M - 1 - i)]) for i in range(M)]))]
        T(p + 'idx', [Buf('ix', 'i4', n=NV), Int('m', 1, None, ghi=20), Arr('pv', 'f8', 'm', n=D), O(NV * D)],
          pre=lambda c, NV=NV: [and_(le(I(0), c.ix[i]), lt(c.ix[i], c.m)) for i in range(NV)],
          fix=lambda d, rng, NV=NV: d.update({'ix[%d]' % i: rng.randrange(d['m']) for i in range(NV)}),
          post=lambda c, NV=NV, D=D: [('node %d is the vertex the index names' % i, veq(c.new.o[i * D:i * D + D], [c.pv.at(c.ix[i], k) for k in range(D)])) for i in range(NV)])
        T(p + 'vert', [V(), Int('i', 0, NV - 1), O(2 * D)], post=lambda c, nodes=nodes: [('i-th node', implies(eq(c.i, I(i)), veq(c.new.o, q + q))) for i, q in enumerate(nodes(c))])
        T(p + 'set', [V('inout'), Int('i', 0, NV - 1), Buf('p', n=D)],
          post=lambda c, NV=NV, D=D: [('exactly the named node changes', implies(eq(c.i, I(i)), veq(c.new.v[j * D:j * D + D], c.p if i == j else c.v[j * D:j * D + D]))) for i in range(NV) for j in range(NV)])
        T(p + 'at', [V(), Scalar('r'), Scalar('s'), O(D)], post=interp, fix=lambda d, rng, K=K: d.update(zip(('r', 's'), map(float, rng.choice(NODES[K])))) if rng.random() < .5 else None)
        T(p + 'jac', [V(), Scalar('r'), Scalar('s'), O(2 * D)], post=jac)
        T(p + 'edge', [V(), Int('i', 0, M - 1), O(3 * D)], post=edge)
        T(p + 'lin', [V(), O(M * D)], post=lambda c, nodes=nodes, M=M: [('the corner nodes in order', veq(c.new.o, [x for q in nodes(c)[:M] for x in q]))])
        T(p + 'flip', [V('inout')], post=flip)
        T(p + 'peri', [V(), O(M + 1)], pre=lambda c, nodes=nodes, M=M: [('distinct corners', lt(R(Fraction(1, 100)), sqdist(nodes(c)[i], nodes(c)[(i + 1) % M]))) for i in range(M)],
          fix=gen_poly(M, D), hooks=[(re.compile('.*'+SEG+'6length.*'), pure_uf('length', 3 * D, pos=True))],
          post=lambda c, M=M: [('sum of the edge lengths', eq(c.new.o[0], sum((c.new.o[1 + i] for i in range(1, M)), c.new.o[1])))])
    V = lambda n=NV * 2: Buf('v', n=n)
    p = K + '2_'
    nodes = lambda c, NV=NV: pts(c.v, NV)
    edges = lambda c, nodes=nodes, M=M: [(nodes(c)[i], nodes(c)[(i + 1) % M], nodes(c)[M + i]) for i in range(M)]
    tot = lambda c, edges=edges: sum((edge_area(e) for e in edges(c)), R(0))

    def valid(c, nodes=nodes, M=M, tot=tot):
        P = nodes(c)[:M]
        return [('corners convex counter-clockwise', lt(R(Fraction(1, 100)), orient(P[i], P[(i + 1) % M], P[(i + 2) % M]))) for i in range(M if M > 3 else 1)] + [('encloses positive area', lt(R(Fraction(1, 100)), tot(c)))] \
            + [('distinct corners', lt(R(Fraction(1, 100)), sqdist(P[i], P[(i + 1) % M]))) for i in range(M)]
    g = gen_poly(M, 2)
    T(p + 'area', [V()], 'f8', pre=valid, fix=g, post=lambda c, tot=tot: [('area enclosed by the quadratic edges', eq(c.ret, tot(c)))])

    def cent(c, tot=tot, edges=edges, M=M):
        out = []
        for k in range(2):
            m = R(0)
            for i, e in enumerate(edges(c)): m = m + lin_moment(e[0], e[1], k) + (edge_area(e) - lin_area(e[0], e[1])) * c.new.o[2 + 2 * i + k]
            out.append(('area-weighted mean of the straight polygon and the arc regions, axis %d' % k, eq(c.new.o[k] * tot(c), m)))
        return out
    T(p + 'cent', [V(), Out('o', n=2 + 2 * M)], pre=valid, fix=g, post=cent, hooks=[(re.compile('.*enclosedCentroid.*'), vec_uf('enclosedCentroid', 2, 6))])
    T(p + 'ccw', [V()], 'b', fix=gen_poly(M, 2, False), post=lambda c, nodes=nodes, M=M: [('orientation of the corners', iff(c.ret, and_(*[le(Z, orient(nodes(c)[i], nodes(c)[(i + 1) % M], nodes(c)[(i + 2) % M])) for i in range(M)])))],
      pre=lambda c, nodes=nodes, M=M: [or_(and_(*[lt(R(1e-3), orient(nodes(c)[i], nodes(c)[(i + 1) % M], nodes(c)[(i + 2) % M])) for i in range(M)]), and_(*[lt(orient(nodes(c)[i], nodes(c)[(i + 1) % M], nodes(c)[(i + 2) % M]), R(-1e-3)) for i in range(M)]))])

    def box(c, M=M):
        o = pts(c.new.o, 2 + 2 * M)
        return [('lower corner is the least of the edge boxes', and_(*[is_min(o[0][k], [o[2 + 2 * i][k] for i in range(M)]) for k in range(2)])),
                ('upper corner is the greatest of the edge boxes', and_(*[is_max(o[1][k], [o[3 + 2 * i][k] for i in range(M)]) for k in range(2)]))]
    T(p + 'box', [V(), Out('o', n=4 + 4 * M)], fix=g, post=box, hooks=[(re.compile('.*' + SEG + '11boundingBox.*'), struct_uf('box', 4, 6))])
    T(p + 'in', [V(), Buf('p', n=2), Out('o', 'b', n=M)], 'b', pre=valid, fix=g, hooks=[(re.compile('.*' + SEG + '6isLeft.*'), pure_uf('left', 6, 2, ret='B'))],
      post=lambda c, M=M: [('inside exactly when left of every edge', iff(c.ret, and_(*[ne(x, I(0)) for x in c.new.o])))])
    T(p + 'mcl', [V(), Out('o', n=3)], pre=valid, fix=g, hooks=[(re.compile('.*' + POLY + '4areaEv'), pure_uf('area', 2 * NV, pos=True)), (re.compile('.*' + POLY + '9perimeterEv'), pure_uf('perimeter', 2 * NV, pos=True))],
      post=lambda c: [('pi times area over perimeter', eq(c.new.o[0] * c.new.o[2], PI * c.new.o[1]))])

    def hit(c, M=M):
        out = []
        pos = I(0)
        for i in range(M):
            n = c.new.en[i]
            for j in range(2):
                for at_ in range(2 * i + 1):
                    out.append(('hit %d of edge %d follows those of the earlier edges' % (j, i), implies(and_(lt(I(j), n), eq(pos, I(at_))), eq(c.new.buf[at_ + j], c.new.eb[2 * i + j]))))
            pos = pos + n
        return out + [('as many hits as the edges report', eq(c.ret, pos))]
    ray = [V(), Buf('o', n=2), Buf('d', n=2)]
    unit = lambda c: [('unit direction', le(abs_(dot(c.d, c.d) - 1), R(Fraction(1, 10 ** 6))))]
    T(p + 'hit', ray + [Out('buf', n=2 * M), Out('eb', n=2 * M), Out('en', 'i4', n=M)], 'i4', pre=lambda c, v=valid: unit(c) + v(c), fix=g, post=hit,
      hooks=[(re.compile('.*' + SEG + '9intersect.*'), hits_uf('hit', 2, 6, 4))])
