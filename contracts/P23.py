"""P23: faces, edges and vertex-face links of a mesh."""
from .meshlib import *
HARNESS = 'P23.cpp'
NATIVE_EXTRA = LIBS
NATIVE_SRCS = SRCS
NOINLINE = LOG_NOINLINE + [r'Polytope.*8contains', r'Polytope.*11boundingBox']
TARGETS = []


def T(*a, **k):
    k.setdefault('hooks', LOG_HOOK)
    TARGETS.append(Target(*a, **k))


for k, P, N in KINDS:
    M = corners(P, N)
    IR = inrange(N)
    face = lambda c, N=N: and_(le(I(0), c.i), lt(c.i, c.c.len))
    pick = lambda d, rng, nv, nf: d.update({q: rng.randrange(nf) for q in ('i', 'g') if q in d})
    G = genmesh(P, N, then=pick)
    T(k + '_face', mesh(N) + [Int('i'), Out('o', n=2 * N), Out('n', 'i4', n=N + 2)], pre=lambda c, IR=IR, f=face: IR(c) + [f(c)], fix=G,
      post=lambda c, N=N: [('corners are the named vertices', and_(*[eq(c.new.o[j], x) for j, x in enumerate(fpts(c, c.i, N))])), ('connectivity', and_(*[eq(c.new.n[j], c.c.at(c.i, j)) for j in range(N)])),
                           ('counts', and_(eq(c.new.n[N], c.v.len), eq(c.new.n[N + 1], c.c.len)))])

    def edge(c, P=P, N=N, M=M):
        r = []
        for e in range(M):
            ids = [e, (e + 1) % M] + ([M + e] if P == 2 else [])
            want = [c.c.at(c.i, j) for j in ids]
            r.append(('edge %d' % e, implies(eq(c.e, I(e)), and_(*[eq(c.new.n[j], want[j]) for j in range(P + 1)] + [eq(c.new.o[2 * j + q], c.v.at(want[j], q)) for j in range(P + 1) for q in range(2)]))))
        return r
    T(k + '_edge', mesh(N) + [Int('i'), Int('e', 0, M - 1), Out('o', n=2 * P + 2), Out('n', 'i4', n=P + 1)], pre=lambda c, IR=IR, f=face: IR(c) + [f(c)], fix=G, post=edge)
    T(k + '_vert', mesh(N, nc=0) + [Int('i'), Out('o', n=2)], pre=lambda c: [and_(le(I(0), c.i), lt(c.i, c.v.len))], fix=genmesh(P, N, then=lambda d, rng, nv, nf: d.update(i=rng.randrange(nv))),
      post=lambda c: [('the vertex stored', and_(eq(c.new.o[0], c.v.at(c.i, 0)), eq(c.new.o[1], c.v.at(c.i, 1))))])
    same = lambda c: ('vertices kept', and_(eq(c.new.v.len, c.v.len), forall(0, c.v.len * 2, lambda i: eq(c.new.v.raw(i), c.v.raw(i)))))
    T(k + '_flip', mesh(N, mode='inout') + [Int('i')], pre=lambda c, f=face: [f(c)], fix=G,
      post=lambda c, P=P, N=N, s=same: [s(c), ('as many faces', eq(c.new.c.len, c.c.len)), ('same corners in reverse order', reversed_(P, N, [c.new.c.at(c.i, j) for j in range(N)], [c.c.at(c.i, j) for j in range(N)])),
                                        ('other faces kept', forall(0, c.c.len, lambda q: implies(ne(q, c.i), and_(*[eq(c.new.c.at(q, j), c.c.at(q, j)) for j in range(N)]))))])
    kept = lambda c, N=N: ('faces kept', forall(0, c.c.len * N, lambda i: eq(c.new.c.raw(i), c.c.raw(i))))
    T(k + '_addv', mesh(N, mode='inout') + [Buf('p', n=2)], fix=G,
      post=lambda c, kept=kept: [kept(c), ('as many faces', eq(c.new.c.len, c.c.len)), ('one more vertex', eq(c.new.v.len, c.v.len + 1)), ('the vertex given', and_(eq(c.new.v.at(c.v.len, 0), c.p[0]), eq(c.new.v.at(c.v.len, 1), c.p[1]))),
                                 ('earlier vertices kept', forall(0, c.v.len * 2, lambda i: eq(c.new.v.raw(i), c.v.raw(i))))])
    T(k + '_addf', mesh(N, mode='inout') + [Buf('f', 'i4', n=N)], fix=G,
      post=lambda c, kept=kept, same=same, N=N: [same(c), kept(c), ('one more face', eq(c.new.c.len, c.c.len + 1)), ('the face given', and_(*[eq(c.new.c.at(c.c.len, j), c.f[j]) for j in range(N)]))])
    CON = [(re.compile('.*Polytope.*8contains.*'), pure_uf('contains', 2 * N, 2, ret='B', needs=(lambda v, N=N: and_(*[lt(R(0), t) for t in convex(N, v[:2 * N])])) if P == 1 else None))]
    shaped = lambda c, P=P, N=N: [('faces convex and counter-clockwise', forall(0, c.c.len, lambda i: and_(*[lt(R(0), t) for t in convex(N, fpts(c, i, N))])))] if P == 1 else []

    def find_inv(L, N=N):
        c = L.ex.old
        return [] if enclosing(L) else [('no earlier face contains it', lambda lv: forall(0, lv.k, lambda i: ne(app('contains!', fpts(c, i, N) + [c.p[0], c.p[1]], 'I'), I(1))))]
    T(k + '_find', mesh(N) + [Buf('p', n=2), Int('g'), Out('o', 'b', n=2)], 'i4', pre=lambda c, IR=IR, sh=shaped: IR(c) + sh(c) + [and_(le(I(0), c.g), lt(c.g, c.c.len))], hooks=LOG_HOOK + CON, inv=find_inv,
      fix=genmesh(P, N, ccw=P == 1, then=lambda d, rng, nv, nf: d.update({'g': rng.randrange(nf), 'p[0]': rng.uniform(-.2, 3), 'p[1]': rng.uniform(-.2, 2)})),
      post=lambda c: [('a face of the mesh or none', and_(le(I(-1), c.ret), lt(c.ret, c.c.len))), ('contains the point', implies(le(I(0), c.ret), eq(c.new.o[0], I(1)) if c.new.o[0].sort == 'I' else c.new.o[0])),
                      ('no face before it does', implies(or_(eq(c.ret, I(-1)), lt(c.g, c.ret)), eq(c.new.o[1], I(0)) if c.new.o[1].sort == 'I' else not_(c.new.o[1])))])
    if P == 1:
        def box_inv(L):
            c = L.ex.old
            return [('%s is a coordinate seen' % q, lambda lv, f=f, q=q: exists(0, lv.k + 1, lambda i: eq(f(lv), c.v.at(i, q)))) for f in L.reals() for q in range(2)]
        T(k + '_box', mesh(N) + [Int('g'), Out('o', n=8)], pre=lambda c, IR=IR: IR(c) + [and_(le(I(0), c.g), lt(c.g, c.c.len))], fix=G, inv=box_inv,
          post=lambda c: [('every vertex inside', forall(0, c.v.len, lambda i: and_(*[and_(le(c.new.o[q], c.v.at(i, q)), le(c.v.at(i, q), c.new.o[2 + q])) for q in range(2)]))),
                          ('every side touches a vertex', and_(*[exists(0, c.v.len, lambda i, q=q: eq(c.new.o[q], c.v.at(i, q % 2))) for q in range(4)]))])
    else:
        BOX = [(re.compile('.*(Polytope|Polygon).*11boundingBox.*'), struct_uf('box', 4, 2 * N))]
        fb = lambda c, i, q, N=N: app('box%d!' % q, fpts(c, i, N), 'R')

        def box_inv(L, fb=fb):
            c = L.ex.old
            at = lambda lv, i, q: app('box%d!' % q, fpts(c, i, N), 'R')
            return [('box %d below' % q, lambda lv, f=f, q=q: forall(0, lv.k + 1, lambda i: le(f(lv), fb(c, i, q)))) for f in L.reals() for q in range(2)] + \
                   [('box %d above' % q, lambda lv, f=f, q=q: forall(0, lv.k + 1, lambda i: le(fb(c, i, q), f(lv)))) for f in L.reals() for q in range(2, 4)]
        T(k + '_box', mesh(N) + [Int('g'), Out('o', n=8)], pre=lambda c, IR=IR: IR(c) + [and_(le(I(0), c.g), lt(c.g, c.c.len))], fix=G, hooks=LOG_HOOK + BOX, inv=box_inv, budget=150, opts=dict(lean=True, loop_timeout=1),
          post=lambda c: [('every face inside', and_(*[and_(le(c.new.o[q], c.new.o[4 + q]), le(c.new.o[6 + q], c.new.o[2 + q])) for q in range(2)]))])

    def table(c, N=N, C='c', V='v'):
        o, f = c.new.o, c.new.f
        C, V = getattr(c, C), getattr(c, V)
        uses = lambda i, v: or_(*[eq(C.at(i, j), v) for j in range(N)])
        return [('one block per vertex', and_(eq(o.len, V.len + 1), eq(o.at(0), I(0)), eq(o.at(V.len), C.len * N), eq(f.len, C.len * N))), ('blocks in order', forall(0, V.len, lambda v: le(o.at(v), o.at(v + 1)))),
                ('listed faces use the vertex', forall(0, V.len, lambda v: forall(o.at(v), o.at(v + 1), lambda q: and_(le(I(0), f.at(q)), lt(f.at(q), C.len), uses(f.at(q), v))))),
                ('ascending, each once', forall(0, V.len, lambda v: forall(o.at(v), o.at(v + 1) - 1, lambda q: lt(f.at(q), f.at(q + 1))))),
                ('every use is listed', forall(0, C.len, lambda i: and_(*[exists(o.at(C.at(i, j)), o.at(C.at(i, j) + 1), lambda q: eq(f.at(q), i)) for j in range(N)])))]
    dist = lambda c, N=N, C='c': [('corners differ', forall(0, getattr(c, C).len, lambda i: and_(*[ne(getattr(c, C).at(i, a), getattr(c, C).at(i, b)) for a in range(N) for b in range(a)])))]
    ivec = lambda nm: Vec(nm, 'i4', mode='inout', onlynull=True)
    T(k + '_vf', mesh(N) + [ivec('o'), ivec('f')], pre=lambda c, IR=IR, dist=dist: IR(c) + dist(c), fix=G, post=table, samples=1500,
      bounded='counting sort over symbolic connectivity; meshes of up to 12 faces')
    T(k + '_vfagain', mesh(N) + mesh(N, 'v2', 'c2') + [ivec('o'), ivec('f')], pre=lambda c, IR=IR, dist=dist, N=N: IR(c) + dist(c) + inrange(N, 'v2', 'c2')(c) + dist(c, C='c2'), samples=800,
      fix=lambda d, rng, G=G, P=P, N=N: (G(d, rng), genmesh(P, N, 'v2', 'c2')(d, rng)), post=lambda c, table=table: table(c, C='c2', V='v2'), frame=False, opts=dict(heap=False), bounded='as for one call')
