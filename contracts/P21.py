"""P21: partitions of grids and the flattening of lattices."""
from .lib import *
from .P20 import idfix, idpre, idpost, ascending, prod
UNITS = {
    'm': dict(harness='P21.cpp'),
    'lat': dict(harness='P21m.cpp', noinline=LOG_NOINLINE, optional=True, extra=['-lpugixml', '-L/usr/lib/x86_64-linux-gnu/hdf5/serial', '-lhdf5_cpp', '-lhdf5', '-llapacke', '-lopenblas'],
                srcs=['src/mesh/polytope_soup.cpp', 'src/mesh/face_vertex_mesh.cpp', 'src/math/matrix.cpp', 'src/physics/nuclide.cpp', 'src/physics/cross_section.cpp', 'src/physics/cmfd.cpp',
                      'src/physics/cross_section_library.cpp', 'src/physics/material.cpp', 'src/common/settings.cpp', 'src/common/logger.cpp']),
}
TARGETS = []
MAXI = 2 ** 31 - 1
NM = 'xyz'
LIM = 2 ** 26


def T(fn, *a, key='m', **k):
    t = Target(fn, *a, **k)
    t.modkey = key
    TARGETS.append(t)


for D, P, K in ((1, 'i', 'i4'), (2, 'i', 'i4'), (3, 'i', 'i4'), (2, 'f', 'f8')):
    A = range(D)
    child = lambda K=K: Vec('v', K, minlen=1, maxlen=LIM, exactcap=True)
    for kind in 'ut':
        p = '%s%d%s_' % (kind, D, P)
        if kind == 'u':
            grid = lambda D=D: [Buf('m', n=D), Buf('s', n=D), Buf('n', 'i4', n=D, lo=1, hi=MAXI)]
            N = lambda c: c.n
            valid = lambda c, A=A: [('positive spacing', and_(*[lt(R(0), c.s[k]) for k in A])), ('cells in every direction', and_(*[lt(I(0), c.n[k]) for k in A]))]
        else:
            grid = lambda D=D: [Vec(NM[k], 'f8', minlen=2, maxlen=LIM, exactcap=True, glen=lambda rng: rng.randint(2, 5)) for k in range(D)]
            N = lambda c, A=A: [getattr(c, NM[k]).len - 1 for k in A]
            valid = lambda c: []

        def gen(d, rng, A=A, kind=kind):
            n = []
            for k in A:
                if kind == 'u':
                    d['s[%d]' % k] = rng.choice([.5, 1., 2.]); n.append(rng.randint(1, 4)); d['n[%d]' % k] = n[-1]
                else:
                    w = d[NM[k] + '.len']; n.append(w - 1)
                    d[NM[k]] = ascending(rng, w)
                if 'ix[%d]' % k in d: d['ix[%d]' % k] = rng.randrange(n[-1])
            t = 1
            for q in n: t *= q
            d['v'] = [rng.randint(0, 99) for _ in range(t)]; d['v.len'] = d['v.cap'] = t
        whole = lambda c, N=N, A=A: [('one child per cell', eq(prod(N(c)), c.v.len)), ('sizes representable', and_(*[le(prod(N(c)[:q + 1]), I(MAXI)) for q in A]))]
        inside = lambda c, N=N, A=A: [('index names a cell', and_(*[and_(le(I(0), c.ix[k]), lt(c.ix[k], N(c)[k])) for k in A]))]
        flat = lambda c, N=N, D=D: c.ix[0] if D == 1 else c.ix[0] + N(c)[0] * c.ix[1] if D == 2 else c.ix[0] + N(c)[0] * (c.ix[1] + N(c)[1] * c.ix[2])
        T(p + 'get', grid() + [child(), Buf('ix', 'i4', n=D)], K, pre=lambda c, v=valid, w=whole, i=inside: v(c) + w(c) + i(c), fix=gen, opts=dict(heap=False), budget=150,
          post=lambda c, f=flat: [('the child of exactly that cell', eq(c.ret, c.v.at(f(c))))])
        T(p + 'set', grid() + [child(), Buf('ix', 'i4', n=D), Scalar('e', K), Vec('o', K, mode='inout', onlynull=True)], pre=lambda c, v=valid, w=whole, i=inside: v(c) + w(c) + i(c), fix=gen, opts=dict(heap=False), budget=150,
          post=lambda c, f=flat: [('only that child changes', and_(eq(c.new.o.len, c.v.len), forall(0, c.v.len, lambda j: eq(c.new.o.at(j), ite(eq(j, f(c)), c.e, c.v.at(j))))))])
        if P != 'i': continue
        lo = (lambda c, k: c.m[k]) if kind == 'u' else (lambda c, k: getattr(c, NM[k]).at(0))
        hi = (lambda c, k: c.m[k] + c.s[k] * toreal(c.n[k])) if kind == 'u' else (lambda c, k: getattr(c, NM[k]).at(getattr(c, NM[k]).len - 1))
        T('%s%d_grid' % (kind, D), grid() + [child(), Out('o', n=2 * D), Out('k', 'i4', n=D + 1)], pre=lambda c, v=valid, w=whole: v(c) + w(c), fix=gen, opts=dict(heap=False), budget=100,
          post=lambda c, N=N, A=A, D=D, lo=lo, hi=hi: [('grid queries answered by the grid', and_(*[and_(eq(c.new.o[k], lo(c, k)), eq(c.new.o[D + k], hi(c, k)), eq(c.new.k[k], N(c)[k])) for k in A] + [eq(c.new.k[D], prod(N(c)))]))])
        if kind == 't':
            T('t%d_clear' % D, grid() + [child(), Out('k', 'i4', n=D + 1)], pre=lambda c, w=whole: w(c), fix=gen, opts=dict(heap=False), budget=100, post=lambda c, D=D: [('nothing left', and_(*[eq(c.new.k[q], I(0)) for q in range(D + 1)]))])

nul = lambda nm, k: Vec(nm, k, mode='inout', onlynull=True)
bottomup = lambda c: forall(0, c.ids.len, lambda i: forall(0, c.ids.n(0), lambda j: eq(c.new.v.at(i * c.ids.n(0) + j), c.ids.at(c.ids.len - 1 - i, j))))
T('t2_ids', [Vec('s', 'f8', n=2, minlen=1, exactcap=True), Rows('ids', 'i4', minlen=1), nul('x', 'f8'), nul('y', 'f8'), nul('v', 'i4')], pre=idpre, fix=idfix, opts=dict(heap=False), samples=2000,
  post=lambda c: idpost(c) + [('one child per cell', eq(c.new.v.len, c.ids.len * c.ids.n(0))), ('children bottom row first', bottomup(c))],
  bounded='builds on the grid constructor from ids; tables of up to 4 by 4 ids')
even = lambda c: forall(0, c.ids.len, lambda i: eq(c.ids.n(i), c.ids.n(0)))
T('fl_i', [Rows('ids', 'i4', minlen=1, maxlen=2 ** 15, maxcol=2 ** 11), nul('v', 'i4')], key='lat', hooks=LOG_HOOK, opts=dict(heap=False, lean=True, unroll=0), inv=fill2(lambda o: o.ids.n(0), lambda o, i, j: o.ids.at(o.ids.len - 1 - i, j)), pre=lambda c: [('rows are not empty', lt(I(0), c.ids.n(0)))],
  post=lambda c: [('rows of different lengths are refused', implies(not_(even(c)), eq(c.new.v.len, I(0)))), ('every entry once', implies(even(c), eq(c.new.v.len, c.ids.len * c.ids.n(0)))),
                  ('bottom row first', implies(even(c), bottomup(c)))])
