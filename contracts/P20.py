"""P20: rectilinear grids."""
from .lib import *
HARNESS = 'P20.cpp'
TARGETS = []
MAXI = 2 ** 31 - 1
NM = 'xyz'
LIM = 2 ** 26


def T(*a, **k): TARGETS.append(Target(*a, **k))


def prod(xs):
    r = xs[0]
    for x in xs[1:]: r = r * x
    return r


def ascending(rng, n):
    v = rng.uniform(-3, 3); L = []
    for _ in range(n):
        L.append(v); v += rng.choice([.5, 1., rng.uniform(.1, 2)])
    return L


for D in (1, 2, 3):
    p = 'r%d_' % D
    A = range(D)
    lines = lambda D=D: [Vec(NM[k], 'f8', minlen=2, maxlen=LIM, exactcap=True, glen=lambda rng: rng.randint(2, 6)) for k in range(D)]
    ln = lambda c, k: getattr(c, NM[k])
    n = lambda c, k: ln(c, k).len - 1

    def gen(d, rng, A=A):
        for k in A:
            w = d[NM[k] + '.len']
            d[NM[k]] = ascending(rng, w)
            for q in ('ix', 'jx'):
                if '%s[%d]' % (q, k) in d: d['%s[%d]' % (q, k)] = rng.randrange(w - 1)
    fits = lambda c, A=A: [('number of cells representable', and_(*[le(prod([n(c, j) for j in A][:q + 1]), I(MAXI)) for q in A]))]

    def whole(c, lo, hi, cnt, D=D, A=A):
        o, q = c.new.o, c.new.k
        r = lambda j, v: and_(*[eq(o[j * D + k], v(k)) for k in A])
        return [('lower corner is the first lines', and_(r(0, lo), r(1, lo))), ('upper corner is the last lines', and_(r(2, hi), r(3, hi))),
                ('one cell between neighbouring lines', and_(*[and_(eq(q[k], cnt(k)), eq(q[D + k], cnt(k))) for k in A])),
                ('extent from first to last line', and_(r(4, lambda k: hi(k) - lo(k)), r(5, lambda k: hi(k) - lo(k)))),
                ('bounding box', and_(r(6, lo), r(7, hi))), ('total is the product', eq(q[2 * D], prod([cnt(k) for k in A])))]
    T(p + 'make', lines() + [Out('o', n=8 * D), Out('k', 'i4', n=2 * D + 1)], pre=lambda c, f=fits, A=A: f(c) + [('lines in ascending order', and_(*[(lambda L: forall(0, L.len, lambda i: forall(0, L.len, lambda j: implies(lt(i, j), lt(L.at(i), L.at(j))))))(ln(c, k)) for k in A]))], fix=gen, opts=dict(heap=False),
      post=lambda c, w=whole: w(c, lambda k: ln(c, k).at(0), lambda k: ln(c, k).at(ln(c, k).len - 1), lambda k: n(c, k)))
    T(p + 'box', [Buf('lo', n=D), Buf('hi', n=D), Out('o', n=8 * D), Out('k', 'i4', n=2 * D + 1)], pre=lambda c, A=A: [and_(*[lt(c.lo[k], c.hi[k]) for k in A])],
      fix=lambda d, rng, A=A: d.update({'hi[%d]' % k: d['lo[%d]' % k] + rng.uniform(.1, 3) for k in A}),
      post=lambda c, w=whole: w(c, lambda k: c.lo[k], lambda k: c.hi[k], lambda k: I(1)))

    def inside(c, nm, A=A): return [('index %s names a cell' % nm, and_(*[and_(le(I(0), getattr(c, nm)[k]), lt(getattr(c, nm)[k], n(c, k))) for k in A]))]

    def flat(c, A=A, D=D):
        ix, jx, o = c.ix, c.jx, c.new.o
        N = [n(c, k) for k in A]
        f = lambda ix: ix[0] if D == 1 else ix[0] + N[0] * ix[1] if D == 2 else ix[0] + N[0] * (ix[1] + N[1] * ix[2])
        same = and_(*[eq(ix[k], jx[k]) for k in A])
        return [('first direction fastest', and_(eq(o[0], f(ix)), eq(o[1], f(jx)), eq(o[2], f(ix)))),
                ('within the grid', and_(le(I(0), o[0]), lt(o[0], prod(N)))), ('different cells have different numbers', implies(eq(o[0], o[1]), same))]
    T(p + 'flat', lines() + [Buf('ix', 'i4', n=D), Buf('jx', 'i4', n=D), Out('o', 'i4', n=3)], pre=lambda c, f=fits, i=inside: f(c) + i(c, 'ix') + i(c, 'jx'), fix=gen, post=flat, budget=150 if D < 3 else 40, opts=dict(heap=False))
    T(p + 'cell', lines() + [Buf('ix', 'i4', n=D), Out('o', n=2 * D)], pre=lambda c, i=inside: i(c, 'ix') + [('lines in order', and_(*[lt(ln(c, k).at(c.ix[k]), ln(c, k).at(c.ix[k] + 1)) for k in range(len(c.ix))]))], fix=gen, opts=dict(heap=False),
      post=lambda c, A=A, D=D: [('between the neighbouring lines', and_(*[and_(eq(c.new.o[k], ln(c, k).at(c.ix[k])), eq(c.new.o[D + k], ln(c, k).at(c.ix[k] + 1))) for k in A]))])
    back = lambda D=D: [Vec('uvw'[k], 'f8', mode='inout', onlynull=True) for k in range(D)]
    T(p + 'divs', lines() + back(), fix=gen, opts=dict(heap=False),
      post=lambda c, A=A: [('the lines given along %s' % NM[k], (lambda L, v: and_(eq(v.len, L.len), forall(0, L.len, lambda i: eq(v.at(i), L.at(i)))))(ln(c, k), getattr(c.new, 'uvw'[k]))) for k in A])
    T(p + 'clear', lines() + back(), fix=gen, opts=dict(heap=False), post=lambda c, A=A: [('no lines left', and_(*[eq(getattr(c.new, 'uvw'[k]).len, I(0)) for k in A]))])

    # a grid from the boxes of its cells, in any order
    outs = lambda D=D: [Vec(NM[k], 'f8', mode='inout', onlynull=True) for k in range(D)]
    E7 = Fraction(1e-7)

    def boxes(d, rng, D=D, A=A):
        g = [ascending(rng, rng.randint(2, 4)) for _ in A]
        import itertools
        cells = list(itertools.product(*[range(len(x) - 1) for x in g]))
        rng.shuffle(cells)
        L = []
        for cl in cells: L += [g[k][cl[k]] for k in A] + [g[k][cl[k] + 1] for k in A]
        d['b'] = L; d['b.len'] = d['b.cap'] = len(cells)

    def fromboxes(c, D=D, A=A):
        r = []
        for k in A:
            v = getattr(c.new, NM[k])
            r += [('lines in ascending order', forall(0, v.len - 1, lambda i: lt(v.at(i), v.at(i + 1)))),
                  ('every side of every box is on a line', forall(0, c.b.len, lambda j: and_(exists(0, v.len, lambda i: le(abs_(v.at(i) - c.b.at(j, k)), R(E7))), exists(0, v.len, lambda i: le(abs_(v.at(i) - c.b.at(j, D + k)), R(E7)))))),
                  ('every line is a side of a box', forall(0, v.len, lambda i: exists(0, c.b.len, lambda j: or_(eq(v.at(i), c.b.at(j, k)), eq(v.at(i), c.b.at(j, D + k))))))]
        return r + [('one box per cell', eq(prod([getattr(c.new, NM[k]).len - 1 for k in A]), c.b.len))]
    T(p + 'boxes', [Vec('b', 'f8', n=2 * D, minlen=1, exactcap=True)] + outs(), gen=None, fix=boxes, post=fromboxes, opts=dict(heap=False),
      bounded='the invariant of the line search over a growing list is not expressed; the boxes come from random grids of up to 3 cells per direction in random order', samples=2000)


def idfix(d, rng):
    ny, nx = rng.randint(1, 4), rng.randint(1, 4)
    W = [rng.choice([.5, 1., 1.26, rng.uniform(.1, 2)]) for _ in range(nx)]
    H = [rng.choice([.5, 1., 1.26, rng.uniform(.1, 2)]) for _ in range(ny)]
    kinds = []; tab = []
    for i in range(ny):
        row = []
        for j in range(nx):
            s = (W[j], H[i])
            if s not in kinds or rng.random() < .2: kinds.append(s)
            row.append(rng.choice([q for q, t in enumerate(kinds) if t == s]))
        tab.append(row)
    d['ids'] = tab; d['ids.len'] = ny; d['ids.n'] = [nx] * ny
    d['s'] = [v for t in kinds for v in t]; d['s.len'] = d['s.cap'] = len(kinds)


def idpre(c):
    t, s = c.ids, c.s
    w = lambda i, j: s.at(t.at(i, j), 0); h = lambda i, j: s.at(t.at(i, j), 1)
    nc = t.n(0)
    cell = lambda f: forall(0, t.len, lambda i: forall(0, nc, lambda j: f(i, j)))
    return [('rectangular table', and_(lt(I(0), nc), forall(0, t.len, lambda i: eq(t.n(i), nc)))), ('ids name cells', cell(lambda i, j: and_(le(I(0), t.at(i, j)), lt(t.at(i, j), s.len)))),
            ('sizes match', cell(lambda i, j: and_(eq(w(i, j), w(0, j)), eq(h(i, j), h(i, 0))))), ('sizes clearly positive', cell(lambda i, j: and_(lt(R(Fraction(1, 1000)), w(i, j)), lt(R(Fraction(1, 1000)), h(i, j)))))]


def idpost(c):
    t, s, x, y = c.ids, c.s, c.new.x, c.new.y
    return [('one line more than cells', and_(eq(x.len, t.n(0) + 1), eq(y.len, t.len + 1))), ('starts at the origin', and_(eq(x.at(0), R(0)), eq(y.at(0), R(0)))),
            ('gaps are the widths of the cells in order', forall(0, t.n(0), lambda j: eq(x.at(j + 1) - x.at(j), s.at(t.at(0, j), 0)))),
            ('gaps are the heights of the rows, last row first', forall(0, t.len, lambda i: eq(y.at(i + 1) - y.at(i), s.at(t.at(t.len - 1 - i, 0), 1))))]


T('r2_ids', [Vec('s', 'f8', n=2, minlen=1, exactcap=True), Rows('ids', 'i4', minlen=1), Vec('x', 'f8', mode='inout', onlynull=True), Vec('y', 'f8', mode='inout', onlynull=True)],
  pre=idpre, fix=idfix, post=idpost, opts=dict(heap=False), samples=2000,
  bounded='builds on the list of boxes; tables of up to 4 by 4 ids with random sizes')
