"""P10: run-time sized matrices."""
from .lib import *
UNITS = {
    'lib': dict(harness='P10.cpp', extra=['-llapacke', '-lopenblas']),
    'own': dict(harness='P10.cpp', config=dict(BLAS_LAPACK=0)),
}
TARGETS = []
MAXN = 2 ** 31 - 1
LIM = 2 ** 26          # most elements of a matrix (Vector refuses more than INT_MAX bytes)
CX = {'z': 'f8', 'c': 'f4'}
KIND = dict(d='f8', f='f4', i='i4', z=[('re', 'f8'), ('im', 'f8')], c=[('re', 'f4'), ('im', 'f4')])


def T(u, fn, *a, **k):
    k['opts'] = dict(k.get('opts') or {}, unroll=0, lean=True)
    if fn[:2] in ('z_', 'c_') and not fn.endswith('_eig'): k['opts']['heapstride'] = 16 if fn[0] == 'z' else 8
    t = Target(fn, *a, **k)
    t.modkey = u
    t.name = u + ':' + fn
    TARGETS.append(t)


def comps(p): return ('re', 'im') if p in CX else (None,)
def el(p, view, i): return [view.at(i, f) if f else view.at(i) for f in comps(p)]
def times(x, y):
    if len(x) == 1: return [x[0] * y[0]]
    return [x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0]]
def total(lo, hi, f, n):
    return [Sum(lo, hi, lambda q, i=i: f(q)[i]) for i in range(n)]
def same(x, y): return and_(*[eq(a, b) for a, b in zip(x, y)])


# ------------------------------------------------------------------ linear algebra backend (trusted contracts)
class Mat:
    """column/row-major matrix argument of a backend call"""

    def __init__(s, ex, st, p, nb, parts, name):
        if not isinstance(p, Ptr) or p.obj is None: raise Unsupported('backend buffer')
        s.ex, s.st, s.p, s.nb, s.parts, s.name = ex, st, p, nb, parts, name
        S = nb * parts
        w = st.w(p.obj)
        if w.stride is None:
            if w.cells: raise Unsupported('backend buffer')
            w.stride = S
        c, it = ldview(p.off)
        if w.stride != S or c % S or any(k % S for _, k in it): raise Unsupported('backend buffer stride')
        s.base = mklin(c // S, {t: k // S for t, k in it}, 'I')
        s.S = S
        s.keys = [(nb * i, nb, 'f') for i in range(parts)]
        for k in s.keys:
            if k not in w.arrs: w.arrs[k] = ex.fresh_arr(p.obj, k, None)
        s.arrs = [w.arrs[k] for k in s.keys]

    def fits(s, n):
        s.ex.size_check(s.st, s.p, n * s.S, 'backend access to ' + s.name, s.name)

    def __getitem__(s, i): return [aread(a, s.p.keys + (s.base + i,)) for a in s.arrs]

    def havoc(s):
        """all elements of the buffer get unknown values; returns the reader of the new ones"""
        w = s.st.w(s.p.obj)
        for k in s.keys: w.arrs[k] = s.ex.fresh_arr(s.p.obj, k, None)
        s.arrs = [w.arrs[k] for k in s.keys]


def scalar_arg(ex, st, v, nb, parts):
    if parts == 1: return [v] if isinstance(v, E) else None
    if not isinstance(v, Ptr): return None
    return [ldf(ex, st, v, i, 'f%d' % nb) for i in range(2)]


def const_of(e): return e.args[0] if isinstance(e, E) and e.op == 'c' else None


TYPES = dict(s=(4, 1), d=(8, 1), c=(4, 2), z=(8, 2))


def ld_ok(ex, st, what, ld, need): ex.oblige(st, '%s: leading dimension covers a column' % what, and_(le(I(1), ld), le(need, ld)))


def gemv(ex, st, a, x, name):
    """y := alpha * op(A) * x + beta * y"""
    nb, parts = TYPES[re.match(r'.*cblas_(.)gemv', name).group(1)]
    if len(a) != 12: return NotImplemented
    order, tr, m, n, al, A, lda, xx, incx, be, yy, incy = a
    order, tr = const_of(order), const_of(tr)
    if order not in (101, 102) or tr not in (111, 112) or const_of(incx) != 1 or const_of(incy) != 1: return NotImplemented
    al, be = scalar_arg(ex, st, al, nb, parts), scalar_arg(ex, st, be, nb, parts)
    if al is None or be is None: return NotImplemented
    A = Mat(ex, st, A, nb, parts, 'A'); X = Mat(ex, st, xx, nb, parts, 'x'); Y = Mat(ex, st, yy, nb, parts, 'y')
    if Y.p.obj in (A.p.obj, X.p.obj): return NotImplemented
    ex.oblige(st, 'gemv: dimensions are not negative', and_(le(I(0), m), le(I(0), n)))
    ld_ok(ex, st, 'gemv', lda, m if order == 102 else n)
    A.fits((lda * (n - 1) + m) if order == 102 else (lda * (m - 1) + n))
    flip = (order == 101) != (tr == 112)
    rows, cols = (m, n) if tr == 111 else (n, m)
    X.fits(cols); Y.fits(rows)
    old = Y.arrs
    ent = (lambda i, j: A[i * lda + j]) if flip else (lambda i, j: A[j * lda + i])
    o = lambda i: [aread(q, Y.p.keys + (Y.base + i,)) for q in old]
    def val(i):
        s = times(al, total(0, cols, lambda j: times(ent(i, j), X[j]), parts))
        b = times(be, o(i))
        return [s[q] + b[q] for q in range(parts)]
    Y.havoc()
    st.assume(forall(0, rows, lambda i: same(Y[i], val(i))))
    ex.note('cblas ?gemv stores alpha*op(A)*x + beta*y in y and nothing else (trusted contract)')
    return [(st, None)]


def gemm(ex, st, a, x, name):
    """C := alpha * op(A) * op(B) + beta * C"""
    nb, parts = TYPES[re.match(r'.*cblas_(.)gemm', name).group(1)]
    if len(a) != 14: return NotImplemented
    order, ta, tb, m, n, k, al, A, lda, B, ldb, be, C, ldc = a
    order, ta, tb = const_of(order), const_of(ta), const_of(tb)
    if order not in (101, 102) or ta not in (111, 112) or tb not in (111, 112): return NotImplemented
    al, be = scalar_arg(ex, st, al, nb, parts), scalar_arg(ex, st, be, nb, parts)
    if al is None or be is None: return NotImplemented
    A = Mat(ex, st, A, nb, parts, 'A'); B = Mat(ex, st, B, nb, parts, 'B'); C = Mat(ex, st, C, nb, parts, 'C')
    if C.p.obj in (A.p.obj, B.p.obj): return NotImplemented
    ex.oblige(st, 'gemm: dimensions are not negative', and_(le(I(0), m), le(I(0), n), le(I(0), k)))
    def arrange(M, ld, r, c, trans, what):
        """r x c = op(M); reader of op(M)(i, j)"""
        sr, sc = (r, c) if trans == 111 else (c, r)
        lead, other = (sr, sc) if order == 102 else (sc, sr)
        ld_ok(ex, st, 'gemm ' + what, ld, lead)
        M.fits(ld * (other - 1) + lead)
        return (lambda i, j: j * ld + i) if (order == 101) == (trans == 112) else (lambda i, j: i * ld + j)
    fa = arrange(A, lda, m, k, ta, 'A'); fb = arrange(B, ldb, k, n, tb, 'B'); fc = arrange(C, ldc, m, n, 111, 'C')
    old = C.arrs
    def val(i, j):
        s = times(al, total(0, k, lambda q: times(A[fa(i, q)], B[fb(q, j)]), parts))
        b = times(be, [aread(q, C.p.keys + (C.base + fc(i, j),)) for q in old])
        return [s[q] + b[q] for q in range(parts)]
    C.havoc()
    st.assume(forall(0, n, lambda j: forall(0, m, lambda i: same(C[fc(i, j)], val(i, j)))))
    ex.note('cblas ?gemm stores alpha*op(A)*op(B) + beta*C in C and nothing else (trusted contract)')
    return [(st, None)]


def gesv(ex, st, a, x, name):
    """B := X with A X = B; A is overwritten"""
    nb, parts = TYPES[re.match(r'.*LAPACKE_(.)gesv', name).group(1)]
    if len(a) != 8: return NotImplemented
    order, n, nrhs, A, lda, piv, B, ldb = a
    if const_of(order) != 102: return NotImplemented
    A = Mat(ex, st, A, nb, parts, 'A'); B = Mat(ex, st, B, nb, parts, 'B'); P = piv
    if A.p.obj is B.p.obj or not isinstance(piv, Ptr): return NotImplemented
    ex.oblige(st, 'gesv: dimensions are not negative', and_(le(I(0), n), le(I(0), nrhs)))
    ld_ok(ex, st, 'gesv A', lda, n); ld_ok(ex, st, 'gesv B', ldb, n)
    A.fits(lda * (n - 1) + n); B.fits(ldb * (nrhs - 1) + n)
    ex.size_check(st, piv, n * 4, 'backend access to pivots', 'pivots')
    oa, ob = A.arrs, B.arrs
    rd = lambda M, arrs, i: [aread(q, M.p.keys + (M.base + i,)) for q in arrs]
    A.havoc(); B.havoc()
    w = st.w(piv.obj)
    if w.cells: return NotImplemented
    w.arrs = {k: ex.fresh_arr(piv.obj, k, None) for k in w.arrs}
    st.assume(forall(0, nrhs, lambda j: forall(0, n, lambda i: same(total(0, n, lambda q: times(rd(A, oa, q * lda + i), B[j * ldb + q]), parts), rd(B, ob, j * ldb + i)))))
    ex.note('LAPACKE ?gesv solves A X = B for a non-singular A, overwriting A, B and the pivots only (trusted contract); the matrix is assumed non-singular')
    return [(st, I(0))]


def geev(ex, st, a, x, name):
    """eigenvalues of A: their sum is the trace, the sum of their squares the trace of the square"""
    nb, parts = TYPES[re.match(r'.*LAPACKE_(.)geev', name).group(1)]
    work = name.endswith('_work')
    if len(a) != {(1, True): 14, (2, True): 14, (1, False): 12, (2, False): 11}[parts, work]: return NotImplemented
    order, jl, jr, n, A, lda = a[:6]
    if const_of(order) != 102 or const_of(jl) != 78 or const_of(jr) != 78: return NotImplemented
    if parts == 1: wr, wi, vl, ldvl, vr, ldvr = a[6:12]
    else: wr, vl, ldvl, vr, ldvr = a[6:11]
    A = Mat(ex, st, A, nb, parts, 'A')
    ld_ok(ex, st, 'geev A', lda, n)
    ex.oblige(st, 'geev: dimension is not negative, eigenvector strides are positive', and_(le(I(0), n), le(I(1), ldvl), le(I(1), ldvr)))
    A.fits(lda * (n - 1) + n)
    W = [Mat(ex, st, wr, nb, 1, 'wr'), Mat(ex, st, wi, nb, 1, 'wi')] if parts == 1 else [Mat(ex, st, wr, nb, 2, 'w')]
    for v in W: v.fits(n)
    bufs = [v.p.obj for v in W] + [A.p.obj]
    if work:
        wk, lw = a[12:14] if parts == 1 else a[11:13]
        ex.oblige(st, 'geev: workspace is large enough', and_(le(I(1), lw), le(n * (3 if parts == 1 else 2), lw)))
        for b, size in ((wk, lw * (nb * parts)),) + (((a[13], n * (2 * nb)),) if parts == 2 else ()):
            if not isinstance(b, Ptr) or b.obj is None: return NotImplemented
            ex.size_check(st, b, size, 'backend access to its workspace', 'work')
            bufs.append(b.obj)
            w = st.w(b.obj)
            w.cells = {}; w.arrs = {k: ex.fresh_arr(b.obj, k, None) for k in w.arrs}
    ex.oblige(st, 'geev: buffers do not overlap', TRUE if len(set(bufs)) == len(bufs) else FALSE)
    oa = A.arrs
    rd = lambda i, j: [aread(q, A.p.keys + (A.base + (j * lda + i),)) for q in oa]
    A.havoc()
    for v in W: v.havoc()
    ev = (lambda i: [W[0][i][0], W[1][i][0]]) if parts == 1 else (lambda i: W[0][i])
    st.assume(same(total(0, n, ev, 2), (total(0, n, lambda i: rd(i, i), parts) + [R(0)])[:2]))
    ex.note('LAPACKE ?geev returns the eigenvalues of A (their sum is the trace), overwriting A, the workspaces and the results only (trusted contract)')
    return [(st, I(0))]


BLAS = [(r'cblas_[sdcz]gemv$', gemv), (r'cblas_[sdcz]gemm$', gemm), (r'LAPACKE_[sdcz]gesv$', gesv), (r'LAPACKE_[sdcz]geev(_work)?$', geev)]

# ------------------------------------------------------------------ specifications
r_, c_, k_, n_ = [Int(v, 1, MAXN, ghi=4) for v in 'rckn']
r1, c1, k1, n1 = [Int(v, 1, MAXN, ghi=4) for v in 'rckn']


def V(p, nm, mode='inout'): return Vec(nm, KIND[p], mode=mode, exactcap=True)
def O(p): return Vec('v', KIND[p], mode='inout', onlynull=True)


def sizes(**kw):
    """pre: each named vector holds the given number of elements"""
    def pre(c):
        out = []
        for nm, dims in kw.items():
            ds = [getattr(c, q) for q in dims]
            n = ds[0]
            for q in ds[1:]: n = n * q
            if len(ds) > 1: out.append(('%s has a representable number of elements' % nm, le(n, I(LIM))))
            if not nm.startswith('_'): out.append(('%s holds %s elements' % (nm, '*'.join(dims)), eq(getattr(c, nm).len, n)))
        return out
    return pre


def num(p, rng):
    if p == 'i': return rng.randint(-9, 9)
    return rng.randint(-32, 32) / 4.0


def fill(p, extra=None, **kw):
    def fix(d, rng):
        for nm, dims in kw.items():
            if nm.startswith('_'): continue
            n = 1
            for q in dims: n *= d[q]
            d[nm + '.len'] = d[nm + '.cap'] = n
            for f in comps(p): d[nm + ('.' + f if f else '')] = [num(p, rng) for _ in range(n)]
        if extra: extra(d, rng)
    return fix


def shape(c, r, cc): return [('row count', eq(c.new.o[0], r)), ('column count', eq(c.new.o[1], cc)), ('element count', eq(c.new.v.len, r * cc))]
def kept(p, c, *nms):
    out = []
    for nm in nms:
        o, n = getattr(c, nm), getattr(c.new, nm)
        out += [('%s keeps its size' % nm, eq(n.len, o.len)), ('%s unchanged' % nm, forall(0, o.len, lambda q: same(el(p, n, q), el(p, o, q))))]
    return out


def entries(p, view, r, c, f, what): return [(what, forall(0, c, lambda j: forall(0, r, lambda i: same(el(p, view, j * r + i), f(i, j)))))]


def one(p, re_): return [(R if p != 'i' else I)(re_)] + ([R(0)] if p in CX else [])
def cell(d, rng, r='r', c='c'):
    d['r'] = max(1, d['r']); d['c'] = max(1, d['c'])
    d['i'] = rng.randrange(d['r']); d['j'] = rng.randrange(d['c'])


def scalarp(p): return Buf('s', CX[p], 2) if p in CX else Buf('s', KIND[p], 1)
def small(p): return dict(lo=-2 ** 14, hi=2 ** 14) if p == 'i' else {}


def common(p):
    u = 'lib'
    IV = lambda nm: Int(nm, 0, MAXN, ghi=3)
    ij = lambda c: [('row in range', lt(c.i, c.r)), ('column in range', lt(c.j, c.c))]
    sz = sizes(a=('r', 'c'))
    def fx(d, rng):
        cell(d, rng); fill(p, a=('r', 'c'))(d, rng)
    for fn in ('ix', 'cix'):
        T(u, '%s_%s' % (p, fn), [r_, c_, IV('i'), IV('j'), V(p, 'a')], 'i4', pre=lambda c: sz(c) + ij(c), fix=fx,
          post=lambda c: [('column-major position', eq(c.ret, c.j * c.r + c.i)), ('inside the matrix', lt(c.ret, c.a.len))] + kept(p, c, 'a'))
    def fl(d, rng):
        cell(d, rng); fill(p, a=('r', 'c'))(d, rng); d['i'] = rng.randrange(d['r'] * d['c'])
    T(u, p + '_lin', [r_, c_, IV('i'), V(p, 'a')], 'i4', pre=lambda c: sz(c) + [('index in range', lt(c.i, c.a.len)), ('twice the index', lt(c.i * 2, I(MAXN)))], fix=fl,
      post=lambda c: [('linear position', eq(c.ret, c.i * 2))] + kept(p, c, 'a'))
    T(u, p + '_shape', [r_, c_, Out('o', 'i4', 3), O(p)], pre=sizes(_=('r', 'c')), post=lambda c: shape(c, c.r, c.c) + [('iteration covers the elements', eq(c.new.o[2], c.r * c.c))])
    X = Buf('x', CX[p], 2) if p in CX else Buf('x', KIND[p], 1)
    xs = lambda b: [b[0], b[1]] if p in CX else [b[0]]
    T(u, p + '_fill', [r_, c_, X, Out('o', 'i4', 2), O(p)], pre=sizes(_=('r', 'c')),
      post=lambda c: shape(c, c.r, c.c) + [('every entry is the value', forall(0, c.r * c.c, lambda q: same(el(p, c.new.v, q), xs(c.x))))])
    T(u, p + '_eye', [n_, Out('o', 'i4', 2), O(p)], pre=sizes(_=('n', 'n')),
      post=lambda c: shape(c, c.n, c.n) + entries(p, c.new.v, c.n, c.n, lambda i, j: [ite(eq(i, j), a, b) for a, b in zip(one(p, 1), one(p, 0))], 'ones on the diagonal, zeros elsewhere'), inv=eye_inv(p))
    T(u, p + '_zero', [r_, c_, V(p, 'a')], pre=sz, fix=fill(p, a=('r', 'c')), post=lambda c: [('size kept', eq(c.new.a.len, c.a.len)), ('all zero', forall(0, c.r * c.c, lambda q: same(el(p, c.new.a, q), one(p, 0))))])
    T(u, p + '_tr', [n_, V(p, 'a')], pre=sizes(a=('n', 'n')), fix=fill(p, a=('n', 'n')), inv=tr_inv(p), opts=dict(loop_timeout=4, ite_cases=True) if p == 'd' else {}, budget=200,
      post=lambda c: [('size kept', eq(c.new.a.len, c.a.len))] + entries(p, c.new.a, c.n, c.n, lambda i, j: conj(el(p, c.a, i * c.n + j)), 'entry (i, j) is the old (conjugated) entry (j, i)'))
    ib = lambda c: [('products representable', forall(0, c.a.len, lambda q: and_(*[and_(le(I(-2 ** 14), e), le(e, I(2 ** 14))) for nm in 'ab' if hasattr(c, nm) for e in el(p, getattr(c, nm), q)])))] if p == 'i' else []
    S = scalarp(p)
    T(u, p + '_scale', [r_, c_, S, V(p, 'a')], pre=lambda c: sz(c) + ib(c) + ([('scalar representable', and_(le(I(-2 ** 14), c.s[0]), le(c.s[0], I(2 ** 14))))] if p == 'i' else []),
      fix=fill(p, a=('r', 'c'), extra=lambda d, rng: [d.__setitem__('s[%d]' % q, num(p, rng)) for q in range(len(comps(p)))]),
      post=lambda c: [('size kept', eq(c.new.a.len, c.a.len)), ('every entry scaled', forall(0, c.r * c.c, lambda q: same(el(p, c.new.a, q), times(el(p, c.a, q), xs(c.s)))))], inv=scale_inv(p) if len(comps(p)) == 2 else None)
    two = sizes(a=('r', 'c'), b=('r', 'c'))
    f2 = fill(p, a=('r', 'c'), b=('r', 'c'))
    for fn, sg in (('addto', 1), ('subto', -1)):
        T(u, '%s_%s' % (p, fn), [r_, c_, V(p, 'a'), V(p, 'b')], pre=lambda c: two(c) + ib(c), fix=f2,
          post=lambda c, sg=sg: [('size kept', eq(c.new.a.len, c.a.len)), ('entrywise', forall(0, c.r * c.c, lambda q: same(el(p, c.new.a, q), [x + y * sg for x, y in zip(el(p, c.a, q), el(p, c.b, q))])))] + kept(p, c, 'b'))
    for fn, sg in (('add', 1), ('sub', -1)):
        T(u, '%s_%s' % (p, fn), [r_, c_, V(p, 'a'), V(p, 'b'), Out('o', 'i4', 2), O(p)], pre=lambda c: two(c) + ib(c), fix=f2,
          post=lambda c, sg=sg: shape(c, c.r, c.c) + [('entrywise', forall(0, c.r * c.c, lambda q: same(el(p, c.new.v, q), [x + y * sg for x, y in zip(el(p, c.a, q), el(p, c.b, q))])))] + kept(p, c, 'a', 'b'))


def conj(v): return v if len(v) == 1 else [v[0], -v[1]]


def eye_inv(p):
    def inv(L):
        n = L.ex.old.n
        out = []
        for o, key, rd, _ in written(L):
            v = (lambda x: I(x)) if key[2] == 'i' else (lambda x: R(x))
            out.append(('zeros off the diagonal', lambda lv, rd=rd, v=v: forall(0, n, lambda j: forall(0, n, lambda i: implies(ne(i, j), eq(rd(lv, j * n + i), v(0)))))))
            out.append(('diagonal so far', lambda lv, rd=rd, v=v, key=key: forall(0, lv.k, lambda i: eq(rd(lv, i * n + i), v(0 if key[0] else 1)))))
        return out
    return inv


def scale_inv(p):
    def inv(L):
        W = sorted([w for w in written(L) if w[3] is not None], key=lambda w: w[1][0])
        if len(W) != 2: return []
        s = L.ex.old.s
        return [('scaled so far', lambda lv, q=q: forall(0, lv.k, lambda i: eq(W[q][2](lv, i), times([w[3](i) for w in W], [s[0], s[1]])[q]))) for q in (0, 1)] + \
            [('not yet scaled', lambda lv, q=q: forall(lv.k, L.ex.old.a.len, lambda i: eq(W[q][2](lv, i), W[q][3](i)))) for q in (0, 1)]
    return inv


def tr_inv(p):
    """pairs already exchanged: smaller index before the current column, or in it and larger index already visited"""
    def inv(L):
        n = L.ex.old.n
        ks = enclosing(L)
        out = []
        for o, key, rd, ini in written(L):
            if ini is None: continue
            sg = -1 if key[0] else 1
            low = lambda f: (lambda lv: forall(0, n, lambda j: forall(0, j, lambda i: f(lv, i, j))))       # i < j
            def state(done, rd=rd, ini=ini, sg=sg):
                up = lambda lv, i, j: rd(lv, j * n + i); dn = lambda lv, i, j: rd(lv, i * n + j)
                u0 = lambda i, j: ini(j * n + i); d0 = lambda i, j: ini(i * n + j)
                return [('exchanged', low(lambda lv, i, j: implies(done(lv, i, j), eq(up(lv, i, j), d0(i, j) * sg)))), ('exchanged', low(lambda lv, i, j: implies(done(lv, i, j), eq(dn(lv, i, j), u0(i, j) * sg)))),
                        ('not yet exchanged', low(lambda lv, i, j: implies(not_(done(lv, i, j)), eq(up(lv, i, j), u0(i, j))))), ('not yet exchanged', low(lambda lv, i, j: implies(not_(done(lv, i, j)), eq(dn(lv, i, j), d0(i, j)))))]
            diag = [('diagonal kept', lambda lv, rd=rd, ini=ini: forall(0, n, lambda i: eq(rd(lv, i * n + i), ini(i * n + i))))]
            if not ks: out += state(lambda lv, i, j: lt(i, lv.k)) + diag
            elif len(ks) == 1:
                k = ks[0]
                out += state(lambda lv, i, j: or_(lt(i, k), and_(eq(i, k), lt(j, k + 1 + lv.k)))) + diag
        return out
    return inv


def sums_inv(p, rows, cols, depth):
    """accumulating products: `done(i, j)` entries hold the full sum, the current one a partial sum, the others zero"""
    def inv(L):
        old = L.ex.old
        r = getattr(old, rows); c = getattr(old, cols) if cols else I(1); n = getattr(old, depth)
        ks = enclosing(L)
        z = I(0) if p == 'i' else R(0)
        out = []
        for o, key, rd, _ in written(L):
            if cols: S = lambda i, j, m: Sum(0, m, lambda q: old.a.at(q * r + i) * old.b.at(j * n + q))
            else: S = lambda i, j, m: Sum(0, m, lambda q: old.a.at(q * r + i) * old.x.at(q))
            at = lambda lv, i, j, rd=rd: rd(lv, j * r + i)
            if not cols:
                if not ks: out.append(('partial sums', lambda lv: forall(0, r, lambda i: eq(at(lv, i, I(0)), S(i, I(0), lv.k)))))
                elif len(ks) == 1:
                    out.append(('updated', lambda lv: forall(0, lv.k, lambda i: eq(at(lv, i, I(0)), S(i, I(0), ks[0] + 1)))))
                    out.append(('not yet updated', lambda lv: forall(lv.k, r, lambda i: eq(at(lv, i, I(0)), S(i, I(0), ks[0])))))
                continue
            pos = (ks + [None])[:3] if len(ks) < 3 else None
            if pos is None: continue
            def cur(lv, q): return pos[q] if pos[q] is not None else lv.k
            out.append(('rows done', lambda lv: forall(0, c, lambda j: forall(0, cur(lv, 0), lambda i: eq(at(lv, i, j), S(i, j, n))))))
            out.append(('rows untouched', lambda lv: forall(0, c, lambda j: forall(cur(lv, 0) + (1 if ks else 0), r, lambda i: eq(at(lv, i, j), z)))))
            if len(ks) >= 1:
                out.append(('entries of the row done', lambda lv: forall(0, cur(lv, 1), lambda j: eq(at(lv, ks[0], j), S(ks[0], j, n)))))
                out.append(('entries of the row untouched', lambda lv: forall(cur(lv, 1) + (1 if len(ks) > 1 else 0), c, lambda j: eq(at(lv, ks[0], j), z))))
            if len(ks) == 2: out.append(('partial sum', lambda lv: eq(at(lv, ks[0], ks[1]), S(ks[0], ks[1], lv.k))))
        return out
    return inv


def products(u, p):
    lo = u == 'lib'
    d = (r1, k1, c1, n1) if lo else (r_, k_, c_, n_)
    n = len(comps(p))
    ib = lambda c, *nm: [('products representable', and_(le(c.k if hasattr(c, 'k') else c.c, I(1000)), *[forall(0, getattr(c, x).len, lambda q, x=x: and_(le(I(-1000), getattr(c, x).at(q)), le(getattr(c, x).at(q), I(1000)))) for x in nm]))] if p == 'i' else []
    s1 = sizes(a=('r', 'c'), x=('c',))
    T(u, p + '_mv', [d[0], d[2], V(p, 'a'), V(p, 'x'), O(p)], pre=lambda c: s1(c) + ib(c, 'a', 'x'), fix=fill(p, a=('r', 'c'), x=('c',)), hooks=BLAS, opts={} if lo else dict(loop_timeout=4), budget=200, inv=None if lo else sums_inv(p, 'r', None, 'c'),
      post=lambda c: [('one entry per row', eq(c.new.v.len, c.r)), ('entry i is the product of row i and x', forall(0, c.r, lambda i: same(el(p, c.new.v, i), total(0, c.c, lambda j: times(el(p, c.a, j * c.r + i), el(p, c.x, j)), n))))] + kept(p, c, 'a', 'x'))
    s2 = sizes(a=('r', 'k'), b=('k', 'c'), _=('r', 'c'))
    prod = lambda c: (lambda i, j: total(0, c.k, lambda q: times(el(p, c.a, q * c.r + i), el(p, c.b, j * c.k + q)), n))
    T(u, p + '_mm', [d[0], d[1], d[2], V(p, 'a'), V(p, 'b'), Out('o', 'i4', 2), O(p)], pre=lambda c: s2(c) + ib(c, 'a', 'b'), fix=fill(p, a=('r', 'k'), b=('k', 'c')), hooks=BLAS, opts={} if lo else dict(loop_timeout=4), budget=200, inv=None if lo else sums_inv(p, 'r', 'c', 'k'),
      post=lambda c: shape(c, c.r, c.c) + entries(p, c.new.v, c.r, c.c, prod(c), 'entry (i, j) is row i of A times column j of B') + kept(p, c, 'a', 'b'))
    s3 = sizes(a=('r', 'k'), b=('k', 'c'), v=('r', 'c'))
    T(u, p + '_into', [d[0], d[1], d[2], V(p, 'a'), V(p, 'b'), V(p, 'v')], pre=lambda c: s3(c) + ib(c, 'a', 'b'), fix=fill(p, a=('r', 'k'), b=('k', 'c'), v=('r', 'c')), hooks=BLAS, opts={} if lo else dict(loop_timeout=4), budget=200, inv=None if lo else sums_inv(p, 'r', 'c', 'k'),
      post=lambda c: [('size kept', eq(c.new.v.len, c.v.len))] + entries(p, c.new.v, c.r, c.c, prod(c), 'entry (i, j) is row i of A times column j of B') + kept(p, c, 'a', 'b'))


def dominant(p):
    """well conditioned: the diagonal dominates"""
    def f(d, rng):
        n = d['n']
        for i in range(n):
            for nm in comps(p)[:1]: d['a' + ('.' + nm if nm else '')][i * n + i] = 64.0 + rng.randint(0, 32)
    return f


def solves(p):
    u = 'lib'
    n = len(comps(p))
    s = sizes(a=('n', 'n'), b=('n', 'c'))
    holds = lambda c, x, b: forall(0, c.c, lambda j: forall(0, c.n, lambda i: same(total(0, c.n, lambda q: times(el(p, c.a, q * c.n + i), el(p, x, j * c.n + q)), n), el(p, b, j * c.n + i))))
    T(u, p + '_solve', [n1, c1, V(p, 'a'), V(p, 'b'), Out('o', 'i4', 2), O(p)], pre=s, fix=fill(p, a=('n', 'n'), b=('n', 'c'), extra=dominant(p)), hooks=BLAS,
      tol=1e-3 if KIND[p] in ('f4', KIND['c']) else 1e-9,
      post=lambda c: shape(c, c.n, c.c) + [('A times the result is B', holds(c, c.new.v, c.b))] + kept(p, c, 'a', 'b'))
    s2 = sizes(a=('n', 'n'), v=('n', 'c'))
    T(u, p + '_solvein', [n1, c1, V(p, 'a'), V(p, 'v'), Vec('p', 'i4', mode='inout', exactcap=True)], pre=lambda c: s2(c) + [('room for the pivots', eq(c.p.len, c.n))],
      fix=fill(p, a=('n', 'n'), v=('n', 'c'), extra=lambda d, rng: (dominant(p)(d, rng), d.update({'p': [0] * d['n'], 'p.len': d['n'], 'p.cap': d['n']}))), hooks=BLAS,
      tol=1e-3 if KIND[p] in ('f4', KIND['c']) else 1e-9,
      post=lambda c: [('size kept', eq(c.new.v.len, c.v.len)), ('A times the result is B', holds(c, c.new.v, c.v))])
    ck = 'z' if KIND[p] in ('f8', KIND['z']) else 'c'
    T(u, p + '_eig', [n1, V(p, 'a'), Vec('v', KIND[ck], mode='inout', onlynull=True)], pre=lambda c: sizes(a=('n', 'n'))(c) + [('workspace size representable', le(c.n * 4, I(MAXN)))],
      fix=fill(p, a=('n', 'n')), hooks=BLAS, tol=1e-3 if ck == 'c' else 1e-9,
      post=lambda c: [('one eigenvalue per row', eq(c.new.v.len, c.n)),
                      ('the eigenvalues add up to the trace', same(total(0, c.n, lambda q: el(ck, c.new.v, q), 2), (total(0, c.n, lambda q: el(p, c.a, q * c.n + q), n) + [R(0)])[:2]))] + kept(p, c, 'a'))


for p in 'dzi': common(p)
for p in 'dfzc':
    products('lib', p)
    solves(p)
products('own', 'd')
