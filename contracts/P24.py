"""P24: reordering a mesh, repairing its orientation."""
from .meshlib import *
from irv.exec import ARange, aread
from irv.expr import ldview, mklin, idiv
HARNESS = 'P24.cpp'
NATIVE_EXTRA = LIBS
NATIVE_SRCS = SRCS
NOINLINE = LOG_NOINLINE + SORT_NOINLINE + [r'mortonSortPermutation', r'invertPermutation', r'applyPermutation', r'FaceVertexMesh.*11boundingBox', r'Polytope.*8centroid', r'checkManifoldWatertight', r'5isCCW', r'checkSelfIntersections', r'12mortonEncode']
TARGETS = []


def T(*a, **k):
    k['hooks'] = LOG_HOOK + k.get('hooks', HOOKS)
    TARGETS.append(Target(*a, **k))


# ------------------------------------------------------------------ what the callees promise
def item(name, fn):
    """bytes of one element of a function template over points or index tuples"""
    m = re.search(fn + r'INS_3VecILi(\d+)E([dfil])', name)
    return int(m.group(1)) * {'d': 8, 'f': 4, 'i': 4, 'l': 8}[m.group(2)] if m else None


def over(off, S):
    c, it = ldview(off)
    if c % S or any(k % S for t, k in it): raise Unsupported('range of a callee under contract')
    return mklin(c // S, {t: k // S for t, k in it}, 'I')


def plain(ex, st, p):
    """(array key, array) of an object holding one plain array"""
    os_ = st.mem[p.obj]
    ks = list(os_.arrs)
    if len(ks) == 1: return ks[0], os_.arrs[ks[0]]
    return None


def bijection(st, n, to, fro):
    st.assume(forall(I(0), n, lambda q: and_(le(I(0), to(q)), lt(to(q), n), eq(fro(to(q)), q))))
    st.assume(forall(I(0), n, lambda q: and_(le(I(0), fro(q)), lt(fro(q), n), eq(to(fro(q)), q))))


def ints_of(ex, st, p, n):
    """the int array behind p becomes known: touch it so that it is laid out as 4-byte integers"""
    os_ = st.mem[p.obj]
    if not os_.arrs: ex.store(st, p, I(0), ktype('i4'), 'result of a callee under contract')
    return plain(ex, st, p)


def perm_of(what): return (lambda q: app('perm%s!' % what, (q,), 'I', 0, None)), (lambda q: app('place%s!' % what, (q,), 'I', 0, None))


def sort_perm(ex, st, a, x, name):
    """mortonSortPermutation: writes a permutation of 0..n-1 (targets p2_perm, p2_unit)"""
    B = item(name, 'mortonSortPermutation')
    if B is None:
        m = re.search(r'mortonSortPermutationILi(\d+)Ed', name)
        B = 8 * int(m.group(1)) if m else None
    if B is None or len(a) < 3 or not all(isinstance(p, Ptr) for p in a[:3]) or a[0].obj is not a[1].obj: return NotImplemented
    n = over(sub(a[1].off, a[0].off), B)
    what = 'v' if a[0].obj.name in ('v', 'v.data') else 'f'
    to, fro = perm_of(what)
    ka = ints_of(ex, st, a[2], n)
    if ka is None: return NotImplemented
    lo = over(a[2].off, 4)
    w = st.w(a[2].obj)
    ex.oblige(st, 'room for the permutation', le((lo + n) * 4, w.size), name)
    w.arrs[ka[0]] = ARange(ka[1], a[2].keys, lo, lo + n, lambda i: to(i - lo))
    bijection(st, n, to, fro)
    ex.note('the space-filling curve gives some permutation of the points (its order does not matter here); points are assumed inside the unit square once scaled')
    return [(st, None)]


def invert(ex, st, a, x, name):
    """invertPermutation (P06 inv)"""
    if not all(isinstance(p, Ptr) for p in a[:3]) or a[0].obj is not a[1].obj: return NotImplemented
    n = over(sub(a[1].off, a[0].off), 4)
    src = plain(ex, st, a[0]); dst = ints_of(ex, st, a[2], n)
    if src is None or dst is None: return NotImplemented
    fro = None
    s0 = over(a[0].off, 4)
    p = lambda q: aread(src[1], a[0].keys + (s0 + q,))
    for what in 'vf':
        to, f2 = perm_of(what)
        if p(I(0)) is to(I(0)) or any(t.op == 'app' and t.args[0] == 'perm%s!' % what for t in subterms(p(I(0)))): fro = f2
    if fro is None: return NotImplemented
    ex.oblige(st, 'invertPermutation gets a permutation', forall(I(0), n, lambda q: and_(le(I(0), p(q)), lt(p(q), n), eq(fro(p(q)), q))), name)
    lo = over(a[2].off, 4)
    w = st.w(a[2].obj)
    ex.oblige(st, 'room for the inverse', le((lo + n) * 4, w.size), name)
    w.arrs[dst[0]] = ARange(dst[1], a[2].keys, lo, lo + n, lambda i: fro(i - lo))
    return [(st, None)]


def apply_(ex, st, a, x, name):
    """applyPermutation (P06 app): position i receives the element permutation[i] names"""
    B = item(name, 'applyPermutation')
    if B is None or not all(isinstance(p, Ptr) for p in a[:3]) or a[0].obj is not a[1].obj: return NotImplemented
    n = over(sub(a[1].off, a[0].off), B)
    w = st.w(a[0].obj)
    S = w.stride
    if not S or B % S: return NotImplemented
    pa = plain(ex, st, a[2])
    if pa is None: return NotImplemented
    s0 = over(a[2].off, 4)
    p = lambda q: aread(pa[1], a[2].keys + (s0 + q,))
    fro = [perm_of(c)[1] for c in 'vf' if any(t.op == 'app' and t.args[0] == 'perm%s!' % c for t in subterms(p(I(0))))]
    if len(fro) != 1: return NotImplemented
    ex.oblige(st, 'applyPermutation gets a permutation', forall(I(0), n, lambda q: and_(le(I(0), p(q)), lt(p(q), n), eq(fro[0](p(q)), q))), name)
    r = B // S
    lo = over(a[0].off, S)
    for key, arr in list(w.arrs.items()):
        def f(i, arr=arr):
            d = i - lo
            it = idiv(d, I(r))
            return aread(arr, a[0].keys + (lo + p(it) * r + (d - it * r),))
        w.arrs[key] = ARange(arr, a[0].keys, lo, lo + n * r, f)
    return [(st, None)]


def box(ex, st, a, x, name):
    """bounding box of the mesh (P23): only used to scale"""
    if x.ty.k != 'void' or not isinstance(a[0], Ptr): return NotImplemented
    lo = [fresh('box', 'R') for _ in range(2)]; hi = [fresh('box', 'R') for _ in range(2)]
    for i, v in enumerate(lo + hi): stf(ex, st, a[0], i, v)
    for p, q in zip(lo, hi): st.assume(lt(p, q))
    ex.note('the bounding box of the mesh is not flat')
    return [(st, None)]


def centroid(ex, st, a, x, name):
    if x.ty.k != 'vec': return NotImplemented
    return [(st, [fresh('centroid', 'R') for _ in range(2)])]


def checks(ex, st, a, x, name):
    ex.note('manifold and self-intersection checks are outside this property; taken as leaving the connectivity alone')
    return [(st, None)]


HOOKS = [(r'mortonSortPermutation', sort_perm), (r'invertPermutation', invert), (r'applyPermutation', apply_), (r'FaceVertexMesh.*11boundingBox', box), (r'Polytope.*8centroid', centroid), (r'checkManifoldWatertight|checkSelfIntersections', checks)]


def origin(G):
    """moved so that the bounding box starts at the origin (the curve is defined on the unit square)"""
    def f(d, rng):
        G(d, rng)
        for k in range(2):
            m = min(d['v'][k::2])
            for q in range(k, len(d['v']), 2): d['v'][q] -= m
    return f


def counted(N, order=True):
    """every vertex, and every face seen through its vertices, as often as before"""
    def f(c):
        V, W = c.v, c.new.v
        C, D = c.c, c.new.c
        pt = lambda A, i, B, j: and_(*[eq(A.at(i, k), B.at(j, k)) for k in range(2)])
        fc = lambda X, A, i, Y, B, j: and_(*[eq(X.at(A.at(i, q), k), Y.at(B.at(j, q), k)) for q in range(N) for k in range(2)])
        return [('as many vertices', eq(W.len, V.len)), ('as many faces', eq(D.len, C.len)), ('connectivity in range', forall(0, D.len * N, lambda i: and_(le(I(0), D.raw(i)), lt(D.raw(i), W.len)))),
                ('every vertex as often as before', forall(0, V.len, lambda i: eq(Sum(0, V.len, lambda j: b2i(pt(W, j, V, i))), Sum(0, V.len, lambda j: b2i(pt(V, j, V, i)))))),
                ('every face as often as before', forall(0, C.len, lambda i: eq(Sum(0, C.len, lambda j: b2i(fc(W, D, j, V, C, i))), Sum(0, C.len, lambda j: b2i(fc(V, C, j, V, C, i))))))]
    return f


def moved(N, vs, fs):
    """the same with the permutations named"""
    def f(c):
        V, W = c.v, c.new.v
        C, D = c.c, c.new.c
        pv = perm_of('v')[0] if vs else lambda q: q
        pf = perm_of('f')[0] if fs else lambda q: q
        r = [('as many vertices', eq(W.len, V.len)), ('as many faces', eq(D.len, C.len))]
        r.append(('connectivity in range', forall(0, D.len, lambda i: and_(*[and_(le(I(0), D.at(i, q)), lt(D.at(i, q), W.len)) for q in range(N)]))))
        r.append(('vertices rearranged', forall(0, V.len, lambda i: and_(*[eq(W.at(i, k), V.at(pv(i), k)) for k in range(2)]))))
        for q in range(N):
            r.append(('faces rearranged, corner %d where it was' % q, forall(0, C.len, lambda i, q=q: and_(*[eq(W.at(D.at(i, q), k), V.at(C.at(pf(i), q), k)) for k in range(2)]))))
        return r
    return f


def remap(N):
    """loop over all faces renumbering their vertices"""
    def inv(L):
        c = L.ex.old
        if enclosing(L): return []
        out = []
        fro = perm_of('v')[1]
        for o, key, rd, ini in written(L):
            if ini is None or o.name not in ('c', 'c.data'): continue
            out.append(('renumbered so far', lambda lv, rd=rd: forall(0, lv.k, lambda i: and_(*[eq(rd(lv, i * N + q), fro(c.c.at(i, q))) for q in range(N)]))))
            out.append(('the rest as it was', lambda lv, rd=rd: forall(lv.k * N, c.c.len * N, lambda i: eq(rd(lv, i), c.c.raw(i)))))
        return out
    return inv


def cross(c, V, C, i, a, b, d):
    p = [[V.at(C.at(i, j), k) for k in range(2)] for j in (a, b, d)]
    return turn(*p)


def repair_uf(P, N, V, old, new, i):
    """the same with isCCW taken at its word (P15, P16)"""
    o = [old(i, j) for j in range(N)]; n = [new(i, j) for j in range(N)]
    ccw = eq(app('ccw!', [V.at(o[j], k) for j in range(N) for k in range(2)], 'I'), I(1))
    return [('counter-clockwise faces kept', implies(ccw, and_(*[eq(x, y) for x, y in zip(n, o)]))), ('clockwise faces turned round', implies(not_(ccw), reversed_(P, N, n, o)))]


def repaired(P, N, V, old, new, i):
    """face i was kept if counter-clockwise, turned round if clockwise"""
    o = [old(i, j) for j in range(N)]; n = [new(i, j) for j in range(N)]
    pts = lambda *ix: [[V.at(o[j], k) for k in range(2)] for j in ix]
    M = corners(P, N)
    tri = [(0, 1, 2)] if M == 3 else [(0, 1, 2), (0, 2, 3)]
    t = [turn(*pts(*x)) for x in tri]
    kept = and_(*[eq(x, y) for x, y in zip(n, o)])
    turned = reversed_(P, N, n, o)
    eps = R(0) if M == 3 else R(Fraction(1, 10 ** 6))
    return [('counter-clockwise faces kept', implies(and_(*[lt(R(0), x) for x in t]), kept)), ('clockwise faces turned round', implies(or_(*[lt(x, -eps) for x in t]), turned)), ('nothing else done', or_(kept, turned))]


def ccw_inv(P, N):
    def inv(L):
        c = L.ex.old
        if enclosing(L): return []
        out = []
        for o, key, rd, ini in written(L):
            if o.name not in ('c', 'c.data'): continue
            for q in range(2):
                out.append((('kept', 'turned')[q], lambda lv, rd=rd, q=q: forall(0, lv.k, lambda i: repair_uf(P, N, c.v, lambda i, j: c.c.at(i, j), lambda i, j: rd(lv, i * N + j), i)[q][1])))
            out.append(('the rest as it was', lambda lv, rd=rd: forall(lv.k * N, c.c.len * N, lambda i: eq(rd(lv, i), c.c.raw(i)))))
        return out
    return inv


def tame(P, N, c, turned=False):
    """curved faces close to straight ones of unit size"""
    M = corners(P, N)
    def ok(i):
        p = fpts(c, i, N)
        t = convex(M, p[:2 * M])
        sh = and_(*[le(R(Fraction(1, 3)), x) for x in t])
        if turned: sh = or_(sh, and_(*[le(x, R(Fraction(-1, 3))) for x in t]))
        mids = [p[2 * (M + e) + k] - (p[2 * e + k] + p[2 * ((e + 1) % M) + k]) / R(2) for e in range(M) for k in range(2)]
        return and_(sh, *[and_(le(m, R(Fraction(1, 4))), le(R(Fraction(-1, 4)), m)) for m in mids])
    return [('faces nearly straight', forall(0, c.c.len, ok))]


def placed(P, N):
    """in the first quadrant from the origin on, not flat; every vertex of a curved mesh in use"""
    def f(c):
        r = inrange(N)(c) + [('coordinates', forall(0, c.v.len * 2, lambda i: and_(le(R(0), c.v.raw(i)), le(c.v.raw(i), R(1000)))))]
        for k in range(2):
            r.append(('box starts at the origin', exists(0, c.v.len, lambda i: eq(c.v.at(i, k), R(0)))))
            r.append(('not flat', exists(0, c.v.len, lambda i: le(R(Fraction(1, 100)), c.v.at(i, k)))))
        if N == 4: r.append(('faces convex and counter-clockwise', forall(0, c.c.len, lambda i: and_(*[lt(R(0), t) for t in convex(N, fpts(c, i, N))]))))
        if P == 2: r += tame(P, N, c)
        if P == 2: r.append(('vertices in use', forall(0, c.v.len, lambda v: exists(0, c.c.len, lambda i: or_(*[eq(c.c.at(i, j), v) for j in range(N)])))))
        return r
    return f


def bounded_(P, N):
    """distinct corners, and some edge belonging to one face only"""
    M = corners(P, N)

    def f(c):
        has = lambda i, a, b: and_(or_(*[eq(c.c.at(i, j), a) for j in range(M)]), or_(*[eq(c.c.at(i, j), b) for j in range(M)]))
        return inrange(N)(c) + (tame(P, N, c, True) if P == 2 else []) + [('corners differ', forall(0, c.c.len, lambda i: and_(*[ne(c.c.at(i, a), c.c.at(i, b)) for a in range(N) for b in range(a)]))),
                                ('there is a boundary', exists(0, c.c.len, lambda i: or_(*[forall(0, c.c.len, lambda q: or_(eq(q, i), not_(has(q, c.c.at(i, e), c.c.at(i, (e + 1) % M))))) for e in range(M)])))]
    return f


for k, P, N in KINDS:
    IR = inrange(N)
    G = genmesh(P, N)
    mm = mesh(N, mode='inout')
    O = dict(fix=origin(genmesh(P, N, ccw=N == 4, **(dict(wild=0, flip=0) if P == 2 else {}))), npost=counted(N), pre=IR, npre=placed(P, N), budget=150, samples=400)
    T(k + '_sortv', mesh(N, mode='inout'), post=moved(N, True, False), inv=remap(N), **O)
    T(k + '_sortf', mesh(N, mode='inout'), post=moved(N, False, True), **O)
    T(k + '_sort', mesh(N, mode='inout'), post=moved(N, True, True), inv=remap(N), **O)
    def ccw_post(spec, names):
        return lambda c, P=P, N=N: [('as many faces', eq(c.new.c.len, c.c.len)), ('vertices kept', and_(eq(c.new.v.len, c.v.len), forall(0, c.v.len * 2, lambda i: eq(c.new.v.raw(i), c.v.raw(i)))))] + \
            [(nm, forall(0, c.c.len, lambda i, q=q: spec(P, N, c.v, lambda i, j: c.c.at(i, j), lambda i, j: c.new.c.at(i, j), i)[q][1])) for q, nm in enumerate(names)]
    T(k + '_ccw', mesh(N, mode='inout'), pre=IR, npre=bounded_(P, N), fix=genmesh(P, N, wild=0, flip=.4) if P == 2 else G, inv=ccw_inv(P, N), budget=150, samples=400, hooks=HOOKS + [(r'5isCCW', pure_uf('ccw', 2 * N, ret='B'))],
      post=ccw_post(repair_uf, ('counter-clockwise faces kept', 'clockwise faces turned round')), npost=lambda c, P=P, f=ccw_post(repaired, ('counter-clockwise faces kept', 'clockwise faces turned round', 'nothing else done')): [q for q in f(c) if P == 1 or q[0] != 'vertices kept'])

# the permutation itself
SC = [(r'12mortonEncode', pure_uf('code', 2, ret='I', needs=lambda v: and_(*[and_(le(R(0), x), le(x, R(1))) for x in v[:2]]))), SORT_HOOK]
perm = lambda c: [('every index in range', forall(0, c.p.len, lambda i: and_(le(I(0), c.new.o.at(i)), lt(c.new.o.at(i), c.p.len)))), ('no index twice', forall(0, c.p.len, lambda i: forall(i + 1, c.p.len, lambda j: ne(c.new.o.at(i), c.new.o.at(j)))))]
unit = lambda c: [('unit square', forall(0, c.p.len * 2, lambda i: and_(le(R(0), c.p.raw(i)), le(c.p.raw(i), R(1))))), ('room', eq(c.o.len, c.p.len))]


def unitfix(d, rng):
    n = rng.randint(1, 12)
    d['p'] = [rng.choice([0., 1., rng.random(), rng.random()]) for _ in range(2 * n)]; d['p.len'] = d['p.cap'] = n
    for k in range(2):
        if 's[%d]' % k in d:
            d['s[%d]' % k] = rng.uniform(.1, 1)
    d['o'] = [0] * n; d['o.len'] = d['o.cap'] = n


P2 = [Vec('p', 'f8', n=2, minlen=1, maxlen=LIM, exactcap=True)]
PO = [Vec('o', 'i4', minlen=1, maxlen=LIM, exactcap=True, mode='inout')]
T('p2_unit', P2 + PO, pre=unit, fix=unitfix, hooks=SC, post=perm)
T('p2_perm', P2 + [Buf('s', n=2)] + PO, pre=lambda c: unit(c) + [and_(*[and_(le(R(Fraction(1, 100)), c.s[k]), le(c.s[k], R(1))) for k in range(2)])], fix=unitfix, hooks=SC, post=perm)
