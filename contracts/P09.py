"""P09: fixed-size matrices (column-major)."""
from .lib import *
UNITS = {'simd': dict(harness='P09.cpp'), 'nosimd': dict(harness='P09.cpp', config=dict(SIMD_VEC=0))}
TARGETS = []


def targets(unit):
    def T(fn, params, ret=None, post=None, **kw):
        t = Target(fn, params, ret, post=post, **kw)
        t.modkey = unit
        t.name = fn if unit == 'simd' else fn + '@' + unit
        TARGETS.append(t)
    B = lambda n, k, m='in': Buf(n, n=k, mode=m)
    for M, N in [(2, 2), (3, 3), (2, 3), (3, 2), (4, 2)]:
        p = 'm%d%d_' % (M, N)
        MN = M * N

        def each(nm, f, which='o', n=MN): return lambda c: [(nm, and_(*[eq(getattr(c.new, which)[i], f(c, i)) for i in range(n)]))]
        T(p + 'add', [B('a', MN), B('b', MN), B('o', MN, 'out')], post=each('entry-wise sum', lambda c, i: c.a[i] + c.b[i]))
        T(p + 'sub', [B('a', MN), B('b', MN), B('o', MN, 'out')], post=each('entry-wise difference', lambda c, i: c.a[i] - c.b[i]))
        T(p + 'zero', [B('o', MN, 'out')], post=each('all entries zero', lambda c, i: R(0)))
        T(p + 'mulv', [B('a', MN), B('x', N), B('o', M, 'out')],
          post=each('row times vector', lambda c, i, M=M, N=N: dot([c.a[i + M * j] for j in range(N)], [c.x[j] for j in range(N)]), n=M))
        ij = [Int('i', 0, M - 1), Int('j', 0, N - 1)]
        T(p + 'at', [B('a', MN)] + ij, 'f8', post=lambda c, M=M, N=N: [
            ('entry (i, j)', and_(*[implies(and_(eq(c.i, I(i)), eq(c.j, I(j))), eq(c.ret, c.a[i + M * j])) for i in range(M) for j in range(N)]))])
        T(p + 'put', [B('a', MN, 'inout')] + ij + [Scalar('s')], post=lambda c, M=M, N=N: [
            ('writes entry (i, j) and no other', and_(*[eq(c.new.a[i + M * j], ite(and_(eq(c.i, I(i)), eq(c.j, I(j))), c.s, c.a[i + M * j])) for i in range(M) for j in range(N)]))])
        T(p + 'lin', [B('a', MN), Int('i', 0, MN - 1)], 'f8', post=lambda c, n=MN: [('column-major entry', and_(*[implies(eq(c.i, I(i)), eq(c.ret, c.a[i])) for i in range(n)]))])
        T(p + 'putl', [B('a', MN, 'inout'), Int('i', 0, MN - 1), Scalar('s')], post=lambda c, n=MN: [
            ('writes that entry and no other', and_(*[eq(c.new.a[i], ite(eq(c.i, I(i)), c.s, c.a[i])) for i in range(n)]))])
        T(p + 'col', [B('a', MN), Int('j', 0, N - 1), B('o', M, 'out')], post=lambda c, M=M, N=N: [
            ('column j', and_(*[implies(eq(c.j, I(j)), and_(*[eq(c.new.o[i], c.a[i + M * j]) for i in range(M)])) for j in range(N)]))])
        T(p + 'putc', [B('a', MN, 'inout'), Int('j', 0, N - 1), B('x', M)], post=lambda c, M=M, N=N: [
            ('writes column j and no other', and_(*[eq(c.new.a[i + M * j], ite(eq(c.j, I(j)), c.x[i], c.a[i + M * j])) for j in range(N) for i in range(M)]))])
    for M, N, P in [(2, 2, 2), (3, 3, 3), (2, 3, 2), (3, 2, 3), (2, 2, 3), (2, 3, 3), (3, 2, 2), (3, 3, 2), (4, 2, 3)]:
        def post(c, M=M, N=N, P=P):
            return [('entry (i, k) is row i times column k', and_(*[eq(c.new.o[i + M * k], dot([c.a[i + M * j] for j in range(N)], [c.b[j + N * k] for j in range(N)]))
                                                                  for i in range(M) for k in range(P)]))]
        T('m%d%d%d_mul' % (M, N, P), [B('a', M * N), B('b', N * P), B('o', M * P, 'out')], post=post)
    ident = lambda n: (lambda c: [('identity', and_(*[eq(c.new.o[i + n * j], R(1 if i == j else 0)) for i in range(n) for j in range(n)]))])
    T('m22_ident', [B('o', 4, 'out')], post=ident(2))
    T('m33_ident', [B('o', 9, 'out')], post=ident(3))
    T('m22_cols', [B('a', 2), B('b', 2), B('o', 4, 'out')], post=lambda c: [('columns in order', veq(c.new.o, list(c.a) + list(c.b)))])
    T('m33_cols', [B('a', 3), B('b', 3), B('c', 3), B('o', 9, 'out')], post=lambda c: [('columns in order', veq(c.new.o, list(c.old.a) + list(c.old.b) + list(c.old.c)))])
    fn1 = lambda n, x: X.app(n, (x,), 'R')
    T('m22_rot', [Scalar('t'), B('o', 4, 'out')], post=lambda c: [
        ('counter-clockwise rotation by the angle', veq(c.new.o, [fn1('cos', c.t), fn1('sin', c.t), 0 - fn1('sin', c.t), fn1('cos', c.t)]))])
    det = lambda a: a[0] * a[3] - a[1] * a[2]

    def invp(c):
        a, o = c.a, c.new.o
        pr = [a[0] * o[0] + a[2] * o[1], a[1] * o[0] + a[3] * o[1], a[0] * o[2] + a[2] * o[3], a[1] * o[2] + a[3] * o[3]]
        return [('matrix times inverse is the identity', veq(pr, [R(1), R(0), R(0), R(1)]))]
    T('m22_inv', [B('a', 4), B('o', 4, 'out')], pre=lambda c: [ne(det(c.a), R(0))], post=invp)
    T('det22', [Scalar(x) for x in 'abcd'], 'f8', post=lambda c: [('determinant', eq(c.ret, c.a * c.d - c.b * c.old.c))])


targets('simd')
targets('nosimd')
