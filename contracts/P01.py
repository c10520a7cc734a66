"""P01: growable array as a sequence of values."""
from .lib import *
HARNESS = 'P01.cpp'
TARGETS = []
LIM = 2 ** 25


def T(*a, **k): TARGETS.append(Target(*a, **k))


def lexlt(a, b):
    """a precedes b: at the first difference a is smaller, or a is a proper prefix"""
    m = min_(a.len, b.len)
    pre = lambda k: forall(0, k, lambda j: eq(a.at(j), b.at(j)))
    return or_(exists(0, m, lambda k: and_(pre(k), lt(a.at(k), b.at(k)))), and_(pre(m), lt(a.len, b.len)))


def els(lo, hi, n, f): return forall(lo, hi, lambda i: and_(*[f(i * n + j) for j in range(n)]))
def veq_(a, b, n): return and_(eq(a.len, b.len), els(0, a.len, n, lambda i: eq(a.raw(i), b.raw(i))))


for p, k, n in (('vi_', 'i4', 1), ('vd_', 'f8', 1), ('vc_', 'i1', 1), ('vv_', 'f8', 2), ('vl_', 'i8', 1)):
    V = lambda nm='v', mode='inout', k=k, n=n, **kw: Vec(nm, k, mode=mode, n=n, maxlen=LIM, nullable=True, **kw)
    O = lambda k=k, n=n: Vec('o', k, mode='inout', n=n, maxlen=LIM, onlynull=True)
    X_ = lambda nm='x', k=k, n=n: Buf(nm, k, n=n)
    zero = R(0) if k[0] == 'f' else I(0)
    el = lambda v, i, x, n=n: and_(*[eq(v.raw(i * n + j), x[j]) for j in range(n)])
    N = lambda lo=0, nm='n': Int(nm, lo, LIM, ghi=9)
    full = lambda c, a, b, n=n: veq_(a, b, n)
    T(p + 'def', [O()], post=lambda c: [('empty', eq(c.new.o.len, I(0))), ('owns no storage', eq(c.new.o.cap, I(0)))])
    T(p + 'make', [O(), N(1)], post=lambda c, n=n, z=zero: [('length', eq(c.new.o.len, c.n)), ('default elements', els(0, c.n, n, lambda i: eq(c.new.o.raw(i), z)))])
    T(p + 'fill', [O(), N(1), X_()], post=lambda c, n=n, el=el: [('length', eq(c.new.o.len, c.n)), ('every element is the given value', forall(0, c.n, lambda i: el(c.new.o, i, c.x)))])
    T(p + 'cctor', [O(), V(mode='in')], post=lambda c, f=full: [('equal to the source', f(c, c.new.o, c.v))])
    T(p + 'mctor', [O(), V()], post=lambda c, f=full: [('takes the value of the source', f(c, c.new.o, c.v)), ('source left empty', eq(c.new.v.len, I(0)))])
    T(p + 'range', [O(), Arr('b', k, 'n', n=n), N()], post=lambda c, n=n: [('length', eq(c.new.o.len, c.n)), ('elements of the range in order', els(0, c.n, n, lambda i: eq(c.new.o.raw(i), c.b.raw(i))))])
    T(p + 'list', [O(), Buf('b', k, n=3 * n)], post=lambda c, n=n: [('three elements', eq(c.new.o.len, I(3))), ('in order', and_(*[eq(c.new.o.raw(I(i)), c.b[i]) for i in range(3 * n)]))])
    T(p + 'casg', [V('o'), V(mode='in')], post=lambda c, f=full: [('equal to the source', f(c, c.new.o, c.v))])
    T(p + 'masg', [V('o'), V()], post=lambda c, f=full: [('takes the value of the source', f(c, c.new.o, c.v)), ('source left empty', eq(c.new.v.len, I(0)))])
    for s in ('cself', 'mself'): T(p + s, [V('o')], post=lambda c, f=full: [('self-assignment changes nothing', f(c, c.new.o, c.o))])
    T(p + 'lasg', [V('o'), Buf('b', k, n=3 * n)], post=lambda c, n=n: [('three elements', eq(c.new.o.len, I(3))), ('in order', and_(*[eq(c.new.o.raw(I(i)), c.b[i]) for i in range(3 * n)]))])
    T(p + 'assign', [V('o'), Arr('b', k, 'n', n=n), N()], post=lambda c, n=n: [('length', eq(c.new.o.len, c.n)), ('elements of the range in order', els(0, c.n, n, lambda i: eq(c.new.o.raw(i), c.b.raw(i))))])
    T(p + 'dtor', [V('o')], post=lambda c: [('storage given back', eq(c.new.o.len, I(0)))])
    inr = lambda c: [('index in range', and_(le(I(0), c.i), lt(c.i, c.v.len)))]

    def gi(d, rng): d['i'] = rng.randrange(max(1, d['v.len']))
    ix = lambda: Int('i', 0, LIM)
    T(p + 'get', [V(mode='in'), ix(), Buf('o', k, n=4 * n, mode='out')], pre=inr, fix=gi, post=lambda c, n=n: [('element i', and_(*[eq(c.new.o[j], c.v.raw(c.i * n + j % n)) for j in range(4 * n)]))])

    def put(c, at, x, n=n):
        return [('length kept', and_(eq(c.new.v.len, c.v.len), eq(c.new.v.cap, c.v.cap))), ('named element holds the value', and_(*[eq(c.new.v.raw(at * n + j), x[j]) for j in range(n)])),
                ('other elements kept', forall(0, c.v.len, lambda i: implies(ne(i, at), and_(*[eq(c.new.v.raw(i * n + j), c.v.raw(i * n + j)) for j in range(n)]))))]
    T(p + 'set', [V(), ix(), X_()], pre=inr, fix=gi, post=lambda c, put=put: put(c, c.i, c.x))
    T(p + 'setptr', [V(), ix(), X_(), Int('w', 0, 2)], pre=inr, fix=gi, post=lambda c, put=put: put(c, ite(eq(c.w, I(2)), c.v.len - 1 - c.i, c.i), c.x))
    nonempty = lambda c: [('not empty', lt(I(0), c.v.len))]
    T(p + 'ends', [V(mode='in', minlen=1), Buf('o', k, n=4 * n, mode='out')], pre=nonempty, post=lambda c, n=n: [('first and last element', and_(*[eq(c.new.o[j], c.v.raw((c.v.len - 1) * n + j % n) if j >= n else c.v.raw(I(j))) for j in range(4 * n)]))])
    T(p + 'setends', [V(minlen=1), X_(), X_('y')], pre=nonempty,
      post=lambda c, n=n, el=el: [('last element', el(c.new.v, c.v.len - 1, c.y)), ('first element', implies(lt(I(1), c.v.len), el(c.new.v, I(0), c.x))), ('length kept', eq(c.new.v.len, c.v.len)),
                                  ('others kept', forall(1, c.v.len - 1, lambda i: and_(*[eq(c.new.v.raw(i * n + j), c.v.raw(i * n + j)) for j in range(n)])))])
    T(p + 'sizes', [V(mode='in'), Buf('o', 'i4', n=5, mode='out')],
      post=lambda c: [('length', and_(eq(c.new.o[0], c.v.len), eq(c.new.o[3], c.v.len), eq(c.new.o[4], c.v.len))), ('capacity', eq(c.new.o[1], c.v.cap)), ('empty exactly when the length is zero', iff(eq(c.new.o[2], I(1)), eq(c.v.len, I(0))))])
    T(p + 'reserve', [V(), N()], post=lambda c, f=full: [('sequence kept', f(c, c.new.v, c.v)), ('capacity sufficient', le(c.n, c.new.v.cap)), ('capacity never shrinks', le(c.v.cap, c.new.v.cap))])
    T(p + 'clear', [V()], post=lambda c: [('empty', eq(c.new.v.len, I(0))), ('capacity kept', eq(c.new.v.cap, c.v.cap))])
    pushed = lambda c, x, n=n: [('one longer', eq(c.new.v.len, c.v.len + 1)), ('last element is the value', and_(*[eq(c.new.v.raw(c.v.len * n + j), x(j)) for j in range(n)])),
                                ('earlier elements kept', els(0, c.v.len, n, lambda i: eq(c.new.v.raw(i), c.v.raw(i))))]
    for s in ('push', 'pushr', 'emplace'): T(p + s, [V(), X_()], post=lambda c, pushed=pushed: pushed(c, lambda j: c.x[j]))
    T(p + 'pushown', [V(), ix()], pre=inr, fix=gi, post=lambda c, pushed=pushed, n=n: pushed(c, lambda j: c.v.raw(c.i * n + j)))
    T(p + 'pop', [V(minlen=1)], pre=nonempty, post=lambda c, n=n: [('one shorter', eq(c.new.v.len, c.v.len - 1)), ('capacity kept', eq(c.new.v.cap, c.v.cap)), ('remaining elements kept', els(0, (c.v.len - 1), n, lambda i: eq(c.new.v.raw(i), c.v.raw(i))))])
    T(p + 'resize', [V(), N()], post=lambda c, n=n, z=zero: [('length', eq(c.new.v.len, c.n)), ('kept elements unchanged', els(0, min_(c.n, c.v.len), n, lambda i: eq(c.new.v.raw(i), c.v.raw(i)))),
                                                          ('new elements default', els(c.v.len, c.n, n, lambda i: eq(c.new.v.raw(i), z)))])
    A, B = V('a', 'in'), V('b', 'in')

    def gab(d, rng):
        if rng.random() < .8:
            m = min(len(d['a']), len(d['b']))
            j = rng.randrange(m + 1)
            d['b'][:j] = d['a'][:j]
    T(p + 'eq', [V('a', 'in'), V('b', 'in')], 'b', fix=gab, post=lambda c, f=full: [('equal length and elements', iff(c.ret, f(c, c.a, c.b)))])
    T(p + 'ne', [V('a', 'in'), V('b', 'in')], 'b', fix=gab, post=lambda c, f=full: [('differs in length or an element', iff(not_(c.ret), f(c, c.a, c.b)))])
    if n == 1:
        for s, f in (('lt', lambda c: lexlt(c.a, c.b)), ('gt', lambda c: lexlt(c.b, c.a)), ('le', lambda c: not_(lexlt(c.b, c.a))), ('ge', lambda c: not_(lexlt(c.a, c.b)))):
            T(p + s, [V('a', 'in'), V('b', 'in')], 'b', fix=gab, post=lambda c, f=f: [('lexicographic order', iff(c.ret, f(c)))])
