"""P02: elements and storage of growable arrays are created and destroyed exactly once."""
from .lib import *
HARNESS = 'P02.cpp'
TARGETS = []
LIM = 2 ** 25
ALIVE = I(1001)
EL = [('v', 'i4'), ('st', 'i4')]


def alive(v): return forall(0, v.len, lambda i: eq(v.at(i, 'st'), ALIVE))


def T(fn, params, ret=None, post=None, pre=None, fix=None, arr=(), **k):
    vs = [p.name for p in params if isinstance(p, Vec)]

    def pre_(c):
        r = list(pre(c)) if pre else []
        for n in vs + list(arr): r.append(('elements of %s exist' % n, alive(getattr(c, n))))
        for p in params:
            if isinstance(p, Buf) and p.name == 'x': r.append(('x exists', eq(c.x[1], ALIVE)))
            if isinstance(p, Buf) and p.name == 'b': r.append(('b exists', and_(eq(c.b[1], ALIVE), eq(c.b[3], ALIVE))))
        return r

    def post_(c):
        r = list(post(c))
        for n in vs: r.append(('every element of %s exists' % n, alive(getattr(c.new, n))))
        nl = I(0)
        for n in vs: nl = nl + getattr(c.new, n).len - getattr(c, n).len
        r.append(('constructions less destructions equal the change of the lengths', eq(c.new.d[0], nl)))
        return r

    def fix_(d, rng):
        if fix: fix(d, rng)
        for n in vs + list(arr): d[n + '.st'] = [1001] * len(d[n + '.st'])
        if 'x[1]' in d: d['x[1]'] = 1001
        for j in (1, 3):
            if 'b[%d]' % j in d: d['b[%d]' % j] = 1001
    TARGETS.append(Target(fn, params + [Buf('d', 'i4', n=1, mode='out')], ret, pre=pre_, post=post_, fix=fix_, **k))


V = lambda nm='v', mode='inout', **kw: Vec(nm, EL, mode=mode, maxlen=LIM, nullable=True, **kw)
O = lambda: Vec('o', EL, mode='inout', maxlen=LIM, onlynull=True)
X_ = lambda nm='x', n=2, mode='in': Buf(nm, 'i4', n=n, mode=mode)
N = lambda lo=0, nm='n': Int(nm, lo, LIM, ghi=9)
val = lambda v, i: v.at(i, 'v')
same = lambda a, b: and_(eq(a.len, b.len), forall(0, a.len, lambda i: eq(val(a, i), val(b, i))))
T('tr_def', [O()], post=lambda c: [('empty', eq(c.new.o.len, I(0)))])
T('tr_make', [O(), N(1)], post=lambda c: [('length', eq(c.new.o.len, c.n))])
T('tr_fill', [O(), N(1), X_()], post=lambda c: [('copies of the value', and_(eq(c.new.o.len, c.n), forall(0, c.n, lambda i: eq(val(c.new.o, i), c.x[0]))))])
T('tr_cctor', [O(), V(mode='in')], post=lambda c: [('equal to the source', same(c.new.o, c.v))])
T('tr_mctor', [O(), V()], post=lambda c: [('takes the elements', same(c.new.o, c.v)), ('source left empty', eq(c.new.v.len, I(0)))])
A = lambda: Arr('b', EL, 'n')
rng_ = lambda c: [('elements of the range', and_(eq(c.new.o.len, c.n), forall(0, c.n, lambda i: eq(val(c.new.o, i), val(c.b, i)))))]
T('tr_range', [O(), A(), N()], arr=('b',), post=rng_)
lst = lambda c: [('elements of the list', and_(eq(c.new.o.len, I(2)), eq(val(c.new.o, I(0)), c.b[0]), eq(val(c.new.o, I(1)), c.b[2])))]
T('tr_list', [O(), X_('b', 4)], post=lst)
T('tr_casg', [V('o'), V(mode='in')], post=lambda c: [('equal to the source', same(c.new.o, c.v))])
T('tr_masg', [V('o'), V()], post=lambda c: [('takes the elements', same(c.new.o, c.v)), ('source left empty', eq(c.new.v.len, I(0)))])
for s in ('cself', 'mself'): T('tr_' + s, [V('o')], post=lambda c: [('self-assignment changes nothing', same(c.new.o, c.o))])
T('tr_lasg', [V('o'), X_('b', 4)], post=lst)
T('tr_assign', [V('o'), A(), N()], arr=('b',), post=rng_)
T('tr_dtor', [V('o')], post=lambda c: [('nothing left', eq(c.new.o.cap, I(0)))])
T('tr_reserve', [V(), N()], post=lambda c: [('elements kept', same(c.new.v, c.v)), ('capacity', le(c.n, c.new.v.cap))])
T('tr_clear', [V()], post=lambda c: [('empty', eq(c.new.v.len, I(0)))])
pushed = lambda c, x: [('one longer', eq(c.new.v.len, c.v.len + 1)), ('value appended', eq(val(c.new.v, c.v.len), x)), ('earlier elements kept', forall(0, c.v.len, lambda i: eq(val(c.new.v, i), val(c.v, i))))]
T('tr_push', [V(), X_()], post=lambda c: pushed(c, c.x[0]))
T('tr_pushr', [V(), X_(mode='inout')], post=lambda c: pushed(c, c.x[0]) + [('source still exists', eq(c.new.x[1], ALIVE))])
T('tr_emplace', [V(), Int('x', -1000, 1000)], post=lambda c: pushed(c, c.x))


def gi(d, rng): d['i'] = rng.randrange(max(1, d['v.len']))


inr = lambda c: [('index in range', and_(le(I(0), c.i), lt(c.i, c.v.len)))]
for s in ('pushown', 'emplaceown'): T('tr_' + s, [V(minlen=1), Int('i', 0, LIM)], pre=inr, fix=gi, post=lambda c: pushed(c, val(c.v, c.i)))
T('tr_pop', [V(minlen=1)], post=lambda c: [('one shorter', eq(c.new.v.len, c.v.len - 1)), ('rest kept', forall(0, c.v.len - 1, lambda i: eq(val(c.new.v, i), val(c.v, i))))])
T('tr_resize', [V(), N()], post=lambda c: [('length', eq(c.new.v.len, c.n)), ('kept', forall(0, min_(c.n, c.v.len), lambda i: eq(val(c.new.v, i), val(c.v, i)))), ('new ones default', forall(c.v.len, c.n, lambda i: eq(val(c.new.v, i), I(0))))])
T('tr_eq', [V('a', 'in'), V('b', 'in')], 'b', post=lambda c: [('equal elements', iff(c.ret, same(c.a, c.b)))])
T('tr_life', [A(), N(), N(nm='m')], arr=('b',), post=lambda c: [])
