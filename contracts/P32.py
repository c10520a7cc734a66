"""P32: sequence utilities act on exactly their range."""
from .lib import *
HARNESS = 'P32.cpp'
TARGETS = []
LIM = 2 ** 24


def T(*a, **k): TARGETS.append(Target(*a, **k))


N = lambda nm='n', lo=0: Int(nm, lo, LIM, ghi=8)
ordered = lambda *ns: (lambda c: [('positions in order', and_(*[le(getattr(c, a), getattr(c, b)) for a, b in zip(ns, ns[1:])]))])


def sortpos(*ns):
    def g(d, rng):
        v = sorted(rng.randint(0, d[ns[-1]]) for _ in ns[:-1])
        for n, x in zip(ns, v): d[n] = x
    return g


def close(d, rng):
    if rng.random() < .8:
        m = min(len(d['a']), len(d['b']))
        j = rng.randrange(m + 1)
        d['b'][:j] = d['a'][:j]


def lexlt(a, b):
    m = min_(a.len, b.len)
    pre = lambda k: forall(0, k, lambda j: eq(a.at(j), b.at(j)))
    return or_(exists(0, m, lambda k: and_(pre(k), lt(a.at(k), b.at(k)))), and_(pre(m), lt(a.len, b.len)))


for p, k in (('i_', 'i4'), ('d_', 'f8'), ('c_', 'i1'), ('l_', 'i8'), ('f_', 'f4'), ('n_', 'f8')):
    A = lambda nm='a', ln='n', mode='in', k=k: Arr(nm, k, ln, mode=mode)
    S = lambda nm, k=k: Scalar(nm, k)
    kept = lambda old, new, lo, hi: forall(lo, hi, lambda i: eq(new.at(i), old.at(i)))
    T(p + 'copy', [A(), N(), A('b', 'm', 'inout'), N('m')], 'i4', pre=ordered('n', 'm'), fix=lambda d, rng: d.update(n=rng.randint(0, d['m'])) or d.update(a=d['a'][:d['n']] + [0] * (d['n'] - len(d['a']))),
      post=lambda c, kept=kept: [('end of the destination', eq(c.ret, c.n)), ('copied in order', forall(0, c.n, lambda i: eq(c.new.b.at(i), c.a.at(i)))), ('rest of the destination untouched', kept(c.b, c.new.b, c.n, c.m))])
    if p == 'n_': continue
    T(p + 'copyself', [A('a', 'm', 'inout'), N(), N('m'), N('k')], 'i4', pre=lambda c: [('target lies behind the source', and_(le(I(1), c.n), le(c.n * 2 + c.k, c.m)))], fix=lambda d, rng: d.update(n=rng.randint(0, d['m'] // 2), k=0),
      post=lambda c, kept=kept: [('copied in order', forall(0, c.n, lambda i: eq(c.new.a.at(i + c.n + c.k), c.a.at(i)))), ('rest untouched', and_(kept(c.a, c.new.a, 0, c.n + c.k), kept(c.a, c.new.a, c.n * 2 + c.k, c.m)))])
    part = [A(mode='inout'), N(), N('i'), N('j'), S('x')]
    T(p + 'fill', part, pre=ordered('i', 'j', 'n'), fix=sortpos('i', 'j', 'n'), post=lambda c, kept=kept: [('filled', forall(c.i, c.j, lambda q: eq(c.new.a.at(q), c.x))), ('outside the range untouched', and_(kept(c.a, c.new.a, 0, c.i), kept(c.a, c.new.a, c.j, c.n)))])
    T(p + 'equal', [A(), A('b'), N()], 'b', fix=close, post=lambda c: [('all elements equal', iff(c.ret, forall(0, c.n, lambda i: eq(c.a.at(i), c.b.at(i)))))])
    T(p + 'lex', [A(), N(), A('b', 'm'), N('m')], 'b', fix=close, post=lambda c: [('lexicographic order', iff(c.ret, lexlt(c.a, c.b)))])

    def srt(d, rng):
        if rng.random() < .6: d['a'].sort()
    T(p + 'sorted', [A(), N()], 'b', fix=srt, post=lambda c: [('no descent', iff(c.ret, forall(0, c.n - 1, lambda i: le(c.a.at(i), c.a.at(i + 1)))))])
    # the position kept so far holds the largest element seen, the earliest of its kind
    es = KS[k]

    def best(L, es=es):
        out = []
        if 'a' not in [o.name for o in L.s0.mem]: return out
        o = [o for o in L.s0.mem if o.name == 'a'][0]
        at = lambda lv, i: [aread(x, (i,)) for x in lv.st.mem[o].arrs.values()][0]
        for g in L.ints():
            ix = lambda lv, g=g: idiv(g(lv), I(es))
            for z in (0, 1):
                out.append(('largest so far', lambda lv, ix=ix, z=z: forall(0, lv.k + z, lambda j: le(at(lv, j), at(lv, ix(lv))))))
                out.append(('first of its kind', lambda lv, ix=ix: forall(0, ix(lv), lambda j: lt(at(lv, j), at(lv, ix(lv))))))
        return out
    T(p + 'maxel', [A(), N()], 'i4', inv=best, post=lambda c: [('a position of the range', implies(lt(I(0), c.n), and_(le(I(0), c.ret), lt(c.ret, c.n)))), ('end for an empty range', implies(eq(c.n, I(0)), eq(c.ret, I(0)))),
                                                   ('nothing is larger', forall(0, c.n, lambda i: le(c.a.at(i), c.a.at(c.ret)))), ('first such position', forall(0, c.ret, lambda i: lt(c.a.at(i), c.a.at(c.ret))))])
    if k[0] == 'i':
        lim = {'i1': 2 ** 7, 'i4': 2 ** 30, 'i8': 2 ** 60}[k]
        T(p + 'iota', part[:-1] + [Scalar('x', k, lo=-lim // 2, hi=lim // 2 - 1, glo=-5, ghi=5)], pre=lambda c, lim=lim: ordered('i', 'j', 'n')(c) + [('values representable', lt(c.x + c.j - c.i, I(lim)))], fix=sortpos('i', 'j', 'n'),
          post=lambda c, kept=kept: [('consecutive values', forall(c.i, c.j, lambda q: eq(c.new.a.at(q), c.x + q - c.i))), ('outside the range untouched', and_(kept(c.a, c.new.a, 0, c.i), kept(c.a, c.new.a, c.j, c.n)))])
        T(p + 'memcmp', [A(), A('b'), N()], 'i4', fix=close, post=lambda c: [('zero exactly for equal ranges', iff(eq(c.ret, I(0)), forall(0, c.n, lambda i: eq(c.a.at(i), c.b.at(i))))),
                                                                          ('negative exactly when the first difference is smaller', iff(lt(c.ret, I(0)), exists(0, c.n, lambda q: and_(lt(c.a.at(q), c.b.at(q)), forall(0, q, lambda j: eq(c.a.at(j), c.b.at(j)))))))])
    elif k != 'f4':
        T(p + 'iota', part, pre=ordered('i', 'j', 'n'), fix=sortpos('i', 'j', 'n'), post=lambda c, kept=kept: [('consecutive values', forall(c.i, c.j, lambda q: eq(c.new.a.at(q), c.x + toreal(q - c.i)))), ('outside the range untouched', and_(kept(c.a, c.new.a, 0, c.i), kept(c.a, c.new.a, c.j, c.n)))])
    T(p + 'clamp', [S('x'), S('lo'), S('hi')], k, pre=ordered('lo', 'hi'), fix=lambda d, rng: d.update(zip(('lo', 'hi'), sorted((d['lo'], d['hi'])))),
      post=lambda c: [('nearest value of the interval', eq(c.ret, ite(lt(c.x, c.lo), c.lo, ite(lt(c.hi, c.x), c.hi, c.x))))])
    T(p + 'max', [S('x'), S('y')], k, post=lambda c: [('maximum', eq(c.ret, max_(c.x, c.y)))])
    T(p + 'min', [S('x'), S('y')], k, post=lambda c: [('minimum', eq(c.ret, min_(c.x, c.y)))])
    T(p + 'swap', [Buf('a', k, n=1, mode='inout'), Buf('b', k, n=1, mode='inout')], post=lambda c: [('exchanged', and_(eq(c.new.a[0], c.b[0]), eq(c.new.b[0], c.a[0])))])
    T(p + 'inrange', [Arr('a', k, 4096), Int('i', 0, 4096, ghi=6), Int('j', 0, 4096, ghi=6), Int('k', 0, 4096, ghi=6)], 'b', pre=ordered('i', 'j'), fix=lambda d, rng: d.update(zip('ij', sorted((d['i'], d['j'])))),
      post=lambda c: [('inside the half-open range', iff(c.ret, and_(le(c.i, c.k), lt(c.k, c.j))))])
    T(p + 'pair', [S('x'), S('y'), Buf('o', k, n=2, mode='out')], post=lambda c: [('first and second', and_(eq(c.new.o[0], c.x), eq(c.new.o[1], c.y)))])


def zstr(d, rng):
    n = d['n']
    d['a'] = [rng.randint(1, 120) for _ in range(n)] + [0]


T('s_strlen', [Arr('a', 'i1', lambda v: v.n + 1), N()], 'i4', pre=lambda c: [('terminated at n', eq(c.a.at(c.n), I(0))), ('no earlier zero', forall(0, c.n, lambda i: ne(c.a.at(i), I(0))))], fix=zstr,
  post=lambda c: [('position of the first zero', eq(c.ret, c.n))])
T('x_fi', [Scalar('x', 'f8', lo=-2e9, hi=2e9, glo=-9, ghi=9)], 'i4', post=lambda c: [('truncated', and_(implies(le(R(0), c.x), and_(le(toreal(c.ret), c.x), lt(c.x, toreal(c.ret) + 1))), implies(le(c.x, R(0)), and_(le(c.x, toreal(c.ret)), lt(toreal(c.ret) - 1, c.x)))))])
T('x_if', [Scalar('x', 'i4')], 'f8', post=lambda c: [('same value', eq(c.ret, toreal(c.x)))])
T('x_ff', [Scalar('x', 'f8')], 'f8', post=lambda c: [('same value', eq(c.ret, c.x))])

# text to number: the C library decides the value and the end (ghost parameters), the wrapper must pass both on
def lib(fits, base):
    def h(ex, st, a, x, name):
        if not isinstance(a[0], Ptr) or not isinstance(a[1], Ptr) or a[1].obj is None: return NotImplemented
        if base is not None: ex.oblige(st, 'decimal conversion requested', eq(a[2], I(base)), '')
        ex.oblige(st, 'text passed on', and_(B(a[0].obj is not None and a[0].obj.name == 'a'), eq(a[0].off, I(0))) if a[0].obj is not None else FALSE, '')
        ex.store(st, a[1], Ptr(a[0].obj, add(a[0].off, var('taken', 'I', 0, 15))), PTR)
        ex.note('%s is the C library function: its value and end position are taken as given' % name)
        return [(st, fits(x.ty.k))]
    return h


def kindof(k): return 'R' if k[0] == 'f' else 'I'


def spec(text, k):
    """what the C library makes of the sample texts"""
    import re as _re
    if k[0] == 'f': m = _re.match(r'\s*[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?', text)
    else: m = _re.match(r'\s*[-+]?\d+', text)
    return ((float if k[0] == 'f' else int)(m.group(0)), m.end()) if m else (0, 0)


def digits(k):
    def f(d, rng):
        t = rng.choice(['12', '-7', '3.5', '1e2', '', 'abc', '  42 9', '2147483647', '010', '1 2', '+5x', '0.1', '123456789.125', '16777217', '-2.5e-3z'])
        if rng.random() < .5: t = '%d' % rng.randint(0, 2 ** 31 - 1) if k[0] != 'f' or rng.random() < .3 else '%.9f' % rng.uniform(-100, 100)
        b = [ord(x) for x in t] + [0]
        for i in range(16): d['a[%d]' % i] = b[i] if i < len(b) else 0
        d['value'], d['taken'] = spec(t, k)
    return f


for s, rk, nm, base in (('tod', 'f8', 'strtod', None), ('tof', 'f4', 'strtof', None), ('toi', 'i4', 'strtol', 10), ('tol', 'i8', 'strtol', 10), ('tou', 'i4', 'strtoul', 10), ('toul', 'i8', 'strtoul', 10)):
    # the value lies within the range of the result type
    val = Scalar('value', rk)
    good = lambda ty, val=val: val.sym()
    T('s_' + s, [Buf('a', 'i1', n=16), Buf('k', 'i4', n=1, mode='out'), val, Int('taken', 0, 15)], rk, hooks=[(r'^(__isoc23_)?%s$' % nm, lib(good, base))], fix=digits(rk),
      post=lambda c: [('value of the C library conversion', eq(c.ret, c.value)), ('end position passed back', eq(c.new.k[0], c.taken))])
