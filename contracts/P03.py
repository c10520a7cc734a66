"""P03: text strings."""
from .lib import *
HARNESS = 'P03.cpp'
CONFIG = dict(ASSERTS=0)        # memory safety is proved here; several code assertions only forbid empty text
TARGETS = []
OPT = ['-phi-node-folding-threshold=0', '-two-entry-phi-node-folding-threshold=0', '-speculate-one-expensive-inst=false', '-bonus-inst-threshold=0']    # no speculated reads of the inactive representation
LIM = 2 ** 24


def T(*a, **k): TARGETS.append(Target(*a, **k))


A = [Arr('a', 'i1', 'n'), Int('n', 0, LIM, ghi=50)]
A1 = [Arr('a', 'i1', 'n'), Int('n', 1, LIM, ghi=50)]
BT = [Arr('b', 'i1', 'k'), Int('k', 0, LIM, ghi=50)]
B1 = [Arr('b', 'i1', 'k'), Int('k', 1, LIM, ghi=50)]
CT = [Arr('c', 'i1', 'l'), Int('l', 0, LIM, ghi=50)]
C1 = [Arr('c', 'i1', 'l'), Int('l', 1, LIM, ghi=50)]
O = lambda f, nm='o': Arr(nm, 'i1', f, mode='out')
ZT = lambda nm, ln: [Arr(nm, 'i1', lambda v: getattr(v, ln) + 1), Int(ln, 0, LIM, ghi=50)]
zpre = lambda nm, ln: (lambda c: [('terminated', eq(getattr(c, nm).at(getattr(c, ln)), I(0))), ('no earlier zero', forall(0, getattr(c, ln), lambda i: ne(getattr(c, nm).at(i), I(0))))])
EDGE = [0, 1, 2, 21, 22, 23, 24, 45, 46, 47]


def fix(d, rng):
    """lengths around the inline capacity, few distinct characters, frequent equality"""
    al = [97, 98, -7, 32][:rng.randint(1, 4)]
    for nm, ln in (('a', 'n'), ('b', 'k'), ('c', 'l')):
        if ln not in d or not isinstance(d.get(nm), list): continue
        zero = len(d[nm]) == d[ln] + 1
        n = rng.choice(EDGE) if rng.random() < .6 else rng.randint(0, 48)
        if d.get('_min', {}).get(ln): n = max(1, n)
        d[ln] = n
        d[nm] = [rng.choice(al) for _ in range(n)] + ([0] if zero else [])
    if 'a' in d and isinstance(d.get('b'), list) and rng.random() < .5:
        m = min(d['n'], d['k'])
        d['b'][:m] = d['a'][:m]
        if m and rng.random() < .4: d['b'][m - 1] = rng.choice(al)
    if 'c' in d and not isinstance(d['c'], list) and 'i' not in d: d['c'] = rng.choice(al)
    n = d.get('n', 0)
    if 'p' in d and not isinstance(d['p'], list): d['p'] = rng.choice([0, 1, max(0, n - 1), n, n + 1, 2 ** 31 - 1])
    if 'i' in d:
        d['i'] = rng.randint(0, n)
        if 'c' in d: d['c'] = rng.choice([0, 1, n - d['i'], 2 ** 31 - 1, rng.randint(0, 50)])
        if 'want' in d: d['want'] = min(d['c'], n - d['i'])


def fix1(*ns):
    def g(d, rng):
        d['_min'] = {x: 1 for x in ns}
        fix(d, rng)
        del d['_min']
    return g


def holds(o, parts):
    """o is the concatenation of the parts (array, from, length) and a terminating zero"""
    out = []; pos = I(0)
    for arr, lo, n in parts:
        out.append(forall(0, n, lambda q, pos=pos, arr=arr, lo=lo: eq(o.at(pos + q), arr.at(lo + q))))
        pos = pos + n
    return [('characters in order', and_(*out)), ('terminating zero', eq(o.at(pos), I(0)))]


Z = I(0)
whole = lambda c: [('length', eq(c.ret, c.n))] + holds(c.new.o, [(c.a, Z, c.n)])
both = lambda c: whole(c) + [('the other operand keeps ' + t, e) for t, e in holds(c.new.p, [(c.a, Z, c.n)])]
cat = lambda c: [('length', eq(c.ret, c.n + c.k))] + holds(c.new.o, [(c.a, Z, c.n), (c.b, Z, c.k)])
N1 = lambda v: v.n + 1
K1 = lambda v: v.k + 1
NK1 = lambda v: v.n + v.k + 1
T('s_make', A + [O(N1)], 'i4', fix=fix, post=whole)
T('s_cstr', ZT('a', 'n') + [O(N1)], 'i4', fix=fix, pre=zpre('a', 'n'), post=whole)
T('s_empty', [], 'i4', post=lambda c: [('empty and terminated', eq(c.ret, Z))])
T('s_info', A1 + [Out('o', 'i4', 12)], fix=fix1('n'), post=lambda c: [('length', eq(c.new.o[0], c.n)), ('empty exactly without characters', eq(c.new.o[1], b2i(eq(c.n, Z)))), ('capacity suffices', eq(c.new.o[2], I(1))),
  ('first and last character', and_(*[eq(c.new.o[j], c.a.at(0)) for j in (3, 6, 7)], *[eq(c.new.o[j], c.a.at(c.n - 1)) for j in (4, 8)])), ('end is length past begin', and_(eq(c.new.o[5], c.n), eq(c.new.o[9], c.n), eq(c.new.o[10], c.n), eq(c.new.o[11], I(1))))])
T('s_copy', A + [O(N1), O(N1, 'p')], 'i4', fix=fix, post=both)
T('s_move', A + [O(N1)], 'i4', fix=fix, post=whole)
T('s_set', A + BT + [O(N1), O(N1, 'p')], 'i4', fix=fix, post=both)
T('s_setmove', A + BT + [O(N1)], 'i4', fix=fix, post=whole)
T('s_self', A + [O(N1)], 'i4', fix=fix, post=whole)
T('s_assign', A + BT + [O(N1)], 'i4', fix=fix, post=whole)
T('s_append', A + B1 + [O(NK1)], 'i4', fix=fix1('k'), post=cat)
T('s_add', A + BT + [O(NK1), O(K1, 'p')], 'i4', fix=fix, post=lambda c: cat(c) + [('the other operand keeps ' + t, e) for t, e in holds(c.new.p, [(c.b, Z, c.k)])])
T('s_addc', A + ZT('b', 'k') + [O(NK1)], 'i4', fix=fix, pre=zpre('b', 'k'), post=cat)
T('s_addself', A + [O(lambda v: v.n * 2 + 1)], 'i4', fix=fix, post=lambda c: [('length', eq(c.ret, c.n * 2))] + holds(c.new.o, [(c.a, Z, c.n), (c.a, Z, c.n)]))
T('s_plus', A + BT + [O(NK1), O(N1, 'p')], 'i4', fix=fix, post=lambda c: cat(c) + [('the left operand keeps ' + t, e) for t, e in holds(c.new.p, [(c.a, Z, c.n)])])
T('s_plusc', A + ZT('b', 'k') + [O(NK1)], 'i4', fix=fix, pre=zpre('b', 'k'), post=cat)
T('s_app2', A + B1 + C1 + [O(lambda v: v.n + v.k + v.l + 1)], 'i4', fix=fix1('k', 'l'), post=lambda c: [('length', eq(c.ret, c.n + c.k + c.l))] + holds(c.new.o, [(c.a, Z, c.n), (c.b, Z, c.k), (c.c, Z, c.l)]))
T('s_appset', A + B1 + CT + [O(lambda v: v.l + 1)], 'i4', fix=fix1('k'), post=lambda c: [('length', eq(c.ret, c.l))] + holds(c.new.o, [(c.c, Z, c.l)]))
T('s_appcopy', A + B1 + [O(NK1)], 'i4', fix=fix1('k'), post=cat)
T('s_sub', A + [Int('i', 0, LIM, ghi=9), Int('c', 0, 2 ** 31 - 1, ghi=9), Int('want', 0, LIM, ghi=9), O(lambda v: v.want + 1)], 'i4', fix=fix,
  pre=lambda c: [('starts inside', le(c.i, c.n)), ('expected length', eq(c.want, min_(c.c, c.n - c.i)))], post=lambda c: [('length', eq(c.ret, c.want))] + holds(c.new.o, [(c.a, c.i, c.want)]))
T('s_from', A + [Int('i', 0, LIM, ghi=9), O(lambda v: v.n + 1)], 'i4', fix=fix, pre=lambda c: [('starts inside', le(c.i, c.n))], post=lambda c: [('length', eq(c.ret, c.n - c.i))] + holds(c.new.o, [(c.a, c.i, c.n - c.i)]))


def order(c):
    m = min_(c.n, c.k)
    same = lambda k: forall(0, k, lambda j: eq(c.a.at(j), c.b.at(j)))
    return or_(exists(0, m, lambda q: and_(same(q), lt(c.a.at(q), c.b.at(q)))), and_(same(m), lt(c.n, c.k))), and_(eq(c.n, c.k), same(m))


def three(c):
    l, e = order(c)
    return [('zero exactly for equal texts', iff(eq(c.ret, Z), e)), ('negative exactly when it sorts first', iff(lt(c.ret, Z), l))]


T('s_cmp', A + BT, 'i4', fix=fix, post=three)
T('s_cmpv', A + BT, 'i4', fix=fix, post=three)
for nm, f in (('eq', lambda l, e: e), ('ne', lambda l, e: not_(e)), ('lt', lambda l, e: l), ('le', lambda l, e: or_(l, e)), ('gt', lambda l, e: not_(or_(l, e))), ('ge', lambda l, e: not_(l))):
    T('s_' + nm, A + BT, 'b', fix=fix, post=lambda c, f=f: [('byte-wise comparison', iff(c.ret, f(*order(c))))])
T('s_starts', A + B1, 'b', fix=fix1('k'), post=lambda c: [('begins with the text', iff(c.ret, and_(le(c.k, c.n), forall(0, c.k, lambda j: eq(c.a.at(j), c.b.at(j))))))])
T('s_ends', A + B1, 'b', fix=fix1('k'), post=lambda c: [('ends with the text', iff(c.ret, and_(le(c.k, c.n), forall(0, c.k, lambda j: eq(c.a.at(c.n - c.k + j), c.b.at(j))))))])
CH = Scalar('c', 'i1')
T('s_startc', A + [CH], 'b', fix=fix, post=lambda c: [('first character', iff(c.ret, and_(lt(Z, c.n), eq(c.a.at(0), c.c))))])
T('s_endc', A + [CH], 'b', fix=fix, post=lambda c: [('last character', iff(c.ret, and_(lt(Z, c.n), eq(c.a.at(c.n - 1), c.c))))])
NPOS = I(2 ** 31 - 1)


def last(c, p):
    is_ = lambda q: eq(c.a.at(q), c.c)
    return [('absent only when no position up to there qualifies', implies(eq(c.ret, NPOS), forall(0, min_(c.n, p + 1), lambda q: not_(is_(q))))),
            ('latest qualifying position', implies(ne(c.ret, NPOS), and_(le(Z, c.ret), le(c.ret, p), lt(c.ret, c.n), is_(c.ret), forall(c.ret + 1, min_(c.n, p + 1), lambda q: not_(is_(q))))))]


T('s_last', A + [CH, Int('p', 0, 2 ** 31 - 1, ghi=50)], 'i4', fix=fix, post=lambda c: last(c, c.p))
T('s_last0', A + [CH], 'i4', fix=fix, post=lambda c: last(c, NPOS))


# numbers: the C library prints len characters (ghost text); the string must hold exactly those
def printed(fmt):
    def h(ex, st, a, x, name):
        if not isinstance(a[0], Ptr) or not isinstance(a[1], E): return NotImplemented
        t = ex.old
        if a[0].obj is not None:
            n = min_(t.len, a[1] - 1)
            o = a[0].obj
            ex.size_check(st, a[0], a[1], 'write', 'snprintf')
            w = st.w(o)
            if w.stride is None: w.stride = 1; w.cells = {}
            if w.stride != 1: return NotImplemented
            key = (0, 1, 'i')
            prev = w.arrs.get(key) or ex.fresh_arr(o, key, None)
            lo = a[0].off
            w.arrs[key] = AStore(ARange(prev, (), lo, lo + n, lambda i: t.txt.at(i - lo)), (lo + n,), I(0))
        ex.note('snprintf prints the characters of the decimal representation and returns their number')
        return [(st, t.len)]
    return h


def numtext(fmt, gen):
    def g(d, rng):
        x = gen(rng)
        d['x'] = x
        s = (fmt % x)
        d['len'] = len(s)
        d['txt'] = [ord(ch) for ch in s] + [0]
    return g


import ctypes as _ct
for nm, k, most, fmt, gen in (('s_i4', 'i4', 11, '%d', lambda r: r.choice([0, -1, 2 ** 31 - 1, -2 ** 31, r.randint(-2 ** 31, 2 ** 31 - 1), r.randint(-99, 99)])),
                              ('s_i8', 'i8', 20, '%d', lambda r: r.choice([0, -1, 2 ** 63 - 1, -2 ** 63, r.randint(-2 ** 63, 2 ** 63 - 1), r.randint(-99, 99)])),
                              ('s_f4', 'f4', 47, '%f', lambda r: _ct.c_float(r.choice([0.0, 3.4e38, -3.4e38, 1e25, r.uniform(-9, 9), 10.0 ** r.randint(-3, 38)])).value),
                              ('s_f8', 'f8', 317, '%f', lambda r: r.choice([0.0, 1.7e308, -1.7e308, 1e30, r.uniform(-9, 9), 10.0 ** r.randint(-3, 300)]))):
    T(nm, [Scalar('x', k), Arr('txt', 'i1', lambda v: v.len + 1), Int('len', 1, most, ghi=most), O(lambda v: v.len + 1)], 'i4', fix=numtext(fmt, gen), hooks=[(r'^snprintf$', printed(fmt))],
      post=lambda c: [('length', eq(c.ret, c.len))] + holds(c.new.o, [(c.txt, Z, c.len)]))
