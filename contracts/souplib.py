"""shared by the soup properties: what a soup filled through its public functions must contain"""
from .lib import *
from .meshlib import LIBS
SRCS = ['src/common/settings.cpp', 'src/common/logger.cpp']
LIM = 2 ** 20
NPE = {1: 1, 3: 2, 5: 3, 9: 4, 21: 3, 22: 6, 23: 8}
# order of the names of harness/soup.hpp
NAMES = ['a', 'Material_of_a_rather_long_name', 'Material', 'b', 'Material_of_a_rather_long_name_2', 'Cell_1', 'Cell_10']


def soup(x='', mode='in', v=None, nv=0):
    """vertices, element types, element offsets, connectivity"""
    k = lambda m: dict(mode=m, maxlen=LIM, nullable=True, exactcap=m == 'in')
    return [Vec('v' + x, 'f8', n=3, **k(v or mode)), Vec('t' + x, 'i1', **k(mode)), Vec('o' + x, 'i4', **k(mode)), Vec('c' + x, 'i4', **k(mode))]


def whole(x=''):
    """the offsets partition the connectivity"""
    def f(s):
        t, o, c = (getattr(s, q + x) for q in 'toc')
        return [('offsets partition the connectivity', and_(or_(and_(eq(t.len, I(0)), eq(o.len, I(0)), eq(c.len, I(0))), and_(eq(o.len, t.len + 1), eq(o.at(0), I(0)), eq(o.at(t.len), c.len))),
                                                            forall(0, t.len, lambda i: le(o.at(i), o.at(i + 1))), forall(0, o.len, lambda i: and_(le(I(0), o.at(i)), le(o.at(i), c.len)))))]
    return f


def genparts(d, rng, x='', empty=.12):
    """random offsets and connectivity that fit together"""
    n = 0 if rng.random() < empty else rng.randint(1, 4)
    ks = [rng.choice(list(NPE)) for _ in range(n)]
    nv = max(1, d['v%s.len' % x])
    o = [0]; c = []
    for k in ks:
        c += [rng.randrange(nv) for _ in range(NPE[k])]; o.append(len(c))
    if not n: o = []
    for q, L in (('t', ks), ('o', o), ('c', c)): put(d, q + x, L)


def put(d, nm, L, n=1):
    d[nm] = list(L); d[nm + '.len'] = len(L) // n
    if nm + '.cap' in d: d[nm + '.cap'] = len(L) // n


def parts(x=''):
    """a soup as the sequence of additions that makes it"""
    e = lambda a: Vec(a + x, 'i4', exactcap=True, nullable=True, maxlen=64)
    return [Vec('v' + x, 'f8', n=3, exactcap=True, nullable=True, maxlen=64), e('t'), Rows('c' + x, 'i4'), e('g'), Rows('ids' + x, 'i4'), Rows('data' + x, 'f8')]


def rows(d, nm, L): d[nm] = L; d[nm + '.len'] = len(L); d[nm + '.n'] = [len(r) for r in L]


def fill(d, rng, x='', ok=False, alldata=None, dup=False):
    """ok: only groups that are acceptable; alldata: per name, whether its groups carry data"""
    nv = rng.randint(1, 7) if rng.random() < .93 else 0
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 9]) if nv else 0
    ks = [rng.choice(list(NPE)) for _ in range(n)]
    put(d, 'v' + x, [rng.choice([float(rng.randint(-3, 3)), rng.uniform(-5, 5)]) for _ in range(3 * nv)], 3)
    put(d, 't' + x, ks)
    rows(d, 'c' + x, [[rng.randrange(nv) for _ in range(NPE[k])] for k in ks])
    ng = rng.choice([0, 1, 2, 3, 4, 5, 6]) if n else 0
    g = [rng.randrange(7) for _ in range(ng)]
    if ok: g = list(dict.fromkeys(g))
    ids = []; data = []
    for q in g:
        L = sorted(rng.sample(range(n), rng.randint(1, n)))
        if not ok and rng.random() < .15: L = []
        w = [rng.uniform(-4, 4) for _ in L] if (rng.random() < .5 if alldata is None else alldata[q]) else []
        if not ok and rng.random() < .15: w = w + [1.5]
        ids.append(L); data.append(w)
    put(d, 'g' + x, g); rows(d, 'ids' + x, ids); rows(d, 'data' + x, data)


class Soup:
    """the abstract value of a soup: lists of vertices, elements and groups"""

    def __init__(s): s.v = []; s.e = []; s.g = []

    def of(s, d, x=''):
        s.r = []
        L = d['v' + x]
        for i in range(len(L) // 3): s.v.append(list(L[3 * i:3 * i + 3])); s.r.append(i)
        for i, k in enumerate(d['t' + x]): s.e.append((k, list(d['c' + x][i]))); s.r.append(i)
        for i, q in enumerate(d['g' + x]):
            I_, W = list(d['ids' + x][i]), list(d['data' + x][i])
            if any(h[0] == q for h in s.g) or not I_ or (W and len(W) != len(I_)): s.r.append(-1); continue
            s.g.append((q, I_, W)); s.r.append(len(s.g) - 1)
        return s

    def sort(s): s.g.sort(key=lambda h: NAMES[h[0]].encode()); return s

    def dump(s):
        w = [len(s.v)]; x = [q for p in s.v for q in p]
        w.append(len(s.e))
        for k, c in s.e: w += [k, len(c)] + c
        w.append(len(s.g))
        for q, I_, W in s.g:
            for how in range(2): w += [q, len(I_)] + I_ + [len(W)]; x += W
        return w, x


def same(a, b, tol=1e-12): return len(a) == len(b) and all(abs(float(p) - float(q)) <= tol * max(1, abs(float(p))) for p, q in zip(a, b))


def holds(s, out, w='w', x='x', tol=1e-12):
    W, X_ = s.dump()
    return list(out['new.' + w]) == W and same(X_, out['new.' + x], tol)
