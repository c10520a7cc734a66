"""P27: merging, sorting, subsetting and moving soups."""
from .souplib import *
HARNESS = 'P27.cpp'
NATIVE_EXTRA = LIBS
NATIVE_SRCS = SRCS
NOINLINE = LOG_NOINLINE + GROW_NOINLINE
TARGETS = []
HEAP = dict(heap=False)
BOUND = 'soups of up to 7 vertices, 9 elements and 6 groups each; names as text are outside what the prover follows'


def T(*a, **k):
    k['hooks'] = LOG_HOOK + GROW_HOOK + k.get('hooks', [])
    TARGETS.append(Target(*a, **k))


def nul(nm, k, n=1): return Vec(nm, k, mode='inout', n=n, onlynull=True)


T('s_trans', soup(v='inout') + [Buf('p', 'f8', n=3)], pre=whole(), fix=lambda d, rng: genparts(d, rng), opts=HEAP,
  post=lambda c: [('as many vertices', eq(c.new.v.len, c.v.len)), ('every vertex moves by the vector', forall(0, c.v.len, lambda i: and_(*[eq(c.new.v.at(i, k), c.v.at(i, k) + c.p[k]) for k in range(3)])))])


def merged(c):
    N = c.new
    nv, nt, nc = c.v.len, c.t.len, c.c.len
    return [('vertices of both', eq(N.v.len, nv + c.v2.len)), ('own vertices stay', forall(0, nv * 3, lambda i: eq(N.v.raw(i), c.v.raw(i)))), ('vertices of the other follow', forall(0, c.v2.len * 3, lambda i: eq(N.v.raw(nv * 3 + i), c.v2.raw(i)))),
            ('elements of both', eq(N.t.len, nt + c.t2.len)), ('own types stay', forall(0, nt, lambda i: eq(N.t.at(i), c.t.at(i)))), ('types of the other follow', forall(0, c.t2.len, lambda i: eq(N.t.at(nt + i), c.t2.at(i)))),
            ('connectivity of both', eq(N.c.len, nc + c.c2.len)), ('own connectivity stays', forall(0, nc, lambda i: eq(N.c.at(i), c.c.at(i)))),
            ('connectivity of the other is renumbered', forall(0, c.c2.len, lambda i: eq(N.c.at(nc + i), c.c2.at(i) + nv))),
            ('one offset per element and one more', eq(N.o.len, nt + c.t2.len + 1)), ('own offsets stay', forall(0, nt, lambda i: eq(N.o.at(i), c.o.at(i)))),
            ('offsets of the other are shifted', and_(eq(N.o.at(nt), nc), forall(0, c.t2.len, lambda i: eq(N.o.at(nt + 1 + i), c.o2.at(1 + i) + nc))))]


def part(x, mode, null):
    k = dict(mode=mode, maxlen=LIM, exactcap=mode == 'in', onlynull=null)
    return [Vec('v' + x, 'f8', n=3, **k), Vec('t' + x, 'i1', **k), Vec('o' + x, 'i4', **k), Vec('c' + x, 'i4', **k)]


for fn, n1, n2 in (('s_merge', False, False), ('s_merge1', True, False), ('s_merge2', False, True)):
    def gen(d, rng, n1=n1, n2=n2):
        genparts(d, rng, '', .2); genparts(d, rng, '2', .2)
        for x, n in (('', n1), ('2', n2)):
            if n:
                for q in 'vtoc': put(d, q + x, [])
    T(fn, part('', 'inout', n1) + part('2', 'in', n2), fix=gen, pre=lambda c: whole()(c) + whole('2')(c) + [('vertices exist', forall(0, c.c2.len, lambda i: and_(le(I(0), c.c2.at(i)), lt(c.c2.at(i), c.v2.len))))], post=merged, opts=HEAP, budget=150)


def merge(d, out):
    a, b = Soup().of(d).sort(), Soup().of(d, '2').sort()
    if not holds(b, out, 'w2', 'x2'): return 'the appended soup is unchanged'
    nv, ne = len(a.v), len(a.e)
    a.v += b.v; a.e += [(k, [i + nv for i in c]) for k, c in b.e]
    for q, I_, W in b.g:
        I_ = [i + ne for i in I_]
        for j, h in enumerate(a.g):
            if h[0] == q: a.g[j] = (q, h[1] + I_, h[2] + W); break
        else: a.g.append((q, I_, W))
    a.sort()
    if not holds(a, out): return 'vertices, elements and groups of both, the second renumbered, groups of equal name united'


def genmerge(d, rng):
    al = [rng.random() < .5 for _ in range(7)]
    fill(d, rng, ok=True, alldata=al); fill(d, rng, '2', ok=True, alldata=al)


def grp(nm='x'): return [nul('w', 'i4'), nul('x', 'f8')]


T('g_merge', parts() + parts('2') + grp() + [nul('w2', 'i4'), nul('x2', 'f8')], fix=genmerge, opts=HEAP, bounded=BOUND + '; groups of equal name both carry data or neither does', check=merge, samples=4000)


def sorted_(d, out):
    if not holds(Soup().of(d).sort(), out): return 'the same groups, in the order of their names; all else unchanged'


T('g_sort', parts() + grp(), fix=lambda d, rng: fill(d, rng, ok=True), opts=HEAP, bounded=BOUND, check=sorted_, samples=3000)


def moved(d, out):
    a = Soup().of(d)
    a.v = [[x + float(q) for x, q in zip(p, [d['p[%d]' % k] for k in range(3)])] for p in a.v]
    if not holds(a, out, tol=1e-9): return 'every vertex moves by the vector; all else unchanged'


T('g_trans', parts() + [Buf('p', 'f8', n=3)] + grp(), fix=lambda d, rng: fill(d, rng), opts=HEAP, bounded=BOUND, check=moved, samples=1500)


def subset(d, out):
    a = Soup().of(d)
    if not holds(a, out, 'w2', 'x2'): return 'the soup is unchanged'
    hit = [h for h in a.g if h[0] == d['name']]
    b = Soup()
    if hit:
        ids = hit[0][1]
        vs = sorted({i for e in ids for i in a.e[e][1]})
        b.v = [a.v[i] for i in vs]
        b.e = [(a.e[e][0], [vs.index(i) for i in a.e[e][1]]) for e in ids]
        for q, I_, W in a.g:
            if q == d['name']: continue
            L = [i for i in I_ if i in ids]
            if L: b.g.append((q, [ids.index(i) for i in L], [W[I_.index(i)] for i in L] if W else []))
    if not holds(b, out): return 'exactly the elements of the group, their vertices, and the other groups restricted to them'


def gensub(d, rng):
    fill(d, rng, ok=True)
    d['name'] = rng.choice(d['g']) if d['g'] and rng.random() < .9 else rng.randrange(7)


T('g_sub', parts() + [Int('name', 0, 6)] + grp() + [nul('w2', 'i4'), nul('x2', 'f8')], fix=gensub, opts=HEAP, bounded=BOUND, check=subset, samples=4000)
