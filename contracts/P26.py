"""P26: what is added to a soup is what it holds."""
from .souplib import *
HARNESS = 'P26.cpp'
NATIVE_EXTRA = LIBS
NATIVE_SRCS = SRCS
NOINLINE = LOG_NOINLINE + GROW_NOINLINE
TARGETS = []
HEAP = dict(heap=False)
BOUND = 'histories of up to 7 vertices, 9 elements and 6 groups; names as text are outside what the prover follows'


def T(*a, **k):
    k['hooks'] = LOG_HOOK + GROW_HOOK + k.get('hooks', [])
    TARGETS.append(Target(*a, **k))


def nul(nm, k, n=1): return Vec(nm, k, mode='inout', n=n, onlynull=True)
def gen(d, rng): genparts(d, rng)
def kept(a, b, n=1): return and_(eq(a.len, b.len), forall(0, a.len * n, lambda i: eq(a.raw(i), b.raw(i))))


def added(c, p):
    return [('its number is the next one', eq(c.ret, c.v.len)), ('there is one more vertex', eq(c.new.v.len, c.v.len + 1)),
            ('the new vertex is the one given', and_(*[eq(c.new.v.at(c.v.len, k), p(k)) for k in range(3)])), ('earlier vertices stay', forall(0, c.v.len * 3, lambda i: eq(c.new.v.raw(i), c.v.raw(i))))]


T('s_addp', soup(v='inout') + [Buf('p', 'f8', n=3)], 'i4', pre=whole(), fix=gen, post=lambda c: added(c, lambda k: c.p[k]), opts=HEAP)
T('s_addv', soup(v='inout') + [Scalar('x', 'f8'), Scalar('y', 'f8'), Scalar('z', 'f8')], 'i4', pre=whole(), fix=gen, post=lambda c: added(c, lambda k: (c.x, c.y, c.z)[k]), opts=HEAP)


def elem(c):
    N = c.new
    return [('its number is the next one', eq(c.ret, c.t.len)), ('there is one more element', eq(N.t.len, c.t.len + 1)), ('of the type given', eq(N.t.at(c.t.len), c.ty)),
            ('earlier types stay', forall(0, c.t.len, lambda i: eq(N.t.at(i), c.t.at(i)))),
            ('the connectivity grows by that of the element', eq(N.c.len, c.c.len + c.conn.len)), ('earlier connectivity stays', forall(0, c.c.len, lambda i: eq(N.c.at(i), c.c.at(i)))),
            ('the connectivity of the element is the one given', forall(0, c.conn.len, lambda i: eq(N.c.at(c.c.len + i), c.conn.at(i)))),
            ('one offset per element and one more', eq(N.o.len, c.t.len + 2)), ('earlier offsets stay', forall(0, c.o.len, lambda i: eq(N.o.at(i), c.o.at(i)))),
            ('offsets start at zero', eq(N.o.at(0), I(0))), ('offsets bound the new element', and_(eq(N.o.at(c.t.len), c.c.len), eq(N.o.at(c.t.len + 1), c.c.len + c.conn.len)))]


def genadd(d, rng):
    genparts(d, rng)
    nv = d['v.len']
    put(d, 'conn', [rng.randrange(nv) for _ in range(rng.randint(1, 8))] if nv else [])


def genadd0(d, rng):
    genadd(d, rng)
    for q in 'toc': put(d, q, [])


for fn, alloc in (('s_adde', True), ('s_adde0', False)):
    cc = Vec('c', 'i4', mode='inout', maxlen=LIM, onlynull=not alloc)
    T(fn, [Vec('v', 'f8', n=3, nullable=True, exactcap=True, maxlen=LIM)] + soup(mode='inout')[1:3] + [cc, Int('ty', 0, 100, k='i1'), Vec('conn', 'i4', nullable=True, exactcap=True, maxlen=LIM)], 'i4', fix=genadd if alloc else genadd0, opts=HEAP,
      pre=lambda c: whole()(c) + [('vertices exist', forall(0, c.conn.len, lambda i: and_(le(I(0), c.conn.at(i)), lt(c.conn.at(i), c.v.len))))], post=elem, budget=150, bounded=None if alloc else 'the first element: storage appears inside the loop that fills it')
T('s_getv', soup() + [Int('i', 0, LIM), Out('p', 'f8', n=3)], pre=lambda c: whole()(c) + [('exists', lt(c.i, c.v.len))], fix=lambda d, rng: (gen(d, rng), d.update(i=rng.randrange(max(1, d['v.len'])))), opts=HEAP,
  post=lambda c: [('the vertex of that number', and_(*[eq(c.new.p[k], c.v.at(c.i, k)) for k in range(3)]))])
T('s_gete', soup() + [Int('i', 0, LIM), Out('ty', 'i1'), Vec('conn', 'i4', mode='inout', nullable=True, maxlen=LIM)], fix=lambda d, rng: (gen(d, rng), d.update(i=rng.randrange(max(1, d['t.len'])))), opts=HEAP,
  pre=lambda c: whole()(c) + [('exists', lt(c.i, c.t.len))],
  post=lambda c: [('its type', eq(c.new.ty[0], c.t.at(c.i))), ('its size', eq(c.new.conn.len, c.o.at(c.i + 1) - c.o.at(c.i))),
                  ('its connectivity', forall(0, c.o.at(c.i + 1) - c.o.at(c.i), lambda j: eq(c.new.conn.at(j), c.c.at(c.o.at(c.i) + j))))])
T('s_num', soup() + [Out('w', 'i4', n=3)], pre=whole(), fix=gen, opts=HEAP, post=lambda c: [('vertices', eq(c.new.w[0], c.v.len)), ('elements', eq(c.new.w[1], c.t.len)), ('groups', eq(c.new.w[2], I(0)))])
T('s_resv', soup(v='inout') + [Int('n', 0, LIM, ghi=20)], pre=whole(), fix=gen, opts=HEAP, post=lambda c: [('vertices stay', kept(c.v, c.new.v, 3))])
T('s_rese', [Vec('v', 'f8', n=3, nullable=True, exactcap=True, maxlen=LIM)] + soup(mode='inout')[1:] + [Int('ty', 0, 100, k='i1'), Int('n', 0, LIM, ghi=20)], fix=lambda d, rng: (gen(d, rng), d.update(ty=rng.choice(list(NPE)))), opts=HEAP,
  pre=lambda c: whole()(c) + [('a kind of element', or_(*[eq(c.ty, I(k)) for k in NPE]))], post=lambda c: [('types stay', kept(c.t, c.new.t)), ('offsets stay', kept(c.o, c.new.o)), ('connectivity stays', kept(c.c, c.new.c))])
T('s_types', soup() + [nul('w', 'i1')], pre=whole(), fix=gen, opts=HEAP, bounded='nested search in a growing list',
  post=lambda c: [('every type that occurs is listed', forall(0, c.t.len, lambda i: exists(0, c.new.w.len, lambda j: eq(c.new.w.at(j), c.t.at(i))))),
                  ('only types that occur are listed', forall(0, c.new.w.len, lambda j: exists(0, c.t.len, lambda i: eq(c.new.w.at(j), c.t.at(i))))),
                  ('each once', forall(0, c.new.w.len, lambda j: forall(0, j, lambda k: not_(eq(c.new.w.at(j), c.new.w.at(k))))))])


def genfirst(d, rng):
    n = d['t.len']
    L = sorted(rng.sample(range(n), rng.randint(0, n))) if n else []
    put(d, 'ids', L)
    k = rng.random()
    put(d, 'data', [] if k < .4 else [rng.uniform(-3, 3) for _ in range(len(L) + (k > .8))])


def first(c):
    ok = and_(lt(I(0), c.ids.len), or_(eq(c.data.len, I(0)), eq(c.data.len, c.ids.len)))
    return [('accepted exactly when there are ids and the data fit', eq(c.ret, ite(ok, I(0), I(-1)))),
            ('its ids are the ones given', implies(ok, and_(eq(c.new.gi.len, c.ids.len), forall(0, c.ids.len, lambda i: eq(c.new.gi.at(i), c.ids.at(i)))))),
            ('its offsets', implies(ok, and_(eq(c.new.go.len, I(2)), eq(c.new.go.at(0), I(0)), eq(c.new.go.at(1), c.ids.len)))),
            ('a rejected group leaves nothing', implies(not_(ok), and_(eq(c.new.gi.len, I(0)), eq(c.new.go.len, I(0)))))]


T('g_first', [Vec('t', 'i1', nullable=True, exactcap=True, maxlen=LIM), Vec('ids', 'i4', nullable=True, exactcap=True, maxlen=LIM), Vec('data', 'f8', nullable=True, exactcap=True, maxlen=LIM), nul('go', 'i4'), nul('gi', 'i4')], 'i4', fix=genfirst, opts=HEAP,
  pre=lambda c: [('elements exist', forall(0, c.ids.len, lambda i: and_(le(I(0), c.ids.at(i)), lt(c.ids.at(i), c.t.len)))), ('in order', forall(0, c.ids.len - 1, lambda i: le(c.ids.at(i), c.ids.at(i + 1))))], post=first, budget=150)


def hist(d, out):
    s = Soup().of(d)
    if list(out['new.r']) != s.r: return 'each addition returns the next index, each rejected group -1'
    if not holds(s, out): return 'the soup holds exactly what was added'


T('s_hist', parts() + [nul('r', 'i4'), nul('w', 'i4'), nul('x', 'f8')], fix=lambda d, rng: fill(d, rng), opts=HEAP, bounded=BOUND, check=hist, samples=4000)


def alike(d, out):
    a, b = Soup().of(d), Soup().of(d, '2')
    (w, x), (w2, x2) = a.dump(), b.dump()
    if (out['ret'] == 0) != (w == w2 and same(x, x2)): return 'soups compare equal exactly when they hold the same'


def genalike(d, rng):
    fill(d, rng)
    for k in list(d):
        for q in ('v', 't', 'c', 'g', 'ids', 'data'):
            if k == q or k.startswith(q + '.'): d[q + '2' + k[len(q):]] = [list(r) if isinstance(r, list) else r for r in d[k]] if isinstance(d[k], list) else d[k]
    k = rng.randrange(8)
    if k == 0 and d['v2']: d['v2'][rng.randrange(len(d['v2']))] += 1.
    elif k == 1 and d['g2']: d['g2'][rng.randrange(len(d['g2']))] = rng.randrange(7)
    elif k == 2 and any(d['data2']):
        r = rng.choice([r for r in d['data2'] if r]); r[rng.randrange(len(r))] += 1.
    elif k == 3 and any(d['c2']):
        r = rng.choice([r for r in d['c2'] if r]); r[rng.randrange(len(r))] = rng.randrange(d['v2.len'])
    elif k == 4 and d['t2']: d['t2'][rng.randrange(len(d['t2']))] = rng.choice(list(NPE))
    elif k == 5: fill(d, rng, '2')
    elif k == 6 and any(len(r) > 1 for r in d['ids2']):
        i = rng.choice([i for i, r in enumerate(d['ids2']) if len(r) > 1])
        L = sorted(rng.sample(range(d['t2.len']), len(d['ids2'][i]))); d['ids2'][i] = L


T('s_same', parts() + parts('2'), 'i4', fix=genalike, opts=HEAP, bounded=BOUND, check=alike, samples=4000)


def equal(c):
    near = lambda i: lt(sum_sq([c.v.at(i, k) - c.v2.at(i, k) for k in range(3)]), R(EPS2))
    same_ = lambda a, b: and_(eq(a.len, b.len), forall(0, a.len, lambda i: eq(a.at(i), b.at(i))))
    return [('zero exactly when vertices are close and all else agrees', iff(eq(c.ret, I(0)), and_(eq(c.v.len, c.v2.len), forall(0, c.v.len, near), same_(c.t, c.t2), same_(c.o, c.o2), same_(c.c, c.c2))))]


def sum_sq(L): return L[0] * L[0] + L[1] * L[1] + L[2] * L[2]


EPS2 = 1e-14


def gencmp(d, rng):
    genparts(d, rng)
    for q in 'vtoc':
        d[q + '2'] = list(d[q]); d[q + '2.len'] = d[q + '.len']
        if q + '2.cap' in d: d[q + '2.cap'] = d[q + '2.len']
    for q in 'vtoc':
        if d[q + '2'] and rng.random() < .2:
            i = rng.randrange(len(d[q + '2'])); d[q + '2'][i] += 1
    if rng.random() < .1: genparts(d, rng, '2')


one = lambda x: [Vec('v' + x, 'f8', n=3, exactcap=True, maxlen=LIM), Vec('t' + x, 'i1', exactcap=True, maxlen=LIM), Vec('o' + x, 'i4', exactcap=True, maxlen=LIM), Vec('c' + x, 'i4', exactcap=True, maxlen=LIM)]
T('s_cmp', one('') + one('2'), 'i4', fix=gencmp, post=equal, opts=HEAP, budget=120)
