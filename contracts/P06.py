"""P06: sort permutations, inverse permutations, application of a permutation."""
from .lib import *
HARNESS = 'P06.cpp'
NOINLINE = SORT_NOINLINE
TARGETS = []
LIM = 2 ** 24


def T(*a, **k): TARGETS.append(Target(*a, **k))


def distinct(p, n): return forall(0, n, lambda q: forall(q + 1, n, lambda r: ne(p.at(q), p.at(r))))
def within(p, n): return forall(0, n, lambda q: and_(le(I(0), p.at(q)), lt(p.at(q), n)))


def perm_pre(c):
    """p is a permutation of 0..n-1 with inverse g"""
    n = c.n
    return [('p and g in range', and_(within(c.p, n), within(c.g, n))),
            ('g undoes p', forall(0, n, lambda q: eq(c.g.at(c.p.at(q)), q))), ('p undoes g', forall(0, n, lambda q: eq(c.p.at(c.g.at(q)), q)))]


def perm_fix(d, rng):
    n = d['n']
    p = list(range(n))
    how = rng.random()
    if how < .7: rng.shuffle(p)
    elif how < .85:
        k = rng.randint(0, n)
        p = p[k:] + p[:k]
    d['p'] = p
    d['g'] = [p.index(i) for i in range(n)]


def scatter(target, bound):
    """loop template of a loop that stores k at position index(k)"""
    def inv(L):
        o = [o for o in L.s0.mem if o.name == target]
        if not o or o[0] not in set(q for q, _ in L.arrs): return []
        src = [p for p in L.s0.mem if p.name == bound]
        if not src: return []
        key = list(L.s0.mem[o[0]].arrs)[0]; skey = list(L.s0.mem[src[0]].arrs)[0]
        return [('inverse so far', lambda lv: forall(0, lv.k, lambda q: eq(aread(lv.st.mem[o[0]].arrs[key], (aread(lv.st.mem[src[0]].arrs[skey], (q,)),)), q)))]
    return inv


def inv_inv(L):
    a = scatter('q', 'p')(L)
    return a or scatter('r', 'q')(L)


# applying a permutation by swaps: WHAT(i, r) is the element at position r after i steps, CHASE(i, r) where following the permutation
# from r first reaches a position not yet settled
def what(i, r): return app('what!', (i, r), 'I')
def chase(i, r): return app('chase!', (i, r), 'I')


def swap_defs(c):
    t = lambda i: chase(i, c.p.at(i))
    return [('element at a position before any step', forall(0, c.n, lambda r: eq(what(I(0), r), r))),
            ('element at a position after a step', forall(0, c.n, lambda i: forall(0, c.n, lambda r: eq(what(i + 1, r), ite(eq(r, i), what(i, t(i)), ite(eq(r, t(i)), what(i, i), what(i, r))))))),
            ('first unsettled position before any step', forall(0, c.n, lambda r: eq(chase(I(0), r), r))),
            ('first unsettled position after a step', forall(0, c.n, lambda i: forall(0, c.n, lambda r: eq(chase(i + 1, r), ite(eq(chase(i, r), i), t(i), chase(i, r))))))]


def swap_inv(L):
    c = L.ex.old
    ks = enclosing(L)
    n = c.n
    wr = [(key, rd, ini) for o, key, rd, ini in written(L) if o.name == 'a']
    if not wr and len(ks) == 1:
        i = ks[0]
        out = []
        for x in L.ints():
            out += [('in range', lambda lv, x=x: and_(le(I(0), x(lv)), lt(x(lv), n))), ('leads to the same place', lambda lv, x=x: eq(chase(i, x(lv)), chase(i, c.p.at(i))))]
        return out
    if not wr or ks: return []
    out = [('chase in range', lambda lv: forall(0, n, lambda r: and_(le(I(0), chase(lv.k, r)), lt(chase(lv.k, r), n)))),
           ('chase of unsettled', lambda lv: forall(lv.k, n, lambda r: eq(chase(lv.k, r), r))),
           ('chase of settled', lambda lv: forall(0, lv.k, lambda r: eq(chase(lv.k, r), chase(lv.k, c.p.at(r))))),
           ('what in range', lambda lv: forall(0, n, lambda r: and_(le(I(0), what(lv.k, r)), lt(what(lv.k, r), n)))),
           ('settled', lambda lv: forall(0, lv.k, lambda q: eq(what(lv.k, q), c.p.at(q)))),
           ('unsettled', lambda lv: forall(0, n, lambda e: implies(le(lv.k, c.g.at(e)), and_(le(lv.k, chase(lv.k, e)), eq(what(lv.k, chase(lv.k, e)), e)))))]
    out.append(('last', lambda lv: implies(eq(lv.k, n - 1), eq(what(lv.k, lv.k), c.p.at(lv.k)))))
    for key, rd, ini in wr: out.append(('contents', lambda lv, rd=rd, ini=ini: forall(0, n, lambda r: eq(rd(lv, r), ini(what(lv.k, r))))))
    return out


def ties(d, rng):
    a = d['a']
    for q in range(len(a)):
        if rng.random() < .4: a[q] = a[rng.randrange(len(a))]


for p, k in (('d', 'f8'), ('f', 'f4'), ('i', 'i4'), ('l', 'i8'), ('u', 'u8')):
    T(p + '_sort', [Arr('a', k, 'n'), Int('n', 0, LIM, ghi=12), Arr('p', 'i4', 'n', mode='out')], fix=ties, hooks=[SORT_HOOK],
      post=lambda c: [('every index in range', within(c.new.p, c.n)), ('no index twice', distinct(c.new.p, c.n)),
                      ('visits in non-descending order', forall(0, c.n - 1, lambda q: le(c.a.at(c.new.p.at(q)), c.a.at(c.new.p.at(q + 1)))))])
for p, k in (('d', 'f8'), ('f', 'f4'), ('i', 'i4'), ('l', 'i8')):
    T(p + '_app', [Arr('a', k, 'n', mode='inout'), Int('n', 0, LIM, ghi=12), Arr('p', 'i4', 'n'), Arr('g', 'i4', 'n')], pre=perm_pre, fix=perm_fix, defs=swap_defs, inv=swap_inv, budget=200, opts=dict(loop_timeout=6),
      post=lambda c: [('position q gets the element the permutation names', forall(0, c.n, lambda q: eq(c.new.a.at(q), c.a.at(c.p.at(q)))))])
T('r_app', [Arr('a', [('key', 'f8'), ('tag', 'i8')], 'n', mode='inout'), Int('n', 0, LIM, ghi=12), Arr('p', 'i4', 'n'), Arr('g', 'i4', 'n')], pre=perm_pre, fix=perm_fix, defs=swap_defs, inv=swap_inv, budget=200, opts=dict(loop_timeout=6),
  post=lambda c: [('position q gets the element the permutation names', forall(0, c.n, lambda q: eq(c.new.a.at(q, f), c.a.at(c.p.at(q), f)))) for f in ('key', 'tag')])
inverse = lambda c, a, b: [('inverse undoes the permutation', forall(0, c.n, lambda q: eq(a.at(b.at(q)), q))), ('permutation undoes the inverse', forall(0, c.n, lambda q: eq(b.at(a.at(q)), q)))]
T('inv', [Arr('p', 'i4', 'n'), Int('n', 0, LIM, ghi=12), Arr('g', 'i4', 'n'), Arr('q', 'i4', 'n', mode='out')], pre=perm_pre, fix=perm_fix, inv=inv_inv,
  post=lambda c: inverse(c, c.new.q, c.p) + [('is the only inverse', forall(0, c.n, lambda q: eq(c.new.q.at(q), c.g.at(q))))])
T('inv_twice', [Arr('p', 'i4', 'n'), Int('n', 0, LIM, ghi=12), Arr('g', 'i4', 'n'), Arr('q', 'i4', 'n', mode='out'), Arr('r', 'i4', 'n', mode='out')], pre=perm_pre, fix=perm_fix, inv=inv_inv,
  post=lambda c: [('inverting twice gives the permutation back', forall(0, c.n, lambda q: eq(c.new.r.at(q), c.p.at(q))))])
T('d_both', [Arr('a', 'f8', 'n'), Int('n', 0, LIM, ghi=12), Arr('p', 'i4', 'n', mode='out'), Arr('q', 'i4', 'n', mode='out')], fix=ties, hooks=[SORT_HOOK], inv=inv_inv,
  post=lambda c: inverse(c, c.new.q, c.new.p))
