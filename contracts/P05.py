"""P05: sorting routines return the sorted rearrangement of their input."""
from .lib import *
HARNESS = 'P05.cpp'
TARGETS = []
LIM = 2 ** 24


def T(*a, **k): TARGETS.append(Target(*a, **k))


def perms(n):
    from itertools import permutations
    return list(permutations(range(n)))


def small(old, new, order, same=eq):
    """sorted along order, and some rearrangement of the input"""
    n = len(order)
    return [('non-descending', and_(*[le(new[order[i]], new[order[i + 1]]) for i in range(n - 1)])),
            ('rearrangement of the input', or_(*[and_(*[eq(new[i], old[p[i]]) for i in range(n)]) for p in perms(n)]))]


def ties(name, n):
    def f(d, rng):
        for i in range(n):
            if rng.random() < .4: d['%s[%d]' % (name, i)] = d['%s[%d]' % (name, rng.randrange(n))]
    return f


def part(d, rng):
    d['i'], d['j'] = sorted((rng.randint(0, d['m']), rng.randint(0, d['m'])))
    a = d['a'] if 'a' in d else d['a.key']
    for q in range(len(a)):
        if rng.random() < .3: a[q] = a[rng.randrange(len(a))]
    q = rng.randrange(len(a)) if a else 0
    if a and rng.random() < .8: d['v'] = a[q]
    if a and 'w' in d: d['w'] = d['a.tag'][q]


def loopinv(fields):
    def inv(L):
        o = [o for o in L.s0.mem if o.name == 'a']
        if not o: return []
        o = o[0]
        if o not in set(q for q, _ in L.arrs): return []
        env = vars(L.ex.old)
        rd = lambda lv, q, key: aread(lv.st.mem[o].arrs[key], (q,))
        keys = sorted(L.s0.mem[o].arrs)
        k0 = keys[0]
        if any(L.s0.mem[o].arrs[key] is not L.ex.mem0[o].arrs[key] for key in keys): return []      # inner loop
        i, j = env['i'], env['j']
        cnt = lambda at: Sum(0, env['m'], lambda q: b2i(and_(*[eq(at(q, key), env[g]) for key, g in zip(keys, fields)])))
        ini = lambda q, key: aread(L.ex.mem0[o].arrs[key], (q,))
        out = [('sorted so far', lambda lv: forall(i, i + lv.k, lambda q: le(rd(lv, q, k0), rd(lv, q + 1, k0)))),
               ('values kept', lambda lv: eq(cnt(lambda q, key: rd(lv, q, key)), cnt(ini)))]
        for key in keys:
            out.append(('before the range', lambda lv, key=key: forall(0, i, lambda q: eq(rd(lv, q, key), ini(q, key)))))
            out.append(('after the processed part', lambda lv, key=key: forall(i + lv.k + 1, env['m'], lambda q: eq(rd(lv, q, key), ini(q, key)))))
        return out
    return inv


for p, k in (('d_', 'f8'), ('f_', 'f4'), ('i_', 'i4'), ('l_', 'i8'), ('c_', 'i1')):
    for s, n, order in (('s3', 3, (0, 1, 2)), ('s3r', 3, (2, 0, 1)), ('s4', 4, (0, 1, 2, 3)), ('s4r', 4, (2, 0, 3, 1))):
        T(p + s, [Buf('a', k, n=n, mode='inout')], fix=ties('a', n), post=lambda c, order=order: small(c.a, c.new.a, order))
    T(p + 'ins', [Arr('a', k, 'm', mode='inout'), Int('m', 0, LIM, ghi=9), Int('i', 0, LIM, ghi=9), Int('j', 0, LIM, ghi=9), Scalar('v', k)], inv=loopinv(['v']), fix=part, opts=dict(loop_timeout=5), budget=240,
      pre=lambda c: [('range inside the array', and_(le(c.i, c.j), le(c.j, c.m)))],
      post=lambda c: [('non-descending', forall(c.i, c.j - 1, lambda q: le(c.new.a.at(q), c.new.a.at(q + 1)))),
                      ('every value as often as before', eq(Sum(0, c.m, lambda q: b2i(eq(c.new.a.at(q), c.v))), Sum(0, c.m, lambda q: b2i(eq(c.a.at(q), c.v))))),
                      ('outside the range untouched', and_(*[forall(lo, hi, lambda q: eq(c.new.a.at(q), c.a.at(q))) for lo, hi in ((0, c.i), (c.j, c.m))]))])
REC = [('key', 'f8'), ('tag', 'i8')]
for s, n in (('s3', 3), ('s4', 4)):
    ks = ['f8', 'i8'] * n
    T('r_' + s, [Buf('a', ks, mode='inout', align=8)], fix=ties('a', 2 * n) if False else (lambda d, rng, n=n: [d.__setitem__('a[%d]' % (2 * i), d['a[%d]' % (2 * rng.randrange(n))]) for i in range(n) if rng.random() < .4]),
      post=lambda c, n=n: [('non-descending keys', and_(*[le(c.new.a[2 * i], c.new.a[2 * i + 2]) for i in range(n - 1)])),
                           ('rearrangement of the records', or_(*[and_(*[and_(eq(c.new.a[2 * i], c.a[2 * q[i]]), eq(c.new.a[2 * i + 1], c.a[2 * q[i] + 1])) for i in range(n)]) for q in perms(n)]))])
same = lambda a, q, c: and_(eq(a.at(q, 'key'), c.v), eq(a.at(q, 'tag'), c.w))
T('r_ins', [Arr('a', REC, 'm', mode='inout'), Int('m', 0, LIM, ghi=9), Int('i', 0, LIM, ghi=9), Int('j', 0, LIM, ghi=9), Scalar('v', 'f8'), Scalar('w', 'i8')], inv=loopinv(['v', 'w']), fix=part, opts=dict(loop_timeout=5), budget=240,
  pre=lambda c: [('range inside the array', and_(le(c.i, c.j), le(c.j, c.m)))],
  post=lambda c: [('non-descending keys', forall(c.i, c.j - 1, lambda q: le(c.new.a.at(q, 'key'), c.new.a.at(q + 1, 'key')))),
                  ('every record as often as before', eq(Sum(0, c.m, lambda q: b2i(same(c.new.a, q, c))), Sum(0, c.m, lambda q: b2i(same(c.a, q, c))))),
                  ('outside the range untouched', and_(*[forall(lo, hi, lambda q: and_(eq(c.new.a.at(q, 'key'), c.a.at(q, 'key')), eq(c.new.a.at(q, 'tag'), c.a.at(q, 'tag')))) for lo, hi in ((0, c.i), (c.j, c.m))]))])
