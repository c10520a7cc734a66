"""P18: modular ray sets."""
import math
from .lib import *
HARNESS = 'P18.cpp'
TARGETS = []
Z = R(0)


def T(*a, **k): TARGETS.append(Target(*a, **k))


PId = 3.141592653589793
SIN = lambda a: app('sin', (a,), 'R')
COS = lambda a: app('cos', (a,), 'R')


def pre(c):
    return [('box with positive extents', and_(*[lt(c.lo[k], c.hi[k]) for k in range(2)])), lt(Z, c.a), lt(c.a, R(PId)), ('not exactly vertical', ne(COS(c.a), Z)),
            ('positive target spacing', lt(Z, c.s)), ('number of rays fits an index', and_(*[le(c.hi[k] - c.lo[k], R(10 ** 6) * c.s) for k in range(2)]))]


def gen(d, rng):
    d['a'] = rng.choice([rng.uniform(.01, 3.13), math.pi / 4, 3 * math.pi / 4, .3, 2.8])
    d['lo[0]'], d['lo[1]'] = rng.uniform(-5, 5), rng.uniform(-5, 5)
    d['hi[0]'], d['hi[1]'] = d['lo[0]'] + rng.uniform(.1, 5), d['lo[1]'] + rng.uniform(.1, 5)
    d['s'] = rng.choice([.1, .01, 1.0, 10., rng.uniform(.05, 2)])
    if 'i' in d: d['i'] = rng.randrange(0, 40)


def make(c):
    n, o = c.new.n, c.new.o
    e = [c.hi[k] - c.lo[k] for k in range(2)]
    pr = [e[0] * abs_(SIN(c.a)), e[1] * abs_(COS(c.a))]
    out = [('at least one ray on each side', and_(lt(I(0), n[0]), lt(I(0), n[1]))), ('total is the sum of both sides', eq(n[2], n[0] + n[1])),
           ('direction is a unit vector', eq(o[2] * o[2] + o[3] * o[3], R(1))), ('direction points upwards', lt(Z, o[3])),
           ('direction leans to the side of the target angle', and_(implies(lt(R(PId / 2), c.a), lt(o[2], Z)), implies(le(c.a, R(PId / 2)), lt(Z, o[2])))),
           ('slope is the ratio of the spacings', eq(o[3] * o[0], abs_(o[2]) * o[1]))]
    for k in range(2):
        out += [('spacing times count is the extent of side %d' % k, eq(o[k] * toreal(n[k]), e[k])),
                ('spacing across side %d does not exceed the target' % k, le(pr[k], c.s * toreal(n[k]))),
                ('no more rays on side %d than needed' % k, lt(c.s * (toreal(n[k]) - 1), pr[k]))]
    return out


def ray(c):
    n, o, r = c.new.n, c.new.o, c.new.r
    have = lt(c.i, n[2])
    right = lt(o[2], Z)
    half = R(Fraction(1, 2))
    first = lt(c.i, n[0])
    f = toreal(c.i) + half
    g = toreal(c.i - n[0]) + half
    return [('carries the common direction', implies(have, and_(eq(r[2], o[2]), eq(r[3], o[3])))),
            ('lower side: on the lower edge', implies(and_(have, first), eq(r[1], c.lo[1]))),
            ('lower side, leaning right: from the right at equal offsets', implies(and_(have, first, not_(right)), eq(r[0], c.hi[0] - o[0] * f))),
            ('lower side, leaning left: from the left at equal offsets', implies(and_(have, first, right), eq(r[0], c.lo[0] + o[0] * f))),
            ('upright side: on the edge the rays enter through', implies(and_(have, not_(first)), eq(r[0], ite(right, c.hi[0], c.lo[0])))),
            ('upright side: from the bottom at equal offsets', implies(and_(have, not_(first)), eq(r[1], c.lo[1] + o[1] * g))),
            ('origin within the box', implies(have, and_(le(c.lo[0], r[0]), le(r[0], c.hi[0]), le(c.lo[1], r[1]), le(r[1], c.hi[1]))))]


base = [Scalar('a'), Scalar('s'), Buf('lo', n=2), Buf('hi', n=2)]
T('mr_make', base + [Out('n', 'i4', n=3), Out('o', n=4)], pre=pre, post=make, fix=gen)
T('mr_all', base + [Int('i', 0, 2 ** 31 - 1), Out('n', 'i4', n=3), Out('o', n=4), Out('r', n=4)], pre=pre, post=lambda c: ray(c), fix=gen)
