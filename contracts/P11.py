"""P11: quadratic and cubic roots."""
from .lib import *
HARNESS = 'P11.cpp'
TARGETS = []
INV = R(10 ** 16)


def T(*a, **k): TARGETS.append(Target(*a, **k))


S = Scalar
Z = R(0)


def quad(c):
    a, b, c_, o = c.a, c.b, c.old.c, c.new.o
    disc = b * b - 4 * a * c_
    two = and_(ne(a, Z), le(Z, disc))
    lin = and_(eq(a, Z), ne(b, Z))
    return [('two real roots: both satisfy the equation', implies(two, and_(*[eq(a * x * x + b * x + c_, Z) for x in o]))),
            ('two real roots: they are all of them', implies(two, and_(eq(a * (o[0] + o[1]), -b), eq(a * o[0] * o[1], c_)))),
            ('two real roots: ascending', implies(two, le(o[0], o[1]))),
            ('linear: the root and a missing root', implies(lin, and_(eq(b * o[0] + c_, Z), eq(o[1], INV)))),
            ('no real root: both missing', implies(and_(not_(two), not_(lin)), and_(eq(o[0], INV), eq(o[1], INV))))]


def gq(d, rng):
    k = rng.random()
    if k < .15: d['a'] = 0.0
    elif k < .3: d['b'] = 0.0
    elif k < .4: d['c'] = 0.0
    elif k < .6:
        p, q, m = rng.randint(-4, 4), rng.randint(-4, 4), rng.choice([1, 2, -1, -.5])
        d['a'], d['b'], d['c'] = float(m), float(-m * (p + q)), float(m * p * q)


def gc(d, rng):
    k = rng.random()
    if k < .7:
        p, q, r, m = rng.randint(-4, 4), rng.randint(-4, 4), rng.randint(-4, 4) + rng.choice([0, .5]), rng.choice([1, 2, -1, -.5])
        d['a'], d['b'], d['c'], d['d'] = float(m), float(-m * (p + q + r)), float(m * (p * q + q * r + p * r)), float(-m * p * q * r)
    if rng.random() < .1: d['a'] = 0.0
    if rng.random() < .1: d['d'] = 0.0


T('rt_disc', [S('a'), S('b'), S('c')], 'f8', post=lambda c: [('b^2 - 4ac', eq(c.ret, c.b * c.b - 4 * c.a * c.old.c))])
T('rt_quad', [S('a'), S('b'), S('c'), Out('o', n=2)], post=quad, fix=gq)


def in_roots(x, o): return or_(*[eq(x, y) for y in o])


def cub_lin(c):
    b, c_, d, o = c.b, c.old.c, c.d, c.new.o
    disc = c_ * c_ - 4 * b * d
    return [('ascending', and_(le(o[0], o[1]), le(o[1], o[2]))), ('one missing root', eq(o[2], INV)),
            ('the others solve the quadratic', and_(*[or_(eq(x, INV), eq(b * x * x + c_ * x + d, Z)) for x in o])),
            ('missing exactly when there are no real roots', implies(and_(ne(b, Z), lt(disc, Z)), eq(o[0], INV)))]


small = lambda c: [le(abs_(x), R(10 ** 6)) for x in (c.b, c.old.c)]


def sane(*names):
    """coefficients that are zero or well away from it, so that no root reaches the sentinel"""
    def f(c):
        out = []
        for n in names:
            x = getattr(c.old, n)
            out.append(('coefficient zero or of moderate size', or_(eq(x, Z), and_(le(R(Fraction(1, 1000)), abs_(x)), le(abs_(x), R(1000))))))
        return out
    return f


def cub_zero(c):
    a, b, c_, o = c.a, c.b, c.old.c, c.new.o
    return [('ascending', and_(le(o[0], o[1]), le(o[1], o[2]))), ('zero is a root', in_roots(Z, o)),
            ('all satisfy the equation or are missing', and_(*[or_(eq(x, INV), eq(a * x * x * x + b * x * x + c_ * x, Z)) for x in o]))]


def cub(c):
    a, b, c_, d, o = c.a, c.b, c.old.c, c.d, c.new.o
    return [('ascending', and_(le(o[0], o[1]), le(o[1], o[2]))),
            ('all satisfy the equation or are missing', and_(*[or_(eq(x, INV), eq(a * x * x * x + b * x * x + c_ * x + d, Z)) for x in o])),
            ('at least one real root', implies(ne(a, Z), lt(o[0], INV)))]


T('rt_cub_lin', [S('b'), S('c'), S('d'), Out('o', n=3)], pre=sane('b', 'c', 'd'), post=cub_lin, fix=gc)
T('rt_cub_zero', [S('a'), S('b'), S('c'), Out('o', n=3)], pre=lambda c: sane('a', 'b', 'c')(c) + [ne(c.a, Z)], post=cub_zero, fix=gc)
T('rt_cub_order', [S('a'), S('b'), S('c'), S('d'), Out('o', n=3)], post=lambda c: [('ascending', and_(le(c.new.o[0], c.new.o[1]), le(c.new.o[1], c.new.o[2])))], fix=gc)
T('rt_cub', [S('a'), S('b'), S('c'), S('d'), Out('o', n=3)], pre=sane('a', 'b', 'c', 'd'), post=cub, fix=gc, tol=1e-6,
  bounded='the iterative root is approximate by design: accuracy is decided on sampled coefficients', samples=3000)
