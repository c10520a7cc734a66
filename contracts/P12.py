"""P12: statistics."""
from .lib import *
HARNESS = 'P12.cpp'
NOINLINE = ['pairwiseSum']

MAXN = 2**31 - 1
seq = lambda: Arr('b', 'f8', 'n')
n1 = lambda lo=1: Int('n', lo, MAXN, ghi=400)


def S(c, n=None): return Sum(0, c.n if n is None else n, lambda i: c.b.at(i))


def recursive_sum(ex, st, a, x, name):
    """contract of the recursive summation helper, used at every call the function makes to itself"""
    if name not in ex.callstack or len(a) != 2: return NotImplemented
    b, e = a
    ex.oblige(st, 'recursive sum: called with a non-empty range', lt(b.off, e.off))
    lo, hi = ex.sum_args
    ex.oblige(st, 'recursive sum: strictly shorter range', lt(sub(e.off, b.off), sub(hi.off, lo.off)))
    return [(st, Sum(idiv(b.off, I(8)), idiv(e.off, I(8)), lambda i: ex.old.b.at(i)))]


def enter_sum(ex, st, a, x, name):
    if len(a) == 2 and name not in ex.callstack: ex.sum_args = a
    return NotImplemented


import re
PW = [(re.compile(r'.*[sS]um.*'), recursive_sum), (re.compile(r'.*[sS]um.*'), enter_sum)]


def sorted_(c): return [('sorted', forall(0, c.n - 1, lambda i: le(c.b.at(i), c.b.at(i + 1))))]


def median(c):
    n = c.n
    h = idiv(n, I(2))
    return [('odd length: the middle element', implies(eq(imod(n, I(2)), I(1)), eq(c.ret, c.b.at(h)))),
            ('even length: the mean of the two middle elements', implies(eq(imod(n, I(2)), I(0)), eq(c.ret * 2, c.b.at(h) + c.b.at(h - 1))))]


def sort_b(d, rng): d['b'] = sorted(d['b'])


def variance(c):
    n = toreal(c.n)
    m = S(c)
    sq = Sum(0, c.n, lambda i: c.b.at(i) * c.b.at(i))
    # (n-1) * var = sum x^2 - (sum x)^2 / n
    return [('variance is the unbiased sample variance', eq(c.ret * (n - 1) * n, sq * n - m * m))]


def stddev(c):
    n = toreal(c.n)
    m = S(c)
    sq = Sum(0, c.n, lambda i: c.b.at(i) * c.b.at(i))
    return [('standard deviation squared is the variance', eq(c.ret * c.ret * (n - 1) * n, sq * n - m * m)), ('non-negative', le(R(0), c.ret))]


def var_inv(L):
    b = L.ex.old.b
    s1 = lambda k: Sum(0, k, lambda i: b.at(i))
    s2 = lambda k: Sum(0, k, lambda i: b.at(i) * b.at(i))
    out = []
    for g in L.reals():
        out.append(('running mean', lambda lv, g=g: eq(g(lv) * toreal(lv.k), s1(lv.k))))
        for h in L.reals():
            if h is not g: out.append(('running squared deviation', lambda lv, g=g, h=h: eq(g(lv), s2(lv.k) - h(lv) * s1(lv.k))))
    return out


TARGETS = [
    Target('st_sum', [seq(), n1()], 'f8', post=lambda c: [('sum of all elements', eq(c.ret, S(c)))], hooks=PW, about='um2::sum'),
    Target('st_mean', [seq(), n1()], 'f8', post=lambda c: [('mean times length is the sum', eq(c.ret * toreal(c.n), S(c)))], hooks=PW, about='um2::mean'),
    Target('st_median', [seq(), n1()], 'f8', pre=sorted_, post=median, fix=sort_b, about='um2::median'),
    Target('st_variance', [seq(), n1(2)], 'f8', post=variance, inv=var_inv, about='um2::variance'),
    Target('st_stddev', [seq(), n1(2)], 'f8', post=stddev, inv=var_inv, about='um2::stdDev'),
]
