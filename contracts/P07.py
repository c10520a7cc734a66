"""P07: Morton codes interleave coordinate bits exactly."""
from .lib import *
from irv.expr import bvop, BV
NOI = [r'12morton(Encode|Decode)(?!.*floating_point)']
UNITS = {'hw': dict(harness='P07.cpp', config=dict(BMI2=1)), 'sw': dict(harness='P07.cpp', config=dict(BMI2=0)),
         'hwf': dict(harness='P07.cpp', config=dict(BMI2=1), noinline=NOI), 'swf': dict(harness='P07.cpp', config=dict(BMI2=0), noinline=NOI)}
TARGETS = []


def T(u, fn, *a, **k):
    t = Target(fn, *a, **k)
    t.modkey = u
    t.name = u + ':' + fn
    TARGETS.append(t)


bit = lambda v, i: bvop('bvextract', 'V1', v, i)
Z1 = BV(0, 1)
ule = lambda a, b: bvop('bvule', 'B', a, b)


def interleaved(code, cs, w, nb):
    """bit i of coordinate j is bit (d*i + j) of the code; every other bit is zero"""
    d = len(cs)
    out = [eq(bit(code, d * i + j), bit(cs[j], i)) for i in range(nb) for j in range(d)]
    return and_(*out, *[eq(bit(code, i), Z1) for i in range(d * nb, w)])


def deinterleaved(code, cs, w, nb):
    d = len(cs)
    return and_(*[eq(bit(cs[j], i), bit(code, d * i + j)) if i < nb else eq(bit(cs[j], i), Z1) for i in range(w) for j in range(d)])


def words(w, d, bits):
    def g(dd, rng):
        for k in list(dd):
            if len(k) <= 2 and isinstance(dd[k], int):
                b = bits
                dd[k] = rng.choice([0, 1, (1 << b) - 1, 1 << (b - 1), rng.getrandbits(b), rng.getrandbits(b), rng.getrandbits(max(1, b // 2))])
    return g


BVO = dict(bv=True)
for u in ('hw', 'sw'):
    for p, w, k in (('a_', 32, 'w4'), ('b_', 64, 'w8')):
        S = lambda n, k=k: Scalar(n, k)
        for d in (2, 3):
            nb = w // d
            M = BV((1 << nb) - 1, w)
            names = ['x', 'y', 'z'][:d]
            inr = lambda c, M=M, names=names: [(n, ule(getattr(c, n), M)) for n in names]
            cs = lambda c, names=names: [getattr(c, n) for n in names]
            g = words(w, d, nb)
            T(u, p + 'enc%d' % d, [S(n) for n in names], k, pre=inr, fix=g, opts=BVO, post=lambda c, cs=cs, w=w, nb=nb: [('bits interleaved, coordinate zero lowest', interleaved(c.ret, cs(c), w, nb))])
            used = BV((1 << (d * nb)) - 1, w)
            T(u, p + 'dec%d' % d, [S('m'), Buf('o', k, n=d, mode='out')], pre=lambda c, used=used: [('a code', ule(c.m, used))], fix=words(w, d, d * nb), opts=BVO,
              post=lambda c, w=w, nb=nb: [('bits separated', deinterleaved(c.m, c.new.o, w, nb))])
            T(u, p + 'rt%d' % d, [S(n) for n in names] + [Buf('o', k, n=d, mode='out')], pre=inr, fix=g, opts=BVO, post=lambda c, cs=cs: [('decoding returns the coordinates', and_(*[eq(a, b) for a, b in zip(c.new.o, cs(c))]))])
            n2 = ['a', 'b', 'c_'][:d]
            T(u, p + 'mono%d' % d, [S(n) for n in names + n2], 'b', fix=g, opts=BVO,
              pre=lambda c, M=M, names=names, n2=n2: [(n, ule(getattr(c, n), M)) for n in names + n2] + [(n, ule(getattr(c, n), getattr(c, m))) for n, m in zip(names, n2)],
              post=lambda c: [('larger coordinates never get a smaller code', c.ret)])
            T(u, p + 'max%d' % d, [], k, opts=BVO, post=lambda c, M=M: [('largest coordinate', eq(c.ret, M))])


# codes of real coordinates: the integer coordinates are the truncated scaled values and stay in range
def enc_uf(mx):
    def h(ex, st, a, x, name):
        if any(not isinstance(v, E) or v.sort != 'I' for v in a): return NotImplemented
        for v in a: ex.oblige(st, 'integer coordinate within the representable range', and_(le(I(0), v), le(v, I(mx))), '')
        return [(st, app('code%d!' % len(a), tuple(a), 'I', *((-2 ** 31, 2 ** 31 - 1) if mx < 2 ** 20 else (-2 ** 63, 2 ** 63 - 1))))]
    return h


def dec_uf(w, mx):
    def h(ex, st, a, x, name):
        if not isinstance(a[0], E) or any(not isinstance(v, Ptr) for v in a[1:]): return NotImplemented
        for i, p in enumerate(a[1:]):
            v = app('part%d_%d!' % (len(a), i), (a[0],), 'I', 0, mx)
            ex.store(st, p, v, INTT(w))
        return [(st, None)]
    return h


from irv.ir import INT as INTT
for u in ('hw', 'sw'):
    for p, w, k, M2, M3 in (('d_', 64, 'f8', 2 ** 32 - 1, 2 ** 21 - 1), ('s_', 32, 'f4', 65535, 1023), ('t_', 32, 'f8', 65535, 1023)):
        iw = 'i8' if w == 64 else 'i4'
        for d, mx in ((2, M2), (3, M3)):
            names = ['x', 'y', 'z'][:d]
            hk = [(r'12mortonEncode(?!.*floating_point)', enc_uf(mx)), (r'12mortonDecode(?!.*floating_point)', dec_uf(w, mx))]
            T(u + 'f', p + 'fenc%d' % d, [Scalar(n, k, lo=0, hi=1) for n in names] + [Buf('o', iw, n=2, mode='out')], hooks=hk, post=lambda c: [('code of the truncated scaled coordinates', eq(c.new.o[0], c.new.o[1]))])
            T(u + 'f', p + 'fdec%d' % d, [Scalar('m', iw, lo=0, glo=0), Buf('o', k, n=d, mode='out'), Buf('c_', iw, n=d, mode='out')], hooks=hk, tol=1e-6 if k == 'f4' else 1e-9,
              pre=lambda c, d=d, w=w: [('a code', lt(c.m, I(2 ** (w // d * d))))],
              post=lambda c, d=d, mx=mx: [('coordinates divided by the largest', and_(*[eq(c.new.o[i] * R(mx), toreal(c.new.c_[i])) for i in range(d)])), ('inside the unit interval', and_(*[and_(le(R(0), c.new.o[i]), le(c.new.o[i], R(1))) for i in range(d)]))])
