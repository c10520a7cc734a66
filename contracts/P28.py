"""P28: collapsing and interpolating cross sections."""
import math
from .lib import *
from .P24 import over, plain
from .souplib import put, rows
HARNESS = 'P28.cpp'
NATIVE_SRCS = ['src/common/settings.cpp', 'src/common/logger.cpp', 'src/math/matrix.cpp']
NATIVE_EXTRA = ['-llapacke', '-lopenblas']
NOINLINE = LOG_NOINLINE + [r'um24meanI', r'XSec8validate']
TARGETS = []
NG = 2 ** 12
FIELDS = ('a', 'f', 'n', 't', 's', 'm')
SAY = dict(a='absorption', f='fission', n='nu-fission', t='transport', s='scattering', m='scattering matrix')


def mean(ex, st, a, x, name):
    """um2::mean (P12 st_mean): the sum over the length"""
    if len(a) != 2 or not all(isinstance(p, Ptr) for p in a) or a[0].obj is not a[1].obj: return NotImplemented
    n = over(sub(a[1].off, a[0].off), 8); lo = over(a[0].off, 8)
    k = plain(ex, st, a[0])
    if k is None: return NotImplemented
    ex.oblige(st, 'mean of a non-empty range', lt(I(0), n), name)
    ex.oblige(st, 'mean reads inside the storage', and_(le(I(0), lo), le((lo + n) * 8, st.mem[a[0].obj].size)), name)
    return [(st, Sum(I(0), n, lambda i: aread(k[1], a[0].keys + (lo + i,))) / toreal(n))]


def checked(ex, st, a, x, name):
    """XSec::validate only reports (x_valid)"""
    return [(st, None)]


def T(*a, **k):
    k['hooks'] = LOG_HOOK + k.get('hooks', [])
    TARGETS.append(Target(*a, **k))


def data(x='', mode='in'): return [Vec(q + x, 'f8', exactcap=True, mode=mode, minlen=1, maxlen=NG * NG) for q in FIELDS]
def res(): return [Vec(q, 'f8', mode='inout', onlynull=True) for q in FIELDS]
def sized(*xs): return lambda c: [('one value per group', and_(*[and_(*[eq(getattr(c, q + x).len, c.ng) for q in FIELDS[:5]]) for x in xs])), ('square scattering matrix', and_(*[eq(getattr(c, 'm' + x).len, c.ng * c.ng) for x in xs]))]


def gen(*xs, then=None):
    def f(d, rng):
        ng = d['ng'] = rng.choice([1, 1, 2, 2, 3, 4, 5, 7])
        for x in xs:
            m = [[rng.choice([0., 1., rng.uniform(0, 3)]) for _ in range(ng)] for _ in range(ng)]      # by columns
            for q in FIELDS[:4]: put(d, q + x, [rng.choice([0., 1., rng.uniform(0, 3)]) for _ in range(ng)])
            put(d, 's' + x, [sum(c) for c in m]); put(d, 'm' + x, [v for c in m for v in c])
        if then: then(d, rng)
    return f


ng = lambda: Int('ng', 1, NG, ghi=5)
flag = lambda n: Int(n, 0, 1)
T('x_total', [ng()] + data() + [Int('g', 0, NG)], 'f8', pre=lambda c: sized('')(c) + [('a group', lt(c.g, c.ng))], fix=gen('', then=lambda d, rng: d.update(g=rng.randrange(d['ng']))), opts=dict(heap=False),
  post=lambda c: [('absorption plus scattering', eq(c.ret, c.a.at(c.g) + c.s.at(c.g)))])
SZ = lambda c, n, macro, fiss: [('number of groups', and_(eq(c.new.w[0], n), eq(c.new.w[3], n), eq(c.new.w[4], n))), ('kind', and_(eq(c.new.w[1], macro), eq(c.new.w[2], fiss)))]


def tot(v, n): return Sum(0, n, lambda i: v.at(i))


T('x_collapse', [ng(), flag('macro'), flag('fissile')] + data() + [Out('o', 'f8', n=6), Out('w', 'i4', n=5)], fix=gen(''), opts=dict(heap=False), hooks=[(r'um24mean', mean), (r'XSec\d+validate', checked)],
  pre=lambda c: sized('')(c) + [('the total scattering is that of the matrix', lt(abs_(tot(c.s, c.s.len) / toreal(c.s.len) - toreal(c.ng) * (tot(c.m, c.m.len) / toreal(c.m.len))), R(1e-6)))],
  post=lambda c: SZ(c, I(1), c.macro, c.fissile) + [(SAY[q] + ' is the mean over the groups', eq(c.new.o[i] * toreal(c.ng), tot(getattr(c, q), getattr(c, q).len))) for i, q in enumerate(FIELDS[:5])] +
  [('scattering matrix: mean over the groups of the total out of a group', eq(c.new.o[5] * toreal(c.m.len), toreal(c.ng) * tot(c.m, c.m.len)))])
T('x_valid', [ng(), flag('macro'), flag('fissile')] + data() + [Out('w', 'i4', n=5)], fix=gen(''), opts=dict(heap=False), pre=sized(''), post=lambda c: SZ(c, c.ng, c.macro, c.fissile))


def interp(c, us):
    n = len(us)
    T_ = c.T
    val = lambda q, i, g: getattr(c, q + str(i)).at(g)
    def want(q, g):
        r = val(q, n - 1, g)
        for i in reversed(range(n - 1)):
            d = (sqrt(T_) - sqrt(us[i])) / (sqrt(us[i + 1]) - sqrt(us[i]))
            r = ite(lt(T_, us[i + 1]), val(q, i, g) + d * (val(q, i + 1, g) - val(q, i, g)), r)
        return ite(le(T_, us[0]), val(q, 0, g), r)
    out = SZ(c, c.ng, I(0), c.fissile)
    for q in FIELDS:
        m = c.ng * c.ng if q == 'm' else c.ng
        out.append((SAY[q] + ': size', eq(getattr(c.new, q).len, m)))
        if q != 'm': out.append((SAY[q] + ': linear in the square root of temperature, constant outside the table', forall(0, m, lambda g, q=q: eq(getattr(c.new, q).at(g), want(q, g)))))
        else: out.append((SAY[q] + ': linear in the square root of temperature, constant outside the table', forall(0, c.ng, lambda g, q=q: forall(0, c.ng, lambda h: eq(getattr(c.new, q).at(g * c.ng + h), want(q, g * c.ng + h))))))
    return out


def temps(n):
    def f(d, rng):
        u = rng.choice([300., rng.uniform(1, 500)]); L = []
        for i in range(n): L.append(u); u += rng.choice([100., rng.uniform(1, 400)])
        for i, v in enumerate(L): d['u%d' % i] = v
        d['T'] = rng.choice([rng.choice(L), rng.uniform(L[0] / 2, L[-1] * 1.3), rng.uniform(L[0], L[-1])])
    return f


def entries(c, us):
    pass


for n in (1, 2, 3):
    us = lambda c, n=n: [getattr(c, 'u%d' % i) for i in range(n)]
    xs = [str(i) for i in range(n)]

    def invs(L, n=n):
        """entries of the scattering matrix written so far, column by column"""
        old = L.ex.old; ks = enclosing(L); N = old.ng; out = []
        us_ = [getattr(old, 'u%d' % i) for i in range(n)]
        W = sorted(written(L), key=lambda w: [int(t) for t in re.findall(r'\d+', w[0].name)])
        if len(W) == 1 and ks: W = [('m', W[0])]
        elif len(W) == 6 and not ks: W = list(zip(FIELDS, W))       # in the order in which a cross section allocates them
        else: return out
        for q, (o, key, rd, _) in W:
            for i in range(n - 1):
                nm = ' %s %d' % (q, i)
                d = (sqrt(old.T) - sqrt(us_[i])) / (sqrt(us_[i + 1]) - sqrt(us_[i]))
                A, B = getattr(old, q + str(i)), getattr(old, q + str(i + 1))
                if q == 'm':
                    w = lambda g, h, A=A, B=B, d=d: A.at(g * N + h) + d * (B.at(g * N + h) - A.at(g * N + h))
                    rows_ = lambda lv, m, rd=rd, w=w: forall(0, m, lambda g: forall(0, N, lambda h: eq(rd(lv, g * N + h), w(g, h))))
                    if not ks: out.append(('columns done' + nm, lambda lv, r=rows_: r(lv, lv.k)))
                    else:
                        out.append(('earlier columns' + nm, lambda lv, r=rows_: r(lv, ks[0])))
                        out.append(('this column so far' + nm, lambda lv, rd=rd, w=w: forall(0, lv.k, lambda h: eq(rd(lv, ks[0] * N + h), w(ks[0], h)))))
                else: out.append(('groups done' + nm, lambda lv, rd=rd, A=A, B=B, d=d: forall(0, lv.k, lambda g: eq(rd(lv, g), A.at(g) + d * (B.at(g) - A.at(g))))))
        return out
    T('n_interp%d' % n, [ng(), flag('fissile')] + [Scalar('u%d' % i, 'f8') for i in range(n)] + [p for x in xs for p in data(x)] + [Scalar('T', 'f8')] + res() + [Out('w', 'i4', n=5)], fix=gen(*xs, then=temps(n)), opts=dict(heap=False, lean=True, unroll=4), inv=invs,
      pre=lambda c, us=us, xs=xs: sized(*xs)(c) + [('temperatures are positive and ascend', and_(lt(R(0), us(c)[0]), lt(R(0), c.T), *[lt(a, b) for a, b in zip(us(c), us(c)[1:])]))], post=lambda c, us=us: interp(c, us(c)), budget=150)


def table(d, out):
    ng, u, X_, T_ = d['ng'], d['u'], d['x'], d['T']
    if T_ <= u[0] or len(u) == 1: w = X_[0]
    elif T_ >= u[-1]: w = X_[-1]
    else:
        i = max(k for k in range(len(u)) if u[k] <= T_)
        f = (math.sqrt(T_) - math.sqrt(u[i])) / (math.sqrt(u[i + 1]) - math.sqrt(u[i]))
        w = [p + f * (q - p) for p, q in zip(X_[i], X_[i + 1])]
    o = out['new.o']
    if len(o) != len(w) or any(abs(float(p) - q) > 1e-9 * max(1, abs(q)) for p, q in zip(o, w)): return 'every entry is linear in the square root of temperature, constant outside the table'
    if [out['new.w[%d]' % i] for i in range(5)] != [ng, 0, d['fissile'], ng, ng]: return 'number of groups and kind'


def gentable(d, rng):
    ng = d['ng'] = rng.choice([1, 2, 3, 5]); n = rng.randint(1, 8)
    temps(n)(d, rng)
    put(d, 'u', [d.pop('u%d' % i) for i in range(n)])
    rows(d, 'x', [[rng.choice([0., 1., rng.uniform(0, 3)]) for _ in range(5 * ng + ng * ng)] for _ in range(n)])


T('n_table', [ng(), flag('fissile'), Vec('u', 'f8', exactcap=True, minlen=1, maxlen=64), Rows('x', 'f8'), Scalar('T', 'f8'), Vec('o', 'f8', mode='inout', onlynull=True), Out('w', 'i4', n=5)], fix=gentable, opts=dict(heap=False), check=table, bounded='tables of up to 8 temperatures and 5 groups', samples=3000)
