"""P29: compositions of materials and their cross sections."""
import math
from .lib import *
from .souplib import put, rows
from .masses import MASS
SRCS = ['src/common/settings.cpp', 'src/common/logger.cpp', 'src/math/matrix.cpp', 'src/physics/nuclide.cpp', 'src/physics/cross_section.cpp', 'src/physics/cross_section_library.cpp']
UNITS = {
    'm': dict(harness='P29.cpp', noinline=LOG_NOINLINE, srcs=SRCS, extra=['-llapacke', '-lopenblas']),
    'tab': dict(harness='P29t.cpp', noinline=LOG_NOINLINE, srcs=SRCS, extra=['-llapacke', '-lopenblas'], optional=True),
}
TARGETS = []
AVO = 0.602214076
HEAP = dict(heap=False)


def T(*a, key='m', **k):
    k['hooks'] = LOG_HOOK + k.get('hooks', [])
    t = Target(*a, **k)
    t.modkey = key
    TARGETS.append(t)


def mat(null=False): return [Vec('d', 'f8', mode='inout', nullable=True, onlynull=null, maxlen=2 ** 20), Vec('z', 'i4', mode='inout', nullable=True, onlynull=null, maxlen=2 ** 20), Scalar('rho', 'f8')]
def same(c): return [('one density per nuclide', eq(c.d.len, c.z.len)), ('there is a density', lt(R(0), c.rho))]
def absent(c): return [('not yet in the material', forall(0, c.z.len, lambda i: not_(eq(c.z.at(i), c.zaid)))), ('a nuclide', lt(I(0), c.zaid))]


def gen(d, rng, n=None):
    zs = rng.sample(sorted(MASS), rng.randint(0, 6) if n is None else n)
    put(d, 'z', zs); put(d, 'd', [rng.uniform(1e-6, .1) for _ in zs]); d['rho'] = rng.choice([1., 10., rng.uniform(.01, 20)])


def fresh_(d, rng): return rng.choice([z for z in MASS if z not in d['z']])


def added(c, n):
    N = c.new
    return [('one more nuclide', and_(eq(N.z.len, c.z.len + 1), eq(N.d.len, c.d.len + 1))), ('it is the one named, with its density', and_(eq(N.z.at(c.z.len), c.zaid), eq(N.d.at(c.d.len), n))),
            ('others stay', and_(forall(0, c.z.len, lambda i: eq(N.z.at(i), c.z.at(i))), forall(0, c.d.len, lambda i: eq(N.d.at(i), c.d.at(i)))))]


T('m_add', mat() + [Int('zaid', 1, 2 ** 30), Scalar('n', 'f8')], fix=lambda d, rng: (gen(d, rng), d.update(zaid=fresh_(d, rng), n=rng.uniform(1e-6, .2))), opts=HEAP, pre=lambda c: same(c) + absent(c) + [('a density', lt(R(0), c.n))], post=lambda c: added(c, c.n))
T('m_num', mat() + [Int('i', 0, 2 ** 20), Out('o', 'f8', n=3)], 'i4', fix=lambda d, rng: (gen(d, rng), d.update(i=rng.randrange(max(1, len(d['z']))))), opts=HEAP, pre=lambda c: same(c) + [('exists', lt(c.i, c.z.len))],
  post=lambda c: [('as many as were added', eq(c.ret, c.z.len)), ('its density and number', and_(eq(c.new.o[0], c.d.at(c.i)), eq(c.new.o[1], toreal(c.z.at(c.i))), eq(c.new.o[2], c.rho)))])


def gentab(d, rng):
    gen(d, rng)
    L = rng.sample(sorted(MASS), rng.randint(1, 8))
    L = [z for z in L if z not in d['z']] or [7777]
    d['zaid'] = rng.choice(L); d['w'] = rng.choice([1., .5, rng.uniform(.001, 1)])
    d['tab.z'] = L; d['tab.m'] = [rng.uniform(1, 250) for _ in L]; d['tab.len'] = d['tab.cap'] = len(L)


T('m_wt_any', mat() + [Vec('tab', [('z', 'i4'), ('m', 'f8')], exactcap=True, minlen=1, maxlen=2 ** 20), Int('zaid', 1, 2 ** 30), Scalar('w', 'f8')], key='tab', fix=gentab, opts=HEAP,
  pre=lambda c: same(c) + absent(c) + [('a fraction', and_(lt(R(0), c.w), le(c.w, R(1)))), ('the table names the nuclide', exists(0, c.tab.len, lambda j: eq(c.tab.at(j, 'z'), c.zaid))), ('each nuclide once', forall(0, c.tab.len, lambda j: forall(0, j, lambda i: not_(eq(c.tab.at(i, 'z'), c.tab.at(j, 'z')))))),
                                       ('masses are positive', forall(0, c.tab.len, lambda j: lt(R(0), c.tab.at(j, 'm'))))],
  post=lambda c: added(c, c.new.d.at(c.d.len)) + [('number density times mass is weight fraction times density times the Avogadro number', forall(0, c.tab.len, lambda j: implies(eq(c.tab.at(j, 'z'), c.zaid), eq(c.new.d.at(c.d.len) * c.tab.at(j, 'm'), c.w * c.rho * R(AVO)))))])

U = [(92234, 234.040946), (92235, 235.043923), (92236, 236.045562), (92238, 238.050783)]
GD = [(64152, .2, 151.919786), (64154, 2.18, 153.920861), (64155, 14.8, 154.922618), (64156, 20.47, 155.922118), (64157, 15.65, 156.923956), (64158, 24.84, 157.924019), (64160, 21.86, 159.927049)]
MO = 15.9949146


def uo2(c, gad):
    N = c.new
    zs = [z for z, m in U] + ([g[0] for g in GD] if gad else []) + [8016]
    n = [N.d.at(i) for i in range(len(zs))]
    fr = [c.w * R(.0089), c.w, c.w * R(.0046)]
    fr.append(1 - fr[0] - fr[1] - fr[2])
    mu = sum((x * R(m) for x, (z, m) in zip(n[1:4], U[1:])), n[0] * R(U[0][1]))
    nu = n[0] + n[1] + n[2] + n[3]
    out = [('the nuclides of the mixture', and_(eq(N.z.len, I(len(zs))), eq(N.d.len, I(len(zs))), *[eq(N.z.at(i), I(z)) for i, z in enumerate(zs)]))]
    lit = R
    q = c.rho * lit(AVO) * (1 - c.g)
    den = fr[0] / lit(U[0][1]) + fr[1] / lit(U[1][1]) + fr[2] / lit(U[2][1]) + fr[3] / lit(U[3][1])
    for i, (z, m) in enumerate(U):
        out.append(('%d: its weight fraction of the uranium in the dioxide' % z, eq(n[i] * lit(m) * (1 + 2 * lit(MO) * den), q * fr[i])))
    ngd = sum(n[5:11], n[4]) if gad else R(0)
    tot = R(Fraction(0))
    if gad:
        mg = sum(Fraction(str(a)) / 100 * Fraction(str(m)) for _, a, m in GD)
        want = c.rho * lit(AVO) * c.g * 2 / R(2 * mg + 3 * Fraction(str(MO)))
        for j, (z, a, m) in enumerate(GD):
            w = want * R(Fraction(str(a)) / 100)
            out.append(('%d: its natural share of the gadolinium in the oxide' % z, and_(le(w * R(Fraction(9999999, 10 ** 7)), n[4 + j]), le(n[4 + j], w * R(Fraction(10000001, 10 ** 7))))))
    out.append(('two oxygen atoms per uranium, three per two of gadolinium', near(n[-1], 2 * nu + ngd * R(Fraction(3, 2)))))
    return out


def near(a, b): return and_(le(b * R(Fraction(9999999, 10 ** 7)), a), le(a, b * R(Fraction(10000001, 10 ** 7))))


def genuo2(gad):
    def f(d, rng):
        put(d, 'z', []); put(d, 'd', []); d['rho'] = rng.uniform(1, 12); d['w'] = rng.choice([.02, .05, rng.uniform(.001, .9)])
        d['g'] = rng.uniform(.001, .9) if gad else 0.
    return f


for fn, gad in (('m_uo2', False), ('m_uo2g', True)):
    T(fn, mat(True) + [Scalar('w', 'f8', 0), Scalar('g', 'f8', 0)], fix=genuo2(gad), opts=HEAP, budget=120,
      pre=lambda c, gad=gad: same(c) + [('an enrichment', and_(lt(R(0), c.w), lt(c.w, R(Fraction('0.98'))), le(R(0), c.g), lt(c.g, R(1)))), ('gadolinium or not', lt(R(0), c.g) if gad else eq(c.g, R(0)))], post=lambda c, gad=gad: uo2(c, gad))

# ------------------------------------------------------------------ bounded: the table of masses is set up before main
TAB = 'the table of atomic masses is filled when the program starts, which the prover does not follow; '


def has(d, out, new):
    z, n = list(out['new.z']), [float(v) for v in out['new.d']]
    if z != list(d['z']) + [k for k, _ in new] or len(n) != len(z): return 'the nuclides named are added once each, after those already there'
    w = list(d['d']) + [v for _, v in new]
    if any(abs(a - b) > 1e-9 * abs(b) for a, b in zip(n, w)): return 'number densities follow from density, percentage and atomic mass; others stay'


def wt(d, out):
    zz = d.get('zaid') or 1000 * d['e'] + d['a']
    return has(d, out, [(zz, d['w'] * d['rho'] * AVO / MASS[zz])])


def atom(d, out):
    m = sum(p * MASS[z] for z, p in zip(d['e'], d['p']))
    return has(d, out, [(z, p * d['rho'] * AVO / m) for z, p in zip(d['e'], d['p'])])


def genatom(d, rng):
    gen(d, rng)
    L = rng.sample([z for z in MASS if z not in d['z']], rng.randint(1, 5))
    w = [rng.uniform(.01, 1) for _ in L]
    put(d, 'e', L); put(d, 'p', [x / sum(w) if rng.random() < .999 else x for x in w])


pct = lambda d, rng: d.update(w=rng.choice([1., .5, rng.uniform(.001, 1)]))
T('m_wt', mat() + [Int('zaid', 1, 10 ** 6), Scalar('w', 'f8')], fix=lambda d, rng: (gen(d, rng), d.update(zaid=fresh_(d, rng)), pct(d, rng)), opts=HEAP, check=wt, bounded=TAB + 'materials of up to 6 nuclides', samples=3000)
el = lambda d, rng: (gen(d, rng), (lambda z: d.update(e=z // 1000, a=z % 1000))(fresh_(d, rng)))
T('m_wt_s', mat() + [Int('e', 1, 118), Int('a', 0, 999), Scalar('w', 'f8')], fix=lambda d, rng: (el(d, rng), pct(d, rng)), opts=HEAP, check=wt, bounded=TAB + 'materials of up to 6 nuclides', samples=3000)
T('m_add_s', mat() + [Int('e', 1, 118), Int('a', 0, 999), Scalar('n', 'f8')], fix=lambda d, rng: (el(d, rng), d.update(n=rng.uniform(1e-6, .2))), opts=HEAP, check=lambda d, out: has(d, out, [(1000 * d['e'] + d['a'], d['n'])]), bounded='symbols as text; materials of up to 6 nuclides', samples=3000)
T('s_zaid', [Int('e', 1, 118), Int('a', 0, 999)], 'i4', fix=lambda d, rng: d.update(e=rng.randint(1, 118), a=rng.choice([rng.randint(1, 300), rng.randint(1, 999)])), opts=HEAP, post=lambda c: [('1000 times the atomic number plus the mass number', eq(c.ret, c.e * 1000 + c.a))], bounded='symbols as text: all elements, mass numbers up to 999', samples=4000)
T('m_atom', mat() + [Vec('e', 'i4', exactcap=True, minlen=1, maxlen=64), Vec('p', 'f8', exactcap=True, minlen=1, maxlen=64)], fix=genatom, opts=HEAP, check=atom, bounded=TAB + 'up to 5 nuclides added to up to 6', samples=3000)


def genxs(d, rng):
    n = rng.randint(1, 4)
    gen(d, rng, n)
    lib = list(d['z']) + rng.sample([z for z in MASS if z not in d['z']], rng.randint(0, 3))
    rng.shuffle(lib)
    ng = d['ng'] = rng.randint(1, 4); nt = rng.randint(1, 4)
    u = 300.; L = []
    for _ in range(nt): L.append(u); u += rng.uniform(10, 300)
    put(d, 'u', L); put(d, 'lib', lib); put(d, 'fis', [int(rng.random() < .3) for _ in lib])
    d['T'] = rng.choice([rng.choice(L), rng.uniform(100, u)])
    R_ = []
    for j in range(len(lib) * nt):
        r = [rng.choice([0., 1., rng.uniform(0, 3)]) for _ in range(5 * ng + ng * ng)]
        if not d['fis'][j // nt]: r[ng:3 * ng] = [0.] * (2 * ng)
        R_.append(r)
    rows(d, 'x', R_)


def xs(d, out):
    u, T_, nt = d['u'], d['T'], len(d['u'])
    acc = [0.] * len(d['x'][0])
    fis = 0
    for z, dens in zip(d['z'], d['d']):
        j = d['lib'].index(z)
        X_ = d['x'][j * nt:(j + 1) * nt]
        fis |= d['fis'][j]
        if nt == 1 or T_ <= u[0]: w = X_[0]
        elif T_ >= u[-1]: w = X_[-1]
        else:
            i = max(k for k in range(nt) if u[k] <= T_)
            f = (math.sqrt(T_) - math.sqrt(u[i])) / (math.sqrt(u[i + 1]) - math.sqrt(u[i]))
            w = [p + f * (q - p) for p, q in zip(X_[i], X_[i + 1])]
        acc = [a + dens * v for a, v in zip(acc, w)]
    o = [float(v) for v in out['new.o']]
    if len(o) != len(acc) or any(abs(a - b) > 1e-9 * max(1, abs(b)) for a, b in zip(o, acc)): return 'every entry is the sum of the interpolated nuclide data weighted by number density'
    if [out['new.w[%d]' % i] for i in range(6)] != [d['ng'], 1, fis, d['ng'], d['ng'], 1]: return 'macroscopic, of the right size, fissile exactly if a nuclide is'
    if list(out['new.z']) != list(d['z']) or [float(v) for v in out['new.d']] != list(d['d']): return 'the composition stays'


T('m_xs', mat() + [Scalar('T', 'f8'), Int('ng', 1, 64, ghi=4), Vec('lib', 'i4', exactcap=True, minlen=1, maxlen=64), Vec('fis', 'i4', exactcap=True, minlen=1, maxlen=64), Vec('u', 'f8', exactcap=True, minlen=1, maxlen=64), Rows('x', 'f8'), Vec('o', 'f8', mode='inout', onlynull=True), Out('w', 'i4', n=6)],
  fix=genxs, opts=HEAP, check=xs, bounded='materials of up to 4 nuclides, libraries of up to 7, 4 groups, 4 temperatures', samples=3000)
