"""P30: the reactor model hierarchy."""
import math
from .lib import *
HARNESS = 'P30.cpp'
NOINLINE = LOG_NOINLINE + [r'FaceVertexMesh.*validate']
NATIVE_EXTRA = ['-lpugixml', '-L/usr/lib/x86_64-linux-gnu/hdf5/serial', '-lhdf5_cpp', '-lhdf5', '-llapacke', '-lopenblas']
NATIVE_SRCS = ['src/mesh/polytope_soup.cpp', 'src/mesh/face_vertex_mesh.cpp', 'src/math/matrix.cpp', 'src/physics/nuclide.cpp', 'src/physics/cross_section.cpp', 'src/physics/cmfd.cpp',
               'src/physics/cross_section_library.cpp', 'src/physics/material.cpp', 'src/common/settings.cpp', 'src/common/logger.cpp']
TARGETS = []
TRI, QUAD, Q8 = 3, 4, 8


class Model:
    """what the additions of a script must leave behind"""

    def __init__(s): s.clear()

    def clear(s):
        s.cc, s.rtm, s.lat, s.asy, s.mat = [], [], [], [], []
        s.mesh = {TRI: [], QUAD: [], Q8: []}
        s.core = None

    def counts(s): return [len(s.cc), len(s.rtm), len(s.lat), len(s.asy), len(s.mesh[TRI]), len(s.mesh[QUAD]), len(s.mesh[Q8]), len(s.mat), len(s.core[2]) if s.core else 0]

    @staticmethod
    def grid(rows, ext):
        """divisions of the grid of the rows (top row first), or None when the sizes do not fit"""
        R_ = rows[::-1]
        if len({len(r) for r in R_}) != 1: return None
        w = [ext[i][0] for i in R_[0]]
        for r in R_:
            if len({ext[i][1] for i in r}) != 1 or [ext[i][0] for i in r] != w: return None
        xs, ys = [0.], [0.]
        for v in w: xs.append(xs[-1] + v)
        for r in R_: ys.append(ys[-1] + ext[r[0]][1])
        return xs, ys, [i for r in R_ for i in r]

    def add_cc(s, ex, ey, t, mesh, ids):
        if ex <= 0 or ey <= 0: return -1
        if mesh != -1:
            if t not in s.mesh or not 0 <= mesh < len(s.mesh[t]) or len(ids) != len(s.mesh[t][mesh]['face']): return -1
            if any(not 0 <= i < len(s.mat) for i in ids): return -1
        s.cc.append((ex, ey, t, mesh, ids))
        return len(s.cc) - 1

    def add_rtm(s, rows):
        if any(not 0 <= i < len(s.cc) for r in rows for i in r): return -1
        g = s.grid(rows, s.cc)
        if s.rtm and (abs(s.rtm[0][0][-1] - g[0][-1]) > 1e-6 or abs(s.rtm[0][1][-1] - g[1][-1]) > 1e-6): return -1
        s.rtm.append(g)
        return len(s.rtm) - 1

    def add_lat(s, rows):
        if any(not 0 <= i < len(s.rtm) for r in rows for i in r) or len({len(r) for r in rows}) != 1: return -1
        w, h = s.rtm[0][0][-1], s.rtm[0][1][-1]
        s.lat.append((len(rows[0]), len(rows), w, h, [i for r in rows[::-1] for i in r]))
        return len(s.lat) - 1

    def add_asy(s, ids, z):
        near = lambda a, b: abs(a - b) <= 1e-6
        if any(not 0 <= i < len(s.lat) for i in ids) or len(ids) + 1 != len(z) or sorted(z) != list(z): return -1
        if not (near(z[0], -.5) and near(z[-1], .5)) and not near(z[0], 0): return -1
        if s.asy and not (near(z[-1], s.asy[0][1][-1]) and near(z[0], s.asy[0][1][0])): return -1
        if len({s.lat[i][:2] for i in ids}) != 1: return -1
        s.asy.append((ids, z))
        return len(s.asy) - 1

    def asyext(s): return [(s.lat[a[0][0]][0] * s.lat[a[0][0]][2], s.lat[a[0][0]][1] * s.lat[a[0][0]][3]) for a in s.asy]

    def add_core(s, rows):
        if s.core or any(not 0 <= i < len(s.asy) for r in rows for i in r): return -1
        s.core = s.grid(rows, s.asyext())
        return 0

    def add_rect(s, ex, ey, nx, ny):
        if ex <= 0 or ey <= 0 or nx <= 0 or ny <= 0: return -1
        a, b = ex / nx, ey / ny
        s.mesh[QUAD].append(dict(face=[(a * b, (i + .5) * a, (j + .5) * b) for j in range(ny) for i in range(nx)]))
        return len(s.mesh[QUAD]) - 1

    def add_cyl(s, p, rings, radii, na, order):
        if order not in (1, 2) or na < 8 or na & (na - 1) or len(rings) != len(radii) or any(r > p / 2 for r in radii): return -1
        areas, prev = [], 0.
        for r, n in zip(radii, rings):
            areas += [math.pi * (r * r - prev * prev) / n] * n
            prev = r
        areas.append(p * p - math.pi * prev * prev)
        t = QUAD if order == 1 else Q8
        s.mesh[t].append(dict(face=[None] * (na * len(areas)), ring=areas, na=na, pitch=p, order=order))
        return len(s.mesh[t]) - 1

    def add_pin(s, p, rings, radii, na, order, names):
        known = [m[0] for m in s.mat]
        if len(names) != len(rings) + 1 or any(x not in known for x in names): return -1
        m = s.add_cyl(p, rings, radii, na, order)
        if m < 0: return -1
        ids = [known.index(x) for x, n in zip(names, rings + [1]) for _ in range(n * na)]
        return s.add_cc(p, p, QUAD if order == 1 else Q8, m, ids)

    def add_tri(s, w):
        f, at = [], 0.
        for x in w:
            f += [(x / 2, at + x / 3, 1 / 3), (x / 2, at + 2 * x / 3, 2 / 3)]
            at += x
        s.mesh[TRI].append(dict(face=f))
        return len(s.mesh[TRI]) - 1

    def add_grid(s, ex, ey, nx, ny):
        if ex <= 0 or ey <= 0 or nx <= 0 or ny <= 0: return 0
        a, b = ex / nx, ey / ny
        for i in range(nx * ny):
            s.add_cc(a, b, 0, -1, [])
            s.add_rtm([[i]])
        s.add_lat([[j * nx + i for i in range(nx)] for j in range(ny)][::-1])
        s.add_asy([0], [-.5, .5])
        s.add_core([[0]])
        return 0

    def step(s, op):
        k, a = op[0], op[1:]
        if k == 12: s.clear(); return 0
        if k == 7: s.mat.append(a); return len(s.mat) - 1
        return {1: s.add_cc, 2: s.add_rtm, 3: s.add_lat, 4: s.add_asy, 5: s.add_core, 6: s.add_rect, 8: s.add_cyl, 9: s.add_pin, 10: s.add_grid, 11: s.add_tri}[k](*a)


def flat(op):
    """integers and numbers of one step, as the harness reads them"""
    k, a = op[0], op[1:]
    rows = lambda R_: [len(R_)] + [x for r in R_ for x in [len(r)] + r]
    lst = lambda L: [len(L)] + L
    if k == 1: return [k, a[2], a[3]] + lst(a[4]), [a[0], a[1]]
    if k in (2, 3, 5): return [k] + rows(a[0]), []
    if k == 4: return [k] + lst(a[0]) + [len(a[1])], list(a[1])
    if k in (6, 10): return [k, a[2], a[3]], [a[0], a[1]]
    if k == 7: return [k, a[0]], list(a[1])
    if k == 8: return [k] + lst(a[1]) + [len(a[2]), a[3], a[4]], [a[0]] + a[2]
    if k == 9: return [k] + lst(a[1]) + [len(a[2]), a[3], a[4]] + lst(a[5]), [a[0]] + a[2]
    if k == 11: return [k, len(a[0])], list(a[0])
    return [12], []


def parse(s, f):
    """the steps of a script"""
    s, f = list(s), list(f)
    i = lambda: s.pop(0)
    x = lambda: f.pop(0)
    ints = lambda: [i() for _ in range(i())]
    out = []
    while s:
        k = i()
        if k == 1:
            ex, ey = x(), x(); t, m = i(), i(); out.append((k, ex, ey, t, m, ints()))
        elif k in (2, 3, 5): out.append((k, [ints() for _ in range(i())]))
        elif k == 4:
            ids = ints(); out.append((k, ids, [x() for _ in range(i())]))
        elif k in (6, 10):
            ex, ey = x(), x(); out.append((k, ex, ey, i(), i()))
        elif k == 7: out.append((k, i(), [x() for _ in range(14)]))
        elif k in (8, 9):
            p = x(); rings = ints(); radii = [x() for _ in range(i())]; na, od = i(), i()
            out.append((k, p, rings, radii, na, od) + ((ints(),) if k == 9 else ()))
        elif k == 11: out.append((k, [x() for _ in range(i())]))
        else: out.append((12,))
    return out


def script(d, rng):
    M, ops = Model(), []
    SZ = [1., 1., 2., .5, 1.26]
    bad = lambda: rng.random() < .12
    pick = lambda L: (rng.randrange(len(L)) if L and not bad() else rng.choice([-1, len(L), len(L) + 3, -5]))
    plain = rng.random() < .15
    if rng.random() < .12:
        op = (10, rng.choice(SZ + [0., -1.]), rng.choice(SZ), rng.choice([0, 1, 2, 3]), rng.randint(1, 3))
        M.step(op); ops.append(op)
    groups = rng.random() < .7
    tall = rng.random() < .5
    for _ in range(rng.randint(3, 22)):
        k = rng.choice([1, 1, 1, 2, 2, 2, 3, 3, 4, 4, 5, 6, 6, 7, 7, 8, 9, 11] + ([12] if rng.random() < .05 else []))
        if k == 2 and not M.cc: k = 1
        if k == 3 and not M.rtm: k = 2 if M.cc else 1
        if k == 4 and not M.lat: k = 3 if M.rtm else 6
        if k == 5 and not M.asy: k = 7
        if k == 1:
            ex, ey = (1., 1.) if plain else (rng.choice(SZ), rng.choice(SZ))
            if bad(): ex, ey = rng.choice([(0., 1.), (1., -1.), (-1., 2.)])
            t = rng.choice([t for t in M.mesh if M.mesh[t]] or [0])
            if not t or rng.random() < .15: op = (1, ex, ey, rng.choice([0, 4]), -1, [])
            else:
                m = pick(M.mesh[t])
                n = len(M.mesh[t][m]['face']) if 0 <= m < len(M.mesh[t]) else 2
                if bad(): n = max(0, n + rng.choice([-1, 1]))
                ids = [rng.randrange(max(1, len(M.mat))) for _ in range(n)]
                if ids and bad(): ids[rng.randrange(n)] = rng.choice([-1, len(M.mat), 99])
                if bad(): t = rng.choice([0, 7, 14, 3, 4, 8])
                if m == -1: ids = []
                op = (1, ex, ey, t, m, ids)
        elif k == 2:
            for _ in range(20):
                nr, nc = rng.randint(1, 3), rng.randint(1, 3)
                rows = [[pick(M.cc) for _ in range(nc)] for _ in range(nr)]
                if rng.random() < .3: rows = [[rows[0][0]] * nc for _ in range(nr)]
                if any(not 0 <= i < len(M.cc) for r in rows for i in r): break
                g = Model.grid(rows, M.cc)
                if g and (not M.rtm or rng.random() < .15 or (g[0][-1], g[1][-1]) == (M.rtm[0][0][-1], M.rtm[0][1][-1])): break
            else: rows = [[rng.randrange(len(M.cc))]]
            op = (2, rows)
        elif k == 3:
            nr, nc = rng.randint(1, 3), rng.randint(1, 3)
            if rng.random() < .5: nr, nc = 2, 2
            rows = [[pick(M.rtm) for _ in range(nc)] for _ in range(nr)]
            if nr > 1 and bad(): rows[rng.randint(1, nr - 1)].append(0)
            op = (3, rows)
        elif k == 4:
            n = rng.randint(1, 3)
            ids = [pick(M.lat)] * n if rng.random() < .6 else [pick(M.lat) for _ in range(n)]
            if tall: z = [0.] + sorted(rng.uniform(.1, 9.) for _ in range(n - 1)) + [10.]
            elif rng.random() < .2: z = [0.] + sorted(rng.uniform(.1, .4) for _ in range(n - 1)) + [.5]
            else: z = [-.5] + sorted(rng.uniform(-.4, .4) for _ in range(n - 1)) + [.5]
            if bad(): z = rng.choice([z[:-1] + [z[-1] + 1.], [z[0] + .25] + z[1:], z + [z[-1] + 1], z[::-1], [z[0] - 1.] + z[1:]])
            op = (4, ids, z)
        elif k == 5:
            nr, nc = rng.randint(1, 2), rng.randint(1, 3)
            rows = [[pick(M.asy) for _ in range(nc)] for _ in range(nr)]
            if not any(not 0 <= i < len(M.asy) for r in rows for i in r) and not M.core and Model.grid(rows, M.asyext()) is None: rows = [[rows[0][0]] * nc for _ in range(nr)]
            op = (5, rows)
        elif k == 6: op = (6, rng.choice(SZ + ([0., -1.] if bad() else [])), rng.choice(SZ + ([0., -1.] if bad() else [])), rng.randint(0 if bad() else 1, 3), rng.randint(0 if bad() else 1, 3))
        elif k == 7:
            x = []
            for g in range(2):
                f = rng.choice([0., rng.uniform(.01, .1)])
                x += [rng.uniform(.2, .9), f, 2.4 * f, rng.uniform(1., 2.), rng.uniform(.1, .8), rng.uniform(.1, .4), rng.uniform(.1, .4)]
            op = (7, rng.randint(0, 3), x)
        elif k in (8, 9):
            p = rng.choice([1.26, 2.])
            n = rng.randint(1, 3)
            radii = sorted(rng.uniform(.1, .45) * p for _ in range(n))
            radii = [r + .001 * i for i, r in enumerate(radii)]
            rings = [rng.randint(1, 3) for _ in range(n)]
            na, od = rng.choice([8, 8, 16]), rng.choice([1, 1, 2])
            if bad(): radii[-1] = .7 * p
            if bad(): na = rng.choice([4, 12, 0, 24])
            if bad(): od = rng.choice([0, 3])
            if bad(): rings.append(1)
            op = (k, p, rings, radii, na, od)
            if k == 9: op += ([rng.choice([m[0] for m in M.mat]) if M.mat and rng.random() < .93 else rng.randint(0, 3) for _ in range(n + 1 + (1 if bad() else 0))],)
        elif k == 11: op = (11, [rng.choice(SZ) for _ in range(rng.randint(1, 4))])
        else: op = (12,)
        M.step(op); ops.append(op)
    s, f = [], []
    for op in ops:
        a, b = flat(op)
        s += a; f += b
    faces = sum(len(m['face']) for t in M.mesh for m in M.mesh[t])
    fine = sum(len(M.cc[c][4]) for a in (M.core[2] if M.core else []) for l in M.asy[a][0] for t in M.lat[l][4] for c in M.rtm[t][2])
    parts = sum(len(c[4]) + 7 for c in M.cc) + sum(len(x[2]) + 6 for x in M.rtm) + sum(len(x[4]) + 6 for x in M.lat) + sum(len(x[0]) + 4 for x in M.asy) + (len(M.core[2]) + 6 if M.core else 0)
    d['no'] = 10 * len(ops) + parts + len(M.cc) * 3 + 40
    d['ng'] = 4 * parts + 4 * faces + fine + 14 * len(M.cc) + 40
    d['s'] = s; d['n'] = len(s); d['f'] = [float(x) for x in f] or [0.]; d['k'] = len(d['f'])


class Reader:
    def __init__(s, o, g): s.o, s.g, s.i, s.j = o, g, 0, 0
    def int(s): s.i += 1; return s.o[s.i - 1]
    def real(s): s.j += 1; return s.g[s.j - 1]
    def ints(s, L): return [s.int() for _ in L] == [int(x) for x in L]
    def reals(s, L, tol=1e-9): return all(abs(s.real() - x) <= tol * max(1, abs(x)) for x in list(L))


def check(d, out):
    ops = parse(d['s'][:d['n']], d['f'])
    r, M = Reader(out['new.o'], out['new.g']), Model()
    for q, op in enumerate(ops):
        before = M.counts()
        want = M.step(op)
        got = r.int()
        if got != want: return 'step %d (kind %d) returns the id of the added part, or refuses it (expected %d, got %d)' % (q, op[0], want, got)
        if not r.ints(M.counts()): return 'step %d (kind %d) adds exactly that part, and nothing when it is refused' % (q, op[0])
    def real(L, tol=1e-9):
        L = list(L)
        return all([abs(r.real() - x) <= tol * max(1, abs(x)) for x in L])
    for ex, ey, t, m, ids in M.cc:
        if not (real([ex, ey]) and r.ints([t, m, len(ids)]) and r.ints(ids)): return 'a cell keeps its extents, mesh and materials'
    def part(xs, ys, ids): return all([r.ints([len(xs) - 1]), real([xs[0], xs[-1]]), r.ints([len(ys) - 1]), real([ys[0], ys[-1]]), r.ints([len(ids)]), r.ints(ids)])
    for xs, ys, ids in M.rtm:
        if not (part(xs, ys, ids) and real(xs) and real(ys)): return 'a module keeps the cell given for each position'
    for nx, ny, w, h, ids in M.lat:
        if not (part([w * i for i in range(nx + 1)], [h * i for i in range(ny + 1)], ids) and real([w, h])): return 'a lattice keeps the module given for each position'
    for ids, z in M.asy:
        if not (r.ints([len(ids)]) and r.ints(ids) and real(z)): return 'an assembly keeps its lattices and planes'
    if M.core and not (part(*M.core) and real(M.core[0]) and real(M.core[1])): return 'the core keeps the assembly given for each position'
    A = M.core[2] if M.core else []
    L = [l for a in A for l in M.asy[a][0]]
    T_ = [t for l in L for t in M.lat[l][4]]
    C = [c for t in T_ for c in M.rtm[t][2]]
    if not r.ints([len(A), len(L), len(T_), len(C), sum(len(M.cc[c][4]) for c in C)]): return 'total numbers of parts'
    data = {}
    for t in (TRI, QUAD, Q8):
        for q, m in enumerate(M.mesh[t]):
            n = len(m['face'])
            if not r.ints([n]): return 'number of faces of a mesh'
            F_ = [[r.real() for _ in range(4)] for _ in range(n)]
            data[t, q] = F_
            if 'ring' not in m:
                if not all(abs(a - b) < 1e-9 for f, e in zip(F_, m['face']) for a, b in zip(f, e)): return 'faces of a mesh, left to right and bottom to top'
                continue
            na, p = m['na'], m['pitch']
            if any(f[0] <= 0 or not (0 < f[1] < p and 0 < f[2] < p) for f in F_): return 'every face of a pin mesh has positive area inside the pin'
            if abs(sum(f[0] for f in F_) - p * p) > 1e-6: return 'the faces of a pin mesh cover the pin'
            for i, a in enumerate(m['ring']):
                ring = F_[i * na:(i + 1) * na]
                if abs(sum(f[0] for f in ring) - a) > 1e-5 * max(1, a): return 'the faces of ring %d have the area of the ring' % i
                if i < len(m['ring']) - 1 and any(abs(f[0] - a / na) > 1e-5 for f in ring): return 'the faces of a ring have equal areas'
                ang = [math.atan2(f[2] - p / 2, f[1] - p / 2) % (2 * math.pi) for f in ring]
                if any(not (2 * math.pi * j / na < x < 2 * math.pi * (j + 1) / na) for j, x in enumerate(ang)): return 'the faces of a ring follow each other around the pin'
    if all(c[3] >= 0 for c in M.cc) and any(M.cc[c][4] for c in C):
        want = [f[3] for c in C for f in data[M.cc[c][2], M.cc[c][3]]]
        if not (r.ints([len(want)]) and real(want)): return 'mean chord lengths in the order of the fine cells'
    for ex, ey, t, m, ids in M.cc:
        if m < 0: continue
        F_ = data[t, m]
        tot = sum(f[0] for f in F_)
        avg = [sum(f[0] * M.mat[i][1][q] for f, i in zip(F_, ids)) / tot for q in range(14)]
        fis = any(avg[7 * g + 1] > 0 for g in range(2))
        if not r.ints([2, 1, 1 if fis else 0]): return 'a homogenised cell is a macroscopic cross section of the same groups, fissile when it fissions'
        if not real(avg, 1e-8): return 'homogenised data are area-weighted averages'
    if r.int() != -77: return 'nothing more'
    return None


TARGETS.append(Target('m_hist', [Arr('s', 'i4', 'n'), Int('n', 1, 5000, ghi=300), Arr('f', 'f8', 'k'), Int('k', 1, 5000, ghi=300), Arr('o', 'i4', 'no', mode='out'), Int('no', 1, 99999, ghi=9999), Arr('g', 'f8', 'ng', mode='out'), Int('ng', 1, 99999, ghi=9999)], None,
                      fix=script, check=check, bounded='histories of up to 23 additions to a new model, up to three rows and columns; rows of modules and cores with agreeing widths and heights', samples=2500))


# a mesh of rectangles for any numbers of columns and rows
def nothing(ex, st, a, x, name): return [(st, None)]


VALID = (r'FaceVertexMesh.*validate', lambda ex, st, a, x, name: (ex.note('validate() leaves a mesh of counterclockwise faces alone (P23)'), [(st, None)])[1])


def rect(c):
    ok = and_(lt(R(0), c.wx), lt(R(0), c.wy), lt(I(0), c.nx), lt(I(0), c.ny))
    W = c.nx + 1
    v, q = c.new.v, c.new.c
    return [('accepted exactly when sizes and numbers are positive', eq(c.ret, ite(ok, I(0), I(-1)))),
            ('a refused mesh is not kept', eq(c.new.w[0], ite(ok, I(1), I(0)))),
            ('as many vertices and faces as the grid has', implies(ok, and_(eq(v.len, W * (c.ny + 1)), eq(q.len, c.nx * c.ny)))),
            ('vertices on the grid', implies(ok, forall(0, c.ny + 1, lambda j: forall(0, W, lambda i: and_(eq(v.at(j * W + i, 0) * toreal(c.nx), c.wx * toreal(i)), eq(v.at(j * W + i, 1) * toreal(c.ny), c.wy * toreal(j))))))),
            ('faces are the cells, left to right and bottom to top', implies(ok, forall(0, c.ny, lambda j: forall(0, c.nx, lambda i: and_(*[eq(q.at(j * c.nx + i, k), j * W + i + s) for k, s in enumerate((I(0), I(1), W + 1, W))])))))]


def table(L):
    old = L.ex.old; ks = enclosing(L); out = []
    W = old.nx + 1
    for o, key, rd, _ in written(L):
        if key[2] == 'f' and key[1] == 8:
            n = W
            ats = [lambda lv, j, i, rd=rd: eq(rd(lv, 2 * (j * W + i)), toreal(i) * (old.wx / toreal(old.nx))), lambda lv, j, i, rd=rd: eq(rd(lv, 2 * (j * W + i) + 1), toreal(j) * (old.wy / toreal(old.ny)))]
        elif key[2] == 'i' and key[1] == 4:
            n = old.nx
            ats = [lambda lv, j, i, rd=rd, k=k, s=s: eq(rd(lv, 4 * (j * old.nx + i) + k), j * W + i + s) for k, s in enumerate((I(0), I(1), W + 1, W))]
        else: continue
        for at in ats:
            rows = lambda lv, m, n=n, at=at: forall(0, m, lambda j: forall(0, n, lambda i: at(lv, j, i)))
            if not ks: out.append(('rows done', lambda lv, rows=rows: rows(lv, lv.k)))
            elif len(ks) == 1:
                out.append(('earlier rows', lambda lv, rows=rows: rows(lv, ks[0])))
                out.append(('this row so far', lambda lv, at=at: forall(0, lv.k, lambda i: at(lv, ks[0], i))))
    return out


def genrect(d, rng):
    d['wx'] = rng.choice([1., 2.5, 0., -1.] if rng.random() < .2 else [1., 2.5]); d['wy'] = rng.choice([1., .5, 0., -1.] if rng.random() < .2 else [1., .5])
    d['nx'] = rng.randint(-1, 4); d['ny'] = rng.randint(-1, 4)


N_ = 2 ** 11
TARGETS.append(Target('p_rect', [Scalar('wx', 'f8'), Scalar('wy', 'f8'), Int('nx', -N_, N_), Int('ny', -N_, N_), Vec('v', 'f8', mode='inout', n=2, onlynull=True), Vec('c', 'i4', mode='inout', n=4, onlynull=True), Out('w', 'i4', n=1)], 'i4',
                      fix=genrect, post=rect, hooks=[*LOG_HOOK, VALID] if isinstance(LOG_HOOK, list) else [LOG_HOOK, VALID], opts=dict(heap=False, lean=True, unroll=2, loop_timeout=15), inv=table, budget=200, timeout=200))


def cell(c):
    ok = and_(lt(R(0), c.wx), lt(R(0), c.wy), eq(c.m, I(-1)))
    return [('accepted exactly for positive sizes and no mesh, as there is none', eq(c.ret, ite(ok, I(0), I(-1)))), ('a refused cell is not kept', eq(c.new.w[0], ite(ok, I(1), I(0)))),
            ('the cell as given', implies(ok, and_(eq(c.new.o[0], c.wx), eq(c.new.o[1], c.wy), eq(c.new.w[1], c.t), eq(c.new.w[2], c.m), eq(c.new.w[3], c.a.len))))]


TARGETS.append(Target('c_new', [Scalar('wx', 'f8'), Scalar('wy', 'f8'), Int('t', 0, 20), Int('m', -3, 100), Vec('a', 'i1', exactcap=True, maxlen=2 ** 20), Out('o', 'f8', n=2), Out('w', 'i4', n=4)], 'i4',
                      fix=lambda d, rng: (genrect({**d, 'nx': 0, 'ny': 0}, rng), d.update(wx=rng.choice([1., 2., 0., -1.]), wy=rng.choice([1., 2., 3., -1.]), m=rng.choice([-1, -1, 0, -2]), t=rng.choice([0, 3, 4, 6, 7, 8]))) and None, post=cell,
                      hooks=[*LOG_HOOK] if isinstance(LOG_HOOK, list) else [LOG_HOOK], opts=dict(heap=False), budget=60))
