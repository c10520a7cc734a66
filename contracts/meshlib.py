"""shared by the mesh properties: meshes of the four face kinds"""
from .lib import *
SRCS = ['src/mesh/polytope_soup.cpp', 'src/common/settings.cpp', 'src/common/logger.cpp']
LIBS = ['-lpugixml', '-L/usr/lib/x86_64-linux-gnu/hdf5/serial', '-lhdf5_cpp', '-lhdf5']
KINDS = (('t', 1, 3), ('q', 1, 4), ('u', 2, 6), ('r', 2, 8))
LIM = 2 ** 20


def mesh(N, v='v', c='c', nv=1, nc=1, mode='in'): return [Vec(v, 'f8', n=2, minlen=nv, maxlen=LIM, exactcap=mode == 'in', mode=mode), Vec(c, 'i4', n=N, minlen=nc, maxlen=LIM, exactcap=mode == 'in', mode=mode)]
def verts(nm='w'): return Vec(nm, 'f8', n=2, mode='inout', onlynull=True)
def conns(N, nm='d'): return Vec(nm, 'i4', n=N, mode='inout', onlynull=True)


def inrange(N, v='v', c='c'):
    return lambda x: [('faces name vertices', forall(0, getattr(x, c).len * N, lambda i: and_(le(I(0), getattr(x, c).raw(i)), lt(getattr(x, c).raw(i), getattr(x, v).len))))]


def corners(P, N): return N // P


def turn(a, b, c): return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def convex(N, p):
    """corners (flat coordinates) of a strictly convex, counter-clockwise face"""
    q = [(p[2 * j], p[2 * j + 1]) for j in range(N)]
    return [turn(q[j], q[(j + 1) % N], q[(j + 2) % N]) for j in range(N if N > 3 else 1)]


def genmesh(P, N, v='v', c='c', then=None, distinct=True, ccw=False, wild=.3, flip=.15):
    """random meshes: a strip of well shaped faces, jittered, or random connectivity over random points"""
    M = corners(P, N)

    def f(d, rng):
        pts = []; conn = []
        if rng.random() >= wild:
            nx = rng.randint(1, 3); ny = rng.randint(1, 2)
            ids = {}

            def vid(x, y):
                if (x, y) not in ids:
                    ids[(x, y)] = len(pts)
                    jit = .12 if x % 2 or y % 2 else .1
                    pts.append((x / 2 + rng.uniform(-jit, jit) * (rng.random() < .6), y / 2 + rng.uniform(-jit, jit) * (rng.random() < .6)))
                return ids[(x, y)]
            for a in range(nx):
                for b in range(ny):
                    q = [(2 * a, 2 * b), (2 * a + 2, 2 * b), (2 * a + 2, 2 * b + 2), (2 * a, 2 * b + 2)]
                    fs = [q] if M == 4 else [q[:3], [q[0], q[2], q[3]]]
                    for fc in fs:
                        k = [vid(*p) for p in fc]
                        if P == 2: k += [vid((fc[i][0] + fc[(i + 1) % M][0]) // 2, (fc[i][1] + fc[(i + 1) % M][1]) // 2) for i in range(M)]
                        if rng.random() < flip:
                            k = k[:1] + k[1:M][::-1] + (k[M:][::-1] if P == 2 else [])
                        conn.append(k)
            rng.shuffle(conn)
            pm = list(range(len(pts))); rng.shuffle(pm)
            pts2 = [None] * len(pts)
            for i, p in enumerate(pts): pts2[pm[i]] = p
            pts = pts2; conn = [[pm[i] for i in k] for k in conn]
        else:
            n = rng.randint(N, N + 4)
            pts = [(rng.uniform(0, 3), rng.uniform(0, 3)) for _ in range(n)]
            for _ in range(rng.randint(1, 5)):
                conn.append(rng.sample(range(n), N) if distinct or rng.random() < .7 else [rng.randrange(n) for _ in range(N)])
        if ccw:
            good = []
            for k in conn:
                for k2 in (k, k[:1] + k[1:][::-1]):
                    if all(t > 1e-6 for t in convex(N, [x for i in k2 for x in pts[i]])): good.append(k2)
            if not good:
                b = len(pts); pts = list(pts) + [(0., 0.), (1., 0.), (1., 1.), (0., 1.)][:N]; good = [list(range(b, b + N))]
            conn = good
        d[v] = [x for p in pts for x in p]; d[v + '.len'] = d[v + '.cap'] = len(pts)
        d[c] = [x for k in conn for x in k]; d[c + '.len'] = d[c + '.cap'] = len(conn)
        if then: then(d, rng, len(pts), len(conn))
    return f


def fpts(x, i, N, v='v', c='c'):
    """coordinates of the corners of face i as the connectivity names them"""
    V, C = getattr(x, v), getattr(x, c)
    return [V.at(C.at(i, j), k) for j in range(N) for k in range(2)]


def reversed_(P, N, new, old):
    """same cyclic sequence of corners backwards, from any starting corner, with the matching middle nodes"""
    M = corners(P, N)
    alts = []
    for r in range(M):
        e = [eq(new[j], old[(r - j) % M]) for j in range(M)]
        if P == 2: e += [eq(new[M + j], old[M + (r - j - 1) % M]) for j in range(M)]
        alts.append(and_(*e))
    return or_(*alts)
