"""P22: element-type tables."""
from .lib import *
UNITS = {'a': dict(harness='P22.cpp'), 'n': dict(harness='P22.cpp', config=dict(ASSERTS=0))}
TARGETS = []


def T(key, *a, **k):
    t = Target(*a, **k)
    t.modkey = key
    if key == 'n': t.name += ' (assertions off)'
    TARGETS.append(t)


# kind: VTK code, XDMF code, nodes
KINDS = [('vertex', 1, 1, 1), ('line', 3, 2, 2), ('triangle', 5, 4, 3), ('quadrilateral', 9, 5, 4), ('quadratic edge', 21, 34, 3),
         ('quadratic triangle', 22, 36, 6), ('quadratic quadrilateral', 23, 37, 8)]
VTK, XD, NV = [[k[i] for k in KINDS] for i in (1, 2, 3)]
INFER = [k for k in KINDS if k[0] != 'quadratic edge']


def oneof(x, vs): return or_(*[eq(x, I(v)) for v in vs])


def table(src, dst, names=None):
    return lambda x: lambda c: [('%s' % n, implies(eq(getattr(c, x), I(s)), eq(c.ret, I(d)))) for s, d, n in zip(src, dst, names or [k[0] for k in KINDS])]


I8 = lambda n, vals: Scalar(n, 'i1', vals=vals)
tab = [('et_verts', 't', VTK, NV, 'i4', 'i1', -1000), ('et_fromx', 'x', XD, VTK, 'i1', 'i1', 0), ('et_tox', 't', VTK, XD, 'i1', 'i1', 0),
       ('et_infer', 'n', [k[3] for k in INFER], [k[1] for k in INFER], 'i1', 'i4', 0)]
for fn, x, src, dst, rk, pk, bad in tab:
    nm = [k[0] for k in (INFER if fn == 'et_infer' else KINDS)]
    for key in 'an':
        P = [Scalar(x, pk, vals=src + ([2, 4, 0, -1, 7, 10, 33, 35, 100, 5, 6] if key == 'n' else []))]
        post = table(src, dst, nm)(x)
        if key == 'a': T('a', fn, P, rk, pre=lambda c, x=x, src=src: [oneof(getattr(c, x), src)], post=post)
        else: T('n', fn, P, rk, post=lambda c, post=post, x=x, src=src, bad=bad: post(c) + [('unknown value reported as invalid', implies(not_(oneof(getattr(c, x), src)), eq(c.ret, I(bad))))])
T('a', 'et_rtx', [Scalar('t', 'i1', vals=VTK)], 'i1', pre=lambda c: [oneof(c.t, VTK)], post=lambda c: [('round trip through the file code', eq(c.ret, c.t))])
T('a', 'et_rtv', [Scalar('x', 'i1', vals=XD)], 'i1', pre=lambda c: [oneof(c.x, XD)], post=lambda c: [('round trip through the kind', eq(c.ret, c.x))])
NQ = [k[1] for k in INFER]
T('a', 'et_rtn', [Scalar('t', 'i1', vals=NQ)], 'i1', pre=lambda c: [oneof(c.t, NQ)], post=lambda c: [('kind recovered from its node count', eq(c.ret, c.t))])


def mesh(c):
    v, n = c.v, c.v.len
    a, b = v.at(0), v.at(1)
    out = []
    both = lambda x, y: or_(and_(eq(a, I(x)), eq(b, I(y))), and_(eq(a, I(y)), eq(b, I(x))))
    one = {5: 3, 9: 4, 22: 6, 23: 8}
    for k, m in one.items(): out.append(('single kind %d' % k, implies(and_(eq(n, I(1)), eq(a, I(k))), eq(c.ret, I(m)))))
    out += [('triangles and quadrilaterals in either order', implies(and_(eq(n, I(2)), both(5, 9)), eq(c.ret, I(7)))),
            ('quadratic triangles and quadrilaterals in either order', implies(and_(eq(n, I(2)), both(22, 23)), eq(c.ret, I(14)))),
            ('anything else is invalid', implies(not_(or_(and_(eq(n, I(1)), oneof(a, list(one))), and_(eq(n, I(2)), or_(both(5, 9), both(22, 23))))), eq(c.ret, I(0))))]
    return out


def gmesh(d, rng):
    d['v'] = [rng.choice([5, 9, 22, 23, 5, 9, 22, 23, 3, 21]) for _ in d['v']]


for key in 'an': T(key, 'et_mesh', [Vec('v', 'i1', glen=lambda r: r.choice([0, 1, 1, 2, 2, 2, 3, 5]), nullable=True)], 'i1', post=mesh, fix=gmesh)
