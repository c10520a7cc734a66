"""Hash-consed expression DAG over Int / Real / Bool / bit-vectors.

Integer and real arithmetic is kept in linear normal form over atoms, so pointer
offsets and array indices compare syntactically.  Every integer node carries a
sound interval [lo, hi] (None = unbounded).
"""
from fractions import Fraction
from math import gcd, isqrt
import math, sys
sys.setrecursionlimit(100000)

_tab = {}
_cnt = 0
RANGES = {}          # app name -> (lo, hi)


class E:
    __slots__ = ("op", "args", "sort", "id", "lo", "hi", "_z")

    def __repr__(self):
        return show(self)

    # ---- operator overloading (used by contracts) ----
    def __add__(a, b): return add(a, lift(b, a.sort))
    def __radd__(a, b): return add(lift(b, a.sort), a)
    def __sub__(a, b): return sub(a, lift(b, a.sort))
    def __rsub__(a, b): return sub(lift(b, a.sort), a)
    def __mul__(a, b): return mul(a, lift(b, a.sort))
    def __rmul__(a, b): return mul(lift(b, a.sort), a)
    def __neg__(a): return scale(a, -1)
    def __truediv__(a, b): return rdiv(toreal(a), lift(b, 'R'))
    def __rtruediv__(a, b): return rdiv(lift(b, 'R'), toreal(a))
    def __floordiv__(a, b): return idiv(a, lift(b, 'I'))
    def __mod__(a, b): return imod(a, lift(b, 'I'))
    def __le__(a, b): return le(a, lift(b, a.sort))
    def __lt__(a, b): return lt(a, lift(b, a.sort))
    def __ge__(a, b): return le(lift(b, a.sort), a)
    def __gt__(a, b): return lt(lift(b, a.sort), a)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __bool__(self):
        if self.op == 'c': return bool(self.args[0])
        raise TypeError("symbolic truth value used as bool: %s" % show(self))


def mk(op, args, sort, lo=None, hi=None):
    global _cnt
    key = (op, args, sort)
    e = _tab.get(key)
    if e is None:
        e = object.__new__(E)
        e.op = op; e.args = args; e.sort = sort; e.lo = lo; e.hi = hi
        _cnt += 1
        e.id = _cnt
        e._z = None
        _tab[key] = e
    return e


def I(v):
    v = int(v)
    return mk('c', (v,), 'I', v, v)


def flit(x):
    """the number a floating-point constant stands for: a short decimal or a small fraction within two units in the
    last place of it, otherwise its exact binary value"""
    f = Fraction(x)
    if f.denominator == 1 or f.denominator <= 4096: return f
    u = 2 * Fraction(math.ulp(x))
    for c in (f.limit_denominator(1000), Fraction('%.6e' % x)):
        if c.denominator > 1 and abs(c - f) <= u: return c
    return f


def R(v):
    if isinstance(v, float): v = flit(v)
    if not isinstance(v, Fraction): v = Fraction(v)
    return mk('c', (v,), 'R')


def B(v): return mk('c', (bool(v),), 'B')


TRUE = B(True)
FALSE = B(False)


def lift(v, sort=None):
    if isinstance(v, E):
        if sort == 'R' and v.sort == 'I': return toreal(v)
        return v
    if isinstance(v, bool): return B(v)
    if sort == 'R' or isinstance(v, (float, Fraction)): return R(v)
    return I(v)


def var(name, sort, lo=None, hi=None):
    return mk('v', (name,), sort, lo, hi)


_fresh = [0]


def fresh(name, sort, lo=None, hi=None):
    _fresh[0] += 1
    return var("%s!%d" % (name, _fresh[0]), sort, lo, hi)


def freshname(name):
    _fresh[0] += 1
    return "%s!%d" % (name, _fresh[0])


def app(name, args, sort, lo=None, hi=None):
    return mk('app', (name,) + tuple(args), sort, lo, hi)


def isc(e): return e.op == 'c'


# ------------------------------------------------------------------ linear
def ld(e):
    """(const, {atom: coef})"""
    if e.op == 'c': return e.args[0], {}
    if e.op == 'lin': return e.args[0], dict(e.args[1])
    return 0, {e: 1}


def ldview(e):
    if e.op == 'c': return e.args[0], ()
    if e.op == 'lin': return e.args
    return 0, ((e, 1),)


def mklin(c, d, sort):
    items = [(a, k) for a, k in d.items() if k != 0]
    if not items:
        return I(c) if sort == 'I' else R(c)
    if len(items) == 1 and c == 0 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda t: t[0].id)
    lo = hi = None
    if sort == 'I':
        lo = hi = c
        for a, k in items:
            l, h = (a.lo, a.hi) if k > 0 else (a.hi, a.lo)
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
            if lo is None and hi is None: break
    return mk('lin', (c, tuple(items)), sort, lo, hi)


def add(a, b):
    if a.sort != b.sort:
        a, b = toreal(a), toreal(b)
    if a.op == 'c' and a.args[0] == 0: return b
    if b.op == 'c' and b.args[0] == 0: return a
    c, d = ld(a)
    c2, it = ldview(b)
    for t, k in it:
        d[t] = d.get(t, 0) + k
    return mklin(c + c2, d, a.sort)


def sub(a, b): return add(a, scale(b, -1)) if a.sort == b.sort else add(toreal(a), scale(toreal(b), -1))


def scale(a, k):
    if k == 1: return a
    if a.sort == 'I': k = int(k)
    c, it = ldview(a)
    if k == 0: return I(0) if a.sort == 'I' else R(0)
    return mklin(c * k, {t: q * k for t, q in it}, a.sort)


def sum_(xs, sort='I'):
    r = I(0) if sort == 'I' else R(0)
    for x in xs: r = add(r, x)
    return r


def _imul_iv(a, b):
    if None in (a.lo, a.hi, b.lo, b.hi):
        lo = hi = None
        if a.lo is not None and b.lo is not None and a.lo >= 0 and b.lo >= 0:
            lo = a.lo * b.lo
        return lo, hi
    ps = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
    return min(ps), max(ps)


def _mulatoms(a, b, sort):
    fa = a.args if a.op == 'mul' else (a,)
    fb = b.args if b.op == 'mul' else (b,)
    fs = tuple(sorted(fa + fb, key=lambda x: x.id))
    lo = hi = None
    if sort == 'I':
        if a is b:
            lo = 0
            if a.lo is not None and a.hi is not None:
                hi = max(a.lo * a.lo, a.hi * a.hi)
        else:
            lo, hi = _imul_iv(a, b)
    return mk('mul', fs, sort, lo, hi)


def mul(a, b):
    if a.sort != b.sort: a, b = toreal(a), toreal(b)
    if a.op == 'c': return scale(b, a.args[0])
    if b.op == 'c': return scale(a, b.args[0])
    sort = a.sort
    ca, ia = ldview(a)
    cb, ib = ldview(b)
    if sort == 'I':
        c = ca * cb
        d = {}
        for t, k in ia: d[t] = d.get(t, 0) + k * cb
        for t, k in ib: d[t] = d.get(t, 0) + k * ca
        for t, k in ia:
            for u, l in ib:
                m = _mulatoms(t, u, sort)
                d[m] = d.get(m, 0) + k * l
        return mklin(c, d, sort)
    ka = kb = 1
    if ca == 0 and len(ia) == 1: a, ka = ia[0]
    if cb == 0 and len(ib) == 1: b, kb = ib[0]
    if a is b and a.op == 'sqrt': return scale(a.args[0], ka * kb)
    return scale(_mulatoms(a, b, sort), ka * kb)


def rdiv(a, b):
    if b.op == 'c':
        if b.args[0] == 0: return mk('div', (a, b), 'R')
        return scale(a, Fraction(1) / b.args[0])
    if a.op == 'c' and a.args[0] == 0: return R(0)
    ka = kb = Fraction(1)
    ca, ia = ldview(a)
    if a.op == 'c': ka, a = Fraction(ca), R(1)
    elif ca == 0 and len(ia) == 1: a, ka = ia[0]
    cb, ib = ldview(b)
    if cb == 0 and len(ib) == 1: b, kb = ib[0]
    if a is b: return R(Fraction(ka) / kb)
    return scale(mk('div', (a, b), 'R'), Fraction(ka) / kb)


def _floordiv_iv(x, m):
    return (None if x.lo is None else x.lo // m), (None if x.hi is None else x.hi // m)


def idiv(a, b):
    """floor division, b > 0 expected (constant or symbolic)"""
    if b.op == 'c':
        m = b.args[0]
        if m == 1: return a
        if m < 0: return idiv(scale(a, -1), I(-m))
        if m == 0: return mk('idiv', (a, b), 'I')
        if a.op == 'c': return I(a.args[0] // m)
        c, it = ldview(a)
        q = {}; r = {}
        for t, k in it:
            if k % m == 0: q[t] = k // m
            else: r[t] = k
        if q:
            return add(mklin(0, q, 'I'), idiv(mklin(c, r, 'I'), b))
        lo, hi = _floordiv_iv(a, m)
        if lo is not None and lo == hi: return I(lo)
        return mk('idiv', (a, b), 'I', lo, hi)
    if b is a: return I(1)
    # exact division by a symbolic factor
    c, it = ldview(a)
    q = {}; r = {}
    for t, k in it:
        if t is b: q[I(1)] = q.get(I(1), 0) + k
        elif t.op == 'mul' and b in t.args:
            fs = list(t.args); fs.remove(b)
            p = fs[0]
            for f in fs[1:]: p = mul(p, f)
            q[p] = q.get(p, 0) + k
        else: r[t] = k
    if q:
        res = I(0)
        for p, k in q.items(): res = add(res, scale(p, k))
        rest = mklin(c, r, 'I')
        if rest.op == 'c' and rest.args[0] == 0: return res
        return add(res, idiv(rest, b))
    lo = 0 if (a.lo is not None and a.lo >= 0 and b.lo is not None and b.lo > 0) else None
    hi = a.hi if lo == 0 else None
    if a.op == 'c' and a.args[0] == 0: return I(0)
    return mk('idiv', (a, b), 'I', lo, hi)


def imod(a, b):
    if b.op == 'c':
        m = b.args[0]
        if m == 1: return I(0)
        if a.op == 'c' and m: return I(a.args[0] % m)
        if m > 0:
            c, it = ldview(a)
            r = {t: k % m for t, k in it if k % m}
            a2 = mklin(c % m, r, 'I')
            if a2.op == 'c': return I(a2.args[0] % m)
            if a2.lo is not None and a2.hi is not None and a2.lo >= 0 and a2.hi < m: return a2
            if a.lo is not None and a.hi is not None and a.lo >= 0 and a.hi < m: return a
            if a2.op == 'imod' and a2.args[1].op == 'c' and a2.args[1].args[0] % m == 0:
                return imod(a2.args[0], b)
            return mk('imod', (a2, b), 'I', 0, m - 1)
    return sub(a, mul(b, idiv(a, b))) if b.op != 'c' else mk('imod', (a, b), 'I')


def uns(n, x):
    """unsigned value of the n-bit signed integer x"""
    if x.op == 'c': return I(x.args[0] % (1 << n))
    if x.lo is not None and x.lo >= 0: return x
    if x.hi is not None and x.hi < 0: return add(x, I(1 << n))
    if x.op == 'wrap' and x.args[0] == n: pass
    return mk('uns', (n, x), 'I', 0, (1 << n) - 1)


def wrap(n, x):
    """signed n-bit value congruent to the integer x"""
    h = 1 << (n - 1); m = 1 << n
    if x.op == 'c':
        v = (x.args[0] + h) % m - h
        return I(v)
    if x.lo is not None and x.hi is not None and -h <= x.lo and x.hi < h: return x
    c, it = ldview(x)
    d = {}
    chg = False
    for t, k in it:
        k2 = (k + h) % m - h
        if k2 != k: chg = True
        if t.op in ('uns', 'wrap') and t.args[0] >= n:
            t = t.args[1]; chg = True
            cc, i2 = ldview(t)
            c = c + k2 * cc
            for u, q in i2: d[u] = d.get(u, 0) + k2 * q
            continue
        d[t] = d.get(t, 0) + k2
    c2 = (c + h) % m - h
    if chg or c2 != c:
        y = mklin(c2, d, 'I')
        if y is not x: return wrap(n, y)
    return mk('wrap', (n, x), 'I', -h, h - 1)


# ------------------------------------------------------------------ conversions
def toreal(e):
    if e.sort == 'R': return e
    if e.op == 'c': return R(e.args[0])
    c, it = ldview(e)
    d = {}
    for t, k in it:
        if t.op == 'ite': r = ite(t.args[0], toreal(t.args[1]), toreal(t.args[2]))
        elif t.op == 'mul':
            r = mk('i2r', (t.args[0],), 'R')
            for f in t.args[1:]: r = mul(r, mk('i2r', (f,), 'R'))
        else: r = mk('i2r', (t,), 'R')
        cc, i2 = ldview(r)
        c = c + k * cc
        for u, q in i2: d[u] = d.get(u, 0) + k * q
    return mklin(Fraction(c), d, 'R')


def rfloor(e):
    if e.op == 'c': return I(math.floor(e.args[0]))
    c, it = ldview(e)
    if c.denominator == 1 if isinstance(c, Fraction) else True:
        if all(t.op == 'i2r' and Fraction(k).denominator == 1 for t, k in it):
            return mklin(int(c), {t.args[0]: int(k) for t, k in it}, 'I')
    if e.op == 'i2r': return e.args[0]
    return mk('floor', (e,), 'I')


def rtrunc(e):
    f = rfloor(e)
    if f.op != 'floor': return f
    return ite(le(R(0), e), f, scale(rfloor(scale(e, -1)), -1))


def sqrt(e):
    if e.op == 'c':
        v = e.args[0]
        if v >= 0:
            a, b = isqrt(v.numerator), isqrt(v.denominator)
            if a * a == v.numerator and b * b == v.denominator: return R(Fraction(a, b))
    return mk('sqrt', (e,), 'R')


# ------------------------------------------------------------------ comparisons
def le(a, b):
    if a.sort != b.sort: a, b = toreal(a), toreal(b)
    return le0(sub(a, b))


def lt(a, b):
    if a.sort != b.sort: a, b = toreal(a), toreal(b)
    if a.sort == 'I': return le0(add(sub(a, b), I(1)))
    return lt0(sub(a, b))


def le0(d):
    if d.op == 'c': return B(d.args[0] <= 0)
    if d.sort == 'I':
        if d.hi is not None and d.hi <= 0: return TRUE
        if d.lo is not None and d.lo > 0: return FALSE
        c, it = ldview(d)
        g = 0
        for t, k in it: g = gcd(g, k)
        if g > 1:
            d = mklin(-(-c // g), {t: k // g for t, k in it}, 'I')
    else:
        c, it = ldview(d)
        k0 = abs(it[0][1])
        if k0 != 1: d = scale(d, Fraction(1) / k0)
    return mk('le0', (d,), 'B')


def lt0(d):
    if d.op == 'c': return B(d.args[0] < 0)
    if d.sort == 'I': return le0(add(d, I(1)))
    c, it = ldview(d)
    k0 = abs(it[0][1])
    if k0 != 1: d = scale(d, Fraction(1) / k0)
    return mk('lt0', (d,), 'B')


def eq(a, b):
    if not isinstance(a, E): a = lift(a, b.sort)
    b = lift(b, a.sort)
    if a is b: return TRUE
    if a.sort == 'B': return iff(a, b)
    if a.sort[0] == 'V':
        if a.op == 'c' and b.op == 'c': return B(a.args[0] == b.args[0])
        if a.id > b.id: a, b = b, a
        return mk('bveq', (a, b), 'B')
    if a.sort != b.sort: a, b = toreal(a), toreal(b)
    d = sub(a, b)
    if d.op == 'c': return B(d.args[0] == 0)
    if d.sort == 'I':
        if (d.lo is not None and d.lo > 0) or (d.hi is not None and d.hi < 0): return FALSE
        c, it = ldview(d)
        g = 0
        for t, k in it: g = gcd(g, k)
        if c % g: return FALSE
        if it[0][1] < 0: g = -g
        if g != 1: d = mklin(c // g, {t: k // g for t, k in it}, 'I')
        if d.op == 'ite' or (d.op == 'lin' and len(d.args[1]) == 1 and d.args[1][0][0].op == 'ite'):
            c, it = ldview(d)
            t, k = it[0]
            if t.args[1].op == 'c' or t.args[2].op == 'c':
                x = add(scale(t.args[1], k), I(c)); y = add(scale(t.args[2], k), I(c))
                return ite(t.args[0], eq(x, I(0)), eq(y, I(0)))
    else:
        c, it = ldview(d)
        k0 = it[0][1]
        if k0 != 1: d = scale(d, Fraction(1) / k0)
    return mk('eq0', (d,), 'B')


def ne(a, b): return not_(eq(a, b))


# ------------------------------------------------------------------ boolean
def not_(a):
    if a.op == 'c': return B(not a.args[0])
    if a.op == 'not': return a.args[0]
    if a.op == 'le0':
        d = a.args[0]
        if d.sort == 'I': return le0(sub(I(1), d))
        return lt0(scale(d, -1))
    if a.op == 'lt0': return le0(scale(a.args[0], -1))
    if a.op == 'and': return or_(*[not_(x) for x in a.args])
    if a.op == 'or': return and_(*[not_(x) for x in a.args])
    return mk('not', (a,), 'B')


def and_(*xs):
    out = {}
    st = list(xs)
    st.reverse()
    while st:
        x = st.pop()
        if not isinstance(x, E): x = B(x)
        if x.op == 'c':
            if not x.args[0]: return FALSE
            continue
        if x.op == 'and':
            st.extend(reversed(x.args)); continue
        out[x] = 1
    if not out: return TRUE
    if len(out) == 1: return next(iter(out))
    for x in out:
        if not_(x) in out: return FALSE
    return mk('and', tuple(sorted(out, key=lambda t: t.id)), 'B')


def or_(*xs):
    out = {}
    st = list(xs)
    st.reverse()
    while st:
        x = st.pop()
        if not isinstance(x, E): x = B(x)
        if x.op == 'c':
            if x.args[0]: return TRUE
            continue
        if x.op == 'or':
            st.extend(reversed(x.args)); continue
        out[x] = 1
    if not out: return FALSE
    if len(out) == 1: return next(iter(out))
    for x in out:
        if x.op != 'and' and not_(x) in out: return TRUE
    return mk('or', tuple(sorted(out, key=lambda t: t.id)), 'B')


def implies(a, b): return or_(not_(a if isinstance(a, E) else B(a)), b)


def iff(a, b):
    if not isinstance(a, E): a = B(a)
    if not isinstance(b, E): b = B(b)
    if a is b: return TRUE
    if a.op == 'c': return b if a.args[0] else not_(b)
    if b.op == 'c': return a if b.args[0] else not_(a)
    if a is not_(b): return FALSE
    return and_(or_(not_(a), b), or_(a, not_(b)))


def ite(c, a, b):
    if not isinstance(c, E): c = B(c)
    if not isinstance(a, E): a = lift(a, b.sort if isinstance(b, E) else None)
    b = lift(b, a.sort)
    if a.sort == 'I' and b.sort == 'R': a = toreal(a)
    if c.op == 'c': return a if c.args[0] else b
    if a is b: return a
    if a.sort == 'B':
        return and_(or_(not_(c), a), or_(c, b))
    if c.op == 'not': return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a.op == 'ite' and a.args[0] is not_(c): a = a.args[2]
    if b.op == 'ite' and b.args[0] is not_(c): b = b.args[1]
    if a is b: return a
    lo = hi = None
    if a.sort == 'I':
        if a.lo is not None and b.lo is not None: lo = min(a.lo, b.lo)
        if a.hi is not None and b.hi is not None: hi = max(a.hi, b.hi)
    return mk('ite', (c, a, b), a.sort, lo, hi)


def min_(a, b):
    a = lift(a, b.sort if isinstance(b, E) else None); b = lift(b, a.sort)
    return ite(le(a, b), a, b)


def max_(a, b):
    a = lift(a, b.sort if isinstance(b, E) else None); b = lift(b, a.sort)
    return ite(le(b, a), a, b)


def abs_(a): return ite(le(lift(0, a.sort), a), a, scale(a, -1))


_bv = [0]


def forall(lo, hi, f, name='q'):
    """forall integer q with lo <= q < hi: f(q)"""
    lo = lift(lo); hi = lift(hi)
    if isc(lo) and isc(hi) and hi.args[0] - lo.args[0] <= 12:
        return and_(*[f(I(i)) for i in range(lo.args[0], hi.args[0])])
    _bv[0] += 1
    q = var('%s?%d' % (name, _bv[0]), 'I')
    body = implies(and_(le(lo, q), lt(q, hi)), f(q))
    return mkforall((q,), body)


def exists(lo, hi, f, name='x'):
    return not_(forall(lo, hi, lambda q: not_(f(q)), name))


def mkforall(vs, body):
    if body.op == 'c': return body
    if body.op == 'forall':
        return mk('forall', (tuple(vs) + body.args[0], body.args[1]), 'B')
    if body.op == 'or':
        fa = [x for x in body.args if x.op == 'forall']
        if len(fa) == 1 and not set(fa[0].args[0]) & set(vs):
            return mk('forall', (tuple(vs) + fa[0].args[0], or_(*[x for x in body.args if x is not fa[0]], fa[0].args[1])), 'B')
    return mk('forall', (tuple(vs), body), 'B')


def Sum(lo, hi, f, name='s'):
    """sum_{lo <= q < hi} f(q) (Int or Real)."""
    lo = lift(lo); hi = lift(hi)
    if isc(lo) and isc(hi):
        xs = [f(I(i)) for i in range(lo.args[0], hi.args[0])]
        if not xs: return R(0) if f(I(0)).sort == 'R' else I(0)
        r = xs[0]
        for x in xs[1:]: r = r + x
        return r
    n = sub(hi, lo)
    _ph[0] += 1
    q = var('sum?p%d' % _ph[0], 'I')
    return mksum(f(add(lo, q)), n, q)


SUMV = var('sum?', 'I')
_sdepth = {}
_ph = [0]


def sum_depth(e):
    """nesting depth of sums in e"""
    r = _sdepth.get(e.id)
    if r is None:
        r = 0
        for t in subterms(e):
            if t.op == 'sum': r = max(r, 1 + sum_depth(t.args[0]))
        _sdepth[e.id] = r
    return r


def sum_var(s):
    """bound variable of a sum node (its name depends on the nesting depth, so no capture can occur)"""
    return var('sum?%d' % (sum_depth(s.args[0]) + 1), 'I')


def sum_at(s, i):
    """the term of sum node s at index i"""
    return subst(s.args[0], {sum_var(s): i})


def mksum(body, n, bv=None):
    """sum_{0<=sum?<n} body[sum?]; linear constants pulled out."""
    if bv is None: bv = SUMV
    c, it = ldview(body)
    sort = body.sort
    if isc(n) and n.args[0] <= 0: return I(0) if sort == 'I' else R(0)
    if isc(n) and n.args[0] <= 8:
        res = I(0) if sort == 'I' else R(0)
        for i in range(n.args[0]): res = add(res, subst(body, {bv: I(i)}))
        return res
    res = scale(n if sort == 'I' else toreal(n), c) if c != 0 else (I(0) if sort == 'I' else R(0))
    for t, k in it:
        if bv not in freevars(t):
            res = add(res, scale(mul(t, n if sort == 'I' else toreal(n)), k))
        else:
            if t.op == 'mul':
                # factors that do not depend on the index
                fs = [f for f in t.args if bv not in freevars(f)]
                if fs:
                    r = None
                    for f in t.args:
                        if bv in freevars(f): r = f if r is None else mul(r, f)
                    s = mksum(r, n, bv)
                    for f in fs: s = mul(s, f)
                    res = add(res, scale(s, k))
                    continue
            t = _sumcanon(t, n, bv)
            d = sum_depth(t) + 1
            t = subst(t, {bv: var('sum?%d' % d, 'I')})
            if t.op == 'lin' or isc(t):      # simplified by renaming only in degenerate cases
                raise TooBig()
            res = add(res, scale(mk('sum', (t, n), sort), k))
    return res


def _sumcanon(t, n, bv):
    """reverse the summation order when the body indexes downwards"""
    neg = pos = 0
    for a in subterms(t):
        if a.op == 'app':
            for x in a.args[1:]:
                if isinstance(x, E):
                    k = ld(x)[1].get(bv, 0)
                    if k < 0: neg += 1
                    if k > 0: pos += 1
    if neg and not pos:
        return subst(t, {bv: sub(sub(n, I(1)), bv)})
    return t


# ------------------------------------------------------------------ traversal
_fv = {}


def children(e):
    op = e.op
    if op in ('c', 'v'): return ()
    if op == 'lin': return [t for t, k in e.args[1]]
    if op == 'app': return e.args[1:]
    if op in ('uns', 'wrap'): return (e.args[1],)
    if op == 'forall': return (e.args[1],)
    return [a for a in e.args if isinstance(a, E)]


def freevars(e):
    r = _fv.get(e.id)
    if r is not None: return r
    # iterative post-order
    st = [(e, False)]
    while st:
        x, done = st.pop()
        if x.id in _fv: continue
        if x.op == 'v': _fv[x.id] = frozenset((x,)); continue
        ch = children(x)
        if not done:
            st.append((x, True))
            for c in ch:
                if c.id not in _fv: st.append((c, False))
            continue
        s = frozenset().union(*[_fv[c.id] for c in ch]) if ch else frozenset()
        if x.op == 'forall': s = s - frozenset(x.args[0])
        if x.op == 'sum': s = (_fv[x.args[0].id] - {sum_var(x)}) | _fv[x.args[1].id]
        _fv[x.id] = s
    return _fv[e.id]


def subterms(e, seen=None):
    seen = {} if seen is None else seen
    st = [e]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen[x.id] = x
        st.extend(children(x))
    return list(seen.values())


def rebuild(e, a):
    """rebuild node e with new children list a (same order as children(e))"""
    op = e.op
    if op in ('c', 'v'): return e
    if op == 'lin':
        c = e.args[0]
        d = {}
        for (t, k), n in zip(e.args[1], a):
            cc, it = ldview(n)
            c = c + k * cc
            for u, q in it: d[u] = d.get(u, 0) + k * q
        return mklin(c, d, e.sort)
    if op == 'app': return app(e.args[0], a, e.sort, e.lo, e.hi)
    if op == 'mul':
        r = a[0]
        for x in a[1:]: r = mul(r, x)
        return r
    if op == 'div': return rdiv(a[0], a[1])
    if op == 'idiv': return idiv(a[0], a[1])
    if op == 'imod': return imod(a[0], a[1])
    if op == 'uns': return uns(e.args[0], a[0])
    if op == 'wrap': return wrap(e.args[0], a[0])
    if op == 'i2r': return toreal(a[0])
    if op == 'floor': return rfloor(a[0])
    if op == 'sqrt': return sqrt(a[0])
    if op == 'le0': return le0(a[0])
    if op == 'lt0': return lt0(a[0])
    if op == 'eq0': return eq(a[0], I(0) if a[0].sort == 'I' else R(0))
    if op == 'not': return not_(a[0])
    if op == 'and': return and_(*a)
    if op == 'or': return or_(*a)
    if op == 'ite': return ite(*a)
    if op == 'forall': return mkforall(e.args[0], a[0])
    if op == 'sum': return mksum(a[0], a[1], sum_var(e))
    if op == 'bveq': return eq(a[0], a[1])
    if op.startswith('bv'):
        return bvop(op, e.sort, *[x if isinstance(x, E) else x for x in _merge(e, a)])
    raise NotImplementedError(op)


def _merge(e, a):
    it = iter(a)
    return [next(it) if isinstance(x, E) else x for x in e.args]


def subst(e, m, memo=None):
    """simultaneous substitution {E atom: E}"""
    memo = {} if memo is None else memo
    keys = frozenset(k for k in m if k.op == 'v')
    onlyv = len(keys) == len(m)
    for k, v in m.items(): memo[k.id] = v

    def go(x):
        r = memo.get(x.id)
        if r is not None: return r
        if onlyv and not (freevars(x) & keys):
            memo[x.id] = x
            return x
        if x.op in ('c', 'v'): r = x
        elif x.op == 'sum':
            _ph[0] += 1
            ph = var('sum?p%d' % _ph[0], 'I')
            r = mksum(subst(subst(x.args[0], {sum_var(x): ph}), m), go(x.args[1]), ph)
        else:
            r = rebuild(x, [go(c) for c in children(x)])
        memo[x.id] = r
        return r
    return go(e)


# ------------------------------------------------------------------ bit vectors
def BV(v, n): return mk('c', (v % (1 << n),), 'V%d' % n)
def bvw(e): return int(e.sort[1:])


def _sx(v, n): return v - (1 << n) if v >> (n - 1) else v


def bvop(op, sort, *a):
    """op in bvadd bvsub bvmul bvand bvor bvxor bvshl bvlshr bvashr bvult bvule bvslt bvsle
    bvzext bvsext bvextract bvconcat bvudiv bvurem"""
    if all(x.op == 'c' for x in a if isinstance(x, E)):
        n = bvw(a[0])
        v = [x.args[0] if isinstance(x, E) else x for x in a]
        m = (1 << n) - 1
        if op == 'bvadd': return BV(v[0] + v[1], n)
        if op == 'bvsub': return BV(v[0] - v[1], n)
        if op == 'bvmul': return BV(v[0] * v[1], n)
        if op == 'bvand': return BV(v[0] & v[1], n)
        if op == 'bvor': return BV(v[0] | v[1], n)
        if op == 'bvxor': return BV(v[0] ^ v[1], n)
        if op == 'bvshl': return BV(v[0] << v[1] if v[1] < n else 0, n)
        if op == 'bvlshr': return BV(v[0] >> v[1] if v[1] < n else 0, n)
        if op == 'bvashr': return BV(_sx(v[0], n) >> min(v[1], n - 1), n)
        if op == 'bvult': return B(v[0] < v[1])
        if op == 'bvule': return B(v[0] <= v[1])
        if op == 'bvslt': return B(_sx(v[0], n) < _sx(v[1], n))
        if op == 'bvsle': return B(_sx(v[0], n) <= _sx(v[1], n))
        if op == 'bvzext': return BV(v[0], int(sort[1:]))
        if op == 'bvsext': return BV(_sx(v[0], n), int(sort[1:]))
        if op == 'bvextract': return BV(v[0] >> v[1], int(sort[1:]))
        if op == 'bvudiv' and v[1]: return BV(v[0] // v[1], n)
        if op == 'bvurem' and v[1]: return BV(v[0] % v[1], n)
        if op == 'bvconcat': return BV((v[0] << bvw(a[1])) | v[1], int(sort[1:]))
    return mk(op, tuple(a), sort)


# ------------------------------------------------------------------ printing
def show(e, depth=0):
    op = e.op
    if depth > 14: return '...'
    s = lambda x: show(x, depth + 1) if isinstance(x, E) else str(x)
    if op == 'c': return str(e.args[0])
    if op == 'v': return e.args[0]
    if op == 'lin':
        parts = []
        for t, k in e.args[1]:
            parts.append(s(t) if k == 1 else '%s*%s' % (k, s(t)))
        if e.args[0] != 0: parts.append(str(e.args[0]))
        return '(' + ' + '.join(parts) + ')'
    if op == 'app': return '%s[%s]' % (e.args[0], ', '.join(s(a) for a in e.args[1:]))
    if op == 'mul': return '*'.join(s(a) for a in e.args)
    if op == 'le0': return '(%s <= 0)' % s(e.args[0])
    if op == 'lt0': return '(%s < 0)' % s(e.args[0])
    if op == 'eq0': return '(%s == 0)' % s(e.args[0])
    if op == 'forall': return '(forall %s. %s)' % (' '.join(s(v) for v in e.args[0]), s(e.args[1]))
    return '%s(%s)' % (op, ', '.join(s(a) for a in e.args))


# ------------------------------------------------------------------ evaluation
class Unknown(Exception):
    pass


def _plain(d):
    """difference of at most two plain symbols / constants: no rounding involved"""
    c, it = ldview(d)
    return len(it) <= 2 and all(t.op in ('v', 'app') and abs(k) == 1 for t, k in it) and (len(it) < 2 or c == 0)


TRANS = ('sin', 'cos', 'tan', 'exp', 'log', 'acos', 'asin', 'atan', 'sinh', 'cosh', 'tanh')


class Ev:
    """Concrete evaluation.  Numbers are floats/ints/Fractions; comparisons on
    reals are three valued (None = too close to call) when tol > 0."""

    def __init__(self, env, fn=None, tol=0.0, floor=1e-9):
        self.floor = floor
        self.env = env      # var name -> value
        self.fn = fn        # app evaluator: fn(name, args) -> value
        self.tol = tol
        self.memo = {}
        self.mag = {}

    def real(self, e): return self.ev(e)

    def ev(self, e):
        r = self.memo.get(e.id, self)
        if r is not self: return r
        r = self._ev(e)
        self.memo[e.id] = r
        return r

    def sub(self, e, env):
        n = Ev({**self.env, **env}, self.fn, self.tol, self.floor)
        return n.ev(e)

    def scale_of(self, d):
        """magnitude of the largest intermediate term in d (for tolerance)"""
        r = self.mag.get(d.id)
        if r is not None: return r
        self.mag[d.id] = 0.0
        op = d.op
        if op == 'c': r = abs(float(d.args[0]))
        elif op == 'lin':
            r = abs(float(d.args[0]))
            for t, k in d.args[1]: r = max(r, abs(float(k)) * self.scale_of(t))
        elif op == 'mul':
            r = 1.0
            for t in d.args: r *= max(self.scale_of(t), 1e-300)
        elif op == 'ite':
            c = self.ev(d.args[0])
            r = max(self.scale_of(d.args[1]) if c is not False else 0,
                    self.scale_of(d.args[2]) if c is not True else 0)
        elif op == 'div':
            b = self.ev(d.args[1])
            b = abs(float(b)) if b is not None else 0
            if b == 0: r = float('inf')
            else: r = max(self.scale_of(d.args[0]) / b, abs(float(self.ev(d.args[0])) / b) * self.scale_of(d.args[1]) / b)
        elif op == 'sqrt':
            v = self.ev(d.args[0])
            s = self.scale_of(d.args[0])
            v = float(v) if v is not None else 0
            r = max(math.sqrt(s), s / math.sqrt(v) if v > 0 else math.sqrt(s) * 1e6)
        elif op == 'sum':
            r = 0.0
            n = self.ev(d.args[1])
            for i in range(max(0, int(n))):
                sv = Ev({**self.env, sum_var(d).args[0]: i}, self.fn, self.tol, self.floor)
                r = max(r, sv.scale_of(d.args[0]) * n)
        else:
            v = self.ev(d)
            r = abs(float(v)) if v is not None else float('inf')
        self.mag[d.id] = r
        return r

    def _cmp(self, d, kind):
        v = self.ev(d)
        if v is None: return None
        if d.sort == 'I' or self.tol == 0:
            return v <= 0 if kind == 'le' else v < 0 if kind == 'lt' else v == 0
        if isinstance(v, float) and v != v: return None
        if v == 0 and kind == 'le' and _plain(d): return True
        t = self.tol * (self.scale_of(d) + self.floor)
        if v == 0 and kind in ('le', 'eq') and self.scale_of(d) == 0: return True
        if kind == 'eq':
            # equality: equal within tolerance -> True (never None)
            return abs(v) <= t
        if abs(v) <= t: return None
        return v < 0

    def _ev(self, e):
        op = e.op
        a = e.args
        if op == 'c': return a[0]
        if op == 'v':
            try: return self.env[a[0]]
            except KeyError: raise Unknown('var ' + a[0])
        if op == 'lin':
            r = a[0]
            for t, k in a[1]:
                v = self.ev(t)
                if v is None: return None
                if isinstance(v, float) and isinstance(k, Fraction): k = float(k)
                if isinstance(v, float) and isinstance(r, Fraction): r = float(r)
                if isinstance(r, float) and isinstance(v, Fraction): v = float(v); k = float(k)
                r = r + k * v
            return r
        if op == 'mul':
            r = 1
            for t in a:
                v = self.ev(t)
                if v is None: return None
                if isinstance(v, float) and isinstance(r, Fraction): r = float(r)
                if isinstance(r, float) and isinstance(v, Fraction): v = float(v)
                r = r * v
            return r
        if op == 'and':
            u = False
            for x in a:
                v = self.ev(x)
                if v is False: return False
                if v is None: u = True
            return None if u else True
        if op == 'or':
            u = False
            for x in a:
                try:
                    v = self.ev(x)
                except Unknown:
                    u = True; continue
                if v is True: return True
                if v is None: u = True
            return None if u else False
        if op == 'not':
            v = self.ev(a[0])
            return None if v is None else not v
        if op == 'ite':
            c = self.ev(a[0])
            if c is None:
                x, y = self.ev(a[1]), self.ev(a[2])
                if x is not None and x == y: return x
                if x is not None and y is not None and e.sort == 'R' and \
                   abs(x - y) <= 10 * self.tol * (1e-9 + max(self.scale_of(a[1]), self.scale_of(a[2]))): return x
                return None
            return self.ev(a[1]) if c else self.ev(a[2])
        if op == 'le0': return self._cmp(a[0], 'le')
        if op == 'lt0': return self._cmp(a[0], 'lt')
        if op == 'eq0': return self._cmp(a[0], 'eq')
        if op == 'div':
            x, y = self.ev(a[0]), self.ev(a[1])
            if x is None or y is None: return None
            if y == 0: raise Unknown('division by zero')
            if isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)): return Fraction(x) / Fraction(y)
            return float(x) / float(y)
        if op == 'idiv':
            x, y = self.ev(a[0]), self.ev(a[1])
            if x is None or y is None: return None
            if y == 0: raise Unknown('division by zero')
            return x // y
        if op == 'imod':
            x, y = self.ev(a[0]), self.ev(a[1])
            if x is None or y is None: return None
            return x % y
        if op == 'uns':
            x = self.ev(a[1])
            return None if x is None else x % (1 << a[0])
        if op == 'wrap':
            x = self.ev(a[1])
            h = 1 << (a[0] - 1)
            return None if x is None else (x + h) % (2 * h) - h
        if op == 'i2r':
            v = self.ev(a[0])
            return None if v is None else Fraction(v)
        if op == 'floor':
            v = self.ev(a[0])
            if v is None: return None
            if self.tol and isinstance(v, float) and abs(v - round(v)) < self.tol * max(1, abs(v)): return None
            return math.floor(v)
        if op == 'sqrt':
            v = self.ev(a[0])
            if v is None: return None
            if v < 0:
                if self.tol and v > -self.tol * (1 + self.scale_of(a[0])): return 0.0
                raise Unknown('sqrt of negative')
            if isinstance(v, (int, Fraction)):
                v = Fraction(v)
                p, q = isqrt(v.numerator), isqrt(v.denominator)
                if p * p == v.numerator and q * q == v.denominator: return Fraction(p, q)
            return math.sqrt(v)
        if op == 'app':
            args = [self.ev(x) for x in a[1:]]
            if any(x is None for x in args): return None
            if a[0] in TRANS and len(args) == 1: return getattr(math, a[0])(args[0])
            return self.fn(a[0], args)
        if op == 'sum':
            n = self.ev(a[1])
            r = 0
            for i in range(max(0, int(n))):
                v = self.sub(a[0], {sum_var(e).args[0]: i})
                if v is None: return None
                if isinstance(v, float) and isinstance(r, Fraction): r = float(r)
                if isinstance(r, float) and isinstance(v, Fraction): v = float(v)
                r = r + v
            return r
        if op == 'forall':
            return self._forall(e)
        if op == 'bveq': return self.ev(a[0]) == self.ev(a[1])
        if op.startswith('bv'):
            n = [BV(self.ev(x), bvw(x)) if isinstance(x, E) else x for x in a]
            return bvop(op, e.sort, *n).args[0]
        raise NotImplementedError(op)

    def _forall(self, e):
        vs, body = e.args
        def go(i, env):
            if i == len(vs):
                return self.sub(body, env)
            v = vs[i]
            lo, hi = self._range(v, vs, body, env)
            u = False
            for x in range(lo, hi):
                r = go(i + 1, {**env, v.args[0]: x})
                if r is False: return False
                if r is None: u = True
            return None if u else True
        return go(0, {})

    def _range(self, v, vs, body, env):
        """bounds of v implied by negated-guard disjuncts of body"""
        lits = body.args if body.op == 'or' else (body,)
        los, his = [], []
        later = set(vs)
        for l in lits:
            # l is a disjunct; its negation is assumed
            n = not_(l)
            for g in (n.args if n.op == 'and' else (n,)):
                if g.op != 'le0': continue
                c, d = ld(g.args[0])
                k = d.pop(v, 0)
                if abs(k) != 1: continue
                rest = mklin(c, d, 'I')
                fv = freevars(rest)
                if any(w in fv for w in later if w is not v and w.args[0] not in env): continue
                try: val = self.sub(rest, env)
                except Unknown: continue
                if val is None: continue
                if k == 1: his.append(-val)      # v <= -rest
                else: los.append(val)
        if not los or not his: raise Unknown('unbounded quantifier ' + show(body)[:200])
        lo, hi = max(los), min(his) + 1
        if hi - lo > 4096: raise Unknown('range too large')
        return int(lo), int(hi)


# ------------------------------------------------------------------ polynomials
class TooBig(Exception):
    pass


def poly(e, cap=20000, memo=None):
    """expand to {monomial: coef}; monomial = sorted tuple of atom ids (with repetition)"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x.id)
        if r is not None: return r
        if x.op == 'c': r = {(): Fraction(x.args[0])} if x.args[0] != 0 else {}
        elif x.op == 'lin':
            r = {}
            if x.args[0] != 0: r[()] = Fraction(x.args[0])
            for t, k in x.args[1]:
                for m, c in go(t).items():
                    v = r.get(m, 0) + c * k
                    if v == 0: r.pop(m, None)
                    else: r[m] = v
        elif x.op == 'mul':
            r = {(): Fraction(1)}
            for t in x.args: r = pmul(r, go(t), cap)
        else: r = {(x.id,): Fraction(1)}
        if len(r) > cap: raise TooBig()
        memo[x.id] = r
        return r
    return go(e)


def pmul(a, b, cap=20000):
    if len(a) * len(b) > cap * 20: raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n)) if m and n else (m or n)
            v = r.get(k, 0) + c * d
            if v == 0: r.pop(k, None)
            else: r[k] = v
    if len(r) > cap: raise TooBig()
    return r


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v == 0: r.pop(m, None)
        else: r[m] = v
    return r


def byid():
    return {e.id: e for e in _tab.values()}


def is_zero(d):
    """decide d == 0 as a rational function with sqrt atoms (sound, incomplete).
    Divisors are assumed non-zero (they are on the path condition)."""
    try:
        n, _ = ratfun(d)
        return reduce_sqrt(n) == {}
    except TooBig:
        return False


def ratfun(e, memo=None):
    memo = {} if memo is None else memo
    one = {(): Fraction(1)}

    def go(x):
        r = memo.get(x.id)
        if r is not None: return r
        if x.op == 'c': r = ({(): Fraction(x.args[0])} if x.args[0] != 0 else {}, one)
        elif x.op == 'lin':
            n, dn = ({(): Fraction(x.args[0])} if x.args[0] != 0 else {}), one
            for t, k in x.args[1]:
                a, b = go(t)
                if b == dn: n = padd(n, a, k)
                else:
                    n = padd(pmul(n, b), pmul(a, dn), k)
                    dn = pmul(dn, b)
            r = (n, dn)
        elif x.op == 'mul':
            n, dn = one, one
            for t in x.args:
                a, b = go(t)
                n = pmul(n, a); dn = pmul(dn, b)
            r = (n, dn)
        elif x.op == 'div':
            a, b = go(x.args[0]); c, d = go(x.args[1])
            r = (pmul(a, d), pmul(b, c))
        else: r = ({(x.id,): Fraction(1)}, one)
        memo[x.id] = r
        return r
    return go(e)


def reduce_sqrt(p):
    """replace s*s by its radicand for sqrt atoms"""
    ids = set(i for m in p for i in m)
    sq = {}
    for e in list(_tab.values()):
        if e.id in ids and e.op == 'sqrt': sq[e.id] = e
    if not sq: return p
    for _ in range(6):
        chg = False
        out = {}
        for m, c in p.items():
            hit = None
            for i in range(len(m) - 1):
                if m[i] == m[i + 1] and m[i] in sq: hit = i; break
            if hit is None:
                v = out.get(m, 0) + c
                if v == 0: out.pop(m, None)
                else: out[m] = v
                continue
            chg = True
            rest = m[:hit] + m[hit + 2:]
            n, d = ratfun(sq[m[hit]].args[0])
            if d != {(): Fraction(1)}: return p
            out = padd(out, pmul({rest: c}, n))
        p = out
        if not chg: break
    return p
