"""Contract language: parameter layouts, pre/postconditions, symbolic and concrete views."""
import random, struct, ctypes, re
from fractions import Fraction
from .expr import *
from . import expr as X
from .ir import INT, DBL, FLT, PTR, sizeof
from .exec import *
from .exec import OS, Obj

KS = {'f8': 8, 'f4': 4, 'i8': 8, 'i4': 4, 'i2': 2, 'i1': 1, 'b': 1, 'u1': 1, 'u8': 8, 'u4': 4, 'w4': 4, 'w8': 8}
INT_MAX = (1 << 31) - 1
SIZE_LIM = 1 << 24       # stated limit on container sizes


def ktype(k):
    if k == 'f8': return DBL
    if k == 'f4': return FLT
    return INT(8 * KS[k])


def krange(k):
    if k[0] == 'b': return 0, 1
    n = 8 * KS[k]
    if k[0] == 'f': return None, None
    if k[0] == 'w': return 0, (1 << n) - 1
    return -(1 << (n - 1)), (1 << (n - 1)) - 1


def kvar(name, k, lo=None, hi=None):
    if k[0] == 'f': return var(name, 'R')
    if k[0] == 'w': return var(name, 'V%d' % (8 * KS[k]))      # machine word as a bit vector
    l, h = krange(k)
    return var(name, 'I', l if lo is None else lo, h if hi is None else hi)


def kfld(k): return 'f' if k[0] == 'f' else 'i'


def ncell(k): return KS[k]


def rnd_real(rng, mode):
    m = mode
    if m == 0: return float(rng.randint(-3, 3))
    if m == 1: return rng.randint(-8, 8) / 2.0
    if m == 2: return rng.randint(-64, 64) / 16.0
    if m == 3: return rng.uniform(-10, 10)
    return rng.uniform(0, 1)


class View:
    """attribute bag"""
    def __init__(s, **k): s.__dict__.update(k)


class BufView(list):
    pass


class ArrView:
    def __init__(s, ln, rd, n=1, extra=None):
        s.len = ln; s._rd = rd; s.n = n
        if extra: s.__dict__.update(extra)

    def at(s, i, k=0, f=None):
        i = lift(i, 'I')
        if isinstance(k, str): return s._rd(i, k)
        ix = add(mul(i, I(s.n)), lift(k, 'I')) if s.n != 1 else i
        return s._rd(ix, f)

    def raw(s, ix, f=None): return s._rd(lift(ix, 'I'), f)


# ------------------------------------------------------------------ parameters
class Param:
    mode = 'in'
    size = 8
    align = 8
    byptr = True
    variants = (None,)

    def gen(s, rng, out, mode): pass


class Scalar(Param):
    """scalar passed by value"""
    byptr = False

    def __init__(s, name, k='f8', lo=None, hi=None, vals=None, glo=None, ghi=None):
        s.name = name; s.k = k; s.lo = lo; s.hi = hi; s.size = s.align = KS[k]; s.vals = vals
        s.glo = glo if glo is not None else lo; s.ghi = ghi if ghi is not None else hi

    def sym(s, pre=''):
        return kvar(pre + s.name, s.k, s.lo, s.hi)

    def make(s, ex, st, variant):
        v = s.sym()
        if s.k == 'b': return eq(v, I(1))
        return v

    # embedding in a struct
    def place(s, ex, st, o, off, variant): st.mem[o].cells[off] = (s.size, s.sym())

    def read(s, ex, st, o, off): return ex.rawload(st, Ptr(o, I(off)), ktype(s.k), s.size, '')

    def gen(s, rng, out, mode):
        if s.vals: out[s.name] = rng.choice(s.vals); return
        if s.k[0] == 'f':
            v = rnd_real(rng, mode)
            if s.glo is not None and s.ghi is not None and not s.glo <= v <= s.ghi: v = s.glo + (s.ghi - s.glo) * rng.choice([0, 1, 0.5, rng.random(), rng.random()])
            elif s.glo is not None and v < s.glo: v = s.glo + abs(v)
            elif s.ghi is not None and v > s.ghi: v = s.ghi - abs(v)
            out[s.name] = v
        elif s.k == 'b': out[s.name] = rng.randint(0, 1)
        else:
            lo, hi = krange(s.k)
            a = s.glo if s.glo is not None else max(lo, -4)
            b = s.ghi if s.ghi is not None else min(hi, max(a + 8, 8))
            if rng.random() < 0.8: b = min(b, a + 8)
            out[s.name] = rng.randint(a, b)

    def ctype(s):
        return {'f8': ctypes.c_double, 'f4': ctypes.c_float, 'i8': ctypes.c_int64, 'i4': ctypes.c_int32, 'i1': ctypes.c_int8,
                'b': ctypes.c_bool, 'i2': ctypes.c_int16, 'u8': ctypes.c_uint64, 'u4': ctypes.c_uint32, 'u1': ctypes.c_uint8, 'w4': ctypes.c_uint32, 'w8': ctypes.c_uint64}[s.k]

    def fromct(s, v):
        if s.k[0] in 'iu':
            n = 8 * KS[s.k]
            v = int(v)
            return (v + (1 << (n - 1))) % (1 << n) - (1 << (n - 1))
        return int(v) if s.k == 'b' else v


D = Scalar


def Int(name, lo=None, hi=None, k='i4', **kw): return Scalar(name, k, lo, hi, **kw)


PACK = {'f8': 'd', 'f4': 'f', 'i8': 'q', 'i4': 'i', 'i2': 'h', 'i1': 'b', 'b': 'B', 'u1': 'B', 'u8': 'Q', 'u4': 'I', 'w4': 'I', 'w8': 'Q'}


def pk(k, v):
    if k[0] == 'f':
        return struct.pack('<' + PACK[k], float(v))
    v = int(v)
    n = 8 * KS[k]
    if k in ('b', 'u1', 'u4', 'u8', 'w4', 'w8'): v %= (1 << n)
    else: v = (v + (1 << (n - 1))) % (1 << n) - (1 << (n - 1))
    return struct.pack('<' + PACK[k], v)


def upk(k, b):
    return struct.unpack('<' + PACK[k], b)[0]


class Buf(Param):
    """pointer to a fixed number of scalars (or heterogeneous list of kinds)"""

    def __init__(s, name, k='f8', n=1, mode='in', lo=None, hi=None, gen=None, align=None):
        s.name = name; s.n = n; s.mode = mode; s.lo = lo; s.hi = hi; s._gen = gen
        s.ks = k if isinstance(k, (list, tuple)) else [k] * n
        s.n = len(s.ks)
        s.offs = []
        o = 0
        for q in s.ks:
            a = KS[q]; o = (o + a - 1) // a * a
            s.offs.append(o); o += KS[q]
        s.align = align or max([KS[q] for q in s.ks] or [1])
        s.size = (o + s.align - 1) // s.align * s.align

    def sym(s, pre=''):
        return BufView(kvar('%s%s[%d]' % (pre, s.name, i), q, s.lo, s.hi) for i, q in enumerate(s.ks))

    def make(s, ex, st, variant):
        o = Obj(s.name, 'input')
        st.mem[o] = OS(I(s.size))
        st.extra.setdefault('roots', {})
        s.place(ex, st, o, 0, variant)
        return Ptr(o, I(0))

    def place(s, ex, st, o, off, variant):
        if s.mode == 'out': 
            o.kind = 'outbuf'
            return
        vs = s.sym()
        for i, q in enumerate(s.ks):
            v = vs[i]
            st.mem[o].cells[off + s.offs[i]] = (KS[q], v)

    def read(s, ex, st, o, off):
        return BufView(ex.rawload(st, Ptr(o, I(off + s.offs[i])), ktype(q), KS[q], '') for i, q in enumerate(s.ks))

    def gen(s, rng, out, mode):
        for i, q in enumerate(s.ks):
            if s._gen: v = s._gen(rng, i)
            elif q[0] == 'f':
                v = rnd_real(rng, mode)
                if s.lo is not None and v < s.lo: v = s.lo + abs(v)
            else: v = rng.randint(max(krange(q)[0], s.lo if s.lo is not None else -4), min(krange(q)[1], s.hi if s.hi is not None else 8))
            out['%s[%d]' % (s.name, i)] = v

    def packb(s, vals, nat):
        b = bytearray(b'\xA5' * s.size)
        if s.mode != 'out':
            for i, q in enumerate(s.ks): b[s.offs[i]:s.offs[i] + KS[q]] = pk(q, vals['%s[%d]' % (s.name, i)])
        return bytes(b)

    def unpackb(s, b, out, nat, pre='new.'):
        for i, q in enumerate(s.ks): out['%s%s[%d]' % (pre, s.name, i)] = upk(q, b[s.offs[i]:s.offs[i] + KS[q]])


def Out(name, k='f8', n=1): return Buf(name, k, n, mode='out')


class Elem:
    """element layout of a sequence: homogeneous (kind, n) or heterogeneous [(field, kind)]"""

    def __init__(s, k, n=1):
        if isinstance(k, str):
            s.k = k; s.n = n; s.stride = KS[k]; s.size = KS[k] * n; s.fields = [(None, 0, k)]
            s.align = KS[k]
            s.het = False
        else:
            s.het = True; s.n = 1; s.fields = []
            o = 0; al = 1
            for f, q in k:
                a = KS[q]; al = max(al, a); o = (o + a - 1) // a * a
                s.fields.append((f, o, q)); o += KS[q]
            s.size = s.stride = (o + al - 1) // al * al
            s.align = al


def arbitrary(name, ix, q):
    lo, hi = krange(q)
    return app('unset!' + name, (ix,), 'R' if q[0] == 'f' else 'I', lo, hi)


class Seq(Param):
    """common to raw arrays and Vectors"""

    def fname(s, f, pre=''): return pre + s.name + ('.' + f if f else '')

    def symat(s, pre=''):
        def rd(ix, f):
            q = next(q for ff, _, q in s.el.fields if ff == f)
            lo, hi = krange(q)
            if s.lo is not None and lo is not None and pre == '': lo = s.lo
            if s.hi is not None and hi is not None and pre == '': hi = s.hi
            return app(s.fname(f, pre), (ix,), 'R' if q[0] == 'f' else 'I', lo, hi)
        return rd

    def arrs(s):
        d = {}
        for f, o, q in s.el.fields:
            lo, hi = krange(q)
            if s.lo is not None and lo is not None: lo = s.lo
            if s.hi is not None and hi is not None: hi = s.hi
            d[(o, KS[q], kfld(q))] = ABase(s.fname(f), 'R' if q[0] == 'f' else 'I', lo, hi)
        return d

    def storage(s, ex, st, cnt, heap):
        o = Obj(s.name + '.data' if heap else s.name, 'input' if s.mode != 'out' else 'outbuf', heap=heap)
        os_ = OS(mul(cnt, I(s.el.size)))
        os_.stride = s.el.stride
        if s.mode != 'out' or True: os_.arrs = s.arrs()
        st.mem[o] = os_
        return o

    def reader(s, ex, st, o, keys=()):
        os_ = st.mem[o]

        def rd(ix, f):
            fo, q = next((fo, q) for ff, fo, q in s.el.fields if ff == f)
            a = os_.arrs.get((fo, KS[q], kfld(q))) if os_.stride is not None else None
            if a is not None and os_.stride == s.el.stride: return aread(a, keys + (ix,))
            if os_.stride is not None:
                r = ex.arr_index(os_, add(mul(ix, I(s.el.stride)), I(fo)), KS[q], kfld(q))
                if r is not None and r[0] in os_.arrs: return aread(os_.arrs[r[0]], keys + (r[1],))
            if keys: return ex.rawload(st, Ptr(o, add(mul(ix, I(s.el.stride)), I(fo)), keys), ktype(q), KS[q], '')
            # what was never written is an arbitrary value; a specification that depends on it does not hold
            r = arbitrary(o.name + (f or ''), ix, q)
            off = add(mul(ix, I(s.el.stride)), I(fo))
            for x in sorted(x for x, cl in os_.cells.items() if cl[0] == KS[q] and ex.samekind(cl[1], ktype(q))):
                e = eq(off, I(x))
                if e is not FALSE: r = ite(e, ex.coerce(os_.cells[x][1], ktype(q)), r)
            return r
        return rd

    def genvals(s, rng, n, mode):
        out = {}
        for f, _, q in s.el.fields:
            L = []
            for i in range(n * s.el.n):
                if s._gen: L.append(s._gen(rng, i))
                elif q[0] == 'f':
                    v = rnd_real(rng, mode)
                    if s.lo is not None and v < s.lo: v = s.lo + abs(v)
                    L.append(v)
                elif q == 'b': L.append(rng.randint(0, 1))
                else: L.append(rng.randint(s.lo if s.lo is not None else (-4 if q[0] == 'i' else 0), s.hi if s.hi is not None else 8))
            out[f] = L
        return out

    def packels(s, vals, n):
        b = bytearray(b'\xA5' * (n * s.el.size))
        if s.el.het:
            for f, o, q in s.el.fields:
                L = vals[s.fname(f)]
                for i in range(n): b[i * s.el.size + o:i * s.el.size + o + KS[q]] = pk(q, L[i])
        else:
            L = vals[s.name]; q = s.el.k
            for i in range(n * s.el.n): b[i * KS[q]:(i + 1) * KS[q]] = pk(q, L[i])
        return bytes(b)

    def unpackels(s, b, n, out, pre):
        if s.el.het:
            for f, o, q in s.el.fields:
                out[s.fname(f, pre)] = [upk(q, b[i * s.el.size + o:i * s.el.size + o + KS[q]]) for i in range(n)]
        else:
            q = s.el.k
            out[pre + s.name] = [upk(q, b[i * KS[q]:(i + 1) * KS[q]]) for i in range(n * s.el.n)]


class Arr(Seq):
    """raw pointer to `len` elements; len is a function of the scalar view or a parameter name"""

    def __init__(s, name, k='f8', ln='n', mode='in', n=1, lo=None, hi=None, gen=None):
        s.name = name; s.el = Elem(k, n); s.ln = ln; s.mode = mode; s.lo = lo; s.hi = hi; s._gen = gen; s.heap = False

    def lenof(s, view):
        if callable(s.ln): return lift(s.ln(view), 'I')
        if isinstance(s.ln, int): return I(s.ln)
        return getattr(view, s.ln)

    def make(s, ex, st, variant):
        o = s.storage(ex, st, s.lenof(st.extra['view']), False)
        st.extra['objs'] = {**st.extra.get('objs', {}), s.name: o}
        return Ptr(o, I(0))

    def symv(s, view, pre=''): return ArrView(s.lenof(view), s.symat(pre), s.el.n)
    def readv(s, ex, st, o, view): return ArrView(s.lenof(view), s.reader(ex, st, o), s.el.n)


class Vec(Seq):
    """um2::Vector<T>& (three pointers)"""
    size = 24
    align = 8

    def __init__(s, name, k='f8', mode='in', n=1, lo=None, hi=None, gen=None, maxlen=SIZE_LIM, glen=None, nullable=False, exactcap=False, minlen=0, onlynull=False):
        s.name = name; s.el = Elem(k, n); s.mode = mode; s.lo = lo; s.hi = hi; s._gen = gen; s.maxlen = maxlen
        s.glen = glen; s.nullable = nullable; s.exactcap = exactcap; s.minlen = minlen
        s.variants = ('null',) if onlynull else ('data', 'null') if nullable else ('data',)
        s.onlynull = onlynull
        if minlen > 0 and not onlynull: s.variants = ('data',)

    def lenv(s, pre=''): return var(pre + s.name + '.len', 'I', s.minlen, s.maxlen)
    def capv(s, pre=''): return s.lenv(pre) if s.exactcap else var(pre + s.name + '.cap', 'I', 0, s.maxlen)

    def make(s, ex, st, variant):
        o = Obj(s.name, 'input')
        st.mem[o] = OS(I(24))
        s.place(ex, st, o, 0, variant)
        return Ptr(o, I(0))

    def place(s, ex, st, o, off, variant):
        c = st.mem[o].cells
        if variant and variant.get(s.name) == 'null':
            for i in range(3): c[off + 8 * i] = (8, NULL)
            st.assume(eq(s.lenv(), I(0)))
            if not s.exactcap: st.assume(eq(s.capv(), I(0)))
            return
        d = s.storage(ex, st, s.capv(), True)
        st.extra['live'] = st.extra.get('live', ()) + (d,)
        st.assume(le(s.lenv(), s.capv()))
        if s.nullable: st.assume(le(I(1), s.capv()))
        S = s.el.size
        c[off] = (8, Ptr(d, I(0))); c[off + 8] = (8, Ptr(d, mul(s.lenv(), I(S)))); c[off + 16] = (8, Ptr(d, mul(s.capv(), I(S))))

    def sym(s, pre=''):
        return ArrView(s.lenv(pre), s.symat(pre), s.el.n, dict(cap=s.capv(pre)))

    def read(s, ex, st, o, off):
        c = st.mem[o].cells
        ps = []
        for i in range(3):
            v = c.get(off + 8 * i)
            if v is None or not isinstance(v[1], Ptr): raise Unsupported('Vector header of %s not pointers' % s.name)
            ps.append(v[1])
        b, e, x = ps
        S = I(s.el.size)
        if b.obj is None:
            if e.obj is not None or x.obj is not None: raise Unsupported('inconsistent Vector header')
            return ArrView(I(0), lambda ix, f: arbitrary(s.name + (f or ''), ix, next(q for ff, _, q in s.el.fields if ff == f)), s.el.n, dict(cap=I(0), obj=None))
        if e.obj is not b.obj or x.obj is not b.obj: raise Unsupported('inconsistent Vector header')
        return ArrView(idiv(sub(e.off, b.off), S), s.reader_off(ex, st, b), s.el.n, dict(cap=idiv(sub(x.off, b.off), S), obj=b.obj, begin=b))

    def reader_off(s, ex, st, b):
        rd = s.reader(ex, st, b.obj, b.keys)
        if b.off.op == 'c' and b.off.args[0] == 0: return rd
        d = idiv(b.off, I(s.el.stride))
        return lambda ix, f: rd(add(ix, d), f)

    def gen(s, rng, out, mode):
        n = s.glen(rng) if s.glen else rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6])
        n = 0 if s.onlynull else max(n, s.minlen)
        out[s.name + '.len'] = n
        out[s.name + '.cap'] = n if s.onlynull else n if s.exactcap or rng.random() < 0.4 else n + rng.randint(0, 4)
        for f, L in s.genvals(rng, n, mode).items(): out[s.fname(f)] = L

    def packb(s, vals, nat):
        n = vals[s.name + '.len']; c = vals.get(s.name + '.cap', n)
        if c == 0: return struct.pack('<QQQ', 0, 0, 0)
        p = nat.alloc(c * s.el.size)
        nat.poke(p, s.packels(vals, n))
        return struct.pack('<QQQ', p, p + n * s.el.size, p + c * s.el.size)

    def unpackb(s, b, out, nat, pre='new.'):
        p, e, x = struct.unpack('<QQQ', b[:24])
        S = s.el.size
        if p == 0:
            if e or x: raise BadState('vector header')
            n = c = 0; data = b''
        else:
            if (e - p) % S or (x - p) % S or e < p or x < e: raise BadState('vector header of %s inconsistent' % s.name)
            n = (e - p) // S; c = (x - p) // S
            bs = nat.blocksize(p)
            if bs != c * S: raise BadState('vector storage of %s is not a live block of its capacity' % s.name)
            data = nat.peek(p, n * S)
        out[pre + s.name + '.len'] = n; out[pre + s.name + '.cap'] = c
        s.unpackels(data, n, out, pre)


class RowsView:
    """a table of rows of possibly different lengths"""

    def __init__(s, ln, rowlen, at): s.len = ln; s.n = lambda i: rowlen(lift(i, 'I')); s.at = lambda i, j: at(lift(i, 'I'), lift(j, 'I'))


class Rows(Param):
    """um2::Vector<um2::Vector<T>> const &; the storage of row i is member i of a family of blocks"""
    size = 24
    align = 8
    mode = 'in'

    def __init__(s, name, k='i4', maxlen=SIZE_LIM, maxcol=SIZE_LIM, minlen=0, lo=None, hi=None, glen=None, gcol=None, even=None, gen=None):
        s.name = name; s.k = k; s.maxlen = maxlen; s.maxcol = maxcol; s.minlen = minlen; s.lo = lo; s.hi = hi; s.glen = glen; s.gcol = gcol; s.even = even; s._gen = gen

    def sym(s, pre=''):
        lo, hi = krange(s.k)
        if s.lo is not None: lo = s.lo
        if s.hi is not None: hi = s.hi
        return RowsView(var(s.name + '.len', 'I', s.minlen, s.maxlen), lambda i: app(s.name + '.n', (i,), 'I', 0, s.maxcol),
                        lambda i, j: app(s.name, (i, j), 'R' if s.k[0] == 'f' else 'I', lo, hi))

    def make(s, ex, st, variant):
        from .exec import Obj as O, OS as S_, ABase as B, Ptr as P
        v = s.sym()
        o = O(s.name, 'input', const=True); rows = O(s.name + '.rows', 'input', const=True, heap=True); fam = O(s.name + '.data', 'input', const=True, heap=True, fam=True)
        S = KS[s.k]
        lo, hi = krange(s.k)
        if s.lo is not None: lo = s.lo
        if s.hi is not None: hi = s.hi
        st.mem[o] = S_(I(24))
        c = st.mem[o].cells
        c[0] = (8, P(rows, I(0))); c[8] = (8, P(rows, mul(v.len, I(24)))); c[16] = (8, P(rows, mul(v.len, I(24))))
        os_ = S_(mul(v.len, I(24)))
        os_.stride = 24
        end = lambda ix: P(fam, mul(v.n(ix[0]), I(S)), ix)
        os_.arrs = {(0, 8, 'p'): B(s.name + '.b', 'P', fam=lambda ix: P(fam, I(0), ix)), (8, 8, 'p'): B(s.name + '.e', 'P', fam=end), (16, 8, 'p'): B(s.name + '.c', 'P', fam=end)}
        st.mem[rows] = os_
        fs = S_(lambda keys: mul(v.n(keys[0]), I(S)))
        fs.stride = S
        fs.arrs = {(0, S, kfld(s.k)): B(s.name, 'R' if s.k[0] == 'f' else 'I', lo, hi)}
        st.mem[fam] = fs
        return P(o, I(0))

    def read(s, ex, st, o, off): return s.sym()

    def gen(s, rng, out, mode):
        n = max(s.minlen, s.glen(rng) if s.glen else rng.choice([1, 1, 2, 2, 3, 3, 4, 5]))
        even = rng.random() < .85 if s.even is None else s.even
        w = s.gcol(rng) if s.gcol else rng.choice([1, 2, 2, 3, 3, 4])
        L = []
        for i in range(n):
            q = w if even else max(0, w + rng.choice([0, 0, 1, -1]))
            if s.k[0] == 'f': L.append([rnd_real(rng, mode) for _ in range(q)])
            else: L.append([s._gen(rng) if s._gen else rng.randint(s.lo if s.lo is not None else -2, s.hi if s.hi is not None else 6) for _ in range(q)])
        out[s.name + '.len'] = n; out[s.name + '.n'] = [len(r) for r in L]; out[s.name] = L

    def packb(s, vals, nat):
        n = vals[s.name + '.len']
        s._blocks = []
        if n == 0: return struct.pack('<QQQ', 0, 0, 0)
        b = b''
        S = KS[s.k]
        for i in range(n):
            r = vals[s.name][i]
            if not r: b += struct.pack('<QQQ', 0, 0, 0); continue
            p = nat.alloc(len(r) * S)
            by = b''.join(pk(s.k, x) for x in r)
            nat.poke(p, by)
            s._blocks.append((p, by))
            b += struct.pack('<QQQ', p, p + len(r) * S, p + len(r) * S)
        p = nat.alloc(24 * n)
        nat.poke(p, b)
        s._blocks.append((p, b))
        return struct.pack('<QQQ', p, p + 24 * n, p + 24 * n)

    def unpackb(s, b, out, nat, pre='new.'):
        for p, by in s._blocks if out is not None and getattr(s, '_blocks', None) else ():
            if nat.peek(p, len(by)) != by: raise BadState('%s was modified' % s.name)


class BadState(Exception):
    pass


class Struct(Param):
    """object with named sub-parameters in C layout order"""

    def __init__(s, name, fields, mode='inout', size=None):
        s.name = name; s.mode = mode
        s.fs = fields
        s.offs = []
        o = 0; al = 1
        for f in fields:
            al = max(al, f.align)
            o = (o + f.align - 1) // f.align * f.align
            s.offs.append(o); o += f.size
        s.align = al
        s.size = size or (o + al - 1) // al * al
        for f in fields:
            f.short = f.name
            _rename(f, name + '.' + f.name)

    def make(s, ex, st, variant):
        o = Obj(s.name, 'input')
        st.mem[o] = OS(I(s.size))
        s.place(ex, st, o, 0, variant)
        return Ptr(o, I(0))

    def place(s, ex, st, o, off, variant):
        for f, fo in zip(s.fs, s.offs): f.place(ex, st, o, off + fo, variant)

    def read(s, ex, st, o, off):
        return View(**{f.short: f.read(ex, st, o, off + fo) for f, fo in zip(s.fs, s.offs)})

    def sym(s, pre=''): return View(**{f.short: f.sym(pre) for f in s.fs})

    def gen(s, rng, out, mode):
        for f in s.fs: f.gen(rng, out, mode)

    def packb(s, vals, nat):
        b = bytearray(b'\x00' * s.size)
        for f, fo in zip(s.fs, s.offs):
            if isinstance(f, Scalar): b[fo:fo + f.size] = pk(f.k, vals[f.name])
            else: b[fo:fo + f.size] = f.packb(vals, nat)
        return bytes(b)

    def unpackb(s, b, out, nat, pre='new.'):
        for f, fo in zip(s.fs, s.offs):
            if isinstance(f, Scalar): out[pre + f.name] = upk(f.k, b[fo:fo + f.size])
            else: f.unpackb(b[fo:fo + f.size], out, nat, pre)

    def leaves(s):
        for f in s.fs:
            if isinstance(f, Struct): yield from f.leaves()
            else: yield f


def _rename(f, n):
    f.name = n
    if isinstance(f, Struct):
        for g in f.fs: _rename(g, n + '.' + g.short)


class Pad(Param):
    """bytes never read"""
    def __init__(s, name, size, align=1):
        s.name = name; s.size = size; s.align = align
    def place(s, *a): pass
    def read(s, *a): return None
    def sym(s, pre=''): return None
    def packb(s, v, nat): return b'\0' * s.size
    def unpackb(s, *a): pass


# ------------------------------------------------------------------ targets
class Target:
    """one function under contract"""

    def __init__(s, fn, params, ret=None, pre=None, post=None, opts=None, inv=None, gen=None, hooks=None, timeout=4.0,
                 tol=1e-9, about='', variants=None, bounded=None, samples=None, cover=True, budget=60, finite=True, frame=True, native=True, hints=None, fix=None, floor=1e-9, defs=None, npost=None, npre=None, check=None):
        s.check = check; s.npre = npre; s.floor = floor; s.defs = defs; s.npost = npost
        s.fix = fix
        s.fn = fn; s.params = params; s.ret = ret; s._pre = pre or (lambda c: []); s.post = post or (lambda c: [])
        s.opts = opts or {}; s.inv = inv; s._gen = gen; s.hooks = [(re.compile('.*(?:' + r + ')') if isinstance(r, str) else r, h) for r, h in hooks or []]; s.timeout = timeout; s.tol = tol; s.about = about
        s.bounded = bounded; s.samples = samples; s.cover = cover; s.budget = budget; s.name = fn; s.frame = frame; s.native = native
        s.hints = hints

    def sym_view(s, pre=''):
        v = View()
        for p in s.params:
            if isinstance(p, Scalar) and pre == '': setattr(v, p.name, p.sym())
        for p in s.params:
            if isinstance(p, Arr): setattr(v, p.name, p.symv(s.sym_scal(), pre))
            elif isinstance(p, Scalar): setattr(v, p.name, p.sym())
            else: setattr(v, p.name, p.sym(pre))
        return v

    def pre(s, c):
        r = list(s._pre(c))
        for p in s.params:
            if isinstance(p, Scalar) and p.k[0] == 'f':
                if p.lo is not None: r.append(('range', le(R(Fraction(p.lo)), getattr(c.old, p.name))))
                if p.hi is not None: r.append(('range', le(getattr(c.old, p.name), R(Fraction(p.hi)))))
        return r

    def sym_scal(s):
        v = View()
        for p in s.params:
            if isinstance(p, Scalar): setattr(v, p.name, p.sym())
        return v

    def variants(s):
        out = [{}]
        def vs(p):
            if isinstance(p, Struct):
                for f in p.fs: yield from vs(f)
            elif len(p.variants) > 1 or isinstance(p, Vec): yield p
        for p in s.params:
            for q in vs(p):
                out = [dict(o, **{q.name: v}) for o in out for v in q.variants]
        return out

    def generate(s, rng, mode):
        d = {}
        if s._gen:
            d = s._gen(rng, mode)
            if d is None: return None
        full = {}
        for p in s.params:
            if not isinstance(p, Arr): s.gen1(p, rng, full, mode, d)
        full.update(d)
        for p in s.params:
            if isinstance(p, Arr): s.gen1(p, rng, full, mode, d)
        full.update(d)
        if s.fix: s.fix(full, rng)
        return full

    def gen1(s, p, rng, d, mode, given):
        if isinstance(p, Arr):
            n = s.arr_len(p, {**d, **given})
            for f, L in p.genvals(rng, n, mode).items(): d[p.fname(f)] = L
        else: p.gen(rng, d, mode)

    def arr_len(s, p, vals):
        e = p.lenof(s.sym_scal())
        return max(0, int(Ev(vals).ev(e)))


class Ctx:
    def __init__(s, old, new, ret):
        s.old = old; s.new = new; s.ret = ret
        s.goals = []

    def __getattr__(s, n): return getattr(s.old, n)


def conc_fn(vals):
    """application evaluator over concrete array values"""
    def fn(name, args):
        L = vals.get(name)
        if L is None: raise X.Unknown('array ' + name)
        i = args[0]
        if isinstance(L, dict): return L[tuple(args)]
        for i in args:
            if not (0 <= i < len(L)): raise X.Unknown('%s[%s]' % (name, i))
            L = L[int(i)]
        return L
    return fn
