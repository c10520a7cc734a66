"""Symbolic executor / verification-condition generator for LLVM IR."""
import re, time, os
from fractions import Fraction
from math import gcd
from .expr import *
from . import expr as X
from .ir import *
from . import solve

DEBUG = os.environ.get('IRV_DEBUG')


class Bits:
    """several adjacent scalars moved as one wider floating-point register"""
    def __init__(self, parts): self.parts = parts

    def whole(self):
        if not all(isinstance(v, E) and v.sort == 'I' for _, v in self.parts): raise Unsupported('arithmetic on packed values')
        r = I(0); q = 0
        for w, v in self.parts: r = add(r, scale(uns(8 * w, v), 1 << q)); q += 8 * w
        return wrap(q, r)


class Unsupported(Exception):
    """the tool cannot translate something; never a violation"""


class AbortUnroll(Exception):
    pass


class Ptr:
    __slots__ = ("obj", "off", "keys")

    def __init__(s, obj, off, keys=()):
        s.obj = obj; s.off = off; s.keys = keys

    def __repr__(s): return 'Ptr(%s+%r%s)' % (s.obj.name if s.obj else 'null', s.off, s.keys if s.keys else '')


NULL = Ptr(None, I(0))


class PIte:
    """pointer chosen by a condition, only ever read through"""
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b


def _locals_in(v, out):
    if isinstance(v, Local): out.append(v.name)
    elif isinstance(v, (list, tuple)):
        for y in v: _locals_in(y, out)
    elif isinstance(v, dict):
        for y in v.values(): _locals_in(y, out)


def read_only_ptrs(f):
    """names of pointer selects of f whose only uses are scalar loads and such selects"""
    r = getattr(f, '_rop', None)
    if r is not None: return r
    sel = set(); bad = set(); dep = []
    for bl in (f.blocks.values() if isinstance(f.blocks, dict) else f.blocks):
        for x in bl.ins if hasattr(bl, 'ins') else bl:
            us = []
            _locals_in(x.a, us); _locals_in(x.x, us)
            if x.op == 'select': 
                sel.add(x.dst)
                for u in us: dep.append((u, x.dst))
            elif x.op == 'load' and x.ty.k in ('int', 'double', 'float'): pass
            else: bad.update(us)
    ch = True
    while ch:
        ch = False
        for u, d in dep:
            if d in bad and u not in bad: bad.add(u); ch = True
    f._rop = sel - bad
    return f._rop


class FnPtr:
    def __init__(s, name): s.name = name


class Undef:
    """undefined value of a type"""
    def __init__(s, ty): s.ty = ty


class Obj:
    """static identity of a memory object"""
    n = 0

    def __init__(s, name, kind, const=False, heap=False, fam=False):
        Obj.n += 1
        s.id = Obj.n; s.name = name; s.kind = kind; s.const = const; s.heap = heap; s.fam = fam

    def __repr__(s): return s.name


# ------------------------------------------------------------------ array values
class ABase:
    __slots__ = ("name", "sort", "lo", "hi", "fam")

    def __init__(s, name, sort, lo=None, hi=None, fam=None):
        s.name = name; s.sort = sort; s.lo = lo; s.hi = hi; s.fam = fam


class AStore:
    __slots__ = ("prev", "idx", "val")      # idx: tuple (keys..., index)

    def __init__(s, prev, idx, val): s.prev = prev; s.idx = idx; s.val = val


class ARange:
    """positions keys == keys0 and lo <= i < hi hold fn(i) (fn: E -> E)"""
    __slots__ = ("prev", "keys", "lo", "hi", "fn", "tag")

    def __init__(s, prev, keys, lo, hi, fn, tag=None): s.prev = prev; s.keys = keys; s.lo = lo; s.hi = hi; s.fn = fn; s.tag = tag


def abase(a):
    while not isinstance(a, ABase): a = a.prev
    return a


def aread(a, idx):
    """idx: tuple of E"""
    outs = []
    while True:
        if isinstance(a, ABase):
            if a.fam is not None:
                r = a.fam(idx) if callable(a.fam) else Ptr(a.fam, I(0), idx)
            else:
                r = app(a.name, idx, a.sort, a.lo, a.hi)
            break
        if isinstance(a, AStore):
            c = and_(*[eq(p, q) for p, q in zip(idx, a.idx)])
            if c is TRUE: r = a.val; break
            if c is not FALSE: outs.append((c, a.val))
            a = a.prev
            continue
        if isinstance(a, ARange):
            c = and_(*([eq(p, q) for p, q in zip(idx[:-1], a.keys)] + [le(a.lo, idx[-1]), lt(idx[-1], a.hi)]))
            if c is TRUE: r = a.fn(idx[-1]); break
            if c is not FALSE: outs.append((c, a.fn(idx[-1])))
            a = a.prev
            continue
    for c, v in reversed(outs):
        if isinstance(v, Ptr) or isinstance(r, Ptr):
            r = ptr_ite(c, v, r)
        else: r = ite(c, v, r)
    return r


def ptr_ite(c, a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and len(a.keys) == len(b.keys):
        return Ptr(a.obj, ite(c, a.off, b.off), tuple(ite(c, x, y) for x, y in zip(a.keys, b.keys)))
    raise Unsupported('merging pointers to different objects')


class OS:
    """object state (copied on write)"""
    __slots__ = ("size", "alive", "cells", "arrs", "stride", "init")

    def __init__(s, size, alive=True, cells=None, arrs=None, stride=None):
        s.size = size; s.alive = alive; s.cells = {} if cells is None else cells
        s.arrs = {} if arrs is None else arrs; s.stride = stride

    def copy(s):
        return OS(s.size, s.alive, dict(s.cells), dict(s.arrs), s.stride)


class State:
    __slots__ = ("pc", "pcset", "mem", "env", "flags", "trace", "assumed", "extra")

    def __init__(s):
        s.pc = []; s.pcset = set(); s.mem = {}; s.env = {}; s.flags = {}; s.trace = (); s.assumed = (); s.extra = {}

    def copy(s):
        n = State.__new__(State)
        n.pc = list(s.pc); n.pcset = set(s.pcset); n.mem = dict(s.mem); n.env = dict(s.env)
        n.flags = dict(s.flags); n.trace = s.trace; n.assumed = s.assumed; n.extra = dict(s.extra)
        return n

    def assume(s, e):
        if e.op == 'c':
            if not e.args[0]: s.pc.append(e); s.pcset.add(e)
            return
        if e.op == 'and':
            for x in e.args: s.assume(x)
            return
        if e in s.pcset: return
        s.pc.append(e); s.pcset.add(e)

    def dead(s): return FALSE in s.pcset

    def w(s, obj):
        o = s.mem[obj].copy()
        s.mem[obj] = o
        return o


class Obl:
    __slots__ = ("kind", "pc", "goal", "where", "hints", "state")

    def __init__(s, kind, pc, goal, where, hints=()):
        s.kind = kind; s.pc = pc; s.goal = goal; s.where = where; s.hints = hints


def undef_val(ty):
    if ty.k == 'int': return fresh('undef', 'B') if ty.n == 1 else fresh('undef', 'I', -(1 << (ty.n - 1)), (1 << (ty.n - 1)) - 1)
    if ty.k in ('double', 'float', 'x86_fp80'): return fresh('undef', 'R')
    if ty.k == 'ptr': return Undef(ty)
    if ty.k == 'vec' or ty.k == 'arr': return [undef_val(ty.el) for _ in range(ty.n)]
    if ty.k == 'struct': return [undef_val(t) for t in ty.els]
    return None


def scalar_kind(ty):
    if ty.k == 'int': return 'i'
    if ty.k in ('double', 'float', 'x86_fp80'): return 'f'
    if ty.k == 'ptr': return 'p'
    return None


def flat_fields(ty, base=0):
    """[(off, scalar type)] of a type"""
    if ty.k in ('vec', 'arr'):
        s = sizeof(ty.el)
        out = []
        for i in range(ty.n): out += flat_fields(ty.el, base + i * s)
        return out
    if ty.k == 'struct':
        out = []
        for o, t in zip(layout(ty), ty.els): out += flat_fields(t, base + o)
        return out
    return [(base, ty)]


def split_ite(t, k, S):
    """k*t = r + S*q with constant r, for a condition term whose leaves are all congruent modulo S"""
    if t.op != 'ite':
        c, it = ldview(scale(t, k))
        if any(x % S for _, x in it): return None
        return c % S, mklin(c // S, {u: x // S for u, x in it}, 'I')
    a = split_ite(t.args[1], k, S); b = split_ite(t.args[2], k, S)
    if a is None or b is None or a[0] != b[0]: return None
    return a[0], ite(t.args[0], a[1], b[1])


class Exec:
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.o = dict(unroll=70, maxpaths=6000, maxsteps=400000, prune=True, bv=False, overflow=True, div0='assume', loop_timeout=1.5,
                      float_uninit=True)
        if opts: self.o.update(opts)
        self.obls = []
        self.notes = {}          # assumption text -> count
        self.hooks = []          # (regex, handler)
        self.globals = {}
        self.quiet = 0
        self.npaths = 0
        self.steps = 0
        self.functions = {}
        self.loopinfo = []
        self.inv_templates = None
        self.cheap = 0; self.loopstack = []; self.kstack = []; self.loopfail = {}
        self.deadline = None
        self.callstack = []
        self.locals_alloc = 0
        self.fexec = 0
        self.unrolling = []

    # ------------------------------------------------------------ utilities
    def note(self, t):
        self.notes[t] = self.notes.get(t, 0) + 1

    def oblige(self, st, kind, goal, where='', hints=()):
        """emit obligation then assume it"""
        if not self.quiet:
            self.obls.append(Obl(kind, list(st.pc), goal, where, hints))
        st.assume(goal)

    def rng(self, n):
        return -(1 << (n - 1)), (1 << (n - 1)) - 1

    # ------------------------------------------------------------ memory
    def new_obj(self, st, name, kind, size, heap=False, const=False):
        o = Obj(name, kind, const, heap)
        st.mem[o] = OS(size)
        return o

    def global_ptr(self, st, name):
        if name in self.mod.funcs or name in self.mod.decls: return FnPtr(name)
        if name in self.globals:
            o = self.globals[name]
            if o not in st.mem: self._init_global(st, o, name)
            return Ptr(o, I(0))
        gi = self.mod.global_init(name)
        const = bool(gi and gi[2])
        o = Obj('@' + name, 'global', const)
        self.globals[name] = o
        self._init_global(st, o, name)
        return Ptr(o, I(0))

    def _init_global(self, st, o, name):
        gi = self.mod.global_init(name)
        if gi is None:
            st.mem[o] = OS(fresh('gsize', 'I', 0)); return
        ty, c, const = gi
        try: sz = sizeof(ty)
        except ValueError: sz = 8
        os_ = OS(I(sz))
        st.mem[o] = os_
        if c is not None and (const or self.o.get('global_init')):
            self._fill_const(st, os_, 0, ty, c)
        elif not const and name in self.o.get('global_vals', {}):
            self.o['global_vals'][name](self, st, o, os_)

    def _fill_const(self, st, os_, off, ty, c):
        if c.kind == 'str':
            for i, ch in enumerate(c.v): os_.cells[off + i] = (1, self.ic(ch - 256 if ch > 127 else ch, 8))
            return
        if c.kind == 'undef': return
        if c.kind == 'zero':
            for o, t in flat_fields(ty, off): os_.cells[o] = (sizeof(t), self.zero(t))
            return
        if c.kind == 'agg':
            if ty.k == 'struct':
                for (o, t, x) in zip(layout(ty), ty.els, c.v): self._fill_const(st, os_, off + o, t, x)
            else:
                s = sizeof(ty.el)
                for i, x in enumerate(c.v): self._fill_const(st, os_, off + i * s, ty.el, x)
            return
        os_.cells[off] = (sizeof(ty), self.const(st, c))

    def ic(self, v, n):
        if n == 1: return B(v)
        if self.o['bv']: return BV(v, n)
        v = (v + (1 << (n - 1))) % (1 << n) - (1 << (n - 1))
        return I(v)

    def zero(self, t):
        if t.k == 'int': return self.ic(0, t.n)
        if t.k == 'ptr': return NULL
        return R(0)

    def size_check(self, st, p, n, kind, where):
        """bounds / liveness of an access of n bytes (n int or E)"""
        if isinstance(p, Undef): raise Unsupported('access through undefined pointer')
        if isinstance(p, FnPtr): raise Unsupported('data access to function')
        if p.obj is None:
            self.oblige(st, kind + ': null pointer dereference', FALSE, where)
            return False
        os_ = st.mem.get(p.obj)
        if os_ is None: raise Unsupported('unknown object %s' % p.obj)
        if not os_.alive:
            self.oblige(st, kind + ': use after free of ' + p.obj.name, FALSE, where)
            return False
        n = n if isinstance(n, E) else I(n)
        size = os_.size(p.keys) if callable(os_.size) else os_.size
        self.oblige(st, kind + ' within bounds of ' + p.obj.name, and_(le(I(0), p.off), le(add(p.off, n), size)), where)
        return True

    def load(self, st, p, ty, where=''):
        if ty.k in ('vec', 'arr', 'struct'):
            if ty.k == 'struct':
                return [self.load(st, Ptr(p.obj, add(p.off, I(o)), p.keys), t, where) for o, t in zip(layout(ty), ty.els)]
            s = sizeof(ty.el)
            return [self.load(st, Ptr(p.obj, add(p.off, I(i * s)), p.keys), ty.el, where) for i in range(ty.n)]
        if isinstance(p, PIte):
            s1 = st.copy(); s1.assume(p.c)
            s2 = st.copy(); s2.assume(not_(p.c))
            return ite(p.c, self.load(s1, p.a, ty, where), self.load(s2, p.b, ty, where))
        nb = sizeof(ty)
        if not self.size_check(st, p, nb, 'read', where): return undef_val(ty)
        return self.rawload(st, p, ty, nb, where)

    def arr_index(self, os_, off, nb, kind):
        """(field key, index E) for an access in array mode, or None"""
        S = os_.stride
        c, it = ldview(off)
        if any(k % S for t, k in it):
            # an offset chosen by a condition: every choice has to be aligned the same way
            extra = []; rest = {}
            for t, k in it:
                if k % S == 0: rest[t] = k; continue
                r = split_ite(t, k, S)
                if r is None: return None
                c += r[0]; extra.append(r[1])
            f = c % S
            idx = mklin((c - f) // S, {t: k // S for t, k in rest.items()}, 'I')
            for e in extra: idx = add(idx, e)
            return (f, nb, kind), idx
        f = c % S
        key = (f, nb, kind)
        idx = mklin((c - f) // S, {t: k // S for t, k in it}, 'I')
        return key, idx

    def rawload(self, st, p, ty, nb, where):
        os_ = st.mem[p.obj]
        kind = scalar_kind(ty)
        off = p.off
        if os_.stride is not None:
            r = self.arr_index(os_, off, nb, kind)
            if r is not None:
                key, idx = r
                a = os_.arrs.get(key)
                if a is not None:
                    v = aread(a, p.keys + (idx,))
                    if ty.k == 'int' and ty.n == 1 and v.sort == 'I': v = ne(v, I(0))
                    return v
                # integer read of wider / narrower field, or uninitialised
                if kind == 'i':
                    v = self.int_pun_load(st, os_, off, nb, p, ty)
                    if v is not None: return v
                if kind == 'p' and (key[0], 8, 'i') in os_.arrs: raise Unsupported('pointer punning')
                if any(k[0] < key[0] + nb and key[0] < k[0] + k[1] for k in os_.arrs):
                    raise Unsupported('type punning load in %s: %r of %r' % (p.obj, key, list(os_.arrs)))
                self.note_uninit(st, p, where)
                return undef_val(ty)
            v = self.symoff(st, p, ty, nb, where)
            if v is not None: return v
            raise Unsupported('load offset %r not aligned to stride %d of %s' % (off, os_.stride, p.obj))
        if off.op != 'c':
            return self.load_sym_cells(st, p, ty, nb, where)
        o = off.args[0]
        c = os_.cells.get(o)
        if c is not None and c[0] == nb:
            return self.coerce(c[1], ty)
        if kind == 'i':
            v = self.int_pun_cells(os_, o, nb, ty)
            if v is not None: return v
        if kind == 'f' and c is None:
            v = None
        if kind == 'f':
            parts = sorted((k, c2) for k, c2 in os_.cells.items() if o <= k < o + nb)
            if len(parts) > 1 and parts[0][0] == o and all(a[0] + a[1][0] == b[0] for a, b in zip(parts, parts[1:])) and parts[-1][0] + parts[-1][1][0] == o + nb:
                return Bits([c2 for _, c2 in parts])
        if any(k < o + nb and o < k + c2[0] for k, c2 in os_.cells.items()):
            raise Unsupported('type punning load at %d size %d of %s: %r' % (o, nb, p.obj, sorted((k, c2[0]) for k, c2 in os_.cells.items())[:20]))
        self.note_uninit(st, p, where)
        v = undef_val(ty)
        return v

    def note_uninit(self, st, p, where):
        if p.obj.kind == 'input': raise Unsupported('read of undeclared part of input %s at %r' % (p.obj, p.off))

    def symoff(self, st, p, ty, nb, where):
        """array object read at a constant in-element offset given through a symbolic sub-index"""
        return None

    def int_pun_cells(self, os_, o, nb, ty):
        # assemble from smaller integer cells
        parts = []
        x = o
        while x < o + nb:
            c = os_.cells.get(x)
            if c is None: break
            v = c[1]
            if not isinstance(v, E) or v.sort not in ('I',): break
            parts.append((x - o, c[0], v))
            x += c[0]
        if len(parts) == 2 and nb == 8 and x == o + nb and parts[0][1] == 4 and not (isc(parts[0][2]) and isc(parts[1][2])):
            return Bits([(4, parts[0][2]), (4, parts[1][2])])
        if parts and x == o + nb:
            r = I(0)
            for q, s, v in parts: r = add(r, scale(uns(8 * s, v), 1 << (8 * q)))
            return wrap(8 * nb, r) if ty.n > 1 else ne(r, I(0))
        # part of a larger cell
        for k, (s, v) in os_.cells.items():
            if v is NULL or isinstance(v, Ptr) and v.obj is None and v.off.op == 'c' and v.off.args[0] == 0: v = I(0)
            if k <= o and o + nb <= k + s and isinstance(v, E) and v.sort == 'I':
                u = idiv(uns(8 * s, v), I(1 << (8 * (o - k))))
                return wrap(8 * nb, u)
        return None

    def int_pun_load(self, st, os_, off, nb, p, ty):
        S = os_.stride
        c, it = ldview(off)
        f = c % S
        idx = mklin((c - f) // S, {t: k // S for t, k in it}, 'I')
        parts = []
        x = f
        # smaller integer fields (possibly spilling into next elements)
        while x < f + nb:
            e = x // S
            hit = None
            for (fo, n, kd), a in os_.arrs.items():
                if fo == x % S and kd == 'i': hit = (n, a)
            if hit is None: break
            n, a = hit
            if x + n > f + nb: break
            parts.append((x - f, n, aread(a, p.keys + (add(idx, I(e)),))))
            x += n
        if parts and x == f + nb:
            r = I(0)
            for q, s, v in parts: r = add(r, scale(uns(8 * s, v), 1 << (8 * q)))
            return wrap(8 * nb, r)
        return None

    def coerce(self, v, ty):
        if isinstance(v, Undef): return undef_val(ty)
        if ty.k == 'int' and isinstance(v, E):
            if ty.n == 1 and v.sort == 'I': return ne(imod(v, I(2)), I(0)) if not (v.lo == 0 and v.hi == 1) else eq(v, I(1))
            if ty.n > 1 and v.sort == 'B': return ite(v, I(1), I(0))
            if v.sort == 'R': raise Unsupported('int load of float')
        if ty.k in ('double', 'float') and isinstance(v, E) and v.sort != 'R':
            if v.op == 'c' and v.args[0] == 0: return R(0)
            raise Unsupported('float load of int')
        if ty.k == 'ptr' and isinstance(v, E):
            if v.op == 'c' and v.args[0] == 0: return NULL
            raise Unsupported('pointer load of int')
        return v

    def load_sym_cells(self, st, p, ty, nb, where):
        os_ = st.mem[p.obj]
        r = None
        keys = sorted(o for o, c in os_.cells.items() if c[0] == nb and self.samekind(c[1], ty))
        if not keys or len(keys) > 256: raise Unsupported('symbolic offset %r into %s' % (p.off, p.obj))
        # feasible offsets by linear form modulus
        c, it = ldview(p.off)
        g = 0
        for t, k in it: g = gcd(g, k)
        cand = [o for o in keys if (o - c) % g == 0]
        if p.off.lo is not None: cand = [o for o in cand if o >= p.off.lo]
        if p.off.hi is not None: cand = [o for o in cand if o <= p.off.hi]
        if not cand: raise Unsupported('symbolic offset %r into %s' % (p.off, p.obj))
        self.oblige(st, 'indexed read hits an initialised element of ' + p.obj.name,
                    or_(*[eq(p.off, I(o)) for o in cand]), where)
        for o in reversed(cand):
            v = self.coerce(os_.cells[o][1], ty)
            r = v if r is None else (ptr_ite(eq(p.off, I(o)), v, r) if isinstance(v, Ptr) else ite(eq(p.off, I(o)), v, r))
        return r

    def samekind(self, v, ty):
        if ty.k == 'ptr': return isinstance(v, Ptr)
        if ty.k == 'int': return isinstance(v, E) and v.sort in ('I', 'B') or (isinstance(v, E) and v.sort[0] == 'V')
        return isinstance(v, E) and v.sort == 'R'

    def store(self, st, p, v, ty, where=''):
        if ty.k in ('vec', 'arr', 'struct'):
            if ty.k == 'struct':
                for o, t, x in zip(layout(ty), ty.els, v): self.store(st, Ptr(p.obj, add(p.off, I(o)), p.keys), x, t, where)
                return
            s = sizeof(ty.el)
            for i in range(ty.n): self.store(st, Ptr(p.obj, add(p.off, I(i * s)), p.keys), v[i], ty.el, where)
            return
        nb = sizeof(ty)
        if not self.size_check(st, p, nb, 'write', where): return
        if p.obj.const: self.oblige(st, 'write to read-only ' + p.obj.name, FALSE, where); return
        self.rawstore(st, p, v, ty, nb, where)

    def rawstore(self, st, p, v, ty, nb, where):
        os_ = st.w(p.obj)
        kind = scalar_kind(ty)
        if isinstance(v, Undef): v = undef_val(ty) if ty.k != 'ptr' else v
        if ty.k == 'int' and ty.n == 1: v = ite(v, I(1), I(0)); 
        off = p.off
        if os_.stride is None and off.op != 'c':
            if os_.cells and all(c[0] == nb for c in os_.cells.values()) and os_.size.op == 'c' and os_.size.args[0] <= 64 * nb:
                base = min(os_.cells) % nb
                for o in range(base, os_.size.args[0] - nb + 1, nb):
                    if o not in os_.cells: os_.cells[o] = (nb, undef_val(ty))
                return self.store_sym_cells(st, os_, p, v, ty, nb, where)
            if os_.size.op == 'c' and not os_.cells and os_.size.args[0] <= 64 * nb:
                for o in range(0, os_.size.args[0], nb): os_.cells[o] = (nb, undef_val(ty))
                return self.store_sym_cells(st, os_, p, v, ty, nb, where)
            self.to_array(os_, p, off, nb, kind)
        elif os_.stride is None and off.op == 'c' and os_.size.op != 'c' and p.obj.heap and not os_.cells:
            self.to_array(os_, p, None, nb, kind)
        if os_.stride is not None:
            r = self.arr_index(os_, off, nb, kind)
            if r is None:
                self.restride(os_, p, off, nb)
                r = self.arr_index(os_, off, nb, kind)
                if r is None: raise Unsupported('store offset %r not aligned to stride %d of %s' % (off, os_.stride, p.obj))
            key, idx = r
            a = os_.arrs.get(key)
            if a is None:
                for k in list(os_.arrs):
                    if k[0] < key[0] + nb and key[0] < k[0] + k[1]:
                        ints = self.wide_split(os_, key, idx, v, p)
                        if ints: return
                        if self.to_cells(os_, p): return self.rawstore(st, p, v, ty, nb, where)
                        raise Unsupported('type punning store in %s %r vs %r' % (p.obj, key, list(os_.arrs)))
                a = self.fresh_arr(p.obj, key, ty)
            if kind == 'p' and isinstance(a, ABase) and a.fam is None and not isinstance(v, Undef):
                pass
            os_.arrs[key] = AStore(a, p.keys + (idx,), v)
            return
        o = off.args[0]
        for k in list(os_.cells):
            s = os_.cells[k][0]
            if k < o + nb and o < k + s and not (k == o and s == nb):
                self.split_cell(os_, k, o, nb)
        if isinstance(v, Bits):
            for w, u in v.parts: os_.cells[o] = (w, u); o += w
            return
        os_.cells[o] = (nb, v)

    def to_cells(self, os_, p):
        """a small object of bytes back to one cell per byte"""
        if os_.stride != 1 or p.keys or p.off.op != 'c' or os_.size.op != 'c' or os_.size.args[0] > 64 or list(os_.arrs) != [(0, 1, 'i')]: return False
        a = os_.arrs.pop((0, 1, 'i'))
        os_.stride = None
        os_.cells = {i: (1, aread(a, (I(i),))) for i in range(os_.size.args[0])}
        return True

    def wide_split(self, os_, key, idx, v, p):
        """store of a wide integer over narrower integer fields"""
        f, nb, kd = key
        S = os_.stride
        if kd != 'i': return False
        x = f
        todo = []
        while x < f + nb:
            hit = None
            for (fo, n, k2) in os_.arrs:
                if fo == x % S and k2 == 'i' and x + n <= f + nb: hit = (fo, n, k2)
            if hit is None: return False
            todo.append((hit, x - f, x // S)); x += hit[1]
        for hit, q, e in todo:
            part = wrap(8 * hit[1], idiv(uns(8 * nb, v), I(1 << (8 * q))))
            os_.arrs[hit] = AStore(os_.arrs[hit], p.keys + (add(idx, I(e)),), part)
        return True

    def split_cell(self, os_, k, o, nb):
        s, v = os_.cells.pop(k)
        if k >= o and k + s <= o + nb: return          # fully overwritten
        if isinstance(v, E) and v.sort == 'I':
            u = uns(8 * s, v)
            for i in range(s):
                if o <= k + i < o + nb: continue
                os_.cells[k + i] = (1, wrap(8, idiv(u, I(1 << (8 * i)))))
            return
        raise Unsupported('partial overwrite of a non-integer cell')

    def store_sym_cells(self, st, os_, p, v, ty, nb, where):
        c, it = ldview(p.off)
        g = 0
        for t, k in it: g = gcd(g, k)
        cand = [o for o in sorted(os_.cells) if (o - c) % g == 0]
        if p.off.lo is not None: cand = [o for o in cand if o >= p.off.lo]
        if p.off.hi is not None: cand = [o for o in cand if o <= p.off.hi]
        self.oblige(st, 'indexed write hits an element of ' + p.obj.name, or_(*[eq(p.off, I(o)) for o in cand]), where)
        for o in cand:
            old = os_.cells[o][1]
            if isinstance(v, Ptr) or isinstance(old, (Ptr, Undef)):
                if isinstance(v, E) and isinstance(old, E): pass
                else: raise Unsupported('pointer store at symbolic offset')
            if old.sort != v.sort: raise Unsupported('sort mismatch in symbolic store')
            os_.cells[o] = (nb, ite(eq(p.off, I(o)), v, old))

    def fresh_arr(self, obj, key, ty):
        nm = freshname('%s.u%d' % (obj.name, key[0]))
        if key[2] == 'i':
            lo, hi = self.rng(8 * key[1])
            return ABase(nm, 'I', lo, hi)
        if key[2] == 'f': return ABase(nm, 'R')
        return ABase(nm, 'P')

    def to_array(self, os_, p, off, nb, kind):
        """switch an object to array mode with stride nb (homogeneous scalars)"""
        S = nb
        if off is not None:
            c, it = ldview(off)
            g = nb
            for t, k in it: g = gcd(g, k)
            S = g
            if S != nb: raise Unsupported('cannot choose stride for %s: %r' % (p.obj, off))
        hint = self.o.get('strides', {}).get(p.obj.name) or (self.o.get('heapstride') if p.obj.heap else None)
        if hint: S = hint
        os_.stride = S
        for o, (n, v) in list(os_.cells.items()):
            k = 'i' if isinstance(v, E) and v.sort == 'I' else 'f' if isinstance(v, E) and v.sort == 'R' else 'p'
            key = (o % S, n, k)
            a = os_.arrs.get(key)
            if a is None: a = self.fresh_arr(p.obj, key, None)
            os_.arrs[key] = AStore(a, p.keys + (I(o // S),), v)
        os_.cells = {}

    def restride(self, os_, p, off, nb):
        pass

    # ------------------------------------------------------------ bulk memory
    def memcpy(self, st, d, s, n, where, move=True):
        if n.op == 'c' and n.args[0] == 0: return
        if n.op == 'c' and n.lo is not None:
            N = n.args[0]
            if not self.size_check(st, s, n, 'copy source', where): return
            if not self.size_check(st, d, n, 'copy destination', where): return
            so, do = st.mem[s.obj], st.w(d.obj)
            if so.stride is None and s.off.op == 'c' and do.stride is None and d.off.op == 'c':
                a, b = s.off.args[0], d.off.args[0]
                items = []
                for k, c in so.cells.items():
                    if a <= k and k + c[0] <= a + N: items.append((k - a, c))
                    elif k < a + N and a < k + c[0]: raise Unsupported('partial cell copy')
                for k in list(do.cells):
                    if k < b + N and b < k + do.cells[k][0]: self.split_cell(do, k, b, N)
                for k, c in items: do.cells[b + k] = c
                return
            # field by field
            bulk = N >= 64 and so.stride == 1 and (do.stride == 1 or (do.stride is None and not do.cells))
            if so.stride is not None and N <= 512 and not bulk:
                S = so.stride
                base = ldview(s.off)[0] % S
                x = 0
                keys = sorted(so.arrs)
                todo = []
                pos = base
                while pos < base + N:
                    hit = [k for k in keys if k[0] == pos % S]
                    if not hit: raise Unsupported('memcpy from %s: no field at %d' % (s.obj, pos % S))
                    key = hit[0]
                    todo.append((pos - base, key)); pos += key[1]
                vals = []
                for o, key in todo:
                    r = self.arr_index(so, add(s.off, I(o)), key[1], key[2])
                    vals.append((o, key, aread(so.arrs[r[0]], s.keys + (r[1],))))
                do = st.w(d.obj)
                if do.stride is None and d.off.op == 'c':
                    b = d.off.args[0]
                    for k in list(do.cells):
                        if b <= k and k + do.cells[k][0] <= b + N: del do.cells[k]
                for o, key, v in vals:
                    ty = INT(8 * key[1]) if key[2] == 'i' else (DBL if key[1] == 8 else FLT) if key[2] == 'f' else PTR
                    self.rawstore(st, Ptr(d.obj, add(d.off, I(o)), d.keys), v, ty, key[1], where)
                return
            if so.stride is None and s.off.op == 'c' and N <= 512:
                a = s.off.args[0]
                items = [(k - a, c) for k, c in so.cells.items() if a <= k and k + c[0] <= a + N]
                for o, (nb, v) in sorted(items, key=lambda t: t[0]):
                    ty = INT(8 * nb) if isinstance(v, E) and v.sort == 'I' else (DBL if nb == 8 else FLT) if isinstance(v, E) and v.sort == 'R' else PTR
                    self.rawstore(st, Ptr(d.obj, add(d.off, I(o)), d.keys), v, ty, nb, where)
                return
            if so.stride is None and s.off.op != 'c' and N <= 512:
                # small symbolic-offset copy of homogeneous cells
                nb = min(c[0] for c in so.cells.values())
                v0 = next(iter(so.cells.values()))[1]
                ty = INT(8 * nb) if isinstance(v0, E) and v0.sort == 'I' else (DBL if nb == 8 else FLT)
                vals = [self.load(st, Ptr(s.obj, add(s.off, I(o)), s.keys), ty, where) for o in range(0, N, nb)]
                for i, v in enumerate(vals): self.rawstore(st, Ptr(d.obj, add(d.off, I(i * nb)), d.keys), v, ty, nb, where)
                return
        # symbolic length
        self.oblige(st, 'copy length non-negative', le(I(0), n), where)
        if s.obj is None or d.obj is None:
            self.oblige(st, 'copy through null pointer is empty', eq(n, I(0)), where)
            return
        z = eq(n, I(0))
        os_s, os_d = st.mem[s.obj], st.mem[d.obj]
        if not os_s.alive or not os_d.alive:
            self.oblige(st, 'copy involving freed memory', FALSE, where); return
        ssz = os_s.size(s.keys) if callable(os_s.size) else os_s.size
        dsz = os_d.size(d.keys) if callable(os_d.size) else os_d.size
        self.oblige(st, 'copy source within bounds of ' + s.obj.name, or_(z, and_(le(I(0), s.off), le(add(s.off, n), ssz))), where)
        self.oblige(st, 'copy destination within bounds of ' + d.obj.name, or_(z, and_(le(I(0), d.off), le(add(d.off, n), dsz))), where)
        if os_s.stride is None:
            return self.copy_cells(st, d, s, n, os_s, where)
        do = st.w(d.obj)
        if do.stride is None:
            if do.cells:
                # convert existing cells
                self.to_array(do, d, None, min(k[1] for k in os_s.arrs), None)
            do.stride = os_s.stride
        if do.stride != os_s.stride: raise Unsupported('copy between strides %d and %d' % (do.stride, os_s.stride))
        S = do.stride
        cd, itd = ldview(d.off); cs, its = ldview(s.off)
        if cd % S or cs % S or any(k % S for _, k in itd) or any(k % S for _, k in its): raise Unsupported('misaligned bulk copy')
        cn, itn = ldview(n)
        if cn % S or any(k % S for _, k in itn): raise Unsupported('bulk copy length %r' % n)
        di = idiv(d.off, I(S)); si = idiv(s.off, I(S)); cnt = idiv(n, I(S))
        snap = dict(os_s.arrs)
        for key, a in snap.items():
            prev = do.arrs.get(key)
            if prev is None: prev = self.fresh_arr(d.obj, key, None)
            sk = s.keys
            do.arrs[key] = ARange(prev, d.keys, di, add(di, cnt), (lambda a, sk: lambda i: aread(a, sk + (add(sub(i, di), si),)))(a, sk))

    def copy_cells(self, st, d, s, n, so, where):
        """copy of a symbolic number of equal cells at constant offsets: cell x is copied exactly when x < n"""
        if s.off.op != 'c': raise Unsupported('symbolic-length copy from cells object %s' % s.obj)
        a = s.off.args[0]
        items = sorted((k - a, c) for k, c in so.cells.items() if k >= a)
        if not items or len(items) > 64: raise Unsupported('symbolic-length copy from cells object %s' % s.obj)
        nb = items[0][1][0]
        v0 = items[0][1][1]
        if not isinstance(v0, E) or any(c[0] != nb or not isinstance(c[1], E) or c[1].sort != v0.sort for _, c in items) or any(x % nb for x, _ in items):
            raise Unsupported('symbolic-length copy from mixed cells of %s' % s.obj)
        cn, itn = ldview(n)
        if cn % nb or any(k % nb for _, k in itn): raise Unsupported('bulk copy length %r' % n)
        do = st.w(d.obj)
        kind = 'f' if v0.sort == 'R' else 'i'
        if do.stride is None:
            if do.cells and d.off.op == 'c':
                for x, (_, v) in items:
                    o = d.off.args[0] + x
                    c = do.cells.get(o)
                    if c is None or c[0] != nb or not isinstance(c[1], E): raise Unsupported('symbolic-length copy into cells of %s' % d.obj)
                    do.cells[o] = (nb, ite(lt(I(x), n), v, c[1]))
                return
            self.to_array(do, d, None, nb, None)
        for x, (_, v) in items:
            r = self.arr_index(do, add(d.off, I(x)), nb, kind)
            if r is None: raise Unsupported('symbolic-length copy into %s' % d.obj)
            key, ix = r
            if key not in do.arrs: do.arrs[key] = self.fresh_arr(d.obj, key, None)
            ix = d.keys + (ix,)
            do.arrs[key] = AStore(do.arrs[key], ix, ite(lt(I(x), n), v, aread(do.arrs[key], ix)))

    def memset(self, st, d, v, n, where):
        if n.op == 'c' and n.args[0] == 0: return
        if not (v.op == 'c'): 
            v0 = None
        else: v0 = v.args[0]
        if n.op == 'c':
            if not self.size_check(st, d, n, 'fill', where): return
            N = n.args[0]
            os_ = st.w(d.obj)
            if os_.stride is None and d.off.op == 'c':
                b = d.off.args[0]
                lay = {}
                for k in list(os_.cells):
                    if b <= k and k + os_.cells[k][0] <= b + N: lay[k] = os_.cells[k]
                    elif k < b + N and b < k + os_.cells[k][0]: self.split_cell(os_, k, b, N)
                tyh = self.o.get('memset_types', {}).get(d.obj.name)
                x = b
                while x < b + N:
                    if x in lay and v0 == 0:
                        nb, old = lay[x]
                        z = NULL if isinstance(old, Ptr) else R(0) if isinstance(old, E) and old.sort == 'R' else I(0)
                        os_.cells[x] = (nb, z); x += nb
                    else:
                        ot = getattr(d.obj, 'lay', None)
                        if ot and x in ot and v0 == 0:
                            t = ot[x]; os_.cells[x] = (sizeof(t), self.zero(t)); x += sizeof(t)
                        else:
                            os_.cells[x] = (1, I(v0) if v0 is not None else v); x += 1
                return
            if N > 4096: raise Unsupported('large memset')
            for key in list(os_.arrs):
                pass
        os_ = st.w(d.obj) if d.obj is not None else None
        if os_ is None:
            self.oblige(st, 'fill through null pointer is empty', eq(n, I(0)), where); return
        if not os_.alive: self.oblige(st, 'fill of freed memory', FALSE, where); return
        size = os_.size(d.keys) if callable(os_.size) else os_.size
        z = eq(n, I(0))
        self.oblige(st, 'fill within bounds of ' + d.obj.name, or_(z, and_(le(I(0), n), le(I(0), d.off), le(add(d.off, n), size))), where)
        if os_.stride is None and not os_.cells:
            S = self.o.get('strides', {}).get(d.obj.name)
            kinds = self.o.get('kinds', {}).get(d.obj.name)
            if S is None:
                c, it = ldview(n)
                S = 0
                for t, k in it: S = gcd(S, k)
                S = gcd(S, c) if c else S
                if S > 8: S = 8
                kinds = self.o.get('heap_kind', {}).get(S)
            os_.stride = S
            kinds = kinds or [(0, S, 'f' if S == 8 else 'i')]
            for key in kinds: os_.arrs[key] = self.fresh_arr(d.obj, key, None)
        if os_.stride is None: raise Unsupported('memset of cells')
        S = os_.stride
        di = idiv(d.off, I(S)); cnt = idiv(n, I(S))
        one = n.op == 'c' and n.args[0] <= 16 * S and n.args[0] % S == 0
        for key, a in list(os_.arrs.items()):
            if key[2] == 'i':
                if v0 is None and key[1] > 1: raise Unsupported('memset pattern')
                val = v if key[1] == 1 else wrap(8 * key[1], I(sum((v0 % 256) << (8 * i) for i in range(key[1]))))
            elif key[2] == 'f' and v0 == 0: val = R(0)
            elif key[2] == 'p' and v0 == 0: val = NULL
            else: raise Unsupported('memset of floats')
            if one:
                for i in range(n.args[0] // S): a = AStore(a, d.keys + (add(di, I(i)),), val)
                os_.arrs[key] = a
                continue
            os_.arrs[key] = ARange(a, d.keys, di, add(di, cnt), (lambda val: lambda i: val)(val))

    # ------------------------------------------------------------ operands
    def const(self, st, c):
        k = c.kind
        if k == 'int': return self.ic(c.v, c.ty.n)
        if k == 'fp':
            if c.v is None: raise Unsupported('fp80 constant')
            if c.v != c.v: return fresh('nan', 'R')
            if c.v in (float('inf'), float('-inf')):
                self.note('infinity constant modelled as an arbitrary real above all finite inputs')
                return var('+inf', 'R') if c.v > 0 else scale(var('+inf', 'R'), -1)
            return R(c.v)
        if k == 'null': return NULL
        if k == 'undef': return undef_val(c.ty) if c.ty.k != 'ptr' else Undef(c.ty)
        if k == 'zero':
            t = c.ty
            if t.k in ('vec', 'arr'): return [self.const(st, Const(t.el, 'zero')) for _ in range(t.n)]
            if t.k == 'struct': return [self.const(st, Const(x, 'zero')) for x in t.els]
            return self.zero(t)
        if k == 'agg': return [self.const(st, x) for x in c.v]
        if k == 'str': return [self.ic(x, 8) for x in c.v]
        if k == 'global': return self.global_ptr(st, c.v)
        if k == 'expr':
            op, t, ops = c.v
            if op == 'getelementptr':
                return self.gep(st, t, [self.val(st, o) for o in ops], ops)
            if op in ('bitcast', 'inttoptr', 'ptrtoint'): return self.val(st, ops[0])
        raise Unsupported('constant %s' % k)

    def val(self, st, o):
        if isinstance(o, Local):
            try: return st.env[o.name]
            except KeyError: raise Unsupported('undefined local ' + o.name)
        return self.const(st, o)

    def toidx(self, v):
        if isinstance(v, E) and v.sort[0] == 'V':
            if v.op == 'c':
                n = bvw(v); x = v.args[0]
                return I(x - (1 << n) if x >> (n - 1) else x)
            raise Unsupported('symbolic bit-vector index')
        return v

    def gep(self, st, bt, vals, ops):
        p = vals[0]
        if isinstance(p, Undef): raise Unsupported('gep on undef')
        if isinstance(p, list): raise Unsupported('vector gep')
        off = p.off
        t = bt
        idx = [self.toidx(v) for v in vals[1:]]
        off = add(off, mul(idx[0], I(sizeof(t)))) if not (isc(idx[0]) and idx[0].args[0] == 0) else off
        for ix in idx[1:]:
            if t.k == 'struct':
                i = ix.args[0]
                off = add(off, I(layout(t)[i])); t = t.els[i]
            else:
                t = t.el
                off = add(off, mul(ix, I(sizeof(t))))
        return Ptr(p.obj, off, p.keys)

    # ------------------------------------------------------------ execution
    def run(self, st, fname, args, depth=0):
        """execute function; returns list of (state, retval)"""
        f = self.mod.func(fname)
        if f is None: raise Unsupported('no body for ' + fname)
        self.functions[fname] = self.functions.get(fname, 0) + 1
        if depth > 40 or self.callstack.count(fname) > 2: raise Unsupported('recursion in ' + fname)
        caller = st.env
        st.env = {}
        fr = Frame(f, depth)
        for (t, n, at), a in zip(f.params, args):
            if 'byval' in at and isinstance(a, Ptr):
                bt = self.byval_type(f, n)
                o = self.new_obj(st, '%s.byval%s' % (fname, n), 'stack', st.mem[a.obj].size)
                self.memcpy(st, Ptr(o, I(0)), a, st.mem[a.obj].size if st.mem[a.obj].size.op == 'c' else I(0), 'byval')
                a = Ptr(o, I(0))
            st.env[n] = a
        self.callstack.append(fname)
        try:
            outs = self.region(st, fr, f.order[0], None, None)
        finally:
            self.callstack.pop()
        res = []
        for o in outs:
            s = o[1]
            # stack objects of this frame die
            s.env = dict(caller)
            res.append((s, o[2]))
        return res

    def byval_type(self, f, n): return None

    def region(self, st, fr, block, prev, loop):
        """execute from `block` (entered from prev).  loop = (header, body) restricts execution: edges leaving
        the body or returning to the header stop.  Returns list of ('ret', state, val) / ('edge', state, target, prev)"""
        f = fr.f
        lps = loops(f)
        work = [(st, block, prev, True)]
        outs = []
        first = True
        while work:
            st, b, prev, fromstart = work.pop()
            if loop is not None and not first:
                if b == loop[0] or b not in loop[1]:
                    outs.append(('edge', st, b, prev)); continue
            if b in lps and not (loop is not None and first and b == loop[0]):
                if not (loop is not None and b == loop[0]):
                    for o in self.do_loop(st, fr, b, lps[b], prev):
                        if o[0] == 'ret': outs.append(o)
                        else: work.append((o[1], o[2], o[3], True))
                    first = False
                    continue
            first_hdr = first
            first = False
            # phis
            ins = f.blocks[b]
            i = 0
            if not (loop is not None and first_hdr and b == loop[0] and prev is None):
                vals = []
                while i < len(ins) and ins[i].op == 'phi':
                    for v, l in ins[i].x:
                        if l == prev: vals.append((ins[i].dst, self.val(st, v))); break
                    else: raise Unsupported('phi without edge from %s' % prev)
                    i += 1
                for d, v in vals: st.env[d] = v
            else:
                while i < len(ins) and ins[i].op == 'phi': i += 1
            self.block(st, fr, b, i, loop, work, outs)
            if len(work) > self.o['maxpaths']: raise Unsupported('too many paths')
        return outs

    def block(self, st, fr, b, i, loop, work, outs):
        """execute instructions of block b from index i; may fork"""
        ins = fr.f.blocks[b]
        pending = [(st, i)]
        while pending:
            st, i = pending.pop()
            n = len(ins)
            while i < n:
                x = ins[i]
                self.steps += 1
                if self.steps > self.o['maxsteps']: raise Unsupported('step limit')
                if self.deadline and self.steps % 256 == 0 and time.time() > self.deadline: raise Unsupported('time limit')
                op = x.op
                if op == 'br':
                    if len(x.x) == 1: work.append((st, x.x[0], b, True)); break
                    c = self.val(st, x.a[0])
                    self.branch(st, fr, b, [(c, x.x[0]), (not_(c), x.x[1])], loop, work)
                    break
                if op == 'switch':
                    v = self.val(st, x.a[0])
                    d, cs = x.x
                    alts = []
                    neg = []
                    bylab = {}
                    for c, l in cs:
                        e = eq(v, self.val(st, c))
                        bylab.setdefault(l, []).append(e)
                        neg.append(not_(e))
                    for l, es in bylab.items(): alts.append((or_(*es), l))
                    alts.append((and_(*neg), d))
                    self.branch(st, fr, b, alts, loop, work)
                    break
                if op == 'ret':
                    outs.append(('ret', st, self.val(st, x.a[0]) if x.a else None)); break
                if op == 'unreachable':
                    # reaching it is undefined unless preceded by a noreturn call (handled there)
                    if 'noreturn' not in st.flags:
                        self.oblige(st, 'unreachable code reached', FALSE, str(self.callstack[-1]))
                    break
                if op == 'call':
                    rs = self.call(st, fr, x)
                    if rs is None:           # path ended
                        break
                    if len(rs) == 1:
                        st, rv = rs[0]
                        if x.dst: st.env[x.dst] = rv
                        if x.x[1]: work.append((st, x.x[1], b, True)); break
                        i += 1
                        continue
                    for s2, rv in rs:
                        if x.dst: s2.env[x.dst] = rv
                        if x.x[1]: work.append((s2, x.x[1], b, True))
                        else: pending.append((s2, i + 1))
                    break
                if op == 'select':
                    c = self.val(st, x.a[0])
                    if not isinstance(c, list):
                        a, bb = self.val(st, x.a[1]), self.val(st, x.a[2])
                        if isinstance(a, (Ptr, FnPtr, Undef, PIte)) or isinstance(bb, (Ptr, FnPtr, Undef, PIte)):
                            if c.op == 'c': st.env[x.dst] = a if c.args[0] else bb; i += 1; continue
                            if isinstance(a, Ptr) and isinstance(bb, Ptr) and a.obj is bb.obj and len(a.keys) == len(bb.keys):
                                st.env[x.dst] = ptr_ite(c, a, bb); i += 1; continue
                            if x.dst in read_only_ptrs(fr.f) and isinstance(a, (Ptr, PIte)) and isinstance(bb, (Ptr, PIte)):
                                st.env[x.dst] = PIte(c, a, bb); i += 1; continue
                            s2 = st.copy()
                            st.assume(c); st.env[x.dst] = a
                            s2.assume(not_(c)); s2.env[x.dst] = bb
                            pending.append((s2, i + 1)); i += 1
                            continue
                if op == 'icmp':
                    r = self.icmp_fork(st, x)
                    if r is not None:
                        st.env[x.dst] = r; i += 1; continue
                self.simple(st, x)
                i += 1

    def branch(self, st, fr, b, alts, loop, work):
        live = [(c, l) for c, l in alts if not (c.op == 'c' and not c.args[0])]
        const = any(c.op == 'c' and c.args[0] for c, l in alts) or len(live) == 1
        for c, l in live:
            if c in st.pcset and not const:
                live = [(c, l)]; const = True; break
        if not const:
            live = [(c, l) for c, l in live if not_(c) not in st.pcset]
            if len(live) == 1: const = True
        if loop is not None and not const and b == loop[0] and self.unrolling and self.unrolling[-1] == (fr.id, b) \
                and any(l not in loop[1] for c, l in alts):
            raise AbortUnroll((fr.id, b))
        if loop is not None:
            leaves = [l for c, l in alts if l not in loop[1]]
            if leaves and len(leaves) < len(alts) and const: st.flags[(fr.id, loop[0])] = True
        if const and len(live) == 1:
            work.append((st, live[0][1], b, True))
            return
        # feasibility
        if self.o['prune'] and len(live) > 1:
            keep = []
            for c, l in live:
                if self.infeasible(st, c): continue
                keep.append((c, l))
            live = keep
        self.npaths += max(0, len(live) - 1)
        if self.npaths > self.o['maxpaths']: raise Unsupported('too many paths')
        for j, (c, l) in enumerate(live):
            s = st if j == len(live) - 1 else st.copy()
            s.assume(c)
            s.trace = s.trace + (c,)
            work.append((s, l, b, True))

    def infeasible(self, st, c):
        """quick integer-linear feasibility check"""
        fs = [p for p in st.pc if p.op != 'forall']
        if c.op in ('le0', 'eq0', 'not', 'and', 'or', 'lt0'):
            isreal = any(t.sort == 'R' for t in subterms(c))
            if isreal:
                if self.o.get('prune_real'):
                    return not solve.feasible([p for p in fs] + [c], 300)
                return solve.lincheck(fs + [c], 60) == 'unsat'
            vs = freevars(c)
            fs = [p for p in fs if not any(t.sort == 'R' for t in subterms(p))]
            return not solve.feasible(fs + [c], 150)
        return False

    def icmp_fork(self, st, x):
        a, b = self.val(st, x.a[0]), self.val(st, x.a[1])
        if isinstance(a, (Ptr, FnPtr, Undef)) or isinstance(b, (Ptr, FnPtr, Undef)):
            return self.ptrcmp(st, x.x, a, b)
        return None

    def ptrcmp(self, st, pred, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef): return fresh('undef', 'B')
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            r = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return B(r if pred == 'eq' else not r)
        if isinstance(a, E): a = NULL if a.op == 'c' and a.args[0] == 0 else a
        if isinstance(b, E): b = NULL if b.op == 'c' and b.args[0] == 0 else b
        same = a.obj is b.obj
        if same and a.keys:
            ke = and_(*[eq(x, y) for x, y in zip(a.keys, b.keys)])
            if pred in ('eq', 'ne'):
                r = and_(ke, eq(a.off, b.off))
                return r if pred == 'eq' else not_(r)
            if ke is not TRUE: raise Unsupported('ordering pointers of different family members')
        if pred in ('eq', 'ne'):
            if a.obj is None and b.obj is not None or b.obj is None and a.obj is not None:
                p = a if a.obj is not None else b
                nullable = self.o.get('nullable', {}).get(p.obj.name)
                r = FALSE
            elif same: r = eq(a.off, b.off)
            else: r = FALSE
            return r if pred == 'eq' else not_(r)
        if not same:
            # distinct objects lie apart in either order; null lies below everything
            down = pred[1:] in ('lt', 'le')
            if a.obj is None or b.obj is None: return B((a.obj is None) == down)
            self.note('distinct objects are not adjacent in memory; both orders of their addresses are considered')
            x, y = sorted((a.obj, b.obj), key=lambda o: o.name)
            if x.name == y.name: raise Unsupported('ordering pointers to different objects %r %r' % (a, b))
            e = var('below!%s!%s' % (x.name, y.name), 'B')
            return e if (x is a.obj) == down else not_(e)
        u = {'ult': lt, 'ule': le, 'slt': lt, 'sle': le}
        if pred in u: return u[pred](a.off, b.off)
        u = {'ugt': lt, 'uge': le, 'sgt': lt, 'sge': le}
        return u[pred](b.off, a.off)

    # ------------------------------------------------------------ simple instructions
    def simple(self, st, x):
        op = x.op
        env = st.env
        if op == 'load':
            p = self.val(st, x.a[0])
            env[x.dst] = self.load(st, p, x.ty, x.line)
            return
        if op == 'store':
            self.store(st, self.val(st, x.a[1]), self.val(st, x.a[0]), x.ty, x.line)
            return
        if op == 'getelementptr':
            env[x.dst] = self.gep(st, x.ty, [self.val(st, o) for o in x.a], x.a)
            return
        if op == 'alloca':
            n = 1
            if x.x is not None:
                c = self.toidx(self.val(st, x.x))
                if c.op != 'c': raise Unsupported('variable-length alloca')
                n = c.args[0]
            self.locals_alloc += 1
            o = Obj('%s%s' % (x.dst[1:].strip('"'), ''), 'stack')
            st.mem[o] = OS(I(sizeof(x.ty) * n))
            try: o.lay = dict(flat_fields(x.ty)) if n == 1 and sizeof(x.ty) < 4096 else None
            except ValueError: o.lay = None
            env[x.dst] = Ptr(o, I(0))
            return
        if op in ('extractvalue',):
            v = self.val(st, x.a[0])
            for k in x.x: v = v[k]
            env[x.dst] = v
            return
        if op == 'insertvalue':
            v = self.val(st, x.a[0]); y = self.val(st, x.a[1])
            def ins(v, ix):
                v = list(v)
                v[ix[0]] = y if len(ix) == 1 else ins(v[ix[0]], ix[1:])
                return v
            env[x.dst] = ins(v, x.x)
            return
        if op == 'extractelement':
            v = self.val(st, x.a[0]); k = self.toidx(self.val(st, x.a[1]))
            if k.op == 'c': env[x.dst] = v[k.args[0]]
            else:
                self.oblige(st, 'vector element index in range', and_(le(I(0), k), lt(k, I(len(v)))), x.line)
                r = v[-1]
                for i in range(len(v) - 2, -1, -1): r = ite(eq(k, I(i)), v[i], r)
                env[x.dst] = r
            return
        if op == 'insertelement':
            v = list(self.val(st, x.a[0])); y = self.val(st, x.a[1]); k = self.toidx(self.val(st, x.a[2]))
            if k.op == 'c': v[k.args[0]] = y
            else:
                self.oblige(st, 'vector element index in range', and_(le(I(0), k), lt(k, I(len(v)))), x.line)
                v = [ite(eq(k, I(i)), y, v[i]) for i in range(len(v))]
            env[x.dst] = v
            return
        if op == 'shufflevector':
            a, b, m = [self.val(st, o) for o in x.a]
            ab = list(a) + list(b)
            out = []
            mc = x.a[2]
            for j in range(mc.ty.n):
                e = m[j]
                e = self.toidx(e) if isinstance(e, E) else e
                if e.op == 'c': out.append(ab[e.args[0]])
                else: out.append(fresh('undef', ab[0].sort))
            env[x.dst] = out
            return
        if op == 'phi': return
        if op == 'nop': return
        if op == 'freeze': env[x.dst] = self.val(st, x.a[0]); return
        if op in ('unsupported', 'asm'): raise Unsupported('instruction: ' + x.line[:120])
        # vector arithmetic element-wise
        vs = [self.val(st, o) for o in x.a]
        if any(isinstance(v, list) for v in vs):
            n = max(len(v) for v in vs if isinstance(v, list))
            if op == 'bitcast':
                env[x.dst] = self.bitcast(st, vs[0], x.a[0].ty, x.ty); return
            res = []
            for i in range(n):
                el = [v[i] if isinstance(v, list) else v for v in vs]
                res.append(self.scalar(st, x, op, el, [o.ty.el if o.ty.k == 'vec' else o.ty for o in x.a],
                                       x.ty.el if x.ty is not None and x.ty.k == 'vec' else x.ty))
            env[x.dst] = res
            return
        if op == 'bitcast':
            env[x.dst] = self.bitcast(st, vs[0], x.a[0].ty, x.ty); return
        env[x.dst] = self.scalar(st, x, op, vs, [o.ty for o in x.a], x.ty)

    def bitcast(self, st, v, t1, t2):
        k1 = t1.el.k if t1.k == 'vec' else t1.k
        k2 = t2.el.k if t2.k == 'vec' else t2.k
        if t1.k == 'ptr' and t2.k == 'ptr': return v
        n1 = t1.n if t1.k == 'vec' else 1
        n2 = t2.n if t2.k == 'vec' else 1
        if k1 == k2 and n1 == n2: return v
        if isinstance(v, Bits):
            w = (t2.el if t2.k == 'vec' else t2)
            if len(v.parts) == n2 and all(8 * a == (w.n if w.k == 'int' else 8 * sizeof(w)) for a, _ in v.parts): return [u for _, u in v.parts]
            if t2.k == 'int' and t2.n == 8 * sum(a for a, _ in v.parts): return v
        if t1.k == 'vec' and k1 == 'int' and t2.k != 'vec' and k2 != 'int': return Bits([(t1.el.n // 8, u) for u in v])
        if k1 == 'int' and k2 == 'int':
            w1 = t1.el.n if t1.k == 'vec' else t1.n
            w2 = t2.el.n if t2.k == 'vec' else t2.n
            vs = v if isinstance(v, list) else [v]
            if w1 == 1:      # <n x i1> -> iN mask
                r = I(0)
                for i, b in enumerate(vs): r = add(r, ite(b, I(1 << i), I(0)))
                return wrap(w2, r) if w2 > 1 else ne(r, I(0))
            tot = I(0)
            for i, u in enumerate(vs): tot = add(tot, scale(uns(w1, u), 1 << (w1 * i)))
            out = [wrap(w2, imod(idiv(tot, I(1 << (w2 * i))), I(1 << w2))) for i in range(n2)]
            return out if t2.k == 'vec' else out[0]
        raise Unsupported('bitcast %r to %r' % (t1, t2))

    def scalar(self, st, x, op, v, tys, ty):
        t0 = tys[0]
        if any(isinstance(u, Bits) for u in v):
            if op == 'trunc' and ty.n == 8 * v[0].parts[0][0]: return v[0].parts[0][1]
            if op == 'lshr' and isc(v[1]) and v[1].args[0] == 8 * v[0].parts[0][0] and len(v[0].parts) == 2:
                return Bits([v[0].parts[1], (v[0].parts[0][0], I(0))])
            v = [u.whole() if isinstance(u, Bits) else u for u in v]
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'frem'):
            if op == 'fadd': return add(v[0], v[1])
            if op == 'fsub': return sub(v[0], v[1])
            if op == 'fmul': return mul(v[0], v[1])
            if op == 'fneg': return scale(v[0], -1)
            if op == 'fdiv': return self.fdiv(st, v[0], v[1], x)
            raise Unsupported(op)
        if op == 'fcmp':
            p = x.x
            a, b = v
            if p in ('oeq', 'ueq'): return eq(a, b)
            if p in ('one', 'une'): return ne(a, b)
            if p in ('olt', 'ult'): return lt(a, b)
            if p in ('ole', 'ule'): return le(a, b)
            if p in ('ogt', 'ugt'): return lt(b, a)
            if p in ('oge', 'uge'): return le(b, a)
            if p == 'ord': return TRUE
            if p == 'uno': return FALSE
            return B(p == 'true')
        if op == 'icmp': return self.icmp(st, x.x, v[0], v[1], t0)
        if op == 'select':
            c, a, b = v
            if isinstance(a, list): return [ite(c, p, q) for p, q in zip(a, b)]
            return ite(c, a, b)
        if op in ('sitofp', 'uitofp'):
            a = v[0]
            if t0.n == 1: a = ite(a, I(1), I(0))
            if a.sort[0] == 'V':
                if a.op == 'c': a = I(a.args[0])
                else: raise Unsupported('bv to fp')
            if op == 'uitofp': a = uns(t0.n, a)
            return toreal(a)
        if op in ('fptosi', 'fptoui'):
            r = rtrunc(v[0])
            if self.o['bv']:
                raise Unsupported('fp to bv')
            lo, hi = self.rng(ty.n) if op == 'fptosi' else (0, (1 << ty.n) - 1)
            self.oblige(st, 'float to integer conversion in range', and_(lt(R(lo - 1), v[0]), lt(v[0], R(hi + 1))), x.line)
            if op == 'fptoui': r = wrap(ty.n, r)
            return self.bounded(st, r, ty.n)
        if op in ('fpext', 'fptrunc'): return v[0]
        if op in ('ptrtoint', 'inttoptr'):
            return v[0]
        if self.o['bv']: return self.bvscalar(st, x, op, v, t0, ty)
        return self.iscalar(st, x, op, v, t0, ty)

    def bounded(self, st, r, n):
        return r

    def fdiv(self, st, a, b, x):
        if b.op == 'c' and b.args[0] != 0: return rdiv(a, b)
        nz = ne(b, R(0))
        if nz not in st.pcset:
            if self.o['div0'] == 'prove': self.oblige(st, 'divisor is non-zero', nz, x.line if x else '')
            else:
                self.note('floating-point division: behaviour when the divisor is exactly zero (inf/nan) is outside the contract')
                st.assume(nz)
        return rdiv(a, b)

    def icmp(self, st, p, a, b, t):
        if isinstance(a, (Ptr, FnPtr, Undef)) or isinstance(b, (Ptr, FnPtr, Undef)): return self.ptrcmp(st, p, a, b)
        if a.sort == 'B' or b.sort == 'B':
            if p == 'eq': return iff(a, b)
            if p == 'ne': return not_(iff(a, b))
            a = ite(a, I(1), I(0)) if a.sort == 'B' else a; b = ite(b, I(1), I(0)) if b.sort == 'B' else b
            return {'ult': lt(a, b), 'ugt': lt(b, a), 'ule': le(a, b), 'uge': le(b, a)}[p]
        if a.sort[0] == 'V':
            if p == 'eq': return eq(a, b)
            if p == 'ne': return ne(a, b)
            m = {'ult': ('bvult', a, b), 'ule': ('bvule', a, b), 'ugt': ('bvult', b, a), 'uge': ('bvule', b, a),
                 'slt': ('bvslt', a, b), 'sle': ('bvsle', a, b), 'sgt': ('bvslt', b, a), 'sge': ('bvsle', b, a)}[p]
            return bvop(m[0], 'B', m[1], m[2])
        if p == 'eq': return eq(a, b)
        if p == 'ne': return ne(a, b)
        if p[0] == 'u': a, b = uns(t.n, a), uns(t.n, b)
        if p in ('slt', 'ult'): return lt(a, b)
        if p in ('sle', 'ule'): return le(a, b)
        if p in ('sgt', 'ugt'): return lt(b, a)
        return le(b, a)

    def iscalar(self, st, x, op, v, t0, ty):
        n = t0.n
        if op in ('zext', 'sext', 'trunc'):
            a = v[0]
            if isinstance(a, Ptr): return a
            if t0.n == 1:
                return ite(a, I(1 if op == 'zext' else -1), I(0))
            if op == 'zext': return uns(n, a)
            if op == 'sext': return a
            if ty.n == 1: return ne(imod(a, I(2)), I(0))
            return wrap(ty.n, a)
        a, b = v
        fl = x.x
        if n == 1:
            a = a if a.sort == 'B' else ne(a, I(0)); b = b if b.sort == 'B' else ne(b, I(0))
            if op == 'and': return and_(a, b)
            if op == 'or': return or_(a, b)
            if op == 'xor' or op == 'add' or op == 'sub': return not_(iff(a, b))
            raise Unsupported('i1 ' + op)
        if isinstance(a, Ptr) or isinstance(b, Ptr): return self.ptrarith(st, x, op, a, b)
        if op in ('add', 'sub', 'mul'):
            r = add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else mul(a, b)
            lo, hi = self.rng(n)
            if r.lo is not None and r.hi is not None and lo <= r.lo and r.hi <= hi: return r
            if 'nsw' in fl:
                if self.o['overflow']:
                    self.oblige(st, 'no signed overflow in %s' % op, and_(le(I(lo), r), le(r, I(hi))), x.line)
                return r
            w = wrap(n, r)
            if w is not r and (n == 64):
                # try to avoid wrap nodes in address arithmetic
                if self.fast_valid(st, and_(le(I(lo), r), le(r, I(hi)))): return r
            return w
        if op == 'sdiv':
            if b.op == 'c' and b.args[0] > 0:
                m = b
                if 'exact' in fl:
                    c, it = ldview(a)
                    if c % m.args[0] == 0 and all(k % m.args[0] == 0 for _, k in it): return idiv(a, m)
                if a.lo is not None and a.lo >= 0: return idiv(a, m)
                if 'exact' in fl: return idiv(a, m)
                return ite(le(I(0), a), idiv(a, m), scale(idiv(scale(a, -1), m), -1))
            self.oblige(st, 'integer division by zero', ne(b, I(0)), x.line)
            if a.lo is not None and a.lo >= 0 and b.lo is not None and b.lo > 0: return idiv(a, b)
            if self.fast_valid(st, and_(le(I(0), a), lt(I(0), b))): return idiv(a, b)
            q = lambda p, d: idiv(p, d)
            pa, pb = abs_(a), abs_(b)
            return ite(iff(le(I(0), a), lt(I(0), b)), q(pa, pb), scale(q(pa, pb), -1))
        if op == 'srem':
            if b.op == 'c' and b.args[0] > 0:
                if a.lo is not None and a.lo >= 0: return imod(a, b)
                return ite(le(I(0), a), imod(a, b), scale(imod(scale(a, -1), b), -1))
            self.oblige(st, 'integer division by zero', ne(b, I(0)), x.line)
            if self.fast_valid(st, and_(le(I(0), a), lt(I(0), b))): return sub(a, mul(b, idiv(a, b)))
            raise Unsupported('srem by symbolic')
        if op == 'udiv':
            ua, ub = uns(n, a), uns(n, b)
            if ub.op != 'c': self.oblige(st, 'integer division by zero', ne(b, I(0)), x.line)
            return wrap(n, idiv(ua, ub))
        if op == 'urem':
            ua, ub = uns(n, a), uns(n, b)
            if ub.op != 'c': self.oblige(st, 'integer division by zero', ne(b, I(0)), x.line)
            return wrap(n, imod(ua, ub))
        if op == 'shl':
            if b.op == 'c':
                r = scale(a, 1 << b.args[0])
                if 'nsw' in fl:
                    lo, hi = self.rng(n)
                    self.oblige(st, 'no signed overflow in shift', and_(le(I(lo), r), le(r, I(hi))), x.line)
                    return r
                if 0 < b.args[0] < n: return scale(wrap(n - b.args[0], a), 1 << b.args[0])
                return wrap(n, r)
            if a.op == 'c' and a.args[0] > 0 and b.lo is not None and b.lo >= 0 and b.hi is not None and b.hi < n:
                r = I(a.args[0] << b.lo)
                for k in range(b.lo + 1, b.hi + 1): r = ite(eq(b, I(k)), I(a.args[0] << k), r)
                return wrap(n, r)
        if op == 'lshr' and b.op == 'c':
            return wrap(n, idiv(uns(n, a), I(1 << b.args[0])))
        if op == 'ashr' and b.op == 'c':
            return idiv(a, I(1 << b.args[0]))
        if op == 'and': return self.bitand(n, a, b)
        if op == 'or':
            if a.op == 'c' and b.op == 'c': return I(a.args[0] | b.args[0])
            if 'disjoint' in fl: return wrap(n, add(uns(n, a), uns(n, b)))
            s = sub(add(a, b), self.bitand(n, a, b))
            return s
        if op == 'xor':
            if b.op == 'c' and b.args[0] == -1: return sub(I(-1), a)
            if a.op == 'c' and b.op == 'c': return I(a.args[0] ^ b.args[0])
            return wrap(n, sub(add(uns(n, a), uns(n, b)), scale(uns(n, self.bitand(n, a, b)), 2)))
        raise Unsupported('integer op %s: %s' % (op, x.line[:80]))

    def bitand(self, n, a, b):
        if a.op == 'c' and b.op == 'c': return I(a.args[0] & b.args[0])
        if a.op == 'c': a, b = b, a
        if a is b: return a
        # disjoint halves: terms with high coefficients against small values
        if b.op == 'c':
            m = b.args[0] % (1 << n)
            if m == 0: return I(0)
            u = uns(n, a)
            # decompose mask into runs of ones
            res = I(0)
            i = 0
            while i < n:
                if (m >> i) & 1:
                    j = i
                    while j < n and (m >> j) & 1: j += 1
                    part = imod(idiv(u, I(1 << i)), I(1 << (j - i))) if j < n else idiv(u, I(1 << i))
                    res = add(res, scale(part, 1 << i))
                    i = j
                else: i += 1
            return wrap(n, res)
        # value with all-low-zero bits against a small value
        def tz(e):
            c, it = ldview(e)
            g = 0
            for t, k in it: g = gcd(g, k)
            g = gcd(g, c)
            return (g & -g) if g else 1 << n
        for p, q in ((a, b), (b, a)):
            uq = uns(n, q)
            if uq.hi is not None and uq.hi < tz(p): return I(0)
        raise Unsupported('bitwise and of %s' % show(a)[:60])

    def ptrarith(self, st, x, op, a, b):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is b.obj: return sub(a.off, b.off)
            if a.obj is None or b.obj is None: return fresh('addr!', 'I', -2 ** 63, 2 ** 63 - 1)     # any value: addresses are not modelled
            raise Unsupported('difference of unrelated pointers')
        if op == 'add' and isinstance(a, Ptr) and isinstance(b, E): return Ptr(a.obj, add(a.off, b), a.keys)
        if op == 'add' and isinstance(b, Ptr): return Ptr(b.obj, add(b.off, a), b.keys)
        if op == 'sub' and isinstance(a, Ptr): return Ptr(a.obj, sub(a.off, b), a.keys)
        if op == 'and' and isinstance(a, Ptr) and isinstance(b, E) and b.op == 'c':
            # alignment test: objects are maximally aligned
            m = b.args[0]
            if m >= 0 and m < 64: return self.bitand(64, a.off, b)
        raise Unsupported('pointer arithmetic ' + op)

    def fast_valid(self, st, g):
        if g.op == 'c': return g.args[0]
        if g in st.pcset: return True
        fs = [p for p in st.pc if p.op != 'forall' and not any(t.sort == 'R' for t in subterms(p))]
        r, _ = solve.z3check(fs + [not_(g)], 300)
        return r == 'unsat'

    def bvscalar(self, st, x, op, v, t0, ty):
        if isinstance(v[0], Ptr) or (len(v) > 1 and isinstance(v[1], Ptr)):
            if op in ('zext', 'sext', 'trunc'): return v[0]
            return self.ptrarith(st, x, op, v[0], self.toidx(v[1]))
        if t0.n == 1 and op in ('and', 'or', 'xor'):
            return {'and': and_, 'or': or_, 'xor': lambda a, b: not_(iff(a, b))}[op](*v)
        if op in ('zext', 'sext', 'trunc'):
            a = v[0]
            if t0.n == 1: return ite_bv(a, BV(1 if op == 'zext' else -1, ty.n), BV(0, ty.n))
            if op == 'zext': return bvop('bvzext', 'V%d' % ty.n, a)
            if op == 'sext': return bvop('bvsext', 'V%d' % ty.n, a)
            if ty.n == 1: return eq(bvop('bvextract', 'V1', a, 0), BV(1, 1))
            return bvop('bvextract', 'V%d' % ty.n, a, 0)
        a, b = v
        m = {'add': 'bvadd', 'sub': 'bvsub', 'mul': 'bvmul', 'and': 'bvand', 'or': 'bvor', 'xor': 'bvxor',
             'shl': 'bvshl', 'lshr': 'bvlshr', 'ashr': 'bvashr', 'udiv': 'bvudiv', 'urem': 'bvurem'}
        if op in m: return bvop(m[op], a.sort, a, b)
        raise Unsupported('bv op ' + op)

    # ------------------------------------------------------------ calls
    def call(self, st, fr, x):
        callee, _ = x.x
        if isinstance(callee, Local):
            v = st.env.get(callee.name)
            if not isinstance(v, FnPtr): raise Unsupported('indirect call')
            name = v.name
        else: name = callee.v
        if name.startswith('llvm.'):
            return self.intrinsic(st, name, x)
        args = [self.val(st, a) for a in x.a]
        for rx, h in self.hooks:
            if rx.match(name):
                r = h(self, st, args, x, name)
                if r is NotImplemented: continue
                return r
        h = BUILTIN.get(name)
        if h is not None:
            return h(self, st, args, x)
        if name in self.mod.funcs:
            return self.run(st, name, args, fr.depth + 1)
        raise Unsupported('call to external ' + name)

    def intrinsic(self, st, name, x):
        n = name[5:]
        if n.startswith(('lifetime', 'dbg.', 'assume', 'invariant', 'experimental.noalias', 'stackrestore', 'va_')):
            if n.startswith('lifetime') and len(x.a) == 2:
                p = self.val(st, x.a[1])
                if isinstance(p, Ptr) and p.obj is not None and p.obj.kind == 'stack' and p.off.op == 'c' and p.off.args[0] == 0:
                    os_ = st.w(p.obj)
                    os_.cells = {}; os_.arrs = {}; os_.stride = None
            return [(st, None)]
        if n.startswith('stacksave'): return [(st, NULL)]
        a = [self.val(st, o) for o in x.a]
        if n.startswith('expect'): return [(st, a[0])]
        if n.startswith(('memcpy', 'memmove')):
            self.memcpy(st, a[0], a[1], self.toidx(a[2]), x.line); return [(st, None)]
        if n.startswith('memset'):
            self.memset(st, a[0], self.toidx(a[1]), self.toidx(a[2]), x.line); return [(st, None)]
        if n.startswith('trap'): 
            self.oblige(st, 'trap reached', FALSE, ''); return None

        def el(f):
            if isinstance(a[0], list):
                return [f(*[q[i] if isinstance(q, list) else q for q in a]) for i in range(len(a[0]))]
            return f(*a)
        if n.startswith('fma.') or n.startswith('fmuladd'): return [(st, el(lambda p, q, r: add(mul(p, q), r)))]
        if n.startswith('fabs'): return [(st, el(abs_))]
        if n.startswith('sqrt'): return [(st, el(lambda p: self.fsqrt(st, p, x)))]
        if n.startswith(('minnum', 'minimum')): return [(st, el(lambda p, q: ite(lt(q, p), q, p)))]
        if n.startswith(('maxnum', 'maximum')): return [(st, el(lambda p, q: ite(lt(p, q), q, p)))]
        if n.startswith('floor'): return [(st, el(lambda p: toreal(rfloor(p))))]
        if n.startswith('ceil'): return [(st, el(lambda p: scale(toreal(rfloor(scale(p, -1))), -1)))]
        if n.startswith('trunc'): return [(st, el(lambda p: toreal(rtrunc(p))))]
        if n.startswith('copysign'): return [(st, el(lambda p, q: ite(lt(q, R(0)), scale(abs_(p), -1), abs_(p))))]
        if n.startswith('smin'): return [(st, el(lambda p, q: min_(p, q)))]
        if n.startswith('smax'): return [(st, el(lambda p, q: max_(p, q)))]
        if n.startswith(('umin', 'umax')):
            w = int(n.split('.i')[-1])
            f = (lambda p, q: ite(le(uns(w, p), uns(w, q)), p, q)) if n.startswith('umin') else (lambda p, q: ite(le(uns(w, p), uns(w, q)), q, p))
            return [(st, el(f))]
        if n.startswith('abs.'): return [(st, el(lambda p, *_: abs_(p)))] if not isinstance(a[0], list) else [(st, [abs_(p) for p in a[0]])]
        if n.startswith('vector.reduce.'):
            k = n.split('.')[2]
            v = a[-1] if isinstance(a[-1], list) else a[0]
            if k in ('fadd', 'add'):
                r = a[0] if k == 'fadd' else None
                for e in v: r = e if r is None else add(r, e)
                return [(st, r)]
            if k in ('fmul', 'mul'):
                r = a[0] if k == 'fmul' else None
                for e in v: r = e if r is None else mul(r, e)
                return [(st, r)]
            if k in ('fmin', 'fmax', 'smin', 'smax'):
                r = v[0]
                for e in v[1:]: r = min_(r, e) if k.endswith('min') else max_(r, e)
                return [(st, r)]
            if k in ('and', 'or') and v[0].sort == 'B':
                return [(st, and_(*v) if k == 'and' else or_(*v))]
        if n.startswith(('sin.', 'cos.', 'tan.', 'exp.', 'log.', 'pow.', 'exp2', 'log10', 'log2')):
            return [(st, el(lambda *p: self.trans(st, n.split('.')[0], p)))]
        if n.startswith('x86.bmi.pdep') or n.startswith('x86.bmi.pext'):
            return [(st, pdep_pext(n.split('.')[2], a[0], a[1]))]
        if n.startswith('ctlz') or n.startswith('cttz') or n.startswith('ctpop') or n.startswith('bswap'):
            raise Unsupported('intrinsic ' + n)
        if n.startswith(('umul.with.overflow', 'uadd.with.overflow', 'smul.with.overflow', 'sadd.with.overflow', 'usub.with.overflow', 'ssub.with.overflow')):
            w = int(n.split('.i')[-1])
            p, q = a
            if n[0] == 'u': p, q = uns(w, p), uns(w, q)
            r = mul(p, q) if 'mul' in n else add(p, q) if 'add' in n else sub(p, q)
            lo, hi = self.rng(w) if n[0] == 's' else (0, (1 << w) - 1)
            return [(st, [wrap(w, r), not_(and_(le(I(lo), r), le(r, I(hi))))])]
        if n.startswith('is.constant'): return [(st, FALSE)]
        if n.startswith('objectsize'): return [(st, I(-1))]
        if n.startswith('is.fpclass'): return [(st, FALSE)]
        raise Unsupported('intrinsic ' + n)

    def fsqrt(self, st, p, x):
        if p.op != 'c':
            nn = le(R(0), p)
            if nn not in st.pcset and nn is not TRUE:
                if self.o.get('sqrt', 'assume') == 'prove':
                    self.oblige(st, 'square root of a non-negative value', nn, x.line if x else '')
                else:
                    self.note('square roots: behaviour for negative radicands (nan) is outside the contract')
                    st.assume(nn)
        r = sqrt(p)
        if r.op == 'sqrt':
            st.assume(le(R(0), r))
        return r

    def trans(self, st, f, p):
        self.note('transcendental functions (%s) are uninterpreted with their basic identities' % f)
        r = app(f, p, 'R')
        if f in ('sin', 'cos'):
            s, c = app('sin', p, 'R'), app('cos', p, 'R')
            st.assume(eq(add(mul(s, s), mul(c, c)), R(1)))
            st.assume(implies(and_(lt(R(0), p[0]), lt(p[0], R(3.141592653589793))), lt(R(0), s)))
            st.assume(implies(and_(le(R(0), p[0]), le(p[0], R(1.5707963267948966))), lt(R(0), c)))
        if f == 'atan':
            s, c = app('sin', (r,), 'R'), app('cos', (r,), 'R')
            st.assume(eq(s, mul(p[0], c))); st.assume(lt(R(0), c))
        if f == 'exp': st.assume(lt(R(0), r))
        return r

    # ------------------------------------------------------------ loops
    def do_loop(self, st, fr, hdr, body, prev):
        """returns list of ('ret',..)/('edge', state, target, prev)"""
        r = self.try_unroll(st, fr, hdr, body, prev)
        if r is not None: return r
        from .loops import cut_loop
        self.unrolling.append(None)
        try: return cut_loop(self, st, fr, hdr, body, prev)
        finally: self.unrolling.pop()

    def try_unroll(self, st0, fr, hdr, body, prev):
        if st0.flags.get(('cut', fr.id, hdr)): return None
        nob = len(self.obls); np0 = self.npaths; ln = len(self.loopinfo); nu = len(self.unrolling); cs = len(self.callstack)
        self.unrolling.append((fr.id, hdr))
        try: return self.try_unroll1(st0, fr, hdr, body, prev)
        except AbortUnroll as a:
            if a.args[0] != (fr.id, hdr): raise
            del self.obls[nob:]; del self.loopinfo[ln:]; del self.callstack[cs:]
            self.npaths = np0
            return None
        finally: del self.unrolling[nu:]

    def try_unroll1(self, st0, fr, hdr, body, prev):
        key = (fr.id, hdr)
        nob = len(self.obls)
        np0 = self.npaths
        outs = []
        st = st0.copy()
        # set header phis for the first iteration
        cur = [(st, prev)]
        for it in range(self.o['unroll']):
            nxt = []
            for s, pv in cur:
                self.enter_phis(s, fr, hdr, pv)
                s.flags.pop(key, None)
                for o in self.region(s, fr, hdr, None, (hdr, body)):
                    if o[0] == 'edge' and o[2] == hdr:
                        if not o[1].flags.get(key):
                            del self.obls[nob:]
                            self.npaths = np0
                            return None
                        nxt.append((o[1], o[3]))
                    else: outs.append(o)
            if not nxt: return outs
            if len(nxt) > self.o['maxpaths']: raise Unsupported('too many paths while unrolling')
            cur = nxt
        del self.obls[nob:]
        self.npaths = np0
        return None

    def enter_phis(self, st, fr, hdr, prev):
        vals = []
        for x in fr.f.blocks[hdr]:
            if x.op != 'phi': break
            for v, l in x.x:
                if l == prev: vals.append((x.dst, self.val(st, v))); break
            else: raise Unsupported('phi edge')
        for d, v in vals: st.env[d] = v


class Frame:
    n = 0

    def __init__(s, f, depth):
        Frame.n += 1
        s.f = f; s.depth = depth; s.id = Frame.n


def ite_bv(c, a, b):
    if c.op == 'c': return a if c.args[0] else b
    return mk('ite', (c, a, b), a.sort)


def pdep_pext(kind, src, mask):
    if mask.op != 'c': raise Unsupported('symbolic mask')
    n = bvw(src); m = mask.args[0]
    bits = [i for i in range(n) if (m >> i) & 1]
    ex = lambda i: bvop('bvextract', 'V1', src, i)
    out = [BV(0, 1)] * n
    if kind == 'pdep':
        for j, i in enumerate(bits): out[i] = ex(j)
    else:
        for j, i in enumerate(bits): out[j] = ex(i)
    r = out[0]
    for i in range(1, n): r = bvop('bvconcat', 'V%d' % (i + 1), out[i], r)
    return r


# ------------------------------------------------------------------ built-in externals
def _fail_assert(ex, st, a, x):
    ex.oblige(st, 'assertion in the code holds', FALSE, '; '.join(assert_text(ex, st, p) for p in a if isinstance(p, Ptr)))
    return None


def assert_text(ex, st, p):
    try:
        os_ = st.mem[p.obj]
        out = ''
        o = p.off.args[0]
        while o in os_.cells and os_.cells[o][1].args[0] != 0:
            out += chr(os_.cells[o][1].args[0] % 256); o += 1
        return out
    except Exception: return '?'


def _new(ex, st, a, x):
    n = ex.toidx(a[0])
    nm = 'heap%d' % (ex.fexec_next())
    lo = le(I(0), n)
    ex.oblige(st, 'allocation size non-negative', and_(lo, le(n, I((1 << 62)))), x.line)
    o = ex.new_obj(st, nm, 'heap', n, heap=True)
    st.extra['live'] = st.extra.get('live', ()) + (o,)
    return [(st, Ptr(o, I(0)))]


def _delete(ex, st, a, x):
    p = a[0]
    if isinstance(p, Undef): raise Unsupported('delete of undef')
    if p.obj is None: return [(st, None)]
    if not p.obj.heap:
        ex.oblige(st, 'delete of heap memory only (%s)' % p.obj, FALSE, x.line); return [(st, None)]
    os_ = st.w(p.obj)
    if not os_.alive:
        ex.oblige(st, 'no double free of ' + p.obj.name, FALSE, x.line); return [(st, None)]
    ex.oblige(st, 'delete of the start of a block', eq(p.off, I(0)), x.line)
    if p.keys: raise Unsupported('delete of family member')
    os_.alive = False
    st.extra['live'] = tuple(o for o in st.extra.get('live', ()) if o is not p.obj)
    return [(st, None)]


def _fexec_next(self):
    self.fexec += 1
    return self.fexec


Exec.fexec_next = _fexec_next


def _math1(f):
    def h(ex, st, a, x): return [(st, ex.trans(st, f, tuple(a)))]
    return h


def _noret(ex, st, a, x):
    ex.oblige(st, 'process termination reached', FALSE, x.line)
    return None


def _memcmp(ex, st, a, x):
    p, q, n = a[0], a[1], ex.toidx(a[2])
    if n.op == 'c' and n.args[0] <= 64:
        r = I(0)
        for i in reversed(range(n.args[0])):
            u = ex.load(st, Ptr(p.obj, add(p.off, I(i)), p.keys), INT(8)); v = ex.load(st, Ptr(q.obj, add(q.off, I(i)), q.keys), INT(8))
            u, v = uns(8, u), uns(8, v)
            r = ite(lt(u, v), I(-1), ite(lt(v, u), I(1), r))
        return [(st, r)]
    # contract: sign of the first difference
    so, do = st.mem.get(p.obj), st.mem.get(q.obj)
    r = fresh('memcmp', 'I', -255, 255)
    k = fresh('memcmp.k', 'I', 0)
    if p.obj is None or q.obj is None:
        ex.oblige(st, 'memcmp on null is empty', eq(n, I(0)), x.line)
        return [(st, I(0))]
    un = n
    for pp, oo in ((p, so), (q, do)):
        size = oo.size(pp.keys) if callable(oo.size) else oo.size
        ex.oblige(st, 'memcmp within bounds', or_(eq(n, I(0)), and_(le(I(0), n), le(I(0), pp.off), le(add(pp.off, n), size))), x.line)
    rd = lambda pp, i: uns(8, ex.rawload(st, Ptr(pp.obj, add(pp.off, i), pp.keys), INT(8), 1, ''))
    st.assume(le(k, n))
    st.assume(forall(0, k, lambda j: eq(rd(p, j), rd(q, j))))
    st.assume(iff(eq(r, I(0)), eq(k, n)))
    st.assume(implies(lt(k, n), and_(iff(lt(r, I(0)), lt(rd(p, k), rd(q, k))), ne(rd(p, k), rd(q, k)))))
    return [(st, r)]


def _strlen(ex, st, a, x):
    p = a[0]
    os_ = st.mem[p.obj]
    if os_.stride is None and p.off.op == 'c' and all(c[1].op == 'c' for c in os_.cells.values() if isinstance(c[1], E)):
        o = p.off.args[0]; k = 0
        while True:
            c = os_.cells.get(o + k)
            if c is None: raise Unsupported('strlen')
            if c[1].args[0] == 0: return [(st, I(k))]
            k += 1
    n = fresh('strlen', 'I', 0, (1 << 31) - 1)
    rd = lambda i: ex.rawload(st, Ptr(p.obj, add(p.off, i), p.keys), INT(8), 1, '')
    size = os_.size(p.keys) if callable(os_.size) else os_.size
    ex.note('strlen: the argument is a terminated string')
    st.assume(lt(add(p.off, n), size))
    st.assume(eq(rd(n), I(0)))
    st.assume(forall(0, n, lambda j: ne(rd(j), I(0))))
    return [(st, n)]


def _mem(kind):
    def h(ex, st, a, x):
        if kind == 'set': ex.memset(st, a[0], ex.toidx(a[1]), ex.toidx(a[2]), x.line)
        else: ex.memcpy(st, a[0], a[1], ex.toidx(a[2]), x.line)
        return [(st, a[0])]
    return h


BUILTIN = {
    '_ZN3um212failedAssertEPKciS1_': _fail_assert,
    '_Znwm': _new, '_Znam': _new, '_ZnwmSt11align_val_t': _new, '_ZnamSt11align_val_t': _new, 'malloc': _new,
    '_ZdlPv': _delete, '_ZdaPv': _delete, '_ZdlPvm': _delete, '_ZdaPvm': _delete, '_ZdlPvSt11align_val_t': _delete,
    '_ZdaPvSt11align_val_t': _delete, '_ZdlPvmSt11align_val_t': _delete, 'free': _delete,
    '_ZSt9terminatev': _noret, 'abort': _noret, 'exit': _noret, '__clang_call_terminate': _noret,
    'memcmp': _memcmp, 'bcmp': _memcmp, 'strlen': _strlen, 'memcpy': _mem('cpy'), 'memmove': _mem('cpy'), 'memset': _mem('set'),
}
for _f in ('sin', 'cos', 'tan', 'exp', 'log', 'acos', 'asin', 'atan', 'pow', 'sinh', 'cosh', 'tanh', 'cbrt', 'atan2', 'hypot'):
    BUILTIN[_f] = _math1(_f)
    BUILTIN[_f + 'f'] = _math1(_f)


def _sqrt(ex, st, a, x): return [(st, ex.fsqrt(st, a[0], x))]
BUILTIN['sqrt'] = BUILTIN['sqrtf'] = _sqrt
def _floor(ex, st, a, x): return [(st, toreal(rfloor(a[0])))]
BUILTIN['floor'] = BUILTIN['floorf'] = _floor
def _ceil(ex, st, a, x): return [(st, scale(toreal(rfloor(scale(a[0], -1))), -1))]
BUILTIN['ceil'] = BUILTIN['ceilf'] = _ceil
