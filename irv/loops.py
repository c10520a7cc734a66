"""Cutting loops at their header.

The loop state at the start of iteration k is described by
  * closed forms in the iteration counter k where the body allows it (induction variables,
    running sums, affine array writes), and
  * fresh symbols constrained by inferred invariants (Houdini: every candidate that does not hold
    initially or is not preserved by the body is dropped) otherwise.
Closed forms and invariants are re-established by executing the real body from an arbitrary iteration
and proving them again for iteration k+1, so nothing is taken on trust."""
import re, time
import os, time
from .expr import *
from . import expr as X, solve
from .exec import Ptr, FnPtr, Undef, Unsupported, ABase, AStore, ARange, aread, OS, ptr_ite, NULL

STATS = {'loops': 0, 'inductive': 0}


# ------------------------------------------------------------------ values as leaves
def leaves(v):
    if isinstance(v, E): return [v]
    if isinstance(v, Ptr):
        return [v.off] + list(v.keys)
    if isinstance(v, list):
        r = []
        for x in v: r += leaves(x)
        return r
    return []


def shape(v):
    if isinstance(v, E): return v.sort
    if isinstance(v, Ptr): return ('p', id(v.obj), len(v.keys))
    if isinstance(v, list): return tuple(shape(x) for x in v)
    if isinstance(v, FnPtr): return ('fn', v.name)
    return None


def rebuildv(v, it):
    if isinstance(v, E): return next(it)
    if isinstance(v, Ptr):
        if v.obj is None: next(it); return v
        o = next(it)
        return Ptr(v.obj, o, tuple(next(it) for _ in v.keys))
    if isinstance(v, list): return [rebuildv(x, it) for x in v]
    return v


def same(a, b):
    if a is b: return True
    if shape(a) != shape(b): return False
    if isinstance(a, Undef) or a is None: return isinstance(b, Undef) or b is None
    return all(x is y for x, y in zip(leaves(a), leaves(b)))


_num = re.compile(r'!(\d+)$')


def asubst(a, m):
    """substitution inside an array value"""
    if isinstance(a, ABase): return a
    if isinstance(a, AStore):
        v = a.val
        v = substv(v, m)
        return AStore(asubst(a.prev, m), tuple(subst(x, m) for x in a.idx), v)
    f = a.fn
    return ARange(asubst(a.prev, m), tuple(subst(x, m) for x in a.keys), subst(a.lo, m), subst(a.hi, m), lambda i: substv(f(i), m), a.tag)


def substv(v, m):
    if isinstance(v, E): return subst(v, m)
    if isinstance(v, Ptr):
        if v.obj is None: return v
        return Ptr(v.obj, subst(v.off, m), tuple(subst(x, m) for x in v.keys))
    if isinstance(v, list): return [substv(x, m) for x in v]
    return v


def subst_state(st, m):
    """replace symbols throughout a state (used when the final counter value is known)"""
    keys = set(m)
    st.env = {k: substv(v, m) for k, v in st.env.items()}
    pc = st.pc
    st.pc = []; st.pcset = set()
    for p in pc: st.assume(subst(p, m))
    st.trace = tuple(subst(t, m) for t in st.trace)
    for o, os_ in list(st.mem.items()):
        ch = False
        cells = {}
        for k, (n, v) in os_.cells.items():
            w = substv(v, m)
            cells[k] = (n, w)
            if w is not v: ch = True
        arrs = {}
        for k, a in os_.arrs.items():
            if isinstance(a, ABase): arrs[k] = a
            else: arrs[k] = asubst(a, m); ch = True
        size = os_.size
        if not callable(size):
            size = subst(size, m)
            if size is not os_.size: ch = True
        if ch:
            n = OS(size, os_.alive, cells, arrs, os_.stride)
            st.mem[o] = n


class Leaf:
    __slots__ = ('init', 'sym', 'form', 'why')

    def __init__(s, init, sym): s.init = init; s.sym = sym; s.form = None; s.why = None


class ASlot:
    __slots__ = ('init', 'base', 'form', 'why', 'obj', 'key')

    def __init__(s, obj, key, init, base): s.obj = obj; s.key = key; s.init = init; s.base = base; s.form = None; s.why = None


DBG = os.environ.get('IRV_LOOP')


class LV:
    """view of a loop state for invariant candidates and templates"""

    def __init__(s, L, k, state, phis):
        s.L = L; s.k = k; s.st = state; s.phis = phis

    def arr(s, obj, key, idx):
        return aread(s.st.mem[obj].arrs[key], tuple(idx))


class Loop:
    def __init__(self, ex, st, fr, hdr, body, prev):
        self.ex = ex; self.fr = fr; self.hdr = hdr; self.body = body
        self.mark = X._fresh[0]
        self.s0 = st.copy()
        ex.enter_phis(self.s0, fr, hdr, prev)
        self.k = fresh('k', 'I', 0)
        self.outer = list(ex.kstack)    # iteration numbers of the loops around this one
        self.allowed = {self.k.args[0]}
        self.phis = [x.dst for x in fr.f.blocks[hdr] if x.op == 'phi']
        self.phity = {x.dst: x.ty for x in fr.f.blocks[hdr] if x.op == 'phi'}
        self.scal = {}            # slot key -> list of Leaf
        self.proto = {}           # slot key -> entry value (structure)
        self.arrs = {}            # (obj, key) -> ASlot
        self.strided = []
        self.dead = set()         # cells forgotten (undefined at the header)
        self.inv = []             # (name, fn(LV) -> E)
        self.facts = []           # closed facts about past iterations, fn(k) -> E
        self.bounds = []          # E n with k <= n established
        self.nproved = 0
        for d in self.phis: self.add_scalar(('phi', d), self.s0.env[d])

    # ---------------------------------------------------------------- slots
    def add_scalar(self, key, v):
        ls = []
        st = self.ptr_stride(v) if isinstance(v, Ptr) else None
        for j, x in enumerate(leaves(v)):
            if st and j == 0:
                S, r = st
                s = add(scale(fresh('h', 'I'), S), I(r))
                self.strided.append((key, s, S))
            elif x.sort == 'I': s = fresh('h', 'I', *(self.rng_of(key, v)))
            elif x.sort == 'R': s = fresh('h', 'R')
            elif x.sort == 'B': s = fresh('h', 'B')
            else: s = fresh('h', x.sort)
            ls.append(Leaf(x, s))
        self.scal[key] = ls
        self.proto[key] = v

    def ptr_stride(self, v):
        """element stride for a pointer walking over an array (checked on every back edge)"""
        if v.obj is None: return None
        os_ = self.s0.mem.get(v.obj)
        if os_ is None: return None
        S = os_.stride
        if S is None:
            if callable(os_.size) or os_.size.op == 'c': return None
            c, it = ldview(os_.size)
            S = c
            for t, k in it: S = X.gcd(S, k)
            if S <= 1: return None
        c, it = ldview(v.off)
        if any(k % S for t, k in it): return None
        return S, c % S

    def check_strides(self, backs):
        for key, s, S in self.strided:
            if key not in self.scal: continue
            for b in backs:
                v = self.backval(b, key)
                if not isinstance(v, Ptr): continue
                for x in ite_leaves(v.off):
                    c, it = ldview(sub(x, self.leafval(self.scal[key][0])))
                    if c % S or any(k % S for t, k in it):
                        raise Unsupported('pointer stride')

    def rng_of(self, key, v):
        """machine range of an integer slot (every stored value is canonical)"""
        if isinstance(v, Ptr): return (None, None)
        if key[0] == 'size': return (0, None)
        if key[0] == 'cell': return self.ex.rng(8 * key[3])
        ty = self.phity[key[1]]
        while ty.k in ('vec', 'arr'): ty = ty.el
        return self.ex.rng(ty.n) if ty.k == 'int' else (None, None)

    def closed(self, e):
        for t in subterms(e):
            nm = None
            if t.op == 'v': nm = t.args[0]
            elif t.op == 'app': nm = t.args[0]
            if nm is None: continue
            if nm in self.allowed: continue
            if '?' in nm: continue
            m = _num.search(nm)
            if m and int(m.group(1)) > self.mark: return False
        return True

    def loopfree(self, e):
        return self.closed(e) and self.k not in freevars(e)

    def leafval(self, l): return l.form if l.form is not None else l.sym

    # ---------------------------------------------------------------- building states
    def base(self, withinv=True):
        st = self.s0.copy()
        st.trace = ()
        for key, ls in self.scal.items():
            v = rebuildv(self.proto[key], iter([self.leafval(l) for l in ls]))
            if key[0] == 'phi': st.env[key[1]] = v
            elif key[0] == 'cell':
                os_ = st.w(key[1])
                os_.cells[key[2]] = (key[3], v)
            elif key[0] == 'size':
                st.w(key[1]).size = v
        for (o, off, nb) in self.dead:
            os_ = st.w(o)
            for c in list(os_.cells):
                if c < off + nb and off < c + os_.cells[c][0]: del os_.cells[c]
        for (o, key), a in self.arrs.items():
            st.w(o).arrs[key] = a.form(self.k) if a.form is not None else a.base
        if withinv:
            for n in self.bounds: st.assume(le(self.k, n))
            lv = LV(self, self.k, st, {d: st.env[d] for d in self.phis})
            for nm, f in self.inv: st.assume(f(lv))
            for f in self.facts: st.assume(f(self.k))
        return st

    def execute(self, quiet, withinv=True):
        st = self.base(withinv)
        self.base_state = st.copy()
        ex = self.ex
        if quiet: ex.quiet += 1
        if quiet and not withinv: ex.cheap += 1
        ex.loopstack.append((self.fr.f.name, self.hdr))
        ex.kstack.append(self.k)
        try:
            outs = ex.region(st, self.fr, self.hdr, None, (self.hdr, self.body))
        finally:
            if quiet: ex.quiet -= 1
            if quiet and not withinv: ex.cheap -= 1
            ex.loopstack.pop()
            ex.kstack.pop()
        backs = []; exits = []
        for o in outs:
            if o[0] == 'edge' and o[2] == self.hdr:
                if o[1].dead(): continue
                ex.enter_phis(o[1], self.fr, self.hdr, o[3])
                backs.append(o[1])
            else: exits.append(o)
        return backs, exits

    # ---------------------------------------------------------------- discovery of the modified state
    def discover(self):
        for rnd in range(12):
            backs, exits = self.execute(True, False)
            new = False
            base = self.base_state
            for b in backs:
                for o, bos in base.mem.items():
                    os_ = b.mem.get(o)
                    if os_ is bos or os_ is None or not (os_.alive or bos.alive): continue
                    if os_.alive != bos.alive:
                        if o.kind == 'stack': continue
                        raise Unsupported('loop changes the lifetime of ' + o.name)
                    if os_.stride != bos.stride:
                        self.promote(o, os_.stride, os_); new = True
                        continue
                    if os_.size is not bos.size and ('size', o) not in self.scal:
                        if callable(os_.size): raise Unsupported('loop resizes family')
                        self.add_scalar(('size', o), self.s0.mem[o].size); new = True
                    for off in set(os_.cells) | set(bos.cells):
                        c1, c0 = os_.cells.get(off), bos.cells.get(off)
                        if c1 == c0: continue
                        nb = (c1 or c0)[0]
                        if (o, off, nb) in self.dead: continue
                        key = ('cell', o, off, nb)
                        if key in self.scal:
                            if c1 is None or c1[0] != nb or shape(c1[1]) != shape(self.proto[key]):
                                del self.scal[key]; del self.proto[key]
                                self.dead.add((o, off, nb)); new = True
                            continue
                        if c0 is not None and c1 is not None and c1[0] == c0[0] and same(c0[1], c1[1]): continue
                        e0 = self.s0.mem[o].cells.get(off)
                        if e0 is not None and c1 is not None and e0[0] == c1[0] and shape(e0[1]) == shape(c1[1]) and shape(e0[1]) is not None:
                            self.add_scalar(key, e0[1])
                        else:
                            self.dead.add((o, off, nb))
                            if e0 is not None and e0[0] != nb: self.dead.add((o, off, e0[0]))
                        new = True
                    for key in set(os_.arrs) | set(bos.arrs):
                        a1, a0 = os_.arrs.get(key), bos.arrs.get(key)
                        if a1 is a0 or (o, key) in self.arrs: continue
                        if key not in self.s0.mem[o].arrs:
                            n = self.ex.fresh_arr(o, key, None)
                            self.allowed.add(n.name)
                            self.s0.w(o).arrs[key] = n
                        init = self.s0.mem[o].arrs[key]
                        bb = self.fresh_base(o, key, init)
                        self.arrs[(o, key)] = ASlot(o, key, init, bb)
                        new = True
                # phis changing shape
                for d in self.phis:
                    key = ('phi', d)
                    if key in self.scal and shape(b.env[d]) != shape(self.proto[key]):
                        p = self.proto[key]
                        if isinstance(p, Undef) or p is None:
                            continue
                        raise Unsupported('loop-carried value changes kind: %r -> %r' % (p, b.env[d]))
            if not new: return backs, exits
        raise Unsupported('loop state does not stabilise')

    def fresh_base(self, o, key, init):
        a = init
        while not isinstance(a, ABase): a = a.prev
        return ABase(freshname('%s.h%d' % (o.name.replace('!', '_'), key[0])), a.sort, a.lo, a.hi, a.fam)

    def promote(self, o, S, os1):
        """an object is first indexed symbolically inside the loop: use array mode from the start"""
        os_ = self.s0.w(o)
        if os_.stride is not None: raise Unsupported('stride change in loop')
        os_.stride = S
        for off, (n, v) in list(os_.cells.items()):
            kd = 'i' if isinstance(v, E) and v.sort == 'I' else 'f' if isinstance(v, E) and v.sort == 'R' else 'p'
            key = (off % S, n, kd)
            a = os_.arrs.get(key)
            if a is None:
                a = self.ex.fresh_arr(o, key, None); self.allowed.add(a.name)
            os_.arrs[key] = AStore(a, (I(off // S),), v)
        os_.cells = {}
        for key in os1.arrs:
            if key not in os_.arrs:
                a = self.ex.fresh_arr(o, key, None)
                self.allowed.add(a.name)
                os_.arrs[key] = a
        for key in list(self.scal):
            if key[0] == 'cell' and key[1] is o: del self.scal[key]; del self.proto[key]
        self.dead = {d for d in self.dead if d[0] is not o}

    # ---------------------------------------------------------------- closed forms
    def backval(self, b, key):
        if key[0] == 'phi': return b.env[key[1]]
        if key[0] == 'cell':
            c = b.mem[key[1]].cells.get(key[2])
            if c is None or c[0] != key[3]: return None
            return c[1]
        if key[0] == 'size': return b.mem[key[1]].size

    def conds(self, b):
        return and_(*b.trace)

    def infer(self, backs):
        """one round of closed-form inference; True if something was added"""
        k = self.k
        new = False
        # induction variables
        for key, ls in self.scal.items():
            vals = [self.backval(b, key) for b in backs]
            if any(v is None or shape(v) != shape(self.proto[key]) for v in vals): continue
            lv = [leaves(v) for v in vals]
            for i, l in enumerate(ls):
                if l.form is not None or l.why: continue
                vs = [x[i] for x in lv]
                if all(v is l.sym for v in vs):
                    l.form = l.init; new = True; continue
                if l.sym.sort not in ('I', 'R'): continue
                # a machine step that may wrap: guess that it does not (the induction check confirms it)
                ds = [sub(v.args[1] if v.op == 'wrap' else v, l.sym) for v in vs]
                if all(d is ds[0] for d in ds) and self.loopfree(ds[0]):
                    if ds[0].op == 'c' or l.sym.sort == 'R' or True:
                        if l.sym.sort == 'I': l.form = add(l.init, mul(k, ds[0]))
                        else: l.form = add(l.init, mul(toreal(k), ds[0]))
                        new = True
        if new: return True
        cl = [self.closed(self.conds(b)) for b in backs]
        for key, ls in self.scal.items():
            vals = [self.backval(b, key) for b in backs]
            if any(v is None or shape(v) != shape(self.proto[key]) for v in vals): continue
            lv = [leaves(v) for v in vals]
            for i, l in enumerate(ls):
                if l.form is not None or l.why: continue
                vs = [x[i] for x in lv]
                srt = l.sym.sort
                if srt in ('I', 'R'):
                    ds = [sub(v, l.sym) for v in vs]
                    if all(self.closed(d) for d in ds):
                        same_ = all(d is ds[0] for d in ds)
                        if same_ or all(cl):
                            f = ds[-1]
                            for b, d in list(zip(backs, ds))[:-1][::-1]: f = ite(self.conds(b), d, f)
                            if same_: f = ds[0]
                            if not self.has_q(f) and not (self.ex.o.get('nosum') and self.k in freevars(f)):
                                l.form = add(l.init, mksum(subst(f, {k: SUMV}), k)); new = True
                                continue
                # value determined by the previous iteration alone
                if all(self.closed(v) for v in vs) and (all(v is vs[0] for v in vs) or all(cl)):
                    f = vs[-1]
                    for b, v in list(zip(backs, vs))[:-1][::-1]: f = ite(self.conds(b), v, f) if v.sort != 'B' else or_(and_(self.conds(b), v), and_(not_(self.conds(b)), f))
                    g = subst(f, {k: sub(k, I(1))})
                    if srt != 'B' and subst(g, {k: I(0)}) is l.init: l.form = g
                    else: l.form = ite(le(k, I(0)), l.init, g) if srt != 'B' else or_(and_(le(k, I(0)), l.init), and_(lt(I(0), k), g))
                    new = True
        if new: return True
        for a in self.arrs.values():
            if a.form is not None or a.why: continue
            f = self.array_form(a, backs, cl)
            if f is not None: a.form = f; new = True
        return new

    def has_q(self, e):
        return any(t.op == 'forall' for t in subterms(e))

    def chain(self, a, base):
        """list of writes (oldest first) leading from base to a, or None"""
        out = []
        while a is not base:
            if isinstance(a, ABase): return None
            out.append(a); a = a.prev
        return out[::-1]

    def unread(self, e, a):
        """replace reads of the current array by reads of the entry array (guess: cell not yet written)"""
        m = {}
        for t in subterms(e):
            if t.op == 'app' and t.args[0] == a.base.name:
                m[t] = aread(a.init, t.args[1:])
        for _ in range(3):
            if not m: return e
            e = subst(e, m)
            m = {t: aread(a.init, t.args[1:]) for t in subterms(e) if t.op == 'app' and t.args[0] == a.base.name}
        return e if not m else None

    def array_form(self, a, backs, cl):
        k = self.k
        ev = []            # (path index, off E (k=0), coef int, keys, val, ('s'))
        for pi, b in enumerate(backs):
            ch = self.chain(b.mem[a.obj].arrs[a.key], a.base)
            if ch is None: a.why = 'array replaced'; return None
            for w in ch:
                if isinstance(w, ARange): return self.range_form(a, backs, cl)
                ev.append((pi, w.idx[:-1], w.idx[-1], w.val))
        if not ev: return None
        if any(isinstance(v, Ptr) or not isinstance(v, E) for _, _, _, v in ev): return None
        co = None
        offs = []
        for pi, keys, ix, val in ev:
            if not self.closed(ix) or any(not self.loopfree(x) for x in keys): return None
            c = ld(ix)[1].get(k, 0)
            if not isinstance(c, int) or c == 0: return None
            r = sub(ix, scale(k, c))
            if k in freevars(r): return None
            if co is None: co = c
            if c != co: return None
            offs.append(r)
        keys0 = ev[0][1]
        if any(x is not y for e in ev for x, y in zip(e[1], keys0)): return None
        d0 = offs[0]
        rel = []
        for r in offs:
            d = sub(r, d0)
            if d.op != 'c': return None
            rel.append(d.args[0])
        C = abs(co)
        lo = min(rel)
        if max(rel) - lo >= C: return self.overlap_form(a, ev, rel, offs, co, backs, cl)
        lo_e = add(d0, I(lo))
        # per residue: chain of (cond, value)
        multi = len(backs) > 1
        slots = {}
        init = a.init
        for (pi, keys, ix, val), r in zip(ev, rel):
            v = self.unread(val, a)
            if v is None: return None
            if self.has_prev_read(val, a, ix, co) is not None:
                v2 = self.recur(a, val, ix, co, len(ev), multi)
                if v2 is None: return None
                v = v2
            if not self.closed(v): return None
            slots.setdefault(r - lo, {})[pi] = v          # later write on the same path wins
        conds = [self.conds(b) for b in backs]
        fns = {}
        for r, d in slots.items():
            full = len(d) == len(backs)
            vs = list(d.values())
            if full and all(v is vs[0] for v in vs): fns[r] = (vs[0], True); continue
            if not all(cl): return None
            e = None
            items = list(d.items())
            if full: e = items[-1][1]; items = items[:-1]
            fns[r] = ([(conds[pi], v) for pi, v in items], e)
        kk = k

        def make(K):
            if co > 0: L, H = lo_e, add(lo_e, scale(K, C))
            else: L, H = add(lo_e, scale(sub(K, I(1)), co)), add(lo_e, I(C))

            def fn(i):
                if co > 0:
                    j = idiv(sub(i, lo_e), I(C)); rr = imod(sub(i, lo_e), I(C))
                else:
                    q = sub(add(lo_e, I(C - 1)), i)
                    j = idiv(q, I(C)); rr = sub(I(C - 1), imod(q, I(C)))
                old = None
                res = None
                for r in range(C):
                    if r in fns:
                        v, e = fns[r]
                        if e is True: x = subst(v, {kk: j})
                        else:
                            x = subst(e, {kk: j}) if e is not None else aread(init, keys0 + (i,))
                            for c, w in reversed(v): x = ite(subst(c, {kk: j}), subst(w, {kk: j}), x)
                    else: x = aread(init, keys0 + (i,))
                    res = x if res is None else ite(eq(rr, I(r)), x, res)
                return res
            return ARange(init, keys0, L, H, fn, 'loop')
        return make

    def has_prev_read(self, val, a, ix, co):
        for t in subterms(val):
            if t.op == 'app' and t.args[0] == a.base.name:
                d = sub(t.args[-1], ix)
                if d.op == 'c' and d.args[0] == -co: return t
        return None

    def recur(self, a, val, ix, co, n, multi):
        """a[i] = a[i - step] + f(k): running sum stored in the array itself"""
        if n != 1 or multi: return None
        t = self.has_prev_read(val, a, ix, co)
        d = self.unread(sub(val, t), a)
        if d is None or not self.closed(d) or self.has_q(d): return None
        first = aread(a.init, t.args[1:-1] + (subst(t.args[-1], {self.k: I(0)}),))
        return add(first, mksum(subst(d, {self.k: SUMV}), add(self.k, I(1))))

    def overlap_form(self, a, ev, rel, offs, co, backs, cl):
        return None

    def range_form(self, a, backs, cl):
        """each iteration fills a range [lo(k), hi(k)) adjacent to the previous one, single path"""
        return None

    # ---------------------------------------------------------------- induction checks
    def prove(self, st, goal, hints=()):
        if goal is TRUE: return True
        if goal is FALSE and not st.dead(): pass
        t = self.ex.o.get('loop_timeout', 1.5)
        if DBG: t0 = time.time()
        if self.ex.o.get('lean') and goal.op == 'le0' and not any(x.op in ('app', 'mul', 'sum', 'ite') for x in X.subterms(goal)):
            # a counter against a bound: the conditions on counters decide
            fs = [f for f in st.pc if not any(x.op in ('app', 'sum', 'forall') for x in X.subterms(f))]
            return solve.prove(fs, goal, timeout=t, heavy=False, hints=hints).status == 'proved'
        if self.ex.o.get('ite_cases') and goal.op == 'forall' and any(x.op == 'ite' for x in X.subterms(goal)): ok = self.prove_cases(st, goal, t, hints)
        else: ok = False
        if not ok:
            try: r = solve.prove(st.pc, goal, timeout=t, heavy=False, hints=hints)
            except (X.TooBig, NotImplementedError, RecursionError): return False
            ok = r.status == 'proved'
        if DBG and time.time() - t0 > .3: print('   slow %.1fs %s %s %d facts %s' % (time.time() - t0, self.fr.f.name, ok, len(st.pc), show_(goal)[:300]), flush=True)
        if ok: self.nproved += 1
        return ok

    def prove_cases(self, st, goal, t, hints):
        """a quantified goal over conditional reads: its variables made constants, then one proof per outcome of the conditions"""
        vs, body = goal.args
        g = subst(body, {v: fresh('cs', v.sort) for v in vs})
        ds = list(g.args) if g.op == 'or' else [g]
        facts = list(st.pc) + [not_(d) for d in ds if not any(x.op in ('ite', 'forall') for x in X.subterms(d))]
        def go(facts, g, depth):
            c = next((x.args[0] for x in X.subterms(g) if x.op == 'ite' and not any(y.op == 'ite' for y in X.subterms(x.args[0]))), None)
            if c is None or depth == 0:
                return solve.prove(facts, g, timeout=t, heavy=False, hints=hints).status == 'proved'
            for h, v in ((c, TRUE), (not_(c), FALSE)):
                if solve.prove(facts + [h], FALSE, timeout=min(t, 1.0), heavy=False, hints=hints).status == 'proved': continue
                if not go(facts + [h], solve.subst_ite(g, c, v), depth - 1): return False
            return True
        try: return go(facts, g, 5)
        except (X.TooBig, NotImplementedError, RecursionError): return False

    def check_forms(self, backs):
        """closed forms hold at k+1 after the body; demotes the ones that do not"""
        bad = False
        k1 = {self.k: add(self.k, I(1))}
        for key, ls in self.scal.items():
            for b in backs:
                v = self.backval(b, key)
                if v is None or shape(v) != shape(self.proto[key]):
                    for l in ls:
                        if l.form is not None: l.form = None; l.why = 'shape'; bad = True
                    continue
                for l, x in zip(ls, leaves(v)):
                    if l.form is None: continue
                    want = subst(l.form, k1)
                    g = eq(x, want) if x.sort != 'B' else iff(x, want)
                    if not self.prove(b, g): l.form = None; l.why = 'not inductive'; bad = True
        for a in self.arrs.values():
            if a.form is None: continue
            i = fresh('ix', 'I')
            nk = len(abase_keys(a))
            for b in backs:
                ix = tuple(fresh('kx', 'I') for _ in range(nk)) + (i,)
                now = aread(b.mem[a.obj].arrs[a.key], ix)
                want = aread(a.form(add(self.k, I(1))), ix)
                if isinstance(now, Ptr): a.form = None; a.why = 'pointer array'; bad = True; break
                if not self.prove(b, eq(now, want)):
                    a.form = None; a.why = 'not inductive'; bad = True; break
        return not bad

    def init_forms(self):
        bad = False
        for key, ls in self.scal.items():
            for l in ls:
                if l.form is None: continue
                f0 = subst(l.form, {self.k: I(0)})
                g = eq(f0, l.init) if f0.sort != 'B' else iff(f0, l.init)
                if not self.prove(self.s0, g): l.form = None; l.why = 'init'; bad = True
        for a in self.arrs.values():
            if a.form is None: continue
            nk = len(abase_keys(a))
            ix = tuple(fresh('kx', 'I') for _ in range(nk + 1))
            if not self.prove(self.s0, eq(aread(a.form(I(0)), ix), aread(a.init, ix))):
                a.form = None; a.why = 'init'; bad = True
        return not bad

    # ---------------------------------------------------------------- candidates
    def candidates(self, backs, exits):
        k = self.k
        cands = []
        seen = set()

        def addc(nm, f):
            cands.append((nm, f))
        # bounds on the counter from exit conditions
        bnd = {}
        lits = []
        for o in list(exits) + [('b', b) for b in backs]:
            s = o[1]
            for c in s.trace:
                for t in subterms(c):
                    if t.op in ('le0', 'lt0', 'eq0') and t.args[0].sort == 'I': lits.append(t.args[0])
        for e in lits:
            c, d = ld(e)
            q = d.get(k, 0)
            if q == 0 or not isinstance(q, int): continue
            r = sub(e, scale(k, q))
            if not self.loopfree(r): continue
            # q*k + r = 0  ->  k = -r/q
            cc, it = ldview(r)
            if all(x % q == 0 for _, x in it) and all(isinstance(x, int) for _, x in it):
                n = mklin(-(cc // q) if q > 0 else cc // (-q), {t: -(x // q) for t, x in it}, 'I')
                for z in (0, 1): bnd[add(n, I(z))] = 1
                if cc % q: bnd[add(n, I(-1))] = 1
            else:
                n = e
                bnd[('raw', e, q)] = 1
        for n in bnd:
            if isinstance(n, tuple):
                _, e, q = n
                base = sub(e, scale(k, q))
                for z in (0, abs(q)):
                    if q > 0: addc('counter bound', lambda lv, base=base, q=q, z=z: le(add(base, scale(lv.k, q)), I(z)))
                    else: addc('counter bound', lambda lv, base=base, q=q, z=z: le(I(-z), add(base, scale(lv.k, q))))
            else:
                addc(('bound', n), lambda lv, n=n: le(lv.k, n))
        # unresolved scalars
        ures = []
        for key, ls in self.scal.items():
            vals = [self.backval(b, key) for b in backs]
            ok = all(v is not None and shape(v) == shape(self.proto[key]) for v in vals)
            for i, l in enumerate(ls):
                if l.form is None and ok: ures.append((key, i, l, [leaves(v)[i] for v in vals]))

        def get(lv, key, i):
            v = self.backval(lv.st, key) if key[0] != 'phi' else lv.phis[key[1]]
            return leaves(v)[i]
        for key, i, l, vs in ures:
            if l.sym.sort == 'I' or l.sym.sort == 'R':
                z = I(0) if l.sym.sort == 'I' else R(0)
                addc('>= initial', lambda lv, key=key, i=i, l=l: le(l.init, get(lv, key, i)))
                addc('<= initial', lambda lv, key=key, i=i, l=l: le(get(lv, key, i), l.init))
                addc('>= 0', lambda lv, key=key, i=i, z=z: le(z, get(lv, key, i)))
                if l.sym.sort == 'I':
                    ds = [sub(v, l.sym) for v in vs]
                    his = [d.hi for d in ds]; los = [d.lo for d in ds]
                    if all(h is not None for h in his):
                        h = max(his)
                        if h >= 0: addc('<= initial + k*step', lambda lv, key=key, i=i, l=l, h=h: le(get(lv, key, i), add(l.init, scale(lv.k, h))))
                    if all(h is not None for h in los):
                        h = min(los)
                        if h <= 0: addc('>= initial + k*step', lambda lv, key=key, i=i, l=l, h=h: le(add(l.init, scale(lv.k, h)), get(lv, key, i)))
                # extremum tracking
                fs = []
                for v in vs:
                    if v is l.sym: continue
                    for t in ([v] if self.closed(v) else ite_leaves(v)):
                        if self.closed(t) and t not in fs: fs.append(t)
                for f in fs[:4]:
                    if self.has_q(f): continue
                    at = lambda j, f=f: subst(f, {k: j})
                    addc('<= all past', lambda lv, key=key, i=i, at=at: forall(0, lv.k, lambda j: le(get(lv, key, i), at(j))))
                    addc('>= all past', lambda lv, key=key, i=i, at=at: forall(0, lv.k, lambda j: le(at(j), get(lv, key, i))))
                    if l.sym.sort == 'I':
                        addc('<= latest', lambda lv, key=key, i=i, at=at: le(get(lv, key, i), at(sub(lv.k, I(1)))))
                        addc('>= latest', lambda lv, key=key, i=i, at=at: le(at(sub(lv.k, I(1))), get(lv, key, i)))
                if fs and len(fs) <= 3:
                    addc('one of the past', lambda lv, key=key, i=i, l=l, fs=fs: or_(eq(get(lv, key, i), l.init), *[
                        exists(0, lv.k, lambda j, f=f: eq(get(lv, key, i), subst(f, {k: j}))) for f in fs]))
        # relations between unresolved integers
        ints = [u for u in ures if u[2].sym.sort == 'I'][:5]
        for x in ints:
            for y in ints:
                if x is y: continue
                addc('order', lambda lv, x=x, y=y: le(get(lv, x[0], x[1]), get(lv, y[0], y[1])))
        tmpl = self.ex.inv_templates(self) if self.ex.inv_templates is not None else []
        # unresolved arrays
        for (o, key), a in self.arrs.items():
            if a.form is not None or tmpl and self.ex.o.get('lean'): continue
            nk = len(abase_keys(a))
            if nk: continue
            rd = lambda lv, i, o=o, key=key: lv.arr(o, key, (i,))
            wr = []
            okc = True
            for b in backs:
                ch = self.chain(b.mem[o].arrs[key], a.base)
                if ch is None: okc = False; break
                for w in ch:
                    if isinstance(w, AStore): wr.append((b, w.idx[-1], w.val))
                    else: okc = False
            cur_ptr = isinstance(aread(a.init, (I(0),)), Ptr)
            if cur_ptr: continue
            # writes with closed index and value
            n = 0
            for b, ix, val in wr:
                if not self.closed(ix) or not isinstance(val, E): continue
                cnd = self.conds(b)
                pc_ok = self.closed(cnd)
                if len(backs) > 1 and not pc_ok: continue
                v0 = self.unread(val, a)
                if v0 is not None and self.closed(v0) and not self.has_q(v0):
                    n += 1
                    addc('written value', lambda lv, ix=ix, v0=v0, cnd=cnd, rd=rd: forall(0, lv.k, lambda j: implies(
                        subst(cnd, {k: j}), eq(rd(lv, subst(ix, {k: j})), subst(v0, {k: j})))))
            # frame candidates
            if okc:
                addc('untouched positions', lambda lv, wr=wr, a=a, rd=rd: self.untouched(lv, wr, a, rd))
                los = []
                for b, ix, val in wr:
                    if ix.lo is not None: los.append(ix.lo)
                    else: los = None; break
            for nm, e in self.index_bounds(a, wr, backs):
                if nm == 'lo': addc('below %s unchanged' % show_(e), lambda lv, e=e, a=a, rd=rd: forall_u(lambda i: implies(lt(i, e), eq(rd(lv, i), aread(a.init, (i,))))))
                else: addc('from %s unchanged' % show_(e), lambda lv, e=e, a=a, rd=rd: forall_u(lambda i: implies(le(e, i), eq(rd(lv, i), aread(a.init, (i,))))))
                # moving frontier
            for (key2, i2, l2, vs2) in ints:
                pass
            for e in self.frontiers(a, wr):
                addc('beyond frontier unchanged', lambda lv, e=e, a=a, rd=rd: forall_u(lambda i: implies(le(subst(e, {k: lv.k}), i), eq(rd(lv, i), aread(a.init, (i,))))))
                addc('before frontier unchanged', lambda lv, e=e, a=a, rd=rd: forall_u(lambda i: implies(le(i, subst(e, {k: lv.k})), eq(rd(lv, i), aread(a.init, (i,))))))
        for nm, f in tmpl: addc(nm, f)
        return cands

    # access for contract-provided invariant templates: getters fn(LV) -> E over the unresolved state
    def unresolved(self, sort):
        out = []
        for key, ls in self.scal.items():
            for i, l in enumerate(ls):
                if l.form is None and l.sym.sort == sort:
                    out.append(lambda lv, key=key, i=i: leaves(self.backval(lv.st, key) if key[0] != 'phi' else lv.phis[key[1]])[i])
        return out

    def all_scalars(self, sort):
        out = []
        for key, ls in self.scal.items():
            for i, l in enumerate(ls):
                if l.sym.sort == sort:
                    out.append(lambda lv, key=key, i=i: leaves(self.backval(lv.st, key) if key[0] != 'phi' else lv.phis[key[1]])[i])
        return out

    def reals(self): return self.unresolved('R')

    def ints(self): return self.unresolved('I')

    def arrays(self, name=None, field=None, every=False):
        """readers fn(LV, i) -> E of modified arrays (of the named object)"""
        out = []
        for (o, key), a in self.arrs.items():
            if a.form is not None and not every: continue
            if name is not None and o.name != name: continue
            if field is not None and key[0] != field: continue
            out.append(lambda lv, i, o=o, key=key: lv.arr(o, key, (i,)))
        return out

    def untouched(self, lv, wr, a, rd):
        k = self.k
        cs = []
        for b, ix, val in wr:
            if not self.closed(ix): return FALSE
            cs.append(ix)
        return forall_u(lambda i: implies(and_(*[forall(0, lv.k, lambda j, ix=ix: ne(subst(ix, {k: j}), i)) for ix in cs]),
                                          eq(rd(lv, i), aread(a.init, (i,)))))

    def index_bounds(self, a, wr, backs):
        out = []
        out.append(('lo', I(0)))
        sz = self.s0.mem[a.obj].size
        if not callable(sz):
            S = self.s0.mem[a.obj].stride
            c, it = ldview(sz)
            if c % S == 0 and all(x % S == 0 for _, x in it): out.append(('hi', idiv(sz, I(S))))
        return out

    def frontiers(self, a, wr):
        k = self.k
        out = []
        for b, ix, val in wr:
            if self.closed(ix):
                for z in (0, 1, -1):
                    e = add(ix, I(z))
                    if e not in out: out.append(e)
        for e in (self.k, add(self.k, I(1))):
            if e not in out: out.append(e)
        return out[:8]

    def lv_back(self, b):
        return LV(self, add(self.k, I(1)), b, {d: b.env[d] for d in self.phis})

    def past_facts(self, backs):
        """what every completed iteration satisfied (closed part of the path conditions)"""
        k = self.k
        alts = []
        for b in backs:
            lits = []
            for c in b.trace:
                cs = c.args if c.op == 'and' else (c,)
                for x in cs:
                    if self.closed(x) and not self.has_q(x): lits.append(x)
            alts.append(and_(*lits))
        f = or_(*alts) if alts else FALSE
        if f is TRUE: return []
        if not alts: return []
        if k not in freevars(f): 
            # loop-invariant condition: holds whenever an iteration completed
            return [lambda K, f=f: implies(le(I(1), K), f)]
        apps = any(t.op == 'app' for t in subterms(f))
        out = []
        if apps: out.append(lambda K, f=f: forall(0, K, lambda j: subst(f, {k: j})))
        out.append(lambda K, f=f: implies(le(I(1), K), subst(f, {k: sub(K, I(1))})))
        return out

    # ---------------------------------------------------------------- driver
    def undiscovered(self, backs):
        """state changed by the body that the summary does not cover"""
        base = self.base_state
        for b in backs:
            for o, bos in base.mem.items():
                os_ = b.mem.get(o)
                if os_ is bos or os_ is None or not (os_.alive or bos.alive): continue
                if os_.alive != bos.alive and o.kind != 'stack': return o
                if os_.stride != bos.stride: return o
                if os_.size is not bos.size and ('size', o) not in self.scal: return o
                for off in set(os_.cells) | set(bos.cells):
                    c1, c0 = os_.cells.get(off), bos.cells.get(off)
                    if c1 == c0: continue
                    nb = (c1 or c0)[0]
                    if (o, off, nb) in self.dead: continue
                    if ('cell', o, off, nb) in self.scal:
                        if c1 is None or c1[0] != nb or shape(c1[1]) != shape(self.proto[('cell', o, off, nb)]): return o
                        continue
                    if c0 is not None and c1 is not None and c1[0] == c0[0] and same(c0[1], c1[1]): continue
                    return o
                for key in set(os_.arrs) | set(bos.arrs):
                    if os_.arrs.get(key) is not bos.arrs.get(key) and (o, key) not in self.arrs: return o
            for d in self.phis:
                key = ('phi', d)
                if key in self.scal and shape(b.env[d]) != shape(self.proto[key]) and not isinstance(self.proto[key], Undef) and self.proto[key] is not None: return d
        return None

    def solve_cheap(self):
        """summary for an enclosing loop that only wants to know what changes: closed forms are guesses, nothing is proved"""
        ex = self.ex
        backs, exits = self.discover()
        for rnd in range(8):
            if not self.infer(backs): break
            backs, exits = self.execute(True, False)
        self.bnames = []
        res = []
        for o in exits:
            s = o[1]
            if s.dead(): continue
            s.trace = self.s0.trace + s.trace
            s.flags = dict(s.flags)
            res.append(('ret', s, o[2]) if o[0] == 'ret' else o)
        return res

    def solve(self):
        ex = self.ex
        if ex.cheap: return self.solve_cheap()
        STATS['loops'] += 1
        backs, exits = self.discover()
        if not backs:
            # never iterates: the discovery run over-approximates; treat as straight code
            pass
        for rnd in range(8):
            if not self.infer(backs): break
            backs, exits = self.execute(True, False)
        # forms are mutually inductive?  bounds are needed for ranges, so candidates go first
        for rnd in range(8):
            self.inv = []; self.bounds = []; self.facts = []
            if not self.init_forms():
                backs, exits = self.execute(True, False); continue
            cands = self.candidates(backs, exits)
            self.facts = self.past_facts(backs)
            lv0 = LV(self, I(0), self.s0, {d: self.s0.env[d] for d in self.phis})
            keep = []
            mk_ = (self.fr.f.name, self.hdr, len(ex.callstack))
            if ex.loopstack:
                # inside an enclosing loop whose invariants only get weaker: what failed before is not tried again
                cnt = {}
                tag = []
                for nm, f in cands:
                    t = str(nm) if isinstance(nm, str) else 'bound'
                    cnt[t] = cnt.get(t, 0) + 1
                    tag.append((t, cnt[t]))
                failed = ex.loopfail.setdefault(mk_, set())
                cands = [c for c, t in zip(cands, tag) if t not in failed]
                tags = {id(c[1]): t for c, t in zip(cands, [t for t in tag if t not in failed])}
            else: failed = None
            for nm, f in cands:
                try: g = f(lv0)
                except (Unsupported, KeyError): continue
                if self.prove(self.s0, g): keep.append((nm, f))
                elif failed is not None: failed.add(tags[id(f)])
            # Houdini
            for it in range(30):
                self.inv = keep
                backs, exits = self.execute(True, True)
                nxt = []
                memo = {}
                for nm, f in keep:
                    ok = True
                    for b in backs:
                        try: g = f(self.lv_back(b))
                        except (Unsupported, KeyError): ok = False; break
                        if not self.prove(b, g): ok = False; break
                    if ok: nxt.append((nm, f))
                    elif failed is not None: failed.add(tags[id(f)])
                if len(nxt) == len(keep): break
                keep = nxt
            if self.check_forms(backs): break
            # a closed form failed: fall back to a symbol and repeat
            backs, exits = self.execute(True, False)
        else:
            raise Unsupported('closed forms do not converge')
        self.bnames = [nm[1] for nm, f in self.inv if isinstance(nm, tuple) and nm[0] == 'bound']
        # final run: obligations are recorded here
        backs, exits = self.execute(False, True)
        self.check_strides(backs)
        u = self.undiscovered(backs)
        if u is not None: raise Unsupported('loop changes %s in a way not foreseen' % u)
        res = []
        for o in exits:
            s = o[1]
            if s.dead(): continue
            s.trace = self.s0.trace + s.trace
            s.flags = dict(s.flags)
            self.eliminate(s)
            if o[0] == 'ret':
                v = o[2]
                m = s.extra.pop('_sub', None)
                if m: v = substv(v, m)
                res.append(('ret', s, v))
            else:
                s.extra.pop('_sub', None)
                res.append(o)
        if not ex.quiet:
            term = bool(self.bnames) or any(nm == 'counter bound' for nm, f in self.inv)
            ex.loopinfo.append(dict(function=self.fr.f.name, header=self.hdr, closed=sum(1 for ls in self.scal.values() for l in ls if l.form is not None)
                                    + sum(1 for a in self.arrs.values() if a.form is not None),
                                    havoc=sum(1 for ls in self.scal.values() for l in ls if l.form is None) + sum(1 for a in self.arrs.values() if a.form is None),
                                    invariants=[nm if isinstance(nm, str) else '%s %s' % (nm[0], show_(nm[1])) for nm, f in self.inv],
                                    proved=self.nproved, terminates=term))
            if not term: ex.note('termination of the loop at %s in %s is not proved (partial correctness)' % (self.hdr, self.fr.f.name))
        STATS['inductive'] += self.nproved
        return res

    def eliminate(self, s):
        """if the exit path fixes the counter (k == n) replace it"""
        k = self.k
        for n in self.bnames:
            ge = le(n, k)
            if ge in s.pcset or eq(k, n) in s.pcset or ge is TRUE:
                if k in freevars(n): continue
                m = {k: n}
                subst_state(s, m)
                s.assume(le(I(0), n))
                s.extra['_sub'] = m
                return
        for n in self.bnames:
            if k in freevars(n): continue
            fs = [p for p in s.pc if p.op != 'forall' and not any(t.sort == 'R' for t in subterms(p))]
            if not solve.feasible(fs + [lt(k, n)], 100):
                m = {k: n}
                subst_state(s, m)
                s.assume(le(I(0), n))
                s.extra['_sub'] = m
                return


def abase_keys(a):
    x = a.init
    n = 0
    while not isinstance(x, ABase):
        n = max(n, len(x.idx) - 1 if isinstance(x, AStore) else len(x.keys))
        x = x.prev
    return [0] * n


def ite_leaves(e):
    out = []
    st = [e]
    while st:
        x = st.pop()
        if x.op == 'ite': st.extend(x.args[1:])
        else: out.append(x)
    return out


def forall_u(f):
    X._bv[0] += 1
    q = var('u?%d' % X._bv[0], 'I')
    return mkforall((q,), f(q))


def show_(e):
    try: return show(e)
    except Exception: return '?'


def cut_loop(ex, st, fr, hdr, body, prev):
    L = Loop(ex, st, fr, hdr, body, prev)
    r = L.solve()
    if not ex.loopstack: ex.loopfail.clear()
    return r
