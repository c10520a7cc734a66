"""Running the real (g++-compiled) code on concrete inputs in forked children."""
import os, sys, ctypes, pickle, struct, signal, select, time, math, resource
from fractions import Fraction
from .expr import *
from . import expr as X
from .contract import *


class Native:
    def __init__(s, so):
        s.so = so
        s.lib = None

    def open(s):
        if s.lib is None:
            s.lib = ctypes.CDLL(s.so)
            s.lib.irv_alloc.restype = ctypes.c_void_p
            s.lib.irv_alloc.argtypes = [ctypes.c_size_t]
            s.lib.irv_blocksize.restype = ctypes.c_long
            s.lib.irv_blocksize.argtypes = [ctypes.c_void_p]
            s.lib.irv_live.restype = ctypes.c_long
        return s.lib

    def alloc(s, n): return s.lib.irv_alloc(n)
    def poke(s, p, b): ctypes.memmove(p, b, len(b))
    def peek(s, p, n): return ctypes.string_at(p, n)
    def blocksize(s, p): return s.lib.irv_blocksize(p)

    def call(s, t, vals):
        """one call in this process; returns dict of new.* values"""
        lib = s.lib
        lib.irv_reset()
        f = getattr(lib, t.fn)
        args = []; ats = []; held = []
        scal = t.sym_scal()
        for p in t.params:
            if isinstance(p, Scalar):
                args.append(p.ctype()(vals[p.name] if p.k[0] == 'f' else int(vals[p.name]))); ats.append(p.ctype())
            elif isinstance(p, Arr):
                n = t.arr_len(p, vals)
                a = s.alloc(max(1, n * p.el.size)) if n else s.alloc(0)
                if p.mode != 'out' and n: s.poke(a, p.packels(vals, n))
                held.append((p, a, n)); args.append(ctypes.c_void_p(a)); ats.append(ctypes.c_void_p)
            else:
                a = s.alloc(p.size)
                s.poke(a, p.packb(vals, s))
                held.append((p, a, p.size)); args.append(ctypes.c_void_p(a)); ats.append(ctypes.c_void_p)
        f.argtypes = ats
        f.restype = {None: None, 'f8': ctypes.c_double, 'f4': ctypes.c_float, 'i4': ctypes.c_int32, 'i8': ctypes.c_int64, 'b': ctypes.c_bool,
                     'i1': ctypes.c_int8, 'u4': ctypes.c_uint32, 'u8': ctypes.c_uint64, 'i2': ctypes.c_int16, 'w4': ctypes.c_uint32, 'w8': ctypes.c_uint64}[t.ret]
        live0 = lib.irv_live()
        r = f(*args)
        out = {}
        if t.ret is not None: out['ret'] = int(r) if t.ret[0] != 'f' else r
        if not lib.irv_intact(): raise BadState('write before the start of a block')
        for p, a, n in held:
            if isinstance(p, Arr): p.unpackels(s.peek(a, n * p.el.size), n, out, 'new.')
            else: p.unpackb(s.peek(a, n), out, s)
        out['live'] = lib.irv_live() - live0
        return out

    def batch(s, t, inputs, per=2.0, mem=2 << 30):
        """run inputs in forked children; yields ('ok', out) | ('assert',..) | ('crash',..) | ('hang',..) | ('bad', msg)"""
        res = [None] * len(inputs)
        i = 0
        while i < len(inputs):
            r, w = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    dn = os.open('/dev/null', os.O_WRONLY)
                    os.environ.get('IRV_ERR') or (os.dup2(dn, 1), os.dup2(dn, 2))
                    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    resource.setrlimit(resource.RLIMIT_CPU, (120, 120))
                    s.lib = None
                    s.open()
                    f = os.fdopen(w, 'wb', 0)
                    for k in range(i, len(inputs)):
                        try: o = ('ok', s.call(t, inputs[k]))
                        except BadState as e: o = ('bad', str(e))
                        b = pickle.dumps((k, o))
                        f.write(struct.pack('<I', len(b)) + b)
                    os._exit(0)
                except BaseException as e:
                    try: os.write(2, repr(e).encode())
                    except Exception: pass
                    os._exit(99)
            os.close(w)
            buf = b''
            last = time.time()
            status = None
            nexti = i
            while True:
                rd, _, _ = select.select([r], [], [], 0.5)
                if rd:
                    ch = os.read(r, 1 << 16)
                    if not ch: break
                    buf += ch
                    while len(buf) >= 4:
                        n = struct.unpack('<I', buf[:4])[0]
                        if len(buf) < 4 + n: break
                        k, o = pickle.loads(buf[4:4 + n]); buf = buf[4 + n:]
                        res[k] = o; nexti = k + 1; last = time.time()
                elif time.time() - last > per:
                    os.kill(pid, signal.SIGKILL); status = 'hang'; break
            os.close(r)
            _, st = os.waitpid(pid, 0)
            if nexti < len(inputs):
                if status == 'hang':
                    # a run that is merely long is not a failure: only small inputs are judged, and only after a second, longer wait
                    if large(inputs[nexti]): res[nexti] = ('error', 'input too large to run')
                    elif per < 20: res[nexti] = s.batch(t, [inputs[nexti]], 20.0, mem)[0]
                    else: res[nexti] = ('hang', 'no result within %.1fs' % per)
                elif os.WIFSIGNALED(st) and os.WTERMSIG(st) in (6, 9, 24) and large(inputs[nexti]): res[nexti] = ('error', 'input too large to run')
                elif os.WIFSIGNALED(st): res[nexti] = ('crash', 'signal %d' % os.WTERMSIG(st))
                else:
                    c = os.WEXITSTATUS(st)
                    res[nexti] = ('assert', 'exit %d' % c) if c in (1, 77) else ('crash', 'invalid free') if c == 78 else ('error', 'exit %d' % c)
                nexti += 1
            i = nexti
        return res


def large(d):
    return any(isinstance(v, list) and len(v) > 100000 or isinstance(v, int) and abs(v) > 4096 for v in d.values())


def fr(v):
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')): return v
        return Fraction(v)
    if isinstance(v, list): return [fr(x) for x in v]
    return v


class Judge:
    """evaluates the contract on concrete values"""

    def __init__(s, t):
        s.t = t
        old = t.sym_view('')
        new = t.sym_view('new.')
        retv = None
        if t.ret is not None: retv = kvar('ret', t.ret) if t.ret != 'b' else eq(kvar('ret', 'b'), I(1))
        s.pre = list(t.pre(Ctx(old, None, None))) + list(t.npre(Ctx(old, None, None)) if t.npre else [])
        s.post = list((t.npost or t.post)(Ctx(old, new, retv)))
        # automatic frame for in-mode parameters
        s.framep = [p for p in t.params if not isinstance(p, Scalar) and p.mode == 'in'] if t.frame else []

    def pre_ok(s, vals):
        single(s.t, vals)
        ev = Ev({k: fr(v) for k, v in vals.items() if not isinstance(v, list)}, conc_fn({k: fr(v) for k, v in vals.items() if isinstance(v, list)}), 0)
        try:
            for e in s.pre:
                if isinstance(e, tuple): e = e[1]
                if ev.ev(e) is not True: return False
        except X.Unknown: return False
        return True

    def check(s, vals, out):
        """returns (False, clause) when a postcondition is definitely violated, else (True/None, '')"""
        allv = {k: fr(v) for k, v in {**vals, **out}.items()}
        bad = [k for k, v in allv.items() if isinstance(v, float) or (isinstance(v, list) and any(isinstance(x, float) for x in v))]
        env = {k: v for k, v in allv.items() if not isinstance(v, list) and not isinstance(v, float)}
        arrs = {k: v for k, v in allv.items() if isinstance(v, list) and k not in bad}
        ev = Ev(env, conc_fn(arrs), s.t.tol, s.t.floor)
        verdict = True
        for name, e in s.post:
            try: r = ev.ev(e)
            except X.Unknown: r = None
            except (OverflowError, ZeroDivisionError): r = None
            if r is False: return False, name
            if r is None: verdict = None
        if s.t.check:
            r = s.t.check(vals, out)          # a clause stated as a program, for bounded targets only
            if r: return False, r
        if s.t.opts.get('heap', True) and s.t.params:
            caps = [k for k in vals if k.endswith('.cap')]
            if caps and all('new.' + k in out for k in caps):
                if out['live'] != sum((out['new.' + k] > 0) - (vals[k] > 0) for k in caps): return False, 'storage: nothing is leaked'
        for p in s.framep:
            for k in vals:
                if (k == p.name or k.startswith(p.name + '.') or k.startswith(p.name + '[')) and ('new.' + k) in out:
                    if k.endswith('.cap'): continue
                    a, b = vals[k], out['new.' + k]
                    if isinstance(a, list): ok = len(a) == len(b) and all(eqv(x, y) for x, y in zip(a, b))
                    else: ok = eqv(a, b)
                    if not ok: return False, 'frame: %s is not modified' % p.name
        return verdict, ''


def f32(v): return ctypes.c_float(float(v)).value


def single(t, vals):
    """inputs passed in single precision are rounded before anything else looks at them"""
    for p in t.params:
        if isinstance(p, Scalar):
            if p.k == 'f4' and p.name in vals: vals[p.name] = f32(vals[p.name])
        elif isinstance(p, Buf):
            for i, q in enumerate(p.ks):
                k = '%s[%d]' % (p.name, i)
                if q == 'f4' and k in vals: vals[k] = f32(vals[k])
        elif isinstance(p, Seq):
            for f, _, q in p.el.fields:
                k = p.fname(f)
                if q == 'f4' and isinstance(vals.get(k), list): vals[k] = [f32(x) for x in vals[k]]


def eqv(x, y):
    if isinstance(x, float) and x != x: return isinstance(y, float) and y != y
    return x == y
