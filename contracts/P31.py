"""P31: log messages."""
from .lib import *
from .P03 import zpre
from irv.exec import Ptr
HARNESS = 'P31.cpp'
NATIVE_EXTRA = []
TARGETS = []
OPT = ['-phi-node-folding-threshold=0', '-two-entry-phi-node-folding-threshold=0', '-speculate-one-expensive-inst=false', '-bonus-inst-threshold=0']
SIZE = 256
Z = I(0)
NOW = (r'system_clock3nowEv$', lambda ex, st, a, x, name: (ex.note('the clock does not advance between two readings; the elapsed time is an input'), [(st, I(10 ** 18))])[1])


def chars(ex, st, o, os_): os_.stride = 1


STATE = {'_ZN3um26logger6bufferE': chars}
B0 = Arr('b', 'i1', lambda v: I(SIZE))
OUT = Arr('o', 'i1', lambda v: I(SIZE), mode='out')
AT = Int('at', 0, SIZE - 1)
TEXT = lambda t, n: [Arr(t, 'i1', n), Int(n, 1, SIZE, ghi=SIZE - 1)]


def T(nm, ps, ret, post, fix=None, pre=None, hooks=(), **k):
    TARGETS.append(Target(nm, ps, ret, post=post, fix=fix, pre=pre, hooks=[NOW, *hooks], opts=dict(global_vals=STATE, **k.pop('opts', {})), **k))


def placed(c, parts, end=None):
    """from the position at, the parts stand one after the other; everything before and everything beyond one closing zero is as it was"""
    o, pos, out = c.new.o, parts[0], []
    for p in parts[1:]:
        if isinstance(p, bytes):
            out.append(and_(*[eq(o.at(pos + i), I(ch)) for i, ch in enumerate(p)])); pos = pos + len(p)
        else:
            arr, n = p
            out.append(forall(0, n, lambda q, pos=pos, arr=arr: eq(o.at(pos + q), arr.at(q)))); pos = pos + n
    return [('the text stands at the position', and_(*out)), ('position after the text', eq(c.ret, pos)),
            ('nothing before it changes', forall(0, parts[0], lambda q: eq(o.at(q), c.b.at(q)))),
            ('nothing beyond it changes', forall(pos + 1, SIZE, lambda q: eq(o.at(q), c.b.at(q))))]


def room(n): return lambda c: [('fits', lt(c.at + n(c), I(SIZE)))]


def gen(d, rng):
    d['b'] = [rng.randint(-128, 127) for _ in range(SIZE)]
    if 't' in d:
        n = rng.choice([1, 2, 5, rng.randint(1, 200)])
        at = rng.choice([0, 1, SIZE - 1 - n, rng.randint(0, SIZE - 1 - n)]) if 'at' in d else 0
        if 'at' in d: d['at'] = at
        z = len(d['t']) == d['n'] + 1
        d['n'] = n
        d['t'] = [rng.randint(1, 127) for _ in range(n)] + ([0] if z else [])
    elif 'at' in d: d['at'] = rng.choice([0, 1, 200, rng.randint(0, SIZE - 6)])


T('l_sv', [B0, AT, *TEXT('t', 'n'), OUT], 'i4', lambda c: placed(c, [c.at, (c.t, c.n)]), gen, room(lambda c: c.n))
T('l_str', [B0, AT, *TEXT('t', 'n'), OUT], 'i4', lambda c: placed(c, [c.at, (c.t, c.n)]), gen, room(lambda c: c.n))
T('l_cstr', [B0, AT, Arr('t', 'i1', lambda v: v.n + 1), Int('n', 1, SIZE, ghi=SIZE - 1), OUT], 'i4', lambda c: placed(c, [c.at, (c.t, c.n)]), gen,
  lambda c: room(lambda c: c.n)(c) + zpre('t', 'n')(c))
T('l_chr', [B0, AT, Scalar('x', 'i1'), OUT], 'i4', lambda c: [('the text stands at the position', eq(c.new.o.at(c.at), c.x)), ('position after the text', eq(c.ret, c.at + 1)),
  ('nothing else changes', forall(0, SIZE, lambda q: or_(eq(q, c.at), eq(q, c.at + 1), eq(c.new.o.at(q), c.b.at(q)))))], gen, room(lambda c: I(1)))


def truth(c):
    t, f = placed(c, [c.at, b'true']), placed(c, [c.at, b'false'])
    return [(a[0], and_(implies(ne(c.x, Z), a[1]), or_(ne(c.x, Z), b[1]))) for a, b in zip(t, f)]


T('l_bool', [B0, AT, Scalar('x', 'b'), OUT], 'i4', truth, gen, room(lambda c: I(5)))
T('l_lit', [B0, AT, OUT], 'i4', lambda c: placed(c, [c.at, b'Mesh ']), gen, room(lambda c: I(5)))


# the C library prints n characters (ghost text)
def printed(ex, st, a, x, name):
    if not isinstance(a[0], Ptr) or not isinstance(a[1], E): return NotImplemented
    t = ex.old
    if a[0].obj is not None:
        o = a[0].obj
        ex.size_check(st, a[0], a[1], 'write', 'snprintf')
        w = st.w(o)
        if w.stride is None and not w.cells: w.stride = 1
        if w.stride != 1: return NotImplemented
        key = (0, 1, 'i')
        prev = w.arrs.get(key) or ex.fresh_arr(o, key, None)
        lo, n = a[0].off, min_(t.n, a[1] - 1)
        w.arrs[key] = AStore(ARange(prev, (), lo, lo + n, lambda i: t.txt.at(i - lo)), (lo + n,), I(0))
    ex.note('snprintf prints the characters of the decimal representation and returns their number')
    return [(st, t.n)]


import ctypes as _ct
for nm, k, most, fmt, g in (('l_i1', 'i1', 4, '%d', lambda r: r.randint(-128, 127)),
                            ('l_i4', 'i4', 11, '%d', lambda r: r.choice([0, -1, 2 ** 31 - 1, -2 ** 31, r.randint(-2 ** 31, 2 ** 31 - 1)])),
                            ('l_u4', 'u4', 10, '%d', lambda r: r.choice([0, 2 ** 32 - 1, r.randint(0, 2 ** 32 - 1)])),
                            ('l_i8', 'i8', 20, '%d', lambda r: r.choice([0, -1, 2 ** 63 - 1, -2 ** 63, r.randint(-2 ** 63, 2 ** 63 - 1)])),
                            ('l_u8', 'u8', 20, '%d', lambda r: r.choice([0, 2 ** 64 - 1, r.randint(0, 2 ** 64 - 1)])),
                            ('l_f4', 'f4', 47, '%f', lambda r: _ct.c_float(r.choice([0.0, 3.4e38, r.uniform(-9, 9)])).value),
                            ('l_f8', 'f8', 317, '%f', lambda r: r.choice([0.0, 1e200, -1e100, r.uniform(-9, 9), 10.0 ** r.randint(-3, 200)]))):
    def fx(d, rng, g=g, fmt=fmt):
        gen(d, rng)
        s = fmt % g(rng)
        d['x'] = float(s) if fmt == '%f' else int(s)
        s = fmt % d['x']
        d['n'] = len(s); d['txt'] = [ord(ch) for ch in s]
        d['at'] = rng.choice([0, SIZE - 1 - len(s), rng.randint(0, SIZE - 1 - len(s))])
    T(nm, [B0, AT, Scalar('x', k), Arr('txt', 'i1', 'n'), Int('n', 1, most, ghi=most), OUT], 'i4', lambda c: placed(c, [c.at, (c.txt, c.n)]), fx, room(lambda c: c.n), hooks=[(r'^snprintf$', printed)])

# preamble and postamble
COL, TS, NS, LEV = Scalar('col', 'b'), Scalar('ts', 'b'), Int('ns', 0, 100 * 3600 * 10 ** 9 - 1, k='i8'), Int('lev', 0, 6)
NAMES = {1: b'ERROR', 2: b'WARN', 3: b'INFO', 4: b'DEBUG'}
HUE = {1: b'1', 2: b'3', 4: b'5'}


def preamble(c, lev):
    """cases (condition, text before the time stamp, has time stamp, text after it) of the preamble"""
    out = []
    for l in (1, 2, 3, 4, 0):
        isl = eq(lev, I(l)) if l else and_(*[ne(lev, I(q)) for q in NAMES])
        name = NAMES.get(l, b'UNKNOWN') + b' - '
        for col in (True, False):
            hue = b'\x1b[1;3' + HUE[l] + b'm' if col and l in HUE else b''
            for ts in (True, False):
                out.append((and_(isl, ne(c.col, Z) if col else eq(c.col, Z), ne(c.ts, Z) if ts else eq(c.ts, Z)), hue, ts, name))
    return out


def stamp(o, p, c):
    dig = lambda q: and_(le(I(48), o.at(p + q)), le(o.at(p + q), I(57)))
    return and_(*[eq(o.at(p + q), I(ord(ch))) for q, ch in ((0, '['), (3, ':'), (6, ':'), (9, '.'), (13, ']'), (14, ' '))], *[dig(q) for q in (1, 2, 4, 5, 7, 8, 10, 11, 12)])


def head(c, lev):
    """(condition, clause, length) of the preamble"""
    o = c.new.o
    for cond, hue, ts, name in preamble(c, lev):
        parts, p = [], 0
        lit = lambda s, p: [eq(o.at(p + i), I(ch)) for i, ch in enumerate(s)]
        parts += lit(hue, p); p += len(hue)
        if ts: parts.append(stamp(o, p, c)); p += 15
        parts += lit(name, p); p += len(name)
        yield cond, and_(*parts), p


def pre_post(c):
    hs = list(head(c, c.lev))
    return [('colour, time and level stand in order', and_(*[implies(q, t) for q, t, n in hs])), ('position after the preamble', and_(*[implies(q, eq(c.ret, I(n))) for q, t, n in hs])),
            ('nothing beyond it changes', forall(33, SIZE, lambda i: eq(c.new.o.at(i), c.b.at(i))))]


def gpre(d, rng):
    gen(d, rng)
    d['ns'] = rng.choice([0, rng.randint(0, 10 ** 10), rng.randint(0, 99 * 3600) * 10 ** 9 + 5 * 10 ** 8])
    if 'most' in d: d['most'] = rng.randint(0, 4)
    if 'k' in d:
        d['k'] = rng.choice([1, 3, rng.randint(1, SIZE - 38 - d['n'])]) if d['n'] < SIZE - 42 else 1
        d['u'] = [rng.randint(1, 127) for _ in range(d['k'])]


T('l_pre', [B0, LEV, COL, TS, NS, OUT], 'i4', pre_post, gpre)


def tail(c, at):
    o = c.new.o
    return and_(implies(ne(c.col, Z), and_(*[eq(o.at(at + i), I(ch)) for i, ch in enumerate(b'\x1b[0m\0')])), or_(ne(c.col, Z), eq(o.at(at), I(0))))


T('l_post', [B0, COL, AT, OUT], None, lambda c: [('colour reset and closing zero', tail(c, c.at)),
  ('nothing else changes', forall(0, SIZE, lambda q: or_(and_(le(c.at, q), le(q, c.at + ite(ne(c.col, Z), I(4), I(0)))), eq(c.new.o.at(q), c.b.at(q)))))], gen, room(lambda c: I(4)))


# whole messages
def whole(c, lev, texts):
    o, out = c.new.o, []
    for cond, t, n in head(c, lev):
        pos, ps = I(n), [t]
        for arr, k in texts:
            ps.append(forall(0, k, lambda q, pos=pos, arr=arr: eq(o.at(pos + q), arr.at(q)))); pos = pos + k
        ps.append(tail(c, pos))
        out.append(implies(cond, and_(*ps)))
    return and_(*out)


def message(lev, texts):
    def f(c):
        l = lev(c)
        on = le(l, c.most)
        return [('preamble, arguments and postamble stand in order', implies(on, whole(c, l, texts(c)))),
                ('sent to the stream of the level', eq(c.ret, ite(on, ite(eq(l, I(1)), I(1), I(2)), I(0)))),
                ('a message above the level leaves the buffer alone', or_(on, forall(0, SIZE, lambda q: eq(c.new.o.at(q), c.b.at(q)))))]
    return f


MSG = lambda ts: [B0, LEV, Int('most', 0, 6), COL, ts, NS, *TEXT('t', 'n'), *TEXT('u', 'k'), OUT]
fits = lambda c: [('fits', lt(c.n + c.k + 36, I(SIZE)))]


def nots(d, rng):
    gpre(d, rng)
    d['ts'] = 0


T('l_msg', MSG(Int('ts', 0, 0, k='b')), 'i4', message(lambda c: c.lev, lambda c: [(c.t, c.n), (c.u, c.k)]), nots, fits, budget=120)
T('l_msgt', MSG(TS), 'i4', message(lambda c: c.lev, lambda c: [(c.t, c.n), (c.u, c.k)]), gpre, fits, bounded='two texts, any elapsed time below 100 hours (the time stamp itself is proved in l_pre)')


class _Off:
    def __init__(s, c): s._c = c
    def __getattr__(s, n): return Z if n == 'ts' else getattr(s._c, n)


for nm, l in (('error', 1), ('warn', 2), ('info', 3), ('debug', 4)):
    T('l_' + nm, [B0, Int('most', 0, 6), COL, *TEXT('t', 'n'), OUT], 'i4', lambda c, l=l: message(lambda c: I(l), lambda c: [(c.t, c.n)])(_Off(c)), gen, lambda c: [('fits', lt(c.n + 24, I(SIZE)))])
T('l_reset', [Int('lev', 0, 6), COL, TS, Scalar('ex', 'b')], 'i4', lambda c: [('the defaults: information level, time stamps, colour, exit on error', eq(c.ret, I(3 * 8 + 7)))])


def last(d, rng):
    gen(d, rng)
    n = d['n'] = rng.choice([1, 2, 255, rng.randint(1, 255)])
    d['b'] = [rng.randint(1, 127) for _ in range(n)] + [0] + d['b'][n + 1:]


T('l_last', [B0, Int('n', 1, SIZE - 1), OUT], 'i4', lambda c: [('up to the closing zero', eq(c.ret, c.n)), ('its text', forall(0, c.n, lambda q: eq(c.new.o.at(q), c.b.at(q))))], last, zpre('b', 'n'))
