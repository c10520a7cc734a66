"""P04: text slices."""
from .lib import *
HARNESS = 'P04.cpp'
TARGETS = []
LIM = 2 ** 24


def T(*a, **k): TARGETS.append(Target(*a, **k))


TXT = [Arr('a', 'i1', 'm'), Int('m', 0, LIM, ghi=12), Int('i', 0, LIM, ghi=3), Int('n', 1, LIM, ghi=9)]
T2 = [Arr('b', 'i1', 'k'), Int('k', 1, LIM, ghi=4)]
U = lambda nm: Scalar(nm, 'u8', lo=0, ghi=9)
C = Scalar('c', 'i1')
inside = ('slice inside the text', lambda c: le(c.i + c.n, c.m))


def pre(*more): return lambda c: [(inside[0], inside[1](c))] + [(t, f(c)) for t, f in more]


def fix(d, rng):
    a = d['a']
    d['m'] = len(a)
    d['i'] = rng.randint(0, min(2, max(0, d['m'] - 1)))
    d['n'] = rng.randint(1, max(1, d['m'] - d['i']))
    al = [32, 44, 97, -3][:rng.randint(1, 4)]
    if rng.random() < .9: d['a'] = a = [rng.choice(al) for _ in a]
    if 'c' in d: d['c'] = rng.choice(al)
    n = d['n']
    for p in ('p',):
        if p in d: d[p] = rng.choice([0, 1, n - 1, n, n + 1, rng.randint(0, n), 2 ** 64 - 1])
    if 'b' in d:
        k = len(d['b'])
        if rng.random() < .9: d['b'] = [rng.choice(al) for _ in d['b']]
        if rng.random() < .6:
            j = rng.randint(0, max(0, n - k)) if rng.random() < .5 else rng.choice([0, max(0, n - k)])
            s = (a[d['i']:d['i'] + n])[j:j + k]
            d['b'] = s + d['b'][len(s):]
        d['k'] = len(d['b'])


at = lambda c, q: c.a.at(c.i + q)
first = lambda c, p, f: [('absent only when no position from there on qualifies', implies(eq(c.ret, I(-1)), forall(p, c.n, lambda q: not_(f(q))))),
                         ('earliest qualifying position', implies(ne(c.ret, I(-1)), and_(le(p, c.ret), lt(c.ret, c.n), f(c.ret), forall(p, c.ret, lambda q: not_(f(q))))))]
last = lambda c, p, f: [('absent only when no position up to there qualifies', implies(eq(c.ret, I(-1)), forall(0, min_(c.n, p + 1), lambda q: not_(f(q))))),
                        ('latest qualifying position', implies(ne(c.ret, I(-1)), and_(le(I(0), c.ret), le(c.ret, p), lt(c.ret, c.n), f(c.ret), forall(c.ret + 1, min_(c.n, p + 1), lambda q: not_(f(q))))))]


def slice_(o, j, pos, n): return and_(eq(o[j], pos), eq(o[j + 1], n))


def match(c, q): return and_(le(q + c.k, c.n), forall(0, c.k, lambda j: eq(at(c, q + j), c.b.at(j))))


def scan(L):
    """outer search loop: positions tried so far do not match"""
    c = L.ex.old
    p = getattr(c, 'p', I(0))
    return [('within the slice', lambda lv: le(p + lv.k, c.n)), ('no match so far', lambda lv: forall(p, p + lv.k, lambda q: not_(match(c, q))))]


def order(c):
    """lexicographic: (less, equal)"""
    m = min_(c.n, c.k)
    same = lambda k: forall(0, k, lambda j: eq(at(c, j), c.b.at(j)))
    less = or_(exists(0, m, lambda q: and_(same(q), lt(at(c, q), c.b.at(q)))), and_(same(m), lt(c.n, c.k)))
    return less, and_(eq(c.n, c.k), same(m))


def three(c):
    l, e = order(c)
    return [('zero exactly for equal texts', iff(eq(c.ret, I(0)), e)), ('negative exactly when it sorts first', iff(lt(c.ret, I(0)), l))]


T('v_make', TXT + [Out('o', 'i8', 9)], pre=pre(), fix=fix, post=lambda c: [('pointer and length', slice_(c.new.o, 0, c.i, c.n)), ('two pointers', slice_(c.new.o, 2, c.i, c.n)),
  ('begin and end', and_(eq(c.new.o[4], c.i), eq(c.new.o[5], c.i + c.n))), ('empty exactly without characters', and_(eq(c.new.o[6], I(0)), eq(c.new.o[7], I(1)), eq(c.new.o[8], I(0))))])
def zstr(d, rng):
    d['a'] = [rng.choice([-5, 1, 32, 120]) for _ in range(d['n'])] + [0]


T('v_cstr', [Arr('a', 'i1', lambda v: v.n + 1), Int('n', 1, LIM, ghi=9), Out('o', 'i8', 2)], fix=zstr, pre=lambda c: [('terminated at n', eq(c.a.at(c.n), I(0))), ('no earlier zero', forall(0, c.n, lambda i: ne(c.a.at(i), I(0))))],
  post=lambda c: [('whole text up to the zero', slice_(c.new.o, 0, I(0), c.n))])
T('v_el', TXT + [Int('k', 0, LIM, ghi=9)], 'i4', pre=pre(('inside', lambda c: lt(c.k, c.n))), fix=lambda d, rng: (fix(d, rng), d.update(k=rng.randrange(d['n']))),
  post=lambda c: [('the character there', eq(c.ret, at(c, c.k)))])
T('v_front', TXT, 'i4', pre=pre(), fix=fix, post=lambda c: [('first character', eq(c.ret, at(c, I(0))))])
T('v_back', TXT, 'i4', pre=pre(), fix=fix, post=lambda c: [('last character', eq(c.ret, at(c, c.n - 1)))])


def some(*ns):
    def g(d, rng):
        fix(d, rng)
        left = d['n']
        for q in ns:
            d[q] = rng.randint(0 if q != 'c' else min(1, left), left)
            left -= d[q]
    return g


T('v_drop', TXT + [U('k'), Out('o', 'i8', 2)], pre=pre(('not more than there is', lambda c: le(c.k, c.n))), fix=some('k'), post=lambda c: [('rest of the slice', slice_(c.new.o, 0, c.i + c.k, c.n - c.k))])
T('v_sub', TXT + [U('p'), U('c'), Out('o', 'i8', 2)], pre=pre(('inside, not empty', lambda c: and_(lt(I(0), c.c), le(c.p + c.c, c.n)))), fix=some('p', 'c'), post=lambda c: [('the named part', slice_(c.new.o, 0, c.i + c.p, c.c))])
T('v_fc', TXT + [U('p'), C], 'i8', pre=pre(), fix=fix, post=lambda c: first(c, c.p, lambda q: eq(at(c, q), c.c)))
T('v_fn', TXT + [U('p'), C], 'i8', pre=pre(), fix=fix, post=lambda c: first(c, c.p, lambda q: ne(at(c, q), c.c)))
T('v_lc', TXT + [U('p'), C], 'i8', pre=pre(), fix=fix, post=lambda c: last(c, c.p, lambda q: eq(at(c, q), c.c)))
T('v_fc0', TXT + [C], 'i8', pre=pre(), fix=fix, post=lambda c: first(c, I(0), lambda q: eq(at(c, q), c.c)))
T('v_fn0', TXT + [C], 'i8', pre=pre(), fix=fix, post=lambda c: first(c, I(0), lambda q: ne(at(c, q), c.c)))
T('v_lc0', TXT + [C], 'i8', pre=pre(), fix=fix, post=lambda c: last(c, c.n - 1, lambda q: eq(at(c, q), c.c)))


def trim(c):
    o = c.new.o
    sp = lambda q: eq(at(c, q), I(32))
    allsp = forall(0, c.n, sp)
    cut = o[0] - c.i
    return [('nothing left exactly for blank text', iff(eq(o[1], I(0)), allsp)),
            ('starts at the first other character and keeps the end', implies(not_(allsp), and_(le(I(0), cut), lt(cut, c.n), not_(sp(cut)), forall(0, cut, sp), eq(o[1], c.n - cut))))]


T('v_trim', TXT + [Out('o', 'i8', 2)], pre=pre(), fix=fix, post=trim)


def tok(c):
    o = c.new.o
    d = lambda q: eq(at(c, q), c.c)
    none = forall(0, c.n, d)
    s = o[0] - c.i; e = s + o[1]
    rest = o[2] - c.i
    has = not_(none)
    return [('no token exactly without other characters', iff(eq(o[1], I(0)), none)),
            ('without token the slice stays', implies(none, slice_(o, 2, c.i, c.n))),
            ('token starts after the leading delimiters', implies(has, and_(le(I(0), s), lt(s, c.n), not_(d(s)), forall(0, s, d)))),
            ('token holds no delimiter', implies(has, and_(lt(s, e), le(e, c.n), forall(s, e, lambda q: not_(d(q)))))),
            ('token ends at a delimiter or at the end', implies(has, or_(eq(e, c.n), and_(lt(e, c.n), d(e))))),
            ('rest follows the delimiter', implies(and_(has, lt(e, c.n)), and_(eq(rest, e + 1), eq(o[3], c.n - e - 1)))),
            ('nothing left after the last token', implies(and_(has, eq(e, c.n)), eq(o[3], I(0))))]


T('v_tok', TXT + [C, Out('o', 'i8', 4)], pre=pre(), fix=fix, post=tok)
T('v_fs', TXT + T2 + [U('p')], 'i8', inv=scan, pre=pre(), fix=fix, post=lambda c: first(c, c.p, lambda q: match(c, q)))
T('v_fs0', TXT + T2, 'i8', inv=scan, pre=pre(), fix=fix, post=lambda c: first(c, I(0), lambda q: match(c, q)))
T('v_fsn', TXT + T2 + [U('p')], 'i8', inv=scan, pre=pre(), fix=fix, post=lambda c: first(c, c.p, lambda q: match(c, q)))
T('v_void', TXT + T2 + [C, Out('o', 'i8', 15)], pre=pre(), fix=fix, post=lambda c: [
  ('no characters come before any character', and_(lt(c.new.o[0], I(0)), lt(I(0), c.new.o[1]), lt(c.new.o[2], I(0)), lt(I(0), c.new.o[3]))),
  ('slices without characters are equal', eq(c.new.o[4], I(0))), ('operators agree', eq(c.new.o[5], I(0))),
  ('nothing is found', and_(*[eq(c.new.o[k], I(-1)) for k in range(6, 12)])), ('nothing is left', and_(*[eq(c.new.o[k], I(0)) for k in range(12, 15)]))])
T('v_cmp', TXT + T2, 'i4', pre=pre(), fix=fix, post=three)
class Shift:
    """the part [p, p + len) of the slice as a text of its own"""
    def __init__(s, c): s.i = c.i + c.p; s.n = c.c; s.k = c.k; s.a = c.a; s.b = c.b; s.ret = c.ret


T('v_cmpsub', TXT + T2 + [U('p'), U('c')], 'i4', pre=pre(('inside, not empty', lambda c: and_(lt(I(0), c.c), le(c.p + c.c, c.n)))), fix=some('p', 'c'), post=lambda c: three(Shift(c)))
T('v_starts', TXT + T2, 'b', pre=pre(), fix=fix, post=lambda c: [('begins with the text', iff(c.ret, match(c, I(0))))])
T('v_ends', TXT + T2, 'b', pre=pre(), fix=fix, post=lambda c: [('ends with the text', iff(c.ret, and_(le(c.k, c.n), match(c, c.n - c.k))))])
for nm, f in (('eq', lambda l, e: e), ('ne', lambda l, e: not_(e)), ('lt', lambda l, e: l), ('le', lambda l, e: or_(l, e)), ('gt', lambda l, e: not_(or_(l, e))), ('ge', lambda l, e: not_(l))):
    T('v_' + nm, TXT + T2, 'b', pre=pre(), fix=fix, post=lambda c, f=f: [('byte-wise comparison', iff(c.ret, f(*order(c))))])
