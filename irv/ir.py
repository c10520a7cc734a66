"""Parser for the subset of LLVM-18 textual IR that the extraction produces."""
import re, struct
from fractions import Fraction


class Ty:
    """kind: int(n) float double ptr void vec(n,el) arr(n,el) struct([..],packed) label metadata x86_fp80"""
    __slots__ = ("k", "n", "el", "els", "packed", "name", "_sz", "_al")

    def __init__(s, k, n=0, el=None, els=None, packed=False, name=None):
        s.k = k; s.n = n; s.el = el; s.els = els; s.packed = packed; s.name = name
        s._sz = s._al = None

    def __repr__(s):
        if s.k == 'int': return 'i%d' % s.n
        if s.k == 'vec': return '<%d x %r>' % (s.n, s.el)
        if s.k == 'arr': return '[%d x %r]' % (s.n, s.el)
        if s.k == 'struct': return s.name or '{%s}' % ', '.join(map(repr, s.els))
        return s.k


VOID = Ty('void'); PTR = Ty('ptr'); DBL = Ty('double'); FLT = Ty('float'); LABEL = Ty('label')
META = Ty('metadata')
_ints = {}


def INT(n):
    if n not in _ints: _ints[n] = Ty('int', n)
    return _ints[n]


def sizeof(t):
    if t._sz is not None: return t._sz
    k = t.k
    if k == 'int': r = max(1, (t.n + 7) // 8); r = 1 << (r - 1).bit_length() if t.n <= 64 else 16
    elif k == 'ptr' or k == 'double': r = 8
    elif k == 'float': r = 4
    elif k == 'x86_fp80': r = 16
    elif k == 'vec': r = sizeof(t.el) * t.n; r = 1 << (r - 1).bit_length()
    elif k == 'arr': r = sizeof(t.el) * t.n
    elif k == 'struct': layout(t); r = t._sz
    else: raise ValueError('sizeof ' + k)
    t._sz = r
    return r


def alignof(t):
    if t._al is not None: return t._al
    k = t.k
    if k == 'arr': r = alignof(t.el)
    elif k == 'struct':
        r = 1 if t.packed else max([1] + [alignof(e) for e in t.els])
    elif k in ('int', 'ptr', 'double', 'float', 'vec', 'x86_fp80'): r = min(sizeof(t), 32)
    else: raise ValueError('alignof ' + k)
    t._al = r
    return r


def layout(t):
    off = 0
    offs = []
    for e in t.els:
        if not t.packed:
            a = alignof(e)
            off = (off + a - 1) // a * a
        offs.append(off)
        off += sizeof(e)
    a = alignof(t)
    if not t.packed: off = (off + a - 1) // a * a
    t._sz = off
    return offs


class ParseError(Exception):
    pass


class Const:
    """constant operand: kind in int fp null undef zero agg global expr str"""
    __slots__ = ("ty", "kind", "v")

    def __init__(s, ty, kind, v=None):
        s.ty = ty; s.kind = kind; s.v = v

    def __repr__(s): return '%r %s:%r' % (s.ty, s.kind, s.v)


class Local:
    __slots__ = ("ty", "name")

    def __init__(s, ty, name): s.ty = ty; s.name = name
    def __repr__(s): return s.name


class Ins:
    __slots__ = ("op", "dst", "ty", "a", "x", "line")

    def __init__(s, op, dst, ty, a, x=None, line=''):
        s.op = op; s.dst = dst; s.ty = ty; s.a = a; s.x = x; s.line = line

    def __repr__(s): return s.line.strip()


class Func:
    def __init__(s, name, ret, params, attrs):
        s.name = name; s.ret = ret; s.params = params; s.attrs = attrs
        s.blocks = {}      # label -> [Ins]
        s.order = []
        s._loops = None


TOK = re.compile(r'''\s*(?:
 (?P<str>c?"(?:[^"\\]|\\.)*")|
 (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))|
 (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))|
 (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]+)?)|
 (?P<attr>\#[0-9]+)|
 (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)|
 (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[-+]?[0-9]+)?)?)|
 (?P<word>[a-zA-Z_][-a-zA-Z_0-9.]*)|
 (?P<p>\.\.\.|[\[\]{}()<>,=*:|]))''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'): break
            raise ParseError('token: ' + s[i:i + 40])
        if m.lastgroup == 'str' and out and False: pass
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


PARAM_ATTRS = set('''noundef nonnull readonly readnone writeonly noalias nocapture returned signext zeroext
inreg nofree immarg nest swiftself swiftasync noext allocptr allocalign inalloca dead_on_unwind writable'''.split())
PARAM_ATTRS_ARG = set('dereferenceable dereferenceable_or_null align byval sret elementtype range byref preallocated nofpclass'.split())
FLAGS = set('nsw nuw exact fast nnan ninf nsz arcp contract afn reassoc disjoint inbounds nneg volatile atomic samesign inrange'.split())
CC = set('fastcc ccc coldcc tail musttail notail x86_fastcallcc cc'.split())
FNATTR_SKIP = set('dso_local dso_preemptable internal linkonce_odr weak_odr linkonce weak private external available_externally hidden protected default unnamed_addr local_unnamed_addr comdat nounwind'.split())


class P:
    """token cursor"""

    def __init__(s, mod, text):
        s.m = mod; s.t = tokenize(text); s.i = 0; s.text = text

    def peek(s, o=0): return s.t[s.i + o] if s.i + o < len(s.t) else (None, None)
    def next(s): r = s.t[s.i]; s.i += 1; return r

    def acc(s, v):
        if s.peek()[1] == v: s.i += 1; return True
        return False

    def exp(s, v):
        if not s.acc(v): raise ParseError('expected %s at %s in %s' % (v, s.t[s.i:s.i + 5], s.text[:200]))

    def type(s):
        k, v = s.next()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit(): t = INT(int(v[1:]))
            elif v == 'ptr': t = PTR
            elif v == 'double': t = DBL
            elif v == 'float': t = FLT
            elif v == 'void': t = VOID
            elif v == 'label': t = LABEL
            elif v == 'metadata': t = META
            elif v in ('x86_fp80', 'half', 'token', 'opaque'): t = Ty(v)
            else: raise ParseError('type ' + v)
        elif v == '[':
            n = int(s.next()[1]); s.exp('x'); el = s.type(); s.exp(']')
            t = Ty('arr', n, el)
        elif v == '<':
            if s.acc('{'):
                els = []
                if not s.acc('}'):
                    els.append(s.type())
                    while s.acc(','): els.append(s.type())
                    s.exp('}')
                s.exp('>')
                t = Ty('struct', els=els, packed=True)
            else:
                n = int(s.next()[1]); s.exp('x'); el = s.type(); s.exp('>')
                t = Ty('vec', n, el)
        elif v == '{':
            els = []
            if not s.acc('}'):
                els.append(s.type())
                while s.acc(','): els.append(s.type())
                s.exp('}')
            t = Ty('struct', els=els)
        elif k == 'loc':
            t = s.m.named(v)
        else: raise ParseError('type at %s' % (s.t[s.i - 1:s.i + 4],))
        while True:
            if s.peek()[1] == '(':     # function type
                d = 0
                while True:
                    _, v = s.next()
                    if v == '(': d += 1
                    if v == ')': d -= 1
                    if d == 0: break
                continue
            if s.peek()[1] == 'addrspace':
                s.next(); s.exp('('); s.next(); s.exp(')'); continue
            break
        return t

    def skip_paren(s):
        s.exp('(')
        d = 1
        while d:
            _, v = s.next()
            if v == '(': d += 1
            if v == ')': d -= 1

    def pattrs(s):
        al = {}
        while True:
            k, v = s.peek()
            if k == 'word' and v in PARAM_ATTRS: s.next()
            elif k == 'word' and v in PARAM_ATTRS_ARG:
                s.next()
                if s.peek()[1] == '(':
                    st = s.i
                    s.skip_paren()
                    al[v] = s.t[st + 1:s.i - 1]
                elif s.peek()[0] == 'num': al[v] = s.next()[1]
                else: al[v] = True
            elif k == 'str': s.next(); s.acc('=') and s.next()
            else: return al

    def value(s, ty):
        k, v = s.next()
        if k == 'loc': return Local(ty, v)
        if k == 'glob': return Const(ty, 'global', unq(v))
        if k == 'num':
            if ty.k == 'int': return Const(ty, 'int', int(v))
            return Const(ty, 'fp', float(v))
        if k == 'hex':
            if v[2] in 'KLMHR': return Const(ty, 'fp', None)
            f = struct.unpack('>d', int(v[2:], 16).to_bytes(8, 'big'))[0]
            return Const(ty, 'fp', f)
        if k == 'str':
            return Const(ty, 'str', cstr(v))
        if k == 'word':
            if v == 'true': return Const(ty, 'int', 1)
            if v == 'false': return Const(ty, 'int', 0)
            if v == 'null': return Const(ty, 'null')
            if v in ('undef', 'poison'): return Const(ty, 'undef')
            if v == 'zeroinitializer': return Const(ty, 'zero')
            if v == 'blockaddress': s.skip_paren(); return Const(ty, 'undef')
            if v == 'getelementptr':
                while s.peek()[1] in ('inbounds', 'nuw', 'nusw') or s.peek()[1] == 'inrange':
                    if s.next()[1] == 'inrange' and s.peek()[1] == '(': s.skip_paren()
                s.exp('(')
                bt = s.type(); s.exp(',')
                ops = [s.tv()]
                while s.acc(','):
                    s.acc('inrange')
                    ops.append(s.tv())
                s.exp(')')
                return Const(ty, 'expr', ('getelementptr', bt, ops))
            if v in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'addrspacecast'):
                s.exp('('); o = s.tv(); s.exp('to'); t2 = s.type(); s.exp(')')
                return Const(ty, 'expr', (v, t2, [o]))
            if v in ('add', 'sub', 'mul', 'xor', 'shl', 'icmp'):
                while s.peek()[1] in FLAGS: s.next()
                if v == 'icmp': pred = s.next()[1]
                s.exp('('); a = s.tv(); s.exp(','); b = s.tv(); s.exp(')')
                return Const(ty, 'expr', (v, pred if v == 'icmp' else ty, [a, b]))
            raise ParseError('const word ' + v + ' in ' + s.text[:120])
        if v == '[' or v == '<' or v == '{':
            if v == '<' and s.peek()[1] == '{':
                s.next()
                close = ['}', '>']
            else: close = [{'[': ']', '<': '>', '{': '}'}[v]]
            xs = []
            if s.peek()[1] != close[0]:
                xs.append(s.tv())
                while s.acc(','): xs.append(s.tv())
            for c in close: s.exp(c)
            return Const(ty, 'agg', xs)
        if k == 'meta': return Const(ty, 'undef')
        raise ParseError('value %s %s in %s' % (k, v, s.text[:160]))

    def tv(s):
        t = s.type()
        s.pattrs()
        if t.k == 'metadata':
            # skip metadata operand
            d = 0
            while s.i < len(s.t):
                v = s.peek()[1]
                if v in ('(', '{'): d += 1
                if v in (')', '}'):
                    if d == 0: break
                    d -= 1
                if v == ',' and d == 0: break
                s.next()
            return Const(t, 'undef')
        return s.value(t)


def unq(v):
    v = v[1:]
    if v and v[0] == '"': v = v[1:-1]
    return v


def cstr(v):
    if v[0] == 'c': v = v[1:]
    v = v[1:-1]
    out = []
    i = 0
    while i < len(v):
        if v[i] == '\\':
            if v[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(v[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(v[i])); i += 1
    return out


class Module:
    def __init__(s, text):
        s.types = {}; s.funcs = {}; s.decls = {}; s.globals = {}; s.aliases = {}
        s._tdefs = {}
        s.attrgroups = {}
        s.parse(text)

    def named(s, n):
        if n in s.types: return s.types[n]
        t = Ty('struct', name=n)
        s.types[n] = t
        d = s._tdefs.get(n)
        if d is not None and d.strip() != 'opaque':
            p = P(s, d)
            u = p.type()
            t.k = u.k; t.els = u.els; t.packed = u.packed; t.n = u.n; t.el = u.el
        else: t.els = []
        return t

    def parse(s, text):
        lines = text.split('\n')
        i = 0
        fns = []
        gl = []
        while i < len(lines):
            l = lines[i]
            if l.startswith('%'):
                m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', l)
                if m: s._tdefs[m.group(1)] = m.group(2)
            elif l.startswith('@'):
                gl.append(l)
            elif l.startswith('define'):
                j = i + 1
                body = []
                while lines[j] != '}':
                    body.append(lines[j]); j += 1
                fns.append((l, body))
                i = j
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                if m: s.decls[m.group(1).strip('"')] = l
            elif l.startswith('attributes #'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
                if m: s.attrgroups[m.group(1)] = m.group(2)
            i += 1
        for l in gl:
            m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', l)
            name = m.group(1).strip('"')
            s.globals[name] = m.group(2)
        s._g = {}
        for l, body in fns:
            f = s.header(l)
            f._body = body
            s.funcs[f.name] = f

    def header(s, l):
        l = re.sub(r'comdat\(\$[^)]*\)', 'comdat', l)
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
        name = m.group(1).strip('"')
        p = P(s, l[m.end() - 1:])
        pre = P(s, l[:m.start()])
        pre.next()
        ret = None
        while pre.peek()[0] is not None:
            k, v = pre.peek()
            if k == 'word' and (v in FNATTR_SKIP or v in CC or v in PARAM_ATTRS): pre.next(); continue
            if k == 'word' and v in PARAM_ATTRS_ARG: pre.pattrs(); continue
            ret = pre.type()
            break
        p.exp('(')
        params = []
        n = 0
        while not p.acc(')'):
            if p.acc('...'): continue
            t = p.type(); at = p.pattrs()
            if p.peek()[0] == 'loc': nm = p.next()[1]
            else: nm = '%%%d' % n
            n += 1
            params.append((t, nm, at))
            p.acc(',')
        f = Func(name, ret, params, '')
        return f

    def func(s, name):
        f = s.funcs.get(name)
        if f is not None and not f.order: s.parse_body(f)
        return f

    def parse_body(s, f):
        cur = None
        body = f._body
        i = 0
        first = True
        n = len(body)
        while i < n:
            l = body[i]; i += 1
            if not l.strip(): continue
            st = l.strip()
            if st.startswith(';'): continue
            if not l.startswith(' '):
                m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', l)
                if m:
                    cur = '%' + m.group(1)
                    f.blocks[cur] = []; f.order.append(cur)
                    first = False
                    continue
            if first:
                cur = '%entry'
                f.blocks[cur] = []; f.order.append(cur); first = False
            if st.startswith('switch') and st.endswith('['):
                while not body[i].strip().startswith(']'):
                    st += ' ' + body[i].strip(); i += 1
                st += ' ]'; i += 1
            f.blocks[cur].append(s.ins(st))

    def ins(s, st):
        # strip metadata attachments
        t = re.sub(r'(, ![a-zA-Z_.]+ ![0-9]+)+\s*$', '', st)
        t = re.sub(r', !srcloc ![0-9]+', '', t)
        p = P(s, t)
        dst = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            dst = p.next()[1]; p.next()
        op = p.next()[1]
        while op in ('tail', 'musttail', 'notail'): op = p.next()[1]
        fl = set()

        def flags():
            while p.peek()[1] in FLAGS: fl.add(p.next()[1])
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            flags()
            ty = p.type(); a = p.value(ty); p.exp(','); b = p.value(ty)
            return Ins(op, dst, ty, [a, b], fl, st)
        if op == 'fneg':
            flags(); ty = p.type(); a = p.value(ty)
            return Ins(op, dst, ty, [a], fl, st)
        if op in ('icmp', 'fcmp'):
            flags(); pred = p.next()[1]
            ty = p.type(); a = p.value(ty); p.exp(','); b = p.value(ty)
            return Ins(op, dst, ty, [a, b], pred, st)
        if op == 'alloca':
            p.acc('inalloca')
            ty = p.type()
            cnt = None
            while p.acc(','):
                if p.peek()[1] == 'align': p.next(); p.next()
                else: cnt = p.tv()
            return Ins(op, dst, ty, [], cnt, st)
        if op == 'load':
            flags(); ty = p.type(); p.exp(','); a = p.tv()
            return Ins(op, dst, ty, [a], fl, st)
        if op == 'store':
            flags(); v = p.tv(); p.exp(','); a = p.tv()
            return Ins(op, dst, v.ty, [v, a], fl, st)
        if op == 'getelementptr':
            flags(); bt = p.type(); p.exp(',')
            ops = [p.tv()]
            while p.acc(','): ops.append(p.tv())
            return Ins(op, dst, bt, ops, fl, st)
        if op in ('trunc', 'zext', 'sext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'ptrtoint',
                  'inttoptr', 'bitcast', 'addrspacecast'):
            flags(); a = p.tv(); p.exp('to'); ty = p.type()
            return Ins(op, dst, ty, [a], fl, st)
        if op == 'select':
            flags(); c = p.tv(); p.exp(','); a = p.tv(); p.exp(','); b = p.tv()
            return Ins(op, dst, a.ty, [c, a, b], None, st)
        if op == 'phi':
            flags(); ty = p.type()
            inc = []
            while True:
                p.exp('['); v = p.value(ty); p.exp(','); b = p.next()[1]; p.exp(']')
                inc.append((v, lab(b)))
                if not p.acc(','): break
            return Ins(op, dst, ty, [], inc, st)
        if op == 'br':
            if p.peek()[1] == 'label':
                p.next()
                return Ins('br', None, None, [], [lab(p.next()[1])], st)
            c = p.tv(); p.exp(','); p.exp('label'); a = lab(p.next()[1]); p.exp(','); p.exp('label'); b = lab(p.next()[1])
            return Ins('br', None, None, [c], [a, b], st)
        if op == 'switch':
            v = p.tv(); p.exp(','); p.exp('label'); d = lab(p.next()[1]); p.exp('[')
            cs = []
            while not p.acc(']'):
                c = p.tv(); p.exp(','); p.exp('label'); cs.append((c, lab(p.next()[1])))
            return Ins('switch', None, None, [v], (d, cs), st)
        if op == 'ret':
            if p.peek()[1] == 'void': return Ins('ret', None, VOID, [], None, st)
            v = p.tv()
            return Ins('ret', None, v.ty, [v], None, st)
        if op == 'unreachable': return Ins('unreachable', None, None, [], None, st)
        if op == 'resume': return Ins('unreachable', None, None, [], 'resume', st)
        if op in ('call', 'invoke'):
            flags()
            while p.peek()[0] == 'word' and (p.peek()[1] in CC or p.peek()[1] in PARAM_ATTRS or p.peek()[1] in PARAM_ATTRS_ARG):
                if p.peek()[1] in CC: p.next()
                else: p.pattrs()
            ty = p.type()
            k, v = p.next()
            if k == 'word' and v == 'asm': return Ins('asm', dst, ty, [], None, st)
            callee = Const(PTR, 'global', unq(v)) if k == 'glob' else Local(PTR, v)
            p.exp('(')
            args = []
            while not p.acc(')'):
                args.append(p.tv()); p.acc(',')
            x = None
            if op == 'invoke':
                while p.peek()[1] != 'to': p.next()
                p.exp('to'); p.exp('label'); nl = lab(p.next()[1])
                x = nl
            return Ins('call', dst, ty, args, (callee, x), st)
        if op == 'extractvalue':
            a = p.tv(); ix = []
            while p.acc(','): ix.append(int(p.next()[1]))
            return Ins(op, dst, None, [a], ix, st)
        if op == 'insertvalue':
            a = p.tv(); p.exp(','); b = p.tv(); ix = []
            while p.acc(','): ix.append(int(p.next()[1]))
            return Ins(op, dst, a.ty, [a, b], ix, st)
        if op == 'extractelement':
            a = p.tv(); p.exp(','); b = p.tv()
            return Ins(op, dst, a.ty.el, [a, b], None, st)
        if op == 'insertelement':
            a = p.tv(); p.exp(','); b = p.tv(); p.exp(','); c = p.tv()
            return Ins(op, dst, a.ty, [a, b, c], None, st)
        if op == 'shufflevector':
            a = p.tv(); p.exp(','); b = p.tv(); p.exp(','); c = p.tv()
            return Ins(op, dst, None, [a, b, c], None, st)
        if op == 'freeze':
            a = p.tv()
            return Ins(op, dst, a.ty, [a], None, st)
        if op == 'fence': return Ins('nop', None, None, [], None, st)
        return Ins('unsupported', dst, None, [], None, st)

    def global_init(s, name):
        """(type, Const or None, is_constant)"""
        if name in s._g: return s._g[name]
        d = s.globals.get(name)
        r = None
        if d is not None:
            m = re.search(r'\b(constant|global)\b', d)
            if m and ' alias ' not in d[:m.start()]:
                p = P(s, d[m.end():])
                try:
                    ty = p.type()
                    ext = bool(re.match(r'(external|extern_weak)\b', d.replace('dso_local ', '')))
                    c = None if ext else p.value(ty)
                    r = (ty, c, m.group(1) == 'constant')
                except ParseError:
                    r = None
        s._g[name] = r
        return r


def lab(v):
    if v[1:2] == '"': return '%' + v[1:]
    return v


# ---------------------------------------------------------------- CFG / loops
def succs(f, b):
    t = f.blocks[b][-1]
    if t.op == 'br': return list(t.x)
    if t.op == 'switch': return [t.x[0]] + [l for _, l in t.x[1]]
    if t.op == 'call' and t.x and t.x[1]: return [t.x[1]]
    return []


def loops(f):
    """natural loops: {header: set(blocks)}"""
    if f._loops is not None: return f._loops
    entry = f.order[0]
    sc = {b: succs(f, b) for b in f.order}
    pred = {b: [] for b in f.order}
    # reachable, postorder
    seen = set(); post = []
    st = [(entry, iter(sc[entry]))]
    seen.add(entry)
    while st:
        b, it = st[-1]
        for n in it:
            if n not in seen:
                seen.add(n); st.append((n, iter(sc[n]))); break
        else:
            post.append(b); st.pop()
    for b in seen:
        for n in sc[b]: pred[n].append(b)
    rpo = post[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    idom = {entry: entry}
    chg = True
    while chg:
        chg = False
        for b in rpo[1:]:
            ps = [q for q in pred[b] if q in idom]
            n = ps[0]
            for q in ps[1:]:
                x, y = q, n
                while x != y:
                    while idx[x] > idx[y]: x = idom[x]
                    while idx[y] > idx[x]: y = idom[y]
                n = x
            if idom.get(b) != n: idom[b] = n; chg = True

    def dom(a, b):
        while b != a and b != entry: b = idom[b]
        return a == b
    res = {}
    for b in rpo:
        for n in sc[b]:
            if dom(n, b):
                body = res.setdefault(n, {n})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st.extend(pred[x])
    f._loops = res
    f._idom = idom
    return res
