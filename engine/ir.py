"""LLVM IR text -> parsed functions (lazily)."""
import re
import struct

TOK = re.compile(r'''\s*(c?"[^"]*"|[%@!]"[^"]*"|[%@][-\w.$]+|![\w.]*|\#\d+|\.\.\.|[-+]?[\w.]+(?:[+-]\d+)?|[()\[\]{}<>,=*:|])''')


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    m = TOK.match
    while i < n:
        x = m(s, i)
        if not x:
            if s[i:].strip() == '':
                break
            raise ParseError('token: ' + s[i:i + 60])
        out.append(x.group(1))
        i = x.end()
    return out


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'n', 'e', 'packed', 'size', 'align')

    def __init__(self, k, n=0, e=None, packed=False):
        self.k = k            # int float double ptr arr vec struct void label meta fn
        self.n = n
        self.e = e
        self.packed = packed
        if k == 'int':
            self.size = (n + 7) // 8
            a = 1
            while a < self.size:
                a *= 2
            self.align = min(a, 16)
            if n > 64:
                self.size = a
        elif k == 'float':
            self.size = self.align = 4
        elif k in ('double', 'ptr'):
            self.size = self.align = 8
        elif k == 'arr':
            self.size = n * asize(e)
            self.align = e.align
        elif k == 'vec':
            if e.k == 'int' and e.n == 1:
                self.size = (n + 7) // 8
            else:
                self.size = n * e.size
            a = 1
            while a < self.size:
                a *= 2
            self.align = a
        elif k == 'struct':
            off = 0
            al = 1
            for t in e:
                if not packed:
                    off = (off + t.align - 1) // t.align * t.align
                    al = max(al, t.align)
                off += asize(t)
            if not packed:
                off = (off + al - 1) // al * al
            self.size = off
            self.align = al
        else:
            self.size = 0
            self.align = 1

    def offsets(self):
        r = []
        off = 0
        for t in self.e:
            if not self.packed:
                off = (off + t.align - 1) // t.align * t.align
            r.append(off)
            off += asize(t)
        return r

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.n
        if self.k in ('arr', 'vec'):
            return '%s%dx%r' % (self.k, self.n, self.e)
        if self.k == 'struct':
            return 'struct%r' % (self.e,)
        return self.k


def asize(t):
    """allocation size"""
    return (t.size + t.align - 1) // t.align * t.align


_ty = {}


def ity(n):
    k = ('i', n)
    if k not in _ty:
        _ty[k] = Ty('int', n)
    return _ty[k]


FLOAT = Ty('float')
DOUBLE = Ty('double')
PTR = Ty('ptr')
VOID = Ty('void')
LABEL = Ty('label')
META = Ty('meta')
I1 = ity(1)
I8 = ity(8)
I32 = ity(32)
I64 = ity(64)

ATTRW = {'noundef', 'nonnull', 'noalias', 'nofree', 'readonly', 'writeonly', 'writable', 'dead_on_unwind', 'signext', 'zeroext',
         'inreg', 'returned', 'immarg', 'nocapture', 'readnone', 'nest', 'swiftself', 'allocalign', 'allocptr', 'nofpclass',
         'noext', 'dead_on_return'}
ATTRP = {'align', 'captures', 'dereferenceable', 'dereferenceable_or_null', 'range', 'initializes', 'sret', 'byval', 'elementtype',
         'memory', 'nofpclass', 'byref', 'inalloca', 'preallocated', 'alignstack', 'dead_on_return'}


class P:
    """Token cursor."""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        y = self.next()
        if y != x:
            raise ParseError('expected %r got %r in %s' % (x, y, ' '.join(self.t)[:300]))

    def skip_paren(self):
        self.need('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def attrs(self):
        while True:
            x = self.peek()
            if x is None:
                return
            if x in ATTRP and self.peek(1) == '(':
                self.next()
                self.skip_paren()
            elif x == 'align':
                self.next()
                self.next()
            elif x in ATTRW:
                self.next()
            elif x.startswith('"'):
                self.next()
                if self.eat('='):
                    self.next()
            elif x.startswith('#'):
                self.next()
            else:
                return

    def type(self):
        x = self.next()
        if x == 'ptr':
            t = PTR
            if self.peek() == 'addrspace':
                self.next()
                self.skip_paren()
        elif x[0] == 'i' and x[1:].isdigit():
            t = ity(int(x[1:]))
        elif x == 'float':
            t = FLOAT
        elif x == 'double':
            t = DOUBLE
        elif x == 'void':
            t = VOID
        elif x == 'label':
            t = LABEL
        elif x == 'metadata':
            t = META
        elif x == '[':
            n = int(self.next())
            self.need('x')
            e = self.type()
            self.need(']')
            t = Ty('arr', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                es = self.types('}')
                self.need('>')
                t = Ty('struct', 0, es, True)
            else:
                n = int(self.next())
                self.need('x')
                e = self.type()
                self.need('>')
                t = Ty('vec', n, e)
        elif x == '{':
            t = Ty('struct', 0, self.types('}'))
        else:
            raise ParseError('type %r in %s' % (x, ' '.join(self.t)[:300]))
        return t

    def types(self, end):
        es = []
        if self.eat(end):
            return es
        while True:
            es.append(self.type())
            if self.eat(','):
                continue
            self.need(end)
            return es

    def value(self, ty):
        """('l', name) | ('c', constant) where constants are built as tuples"""
        x = self.next()
        c = x[0]
        if c == '%':
            return ('l', unq(x[1:]))
        if c == '@':
            return ('g', unq(x[1:]), 0)
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if x in ('null', 'none'):
            return ('c', 0)
        if x in ('undef', 'poison', 'zeroinitializer'):
            return ('c', zero(ty))
        if x == 'splat':
            self.need('(')
            t = self.type()
            v = self.value(t)
            self.need(')')
            return ('vec', [v] * ty.n)
        if x == '<' and self.peek() == '{' or x == '{' or x == '[' or x == '<':
            if x == '<' and self.peek() == '{':
                self.next()
                end = '}'
            else:
                end = {'{': '}', '[': ']', '<': '>'}[x]
            vs = []
            if not self.eat(end):
                while True:
                    t = self.type()
                    vs.append(self.value(t))
                    if self.eat(','):
                        continue
                    self.need(end)
                    break
            if x == '<' and end == '}':
                self.need('>')
            return ('vec', vs)
        if c == 'c' and x[1:2] == '"':
            b = cstr(x[2:-1])
            return ('c', tuple(b))
        if x == 'getelementptr':
            while self.peek() != '(':
                if self.peek() in ('inrange',):
                    self.next()
                    if self.peek() == '(':
                        self.skip_paren()
                    continue
                self.next()
            # an inrange(...) attribute also has parentheses
            self.need('(')
            st = self.type()
            self.need(',')
            self.type()
            base = self.value(PTR)
            idx = []
            while self.eat(','):
                self.eat('inrange')
                t = self.type()
                v = self.value(t)
                idx.append((t, v))
            self.need(')')
            off = gep_const(st, idx)
            return addoff(base, off)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'addrspacecast'):
            self.need('(')
            t = self.type()
            v = self.value(t)
            self.need('to')
            t2 = self.type()
            self.need(')')
            if x == 'trunc':
                return ('trunc', v, t2.n)
            return v
        if x in ('sub', 'add', 'xor', 'mul'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.need('(')
            t = self.type()
            a = self.value(t)
            self.need(',')
            t = self.type()
            b = self.value(t)
            self.need(')')
            return ('bin', x, a, b, t.n)
        if x == 'blockaddress':
            raise ParseError('blockaddress')
        if ty.k in ('float', 'double'):
            return ('c', fconst(x, ty))
        if ty.k == 'int' and (c.isdigit() or c == '-'):
            return ('c', int(x) & ((1 << ty.n) - 1))
        if ty.k == 'int' and c == 'u' and x.startswith('u0x'):
            return ('c', int(x[3:], 16) & ((1 << ty.n) - 1))
        if ty.k == 'int' and c == 's' and x.startswith('s0x'):
            return ('c', int(x[3:], 16) & ((1 << ty.n) - 1))
        if x == 'asm':
            raise ParseError('asm value')
        raise ParseError('value %r : %r in %s' % (x, ty, ' '.join(self.t)[:300]))


def fconst(x, ty):
    if x.startswith('f0x'):
        h = x[3:]
        v = int(h, 16)
        if ty.k == 'float':
            return struct.unpack('<f', struct.pack('<I', v))[0]
        return struct.unpack('<d', struct.pack('<Q', v))[0]
    if x.startswith('0x'):
        v = struct.unpack('<d', struct.pack('<Q', int(x, 16)))[0]
        return v
    if x in ('+inf', 'inf'):
        return float('inf')
    if x == '-inf':
        return float('-inf')
    if x in ('+qnan', 'qnan', '-qnan', 'nan', '+nan', '-nan'):
        return float('nan')
    v = float(x)
    if ty.k == 'float':
        v = struct.unpack('<f', struct.pack('<f', v))[0]
    return v


def addoff(v, off):
    if v[0] == 'g':
        return ('g', v[1], v[2] + off)
    if v[0] == 'c':
        return ('c', (v[1] + off) & (2 ** 64 - 1))
    raise ParseError('const gep base')


def gep_const(st, idx):
    off = 0
    t = st
    for k, (it, v) in enumerate(idx):
        if v[0] != 'c':
            raise ParseError('const gep index')
        n = v[1]
        if n >> (it.n - 1):
            n -= 1 << it.n
        if k == 0:
            off += n * asize(t)
        elif t.k == 'struct':
            off += t.offsets()[n]
            t = t.e[n]
        else:
            t = t.e
            off += n * asize(t)
    return off


def zero(t):
    if t.k in ('int', 'ptr'):
        return 0
    if t.k in ('float', 'double'):
        return 0.0
    if t.k in ('arr', 'vec'):
        return tuple([zero(t.e)] * t.n)
    if t.k == 'struct':
        return tuple(zero(x) for x in t.e)
    return 0


def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('latin-1')
            i += 1
    return bytes(out)


def unq(s):
    if s[:1] == '"':
        return s[1:-1]
    return s


# ------------------------------------------------------------------ instructions
class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'x')

    def __init__(self, op, res, ty, a=(), x=None):
        self.op = op
        self.res = res        # SSA name or None
        self.ty = ty          # result (or operand) type
        self.a = a            # operands: list of (ty, value)
        self.x = x            # extra

    def __repr__(self):
        return '%s = %s %r %r %r' % (self.res, self.op, self.ty, self.a, self.x)


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast',
         'addrspacecast', 'ptrtoaddr'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'samesign', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'inbounds', 'nusw', 'inrange'}
CCS = {'fastcc', 'coldcc', 'ccc', 'cc', 'tailcc'}


def strip_meta(s):
    # drop trailing ", !foo !123" and "!srcloc" metadata
    i = s.find(', !')
    if i >= 0:
        # not inside quotes
        q = s[:i].count('"')
        if q % 2 == 0:
            s = s[:i]
    return s


def parse_call(p, res, invoke):
    while p.peek() in FLAGS:
        p.next()
    if p.peek() in CCS:
        p.next()
    p.attrs()
    rty = p.type()
    # optional function type for varargs
    if p.peek() == '(':
        p.skip_paren()
    x = p.next()
    if x == 'asm':
        while not p.peek().startswith('"'):
            p.next()
        s = p.next()
        p.need(',')
        cons = p.next()
        callee = ('asm', s, cons)
    elif x[0] == '@':
        callee = ('g', unq(x[1:]), 0)
    elif x[0] == '%':
        callee = ('l', unq(x[1:]))
    else:
        raise ParseError('callee %r' % x)
    p.need('(')
    args = []
    if not p.eat(')'):
        while True:
            t = p.type()
            if t is META:
                # metadata argument: skip
                d = 0
                while True:
                    y = p.peek()
                    if d == 0 and y in (',', ')'):
                        break
                    if y in ('(', '{'):
                        d += 1
                    if y in (')', '}'):
                        d -= 1
                    p.next()
                args.append((t, ('c', 0)))
            else:
                p.attrs()
                args.append((t, p.value(t)))
            if p.eat(','):
                continue
            p.need(')')
            break
    fnattrs = []
    while p.peek() is not None and p.peek() not in ('to', '['):
        fnattrs.append(p.next())
    if p.peek() == '[':
        while p.next() != ']':
            pass
    tgt = None
    if invoke:
        p.need('to')
        p.need('label')
        a = unq(p.next()[1:])
        p.need('unwind')
        p.need('label')
        b = unq(p.next()[1:])
        tgt = (a, b)
    return Ins('invoke' if invoke else 'call', res, rty, args, (callee, tgt, fnattrs))


def parse_ins(s):
    s = strip_meta(s)
    p = P(tokenize(s))
    res = None
    if p.peek()[0] == '%' and p.peek(1) == '=':
        res = unq(p.next()[1:])
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'call':
        return parse_call(p, res, False)
    if op == 'invoke':
        return parse_call(p, res, True)
    fl = set()
    while p.peek() in FLAGS:
        fl.add(p.next())
    if op in BINOPS:
        t = p.type()
        a = p.value(t)
        p.need(',')
        b = p.value(t)
        return Ins(op, res, t, [(t, a), (t, b)], fl)
    if op == 'fneg':
        t = p.type()
        return Ins(op, res, t, [(t, p.value(t))], fl)
    if op in ('icmp', 'fcmp'):
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.need(',')
        b = p.value(t)
        rt = I1 if t.k != 'vec' else Ty('vec', t.n, I1)
        return Ins(op, res, rt, [(t, a), (t, b)], pred)
    if op in CASTS:
        t = p.type()
        a = p.value(t)
        p.need('to')
        t2 = p.type()
        return Ins(op, res, t2, [(t, a)], fl)
    if op == 'alloca':
        p.eat('inalloca')
        t = p.type()
        n = None
        if p.eat(','):
            if p.peek() != 'align':
                nt = p.type()
                n = (nt, p.value(nt))
        return Ins(op, res, PTR, [n] if n else [], t)
    if op == 'load':
        at = p.eat('atomic')
        p.eat('volatile')
        t = p.type()
        p.need(',')
        pt = p.type()
        return Ins(op, res, t, [(pt, p.value(pt))], at)
    if op == 'store':
        at = p.eat('atomic')
        p.eat('volatile')
        t = p.type()
        v = p.value(t)
        p.need(',')
        pt = p.type()
        return Ins(op, None, t, [(t, v), (pt, p.value(pt))], at)
    if op == 'getelementptr':
        st = p.type()
        p.need(',')
        pt = p.type()
        base = p.value(pt)
        idx = []
        while p.eat(','):
            it = p.type()
            idx.append((it, p.value(it)))
        return Ins(op, res, PTR if pt.k == 'ptr' and all(i[0].k != 'vec' for i in idx) else pt, [(pt, base)] + idx, st)
    if op == 'phi':
        t = p.type()
        inc = []
        while True:
            p.need('[')
            v = p.value(t)
            p.need(',')
            b = unq(p.next()[1:])
            p.need(']')
            inc.append((b, v))
            if not p.eat(','):
                break
        return Ins(op, res, t, [], inc)
    if op == 'select':
        ct = p.type()
        c = p.value(ct)
        p.need(',')
        t = p.type()
        a = p.value(t)
        p.need(',')
        t2 = p.type()
        b = p.value(t2)
        return Ins(op, res, t, [(ct, c), (t, a), (t, b)])
    if op == 'br':
        if p.eat('label'):
            return Ins(op, None, VOID, [], [unq(p.next()[1:])])
        t = p.type()
        c = p.value(t)
        p.need(',')
        p.need('label')
        a = unq(p.next()[1:])
        p.need(',')
        p.need('label')
        b = unq(p.next()[1:])
        return Ins(op, None, VOID, [(t, c)], [a, b])
    if op == 'switch':
        t = p.type()
        c = p.value(t)
        p.need(',')
        p.need('label')
        d = unq(p.next()[1:])
        p.need('[')
        cs = []
        while not p.eat(']'):
            t2 = p.type()
            v = p.value(t2)
            p.need(',')
            p.need('label')
            cs.append((v[1], unq(p.next()[1:])))
        return Ins(op, None, VOID, [(t, c)], (cs, d))
    if op == 'ret':
        t = p.type()
        if t is VOID:
            return Ins(op, None, VOID, [])
        return Ins(op, None, t, [(t, p.value(t))])
    if op == 'unreachable':
        return Ins(op, None, VOID)
    if op == 'resume':
        return Ins(op, None, VOID)
    if op == 'landingpad':
        return Ins(op, res, VOID)
    if op == 'extractvalue':
        t = p.type()
        v = p.value(t)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        et = t
        for i in idx:
            et = et.e[i] if et.k == 'struct' else et.e
        return Ins(op, res, et, [(t, v)], idx)
    if op == 'insertvalue':
        t = p.type()
        v = p.value(t)
        p.need(',')
        t2 = p.type()
        v2 = p.value(t2)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        return Ins(op, res, t, [(t, v), (t2, v2)], idx)
    if op == 'extractelement':
        t = p.type()
        v = p.value(t)
        p.need(',')
        it = p.type()
        return Ins(op, res, t.e, [(t, v), (it, p.value(it))])
    if op == 'insertelement':
        t = p.type()
        v = p.value(t)
        p.need(',')
        t2 = p.type()
        v2 = p.value(t2)
        p.need(',')
        it = p.type()
        return Ins(op, res, t, [(t, v), (t2, v2), (it, p.value(it))])
    if op == 'shufflevector':
        t = p.type()
        a = p.value(t)
        p.need(',')
        t2 = p.type()
        b = p.value(t2)
        p.need(',')
        mt = p.type()
        m = p.value(mt)
        mask = m[1] if m[0] == 'c' else tuple(v[1] for v in m[1])
        return Ins(op, res, Ty('vec', mt.n, t.e), [(t, a), (t2, b)], mask)
    if op == 'freeze':
        t = p.type()
        return Ins(op, res, t, [(t, p.value(t))])
    if op == 'atomicrmw':
        p.eat('volatile')
        o = p.next()
        pt = p.type()
        a = p.value(pt)
        p.need(',')
        t = p.type()
        return Ins(op, res, t, [(pt, a), (t, p.value(t))], o)
    if op == 'cmpxchg':
        p.eat('weak')
        p.eat('volatile')
        pt = p.type()
        a = p.value(pt)
        p.need(',')
        t = p.type()
        b = p.value(t)
        p.need(',')
        t2 = p.type()
        c = p.value(t2)
        return Ins(op, res, Ty('struct', 0, [t, I1]), [(pt, a), (t, b), (t, c)])
    if op == 'fence':
        return Ins(op, None, VOID)
    raise ParseError('op %r: %s' % (op, s[:200]))


# ------------------------------------------------------------------ module
class Block:
    __slots__ = ('name', 'ins', 'idx')

    def __init__(self, name):
        self.name = name
        self.ins = []


class Function:
    def __init__(self, name, params, rty, lines, noreturn, cold):
        self.name = name
        self.params = params
        self.rty = rty
        self.lines = lines
        self.noreturn = noreturn
        self.cold = cold
        self.blocks = None

    def parse(self):
        if self.blocks is not None:
            return
        blocks = []
        cur = Block('0')
        cur.name = None
        buf = None
        for l in self.lines:
            s = l.strip()
            if not s or s[0] == ';':
                continue
            if buf is not None:
                buf += ' ' + s
                if buf_done(buf):
                    cur.ins.append(parse_ins(buf))
                    buf = None
                continue
            if l[0] != ' ':
                # label
                nm = s.split(':')[0] if s[0] != '"' else s[:s.index('"', 1) + 1]
                cur = Block(unq(nm))
                blocks.append(cur)
                continue
            if cur.name is None:
                # an unlabelled entry block takes the number after the unnamed parameters
                cur = Block(str(sum(1 for _, nm in self.params if nm.lstrip('%').isdigit())))
                blocks.append(cur)
            if not buf_done(s):
                buf = s
                continue
            if is_skip(s) or s == 'cleanup' or s.startswith(('catch ', 'filter ')):
                continue
            cur.ins.append(parse_ins(s))
        self.blocks = blocks
        for i, b in enumerate(blocks):
            b.idx = i
        self.byname = {b.name: b.idx for b in blocks}


def is_skip(s):
    if 'call void @llvm.' in s:
        return ('@llvm.lifetime.' in s or '@llvm.experimental.noalias' in s or '@llvm.dbg.' in s or '@llvm.assume' in s
                or '@llvm.invariant' in s)
    return s.startswith('#dbg')


def buf_done(s):
    if s.startswith('switch ') or ' switch ' in s[:10]:
        return s.count('[') == s.count(']')
    if 'invoke ' in s[:40] or '= invoke' in s:
        return 'unwind label' in s
    if ' landingpad' in s or s.startswith('landingpad'):
        return True
    if s in ('cleanup',) or s.startswith('catch ') or s.startswith('filter '):
        return True
    return True


DEF = re.compile(r'^(define|declare)\b')


class Module:
    def __init__(self, path):
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.aliases = {}
        self.attrs = {}
        txt = open(path, encoding='latin-1').read().split('\n')
        i = 0
        n = len(txt)
        while i < n:
            l = txt[i]
            c = l[:1]
            if c == '@':
                m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)$', l)
                self.globals[unq(m.group(1))] = m.group(2)
            elif c == 'd' and DEF.match(l):
                j = i
                if l.startswith('define'):
                    while txt[j] != '}':
                        j += 1
                    self.add_fn(l, txt[i + 1:j])
                    i = j
                else:
                    self.add_fn(l, None)
            elif c == 'a' and l.startswith('attributes #'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
                self.attrs[m.group(1)] = m.group(2)
            i += 1
        for f in list(self.funcs.values()) + list(self.decls.values()):
            a = ''
            for x in f.attrgroups:
                a += ' ' + self.attrs.get(x, '')
            f.noreturn = ' noreturn ' in ' ' + a + ' '
            f.cold = ' cold ' in ' ' + a + ' '

    def add_fn(self, l, body):
        s = l
        # header up to the name
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', s)
        name = unq(m.group(1))
        pre = s[:m.start()]
        ob = s[m.end() - 1:]
        # find matching paren
        d = 0
        q = False
        for k, ch in enumerate(ob):
            if ch == '"':
                q = not q
            if q:
                continue
            if ch == '(':
                d += 1
            elif ch == ')':
                d -= 1
                if d == 0:
                    break
        args = ob[1:k]
        rest = ob[k + 1:]
        # return type: last type in pre
        toks = tokenize(pre)
        p = P(toks)
        p.next()
        rty = None
        while p.i < len(toks):
            x = p.peek()
            if x in ATTRP and p.peek(1) == '(':
                p.next()
                p.skip_paren()
                continue
            if x == 'align':
                p.next(); p.next()
                continue
            if x in ('ptr', 'float', 'double', 'void', '[', '<', '{') or (x[0] == 'i' and x[1:].isdigit()):
                rty = p.type()
                continue
            p.next()
        params = []
        if args.strip():
            p = P(tokenize(args))
            while True:
                if p.eat('...'):
                    break
                t = p.type()
                p.attrs()
                nm = None
                if p.peek() and p.peek()[0] == '%':
                    nm = unq(p.next()[1:])
                elif t is META:
                    pass
                params.append((t, nm))
                if not p.eat(','):
                    break
            if body is not None and any(nm is None for _, nm in params):
                raise ParseError('params ' + name)
        f = Function(name, params, rty, body, False, False)
        f.attrgroups = re.findall(r'#\d+', rest.split('{')[0])
        (self.funcs if body is not None else self.decls)[name] = f
