"""IR functions -> Python block functions."""
import math
import ir
from ir import ParseError
from terms import Unsupported

SWAP_LOCALS = True


class CFun:
    """Compiled function."""

    def __init__(self, f, rt):
        self.f = f
        self.name = f.name
        self.rt = rt
        self.code = None
        self._live = None
        self._ipd = None
        self.visited = set()

    def compile(self):
        f = self.f
        f.parse()
        self.g = Gen(self, self.rt)
        self.g.gen()
        self.code = self.g.code
        self.nregs = self.g.nregs
        self.pregs = self.g.pregs

    # -------------------------------------------------- analyses for merging
    def succs(self):
        out = []
        for b in self.f.blocks:
            t = b.ins[-1]
            if t.op == 'br':
                out.append([self.f.byname[x] for x in t.x])
            elif t.op == 'switch':
                out.append([self.f.byname[x[1]] for x in t.x[0]] + [self.f.byname[t.x[1]]])
            elif t.op == 'invoke':
                out.append([self.f.byname[t.x[1][0]]])
            else:
                out.append([])
        return out

    def ipdom(self):
        """immediate postdominator of each block; n = virtual exit; blocks that cannot return are ignored"""
        if self._ipd is not None:
            return self._ipd
        n = len(self.f.blocks)
        su = self.succs()
        ret = [b.ins[-1].op == 'ret' for b in self.f.blocks]
        # blocks that call noreturn functions never reach their terminator
        dead = [False] * n
        for b in self.f.blocks:
            for i in b.ins:
                if i.op in ('call', 'invoke') and i.x[0][0] == 'g' and self.rt.is_noreturn(i.x[0][1]):
                    dead[b.idx] = True
        pred = [[] for _ in range(n + 1)]
        for i in range(n):
            if dead[i]:
                su[i] = []
                ret[i] = False
            if ret[i]:
                su[i] = [n]
            for s in su[i]:
                pred[s].append(i)
        # reaches exit
        reach = set()
        st = [n]
        while st:
            x = st.pop()
            if x in reach:
                continue
            reach.add(x)
            st += pred[x]
        # reverse postorder from exit on the reverse graph
        order = []
        seen = set()
        stack = [(n, iter(pred[n]))]
        seen.add(n)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(pred[y])))
                    break
            else:
                order.append(x)
                stack.pop()
        order.reverse()
        pos = {x: i for i, x in enumerate(order)}
        ipd = [None] * (n + 1)
        ipd[n] = n
        ch = True
        while ch:
            ch = False
            for x in order:
                if x == n:
                    continue
                new = None
                for s in su[x]:
                    if s in pos and ipd[s] is not None:
                        if new is None:
                            new = s
                        else:
                            a, b = new, s
                            while a != b:
                                while pos[a] > pos[b]:
                                    a = ipd[a]
                                while pos[b] > pos[a]:
                                    b = ipd[b]
                            new = a
                if new != ipd[x]:
                    ipd[x] = new
                    ch = True
        self._ipd = ipd
        return ipd

    def live(self, blk):
        """registers read in blocks reachable from blk before being redefined (phi results of blk included)"""
        if self._live is None:
            g = self.g
            n = len(self.f.blocks)
            use = g.buse
            deff = g.bdef
            su = self.succs()
            li = [set() for _ in range(n)]
            ch = True
            while ch:
                ch = False
                for i in range(n - 1, -1, -1):
                    o = set()
                    for s in su[i]:
                        o |= li[s] - g.phis[s]
                    o |= g.phiuse_out(i)
                    new = use[i] | (o - deff[i]) | g.phis[i]
                    if new != li[i]:
                        li[i] = new
                        ch = True
            self._live = li
        return self._live[blk]


class Gen:
    def __init__(self, cf, rt):
        self.cf = cf
        self.f = cf.f
        self.rt = rt
        self.consts = {}
        self.env = dict(rt.env)

    def gen(self):
        f = self.f
        byname = f.byname
        # where values are defined and used
        defb = {}
        self.ty = {}
        for t, nm in f.params:
            defb[nm] = -1
            self.ty[nm] = t
        isphi = set()
        for b in f.blocks:
            for i in b.ins:
                if i.res is not None:
                    defb[i.res] = b.idx
                    self.ty[i.res] = i.ty
                    if i.op == 'phi':
                        isphi.add(i.res)
        cross = set(isphi)
        cross.update(nm for _, nm in f.params)
        uses = [set() for _ in f.blocks]
        for b in f.blocks:
            for i in b.ins:
                if i.op == 'phi':
                    for pb, v in i.x:
                        for nm in names(v):
                            p = byname.get(pb)
                            if p is None:
                                continue
                            uses[p].add(nm)
                            if defb.get(nm) != p:
                                cross.add(nm)
                    continue
                ops = list(i.a)
                for t, v in ops:
                    for nm in names(v):
                        uses[b.idx].add(nm)
                        if defb.get(nm) != b.idx:
                            cross.add(nm)
                if i.op in ('call', 'invoke') and i.x[0][0] == 'l':
                    nm = i.x[0][1]
                    uses[b.idx].add(nm)
                    if defb.get(nm) != b.idx:
                        cross.add(nm)
        # quotients used by one selection of the same block only
        self.lazy = set(i.res for b in f.blocks for i in b.ins if i.op == 'fdiv' and i.ty.k == 'double' and i.res not in cross)
        if self.lazy:
            for b in f.blocks:
                for i in b.ins:
                    if i.op == 'phi':
                        for pb, v in i.x:
                            self.lazy.difference_update(names(v))
                        continue
                    for k, (ty, v) in enumerate(i.a):
                        if i.op == 'select' and k > 0 and i.a[0][0].k != 'vec':
                            continue
                        self.lazy.difference_update(names(v))
        self.reg = {}
        k = 2
        for nm in defb:
            if nm in cross:
                self.reg[nm] = k
                k += 1
        self.nregs = k
        self.rtype = [None] * k
        for nm, r in self.reg.items():
            self.rtype[r] = self.ty[nm]
        self.pregs = [self.reg[nm] for _, nm in f.params]
        self.defb = defb
        self.phis = [set() for _ in f.blocks]
        self.bdef = [set() for _ in f.blocks]
        self.buse = [set() for _ in f.blocks]
        self.uses = uses
        for b in f.blocks:
            for i in b.ins:
                if i.res in self.reg:
                    (self.phis if i.op == 'phi' else self.bdef)[b.idx].add(self.reg[i.res])
            for nm in uses[b.idx]:
                if nm in self.reg and not (defb[nm] == b.idx and nm not in isphi):
                    self.buse[b.idx].add(self.reg[nm])
        self.loc = {}
        src = []
        for b in f.blocks:
            src += self.block(b)
        src.append('CODE=[%s]' % ','.join('b%d' % b.idx for b in f.blocks))
        text = '\n'.join(src)
        self.text = text
        ns = self.env
        ns.update(self.consts)
        exec(compile(text, '<%s>' % f.name[-60:], 'exec'), ns)
        self.code = ns['CODE']

    def phiuse_out(self, i):
        return set()     # phi operands are read by the predecessor's terminator: counted in buse

    def const(self, v):
        if v.__class__ is int:
            return repr(v)
        if v.__class__ is float:
            if v != v:
                return 'NAN'
            if v == math.inf:
                return 'INF'
            if v == -math.inf:
                return '(-INF)'
            return repr(v)
        k = 'K%d' % len(self.consts)
        self.consts[k] = v
        return k

    def val(self, v):
        k = v[0]
        if k == 'l':
            nm = v[1]
            x = self.cur.get(nm)
            if x is None:
                r = self.reg[nm]
                x = 'r%d' % r
                self.cur[nm] = x
                self.pre.append('%s=R[%d]' % (x, r))
            return x
        if k == 'c':
            return self.const(v[1])
        if k == 'g':
            return repr(self.rt.symaddr(v[1]) + v[2])
        if k == 'vec':
            if all(x[0] == 'c' for x in v[1]):
                return self.const(tuple(x[1] for x in v[1]))
            return '(%s,)' % ','.join(self.val(x) for x in v[1])
        if k in ('trunc', 'bin'):
            return repr(self.rt.constexpr(v))
        raise Unsupported('operand %r' % (v,))

    # -------------------------------------------------- blocks
    def block(self, b):
        self.cur = {}
        self.pre = []
        lines = []
        self.lines = lines
        self.b = b
        for i in b.ins:
            self.pre = []
            self.ins(i)
        self.pre = []
        body = ['def b%d(R):' % b.idx]
        # prologue loads are interleaved (pre is flushed by emit)
        for l in lines:
            body.append(' ' + l)
        if not lines:
            body.append(' pass')
        return body

    def emit(self, s):
        if self.pre:
            self.lines += self.pre
            self.pre = []
        self.lines.append(s)

    def setres(self, i, e):
        if i.res is None:
            self.emit(e)
            return
        n = 'v%d' % len(self.loc)
        self.loc[i.res] = n
        self.cur[i.res] = n
        r = self.reg.get(i.res)
        if r is not None:
            self.emit('%s=R[%d]=%s' % (n, r, e))
        else:
            self.emit('%s=%s' % (n, e))

    def moves(self, tgt):
        """(register list, value expressions) for the edge to block tgt"""
        rs, vs = [], []
        for i in self.f.blocks[tgt].ins:
            if i.op != 'phi':
                break
            for pb, v in i.x:
                if self.f.byname.get(pb) == self.b.idx:
                    rs.append(self.reg[i.res])
                    vs.append(self.val(v))
                    break
        return rs, vs

    def goto(self, tgt, ind=''):
        rs, vs = self.moves(tgt)
        if rs:
            self.emit(ind + '%s=%s' % (','.join('R[%d]' % r for r in rs), ','.join(vs)))
        self.emit(ind + 'return %d' % tgt)

    def atom(self, e):
        """make sure an expression is a simple name"""
        if e.isidentifier() or e.lstrip('-').replace('.', '', 1).isdigit():
            return e
        n = 't%d' % len(self.lines)
        self.emit('%s=%s' % (n, e))
        return n

    def vmap(self, ty, fn, *ops):
        """apply a scalar expression builder elementwise when ty is a vector"""
        if ty.k != 'vec':
            return fn(*ops)
        ns = ['x', 'y', 'z'][:len(ops)]
        e = fn(*ns)
        if len(ops) == 1:
            return 'tuple([%s for x in %s])' % (e, ops[0])
        return 'tuple([%s for %s in zip(%s)])' % (e, ','.join(ns), ','.join(ops))

    def ins(self, i):
        op = i.op
        if op == 'phi':
            return
        m = getattr(self, 'i_' + op, None)
        if m is not None:
            return m(i)
        if op in ir.BINOPS:
            t = i.ty
            a = self.val(i.a[0][1])
            b = self.val(i.a[1][1])
            et = t.e if t.k == 'vec' else t
            if op == 'fdiv' and i.res in self.lazy:
                return self.setres(i, 'F_ldiv(%s,%s)' % (a, b))
            return self.setres(i, self.vmap(t, lambda x, y: self.bin(op, et, x, y, i.x), a, b))
        if op in ir.CASTS:
            return self.cast(i)
        raise Unsupported('op ' + op)

    def bin(self, op, t, a, b, fl):
        if t.k == 'int':
            w = t.n
            M = (1 << w) - 1
            if op == 'add':
                return '(%s+%s)&%d' % (a, b, M)
            if op == 'sub':
                return '(%s-%s)&%d' % (a, b, M)
            if op == 'mul':
                return '(%s*%s)&%d' % (a, b, M)
            if op == 'and':
                return '%s&%s' % (a, b) if w == 1 or b.isdigit() or a.isdigit() else 'I_and(%s,%s,%d)' % (a, b, w)
            if op == 'or':
                return 'I_or(%s,%s,%d,%s)' % (a, b, w, 'disjoint' in fl)
            if op == 'lshr' and b.isdigit():
                return '%s>>%s' % (a, b)
            return 'I_%s(%s,%s,%d)' % (op, a, b, w)
        if t.k == 'double':
            if op == 'fadd':
                return '%s+%s' % (a, b)
            if op == 'fsub':
                return '%s-%s' % (a, b)
            if op == 'fmul':
                return '%s*%s' % (a, b)
            return {'fdiv': 'F_div', 'frem': 'F_rem'}[op] + '(%s,%s)' % (a, b)
        if op == 'fadd':
            return 'r32(%s+%s)' % (a, b)
        if op == 'fsub':
            return 'r32(%s-%s)' % (a, b)
        if op == 'fmul':
            return 'r32(%s*%s)' % (a, b)
        return 'r32(%s(%s,%s))' % ({'fdiv': 'F_div', 'frem': 'F_rem'}[op], a, b)

    def i_fneg(self, i):
        self.setres(i, self.vmap(i.ty, lambda x: '-' + x, self.val(i.a[0][1])))

    def i_icmp(self, i):
        t = i.a[0][0]
        a = self.val(i.a[0][1])
        b = self.val(i.a[1][1])
        et = t.e if t.k == 'vec' else t
        w = et.n if et.k == 'int' else 64
        pred = i.x
        ops = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}

        def one(x, y):
            g = 'I_cmp(%r,%s,%s,%d)' % (pred, x, y, w)
            ck = []
            for z in (x, y):
                if not z.isdigit():
                    ck.append('%s.__class__ is int' % z)
            if pred in ops:
                c = '(1 if %s%s%s else 0)' % (x, ops[pred], y)
            else:
                H = 1 << (w - 1)
                xx = str(int(x) ^ H) if x.isdigit() else '(%s^%d)' % (x, H)
                yy = str(int(y) ^ H) if y.isdigit() else '(%s^%d)' % (y, H)
                c = '(1 if %s%s%s else 0)' % (xx, ops['u' + pred[1:]], yy)
            if not ck:
                return g
            return '%s if %s else %s' % (c, ' and '.join(ck), g)
        self.setres(i, self.vmap(t, one, a, b))

    def i_fcmp(self, i):
        t = i.a[0][0]
        self.setres(i, self.vmap(t, lambda x, y: 'F_cmp(%r,%s,%s)' % (i.x, x, y), self.val(i.a[0][1]), self.val(i.a[1][1])))

    def i_select(self, i):
        ct = i.a[0][0]
        c = self.val(i.a[0][1])
        a = self.val(i.a[1][1])
        b = self.val(i.a[2][1])
        t = i.ty
        w = t.n if t.k == 'int' else 64
        if ct.k == 'vec':
            et = t.e
            w = et.n if et.k == 'int' else 64
            self.setres(i, 'tuple([SEL(x,y,z,%d) for x,y,z in zip(%s,%s,%s)])' % (w, c, a, b))
        else:
            if t.k == 'double':
                return self.setres(i, 'SEL(%s,%s,%s,%d)' % (c, a, b, w))
            self.setres(i, '(%s if %s else %s) if (%s).__class__ is int else SEL(%s,%s,%s,%d)' % (a, c, b, c, c, a, b, w))

    def i_freeze(self, i):
        self.setres(i, self.val(i.a[0][1]))

    def cast(self, i):
        op = i.op
        t0, v = i.a[0]
        a = self.val(v)
        t = i.ty
        e0 = t0.e if t0.k == 'vec' else t0
        e1 = t.e if t.k == 'vec' else t
        if op in ('ptrtoint', 'inttoptr', 'ptrtoaddr', 'addrspacecast'):
            w0 = e0.n if e0.k == 'int' else 64
            w1 = e1.n if e1.k == 'int' else 64
            if w0 == w1:
                return self.setres(i, a)
            if w1 < w0:
                return self.setres(i, 'I_trunc(%s,%d,%d)' % (a, w0, w1))
            return self.setres(i, 'I_zext(%s,%d,%d)' % (a, w0, w1))
        if op == 'bitcast':
            if t0.k == 'vec' and t.k == 'vec' and t0.n == t.n:
                return self.setres(i, self.vmap(t, lambda x: self.bc(e0, e1, x), a))
            if t0.k == 'vec' or t.k == 'vec':
                return self.setres(i, 'vbitcast(%s,%s,%s)' % (a, self.const(tinfo(t0)), self.const(tinfo(t))))
            return self.setres(i, self.bc(e0, e1, a))
        if op == 'trunc':
            fn = lambda x: '%s&%d if (%s).__class__ is int else I_trunc(%s,%d,%d)' % (x, (1 << e1.n) - 1, x, x, e0.n, e1.n)
        elif op == 'zext':
            fn = lambda x: '%s if (%s).__class__ is int else I_zext(%s,%d,%d)' % (x, x, x, e0.n, e1.n)
        elif op == 'sext':
            fn = lambda x: 'I_sext(%s,%d,%d)' % (x, e0.n, e1.n)
        elif op in ('uitofp', 'sitofp'):
            fn = lambda x: 'I2F(%s,%d,%s,%s)' % (x, e0.n, op == 'sitofp', e1.k == 'float')
        elif op in ('fptoui', 'fptosi'):
            fn = lambda x: 'F2I(%s,%d,%s)' % (x, e1.n, op == 'fptosi')
        elif op == 'fpext':
            fn = lambda x: x
        elif op == 'fptrunc':
            fn = lambda x: 'r32(%s)' % x
        else:
            raise Unsupported(op)
        self.setres(i, self.vmap(t, fn, a))

    def bc(self, e0, e1, x):
        f0 = e0.k in ('float', 'double')
        f1 = e1.k in ('float', 'double')
        if f0 and not f1:
            return 'bits_of(%s,%d)' % (x, e1.n if e1.k == 'int' else 64)
        if f1 and not f0:
            return 'from_bits(%s,%d)' % (x, e0.n if e0.k == 'int' else 64)
        return x

    # -------------------------------------------------- memory
    def i_alloca(self, i):
        t = i.x
        n = ir.asize(t)
        if i.a:
            c = self.val(i.a[0][1])
            self.setres(i, 'ALLOCA(%d*%s)' % (n, c))
        else:
            self.setres(i, 'ALLOCA(%d)' % n)

    def ldexpr(self, t, p):
        if t.k == 'int':
            e = 'LD(%s,%d)' % (p, t.size)
            return e + '&%d' % ((1 << t.n) - 1) if t.n != t.size * 8 else e
        if t.k == 'ptr':
            return 'LD(%s,8)' % p
        if t.k == 'float':
            return 'LDF(%s,4)' % p
        if t.k == 'double':
            return 'LDF(%s,8)' % p
        if t.k in ('vec', 'arr'):
            e = t.e
            s = ir.asize(e)
            if e.k == 'int' and e.n % 8:
                raise Unsupported('load of packed vector')
            return 'tuple([%s for k in range(%d)])' % (self.ldexpr(e, '(%s+k*%d)&%d' % (p, s, 2 ** 64 - 1)), t.n)
        if t.k == 'struct':
            return '(%s,)' % ','.join(self.ldexpr(e, '(%s+%d)' % (p, o)) for e, o in zip(t.e, t.offsets()))
        raise Unsupported('load %r' % t)

    def i_load(self, i):
        p = self.atom(self.val(i.a[0][1]))
        self.setres(i, self.ldexpr(i.ty, p))

    def stlines(self, t, p, v):
        if t.k == 'int':
            return ['ST(%s,%s,%d)' % (p, v, t.size)]
        if t.k == 'ptr':
            return ['ST(%s,%s,8)' % (p, v)]
        if t.k == 'float':
            return ['STF(%s,%s,4)' % (p, v)]
        if t.k == 'double':
            return ['STF(%s,%s,8)' % (p, v)]
        if t.k in ('vec', 'arr'):
            s = ir.asize(t.e)
            if t.e.k == 'int' and t.e.n % 8:
                raise Unsupported('store of packed vector')
            fn = 'STF' if t.e.k in ('float', 'double') else 'ST'
            if t.e.k in ('vec', 'arr', 'struct'):
                raise Unsupported('store nested')
            return ['for k,x in enumerate(%s): %s(%s+k*%d,x,%d)' % (v, fn, p, s, t.e.size)]
        if t.k == 'struct':
            out = []
            for k, (e, o) in enumerate(zip(t.e, t.offsets())):
                out += self.stlines(e, '(%s+%d)' % (p, o), '%s[%d]' % (v, k))
            return out
        raise Unsupported('store %r' % t)

    def i_store(self, i):
        t, v = i.a[0]
        v = self.val(v)
        p = self.atom(self.val(i.a[1][1]))
        if t.k == 'struct' and not v.isidentifier():
            v = self.atom(v)
        for l in self.stlines(t, p, v):
            self.emit(l)

    def i_getelementptr(self, i):
        pt, base = i.a[0]
        st = i.x
        if pt.k == 'vec' or any(t.k == 'vec' for t, _ in i.a):
            raise Unsupported('vector gep')
        e = self.val(base)
        terms = []
        const = 0
        t = st
        for k, (it, v) in enumerate(i.a[1:]):
            if k == 0:
                sc = ir.asize(t)
            elif t.k == 'struct':
                n = v[1]
                const += t.offsets()[n]
                t = t.e[n]
                continue
            else:
                t = t.e
                sc = ir.asize(t)
            if v[0] == 'c':
                n = v[1]
                if n >> (it.n - 1):
                    n -= 1 << it.n
                const += n * sc
            else:
                x = self.val(v)
                if it.n != 64:
                    x = 'I_sext(%s,%d,64)' % (x, it.n)
                terms.append(x if sc == 1 else '%s*%d' % (x, sc))
        ex = '+'.join([e] + terms)
        if const:
            ex += '+%d' % (const & (2 ** 64 - 1)) if const > 0 else '-%d' % (-const)
        if terms or const:
            ex = '(%s)&%d' % (ex, 2 ** 64 - 1)
        self.setres(i, ex)

    # -------------------------------------------------- aggregates
    def i_extractvalue(self, i):
        self.setres(i, self.val(i.a[0][1]) + ''.join('[%d]' % k for k in i.x))

    def i_insertvalue(self, i):
        a = self.atom(self.val(i.a[0][1]))
        v = self.val(i.a[1][1])
        if len(i.x) != 1:
            self.setres(i, 'insv(%s,%s,%s)' % (a, v, self.const(tuple(i.x))))
        else:
            k = i.x[0]
            self.setres(i, '%s[:%d]+(%s,)+%s[%d:]' % (a, k, v, a, k + 1))

    def i_extractelement(self, i):
        self.setres(i, '%s[%s]' % (self.val(i.a[0][1]), self.val(i.a[1][1])))

    def i_insertelement(self, i):
        a = self.atom(self.val(i.a[0][1]))
        v = self.val(i.a[1][1])
        k = self.val(i.a[2][1])
        self.setres(i, 'insv(%s,%s,(%s,))' % (a, v, k))

    def i_shufflevector(self, i):
        a = self.atom(self.val(i.a[0][1]))
        b = self.atom(self.val(i.a[1][1]))
        n = i.a[0][0].n
        self.setres(i, '(%s,)' % ','.join('%s[%d]' % (a, k) if k < n else '%s[%d]' % (b, k - n) for k in i.x))

    # -------------------------------------------------- atomics
    def i_atomicrmw(self, i):
        p = self.atom(self.val(i.a[0][1]))
        v = self.val(i.a[1][1])
        t = i.ty
        w = t.n if t.k == 'int' else 64
        self.setres(i, 'RMW(%r,%s,%s,%d)' % (i.x, p, v, w))

    def i_cmpxchg(self, i):
        p = self.atom(self.val(i.a[0][1]))
        t = i.a[1][0]
        w = t.n if t.k == 'int' else 64
        self.setres(i, 'CMPXCHG(%s,%s,%s,%d)' % (p, self.val(i.a[1][1]), self.val(i.a[2][1]), w))

    def i_fence(self, i):
        pass

    def i_landingpad(self, i):
        self.setres(i, 'PANIC("landing pad")')

    def i_resume(self, i):
        self.emit('PANIC("resume")')

    def i_unreachable(self, i):
        self.emit('PANIC("unreachable code reached in %s")' % self.f.name[-60:].replace('"', ''))

    # -------------------------------------------------- control
    def i_ret(self, i):
        if i.a:
            self.emit('R[0]=%s' % self.val(i.a[0][1]))
        self.emit('return -1')

    def i_br(self, i):
        by = self.f.byname
        if not i.a:
            return self.goto(by[i.x[0]])
        c = self.val(i.a[0][1])
        T, E = by[i.x[0]], by[i.x[1]]
        rt, vt = self.moves(T)
        re, ve = self.moves(E)
        if c.isdigit():
            return self.goto(T if int(c) else E)
        self.emit('if %s.__class__ is int:' % c)
        self.emit(' if %s:' % c)
        self.goto(T, '  ')
        self.goto(E, ' ')
        self.emit('R[1]=(%s,%d,%s,(%s),%d,%s,(%s),%d)' % (
            c, T, tuple(rt), ''.join(v + ',' for v in vt), E, tuple(re), ''.join(v + ',' for v in ve), self.b.idx))
        self.emit('return -2')

    def i_switch(self, i):
        by = self.f.byname
        c = self.val(i.a[0][1])
        cs, d = i.x
        # load everything needed by the edges first
        eds = {}
        for v, l in list(cs) + [(None, d)]:
            eds[by[l]] = self.moves(by[l])
        self.emit('if %s.__class__ is int:' % c)
        if any(r for r, _ in eds.values()):
            for k, (v, l) in enumerate(cs):
                self.emit(' if %s==%d:' % (c, v))
                self.goto(by[l], '  ')
            self.goto(by[d], ' ')
        else:
            self.emit(' return %s.get(%s,%d)' % (self.const({v: by[l] for v, l in cs}), c, by[d]))
        ents = []
        for v, l in list(cs) + [(None, d)]:
            rs, vs = eds[by[l]]
            ents.append('(%r,%d,%s,(%s))' % (v, by[l], tuple(rs), ''.join(x + ',' for x in vs)))
        self.emit('R[1]=(%s,(%s,),%d,%d)' % (c, ','.join(ents), self.b.idx, i.a[0][0].n))
        self.emit('return -3')

    # -------------------------------------------------- calls
    def i_invoke(self, i):
        self.i_call(i)
        self.goto(self.f.byname[i.x[1][0]])

    def i_call(self, i):
        callee = i.x[0]
        if callee[0] == 'asm':
            args = [self.val(v) for t, v in i.a]
            return self.setres(i, 'ASM(%r,(%s))' % (callee[1], ''.join(a + ',' for a in args)))
        if callee[0] == 'l':
            p = self.val(callee)
            args = [self.val(v) for t, v in i.a]
            return self.setres(i, 'ICALL(%s,(%s))' % (p, ''.join(a + ',' for a in args)))
        name = callee[1]
        if name.startswith('llvm.'):
            if name.startswith(('llvm.assume', 'llvm.lifetime', 'llvm.experimental.noalias', 'llvm.dbg', 'llvm.prefetch')):
                return
            args = [self.val(v) for t, v in i.a]
            return self.setres(i, self.intrinsic(name, i, args))
        args = [self.val(v) for t, v in i.a]
        r = self.rt.resolve(name)
        k = 'C%d' % len(self.consts)
        self.consts[k] = r
        if r.__class__ is CFun:
            self.setres(i, 'CALL(%s,(%s))' % (k, ''.join(a + ',' for a in args)))
        else:
            self.setres(i, '%s(%s)' % (k, ','.join(args)))

    def intrinsic(self, name, i, a):
        p = name.split('.')
        n = p[1]
        t = i.ty
        et = t.e if t.k == 'vec' else t
        w = et.n if et.k == 'int' else 64
        if n in ('umin', 'umax', 'smin', 'smax'):
            return self.vmap(t, lambda x, y: 'I_minmax(%r,%s,%s,%d)' % (n, x, y, w), *a)
        if n == 'abs':
            return self.vmap(t, lambda x: 'I_abs(%s,%d)' % (x, w), a[0])
        if len(p) > 3 and p[2] == 'with' and p[3] == 'overflow':
            w = i.a[0][0].n
            return 'I_ovf(%r,%s,%s,%d)' % (n, a[0], a[1], w)
        if n in ('usub', 'uadd', 'ssub', 'sadd') and p[2] == 'sat':
            return self.vmap(t, lambda x, y: 'I_sat(%r,%s,%s,%d)' % (n, x, y, w), *a)
        if n in ('memcpy', 'memmove'):
            return 'MEMCPY(%s,%s,%s)' % tuple(a[:3])
        if n == 'memset':
            return 'MEMSET(%s,%s,%s)' % tuple(a[:3])
        if n in ('log10', 'log', 'log2', 'sqrt', 'exp', 'exp2', 'sin', 'cos', 'tan', 'floor', 'ceil', 'trunc', 'round', 'rint',
                 'nearbyint', 'roundeven', 'fabs'):
            f32 = et.k == 'float'
            return self.vmap(t, lambda x: ('r32(F_%s(%s))' if f32 else 'F_%s(%s)') % (n, x), a[0])
        if n in ('pow', 'powi', 'copysign', 'minnum', 'maxnum', 'minimumnum', 'maximumnum', 'minimum', 'maximum'):
            f32 = et.k == 'float'
            fn = {'minnum': 'min', 'maxnum': 'max', 'minimumnum': 'min', 'maximumnum': 'max', 'minimum': 'min',
                  'maximum': 'max'}.get(n, n)
            return self.vmap(t, lambda x, y: ('r32(F_%s(%s,%s))' if f32 else 'F_%s(%s,%s)') % (fn, x, y), a[0], a[1])
        if n in ('fma', 'fmuladd'):
            return self.vmap(t, lambda x, y, z: '%s*%s+%s' % (x, y, z), *a[:3])
        if n in ('fptoui', 'fptosi'):
            return self.vmap(t, lambda x: 'F2I(%s,%d,%s)' % (x, w, n == 'fptosi'), a[0])
        if n in ('ctpop', 'ctlz', 'cttz', 'bswap', 'bitreverse'):
            return self.vmap(t, lambda x: 'I_%s(%s,%d)' % (n, x, w), a[0])
        if n in ('fshl', 'fshr'):
            return 'I_%s(%s,%s,%s,%d)' % (n, a[0], a[1], a[2], w)
        if n == 'is' and p[2] == 'constant':
            return '0'
        if n in ('expect',):
            return a[0]
        if n in ('ucmp', 'scmp'):
            return 'I_3cmp(%r,%s,%s,%d)' % (n, a[0], a[1], i.a[0][0].n)
        if n == 'trap' or n == 'ubsantrap':
            return 'PANIC("trap")'
        if n == 'threadlocal':
            return a[0]
        if n == 'load' and p[2] == 'relative':
            return 'LDREL(%s,%s)' % (a[0], a[1])
        if n == 'x86':
            s = '.'.join(p[2:])
            if s == 'sse2.pause':
                return 'None'
            if s == 'xgetbv':
                return '7'
            if s in ('avx2.permps', 'avx2.permd'):
                return 'V_perm(%s,%s)' % (a[0], a[1])
            if s in ('avx.cmp.ps.256', 'sse.cmp.ps'):
                return 'V_cmpps(%s,%s,%s)' % tuple(a)
            if s in ('avx.rcp.ps.256',):
                return 'tuple([F_div(1.0,x) for x in %s])' % a[0]
            if s in ('avx.rsqrt.ps.256',):
                return 'tuple([F_div(1.0,F_sqrt(x)) for x in %s])' % a[0]
            if s in ('avx.max.ps.256', 'sse.max.ps'):
                return 'tuple([F_max(x,y) for x,y in zip(%s,%s)])' % (a[0], a[1])
            if s in ('avx.min.ps.256', 'sse.min.ps'):
                return 'tuple([F_min(x,y) for x,y in zip(%s,%s)])' % (a[0], a[1])
        if n == 'vector' and p[2] == 'reduce':
            return 'V_reduce(%r,%s,%d)' % (p[3], ','.join(a), w)
        raise Unsupported('intrinsic ' + name)


def tinfo(t):
    """(element kind, element bits, count)"""
    if t.k == 'vec':
        return (t.e.k, t.e.n if t.e.k == 'int' else t.e.size * 8, t.n)
    return (t.k, t.n if t.k == 'int' else t.size * 8, 1)


def names(v):
    k = v[0]
    if k == 'l':
        return [v[1]]
    if k == 'vec':
        r = []
        for x in v[1]:
            r += names(x)
        return r
    return []
