"""Runtime of the symbolic executor: memory, branches, merging, forking, threads, obligations."""
import math
import random
import sys
import threading
import time
import ir
import terms as t
import lemmas
import search
import val
from comp import CFun
from terms import F, Poly, Unsupported, Undecided, pconst, padd, psub, pmul, pscale, paddc
from val import *       # noqa
from val import SInt, SFlt, FMask, NeedFork, mk, mkf, U, S, FP, I_cmp, merge, same, is_f

M64 = (1 << 64) - 1
OFFM = 0xffffffff


class Panic(Exception):
    pass


class PathDone(Exception):
    """This path ends (assumption false, or a violation was recorded)."""


class Halt(BaseException):
    """Stop a simulated thread (end of the run)."""


class Obj:
    __slots__ = ('data', 'sym', 'name', 'dead', 'ro')

    def __init__(self, n, name=''):
        self.data = bytearray(n)
        self.sym = {}
        self.name = name
        self.dead = False
        self.ro = False


class Log:
    __slots__ = ('snap', 'writes')

    def __init__(self):
        self.snap = {}
        self.writes = {}


class Violation:
    def __init__(self, kind, tag, envs, note):
        self.kind = kind
        self.tag = tag
        self.envs = envs
        self.note = note


class Thread:
    def __init__(self, tid):
        self.tid = tid
        self.ev = threading.Semaphore(0)
        self.state = 'run'       # run, blocked, done
        self.poked = False
        self.th = None


def mix(*a):
    h = 0x9e3779b97f4a7c15
    for x in a:
        h ^= (x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)) & M64
        h = (h * 0xff51afd7ed558ccd) & M64
        h ^= h >> 33
    return h


class PoolEnv(dict):
    """inputs drawn by name, so that every input ever made has a value; atoms are cached as they are evaluated"""

    def __init__(self, seed, k):
        self.seed = seed
        self.k = k

    def __missing__(self, a):
        T = t.T
        if T.kind[a] != 'in':
            raise KeyError(a)
        nm = T.name[a].split('_')
        if nm[0] == 'f':
            f, i = int(nm[1]), int(nm[2])
        else:
            f, i = -1, int(nm[1])
        lo, hi = T.lo[a], T.hi[a]
        v = self[a] = lo + self.pick(f, i, hi - lo)
        return v

    def pick(self, f, i, n):
        k, s = self.k, self.seed
        h = mix(s, k, f + 7, i)
        if f < 0:
            return (0, n, n // 2)[k] if k < 3 else h % (n + 1)
        if k == 0:
            return 0
        if k == 1:
            return n
        if k == 2:
            return n // 2
        st = k % 8 if k < 40 else k % 12
        g = mix(s, k)
        if st == 8:                      # flat, very few samples differ by one
            return max(0, min(n, g % (n + 1) + (h % 40 == 0)))
        if st == 9:                      # equal rows, very few samples differ by one
            return max(0, min(n, mix(s, k, i) % (n + 1) + (h % 40 == 0)))
        if st == 10:                     # two values per plane
            return mix(s, k, f % 11, h & 1) % (n + 1)
        if st == 11:
            return (0, 1, n - 1, n, n // 2, h % (n + 1))[(h >> 20) % 6]
        if st == 0:
            return h % (n + 1)
        if st == 1:                      # equal rows, hence equal images
            return mix(s, k, i) % (n + 1)
        if st == 2:                      # flat, a few samples differ
            return g % (n + 1) if h % 50 else (h >> 8) % (n + 1)
        if st == 3:
            return n if h & 64 else 0
        if st == 4:
            return max(0, min(n, g % (n + 1) + (h >> 9) % 5 - 2))
        if st == 5:                      # every row flat
            return mix(s, k, f) % (n + 1)
        if st == 6:
            return 0 if (h >> 7) % 40 else n
        return mix(s, k, i) % (n + 1) if (h >> 5) % 30 else (h >> 11) % (n + 1)


class RT:
    def __init__(self, module, params, cfg=None):
        self.m = module
        self.params = params
        self.cfg = cfg or {}
        self.funs = {}
        self.nomerge = set()
        self.deadline = None
        self.stats = dict(paths=0, merges=0, forks=0, obligations=0, discharged=0, undecided=0, nontrivial=0, pruned=0,
                          schedules=0, oob_checks=0)
        self.functions = set()
        self.covers = set()
        self.violations = []
        self.undecided = []
        self.samples = []
        self.assumed = set()
        self.seed = self.cfg.get('seed', 1)
        self.timeout = self.cfg.get('timeout', 20000)
        self.ptimeout = self.cfg.get('ptimeout', 5000)
        self._pool = None
        self.env = self.mkenv()
        self.gl_addr = {}
        self.gl_init = {}
        self.nextg = 16
        self.fn_addr = {}
        self.fn_at = {}
        self.inputs = {}
        self.done = []           # (path condition, goals) of finished paths
        val.HOOK = self

    # ------------------------------------------------------------------ addresses of globals and functions
    def symaddr(self, name):
        if name in self.m.aliases:
            name = self.m.aliases[name]
        if name in self.m.funcs or name in self.m.decls:
            a = self.fn_addr.get(name)
            if a is None:
                a = (0x7f000000 + len(self.fn_addr)) << 32
                self.fn_addr[name] = a
                self.fn_at[a] = name
            # weak externs that are absent resolve to null
            if name in ('statx', 'gettid') and name in self.m.decls:
                return 0
            return a
        a = self.gl_addr.get(name)
        if a is None:
            if name not in self.m.globals:
                raise Unsupported('global ' + name)
            a = self.nextg << 32
            self.nextg += 1
            self.gl_addr[name] = a
        return a

    def global_obj(self, oid):
        """materialise a global on first access"""
        for nm, a in self.gl_addr.items():
            if a >> 32 == oid:
                break
        else:
            return None
        ini = self.gl_init.get(nm)
        if ini is None:
            ini = self.parse_global(nm)
            self.gl_init[nm] = ini
        data, sz = ini
        o = Obj(0, '@' + nm)
        o.data = bytearray(data)
        self.objs[oid] = o
        return o

    def parse_global(self, nm):
        txt = self.m.globals[nm]
        i = txt.find(', align')
        # cut trailing attributes outside strings
        p = ir.P(ir.tokenize(ir.strip_meta(txt)))
        while p.peek() not in ('constant', 'global', 'alias'):
            x = p.next()
            if p.peek() == '(':
                p.skip_paren()
        p.next()
        ty = p.type()
        if p.peek() is None or p.peek() == ',':
            return bytes(ty.size), ty.size
        v = p.value(ty)
        n = ir.asize(ty)
        buf = bytearray(n)
        self.put_const(buf, 0, ty, v)
        return bytes(buf), n

    def put_const(self, buf, off, ty, v):
        k = v[0]
        if k == 'c':
            self.put_raw(buf, off, ty, v[1])
        elif k == 'g':
            buf[off:off + 8] = (self.symaddr(v[1]) + v[2]).to_bytes(8, 'little')
        elif k == 'vec':
            if ty.k == 'struct':
                for e, o, x in zip(ty.e, ty.offsets(), v[1]):
                    self.put_const(buf, off + o, e, x)
            else:
                s = ir.asize(ty.e)
                for i, x in enumerate(v[1]):
                    self.put_const(buf, off + i * s, ty.e, x)
        else:
            r = self.constexpr(v)
            buf[off:off + ty.size] = r.to_bytes(ty.size, 'little')

    def put_raw(self, buf, off, ty, x):
        if ty.k in ('int', 'ptr'):
            buf[off:off + ty.size] = x.to_bytes(ty.size, 'little')
        elif ty.k == 'float':
            buf[off:off + 4] = val.PF.pack(x)
        elif ty.k == 'double':
            buf[off:off + 8] = val.PD.pack(x)
        elif ty.k in ('arr', 'vec'):
            if ty.e.k == 'int' and ty.e.n == 8:
                buf[off:off + ty.n] = bytes(x)
                return
            s = ir.asize(ty.e)
            for i, y in enumerate(x):
                self.put_raw(buf, off + i * s, ty.e, y)
        elif ty.k == 'struct':
            for e, o, y in zip(ty.e, ty.offsets(), x):
                self.put_raw(buf, off + o, e, y)

    def constexpr(self, v):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'g':
            return self.symaddr(v[1]) + v[2]
        if k == 'trunc':
            return self.constexpr(v[1]) & ((1 << v[2]) - 1)
        if k == 'bin':
            a, b = self.constexpr(v[2]), self.constexpr(v[3])
            r = {'sub': a - b, 'add': a + b, 'xor': a ^ b, 'mul': a * b}[v[1]]
            return r & ((1 << v[4]) - 1)
        raise Unsupported('constexpr')

    # ------------------------------------------------------------------ functions
    def is_noreturn(self, name):
        f = self.m.funcs.get(name) or self.m.decls.get(name)
        return f is not None and f.noreturn

    def resolve(self, name):
        if name in self.m.aliases:
            name = self.m.aliases[name]
        x = self.ext.get(name)
        if x is not None:
            return x
        f = self.funs.get(name)
        if f is not None:
            return f
        if name in self.m.funcs:
            if self.is_noreturn(name):
                d = demangle(name)
                return lambda *a: self.panic_call(d, a)
            f = CFun(self.m.funcs[name], self)
            self.funs[name] = f
            return f
        if self.is_noreturn(name):
            return lambda *a: self.panic(demangle(name))

        def missing(*a):
            raise Unsupported('external ' + name)
        return missing

    def panic(self, msg):
        raise Panic(msg)

    def panic_call(self, d, a):
        raise Panic(d)

    def CALL(self, f, args):
        code = f.code
        if code is None:
            f.compile()
            code = f.code
            self.functions.add(f.name)
        R = [None] * f.nregs
        for k, a in zip(f.pregs, args):
            R[k] = a
        b = 0
        sp = len(self.stack)
        while True:
            b = code[b](R)
            if b < 0:
                if b == -1:
                    break
                b = self.branch(f, R, b)
                if b == -1:
                    break
        if len(self.stack) > sp:
            self.unwind(sp)
        return R[0]

    def unwind(self, sp):
        st = self.stack
        if self.logs:
            return            # objects stay until the merge is over
        while len(st) > sp:
            self.objs.pop(st.pop(), None)

    def run_until(self, f, R, b, stop):
        code = f.code
        while b != stop:
            b = code[b](R)
            if b < 0:
                if b == -1:
                    return -1
                b = self.branch(f, R, b)
                if b == -1:
                    return -1
        return b

    def ICALL(self, p, args):
        if p.__class__ is not int:
            p = self.pick_value(U(p), 64)
        name = self.fn_at.get(p)
        if name is None:
            raise Unsupported('indirect call to %r' % p)
        r = self.resolve(name)
        if r.__class__ is CFun:
            return self.CALL(r, args)
        return r(*args)

    # ------------------------------------------------------------------ decisions
    def decide(self, p):
        """0/1 when the path condition settles boolean polynomial p (cheaply), else None"""
        p = t.subst_known(p)
        if p.isconst():
            return 1 if p.const() else 0
        lo, hi = t.prange(p)
        if lo > 0:
            return 1
        if hi < 1:
            return 0
        if F.version and len(p.d) <= 2:
            a = None
            for m in p.d:
                if len(m) == 1:
                    a = m[0]
            if a is not None and T_kind(a) in ('ge', 'gt', 'eq'):
                k = T_kind(a)
                q = t.T.args[a][0]
                r = t.mkge(q) if (k == 'ge' and t.pint(q)) else t.mkeq0(q) if (k == 'eq' and t.pint(q)) else \
                    t.mkcmp_real(q, {'ge': '>=', 'gt': '>', 'eq': '=='}[k])
                if r.isconst():
                    v = 1 if r.const() else 0
                    c = p.d.get((a,), 0)
                    r = p.const() + c * v
                    return 1 if r else 0
        return None

    def witness(self, conds):
        """a concrete input (from a fixed pool) that satisfies the path condition and conds, or None"""
        conds = F.asserts + conds
        for e in self.pool():
            try:
                for p in conds:
                    if not t.eval_poly(p, e):
                        break
                else:
                    return e
            except (Unsupported, ZeroDivisionError, OverflowError, ValueError):
                continue
        return None

    def pool(self):
        if self._pool is None:
            self._pool = [PoolEnv(self.seed, k) for k in range(40)]
        return self._pool

    def feasible(self, p):
        """can p hold on this path?  'sat' / 'unsat' / 'unknown' and model"""
        p = t.subst_known(p)
        if p.isconst():
            return ('sat' if p.const() else 'unsat'), None
        if self.strong(p) == 0:
            return 'unsat', None
        if self.witness([p]) is not None:
            return 'sat', None
        self.stats['queries_path'] = self.stats.get('queries_path', 0) + 1
        if self.cfg.get('trace'):
            for m in p.d:
                for a in m:
                    x = t.T.args[a][0]
                    print('Q', t.pstr(p)[:100], t.pstr(x)[:300], t.strongrange(x), {t.T.kind[b] for b in x.atoms()}, flush=True)
        return t.solve([p], timeout=self.ptimeout, seed=self.seed)

    def strong(self, p):
        """0/1 for a single (negated) comparison settled by the range of a quadratic form, else None"""
        d = p.d
        neg = False
        if len(d) == 2 and d.get(()) == 1:
            neg = True
            (m, c), = [(m, c) for m, c in d.items() if m]
            if c != -1:
                return None
        elif len(d) == 1:
            (m, c), = d.items()
            if c != 1:
                return None
        else:
            return None
        if len(m) != 1 or T_kind(m[0]) not in ('ge', 'gt', 'eq'):
            return None
        k = T_kind(m[0])
        lo, hi = t.strongrange(t.T.args[m[0]][0])
        v = None
        if k == 'ge':
            v = 1 if lo >= 0 else 0 if hi < 0 else None
        elif k == 'gt':
            v = 1 if lo > 0 else 0 if hi <= 0 else None
        elif lo > 0 or hi < 0:
            v = 0
        if v is None:
            return None
        return 1 - v if neg else v

    def branch(self, f, R, code):
        if self.deadline and time.time() > self.deadline:
            raise Undecided('time')
        if code == -3:
            return self.switch(f, R)
        c, T, tr, tv, E, er, ev, blk = R[1]
        R[1] = None
        if c.__class__ is not SInt:
            raise Unsupported('branch on %r in %s' % (c, f.name))
        p = c.p
        v = self.decide(p)
        if v is None:
            site = (f.name, blk)
            ipd = f.ipdom()
            J = ipd[blk]
            n = len(f.f.blocks)
            if site in self.nomerge or J is None:
                v = self.fork_bool(p, 'branch %s.%d' % (demangle(f.name), blk), site)
            else:
                r = self.merge_branch(f, R, p, T, tr, tv, E, er, ev, J, n, site)
                if r.__class__ is int:
                    return r
                v = r[0]
        if v:
            for k, x in zip(tr, tv):
                R[k] = x
            return T
        for k, x in zip(er, ev):
            R[k] = x
        return E

    def arm(self, f, R, p, blk, rs, vs, J, n):
        """run one side up to the join; returns (kind, regs)"""
        R2 = list(R)
        for k, x in zip(rs, vs):
            R2[k] = x
        b = self.run_until(f, R2, blk, J if J != n else None)
        return b, R2

    def merge_branch(self, f, R, p, T, tr, tv, E, er, ev, J, n, site):
        self.stats['merges'] += 1
        depth = len(self.msites)
        if depth > 14:
            # deep nesting: make sure the condition is really open
            for q, v in ((p, 0), (t.bnot(p), 1)):
                if self.feasible(q)[0] == 'unsat':
                    F.add(t.bnot(q))
                    return (v,)
            if depth > 60:
                raise Unsupported('merge depth')
        self.msites.append(site)
        res = []
        logs = []
        try:
            for q, blk, rs, vs in ((p, T, tr, tv), (t.bnot(p), E, er, ev)):
                log = Log()
                self.logs.append(log)
                F.push()
                F.add(q)
                try:
                    b, R2 = self.arm(f, R, q, blk, rs, vs, J, n)
                    res.append((b, R2))
                except Panic as e:
                    res.append(self.arm_panic(e))
                except PathDone:
                    res.append('dead')
                except Unsupported:
                    if not self.dead_end():
                        raise
                    res.append('dead')
                finally:
                    F.pop()
                    F.bump()
                    self.logs.pop()
                # take the effects out, keep them for the merge
                logs.append(self.rollback(log))
        finally:
            self.msites.pop()
        a, b = res
        if a.__class__ is str and b.__class__ is str:
            raise PathDone()
        if a.__class__ is str or b.__class__ is str:
            # one side cannot happen (or was reported): continue on the other
            k = 1 if a.__class__ is str else 0
            cond = t.bnot(p) if k else p
            F.add(cond)
            self.replay_writes(logs[k])
            bb, R2 = res[k]
            R[:] = R2
            return bb if bb == -1 else bb
        (b1, R1), (b2, R2) = a, b
        if b1 != b2:
            raise self.needfork(site, 'different joins')
        try:
            if b1 == -1:
                R[0] = merge(p, R1[0], R2[0], retw(f))
            else:
                for k in f.live(J):
                    x, y = R1[k], R2[k]
                    if x is y:
                        R[k] = x
                    elif x is None or y is None:
                        R[k] = None
                    else:
                        ty = f.g.rtype[k]
                        R[k] = merge(p, x, y, ty.n if ty.k == 'int' else 64)
            self.merge_mem(p, logs)
        except NeedFork as e:
            raise self.needfork(site, str(e))
        return b1

    def dead_end(self):
        """the way here cannot be taken at all"""
        try:
            return t.solve([], timeout=2000, all_facts=True, seed=self.seed)[0] == 'unsat'
        except Undecided:
            return False

    def needfork(self, site, why):
        s = self.msites[0] if self.msites else site
        self.nomerge.add(s)
        self.nomerge.add(site)
        return Restart('%s at %s' % (why, site))

    def arm_panic(self, e):
        """a panic under the current path condition: violation, or infeasible"""
        self.stats['obligations'] += 1
        if self.cfg.get('trace', 0) > 1:
            print('arm_panic', str(e)[:150], [t.pstr(q)[:400] for q in F.asserts][-2:], [t.astr(a)[:900] for q in F.asserts[-1:] for a in q.deps()][:3],flush=True)
        r, m = t.solve([], timeout=self.timeout, all_facts=True, seed=self.seed)
        if r == 'unsat':
            self.stats['discharged'] += 1
            return 'dead'
        if r == 'sat':
            self.violations.append(Violation('panic', 'panic', [t.model_env(m)], str(e)))
        else:
            envs = self.guess_envs([], 40)
            if envs:
                self.violations.append(Violation('panic', 'panic', envs[:4], str(e)))
            else:
                self.stats['undecided'] += 1
                self.undecided.append('panic ' + str(e))
        return 'panic'

    # ---- memory effects of an arm
    def rollback(self, log):
        out = {}
        objs = self.objs
        for oid, (data, sym, dead) in log.snap.items():
            o = objs.get(oid)
            if o is None:
                continue
            out[oid] = (o.data, o.sym, o.dead, log.writes.get(oid, {}))
            o.data, o.sym, o.dead = data, sym, dead
        return out

    def replay_writes(self, eff):
        for oid, (data, sym, dead, w) in eff.items():
            o = self.objs[oid]
            self.touch(oid, o)
            if self.logs:
                wr = self.logs[-1].writes.setdefault(oid, {})
                wr.update(w)
            o.data, o.sym, o.dead = data, sym, dead

    def merge_mem(self, p, logs):
        A, B = logs
        for oid in set(A) | set(B):
            o = self.objs[oid]
            base = (o.data, o.sym, o.dead, {})
            a = A.get(oid, base)
            b = B.get(oid, base)
            if a[2] != b[2]:
                raise NeedFork('free on one side')
            regs = dict(a[3])
            for off, n in b[3].items():
                if regs.get(off, n) != n:
                    m = regs[off]
                    # overlapping accesses of different size
                    if m % min(n, m) or n % min(n, m):
                        raise NeedFork('overlapping writes')
                    regs[off] = max(n, m)
                else:
                    regs[off] = n
            self.touch(oid, o)
            if len(a[0]) != len(b[0]):
                raise NeedFork('resized on one side')
            # regions no write recorded must agree
            end = -1
            vals = []
            for off in sorted(regs):
                n = regs[off]
                if off < end:
                    if off + n <= end:
                        # covered by a larger region: prefer the finer partition
                        vals = self.split_region(vals, off, n)
                        continue
                    raise NeedFork('overlapping writes')
                vals.append((off, n))
                end = off + n
            oa = Obj(0)
            oa.data, oa.sym = a[0], a[1]
            ob = Obj(0)
            ob.data, ob.sym = b[0], b[1]
            for off, n in vals:
                if a[0][off:off + n] == b[0][off:off + n] and not has_sym(a[1], off, n) and not has_sym(b[1], off, n):
                    x = y = None
                    if o.data[off:off + n] == a[0][off:off + n] and not has_sym(o.sym, off, n):
                        continue
                    self.put_bytes(oid, o, off, bytes(a[0][off:off + n]))
                    continue
                for s in self.pieces(oa, ob, off, n):
                    x = self.read_cell(oa, off + s[0], s[1])
                    y = self.read_cell(ob, off + s[0], s[1])
                    z = merge(p, x, y, s[1] * 8)
                    self.write_cell(oid, o, off + s[0], z, s[1])

    def split_region(self, vals, off, n):
        out = []
        for o, m in vals:
            if o <= off and off + n <= o + m:
                # split (o, m) into pieces of n
                if m % n or (off - o) % n:
                    raise NeedFork('overlapping writes')
                for k in range(0, m, n):
                    out.append((o + k, n))
            else:
                out.append((o, m))
        return out

    def pieces(self, oa, ob, off, n):
        """split a region so that no cell is cut"""
        if n <= 8 and (n in (1, 2, 4, 8)):
            ca = [(o, oa.sym[o][1]) for o in range(off, off + n) if o in oa.sym]
            cb = [(o, ob.sym[o][1]) for o in range(off, off + n) if o in ob.sym]
            sizes = set(s for _, s in ca + cb)
            if not sizes or sizes == {n}:
                return [(0, n)]
            s = min(sizes)
            if n % s == 0:
                return [(k, s) for k in range(0, n, s)]
        out = []
        k = 0
        while k < n:
            c = oa.sym.get(off + k) or ob.sym.get(off + k)
            s = c[1] if c else (8 if (off + k) % 8 == 0 and k + 8 <= n else 1)
            out.append((k, s))
            k += s
        return out

    # ------------------------------------------------------------------ forks
    def fork_bool(self, p, why, site=None):
        """explore both truth values of p (as separate paths)"""
        if self.msites:
            self.nomerge.add(self.msites[0])
            if site:
                self.nomerge.add(site)
            raise Restart('fork inside merge: ' + why)
        v = self.decide(p)
        if v is not None:
            return v
        i = self.dpos
        self.dpos += 1
        if i < len(self.decisions):
            v = self.decisions[i][0]
        else:
            opts = []
            for x, q in ((1, p), (0, t.bnot(p))):
                r, _ = self.feasible(q)
                if r != 'unsat':
                    opts.append(x)
                else:
                    self.stats['pruned'] += 1
            if not opts:
                raise PathDone()
            self.decisions.append(opts)
            v = opts[0]
            if len(opts) > 1:
                self.stats['forks'] += 1
        F.add(p if v else t.bnot(p))
        return v

    def choose(self, n, why):
        """scheduling or environment choice among n options"""
        if n == 1:
            return 0
        if self.msites:
            self.nomerge.add(self.msites[0])
            raise Restart('choice inside merge: ' + why)
        i = self.dpos
        self.dpos += 1
        if i >= len(self.decisions):
            self.decisions.append(list(range(n)))
            self.stats['forks'] += 1
        return self.decisions[i][0]

    def pick_value(self, p, w):
        """concrete value of an integer polynomial (forks over its feasible values)"""
        p = t.subst_known(p)
        if p.isconst():
            return int(p.const()) & ((1 << w) - 1)
        lo, hi = t.bestrange(p)
        if hi - lo > 70000:
            raise Unsupported('too many values to enumerate')
        if self.msites:
            self.nomerge.add(self.msites[0])
            raise Restart('value split inside merge')
        i = self.dpos
        self.dpos += 1
        if i >= len(self.decisions):
            vals = []
            F.push()
            try:
                while True:
                    r, m = t.solve([], timeout=self.timeout, all_facts=True, seed=self.seed,
                                   extra=lambda defs, md: [t.zpoly(p, defs, md, True) != v for v in vals] +
                                   [t.zpoly(p, defs, md, True) >= int(lo)])
                    if r == 'unsat':
                        break
                    if r != 'sat':
                        raise Undecided('value split')
                    md, defs = m
                    env = t.model_env(m)
                    for a in p.deps():
                        env.setdefault(a, t.T.lo[a])
                    vals.append(int(t.eval_poly(p, dict(env))))
                    if len(vals) > 600:
                        raise Unsupported('too many values')
            finally:
                F.pop()
                F.bump()
            if not vals:
                raise PathDone()
            self.decisions.append(sorted(vals))
            self.stats['forks'] += 1
        v = self.decisions[i][0]
        F.add(t.mkeq0(paddc(p, -v)))
        return v & ((1 << w) - 1)

    def switch(self, f, R):
        c, ents, blk, w = R[1]
        R[1] = None
        u = U(c)
        lo, hi = t.bestrange(u)
        chosen = None
        for v, tgt, rs, vs in ents:
            if v is None:
                chosen = (tgt, rs, vs)
                break
            if v < lo or v > hi:
                continue
            p = t.mkeq0(paddc(u, -v))
            d = self.decide(p)
            if d is None:
                d = self.fork_bool(p, 'switch %s' % demangle(f.name))
            if d:
                chosen = (tgt, rs, vs)
                break
        tgt, rs, vs = chosen
        for k, x in zip(rs, vs):
            R[k] = x
        return tgt

    def nonzero(self, p):
        """divisor p may be zero by its range: settle it; True when nonzero on this path"""
        lo, hi = t.strongrange(p)
        if lo > 0 or hi < 0:
            return True
        for q in (p, pscale(p, -1)):
            if self.decide(t.mkcmp_real(q, '>')) == 1:
                return True
        e = t.mkeq0(p) if t.pint(p) else t.mkcmp_real(p, '==')
        v = self.decide(e)
        if v is not None:
            return not v
        r, _ = self.feasible(e)
        if r == 'unsat':
            return True
        v = self.fork_bool(e, 'zero divisor')
        return not v

    def sign_of(self, p):
        for q, s in ((t.mkcmp_real(p, '>'), 1), (t.mkcmp_real(pscale(p, -1), '>'), -1)):
            v = self.decide(q)
            if v is None:
                v = self.fork_bool(q, 'sign of a dividend')
            if v:
                return s
        return 0

    # ------------------------------------------------------------------ memory
    def new_obj(self, n, name=''):
        oid = self.nexto
        self.nexto += 1
        self.objs[oid] = Obj(n, name)
        return oid << 32

    def ALLOCA(self, n):
        oid = self.nexto
        self.nexto += 1
        self.objs[oid] = Obj(n, 'stack')
        self.stack.append(oid)
        return oid << 32

    def oob(self, p, n, what):
        raise Panic('memory access out of bounds: %s of %d bytes at %#x (object of %s bytes)' % (
            what, n, p & OFFM, len(self.objs[p >> 32].data) if p >> 32 in self.objs else 'no'))

    def get(self, p, n, what):
        o = self.objs.get(p >> 32)
        if o is None:
            o = self.global_obj(p >> 32)
            if o is None:
                self.oob(p, n, what)
        off = p & OFFM
        if off + n > len(o.data) or o.dead:
            self.oob(p, n, what)
        return o, off

    def touch(self, oid, o):
        if self.logs:
            s = self.logs[-1].snap
            if oid not in s:
                s[oid] = (o.data, o.sym, o.dead)
                o.data = bytearray(o.data)
                o.sym = dict(o.sym)

    def note(self, oid, off, n):
        w = self.logs[-1].writes.setdefault(oid, {})
        if n not in (1, 2, 4, 8):
            k = 0
            while k < n:
                s = 8 if (off + k) % 8 == 0 and k + 8 <= n else 4 if (off + k) % 4 == 0 and k + 4 <= n else 1
                self.note(oid, off + k, s)
                k += s
            return
        w[off] = max(n, w.get(off, 0))

    def LD(self, p, n):
        if p.__class__ is not int:
            return self.sym_load(p, n, False)
        o = self.objs.get(p >> 32)
        off = p & OFFM
        if o is None or o.dead or off + n > len(o.data):
            o, off = self.get(p, n, 'read')
        if o.sym:
            c = o.sym.get(off)
            if c is not None and c[1] == n:
                v = c[0]
                if v.__class__ is SFlt:
                    return bits_of(v, n * 8)
                return v
            return self.ld_slow(o, off, n)
        return int.from_bytes(o.data[off:off + n], 'little')

    def ld_slow(self, o, off, n):
        sym = o.sym
        hit = False
        for k in range(off - 7, off + n):
            c = sym.get(k)
            if c is not None and k + c[1] > off:
                hit = True
                break
        if not hit:
            return int.from_bytes(o.data[off:off + n], 'little')
        # assemble from cells and bytes
        r = t.ZERO
        k = off
        while k < off + n:
            c = sym.get(k)
            if c is None:
                # maybe inside an earlier cell
                for j in range(1, 8):
                    c = sym.get(k - j)
                    if c is not None:
                        if c[1] > j:
                            break
                        c = None
                if c is None:
                    r = paddc(r, o.data[k] << (8 * (k - off)))
                    k += 1
                    continue
                s = k - j
                v = c[0]
                if v.__class__ is SFlt:
                    v = bits_of(v, c[1] * 8)
                u = U(v)
                take = min(s + c[1], off + n) - k
                q = t.mkmod(t.mkfloor(u, 1 << (8 * j)), 1 << (8 * take))
                r = padd(r, pscale(q, 1 << (8 * (k - off))))
                k += take
                continue
            v = c[0]
            if v.__class__ is SFlt:
                v = bits_of(v, c[1] * 8)
            u = U(v)
            take = min(c[1], off + n - k)
            if take < c[1]:
                u = t.mkmod(u, 1 << (8 * take))
            r = padd(r, pscale(u, 1 << (8 * (k - off))))
            k += take
        return mk(r, n * 8)

    def LDF(self, p, n):
        if p.__class__ is not int:
            return self.sym_load(p, n, True)
        o = self.objs.get(p >> 32)
        off = p & OFFM
        if o is None or o.dead or off + n > len(o.data):
            o, off = self.get(p, n, 'read')
        if o.sym:
            c = o.sym.get(off)
            if c is not None and c[1] == n:
                v = c[0]
                if v.__class__ is SInt:
                    return from_bits(v, n * 8)
                return v
            v = self.ld_slow(o, off, n)
            if v.__class__ is int:
                return (val.PF if n == 4 else val.PD).unpack(v.to_bytes(n, 'little'))[0]
            return from_bits(v, n * 8)
        return (val.PF if n == 4 else val.PD).unpack_from(o.data, off)[0]

    def kill(self, sym, off, n):
        for k in range(off - 7, off + n):
            c = sym.get(k)
            if c is not None:
                if k >= off and k + c[1] <= off + n:
                    del sym[k]
                elif k + c[1] > off:
                    return True
        return False

    def cut(self, oid, o, off, n):
        """remove cells overlapping [off, off+n), splitting those that stick out"""
        sym = o.sym
        if n > 4 * len(sym):
            ks = [k for k, c in sym.items() if k < off + n and k + c[1] > off]
        else:
            ks = [k for k in range(off - 7, off + n) if k in sym and k + sym[k][1] > off]
        for k in ks:
            v, s = sym.pop(k)
            if k >= off and k + s <= off + n:
                continue
            if v.__class__ is SFlt:
                v = bits_of(v, s * 8)
            u = U(v)
            for j in range(s):
                if not (off <= k + j < off + n):
                    b = mk(t.mkmod(t.mkfloor(u, 1 << (8 * j)), 256), 8)
                    if b.__class__ is int:
                        o.data[k + j] = b
                    else:
                        sym[k + j] = (b, 1)

    def ST(self, p, v, n):
        if p.__class__ is not int:
            return self.sym_store(p, v, n)
        oid = p >> 32
        o = self.objs.get(oid)
        off = p & OFFM
        if o is None or o.dead or off + n > len(o.data):
            o, off = self.get(p, n, 'write')
        if self.logs:
            self.touch(oid, o)
            self.note(oid, off, n)
        if o.sym:
            c = o.sym.get(off)
            if c is not None and c[1] == n:
                del o.sym[off]
            else:
                self.cut(oid, o, off, n)
        if v.__class__ is int:
            o.data[off:off + n] = (v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')
        elif v is None:
            o.data[off:off + n] = bytes(n)
        else:
            if v.__class__ is FMask:
                v = bits_of(v, n * 8)
                if v.__class__ is int:
                    o.data[off:off + n] = v.to_bytes(n, 'little')
                    return
            if v.__class__ is SInt and v.w != n * 8:
                v = SInt(U(v), n * 8)
            o.sym[off] = (v, n)

    def STF(self, p, v, n):
        if p.__class__ is not int:
            return self.sym_store(p, v, n)
        oid = p >> 32
        o = self.objs.get(oid)
        off = p & OFFM
        if o is None or o.dead or off + n > len(o.data):
            o, off = self.get(p, n, 'write')
        if self.logs:
            self.touch(oid, o)
            self.note(oid, off, n)
        if o.sym:
            c = o.sym.get(off)
            if c is not None and c[1] == n:
                del o.sym[off]
            else:
                self.cut(oid, o, off, n)
        if v.__class__ is float:
            (val.PF if n == 4 else val.PD).pack_into(o.data, off, v)
        elif v.__class__ is SFlt:
            o.sym[off] = (v, n)
        else:
            self.ST(p, bits_of(v, n * 8), n)

    def put_bytes(self, oid, o, off, b):
        if self.logs:
            self.touch(oid, o)
            self.note(oid, off, len(b))
        if o.sym:
            self.cut(oid, o, off, len(b))
        o.data[off:off + len(b)] = b

    def read_cell(self, o, off, n):
        c = o.sym.get(off)
        if c is not None and c[1] == n:
            return c[0]
        return self.ld_slow(o, off, n) if o.sym else int.from_bytes(o.data[off:off + n], 'little')

    def write_cell(self, oid, o, off, v, n):
        p = (oid << 32) + off
        if is_f(v):
            self.STF(p, v, n)
        else:
            self.ST(p, v, n)

    # ---- symbolic addresses
    def addr_cases(self, p):
        """list of (condition, address) when the address is a selection between few addresses, else None"""
        bs = set()
        for m in p.d:
            for a in m:
                if not t.T.isbool[a]:
                    return None
                bs.add(a)
        if len(bs) > 4:
            return None
        bs = sorted(bs)
        out = []

        def rec(i, cond):
            if i == len(bs):
                q = t.subst_known(p)
                out.append((cond, int(q.const()) & M64))
                return
            for v in (1, 0):
                kn = F.known.get(bs[i])
                if kn is not None and kn != v:
                    continue
                F.push()
                F.bump()
                F.learn(bs[i], v)
                b = Poly({(bs[i],): 1})
                rec(i + 1, pmul(cond, b if v else t.bnot(b)))
                F.pop()
                F.bump()
        rec(0, t.ONE)
        return out

    def sym_load(self, x, n, isf):
        p = x.p
        cs = self.addr_cases(p)
        ld = self.LDF if isf else self.LD
        if cs is not None:
            r = None
            for cond, a in reversed(cs):
                v = ld(a, n)
                r = v if r is None else merge(cond, v, r, n * 8)
            return r
        lo, hi = t.bestrange(p)
        oid = int(lo) >> 32 if lo > -math.inf else -1
        o = self.objs.get(oid) or self.global_obj(oid)
        if o is None or hi - (oid << 32) + n > len(o.data):
            self.sym_bounds(p, n)
            lo, hi = t.bestrange(p)
            oid = int(lo) >> 32
            o = self.objs.get(oid) or self.global_obj(oid)
            if o is None or hi - (oid << 32) + n > len(o.data):
                # settled by the solver only: enumerate
                a = self.pick_value(p, 64)
                return ld(a, n)
        base = (oid << 32)
        l, h = int(lo) - base, int(hi) - base
        # stride of the index
        g = 0
        for m, c in p.d.items():
            if m:
                g = math.gcd(g, c)
        g = abs(g)
        r0 = p.const() % g if g else 0
        offs = [k for k in range(l, h + 1) if (k - (r0 - base)) % g == 0] if g > 1 else list(range(l, h + 1))
        c0 = offs[0]
        idx = t.mkfloor(paddc(p, -(base + c0)), g) if g > 1 else paddc(p, -(base + c0))
        vals = [ld(base + k, n) for k in offs]
        if all(v.__class__ is int for v in vals) or all(v.__class__ is float for v in vals):
            if isf:
                return mkf(t.mktab(tuple(vals), idx, False))
            h2 = 1 << (8 * n - 1)
            if any(v >= h2 for v in vals):
                vals = [v - 2 * h2 if v >= h2 else v for v in vals]
            return mk(t.mktab(tuple(vals), idx, True), n * 8)
        if len(vals) > 64:
            a = self.pick_value(p, 64)
            return ld(a, n)
        r = vals[-1]
        for k in range(len(vals) - 2, -1, -1):
            r = merge(t.mkeq0(paddc(idx, -k)), vals[k], r, n * 8)
        return r

    def sym_bounds(self, p, n):
        """prove an access through a symbolic address stays inside its object"""
        # the object is the one the constant part points into
        c = p.const() & M64
        oid = (c + (1 << 31)) >> 32         # or just before
        o = self.objs.get(oid) or self.global_obj(oid)
        if o is None:
            raise Unsupported('symbolic address without a base')
        self.stats['obligations'] += 1
        base = oid << 32
        okp = t.band(t.mkge(paddc(p, -base)), t.mkge(paddc(pscale(p, -1), base + len(o.data) - n)))
        if okp.isconst() and okp.const():
            self.stats['discharged'] += 1
            return
        r, m = t.solve([t.bnot(okp)], timeout=self.timeout, seed=self.seed)
        if r == 'unsat':
            self.stats['discharged'] += 1
            F.add(okp)
            return
        if r == 'sat':
            self.violations.append(Violation('oob', 'oob', [t.model_env(m)], 'symbolic address outside its object'))
            F.add(okp)
            return
        raise Undecided('bounds')

    def sym_store(self, x, v, n):
        p = x.p
        cs = self.addr_cases(p)
        if cs is None:
            a = self.pick_value(p, 64)
            cs = [(t.ONE, a)]
        isf = is_f(v)
        for cond, a in cs:
            if cond.isconst():
                (self.STF if isf else self.ST)(a, v, n)
            else:
                old = (self.LDF if isf else self.LD)(a, n)
                z = merge(cond, v, old, n * 8)
                (self.STF if is_f(z) else self.ST)(a, z, n)

    def conc(self, x, w=64):
        return x if x.__class__ is int else self.pick_value(U(x), w)

    def MEMCPY(self, d, s, n):
        n = self.conc(n)
        if n == 0:
            return
        d = self.conc_ptr(d)
        if s.__class__ is not int:
            cs = self.addr_cases(s.p)
            if cs is not None and len(cs) > 1 and n <= 512:
                # copy a selection piecewise
                k = 0
                while k < n:
                    sz = 8 if k + 8 <= n else 4 if k + 4 <= n else 1
                    (c0, a0) = cs[-1]
                    r = self.cellread(a0 + k, sz)
                    for c, a in reversed(cs[:-1]):
                        r = merge(c, self.cellread(a + k, sz), r, sz * 8)
                    (self.STF if is_f(r) else self.ST)(d + k, r, sz)
                    k += sz
                return
            s = self.conc_ptr(s)
        so, soff = self.get(s, n, 'read')
        do, doff = self.get(d, n, 'write')
        oid = d >> 32
        cells = None
        if so.sym:
            if n > 2 * len(so.sym):
                cells = [(k - soff, c) for k, c in so.sym.items() if soff - 8 < k < soff + n and k + c[1] > soff]
            else:
                sy = so.sym
                cells = [(k - soff, sy[k]) for k in range(soff - 7, soff + n) if k in sy and k + sy[k][1] > soff]
            ok = all(k >= 0 and k + c[1] <= n for k, c in cells)
            if not ok:
                # boundary cells: split into bytes by reading
                cc = []
                for k, c in cells:
                    if k >= 0 and k + c[1] <= n:
                        cc.append((k, c))
                        continue
                    for j in range(c[1]):
                        if 0 <= k + j < n:
                            b = self.ld_slow(so, soff + k + j, 1)
                            cc.append((k + j, (b, 1)))
                cells = cc
        data = bytes(so.data[soff:soff + n])
        if self.logs:
            self.touch(oid, do)
            if cells:
                # note by cell granularity
                covered = sorted((k, c[1]) for k, c in cells)
                k = 0
                for ck, cs_ in covered:
                    if ck > k:
                        self.note_range(oid, doff + k, ck - k)
                    self.note_range(oid, doff + ck, cs_)
                    k = ck + cs_
                if k < n:
                    self.note_range(oid, doff + k, n - k)
            else:
                self.note_range(oid, doff, n)
        if do.sym:
            self.cut(oid, do, doff, n)
        do.data[doff:doff + n] = data
        if cells:
            for k, c in cells:
                if c[0].__class__ is int:
                    do.data[doff + k] = c[0]
                else:
                    do.sym[doff + k] = c

    def cellread(self, a, n):
        o, off = self.get(a, n, 'read')
        return self.read_cell(o, off, n)

    def note_range(self, oid, off, n):
        if n <= 8:
            return self.note(oid, off, n)
        k = 0
        while k < n:
            s = 8 if (off + k) % 8 == 0 and k + 8 <= n else 4 if (off + k) % 4 == 0 and k + 4 <= n else 1
            self.note(oid, off + k, s)
            k += s

    def conc_ptr(self, p):
        return p if p.__class__ is int else self.pick_value(p.p, 64)

    def MEMSET(self, d, v, n):
        n = self.conc(n)
        if n == 0:
            return
        d = self.conc_ptr(d)
        o, off = self.get(d, n, 'write')
        if v.__class__ is not int:
            for k in range(n):
                self.ST(d + k, v, 1)
            return
        oid = d >> 32
        if self.logs:
            self.touch(oid, o)
            self.note_range(oid, off, n)
        if o.sym:
            self.cut(oid, o, off, n)
        o.data[off:off + n] = bytes([v]) * n

    def LDREL(self, p, off):
        v = self.LD((p + off) & M64, 4)
        v = v - (1 << 32) if v >> 31 else v
        return (p + v) & M64

    def RMW(self, op, p, v, w):
        n = w // 8
        old = self.LD(p, n)
        M = (1 << w) - 1
        if op == 'xchg':
            new = v
        elif op == 'add':
            new = (old + v) & M
        elif op == 'sub':
            new = (old - v) & M
        elif op == 'and':
            new = val.I_and(old, v, w)
        elif op == 'or':
            new = val.I_or(old, v, w)
        elif op == 'xor':
            new = val.I_xor(old, v, w)
        elif op in ('umax', 'umin', 'max', 'min'):
            new = I_minmax(op if op[0] == 'u' else 's' + op, old, v, w)
        else:
            raise Unsupported('atomicrmw ' + op)
        self.ST(p, new, n)
        return old

    def CMPXCHG(self, p, a, b, w):
        n = w // 8
        old = self.LD(p, n)
        c = I_cmp('eq', old, a, w)
        if c.__class__ is not int:
            c = self.fork_bool(c.p, 'cmpxchg')
        if c:
            self.ST(p, b, n)
        return (old, c)

    # ------------------------------------------------------------------ running a harness
    def reset_path(self):
        self.objs = {}
        self.nexto = 0x10000
        self.stack = []
        self.logs = []
        self.msites = []
        self.dpos = 0
        F.clear()
        self.fillno = 0
        self.uno = 0
        self.threads = []
        self.cur = None
        self.failed = None
        self.files = {}
        self.fds = {}
        self.filelist = []
        self.domain = False
        self.errno_p = None
        self.steps = 0
        self.preempts = 0
        self.timeouts = 0

    def concrete(self, env):
        """values of the numeric goals on one concrete input, from the terms"""
        for conds, goals in self.done:
            if all(t.eval_poly(p, env) for p in conds):
                out = []
                for tag, a, b in goals:
                    x, y = [v if v.__class__ is float else float(t.eval_poly(v, env)) for v in (a, b)]
                    out.append((tag, x, y))
                return out
        return None

    def explore(self, entry, maxpaths=100000):
        """all paths of a harness"""
        f = self.resolve(entry)
        self.decisions = []
        restarts = 0
        while True:
            self.reset_path()
            again = False
            self.goals = []
            try:
                self.run_path(f)
                if self.goals and len(self.done) < 400:
                    self.done.append((list(F.asserts), self.goals))
            except Restart as e:
                restarts += 1
                if restarts > 400:
                    raise Unsupported('too many restarts: %s' % e)
                del self.decisions[self.dpos:]
                if self.cfg.get('trace'):
                    print('restart', e)
                continue
            except PathDone:
                pass
            except Unsupported:
                if not self.dead_end():
                    raise
            except Panic as e:
                self.arm_panic(e)
            self.stats['paths'] += 1
            if self.cfg.get('trace'):
                print('path', self.stats['paths'], [d[0] for d in self.decisions])
            if self.violations and self.cfg.get('stop', True):
                return
            # next decision vector
            while self.decisions and len(self.decisions[-1]) == 1:
                self.decisions.pop()
            if not self.decisions:
                return
            self.decisions[-1].pop(0)
            if self.stats['paths'] >= maxpaths:
                raise Undecided('path limit')

    def run_path(self, f):
        main = Thread(0)
        self.threads = [main]
        self.cur = main
        try:
            self.CALL(f, ())
        except RecursionError:
            raise Unsupported('recursion')
        finally:
            main.state = 'done'
            self.kill_threads()
        if self.failed:
            raise self.failed

    # ------------------------------------------------------------------ simulated threads
    def spawn(self, fn, data):
        tid = len(self.threads)
        th = Thread(tid)
        self.threads.append(th)

        def body():
            th.ev.acquire()
            if self.dying:
                return
            try:
                th.stack = []
                self.stack = th.stack
                self.ICALL(fn, (data,))
            except Halt:
                return
            except BaseException as e:
                self.failed = e
            th.state = 'done'
            try:
                self.poke_all()
                if self.failed:
                    # give control back to the main thread, which re-raises
                    self.hand(self.threads[0])
                else:
                    self.reschedule(th, True)
            except Halt:
                return
            except BaseException as e:
                self.failed = e
                self.hand(self.threads[0])
        th.th = threading.Thread(target=body, daemon=True)
        self.dying = False
        th.th.start()
        self.poke_all()
        return tid

    def hand(self, to):
        self.cur = to
        if to.tid == 0 or hasattr(to, 'stack'):
            self.stack = getattr(to, 'stack', self.stack0)
        to.ev.release()

    def switch_to(self, to):
        me = self.cur
        if to is me:
            return
        if me.tid == 0 and not hasattr(me, 'stack'):
            me.stack = self.stack
            self.stack0 = me.stack
        self.hand(to)
        me.ev.acquire()
        if getattr(self, 'dying', False) and me.tid != 0:
            raise Halt()
        self.cur = me
        self.stack = me.stack
        if me.tid == 0 and self.failed:
            e = self.failed
            raise e

    def poke_all(self):
        for x in self.threads:
            if x.state == 'blocked':
                x.state = 'run'

    def runnable(self):
        return [x for x in self.threads if x.state == 'run']

    def ve_yield(self):
        """scheduling point before a visible operation"""
        if len(self.threads) == 1:
            return
        if self.msites:
            self.nomerge.add(self.msites[0])
            raise Restart('scheduling point inside merge')
        me = self.cur
        rs = self.runnable()
        # any thread that was waiting may now find its condition true
        opts = [me] + [x for x in rs if x is not me]
        if self.preempts >= self.cfg.get('preempt', 2):
            opts = [me]
        k = self.choose(len(opts), 'schedule')
        if k:
            self.preempts += 1
            self.poke_all()
            self.switch_to(opts[k])
        self.poke_all()

    def ve_block(self):
        """the calling thread cannot proceed"""
        if self.msites:
            self.nomerge.add(self.msites[0])
            raise Restart('blocking inside merge')
        me = self.cur
        me.state = 'blocked'
        self.reschedule(me, False)

    def ve_wait(self):
        """a wait with a time limit: 1 when the time is over"""
        if self.msites:
            self.nomerge.add(self.msites[0])
            raise Restart('blocking inside merge')
        rs = [x for x in self.runnable() if x is not self.cur]
        if not rs:
            return 1
        if self.timeouts < self.cfg.get('timeouts', 1):
            if self.choose(2, 'schedule'):
                self.timeouts += 1
                return 1
        self.ve_block()
        return 0

    def ve_pass(self):
        """let another thread run, if there is one"""
        if len(self.threads) == 1:
            return 0
        if self.msites:
            self.nomerge.add(self.msites[0])
            raise Restart('scheduling point inside merge')
        rs = [x for x in self.runnable() if x is not self.cur]
        if rs:
            self.poke_all()
            self.switch_to(rs[self.choose(len(rs), 'schedule')])
            self.poke_all()
        return 0

    def reschedule(self, me, done):
        rs = [x for x in self.runnable() if x is not me]
        if not rs:
            if done and all(x.state == 'done' for x in self.threads if x.tid):
                # only the main thread is left
                if self.threads[0].state == 'done':
                    return
            if done and not any(x.state == 'blocked' for x in self.threads):
                return
            raise Panic('deadlock: every thread waits')
        k = self.choose(len(rs), 'schedule')
        if done:
            self.hand(rs[k])
        else:
            self.switch_to(rs[k])

    def kill_threads(self):
        self.dying = True
        for x in self.threads[1:]:
            if x.th is not None and x.th.is_alive():
                x.ev.release()
        for x in self.threads[1:]:
            if x.th is not None:
                x.th.join(5)
        self.dying = False

    # ------------------------------------------------------------------ harness interface
    def text(self, p, n):
        o, off = self.get(p, n, 'read')
        return bytes(o.data[off:off + n]).decode('latin-1')

    def input(self, name, lo, hi, isbool=False):
        a = self.inputs.get(name)
        if a is None:
            a = t.mk_input('%s_%s' % (name[0], '_'.join(map(str, name[1:]))), lo, hi, True, isbool)
            self.inputs[name] = a
        return a

    def ve_u(self, lo, hi):
        k = self.uno
        self.uno += 1
        lo, hi = self.conc(lo), self.conc(hi)
        if lo == hi:
            self.input(('u', k), lo, hi)
            return lo
        a = self.input(('u', k), lo, hi)
        return SInt(t.patom(a), 64)

    def ve_fill(self, p, n, esz, mx):
        k = self.fillno
        self.fillno += 1
        if n == 0:
            return
        o, off = self.get(p, n * esz, 'write')
        oid = p >> 32
        if self.logs:
            self.touch(oid, o)
        if o.sym:
            self.cut(oid, o, off, n * esz)
        for i in range(n):
            a = self.input(('f', k, i), 0, mx)
            o.sym[off + i * esz] = (SInt(t.patom(a), 8 * esz), esz)
            if self.logs:
                self.note(oid, off + i * esz, esz)

    def ve_assume(self, c):
        if c.__class__ is int:
            if not c & 1:
                raise PathDone()
            return
        c = val.I_trunc(c, c.w, 1) if c.w != 1 else c
        if c.__class__ is int:
            return self.ve_assume(c)
        v = self.decide(c.p)
        if v == 0:
            raise PathDone()
        if v is None:
            if self.msites:
                r, _ = self.feasible(c.p)
                if r == 'unsat':
                    raise PathDone()
            F.add(c.p)

    def ve_prove(self, tp, tn, c):
        tag = self.text(tp, tn)
        self.stats['obligations'] += 1
        if c.__class__ is int:
            if c & 1:
                self.stats['discharged'] += 1
                return
            r, m = t.solve([], timeout=self.timeout, all_facts=True, seed=self.seed)
            if r == 'unsat':
                self.stats['discharged'] += 1
                raise PathDone()
            self.report('prove', tag, r, m, [])
            raise PathDone()
        c = val.I_trunc(c, c.w, 1) if c.w != 1 else c
        if c.__class__ is int:
            self.stats['obligations'] -= 1
            return self.ve_prove(tp, tn, c)
        p = c.p
        v = self.decide(p)
        if v == 1:
            self.stats['discharged'] += 1
            return
        self.stats['nontrivial'] += 1
        r, m = t.solve([t.bnot(p)], timeout=self.timeout, seed=self.seed)
        if r == 'unknown':
            q = t.Rebuilder(expand=True, limit=200000).poly(p)
            if q.isconst() and q.const() == 1:
                r = 'unsat'
            elif not q.isconst():
                r2, m2 = t.solve([t.bnot(q)], timeout=self.timeout, seed=self.seed)
                if r2 != 'unknown':
                    r, m = r2, m2
        if r == 'unsat':
            self.stats['discharged'] += 1
            return
        self.report('prove', tag, r, m, [t.bnot(p)])
        F.add(p)

    def report(self, kind, tag, r, m, conds, note=''):
        """r: solver answer for the negated obligation"""
        envs = []
        if r == 'sat':
            envs.append(t.model_env(m))
        elif m is not None:
            e = t.model_env(m)
            if self.check_env(e, conds):
                envs.append(e)
        if r != 'sat' or kind in ('eq', 'le', 'nan'):
            envs += self.guess_envs(conds, 60)
        if envs:
            self.violations.append(Violation(kind, tag, envs[:6], note))
        else:
            self.stats['undecided'] += 1
            self.undecided.append('%s %s (%s)' % (kind, tag, note))

    def check_env(self, env, conds):
        e = dict(env)
        for a, i in self.inputs.items():
            e.setdefault(i, t.T.lo[i])
        try:
            for p in F.asserts + conds:
                if not t.eval_poly(p, e):
                    return False
        except (Unsupported, KeyError, ZeroDivisionError, OverflowError):
            return False
        return True

    def sample_envs(self, n):
        rnd = random.Random(self.seed)
        ids = list(self.inputs.values())
        byfill = {}
        for nm, a in self.inputs.items():
            byfill.setdefault(nm[:2] if nm[0] == 'f' else ('u',), []).append(a)
        for k in range(n):
            env = {}
            if k % 3 == 2 and ids:
                # everything equal except for a few samples
                base = rnd.random()
                for a in ids:
                    lo, hi = t.T.lo[a], t.T.hi[a]
                    env[a] = lo + int(base * (hi - lo))
                for a in rnd.sample(ids, min(len(ids), rnd.choice((1, 1, 2, 4)))):
                    lo, hi = t.T.lo[a], t.T.hi[a]
                    env[a] = rnd.choice((lo, hi, rnd.randint(lo, hi)))
                yield env
                continue
            for g in byfill.values():
                mode = rnd.randrange(7) if k > 1 else k
                base = rnd.random()
                for a in g:
                    lo, hi = t.T.lo[a], t.T.hi[a]
                    if mode == 0:
                        v = rnd.randint(lo, hi)
                    elif mode == 1:
                        v = rnd.choice((lo, hi))
                    elif mode == 2:
                        v = lo + int(base * (hi - lo))
                    elif mode == 3:
                        v = lo if rnd.random() < 0.8 else rnd.randint(lo, hi)
                    elif mode == 4:
                        v = hi
                    elif mode == 5:
                        v = lo + int(base * (hi - lo)) if rnd.random() < 0.9 else rnd.randint(lo, hi)
                    else:
                        c = lo + int(base * (hi - lo))
                        v = max(lo, min(hi, c + rnd.randint(-3, 3)))
                    env[a] = v
            yield env

    def guess_envs(self, conds, n):
        out = []
        for env in self.sample_envs(n):
            if self.check_env(env, conds):
                out.append(env)
                if len(out) >= 3:
                    break
        return out

    # ---- numeric obligations
    def ve_prove_eq(self, tp, tn, a, b, tol):
        self.num_goal('eq', self.text(tp, tn), a, b, tol)

    def ve_prove_le(self, tp, tn, a, b, tol):
        self.num_goal('le', self.text(tp, tn), a, b, tol)

    def ve_nonan(self, tp, tn, a):
        tag = self.text(tp, tn)
        self.stats['obligations'] += 1
        if not self.msites:
            self.goals.append((tag, a.p if a.__class__ is SFlt else a, 0.0))
        if a.__class__ is float and a != a:
            self.fail_here('nan', tag)
            return
        # symbolic values are finite reals: undefined operations were settled when they were executed
        self.stats['discharged'] += 1

    def fail_here(self, kind, tag, note=''):
        """the obligation fails for every input of this path"""
        r, m = t.solve([], timeout=self.timeout, all_facts=True, seed=self.seed)
        if r == 'unsat':
            self.stats['discharged'] += 1
            raise PathDone()
        self.report(kind, tag, r, m, [], note)

    def num_goal(self, kind, tag, a, b, tol):
        self.stats['obligations'] += 1
        if not self.msites:
            self.goals.append((tag, a.p if a.__class__ is SFlt else a, b.p if b.__class__ is SFlt else b))
        if a.__class__ is float and b.__class__ is float:
            if kind == 'eq':
                ok = a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))
            else:
                ok = a <= b + tol * max(1.0, abs(a), abs(b))
            if ok:
                self.stats['discharged'] += 1
            else:
                self.fail_here(kind, tag, '%r vs %r' % (a, b))
            return
        for x in (a, b):
            if x.__class__ is float and x - x != 0:
                if kind == 'le' and (x is b and x > 0 or x is a and x < 0):
                    self.stats['discharged'] += 1
                    return
                self.fail_here(kind, tag, 'special value')
                return
        self.stats['nontrivial'] += 1
        r, info = self.guess_goal(kind, FP(a), FP(b), tol)
        if r is None:
            dl = t.DEADLINE[0]
            late = None
            try:
                if dl:
                    t.DEADLINE[0] = dl - 0.25 * max(0, dl - time.time())
                r, info = lemmas.decide(self, kind, FP(a), FP(b), tol)
            except Undecided as e:
                late = e
                r, info = 'undecided', str(e)
            finally:
                t.DEADLINE[0] = dl
            if r != 'proved' and r != 'violated' and not self.cfg.get('noguess'):
                for k in range(8):
                    envs = search.search(self, kind, FP(a), FP(b), tol, 256 + k * 4096, 4096)
                    if envs:
                        r, info, late = 'violated', envs, None
                        break
                    if dl and time.time() > dl - 5:
                        break
            if late is not None:
                raise late
        if len(self.samples) < 4:
            self.samples.append('%s %s: %s by %s' % (kind, tag, r, info if r == 'proved' else 'model'))
        if r == 'proved':
            self.stats['discharged'] += 1
            k = 'by_' + info
            self.stats[k] = self.stats.get(k, 0) + 1
        elif r == 'violated':
            self.violations.append(Violation(kind, tag, info[:8], ''))
        else:
            self.stats['undecided'] += 1
            self.undecided.append('%s %s: %s' % (kind, tag, info))

    def guess_goal(self, kind, a, b, tol):
        """a few inputs on which the terms differ clearly (a guess, to be confirmed by the compiled code)"""
        if self.cfg.get('noguess'):
            return None, None
        envs = search.search(self, kind, a, b, tol, 0, 256)
        return ('violated', envs) if envs else (None, None)

    def ve_cover(self, tp, tn):
        tag = self.text(tp, tn)
        if tag in self.covers:
            return
        if F.asserts:
            r, _ = t.solve([], timeout=self.timeout, all_facts=True, seed=self.seed)
            if r != 'sat':
                if not self.guess_envs([], 60):
                    return
        self.covers.add(tag)

    # ------------------------------------------------------------------ environment
    def mkenv(self):
        env = {}
        for k in dir(val):
            if k.startswith(('I_', 'F_')) or k in ('SEL', 'I2F', 'F2I', 'bits_of', 'from_bits', 'r32', 'FMask'):
                env[k] = getattr(val, k)
        g = globals()
        for k in list(g):
            if k.startswith(('I_', 'F_', 'V_')) or k in ('insv', 'vbitcast'):
                env[k] = g[k]
        for k in ('LD', 'LDF', 'ST', 'STF', 'ALLOCA', 'CALL', 'ICALL', 'MEMCPY', 'MEMSET', 'RMW', 'CMPXCHG', 'LDREL'):
            env[k] = getattr(self, k)
        env['PANIC'] = self.panic
        env['ASM'] = self.asm
        env['INF'] = math.inf
        env['NAN'] = math.nan
        import libc
        self.ext = libc.table(self)
        return env

    def asm(self, s, args):
        if 'cpuid' in s:
            return self.cpuid(args[0], args[1])
        if s.strip('"') == '':
            return None
        raise Unsupported('asm ' + s[:60])

    def cpuid(self, leaf, sub):
        avx = self.cfg.get('avx2', 1)
        if leaf == 0:
            return (0, 7, 0, 0) if False else (0x756e6547, 7, 0x6c65746e, 0x49656e69)
        if leaf == 1:
            # returned as (ebx, eax, ecx, edx)
            ecx = (1 << 0) | (1 << 9) | (1 << 19) | (1 << 20) | (1 << 23) | ((1 << 27) | (1 << 28) | (1 << 26) if avx else 0)
            return (0, 0x806ea, ecx, (1 << 25) | (1 << 26) | (1 << 23) | (1 << 15))
        if leaf == 7 and sub == 0:
            return ((1 << 5) if avx else 0, 0, 0, 0)
        return (0, 0, 0, 0)


class Restart(Exception):
    pass


RT.Restart = Restart


def T_kind(a):
    return t.T.kind[a]


def retw(f):
    r = f.f.rty
    return r.n if r.k == 'int' else 64


def has_sym(sym, off, n):
    if not sym:
        return False
    if n > 4 * len(sym):
        return any(k < off + n and k + c[1] > off for k, c in sym.items())
    for k in range(off - 7, off + n):
        c = sym.get(k)
        if c is not None and k + c[1] > off:
            return True
    return False


def demangle(n):
    import re
    if not n.startswith('_R'):
        return n
    parts = re.findall(r'(?<=[A-Za-z_0-9])(\d+)_?([A-Za-z_][A-Za-z0-9_]*)', n)
    out = []
    i = 2
    while i < len(n):
        if n[i].isdigit() and not (out and False):
            j = i
            while j < len(n) and n[j].isdigit():
                j += 1
            k = int(n[i:j])
            s = j + (1 if n[j:j + 1] == '_' else 0)
            w = n[s:s + k]
            if k > 0 and len(w) == k and re.match(r'^[A-Za-z_]\w*$', w):
                out.append(w)
                i = s + k
                continue
            i = j
            continue
        if n[i] == 's' or n[i] == 'B':
            # disambiguators and back references: skip base-62 digits up to '_'
            j = n.find('_', i)
            if j >= 0 and j - i < 14 and re.match(r'^[sB][0-9a-zA-Z]*_$', n[i:j + 1]):
                i = j + 1
                continue
        i += 1
    return '::'.join(out) or n


# ---------------------------------------------------------------------- pure helpers used by generated code
def insv(a, v, ks):
    k = ks[0]
    if len(ks) > 1:
        v = insv(a[k], v, ks[1:])
    return a[:k] + (v,) + a[k + 1:]


def vbitcast(v, i0, i1):
    """reinterpret a vector through its bytes (little endian)"""
    k0, w0, n0 = i0
    k1, w1, n1 = i1
    xs = v if v.__class__ is tuple else (v,)
    ints = []
    for x in xs:
        if k0 in ('float', 'double'):
            x = val.bits_of(x, w0)
        ints.append(x)
    if w1 <= w0:
        r = w0 // w1
        out = []
        for x in ints:
            for k in range(r):
                if x.__class__ is int:
                    out.append((x >> (k * w1)) & ((1 << w1) - 1))
                else:
                    u = U(x)
                    out.append(mk(t.mkmod(t.mkfloor(u, 1 << (k * w1)), 1 << w1), w1))
    else:
        r = w1 // w0
        out = []
        for i in range(0, len(ints), r):
            acc = t.ZERO
            for k in range(r):
                acc = padd(acc, pscale(U(ints[i + k]), 1 << (k * w0)))
            out.append(mk(acc, w1))
    if k1 in ('float', 'double'):
        out = [val.from_bits(x, w1) for x in out]
    return tuple(out) if n1 > 1 or len(out) > 1 else out[0]


def I_minmax(n, a, b, w):
    if a.__class__ is int and b.__class__ is int:
        if n[0] == 's':
            h = 1 << (w - 1)
            x, y = a ^ h, b ^ h
        else:
            x, y = a, b
        if n[1:] == 'min':
            return a if x < y else b
        return a if x > y else b
    c = I_cmp(('u' if n[0] == 'u' else 's') + ('lt' if n[1:] == 'min' else 'gt'), a, b, w)
    if c.__class__ is int:
        return a if c else b
    if n[0] == 's':
        return mk(t.mkite(c.p, S(a, w), S(b, w)), w)
    return mk(t.mkite(c.p, U(a), U(b)), w)


def I_abs(a, w):
    if a.__class__ is int:
        return ((1 << w) - a) & ((1 << w) - 1) if a >> (w - 1) else a
    s = S(a)
    lo, hi = t.prange(s)
    if lo >= 0:
        return mk(s, w)
    if hi <= 0:
        return mk(pscale(s, -1), w)
    # |s| with one canonical sign
    m0 = t.lead(s)
    if s.d[m0] < 0:
        s = pscale(s, -1)
    return mk(t.mkite(t.mkge(s), s, pscale(s, -1)), w)


def I_ovf(n, a, b, w):
    """(result, overflow)"""
    M = (1 << w) - 1
    op = n[1:]
    if a.__class__ is int and b.__class__ is int:
        if n[0] == 's':
            x = a - (1 << w) if a >> (w - 1) else a
            y = b - (1 << w) if b >> (w - 1) else b
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y
            return (r & M, 0 if -(1 << (w - 1)) <= r < (1 << (w - 1)) else 1)
        r = a + b if op == 'add' else a - b if op == 'sub' else a * b
        return (r & M, 0 if 0 <= r <= M else 1)
    if n[0] == 's':
        x, y = S(a, w), S(b, w)
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    else:
        x, y = U(a), U(b)
        lo, hi = 0, M
    r = padd(x, y) if op == 'add' else psub(x, y) if op == 'sub' else pmul(x, y)
    if op != 'mul' and len(r.d) > 4:
        l, h = t.qrange(x)
        l2, h2 = t.qrange(y)
        l, h = (l + l2, h + h2) if op == 'add' else (l - h2, h - l2)
        if l >= lo and h <= hi:
            r._q = (t.F.version, l, h)
            return mk(r, w), 0
    l, h = t.bestrange(r)
    if op == 'mul' and not (l >= lo and h <= hi):
        l1, h1 = t.bestrange(x)
        l2, h2 = t.bestrange(y)
        l3, h3 = t.imul(l1, h1, l2, h2)
        if x.d == y.d:
            l3 = 0
        l, h = max(l, l3), min(h, h3)
    if l >= lo and h <= hi:
        o = 0
    else:
        under = t.bnot(t.mkge(paddc(r, -lo)))
        over = t.mkge(paddc(r, -hi - 1))
        o = mk(t.bor(under, over), 1)
    return (mk(r, w), o)


def I_sat(n, a, b, w):
    M = (1 << w) - 1
    op = n[1:]
    signed = n[0] == 's'
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, M)
    x = S(a, w) if signed else U(a)
    y = S(b, w) if signed else U(b)
    r = padd(x, y) if op == 'add' else psub(x, y)
    l, h = t.prange(r)
    if l < lo:
        r = t.mkite(t.mkge(paddc(r, -lo)), r, pconst(lo))
    if h > hi:
        r = t.mkite(t.mkge(paddc(pscale(r, -1), hi)), r, pconst(hi))
    return mk(r, w)


def I_ctpop(a, w):
    if a.__class__ is int:
        return bin(a).count('1')
    u = U(a)
    lo, hi = t.prange(u)
    n = int(hi).bit_length()
    if n > 16:
        raise Unsupported('ctpop')
    r = t.ZERO
    for b in val.pbits(u, n):
        r = padd(r, b)
    return mk(r, w)


def I_ctlz(a, w):
    if a.__class__ is int:
        return w - a.bit_length()
    u = U(a)
    # number of thresholds below
    r = pconst(w)
    lo, hi = t.prange(u)
    for k in range(int(hi).bit_length()):
        r = psub(r, t.mkge(paddc(u, -(1 << k))))
    return mk(r, w)


def I_cttz(a, w):
    if a.__class__ is int:
        return (a & -a).bit_length() - 1 if a else w
    raise Unsupported('cttz')


def I_bswap(a, w):
    if a.__class__ is int:
        return int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')
    u = U(a)
    r = t.ZERO
    n = w // 8
    for k in range(n):
        b = t.mkmod(t.mkfloor(u, 1 << (8 * k)), 256)
        r = padd(r, pscale(b, 1 << (8 * (n - 1 - k))))
    return mk(r, w)


def I_bitreverse(a, w):
    if a.__class__ is int:
        return int(bin(a)[2:].zfill(w)[::-1], 2)
    raise Unsupported('bitreverse')


def I_fshl(a, b, c, w):
    if a.__class__ is int and b.__class__ is int and c.__class__ is int:
        c %= w
        return ((a << c) | (b >> (w - c))) & ((1 << w) - 1) if c else a
    if c.__class__ is int:
        c %= w
        if c == 0:
            return a
        return val.I_or(val.I_shl(a, c, w), val.I_lshr(b, w - c, w), w, True)
    raise Unsupported('fshl')


def I_fshr(a, b, c, w):
    if c.__class__ is int:
        c %= w
        if c == 0:
            return b
        return val.I_or(val.I_shl(a, w - c, w), val.I_lshr(b, c, w), w, True)
    raise Unsupported('fshr')


def I_3cmp(n, a, b, w):
    lt = I_cmp(n[0] + 'lt', a, b, w)
    gt = I_cmp(n[0] + 'gt', a, b, w)
    if lt.__class__ is int and gt.__class__ is int:
        return (gt - lt) & 0xff
    return mk(psub(U(gt), U(lt)), 8)


def fl1(name, fn, sym):
    def g(x):
        if x.__class__ is float:
            return fn(x)
        return sym(x)
    g.__name__ = name
    return g


def c_log(fn):
    def g(x):
        if x != x or x == math.inf:
            return x
        if x == 0:
            return -math.inf
        if x < 0:
            return math.nan
        return fn(x)
    return g


def c_sqrt(x):
    return math.sqrt(x) if x >= 0 else math.nan


def s_log(base):
    def g(x):
        p = x.p
        lo, hi = t.prange(p)
        if lo <= 0:
            rt = val.HOOK
            if t.strongrange(p)[0] < 0 and not t.casesign(p):
                c = t.mkcmp_real(p, '>=')
                if not rt.settle(c, 'log of a negative number'):
                    return math.nan
        return mkf(t.mklog(val.fname(p), base))
    return g


def s_sqrt(x):
    p = x.p
    lo, hi = t.prange(p)
    if lo < 0:
        rt = val.HOOK
        c = t.mkcmp_real(p, '>=')
        if t.strongrange(p)[0] < 0 and not t.casesign(p) and not rt.settle(c, 'sqrt of a negative number', soft=True):
            return math.nan
    return mkf(t.mksqrt(val.fname(p)))


def settle(self, c, why, soft=False):
    """truth value of c on this path: cheap, by the solver, or by forking"""
    v = self.decide(c)
    if v is not None:
        return v
    r, _ = self.feasible(t.bnot(c))
    if r == 'unsat':
        return 1
    if soft and not self.domain:
        # outside the domain of a root: not part of the property at hand
        self.assumed.add(why)
        return 1
    return self.fork_bool(c, why)


RT.settle = settle


def s_floor(kind):
    def g(x):
        return mkf(t.mkrealfloor(x.p, kind))
    return g


def c_round(x):
    return math.copysign(math.floor(abs(x) + 0.5), x) if abs(x) < 1e15 else x


def guard(fn):
    def g(x):
        if x - x != 0:
            return x
        return float(fn(x))
    return g


F_log10 = fl1('log10', c_log(math.log10), s_log('log10'))
F_log = fl1('log', c_log(math.log), s_log('log'))
F_log2 = fl1('log2', c_log(math.log2), s_log('log2'))
F_sqrt = fl1('sqrt', c_sqrt, s_sqrt)
F_floor = fl1('floor', guard(math.floor), s_floor('rfloor'))
F_ceil = fl1('ceil', guard(math.ceil), s_floor('rceil'))
F_trunc = fl1('trunc', guard(math.trunc), s_floor('rtrunc'))
F_round = fl1('round', guard(c_round), s_floor('rround'))
F_rint = F_nearbyint = F_roundeven = fl1('rint', guard(round), s_floor('rround'))


def un(fn):
    f = t.UNARY[fn][0]

    def c(x):
        try:
            return f(x)
        except OverflowError:
            return math.inf
        except ValueError:
            return math.nan
    return fl1(fn, c, lambda x: mkf(t.mkunary(fn, val.fname(x.p))))


F_sin = un('sin')
F_cos = un('cos')
F_tan = un('tan')
F_exp = un('exp')
F_exp2 = un('exp2')
F_cbrt = un('cbrt')
F_atan = un('atan')


def F_fabs(x):
    if x.__class__ is float:
        return abs(x)
    p = x.p
    lo, hi = t.prange(p)
    if lo >= 0:
        return x
    if hi <= 0:
        return -x
    m0 = t.lead(p)
    if p.d[m0] < 0:
        p = pscale(p, -1)
    return mkf(t.mkite(t.mkcmp_real(p, '>='), p, pscale(p, -1)))


def F_pow(x, y):
    if x.__class__ is float and y.__class__ is float:
        try:
            return math.pow(x, y)
        except OverflowError:
            return math.inf
        except ValueError:
            return math.nan if x < 0 else math.inf
    if y.__class__ is float:
        p = x.p
        lo, hi = t.prange(p)
        if y == int(y) and abs(y) <= 16:
            if y > 0:
                return mkf(val.fmulp(p, p) if y == 2 else t.ppowi(val.fname(p) if y > 2 else p, int(y)))
            return val.F_div(1.0, mkf(t.ppowi(p, int(-y))))
        if lo < 0:
            rt = val.HOOK
            if not rt.settle(t.mkcmp_real(p, '>='), 'fractional power of a negative number', soft=not rt.domain):
                return math.nan
        return mkf(t.mkpow(val.fname(p), y))
    # constant base
    if x.__class__ is float and x > 0:
        return mkf(t.mkunary('exp', pscale(y.p, math.log(x))))
    raise Unsupported('pow')


def F_powi(x, n):
    if n.__class__ is not int:
        raise Unsupported('powi')
    if n >> 31:
        n -= 1 << 32
    if x.__class__ is float:
        try:
            return x ** n
        except ZeroDivisionError:
            return math.inf
        except OverflowError:
            return math.inf
    p = val.fname(x.p) if abs(n) > 2 else x.p
    if n == 2:
        return mkf(val.fmulp(p, p))
    if n >= 0:
        return mkf(t.ppowi(p, n))
    return val.F_div(1.0, mkf(t.ppowi(p, -n)))


def F_copysign(x, y):
    if x.__class__ is float and y.__class__ is float:
        return math.copysign(x, y)
    if y.__class__ is float:
        a = F_fabs(x)
        return -a if math.copysign(1.0, y) < 0 else a
    a = F_fabs(x)
    c = t.mkcmp_real(y.p, '>=')
    return mkf(t.mkite(c, FP(a), pscale(FP(a), -1)))


def F_min(a, b):
    return fmm(a, b, 'olt')


def F_max(a, b):
    return fmm(a, b, 'ogt')


def fmm(a, b, op):
    if a.__class__ is float and a != a:
        return b
    if b.__class__ is float and b != b:
        return a
    c = val.F_cmp(op, a, b)
    if c.__class__ is int:
        return a if c else b
    return mkf(t.mkite(c.p, FP(a), FP(b)))


def F_atan2(y, x):
    if x.__class__ is float and y.__class__ is float:
        return math.atan2(y, x)
    return mkf(t.mkatan2(val.fname(FP(y)), val.fname(FP(x))))


def V_perm(v, idx):
    out = []
    for i in idx:
        if i.__class__ is int:
            out.append(v[i & 7])
            continue
        u = t.mkmod(U(i), 8)
        if all(x.__class__ is float for x in v):
            out.append(mkf(t.mktab(tuple(v), u, False)))
        else:
            r = v[7]
            for k in range(6, -1, -1):
                r = merge(t.mkeq0(paddc(u, -k)), v[k], r)
            out.append(r)
    return tuple(out)


CMPS = {0: 'oeq', 1: 'olt', 2: 'ole', 4: 'une', 13: 'oge', 14: 'ogt', 17: 'olt', 18: 'ole', 29: 'oge', 30: 'ogt'}


def V_cmpps(a, b, k):
    return tuple([FMask(val.F_cmp(CMPS[k], x, y)) for x, y in zip(a, b)])


def V_reduce(op, *a):
    w = a[-1]
    a = a[:-1]
    if op == 'add':
        r = a[0][0]
        for x in a[0][1:]:
            r = (r + x) & ((1 << w) - 1)
        return r
    if op == 'fadd':
        r = a[0]
        for x in a[1]:
            r = r + x
        return r
    if op in ('or', 'and', 'xor'):
        r = a[0][0]
        f = {'or': val.I_or, 'and': val.I_and, 'xor': val.I_xor}[op]
        for x in a[0][1:]:
            r = f(r, x, w)
        return r
    if op in ('umax', 'umin', 'smax', 'smin'):
        r = a[0][0]
        for x in a[0][1:]:
            r = I_minmax(op, r, x, w)
        return r
    raise Unsupported('reduce ' + op)
