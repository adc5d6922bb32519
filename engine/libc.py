"""External functions: allocation, files, process environment and the harness interface."""
import math
import rt as R
import terms as t
import val
from terms import Unsupported
from val import SInt, U, mk


def table(rt):
    x = {}

    def alloc(n, zero=False):
        n = rt.conc(n)
        if n > 1 << 31:
            return 0
        return rt.new_obj(n, 'heap')

    def free(p):
        if p == 0:
            return
        o = rt.objs.get(p >> 32)
        if o is None or o.dead or p & R.OFFM:
            raise R.Panic('invalid free')
        rt.touch(p >> 32, o)
        o.dead = True
        if not rt.logs:
            o.data = bytearray(0)
            o.sym = {}

    def realloc(p, n):
        n = rt.conc(n)
        if p == 0:
            return alloc(n)
        o = rt.objs[p >> 32]
        q = alloc(n)
        if q == 0:
            return 0
        rt.MEMCPY(q, p, min(n, len(o.data)))
        free(p)
        return q
    x['malloc'] = alloc
    x['calloc'] = lambda a, b: alloc(rt.conc(a) * rt.conc(b))
    x['realloc'] = realloc
    x['free'] = free

    def pmemalign(out, al, n):
        p = alloc(n)
        if p == 0:
            return 12
        rt.ST(out, p, 8)
        return 0
    x['posix_memalign'] = pmemalign
    x['aligned_alloc'] = lambda al, n: alloc(n)

    def rust_alloc(n, al):
        return alloc(n)
    for nm in list(rt.m.funcs) + list(rt.m.decls):
        if not nm.startswith('_R'):
            continue
        if nm.endswith('___rust_alloc'):
            x[nm] = rust_alloc
        elif nm.endswith('___rust_alloc_zeroed'):
            x[nm] = rust_alloc
        elif nm.endswith('___rust_dealloc'):
            x[nm] = lambda p, n, al: free(p)
        elif nm.endswith('___rust_realloc'):
            x[nm] = lambda p, o, al, n: realloc(p, n)

    def memcmp(a, b, n):
        n = rt.conc(n)
        k = 0
        acc = t.ONE
        while k < n:
            s = 8 if k + 8 <= n else 4 if k + 4 <= n else 2 if k + 2 <= n else 1
            c = val.I_cmp('eq', rt.LD(a + k, s), rt.LD(b + k, s), s * 8)
            if c.__class__ is int:
                if not c:
                    return 1
            else:
                acc = t.band(acc, c.p)
            k += s
        return mk(t.bnot(acc), 32)
    x['bcmp'] = memcmp

    def memcmp3(a, b, n):
        n = rt.conc(n)
        for k in range(n):
            u, v = rt.LD(a + k, 1), rt.LD(b + k, 1)
            if u.__class__ is not int or v.__class__ is not int:
                c = val.I_cmp('eq', u, v, 8)
                if c.__class__ is not int:
                    c = rt.fork_bool(c.p, 'memcmp')
                if c:
                    continue
                c = val.I_cmp('ult', u, v, 8)
                if c.__class__ is not int:
                    c = rt.fork_bool(c.p, 'memcmp')
                return 0xffffffff if c else 1
            if u != v:
                return 0xffffffff if u < v else 1
        return 0
    x['memcmp'] = memcmp3

    def strlen(p):
        n = 0
        while True:
            c = rt.LD(p + n, 1)
            if c.__class__ is not int:
                raise Unsupported('strlen of symbolic text')
            if c == 0:
                return n
            n += 1
    x['strlen'] = strlen
    x['memcpy'] = lambda a, b, n: (rt.MEMCPY(a, b, n), a)[1]
    x['memmove'] = x['memcpy']
    x['memset'] = lambda a, v, n: (rt.MEMSET(a, v, n), a)[1]

    # ---- files
    def errno():
        if rt.errno_p is None or rt.errno_p >> 32 not in rt.objs:
            rt.errno_p = rt.new_obj(4, 'errno')
        return rt.errno_p
    x['__errno_location'] = errno

    def fail(e):
        rt.ST(errno(), e, 4)
        return (1 << 32) - 1

    def cpath(p):
        n = strlen(p)
        return rt.text(p, n)

    def open64(p, flags, *mode):
        f = rt.files.get(cpath(p))
        if f is None:
            return fail(2)
        fd = 3 + len(rt.fds)
        rt.fds[fd] = [f, 0]
        return fd
    x['open64'] = open64
    x['open'] = open64

    def read(fd, buf, n):
        n = rt.conc(n)
        e = rt.fds.get(fd)
        if e is None:
            if fd == 0:
                return 0
            fail(9)
            return R.M64
        obj, pos = e
        size = len(rt.objs[obj >> 32].data)
        k = min(n, size - pos, rt.cfg.get('read_chunk', 1 << 30))
        if k <= 0:
            return 0
        rt.MEMCPY(buf, obj + pos, k)
        e[1] = pos + k
        return k
    x['read'] = read

    def lseek(fd, off, wh):
        e = rt.fds.get(fd)
        if e is None:
            fail(29)
            return R.M64
        if off >> 63:
            off -= 1 << 64
        size = len(rt.objs[e[0] >> 32].data)
        e[1] = off if wh == 0 else e[1] + off if wh == 1 else size + off
        return e[1]
    x['lseek64'] = lseek
    x['lseek'] = lseek

    def fstat(fd, buf):
        e = rt.fds.get(fd)
        if e is None:
            return fail(9)
        n = len(rt.objs[e[0] >> 32].data)
        rt.MEMSET(buf, 0, 144)
        rt.ST(buf + 24, 0o100644, 4)
        rt.ST(buf + 48, n, 8)
        rt.ST(buf + 56, 4096, 8)
        return 0
    x['fstat64'] = fstat
    x['fstat'] = fstat
    x['close'] = lambda fd: 0
    x['fcntl64'] = lambda *a: 0
    x['fcntl'] = x['fcntl64']
    x['write'] = lambda fd, p, n: n
    x['getenv'] = lambda p: 0
    x['gettid'] = lambda: 1
    x['stat64'] = lambda p, b: fail(2)
    x['syscall'] = lambda *a: (fail(38), R.M64)[1]
    x['abort'] = lambda: rt.panic('abort')
    x['atan2f'] = lambda a, b: val.r32(R.F_atan2(a, b))
    x['atan2'] = R.F_atan2
    x['cbrt'] = R.F_cbrt
    x['cbrtf'] = lambda a: val.r32(R.F_cbrt(a))
    x['powf'] = lambda a, b: val.r32(R.F_pow(a, b))
    x['pow'] = R.F_pow
    x['hypotf'] = lambda a, b: val.r32(R.F_sqrt(a * a + b * b))
    x['hypot'] = lambda a, b: R.F_sqrt(a * a + b * b)
    x['tanf'] = lambda a: val.r32(R.F_tan(a))
    x['atanf'] = lambda a: val.r32(R.F_atan(a))

    # ---- harness interface
    x['ve_param'] = lambda i: rt.params[i] if i < len(rt.params) else 0
    x['ve_u'] = rt.ve_u
    x['ve_fill'] = rt.ve_fill
    x['ve_assume'] = rt.ve_assume
    x['ve_prove'] = rt.ve_prove
    x['ve_prove_eq'] = rt.ve_prove_eq
    x['ve_prove_le'] = rt.ve_prove_le
    x['ve_nonan'] = rt.ve_nonan
    x['ve_cover'] = rt.ve_cover
    x['ve_threads'] = lambda: rt.cfg.get('threads', 2)
    x['ve_join_mode'] = lambda: rt.cfg.get('join', 0)
    x['ve_spawn'] = rt.spawn
    x['ve_yield'] = rt.ve_yield
    x['ve_block'] = rt.ve_block
    x['ve_wait'] = rt.ve_wait
    x['ve_pass'] = rt.ve_pass
    x['sched_yield'] = rt.ve_pass
    x['nanosleep'] = lambda *a: rt.ve_pass()
    x['clock_nanosleep'] = lambda *a: rt.ve_pass()
    x['usleep'] = lambda *a: rt.ve_pass()

    def domain(on):
        rt.domain = bool(on & 1)
    x['ve_domain'] = domain

    def pick(v):
        if v.__class__ is int:
            return v
        return rt.pick_value(U(v), 64)
    x['ve_pick'] = pick

    def vfile(p, n):
        n = rt.conc(n)
        o = rt.new_obj(n, 'file')
        rt.MEMCPY(o, p, n)
        k = len(rt.filelist)
        rt.filelist.append(o)
        rt.files['/ve/%d.y4m' % k] = o
        return k
    x['ve_file'] = vfile

    def vpath(h, out):
        s = ('/ve/%d.y4m' % h).encode()
        for i, c in enumerate(s):
            rt.ST(out + i, c, 1)
        return len(s)
    x['ve_path'] = vpath
    return x
