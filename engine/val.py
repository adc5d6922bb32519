"""Machine values over terms: symbolic machine integers (mod 2^w) and reals standing for floats."""
import math
import struct
import terms as t
from terms import Poly, Unsupported, F, pconst, padd, psub, pmul, pscale, paddc

PF = struct.Struct('<f')
PD = struct.Struct('<d')
INF = math.inf


class NeedFork(Exception):
    """The condition (boolean Poly) must be split into cases at the outermost place."""

    def __init__(self, why, cond=None):
        Exception.__init__(self, why)
        self.cond = cond


class SInt:
    __slots__ = ('p', 'w', 'u')

    def __init__(self, p, w):
        self.p = p
        self.w = w
        self.u = None

    def __repr__(self):
        return 'S%d(%r)' % (self.w, self.p)

    def __add__(self, o):
        w = self.w
        if o.__class__ is int:
            if o >> (w - 1):
                o -= 1 << w
            return mk(paddc(self.p, o), w)
        if o.__class__ is SInt:
            return mk(padd(self.p, o.p), w)
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        w = self.w
        if o.__class__ is int:
            if o >> (w - 1):
                o -= 1 << w
            return mk(paddc(self.p, -o), w)
        if o.__class__ is SInt:
            return mk(psub(self.p, o.p), w)
        return NotImplemented

    def __rsub__(self, o):
        w = self.w
        if o >> (w - 1):
            o -= 1 << w
        return mk(paddc(pscale(self.p, -1), o), w)

    def __mul__(self, o):
        w = self.w
        if o.__class__ is int:
            if o >> (w - 1):
                o -= 1 << w
            return mk(pscale(self.p, o), w)
        if o.__class__ is SInt:
            return mk(pmul(best(self), best(o)), w)
        return NotImplemented
    __rmul__ = __mul__

    def __and__(self, o):
        w = self.w
        if o.__class__ is int:
            if o == (1 << w) - 1:
                return self
            if o == 0:
                return 0
            return mk(and_const(self, o), w)
        if w == 1:
            return mk(t.band(self.p, o.p), 1)
        return I_and(self, o, w)
    __rand__ = __and__

    def __rshift__(self, k):
        return I_lshr(self, k, self.w)

    def __int__(self):
        raise Unsupported('concrete value needed')
    __index__ = __int__
    __bool__ = __int__


def mk(p, w):
    d = p.d
    if not d:
        return 0
    if len(d) == 1 and () in d:
        return d[()] & ((1 << w) - 1)
    return SInt(p, w)


def U(x):
    """canonical unsigned polynomial"""
    if x.__class__ is int:
        return pconst(x)
    if x.__class__ is not SInt:
        raise Unsupported('integer operation on %r' % (x,))
    w = x.w
    p = x.p
    lo, hi = t.qrange(p)
    if lo >= 0 and hi < (1 << w):
        return p
    u = x.u
    if u is not None and u[0] == F.version:
        return u[1]
    lo, hi = t.bestrange(p)
    if lo >= 0 and hi < (1 << w):
        r = p
    elif lo >= -(1 << w) and hi < (1 << w):
        g = t.mkge(p)
        r = padd(paddc(p, 1 << w), pscale(g, -(1 << w)))
    else:
        r = t.mkmod(p, 1 << w)
    x.u = (F.version, r)
    return r


def S(x, w=None):
    """canonical signed polynomial"""
    if x.__class__ is int:
        return pconst(x - (1 << w) if x >> (w - 1) else x)
    if x.__class__ is not SInt:
        raise Unsupported('integer operation on %r' % (x,))
    w = x.w
    p = x.p
    h2 = 1 << (w - 1)
    lo, hi = t.qrange(p)
    if lo >= -h2 and hi < h2:
        return p
    lo, hi = t.bestrange(p)
    if lo >= -h2 and hi < h2:
        return p
    return psub(t.mkmod(paddc(p, h2), 1 << w), pconst(h2))


def best(x):
    """a small representative polynomial"""
    p = x.p
    lo, hi = t.prange(p)
    w = x.w
    if lo >= -(1 << (w - 1)) and hi < (1 << w):
        return p
    return U(x)


def pol(x, w, signed_like=None):
    """some polynomial congruent to x"""
    if x.__class__ is int:
        if signed_like is not None and x >> (w - 1):
            return pconst(x - (1 << w))
        return pconst(x)
    return x.p


def and_const(x, m):
    w = x.w
    if w == 1:
        return x.p
    r = t.ZERO
    i = 0
    src = x.p
    while i < w:
        if not (m >> i) & 1:
            i += 1
            continue
        j = i
        while j < w and (m >> j) & 1:
            j += 1
        # bits i..j
        if i == 0:
            v = t.mkmod(src, 1 << j) if j < w else U(x)
            lo, hi = t.prange(src)
            if lo >= 0 and hi < (1 << j):
                v = src
            r = padd(r, v)
        else:
            u = U(x)
            f = t.mkfloor(u, 1 << i)
            if j < w:
                lo, hi = t.prange(f)
                if not (lo >= 0 and hi < (1 << (j - i))):
                    f = t.mkmod(f, 1 << (j - i))
            r = padd(r, pscale(f, 1 << i))
        i = j
    return r


def gcd2(p):
    """largest power of two dividing every term"""
    g = 0
    for m, c in p.d.items():
        g = math.gcd(g, c)
    return g & -g if g else 1 << 64


def pbits(p, n):
    """bit decomposition for small ranges"""
    out = []
    for i in range(n):
        f = t.mkfloor(p, 1 << i)
        out.append(psub(f, pscale(t.mkfloor(p, 1 << (i + 1)), 2)))
    return out


def I_and(a, b, w):
    if a.__class__ is int or b.__class__ is int:
        return a & b
    pa, pb = U(a), U(b)
    la, ha = t.prange(pa)
    lb, hb = t.prange(pb)
    if pa.d == pb.d:
        return a
    if ha <= 1 and hb <= 1:
        return mk(t.pmul(pa, pb), w)
    n = int(min(ha, hb)).bit_length()
    # 0/all-ones masks:  (-c) & x
    for x, y in ((a, b), (b, a)):
        c = maskbool(x)
        if c is not None:
            return mk(t.mkite(c, U(y), t.ZERO), w)
    if n <= 8:
        A = pbits(t.mkmod(pa, 1 << n), n)
        B = pbits(t.mkmod(pb, 1 << n), n)
        r = t.ZERO
        for i in range(n):
            r = padd(r, pscale(pmul(A[i], B[i]), 1 << i))
        return mk(r, w)
    raise Unsupported('symbolic and')


def maskbool(x):
    """c when x == -c with c boolean"""
    if x.__class__ is not SInt:
        return None
    lo, hi = t.prange(x.p)
    if lo >= -1 and hi <= 0:
        return pscale(x.p, -1)
    M = (1 << x.w) - 1
    d = x.p.d
    if all(c % M == 0 for c in d.values()):
        q = Poly({m: c // M for m, c in d.items()})
        lo, hi = t.prange(q)
        if lo >= 0 and hi <= 1:
            return q
    return None


def I_or(a, b, w, disj=False):
    if a.__class__ is int and b.__class__ is int:
        return a | b
    if a.__class__ is int:
        a, b = b, a
    if w == 1:
        if b.__class__ is int:
            return 1 if b else a
        return mk(t.bor(a.p, b.p), 1)
    if disj:
        return a + b
    if b.__class__ is int:
        if b == 0:
            return a
        if b == (1 << w) - 1:
            return b
        return mk(psub(paddc(a.p, b), and_const(a, b)), w)
    pa, pb = U(a), U(b)
    la, ha = t.prange(pa)
    lb, hb = t.prange(pb)
    if hb < gcd2(pa) or ha < gcd2(pb):
        return mk(padd(pa, pb), w)
    if ha <= 1 and hb <= 1:
        return mk(t.bor(pa, pb), w)
    # complementary selections
    x = I_and(a, b, w)
    return mk(psub(padd(pa, pb), pol(x, w)), w)


def I_xor(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return a ^ b
    if a.__class__ is int:
        a, b = b, a
    if w == 1:
        if b.__class__ is int:
            return mk(t.bnot(a.p), 1) if b else a
        return mk(t.bxor(a.p, b.p), 1)
    if b.__class__ is int:
        if b == 0:
            return a
        if b == (1 << w) - 1:
            return mk(paddc(pscale(a.p, -1), -1), w)
        if b == 1 << (w - 1):
            return a + b
        return mk(psub(paddc(a.p, b), pscale(and_const(a, b), 2)), w)
    x = I_and(a, b, w)
    return mk(psub(padd(U(a), U(b)), pscale(pol(x, w), 2)), w)


def I_shl(a, b, w):
    if b.__class__ is not int:
        lo, hi = t.prange(U(b))
        if lo == hi:
            b = int(lo)
        elif hi - lo <= 8 and hi < w:
            r = t.ZERO
            ub = U(b)
            for k in range(int(lo), int(hi) + 1):
                v = pol(I_shl(a, k, w), w)
                r = padd(r, pmul(t.mkeq0(paddc(ub, -k)), v))
            return mk(r, w)
        else:
            raise Unsupported('symbolic shift')
    if a.__class__ is int:
        return (a << b) & ((1 << w) - 1) if b < w else 0
    return mk(pscale(a.p, 1 << b), w) if b < w else 0


def I_lshr(a, b, w):
    if b.__class__ is not int:
        ub = U(b)
        lo, hi = t.prange(ub)
        if hi - lo <= 8 and hi < w:
            r = t.ZERO
            for k in range(int(lo), int(hi) + 1):
                r = padd(r, pmul(t.mkeq0(paddc(ub, -k)), pol(I_lshr(a, k, w), w)))
            return mk(r, w)
        raise Unsupported('symbolic shift')
    if a.__class__ is int:
        return a >> b if b < w else 0
    return mk(t.mkfloor(U(a), 1 << b), w)


def I_ashr(a, b, w):
    if b.__class__ is not int:
        raise Unsupported('symbolic shift')
    if a.__class__ is int:
        return ((a - (1 << w) if a >> (w - 1) else a) >> b) & ((1 << w) - 1)
    return mk(t.mkfloor(S(a), 1 << b), w)


HOOK = None     # runtime, for forks and obligations


def I_udiv(a, b, w):
    if b.__class__ is not int:
        ub = U(b)
        lo, hi = t.bestrange(ub)
        if lo == hi:
            b = int(lo)
        else:
            v = HOOK.pick_value(ub, w)
            b = v
    if b == 0:
        HOOK.panic('division by zero')
    if a.__class__ is int:
        return a // b
    return mk(t.mkfloor(U(a), b), w)


def I_urem(a, b, w):
    if b.__class__ is not int:
        ub = U(b)
        if a.__class__ is int and a < t.prange(ub)[0]:
            return a
        b = HOOK.pick_value(ub, w)
    if b == 0:
        HOOK.panic('remainder by zero')
    if a.__class__ is int:
        return a % b
    u = U(a)
    if t.prange(u)[1] < b:
        return mk(u, w)
    return mk(t.mkmod(u, b), w)


def tdiv(p, n):
    """truncating division of a signed polynomial by n>0"""
    lo, hi = t.prange(p)
    if lo >= 0:
        return t.mkfloor(p, n)
    # the form a shift with a rounding bias takes
    g = t.mkge(p)
    return t.mkfloor(psub(t.paddc(p, n - 1), pscale(g, n - 1)), n)


def I_sdiv(a, b, w):
    if b.__class__ is not int:
        b = HOOK.pick_value(U(b), w)
    if b == 0:
        HOOK.panic('division by zero')
    sb = b - (1 << w) if b >> (w - 1) else b
    if a.__class__ is int:
        sa = a - (1 << w) if a >> (w - 1) else a
        q = abs(sa) // abs(sb)
        if (sa < 0) != (sb < 0):
            q = -q
        return q & ((1 << w) - 1)
    r = tdiv(S(a), abs(sb))
    return mk(r if sb > 0 else pscale(r, -1), w)


def I_srem(a, b, w):
    q = I_sdiv(a, b, w)
    return (a - q * b) & ((1 << w) - 1) if a.__class__ is int and b.__class__ is int else a - q * b


def I_cmp(pred, a, b, w):
    if a.__class__ is int and b.__class__ is int:
        if pred[0] == 's':
            h = 1 << (w - 1)
            a ^= h
            b ^= h
            pred = 'u' + pred[1:]
        return CMP[pred](a, b)
    if pred == 'eq' or pred == 'ne':
        if w == 1:
            d = t.bxor(U(a), U(b))
            return mk(d if pred == 'ne' else t.bnot(d), 1)
        # any common representative will do when the difference is below the modulus
        if a.__class__ is int:
            a, b = b, a
        pa = a.p
        if b.__class__ is int:
            lo, hi = t.prange(pa)
            c = b
            if lo < 0 and hi < (1 << (w - 1)) and lo >= -(1 << (w - 1)):
                if c >> (w - 1):
                    c -= 1 << w
                d = paddc(pa, -c)
            else:
                d = paddc(U(a), -c)
        else:
            d = psub(pa, b.p)
            lo, hi = t.prange(d)
            if not (lo > -(1 << w) and hi < (1 << w)):
                d = psub(U(a), U(b))
        r = t.mkeq0(d)
        return mk(r if pred == 'eq' else t.bnot(r), 1)
    if pred[0] == 'u':
        pa, pb = U(a), U(b)
    else:
        pa, pb = S(a, w), S(b, w)
    k = pred[1:]
    if k == 'lt':
        return mk(t.mkge(paddc(psub(pb, pa), -1)), 1)
    if k == 'le':
        return mk(t.mkge(psub(pb, pa)), 1)
    if k == 'gt':
        return mk(t.mkge(paddc(psub(pa, pb), -1)), 1)
    return mk(t.mkge(psub(pa, pb)), 1)


CMP = {
    'eq': lambda a, b: 1 if a == b else 0, 'ne': lambda a, b: 1 if a != b else 0,
    'ult': lambda a, b: 1 if a < b else 0, 'ule': lambda a, b: 1 if a <= b else 0,
    'ugt': lambda a, b: 1 if a > b else 0, 'uge': lambda a, b: 1 if a >= b else 0,
}


def I_trunc(a, w0, w):
    if a.__class__ is int:
        return a & ((1 << w) - 1)
    if a.__class__ is not SInt:
        raise Unsupported('trunc of %r' % (a,))
    if w == 1:
        lo, hi = t.prange(a.p)
        if lo >= 0 and hi <= 1:
            return mk(a.p, 1)
        return mk(t.mkmod(a.p, 2), 1)
    return mk(a.p, w)


def I_zext(a, w0, w):
    if a.__class__ is int:
        return a
    return mk(U(a), w)


def I_sext(a, w0, w):
    if a.__class__ is int:
        return (a - (1 << w0) if a >> (w0 - 1) else a) & ((1 << w) - 1)
    if w0 == 1:
        return mk(pscale(a.p, -1), w)
    return mk(S(a), w)


# ------------------------------------------------------------------ floats
class SFlt:
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return 'F(%r)' % (self.p,)

    def __add__(self, o):
        if o.__class__ is float:
            if o - o != 0:
                return o
            return mkf(paddc(self.p, o))
        return mkf(padd(self.p, o.p))
    __radd__ = __add__

    def __sub__(self, o):
        if o.__class__ is float:
            if o - o != 0:
                return -o
            return mkf(paddc(self.p, -o))
        return mkf(psub(self.p, o.p))

    def __rsub__(self, o):
        if o - o != 0:
            return o
        return mkf(paddc(pscale(self.p, -1), o))

    def __mul__(self, o):
        if o.__class__ is float:
            if o - o != 0:
                if o != o:
                    return o
                raise NeedFork('inf * symbolic')
            return mkf(pscale(self.p, o))
        return mkf(fmulp(self.p, o.p))
    __rmul__ = __mul__

    def __neg__(self):
        return mkf(pscale(self.p, -1))


FATOM = 72


def fmulp(p, q):
    """product; large factors are named first (equal factors get the same name)"""
    a, b = len(p.d), len(q.d)
    if a > FATOM:
        p = t.atomize(p)
    if b > FATOM:
        q = t.atomize(q)
    if a == b and 1 < a <= FATOM and not plain(p) and t.same_dir(p, q):
        p = t.atomize(p)
        q = t.atomize(q)
    return pmul(p, q)


PLAIN = ('in', 'def', 'floor')


def plain(p):
    K = t.T.kind
    return all(K[a] in PLAIN for m in p.d for a in m)


def mkf(p):
    d = p.d
    if not d:
        return 0.0
    if len(d) == 1 and () in d:
        return float(d[()])
    return SFlt(p)


def FP(x):
    """polynomial of a finite float value"""
    if x.__class__ is SFlt:
        return x.p
    if x.__class__ is float:
        if x - x != 0:
            raise NeedFork('special float in a polynomial')
        return pconst(x)
    raise Unsupported('float operation on %r' % (x,))


def r32(x):
    if x.__class__ is float:
        try:
            return PF.unpack(PF.pack(x))[0]
        except OverflowError:
            return math.copysign(INF, x)
    return x


def F_div(a, b):
    if b.__class__ is float:
        if a.__class__ is float:
            try:
                return a / b
            except ZeroDivisionError:
                if a == 0 or a != a:
                    return math.nan
                return math.copysign(INF, a) * math.copysign(1.0, b)
        if b == 0:
            # a/0: sign of a matters
            s = HOOK.sign_of(a.p)
            return math.nan if s == 0 else s * INF
        if b - b != 0:
            return 0.0 if b == b else b
        return mkf(pscale(a.p, 1.0 / b)) if not exactdiv(a.p, b) else mkf(Poly({m: c / b for m, c in a.p.d.items()}))
    p = b.p
    lo, hi = t.prange(p)
    if lo <= 0 <= hi and not HOOK.nonzero(p):
        # p == 0 on this path
        return F_div(a, 0.0)
    if a.__class__ is float:
        if a - a != 0:
            raise NeedFork('inf / symbolic')
        if a == 0:
            return 0.0
        return mkf(pscale(t.mkinv(fname(p)), a))
    return mkf(t.pdiv(a.p, fname(p)))


def fname(p):
    return t.atomize(p) if len(p.d) > FATOM else p


def exactdiv(p, b):
    return True


def F_rem(a, b):
    if a.__class__ is float and b.__class__ is float:
        return math.fmod(a, b)
    raise Unsupported('frem')


def F_cmp(pred, a, b):
    if a.__class__ is float and b.__class__ is float:
        nan = a != a or b != b
        if pred == 'ord':
            return 0 if nan else 1
        if pred == 'uno':
            return 1 if nan else 0
        if nan:
            return 1 if pred[0] == 'u' else 0
        k = pred[1:]
        return 1 if (a == b if k == 'eq' else a != b if k == 'ne' else a < b if k == 'lt' else a <= b if k == 'le' else
                     a > b if k == 'gt' else a >= b) else 0
    for x, y, sw in ((a, b, False), (b, a, True)):
        if x.__class__ is float and x - x != 0:
            if x != x:
                return 1 if pred[0] == 'u' else 0
            # x infinite, y finite
            k = pred[1:]
            if pred == 'ord':
                return 1
            if pred == 'uno':
                return 0
            v = x if not sw else -x     # sign of a-b
            return 1 if (k == 'ne' or (k in ('gt', 'ge') and v > 0) or (k in ('lt', 'le') and v < 0)) else 0
    if pred == 'ord':
        return 1
    if pred == 'uno':
        return 0
    d = psub(FP(a), FP(b))
    k = pred[1:]
    if k == 'gt':
        r = t.mkcmp_real(d, '>')
    elif k == 'ge':
        r = t.mkcmp_real(d, '>=')
    elif k == 'lt':
        r = t.mkcmp_real(pscale(d, -1), '>')
    elif k == 'le':
        r = t.mkcmp_real(pscale(d, -1), '>=')
    else:
        r = t.mkcmp_real(d, '==')
        if k == 'ne':
            r = t.bnot(r)
    return mk(r, 1)


NAMELIM = 12


def I2F(x, w, signed, f32=False):
    if x.__class__ is int:
        v = (x - (1 << w) if signed and x >> (w - 1) else x)
        return r32(float(v)) if f32 else float(v)
    p = S(x) if signed else U(x)
    if len(p.d) > NAMELIM:
        p = t.atomize(p)
    return mkf(p)


def F2I(x, w, signed, sat=True):
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    M = (1 << w) - 1
    if x.__class__ is float:
        if x != x:
            return 0
        if x <= lo:
            return lo & M
        if x >= hi:
            return hi & M
        return int(x) & M
    p = t.mkrealfloor(x.p, 'rtrunc') if not t.pint(x.p) else x.p
    l, h = t.prange(p)
    if l < lo:
        p = t.mkite(t.mkge(paddc(p, -lo)), p, pconst(lo))
    if h > hi:
        p = t.mkite(t.mkge(paddc(pscale(p, -1), hi)), p, pconst(hi))
    return mk(p, w)


class FMask:
    """all-ones / all-zeros lane of a vector compare"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c


def bits_of(x, w):
    if x.__class__ is float:
        return int.from_bytes((PF if w == 32 else PD).pack(x), 'little')
    if x.__class__ is FMask:
        c = x.c
        if c.__class__ is int:
            return (1 << w) - 1 if c else 0
        return mk(pscale(c.p, -1), w)
    return mk(t.mkbits(x.p, w), w)


def from_bits(x, w):
    if x.__class__ is int:
        return (PF if w == 32 else PD).unpack(x.to_bytes(w // 8, 'little'))[0]
    if x.__class__ is SInt:
        return mkf(t.mkfrombits(U(x), w))
    return x


# ------------------------------------------------------------------ select / merge
def is_f(x):
    return x.__class__ is float or x.__class__ is SFlt


def same(a, b):
    if a is b:
        return True
    if a.__class__ is not b.__class__:
        return False
    if a.__class__ is int:
        return a == b
    if a.__class__ is float:
        return a == b or (a != a and b != b)
    if a.__class__ is SInt:
        return a.w == b.w and a.p.d == b.p.d
    if a.__class__ is SFlt:
        return a.p.d == b.p.d
    if a.__class__ is tuple:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


def merge(c, a, b, w=64):
    """value that is a when boolean polynomial c holds and b otherwise"""
    if same(a, b):
        return a
    if a.__class__ is tuple or b.__class__ is tuple:
        if a.__class__ is not tuple or b.__class__ is not tuple or len(a) != len(b):
            raise NeedFork('merge shapes', c)
        return tuple([merge(c, x, y, w) for x, y in zip(a, b)])
    if is_f(a) and is_f(b):
        for x in (a, b):
            if x.__class__ is float and x - x != 0:
                raise NeedFork('merge of a special float', c)
        return mkf(t.mkite(c, FP(a), FP(b)))
    if a.__class__ is None.__class__ or b.__class__ is None.__class__:
        return None
    if a.__class__ is SInt:
        w = a.w
    elif b.__class__ is SInt:
        w = b.w
    if (a.__class__ is int or a.__class__ is SInt) and (b.__class__ is int or b.__class__ is SInt):
        if w == 1:
            return mk(t.mkite(c, U(a), U(b)), 1)
        if a.__class__ is int and b.__class__ is int:
            h = 1 << (w - 1)
            # small signed values merge around zero
            if (a >= h) != (b >= h) and (a >= (1 << w) - h // 2 or b >= (1 << w) - h // 2):
                A = pconst(a - (1 << w) if a >= h else a)
                B = pconst(b - (1 << w) if b >= h else b)
            else:
                A, B = pconst(a), pconst(b)
        else:
            A = a.p if a.__class__ is SInt else None
            B = b.p if b.__class__ is SInt else None
            if A is None:
                neg = t.prange(B)[0] < 0
                A = pconst(a - (1 << w) if neg and a >> (w - 1) else a)
            if B is None:
                neg = t.prange(A)[0] < 0
                B = pconst(b - (1 << w) if neg and b >> (w - 1) else b)
        return mk(t.mkite(c, A, B), w)
    # mixed int/float (memory of unknown type)
    for x in (a, b):
        if x.__class__ is int and x and w == 64 and not x & 0x7ff0000000000000:
            raise NeedFork('merge of an address and a float', c)
    if is_f(a) and b.__class__ is int:
        return merge(c, a, from_bits(b, 32 if w == 32 else 64), w)
    if is_f(b) and a.__class__ is int:
        return merge(c, from_bits(a, 32 if w == 32 else 64), b, w)
    raise NeedFork('merge of %s and %s' % (a.__class__.__name__, b.__class__.__name__), c)


class LazyDiv:
    """quotient that is only looked at through a selection (compilers move divisions above the test of the divisor)"""
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a = a
        self.b = b


def F_ldiv(a, b):
    if b.__class__ is float:
        return F_div(a, b)
    lo, hi = t.prange(b.p)
    if lo > 0 or hi < 0:
        return F_div(a, b)
    return LazyDiv(a, b)


def force(x):
    return F_div(x.a, x.b) if x.__class__ is LazyDiv else x


def sel_lazy(c, a, b, w):
    if HOOK.decide(c.p) is None:
        r = []
        for x, q in ((a, c.p), (b, t.bnot(c.p))):
            if x.__class__ is LazyDiv:
                F.push()
                F.add(q)
                HOOK.msites.append('select')
                try:
                    x = force(x)
                except HOOK.Restart:
                    r = None
                    break
                finally:
                    HOOK.msites.pop()
                    F.pop()
                    F.bump()
            r.append(x)
        if r is not None:
            return SEL(c, r[0], r[1], w)
        v = HOOK.fork_bool(c.p, 'select of a quotient')
    else:
        v = HOOK.decide(c.p)
    return force(a if v else b)


def SEL(c, a, b, w=64):
    """select with scalar condition c"""
    if c.__class__ is int:
        return force(a if c else b)
    if a.__class__ is LazyDiv or b.__class__ is LazyDiv:
        return sel_lazy(c, a, b, w)
    if same(a, b):
        return a
    v = HOOK.decide(c.p)
    if v is not None:
        return a if v else b
    try:
        return merge(c.p, a, b, w)
    except NeedFork:
        return a if HOOK.fork_bool(c.p, 'select') else b
